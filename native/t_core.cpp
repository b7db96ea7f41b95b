// Events and objects: E01-E04, O01-O05
#include "h.h"

static const vector<string> IDS = { "@lambda", "", "a", "b", "A", "a1", "lambda", "@", "top", "key", "x.y", "<lookat>" };
static const Event::Transition TR[] = { Event::ABORT, Event::PAUSE, Event::RESUME, Event::START, Event::STOP };
static const Event::Type TYPES[] = { Event::ATTRIBUTION, Event::PRESENTATION, Event::SELECTION, Event::LOOKAT };

static int
legal (int s, int t)
{
  if (t == Event::START) return s != Event::OCCURRING ? Event::OCCURRING : -1;
  if (t == Event::PAUSE) return s == Event::OCCURRING ? Event::PAUSED : -1;
  if (t == Event::RESUME) return s == Event::PAUSED ? Event::OCCURRING : -1;
  return s != Event::SLEEPING ? Event::SLEEPING : -1;
}

static void
drive (Mock &m, Event *e, int s)
{
  m.onBefore = m.onAfter = nullptr;
  if (s != Event::SLEEPING) e->transition (Event::START);
  if (s == Event::PAUSED) e->transition (Event::PAUSE);
  m.log.clear ();
}

// every type, state, transition and pair of answers
static void
one (int type, int s, int t, int ans, const char *id)
{
  Mock m ("m");
  m.life = false;
  Event *e = new Event (TYPES[type], &m, id);
  drive (m, e, s);
  NOTE ("event type %s id %s in state %s, request %s, owner answers before=%d after=%d", TYN[type], id, STN[s], TRN[t], ans & 1, ans >> 1);
  CHECK (e->getState () == s, "could not be brought to state %s by legal transitions", STN[s]);
  m.onBefore = [&] (Event *, int) { return (ans & 1) != 0; };
  m.onAfter = [&] (Event *, int) { return (ans >> 1) != 0; };
  bool ok = e->transition ((Event::Transition) t);
  int nx = legal (s, t);
  if (H::prop == "E01")
    {
      if (nx < 0)
        {
          CHECK (!ok, "an illegal request reported success");
          CHECK (e->getState () == s, "an illegal request changed the state to %s", STN[e->getState ()]);
          CHECK (m.log.empty (), "the owner was consulted for an illegal request");
        }
      else if (ans == 3)
        CHECK (ok && e->getState () == nx, "a legal accepted request returned %d, state %s", ok, STN[e->getState ()]);
      else
        CHECK (e->getState () == s || e->getState () == nx, "moved to state %s", STN[e->getState ()]);
    }
  else if (nx >= 0)
    {
      size_t want = (ans & 1) ? 2 : 1;
      CHECK (m.log.size () == want, "owner consulted %zu times, expected %zu", m.log.size (), want);
      CHECK (m.log[0].before && m.log[0].e == e && m.log[0].t == t && m.log[0].state == s, "first consultation wrong (state then: %s)", STN[m.log[0].state]);
      if (want == 2)
        CHECK (!m.log[1].before && m.log[1].e == e && m.log[1].t == t && m.log[1].state == nx, "finish consultation wrong (state then: %s)", STN[m.log[1].state]);
      CHECK (ok == (ans == 3), "reported %d", ok);
      CHECK (e->getState () == (ans == 3 ? nx : s), "left in state %s", STN[e->getState ()]);
    }
  delete e;
}
TESTX ("E01", e01x, 4 * 3 * 5 * 4 * 2)
{
  NONTRIVIAL ();
  one ((int) (i % 4), (int) (i / 4 % 3), (int) (i / 12 % 5), (int) (i / 60 % 4), i >= 240 ? "@lambda" : "x");
}
TESTX ("E02", e02x, 4 * 3 * 5 * 4 * 2)
{
  NONTRIVIAL ();
  one ((int) (i % 4), (int) (i / 4 % 3), (int) (i / 12 % 5), (int) (i / 60 % 4), i >= 240 ? "@lambda" : "x");
}
// histories of requests on several events of one object
static void
history (Rng &r)
{
  Mock m ("m");
  m.life = false;
  m.addAttributionEvent ("a"); m.addSelectionEvent ("s"); m.addPresentationEvent ("p", 0, 10); m.addPresentationEvent ("l", "lab"); m.addLookAtEvent ("k");
  vector<Event *> es (m.getEvents ()->begin (), m.getEvents ()->end ());
  sort (es.begin (), es.end (), [] (Event *a, Event *b) { return a->getFullId () < b->getFullId (); });
  map<Event *, int> model;
  for (auto e : es) { model[e] = Event::SLEEPING; CHECK (e->getState () == Event::SLEEPING, "a new event is not sleeping"); }
  int n = r.range (3, 25);
  for (int k = 0; k < n; k++)
    {
      Event *e = r.of (es);
      int t = r.n (5);
      bool b = !r.p (1, 6), a = !r.p (1, 6);
      if (r.p (1, 15))
        {
          NOTE (" reset(%s)", e->getFullId ().c_str ());
          e->reset ();
          model[e] = Event::SLEEPING;
        }
      else
        {
          NOTE (" %s(%s;%d%d)", TRN[t], e->getFullId ().c_str (), b, a);
          m.log.clear ();
          m.onBefore = [&] (Event *, int) { return b; };
          m.onAfter = [&] (Event *, int) { return a; };
          int nx = legal (model[e], t);
          bool ok = e->transition ((Event::Transition) t);
          CHECK (ok == (nx >= 0 && a && b), "reported %d", ok);
          if (nx < 0) CHECK (m.log.empty (), "owner consulted for an illegal request");
          else CHECK (m.log.size () == (b ? 2u : 1u) && m.log[0].state == model[e] && (!b || m.log[1].state == nx), "consultations wrong");
          if (ok) model[e] = nx;
        }
      for (auto x : es)
        CHECK (x->getState () == model[x], "event %s is %s, expected %s", x->getFullId ().c_str (), STN[x->getState ()], STN[model[x]]);
    }
  NONTRIVIAL ();
}
TEST ("E01", e01h) { history (r); }
TEST ("E02", e02h) { history (r); }

TEST ("E03", e03)
{
  string oid = r.of ({ "m", "", "obj.1", "a@b", "__root__", "x<y>" }), id = r.p (1, 2) ? r.of (IDS) : string (1, (char) r.range (32, 126)) + r.of (IDS);
  Mock m (oid);
  int t = r.n (4);
  Event e (TYPES[t], &m, id);
  NOTE ("object %s event type %s id %s", q (oid).c_str (), TYN[t], q (id).c_str ());
  NONTRIVIAL ();
  string want = t == 1 ? (id == "@lambda" ? oid + id : oid + "@" + id) : t == 0 ? oid + "." + id : t == 2 ? oid + "<" + id + ">" : oid + "<lookat>";
  CHECK (e.getFullId () == want, "full id %s, expected %s", e.getFullId ().c_str (), want.c_str ());
  CHECK (e.isLambda () == (t == 1 && id == "@lambda"), "isLambda %d", e.isLambda ());
  CHECK (e.getId () == id && e.getType () == TYPES[t] && e.getObject () == &m, "type, id or object not kept");
}
TESTX ("E03", e03n, 32 * 5)
{
  int t = (int) (i % 5), mask = (int) (i / 5);
  string n = TRN[t];
  for (size_t k = 0; k < n.size (); k++)
    if ((mask >> k) & 1) n[k] = (char) toupper (n[k]);
  NOTE ("%s", n.c_str ());
  NONTRIVIAL ();
  CHECK (Event::getStringAsTransition (n) == TR[t], "parsed as %s", TRN[Event::getStringAsTransition (n)]);
  CHECK (Event::getStringAsTransition (Event::getEventTransitionAsString (TR[t])) == TR[t], "name of the transition does not give it back");
  set<string> a, b, c;
  for (auto x : TR) a.insert (Event::getEventTransitionAsString (x));
  for (auto x : TYPES) b.insert (Event::getEventTypeAsString (x));
  for (int x = 0; x < 3; x++) c.insert (Event::getEventStateAsString ((Event::State) x));
  CHECK (a.size () == 5 && b.size () == 4 && c.size () == 3, "names are not distinct");
}
TEST ("E04", e04)
{
  Mock m ("m");
  m.life = false;
  Event e (TYPES[r.n (4)], &m, r.of (IDS));
  map<string, string> model;
  Time b = 0, en = NONE;
  string lab;
  CHECK (e.getState () == Event::SLEEPING, "a new event is not sleeping");
  int n = r.range (2, 20);
  for (int k = 0; k < n; k++)
    {
      string nm = r.of ({ "key", "value", "duration", "", "Key", "key ", "fromport" }), v = r.of ({ "", "1", "RED", "x=y", "$a.b" });
      switch (r.n (5))
        {
        case 0: case 1:
          NOTE (" set(%s,%s)", nm.c_str (), v.c_str ());
          CHECK (e.setParameter (nm, v) == (model.count (nm) == 0), "set did not report whether the name was new");
          model[nm] = v;
          break;
        case 2: b = r.u () >> r.n (64); en = r.p (1, 4) ? NONE : r.u () >> r.n (64); NOTE (" interval"); e.setInterval (b, en); break;
        case 3: lab = r.of ({ "", "lab", " " }); NOTE (" label(%s)", lab.c_str ()); e.setLabel (lab); break;
        default: NOTE (" transition"); e.transition (TR[r.n (5)]);
        }
      for (string x : { "key", "value", "duration", "", "Key", "key ", "fromport", "none" })
        {
          string out = "untouched";
          bool ok = e.getParameter (x, &out);
          CHECK (ok == (model.count (x) > 0), "reading '%s' reports %d", x.c_str (), ok);
          CHECK (out == (ok ? model[x] : "untouched"), "reading '%s' gives '%s'", x.c_str (), out.c_str ());
          CHECK (e.getParameter (x, nullptr) == ok, "reading without result differs");
        }
      Time x = 1, y = 2;
      e.getInterval (&x, &y);
      CHECK (x == b && y == en, "interval not as set");
      e.getInterval (nullptr, &y); e.getInterval (&x, nullptr);
      CHECK (x == b && y == en, "interval not as set");
      CHECK (e.getLabel () == lab && e.hasLabel () == !lab.empty (), "label not as set");
    }
  NONTRIVIAL ();
}

TEST ("O01", o01)
{
  Mock m ("m");
  m.life = false;
  struct M { int t; string id; Time b, e; string lab; };
  map<Event *, M> model;
  CHECK (m.getEvents ()->size () == 1 && m.getLambda () && m.getLambda ()->isLambda (), "no main presentation event at birth");
  CHECK (m.getLambda ()->getObject () == &m && m.getLambda ()->getState () == Event::SLEEPING, "main event wrong");
  { Time b, e; m.getLambda ()->getInterval (&b, &e); model[m.getLambda ()] = { 1, "@lambda", b, e, "" }; }
  static const vector<string> ids = { "@lambda", "", "a", "b", "A", "ENTER" };
  int n = r.range (2, 18);
  for (int k = 0; k < n; k++)
    {
      string id = r.of (ids), lab = r.of ({ "", "a", "L" });
      Time b = r.n (5), e = r.p (1, 3) ? NONE : r.n (9);
      int kind = r.n (5), t = kind == 4 ? 1 : kind;
      set<Event *> before = *m.getEvents ();
      bool had = false;
      for (auto &x : model) had |= x.second.t == t && x.second.id == id;
      NOTE (" add(%s%s,%s)", TYN[t], kind == 4 ? " labelled" : "", q (id).c_str ());
      if (kind == 0) m.addAttributionEvent (id);
      else if (kind == 1) m.addPresentationEvent (id, b, e);
      else if (kind == 2) m.addSelectionEvent (id);
      else if (kind == 3) m.addLookAtEvent (id);
      else m.addPresentationEvent (id, lab);
      const set<Event *> &after = *m.getEvents ();
      for (auto x : before) CHECK (after.count (x), "an existing event disappeared");
      CHECK (after.size () == before.size () + (had ? 0 : 1), "%zu events became %zu", before.size (), after.size ());
      for (auto x : after)
        if (!before.count (x))
          {
            CHECK (x->getType () == TYPES[t] && x->getId () == id && x->getObject () == &m && x->getState () == Event::SLEEPING, "wrong event added");
            model[x] = { t, id, kind == 1 ? b : 0, kind == 1 ? e : NONE, kind == 4 ? lab : "" };
          }
      if (r.p (1, 4)) { auto it = after.begin (); advance (it, r.n ((int) after.size ())); (*it)->transition (Event::START); }
      for (auto &x : model)
        {
          Time p, s;
          x.first->getInterval (&p, &s);
          CHECK (x.first->getType () == TYPES[x.second.t] && x.first->getId () == x.second.id && p == x.second.b && s == x.second.e && x.first->getLabel () == x.second.lab, "an event changed");
        }
      for (int ty = 0; ty < 4; ty++)
        for (auto &s : ids)
          {
            Event *want = nullptr;
            for (auto &x : model) if (x.second.t == ty && x.second.id == s) want = x.first;
            CHECK (m.getEvent (TYPES[ty], s) == want, "lookup of %s %s wrong", TYN[ty], q (s).c_str ());
            Event *g = ty == 0 ? m.getAttributionEvent (s) : ty == 1 ? m.getPresentationEvent (s) : ty == 2 ? m.getSelectionEvent (s) : m.getLookAtEvent (s);
            CHECK (g == want, "lookup of %s %s wrong", TYN[ty], q (s).c_str ());
          }
      for (string s : { "", "a", "L", "none" })
        {
          bool any = false;
          for (auto &x : model) any |= x.second.t == 1 && x.second.lab == s;
          Event *g = m.getPresentationEventByLabel (s);
          CHECK ((g != nullptr) == any, "lookup by label %s wrong", q (s).c_str ());
          if (g) CHECK (model.count (g) && model[g].t == 1 && model[g].lab == s, "lookup by label %s gives another event", q (s).c_str ());
        }
    }
  NONTRIVIAL ();
}

TEST ("O02", o02)
{
  Mock m ("m"), o ("o");
  Context c1 ("c1"), c2 ("c2");
  map<string, string> model;
  vector<pair<string, Composition *> > al;
  vector<Composition *> cs = { nullptr, &c1, &c2 };
  int n = r.range (2, 20);
  for (int k = 0; k < n; k++)
    {
      string nm = r.of ({ "top", "left", "", "Top", "top ", "uri" }), v = r.of ({ "", "1", "10%", "x" });
      if (r.p (1, 2))
        {
          NOTE (" set(%s,%s)", q (nm).c_str (), q (v).c_str ());
          m.setProperty (nm, v);
          model[nm] = v;
        }
      else
        {
          string a = r.of ({ "al", "be", "", "Al", "m" });
          Composition *c = r.of (cs);
          NOTE (" alias(%s,%s)", q (a).c_str (), c ? c->getId ().c_str () : "none");
          m.addAlias (a, c);
          auto p = make_pair (a, c);
          if (find (al.begin (), al.end (), p) == al.end ()) al.push_back (p);
        }
      for (string x : { "top", "left", "", "Top", "top ", "uri", "none" })
        CHECK (m.getProperty (x) == (model.count (x) ? model[x] : ""), "property %s reads %s", q (x).c_str (), q (m.getProperty (x)).c_str ());
      CHECK (o.getProperty (nm) == "", "another object's property changed");
      for (string x : { "al", "be", "", "Al", "m", "none" })
        {
          bool w = false;
          for (auto &p : al) w |= p.first == x;
          CHECK (m.hasAlias (x) == w, "hasAlias(%s)=%d", q (x).c_str (), m.hasAlias (x));
        }
      typedef vector<pair<string, Composition *> > AL;
      AL now (m.getAliases ()->begin (), m.getAliases ()->end ());
      CHECK (now == al, "alias list wrong");
    }
  NONTRIVIAL ();
}

// ticks and delayed actions
static void
ticks (Rng &r)
{
  Document doc;
  Mock X ("X"), Y ("Y");
  vector<Rec> log;
  Y.glog = &log;
  Y.life = false;
  X.initDocument (&doc);
  Y.initDocument (&doc);
  for (int k = 0; k < 6; k++)
    {
      Y.addAttributionEvent ("e" + to_string (k));
      Y.addPresentationEvent ("p" + to_string (k), 0, NONE);
    }
  struct D { Event *e; int t; string v; Time due; bool stop, pause; };
  vector<D> pend;
  vector<Event *> ys (Y.getEvents ()->begin (), Y.getEvents ()->end ());
  sort (ys.begin (), ys.end (), [] (Event *a, Event *b) { return a->getFullId () < b->getFullId (); });
  Time T = NONE;
  int st = Event::SLEEPING;
  // actions of Y in the middle of a tick add further actions on X
  int budget = 3;
  vector<D> during;
  Y.onBefore = [&] (Event *, int) {
    if (budget > 0 && st == Event::OCCURRING && r.p (1, 6))
      {
        budget--;
        D d = { r.of (ys), Event::START, "", T + (Time) r.n (3), false, false };
        X.addDelayedAction (d.e, (Event::Transition) d.t, d.v, d.due - T);
        during.push_back (d);
        NOTE ("(+%llu)", (unsigned long long) d.due);
      }
    return false; // never accepted: the state of Y does not matter
  };
  int n = r.range (3, 22);
  for (int k = 0; k < n; k++)
    {
      int c = r.n (12);
      if (c == 0)
        {
          NOTE (" start");
          bool ok = X.getLambda ()->transition (Event::START);
          if (st == Event::SLEEPING) pend.clear ();
          if (ok) { st = Event::OCCURRING; T = 0; }
        }
      else if (c == 1) { NOTE (" stop"); if (X.getLambda ()->transition (r.p (1, 2) ? Event::STOP : Event::ABORT)) { st = Event::SLEEPING; T = NONE; pend.clear (); } }
      else if (c == 2) { NOTE (" pause"); if (X.getLambda ()->transition (Event::PAUSE)) st = Event::PAUSED; }
      else if (c == 3) { NOTE (" resume"); if (X.getLambda ()->transition (Event::RESUME)) st = Event::OCCURRING; }
      else if (c < 8)
        {
          if (st == Event::SLEEPING) continue;
          Time dl = r.p (1, 3) ? 0 : r.p (1, 2) ? (Time) r.n (6) : (Time) r.n (6) * 1000000000ull;
          D d = { r.of (ys), Event::START, "", T + dl, false, false };
          if (r.p (1, 12)) { d.e = X.getLambda (); d.t = Event::STOP; d.stop = true; }
          else if (r.p (1, 12)) { d.e = X.getLambda (); d.t = Event::PAUSE; d.pause = true; }
          else { d.t = Event::START; d.v = r.of ({ "", "1", "v" }); }
          NOTE (" delay(%s %s,%llu)", TRN[d.t], d.e->getFullId ().c_str (), (unsigned long long) dl);
          X.addDelayedAction (d.e, (Event::Transition) d.t, d.v, dl);
          pend.push_back (d);
        }
      else
        {
          Time df = r.p (1, 4) ? 0 : r.p (1, 2) ? (Time) r.range (1, 4) : (Time) r.n (4) * 1000000000ull + (Time) r.n (2);
          NOTE (" tick(%llu)", (unsigned long long) df);
          log.clear ();
          during.clear ();
          vector<Event *> want;
          vector<string> vals;
          int st0 = st;
          vector<D> rest;
          bool halted = false, paused = false;
          if (st == Event::OCCURRING)
            {
              T += df;
              for (auto &d : pend)
                {
                  if (d.due > T) { rest.push_back (d); continue; }
                  if (halted) continue;
                  if (d.stop) halted = true;
                  else if (d.pause) halted = paused = true;
                  else { want.push_back (d.e); vals.push_back (d.v); }
                }
            }
          X.sendTick (0, df, 0);
          if (st0 == Event::OCCURRING)
            {
              if (halted && !paused) { st = Event::SLEEPING; T = NONE; rest.clear (); }
              else if (paused) st = Event::PAUSED;
            }
          vector<Event *> got;
          for (auto &x : log) if (x.before) got.push_back (x.e);
          CHECK (got.size () == want.size (), "%zu actions fired, expected %zu", got.size (), want.size ());
          for (size_t j = 0; j < got.size (); j++)
            {
              CHECK (got[j] == want[j], "action %zu fired is %s, expected %s", j, got[j]->getFullId ().c_str (), want[j]->getFullId ().c_str ());
            }
          if (st0 == Event::OCCURRING) { if (st == Event::SLEEPING) pend.clear (); else { pend = rest; for (auto &d : during) pend.push_back (d); } }
          if (halted) { NONTRIVIAL (); if (paused) return; }
          if (got.size ()) NONTRIVIAL ();
        }
      CHECK (X.getLambda ()->getState () == st, "state %s", STN[X.getLambda ()->getState ()]);
      CHECK (X.getTime () == T, "playback time %llu, expected %llu", (unsigned long long) X.getTime (), (unsigned long long) T);
      CHECK (X.getDelayedActions ()->size () == pend.size (), "%zu actions pending, expected %zu", X.getDelayedActions ()->size (), pend.size ());
      size_t j = 0;
      for (auto &p : *X.getDelayedActions ())
        {
          CHECK (p.first.event == pend[j].e && p.second == pend[j].due && p.first.transition == pend[j].t && p.first.value == pend[j].v, "pending action %zu wrong", j);
          j++;
        }
    }
}
TEST ("O03", o03) { ticks (r); }
TEST ("O04", o04) { ticks (r); }

TEST ("O05", o05)
{
  Document doc;
  MediaSettings *set = doc.getSettings ();
  Context *root = doc.getRoot (), *c1 = new Context ("c1"), *c2 = new Context ("c2");
  Switch *s1 = new Switch ("s1");
  root->addChild (c1);
  c1->addChild (c2);
  root->addChild (s1);
  vector<Composition *> ps = { root, c1, c2, s1 };
  vector<Mock *> ms;
  map<Composition *, int> cnt;
  for (int k = 0; k < 4; k++)
    {
      Mock *m = new Mock ("m" + to_string (k));
      Composition *p = r.p (1, 5) ? nullptr : r.of (ps);
      if (p) p->addChild (m); else m->initDocument (&doc);
      m->addAttributionEvent ("a");
      m->addPresentationEvent ("p", 1, 2);
      m->addSelectionEvent ("k");
      NOTE (" m%d in %s", k, p ? p->getId ().c_str () : "none");
      ms.push_back (m);
    }
  vector<Context *> cs = { root, c1, c2 };
  map<Context *, int> base;
  for (auto c : cs) base[c] = c->_awakeChildren;
  int n = r.range (2, 16);
  for (int k = 0; k < n; k++)
    {
      Mock *m = r.of (ms);
      string f = r.of ({ "", "", "1", "a" });
      m->Object::setProperty ("focusIndex", f);
      int t = r.n (5), s0 = m->getLambda ()->getState ();
      if (r.p (1, 3)) m->getAttributionEvent ("a")->transition (Event::START);
      if (r.p (1, 3)) m->getPresentationEvent ("p")->transition (Event::START);
      if (s0 != Event::SLEEPING && r.p (1, 2)) m->addDelayedAction (m->getAttributionEvent ("a"), Event::STOP, "", 5);
      if (t == Event::START && s0 == Event::PAUSED) t = Event::RESUME;
      NOTE (" %s(%s,focusIndex=%s)", TRN[t], m->getId ().c_str (), f.c_str ());
      set->_hasNextFocus = false;
      set->_nextFocus = "zz";
      bool ok = m->getLambda ()->transition (TR[t]);
      CHECK (ok == (legal (s0, t) >= 0), "reported %d", ok);
      Context *c = dynamic_cast<Context *> (m->getParent ());
      if (ok && t == Event::START)
        {
          NONTRIVIAL ();
          CHECK (m->getTime () == 0, "playback time not zero");
          if (c) base[c]++;
          CHECK (set->_hasNextFocus == !f.empty (), "focus update requested: %d", set->_hasNextFocus);
          if (!f.empty ()) CHECK (set->_nextFocus == "", "focus update requested for a given index");
        }
      else
        CHECK (!set->_hasNextFocus, "focus update requested without a start");
      if (ok && (t == Event::STOP || t == Event::ABORT))
        {
          NONTRIVIAL ();
          CHECK (m->getTime () == NONE, "playback time still defined");
          for (auto e : *m->getEvents ()) CHECK (e->getState () == Event::SLEEPING, "event %s is still %s", e->getFullId ().c_str (), STN[e->getState ()]);
          CHECK (m->getDelayedActions ()->empty (), "actions still pending");
          if (c) base[c]--;
        }
      for (auto x : cs) CHECK (x->_awakeChildren == base[x], "context %s counts %d awake children, expected %d", x->getId ().c_str (), x->_awakeChildren, base[x]);
    }
  for (auto m : ms)
    {
      if (!m->isSleeping ()) m->getLambda ()->transition (Event::STOP);
      if (!m->getParent ()) delete m;
    }
}
