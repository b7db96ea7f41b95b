// Contexts, switches, links: C01-C04, S01, S02, L01, L02
#include "h.h"

static const vector<string> VALS = { "", "1", "2", "x", "$m0.p", "$m1.q", "$zz.p", "$m0" };
static void
put (Event *e, int s) { e->_state = (Event::State) s; }
struct D { Object *o; Event *e; int t; string v; Time at; };
static vector<D>
pend (Object *o)
{
  vector<D> v;
  for (auto &x : o->_delayed) v.push_back ({ o, x.first.event, x.first.transition, x.first.value, x.second });
  return v;
}
static string
eid (Event *e) { return e->getFullId (); }
// what the harness knows about '$id.name'
static string
deref (Document &doc, const string &s)
{
  if (s.empty () || s[0] != '$') return s;
  size_t d = s.find ('.');
  if (d == string::npos) return s;
  for (auto o : *doc.getObjects ())
    if (o->getId () == s.substr (1, d - 1)) return o->_properties.count (s.substr (d + 1)) ? o->_properties[s.substr (d + 1)] : "";
  return s;
}
// ---------------------------------------------------------------- C01
TEST ("C01", c01)
{
  Document doc;
  Context *root = doc.getRoot (), *b = new Context ("b"), *a = new Context ("a");
  bool nested = !r.p (1, 4);
  root->addChild (b);
  (nested ? b : root)->addChild (a);
  vector<Event *> es;
  for (int i = 0; i < 3; i++)
    {
      Mock *m = new Mock ("m" + to_string (i));
      a->addChild (m);
      m->addAttributionEvent ("p");
      m->addSelectionEvent ("");
      m->addPresentationEvent ("l", 0, 5);
      m->addPresentationEvent ("k", "lab");
      for (auto e : *m->getEvents ()) es.push_back (e);
    }
  sort (es.begin (), es.end (), [] (Event *x, Event *y) { return eid (x) < eid (y); });
  auto ports = [&] (Context *c) {
    vector<Event *> want;
    for (int n = r.n (6); n > 0; n--)
      {
        Event *e = r.of (es);
        c->addPort (e);
        NOTE (" %s.port(%s)", c->getId ().c_str (), eid (e).c_str ());
        if (find (want.begin (), want.end (), e) == want.end ()) want.push_back (e);
      }
    CHECK (vector<Event *> (c->getPorts ()->begin (), c->getPorts ()->end ()) == want, "ports of %s", c->getId ().c_str ());
    return want;
  };
  map<Context *, vector<Event *> > P;
  P[a] = ports (a);
  P[b] = ports (b);
  int sr = r.n (3), sb = r.n (3), sa = r.n (2) ? Event::SLEEPING : Event::PAUSED;
  put (root->getLambda (), sr);
  put (b->getLambda (), sb);
  put (a->getLambda (), sa);
  bool woken = r.p (1, 4);
  string mark = r.of ({ "true", "1", "x" });
  if (woken) a->getLambda ()->setParameter ("fromport", mark);
  NOTE (" root %s b %s a %s%s%s", STN[sr], STN[sb], STN[sa], nested ? "" : " (a directly under root)", woken ? " woken by a child" : "");
  map<Context *, int> aw;
  for (Context *c : { root, b, a }) { aw[c] = c->_awakeChildren; if (c->_time == NONE) c->_time = 7; }
  NONTRIVIAL ();
  CHECK (a->getLambda ()->transition (Event::START), "start refused");
  // a starts; then its parent if sleeping; then that one's parent
  Context *c = a;
  bool w = woken, first = true;
  set<Context *> started;
  while (c)
    {
      started.insert (c);
      vector<Event *> want;
      if (!w) for (auto e : P[c]) if (e->getType () == Event::PRESENTATION) want.push_back (e);
      auto got = pend (c);
      CHECK (got.size () == want.size (), "%s: %zu starts are scheduled, expected %zu", c->getId ().c_str (), got.size (), want.size ());
      for (size_t j = 0; j < want.size (); j++)
        CHECK (got[j].e == want[j] && got[j].t == Event::START && got[j].at == 0, "%s: scheduled #%zu is %s %s at %llu, expected start of %s at 0", c->getId ().c_str (), j,
               TRN[got[j].t], eid (got[j].e).c_str (), (unsigned long long) got[j].at, eid (want[j]).c_str ());
      CHECK (c->isOccurring () && c->_time == 0, "%s is not started", c->getId ().c_str ());
      string f;
      CHECK (!c->getLambda ()->getParameter ("fromport", &f) || f == "", "%s keeps the mark", c->getId ().c_str ());
      Context *p = (Context *) c->getParent ();
      if (!p) break;
      int sp = p == root ? sr : sb;
      c = sp == Event::SLEEPING ? p : nullptr;
      w = true;
      first = false;
    }
  (void) first;
  for (Context *x : { root, b, a })
    {
      if (!started.count (x))
        CHECK (x->getLambda ()->getState () == (x == root ? sr : sb) && x->_delayed.empty (), "%s was affected", x->getId ().c_str ());
      int n = 0;
      for (auto y : started) n += y->getParent () == x;
      CHECK (x->_awakeChildren == aw[x] + n, "%s counts %d awake children, expected %d", x->getId ().c_str (), x->_awakeChildren, aw[x] + n);
    }
}
// ---------------------------------------------------------------- C02
struct Spy : public Mock
{
  vector<pair<Object *, pair<int, int> > > *all;
  Event *watch;
  Spy (const string &id, vector<pair<Object *, pair<int, int> > > *l, Event *w) : Mock (id), all (l), watch (w) { life = false; }
  bool beforeTransition (Event *e, Event::Transition t) override
  {
    CHECK (e == getLambda (), "%s was asked for another event", getId ().c_str ());
    all->push_back ({ this, { (int) t, watch->getState () } });
    return onBefore ? onBefore (e, t) : true;
  }
};
TEST ("C02", c02)
{
  vector<pair<Object *, pair<int, int> > > all;
  Document doc;
  Context *c = new Context ("c");
  doc.getRoot ()->addChild (c);
  vector<Spy *> kids;
  Mock *out = new Mock ("other");
  doc.getRoot ()->addChild (out);
  int n = r.n (6);
  for (int i = 0; i < n; i++)
    {
      Spy *s = new Spy ("k" + to_string (i), &all, c->getLambda ());
      c->addChild (s);
      s->addPresentationEvent ("x", 0, 9);
      s->addAttributionEvent ("@lambda");
      bool ok = r.p (2, 3);
      s->onBefore = [ok] (Event *, int) { return ok; };
      put (s->getLambda (), r.n (3));
      NOTE (" %s %s%s", s->getId ().c_str (), STN[s->getLambda ()->getState ()], ok ? "" : " (refuses)");
      kids.push_back (s);
    }
  c->addAttributionEvent ("prop");
  c->addSelectionEvent ("");
  int st = r.n (3), t = r.n (5), what = r.n (6);
  Event *e = what == 0 ? c->getAttributionEvent ("prop") : what == 1 ? c->getSelectionEvent ("") : c->getLambda ();
  put (e, st);
  if (what) put (c->getLambda (), what == 1 ? r.n (3) : st);
  map<Spy *, int> s0;
  for (auto k : kids) s0[k] = k->getLambda ()->getState ();
  NOTE (" %s(%s) in state %s", TRN[t], eid (e).c_str (), STN[st]);
  static const int L[5] = { -1, -1, -1, -1, -1 };
  (void) L;
  auto legal = [] (int s, int t) {
    return t == Event::START ? s != Event::OCCURRING : t == Event::PAUSE ? s == Event::OCCURRING : t == Event::RESUME ? s == Event::PAUSED : s != Event::SLEEPING;
  };
  bool ok;
  if (what == 0)
    {
      if (t != Event::STOP && t != Event::START) return;
      e->setParameter ("value", "1");
      c->_time = 0;
      ok = e->transition ((Event::Transition) t);
    }
  else
    {
      c->_time = 0;
      ok = e->transition ((Event::Transition) t);
    }
  if (what == 1) CHECK (!ok, "selection of a context was accepted");
  else CHECK (ok == legal (st, t), "reported %d", ok);
  if (what < 2 || t == Event::START || !legal (st, t)) CHECK (all.empty (), "a child was asked for something");
  else
    {
      NONTRIVIAL ();
      map<Object *, int> cnt;
      for (auto &x : all)
        {
          CHECK (x.second.first == t, "child %s was asked to %s", x.first->getId ().c_str (), TRN[x.second.first]);
          CHECK (x.second.second == st, "child %s was asked after the context changed state", x.first->getId ().c_str ());
          cnt[x.first]++;
        }
      for (auto k : kids)
        CHECK (cnt[k] == (legal (s0[k], t) ? 1 : 0), "child %s was asked %d times", k->getId ().c_str (), cnt[k]);
    }
}
// ---------------------------------------------------------------- C03
struct MSet : public MediaSettings
{
  explicit MSet (const string &id) : MediaSettings (id) {}
  bool beforeTransition (Event *, Event::Transition) override { return true; }
  bool afterTransition (Event *, Event::Transition) override { return true; }
};
TEST ("C03", c03)
{
  Document doc;
  Context *root = doc.getRoot (), *a = new Context ("a"), *c;
  root->addChild (a);
  bool isroot = r.p (1, 2);
  c = isroot ? root : a;
  vector<Mock *> ms;
  for (int i = 0; i < 3; i++)
    {
      Mock *m = new Mock ("m" + to_string (i));
      c->addChild (m);
      ms.push_back (m);
    }
  int st = r.p (3, 4) ? Event::OCCURRING : r.n (3);
  put (root->getLambda (), Event::OCCURRING);
  root->_time = 0;
  put (a->getLambda (), Event::OCCURRING);
  a->_time = 0;
  put (c->getLambda (), st);
  Time t0 = (Time) r.n (100);
  c->_time = t0;
  MSet ms0 ("set");
  MediaSettings *real = doc._settings;
  doc._settings = &ms0;
  put (ms0.getLambda (), Event::OCCURRING);
  int base = r.of (vector<int> { 0, 0, 1, 1, 1, 2, 3 });
  c->_awakeChildren = base;
  a->_awakeChildren = isroot ? 5 : base;
  root->_awakeChildren = isroot ? base : 5;
  NOTE (" %s %s with %d awake children", isroot ? "root" : "inner context", STN[st], base);
  Time diff = (Time) r.n (50);
  int n = base;
  vector<pair<Mock *, int> > acts;
  for (int k = r.n (4); k > 0; k--)
    {
      Mock *m = r.of (ms);
      int t = r.p (1, 2) ? Event::START : Event::STOP;
      Time d = (Time) r.n (80);
      c->addDelayedAction (m->getLambda (), (Event::Transition) t, "", d);
      NOTE (" %s %s after %d", TRN[t], m->getId ().c_str (), (int) d);
      if (d <= diff) acts.push_back ({ m, t });
    }
  map<Mock *, bool> on;
  if (st == Event::OCCURRING)
    for (auto &x : acts)
      {
        if (x.second == Event::START && !on[x.first]) { on[x.first] = true; n++; }
        else if (x.second == Event::STOP && on[x.first]) { on[x.first] = false; n--; }
      }
  NOTE (" tick %d", (int) diff);
  bool due = n == 0 || (isroot && n == 1);
  if (n != base || due) NONTRIVIAL ();
  c->sendTick (0, diff, 0);
  int want = due ? Event::SLEEPING : st;
  CHECK (c->getLambda ()->getState () == want, "with %d awake children after its actions, it is %s after the tick", n, STN[c->getLambda ()->getState ()]);
  if (!due && st == Event::OCCURRING) CHECK (c->_time == t0 + diff, "its clock is wrong");
  ms0.getLambda ()->reset ();
  doc._settings = real;
}
// ---------------------------------------------------------------- C04
TEST ("C04", c04)
{
  Document doc;
  Mock *m0 = new Mock ("m0"), *m1 = new Mock ("m1");
  doc.getRoot ()->addChild (m0);
  doc.getRoot ()->addChild (m1);
  m0->setProperty ("p", r.of (VALS));
  m1->setProperty ("q", r.of ({ "2s", "3", "0", "1.5", "$m0.p" }));
  Object *o;
  bool ctx = r.p (1, 2);
  if (ctx) o = new Context ("o");
  else o = new Media ("o");
  doc.getRoot ()->addChild (o);
  vector<string> names = { "p", "q", "", "left", "x y" };
  map<string, string> want;
  for (auto &n : names)
    {
      o->addAttributionEvent (n);
      if (r.p (1, 2)) { want[n] = r.of (VALS); o->setProperty (n, want[n]); }
    }
  o->_time = (Time) r.n (1000) * GINGA_MSECOND;
  Time t0 = o->_time;
  map<string, string> durs;
  for (int k = 0; k < 3; k++)
    {
      string n = r.of (names), v = r.of (VALS);
      Event *e = o->getAttributionEvent (n);
      if (e->getState () != Event::SLEEPING) continue;
      bool dur = r.p (2, 3);
      string d = r.of ({ "0s", "1s", "2", "2.5s", "$m1.q", "0:1:2" });
      e->setParameter ("value", v);
      if (dur) { e->setParameter ("duration", d); durs[n] = d; }
      else if (durs.count (n)) { dur = true; d = durs[n]; }
      string rv = deref (doc, v), rd = deref (doc, d);
      if (dur && rd.size () && rd[0] == '$') continue;
      if (dur && (rd == "" || rd == "x")) continue;
      NOTE (" %s.%s:=%s over %s", ctx ? "context" : "media", q (n).c_str (), q (v).c_str (), dur ? q (d).c_str () : "none");
      NONTRIVIAL ();
      size_t before = o->_delayed.size ();
      CHECK (e->transition (Event::START), "refused");
      want[n] = rv;
      for (auto &x : names)
        CHECK (o->Object::getProperty (x) == (want.count (x) ? want[x] : ""), "property %s is %s, expected %s", q (x).c_str (), q (o->Object::getProperty (x)).c_str (), q (want[x]).c_str ());
      auto p = pend (o);
      CHECK (p.size () == before + 1, "%zu actions scheduled", p.size () - before);
      double s = !dur ? 0 : rd == "0:1:2" ? 62 : atof (rd.c_str ());
      CHECK (p.back ().e == e && p.back ().t == Event::STOP && p.back ().at == t0 + (Time) (s * GINGA_SECOND), "the end is scheduled at %llu (%s of %s)",
             (unsigned long long) p.back ().at, TRN[p.back ().t], eid (p.back ().e).c_str ());
      if (r.p (1, 2))
        {
          CHECK (e->transition (Event::STOP), "stop refused");
          CHECK (pend (o).size () == before + 1, "stopping scheduled something");
        }
    }
}
// ---------------------------------------------------------------- S01, S02
static Predicate *
pred (Rng &r, vector<int> &ps)
{
  int k = r.n (3);
  ps.push_back (k);
  Predicate *p = new Predicate (k == 0 ? Predicate::FALSUM : k == 1 ? Predicate::VERUM : Predicate::ATOM);
  if (k == 2) p->setTest ("$m0.p", Predicate::EQ, "1");
  return p;
}
TEST ("S01", s01)
{
  Document doc;
  Mock *m0 = new Mock ("m0");
  doc.getRoot ()->addChild (m0);
  bool pv = r.p (1, 2);
  m0->setProperty ("p", pv ? "1" : "0");
  Switch *s = new Switch ("s");
  doc.getRoot ()->addChild (s);
  vector<Rec> glog;
  vector<Mock *> kids;
  vector<Event *> es;
  for (int i = r.range (1, 4); i > 0; i--)
    {
      Mock *m = new Mock ("k" + to_string (i));
      s->addChild (m);
      m->life = false;
      m->glog = &glog;
      m->addPresentationEvent ("x", 0, 5);
      m->addPresentationEvent ("y", 0, 5);
      bool ok = r.p (3, 4);
      m->onBefore = [ok] (Event *, int) { return ok; };
      kids.push_back (m);
      for (auto e : *m->getEvents ()) es.push_back (e);
      if (!ok) NOTE (" %s refuses", m->getId ().c_str ());
    }
  sort (es.begin (), es.end (), [] (Event *x, Event *y) { return eid (x) < eid (y); });
  vector<pair<Mock *, int> > rules;
  for (int i = r.n (6); i > 0; i--)
    {
      vector<int> ps;
      Mock *m = r.of (kids);
      Predicate *p = pred (r, ps);
      s->addRule (m, p);
      rules.push_back ({ m, ps[0] });
      NOTE (" rule %s if %s", m->getId ().c_str (), ps[0] == 0 ? "false" : ps[0] == 1 ? "true" : pv ? "$m0.p=='1' (true)" : "$m0.p=='1' (false)");
    }
  size_t j = 0;
  CHECK (s->getRules ()->size () == rules.size (), "rules");
  for (auto &x : *s->getRules ()) { CHECK (x.first == rules[j].first, "rule %zu", j); j++; }
  map<string, list<Event *> > ports;
  for (string id : { "p1", "p2" })
    for (int k = r.n (3); k > 0; k--)
      {
        list<Event *> l;
        set<Object *> seen;
        for (int n = r.n (4); n > 0; n--) { Event *e = r.of (es); if (seen.insert (e->getObject ()).second) l.push_back (e); }
        s->addSwitchPort (id, l);
        ports[id] = l;
      }
  for (auto &x : ports)
    {
      NOTE (" %s->(", x.first.c_str ());
      for (auto e : x.second) NOTE ("%s ", eid (e).c_str ());
      NOTE (")");
    }
  vector<string> ids = { "@lambda" };
  for (auto &x : ports) ids.push_back (x.first);
  string id = r.of (ids);
  Event *e = s->getPresentationEvent (id);
  CHECK (e, "no event for port %s", id.c_str ());
  NOTE (" start %s", eid (e).c_str ());
  Event *want = nullptr;
  for (auto &x : rules)
    {
      Event *t = nullptr;
      if (id == "@lambda") t = x.first->getLambda ();
      else for (auto y : ports[id]) if (y->getObject () == x.first) t = y;
      if (!t) continue;
      if (x.second == 1 || (x.second == 2 && pv)) { want = t; break; }
    }
  if (rules.size () > 1) NONTRIVIAL ();
  bool ok = e->transition (Event::START);
  size_t n = 0;
  for (auto &x : glog) if (x.before) { n++; CHECK (x.e == want && x.t == Event::START, "%s of %s was requested", TRN[x.t], eid (x.e).c_str ()); }
  CHECK (n == (want ? 1u : 0u), "%zu requests, expected to start %s", n, want ? eid (want).c_str () : "nothing");
  bool acc = want && ((Mock *) want->getObject ())->onBefore (want, 0);
  CHECK (ok == acc, "reported %d", ok);
  CHECK (s->_selected == (acc ? want->getObject () : nullptr), "the selection is wrong");
  CHECK (e->getState () == (acc ? Event::OCCURRING : Event::SLEEPING), "the switch event is %s", STN[e->getState ()]);
}
TEST ("S02", s02)
{
  Document doc;
  Switch *s = new Switch ("s");
  doc.getRoot ()->addChild (s);
  vector<Rec> glog;
  vector<Mock *> kids;
  for (int i = 0; i < 3; i++)
    {
      Mock *m = new Mock ("k" + to_string (i));
      s->addChild (m);
      m->life = false;
      m->glog = &glog;
      m->addPresentationEvent ("x", 0, 5);
      kids.push_back (m);
    }
  list<Event *> l = { kids[1]->getPresentationEvent ("x") };
  s->addSwitchPort ("p1", l);
  Event *p1 = s->getPresentationEvent ("p1");
  Object *sel = r.p (1, 5) ? nullptr : (Object *) r.of (kids);
  s->_selected = sel;
  NOTE (" selected %s", sel ? sel->getId ().c_str () : "nothing");
  NONTRIVIAL ();
  for (int k = 0; k < 5; k++)
    {
      Event *e = r.p (1, 3) ? p1 : s->getLambda ();
      int st = r.p (1, 2) ? Event::OCCURRING : Event::PAUSED;
      int t = st == Event::OCCURRING ? r.of (vector<int> { Event::PAUSE, Event::PAUSE, Event::STOP, Event::ABORT }) : r.of (vector<int> { Event::RESUME, Event::RESUME, Event::STOP, Event::ABORT });
      for (auto m : kids) { put (m->getLambda (), st); put (m->getPresentationEvent ("x"), st); bool ok = r.p (2, 3); m->onBefore = [ok] (Event *, int) { return ok; }; }
      put (s->getLambda (), st);
      put (p1, st);
      glog.clear ();
      NOTE (" %s(%s)", TRN[t], eid (e).c_str ());
      CHECK (e->transition ((Event::Transition) t), "refused");
      size_t n = 0;
      for (auto &x : glog) if (x.before) { n++; CHECK (sel && x.e == sel->getLambda () && x.t == t, "%s of %s was requested", TRN[x.t], eid (x.e).c_str ()); }
      CHECK (n == (sel ? 1u : 0u), "%zu requests", n);
      if (t == Event::STOP || t == Event::ABORT) sel = nullptr;
      CHECK (s->_selected == sel, "the selection is wrong after %s", TRN[t]);
    }
}
TEST ("S02", s02p)
{
  Document doc;
  Switch *s = new Switch ("s");
  doc.getRoot ()->addChild (s);
  vector<Event *> es;
  for (int i = 0; i < 3; i++)
    {
      Mock *m = new Mock ("k" + to_string (i));
      s->addChild (m);
      m->addPresentationEvent ("x", 0, 5);
      es.push_back (m->getLambda ());
      es.push_back (m->getPresentationEvent ("x"));
    }
  map<string, list<Event *> > want;
  for (int k = r.range (1, 8); k > 0; k--)
    {
      string id = r.of ({ "p1", "p2", "", "p", "P1" });
      list<Event *> l;
      for (int n = r.n (4); n > 0; n--) l.push_back (r.of (es));
      NOTE (" %s->%zu events", q (id).c_str (), l.size ());
      s->addSwitchPort (id, l);
      want[id] = l;
      CHECK (*s->getSwitchPorts () == want, "the ports differ after mapping %s", q (id).c_str ());
      for (auto &x : want) CHECK (s->getPresentationEvent (x.first), "no event for port %s", q (x.first).c_str ());
    }
  NONTRIVIAL ();
}
// ---------------------------------------------------------------- L01, L02
struct MCtx : public Context
{
  function<bool (Event *, int)> ask;
  vector<Rec> *glog = nullptr;
  explicit MCtx (const string &id) : Context (id) {}
  ~MCtx () { getLambda ()->reset (); }
  bool beforeTransition (Event *e, Event::Transition t) override { return !ask || ask (e, t); }
  bool afterTransition (Event *e, Event::Transition t) override { if (glog) glog->push_back ({ e, (int) t, false, e->getState () }); return true; }
};
struct MMed : public Mock
{
  function<bool (Event *, int)> ask;
  explicit MMed (const string &id) : Mock (id) {}
  bool beforeTransition (Event *e, Event::Transition t) override { return !ask || ask (e, t); }
  bool afterTransition (Event *e, Event::Transition t) override { if (glog) glog->push_back ({ e, (int) t, false, e->getState () }); return true; }
};
static const vector<string> DEL = { "", "0s", "0", "1s", "2.5s", "0.25s", "0.00048828125s", "$m0.d", "$m1.d", "0:0:3" };
struct Lk { vector<Action> c, a; vector<int> pk; };
struct LW
{
  Document doc;
  vector<Context *> cs;
  vector<Event *> es;
  map<Context *, vector<Lk> > links;
  map<Event *, int> no; // calls refused from this one on
  vector<Rec> glog;
  bool pv;
};
static Time
delay_of (LW &w, const string &s)
{
  string d = deref (w.doc, s);
  return d == "" || d == "0s" || d == "0" ? 0 : d == "1s" ? 1 * GINGA_SECOND : d == "2.5s" ? (Time) (2.5 * GINGA_SECOND) : d == "0.25s" ? GINGA_SECOND / 4 : d == "0.00048828125s" ? 488281 : d == "0:0:3" ? 3 * GINGA_SECOND : 4 * GINGA_SECOND;
}
static void
mklinks (Rng &r, LW &w, Context *c, int n, bool delays)
{
  for (; n > 0; n--)
    {
      Lk k;
      list<Action> L, R;
      for (int j = r.range (1, 3); j > 0; j--)
        {
          Action a;
          a.event = r.of (w.es);
          a.transition = (Event::Transition) (r.p (2, 3) ? Event::START : r.n (5));
          vector<int> ps;
          a.predicate = nullptr;
          int p = r.p (1, 2) ? -1 : 0;
          if (p == 0) { a.predicate = pred (r, ps); p = ps[0]; }
          k.pk.push_back (p);
          k.c.push_back (a);
          L.push_back (a);
        }
      for (int j = r.range (1, 3); j > 0; j--)
        {
          Action a;
          a.event = r.of (w.es);
          a.transition = (Event::Transition) r.n (5);
          a.predicate = nullptr;
          a.value = r.of ({ "v1", "v2", "" });
          a.duration = r.of ({ "", "3s", "1s" });
          a.delay = delays && r.p (1, 2) ? r.of (DEL) : "";
          k.a.push_back (a);
          R.push_back (a);
        }
      NOTE (" %s:", c->getId ().c_str ());
      for (size_t j = 0; j < k.c.size (); j++) NOTE (" on %s(%s)%s", TRN[k.c[j].transition], eid (k.c[j].event).c_str (), k.pk[j] < 0 ? "" : k.pk[j] == 0 ? " if false" : k.pk[j] == 1 ? " if true" : w.pv ? " if p(true)" : " if p(false)");
      NOTE (" do");
      for (auto &a : k.a) NOTE (" %s(%s)%s%s", TRN[a.transition], eid (a.event).c_str (), a.delay == "" ? "" : "+", a.delay.c_str ());
      NOTE (";");
      c->addLink (L, R);
      w.links[c].push_back (k);
    }
}
struct Sched { Event *e; int t; string v; Time d; };
static vector<Action>
fire (LW &w, Event *e, int t, Context *c, vector<Sched> *late)
{
  vector<Action> out;
  if (!c->_status) return out;
  for (auto &k : w.links[c])
    for (size_t j = 0; j < k.c.size (); j++)
      if (k.c[j].event == e && k.c[j].transition == t && (k.pk[j] < 0 || k.pk[j] == 1 || (k.pk[j] == 2 && w.pv)))
        for (auto a = k.a.rbegin (); a != k.a.rend (); ++a)
          {
            Time d = delay_of (w, a->delay);
            if (d == 0) out.push_back (*a);
            else late->push_back ({ a->event, a->transition, a->value, d });
          }
  return out;
}
TEST ("L01", l01)
{
  LW w;
  MMed *m0 = new MMed ("m0"), *m1 = new MMed ("m1");
  Context *c = new Context ("c");
  w.doc.getRoot ()->addChild (c);
  for (auto m : { m0, m1 }) { c->addChild (m); m->addPresentationEvent ("x", 0, 1); for (auto e : *m->getEvents ()) w.es.push_back (e); }
  sort (w.es.begin (), w.es.end (), [] (Event *x, Event *y) { return eid (x) < eid (y); });
  w.pv = r.p (1, 2);
  m0->Object::setProperty ("p", w.pv ? "1" : "0");
  m0->Object::setProperty ("d", r.of ({ "0s", "4s", "1s" }));
  m1->Object::setProperty ("d", r.of ({ "0s", "4s", "" }));
  mklinks (r, w, c, r.n (4), true);
  c->_time = (Time) r.n (100);
  bool on = !r.p (1, 6);
  c->setLinksStatus (on);
  Action a;
  a.event = r.of (w.es);
  a.transition = r.p (1, 2) ? Event::START : (Event::Transition) r.n (5);
  a.predicate = nullptr;
  NOTE (" %s(%s)%s", TRN[a.transition], eid (a.event).c_str (), on ? "" : " links disabled");
  vector<Sched> late;
  auto want = fire (w, a.event, a.transition, c, &late);
  list<Action> got = w.doc.evalActionInContext (a, c);
  if (want.size () + late.size () > 0) NONTRIVIAL ();
  CHECK (got.size () == want.size (), "%zu actions are requested, expected %zu", got.size (), want.size ());
  size_t j = 0;
  for (auto &x : got)
    {
      CHECK (x.event == want[j].event && x.transition == want[j].transition && x.value == want[j].value && x.duration == want[j].duration, "requested action #%zu from the end is %s(%s)", j,
             TRN[x.transition], eid (x.event).c_str ());
      j++;
    }
  auto p = pend (c);
  CHECK (p.size () == late.size (), "%zu actions are scheduled, expected %zu", p.size (), late.size ());
  for (j = 0; j < p.size (); j++)
    CHECK (p[j].e == late[j].e && p[j].t == late[j].t && p[j].v == late[j].v && p[j].at == c->_time + late[j].d, "scheduled action #%zu is %s(%s) at %llu", j, TRN[p[j].t], eid (p[j].e).c_str (),
           (unsigned long long) p[j].at);
}
TEST ("L02", l02)
{
  LW w;
  w.pv = true;
  MCtx *g = new MCtx ("g"), *c = new MCtx ("c"), *o = new MCtx ("o");
  w.doc.getRoot ()->addChild (g);
  g->addChild (c);
  w.doc.getRoot ()->addChild (o);
  vector<MMed *> ms;
  for (int i = 0; i < 3; i++)
    {
      MMed *m = new MMed ("m" + to_string (i));
      if (r.p (1, 3)) { m->addAlias ("al" + to_string (i), r.p (1, 4) ? nullptr : r.p (1, 2) ? o : g); NOTE (" m%d alias in %s", i, m->_aliases.front ().second ? m->_aliases.front ().second->getId ().c_str () : "nothing"); }
      (i < 2 ? c : g)->addChild (m);
      ms.push_back (m);
      m->addAttributionEvent ("p");
      if (r.p (1, 2)) m->addPresentationEvent ("x", 0, 1);
      m->glog = &w.glog;
      for (auto e : *m->getEvents ()) w.es.push_back (e);
    }
  ms[0]->Object::setProperty ("p", "1");
  for (auto x : { g, c, o }) { x->glog = &w.glog; w.cs.push_back (x); if (r.p (1, 2)) w.es.push_back (x->getLambda ()); }
  sort (w.es.begin (), w.es.end (), [] (Event *x, Event *y) { return eid (x) < eid (y); });
  while (w.es.size () > 5) w.es.erase (w.es.begin () + r.n ((int) w.es.size ()));
  for (int i = r.n (4); i > 0; i--) { Event *e = r.of (w.es); c->addPort (e); NOTE (" c.port(%s)", eid (e).c_str ()); }
  for (auto x : w.cs) { put (x->getLambda (), r.p (2, 3) ? Event::OCCURRING : r.n (3)); x->_time = 0; x->_status = !r.p (1, 8); NOTE (" %s %s%s", x->getId ().c_str (), STN[x->getLambda ()->getState ()], x->_status ? "" : " (links off)"); }
  for (auto x : w.cs) mklinks (r, w, x, r.n (5), false);
  map<Event *, int> st;
  for (auto e : w.es) { put (e, r.p (2, 3) ? e->getState () : r.n (3)); }
  for (auto x : w.cs) st[x->getLambda ()] = x->getLambda ()->getState ();
  for (auto e : w.es) st[e] = e->getState ();
  // the real thing, with a bound on the number of transitions (cyclic links never end)
  int left = 40;
  auto ask = [&] (Event *e, int t) { return left-- > 0 && ((e->getFullId ().size () + t) % 5 != 0 || !r.p (0, 1)); };
  for (auto m : ms) m->ask = ask;
  for (auto x : w.cs) ((MCtx *) x)->ask = ask;
  Event *e0 = r.of (w.es);
  int t0 = r.p (2, 3) ? Event::START : r.n (5);
  NOTE (" run %s(%s %s)", TRN[t0], STN[st[e0]], eid (e0).c_str ());
  // expected
  auto legal = [] (int s, int t) {
    return t == Event::START ? (s != Event::OCCURRING ? Event::OCCURRING : -1) : t == Event::PAUSE ? (s == Event::OCCURRING ? Event::PAUSED : -1) : t == Event::RESUME ? (s == Event::PAUSED ? Event::OCCURRING : -1) : s != Event::SLEEPING ? Event::SLEEPING : -1;
  };
  vector<Action> stack;
  Action a0;
  a0.event = e0; a0.transition = (Event::Transition) t0; a0.predicate = nullptr; a0.value = "init"; a0.duration = "";
  stack.push_back (a0);
  vector<pair<Event *, int> > want;
  map<Event *, pair<string, string> > par;
  int budget = 40, n = 0;
  vector<Sched> late;
  while (!stack.empty ())
    {
      Action a = stack.back ();
      stack.pop_back ();
      par[a.event].first = a.duration;
      if (a.event->getType () == Event::ATTRIBUTION) par[a.event].second = a.value;
      int nx = legal (st[a.event], a.transition);
      if (nx < 0 || budget-- <= 0) continue;
      st[a.event] = nx;
      n++;
      want.push_back ({ a.event, a.transition });
      Object *ob = a.event->getObject ();
      auto add = [&] (Context *x) { for (auto &y : fire (w, a.event, a.transition, x, &late)) stack.push_back (y); };
      Context *pc = dynamic_cast<Context *> (ob->getParent ());
      if (pc && pc != w.doc.getRoot () && st[pc->getLambda ()] == Event::OCCURRING)
        {
          add (pc);
          Context *gp = dynamic_cast<Context *> (pc->getParent ());
          if (gp && gp != w.doc.getRoot () && st[gp->getLambda ()] == Event::OCCURRING)
            for (auto p : *pc->getPorts ()) if (p->getObject () == ob) add (gp);
        }
      if (auto x = dynamic_cast<Context *> (ob)) add (x);
      else for (auto &al : ob->_aliases) if (al.second) add ((Context *) al.second);
    }
  if (want.size () > 1) NONTRIVIAL ();
  int got = w.doc.evalAction (a0);
  vector<pair<Event *, int> > seen;
  for (auto &x : w.glog) seen.push_back ({ x.e, x.t });
  for (size_t j = 0; j < max (seen.size (), want.size ()); j++)
    CHECK (j < seen.size () && j < want.size () && seen[j] == want[j], "transition #%zu is %s %s, expected %s %s", j, j < seen.size () ? TRN[seen[j].second] : "none",
           j < seen.size () ? eid (seen[j].first).c_str () : "", j < want.size () ? TRN[want[j].second] : "none", j < want.size () ? eid (want[j].first).c_str () : "");
  CHECK (got == n, "%d reported, %d transitions succeeded", got, n);
  for (auto &x : par)
    {
      string s = "?", v = "?";
      CHECK (x.first->getParameter ("duration", &s) && s == x.second.first, "duration of %s is %s", eid (x.first).c_str (), s.c_str ());
      if (x.first->getType () == Event::ATTRIBUTION)
        CHECK (x.first->getParameter ("value", &v) && v == x.second.second, "value of %s is %s", eid (x.first).c_str (), v.c_str ());
    }
}
