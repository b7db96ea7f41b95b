// Media objects and the focus: M01-M06, F01
#include "h.h"

// ---------------------------------------------------------------- a player that records what it is told
struct Told { string k, a, b; };
static vector<Told> told;
static int alive, made;
static bool refuse;
static Formatter *lastf;
static Media *lastm;
static string lasturi, lasttype;
struct Fake : public Player
{
  Fake (Formatter *f, Media *m) : Player (f, m) { alive++; made++; }
  ~Fake () { alive--; told.push_back ({ "delete", "", "" }); }
  void start () override { told.push_back ({ "start", "", "" }); _state = OCCURRING; _time = 0; }
  void stop () override { told.push_back ({ "stop", "", "" }); _state = SLEEPING; }
  void pause () override { told.push_back ({ "pause", "", "" }); _state = PAUSED; }
  void resume () override { told.push_back ({ "resume", "", "" }); _state = OCCURRING; }
  string getProperty (const string &n) override { return Player::getProperty (n); }
  void setProperty (const string &n, const string &v) override
  {
    told.push_back ({ "set", n, v });
    _properties[n] = v;
    if (n == "focusIndex") _prop.focusIndex = v;
  }
  void reload () override {}
  void redraw (cairo_t *) override {}
  void sendKeyEvent (const string &k, bool p) override { told.push_back ({ "key", k, p ? "press" : "release" }); }
  void sendPresentationEvent (const string &a, const string &b) override { told.push_back ({ "pres", a, b }); }
};
extern "C" Player *
__wrap__ZN5ginga6Player12createPlayerEPNS_9FormatterEPNS_5MediaERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESC_ (Formatter *f, Media *m, const string &u,
                                                                                                                             const string &t)
{
  lastf = f;
  lastm = m;
  lasturi = u;
  lasttype = t;
  told.push_back ({ "create", u, t });
  return refuse ? nullptr : new Fake (f, m);
}
static string
show ()
{
  string s;
  for (auto &t : told) s += " " + t.k + (t.a.empty () && t.b.empty () ? "" : "(" + q (t.a) + "," + q (t.b) + ")");
  return s;
}
struct Seen { Event *e; int t; };
static vector<Seen> seen;
struct Sub : public Media
{
  explicit Sub (const string &id) : Media (id) {}
  bool beforeTransition (Event *e, Event::Transition t) override
  {
    seen.push_back ({ e, t });
    return Media::beforeTransition (e, t);
  }
};
struct World
{
  Formatter fmt { nullptr };
  Document doc;
  World ()
  {
    doc.setData ("formatter", (void *) &fmt);
    told.clear ();
    seen.clear ();
    made = alive = 0;
    refuse = false;
    Player::_currentFocus = "";
  }
};
static vector<string> NAMES = { "left", "focusIndex", "zIndex", "moveUp", "moveDown", "foo", "bar", "transparency", "uri", "type" };
static map<string, string>
someprops (Rng &r, Media *m)
{
  map<string, string> p;
  for (auto &n : NAMES)
    if (r.p (1, 3))
      {
        string v = r.of ({ "", "1", "a.png", "50%", "x" });
        m->Object::setProperty (n, v, 0);
        p[n] = v;
        NOTE (" %s=%s", n.c_str (), q (v).c_str ());
      }
  return p;
}
static void
wake (Object *o)
{
  o->getLambda ()->_state = Event::OCCURRING;
  o->_time = 0;
}
// ---------------------------------------------------------------- M01
TEST ("M01", m01)
{
  World w;
  Context *c = new Context ("c");
  w.doc.getRoot ()->addChild (c);
  wake (w.doc.getRoot ());
  bool csleep = r.p (1, 3);
  if (!csleep) wake (c);
  Sub *m = new Sub ("m");
  c->addChild (m);
  CHECK (m->_player == nullptr, "a new media object has a player");
  auto props = someprops (r, m);
  refuse = r.p (1, 5);
  NOTE ("%s%s", csleep ? " (context asleep)" : "", refuse ? " (no player can be created)" : "");
  told.clear ();
  int aw = c->_awakeChildren;
  bool ok = m->getLambda ()->transition (Event::START);
  NONTRIVIAL ();
  if (csleep) CHECK (c->isOccurring (), "the sleeping context is not started");
  CHECK (!told.empty () && told[0].k == "create", "no player is created:%s", show ().c_str ());
  CHECK (lastf == &w.fmt && lastm == m && lasturi == props["uri"] && lasttype == props["type"], "player created from %s %s", q (lasturi).c_str (), q (lasttype).c_str ());
  if (refuse)
    {
      CHECK (!ok && m->isSleeping () && !m->_player && told.size () == 1, "the start is not refused:%s", show ().c_str ());
      return;
    }
  CHECK (ok && m->isOccurring () && m->_player && made == 1, "%d players, start %s", made, ok ? "accepted" : "refused");
  CHECK (told.back ().k == "start", "the player is not started last:%s", show ().c_str ());
  map<string, string> got;
  for (size_t i = 1; i + 1 < told.size (); i++)
    {
      CHECK (told[i].k == "set", "told%s", show ().c_str ());
      got[told[i].a] = told[i].b;
    }
  for (auto &p : props)
    if (!((p.first == "uri" || p.first == "type") && p.second.empty ()))
      CHECK (got.count (p.first) && got[p.first] == p.second, "property %s was not handed over:%s", p.first.c_str (), show ().c_str ());
  for (auto &g : got)
    CHECK (props[g.first] == g.second, "the player got %s=%s", g.first.c_str (), g.second.c_str ());
  CHECK (c->_awakeChildren == aw + 1, "awake children %d, were %d", c->_awakeChildren, aw);
  // stop
  bool abort = r.p (1, 2), gone = r.p (1, 3), paused = r.p (1, 4);
  auto F = (Fake *) m->_player;
  told.clear ();
  if (paused) { F->_state = Player::PAUSED; m->getLambda ()->_state = Event::PAUSED; }
  if (gone) F->_state = Player::SLEEPING;
  NOTE (" then %s%s%s", abort ? "abort" : "stop", gone ? " (player already stopped)" : "", paused ? " (paused)" : "");
  ok = m->getLambda ()->transition (abort ? Event::ABORT : Event::STOP);
  CHECK (ok && m->isSleeping (), "%s refused", abort ? "abort" : "stop");
  CHECK (alive == 0 && m->_player == nullptr, "the player is still there:%s", show ().c_str ());
  CHECK (told.size () == (gone ? 1u : 2u) && told.back ().k == "delete" && (gone || told[0].k == "stop"), "told%s", show ().c_str ());
  CHECK (c->_awakeChildren == aw && m->_time == NONE && m->_delayed.empty (), "stop bookkeeping: awake %d time %llu", c->_awakeChildren, (unsigned long long) m->_time);
  told.clear ();
  m->doStop ();
  CHECK (c->_awakeChildren == aw && told.empty (), "stopping without a player has an effect");
}
// ---------------------------------------------------------------- M02
TEST ("M02", m02)
{
  World w;
  Context *c = new Context ("c");
  w.doc.getRoot ()->addChild (c);
  wake (w.doc.getRoot ());
  wake (c);
  Sub *m = new Sub ("m");
  c->addChild (m);
  struct A { Event *e; Time b, d; };
  vector<A> anch;
  for (int i = 0, n = r.n (6); i < n; i++)
    {
      string id = "a" + to_string (i);
      switch (r.n (4))
        {
        case 0: m->addPresentationEvent (id, "label" + to_string (i)); NOTE (" labelled"); break;
        case 1: m->addAttributionEvent (id); NOTE (" attribution"); break;
        default:
          {
            Time b = r.n (4) ? r.n (20) : 0, e = r.n (4) ? b + r.n (20) : NONE;
            m->addPresentationEvent (id, b, e);
            anch.push_back ({ m->getPresentationEvent (id), b, e });
            NOTE (" [%llu,%lld]", (unsigned long long) b, (long long) e);
          }
        }
    }
  m->addSelectionEvent ("");
  CHECK (m->getLambda ()->transition (Event::START), "start refused");
  NONTRIVIAL ();
  for (auto &a : anch)
    {
      int s = 0, e = 0;
      for (auto &d : m->_delayed)
        if (d.first.event == a.e)
          {
            if (d.first.transition == Event::START) { s++; CHECK (d.second == a.b, "start at %llu, begin is %llu", (unsigned long long) d.second, (unsigned long long) a.b); }
            else if (d.first.transition == Event::STOP) { e++; CHECK (d.second == a.d, "stop at %llu, end is %llu", (unsigned long long) d.second, (unsigned long long) a.d); }
            else H::fail ("%s of an anchor is scheduled", TRN[d.first.transition]);
          }
      CHECK (s == 1 && e <= 1 && (e == 1 || a.d == NONE), "anchor %s: %d starts and %d stops scheduled", a.e->getId ().c_str (), s, e);
    }
  for (auto &d : m->_delayed)
    {
      bool is = false;
      for (auto &a : anch) is |= a.e == d.first.event;
      CHECK (is, "%s of %s is scheduled", TRN[d.first.transition], d.first.event->getId ().c_str ());
    }
  // pause, resume
  vector<Event *> pr;
  for (auto e : *m->getEvents ())
    if (e->getType () == Event::PRESENTATION && !e->isLambda ())
      {
        pr.push_back (e);
        e->_state = (Event::State) r.n (3);
        NOTE (" %s:%s", e->getId ().c_str (), STN[e->_state]);
      }
  map<Event *, int> st;
  for (auto e : pr) st[e] = e->_state;
  for (int t : { (int) Event::PAUSE, (int) Event::RESUME })
    {
      seen.clear ();
      told.clear ();
      CHECK (m->getLambda ()->transition ((Event::Transition) t), "%s refused", TRN[t]);
      int n = 0;
      for (auto &x : told) n += x.k == (t == Event::PAUSE ? "pause" : "resume");
      CHECK (n == 1 && told.size () == 1, "%s: the player was told%s", TRN[t], show ().c_str ());
      for (auto e : pr)
        {
          int from = t == Event::PAUSE ? Event::OCCURRING : Event::PAUSED, to = t == Event::PAUSE ? Event::PAUSED : Event::OCCURRING;
          int want = st[e] == from ? to : st[e];
          CHECK (e->_state == want, "%s of %s: %s -> %s", TRN[t], e->getId ().c_str (), STN[st[e]], STN[e->_state]);
          st[e] = want;
        }
      for (auto &s : seen)
        CHECK (s.e == m->getLambda () || (s.t == t && find (pr.begin (), pr.end (), s.e) != pr.end ()), "%s of %s was requested", TRN[s.t], s.e->getFullId ().c_str ());
    }
}
// ---------------------------------------------------------------- M03
TEST ("M03", m03)
{
  World w;
  Context *c = w.doc.getRoot ();
  wake (c);
  Sub *m = new Sub ("m");
  c->addChild (m);
  auto props = someprops (r, m);
  bool has = r.p (2, 3);
  if (has) CHECK (m->getLambda ()->transition (Event::START), "start refused");
  told.clear ();
  auto before = m->_properties;
  string n = r.of ({ "left", "top", "foo", "bar", "zIndex", "width" }), v = r.of ({ "10", "20%", "0", "7" });
  Time d = r.p (1, 2) ? 0 : (Time) r.range (1, 5) * GINGA_SECOND;
  NOTE (" set %s=%s over %llu%s", n.c_str (), v.c_str (), (unsigned long long) d, has ? "" : " (no player)");
  string from = before.count (n) ? before[n] : "";
  PlayerAnimator *an = has ? m->_player->_animator : nullptr;
  size_t s0 = an ? an->_scheduled.size () : 0;
  m->setProperty (n, v, d);
  NONTRIVIAL ();
  CHECK (m->getProperty (n) == v, "the value is %s", q (m->getProperty (n)).c_str ());
  before[n] = v;
  CHECK (m->_properties == before, "another property changed");
  if (!has) { CHECK (told.empty () && !m->_player, "told%s", show ().c_str ()); return; }
  size_t s1 = an->_scheduled.size ();
  if (d == 0)
    CHECK (told.size () == 1 && told[0].k == "set" && told[0].a == n && told[0].b == v && s1 == s0, "told%s, %zu animations", show ().c_str (), s1 - s0);
  else
    {
      CHECK (told.empty () && s1 == s0 + 1, "told%s, %zu animations", show ().c_str (), s1 - s0);
      auto a = an->_scheduled.back ();
      CHECK (a->getName () == n && a->getDuration () == d, "animates %s over %llu", a->getName ().c_str (), (unsigned long long) a->getDuration ());
      CHECK (a->_init == !from.empty () && (from != "1" || a->getCurrent () == 1), "the animation of %s starts at %g, the value was %s", n.c_str (),
             a->getCurrent (), q (from).c_str ());
    }
}
// ---------------------------------------------------------------- M04
TEST ("M04", m04)
{
  World w;
  Context *c = w.doc.getRoot ();
  wake (c);
  MediaSettings *set = w.doc.getSettings ();
  Sub *m = new Sub ("m");
  c->addChild (m);
  static const vector<string> KEYS = { "RED", "ENTER", "CURSOR_UP", "CURSOR_DOWN", "CURSOR_LEFT", "CURSOR_RIGHT", "1", "CURSOR_", "REDX" };
  static const vector<string> BOUND = { "", "RED", "ENTER", "1", "$p", "CURSOR_UP", "CURSOR_LEFT", "$", "$RED", "red" };
  map<Event *, string> bind;
  for (int i = 0, n = r.n (6); i < n; i++)
    {
      string b = r.of (BOUND);
      m->addSelectionEvent (b);
      Event *e = m->getSelectionEvent (b);
      if (bind.count (e)) continue;
      bool none = b.empty () && r.p (1, 2);
      if (none) e->_parameters.erase ("key"); else e->setParameter ("key", b);
      bind[e] = b;
      NOTE (" on(%s)", b.c_str ());
    }
  m->addPresentationEvent ("x", 0, 9);
  m->addAttributionEvent ("RED");
  m->getAttributionEvent ("RED")->setParameter ("key", "RED");
  string fi = r.of ({ "", "1", "2" });
  m->Object::setProperty ("focusIndex", fi, 0);
  map<string, string> mv;
  for (auto n : { "moveUp", "moveDown", "moveLeft", "moveRight" })
    if (r.p (2, 3)) { string v = r.of ({ "", "3", "4", "5" }); m->Object::setProperty (n, v, 0); mv[n] = v; NOTE (" %s=%s", n, v.c_str ()); }
  Player::_currentFocus = r.of ({ "", "1", "2" });
  bool foc = fi != "" && fi == Player::_currentFocus;
  int st = r.p (1, 6) ? Event::SLEEPING : r.p (1, 5) ? Event::PAUSED : Event::OCCURRING;
  if (st != Event::SLEEPING) { CHECK (m->getLambda ()->transition (Event::START), "start refused"); m->getLambda ()->_state = (Event::State) st; }
  string key = r.of (KEYS);
  bool press = r.p (2, 3);
  map<Event *, bool> able;
  for (auto &b : bind)
    {
      able[b.first] = r.p (3, 4);
      b.first->_state = press == able[b.first] ? Event::SLEEPING : Event::OCCURRING;
    }
  NOTE (" %s %s %s%s", STN[st], key.c_str (), press ? "pressed" : "released", foc ? " focused" : "");
  set->_hasNextFocus = false;
  set->_nextFocus = "none";
  told.clear ();
  seen.clear ();
  m->sendKey (key, press);
  NONTRIVIAL ();
  if (st == Event::SLEEPING)
    {
      CHECK (told.empty () && seen.empty () && !set->_hasNextFocus, "a sleeping object reacts");
      return;
    }
  static const map<string, string> dirs = { { "CURSOR_UP", "moveUp" }, { "CURSOR_DOWN", "moveDown" }, { "CURSOR_LEFT", "moveLeft" }, { "CURSOR_RIGHT", "moveRight" } };
  string next = dirs.count (key) && press && foc ? mv[dirs.at (key)] : "";
  CHECK (set->_hasNextFocus == (next != "") && (next == "" || set->_nextFocus == next), "focus move to %s, expected %s", set->_hasNextFocus ? q (set->_nextFocus).c_str () : "nothing",
         next == "" ? "nothing" : q (next).c_str ());
  int keys = 0;
  for (auto &t : told) { keys += t.k == "key"; if (t.k == "key") CHECK (t.a == key && t.b == (press ? "press" : "release"), "told%s", show ().c_str ()); }
  CHECK (keys == (foc ? 1 : 0), "the player was told%s", show ().c_str ());
  for (auto &b : bind)
    {
      bool none = b.second.empty () || b.second[0] == '$';
      bool due = none ? key == "ENTER" && foc : key == b.second;
      int n = 0;
      for (auto &s : seen)
        if (s.e == b.first) { n++; CHECK (s.t == (press ? Event::START : Event::STOP), "%s of the event on %s", TRN[s.t], b.second.c_str ()); }
      CHECK (n == (due && able[b.first] ? 1 : 0), "event on %s triggered %d times", q (b.second).c_str (), n);
    }
  for (auto &s : seen) CHECK (bind.count (s.e), "%s of %s", TRN[s.t], s.e->getFullId ().c_str ());
}
// ---------------------------------------------------------------- M05
TEST ("M05", m05)
{
  World w;
  Context *c = w.doc.getRoot ();
  wake (c);
  Sub *m = new Sub ("m");
  c->addChild (m);
  bool has = r.p (4, 5);
  if (has) CHECK (m->getLambda ()->transition (Event::START), "start refused");
  Time dur = r.p (1, 3) ? NONE : (Time) r.n (12);
  bool ended = r.p (1, 6);
  Time now = 0;
  if (has) { m->_player->setDuration (dur); }
  NOTE ("%s duration %lld", has ? "" : " no player", (long long) dur);
  if (has && r.p (1, 4)) { m->getLambda ()->_state = Event::PAUSED; NOTE (" paused"); }
  bool paused = m->isPaused ();
  Time pt = has ? m->_player->_time : 0;
  NONTRIVIAL ();
  for (int i = 0; i < 8; i++)
    {
      Time d = r.n (5);
      bool eos = has && ended && r.p (1, 3);
      if (eos) m->_player->setEOS (true);
      seen.clear ();
      NOTE (" +%llu%s", (unsigned long long) d, eos ? " eos" : "");
      told.clear ();
      m->sendTick (0, d, 0);
      if (!has) { CHECK (seen.empty () && told.empty (), "a tick without a player has an effect"); continue; }
      if (!paused) now += d;
      pt += d;
      int stops = 0;
      for (auto &s : seen) { CHECK (s.e == m->getLambda () && s.t == Event::STOP, "%s of %s", TRN[s.t], s.e->getFullId ().c_str ()); stops++; }
      bool over = eos || (dur != NONE && now > dur);
      CHECK (stops == (over ? 1 : 0), "%d stops requested at %llu of %lld", stops, (unsigned long long) now, (long long) dur);
      if (over) { CHECK (m->isSleeping () && !m->_player, "not stopped"); return; }
      CHECK (m->_player->_time == pt, "the player is at %llu, expected %llu", (unsigned long long) m->_player->_time, (unsigned long long) pt);
      CHECK (m->_time == now, "the object is at %llu", (unsigned long long) m->_time);
    }
}
// ---------------------------------------------------------------- M06
TEST ("M06", m06)
{
  World w;
  Context *c = new Context ("c");
  w.doc.getRoot ()->addChild (c);
  wake (w.doc.getRoot ());
  bool csleep = r.p (1, 4);
  if (!csleep) wake (c);
  Sub *m = new Sub ("m");
  c->addChild (m);
  const Time S = GINGA_SECOND / 2;
  struct A { Event *e; Time b, d; };
  vector<A> anch;
  for (int i = 0, n = r.range (1, 6); i < n; i++)
    {
      string id = "a" + to_string (i);
      if (i && r.p (1, 5))
        {
          m->addPresentationEvent (id, "label" + to_string (i));
          NOTE (" labelled");
          continue;
        }
      Time b = r.n (4) ? r.n (12) * S : r.p (1, 2) ? 0 : NONE;
      Time e = r.n (3) ? (b == NONE ? 0 : b) + r.n (12) * S : NONE;
      m->addPresentationEvent (id, b, e);
      anch.push_back ({ m->getPresentationEvent (id), b, e });
      NOTE (" [%lld,%lld]", (long long) b, (long long) e);
    }
  bool awake = r.p (1, 5);
  if (awake) CHECK (m->getLambda ()->transition (Event::START), "start refused");
  A me = r.of (anch);
  NOTE ("%s%s: start %s", csleep ? " (context asleep)" : "", awake ? " (awake)" : "", me.e->getId ().c_str ());
  auto before = m->_delayed.size ();
  told.clear ();
  seen.clear ();
  bool ok = me.e->transition (Event::START);
  NONTRIVIAL ();
  CHECK (ok && me.e->_state == Event::OCCURRING && m->isOccurring () && c->isOccurring (), "the start is refused");
  if (awake)
    {
      CHECK (told.empty () && m->_delayed.size () == before && seen.size () == 1, "an object already awake is told%s", show ().c_str ());
      return;
    }
  Time b = me.b == NONE ? 0 : me.b;
  string tm, du;
  bool started = false;
  for (auto &t : told)
    {
      if (t.k == "start") { CHECK (!started, "the player is started twice"); started = true; }
      if (t.k == "set" && t.a == "time") { CHECK (started && tm == "", "told%s", show ().c_str ()); tm = t.b; }
      if (t.k == "set" && t.a == "duration") { CHECK (started && du == "", "told%s", show ().c_str ()); du = t.b; }
    }
  CHECK (tm == to_string (b / GINGA_SECOND), "the player is moved to %s, the anchor begins at %llu", q (tm).c_str (), (unsigned long long) b);
  CHECK (du == (me.d == NONE ? "" : to_string ((me.d - b) / GINGA_SECOND)), "the player is limited to %s, the anchor lasts from %llu to %lld", q (du).c_str (),
         (unsigned long long) b, (long long) me.d);
  // what is left to do, and what was done at once
  vector<tuple<Event *, int, Time> > want, got;
  set<Event *> first;
  for (auto e : m->_events)
    for (auto &a : anch)
      if (a.e == e)
        {
          auto put = [&] (int t, Time x) {
            if (x != NONE && x >= b && (me.d == NONE || x <= me.d)) want.push_back (make_tuple (e, t, x - b));
          };
          if (a.b != NONE && a.b < b) first.insert (e);
          put (Event::START, a.b);
          put (Event::STOP, a.d);
        }
  if (me.d != NONE) want.push_back (make_tuple (me.e, (int) Event::STOP, me.d - b));
  for (auto &d : m->_delayed) got.push_back (make_tuple (d.first.event, (int) d.first.transition, d.second));
  sort (want.begin (), want.end ());
  sort (got.begin (), got.end ());
  CHECK (want == got, "%zu actions are pending, expected %zu: %s", got.size (), want.size (), [&] {
    string s;
    for (auto &x : got) s += " " + get<0> (x)->getId () + ":" + TRN[get<1> (x)] + "@" + to_string (get<2> (x));
    return s;
  } ().c_str ());
  for (auto &a : anch)
    CHECK ((a.e->_state == Event::OCCURRING) == (a.e == me.e || first.count (a.e)), "anchor %s [%lld,%lld] is %s", a.e->getId ().c_str (), (long long) a.b, (long long) a.d,
           STN[a.e->_state]);
}
// ---------------------------------------------------------------- F01
TEST ("F01", f01)
{
  World w;
  Context *c = w.doc.getRoot ();
  wake (c);
  MediaSettings *set = w.doc.getSettings ();
  CHECK (set->getLambda ()->transition (Event::START), "start refused");
  string best;
  for (int i = 0, n = r.n (6); i < n; i++)
    {
      Sub *m = new Sub ("m" + to_string (i));
      c->addChild (m);
      string fi = r.of ({ "", "1", "2", "10", "9", "a", "B", "0", "01" });
      m->Object::setProperty ("focusIndex", fi, 0);
      int st = r.n (3);
      NOTE (" %s:%s", q (fi).c_str (), STN[st]);
      m->getLambda ()->_state = (Event::State) st;
      if (st != Event::SLEEPING) m->_player = new Fake (&w.fmt, m);
      if (st == Event::OCCURRING && fi != "" && (best == "" || fi < best)) best = fi;
    }
  string f0 = r.of ({ "", "7", "1" });
  set->Object::setProperty ("service.currentFocus", f0, 0);
  Player::_currentFocus = f0;
  NONTRIVIAL ();
  bool pend = r.p (4, 5);
  string req = r.of ({ "", "", "2", "zz" });
  set->_hasNextFocus = false;
  set->_nextFocus = "stale";
  if (pend)
    {
      if (r.p (1, 3)) { set->scheduleFocusUpdate ("other"); }
      set->scheduleFocusUpdate (req);
      NOTE (" request %s", q (req).c_str ());
    }
  string want = !pend ? f0 : req != "" ? req : best;
  set->sendTick (0, 0, 0);
  CHECK (set->getProperty ("service.currentFocus") == want, "the current focus is %s, expected %s", q (set->getProperty ("service.currentFocus")).c_str (), q (want).c_str ());
  CHECK (Player::getCurrentFocus () == want, "players use the focus %s, expected %s", q (Player::getCurrentFocus ()).c_str (), q (want).c_str ());
  CHECK (!set->_hasNextFocus, "the update stays pending");
  // it is done once
  set->setProperty ("service.currentFocus", "mine", 0);
  CHECK (Player::getCurrentFocus () == "mine" && set->getProperty ("service.currentFocus") == "mine", "setting the property does not set the focus");
  set->setProperty ("other", "thing", 0);
  CHECK (Player::getCurrentFocus () == "mine", "another property sets the focus");
  set->sendTick (0, 1, 1);
  CHECK (Player::getCurrentFocus () == "mine", "the update is carried out again: %s", q (Player::getCurrentFocus ()).c_str ());
}
