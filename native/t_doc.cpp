// Documents, compositions, references, conditions: D01-D03, P01, P02
#include "h.h"

static const vector<string> NAMES = { "a", "b", "c", "A", "", "a.b", "$a", "@x", "m", "s w", "é" };
static const vector<string> PROPS = { "p", "q", "", "p.q", "x y", "P" };
static const vector<string> VALS = { "", "1", "2", "10", "abc", "ABC", "$a.p", "b", "ab", "\x80", "~" };

struct W
{
  Document doc;
  vector<Object *> objs;                       // in the document
  map<Object *, vector<string> > aliases;
  map<Object *, map<string, string> > props;
  map<Object *, Composition *> par;
  vector<Composition *> comps;
  W () { comps.push_back (doc.getRoot ()); objs = { doc.getRoot (), doc.getSettings () }; par[doc.getSettings ()] = doc.getRoot (); }
  bool answers (Object *o, const string &s)
  {
    if (o->getId () == s) return true;
    for (auto &a : aliases[o]) if (a == s) return true;
    return false;
  }
  Object *byId (const string &s) { for (auto o : objs) if (o->getId () == s) return o; return nullptr; }
  Object *any (const string &s) { for (auto o : objs) if (answers (o, s)) return o; return nullptr; }
};
static void
addAlias (Rng &r, W &w, Object *o)
{
  string a = r.of (NAMES);
  o->addAlias (a, r.p (1, 2) ? w.doc.getRoot () : nullptr);
  w.aliases[o].push_back (a);
  NOTE (" %s.addAlias(%s)", q (o->getId ()).c_str (), q (a).c_str ());
}
static void
same (W &w)
{
  CHECK (w.doc.getObjects ()->size () == w.objs.size (), "the document has %zu objects, expected %zu", w.doc.getObjects ()->size (), w.objs.size ());
  size_t m = 0, c = 0, s = 0;
  for (auto o : w.objs)
    {
      CHECK (w.doc.getObjects ()->count (o), "object %s is missing", q (o->getId ()).c_str ());
      CHECK (w.doc.getObjectById (o->getId ()) == o, "object %s is not reachable by id", q (o->getId ()).c_str ());
      bool im = dynamic_cast<Media *> (o), ic = dynamic_cast<Context *> (o), is = dynamic_cast<Switch *> (o);
      CHECK (w.doc.getMedias ()->count (dynamic_cast<Media *> (o)) == (size_t) im, "media membership of %s", q (o->getId ()).c_str ());
      CHECK (w.doc.getContexts ()->count (dynamic_cast<Context *> (o)) == (size_t) ic, "context membership of %s", q (o->getId ()).c_str ());
      CHECK (w.doc.getSwitches ()->count (dynamic_cast<Switch *> (o)) == (size_t) is, "switch membership of %s", q (o->getId ()).c_str ());
      m += im; c += ic; s += is;
      CHECK (o->getDocument () == &w.doc, "document of %s", q (o->getId ()).c_str ());
    }
  CHECK (w.doc.getMedias ()->size () == m && w.doc.getContexts ()->size () == c && w.doc.getSwitches ()->size () == s, "extra members in a collection");
}
static Object *
fresh (Rng &r, const string &id)
{
  int k = r.n (3);
  return k == 0 ? (Object *) new Media (id) : k == 1 ? (Object *) new Context (id) : (Object *) new Switch (id);
}
TEST ("D01", d01)
{
  W w;
  vector<Object *> extra, dead;
  int n = r.range (2, 14);
  for (int k = 0; k < n; k++)
    {
      if (r.p (1, 3)) addAlias (r, w, r.of (w.objs));
      Object *o;
      if (r.p (1, 6)) o = r.of (w.objs);
      else { o = fresh (r, r.of (NAMES)); if (r.p (1, 4)) { string a = r.of (NAMES); o->addAlias (a, w.doc.getRoot ()); w.aliases[o].push_back (a); } }
      bool there = find (w.objs.begin (), w.objs.end (), o) != w.objs.end ();
      bool want = !there && !w.any (o->getId ());
      NOTE (" add(%s%s)", q (o->getId ()).c_str (), there ? " again" : "");
      bool got = w.doc.addObject (o);
      CHECK (got == want, "addObject reported %d", got);
      if (want) { w.objs.push_back (o); extra.push_back (o); NONTRIVIAL (); }
      else if (!there) { CHECK (o->getDocument () == nullptr, "a refused object learned a document"); dead.push_back (o); }
      same (w);
      for (auto &s : NAMES)
        {
          Object *x = w.doc.getObjectById (s);
          CHECK (x == w.byId (s), "getObjectById(%s)", q (s).c_str ());
          Object *y = w.doc.getObjectByIdOrAlias (s);
          if (w.byId (s)) CHECK (y == w.byId (s), "getObjectByIdOrAlias(%s) does not prefer the id", q (s).c_str ());
          else CHECK (!y == !w.any (s) && (!y || w.answers (y, s)), "getObjectByIdOrAlias(%s) wrong", q (s).c_str ());
        }
    }
  for (auto o : dead) delete o;
  for (auto o : extra) delete o; // not children of the root: not released by the document
}
TEST ("D03", d03)
{
  W w;
  int n = r.range (2, 12);
  map<Composition *, set<Object *> > ch;
  ch[w.doc.getRoot ()].insert (w.doc.getSettings ());
  int uid = 0;
  for (int k = 0; k < n; k++)
    {
      Composition *c = r.of (w.comps);
      Object *o;
      if (r.p (1, 4) && !ch[c].empty ())
        {
          vector<Object *> v (ch[c].begin (), ch[c].end ());
          o = r.of (v);
          NOTE (" %s.addChild(%s again)", c->getId ().c_str (), o->getId ().c_str ());
        }
      else
        {
          o = fresh (r, "n" + to_string (uid++));
          if (r.p (1, 2)) { string a = r.p (1, 2) ? "al" + to_string (r.n (3)) : "n" + to_string (1000 + r.n (4)); o->addAlias (a, c); w.aliases[o].push_back (a); }
          if (auto x = dynamic_cast<Composition *> (o)) w.comps.push_back (x);
          w.objs.push_back (o);
          NOTE (" %s.addChild(%s)", c->getId ().c_str (), o->getId ().c_str ());
          NONTRIVIAL ();
        }
      c->addChild (o);
      ch[c].insert (o);
      w.par[o] = c;
      CHECK (o->getParent () == c, "parent");
      for (auto x : w.comps)
        {
          CHECK (set<Object *> (x->getChildren ()->begin (), x->getChildren ()->end ()) == ch[x], "children of %s", x->getId ().c_str ());
          vector<string> ss = { "al0", "al1", "al2", "n0", "n1", "n2", "n3", "n1000", "n1001", "zz", "" };
          for (auto &s : ss)
            {
              Object *id = nullptr, *al = nullptr;
              for (auto y : ch[x]) { if (y->getId () == s) id = y; else if (w.answers (y, s)) al = y; }
              CHECK (x->getChildById (s) == id, "getChildById(%s)", s.c_str ());
              Object *g = x->getChildByIdOrAlias (s);
              CHECK (id ? g == id : !g == !al && (!g || (ch[x].count (g) && w.answers (g, s))), "getChildByIdOrAlias(%s)", s.c_str ());
            }
        }
      for (auto y : w.objs) if (w.par.count (y)) CHECK (y->getParent () == w.par[y], "parent of %s changed", y->getId ().c_str ());
      same (w);
    }
}
// ---------------------------------------------------------------- references and conditions
static void
populate (Rng &r, W &w)
{
  int n = r.range (1, 6);
  for (int k = 0; k < n; k++)
    {
      string id = r.of ({ "a", "b", "c", "A", "@x", "m", "s w" });
      if (w.any (id)) continue;
      Object *o = fresh (r, id);
      if (r.p (1, 3)) { string a = r.of ({ "k", "l", "a", "m" }); if (!w.any (a)) { o->addAlias (a, w.doc.getRoot ()); w.aliases[o].push_back (a); } }
      w.doc.getRoot ()->addChild (o);
      w.objs.push_back (o);
      for (int j = r.n (4); j > 0; j--)
        {
          string p = r.of (PROPS), v = r.of (VALS);
          o->setProperty (p, v);
          w.props[o][p] = v;
        }
      NOTE (" %s{", q (id).c_str ());
      for (auto &p : w.props[o]) NOTE ("%s=%s ", q (p.first).c_str (), q (p.second).c_str ());
      for (auto &a : w.aliases[o]) NOTE ("alias %s ", q (a).c_str ());
      NOTE ("}");
    }
}
static string
ref (Rng &r, W &w)
{
  switch (r.n (10))
    {
    case 0: return r.of (VALS);
    case 1: return "$" + r.of (NAMES);
    case 2: return r.of (NAMES) + "." + r.of (PROPS);
    case 3: return "$." + r.of (PROPS);
    case 4: return "$" + r.of (NAMES) + ".";
    case 5: return "$$" + r.of (NAMES) + "." + r.of (PROPS);
    case 6: return r.of ({ "$", ".", "", "$.", "..", "$a..p", "$k.p", "$l.q" });
    default:
      {
        Object *o = r.of (w.objs);
        string id = w.aliases[o].empty () || r.p (1, 2) ? o->getId () : w.aliases[o][0];
        return "$" + id + "." + r.of (PROPS);
      }
    }
}
// independent reading of '$id.name'
static bool
resolve (W &w, const string &s, string *out)
{
  if (s.empty () || s[0] != '$') return false;
  size_t d = 0;
  while (d < s.size () && s[d] != '.') d++;
  if (d == s.size ()) return false;
  string id (s.begin () + 1, s.begin () + d), name (s.begin () + d + 1, s.end ());
  Object *o = w.byId (id);
  if (!o) o = w.any (id);
  if (!o) return false;
  *out = w.props[o].count (name) ? w.props[o][name] : "";
  return true;
}
TEST ("D02", d02)
{
  W w;
  populate (r, w);
  for (int k = 0; k < 12; k++)
    {
      string s = ref (r, w), want = "untouched", got = "untouched";
      bool a = resolve (w, s, &want), b = w.doc.evalPropertyRef (s, &got);
      NOTE (" ref %s", q (s).c_str ());
      if (a) NONTRIVIAL ();
      CHECK (a == b, "reported %d", b);
      CHECK (want == got, "result is %s, expected %s", q (got).c_str (), q (want).c_str ());
      CHECK (w.doc.evalPropertyRef (s, nullptr) == a, "without a result variable it reports otherwise");
    }
}
static Predicate *
tree (Rng &r, W &w, int depth, string &txt, function<bool ()> &ev)
{
  int k = depth <= 0 ? r.n (3) : r.n (6);
  Predicate *p = new Predicate ((Predicate::Type) k);
  if (k == Predicate::FALSUM) { txt += "F"; ev = [] { return false; }; }
  else if (k == Predicate::VERUM) { txt += "T"; ev = [] { return true; }; }
  else if (k == Predicate::ATOM)
    {
      string l = ref (r, w), rr = r.p (1, 3) ? l : ref (r, w);
      int t = r.n (6);
      p->setTest (l, (Predicate::Test) t, rr);
      static const char *T[] = { "==", "!=", "<", "<=", ">", ">=" };
      txt += q (l) + T[t] + q (rr);
      ev = [&w, l, rr, t] {
        string a = l, b = rr;
        resolve (w, l, &a); resolve (w, rr, &b);
        int c = 0;
        size_t i = 0;
        while (i < a.size () && i < b.size () && a[i] == b[i]) i++;
        if (i < a.size () && i < b.size ()) c = (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1;
        else c = i < a.size () ? 1 : i < b.size () ? -1 : 0;
        return t == 0 ? c == 0 : t == 1 ? c != 0 : t == 2 ? c < 0 : t == 3 ? c <= 0 : t == 4 ? c > 0 : c >= 0;
      };
    }
  else
    {
      int n = k == Predicate::NEGATION ? 1 : r.n (4);
      vector<function<bool ()> > sub (n);
      txt += k == Predicate::NEGATION ? "not(" : k == Predicate::CONJUNCTION ? "and(" : "or(";
      for (int i = 0; i < n; i++) { p->addChild (tree (r, w, depth - 1, txt, sub[i])); txt += ","; }
      txt += ")";
      ev = [k, sub] {
        if (k == Predicate::NEGATION) return !sub[0] ();
        bool any = false, all = true;
        for (auto &f : sub) { bool b = f (); any |= b; all &= b; }
        return k == Predicate::CONJUNCTION ? all : any;
      };
    }
  return p;
}
static void
freeze (W &w, map<Object *, map<string, string> > &m)
{
  for (auto o : w.objs) for (auto &p : PROPS) m[o][p] = o->getProperty (p);
}
TEST ("P01", p01)
{
  W w;
  populate (r, w);
  for (int k = 0; k < 4; k++)
    {
      string txt;
      function<bool ()> ev;
      Predicate *p = tree (r, w, r.n (4), txt, ev);
      NOTE (" cond %s", txt.c_str ());
      map<Object *, map<string, string> > m0, m1;
      freeze (w, m0);
      bool a = ev (), b = w.doc.evalPredicate (p);
      freeze (w, m1);
      CHECK (a == b, "evaluates to %d", b);
      CHECK (m0 == m1, "evaluation changed a property");
      CHECK (w.doc.getObjects ()->size () == w.objs.size (), "evaluation changed the document");
      if (txt.size () > 3) NONTRIVIAL ();
      delete p;
    }
}
static string
dump (Predicate *p, set<Predicate *> &nodes, Predicate *parent)
{
  CHECK (p != nullptr, "null operand");
  CHECK (p->getParent () == parent, "wrong parent");
  CHECK (nodes.insert (p).second, "a node occurs twice");
  string s = to_string (p->getType ());
  if (p->getType () == Predicate::ATOM)
    {
      string l = "?", r = "?";
      Predicate::Test t;
      p->getTest (&l, &t, &r);
      s += q (l) + to_string (t) + q (r);
    }
  s += "(";
  for (auto c : *p->getChildren ()) s += dump (c, nodes, p) + ",";
  return s + ")";
}
TEST ("P02", p02)
{
  W w;
  populate (r, w);
  string txt;
  function<bool ()> ev;
  Predicate *p = tree (r, w, r.range (0, 4), txt, ev);
  NOTE (" cond %s", txt.c_str ());
  set<Predicate *> n0, n1, n2;
  string a = dump (p, n0, nullptr);
  Predicate *c = p->clone ();
  string b = dump (c, n1, nullptr), a2 = dump (p, n2, nullptr);
  CHECK (a == a2, "copying changed the original: %s", a2.c_str ());
  CHECK (a == b, "the copy is %s", b.c_str ());
  for (auto x : n0) CHECK (!n1.count (x), "the copy shares a node");
  if (n0.size () > 1) NONTRIVIAL ();
  // stored tests and operands
  if (p->getType () == Predicate::ATOM)
    {
      string l = r.of (VALS), rr = r.of (VALS), gl = "?", gr = "?";
      Predicate::Test t = (Predicate::Test) r.n (6), gt = Predicate::EQ;
      p->setTest (l, t, rr);
      p->getTest (nullptr, nullptr, nullptr);
      p->getTest (&gl, &gt, &gr);
      CHECK (gl == l && gr == rr && gt == t, "the test reads back as %s %d %s", q (gl).c_str (), gt, q (gr).c_str ());
      set<Predicate *> n3;
      CHECK (dump (c, n3, nullptr) == b, "changing the original changed the copy");
    }
  else if (p->getType () >= Predicate::NEGATION)
    {
      list<Predicate *> before = *p->getChildren ();
      Predicate *x = new Predicate (Predicate::VERUM);
      p->addChild (x);
      before.push_back (x);
      CHECK (*p->getChildren () == before, "operands after adding one");
      CHECK (x->getParent () == p, "parent of the new operand");
    }
  delete p;
  delete c;
}
// ---------------------------------------------------------------- D04: everything a document owns is released with it
extern "C" size_t __sanitizer_get_current_allocated_bytes ();
static int alive;
struct Cnt : public Media
{
  explicit Cnt (const string &id) : Media (id) { alive++; }
  ~Cnt () { alive--; }
};
struct CntC : public Context
{
  explicit CntC (const string &id) : Context (id) { alive++; }
  ~CntC () { alive--; }
};
struct CntS : public Switch
{
  explicit CntS (const string &id) : Switch (id) { alive++; }
  ~CntS () { alive--; }
};
static Predicate *
small (Rng &r, int depth)
{
  int k = depth <= 0 ? r.n (3) : r.n (6);
  Predicate *p = new Predicate ((Predicate::Type) k);
  if (k == Predicate::ATOM) p->setTest ("l", Predicate::EQ, "r");
  if (k >= Predicate::NEGATION)
    for (int n = k == Predicate::NEGATION ? 1 : r.n (3); n > 0; n--) p->addChild (small (r, depth - 1));
  return p;
}
static string
live (Rng &r, bool start)
{
  string txt;
  Document *doc = new Document ();
  vector<Composition *> comps = { doc->getRoot () };
  vector<Object *> all = { doc->getRoot (), doc->getSettings () };
  vector<pair<Context *, int> > ctx = { { doc->getRoot (), 0 } };
  for (int n = r.n (9), i = 0; i < n; i++)
    {
      Composition *c = r.of (comps);
      string id = string (1, (char) ('a' + i));
      int k = r.n (4);
      Object *o = k < 2 ? (Object *) new Cnt (id) : k == 2 ? (Object *) new CntC (id) : (Object *) new CntS (id);
      c->addChild (o);
      txt += string (k < 2 ? "media " : k == 2 ? "context " : "switch ") + id + " in " + c->getId () + "; ";
      if (k >= 2) comps.push_back ((Composition *) (k == 2 ? (Composition *) (Context *) o : (Composition *) (Switch *) o));
      if (k == 2) ctx.push_back ({ (Context *) o, 0 });
      all.push_back (o);
      for (int j = r.n (3); j > 0; j--) o->addPresentationEvent ("x" + to_string (j), j, 10);
      if (r.p (1, 2)) o->addAttributionEvent ("p");
      if (r.p (1, 4)) o->addSelectionEvent ("RED");
      if (k == 3) for (int j = r.n (3); j > 0; j--) { ((Switch *) o)->addRule (all[0], small (r, 2)); txt += "rule; "; }
      o->Object::setProperty ("p", "v");
    }
  for (auto &c : ctx)
    for (int n = r.n (3); n > 0; n--)
      {
        list<Action> L, R;
        for (auto l : { &L, &R })
          for (int j = r.range (1, 3); j > 0; j--)
            {
              Action a;
              a.event = r.of (all)->getLambda ();
              a.transition = Event::PAUSE;
              a.predicate = r.p (1, 2) ? small (r, 2) : nullptr;
              l->push_back (a);
            }
        txt += "link in " + c.first->getId () + "; ";
        c.first->addLink (L, R);
      }
  if (start)
    {
      bool onlyComps = true;
      for (auto o : all) if (dynamic_cast<Cnt *> (o)) onlyComps = false;
      if (onlyComps && doc->getRoot ()->getLambda ()->transition (Event::START)) txt += "started; ";
    }
  delete doc;
  return txt;
}
TEST ("D04", d04)
{
  // what is made and released in the second and in the third round must balance (the first may fill caches)
  uint64_t seed = r.u ();
  bool start = r.p (1, 3);
  size_t b[4];
  string txt;
  alive = 0;
  for (int k = 0; k < 3; k++)
    {
      { Rng s (seed); string t = live (s, start); if (k == 0) { NOTE (" %s", t.c_str ()); if (t.size () > 20) NONTRIVIAL (); } }
      CHECK (alive == 0, "%d objects are left after the document is deleted", alive);
      b[k] = __sanitizer_get_current_allocated_bytes ();
    }
  CHECK (b[2] <= b[1] || b[1] <= b[0], "%zu bytes are left after the document is deleted", b[2] - b[1]);
  // a new document
  Document d;
  CHECK (d.getObjects ()->size () == 2 && d.getRoot () && d.getSettings (), "a new document has %zu objects", d.getObjects ()->size ());
  CHECK (d.getObjectById ("__root__") == d.getRoot () && d.getObjectById ("__settings__") == d.getSettings (), "root and settings are not found");
  CHECK (d.getSettings ()->getParent () == d.getRoot () && d.getRoot ()->getParent () == nullptr, "parents in a new document");
  CHECK (d.getRoot ()->getChildren ()->size () == 1 && d.getRoot ()->getChildren ()->count (d.getSettings ()), "children of the root of a new document");
  CHECK (d.getSettings ()->getProperty ("type") == "application/x-ginga-settings", "type of the settings object");
  CHECK (d.getSettings ()->getAttributionEvent ("service.currentFocus"), "the settings object has no event for the focus");
  CHECK (d.getContexts ()->size () == 1 && d.getMedias ()->size () == 1 && d.getSwitches ()->empty (), "collections of a new document");
}
