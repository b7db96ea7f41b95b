// The parser: X01 to X05
#include "h.h"
#include "Parser.h"

static GingaOptions
opts (int w, int h)
{
  GingaOptions o;
  o.width = w; o.height = h;
  o.debug = o.webservices = o.experimental = o.opengl = false;
  return o;
}
static Document *
parse (const string &s, string *err = nullptr, int w = 800, int h = 600)
{
  return Parser::parseBuffer (s.data (), s.size (), w, h, err);
}
// ---------------------------------------------------------------- X03
struct Length { string s; double pct; int px; };
static Length
length (Rng &r)
{
  if (r.p (1, 2)) { int k = r.n (121); return { to_string (k) + "%", (double) k, 0 }; }
  int k = r.n (900);
  return { to_string (k) + (r.p (1, 2) ? "px" : ""), -1, k };
}
static int
px (const Length &l, int total) { return l.pct >= 0 ? (int) round (l.pct / 100 * total) : l.px; }
struct Region
{
  string id;
  Rect rect;
};
static void
regions (Rng &r, int depth, const Rect &up, string &text, vector<Region> &out)
{
  for (int n = r.range (depth ? 0 : 1, 3 - depth); n > 0; n--)
    {
      Region g = { "r" + to_string (out.size ()), up };
      text += "<region id='" + g.id + "'";
      auto dim = [&] (const char *pos, const char *opp, const char *size, int &x, int &w, int W) {
        Length l;
        if (r.p (1, 2)) { l = length (r); w = px (l, W); text += string (" ") + size + "='" + l.s + "'"; }
        int k = r.n (3);
        if (k == 0) { l = length (r); x += px (l, W); text += string (" ") + pos + "='" + l.s + "'"; }
        if (k == 1) { l = length (r); x += W - w - px (l, W); text += string (" ") + opp + "='" + l.s + "'"; }
      };
      dim ("left", "right", "width", g.rect.x, g.rect.width, up.width);
      dim ("top", "bottom", "height", g.rect.y, g.rect.height, up.height);
      text += ">";
      out.push_back (g);
      if (depth < 2)
        regions (r, depth + 1, g.rect, text, out);
      text += "</region>";
    }
}
TEST ("X03", x03)
{
  int W = 100 * r.range (1, 20), H = 100 * r.range (1, 20);
  vector<Region> g;
  string s = "<ncl><head><regionBase>", b;
  regions (r, 0, { 0, 0, W, H }, s, g);
  s += "</regionBase><descriptorBase>";
  for (auto &x : g)
    {
      s += "<descriptor id='d" + x.id + "' region='" + x.id + "'/>";
      b += "<media id='m" + x.id + "' descriptor='d" + x.id + "'/>";
    }
  s += "</descriptorBase></head><body>" + b + "</body></ncl>";
  NOTE ("%dx%d %s", W, H, s.c_str ());
  string err;
  Document *doc = parse (s, &err, W, H);
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  GingaOptions o = opts (W, H);
  Formatter fmt (&o);
  int last = -1;
  for (auto &x : g)
    {
      Media *m = (Media *) doc->getObjectById ("m" + x.id);
      CHECK (m != nullptr, "no object m%s", x.id.c_str ());
      Player p (&fmt, m);
      m->_player = &p;
      for (auto it : map<string, string> (m->_properties))
        p.setProperty (it.first, it.second);
      Rect q = p._prop.rect;
      // a rectangle whose edges lie left of or above the screen, or beyond the representable percents, is not compared
      CHECK (abs (q.width - x.rect.width) <= 1, "region %s: width %d, expected %d", x.id.c_str (), q.width, x.rect.width);
      CHECK (abs (q.height - x.rect.height) <= 1, "region %s: height %d, expected %d", x.id.c_str (), q.height, x.rect.height);
      if (x.rect.x >= 0 && x.rect.x + x.rect.width <= W)
        CHECK (abs (q.x - x.rect.x) <= 2, "region %s: x %d, expected %d", x.id.c_str (), q.x, x.rect.x);
      if (x.rect.y >= 0 && x.rect.y + x.rect.height <= H)
        CHECK (abs (q.y - x.rect.y) <= 2, "region %s: y %d, expected %d", x.id.c_str (), q.y, x.rect.y);
      CHECK (p._prop.zorder > last, "region %s: z-order %d not above %d", x.id.c_str (), p._prop.zorder, last);
      last = p._prop.zorder;
      m->_player = nullptr;
    }
  if (g.size () > 1) NONTRIVIAL ();
  delete doc;
}
// ---------------------------------------------------------------- documents as trees
struct El
{
  string tag;
  vector<pair<string, string> > at;
  vector<El> kids;
  El (const string &t = "", vector<pair<string, string> > a = {}) : tag (t), at (a) {}
  string str () const
  {
    string s = "<" + tag;
    for (auto &a : at) s += " " + a.first + "='" + a.second + "'";
    if (kids.empty ()) return s + "/>";
    s += ">";
    for (auto &k : kids) s += k.str ();
    return s + "</" + tag + ">";
  }
  El &add (const El &k) { kids.push_back (k); return kids.back (); }
  El &set (const string &k, const string &v)
  {
    for (auto &a : at) if (a.first == k) { a.second = v; return *this; }
    at.push_back ({ k, v });
    return *this;
  }
  void drop (const string &k) { for (size_t i = 0; i < at.size (); i++) if (at[i].first == k) { at.erase (at.begin () + i); return; } }
  const string *get (const string &k) const { for (auto &a : at) if (a.first == k) return &a.second; return nullptr; }
  void all (vector<El *> &o) { o.push_back (this); for (auto &k : kids) k.all (o); }
};
struct Attr { string name; bool req, nonempty, name_, id; };
struct Syntax { set<string> parents; vector<Attr> attrs; };
// what the NCL profile asks of each element: parents, then the attributes that are (r)equired, non-(e)mpty, a valid (n)ame, an (u)nique id
static const char *const SYNTAX[] = {
  "ncl : id/enu", "head < ncl :", "regionBase < head : id/enu", "region < region regionBase : id/renu left",
  "descriptorBase < head : id/enu", "descriptor < descriptorBase : id/renu explicitDur", "descriptorParam < descriptor : name/ren value/r",
  "connectorBase < head : id/enu", "causalConnector < connectorBase : id/renu", "connectorParam < causalConnector : name/en type",
  "compoundCondition < causalConnector compoundCondition : operator delay",
  "simpleCondition < causalConnector compoundCondition : role/ren eventType transition",
  "compoundAction < causalConnector compoundAction : operator delay",
  "simpleAction < causalConnector compoundAction : role/ren eventType actionType duration value delay",
  "compoundStatement < compoundCondition compoundStatement : operator/r isNegated",
  "assessmentStatement < compoundCondition compoundStatement : comparator/r",
  "attributeAssessment < assessmentStatement : role/ren eventType", "valueAssessment < assessmentStatement : value/r",
  "ruleBase < head : id/enu", "compositeRule < ruleBase compositeRule : id/renu operator/r",
  "rule < ruleBase compositeRule : id/renu var/ren comparator/r value/r", "transitionBase < head : id/enu",
  "transition < transitionBase : id/renu type/ren subtype/en dur",
  "importBase < connectorBase descriptorBase regionBase ruleBase transitionBase fontBase : alias/ren documentURI/r",
  "body < ncl : id/enu", "context < body context switch : id/renu",
  "port < body context : id/renu component/ren interface/en", "switch < body context switch : id/renu", "switchPort < switch : id/renu",
  "mapping < switchPort : component/ren interface/en", "bindRule < switch : constituent/ren rule/ren", "defaultComponent < switch : component/ren",
  "media < body context switch : id/renu src type descriptor/en", "area < media : id/renu begin end label",
  "property < body context media : name/en value", "link < body context : id/enu xconnector/ren", "linkParam < link : name/ren value/r",
  "bind < link : role/ren component/ren interface/en", "bindParam < bind : name/ren value/r",
};
static map<string, Syntax> &
syntax ()
{
  static map<string, Syntax> m;
  if (m.empty ())
    for (auto l : SYNTAX)
      {
        string s = l, w, tag;
        int part = 0;
        for (size_t i = 0; i <= s.size (); i++)
          {
            if (i < s.size () && s[i] != ' ') { w += s[i]; continue; }
            if (w == "<") part = 1;
            else if (w == ":") part = 2;
            else if (w == "") ;
            else if (part == 0) { tag = w; m[tag]; }
            else if (part == 1) m[tag].parents.insert (w);
            else
              {
                auto p = w.find ('/');
                string f = p == string::npos ? "" : w.substr (p + 1);
                auto has = [&] (char c) { return f.find (c) != string::npos; };
                m[tag].attrs.push_back ({ w.substr (0, p), has ('r'), has ('e'), has ('n'), has ('u') });
              }
            w = "";
          }
      }
  return m;
}
// a document that the parser is to accept (references resolve within their scope, unless chaos)
struct Gen
{
  Rng &r;
  int n = 0;
  bool chaos;
  vector<string> descs, regs, rules, conns, all;
  map<string, vector<string> > roles; // connector -> roles
  Gen (Rng &r, bool chaos = false) : r (r), chaos (chaos) {}
  string id () { all.push_back ("i" + to_string (n++)); return all.back (); }
  string pick (const vector<string> &v)
  {
    if (chaos && all.size () && r.p (1, 4)) return r.of (all);
    if (chaos && r.p (1, 12)) return "nowhere";
    return v.empty () ? "nowhere" : r.of (v);
  }
  El region (int d)
  {
    El e ("region", { { "id", id () } });
    regs.push_back (*e.get ("id"));
    if (r.p (1, 2)) e.set ("left", to_string (r.n (100)) + "%");
    for (int k = d < 2 ? r.n (3) : 0; k > 0; k--) e.add (region (d + 1));
    return e;
  }
  El rule (int d)
  {
    if (d < 2 && r.p (1, 3))
      {
        El e ("compositeRule", { { "id", id () }, { "operator", r.of ({ "and", "or" }) } });
        for (int k = 2; k > 0; k--) e.add (rule (d + 1));
        if (!d) rules.push_back (*e.get ("id"));
        return e;
      }
    El e ("rule", { { "id", id () }, { "var", "v" }, { "comparator", r.of ({ "eq", "ne", "lt", "gte" }) }, { "value", to_string (r.n (9)) } });
    if (!d) rules.push_back (*e.get ("id"));
    return e;
  }
  El statement (int d, vector<string> &roles)
  {
    if (d < 2 && r.p (1, 3))
      {
        El e ("compoundStatement", { { "operator", r.of ({ "and", "or" }) } });
        if (r.p (1, 2)) e.set ("isNegated", r.of ({ "true", "false" }));
        for (int k = 2; k > 0; k--) e.add (statement (d + 1, roles));
        return e;
      }
    El e ("assessmentStatement", { { "comparator", r.of ({ "eq", "ne", "lt", "gte" }) } });
    string role = "t" + to_string (n++);
    roles.push_back (role);
    e.add (El ("attributeAssessment", { { "role", role }, { "eventType", "attribution" } }));
    e.add (El ("valueAssessment", { { "value", to_string (r.n (9)) } }));
    return e;
  }
  El connector ()
  {
    El e ("causalConnector", { { "id", id () } });
    string cid = *e.get ("id");
    vector<string> rl;
    if (r.p (1, 3)) e.add (El ("connectorParam", { { "name", "p" } }));
    El cond ("simpleCondition", { { "role", r.of ({ "onBegin", "onEnd", "onAbort", "onPause" }) } });
    rl.push_back (*cond.get ("role"));
    if (r.p (1, 2))
      {
        El c ("compoundCondition", { { "operator", "and" } });
        c.add (cond);
        if (r.p (1, 2)) c.add (statement (0, rl));
        e.add (c);
      }
    else
      e.add (cond);
    vector<string> acts = { "start", "stop", "pause", "resume", "abort" };
    El act ("simpleAction", { { "role", r.of (acts) } });
    rl.push_back (*act.get ("role"));
    if (r.p (1, 2)) act.set ("delay", "1s");
    if (r.p (1, 2))
      {
        El c ("compoundAction", { { "operator", "seq" } });
        c.add (act);
        e.add (c);
      }
    else
      e.add (act);
    conns.push_back (cid);
    roles[cid] = rl;
    return e;
  }
  void inside (El &ctx, int d, const string &self)
  {
    vector<pair<string, string> > objs; // object, property of it
    for (int k = r.range (1, 3); k > 0; k--)
      {
        string i = id ();
        int what = d < 2 ? r.n (6) : 0;
        if (what < 4)
          {
            El m ("media", { { "id", i } });
            if (chaos && r.p (1, 5)) m.set ("refer", pick (all));
            if (chaos && r.p (1, 8)) m.set ("type", "application/x-ginga-settings");
            if (!descs.empty () && r.p (1, 2)) m.set ("descriptor", pick (descs));
            m.add (El ("property", { { "name", "q" }, { "value", "1" } }));
            if (r.p (1, 2)) m.add (El ("area", { { "id", id () }, { "begin", "1s" } }));
            ctx.add (m);
            objs.push_back ({ i, "q" });
          }
        else if (what == 4)
          {
            El c ("context", { { "id", i } });
            c.add (El ("property", { { "name", "q" }, { "value", "1" } }));
            inside (c, d + 1, i);
            ctx.add (c);
            objs.push_back ({ i, "q" });
          }
        else
          {
            El s ("switch", { { "id", i } });
            vector<string> in;
            for (int j = 2; j > 0; j--)
              {
                in.push_back (id ());
                s.add (El ("media", { { "id", in.back () } }));
              }
            if (!rules.empty ()) s.add (El ("bindRule", { { "constituent", pick (in) }, { "rule", pick (rules) } }));
            if (r.p (1, 2)) s.add (El ("defaultComponent", { { "component", pick (in) } }));
            if (r.p (1, 2))
              s.add (El ("switchPort", { { "id", id () } })).add (El ("mapping", { { "component", pick (in) } }));
            ctx.add (s);
          }
      }
    vector<string> o;
    for (auto &x : objs) o.push_back (x.first);
    if (o.empty ()) return;
    for (int k = r.n (3); k > 0; k--)
      {
        El p ("port", { { "id", id () }, { "component", pick (o) } });
        if (chaos && r.p (1, 2)) p.set ("interface", pick (all));
        ctx.add (p);
      }
    for (int k = conns.empty () ? 0 : r.n (3); k > 0; k--)
      {
        El l ("link", { { "xconnector", pick (conns) } });
        if (r.p (1, 2)) l.set ("id", id ());
        if (r.p (1, 3)) l.add (El ("linkParam", { { "name", "p" }, { "value", "3" } }));
        auto it = roles.find (*l.get ("xconnector"));
        if (it != roles.end ())
          for (auto &role : it->second)
            {
              auto &x = r.of (objs);
              El b ("bind", { { "role", role }, { "component", pick ({ x.first }) } });
              if (role[0] == 't' && isdigit (role[1])) b.set ("interface", pick ({ x.second }));
              else if (chaos && r.p (1, 4)) b.set ("interface", pick (all));
              if (r.p (1, 4)) b.add (El ("bindParam", { { "name", "p" }, { "value", "2" } }));
              if (!(chaos && r.p (1, 20))) l.add (b);
            }
        ctx.add (l);
      }
  }
  El doc ()
  {
    El e ("ncl");
    if (r.p (1, 2)) e.set ("id", id ());
    if (r.p (3, 4))
      {
        El h ("head");
        if (r.p (1, 2))
          {
            El b ("regionBase");
            for (int k = r.n (3); k > 0; k--) b.add (region (0));
            h.add (b);
          }
        if (r.p (1, 2))
          {
            El b ("descriptorBase", { { "id", id () } });
            for (int k = r.n (3); k > 0; k--)
              {
                El x ("descriptor", { { "id", id () } });
                if (r.p (1, 2)) x.set ("explicitDur", "5s");
                if (!regs.empty () && r.p (1, 2)) x.set ("region", pick (regs));
                if (r.p (1, 3)) x.add (El ("descriptorParam", { { "name", "w" }, { "value", "1" } }));
                descs.push_back (*x.get ("id"));
                b.add (x);
              }
            h.add (b);
          }
        if (r.p (1, 3)) h.add (El ("transitionBase")).add (El ("transition", { { "id", id () }, { "type", "fade" } }));
        if (r.p (1, 2))
          {
            El b ("ruleBase", { { "id", id () } });
            for (int k = r.n (3); k > 0; k--) b.add (rule (0));
            h.add (b);
          }
        if (r.p (2, 3))
          {
            El b ("connectorBase", { { "id", id () } });
            for (int k = r.n (3); k > 0; k--) b.add (connector ());
            h.add (b);
          }
        e.add (h);
      }
    El b ("body");
    if (r.p (1, 2)) b.set ("id", id ());
    inside (b, 0, "");
    e.add (b);
    return e;
  }
};
static void
ids_unique (Document *doc)
{
  map<string, Object *> seen;
  for (auto o : *doc->getObjects ())
    {
      CHECK (!seen.count (o->getId ()), "two objects have the id %s", o->getId ().c_str ());
      seen[o->getId ()] = o;
    }
}
// ---------------------------------------------------------------- X01
TEST ("X01", x01)
{
  Gen g (r);
  El e = g.doc ();
  auto &syn = syntax ();
  vector<El *> v;
  e.all (v);
  for (auto x : v) random_shuffle (x->at.begin (), x->at.end (), [&] (int k) { return r.n (k); });
  int mut = r.n (9);
  string what = "none";
  auto sat = [&] (El x) {
    for (auto &a : syn[x.tag].attrs)
      if (a.req && !x.get (a.name)) x.set (a.name, a.id ? g.id () : a.name == "comparator" ? "eq" : a.name == "operator" ? "and" : "y");
    return x;
  };
  auto choose = [&] (function<bool (El *)> ok) -> El * {
    vector<El *> c;
    for (auto x : v) if (ok (x)) c.push_back (x);
    return c.empty () ? nullptr : r.of (c);
  };
  auto attr = [&] (El *x, function<bool (const Attr &)> ok) -> string {
    vector<string> c;
    for (auto &a : syn[x->tag].attrs) if (ok (a)) c.push_back (a.name);
    return c.empty () ? "" : r.of (c);
  };
  El *x;
  string a;
  switch (mut)
    {
    case 1:
      x = r.of (v);
      what = "unknown element for <" + x->tag + ">";
      if (r.p (1, 2)) x->tag += "x"; else { what = "unknown element in <" + x->tag + ">"; x->add (El (r.of ({ "foo", "regions", "Media", "" "ar" }))); }
      break;
    case 2:
      {
        x = r.of (v);
        vector<string> c;
        for (auto &s : syn) if (!s.second.parents.count (x->tag)) c.push_back (s.first);
        El k = sat (El (r.of (c)));
        what = "<" + k.tag + "> in <" + x->tag + ">";
        x->kids.insert (x->kids.begin () + r.n (x->kids.size () + 1), k);
        break;
      }
    case 3:
      x = choose ([&] (El *x) { return x->tag != "link" && attr (x, [] (const Attr &a) { return a.req; }) != ""; });
      if (!x) break;
      a = attr (x, [] (const Attr &a) { return a.req; });
      what = "<" + x->tag + "> without " + a;
      x->drop (a);
      break;
    case 4:
      x = choose ([&] (El *x) { return attr (x, [] (const Attr &a) { return a.nonempty; }) != ""; });
      if (!x) break;
      a = attr (x, [] (const Attr &a) { return a.nonempty; });
      what = "<" + x->tag + "> with empty " + a;
      x->set (a, "");
      break;
    case 5:
      x = choose ([&] (El *x) { return attr (x, [] (const Attr &a) { return a.name_; }) != ""; });
      if (!x) break;
      a = attr (x, [] (const Attr &a) { return a.name_; });
      {
        string bad = r.of ({ " ", "$", "@", "/", "+", "(", "~", "\xc3\xa9", "*", "," });
        string s = x->get (a) ? *x->get (a) : "y";
        s.insert (r.n (s.size () + 1), bad);
        // (the parser of XML normalises nothing in attributes without a DTD)
        what = "<" + x->tag + "> with " + a + "=" + s;
        x->set (a, s);
      }
      break;
    case 6:
      {
        vector<El *> c;
        for (auto y : v)
          if (y->get ("id")) c.push_back (y);
        if (c.size () < 2) break;
        x = c[r.range (1, c.size () - 1)];
        El *y = r.of (c);
        if (x == y) break;
        what = "id " + *y->get ("id") + " twice";
        x->set ("id", *y->get ("id"));
        break;
      }
    case 7:
      x = r.of (v);
      a = r.of ({ "foo", "ID", "Id", "xyz", "ids" });
      what = "<" + x->tag + "> with unknown attribute " + a;
      x->set (a, r.of ({ "", "1" }));
      break;
    case 8:
      {
        // a whole document rooted elsewhere
        if (e.kids.empty ()) break;
        El k = r.of (e.kids);
        e = k;
        what = "root <" + e.tag + ">";
        break;
      }
    }
  string s = e.str ();
  NOTE ("(%s) %s", what.c_str (), s.c_str ());
  string err;
  Document *doc = parse (s, &err);
  if (what == "none")
    {
      CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
      ids_unique (doc);
      delete doc;
    }
  else
    {
      NONTRIVIAL ();
      CHECK (doc == nullptr, "the document was accepted (%s)", what.c_str ());
      CHECK (err != "", "no message was given (%s)", what.c_str ());
      CHECK (parse (s) == nullptr, "the document was accepted when no message is asked for (%s)", what.c_str ());
    }
}
static void
save (const string &path, const string &s)
{
  FILE *f = fopen (path.c_str (), "w");
  if (!f) H::fail ("cannot write %s", path.c_str ());
  fwrite (s.data (), 1, s.size (), f);
  fclose (f);
}
TEST ("X01", x01import)
{
  // ids of an imported document are qualified by its alias
  El k ("ncl"), m ("ncl");
  string cid = r.of ({ "k", "a", "i" });
  El conn ("causalConnector", { { "id", cid } });
  conn.add (El ("simpleCondition", { { "role", "onBegin" } }));
  conn.add (El ("simpleAction", { { "role", "start" } }));
  k.add (El ("head")).add (El ("connectorBase")).add (conn);
  if (r.p (1, 2)) k.set ("id", r.of ({ "z", "m" }));
  int imports = r.range (1, 3);
  bool own = r.p (1, 2), same = imports > 1 && r.p (1, 3);
  El &h = m.add (El ("head"));
  El cb ("connectorBase");
  vector<string> al;
  for (int j = 0; j < imports; j++)
    {
      al.push_back (same ? "b" : "b" + to_string (j));
      cb.add (El ("importBase", { { "alias", al.back () }, { "documentURI", "imported.ncl" } }));
    }
  if (own) cb.add (conn);
  h.add (cb);
  El &b = m.add (El ("body", { { "id", "m" } }));
  b.add (El ("media", { { "id", "x" } }));
  int ref = r.n (3);
  string to = ref == 0 ? cid : ref == 1 ? r.of (al) + "#" + cid : r.of (al) + cid;
  El l ("link", { { "xconnector", to } });
  l.add (El ("bind", { { "role", "onBegin" }, { "component", "x" } }));
  l.add (El ("bind", { { "role", "start" }, { "component", "x" } }));
  b.add (l);
  NOTE ("imported.ncl: %s main.ncl: %s", k.str ().c_str (), m.str ().c_str ());
  save ("imported.ncl", k.str ());
  save ("main.ncl", m.str ());
  string err;
  Document *doc = Parser::parseFile ("main.ncl", 800, 600, &err);
  bool ok = !same && (ref == 0 ? own : ref == 1);
  CHECK ((doc != nullptr) == ok, "the document was %s (%s)", doc ? "accepted" : "refused", err.c_str ());
  if (doc) CHECK (doc->getRoot ()->getLinks ()->size () == 1, "the link to %s was not made", to.c_str ());
  if (!doc) CHECK (err != "", "no message was given");
  NONTRIVIAL ();
  delete doc;
}
// ---------------------------------------------------------------- X05
TEST ("X05", x05)
{
  Gen g (r, true);
  string s = g.doc ().str (), err = "";
  int how = r.n (6);
  if (how == 0) s.resize (r.n (s.size () + 1));
  if (how == 1)
    for (int k = r.range (1, 4); k > 0; k--) s[r.n (s.size ())] = " <>/'&;x\x80"[r.n (9)];
  NOTE ("%s", q (s).c_str ());
  bool file = r.p (1, 3);
  if (file) save ("x05.ncl", s);
  auto go = [&] (string *e) { return file ? Parser::parseFile ("x05.ncl", 800, 600, e) : parse (s, e); };
  Document *doc = go (&err);
  if (doc)
    {
      ids_unique (doc);
      for (auto o : *doc->getObjects ())
        if (instanceof (Context *, o))
          {
            for (auto e : *cast (Context *, o)->getPorts ())
              CHECK (doc->getObjectById (e->getObject ()->getId ()) == e->getObject (), "a port of %s leads to an object that is not in the document",
                     o->getId ().c_str ());
            for (auto &l : *cast (Context *, o)->getLinks ())
              for (auto *side : { &l.first, &l.second })
                for (auto &a : *side)
                  CHECK (a.event && doc->getObjectById (a.event->getObject ()->getId ()) == a.event->getObject (),
                         "a link of %s leads to an object that is not in the document", o->getId ().c_str ());
          }
      delete doc;
      doc = go (nullptr);
      CHECK (doc != nullptr, "whether a document is made depends on whether a message is asked for");
      delete doc;
    }
  else
    {
      NONTRIVIAL ();
      CHECK (err != "", "no message was given");
      CHECK (go (nullptr) == nullptr, "a document is made when no message is asked for");
    }
}
TEST ("X05", x05none)
{
  string err = "";
  string path = r.of ({ "nowhere.ncl", "./nowhere/x.ncl", "/nowhere/x.ncl" });
  NOTE ("%s", path.c_str ());
  CHECK (Parser::parseFile (path, 800, 600, &err) == nullptr, "a document was made of a file that does not exist");
  CHECK (err != "", "no message was given");
  err = "";
  CHECK (Parser::parseBuffer ("", 0, 800, 600, &err) == nullptr, "a document was made of nothing");
  CHECK (err != "", "no message was given");
}
// ---------------------------------------------------------------- X02
TEST ("X02", x02)
{
  // values of roles and of parameters; a leading $ makes a reference
  vector<string> names = { "p", "q", "g", "h", "start" };
  auto val = [&] (bool role) -> string {
    if (r.p (1, 8)) return role ? "" : r.of ({ "$", "$$p", "" });
    if (r.p (1, 3)) return r.of ({ "7", "p", "x$p", " $p", "3s" });
    return "$" + r.of (names);
  };
  auto params = [&] () {
    map<string, string> m;
    for (int k = r.n (3); k > 0; k--) m[r.of (names)] = val (false);
    return m;
  };
  auto give = [&] (El &e, const char *tag, const map<string, string> &m) {
    for (auto &x : m) e.add (El (tag, { { "name", x.first }, { "value", x.second } }));
  };
  string value = val (true), dur = r.p (1, 2) ? val (true) : "-", delay = r.p (1, 2) ? val (true) : "-";
  string dur2 = r.p (1, 3) ? val (true) : "-";
  map<string, string> link = params (), bset = params (), bstart = params (), ghosts;
  vector<string> gr;
  for (string x : { "g", "h" }) if (r.p (1, 2)) gr.push_back (x);
  El e ("ncl");
  El conn ("causalConnector", { { "id", "k" } });
  conn.add (El ("simpleCondition", { { "role", "onBegin" } }));
  El set ("simpleAction", { { "role", "set" }, { "value", value } }), start ("simpleAction", { { "role", "start" } });
  if (dur != "-") set.set ("duration", dur);
  if (delay != "-") set.set ("delay", delay);
  if (dur2 != "-") start.set ("duration", dur2);
  conn.add (set);
  conn.add (start);
  e.add (El ("head")).add (El ("connectorBase")).add (conn);
  El &b = e.add (El ("body"));
  for (string m : { "a", "b" })
    {
      El &x = b.add (El ("media", { { "id", m } }));
      x.add (El ("property", { { "name", "u" } }));
      x.add (El ("property", { { "name", "v" } }));
    }
  El l ("link", { { "xconnector", "k" } });
  vector<El> binds;
  binds.push_back (El ("bind", { { "role", "onBegin" }, { "component", "a" } }));
  El s ("bind", { { "role", "set" }, { "component", "b" }, { "interface", "u" } });
  give (s, "bindParam", bset);
  binds.push_back (s);
  El t ("bind", { { "role", "start" }, { "component", "b" } });
  give (t, "bindParam", bstart);
  binds.push_back (t);
  for (auto &x : gr)
    {
      string m = r.of ({ "a", "b" }), p = r.of ({ "u", "v" });
      binds.push_back (El ("bind", { { "role", x }, { "component", m }, { "interface", p } }));
      ghosts[x] = "$" + m + "." + p;
    }
  random_shuffle (binds.begin (), binds.end (), [&] (int k) { return r.n (k); });
  give (l, "linkParam", link);
  for (auto &x : binds) l.add (x);
  b.add (l);
  NOTE ("%s", e.str ().c_str ());
  auto want = [&] (const string &ref, const map<string, string> &bind) -> string {
    if (ref == "-") return "";
    if (ref == "" || ref[0] != '$') return ref;
    auto p = bind.find (ref.substr (1));
    if (p == bind.end ())
      {
        p = link.find (ref.substr (1));
        if (p == link.end ()) return "";
      }
    if (p->second == "" || p->second[0] != '$') return p->second;
    auto g = ghosts.find (p->second.substr (1));
    return g == ghosts.end () ? p->second : g->second;
  };
  string err;
  Document *doc = parse (e.str (), &err);
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  auto links = doc->getRoot ()->getLinks ();
  CHECK (links->size () == 1, "%d links", (int) links->size ());
  auto acts = links->front ().second;
  CHECK (acts.size () == 2, "%d actions", (int) acts.size ());
  for (auto &a : acts)
    {
      bool isset = a.event->getType () == Event::ATTRIBUTION;
      auto &bind = isset ? bset : bstart;
      if (isset)
        CHECK (a.value == want (value, bind), "set: value %s, expected %s", q (a.value).c_str (), q (want (value, bind)).c_str ());
      string d = want (isset ? dur : dur2, bind), w = isset ? want (delay, bind) : "";
      CHECK (a.duration == d, "%s: duration %s, expected %s", isset ? "set" : "start", q (a.duration).c_str (), q (d).c_str ());
      CHECK (a.delay == w, "%s: delay %s, expected %s", isset ? "set" : "start", q (a.delay).c_str (), q (w).c_str ());
    }
  if (value != "" && value[0] == '$') NONTRIVIAL ();
  delete doc;
}
// ---------------------------------------------------------------- X04
struct Ctx;
struct Thing
{
  string id;
  int kind; // 0: media, 1: context, 2: switch, 3: reference to a media
  set<string> areas, props, swports;
  map<string, pair<string, string> > ports; // context: port -> component, interface
  vector<Thing *> in;
  map<string, vector<string> > swmap; // switch port -> what it maps to
  Thing *up = nullptr;
};
static Thing *
grow (Rng &r, int d, int &n, El &e, vector<Thing *> &all, vector<string> &names)
{
  Thing *t = new Thing ();
  all.push_back (t);
  t->kind = d == 0 ? 1 : d < 3 ? (r.p (1, 2) ? 0 : r.p (3, 4) ? 1 : 2) : 0;
  t->id = d == 0 ? "body" : "o" + to_string (n++);
  static const char *const TAGS[] = { "media", "context", "switch" };
  e = El (d == 0 ? "body" : TAGS[t->kind], { { "id", t->id } });
  if (t->kind < 2)
    for (int k = r.n (3); k > 0; k--)
      {
        string p = r.of (names);
        if (t->props.insert (p).second) e.add (El ("property", { { "name", p } }));
      }
  if (t->kind == 0)
    for (int k = r.n (3); k > 0; k--)
      {
        string a = r.p (1, 3) ? "a" + to_string (n++) : r.of (names);
        bool used = a[0] != 'a';
        for (auto x : all) if (x->areas.count (a) || x->ports.count (a) || x->swports.count (a)) used = true;
        if (used && a[0] == 'a') continue;
        if (used) for (auto x : all) if (x->areas.count (a) || x->ports.count (a) || x->swports.count (a)) { a = ""; break; }
        if (a == "") continue;
        t->areas.insert (a);
        e.add (El ("area", { { "id", a } }));
      }
  else
    for (int k = r.range (1, 3); k > 0; k--)
      {
        El s;
        Thing *c = grow (r, t->kind == 2 ? 3 : d + 1, n, s, all, names);
        c->up = t;
        t->in.push_back (c);
        e.add (s);
      }
  return t;
}
// what a component and an interface designate within a context; "" when nothing
static string
designates (Thing *ctx, const string &comp, const string &iface, bool given)
{
  Thing *o = nullptr;
  if (comp == ctx->id) o = ctx;
  for (auto x : ctx->in) if (x->id == comp) o = x;
  if (!o) return "";
  string id = o->id == "body" ? "__root__" : o->id;
  if (!given) return id + "@lambda";
  if (o->kind == 0) return o->areas.count (iface) ? id + "@" + iface : o->props.count (iface) ? id + "." + iface : "";
  if (o->kind == 2) return o->swports.count (iface) ? id + "@" + iface : "";
  if (o != ctx && o->ports.count (iface))
    {
      auto p = o->ports[iface];
      return designates (o, p.first, p.second, p.second != "");
    }
  return o->props.count (iface) ? id + "." + iface : "";
}
TEST ("X04", x04)
{
  int n = 0;
  vector<string> names = { "x", "y", "z", "w" };
  vector<Thing *> all;
  El body;
  grow (r, 0, n, body, all, names);
  vector<El *> els;
  body.all (els);
  auto el = [&] (Thing *t) -> El * { els.clear (); body.all (els); for (auto e : els) if (e->get ("id") && *e->get ("id") == t->id) return e; return nullptr; };
  auto free_ = [&] (const string &a) {
    for (auto x : all) if (x->areas.count (a) || x->ports.count (a) || x->swports.count (a)) return false;
    return true;
  };
  auto iface = [&] (Thing *ctx, string &comp) -> string {
    vector<Thing *> c = ctx->in;
    if (r.p (1, 8)) c.push_back (ctx);
    Thing *o = r.p (1, 12) ? r.of (all) : r.of (c);
    comp = o->id;
    vector<string> s;
    for (auto &x : o->areas) s.push_back (x);
    for (auto &x : o->props) s.push_back (x);
    for (auto &x : o->swports) s.push_back (x);
    for (auto &x : o->ports) s.push_back (x.first);
    if (r.p (1, 12)) s.push_back (r.of (names));
    return s.empty () || r.p (1, 5) ? "" : r.of (s);
  };
  // ports and switch ports, the innermost first
  vector<string> bad;
  map<string, vector<string> > want; // composition -> what its ports designate
  for (size_t k = all.size (); k > 0; k--)
    {
      Thing *t = all[k - 1];
      if (t->kind == 2)
        for (int j = r.n (2); j > 0; j--)
          {
            string a = r.p (1, 2) ? r.of (names) : "s" + to_string (n++);
            if (!free_ (a)) continue;
            El sp ("switchPort", { { "id", a } });
            for (int m = r.range (1, 2); m > 0; m--)
              {
                string comp, i = iface (t, comp);
                El mp ("mapping", { { "component", comp } });
                if (i != "") mp.set ("interface", i);
                sp.add (mp);
                string w = designates (t, comp, i, i != "");
                if (w == "") bad.push_back (comp + "/" + i);
                t->swmap[a].push_back (w);
              }
            t->swports.insert (a);
            el (t)->add (sp);
          }
      if (t->kind == 1)
        for (int j = r.n (3); j > 0; j--)
          {
            string a = r.p (1, 2) ? r.of (names) : "p" + to_string (n++);
            if (!free_ (a)) continue;
            string comp, i = iface (t, comp);
            El p ("port", { { "id", a }, { "component", comp } });
            if (i != "") p.set ("interface", i);
            string w = designates (t, comp, i, i != "");
            if (w == "") bad.push_back (comp + "/" + i);
            want[t->id].push_back (w);
            t->ports[a] = { comp, i };
            el (t)->add (p);
          }
    }
  El e ("ncl");
  e.add (body);
  NOTE ("%s", e.str ().c_str ());
  string err;
  Document *doc = parse (e.str (), &err);
  if (!bad.empty ())
    {
      CHECK (doc == nullptr, "the document was accepted, though %s designates nothing", bad[0].c_str ());
      CHECK (err != "", "no message was given");
    }
  else
    {
      CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
      for (auto t : all)
        if (t->kind == 1)
          {
            Object *o = t->id == "body" ? doc->getRoot () : doc->getObjectById (t->id);
            CHECK (o && instanceof (Context *, o), "no context %s", t->id.c_str ());
            multiset<string> have, w;
            for (auto ev : *cast (Context *, o)->getPorts ()) have.insert (ev->getFullId ());
            for (auto &x : want[t->id]) w.insert (x);
            string h, x;
            for (auto &s : have) h += " " + s;
            for (auto &s : w) x += " " + s;
            // (a context keeps the ports it was given as a set)
            CHECK (set<string> (have.begin (), have.end ()) == set<string> (w.begin (), w.end ()), "ports of %s:%s, expected%s", t->id.c_str (), h.c_str (),
                   x.c_str ());
            if (!w.empty ()) NONTRIVIAL ();
          }
        else if (t->kind == 2)
          {
            Object *o = doc->getObjectById (t->id);
            CHECK (o && instanceof (Switch *, o), "no switch %s", t->id.c_str ());
            auto sp = cast (Switch *, o)->getSwitchPorts ();
            CHECK (sp->size () == t->swmap.size (), "%d ports of %s, expected %d", (int) sp->size (), t->id.c_str (), (int) t->swmap.size ());
            for (auto &x : t->swmap)
              {
                auto it = sp->find (x.first);
                CHECK (it != sp->end (), "no port %s of %s", x.first.c_str (), t->id.c_str ());
                vector<string> have;
                for (auto ev : it->second) have.push_back (ev->getFullId ());
                CHECK (have == x.second, "port %s of %s maps to %d events or others than expected", x.first.c_str (), t->id.c_str (), (int) have.size ());
              }
          }
      delete doc;
    }
  for (auto t : all) delete t;
}
TEST ("X04", x04refer)
{
  // references to a media object or to the settings stand for the object, whatever the order
  bool settings = r.p (1, 2);
  El e ("ncl");
  El conn ("causalConnector", { { "id", "k" } });
  conn.add (El ("simpleCondition", { { "role", "onBegin" } }));
  conn.add (El ("simpleAction", { { "role", "set" }, { "value", "1" } }));
  e.add (El ("head")).add (El ("connectorBase")).add (conn);
  El &b = e.add (El ("body"));
  vector<El> ms;
  El o ("media", { { "id", "o" } });
  if (settings) o.set ("type", r.of ({ "application/x-ginga-settings", "application/x-ncl-settings" }));
  o.add (El ("property", { { "name", "u" } }));
  ms.push_back (o);
  int refs = r.range (1, 3);
  for (int k = 0; k < refs; k++) ms.push_back (El ("media", { { "id", "r" + to_string (k) }, { "refer", "o" } }));
  ms.push_back (El ("media", { { "id", "a" } }));
  random_shuffle (ms.begin (), ms.end (), [&] (int k) { return r.n (k); });
  for (auto &m : ms) b.add (m);
  string on = r.n (2) ? "o" : "r" + to_string (r.n (refs)), to = "r" + to_string (r.n (refs));
  El l ("link", { { "xconnector", "k" } });
  l.add (El ("bind", { { "role", "onBegin" }, { "component", on } }));
  l.add (El ("bind", { { "role", "set" }, { "component", to }, { "interface", "u" } }));
  b.add (l);
  NOTE ("%s", e.str ().c_str ());
  NONTRIVIAL ();
  string err;
  Document *doc = parse (e.str (), &err);
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  string id = settings ? "__settings__" : "o";
  CHECK (doc->getRoot ()->getLinks ()->size () == 1, "the link was not made");
  auto ln = doc->getRoot ()->getLinks ()->front ();
  CHECK (ln.first.front ().event == doc->getObjectById (id)->getLambda (), "the condition designates %s", ln.first.front ().event->getFullId ().c_str ());
  CHECK (ln.second.front ().event == doc->getObjectById (id)->getAttributionEvent ("u"), "the action designates %s",
         ln.second.front ().event->getFullId ().c_str ());
  delete doc;
}
// ---------------------------------------------------------------- X07
struct Reserved { const char *role; int type, trans; };
static const Reserved RESERVED[] = {
  { "onBegin", Event::PRESENTATION, Event::START }, { "onEnd", Event::PRESENTATION, Event::STOP },
  { "onAbort", Event::PRESENTATION, Event::ABORT }, { "onPause", Event::PRESENTATION, Event::PAUSE },
  { "onResume", Event::PRESENTATION, Event::RESUME }, { "onBeginAttribution", Event::ATTRIBUTION, Event::START },
  { "onEndAttribution", Event::ATTRIBUTION, Event::STOP }, { "onSelection", Event::SELECTION, Event::START },
  { "onLookAt", Event::LOOKAT, Event::START }, { "onLookAway", Event::LOOKAT, Event::STOP },
  { "onBeginSelection", Event::SELECTION, Event::START }, { "onEndSelection", Event::SELECTION, Event::STOP },
  { "start", Event::PRESENTATION, Event::START }, { "stop", Event::PRESENTATION, Event::STOP },
  { "abort", Event::PRESENTATION, Event::ABORT }, { "pause", Event::PRESENTATION, Event::PAUSE },
  { "resume", Event::PRESENTATION, Event::RESUME }, { "set", Event::ATTRIBUTION, Event::START },
};
static const pair<const char *, int> TRANS[] = {
  { "start", Event::START }, { "starts", Event::START }, { "stop", Event::STOP }, { "stops", Event::STOP }, { "pause", Event::PAUSE },
  { "pauses", Event::PAUSE }, { "resume", Event::RESUME }, { "resumes", Event::RESUME }, { "abort", Event::ABORT }, { "aborts", Event::ABORT },
};
static const pair<const char *, int> TYPES[] = {
  { "presentation", Event::PRESENTATION }, { "attribution", Event::ATTRIBUTION }, { "selection", Event::SELECTION }, { "lookat", Event::LOOKAT },
};
struct Role { string role; bool cond; int type, trans; string key, value, duration, delay; };
struct Want { string role, obj; int type, trans; string id, value, duration, delay; };
TEST ("X07", x07)
{
  El e ("ncl"), conn ("causalConnector", { { "id", "k" } });
  vector<Role> roles;
  vector<string> bad;
  int n = 0;
  set<string> used;
  auto role = [&] (bool cond) -> El {
    El x (cond ? "simpleCondition" : "simpleAction");
    const char *tr = cond ? "transition" : "actionType";
    Role g = { "", cond, 0, 0 };
    bool flaw = r.p (1, 25);
    if (r.p (1, 2))
      {
        const Reserved *z;
        do z = &RESERVED[r.n (G_N_ELEMENTS (RESERVED))]; while ((string (z->role).substr (0, 2) == "on") != cond || used.count (z->role));
        if (flaw && r.p (1, 3))
          { // on the wrong side
            do z = &RESERVED[r.n (G_N_ELEMENTS (RESERVED))]; while ((string (z->role).substr (0, 2) == "on") == cond);
            bad.push_back (string ("role ") + z->role + " on the wrong side");
            flaw = false;
          }
        g.role = z->role; g.type = z->type; g.trans = z->trans;
        if (r.p (1, 3) || flaw)
          {
            auto &t = TYPES[r.n (4)];
            if (t.second == g.type) x.set ("eventType", t.first);
            else if (flaw) { x.set ("eventType", r.p (1, 5) ? "odd" : t.first); bad.push_back ("event type of " + g.role); flaw = false; }
          }
        if (r.p (1, 3) || flaw)
          {
            auto &t = TRANS[r.n (G_N_ELEMENTS (TRANS))];
            if (t.second == g.trans) x.set (tr, t.first);
            else if (flaw) { x.set (tr, r.p (1, 5) ? "odd" : t.first); bad.push_back ("transition of " + g.role); }
          }
      }
    else
      {
        auto &t = TYPES[r.n (cond ? 4 : 2)];
        auto &u = TRANS[r.n (G_N_ELEMENTS (TRANS))];
        g.role = "c" + to_string (n++); g.type = t.second; g.trans = u.second;
        int what = flaw ? r.n (4) : -1;
        if (what != 0) x.set ("eventType", what == 1 ? "Presentation" : t.first);
        if (what != 2) x.set (tr, what == 3 ? "begin" : u.first);
        if (flaw) bad.push_back ("free role " + g.role);
      }
    used.insert (g.role);
    x.set ("role", g.role);
    if (!cond)
      {
        if (r.p (1, 3)) x.set ("duration", g.duration = to_string (r.n (9)) + "s");
        if (r.p (1, 3)) x.set ("delay", g.delay = to_string (r.n (9)) + "s");
        if (g.type == Event::ATTRIBUTION)
          {
            if (r.p (1, 30)) bad.push_back ("no value in " + g.role);
            else x.set ("value", g.value = r.of ({ "1", "", "abc" }));
          }
        else if (r.p (1, 5)) x.set ("value", "ignored");
      }
    if (cond && r.p (1, 2))
      {
        string k = r.of ({ "RED", "GREEN", "" });
        x.set ("key", k);
        if (g.type == Event::SELECTION) g.key = k;
      }
    random_shuffle (x.at.begin (), x.at.end (), [&] (int k) { return r.n (k); });
    roles.push_back (g);
    return x;
  };
  int nc = r.p (1, 25) ? 0 : r.range (1, 3), na = r.p (1, 25) ? 0 : r.range (1, 3);
  if (!nc) bad.push_back ("no condition");
  if (!na) bad.push_back ("no action");
  function<void (El &, bool, int, int)> put = [&] (El &to, bool cond, int k, int d) {
    if (k == 0) return;
    if (d < 3 && r.p (1, 3))
      {
        El c (cond ? "compoundCondition" : "compoundAction", { { "operator", cond ? "or" : "par" } });
        int j = r.range (1, k);
        put (c, cond, j, d + 1);
        to.add (c);
        put (to, cond, k - j, d);
      }
    else
      {
        to.add (role (cond));
        put (to, cond, k - 1, d);
      }
  };
  put (conn, true, nc, 0);
  put (conn, false, na, 0);
  bool isbad = !bad.empty ();
  e.add (El ("head")).add (El ("connectorBase")).add (conn);
  El &b = e.add (El ("body"));
  for (string m : { "a", "b" })
    {
      El &x = b.add (El ("media", { { "id", m } }));
      x.add (El ("property", { { "name", "u" } }));
      x.add (El ("area", { { "id", m + "1" } }));
    }
  // binds, in any order; each role may be bound more than once
  El l ("link", { { "xconnector", "k" } });
  vector<Want> want[2];
  vector<pair<El, pair<int, Want> > > binds;
  for (auto &g : roles)
    {
      int k = r.p (1, 30) ? 0 : r.p (1, 4) ? 2 : 1;
      if (!k) bad.push_back ("role " + g.role + " is not bound");
      for (; k > 0; k--)
        {
          Want w = { g.role, r.of ({ "a", "b" }), g.type, g.trans };
          El x ("bind", { { "role", g.role }, { "component", w.obj } });
          string i = r.n (2) ? "" : w.obj + "1";
          bool flaw = r.p (1, 40);
          if (g.type == Event::ATTRIBUTION) { w.id = flaw ? "" : "u"; w.value = g.value; if (!flaw) x.set ("interface", "u"); }
          else if (g.type == Event::PRESENTATION || g.type == Event::LOOKAT)
            {
              if (flaw && g.type == Event::PRESENTATION) i = "u"; else flaw = false;
              w.id = i == "" ? "@lambda" : i;
              if (i != "") x.set ("interface", i);
            }
          else
            {
              w.id = w.value = g.key;
              if (flaw) x.set ("interface", r.n (2) ? "u" : w.obj + "1");
            }
          if (flaw) bad.push_back ("the interface in the bind of " + g.role);
          w.duration = g.duration; w.delay = g.delay;
          binds.push_back ({ x, { g.cond ? 0 : 1, w } });
        }
    }
  random_shuffle (binds.begin (), binds.end (), [&] (int k) { return r.n (k); });
  for (auto &x : binds) { l.add (x.first); want[x.second.first].push_back (x.second.second); }
  b.add (l);
  NOTE ("%s", e.str ().c_str ());
  string err;
  Document *doc = parse (e.str (), &err);
  if (isbad || !bad.empty ())
    {
      CHECK (doc == nullptr, "the document was accepted in spite of: %s", bad[0].c_str ());
      CHECK (err != "", "no message was given");
      return;
    }
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  NONTRIVIAL ();
  auto links = doc->getRoot ()->getLinks ();
  CHECK (links->size () == 1, "%d links", (int) links->size ());
  for (int side = 0; side < 2; side++)
    {
      auto acts = side ? links->front ().second : links->front ().first;
      const char *what = side ? "action" : "condition";
      CHECK (acts.size () == want[side].size (), "%d %ss, expected %d", (int) acts.size (), what, (int) want[side].size ());
      int k = 0;
      for (auto &a : acts)
        {
          auto &w = want[side][k++];
          CHECK (a.event->getType () == w.type, "%s %d (%s): event type %d, expected %d", what, k, w.role.c_str (), a.event->getType (), w.type);
          CHECK (a.transition == w.trans, "%s %d (%s): transition %d, expected %d", what, k, w.role.c_str (), a.transition, w.trans);
          CHECK (a.event->getObject ()->getId () == w.obj && a.event->getId () == w.id, "%s %d (%s): %s, expected %s of %s", what, k,
                 w.role.c_str (), a.event->getFullId ().c_str (), w.id.c_str (), w.obj.c_str ());
          CHECK (a.value == w.value, "%s %d (%s): value %s, expected %s", what, k, w.role.c_str (), q (a.value).c_str (), q (w.value).c_str ());
          CHECK (a.duration == w.duration, "%s %d (%s): duration %s, expected %s", what, k, w.role.c_str (), q (a.duration).c_str (), q (w.duration).c_str ());
          CHECK (a.delay == w.delay, "%s %d (%s): delay %s, expected %s", what, k, w.role.c_str (), q (a.delay).c_str (), q (w.delay).c_str ());
          CHECK (a.predicate == nullptr, "%s %d (%s) has a predicate", what, k, w.role.c_str ());
        }
    }
  delete doc;
}
// ---------------------------------------------------------------- X08
typedef map<string, string> Env;
typedef function<bool (const Env &)> Pred;
static const char *const COMP[] = { "eq", "ne", "lt", "lte", "gt", "gte" };
static bool
compare (int c, const string &a, const string &b)
{
  return c == 0 ? a == b : c == 1 ? a != b : c == 2 ? a < b : c == 3 ? a <= b : c == 4 ? a > b : a >= b;
}
static Pred
combine (const string &op, vector<Pred> ps)
{
  if (op == "not") { Pred p = ps[0]; return [p] (const Env &v) { return !p (v); }; }
  bool all = op == "and";
  return [ps, all] (const Env &v) { for (auto &p : ps) if (p (v) != all) return !all; return all; };
}
static const char *const OPS[] = { "and", "or", "not" };
static El
rules (Rng &r, int d, int &n, Pred &p, vector<string> &bad)
{
  if (d < 3 && r.p (1, 2))
    {
      string op = OPS[r.n (3)];
      El x ("compositeRule", { { "id", "r" + to_string (n++) }, { "operator", op } });
      if (r.p (1, 60)) { x.set ("operator", "xor"); bad.push_back ("operator xor"); }
      vector<Pred> ps;
      for (int k = op == "not" ? (r.p (1, 40) ? 2 : 1) : r.range (1, 3); k > 0; k--) { ps.push_back (Pred ()); x.add (rules (r, d + 1, n, ps.back (), bad)); }
      if (op == "not" && ps.size () > 1) bad.push_back ("not with two rules");
      p = combine (op, ps);
      return x;
    }
  int c = r.n (6);
  string var = r.of ({ "a", "b", "c" }), val = to_string (r.n (4));
  El x ("rule", { { "id", "r" + to_string (n++) }, { "var", var }, { "comparator", COMP[c] }, { "value", val } });
  if (r.p (1, 60)) { x.set ("comparator", "LT"); bad.push_back ("comparator LT"); }
  p = [c, var, val] (const Env &v) { return compare (c, v.at (var), val); };
  return x;
}
static string
show (const Env &v)
{
  string s;
  for (auto &x : v) s += " " + x.first + "=" + x.second;
  return s;
}
TEST ("X08", x08rules)
{
  El e ("ncl");
  El base ("ruleBase");
  vector<Pred> ps;
  vector<string> ids, bad;
  int n = 0;
  for (int k = r.range (1, 3); k > 0; k--)
    {
      ps.push_back (Pred ());
      if (r.p (1, 8))
        { // an empty composite rule holds for nothing
          ids.push_back ("r" + to_string (n++));
          base.add (El ("compositeRule", { { "id", ids.back () }, { "operator", OPS[r.n (3)] } }));
          ps.back () = [] (const Env &) { return false; };
          continue;
        }
      El x = rules (r, 0, n, ps.back (), bad);
      ids.push_back (*x.get ("id"));
      base.add (x);
    }
  e.add (El ("head")).add (base);
  El &b = e.add (El ("body"));
  El set ("media", { { "id", "set" }, { "type", "application/x-ginga-settings" } });
  for (string v : { "a", "b", "c" }) set.add (El ("property", { { "name", v }, { "value", "0" } }));
  b.add (set);
  El sw ("switch", { { "id", "w" } });
  vector<pair<string, Pred> > want, last;
  vector<El> parts;
  int m = r.range (1, 5);
  for (int k = 0; k < m; k++) parts.push_back (El ("media", { { "id", "m" + to_string (k) } }));
  for (int k = r.n (5); k > 0; k--)
    {
      string c = "m" + to_string (r.n (m));
      if (r.p (1, 4)) parts.push_back (El ("defaultComponent", { { "component", c } }));
      else parts.push_back (El ("bindRule", { { "constituent", c }, { "rule", r.of (ids) } }));
    }
  random_shuffle (parts.begin (), parts.end (), [&] (int k) { return r.n (k); });
  for (auto &x : parts)
    {
      sw.add (x);
      if (x.tag == "bindRule")
        {
          size_t k = find (ids.begin (), ids.end (), *x.get ("rule")) - ids.begin ();
          want.push_back ({ *x.get ("constituent"), ps[k] });
        }
      if (x.tag == "defaultComponent") last.push_back ({ *x.get ("component"), [] (const Env &) { return true; } });
    }
  want.insert (want.end (), last.begin (), last.end ());
  b.add (sw);
  NOTE ("%s", e.str ().c_str ());
  string err;
  Document *doc = parse (e.str (), &err);
  if (!bad.empty ())
    {
      CHECK (doc == nullptr, "the document was accepted in spite of: %s", bad[0].c_str ());
      CHECK (err != "", "no message was given");
      return;
    }
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  auto have = cast (Switch *, doc->getObjectById ("w"))->getRules ();
  CHECK (have->size () == want.size (), "%d alternatives, expected %d", (int) have->size (), (int) want.size ());
  if (want.size () > 1) NONTRIVIAL ();
  for (int k = 0; k < 8; k++)
    {
      Env v;
      for (string x : { "a", "b", "c" }) { v[x] = to_string (r.n (4)); doc->getSettings ()->_properties[x] = v[x]; }
      int j = 0;
      for (auto &x : *have)
        {
          auto &w = want[j++];
          CHECK (x.first->getId () == w.first, "alternative %d is %s, expected %s", j, x.first->getId ().c_str (), w.first.c_str ());
          bool y = doc->evalPredicate (x.second);
          CHECK (y == w.second (v), "the rule of alternative %d is %s with%s", j, y ? "true" : "false", show (v).c_str ());
        }
    }
  delete doc;
}
static Pred
assess (El &x, Rng &r, int &n, vector<pair<string, string> > &tests)
{
  int c = r.n (6);
  x = El ("assessmentStatement", { { "comparator", COMP[c] } });
  string s[2];
  int both = r.n (3); // 0: property and value, 1: value and property, 2: two properties
  for (int k = 0; k < 2; k++)
    if (both == 2 || both == k)
      {
        s[k] = r.of ({ "a", "b", "c" });
        string role = "t" + to_string (n++);
        tests.push_back ({ role, s[k] });
        El y ("attributeAssessment", { { "role", role } });
        if (r.n (2)) y.set ("eventType", "attribution");
        x.add (y);
      }
    else
      {
        s[k] = to_string (r.n (4));
        x.add (El ("valueAssessment", { { "value", s[k] } }));
      }
  string p = s[0], v = s[1];
  return [=] (const Env &e) {
    auto get = [&] (const string &z) { auto it = e.find (z); return it == e.end () ? z : it->second; };
    return compare (c, get (p), get (v));
  };
}
static El
statements (Rng &r, int d, int &n, Pred &p, vector<pair<string, string> > &tests, vector<string> &bad)
{
  if (d < 3 && r.p (1, 2))
    {
      string op = OPS[r.n (3)];
      El x ("compoundStatement", { { "operator", op } });
      bool neg = r.p (1, 3);
      if (neg || r.p (1, 4)) x.set ("isNegated", neg ? "true" : "false");
      vector<Pred> ps;
      int k = op == "not" ? 1 : r.range (2, 3);
      if (r.p (1, 40)) { k = op == "not" ? 2 * r.n (2) : r.n (2); bad.push_back ("number of statements in " + op); }
      if (r.p (1, 60)) { x.set ("operator", "nand"); bad.push_back ("operator nand"); }
      if (r.p (1, 60)) { x.set ("isNegated", "maybe"); bad.push_back ("isNegated maybe"); }
      for (; k > 0; k--) { ps.push_back (Pred ()); x.add (statements (r, d + 1, n, ps.back (), tests, bad)); }
      if (ps.empty ()) return x;
      Pred in = combine (op, ps);
      p = neg ? Pred ([in] (const Env &v) { return !in (v); }) : in;
      return x;
    }
  El x;
  p = assess (x, r, n, tests);
  if (r.p (1, 60)) { x.set ("comparator", "=="); bad.push_back ("comparator =="); }
  else if (r.p (1, 60)) { x.kids.pop_back (); bad.push_back ("an assessment of one side"); }
  else if (r.p (1, 60)) { x.add (El ("valueAssessment", { { "value", "1" } })); bad.push_back ("an assessment of three sides"); }
  return x;
}
TEST ("X08", x08conditions)
{
  El e ("ncl"), conn ("causalConnector", { { "id", "k" } });
  vector<pair<string, string> > tests;
  vector<string> bad;
  vector<pair<string, Pred> > roles;
  int n = 0;
  function<El (int, vector<Pred>)> cond = [&] (int d, vector<Pred> above) -> El {
    if (d < 3 && roles.size () < 3 && r.p (2, 3))
      {
        El x ("compoundCondition", { { "operator", "and" } });
        vector<El> in;
        for (int k = r.n (3); k > 0; k--) { Pred p; in.push_back (statements (r, 1, n, p, tests, bad)); above.push_back (p); }
        for (int k = r.range (1, 2); k > 0; k--) in.push_back (cond (d + 1, above));
        random_shuffle (in.begin (), in.end (), [&] (int k) { return r.n (k); });
        for (auto &y : in) x.add (y);
        return x;
      }
    string role = "c" + to_string (n++);
    Pred all = [above] (const Env &v) { for (auto &p : above) if (!p (v)) return false; return true; };
    roles.push_back ({ role, above.empty () ? Pred () : all });
    return El ("simpleCondition", { { "role", role }, { "eventType", "presentation" }, { "transition", "starts" } });
  };
  for (int k = r.range (1, 2); k > 0; k--) conn.add (cond (0, {}));
  conn.add (El ("simpleAction", { { "role", "start" } }));
  e.add (El ("head")).add (El ("connectorBase")).add (conn);
  El &b = e.add (El ("body"));
  El &m = b.add (El ("media", { { "id", "m" } }));
  for (string v : { "a", "b", "c" }) m.add (El ("property", { { "name", v }, { "value", "0" } }));
  El l ("link", { { "xconnector", "k" } });
  vector<El> binds;
  for (auto &x : roles) binds.push_back (El ("bind", { { "role", x.first }, { "component", "m" } }));
  for (auto &x : tests)
    if (r.p (1, 60)) bad.push_back ("test role " + x.first + " is not bound");
    else binds.push_back (El ("bind", { { "role", x.first }, { "component", "m" }, { "interface", x.second } }));
  binds.push_back (El ("bind", { { "role", "start" }, { "component", "m" } }));
  random_shuffle (binds.begin (), binds.end (), [&] (int k) { return r.n (k); });
  vector<string> order;
  for (auto &x : binds) { l.add (x); order.push_back (*x.get ("role")); }
  int twice = r.range (1, 2); // two links may use the connector
  for (int k = 0; k < twice; k++) b.add (l);
  NOTE ("%s", e.str ().c_str ());
  string err;
  Document *doc = parse (e.str (), &err);
  if (!bad.empty ())
    {
      CHECK (doc == nullptr, "the document was accepted in spite of: %s", bad[0].c_str ());
      CHECK (err != "", "no message was given");
      return;
    }
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  if (!tests.empty ()) NONTRIVIAL ();
  auto links = doc->getRoot ()->getLinks ();
  CHECK ((int) links->size () == twice, "%d links", (int) links->size ());
  Media *o = (Media *) doc->getObjectById ("m");
  for (auto &ln : *links)
    {
      CHECK (ln.first.size () == roles.size (), "%d conditions, expected %d", (int) ln.first.size (), (int) roles.size ());
      CHECK (ln.second.front ().predicate == nullptr, "the action has a predicate");
      vector<string> mine;
      for (auto &x : order) if (x[0] == 'c') mine.push_back (x);
      for (int k = 0; k < 8; k++)
        {
          Env v;
          for (string x : { "a", "b", "c" }) { v[x] = to_string (r.n (4)); o->_properties[x] = v[x]; }
          int j = 0;
          for (auto &a : ln.first)
            {
              Pred w;
              for (auto &x : roles) if (x.first == mine[j]) w = x.second;
              bool have = a.predicate ? doc->evalPredicate (a.predicate) : true, x = w ? w (v) : true;
              CHECK (have == x, "condition %s is %s with%s", mine[j].c_str (), have ? "true" : "false", show (v).c_str ());
              j++;
            }
        }
    }
  delete doc;
}
// ---------------------------------------------------------------- X09
struct Anchor { Time begin, end; string label; };
struct Decl
{
  string id, up; // object, composition it is in
  int kind;      // 0: media, 1: context, 2: switch
  map<string, Anchor> areas;
  map<string, string> props;
  set<string> declared;
};
TEST ("X09", x09)
{
  vector<Decl> all;
  vector<string> bad;
  int n = 0;
  auto time = [&] (Time &t) -> string {
    int k = r.n (200);
    t = (Time) k * GINGA_SECOND;
    return to_string (k) + "s";
  };
  auto props = [&] (El &x, Decl &d) {
    for (int k = r.n (4); k > 0; k--)
      {
        string p = r.of ({ "p", "q", "left", "x-y" }), v = r.of ({ "1", "", "10%", "some words" });
        El y ("property", { { "name", p } });
        if (v != "" || r.n (2)) y.set ("value", v);
        x.add (y);
        d.declared.insert (p);
        if (v != "") d.props[p] = v;
      }
  };
  function<El (int, const string &, int)> make = [&] (int depth, const string &up, int kind) -> El {
    static const char *const TAGS[] = { "media", "context", "switch" };
    Decl d = { "o" + to_string (n++), up, kind };
    El x (depth ? TAGS[kind] : "body");
    if (depth) x.set ("id", d.id); else { d.id = "__root__"; if (r.n (2)) x.set ("id", "top"); }
    if (kind == 0)
      {
        string src = r.of ({ "", "a.png", "dir/b.mp4", "http://h/c.txt" }), type = r.of ({ "", "image/png", "video/mp4" });
        if (src != "") x.set ("src", src);
        if (type != "") x.set ("type", type);
        if (type != "") d.props["type"] = type;
        if (r.p (1, 60)) { x.set ("refer", "o0"); if (src + type != "") bad.push_back ("refer with src or type"); else x.drop ("refer"); }
        props (x, d);
        for (int k = r.n (4); k > 0; k--)
          {
            string a = "a" + to_string (n++);
            El y ("area", { { "id", a } });
            Anchor w = { 0, NONE, "" };
            if (r.p (1, 4))
              {
                w.label = "l" + to_string (n);
                y.set ("label", w.label);
                w.begin = w.end = NONE;
                if (r.p (1, 20)) { y.set (r.of ({ "begin", "end" }), "1s"); bad.push_back ("area with a label and an interval"); }
              }
            else
              {
                if (r.p (1, 6)) y.set ("label", "");
                if (r.n (2)) y.set ("begin", time (w.begin));
                if (r.n (2)) y.set ("end", time (w.end));
                if (r.p (1, 30)) { string z = r.of ({ "begin", "end" }); y.set (z, r.of ({ "soon", "1x", "--1s" })); bad.push_back (z + " of area " + a); }
              }
            d.areas[a] = w;
            x.add (y);
          }
      }
    else
      {
        if (kind == 1) props (x, d);
        for (int k = depth < 4 ? r.range (depth ? 0 : 1, 3) : 0; k > 0; k--)
          x.add (make (depth + 1, d.id, depth < 3 ? r.n (3) : 0));
        random_shuffle (x.kids.begin (), x.kids.end (), [&] (int k) { return 0 * k + k - 1; });
      }
    all.push_back (d);
    return x;
  };
  El e ("ncl");
  e.add (make (0, "", 1));
  NOTE ("%s", e.str ().c_str ());
  string err;
  Document *doc = parse (e.str (), &err);
  if (!bad.empty ())
    {
      CHECK (doc == nullptr, "the document was accepted in spite of: %s", bad[0].c_str ());
      CHECK (err != "", "no message was given");
      return;
    }
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  if (all.size () > 3) NONTRIVIAL ();
  CHECK (doc->getObjects ()->size () == all.size () + 1, "%d objects, expected %d and the settings", (int) doc->getObjects ()->size (), (int) all.size ());
  for (auto &d : all)
    {
      const char *id = d.id.c_str ();
      Object *o = doc->getObjectById (d.id);
      CHECK (o != nullptr, "no object %s", id);
      CHECK (d.kind == 0 ? instanceof (Media *, o) && !instanceof (MediaSettings *, o) : d.kind == 1 ? instanceof (Context *, o) : instanceof (Switch *, o),
             "%s is not of the kind declared", id);
      CHECK (d.up == "" ? o->getParent () == nullptr : o->getParent () && o->getParent ()->getId () == d.up, "%s is not in %s", id, d.up.c_str ());
      if (d.kind)
        {
          size_t k = d.up == "" ? 1 : 0; // the settings are in the body
          for (auto &x : all) if (x.up == d.id) k++;
          CHECK (cast (Composition *, o)->getChildren ()->size () == k, "%s has %d children, expected %d", id,
                 (int) cast (Composition *, o)->getChildren ()->size (), (int) k);
        }
      size_t events = 1;
      for (auto &a : d.areas)
        {
          Event *ev = o->getPresentationEvent (a.first);
          CHECK (ev != nullptr, "%s has no anchor %s", id, a.first.c_str ());
          Time t, u;
          ev->getInterval (&t, &u);
          if (a.second.label != "") CHECK (ev->getLabel () == a.second.label, "label %s of %s is %s", a.second.label.c_str (), a.first.c_str (), ev->getLabel ().c_str ());
          else
            {
              CHECK (ev->getLabel () == "", "anchor %s has a label", a.first.c_str ());
              CHECK (t == a.second.begin && u == a.second.end, "anchor %s spans %ld to %ld, expected %ld to %ld", a.first.c_str (), (long) t, (long) u,
                     (long) a.second.begin, (long) a.second.end);
            }
          events++;
        }
      for (auto &p : d.declared)
        {
          CHECK (o->getAttributionEvent (p) != nullptr, "%s has no property %s", id, p.c_str ());
          events++;
        }
      CHECK (o->getEvents ()->size () == events, "%s has %d events, expected %d", id, (int) o->getEvents ()->size (), (int) events);
      for (auto &p : d.props)
        CHECK (o->getProperty (p.first) == p.second, "%s of %s is %s, expected %s", p.first.c_str (), id, q (o->getProperty (p.first)).c_str (), q (p.second).c_str ());
      for (auto &p : d.declared)
        if (!d.props.count (p)) CHECK (o->getProperty (p) == "", "%s of %s is %s, expected none", p.c_str (), id, q (o->getProperty (p)).c_str ());
    }
  delete doc;
}
// ---------------------------------------------------------------- X10
TEST ("X10", x10)
{
  El e ("ncl");
  El &h = e.add (El ("head"));
  vector<string> bad;
  static const char *const TR[] = { "subtype", "dur", "startProgress", "endProgress", "direction", "fadeColor", "horzRepeat", "vertRepeat", "borderWidth", "borderColor" };
  static const char *const TRDEF[] = { "", "0", "0", "0", "forward", "", "0", "0", "0", "" };
  vector<map<string, string> > trs, descs, regs;
  vector<string> trval;
  int nt = r.n (3), nr = r.n (3), nd = r.range (1, 3), n = 0;
  El tb ("transitionBase"), rb ("regionBase"), db ("descriptorBase");
  for (int k = 0; k < nt; k++)
    {
      string type = r.of ({ "fade", "barWipe" }), s = "{type='" + type + "',";
      El x ("transition", { { "id", "t" + to_string (k) }, { "type", type } });
      for (int j = 0; j < 10; j++)
        {
          string v = TRDEF[j];
          if (r.n (2)) { v = "v" + to_string (n++); x.set (TR[j], v); }
          s += string (j ? "," : "") + TR[j] + "='" + v + "'";
        }
      random_shuffle (x.at.begin (), x.at.end (), [&] (int k) { return r.n (k); });
      trval.push_back (s + "}");
      tb.add (x);
    }
  for (int k = 0; k < nr; k++)
    {
      El x ("region", { { "id", "g" + to_string (k) } });
      map<string, string> m;
      for (string p : { "title", "zIndex" }) if (r.n (2)) { m[p] = to_string (n++); x.set (p, m[p]); }
      int side = 10 * r.range (1, 5);
      for (string p : { "left", "top", "width", "height" }) { m[p] = to_string (side) + "%"; x.set (p, m[p]); }
      regs.push_back (m);
      rb.add (x);
    }
  for (int k = 0; k < nd; k++)
    {
      El x ("descriptor", { { "id", "d" + to_string (k) } });
      map<string, string> m;
      for (string p : { "explicitDur", "freeze", "moveUp", "focusIndex", "zIndex", "left" })
        if (r.p (1, 3)) { m[p] = to_string (n++); x.set (p, m[p]); }
      for (int j = r.n (3); j > 0; j--)
        {
          string p = r.of ({ "w", "z", "explicitDur", "transparency" });
          m[p] = to_string (n++);
          x.add (El ("descriptorParam", { { "name", p }, { "value", m[p] } }));
        }
      if (nr && r.n (2))
        {
          int g = r.n (nr);
          x.set ("region", "g" + to_string (g));
          for (auto &p : regs[g]) m[p.first] = p.second;
          m["zOrder"] = "?";
        }
      else if (r.p (1, 30)) { x.set ("region", r.of ({ "nowhere", "t0", "d0" })); bad.push_back ("region of a descriptor"); }
      for (string p : { "transIn", "transOut" })
        if (nt && r.n (2)) { int t = r.n (nt); x.set (p, "t" + to_string (t)); m[p] = trval[t]; }
        else if (r.p (1, 30)) { x.set (p, r.of ({ "nowhere", "g0", "d0" })); bad.push_back (p + " of a descriptor"); }
      random_shuffle (x.at.begin (), x.at.end (), [&] (int k) { return r.n (k); });
      descs.push_back (m);
      db.add (x);
    }
  vector<El> bases = { tb, rb, db };
  random_shuffle (bases.begin (), bases.end (), [&] (int k) { return r.n (k); });
  for (auto &x : bases) h.add (x);
  El &b = e.add (El ("body"));
  vector<map<string, string> > want;
  for (int k = 0; k < 3; k++)
    {
      El x ("media", { { "id", "m" + to_string (k) } });
      map<string, string> m;
      if (r.p (3, 4))
        {
          int d = r.n (nd);
          x.set ("descriptor", "d" + to_string (d));
          m = descs[d];
        }
      else if (r.p (1, 30)) { x.set ("descriptor", r.of ({ "nowhere", "m0", "g0" })); bad.push_back ("descriptor of a media"); }
      for (string p : { "left", "title", "w", "explicitDur", "transIn", "own" })
        if (r.p (1, 5))
          {
            El y ("property", { { "name", p } });
            m[p] = r.n (3) ? "mine" + to_string (n++) : "";
            if (m[p] != "") y.set ("value", m[p]);
            x.add (y);
          }
      want.push_back (m);
      b.add (x);
    }
  NOTE ("%s", e.str ().c_str ());
  string err;
  Document *doc = parse (e.str (), &err);
  if (!bad.empty ())
    {
      CHECK (doc == nullptr, "the document was accepted in spite of: %s", bad[0].c_str ());
      CHECK (err != "", "no message was given");
      return;
    }
  CHECK (doc != nullptr, "the document was refused: %s", err.c_str ());
  for (int k = 0; k < 3; k++)
    {
      Object *o = doc->getObjectById ("m" + to_string (k));
      CHECK (o != nullptr, "no object m%d", k);
      if (want[k].size () > 2) NONTRIVIAL ();
      set<string> have;
      for (auto ev : *o->getEvents ()) if (ev->getType () == Event::ATTRIBUTION) have.insert (ev->getId ());
      for (auto &p : want[k])
        {
          CHECK (have.erase (p.first), "m%d has no property %s", k, p.first.c_str ());
          string v = o->getProperty (p.first);
          if (p.second == "?") CHECK (v != "", "m%d has no %s", k, p.first.c_str ());
          else CHECK (v == p.second, "%s of m%d is %s, expected %s", p.first.c_str (), k, q (v).c_str (), q (p.second).c_str ());
        }
      CHECK (have.empty (), "m%d has a property %s that nothing gives it", k, have.begin ()->c_str ());
    }
  delete doc;
}
// ---------------------------------------------------------------- X05, again: no text makes the parser stop the program
TEST ("X05", x05odd)
{
  vector<string> odd = { "",    "a b.png", "\xc3\xa9.png", "100%.png", "a[1].png",  "%",      "/",     "streambuf:", "streambuf://", "streambuf://x", "http://x/y.ttf",
                         "..",  "./",      "file:",        "file:///", "//h/x",     ":",      "a:b",   "?q",         "#f",           "%zz",           "nowhere.ttf",
                         "\\x", "{",       "$a",           "http://",  "http://[x", "a|b#c?", "a\tb", "x:y:z",      "data:,x" };
  El e ("ncl");
  auto val = [&] () { return r.of (odd) + (r.p (1, 6) ? r.of (odd) : ""); };
  if (r.n (2))
    {
      El &h = e.add (El ("head"));
      // (a directory is searched for fonts, however large: none is given)
      if (r.n (2)) h.add (El ("fontBase")).add (El ("font", { { "fontFamily", val () + "F" }, { "src", val () + r.of ({ "F.ttf", ".otf" }) } }));
      if (r.n (2)) h.add (El ("connectorBase")).add (El ("importBase", { { "alias", "x" }, { "documentURI", val () } }));
    }
  El &b = e.add (El ("body"));
  for (int k = r.range (1, 3); k > 0; k--)
    {
      El m ("media", { { "id", "m" + to_string (k) }, { "src", val () } });
      if (r.p (1, 3)) m.set ("type", r.of ({ "application/x-ginga-settings", "application/x-ginga-timer", "x", "video/mpeg" }));
      if (r.p (1, 3)) m.add (El ("area", { { "id", "a" + to_string (k) }, { "begin", val () } }));
      b.add (m);
    }
  NOTE ("%s", q (e.str ()).c_str ());
  string err = "";
  bool file = r.n (2);
  if (file) save ("x05.ncl", e.str ());
  Document *doc = file ? Parser::parseFile ("x05.ncl", 800, 600, &err) : parse (e.str (), &err);
  if (doc) delete doc;
  else
    {
      NONTRIVIAL ();
      CHECK (err != "", "no message was given");
    }
}
