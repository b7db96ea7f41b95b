// Values, paths: V01-V05
#include "h.h"
#include <sys/wait.h>
#include <gio/gio.h>
#include "aux-ginga.h"

static bool
dies (function<void ()> f)
{
  fflush (stdout);
  pid_t p = fork ();
  if (p == 0)
    {
      int n = open ("/dev/null", O_WRONLY);
      dup2 (n, 2);
      dup2 (n, 1);
      for (int s : { SIGABRT, SIGTRAP, SIGSEGV }) signal (s, SIG_DFL);
      f ();
      _exit (0);
    }
  int st;
  waitpid (p, &st, 0);
  return !(WIFEXITED (st) && WEXITSTATUS (st) == 0);
}
// ---------------------------------------------------------------- V01
typedef __int128 big;
static string
digits (Rng &r, int base, bool small)
{
  string s;
  int n = small ? r.range (1, 3) : r.range (1, 22);
  for (int i = 0; i < n; i++) s += "0123456789abcdefghijklmnopqrstuvwxyz"[r.n (base)];
  return s;
}
static big
clampb (big x, big lo, big hi)
{
  return x < lo ? lo : x > hi ? hi : x;
}
static string
num (big x)
{
  if (x < 0) return "-" + num (-x);
  string s;
  do { s = char ('0' + (int) (x % 10)) + s; x /= 10; } while (x);
  return s;
}
TEST ("V01", ints)
{
  static const char *EDGE[] = { "127", "128", "129", "255", "256", "257", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807",
                                "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "1" };
  bool edge = r.p (1, 2);
  int base = edge ? 10 : r.of (vector<int> { 10, 10, 16, 8, 2 });
  string d = edge ? EDGE[r.n (18)] : digits (r, base, r.p (1, 2));
  string sign = r.of ({ "", "", "-", "+" }), tail = r.of ({ "", "", " ", "xyz", ".5", "%" });
  bool none = r.p (1, 8);
  string s = none ? r.of ({ "", "-", "abc!", " ", "%5", ".5", "-x" }) : string (r.of ({ "", " ", "  " })) + sign + d + tail;
  if (none && base != 10) base = 10;
  if (base == 16 && (tail == "xyz")) tail = "", s = sign + d;
  NOTE ("%s in base %d", q (s).c_str (), base);
  big v = 0;
  bool over = false;
  for (char c : d)
    {
      v = v * base + (c <= '9' ? c - '0' : c - 'a' + 10);
      if (v > ((big) 1 << 100)) over = true;
      if (over) v = (big) 1 << 100;
    }
  if (sign == "-") v = -v;
  NONTRIVIAL ();
  gint64 a = 77;
  guint64 b = 78;
  bool ra = _xstrtoll (s, &a, base), rb = _xstrtoull (s, &b, base);
  if (none)
    {
      CHECK (!ra && !rb, "accepted (%d, %d)", ra, rb);
      CHECK (a == 77 && b == 78, "rejected, but the output is written");
      CHECK (_xstrtoll (s, NULL, base) == false, "accepted");
      if (r.p (1, 200))
        CHECK (dies ([&] { xstrtoint (s, base); }) && dies ([&] { xstrtouint8 (s, base); }), "converted instead of rejected");
      return;
    }
  big I8 = 127, I32 = 2147483647, I64 = 9223372036854775807LL, U64 = 18446744073709551615ULL;
  auto lim = [&] (const char *what, big got, big lo, big hi) { CHECK (got == clampb (v, lo, hi), "%s gives %s, expected %s", what, num (got).c_str (), num (clampb (v, lo, hi)).c_str ()); };
  CHECK (ra && rb, "rejected (%d, %d)", ra, rb);
  lim ("_xstrtoll", a, -I64 - 1, I64);
  lim ("_xstrtoull", b, 0, U64);
  lim ("xstrtoint", xstrtoint (s, base), -I32 - 1, I32);
  lim ("xstrtoint8", xstrtoint8 (s, base), -I8 - 1, I8);
  lim ("xstrtoint64", xstrtoint64 (s, base), -I64 - 1, I64);
  lim ("xstrtouint", xstrtouint (s, base), 0, 2 * I32 + 1);
  lim ("xstrtouint8", xstrtouint8 (s, base), 0, 2 * I8 + 1);
  lim ("xstrtouint64", xstrtouint64 (s, base), 0, U64);
}
static string
real (Rng &r, double *v)
{
  static const char *S[] = { "0", "1", "50", "100", "12.5", "0.5", "1.5", "2.5", "-3", "-2.5", "-0.5", "1e3", "99999", "3000000000", "1e20", "-1e20", "254.5", "255", "255.4", "255.5", ".25", "7.49", "33.3" };
  string s = S[r.n (23)];
  *v = strtod (s.c_str (), NULL);
  return s;
}
TEST ("V01", doubles)
{
  double v, d = -77;
  bool none = r.p (1, 5);
  string s = none ? r.of ({ "", "abc", "%", "--1", ":", "x1" }) : string (r.of ({ "", " " })) + real (r, &v) + r.of ({ "", " ", "x", "%", ":" });
  NOTE ("%s", q (s).c_str ());
  NONTRIVIAL ();
  bool ok = _xstrtod (s, &d);
  CHECK (ok == !none, "accepted: %d", ok);
  CHECK (d == (none ? -77 : v), "gives %g, expected %g", d, none ? -77 : v);
  if (!none) CHECK (xstrtod (s) == v, "xstrtod gives %g, expected %g", xstrtod (s), v);
  else if (r.p (1, 100)) CHECK (dies ([&] { xstrtod (s); }), "converted instead of rejected");
}
// ---------------------------------------------------------------- V02
TEST ("V02", percent)
{
  double v = 0;
  bool none = r.p (1, 6);
  string n = none ? r.of ({ "", "%", "%5", "x%", "abc", " %", "-%" }) : real (r, &v);
  string t = none ? "" : r.of ({ "", "", "%", "%", " %", "px", "%%" });
  string s = n + t;
  bool pc = !none && t[0] == '%';
  int base = r.of (vector<int> { 0, 1, 100, 255, 800, 1920, 1000000 }), lo = r.of (vector<int> { 0, 0, -100, 10, INT_MIN }), hi = r.of (vector<int> { 255, 100, 1000, INT_MAX });
  NOTE ("%s relative to %d in [%d, %d]", q (s).c_str (), base, lo, hi);
  NONTRIVIAL ();
  CHECK (xstrispercent (s) == pc, "percent value: %d", xstrispercent (s));
  bool p = !pc;
  double d = xstrtodorpercent (s, &p);
  CHECK (p == pc, "percent value (xstrtodorpercent): %d", p);
  double w = pc ? v / 100 : v;
  CHECK (fabs (d - w) <= 1e-12 * fabs (w), "denotes %g, expected %g", d, w);
  CHECK (xstrtodorpercent (s, NULL) == d, "denotes something else without an output");
  auto tie = [&] (int base) { // percentages of a half are subject to rounding errors
    double x = v / 100 * base;
    return pc && fabs (fabs (x - floor (x)) - .5) < 1e-6;
  };
  auto want = [&] (int base, int lo, int hi) {
    double x = pc ? v / 100 * base : v;
    double y = x < 0 ? -floor (-x + .5) : floor (x + .5);
    return (int) (y < lo ? lo : y > hi ? hi : y);
  };
  if (!tie (base)) CHECK (parse_percent (s, base, lo, hi) == want (base, lo, hi), "parse_percent gives %d, expected %d", parse_percent (s, base, lo, hi), want (base, lo, hi));
  if (!tie (255)) CHECK (parse_pixel (s) == want (255, 0, 255), "parse_pixel gives %d, expected %d", parse_pixel (s), want (255, 0, 255));
}
// ---------------------------------------------------------------- V03
TEST ("V03", times)
{
  auto part = [&] (double *v) {
    int k = r.n (4);
    if (k == 0) { int x = r.n (100); *v = x; char b[16]; snprintf (b, sizeof b, r.p (1, 2) ? "%02d" : "%d", x); return string (b); }
    if (k == 1) { int x = r.n (1000); *v = x / 4.; char b[32]; snprintf (b, sizeof b, "%g", *v); return string (b); }
    int x = r.n (60);
    *v = x;
    return to_string (x);
  };
  double a, b = 0, c = 0;
  string s = part (&a), bad;
  int form = r.n (3);
  if (form == 1) s += "s";
  if (form == 2) s += ":" + part (&b) + ":" + part (&c);
  double secs = form == 2 ? 3600 * a + 60 * b + c : a;
  s += r.of ({ "", "", " ", "\t ", "\n" });
  bool ok = true;
  if (r.p (1, 3))
    {
      ok = false;
      string g = r.of ({ "x", "ss", "s5", ":", ":1", " s", "1", "m", ":1:2:3", ":1:2s", "::" });
      string x = part (&a);
      if (g == "1") x += " ";
      if (g == "::") { x = "a"; }
      s = x + g;
    }
  NOTE ("%s", q (s).c_str ());
  NONTRIVIAL ();
  Time t = 4242;
  bool got = try_parse_time (s, &t);
  CHECK (got == ok, "%s", got ? "accepted" : "rejected");
  CHECK (try_parse_time (s, NULL) == ok, "differs without an output");
  if (!ok)
    {
      CHECK (t == 4242, "rejected, but the output becomes %lu", t);
      if (r.p (1, 200)) CHECK (dies ([&] { parse_time (s); }), "converted instead of rejected");
      return;
    }
  double e = fabs ((double) t - secs * 1e9);
  CHECK (e <= 1 + secs * 1e9 * 1e-12, "gives %lu ns, expected %.0f", t, secs * 1e9);
  CHECK (parse_time (s) == t, "parse_time gives something else");
}
// ---------------------------------------------------------------- V04
static string
blank (Rng &r)
{
  return r.of ({ "", "", "", " ", "  ", "\t", " \n" });
}
TEST ("V04", lists)
{
  char sep = r.of ({ ",", ";", "=", "|" })[0];
  int n = r.n (6);
  vector<string> want;
  string s;
  for (int i = 0; i < n; i++)
    {
      string w = r.of ({ "a", "bc", "1 2", "", "-", "x y z", "=,|;", "\"q\"" });
      w.erase (remove (w.begin (), w.end (), sep), w.end ());
      if (i == n - 1 && w == "") w = "z";
      want.push_back (w);
      s += (i ? string (1, sep) : "") + blank (r) + w + blank (r);
    }
  size_t lo = r.n (4), hi = r.p (1, 2) ? lo + r.n (4) : r.n (6);
  NOTE ("%s by '%c' in [%zu, %zu]", q (s).c_str (), sep, lo, hi);
  NONTRIVIAL ();
  bool ok = lo <= want.size () && want.size () <= hi;
  list<string> l;
  bool got = try_parse_list (s, sep, lo, hi, &l);
  CHECK (got == ok, "%s with %zu items", got ? "accepted" : "rejected", want.size ());
  CHECK (try_parse_list (s, sep, lo, hi, NULL) == ok, "differs without an output");
  vector<string> v (l.begin (), l.end ());
  if (ok)
    {
      CHECK (v == want, "%zu items, expected %zu; first %s", v.size (), want.size (), v.empty () ? "-" : q (v[0]).c_str ());
      CHECK (parse_list (s, sep, lo, hi) == l, "parse_list gives something else");
    }
  else
    {
      CHECK (l.empty (), "rejected, but the output has %zu items", l.size ());
      list<string> k = { "mine" };
      try_parse_list (s, sep, lo, hi, &k);
      CHECK (k.size () == 1 && k.front () == "mine", "rejected, but the output changes");
    }
  list<string> raw = xstrsplit (s, sep);
  CHECK (raw.size () == want.size (), "%zu pieces, expected %zu", raw.size (), want.size ());
  string j;
  for (auto &x : raw) j += (j.empty () && &x == &raw.front () ? "" : string (1, sep)) + x;
  CHECK (j == s, "the pieces make up %s", q (j).c_str ());
}
TEST ("V04", bools)
{
  string s = r.of ({ "true", "false", "tru", "falsey", "", "1", "0", "yes", "true ", " false", "t", "truefalse" });
  bool ok = s == "true" || s == "false", v = s == "true";
  for (auto &c : s) if (r.p (1, 2)) c = toupper (c);
  NOTE ("%s", q (s).c_str ());
  NONTRIVIAL ();
  bool init = r.p (1, 2), b = init;
  bool got = try_parse_bool (s, &b);
  CHECK (got == ok, "%s", got ? "accepted" : "rejected");
  CHECK (b == (ok ? v : init), "gives %d", b);
  CHECK (try_parse_bool (s, NULL) == ok, "differs without an output");
  if (ok) CHECK (parse_bool (s) == v, "parse_bool gives %d", parse_bool (s));
}
TEST ("V04", tables)
{
  map<string, string> want, got = { { "old", "1" } };
  string in;
  int n = r.n (5);
  for (int i = 0; i < n; i++)
    {
      string k = r.of ({ "a", "key", "b c", "", "x1", "type" }), v = r.of ({ "", "v", "1s", " sp ", "{}", "it's", "#00" });
      char quo = r.p (1, 2) || v.find ('\'') != string::npos ? '"' : '\'';
      want[k] = v;
      in += (i ? "," : "") + blank (r) + k + blank (r) + "=" + blank (r) + quo + v + quo + blank (r);
    }
  string s = blank (r) + "{" + in + "}" + blank (r);
  bool ok = true;
  if (r.p (1, 3))
    {
      ok = false;
      switch (r.n (9))
        {
        case 0: s = in; break;
        case 1: s = "{" + in; break;
        case 2: s = in + "}"; break;
        case 3: s = "{" + in + (n ? "," : "") + "k=v}"; break;
        case 4: s = "{" + in + (n ? "," : "") + "k}"; break;
        case 5: s = "{" + in + (n ? "," : "") + "k=\"v'}"; break;
        case 6: s = "{" + in + (n ? "," : "") + "k=\"}"; break;
        case 7: s = "{" + in + (n ? "," : "") + "k=\"a\"=\"b\"}"; break;
        case 8: s = r.of ({ "", "{", "}", " ", "x", "{,}", "{a=\"1\",,b=\"2\"}" }); break;
        }
    }
  NOTE ("%s", q (s).c_str ());
  NONTRIVIAL ();
  bool a = try_parse_table (s, &got);
  CHECK (a == ok, "%s", a ? "accepted" : "rejected");
  CHECK (try_parse_table (s, NULL) == ok, "differs without an output");
  if (!ok)
    {
      CHECK (got.size () == 1 && got["old"] == "1", "rejected, but the output changes");
      return;
    }
  string show;
  for (auto &p : got) show += " " + q (p.first) + "=" + q (p.second);
  CHECK (got == want, "contents%s, expected %zu pairs", show.c_str (), want.size ());
  CHECK (parse_table (s) == want, "parse_table gives something else");
}
// ---------------------------------------------------------------- V05
static string
join (string a, string b)
{
  if (a == "") return b;
  while (a.size () > 1 && a.back () == '/') a.pop_back ();
  size_t i = 0;
  while (i < b.size () && b[i] == '/') i++;
  return (a == "/" ? "" : a) + "/" + b.substr (i);
}
TEST ("V05", uris)
{
  string path = string (r.of ({ "", "/", "" })) + r.of ({ "a", "dir/x.png", "b/c/d", "media-1.mp4", "a_b.c", "x" });
  string src;
  bool uri = r.p (1, 3);
  if (uri) src = string (r.of ({ "http", "file", "ab", "h2+x", "rtp" })) + r.of ({ "://", ":", ":///" }) + path;
  else src = path;
  string base = r.of ({ ".", "/base", "/base/", "rel", "rel/dir", "/", "" });
  char cwd[4096];
  CHECK (getcwd (cwd, sizeof cwd), "no directory");
  NOTE ("%s in %s", q (src).c_str (), q (base).c_str ());
  NONTRIVIAL ();
  CHECK (xpathisuri (src) == uri, "URI: %d", xpathisuri (src));
  CHECK (!xpathisuri ("c:" + path) && !xpathisuri (path), "a path is taken as a URI");
  auto abs = [&] (const string &p) { return p[0] == '/' ? p : join (cwd, p); };
  string p = path[0] == '/' ? path : abs (base == "." ? path : join (base, path));
  CHECK (xpathmakeabs (path) == abs (path), "made absolute as %s", q (xpathmakeabs (path)).c_str ());
  if (path[0] != '/')
    CHECK (xpathbuildabs (base, path) == p, "built as %s, expected %s", q (xpathbuildabs (base, path)).c_str (), q (p).c_str ());
  string want = uri ? src : "file://" + p, got = xurifromsrc (src, base);
  CHECK (got == want, "the source is %s, expected %s", q (got).c_str (), q (want).c_str ());
  CHECK (!xpathisuri ("") && !xpathisuri (":x") && !xpathisuri ("1a:x") && !xpathisuri ("d:x"), "taken as a URI");
}
// ---------------------------------------------------------------- U01
static vector<int> u_released;
static string u_vals[64];
static void u_a (void *p) { u_released[(string *) p - u_vals] += 1; }
static void u_b (void *p) { u_released[(string *) p - u_vals] += 1000; }
template <class U> static void
userdata (Rng &r, U *u, bool doc)
{
  struct It { int v, f; };
  map<string, It> m;
  vector<int> want (64, 0);
  u_released.assign (64, 0);
  auto drop = [&] (It it) { want[it.v] += it.f == 1 ? 1 : it.f == 2 ? 1000 : 0; };
  int next = 0, n = r.range (1, 14);
  NONTRIVIAL ();
  for (int i = 0; i < n; i++)
    {
      string k = r.of ({ "a", "b", "c", doc ? "id" : "", "A" });
      if (r.p (1, 4))
        {
          NOTE ("get %s", q (k).c_str ());
          void *p = &want;
          bool ok = u->getData (k, r.p (1, 6) ? nullptr : &p), there = m.count (k) > 0;
          CHECK (ok == there, "found %s: %d", q (k).c_str (), ok);
          if (there && p != &want) CHECK (p == &u_vals[m[k].v], "another value is returned for %s", q (k).c_str ());
          continue;
        }
      bool null = r.p (1, 3);
      int f = r.n (3), v = next++;
      u_vals[v] = "v" + to_string (v);
      NOTE ("set %s to %s, release %d", q (k).c_str (), null ? "null" : u_vals[v].c_str (), f);
      bool there = m.count (k) > 0, ret = u->setData (k, null ? nullptr : &u_vals[v], f == 0 ? nullptr : f == 1 ? u_a : u_b);
      CHECK (ret == (!null && !there), "setData reports %d", ret);
      if (there) drop (m[k]);
      if (null) m.erase (k);
      else m[k] = { v, f };
      CHECK (u_released == want, "the values released so far are not those replaced or removed");
      for (const char *x : { "a", "b", "c", "id", "A", "" })
        {
          void *p = nullptr;
          bool ok = u->getData (x, &p), th = m.count (x) > 0;
          CHECK (ok == th && (!th || p == &u_vals[m[x].v]), "the value of %s is not the one attached", q (x).c_str ());
        }
    }
  for (auto &x : m) drop (x.second);
  delete u;
  CHECK (u_released == want, "the values left were not each released once with the holder");
}
TEST ("U01", holder) { userdata (r, new UserData (), false); }
TEST ("U01", document) { userdata (r, new Document ("d"), true); }
