// Animations: A01, A02, A03
#include "h.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes ();

TEST ("A01", one)
{
  double from = r.p (1, 3) ? r.range (-50, 300) : r.p (1, 2) ? r.n (1920) : r.n (2000) / 7.;
  double to = r.p (1, 8) ? from : r.p (1, 2) ? r.n (1920) : r.n (2000) / 3.;
  Time unit = r.of (vector<Time> { 1, 1000, 1000000, GINGA_SECOND });
  Time dur = r.p (1, 6) ? 0 : (Time) r.range (1, 60) * unit;
  Time t0 = r.p (1, 2) ? 0 : (Time) r.n (100000) * unit, t = t0;
  AnimInfo a ("left", 0, to, dur);
  a.init (from, t0);
  NOTE ("animation %.17g -> %.17g in %lu at %lu:", from, to, dur, t0);
  double lo = min (from, to), hi = max (from, to), slack = 1e-9 * (1 + fabs (from) + fabs (to));
  CHECK (a.getCurrent () == from, "it starts at %g", a.getCurrent ());
  for (int i = 0; i < 40 && !a.isDone (); i++)
    {
      Time step = r.p (1, 6) ? 0 : r.p (1, 5) && t < t0 + dur ? t0 + dur - t : (Time) r.range (1, (int) max<Time> (1, min<Time> (dur / 2 + 1, 1000000000)));
      double before = a.getCurrent ();
      t += step;
      NOTE (" +%lu", step);
      a.update (t);
      double now = a.getCurrent ();
      NOTE ("(%.17g%s)", now, a.isDone () ? " done" : "");
      NONTRIVIAL ();
      CHECK (now >= lo - slack && now <= hi + slack, "at %lu it is at %.17g, outside [%g, %g]", t - t0, now, lo, hi);
      CHECK (to >= from ? now >= before - slack : now <= before + slack, "at %lu it moves away from the target: %.17g after %.17g", t - t0, now, before);
      if (t - t0 >= dur)
        CHECK (now == to && a.isDone (), "the duration has elapsed (%lu of %lu) but it is %s at %.17g, expected finished at %.17g", t - t0, dur,
               a.isDone () ? "finished" : "not finished", now, to);
      else
        {
          double max = fabs (to - from) / (double) dur * (double) step;
          CHECK (fabs (now - before) <= max + slack, "it moves by %.17g in %lu, at most %.17g expected", fabs (now - before), step, max);
          double want = from + (to - from) * ((double) (t - t0) / (double) dur);
          CHECK (fabs (now - want) <= slack * 100 || from == to, "at %lu of %lu it is at %.17g, expected %.17g", t - t0, dur, now, want);
        }
    }
}
struct Stage
{
  Formatter fmt { nullptr };
  Time clock = 0;
  PlayerAnimator an { &fmt, &clock };
  Rect rect { 0, 0, 100, 100 };
  Color bg { 0, 0, 0, 0 };
  guint8 alpha = 255;
  list<int> crop;
};
TEST ("A01", stage)
{
  Stage s;
  s.rect = { r.n (500), r.n (500), r.range (1, 500), r.range (1, 500) };
  s.clock = r.p (1, 2) ? 0 : (Time) r.n (1000) * GINGA_SECOND;
  struct G { string n; int from, to; Time t0, dur; };
  list<G> g;
  auto at = [&] (const string &n) { return n == "left" ? s.rect.x : n == "top" ? s.rect.y : n == "width" ? s.rect.width : n == "height" ? s.rect.height : s.alpha; };
  for (auto n : { "left", "top", "width", "height", "transparency" })
    if (r.p (1, 2))
      {
        int from = r.p (1, 2) ? -1 : r.n (200), to = r.n (250);
        Time dur = r.p (1, 6) ? 0 : (Time) r.range (1, 10) * GINGA_MSECOND;
        NOTE (" %s %d->%d in %lu;", n, from, to, dur);
        s.an.schedule (n, from < 0 ? "" : to_string (from), to_string (to), dur);
        g.push_back ({ n, from < 0 ? at (n) : from, to, s.clock, dur });
      }
  Time first = s.clock;
  bool late = r.p (1, 3);
  if (late) s.clock += GINGA_MSECOND; // animations from the current value start at the first update
  for (int i = 0; i < 12; i++)
    {
      NOTE (" @%lu", s.clock - first);
      map<string, int> before;
      for (auto &x : g) before[x.n] = at (x.n);
      s.an.update (&s.rect, &s.bg, &s.alpha, &s.crop);
      for (auto &x : g)
        {
          NONTRIVIAL ();
          int now = at (x.n);
          if (i > 0)
            CHECK (x.to >= before[x.n] ? now >= before[x.n] && now <= x.to : now <= before[x.n] && now >= x.to, "%s goes from %d to %d, target %d", x.n.c_str (),
                   before[x.n], now, x.to);
          if (s.clock - first >= x.dur + (late ? GINGA_MSECOND : 0))
            CHECK (now == x.to, "%s is %d after its duration, expected %d", x.n.c_str (), now, x.to);
          if (x.dur == 0) CHECK (now == x.to, "%s is %d after an update with no duration, expected %d", x.n.c_str (), now, x.to);
        }
      s.clock += r.range (0, 3) * GINGA_MSECOND;
      if (i == 10) s.clock += 20 * GINGA_MSECOND;
    }
  CHECK (s.an._scheduled.empty (), "%zu animations are not finished", s.an._scheduled.size ());
}
static int
value (const string &s, int base, int max)
{
  double x = strtod (s.c_str (), nullptr);
  if (s.back () == '%') x = x * base / 100;
  x = round (x);
  return (int) (x < 0 ? 0 : x > max ? max : x);
}
struct Want { string n; string from, to; };
static string
item (Rng &r)
{
  string s = r.of ({ "0", "1", "10", "100", "255", "300", "1000", "5.4" });
  return r.p (1, 3) ? r.of ({ "0%", "10%", "25%", "50%", "100%", "150%" }) : s;
}
TEST ("A02", sched)
{
  Stage s;
  s.fmt._opts.width = r.of (vector<int> { 800, 1920, 100 });
  s.fmt._opts.height = r.of (vector<int> { 600, 1080, 200 });
  s.clock = (Time) r.n (100);
  NOTE ("screen %dx%d:", s.fmt._opts.width, s.fmt._opts.height);
  list<pair<Want, Time> > want;
  for (int k = r.range (1, 3); k > 0; k--)
    {
      string n = r.of ({ "bounds", "location", "size", "background", "left", "top", "width", "height", "transparency", "zIndex", "soundLevel", "other" });
      Time dur = (Time) r.n (5) * GINGA_SECOND;
      bool cur = r.p (1, 3);
      vector<string> c = n == "bounds" ? vector<string> { "left", "top", "width", "height" } : n == "location" ? vector<string> { "left", "top" }
                         : n == "size" ? vector<string> { "width", "height" } : n == "background" ? vector<string> { "background:r", "background:g", "background:b" } : vector<string> { n };
      string from, to;
      vector<string> a (c.size ()), b (c.size ());
      if (n == "background")
        {
          auto pick = [&] (string &o, vector<string> &v) {
            o = "#";
            for (auto &x : v)
              {
                bool on = r.p (1, 2);
                x = on ? "255" : "0";
                o += on ? "FF" : "00";
              }
          };
          pick (from, a);
          pick (to, b);
        }
      else
        for (size_t i = 0; i < c.size (); i++)
          {
            a[i] = item (r);
            b[i] = item (r);
            from += (i ? "," : "") + a[i];
            to += (i ? "," : "") + b[i];
          }
      if (cur) { from = ""; for (auto &x : a) x = ""; }
      NOTE (" %s %s->%s in %lu;", n.c_str (), q (from).c_str (), q (to).c_str (), dur);
      s.an.schedule (n, from, to, dur);
      for (size_t i = 0; i < c.size (); i++) want.push_back ({ { c[i], a[i], b[i] }, dur });
    }
  NONTRIVIAL ();
  CHECK (s.an._scheduled.size () == want.size (), "%zu animations scheduled, expected %zu", s.an._scheduled.size (), want.size ());
  list<AnimInfo *> got = s.an._scheduled;
  for (auto &w : want)
    {
      string n = w.first.n;
      int base = n == "left" || n == "width" ? s.fmt._opts.width : n == "top" || n == "height" ? s.fmt._opts.height : n == "transparency" ? 255 : 100;
      int max = n == "transparency" ? 255 : INT32_MAX;
      bool free = base == 100 && n[0] != 'b';
      if (free && (w.first.to.back () == '%' || (w.first.from != "" && w.first.from.back () == '%'))) free = true; else free = false;
      bool hit = false;
      string seen;
      for (auto it = got.begin (); it != got.end () && !hit; ++it)
        if ((*it)->getName () == n)
          {
            AnimInfo *x = *it;
            char b[200];
            snprintf (b, sizeof b, " [from %s %g to %g in %lu]", x->isInit () ? "" : "current,", x->getCurrent (), x->getTarget (), x->getDuration ());
            seen += b;
            bool ok = x->getDuration () == w.second && !x->isDone ();
            ok = ok && x->isInit () == (w.first.from != "");
            if (!free)
              {
                ok = ok && x->getTarget () == value (w.first.to, base, max);
                if (w.first.from != "") ok = ok && x->getCurrent () == value (w.first.from, base, max);
              }
            if (ok) { hit = true; got.erase (it); break; }
          }
      CHECK (hit, "no animation of %s from %s to %s in %lu; scheduled for it:%s", n.c_str (), q (w.first.from).c_str (), q (w.first.to).c_str (), w.second, seen.c_str ());
    }
}

TEST ("A03", shows)
{
  Stage s;
  s.rect = { r.n (500), r.n (500), r.range (1, 500), r.range (1, 500) };
  s.alpha = (guint8) r.n (256);
  s.bg = { r.n (256) / 255., r.n (256) / 255., r.n (256) / 255., 1. };
  s.clock = r.p (1, 2) ? 0 : (Time) r.n (1000) * GINGA_SECOND;
  auto at = [&] (const string &n) -> double {
    return n == "left" ? s.rect.x : n == "top" ? s.rect.y : n == "width" ? s.rect.width : n == "height" ? s.rect.height : n == "transparency" ? s.alpha
           : n == "background:r" ? s.bg.red * 255 : n == "background:g" ? s.bg.green * 255 : s.bg.blue * 255;
  };
  struct G { string n; double from, to; Time t0, dur; bool set, done; double now; };
  list<G> g; // pending, in order
  Time begin = s.clock;
  for (int i = 0; i < 14; i++)
    {
      if (i == 0 || r.p (1, 4))
        for (int m = r.range (1, 3); m > 0; m--)
          {
            string n = r.of ({ "left", "top", "width", "height", "transparency", "background" });
            Time dur = r.p (1, 6) ? 0 : (Time) r.range (1, 8) * GINGA_MSECOND;
            vector<string> c = n == "background" ? vector<string> { "background:r", "background:g", "background:b" } : vector<string> { n };
            bool cur = r.p (1, 2);
            string from, to;
            vector<int> a, b;
            for (size_t k = 0; k < c.size (); k++) { a.push_back (r.n (256)); b.push_back (r.n (256)); }
            if (n == "background")
              {
                char z[20];
                snprintf (z, sizeof z, "#%02X%02X%02X", a[0], a[1], a[2]);
                from = z;
                snprintf (z, sizeof z, "#%02X%02X%02X", b[0], b[1], b[2]);
                to = z;
              }
            else { from = to_string (a[0]); to = to_string (b[0]); }
            if (cur) from = "";
            NOTE (" %s %s->%s in %lu;", n.c_str (), q (from).c_str (), q (to).c_str (), dur);
            s.an.schedule (n, from, to, dur);
            for (size_t k = 0; k < c.size (); k++) g.push_back ({ c[k], (double) a[k], (double) b[k], s.clock, dur, !cur, false, 0 });
          }
      map<string, double> shown;
      for (auto n : { "left", "top", "width", "height", "transparency", "background:r", "background:g", "background:b" }) shown[n] = at (n);
      map<string, bool> moved; // the last animation of the property is not finished
      for (auto &x : g)
        {
          double frac = shown[x.n] - floor (shown[x.n]);
          if (!x.set && fabs (frac - .5) < 1e-6) return; // rounding of the value shown is not decided here
          if (!x.set) { x.from = x.n[0] == 'b' ? shown[x.n] : round (shown[x.n]); x.t0 = s.clock; x.set = true; }
          Time el = s.clock - x.t0;
          x.done = el >= x.dur || x.from == x.to;
          shown[x.n] = x.done ? x.to : x.from + (x.to - x.from) * ((double) el / (double) x.dur);
          moved[x.n] = !x.done;
        }
      NOTE (" @%lu", s.clock - begin);
      s.an.update (&s.rect, &s.bg, &s.alpha, &s.crop);
      NONTRIVIAL ();
      for (auto &x : shown)
        {
          double tol = x.first[0] == 'b' ? (moved.count (x.first) ? 2.1 : 0) : moved[x.first] ? .51 : 0;
          CHECK (fabs (at (x.first) - x.second) <= tol + 1e-6, "%s shown is %g, its animation is at %g", x.first.c_str (), at (x.first), x.second);
        }
      g.remove_if ([] (const G &x) { return x.done; });
      CHECK (s.an._scheduled.size () == g.size (), "%zu animations are pending, expected %zu", s.an._scheduled.size (), g.size ());
      s.clock += r.range (0, 3) * GINGA_MSECOND;
    }
}
TEST ("A03", releases)
{
  vector<Time> durs;
  for (int i = r.range (1, 6); i > 0; i--) durs.push_back (r.p (1, 4) ? 0 : (Time) r.range (1, 9) * GINGA_MSECOND);
  bool drop = r.p (1, 2);
  auto run = [&] () {
    Stage s;
    for (auto d : durs) s.an.schedule ("left", "1", "100", d);
    size_t n = __sanitizer_get_current_allocated_bytes ();
    size_t k = s.an._scheduled.size ();
    s.clock += (drop ? 4 : 20) * GINGA_MSECOND;
    s.an.update (&s.rect, &s.bg, &s.alpha, &s.crop);
    size_t left = s.an._scheduled.size ();
    size_t each = sizeof (AnimInfo);
    NONTRIVIAL ();
    CHECK (n >= __sanitizer_get_current_allocated_bytes () + (k - left) * each, "%zu animations are finished, only %zd bytes are released", k - left,
           (ssize_t) (n - __sanitizer_get_current_allocated_bytes ()));
    if (left && drop)
      {
        size_t m = __sanitizer_get_current_allocated_bytes ();
        s.an.clear ();
        CHECK (m >= __sanitizer_get_current_allocated_bytes () + left * each, "%zu animations are dropped, only %zd bytes are released", left,
               (ssize_t) (m - __sanitizer_get_current_allocated_bytes ()));
      }
  };
  for (auto d : durs) NOTE (" %lu", d);
  run ();
}
