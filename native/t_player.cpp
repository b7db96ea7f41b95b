// Players and the formatter: R01, R02, R03, G01, G02
#include "h.h"
#include <sys/wait.h>

static GingaOptions
opts (int w, int h)
{
  GingaOptions o;
  o.width = w; o.height = h;
  o.debug = o.webservices = o.experimental = o.opengl = false;
  return o;
}
struct Plain : public Player
{
  int loads = 0;
  Plain (Formatter *f, Media *m) : Player (f, m) {}
  void reload () override { loads++; Player::reload (); }
};
struct Desk
{
  GingaOptions o;
  Formatter fmt;
  Document doc;
  Media *m;
  Plain *p;
  Desk (int w, int h) : o (opts (w, h)), fmt (&o)
  {
    m = new Media ("m");
    doc.getRoot ()->addChild (m);
    p = new Plain (&fmt, m);
    m->_player = p;
  }
  ~Desk () { m->_player = nullptr; delete p; }
};
// ---------------------------------------------------------------- R01
struct Len { string s; double pct; int px; };
static Len
len (Rng &r)
{
  if (r.p (1, 6)) return { "", -2, 0 };
  if (r.p (1, 2)) { int k = r.n (120); return { to_string (k) + "%", (double) k, 0 }; }
  int k = r.n (2000);
  return { to_string (k) + (r.p (1, 2) ? "px" : ""), -1, k };
}
static int
px (const Len &l, int total) { return l.pct >= 0 ? (int) (total * l.pct / 100) : l.px; }
TEST ("R01", r01)
{
  int W = 100 * r.range (1, 20), H = 100 * r.range (1, 20);
  Desk d (W, H);
  NOTE ("screen %dx%d:", W, H);
  int x = 0, y = 0, w = W, h = H, z = 0, zo = 0, alpha = 255;
  string fi;
  bool vis = true, dbg = false;
  Time dur = GINGA_TIME_NONE;
  map<string, string> have; // of the media object
  map<string, string> props;
  for (int n = r.range (1, 8); n > 0; n--)
    {
      string k = r.of ({ "left", "top", "right", "bottom", "width", "height", "zIndex", "zOrder", "focusIndex", "visible", "debug", "duration",
                         "explicitDur", "transparency", "foo", "location", "size", "bounds", "time", "volume", "wave", "vertAlign", "freq" });
      string v;
      bool loads = false;
      d.p->_dirty = false;
      auto set = [&] (string k, Len l) {
        have[k] = l.s;
        loads = true;
        string s = l.s;
        if (l.s == "")
          l = (k == "left" || k == "top") ? Len { "0", -1, 0 } : (k == "width" || k == "height") ? Len { "100%", 100, 0 } : Len { "0%", 0, 0 };
        if (k == "left") x = px (l, W);
        if (k == "top") y = px (l, H);
        if (k == "right") x = W - w - px (l, W);
        if (k == "bottom") y = H - h - px (l, H);
        return l;
      };
      map<string, Len> lens;
      function<void (string, Len)> apply = [&] (string k, Len l) {
        lens[k] = l;
        if (k == "width" || k == "height")
          {
            have[k] = l.s;
            loads = true;
            int &q = k == "width" ? w : h;
            q = l.s == "" ? (k == "width" ? W : H) : px (l, k == "width" ? W : H);
            string back = k == "width" ? "right" : "bottom";
            if (have[back] != "")
              {
                string b = have[back];
                bool pc = b.back () == '%';
                set (back, { b, pc ? (double) atoi (b.c_str ()) : -1., atoi (b.c_str ()) });
              }
          }
        else
          set (k, l);
      };
      auto join = [&] (vector<string> ks) {
        for (auto &s : ks)
          {
            Len l = len (r);
            while (l.s == "") l = len (r);
            v += (v == "" ? "" : ",") + l.s;
            apply (s, l);
          }
      };
      if (k == "left" || k == "top" || k == "right" || k == "bottom" || k == "width" || k == "height")
        {
          Len l = len (r);
          v = l.s;
          apply (k, l);
        }
      else if (k == "location") join ({ "left", "top" });
      else if (k == "size") join ({ "width", "height" });
      else if (k == "bounds") join ({ "left", "top", "width", "height" });
      else if (k == "zIndex" || k == "zOrder")
        {
          v = r.p (1, 4) ? "" : to_string (r.range (-50, 200));
          (k == "zIndex" ? z : zo) = v == "" ? 0 : atoi (v.c_str ());
        }
      else if (k == "focusIndex") fi = v = r.of ({ "", "1", "a" });
      else if (k == "visible") { v = r.of ({ "", "true", "false" }); vis = v != "false"; }
      else if (k == "debug") { v = r.of ({ "", "true", "false" }); dbg = v == "true"; }
      else if (k == "duration" || k == "explicitDur")
        {
          int s = r.n (1000);
          v = r.p (1, 3) ? r.of ({ "", "indefinite" }) : to_string (s) + "s";
          dur = v == "" || v == "indefinite" ? GINGA_TIME_NONE : (Time) s * GINGA_SECOND;
        }
      else if (k == "transparency")
        {
          int s = r.n (256);
          v = r.p (1, 4) ? "" : to_string (s);
          alpha = v == "" ? 255 : 255 - s;
        }
      else v = r.of ({ "", "a", "b" });
      NOTE (" %s=%s", k.c_str (), v.c_str ());
      d.m->setProperty (k, v);
      have[k] = v;
      props[k] = v;
      NONTRIVIAL ();
      const Rect &R = d.p->_prop.rect;
      CHECK (R.x == x && R.y == y && R.width == w && R.height == h, "the player is at %d,%d of size %dx%d, expected %d,%d of size %dx%d", R.x, R.y, R.width,
             R.height, x, y, w, h);
      CHECK (!loads || d.p->_dirty, "the content is not to be loaded again after a change of geometry");
      int gz = -1, gzo = -1;
      d.p->getZ (&gz, &gzo);
      CHECK (gz == z && gzo == zo, "z is %d/%d, expected %d/%d", gz, gzo, z, zo);
      CHECK (d.p->_prop.focusIndex == fi && d.p->_prop.visible == vis && d.p->_prop.debug == dbg, "focus index, visible or debug");
      CHECK (d.p->getDuration () == dur, "duration %lu, expected %lu", d.p->getDuration (), dur);
      CHECK (d.p->_prop.alpha == alpha, "alpha %d, expected %d", d.p->_prop.alpha, alpha);
      CHECK (d.p->getProperty (k) == v, "%s reads %s", k.c_str (), d.p->getProperty (k).c_str ());
    }
  if (r.p (1, 4))
    {
      d.p->resetProperties ();
      NOTE (" reset");
      int gz = -1, gzo = -1;
      d.p->getZ (&gz, &gzo);
      CHECK (gz == 0 && gzo == 0 && d.p->_prop.focusIndex == "" && d.p->_prop.visible && !d.p->_prop.debug && d.p->getDuration () == GINGA_TIME_NONE
                 && d.p->_prop.alpha == 255, "defaults after the reset");
    }
}
static const map<string, pair<int, string> > &
table ()
{
  static map<string, pair<int, string> > t = {
    { "left", { Player::PROP_LEFT, "0" } }, { "right", { Player::PROP_RIGHT, "0%" } }, { "top", { Player::PROP_TOP, "0" } },
    { "bottom", { Player::PROP_BOTTOM, "0%" } }, { "width", { Player::PROP_WIDTH, "100%" } }, { "height", { Player::PROP_HEIGHT, "100%" } },
    { "bounds", { Player::PROP_BOUNDS, "0%,0%,100%,100%" } }, { "location", { Player::PROP_LOCATION, "0,0" } },
    { "size", { Player::PROP_SIZE, "100%,100%" } }, { "duration", { Player::PROP_DURATION, "indefinite" } },
    { "explicitDur", { Player::PROP_DURATION, "indefinite" } }, { "background", { Player::PROP_BACKGROUND, "" } },
    { "backgroundColor", { Player::PROP_BACKGROUND, "" } }, { "soundLevel", { Player::PROP_VOLUME, "100%" } },
    { "volume", { Player::PROP_VOLUME, "100%" } }, { "balanceLevel", { Player::PROP_BALANCE, "0.0" } },
    { "bassLevel", { Player::PROP_BASS, "0" } }, { "trebleLevel", { Player::PROP_TREBLE, "0" } }, { "rate", { Player::PROP_SPEED, "1" } },
    { "zIndex", { Player::PROP_Z_INDEX, "0" } }, { "zOrder", { Player::PROP_Z_ORDER, "0" } }, { "visible", { Player::PROP_VISIBLE, "true" } },
    { "transparency", { Player::PROP_TRANSPARENCY, "0%" } }, { "freq", { Player::PROP_FREQ, "440" } }, { "fontSize", { Player::PROP_FONT_SIZE, "12" } },
    { "", { 0, "" } }, { "zindex", { 0, "" } }, { "Left", { 0, "" } }, { "foo", { 0, "" } } };
  return t;
}
TESTX ("R01", names, 29)
{
  auto it = table ().begin ();
  advance (it, i % table ().size ());
  string dv = "?";
  int c = Player::getPlayerProperty (it->first, &dv);
  NOTE ("%s", q (it->first).c_str ());
  NONTRIVIAL ();
  CHECK (c == it->second.first && dv == it->second.second, "it designates %d with default %s, expected %d, %s", c, q (dv).c_str (), it->second.first,
         q (it->second.second).c_str ());
}
// ---------------------------------------------------------------- R02
TEST ("R02", r02)
{
  Desk d (800, 600);
  Plain &p = *d.p;
  int st = Player::SLEEPING;
  Time t = 0;
  bool eos = false;
  for (int n = r.range (3, 25); n > 0; n--)
    {
      int op = r.n (6);
      bool ok = op == 0 ? st != Player::OCCURRING : op == 1 ? st != Player::SLEEPING : op == 2 ? st == Player::OCCURRING : op == 3 ? st == Player::PAUSED : true;
      static const char *const NM[] = { "start", "stop", "pause", "resume", "inc", "eos" };
      if (!ok && !r.p (1, 40)) continue;
      NOTE (" %s", NM[op]);
      auto doit = [&] {
        switch (op)
          {
          case 0: p.start (); break;
          case 1: p.stop (); break;
          case 2: p.pause (); break;
          case 3: p.resume (); break;
          }
      };
      if (!ok)
        {
          fflush (stdout);
          pid_t c = fork ();
          if (c == 0)
            {
              signal (SIGABRT, SIG_DFL);
              close (2);
              doit ();
              _exit (0);
            }
          int s = 0;
          waitpid (c, &s, 0);
          CHECK (!(WIFEXITED (s) && WEXITSTATUS (s) == 0), "%s is accepted in state %d", NM[op], st);
          continue;
        }
      NONTRIVIAL ();
      Time dt = (Time) r.n (1000000) * 1000;
      int loads = p.loads;
      doit ();
      if (op == 0) { st = Player::OCCURRING; t = 0; eos = false; CHECK (p.loads == loads + 1, "the content is not loaded"); }
      if (op == 1) st = Player::SLEEPING;
      if (op == 2) st = Player::PAUSED;
      if (op == 3) st = Player::OCCURRING;
      if (op == 4 && st != Player::SLEEPING) { p.incTime (dt); t += dt; }
      if (op == 5) { eos = !eos; p.setEOS (eos); }
      CHECK (p.getState () == st, "state %d, expected %d", p.getState (), st);
      CHECK (st == Player::SLEEPING || p.getTime () == t, "clock %lu, expected %lu", p.getTime (), t);
      CHECK (st == Player::SLEEPING || p.getEOS () == eos, "end of content mark");
    }
}
// ---------------------------------------------------------------- R03
static vector<Media *> drawn;
struct Drawn : public Mock
{
  int z = 0, zo = 0;
  bool shown = true;
  explicit Drawn (const string &id) : Mock (id) {}
  bool getZ (int *a, int *b) override
  {
    if (!shown) return false;
    if (a) *a = z;
    if (b) *b = zo;
    return true;
  }
  void redraw (cairo_t *) override { drawn.push_back (this); }
};
struct Painted : public Player
{
  Painted (Formatter *f, Media *m) : Player (f, m) {}
  void redraw (cairo_t *) override { drawn.push_back (_media); }
};
TEST ("R03", r03)
{
  GingaOptions o = opts (40, 30);
  Formatter fmt (&o);
  Document *doc = new Document ();
  map<Media *, pair<int, int> > want;
  vector<pair<Media *, Player *> > real;
  for (int n = r.n (9), k = 0; k < n; k++)
    {
      string id = "m" + to_string (r.n (1000)) + "_" + to_string (k);
      int z = r.p (1, 20) ? (r.p (1, 2) ? G_MAXINT : G_MININT) : r.range (-2, 2), zo = r.p (1, 20) ? G_MININT : r.range (-1, 1);
      if (r.p (1, 2))
        {
          Drawn *m = new Drawn (id);
          doc->getRoot ()->addChild (m);
          m->z = z; m->zo = zo; m->shown = !r.p (1, 6);
          want[m] = m->shown ? make_pair (z, zo) : make_pair (0, 0);
        }
      else
        {
          Media *m = new Media (id);
          doc->getRoot ()->addChild (m);
          m->_player = new Painted (&fmt, m);
          bool awake = !r.p (1, 4);
          m->getLambda ()->_state = awake ? (r.p (1, 3) ? Event::PAUSED : Event::OCCURRING) : Event::SLEEPING;
          m->_player->_prop.zindex = z;
          m->_player->_prop.zorder = zo;
          if (awake) want[m] = { z, zo };
          real.push_back ({ m, m->_player });
        }
      NOTE (" %s(%d/%d)", id.c_str (), z, zo);
    }
  fmt._doc = doc;
  fmt._state = GINGA_STATE_PLAYING;
  drawn.clear ();
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 40, 30);
  cairo_t *cr = cairo_create (s);
  fmt.redraw (cr);
  cairo_destroy (cr);
  cairo_surface_destroy (s);
  string got;
  for (auto m : drawn) got += " " + m->getId ();
  NONTRIVIAL ();
  CHECK (set<Media *> (drawn.begin (), drawn.end ()).size () == drawn.size (), "drawn twice:%s", got.c_str ());
  CHECK (drawn.size () == want.size (), "%zu media drawn of %zu:%s", drawn.size (), want.size (), got.c_str ());
  for (size_t a = 0; a < drawn.size (); a++)
    {
      CHECK (want.count (drawn[a]), "%s is drawn", drawn[a]->getId ().c_str ());
      CHECK (a == 0 || want[drawn[a - 1]] <= want[drawn[a]], "%s is drawn before %s, which lies lower:%s", drawn[a - 1]->getId ().c_str (),
             drawn[a]->getId ().c_str (), got.c_str ());
    }
  for (auto &x : real) { delete x.second; x.first->_player = nullptr; x.first->getLambda ()->_state = Event::SLEEPING; }
  fmt._doc = nullptr;
  fmt._state = GINGA_STATE_STOPPED;
  delete doc;
}
// ---------------------------------------------------------------- G01
static const struct { const char *name, *text; int ok; } FILES[] = {
  { "good.ncl", "<ncl id='d'><head/><body id='b'><port id='p' component='m'/><media id='m'/></body></ncl>", 1 },
  { "two.ncl", "<ncl id='d'><head/><body id='b'><port id='p' component='m'/><port id='q' component='n'/><media id='m'/><media id='n'/></body></ncl>", 1 },
  { "empty.ncl", "<ncl><head/><body/></ncl>", -1 },
  { "rootless.ncl", "<ncl id='d'><head/><body id='b'><media id='m'/></body></ncl>", -1 },
  { "bad.ncl", "<ncl id='d'><head/><body id='b'><port id='p' component='zz'/></body></ncl>", 0 },
  { "notxml.ncl", "<ncl", 0 },
  { "missing.ncl", nullptr, 0 },
};
TEST ("G01", g01)
{
  for (auto &f : FILES)
    if (f.text)
      {
        FILE *o = fopen (f.name, "w");
        CHECK (o, "cannot write %s", f.name);
        fputs (f.text, o);
        fclose (o);
      }
  GingaOptions o = opts (320, 240);
  Formatter fmt (&o);
  bool run = false;
  int known[16];
  memset (known, -1, sizeof known);
  for (int n = r.range (2, 10); n > 0; n--)
    {
      if (r.p (2, 3))
        {
          int k = r.n (sizeof FILES / sizeof *FILES);
          string err;
          Document *before = fmt._doc;
          NOTE (" start(%s)", FILES[k].name);
          NONTRIVIAL ();
          bool ret = fmt.start (FILES[k].name, r.p (1, 2) ? &err : nullptr);
          if (run)
            CHECK (!ret && fmt._doc == before && fmt.getState () == GINGA_STATE_PLAYING, "a second start while running returns %d", ret);
          else
            {
              CHECK (FILES[k].ok < 0 || ret == (FILES[k].ok == 1), "it returns %d", ret);
              CHECK (!ret || (!fmt._eos && fmt._lastTickTotal == 0 && fmt._lastTickDiff == 0 && fmt._lastTickFrameNo == 0), "the presentation does not start afresh");
              CHECK ((fmt.getState () == GINGA_STATE_PLAYING) == ret, "it returns %d but the state is %d", ret, fmt.getState ());
              CHECK ((fmt._doc != nullptr) == ret, "it returns %d but the document is %p", ret, (void *) fmt._doc);
              CHECK (!ret || (fmt._doc->getRoot ()->isOccurring () && fmt._doc->getSettings ()->isOccurring ()), "the presentation does not run");
              run = ret;
            }
        }
      else
        {
          NOTE (" stop");
          NONTRIVIAL ();
          if (run && r.p (1, 2))
            {
              // it has been running for a while
              fmt._lastTickTotal = r.n (1000);
              fmt._lastTickDiff = r.n (1000);
              fmt._lastTickFrameNo = r.n (1000);
              fmt.setEOS (r.p (1, 2));
            }
          bool ret = fmt.stop ();
          CHECK (ret == run, "stop returns %d, running %d", ret, run);
          run = false;
          CHECK (fmt.getState () == GINGA_STATE_STOPPED && !fmt._doc, "it is not stopped");
        }
    }
}
// ---------------------------------------------------------------- G02
struct Got { Object *o; bool key; string k; bool press; Time a, b, c; };
static vector<Got> got;
static function<void (Object *)> effect;
struct Ear : public Mock
{
  explicit Ear (const string &id) : Mock (id) {}
  void sendKey (const string &k, bool p) override { got.push_back ({ this, true, k, p, 0, 0, 0 }); if (effect) effect (this); }
  void sendTick (Time a, Time b, Time c) override { got.push_back ({ this, false, "", false, a, b, c }); if (effect) effect (this); }
};
TEST ("G02", g02)
{
  GingaOptions o = opts (320, 240);
  Formatter fmt (&o);
  Document *doc = new Document ();
  vector<Ear *> ears;
  for (int n = r.n (8), k = 0; k < n; k++)
    {
      Ear *e = new Ear ("e" + to_string (k));
      doc->getRoot ()->addChild (e);
      e->getLambda ()->_state = (Event::State) r.of (vector<int> { Event::OCCURRING, Event::PAUSED, Event::SLEEPING });
      NOTE (" %s:%s", e->getId ().c_str (), STN[e->getLambda ()->_state == Event::OCCURRING ? 0 : e->getLambda ()->_state == Event::PAUSED ? 1 : 2]);
      ears.push_back (e);
    }
  fmt._doc = doc;
  fmt._state = GINGA_STATE_PLAYING;
  // the root is presented, but its own reaction is not of interest here
  doc->getRoot ()->getLambda ()->_state = Event::PAUSED;
  bool deep = r.p (1, 2);
  effect = [&] (Object *) {
    if (!deep || ears.empty ()) return;
    Ear *e = r.of (ears);
    int to = r.of (vector<int> { Event::OCCURRING, Event::PAUSED, Event::SLEEPING });
    e->getLambda ()->_state = (Event::State) to;
  };
  for (int n = r.range (1, 5); n > 0; n--)
    {
      bool key = r.p (1, 2), press = r.p (1, 2);
      string k = r.of ({ "RED", "1", "CURSOR_DOWN" });
      Time a = r.n (1000), b = r.n (1000), c = r.n (1000);
      multiset<Object *> want;
      for (auto e : ears)
        if (key ? e->getLambda ()->_state != Event::SLEEPING : e->getLambda ()->_state == Event::OCCURRING) want.insert (e);
      bool over = r.p (1, 15), stopped = false;
      if (over)
        {
          NOTE (" over");
          if (r.p (1, 2)) fmt.setEOS (true);
          else doc->getRoot ()->getLambda ()->_state = Event::SLEEPING;
          want.clear ();
          for (auto e : ears) e->getLambda ()->_state = Event::SLEEPING;
        }
      else if (r.p (1, 15))
        {
          NOTE (" stopped");
          stopped = true;
          fmt._state = GINGA_STATE_STOPPED;
          fmt._doc = nullptr;
          want.clear ();
        }
      got.clear ();
      NOTE (" %s", key ? "key" : "tick");
      NONTRIVIAL ();
      bool ret = key ? fmt.sendKey (k, press) : fmt.sendTick (a, b, c);
      CHECK (ret == (!over && !stopped), "it returns %d", ret);
      multiset<Object *> have;
      for (auto &g : got)
        {
          have.insert (g.o);
          CHECK (g.key == key && (key ? g.k == k && g.press == press : g.a == a && g.b == b && g.c == c), "%s receives something else", g.o->getId ().c_str ());
        }
      string s;
      for (auto x : have) s += " " + x->getId ();
      CHECK (have == want, "it is received by%s (%zu expected)", s.c_str (), want.size ());
      if (over)
        {
          CHECK (fmt.getState () == GINGA_STATE_STOPPED && !fmt._doc && !fmt.getEOS (), "the presentation is over but it is not stopped");
          return;
        }
      if (stopped) { fmt._state = GINGA_STATE_PLAYING; fmt._doc = doc; }
    }
  effect = nullptr;
  fmt._doc = nullptr;
  fmt._state = GINGA_STATE_STOPPED;
  for (auto e : ears) e->getLambda ()->_state = Event::SLEEPING;
  doc->getRoot ()->getLambda ()->_state = Event::SLEEPING;
  delete doc;
}
// ---------------------------------------------------------------- R04
#include "PlayerImage.h"
#include "PlayerLua.h"
#include "PlayerRemote.h"
#include "PlayerSigGen.h"
#include "PlayerText.h"
#include "PlayerVideo.h"
#include <typeinfo>
#include <gst/gst.h>
TEST ("R04", r04)
{
  static const map<string, string> EXT = {
    { "png", "image/png" }, { "jpg", "image/jpeg" }, { "jpeg", "image/jpeg" }, { "gif", "image/gif" }, { "bmp", "image/bmp" }, { "webp", "image/x-webp" },
    { "svg", "image/svg+xml" }, { "svgz", "image/svg+xml" }, { "avif", "image/avif" }, { "heic", "image/heic" }, { "heif", "image/heic" }, { "bpg", "image/x-bpg" },
    { "txt", "text/plain" }, { "lua", "application/x-ginga-NCLua" }, { "ncl360", "application/x-ncl360" },
    { "mp3", "audio/mp3" }, { "mp2", "audio/mp2" }, { "mpa", "audio/mpa" }, { "ac3", "audio/ac3" }, { "wav", "audio/basic" }, { "oga", "audio/ogg" }, { "ogg", "audio/ogg" },
    { "spx", "audio/ogg" }, { "opus", "audio/ogg" }, { "mp4", "video/mp4" }, { "avi", "video/x-msvideo" }, { "mov", "video/quicktime" }, { "mpeg", "video/mpeg" },
    { "mpg", "video/mpeg" }, { "mpv", "video/mpv" }, { "ogv", "video/ogg" }, { "ts", "video/mpeg" }, { "wmv", "video/x-ms-wmv" },
    { "htm", "text/html" }, { "html", "text/html" }, { "css", "text/css" }, { "xml", "text/xml" }, { "srt", "text/srt" }, { "smil", "application/smil" },
    { "ssml", "application/ssml+xml" }, { "class", "application/x-ginga-NCLet" }, { "xlet", "application/x-ginga-NCLet" }, { "xlt", "application/x-ginga-NCLet" } };
  static vector<string> ext, types = { "", "", "", "image/png", "image", "image/svg+xml", "text/plain", "text/plainer", "text/html", "audio/x", "video/x", "audio", "videos",
                                       "application/x-ginga-siggen", "application/x-ginga-NCLua", "application/x-ginga-timer", "application/x-foo", "Image/png", "application/x-ncl360" };
  static int video = -1;
  static GingaOptions o = opts (100, 100);
  static Formatter fmt (&o);
  if (ext.empty ()) { for (auto &x : EXT) ext.push_back (x.first); for (auto s : { "PNG", "foo", "" }) ext.push_back (s); }
  if (video < 0)
    {
      gst_init (nullptr, nullptr);
      GstElementFactory *f = gst_element_factory_find ("playbin");
      video = f != nullptr;
      if (f) gst_object_unref (f);
    }
  string type = r.of (types), uri = r.p (1, 5) ? "" : r.of ({ "file:///x/a", "a", "a.b", "", "http://h/x.png/y", ".", "a.tar." });
  if (uri != "" && r.p (4, 5)) uri += "." + r.of (ext);
  string dev = r.p (1, 8) ? "systemScreen(1)" : "";
  Document doc;
  Media *m = new Media ("m");
  if (dev != "") m->setProperty ("device", dev);
  if (type != "" && r.p (1, 2)) m->setProperty ("type", type);
  bool prop = false;
  string decl = m->getProperty ("type");
  doc.getRoot ()->addChild (m);
  NOTE (" type %s uri %s device %s", q (type).c_str (), q (uri).c_str (), q (dev).c_str ());
  auto known = [&] (const string &u) -> string {
    size_t i = u.rfind ('.');
    if (i == string::npos) return "";
    auto it = EXT.find (u.substr (i + 1));
    return it == EXT.end () ? "" : it->second;
  };
  string mime = type != "" ? type : uri != "" ? known (uri) : "";
  if (mime == "") mime = "application/x-ginga-timer";
  auto begins = [&] (const char *s) { return mime.compare (0, strlen (s), s) == 0; };
  bool remote = dev != "" || decl == "application/x-ncl360";
  const type_info *want = begins ("audio") || begins ("video") ? &typeid (PlayerVideo) : mime == "application/x-ginga-siggen" ? &typeid (PlayerSigGen)
      : begins ("image") ? &typeid (PlayerImage) : mime == "text/plain" ? &typeid (PlayerText) : remote ? &typeid (PlayerRemote)
      : mime == "application/x-ginga-NCLua" ? &typeid (PlayerLua) : &typeid (Player);
  (void) prop;
  if (*want == typeid (PlayerVideo) && (!video || r.p (19, 20))) return;      // slow to make
  if (*want == typeid (PlayerSigGen) && (!video || r.p (19, 20))) return;
  if (*want == typeid (PlayerRemote) || *want == typeid (PlayerLua)) NONTRIVIAL ();
  Player *p = Player::createPlayer (&fmt, m, uri, type);
  CHECK (p != nullptr, "no player is made");
  CHECK (typeid (*p) == *want, "a %s is made, expected a %s", typeid (*p).name (), want->name ());
  CHECK (m->getProperty ("type") == mime, "the type is recorded as %s, expected %s", q (m->getProperty ("type")).c_str (), q (mime).c_str ());
  CHECK (p->_media == m && p->_formatter == &fmt, "the player belongs to another media object");
  if (*want != typeid (PlayerRemote)) delete p;
  NONTRIVIAL ();
}
