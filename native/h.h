// Native replay harness: runs the real code of /repo/lib against an oracle written from the property statements.
// Usage: <harness> PROP SEED N [CASE]    (CASE: replay just that case)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/time.h>
#include "aux-ginga.h"
#include "ginga.h"
#include "Composition.h"
#include "Context.h"
#include "Document.h"
#include "Event.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Object.h"
#include "Player.h"
#include "PlayerAnimator.h"
#include "Predicate.h"
#include "Switch.h"

using namespace std;
using namespace ginga;

struct Rng
{
  uint64_t s;
  explicit Rng (uint64_t a, uint64_t b = 0) : s (a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 1) { u (); u (); }
  uint64_t u ()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int n (int k) { return k <= 0 ? 0 : (int) (u () % (uint64_t) k); }
  int range (int a, int b) { return a + n (b - a + 1); }
  bool p (int num, int den) { return n (den) < num; }
  template <class T> const T &of (const vector<T> &v) { return v[n ((int) v.size ())]; }
  string of (initializer_list<const char *> l) { return *(l.begin () + n ((int) l.size ())); }
};

namespace H {
extern string prop;
extern char buf[1 << 16];
extern long cas;
extern bool nontriv;
void note (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] void fail (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
typedef function<void (Rng &, long)> Fn;
struct Test { Fn fn; long max; };      // max: size of an exhaustive space, or -1
map<string, vector<Test> > &tests ();
struct Reg { Reg (const char *p, Fn f, long max = -1) { tests ()[p].push_back ({ f, max }); } };
}
#define TEST(P, NAME) static void NAME (Rng &r, long i); static H::Reg reg_##NAME (P, NAME); static void NAME (Rng &r, long i)
#define TESTX(P, NAME, MAX) static void NAME (Rng &r, long i); static H::Reg reg_##NAME (P, NAME, MAX); static void NAME (Rng &r, long i)
#define CHECK(c, ...) do { if (!(c)) H::fail (__VA_ARGS__); } while (0)
#define NOTE H::note
#define NONTRIVIAL() (H::nontriv = true)
static const char *const TRN[] = { "abort", "pause", "resume", "start", "stop" };
static const char *const STN[] = { "occurring", "paused", "sleeping" };
static const char *const TYN[] = { "attribution", "presentation", "selection", "lookat" };
#define NONE GINGA_TIME_NONE

// an object that records what its events ask and answers as told
struct Rec { Event *e; int t; bool before; int state; };
struct Mock : public Media
{
  vector<Rec> log;
  vector<Rec> *glog = nullptr;
  function<bool (Event *, int)> onBefore, onAfter;
  bool life = true; // do the standard bookkeeping
  explicit Mock (const string &id) : Media (id) {}
  ~Mock () { getLambda ()->reset (); }
  bool beforeTransition (Event *e, Event::Transition t) override
  {
    Rec x = { e, t, true, e->getState () };
    log.push_back (x);
    if (glog) glog->push_back (x);
    return onBefore ? onBefore (e, t) : true;
  }
  bool afterTransition (Event *e, Event::Transition t) override
  {
    Rec x = { e, t, false, e->getState () };
    log.push_back (x);
    if (glog) glog->push_back (x);
    if (life && e->isLambda ())
      {
        if (t == Event::START) Object::doStart ();
        if (t == Event::STOP || t == Event::ABORT) Object::doStop ();
      }
    return onAfter ? onAfter (e, t) : true;
  }
  void doStop () override { if (life && !isSleeping ()) Object::doStop (); }
  void sendTick (Time a, Time b, Time c) override { Object::sendTick (a, b, c); }
  void setProperty (const string &n, const string &v, Time d = 0) override { Object::setProperty (n, v, d); }
  using Object::doStart;
};
static inline string q (const string &s)
{
  string o = "\"";
  char b[8];
  for (unsigned char c : s)
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf (b, sizeof b, "\\x%02x", c); o += b; }
    else o += c;
  return o + "\"";
}
