#include "h.h"
#include <cstdarg>
#include <chrono>

namespace H {
string prop;
char buf[1 << 16];
static size_t blen;
long cas = -1;
static int testno;
bool nontriv;
static uint64_t seed0;

map<string, vector<Test> > &
tests ()
{
  static map<string, vector<Test> > t;
  return t;
}

void
note (const char *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (buf + blen, sizeof buf - blen, fmt, ap);
  va_end (ap);
  if (n > 0)
    blen = min (sizeof buf - 1, blen + (size_t) n);
}

static void
report (const char *kind, const char *msg)
{
  static char out[1 << 17];
  int n = snprintf (out, sizeof out, "\n%s prop=%s seed=%llu test=%d case=%ld\nINPUT %s\nWHAT %s\n", kind, prop.c_str (),
                    (unsigned long long) seed0, testno, cas, buf, msg);
  if (n > 0)
    (void) !write (1, out, (size_t) min (n, (int) sizeof out - 1));
}

void
fail (const char *fmt, ...)
{
  static char msg[1 << 14];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (msg, sizeof msg, fmt, ap);
  va_end (ap);
  report ("FAILCASE", msg);
  _exit (3);
}
}

static void
onsig (int s)
{
  H::report ("FAILCASE", s == SIGALRM ? "the operation does not end" : s == SIGABRT ? "the program aborts (assertion or memory error)"
                                                                                     : "the program crashes");
  _exit (4);
}

extern "C" const char *
__asan_default_options ()
{
  return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0";
}
extern "C" const char *
__ubsan_default_options ()
{
  return "halt_on_error=0:print_stacktrace=0";
}

int
main (int argc, char **argv)
{
  using namespace H;
  if (argc < 4)
    return 2;
  prop = argv[1];
  seed0 = strtoull (argv[2], 0, 10);
  double secs = strtod (argv[3], 0);
  long only = argc > 5 ? atol (argv[5]) : -1;
  int onlytest = argc > 5 ? atoi (argv[4]) : -1;
  unsetenv ("G_MESSAGES_DEBUG");
  for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP })
    signal (s, onsig);
  int dn = open ("/dev/null", O_WRONLY);
  if (only < 0)
    dup2 (dn, 2);
  long evals = 0, non = 0, distinct = 0;
  unordered_set<string> seen;
  vector<string> samples;
  bool exhaustive = true;
  auto it = tests ().find (prop);
  if (it == tests ().end ())
    return 2;
  auto t0 = chrono::steady_clock::now ();
  auto now = [&] { return chrono::duration<double> (chrono::steady_clock::now () - t0).count (); };
  int nt = (int) it->second.size ();
  for (int t = 0; t < nt; t++)
    {
      testno = t;
      Test &T = it->second[t];
      if (T.max < 0)
        exhaustive = false;
      double lim = secs * (t + 1) / nt;
      for (long i = 0; T.max < 0 || i < T.max; i++)
        {
          if (onlytest >= 0 && (t != onlytest || (only >= 0 && i > only)))
            break;
          if (only >= 0 && i < only)
            i = only;
          if (only < 0 && now () > lim && (T.max < 0 ? i >= 20 : true))
            {
              if (T.max >= 0)
                exhaustive = false;
              break;
            }
          cas = i;
          blen = 0;
          buf[0] = 0;
          nontriv = false;
          Rng r (seed0 * 1000003 + t, (uint64_t) i);
          alarm (30);
          T.fn (r, i);
          alarm (0);
          evals++;
          if (nontriv)
            {
              non++;
              if (seen.size () < 2000000 && seen.insert (string (buf)).second)
                distinct++;
            }
          if (samples.size () < 6 && (i == 0 || i == 7 || i == 19))
            samples.push_back (string (buf).substr (0, 400));
        }
    }
  printf ("STATS evals=%ld distinct=%ld exhaustive=%d tests=%d\n", evals, distinct, exhaustive ? 1 : 0, nt);
  for (auto &s : samples)
    printf ("SAMPLE %s\n", q (s).c_str ());
  fflush (stdout);
  _exit (0);
}

// what the missing libraries would provide
extern "C" {
#include "ncluaw.h"
ncluaw_t *ncluaw_open (const char *, int, int, char **) { return nullptr; }
void ncluaw_close (ncluaw_t *) {}
void ncluaw_cycle (ncluaw_t *) {}
void *ncluaw_debug_get_surface (ncluaw_t *) { return nullptr; }
ncluaw_event_t *ncluaw_receive (ncluaw_t *) { return nullptr; }
void ncluaw_event_free (ncluaw_event_t *) {}
void ncluaw_send_ncl_event (ncluaw_t *, const char *, const char *, const char *, const char *) {}
void ncluaw_send_key_event (ncluaw_t *, const char *, const char *) {}
}
extern "C" {
#include <libgssdp/gssdp.h>
GSSDPClient *gssdp_client_new (const char *, GError **) { return nullptr; }
void gssdp_client_set_server_id (GSSDPClient *, const char *) {}
const char *gssdp_client_get_host_ip (GSSDPClient *) { return "127.0.0.1"; }
gboolean gssdp_client_get_active (GSSDPClient *) { return FALSE; }
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *) { return nullptr; }
unsigned gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *, const char *, const char *) { return 0; }
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean) {}
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *) { return FALSE; }
}
