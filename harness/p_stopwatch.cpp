// C27: profiling statistics against a reference model, on a virtual clock.
#include <sys/time.h>

#include "util.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
using namespace crocoddyl;

// ---- the virtual clock: microseconds since the epoch, and CPU microseconds --------------------------
static int64_t v_real = 0, v_cpu = 0;
static bool v_on = false;
extern "C" {
clock_t clock(void) { return (clock_t)v_cpu; }
int gettimeofday(struct timeval* tv, void*) {
  tv->tv_sec = v_real / 1000000;
  tv->tv_usec = v_real % 1000000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* t) {
  if (!v_on) return (int)syscall(SYS_clock_gettime, id, t);
  int64_t v = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? v_cpu : v_real;
  t->tv_sec = v / 1000000;
  t->tv_nsec = v % 1000000 * 1000;
  return 0;
}
}
struct NullBuf : std::streambuf {
  int overflow(int c) { return c; }
};

struct Ref {  // one profiled section
  bool exists = false, running = false;
  int64_t start = 0;
  std::vector<double> laps;  // completed intervals (s), each without its paused segments
  bool paused_used = false;  // an interval since the last reset was paused
  double seg = 0;            // accumulated segments of the current interval
  double total = 0;
};

static void histories(mc::Ctx& c) {
  static NullBuf nb;
  std::streambuf* old = std::cout.rdbuf(&nb);
  struct Restore {
    std::streambuf* o;
    ~Restore() {
      std::cout.rdbuf(o);
      v_on = false;
    }
  } restore{old};
  v_on = true;
  v_real = 1700000000999990ll;
  v_cpu = 999990;
  const bool cpu = c.flip("cpu mode");
  const bool watcher = c.flip("watcher interface");
  Stopwatch sw(cpu ? CPU_TIME : REAL_TIME);
  sw.enable_profiler();
  const char* names[2] = {"alpha", "beta"};
  std::vector<Stopwatch::Watcher> ws;
  Ref ref[2];
  bool active = true, profiling = true;
  if (watcher) {
    for (int i = 0; i < 2; ++i) {
      ws.push_back(sw.watcher(names[i]));
      ref[i].exists = true;
    }
  }
  auto t = [&] { return cpu ? v_cpu : v_real; };
  const size_t depth = c.thorough ? 7 : 6;
  std::string h = cpu ? "cpu" : "real";
  for (size_t d = 0; d < depth; ++d) {
    static const int64_t ADV[] = {17, 1250003, 0};
    int64_t adv = ADV[c.choose(d == 0 ? 1 : 2, "advance")];
    v_real += adv;
    v_cpu += adv;
    enum { START, STOP, PAUSE, RESET, RESET_ALL, SWITCH, UNKNOWN, PROFILER, NOPS };
    std::vector<std::pair<int, int>> ops;
    for (int i = 0; i < 2; ++i) {
      Ref& r = ref[i];
      if (!r.running) ops.push_back({START, i});
      if (r.running || !active || !profiling) ops.push_back({STOP, i});
      if (!watcher && r.running) ops.push_back({PAUSE, i});
      if (r.exists && (r.running || !r.laps.empty())) ops.push_back({RESET, i});
      if (!r.exists && active && i == 0) ops.push_back({UNKNOWN, i});
    }
    ops.push_back({RESET_ALL, 0});
    if (!watcher) ops.push_back({SWITCH, 0});
    if (watcher) ops.push_back({PROFILER, 0});
    auto o = ops[c.choose(ops.size(), "op")];
    Ref& r = ref[o.second];
    const std::string n = names[o.second];
    h += mc::strf(" +%ldus:%d/%s", (long)adv, o.first, n.c_str());
    c.op("+%ldus op%d %s", (long)adv, o.first, n.c_str());
    const bool eff = active && (!watcher || profiling);
    switch (o.first) {
      case START:
        if (watcher) ws[o.second].start();
        else sw.start(n);
        if (eff) {
          r.exists = r.running = true;
          r.start = t();
        }
        break;
      case STOP:
        if (!r.exists && eff) break;
        if (watcher) ws[o.second].stop();
        else sw.stop(n);
        if (eff && r.running) {
          double seg = (t() - r.start) * 1e-6;
          r.total += seg;
          r.laps.push_back(r.seg + seg);
          r.seg = 0;
          r.running = false;
        }
        break;
      case PAUSE:
        sw.pause(n);
        if (eff) {
          double seg = (t() - r.start) * 1e-6;
          r.total += seg;
          r.seg += seg;
          r.running = false;  // must be restarted before it is stopped
          r.paused_used = true;
        }
        break;
      case RESET:
        sw.reset(n);
        if (active) {
          r = Ref();
          r.exists = true;
        }
        break;
      case RESET_ALL:
        sw.reset_all();
        if (active)
          for (int i = 0; i < 2; ++i) {
            bool e = ref[i].exists;
            ref[i] = Ref();
            ref[i].exists = e;
          }
        break;
      case SWITCH:
        if (active) sw.turn_off();
        else sw.turn_on();
        active = !active;
        break;
      case PROFILER:
        if (profiling) sw.disable_profiler();
        else sw.enable_profiler();
        profiling = !profiling;
        break;
      case UNKNOWN: {
        auto refused = [&](std::function<void()> f) {
          try {
            f();
          } catch (StopwatchException&) {
            return true;
          }
          return false;
        };
        c.check(refused([&] { sw.stop(n); }) && refused([&] { sw.pause(n); }) && refused([&] { sw.reset(n); }) &&
                    refused([&] { sw.get_total_time(n); }) && refused([&] { sw.get_min_time(n); }) &&
                    refused([&] { sw.get_max_time(n); }) && refused([&] { sw.get_last_time(n); }) &&
                    refused([&] { sw.get_average_time(n); }),
                "stopwatch:unknown-accepted", h);
        break;
      }
    }
    uint64_t hs = 11;
    std::ostringstream all;
    if (active) sw.report_all(9, all);
    for (int i = 0; i < 2; ++i) {
      Ref& q = ref[i];
      const std::string m = names[i];
      c.check(sw.performance_exists(m) == q.exists, "stopwatch:exists", h + " " + m);
      if (!q.exists) continue;
      const double tol = 1e-9;
      auto eq = [&](double a, double b) { return std::fabs(a - b) <= tol; };
      double tot = (double)sw.get_total_time(m);
      c.check(eq(tot, q.total), "stopwatch:total", h + mc::strf(" total of %s is %.9f, not %.9f", m.c_str(), tot, q.total));
      hs = mc::mix(hs, (uint64_t)llround(tot * 1e7));
      if (q.running) {
        double so = (double)sw.get_time_so_far(m);
        c.check(eq(so, (t() - q.start) * 1e-6), "stopwatch:so-far", h + mc::strf(" so far %.9f", so));
      }
      const bool reported = all.str().find(m) != std::string::npos;
      if (active) c.check(reported == !q.laps.empty(), "stopwatch:report-all", h + " lists " + all.str());
      if (q.laps.empty()) continue;
      double mn = 1e300, mx = -1, av = tot / q.laps.size();
      for (double l : q.laps) {
        mn = std::min(mn, l);
        mx = std::max(mx, l);
      }
      c.check(eq((double)sw.get_average_time(m), av), "stopwatch:average",
              h + mc::strf(" average of %s is %.9Lf, not %.9f", m.c_str(), sw.get_average_time(m), av));
      if (!q.paused_used) {
        c.check(eq((double)sw.get_last_time(m), q.laps.back()), "stopwatch:last",
                h + mc::strf(" last of %s is %.9Lf, not %.9f", m.c_str(), sw.get_last_time(m), q.laps.back()));
        c.check(eq((double)sw.get_min_time(m), mn), "stopwatch:min",
                h + mc::strf(" min of %s is %.9Lf, not %.9f", m.c_str(), sw.get_min_time(m), mn));
        c.check(eq((double)sw.get_max_time(m), mx), "stopwatch:max",
                h + mc::strf(" max of %s is %.9Lf, not %.9f", m.c_str(), sw.get_max_time(m), mx));
        hs = mc::mix(hs, (uint64_t)llround(mn * 1e7));
      }
      if (active) {
        std::ostringstream os;
        sw.report(m, 9, os);
        std::istringstream is(os.str());
        std::string nm;
        double rmn, rav, rmx, rl, rn, rt;
        is >> nm >> rmn >> rav >> rmx >> rl >> rn >> rt;
        bool ok = (bool)is && nm == m && (size_t)rn == q.laps.size() && std::fabs(rt - tot * 1e3) < 1e-6 &&
                  std::fabs(rav - av * 1e3) < 1e-6;
        if (!q.paused_used)
          ok = ok && std::fabs(rmn - mn * 1e3) < 1e-6 && std::fabs(rmx - mx * 1e3) < 1e-6 &&
               std::fabs(rl - q.laps.back() * 1e3) < 1e-6;
        c.check(ok, "stopwatch:report", h + " reports " + os.str());
      }
      hs = mc::mix(hs, q.laps.size());
    }
    c.state(mc::mix(hs, active * 2 + profiling));
  }
  c.outcome(mc::strf("laps=%zu/%zu", ref[0].laps.size(), ref[1].laps.size()));
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("histories", histories);
  return e.main(argc, argv);
}
