// A small stateless model checker for the real code.
//
// A check is a set of sections; a section is a closed driver `void body(mc::Ctx&)` that runs the real
// library and takes every decision (which operation, which argument, whether a fault strikes here,
// which thread runs next) from Ctx::choose / Ctx::deviate.  The explorer enumerates *all* decision
// sequences: it executes the body once per leaf of the decision tree, replaying a prefix and then
// taking alternative 0, and pushes every untaken alternative of that run.  deviate() points cost one
// unit of a deviation budget when a non-default alternative is taken.
//
// The tree is explored by forked workers that share subtrees through a queue in shared memory.  A
// worker's current decision vector lives in shared memory as well, so that a crash, an abort
// (libstdc++/Eigen assertion) or a hang is attributed to its decision vector.  A violation is replayed
// in a fresh process before it is reported.
#ifndef MC_HPP
#define MC_HPP
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>

namespace mc {

// None of these derives from std::exception: the code under test catches std::exception.
struct Violation {
  std::string key, msg;
};
struct Prune {};

typedef std::vector<uint16_t> Choices;

inline std::string strf(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 31;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ (h >> 29);
}
inline uint64_t hash_bytes(uint64_t h, const void* p, size_t n) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (; n >= 8; n -= 8, c += 8) {
    uint64_t v;
    memcpy(&v, c, 8);
    h = mix(h, v);
  }
  uint64_t v = 0;
  memcpy(&v, c, n);
  return mix(h, v + n);
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(0x1234, s.data(), s.size()); }
template <class M>
uint64_t hash_mat(uint64_t h, const M& m) {
  h = mix(h, (uint64_t)m.rows() * 1009 + m.cols());
  for (Eigen::Index j = 0; j < m.cols(); ++j)
    for (Eigen::Index i = 0; i < m.rows(); ++i) {
      double d = (double)m(i, j);
      if (d == 0) d = 0;  // -0 == 0
      h = hash_bytes(h, &d, 8);
    }
  return h;
}

enum { MAXC = 4096 };
struct Slot {  // one per worker, shared
  volatile int status;  // 0 idle, 1 running, 2 violation, 3 hang, 4 divergence, 5 finished
  volatile uint64_t execs;
  volatile int n;
  uint16_t c[MAXC];
  char key[256];
  char msg[3072];
  char label[256];
  int nfirst, nlast;
  uint16_t first[MAXC], last[MAXC];
};
struct Shared {
  pthread_mutex_t mu;
  volatile int stop;
  volatile int idle;
  volatile int queued;
  volatile int truncated;
  volatile size_t qbeg, qend;  // byte offsets in queue arena
  Slot slot[64];
  uint16_t arena[1 << 24];
};

class Ctx {
 public:
  Choices prefix;
  Choices taken;
  std::vector<uint16_t> width;
  std::vector<uint8_t> costly;
  int budget = 0;
  int used = 0;
  bool thorough = false;
  bool tracing = false;
  std::vector<std::string> trace;
  uint64_t ops = 0;
  uint64_t obs = 0x51ed;  // hash of everything observed: two runs of one decision vector must agree
  std::vector<uint64_t> states;
  std::vector<std::string> outcomes;
  Slot* slot = nullptr;

  // Free choice among n alternatives.
  size_t choose(size_t n, const char* label) { return point(n, label, false); }
  // Alternative 0 is the default environment answer; any other costs one deviation.
  size_t deviate(size_t n, const char* label) {
    if (used >= budget) return 0;
    size_t c = point(n, label, true);
    if (c) ++used;
    return c;
  }
  template <class T>
  T pick(std::initializer_list<T> l, const char* label) {
    return *(l.begin() + choose(l.size(), label));
  }
  bool flip(const char* label) { return choose(2, label) != 0; }

  void op(const char* fmt, ...) {
    ++ops;
    if (slot) {
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(slot->label, sizeof slot->label, fmt, ap);
      va_end(ap);
    }
    if (tracing) {
      char b[2048];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(b, sizeof b, fmt, ap);
      va_end(ap);
      trace.push_back(b);
    }
  }
  void note(const char* fmt, ...) {
    if (!tracing) return;
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    trace.push_back(std::string("    ") + b);
  }
  void state(uint64_t h) {
    obs = mix(obs, h);
    states.push_back(h);
  }
  void outcome(const std::string& s) {
    obs = mix(obs, hash_str(s));
    outcomes.push_back(s);
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  // a stage may judge some of a harness's oracles only (--keys): the others belong to another property
  static std::set<std::string>& keys() {
    static std::set<std::string> s;
    return s;
  }
  static bool judged(const std::string& key) { return keys().empty() || keys().count(key); }
  void check(bool ok, const std::string& key, const std::string& msg) {
    if (!ok && judged(key)) fail(key, msg);
  }
  // fail, unless it is a listed finding: then the execution goes on
  std::set<std::string> known_hits;
  static std::set<std::string>& listed() {
    static std::set<std::string> s;
    return s;
  }
  void report(const std::string& key, const std::string& msg) {
    if (!judged(key)) return;
    if (!listed().count(key)) fail(key, msg);
    known_hits.insert(key);
  }
  [[noreturn]] void prune() { throw Prune(); }

 private:
  size_t point(size_t n, const char* label, bool cost) {
    if (n == 0) throw Violation{"internal", std::string("empty choice ") + label};
    size_t i = taken.size(), c = 0;
    if (i < prefix.size()) {
      c = prefix[i];
      if (c >= n) throw Violation{"internal:divergence", std::string("replay diverged at ") + label};
    }
    if (i >= MAXC) throw Violation{"internal:depth", "more than MAXC choices"};
    taken.push_back((uint16_t)c);
    width.push_back((uint16_t)n);
    costly.push_back(cost);
    if (slot) {
      slot->c[i] = (uint16_t)c;
      slot->n = (int)i + 1;
    }
    if (tracing && n > 1) trace.push_back(strf("  ? %s = %zu/%zu", label, c, n));
    return c;
  }
};

// Ctx::check with a lazily formatted message
#define CHECK(c, cond, key, ...)                     \
  do {                                               \
    if (!(cond) && (c).judged(key)) (c).fail(key, mc::strf(__VA_ARGS__)); \
  } while (0)

struct Section {
  std::string name;
  std::function<void(Ctx&)> body;
  int budget_quick, budget_thorough;
};

struct Options {
  std::string prop = "?";
  bool thorough = false;
  int jobs = 8;
  double deadline = 600;
  double exec_limit = 60;
  std::string out, known, replay_dir = ".", replay, only, keys, stage = "0";
};

class Explorer;
inline Options& options() {
  static Options o;
  return o;
}
inline volatile sig_atomic_t& hang_flag() {
  static volatile sig_atomic_t f = 0;
  return f;
}
inline Slot*& cur_slot() {
  static Slot* s = nullptr;
  return s;
}
inline void on_prof(int) {
  if (cur_slot()) cur_slot()->status = 3;
  _exit(77);
}
inline double now() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);  // harnesses may virtualise the libc function
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      o += strf("\\u%04x", c);
    } else
      o += c;
  }
  return o;
}

class Explorer {
 public:
  std::vector<Section> sections;
  std::string rule;
  void add(const std::string& name, std::function<void(Ctx&)> body, int bq = 0, int bt = -1) {
    sections.push_back(Section{name, body, bq, bt < 0 ? bq : bt});
  }

  int main(int argc, char** argv) {
    Options& o = options();
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--prop") o.prop = val();
      else if (a == "--thorough") o.thorough = true;
      else if (a == "--jobs") o.jobs = atoi(val().c_str());
      else if (a == "--deadline") o.deadline = atof(val().c_str());
      else if (a == "--exec-limit") o.exec_limit = atof(val().c_str());
      else if (a == "--out") o.out = val();
      else if (a == "--known") o.known = val();
      else if (a == "--replay-dir") o.replay_dir = val();
      else if (a == "--replay") o.replay = val();
      else if (a == "--only") o.only = val();
      else if (a == "--stage") o.stage = val();
      else if (a == "--keys") o.keys = val();
    }
    if (o.jobs > 60) o.jobs = 60;
    if (!o.only.empty()) {
      const std::set<std::string> names = split(o.only);
      std::vector<Section> s;
      for (auto& x : sections)
        if (names.count(x.name)) s.push_back(x);
      if (s.empty()) {
        fprintf(stderr, "no such section\n");
        return 4;
      }
      sections = s;
    }
    Ctx::keys() = split(o.keys);
    load_known();
    if (!o.replay.empty()) return replay_file(o.replay);
    return explore();
  }

 private:
  std::set<std::string> known_;
  Shared* sh_ = nullptr;

  static std::set<std::string> split(const std::string& l) {
    std::set<std::string> s;
    std::istringstream in(l);
    for (std::string w; std::getline(in, w, ',');) s.insert(w);
    return s;
  }
  void load_known() {  // lines: KNOWN property=<id> key=<key> ...   (fixed: lines suppress nothing)
    std::ifstream f(options().known);
    std::string l, tag = "known: property=" + options().prop + " key=";
    while (std::getline(f, l))
      if (l.compare(0, tag.size(), tag) == 0) {
        std::string k = l.substr(tag.size());
        known_.insert(k.substr(0, k.find(' ')));
        Ctx::listed() = known_;
      }
  }

  // one execution; returns 0 ok, 1 pruned, 2 violation
  int run(Ctx& x, Violation& v) {
    try {
      size_t s = x.choose(sections.size(), "section");
      x.budget = x.thorough ? sections[s].budget_thorough : sections[s].budget_quick;
      sections[s].body(x);
    } catch (Violation& e) {
      v = e;
      return 2;
    } catch (Prune&) {
      return 1;
    } catch (std::exception& e) {
      v = Violation{"unexpected-exception", std::string("uncaught exception: ") + e.what()};
      return 2;
    }
    if (x.taken.size() < x.prefix.size()) {
      v = Violation{"internal:divergence", "replay consumed fewer choices than its prefix"};
      return 2;
    }
    return 0;
  }

  void arm(double s) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long)s;
    t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
  }

  struct Stats {
    uint64_t execs = 0, pruned = 0, ops = 0, choices = 0, maxdepth = 0, twice = 0, known = 0;
    std::map<std::string, uint64_t> outcomes, sec, knownkeys;
    std::unordered_set<uint64_t> states;
  };

  void worker(int id, const std::string& tmp) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Slot& sl = sh_->slot[id];
    cur_slot() = &sl;
    signal(SIGPROF, on_prof);
    Stats st;
    std::vector<Choices> stack;
    double t0 = now();
    sl.nfirst = sl.nlast = -1;
    while (true) {
      if (sh_->stop) break;
      Choices p;
      if (stack.empty()) {
        if (!take(p)) break;
      } else {
        p.swap(stack.back());
        stack.pop_back();
      }
      if (now() - t0 > options().deadline) {
        sh_->truncated = 1;
        break;
      }
      Ctx x;
      x.thorough = options().thorough;
      x.prefix = p;
      x.slot = &sl;
      sl.n = 0;
      sl.label[0] = 0;
      sl.status = 1;
      arm(options().exec_limit);
      Violation v;
      int r = run(x, v);
      // determinism: the same decision vector must produce the same observations
      if (r == 0 && (st.execs < 20 || st.execs % 499 == 0)) {
        Ctx y;
        y.thorough = x.thorough;
        y.prefix = x.taken;
        y.slot = &sl;
        Violation w;
        int q = run(y, w);
        ++st.twice;
        if (q != r || y.obs != x.obs || y.taken != x.taken) {
          r = 2;
          v = q == 2 ? w : Violation{"nondeterministic", "two runs of one decision vector differ"};
        }
      }
      arm(0);
      sl.status = 0;
      // push the untaken alternatives, deepest last (explored first)
      int used = 0;
      for (size_t i = 0; i < p.size() && i < x.taken.size(); ++i) used += x.costly[i] && x.taken[i];
      for (size_t i = p.size(); i < x.taken.size(); ++i) {
        for (size_t a = x.width[i]; a-- > 1;) {
          // x.taken[j]==0 for all p.size() <= j, so the cost so far is `used`
          if (x.costly[i] && used + 1 > x.budget) continue;
          Choices c(x.taken.begin(), x.taken.begin() + i);
          c.push_back((uint16_t)a);
          stack.push_back(c);
        }
      }
      st.choices += x.taken.size();
      st.maxdepth = std::max<uint64_t>(st.maxdepth, x.taken.size());
      if (r == 2 && known_.count(v.key)) {
        ++st.known;
        ++st.knownkeys[v.key];
        ++st.execs;
        r = 0;
      } else if (r == 2) {
        snprintf(sl.key, sizeof sl.key, "%s", v.key.c_str());
        snprintf(sl.msg, sizeof sl.msg, "%s", v.msg.c_str());
        sl.n = (int)x.taken.size();
        for (int i = 0; i < sl.n; ++i) sl.c[i] = x.taken[i];
        sl.status = 2;
        sh_->stop = 1;
        _exit(0);
      } else if (r == 1) {
        ++st.pruned;
      } else {
        ++st.execs;
      }
      sl.execs = st.execs;
      st.ops += x.ops;
      if (!x.taken.empty()) ++st.sec[sections[x.taken[0]].name];
      for (auto h : x.states)
        if (st.states.size() < 4000000) st.states.insert(h);
      for (auto& s : x.outcomes) ++st.outcomes[s];
      for (auto& k : x.known_hits) ++st.known, ++st.knownkeys[k];
      if (r == 0) {
        if (sl.nfirst < 0) {
          sl.nfirst = (int)x.taken.size();
          std::copy(x.taken.begin(), x.taken.end(), sl.first);
        }
        sl.nlast = (int)x.taken.size();
        std::copy(x.taken.begin(), x.taken.end(), sl.last);
      }
      if (sh_->idle > sh_->queued && stack.size() > 1) donate(stack);
    }
    FILE* f = fopen(strf("%s.%d", tmp.c_str(), id).c_str(), "wb");
    fprintf(f, "%llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)st.execs, (unsigned long long)st.pruned,
            (unsigned long long)st.ops, (unsigned long long)st.choices, (unsigned long long)st.maxdepth,
            (unsigned long long)st.twice, (unsigned long long)st.known);
    auto dump = [&](std::map<std::string, uint64_t>& m) {
      fprintf(f, "%zu\n", m.size());
      for (auto& k : m) fprintf(f, "%llu %s\n", (unsigned long long)k.second, k.first.c_str());
    };
    dump(st.outcomes);
    dump(st.sec);
    dump(st.knownkeys);
    fprintf(f, "%zu\n", st.states.size());
    for (auto h : st.states) fwrite(&h, 8, 1, f);
    fclose(f);
    sl.status = 5;
    _exit(0);
  }

  void donate(std::vector<Choices>& stack) {
    pthread_mutex_lock(&sh_->mu);
    size_t cap = sizeof(sh_->arena) / 2;
    if (sh_->qbeg == sh_->qend) sh_->qbeg = sh_->qend = 0;
    size_t give = std::min<size_t>(stack.size() / 2, 8), k = 0;
    for (; k < give; ++k) {
      Choices& c = stack[k];
      if (sh_->qend + c.size() + 1 >= cap) break;
      sh_->arena[sh_->qend] = (uint16_t)c.size();
      std::copy(c.begin(), c.end(), sh_->arena + sh_->qend + 1);
      sh_->qend += c.size() + 1;
      sh_->queued++;
    }
    pthread_mutex_unlock(&sh_->mu);
    stack.erase(stack.begin(), stack.begin() + k);
  }
  bool take(Choices& p) {
    pthread_mutex_lock(&sh_->mu);
    sh_->idle++;
    while (true) {
      if (sh_->queued > 0) {
        size_t n = sh_->arena[sh_->qbeg];
        p.assign(sh_->arena + sh_->qbeg + 1, sh_->arena + sh_->qbeg + 1 + n);
        sh_->qbeg += n + 1;
        sh_->queued--;
        sh_->idle--;
        pthread_mutex_unlock(&sh_->mu);
        return true;
      }
      if (sh_->idle >= options().jobs || sh_->stop || sh_->truncated) {
        pthread_mutex_unlock(&sh_->mu);
        return false;
      }
      pthread_mutex_unlock(&sh_->mu);
      usleep(300);
      pthread_mutex_lock(&sh_->mu);
    }
  }

  // Run one decision vector in a fresh process.  Returns 0 ok, 2 violation (key/msg set), and the trace.
  int isolated(const Choices& c, double limit, std::string& key, std::string& msg, std::vector<std::string>& trace) {
    int fd[2];
    if (pipe(fd)) return 3;
    fflush(stdout);
    Slot* sl = &sh_->slot[62];
    memset(sl, 0, sizeof *sl);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(fd[0]);
      cur_slot() = sl;
      signal(SIGPROF, on_prof);
      Ctx x;
      x.thorough = options().thorough;
      x.prefix = c;
      x.tracing = true;
      x.slot = sl;
      sl->status = 1;
      arm(limit);
      Violation v;
      int r = run(x, v);
      arm(0);
      FILE* f = fdopen(fd[1], "w");
      fprintf(f, "%d\n%s\n%s\n", r, jesc(v.key).c_str(), jesc(v.msg).c_str());
      for (auto& t : x.trace) fprintf(f, "%s\n", t.c_str());
      fclose(f);
      _exit(0);
    }
    close(fd[1]);
    std::string all;
    char b[65536];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) all.append(b, k);
    close(fd[0]);
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFSIGNALED(ws)) {
      key = strf("crash:%s", strsignal(WTERMSIG(ws)));
      msg = strf("the process died with signal %d (%s) during: %s", WTERMSIG(ws), strsignal(WTERMSIG(ws)), sl->label);
      trace.push_back(std::string("last operation: ") + sl->label);
      return 2;
    }
    if (WEXITSTATUS(ws) == 77) {
      key = "hang";
      msg = strf("did not finish within %.0f s of CPU time during: %s", limit, sl->label);
      trace.push_back(std::string("last operation: ") + sl->label);
      return 2;
    }
    std::istringstream is(all);
    std::string l;
    std::getline(is, l);
    int r = all.empty() ? 3 : atoi(l.c_str());
    std::getline(is, key);
    std::getline(is, msg);
    while (std::getline(is, l)) trace.push_back(l);
    return r;
  }

  std::string write_replay(const Choices& c, const std::string& key, const std::string& msg,
                           const std::vector<std::string>& trace) {
    uint64_t h = 7;
    for (auto v : c) h = mix(h, v);
    std::string path =
        strf("%s/%s-%08x.replay", options().replay_dir.c_str(), options().prop.c_str(), (unsigned)(h ^ (h >> 32)));
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return "/dev/null";
    fprintf(f, "property %s\nstage %s\ntier %s\nkey %s\nmessage %s\nchoices", options().prop.c_str(), options().stage.c_str(),
            options().thorough ? "thorough" : "quick", key.c_str(), msg.c_str());
    for (auto v : c) fprintf(f, " %d", (int)v);
    fprintf(f, "\ntrace\n");
    for (auto& t : trace) fprintf(f, "%s\n", t.c_str());
    fclose(f);
    return path;
  }

  int replay_file(const std::string& path) {
    alloc();
    std::ifstream f(path);
    std::string l;
    Choices c;
    while (std::getline(f, l)) {
      std::istringstream is(l);
      std::string w;
      is >> w;
      if (w == "tier") {
        is >> w;
        options().thorough = w == "thorough";
      } else if (w == "choices") {
        int v;
        while (is >> v) c.push_back((uint16_t)v);
      }
    }
    std::string key, msg;
    std::vector<std::string> tr;
    int r = isolated(c, 600, key, msg, tr);
    for (auto& t : tr) printf("%s\n", t.c_str());
    printf("result %d key=%s\n%s\n", r, key.c_str(), msg.c_str());
    return r == 2 ? 1 : 0;
  }

  void alloc() {
    sh_ = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh_ == MAP_FAILED) {
      perror("mmap");
      exit(4);
    }
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&sh_->mu, &a);
  }

  int explore() {
    Options& o = options();
    alloc();
    double t0 = now();
    std::string tmp = strf("%s/.mc-%d", o.replay_dir.c_str(), (int)getpid());
    // the root prefix
    sh_->arena[0] = 0;
    sh_->qend = 1;
    sh_->queued = 1;
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int i = 0; i < o.jobs; ++i) {
      pid_t p = fork();
      if (p == 0) worker(i, tmp);
      pids.push_back(p);
    }
    int bad = -1;
    std::string why;
    for (int left = o.jobs; left > 0; --left) {
      int ws;
      pid_t p = waitpid(-1, &ws, 0);
      int id = -1;
      for (int i = 0; i < o.jobs; ++i)
        if (pids[i] == p) id = i;
      if (id < 0) {
        ++left;
        continue;
      }
      Slot& s = sh_->slot[id];
      if (WIFSIGNALED(ws) || (WIFEXITED(ws) && WEXITSTATUS(ws) == 77) || s.status == 2) {
        if (bad < 0) bad = id;
        sh_->stop = 1;
        // do not wait for the others
        for (auto q : pids) kill(q, SIGKILL);
      }
    }
    auto unlink_all = [&]() {
      for (int i = 0; i < o.jobs; ++i) unlink(strf("%s.%d", tmp.c_str(), i).c_str());
    };
    Stats st;
    std::vector<uint64_t> hs;
    bool vio = false;
    std::string key, msg, path;
    std::vector<std::string> trace;
    if (bad >= 0) {
      Slot& s = sh_->slot[bad];
      Choices c(s.c, s.c + s.n);
      std::string wkey = s.status == 2 ? s.key : s.status == 3 ? "hang" : "crash", wmsg = s.msg, wlab = s.label;
      int r = isolated(c, 240, key, msg, trace);
      if (r != 2) {
        // not reproduced alone: never reported as a violation
        fprintf(stderr, "NOT REPRODUCED: %s %s (label %s); run is not exhaustive\n", wkey.c_str(), wmsg.c_str(), wlab.c_str());
        unlink_all();
        return wkey == "hang" ? 0 : 5;
      }
      if (key.compare(0, 8, "internal") == 0) {
        fprintf(stderr, "INTERNAL: %s %s\n", key.c_str(), msg.c_str());
        for (auto& t : trace) fprintf(stderr, "%s\n", t.c_str());
        unlink_all();
        return 6;
      }
      vio = true;
      path = write_replay(c, key, msg, trace);
      size_t from = trace.size() > 60 ? trace.size() - 60 : 0;
      for (size_t i = from; i < trace.size(); ++i) printf("  %s\n", trace[i].c_str());
      printf("%s: %s\n", key.c_str(), msg.c_str());
      for (int i = 0; i < o.jobs; ++i) st.execs += sh_->slot[i].execs;
    } else {
      for (int i = 0; i < o.jobs; ++i) {
        FILE* f = fopen(strf("%s.%d", tmp.c_str(), i).c_str(), "rb");
        if (!f) {
          fprintf(stderr, "worker %d left no statistics\n", i);
          unlink_all();
          return 7;
        }
        unsigned long long a[7];
        for (int k = 0; k < 7; ++k)
          if (fscanf(f, "%llu", &a[k]) != 1) return 7;
        st.execs += a[0];
        st.pruned += a[1];
        st.ops += a[2];
        st.choices += a[3];
        st.maxdepth = std::max<uint64_t>(st.maxdepth, a[4]);
        st.twice += a[5];
        st.known += a[6];
        for (int m = 0; m < 3; ++m) {
          size_t n;
          if (fscanf(f, "%zu", &n) != 1) return 7;
          fgetc(f);
          for (size_t k = 0; k < n; ++k) {
            char line[1024];
            if (!fgets(line, sizeof line, f)) return 7;
            char* e;
            unsigned long long v = strtoull(line, &e, 10);
            std::string name(e + 1);
            if (!name.empty() && name.back() == '\n') name.pop_back();
            (m == 0 ? st.outcomes : m == 1 ? st.sec : st.knownkeys)[name] += v;
          }
        }
        size_t n;
        if (fscanf(f, "%zu", &n) != 1) return 7;
        fgetc(f);
        size_t at = hs.size();
        hs.resize(at + n);
        if (n && fread(&hs[at], 8, n, f) != n) return 7;
        fclose(f);
      }
      std::sort(hs.begin(), hs.end());
      hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    }
    unlink_all();
    std::vector<std::string> samples;
    if (!vio) {
      std::set<Choices> done;
      for (int i = 0; i < o.jobs && samples.size() < 5; ++i)
        for (int w = 0; w < 2 && samples.size() < 5; ++w) {
          Slot& s = sh_->slot[i];
          int n = w ? s.nlast : s.nfirst;
          if (n <= 0) continue;
          Choices c(w ? s.last : s.first, (w ? s.last : s.first) + n);
          if (!done.insert(c).second) continue;
          std::string k2, m2, txt;
          std::vector<std::string> tr;
          isolated(c, 240, k2, m2, tr);
          txt = "section " + sections[c[0]].name + ": ";
          for (size_t q = 0; q < tr.size() && txt.size() < 900; ++q) txt += tr[q] + "; ";
          samples.push_back(txt);
        }
    }
    bool exhaustive = !vio && !sh_->truncated;
    if (!o.out.empty()) {
      FILE* f = fopen(o.out.c_str(), "w");
      if (f) {
        fprintf(f,
                "{\"executions\": %llu, \"pruned\": %llu, \"transitions\": %llu, \"choices\": %llu, \"max_depth\": %llu, "
                "\"replayed_twice\": %llu, \"known_hits\": %llu, \"states\": %zu, \"exhaustive\": %s, \"violation\": %s, "
                "\"explore_s\": %.2f",
                (unsigned long long)st.execs, (unsigned long long)st.pruned, (unsigned long long)st.ops,
                (unsigned long long)st.choices, (unsigned long long)st.maxdepth, (unsigned long long)st.twice,
                (unsigned long long)st.known, hs.size(), exhaustive ? "true" : "false", vio ? "true" : "false", now() - t0);
        auto dump = [&](const char* nm, std::map<std::string, uint64_t>& m) {
          fprintf(f, ", \"%s\": {", nm);
          bool first = true;
          for (auto& k : m) {
            fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k.first).c_str(), (unsigned long long)k.second);
            first = false;
          }
          fprintf(f, "}");
        };
        dump("outcomes", st.outcomes);
        dump("sections", st.sec);
        dump("known", st.knownkeys);
        fprintf(f, ", \"budgets\": {");
        for (size_t i = 0; i < sections.size(); ++i)
          fprintf(f, "%s\"%s\": %d", i ? ", " : "", jesc(sections[i].name).c_str(),
                  o.thorough ? sections[i].budget_thorough : sections[i].budget_quick);
        fprintf(f, "}, \"samples\": [");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
        fprintf(f, "]}\n");
        fclose(f);
      }
    }
    for (auto& k : st.knownkeys)
      printf("KNOWN-FINDING: property=%s %s (%llu executions)\n", o.prop.c_str(), k.first.c_str(),
             (unsigned long long)k.second);
    printf("%s: executions=%llu pruned=%llu transitions=%llu states=%zu outcomes=%zu depth<=%llu exhaustive=%d in %.1fs\n",
           o.prop.c_str(), (unsigned long long)st.execs, (unsigned long long)st.pruned, (unsigned long long)st.ops,
           hs.size(), st.outcomes.size(), (unsigned long long)st.maxdepth, (int)exhaustive, now() - t0);
    if (vio) {
      printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), path.c_str());
      return 1;
    }
    return 0;
  }
};

[[noreturn]] inline void eigen_assert_failed_impl(const char* expr, const char* file, int line) {
  throw Violation{"eigen-assert", std::string("Eigen check failed: ") + expr + " at " + file + ":" + std::to_string(line)};
}
}  // namespace mc

// exactly one translation unit per harness includes this header
namespace mc {
void eigen_assert_failed(const char* expr, const char* file, int line) { eigen_assert_failed_impl(expr, file, line); }
}  // namespace mc
#endif
