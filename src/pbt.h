// Minimal property-based testing engine used by every harness of /verif.
//
// A property is a function of a choice stream (Src).  In generation mode every
// draw comes from a seeded PRNG and is recorded; the recorded list of choices
// IS the test case: it can be replayed, shrunk (delete / zero / lower choices)
// and stored as a replay file.  Cases run in forked worker processes, so a
// crash, a sanitizer report, an abort or a hang is a failure of that case.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};

inline std::string vfmt(const char *f, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap);
  std::string s(size_t(n), '\0');
  vsnprintf(&s[0], size_t(n) + 1, f, ap2);
  va_end(ap2);
  return s;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f,
                                                              ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void
fail(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  throw Failure{s};
}
#define PBT_CHECK(cond, ...)                                                   \
  do {                                                                         \
    if (!(cond))                                                               \
      ::pbt::fail("%s [line %d: %s]", ::pbt::fmt("" __VA_ARGS__).c_str(), __LINE__, #cond);       \
  } while (0)

struct Shared { // per-worker, lives in shared memory
  static constexpr size_t max_choices = size_t(1) << 19;
  volatile uint64_t case_index;
  volatile uint64_t done;       // cases finished
  volatile uint64_t n;          // choices of the current case
  volatile uint64_t finished;   // worker finished all its cases
  volatile uint64_t timed_out;  // worker stopped on the time cap
  uint64_t choices[max_choices];
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += UINT64_C(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
    return z ^ (z >> 31);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  return Rng(a ^ (b * UINT64_C(0xD6E8FEB86659FD93) + 1)).next();
}

class Src {
  Rng rng_;
  Shared *rec_;
  const std::vector<uint64_t> *replay_;
  size_t pos_ = 0;
  uint64_t hash_ = 1469598103934665603ull;
  size_t limit_;

  uint64_t choose(uint64_t max /* inclusive */) {
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v > max)
        v = (max == UINT64_MAX) ? v : v % (max + 1);
    } else {
      v = rng_.next();
      if (max != UINT64_MAX)
        v = uint64_t((__uint128_t(v) * (max + 1)) >> 64);
    }
    if (rec_) {
      if (pos_ < Shared::max_choices) {
        rec_->choices[pos_] = v;
        rec_->n = pos_ + 1;
      } else if (!replay_)
        throw Discard();
    }
    pos_++;
    hash_ = (hash_ ^ v) * 1099511628211ull;
    return v;
  }

public:
  Src(uint64_t seed, Shared *rec) : rng_(seed), rec_(rec), replay_(nullptr), limit_(0) {
    if (rec_)
      rec_->n = 0;
  }
  Src(const std::vector<uint64_t> &r, Shared *rec)
      : rng_(0), rec_(rec), replay_(&r), limit_(0) {
    if (rec_)
      rec_->n = 0;
  }
  bool replaying() const { return replay_ != nullptr; }
  // true when a replayed (shrunk) stream has been consumed: long loops stop
  bool exhausted() const { return replay_ && pos_ >= replay_->size(); }
  size_t position() const { return pos_; }
  uint64_t hash() const { return hash_; }
  uint64_t bits() { return choose(UINT64_MAX); }
  // an enumerated (not random) choice: recorded, so that it can be replayed
  uint64_t given(uint64_t v, uint64_t n) {
    if (!replay_) {
      v %= n;
      if (rec_ && pos_ < Shared::max_choices) {
        rec_->choices[pos_] = v;
        rec_->n = pos_ + 1;
      }
      pos_++;
      hash_ = (hash_ ^ v) * 1099511628211ull;
      return v;
    }
    return choose(n - 1);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : choose(n - 1); }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned percent) { return below(100) >= 100 - percent; } // 0 => false
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t total = 0;
    for (auto x : w)
      total += x;
    uint64_t v = below(total);
    size_t i = 0;
    for (auto x : w) {
      if (v < x)
        return i;
      v -= x;
      i++;
    }
    return 0;
  }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  // pseudo-random bytes from one choice; choice 0 => all 'a'
  std::string bytes(size_t len) {
    if (!len)
      return std::string();
    uint64_t k = bits();
    std::string s(len, 'a');
    if (k) {
      Rng r(k);
      unsigned mode = unsigned(r.next() % 4);
      for (size_t i = 0; i < len; ++i) {
        uint64_t x = r.next();
        s[i] = mode == 0   ? char('a' + x % 26)
               : mode == 1 ? char(x)
               : mode == 2 ? (x % 3 ? '\0' : char(x >> 8))
                           : (x % 3 ? '\xff' : char(x >> 8));
      }
    }
    return s;
  }
  // 64-bit value biased to boundaries of all widths
  uint64_t edgy() {
    switch (weighted({3, 3, 3, 2, 2})) {
    case 0:
      return below(300);
    case 1: { // around a power of two, either sign
      unsigned b = unsigned(below(64));
      uint64_t v = (UINT64_C(1) << b) + below(5) - 2;
      return chance(40) ? 0 - v : v;
    }
    case 2:
      return 0 - below(300);
    case 3: {
      static const uint64_t k[] = {0,
                                   1,
                                   127,
                                   128,
                                   255,
                                   256,
                                   32767,
                                   32768,
                                   65535,
                                   65536,
                                   0x7fffffffull,
                                   0x80000000ull,
                                   0xffffffffull,
                                   0x100000000ull,
                                   0x7fffffffffffffffull,
                                   0x8000000000000000ull,
                                   ~0ull,
                                   9007199254740992ull,
                                   9007199254740993ull,
                                   16777216ull,
                                   16777217ull,
                                   0xffffffffffffff80ull,
                                   0xffffffffffff8000ull,
                                   0xffffffff80000000ull,
                                   10000000000000000000ull,
                                   999999999ull,
                                   1000000000ull,
                                   9999999999999999999ull};
      return k[below(sizeof(k) / sizeof(k[0]))];
    }
    default:
      return bits() >> below(64);
    }
  }
};

class Ctx {
public:
  uint64_t index = 0; // number of the case (for enumerated blocks)
  bool trace = false; // record a human readable log of the case
  bool interesting = false;
  std::map<std::string, uint64_t> *labels = nullptr;
  std::string logtext;
  void nontrivial() { interesting = true; }
  void label(const char *name, uint64_t add = 1) {
    if (labels)
      (*labels)[name] += add;
  }
  void label(const std::string &name, uint64_t add = 1) {
    if (labels)
      (*labels)[name] += add;
  }
  __attribute__((format(printf, 2, 3))) void log(const char *f, ...) {
    if (!trace)
      return;
    va_list ap;
    va_start(ap, f);
    logtext += vfmt(f, ap);
    va_end(ap);
    logtext += '\n';
    if (tracefd >= 0) {
      if (write(tracefd, logtext.data() + flushed, logtext.size() - flushed) < 0) {}
      flushed = logtext.size();
    }
  }
  int tracefd = -1; // in replay: log survives a crash
  size_t flushed = 0;
};

struct Property {
  const char *name;
  const char *rule;
  void (*run)(Src &, Ctx &);
};

inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

// runs one case; returns true if it passed; msg gets the failure
inline bool run_case(const Property &p, Src &src, Ctx &ctx, std::string &msg) {
  try {
    p.run(src, ctx);
    return true;
  } catch (const Discard &) {
    ctx.interesting = false;
    ctx.label("discarded");
    return true;
  } catch (const Failure &f) {
    msg = f.msg;
    return false;
  } catch (const std::exception &e) {
    msg = fmt("unexpected exception %s: %s", typeid(e).name(), e.what());
    return false;
  } catch (...) {
    msg = "unexpected non-standard exception";
    return false;
  }
}

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += char(c);
  }
  return o;
}

struct Options {
  std::string prop;
  uint64_t seed = 1;
  uint64_t cases = 1000;
  unsigned workers = 8;
  double max_seconds = 600;
  unsigned case_seconds = 60;
  std::string out;        // fragment json
  std::string replay_dir; // where replay files are put
  std::string replay;     // replay mode
  std::string tag;
  bool verbose = false;
};

inline void silence_cores() {
  prctl(PR_SET_DUMPABLE, 1);
}

// Executes `choices` in a child process. 0 = pass, 1 = failed (msg set).
inline int exec_child(const Property &p, const std::vector<uint64_t> &choices,
                      unsigned timeout, std::string &msg, std::string *trace,
                      const char *stderr_file, std::vector<uint64_t> *used) {
  int pipefd[2];
  if (pipe(pipefd) != 0)
    abort();
  int tracepipe[2] = {-1, -1};
  std::string tracefile;
  if (trace) {
    tracefile = fmt("/tmp/pbt-trace-%d", int(getpid()));
    tracepipe[1] = open(tracefile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
  }
  Shared *sh = nullptr;
  if (used) {
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                    PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(pipefd[0]);
    int efd = open(stderr_file ? stderr_file : "/dev/null",
                   O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (efd >= 0)
      dup2(efd, 2);
    signal(SIGALRM, SIG_DFL);
    alarm(timeout);
    Src src(choices, sh);
    Ctx ctx;
    ctx.trace = trace != nullptr;
    ctx.tracefd = tracepipe[1];
    std::string m;
    bool ok = run_case(p, src, ctx, m);
    if (!ok) {
      if (write(pipefd[1], m.data(), m.size()) < 0) {}
      _exit(1);
    }
    _exit(0);
  }
  close(pipefd[1]);
  std::string got;
  char buf[4096];
  ssize_t n;
  while ((n = read(pipefd[0], buf, sizeof(buf))) > 0)
    got.append(buf, size_t(n));
  close(pipefd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (trace) {
    lseek(tracepipe[1], 0, SEEK_SET);
    trace->clear();
    while ((n = read(tracepipe[1], buf, sizeof(buf))) > 0)
      trace->append(buf, size_t(n));
    close(tracepipe[1]);
    unlink(tracefile.c_str());
  }
  if (used) {
    used->assign(sh->choices, sh->choices + std::min(size_t(sh->n), size_t(Shared::max_choices)));
    munmap(sh, sizeof(Shared));
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !got.empty())
    msg = got;
  else if (WIFSIGNALED(st))
    msg = fmt("crashed by signal %d (%s)%s", WTERMSIG(st),
              strsignal(WTERMSIG(st)),
              WTERMSIG(st) == SIGALRM ? ": hang" : "");
  else
    msg = fmt("exited with status %d (sanitizer report or exit())",
              WEXITSTATUS(st));
  return 1;
}

inline std::vector<uint64_t> shrink(const Property &p,
                                    std::vector<uint64_t> best,
                                    std::string &msg, double budget,
                                    unsigned timeout, uint64_t &tries) {
  const double stop = now() + budget;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (now() > stop)
      return false;
    tries++;
    std::string m;
    std::vector<uint64_t> used;
    if (exec_child(p, c, timeout, m, nullptr, nullptr, &used) == 0)
      return false;
    msg = m;
    best = (used.size() && used.size() < c.size()) ? used : c;
    return true;
  };
  bool progress = true;
  while (progress && now() < stop) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1;
         chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size() && now() < stop;) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + long(i), c.begin() + long(i + chunk));
        if (attempt(c))
          progress = true;
        else
          i += chunk;
      }
      if (chunk == 1)
        break;
    }
    for (size_t chunk = std::max<size_t>(1, best.size() / 4); chunk >= 1;
         chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size() && now() < stop; i += chunk) {
        bool nz = false;
        for (size_t k = i; k < i + chunk; ++k)
          nz |= best[k] != 0;
        if (!nz)
          continue;
        std::vector<uint64_t> c(best);
        for (size_t k = i; k < i + chunk; ++k)
          c[k] = 0;
        if (attempt(c))
          progress = true;
      }
      if (chunk == 1)
        break;
    }
    for (size_t i = 0; i < best.size() && now() < stop; ++i) {
      uint64_t lo = 0;
      while (i < best.size() && lo < best[i] && now() < stop) {
        std::vector<uint64_t> c(best);
        c[i] = lo + (best[i] - lo) / 2;
        if (attempt(c))
          progress = true;
        else {
          lo = c[i] + 1;
          if (best[i] - lo > 64 && lo > UINT64_C(1) << 40)
            break;
        }
      }
    }
  }
  return best;
}

inline bool save_replay(const std::string &path, const Property &p,
                        const Options &o, const std::vector<uint64_t> &c,
                        const std::string &msg, const std::string &trace) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f)
    return false;
  fprintf(f, "# pbt-replay 1\n# property %s\n# harness %s\n# seed %" PRIu64 "\n",
          o.prop.c_str(), p.name, o.seed);
  std::string m = msg;
  for (auto &ch : m)
    if (ch == '\n')
      ch = ' ';
  fprintf(f, "# failure %s\nchoices", m.c_str());
  for (auto v : c)
    fprintf(f, " %" PRIu64, v);
  fprintf(f, "\n# --- trace of the minimal case ---\n");
  size_t i = 0;
  while (i < trace.size()) {
    size_t e = trace.find('\n', i);
    if (e == std::string::npos)
      e = trace.size();
    fprintf(f, "#   %s\n", trace.substr(i, e - i).c_str());
    i = e + 1;
  }
  fclose(f);
  return true;
}

inline void worker(const Property &p, const Options &o, unsigned w, Shared *sh,
                   const std::string &res, double deadline, uint64_t only_upto) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int efd = open((res + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (efd >= 0)
    dup2(efd, 2);
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t n = 0, nontrivial = 0;
  int status = 0;
  std::string msg;
  for (uint64_t k = w; k < o.cases; k += o.workers) {
    if (only_upto != UINT64_MAX && k > only_upto)
      break;
    if (now() > deadline) {
      sh->timed_out = 1;
      break;
    }
    sh->case_index = k;
    alarm(o.case_seconds);
    Src src(mix(o.seed, k), sh);
    Ctx ctx;
    ctx.labels = &labels;
    ctx.index = k;
    ctx.trace = samples.size() < 2 && n >= 3;
    bool ok = run_case(p, src, ctx, msg);
    n++;
    sh->done = n;
    if (!ok) {
      status = 1;
      break;
    }
    if (ctx.interesting) {
      nontrivial++;
      distinct.insert(src.hash());
      if (ctx.trace && !ctx.logtext.empty()) {
        if (ctx.logtext.size() > 1500)
          ctx.logtext = ctx.logtext.substr(0, 1500) + "...";
        samples.push_back(ctx.logtext);
      }
    }
  }
  alarm(0);
  FILE *f = fopen(res.c_str(), "w");
  fprintf(f, "n %" PRIu64 "\nnontrivial %" PRIu64 "\n", n, nontrivial);
  for (auto &l : labels)
    fprintf(f, "label %" PRIu64 " %s\n", l.second, l.first.c_str());
  for (auto h : distinct)
    fprintf(f, "hash %" PRIx64 "\n", h);
  for (auto &s : samples)
    fprintf(f, "sample %s\n", json_escape(s).c_str());
  if (status)
    fprintf(f, "failure %s\n", json_escape(msg).c_str());
  fclose(f);
  sh->finished = 1;
  _exit(status);
}

inline int driver(int argc, char **argv, const std::vector<Property> &props) {
  Options o;
  std::string harness;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (++i >= argc) {
        fprintf(stderr, "missing value for %s\n", a.c_str());
        exit(2);
      }
      return argv[i];
    };
    if (a == "--prop") o.prop = val();
    else if (a == "--harness") harness = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--workers") o.workers = unsigned(atoi(val().c_str()));
    else if (a == "--max-seconds") o.max_seconds = atof(val().c_str());
    else if (a == "--case-seconds") o.case_seconds = unsigned(atoi(val().c_str()));
    else if (a == "--out") o.out = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--tag") o.tag = val();
    else if (a == "-v") o.verbose = true;
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  if (harness.empty() && !o.replay.empty())
    if (FILE *f = fopen(o.replay.c_str(), "r")) { // the file names its harness
      char name[128], line[512];
      while (fgets(line, sizeof(line), f))
        if (sscanf(line, "# harness %127s", name) == 1)
          harness = name;
      fclose(f);
    }
  const Property *p = nullptr;
  for (auto &x : props)
    if (harness.empty() || harness == x.name) {
      p = &x;
      break;
    }
  if (!p) {
    fprintf(stderr, "no such harness %s\n", harness.c_str());
    return 2;
  }
  silence_cores();
  if (!o.replay.empty()) {
    FILE *f = fopen(o.replay.c_str(), "r");
    if (!f) {
      perror(o.replay.c_str());
      return 2;
    }
    std::vector<uint64_t> c;
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      if (strncmp(line, "choices", 7) == 0) {
        char *s = line + 7, *e;
        for (;;) {
          uint64_t v = strtoull(s, &e, 10);
          if (e == s)
            break;
          c.push_back(v);
          s = e;
        }
      }
    }
    free(line);
    fclose(f);
    std::string msg, trace;
    int r = exec_child(*p, c, o.case_seconds, msg, &trace, "/dev/stderr", nullptr);
    printf("%s", trace.c_str());
    printf(r ? "REPLAY: FAILED: %s\n" : "REPLAY: passed %s\n", msg.c_str());
    return r ? 1 : 0;
  }

  const double t0 = now();
  const double deadline = t0 + o.max_seconds;
  char tmpl[] = "/tmp/pbt-XXXXXX";
  std::string dir = mkdtemp(tmpl) ? tmpl : "/tmp";
  if (o.replay_dir.empty())
    o.replay_dir = ".";
  std::vector<Shared *> sh(o.workers);
  std::vector<pid_t> pids(o.workers);
  for (unsigned w = 0; w < o.workers; ++w)
    sh[w] = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS |
                                           MAP_NORESERVE,
                                       -1, 0));
  fflush(stdout);
  for (unsigned w = 0; w < o.workers; ++w) {
    pids[w] = fork();
    if (pids[w] == 0)
      worker(*p, o, w, sh[w], dir + fmt("/w%u", w), deadline, UINT64_MAX);
  }
  int failed = -1;
  std::string failmsg;
  for (unsigned left = o.workers; left;) {
    int st = 0;
    pid_t pid = wait(&st);
    if (pid < 0)
      break;
    for (unsigned w = 0; w < o.workers; ++w)
      if (pids[w] == pid) {
        left--;
        pids[w] = -1;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && failed < 0) {
          failed = int(w);
          failmsg = WIFSIGNALED(st)
                        ? fmt("crashed by signal %d (%s)", WTERMSIG(st),
                              strsignal(WTERMSIG(st)))
                        : fmt("exit status %d", WEXITSTATUS(st));
          for (unsigned v = 0; v < o.workers; ++v)
            if (pids[v] > 0)
              kill(pids[v], SIGKILL);
        }
      }
  }
  uint64_t n = 0, nontrivial = 0, timed_out = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<std::string> hashes;
  std::vector<std::string> samples;
  for (unsigned w = 0; w < o.workers; ++w) {
    timed_out += sh[w]->timed_out;
    FILE *f = fopen((dir + fmt("/w%u", w)).c_str(), "r");
    if (!f) {
      n += sh[w]->done;
      continue;
    }
    char *line = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&line, &cap, f)) > 0) {
      if (line[len - 1] == '\n')
        line[len - 1] = 0;
      if (!strncmp(line, "n ", 2)) n += strtoull(line + 2, nullptr, 10);
      else if (!strncmp(line, "nontrivial ", 11)) nontrivial += strtoull(line + 11, nullptr, 10);
      else if (!strncmp(line, "label ", 6)) {
        char *e;
        uint64_t v = strtoull(line + 6, &e, 10);
        labels[e + 1] += v;
      } else if (!strncmp(line, "hash ", 5)) hashes.insert(line + 5);
      else if (!strncmp(line, "sample ", 7)) {
        if (samples.size() < 4) samples.push_back(line + 7);
      } else if (!strncmp(line, "failure ", 8)) {
        if (int(w) == failed) failmsg = line + 8;
      }
    }
    free(line);
    fclose(f);
  }
  int violations = 0;
  std::string replay_path;
  uint64_t tries = 0;
  bool unreproduced = false;
  if (failed >= 0) {
    Shared *s = sh[failed];
    std::vector<uint64_t> c(s->choices, s->choices + std::min(size_t(s->n), size_t(Shared::max_choices)));
    std::string msg;
    unsigned to = std::min(o.case_seconds, 20u);
    int again = 0;
    for (int i = 0; i < 3; ++i)
      again += exec_child(*p, c, to, msg, nullptr, nullptr, nullptr);
    mkdir(o.replay_dir.c_str(), 0755);
    replay_path = o.replay_dir + "/" + (o.prop.empty() ? "X" : o.prop) + "-" +
                  p->name + (o.tag.empty() ? "" : "-" + o.tag) + fmt("-s%" PRIu64 "-c%" PRIu64, o.seed, uint64_t(s->case_index)) + ".replay";
    if (again >= 2) {
      std::vector<uint64_t> m = shrink(*p, c, msg, 30, to, tries);
      int conf = 0;
      std::string trace, m2;
      for (int i = 0; i < 3; ++i)
        conf += exec_child(*p, m, to, m2, &trace, (replay_path + ".stderr").c_str(), nullptr);
      if (conf < 2) { // shrinking went astray: keep the original
        m = c;
        exec_child(*p, m, to, m2, &trace, (replay_path + ".stderr").c_str(), nullptr);
      }
      failmsg = m2;
      save_replay(replay_path, *p, o, m, m2, trace);
      violations = 1;
    } else {
      // depends on what the worker did before: replay the whole prefix
      int conf = 0;
      for (int i = 0; i < 2; ++i) {
        Shared *s2 = static_cast<Shared *>(
            mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        pid_t pid = fork();
        if (pid == 0)
          worker(*p, o, unsigned(failed), s2, dir + "/again", now() + 300, s->case_index);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
          conf++;
        munmap(s2, sizeof(Shared));
      }
      if (conf == 2) {
        FILE *f = fopen(replay_path.c_str(), "w");
        if (f) {
          fprintf(f, "# pbt-replay 1\n# history-dependent failure: %s\n# run: %s --harness %s --seed %" PRIu64 " --cases %" PRIu64 " --workers %u\nchoices", failmsg.c_str(), argv[0], p->name, o.seed, o.cases, o.workers);
          for (auto v : c)
            fprintf(f, " %" PRIu64, v);
          fprintf(f, "\n");
          fclose(f);
        }
        violations = 1;
      } else
        unreproduced = true;
    }
  }
  if (!o.out.empty()) {
    FILE *f = fopen(o.out.c_str(), "w");
    if (f) {
      fprintf(f, "{\"harness\":\"%s\",\"tag\":\"%s\",\"seed\":%" PRIu64 ",\"evaluations\":%" PRIu64
                 ",\"nontrivial\":%" PRIu64 ",\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"labels\":{",
              p->name, o.tag.c_str(), o.seed, n, nontrivial, hashes.size(), json_escape(p->rule).c_str());
      bool first = true;
      for (auto &l : labels) {
        fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", json_escape(l.first).c_str(), l.second);
        first = false;
      }
      fprintf(f, "},\"samples\":[");
      for (size_t i = 0; i < samples.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? "," : "", samples[i].c_str());
      fprintf(f, "],\"time_capped_workers\":%" PRIu64 ",\"wall_s\":%.3f,\"violations\":%d,\"unreproduced\":%d,\"shrink_tries\":%" PRIu64 ",\"replay\":\"%s\",\"failure\":\"%s\"}\n",
              timed_out, now() - t0, violations, unreproduced ? 1 : 0, tries, violations ? json_escape(replay_path).c_str() : "",
              failed >= 0 ? json_escape(failmsg).c_str() : "");
      fclose(f);
    }
  }
  if (o.verbose || failed >= 0) {
    printf("%s%s%s: %" PRIu64 " cases, %zu distinct non-trivial, %.1fs%s\n", p->name, o.tag.empty() ? "" : "/", o.tag.c_str(), n,
           hashes.size(), now() - t0, timed_out ? " (time cap)" : "");
    if (o.verbose)
      for (auto &l : labels)
        printf("   %10" PRIu64 "  %s\n", l.second, l.first.c_str());
  }
  if (failed >= 0) {
    printf("%s case %" PRIu64 ": %s\n", violations ? "FAILED" : "UNREPRODUCED", uint64_t(sh[failed]->case_index), failmsg.c_str());
    if (violations)
      printf("replay: %s\n", replay_path.c_str());
  }
  // tidy the scratch directory (only files this process created)
  for (unsigned w = 0; w < o.workers; ++w) {
    unlink((dir + fmt("/w%u", w)).c_str());
    unlink((dir + fmt("/w%u.err", w)).c_str());
  }
  unlink((dir + "/again").c_str());
  unlink((dir + "/again.err").c_str());
  if (dir != "/tmp")
    rmdir(dir.c_str());
  return violations ? 1 : 0;
}

} // namespace pbt
