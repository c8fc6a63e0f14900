// Minimal property-based testing engine (choice-sequence generation and
// shrinking, crash isolation by fork, replay files).  C++14, no dependency.
//
// Every random decision of a case is an integer drawn from a recorded
// "choice sequence" (as Hypothesis does).  Shrinking edits the sequence
// (delete chunks, zero, halve, decrement) and re-runs the property; since all
// generators map small choices to simple values, a shorter/smaller sequence
// is a simpler case.  The parent process never runs the property itself:
// workers and shrink candidates are forked children, so that a crash, a
// sanitizer report or an endless loop in the code under test is just another
// way of failing, with the choices at hand in shared memory.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline double now() {
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ULL;
  }
  return h;
}
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

constexpr size_t kMaxChoices = 1u << 16;
constexpr size_t kMsg = 1u << 13;
constexpr int kExitFail = 77;      // property failed with a message
constexpr int kExitSanitizer = 86; // sanitizer report

struct Shared {  // one per worker, MAP_SHARED
  volatile int prop;          // index of the property being run
  volatile uint64_t index;    // index of the case
  volatile double since;      // time the current case began (0: idle)
  volatile uint64_t n;        // number of choices drawn so far
  volatile uint64_t cases;    // cases run
  volatile uint64_t discards;
  volatile int failed;        // 1: a Failure was recorded
  char message[kMsg];
  char known[256];
  uint64_t choices[kMaxChoices];
};

struct Failure {
  std::string message;
};
struct Discard {};

class Gen {
 public:
  // Generation from a seed
  Gen(Shared* sh, uint64_t seed) : sh_(sh), state_(seed), replay_(nullptr) {
    sh_->n = 0;
  }
  // Replay of a sequence
  Gen(Shared* sh, const std::vector<uint64_t>& replay)
      : sh_(sh), state_(0), replay_(&replay) {
    sh_->n = 0;
  }

  // Integer in [0, bound]
  uint64_t raw(uint64_t bound) {
    uint64_t n = sh_->n;
    if (n >= kMaxChoices) throw Discard();
    uint64_t v;
    if (replay_ != nullptr) {
      v = n < replay_->size() ? (*replay_)[n] : 0;
      if (v > bound) v = bound == UINT64_MAX ? v : v % (bound + 1);
    } else {
      v = splitmix(state_);
      if (bound != UINT64_MAX) v = uint64_t((__uint128_t(v) * (__uint128_t(bound) + 1)) >> 64);
    }
    sh_->choices[n] = v;
    sh_->n = n + 1;
    return v;
  }
  int64_t integer(int64_t lo, int64_t hi) {
    return lo + int64_t(raw(uint64_t(hi - lo)));
  }
  size_t size(size_t lo, size_t hi) { return size_t(integer(int64_t(lo), int64_t(hi))); }
  bool boolean(double p = 0.5) {  // true with probability p; shrinks to false
    return double(raw((1u << 20) - 1)) >= (1.0 - p) * double(1u << 20);
  }
  // uniform in [0, 1)
  double unit() { return double(raw((1ULL << 53) - 1)) * 1.1102230246251565e-16; }
  // Real in [lo, hi]: mixes round values (which shrink well) and uniform ones.
  double real(double lo, double hi) {
    auto kind = raw(7);
    if (kind == 0) {  // one of 17 round positions in the interval
      return lo + (hi - lo) * double(raw(16)) / 16.0;
    }
    if (kind == 1 && hi - lo >= 2) {  // an integer
      auto a = std::ceil(lo), b = std::floor(hi);
      return a + double(raw(uint64_t(b - a)));
    }
    return lo + (hi - lo) * unit();
  }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // signed magnitude-spread value (log-uniform), 0 possible
  double log_real(double lo_exp, double hi_exp) {
    auto k = raw(15);
    if (k == 0) return 0;
    auto v = std::pow(10.0, uniform(lo_exp, hi_exp));
    return boolean() ? -v : v;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[raw(v.size() - 1)];
  }
  template <typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + raw(v.size() - 1));
  }
  // weights -> index
  size_t weighted(std::initializer_list<double> w) {
    double s = 0;
    for (auto x : w) s += x;
    double u = unit() * s;
    size_t i = 0;
    for (auto x : w) {
      if (u < x) return i;
      u -= x;
      ++i;
    }
    return w.size() - 1;
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) {
      auto j = (i - 1) - raw(i - 1);  // 0 choice -> no move
      std::swap(v[i - 1], v[j]);
    }
  }
  // A random subset (in order), each kept with probability p
  template <typename T>
  std::vector<T> subset(const std::vector<T>& v, double p) {
    std::vector<T> r;
    for (auto& x : v)
      if (boolean(p)) r.push_back(x);
    return r;
  }

 private:
  Shared* sh_;
  uint64_t state_;
  const std::vector<uint64_t>* replay_;
};

// What a property reports about a case
class Case {
 public:
  std::ostringstream text;            // human readable description
  std::vector<std::string> labels;
  bool nontrivial_{false};
  std::string failure;
  bool verbose{false};

  template <typename... A>
  Case& note(const A&... a) {
    if (text.tellp() < 20000) {
      put(a...);
      text << "\n";
    }
    return *this;
  }
  void label(const std::string& l) { labels.push_back(l); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  template <typename... A>
  [[noreturn]] void fail(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    cat(o, a...);
    throw Failure{o.str()};
  }
  template <typename... A>
  void check(bool ok, const A&... a) {
    if (!ok) fail(a...);
  }
  static void discard() { throw Discard(); }
  // True if the failure `key` is a listed known finding (see
  // KNOWN_FINDINGS.txt); its occurrence is then reported, not raised.
  bool known(const std::string& key) {
    static const std::string list = [] {
      const char* e = getenv("PBT_KNOWN");
      return std::string(",") + (e ? e : "") + ",";
    }();
    if (list.find("," + key + ",") == std::string::npos) return false;
    label("known:" + key);
    return true;
  }

 private:
  void put() {}
  template <typename T, typename... A>
  void put(const T& t, const A&... a) {
    text.precision(17);
    text << t;
    put(a...);
  }
  static void cat(std::ostream&) {}
  template <typename T, typename... A>
  static void cat(std::ostream& o, const T& t, const A&... a) {
    o << t;
    cat(o, a...);
  }
};

template <typename T>
std::string str(const std::vector<T>& v, size_t max = 12) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size() && i < max; ++i) o << (i ? ", " : "") << v[i];
  if (v.size() > max) o << ", ...(" << v.size() << ")";
  o << "]";
  return o.str();
}

struct Prop {
  std::string name;
  double weight;
  std::function<void(Gen&, Case&)> fn;
};
inline std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}
struct Register {
  Register(const char* name, double weight, std::function<void(Gen&, Case&)> fn) {
    props().push_back({name, weight, std::move(fn)});
  }
};
#define PBT_PROP(name, weight)                                       \
  static void pbt_##name(pbt::Gen& g, pbt::Case& c);                 \
  static pbt::Register pbt_reg_##name(#name, weight, pbt_##name);    \
  static void pbt_##name([[maybe_unused]] pbt::Gen& g, [[maybe_unused]] pbt::Case& c)

inline std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += char(ch);
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += char(ch);
    }
  }
  return r;
}

// Runs one case in this process. Returns true if it passed (or discarded).
inline bool run_one(const Prop& p, Gen& g, Case& c, bool* discarded = nullptr) {
  try {
    p.fn(g, c);
    return true;
  } catch (const Discard&) {
    if (discarded) *discarded = true;
    return true;
  } catch (const Failure& f) {
    c.failure = f.message;
  } catch (const std::exception& e) {
    c.failure = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    c.failure = "unexpected exception of unknown type";
  }
  return false;
}

struct Outcome {
  bool failed{false};
  bool hang{false};
  std::string message;
  std::vector<uint64_t> choices;
};

struct Runner {
  uint64_t seed{1};
  uint64_t cases{1000};
  double seconds{600};
  unsigned workers{8};
  double case_timeout{60};
  double shrink_seconds{60};
  std::string out{"."};
  std::string only;
  std::string log;

  static Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      _exit(3);
    }
    return static_cast<Shared*>(p);
  }

  static std::string read_file(const std::string& f, size_t max = 20000) {
    std::ifstream in(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
  }

  static void set_message(Shared* sh, const std::string& m) {
    auto n = std::min(m.size(), kMsg - 1);
    memcpy(sh->message, m.data(), n);
    sh->message[n] = 0;
  }

  void redirect_stderr(const std::string& file) const {
    int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
  }

  static std::string first_report(const std::string& s) {
    // the interesting line of a sanitizer report
    std::istringstream in(s);
    std::string line, r;
    int n = 0;
    while (std::getline(in, line)) {
      if (line.find("ERROR") != std::string::npos ||
          line.find("runtime error") != std::string::npos ||
          line.find("WARNING: ThreadSanitizer") != std::string::npos ||
          line.find("terminate called") != std::string::npos ||
          line.find("what():") != std::string::npos ||
          (n > 0 && line.find("    #") == 0)) {
        r += line + "\n";
        if (++n > 14) break;
      }
    }
    return r.empty() ? s.substr(0, 600) : r;
  }

  // Runs a choice sequence in a child.
  Outcome attempt(size_t prop, const std::vector<uint64_t>& choices, double timeout,
                  Case* = nullptr) {
    auto* sh = map_shared();
    auto errfile = out + "/attempt.err";
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      redirect_stderr(errfile);
      Gen g(sh, choices);
      Case c;
      bool ok = run_one(props()[prop], g, c);
      if (!ok) {
        set_message(sh, c.failure);
        sh->failed = 1;
        _exit(kExitFail);
      }
      fflush(nullptr);
      // A sanitizer that only reports at exit (TSan) must get its chance
      exit_child(0);
    }
    int status = 0;
    double t0 = now();
    Outcome o;
    useconds_t nap = 100;
    while (true) {
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      if (now() - t0 > timeout) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        o.failed = o.hang = true;
        o.message = "no answer within the time limit (endless loop or deadlock)";
        break;
      }
      usleep(nap);
      nap = std::min<useconds_t>(nap * 2, 5000);
    }
    if (!o.hang) {
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.failed = false;
      } else {
        o.failed = true;
        if (sh->failed)
          o.message = sh->message;
        else
          o.message = describe(status) + "\n" + first_report(read_file(errfile));
      }
    }
    o.choices.assign(sh->choices, sh->choices + std::min<uint64_t>(uint64_t(sh->n), kMaxChoices));
    munmap(sh, sizeof(Shared));
    return o;
  }

  [[noreturn]] static void exit_child(int code) {
#if defined(__SANITIZE_THREAD__)
    exit(code);
#else
    _exit(code);
#endif
  }

  static std::string describe(int status) {
    std::ostringstream o;
    if (WIFSIGNALED(status))
      o << "killed by signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
    else if (WIFEXITED(status) && WEXITSTATUS(status) == kExitSanitizer)
      o << "sanitizer report";
    else
      o << "exit status " << (WIFEXITED(status) ? WEXITSTATUS(status) : -1);
    return o.str();
  }

  std::vector<uint64_t> shrink(size_t prop, std::vector<uint64_t> best, bool hang,
                               std::string& message, uint64_t& tries) {
    double t0 = now();
    double limit = hang ? 10 : case_timeout;
    auto over = [&] { return now() - t0 > shrink_seconds; };
    auto accept = [&](std::vector<uint64_t> cand) {
      if (over()) return false;
      ++tries;
      auto o = attempt(prop, cand, limit);
      if (!o.failed || o.hang != hang) return false;
      // never grow
      auto& ch = o.choices.size() < cand.size() ? o.choices : cand;
      if (ch.size() > best.size()) return false;
      if (ch.size() == best.size() && !std::lexicographical_compare(ch.begin(), ch.end(), best.begin(), best.end()))
        return false;
      best = ch;
      message = o.message;
      return true;
    };
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && !over(); k /= 2) {
        for (size_t i = best.size(); i-- > 0 && !over();) {  // delete chunks
          if (i + k > best.size()) continue;
          auto cand = best;
          cand.erase(cand.begin() + i, cand.begin() + i + k);
          if (accept(cand)) progress = true;
        }
        if (k == 1) break;
      }
      for (size_t k : {8u, 2u}) {
        for (size_t i = 0; i + k <= best.size() && !over(); ++i) {  // zero blocks
          auto cand = best;
          bool any = false;
          for (size_t j = i; j < i + k; ++j) {
            any = any || cand[j] != 0;
            cand[j] = 0;
          }
          if (any && accept(cand)) progress = true;
        }
      }
      for (size_t i = 0; i < best.size() && !over(); ++i) {  // minimise values
        if (best[i] == 0) continue;
        auto cand = best;
        cand[i] = 0;
        if (accept(cand)) {
          progress = true;
          continue;
        }
        uint64_t lo = 0;  // lo passes
        for (int step = 0; step < 16 && i < best.size() && best[i] - lo > 1 && !over(); ++step) {
          uint64_t mid = lo + (best[i] - lo) / 2;
          auto c2 = best;
          c2[i] = mid;
          if (accept(c2))
            progress = true;
          else
            lo = mid;
        }
      }
    }
    return best;
  }

  // ---- main campaign ----
  int run() {
    mkdir(out.c_str(), 0755);
    double t0 = now();
    auto& ps = props();
    double total_w = 0;
    for (auto& p : ps) total_w += (only.empty() || only == p.name) ? p.weight : 0;
    // schedule: for each property, a number of cases
    std::vector<uint64_t> quota(ps.size(), 0);
    for (size_t i = 0; i < ps.size(); ++i)
      if (only.empty() || only == ps[i].name)
        quota[i] = std::max<uint64_t>(1, uint64_t(double(cases) * ps[i].weight / total_w));
    std::vector<Shared*> sh(workers);
    std::vector<pid_t> pid(workers);
    for (unsigned w = 0; w < workers; ++w) {
      sh[w] = map_shared();
      pid[w] = fork();
      if (pid[w] == 0) {
        setpgid(0, 0);
        redirect_stderr(out + "/worker" + std::to_string(w) + ".err");
        worker(w, sh[w], quota, t0);
        exit_child(0);
      }
    }
    // wait
    std::vector<bool> done(workers, false);
    unsigned left = workers;
    int bad = -1;
    Outcome bad_outcome;
    size_t bad_prop = 0;
    while (left > 0 && bad < 0) {
      for (unsigned w = 0; w < workers && bad < 0; ++w) {
        if (done[w]) continue;
        int status = 0;
        pid_t r = waitpid(pid[w], &status, WNOHANG);
        if (r == pid[w]) {
          done[w] = true;
          --left;
          if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            bad = int(w);
            bad_prop = size_t(sh[w]->prop);
            bad_outcome.failed = true;
            bad_outcome.choices.assign(sh[w]->choices, sh[w]->choices + std::min<uint64_t>(uint64_t(sh[w]->n), kMaxChoices));
            bad_outcome.message = sh[w]->failed ? std::string(sh[w]->message)
                                                : describe(status) + "\n" + first_report(read_file(out + "/worker" + std::to_string(w) + ".err"));
          }
        } else if (stalled(sh[w])) {
          bad = int(w);
          bad_prop = size_t(sh[w]->prop);
          bad_outcome.failed = bad_outcome.hang = true;
          bad_outcome.choices.assign(sh[w]->choices, sh[w]->choices + std::min<uint64_t>(uint64_t(sh[w]->n), kMaxChoices));
          bad_outcome.message = "no answer within the time limit (endless loop or deadlock)";
        }
      }
      usleep(2000);
    }
    for (unsigned w = 0; w < workers; ++w)
      if (!done[w]) {
        kill(-pid[w], SIGKILL);
        kill(pid[w], SIGKILL);
        waitpid(pid[w], nullptr, 0);
      }
    uint64_t n_cases = 0, n_disc = 0;
    for (unsigned w = 0; w < workers; ++w) {
      n_cases += sh[w]->cases;
      n_disc += sh[w]->discards;
    }
    // union of hashes, labels, samples
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> per_prop;
    std::vector<std::string> samples;
    for (unsigned w = 0; w < workers; ++w) {
      std::ifstream in(out + "/worker" + std::to_string(w) + ".stat");
      std::string line;
      while (std::getline(in, line)) {
        if (line.compare(0, 2, "H ") == 0)
          hashes.insert(strtoull(line.c_str() + 2, nullptr, 16));
        else if (line.compare(0, 2, "L ") == 0) {
          auto sp = line.find(' ', 2);
          labels[line.substr(sp + 1)] += strtoull(line.c_str() + 2, nullptr, 10);
        } else if (line.compare(0, 2, "P ") == 0) {
          auto sp = line.find(' ', 2);
          per_prop[line.substr(sp + 1)] += strtoull(line.c_str() + 2, nullptr, 10);
        } else if (line.compare(0, 2, "S ") == 0)
          samples.push_back(line.substr(2));
      }
    }
    std::ofstream res(out + "/result.json");
    res << "{\n \"evaluations\": " << n_cases << ",\n \"discarded\": " << n_disc
        << ",\n \"distinct_nontrivial\": " << hashes.size() << ",\n \"labels\": {";
    bool first = true;
    for (auto& l : labels) {
      res << (first ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
      first = false;
    }
    res << "},\n \"per_property\": {";
    first = true;
    for (auto& l : per_prop) {
      res << (first ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
      first = false;
    }
    res << "},\n \"samples\": [";
    first = true;
    size_t step = std::max<size_t>(1, samples.size() / 6);
    for (size_t i = 0; i < samples.size(); i += step) {
      res << (first ? "" : ",\n  ") << samples[i];
      first = false;
    }
    res << "]";
    int rc = 0;
    if (bad >= 0) {
      // confirm
      int confirmed = 0;
      Outcome o;
      for (int k = 0; k < 3; ++k) {
        auto a = attempt(bad_prop, bad_outcome.choices, bad_outcome.hang ? 2 * case_timeout : case_timeout * 2);
        if (a.failed) {
          ++confirmed;
          o = a;
          if (!bad_outcome.hang) break;
        } else if (bad_outcome.hang)
          break;
      }
      bool conf = bad_outcome.hang ? confirmed == 3 : confirmed > 0;
      auto message = bad_outcome.message;
      uint64_t tries = 0;
      auto choices = bad_outcome.choices;
      if (conf) {
        message = o.message;
        choices = shrink(bad_prop, choices, bad_outcome.hang, message, tries);
      }
      res << ",\n \"failure\": {\"prop\": \"" << ps[bad_prop].name << "\", \"confirmed\": " << (conf ? "true" : "false")
          << ", \"hang\": " << (bad_outcome.hang ? "true" : "false") << ", \"original_message\": \"" << json_escape(bad_outcome.message)
          << "\", \"message\": \"" << json_escape(message) << "\", \"shrink_runs\": " << tries << "}";
      write_replay(out + "/replay.txt", ps[bad_prop].name, choices, message);
      rc = 1;
    }
    res << ",\n \"wall_s\": " << now() - t0 << "\n}\n";
    return rc;
  }

  bool stalled(const Shared* s) const {
    double since = s->since;  // read once: the worker resets it
    return since != 0 && now() - since > case_timeout;
  }

  void write_replay(const std::string& file, const std::string& prop, const std::vector<uint64_t>& ch,
                    const std::string& message) {
    std::ofstream f(file);
    f << "prop " << prop << "\nchoices " << ch.size() << "\n";
    for (auto x : ch) f << x << "\n";
    f << "message\n" << message << "\n";
  }

  void worker(unsigned w, Shared* sh, const std::vector<uint64_t>& quota, double t0) {
    auto& ps = props();
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels, per_prop;
    std::vector<std::string> samples;
    // interleave the properties so that a time limit starves none of them
    std::vector<uint64_t> next(ps.size(), w);
    bool more = true;
    bool stop = false;
    while (more && !stop) {
      more = false;
      for (size_t pi = 0; pi < ps.size() && !stop; ++pi) {
        uint64_t burst = std::max<uint64_t>(1, quota[pi] / 200);
        for (uint64_t b = 0; b < burst && next[pi] < quota[pi]; ++b) {
          if (now() - t0 > seconds) {
            stop = true;
            break;
          }
          more = true;
          uint64_t idx = next[pi];
          next[pi] += workers;
          uint64_t s = fnv(ps[pi].name) ^ (seed * 0x9e3779b97f4a7c15ULL);
          splitmix(s);
          s ^= idx * 0xd1342543de82ef95ULL;
          splitmix(s);
          sh->prop = int(pi);
          sh->index = idx;
          sh->since = now();
          Gen g(sh, s);
          Case c;
          bool disc = false;
          bool ok = run_one(ps[pi], g, c, &disc);
          sh->since = 0;
          sh->cases = sh->cases + 1;
          if (!ok) {
            set_message(sh, c.failure);
            sh->failed = 1;
            write_stats(w, hashes, labels, per_prop, samples);
            _exit(kExitFail);
          }
          if (disc) {
            sh->discards = sh->discards + 1;
            continue;
          }
          ++per_prop[ps[pi].name];
          for (auto& l : c.labels) ++labels[ps[pi].name + ": " + l];
          if (c.nontrivial_) {
            auto h = fnv(sh->choices, sh->n * sizeof(uint64_t), fnv(ps[pi].name));
            if (hashes.insert(h).second && (per_prop[ps[pi].name] == 1 + 2 * w) && samples.size() < 8) {
              auto t = c.text.str();
              if (t.size() > 900) t = t.substr(0, 900) + "...";
              samples.push_back("{\"prop\": \"" + ps[pi].name + "\", \"case\": " + std::to_string(idx) + ", \"text\": \"" + json_escape(t) + "\"}");
            }
          }
        }
      }
    }
    write_stats(w, hashes, labels, per_prop, samples);
  }

  void write_stats(unsigned w, const std::unordered_set<uint64_t>& hashes, const std::map<std::string, uint64_t>& labels,
                   const std::map<std::string, uint64_t>& per_prop, const std::vector<std::string>& samples) {
    FILE* f = fopen((out + "/worker" + std::to_string(w) + ".stat").c_str(), "w");
    if (!f) return;
    for (auto h : hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
    for (auto& l : labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
    for (auto& l : per_prop) fprintf(f, "P %llu %s\n", (unsigned long long)l.second, l.first.c_str());
    for (auto& s : samples) fprintf(f, "S %s\n", s.c_str());
    fclose(f);
  }

  // Re-runs a replay file. Exit 1 if it still fails.
  int replay(const std::string& file) {
    std::ifstream in(file);
    std::string word, prop;
    size_t n = 0;
    in >> word;
    while (in && word != "prop") in >> word;
    in >> prop >> word >> n;
    std::vector<uint64_t> ch(n);
    for (auto& x : ch) in >> x;
    for (size_t i = 0; i < props().size(); ++i) {
      if (props()[i].name != prop) continue;
      auto o = attempt(i, ch, case_timeout);
      std::cout << (o.failed ? "FAIL" : "PASS") << " " << prop << "\n" << o.message << "\n";
      // human readable case, from a child (it may crash)
      pid_t pid = fork();
      if (pid == 0) {
        redirect_stderr("/dev/null");
        alarm(unsigned(case_timeout));
        auto* sh = map_shared();
        Gen g(sh, ch);
        Case c;
        c.verbose = true;
        run_one(props()[i], g, c);
        std::cout << "--- case ---\n" << c.text.str() << "\n";
        std::cout.flush();
        _exit(0);
      }
      waitpid(pid, nullptr, 0);
      return o.failed ? 1 : 0;
    }
    std::cerr << "unknown property " << prop << "\n";
    return 2;
  }
};

inline int main_(int argc, char** argv) {
  Runner r;
  std::string replay;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") r.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases") r.cases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--seconds") r.seconds = atof(next().c_str());
    else if (a == "--workers") r.workers = unsigned(atoi(next().c_str()));
    else if (a == "--out") r.out = next();
    else if (a == "--only") r.only = next();
    else if (a == "--timeout") r.case_timeout = atof(next().c_str());
    else if (a == "--replay") replay = next();
    else if (a == "--list") {
      for (auto& p : props()) std::cout << p.name << " " << p.weight << "\n";
      return 0;
    }
  }
  if (!replay.empty()) {
    mkdir(r.out.c_str(), 0755);
    return r.replay(replay);
  }
  return r.run();
}

}  // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((used)) const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=3000:"
         "detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0";
}
extern "C" __attribute__((used)) const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=86";
}
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" __attribute__((used)) const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=86:report_signal_unsafe=0";
}
#endif

#define PBT_MAIN \
  int main(int argc, char** argv) { return pbt::main_(argc, argv); }
