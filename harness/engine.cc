#include "engine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <atomic>
#include <exception>
#include <fstream>
#include <sstream>
#include <map>
#include <unordered_map>
#include <algorithm>

extern "C" {
  const char* __asan_default_options() {
    return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=0:"
      "quarantine_size_mb=16:detect_stack_use_after_return=0:handle_segv=1:alloc_dealloc_mismatch=0:"
      "malloc_context_size=8:detect_container_overflow=0:symbolize=1:use_sigaltstack=1:handle_abort=0";
  }
  const char* __ubsan_default_options() { return "exitcode=98:print_stacktrace=1:halt_on_error=1"; }
  const char* __tsan_default_options() { return "exitcode=97:halt_on_error=1:history_size=2:report_thread_leaks=0"; }
}

// Coverage counters of the code compiled with -fsanitize-coverage=inline-8bit-counters (check.sh), when there are any.
namespace {
  struct Counters { uint8_t *lo, *hi; };
  Counters counters[256]; size_t ncounters, edges;
}
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* lo, uint8_t* hi) {
  for (size_t i = 0; i < ncounters; i++) if (counters[i].lo == lo) return;
  if (ncounters < 256 && lo < hi) { counters[ncounters++] = {lo, hi}; edges += hi - lo; }
}

namespace eng {

  Src* current = nullptr;

  namespace {
    constexpr size_t TAPE = 1 << 17, LOGSZ = 1 << 14, HASHES = 1 << 22, NLABEL = 512, SAMPLES = 3;
    constexpr int MAXW = 16;

    struct Slot {
      std::atomic<u64> idx, cases;
      std::atomic<u64> len;
      u64 start;
      char msg[LOGSZ];
      u64 tape[TAPE];
      u64 nsamples;
      u64 sample_len[SAMPLES];
      u64 sample[SAMPLES][4096];
    };
    struct Shared {
      std::atomic<u64> guided, kept, covered;
      std::atomic<u64> evals, nontriv, distinct, stop, done, trivial, leaks_checked;
      std::atomic<int> lock;
      std::atomic<u64> nlabels;
      struct { char name[64]; std::atomic<u64> n; } labels[NLABEL];
      std::atomic<u64> hashes[HASHES];
      Slot slots[MAXW + 1];
    };
    Shared* sh;
    Slot* slot;
    bool leak_mode;
    std::string log_dir;
    double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    std::vector<std::pair<char const*, int>>* case_labels;
    std::unordered_map<char const*, int>* label_ids;
    std::string* trace;
  }

  u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }

  u64 Src::next() { rng += 0x9e3779b97f4a7c15ull; return mix(rng); }

  u64 Src::draw(u64 bound) {
    u64 v;
    if (gen) v = pos < in_len ? in[pos] : next();
    else v = pos < in_len ? in[pos] : 0;
    if (bound) v %= bound;
    if (side) {}
    else if (slot && pos < TAPE) { slot->tape[pos] = v; slot->len.store(pos + 1, std::memory_order_relaxed); }
    else if (pos >= TAPE) v = 0;
    ++pos;
    hash = mix(hash ^ v);
    return v;
  }

  unsigned Src::weigh(std::initializer_list<unsigned> w) {
    unsigned tot = 0, i = 0;
    for (auto x : w) tot += x;
    auto v = draw(tot);
    for (auto x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
  }

  static bool verb_mode;
  void Src::note(std::string const& s) { if (verb && trace->size() < 100000) { *trace += s; *trace += '\n'; } }

  void Src::label(char const* name) {
    auto it = label_ids->find(name);
    int id;
    if (it != label_ids->end()) id = it->second;
    else {
      while (sh->lock.exchange(1)) usleep(10);
      u64 n = sh->nlabels;
      for (id = 0; id < (int)n; id++) if (!strncmp(sh->labels[id].name, name, 63)) break;
      if (id == (int)n && n < NLABEL) { strncpy(sh->labels[n].name, name, 63); sh->nlabels = n + 1; }
      if (id >= (int)NLABEL) id = NLABEL - 1;
      sh->lock = 0;
      label_ids->emplace(name, id);
    }
    for (auto& p : *case_labels) if (p.second == id) return;
    case_labels->emplace_back(name, id);
  }

  std::string quote(std::string const& s, size_t max) {
    static char const* hex = "0123456789abcdef";
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
      if (i >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
      unsigned char c = s[i];
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c >= 32 && c < 127) o += c;
      else { o += "\\x"; o += hex[c >> 4]; o += hex[c & 15]; }
    }
    return o + '"';
  }

  void fail(char const* file, int line, char const* what, std::string const& msg) {
    char const* f = strrchr(file, '/');
    snprintf(slot->msg, LOGSZ, "%s:%d: %s: %s", f ? f + 1 : file, line, what, msg.c_str());
    if (verb_mode) {
      fwrite(trace->data(), 1, trace->size(), stdout);
      printf("FAILED %s\n", slot->msg); fflush(stdout);
    }
    _exit(77);
  }

  namespace {

    void on_terminate() {
      std::string m = "uncaught exception";
      try { if (auto p = std::current_exception()) std::rethrow_exception(p); }
      catch (std::exception const& e) { m += std::string(": ") + e.what(); }
      catch (...) {}
      fail("case", 0, "no unexpected exception", m);
    }
    void on_vtalrm(int) {
      static char const m[] = "the case did not terminate (60 s of CPU time)";
      memcpy(slot->msg, m, sizeof m);
      _exit(76);
    }

    void raw_case(Src& s) {
      current = &s;
      dirty(0);
      try { prop.run(s); }
      catch (...) { on_terminate(); }
      current = nullptr;
    }

    void arm_timer() {
      itimerval t {}; t.it_value.tv_sec = 60;
      setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    // Runs one case; returns after success, exits the process on failure.
    void one(u64 const* in, size_t n, bool gen, u64 seed, bool verb, Src& s) {
      s = Src {};
      s.gen = gen; s.rng = seed; s.in = in; s.in_len = n; s.verb = verb_mode = verb;
      slot->len = 0; slot->msg[0] = 0;
      case_labels->clear();
      long before = live();
      raw_case(s);
      if (prop.leaks && live() > before) {
        // Run the same tape again: one-off initialisation does not repeat, a leak does.
        std::vector<u64> t(slot->tape, slot->tape + std::min<u64>(slot->len, TAPE));
        auto saved = *case_labels;
        long delta[3];
        for (auto& d : delta) {
          case_labels->clear(); case_labels->reserve(64);
          long l0 = live();
          Src q; q.in = t.data(); q.in_len = t.size(); q.verb = false;
          raw_case(q);
          d = live() - l0;
        }
        if (delta[1] > 0 && delta[2] > 0)
          fail("case", 0, "every allocation is released", std::to_string(delta[2]) + " blocks leaked by the case");
        *case_labels = saved;
      }
    }

    void init_child(Slot* sl, std::string const& log) {
      slot = sl;
      if (log.size()) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
      }
      if (!case_labels) {
        case_labels = new std::vector<std::pair<char const*, int>>; case_labels->reserve(64);
        label_ids = new std::unordered_map<char const*, int>; label_ids->reserve(256);
        trace = new std::string;
      }
      std::set_terminate(on_terminate);
      signal(SIGVTALRM, on_vtalrm);
    }

    u64 seed_for(u64 seed, u64 idx) { return mix(mix(seed * 1000003) ^ mix(idx + 77)); }

    // Coverage guidance: tapes that reached something new are kept and varied.
    struct Corpus {
      std::vector<uint8_t> seen;               // per counter: the hit count classes seen so far
      std::vector<std::vector<u64>> tapes;
      u64 rng = 1;
      u64 next(u64 n) { rng += 0x9e3779b97f4a7c15ull; return n ? mix(rng) % n : mix(rng); }

      void clear() { for (size_t i = 0; i < ncounters; i++) memset(counters[i].lo, 0, counters[i].hi - counters[i].lo); }

      bool fresh(u64& total) {
        static uint8_t cls[256];
        if (!cls[255]) for (int i = 1; i < 256; i++) cls[i] = i < 2 ? 1 : i < 3 ? 2 : i < 4 ? 4 : i < 8 ? 8 : i < 16 ? 16 : i < 32 ? 32 : i < 128 ? 64 : 128;
        if (seen.empty()) seen.resize(edges);
        bool any = false; size_t at = 0;
        for (size_t i = 0; i < ncounters; i++) {
          auto lo = counters[i].lo, hi = counters[i].hi;
          for (auto p = lo; p < hi;) {
            if (hi - p >= 8 && !(7 & (uintptr_t)p) && !*(u64 const*)p) { p += 8; continue; }
            if (*p) { auto& s = seen[at + (p - lo)]; auto c = cls[*p]; if (!(s & c)) { any = true; if (!s) total++; s |= c; } }
            ++p;
          }
          at += hi - lo;
        }
        return any;
      }

      void keep(u64 const* t, size_t n) {
        if (n > 30000) return;
        if (tapes.size() < 4000) tapes.emplace_back(t, t + n); else tapes[next(4000)].assign(t, t + n);
      }

      std::vector<u64> vary() {
        size_t k = tapes.size(); size_t pick = next(2) ? next(k) : k - 1 - next(std::min<size_t>(k, 50));
        auto t = tapes[pick];
        for (u64 n = 1 + next(4); n > 0; n--) {
          if (t.empty()) break;
          size_t at = next(t.size()), len = 1 + next(std::min<size_t>(t.size() - at, next(2) ? 4 : 40));
          switch (next(8)) {
            case 0: case 1: t[at] = next(0); break;
            case 2: t[at] = next(4); break;
            case 3: t[at] += next(2) ? 1 : -1; break;
            case 4: t.erase(t.begin() + at, t.begin() + at + len); break;
            case 5: { std::vector<u64> b(t.begin() + at, t.begin() + at + len); t.insert(t.begin() + next(t.size() + 1), b.begin(), b.end()); break; }
            case 6: t.resize(at); break;           // and go on at random
            default: { auto& o = tapes[next(k)]; if (o.empty()) break; size_t from = next(o.size()); t.resize(at); t.insert(t.end(), o.begin() + from, o.end()); }
          }
        }
        return t;
      }
    };

    [[noreturn]] void worker(int w, u64 start, u64 seed, u64 n, double t0, double min_s, double cap, u64 only_to) {
      init_child(&sh->slots[w], log_dir + "/worker" + std::to_string(w) + ".log");
      slot->start = start;
      Src s;
      Corpus* corpus = edges && only_to == ~0ull ? new Corpus : nullptr;
      if (corpus) corpus->rng = seed_for(seed, start + 1000003);
      for (u64 idx = start;; idx += prop.workers) {
        if (only_to != ~0ull) { if (idx > only_to) break; }
        else {
          if (sh->stop) break;
          double el = now() - t0;
          if (el > cap || (idx >= n && el >= min_s)) break;
        }
        slot->idx = idx;
        arm_timer();
        std::vector<u64> vary;
        if (corpus) { if (corpus->tapes.size() && corpus->next(2)) { vary = corpus->vary(); sh->guided++; } corpus->clear(); }
        one(vary.data(), vary.size(), true, seed_for(seed, idx), false, s);
        if (corpus) {
          u64 total = 0;
          if (corpus->fresh(total)) { sh->kept++; corpus->keep(slot->tape, std::min<u64>(slot->len, TAPE)); }
          if (w == 0) sh->covered += total;
        }
        slot->cases++;
        if (only_to != ~0ull) continue;
        sh->evals++;
        for (auto& p : *case_labels) sh->labels[p.second].n++;
        if (s.nontriv) {
          sh->nontriv++;
          u64 h = s.hash | 1, p = mix(h) % HASHES;
          for (int k = 0; k < 64; k++, p = (p + 1) % HASHES) {
            u64 z = 0;
            if (sh->hashes[p].compare_exchange_strong(z, h)) {
              sh->distinct++;
              u64 len = std::min<u64>(slot->len, TAPE);
              if (slot->nsamples < SAMPLES && len <= 4096 && slot->cases > 20 * slot->nsamples) {
                memcpy(slot->sample[slot->nsamples], slot->tape, len * 8);
                slot->sample_len[slot->nsamples++] = len;
              }
              break;
            }
            if (z == h) break;
          }
        }
      }
      _exit(0);
    }

    // Runs a tape in a forked child; returns its wait status (0 = passed).
    int exec_tape(std::vector<u64> const& t, std::string* out, std::string* msg, std::vector<u64>* norm) {
      std::string log = log_dir + "/replay.log", so = log_dir + "/replay.out";
      Slot* sl = &sh->slots[MAXW];
      sl->msg[0] = 0; sl->len = 0;
      fflush(stdout);
      pid_t p = fork();
      if (!p) {
        init_child(sl, log);
        int fd = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1); close(fd);
        arm_timer();
        Src s;
        one(t.data(), t.size(), false, 0, out != nullptr, s);
        if (out) { fwrite(trace->data(), 1, trace->size(), stdout); fflush(stdout); }
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      auto slurp = [](std::string const& f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); };
      if (out) *out = slurp(so);
      if (msg) {
        *msg = sl->msg;
        if (msg->empty() && st) {
          auto l = slurp(log);
          // First lines of a sanitizer report.
          size_t at = l.find("ERROR: "), at2 = l.find("runtime error: "), at3 = l.find("WARNING: ThreadSanitizer");
          at = std::min(at, std::min(at2, at3));
          if (at != std::string::npos) { at = l.rfind('\n', at); at = at == std::string::npos ? 0 : at + 1; }
          *msg = at == std::string::npos ? l.substr(l.size() > 1500 ? l.size() - 1500 : 0) : l.substr(at, 1800);
          if (WIFSIGNALED(st)) *msg = "killed by signal " + std::to_string(WTERMSIG(st)) + " " + *msg;
        }
      }
      if (norm) norm->assign(sl->tape, sl->tape + std::min<u64>(sl->len, TAPE));
      return st;
    }

    bool fails(std::vector<u64> const& t) {
      if (prop.need == prop.replays) return exec_tape(t, nullptr, nullptr, nullptr) != 0;
      int tries = std::max(1, prop.replays / 2);
      for (int i = 0; i < tries; i++) if (exec_tape(t, nullptr, nullptr, nullptr)) return true;
      return false;
    }

    std::vector<u64> shrink(std::vector<u64> t, double budget, u64& execs) {
      double end = now() + budget;
      auto attempt = [&](std::vector<u64> const& c) {
        if (now() > end || c == t) return false;
        execs++;
        if (!fails(c)) return false;
        // keep what the case really consumed
        std::vector<u64> norm(sh->slots[MAXW].tape, sh->slots[MAXW].tape + std::min<u64>(sh->slots[MAXW].len, TAPE));
        t = norm.size() < c.size() ? norm : c;
        return true;
      };
      bool progress = true;
      while (progress && now() < end) {
        progress = false;
        for (size_t k = t.size(); k >= 1; k /= 2) {
          for (size_t i = t.size(); i > 0 && now() < end;) {
            size_t b = i > k ? i - k : 0, e = std::min(i, t.size());
            if (b >= e) { i = b; continue; }
            auto c = t; c.erase(c.begin() + b, c.begin() + e);
            if (attempt(c)) progress = true;
            i = b;
          }
        }
        for (size_t k = std::min<size_t>(64, t.size()); k >= 1; k /= 2) {
          for (size_t i = 0; i < t.size() && now() < end; i += k) {
            auto c = t; bool any = false;
            for (size_t j = i; j < std::min(i + k, c.size()); j++) if (c[j]) { c[j] = 0; any = true; }
            if (any && attempt(c)) progress = true;
          }
        }
        for (size_t i = 0; i < t.size() && now() < end; i++) {
          u64 lo = 0;
          while (i < t.size() && t[i] > lo && now() < end) {
            auto c = t; c[i] = lo + (t[i] - lo) / 2;
            if (c[i] == t[i]) break;
            if (attempt(c)) progress = true; else lo = c[i] + 1;
          }
        }
      }
      return t;
    }

    std::string jstr(std::string const& s) {
      std::string o = "\"";
      for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
      }
      return o + '"';
    }

    std::vector<u64> read_replay(std::string const& f, std::string& kind, u64& a, u64& b, u64& seed) {
      std::ifstream i(f); std::string line; std::vector<u64> t;
      while (std::getline(i, line)) {
        std::istringstream l(line); std::string k; l >> k;
        if (k == "kind") l >> kind;
        else if (k == "range") l >> a >> b >> seed;
        else if (k == "tape") { u64 v; while (l >> v) t.push_back(v); }
      }
      return t;
    }

    int exec_range(int w, u64 from, u64 to, u64 seed) {
      fflush(stdout);
      pid_t p = fork();
      if (!p) worker(w, from, seed, 0, now(), 0, 1e9, to);
      int st = 0; waitpid(p, &st, 0);
      return st;
    }
  }

  int run_main(int argc, char** argv) {
    std::string tier = "quick", replay, root = "."; u64 seed = 1;
    if (auto e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
    double secs = -1; long long over_n = -1;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--tier") tier = argv[++i];
      else if (a == "--replay") replay = argv[++i];
      else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
      else if (a == "--root") root = argv[++i];
      else if (a == "--secs") secs = atof(argv[++i]);
      else if (a == "--n") over_n = atoll(argv[++i]);
    }
    bool quick = tier == "quick";
    log_dir = root + "/build/" + prop.id;
    mkdir((root + "/build").c_str(), 0755); mkdir(log_dir.c_str(), 0755);
    mkdir((root + "/evidence").c_str(), 0755); mkdir((root + "/replays").c_str(), 0755);
    rlimit rl {0, 0}; setrlimit(RLIMIT_CORE, &rl);

    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }

    auto probe = [&](Known const& k) -> std::string {
      fflush(stdout);
      memset((void*)sh->slots[0].msg, 0, 16);
      pid_t p = fork();
      if (!p) { init_child(&sh->slots[0], log_dir + "/probe.log"); arm_timer(); Src s; current = &s; try { k.probe(); } catch (...) { on_terminate(); } _exit(0); }
      int st = 0; waitpid(p, &st, 0);
      std::string m = st ? sh->slots[0].msg : "";
      if (st && m.empty()) m = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
      memset((void*)sh->slots[0].msg, 0, 16);
      return m;
    };

    if (replay.size()) {
      std::string kind = "tape"; u64 a = 0, b = 0, sd = 0;
      auto t = read_replay(replay, kind, a, b, sd);
      int st;
      if (kind == "range") { st = exec_range(a % prop.workers, a, b, sd); printf("%s\n", sh->slots[a % prop.workers].msg); }
      else if (!kind.compare(0, 6, "probe:")) { st = 0; for (auto& k : prop.known) if (kind == std::string("probe:") + k.key) { auto m = probe(k); st = !m.empty(); printf("%s\n", m.c_str()); } }
      else if (kind == "once") { st = 0; fflush(stdout); pid_t p = fork(); if (!p) { init_child(&sh->slots[0], ""); Src s; current = &s; prop.once(); _exit(0); } waitpid(p, &st, 0); printf("%s\n", sh->slots[0].msg); }
      else {
        std::string out, msg;
        st = 0;
        for (int i = 0; i < prop.replays && !st; i++) st = exec_tape(t, &out, &msg, nullptr);
        printf("%s%s\n", out.c_str(), st ? ("FAIL: " + msg).c_str() : "PASS");
      }
      return st ? 1 : 0;
    }

    double t0 = now();
    double min_s = quick ? prop.quick_min_s : prop.thorough_min_s;
    u64 n = quick ? prop.quick_n : prop.thorough_n;
    if (secs >= 0) min_s = secs;
    if (over_n >= 0) n = over_n;
    double cap = quick ? 150 : 3600;
    if (cap < min_s) cap = min_s;

    std::vector<std::string> notes;
    bool violated = false;
    std::string vmsg, vpath; u64 shrink_execs = 0;
    auto write_replay = [&](std::string const& kind, std::vector<u64> const& t, u64 a, u64 b, std::string const& msg, std::string const& out) {
      u64 h = 0; for (auto v : t) h = mix(h ^ v);
      char nm[64]; snprintf(nm, 64, "%s-%016llx.txt", prop.id, (unsigned long long)(kind == "tape" ? h : a * 31 + b));
      vpath = root + "/replays/" + nm;
      std::ofstream o(vpath);
      o << "property " << prop.id << "\nkind " << kind << "\nrange " << a << ' ' << b << ' ' << seed << "\ntape";
      for (auto v : t) o << ' ' << v;
      o << "\n# replay: ./check.sh " << prop.id << " replay <this file>\n";
      std::istringstream l(out + "\n" + msg); std::string line;
      while (std::getline(l, line)) o << "# " << line << '\n';
    };

    if (prop.once) {
      int bad = 0; std::string msg;
      for (int i = 0; i < 3; i++) {
        fflush(stdout);
        pid_t p = fork();
        if (!p) { init_child(&sh->slots[0], log_dir + "/once.log"); arm_timer(); Src s; current = &s; try { prop.once(); } catch (...) { on_terminate(); } _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if (!st) break;
        bad++;
        msg = sh->slots[0].msg;
        if (msg.empty()) { std::ifstream i2(log_dir + "/once.log"); std::stringstream b; b << i2.rdbuf(); msg = b.str().substr(0, 1800); }
      }
      if (bad == 3) { violated = true; vmsg = msg; write_replay("once", {}, 0, 0, msg, ""); }
      else if (bad) notes.push_back("a fixed case failed without reproducing: " + msg);
      memset((void*)sh->slots[0].msg, 0, 16);
    }

    std::vector<std::string> known;
    for (auto& k : prop.known) {
      if (violated) break;
      auto bad = probe(k);
      if (bad.empty()) continue;
      std::ifstream list(root + "/known_findings.txt"); std::string line; bool listed = false;
      auto head = std::string("known: property=") + prop.id + " key=" + k.key + " ";
      while (std::getline(list, line)) if (!line.compare(0, head.size(), head)) listed = true;
      if (listed) known.push_back(std::string(prop.id) + " " + k.key + ": " + k.text);
      else { violated = true; vmsg = std::string(k.text) + ": " + bad; write_replay(std::string("probe:") + k.key, {}, 0, 0, vmsg, ""); }
    }

    std::map<pid_t, int> kids;
    auto spawn = [&](int w, u64 start) {
      fflush(stdout);
      pid_t p = fork();
      if (!p) worker(w, start, seed, n, t0, min_s, cap, ~0ull);
      kids[p] = w;
    };
    if (!violated) for (int w = 0; w < prop.workers; w++) spawn(w, w);
    int unrepro = 0;
    auto kill_all = [&] {
      sh->stop = 1;
      for (auto& k : kids) kill(k.first, SIGKILL);
      for (auto& k : kids) waitpid(k.first, nullptr, 0);
      kids.clear();
    };
    while (!kids.empty()) {
      int st = 0;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p == 0) {
        usleep(20000);
        if (now() - t0 > cap + 100) { notes.push_back("stopped at the wall clock cap"); kill_all(); }
        continue;
      }
      if (p < 0) break;
      auto it = kids.find(p);
      if (it == kids.end()) continue;
      int w = it->second; kids.erase(it);
      if (!st) continue;
      Slot& sl = sh->slots[w];
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        notes.push_back("a worker was killed from outside at case " + std::to_string(sl.idx));
        if (unrepro++ < 20) spawn(w, sl.idx + prop.workers);
        continue;
      }
      std::vector<u64> t(sl.tape, sl.tape + std::min<u64>(sl.len, TAPE));
      std::string first = sl.msg;
      u64 idx = sl.idx, start = sl.start;
      int bad = 0;
      for (int i = 0; i < prop.replays && bad < prop.need; i++) if (exec_tape(t, nullptr, nullptr, nullptr)) bad++;
      if (bad >= prop.need) {
        kill_all();
        auto small = shrink(t, quick ? 45 : 120, shrink_execs);
        std::string out, msg;
        int st2 = 0;
        for (int i = 0; i < prop.replays && !st2; i++) st2 = exec_tape(small, &out, &msg, nullptr);
        violated = true; vmsg = msg.empty() ? first : msg;
        write_replay("tape", small, idx, idx, vmsg, out);
        break;
      }
      // The tape alone does not fail: perhaps earlier cases in the same process matter.
      int badr = 0;
      for (int i = 0; i < 3; i++) {
        if (exec_range(w, start, idx, seed)) badr++; else break;
      }
      if (badr == 3) {
        std::string m = sl.msg;
        kill_all();
        u64 lo = start;  // shorten the range
        for (u64 span = prop.workers; span < idx - start; span *= 4) {
          u64 from = idx - span;
          if (exec_range(w, from, idx, seed)) { lo = from; break; }
        }
        violated = true; vmsg = m.empty() ? first : m;
        write_replay("range", {}, lo, idx, vmsg, "");
        break;
      }
      notes.push_back("unreproduced failure at case " + std::to_string(idx) + ": " + first.substr(0, 300));
      fprintf(stderr, "note: %s\n", notes.back().c_str());
      if (unrepro++ < 20) spawn(w, idx + prop.workers);
    }

    if (edges) notes.push_back("coverage guided: " + std::to_string(sh->guided) + " cases were variations of " + std::to_string(sh->kept) + " kept tapes; one worker covered " + std::to_string(sh->covered) + " of " + std::to_string(edges) + " edges (harness and library, instantiated code only)");
    // Samples, rendered by re-running their tapes.
    std::vector<std::string> samples;
    if (!violated) for (int k = 0; k < (int)SAMPLES && samples.size() < 4; k++)
      for (int w = 0; w < prop.workers && samples.size() < 4; w++) {
        Slot& sl = sh->slots[w];
        if (k >= (int)sl.nsamples) continue;
        std::string out;
        exec_tape(std::vector<u64>(sl.sample[k], sl.sample[k] + sl.sample_len[k]), &out, nullptr, nullptr);
        if (out.size() > 1500) out = out.substr(0, 1500) + "...";
        if (out.size()) samples.push_back(out);
      }
    else { std::ifstream i(vpath); std::stringstream b; b << i.rdbuf(); samples.push_back(b.str().substr(0, 3000)); }
    if (samples.empty()) samples.push_back("(none)");

    std::ofstream o(root + "/evidence/" + prop.id + ".json");
    o << "{\n \"property\": \"" << prop.id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed
      << ", \"level\": \"" << prop.level << "\",\n \"coverage\": {\n  \"evaluations\": " << sh->evals
      << ",\n  \"nontrivial\": " << sh->nontriv << ",\n  \"distinct_nontrivial\": " << sh->distinct
      << ",\n  \"rule\": " << jstr(prop.rule) << ",\n  \"classes\": {";
    bool c = false;
    for (u64 i = 0; i < sh->nlabels; i++) { o << (c ? ", " : "") << jstr(sh->labels[i].name) << ": " << sh->labels[i].n; c = true; }
    o << "},\n  \"unreproduced\": " << unrepro << ",\n  \"known_findings\": [";
    for (size_t i = 0; i < known.size(); i++) o << (i ? ", " : "") << jstr(known[i]);
    o << "],\n  \"notes\": [";
    for (size_t i = 0; i < notes.size(); i++) o << (i ? ", " : "") << jstr(notes[i]);
    o << "],\n  \"shrink_executions\": " << shrink_execs << ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? ",\n   " : "\n   ") << jstr(samples[i]);
    o << "]\n },\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << (violated ? 1 : 0) << ",\n \"assumptions\": [";
    for (size_t i = 0; i < prop.assumptions.size(); i++) o << (i ? ", " : "") << jstr(prop.assumptions[i]);
    o << "]\n}\n";
    o.close();

    printf("%s: %llu cases, %llu distinct non-trivial, %.1f s\n", prop.id, (unsigned long long)sh->evals,
      (unsigned long long)sh->distinct, now() - t0);
    if (getenv("VERIF_SHOW")) for (u64 i = 0; i < sh->nlabels; i++) printf("  %-40s %llu\n", sh->labels[i].name, (unsigned long long)sh->labels[i].n);
    for (size_t i = 0; i < known.size(); i++) printf("KNOWN-FINDING: property=%s\n", known[i].c_str());
    if (violated) {
      printf("%s\n", vmsg.c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.id, vpath.c_str());
      return 1;
    }
    if (unrepro >= 20 && sh->evals == 0) { printf("no case could be run\n"); return 2; }
    return 0;
  }
}

__attribute__((weak)) int main(int argc, char** argv) { return eng::run_main(argc, argv); }
