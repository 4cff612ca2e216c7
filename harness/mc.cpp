#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace mc {

std::string strf(const char* fmt, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

namespace {

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

constexpr size_t kMaxPath = 4000;

struct Shared {  // one per worker, survives its crash
  volatile uint64_t execs, ops, pruned;
  volatile double exec_start;  // 0: not inside an execution
  volatile double timeout;
  volatile uint64_t path_len;
  uint16_t path[kMaxPath];
  uint16_t arity[kMaxPath];
  volatile uint64_t max_len;
  char viol_key[1024];
  char viol_what[8192];
  volatile int has_violation;
  volatile int done;
  uint64_t sample_n;
  char samples[6][2048];
};

struct Path {
  std::vector<uint16_t> c, n;
};

struct SkipShard {};

class CtxImpl : public Ctx {
 public:
  Shared* sh;
  std::vector<uint16_t> prefix;  // decisions to replay
  std::vector<uint16_t> prefix_n;
  size_t pos = 0;
  std::vector<std::string> trace;
  bool thorough_ = false, replay_ = false;
  int jobs = 1, me = 0;
  int shard_at = -1;
  std::unordered_set<uint64_t>* states = nullptr;
  bool want_trace = false;

  size_t choose(size_t n, const char* label) override {
    if (n == 0 || n > 65535) {
      fprintf(stderr, "choose(%zu) at %s\n", n, label);
      _exit(97);
    }
    if ((int)pos == shard_at) shardCheck();
    if (pos >= kMaxPath) {
      fprintf(stderr, "path too long\n");
      _exit(97);
    }
    size_t r = 0;
    if (pos < prefix.size()) {
      r = prefix[pos];
      if (r >= n || (pos < prefix_n.size() && prefix_n[pos] && prefix_n[pos] != n)) {
        fprintf(stderr, "REPLAY DIVERGED at decision %zu (%s): %zu of %zu, recorded %d of %d\n", pos,
                label, r, n, (int)prefix[pos], pos < prefix_n.size() ? (int)prefix_n[pos] : -1);
        _exit(98);
      }
    }
    sh->path[pos] = r;
    sh->arity[pos] = n;
    ++pos;
    sh->path_len = pos;
    return r;
  }
  void shardCheck() {
    if (jobs <= 1 || replay_) return;
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < pos && (int)i < shard_at; ++i) h = mix(h, sh->path[i]);
    h ^= h >> 29;
    if ((int)(h % jobs) != me) throw SkipShard();
  }
  void op(const char* fmt, ...) override {
    sh->ops = sh->ops + 1;
    if (want_trace) {
      char buf[1024];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      trace.push_back(buf);
      if (replay_) fprintf(stderr, "  op %s\n", buf);
    }
  }
  void state(uint64_t h) override {
    if (states) states->insert(h);
  }
  std::unordered_map<uint64_t, int> visited;
  bool revisit(uint64_t h, int remaining) override {
    state(h);
    if (replay_ || pos < prefix.size() || (jobs > 1 && (int)pos <= shard_at)) return false;
    auto [it, fresh] = visited.emplace(h, remaining);
    if (fresh) return false;
    if (it->second >= remaining) return true;
    it->second = remaining;
    return false;
  }
  void fail(const std::string& key, const std::string& what) override {
    throw Violation{key, what};
  }
  bool thorough() const override { return thorough_; }
  bool replaying() const override { return replay_; }
};

std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += ch;
    }
  }
  return r;
}

struct Global {
  std::string property = "C00", out_dir = ".", evidence, replay_file, tier = "quick", only;
  int jobs = 8;
  uint64_t max_violations = 1;
  double budget = 0;
} G;

// Runs one execution. Returns 0 ok, 1 violation, 2 pruned, 3 other shard.
int execute(CtxImpl& ctx, const std::vector<Scenario>& sc, Violation& v) {
  ctx.pos = 0;
  ctx.trace.clear();
  ctx.sh->path_len = 0;
  ctx.shard_at = -1;
  int res = 0;
  try {
    size_t s = ctx.choose(sc.size(), "scenario");
    ctx.shard_at = 1 + sc[s].shard_depth;
    ctx.sh->timeout = sc[s].exec_timeout;
    ctx.sh->exec_start = now();
    sc[s].body(ctx);
    if ((int)ctx.pos <= ctx.shard_at - 1 || (int)ctx.pos == ctx.shard_at) {
      // short execution: assign by its whole path
      if (ctx.jobs > 1 && !ctx.replay_) {
        uint64_t h = 1469598103934665603ULL;
        for (size_t i = 0; i < ctx.pos; ++i) h = mix(h, ctx.sh->path[i]);
        h ^= h >> 29;
        if ((int)(h % ctx.jobs) != ctx.me) res = 3;
      }
    }
  } catch (const Violation& e) {
    v = e;
    res = 1;
  } catch (const Prune&) {
    res = 2;
  } catch (const SkipShard&) {
    res = 3;
  } catch (const std::exception& e) {
    v = Violation{std::string("uncaught-exception"), std::string("uncaught exception: ") + e.what()};
    res = 1;
  }
  ctx.sh->exec_start = 0;
  return res;
}

// Advances to the next path in depth-first order; false when the space is exhausted.
bool advance(Shared* sh, std::vector<uint16_t>& prefix, std::vector<uint16_t>& prefix_n) {
  size_t len = sh->path_len;
  while (len > 0 && sh->path[len - 1] + 1 >= sh->arity[len - 1]) --len;
  if (len == 0) return false;
  prefix.assign(sh->path, sh->path + len);
  prefix_n.assign(sh->arity, sh->arity + len);
  ++prefix[len - 1];
  return true;
}

std::string pathStr(const std::vector<uint16_t>& p) {
  std::string s;
  for (auto x : p) s += (s.empty() ? "" : ",") + std::to_string(x);
  return s;
}

std::string scName(const std::vector<Scenario>& sc, const std::vector<uint16_t>& p) { return p.empty() ? "warm-up" : sc[p[0]].name; }

std::string stateFile(int w) { return G.out_dir + "/states." + std::to_string(w); }

void silence() {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (!getenv("MC_VERBOSE")) dup2(fd, 2);
}

size_t rssMb() {
  static int fd = open("/proc/self/statm", O_RDONLY);
  char b[128] = {};
  if (pread(fd, b, sizeof b - 1, 0) <= 0) return 0;
  size_t a = 0, r = 0;
  sscanf(b, "%zu %zu", &a, &r);
  return r / 256;
}

// The warm-up runs the code under test too: an error there is a violation without a path.
void warmUp(Shared* sh, const Options& o) {
  if (!o.worker_init) return;
  sh->timeout = 120;
  sh->exec_start = now();
  try {
    o.worker_init();
    sh->exec_start = 0;
    sh->timeout = 30;
  } catch (const std::exception& e) {
    strncpy(sh->viol_key, "warm-up", sizeof(sh->viol_key) - 1);
    strncpy(sh->viol_what, (std::string("error while running each operation once: ") + e.what()).c_str(), sizeof(sh->viol_what) - 1);
    sh->has_violation = 1;
    _exit(1);
  }
}

// Worker loop from `start`, until exhausted or violation. stop_path: history replay stops there.
void worker(Shared* sh, int me, const std::vector<Scenario>& sc, const Options& o,
            std::vector<uint16_t> start, std::vector<uint16_t> start_n, bool have_start) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  silence();
  warmUp(sh, o);
  std::unordered_set<uint64_t> states;
  CtxImpl ctx;
  ctx.sh = sh;
  ctx.me = me;
  ctx.jobs = G.jobs;
  ctx.thorough_ = G.tier == "thorough";
  ctx.states = &states;
  if (have_start) {
    ctx.prefix = start;
    ctx.prefix_n = start_n;
  }
  auto dump = [&] {
    std::ofstream f(stateFile(me) + "." + std::to_string(getpid()), std::ios::binary);
    for (auto h : states) f.write((const char*)&h, sizeof h);
  };
  double t0 = now();
  while (true) {
    Violation v;
    uint64_t ops_before = sh->ops;
    // keep the trace for power-of-two executions (samples)
    uint64_t k = sh->execs;
    ctx.want_trace = sh->sample_n < 6 && (k & (k - 1)) == 0;
    int r = execute(ctx, sc, v);
    if (r == 0 || r == 1) {
      sh->execs = sh->execs + 1;
      if (sh->path_len > sh->max_len) sh->max_len = sh->path_len;
      if (r == 0 && ctx.want_trace && !ctx.trace.empty()) {
        std::string s;
        for (auto& t : ctx.trace) s += (s.empty() ? "" : "; ") + t;
        strncpy(sh->samples[sh->sample_n++], s.c_str(), 2047);
      }
    } else {
      sh->ops = ops_before;
      if (r == 2) sh->pruned = sh->pruned + 1;
    }
    if (r == 1) {
      strncpy(sh->viol_key, v.key.c_str(), sizeof(sh->viol_key) - 1);
      strncpy(sh->viol_what, v.what.c_str(), sizeof(sh->viol_what) - 1);
      sh->has_violation = 1;
      dump();
      _exit(1);
    }
    if (!advance(sh, ctx.prefix, ctx.prefix_n)) break;
    if (rssMb() > 2000) {  // the parent goes on in a fresh process
      dump();
      _exit(5);
    }
    if (G.budget > 0 && now() - t0 > G.budget) {
      dump();
      _exit(2);
    }
  }
  sh->done = 1;
  dump();
  _exit(0);
}

struct Outcome {
  bool violated = false, diverged = false, hang = false;
  std::string key, what;
};

// Replays one path (or a worker's history up to it) in a fresh process.
Outcome replay(const std::vector<Scenario>& sc, const Options& o, const std::vector<uint16_t>& path,
               bool history, int me, bool verbose, const std::vector<uint16_t>& from) {
  auto* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!verbose) silence();
    warmUp(sh, o);
    CtxImpl ctx;
    ctx.sh = sh;
    ctx.thorough_ = G.tier == "thorough";
    Violation v;
    if (history) {
      ctx.me = me;
      ctx.jobs = G.jobs;
      ctx.prefix = from;
      while (from != path) {
        execute(ctx, sc, v);
        if (!advance(sh, ctx.prefix, ctx.prefix_n)) break;
        if (ctx.prefix == path || std::lexicographical_compare(path.begin(), path.end(),
                                                               ctx.prefix.begin(), ctx.prefix.end())) {
          break;
        }
        // prefix is a proper prefix of `path` followed by zeros?
        std::vector<uint16_t> full = ctx.prefix;
        while (full.size() < path.size()) full.push_back(0);
        if (full == path) break;
      }
    }
    ctx.replay_ = true;
    ctx.want_trace = true;
    ctx.prefix = path;
    ctx.prefix_n.clear();
    int r = execute(ctx, sc, v);
    if (r == 1) {
      strncpy(sh->viol_key, v.key.c_str(), sizeof(sh->viol_key) - 1);
      strncpy(sh->viol_what, v.what.c_str(), sizeof(sh->viol_what) - 1);
      sh->has_violation = 1;
      _exit(1);
    }
    _exit(0);
  }
  Outcome out;
  int st = 0;
  double limit = 0;
  while (true) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    double s = sh->exec_start;
    limit = sh->timeout * 3;
    if (s > 0 && now() - s > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      out.hang = true;
      out.violated = true;
      out.key = "hang";
      out.what = strf("the execution did not end within %.0f s", limit);
      munmap(sh, sizeof(Shared));
      return out;
    }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 98) out.diverged = true;
  else if (sh->has_violation) {
    out.violated = true;
    out.key = sh->viol_key;
    out.what = sh->viol_what;
  } else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
    out.violated = true;
    out.key = WIFSIGNALED(st) ? strf("crash-signal-%d", WTERMSIG(st)) : strf("crash-exit-%d", WEXITSTATUS(st));
    out.what = "the process under test died: " + out.key;
  }
  munmap(sh, sizeof(Shared));
  return out;
}

std::vector<uint16_t> parsePath(const std::string& s) {
  std::vector<uint16_t> p;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) p.push_back(std::stoi(t));
  return p;
}

}  // namespace

int run(int argc, char** argv, const std::vector<Scenario>& all_sc, const Options& o) {
  std::set<std::string> known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--property") G.property = val();
    else if (a == "--tier") G.tier = val();
    else if (a == "--jobs") G.jobs = std::stoi(val());
    else if (a == "--out") G.out_dir = val();
    else if (a == "--evidence") G.evidence = val();
    else if (a == "--replay") G.replay_file = val();
    else if (a == "--known") known.insert(val());
    else if (a == "--only") G.only = val();
    else if (a == "--budget") G.budget = std::stod(val());
    else if (a == "--max") G.max_violations = std::stoul(val());  // development: go on after a violation
  }
  std::vector<Scenario> sc;
  for (auto& s : all_sc) {
    if (G.only.empty() || s.name.find(G.only) != std::string::npos) sc.push_back(s);
  }
  setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0", 1);

  if (!G.replay_file.empty()) {
    std::ifstream f(G.replay_file);
    std::string line;
    std::map<std::string, std::string> kv;
    while (std::getline(f, line)) {
      auto p = line.find('=');
      if (p != std::string::npos) kv[line.substr(0, p)] = line.substr(p + 1);
    }
    G.tier = kv.count("tier") ? kv["tier"] : G.tier;
    if (kv.count("jobs")) G.jobs = std::stoi(kv["jobs"]);
    auto r = replay(sc, o, parsePath(kv["path"]), kv["mode"] == "history",
                    kv.count("worker") ? std::stoi(kv["worker"]) : 0, true, parsePath(kv["from"]));
    printf("replay: %s %s %s\n", r.violated ? "VIOLATED" : "ok", r.key.c_str(), r.what.c_str());
    return r.violated ? 1 : 0;
  }

  double t0 = now();
  mkdir(G.out_dir.c_str(), 0777);
  std::vector<Shared*> sh(G.jobs);
  std::vector<pid_t> pids(G.jobs, 0);
  std::vector<bool> capped(G.jobs, false);
  std::vector<std::vector<uint16_t>> from(G.jobs);  // where each worker process began
  std::vector<int> again(G.jobs, 0);
  auto spawn = [&](int w, bool resume, bool same = false) {
    std::vector<uint16_t> p, n;
    if (same) {
      p.assign(sh[w]->path, sh[w]->path + sh[w]->path_len);
      n.assign(sh[w]->arity, sh[w]->arity + sh[w]->path_len);
    } else if (resume) {
      if (!advance(sh[w], p, n)) {
        sh[w]->done = 1;
        pids[w] = 0;
        return;
      }
    }
    sh[w]->has_violation = 0;
    sh[w]->exec_start = 0;
    from[w] = p;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) worker(sh[w], w, sc, o, p, n, resume);
    pids[w] = pid;
  };
  for (int w = 0; w < G.jobs; ++w) {
    sh[w] = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh[w]->timeout = 30;
    spawn(w, false);
  }
  struct Found {
    std::vector<uint16_t> path;
    Outcome out;
    std::string mode;
    int worker;
    std::vector<uint16_t> from;
  };
  std::vector<Found> found, known_found;
  std::set<std::string> known_seen;
  bool stop = false, error = false;
  std::string error_what;
  size_t known_hits = 0;
  int running = G.jobs;
  while (running > 0) {
    running = 0;
    for (int w = 0; w < G.jobs; ++w) {
      if (!pids[w]) continue;
      ++running;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        double s = sh[w]->exec_start;
        if (s > 0 && now() - s > sh[w]->timeout) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          hang = true;
        } else if (stop) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          pids[w] = 0;
          continue;
        } else {
          continue;
        }
      }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        pids[w] = 0;
        continue;
      }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 2) {
        capped[w] = true;
        pids[w] = 0;
        continue;
      }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 5) {
        spawn(w, true);
        continue;
      }
      if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !stop && ++again[w] < 5) {
        usleep(500000);  // ended from outside (memory): run the same execution again
        spawn(w, true, true);
        continue;
      }
      if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
        error = true;
        error_what = strf("worker %d: harness error %d", w, WEXITSTATUS(st));
        stop = true;
        pids[w] = 0;
        continue;
      }
      // a violation, crash or hang: replay it alone in a fresh process, then with its history
      Found f;
      f.path.assign(sh[w]->path, sh[w]->path + sh[w]->path_len);
      f.worker = w;
      f.from = from[w];
      f.mode = "single";
      f.out = replay(sc, o, f.path, false, w, false, from[w]);
      if (hang && !f.out.violated) {  // slow machine: alone, the same execution ended well
        spawn(w, true);
        continue;
      }
      if (!f.out.violated) {
        f.mode = "history";
        f.out = replay(sc, o, f.path, true, w, false, from[w]);
        if (!f.out.violated) f.out = replay(sc, o, f.path, true, w, false, from[w]);
      }
      if (!f.out.violated) {  // seen once, but it depends on something outside the path (memory addresses, say)
        f.mode = "unreproduced";
        f.out.violated = true;
        f.out.key = sh[w]->has_violation ? sh[w]->viol_key : "crash";
        f.out.what = strf("%s (did not happen again when replayed)", sh[w]->viol_what);
      }
      std::string full_key = scName(sc, f.path) + ":" + f.out.key;
      bool is_known = known.count(full_key);
      if (!is_known) {
        for (auto& k : known) {
          if (!k.empty() && k.back() == '*' && full_key.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0) is_known = true;
        }
      }
      if (is_known) {
        ++known_hits;
        if (known_seen.insert(full_key).second) known_found.push_back(f);
        spawn(w, true);
      } else {
        if (G.max_violations == 1 || known_seen.insert(full_key).second) found.push_back(f);
        pids[w] = 0;
        if (found.size() >= G.max_violations) stop = true;
        else spawn(w, true);
      }
    }
    if (running) usleep(3000);
  }
  uint64_t execs = 0, ops = 0, pruned = 0, max_len = 0;
  bool exhausted = found.empty() && !error;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> states;
  for (int w = 0; w < G.jobs; ++w) {
    execs += sh[w]->execs;
    ops += sh[w]->ops;
    pruned += sh[w]->pruned;
    max_len = std::max<uint64_t>(max_len, (uint64_t)sh[w]->max_len);
    if (capped[w]) exhausted = false;
    for (uint64_t i = 0; i < sh[w]->sample_n && samples.size() < 8; ++i) samples.push_back(sh[w]->samples[i]);
  }
  {
    std::string cmd = G.out_dir;
    for (int w = 0; w < G.jobs; ++w) {
      // state files carry the pid; collect them all
    }
    std::string list = "ls " + G.out_dir + "/states.* 2>/dev/null";
    FILE* p = popen(list.c_str(), "r");
    char line[4096];
    std::vector<std::string> files;
    while (fgets(line, sizeof line, p)) {
      std::string s = line;
      s.pop_back();
      files.push_back(s);
    }
    pclose(p);
    for (auto& s : files) {
      std::ifstream f(s, std::ios::binary);
      uint64_t h;
      while (f.read((char*)&h, sizeof h)) states.insert(h);
      unlink(s.c_str());
    }
  }
  double wall = now() - t0;
  for (auto& f : found) {
    std::string rp = G.out_dir + "/replay." + scName(sc, f.path) + ".txt";
    std::ofstream r(rp);
    r << "# replay with: " << argv[0] << " --only " << G.only << " --replay " << rp << "\n";
    r << "property=" << G.property << "\ntier=" << G.tier << "\njobs=" << G.jobs << "\nworker=" << f.worker
      << "\nfrom=" << pathStr(f.from) << "\nmode=" << f.mode << "\nscenario=" << scName(sc, f.path) << "\nkey=" << f.out.key
      << "\nwhat=" << f.out.what << "\npath=" << pathStr(f.path) << "\n";
    r.close();
    printf("# %s: %s: %s\n", scName(sc, f.path).c_str(), f.out.key.c_str(), f.out.what.c_str());
    printf("VIOLATION property=%s replay=%s\n", G.property.c_str(), rp.c_str());
  }
  for (auto& f : known_found) {
    printf("KNOWN-FINDING: property=%s %s:%s %s\n", G.property.c_str(), scName(sc, f.path).c_str(),
           f.out.key.c_str(), f.out.what.substr(0, 300).c_str());
  }
  printf("# %s %s: executions=%llu operations=%llu distinct_states=%zu pruned=%llu longest=%llu wall=%.1fs%s%s\n",
         G.property.c_str(), G.tier.c_str(), (unsigned long long)execs, (unsigned long long)ops, states.size(),
         (unsigned long long)pruned, (unsigned long long)max_len, wall, exhausted ? " exhaustive" : " NOT exhausted",
         error ? (" ERROR " + error_what).c_str() : "");
  if (!G.evidence.empty()) {
    std::ofstream e(G.evidence);
    e << "{\"executions\":" << execs << ",\"states\":" << states.size() << ",\"transitions\":" << ops
      << ",\"pruned\":" << pruned << ",\"longest_path\":" << max_len << ",\"exhaustive\":"
      << (exhausted ? "true" : "false") << ",\"violations\":" << found.size() << ",\"known_hits\":" << known_hits
      << ",\"wall_s\":" << wall << ",\"scenarios\":[";
    for (size_t i = 0; i < sc.size(); ++i) e << (i ? "," : "") << "\"" << jesc(sc[i].name) << "\"";
    e << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) e << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    e << "],\"rule\":\"" << jesc(o.rule) << "\",\"assumptions\":[";
    for (size_t i = 0; i < o.assumptions.size(); ++i) e << (i ? "," : "") << "\"" << jesc(o.assumptions[i]) << "\"";
    e << "]}\n";
  }
  if (!found.empty()) return 1;
  if (error) {
    fprintf(stderr, "ERROR: %s\n", error_what.c_str());
    return 4;
  }
  return 0;
}

}  // namespace mc
