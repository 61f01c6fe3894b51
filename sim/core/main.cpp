// Runner: executes plans in forked children, detects violations, crashes and
// non-determinism, minimises failing plans.
#include "sim.hpp"

#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>

namespace sim {
Ctx* g = nullptr;

struct Shared {
  int done;
  int violated;
  int nontrivial;
  u64 hash;
  u64 steps;
  char cls[256];
  char msg[4096];
  char last[512];
  std::uint32_t nkeys;
  u64 keys[8192];
  char counters[65536];
};
static Shared* sh = nullptr;

std::string fmt(const char* f, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

void Ctx::ev(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  const int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  feed(buf, static_cast<std::size_t>(std::min<int>(n, sizeof buf - 1)));
  if (sh != nullptr) {
    sh->hash = hash;
    strncpy(sh->last, buf, sizeof sh->last - 1);
  }
  if (verbose) {
    fprintf(stdout, "  %s\n", buf);
    fflush(stdout);
  }
}
void Ctx::fail(const std::string& cls, const char* f, ...) {
  char buf[4000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (!violated) {
    violated = true;
    v.cls = cls;
    v.msg = buf;
    feed(cls.data(), cls.size());
  }
  throw Stop{};
}

std::string Plan::text() const {
  std::string t = "prop " + prop + "\n";
  for (const auto& s : steps) {
    t += s.op;
    for (const auto x : s.a) {
      t += " " + std::to_string(x);
    }
    if (!s.s.empty()) {
      t += " |" + s.s;
    }
    t += "\n";
  }
  return t;
}
Plan Plan::parse(const std::string& t) {
  Plan p;
  std::istringstream is(t);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') {
      continue;
    }
    Step s;
    const auto bar = line.find(" |");
    if (bar != std::string::npos) {
      s.s = line.substr(bar + 2);
      line = line.substr(0, bar);
    }
    std::istringstream ls(line);
    ls >> s.op;
    if (s.op == "prop") {
      ls >> p.prop;
      continue;
    }
    u64 x = 0;
    while (ls >> x) {
      s.a.push_back(x);
    }
    p.steps.push_back(s);
  }
  return p;
}
u64 Plan::knob(const std::string& name, u64 def) const {
  for (const auto& s : steps) {
    if (s.op == "knob" && s.s == name) {
      return s.at(0);
    }
  }
  return def;
}

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
static const Scenario& find(const std::string& prop) {
  for (const auto& s : scenarios()) {
    if (s.prop == prop) {
      return s;
    }
  }
  std::cerr << "unknown scenario " << prop << "\n";
  exit(3);
}

struct Result {
  bool violated = false;
  bool nontrivial = false;
  std::string cls, msg;
  u64 hash = 0;
  u64 steps = 0;
  std::map<std::string, u64> counters;
  std::vector<u64> keys;
};

static void childMain(const Scenario& sc, const Plan& plan, bool verbose) {
  struct rlimit rl {
    sc.cpuSeconds, sc.cpuSeconds + 2
  };
  setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  alarm(180);
  rl = {64U << 20U, 64U << 20U};
  if (!verbose) {
    // library warnings (std::cerr) are not part of any property
    FILE* f = freopen("/dev/null", "w", stderr);
    f = freopen("/dev/null", "w", stdout);
    (void)f;
  }
  const u64 lay = plan.knob("layout", 0);
  arena::configure(lay, (lay & 1U) != 0, true,
                   (lay & 2U) != 0 ? 16 * (lay % 61) : 0);
  Ctx c;
  c.verbose = verbose;
  g = &c;
  try {
    sc.run(plan, c);
  } catch (const Stop&) {
  } catch (const std::exception& e) {
    if (!c.violated) {
      c.violated = true;
      c.v = {"unexpected-exception", std::string(e.what())};
    }
  }
  arena::disarm();
  sh->violated = c.violated ? 1 : 0;
  strncpy(sh->cls, c.v.cls.c_str(), sizeof sh->cls - 1);
  strncpy(sh->msg, c.v.msg.c_str(), sizeof sh->msg - 1);
  sh->hash = c.hash;
  sh->steps = c.steps;
  sh->nontrivial = c.nontrivial ? 1 : 0;
  sh->nkeys = static_cast<std::uint32_t>(std::min<std::size_t>(
      c.keys.size(), sizeof sh->keys / sizeof sh->keys[0]));
  std::copy_n(c.keys.begin(), sh->nkeys, sh->keys);
  std::string ct;
  for (const auto& [k, n] : c.counters) {
    ct += k + "=" + std::to_string(n) + ";";
  }
  strncpy(sh->counters, ct.c_str(), sizeof sh->counters - 1);
  sh->done = 1;
  _exit(0);
}

static Result execute(const Scenario& sc, const Plan& plan,
                      bool verbose = false) {
  memset(static_cast<void*>(sh), 0, offsetof(Shared, keys));
  sh->counters[0] = 0;
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    childMain(sc, plan, verbose);
    _exit(0);
  }
  int st = 0;
  // wall-clock backstop (a child blocked without using CPU): 3x the CPU limit
  waitpid(pid, &st, 0);
  Result r;
  r.hash = sh->hash;
  r.steps = sh->steps;
  if (sh->done == 1) {
    r.violated = sh->violated != 0;
    r.cls = sh->cls;
    r.msg = sh->msg;
    r.nontrivial = sh->nontrivial != 0;
    r.keys.assign(sh->keys, sh->keys + sh->nkeys);
    std::istringstream is(sh->counters);
    std::string kv;
    while (std::getline(is, kv, ';')) {
      const auto e = kv.find('=');
      if (e != std::string::npos) {
        r.counters[kv.substr(0, e)] = std::stoull(kv.substr(e + 1));
      }
    }
  } else {
    r.violated = true;
    if (WIFSIGNALED(st)) {
      const int sig = WTERMSIG(st);
      if (sig == SIGXCPU || sig == SIGKILL || sig == SIGALRM) {
        r.cls = "no-progress";
        r.msg = "the run exceeded its CPU budget; last event: " +
                std::string(sh->last);
        r.hash = 0;
      } else {
        r.cls = "crash";
        r.msg = "signal " + std::to_string(sig) +
                "; last event: " + std::string(sh->last);
      }
    } else {
      r.cls = "exit";
      r.msg = "process ended with status " + std::to_string(st);
    }
  }
  return r;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (const unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}
static double now() {
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + (1e-9 * static_cast<double>(t.tv_nsec));
}
u64 seedOf(u64 verifSeed, const std::string& prop, u64 i) {
  u64 h = mix(verifSeed);
  for (const char c : prop) {
    h = mix(h ^ static_cast<u64>(static_cast<unsigned char>(c)));
  }
  return mix(h ^ mix(i)) & 0x7fffffffffffffffULL;
}

static Plan minimise(const Scenario& sc, Plan p, const std::string& cls,
                     double deadline, u64& execs) {
  auto bad = [&](const Plan& q) {
    execs++;
    const auto r = execute(sc, q);
    return r.violated && r.cls == cls;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    // drop chunks of steps
    for (std::size_t len = std::max<std::size_t>(1, p.steps.size() / 2);
         len >= 1; len /= 2) {
      for (std::size_t i = 0; i < p.steps.size() && now() < deadline;) {
        Plan q = p;
        q.steps.erase(q.steps.begin() + static_cast<long>(i),
                      q.steps.begin() +
                          static_cast<long>(std::min(i + len, p.steps.size())));
        if (bad(q)) {
          p = q;
          progress = true;
        } else {
          i += len;
        }
      }
      if (len == 1) {
        break;
      }
    }
    // shrink arguments
    for (std::size_t i = 0; i < p.steps.size() && now() < deadline; i++) {
      for (std::size_t j = 0; j < p.steps[i].a.size() && now() < deadline;
           j++) {
        const u64 old = p.steps[i].a[j];
        if (old == 0) {
          continue;
        }
        std::vector<u64> cands = {0, 1, 2, 3, old % 4, old % 16, old % 256,
                                  old % 65536, old / 2};
        for (const u64 c : cands) {
          if (c >= old) {
            continue;
          }
          Plan q = p;
          q.steps[i].a[j] = c;
          if (bad(q)) {
            p = q;
            progress = true;
            break;
          }
        }
      }
    }
  }
  return p;
}

static std::string slurp(const std::string& f) {
  std::ifstream is(f, std::ios::binary);
  std::stringstream ss;
  ss << is.rdbuf();
  return ss.str();
}
} // namespace sim

using namespace sim;

int main(int argc, char** argv) {
  // no address-space randomisation: stack and libc addresses are part of the
  // execution
  if (getenv("MQTSIM_NOASLR") == nullptr) {
    const int pers = personality(0xffffffff);
    if (pers != -1 &&
        personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) !=
            -1) {
      setenv("MQTSIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                 PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") {
    for (const auto& s : scenarios()) {
      std::cout << s.prop << "\n";
    }
    return 0;
  }
  if (cmd == "gen") { // gen PROP SEED
    std::cout << find(argv[2]).gen(std::stoull(argv[3])).text();
    return 0;
  }
  if (cmd == "genidx") { // genidx PROP VERIFSEED I
    const auto s = seedOf(std::stoull(argv[3]), argv[2], std::stoull(argv[4]));
    std::cout << find(argv[2]).gen(s).text();
    return 0;
  }
  if (cmd == "run" || cmd == "runv") { // run PLANFILE
    const Plan p = Plan::parse(slurp(argv[2]));
    const auto r = execute(find(p.prop), p, cmd == "runv");
    std::cout << "RESULT violated=" << r.violated << " cls=" << r.cls
              << " hash=" << std::hex << r.hash << std::dec
              << " steps=" << r.steps << " nontrivial=" << r.nontrivial
              << "\nMSG " << r.msg << "\n";
    for (const auto& [k, n] : r.counters) {
      std::cout << "COUNT " << k << "=" << n << "\n";
    }
    return r.violated ? 1 : 0;
  }
  if (cmd == "min") { // min PLANFILE OUT SECONDS
    Plan p = Plan::parse(slurp(argv[2]));
    const auto& sc = find(p.prop);
    const auto r = execute(sc, p);
    if (!r.violated) {
      return 2;
    }
    u64 ex = 0;
    p = minimise(sc, p, r.cls, now() + std::stod(argv[4]), ex);
    std::ofstream(argv[3]) << p.text();
    std::cout << "minimised to " << p.steps.size() << " steps in " << ex
              << " executions\n";
    return 0;
  }
  if (cmd == "batch") {
    // batch PROP VERIFSEED START STRIDE COUNT DEADLINE_S DETEVERY OUT MAXVIOL
    const auto& sc = find(argv[2]);
    const u64 vs = std::stoull(argv[3]);
    const u64 start = std::stoull(argv[4]);
    const u64 stride = std::stoull(argv[5]);
    const u64 count = std::stoull(argv[6]);
    const double deadline = now() + std::stod(argv[7]);
    const u64 detEvery = std::stoull(argv[8]);
    const std::string out = argv[9];
    const u64 maxViol = std::stoull(argv[10]);
    u64 runs = 0;
    u64 nontriv = 0;
    u64 steps = 0;
    u64 det = 0;
    u64 nviol = 0;
    std::map<std::string, u64> counters;
    std::map<std::string, u64> runsWith;
    std::set<u64> keys;
    std::set<u64> hashes;
    std::string viol;
    std::string nondet;
    std::set<std::string> classes;
    bool cut = false;
    for (u64 i = start; i < count; i += stride) {
      if (now() > deadline) {
        cut = true;
        break;
      }
      const u64 seed = seedOf(vs, sc.prop, i);
      const Plan p = sc.gen(seed);
      const auto r = execute(sc, p);
      runs++;
      steps += r.steps;
      for (const auto& [k, n] : r.counters) {
        counters[k] += n;
        runsWith[k]++;
      }
      keys.insert(r.keys.begin(), r.keys.end());
      if (r.nontrivial && !r.violated) {
        nontriv++;
        hashes.insert(r.hash);
      }
      const bool redo =
          r.violated || (detEvery > 0 && (i / stride) % detEvery == 0);
      if (redo) {
        const auto r2 = execute(sc, p);
        det++;
        if (r2.hash != r.hash || r2.violated != r.violated ||
            r2.cls != r.cls) {
          nondet += (nondet.empty() ? "" : ",") + std::to_string(i);
          if (r.violated) {
            continue;
          }
        }
      }
      if (r.violated) {
        nviol++;
        const bool fresh = classes.insert(r.cls).second;
        if (fresh || nviol <= 2) {
          viol += std::string(viol.empty() ? "" : ",") + "{\"index\":" +
                  std::to_string(i) + ",\"seed\":" + std::to_string(seed) +
                  ",\"cls\":\"" + jesc(r.cls) + "\",\"msg\":\"" + jesc(r.msg) +
                  "\"}";
        }
        if (nviol >= maxViol) {
          break;
        }
      }
    }
    std::ofstream os(out);
    os << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv
       << ",\"steps\":" << steps << ",\"det_checked\":" << det
       << ",\"cut\":" << (cut ? "true" : "false") << ",\"nviol\":" << nviol
       << ",\"nondet\":[" << nondet << "],\"violations\":[" << viol
       << "],\"counters\":{";
    bool first = true;
    for (const auto& [k, n] : counters) {
      os << (first ? "" : ",") << "\"" << jesc(k) << "\":[" << n << ","
         << runsWith[k] << "]";
      first = false;
    }
    os << "}}\n";
    std::ofstream ks(out + ".keys", std::ios::binary);
    for (const u64 k : keys) {
      ks.write(reinterpret_cast<const char*>(&k), sizeof k);
    }
    std::ofstream hs(out + ".hashes", std::ios::binary);
    for (const u64 k : hashes) {
      hs.write(reinterpret_cast<const char*>(&k), sizeof k);
    }
    return 0;
  }
  std::cerr << "usage: mqtsim list|gen|run|runv|min|batch ...\n";
  return 3;
}
