// P12: the same program in differently arranged processes.
#include "jobs.hpp"

#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using namespace sim;
using jobs::Out;

// fills the stack below the caller with a pattern
__attribute__((noinline)) void paint(unsigned char x, std::size_t n) {
  volatile unsigned char buf[4096];
  for (auto& b : buf) {
    b = x;
  }
  if (n > 4096) {
    paint(x, n - 4096);
  }
  asm volatile("" : : "r"(&buf) : "memory");
}

struct S12 {
  Ctx& c;
  const Plan& plan;
  std::vector<const Step*> jobSteps;
  bool anyShared = false;

  // world: a = {region, layout seed, fifo, pad, far, order, entropy, flags,
  //             prior work, failing allocation}
  void world(const Step& w, std::size_t index, std::vector<std::vector<Out>>& first,
             std::vector<std::vector<Out>>& again, u64 stat[6]) {
    arena::world(w.at(0), w.at(1), w.at(2) % 2 != 0, true, w.at(3) % 4096,
                 w.at(4) % 5 == 0 ? 0 : u64{1} << (10 + w.at(4) % 15));
    env::script(w.at(6), mix(w.at(6)));
    const u64 flags = w.at(7);
    std::ostringstream stream;
    std::unique_ptr<dd::Package> shared;
    jobs::Env base;
    base.keep = (flags & 1U) != 0;
    if ((flags & 2U) != 0) {
      base.stream = &stream;
    }
    if ((flags & 4U) != 0) {
      auto cfg = ddu::configFrom(w.at(1));
      cfg.stochasticCacheOps =
          dd::STOCHASTIC_NOISE_SIMULATOR_DD_PACKAGE_CONFIG.stochasticCacheOps;
      shared = std::make_unique<dd::Package>(4, cfg);
    }
    // unrelated earlier work, some of it cut short by a failing allocation
    u64 pr = w.at(8);
    for (u64 i = 0, n = w.at(8) % 4; i < n; i++) {
      pr = mix(pr);
      Step st;
      st.op = "job";
      st.a = {mix(pr), mix(pr + 1) >> 30, mix(pr + 2) >> 30, 1 + mix(pr + 3) % 5};
      jobs::Env e = base;
      if (w.at(9) % 2 == 1) {
        arena::arm(1 + mix(pr + w.at(9)) % 400);
      }
      try {
        SutScope s;
        jobs::run(st, e);
      } catch (const std::bad_alloc&) {
        stat[2]++;
      } catch (const std::exception&) {
      }
      if (arena::disarm()) {
        stat[1]++;
      }
      stat[0]++;
      // what the earlier work kept must not outlive a failed allocation
      if (base.keep && w.at(9) % 2 == 0) {
        for (auto& k : e.kept) {
          base.kept.push_back(std::move(k));
        }
      }
    }
    first.assign(jobSteps.size(), {});
    again.assign(jobSteps.size(), {});
    const auto order = circ::permutation(w.at(5), jobSteps.size());
    for (std::size_t k = 0; k < order.size(); k++) {
      const auto i = w.at(5) == 0 ? k : order[k];
      const auto& st = *jobSteps[i];
      for (int rep = 0; rep < ((flags & 8U) != 0 ? 2 : 1); rep++) {
        jobs::Env e;
        e.keep = base.keep;
        e.stream = base.stream;
        e.shared = shared.get();
        e.hasShared = anyShared;
        // without a seed the result may only depend on the entropy source
        const bool seeded = st.at(3) != 0;
        env::script(seeded ? mix(w.at(6) + k * 2 + static_cast<u64>(rep))
                           : mix(st.at(1)),
                    mix(w.at(6) + k));
        paint(static_cast<unsigned char>(mix(w.at(1) + k)), 65536);
        try {
          jobs::run(st, e);
        } catch (const std::exception& x) {
          e.put("exception", true, x.what());
        }
        stat[3] += env::draws();
        (rep == 0 ? first : again)[i] = std::move(e.out);
        for (auto& kp : e.kept) {
          base.kept.push_back(std::move(kp));
        }
      }
    }
    stat[4] = index;
  }

  static void send(int fd, const std::string& s) {
    std::size_t o = 0;
    while (o < s.size()) {
      const auto n = write(fd, s.data() + o, s.size() - o);
      if (n <= 0) {
        _exit(9);
      }
      o += static_cast<std::size_t>(n);
    }
  }

  bool spawn(const Step& w, std::size_t index,
             std::vector<std::vector<Out>>& first,
             std::vector<std::vector<Out>>& again) {
    int fd[2];
    if (pipe(fd) != 0) {
      return false;
    }
    const pid_t pid = fork();
    if (pid < 0) {
      close(fd[0]);
      close(fd[1]);
      return false;
    }
    if (pid == 0) {
      close(fd[0]);
      std::vector<std::vector<Out>> f;
      std::vector<std::vector<Out>> a;
      u64 stat[6] = {};
      world(w, index, f, a, stat);
      std::string m;
      auto num = [&](u64 x) {
        m.append(reinterpret_cast<const char*>(&x), sizeof x);
      };
      for (const u64 x : stat) {
        num(x);
      }
      for (const auto* l : {&f, &a}) {
        for (const auto& j : *l) {
          num(j.size());
          for (const auto& o : j) {
            num(o.label.size());
            m += o.label;
            num(o.exact ? 1 : 0);
            num(o.text.size());
            m += o.text;
          }
        }
      }
      send(fd[1], m);
      _exit(0);
    }
    close(fd[1]);
    std::string m;
    char buf[65536];
    for (;;) {
      const auto n = read(fd[0], buf, sizeof buf);
      if (n <= 0) {
        break;
      }
      m.append(buf, static_cast<std::size_t>(n));
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ||
          WTERMSIG(st) == SIGALRM) {
        c.count("world-out-of-time");
        return false;
      }
      c.fail("P12/crash", "signal %d in world %zu", WTERMSIG(st), index);
    }
    std::size_t p = 0;
    auto num = [&] {
      u64 x = 0;
      if (p + sizeof x > m.size()) {
        throw std::logic_error("short message");
      }
      std::memcpy(&x, m.data() + p, sizeof x);
      p += sizeof x;
      return x;
    };
    auto str = [&] {
      const auto n = num();
      auto s = m.substr(p, n);
      p += n;
      return s;
    };
    u64 stat[6];
    for (auto& x : stat) {
      x = num();
    }
    c.count("prior-work", stat[0]);
    c.count("fault.allocation", stat[1]);
    c.count("entropy-draws", stat[3]);
    for (auto* l : {&first, &again}) {
      l->assign(jobSteps.size(), {});
      for (auto& j : *l) {
        const auto n = num();
        for (u64 i = 0; i < n; i++) {
          Out o;
          o.label = str();
          o.exact = num() != 0;
          o.text = str();
          j.push_back(std::move(o));
        }
      }
    }
    return true;
  }

  void compare(const Step& job, const std::vector<Out>& x,
               const std::vector<Out>& y, const std::string& how) {
    const auto* name = jobs::kindName(job.at(0));
    if (x.size() != y.size()) {
      c.fail(std::string("P12/outputs:") + name,
             "job %s (%llu %llu seed %llu) has %zu outputs %s, %zu before%s%s",
             name, (unsigned long long)job.at(1), (unsigned long long)job.at(2),
             (unsigned long long)job.at(3), y.size(), how.c_str(), x.size(),
             y.empty() ? "" : ": ", y.empty() ? "" : y.back().text.substr(0, 200).c_str());
    }
    for (std::size_t k = 0; k < x.size(); k++) {
      std::string where;
      if (x[k].label != y[k].label || !jobs::same(x[k], y[k], where)) {
        c.fail(std::string("P12/differs:") + name,
               "job %s (%llu %llu seed %llu): %s differs %s: %s", name,
               (unsigned long long)job.at(1), (unsigned long long)job.at(2),
               (unsigned long long)job.at(3), x[k].label.c_str(), how.c_str(),
               where.c_str());
      }
    }
  }

  void run() {
    for (const auto& s : plan.steps) {
      if (s.op == "job") {
        jobSteps.push_back(&s);
      }
      if (s.op == "world" && (s.at(7) & 4U) != 0) {
        anyShared = true;
      }
    }
    std::vector<std::vector<Out>> ref;
    std::size_t w = 0;
    u64 outputs = 0;
    for (const auto& s : plan.steps) {
      if (s.op != "world") {
        continue;
      }
      std::vector<std::vector<Out>> f;
      std::vector<std::vector<Out>> a;
      c.steps++;
      c.ev("world %zu", w);
      if (!spawn(s, w, f, a)) {
        return;
      }
      for (std::size_t i = 0; i < jobSteps.size(); i++) {
        if (!a[i].empty()) {
          compare(*jobSteps[i], f[i], a[i], "when run again");
        }
        if (w > 0) {
          compare(*jobSteps[i], ref[i], f[i], fmt("in world %zu", w));
        }
        for (const auto& o : f[i]) {
          if (o.text.compare(0, 7, "defect ") == 0) {
            c.fail("P12/file", "%s", o.text.c_str());
          }
          if (w == 0) {
            c.feed(o.text.data(), o.text.size());
            u64 h = 0;
            for (const char x : o.text) {
              h = mix(h ^ static_cast<unsigned char>(x));
            }
            c.cover(h);
            outputs++;
          }
        }
        c.steps++;
      }
      if (w == 0) {
        ref = std::move(f);
        for (const auto* j : jobSteps) {
          c.count(std::string("job-") + jobs::kindName(j->at(0)));
        }
      }
      w++;
      c.count("fault.world-layout");
      if (s.at(6) != 0) {
        c.count("fault.other-entropy-and-clock");
      }
    }
    c.count("outputs", outputs);
    c.nontrivial = w >= 2 && outputs > 0;
  }
};
void run12(const Plan& p, Ctx& c) {
  S12 s{c, p, {}, false};
  s.run();
}
Plan gen12(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P12";
  p.add("knob", {r.next() >> 32}, "layout");
  for (u64 i = 0, n = 2 + r.below(5); i < n; i++) {
    p.add("job", {r.below(jobs::NKINDS), r.next() >> 30, r.next() >> 30,
                  r.chance(0.15) ? 0 : r.chance(0.5) ? 1 + r.below(4) : r.next()});
  }
  for (u64 i = 0; i < 2; i++) {
    p.add("world",
          {r.below(4), r.next() >> 32, r.below(2), r.below(3) == 0 ? 0 : r.below(4096),
           r.below(20), r.below(2) == 0 ? 0 : r.next() >> 30, r.next() >> 20,
           i == 0 && r.chance(0.5) ? 0 : r.below(16),
           r.below(3) == 0 ? 0 : r.next() >> 30, r.next() >> 40});
  }
  return p;
}
const Register r12("P12", gen12, run12, 60);
} // namespace
