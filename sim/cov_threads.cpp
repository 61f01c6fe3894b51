// P11: threads that use only objects of their own.
#include "jobs.hpp"

#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using namespace sim;
using jobs::Out;

struct S11 {
  Ctx& c;
  const Plan& plan;
  struct Thread {
    std::vector<Step> js;
    std::vector<std::vector<Out>> got;
    u64 failed = 0;
  };

  static void work(Thread& t) {
    t.got.assign(t.js.size(), {});
    for (std::size_t i = 0; i < t.js.size(); i++) {
      const auto& st = t.js[i];
      jobs::Env e;
      if (st.at(4) != 0) { // an allocation of this thread fails
        arena::arm(st.at(4));
      }
      try {
        SutScope s;
        jobs::run(st, e);
      } catch (const std::bad_alloc&) {
        t.failed++;
        e.out.clear();
        e.put("failed", true, "");
      } catch (const std::exception& x) {
        e.put("exception", true, x.what());
      }
      arena::disarm();
      t.got[i] = std::move(e.out);
    }
  }
  void world(std::vector<Thread>& ts, const sched::Spec& sp, u64 alone,
             sched::Result& r) {
    // alone = 1 + index of the only thread to run
    std::vector<std::function<void()>> fs;
    for (std::size_t i = 0; i < ts.size(); i++) {
      if (alone == 0 || alone == i + 1) {
        fs.emplace_back([&ts, i] { work(ts[i]); });
      }
    }
    r = sched::run(fs, sp);
  }
  // runs in a process of its own; false: out of time
  bool spawn(std::vector<Thread>& ts, const sched::Spec& sp, u64 alone,
             sched::Result& r) {
    int fd[2];
    if (pipe(fd) != 0) {
      return false;
    }
    const pid_t pid = fork();
    if (pid < 0) {
      close(fd[0]);
      close(fd[1]);
      return false;
    }
    if (pid == 0) {
      close(fd[0]);
      env::script(plan.knob("layout", 0), 1);
      world(ts, sp, alone, r);
      std::string m;
      auto num = [&](u64 x) {
        m.append(reinterpret_cast<const char*>(&x), sizeof x);
      };
      num(r.blocks);
      num(r.switches);
      num(r.blocked);
      num(r.hash);
      num(r.races);
      num(reinterpret_cast<u64>(r.first.addr));
      num(reinterpret_cast<u64>(r.first.pc));
      num(r.first.write ? 1 : 0);
      num(r.first.other);
      num(r.first.size);
      num(r.shared);
      num(r.places.size());
      for (const auto* x : r.places) {
        num(reinterpret_cast<u64>(x));
      }
      num(r.trace.size());
      for (const auto& [n, pc] : r.trace) {
        num(n);
        num(reinterpret_cast<u64>(pc));
      }
      for (const auto& t : ts) {
        num(t.failed);
        num(t.got.size());
        for (const auto& j : t.got) {
          num(j.size());
          for (const auto& o : j) {
            num(o.label.size());
            m += o.label;
            num(o.exact ? 1 : 0);
            num(o.text.size());
            m += o.text;
          }
        }
      }
      std::size_t o = 0;
      while (o < m.size()) {
        const auto n = write(fd[1], m.data() + o, m.size() - o);
        if (n <= 0) {
          _exit(9);
        }
        o += static_cast<std::size_t>(n);
      }
      _exit(0);
    }
    close(fd[1]);
    std::string m;
    char buf[65536];
    for (;;) {
      const auto n = read(fd[0], buf, sizeof buf);
      if (n <= 0) {
        break;
      }
      m.append(buf, static_cast<std::size_t>(n));
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ||
          WTERMSIG(st) == SIGALRM) {
        if (alone == 0) {
          c.fail("P11/no-progress", "the threads do not finish");
        }
        return false;
      }
      if (alone != 0) {
        return false; // not a matter of threads
      }
      c.fail("P11/crash", "signal %d while %zu threads run", WTERMSIG(st),
             ts.size());
    }
    if (WEXITSTATUS(st) == 77) {
      c.fail("P11/deadlock", "a lock is never released");
    }
    if (WEXITSTATUS(st) != 0) {
      return false;
    }
    std::size_t p = 0;
    auto num = [&] {
      u64 x = 0;
      if (p + sizeof x > m.size()) {
        throw std::logic_error("short message");
      }
      std::memcpy(&x, m.data() + p, sizeof x);
      p += sizeof x;
      return x;
    };
    auto str = [&] {
      const auto n = num();
      auto s = m.substr(p, n);
      p += n;
      return s;
    };
    r.blocks = num();
    r.switches = num();
    r.blocked = num();
    r.hash = num();
    r.races = num();
    r.first.addr = reinterpret_cast<const void*>(num());
    r.first.pc = reinterpret_cast<const void*>(num());
    r.first.write = num() != 0;
    r.first.other = num();
    r.first.size = num();
    r.shared = num();
    r.places.resize(num());
    for (auto& x : r.places) {
      x = reinterpret_cast<const void*>(num());
    }
    r.trace.resize(num());
    for (auto& [n, pc] : r.trace) {
      n = num();
      pc = reinterpret_cast<const void*>(num());
    }
    for (auto& t : ts) {
      t.failed = num();
      t.got.assign(num(), {});
      for (auto& j : t.got) {
        j.resize(num());
        for (auto& o : j) {
          o.label = str();
          o.exact = num() != 0;
          o.text = str();
        }
      }
    }
    return true;
  }

  // name of a global variable
  static std::string where(const void* a) {
    if (arena::owns(a)) {
      return "the heap";
    }
    return fmt("the global data at %p", a);
  }
  void run() {
    std::vector<Thread> ts(2 + plan.knob("threads", 0) % 2);
    for (const auto& s : plan.steps) {
      if (s.op == "job") {
        auto j = s;
        j.a.resize(6);
        j.a[3] = std::max<u64>(j.a[3], 1); // seed 0 asks for entropy
        ts[s.at(5) % ts.size()].js.push_back(j);
      }
    }
    // alone
    std::vector<Thread> ref = ts;
    u64 total = 0;
    std::vector<const void*> places;
    for (std::size_t i = 0; i < ts.size(); i++) {
      auto one = ts;
      sched::Result r;
      sched::Spec sp;
      sp.record = true;
      if (!spawn(one, sp, i + 1, r)) {
        return;
      }
      places.insert(places.end(), r.places.begin(), r.places.end());
      ref[i] = std::move(one[i]);
      total += r.blocks;
      c.steps += ts[i].js.size();
    }
    if (total == 0) {
      return;
    }
    std::sort(places.begin(), places.end());
    places.erase(std::unique(places.begin(), places.end()), places.end());
    c.count("places", places.size());
    u64 runs = 0;
    for (const auto& s : plan.steps) {
      if (s.op != "sched" && s.op != "hot" && s.op != "place") {
        continue;
      }
      sched::Spec sp;
      if (s.op == "hot") {
        sp.hot = 1 + s.at(0) % 6;
        sp.seed = s.at(1);
      }
      if (s.op == "place") {
        sp.seed = s.at(0);
        sp.skip = s.at(1) % 4096;
        sp.hits = 1 + s.at(2) % 64;
        const auto k0 = static_cast<std::size_t>(
            (static_cast<unsigned __int128>(places.size()) *
             (s.at(3) & 0xffffffffU)) >>
            32U);
        for (u64 k = 0; k < 1 + s.at(4) % 6 && !places.empty(); k++) {
          sp.watch.push_back(places[(k0 + k * (1 + s.at(5) % 3)) %
                                    places.size()]);
        }
      }
      if (s.op == "sched") {
      const auto at = [&](u64 frac) {
        return static_cast<u64>(static_cast<unsigned __int128>(total) *
                                (frac & 0xffffffffU) >>
                                32U);
      };
      sp.dense = s.at(0) % 24;
      sp.seed = s.at(1);
      sp.lo = at(s.at(2));
      if (s.at(3) != 0) {
        sp.hi = sp.lo + 1 + at(s.at(3));
      }
      for (std::size_t k = 4; k < s.a.size(); k++) {
        sp.at.push_back(1 + at(s.a[k]));
      }
      std::sort(sp.at.begin(), sp.at.end());
      }
      auto now = ts;
      sched::Result r;
      c.ev("schedule: dense %llu in [%llu,%llu), %zu points",
           (unsigned long long)sp.dense, (unsigned long long)sp.lo,
           (unsigned long long)sp.hi, sp.at.size());
      if (!spawn(now, sp, 0, r)) {
        return;
      }
      c.feed(r.hash);
      c.cover(r.hash);
      if (r.races > 0) {
        c.fail("P11/shared-data",
               "threads %s the same data without synchronisation, e.g. at "
               "%s: a %s of %llu bytes at code address %p after an access by "
               "thread %llu",
               "use", where(r.first.addr).c_str(),
               r.first.write ? "write" : "read",
               (unsigned long long)r.first.size, r.first.pc,
               (unsigned long long)r.first.other);
      }
      c.count("shared-accesses", r.shared);
      c.count("fault.preemption", r.switches);
      c.count("lock-waits", r.blocked);
      c.count("blocks", r.blocks);
      runs += r.switches > 0 ? 1 : 0;
      if (c.verbose) {
        for (const auto& [n, pc] : r.trace) {
          c.ev("switch at block %llu pc %p", (unsigned long long)n, pc);
        }
      }
      c.steps += r.switches;
      for (std::size_t t = 0; t < ts.size(); t++) {
        c.count("fault.allocation", now[t].failed);
        for (std::size_t i = 0; i < ts[t].js.size(); i++) {
          const auto& x = ref[t].got[i];
          const auto& y = now[t].got[i];
          const auto& job = ts[t].js[i];
          const auto* name = jobs::kindName(job.at(0));
          // what runs out of memory depends on what has been initialised
          const auto failed = [](const std::vector<Out>& o) {
            return o.size() == 1 && o[0].label == "failed";
          };
          if (failed(x) || failed(y)) {
            continue;
          }
          bool bad = x.size() != y.size();
          std::string where = bad ? "number of outputs" : "";
          for (std::size_t k = 0; !bad && k < x.size(); k++) {
            bad = x[k].label != y[k].label || !jobs::same(x[k], y[k], where);
            if (bad) {
              where = x[k].label + ": " + where;
            }
          }
          if (bad) {
            c.fail(std::string("P11/differs:") + name,
                   "job %s (%llu %llu seed %llu) of thread %zu differs from "
                   "running alone after %llu switches: %s",
                   name, (unsigned long long)job.at(1),
                   (unsigned long long)job.at(2),
                   (unsigned long long)job.at(3), t,
                   (unsigned long long)r.switches, where.c_str());
          }
          for (const auto& o : y) {
            c.feed(o.text.data(), o.text.size());
          }
        }
      }
    }
    c.nontrivial = runs > 0;
  }
};
void run11(const Plan& p, Ctx& c) {
  S11 s{c, p};
  s.run();
}
Plan gen11(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P11";
  p.add("knob", {r.next() >> 32}, "layout");
  p.add("knob", {r.below(3) == 0 ? u64{1} : u64{0}}, "threads");
  const bool sameKind = r.chance(0.4);
  const u64 kind = r.below(jobs::NKINDS);
  const bool faults = r.chance(0.15);
  for (u64 t = 0; t < 3; t++) {
    for (u64 i = 0, n = 1 + r.below(3); i < n; i++) {
      p.add("job", {sameKind ? kind : r.below(jobs::NKINDS), r.next() >> 30,
                    r.next() >> 30, 1 + r.below(1000),
                    faults && r.chance(0.3) ? 1 + r.below(600) : 0, t});
    }
  }
  for (u64 i = 0, n = 1 + r.below(3); i < n; i++) {
    if (r.chance(0.15)) {
      p.add("hot", {r.below(6), r.next() >> 30});
      continue;
    }
    if (r.chance(0.4)) {
      p.add("place", {r.next() >> 30, r.chance(0.5) ? 0 : r.below(200),
                      r.below(64), r.next() >> 32, r.below(6), r.below(3)});
      continue;
    }
    std::vector<u64> a = {0, r.next() >> 30, 0, 0};
    if (r.chance(0.6)) {
      a[0] = 1 + r.below(16);
      if (r.chance(0.5)) {
        a[2] = r.next() >> 32;
        a[3] = r.next() >> (32 + r.below(12));
      }
    }
    if (a[0] == 0 || r.chance(0.3)) {
      for (u64 k = 0, m = 1 + r.below(8); k < m; k++) {
        a.push_back(r.next() >> 32);
      }
    }
    p.add("sched", a);
  }
  return p;
}
const Register r11("P11", gen11, run11, 60);
} // namespace
