// Numbers in a package (P02, P03): equal numbers are stored once, whatever
// bucket they fall into and whatever was stored, held or collected before.
#include "num.hpp"

#include "pkgbase.hpp"

#include <algorithm>
#include <cmath>

using namespace sim;
using namespace ddu;

namespace {
struct Spot { // a value all of whose lookups must give the same number
  double v;
  bool constant; // never stored in the table
  const dd::RealNumber* p = nullptr;
  u64 holds = 0;
};
struct SNum : PkgBase {
  using PkgBase::PkgBase;
  std::vector<Spot> spots;
  struct St {
    double a, b;
  };
  std::vector<St> sts; // amplitudes of well-separated states
  std::map<std::string, dd::vEdge> roots; // held states
  std::map<std::string, Vec> dense;
  bool half = true; // 1/2 is kept from the start until the first reset

  bool p02() const { return id == "P02"; }
  static double eps() { return dd::RealNumber::eps; }
  static bool apart(double a, double b, double d) {
    return std::abs(a - b) > d;
  }
  bool addSpot(double v) {
    if (!(v > 8 * eps()) || v > 4) {
      return false;
    }
    for (const auto& s : spots) {
      if (!apart(s.v, v, 5 * eps())) {
        return false;
      }
    }
    for (const auto& s : sts) {
      if (!apart(s.a, v, 1e-9) || !apart(s.b, v, 1e-9)) {
        return false;
      }
    }
    bool k = false;
    for (const double x : {1., dd::SQRT2_2, 0.5}) {
      if (v == x) {
        k = x != 0.5;
      } else if (!apart(v, x, 5 * eps())) {
        return false;
      }
    }
    spots.push_back({v, k});
    return true;
  }
  // an interesting value: around a border or in the middle of a bucket, next
  // to the values chosen before, or next to a constant
  double value(u64 r, double cell) const {
    const u64 k = r % 12;
    const double j = static_cast<double>((r >> 8) % 9) - 4; // -4 .. 4
    const double e = eps() * (static_cast<double>((r >> 16) % 32) - 16) / 8;
    const double border = cell + 0.5 / 65536;
    if (k < 5) {
      return border + e;
    }
    if (k < 7) {
      return border + j * 6 * eps();
    }
    if (k < 9) { // anywhere in the bucket
      return cell +
             (static_cast<double>((r >> 24) % 1000) / 1000 - 0.5) / 65536;
    }
    if (k == 9) {
      return cell;
    }
    if (k == 10) {
      return (r >> 20) % 2 == 0 ? 0.5 + j * 6 * eps()
             : (r >> 21) % 2 == 0
                 ? 1 + j * 6 * eps()
                 : dd::SQRT2_2 + j * 6 * eps();
    }
    return std::ldexp(static_cast<double>(1 + (r >> 24) % 7),
                      -static_cast<int>(3 + (r >> 32) % 30));
  }
  void look(const Step& st) {
    if (spots.empty()) {
      return;
    }
    auto& s = spots[st.at(0) % spots.size()];
    const double jitter =
        eps() * (static_cast<double>(st.at(1) % 17) - 8) / 8 * 0.45;
    const bool neg = (st.at(2) >> 3) % 5 == 0;
    const double v = s.v + jitter;
    const auto z = P->cn.lookup(neg ? -v : v);
    const auto* p = dd::RealNumber::getAlignedPointer(z.r);
    const double got = dd::RealNumber::val(z.r);
    c.feed(got);
    if (!(std::abs(got - (neg ? -v : v)) <= 1.01 * eps())) {
      c.fail(id + "/number", "looking up %.17g gave %.17g", neg ? -v : v, got);
    }
    if (s.p != nullptr && s.p != p) {
      c.fail(id + "/number-duplicated",
             "%.17g is stored a second time although the package already has "
             "%.17g",
             v, s.p->value);
    }
    for (const auto& o : spots) {
      if (&o != &s && o.p == p) {
        c.fail(id + "/number-merged",
               "%.17g and %.17g share a number although they differ by more "
               "than the tolerance",
               o.v, v);
      }
    }
    s.p = p;
    c.count("number-lookups");
    c.cover(mix(static_cast<u64>(s.v * 0x1p60)) + st.at(1) % 17);
    c.nontrivial = true;
    if (st.at(2) % 3 == 0) {
      P->cn.incRef(z);
      s.holds++;
    }
  }
  bool fixed(const Spot& s) const { return s.constant || (half && s.v == 0.5); }
  void forget() { // unheld numbers may be gone
    for (auto& s : spots) {
      if (s.holds == 0 && !fixed(s)) {
        s.p = nullptr;
      }
    }
  }
  void check() { // exactly held numbers survive a collection (P02)
    std::set<const void*> keep;
    for (auto& s : spots) {
      if (s.holds > 0 && !fixed(s)) {
        keep.insert(s.p);
      }
    }
    forget();
    Reach r;
    for (const auto& [k, e] : roots) {
      (void)k;
      r.add(e);
    }
    for (const auto* x : r.nums) {
      keep.insert(x);
    }
    if (!p02()) {
      return;
    }
    if (half) {
      keep.insert(dd::RealNumber::getAlignedPointer(P->cn.lookup(0.5).r));
    }
    const auto& t = P->cUniqueTable.getStats();
    if (t.numEntries != keep.size() ||
        t.numActiveEntries != keep.size()) {
      c.fail(id + "/number-collected",
             "after a collection %zu numbers are stored (%zu active) although "
             "%zu are held or constants",
             t.numEntries, t.numActiveEntries, keep.size());
    }
  }
  // one of the ways to compute the state
  void state(const Step& st) {
    if (sts.empty()) {
      return;
    }
    const auto& x = sts[st.at(0) % sts.size()];
    const auto& y = sts[st.at(1) % sts.size()];
    const bool two = nq > 1;
    const Vec d = two ? Vec{y.a * x.a, y.a * x.b, y.b * x.a, y.b * x.b}
                      : Vec{x.a, x.b};
    const auto name = two ? sim::fmt("%.17g,%.17g", x.a, y.a)
                          : sim::fmt("%.17g", x.a);
    const auto rot = [](const St& s) {
      return dd::GateMatrix{s.a, -s.b, s.b, s.a};
    };
    dd::vEdge e;
    const u64 way = st.at(2) % 3;
    if (way == 0) {
      e = P->makeStateFromVector(dd::CVec(d.begin(), d.end()));
    } else if (way == 1) {
      auto z = P->makeZeroState(two ? 2 : 1);
      e = P->applyOperation(P->makeGateDD(rot(x), 0), z);
      if (two) {
        e = P->applyOperation(P->makeGateDD(rot(y), 1), e);
      }
      forget(); // may have collected
    } else {
      auto lo = P->makeStateFromVector(dd::CVec{x.a, x.b});
      if (two) {
        auto hi = P->makeStateFromVector(dd::CVec{y.a, y.b});
        e = P->kronecker(hi, lo, 1);
        P->incRef(e);
        P->decRef(hi);
        P->decRef(lo);
      } else {
        e = lo;
      }
    }
    const auto got = evalOr(e, two ? 2 : 1, "a state");
    if (!(dn::dist(got, d) < 1e-11)) {
      c.fail(id + "/value", "the state is off by %.3g", dn::dist(got, d));
    }
    c.count("number-states");
    const auto it = roots.find(name);
    if (it == roots.end()) {
      roots[name] = e;
      dense[name] = d;
      c.nontrivial = true;
      return;
    }
    if (!p02() && (it->second.p != e.p || it->second.w.r != e.w.r ||
                   it->second.w.i != e.w.i)) {
      c.fail(id + "/not-canonical",
             "the state (%s) computed again (way %llu) has another diagram",
             name.c_str(), static_cast<unsigned long long>(way));
    }
    P->decRef(e);
    c.nontrivial = true;
  }
  void collect(bool force) {
    P->garbageCollect(force);
    c.count("fault.forced-collection");
    if (force) {
      check();
    } else {
      forget();
    }
    for (const auto& [k, e] : roots) {
      const auto d = evalOr(e, nq > 1 ? 2 : 1, "a held state");
      if (!(dn::dist(d, dense[k]) < 1e-11)) {
        c.fail(id + "/held-changed", "a held state changed by %.3g",
               dn::dist(d, dense[k]));
      }
    }
  }
  void run() {
    open(1 + plan.knob("nq0", 0) % 2);
    for (const auto& st : plan.steps) {
      c.steps++;
      const double cell =
          static_cast<double>(plan.knob("cell", 1) % 65536 +
                              st.at(5) % 16 / 12) /
          65536;
      if (st.op == "spot") {
        addSpot(value(st.at(0), cell));
      } else if (st.op == "fewspot") { // values computed by arithmetic
        const double v = value(st.at(0), cell);
        const double b = std::sqrt(std::max(0., 1 - v * v));
        bool ok = v > 0.02 && b > 0.02;
        for (const auto& s : spots) {
          ok = ok && apart(s.v, v, 1e-9) && apart(s.v, b, 1e-9);
        }
        for (const auto& s : sts) {
          ok = ok && apart(s.a, v, 1e-8) && apart(s.b, v, 1e-8) &&
               apart(s.a, b, 1e-8);
        }
        for (const double x : {dd::SQRT2_2, 0.5}) {
          ok = ok && apart(v, x, 1e-8) && apart(b, x, 1e-8);
        }
        if (ok) {
          sts.push_back((st.at(1) >> 5) % 4 == 0 ? St{b, v} : St{v, b});
        }
      } else if (st.op == "look") {
        look(st);
      } else if (st.op == "state") {
        state(st);
      } else if (st.op == "release" && !spots.empty()) {
        auto& s = spots[st.at(0) % spots.size()];
        if (s.holds > 0) {
          s.holds--;
          P->cn.decRef({const_cast<dd::RealNumber*>(s.p), &dd::constants::zero});
        }
      } else if (st.op == "drop" && !roots.empty()) {
        auto it = roots.begin();
        std::advance(it, static_cast<long>(st.at(0) % roots.size()));
        P->decRef(it->second);
        dense.erase(it->first);
        roots.erase(it);
      } else if (st.op == "gc") {
        collect(st.at(0) % 4 != 0);
      } else if (st.op == "reset") {
        P->reset();
        half = false;
        for (auto& s : spots) {
          s.p = nullptr;
          s.holds = 0;
        }
        roots.clear();
        dense.clear();
        c.count("event.package_reset");
      } else if (st.op == "churn") {
        churn(st.at(0));
      }
    }
    collect(true);
  }
};
} // namespace

namespace num {
void run(const Plan& p, Ctx& c, const char* prop) { SNum(c, p, prop).run(); }
Plan gen(u64 seed, const char* prop) {
  Rng r(seed);
  Plan p;
  p.prop = prop;
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("num", 1);
  knob("layout", r.next() >> 32);
  knob("cfg0", r.chance(0.5) ? 0 : 1 + (r.next() >> 40));
  knob("gclim0", r.chance(0.3) ? 0 : 1 + (r.next() >> 40));
  knob("nq0", r.below(2));
  const bool states = r.chance(0.6);
  // amplitudes need a bucket away from zero
  knob("cell", states ? 2000 + r.below(60000)
               : r.chance(0.2) ? r.below(3)
                               : r.below(65536));
  const int n = 6 + static_cast<int>(r.below(50));
  for (int i = 0; i < 3 + n / 10; i++) {
    p.add(states ? "fewspot" : "spot",
          {r.next() >> 4, r.next() >> 32, 0, 0, 0, r.next() >> 32});
  }
  for (int i = 0; i < n; i++) {
    const double x = r.unit();
    const u64 a = r.next() >> 16;
    const u64 b = r.next() >> 16;
    const u64 cc = r.next() >> 16;
    if (x < 0.6) {
      p.add(states && r.chance(0.7) ? "state" : "look", {a, b, cc});
    } else if (x < 0.72) {
      p.add(states && r.chance(0.7) ? "fewspot" : "spot",
            {r.next() >> 4, b, 0, 0, 0, cc});
    } else if (x < 0.82) {
      p.add("gc", {a});
    } else if (x < 0.89) {
      p.add("release", {a});
    } else if (x < 0.94) {
      p.add("drop", {a});
    } else if (x < 0.96) {
      p.add("reset", {});
    } else {
      p.add("churn", {a});
    }
  }
  return p;
}
} // namespace num
