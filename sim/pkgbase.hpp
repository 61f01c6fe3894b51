// A decision-diagram package under simulation pressure (small tables,
// automatic and forced collections, unrelated diagrams) with held diagrams
// whose dense values are known.
#pragma once
#include "circbuild.hpp"
#include "ddutil.hpp"

#include "dd/Operations.hpp"
#include "dd/Package.hpp"

namespace ddu {
using sim::Ctx;
using sim::Plan;
using sim::u64;

struct PkgBase {
  Ctx& c;
  const Plan& plan;
  std::string id; // property
  std::size_t nq = 1;
  std::unique_ptr<dd::Package> P;
  struct HV {
    dd::vEdge e;
    std::size_t n;
    Vec d;
    std::string what;
  };
  struct HM {
    dd::mEdge e;
    std::size_t n;
    Mat d;
    std::string what;
  };
  std::vector<HV> hv;
  std::vector<HM> hm;
  u64 gcs = 0;
  std::size_t baseNums = 0;

  PkgBase(Ctx& ctx, const Plan& p, std::string prop)
      : c(ctx), plan(p), id(std::move(prop)) {}

  void open(std::size_t n, bool stochastic = false) {
    nq = n;
    auto cfg = configFrom(plan.knob("cfg0", 0));
    if (stochastic) { // needed by stochastic noise
      cfg.stochasticCacheOps = dd::STOCHASTIC_NOISE_SIMULATOR_DD_PACKAGE_CONFIG
                                   .stochasticCacheOps;
    }
    P = std::make_unique<dd::Package>(n, cfg);
    setLimits(*P, cfg, plan.knob("gclim0", 0));
    baseNums = P->cUniqueTable.getStats().numEntries;
  }
  template <class E> auto evalOr(const E& e, std::size_t n, const char* what) {
    try {
      return eval(e, n);
    } catch (const Malformed& m) {
      c.fail(id + "/malformed", "%s is malformed: %s", what, m.why.c_str());
    }
  }
  void verifyHeld(const char* when) {
    for (auto& h : hv) {
      const auto d = evalOr(h.e, h.n, h.what.c_str());
      if (!(dn::dist(d, h.d) < 1e-9)) {
        c.fail(id + "/held-changed",
               "a held state (%s) changed by %.3g during %s", h.what.c_str(),
               dn::dist(d, h.d), when);
      }
    }
    for (auto& h : hm) {
      const auto d = evalOr(h.e, h.n, h.what.c_str());
      if (!(dn::dist(d.a, h.d.a) < 1e-9)) {
        c.fail(id + "/held-changed",
               "a held matrix (%s) changed by %.3g during %s", h.what.c_str(),
               dn::dist(d.a, h.d.a), when);
      }
    }
  }
  void gc() {
    P->garbageCollect(true);
    gcs++;
    c.count("fault.forced-collection");
  }
  // after a forced collection exactly the held diagrams are stored
  void onlyHeld(const char* when) {
    gc();
    Reach r;
    for (auto& h : hv) {
      r.add(h.e);
    }
    for (auto& h : hm) {
      r.add(h.e);
    }
    const auto v = P->vUniqueTable.getNumEntries();
    const auto m = P->mUniqueTable.getNumEntries();
    if (v != r.v.size() || m != r.m.size()) {
      c.fail(id + "/left-over",
             "after %s and a collection the package stores %zu vector and %zu "
             "matrix nodes, but only %zu and %zu belong to held results",
             when, v, m, r.v.size(), r.m.size());
    }
    const auto n = P->cUniqueTable.getStats().numEntries;
    if (n < r.nums.size() || n > r.nums.size() + baseNums) {
      c.fail(id + "/left-over",
             "after %s and a collection the package stores %zu numbers, held "
             "results use %zu (plus at most %zu constants)",
             when, n, r.nums.size(), baseNums);
    }
  }
  void drop(std::size_t cap) {
    while (hv.size() > cap) {
      P->decRef(hv.front().e);
      hv.erase(hv.begin());
    }
    while (hm.size() > cap) {
      P->decRef(hm.front().e);
      hm.erase(hm.begin());
    }
  }
  // unrelated work in the same package
  void churn(u64 r) {
    for (u64 k = 0; k < 1 + r % 6; k++) {
      const u64 s = sim::mix(r + k);
      const auto g = circ::decode(s, s >> 8, s >> 20, s >> 33, nq, 2);
      const auto m = dd::getDD(*circ::opOf(g), *P);
      const auto t = P->conjugateTranspose(m);
      if (s % 3 == 0) {
        const auto x = P->multiply(m, m);
        (void)P->add(x, t);
      } else if (s % 3 == 1) {
        auto z = P->makeBasisState(nq, std::vector<bool>(nq, (s & 64U) != 0));
        (void)P->multiply(m, z);
        P->decRef(z);
      } else {
        (void)P->trace(m, nq);
      }
    }
    c.count("unrelated-work");
  }
  // random state: basis, product-like or generic
  Vec randomState(u64 r) const {
    const std::size_t d = std::size_t{1} << nq;
    Vec v(d, 0);
    const u64 k = r % 6;
    if (k == 0) {
      v[0] = 1;
    } else if (k == 1) {
      v[(r >> 8) % d] = 1;
    } else if (k == 2) { // sparse
      double n = 0;
      for (std::size_t i = 0; i < d; i++) {
        const u64 s = sim::mix(r + i);
        if (s % 3 != 0) {
          continue;
        }
        v[i] = gt::ex(gt::ang(s >> 4));
        n += 1;
      }
      if (n == 0) {
        v[d - 1] = 1;
        n = 1;
      }
      for (auto& x : v) {
        x /= std::sqrt(n);
      }
    } else {
      double n = 0;
      for (std::size_t i = 0; i < d; i++) {
        const u64 s = sim::mix(r + 31 * i);
        const double a = 0.05 + static_cast<double>((s >> 8) % 1000) / 1000;
        v[i] = a * gt::ex(static_cast<double>((s >> 20) % 6283) / 1000);
        n += a * a;
      }
      for (auto& x : v) {
        x /= std::sqrt(n);
      }
    }
    return v;
  }
  dd::vEdge makeState(const Vec& v) {
    return P->makeStateFromVector(dd::CVec(v.begin(), v.end()));
  }
};
} // namespace ddu
