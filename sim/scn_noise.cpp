// P07 (density matrices and deterministic noise) and P08 (stochastic noise).
#include "pkgbase.hpp"
#include "rng64.hpp"

#include "dd/NoiseFunctionality.hpp"

#include <map>
#include <set>

namespace {
using ddu::Mat;
using ddu::PkgBase;
using ddu::Vec;
using dn::cplx;
using sim::Ctx;
using sim::mix;
using sim::Plan;
using sim::Register;
using sim::Rng;
using sim::Step;
using sim::u64;

struct Noise { // one noise configuration
  std::string effects;
  double p1, pm, a1, am;
};
double prob(u64 r) {
  switch (r % 8) {
  case 0:
    return 0;
  case 1:
    return 1;
  case 2:
    return 0.5;
  case 3:
    return 1e-3;
  case 4:
    return 0.01;
  default:
    return static_cast<double>(1 + (r >> 4) % 99) / 100;
  }
}
std::string effects(u64 r) {
  static const char* all[] = {"A",  "P",  "D",   "AP",  "APD", "APDI", "PA",
                              "PD", "DP", "AD",  "DA",  "DPA", "I",    "",
                              "IA", "DD", "PDP", "ADA", "PAD", "AA"};
  return all[r % 20];
}

// channel with Kraus operators `ks` on qubit q
Mat kraus(const Mat& rho, const std::vector<Mat>& ks, std::size_t q,
          std::size_t n) {
  Mat out(rho.d);
  for (const auto& k : ks) {
    const auto u = dn::embed(k, {q}, {}, n);
    out = dn::add(out, dn::mul(u, dn::mul(rho, dn::dagger(u))));
  }
  return out;
}
std::vector<Mat> krausOf(char type, double p, double a) {
  auto sc = [](Mat m, double s) { return circ::scale(m, s); };
  switch (type) {
  case 'A':
    return {gt::m2(1, 0, 0, std::sqrt(1 - a)), gt::m2(0, std::sqrt(a), 0, 0)};
  case 'P':
    return {sc(circ::pauli('I'), std::sqrt(1 - p)),
            sc(circ::pauli('Z'), std::sqrt(p))};
  case 'D':
    return {sc(circ::pauli('I'), std::sqrt(1 - 0.75 * p)),
            sc(circ::pauli('X'), std::sqrt(p / 4)),
            sc(circ::pauli('Y'), std::sqrt(p / 4)),
            sc(circ::pauli('Z'), std::sqrt(p / 4))};
  default:
    return {circ::pauli('I')};
  }
}
Mat channel(Mat rho, const Noise& c, const std::set<std::size_t>& qs,
            std::size_t n) {
  const bool multi = qs.size() > 1;
  for (const auto q : qs) {
    for (const char t : c.effects) {
      rho = kraus(rho, krausOf(t, multi ? c.pm : c.p1, multi ? c.am : c.a1), q,
                  n);
    }
  }
  return rho;
}

// ------------------------------------------------------------------ P07
struct S07 : PkgBase {
  using PkgBase::PkgBase;
  struct HD {
    dd::dEdge e;
    Mat rho;
    std::string last;
  };
  std::vector<HD> dm;

  Noise noiseOf(u64 r) const {
    Noise c;
    c.effects = effects(r);
    c.p1 = prob(r >> 8);
    c.pm = prob(r >> 20);
    c.a1 = prob(r >> 32);
    c.am = prob(r >> 44);
    return c;
  }
  circ::GateInst inst(const Step& st, std::size_t k) const {
    static const std::vector<int> simple{2, 3, 4, 5, 0, 2, 4, 19};
    return circ::decode(st.at(k), st.at(k + 1), st.at(k + 2), st.at(k + 3), nq,
                        3, plan.knob("simple", 0) == 1 ? &simple : nullptr);
  }
  void check(const HD& h, const char* when) {
    const auto d = evalOr(h.e, nq, "a density matrix");
    const double diff = dn::dist(d.a, h.rho.a);
    if (!(diff < 1e-8)) {
      c.fail(id + "/wrong-state",
             "the density matrix is off by %.3g after %s (last: %s)", diff,
             when, h.last.c_str());
    }
  }
  void checkAll(const char* when) {
    for (const auto& h : dm) {
      const auto d = evalOr(h.e, nq, "a density matrix");
      const double diff = dn::dist(d.a, h.rho.a);
      if (!(diff < 1e-8)) {
        c.fail(id + "/held-changed",
               "a held density matrix changed by %.3g during %s", diff, when);
      }
    }
  }
  void release(std::size_t i) {
    auto e = dm[i].e;
    dd::dEdge::alignDensityEdge(e);
    P->decRef(e);
    dm.erase(dm.begin() + static_cast<std::ptrdiff_t>(i));
  }
  void fresh() {
    auto e = P->makeZeroDensityOperator(nq);
    dd::dEdge::setDensityMatrixTrue(e);
    Mat rho(std::size_t{1} << nq);
    rho.at(0, 0) = 1;
    dm.push_back({e, rho, "zero"});
    check(dm.back(), "creation");
    if (dm.size() > 3) {
      release(0);
    }
  }
  void gate(HD& h, const circ::GateInst& g) {
    const auto m = dd::getDD(*circ::opOf(g), *P);
    P->applyOperationToDensity(h.e, m);
    const auto r = circ::refOf(g);
    const auto u = dn::embed(r.u, r.targets, r.controls, nq);
    h.rho = dn::mul(u, dn::mul(h.rho, dn::dagger(u)));
    h.last = "gate " + g.text();
    c.ev("%s", h.last.c_str());
    check(h, "a gate");
    c.count("gate");
  }
  void noise(HD& h, const circ::GateInst& g, u64 cfg) {
    const auto nc = noiseOf(cfg);
    dd::DeterministicNoiseFunctionality f(*P, nq, nc.p1, nc.pm, nc.a1, nc.am,
                                          nc.effects);
    const std::unique_ptr<qc::Operation> op = circ::opOf(g);
    std::set<std::size_t> qs(g.targets.begin(), g.targets.end());
    for (const auto& k : g.controls) {
      qs.insert(k.qubit);
    }
    f.applyNoiseEffects(h.e, op);
    h.rho = channel(h.rho, nc, qs, nq);
    h.last = sim::fmt("noise %s p=%g/%g a=%g/%g on the %zu qubits of %s",
                      nc.effects.c_str(), nc.p1, nc.pm, nc.a1, nc.am,
                      qs.size(), g.text().c_str());
    c.ev("%s", h.last.c_str());
    check(h, "noise");
    c.count("noise");
    if (qs.size() > 1) {
      c.count("noise-multi-qubit");
    }
  }
  void probs(const HD& h, u64 r) {
    const double thr = r % 3 == 0 ? 0. : r % 3 == 1 ? 1e-3 : 0.1;
    const auto check1 = [&](const std::vector<double>& got) {
      for (std::size_t x = 0; x < got.size(); x++) {
        const double w = h.rho.at(x, x).real();
        const bool ok = w < thr - 1e-9   ? got[x] < 1e-12
                        : w < thr + 1e-9 ? true
                                         : std::abs(got[x] - w) < 1e-8;
        if (!ok) {
          c.fail(id + "/probabilities",
                 "outcome %zu has probability %.6g, reported %.6g "
                 "(threshold %g)",
                 x, w, got[x], thr);
        }
      }
    };
    std::vector<double> got(h.rho.d, 0);
    for (const auto& [k, v] : h.e.getSparseProbabilityVector(nq, thr)) {
      got.at(k) = v;
    }
    check1(got);
    std::fill(got.begin(), got.end(), 0);
    for (const auto& [k, v] : h.e.getSparseProbabilityVectorStrKeys(nq, thr)) {
      std::size_t x = 0;
      for (const char ch : k) {
        x = 2 * x + (ch == '1' ? 1 : 0);
      }
      got.at(x) = v;
    }
    check1(got);
    c.count("probability-vectors");
  }
  void measure(HD& h, u64 q, u64 w) {
    q %= nq;
    double p1 = 0;
    for (std::size_t x = 0; x < h.rho.d; x++) {
      if (((x >> q) & 1U) != 0) {
        p1 += h.rho.at(x, x).real();
      }
    }
    auto mt = simrng::engine({w});
    const char r = P->measureOneCollapsing(h.e, static_cast<dd::Qubit>(q), mt);
    const bool one = r == '1';
    const double p = one ? p1 : 1 - p1;
    if (p < 1e-9) {
      // P05 decides which outcomes may occur
      h.rho = evalOr(h.e, nq, "a density matrix");
      return;
    }
    Mat m(h.rho.d);
    for (std::size_t a = 0; a < m.d; a++) {
      for (std::size_t b = 0; b < m.d; b++) {
        if ((((a >> q) & 1U) != 0) == one && (((b >> q) & 1U) != 0) == one) {
          m.at(a, b) = h.rho.at(a, b) / p;
        }
      }
    }
    h.rho = m;
    h.last = "measurement";
    check(h, "measurement");
    c.count("measurement");
  }
  void run() {
    open(1 + plan.knob("nq0", 2) % 4);
    fresh();
    for (const auto& st : plan.steps) {
      c.steps++;
      if (dm.empty()) {
        fresh();
      }
      auto& h = dm[st.at(0) % dm.size()];
      if (st.op == "new") {
        fresh();
      } else if (st.op == "gate") {
        gate(h, inst(st, 1));
      } else if (st.op == "noise") {
        noise(h, inst(st, 1), st.at(5));
      } else if (st.op == "again") { // the same noise on two states
        noise(h, inst(st, 1), st.at(5));
        noise(dm[(st.at(0) + 1) % dm.size()], inst(st, 1), st.at(5));
      } else if (st.op == "copy") {
        auto e = h.e;
        dd::dEdge::alignDensityEdge(e);
        P->incRef(e);
        dm.push_back(h);
        if (dm.size() > 3) {
          release(0);
        }
      } else if (st.op == "drop") {
        release(st.at(0) % dm.size());
      } else if (st.op == "probs") {
        probs(h, st.at(1));
      } else if (st.op == "meas") {
        measure(h, st.at(1), st.at(2));
      } else if (st.op == "churn") {
        churn(st.at(1));
      } else if (st.op == "gc") {
        gc();
      } else if (st.op == "clear") {
        P->clearComputeTables();
        c.count("table-clears");
      } else {
        continue;
      }
      checkAll(st.op.c_str());
      for (const auto& x : dm) {
        c.feed(&x.rho.a[0], sizeof(cplx));
        c.feed(x.rho.at(0, 0).real());
        const double tr = dn::trace(evalOr(x.e, nq, "density")).real();
        if (std::abs(tr - 1) > 1e-8) {
          c.fail(id + "/trace", "the trace of a density matrix is %.9g", tr);
        }
        auto e = x.e;
        dd::dEdge::alignDensityEdge(e);
        const auto got = P->trace(e, nq);
        if (!(std::abs(cplx(got.r, got.i) - 1.) < 1e-8)) {
          c.fail(id + "/trace",
                 "trace() of a density matrix reports %.9g%+.3gi", got.r,
                 got.i);
        }
      }
      c.cover(mix(st.op.size() * 131 + static_cast<u64>(st.op[0])) ^
              P->dUniqueTable.getNumEntries());
    }
    c.nontrivial = true;
    while (!dm.empty()) {
      release(0);
    }
    gc();
    if (P->dUniqueTable.getNumEntries() != 0) {
      c.fail(id + "/left-over",
             "%zu density nodes are left after everything was released",
             P->dUniqueTable.getNumEntries());
    }
  }
};
void run07(const Plan& p, Ctx& c) { S07(c, p, "P07").run(); }
Plan gen07(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P07";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("cfg0", r.below(6) == 0 ? 0 : 1 + (r.next() >> 40));
  knob("gclim0", r.below(3) == 0 ? 0 : r.next() >> 40);
  knob("nq0", r.below(4));
  const bool simple = r.chance(0.25); // few numbers: collections keep tables
  knob("simple", simple ? 1 : 0);
  const u64 cfg = r.next() >> 4; // mostly one configuration per run
  auto gate = [&](const char* op) {
    p.add(op, {r.below(3), r.below(32), r.next() >> 40, r.next() >> 30,
               r.next() >> 40, r.chance(0.7) ? cfg : r.next() >> 4});
  };
  const double noisy = simple ? 0.05 : 0.1 + 0.5 * r.unit();
  const double gcs = simple ? 0.3 : 0.04;
  for (u64 i = 0, n = 4 + r.below(16); i < n; i++) {
    const double x = r.unit();
    if (r.chance(gcs)) {
      p.add("gc");
    }
    if (x < 0.72) {
      gate(r.chance(noisy) ? (r.chance(0.2) ? "again" : "noise") : "gate");
    } else if (x < 0.75) {
      p.add("new");
    } else if (x < 0.81) {
      p.add("copy", {r.below(3)});
    } else if (x < 0.83) {
      p.add("drop", {r.below(3)});
    } else if (x < 0.87) {
      p.add("probs", {r.below(3), r.below(3)});
    } else if (x < 0.9) {
      p.add("meas", {r.below(3), r.below(4), r.next()});
    } else if (x < 0.94) {
      p.add("churn", {0, r.next() >> 40});
    } else if (x < 0.96) {
      p.add("clear");
    } else {
      p.add("gc");
    }
  }
  p.add("probs", {r.below(3), r.below(3)});
  return p;
}
const Register r07("P07", gen07, run07, 60);

// ------------------------------------------------------------------ P08
struct S08 : PkgBase {
  using PkgBase::PkgBase;
  struct Cfg {
    std::string effects;
    double p, a, f;
  };
  Cfg cfgOf(u64 r) const {
    static const char* all[] = {"A",  "P",  "D",  "AP",  "APD", "APDI", "PA",
                                "PD", "DP", "AD", "DA",  "DPA", "I",    "IA",
                                "DD", "",   "PAD", "DAP"};
    Cfg c;
    c.effects = all[r % 18];
    c.p = prob(r >> 8);
    c.a = prob(r >> 20);
    c.f = (r >> 32) % 3 == 0   ? 1
          : (r >> 32) % 3 == 1 ? 2
                               : static_cast<double>((r >> 36) % 8) / 4;
    while (c.p * c.f > 1) {
      c.p /= 2;
    }
    while (c.a * c.f > 1) {
      c.a /= 2;
    }
    return c;
  }
  // the drawn numbers of sample k: a shifted lattice
  static std::vector<u64> words(u64 k, u64 shift) {
    // square roots of the primes, fractional parts in 0.64 fixed point
    static const double alpha[] = {0.4142135623730951, 0.7320508075688772,
                                   0.2360679774997898, 0.6457513110645906,
                                   0.3166247903553998, 0.6055512754639891,
                                   0.1231056256176606, 0.3588989435406740,
                                   0.7958315233127191, 0.3851648071345037,
                                   0.5677643628300215, 0.0827625302982193,
                                   0.4031242374328485, 0.5574385243020004};
    std::vector<u64> w;
    for (std::size_t i = 0; i < 14; i++) {
      const u64 step = static_cast<u64>(alpha[i] * 0x1.0p63) << 1U;
      w.push_back(step * (k + 1) + mix(shift + i));
    }
    return w;
  }
  struct Seen {
    Vec v;
    u64 n;
  };

  void noise(const Step& st) {
    const auto cfg = cfgOf(st.at(5));
    const auto g = circ::decode(st.at(1), st.at(2), st.at(3), st.at(4), nq, 2);
    std::set<std::size_t> qs(g.targets.begin(), g.targets.end());
    for (const auto& k : g.controls) {
      qs.insert(k.qubit);
    }
    const std::set<qc::Qubit> targets(qs.begin(), qs.end());
    const auto h = hv[st.at(0) % hv.size()];
    const auto r = circ::refOf(g);
    const auto u = dn::embed(r.u, r.targets, r.controls, nq);
    const auto psi = dn::mul(u, h.d);
    // reference
    Noise nc{cfg.effects, cfg.p, cfg.p * cfg.f, cfg.a, cfg.a * cfg.f};
    Mat rho(psi.size());
    for (std::size_t i = 0; i < psi.size(); i++) {
      for (std::size_t j = 0; j < psi.size(); j++) {
        rho.at(i, j) = psi[i] * std::conj(psi[j]);
      }
    }
    const auto want = channel(rho, nc, qs, nq);
    const auto what = sim::fmt("noise %s p=%g a=%g factor=%g after %s",
                               cfg.effects.c_str(), cfg.p, cfg.a, cfg.f,
                               g.text().c_str());
    c.ev("%s", what.c_str());
    // the Kraus outcomes
    const bool multi = qs.size() > 1;
    std::vector<Vec> outcomes{psi};
    for (const auto q : qs) {
      for (const char t : cfg.effects) {
        std::vector<Vec> next;
        for (const auto& k :
             krausOf(t, multi ? nc.pm : nc.p1, multi ? nc.am : nc.a1)) {
          const auto ku = dn::embed(k, {q}, {}, nq);
          for (const auto& v : outcomes) {
            auto x = dn::mul(ku, v);
            const double n2 = dn::norm2(x);
            if (n2 < 1e-20) { // relative to a normalised state
              continue;
            }
            for (auto& a : x) {
              a /= std::sqrt(n2);
            }
            bool dup = false;
            for (auto& y : next) {
              const double ov = std::norm(dn::dot(x, y));
              if (ov > 1 - 1e-12) {
                dup = true;
                break;
              }
            }
            if (!dup) {
              next.push_back(std::move(x));
            }
          }
        }
        outcomes = std::move(next);
      }
    }
    dd::StochasticNoiseFunctionality f(*P, nq, cfg.p, cfg.a, cfg.f,
                                       cfg.effects);
    const auto op = dd::getDD(*circ::opOf(g), *P);
    std::map<std::pair<const void*, std::pair<double, double>>, Seen> seen;
    std::vector<dd::vEdge> held;
    auto shot = [&](const std::vector<u64>& w, u64 tail, bool count) {
      dd::vEdge e = h.e;
      P->incRef(e);
      auto mt = simrng::engine(w, tail);
      f.applyNoiseOperation(targets, op, e, mt);
      const auto wt = ddu::wt(e.w);
      auto& s = seen[{static_cast<const void*>(e.p), {wt.real(), wt.imag()}}];
      if (s.v.empty()) {
        s.v = evalOr(e, nq, "the state after stochastic noise");
        s.n = 0;
        const double n2 = dn::norm2(s.v);
        if (std::abs(n2 - 1) > 1e-8) {
          c.fail(id + "/not-normalised",
                 "the state has norm %.9g after %s", n2, what.c_str());
        }
        double best = 0;
        for (const auto& o : outcomes) {
          best = std::max(best, std::norm(dn::dot(o, s.v)));
        }
        if (best < 1 - 1e-7) {
          c.fail(id + "/not-an-outcome",
                 "the state is no possible outcome of %s (best overlap %.6f)",
                 what.c_str(), best);
        }
        held.push_back(e); // so that nodes in `seen` stay alive
      } else {
        P->decRef(e);
      }
      s.n += count ? 1 : 0;
      c.count("noise-shots");
    };
    for (u64 m = 0; m < 16; m++) { // ends of the range
      std::vector<u64> w;
      for (std::size_t i = 0; i < 14; i++) {
        w.push_back(((m >> (i % 4)) & 1U) != 0 ? ~u64{0} : 0);
      }
      shot(w, m, false);
      c.count("fault.extreme-random-number");
    }
    u64 done = 0;
    auto average = [&](u64 n) {
      for (; done < n; done++) {
        shot(words(done, st.at(6)), done, true);
      }
      Mat avg(psi.size());
      for (const auto& [k, s] : seen) {
        (void)k;
        for (std::size_t i = 0; i < psi.size(); i++) {
          for (std::size_t j = 0; j < psi.size(); j++) {
            avg.at(i, j) += static_cast<double>(s.n) / static_cast<double>(n) *
                            s.v[i] * std::conj(s.v[j]);
          }
        }
      }
      return dn::dist(avg.a, want.a);
    };
    double d = average(4096);
    if (!(d < 0.01)) {
      d = average(65536);
      c.count("averages-refined");
      if (!(d < 0.004)) {
        c.fail(id + "/average",
               "the average over 65536 draws is off by %.4f from the channel "
               "(%s)",
               d, what.c_str());
      }
    }
    c.count("averages");
    c.feed(d);
    c.cover(st.at(5) % 18 * 64 + qs.size() * 8 + seen.size());
    for (auto& e : held) {
      P->decRef(e);
    }
    c.nontrivial = true;
  }
  void run() {
    open(1 + plan.knob("nq0", 1) % 3, true);
    for (const auto& st : plan.steps) {
      c.steps++;
      if (hv.empty() && st.op != "knob") {
        const auto v = randomState(st.at(2));
        hv.push_back({makeState(v), nq, v, "state"});
      }
      if (st.op == "state") {
        const auto v = randomState(st.at(0));
        hv.push_back({makeState(v), nq, v, "state"});
        drop(2);
      } else if (st.op == "noise") {
        noise(st);
      } else if (st.op == "churn") {
        churn(st.at(0));
      } else if (st.op == "gc") {
        gc();
      } else {
        continue;
      }
      verifyHeld(st.op.c_str());
    }
    // only held states are left (the functionality objects are gone)
    onlyHeld("stochastic noise");
  }
};
void run08(const Plan& p, Ctx& c) { S08(c, p, "P08").run(); }
Plan gen08(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P08";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("cfg0", r.below(6) == 0 ? 0 : 1 + (r.next() >> 40));
  knob("gclim0", r.below(3) == 0 ? 0 : r.next() >> 40);
  knob("nq0", r.below(3));
  for (u64 i = 0, n = 2 + r.below(5); i < n; i++) {
    const double x = r.unit();
    if (x < 0.6) {
      p.add("noise", {r.below(2), r.below(32), r.next() >> 40, r.next() >> 30,
                      r.next() >> 40, r.next() >> 4, r.next() >> 20});
    } else if (x < 0.8) {
      p.add("state", {r.next() >> 8});
    } else if (x < 0.9) {
      p.add("churn", {r.next() >> 40});
    } else {
      p.add("gc");
    }
  }
  p.add("noise", {r.below(2), r.below(32), r.next() >> 40, r.next() >> 30,
                  r.next() >> 40, r.next() >> 4, r.next() >> 20});
  return p;
}
const Register r08("P08", gen08, run08, 60);
} // namespace
