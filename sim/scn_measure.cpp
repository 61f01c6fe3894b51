// P05: measurements obey the Born rule; P06: circuit sampling.
#include "pkgbase.hpp"
#include "wide.hpp"
#include "rng64.hpp"

#include "dd/NoiseFunctionality.hpp"

#include "dd/Simulation.hpp"

#include <algorithm>
#include <memory>

using namespace sim;
using namespace ddu;
using circ::Builder;
using circ::Ref;

namespace {
// a uniform 64-bit word whose value as a fraction is x
u64 wordAt(double x) {
  if (x <= 0) {
    return 0;
  }
  if (x >= 1) {
    return ~u64{0};
  }
  return static_cast<u64>(static_cast<long double>(x) * 18446744073709551616.0L);
}
// Bernstein deviation bound for a binomial count; false alarms below 1e-12
double bernstein(double n, double p) {
  const double a = 28.3;
  return a / 3 + std::sqrt(a * a / 9 + 2 * a * n * p * (1 - p)) + 1;
}
double upToPhase(const Vec& a, const Vec& b) {
  cplx f = dn::dot(a, b);
  if (std::abs(f) < 1e-12) {
    return 2;
  }
  f /= std::abs(f);
  double m = 0;
  for (std::size_t i = 0; i < a.size(); i++) {
    const double e = std::abs(a[i] * f - b[i]);
    m = e <= m ? m : e;
  }
  return m;
}

// ------------------------------------------------------------------ P05
struct S05 : PkgBase {
  using PkgBase::PkgBase;
  u64 measured = 0;
  struct DM {
    dd::dEdge e;
    Mat d;
  };
  std::vector<DM> dm;

  void press(u64 how) {
    if (how % 4 == 0) {
      churn(how >> 3);
    }
    if (how % 5 == 0) {
      gc();
    }
  }
  // words that stratify [0,1) plus the ends and the neighbourhood of p0, p1
  std::vector<u64> strata(std::size_t K, double p0) {
    std::vector<u64> w;
    for (std::size_t k = 0; k < K; k++) {
      w.push_back(wordAt((static_cast<double>(k) + 0.5) / K));
    }
    w.push_back(0);
    w.push_back(~u64{0});
    for (const double p : {p0, 1 - p0}) {
      const u64 x = wordAt(p);
      w.push_back(x);
      w.push_back(x - (x > 2048 ? 2048 : x));
      w.push_back(x + std::min<u64>(2048, ~u64{0} - x));
    }
    return w;
  }

  void one(HV h, std::size_t q, u64 how) { // h by value: hv may change
    const double p1 = circ::probOne(h.d, q);
    const double p0 = circ::probOf(h.d, q, false);
    const auto pr =
        P->determineMeasurementProbabilities(h.e, static_cast<dd::Qubit>(q));
    if (!(std::abs(pr.first - p0) < 1e-9) ||
        !(std::abs(pr.second - p1) < 1e-9)) {
      c.fail(id + "/probabilities",
             "probabilities of qubit %zu are %.12g and %.12g, reported %.12g "
             "and %.12g",
             q, p0, p1, pr.first, pr.second);
    }
    const std::size_t K = 48;
    const auto words = strata(K, p0);
    std::size_t ones = 0;
    for (std::size_t k = 0; k < words.size(); k++) {
      P->incRef(h.e); // consumed by the measurement
      dd::vEdge e = h.e;
      auto mt = simrng::engine({words[k]}, how + k);
      const char r =
          P->measureOneCollapsing(e, static_cast<dd::Qubit>(q), mt);
      if (r != '0' && r != '1') {
        c.fail(id + "/outcome", "outcome '%c'", r);
      }
      const double p = r == '1' ? p1 : p0;
      if (p < 1e-28) {
        c.fail(id + "/impossible-outcome",
               "outcome %c of qubit %zu has probability %.3g (random word "
               "%016llx)",
               r, q, p, static_cast<unsigned long long>(words[k]));
      }
      ones += k < K && r == '1' ? 1 : 0;
      // outcomes of tiny probability amplify rounding in the state
      const Vec got = evalOr(e, h.n, "the collapsed state");
      const double tol = 1e-9 + 1e-12 / p;
      if (p > 1e-9) {
        const auto want = circ::project(h.d, q, r == '1', p);
        const double d = upToPhase(want, got);
        if (!(d < tol)) {
          c.fail(id + "/collapse",
                 "the state after measuring %c on qubit %zu is off by %.3g", r,
                 q, d);
        }
      }
      P->decRef(e);
      if (k % 16 == 3) {
        press(how + k);
      }
    }
    const double f = static_cast<double>(ones) / K;
    if (!(std::abs(f - p1) <= 2.0 / K + 1e-9)) {
      c.fail(id + "/born:one",
             "outcome 1 of qubit %zu has probability %.4f but follows from a "
             "fraction %.4f of the drawn numbers",
             q, p1, f);
    }
    c.count("measure-one", words.size());
  }

  void all(HV h, u64 how) {
    const std::size_t d = h.d.size();
    std::vector<double> cnt(d, 0);
    auto shot = [&](std::mt19937_64& mt) {
      dd::vEdge e = h.e;
      const auto s = P->measureAll(e, false, mt);
      if (e.p != h.e.p || e.w.r != h.e.w.r || e.w.i != h.e.w.i) {
        c.fail(id + "/non-collapsing",
               "a non-collapsing measurement changed the state");
      }
      if (s.size() != h.n) {
        c.fail(id + "/outcome", "outcome '%s' for %zu qubits", s.c_str(), h.n);
      }
      std::size_t x = 0;
      for (const char ch : s) {
        x = x * 2 + (ch == '1' ? 1 : 0);
      }
      if (std::norm(h.d[x]) < 1e-20) {
        c.fail(id + "/impossible-outcome",
               "outcome %s has probability %.3g", s.c_str(), std::norm(h.d[x]));
      }
      return x;
    };
    // ends of the range of the random numbers in every position
    for (u64 m = 0; m < (u64{1} << std::min<std::size_t>(h.n, 4)); m++) {
      std::vector<u64> w;
      for (std::size_t i = 0; i < h.n; i++) {
        w.push_back(((m >> i) & 1U) != 0 ? ~u64{0} : 0);
      }
      auto mt = simrng::engine(w, how);
      (void)shot(mt);
    }
    if (h.n <= 2) { // grid over the random numbers
      const std::size_t K = h.n == 1 ? 64 : 24;
      const std::size_t N = h.n == 1 ? K : K * K;
      for (std::size_t k = 0; k < N; k++) {
        auto mt = simrng::engine({wordAt((double(k % K) + 0.5) / K),
                                  wordAt((double(k / K) + 0.5) / K)},
                                 how);
        cnt[shot(mt)] += 1.0 / static_cast<double>(N);
      }
      for (std::size_t x = 0; x < d; x++) {
        if (!(std::abs(cnt[x] - std::norm(h.d[x])) <=
              static_cast<double>(h.n) / K + 1e-9)) {
          c.fail(id + "/born:all",
                 "outcome %zu has probability %.4f but follows from a fraction "
                 "%.4f of the drawn numbers",
                 x, std::norm(h.d[x]), cnt[x]);
        }
      }
    } else {
      const std::size_t N = 1500;
      std::mt19937_64 mt(how);
      for (std::size_t k = 0; k < N; k++) {
        cnt[shot(mt)] += 1;
      }
      for (std::size_t x = 0; x < d; x++) {
        const double p = std::norm(h.d[x]);
        if (std::abs(cnt[x] - N * p) > bernstein(N, p)) {
          c.fail(id + "/born:all",
                 "outcome %zu has probability %.4f but was drawn %.0f times in "
                 "%zu",
                 x, p, cnt[x], N);
        }
      }
    }
    // collapsing
    P->incRef(h.e);
    dd::vEdge e = h.e;
    auto mt = simrng::engine({how * 977, how * 31337, how << 17U}, how);
    const auto s = P->measureAll(e, true, mt);
    std::size_t x = 0;
    for (const char ch : s) {
      x = x * 2 + (ch == '1' ? 1 : 0);
    }
    if (std::norm(h.d[x]) < 1e-20) {
      c.fail(id + "/impossible-outcome", "outcome %s is impossible", s.c_str());
    }
    Vec want(d, 0);
    want[x] = 1;
    const auto got = evalOr(e, h.n, "the collapsed state");
    if (!(upToPhase(want, got) < 1e-9)) {
      c.fail(id + "/collapse",
             "measuring all qubits as %s did not leave that basis state",
             s.c_str());
    }
    P->decRef(e);
    c.count("measure-all");
  }

  // measurement and reset operations of circuits, with a qubit permutation
  void viaOperation(HV h, const Step& st) {
    const u64 r = st.at(2);
    const auto perm = circ::permutation(r >> 20, nq);
    qc::Permutation pm;
    for (std::size_t i = 0; i < nq; i++) {
      pm[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(perm[i]);
    }
    const bool usePerm = r % 3 != 0;
    const auto sel = circ::permutation(r >> 8, nq);
    const std::size_t k = 1 + (r >> 4) % nq;
    std::vector<qc::Qubit> t;
    std::vector<qc::Bit> bits;
    const auto bsel = circ::permutation(r >> 30, nq);
    for (std::size_t i = 0; i < k; i++) {
      t.push_back(static_cast<qc::Qubit>(sel[i]));
      bits.push_back(bsel[i]);
    }
    std::vector<bool> m(nq);
    for (std::size_t i = 0; i < nq; i++) {
      m[i] = ((r >> (50 + i)) & 1U) != 0;
    }
    const auto before = m;
    P->incRef(h.e);
    auto mt = simrng::engine({mix(r), mix(r + 1), mix(r + 2)}, r);
    Vec v = h.d;
    dd::vEdge e;
    const bool meas = st.at(3) % 2 == 0;
    double tol = 1e-9;
    if (meas) {
      const qc::NonUnitaryOperation op(t, bits);
      e = dd::applyMeasurement(op, h.e, *P, mt, m,
                               usePerm ? pm : qc::Permutation{});
      for (std::size_t i = 0; i < nq; i++) {
        const bool touched =
            std::find(bits.begin(), bits.end(), i) != bits.end();
        if (!touched && m[i] != before[i]) {
          c.fail(id + "/bits", "measuring changed bit %zu that is not written",
                 i);
        }
      }
      for (std::size_t i = 0; i < k; i++) {
        const auto q = usePerm ? perm[sel[i]] : sel[i];
        const bool o = m[bits[i]];
        const double p = circ::probOf(v, q, o);
        if (p < 1e-28) {
          c.fail(id + "/impossible-outcome",
                 "measuring qubit %zu into bit %zu gave an outcome of "
                 "probability %.3g",
                 q, static_cast<std::size_t>(bits[i]), p);
        }
        tol += 1e-12 / p;
        v = circ::project(v, q, o, p);
      }
      const auto got = evalOr(e, h.n, "the measured state");
      if (tol < 1e-3 && !(upToPhase(v, got) < tol)) {
        c.fail(id + "/collapse",
               "measuring %zu qubits left a state that is off by %.3g from "
               "the reported outcome",
               k, upToPhase(v, got));
      }
    } else {
      const qc::NonUnitaryOperation op(t, qc::Reset);
      e = dd::applyReset(op, h.e, *P, mt, usePerm ? pm : qc::Permutation{});
      const auto got = evalOr(e, h.n, "the reset state");
      // every possible sequence of outcomes is acceptable
      std::vector<Vec> cand{v};
      for (std::size_t i = 0; i < k; i++) {
        const auto q = usePerm ? perm[sel[i]] : sel[i];
        std::vector<Vec> next;
        for (const auto& w : cand) {
          const double p1 = circ::probOf(w, q, true);
          if (p1 > 1e-28) {
            next.push_back(circ::flip(circ::project(w, q, true, p1), q));
          }
          const double p0 = circ::probOf(w, q, false);
          if (p0 > 1e-28) {
            next.push_back(circ::project(w, q, false, p0));
          }
        }
        cand = next;
      }
      double best = 9;
      for (const auto& w : cand) {
        best = std::min(best, upToPhase(w, got));
      }
      if (!(best < 1e-5)) {
        c.fail(id + "/reset",
               "the state after resetting %zu qubits is none of the possible "
               "ones (off by %.3g)",
               k, best);
      }
    }
    P->decRef(e);
    c.count(meas ? "measure-operation" : "reset-operation");
  }

  // density matrices
  void makeDensity(const Step& st) {
    auto e = P->makeZeroDensityOperator(nq);
    dd::dEdge::setDensityMatrixTrue(e);
    Mat rho(std::size_t{1} << nq);
    rho.at(0, 0) = 1;
    for (u64 k = 0; k < 1 + st.at(0) % 6; k++) {
      const u64 s = mix(st.at(1) + k);
      const auto g = circ::decode(s, s >> 8, s >> 20, s >> 33, nq, 2);
      const auto m = dd::getDD(*circ::opOf(g), *P);
      P->applyOperationToDensity(e, m);
      const auto r = circ::refOf(g);
      const auto u = dn::embed(r.u, r.targets, r.controls, nq);
      rho = dn::mul(u, dn::mul(rho, dn::dagger(u)));
    }
    auto got = evalOr(e, nq, "density matrix");
    if (!(dn::dist(got.a, rho.a) < 1e-9)) {
      c.count("density-gates-differ"); // decided by P07
      dd::dEdge::alignDensityEdge(e);
      P->decRef(e);
      return;
    }
    for (u64 s = st.at(2); s % 3 != 0; s = mix(s)) { // mixed states
      dd::DeterministicNoiseFunctionality f(
          *P, nq, s % 2 == 0 ? 1 : 0.25, 0.5, 0.5, 0.5,
          (s >> 8) % 3 == 0 ? "A" : "D");
      const std::unique_ptr<qc::Operation> op =
          std::make_unique<qc::StandardOperation>(
              static_cast<qc::Qubit>((s >> 16) % nq), qc::X);
      f.applyNoiseEffects(e, op);
      got = evalOr(e, nq, "density matrix");
      c.count("noisy-density");
    }
    dm.push_back({e, got});
    if (dm.size() > 2) {
      releaseDensity();
    }
  }
  void releaseDensity() {
    auto e = dm.front().e;
    dd::dEdge::alignDensityEdge(e);
    P->decRef(e);
    dm.erase(dm.begin());
  }
  void density(const Step& st) {
    if (dm.empty()) {
      return;
    }
    const std::size_t i = st.at(0) % dm.size();
    const std::size_t q = st.at(1) % nq;
    double p1 = 0;
    const Mat d = dm[i].d;
    for (std::size_t x = 0; x < d.d; x++) {
      if (((x >> q) & 1U) != 0) {
        p1 += d.at(x, x).real();
      }
    }
    const std::size_t K = 24;
    std::size_t ones = 0;
    const auto words = strata(K, 1 - p1);
    for (std::size_t k = 0; k < words.size(); k++) {
      dd::dEdge e = dm[i].e;
      {
        auto a = e;
        dd::dEdge::alignDensityEdge(a);
        P->incRef(a);
      }
      auto mt = simrng::engine({words[k]}, st.at(2) + k);
      const char r =
          P->measureOneCollapsing(e, static_cast<dd::Qubit>(q), mt);
      const double p = r == '1' ? p1 : 1 - p1;
      if ((r != '0' && r != '1') || p < 1e-12) {
        c.fail(id + "/impossible-outcome:density",
               "outcome %c of qubit %zu has probability %.3g (random word "
               "%016llx)",
               r, q, p, static_cast<unsigned long long>(words[k]));
      }
      ones += k < K && r == '1' ? 1 : 0;
      if (p > 1e-6) {
        Mat want(d.d);
        for (std::size_t a = 0; a < d.d; a++) {
          for (std::size_t b = 0; b < d.d; b++) {
            const bool o = r == '1';
            if ((((a >> q) & 1U) != 0) == o && (((b >> q) & 1U) != 0) == o) {
              want.at(a, b) = d.at(a, b) / p;
            }
          }
        }
        const auto got = evalOr(e, nq, "the collapsed density matrix");
        if (!(dn::dist(got.a, want.a) < 1e-9 + 1e-12 / p)) {
          c.fail(id + "/collapse:density",
                 "the density matrix after measuring %c on qubit %zu is off "
                 "by %.3g",
                 r, q, dn::dist(got.a, want.a));
        }
      }
      dd::dEdge::alignDensityEdge(e);
      P->decRef(e);
    }
    const double f = static_cast<double>(ones) / K;
    if (!(std::abs(f - p1) <= 2.0 / K + 1e-9)) {
      c.fail(id + "/born:density",
             "outcome 1 of qubit %zu has probability %.4f but follows from a "
             "fraction %.4f of the drawn numbers",
             q, p1, f);
    }
    const auto now = evalOr(dm[i].e, nq, "density matrix");
    if (!(dn::dist(now.a, d.a) < 1e-9)) {
      c.fail(id + "/held-changed",
             "a held density matrix changed while a copy was measured");
    }
    c.count("measure-density", words.size());
  }

  void run() {
    open(1 + plan.knob("nq0", 2) % 4);
    const auto often = plan.knob("often", 0);
    for (const auto& st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "state") {
        const auto v = randomState(st.at(0));
        const auto e = makeState(v);
        hv.push_back({e, nq, evalOr(e, nq, "state"), "state"});
        drop(3);
      } else if (st.op == "tiny") { // amplitudes over many magnitudes
        Vec v(std::size_t{1} << nq);
        double n = 0;
        for (std::size_t i = 0; i < v.size(); i++) {
          const u64 s = mix(st.at(0) + i);
          v[i] = std::pow(10., -static_cast<double>(s % 8)) *
                 gt::ex(static_cast<double>((s >> 20) % 6283) / 1000);
          n += std::norm(v[i]);
        }
        for (auto& x : v) {
          x /= std::sqrt(n);
        }
        const auto e = makeState(v);
        hv.push_back({e, nq, evalOr(e, nq, "state"), "state"});
        drop(3);
      } else if (st.op == "gate" && !hv.empty()) {
        auto& h = hv[st.at(4) % hv.size()];
        const auto g =
            circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq, 2);
        h.e = dd::applyUnitaryOperation(*circ::opOf(g), h.e, *P);
        h.d = evalOr(h.e, nq, "state");
      } else if (st.op == "one" && !hv.empty()) {
        one(hv[st.at(0) % hv.size()], st.at(1) % nq, st.at(2));
        measured++;
      } else if (st.op == "all" && !hv.empty()) {
        all(hv[st.at(0) % hv.size()], st.at(2));
        measured++;
      } else if (st.op == "oper" && !hv.empty()) {
        viaOperation(hv[st.at(0) % hv.size()], st);
        measured++;
      } else if (st.op == "keep" && !hv.empty()) {
        // go on with a measured state
        auto& h = hv[st.at(0) % hv.size()];
        auto mt = simrng::engine({st.at(2)}, st.at(2));
        (void)P->measureOneCollapsing(
            h.e, static_cast<dd::Qubit>(st.at(1) % nq), mt);
        h.d = evalOr(h.e, nq, "state");
        if (!(std::abs(dn::norm2(h.d) - 1) < 1e-7)) {
          c.fail(id + "/collapse", "the collapsed state has norm %.9f",
                 dn::norm2(h.d));
        }
      } else if (st.op == "dens") {
        makeDensity(st);
      } else if (st.op == "dmeas") {
        density(st);
        measured++;
      } else if (st.op == "churn") {
        churn(st.at(0));
      } else if (st.op == "gc") {
        gc();
      }
      if (often != 0) {
        gc();
      }
      verifyHeld(st.op.c_str());
      c.ev("%s nodes %zu", st.op.c_str(), P->vUniqueTable.getNumEntries());
      c.cover(mix(P->vUniqueTable.getNumEntries() * 131 + nq) ^
              std::hash<std::string>()(st.op));
    }
    while (!dm.empty()) {
      releaseDensity();
    }
    drop(0);
    c.nontrivial = measured > 0;
  }
};
void run05(const Plan& p, Ctx& c) {
  wide::isWide(p) ? wide::run(p, c, "P05") : S05(c, p, "P05").run();
}
Plan gen05(u64 seed) {
  if (wide::pick(seed, 10)) {
    return wide::gen(seed, "P05");
  }
  Rng r(seed);
  Plan p;
  p.prop = "P05";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("cfg0", 1 + (r.next() >> 40));
  knob("gclim0", r.below(3) == 0 ? 0 : r.next() >> 40);
  knob("nq0", r.below(4));
  knob("often", r.chance(0.1) ? 1 : 0);
  const bool dens = r.chance(0.3);
  p.add(r.chance(0.2) ? "tiny" : "state", {r.next() >> 8});
  for (u64 i = 0, n = 3 + r.below(10); i < n; i++) {
    const double x = r.unit();
    if (x < 0.12) {
      p.add("state", {r.next() >> 8});
    } else if (x < 0.15) {
      p.add("tiny", {r.next() >> 8});
    } else if (x < 0.35) {
      p.add("gate", {r.below(32), r.next() >> 40, r.next() >> 30,
                     r.next() >> 40, r.below(3)});
    } else if (x < 0.5) {
      p.add("one", {r.below(3), r.below(4), r.next() >> 20});
    } else if (x < 0.62) {
      p.add("all", {r.below(3), 0, r.next() >> 20});
    } else if (x < 0.74) {
      p.add("oper", {r.below(3), 0, r.next(), r.below(2)});
    } else if (x < 0.8) {
      p.add("keep", {r.below(3), r.below(4), r.next()});
    } else if (x < 0.86 && dens) {
      p.add("dens", {r.below(6), r.next() >> 10, r.next() >> 10});
    } else if (x < 0.92 && dens) {
      p.add("dmeas", {r.below(2), r.below(4), r.next() >> 20});
    } else if (x < 0.96) {
      p.add("churn", {r.next() >> 40});
    } else {
      p.add("gc");
    }
  }
  p.add("one", {r.below(3), r.below(4), r.next() >> 20});
  if (dens) {
    p.add("dens", {r.below(6), r.next() >> 10, r.next() >> 10});
    p.add("dmeas", {0, r.below(4), r.next() >> 20});
  }
  return p;
}
const Register r05("P05", gen05, run05, 60);

// ------------------------------------------------------------------ P06
struct S06 : PkgBase {
  using PkgBase::PkgBase;
  u64 sampled = 0;

  void run() {
    open(1 + plan.knob("nq0", 2) % 4);
    const std::size_t nc = plan.knob("nc", 2) % 6;
    Builder b(nq, 0, 0, plan.knob("gap", 0));
    std::vector<std::pair<std::size_t, std::size_t>> regs;
    if (nc > 0) {
      const std::size_t split = plan.knob("split", 0) % nc;
      if (split > 0) {
        b.q.addClassicalRegister(split, "a");
        regs.emplace_back(0, split);
      }
      b.q.addClassicalRegister(nc - split, "b");
      regs.emplace_back(split, nc - split);
    }
    const auto lay = plan.knob("lay", 0) == 0
                         ? std::vector<std::size_t>{0, 1, 2, 3, 4}
                         : circ::permutation(plan.knob("lay", 0), nq);
    const auto out = plan.knob("out", 0) == 0
                         ? std::vector<std::size_t>{0, 1, 2, 3, 4}
                         : circ::permutation(plan.knob("out", 0), nq);
    std::vector<std::size_t> in(nq);
    for (std::size_t q = 0; q < nq; q++) {
      in[q] = lay[q];
      b.q.initialLayout[b.phys.at[q]] =
          static_cast<qc::Qubit>(lay[q]);
      b.q.outputPermutation[b.phys.at[q]] =
          static_cast<qc::Qubit>(out[q]);
    }
    // a qubit that is garbage is not part of the output
    u64 garb = 0;
    bool measures = false;
    bool dynamic = false; // known to need shot-by-shot execution
    for (const auto& st : plan.steps) {
      c.steps++;
      if (st.op == "g") {
        b.gate(circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq),
               st.at(4) % 2 == 0);
        dynamic = dynamic || measures;
      } else if (st.op == "bar") {
        b.barrier();
      } else if (st.op == "meas" && nc > 0) {
        b.closeComp(true);
        Ref r;
        r.kind = Ref::MEAS;
        const auto sel = circ::permutation(st.at(0), nq);
        const auto bs = circ::permutation(st.at(1), nc);
        const std::size_t k =
            1 + st.at(2) % std::min<std::size_t>(nq, nc);
        std::vector<qc::Qubit> t;
        std::vector<qc::Bit> bits;
        for (std::size_t i = 0; i < k; i++) {
          t.push_back(b.phys.at[sel[i]]);
          bits.push_back(bs[i]);
          r.targets.push_back(sel[i]);
          r.bits.push_back(bs[i]);
        }
        if (k == 1) {
          b.q.measure(t[0], bits[0]);
        } else {
          b.q.measure(t, bits);
        }
        r.desc = fmt("measure %zu qubits, first %zu -> %zu", k, sel[0], bs[0]);
        b.text.push_back(r.desc);
        b.refs.push_back(r);
        measures = true;
      } else if (st.op == "reset") {
        b.closeComp(true);
        Ref r;
        r.kind = Ref::RESET;
        const auto sel = circ::permutation(st.at(0), nq);
        const std::size_t k = 1 + st.at(1) % nq;
        std::vector<qc::Qubit> t;
        for (std::size_t i = 0; i < k; i++) {
          t.push_back(b.phys.at[sel[i]]);
          r.targets.push_back(sel[i]);
        }
        if (k == 1) {
          b.q.reset(t[0]);
        } else {
          b.q.reset(t);
        }
        r.desc = fmt("reset %zu qubits, first %zu", k, sel[0]);
        b.text.push_back(r.desc);
        b.refs.push_back(r);
        dynamic = true;
      } else if (st.op == "if" && nc > 0) {
        b.closeComp(true);
        const auto g =
            circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq, 2);
        Ref r = circ::refOf(g);
        r.cond = true;
        const u64 how = st.at(4);
        if (how % 3 == 0) { // single bit
          r.cstart = (how >> 8) % nc;
          r.csize = 1;
          r.cval = (how >> 4) % 2;
          r.cmp = static_cast<int>((how >> 5) % 2);
          b.q.emplace_back<qc::ClassicControlledOperation>(
              circ::opOf(b.phys.on(g)), static_cast<qc::Bit>(r.cstart), r.cval,
              r.cmp == 0 ? qc::Eq : qc::Neq);
        } else {
          const auto& rg = regs[(how >> 8) % regs.size()];
          r.cstart = rg.first;
          r.csize = rg.second;
          r.cval = (how >> 16) % (u64{1} << r.csize);
          r.cmp = static_cast<int>((how >> 4) % 6);
          static const qc::ComparisonKind ck[] = {qc::Eq,  qc::Neq, qc::Lt,
                                                  qc::Leq, qc::Gt,  qc::Geq};
          const auto& reg = b.q.getClassicalRegisters().at(
              rg.first == 0 && regs.size() > 1 ? "a" : "b");
          b.q.emplace_back<qc::ClassicControlledOperation>(
              circ::opOf(b.phys.on(g)), reg, r.cval, ck[r.cmp]);
        }
        r.desc = fmt("if bits[%zu..+%zu] cmp%d %llu: ", r.cstart, r.csize,
                     r.cmp, (unsigned long long)r.cval) +
                 g.text();
        b.text.push_back(r.desc);
        b.refs.push_back(r);
        dynamic = true;
      } else if (st.op == "garb") {
        // only qubits that are not measured make sense as garbage
        if (!measures && plan.knob("nomeas", 0) != 0) {
          const auto l = static_cast<qc::Qubit>(st.at(0) % nq);
          b.q.setLogicalQubitGarbage(l);
          garb |= u64{1} << l;
        }
      } else if (st.op == "churn") {
        churn(st.at(0));
      } else if (st.op == "gc") {
        gc();
      } else if (st.op == "sample") {
        b.closeComp(true);
        sample(b, st, in, out, garb, nc, measures, dynamic);
      }
    }
    drop(0);
    c.nontrivial = sampled > 0;
    b.closeComp(true);
  }

  void sample(Builder& b, const Step& st, const std::vector<std::size_t>& in,
              const std::vector<std::size_t>& out, u64 garb, std::size_t nc,
              bool measures, bool dynamic) {
    const u64 how = st.at(0);
    qc::QuantumComputation copy;
    const bool useCopy = how % 3 == 0;
    if (useCopy) {
      copy = b.q; // copy assignment
    }
    qc::QuantumComputation copy2(useCopy ? copy : b.q); // copy construction
    qc::QuantumComputation& q = useCopy ? copy2 : b.q;
    // the output permutation gathered from measurements must not matter
    if (measures && (how >> 4) % 3 == 0) {
      copy2.initializeIOMapping();
      if (!useCopy) {
        sampleOn(b, copy2, st, in, out, garb, nc, measures, dynamic);
        return;
      }
    }
    sampleOn(b, q, st, in, out, garb, nc, measures, dynamic);
  }

  void sampleOn(Builder& b, qc::QuantumComputation& q, const Step& st,
                const std::vector<std::size_t>& in,
                const std::vector<std::size_t>& out, u64 garb, std::size_t nc,
                bool measures, bool dynamic) {
    const bool bits = measures || dynamic;
    const u64 how = st.at(0);
    const u64 seed = 1 + (st.at(1) >> 1);
    const bool own = (how >> 8) % 8 != 0;
    const Vec v = own ? randomState(st.at(2)) : [&] {
      Vec z(std::size_t{1} << nq, 0);
      z[0] = 1;
      return z;
    }();
    auto branches = circ::enumerate(b.refs, v, in);
    if (branches.empty()) {
      c.count("too-many-branches");
      return;
    }
    std::map<std::string, double> dist;
    if (bits) {
      for (const auto& br : branches) {
        std::string k(nc, '0');
        for (std::size_t i = 0; i < nc; i++) {
          if (((br.bits >> i) & 1U) != 0) {
            k[nc - 1 - i] = '1';
          }
        }
        dist[k] += br.p;
      }
    } else {
      const auto& s = branches[0].v;
      for (std::size_t i = 0; i < s.size(); i++) {
        std::string k(nq, '0');
        for (std::size_t p = 0; p < nq; p++) {
          if (((garb >> out[p]) & 1U) == 0 && ((i >> in[p]) & 1U) != 0) {
            k[nq - 1 - out[p]] = '1';
          }
        }
        dist[k] += std::norm(s[i]);
      }
    }
    const std::size_t shots =
        (how >> 12) % 16 == 0 ? (how >> 16) % 3 : dynamic ? 250 : 1000;
    std::map<std::string, std::size_t> h[2];
    for (int rep = 0; rep < 2; rep++) {
      if (own) {
        const auto x = makeState(v);
        P->incRef(x); // sampling may or may not consume one hold
        hv.push_back({x, nq, evalOr(x, nq, "input"), "input state"});
        h[rep] = dd::sample(q, x, *P, shots, seed);
      } else {
        h[rep] = dd::sample(q, shots, seed);
      }
      if (rep == 0) {
        if ((how >> 20) % 2 == 0) {
          churn(how);
        }
        if ((how >> 21) % 2 == 0) {
          gc();
        }
      }
      if (rep == 1 && st.at(3) % 2 == 0) {
        break;
      }
    }
    if (c.verbose) {
      for (auto& t : b.text) {
        c.ev("  op %s", t.c_str());
      }
      for (auto& [k, p] : dist) {
        c.ev("  P(%s)=%.4f", k.c_str(), p);
      }
      for (auto& [k, n] : h[0]) {
        c.ev("  count(%s)=%zu", k.c_str(), n);
      }
    }
    if (h[0] != h[1]) {
      c.fail(id + "/seed", "two runs with seed %llu gave different histograms",
             static_cast<unsigned long long>(seed));
    }
    std::size_t sum = 0;
    for (const auto& [k, n] : h[0]) {
      sum += n;
      const auto it = dist.find(k);
      if (k.size() != (bits ? nc : nq)) {
        c.fail(id + "/layout", "bit string '%s' where %zu bits are expected",
               k.c_str(), bits ? nc : nq);
      }
      if (n > 0 && (it == dist.end() || it->second < 1e-12)) {
        c.fail(id + "/impossible",
               "bit string %s was returned %zu times but has probability %.3g",
               k.c_str(), n, it == dist.end() ? 0. : it->second);
      }
    }
    if (sum != shots) {
      c.fail(id + "/shots", "%zu shots were requested, %zu returned", shots,
             sum);
    }
    for (const auto& [k, p] : dist) {
      const auto it = h[0].find(k);
      const double n = it == h[0].end() ? 0 : static_cast<double>(it->second);
      if (std::abs(n - static_cast<double>(shots) * p) >
          bernstein(static_cast<double>(shots), std::min(p, 1.))) {
        c.fail(id + "/frequency",
               "bit string %s has probability %.4f but was returned %.0f "
               "times in %zu shots",
               k.c_str(), p, n, shots);
      }
    }
    sampled++;
    verifyHeld("sampling");
    drop(2);
    c.count(dynamic ? "sample-dynamic" : measures ? "sample-measured"
                                                  : "sample-all");
    c.ev("sampled %zu shots, %zu outcomes", shots, h[0].size());
    for (const auto& [k, n] : h[0]) {
      c.feed(k.data(), k.size());
      c.feed(static_cast<double>(n));
    }
    c.cover(mix(h[0].size() * 64 + b.q.size()) ^ mix(nc * 8 + nq + (dynamic ? 1000 : 0)));
    c.cover(c.hash);
  }
};
void run06(const Plan& p, Ctx& c) {
  wide::isWide(p) ? wide::run(p, c, "P06") : S06(c, p, "P06").run();
}
Plan gen06(u64 seed) {
  if (wide::pick(seed, 10)) {
    return wide::gen(seed, "P06");
  }
  Rng r(seed);
  Plan p;
  p.prop = "P06";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("cfg0", 1 + (r.next() >> 40));
  knob("gclim0", r.below(2) == 0 ? 0 : r.next() >> 40);
  knob("nq0", r.below(4));
  const int kind = static_cast<int>(r.below(10)); // 0-1 none, 2-4 static
  knob("nc", kind < 2 ? r.below(6) : 1 + r.below(5));
  knob("split", r.below(6));
  knob("gap", r.chance(0.12) ? 1 + (r.next() >> 40) : 0);
  knob("lay", r.below(2) == 0 ? 0 : 1 + (r.next() >> 30));
  knob("out", r.below(2) == 0 ? 0 : 1 + (r.next() >> 30));
  knob("nomeas", kind < 2 ? 1 : 0);
  auto gate = [&](const char* op) {
    p.add(op, {r.below(32), r.next() >> 40, r.next() >> 30, r.next() >> 40,
               r.next() >> 20});
  };
  for (u64 i = 0, n = 1 + r.below(9); i < n; i++) {
    const double x = r.unit();
    if (x < 0.55 || kind < 5) {
      if (x < 0.05) {
        p.add("bar");
      } else if (x < 0.1 && kind < 2) {
        p.add("garb", {r.below(4)});
      } else if (x < 0.3) { // superposition
        p.add("g", {1 + (r.chance(0.5) ? 0 : 16), r.next() >> 40, 7,
                    r.next() >> 40, r.below(2)});
      } else {
        gate("g");
      }
    } else if (x < 0.72) {
      p.add("meas", {r.next() >> 40, r.next() >> 40,
                     r.chance(0.7) ? 0 : r.below(4)});
    } else if (x < 0.8) {
      p.add("reset", {r.next() >> 40, r.chance(0.7) ? 0 : r.below(4)});
    } else if (x < 0.94) {
      gate("if");
    } else if (x < 0.97) {
      p.add("churn", {r.next() >> 40});
    } else {
      p.add("gc");
    }
  }
  if (kind >= 2) {
    for (u64 i = 0, n = 1 + r.below(3); i < n; i++) {
      p.add("meas",
            {r.next() >> 40, r.next() >> 40, r.chance(0.5) ? 9 : r.below(4)});
    }
  }
  p.add("sample", {r.next() >> 8, r.next() >> 20, r.next() >> 8, r.below(2)});
  if (r.chance(0.2)) {
    gate("g");
    p.add("sample",
          {r.next() >> 8, r.next() >> 20, r.next() >> 8, r.below(2)});
  }
  return p;
}
const Register r06("P06", gen06, run06, 60);
} // namespace
