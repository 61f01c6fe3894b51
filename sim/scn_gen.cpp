// P19: the algorithm generators, called in seeded sequences with failing
// allocations, judged against the definitions of the algorithms.
#include "core/sim.hpp"
#include "ddutil.hpp"
#include "qcref.hpp"

#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"

#include <cmath>
#include <map>
#include <memory>
#include <new>
#include <optional>

namespace {
using namespace sim;
using circ::Ref;
using dn::cplx;
using dn::Mat;
using dn::Vec;
constexpr double PI = 3.141592653589793238462643383279502884;

std::size_t mirrored(std::size_t x, std::size_t n) {
  std::size_t y = 0;
  for (std::size_t i = 0; i < n; i++) {
    y |= ((x >> i) & 1U) << (n - 1 - i);
  }
  return y;
}
// the Fourier transform with qubit 0 as the most significant one
Vec fourier(const Vec& v, std::size_t n) {
  const std::size_t d = v.size();
  Vec w(d, 0);
  for (std::size_t k = 0; k < d; k++) {
    for (std::size_t j = 0; j < d; j++) {
      w[mirrored(k, n)] +=
          std::polar(1 / std::sqrt(static_cast<double>(d)),
                     2 * PI * static_cast<double>((j * k) % d) /
                         static_cast<double>(d)) *
          v[mirrored(j, n)];
    }
  }
  return w;
}

struct S19 {
  Ctx& c;
  const Plan& plan;
  const std::string id = "P19";
  std::unique_ptr<dd::Package> pk;
  u64 failAt = 0;
  u64 judged = 0;
  static constexpr std::size_t WIDE = 40;

  S19(Ctx& cc, const Plan& p) : c(cc), plan(p) {}

  // call the generator, with a failing allocation first if one is due
  template <class F>
  qc::QuantumComputation make(const std::string& what, F f) {
    c.count("generator." + what);
    if (failAt != 0) {
      bool fired = false;
      arena::arm(failAt);
      failAt = 0;
      std::optional<qc::QuantumComputation> q;
      try {
        SutScope s;
        q.emplace(f());
        fired = arena::disarm();
      } catch (const std::bad_alloc&) {
        fired = arena::disarm();
      } catch (const std::exception& e) {
        fired = arena::disarm();
        NoFault nf;
        c.fail(id + "/refused", "%s: %s", what.c_str(), e.what());
      }
      c.count(fired ? "fault.allocation" : "fault.allocation-unreached");
    }
    try {
      SutScope s;
      return f();
    } catch (const std::exception& e) {
      NoFault nf;
      c.fail(id + "/refused", "%s is refused: %s", what.c_str(), e.what());
    }
  }
  std::vector<Ref> refs(const qc::QuantumComputation& q,
                        const std::string& what) {
    try {
      return circ::refsOf(q);
    } catch (const std::exception& e) {
      c.fail(id + "/malformed", "%s: %s", what.c_str(), e.what());
    }
  }
  static std::vector<std::size_t> straight(std::size_t n) {
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; i++) {
      p[i] = i;
    }
    return p;
  }
  static Vec basis(std::size_t n, std::size_t k) {
    Vec v(std::size_t{1} << n, 0);
    v[k] = 1;
    return v;
  }
  static Vec randomVec(std::size_t n, u64 seed) {
    Rng r(seed);
    if (r.chance(0.3)) {
      return basis(n, r.below(std::size_t{1} << n));
    }
    Vec v(std::size_t{1} << n, 0);
    double s = 0;
    for (auto& x : v) {
      x = cplx(r.unit() - 0.5, r.unit() - 0.5);
      s += std::norm(x);
    }
    for (auto& x : v) {
      x /= std::sqrt(s);
    }
    return v;
  }
  Vec apply(const std::vector<Ref>& rs, Vec v, std::size_t n,
            const std::string& what) {
    const auto pos = straight(n);
    for (const auto& r : rs) {
      if (r.kind == Ref::NOP) {
        continue;
      }
      if (r.kind != Ref::U || r.cond) {
        c.fail(id + "/wrong:" + what, "a gate was expected, not %s",
               r.desc.c_str());
      }
      circ::applyU(r, v, pos);
    }
    return v;
  }
  void size(const qc::QuantumComputation& q, std::size_t n, std::size_t b,
            const std::string& what) {
    if (q.getNqubits() != n || q.getNcbits() != b) {
      c.fail(id + "/size:" + what, "%zu qubits and %zu bits, expected %zu, %zu",
             q.getNqubits(), q.getNcbits(), n, b);
    }
  }
  std::map<u64, double> distribution(const std::vector<Ref>& rs, const Vec& v,
                                     std::size_t n) {
    std::map<u64, double> d;
    for (const auto& b : circ::enumerate(rs, v, straight(n))) {
      d[b.bits] += b.p;
    }
    return d;
  }
  void same(const std::map<u64, double>& got,
            const std::function<double(u64)>& want, std::size_t n,
            const std::string& what, const std::string& detail) {
    judged++;
    for (u64 k = 0; k < (u64{1} << n); k++) {
      const auto it = got.find(k);
      const double g = it == got.end() ? 0 : it->second;
      const double w = want(k);
      if (!(std::abs(g - w) < 1e-7)) {
        c.fail(id + "/wrong:" + what,
               "%s: outcome %llu has probability %.6g, expected %.6g",
               detail.c_str(), (unsigned long long)k, g, w);
      }
    }
  }
  void near(const Vec& got, const Vec& want, const std::string& what,
            const std::string& detail) {
    judged++;
    const double e = dn::dist(got, want);
    if (!(e < 1e-7)) {
      c.fail(id + "/wrong:" + what, "%s: the state is off by %.3g",
             detail.c_str(), e);
    }
  }

  // -------------------------------------------------------------- the kinds
  void qft(const Step& st) {
    const std::size_t n = st.at(1) % 7;
    const bool meas = st.at(2) % 2 == 0;
    const auto q = make(meas ? "qft-measured" : "qft", [&] {
      return qc::createQFT(static_cast<qc::Qubit>(n), meas);
    });
    size(q, n, n, "qft");
    auto rs = refs(q, "qft");
    const auto v = randomVec(n, st.at(3));
    const auto w = fourier(v, n);
    if (meas) {
      same(distribution(rs, v, n), [&](u64 k) { return std::norm(w[k]); }, n,
           "qft-measured", fmt("%zu qubits", n));
      for (const auto& [p, l] : q.outputPermutation) {
        for (const auto& r : rs) {
          if (r.kind == Ref::MEAS && r.targets[0] == p && r.bits[0] != l) {
            c.fail(id + "/wrong:qft-layout",
                   "qubit %u is measured into bit %zu, its output is %u",
                   unsigned(p), r.bits[0], unsigned(l));
          }
        }
      }
    } else {
      near(apply(rs, v, n, "qft"), w, "qft", fmt("%zu qubits", n));
    }
  }
  void iqft(const Step& st) {
    const std::size_t n = st.at(1) % 7;
    const auto q = make("iterative-qft", [&] {
      return qc::createIterativeQFT(static_cast<qc::Qubit>(n));
    });
    size(q, n == 0 ? 0 : 1, n, "iterative-qft");
    if (n == 0) {
      return;
    }
    // the i-th turn of the qubit stands for qubit i of the transform
    Rng r(st.at(3));
    Vec v{1};
    std::vector<Mat> prep;
    for (std::size_t i = 0; i < n; i++) {
      const double t = r.chance(0.4) ? PI * static_cast<double>(r.below(2))
                                     : 2 * PI * r.unit();
      const double p = 2 * PI * r.unit();
      Mat m(2);
      m.at(0, 0) = std::cos(t / 2);
      m.at(1, 0) = std::polar(std::sin(t / 2), p);
      m.at(0, 1) = -std::polar(std::sin(t / 2), -p);
      m.at(1, 1) = std::cos(t / 2);
      prep.push_back(m);
      v = dn::kron(Vec{m.at(0, 0), m.at(1, 0)}, v);
    }
    std::vector<Ref> rs;
    std::size_t turn = 0;
    auto start = [&] {
      if (turn >= n) {
        c.fail(id + "/wrong:iterative-qft", "too many resets");
      }
      Ref u;
      u.kind = Ref::U;
      u.u = prep[turn++];
      u.targets = {0};
      rs.push_back(u);
    };
    start();
    for (const auto& x : refs(q, "iterative-qft")) {
      rs.push_back(x);
      if (x.kind == Ref::RESET) {
        start();
      }
    }
    const auto w = fourier(v, n);
    same(distribution(rs, basis(1, 0), 1),
         [&](u64 k) { return std::norm(w[k]); }, n, "iterative-qft",
         fmt("%zu turns", n));
  }
  static double peak(double lambda, u64 k, std::size_t n) {
    const double d = static_cast<double>(u64{1} << n);
    cplx a = 0;
    for (u64 j = 0; j < (u64{1} << n); j++) {
      a += std::polar(1 / d, 2 * PI * static_cast<double>(j) *
                                 (lambda / 2 - static_cast<double>(k) / d));
    }
    return std::norm(a);
  }
  void qpe(const Step& st) {
    const bool iter = st.at(1) % 2 == 0;
    const std::size_t n = 1 + st.at(1) / 2 % 5;
    const auto nq = static_cast<qc::Qubit>(n);
    const std::string what = iter ? "iterative-qpe" : "qpe";
    const u64 how = st.at(2) % 4;
    const u64 seed = 1 + st.at(3) % 100000;
    double lambda = 0;
    Rng r(st.at(4));
    if (how == 0) {
      lambda = 6 * r.unit() - 3;
    } else if (how == 1) {
      lambda = static_cast<double>(r.below(u64{2} << n)) /
               static_cast<double>(u64{1} << (n - 1));
    }
    const auto q = make(what, [&] {
      if (how < 2) {
        return iter ? qc::createIterativeQPE(lambda, nq)
                    : qc::createQPE(lambda, nq);
      }
      return iter ? qc::createIterativeQPE(nq, how == 2, seed)
                  : qc::createQPE(nq, how == 2, seed);
    });
    size(q, iter ? 2 : n + 1, n, what);
    if (how >= 2) { // the phase to find is that of the circuit
      lambda = q.getGlobalPhase();
      const double x = lambda * static_cast<double>(u64{1} << (n - 1));
      const double y = how == 2 ? x : 2 * x;
      if (std::abs(y - std::round(y)) > 1e-9 ||
          (how == 2 ? std::round(y) == 0
                    : static_cast<long>(std::round(y)) % 2 == 0)) {
        c.fail(id + "/wrong:" + what,
               "phase %.17g is not %s in %zu bits (seed %llu)", lambda,
               how == 2 ? "exact" : "inexact", n, (unsigned long long)seed);
      }
    }
    const std::size_t m = iter ? 2 : n + 1;
    same(distribution(refs(q, what), basis(m, 0), m),
         [&](u64 k) { return peak(lambda, k, n); }, n, what,
         fmt("phase %.6g pi, %zu bits, kind %llu", lambda, n,
             (unsigned long long)how));
  }
  void bv(const Step& st) {
    const bool iter = st.at(1) % 2 == 0;
    const std::string what =
        iter ? "iterative-bernstein-vazirani" : "bernstein-vazirani";
    const u64 how = st.at(2) % 4;
    std::size_t n = how == 3 ? 1 + st.at(3) % 40 : 1 + st.at(3) % 7;
    u64 secret = st.at(4) & ((u64{1} << n) - 1);
    const u64 seed = 1 + st.at(4) % 100000;
    if (how == 1) { // the length follows from the secret
      n = 1;
      for (std::size_t i = 0; i < 63; i++) {
        if (((secret >> i) & 1U) != 0) {
          n = i + 1;
        }
      }
    }
    const auto nq = static_cast<qc::Qubit>(n);
    const qc::BVBitString bits(secret);
    const auto q = make(what, [&] {
      switch (how) {
      case 0:
      case 3:
        return iter ? qc::createIterativeBernsteinVazirani(bits, nq)
                    : qc::createBernsteinVazirani(bits, nq);
      case 1:
        return iter ? qc::createIterativeBernsteinVazirani(bits)
                    : qc::createBernsteinVazirani(bits);
      default:
        return iter ? qc::createIterativeBernsteinVazirani(nq, seed)
                    : qc::createBernsteinVazirani(nq, seed);
      }
    });
    size(q, iter ? 2 : n + 1, n, what);
    const auto name = q.getName();
    std::string text;
    for (std::size_t i = n; i-- > 0;) {
      text += ((secret >> i) & 1U) != 0 ? '1' : '0';
    }
    if (how == 2) { // the secret is only known by the name
      text = name.substr(name.rfind('_') + 1);
      if (text.size() != n) {
        c.fail(id + "/wrong:" + what, "%zu bits are named %s", n, name.c_str());
      }
      secret = 0;
      for (const char ch : text) {
        secret = 2 * secret + (ch == '1' ? 1 : 0);
      }
    }
    if (name != (iter ? "iterative_bv_" : "bv_") + text) {
      c.fail(id + "/wrong:" + what, "secret %s is named %s", text.c_str(),
             name.c_str());
    }
    judged++;
    if (iter || n <= 6) {
      const std::size_t m = iter ? 2 : n + 1;
      const auto d = distribution(refs(q, what), basis(m, 0), m);
      if (d.size() != 1 || d.begin()->first != secret) {
        c.fail(id + "/wrong:" + what, "secret %s is not found: outcome %llx",
               text.c_str(),
               d.empty() ? 0ULL : (unsigned long long)d.begin()->first);
      }
    } else {
      std::map<std::string, std::size_t> h;
      {
        SutScope s;
        h = dd::sample(q, 4, seed);
      }
      if (h.size() != 1 || h.begin()->first != text) {
        c.fail(id + "/wrong:" + what, "secret %s is not found: outcome %s",
               text.c_str(), h.empty() ? "" : h.begin()->first.c_str());
      }
    }
  }
  void grover(const Step& st) {
    const std::size_t n = 1 + st.at(1) % 5;
    const u64 how = st.at(2) % 5;
    u64 target = st.at(3) & ((u64{1} << n) - 1);
    const auto nq = static_cast<qc::Qubit>(n);
    const auto d = static_cast<double>(u64{1} << n);
    if (how >= 3) { // its parts on their own
      const bool oracle = how == 3;
      const std::string what = oracle ? "grover-oracle" : "grover-diffusion";
      const auto q = make(what, [&] {
        qc::QuantumComputation z(n + 1);
        if (oracle) {
          qc::appendGroverOracle(z, qc::GroverBitString(target));
        } else {
          qc::appendGroverDiffusion(z);
        }
        return z;
      });
      const auto v = randomVec(n + 1, st.at(4));
      auto w = v;
      const std::size_t h = std::size_t{1} << n;
      if (oracle) {
        w[h + target] = -w[h + target];
      } else {
        for (std::size_t f = 0; f < 2; f++) {
          cplx mean = 0;
          for (std::size_t k = 0; k < h; k++) {
            mean += v[f * h + k] / d;
          }
          for (std::size_t k = 0; k < h; k++) {
            w[f * h + k] = 2.0 * mean - v[f * h + k];
          }
        }
      }
      auto got = apply(refs(q, what), v, n + 1, what);
      const cplx o = dn::dot(got, w);
      if (std::abs(o) > 0.5) { // (up to a global phase)
        for (auto& x : got) {
          x *= o / std::abs(o);
        }
      }
      near(got, w, what, fmt("%zu data qubits", n));
      return;
    }
    const auto q = make("grover", [&] {
      return how == 2 ? qc::createGrover(nq, 1 + st.at(4) % 100000)
                      : qc::createGrover(nq, qc::GroverBitString(target));
    });
    size(q, n + 1, n, "grover");
    const auto name = q.getName();
    const auto text = name.substr(name.rfind('_') + 1);
    if (how == 2) {
      target = 0;
      for (const char ch : text) {
        target = 2 * target + (ch == '1' ? 1 : 0);
      }
    }
    const double turns =
        n <= 2 ? 1 : std::round(PI / 4 * std::sqrt(d));
    const double p = std::pow(
        std::sin((2 * turns + 1) * std::asin(1 / std::sqrt(d))), 2);
    same(distribution(refs(q, "grover"), basis(n + 1, 0), n + 1),
         [&](u64 k) { return k == target ? p : (1 - p) / (d - 1); }, n,
         "grover", fmt("target %llu of %zu qubits", (unsigned long long)target,
                       n));
  }
  void entangled(const Step& st) {
    const bool ghz = st.at(1) % 2 == 0;
    const bool wide = st.at(2) % 5 == 0;
    const std::size_t n = 1 + st.at(3) % (wide ? WIDE : 7);
    const std::string what = ghz ? "ghz" : "w-state";
    const auto q = make(what, [&] {
      return ghz ? qc::createGHZState(static_cast<qc::Qubit>(n))
                 : qc::createWState(static_cast<qc::Qubit>(n));
    });
    size(q, n, n, what);
    if (n <= 7) {
      Vec w(std::size_t{1} << n, 0);
      if (ghz) {
        w.front() = w.back() = std::sqrt(0.5);
      } else {
        for (std::size_t i = 0; i < n; i++) {
          w[std::size_t{1} << i] = 1 / std::sqrt(static_cast<double>(n));
        }
      }
      near(apply(refs(q, what), basis(n, 0), n, what), w, what,
           fmt("%zu qubits", n));
      return;
    }
    if (!pk) {
      SutScope s;
      pk = std::make_unique<dd::Package>(WIDE);
    }
    SutScope s;
    auto e = dd::simulate(q, pk->makeZeroState(n), *pk);
    auto amp = [&](const std::string& b) { return e.getValueByPath(n, b); };
    const std::string zero(n, '0');
    double err = 0;
    if (ghz) {
      err = std::max(std::abs(amp(zero) - std::sqrt(0.5)),
                     std::abs(amp(std::string(n, '1')) - std::sqrt(0.5)));
      std::string b = zero;
      b[st.at(4) % n] = '1';
      err = std::max(err, n == 1 ? 0 : std::abs(amp(b)));
    } else {
      err = std::abs(amp(zero));
      for (std::size_t i = 0; i < n; i++) {
        std::string b = zero;
        b[i] = '1';
        err = std::max(err, std::abs(amp(b) -
                                     1 / std::sqrt(static_cast<double>(n))));
      }
    }
    pk->decRef(e);
    pk->garbageCollect();
    judged++;
    if (!(err < 1e-7)) {
      NoFault nf;
      c.fail(id + "/wrong:" + what, "%zu qubits: an amplitude is off by %.3g",
             n, err);
    }
  }
  void prepare(const Step& st) {
    Rng r(st.at(2));
    const std::size_t n = st.at(1) % 6;
    const u64 style = r.below(6);
    Vec v(std::size_t{1} << n, 0);
    double s = 0;
    for (auto& x : v) {
      const double m = r.unit() + 0.05;
      switch (style) {
      case 0: // real, both signs
        x = r.chance(0.5) ? m : -m;
        break;
      case 1: // sparse
        x = r.chance(0.4) ? std::polar(m, 2 * PI * r.unit()) : cplx(0);
        break;
      case 2: // only phases
        x = std::polar(1.0, 2 * PI * r.unit());
        break;
      case 3: // phases of one value
        x = std::polar(m, 1.2345);
        break;
      case 4: // round values
        x = std::polar(static_cast<double>(r.below(3)),
                       PI / 2 * static_cast<double>(r.below(4)));
        break;
      default:
        x = std::polar(m, 2 * PI * r.unit());
      }
      s += std::norm(x);
    }
    if (s == 0) {
      v[r.below(v.size())] = 1;
      s = 1;
    }
    for (auto& x : v) {
      x /= std::sqrt(s);
    }
    const u64 bad = st.at(3) % 12;
    if (bad < 2) { // what is no state is refused
      auto w = v;
      if (bad == 0) {
        for (auto& x : w) {
          x *= 1 + 0.1 * (1 + r.unit());
        }
      } else if (r.chance(0.3)) {
        w.clear();
      } else {
        w.insert(w.end(), 1 + r.below(3), 0);
        if ((w.size() & (w.size() - 1)) == 0) {
          w.push_back(0);
        }
        if ((w.size() & (w.size() - 1)) == 0) {
          w.push_back(0);
        }
      }
      bool threw = false;
      try {
        SutScope sc;
        const auto q = qc::createStatePreparationCircuit(w);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      c.count("generator.state-preparation-invalid");
      judged++;
      if (!threw) {
        c.fail(id + "/accepted", "%zu amplitudes of norm %.3g are accepted",
               w.size(), std::sqrt(dn::norm2(w)));
      }
      return;
    }
    const auto q = make("state-preparation", [&] {
      return qc::createStatePreparationCircuit(v);
    });
    if (q.getNqubits() != n) {
      c.fail(id + "/size:state-preparation", "%zu qubits, expected %zu",
             q.getNqubits(), n);
    }
    auto got = apply(refs(q, "state-preparation"), basis(n, 0), n,
                     "state-preparation");
    for (auto& x : got) {
      x *= std::polar(1.0, q.getGlobalPhase());
    }
    near(got, v, "state-preparation",
         fmt("%zu qubits, style %llu", n, (unsigned long long)style));
  }
  void clifford(const Step& st) {
    const std::size_t n = 1 + st.at(1) % 4;
    const std::size_t depth = st.at(2) % 5;
    const auto q = make("random-clifford", [&] {
      return qc::createRandomCliffordCircuit(static_cast<qc::Qubit>(n), depth,
                                             1 + st.at(3) % 100000);
    });
    size(q, n, n, "random-clifford");
    const auto rs = refs(q, "random-clifford");
    const std::size_t d = std::size_t{1} << n;
    Mat u(d);
    for (std::size_t k = 0; k < d; k++) {
      const auto v = apply(rs, basis(n, k), n, "random-clifford");
      for (std::size_t i = 0; i < d; i++) {
        u.at(i, k) = v[i];
      }
    }
    judged++;
    for (std::size_t g = 0; g < 2 * n; g++) {
      Mat p(d);
      for (std::size_t k = 0; k < d; k++) {
        const std::size_t b = std::size_t{1} << (g / 2);
        if (g % 2 == 0) {
          p.at(k ^ b, k) = 1;
        } else {
          p.at(k, k) = (k & b) != 0 ? -1 : 1;
        }
      }
      const auto m = dn::mul(dn::mul(u, p), dn::dagger(u));
      std::size_t x = 0;
      for (std::size_t k = 0; k < d; k++) {
        if (std::abs(m.at(k, 0)) > 0.5) {
          x = k;
        }
      }
      double err = 0;
      for (std::size_t k = 0; k < d; k++) {
        cplx want = m.at(x, 0);
        for (std::size_t b = 0; b < n; b++) {
          const std::size_t e = std::size_t{1} << b;
          if ((k & e) != 0) {
            want *= m.at(x ^ e, e) / m.at(x, 0);
          }
        }
        for (std::size_t i = 0; i < d; i++) {
          err = std::max(err, std::abs(m.at(i, k) -
                                       ((i ^ k) == x ? want : cplx(0))));
        }
      }
      if (!(err < 1e-7)) {
        c.fail(id + "/wrong:random-clifford",
               "%zu qubits, depth %zu: a Pauli operator is mapped to none", n,
               depth);
      }
    }
  }

  void run() {
    for (const auto& st : plan.steps) {
      c.steps++;
      if (st.op == "fail") {
        failAt = 1 + st.at(0) % 60;
        continue;
      }
      c.ev("%s %llu %llu %llu", st.op.c_str(), (unsigned long long)st.at(1),
           (unsigned long long)st.at(2), (unsigned long long)st.at(3));
      if (st.op == "qft") {
        qft(st);
      } else if (st.op == "iqft") {
        iqft(st);
      } else if (st.op == "qpe") {
        qpe(st);
      } else if (st.op == "bv") {
        bv(st);
      } else if (st.op == "grover") {
        grover(st);
      } else if (st.op == "state") {
        entangled(st);
      } else if (st.op == "prepare") {
        prepare(st);
      } else if (st.op == "clifford") {
        clifford(st);
      }
      c.cover(mix(st.op.size() + static_cast<u64>(st.op[0]) * 7) ^
              mix(st.at(1) % 64) ^ mix(st.at(2) % 16 + 1000));
    }
    c.nontrivial = judged > 0;
  }
};
void run19(const Plan& p, Ctx& c) { S19(c, p).run(); }
Plan gen19(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P19";
  static const std::vector<std::string> OPS{
      "qft",    "iqft",  "qpe",     "qpe",     "bv",
      "grover", "state", "prepare", "prepare", "clifford"};
  const bool faults = r.chance(0.4);
  for (u64 i = 0, n = 2 + r.below(6); i < n; i++) {
    if (faults && r.chance(0.5)) {
      p.add("fail", {r.next() >> 40});
    }
    p.add(r.pick(OPS), {0, r.next() >> 40, r.next() >> 40, r.next() >> 40,
                        r.next() >> 20});
  }
  return p;
}
const Register R19("P19", gen19, run19, 30);
} // namespace
