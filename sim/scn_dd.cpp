// Decision-diagram package sessions: P01 (values), P02 (garbage collection),
// P03 (canonicity), P04 (allocation failure).
#include "ddutil.hpp"
#include "gates.hpp"
#include "num.hpp"
#include "wide.hpp"

#include "dd/Package.hpp"
#include "dd/Export.hpp"

#include <algorithm>
#include <new>
#include <sstream>

using namespace sim;
using namespace ddu;

namespace {
enum Mode { VALUE = 1, REFS = 2, CANON = 4, OOM = 8 };

Mat matOf(const dd::GateMatrix& g) {
  Mat m(2);
  for (int i = 0; i < 4; i++) {
    m.a[i] = g[i];
  }
  return m;
}
dd::GateMatrix gmOf(const Mat& m) {
  return {m.a[0], m.a[1], m.a[2], m.a[3]};
}
dd::CVec toC(const Vec& v) { return {v.begin(), v.end()}; }
dd::CMat toC(const Mat& m) {
  dd::CMat r(m.d, dd::CVec(m.d));
  for (std::size_t i = 0; i < m.d; i++) {
    for (std::size_t j = 0; j < m.d; j++) {
      r[i][j] = m.at(i, j);
    }
  }
  return r;
}
std::vector<cplx> flat(const dd::CMat& m) {
  std::vector<cplx> r;
  for (const auto& row : m) {
    r.insert(r.end(), row.begin(), row.end());
  }
  return r;
}

struct VSlot {
  int pk;
  dd::vEdge e;
  std::size_t n;
  Vec d;
  int holds;
};
struct MSlot {
  int pk;
  dd::mEdge e;
  std::size_t n;
  Mat d;
  int holds;
};

struct Session {
  Ctx& c;
  const Plan& plan;
  int mode;
  bool disc;     // restricted to Clifford+T values
  bool smallN;   // unused
  std::vector<std::unique_ptr<dd::Package>> pk;
  std::vector<dd::DDPackageConfig> cfgs;
  std::vector<std::size_t> nq;
  std::vector<std::size_t> baseNums;
  std::vector<bool> wasReset;
  std::vector<VSlot> V;
  std::vector<MSlot> M;
  u64 gcs = 0;
  u64 checks = 0;
  std::vector<u64> sinceGc = {0, 0};
  std::string lastEvent = "start";
  static constexpr std::size_t CAP = 9;

  Session(const Plan& p, Ctx& ctx, int m) : c(ctx), plan(p), mode(m) {
    disc = plan.knob("disc", 0) != 0;
    smallN = false;
  }

  dd::DDPackageConfig config(int i) {
    return configFrom(plan.knob(i == 0 ? "cfg0" : "cfg1", 0));
  }
  void open(int i) {
    nq[i] = 1 + (plan.knob(i == 0 ? "nq0" : "nq1", 3) % 4);
    const auto cfg = config(i);
    pk[i] = std::make_unique<dd::Package>(nq[i], cfg);
    setLimits(*pk[i], cfg, plan.knob(i == 0 ? "gclim0" : "gclim1", 0));
    baseNums[i] = pk[i]->cUniqueTable.getStats().numEntries;
    wasReset[i] = false;
  }
  void start() {
    const std::size_t n = 1 + (plan.knob("npk", 1) % 2);
    pk.resize(n);
    nq.resize(n);
    baseNums.resize(n);
    wasReset.resize(n);
    for (std::size_t i = 0; i < n; i++) {
      open(static_cast<int>(i));
    }
  }

  // ------------------------------------------------------------ checking
  std::string pre() const {
    return (mode & VALUE) != 0   ? "P01"
           : (mode & REFS) != 0  ? "P02"
           : (mode & CANON) != 0 ? "P03"
                                 : "P04";
  }
  bool judgesValues() const { return (mode & (VALUE | OOM)) != 0; }
  bool judgesHeld() const { return (mode & (VALUE | REFS | OOM)) != 0; }

  template <class E> auto evalOr(const E& e, std::size_t n, const char* op) {
    try {
      return ddu::eval(e, n);
    } catch (const Malformed& m) {
      c.fail(pre() + "/malformed:" + op, "result of %s is malformed: %s", op,
             m.why.c_str());
    }
  }

  void verifyHeld(const char* when) {
    for (std::size_t i = 0; i < V.size(); i++) {
      const auto now = evalOr(V[i].e, V[i].n, when);
      if (judgesHeld() && !(dn::dist(now, V[i].d) < 1e-10)) {
        c.fail(pre() + "/held-changed",
               "held vector v%zu changed by %.3g (noticed %s, last event %s)",
               i, dn::dist(now, V[i].d), when, lastEvent.c_str());
      }
    }
    for (std::size_t i = 0; i < M.size(); i++) {
      const auto now = evalOr(M[i].e, M[i].n, when);
      if (judgesHeld() && !(dn::dist(now.a, M[i].d.a) < 1e-10)) {
        c.fail(pre() + "/held-changed",
               "held matrix m%zu changed by %.3g (noticed %s, last event %s)",
               i, dn::dist(now.a, M[i].d.a), when, lastEvent.c_str());
      }
    }
    checks++;
  }

  Reach reach(int i) const {
    Reach r;
    for (const auto& s : V) {
      if (s.pk == i && s.holds > 0) {
        r.add(s.e);
      }
    }
    for (const auto& s : M) {
      if (s.pk == i && s.holds > 0) {
        r.add(s.e);
      }
    }
    return r;
  }
  void checkActive(const char* when) {
    if ((mode & REFS) == 0) {
      return;
    }
    for (int i = 0; i < static_cast<int>(pk.size()); i++) {
      const auto r = reach(i);
      const auto av = pk[i]->vUniqueTable.getNumActiveEntries();
      const auto am = pk[i]->mUniqueTable.getNumActiveEntries();
      if (av != r.v.size() || am != r.m.size()) {
        c.fail("P02/active-count",
               "%s: package reports %zu active vector and %zu active matrix "
               "nodes, but %zu and %zu are reachable from held diagrams",
               when, av, am, r.v.size(), r.m.size());
      }
    }
    checks++;
  }
  // after a forced collection
  void checkCollected(int i, bool final) {
    const auto r = reach(i);
    auto& p = *pk[i];
    const auto ev = p.vUniqueTable.getNumEntries();
    const auto em = p.mUniqueTable.getNumEntries();
    const auto ed = p.dUniqueTable.getNumEntries();
    const char* who = (mode & OOM) != 0 ? "P04" : "P02";
    if ((mode & REFS) != 0 || ((mode & OOM) != 0 && final)) {
      if (ev != r.v.size() || em != r.m.size() || ed != 0) {
        c.fail(std::string(who) + (ev + em > r.v.size() + r.m.size()
                                       ? "/garbage-kept"
                                       : "/live-freed"),
               "after a forced collection %zu vector, %zu matrix and %zu "
               "density nodes remain; reachable from held diagrams: %zu, %zu, "
               "0",
               ev, em, ed, r.v.size(), r.m.size());
      }
      // stored nodes are the reachable ones
      auto scan = [&](const dd::UniqueTable& t, const std::set<const void*>& s,
                      const char* what) {
        std::size_t cnt = 0;
        for (const auto& table : t.getTables()) {
          for (const auto* b : table) {
            while (b != nullptr) {
              if (s.count(b) == 0) {
                c.fail(std::string(who) + "/table-mismatch",
                       "a %s node that no held diagram reaches is stored "
                       "after collection",
                       what);
              }
              if (++cnt > s.size() + 10) {
                c.fail(std::string(who) + "/table-mismatch",
                       "the %s node table has a cycle or duplicates", what);
              }
              b = static_cast<const dd::NodeBase*>(b->next());
            }
          }
        }
        if (cnt != s.size()) {
          c.fail(std::string(who) + "/table-mismatch",
                 "%zu of %zu reachable %s nodes are stored after collection",
                 cnt, s.size(), what);
        }
      };
      scan(p.vUniqueTable, r.v, "vector");
      scan(p.mUniqueTable, r.m, "matrix");
      const auto en = p.cUniqueTable.getStats().numEntries;
      if (en < r.nums.size() || en > r.nums.size() + baseNums[i]) {
        c.fail(std::string(who) +
                   (en < r.nums.size() ? "/live-number-freed"
                                       : "/number-kept"),
               "after a forced collection %zu numbers remain; held diagrams "
               "use %zu (plus at most %zu constants)",
               en, r.nums.size(), baseNums[i]);
      }
      if (final && en > baseNums[i]) {
        c.fail(std::string(who) + "/number-kept",
               "%zu numbers remain although nothing is held (fresh package: "
               "%zu)",
               en, baseNums[i]);
      }
    }
    if ((mode & REFS) != 0) {
      auto used = [&](std::size_t u, std::size_t e, const char* w) {
        if (u != e) {
          c.fail("P02/memory-stats",
                 "memory manager reports %zu %s entries in use, table stores "
                 "%zu",
                 u, w, e);
        }
      };
      used(p.vMemoryManager.getStats().numUsed, ev, "vector node");
      used(p.mMemoryManager.getStats().numUsed, em, "matrix node");
      if (!wasReset[i]) {
        used(p.cMemoryManager.getStats().numUsed,
             p.cUniqueTable.getStats().numEntries, "number");
      }
    }
    if ((mode & CANON) != 0) {
      normalForm(r);
    }
    checks++;
  }

  void normalForm(const Reach& r) {
    std::map<std::vector<const void*>, const void*> seen;
    auto key = [](auto* n, int tag) {
      std::vector<const void*> k = {
          reinterpret_cast<const void*>(static_cast<std::uintptr_t>(
              (static_cast<unsigned>(n->v) * 2U) + tag))};
      for (const auto& e : n->e) {
        k.push_back(e.p);
        k.push_back(e.w.r);
        k.push_back(e.w.i);
      }
      return k;
    };
    auto weights = [&](auto* n) {
      bool allZero = true;
      for (const auto& e : n->e) {
        const double a = std::abs(wt(e.w));
        if (!(a <= 1 + 1e-9)) {
          c.fail("P03/weight", "edge weight of magnitude %.17g", a);
        }
        allZero = allZero && e.w.exactlyZero();
        if (e.w.exactlyZero() && !e.isTerminal()) {
          c.fail("P03/zero-edge", "a zero edge points to an inner node");
        }
      }
      if (allZero) {
        c.fail("P03/zero-node", "a stored node has only zero edges");
      }
    };
    for (const auto* q : r.v) {
      const auto* n = static_cast<const dd::vNode*>(q);
      weights(n);
      if (const auto [it, ok] = seen.insert({key(n, 0), q}); !ok) {
        c.fail("P03/duplicate-node", "two identical vector nodes are stored");
      }
    }
    for (const auto* q : r.m) {
      const auto* n = static_cast<const dd::mNode*>(q);
      weights(n);
      if (const auto [it, ok] = seen.insert({key(n, 1), q}); !ok) {
        c.fail("P03/duplicate-node", "two identical matrix nodes are stored");
      }
      if (n->e[1].w.exactlyZero() && n->e[2].w.exactlyZero() &&
          n->e[0] == n->e[3]) {
        c.fail("P03/identity-node", "a stored matrix node is an identity");
      }
    }
    // numbers: no two stored values within the tolerance of each other
    std::vector<double> vals;
    for (const auto* q : r.nums) {
      vals.push_back(static_cast<const dd::RealNumber*>(q)->value);
    }
    std::sort(vals.begin(), vals.end());
    for (std::size_t i = 0; i < vals.size(); i++) {
      if (!(vals[i] > 0)) {
        c.fail("P03/number", "stored number %.17g", vals[i]);
      }
      if (disc && i > 0 && vals[i] - vals[i - 1] < 1e-13) {
        c.fail("P03/duplicate-number",
               "two stored numbers differ by %.3g, less than the tolerance",
               vals[i] - vals[i - 1]);
      }
    }
  }

  // The same operation again and again on operands that are dropped and
  // collected in between, so that their memory is reused. Only numbers that
  // are never collected occur: a collection frees nodes but no number.
  Vec plainVec(u64 s, std::size_t n) const {
    const std::size_t d = std::size_t{1} << n;
    static const cplx ph[] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    Vec v(d, 0);
    const std::size_t a = s % d;
    const std::size_t b = (s >> 8) % d;
    if (a == b || (s >> 16) % 3 == 0) {
      v[a] = ph[(s >> 20) % 4];
    } else {
      v[a] = std::sqrt(0.5) * ph[(s >> 20) % 4];
      v[b] = std::sqrt(0.5) * ph[(s >> 24) % 4];
    }
    return v;
  }
  Mat plainMat(u64 s, std::size_t n) const { // signed permutation
    const std::size_t d = std::size_t{1} << n;
    static const cplx ph[] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    const auto o = circ_perm(s, d);
    Mat m(d);
    for (std::size_t i = 0; i < d; i++) {
      m.at(o[i], i) = (s >> 50) % 2 == 0 ? ph[0] : ph[(mix(s + i) >> 9) % 4];
    }
    return m;
  }
  static std::vector<std::size_t> circ_perm(u64 s, std::size_t d) {
    std::vector<std::size_t> o(d);
    for (std::size_t i = 0; i < d; i++) {
      o[i] = i;
    }
    for (std::size_t i = d; i > 1; i--) {
      s = mix(s + i);
      std::swap(o[i - 1], o[s % i]);
    }
    return o;
  }
  void echo(int p, u64 r1, u64 r2) {
    if ((mode & VALUE) == 0) {
      return;
    }
    const std::size_t n = nq[p];
    // (sometimes in a package of its own, that is reset in between)
    std::unique_ptr<dd::Package> own;
    if ((r1 >> 8) % 4 == 0) {
      SutScope s;
      own = std::make_unique<dd::Package>(n, config(p));
      c.count("event.echo-reset");
    }
    auto& P = own ? *own : *pk[p];
    static const char* names[] = {"add(v,v)",       "add(m,m)",
                                  "innerProduct",   "kronecker(v,v)",
                                  "kronecker(m,m)", "multiply(m,v)",
                                  "multiply(m,m)",  "conjugate",
                                  "conjugateTranspose", "trace",
                                  "reduceGarbage(v)", "reduceGarbage(m)",
                                  "expectationValue"};
    const u64 k = r1 % std::size(names);
    const std::string what = std::string(names[k]) + " (repeated)";
    const std::size_t hi = n / 2;
    const std::size_t lo = n - hi;
    for (int rep = 0; rep < 3; rep++) {
      const u64 s = mix(r2 + static_cast<u64>(rep));
      const bool kr = k == 3 || k == 4;
      if (kr && hi == 0) {
        return;
      }
      const auto a = plainVec(s, kr ? hi : n);
      const auto b = plainVec(s >> 3, kr ? lo : n);
      const auto x = plainMat(s >> 1, kr ? hi : n);
      const auto y = plainMat(s >> 2, kr ? lo : n);
      double err = 0;
      const bool ok = sut("echo", [&] {
        // (the order decides which numbers end up where)
        dd::vEdge va;
        dd::vEdge vb;
        dd::mEdge mx;
        dd::mEdge my;
        const bool late = ((s >> 20) & 1U) != 0;
        for (int part = 0; part < 2; part++) {
          if ((part == 1) == late) {
            va = P.makeStateFromVector(toC(a));
            vb = P.makeStateFromVector(toC(b));
          } else {
            mx = P.makeDDFromMatrix(toC(x));
            P.incRef(mx);
            my = P.makeDDFromMatrix(toC(y));
            P.incRef(my);
          }
        }
        // (other nodes where results of earlier repetitions were)
        if (((s >> 21) & 1U) != 0) {
          for (u64 o = 0; o < 3; o++) {
            P.decRef(P.makeStateFromVector(toC(plainVec(mix(s + o), n))));
          }
        }
        auto cv = [&](const dd::vEdge& e, const Vec& w) {
          err = dn::dist(evalOr(e, n, what.c_str()), w);
        };
        auto cm = [&](const dd::mEdge& e, const Mat& w) {
          err = dn::dist(evalOr(e, n, what.c_str()).a, w.a);
        };
        switch (k) {
        case 0: {
          auto w = a;
          for (std::size_t i = 0; i < w.size(); i++) {
            w[i] += b[i];
          }
          cv(P.add(va, vb), w);
          break;
        }
        case 1:
          cm(P.add(mx, my), dn::add(x, y));
          break;
        case 2: {
          const auto g = P.innerProduct(va, vb);
          err = std::abs(cplx(g.r, g.i) - dn::dot(a, b));
          break;
        }
        case 3:
          cv(P.kronecker(va, vb, lo), dn::kron(a, b));
          break;
        case 4:
          cm(P.kronecker(mx, my, lo), dn::kron(x, y));
          break;
        case 5:
          cv(P.multiply(mx, va), dn::mul(x, a));
          break;
        case 6:
          cm(P.multiply(mx, my), dn::mul(x, y));
          break;
        case 7: {
          auto w = a;
          for (auto& z : w) {
            z = std::conj(z);
          }
          cv(P.conjugate(va), w);
          break;
        }
        case 8:
          cm(P.conjugateTranspose(mx), dn::dagger(x));
          break;
        case 9: {
          const auto g = P.trace(mx, n);
          err = std::abs(cplx(g.r, g.i) -
                         dn::trace(x) / static_cast<double>(x.d));
          break;
        }
        case 10: {
          const auto mask = bits(s >> 7, n);
          auto w = a;
          for (std::size_t q = 0; q < n; q++) {
            for (std::size_t i = 0; mask[q] && i < w.size(); i++) {
              if (((i >> q) & 1U) == 0) {
                auto& o = w[i | (std::size_t{1} << q)];
                w[i] = std::sqrt(std::norm(w[i]) + std::norm(o));
                o = 0;
              }
            }
          }
          va = P.reduceGarbage(va, mask);
          const auto got = evalOr(va, n, what.c_str());
          for (std::size_t i = 0; i < w.size(); i++) {
            err = std::max(err, std::abs(std::abs(got[i]) - std::abs(w[i])));
          }
          break;
        }
        case 11: {
          const auto mask = bits(s >> 7, n);
          auto w = x;
          for (std::size_t q = 0; q < n; q++) {
            for (std::size_t i = 0; mask[q] && i < w.d; i++) {
              for (std::size_t j = 0; ((i >> q) & 1U) == 0 && j < w.d; j++) {
                auto& o = w.at(i | (std::size_t{1} << q), j);
                w.at(i, j) = std::sqrt(std::norm(w.at(i, j)) + std::norm(o));
                o = 0;
              }
            }
          }
          mx = P.reduceGarbage(mx, mask);
          const auto got = evalOr(mx, n, what.c_str());
          for (std::size_t i = 0; i < w.a.size(); i++) {
            err = std::max(err,
                           std::abs(std::abs(got.a[i]) - std::abs(w.a[i])));
          }
          break;
        }
        default: {
          // a symmetric permutation is Hermitian
          auto h = dn::add(x, dn::dagger(x));
          dd::mEdge mh = P.makeDDFromMatrix(toC(h));
          err = std::abs(P.expectationValue(mh, va) -
                         dn::dot(a, dn::mul(h, a)).real());
          break;
        }
        }
        P.decRef(va);
        P.decRef(vb);
        P.decRef(mx);
        P.decRef(my);
        if (own) {
          P.reset();
        } else {
          P.garbageCollect(true);
        }
      });
      if (!ok) {
        return;
      }
      if (!own) {
        gcs++;
        sinceGc[p] = 0;
      }
      if (judgesValues() && !(err < 1e-9)) {
        c.fail(pre() + "/value:" + what,
               "repetition %d of %s on %zu qubits is off by %.3g from the "
               "linear-algebra result",
               rep, names[k], n, err);
      }
    }
    c.count("event.forced_collection", 3);
    lastEvent = "collection";
    c.ev("echo %s", names[k]);
    verifyHeld("after repeated operations");
    checkCollected(p, false);
  }

  // ------------------------------------------------------------ SUT calls
  // returns false if the call failed with an (injected) allocation failure
  template <class F> bool sut(const char* op, F f) {
    const bool armedNow = armK != 0;
    if (armedNow) {
      arena::arm(armK, armT);
      armK = 0;
    }
    bool ok = true;
    bool other = false;
    std::string what;
    const u64 before = arena::allocCount();
    try {
      SutScope s;
      f();
    } catch (const std::bad_alloc&) {
      ok = false;
    } catch (const Stop&) {
      throw;
    } catch (const std::exception& e) {
      other = true;
      what = e.what();
    }
    const u64 allocs = arena::allocCount() - before;
    const bool fired = arena::disarm();
    if (other) {
      if (fired) {
        ok = false; // the failure may surface as another exception type
      } else if (judgesValues()) {
        c.fail(pre() + "/unexpected-exception:" + std::string(op),
               "%s threw: %s", op, what.c_str());
      } else {
        ok = false;
      }
    }
    c.feed(allocs);
    if (armedNow) {
      c.count("fault.alloc_armed");
    }
    if (fired) {
      c.count("fault.alloc_failed");
      c.count(std::string("fault.alloc_failed@") + op);
      c.nontrivial = true;
      c.cover(mix(std::hash<std::string>{}(op)) ^ mix(allocs));
    }
    if (!ok) {
      c.ev("%s -> failed (allocation %llu)", op, (unsigned long long)allocs);
      lastEvent = std::string("allocation failure in ") + op;
      if (!fired) {
        c.fail(pre() + "/spurious-bad-alloc:" + op,
               "%s ran out of memory without an injected fault", op);
      }
      for (std::size_t i = 0; i < pk.size(); i++) {
        (void)i;
      }
      verifyHeld("after a failed allocation");
    }
    return ok;
  }
  u64 armK = 0, armT = 1;

  // ------------------------------------------------------------ slots
  int pickV(u64 r, int p) const {
    std::vector<int> ids;
    for (std::size_t i = 0; i < V.size(); i++) {
      if (V[i].pk == p) {
        ids.push_back(static_cast<int>(i));
      }
    }
    return ids.empty() ? -1 : ids[r % ids.size()];
  }
  int pickM(u64 r, int p) const {
    std::vector<int> ids;
    for (std::size_t i = 0; i < M.size(); i++) {
      if (M[i].pk == p) {
        ids.push_back(static_cast<int>(i));
      }
    }
    return ids.empty() ? -1 : ids[r % ids.size()];
  }
  void releaseV(std::size_t i) {
    auto s = V[i];
    V.erase(V.begin() + static_cast<long>(i));
    for (int k = 0; k < s.holds; k++) {
      pk[s.pk]->decRef(s.e);
    }
  }
  void releaseM(std::size_t i) {
    auto s = M[i];
    M.erase(M.begin() + static_cast<long>(i));
    for (int k = 0; k < s.holds; k++) {
      pk[s.pk]->decRef(s.e);
    }
  }
  // nothing unheld survives a point where a collection may happen
  void dropTemps(int p) {
    for (std::size_t i = V.size(); i-- > 0;) {
      if (V[i].pk == p && V[i].holds == 0) {
        V.erase(V.begin() + static_cast<long>(i));
      }
    }
    for (std::size_t i = M.size(); i-- > 0;) {
      if (M[i].pk == p && M[i].holds == 0) {
        M.erase(M.begin() + static_cast<long>(i));
      }
    }
  }
  bool scaleOk(const std::vector<cplx>& a) const {
    const double m = dn::maxAbs(a);
    if ((mode & CANON) != 0) { // the tolerance is absolute
      return m == 0 || (m > 0.05 && m < 5);
    }
    return m == 0 || (m > 1e-3 && m < 1e3);
  }

  // `holds`: how many holds the result already carries
  void putV(int p, const dd::vEdge& e, std::size_t n, const Vec& expect,
            int holds, const char* op, u64 how) {
    const Vec got = evalOr(e, n, op);
    const double tol = 1e-9 * std::max(1.0, dn::maxAbs(expect));
    const double err = dn::dist(got, expect);
    if (judgesValues() && !(err < tol)) {
      c.fail(pre() + "/value:" + std::string(op),
             "%s on %zu qubits is off by %.3g from the linear-algebra result "
             "(last event: %s)",
             op, n, err, lastEvent.c_str());
    }
    checks++;
    if (holds == 0 && !(how % 5 == 4)) {
      pk[p]->incRef(e);
      holds = 1;
    }
    VSlot s{p, e, n, got, holds};
    canonCheck(s, op);
    c.cover(mix(std::hash<std::string>{}(op)) ^ (sinceGc[p] << 8U) ^ n ^
            (reach(p).v.size() << 20U));
    V.push_back(s);
    c.ev("%s -> v%zu (n=%zu, %016llx)", op, V.size() - 1, n,
         (unsigned long long)sum(got));
    if (!scaleOk(got) || !(err < tol)) {
      releaseV(V.size() - 1);
    } else if (V.size() > CAP) {
      releaseV(how / 8 % V.size());
    }
  }
  void putM(int p, const dd::mEdge& e, std::size_t n, const Mat& expect,
            int holds, const char* op, u64 how) {
    const Mat got = evalOr(e, n, op);
    const double tol = 1e-9 * std::max(1.0, dn::maxAbs(expect.a));
    const double err = dn::dist(got.a, expect.a);
    if (judgesValues() && !(err < tol)) {
      c.fail(pre() + "/value:" + std::string(op),
             "%s on %zu qubits is off by %.3g from the linear-algebra result "
             "(largest entry %.3g, last event: %s)",
             op, n, err, dn::maxAbs(expect.a), lastEvent.c_str());
    }
    checks++;
    if (holds == 0 && !(how % 5 == 4)) {
      pk[p]->incRef(e);
      holds = 1;
    }
    MSlot s{p, e, n, got, holds};
    canonCheck(s, op);
    c.cover(mix(std::hash<std::string>{}(op)) ^ (sinceGc[p] << 8U) ^ n ^
            (reach(p).m.size() << 20U));
    M.push_back(s);
    c.ev("%s -> m%zu (n=%zu, max %.6g err %.3g, %016llx)", op, M.size() - 1, n, dn::maxAbs(expect.a), err,
         (unsigned long long)sum(got.a));
    if (!scaleOk(got.a) || !(err < tol)) {
      releaseM(M.size() - 1);
    } else if (M.size() > CAP) {
      releaseM(how / 8 % M.size());
    }
  }
  static u64 sum(const std::vector<cplx>& a) {
    u64 h = 0;
    for (const auto& x : a) {
      double b[2] = {x.real() + 0.0, x.imag() + 0.0};
      u64 q[2];
      memcpy(q, b, sizeof q);
      h = mix(h ^ q[0]) ^ mix(q[1]);
    }
    return h;
  }
  void canonCheck(const VSlot& s, const char* op) {
    if ((mode & CANON) == 0) {
      return;
    }
    for (const auto& o : V) {
      if (o.pk == s.pk && o.n == s.n && dn::dist(o.d, s.d) < 1e-11) {
        c.count("probe.canon_pairs");
        if (!(o.e == s.e)) {
          c.fail("P03/not-canonical:vector",
                 "%s produced a second diagram for a vector that is already "
                 "held",
                 op);
        }
      }
    }
  }
  void canonCheck(const MSlot& s, const char* op) {
    if ((mode & CANON) == 0) {
      return;
    }
    for (const auto& o : M) {
      if (o.pk != s.pk) {
        continue;
      }
      const auto d = std::max(o.d.d, s.d.d);
      if (dn::dist(dn::extend(o.d, d).a, dn::extend(s.d, d).a) < 1e-11) {
        c.count("probe.canon_pairs");
        if (!(o.e == s.e)) {
          if (c.verbose) {
            for (const auto* q : {&o, &s}) {
              printf("root %p w %.17g %.17g\n", (void*)q->e.p,
                     wt(q->e.w).real(), wt(q->e.w).imag());
              Reach r;
              r.add(q->e);
              for (const auto* z : r.m) {
                const auto* nd = static_cast<const dd::mNode*>(z);
                printf(" %p v%d:", (void*)nd, nd->v);
                for (const auto& x : nd->e) {
                  printf(" (%p %.17g %.17g)", (void*)x.p, wt(x.w).real(),
                         wt(x.w).imag());
                }
                printf("\n");
                fflush(stdout);
              }
            }
          }
          c.fail("P03/not-canonical:matrix",
                 "%s produced a second diagram for a matrix that is already "
                 "held",
                 op);
        }
      }
    }
  }

  // ------------------------------------------------------------ values
  Mat gate1(u64 r) const {
    if (disc || r % 3 == 0) {
      return gt::disc(static_cast<unsigned>((r >> 4) % gt::NDISC));
    }
    const u64 q = mix(r);
    switch (r % 5) {
    case 0:
      return gt::u3(gt::ang(q), gt::ang(mix(q)), gt::ang(mix(q + 1)));
    case 1:
      return gt::rx(gt::ang(q));
    case 2:
      return gt::ry(gt::ang(q));
    case 3:
      return gt::rz(gt::ang(q));
    default:
      return gt::ph(gt::ang(q));
    }
  }
  cplx amp(u64& s) const {
    s = mix(s);
    if (disc) {
      static const double sq = std::sqrt(0.5);
      const cplx tab[] = {0,          1,           -1,          cplx(0, 1),
                          cplx(0, -1), cplx(sq, sq), cplx(sq, -sq), 0.5};
      return tab[s % 8];
    }
    if (s % 4 == 0) {
      return 0;
    }
    const double a = (static_cast<double>(mix(s) >> 11) * 0x1.0p-53) - .5;
    const double b = (static_cast<double>(mix(s + 1) >> 11) * 0x1.0p-53) - .5;
    if (s % 4 == 1) {
      return a;
    }
    return {a, b};
  }
  Vec randVec(std::size_t n, u64 r) const {
    Vec v(std::size_t{1} << n);
    u64 s = r;
    for (auto& x : v) {
      x = amp(s);
    }
    double nn = std::sqrt(dn::norm2(v));
    if (nn < 0.05) {
      v[r % v.size()] = 1;
      nn = std::sqrt(dn::norm2(v));
    }
    for (auto& x : v) {
      x /= nn;
    }
    return v;
  }
  Mat randMat(std::size_t n, u64 r) const {
    Mat m(std::size_t{1} << n);
    u64 s = r;
    for (auto& x : m.a) {
      x = amp(s);
      if (mix(s) % 3 == 0) {
        x = 0;
      }
    }
    if (r % 4 == 0) { // block structure / identity parts
      m = dn::kron(Mat::id(m.d / 2), m.d >= 2 ? gate1(r) : Mat());
      if (m.d != (std::size_t{1} << n)) {
        m = Mat::id(std::size_t{1} << n);
      }
    }
    if (dn::maxAbs(m.a) < 0.05) {
      m.at(0, 0) = 1;
    }
    return m;
  }
  static std::vector<bool> bits(u64 r, std::size_t n) {
    std::vector<bool> b(n);
    for (std::size_t i = 0; i < n; i++) {
      b[i] = ((r >> i) & 1U) != 0;
    }
    return b;
  }
  static Vec basis(const std::vector<bool>& b) {
    Vec v(std::size_t{1} << b.size(), 0);
    std::size_t k = 0;
    for (std::size_t i = 0; i < b.size(); i++) {
      k |= static_cast<std::size_t>(b[i]) << i;
    }
    v[k] = 1;
    return v;
  }

  void step(const Step& st);
  void finish();
};

const char* NAMES[] = {
    "vzero",   "vbasis",  "vprod",   "vghz",     "vw",       "vfromvec",
    "mgate",   "mgatec",  "mtwo",    "mfrommat", "mident",   "vadd",
    "madd",    "mv",      "mm",      "vkron",    "mkron",    "vconj",
    "mct",     "inner",   "fid",     "expval",   "ptrace",   "trace",
    "redanc",  "redgarv", "redgarm", "applyv",   "applym",   "delv",
    "delm",    "transv",  "transm",  "readv",    "readm",    "serv",
    "serm",    "kronst",  "kronstm", "collapse", "hold",     "releasev",
    "releasem", "gc",     "softgc",  "churn",    "clearct",  "grow",
    "reset",   "revec",   "remat",   "measall",  "badcall",  "failalloc",
    "fidout",  "closeid", "initmat"};

void Session::step(const Step& st) {
  const int p = static_cast<int>(st.at(0) % pk.size());
  const u64 r1 = st.at(1);
  const u64 r2 = st.at(2);
  const u64 r3 = st.at(3);
  const u64 how = st.at(4);
  auto& P = *pk[p];
  const auto& op = st.op;
  const std::size_t n = 1 + (r1 % nq[p]);
  c.steps++;
  sinceGc[p]++;

  // a step that makes `failalloc` meaningful only for the next operation
  if (op == "failalloc") {
    armK = 1 + (r1 % 400 < 200 ? r1 % 12 : r1 % 90);
    armT = 1 + (r2 % 4 == 0 ? r2 / 4 % 3 : 0);
    return;
  }
  if (op == "vzero") {
    dd::vEdge e;
    if (sut("makeZeroState", [&] { e = P.makeZeroState(n); })) {
      putV(p, e, n, basis(std::vector<bool>(n, false)), 1, "makeZeroState",
           how);
    }
  } else if (op == "vbasis") {
    const auto b = bits(r2, n);
    dd::vEdge e;
    if (sut("makeBasisState", [&] { e = P.makeBasisState(n, b); })) {
      putV(p, e, n, basis(b), 1, "makeBasisState", how);
    }
  } else if (op == "vprod") {
    std::vector<dd::BasisStates> b;
    Vec expect = {1};
    const double s = std::sqrt(0.5);
    static const Vec tab[] = {{1, 0},          {0, 1},
                              {s, s},          {s, -s},
                              {s, cplx(0, s)}, {s, cplx(0, -s)}};
    for (std::size_t i = 0; i < n; i++) {
      const auto k = mix(r2 + i) % 6;
      b.push_back(static_cast<dd::BasisStates>(k));
      expect = dn::kron(tab[k], expect);
    }
    dd::vEdge e;
    if (sut("makeBasisState(product)", [&] { e = P.makeBasisState(n, b); })) {
      putV(p, e, n, expect, 1, "makeBasisState(product)", how);
    }
  } else if (op == "vghz") {
    Vec x(std::size_t{1} << n, 0);
    x[0] = x[x.size() - 1] = std::sqrt(0.5);
    dd::vEdge e;
    if (sut("makeGHZState", [&] { e = P.makeGHZState(n); })) {
      putV(p, e, n, x, 1, "makeGHZState", how);
    }
  } else if (op == "vw") {
    Vec x(std::size_t{1} << n, 0);
    for (std::size_t i = 0; i < n; i++) {
      x[std::size_t{1} << i] = 1 / std::sqrt(static_cast<double>(n));
    }
    dd::vEdge e;
    if (sut("makeWState", [&] { e = P.makeWState(n); })) {
      putV(p, e, n, x, 1, "makeWState", how);
    }
  } else if (op == "vfromvec") {
    const auto x = randVec(n, r2);
    const auto cv = toC(x);
    dd::vEdge e;
    if (sut("makeStateFromVector", [&] { e = P.makeStateFromVector(cv); })) {
      putV(p, e, n, x, 1, "makeStateFromVector", how);
    }
  } else if (op == "revec") {
    const int i = pickV(r1, p);
    if (i < 0) {
      return;
    }
    const auto cv = toC(V[i].d);
    const auto nn = V[i].n;
    const auto x = V[i].d;
    dd::vEdge e;
    if (sut("makeStateFromVector", [&] { e = P.makeStateFromVector(cv); })) {
      putV(p, e, nn, x, 1, "makeStateFromVector", how);
    }
  } else if (op == "remat") {
    const int i = pickM(r1, p);
    if (i < 0) {
      return;
    }
    const auto cm = toC(M[i].d);
    const auto nn = M[i].n;
    const auto x = M[i].d;
    dd::mEdge e;
    if (sut("makeDDFromMatrix", [&] { e = P.makeDDFromMatrix(cm); })) {
      putM(p, e, nn, x, 0, "makeDDFromMatrix", how);
    }
  } else if (op == "mgate" || op == "mgatec") {
    const auto u = gate1(r2);
    const auto g1 = gmOf(u);
    const std::size_t t = r1 % nq[p];
    std::vector<std::pair<std::size_t, bool>> cs;
    qc::Controls ctrls;
    std::size_t top = t;
    if (op == "mgatec") {
      for (std::size_t q = 0; q < nq[p]; q++) {
        if (q != t && ((r3 >> q) & 1U) != 0) {
          const bool pos = ((r3 >> (q + 8)) & 1U) != 0;
          cs.emplace_back(q, pos);
          ctrls.insert(qc::Control{static_cast<qc::Qubit>(q),
                                   pos ? qc::Control::Type::Pos
                                       : qc::Control::Type::Neg});
          top = std::max(top, q);
        }
      }
    }
    const auto x = dn::embed(u, {t}, cs, top + 1);
    dd::mEdge e;
    if (sut("makeGateDD", [&] {
          e = cs.empty() ? P.makeGateDD(g1, static_cast<qc::Qubit>(t))
              : cs.size() == 1 && r3 % 2 == 0
                  ? P.makeGateDD(g1, *ctrls.begin(), static_cast<qc::Qubit>(t))
                  : P.makeGateDD(g1, ctrls, static_cast<qc::Qubit>(t));
        })) {
      putM(p, e, top + 1, x, 0, "makeGateDD", how);
    }
  } else if (op == "mtwo") {
    if (nq[p] < 2) {
      return;
    }
    const std::size_t t0 = r1 % nq[p];
    std::size_t t1 = (t0 + 1 + (r1 / 7 % (nq[p] - 1))) % nq[p];
    const Mat u =
        r2 % 3 == 0   ? dn::mul(dn::kron(gate1(r2 + 1), gate1(r2 + 2)),
                                dn::embed(gate1(r2 + 3), {0}, {{1, true}}, 2))
        : r2 % 3 == 1 ? dn::embed(gate1(r2 + 3), {1}, {{0, true}}, 2)
                      : [&] {
                          Mat s(4);
                          s.at(0, 0) = s.at(3, 3) = 1;
                          s.at(1, 2) = s.at(2, 1) = r2 % 2 ? cplx(1) : cplx(0, 1);
                          return s;
                        }();
    dd::TwoQubitGateMatrix g2;
    for (int i = 0; i < 4; i++) {
      for (int j = 0; j < 4; j++) {
        g2[i][j] = u.at(i, j);
      }
    }
    std::vector<std::pair<std::size_t, bool>> cs;
    qc::Controls ctrls;
    std::size_t top = std::max(t0, t1);
    for (std::size_t q = 0; q < nq[p]; q++) {
      if (q != t0 && q != t1 && ((r3 >> q) & 1U) != 0) {
        const bool pos = ((r3 >> (q + 8)) & 1U) != 0;
        cs.emplace_back(q, pos);
        ctrls.insert(
            qc::Control{static_cast<qc::Qubit>(q), pos ? qc::Control::Type::Pos
                                                       : qc::Control::Type::Neg});
        top = std::max(top, q);
      }
    }
    const auto x = dn::embed(u, {t0, t1}, cs, top + 1);
    dd::mEdge e;
    if (sut("makeTwoQubitGateDD", [&] {
          e = P.makeTwoQubitGateDD(g2, ctrls, static_cast<qc::Qubit>(t0),
                                   static_cast<qc::Qubit>(t1));
        })) {
      putM(p, e, top + 1, x, 0, "makeTwoQubitGateDD", how);
    }
  } else if (op == "mfrommat") {
    const std::size_t nn = std::min<std::size_t>(n, 3);
    const auto x = randMat(nn, r2);
    const auto cm = toC(x);
    dd::mEdge e;
    if (sut("makeDDFromMatrix", [&] { e = P.makeDDFromMatrix(cm); })) {
      putM(p, e, nn, x, 0, "makeDDFromMatrix", how);
    }
  } else if (op == "mident") {
    putM(p, dd::Package::makeIdent(), n, Mat::id(std::size_t{1} << n), 0,
         "makeIdent", how);
  } else if (op == "vadd") {
    const int i = pickV(r1, p);
    const int j = pickV(r2, p);
    if (i < 0 || V[i].n != V[j].n) {
      return;
    }
    Vec x = V[i].d;
    for (std::size_t k = 0; k < x.size(); k++) {
      x[k] += V[j].d[k];
    }
    dd::vEdge e;
    const auto nn = V[i].n;
    if (sut("add(v,v)", [&] { e = P.add(V[i].e, V[j].e); })) {
      putV(p, e, nn, x, 0, "add(v,v)", how);
    }
  } else if (op == "madd") {
    const int i = pickM(r1, p);
    const int j = pickM(r2, p);
    if (i < 0) {
      return;
    }
    const auto nn = std::max(M[i].n, M[j].n);
    const auto d = std::size_t{1} << nn;
    const auto x = dn::add(dn::extend(M[i].d, d), dn::extend(M[j].d, d));
    dd::mEdge e;
    if (sut("add(m,m)", [&] { e = P.add(M[i].e, M[j].e); })) {
      putM(p, e, nn, x, 0, "add(m,m)", how);
    }
  } else if (op == "mv") {
    const int i = pickM(r1, p);
    const int j = pickV(r2, p);
    if (i < 0 || j < 0 || M[i].n > V[j].n) {
      return;
    }
    const auto x = dn::mul(dn::extend(M[i].d, V[j].d.size()), V[j].d);
    dd::vEdge e;
    const auto nn = V[j].n;
    if (sut("multiply(m,v)", [&] { e = P.multiply(M[i].e, V[j].e); })) {
      putV(p, e, nn, x, 0, "multiply(m,v)", how);
    }
  } else if (op == "mm") {
    const int i = pickM(r1, p);
    const int j = pickM(r2, p);
    if (i < 0) {
      return;
    }
    const auto nn = std::max(M[i].n, M[j].n);
    const auto d = std::size_t{1} << nn;
    const auto x = dn::mul(dn::extend(M[i].d, d), dn::extend(M[j].d, d));
    dd::mEdge e;
    if (sut("multiply(m,m)", [&] { e = P.multiply(M[i].e, M[j].e); })) {
      putM(p, e, nn, x, 0, "multiply(m,m)", how);
    }
  } else if (op == "vkron") {
    const int i = pickV(r1, p);
    const int j = pickV(r2, p);
    if (i < 0 || V[i].n + V[j].n > nq[p]) {
      return;
    }
    const auto x = dn::kron(V[i].d, V[j].d);
    const auto nn = V[i].n + V[j].n;
    dd::vEdge e;
    if (sut("kronecker(v,v)",
            [&] { e = P.kronecker(V[i].e, V[j].e, V[j].n); })) {
      putV(p, e, nn, x, 0, "kronecker(v,v)", how);
    }
  } else if (op == "mkron") {
    const int i = pickM(r1, p);
    const int j = pickM(r2, p);
    if (i < 0 || M[i].n >= nq[p]) {
      return;
    }
    // the lower factor may be given on more qubits than it acts on
    auto yn = M[j].n;
    if (r3 % 3 == 0) {
      yn += r3 / 3 % 2;
    }
    if (M[i].n + yn > nq[p]) {
      return;
    }
    const auto x = dn::kron(M[i].d, dn::extend(M[j].d, std::size_t{1} << yn));
    const auto nn = M[i].n + yn;
    dd::mEdge e;
    if (sut("kronecker(m,m)", [&] { e = P.kronecker(M[i].e, M[j].e, yn); })) {
      putM(p, e, nn, x, 0, "kronecker(m,m)", how);
    }
  } else if (op == "kronst") {
    // upper factor already built on the upper qubits
    const int j = pickV(r1, p);
    if (j < 0 || V[j].n >= nq[p]) {
      return;
    }
    const std::size_t lo = V[j].n;
    const std::size_t k = 1 + (r2 % (nq[p] - lo));
    const auto b = bits(r3 << lo, lo + k);
    const std::vector<bool> hi(b.begin() + static_cast<long>(lo), b.end());
    const auto x = dn::kron(basis(hi), V[j].d);
    dd::vEdge e;
    dd::vEdge u;
    if (!sut("makeBasisState(start)",
             [&] { u = P.makeBasisState(k, b, lo); })) {
      return;
    }
    const bool ok = sut("kronecker(v,v,start)", [&] {
      e = P.kronecker(u, V[j].e, lo, false);
    });
    if (ok) {
      P.incRef(e);
    }
    P.decRef(u);
    if (ok) {
      putV(p, e, lo + k, x, 1, "kronecker(v,v,start)", how);
    }
  } else if (op == "kronstm") {
    const int j = pickM(r1, p);
    if (j < 0 || M[j].n >= nq[p]) {
      return;
    }
    const std::size_t lo = M[j].n;
    const std::size_t t = lo + (r2 % (nq[p] - lo));
    const auto u = gate1(r3);
    const auto x = dn::kron(dn::embed(u, {t - lo}, {}, t - lo + 1), M[j].d);
    dd::mEdge e;
    const auto gm = gmOf(u);
    if (sut("kronecker(m,m,start)", [&] {
          const auto hi = P.makeGateDD(gm, static_cast<qc::Qubit>(t));
          e = P.kronecker(hi, M[j].e, lo, false);
        })) {
      putM(p, e, t + 1, x, 0, "kronecker(m,m,start)", how);
    }
  } else if (op == "vconj") {
    const int i = pickV(r1, p);
    if (i < 0) {
      return;
    }
    Vec x = V[i].d;
    for (auto& z : x) {
      z = std::conj(z);
    }
    const auto nn = V[i].n;
    dd::vEdge e;
    if (sut("conjugate", [&] { e = P.conjugate(V[i].e); })) {
      putV(p, e, nn, x, 0, "conjugate", how);
    }
  } else if (op == "mct") {
    const int i = pickM(r1, p);
    if (i < 0) {
      return;
    }
    const auto x = dn::dagger(M[i].d);
    const auto nn = M[i].n;
    dd::mEdge e;
    if (sut("conjugateTranspose", [&] { e = P.conjugateTranspose(M[i].e); })) {
      putM(p, e, nn, x, 0, "conjugateTranspose", how);
    }
  } else if (op == "inner" || op == "fid") {
    const int i = pickV(r1, p);
    const int j = pickV(r2, p);
    if (i < 0 || V[i].n != V[j].n) {
      return;
    }
    const cplx x = dn::dot(V[i].d, V[j].d);
    cplx got;
    const bool f = op == "fid";
    if (sut(f ? "fidelity" : "innerProduct", [&] {
          if (f) {
            got = P.fidelity(V[i].e, V[j].e);
          } else {
            const auto z = P.innerProduct(V[i].e, V[j].e);
            got = {z.r, z.i};
          }
        })) {
      const cplx want = f ? cplx(std::norm(x)) : x;
      c.ev("%s v%d v%d", op.c_str(), i, j);
      const double tol =
          1e-9 * std::max(1.0, dn::norm2(V[i].d) * dn::norm2(V[j].d));
      if (judgesValues() && !(std::abs(got - want) < tol)) {
        c.fail(pre() + "/value:" + op,
               "%s is %.12g%+.12gi, linear algebra gives %.12g%+.12gi (last "
               "event: %s)",
               op.c_str(), got.real(), got.imag(), want.real(), want.imag(),
               lastEvent.c_str());
      }
      checks++;
    }
  } else if (op == "expval") {
    const int i = pickM(r1, p);
    const int j = pickV(r2, p);
    if (i < 0 || j < 0 || M[i].n > V[j].n || dn::maxAbs(V[j].d) == 0 ||
        dn::maxAbs(M[i].d.a) == 0) {
      return;
    }
    // observables are Hermitian: use A + A^dagger
    const auto dag = dn::dagger(M[i].d);
    const auto h = dn::add(M[i].d, dag);
    if (dn::maxAbs(h.a) < 1e-3) {
      return;
    }
    const cplx want =
        dn::dot(V[j].d, dn::mul(dn::extend(h, V[j].d.size()), V[j].d));
    double got = 0;
    if (sut("expectationValue", [&] {
          const auto ct = P.conjugateTranspose(M[i].e);
          const auto o = P.add(M[i].e, ct);
          got = P.expectationValue(o, V[j].e);
        })) {
      c.ev("expval m%d v%d", i, j);
      const double tol = 1e-9 * std::max(1.0, dn::maxAbs(h.a)) *
                         std::max(1.0, dn::norm2(V[j].d));
      if (judgesValues() && !(std::abs(got - want.real()) < tol * 4)) {
        c.fail(pre() + "/value:expval",
               "expectation value %.12g, linear algebra gives %.12g (last "
               "event: %s)",
               got, want.real(), lastEvent.c_str());
      }
      checks++;
    }
  } else if (op == "ptrace") {
    const int i = pickM(r1, p);
    if (i < 0) {
      return;
    }
    auto el = bits(r2, M[i].n);
    const auto cnt =
        static_cast<std::size_t>(std::count(el.begin(), el.end(), true));
    const std::size_t rest = M[i].n - cnt;
    // reference: remaining qubits move down, normalised by 2 per eliminated
    Mat x(std::size_t{1} << rest);
    const auto& d = M[i].d;
    auto compress = [&](std::size_t k, std::size_t& traced) {
      std::size_t out = 0;
      std::size_t pos = 0;
      std::size_t tp = 0;
      traced = 0;
      for (std::size_t q = 0; q < M[i].n; q++) {
        const std::size_t b = (k >> q) & 1U;
        if (el[q]) {
          traced |= b << tp++;
        } else {
          out |= b << pos++;
        }
      }
      return out;
    };
    for (std::size_t a = 0; a < d.d; a++) {
      for (std::size_t b = 0; b < d.d; b++) {
        std::size_t ta = 0;
        std::size_t tb = 0;
        const auto ra = compress(a, ta);
        const auto rb = compress(b, tb);
        if (ta == tb) {
          x.at(ra, rb) += d.at(a, b) / std::pow(2.0, cnt);
        }
      }
    }
    dd::mEdge e;
    if (sut("partialTrace", [&] { e = P.partialTrace(M[i].e, el); })) {
      putM(p, e, rest, x, 0, "partialTrace", how);
    }
  } else if (op == "trace") {
    const int i = pickM(r1, p);
    if (i < 0) {
      return;
    }
    const cplx want = dn::trace(M[i].d) / static_cast<double>(M[i].d.d);
    cplx got;
    if (sut("trace", [&] {
          const auto z = P.trace(M[i].e, M[i].n);
          got = {z.r, z.i};
        })) {
      c.ev("trace m%d", i);
      if (judgesValues() &&
          !(std::abs(got - want) <
            1e-9 * std::max(1.0, dn::maxAbs(M[i].d.a)))) {
        c.fail(pre() + "/value:trace",
               "normalised trace %.12g%+.12gi, linear algebra gives "
               "%.12g%+.12gi (last event: %s)",
               got.real(), got.imag(), want.real(), want.imag(),
               lastEvent.c_str());
      }
      checks++;
    }
  } else if (op == "redanc" || op == "redgarm") {
    const int i = pickM(r1, p);
    if (i < 0 || M[i].holds == 0) {
      return;
    }
    const auto mask = bits(r2, M[i].n);
    const bool regular = r3 % 2 == 0;
    const auto& d = M[i].d;
    Mat x = d;
    const auto nn = M[i].n;
    if (op == "redanc") {
      for (std::size_t a = 0; a < d.d; a++) {
        for (std::size_t b = 0; b < d.d; b++) {
          for (std::size_t q = 0; q < nn; q++) {
            if (mask[q] && (((regular ? b : a) >> q) & 1U) != 0) {
              x.at(a, b) = 0;
            }
          }
        }
      }
    } else {
      for (std::size_t q = 0; q < nn; q++) {
        if (!mask[q]) {
          continue;
        }
        Mat y(x.d);
        for (std::size_t a = 0; a < d.d; a++) {
          for (std::size_t b = 0; b < d.d; b++) {
            const std::size_t k = regular ? a : b;
            if (((k >> q) & 1U) == 0) {
              const auto o =
                  regular ? x.at(a | (std::size_t{1} << q), b)
                          : x.at(a, b | (std::size_t{1} << q));
              y.at(a, b) = std::sqrt(std::norm(x.at(a, b)) + std::norm(o));
            }
          }
        }
        x = y;
      }
    }
    // the call consumes one hold of its operand
    const bool anc = op == "redanc";
    dd::mEdge e;
    const char* nm = anc ? "reduceAncillae" : "reduceGarbage(m)";
    const bool norm = !anc && r3 / 2 % 4 == 0;
    MSlot s = M[i];
    const bool ok = sut(nm, [&] {
      e = anc ? P.reduceAncillae(s.e, mask, regular)
              : P.reduceGarbage(s.e, mask, regular, norm);
    });
    if (!ok) {
      return;
    }
    M[i].holds--;
    if (M[i].holds == 0) {
      M.erase(M.begin() + i);
    }
    if (!anc) {
      // amplitudes of the reduced matrix are determined up to phases
      const auto got = evalOr(e, nn, nm);
      double err = 0;
      for (std::size_t k = 0; k < x.a.size(); k++) {
        err = std::max(err, std::abs(std::abs(got.a[k]) - std::abs(x.a[k])));
      }
      if (judgesValues() && !(err < 1e-9 * std::max(1., dn::maxAbs(x.a)))) {
        c.fail(pre() + "/value:reduceGarbage(m)",
               "reduceGarbage is off by %.3g in magnitude (last event: %s)",
               err, lastEvent.c_str());
      }
      if (norm && judgesValues()) {
        for (const auto& z : got.a) {
          if (std::abs(z.imag()) > 1e-9 || z.real() < -1e-9) {
            c.fail(pre() + "/value:reduceGarbage(m)",
                   "normalised weights expected, got %.3g%+.3gi", z.real(),
                   z.imag());
          }
        }
      }
      x = got;
    }
    putM(p, e, nn, x, 1, nm, how);
  } else if (op == "redgarv") {
    const int i = pickV(r1, p);
    if (i < 0 || V[i].holds == 0) {
      return;
    }
    const auto mask = bits(r2, V[i].n);
    const bool norm = r3 % 4 == 0;
    VSlot s = V[i];
    Vec x = s.d;
    for (std::size_t q = 0; q < s.n; q++) {
      if (!mask[q]) {
        continue;
      }
      for (std::size_t a = 0; a < x.size(); a++) {
        if (((a >> q) & 1U) == 0) {
          auto& o = x[a | (std::size_t{1} << q)];
          x[a] = std::sqrt(std::norm(x[a]) + std::norm(o));
          o = 0;
        }
      }
    }
    dd::vEdge e;
    dd::vEdge arg = s.e;
    if (!sut("reduceGarbage(v)",
             [&] { e = P.reduceGarbage(arg, mask, norm); })) {
      return;
    }
    V[i].holds--;
    if (V[i].holds == 0) {
      V.erase(V.begin() + i);
    }
    const auto got = evalOr(e, s.n, "reduceGarbage(v)");
    double err = 0;
    for (std::size_t k = 0; k < x.size(); k++) {
      err = std::max(err, std::abs(std::abs(got[k]) - std::abs(x[k])));
    }
    if (judgesValues() && !(err < 1e-9 * std::max(1., dn::maxAbs(x)))) {
      c.fail(pre() + "/value:reduceGarbage(v)",
             "reduceGarbage is off by %.3g in magnitude (last event: %s)", err,
             lastEvent.c_str());
    }
    if (norm && judgesValues()) {
      for (const auto& z : got) {
        if (std::abs(z.imag()) > 1e-9 || z.real() < -1e-9) {
          c.fail(pre() + "/value:reduceGarbage(v)",
                 "normalised weights expected, got %.3g%+.3gi", z.real(),
                 z.imag());
        }
      }
    }
    putV(p, e, s.n, got, 1, "reduceGarbage(v)", how);
  } else if (op == "applyv") {
    const int i = pickM(r1, p);
    const int j = pickV(r2, p);
    if (i < 0 || j < 0 || M[i].n > V[j].n || V[j].holds == 0) {
      return;
    }
    const VSlot s = V[j];
    const MSlot m = M[i];
    if (m.holds == 0) {
      P.incRef(m.e);
    }
    dropTemps(p);
    const auto x = dn::mul(dn::extend(m.d, s.d.size()), s.d);
    dd::vEdge e;
    const u64 before = P.vUniqueTable.getNumEntries();
    const bool ok =
        sut("applyOperation(v)", [&] { e = P.applyOperation(m.e, s.e); });
    if (P.vUniqueTable.getNumEntries() < before) {
      c.count("event.automatic_collection");
      lastEvent = "automatic collection";
    }
    if (m.holds == 0) {
      P.decRef(m.e);
    }
    if (ok) {
      for (std::size_t k = 0; k < V.size(); k++) {
        if (V[k].pk == p && V[k].e == s.e && V[k].n == s.n &&
            V[k].holds == s.holds) {
          V[k].holds--;
          if (V[k].holds == 0) {
            V.erase(V.begin() + static_cast<long>(k));
          }
          break;
        }
      }
      putV(p, e, s.n, x, 1, "applyOperation(v)", how);
    }
  } else if (op == "applym") {
    const int i = pickM(r1, p);
    const int j = pickM(r2, p);
    if (i < 0 || i == j || M[j].holds == 0) {
      return;
    }
    const MSlot s = M[j];
    const MSlot m = M[i];
    if (m.holds == 0) {
      P.incRef(m.e);
    }
    dropTemps(p);
    const bool left = r3 % 2 == 0;
    const auto nn = std::max(s.n, m.n);
    const auto d = std::size_t{1} << nn;
    const auto x = left ? dn::mul(dn::extend(m.d, d), dn::extend(s.d, d))
                        : dn::mul(dn::extend(s.d, d), dn::extend(m.d, d));
    dd::mEdge e;
    const bool ok = sut("applyOperation(m)",
                        [&] { e = P.applyOperation(m.e, s.e, left); });
    if (m.holds == 0) {
      P.decRef(m.e);
    }
    if (ok) {
      for (std::size_t k = 0; k < M.size(); k++) {
        if (M[k].pk == p && M[k].e == s.e && M[k].n == s.n &&
            M[k].holds == s.holds) {
          M[k].holds--;
          if (M[k].holds == 0) {
            M.erase(M.begin() + static_cast<long>(k));
          }
          break;
        }
      }
      putM(p, e, nn, x, 1, "applyOperation(m)", how);
    }
  } else if (op == "delv") {
    const int i = pickV(r1, p);
    if (i < 0) {
      return;
    }
    const std::size_t q = r2 % V[i].n;
    const std::size_t k = r3 % 2;
    Vec x = V[i].d;
    for (std::size_t a = 0; a < x.size(); a++) {
      if (((a >> q) & 1U) == k) {
        x[a] = 0;
      }
    }
    const auto nn = V[i].n;
    dd::vEdge e;
    if (sut("deleteEdge(v)", [&] {
          e = P.deleteEdge(V[i].e, static_cast<dd::Qubit>(q), k);
        })) {
      putV(p, e, nn, x, 0, "deleteEdge(v)", how);
    }
  } else if (op == "delm") {
    const int i = pickM(r1, p);
    if (i < 0 || M[i].e.isTerminal()) {
      return;
    }
    // edges are deleted from nodes of the given level; a level that is skipped
    // everywhere has none, so restrict to the top level
    const std::size_t q = M[i].e.p->v;
    const std::size_t k = r3 % 4;
    Mat x = M[i].d;
    for (std::size_t a = 0; a < x.d; a++) {
      for (std::size_t b = 0; b < x.d; b++) {
        if (((((a >> q) & 1U) * 2) + ((b >> q) & 1U)) == k) {
          x.at(a, b) = 0;
        }
      }
    }
    const auto nn = M[i].n;
    dd::mEdge e;
    if (sut("deleteEdge(m)", [&] {
          e = P.deleteEdge(M[i].e, static_cast<dd::Qubit>(q), k);
        })) {
      putM(p, e, nn, x, 0, "deleteEdge(m)", how);
    }
  } else if (op == "transv") {
    if (pk.size() < 2) {
      return;
    }
    const int o = 1 - p;
    const int i = pickV(r1, o);
    if (i < 0 || V[i].n > nq[p]) {
      return;
    }
    const auto nn = V[i].n;
    const auto x = V[i].d;
    dd::vEdge src = V[i].e;
    dd::vEdge e;
    if (sut("transfer(v)", [&] { e = P.transfer(src); })) {
      putV(p, e, nn, x, 0, "transfer(v)", how);
    }
  } else if (op == "transm") {
    if (pk.size() < 2) {
      return;
    }
    const int o = 1 - p;
    const int i = pickM(r1, o);
    if (i < 0 || M[i].n > nq[p]) {
      return;
    }
    const auto nn = M[i].n;
    const auto x = M[i].d;
    dd::mEdge src = M[i].e;
    dd::mEdge e;
    if (sut("transfer(m)", [&] { e = P.transfer(src); })) {
      putM(p, e, nn, x, 0, "transfer(m)", how);
    }
  } else if (op == "readv") {
    const int i = pickV(r1, p);
    if (i < 0) {
      return;
    }
    const auto& s = V[i];
    const std::size_t k = r2 % s.d.size();
    cplx one;
    cplx byPath;
    dd::CVec all;
    std::size_t sz = 0;
    if (!sut("read(v)", [&] {
          all = s.e.getVector();
          one = s.e.getValueByIndex(k);
          std::string path;
          for (std::size_t q = 0; q < s.n; q++) {
            path += ((k >> q) & 1U) != 0 ? '1' : '0';
          }
          byPath = s.e.getValueByPath(s.n, path);
          sz = s.e.size();
        })) {
      return;
    }
    c.ev("readv v%d", i);
    if (judgesValues()) {
      if (s.e.isTerminal()) {
        return; // the zero vector has no size of its own
      }
      if (!(dn::dist({all.begin(), all.end()}, s.d) < 1e-9) ||
          !(std::abs(one - s.d[k]) < 1e-9) ||
          !(std::abs(byPath - s.d[k]) < 1e-9)) {
        c.fail(pre() + "/value:read(v)",
               "reading amplitudes disagrees with the represented vector "
               "(last event: %s)",
               lastEvent.c_str());
      }
      Reach r;
      r.add(s.e);
      if (sz != r.v.size() + 1) {
        c.fail(pre() + "/value:size", "size() is %zu, diagram has %zu nodes",
               sz, r.v.size() + 1);
      }
    }
    checks++;
  } else if (op == "readm") {
    const int i = pickM(r1, p);
    if (i < 0) {
      return;
    }
    const auto& s = M[i];
    const std::size_t a = r2 % s.d.d;
    const std::size_t b = r3 % s.d.d;
    cplx one;
    dd::CMat all;
    if (!sut("read(m)", [&] {
          all = s.e.getMatrix(s.n);
          one = s.e.getValueByIndex(s.n, a, b);
        })) {
      return;
    }
    c.ev("readm m%d", i);
    if (judgesValues() && (!(dn::dist(flat(all), s.d.a) < 1e-9) ||
                           !(std::abs(one - s.d.at(a, b)) < 1e-9))) {
      c.fail(pre() + "/value:read(m)",
             "reading elements disagrees with the represented matrix (last "
             "event: %s)",
             lastEvent.c_str());
    }
    checks++;
  } else if (op == "serv" || op == "serm") {
    const bool binary = r2 % 2 == 0;
    if (op == "serv") {
      const int i = pickV(r1, p);
      if (i < 0 || V[i].e.isTerminal()) {
        return;
      }
      const auto nn = V[i].n;
      const auto x = V[i].d;
      const auto src = V[i].e;
      dd::vEdge e;
      if (sut("serialize+deserialize(v)", [&] {
            std::stringstream ss;
            dd::serialize(src, ss, binary);
            if (!ss) { // the stream swallows exceptions
              throw std::bad_alloc();
            }
            e = P.deserialize<dd::vNode>(ss, binary);
          })) {
        putV(p, e, nn, x, 0, "serialize+deserialize(v)", how);
      }
    } else {
      const int i = pickM(r1, p);
      if (i < 0 || M[i].e.isTerminal()) {
        return;
      }
      const auto nn = M[i].n;
      const auto x = M[i].d;
      const auto src = M[i].e;
      dd::mEdge e;
      if (sut("serialize+deserialize(m)", [&] {
            std::stringstream ss;
            dd::serialize(src, ss, binary);
            if (!ss) { // the stream swallows exceptions
              throw std::bad_alloc();
            }
            e = P.deserialize<dd::mNode>(ss, binary);
          })) {
        putM(p, e, nn, x, 0, "serialize+deserialize(m)", how);
      }
    }
  } else if (op == "collapse") {
    const int i = pickV(r1, p);
    if (i < 0 || V[i].holds == 0 ||
        std::abs(dn::norm2(V[i].d) - 1) > 1e-8) {
      return;
    }
    const std::size_t q = r2 % V[i].n;
    const VSlot s = V[i];
    double p0 = 0;
    for (std::size_t a = 0; a < s.d.size(); a++) {
      if (((a >> q) & 1U) == 0) {
        p0 += std::norm(s.d[a]);
      }
    }
    const bool zero = p0 > 0.02 && (p0 > 0.98 || r3 % 2 == 0);
    const double pr = zero ? p0 : 1 - p0;
    Vec x = s.d;
    for (std::size_t a = 0; a < x.size(); a++) {
      x[a] = ((((a >> q) & 1U) == 0) == zero) ? x[a] / std::sqrt(pr) : 0;
    }
    dd::vEdge e = s.e;
    if (!sut("performCollapsingMeasurement", [&] {
          P.performCollapsingMeasurement(e, static_cast<dd::Qubit>(q), pr,
                                         zero);
        })) {
      return;
    }
    V[i].holds--;
    if (V[i].holds == 0) {
      V.erase(V.begin() + i);
    }
    putV(p, e, s.n, x, 1, "performCollapsingMeasurement", how);
  } else if (op == "measall") {
    const int i = pickV(r1, p);
    if (i < 0 || V[i].holds == 0 || std::abs(dn::norm2(V[i].d) - 1) > 1e-8) {
      return;
    }
    const VSlot s = V[i];
    const bool collapse = r3 % 2 == 0;
    dd::vEdge e = s.e;
    std::mt19937_64 mt(r2);
    std::string res;
    if (!sut("measureAll", [&] { res = P.measureAll(e, collapse, mt); })) {
      return;
    }
    c.ev("measureAll v%d -> %s", i, res.c_str());
    if (collapse) {
      V[i].holds--;
      if (V[i].holds == 0) {
        V.erase(V.begin() + i);
      }
      const auto got = evalOr(e, s.n, "measureAll");
      putV(p, e, s.n, got, 1, "measureAll", how);
    }
  } else if (op == "fidout") {
    const int i = pickV(r1, p);
    if (i < 0 || dn::maxAbs(V[i].d) == 0) {
      return;
    }
    dd::SparsePVec probs;
    double want = 0;
    u64 s = r2;
    for (std::size_t a = 0; a < V[i].d.size(); a++) {
      s = mix(s);
      if (s % 2 == 0) {
        const double pr = static_cast<double>(s >> 11) * 0x1.0p-53;
        probs[a] = pr;
        want += std::abs(V[i].d[a]) * std::sqrt(pr);
      }
    }
    double got = 0;
    if (sut("fidelityOfMeasurementOutcomes", [&] {
          got = dd::Package::fidelityOfMeasurementOutcomes(V[i].e, probs);
        })) {
      c.ev("fidout v%d", i);
      if (judgesValues() && !(std::abs(got - want) < 1e-8)) {
        c.fail(pre() + "/value:fidelityOfMeasurementOutcomes",
               "%.12g instead of %.12g", got, want);
      }
    }
  } else if (op == "closeid") {
    const int i = pickM(r1, p);
    if (i < 0) {
      return;
    }
    const auto& s = M[i];
    bool got = false;
    // documented meaning: diagonal with equal entries, where an ancillary may
    // zero the lower half; the overall factor is ignored. Only matrices that
    // clearly are a multiple of the identity or clearly are not are judged.
    const double m = dn::maxAbs(s.d.a);
    const cplx d0 = s.d.at(0, 0);
    if (m == 0 || std::abs(d0) < 0.05 * m) {
      return;
    }
    bool near = true;
    bool far = false;
    for (std::size_t a = 0; a < s.d.d; a++) {
      for (std::size_t b = 0; b < s.d.d; b++) {
        const cplx x = s.d.at(a, b);
        near = near && std::abs(x - (a == b ? d0 : cplx(0))) < 1e-12 * m;
        far = far || (a == b ? std::abs(x) > 0.05 * m && std::abs(x - d0) > 0.05 * m
                             : std::abs(x) > 0.05 * m);
      }
    }
    if (!near && !far) {
      return;
    }
    if (sut("isCloseToIdentity", [&] { got = P.isCloseToIdentity(s.e); })) {
      c.ev("closeid m%d = %d", i, got);
      if (judgesValues() && got != near) {
        c.fail(pre() + "/value:isCloseToIdentity",
               "isCloseToIdentity says %d for a matrix that clearly is%s", got,
               near ? "" : " not");
      }
    }
  } else if (op == "initmat") {
    const auto mask = bits(r2, n);
    Mat x = Mat::id(std::size_t{1} << n);
    for (std::size_t a = 0; a < x.d; a++) {
      for (std::size_t q = 0; q < n; q++) {
        if (mask[q] && ((a >> q) & 1U) != 0) {
          x.at(a, a) = 0;
        }
      }
    }
    dd::mEdge e;
    if (sut("createInitialMatrix", [&] { e = P.createInitialMatrix(mask); })) {
      const bool none = std::none_of(mask.begin(), mask.end(),
                                     [](bool b) { return b; });
      putM(p, e, n, x, none ? 0 : 1, "createInitialMatrix", how);
    }
  } else if (op == "hold") {
    if (r1 % 2 == 0) {
      const int i = pickV(r2, p);
      if (i >= 0 && V[i].holds < 4) {
        P.incRef(V[i].e);
        V[i].holds++;
        c.ev("hold v%d (%d)", i, V[i].holds);
      }
    } else {
      const int i = pickM(r2, p);
      if (i >= 0 && M[i].holds < 4) {
        P.incRef(M[i].e);
        M[i].holds++;
        c.ev("hold m%d (%d)", i, M[i].holds);
      }
    }
  } else if (op == "releasev") {
    const int i = pickV(r1, p);
    if (i >= 0) {
      c.ev("release v%d", i);
      if (V[i].holds > 1) {
        P.decRef(V[i].e);
        V[i].holds--;
      } else {
        releaseV(static_cast<std::size_t>(i));
      }
    }
  } else if (op == "releasem") {
    const int i = pickM(r1, p);
    if (i >= 0) {
      c.ev("release m%d", i);
      if (M[i].holds > 1) {
        P.decRef(M[i].e);
        M[i].holds--;
      } else {
        releaseM(static_cast<std::size_t>(i));
      }
    }
  } else if (op == "gc") {
    dropTemps(p);
    const auto nv = P.vUniqueTable.getNumEntries();
    const auto nm = P.mUniqueTable.getNumEntries();
    bool any = false;
    {
      SutScope s;
      any = P.garbageCollect(true);
    }
    const auto kv = P.vUniqueTable.getNumEntries();
    const auto km = P.mUniqueTable.getNumEntries();
    c.count("event.forced_collection");
    if (kv < nv || km < nm) {
      c.count("event.collection_freed_nodes");
      c.nontrivial = true;
    }
    gcs++;
    sinceGc[p] = 0;
    lastEvent = "collection";
    c.ev("gc: v %zu->%zu m %zu->%zu %d", nv, kv, nm, km, any);
    c.cover(mix(0x6c) ^ (nv << 4U) ^ (kv << 16U) ^ (nm << 28U) ^ (km << 40U));
    verifyHeld("after a collection");
    checkCollected(p, false);
  } else if (op == "echo") {
    dropTemps(p);
    echo(p, r1, r2);
  } else if (op == "softgc") {
    dropTemps(p);
    const bool numsFull = P.cUniqueTable.possiblyNeedsCollection();
    const bool full = numsFull || P.vUniqueTable.possiblyNeedsCollection() ||
                      P.mUniqueTable.possiblyNeedsCollection();
    const auto before = P.cUniqueTable.getStats().numEntries;
    {
      SutScope s;
      P.garbageCollect(false);
    }
    if (numsFull && (mode & REFS) != 0) {
      const auto r = reach(p);
      const auto en = P.cUniqueTable.getStats().numEntries;
      c.count("event.full_number_table");
      if (en > r.nums.size() + baseNums[p]) {
        c.fail("P02/number-kept",
               "the number table was past its limit (%zu numbers) and %zu "
               "remain after a collection; held diagrams use %zu",
               before, en, r.nums.size());
      }
    }
    if (!full && P.cUniqueTable.getStats().numEntries != before &&
        (mode & REFS) != 0) {
      c.fail("P02/early-collection",
             "a collection was carried out although no table was past its "
             "limit");
    }
    c.ev("softgc");
    verifyHeld("after a collection request");
  } else if (op == "churn") {
    // unrelated numbers fill the number table past its collection limit
    const std::size_t k = 65600;
    dropTemps(p);
    sut("churn", [&] {
      u64 s = r1 + 1;
      for (std::size_t i = 0; i < k; i++) {
        s = mix(s);
        (void)P.cn.lookup((static_cast<double>(s >> 11) * 0x1.0p-53) + 1e-9);
      }
    });
    c.count("event.number_table_filled");
    lastEvent = "number churn";
    c.ev("churn");
  } else if (op == "clearct") {
    {
      SutScope s;
      P.clearComputeTables();
    }
    c.count("event.compute_tables_cleared");
    lastEvent = "cache clear";
    c.ev("clear compute tables");
  } else if (op == "grow") {
    if (nq[p] >= 5) {
      return;
    }
    const std::size_t to = nq[p] + 1;
    if (sut("resize", [&] { P.resize(to); })) {
      nq[p] = to;
      c.count("event.resize");
      lastEvent = "resize";
      c.ev("resize to %zu", to);
      verifyHeld("after resize");
    }
  } else if (op == "reset") {
    for (std::size_t i = V.size(); i-- > 0;) {
      if (V[i].pk == p) {
        V.erase(V.begin() + static_cast<long>(i));
      }
    }
    for (std::size_t i = M.size(); i-- > 0;) {
      if (M[i].pk == p) {
        M.erase(M.begin() + static_cast<long>(i));
      }
    }
    if (sut("reset", [&] { P.reset(); })) {
      wasReset[p] = true;
      c.count("event.package_reset");
      lastEvent = "reset";
      c.ev("reset package %d", p);
    }
  } else if (op == "badcall") {
    // rejected calls leave everything as it was
    bool threw = false;
    try {
      SutScope s;
      switch (r1 % 6) {
      case 0:
        (void)P.makeZeroState(nq[p] + 1);
        break;
      case 1:
        (void)P.makeBasisState(nq[p] + 1,
                               std::vector<bool>(nq[p] + 1, false));
        break;
      case 2:
        (void)P.makeGHZState(nq[p] + 1);
        break;
      case 3:
        (void)P.makeStateFromVector(dd::CVec(3, 1.0));
        break;
      case 4:
        (void)P.makeWState(nq[p] + 1);
        break;
      default:
        (void)P.makeDDFromMatrix(dd::CMat(3, dd::CVec(3, 1.0)));
        break;
      }
    } catch (const std::exception&) {
      threw = true;
    }
    c.count("fault.rejected_call");
    c.ev("badcall %llu %d", (unsigned long long)(r1 % 6), threw);
    if (judgesValues() && !threw) {
      c.fail(pre() + "/accepted-bad-call",
             "an impossible request (%llu) was accepted",
             (unsigned long long)(r1 % 6));
    }
    verifyHeld("after a rejected call");
  }
  if (armK != 0 && op != "failalloc") {
    armK = 0; // the armed failure was not applicable
  }
}

void Session::finish() {
  verifyHeld("at the end");
  checkActive("at the end");
  if ((mode & CANON) != 0) {
    for (std::size_t i = 0; i < pk.size(); i++) {
      normalForm(reach(static_cast<int>(i)));
    }
  }
  while (!V.empty()) {
    releaseV(V.size() - 1);
  }
  while (!M.empty()) {
    releaseM(M.size() - 1);
  }
  for (int i = 0; i < static_cast<int>(pk.size()); i++) {
    {
      SutScope s;
      pk[i]->garbageCollect(true);
    }
    checkActive("after releasing everything");
    checkCollected(i, true);
  }
  c.count("checks", checks);
}

void runDD(const Plan& plan, Ctx& c, int mode) {
  Session s(plan, c, mode);
  s.start();
  const bool often = plan.knob("often", 0) != 0;
  for (const auto& st : plan.steps) {
    if (st.op == "knob") {
      continue;
    }
    s.step(st);
    if (often) {
      s.verifyHeld("after a step");
    }
    s.checkActive("after a step");
  }
  s.finish();
  if (c.counters["event.collection_freed_nodes"] > 0 || c.steps > 20) {
    c.nontrivial = true;
  }
}

Plan genDD(u64 seed, int mode, const char* prop) {
  Rng r(seed);
  Plan p;
  p.prop = prop;
  p.add("knob", {r.next() >> 32}, "layout");
  p.add("knob", {r.below(10) == 0 ? 0 : r.next() >> 40}, "cfg0");
  p.add("knob", {r.below(20) == 0 ? 0 : r.next() >> 40}, "cfg1");
  p.add("knob", {r.below(2) == 0 ? 0 : r.next() >> 40}, "gclim0");
  p.add("knob", {r.below(2) == 0 ? 0 : r.next() >> 40}, "gclim1");
  p.add("knob", {r.below(10) < 7 ? 2 + r.below(2) : r.below(4)}, "nq0");
  p.add("knob", {2 + r.below(2)}, "nq1");
  p.add("knob", {r.below(4) == 0 ? 1U : 0U}, "npk");
  const bool disc = (mode & CANON) != 0 || r.chance(0.3);
  p.add("knob", {disc ? 1U : 0U}, "disc");
  p.add("knob", {r.chance(0.15) ? 1U : 0U}, "often");

  const bool judged = (mode & VALUE) != 0;
  // swarm: weights per operation
  std::vector<std::pair<std::string, double>> w = {
      {"vzero", .5},    {"vbasis", .7},  {"vprod", .7},   {"vghz", .4},
      {"vw", .4},       {"vfromvec", 1}, {"mgate", 2},    {"mgatec", 2.5},
      {"mtwo", 1.5},    {"mfrommat", 1}, {"mident", .2},  {"vadd", 1.5},
      {"madd", 1.5},    {"mv", 2},       {"mm", 2},       {"vkron", 1},
      {"mkron", 1},     {"vconj", 1},    {"mct", 1},      {"inner", 1},
      {"fid", .5},      {"expval", .7},  {"ptrace", 1},   {"trace", .7},
      {"redanc", .7},   {"redgarv", .7}, {"redgarm", .7}, {"applyv", 2},
      {"applym", 1.2},  {"delv", .4},    {"delm", .3},    {"transv", 1},
      {"transm", 1},    {"readv", .5},   {"readm", .5},   {"serv", .4},
      {"serm", .4},     {"kronst", .5},  {"kronstm", .5}, {"collapse", .7},
      {"hold", .8},     {"releasev", 1}, {"releasem", 1}, {"gc", 1.5},
      {"softgc", .2},   {"clearct", .2}, {"grow", .15},   {"reset", .12},
      {"badcall", .15}, {"measall", .3}, {"fidout", .2},  {"closeid", .3},
      {"initmat", .2},  {"revec", .3},   {"remat", .3},
      {"echo", judged ? 1.5 : 0}};
  if ((mode & CANON) != 0) {
    for (auto& [k, x] : w) {
      if (k == "revec" || k == "remat") {
        x = 3;
      }
      if (k == "redgarv" || k == "redgarm" || k == "vw" || k == "collapse" ||
          k == "measall" || k == "fidout" || k == "inner" || k == "fid" ||
          k == "expval" || k == "trace") {
        x = k == "vw" || k == "collapse" ? 0.3 : 0;
      }
    }
  }
  double total = 0;
  for (auto& [k, x] : w) {
    const double f = r.chance(0.2) ? 0 : (r.chance(0.25) ? 4 : 1);
    if (k != "mgate" && k != "vbasis") {
      x *= f;
    }
    total += x;
  }
  if (r.chance(0.5)) { // sometimes: collections all the time
    for (auto& [k, x] : w) {
      if (k == "gc") {
        total += 6;
        x += 6;
      }
    }
  }
  const bool churny = r.chance(0.04);
  const std::size_t len = 10 + r.below(r.chance(0.3) ? 120 : 45);
  // values come from small pools so that operands and results recur
  std::vector<u64> pool;
  const std::size_t ps = 1 + r.below(6);
  for (std::size_t i = 0; i < ps; i++) {
    pool.push_back(r.next() >> 20);
  }
  auto val = [&]() { return r.chance(0.7) ? r.pick(pool) : r.next() >> 20; };
  for (std::size_t i = 0; i < len; i++) {
    double x = r.unit() * total;
    std::size_t k = 0;
    while (k + 1 < w.size() && x >= w[k].second) {
      x -= w[k].second;
      k++;
    }
    if ((mode & OOM) != 0 && r.chance(0.25)) {
      p.add("failalloc", {r.below(400), r.below(16)});
    }
    if (churny && r.chance(0.08)) {
      p.add("churn", {0, r.next() >> 32});
      if ((mode & REFS) != 0 && r.chance(0.3)) {
        p.add("softgc", {0, 0, 0, 0, 0});
      }
      p.add("applyv", {0, r.below(8), r.below(8), 0, 0});
    }
    p.add(w[k].first, {r.below(4) == 0 ? 1U : 0U, r.below(64), val(), val(),
                       r.below(512)});
    // coincidence bias: repeat an operation right after a collection
    if (w[k].first == "gc" && p.steps.size() > 12 && r.chance(0.6)) {
      const auto back = 1 + r.below(8);
      const auto q = p.steps[p.steps.size() - 1 - back];
      if (q.op != "knob" && q.op != "gc" && q.op != "failalloc") {
        p.steps.push_back(q);
      }
    }
  }
  return p;
}
} // namespace

static Register rp01(
    "P01",
    [](u64 s) {
      return wide::pick(s, 12) ? wide::gen(s, "P01") : genDD(s, VALUE, "P01");
    },
    [](const Plan& p, Ctx& c) {
      wide::isWide(p) ? wide::run(p, c, "P01") : runDD(p, c, VALUE);
    });
static Register rp02(
    "P02",
    [](u64 s) {
      return num::pick(s, 24) ? num::gen(s, "P02")
             : wide::pick(s, 12) ? wide::gen(s, "P02") : genDD(s, REFS, "P02");
    },
    [](const Plan& p, Ctx& c) {
      num::isNum(p) ? num::run(p, c, "P02")
      : wide::isWide(p) ? wide::run(p, c, "P02") : runDD(p, c, REFS);
    });
static Register rp03(
    "P03",
    [](u64 s) {
      return num::pick(s, 8) ? num::gen(s, "P03")
             : wide::pick(s, 12) ? wide::gen(s, "P03") : genDD(s, CANON, "P03");
    },
    [](const Plan& p, Ctx& c) {
      num::isNum(p) ? num::run(p, c, "P03")
      : wide::isWide(p) ? wide::run(p, c, "P03") : runDD(p, c, CANON);
    });
static Register rp04(
    "P04", [](u64 s) { return genDD(s, OOM, "P04"); },
    [](const Plan& p, Ctx& c) { runDD(p, c, OOM); });
