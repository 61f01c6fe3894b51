// P09: serialised diagrams on a faulty disk.
#include "disk.hpp"
#include "pkgbase.hpp"
#include "wide.hpp"

#include "dd/Export.hpp"

#include <sstream>

using namespace sim;
using namespace ddu;

namespace {
const char* const KINDS[] = {"none",        "split",       "error",
                             "error-once",  "close-error", "open-error",
                             "interrupted"};

struct S09 : PkgBase {
  using PkgBase::PkgBase;
  std::unique_ptr<dd::Package> Q; // a second package
  std::size_t qn = 1;
  struct File {
    std::string path;
    bool bin = false;
    bool mat = false;
    std::size_t n = 0;
    std::vector<cplx> want; // dense value of the complete diagram
    // every completely written sub-diagram (unscaled), by number of levels
    std::vector<std::pair<std::size_t, std::vector<cplx>>> subs;
    cplx root{};
    bool terminal = false;
    std::size_t full = 0; // bytes of the complete file
  };
  std::vector<File> fs;
  u64 loads = 0;
  u64 nfile = 0;

  template <class E>
  void collect(const E& e, std::set<const void*>& seen, File& f) {
    if (e.isTerminal() || !seen.insert(e.p).second) {
      return;
    }
    for (const auto& k : e.p->e) {
      collect(k, seen, f);
    }
    const E unit{e.p, dd::Complex::one()};
    const std::size_t n = e.p->v + 1U;
    if constexpr (std::is_same_v<E, dd::vEdge>) {
      f.subs.emplace_back(n, eval(unit, n));
    } else {
      f.subs.emplace_back(n, eval(unit, n).a);
    }
  }
  template <class E> File describe(const E& e, std::size_t n, bool bin) {
    File f;
    f.bin = bin;
    f.mat = std::is_same_v<E, dd::mEdge>;
    f.n = n;
    f.root = wt(e.w);
    f.terminal = e.isTerminal();
    if constexpr (std::is_same_v<E, dd::vEdge>) {
      f.want = eval(e, n);
    } else {
      f.want = eval(e, n).a;
    }
    std::set<const void*> seen;
    collect(e, seen, f);
    return f;
  }
  bool matches(const std::vector<cplx>& got, const std::vector<cplx>& want,
               double& d) const {
    d = dn::dist(got, want);
    double s = 1;
    for (const auto& x : want) {
      s = std::max(s, std::abs(x));
    }
    return d < 1e-9 * s;
  }

  // writes `e`; the writer must either succeed completely or say so
  template <class E> void save(const E& e, std::size_t n, const Step& st) {
    File f = describe(e, n, st.at(2) % 2 == 1);
    f.path = fmt("/simdisk/d%llu", (unsigned long long)nfile++);
    std::ostringstream ref;
    dd::serialize(e, ref, f.bin);
    const std::string full = ref.str();
    f.full = full.size();
    const bool file = st.at(3) % 4 != 0;
    const u64 kind = st.at(4) % 8;
    const u64 at = st.at(5) % (full.size() + 1);
    bool told = false;
    bool fired = false;
    std::string got;
    std::string how;
    if (!file && kind != 7) { // healthy stream, twice in a row
      std::ostringstream os;
      dd::serialize(e, os, f.bin);
      got = os.str();
      told = !os.good();
    } else if (kind == 7) { // allocation failure while writing
      arena::arm(1 + st.at(5) % 40);
      try {
        SutScope sut;
        if (file) {
          disk::set({});
          dd::serialize(e, f.path, f.bin);
        } else {
          std::ostringstream os;
          dd::serialize(e, os, f.bin);
          told = !os.good();
          NoFault nf;
          got = os.str();
        }
      } catch (const std::exception& ex) {
        told = true;
      }
      fired = arena::disarm();
      if (fired) {
        c.count("fault.allocation");
      }
      if (file && disk::exists(f.path)) {
        got = disk::content(f.path);
      }
    } else {
      disk::set({static_cast<disk::Kind>(kind), at, st.at(5)});
      try {
        dd::serialize(e, f.path, f.bin);
      } catch (const std::exception& ex) {
        told = true;
        how = ex.what();
      }
      fired = disk::fired();
      if (kind != 0 && (fired || disk::calls() > 0)) {
        c.count(std::string("fault.write-") + KINDS[kind]);
      }
      disk::set({});
      got = disk::exists(f.path) ? disk::content(f.path) : "";
    }
    if (disk::openFiles() != 0) {
      c.fail(id + "/file-left-open", "serialize left its file open");
    }
    c.ev("write %s %s n=%zu %zu bytes: kind %llu at %llu fired %d told %d "
         "stored %zu",
         f.mat ? "matrix" : "vector", f.bin ? "binary" : "text", n, full.size(),
         (unsigned long long)kind, (unsigned long long)at, fired ? 1 : 0,
         told ? 1 : 0, got.size());
    c.cover(mix(full.size() / 16) ^ mix(kind * 64 + (told ? 1 : 0) * 2 + f.bin) ^
            mix(at / 64));
    if (told && !fired) {
      c.fail(id + "/spurious-write-error",
             "writing failed although nothing went wrong: %s", how.c_str());
    }
    if (!told && fired) {
      c.fail(id + "/write-error-hidden",
             "the medium reported an error (%s at byte %llu of %zu) and the "
             "writer did not (stored %zu bytes)",
             kind == 7 ? "allocation" : KINDS[kind], (unsigned long long)at,
             full.size(), got.size());
    }
    verifyHeld("writing");
    // what was stored is what later reads see (an incomplete file is read as a
    // truncated one)
    const bool complete = !told;
    disk::put(f.path, got);
    if (got != full.substr(0, got.size())) {
      // not a prefix (an error in the middle of the file): the writer has said
      // so; nothing is promised about reading it
      if (complete) {
        c.fail(id + "/write-error-hidden",
               "the writer reported success but stored something else");
      }
      return;
    }
    fs.push_back(f);
    if (complete) {
      load(f, st.at(6), 0, 0);
    }
    if (fs.size() > 6) {
      fs.erase(fs.begin());
    }
  }

  // reads file `f` of the simulated disk
  void load(const File& f, u64 where, u64 kind, u64 arg) {
    const bool other = where % 3 == 1;
    auto& pk = other ? *Q : *P;
    const std::size_t room = other ? qn : nq;
    const std::string data = disk::content(f.path);
    u64 at = arg % (data.size() + 1);
    if ((arg >> 16) % 3 == 0 && !data.empty()) { // at a record boundary
      if (f.bin) {
        const std::size_t rec = 8 + 2 + (f.mat ? 4 : 2) * 24;
        const std::size_t head = 24;
        if (data.size() > head) {
          at = std::min<u64>(data.size(),
                             head + (at % ((data.size() - head) / rec + 1)) * rec);
        }
      } else {
        const auto nl = data.find('\n', at == 0 ? 0 : at - 1);
        at = nl == std::string::npos ? data.size() : nl + (arg >> 18) % 2;
      }
    }
    std::string path = f.path;
    bool truncated = data.size() < f.full;
    if (kind == 7) { // the file ends early
      path = "/simdisk/cut";
      disk::put(path, data.substr(0, at));
      truncated = truncated || at < data.size();
      c.count("fault.truncated-file");
    }
    loads++;
    bool threw = false;
    bool fired = false;
    std::string how;
    dd::vEdge rv{};
    dd::mEdge rm{};
    if (kind == 8) {
      arena::arm(1 + arg % 600);
    } else {
      disk::set({kind == 7 ? disk::NONE : static_cast<disk::Kind>(kind), at, arg});
    }
    try {
      if (where % 2 == 0 && (kind == 0 || kind == 7 || kind == 8)) {
        std::istringstream is(disk::content(path));
        SutScope sut;
        if (f.mat) {
          rm = pk.deserialize<dd::mNode>(is, f.bin);
        } else {
          rv = pk.deserialize<dd::vNode>(is, f.bin);
        }
      } else {
        SutScope sut;
        if (f.mat) {
          rm = pk.deserialize<dd::mNode>(path, f.bin);
        } else {
          rv = pk.deserialize<dd::vNode>(path, f.bin);
        }
      }
    } catch (const std::exception& ex) {
      threw = true;
      NoFault nf;
      how = ex.what();
    }
    if (kind == 8) {
      fired = arena::disarm();
      if (fired) {
        c.count("fault.allocation");
      }
    } else {
      fired = disk::fired();
      if (kind != 0 && kind != 7 && (fired || disk::calls() > 0)) {
        c.count(std::string("fault.read-") + KINDS[kind]);
      }
      disk::set({});
    }
    if (disk::openFiles() != 0) {
      c.fail(id + "/file-left-open", "deserialize left its file open");
    }
    const bool healthy = !fired && !truncated && f.n <= room;
    c.ev("read %s %s n=%zu: kind %llu at %llu/%zu fired %d threw %d %s",
         f.mat ? "matrix" : "vector", f.bin ? "binary" : "text", f.n,
         (unsigned long long)kind, (unsigned long long)at, data.size(),
         fired ? 1 : 0, threw ? 1 : 0, how.substr(0, 60).c_str());
    c.cover(mix(data.size() / 16) ^ mix(kind * 64 + (threw ? 1 : 0) * 2 + f.bin) ^
            mix(at / 32 + 7));
    if (threw) {
      c.count("read-refused");
      if (healthy) {
        c.fail(id + "/spurious-read-error",
               "a completely stored %s (%s, %zu levels) cannot be read: %s",
               f.mat ? "matrix" : "vector", f.bin ? "binary" : "text", f.n,
               how.c_str());
      }
    } else {
      if (fired && kind != 8 && kind != 0 && kind != disk::CLOSE_ERR) {
        c.fail(id + "/read-error-hidden",
               "reading reported success although the disk failed at byte "
               "%llu of %zu",
               (unsigned long long)at, data.size());
      }
      const std::size_t lev =
          f.mat ? (rm.isTerminal() ? 0 : rm.p->v + 1U)
                : (rv.isTerminal() ? 0 : rv.p->v + 1U);
      auto value = [&](std::size_t n) {
        return f.mat ? evalOr(rm, n, "deserialized matrix").a
                     : evalOr(rv, n, "deserialized vector");
      };
      double d = 0;
      bool ok = false;
      double best = 1e300;
      if (healthy || lev == f.n || f.mat) {
        ok = (f.mat ? lev <= f.n : lev == f.n) && matches(value(f.n), f.want, d);
        best = std::min(best, d);
      }
      if (!ok && !healthy) {
        if (lev == 0) { // the root weight alone
          const auto w = f.mat ? wt(rm.w) : wt(rv.w);
          ok = std::abs(w - f.root) < 1e-9 * std::max(1., std::abs(f.root));
        }
        for (std::size_t i = 0; i < f.subs.size() && !ok && lev > 0; i++) {
          if (f.subs[i].first != lev) {
            continue;
          }
          auto w = f.subs[i].second;
          for (auto& x : w) {
            x *= f.root;
          }
          ok = matches(value(lev), w, d);
          best = std::min(best, d);
        }
        if (ok) {
          c.count("read-partial");
        }
      }
      if (!ok) {
        c.fail(id + (healthy ? "/round-trip" : "/garbage"),
               "reading a %s%s (%s, %zu levels) gives a diagram on %zu levels "
               "that differs by %.3g from what was written",
               healthy ? "complete " : "damaged ", f.mat ? "matrix" : "vector",
               f.bin ? "binary" : "text", f.n, lev, best);
      }
      if (healthy && !other) { // keep it: it is a diagram like any other
        if (f.mat) {
          P->incRef(rm);
          hm.push_back({rm, f.n, eval(rm, f.n), "deserialized matrix"});
        } else {
          P->incRef(rv);
          hv.push_back({rv, f.n, eval(rv, f.n), "deserialized vector"});
        }
      }
    }
    verifyHeld("reading");
  }
  void build(const Step& st) {
    const u64 r = st.at(1);
    const std::size_t n = 1 + (st.at(2) % nq);
    if (st.at(0) % 2 == 0) {
      const auto save = nq;
      nq = n;
      Vec v = randomState(r);
      nq = save;
      if (r % 5 == 0) { // unusual magnitudes
        for (std::size_t i = 0; i < v.size(); i++) {
          const int k = static_cast<int>(mix(r + i) % 9);
          v[i] *= std::pow(10., -k);
        }
      }
      auto e = P->makeStateFromVector(dd::CVec(v.begin(), v.end()));
      if (r % 7 == 0) {
        P->decRef(e);
        auto t = e;
        t.w = P->cn.lookup(wt(e.w).real() * 0.3, 0.7e-4);
        P->incRef(t);
        e = t;
      }
      hv.push_back({e, n, evalOr(e, n, "state"), "state"});
    } else {
      dd::mEdge m = P->makeIdent();
      for (u64 k = 0; k < (r >> 8) % 6; k++) {
        const u64 s = mix(r + k);
        const auto g = circ::decode(s, s >> 8, s >> 20, s >> 33, n, 2);
        const auto gd = dd::getDD(*circ::opOf(g), *P);
        m = s % 5 == 0 ? P->add(m, gd) : P->multiply(gd, m);
      }
      P->incRef(m);
      hm.push_back({m, n, evalOr(m, n, "matrix"), "matrix"});
    }
  }
  void run() {
    disk::reset();
    open(1 + plan.knob("nq0", 2) % 8);
    qn = 1 + plan.knob("nq1", 2) % 8;
    Q = std::make_unique<dd::Package>(qn, configFrom(plan.knob("cfg1", 0)));
    for (const auto& st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "new") {
        build(st);
      } else if (st.op == "save") {
        if (st.at(0) % 2 == 0 && !hv.empty()) {
          const auto h = hv[st.at(1) % hv.size()];
          save(h.e, h.n, st);
        } else if (!hm.empty()) {
          const auto h = hm[st.at(1) % hm.size()];
          save(h.e, h.n, st);
        }
      } else if (st.op == "load") {
        if (!fs.empty()) {
          const auto f = fs[st.at(0) % fs.size()];
          load(f, st.at(1), st.at(2) % 9, st.at(3));
        }
      } else if (st.op == "churn") {
        churn(st.at(0));
      } else if (st.op == "gc") {
        gc();
        verifyHeld("a collection");
      } else if (st.op == "drop") {
        drop(st.at(0) % 4);
        onlyHeld("releasing");
      }
      drop(6);
    }
    drop(0);
    onlyHeld("releasing everything");
    c.nontrivial = loads > 1;
  }
};

void run09(const Plan& p, Ctx& c) {
  wide::isWide(p) ? wide::run(p, c, "P09") : S09(c, p, "P09").run();
}

Plan gen09(u64 seed) {
  if (wide::pick(seed, 10)) {
    return wide::gen(seed, "P09");
  }
  Rng r(seed);
  Plan p;
  p.prop = "P09";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("cfg0", r.below(10) == 0 ? 0 : r.next() >> 40);
  knob("cfg1", r.below(10) == 0 ? 0 : r.next() >> 40);
  knob("gclim0", r.below(3) == 0 ? 0 : r.next() >> 40);
  const u64 nq = r.below(10) < 7 ? r.below(4) : r.below(8);
  knob("nq0", nq);
  knob("nq1", r.chance(0.7) ? nq : r.below(8));
  const u64 n = 4 + r.below(16);
  const bool faults = r.chance(0.85);
  p.add("new", {r.below(2), r.next() >> 30, r.below(8)});
  for (u64 i = 0; i < n; i++) {
    const double x = r.unit();
    if (x < 0.25) {
      p.add("new", {r.below(2), r.next() >> 30,
                    r.chance(0.7) ? nq : r.below(8)});
    } else if (x < 0.55) {
      p.add("save",
            {r.below(2), r.below(6), r.below(2), r.below(4),
             faults && r.chance(0.6) ? r.below(8) : 0, r.next() >> 42, r.below(6)});
    } else if (x < 0.85) {
      p.add("load", {r.below(8), r.below(6),
                     faults ? (r.chance(0.4) ? 7 : r.below(9)) : r.below(2),
                     r.next() >> 42});
    } else if (x < 0.92) {
      p.add("churn", {r.next() >> 40});
    } else if (x < 0.96) {
      p.add("gc");
    } else {
      p.add("drop", {r.below(4)});
    }
  }
  return p;
}
const Register r09("P09", gen09, run09, 60);
} // namespace
