// P10: circuits written to and read from OpenQASM files on a faulty disk.
#include "circbuild.hpp"
#include "disk.hpp"
#include "qcref.hpp"

#include "qasm3/Importer.hpp"

#include <cstring>
#include <memory>

using namespace sim;
using circ::Builder;
using circ::Ref;
using dn::cplx;
using dn::Vec;

namespace {
const char* const KINDS[] = {"none",        "split",       "error",
                             "error-once",  "close-error", "open-error",
                             "interrupted"};

struct S10 {
  Ctx& c;
  const Plan& plan;
  std::string id = "P10";
  std::size_t nq = 1;
  std::size_t nc = 0;
  u64 cmps = 0;
  // the circuit's qubits: physical indices may have gaps (removed qubits)
  std::vector<qc::Qubit> phys;
  std::vector<std::size_t> posOf;
  S10(Ctx& ctx, const Plan& p) : c(ctx), plan(p) {}

  struct CReg {
    std::string name;
    std::size_t start, size;
  };
  std::vector<CReg> cregs;

  void registers(qc::QuantumComputation& q) {
    static const char* names[] = {"q", "r", "alpha", "q_1", "qq", "Z9"};
    static const char* cnames[] = {"c", "meas", "b", "c_2", "cc", "k1"};
    u64 s = plan.knob("split", 0);
    const u64 holes = plan.knob("holes", 0);
    const std::size_t extra = holes == 0 ? 0 : 1 + holes % 3;
    std::size_t left = nq + extra;
    const u64 shift = plan.knob("names", 0);
    std::size_t i = 0;
    const bool anc = plan.knob("anc", 0) % 3 == 1 && nq > 1;
    const std::size_t na = anc ? 1 + (plan.knob("anc", 0) >> 4) % (nq - 1) : 0;
    left -= na;
    while (left > 0) {
      const std::size_t k = i == 5 ? left : 1 + (s % left);
      s /= 7;
      q.addQubitRegister(k, names[(i + shift) % 6]);
      left -= k;
      i++;
    }
    if (na > 0) {
      q.addAncillaryRegister(na, "anc");
    }
    u64 h = holes >> 2;
    for (std::size_t k = 0; k < extra; k++) {
      const auto all = q.initialLayout;
      auto it = all.begin();
      std::advance(it, h % all.size());
      h /= all.size();
      const auto [p, logical] = *it;
      const auto gone = q.removeQubit(logical);
      if ((h >> k) % 4 == 0 && k + 1 < extra &&
          logical <= q.getNqubitsWithoutAncillae()) { // change one's mind
        q.addQubit(logical, gone.first, gone.second);
        q.removeQubit(q.initialLayout.begin()->second);
      }
    }
    for (const auto& [p, l] : q.initialLayout) {
      posOf.resize(p + 1U);
      posOf[p] = phys.size();
      phys.push_back(p);
    }
    left = nc;
    i = 0;
    s = plan.knob("csplit", 0);
    std::size_t at = 0;
    while (left > 0) {
      const std::size_t k = i == 5 ? left : 1 + (s % left);
      s /= 7;
      q.addClassicalRegister(k, cnames[(i + shift) % 6]);
      cregs.push_back({cnames[(i + shift) % 6], at, k});
      at += k;
      left -= k;
      i++;
    }
    const u64 lay = plan.knob("lay", 0);
    const u64 out = plan.knob("out", 0);
    if (lay != 0) {
      const auto p = circ::permutation(lay, nq);
      std::vector<qc::Qubit> logicals;
      for (std::size_t k = 0; k < nq; k++) {
        logicals.push_back(q.initialLayout[phys[k]]);
      }
      for (std::size_t k = 0; k < nq; k++) {
        q.initialLayout[phys[k]] = logicals[p[k]];
      }
    }
    if (out != 0) {
      const auto p = circ::permutation(out, nq);
      std::vector<qc::Qubit> logicals;
      for (std::size_t k = 0; k < nq; k++) {
        logicals.push_back(q.outputPermutation[phys[k]]);
      }
      for (std::size_t k = 0; k < nq; k++) {
        q.outputPermutation[phys[k]] = logicals[p[k]];
      }
    }
  }
  // same operations: same branches (outcomes, probabilities, states up to a
  // phase) on a generic input state
  void same(const std::vector<Ref>& a, const std::vector<Ref>& b,
            const char* what, bool holes = false) {
    const std::size_t d = std::size_t{1} << nq;
    Vec v(d);
    double n = 0;
    for (std::size_t i = 0; i < d; i++) {
      const u64 s = mix(i * 3 + 17);
      const double m = 0.3 + static_cast<double>(s % 1000) / 1000;
      v[i] = m * gt::ex(static_cast<double>((s >> 20) % 6283) / 1000);
      n += m * m;
    }
    for (auto& x : v) {
      x /= std::sqrt(n);
    }
    std::vector<std::size_t> pos(nq);
    for (std::size_t i = 0; i < nq; i++) {
      pos[i] = i;
    }
    const auto x = circ::enumerate(a, v, holes ? posOf : pos);
    const auto y = circ::enumerate(b, v, pos);
    if (x.empty()) {
      return;
    }
    cmps++;
    // compare the unnormalised mixture: per outcome, sum of |v><v|
    std::map<u64, std::vector<cplx>> diff;
    double worst = 0;
    auto add = [&](const std::vector<circ::Branch>& bs, double sg) {
      for (const auto& br : bs) {
        auto& m = diff[br.bits];
        m.resize(d * d);
        for (std::size_t i = 0; i < d; i++) {
          for (std::size_t j = 0; j < d; j++) {
            m[i * d + j] += sg * br.p * br.v[i] * std::conj(br.v[j]);
          }
        }
      }
    };
    add(x, 1);
    add(y, -1);
    for (const auto& [bits, m] : diff) {
      for (const auto& z : m) {
        worst = std::max(worst, std::abs(z));
      }
    }
    if (!(worst < 1e-7)) {
      if (c.verbose) {
        for (const auto& s : circ::describe(a)) {
          c.ev("  wanted %s", s.substr(0, 100).c_str());
        }
        for (const auto& s : circ::describe(b)) {
          c.ev("  got    %s", s.substr(0, 100).c_str());
        }
      }
      c.fail(id + "/meaning",
             "%s acts differently (by %.3g) on the same qubits and bits", what,
             worst);
    }
  }

  struct File {
    std::string path, full;
    bool v3 = true;
    std::vector<std::string> ops; // flattened operations of the whole file
    std::vector<Ref> refs;
  };
  std::vector<File> fs;
  u64 nfile = 0;

  void dump(Builder& b, const Step& st) {
    b.closeComp(true);
    File f;
    f.v3 = st.at(0) % 2 == 1;
    const auto format = f.v3 ? qc::Format::OpenQASM3 : qc::Format::OpenQASM2;
    f.full = b.q.toQASM(f.v3);
    if (c.verbose) {
      c.ev("--\n%s--", f.full.c_str());
    }
    f.path = fmt("/simdisk/c%llu.qasm", (unsigned long long)nfile++);
    const u64 kind = st.at(1) % 8;
    const u64 at = st.at(2) % (f.full.size() + 1);
    bool told = false;
    bool fired = false;
    std::string how;
    if (kind == 7) {
      arena::arm(1 + st.at(2) % 40);
    } else {
      disk::set({static_cast<disk::Kind>(kind), at, st.at(2)});
    }
    try {
      SutScope sut;
      b.q.dump(f.path, format);
    } catch (const std::exception& ex) {
      told = true;
      NoFault nf;
      how = ex.what();
    }
    if (kind == 7) {
      fired = arena::disarm();
      if (fired) {
        c.count("fault.allocation");
      }
    } else {
      fired = disk::fired();
      if (kind != 0 && (fired || disk::calls() > 0)) {
        c.count(std::string("fault.write-") + KINDS[kind]);
      }
      disk::set({});
    }
    if (disk::openFiles() != 0) {
      c.fail(id + "/file-left-open", "dump left its file open");
    }
    const auto got = disk::exists(f.path) ? disk::content(f.path) : "";
    c.ev("dump qasm%d %zu bytes %zu ops: kind %llu at %llu fired %d told %d "
         "stored %zu",
         f.v3 ? 3 : 2, f.full.size(), b.q.size(), (unsigned long long)kind,
         (unsigned long long)at, fired ? 1 : 0, told ? 1 : 0, got.size());
    c.cover(mix(f.full.size() / 16) ^ mix(kind * 4 + (told ? 1 : 0) * 2 + f.v3) ^
            mix(at / 64));
    if (told && !fired) {
      c.fail(id + "/spurious-write-error",
             "dumping failed although nothing went wrong: %s", how.c_str());
    }
    // (the standard library's streams swallow failed allocations, so running
    // out of memory is only required to be survived)
    if (!told && got != f.full && kind != 7) {
      c.fail(id + "/write-error-hidden",
             "dump reported success but stored %zu of %zu bytes%s", got.size(),
             f.full.size(), fired ? " after an error" : "");
    }
    if (!told && fired && kind != 7) {
      c.fail(id + "/write-error-hidden",
             "the disk reported an error (%s at byte %llu of %zu) and dump did "
             "not",
             KINDS[kind], (unsigned long long)at, f.full.size());
    }
    // read back the complete text: it has to mean the circuit
    std::unique_ptr<qc::QuantumComputation> q;
    disk::put(f.path, f.full);
    try {
      q = std::make_unique<qc::QuantumComputation>(
          qasm3::Importer::importf(f.path));
    } catch (const std::exception& ex) {
      c.fail(id + "/not-importable", "a dumped qasm%d file is refused: %s",
             f.v3 ? 3 : 2, ex.what());
    }
    f.refs = circ::refsOf(*q);
    f.ops = circ::describe(f.refs);
    if (q->getNqubits() != nq || q->getNcbits() != nc) {
      c.fail(id + "/size",
             "the imported circuit has %zu qubits and %zu bits instead of %zu "
             "and %zu",
             q->getNqubits(), q->getNcbits(), nq, nc);
    }
    same(b.refs, f.refs, "an imported circuit", true);
    // the file numbers qubits consecutively and knows no ancillae
    qc::QuantumComputation orig(nq, nc);
    orig.initialLayout.clear();
    orig.outputPermutation.clear();
    auto rank = [](const qc::Permutation& m, qc::Qubit l) {
      return static_cast<qc::Qubit>(std::count_if(
          m.begin(), m.end(), [l](const auto& e) { return e.second < l; }));
    };
    for (const auto& [p, l] : b.q.initialLayout) {
      orig.initialLayout[static_cast<qc::Qubit>(posOf[p])] =
          rank(b.q.initialLayout, l);
    }
    for (const auto& [p, l] : b.q.outputPermutation) {
      orig.outputPermutation[static_cast<qc::Qubit>(posOf[p])] =
          rank(b.q.outputPermutation, l);
    }
    for (const auto& op : b.q) {
      const auto* m = dynamic_cast<const qc::NonUnitaryOperation*>(op.get());
      if (m != nullptr && m->getType() == qc::Measure) {
        for (std::size_t i = 0; i < m->getTargets().size(); i++) {
          orig.measure(static_cast<qc::Qubit>(posOf[m->getTargets()[i]]),
                       m->getClassics()[i]);
        }
      }
    }
    bool mapped = true;
    try {
      orig.initializeIOMapping();
    } catch (const std::exception&) {
      mapped = false;
    }
    if (mapped &&
        (orig.initialLayout != q->initialLayout ||
                   orig.outputPermutation != q->outputPermutation)) {
      auto show = [](const qc::Permutation& p) {
        std::string s;
        for (const auto& [x, y] : p) {
          s += fmt(" %u:%u", unsigned(x), unsigned(y));
        }
        return s;
      };
      c.fail(id + "/layout",
             "the imported circuit's layout%s ->%s differs from the "
             "original's%s ->%s",
             show(q->initialLayout).c_str(), show(q->outputPermutation).c_str(),
             show(orig.initialLayout).c_str(),
             show(orig.outputPermutation).c_str());
    }
    disk::put(f.path, got);
    if (got == f.full.substr(0, got.size())) {
      fs.push_back(f);
      if (fs.size() > 4) {
        fs.erase(fs.begin());
      }
    }
  }

  void load(const File& f, const Step& st) {
    std::string data = disk::content(f.path);
    const u64 kind = st.at(1) % 9;
    const u64 arg = st.at(2);
    std::string path = "/simdisk/in.qasm";
    // a part of the program can live in an included file
    std::string inc;
    std::size_t cut0 = std::string::npos;
    if (st.at(3) % 3 == 1 && data == f.full) {
      std::vector<std::size_t> lines;
      for (auto p = data.find("include"); p != std::string::npos;
           p = data.find('\n', p + 1)) {
        lines.push_back(p + 1);
      }
      // statements end at line ends; blocks span lines
      std::vector<std::size_t> ok;
      for (std::size_t i = 1; i < lines.size(); i++) {
        int depth = 0;
        for (std::size_t k = 0; k < lines[i]; k++) {
          depth += data[k] == '{' ? 1 : data[k] == '}' ? -1 : 0;
        }
        // (cutting declarations would renumber later qubits and bits)
        auto starts = [&](const char* w) {
          return data.compare(lines[i], std::strlen(w), w) == 0;
        };
        if (starts("qreg") || starts("creg") || starts("qubit") ||
            starts("bit")) {
          ok.clear();
        } else if (depth == 0 && !starts(" ")) {
          ok.push_back(lines[i]);
        }
      }
      if (ok.size() > 2) {
        const auto x = ok[(st.at(3) >> 4) % (ok.size() - 1)];
        auto y = ok[(st.at(3) >> 16) % ok.size()];
        if (y > x) {
          inc = data.substr(x, y - x);
          data = data.substr(0, x) + "include \"/simdisk/part.inc\";\n" +
                 data.substr(y);
          cut0 = x;
          disk::put("/simdisk/part.inc", inc);
          c.count("included-file");
        }
      }
    }
    u64 at = arg % (data.size() + 1);
    if ((arg >> 20) % 4 == 0) { // at the end of a line
      const auto nl = data.find('\n', at);
      at = nl == std::string::npos ? data.size() : nl + (arg >> 24) % 2;
    }
    bool truncated = data.size() + inc.size() < f.full.size();
    bool midStatement = false;
    if (kind == 7) {
      if (!inc.empty() && (arg >> 26) % 2 == 0) {
        at = arg % (inc.size() + 1);
        disk::put("/simdisk/part.inc", inc.substr(0, at));
        const auto last = inc.substr(0, at).find_last_not_of(" \n");
        // inclusion is textual: a statement begun in the included file goes on
        // in the including one
        midStatement = last != std::string::npos && inc[last] != ';' &&
                       inc[last] != '}';
        truncated = truncated || at < inc.size();
      } else {
        truncated = truncated || at < data.size();
        data = data.substr(0, at);
      }
      c.count("fault.truncated-file");
    }
    disk::put(path, data);
    bool threw = false;
    std::string how;
    std::unique_ptr<qc::QuantumComputation> q;
    if (kind == 8) {
      arena::arm(1 + arg % 3000);
    } else {
      // with an included file the error hits whichever file reaches the offset
      disk::set({kind == 7 ? disk::NONE : static_cast<disk::Kind>(kind), at, arg});
    }
    try {
      SutScope sut;
      q = std::make_unique<qc::QuantumComputation>(
          qasm3::Importer::importf(path));
    } catch (const std::exception& ex) {
      threw = true;
      NoFault nf;
      how = ex.what();
    }
    bool fired = false;
    if (kind == 8) {
      fired = arena::disarm();
      if (fired) {
        c.count("fault.allocation");
      }
    } else {
      fired = disk::fired();
      if (kind != 0 && kind != 7 && (fired || disk::calls() > 0)) {
        c.count(std::string("fault.read-") + KINDS[kind]);
      }
      disk::set({});
    }
    c.ev("import %zu+%zu bytes: kind %llu at %llu fired %d threw %d %s",
         data.size(), inc.size(), (unsigned long long)kind,
         (unsigned long long)at, fired ? 1 : 0, threw ? 1 : 0,
         how.substr(0, 60).c_str());
    c.cover(mix(data.size() / 16) ^ mix(kind * 4 + (threw ? 1 : 0) * 2 + f.v3) ^
            mix(at / 32 + 3));
    if (disk::openFiles() != 0) {
      c.fail(id + "/file-left-open", "importf left a file open");
    }
    const bool healthy = !truncated && !fired;
    if (threw) {
      c.count("import-refused");
      if (healthy) {
        c.fail(id + "/spurious-read-error",
               "a complete file cannot be imported: %s", how.c_str());
      }
      return;
    }
    if (fired && kind != 8 && kind != disk::CLOSE_ERR) {
      c.fail(id + "/read-error-hidden",
             "importing succeeded although the disk failed (%s at byte %llu of "
             "%zu)",
             KINDS[kind], (unsigned long long)at, data.size());
    }
    const auto ops = circ::describe(circ::refsOf(*q));
    const bool prefix =
        ops.size() <= f.ops.size() &&
        std::equal(ops.begin(), ops.end(), f.ops.begin());
    const bool middle = truncated && !inc.empty() && kind == 7;
    if (healthy ? ops != f.ops : !prefix && !middle && kind != 8) {
      c.fail(id + (healthy ? "/unstable-import" : "/corrupt-import"),
             "importing %s gives %zu operations that are not %s those of the "
             "complete file (%zu)",
             healthy ? "the file again" : "a damaged file", ops.size(),
             healthy ? "" : "a prefix of", f.ops.size());
    }
    if (middle && !midStatement) {
      // the included part lacks its end: a prefix, a gap, and the rest
      std::size_t i = 0;
      while (i < ops.size() && i < f.ops.size() && ops[i] == f.ops[i]) {
        i++;
      }
      std::size_t j = 0;
      while (j < ops.size() - i && j < f.ops.size() - i &&
             ops[ops.size() - 1 - j] == f.ops[f.ops.size() - 1 - j]) {
        j++;
      }
      if (i + j < ops.size()) {
        c.fail(id + "/corrupt-import",
               "importing with a cut included file gives operations that are "
               "not in the program");
      }
    }
    if (q->getNqubits() > nq || q->getNcbits() > nc ||
        (healthy && (q->getNqubits() != nq || q->getNcbits() != nc))) {
      c.fail(id + "/size", "the imported circuit has %zu qubits and %zu bits",
             q->getNqubits(), q->getNcbits());
    }
    if (truncated && !ops.empty()) {
      c.count("partial-import");
    }
    if (healthy && st.at(4) % 4 == 0) {
      // a second round trip is stable
      const auto t = q->toQASM(f.v3);
      try {
        const auto q2 = qasm3::Importer::imports(t);
        same(f.refs, circ::refsOf(q2), "a circuit imported twice");
      } catch (const std::exception& ex) {
        c.fail(id + "/not-importable",
               "the dump of an imported circuit is refused: %s", ex.what());
      }
    }
  }

  qc::Controls onPhys(const qc::Controls& cs) const {
    qc::Controls r;
    for (const auto& k : cs) {
      r.emplace(phys[k.qubit], k.type);
    }
    return r;
  }
  circ::GateInst onPhys(circ::GateInst g) const {
    for (auto& t : g.targets) {
      t = phys[t];
    }
    g.controls = onPhys(g.controls);
    return g;
  }

  void run() {
    disk::reset();
    gt::exoticAngles() = plan.knob("exotic", 0) != 0;
    nq = 1 + plan.knob("nq0", 2) % 5;
    nc = plan.knob("nc", 2) % 6;
    Builder b(0);
    b.nq = nq;
    registers(b.q);
    u64 dumps = 0;
    for (const auto& st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "g") {
        b.gate(onPhys(circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq)),
               st.at(4) % 2 == 0);
      } else if (st.op == "comp") {
        b.closeComp(true);
        b.comp = std::make_unique<qc::CompoundOperation>();
        b.compLeft = 1 + st.at(0) % 5;
      } else if (st.op == "bar") {
        b.closeComp(true);
        if (st.at(0) % 2 == 0) {
          b.barrier();
        } else {
          const auto sel = circ::permutation(st.at(0) >> 1, nq);
          std::vector<qc::Qubit> t;
          for (std::size_t i = 0; i < 1 + (st.at(0) >> 40) % nq; i++) {
            t.push_back(phys[sel[i]]);
          }
          b.q.barrier(t);
          b.refs.push_back({});
        }
      } else if (st.op == "cgph") {
        b.phaseOp(gt::ang(st.at(0)),
                  onPhys(circ::controlsFrom(st.at(1), nq, 1 + st.at(2) % 3)));
      } else if (st.op == "meas" && nc > 0) {
        b.closeComp(true);
        Ref r;
        r.kind = Ref::MEAS;
        auto sel = circ::permutation(st.at(0), nq);
        auto bs = circ::permutation(st.at(1), nc);
        std::size_t k = 1 + st.at(2) % std::min<std::size_t>(nq, nc);
        if (st.at(2) / 16 % 3 == 0) { // in order (whole registers)
          std::sort(sel.begin(), sel.begin() + static_cast<long>(k));
          std::sort(bs.begin(), bs.begin() + static_cast<long>(k));
        }
        std::vector<qc::Qubit> t;
        std::vector<qc::Bit> bits;
        for (std::size_t i = 0; i < k; i++) {
          t.push_back(phys[sel[i]]);
          bits.push_back(bs[i]);
          r.targets.push_back(phys[sel[i]]);
          r.bits.push_back(bs[i]);
        }
        b.q.measure(t, bits);
        b.refs.push_back(r);
      } else if (st.op == "reset") {
        b.closeComp(true);
        Ref r;
        r.kind = Ref::RESET;
        auto sel = circ::permutation(st.at(0), nq);
        const std::size_t k = 1 + st.at(1) % nq;
        if (st.at(1) / 16 % 2 == 0) {
          std::sort(sel.begin(), sel.begin() + static_cast<long>(k));
        }
        std::vector<qc::Qubit> t;
        for (std::size_t i = 0; i < k; i++) {
          t.push_back(phys[sel[i]]);
          r.targets.push_back(phys[sel[i]]);
        }
        b.q.reset(t);
        b.refs.push_back(r);
      } else if (st.op == "if" && nc > 0) {
        b.closeComp(true);
        Ref k;
        const u64 how = st.at(4);
        const CReg* reg = nullptr;
        if (how % 3 == 0) {
          k.cstart = (how >> 8) % nc;
          k.csize = 1;
          k.cval = (how >> 4) % 2;
          k.cmp = static_cast<int>((how >> 5) % 2);
        } else {
          reg = &cregs[(how >> 8) % cregs.size()];
          k.cstart = reg->start;
          k.csize = reg->size;
          k.cval = (how >> 16) % (u64{1} << k.csize);
          k.cmp = static_cast<int>((how >> 4) % 6);
        }
        std::unique_ptr<qc::Operation> op;
        std::vector<Ref> rs;
        auto one = [&](u64 salt) {
          const auto g =
              onPhys(circ::decode(st.at(0) + salt, mix(st.at(1) + salt),
                                  mix(st.at(2) + salt), st.at(3), nq, 2));
          rs.push_back(circ::refOf(g));
          return circ::opOf(g);
        };
        if ((how >> 32) % 5 == 0) {
          auto comp = std::make_unique<qc::CompoundOperation>();
          for (u64 i = 0; i < 1 + (how >> 36) % 3; i++) {
            comp->emplace_back(one(i));
          }
          op = std::move(comp);
        } else {
          op = one(0);
        }
        static const qc::ComparisonKind ck[] = {qc::Eq,  qc::Neq, qc::Lt,
                                                qc::Leq, qc::Gt,  qc::Geq};
        if (reg == nullptr) {
          b.q.emplace_back<qc::ClassicControlledOperation>(
              std::move(op), static_cast<qc::Bit>(k.cstart), k.cval,
              ck[k.cmp]);
        } else {
          b.q.emplace_back<qc::ClassicControlledOperation>(
              std::move(op), b.q.getClassicalRegisters().at(reg->name), k.cval,
              ck[k.cmp]);
        }
        for (auto& r : rs) {
          r.cond = true;
          r.cstart = k.cstart;
          r.csize = k.csize;
          r.cval = k.cval;
          r.cmp = k.cmp;
          b.refs.push_back(r);
        }
      } else if (st.op == "dump") {
        dump(b, st);
        dumps++;
      } else if (st.op == "load" && !fs.empty()) {
        const auto f = fs[st.at(0) % fs.size()];
        load(f, st);
      }
    }
    c.nontrivial = dumps > 0 && cmps > 0 && b.q.size() > 1;
    b.closeComp(true);
  }
};
void run10(const Plan& p, Ctx& c) { S10(c, p).run(); }

Plan gen10(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P10";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("nq0", r.below(5));
  knob("nc", r.below(6));
  knob("split", r.chance(0.5) ? 1000000 : r.next() >> 40);
  knob("csplit", r.chance(0.5) ? 1000000 : r.next() >> 40);
  knob("names", r.below(6));
  knob("anc", r.next() >> 40);
  knob("exotic", r.chance(0.3) ? 1 : 0);
  knob("holes", r.chance(0.7) ? 0 : r.next() >> 20);
  knob("lay", r.chance(0.5) ? 0 : r.next() >> 30);
  knob("out", r.chance(0.5) ? 0 : r.next() >> 30);
  const bool comps = r.chance(0.3);
  const bool meas = r.chance(0.6);
  const bool conds = meas && r.chance(0.5);
  const bool phases = r.chance(0.2);
  const u64 n = r.chance(0.2) ? r.below(3) : 2 + r.below(12);
  for (u64 i = 0; i < n; i++) {
    const double x = r.unit();
    if (x < 0.5 || (!meas && x < 0.9)) {
      p.add("g", {r.below(32), r.next() >> 40, r.next() >> 30, r.next() >> 40,
                  r.below(2)});
    } else if (x < 0.55) {
      p.add("bar", {r.next()});
    } else if (x < 0.6 && comps) {
      p.add("comp", {r.below(5)});
    } else if (x < 0.64 && phases) {
      p.add("cgph", {r.next() >> 40, r.next() >> 8, r.below(3)});
    } else if (x < 0.78 && meas) {
      p.add("meas", {r.next() >> 40, r.next() >> 40, r.below(64)});
    } else if (x < 0.84 && meas) {
      p.add("reset", {r.next() >> 40, r.below(64)});
    } else if (conds) {
      p.add("if", {r.below(32), r.next() >> 40, r.next() >> 30, r.next() >> 40,
                   r.next() >> 4});
    }
  }
  const bool faults = r.chance(0.8);
  for (u64 i = 0; i < 1 + r.below(2); i++) {
    p.add("dump", {r.below(2), faults && r.chance(0.5) ? r.below(8) : 0,
                   r.next() >> 40});
    for (u64 k = 0; k < r.below(6); k++) {
      p.add("load", {r.below(4),
                     faults ? (r.chance(0.4) ? 7 : r.below(9)) : r.below(2),
                     r.next() >> 30, r.next() >> 30, r.below(8)});
    }
  }
  return p;
}
const Register r10("P10", gen10, run10, 60);
} // namespace
