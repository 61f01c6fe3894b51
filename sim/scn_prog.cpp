// P18: OpenQASM 2 and 3 programs written by a generator that knows what they
// mean, on a simulated disk (programs and included files), imported under
// faults, cut and damaged programs included.
#include "core/sim.hpp"
#include "disk.hpp"
#include "qcref.hpp"

#include "qasm3/Importer.hpp"

#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <sstream>

namespace {
using namespace sim;
using circ::Ref;
using dn::cplx;
using dn::Mat;
using dn::Vec;
using Toks = std::vector<std::string>;

// ------------------------------------------------------------- expressions
struct E {
  char op = 'n'; // n literal, v name, + - * / ^, ~ negation, f function
  double v = 0;
  bool integer = false;
  std::string s;
  std::vector<E> k;
};
using Env = std::map<std::string, double>;

double eval(const E& e, const Env& env) {
  switch (e.op) {
  case 'n':
    return e.v;
  case 'v':
    return env.at(e.s);
  case '~':
    return -eval(e.k[0], env);
  case '+':
    return eval(e.k[0], env) + eval(e.k[1], env);
  case '-':
    return eval(e.k[0], env) - eval(e.k[1], env);
  case '*':
    return eval(e.k[0], env) * eval(e.k[1], env);
  case '/':
    return eval(e.k[0], env) / eval(e.k[1], env);
  case '^':
    return std::pow(eval(e.k[0], env), eval(e.k[1], env));
  default: {
    const double x = eval(e.k[0], env);
    return e.s == "sin"   ? std::sin(x)
           : e.s == "cos" ? std::cos(x)
           : e.s == "tan" ? std::tan(x)
           : e.s == "exp" ? std::exp(x)
           : e.s == "ln"  ? std::log(x)
                          : std::sqrt(x);
  }
  }
}
// binding strength of an operator
int level(const E& e) {
  switch (e.op) {
  case '+':
  case '-':
    return 1;
  case '*':
  case '/':
    return 2;
  case '~':
    return 3;
  case '^':
    return 4;
  default:
    return 5;
  }
}
void render(const E& e, Toks& out, int min, Rng& r) {
  const bool paren = level(e) < min || r.chance(0.06);
  if (paren) {
    out.emplace_back("(");
  }
  switch (e.op) {
  case 'n':
  case 'v':
    out.push_back(e.s);
    break;
  case '~':
    out.emplace_back("-");
    render(e.k[0], out, 5, r);
    break;
  case 'f':
    out.push_back(e.s);
    out.emplace_back("(");
    render(e.k[0], out, 0, r);
    out.emplace_back(")");
    break;
  default:
    // left-associative; powers are never chained
    render(e.k[0], out, e.op == '^' ? 5 : level(e), r);
    out.emplace_back(1, e.op);
    render(e.k[1], out, e.op == '^' ? 5 : level(e) + 1, r);
  }
  if (paren) {
    out.emplace_back(")");
  }
}

// ------------------------------------------------------------- gates
struct Mod {
  int kind = 0; // 0 inv, 1 ctrl, 2 negctrl
  std::size_t n = 1;
  bool counted = false; // written with the number in parentheses
};
struct Gate;
struct Call {
  std::shared_ptr<const Gate> g;
  std::vector<Mod> mods;
  std::vector<E> args;
  std::vector<std::size_t> ops; // formal qubits
};
struct Gate {
  std::string name;
  std::size_t nc = 0, nt = 1, np = 0; // builtin: controls, targets, parameters
  qc::OpType t = qc::I;
  bool user = false;
  int version = 0; // 2: only there, 3: only there
  bool lib = false; // needs qelib1.inc
  std::vector<std::string> params, qubits;
  std::vector<Call> body;
  std::size_t depth = 0;
  [[nodiscard]] std::size_t operands() const {
    return user ? qubits.size() : nc + nt;
  }
};
Mat adjoint(const Mat& m) {
  Mat r(m.d);
  for (std::size_t a = 0; a < m.d; a++) {
    for (std::size_t b = 0; b < m.d; b++) {
      r.at(a, b) = std::conj(m.at(b, a));
    }
  }
  return r;
}
using Ctl = std::vector<std::pair<std::size_t, bool>>;
void expand(const Gate& g, const std::vector<double>& args,
            const std::vector<std::size_t>& qs, const Ctl& ctl, bool inv,
            const Env& globals, std::vector<Ref>& out);
void expand(const Call& call, const Env& env,
            const std::vector<std::size_t>& qubits, Ctl ctl, bool inv,
            const Env& globals, std::vector<Ref>& out) {
  std::vector<double> args;
  for (const auto& e : call.args) {
    args.push_back(eval(e, env));
  }
  std::size_t k = 0;
  for (const auto& m : call.mods) {
    if (m.kind == 0) {
      inv = !inv;
    } else {
      for (std::size_t i = 0; i < m.n; i++) {
        ctl.emplace_back(qubits[k++], m.kind == 1);
      }
    }
  }
  expand(*call.g, args,
         std::vector<std::size_t>(qubits.begin() + static_cast<long>(k),
                                  qubits.end()),
         ctl, inv, globals, out);
}
void expand(const Gate& g, const std::vector<double>& args,
            const std::vector<std::size_t>& qs, const Ctl& ctl, bool inv,
            const Env& globals, std::vector<Ref>& out) {
  if (!g.user) {
    Ref r;
    r.kind = Ref::U;
    if (g.t == qc::GPhase) {
      r.u = Mat(1);
      r.u.at(0, 0) = gt::ex(args.at(0));
    } else {
      r.u = circ::refGate(g.t, args);
    }
    if (inv) {
      r.u = adjoint(r.u);
    }
    r.controls = ctl;
    for (std::size_t i = 0; i < qs.size(); i++) {
      if (i < g.nc) {
        r.controls.emplace_back(qs[i], true);
      } else {
        r.targets.push_back(qs[i]);
      }
    }
    r.desc = g.name;
    out.push_back(std::move(r));
    return;
  }
  Env env = globals;
  for (std::size_t i = 0; i < g.params.size(); i++) {
    env[g.params[i]] = args.at(i);
  }
  auto one = [&](const Call& c) {
    std::vector<std::size_t> q;
    for (const auto o : c.ops) {
      q.push_back(qs.at(o));
    }
    expand(c, env, q, ctl, inv, globals, out);
  };
  if (inv) {
    for (auto it = g.body.rbegin(); it != g.body.rend(); ++it) {
      one(*it);
    }
  } else {
    for (const auto& c : g.body) {
      one(c);
    }
  }
}

const std::vector<Gate>& builtins() {
  static const std::vector<Gate> v = [] {
    std::vector<Gate> b;
    auto add = [&](const char* n, std::size_t nc, std::size_t nt,
                   std::size_t np, qc::OpType t, int ver = 0) {
      Gate g;
      g.name = n;
      g.nc = nc;
      g.nt = nt;
      g.np = np;
      g.t = t;
      g.version = ver;
      b.push_back(g);
    };
    add("U", 0, 1, 3, qc::U);
    add("gphase", 0, 0, 1, qc::GPhase, 3);
    add("p", 0, 1, 1, qc::P);
    add("u1", 0, 1, 1, qc::P);
    add("phase", 0, 1, 1, qc::P);
    add("cphase", 1, 1, 1, qc::P);
    add("cp", 1, 1, 1, qc::P);
    add("id", 0, 1, 0, qc::I);
    add("u2", 0, 1, 2, qc::U2);
    add("u3", 0, 1, 3, qc::U);
    add("u", 0, 1, 3, qc::U);
    add("x", 0, 1, 0, qc::X);
    add("cx", 1, 1, 0, qc::X);
    add("CX", 1, 1, 0, qc::X);
    add("ccx", 2, 1, 0, qc::X);
    add("c3x", 3, 1, 0, qc::X);
    add("rx", 0, 1, 1, qc::RX);
    add("crx", 1, 1, 1, qc::RX);
    add("y", 0, 1, 0, qc::Y);
    add("cy", 1, 1, 0, qc::Y);
    add("ry", 0, 1, 1, qc::RY);
    add("cry", 1, 1, 1, qc::RY);
    add("z", 0, 1, 0, qc::Z);
    add("cz", 1, 1, 0, qc::Z);
    add("rz", 0, 1, 1, qc::RZ);
    add("crz", 1, 1, 1, qc::RZ);
    add("h", 0, 1, 0, qc::H);
    add("ch", 1, 1, 0, qc::H);
    add("s", 0, 1, 0, qc::S);
    add("sdg", 0, 1, 0, qc::Sdg);
    add("t", 0, 1, 0, qc::T);
    add("tdg", 0, 1, 0, qc::Tdg);
    add("sx", 0, 1, 0, qc::SX);
    add("sxdg", 0, 1, 0, qc::SXdg);
    add("swap", 0, 2, 0, qc::SWAP);
    add("cswap", 1, 2, 0, qc::SWAP);
    add("iswap", 0, 2, 0, qc::iSWAP);
    add("iswapdg", 0, 2, 0, qc::iSWAPdg);
    add("rxx", 0, 2, 1, qc::RXX);
    add("ryy", 0, 2, 1, qc::RYY);
    add("rzz", 0, 2, 1, qc::RZZ);
    add("rzx", 0, 2, 1, qc::RZX);
    add("dcx", 0, 2, 0, qc::DCX);
    add("ecr", 0, 2, 0, qc::ECR);
    add("xx_minus_yy", 0, 2, 2, qc::XXminusYY);
    add("xx_plus_yy", 0, 2, 2, qc::XXplusYY);
    add("mcx", 1, 1, 0, qc::X);
    add("mcx", 2, 1, 0, qc::X);
    add("mcx", 3, 1, 0, qc::X);
    add("mcx_gray", 2, 1, 0, qc::X);
    add("mcx_recursive", 3, 1, 0, qc::X);
    add("mcphase", 2, 1, 1, qc::P);
    // any number of leading c's in OpenQASM 2
    add("ccz", 2, 1, 0, qc::Z, 2);
    add("csx", 1, 1, 0, qc::SX, 2);
    add("cccx", 3, 1, 0, qc::X, 2);
    add("cs", 1, 1, 0, qc::S, 2);
    add("ccp", 2, 1, 1, qc::P, 2);
    add("cu3", 1, 1, 3, qc::U, 2);
    add("cu1", 1, 1, 1, qc::P, 2);
    add("crzz", 1, 2, 1, qc::RZZ, 2);
    // defined by the libraries
    auto user = [&](const char* n, std::vector<std::string> ps,
                    std::vector<std::string> qs) -> Gate& {
      Gate g;
      g.name = n;
      g.user = true;
      g.params = std::move(ps);
      g.qubits = std::move(qs);
      g.np = g.params.size();
      b.push_back(g);
      return b.back();
    };
    auto std = [&](const char* n) {
      for (const auto& g : b) {
        if (g.name == n) {
          return std::make_shared<const Gate>(g);
        }
      }
      return std::shared_ptr<const Gate>();
    };
    auto name = [](const char* n) {
      E e;
      e.op = 'v';
      e.s = n;
      return e;
    };
    auto num = [](double x) {
      E e;
      e.v = x;
      return e;
    };
    {
      const auto p = std("p");
      const auto u = std("U");
      Gate& g = user("cu", {"theta", "phi", "lambda", "gamma"}, {"c", "t"});
      g.body.push_back({p, {}, {name("gamma")}, {0}});
      g.body.push_back({u,
                        {{1, 1, false}},
                        {name("theta"), name("phi"), name("lambda")},
                        {0, 1}});
    }
    {
      const auto u2 = std("u2");
      const auto u1 = std("u1");
      const auto cx = std("cx");
      const double q = gt::PI / 4;
      auto h = [&](Gate& g, std::size_t t) {
        g.body.push_back({u2, {}, {num(0), num(gt::PI)}, {t}});
      };
      auto ph = [&](Gate& g, double x, std::size_t t) {
        g.body.push_back({u1, {}, {num(x)}, {t}});
      };
      auto c = [&](Gate& g, std::size_t a, std::size_t t) {
        g.body.push_back({cx, {}, {}, {a, t}});
      };
      Gate& g = user("rccx", {}, {"a", "b", "c"});
      g.lib = true;
      h(g, 2);
      ph(g, q, 2);
      c(g, 1, 2);
      ph(g, -q, 2);
      c(g, 0, 2);
      ph(g, q, 2);
      c(g, 1, 2);
      ph(g, -q, 2);
      h(g, 2);
      Gate& k = user("rc3x", {}, {"a", "b", "c", "d"});
      k.lib = true;
      h(k, 3);
      ph(k, q, 3);
      c(k, 2, 3);
      ph(k, -q, 3);
      h(k, 3);
      c(k, 0, 3);
      ph(k, q, 3);
      c(k, 1, 3);
      ph(k, -q, 3);
      c(k, 0, 3);
      ph(k, q, 3);
      c(k, 1, 3);
      ph(k, -q, 3);
      h(k, 3);
      ph(k, q, 3);
      c(k, 2, 3);
      ph(k, -q, 3);
      h(k, 3);
    }
    return b;
  }();
  return v;
}

bool wordy(char x) {
  return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') ||
         (x >= '0' && x <= '9') || x == '_' || x == '.' || x == '$' ||
         x == '"';
}

struct Reg {
  std::string name;
  std::size_t start, size;
  bool scalar;
};
struct Const {
  std::string name;
  bool integer;
  double v;
};

struct S18 {
  Ctx& c;
  const Plan& plan;
  const std::string id = "P18";
  bool v3;
  bool hw; // hardware qubits instead of registers
  std::size_t maxQ, maxB;
  std::vector<Reg> qregs, cregs;
  std::size_t nq = 0, nb = 0;
  std::vector<Const> consts;
  Env globals;
  std::vector<std::shared_ptr<const Gate>> gates;
  std::vector<Toks> text; // one entry per statement
  std::vector<Ref> refs;
  std::size_t events = 0;
  std::size_t badLine = 0;
  std::string bad; // why the program is invalid
  bool lib = false;

  S18(Ctx& ctx, const Plan& p)
      : c(ctx), plan(p), v3(p.knob("v3", 1) != 0), hw(p.knob("hw", 0) != 0),
        maxQ(1 + p.knob("nq", 3) % 4), maxB(1 + p.knob("nb", 3) % 5) {
    lib = p.knob("lib", 0) != 0;
    if (hw) {
      v3 = true;
      nq = 0;
    }
    for (const auto& g : builtins()) {
      if ((g.version == 0 || g.version == (v3 ? 3 : 2)) && (!g.lib || lib)) {
        gates.push_back(std::make_shared<const Gate>(g));
      }
    }
  }

  // ------------------------------------------------------------- pieces
  E literal(Rng& r, bool integer) const {
    E e;
    e.integer = integer;
    if (integer) {
      const u64 x = r.chance(0.1) ? r.below(40) : r.below(5);
      e.v = static_cast<double>(x);
      switch (v3 ? r.below(8) : 7) {
      case 0:
        e.s = fmt(r.chance(0.5) ? "0x%llx" : "0X%llX", (unsigned long long)x);
        break;
      case 1: {
        std::string b;
        for (u64 y = x; y != 0 || b.empty(); y /= 2) {
          b.insert(b.begin(), y % 2 != 0 ? '1' : '0');
        }
        e.s = (r.chance(0.5) ? "0b" : "0B") + b;
        break;
      }
      case 2:
        e.s = fmt("0o%llo", (unsigned long long)x);
        break;
      default:
        e.s = fmt("%llu", (unsigned long long)x);
      }
      return e;
    }
    switch (r.below(8)) {
    case 0:
    case 1:
      e.s = "pi";
      e.v = gt::PI;
      return e;
    case 2:
      if (v3) {
        e.s = r.chance(0.5) ? "tau" : "euler";
        e.v = e.s == "tau" ? 2 * gt::PI : std::exp(1.0);
        return e;
      }
      break;
    case 3:
      e.s = fmt("%llu.", (unsigned long long)r.below(4));
      break;
    case 4:
      e.s = fmt(".%llu", (unsigned long long)(1 + r.below(99)));
      break;
    case 5:
      e.s = fmt("%llu.%llue%d", (unsigned long long)r.below(100),
                (unsigned long long)r.below(100),
                static_cast<int>(r.below(3)) - 2);
      break;
    case 6:
      e.s = fmt("%lluE-%llu", (unsigned long long)(1 + r.below(30)),
                (unsigned long long)r.below(3));
      break;
    default:
      e.s = fmt("%.17g", gt::ang(r.next()));
      if (e.s[0] == '-') {
        e.s.erase(0, 1);
      }
      if (e.s.find_first_of(".e") == std::string::npos) {
        e.s += ".0";
      }
    }
    if (e.s.empty()) {
      e.s = "0.375";
    }
    e.v = std::strtod(e.s.c_str(), nullptr);
    return e;
  }
  using Names = std::vector<std::pair<std::string, bool>>; // name, integer
  E expr(Rng& r, int depth, const Names& names) const {
    E e;
    const double x = r.unit();
    if (depth <= 0 || x < 0.3) {
      if (!names.empty() && r.chance(0.55)) {
        const auto& n = names[r.below(names.size())];
        e.op = 'v';
        e.s = n.first;
        e.integer = n.second;
        return e;
      }
      return literal(r, r.chance(0.3));
    }
    if (x < 0.42) {
      e.op = '~';
      e.k.push_back(expr(r, depth - 1, names));
      e.integer = e.k[0].integer;
      return e;
    }
    if (x < 0.52) {
      e.op = 'f';
      static const char* const F[] = {"sin", "cos", "tan", "exp", "ln",
                                      "sqrt"};
      const u64 f = r.below(6);
      e.s = F[f];
      if (f < 2) {
        e.k.push_back(expr(r, depth - 1, names));
      } else {
        // (in the domain, and of moderate value)
        E a;
        const u64 m = f == 2 ? r.below(2) : 1 + r.below(4);
        a.integer = r.chance(0.4);
        a.s = a.integer ? fmt("%llu", (unsigned long long)m)
                        : fmt("%llu.25", (unsigned long long)m);
        a.v = std::strtod(a.s.c_str(), nullptr);
        if (f == 3 && r.chance(0.5)) {
          E n;
          n.op = '~';
          n.integer = a.integer;
          n.k.push_back(a);
          a = n;
        }
        e.k.push_back(a);
      }
      return e;
    }
    if (x < 0.6 && !v3) {
      e.op = '^';
      e.k.push_back(literal(r, r.chance(0.5)));
      E n;
      n.integer = true;
      n.v = static_cast<double>(r.below(4));
      n.s = fmt("%d", static_cast<int>(n.v));
      if (e.k[0].v == 0) {
        e.k[0] = n;
        e.k[0].v = 2;
        e.k[0].s = "2";
      }
      e.k.push_back(n);
      e.integer = e.k[0].integer;
      return e;
    }
    e.op = x < 0.72 ? '+' : x < 0.84 ? '-' : x < 0.92 ? '*' : '/';
    e.k.push_back(expr(r, depth - 1, names));
    if (e.op == '/') {
      // (what the quotient of two integers is differs between the versions)
      E d = literal(r, !v3 && r.chance(0.5));
      if (d.v < 0.1) {
        d.v = 4;
        d.s = "4";
        d.integer = true;
      }
      if (v3 && e.k[0].integer && d.integer) {
        d.s = "4.0";
        d.integer = false;
      }
      e.k.push_back(d);
    } else {
      e.k.push_back(expr(r, depth - 1, names));
    }
    e.integer = e.op != '/' && e.k[0].integer && e.k[1].integer;
    return e;
  }
  // the value of an index or a size
  void index(Toks& t, std::size_t v, Rng& r) {
    t.emplace_back("[");
    bool done = false;
    if (v3 && r.chance(0.4)) {
      for (const auto& k : consts) {
        if (k.integer && k.v == static_cast<double>(v) && r.chance(0.7)) {
          t.push_back(k.name);
          done = true;
          break;
        }
      }
      if (!done && v > 0 && r.chance(0.5)) {
        const std::size_t a = 1 + r.below(v);
        t.push_back(fmt("%zu", a));
        t.emplace_back("+");
        t.push_back(fmt("%zu", v - a));
        done = true;
      }
      if (!done && r.chance(0.3)) {
        t.push_back(fmt("%zu", v + 1));
        t.emplace_back("-");
        t.emplace_back("1");
        done = true;
      }
    }
    if (!done) {
      t.push_back(fmt("%zu", v));
    }
    t.emplace_back("]");
  }
  void qubit(Toks& t, std::size_t q, Rng& r) {
    if (hw) {
      t.push_back(fmt("$%zu", q));
      nq = std::max(nq, q + 1);
      return;
    }
    for (const auto& g : qregs) {
      if (q >= g.start && q < g.start + g.size) {
        t.push_back(g.name);
        if (!g.scalar || (g.size == 1 && r.chance(0.3))) {
          index(t, q - g.start, r);
        }
        return;
      }
    }
  }
  void bit(Toks& t, std::size_t b, Rng& r) {
    for (const auto& g : cregs) {
      if (b >= g.start && b < g.start + g.size) {
        t.push_back(g.name);
        if (!g.scalar || (g.size == 1 && r.chance(0.3))) {
          index(t, b - g.start, r);
        }
        return;
      }
    }
  }
  std::size_t room() const { return hw ? maxQ : nq; }

  void modifiers(Toks& t, const std::vector<Mod>& ms, Rng& r) {
    for (const auto& m : ms) {
      t.emplace_back(m.kind == 0   ? "inv"
                     : m.kind == 1 ? "ctrl"
                                   : "negctrl");
      if (m.kind != 0 && (m.n > 1 || m.counted)) {
        t.emplace_back("(");
        bool done = false;
        for (const auto& k : consts) {
          if (k.integer && k.v == static_cast<double>(m.n) && r.chance(0.3)) {
            t.push_back(k.name);
            done = true;
            break;
          }
        }
        if (!done) {
          t.push_back(fmt("%zu", m.n));
        }
        t.emplace_back(")");
      }
      t.emplace_back("@");
    }
  }
  void arguments(Toks& t, const std::vector<E>& as, Rng& r) {
    if (as.empty()) {
      if (r.chance(0.04)) {
        t.emplace_back("(");
        t.emplace_back(")");
      }
      return;
    }
    t.emplace_back("(");
    for (std::size_t i = 0; i < as.size(); i++) {
      if (i > 0) {
        t.emplace_back(",");
      }
      render(as[i], t, 0, r);
    }
    t.emplace_back(")");
  }
  // gate and modifiers for at most `n` qubits
  bool choose(Rng& r, std::size_t n, Call& call, const Names& names,
              std::size_t maxDepth) {
    for (int tries = 0; tries < 20; tries++) {
      const std::size_t users = gates.size() - base();
      const auto& g = users > 0 && r.chance(0.5)
                          ? gates[base() + r.below(users)]
                          : gates[r.below(base())];
      if (g->operands() > n || g->depth > maxDepth) {
        continue;
      }
      call.g = g;
      call.mods.clear();
      std::size_t left = n - g->operands();
      if (v3) {
        for (int i = 0; i < 4 && r.chance(i == 0 ? 0.35 : 0.4); i++) {
          Mod m;
          m.kind = static_cast<int>(r.below(3));
          if (m.kind != 0) {
            // (gates of any number of operands take all there are)
            if (left == 0 || g->name.compare(0, 2, "mc") == 0) {
              continue;
            }
            m.n = left > 1 && r.chance(0.3) ? 2 : 1;
            m.counted = r.chance(0.2);
            left -= m.n;
          }
          call.mods.push_back(m);
        }
      }
      std::size_t need = g->operands();
      for (const auto& m : call.mods) {
        need += m.kind == 0 ? 0 : m.n;
      }
      if (need == 0 && n == 0) {
        continue;
      }
      const auto o = circ::permutation(r.next() >> 20, n);
      call.ops.assign(o.begin(), o.begin() + static_cast<long>(need));
      call.args.clear();
      for (std::size_t i = 0; i < g->np; i++) {
        call.args.push_back(expr(r, 1 + static_cast<int>(r.below(3)), names));
      }
      return true;
    }
    return false;
  }
  [[nodiscard]] std::size_t base() const {
    std::size_t k = 0;
    while (k < gates.size() && builtinCount > k) {
      k++;
    }
    return k;
  }
  std::size_t builtinCount = 0;

  Names globalNames() const {
    Names n;
    for (const auto& k : consts) {
      n.emplace_back(k.name, k.integer);
    }
    return n;
  }
  // unsigned values wrap in the language; keep them out of differences
  static void guard(E& e) {
    for (auto& k : e.k) {
      guard(k);
    }
    auto hasName = [](const E& x) {
      auto f = [](auto&& self, const E& y) -> bool {
        return y.op == 'v' ||
               std::any_of(y.k.begin(), y.k.end(),
                           [&](const E& z) { return self(self, z); });
      };
      return f(f, x);
    };
    if ((e.op == '-' || e.op == '~') && e.integer && hasName(e)) {
      // make it a difference of reals
      E one;
      one.s = "1.0";
      one.v = 1;
      E m;
      m.op = '*';
      m.k = {one, e.k[0]};
      e.k[0] = m;
      e.integer = false;
    }
  }

  // a gate call on top level or in a block
  bool call(Rng& r, Toks& t, std::vector<Ref>& out, bool broadcast) {
    Call k;
    const auto names = globalNames();
    if (room() == 0) {
      return false;
    }
    if (broadcast && !hw && r.chance(0.3)) {
      // whole registers
      std::vector<const Reg*> big;
      for (const auto& g : qregs) {
        if (!g.scalar && g.size > 1) {
          big.push_back(&g);
        }
      }
      if (!big.empty()) {
        const Reg* a = big[r.below(big.size())];
        // operands: registers of this size, or single qubits elsewhere
        std::vector<std::vector<std::size_t>> choice;
        std::vector<std::string> regName;
        for (const auto& g : qregs) {
          if (!g.scalar && g.size == a->size) {
            std::vector<std::size_t> v;
            for (std::size_t i = 0; i < g.size; i++) {
              v.push_back(g.start + i);
            }
            choice.push_back(v);
            regName.push_back(g.name);
          } else {
            for (std::size_t i = 0; i < g.size; i++) {
              choice.push_back({g.start + i});
              regName.emplace_back();
            }
          }
        }
        if (choose(r, choice.size(), k, names, 9)) {
          for (auto& e : k.args) {
            guard(e);
          }
          modifiers(t, k.mods, r);
          t.push_back(k.g->name);
          arguments(t, k.args, r);
          std::size_t width = 1;
          for (std::size_t i = 0; i < k.ops.size(); i++) {
            if (i > 0) {
              t.emplace_back(",");
            }
            const auto o = k.ops[i];
            if (regName[o].empty()) {
              qubit(t, choice[o][0], r);
            } else {
              t.push_back(regName[o]);
              width = choice[o].size();
            }
          }
          t.emplace_back(";");
          for (std::size_t i = 0; i < width; i++) {
            std::vector<std::size_t> qs;
            for (const auto o : k.ops) {
              qs.push_back(choice[o].size() > 1 ? choice[o][i] : choice[o][0]);
            }
            expand(k, globals, qs, {}, false, globals, out);
          }
          c.count("stmt.broadcast");
          return true;
        }
        t.clear();
      }
    }
    if (!choose(r, room(), k, names, 9)) {
      return false;
    }
    for (auto& e : k.args) {
      guard(e);
    }
    modifiers(t, k.mods, r);
    t.push_back(k.g->name);
    arguments(t, k.args, r);
    for (std::size_t i = 0; i < k.ops.size(); i++) {
      if (i > 0) {
        t.emplace_back(",");
      }
      qubit(t, k.ops[i], r);
    }
    t.emplace_back(";");
    expand(k, globals, k.ops, {}, false, globals, out);
    c.count(k.g->user ? "stmt.user-gate" : "stmt.gate");
    if (!k.mods.empty()) {
      c.count("stmt.modified-gate");
    }
    return true;
  }

  std::string fresh(Rng& r, const std::vector<const char*>& pool,
                    const std::set<std::string>& taken) const {
    for (u64 k = 0; k < 8; k++) {
      const std::string n = pool[r.below(pool.size())];
      if (taken.count(n) == 0) {
        return n;
      }
    }
    for (u64 k = 0;; k++) {
      const auto n = fmt("_n%llu", (unsigned long long)k);
      if (taken.count(n) == 0) {
        return n;
      }
    }
  }
  std::set<std::string> taken() const {
    std::set<std::string> s;
    for (const auto& g : qregs) {
      s.insert(g.name);
    }
    for (const auto& g : cregs) {
      s.insert(g.name);
    }
    for (const auto& k : consts) {
      s.insert(k.name);
    }
    for (const auto& g : gates) {
      s.insert(g->name);
    }
    return s;
  }

  void statement(const Step& st) {
    Rng r(st.at(0));
    Toks t;
    if (st.op == "qreg" && !hw && nq < maxQ) {
      Reg g;
      g.size = std::min<std::size_t>(1 + st.at(1) % 3, maxQ - nq);
      g.start = nq;
      g.name = fresh(r, {"q", "r", "anc", "work_2", "b", "_q"}, taken());
      g.scalar = v3 && g.size == 1 && r.chance(0.5);
      declare(t, g, "qubit", "qreg", r);
      nq += g.size;
      qregs.push_back(g);
    } else if (st.op == "creg" && nb < maxB) {
      Reg g;
      g.size = std::min<std::size_t>(1 + st.at(1) % 3, maxB - nb);
      g.start = nb;
      g.name = fresh(r, {"c", "d", "meas", "out_1", "m0"}, taken());
      g.scalar = v3 && g.size == 1 && r.chance(0.5);
      // with a measurement as its initial value
      const Reg* src = nullptr;
      if (v3 && !hw && r.chance(0.15)) {
        for (const auto& q : qregs) {
          if (q.size == g.size && q.scalar == g.scalar) {
            src = &q;
          }
        }
      }
      if (src != nullptr && events + g.size <= 6) {
        t.emplace_back("bit");
        if (!g.scalar) {
          t.emplace_back("[");
          t.push_back(fmt("%zu", g.size));
          t.emplace_back("]");
        }
        t.push_back(g.name);
        t.emplace_back("=");
        t.emplace_back("measure");
        t.push_back(src->name);
        t.emplace_back(";");
        Ref m;
        m.kind = Ref::MEAS;
        for (std::size_t i = 0; i < g.size; i++) {
          m.targets.push_back(src->start + i);
          m.bits.push_back(g.start + i);
        }
        refs.push_back(m);
        events += g.size;
      } else {
        declare(t, g, "bit", "creg", r);
      }
      nb += g.size;
      cregs.push_back(g);
    } else if (st.op == "const" && v3 && consts.size() < 5) {
      Const k;
      k.integer = st.at(1) % 2 == 0;
      k.name = fresh(r, {"a", "theta", "N", "M", "x1", "b"}, taken());
      t.emplace_back("const");
      if (k.integer) {
        t.emplace_back("uint");
        k.v = static_cast<double>(r.below(4));
      } else {
        t.emplace_back("float");
      }
      if (r.chance(0.3)) {
        t.emplace_back("[");
        t.emplace_back(k.integer ? "32" : "64");
        t.emplace_back("]");
      }
      t.push_back(k.name);
      t.emplace_back("=");
      if (k.integer) {
        t.push_back(fmt("%d", static_cast<int>(k.v)));
      } else {
        auto e = expr(r, 2, globalNames());
        guard(e);
        if (e.integer) {
          E one = literal(r, false);
          E m;
          m.op = '*';
          m.k = {one, e};
          e = m;
        }
        render(e, t, 0, r);
        k.v = eval(e, globals);
      }
      t.emplace_back(";");
      globals[k.name] = k.v;
      consts.push_back(k);
      c.count("stmt.const");
    } else if (st.op == "gate") {
      auto g = std::make_shared<Gate>();
      g->user = true;
      g->name = fresh(r, {"majority", "G", "my_gate", "foo1", "U_2", "_g"},
                      taken());
      const std::size_t n = 1 + r.below(3);
      std::set<std::string> used{g->name};
      for (const auto& k : gates) {
        used.insert(k->name);
      }
      g->np = r.below(3);
      for (std::size_t i = 0; i < g->np; i++) {
        g->params.push_back(
            fresh(r, {"a", "theta", "b", "N", "phi_1", "x1"}, used));
        used.insert(g->params.back());
      }
      for (std::size_t i = 0; i < n; i++) {
        g->qubits.push_back(fresh(r, {"q", "r", "a", "c", "tgt", "b"}, used));
        used.insert(g->qubits.back());
      }
      Names names;
      for (const auto& k : consts) {
        if (used.count(k.name) == 0) {
          names.emplace_back(k.name, k.integer);
        }
      }
      for (const auto& k : g->params) {
        names.emplace_back(k, false);
      }
      t.emplace_back("gate");
      t.push_back(g->name);
      if (g->np > 0 || r.chance(0.05)) {
        if (g->np > 0) {
          t.emplace_back("(");
          for (std::size_t i = 0; i < g->np; i++) {
            if (i > 0) {
              t.emplace_back(",");
            }
            t.push_back(g->params[i]);
          }
          t.emplace_back(")");
        }
      }
      for (std::size_t i = 0; i < n; i++) {
        if (i > 0) {
          t.emplace_back(",");
        }
        t.push_back(g->qubits[i]);
      }
      t.emplace_back("{");
      const std::size_t len = r.below(4);
      for (std::size_t i = 0; i < len; i++) {
        Call k;
        if (!choose(r, n, k, names, 2)) {
          continue;
        }
        for (auto& e : k.args) {
          guard(e);
        }
        g->depth = std::max(g->depth, k.g->depth + 1);
        modifiers(t, k.mods, r);
        t.push_back(k.g->name);
        arguments(t, k.args, r);
        for (std::size_t j = 0; j < k.ops.size(); j++) {
          if (j > 0) {
            t.emplace_back(",");
          }
          t.push_back(g->qubits[k.ops[j]]);
        }
        t.emplace_back(";");
        g->body.push_back(std::move(k));
        if (r.chance(0.08)) {
          t.emplace_back("barrier");
          t.push_back(g->qubits[r.below(n)]);
          t.emplace_back(";");
        }
      }
      t.emplace_back("}");
      gates.push_back(g);
      c.count("stmt.gate-definition");
    } else if (st.op == "call") {
      if (!call(r, t, refs, true)) {
        return;
      }
    } else if (st.op == "meas" && nb > 0 && room() > 0) {
      if (!measure(r, t)) {
        return;
      }
    } else if (st.op == "reset" && room() > 0) {
      Ref m;
      m.kind = Ref::RESET;
      t.emplace_back("reset");
      if (!hw && r.chance(0.3)) {
        const auto& g = qregs[r.below(qregs.size())];
        if (events + g.size > 6) {
          return;
        }
        t.push_back(g.name);
        for (std::size_t i = 0; i < g.size; i++) {
          m.targets.push_back(g.start + i);
        }
      } else {
        if (events + 1 > 6) {
          return;
        }
        m.targets.push_back(r.below(room()));
        qubit(t, m.targets[0], r);
      }
      events += m.targets.size();
      t.emplace_back(";");
      refs.push_back(m);
      c.count("stmt.reset");
    } else if (st.op == "bar" && room() > 0) {
      t.emplace_back("barrier");
      qubit(t, r.below(room()), r);
      if (!hw && r.chance(0.4)) {
        t.emplace_back(",");
        t.push_back(qregs[r.below(qregs.size())].name);
      }
      t.emplace_back(";");
    } else if (st.op == "if" && nb > 0 && room() > 0) {
      if (!branch(r, t)) {
        return;
      }
    } else if (st.op == "bad" && bad.empty()) {
      if (!spoil(st.at(1), r, t)) {
        return;
      }
      c.count("invalid." + bad);
      badLine = text.size();
    } else {
      return;
    }
    text.push_back(std::move(t));
  }
  void declare(Toks& t, const Reg& g, const char* now, const char* old,
               Rng& r) {
    if (!v3 || (!g.scalar && r.chance(0.3))) {
      t.emplace_back(old);
      t.push_back(g.name);
      t.emplace_back("[");
      t.push_back(fmt("%zu", g.size));
      t.emplace_back("]");
    } else {
      t.emplace_back(now);
      if (!g.scalar) {
        index(t, g.size, r);
      }
      t.push_back(g.name);
    }
    t.emplace_back(";");
    c.count("stmt.register");
  }
  bool measure(Rng& r, Toks& t) {
    Ref m;
    m.kind = Ref::MEAS;
    Toks q;
    Toks b;
    if (!hw && r.chance(0.35)) {
      // whole registers of equal size
      std::vector<std::pair<const Reg*, const Reg*>> ps;
      for (const auto& x : qregs) {
        for (const auto& y : cregs) {
          if (x.size == y.size) {
            ps.emplace_back(&x, &y);
          }
        }
      }
      if (ps.empty()) {
        return false;
      }
      const auto& [x, y] = ps[r.below(ps.size())];
      q.push_back(x->name);
      b.push_back(y->name);
      for (std::size_t i = 0; i < x->size; i++) {
        m.targets.push_back(x->start + i);
        m.bits.push_back(y->start + i);
      }
    } else {
      m.targets.push_back(r.below(room()));
      m.bits.push_back(r.below(nb));
      qubit(q, m.targets[0], r);
      bit(b, m.bits[0], r);
    }
    if (events + m.targets.size() > 6) {
      return false;
    }
    events += m.targets.size();
    auto put = [&](const Toks& x) { t.insert(t.end(), x.begin(), x.end()); };
    if (v3 && r.chance(0.6)) {
      put(b);
      t.emplace_back("=");
      t.emplace_back("measure");
      put(q);
    } else {
      t.emplace_back("measure");
      put(q);
      t.emplace_back("->");
      put(b);
    }
    t.emplace_back(";");
    refs.push_back(m);
    c.count("stmt.measure");
    return true;
  }
  bool branch(Rng& r, Toks& t) {
    Ref k;
    k.cond = true;
    t.emplace_back("if");
    t.emplace_back("(");
    const auto how = v3 ? r.below(8) : 7;
    static const char* const OP[] = {"==", "!=", "<", "<=", ">", ">="};
    static const int SWAPPED[] = {0, 1, 4, 5, 2, 3};
    if (how < 4) {
      k.cstart = r.below(nb);
      k.csize = 1;
      const bool neg = r.chance(0.4);
      k.cval = neg ? 0 : 1;
      if (how == 3) { // compared with a number
        k.cval = r.below(2);
        k.cmp = static_cast<int>(r.below(2));
        const auto v = fmt("%d", static_cast<int>(k.cval));
        if (r.chance(0.3)) {
          t.push_back(v);
          t.emplace_back(OP[SWAPPED[k.cmp]]);
          bit(t, k.cstart, r);
        } else {
          bit(t, k.cstart, r);
          t.emplace_back(OP[k.cmp]);
          t.push_back(v);
        }
      } else {
        if (neg) {
          t.emplace_back("!");
        }
        bit(t, k.cstart, r);
      }
    } else {
      const auto& g = cregs[r.below(cregs.size())];
      k.cstart = g.start;
      k.csize = g.size;
      k.cmp = v3 ? static_cast<int>(r.below(6)) : 0;
      k.cval = r.chance(0.1) ? 9 : r.below(u64{1} << g.size);
      const auto v = fmt("%d", static_cast<int>(k.cval));
      if (v3 && r.chance(0.3)) {
        t.push_back(v);
        t.emplace_back(OP[SWAPPED[k.cmp]]);
        t.push_back(g.name);
      } else {
        t.push_back(g.name);
        t.emplace_back(OP[k.cmp]);
        t.push_back(v);
      }
    }
    t.emplace_back(")");
    auto block = [&](bool negate) {
      std::vector<Ref> rs;
      const bool braces = v3 && r.chance(0.5);
      const std::size_t n = braces ? r.below(3) : 1;
      if (braces) {
        t.emplace_back("{");
      }
      for (std::size_t i = 0; i < n; i++) {
        Toks one;
        if (!call(r, one, rs, true)) {
          return false;
        }
        t.insert(t.end(), one.begin(), one.end());
      }
      if (braces) {
        t.emplace_back("}");
      }
      static const int INV[] = {1, 0, 5, 4, 3, 2};
      for (auto& x : rs) {
        x.cond = true;
        x.cstart = k.cstart;
        x.csize = k.csize;
        x.cval = k.cval;
        x.cmp = negate ? INV[k.cmp] : k.cmp;
        refs.push_back(x);
      }
      return true;
    };
    const auto keep = refs;
    if (!block(false)) {
      refs = keep;
      return false;
    }
    if (v3 && r.chance(0.4)) {
      t.emplace_back("else");
      if (!block(true)) {
        refs = keep;
        return false;
      }
    }
    c.count("stmt.if");
    return true;
  }

  // a statement that no valid program contains
  bool spoil(u64 kind, Rng& r, Toks& t) {
    const std::string q0 = hw ? "$0" : qregs.empty() ? "" : [&] {
      Toks x;
      qubit(x, 0, r);
      std::string s;
      for (const auto& y : x) {
        s += y;
      }
      return s;
    }();
    if (q0.empty()) {
      return false;
    }
    auto put = [&](const char* why, const std::string& s) {
      bad = why;
      t = {s};
      return true;
    };
    const Reg* wide = nullptr;
    for (const auto& g : qregs) {
      if (!g.scalar && g.size > 1) {
        wide = &g;
      }
    }
    switch (kind % 30) {
    case 0:
      return put("unknown-gate", "nosuchgate " + q0 + ";");
    case 1:
      return put("few-parameters", "rx " + q0 + ";");
    case 2:
      return put("many-parameters", "rx(0.1,0.2) " + q0 + ";");
    case 3:
      return !hw && nq > 1 && put("many-operands", "h " + two() + ";");
    case 4:
      return put("few-operands", "cx " + q0 + ";");
    case 5:
      return wide != nullptr &&
             put("index-range",
                 "h " + wide->name + fmt("[%zu];", wide->size));
    case 6:
      return put("duplicate-qubits", "cx " + q0 + "," + q0 + ";");
    case 7:
      return put("unknown-register", "h nosuchreg[0];");
    case 8: {
      const Reg* a = nullptr;
      const Reg* b = nullptr;
      for (const auto& x : qregs) {
        for (const auto& y : qregs) {
          if (!x.scalar && !y.scalar && x.size > 1 && y.size > 1 &&
              x.size != y.size) {
            a = &x;
            b = &y;
          }
        }
      }
      return a != nullptr &&
             put("broadcast-sizes", "cx " + a->name + "," + b->name + ";");
    }
    case 9:
      return !qregs.empty() &&
             put("declared-twice", "qreg " + qregs[0].name + "[2];");
    case 10:
      return !cregs.empty() &&
             put("declared-twice", "creg " + cregs[0].name + "[2];");
    case 11:
      return put("missing-semicolon", "h " + q0 + " barrier " + q0 + ";");
    case 12:
      return put("open-gate", "gate broken x0 { h x0;");
    case 13: {
      for (const auto& x : qregs) {
        for (const auto& y : cregs) {
          if (x.size != y.size) {
            return put("measure-sizes",
                       "measure " + x.name + " -> " + y.name + ";");
          }
        }
      }
      return false;
    }
    case 14:
      return put("unknown-bit", "measure " + q0 + " -> nosuchreg[0];");
    case 15:
      for (const auto& g : gates) {
        if (g->user && !g->lib && g->name != "cu") {
          return put("gate-twice", "gate " + g->name + " x0 { h x0; }");
        }
      }
      return false;
    case 16:
      return put("recursive-gate",
                 "gate again x0 { h x0; again x0; } again " + q0 + ";");
    case 17:
      return put("unknown-name", "rx(nosuchname) " + q0 + ";");
    case 18:
      return put("unknown-condition", "if (nosuchreg == 1) h " + q0 + ";");
    case 19:
      return put("parameter-twice",
                 "gate twice(x0,x0) x1 { rx(x0) x1; }");
    case 20:
      return put("open-comment", "h " + q0 + "; /* never closed");
    case 21:
      return put("stray-character", "h " + q0 + "; ? ");
    case 22:
      return !cregs.empty() &&
             put("bit-range", "measure " + q0 + " -> " + cregs[0].name +
                                  fmt("[%zu];", cregs[0].size));
    case 23:
      return put("version-late", v3 ? "const int late = 1; OPENQASM 3.0;"
                                    : "qreg late[1]; OPENQASM 2.0;");
    case 24:
      return put("controls-missing",
                 v3 ? "ctrl(2) @ x " + q0 + ";" : "ccx " + q0 + ";");
    case 25:
      return put("unknown-qubit",
                 "gate loose x0 { h x1; } loose " + q0 + ";");
    case 26:
      return put("missing-comma", "u2(0.1 0.2) " + q0 + ";");
    case 27:
      return wide != nullptr &&
             put("negative-index", "h " + wide->name + "[-1];");
    case 28:
      return wide != nullptr &&
             put("huge-index", "h " + wide->name + "[18446744073709551616];");
    default:
      return put("open-parenthesis", "rx((0.1) " + q0 + ";");
    }
  }
  std::string two() {
    Rng r(1);
    Toks x;
    qubit(x, 0, r);
    x.emplace_back(",");
    qubit(x, 1, r);
    std::string s;
    for (const auto& y : x) {
      s += y;
    }
    return s;
  }

  // ------------------------------------------------------------- text
  static std::string join(const Toks& t, Rng& r, u64 style) {
    std::string s;
    for (std::size_t i = 0; i < t.size(); i++) {
      if (i > 0) {
        const char a = t[i - 1].back();
        const char b = t[i][0];
        // (what follows a word or number must not become part of it)
        const bool must =
            (wordy(a) && wordy(b)) || (a == '/' && b == '/') ||
            (a == '-' && b == '-') || (a == '*' && b == '*') ||
            (a == '/' && b == '*') || (a == '-' && b == '>') ||
            (a == '<' && b == '-') || (a == '=' && b == '=') ||
            (a == '!' && b == '=');
        s += a == '/' ? std::string(" ") : gap(r, style, must);
      }
      s += t[i];
    }
    return s;
  }
  static std::string gap(Rng& r, u64 style, bool must) {
    const double x = r.unit();
    if (style == 0) { // as people write
      return must || x < 0.7 ? " " : "";
    }
    if (style == 1) { // dense
      return must ? " " : "";
    }
    if (x < 0.3) {
      return must ? " " : "";
    }
    if (x < 0.5) {
      return " ";
    }
    if (x < 0.6) {
      return "\n";
    }
    if (x < 0.7) {
      return " \t ";
    }
    if (x < 0.78) {
      return "\r\n";
    }
    static const char* const NOTE[] = {
        "h q[0];", "",  "note 3",       "* / \"", "x ; }",   "pi 2",
        "i",       "o", "measure it 1", "0 1 2",  "{ gate ", "two 1 0"};
    const std::string n = NOTE[r.below(12)];
    if (x < 0.9) {
      return "/*" + (n == "* / \"" ? std::string("* /") : n) + "*/";
    }
    return "// " + n + "\n";
  }

  struct Effect {
    bool known = false;
    std::map<u64, Mat> rho;
    Vec v;
  };
  Effect effect(const std::vector<Ref>& rs, u64 seed, bool pure) const {
    Effect e;
    Rng r(seed);
    Vec v(std::size_t{1} << nq, 0);
    double norm = 0;
    for (auto& x : v) {
      x = cplx(r.unit() - 0.5, r.unit() - 0.5);
      norm += std::norm(x);
    }
    for (auto& x : v) {
      x /= std::sqrt(norm);
    }
    std::vector<std::size_t> pos(nq);
    for (std::size_t i = 0; i < nq; i++) {
      pos[i] = i;
    }
    const auto bs = circ::enumerate(rs, v, pos);
    if (bs.empty()) {
      return e;
    }
    e.known = true;
    if (pure) {
      e.v = bs[0].v;
      return e;
    }
    for (const auto& x : bs) {
      auto& m = e.rho.try_emplace(x.bits, Mat(v.size())).first->second;
      for (std::size_t a = 0; a < v.size(); a++) {
        for (std::size_t b = 0; b < v.size(); b++) {
          m.at(a, b) += x.p * x.v[a] * std::conj(x.v[b]);
        }
      }
    }
    return e;
  }
  static double distance(const Effect& a, const Effect& b) {
    double d = 0;
    for (std::size_t i = 0; i < a.v.size(); i++) {
      d = std::max(d, std::abs(a.v[i] - b.v[i]));
    }
    auto side = [&](const Effect& x, const Effect& y) {
      for (const auto& [k, m] : x.rho) {
        const auto it = y.rho.find(k);
        for (std::size_t i = 0; i < m.a.size(); i++) {
          d = std::max(d, std::abs(m.a[i] - (it == y.rho.end()
                                                 ? cplx(0)
                                                 : it->second.a[i])));
        }
      }
    };
    side(a, b);
    side(b, a);
    return d;
  }
  static bool unitary(const std::vector<Ref>& rs) {
    return std::none_of(rs.begin(), rs.end(), [](const Ref& r) {
      return r.kind == Ref::MEAS || r.kind == Ref::RESET || r.cond;
    });
  }

  void judge(const qc::QuantumComputation& q) {
    // integer constants are imported along with a classical register, which
    // nothing reads or writes
    std::vector<std::pair<std::size_t, std::size_t>> unused;
    std::size_t extra = 0;
    for (const auto& k : consts) {
      const auto it = q.getClassicalRegisters().find(k.name);
      if (it != q.getClassicalRegisters().end()) {
        unused.emplace_back(it->second.getStartIndex(), it->second.getSize());
        extra += it->second.getSize();
      }
    }
    const auto bitOf = [&](std::size_t b) {
      std::size_t before = 0;
      for (const auto& [at, n] : unused) {
        if (b >= at + n) {
          before += n;
        } else if (b >= at) {
          c.fail(id + "/wrong-meaning", "an operation uses bit %zu, which "
                 "belongs to a constant", b);
        }
      }
      return b - before;
    };
    if (q.getNqubits() != nq || q.getNcbits() != nb + extra) {
      c.fail(id + "/wrong-size",
             "a program on %zu qubits and %zu bits is imported with %zu and "
             "%zu (%zu of them for constants)",
             nq, nb, q.getNqubits(), q.getNcbits(), extra);
    }
    for (const auto& g : qregs) {
      const auto it = q.getQuantumRegisters().find(g.name);
      if (it == q.getQuantumRegisters().end() ||
          it->second.getSize() != g.size ||
          it->second.getStartIndex() != g.start) {
        c.fail(id + "/wrong-register", "quantum register %s[%zu] is lost",
               g.name.c_str(), g.size);
      }
    }
    for (const auto& g : cregs) {
      const auto it = q.getClassicalRegisters().find(g.name);
      if (it == q.getClassicalRegisters().end() ||
          it->second.getSize() != g.size ||
          bitOf(it->second.getStartIndex()) != g.start) {
        c.fail(id + "/wrong-register", "classical register %s[%zu] is lost",
               g.name.c_str(), g.size);
      }
    }
    for (const auto& [p, l] : q.initialLayout) {
      if (p != l) {
        c.fail(id + "/wrong-layout",
               "a program without layout is imported with qubit %u at %u",
               unsigned(l), unsigned(p));
      }
    }
    std::vector<Ref> got;
    try {
      got = circ::refsOf(q);
    } catch (const std::exception& e) {
      c.fail(id + "/malformed", "the imported circuit is malformed: %s",
             e.what());
    }
    for (auto& o : got) {
      for (auto& b : o.bits) {
        b = bitOf(b);
      }
      if (o.cond) {
        o.cstart = bitOf(o.cstart);
      }
    }
    const bool pure = unitary(refs) && unitary(got);
    for (u64 s = 0; s < 2; s++) {
      const auto x = effect(refs, 31 + s, pure);
      const auto y = effect(got, 31 + s, pure);
      if (!x.known || !y.known) {
        c.count("skip.branches");
        return;
      }
      const double d = distance(x, y);
      if (!(d < 1e-7)) {
        for (const auto& g : refs) {
          c.ev("written %s on %zu", g.desc.c_str(), g.targets.size());
        }
        for (const auto& g : got) {
          c.ev("imported %s", g.desc.c_str());
        }
        c.fail(id + "/wrong-meaning",
               "the imported circuit is off by %.3g from what the program says",
               d);
      }
    }
    c.count("meaning-compared");
    if (refs.size() > 1) {
      c.nontrivial = true;
    }
  }

  void run() {
    builtinCount = gates.size();
    disk::reset();
    std::vector<const Step*> loads;
    for (const auto& st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      if (st.op == "load") {
        loads.push_back(&st);
        continue;
      }
      c.steps++;
      statement(st);
    }
    // the program and the file it includes
    Rng r(plan.knob("text", 1));
    const u64 style = plan.knob("style", 0) % 3;
    std::string head;
    const u64 ver = plan.knob("version", 0) % 4;
    if (!v3) {
      head = "OPENQASM 2.0;\n";
    } else if (ver == 1) {
      head = "OPENQASM 3.0;\n";
    } else if (ver == 2) {
      head = "OPENQASM 3.1;\n";
    } else if (ver == 3) {
      head = "OPENQASM 3;\n";
    }
    if (lib) {
      head += "include \"qelib1.inc\";\n";
    } else if (plan.knob("version", 0) / 4 % 2 == 0) {
      head += v3 ? "include \"stdgates.inc\";\n" : "";
    }
    std::size_t from = plan.knob("from", 0) % (text.size() + 1);
    std::size_t len = plan.knob("inc", 0) % (text.size() + 2);
    const std::size_t to = std::min(text.size(), from + len);
    std::string inc;
    std::string data = head;
    for (std::size_t i = 0; i <= text.size(); i++) {
      if (len > 0 && i == from) {
        data += "include \"/simdisk/part.inc\";\n";
      }
      if (i == text.size()) {
        break;
      }
      if (bad == "open-comment" && i == badLine) {
        (i >= from && i < to ? inc : data) += text[i][0];
        break;
      }
      const auto line = join(text[i], r, style) +
                        (style == 1 ? std::string()
                                    : gap(r, style, false) + "\n");
      (i >= from && i < to ? inc : data) += line;
    }
    if (!inc.empty()) {
      c.count("included-file");
    }
    c.count(v3 ? "programs.openqasm3" : "programs.openqasm2");
    c.cover(mix(text.size()) ^ mix(refs.size() + 77) ^
            mix(gates.size() * 8 + consts.size()));
    if (c.verbose) {
      std::istringstream is(data + "---- included\n" + inc);
      for (std::string l; std::getline(is, l);) {
        c.ev("| %s", l.c_str());
      }
    }
    c.feed(data.data(), data.size());
    for (const auto* st : loads) {
      load(data, inc, *st);
    }
    load(data, inc, {"load", {0, 0}, ""});
  }

  void load(const std::string& data0, const std::string& inc0,
            const Step& st) {
    static const char* const KINDS[] = {"none",      "short",      "fail-at",
                                        "fail-once", "close-err",  "open-err",
                                        "intr",      "truncated",  "allocation"};
    const u64 kind = st.at(0) % 9;
    const u64 arg = st.at(1);
    std::string data = data0;
    std::string inc = inc0;
    u64 at = arg % (data.size() + inc.size() + 1);
    bool cut = false;
    if (kind == 7) {
      const bool which = !inc.empty() && (arg >> 26) % 2 == 0;
      auto& f = which ? inc : data;
      f.resize(arg % (f.size() + 1));
      cut = true;
    }
    disk::put("/simdisk/prog.qasm", data);
    disk::put("/simdisk/part.inc", inc);
    bool fired = false;
    bool threw = false;
    std::string how;
    std::unique_ptr<qc::QuantumComputation> q;
    if (kind == 8) {
      arena::arm(1 + arg % 4000);
    } else {
      disk::set({kind == 7 ? disk::NONE : static_cast<disk::Kind>(kind), at,
                 arg});
    }
    try {
      SutScope sut;
      q = std::make_unique<qc::QuantumComputation>(
          qasm3::Importer::importf("/simdisk/prog.qasm"));
    } catch (const std::exception& ex) {
      threw = true;
      NoFault nf;
      how = ex.what();
    }
    if (kind == 8) {
      fired = arena::disarm();
      c.count(fired ? "fault.allocation" : "fault.allocation-unreached");
    } else {
      fired = disk::fired();
      if (kind == 7) {
        c.count("fault.truncated-file");
      } else if (kind != 0 && (fired || disk::calls() > 0)) {
        c.count(std::string("fault.read-") + KINDS[kind]);
      }
      disk::set({});
    }
    c.ev("import %zu+%zu bytes: %s at %llu fired %d threw %d %s", data.size(),
         inc.size(), KINDS[kind], (unsigned long long)at, fired ? 1 : 0,
         threw ? 1 : 0, how.substr(0, 80).c_str());
    c.cover(mix(kind * 4 + (threw ? 1 : 0)) ^ mix(at / 32 + 3));
    if (disk::openFiles() != 0) {
      c.fail(id + "/file-left-open", "importf left a file open");
    }
    if (threw) {
      c.count(bad.empty() ? "import-refused" : "invalid-refused");
      if (!fired && !cut && bad.empty()) {
        c.fail(id + "/refused", "a valid program is refused: %s", how.c_str());
      }
      return;
    }
    if (fired && kind != 8 && kind != disk::CLOSE_ERR) {
      c.fail(id + "/read-error-hidden",
             "importing succeeded although the disk failed (%s)", KINDS[kind]);
    }
    if (cut || (kind == 8 && fired)) {
      // (a cut program can be valid; streams swallow failed allocations)
      return;
    }
    if (!bad.empty()) {
      c.fail(id + "/accepted:" + bad, "an invalid program (%s) is accepted",
             bad.c_str());
    }
    judge(*q);
  }
};
void run18(const Plan& p, Ctx& c) { S18(c, p).run(); }

Plan gen18(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P18";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  const bool v3 = r.chance(0.7);
  const bool hw = v3 && r.chance(0.08);
  knob("v3", v3 ? 1 : 0);
  knob("hw", hw ? 1 : 0);
  knob("nq", r.below(4));
  knob("nb", r.below(5));
  knob("lib", r.chance(0.3) ? 1 : 0);
  knob("version", r.below(8));
  knob("text", r.next() >> 30);
  knob("style", r.chance(0.5) ? 0 : r.below(3));
  const bool inc = r.chance(0.3);
  knob("from", inc ? r.below(12) : 0);
  knob("inc", inc ? 1 + r.below(6) : 0);
  auto stmt = [&](const char* n) { p.add(n, {r.next() >> 4, r.next() >> 40}); };
  for (u64 i = 0; i < 1 + r.below(3); i++) {
    stmt("qreg");
  }
  const bool meas = r.chance(0.6);
  for (u64 i = 0; meas && i < 1 + r.below(3); i++) {
    stmt("creg");
  }
  const bool consts = r.chance(0.5);
  const bool defs = r.chance(0.6);
  const u64 n = r.chance(0.2) ? 1 + r.below(2) : 2 + r.below(10);
  const u64 badAt = r.chance(0.2) ? r.below(n) : n;
  for (u64 i = 0; i < n; i++) {
    if (i == badAt) {
      p.add("bad", {r.next() >> 4, r.below(30)});
    }
    const double x = r.unit();
    if (x < 0.12 && consts) {
      stmt("const");
    } else if (x < 0.3 && defs) {
      stmt("gate");
    } else if (x < 0.65 || !meas) {
      stmt("call");
    } else if (x < 0.78) {
      stmt("meas");
    } else if (x < 0.82) {
      stmt("reset");
    } else if (x < 0.85) {
      stmt("bar");
    } else if (x < 0.95) {
      stmt("if");
    } else if (x < 0.97) {
      stmt("qreg");
    } else {
      stmt("creg");
    }
  }
  for (u64 i = 0; i < r.below(4); i++) {
    p.add("load", {r.below(9), r.next() >> 30});
  }
  return p;
}
const Register r18("P18", gen18, run18, 30);
} // namespace
