// Shared parts of the concrete replay harnesses: seeded generators of terms,
// an independent evaluator, and failure reporting.  Compiled against the
// sources in /repo on every run.
#pragma once
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "dreal/symbolic/symbolic.h"

namespace h {
using namespace dreal;  // NOLINT
using dreal::drake::symbolic::ExpressionKind;
using dreal::drake::symbolic::FormulaKind;
typedef long double ld;

// ---------------------------------------------------------------- RNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
    for (int i = 0; i < 4; ++i) next();
  }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return static_cast<int>(next() % n); }
  bool coin(int num = 1, int den = 2) { return below(den) < num; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(static_cast<int>(v.size()))];
  }
};

// ---------------------------------------------------------------- reporting
extern uint64_t g_seed;
extern long g_iter;
extern std::string g_stage;
// A property that exercises a listed known finding names it here before the
// call: the name, and the text and the function of the failing assertion.
extern std::string g_known, g_known_assert, g_known_function;
extern long g_checks;
struct Failure {
  std::string what;
};
[[noreturn]] inline void fail(const std::string& s) { throw Failure{s}; }
template <typename T>
std::string str(const T& t) {
  std::ostringstream o;
  o.precision(17);
  o << t;
  return o.str();
}

// ---------------------------------------------------------------- variables
struct Pool {
  std::vector<Variable> real, ints, bools, bins;
  std::vector<Variable> num;  // real + ints
  Pool() {
    for (const char* n : {"x", "y", "z", "w"})
      real.emplace_back(n, Variable::Type::CONTINUOUS);
    for (const char* n : {"i", "j"})
      ints.emplace_back(n, Variable::Type::INTEGER);
    for (const char* n : {"p", "q", "r", "s"})
      bools.emplace_back(n, Variable::Type::BOOLEAN);
    bins.emplace_back("b0", Variable::Type::BINARY);
    num = real;
    num.insert(num.end(), ints.begin(), ints.end());
  }
};
inline const Pool& pool() {
  static const Pool p;
  return p;
}

// ---------------------------------------------------------------- values
// v with absolute error bound err; err == 0 means exactly v.
struct Val {
  enum S { OK, UNDEF, UNK } s{OK};
  ld v{0};
  ld err{0};
  bool exact() const { return s == OK && err == 0; }
};
inline Val undef() {
  Val r;
  r.s = Val::UNDEF;
  return r;
}
inline Val unk() {
  Val r;
  r.s = Val::UNK;
  return r;
}
inline bool dyadic(ld v) {
  return std::fabs(v) < 1073741824.0L &&
         v * 1048576.0L == std::floor(v * 1048576.0L);
}
inline Val mk(ld v, ld err) {
  if (!(std::fabs(v) < 1e60L) || !(err < 1e50L)) return unk();
  Val r;
  r.v = v;
  r.err = err;
  if (err == 0 && !dyadic(v)) r.err = 1e-13L * (std::fabs(v) + 1e-3L);
  return r;
}
inline Val constant(ld v) { return mk(v, 0); }
typedef std::function<ld(ld)> F1;
inline Val fn1(const F1& f, const Val& a, bool exact_ok = false) {
  const ld v = f(a.v);
  if (std::isinf(v)) return unk();
  if (std::isnan(v)) return undef();
  if (a.err == 0) {
    if (exact_ok && dyadic(v)) return mk(v, 0);
    return mk(v, 1e-13L * (1 + std::fabs(v)));
  }
  const ld p = f(a.v + a.err), m = f(a.v - a.err);
  if (std::isnan(p) || std::isinf(p) || std::isnan(m) || std::isinf(m))
    return unk();
  return mk(v, 2 * std::max(std::fabs(p - v), std::fabs(m - v)) +
                   1e-13L * (1 + std::fabs(v)));
}
inline Val vadd(const Val& a, const Val& b) {
  if (a.s != Val::OK) return a;
  if (b.s != Val::OK) return b;
  return mk(a.v + b.v, (a.err == 0 && b.err == 0)
                           ? 0
                           : a.err + b.err +
                                 1e-13L * (std::fabs(a.v) + std::fabs(b.v)));
}
inline Val vmul(const Val& a, const Val& b) {
  if (a.s != Val::OK) return a;
  if (b.s != Val::OK) return b;
  if (a.err == 0 && b.err == 0) {
    const ld v = a.v * b.v;
    return dyadic(v) ? mk(v, 0) : mk(v, 1e-13L * (1e-3L + std::fabs(v)));
  }
  return mk(a.v * b.v, std::fabs(a.v) * b.err + std::fabs(b.v) * a.err +
                           a.err * b.err + 1e-13L * std::fabs(a.v * b.v));
}
inline Val vdiv(const Val& a, const Val& b) {
  if (a.s != Val::OK) return a;
  if (b.s != Val::OK) return b;
  if (b.err == 0 && b.v == 0) return undef();
  if (std::fabs(b.v) <= 2 * b.err) return unk();
  const ld v = a.v / b.v;
  if (a.err == 0 && b.err == 0) {
    if (dyadic(v) && v * b.v == a.v) return mk(v, 0);
    return mk(v, 1e-13L * (1e-3L + std::fabs(v)));
  }
  return mk(v, 2 * (a.err + std::fabs(v) * b.err) / std::fabs(b.v) +
                   1e-13L * (1e-3L + std::fabs(v)));
}
inline Val vpow(const Val& a, const Val& b) {
  if (a.s != Val::OK) return a;
  if (b.s != Val::OK) return b;
  if (b.err == 0 && b.v == std::floor(b.v)) {
    if (std::fabs(b.v) > 64) return unk();
    const int n = static_cast<int>(b.v);
    if (n == 0) return mk(1, 0);
    if (n < 0 && a.err == 0 && a.v == 0) return unk();  // infinity
    if (n < 0 && std::fabs(a.v) <= 2 * a.err) return unk();
    Val r = mk(1, 0);
    for (int k = 0; k < std::abs(n); ++k) r = vmul(r, a);
    return n > 0 ? r : vdiv(mk(1, 0), r);
  }
  if (b.err != 0 && !(a.v > 2 * a.err)) return unk();
  if (a.err == 0 && a.v == 0) return b.v > 0 ? mk(0, 0) : unk();
  if (a.err == 0 ? a.v < 0 : a.v < -a.err) return undef();
  if (a.v <= 2 * a.err) return unk();
  const ld v = std::pow(a.v, b.v);
  if (a.err == 0 && b.err == 0) {
    if (dyadic(v) && b.v * 2 == std::floor(b.v * 2) &&
        std::pow(v, 1 / b.v) == a.v)
      return mk(v, 1e-16L * v);
    return mk(v, 1e-13L * (1e-3L + v));
  }
  const ld e = std::fabs(v) * (std::fabs(b.v) * a.err / a.v +
                               std::fabs(std::log(a.v)) * b.err) * 4;
  return mk(v, e + 1e-13L * (1e-3L + v));
}
inline Val vlog(const Val& a) {
  if (a.s != Val::OK) return a;
  if (a.v + a.err < 0) return undef();
  if (a.v <= 2 * a.err) return unk();
  return fn1([](ld x) { return std::log(x); }, a, a.v == 1);
}
inline Val vsqrt(const Val& a) {
  if (a.s != Val::OK) return a;
  if (a.v + a.err < 0) return undef();
  if (a.err == 0 && a.v == 0) return mk(0, 0);
  if (a.v <= 2 * a.err) return unk();
  const ld v = std::sqrt(a.v);
  if (a.err == 0 && dyadic(v) && v * v == a.v) return mk(v, 0);
  return fn1([](ld x) { return std::sqrt(x); }, a);
}
inline Val vunary(const F1& f, const Val& a, bool zero_exact = false) {
  if (a.s != Val::OK) return a;
  return fn1(f, a, zero_exact && a.v == 0);
}
inline Val vabs(const Val& a) {
  if (a.s != Val::OK) return a;
  return mk(std::fabs(a.v), a.err);
}
inline Val vasin(const Val& a, bool acos) {
  if (a.s != Val::OK) return a;
  if (std::fabs(a.v) - a.err > 1) return undef();
  if (a.err != 0 && std::fabs(a.v) + 2 * a.err >= 1) return unk();
  return fn1([acos](ld x) { return acos ? std::acos(x) : std::asin(x); }, a,
             acos ? a.v == 1 : a.v == 0);
}
inline Val vtan(const Val& a) {
  if (a.s != Val::OK) return a;
  if (std::fabs(std::cos(a.v)) < 1e-3L) return unk();
  return fn1([](ld x) { return std::tan(x); }, a, a.v == 0);
}
inline Val vatan2(const Val& a, const Val& b) {
  if (a.s != Val::OK) return a;
  if (b.s != Val::OK) return b;
  const ld r = std::hypot(a.v, b.v);
  if (r == 0 && a.err == 0 && b.err == 0) return unk();
  const ld e = a.err + b.err;
  if (r <= 4 * e) return unk();
  if (b.v - 2 * e < 0 && std::fabs(a.v) <= 2 * e && e > 0) return unk();
  if (b.v < 0 && a.v == 0) return unk();  // sign of zero
  return mk(std::atan2(a.v, b.v), 4 * e / r + 1e-13L);
}
inline Val vmin(const Val& a, const Val& b, bool mx) {
  if (a.s != Val::OK) return a;
  if (b.s != Val::OK) return b;
  if (a.err == 0 && b.err == 0)
    return mk(mx ? std::max(a.v, b.v) : std::min(a.v, b.v), 0);
  return mk(mx ? std::max(a.v, b.v) : std::min(a.v, b.v),
            std::max(a.err, b.err));
}
inline bool close(const Val& a, const Val& b) {
  // Both OK.  True unless the values are certainly different.
  if (a.err == 0 && b.err == 0) return a.v == b.v;
  return std::fabs(a.v - b.v) <=
         100 * (a.err + b.err) + 1e-9L * (1 + std::fabs(a.v));
}
inline bool far(const Val& a, const Val& b) {
  return a.s == Val::OK && b.s == Val::OK && !close(a, b);
}

// ---------------------------------------------------------------- truth
enum Tri { F_ = 0, T_ = 1, U_ = 2 };  // U_: undefined or undecided
inline Tri tnot(Tri a) { return a == U_ ? U_ : (a == T_ ? F_ : T_); }

enum Rel { EQ, NE, GT, GE, LT, LE };
inline Tri compare(Rel r, const Val& a, const Val& b) {
  if (a.s != Val::OK || b.s != Val::OK) return U_;
  if (a.err != 0 || b.err != 0) {
    const ld d = std::fabs(a.v - b.v);
    if (d <= 100 * (a.err + b.err) + 1e-9L * (1 + std::fabs(a.v))) return U_;
  }
  bool t = false;
  switch (r) {
    case EQ: t = a.v == b.v; break;
    case NE: t = a.v != b.v; break;
    case GT: t = a.v > b.v; break;
    case GE: t = a.v >= b.v; break;
    case LT: t = a.v < b.v; break;
    case LE: t = a.v <= b.v; break;
  }
  return t ? T_ : F_;
}

// Assignment: numeric and Boolean variables by id.
struct Asg {
  std::map<Variable::Id, ld> num;
  std::map<Variable::Id, bool> boo;
  std::string show(const Variables& vs) const {
    std::ostringstream o;
    o << "{";
    for (const Variable& v : vs) {
      if (v.get_type() == Variable::Type::BOOLEAN) {
        auto it = boo.find(v.get_id());
        o << v << "=" << (it == boo.end() ? "?" : it->second ? "T" : "F");
      } else {
        auto it = num.find(v.get_id());
        o << v << "=";
        if (it == num.end())
          o << "?";
        else
          o << static_cast<double>(it->second);
      }
      o << " ";
    }
    o << "}";
    return o.str();
  }
};
inline Asg random_asg(Rng* g) {
  static const std::vector<double> vals = {0,  1,   -1,   2,   -2,   3,
                                           -3, 0.5, -0.5, 1.5, 0.25, 4};
  Asg a;
  for (const Variable& v : pool().real) a.num[v.get_id()] = g->pick(vals);
  for (const Variable& v : pool().ints) a.num[v.get_id()] = g->below(7) - 3;
  for (const Variable& v : pool().bins) a.num[v.get_id()] = g->below(2);
  for (const Variable& v : pool().bools) a.boo[v.get_id()] = g->coin();
  return a;
}
inline Environment to_env(const Asg& a, const Variables& vs) {
  Environment e;
  for (const Variable& v : vs) {
    if (v.get_type() == Variable::Type::BOOLEAN)
      e.insert(v, a.boo.at(v.get_id()) ? 1.0 : 0.0);
    else
      e.insert(v, static_cast<double>(a.num.at(v.get_id())));
  }
  return e;
}

// Independent evaluator of terms built by the library.
// Quantifiers range over the finite sample domain given by `domain`.
struct Eval {
  // If strict, an undefined sub-term anywhere makes the result undefined.
  bool strict{true};
  // Additional sample points for variables of a quantifier.
  std::function<std::vector<ld>(const Variable&, const Formula&, const Asg&)>
      domain;
  long budget{200000};
  // Quantified variables with an id above this are assigned last, in
  // descending order of their ids.
  uint64_t desc_from{~0ull};

  Val ev(const Expression& e, const Asg& a) {
    if (--budget < 0) return unk();
    switch (e.get_kind()) {
      case ExpressionKind::Constant:
        return constant(get_constant_value(e));
      case ExpressionKind::RealConstant: {
        const ld lb = get_lb_of_real_constant(e);
        const ld ub = get_ub_of_real_constant(e);
        return mk((lb + ub) / 2, (ub - lb) / 2 + 1e-18L);
      }
      case ExpressionKind::Var: {
        auto it = a.num.find(get_variable(e).get_id());
        return it == a.num.end() ? unk() : constant(it->second);
      }
      case ExpressionKind::Add: {
        Val r = constant(get_constant_in_addition(e));
        for (const auto& p : get_expr_to_coeff_map_in_addition(e))
          r = vadd(r, vmul(constant(p.second), ev(p.first, a)));
        return r;
      }
      case ExpressionKind::Mul: {
        Val r = constant(get_constant_in_multiplication(e));
        for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
          r = vmul(r, vpow(ev(p.first, a), ev(p.second, a)));
        return r;
      }
      case ExpressionKind::Div:
        return vdiv(ev(get_first_argument(e), a), ev(get_second_argument(e), a));
      case ExpressionKind::Log:
        return vlog(ev(get_argument(e), a));
      case ExpressionKind::Abs:
        return vabs(ev(get_argument(e), a));
      case ExpressionKind::Exp:
        return vunary([](ld x) { return std::exp(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Sqrt:
        return vsqrt(ev(get_argument(e), a));
      case ExpressionKind::Pow:
        return vpow(ev(get_first_argument(e), a), ev(get_second_argument(e), a));
      case ExpressionKind::Sin:
        return vunary([](ld x) { return std::sin(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Cos:
        return vunary([](ld x) { return std::cos(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Tan:
        return vtan(ev(get_argument(e), a));
      case ExpressionKind::Asin:
        return vasin(ev(get_argument(e), a), false);
      case ExpressionKind::Acos:
        return vasin(ev(get_argument(e), a), true);
      case ExpressionKind::Atan:
        return vunary([](ld x) { return std::atan(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Atan2:
        return vatan2(ev(get_first_argument(e), a),
                      ev(get_second_argument(e), a));
      case ExpressionKind::Sinh:
        return vunary([](ld x) { return std::sinh(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Cosh:
        return vunary([](ld x) { return std::cosh(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Tanh:
        return vunary([](ld x) { return std::tanh(x); }, ev(get_argument(e), a),
                      true);
      case ExpressionKind::Min:
        return vmin(ev(get_first_argument(e), a), ev(get_second_argument(e), a),
                    false);
      case ExpressionKind::Max:
        return vmin(ev(get_first_argument(e), a), ev(get_second_argument(e), a),
                    true);
      case ExpressionKind::IfThenElse: {
        const Tri c = tr(get_conditional_formula(e), a);
        if (c == U_) return unk();
        if (strict) {
          const Val t = ev(get_then_expression(e), a);
          const Val f = ev(get_else_expression(e), a);
          if (t.s != Val::OK) return t;
          if (f.s != Val::OK) return f;
          return c == T_ ? t : f;
        }
        return ev(c == T_ ? get_then_expression(e) : get_else_expression(e), a);
      }
      default:
        return unk();
    }
  }
  Tri tr(const Formula& f, const Asg& a) {
    if (--budget < 0) return U_;
    switch (f.get_kind()) {
      case FormulaKind::False:
        return F_;
      case FormulaKind::True:
        return T_;
      case FormulaKind::Var: {
        auto it = a.boo.find(get_variable(f).get_id());
        return it == a.boo.end() ? U_ : (it->second ? T_ : F_);
      }
      case FormulaKind::Eq:
      case FormulaKind::Neq:
      case FormulaKind::Gt:
      case FormulaKind::Geq:
      case FormulaKind::Lt:
      case FormulaKind::Leq: {
        Rel r = EQ;
        if (f.get_kind() == FormulaKind::Neq) r = NE;
        if (f.get_kind() == FormulaKind::Gt) r = GT;
        if (f.get_kind() == FormulaKind::Geq) r = GE;
        if (f.get_kind() == FormulaKind::Lt) r = LT;
        if (f.get_kind() == FormulaKind::Leq) r = LE;
        return compare(r, ev(get_lhs_expression(f), a),
                       ev(get_rhs_expression(f), a));
      }
      case FormulaKind::And: {
        Tri r = T_;
        for (const Formula& g : get_operands(f)) {
          const Tri t = tr(g, a);
          if (t == U_ && strict) return U_;
          if (t == F_)
            r = F_;
          else if (t == U_ && r == T_)
            r = U_;
          if (r == F_ && !strict) return F_;
        }
        return r;
      }
      case FormulaKind::Or: {
        Tri r = F_;
        for (const Formula& g : get_operands(f)) {
          const Tri t = tr(g, a);
          if (t == U_ && strict) return U_;
          if (t == T_)
            r = T_;
          else if (t == U_ && r == F_)
            r = U_;
          if (r == T_ && !strict) return T_;
        }
        return r;
      }
      case FormulaKind::Not:
        return tnot(tr(get_operand(f), a));
      case FormulaKind::Forall: {
        std::vector<Variable> vs;
        for (const Variable& v : get_quantified_variables(f)) vs.push_back(v);
        std::sort(vs.begin(), vs.end(),
                  [this](const Variable& l, const Variable& r) {
                    const bool bl = l.get_id() > desc_from;
                    const bool br = r.get_id() > desc_from;
                    if (bl != br) return br;
                    return bl ? l.get_id() > r.get_id()
                              : l.get_id() < r.get_id();
                  });
        Asg b = a;
        return all(vs, 0, get_quantified_formula(f), &b);
      }
    }
    return U_;
  }
  Tri all(const std::vector<Variable>& vs, size_t k, const Formula& body,
          Asg* b) {
    if (k == vs.size()) return tr(body, *b);
    const Variable& v = vs[k];
    Tri r = T_;
    std::vector<ld> dom;
    switch (v.get_type()) {
      case Variable::Type::BOOLEAN:
      case Variable::Type::BINARY:
        dom = {0, 1};
        break;
      case Variable::Type::INTEGER:
        dom = {-1, 0, 2};
        break;
      default:
        dom = {-1, 0, 0.5L, 2};
    }
    if (domain) {
      const std::vector<ld> extra = domain(v, body, *b);
      dom.insert(dom.end(), extra.begin(), extra.end());
    }
    bool first = true;
    const bool had = v.get_type() == Variable::Type::BOOLEAN
                         ? b->boo.count(v.get_id())
                         : b->num.count(v.get_id());
    const ld oldn = b->num.count(v.get_id()) ? b->num[v.get_id()] : 0;
    const bool oldb = b->boo.count(v.get_id()) ? b->boo[v.get_id()] : false;
    (void)first;
    for (ld d : dom) {
      if (v.get_type() == Variable::Type::BOOLEAN)
        b->boo[v.get_id()] = d != 0;
      else
        b->num[v.get_id()] = d;
      const Tri t = all(vs, k + 1, body, b);
      if (t == U_ && strict) {
        r = U_;
        break;
      }
      if (t == F_)
        r = F_;
      else if (t == U_ && r == T_)
        r = U_;
    }
    if (v.get_type() == Variable::Type::BOOLEAN) {
      if (had)
        b->boo[v.get_id()] = oldb;
      else
        b->boo.erase(v.get_id());
    } else {
      if (had)
        b->num[v.get_id()] = oldn;
      else
        b->num.erase(v.get_id());
    }
    return r;
  }
};
inline Tri truth(const Formula& f, const Asg& a, bool strict = true) {
  Eval e;
  e.strict = strict;
  return e.tr(f, a);
}
inline Val value(const Expression& e, const Asg& a, bool strict = false) {
  Eval v;
  v.strict = strict;
  return v.ev(e, a);
}

// ---------------------------------------------------------------- structure
inline void walk(const Expression& e,
                 const std::function<void(const Expression&)>& fe,
                 const std::function<void(const Formula&)>& ff);
inline void walk(const Formula& f,
                 const std::function<void(const Expression&)>& fe,
                 const std::function<void(const Formula&)>& ff) {
  ff(f);
  switch (f.get_kind()) {
    case FormulaKind::Eq:
    case FormulaKind::Neq:
    case FormulaKind::Gt:
    case FormulaKind::Geq:
    case FormulaKind::Lt:
    case FormulaKind::Leq:
      walk(get_lhs_expression(f), fe, ff);
      walk(get_rhs_expression(f), fe, ff);
      break;
    case FormulaKind::And:
    case FormulaKind::Or:
      for (const Formula& g : get_operands(f)) walk(g, fe, ff);
      break;
    case FormulaKind::Not:
      walk(get_operand(f), fe, ff);
      break;
    case FormulaKind::Forall:
      walk(get_quantified_formula(f), fe, ff);
      break;
    default:
      break;
  }
}
inline bool is_un(const Expression& e) {
  switch (e.get_kind()) {
    case ExpressionKind::Log: case ExpressionKind::Abs:
    case ExpressionKind::Exp: case ExpressionKind::Sqrt:
    case ExpressionKind::Sin: case ExpressionKind::Cos:
    case ExpressionKind::Tan: case ExpressionKind::Asin:
    case ExpressionKind::Acos: case ExpressionKind::Atan:
    case ExpressionKind::Sinh: case ExpressionKind::Cosh:
    case ExpressionKind::Tanh:
      return true;
    default:
      return false;
  }
}
inline bool is_bi(const Expression& e) {
  switch (e.get_kind()) {
    case ExpressionKind::Div: case ExpressionKind::Pow:
    case ExpressionKind::Atan2: case ExpressionKind::Min:
    case ExpressionKind::Max:
      return true;
    default:
      return false;
  }
}
inline void walk(const Expression& e,
                 const std::function<void(const Expression&)>& fe,
                 const std::function<void(const Formula&)>& ff) {
  fe(e);
  if (is_un(e)) {
    walk(get_argument(e), fe, ff);
  } else if (is_bi(e)) {
    walk(get_first_argument(e), fe, ff);
    walk(get_second_argument(e), fe, ff);
  } else if (is_addition(e)) {
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      walk(p.first, fe, ff);
  } else if (is_multiplication(e)) {
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) {
      walk(p.first, fe, ff);
      walk(p.second, fe, ff);
    }
  } else if (is_if_then_else(e)) {
    walk(get_conditional_formula(e), fe, ff);
    walk(get_then_expression(e), fe, ff);
    walk(get_else_expression(e), fe, ff);
  }
}
template <typename T>
bool has_ite(const T& t) {
  bool r = false;
  walk(t, [&](const Expression& e) { r = r || is_if_then_else(e); },
       [](const Formula&) {});
  return r;
}
inline std::set<Variable::Id> free_ids(const Expression& e);
inline std::set<Variable::Id> free_ids(const Formula& f) {
  std::set<Variable::Id> r;
  auto add = [&r](const std::set<Variable::Id>& s) {
    r.insert(s.begin(), s.end());
  };
  switch (f.get_kind()) {
    case FormulaKind::Var:
      r.insert(get_variable(f).get_id());
      break;
    case FormulaKind::Eq: case FormulaKind::Neq: case FormulaKind::Gt:
    case FormulaKind::Geq: case FormulaKind::Lt: case FormulaKind::Leq:
      add(free_ids(get_lhs_expression(f)));
      add(free_ids(get_rhs_expression(f)));
      break;
    case FormulaKind::And: case FormulaKind::Or:
      for (const Formula& g : get_operands(f)) add(free_ids(g));
      break;
    case FormulaKind::Not:
      add(free_ids(get_operand(f)));
      break;
    case FormulaKind::Forall:
      add(free_ids(get_quantified_formula(f)));
      for (const Variable& v : get_quantified_variables(f)) r.erase(v.get_id());
      break;
    default:
      break;
  }
  return r;
}
inline std::set<Variable::Id> free_ids(const Expression& e) {
  std::set<Variable::Id> r;
  auto add = [&r](const std::set<Variable::Id>& s) {
    r.insert(s.begin(), s.end());
  };
  if (is_variable(e)) {
    r.insert(get_variable(e).get_id());
  } else if (is_un(e)) {
    add(free_ids(get_argument(e)));
  } else if (is_bi(e)) {
    add(free_ids(get_first_argument(e)));
    add(free_ids(get_second_argument(e)));
  } else if (is_addition(e)) {
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      add(free_ids(p.first));
  } else if (is_multiplication(e)) {
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) {
      add(free_ids(p.first));
      add(free_ids(p.second));
    }
  } else if (is_if_then_else(e)) {
    add(free_ids(get_conditional_formula(e)));
    add(free_ids(get_then_expression(e)));
    add(free_ids(get_else_expression(e)));
  } else if (is_uninterpreted_function(e)) {
    for (const Variable& v : e.GetVariables()) r.insert(v.get_id());
  }
  return r;
}
inline std::set<Variable::Id> ids(const Variables& vs) {
  std::set<Variable::Id> r;
  for (const Variable& v : vs) r.insert(v.get_id());
  return r;
}
// Independent dump of a term: structure only, built with the accessors.
inline std::string dump(const Expression& e);
inline std::string dump(const Formula& f) {
  std::ostringstream o;
  o << "F" << static_cast<int>(f.get_kind()) << "(";
  switch (f.get_kind()) {
    case FormulaKind::Var:
      o << get_variable(f).get_id();
      break;
    case FormulaKind::Eq: case FormulaKind::Neq: case FormulaKind::Gt:
    case FormulaKind::Geq: case FormulaKind::Lt: case FormulaKind::Leq:
      o << dump(get_lhs_expression(f)) << "," << dump(get_rhs_expression(f));
      break;
    case FormulaKind::And: case FormulaKind::Or: {
      std::set<std::string> s;
      for (const Formula& g : get_operands(f)) s.insert(dump(g));
      for (const std::string& g : s) o << g << ",";
      break;
    }
    case FormulaKind::Not:
      o << dump(get_operand(f));
      break;
    case FormulaKind::Forall: {
      for (auto i : ids(get_quantified_variables(f))) o << i << " ";
      o << ":" << dump(get_quantified_formula(f));
      break;
    }
    default:
      break;
  }
  o << ")";
  return o.str();
}
inline std::string dump(const Expression& e) {
  std::ostringstream o;
  o.precision(17);
  o << "E" << static_cast<int>(e.get_kind()) << "(";
  if (is_constant(e)) {
    o << get_constant_value(e) + 0.0;  // -0 equals 0
  } else if (is_real_constant(e)) {
    o << get_lb_of_real_constant(e) << "," << get_ub_of_real_constant(e) << ","
      << get_constant_value(e);
  } else if (is_variable(e)) {
    o << get_variable(e).get_id();
  } else if (is_un(e)) {
    o << dump(get_argument(e));
  } else if (is_bi(e)) {
    o << dump(get_first_argument(e)) << "," << dump(get_second_argument(e));
  } else if (is_addition(e)) {
    o << get_constant_in_addition(e) + 0.0 << ";";
    std::set<std::string> s;
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      s.insert(str(p.second) + "*" + dump(p.first));
    for (const std::string& g : s) o << g << ",";
  } else if (is_multiplication(e)) {
    o << get_constant_in_multiplication(e) + 0.0 << ";";
    std::set<std::string> s;
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      s.insert(dump(p.first) + "^" + dump(p.second));
    for (const std::string& g : s) o << g << ",";
  } else if (is_if_then_else(e)) {
    o << dump(get_conditional_formula(e)) << ","
      << dump(get_then_expression(e)) << "," << dump(get_else_expression(e));
  } else if (is_uninterpreted_function(e)) {
    o << get_uninterpreted_function_name(e);
    for (auto i : ids(e.GetVariables())) o << "," << i;
  }
  o << ")";
  return o.str();
}

// ---------------------------------------------------------------- generators
struct GenOpt {
  bool ite{true};
  bool forall{true};
  bool fun{true};        // transcendental functions
  bool div{true};        // division, pow, log, sqrt, ...
  bool nonlinear{true};
  bool boolvar{true};
  bool realconst{false};
  bool uf{false};
  int consts{1};         // 0: dyadic constants only
  bool quant_shadow{false};
};
// Constant folding can produce an infinite constant, and two of them NaN, on
// which the code throws as documented: such terms are not used as inputs.
inline bool finite(const Expression& e) {
  bool ok = true;
  walk(e,
       [&ok](const Expression& q) {
         if (is_nan(q)) ok = false;
         if (is_constant(q) && !std::isfinite(get_constant_value(q)))
           ok = false;
         if (is_addition(q)) {
           if (!std::isfinite(get_constant_in_addition(q))) ok = false;
           for (const auto& p : get_expr_to_coeff_map_in_addition(q))
             if (!std::isfinite(p.second)) ok = false;
         }
         if (is_multiplication(q) &&
             !std::isfinite(get_constant_in_multiplication(q)))
           ok = false;
       },
       [](const Formula&) {});
  return ok;
}
struct Gen {
  Rng* g;
  GenOpt o;
  // Terms that were built before, with their depth; used again if `share`.
  bool share;
  std::vector<std::pair<int, Expression>> old_e;
  std::vector<std::pair<int, Formula>> old_f;
  Gen(Rng* rng, const GenOpt& opt)
      : g(rng), o(opt), share{rng->coin(1, 3)} {}
  template <typename T>
  const T* reuse(const std::vector<std::pair<int, T>>& v, int d) {
    if (!share || v.empty() || !g->coin(1, 4)) return nullptr;
    const auto& p = v[g->below(static_cast<int>(v.size()))];
    return p.first <= d ? &p.second : nullptr;
  }
  double c() {
    static const std::vector<double> d = {0,   1,  -1,  2,    -2,  3,   0.5,
                                          -0.5, 4, 1.5, -1.5, 0.25, 5,  -3};
    static const std::vector<double> nd = {0.1, -0.3, 3.7, 1.0 / 3, 12.34};
    if (o.consts && g->coin(1, 12)) return g->pick(nd);
    return g->pick(d);
  }
  Expression leaf() {
    const int k = g->below(10);
    if (k < 7) return g->pick(pool().num);
    if (k == 7 && o.realconst) {
      const double v = c();
      return real_constant(v, std::nextafter(v, 1e9), g->coin());
    }
    if (k == 8 && o.uf) {
      Variables vs;
      for (const Variable& v : pool().real)
        if (g->coin(1, 3)) vs.insert(v);
      return uninterpreted_function(g->coin() ? "uf" : "ug", vs);
    }
    return Expression{c()};
  }
  Expression expr(int d) {
    if (d <= 0 || g->coin(1, 6)) return leaf();
    if (const Expression* e = reuse(old_e, d)) return *e;
    for (int attempt = 0; attempt < 4; ++attempt) {
      try {
        const Expression e{expr1(d)};
        if (!finite(e)) continue;
        if (share) old_e.emplace_back(d, e);
        return e;
      } catch (const std::domain_error&) {
      } catch (const std::runtime_error&) {
      }
    }
    return leaf();
  }
  Expression expr1(int d) {
    int k = g->below(20);
    if (k < 4) return expr(d - 1) + expr(d - 1);
    if (k < 6) return expr(d - 1) - expr(d - 1);
    if (k < 8) return o.nonlinear ? expr(d - 1) * expr(d - 1) : c() * expr(d - 1);
    if (k == 8) return c() * expr(d - 1);
    if (k == 9) return -expr(d - 1);
    if (k < 12) {
      if (o.ite)
        return if_then_else(form(d - 1), expr(d - 1), expr(d - 1));
      return expr(d - 1) + c();
    }
    if (k == 12 && o.nonlinear)
      return pow(expr(d - 1), Expression{static_cast<double>(g->below(4))});
    if (!o.div) return k & 1 ? leaf() : abs(expr(d - 1));
    if (k == 13) return expr(d - 1) / expr(d - 1);
    if (k == 14) {
      switch (g->below(5)) {
        case 0: return pow(expr(d - 1), expr(d - 2));
        case 1: return sqrt(expr(d - 1));
        case 2: return pow(expr(d - 1), Expression{0.5});
        case 3: return pow(expr(d - 1), Expression{-1.0});
        default: return sqrt(pow(expr(d - 1), Expression{2.0}));
      }
    }
    if (k == 15) return g->coin() ? abs(expr(d - 1)) : min(expr(d - 1), expr(d - 1));
    if (k == 16) return max(expr(d - 1), expr(d - 1));
    if (o.fun && k >= 17) return fun(d);
    return expr(d - 1) * c();
  }
  Expression fun(int d) {
    const Expression e = expr(d - 1);
    switch (g->below(12)) {
      case 0: return sin(e);
      case 1: return cos(e);
      case 2: return tan(e);
      case 3: return asin(e);
      case 4: return acos(e);
      case 5: return atan(e);
      case 6: return sinh(e);
      case 7: return cosh(e);
      case 8: return tanh(e);
      case 9: return exp(e);
      case 10: return log(e);
      default: return atan2(e, expr(d - 1));
    }
  }
  Formula rel(int d) {
    const Expression a = expr(d), b = g->coin() ? Expression{c()} : expr(d);
    switch (g->below(6)) {
      case 0: return a == b;
      case 1: return a != b;
      case 2: return a > b;
      case 3: return a >= b;
      case 4: return a < b;
      default: return a <= b;
    }
  }
  Formula atom(int d) {
    if (o.boolvar && g->coin(1, 3)) return Formula{g->pick(pool().bools)};
    if (g->coin(1, 20)) return g->coin() ? Formula::True() : Formula::False();
    return rel(d > 1 ? 1 : d);
  }
  Variables qvars() {
    Variables vs;
    vs.insert(g->pick(pool().num));
    if (g->coin(1, 3)) vs.insert(g->pick(pool().num));
    if (o.boolvar && g->coin(1, 6)) vs.insert(g->pick(pool().bools));
    return vs;
  }
  Formula form(int d) {
    if (d <= 0) return atom(0);
    if (const Formula* f = reuse(old_f, d)) return *f;
    const Formula f{form1(d)};
    if (share) old_f.emplace_back(d, f);
    return f;
  }
  Formula form1(int d) {
    const int k = g->below(16);
    if (k < 3) return atom(d);
    if (k < 5) return form(d - 1) && form(d - 1);
    if (k < 7) return form(d - 1) || form(d - 1);
    if (k < 10) return !form(d - 1);
    if (k == 10) {
      std::set<Formula> s;
      for (int n = 1 + g->below(4); n > 0; --n) s.insert(form(d - 1));
      return make_conjunction(s);
    }
    if (k == 11) {
      std::set<Formula> s;
      for (int n = 1 + g->below(4); n > 0; --n) s.insert(form(d - 1));
      return make_disjunction(s);
    }
    if (k == 12) return imply(form(d - 1), form(d - 1));
    if (k == 13 && d <= 2) return iff(form(d - 1), form(d - 1));
    if (k >= 14 && o.forall) return forall(qvars(), form(d - 1));
    return form(d - 1);
  }
};
inline long size_of(const Formula& f) {
  long n = 0;
  walk(f, [&](const Expression&) { ++n; }, [&](const Formula&) { ++n; });
  return n;
}

// ---------------------------------------------------------------- driver
typedef void (*IterFn)(Rng*);
int drive(int argc, char** argv,
          const std::map<std::string, IterFn>& properties);
}  // namespace h
