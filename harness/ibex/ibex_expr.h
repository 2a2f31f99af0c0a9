// The part of IBEX's interface for expressions, constraints and contractors
// that the checked sources use.  The verifier reads only the declarations; the
// harness executes the definitions given here: an expression can be evaluated
// at a point, given as a value for each symbol.
#pragma once

#include <cmath>
#include <functional>
#include <map>
#include <vector>

#include "ibex.h"  // NOLINT

namespace ibex {

class Dim {
 public:
  static Dim scalar() { return Dim{}; }
};

class ExprCtr;
class ExprNode {
 public:
  using Point = std::map<const ExprNode*, double>;
  using Fn = std::function<double(const Point&)>;
  explicit ExprNode(Fn f) : fn{std::move(f)} {}
  virtual ~ExprNode() {}
  const ExprCtr& operator=(const ExprNode&) const;
  const ExprCtr& operator=(const Interval&) const;
  Fn fn;
};
class ExprSymbol : public ExprNode {
 public:
  using ExprNode::ExprNode;
  static const ExprSymbol& new_(const char*, const Dim&) {
    auto* s = new ExprSymbol(Fn{});
    s->fn = [s](const Point& p) { return p.at(s); };
    return *s;
  }
};
class ExprConstant : public ExprNode {
 public:
  using ExprNode::ExprNode;
  static const ExprConstant& new_scalar(const Interval& x) {
    const double m{x.lb() == x.ub() ? x.lb() : x.lb() / 2 + x.ub() / 2};
    return *new ExprConstant([m](const Point&) { return m; });
  }
};

enum CmpOp { LT, LEQ, EQ, GEQ, GT };
class ExprCtr {
 public:
  ExprCtr(const ExprNode& a, CmpOp o, const ExprNode& b) : e{a}, op{o}, rhs{b} {}
  const ExprNode& e;
  CmpOp op;
  const ExprNode& rhs;
};
inline const ExprNode& number(const Interval& x) {
  return ExprConstant::new_scalar(x);
}
inline const ExprCtr& ExprNode::operator=(const ExprNode& x) const {
  return *new ExprCtr(*this, EQ, x);
}
inline const ExprCtr& ExprNode::operator=(const Interval& x) const {
  return *new ExprCtr(*this, EQ, number(x));
}

#define IBEX_STUB_REL(o, k)                                             \
  inline const ExprCtr& operator o(const ExprNode& a, const ExprNode& b) { \
    return *new ExprCtr(a, k, b);                                       \
  }
IBEX_STUB_REL(<, LT)
IBEX_STUB_REL(<=, LEQ)
IBEX_STUB_REL(>=, GEQ)
IBEX_STUB_REL(>, GT)
#undef IBEX_STUB_REL

#define IBEX_STUB_2(name, expr)                                        \
  inline const ExprNode& name(const ExprNode& a, const ExprNode& b) {  \
    const auto f = a.fn;                                               \
    const auto g = b.fn;                                               \
    return *new ExprNode([f, g](const ExprNode::Point& p) -> double {  \
      const double x{f(p)};                                            \
      const double y{g(p)};                                            \
      return expr;                                                     \
    });                                                                \
  }
#define IBEX_STUB_OP(o)                                                \
  IBEX_STUB_2(operator o, x o y)                                       \
  inline const ExprNode& operator o(const Interval& a, const ExprNode& b) { \
    return number(a) o b;                                              \
  }                                                                    \
  inline const ExprNode& operator o(const ExprNode& a, const Interval& b) { \
    return a o number(b);                                              \
  }
IBEX_STUB_OP(+)
IBEX_STUB_OP(-)
IBEX_STUB_OP(*)
IBEX_STUB_OP(/)
IBEX_STUB_2(max, std::fmax(x, y))
IBEX_STUB_2(min, std::fmin(x, y))
IBEX_STUB_2(atan2, std::atan2(x, y))
IBEX_STUB_2(pow, std::pow(x, y))
inline const ExprNode& pow(const ExprNode& a, int n) {
  return pow(a, number(n));
}
inline const ExprNode& pow(const ExprNode& a, double y) {
  return pow(a, number(y));
}
inline const ExprNode& pow(double x, const ExprNode& b) {
  return pow(number(x), b);
}
#define IBEX_STUB_1(name, expr)                                        \
  inline const ExprNode& name(const ExprNode& a) {                     \
    const auto f = a.fn;                                               \
    return *new ExprNode([f](const ExprNode::Point& p) -> double {     \
      const double x{f(p)};                                            \
      return expr;                                                     \
    });                                                                \
  }
IBEX_STUB_1(operator-, -x)
IBEX_STUB_1(sqr, x* x)
IBEX_STUB_1(sqrt, std::sqrt(x))
IBEX_STUB_1(exp, std::exp(x))
IBEX_STUB_1(log, std::log(x))
IBEX_STUB_1(cos, std::cos(x))
IBEX_STUB_1(sin, std::sin(x))
IBEX_STUB_1(tan, std::tan(x))
IBEX_STUB_1(acos, std::acos(x))
IBEX_STUB_1(asin, std::asin(x))
IBEX_STUB_1(atan, std::atan(x))
IBEX_STUB_1(cosh, std::cosh(x))
IBEX_STUB_1(sinh, std::sinh(x))
IBEX_STUB_1(tanh, std::tanh(x))
IBEX_STUB_1(abs, std::fabs(x))
#undef IBEX_STUB_1
#undef IBEX_STUB_2
#undef IBEX_STUB_OP

template <class T>
class Array {
 public:
  void add(T& x) { v_.push_back(&x); }
  int size() const { return static_cast<int>(v_.size()); }
  T& operator[](int i) const { return *v_[i]; }

 private:
  std::vector<T*> v_;
};

class Function {
 public:
  bool backward(const Interval& y, IntervalVector& x) const;
};

class NumConstraint {
 public:
  NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c);
  Interval right_hand_side() const;
  Function& f;
  CmpOp op;
};
std::ostream& operator<<(std::ostream&, const NumConstraint&);

class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& x);
  void add_ctr(const ExprCtr& c);
};

class System {
 public:
  explicit System(const SystemFactory& f);
  const int nb_ctr;
};

class Ctc {
 public:
  virtual ~Ctc() {}
  virtual void contract(IntervalVector& box) = 0;
};

class LinearizerCombo {
 public:
  enum linear_mode { AFFINE2, XNEWTON, COMPO };
  LinearizerCombo(const System& sys, linear_mode mode);
};

class CtcPolytopeHull : public Ctc {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& lr);
  void contract(IntervalVector& box) override;
};

void cleanup(const ExprNode& e, bool delete_symbols);

}  // namespace ibex
