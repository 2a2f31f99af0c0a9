// The part of IBEX's interface that the checked sources use (IBEX itself is
// not available offline).  The verifier reads only the declarations and uses
// contracts for them; the harness executes these definitions, which follow
// IBEX's documentation: closed intervals, an empty interval has NaN bounds, a
// vector is empty if its first component is.
#pragma once

#include <cmath>
#include <iostream>
#include <limits>
#include <utility>
#include <vector>

namespace ibex {

class Interval {
 public:
  Interval() : lb_{-inf()}, ub_{inf()} {}
  Interval(double x) { set(x, x); }  // NOLINT
  Interval(double a, double b) { set(a, b); }
  double lb() const { return lb_; }
  double ub() const { return ub_; }
  double mid() const {
    if (is_empty()) return lb_;
    if (lb_ == -inf()) return ub_ == inf() ? 0 : -big();
    if (ub_ == inf()) return big();
    const double m{0.5 * lb_ + 0.5 * ub_};
    return m < lb_ ? lb_ : m > ub_ ? ub_ : m;
  }
  double diam() const { return is_empty() ? 0 : up(ub_ - lb_); }
  double rad() const { return diam() / 2; }
  double mag() const { return std::fmax(std::fabs(lb_), std::fabs(ub_)); }
  bool is_empty() const { return !(lb_ <= ub_); }
  bool is_degenerated() const { return is_empty() || lb_ == ub_; }
  bool is_unbounded() const { return lb_ == -inf() || ub_ == inf(); }
  bool contains(double x) const {
    return lb_ <= x && x <= ub_ && -inf() < x && x < inf();
  }
  bool is_subset(const Interval& x) const {
    return is_empty() || (x.lb_ <= lb_ && ub_ <= x.ub_);
  }
  bool is_bisectable() const {
    const double m{mid()};
    return !is_empty() && lb_ < m && m < ub_;
  }
  std::pair<Interval, Interval> bisect(double = 0.5) const {
    const double m{mid()};
    return {Interval(lb_, m), Interval(m, ub_)};
  }
  void set_empty() { lb_ = ub_ = std::numeric_limits<double>::quiet_NaN(); }
  Interval& operator=(const Interval&) = default;
  Interval(const Interval&) = default;
  Interval& operator=(double x) {
    set(x, x);
    return *this;
  }
  Interval& operator&=(const Interval& x) {
    if (is_empty() || x.is_empty())
      set_empty();
    else
      set(std::fmax(lb_, x.lb_), std::fmin(ub_, x.ub_));
    return *this;
  }
  Interval& operator|=(const Interval& x) {
    if (is_empty())
      *this = x;
    else if (!x.is_empty())
      set(std::fmin(lb_, x.lb_), std::fmax(ub_, x.ub_));
    return *this;
  }
  Interval& operator+=(double);
  Interval& operator-=(double);
  Interval& operator*=(double);
  Interval& operator/=(double);
  Interval& operator+=(const Interval&);
  Interval& operator-=(const Interval&);
  Interval& operator*=(const Interval&);
  Interval& operator/=(const Interval&);
  Interval operator-() const {
    return is_empty() ? *this : Interval(-ub_, -lb_);
  }
  bool operator==(const Interval& x) const {
    return is_empty() ? x.is_empty() : lb_ == x.lb_ && ub_ == x.ub_;
  }
  bool operator!=(const Interval& x) const { return !(*this == x); }

  static double inf() { return std::numeric_limits<double>::infinity(); }
  static double big() { return std::numeric_limits<double>::max(); }
  static double up(double x) { return std::nextafter(x, inf()); }
  static double down(double x) { return std::nextafter(x, -inf()); }

 private:
  void set(double a, double b) {
    lb_ = a;
    ub_ = b;
    if (!(a <= b) || a == inf() || b == -inf()) set_empty();
  }
  double lb_;
  double ub_;
};

inline Interval operator&(Interval a, const Interval& b) { return a &= b; }
inline Interval operator|(Interval a, const Interval& b) { return a |= b; }
Interval operator+(const Interval&, double);
Interval operator+(double, const Interval&);
Interval operator+(const Interval&, const Interval&);
Interval operator-(const Interval&, double);
Interval operator-(double, const Interval&);
Interval operator-(const Interval&, const Interval&);
Interval operator*(const Interval&, double);
Interval operator*(double, const Interval&);
Interval operator*(const Interval&, const Interval&);
Interval operator/(const Interval&, double);
Interval operator/(double, const Interval&);
Interval operator/(const Interval&, const Interval&);
Interval sqr(const Interval&);
Interval sqrt(const Interval&);
Interval pow(const Interval&, int);
Interval pow(const Interval&, double);
Interval pow(const Interval&, const Interval&);
Interval root(const Interval&, int);
Interval exp(const Interval&);
Interval log(const Interval&);
Interval cos(const Interval&);
Interval sin(const Interval&);
Interval tan(const Interval&);
Interval acos(const Interval&);
Interval asin(const Interval&);
Interval atan(const Interval&);
Interval atan2(const Interval&, const Interval&);
Interval cosh(const Interval&);
Interval sinh(const Interval&);
Interval tanh(const Interval&);
Interval abs(const Interval&);
Interval max(const Interval&, const Interval&);
Interval min(const Interval&, const Interval&);
Interval sign(const Interval&);
inline std::ostream& operator<<(std::ostream& os, const Interval& x) {
  if (x.is_empty()) return os << "[ empty ]";
  return os << "[" << x.lb() << ", " << x.ub() << "]";
}

class IntervalVector {
 public:
  explicit IntervalVector(int n) : v_(n) {}
  IntervalVector(int n, const Interval& x) : v_(n, x) {}
  IntervalVector(const IntervalVector&) = default;
  IntervalVector& operator=(const IntervalVector&) = default;
  Interval& operator[](int i) { return v_[i]; }
  const Interval& operator[](int i) const { return v_[i]; }
  int size() const { return static_cast<int>(v_.size()); }
  void resize(int n) { v_.resize(n); }
  bool is_empty() const { return v_[0].is_empty(); }
  void set_empty() {
    for (Interval& x : v_) x.set_empty();
  }
  IntervalVector& operator&=(const IntervalVector& x) {
    bool e{is_empty() || x.is_empty()};
    for (int i{0}; i < size(); ++i) e = (v_[i] &= x.v_[i]).is_empty() || e;
    if (e) set_empty();
    return *this;
  }
  IntervalVector& operator|=(const IntervalVector& x) {
    if (is_empty())
      *this = x;
    else if (!x.is_empty())
      for (int i{0}; i < size(); ++i) v_[i] |= x.v_[i];
    return *this;
  }
  bool operator==(const IntervalVector& x) const {
    if (v_.size() != x.v_.size()) return false;
    if (is_empty() || x.is_empty()) return is_empty() && x.is_empty();
    return v_ == x.v_;
  }
  bool operator!=(const IntervalVector& x) const { return !(*this == x); }

 private:
  std::vector<Interval> v_;
};
inline std::ostream& operator<<(std::ostream& os, const IntervalVector& x) {
  for (int i{0}; i < x.size(); ++i) os << (i ? " ; " : "(") << x[i];
  return os << ")";
}

}  // namespace ibex

#include "ibex_expr.h"  // NOLINT
