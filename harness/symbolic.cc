// Concrete oracles for the term-level properties P06-P15 and P18.
#include <algorithm>

#include "common.h"

namespace h {
const int K = 8;  // assignments tracked per machine run

// ------------------------------------------------------------------
// A machine that builds terms with the public operations and tracks, next to
// each term, the values that the specification gives it.
struct EE {
  Expression e;
  std::vector<Val> v;
  std::string d;
};
struct FF {
  Formula f;
  std::vector<Tri> t;
  std::string d;
};
struct Machine {
  Rng* g;
  std::vector<Asg> as;
  std::vector<EE> es;
  std::vector<FF> fs;
  std::string trace;
  bool check_values{true};   // P06, P07, P08
  bool check_frames{false};  // P09
  bool check_shape{false};   // P06
  bool nondyadic{false};

  explicit Machine(Rng* rng) : g(rng) {
    for (int i = 0; i < K; ++i) as.push_back(random_asg(g));
  }
  void say(const std::string& s) {
    trace += "\n    " + s;
    g_stage = trace;
  }
  std::vector<Val> konst(double c) { return std::vector<Val>(K, constant(c)); }
  void add(const Expression& e, const std::vector<Val>& v,
           const std::string& how) {
    if (check_values) {
      for (int i = 0; i < K; ++i) {
        if (v[i].s != Val::OK) continue;
        const Val r = value(e, as[i]);
        if (r.s == Val::UNK) continue;
        ++g_checks;
        if (r.s == Val::UNDEF || far(v[i], r))
          fail("wrong value of " + str(e) + " built by " + how +
               "\n  assignment: " + as[i].show(e.GetVariables()) +
               "\n  expected: " + str(double(v[i].v)) + " got: " +
               (r.s == Val::UNDEF ? "undefined" : str(double(r.v))) +
               "\n  history:" + trace);
      }
    }
    EE x{e, v, dump(e)};
    if (x.d.size() > 600) return;
    if (es.size() < 10)
      es.push_back(x);
    else
      es[g->below(10)] = x;
  }
  void add(const Formula& f, const std::vector<Tri>& t, const std::string& how) {
    if (check_values) {
      for (int i = 0; i < K; ++i) {
        if (t[i] == U_) continue;
        const Tri r = truth(f, as[i], false);
        if (r == U_) continue;
        ++g_checks;
        if (r != t[i])
          fail("wrong truth value of " + str(f) + " built by " + how +
               "\n  assignment: " + as[i].show(f.GetFreeVariables()) +
               "\n  expected: " + (t[i] == T_ ? "true" : "false") +
               "\n  history:" + trace);
      }
    }
    if (check_shape) shape(f);
    FF x{f, t, dump(f)};
    if (x.d.size() > 900) return;
    if (fs.size() < 10)
      fs.push_back(x);
    else
      fs[g->below(10)] = x;
  }
  void shape(const Formula& f) {
    if (is_nary(f)) {
      if (get_operands(f).size() < 2)
        fail("connective with fewer than two operands: " + str(f) +
             "\n  history:" + trace);
      for (const Formula& o : get_operands(f)) {
        if (is_true(o) || is_false(o) || o.get_kind() == f.get_kind())
          fail("constant or nested operand in " + str(f) + "\n  history:" +
               trace);
        shape(o);
      }
    }
  }
  void frames() {
    if (!check_frames) return;
    for (const EE& x : es) {
      ++g_checks;
      if (dump(x.e) != x.d)
        fail("an existing expression changed: was " + x.d + "\n  now " +
             dump(x.e) + " = " + str(x.e) + "\n  history:" + trace);
    }
    for (const FF& x : fs) {
      ++g_checks;
      if (dump(x.f) != x.d)
        fail("an existing formula changed: was " + x.d + "\n  now " +
             dump(x.f) + " = " + str(x.f) + "\n  history:" + trace);
    }
  }
  // ---- expression operations
  int pe() { return g->below(static_cast<int>(es.size())); }
  int pf() { return g->below(static_cast<int>(fs.size())); }
  double c() {
    static const std::vector<double> d = {0, 1, -1, 2, -2, 3, 0.5, -0.5, 4, -3};
    static const std::vector<double> n = {0.1, -0.7, 1.0 / 3};
    return nondyadic && g->coin(1, 6) ? g->pick(n) : g->pick(d);
  }
  std::vector<Val> map1(const std::vector<Val>& a,
                        const std::function<Val(const Val&)>& f) {
    std::vector<Val> r;
    for (const Val& x : a) r.push_back(x.s == Val::OK ? f(x) : x);
    return r;
  }
  std::vector<Val> map2(const std::vector<Val>& a, const std::vector<Val>& b,
                        const std::function<Val(const Val&, const Val&)>& f) {
    std::vector<Val> r;
    for (int i = 0; i < K; ++i) {
      if (a[i].s != Val::OK)
        r.push_back(a[i]);
      else if (b[i].s != Val::OK)
        r.push_back(b[i]);
      else
        r.push_back(f(a[i], b[i]));
    }
    return r;
  }
  static Val vsub(const Val& a, const Val& b) {
    return vadd(a, vmul(constant(-1), b));
  }
  void leaf() {
    if (g->coin(1, 3)) {
      const double d = c();
      say("Expression{" + str(d) + "}");
      add(Expression{d}, konst(d), "constant");
    } else {
      const Variable& v = g->pick(pool().num);
      std::vector<Val> vs;
      for (const Asg& a : as) vs.push_back(constant(a.num.at(v.get_id())));
      say("Expression{" + str(v) + "}");
      add(Expression{v}, vs, "variable");
    }
  }
  void boolleaf() {
    const int k = g->below(8);
    if (k == 0) return add(Formula::True(), std::vector<Tri>(K, T_), "True");
    if (k == 1) return add(Formula::False(), std::vector<Tri>(K, F_), "False");
    const Variable& v = g->pick(pool().bools);
    std::vector<Tri> t;
    for (const Asg& a : as) t.push_back(a.boo.at(v.get_id()) ? T_ : F_);
    say("Formula{" + str(v) + "}");
    add(Formula{v}, t, "variable");
  }
  // Runs `f`; a rejected construction must be one whose result is undefined.
  void guarded(const std::vector<Val>& v, const std::string& how,
               const std::function<Expression()>& f) {
    try {
      const Expression e = f();
      add(e, v, how);
    } catch (const Failure&) {
      throw;
    } catch (const std::exception& x) {
      if (!check_values) return;
      for (int i = 0; i < K; ++i)
        if (v[i].s == Val::OK && v[i].exact())
          fail("construction " + how + " is rejected (" + x.what() +
               ") although its value is " + str(double(v[i].v)) +
               " under " + as[i].show(Variables{}) + "\n  history:" + trace);
    }
  }
  void arith() {
    const int op = g->below(4);
    const int i = pe();
    int j = g->coin(1, 5) ? i : pe();
    const char* names[] = {"+", "-", "*", "/"};
    const Expression a0 = es[i].e, b0 = es[j].e;
    std::vector<Val> v;
    if (op == 0) v = map2(es[i].v, es[j].v, vadd);
    if (op == 1) v = map2(es[i].v, es[j].v, vsub);
    if (op == 2) v = map2(es[i].v, es[j].v, vmul);
    if (op == 3) v = map2(es[i].v, es[j].v, vdiv);
    const int form = g->below(12);
    const std::string how = std::string("(") + str(a0) + ") " + names[op] +
                            " (" + str(b0) + ") [form " + str(form) + "]";
    say(how);
    guarded(v, how, [&]() -> Expression {
      switch (form) {
        case 0:
        case 1:  // plain, const references
          if (op == 0) return es[i].e + es[j].e;
          if (op == 1) return es[i].e - es[j].e;
          if (op == 2) return es[i].e * es[j].e;
          return es[i].e / es[j].e;
        case 2: {  // rvalue copies
          Expression a{a0}, b{b0};
          if (op == 0) return std::move(a) + std::move(b);
          if (op == 1) return std::move(a) - std::move(b);
          if (op == 2) return std::move(a) * std::move(b);
          return std::move(a) / b;
        }
        case 3: {
          Expression a{a0};
          if (op == 0) return std::move(a) + es[j].e;
          if (op == 1) return std::move(a) - es[j].e;
          if (op == 2) return std::move(a) * es[j].e;
          return std::move(a) / es[j].e;
        }
        case 4: {
          Expression b{b0};
          if (op == 0) return es[i].e + std::move(b);
          if (op == 1) return es[i].e - std::move(b);
          if (op == 2) return es[i].e * std::move(b);
          return es[i].e / std::move(b);
        }
        case 5: {  // in place
          Expression a{a0};
          if (op == 0) a += es[j].e;
          if (op == 1) a -= es[j].e;
          if (op == 2) a *= es[j].e;
          if (op == 3) a /= es[j].e;
          return a;
        }
        default: {
          // Operands that own their cell: rebuild structurally equal terms
          // that are not shared with anything else.
          Expression a = fresh(a0);
          Expression b = fresh(b0);
          if (i == j && g->coin()) {  // the same object on both sides
            if (form == 11 && op == 0) return std::move(a) + a;
            if (form == 11 && op == 2) return std::move(a) * a;
            if (form == 10 && op == 0) return a + a;
            if (form == 10 && op == 2) return a * a;
            Expression& r = a;
            if (op == 0) a += r;
            if (op == 1) a -= r;
            if (op == 2) a *= r;
            if (op == 3) a /= r;
            return a;
          }
          if (form == 6) {
            if (op == 0) return std::move(a) + std::move(b);
            if (op == 1) return std::move(a) - std::move(b);
            if (op == 2) return std::move(a) * std::move(b);
            return std::move(a) / std::move(b);
          }
          if (form == 7) {
            if (op == 0) return std::move(a) + b;
            if (op == 1) return std::move(a) - b;
            if (op == 2) return std::move(a) * b;
            return std::move(a) / b;
          }
          if (form == 8) {
            if (op == 0) return a + std::move(b);
            if (op == 1) return a - std::move(b);
            if (op == 2) return a * std::move(b);
            return a / std::move(b);
          }
          Expression keep = g->coin() ? a : Expression{};
          const std::string kd = dump(keep), bd = dump(b);
          if (op == 0) a += b;
          if (op == 1) a -= b;
          if (op == 2) a *= b;
          if (op == 3) a /= b;
          if (check_frames && (dump(keep) != kd || dump(b) != bd))
            fail("in-place operation changed another value: " + how +
                 "\n  was " + kd + "\n  now " + dump(keep) + "\n  rhs was " +
                 bd + "\n  rhs now " + dump(b) + "\n  history:" + trace);
          return a;
        }
      }
    });
  }
  // A structurally equal term whose top cell is owned by the result alone.
  Expression fresh(const Expression& e) {
    if (is_addition(e)) {
      Expression r{get_constant_in_addition(e)};
      for (const auto& p : get_expr_to_coeff_map_in_addition(e))
        r += p.second * p.first;
      return r;
    }
    if (is_multiplication(e)) {
      Expression r{get_constant_in_multiplication(e)};
      for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
        r *= pow(p.first, p.second);
      return r;
    }
    return e;
  }
  void unary() {
    const int i = pe();
    const Expression e = es[i].e;
    const std::vector<Val> v = es[i].v;
    const int k = g->below(19);
    say("unary " + str(k) + " of " + str(e));
    const std::string how = "unary function " + str(k) + " of " + str(e);
    auto u = [&](ld (*f)(ld), Expression (*b)(const Expression&)) {
      guarded(map1(v, [f](const Val& x) { return vunary(f, x, true); }), how,
              [&]() { return b(e); });
    };
    switch (k) {
      case 0: return u([](ld x) { return std::sin(x); }, sin);
      case 1: return u([](ld x) { return std::cos(x); }, cos);
      case 2: return guarded(map1(v, vtan), how, [&]() { return tan(e); });
      case 3:
        return guarded(map1(v, [](const Val& x) { return vasin(x, false); }),
                       how, [&]() { return asin(e); });
      case 4:
        return guarded(map1(v, [](const Val& x) { return vasin(x, true); }),
                       how, [&]() { return acos(e); });
      case 5: return u([](ld x) { return std::atan(x); }, atan);
      case 6: return u([](ld x) { return std::sinh(x); }, sinh);
      case 7: return u([](ld x) { return std::cosh(x); }, cosh);
      case 8: return u([](ld x) { return std::tanh(x); }, tanh);
      case 9: return u([](ld x) { return std::exp(x); }, exp);
      case 10: return guarded(map1(v, vlog), how, [&]() { return log(e); });
      case 11: return guarded(map1(v, vsqrt), how, [&]() { return sqrt(e); });
      case 12: return guarded(map1(v, vabs), how, [&]() { return abs(e); });
      case 13:
      case 14:
        return guarded(
            map1(v, [](const Val& x) { return vmul(constant(-1), x); }), how,
            [&]() {
              if (k == 13) return -e;
              Expression a = g->coin() ? fresh(e) : e;
              return -std::move(a);
            });
      case 15: {
        Expression a = g->coin() ? fresh(e) : e;
        const Expression old = a;
        const std::string od = dump(old);
        const int m = g->below(4);
        Expression r = m == 0 ? ++a : m == 1 ? a++ : m == 2 ? --a : a--;
        if (check_frames && dump(old) != od)
          fail("increment changed a copy: was " + od + " now " + dump(old));
        const double dlt = m < 2 ? 1 : -1;
        add(a, map1(v, [dlt](const Val& x) { return vadd(x, constant(dlt)); }),
            "increment/decrement of " + str(e));
        if (m == 1 || m == 3) return add(r, v, "postfix result of " + str(e));
        return;
      }
      default: {
        static const std::vector<double> ps = {2, 3, 0.5, -1, -2, 0, 1,
                                               1.5, 4, -0.5, 1.0 / 3};
        const double p = g->pick(ps);
        return guarded(
            map1(v, [p](const Val& x) { return vpow(x, constant(p)); }),
            "pow(" + str(e) + ", " + str(p) + ")",
            [&]() { return pow(e, Expression{p}); });
      }
    }
  }
  void binary() {
    const int i = pe(), j = g->coin(1, 6) ? i : pe();
    const Expression a = es[i].e, b = es[j].e;
    const int k = g->below(6);
    const std::string how =
        "binary " + str(k) + " of " + str(a) + " and " + str(b);
    say(how);
    switch (k) {
      case 0:
        return guarded(map2(es[i].v, es[j].v, vpow), how,
                       [&]() { return pow(a, b); });
      case 1:
        return guarded(map2(es[i].v, es[j].v, vatan2), how,
                       [&]() { return atan2(a, b); });
      case 2:
        return guarded(map2(es[i].v, es[j].v, [](const Val& x, const Val& y) {
                         return vmin(x, y, false);
                       }),
                       how, [&]() { return min(a, b); });
      case 3:
        return guarded(map2(es[i].v, es[j].v, [](const Val& x, const Val& y) {
                         return vmin(x, y, true);
                       }),
                       how, [&]() { return max(a, b); });
      case 4: {
        std::vector<Expression> xs;
        const bool sum = g->coin();
        std::vector<Val> v = konst(sum ? 0 : 1);
        for (int n = g->below(5); n > 0; --n) {
          const int q = pe();
          xs.push_back(es[q].e);
          v = sum ? map2(v, es[q].v, vadd) : map2(v, es[q].v, vmul);
        }
        return guarded(v, sum ? "Sum" : "Prod",
                       [&]() { return sum ? Sum(xs) : Prod(xs); });
      }
      default: {
        if (fs.empty()) return;
        const int q = pf();
        std::vector<Val> v;
        for (int n = 0; n < K; ++n)
          v.push_back(fs[q].t[n] == U_ ? unk()
                                       : fs[q].t[n] == T_ ? es[i].v[n]
                                                          : es[j].v[n]);
        return guarded(v, "if_then_else(" + str(fs[q].f) + ", " + str(a) +
                              ", " + str(b) + ")",
                       [&]() { return if_then_else(fs[q].f, a, b); });
      }
    }
  }
  // Powers with a constant base whose exponents add up to a constant.
  void powers() {
    static const std::vector<double> ks = {2, 3, 0.5, 10, 4};
    const int i = pe(), j = pe(), l = pe();
    const double k = g->pick(ks), t = g->below(4);
    const Expression e = es[i].e, y = es[j].e, z = es[l].e;
    const std::vector<Val> ve = es[i].v, vy = es[j].v, vz = es[l].v;
    auto power = [&](const Val& x) { return vpow(constant(k), x); };
    const std::vector<Val> p = map1(ve, power);
    const std::vector<Val> q = map1(
        map1(ve, [&](const Val& x) { return vadd(constant(t), vmul(constant(-1), x)); }), power);
    const std::string how = str(y) + " * " + str(k) + "^a * " + str(k) + "^(" +
                            str(t) + " - a), a = " + str(e) + ", combined with " + str(z);
    say(how);
    const std::vector<Val> v = map2(map2(vy, p, vmul), q, vmul);
    guarded(v, how, [&]() { return y * pow(k, e) * pow(k, t - e); });
    const int m = g->below(3);
    guarded(m == 0 ? map2(vz, v, vadd) : map2(vz, v, vmul), how, [&]() {
      const Expression r = y * pow(k, e) * pow(k, t - e);
      return m == 0 ? z + r : m == 1 ? z * r : r * z;
    });
  }
  void relational() {
    const int i = pe();
    int j = g->coin(1, 6) ? i : pe();
    Expression a = es[i].e, b = es[j].e;
    std::vector<Val> va = es[i].v, vb = es[j].v;
    if (g->coin(1, 4)) {  // nearly equal sides
      const double d = c();
      try {
        b = a + d;
      } catch (const std::exception&) {
        return;
      }
      vb = map1(va, [d](const Val& x) { return vadd(x, constant(d)); });
    }
    const Rel r = static_cast<Rel>(g->below(6));
    std::vector<Tri> t;
    for (int n = 0; n < K; ++n) t.push_back(compare(r, va[n], vb[n]));
    const char* names[] = {"==", "!=", ">", ">=", "<", "<="};
    say(str(a) + " " + names[r] + " " + str(b));
    try {
      Formula f;
      switch (r) {
        case EQ: f = a == b; break;
        case NE: f = a != b; break;
        case GT: f = a > b; break;
        case GE: f = a >= b; break;
        case LT: f = a < b; break;
        case LE: f = a <= b; break;
      }
      add(f, t, std::string("comparison ") + str(a) + " " + names[r] + " " +
                    str(b));
    } catch (const std::domain_error&) {
    } catch (const std::runtime_error&) {
    }
  }
  std::vector<Tri> comb(const std::vector<Tri>& a, const std::vector<Tri>& b,
                        const std::function<bool(bool, bool)>& f) {
    std::vector<Tri> r;
    for (int i = 0; i < K; ++i) {
      if (a[i] == U_ || b[i] == U_)
        r.push_back(U_);
      else
        r.push_back(f(a[i] == T_, b[i] == T_) ? T_ : F_);
    }
    return r;
  }
  void connective() {
    const int i = pf(), j = g->coin(1, 6) ? i : pf();
    const Formula a0 = fs[i].f, b0 = fs[j].f;
    const std::vector<Tri> ta = fs[i].t, tb = fs[j].t;
    const int k = g->below(12);
    const int form = g->below(6);
    const std::string how = "connective " + str(k) + "/" + str(form) + " of " +
                            str(a0) + " and " + str(b0);
    say(how);
    auto AND = [](bool x, bool y) { return x && y; };
    auto OR = [](bool x, bool y) { return x || y; };
    if (k <= 1 || k == 10 || k == 11) {
      const bool an = (k & 1) == 0;
      const std::vector<Tri> t = an ? comb(ta, tb, AND) : comb(ta, tb, OR);
      switch (form) {
        case 0: return add(an ? a0 && b0 : a0 || b0, t, how);
        case 1: {
          Formula a = g->coin() ? refresh(a0) : a0;
          return add(an ? std::move(a) && b0 : std::move(a) || b0, t, how);
        }
        case 2: {
          Formula b = g->coin() ? refresh(b0) : b0;
          return add(an ? a0 && std::move(b) : a0 || std::move(b), t, how);
        }
        case 3: {
          Formula a = refresh(a0), b = refresh(b0);
          return add(an ? std::move(a) && std::move(b)
                        : std::move(a) || std::move(b),
                     t, how);
        }
        case 4: {
          Formula a = refresh(a0);
          const Formula keep = g->coin() ? a : Formula{};
          const std::string kd = dump(keep);
          a = an ? std::move(a) && b0 : std::move(a) || b0;
          if (check_frames && dump(keep) != kd)
            fail("building " + how + " changed a copy of its operand: was " +
                 kd + " now " + dump(keep));
          return add(a, t, how);
        }
        default: {
          Formula a = refresh(a0);
          // The same object on both sides.
          return add(an ? std::move(a) && a : std::move(a) || a, ta, how);
        }
      }
    }
    if (k == 2) {
      std::vector<Tri> t;
      for (Tri x : ta) t.push_back(tnot(x));
      return add(!a0, t, how);
    }
    if (k == 3)
      return add(imply(a0, b0), comb(ta, tb, [](bool x, bool y) {
                   return !x || y;
                 }), how);
    if (k == 4) {
      const auto t = comb(ta, tb, [](bool x, bool y) { return x == y; });
      return add(form & 1 ? iff(a0, b0) : a0 == b0, t, how);
    }
    if (k == 5)
      return add(a0 != b0, comb(ta, tb, [](bool x, bool y) { return x != y; }),
                 how);
    if (k == 6 || k == 7) {
      const bool an = k == 6;
      std::set<Formula> s;
      std::vector<Formula> l;
      std::vector<Tri> t(K, an ? T_ : F_);
      for (int n = g->below(5); n > 0; --n) {
        const int q = pf();
        s.insert(fs[q].f);
        l.push_back(fs[q].f);
        t = an ? comb(t, fs[q].t, AND) : comb(t, fs[q].t, OR);
      }
      if (form & 1) return add(an ? make_conjunction(s) : make_disjunction(s), t, how);
      return add(an ? make_conjunction(l) : make_disjunction(l), t, how);
    }
    if (k == 8) {  // Boolean variable overloads
      const Variable& p = g->pick(pool().bools);
      const Variable& q = g->pick(pool().bools);
      std::vector<Tri> tp, tq;
      for (const Asg& a : as) {
        tp.push_back(a.boo.at(p.get_id()) ? T_ : F_);
        tq.push_back(a.boo.at(q.get_id()) ? T_ : F_);
      }
      auto EQV = [](bool x, bool y) { return x == y; };
      auto NEQ = [](bool x, bool y) { return x != y; };
      auto IMP = [](bool x, bool y) { return !x || y; };
      switch (g->below(17)) {
        case 0: return add(p && a0, comb(tp, ta, AND), how);
        case 1: return add(a0 && p, comb(tp, ta, AND), how);
        case 2: return add(p || a0, comb(tp, ta, OR), how);
        case 3: return add(a0 || p, comb(tp, ta, OR), how);
        case 4: return add(p && q, comb(tp, tq, AND), how);
        case 5: return add(p || q, comb(tp, tq, OR), how);
        case 6: return add(p == q, comb(tp, tq, EQV), how);
        case 7: return add(p != q, comb(tp, tq, NEQ), how);
        case 8: return add(p == a0, comb(tp, ta, EQV), how);
        case 9: return add(a0 != p, comb(tp, ta, NEQ), how);
        case 10: return add(imply(p, a0), comb(tp, ta, IMP), how);
        case 11: return add(imply(a0, p), comb(ta, tp, IMP), how);
        case 12: return add(iff(p, q), comb(tp, tq, EQV), how);
        case 13: return add(imply(p, q), comb(tp, tq, IMP), how);
        case 14: return add(a0 == p, comb(tp, ta, EQV), how);
        case 15: return add(p != a0, comb(tp, ta, NEQ), how);
        default: {
          std::vector<Tri> t;
          for (Tri x : tp) t.push_back(tnot(x));
          return add(!p, t, how);
        }
      }
    }
    if (k == 9) {
      Variables vs;
      for (int n = g->below(3); n >= 0; --n)
        vs.insert(g->coin(1, 3) ? g->pick(pool().bools) : g->pick(pool().num));
      std::vector<Variable> l(vs.begin(), vs.end());
      std::vector<Tri> t;
      for (int n = 0; n < K; ++n) {
        Eval ev;
        ev.budget = 20000;
        Asg b = as[n];
        t.push_back(ev.all(l, 0, a0, &b));
      }
      return add(forall(vs, a0), t, "forall over " + str(vs) + " of " + str(a0));
    }
  }
  Formula refresh(const Formula& f) {
    if (is_conjunction(f)) return make_conjunction(get_operands(f));
    if (is_disjunction(f)) return make_disjunction(get_operands(f));
    return f;
  }
};

void run(Rng* g, int mode) {
  Machine m(g);
  m.check_values = mode != 9;
  m.check_frames = mode == 9;
  m.check_shape = mode == 6;
  m.nondyadic = mode == 8 && g->coin(1, 3);
  for (int i = 0; i < 5; ++i) m.leaf();
  for (int i = 0; i < 3; ++i) m.boolleaf();
  for (int i = 0; i < 3; ++i) m.relational();
  const int steps = 6 + g->below(14);
  for (int s = 0; s < steps; ++s) {
    const int k = g->below(12);
    if (mode == 6) {
      if (k < 2) m.relational();
      else if (k < 3) m.boolleaf();
      else if (k < 4) m.leaf();
      else m.connective();
    } else if (mode == 7) {
      if (k < 5) m.relational();
      else if (k < 8) m.arith();
      else if (k < 9) m.unary();
      else if (k < 10) m.binary();
      else m.leaf();
    } else {
      if (k < 5) g->coin(1, 8) ? m.powers() : m.arith();
      else if (k < 7) m.unary();
      else if (k < 9) m.binary();
      else if (k < 10) m.relational();
      else if (k < 11) m.leaf();
      else if (!m.fs.empty()) m.connective();
    }
    m.frames();
  }
}
void p06(Rng* g) { run(g, 6); }
void p07(Rng* g) {
  run(g, 7);
  // Variable overloads of the comparison operators.
  const Variable& x = g->pick(pool().num);
  const Variable& y = g->pick(pool().num);
  const Asg a = random_asg(g);
  const Val vx = constant(a.num.at(x.get_id())), vy = constant(a.num.at(y.get_id()));
  auto ck = [&](Rel r, const Formula& f) {
    const Tri t = compare(r, vx, vy);
    const Tri u = truth(f, a);
    ++g_checks;
    if (t != u)
      fail("comparison of variables " + str(f) + " is wrong under " +
           a.show(f.GetFreeVariables()));
  };
  ck(EQ, x == y);
  ck(NE, x != y);
  ck(LT, x < y);
  ck(LE, x <= y);
  ck(GT, x > y);
  ck(GE, x >= y);
}
void p08(Rng* g) { run(g, 8); }
void p09(Rng* g) { run(g, 9); }

// ------------------------------------------------------------------ P10
void p10(Rng* g) {
  GenOpt o;
  o.realconst = g->coin(1, 2);
  o.uf = g->coin(1, 2);
  o.consts = 1;
  Gen gen(g, o);
  std::vector<Expression> es;
  std::vector<Formula> fs;
  for (int i = 0; i < 6; ++i) {
    es.push_back(gen.expr(1 + g->below(3)));
    fs.push_back(gen.form(1 + g->below(3)));
  }
  if (o.realconst) {
    const double v = gen.c();
    es.push_back(real_constant(v, std::nextafter(v, 1e9), true));
    es.push_back(real_constant(v, std::nextafter(v, 1e9), false));
    es.push_back(real_constant(std::nextafter(v, -1e9), v, false));
    es.push_back(real_constant(std::nextafter(v, -1e9), v, true));
    es.push_back(Expression{v});
  }
  // terms that differ slightly, and the same terms built again
  for (int i = 0; i < 4; ++i) {
    try {
      const Expression a = es[g->below(6)], b = es[g->below(6)];
      es.push_back(a + b);
      es.push_back(b + a);
      es.push_back(a * b);
      es.push_back(b * a);
      es.push_back(if_then_else(fs[i], a, b));
      es.push_back(if_then_else(fs[i], b, a));
    } catch (const std::exception&) {
    }
    const Formula p = fs[g->below(6)], q = fs[g->below(6)];
    fs.push_back(p && q);
    fs.push_back(q && p);
    fs.push_back(p || q);
    fs.push_back(!p);
    fs.push_back(forall(gen.qvars(), p));
  }
  auto check = [&](auto&& v, const char* kind) {
    std::vector<std::string> d;
    for (const auto& x : v) d.push_back(dump(x));
    const size_t n = v.size();
    std::vector<std::vector<char>> lt(n, std::vector<char>(n));
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) lt[i][j] = v[i].Less(v[j]);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        const std::string who = std::string(kind) + "s\n  a = " + str(v[i]) +
                                " [" + d[i] + "]\n  b = " + str(v[j]) + " [" +
                                d[j] + "]";
        ++g_checks;
        const bool eq = v[i].EqualTo(v[j]);
        if (eq != (d[i] == d[j]))
          fail(std::string("EqualTo is ") + (eq ? "true" : "false") + " for " +
               who);
        if (lt[i][j] && lt[j][i]) fail("a<b and b<a for " + who);
        if (eq == (lt[i][j] || lt[j][i]))
          fail(std::string("order and equality disagree (EqualTo=") +
               (eq ? "true" : "false") + ", a<b=" + (lt[i][j] ? "1" : "0") +
               ", b<a=" + (lt[j][i] ? "1" : "0") + ") for " + who);
        if (eq && v[i].get_hash() != v[j].get_hash())
          fail("equal but different hashes: " + who);
        for (size_t k = 0; k < n; ++k)
          if (lt[i][j] && lt[j][k] && !lt[i][k])
            fail("a<b and b<c but not a<c for " + who + "\n  c = " + str(v[k]));
      }
    std::set<std::string> distinct(d.begin(), d.end());
    using T = typename std::decay<decltype(v[0])>::type;
    std::set<T> os(v.begin(), v.end());
    std::unordered_set<T> us(v.begin(), v.end());
    if (os.size() != distinct.size())
      fail(std::string("std::set of ") + kind + "s has " + str(os.size()) +
           " members instead of " + str(distinct.size()));
    if (us.size() != distinct.size())
      fail(std::string("std::unordered_set of ") + kind + "s has " +
           str(us.size()) + " members instead of " + str(distinct.size()));
    for (const auto& x : v)
      if (!os.count(x) || !us.count(x))
        fail(std::string("lookup misses ") + str(x));
  };
  g_stage = "comparisons of expressions";
  check(es, "expression");
  g_stage = "comparisons of formulas";
  check(fs, "formula");
  // variable sets
  std::vector<Variables> vs;
  for (int i = 0; i < 6; ++i) {
    Variables s;
    for (const Variable& v : pool().num)
      if (g->coin(1, 3)) s.insert(v);
    vs.push_back(s);
  }
  for (const Variables& a : vs)
    for (const Variables& b : vs) {
      const bool eq = ids(a) == ids(b);
      ++g_checks;
      if ((a == b) != eq) fail("== on variable sets " + str(a) + " " + str(b));
      if ((a < b) && (b < a)) fail("< on variable sets " + str(a) + " " + str(b));
      if (eq == ((a < b) || (b < a)))
        fail("order and equality disagree on " + str(a) + " " + str(b));
      if (eq && a.get_hash() != b.get_hash())
        fail("hash of variable sets " + str(a));
    }
}

// ------------------------------------------------------------------ P11
void p11(Rng* g) {
  GenOpt o;
  o.forall = false;
  o.consts = 1;
  o.realconst = g->coin(1, 6);
  Gen gen(g, o);
  const Expression e = gen.expr(1 + g->below(4));
  const Formula f = gen.form(1 + g->below(3));
  for (int k = 0; k < 6; ++k) {
    const Asg a = random_asg(g);
    {
      g_stage = "Evaluate(" + str(e) + ") under " + a.show(e.GetVariables());
      const Val v = value(e, a);
      Environment env = to_env(a, e.GetVariables());
      if (g->coin(1, 4)) env.insert(Variable{"other"}, 5.0);
      ++g_checks;
      try {
        const double r = e.Evaluate(env);
        if (v.s == Val::UNDEF)
          fail("evaluation returns " + str(r) + " for an undefined term; " +
               g_stage);
        if (v.s == Val::OK && far(v, mk(r, 1e-12L * std::fabs(r))))
          fail("evaluation returns " + str(r) + ", expected " +
               str(double(v.v)) + "; " + g_stage);
      } catch (const std::exception& x) {
        if (v.s == Val::OK && value(e, a, true).s == Val::OK)
          fail("evaluation fails (" + std::string(x.what()) +
               ") although the value is " + str(double(v.v)) + "; " + g_stage);
      }
    }
    {
      g_stage = "Evaluate(" + str(f) + ") under " + a.show(f.GetFreeVariables());
      const Tri t = truth(f, a, true);
      ++g_checks;
      try {
        Environment env = to_env(a, f.GetFreeVariables());
        // Interval constants are compared by structure in an empty environment.
        if (o.realconst) env.insert(Variable{"other"}, 5.0);
        const bool r = f.Evaluate(env);
        if (t != U_ && r != (t == T_))
          fail(std::string("evaluation returns ") + (r ? "true" : "false") +
               "; " + g_stage);
      } catch (const std::exception& x) {
        if (t != U_)
          fail("evaluation fails (" + std::string(x.what()) + "); " + g_stage);
      }
    }
    // a missing variable
    if (!e.GetVariables().empty()) {
      std::vector<Variable> vs;
      for (const Variable& v : e.GetVariables()) vs.push_back(v);
      const Variable miss = g->pick(vs);
      Asg b = a;
      if (miss.get_type() == Variable::Type::BOOLEAN)
        b.boo[miss.get_id()] = !a.boo.at(miss.get_id());
      else
        b.num[miss.get_id()] = a.num.at(miss.get_id()) + 1;
      Variables have = e.GetVariables();
      have.erase(miss);
      g_stage = "Evaluate(" + str(e) + ") without " + str(miss) + " under " +
                a.show(have);
      ++g_checks;
      bool exempt = false;
      walk(e, [](const Expression&) {},
           [&](const Formula& q) {
             exempt = exempt || ((is_equal_to(q) || is_not_equal_to(q)) &&
                                 q.GetFreeVariables().include(miss));
           });
      if (!exempt) try {
        const double r = e.Evaluate(to_env(a, have));
        for (const Asg* q : std::vector<const Asg*>{&a, &b}) {
          const Val v = value(e, *q);
          if (v.s == Val::OK && far(v, mk(r, 1e-12L * std::fabs(r))))
            fail("returns " + str(r) + " although a variable is missing; " +
                 g_stage);
        }
      } catch (const Failure&) {
        throw;
      } catch (const std::exception&) {
      }
    }
    if (!f.GetFreeVariables().empty()) {
      std::vector<Variable> vs;
      for (const Variable& v : f.GetFreeVariables()) vs.push_back(v);
      const Variable miss = g->pick(vs);
      Variables have = f.GetFreeVariables();
      have.erase(miss);
      g_stage = "Evaluate(" + str(f) + ") without " + str(miss) + " under " +
                a.show(have);
      // Equalities with missing variables are, by design, decided by
      // structural equality.
      bool exempt = false;
      walk(f, [](const Expression&) {},
           [&](const Formula& q) {
             exempt = exempt || ((is_equal_to(q) || is_not_equal_to(q)) &&
                                 q.GetFreeVariables().include(miss));
           });
      if (!exempt) try {
        const bool r = f.Evaluate(to_env(a, have));
        for (int q = -2; q < 4; ++q) {
          Asg b = a;
          if (miss.get_type() == Variable::Type::BOOLEAN)
            b.boo[miss.get_id()] = q & 1;
          else
            b.num[miss.get_id()] = q;
          const Tri t = truth(f, b, true);
          ++g_checks;
          if (t != U_ && r != (t == T_))
            fail("returns a truth value although a variable is missing; " +
                 g_stage);
        }
      } catch (const Failure&) {
        throw;
      } catch (const std::exception&) {
      }
    }
  }
}

// ------------------------------------------------------------------ P12
void p12(Rng* g) {
  GenOpt o;
  o.consts = g->coin(1, 4);
  o.forall = g->coin(1, 2);
  o.realconst = g->coin(1, 6);
  o.uf = g->coin(1, 6);
  Gen gen(g, o);
  const Expression e = gen.expr(1 + g->below(4));
  const Formula f = gen.form(1 + g->below(4));
  GenOpt s = o;
  s.forall = false;
  s.uf = false;
  Gen sub(g, s);
  ExpressionSubstitution es;
  FormulaSubstitution fs;
  std::string how;
  for (const Variable& v : pool().num)
    if (g->coin(1, 3)) {
      const Expression r = g->coin() ? sub.leaf() : sub.expr(1);
      es.emplace(v, r);
      how += " " + str(v) + ":=" + str(r);
    }
  for (const Variable& v : pool().bools)
    if (g->coin(1, 3)) {
      const Formula r = sub.form(1);
      fs.emplace(v, r);
      how += " " + str(v) + ":=" + str(r);
    }
  const bool same_as_pairs = es.size() == 1 && fs.empty();
  // Substitutions whose replacements mention a variable that is quantified in
  // the term are outside the property.
  {
    std::set<Variable::Id> bound, mentioned;
    auto note = [&](const Formula& q) {
      if (is_forall(q))
        for (const Variable& v : get_quantified_variables(q))
          bound.insert(v.get_id());
    };
    walk(e, [](const Expression&) {}, note);
    walk(f, [](const Expression&) {}, note);
    for (const auto& p : es)
      for (const auto id : free_ids(p.second)) mentioned.insert(id);
    for (const auto& p : fs)
      for (const auto id : free_ids(p.second)) mentioned.insert(id);
    for (const auto id : bound)
      if (mentioned.count(id)) return;
  }
  for (int which = 0; which < 2; ++which) {
    g_stage = "Substitute in " + (which ? str(f) : str(e)) + " with" + how;
    Expression er;
    Formula fr;
    bool thrown = false;
    std::string what;
    try {
      if (which == 0) {
        er = same_as_pairs && g->coin()
                 ? e.Substitute(es.begin()->first, es.begin()->second)
                 : es.empty() && g->coin() ? e.Substitute(fs)
                 : fs.empty() && g->coin() ? e.Substitute(es)
                                           : e.Substitute(es, fs);
      } else {
        fr = same_as_pairs && g->coin()
                 ? f.Substitute(es.begin()->first, es.begin()->second)
                 : es.empty() && fs.size() == 1 && g->coin()
                       ? f.Substitute(fs.begin()->first, fs.begin()->second)
                       : es.empty() && g->coin() ? f.Substitute(fs)
                       : fs.empty() && g->coin() ? f.Substitute(es)
                                                 : f.Substitute(es, fs);
      }
    } catch (const std::exception& x) {
      thrown = true;
      what = x.what();
    }
    bool uf = false;
    auto seen = [&](const Expression& q) {
      if (is_uninterpreted_function(q)) uf = true;
    };
    if (which == 0)
      walk(e, seen, [](const Formula&) {});
    else
      walk(f, seen, [](const Formula&) {});
    if (uf) {
      // An uninterpreted function keeps its name; its arguments become the
      // variables of the replaced arguments.
      if (which == 0 && !thrown && is_uninterpreted_function(e)) {
        std::set<Variable::Id> want;
        for (const Variable& v : e.GetVariables()) {
          auto it = es.find(v);
          if (it == es.end()) {
            want.insert(v.get_id());
          } else {
            const auto q = free_ids(it->second);
            want.insert(q.begin(), q.end());
          }
        }
        ++g_checks;
        if (!is_uninterpreted_function(er) || ids(er.GetVariables()) != want)
          fail("wrong arguments after substitution: " + str(er) + "\n  " +
               g_stage);
      }
      continue;
    }
    for (int k = 0; k < 6; ++k) {
      const Asg a = random_asg(g);
      Asg b = a;
      bool ok = true;
      for (const auto& p : es) {
        const Val v = value(p.second, a, true);
        if (v.s != Val::OK || v.err != 0) {
          ok = false;
          break;
        }
        b.num[p.first.get_id()] = v.v;
      }
      for (const auto& p : fs) {
        const Tri t = truth(p.second, a);
        if (t == U_) {
          ok = false;
          break;
        }
        b.boo[p.first.get_id()] = t == T_;
      }
      if (!ok) continue;
      if (which == 0) {
        const Val want = value(e, b, true);
        if (want.s != Val::OK) continue;
        ++g_checks;
        if (thrown)
          fail("substitution fails (" + what + ") although the result has " +
               "the value " + str(double(want.v)) + "; " + g_stage);
        const Val got = value(er, a);
        if (got.s == Val::UNDEF || far(want, got))
          fail("wrong value after substitution: " + str(er) + "\n  " + g_stage +
               "\n  assignment: " + a.show(e.GetVariables() + er.GetVariables()) +
               "\n  expected " + str(double(want.v)) + " got " +
               str(double(got.v)));
      } else {
        const Tri want = truth(f, b);
        if (want == U_) continue;
        ++g_checks;
        if (thrown)
          fail("substitution fails (" + what + ") although the result has a " +
               "truth value; " + g_stage);
        const Tri got = truth(fr, a, false);
        if (got != U_ && got != want)
          fail("wrong truth value after substitution: " + str(fr) + "\n  " +
               g_stage + "\n  assignment: " +
               a.show(f.GetFreeVariables() + fr.GetFreeVariables()) +
               "\n  expected " + (want == T_ ? "true" : "false"));
      }
    }
  }
}

// ------------------------------------------------------------------ P13
void p13(Rng* g) {
  GenOpt o;
  o.consts = 1;
  o.forall = false;
  o.ite = g->coin(1, 6);
  Gen gen(g, o);
  const Expression e = gen.expr(1 + g->below(4));
  const Variable& x = g->pick(pool().real);
  g_stage = "Differentiate(" + str(e) + ", " + str(x) + ")";
  Expression d;
  try {
    d = e.Differentiate(x);
  } catch (const std::exception&) {
    ++g_checks;
    // Only operations that are not smooth may be rejected.
    bool rough = false;
    walk(e, [&](const Expression& q) {
      switch (q.get_kind()) {
        case ExpressionKind::Abs: case ExpressionKind::Min:
        case ExpressionKind::Max: case ExpressionKind::IfThenElse:
        case ExpressionKind::UninterpretedFunction:
          rough = true;
          break;
        default: break;
      }
    }, [](const Formula&) {});
    (void)rough;
    return;
  }
  for (int k = 0; k < 6; ++k) {
    Asg a;
    for (const Variable& v : pool().num)
      a.num[v.get_id()] = (g->below(2001) - 1000) / 512.0L + 0.0131L * k;
    for (const Variable& v : pool().bins) a.num[v.get_id()] = 1;
    for (const Variable& v : pool().bools) a.boo[v.get_id()] = g->coin();
    const Val dv = value(d, a);
    if (dv.s != Val::OK || std::fabs(dv.v) > 1e6L) continue;
    ld est[3];
    bool ok = true;
    ld scale = 0;
    const ld hs[3] = {1e-3L, 5e-4L, 2.5e-4L};
    for (int q = 0; q < 3 && ok; ++q) {
      Asg b = a;
      const ld h = hs[q];
      ld p[4];
      const ld off[4] = {-2 * h, -h, h, 2 * h};
      for (int w = 0; w < 4 && ok; ++w) {
        b.num[x.get_id()] = a.num[x.get_id()] + off[w];
        const Val v = value(e, b);
        if (v.s != Val::OK) ok = false;
        p[w] = v.v;
        scale = std::max(scale, std::fabs(v.v));
      }
      if (ok) est[q] = (p[0] - 8 * p[1] + 8 * p[2] - p[3]) / (12 * h);
    }
    if (!ok || scale > 1e7L || std::fabs(dv.v) > 50 * (1 + scale)) continue;
    const ld spread =
        std::fabs(est[0] - est[1]) + std::fabs(est[1] - est[2]);
    const ld tol = 50 * spread + 1e-6L * (1 + std::fabs(est[2])) +
                   1e-9L * scale + 1000 * dv.err;
    if (spread > 1e-4L * (1 + std::fabs(est[2]))) continue;
    ++g_checks;
    if (std::fabs(est[2] - dv.v) > tol)
      fail("wrong derivative " + str(d) + " for " + str(e) + " by " + str(x) +
           "\n  at " + a.show(e.GetVariables()) + "\n  numeric derivative " +
           str(double(est[2])) + ", reported " + str(double(dv.v)));
  }
}

// ------------------------------------------------------------------ P14
bool distributable(const Expression& e) {
  bool bad = false;
  walk(e,
       [&](const Expression& q) {
         if (is_multiplication(q)) {
           int sums = 0;
           for (const auto& p : get_base_to_exponent_map_in_multiplication(q)) {
             if (!is_addition(p.first) || !is_constant(p.second)) continue;
             const double n = get_constant_value(p.second);
             if (n >= 1 && n == std::floor(n)) ++sums;
           }
           if (sums > 0) bad = true;
         }
         if (is_pow(q) && is_addition(get_first_argument(q)) &&
             is_constant(get_second_argument(q))) {
           const double n = get_constant_value(get_second_argument(q));
           if (n >= 1 && n == std::floor(n)) bad = true;
         }
       },
       [](const Formula&) {});
  return bad;
}
double c2(Rng* g) {
  static const std::vector<double> v = {1, -1, 2, -2, 0.5, 3};
  return g->pick(v);
}
void p14(Rng* g) {
  GenOpt o;
  o.consts = 0;
  o.forall = false;
  o.ite = false;
  o.fun = g->coin(1, 3);
  o.div = g->coin(1, 3);
  Gen gen(g, o);
  Expression e = gen.expr(1 + g->below(4));
  if (dump(e).size() > 250) return;
  try {
    if (g->coin(1, 3)) e = pow(e, Expression{double(g->below(4))});
    if (g->coin(1, 3)) e = e * gen.expr(2);
  } catch (const std::exception&) {
    return;
  }
  // keep the number of monomials small
  double cost = 1;
  bool steep = false;
  walk(e, [&](const Expression& q) {
    if (is_pow(q) && is_constant(get_second_argument(q)) &&
        std::fabs(get_constant_value(get_second_argument(q))) > 7)
      steep = true;
    if (is_multiplication(q))
      for (const auto& p : get_base_to_exponent_map_in_multiplication(q))
        if (is_constant(p.second) &&
            std::fabs(get_constant_value(p.second)) > 7)
          steep = true;
    if (is_pow(q) && is_constant(get_second_argument(q)))
      cost *= 1 + std::fabs(get_constant_value(get_second_argument(q)));
    if (is_multiplication(q))
      for (const auto& p : get_base_to_exponent_map_in_multiplication(q))
        if (is_constant(p.second))
          cost *= 1 + std::fabs(get_constant_value(p.second));
  }, [](const Formula&) {});
  if (cost > 60 || steep) return;
  // div: e has a division or an exponent that is no non-negative integer.
  bool div = false;
  walk(e,
       [&](const Expression& q) {
         auto ex = [](const Expression& n) {
           return is_constant(n) && get_constant_value(n) >= 0 &&
                  get_constant_value(n) == std::floor(get_constant_value(n));
         };
         if (is_division(q)) div = true;
         if (is_pow(q) && !ex(get_second_argument(q))) div = true;
         if (is_sqrt(q) || is_real_constant(q)) div = true;
         if (is_multiplication(q))
           for (const auto& p : get_base_to_exponent_map_in_multiplication(q))
             if (!ex(p.second)) div = true;
       },
       [](const Formula&) {});
  bool large = false;
  if (g->coin(1, 10)) {
    // A large power of a sum of few terms (its values are not compared: the
    // coefficients are rounded).
    large = true;
    const Expression x{g->pick(pool().num)};
    Expression s{x * c2(g) + Expression{c2(g)}};
    if (g->coin(1, 4)) s += pow(x, Expression{double(2 + g->below(2))});
    e = pow(s, Expression{double(5 + g->below(16))});
    if (g->coin(1, 3)) e = e * (x + 3) + x;
    if (g->coin(1, 3)) e = cos(e);
    div = false;
  }
  g_stage = "Expand(" + str(e) + ")";
  Expression r;
  try {
    r = e.Expand();
  } catch (const std::exception& x) {
    for (int k = 0; k < 8; ++k) {
      const Asg a = random_asg(g);
      const Val v = value(e, a);
      if (v.s == Val::OK && v.exact())
        fail("Expand fails (" + std::string(x.what()) + ") on " + str(e) +
             " which has a value under " + a.show(e.GetVariables()));
    }
    return;
  }
  for (int k = 0; k < 8 && !large; ++k) {
    const Asg a = random_asg(g);
    const Val v = value(e, a), w = value(r, a);
    if (v.s != Val::OK || w.s == Val::UNK) continue;
    ++g_checks;
    if (w.s == Val::UNDEF || far(v, w))
      fail("expansion changes the value of " + str(e) + "\n  result " + str(r) +
           "\n  under " + a.show(e.GetVariables()) + ": " + str(double(v.v)) +
           " vs " + (w.s == Val::UNDEF ? "undefined" : str(double(w.v))));
  }
  if (div) return;
  if (distributable(r))
    fail("something is left to distribute in " + str(r) + "\n  expanded from " +
         str(e));
}

// ------------------------------------------------------------------ P15
bool poly(const Expression& e) {
  if (is_constant(e) || is_real_constant(e) || is_variable(e)) return true;
  if (is_addition(e)) {
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      if (!poly(p.first)) return false;
    return true;
  }
  auto ex = [](const Expression& n) {
    return is_constant(n) && get_constant_value(n) >= 0 &&
           get_constant_value(n) == std::floor(get_constant_value(n));
  };
  if (is_multiplication(e)) {
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      if (!poly(p.first) || !ex(p.second)) return false;
    return true;
  }
  if (is_pow(e)) return poly(get_first_argument(e)) && ex(get_second_argument(e));
  if (is_division(e))
    return poly(get_first_argument(e)) && is_constant(get_second_argument(e));
  return false;
}
void p15(Rng* g) {
  GenOpt o;
  o.realconst = g->coin(1, 4);
  o.fun = g->coin(1, 2);
  o.ite = g->coin(1, 2);
  Gen gen(g, o);
  Expression e = gen.expr(1 + g->below(4));
  Formula f = gen.form(1 + g->below(4));
  if (g->coin(1, 3)) {
    GenOpt p = o;
    p.fun = p.div = p.ite = false;
    Gen gp(g, p);
    e = gp.expr(3);
  }
  if (g->coin(1, 4)) e = if_then_else(f, e, gen.expr(1));
  if (g->coin(1, 4)) f = forall(gen.qvars(), f && gen.form(1));
  // derived terms
  try {
    switch (g->below(5)) {
      case 0: e = e.Substitute(g->pick(pool().num), gen.leaf()); break;
      case 1: f = f.Substitute(g->pick(pool().num), gen.leaf()); break;
      case 2: e += gen.expr(1); break;
      case 3: e *= gen.expr(1); break;
      default: break;
    }
  } catch (const std::exception&) {
  }
  std::function<void(const Formula&)> cf = [&](const Formula& q) {
    ++g_checks;
    if (ids(q.GetFreeVariables()) != free_ids(q))
      fail("free variables of " + str(q) + " reported as " +
           str(q.GetFreeVariables()));
    if (q.include_ite() != has_ite(q))
      fail("conditional flag of " + str(q) + " is " +
           (q.include_ite() ? "true" : "false"));
  };
  std::function<void(const Expression&)> ce = [&](const Expression& q) {
    ++g_checks;
    if (ids(q.GetVariables()) != free_ids(q))
      fail("variables of " + str(q) + " reported as " + str(q.GetVariables()));
    if (q.include_ite() != has_ite(q))
      fail("conditional flag of " + str(q) + " is " +
           (q.include_ite() ? "true" : "false"));
    if (q.is_polynomial() && !poly(q))
      fail("reported as a polynomial: " + str(q));
  };
  g_stage = "attributes of " + str(e) + " and " + str(f);
  walk(e, ce, cf);
  walk(f, ce, cf);
}

// ------------------------------------------------------------------ P18
void p18(Rng* g) {
  typedef std::set<Variable::Id> S;
  std::vector<Variable> all;
  for (const auto* v : {&pool().real, &pool().ints, &pool().bools, &pool().bins})
    all.insert(all.end(), v->begin(), v->end());
  std::vector<std::pair<Variables, S>> vs;
  const int density = 1 + g->below(5);
  for (int i = 0; i < 4; ++i) {
    Variables v;
    S s;
    for (const Variable& x : all)
      if (g->coin(density, 6)) {
        v.insert(x);
        s.insert(x.get_id());
      }
    vs.emplace_back(v, s);
  }
  std::string trace;
  for (int step = 0; step < 8; ++step) {
    const int i = g->below(4), j = g->coin(1, 4) ? i : g->below(4);
    const Variable x = g->pick(all);
    Variables& a = vs[i].first;
    S& sa = vs[i].second;
    const Variables& b = vs[j].first;
    const S sb = vs[j].second;
    const S sa0 = sa;
    S un = sa0, di = sa0, in;
    un.insert(sb.begin(), sb.end());
    for (auto q : sb) {
      di.erase(q);
      if (sa0.count(q)) in.insert(q);
    }
    const int k = g->below(18);
    trace += "\n  step " + str(k) + ": " + str(a) + " with " + str(b) +
             (i == j ? " (itself)" : "") + ", " + str(x);
    g_stage = trace;
    ++g_checks;
    auto expect = [&](const Variables& r, const S& s, const char* op) {
      if (ids(r) != s || r.size() != s.size())
        fail(std::string(op) + " gives " + str(r) + trace);
    };
    S with = sa0, without = sa0;
    with.insert(x.get_id());
    without.erase(x.get_id());
    switch (k) {
      case 0: expect(a + b, un, "union"); break;
      case 1: expect(a - b, di, "difference"); break;
      case 2: expect(intersect(a, b), in, "intersection"); break;
      case 3: {
        const Variables r = (a += b);
        expect(r, un, "+= result");
        sa = un;
        break;
      }
      case 4: a -= b; sa = di; break;
      case 5: expect(a + x, with, "union with a variable"); break;
      case 6: expect(x + a, with, "union with a variable"); break;
      case 7: expect(a - x, without, "removal"); break;
      case 8: a += x; sa = with; break;
      case 9: a -= x; sa = without; break;
      case 10: a.insert(x); sa = with; break;
      case 11: {
        const auto n = a.erase(x);
        if (n != sa0.count(x.get_id())) fail("erase reports " + str(n) + trace);
        sa = without;
        break;
      }
      case 12: a.insert(b); sa = un; break;
      case 13: {
        const auto n = a.erase(b);
        if (n != in.size()) fail("erase of a set reports " + str(n) + trace);
        sa = di;
        break;
      }
      case 14:
        if (a.include(x) != (sa0.count(x.get_id()) == 1))
          fail("membership" + trace);
        break;
      case 15: {
        const bool sub = in.size() == sa0.size();
        const bool sup = in.size() == sb.size();
        const bool strict_sub = sub && sa0 != sb;
        const bool strict_sup = sup && sa0 != sb;
        if (a.IsSubsetOf(b) != sub) fail("IsSubsetOf" + trace);
        if (a.IsSupersetOf(b) != sup) fail("IsSupersetOf" + trace);
        if (a.IsStrictSubsetOf(b) != strict_sub) fail("IsStrictSubsetOf" + trace);
        if (a.IsStrictSupersetOf(b) != strict_sup)
          fail("IsStrictSupersetOf" + trace);
        if ((a == b) != (sa0 == sb)) fail("equality" + trace);
        break;
      }
      case 16:
        if (a.empty() != sa0.empty() || a.size() != sa0.size())
          fail("size/empty" + trace);
        break;
      default: {
        Variables c;
        c.insert(b.begin(), b.end());
        expect(c, sb, "range insertion");
      }
    }
    expect(vs[i].first, vs[i].second, "target");
    if (i != j) expect(vs[j].first, vs[j].second, "other operand");
  }
  // environments
  Environment env;
  std::map<Variable::Id, double> model;
  const double nan = std::nan("");
  for (int step = 0; step < 10; ++step) {
    const Variable& x = g->pick(all);
    const double v = g->below(9) - 4;
    g_stage = "environment operations";
    switch (g->below(7)) {
      case 0:
        env.insert(x, v);
        model.emplace(x.get_id(), v);
        break;
      case 1:
        env[x] = v;
        model[x.get_id()] = v;
        break;
      case 2: {
        bool threw = false;
        try {
          env.insert(x, nan);
        } catch (const std::runtime_error&) {
          threw = true;
        }
        if (!threw) fail("inserting NaN for " + str(x) + " is accepted");
        break;
      }
      case 3: {
        bool t1 = false, t2 = false, t3 = false, t4 = false, t5 = false;
        try { env.insert(Variable{}, v); } catch (const std::runtime_error&) { t1 = true; }
        try { env[Variable{}] = v; } catch (const std::runtime_error&) { t2 = true; }
        try { Environment e2{{Variable{}, v}}; } catch (const std::runtime_error&) { t3 = true; }
        try {
          Environment::map m;
          m.emplace(x, nan);
          Environment e2{m};
        } catch (const std::runtime_error&) { t4 = true; }
        try { Environment e2{{x, nan}}; } catch (const std::runtime_error&) { t5 = true; }
        if (!(t1 && t2 && t3 && t4 && t5))
          fail("an environment accepts the anonymous variable or NaN: " +
               str(t1) + str(t2) + str(t3) + str(t4) + str(t5));
        break;
      }
      case 4: {
        Environment::map m;
        for (const auto& p : env) m.emplace(p.first, p.second);
        Environment e2{m};
        env = e2;
        break;
      }
      case 5: {
        Environment e2{{x, v}};
        if (static_cast<const Environment&>(e2)[x] != v || e2.size() != 1)
          fail("initialised environment is wrong for " + str(x));
        Environment e3{x};
        if (static_cast<const Environment&>(e3)[x] != 0 || e3.size() != 1)
          fail("environment initialised from variables is wrong for " + str(x));
        break;
      }
      default:
        break;
    }
    const Environment& c = env;
    ++g_checks;
    S dom;
    for (const auto& p : model) dom.insert(p.first);
    if (ids(env.domain()) != dom || env.size() != dom.size() ||
        env.empty() != dom.empty())
      fail("domain of the environment is " + str(env.domain()));
    for (const Variable& y : all) {
      auto it = model.find(y.get_id());
      if (it != model.end()) {
        if (c[y] != it->second)
          fail("environment returns " + str(c[y]) + " for " + str(y) +
               " instead of " + str(it->second));
        if (c.find(y) == c.end() || c.find(y)->second != it->second)
          fail("find is wrong for " + str(y));
      } else {
        bool threw = false;
        try {
          (void)c[y];
        } catch (const std::runtime_error&) {
          threw = true;
        }
        if (!threw) fail("no error for the missing variable " + str(y));
        if (c.find(y) != c.end()) fail("find is wrong for " + str(y));
      }
    }
  }
}
}  // namespace h

int main(int argc, char** argv) {
  return h::drive(argc, argv,
                  {{"P06", h::p06}, {"P07", h::p07}, {"P08", h::p08},
                   {"P09", h::p09}, {"P10", h::p10}, {"P11", h::p11},
                   {"P12", h::p12}, {"P13", h::p13}, {"P14", h::p14},
                   {"P15", h::p15}, {"P18", h::p18}});
}
