// Concrete oracles for the properties of the solver that can be executed
// without IBEX (P26, P27, P42, P43), over the intervals of harness/ibex/ibex.h.
#include "common.h"

#include "dreal/solver/brancher.h"
#include "dreal/solver/filter_assertion.h"
#include "dreal/util/box.h"
#include "dreal/util/dynamic_bitset.h"
#include "dreal/util/ibex_converter.h"

namespace h {
typedef Box::Interval Interval;
static const double kInf = std::numeric_limits<double>::infinity();

static double some(Rng* g) {
  static const std::vector<double> d = {0,    1,   -1,  2,     -2,   3,  0.5,
                                        -0.5, 10,  -10, 1e-300, -1e-300, 0.1,
                                        -0.1, 5e-324, -5e-324, 1e300, -1e300,
                                        7.25, -7.25};
  double v = g->pick(d);
  for (int k = g->below(3); k > 0; --k)
    v = std::nextafter(v, g->coin() ? 1e305 : -1e305);
  return v;
}
static Interval interval(Rng* g, bool integer) {
  if (integer) {
    const int a = g->below(13) - 6, b = a + g->below(9);
    return Interval(a, b);
  }
  if (g->coin(1, 12)) return Interval();
  if (g->coin(1, 20)) return Interval(-kInf, some(g));
  if (g->coin(1, 20)) return Interval(some(g), kInf);
  const double a = some(g), b = g->coin(1, 8) ? a : some(g);
  return Interval(std::fmin(a, b), std::fmax(a, b));
}
// Points of the interval that are likely to be lost: the bounds, and doubles
// next to them, to `v`, and to 0.
static std::vector<double> points(const Interval& i, double v, double w,
                                  bool integer) {
  std::vector<double> c, r;
  for (double b : {i.lb(), i.ub(), v, w, 0.0, i.mid()}) {
    c.push_back(b);
    c.push_back(std::nextafter(b, 1e308));
    c.push_back(std::nextafter(b, -1e308));
    c.push_back(std::floor(b));
    c.push_back(std::ceil(b));
    c.push_back(std::floor(b) + 1);
    c.push_back(std::ceil(b) - 1);
  }
  for (double p : c)
    if (i.contains(p) && (!integer || p == std::floor(p))) r.push_back(p);
  return r;
}
static std::string show(const Interval& i) {
  return "[" + str(i.lb()) + ", " + str(i.ub()) + "]";
}
static std::string show(const Box& b) {
  std::string s;
  for (int i = 0; i < b.size(); ++i)
    s += b.variable(i).get_name() + " in " + show(b[i]) + "; ";
  return s;
}
static std::vector<Variable> some_variables(Rng* g) {
  std::vector<Variable> vs, r;
  for (const auto* p : {&pool().real, &pool().ints, &pool().bins})
    vs.insert(vs.end(), p->begin(), p->end());
  for (int n = 1 + g->below(4); n > 0; --n) {
    const int k = g->below(static_cast<int>(vs.size()));
    r.push_back(vs[k]);
    vs.erase(vs.begin() + k);
  }
  return r;
}
static bool is_int(const Variable& v) {
  return v.get_type() != Variable::Type::CONTINUOUS;
}
static Box some_box(Rng* g) {
  Box b{some_variables(g)};
  for (int i = 0; i < b.size(); ++i)
    b[i] = interval(g, is_int(b.variable(i)) && g->coin(9, 10));
  if (g->coin(1, 40)) b.set_empty();
  return b;
}

// ------------------------------------------------------------------ P26
struct Model {
  std::vector<Variable> vars;
  std::vector<Interval> vals;
  bool valid{true};  // false: emptied without variables
};
static Interval whole(const Variable& v) {
  switch (v.get_type()) {
    case Variable::Type::CONTINUOUS: return Interval();
    case Variable::Type::INTEGER:
      return Interval(-std::numeric_limits<int>::max(),
                      std::numeric_limits<int>::max());
    default: return Interval(0, 1);
  }
}
static void same(const Box& b, const Model& m, const std::string& log) {
  const int n = static_cast<int>(m.vars.size());
  ++g_checks;
  if (b.size() != n || static_cast<int>(b.variables().size()) != n)
    fail("size " + std::to_string(b.size()) + " after " + log);
  if (b.interval_vector().size() != std::max(n, 1))
    fail("interval vector of another size after " + log);
  for (int i = 0; i < n; ++i) {
    const Variable& v = m.vars[i];
    if (!b.variable(i).equal_to(v) || !b.variables()[i].equal_to(v) ||
        b.index(v) != i || !b.has_variable(v))
      fail("variable " + std::to_string(i) + " is not " + v.get_name() +
           " after " + log);
    if (b[i] != m.vals[i] || b[v] != m.vals[i] ||
        b.interval_vector()[i] != m.vals[i])
      fail(v.get_name() + " is " + show(b[i]) + ", not " + show(m.vals[i]) +
           " after " + log);
  }
  for (const auto* p : {&pool().real, &pool().ints, &pool().bins})
    for (const Variable& v : *p) {
      bool has = false;
      for (const Variable& u : m.vars) has = has || u.equal_to(v);
      if (b.has_variable(v) != has)
        fail("has_variable(" + v.get_name() + ") after " + log);
    }
  if (n && b.empty() != m.vals[0].is_empty()) fail("empty() after " + log);
}
void p26(Rng* g) {
  std::vector<Box> boxes;
  std::vector<Model> models;
  std::string log;
  boxes.emplace_back();
  models.emplace_back();
  std::vector<Variable> all;
  for (const auto* p : {&pool().real, &pool().ints, &pool().bins, &pool().bools})
    all.insert(all.end(), p->begin(), p->end());
  for (int step = 2 + g->below(12); step > 0; --step) {
    const int k = g->below(static_cast<int>(boxes.size()));
    const std::string bk = " b" + std::to_string(k);
    Model& m = models[k];
    const int n = static_cast<int>(m.vars.size());
    const Variable v = g->pick(all);
    bool has = false;
    for (const Variable& u : m.vars) has = has || u.equal_to(v);
    switch (g->below(9)) {
      case 0:
      case 1:
        if (has || !m.valid) break;
        log += bk + ".Add(" + v.get_name() + ");";
        g_stage = log;
        boxes[k].Add(v);
        m.vars.push_back(v);
        m.vals.push_back(whole(v));
        break;
      case 2: {
        if (has || !m.valid) break;
        const int lo = g->below(2), hi = lo + g->below(2 - lo);
        log += bk + ".Add(" + v.get_name() + "," + std::to_string(lo) + "," +
               std::to_string(hi) + ");";
        g_stage = log;
        boxes[k].Add(v, lo, hi);
        m.vars.push_back(v);
        m.vals.push_back(Interval(lo, hi));
        break;
      }
      case 3:
      case 4: {  // copy, or assign
        if (boxes.size() < 4 && g->coin()) {
          log += " copy of" + bk + ";";
          g_stage = log;
          const Box copy{boxes[k]};
          const Model mm = models[k];
          boxes.push_back(copy);
          models.push_back(mm);
        } else {
          const int j = g->below(static_cast<int>(boxes.size()));
          log += bk + " = b" + std::to_string(j) + ";";
          g_stage = log;
          boxes[k] = boxes[j];
          models[k] = Model(models[j]);
        }
        break;
      }
      case 5: {
        if (!n) break;
        const int i = g->below(n);
        const Interval x = interval(g, false);
        log += bk + "[" + std::to_string(i) + "] = " + show(x) + ";";
        g_stage = log;
        if (g->coin())
          boxes[k][i] = x;
        else
          boxes[k][m.vars[i]] = x;
        m.vals[i] = x;
        break;
      }
      case 6:
        if (!g->coin(1, 4)) break;
        log += bk + ".set_empty();";
        g_stage = log;
        boxes[k].set_empty();
        for (Interval& x : m.vals) x.set_empty();
        if (!n) m.valid = false;
        if (!boxes[k].empty()) fail("not empty after " + log);
        break;
      case 7: {
        if (!n) break;
        Model mm = m;
        Box other{boxes[k]};
        bool e1 = false, e2 = false;
        for (int i = 0; i < n; ++i) {
          mm.vals[i] = interval(g, false);
          other[i] = mm.vals[i];
          e1 = e1 || m.vals[i].is_empty();
          e2 = e2 || mm.vals[i].is_empty();
        }
        if (e1 || e2) break;
        log += bk + " united with " + show(other) + ";";
        g_stage = log;
        boxes[k].InplaceUnion(other);
        same(other, mm, log);
        for (int i = 0; i < n; ++i) m.vals[i] |= mm.vals[i];
        break;
      }
      default: {
        std::vector<Variable> vs = some_variables(g);
        log += bk + " = Box({";
        for (const Variable& u : vs) log += u.get_name() + ",";
        log += "});";
        g_stage = log;
        boxes[k] = Box(vs);
        m = Model();
        m.vars = vs;
        for (const Variable& u : vs) m.vals.push_back(whole(u));
      }
    }
    for (size_t i = 0; i < boxes.size(); ++i)
      if (models[i].valid)
        same(boxes[i], models[i], log + " in b" + std::to_string(i));
    for (size_t i = 0; i < boxes.size(); ++i)
      for (size_t j = 0; j < boxes.size(); ++j) {
        bool eq = models[i].vars.size() == models[j].vars.size();
        bool e1 = false, e2 = false;
        for (size_t d = 0; eq && d < models[i].vars.size(); ++d) {
          eq = models[i].vars[d].equal_to(models[j].vars[d]) &&
               models[i].vals[d] == models[j].vals[d];
          e1 = e1 || models[i].vals[d].is_empty();
          e2 = e2 || models[j].vals[d].is_empty();
        }
        if (e1 || e2 || !models[i].valid || !models[j].valid) continue;
        if ((boxes[i] == boxes[j]) != eq || (boxes[i] != boxes[j]) == eq)
          fail("comparison of b" + std::to_string(i) + " and b" +
               std::to_string(j) + " after " + log);
      }
  }
}

// ------------------------------------------------------------------ P27
// A point that satisfies a literal satisfies the constraint made from it.
void p27(Rng* g) {
  GenOpt o;
  o.ite = o.boolvar = o.forall = false;
  o.realconst = g->coin(1, 4);
  Gen gen(g, o);
  Formula f{gen.rel(1 + g->below(3))};
  if (g->coin(1, 3)) f = !f;
  const Formula atom{is_negation(f) ? get_operand(f) : f};
  if (!is_relational(atom)) return;
  std::vector<Variable> vars;
  for (const Variable& v : pool().num) vars.push_back(v);
  for (int i = static_cast<int>(vars.size()) - 1; i > 0; --i)
    std::swap(vars[i], vars[g->below(i + 1)]);
  g_stage = "IbexConverter::Convert(" + dump(f) + ")";
  IbexConverter conv{vars};
  const auto& syms = conv.variables();
  if (syms.size() != static_cast<int>(vars.size()))
    fail("the number of symbols is not that of the variables: " + g_stage);
  const ibex::ExprCtr* const c{conv.Convert(f)};
  conv.set_need_to_delete_variables(true);
  if (!c) return;
  for (int k = 0; k < 6; ++k) {
    const Asg a{random_asg(g)};
    if (truth(f, a) != T_) continue;
    const Val x{value(get_lhs_expression(atom), a, true)};
    const Val y{value(get_rhs_expression(atom), a, true)};
    if (x.s != Val::OK || y.s != Val::OK) continue;
    ibex::ExprNode::Point p;
    for (int i = 0; i < syms.size(); ++i)
      p[&syms[i]] = static_cast<double>(a.num.at(vars[i].get_id()));
    const double d{c->e.fn(p) - c->rhs.fn(p)};
    if (!std::isfinite(d)) continue;
    ++g_checks;
    const double tol{static_cast<double>(
        1e-6L * (1 + std::fabs(x.v) + std::fabs(y.v)) +
        1e3L * (x.err + y.err))};
    bool ok{true};
    switch (c->op) {
      case ibex::LT: case ibex::LEQ: ok = d <= tol; break;
      case ibex::EQ: ok = std::fabs(d) <= tol; break;
      case ibex::GEQ: case ibex::GT: ok = d >= -tol; break;
    }
    if (!ok)
      fail("the literal holds at a point where the constraint does not "
           "(difference of its sides: " + str(d) + "): " + g_stage + " at " +
           a.show(f.GetFreeVariables()));
  }
}

// ------------------------------------------------------------------ P42
// Can `x op [a, b]` be true for some value between a and b?
static bool can(int op, double x, double a, double b) {
  switch (op) {
    case 0: return a <= x && x <= b;           // ==
    case 1: return !(x == a && a == b);        // !=
    case 2: return x > a;                      // >
    case 3: return x >= a;                     // >=
    case 4: return x < b;                      // <
    default: return x <= b;                    // <=
  }
}
void p42(Rng* g) {
  const Box before{some_box(g)};
  const Variable v{before.variable(g->below(before.size()))};
  double a = is_int(v) && g->coin() ? g->below(13) - 6 : some(g), b = a;
  // Also constants next to the bounds of the variable.
  if (g->coin(1, 3) && !before[v].is_empty()) {
    a = g->coin() ? before[v].lb() : before[v].ub();
    if (g->coin()) a = std::nextafter(a, g->coin() ? 1e308 : -1e308);
    if (!(std::fabs(a) < 1e307)) a = 0.25;
    b = a;
  }
  Expression c{a};
  if (g->coin(1, 4)) {
    b = std::nextafter(a, 1e308);
    c = real_constant(a, b, g->coin());
  }
  const Expression x{v};
  const int op = g->below(6);
  const bool swap = g->coin();
  const int mirrored[] = {0, 1, 4, 5, 2, 3}, negated[] = {1, 0, 5, 4, 3, 2};
  const Expression l{swap ? c : x}, r{swap ? x : c};
  const int o = swap ? mirrored[op] : op;
  Formula f{o == 0   ? l == r
            : o == 1 ? l != r
            : o == 2 ? l > r
            : o == 3 ? l >= r
            : o == 4 ? l < r
                     : l <= r};
  int meaning = op;
  if (g->coin(1, 3)) {
    f = !f;
    meaning = negated[op];
  }
  Box after{before};
  const std::string text =
      "FilterAssertion(" + str(f) + ") on " + show(before);
  g_stage = text;
  const FilterAssertionResult res{FilterAssertion(f, &after)};
  const std::string result = text + " gives " + show(after) + " result " +
                             std::to_string(static_cast<int>(res));
  ++g_checks;
  if (before.interval_vector().is_empty()) return;
  if (res == FilterAssertionResult::FilteredWithoutChange &&
      after.interval_vector() != before.interval_vector())
    fail("the box changes: " + result);
  for (int i = 0; i < before.size(); ++i) {
    if (before[i].is_empty()) return;
  }
  const bool empty = after.interval_vector().is_empty() || after[v].is_empty();
  for (int i = 0; i < before.size(); ++i) {
    if (before.variable(i).equal_to(v) || empty) continue;
    if (after[i] != before[i]) fail("another variable changes: " + result);
  }
  for (double p : points(before[v], a, b, is_int(v))) {
    const bool in = !empty && after[v].contains(p), sat = can(meaning, p, a, b);
    ++g_checks;
    if (sat && !in)
      fail(v.get_name() + " = " + str(p) + " is lost: " + result);
    if (res != FilterAssertionResult::NotFiltered && in && !sat)
      fail(v.get_name() + " = " + str(p) +
           " violates the assertion that is dropped: " + result);
  }
  if (!empty)
    for (double p : points(after[v], a, b, is_int(v)))
      if (!before[v].contains(p))
        fail(v.get_name() + " = " + str(p) + " is added: " + result);
}

// ------------------------------------------------------------------ P43
static void covers(const Box& before, const Box& l, const Box& r, int d,
                   const std::string& text) {
  for (const Box* b : {&l, &r}) {
    const std::string s = text + " gives " + show(*b);
    if (b->size() != before.size()) fail("other dimensions: " + s);
    for (int i = 0; i < before.size(); ++i) {
      if (!b->variable(i).equal_to(before.variable(i)) ||
          b->index(before.variable(i)) != i)
        fail("other variables: " + s);
      if (i != d && (*b)[i] != before[i]) fail("another dimension: " + s);
    }
    ++g_checks;
    if (!(*b)[d].is_subset(before[d]) || (*b)[d] == before[d])
      fail("not smaller: " + s);
  }
  for (double p : points(before[d], l[d].lb(), r[d].ub(),
                         is_int(before.variable(d)))) {
    ++g_checks;
    if (!l[d].contains(p) && !r[d].contains(p))
      fail("the point " + str(p) + " is in neither: " + text + " gives " +
           show(l) + " and " + show(r));
  }
}
void p43(Rng* g) {
  const Box before{some_box(g)};
  const std::string text = "of " + show(before);
  const int n = before.size();
  const int d = g->below(n);
  for (int way = 0; way < 2; ++way) {
    g_stage = "bisect dimension " + std::to_string(d) + " " + text;
    bool threw = false;
    try {
      const auto p = way ? before.bisect(before.variable(d)) : before.bisect(d);
      covers(before, p.first, p.second, d, g_stage);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    if (threw == before[d].is_bisectable())
      fail("an error exactly if it cannot be split: " + g_stage);
  }
  DynamicBitset active(n);
  bool any = false, all = g->coin(1, 3);
  for (int i = 0; i < n; ++i)
    if (all || g->coin(2, 3)) active.set(i), any = true;
  if (!any) active.set(d);
  int best = -1;
  for (int i = 0; i < n; ++i)
    if (active[i] && before[i].is_bisectable() &&
        (best < 0 || before[i].diam() > before[best].diam()))
      best = i;
  if (before.interval_vector().is_empty()) return;
  g_stage = "BranchLargestFirst " + text + " active " + str(active);
  Box l{some_box(g)}, r{some_box(g)};
  const int k = BranchLargestFirst(before, active, &l, &r);
  ++g_checks;
  if ((k < 0) != (best < 0)) fail("wrong verdict: " + g_stage);
  if (k < 0) return;
  if (k >= n || !active[k] || !before[k].is_bisectable() ||
      before[k].diam() != before[best].diam())
    fail("branches on dimension " + std::to_string(k) + ": " + g_stage);
  covers(before, l, r, k, g_stage);
  g_stage = "MaxDiam " + text;
  const auto m = before.MaxDiam();
  best = -1;
  for (int i = 0; i < n; ++i)
    if (before[i].is_bisectable() &&
        (best < 0 || before[i].diam() > before[best].diam()))
      best = i;
  if ((best < 0) != (m.second < 0) ||
      (best >= 0 && (m.second >= n || m.first != before[best].diam() ||
                     before[m.second].diam() != m.first)))
    fail("wrong dimension " + std::to_string(m.second) + ": " + g_stage);
}
}  // namespace h

int main(int argc, char** argv) {
  return h::drive(argc, argv,
                  {{"P26", h::p26}, {"P27", h::p27}, {"P42", h::p42}, {"P43", h::p43}});
}
