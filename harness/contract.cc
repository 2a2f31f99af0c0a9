// Concrete oracle for P41 and P25: the real contractors, over constraints, systems and
// backward operators that shrink the box at random and keep every test point
// that satisfies the constraint (all that is assumed of IBEX).
#include "common.h"

#include "dreal/contractor/contractor.h"
#include "dreal/contractor/contractor_status.h"
#include "dreal/contractor/generic_contractor_generator.h"
#include "dreal/solver/config.h"
#include "dreal/util/box.h"

namespace h {
typedef Box::Interval Interval;
typedef std::vector<double> Pt;
static Rng* g_rng = nullptr;
static std::vector<Pt> g_points;

struct Ctr {
  std::vector<const ibex::ExprNode*> symbols;
  std::vector<const ibex::ExprCtr*> ctrs;
};
static std::map<const void*, Ctr> g_ctr;

static bool sat(const ibex::ExprCtr& c, const Ctr& k, const Pt& p) {
  ibex::ExprNode::Point at;
  for (size_t i = 0; i < k.symbols.size(); ++i) at[k.symbols[i]] = p[i];
  const double x = c.e.fn(at), y = c.rhs.fn(at);
  switch (c.op) {
    case ibex::LT: return x < y;
    case ibex::LEQ: return x <= y;
    case ibex::EQ: return x == y;
    case ibex::GEQ: return x >= y;
    case ibex::GT: return x > y;
  }
  return false;
}
// Dimension d occurs in a constraint.
static bool occurs(const Ctr& k, size_t d) {
  for (const auto* c : k.ctrs) {
    ibex::ExprNode::Point at;
    for (size_t i = 0; i < k.symbols.size(); ++i)
      if (i != d) at[k.symbols[i]] = 0.5;
    try {
      c->e.fn(at);
      c->rhs.fn(at);
    } catch (const std::out_of_range&) {
      return true;
    }
  }
  return false;
}
template <class V>
static bool inside(const Pt& p, const V& v) {
  if (v.is_empty()) return false;
  for (int i = 0; i < v.size(); ++i)
    if (!v[i].contains(p[i])) return false;
  return true;
}
// Shrinks x; returns true if it is unchanged.
static bool shrink(const Ctr& k, ibex::IntervalVector* x) {
  if (x->is_empty()) return true;
  // Only the dimensions of the constraint are looked at.
  std::vector<bool> occ;
  for (int i = 0; i < x->size(); ++i) occ.push_back(occurs(k, i));
  std::vector<const Pt*> keep;
  for (const Pt& p : g_points) {
    bool ok = true;
    for (int i = 0; i < x->size(); ++i)
      ok = ok && (!occ[i] || (*x)[i].contains(p[i]));
    for (const auto* c : k.ctrs) ok = ok && sat(*c, k, p);
    if (ok) keep.push_back(&p);
  }
  if (keep.empty() && g_rng->coin()) {
    x->set_empty();
    return false;
  }
  bool same = true;
  for (int i = 0; i < x->size(); ++i) {
    if (!occ[i] || g_rng->coin(1, 3)) continue;
    double l = (*x)[i].lb(), u = (*x)[i].ub();
    double a = u, b = l;  // the hull of the points
    for (const Pt* p : keep) {
      a = std::fmin(a, (*p)[i]);
      b = std::fmax(b, (*p)[i]);
    }
    if (keep.empty()) a = b = (*x)[i].mid();
    const int w = g_rng->below(4);
    if (w != 0 && a > l) l = g_rng->coin(4, 5) || !(l > -1e6) ? a : (l + a) / 2;
    if (w != 1 && b < u) u = g_rng->coin(4, 5) || !(u < 1e6) ? b : (u + b) / 2;
    if (std::fabs(l - a) < 0.01) l = a;
    if (std::fabs(u - b) < 0.01) u = b;
    const Interval n(l, u);
    same = same && n == (*x)[i];
    (*x)[i] = n;
  }
  return same;
}
}  // namespace h

namespace ibex {
NumConstraint::NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c)
    : f{*new Function}, op{c.op} {
  h::Ctr& k = h::g_ctr[&f];
  for (int i = 0; i < x.size(); ++i) k.symbols.push_back(&x[i]);
  k.ctrs.push_back(&c);
}
Interval NumConstraint::right_hand_side() const { return Interval(0); }
std::ostream& operator<<(std::ostream& o, const NumConstraint&) { return o; }
bool Function::backward(const Interval&, IntervalVector& x) const {
  return h::shrink(h::g_ctr.at(this), &x);
}
void SystemFactory::add_var(const Array<const ExprSymbol>& x) {
  h::Ctr& k = h::g_ctr[this];
  k = h::Ctr{};
  for (int i = 0; i < x.size(); ++i) k.symbols.push_back(&x[i]);
}
void SystemFactory::add_ctr(const ExprCtr& c) {
  h::g_ctr[this].ctrs.push_back(&c);
}
System::System(const SystemFactory& f)
    : nb_ctr(static_cast<int>(h::g_ctr[&f].ctrs.size())) {
  h::g_ctr[this] = h::Ctr(h::g_ctr[&f]);
}
LinearizerCombo::LinearizerCombo(const System& s, linear_mode) {
  h::g_ctr[this] = h::Ctr(h::g_ctr.at(&s));
}
CtcPolytopeHull::CtcPolytopeHull(LinearizerCombo& l) {
  h::g_ctr[this] = h::Ctr(h::g_ctr.at(&l));
}
void CtcPolytopeHull::contract(IntervalVector& x) {
  // One constraint after the other: constraints without common variables have
  // no effect on each other unless the box becomes empty.
  const h::Ctr k{h::g_ctr.at(this)};
  for (const ExprCtr* c : k.ctrs) h::shrink(h::Ctr{k.symbols, {c}}, &x);
}
void cleanup(const ExprNode&, bool) {}
}  // namespace ibex

namespace h {
static Formula atom(Rng* g, const std::vector<Variable>& vs) {
  auto v = [&]() { return Expression{g->pick(vs)}; };
  Expression e;
  switch (g->below(5)) {
    case 0: e = v(); break;
    case 1: e = (g->below(5) - 2) * v() + (g->below(5) - 2) * v(); break;
    case 2: e = v() * v(); break;
    case 3: e = pow(v(), 2) - v(); break;
    default: e = v() + (g->below(7) - 3) * v() + v(); break;
  }
  const double c = (g->below(17) - 8) * 0.5;
  switch (g->below(6)) {
    case 0: return e == c;
    case 1: return e != c;
    case 2: return e > c;
    case 3: return e >= c;
    case 4: return e < c;
    default: return e <= c;
  }
}
static Formula some_formula(Rng* g, const std::vector<Variable>& vs, int depth) {
  if (depth <= 0 || g->coin(1, 4)) return atom(g, vs);
  Formula f = some_formula(g, vs, depth - 1);
  const bool conj = g->coin();
  for (int k = 1 + g->below(3); k > 0; --k) {
    const Formula x{some_formula(g, vs, depth - 1)};
    f = conj ? f && x : f || x;
  }
  return g->coin(1, 6) ? !f : f;
}
// A contractor and what it stands for, as a function of the point.
typedef std::function<bool(const Pt&)> Meaning;
struct Built {
  Contractor c;
  Meaning m;
  std::string text;
  bool join;
};
static std::vector<Variable> g_vars;
static bool true_at(const Formula& f, const Pt& p) {
  Asg a;
  for (size_t i = 0; i < g_vars.size(); ++i)
    a.num[g_vars[i].get_id()] = p[i];
  return truth(f, a) == T_;
}
static Built build(Rng* g, const Box& box, const Config& cf, int depth) {
  const auto always = [](const Pt&) { return true; };
  if (depth <= 0 || g->coin(1, 4)) {
    if (g->coin(1, 10))
      return Built{make_contractor_id(cf), always, "id", false};
    if (g->coin(1, 5))
      return Built{make_contractor_integer(box, cf), always, "integer", false};
    const Formula f{some_formula(g, g_vars, g->below(3))};
    if (is_true(f) || is_false(f))
      return Built{make_contractor_id(cf), always, "id", false};
    g_stage = "Generate(" + str(f) + ")";
    return Built{GenericContractorGenerator{}.Generate(f, box, cf),
                 [f](const Pt& p) { return true_at(f, p); }, str(f),
                 !is_relational(f)};
  }
  std::vector<Contractor> cs;
  std::vector<Meaning> ms;
  std::string text;
  // The worklist of a fixpoint may never become empty if a join is in it.
  bool join = false;
  for (int k = 1 + g->below(4); k > 0; --k) {
    Built b{build(g, box, cf, depth - 1)};
    join = join || b.join;
    cs.push_back(b.c);
    ms.push_back(b.m);
    text += (text.empty() ? "" : ", ") + b.text;
  }
  const auto every = [ms](const Pt& p) {
    for (const auto& m : ms)
      if (!m(p)) return false;
    return true;
  };
  const auto stop = [](const Box::IntervalVector& a,
                       const Box::IntervalVector& b) {
    return g_rng->coin(1, 3) || a == b;
  };
  const int kind = g->below(4);
  switch (join && kind == 2 ? 1 : kind) {
    case 0:
      return Built{make_contractor_seq(cs, cf), every, "seq(" + text + ")",
                   join};
    case 1:
      return Built{make_contractor_fixpoint(stop, cs, cf), every,
                   "fixpoint(" + text + ")", join};
    case 2:
      return Built{make_contractor_worklist_fixpoint(stop, cs, cf), every,
                   "worklist(" + text + ")", join};
    default:
      return Built{make_contractor_join(cs, cf),
                   [ms](const Pt& p) {
                     for (const auto& m : ms)
                       if (m(p)) return true;
                     return false;
                   },
                   "join(" + text + ")", true};
  }
}
static std::string show(const Pt& p) {
  std::string s;
  for (size_t i = 0; i < p.size(); ++i)
    s += g_vars[i].get_name() + "=" + str(p[i]) + " ";
  return s;
}
static std::string show(const Box& b) {
  std::ostringstream o;
  for (int i = 0; i < b.size(); ++i)
    o << b.variable(i).get_name() << " in " << b[i] << "; ";
  return o.str();
}
static void run(Rng* g, bool explain) {
  g_rng = g;
  g_ctr.clear();
  g_vars.clear();
  std::vector<Variable> all;
  for (const auto* p : {&pool().real, &pool().ints, &pool().bins})
    all.insert(all.end(), p->begin(), p->end());
  for (int n = 1 + g->below(3); n > 0; --n) {
    const int k = g->below(static_cast<int>(all.size()));
    g_vars.push_back(all[k]);
    all.erase(all.begin() + k);
  }
  Box box{g_vars};
  g_points.clear();
  for (int i = 0; i < box.size(); ++i) {
    const bool bin = g_vars[i].get_type() == Variable::Type::BINARY;
    const double a = bin ? 0 : (g->below(33) - 20) * 0.25;
    const double b = bin ? 1 : a + g->below(25) * 0.25;
    const bool real = g_vars[i].get_type() == Variable::Type::CONTINUOUS;
    box[i] = g->coin(1, 12) && real ? Interval(a, HUGE_VAL) : Interval(a, b);
  }
  for (int n = 10 + g->below(20); n > 0; --n) {
    Pt p;
    for (int i = 0; i < box.size(); ++i) {
      const bool real = g_vars[i].get_type() == Variable::Type::CONTINUOUS;
      const double l = box[i].lb(), u = std::fmin(box[i].ub(), l + 9);
      double x = l + 0.25 * g->below(static_cast<int>((u - l) * 4) + 1);
      if (!real) x = g->coin() ? std::floor(x) : std::ceil(x);
      p.push_back(x);
    }
    g_points.push_back(p);
  }
  Config cf;
  cf.mutable_use_polytope() = g->coin(1, 3);
  cf.mutable_number_of_jobs() = g->coin(1, 4) ? 2 : 1;
  const Built b{build(g, box, cf, g->below(3))};
  ContractorStatus cs{box, g->coin(2, 3) ? -1 : g->below(box.size())};
  for (int k = explain ? 3 : 1 + g->below(2); k > 0; --k) {
    const Box before{cs.box()};
    if (before.interval_vector().is_empty()) return;
    const std::string text = b.text + " on " + show(before);
    g_stage = text;
    b.c.Prune(&cs);
    ++g_checks;
    const Box& after{cs.box()};
    const std::string result = text + " gives " + show(after);
    const bool gone = after.interval_vector().is_empty();
    if (!gone)
      for (int i = 0; i < box.size(); ++i)
        if (!after[i].is_subset(before[i])) fail("the box grows: " + result);
    if (explain) {
      if (!gone) continue;
      // The constraints of the explanation exclude every point.
      const std::set<Formula> core{cs.Explanation()};
      std::string c;
      for (const Formula& f : core) c += "{" + str(f) + "} ";
      for (const Pt& p : g_points) {
        if (!inside(p, box.interval_vector())) continue;
        ++g_checks;
        bool ok = false;
        for (const Formula& f : core) ok = ok || !true_at(f, p);
        if (!ok)
          fail("the explanation " + c + "holds at " + show(p) +
               " of the box that was pruned to nothing: " + result);
      }
      return;
    }
    for (const Pt& p : g_points) {
      if (!inside(p, before.interval_vector())) continue;
      ++g_checks;
      if (b.m(p) && !inside(p, after.interval_vector()))
        fail("the solution " + show(p) + " is lost: " + result);
    }
  }
}
void p25(Rng* g) { run(g, true); }
void p41(Rng* g) { run(g, false); }
}  // namespace h

int main(int argc, char** argv) { return h::drive(argc, argv, {{"P25", h::p25}, {"P41", h::p41}}); }
