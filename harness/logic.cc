// Concrete oracles for the logic-level properties P01-P05, P16, P17, P23.
#include <algorithm>

#include "common.h"
#include "dreal/symbolic/prefix_printer.h"
#include "dreal/util/if_then_else_eliminator.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"

namespace h {
uint64_t max_pool_id() {
  uint64_t m = 0;
  for (const auto* vs :
       {&pool().real, &pool().ints, &pool().bools, &pool().bins})
    for (const Variable& v : *vs) m = std::max<uint64_t>(m, v.get_id());
  return m;
}

Formula gen_formula(Rng* g, int max_depth, GenOpt o) {
  o.ite = o.ite && g->coin(1, 3);
  o.forall = o.forall && g->coin(1, 2);
  o.fun = g->coin(1, 4);
  o.div = g->coin(1, 4);
  o.nonlinear = g->coin(1, 2);
  Gen gen(g, o);
  for (int t = 0; t < 20; ++t) {
    Formula f{gen.form(1 + g->below(max_depth))};
    if (size_of(f) < 300) return f;
  }
  return Formula{gen.atom(1)};
}
std::string ctx(const std::string& what, const Formula& in, const Formula& out,
                const Asg* a) {
  std::string s = what + "\n  input:  " + str(in) + "\n  output: " + str(out);
  if (a) {
    Variables vs = in.GetFreeVariables();
    s += "\n  assignment: " + a->show(vs + out.GetFreeVariables());
  }
  return s;
}
void same_truth(const std::string& what, const Formula& in, const Formula& out,
                Rng* g, int n) {
  for (int k = 0; k < n; ++k) {
    const Asg a = random_asg(g);
    const Tri t1 = truth(in, a), t2 = truth(out, a);
    if (t1 == U_ || t2 == U_) continue;
    ++g_checks;
    if (t1 != t2)
      fail(ctx(what + ": input is " + (t1 == T_ ? "true" : "false") +
                   ", output is " + (t2 == T_ ? "true" : "false"),
               in, out, &a));
  }
}

// ------------------------------------------------------------------ P01
bool nnf_shape(const Formula& f, bool push) {
  if (is_conjunction(f) || is_disjunction(f)) {
    for (const Formula& g : get_operands(f))
      if (!nnf_shape(g, push)) return false;
    return true;
  }
  if (is_negation(f)) {
    const Formula& g = get_operand(f);
    if (is_forall(g)) return true;
    if (is_variable(g)) return true;
    return !push && is_relational(g);
  }
  return true;
}
void p01(Rng* g) {
  const Formula f = gen_formula(g, 5, GenOpt{});
  for (bool push : {true, false}) {
    g_stage = "Nnfizer::Convert(" + str(f) + ", " + (push ? "true" : "false") +
              ")";
    const Formula r = Nnfizer{}.Convert(f, push);
    if (!nnf_shape(r, push))
      fail(ctx(std::string("not in negation normal form, push=") +
                   (push ? "true" : "false"),
               f, r, nullptr));
    same_truth(std::string("NNF changes meaning, push=") +
                   (push ? "true" : "false"),
               f, r, g, 12);
  }
}

// ------------------------------------------------------------------ P02
bool literal(const Formula& f) {
  if (is_conjunction(f) || is_disjunction(f)) return false;
  if (is_negation(f)) {
    const Formula& g = get_operand(f);
    return is_variable(g) || is_relational(g) || is_forall(g);
  }
  return true;
}
bool clause(const Formula& f) {
  if (is_disjunction(f)) {
    for (const Formula& g : get_operands(f))
      if (!literal(g)) return false;
    return true;
  }
  return literal(f);
}
bool cnf(const Formula& f) {
  if (is_conjunction(f)) {
    for (const Formula& g : get_operands(f))
      if (!clause(g)) return false;
    return true;
  }
  return clause(f);
}
double clauses_of(const Formula& f, bool pos) {
  if (is_negation(f)) return clauses_of(get_operand(f), !pos);
  if (is_conjunction(f) || is_disjunction(f)) {
    double s = 0, p = 1;
    for (const Formula& g : get_operands(f)) {
      const double c = clauses_of(g, pos);
      s += c;
      p *= c;
    }
    return is_conjunction(f) == pos ? s : p;
  }
  if (is_forall(f)) return std::max(clauses_of(get_quantified_formula(f), true),
                                    clauses_of(get_quantified_formula(f), true));
  if (is_equal_to(f) && pos) return 2;
  if (is_not_equal_to(f) && !pos) return 2;
  return 1;
}
bool small_cnf(const Formula& f, double limit) {
  bool ok = clauses_of(f, true) <= limit;
  walk(f, [](const Expression&) {},
       [&](const Formula& g) {
         if (is_forall(g) && clauses_of(get_quantified_formula(g), true) > limit)
           ok = false;
       });
  return ok;
}
void p02(Rng* g) {
  const Formula f = gen_formula(g, 4, GenOpt{});
  if (!small_cnf(f, 40)) return;
  g_stage = "NaiveCnfizer::Convert(" + str(f) + ")";
  const Formula r = NaiveCnfizer{}.Convert(f);
  if (!cnf(r)) fail(ctx("not in conjunctive normal form", f, r, nullptr));
  same_truth("CNF conversion changes meaning", f, r, g, 16);
}

// ------------------------------------------------------------------ P03
struct Sat {
  // literal: (atom index, sign); atoms are auxiliary variables
  std::vector<std::vector<std::pair<uint64_t, bool>>> clauses;
  std::map<uint64_t, bool> val;
  long budget{20000};
  int solve() {  // 1 sat, 0 unsat, -1 out of budget
    if (--budget < 0) return -1;
    std::vector<uint64_t> trail;
    bool conflict = false, change = true;
    const std::vector<std::pair<uint64_t, bool>>* open = nullptr;
    while (change && !conflict) {
      change = false;
      open = nullptr;
      for (const auto& c : clauses) {
        int un = 0;
        bool sat = false;
        std::pair<uint64_t, bool> last{0, false};
        for (const auto& l : c) {
          auto it = val.find(l.first);
          if (it == val.end()) {
            ++un;
            last = l;
          } else if (it->second == l.second) {
            sat = true;
            break;
          }
        }
        if (sat) continue;
        if (un == 0) {
          conflict = true;
          break;
        }
        if (un == 1) {
          val[last.first] = last.second;
          trail.push_back(last.first);
          change = true;
        } else {
          open = &c;
        }
      }
    }
    int r = 0;
    if (!conflict) {
      if (!open) {
        return 1;
      }
      uint64_t v = 0;
      for (const auto& l : *open)
        if (!val.count(l.first)) v = l.first;
      for (bool b : {true, false}) {
        val[v] = b;
        r = solve();
        if (r != 0) return r;
        val.erase(v);
      }
    }
    for (uint64_t t : trail) val.erase(t);
    return r;
  }
};
std::string show(const std::vector<Formula>& v) {
  std::string s;
  for (const Formula& f : v) s += "\n    " + str(f);
  return s;
}
void check_p03(TseitinCnfizer* c, const Formula& f, Rng* g) {
  g_stage = "TseitinCnfizer::Convert(" + str(f) + ")";
  const uint64_t before = Variable{"marker", Variable::Type::BOOLEAN}.get_id();
  const std::vector<Formula> r = c->Convert(f);
  for (const Formula& cl : r)
    if (!clause(cl))
      fail("not a clause: " + str(cl) + "\n  input: " + str(f) +
           "\n  output:" + show(r));
  const std::set<uint64_t> orig = [&f]() {
    std::set<uint64_t> s;
    for (auto i : free_ids(f)) s.insert(i);
    return s;
  }();
  std::set<uint64_t> aux;
  for (const Formula& cl : r)
    for (const Variable& v : cl.GetFreeVariables())
      if (!orig.count(v.get_id())) {
        if (v.get_id() < before || v.get_type() != Variable::Type::BOOLEAN)
          fail("auxiliary variable " + str(v) + " is not fresh\n  input: " +
               str(f) + "\n  output:" + show(r));
        aux.insert(v.get_id());
      }
  for (const auto& p : c->map())
    if (orig.count(p.first.get_id()))
      fail("auxiliary variable " + str(p.first) + " occurs in the input " +
           str(f));
  for (int k = 0; k < 10; ++k) {
    const Asg a = random_asg(g);
    const Tri t = truth(f, a);
    if (t == U_) continue;
    Sat s;
    bool skip = false;
    for (const Formula& cl : r) {
      std::vector<std::pair<uint64_t, bool>> lits;
      bool sat = false;
      std::set<Formula> ops;
      if (is_disjunction(cl))
        ops = get_operands(cl);
      else
        ops.insert(cl);
      for (const Formula& l : ops) {
        const bool neg = is_negation(l);
        const Formula at = neg ? get_operand(l) : l;
        if (is_variable(at) && aux.count(get_variable(at).get_id())) {
          lits.emplace_back(get_variable(at).get_id(), !neg);
          continue;
        }
        const Tri v = truth(l, a);
        if (v == U_) skip = true;
        if (v == T_) sat = true;
      }
      if (!sat) s.clauses.push_back(lits);
    }
    if (skip) continue;
    const int res = s.solve();
    if (res < 0) continue;
    ++g_checks;
    if ((t == T_) != (res == 1))
      fail(std::string("the formula is ") + (t == T_ ? "true" : "false") +
           " but the clauses are " + (res == 1 ? "satisfiable" : "unsatisfiable") +
           "\n  input: " + str(f) + "\n  assignment: " +
           a.show(f.GetFreeVariables()) + "\n  output:" + show(r));
  }
}
void p03(Rng* g) {
  TseitinCnfizer c;
  for (int n = 1 + g->below(2); n > 0; --n) {
    const Formula f = gen_formula(g, 5, GenOpt{});
    if (!small_cnf(f, 200)) return;
    bool ok = true;
    walk(f, [](const Expression&) {}, [&](const Formula& q) {
      if (is_forall(q) && !small_cnf(get_quantified_formula(q), 20)) ok = false;
    });
    if (ok) check_p03(&c, f, g);
  }
}

// ------------------------------------------------------------------ P04
// Values that a variable introduced by the elimination is compared with.
std::vector<ld> candidates(const Variable& v, const Formula& body,
                           const Asg& a) {
  std::set<ld> r;
  walk(body, [](const Expression&) {}, [&](const Formula& f) {
    if (!is_relational(f)) return;
    const Expression& l = get_lhs_expression(f);
    const Expression& q = get_rhs_expression(f);
    const Expression* other = nullptr;
    if (is_variable(l) && get_variable(l).equal_to(v)) other = &q;
    if (is_variable(q) && get_variable(q).equal_to(v)) other = &l;
    if (!other) return;
    const Val x = value(*other, a);
    if (x.s == Val::OK && r.size() < 12) r.insert(x.v);
  });
  std::vector<ld> s(r.begin(), r.end());
  return s;
}
struct Eval4 : public Eval {
  uint64_t base{0};
  static uint64_t key(uint64_t id, uint64_t base) {
    return id <= base ? id : (1ull << 60) - id;
  }
};
Tri exists(std::vector<Variable> vs, size_t k, const Formula& r, Asg* a,
           Eval* e) {
  if (k == vs.size()) return e->tr(r, *a);
  std::vector<ld> c = candidates(vs[k], r, *a);
  c.push_back(0);
  c.push_back(7);
  Tri res = F_;
  for (ld x : c) {
    a->num[vs[k].get_id()] = x;
    const Tri t = exists(vs, k + 1, r, a, e);
    a->num.erase(vs[k].get_id());
    if (t == T_) return T_;
    if (t == U_) res = U_;
    if (e->budget < 0) return U_;
  }
  return res;
}
// Evaluates a formula with quantified elimination variables: originals first,
// then introduced variables from the innermost (largest id) to the outermost.
struct QEval {
  uint64_t base;
};
void check_p04(IfThenElseEliminator* el, const Formula& f, Rng* g) {
  g_stage = "IfThenElseEliminator::Process(" + str(f) + ")";
  const uint64_t base = Variable{"marker", Variable::Type::BOOLEAN}.get_id();
  const Formula r = el->Process(f);
  if (has_ite(r)) fail(ctx("the result contains an if-then-else", f, r, nullptr));
  std::set<uint64_t> known;
  for (const Variable& v : el->variables()) known.insert(v.get_id());
  std::vector<Variable> fresh;
  const auto in = free_ids(f);
  for (const Variable& v : r.GetFreeVariables()) {
    if (in.count(v.get_id())) continue;
    if (!known.count(v.get_id()))
      fail(ctx("introduced variable " + str(v) + " is not reported", f, r,
               nullptr));
    fresh.push_back(v);
  }
  for (uint64_t k : known)
    if (in.count(k)) fail(ctx("introduced variable is not fresh", f, r, nullptr));
  if (fresh.size() > 7) return;
  bool big = false;
  walk(r, [](const Expression&) {}, [&](const Formula& q) {
    if (is_forall(q) && get_quantified_variables(q).size() > 4) big = true;
  });
  if (big) return;
  // innermost variables (created last) first
  std::sort(fresh.begin(), fresh.end(), [](const Variable& a, const Variable& b) {
    return a.get_id() > b.get_id();
  });
  for (int k = 0; k < 6; ++k) {
    Asg a = random_asg(g);
    const Tri t = truth(f, a);
    if (t == U_) continue;
    Eval e;
    e.budget = 60000;
    e.strict = false;
    e.domain = [base](const Variable& v, const Formula& body, const Asg& b) {
      return v.get_id() > base ? candidates(v, body, b) : std::vector<ld>{};
    };
    e.desc_from = base;
    const Tri s = exists(fresh, 0, r, &a, &e);
    if (s == U_) continue;
    ++g_checks;
    if (s != t)
      fail(ctx(std::string("the formula is ") + (t == T_ ? "true" : "false") +
                   " but its elimination is " +
                   (s == T_ ? "satisfiable" : "unsatisfiable") +
                   " over the introduced variables",
               f, r, &a));
  }
}
void p04(Rng* g) {
  IfThenElseEliminator el;
  GenOpt o;
  Gen dummy(g, o);
  o.ite = true;
  o.consts = 0;
  o.forall = g->coin(1, 3);
  o.fun = g->coin(1, 6);
  o.div = g->coin(1, 6);
  o.nonlinear = g->coin(1, 3);
  for (int n = 0; n < 5; ++n) {
    Gen gen(g, o);
    Formula f{g->coin() ? gen.form(1 + g->below(4)) : gen.rel(1 + g->below(3))};
    if (size_of(f) > 120) continue;
    check_p04(&el, f, g);
    return;
  }
}

// ------------------------------------------------------------------ P05
Tri truth_abs(const Formula& b, const PredicateAbstractor& pa, const Asg& a) {
  switch (b.get_kind()) {
    case FormulaKind::Var: {
      const auto it = pa.var_to_formula_map().find(get_variable(b));
      if (it == pa.var_to_formula_map().end()) return truth(b, a);
      return truth(it->second, a);
    }
    case FormulaKind::Not:
      return tnot(truth_abs(get_operand(b), pa, a));
    case FormulaKind::And:
    case FormulaKind::Or: {
      const bool an = is_conjunction(b);
      bool any = false;
      for (const Formula& f : get_operands(b)) {
        const Tri t = truth_abs(f, pa, a);
        if (t == U_) return U_;
        if ((t == F_) == an) any = true;
      }
      return any == an ? F_ : T_;
    }
    default:
      return truth(b, a);
  }
}
void p05(Rng* g) {
  PredicateAbstractor pa;
  std::vector<std::pair<Formula, Formula>> old;
  const int n = 1 + g->below(4);
  for (int k = 0; k < n; ++k) {
    std::vector<Formula> fs;
    Formula f;
    Formula b;
    if (g->coin(1, 4)) {
      for (int m = g->below(4); m > 0; --m)
        fs.push_back(gen_formula(g, 3, GenOpt{}));
      std::set<Formula> s(fs.begin(), fs.end());
      f = make_conjunction(s);
      g_stage = "PredicateAbstractor::Convert(vector of" + show(fs) + ")";
      b = pa.Convert(fs);
    } else {
      f = !old.empty() && g->coin(1, 4) ? g->pick(old).first
                                        : gen_formula(g, 4, GenOpt{});
      if (g->coin(1, 4)) f = !f;
      g_stage = "PredicateAbstractor::Convert(" + str(f) + ")";
      b = pa.Convert(f);
    }
    bool pure = true;
    walk(b, [&](const Expression&) { pure = false; },
         [&](const Formula& q) { if (is_forall(q)) pure = false; });
    if (!pure)
      fail(ctx("the abstraction contains something that is not Boolean", f, b,
               nullptr));
    old.emplace_back(f, b);
    for (const auto& o : old) {
      for (int m = 0; m < 6; ++m) {
        const Asg a = random_asg(g);
        const Tri t1 = truth(o.first, a), t2 = truth_abs(o.second, pa, a);
        if (t1 == U_ || t2 == U_) continue;
        ++g_checks;
        if (t1 != t2)
          fail(ctx("abstraction changes meaning after putting predicates back",
                   o.first, o.second, &a));
      }
    }
    std::set<std::string> preds;
    for (const auto& p : pa.var_to_formula_map()) {
      ++g_checks;
      if (!preds.insert(dump(p.second)).second)
        fail("two variables stand for the same predicate " + str(p.second));
      try {
        if (!pa[p.second].equal_to(p.first))
          fail("predicate " + str(p.second) +
               " is mapped to another variable than " + str(p.first));
      } catch (const std::out_of_range&) {
        fail("predicate " + str(p.second) + " has no variable");
      }
      if (dump(pa[p.first]) != dump(p.second))
        fail("lookup of " + str(p.first) + " disagrees with the map");
    }
    for (const auto& o : old) {
      const Formula again = pa.Convert(o.first);
      if (dump(again) != dump(o.second))
        fail(ctx("converting the same formula twice gives different "
                 "abstractions; second: " + str(again),
                 o.first, o.second, nullptr));
    }
  }
}

// ------------------------------------------------------------------ P16
void p16(Rng* g) {
  GenOpt o;
  o.ite = false;
  o.forall = false;
  o.fun = g->coin(1, 4);
  o.div = g->coin(1, 4);
  o.nonlinear = g->coin(1, 2);
  o.consts = 0;
  Gen gen(g, o);
  const Formula f = gen.form(1 + g->below(4));
  if (size_of(f) > 300) return;
  static const std::vector<double> ds = {0.5, 1, 0.125, 3, 0.001};
  const double delta = g->pick(ds);
  g_stage = "DeltaStrengthen(" + str(f) + ", " + str(delta) + ")";
  const Formula s = DeltaStrengthen(f, delta);
  g_stage = "DeltaWeaken(" + str(f) + ", " + str(delta) + ")";
  const Formula w = DeltaWeaken(f, delta);
  for (int k = 0; k < 24; ++k) {
    const Asg a = random_asg(g);
    const Tri t = truth(f, a), ts = truth(s, a), tw = truth(w, a);
    if (t == U_) continue;
    ++g_checks;
    if (ts == T_ && t == F_)
      fail(ctx("strengthened formula (delta=" + str(delta) +
                   ") holds but the original does not",
               f, s, &a));
    if (t == T_ && tw == F_)
      fail(ctx("original holds but the weakened formula (delta=" + str(delta) +
                   ") does not",
               f, w, &a));
  }
}

// ------------------------------------------------------------------ P17
bool atomic17(const Formula& f) {
  if (is_conjunction(f) || is_disjunction(f)) return false;
  if (is_negation(f)) {
    const Formula& o = get_operand(f);
    return is_variable(o) || is_relational(o);
  }
  return true;
}
bool literal17(const Formula& f) {
  return atomic17(f) || (is_negation(f) && atomic17(get_operand(f)));
}
bool clause17(const Formula& f) {
  if (is_disjunction(f)) {
    for (const Formula& o : get_operands(f))
      if (!literal17(o)) return false;
    return true;
  }
  return literal17(f);
}
bool cnf17(const Formula& f) {
  if (is_conjunction(f)) {
    for (const Formula& o : get_operands(f))
      if (!clause17(o)) return false;
    return true;
  }
  return clause17(f);
}
void p17(Rng* g) {
  Formula f = gen_formula(g, 3, GenOpt{});
  if (g->coin(1, 3) && small_cnf(f, 30)) f = NaiveCnfizer{}.Convert(f);
  g_stage = "is_atomic/is_clause/is_cnf(" + str(f) + ")";
  ++g_checks;
  if (is_atomic(f) != atomic17(f)) fail("is_atomic is wrong on " + str(f));
  if (is_clause(f) != clause17(f))
    fail(std::string("is_clause answers ") + (is_clause(f) ? "true" : "false") +
         " on " + str(f));
  if (is_cnf(f) != cnf17(f))
    fail(std::string("is_cnf answers ") + (is_cnf(f) ? "true" : "false") +
         " on " + str(f));
  if (cnf17(f)) {
    g_stage = "get_clauses(" + str(f) + ")";
    const std::set<Formula> cs = get_clauses(f);
    for (const Formula& c : cs)
      if (!clause17(c)) fail("get_clauses returns a non-clause " + str(c) +
                             " for " + str(f));
    for (int k = 0; k < 10; ++k) {
      const Asg a = random_asg(g);
      const Tri t = truth(f, a);
      if (t == U_) continue;
      Tri r = T_;
      for (const Formula& c : cs) {
        const Tri u = truth(c, a);
        if (u == U_) r = U_;
        if (u == F_ && r == T_) r = F_;
      }
      if (r != U_ && r != t)
        fail("conjunction of get_clauses differs from " + str(f) + " under " +
             a.show(f.GetFreeVariables()));
    }
  }
  Variables v1, v2;
  const int num = g->below(5), den = 1 + g->below(6);
  for (const auto* vs :
       {&pool().real, &pool().ints, &pool().bools, &pool().bins})
    for (const Variable& v : *vs) {
      if (g->coin(num, 4 + den)) v1.insert(v);
      if (g->coin(num, 4 + den)) v2.insert(v);
    }
  bool common = false;
  for (const Variable& a : v1)
    for (const Variable& b : v2) common = common || a.equal_to(b);
  if (HaveIntersection(v1, v2) != common)
    fail("HaveIntersection(" + str(v1) + ", " + str(v2) + ") is wrong");
}

// ------------------------------------------------------------------ P23
struct SExp {
  std::string atom;
  std::vector<SExp> kids;
  bool list{false};
};
SExp parse(const std::string& s, size_t* p) {
  while (*p < s.size() && s[*p] == ' ') ++*p;
  SExp r;
  if (*p >= s.size()) fail("prefix text ends early: " + s);
  if (s[*p] == '(') {
    ++*p;
    r.list = true;
    for (;;) {
      while (*p < s.size() && s[*p] == ' ') ++*p;
      if (*p >= s.size()) fail("unbalanced prefix text: " + s);
      if (s[*p] == ')') {
        ++*p;
        return r;
      }
      r.kids.push_back(parse(s, p));
    }
  }
  while (*p < s.size() && s[*p] != ' ' && s[*p] != '(' && s[*p] != ')')
    r.atom += s[(*p)++];
  if (r.atom.empty()) fail("bad prefix text: " + s);
  return r;
}
struct PVal {
  bool boolean{false};
  Val v;
  Tri t{U_};
};
PVal num(const Val& v) {
  PVal r;
  r.v = v;
  return r;
}
PVal boo(Tri t) {
  PVal r;
  r.boolean = true;
  r.t = t;
  return r;
}
PVal peval(const SExp& e, const Asg& a, const std::string& text) {
  if (!e.list) {
    if (e.atom == "true") return boo(T_);
    if (e.atom == "false") return boo(F_);
    for (const Variable& v : pool().bools)
      if (v.get_name() == e.atom) return boo(a.boo.at(v.get_id()) ? T_ : F_);
    for (const auto* vs : {&pool().real, &pool().ints, &pool().bins})
      for (const Variable& v : *vs)
        if (v.get_name() == e.atom) return num(constant(a.num.at(v.get_id())));
    char* end = nullptr;
    const double d = std::strtod(e.atom.c_str(), &end);
    if (*end || e.atom.empty() || e.atom[0] == '-' || e.atom[0] == '+')
      fail("unreadable token " + e.atom + " in " + text);
    return num(constant(d));
  }
  if (e.kids.empty() || e.kids[0].list) fail("no operator in " + text);
  const std::string& op = e.kids[0].atom;
  std::vector<PVal> k;
  for (size_t i = 1; i < e.kids.size(); ++i)
    k.push_back(peval(e.kids[i], a, text));
  auto arity = [&](size_t lo, size_t hi) {
    if (k.size() < lo || k.size() > hi) fail("wrong arity of " + op + " in " + text);
  };
  auto nums = [&](size_t lo, size_t hi) {
    arity(lo, hi);
    for (const PVal& v : k)
      if (v.boolean) fail("formula used as a number under " + op + " in " + text);
  };
  auto boos = [&](size_t lo, size_t hi) {
    arity(lo, hi);
    for (const PVal& v : k)
      if (!v.boolean) fail("number used as a formula under " + op + " in " + text);
  };
  const size_t many = 1000;
  if (op == "+") {
    nums(1, many);
    Val r = constant(0);
    for (const PVal& v : k) r = vadd(r, v.v);
    return num(r);
  }
  if (op == "*") {
    nums(1, many);
    Val r = constant(1);
    for (const PVal& v : k) r = vmul(r, v.v);
    return num(r);
  }
  if (op == "-") {
    nums(1, many);
    if (k.size() == 1) return num(vmul(constant(-1), k[0].v));
    Val r = k[0].v;
    for (size_t i = 1; i < k.size(); ++i)
      r = vadd(r, vmul(constant(-1), k[i].v));
    return num(r);
  }
  if (op == "/") { nums(2, 2); return num(vdiv(k[0].v, k[1].v)); }
  if (op == "^" || op == "pow") { nums(2, 2); return num(vpow(k[0].v, k[1].v)); }
  if (op == "atan2") { nums(2, 2); return num(vatan2(k[0].v, k[1].v)); }
  if (op == "min") { nums(2, 2); return num(vmin(k[0].v, k[1].v, false)); }
  if (op == "max") { nums(2, 2); return num(vmin(k[0].v, k[1].v, true)); }
  if (op == "log") { nums(1, 1); return num(vlog(k[0].v)); }
  if (op == "abs") { nums(1, 1); return num(vabs(k[0].v)); }
  if (op == "sqrt") { nums(1, 1); return num(vsqrt(k[0].v)); }
  if (op == "tan") { nums(1, 1); return num(vtan(k[0].v)); }
  if (op == "asin" || op == "acos") {
    nums(1, 1);
    return num(vasin(k[0].v, op == "acos"));
  }
  static const std::map<std::string, ld (*)(ld)> fs = {
      {"exp", [](ld x) { return std::exp(x); }},
      {"sin", [](ld x) { return std::sin(x); }},
      {"cos", [](ld x) { return std::cos(x); }},
      {"atan", [](ld x) { return std::atan(x); }},
      {"sinh", [](ld x) { return std::sinh(x); }},
      {"cosh", [](ld x) { return std::cosh(x); }},
      {"tanh", [](ld x) { return std::tanh(x); }}};
  auto it = fs.find(op);
  if (it != fs.end()) { nums(1, 1); return num(vunary(it->second, k[0].v, true)); }
  if (op == "ite") {
    arity(3, 3);
    if (!k[0].boolean || k[1].boolean || k[2].boolean) fail("bad ite in " + text);
    if (k[0].t == U_) return num(unk());
    return num(k[0].t == T_ ? k[1].v : k[2].v);
  }
  static const std::map<std::string, Rel> rels = {
      {"=", EQ}, {">", GT}, {">=", GE}, {"<", LT}, {"<=", LE}};
  auto ir = rels.find(op);
  if (ir != rels.end()) {
    nums(2, 2);
    return boo(compare(ir->second, k[0].v, k[1].v));
  }
  if (op == "not") { boos(1, 1); return boo(tnot(k[0].t)); }
  if (op == "and" || op == "or") {
    boos(1, many);
    bool any = false;
    for (const PVal& v : k) {
      if (v.t == U_) return boo(U_);
      if ((v.t == F_) == (op == "and")) any = true;
    }
    return boo(any == (op == "and") ? F_ : T_);
  }
  fail("unknown operator " + op + " in " + text);
}
template <typename T>
bool rough(const T& t) {
  bool r = false;
  walk(t,
       [&](const Expression& e) {
         switch (e.get_kind()) {
           case ExpressionKind::Abs: case ExpressionKind::Min:
           case ExpressionKind::Max: case ExpressionKind::IfThenElse:
           case ExpressionKind::UninterpretedFunction:
             r = true;
             break;
           default:
             break;
         }
       },
       [&](const Formula& f) { if (is_forall(f)) r = true; });
  return r;
}
void p23(Rng* g) {
  GenOpt o;
  o.forall = g->coin(1, 4);
  o.uf = g->coin(1, 5);
  o.realconst = g->coin(1, 5);
  o.ite = g->coin();
  o.consts = 1;
  Gen gen(g, o);
  const Expression e = gen.expr(1 + g->below(4));
  const Formula f = gen.form(1 + g->below(3));
  g_stage = "IsDifferentiable(" + str(e) + ") / " + str(f);
  ++g_checks;
  if (IsDifferentiable(e) && rough(e))
    fail("reported differentiable: " + str(e));
  if (IsDifferentiable(f) && rough(f))
    fail("reported differentiable: " + str(f));
  bool uf = false;
  auto seen = [&](const Expression& q) {
    if (is_uninterpreted_function(q) || is_nan(q)) uf = true;
  };
  walk(e, seen, [&](const Formula& q) { if (is_forall(q)) uf = true; });
  if (!uf) {
    g_stage = "ToPrefix(" + str(e) + ")";
    const std::string text = ToPrefix(e);
    size_t p = 0;
    const SExp s = parse(text, &p);
    if (p != text.size()) fail("trailing text in " + text);
    for (int k = 0; k < 6; ++k) {
      const Asg a = random_asg(g);
      const Val v = value(e, a);
      const PVal q = peval(s, a, text);
      if (q.boolean) fail("expression printed as a formula: " + text);
      if (v.s != Val::OK || q.v.s != Val::OK) continue;
      ++g_checks;
      if (far(v, q.v))
        fail("prefix text " + text + " does not denote " + str(e) + " under " +
             a.show(e.GetVariables()) + ": " + str(double(q.v.v)) + " vs " +
             str(double(v.v)));
    }
  }
  uf = false;
  walk(f, seen, [&](const Formula& q) { if (is_forall(q)) uf = true; });
  if (!uf) {
    g_stage = "ToPrefix(" + str(f) + ")";
    const std::string text = ToPrefix(f);
    size_t p = 0;
    const SExp s = parse(text, &p);
    if (p != text.size()) fail("trailing text in " + text);
    for (int k = 0; k < 6; ++k) {
      const Asg a = random_asg(g);
      const Tri t = truth(f, a, false);
      const PVal q = peval(s, a, text);
      if (!q.boolean) fail("formula printed as an expression: " + text);
      if (t == U_ || q.t == U_) continue;
      ++g_checks;
      if (t != q.t)
        fail("prefix text " + text + " does not denote " + str(f) + " under " +
             a.show(f.GetFreeVariables()));
    }
  }
}
}  // namespace h

int main(int argc, char** argv) {
  return h::drive(argc, argv,
                  {{"P01", h::p01}, {"P02", h::p02}, {"P03", h::p03},
                   {"P04", h::p04}, {"P05", h::p05}, {"P16", h::p16},
                   {"P17", h::p17}, {"P23", h::p23}});
}
