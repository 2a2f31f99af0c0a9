// Harness for P19 (scoped containers), P20 (option values), P21 (numeric
// conversions) and P22 (SMT-LIB sorts and terms).
#include <climits>
#include <cstdint>
#include <limits>
#include <map>
#include <set>

#include "common.h"

#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"
#include "dreal/util/math.h"
#include "dreal/util/option_value.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"

namespace h {
using dreal::OptionValue;
using dreal::ScopedUnorderedMap;
using dreal::ScopedUnorderedSet;
using dreal::ScopedVector;
using dreal::Sort;
using dreal::Term;

namespace {
struct BadHash {
  size_t operator()(int k) const { return static_cast<size_t>(k & 1); }
};

// ------------------------------------------------------------------ P19
template <class V>
std::string show_seq(const V& v) {
  std::ostringstream o;
  for (const auto& x : v) o << x << " ";
  return o.str();
}
void scoped_vector(Rng* g) {
  ScopedVector<int> v, keep;
  std::vector<int> m, mkeep;
  std::vector<std::vector<int>> st, stkeep;
  std::string tr = "ScopedVector:";
  const int n = 1 + g->below(25);
  for (int i = 0; i < n; ++i) {
    switch (g->below(9)) {
      case 0:
      case 1:
      case 2: {
        const int x = static_cast<int>(g->below(5));
        tr += " push_back(" + str(x) + ")";
        g_stage = tr;
        if (g->coin())
          v.push_back(x);
        else
          v.push_back(int{x});
        m.push_back(x);
        break;
      }
      case 3:
      case 4:
        tr += " push()";
        g_stage = tr;
        v.push();
        st.push_back(m);
        break;
      case 5:
      case 6: {
        tr += " pop()";
        g_stage = tr;
        bool thrown = false;
        size_t c = 0;
        try {
          c = v.pop();
        } catch (const std::runtime_error&) {
          thrown = true;
        }
        if (thrown != st.empty()) fail("pop: error expected only when nothing was pushed;" + tr);
        if (!st.empty()) {
          if (c != m.size() - st.back().size())
            fail("pop reports " + str(c) + " removed elements;" + tr);
          m = st.back();
          st.pop_back();
        }
        break;
      }
      case 7:
        tr += " save-copy";
        keep = v;
        mkeep = m;
        stkeep = st;
        break;
      case 8:
        tr += " restore-copy";
        if (g->coin())
          v = keep;
        else
          v = ScopedVector<int>(keep);
        m = mkeep;
        st = stkeep;
        break;
    }
    g_stage = tr;
    ++g_checks;
    std::vector<int> got(v.begin(), v.end());
    const ScopedVector<int>& cv = v;
    std::vector<int> rev(cv.rbegin(), cv.rend());
    std::reverse(rev.begin(), rev.end());
    std::vector<int> rev2 = cv.get_reverse();
    std::reverse(rev2.begin(), rev2.end());
    if (got != m || rev != m || rev2 != m || cv.get_vector() != m ||
        v.size() != m.size() || v.empty() != m.empty())
      fail("contents " + show_seq(got) + "instead of " + show_seq(m) + ";" + tr);
    for (size_t k = 0; k < m.size(); ++k)
      if (v[k] != m[k] || cv[k] != m[k]) fail("operator[];" + tr);
    if (!m.empty() && (v.first() != m.front() || v.last() != m.back() ||
                       cv.first() != m.front() || cv.last() != m.back()))
      fail("first/last;" + tr);
    if ((v < keep) != (m < mkeep) || (keep < v) != (mkeep < m))
      fail("operator< differs from that of vectors: " + show_seq(m) + "and " +
           show_seq(mkeep) + ";" + tr);
  }
}
template <class M>
void scoped_map(Rng* g, const char* name) {
  M v, keep;
  typedef std::map<int, int> Model;
  Model m, mkeep;
  std::vector<Model> st, stkeep;
  std::string tr = name;
  const int n = 1 + g->below(30);
  const int keys = 1 + g->below(6);
  for (int i = 0; i < n; ++i) {
    const int o = g->below(12);
    if (o < 5) {
      const int k = static_cast<int>(g->below(keys)), x = static_cast<int>(g->below(4));
      tr += " insert(" + str(k) + "," + str(x) + ")";
      g_stage = tr;
      v.insert(k, x);
      m[k] = x;
    } else if (o < 7) {
      tr += " push()";
      g_stage = tr;
      v.push();
      st.push_back(m);
    } else if (o < 9) {
      tr += " pop()";
      g_stage = tr;
      bool thrown = false;
      try {
        v.pop();
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      if (thrown != st.empty()) fail("pop: error expected only when nothing was pushed; " + tr);
      if (!st.empty()) {
        m = st.back();
        st.pop_back();
      }
    } else if (o == 9) {
      tr += " save-copy";
      keep = v;
      mkeep = m;
      stkeep = st;
    } else if (o == 10) {
      tr += " restore-copy";
      v = keep;
      m = mkeep;
      st = stkeep;
    } else if (g->coin(1, 3)) {
      tr += " clear()";
      g_stage = tr;
      v.clear();
      m.clear();
      st.clear();
    }
    g_stage = tr;
    ++g_checks;
    Model got;
    size_t cnt = 0;
    for (const auto& p : v) {
      got[p.first] = p.second;
      ++cnt;
    }
    if (got != m || cnt != m.size() || v.size() != m.size() ||
        v.empty() != m.empty())
      fail("wrong contents; " + tr);
    for (int k = 0; k < keys; ++k) {
      const bool in = m.count(k);
      if (v.count(k) != (in ? 1u : 0u)) fail("count(" + str(k) + "); " + tr);
      const auto it = v.find(k);
      if ((it != v.end()) != in || (in && it->second != m[k]))
        fail("find(" + str(k) + "); " + tr);
      bool thrown = false;
      int x = 0;
      try {
        x = v[k];
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      if (thrown == in || (in && x != m[k])) fail("operator[](" + str(k) + "); " + tr);
    }
  }
}
template <class S>
void scoped_set(Rng* g, const char* name) {
  S v, keep;
  typedef std::set<int> Model;
  Model m, mkeep;
  std::vector<Model> st, stkeep;
  std::string tr = name;
  const int n = 1 + g->below(30);
  const int keys = 1 + g->below(6);
  for (int i = 0; i < n; ++i) {
    const int o = g->below(12);
    if (o < 5) {
      const int k = static_cast<int>(g->below(keys));
      tr += " insert(" + str(k) + ")";
      g_stage = tr;
      v.insert(k);
      m.insert(k);
    } else if (o < 7) {
      tr += " push()";
      g_stage = tr;
      v.push();
      st.push_back(m);
    } else if (o < 9) {
      tr += " pop()";
      g_stage = tr;
      bool thrown = false;
      try {
        v.pop();
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      if (thrown != st.empty()) fail("pop: error expected only when nothing was pushed; " + tr);
      if (!st.empty()) {
        m = st.back();
        st.pop_back();
      }
    } else if (o == 9) {
      tr += " save-copy";
      keep = v;
      mkeep = m;
      stkeep = st;
    } else if (o == 10) {
      tr += " restore-copy";
      v = keep;
      m = mkeep;
      st = stkeep;
    } else if (g->coin(1, 3)) {
      tr += " clear()";
      g_stage = tr;
      v.clear();
      m.clear();
      st.clear();
    }
    g_stage = tr;
    ++g_checks;
    Model got(v.begin(), v.end());
    if (got != m || v.size() != m.size() || v.empty() != m.empty())
      fail("wrong contents; " + tr);
    for (int k = 0; k < keys; ++k) {
      const bool in = m.count(k);
      if (v.count(k) != (in ? 1u : 0u)) fail("count(" + str(k) + "); " + tr);
      const auto it = v.find(k);
      if ((it != v.end()) != in || (in && *it != k))
        fail("find(" + str(k) + "); " + tr);
    }
  }
}
void p19(Rng* g) {
  switch (g->below(5)) {
    case 0: return scoped_vector(g);
    case 1: return scoped_map<ScopedUnorderedMap<int, int>>(g, "ScopedUnorderedMap:");
    case 2:
      return scoped_map<ScopedUnorderedMap<int, int, BadHash>>(
          g, "ScopedUnorderedMap (colliding hash):");
    case 3: return scoped_set<ScopedUnorderedSet<int>>(g, "ScopedUnorderedSet:");
    default:
      return scoped_set<ScopedUnorderedSet<int, BadHash>>(
          g, "ScopedUnorderedSet (colliding hash):");
  }
}

// ------------------------------------------------------------------ P20
template <class T>
void option(Rng* g, const std::vector<T>& values) {
  auto choose = [&]() -> T { return values[g->below(values.size())]; };
  T cur = choose();
  int level = 0;
  OptionValue<T> o{cur};
  std::string tr = "OptionValue(" + str(cur) + ")";
  OptionValue<T> other{cur};
  T ocur = cur;
  int olevel = 0;
  const int n = 1 + g->below(10);
  for (int i = 0; i <= n; ++i) {
    g_stage = tr;
    ++g_checks;
    if (!(o.get() == cur))
      fail("the value is " + str(o.get()) + " instead of " + str(cur) + " after " +
           tr);
    const T v = choose();
    switch (g->below(8)) {
      case 0:
      case 1:
        tr += " set_from_file(" + str(v) + ")";
        g_stage = tr;
        o.set_from_file(v);
        if (level <= 1) {
          cur = v;
          level = 1;
        }
        break;
      case 2:
      case 3:
        tr += " set_from_command_line(" + str(v) + ")";
        g_stage = tr;
        o.set_from_command_line(v);
        if (level <= 2) {
          cur = v;
          level = 2;
        }
        break;
      case 4:
        tr += " =" + str(v);
        g_stage = tr;
        if (g->coin()) {
          o = v;
        } else {
          T w = v;
          o = std::move(w);
        }
        cur = v;
        level = 3;
        break;
      case 5:
        tr += " save-copy";
        other = o;
        ocur = cur;
        olevel = level;
        break;
      case 6:
        tr += " restore-copy";
        if (g->coin()) {
          o = other;
        } else {
          OptionValue<T> tmp{other};
          o = std::move(tmp);
        }
        cur = ocur;
        level = olevel;
        break;
      default: {
        OptionValue<T> tmp{o};
        OptionValue<T> tmp2{std::move(tmp)};
        o = tmp2;
        break;
      }
    }
  }
}
void p20(Rng* g) {
  switch (g->below(4)) {
    case 0: return option<int>(g, {0, 1, 2, 3});
    case 1: return option<bool>(g, {false, true});
    case 2: return option<double>(g, {0.001, 1e-5, 3, 7});
    default: return option<std::string>(g, {"a", "b", "", "c"});
  }
}

// ------------------------------------------------------------------ P21
double any_double(Rng* g) {
  switch (g->below(8)) {
    case 0: {
      uint64_t b = g->next();
      double d;
      std::memcpy(&d, &b, sizeof d);
      return d;
    }
    case 1: return double(static_cast<int64_t>(g->next()) >> g->below(64));
    case 2: {
      const double base[] = {2147483647.0, -2147483648.0, 0.0, 4294967296.0,
                             9007199254740992.0, 1, -1, 1073741824.0};
      double d = base[g->below(8)];
      const int k = static_cast<int>(g->below(5)) - 2;
      return d + k * (g->coin() ? 1.0 : g->coin() ? 0.5 : 0.25);
    }
    case 3: {
      const double base[] = {2147483647.0, -2147483648.0, 0.0, 1.0, -1.0, 2.0, -3.0, 1e6};
      double d = base[g->below(8)];
      for (int k = static_cast<int>(g->below(4)); k > 0; --k)
        d = std::nextafter(d, g->coin() ? 1e300 : -1e300);
      return d;
    }
    case 4: {
      const double s[] = {std::numeric_limits<double>::infinity(),
                          -std::numeric_limits<double>::infinity(),
                          std::numeric_limits<double>::quiet_NaN(), -0.0,
                          std::numeric_limits<double>::denorm_min(),
                          -std::numeric_limits<double>::denorm_min(),
                          std::numeric_limits<double>::max(),
                          -std::numeric_limits<double>::max()};
      return s[g->below(8)];
    }
    case 5: return (static_cast<int>(g->below(20001)) - 10000) / 8.0;
    default: return (static_cast<int32_t>(g->next())) / double(1 << g->below(8));
  }
}
int64_t any_int64(Rng* g) {
  const int64_t base[] = {0, INT_MAX, INT_MIN, 1LL << 53, -(1LL << 53), 1LL << 52,
                          1LL << 31, INT64_MAX, INT64_MIN, 1LL << 54, 1LL << 32, -(1LL << 32)};
  switch (g->below(3)) {
    case 0: return static_cast<int64_t>(g->next()) >> g->below(64);
    default: {
      const int64_t b = base[g->below(12)];
      const int64_t k = static_cast<int64_t>(g->below(9)) - 4;
      return static_cast<int64_t>(static_cast<uint64_t>(b) + static_cast<uint64_t>(k));
    }
  }
}
void p21(Rng* g) {
  for (int i = 0; i < 50; ++i) {
    const double d = any_double(g);
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.17g (%a)", d, d);
    g_stage = std::string("is_integer(") + buf + ")";
    ++g_checks;
    const bool want = d >= -2147483648.0 && d <= 2147483647.0 &&
                      static_cast<double>(static_cast<int64_t>(d)) == d;
    if (dreal::is_integer(d) != want)
      fail(g_stage + " is " + (want ? "false" : "true"));
    const int64_t v = any_int64(g);
    g_stage = "convert_int64_to_int(" + str(v) + ")";
    bool thrown = false;
    int r = 0;
    try {
      r = dreal::convert_int64_to_int(v);
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    const bool fits = v >= INT_MIN && v <= INT_MAX;
    if (thrown == fits) fail(g_stage + (thrown ? " reports an error" : " reports no error, result " + str(r)));
    if (fits && static_cast<int64_t>(r) != v) fail(g_stage + " returns " + str(r));
    g_stage = "convert_int64_to_double(" + str(v) + ")";
    thrown = false;
    double q = 0;
    try {
      q = dreal::convert_int64_to_double(v);
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    const bool small = v >= -(1LL << 53) && v <= (1LL << 53);
    if (thrown && small) fail(g_stage + " reports an error");
    if (!thrown) {
      // exact as a long double (64-bit significand)
      if (static_cast<long double>(q) != static_cast<long double>(v))
        fail(g_stage + " returns a different number, " + str(q));
    }
    if (!thrown && !small) fail(g_stage + " reports no error out of range");
  }
}

// ------------------------------------------------------------------ P22
std::string sort_name(Sort s) {
  std::ostringstream o;
  o << s;
  return o.str();
}
void p22(Rng* g) {
  const std::vector<std::pair<std::string, Sort>> table = {
      {"Real", Sort::Real}, {"Int", Sort::Int}, {"Bool", Sort::Bool},
      {"Binary", Sort::Binary}};
  const std::map<Sort, Variable::Type> types = {
      {Sort::Real, Variable::Type::CONTINUOUS},
      {Sort::Int, Variable::Type::INTEGER},
      {Sort::Bool, Variable::Type::BOOLEAN},
      {Sort::Binary, Variable::Type::BINARY}};
  // names: the supported ones and mutations of them
  std::string name = g->pick(table).first;
  switch (g->below(6)) {
    case 0: break;
    case 1: name = name.substr(0, g->below(name.size() + 1)); break;
    case 2: name += g->coin() ? " " : "s"; break;
    case 3: if (!name.empty()) name[g->below(name.size())] ^= 32; break;
    case 4: name = std::string(g->below(8), static_cast<char>('A' + g->below(58))); break;
    default: break;
  }
  g_stage = "ParseSort(\"" + name + "\")";
  ++g_checks;
  bool thrown = false, known = false;
  Sort s{Sort::Real};
  try {
    s = dreal::ParseSort(name);
  } catch (const std::runtime_error&) {
    thrown = true;
  }
  for (const auto& p : table)
    if (p.first == name) {
      known = true;
      if (thrown) fail(g_stage + " reports an error");
      if (s != p.second) fail(g_stage + " returns sort " + sort_name(s));
    }
  if (!known && !thrown) fail(g_stage + " accepts an unsupported name");
  for (const auto& p : table) {
    g_stage = "printing and mapping sort " + p.first;
    if (sort_name(p.second) != p.first) fail("sort " + p.first + " is printed as " + sort_name(p.second));
    if (dreal::SortToType(p.second) != types.at(p.second))
      fail("SortToType(" + p.first + ") is wrong");
  }
  g_stage.clear();
  GenOpt o;
  o.forall = false;
  Gen gen(g, o);
  const Expression e = gen.expr(2);
  const Formula f = gen.form(2);
  for (int which = 0; which < 2; ++which) {
    g_stage = std::string("Term holding ") + (which ? str(f) : str(e));
    Term t;
    if (t.type() != Term::Type::FORMULA || !t.formula().EqualTo(Formula::False()))
      fail("default term is not false");
    if (g->coin())
      t = which ? Term{f} : Term{e};
    else if (which)
      t = f;
    else
      t = e;
    if (g->coin()) {
      Term u{t};
      Term w{std::move(u)};
      t = w;
    }
    ++g_checks;
    if ((t.type() == Term::Type::FORMULA) != (which == 1)) fail("wrong type; " + g_stage);
    bool te = false, tf = false, tme = false, tmf = false;
    try {
      if (!t.expression().EqualTo(e)) fail("returns another expression; " + g_stage);
    } catch (const std::runtime_error&) {
      te = true;
    }
    try {
      if (!t.formula().EqualTo(f)) fail("returns another formula; " + g_stage);
    } catch (const std::runtime_error&) {
      tf = true;
    }
    try {
      if (!t.mutable_expression().EqualTo(e)) fail("returns another expression; " + g_stage);
    } catch (const std::runtime_error&) {
      tme = true;
    }
    try {
      if (!t.mutable_formula().EqualTo(f)) fail("returns another formula; " + g_stage);
    } catch (const std::runtime_error&) {
      tmf = true;
    }
    if (te != (which == 1) || tf != (which == 0) || tme != te || tmf != tf)
      fail("error on access expected exactly for the other kind; " + g_stage);
    std::ostringstream os;
    os << t;
    if (os.str() != (which ? f.to_string() : e.to_string())) fail("printed as " + os.str() + "; " + g_stage);
    for (const auto& p : table) {
      bool bad = false;
      try {
        t.Check(p.second);
      } catch (const std::runtime_error&) {
        bad = true;
      }
      if (bad != ((p.second == Sort::Bool) != (which == 1)))
        fail("Check against sort " + p.first + (bad ? " fails; " : " passes; ") + g_stage);
      bad = false;
      try {
        t.Check(types.at(p.second));
      } catch (const std::runtime_error&) {
        bad = true;
      }
      if (bad != ((p.second == Sort::Bool) != (which == 1)))
        fail("Check against the variable type of " + p.first + (bad ? " fails; " : " passes; ") +
             g_stage);
    }
    // substitution
    const bool boolean = g->coin(1, 3);
    const Variable v = boolean ? g->pick(pool().bools) : g->pick(pool().num);
    GenOpt so = o;
    Gen sub(g, so);
    const Expression re = sub.expr(1);
    const Formula rf = sub.form(1);
    g_stage = "Substitute " + str(v) + " by " + (boolean ? str(rf) : str(re)) + " in term " +
              (which ? str(f) : str(e));
    Expression we;
    Formula wf;
    bool want_throw = false, got_throw = false;
    try {
      if (which)
        wf = boolean ? f.Substitute(v, rf) : f.Substitute(v, re);
      else
        we = boolean ? e.Substitute(FormulaSubstitution{{v, rf}}) : e.Substitute(v, re);
    } catch (const std::exception&) {
      want_throw = true;
    }
    Term r;
    try {
      r = t.Substitute(v, boolean ? Term{rf} : Term{re});
    } catch (const std::exception&) {
      got_throw = true;
    }
    ++g_checks;
    if (want_throw != got_throw) fail("error differs; " + g_stage);
    if (!want_throw) {
      if (r.type() != t.type()) fail("the kind of the term changes; " + g_stage);
      if (which ? !r.formula().EqualTo(wf) : !r.expression().EqualTo(we))
        fail("wrong result " + (which ? str(r.formula()) : str(r.expression())) + " instead of " +
             (which ? str(wf) : str(we)) + "; " + g_stage);
    }
    if (which ? !t.formula().EqualTo(f) : !t.expression().EqualTo(e))
      fail("the term itself changed; " + g_stage);
  }
  // logic names
  static const char* logics[] = {"ALL", "QF_LIA", "QF_LIRA", "QF_LRA", "QF_NIA", "QF_NIAT",
                                 "QF_NIRA", "QF_NIRAT", "QF_NRA", "QF_NRAT", "QF_RDL"};
  for (const char* l : logics) {
    g_stage = std::string("parse_logic(") + l + ")";
    std::ostringstream os;
    os << dreal::parse_logic(l);
    if (os.str() != l) fail(g_stage + " is printed as " + os.str());
  }
}
}  // namespace
}  // namespace h
int main(int argc, char** argv) {
  return h::drive(argc, argv, {{"P19", h::p19}, {"P20", h::p20}, {"P21", h::p21}, {"P22", h::p22}});
}
