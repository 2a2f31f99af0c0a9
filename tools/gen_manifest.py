#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
TECH = 'contract-based deductive verification (dvc: contracts on the real C++ functions, obligations discharged by z3)'
CLAIMED = {
 'P26': 'Both constructors, both Add, every lookup, set_empty and InplaceUnion of Box proved on the real bodies, with the maps shared between copies or not; intervals by assumed contracts of ibex::Interval and ibex::IntervalVector (IBEX is not installed: the sources are parsed against a declaration of the part of its interface they use, and the bounded stand-in runs them with a small implementation of it).',
 'P27': 'The constructor, Visit and ProcessPow for every kind of expression and formula, and Convert of IbexConverter proved on the real bodies; the constructors of nodes and constraints of IBEX by assumed contracts (they build what they are named after; see P26 for why they are declared, not included); doubles are real numbers; arithmetic is total in the proof; accessors of formulas and expressions by contract (P06, P08, P15).',
 'P25': 'GenerateExplanation (what is in an explanation, closure), Explanation, both AddUsedConstraint, InplaceJoin, Join and Prune of the comparison and polytope contractors proved on the real bodies for all sets, boxes and formulas; HaveIntersection by contract (P17), IBEX by assumed contracts (see P41). Bounded: that the constraints in an explanation exclude every point of the box, for contractors composed at random.',
 'P41': 'Prune of the sequence, join, integer, fixpoint, worklist, comparison and polytope contractors, both AddUsedConstraint, InplaceJoin and Join proved on the real bodies for all boxes, contractors and termination conditions, a contractor inside another by the same contract; backward and contract of IBEX by assumed contracts (they shrink the box and keep what the constraint allows; see P26 for why they are declared, not included); termination is not proved. Bounded: making contractors from formulas (generator, constructors, flattening, per-thread copies). The contractor for quantified formulas is not covered.',
 'P42': 'Every function of filter_assertion.cc proved on the real bodies for all assertions, boxes and constants; the box by contract (P26); intervals by assumed contracts of ibex::Interval (see P26); nextafter by its IEEE meaning.',
 'P43': 'Bisection of boxes (all types of variables), FindMaxDiam and both branching strategies proved on the real bodies; intervals by assumed contracts of ibex::Interval (see P26).',
 'P18': 'Every public operation of Variables (also a set combined with itself) except iteration order, hashing, operator< and printing, and every public operation of Environment except printing, proved for all sets, lists, maps and doubles including NaN.',
 'P22': 'ParseSort, parse_logic, SortToType, printing of sorts and logics, and every member of Term proved for all strings and terms; Formula/Expression::Substitute by contract (P12).',
 'P16': 'DeltaStrengthenVisitor::Visit (formulas and expressions, all cases), DeltaStrengthen and DeltaWeaken proved for all terms and all delta; assumed: rebuilding a relational term from parts does not change whether the comparison folds; doubles are real numbers.',
 'P17': 'is_atomic, is_clause, is_cnf, get_clauses and HaveIntersection proved for all formulas and sets.',
 'P23': 'IsDifferentiable (exact verdict), PrefixPrinter::Print and ToPrefix (all cases) proved: the text read back by a reader of prefix terms denotes the printed term; numerals by the IEEE fact that 17 digits read back exactly.',
 'P02': 'NaiveCnfizer::Visit (all cases, nested loops) and Convert proved for all formulas; constructors by contract (see P06), Nnfizer by contract (P01).',
 'P03': 'TseitinCnfizer::Visit (all cases), Cnfize (all cases) and Convert proved for all formulas: clauses, both directions of equisatisfiability, fresh auxiliary variables; NaiveCnfizer by contract (P02), clause tests and HaveIntersection by contract (P17).',
 'P04': 'IfThenElseEliminator::Visit (all kinds of expressions and formulas, including quantified ones), Process and variables proved for all terms, guards and states of the eliminator: no conditional left, both directions of the extension property; operators by contract (P06-P08), Nnfizer by contract (P01), absence of conditionals in what operators build is trusted; arithmetic is total in the proof.',
 'P05': 'PredicateAbstractor::Visit (all cases), both Convert and both lookups proved for all formulas and all states of the two maps: truth value, only Boolean variables, mutually inverse maps, nothing recorded is lost; connectives and comparisons by contract (P06, P07).',
 'P06': 'Every overload of &&, ||, !, == and != on formulas and Boolean variables, imply, iff, the n-ary forms over sets and vectors, forall, and the Formula constructors proved on the real bodies down to the cells (whose representation invariant is an obligation at every construction), with operands aliased or not.',
 'P07': 'All six operators and the Variable overloads proved on the real bodies down to the cells; the value of the difference by contract (P08).',
 'P08': 'Every overload of + - * / and their compound forms (operands aliased or not), negation, ++/--, all elementary functions, pow, min, max, if_then_else, Sum, Prod, the constant and variable constructors, and every method of the two factories proved on the real bodies down to the cells (whose representation invariants are obligations), at an arbitrary assignment where operands and operation are defined; the laws of powers are trusted; doubles are real numbers.',
 'P09': 'Copy, move, assignment (also to itself), swap, destruction, construction from a cell and use_count of both handle classes proved to keep every count at least the number of handles (one thread; mathematical counts); every function whose code can change a cell found by a scan of the AST and proved to do so only with a count of one; every operator and every Expand, Substitute, Differentiate, Evaluate, EqualTo and Less proved to leave its constant operands as they were.',
 'P10': 'Formula and Expression EqualTo and Less, EqualTo and Less of each of the 39 cell classes, Variable equal_to/less/get_hash, Variables operator< and get_hash, the hash computed by every cell constructor and the hash_combine/hash_range templates, proved for all terms; std algorithms over whole ranges by contract; the specialisations of std::less/equal_to/hash only bounded (harness).',
 'P11': 'Evaluate of every one of the 39 cell classes and of both handles proved on the real bodies, including exactly when it throws; doubles are real numbers; environments by the contracts of P18.',
 'P12': 'Substitute of every one of the 39 cell classes and every overload of the handles proved for all terms and all substitutions without capture; constructors and factories by contract (P06, P07, P08); arithmetic is total in the proof (definedness only bounded).',
 'P13': 'Differentiate of every cell class, DifferentiatePow and the handle proved on the real bodies against the rules of calculus, at points where every part is differentiable, everything that occurs is defined and bases of powers in products are not zero (other points only bounded, by the harness); constructors and factories by contract (P08).',
 'P14': 'Value: Expand of every cell class and of the handle, ExpandMultiplication, ExpandPow and DivExpandVisitor proved on the real bodies, at an arbitrary assignment where the expression is defined; operators and factories by contract (P08); termination not proved. The second half (nothing left to distribute) is only bounded: random expressions through the real library (harness).',
 'P15': 'Every constructor of every one of the 39 cell classes and every accessor and kind test of formulas and expressions proved on the real bodies (what is reported as a polynomial is one; the converse is not claimed), and the lemma that a term depends only on its reported variables proved by induction.',
 'P19': 'Every operation of ScopedVector, ScopedUnorderedMap and ScopedUnorderedSet that changes or reads the contents proved against an undo-log refinement, for arbitrary element types; not under contract: iteration, get_reverse, operator<, printing.',
 'P20': 'Constructor, both assignments, both setters and get proved, for an arbitrary element type.',
 'P21': 'All three functions proved with IEEE special values and integer ranges.',
 'P01': 'Nnfizer::Visit (all cases) and Convert proved against their contracts for all formulas; constructors and accessors of formulas by contract (see P06).',
}
IBEX = 'This code needs IBEX (and PicoSAT), which are not installed: it is not built here, has no passing test, cannot be executed to replay anything, and cannot be parsed with its real types, so no contract on it can be discharged from the current source.'
WIP = 'No function of this property is under a discharged contract yet (work in progress); nothing is claimed.'
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version >/dev/null && g++ --version >/dev/null',
         checks=[dict(property=p, quick_cmd='python3-vt check.py ' + p,
                      thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                      technique=TECH, level='proof', level_note=CLAIMED[p])
                 for p in props if p in CLAIMED],
         not_applicable=[dict(property=p, reason=IBEX if p >= 'P40' else WIP)
                         for p in props if p not in CLAIMED],
         notes='No hooks in /repo. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
