#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the prose is
editable; the JSONL file is the committed artefact)."""
import json, os
S='third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p('P01','Negation normal form preserves meaning and pushes negations inward',
 'For every formula, converting it to negation normal form yields a formula that has the same truth value under every assignment of its variables. In the result, outside the bodies of universally quantified formulas (which are kept as they are), negation is applied only to Boolean variables, to universally quantified formulas and, when the caller asked not to push negations into comparisons, to comparisons.',
 ['inputs'],'all formulas (any nesting of connectives, comparisons, quantifiers), both settings of the push flag, all assignments',
 'The unit tests compare about a dozen concrete formulas structurally; the claim is over unboundedly many nestings and all assignments.',
 ['dreal/util/nnfizer.cc','dreal/util/nnfizer.h','dreal/symbolic/symbolic.cc'],
 [('polarity-carrying structural recursion','dreal/util/nnfizer.cc: Nnfizer::Visit*'),('element-wise map over operand sets','dreal/symbolic/symbolic.cc: map')],
 observe=['Nnfizer::Convert'])
p('P02','Distribution-based CNF conversion preserves meaning and produces CNF',
 'For every formula, the naive conjunctive-normal-form conversion returns a formula with the same truth value under every assignment. The result is in conjunctive normal form: a literal, a clause of literals, or a conjunction of those.',
 ['inputs'],'all formulas without restriction on nesting, all assignments',
 'Tests check equivalence for a handful of formulas over three or four Boolean variables; distribution bugs show only on particular alternations of conjunction and disjunction.',
 ['dreal/util/naive_cnfizer.cc','dreal/util/nnfizer.cc','dreal/symbolic/symbolic.cc'],
 [('cross product of clauses','dreal/util/naive_cnfizer.cc: NaiveCnfizer::VisitDisjunction'),('negations are pushed in first','dreal/util/naive_cnfizer.cc: NaiveCnfizer::Convert')],
 observe=['NaiveCnfizer::Convert'])
p('P03','Clause encoding with auxiliary variables is equisatisfiable',
 'For every formula, the list of formulas produced by the clause encoder has a model extending an assignment of the original variables exactly when that assignment satisfies the original formula. Every produced formula is a clause, and the auxiliary Boolean variables are fresh: none of them occurs in the input and one variable never stands for two different sub-formulas.',
 ['inputs','histories'],'all quantifier-nesting the encoder accepts, all assignments; repeated use of the same encoder object',
 'Tests encode about ten formulas and compare by brute force over a few Boolean variables.',
 ['dreal/util/tseitin_cnfizer.cc','dreal/util/tseitin_cnfizer.h'],
 [('definition of one auxiliary variable per connective','dreal/util/tseitin_cnfizer.cc: TseitinCnfizer::Visit*'),('definitions are turned into clauses','dreal/util/tseitin_cnfizer.cc: Cnfize*')],
 state=[('map_','auxiliary variable to the sub-formula it stands for','dreal/util/tseitin_cnfizer.h')],
 observe=['TseitinCnfizer::Convert'])
p('P04','Eliminating if-then-else terms keeps the meaning',
 'For every formula, the result of if-then-else elimination contains no if-then-else term, and an assignment satisfies the original formula exactly when it can be extended to the newly introduced variables so that the result is satisfied. This holds for terms at any depth, shared between sub-formulas, nested in conditions, and under quantifiers.',
 ['inputs','histories'],'all formulas and expressions, all assignments, repeated use of one eliminator',
 'Tests inspect a few shapes; guarding mistakes only show on nested or shared conditionals and particular assignments.',
 ['dreal/util/if_then_else_eliminator.cc','dreal/util/if_then_else_eliminator.h'],
 [('one fresh variable per conditional term with two guarded definitions','dreal/util/if_then_else_eliminator.cc: VisitIfThenElse'),('cache of processed terms','dreal/util/if_then_else_eliminator.h')],
 state=[('ite_to_var_','conditional term to introduced variable','dreal/util/if_then_else_eliminator.h'),('ite_variables_','introduced variables','dreal/util/if_then_else_eliminator.h')],
 observe=['IfThenElseEliminator::Process'])
p('P05','Boolean abstraction of a formula loses nothing',
 'For every formula, replacing each Boolean variable that the abstraction introduced by the theory predicate it stands for gives back a formula with the same truth value as the original under every assignment. The abstraction contains only Boolean variables, equal predicates are always abstracted by the same variable and different predicates by different variables, and both lookups (predicate to variable, variable to predicate) stay mutually inverse over any sequence of conversions.',
 ['inputs','histories'],'all formulas, all sequences of conversions on one abstractor, all assignments',
 'Tests convert a few formulas with fresh abstractors and compare printed results.',
 ['dreal/util/predicate_abstractor.cc','dreal/util/predicate_abstractor.h'],
 [('two maps updated together','dreal/util/predicate_abstractor.cc: PredicateAbstractor::Add'),('negation-normalised lookup','dreal/util/predicate_abstractor.cc: VisitAtomic')],
 state=[('var_to_formula_map_','introduced variable to predicate','dreal/util/predicate_abstractor.h'),('formula_to_var_map_','predicate to introduced variable','dreal/util/predicate_abstractor.h')],
 observe=['PredicateAbstractor::Convert'])
p('P06','Logical connectives on formulas mean what they say',
 'Conjunction, disjunction, negation, implication, equivalence, quantification and their n-ary forms build a formula whose truth value under every assignment is that connective applied to the truth values of the operands, whatever simplification, flattening, sharing or moving of operands takes place. A conjunction or disjunction that is built always has at least two operands, none of which is a constant or a formula of the same connective.',
 ['inputs','histories'],'all operand formulas (shared, aliased, moved-from temporaries), all assignments',
 'Tests check some structural results on a few operands; value and aliasing combinations of overloads are not enumerable.',
 [S+'symbolic_formula.cc',S+'symbolic_formula_cell.cc','dreal/symbolic/symbolic.cc'],
 [('flattening and constant folding in the factories',S+'symbolic_formula.cc: make_conjunction/make_disjunction'),('double negation',S+'symbolic_formula.cc: operator!')],
 observe=['operator&&','operator||','operator!','make_conjunction','make_disjunction','imply','iff','forall'])
p('P07','Comparison operators on expressions mean what they say',
 'Comparing two expressions with any of the six comparison operators builds a formula whose truth value under every assignment on which both sides are defined is the comparison of the two values, including when it is simplified to a constant at construction.',
 ['inputs'],'all pairs of expressions, all assignments',
 'Tests compare a few expressions built from three variables.',
 [S+'symbolic_formula.cc',S+'symbolic_formula_cell.cc'],
 [('constant folding of the difference of both sides',S+'symbolic_formula.cc: operator==,!=,<,<=,>,>=')],
 observe=['operator==','operator!=','operator<','operator<=','operator>','operator>='])
p('P08','Arithmetic constructors preserve the value of their operands',
 'Building a sum, difference, product, quotient, power or any elementary function of expressions yields an expression whose value, under every assignment on which the operands and the operation are defined, is that operation applied to the operand values; automatic simplification (merging of terms, powers and constants) never changes it, whatever the sharing or aliasing of the operands.',
 ['inputs','histories'],'all operand expressions, aliasing patterns (including an operand combined with itself in place) and assignments',
 'Tests check chosen structural equalities; simplification rules have value side conditions that only particular operands and signs violate.',
 [S+'symbolic_expression.cc',S+'symbolic_expression_cell.cc',S+'symbolic_expression_cell.h'],
 [('sum normal form',S+'symbolic_expression_cell.cc: ExpressionAddFactory'),('product normal form',S+'symbolic_expression_cell.cc: ExpressionMulFactory'),('power simplification',S+'symbolic_expression.cc: pow')],
 observe=['operator+=','operator-=','operator*=','operator/=','pow','sqrt','min','max','if_then_else'])
p('P09','Building new values never changes existing ones',
 'Formulas and expressions behave as immutable values: after any sequence of copies, moves, in-place operators and constructions, every formula or expression that was not itself the assigned-to operand still denotes the same thing it denoted before.',
 ['histories'],'all sequences of constructions, copies, moves and in-place operators, with any pattern of sharing',
 'Tests look at single operations; corruption needs a particular sharing pattern (reference count, alias of the operand) to show.',
 [S+'symbolic_expression.cc',S+'symbolic_formula.cc',S+'symbolic_expression_cell.h',S+'symbolic_formula_cell.h'],
 [('in-place reuse only when the cell is uniquely referenced',S+'symbolic_expression.cc: operator+=, operator*=; '+S+'symbolic_formula.cc: make_conjunction'),('reference counting',S+'symbolic_expression.cc: copy/move members')],
 state=[('rc_','number of handles sharing a cell',S+'symbolic_expression_cell.h')])
p('P10','Equality, ordering and hashing of terms are coherent',
 'Structural equality of expressions and of formulas is an equivalence relation, the ordering is a strict weak order whose ties are exactly the structurally equal pairs, and structurally equal values have equal hashes. Hence ordered and hashed collections of terms never lose, duplicate or confuse entries.',
 ['inputs'],'all pairs and triples of variables, expressions and formulas',
 'Tests compare samples of one per kind; order axioms are universally quantified over pairs and triples.',
 [S+'symbolic_expression_cell.cc',S+'symbolic_formula_cell.cc',S+'symbolic_expression.cc',S+'symbolic_formula.cc',S+'symbolic_variable.cc',S+'hash.h'],
 [('per-kind comparison of the same components in EqualTo, Less and the hash',S+'symbolic_expression_cell.cc, symbolic_formula_cell.cc')],
 observe=['EqualTo','Less','get_hash'])
p('P11','Evaluation computes the meaning of a term or reports why it cannot',
 'Evaluating an expression or a formula under an environment that gives a value to each of its free variables returns the mathematical value of that term under those values, and evaluation fails with an error instead of returning a wrong value when a variable has no value or an argument is outside the domain of an operation. (Poles, such as the logarithm of zero or a negative power of zero, evaluate to the infinity that IEEE arithmetic gives. An equality or disequality some of whose variables have no value is, by design, decided by structural equality after partial evaluation and lies outside this statement.)',
 ['inputs','configurations'],'all terms and all environments',
 'Tests evaluate a few dozen terms at a few points.',
 [S+'symbolic_expression_cell.cc',S+'symbolic_formula_cell.cc',S+'symbolic_expression.cc',S+'symbolic_environment.cc'],
 [('per-kind evaluation with domain checks',S+'symbolic_expression_cell.cc: *::Evaluate, DoEvaluate, check_domain')],
 observe=['Expression::Evaluate','Formula::Evaluate'])
p('P12','Substitution agrees with evaluating in the updated assignment',
 'Substituting expressions for real variables and formulas for Boolean variables, simultaneously, gives a term whose value under every assignment equals the value of the original term under the assignment in which each substituted variable takes the value of its replacement, provided that no replacement mentions a variable quantified in the term. Quantified variables are left alone and variables that are not mentioned keep their value.',
 ['inputs'],'all terms, all simultaneous substitutions without capture, all assignments',
 'Tests substitute into a few terms with a couple of variables.',
 [S+'symbolic_expression_cell.cc',S+'symbolic_formula_cell.cc',S+'symbolic_expression.cc',S+'symbolic_formula.cc'],
 [('per-kind homomorphic rebuild',S+'symbolic_expression_cell.cc, symbolic_formula_cell.cc: Substitute')],
 observe=['Expression::Substitute','Formula::Substitute'])
p('P13','Symbolic differentiation yields the derivative',
 'For every expression and real variable for which differentiation returns a result, the value of the result at every point where the expression is differentiable equals the partial derivative there. Differentiation reports an error rather than return a wrong result for operations that it does not support.',
 ['inputs'],'all differentiable expressions, all variables, all points in the domain',
 'Tests compare with finite differences at a few points for a few expressions.',
 [S+'symbolic_expression_cell.cc',S+'symbolic_expression.cc'],
 [('one differentiation rule per kind',S+'symbolic_expression_cell.cc: *::Differentiate')],
 observe=['Expression::Differentiate'])
p('P14','Expansion keeps the value and leaves nothing to distribute',
 'Expanding an expression yields an expression with the same value under every assignment on which the original is defined. For an expression built without division and with non-negative integer exponents only, products of sums and positive integer powers of sums are distributed, so that none is left in the result.',
 ['inputs'],'all expressions, all assignments',
 'Tests expand a list of about thirty expressions.',
 [S+'symbolic_expression_cell.cc'],
 [('pairwise distribution',S+'symbolic_expression_cell.cc: ExpandMultiplication, ExpandPow')],
 observe=['Expression::Expand'])
p('P15','Reported free variables and term attributes are exact',
 'The set of variables reported for a term is exactly the set of variables occurring free in it (quantified variables excluded), the conditional flag says exactly whether an if-then-else term occurs in it, and an expression reported as a polynomial is one.',
 ['inputs'],'all terms, however they were built',
 'Tests query a handful of terms per constructor; the attributes are cached at construction, so every construction path matters.',
 [S+'symbolic_expression_cell.cc',S+'symbolic_formula_cell.cc'],
 [('attributes computed once in cell constructors',S+'symbolic_expression_cell.cc, symbolic_formula_cell.cc: constructors, ExtractVariables')],
 observe=['GetVariables','GetFreeVariables','include_ite','is_polynomial'])
p('P16','Strengthening and weakening by delta go in the promised direction',
 'For every quantifier-free formula without conditional terms and every positive delta, the strengthened formula implies the original and the original implies the weakened formula, under every assignment.',
 ['inputs','configurations'],'all quantifier-free formulas, all delta > 0, all assignments',
 'Tests check one formula per comparison operator.',
 ['dreal/symbolic/symbolic.cc'],
 [('sign-aware slack on each comparison, polarity flip under negation','dreal/symbolic/symbolic.cc: DeltaStrengthenVisitor')],
 observe=['DeltaStrengthen','DeltaWeaken'])
p('P17','Recognising literals, clauses and CNF, and extracting clauses, is exact',
 'A formula is reported as atomic, as a clause or as being in conjunctive normal form exactly when it has that shape, and the clauses extracted from a formula in conjunctive normal form are clauses whose conjunction is equivalent to it. Testing two variable sets for a common member answers true exactly when they share a variable.',
 ['inputs'],'all formulas; all pairs of variable sets',
 'Tests cover a small sample of shapes.',
 ['dreal/symbolic/symbolic.cc','dreal/symbolic/symbolic.h'],
 [('kind dispatch','dreal/symbolic/symbolic.cc: is_atomic, is_clause, is_cnf, get_clauses'),('merge walk over two ordered sets','dreal/symbolic/symbolic.cc: HaveIntersection')],
 observe=['is_atomic','is_clause','is_cnf','get_clauses','HaveIntersection'])
p('P18','Variable sets obey set algebra and environments reject bad values',
 'Union, difference, intersection, insertion, removal, membership and the subset tests on variable sets are the mathematical operations, for every pair of sets including a set combined with itself. An environment returns exactly the value stored for a variable, keeps the existing value when an already present variable is inserted again, rejects NaN and the anonymous variable on construction and insertion, and reports an error when a missing variable is looked up in a constant environment.',
 ['inputs','histories'],'all variable sets; all sequences of environment operations',
 'Tests use three or four variables.',
 [S+'symbolic_variables.cc',S+'symbolic_variables.h',S+'symbolic_environment.cc'],
 [('ordered set of variables keyed by identity',S+'symbolic_variables.cc'),('checks on insertion',S+'symbolic_environment.cc')],
 observe=['Variables','Environment'])
p('P19','Backtracking containers restore exactly the state at the matching push',
 'For every sequence of insertions, updates, pushes and pops on a scoped vector, set or map, a pop restores exactly the contents that the container had at the matching push, and between those the contents are those of an ordinary container under the same operations.',
 ['histories'],'all well-bracketed operation sequences of any length and nesting',
 'Tests run one or two short sequences.',
 ['dreal/util/scoped_vector.h','dreal/util/scoped_unordered_map.h','dreal/util/scoped_unordered_set.h'],
 [('undo log replayed in reverse on pop','dreal/util/scoped_unordered_map.h: pop; scoped_unordered_set.h: pop; scoped_vector.h: pop')],
 state=[('actions_ / scopes_','undo log and scope boundaries','dreal/util/scoped_unordered_map.h'),('stack_','sizes at each push','dreal/util/scoped_vector.h')],
 observe=['push','pop','insert','push_back'])
p('P20','Options keep the value from the strongest source',
 'After any sequence of settings from the default, a file, the command line and code, an option holds the value most recently supplied by the strongest source that supplied one, where code beats command line, command line beats file, and file beats default.',
 ['histories'],'all sequences of settings, any value type',
 'Tests try one order of sources.',
 ['dreal/util/option_value.h'],
 [('priority compared before each update','dreal/util/option_value.h: OptionValue')],
 state=[('type_','source of the current value','dreal/util/option_value.h')],
 observe=['OptionValue::get'])
p('P21','Conversions between doubles and integers never lie',
 'For every double, the integrality test answers true exactly when the value is a whole number in the range of int. Converting a 64-bit integer to int, or to double, either returns exactly that number or reports an error, and it reports an error only when the number is out of range (of int, or of the contiguous integers of a double).',
 ['inputs'],'all finite doubles and all values of the integer types in range',
 'Tests try about twenty values; boundary and rounding cases are spread over 2^64 values.',
 ['dreal/util/math.cc','dreal/util/math.h'],
 [('range checks before casting','dreal/util/math.cc: is_integer, convert_int64_to_int, convert_int64_to_double')],
 observe=['is_integer','convert_int64_to_int','convert_int64_to_double'])
p('P22','SMT-LIB sorts and terms are type-checked and substituted soundly',
 'Mapping of SMT-LIB sort names to sorts and of sorts to variable types accepts exactly the supported names, distinct sorts stay distinguishable in printing, and the sort check on a term accepts it exactly when a formula is used for Bool and an expression for a numeric sort. Substituting inside an SMT-LIB term agrees with substitution in the formula or expression that it wraps, and a term returns what was stored in it or an error.',
 ['inputs','histories'],'all sort names, sorts, variable types and terms',
 'Tests cover only some of the sort and variable-type combinations.',
 ['dreal/smt2/sort.cc','dreal/smt2/term.cc','dreal/smt2/logic.cc','dreal/smt2/term.h'],
 [('sort table','dreal/smt2/sort.cc'),('tagged term','dreal/smt2/term.cc')],
 observe=['ParseSort','SortToType','Term::Check','Term::Substitute'])
p('P23','Differentiability verdicts and prefix printing match the term',
 'A term that is reported as differentiable is built only from operations that are smooth on the interior of their domain, so it contains no conditional, absolute value, minimum, maximum or uninterpreted function. The prefix text printed for a term denotes exactly that term: reading it back with standard SMT-LIB operators yields the same value under every assignment.',
 ['inputs'],'all terms and assignments',
 'Tests print or classify one term per kind.',
 ['dreal/symbolic/symbolic.cc','dreal/symbolic/prefix_printer.cc'],
 [('structural recursion per kind','dreal/symbolic/symbolic.cc: IsDifferentiable; dreal/symbolic/prefix_printer.cc')],
 observe=['IsDifferentiable','ToPrefix'])
# --- solver side (depends on IBEX, absent here)
p('P25','An explanation of an empty box is sufficient',
 'When pruning leaves no point in a box, the constraints of the explanation alone exclude every point of the box that was there at the beginning (with integral values for integer and binary variables). The explanation contains only constraints that were recorded as used; it contains every recorded constraint without variables, every one that mentions a variable whose interval became empty (a witness), and, if there is a witness, with a constraint also every recorded one that shares a variable with it. A contractor for comparisons that empties a box records its constraints, and all their variables as witnesses.',
 ['inputs','histories'],'all boxes, contractors, sets of recorded constraints and witnesses',
 'No test computes an explanation when the interval library is missing; with it, only whole runs of the solver do.',
 ['dreal/contractor/contractor_status.cc','dreal/contractor/contractor_ibex_fwdbwd.cc','dreal/contractor/contractor_ibex_polytope.cc','dreal/contractor/contractor_join.cc'],
 [('closure under shared variables','dreal/contractor/contractor_status.cc: GenerateExplanation'),('witnesses of emptiness','dreal/contractor/contractor_status.cc: ContractorStatus::AddUsedConstraint'),('union of what the parts of a join recorded','dreal/contractor/contractor_status.cc: ContractorStatus::InplaceJoin')])
p('P26','A box holds one interval per variable and copies are independent',
 'A box is a finite map from distinct variables to intervals: adding a variable appends it with the interval its type or the given bounds prescribe and changes nothing else; lookups by position, by variable and through the list of variables agree and refer to the same interval; boxes that were copied from each other do not influence one another, whatever is added to or assigned in one of them; making a box empty leaves no point in it; a union contains both of its arguments.',
 ['inputs','histories'],'all sequences of Add, copy, assignment, lookup, set_empty and union on boxes, all variables and bounds',
 'Tests build a few boxes of three variables.',
 ['dreal/util/box.cc','dreal/util/box.h'],
 [('shared maps copied before they change','dreal/util/box.cc: Box::Add'),('interval of a type','dreal/util/box.cc: Box::Add'),('union','dreal/util/box.cc: Box::InplaceUnion')])
p('P27','A constraint handed to the interval library never excludes a solution of the formula',
 'Converting a comparison (negated or not) to a constraint of the interval library yields no constraint or one that every point satisfying the comparison satisfies; converting an expression yields a node whose value at every point is that of the expression; every variable is represented by one symbol, in the order of the variables given.',
 ['inputs'],'all expressions, comparisons, polarities and points where every part of the expression is defined',
 'No test converts anything when the interval library is missing; with it, tests convert a handful of expressions.',
 ['dreal/util/ibex_converter.cc'],
 [('polarity of comparisons','dreal/util/ibex_converter.cc: IbexConverter::VisitGreaterThan'),('sums and products','dreal/util/ibex_converter.cc: IbexConverter::VisitAddition, VisitMultiplication'),('powers','dreal/util/ibex_converter.cc: IbexConverter::ProcessPow')])
p('P40','An unsat answer means the formula has no solution',
 'Whenever the solver answers that a formula is unsatisfiable, no assignment within the declared bounds satisfies it.',
 ['inputs','schedules','configurations'],'all formulas, bounds, precisions, worker counts and schedules',
 'Tests run a finite set of benchmark files.',
 ['dreal/solver/context_impl.cc','dreal/solver/theory_solver.cc','dreal/solver/icp_seq.cc','dreal/solver/icp_parallel.cc','dreal/solver/sat_solver.cc'],
 [('DPLL(T) loop over interval constraint propagation','dreal/solver/context_impl.cc, theory_solver.cc, icp_seq.cc')])
p('P41','Pruning never removes a solution from a box',
 'Applying a contractor to a box (the one for a comparison, the one for several comparisons at once, the one for integers, and any sequence, join, fixpoint or worklist fixpoint of contractors) adds no point to the box and leaves in it every point that was in it, has integral values for integer and binary variables and satisfies the constraints the contractor was made from (for a join: those of one of its parts). It also leaves in it every such point that satisfies all constraints recorded as used, so what was recorded explains what was removed, and it forgets nothing that was recorded. A contractor generated from a formula keeps the points that satisfy the formula. Joining two statuses keeps the points of both boxes and what was recorded in both.',
 ['inputs','histories'],'all contractors, compositions, boxes, points, starting dimensions and termination conditions',
 'No test prunes anything when the interval library is missing; with it, tests contract a few boxes.',
 ['dreal/contractor/contractor_seq.cc','dreal/contractor/contractor_join.cc','dreal/contractor/contractor_integer.cc','dreal/contractor/contractor_fixpoint.cc','dreal/contractor/contractor_worklist_fixpoint.cc','dreal/contractor/contractor_ibex_fwdbwd.cc','dreal/contractor/contractor_ibex_polytope.cc','dreal/contractor/contractor_status.cc','dreal/contractor/contractor.cc','dreal/contractor/generic_contractor_generator.cc'],
 [('a join starts from nothing and adds each result','dreal/contractor/contractor_join.cc: ContractorJoin::Prune'),('rounding bounds inwards','dreal/contractor/contractor_integer.cc: ContractorInteger::Prune'),('recording what was used','dreal/contractor/contractor_ibex_fwdbwd.cc: Prune; contractor_status.cc: AddUsedConstraint')])
p('P42','Bound assertions narrow a box without losing solutions',
 'Turning a bound assertion (a comparison of a variable of the box with a constant inside the range of doubles, negated or not) into a narrowed box keeps every point of the box with double coordinates that satisfies the assertion, and the assertion is dropped afterwards only if every such point of the narrowed box satisfies it. A narrowed box contains nothing that was not in the box.',
 ['inputs'],'all assertions and boxes',
 'Tests cover a table of constants.',
 ['dreal/solver/filter_assertion.cc'],
 [('interval intersection per comparison and polarity','dreal/solver/filter_assertion.cc')])
p('P43','Branching covers the whole box',
 'Splitting a box on a dimension produces two boxes that together contain every point of the original that can be a solution (for integer variables: every integer point), and both are smaller than the original.',
 ['inputs'],'all boxes, dimensions and variable types',
 'Tests bisect a few boxes.',
 ['dreal/util/box.cc','dreal/solver/brancher.cc'],
 [('bisection of one interval','dreal/util/box.cc: bisect_*')])
p('P44','Push and pop on a solver context restore its assertions and bounds',
 'After a pop, a solver context answers every later query as if nothing since the matching push had happened.',
 ['histories'],'all sequences of declarations, assertions, checks, pushes and pops',
 'Tests use one or two levels.',
 ['dreal/solver/context_impl.cc'],
 [('scoped stacks of assertions and boxes','dreal/solver/context_impl.cc')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
