#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 vp/props.py rewrites both."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
P = []


def prop(pid, title, statement, over, text, why, files, mech):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})


EXPR = [D + "symbolic_expression.cc", D + "symbolic_expression_cell.cc"]
FORM = [D + "symbolic_formula.cc", D + "symbolic_formula_cell.cc"]
prop("C01", "Building an expression keeps its mathematical value",
     "An expression built with any combination of the arithmetic operators, the elementary functions and if-then-else evaluates, in every environment in which it is mathematically defined as written, to the value the written formula has. Automatic simplification (constant folding, merging of like terms and powers, flattening) never changes that value, and never aborts.",
     ["inputs", "programs"], "for every expression tree, every constant in it and every environment",
     "The tests compare a few hand-written expressions with their expected simplified form; the simplifier's branches depend on the shape of both operands and on the constants, whose combinations are unbounded.",
     EXPR, [("simplifying operators", D + "symbolic_expression.cc operator+= -= *= /=, pow"), ("sum and product factories", D + "symbolic_expression_cell.cc ExpressionAddFactory, ExpressionMulFactory"), ("evaluation", D + "symbolic_expression_cell.cc Evaluate")])
prop("C02", "Substitution in an expression is simultaneous and value-preserving",
     "Replacing variables by expressions gives an expression whose value in an environment is the value of the original where each replaced variable has the value of its replacement; several replacements act at the same time. A variable that is replaced by expressions not containing it no longer occurs in the result.",
     ["inputs", "programs"], "for every expression, every substitution and every environment where the original is defined",
     "Tests substitute into a few fixed expressions; each cell kind rebuilds itself through the simplifier, so errors depend on shapes, constants and replaced terms together.",
     EXPR, [("Substitute of each kind of expression", D + "symbolic_expression_cell.cc")])
prop("C03", "Symbolic differentiation gives the derivative",
     "The expression returned for the derivative with respect to a variable evaluates to the derivative of the original at every point where the original is differentiable and the derivative is defined. Only expressions that contain a function documented as not differentiable are refused.",
     ["inputs", "programs"], "for every expression, variable and point of differentiability",
     "Tests compare derivatives of single functions at sample points; the chain, product and quotient rules interact with simplification for unboundedly many shapes.",
     EXPR, [("Differentiate of each kind of expression", D + "symbolic_expression_cell.cc")])
prop("C04", "Expansion keeps the value and is idempotent",
     "Expanding an expression returns an expression with the same value wherever the original is defined. Expanding the result again gives the same expression.",
     ["inputs", "programs"], "for every expression and every environment where it is defined",
     "Tests expand a handful of polynomials; distribution and powers recurse over arbitrary sums, products and quotients.",
     EXPR, [("Expand of each kind of expression and the distribution helpers", D + "symbolic_expression_cell.cc")])
prop("C05", "Partial evaluation agrees with full evaluation",
     "Fixing some of the variables of an expression to values gives an expression without those variables which, evaluated at the remaining ones, has the value of the original at the whole assignment.",
     ["inputs", "programs"], "for every expression, every split of its variables and every assignment where it is defined",
     "Tests fix variables in a few expressions; constants that appear during the partial evaluation trigger simplifications that depend on their values.",
     EXPR, [("EvaluatePartial", D + "symbolic_expression.cc"), ("Substitute", D + "symbolic_expression_cell.cc")])
prop("C06", "Structural equality, ordering and hashing are consistent",
     "For expressions, formulas and variables, exactly one of 'less', 'equal', 'greater' holds for any two objects; the ordering is transitive, equality is an equivalence, equal objects have equal hashes and are interchangeable in comparisons. Ordered and hashed containers therefore keep exactly the distinct objects.",
     ["inputs", "programs"], "for every pair and triple of expressions, formulas, variables and constants, including interval constants and signed zeros",
     "Tests check a fixed list of objects; the comparison is a recursive case split over kinds and fields, and a pair that is neither ordered nor equal silently merges in containers.",
     EXPR + FORM + [D + "symbolic_variable.cc", D + "hash.h"], [("EqualTo, Less, HashAppend of each cell", D + "symbolic_expression_cell.cc, symbolic_formula_cell.cc")])
prop("C07", "Building a formula keeps its truth value",
     "A formula built with relations, conjunction, disjunction, negation, implication, equivalence and if-then-else evaluates, in every environment where its expressions are defined, to the truth value of the written formula; negating twice gives the formula back. Its free variables determine its value.",
     ["inputs", "programs"], "for every formula and every environment",
     "Tests check simplifications for some operand pairs; the connectives flatten, deduplicate and detect constants and complements across arbitrary operands.",
     FORM, [("formula operators", D + "symbolic_formula.cc"), ("evaluation", D + "symbolic_formula_cell.cc")])
prop("C08", "Substitution in a formula respects meaning and quantifiers",
     "Replacing variables (real by expressions, Boolean by formulas) in a formula gives a formula that is true exactly where the original is true under the correspondingly changed assignment. Bound variables of a quantified formula are not replaced, while every free occurrence is.",
     ["inputs", "programs"], "for every formula, substitution and environment",
     "Tests use a few formulas and substitutions; conditions of if-then-else, negations and quantifiers each have their own recursion.",
     FORM + EXPR, [("Substitute of each kind of formula", D + "symbolic_formula_cell.cc")])
prop("C09", "Delta-strengthening and weakening bracket a formula",
     "For every positive delta the strengthened formula implies the formula and the formula implies the weakened formula. For relations without if-then-else every bound moves by exactly delta.",
     ["inputs", "programs"], "for every formula, every delta and every environment",
     "Tests compare the result for each relation with its expected text; soundness is an implication over all environments and nested polarities.",
     ["dreal/symbolic/symbolic.cc", "dreal/symbolic/symbolic.h"], [("delta perturbation visitor", "dreal/symbolic/symbolic.cc DeltaStrengthenVisitor")])
prop("C10", "Syntactic classes of formulas are recognised exactly",
     "A formula is reported as a clause exactly when it is a literal or a disjunction of literals, and as being in conjunctive normal form exactly when it is a clause or a conjunction of clauses. The clauses returned for such a formula are clauses whose conjunction is the formula, and every part of a formula reported differentiable can be differentiated.",
     ["programs"], "for every formula",
     "Tests query a few formulas; recognition recurses through nested connectives and negations.",
     ["dreal/symbolic/symbolic.cc"], [("recognisers", "dreal/symbolic/symbolic.cc is_atomic, is_clause, is_cnf, get_clauses, IsDifferentiable")])
prop("C11", "Formulas are values: combining them never changes the operands",
     "Conjunctions and disjunctions of any list or set of formulas have the truth value of the list, also when an operand is passed as expiring. Combining formulas never changes another formula that shares parts with the operands.",
     ["programs", "histories"], "for every pair of formulas, operator and sharing situation",
     "Tests combine fresh formulas; whether the in-place path is taken depends on reference counts and kinds.",
     FORM, [("expiring operands and in-place update", D + "symbolic_formula.cc operator&&, operator||"), ("reference counts", D + "symbolic_formula.h")])

prop("C12", "Expressions are values: updating one never changes another",
     "Compound assignments, increments, negation and operators applied to expiring operands give the value of the operation, whatever other expressions share parts with the operands and even when an operand is the target itself or a part of it. No other expression changes, and all memory is released afterwards.",
     ["programs", "histories"], "for every pair of expressions, operator and sharing situation",
     "Tests combine fresh expressions; whether a cell is reused in place depends on reference counts, kinds and aliasing.",
     EXPR, [("operators that consume an operand", D + "symbolic_expression.cc"), ("factories that take over a cell", D + "symbolic_expression_cell.cc ExpressionAddFactory, ExpressionMulFactory")])
prop("C13", "Reported attributes of expressions and formulas are exact",
     "The variables reported for an expression are exactly those that occur in it, and the free variables reported for a formula exactly those that occur free in it. The polynomial and if-then-else attributes agree with the structure, and evaluation reports any variable without a value.",
     ["programs"], "for every expression and formula",
     "Tests query a few objects; the attributes are computed by every constructor and survive in-place updates.",
     EXPR + FORM, [("cached attributes", D + "symbolic_expression_cell.cc constructors, GetVariables"), ("free variables", D + "symbolic_formula_cell.cc")])
prop("C14", "Environments and variable sets behave like maps and sets",
     "Variables are distinguished by identity and not by name. Sets of variables obey the algebra of sets (union, difference, intersection, inclusion, equality with equal hashes, total order), also when updated in place or combined with themselves; an environment stores the first value inserted for a variable, reports missing ones, and refuses NaN and the dummy variable.",
     ["inputs", "histories"], "for every pair of sets over the variables and every double value",
     "Tests use a few sets and values; identity, overlap and self-combination are independent dimensions.",
     [D + "symbolic_variables.cc", D + "symbolic_variable.cc", D + "symbolic_environment.cc"], [("set operations", D + "symbolic_variables.cc"), ("environment checks", D + "symbolic_environment.cc")])
UT = "dreal/util/"
prop("C15", "Negation normal form is equivalent and normal",
     "Conversion to negation normal form gives a formula with the same truth value in every environment in which negation is applied only to atoms or quantified formulas; when asked to push negations into relations, no negated relation is left.",
     ["programs", "inputs"], "for every formula and environment",
     "Tests compare the text of a few results; the conversion recurses with a polarity through all connectives and relations.",
     [UT + "nnfizer.cc"], [("polarity recursion", UT + "nnfizer.cc")])
prop("C16", "Conjunctive normal form is equivalent and normal",
     "The naive conversion gives a formula with the same truth value in every environment that is a conjunction of clauses; under quantifiers it keeps the meaning as well.",
     ["programs", "inputs"], "for every formula and environment",
     "Tests check a few formulas; distribution multiplies clauses of arbitrary nested connectives.",
     [UT + "naive_cnfizer.cc", UT + "nnfizer.cc"], [("distribution", UT + "naive_cnfizer.cc VisitDisjunction")])
prop("C17", "The Tseitin transformation is equisatisfiable, clause by clause",
     "Every element of the result is a clause. Whatever values the new variables take, the clauses together imply the original formula; when they take the values of their definitions, the clauses hold exactly when the formula does. A converter can be reused.",
     ["programs", "inputs"], "for every formula, environment and assignment to the new variables",
     "Tests check equisatisfiability of six Boolean formulas; relations, negations, quantifiers and reuse are not among them.",
     [UT + "tseitin_cnfizer.cc"], [("definitions and their clauses", UT + "tseitin_cnfizer.cc Cnfize*, Visit*")])
prop("C18", "Eliminating if-then-else preserves satisfiability",
     "The result contains no if-then-else term; it implies the original formula for every value of the new variables, and where the original holds some values of the new variables satisfy the result. Under a universal quantifier the new variables are quantified as well and the meaning is the same.",
     ["programs", "inputs"], "for every formula, environment and assignment to the new variables",
     "Tests look at the shape of a few results; the guards depend on nesting, polarity and sharing.",
     [UT + "if_then_else_eliminator.cc"], [("guards and new variables", UT + "if_then_else_eliminator.cc")])
prop("C19", "Predicate abstraction is exact and reversible",
     "The abstraction is a Boolean formula that has the truth value of the original when every new Boolean variable has the truth value of the predicate it stands for. Variables and predicates correspond one to one, across repeated conversions.",
     ["programs", "histories"], "for every formula and sequence of conversions",
     "Tests compare counts for a few formulas; identification of equal predicates relies on structural equality and hashes.",
     [UT + "predicate_abstractor.cc"], [("predicate table", UT + "predicate_abstractor.cc")])

prop("C20", "The printed text of an expression or formula denotes it",
     "Reading the text that operator<< writes for an expression or formula with the usual precedence of the arithmetic and logical operators, or reading the SMT-LIB text of ToPrefix/PrefixPrinter by the SMT-LIB rules, gives an expression or formula with the same value under every assignment of its variables: every coefficient, constant, exponent, operand and connective is in the text, constants with all the digits that distinguish them. Printing leaves the formatting state of the stream (its precision) as it found it.",
     ["inputs", "programs"], "for every expression and formula, every assignment of its variables, both notations",
     "The tests compare a few dozen texts with expected strings, most with short constants; the precision of a constant depends on what was printed before it, and omitted parentheses or a dropped coefficient show only for particular shapes.",
     EXPR + FORM + ["dreal/symbolic/prefix_printer.cc", "dreal/symbolic/prefix_printer.h"],
     [("Expression*::Display, ExpressionAdd::DisplayTerm, ExpressionMul::DisplayTerm", D + "symbolic_expression_cell.cc"), ("Formula*::Display", D + "symbolic_formula_cell.cc"), ("PrefixPrinter::Visit*", "dreal/symbolic/prefix_printer.cc")])

SL = "dreal/solver/"
prop("C21", "A box keeps one domain per variable and bisection covers it",
     "Every variable added to a box has an index and a domain of its own, with the bounds given or those of its type; copies of a box do not influence each other. Bisecting a dimension gives two smaller, non-empty boxes that together contain every point (for integer domains: every integer, once) and differ from the box in that dimension only; a union is the smallest box around both.",
     ["inputs", "histories"], "for every sequence of additions and copies, every pair of bounds and every dimension",
     "Tests bisect a handful of intervals; boxes share their variable tables between copies, and rounding or infinite bounds decide whether a half is empty or a point lost.",
     [UT + "box.cc", UT + "box.h"], [("Add and the shared variable tables", UT + "box.cc Box::Add"), ("bisect_int, bisect_continuous", UT + "box.cc"), ("InplaceUnion", UT + "box.cc")])
prop("C22", "Branching splits the widest active dimension that can be split",
     "Among the active dimensions that can be bisected, branching chooses one of maximal width, reports that none exists only if so, and the two boxes it returns cover the box.",
     ["inputs"], "for every box and every set of active dimensions",
     "Tests use one or two boxes; ties, infinite widths and inactive dimensions decide whether the search terminates with a verdict.",
     [SL + "brancher.cc", UT + "box.cc"], [("FindMaxDiam, BranchLargestFirst", SL + "brancher.cc")])
prop("C23", "Turning a bound into the box neither loses nor admits points",
     "When an assertion x op c is absorbed into the domain of x, no point of the box that satisfies it is lost, and if it is reported as absorbed every point that is left satisfies it; domains of other variables do not change, and any other assertion is refused and leaves the box alone.",
     ["inputs"], "for every relation, polarity, variable type, constant and domain",
     "Tests use small positive integers; strict bounds step to the neighbouring double or integer, in a direction that depends on sign, polarity, type and the side of the constant.",
     [SL + "filter_assertion.cc"], [("bound updates", SL + "filter_assertion.cc")])

CO = "dreal/contractor/"
prop("C24", "Interval evaluation encloses every value and VALID/UNSAT verdicts are right",
     "For every point of a box at which an expression is defined, its value lies in the interval the expression evaluator returns for the box; a relation reported VALID over a box holds at every point of it at which it is defined, one reported UNSAT at none; the box and the formula are left alone.",
     ["inputs", "programs"], "for every expression and relation, every box and every point of it",
     "Tests evaluate a few expressions over one box; an enclosure that loses a sliver of the values turns delta-sat boxes into unsound verdicts only for particular shapes and bounds.",
     [SL + "expression_evaluator.cc", SL + "relational_formula_evaluator.cc", SL + "formula_evaluator.cc"], [("Visit*", SL + "expression_evaluator.cc"), ("operator() by relation and sign", SL + "relational_formula_evaluator.cc")])
prop("C25", "The constraints handed to IBEX mean what the formula means",
     "The expression tree and comparison that the converter builds for IBEX have, for every assignment, the value of the expression and the truth value of the relation (negated if so asked); only disequalities, which IBEX cannot express, are left out.",
     ["inputs", "programs"], "for every expression and relation, both polarities, every assignment",
     "Tests compare printed trees for a few formulas; exponent classes, signs and negated relations are translated by separate cases.",
     [UT + "ibex_converter.cc"], [("Visit*", UT + "ibex_converter.cc")])
prop("C26", "Pruning never loses a solution, and its explanations are sound",
     "A contractor, alone or composed in sequence, join, fixpoint or worklist, only shrinks the box, keeps every point that satisfies all its constraints, reports every dimension it changed, and when it empties a box the constraints in its explanation exclude every point of the box.",
     ["inputs", "histories"], "for every set of constraints, composition, box, point, and every sound behaviour of the underlying IBEX contractor",
     "Tests prune one box with one constraint and IBEX's own contractions; the composition must be right for every order and outcome of the contractions, and the explanation becomes a learned clause whose unsoundness shows as a wrong unsat.",
     [CO + "contractor_ibex_fwdbwd.cc", CO + "contractor_ibex_polytope.cc", CO + "contractor_worklist_fixpoint.cc", CO + "contractor_join.cc", CO + "contractor_status.cc"],
     [("Prune", CO + "contractor_ibex_fwdbwd.cc"), ("input and output dependencies", CO + "contractor_worklist_fixpoint.cc"), ("Explanation", CO + "contractor_status.cc")])
prop("C27", "The propositional layer is sound and complete over scopes and lemmas",
     "Over any history of assertions, learned clauses, push, pop and checks, the propositional solver answers unsatisfiable only when no assignment to the Boolean variables and relations satisfies the assertions in scope, and otherwise returns a model every completion of which satisfies them, with each relation or Boolean variable given one polarity.",
     ["histories", "programs", "inputs"], "for every history of assertions, lemmas, scopes and checks and every model the SAT engine may return",
     "Tests check a handful of formulas once; clauses retained across scopes and literals dropped from a partial model go wrong only for particular histories and engine choices.",
     [SL + "sat_solver.cc"], [("CheckSat, AddFormula, Push, Pop, UpdateLookup", SL + "sat_solver.cc")])
prop("C28", "Answers are delta-decisions",
     "A check answers unsatisfiable only if no point of the declared domains satisfies the asserted formulas in scope; a delta-satisfiable answer comes with a box at most delta wide in each dimension, every point of which satisfies the delta-weakening of the formulas; after any history of assertions, scopes and checks, and whatever the contractors prune.",
     ["inputs", "histories", "programs"], "for every set of formulas, history of scopes and checks, choice of branching and sound pruning, and every point",
     "Tests compare the answers of fixed problems; soundness must hold for every formula, every pruning outcome and every history, across SAT solver, theory solver, explanations and caches together.",
     [SL + "context_impl.cc", SL + "theory_solver.cc", SL + "icp_seq.cc", SL + "icp.cc"], [("CheckSat", SL + "context_impl.cc"), ("CheckSat, BuildContractor", SL + "theory_solver.cc"), ("CheckSat", SL + "icp_seq.cc")])
prop("C29", "Models name the declared variables and lie in their domains",
     "A model has exactly the declared (model) variables in scope, lies in their declared domains and, for integers, consists of integers; bounds and declarations made in a popped scope have no effect; with bounds only, the answer and model are those of the bounds, for every domain, however large.",
     ["inputs", "histories"], "for every sequence of declarations, bounds and scopes, every domain and both variable types",
     "Tests declare variables once, up front; declarations inside scopes, redeclared domains, auxiliary variables and integer bounds interact with what the solver keeps between checks.",
     [SL + "context_impl.cc", SL + "theory_solver.cc", SL + "filter_assertion.cc"], [("DeclareVariable, SetDomain, Push, Pop, ExtractModel, Tighten", SL + "context_impl.cc"), ("contractor and evaluator caches", SL + "theory_solver.cc")])
prop("C30", "Minimisation asserts optimality over the feasible points",
     "The assertion that Minimize adds holds at a point exactly if no point in the domains that satisfies the constraints asserted so far has a smaller objective (for Maximize, a larger one); a fresh variable equals each objective, and quantified variables are fresh copies of the variables.",
     ["inputs", "programs"], "for every objective, set of constraints, domain and pair of points",
     "Tests minimise a few functions and look at the final box; a bound or constraint left out of the quantified formula shows only when it is active at the optimum.",
     [SL + "context_impl.cc"], [("Minimize", SL + "context_impl.cc")])
prop("C31", "SMT-LIB scripts mean what they say",
     "The assertions, domains and options that reading a script leaves in the solver hold at exactly the points at which the script's assertions in scope hold: every operator and literal, let (simultaneous, shadowing), define-fun and its calls, bounded declarations, forall with domains and Boolean variables, push and pop. A well-formed script is accepted.",
     ["programs", "inputs"], "for every script within the grammar and bounds, and every point",
     "Tests compare the answers on a set of files; scoping, shadowing, argument order and literals each have cases that no file combines.",
     ["dreal/smt2/parser.yy", "dreal/smt2/scanner.ll", "dreal/smt2/driver.cc", "dreal/smt2/term.cc", UT + "string_to_interval.cc"],
     [("term, command_*, let_binding_list", "dreal/smt2/parser.yy"), ("FunctionDefinition, DeclareLocalVariable, EliminateBooleanVariables", "dreal/smt2/driver.cc"), ("StringToInterval", UT + "string_to_interval.cc")])
prop("C32", "Scopes restore, options keep their precedence, conversions do not lose",
     "After any history of insertions, push and pop, scoped maps, sets and vectors hold exactly what was inserted in the open scopes; an option has the last value given by its strongest source (default, file, command line, code); integer conversions return the value or fail, and integrality tests are exact.",
     ["histories", "inputs"], "for every history of operations, all values",
     "Tests run one history per container and a few numbers; undo of nested updates and the edges of number ranges are particular cases.",
     [UT + "scoped_unordered_map.h", UT + "scoped_unordered_set.h", UT + "scoped_vector.h", UT + "option_value.h", UT + "math.cc"],
     [("insert, push, pop", UT + "scoped_unordered_map.h"), ("pop, operator<", UT + "scoped_vector.h"), ("set_from_file, set_from_command_line", UT + "option_value.h"), ("is_integer, convert_int64_to_*", UT + "math.cc")])

CO = "dreal/contractor/"
prop("C33", "Pruning under a quantifier keeps every point where it holds",
     "The contractor and the evaluator for a universally quantified constraint remove only points at which some value of the quantified variables falsifies its body, report VALID or UNSAT over a box only if so at every point, and accept a box only if the weakened constraint holds there.",
     ["inputs", "schedules"], "for every quantified constraint, box, counterexample found and local refinement of it",
     "Tests solve a few exist-forall problems; a counterexample refined outside its domain, or a cached inner solver, matters for particular boxes only.",
     [CO + "contractor_forall.h", CO + "counterexample_refiner.cc", SL + "forall_formula_evaluator.cc"], [("Prune", CO + "contractor_forall.h"), ("Refine", CO + "counterexample_refiner.cc"), ("operator()", SL + "forall_formula_evaluator.cc")])
prop("C34", "Parallel search answers like sequential search",
     "With any number of jobs and under every interleaving of the workers, the parallel search answers delta-satisfiable with a box that passes the evaluation, or unsatisfiable only when every box has been refuted; explanations join those of all workers, and no worker uses another's contractor state.",
     ["schedules"], "for every number of jobs and every interleaving",
     "Tests run one schedule; a lost box or an early termination needs a particular interleaving of pop, push and the termination counter.",
     [SL + "icp_parallel.cc"], [("Worker, CheckSat", SL + "icp_parallel.cc")])
prop("C35", "The command line program answers for the file it is given",
     "The dreal program reads the file by its extension, applies the options of the command line over those of the file, prints the answer of every check in order and exits with a failure status if the file cannot be read.",
     ["inputs"], "for every command line and file",
     "Tests run the program on example files with a few options.",
     ["dreal/dreal_main.cc"], [("MainProgram", "dreal/dreal_main.cc")])

NOTE = ("Z3 decides every assertion on every execution path of the real code (compiled to LLVM IR from /repo at run time, executed symbolically) for all values within the stated "
        "bounds; a counterexample is replayed on a plain native build before it is reported. Trusts clang -O1, the engine, Z3 and the listed assumptions.")
TECH = "symbolic execution of the real code (LLVM IR) with Z3 over all inputs within bounds"
NA = []


def na(pid, reason):
    NA.append({"property": pid, "reason": reason})


na("C33", "The body of the contractor is a nested solver call (an inner Context with its own SAT search, branching and pruning, refined by NLopt) inside a fixpoint; the number of paths under arbitrary sound pruning of both levels "
   "exceeds what the engine explores before a first verdict, and NLopt, not installed here, would be a stand-in in the deciding position. The formula handed to it, the delta-strengthening and the generic contractors are decided by C09, C25, C26 and C30.")
na("C34", "The engine forks a process per path and has no model of threads; the workers share a lock-free stack of libcds, which is not installed here, and relaxed atomics, for which a stand-in would decide the very interleavings in question. "
   "What each worker runs (contractors, evaluation, branching) is decided by C22, C24 and C26.")
na("C35", "Option parsing is done by the ezOptionParser library, which is not installed, and the rest is file and process input/output without a symbolic input; the precedence of options is decided by C32 and the reading of scripts by C31.")


def main():
    from vp.checks import CHECKS
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    nas = {n["property"] for n in NA}
    assert set(ids) == set(CHECKS) | nas and not (set(CHECKS) & nas), (set(ids) ^ (set(CHECKS) | nas))
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "checks": [{"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                     "technique": CHECKS[i].get("technique", TECH), "level": "model_checking", "level_note": CHECKS[i].get("note", NOTE)} for i in ids if i in CHECKS],
         "not_applicable": NA}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
