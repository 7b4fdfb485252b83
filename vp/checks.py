"""Harnesses and the checks built from them."""
BOXLIB = ["drake", "symbolic"] + ["dreal/util/%s.cc" % f for f in ("box", "math", "logging", "precision_guard", "timer")]
CTC = ["dreal/contractor/%s.cc" % f for f in ("contractor", "contractor_cell", "contractor_fixpoint", "contractor_ibex_fwdbwd", "contractor_ibex_fwdbwd_mt", "contractor_ibex_polytope", "contractor_ibex_polytope_mt",
                                              "contractor_id", "contractor_integer", "contractor_join", "contractor_seq", "contractor_status", "contractor_worklist_fixpoint", "generic_contractor_generator")]
CTC += ["dreal/util/ibex_converter.cc", "dreal/util/nnfizer.cc", "dreal/util/interval.cc", "dreal/solver/config.cc"]
SOLVE = (BOXLIB + [f for f in CTC if f not in BOXLIB] + ["dreal/util/%s.cc" % f for f in ("naive_cnfizer", "tseitin_cnfizer", "predicate_abstractor", "if_then_else_eliminator", "interrupt", "option_value")]
              + ["dreal/solver/%s.cc" % f for f in ("context", "context_impl", "theory_solver", "icp", "icp_seq", "icp_stat", "sat_solver", "filter_assertion", "brancher", "expression_evaluator",
                                                     "relational_formula_evaluator", "formula_evaluator", "formula_evaluator_cell")] + ["dreal/smt2/logic.cc"])
HARNESSES = {
    "expr_build": {},
    "expr_ops": {},
    "formula": {},
    "order": {},
    "values": {"alloc": 1},
    "meta": {},
    "printing": {},
    "box": {"groups": BOXLIB + ["dreal/solver/brancher.cc"]},
    "filter": {"groups": BOXLIB + ["dreal/solver/filter_assertion.cc"]},
    "enclose": {"groups": BOXLIB + ["dreal/solver/%s.cc" % f for f in ("expression_evaluator", "relational_formula_evaluator", "formula_evaluator", "formula_evaluator_cell")] + ["dreal/util/ibex_converter.cc"],
                "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "sat": {"groups": ["drake", "symbolic"] + ["dreal/util/%s.cc" % f for f in ("logging", "timer", "tseitin_cnfizer", "naive_cnfizer", "nnfizer", "predicate_abstractor", "option_value", "math", "box")] + ["dreal/solver/sat_solver.cc", "dreal/solver/config.cc", "dreal/solver/brancher.cc"],
            "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "theory": {"groups": SOLVE, "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "solve": {"groups": SOLVE, "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "context": {"groups": SOLVE, "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "parse": {"groups": SOLVE + ["dreal/smt2/%s.cc" % f for f in ("driver", "sort", "term", "command", "command_cell")] + ["dreal/util/string_to_interval.cc", "dreal/util/rounding_mode_guard.cc"],
              "gen": True, "genfiles": ["dreal/smt2/parser.yy.cc", "dreal/smt2/scanner.ll.cc"], "extra": "-Wl,--unresolved-symbols=ignore-all -lgmpxx -lgmp"},
    "scopes": {"groups": ["dreal/util/logging.cc", "dreal/util/math.cc", "dreal/solver/config.cc"] + BOXLIB + ["dreal/solver/brancher.cc"], "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "contract": {"groups": BOXLIB + CTC, "gen": True, "extra": "-Wl,--unresolved-symbols=ignore-all"},
    "cnf": {"groups": ["drake", "symbolic", "dreal/util/logging.cc", "dreal/util/nnfizer.cc", "dreal/util/naive_cnfizer.cc", "dreal/util/tseitin_cnfizer.cc",
                        "dreal/util/if_then_else_eliminator.cc", "dreal/util/predicate_abstractor.cc", "dreal/util/timer.cc"]},
}


def R(h, mode, bounds, cfg=None, reach=("defined",), asserts=(), only=None, q=None, t=None, opts=None):
    """One exploration: harness, arithmetic, bounds; q/t: seconds in the quick/thorough tier."""
    r = {"h": h, "mode": mode, "bounds": bounds, "cfg": cfg or {}, "reach": list(reach), "asserts": list(asserts), "budget": {}}
    if only == "thorough":
        r["thorough_only"] = True
    if q:
        r["budget"]["quick"] = q if q <= 10 else round(10 + 0.65 * (q - 10))
    if t:
        r["budget"]["thorough"] = t
    if opts:
        r["opts"] = opts
    return r


REAL = ("Real arithmetic: +, -, *, / on doubles are exact real operations (rounding is outside the bound); sqrt, pow, exp, log and the trigonometric functions "
        "are uninterpreted functions constrained by listed algebraic facts.")
DEF = "Paths on which the expression as written is undefined (division by zero, a domain error) end without a verdict; an exponent that is not a fixed constant has a positive base."
CONST = "Symbolic constants are finite and differ from pi, e, -pi, -e (the thorough tier lifts the latter)."
D = "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"

CHECKS = {}


def check(pid, functions, assumptions, runs, **kw):
    CHECKS[pid] = dict(functions=functions, assumptions=assumptions, runs=runs, **kw)


V = ["value preserved"]
check("C01", ["operator+ - * / and pow, abs, min, ... of Expression", "ExpressionAddFactory", "ExpressionMulFactory", "Expression*::Evaluate", "if_then_else"],
      [REAL, DEF, CONST], [
    R("expr_build", "real", "every operator applied to x, y and symbolic constants; if-then-else over every relation", {"slice": 0}, asserts=V),
    R("expr_build", "real", "two nested operators of + - * / pow over x, y, symbolic constants, both operand orders", {"slice": 1}, asserts=V, q=40),
    R("expr_build", "real", "op(op(v,v),op(v,v)) for + - * / pow over x, y", {"slice": 2}, asserts=V),
    R("expr_build", "real", "two nested operators out of + - * / pow abs sqrt exp log sin min over x and symbolic constants", {"slice": 3}, asserts=V, q=30),
    R("expr_build", "real", "products and sums of powers of powers", {"slice": 4}, asserts=V, q=20, t=900),
    R("expr_build", "real", "exponentials with a common constant base", {"slice": 5}, asserts=V),
    R("expr_build", "real", "sums and products of three to four terms, symbolic coefficients", {"slice": 6}, asserts=V),
    R("expr_build", "real", "if-then-else over Boolean and mixed conditions inside every kind of expression", {"slice": 7}, asserts=V),
    R("expr_build", "real", "powers of sums and products, exponents 2 to 9", {"slice": 8}, asserts=V),
    R("expr_build", "real", "functions of powers, powers of functions, powers of powers, products and quotients of powers; 9 exponents", {"slice": 9}, asserts=V, q=35),
    R("expr_build", "real", "slice 0 with constants that may be pi or e", {"slice": 0, "pie": 1}, asserts=V, only="thorough"),
    R("expr_build", "real", "slice 1 with constants that may be pi or e", {"slice": 1, "pie": 1}, asserts=V, only="thorough", t=600),
    R("expr_build", "real", "three nested operators on a spine", {"slice": 1, "spine": 3}, asserts=V, only="thorough", t=900),
])
SUBST = ["substitution evaluates like the original under the moved environment", "single substitution agrees"]
check("C02", ["Expression::Substitute", "Expression*::Substitute", "the factories and operators it rebuilds with", "Expression::GetVariables"],
      [REAL, DEF, CONST, "Substituted terms: x, y or a symbolic constant for x; optionally also for y (simultaneous)."], [
    R("expr_ops", "real", "every operator over x, y", {"what": 0, "slice": 0, "c": 0}, asserts=SUBST),
    R("expr_ops", "real", "a function of an operator, an operator of a function, if-then-else", {"what": 0, "slice": 2, "c": 0}, asserts=SUBST),
    R("expr_ops", "real", "two nested operators over x, y", {"what": 0, "slice": 1, "c": 0}, asserts=SUBST, q=20),
    R("expr_ops", "real", "polynomials: powers and products of sums", {"what": 0, "slice": 3, "c": 0}, asserts=SUBST, q=15, t=900),
    R("expr_ops", "real", "if-then-else inside every kind of expression; formulas substituted for the Boolean variables of its condition, alone and with expressions", {"what": 0, "slice": 6, "c": 0},
      asserts=SUBST + ["substitution of formulas only"], q=35, t=900),
    R("expr_ops", "real", "sums and products of three to four terms", {"what": 0, "slice": 5, "c": 0}, asserts=SUBST, q=20, t=900),
    R("expr_ops", "real", "powers of sums and products, exponents 2 to 5", {"what": 0, "slice": 7, "maxpow": 5}, asserts=SUBST, q=15, t=900),
    R("expr_ops", "real", "every operator with symbolic constants, substituting sums", {"what": 0, "slice": 0, "deep": 1}, asserts=SUBST, only="thorough", t=900),
    R("expr_ops", "real", "three nested operators", {"what": 0, "slice": 4}, asserts=SUBST, only="thorough", t=900),
])
DF = ["derivative"]
DR = ["differentiable"]
check("C03", ["Expression::Differentiate", "Expression*::Differentiate", "the factories and operators it builds with", "Expression*::Evaluate"],
      [REAL, DEF, CONST, "Oracle: forward-mode derivative of the tree as written; points where a function has a kink or its derivative is undefined are outside the bound."], [
    R("expr_ops", "real", "every differentiable operator over x, y, symbolic constants", {"what": 1, "slice": 0}, reach=DR, asserts=DF),
    R("expr_ops", "real", "two nested operators over x, y", {"what": 1, "slice": 1, "c": 0}, reach=DR, asserts=DF),
    R("expr_ops", "real", "a function of an operator, an operator of a function, over x and symbolic constants", {"what": 1, "slice": 2}, reach=DR, asserts=DF),
    R("expr_ops", "real", "polynomials: powers and products of sums", {"what": 1, "slice": 3, "c": 0}, reach=DR, asserts=DF),
    R("expr_ops", "real", "sums and products of three to four terms", {"what": 1, "slice": 5, "c": 0}, reach=DR, asserts=DF),
    R("expr_ops", "real", "powers of sums and products, exponents 2 to 9", {"what": 1, "slice": 7}, reach=DR, asserts=DF),
    R("expr_ops", "real", "sums and products with symbolic coefficients", {"what": 1, "slice": 5}, reach=DR, asserts=DF, only="thorough", t=300),
    R("expr_ops", "real", "three nested operators over x and a fixed constant", {"what": 1, "slice": 4, "c": 0}, reach=DR, asserts=DF, q=30, t=300),
    R("expr_ops", "real", "two nested operators over x, y, symbolic constants", {"what": 1, "slice": 1}, reach=DR, asserts=DF, only="thorough", t=600),
])
EX = ["expansion keeps the value", "expansion is idempotent"]
check("C04", ["Expression::Expand", "Expression*::Expand", "DistributeMultiplicationOverAddition, ExpandMultiplication, ExpandPow", "the factories"],
      [REAL, DEF, CONST], [
    R("expr_ops", "real", "every operator over x, y, symbolic constants", {"what": 2, "slice": 0}, asserts=EX),
    R("expr_ops", "real", "a function of an operator, an operator of a function", {"what": 2, "slice": 2}, asserts=EX),
    R("expr_ops", "real", "polynomials: powers and products of sums", {"what": 2, "slice": 3, "c": 0}, asserts=EX),
    R("expr_ops", "real", "three nested operators over x and a fixed constant", {"what": 2, "slice": 4}, asserts=EX),
    R("expr_ops", "real", "sums and products of three to four terms, symbolic coefficients", {"what": 2, "slice": 5}, asserts=EX),
    R("expr_ops", "real", "powers of sums and products, exponents 2 to 10", {"what": 2, "slice": 7, "maxpow": 10}, asserts=EX),
    R("expr_ops", "real", "two nested operators over x, y, symbolic constants", {"what": 2, "slice": 1}, asserts=EX, q=40),
    R("expr_ops", "real", "polynomials with symbolic coefficients", {"what": 2, "slice": 3}, asserts=EX, only="thorough", t=600),
])
PA = ["partial evaluation then evaluation", "evaluated variable is gone"]
check("C05", ["Expression::EvaluatePartial", "Expression*::Substitute with constants", "Expression*::Evaluate"],
      [REAL, DEF, CONST], [
    R("expr_ops", "real", "every operator over x, y", {"what": 3, "slice": 0, "c": 0}, asserts=PA),
    R("expr_ops", "real", "a function of an operator, an operator of a function, if-then-else", {"what": 3, "slice": 2, "c": 0}, asserts=PA),
    R("expr_ops", "real", "polynomials: powers and products of sums", {"what": 3, "slice": 3, "c": 0}, asserts=PA, q=20),
    R("expr_ops", "real", "two nested operators over x, y", {"what": 3, "slice": 1, "c": 0}, asserts=PA, q=20),
    R("expr_ops", "real", "sums and products of three to four terms", {"what": 3, "slice": 5, "c": 0}, asserts=PA, q=20),
    R("expr_ops", "real", "powers of sums and products, exponents 2 to 6", {"what": 3, "slice": 7, "maxpow": 6}, asserts=PA, q=15),
    R("expr_ops", "real", "three nested operators", {"what": 3, "slice": 4, "c": 0}, asserts=PA, only="thorough", t=300),
    R("expr_ops", "real", "every operator with symbolic constants", {"what": 3, "slice": 0}, asserts=PA, only="thorough", t=600),
])
OR = ["exactly one of less, greater, equal", "equal objects have equal hashes", "the order is transitive"]
CMP = ["compared"]
check("C06", ["Expression/Formula/Variable::EqualTo, Less, get_hash", "ExpressionCell/FormulaCell::EqualTo, Less, HashAppend", "cell constructors"],
      ["Constants are symbolic doubles; expressions come from a list of 22 shapes, formulas from 34.", "The hash mixing step is an uninterpreted function, so equal hashes are required for every mixing function."], [
    R("order", "real", "all pairs of 22 expression shapes with symbolic constants, third operand derived", {"what": 0}, reach=CMP, asserts=OR, q=40),
    R("order", "real", "all pairs of 34 formula shapes with symbolic constants, third operand derived", {"what": 1}, reach=CMP, asserts=OR),
    R("order", "real", "all triples of 6 variables (same name, dummy, Boolean, real)", {"what": 4}, reach=CMP, asserts=OR[:1] + OR[2:]),
    R("order", "fp", "triples of interval constants with adjacent double bounds", {"what": 2}, reach=CMP, asserts=OR),
    R("order", "fp", "triples of double constants, bit-exact", {"what": 3}, reach=CMP, asserts=OR),
    R("order", "fp", "triples x + c, bit-exact", {"what": 3, "shape": 1}, reach=CMP, asserts=OR),
    R("order", "fp", "triples c * x, bit-exact", {"what": 3, "shape": 2}, reach=CMP, asserts=OR, only="thorough", t=300),
    R("order", "real", "all triples of 34 formula shapes, a fixed constant", {"what": 1, "triple": 1, "consts": 2}, reach=CMP, asserts=OR, q=45),
    R("order", "real", "all triples of 22 expression shapes, a fixed constant", {"what": 0, "triple": 1, "consts": 2}, reach=CMP, asserts=OR, q=30),
    R("order", "real", "all triples of 22 expression shapes, two fixed constants", {"what": 0, "triple": 1, "consts": 0}, reach=CMP, asserts=OR, only="thorough", t=600),
    R("order", "real", "all triples of 34 formula shapes, two fixed constants", {"what": 1, "triple": 1, "consts": 0}, reach=CMP, asserts=OR, only="thorough", t=600),
])
FC = ["formula evaluates like its meaning", "negation", "double negation gives the formula back", "the free variables determine the value"]
check("C07", ["operators == != < <= > >= && || ! imply iff of Formula and Expression", "FormulaAnd/Or/Not/Eq/...::Evaluate", "make_conjunction, make_disjunction", "GetFreeVariables"],
      [REAL, DEF, CONST], [
    R("formula", "real", "one relation between two expressions of depth <= 1 over x, y", {"what": 0, "slice": 0, "c": 0, "both": 1}, asserts=FC),
    R("formula", "real", "a relation and a literal under and, or, imply, iff, not", {"what": 0, "slice": 5, "c": 1}, asserts=FC),
    R("formula", "real", "all formulas of depth 2 over two Boolean variables and truth constants", {"what": 0, "slice": 2}, asserts=FC),
    R("formula", "real", "if-then-else on one side of a relation", {"what": 0, "slice": 3}, asserts=FC),
    R("formula", "real", "three literals over relations and a Boolean under two connectives", {"what": 0, "slice": 4}, asserts=FC),
    R("formula", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 0, "slice": 7}, asserts=FC),
    R("formula", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 0, "slice": 8}, asserts=FC),
    R("formula", "real", "two different literals and all five connectives with symbolic constants", {"what": 0, "slice": 1}, asserts=FC, only="thorough", t=600),
    R("formula", "real", "one relation with symbolic constants", {"what": 0, "slice": 0}, asserts=FC, only="thorough", t=600),
])
check("C08", ["Formula::Substitute", "Formula*::Substitute", "ExpressionIfThenElse::Substitute", "forall", "Variables::erase"],
      [REAL, DEF, CONST, "Under a quantifier the substituted term does not contain the bound variable (the library documents no capture avoidance, and its tests fix that)."], [
    R("formula", "real", "one relation over x, y", {"what": 1, "slice": 0, "c": 0}, asserts=SUBST),
    R("formula", "real", "a relation and a literal under a connective", {"what": 1, "slice": 5}, asserts=SUBST),
    R("formula", "real", "if-then-else on one side of a relation", {"what": 1, "slice": 6}, asserts=SUBST),
    R("formula", "real", "connectives over Booleans", {"what": 1, "slice": 2, "depth": 1}, asserts=SUBST),
    R("formula", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 1, "slice": 7}, asserts=SUBST, q=15, t=600),
    R("formula", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 1, "slice": 8}, asserts=SUBST, q=15, t=600),
    R("formula", "real", "quantified: a relation and a literal under a connective", {"what": 5, "slice": 5}, asserts=["substitution under a Boolean quantifier replaces the free variables and only these"]),
    R("formula", "real", "quantified: one relation over x, y", {"what": 5, "slice": 0, "c": 0}, asserts=["a bound variable is not substituted", "free variables of a quantified formula"]),
    R("formula", "real", "quantified: three literals under two connectives", {"what": 5, "slice": 4}, asserts=["substitution goes under the quantifier"], q=15),
    R("formula", "real", "quantified: if-then-else", {"what": 5, "slice": 6}, q=15),
    R("formula", "real", "three literals under two connectives", {"what": 1, "slice": 4, "sc": 0}, asserts=SUBST, q=15, t=600),
    R("formula", "real", "a relation and a literal, all connectives, symbolic constants", {"what": 1, "slice": 1}, asserts=SUBST, only="thorough", t=600),
    R("formula", "real", "relations with if-then-else, symbolic constants", {"what": 1, "slice": 3, "sc": 0}, asserts=SUBST, only="thorough", t=600),
])
DL = ["the strengthened formula implies the formula", "the formula implies the weakened formula"]
DX = DL + ["strengthening moves every bound by delta", "weakening moves every bound by delta"]
check("C09", ["DeltaStrengthen, DeltaWeaken", "DeltaStrengthenVisitor", "Formula*::Evaluate"],
      [REAL, DEF, CONST, "0 < delta < 1e6, symbolic.", "if-then-else conditions are not perturbed; the exact-bound assertion is made for relations without if-then-else."], [
    R("formula", "real", "one relation over x, y and expressions of depth <= 1", {"what": 2, "slice": 0, "c": 0, "both": 1}, asserts=DX),
    R("formula", "real", "a relation with a symbolic constant and a literal under a connective", {"what": 2, "slice": 5, "c": 1}, asserts=DX),
    R("formula", "real", "if-then-else on one side of a relation", {"what": 2, "slice": 6}, asserts=DL),
    R("formula", "real", "relations with if-then-else and symbolic constants", {"what": 2, "slice": 3}, asserts=DL),
    R("formula", "real", "connectives over Booleans", {"what": 2, "slice": 2, "depth": 1}, asserts=DL),
    R("formula", "real", "three literals under two connectives", {"what": 2, "slice": 4}, asserts=DX, q=20, t=900),
    R("formula", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 2, "slice": 7}, asserts=DX, q=30, t=900),
    R("formula", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 2, "slice": 8}, asserts=DX, q=15, t=900),
    R("formula", "real", "a relation and a literal, all connectives, symbolic constants", {"what": 2, "slice": 1}, asserts=DX, only="thorough", t=900),
    R("formula", "real", "connectives over Booleans, depth 2", {"what": 2, "slice": 2}, asserts=DL, only="thorough", t=300),
])
SY = ["clause recognition", "CNF recognition", "a CNF is the conjunction of its clauses"]
check("C10", ["is_atomic, is_clause, is_cnf, get_clauses, IsDifferentiable", "the Formula constructors"],
      [REAL, CONST], [
    R("formula", "real", "one relation over x, y", {"what": 3, "slice": 0, "c": 0}, asserts=SY),
    R("formula", "real", "a relation and a literal under a connective", {"what": 3, "slice": 5}, asserts=SY),
    R("formula", "real", "if-then-else on one side of a relation", {"what": 3, "slice": 6}, asserts=SY),
    R("formula", "real", "three literals under two connectives", {"what": 3, "slice": 4}, asserts=SY),
    R("formula", "real", "all formulas of depth 2 over two Boolean variables and truth constants", {"what": 3, "slice": 2}, asserts=SY),
    R("formula", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 3, "slice": 7}, asserts=SY),
    R("formula", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 3, "slice": 8}, asserts=SY),
    R("formula", "real", "a part of 7 kinds (smooth, if-then-else, abs, min, max, uninterpreted) in 23 positions, plain or nested, on either side of a relation under 4 connectives: differentiability", {"what": 7},
      asserts=["an expression reported differentiable can be differentiated", "every part of a formula reported differentiable can be differentiated"]),
    R("formula", "real", "a relation and a literal, all connectives, symbolic constants", {"what": 3, "slice": 1}, asserts=SY, only="thorough", t=600),
])
NA_ = ["conjunction of a list", "disjunction of a set", "a formula that shared its parts is not changed", "operands are not changed"]
check("C11", ["Formula operator&& and || including the forms that consume an operand", "make_conjunction, make_disjunction", "FormulaNAry", "reference counting of FormulaCell"],
      [REAL, DEF], [
    R("formula", "real", "pairs of atoms and their conjunction, disjunction, negation as operands; shared 0, 1, 2 times; named, expiring, aliased", {"what": 4, "slice": 9},
      asserts=NA_ + ["the result has the value of the operation", "a named operand is not changed", "a formula that shared its parts keeps its structure"]),
    R("formula", "real", "the same over pairs of formulas of depth <= 1 over Booleans and truth constants", {"what": 4, "slice": 2, "depth": 1}, asserts=NA_, q=30, t=900),
    R("formula", "real", "the same over pairs of relations with if-then-else", {"what": 4, "slice": 6}, asserts=NA_, q=20, t=900),
    R("formula", "real", "pairs of (relation and literal under a connective)", {"what": 4, "slice": 5}, asserts=NA_, only="thorough", t=900),
])
check("C12", ["Expression operator+= -= *= /= ++ -- unary minus, including the forms that consume an operand", "ExpressionAddFactory, ExpressionMulFactory", "reference counting of ExpressionCell", "assignment"],
      [REAL, DEF], [
    R("values", "real", "13 x 13 operand shapes under + - * /: compound assignment, expiring operands, aliased operands, operand inside its target, increments, shared or sole owner", {"c": 0},
      asserts=["the result has the value of the operation", "an expression that shared its parts keeps its value", "an expression that shared its parts keeps its structure", "all memory is released"]),
    R("values", "real", "the same with symbolic constants", {"c": 1}, asserts=["the result has the value of the operation", "all memory is released"], only="thorough", t=900),
])
check("C13", ["Expression::GetVariables, is_polynomial, include_ite", "Formula::GetFreeVariables, include_ite", "the cell constructors that compute them", "ExpressionVar::Evaluate"],
      [REAL, DEF, CONST], [
    R("meta", "real", "every operator over x, y and symbolic constants", {"what": 0}, reach=["built"], asserts=["polynomial flag", "if-then-else flag", "variables of an expression are those that occur in it", "a missing variable is reported"]),
    R("meta", "real", "relations, connectives and quantifiers with if-then-else", {"what": 1}, reach=["built"], asserts=["free variables of a formula are those that occur free in it", "if-then-else flag"]),
    R("meta", "real", "two nested operators over x, y and a fixed constant", {"what": 0, "depth": 2, "c": 0}, reach=["built"], asserts=["polynomial flag"], q=25, t=600),
])
check("C14", ["Environment", "Variables", "intersect, operator+ and - of Variables", "Variable::Less, equal_to, get_hash"],
      ["Four variables of which two have the same name; two environment keys."], [
    R("meta", "real", "all pairs of sets over four variables", {"what": 2}, reach=["built"], asserts=["union, difference, intersection", "updates in place", "equality", "subset and superset", "sets are totally ordered"]),
    R("meta", "fp", "environments with any double values, bit-exact", {"what": 3}, reach=["built"], asserts=["NaN is refused, anything else is accepted", "insertion stores the value", "insert does not overwrite", "the dummy variable is refused"]),
])
NF = ["the normal form has the same truth value"]
QB = "Quantifiers range over a Boolean variable, so that the oracle can expand them."
check("C15", ["Nnfizer::Convert"], [REAL, DEF, QB], [
    R("cnf", "real", "all formulas of depth 2 over two Boolean variables and truth constants", {"what": 0, "slice": 2}, asserts=NF + ["negation is only applied to atoms", "negated quantified formula"]),
    R("cnf", "real", "three literals over relations and a Boolean under two connectives", {"what": 0, "slice": 4}, asserts=NF + ["negation is only applied to atoms"], q=40, t=300),
    R("cnf", "real", "a relation and a literal under a connective, symbolic constant", {"what": 0, "slice": 5, "c": 1}, asserts=NF),
    R("cnf", "real", "if-then-else on one side of a relation", {"what": 0, "slice": 6}, asserts=NF),
    R("cnf", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 0, "slice": 7}, asserts=NF),
    R("cnf", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 0, "slice": 8}, asserts=NF),
])
check("C16", ["NaiveCnfizer::Convert", "Nnfizer::Convert"], [REAL, DEF, QB], [
    R("cnf", "real", "all formulas of depth 2 over two Boolean variables and truth constants", {"what": 1, "slice": 2}, asserts=NF + ["the result is a conjunction of clauses", "quantified formula keeps its truth value"]),
    R("cnf", "real", "three literals over relations and a Boolean under two connectives", {"what": 1, "slice": 4}, asserts=NF + ["the result is a conjunction of clauses"]),
    R("cnf", "real", "a relation and a literal under a connective, symbolic constant", {"what": 1, "slice": 5, "c": 1}, asserts=NF),
    R("cnf", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 1, "slice": 7}, asserts=NF),
    R("cnf", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 1, "slice": 8}, asserts=NF),
])
TS = ["every element of the result is a clause", "the clauses imply the formula", "the clauses hold when the new variables have their defined values"]
check("C17", ["TseitinCnfizer::Convert, map", "Cnfize*", "NaiveCnfizer::Convert"], [REAL, DEF, QB, "The input is in negation normal form up to what the formula constructors give; a fresh or reused converter."], [
    R("cnf", "real", "all formulas of depth 2 over two Boolean variables and truth constants", {"what": 2, "slice": 2}, asserts=TS),
    R("cnf", "real", "three literals over relations and a Boolean under two connectives", {"what": 2, "slice": 4}, asserts=TS),
    R("cnf", "real", "a relation and a literal under a connective, symbolic constant", {"what": 2, "slice": 5, "c": 1}, asserts=TS),
    R("cnf", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 2, "slice": 7}, asserts=TS),
    R("cnf", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 2, "slice": 8}, asserts=TS),
    R("cnf", "real", "a quantified relation and literal, alone, in a disjunction, negated", {"what": 2, "slice": 5, "forall": 1}, asserts=TS),
    R("cnf", "real", "three literals under two connectives below a quantifier", {"what": 2, "slice": 4, "forall": 1}, asserts=TS, q=45, t=300),
    R("cnf", "real", "formulas of depth 2 over Boolean variables below a quantifier", {"what": 2, "slice": 2, "forall": 1}, asserts=TS, only="thorough", t=300),
])
check("C18", ["IfThenElseEliminator::Process, variables"], [REAL, DEF, QB, "At most four if-then-else terms."], [
    R("cnf", "real", "one or two if-then-else terms, nested in each other's condition and branches or on both sides of a relation, or repeated under different guards, in positive and negative contexts", {"what": 3}, q=70,
      asserts=["no if-then-else is left", "the result implies the formula", "some values of the new variables satisfy the result exactly when the formula holds"]),
    R("cnf", "real", "the same below a quantifier", {"what": 5}, q=40, asserts=["no if-then-else is left", "the body over all values of the new variables is the formula"]),
])
PB = ["the abstraction has the truth value of the formula", "the abstraction is Boolean", "converting again gives the same abstraction"]
check("C19", ["PredicateAbstractor::Convert, operator[]", "Formula::get_hash, EqualTo"], [REAL, DEF, QB], [
    R("cnf", "real", "a relation and a literal under a connective", {"what": 4, "slice": 5}, asserts=PB + ["predicates and variables correspond one to one"]),
    R("cnf", "real", "if-then-else on one side of a relation", {"what": 4, "slice": 6}, asserts=PB),
    R("cnf", "real", "connectives over Booleans and truth constants", {"what": 4, "slice": 2, "depth": 1}, asserts=PB),
    R("cnf", "real", "two relations over the same expressions, every pair of relational operators, under every connective", {"what": 4, "slice": 7}, asserts=PB, q=25, t=300),
    R("cnf", "real", "conjunctions and disjunctions of three or four literals in several associations", {"what": 4, "slice": 8}, asserts=PB, q=20, t=300),
    R("cnf", "real", "a quantified relation and literal", {"what": 4, "slice": 5, "forall": 1}, asserts=PB),
    R("cnf", "real", "three literals over relations and a Boolean under two connectives", {"what": 4, "slice": 4}, asserts=PB, q=30, t=600),
    R("cnf", "real", "formulas of depth 2 over Boolean variables", {"what": 4, "slice": 2}, asserts=PB, only="thorough", t=600),
])

PT = ["printing leaves the stream as it was"]
PE = PT + ["the text denotes the expression"]
PF = PT + ["the text denotes the formula"]
PP = ["the printer and the helper agree"]
POOL = "Constants are drawn from nine doubles that need between 1 and 17 digits (a text cannot be symbolic); the value of the text is compared for every valuation of the variables."
check("C20", ["operator<< of Expression and Formula", "Expression*::Display, DisplayTerm", "Formula*::Display", "ToPrefix, PrefixPrinter"], [REAL, DEF, POOL, "Oracle: a parser of the harness's own for each notation."], [
    r for pre, nm in ((0, "infix"), (1, "SMT-LIB")) for r in (
    R("printing", "real", nm + ": sums of two terms with coefficients and a constant", {"what": 0, "prefix": pre, "slice": 0}, asserts=PE + PP * pre, q=12, t=120),
    R("printing", "real", nm + ": products of powers with a constant", {"what": 0, "prefix": pre, "slice": 1}, asserts=PE, q=10, t=120),
    R("printing", "real", nm + ": every operator inside a sum, a quotient, a power", {"what": 0, "prefix": pre, "slice": 2}, asserts=PE, q=12, t=120),
    R("printing", "real", nm + ": sums and products of three to four terms", {"what": 0, "prefix": pre, "slice": 3, "c": 0}, asserts=PE, q=12, t=120),
    R("printing", "real", nm + ": if-then-else inside every operator", {"what": 0, "prefix": pre, "slice": 4}, asserts=PE, q=10, t=120),
    R("printing", "real", nm + ": formulas: one relation", {"what": 1, "prefix": pre, "slice": 0, "c": 0}, asserts=PF, q=10, t=120),
    R("printing", "real", nm + ": formulas of depth 2 over Booleans and truth constants", {"what": 1, "prefix": pre, "slice": 2}, asserts=PF, q=6, t=300),
    R("printing", "real", nm + ": formulas: two relations under every connective", {"what": 1, "prefix": pre, "slice": 7}, asserts=PF, q=10, t=120),
    R("printing", "real", nm + ": formulas: three or four literals in several associations", {"what": 1, "prefix": pre, "slice": 8}, asserts=PF, q=10, t=120),
    R("printing", "real", nm + ": formulas: three literals under two connectives", {"what": 1, "prefix": pre, "slice": 4}, asserts=PF, only="thorough", t=300),
    )])

SI = "IBEX is not installed: its interval type is a stand-in (stubs/ibex.h) whose bounds behave as IBEX's; interval functions return any sound enclosure."
check("C21", ["Box::Box, Add, operator[], index, variable, has_variable, set_empty, bisect, bisect_int, bisect_continuous, InplaceUnion, operator=="],
      [SI, "At most three variables; integer bounds from 7 values up to +-2147483647, continuous bounds any double."], [
    R("box", "real", "one or two variables of every type added, the box copied, then variables added to or domains set in the original, the copy, a copy of the copy", {"what": 0, "ints": 2}, reach=["built"],
      asserts=["size", "variables and indices correspond", "every variable has its own domain", "membership", "emptying a copy"], q=60, t=600),
    R("box", "real", "three variables, a dimension of every type bisected, by index or variable", {"what": 1, "ints": 1}, reach=["bisected", "refused"],
      asserts=["every point of the box is in a half", "every integer of the box is in a half", "halves of an integer domain are disjoint", "the other dimensions do not change", "both halves are smaller", "only a bisectable dimension is bisected"]),
    R("box", "fp", "a continuous dimension bisected, bit-exact", {"what": 1, "dims": 1}, reach=["bisected"], asserts=["every point of the box is in a half", "both halves are smaller"], q=40, t=300),
    R("box", "real", "union and comparison of two boxes, empty or not", {"what": 2, "ints": 2}, reach=["united"], asserts=["the union is the smallest box around both", "equality of boxes", "union of empty boxes"], q=40, t=600),
])
check("C22", ["FindMaxDiam", "BranchLargestFirst", "Box::MaxDiam", "Box::bisect"], [SI, "Three variables; integer bounds from 7 values up to +-2147483647."], [
    R("box", "real", "the widest dimension of three", {"what": 3, "ints": 1}, reach=["chosen"], asserts=["no wider dimension is passed over", "the chosen dimension is a candidate of that width", "a dimension is chosen when one can be bisected"]),
    R("box", "real", "every non-empty set of active dimensions, then branching", {"what": 3, "ints": 1, "branch": 1}, reach=["chosen"],
      asserts=["no wider dimension is passed over", "branching takes the widest dimension", "every point of the box is in a half", "every integer of the box is in a half"], q=40, t=300),
])
check("C23", ["FilterAssertion", "RelationalFormulaVisitor of filter_assertion.cc", "UpdateBounds*"], [SI, "Finite constants other than the largest double; integer variables with any bounds."], [
    R("filter", "fp", "x op c and c op x, negated or not, all six relations, continuous, integer and binary x, c a double or an interval constant, bit-exact", {"what": 0}, reach=["filtered"],
      asserts=["no point that satisfies the assertion is lost", "the box implies a filtered assertion", "bounds only tighten", "the other domains do not change", "filtered without change"], q=75, t=900),
    R("filter", "fp", "other assertions: relations of two variables or compound terms, connectives, quantifiers", {"what": 1}, reach=["filtered"], asserts=["an assertion that is not a bound is left alone"]),
])
EE = ["the enclosure contains the value", "the enclosure of a defined value is not empty", "evaluation leaves the box alone"]
PTS = "Domains with one to three shapes per variable (bounds symbolic or infinite or a point); interval functions of IBEX return any sound enclosure."
check("C24", ["ExpressionEvaluator", "RelationalFormulaEvaluator", "make_relational_formula_evaluator", "FormulaEvaluator", "IbexConverter"], [REAL, DEF, SI, PTS], [
    R("enclose", "real", "every operator applied to x, y and symbolic constants", {"what": 0, "slice": 0, "domains": 2}, asserts=EE, q=25, t=300),
    R("enclose", "real", "op(op(v,v),op(v,v)) for + - * / pow over x, y", {"what": 0, "slice": 2, "c": 0, "domains": 2}, asserts=EE, q=10, t=120),
    R("enclose", "real", "two nested operators of + - * / pow abs sqrt exp log sin min", {"what": 0, "slice": 3, "c": 0, "domains": 1}, asserts=EE, q=12, t=300),
    R("enclose", "real", "powers and sums with constants", {"what": 0, "slice": 5, "c": 0, "domains": 1}, asserts=EE, q=10, t=300),
    R("enclose", "real", "relations, negated or not, over a box: the verdict VALID or UNSAT", {"what": 1, "domains": 2}, q=25, t=300,
      asserts=["VALID holds at every point of the box", "UNSAT holds at no point of the box", "disequalities are recognised", "bounds are recognised", "the evaluator keeps its formula"]),
])
CE = ["the converted tree has the value of the expression", "an equation is converted", "the converted tree is defined where the expression is"]
check("C25", ["IbexConverter::Convert, Visit*"], [REAL, DEF, SI, "Oracle: an evaluator of IBEX's expression trees in the stand-in."], [
    R("enclose", "real", "every operator applied to x, y and symbolic constants", {"what": 2, "slice": 0}, asserts=CE, q=20, t=200),
    R("enclose", "real", "op(op(v,v),op(v,v)) for + - * / pow over x, y", {"what": 2, "slice": 2, "c": 0, "domains": 1}, asserts=CE),
    R("enclose", "real", "powers and sums with constants", {"what": 2, "slice": 5, "c": 0, "domains": 1}, asserts=CE, q=20, t=300),
    R("enclose", "real", "products of powers up to 4", {"what": 2, "slice": 7, "domains": 1, "maxpow": 4}, asserts=CE),
    R("enclose", "real", "every relation, negated or not", {"what": 3}, asserts=["the converted constraint holds exactly where the formula does", "only disequalities are left out"]),
])
CT = ["no point that satisfies the constraints is lost", "the box only shrinks", "a changed dimension is reported", "the explanation of an emptied box excludes every point"]
check("C26", ["ContractorIbexFwdbwd::Prune", "ContractorIbexPolytope::Prune", "ContractorSeq, ContractorJoin, ContractorFixpoint, ContractorWorklistFixpoint, ContractorInteger, ContractorId", "make_contractor_*",
              "GenericContractorGenerator", "ContractorStatus::AddUsedConstraint, InplaceJoin, Explanation"],
      [REAL, DEF, SI, "An IBEX contractor is any sound contraction: it moves one bound of a dimension of the constraint to any value that loses no solution, at most the stated number of times."], [
    R("contract", "real", "contractors of up to four constraints, forward-backward and polytope, two contractions", {"kinds": 1, "leaves": 4, "polytope": 1, "formulas": 4, "contractions": 2}, reach=["pruned", "emptied"], asserts=CT, q=35, t=300),
    R("contract", "real", "sequence, join, fixpoint and worklist of contractors for three formulas, two contractions", {"kinds": 5, "formulas": 3, "leaves": 2, "contractions": 2}, reach=["pruned", "emptied"], asserts=CT, q=40, t=300),
    R("contract", "real", "explanations over chains of two or three variables in every order, emptied at any constraint, in one status or two joined", {"what": 1, "length": 2}, reach=["explained"], asserts=CT[-1:], q=30, t=200),
    R("contract", "real", "explanations over chains of up to four variables", {"what": 1}, reach=["explained"], asserts=CT[-1:], only="thorough", t=600),
    R("contract", "real", "compositions of four contractors for two formulas, three contractions", {"kinds": 5, "formulas": 2, "leaves": 2, "contractions": 3, "branches": 4}, reach=["pruned"], asserts=CT, only="thorough", t=600),
])
PICO = "PicoSAT is a stand-in that decides the clauses over all assignments; which satisfying (partial) assignment it returns, and which literals it leaves undecided, is arbitrary."
IBEXA = "An IBEX contraction is any sound one, at most the stated number of times; otherwise it leaves the box alone. NLopt is not used (no quantifiers)."
SA = ["no assignment satisfies assertions found unsatisfiable", "the Boolean model speaks once of each Boolean variable", "the theory model speaks once of each relation", "the theory model is consistent",
      "every assignment that agrees with the model satisfies the assertions"]
check("C27", ["SatSolver::AddFormula, AddClause, AddLearnedClause, CheckSat, Push, Pop, MakeSatVar, UpdateLookup", "TseitinCnfizer", "PredicateAbstractor"], [REAL, DEF, PICO,
      "Oracle: the meaning of the asserted formulas and learned clauses under every assignment to the Boolean variables and relations."], [
    R("sat", "real", "scripts of scopes: a literal asserted in a scope, popped and another or the same asserted again, with a check or not in between", {"scripts": 3, "shapes": 1}, reach=["checked"], asserts=SA, q=25, t=200),
    R("sat", "real", "the same with disjunctions and conjunctions, and a longer script", {"scripts": 4, "shapes": 2}, reach=["checked"], asserts=SA, only="thorough", t=400),
    R("sat", "real", "three steps of add, push, pop, check and learn over Boolean variables and relations", {"steps": 3}, reach=["checked"], asserts=SA, q=45, t=400),
    R("sat", "real", "four steps, at most two assertions of three shapes", {"steps": 4, "adds": 2, "shapes": 3}, reach=["checked", "learned"], asserts=SA, q=25, t=400),
])
DS = ["no point satisfies assertions answered unsatisfiable", "no model after an unsatisfiable answer", "a delta-satisfiable answer has a model", "the model is kept",
      "every interval of the model is at most delta wide", "every point of the model satisfies the delta-weakened assertions"]
DM = ["the model has the declared variables and no other", "the model lies in the declared domains"]
SOLVEF = ["Context::Impl (Assert, CheckSat, CheckSatCore, Push, Pop, ExtractModel)", "TheorySolver", "IcpSeq", "SatSolver", "FilterAssertion", "Contractors", "FormulaEvaluator", "IfThenElseEliminator"]
ORD = "Oracle: real arithmetic on the asserted formulas at a symbolic point; the delta-weakening of IcpSeq's stopping condition, per relation."
TH = ["no point of the box satisfies refuted literals", "the explanation is a subset of the literals", "no point of the box satisfies the explanation of a refutation"]
check("C28", SOLVEF, [REAL, DEF, SI, PICO, IBEXA, ORD], [
    R("theory", "real", "the theory solver: three literals of nine in any order, no contraction: refutations and their explanations", {"exact": 1, "contractions": 0, "literals": 3}, reach=["checked", "refuted"], asserts=TH, q=25, t=200),
    R("theory", "real", "the theory solver: two literals of nine in any order, one contraction", {"exact": 1, "contractions": 1, "literals": 2}, reach=["checked", "refuted"], asserts=TH, q=15, t=200),
    R("solve", "real", "two assertions of one relation each, one contraction, exact interval arithmetic", {"steps": 2, "exact": 1, "contractions": 1, "kinds": 1, "shapes": 1}, reach=["checked", "delta-sat"], asserts=DS + DM, q=15, t=300),
    R("solve", "real", "three assertions with and, or, not, no contraction", {"steps": 3, "exact": 1, "contractions": 0, "kinds": 1, "shapes": 3, "ns": 1}, reach=["checked", "delta-sat"], asserts=DS, q=25, t=300),
    R("solve", "real", "four steps of assert, push, pop, check", {"steps": 4, "exact": 1, "contractions": 1, "kinds": 5, "shapes": 1, "ns": 1, "atoms": 2, "checks": 1}, reach=["checked", "delta-sat"], asserts=DS, q=20, t=300),
    R("solve", "real", "if-then-else expressions", {"steps": 2, "exact": 1, "contractions": 0, "kinds": 1, "shapes": 4, "ns": 1, "atoms": 2, "hull": 8}, reach=["checked"], asserts=DS, q=15, t=60),
    R("solve", "real", "worklist fixpoints", {"steps": 2, "exact": 1, "contractions": 1, "kinds": 1, "shapes": 1, "worklist": 1}, reach=["checked"], asserts=DS, only="thorough", t=300),
    R("solve", "real", "polytope contractors", {"steps": 2, "exact": 1, "contractions": 1, "kinds": 1, "shapes": 1, "polytope": 1}, reach=["checked"], asserts=DS, only="thorough", t=300),
])
check("C29", SOLVEF, [REAL, DEF, SI, PICO, IBEXA, ORD], [
    R("solve", "real", "a variable declared in a scope, popped and declared again with another domain", {"script": 1, "exact": 1, "contractions": 1, "shapes": 1, "ns": 1}, reach=["checked"], asserts=DS + DM, q=15, t=200),
    R("solve", "real", "variables declared between checks", {"script": 2, "exact": 1, "contractions": 1, "shapes": 1, "ns": 1}, reach=["checked"], asserts=DS + DM, q=15, t=200),
    R("solve", "real", "a declaration popped after an assertion that introduced a variable", {"script": 3, "exact": 1, "contractions": 0, "ns": 1, "hull": 8}, reach=["checked"], asserts=DS + DM, q=15, t=60),
    R("context", "real", "integer variables and bounds on them", {"what": 0}, reach=["checked", "delta-sat"], q=25, t=300,
      asserts=["no integer satisfies bounds answered unsatisfiable", "the model of an integer is an integer", "the model lies in the declared domains", "the model satisfies the bounds"]),
    R("context", "real", "real variables and bounds on them, model variables", {"what": 1}, reach=["checked"], q=15, t=60,
      asserts=["no point satisfies bounds answered unsatisfiable", "the model has the model variables only", "the model lies in the declared domains", "every interval of the model is at most delta wide"]),
])
MI = ["no feasible point is better than a minimal one", "a point that no feasible point betters is minimal", "minimisation adds one assertion", "there is a variable for every objective", "the new variables are the objectives",
      "the quantified variables are copies of variables"]
check("C30", ["Context::Impl::Minimize", "Context::Minimize, Maximize", "FormulaSubstitution"], [REAL, DEF, SI, "The assertion that minimisation adds is taken apart and judged at symbolic points; how a quantified assertion is then solved is not part of this check.",
      "Constraints without Boolean variables: minimisation with one that shares a variable with the objective is not supported by the contractors."], [
    R("context", "real", "up to two constraints, one or two objectives", {"what": 2}, reach=["minimised"], asserts=MI, q=40, t=120),
    R("context", "real", "up to three constraints", {"what": 2, "constraints": 3}, reach=["minimised"], asserts=MI, only="thorough", t=400),
])
PA = ["a well-formed script is accepted", "variables have their declared sorts", "the assertions mean what the script says", "options are set"]
PF = ["Smt2Scanner", "Smt2Parser (every term and most commands)", "Smt2Driver", "FunctionDefinition", "Term", "StringToInterval", "Context::Assert, DeclareVariable, SetDomain, Push, Pop", "IfThenElseEliminator", "FilterAssertion"]
check("C31", PF, [REAL, DEF, SI, "Oracle: an evaluator of the script's own terms, written from the SMT-LIB standard; script texts are enumerated by the symbolic choices, the point is symbolic.",
      "A point within one floating-point number of a strict bound is left out. Quantified assertions are compared by their bodies at a symbolic value of the quantified variables."], [
    R("parse", "real", "relations over + - * / of two to three operands", {"slice": 0}, reach=["parsed"], asserts=PA, q=10, t=200),
    R("parse", "real", "relations over every function symbol and if-then-else", {"slice": 1}, reach=["parsed"], asserts=PA, q=10, t=200),
    R("parse", "real", "every connective over relations and Boolean variables, one or two assertions", {"slice": 2}, reach=["parsed"], asserts=PA, q=10, t=200),
    R("parse", "real", "nested let with one or two bindings", {"slice": 3}, reach=["parsed"], asserts=PA, q=10, t=200),
    R("parse", "real", "twelve forms of numerals", {"slice": 4, "one": 1}, reach=["parsed"], asserts=PA, q=8, t=100),
    R("parse", "real", "define-fun with zero and two parameters, real and Boolean, nested calls", {"slice": 5}, reach=["parsed"], asserts=PA, q=10, t=200),
    R("parse", "real", "let in a function definition", {"slice": 5, "let": 1}, reach=["parsed"], asserts=PA, q=8, t=200),
    R("parse", "real", "forall with domains, shadowing and several variables", {"slice": 7}, reach=["parsed"], asserts=PA + ["no Boolean variable is quantified", "the assertions speak of declared variables only"], q=10, t=200),
    R("parse", "real", "let below forall", {"slice": 7, "let": 1}, reach=["parsed"], asserts=PA, q=8, t=200),
    R("parse", "real", "push and pop around assertions", {"slice": 8}, reach=["parsed"], asserts=PA, q=6, t=100),
    R("parse", "real", "terms of depth two", {"slice": 0, "depth": 2, "one": 1}, reach=["parsed"], asserts=PA, only="thorough", t=200),
    R("parse", "real", "connectives of depth two", {"slice": 2, "depth": 2}, reach=["parsed"], asserts=PA, only="thorough", t=200),
])
check("C32", ["ScopedUnorderedMap", "ScopedUnorderedSet", "ScopedVector", "OptionValue", "Config", "convert_int64_to_int, convert_int64_to_double, is_integer"], ["Oracle: snapshots of the contents at every push; values are symbolic, keys and operations are enumerated by symbolic choices."], [
    R("scopes", "fp", "five operations on three keys, any values", {"what": 0, "steps": 5}, reach=["popped"], q=20, t=120,
      asserts=["the map is what was inserted in the open scopes", "the set is what was inserted in the open scopes", "the vector is what was appended in the open scopes", "pop tells how many elements it removed", "there is nothing to pop outside every scope"]),
    R("scopes", "fp", "seven operations", {"what": 0, "steps": 7}, reach=["popped"], q=15, t=300),
    R("scopes", "fp", "vectors of up to three elements", {"what": 1}, reach=["compared"], asserts=["vectors are ordered lexicographically", "the order is asymmetric"], q=10),
    R("scopes", "fp", "three settings of an option from any sources", {"what": 2, "steps": 3}, reach=["set"], q=15, t=120,
      asserts=["an option has the last value of its strongest source", "the precision is that of its strongest source", "a flag is that of its strongest source"]),
    R("scopes", "fp", "every 64-bit integer and double", {"what": 3}, reach=["converted"], q=20, t=120,
      asserts=["a conversion to int fails exactly when the value does not fit", "a conversion keeps the value", "a conversion to double fails exactly beyond the exactly representable range", "what is called an integer is one, within int", "what is not called an integer is not one, or beyond int"]),
])
