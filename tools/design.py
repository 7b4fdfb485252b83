"""Writes DESIGN.md: tools/design_head.md, one section per property from vp/props.py and vp/checks.py, tools/design_tail.md."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import props, checks

SPEC = {
 "C01": ("expressions are built by the real operators from an enumerated shape (symbolic choices) with symbolic constants; Evaluate on symbolic values is compared with the value of the shape as written", "the shape evaluated directly by the harness"),
 "C02": ("Substitute on a built expression, then Evaluate; compared with the original in the moved environment", "the original expression in the environment in which the variables have the values of the substituted terms"),
 "C03": ("Differentiate, then Evaluate at a symbolic point", "forward-mode derivative of the tree as written"),
 "C04": ("Expand, then Evaluate; expanding again changes nothing", "the value before expansion"),
 "C05": ("EvaluatePartial, then Evaluate with the rest", "the full evaluation"),
 "C06": ("pairs and triples of variables, expressions, formulas and constants through Less, EqualTo and hashing", "the axioms of a strict order; equality implies equal hashes for any mixing function"),
 "C07": ("formulas built by the real operators, Evaluate at a symbolic point", "truth of the formula as written"),
 "C08": ("Substitute on formulas, quantifiers included", "the original in the moved environment"),
 "C09": ("DeltaStrengthen and DeltaWeaken of every relation and connective, symbolic delta", "implications at a symbolic point, and the exact moved bound"),
 "C10": ("is_atomic, is_clause, is_cnf, get_clauses, IsDifferentiable on built formulas", "the syntactic definitions evaluated on the tree; Differentiate must not throw"),
 "C11": ("copies, moves, compound assignment and swaps of formulas and expressions sharing cells", "values of every alias before and after; allocation counting in the replay"),
 "C12": ("as C11 for in-place arithmetic on shared and unshared expressions", "the value of the out-of-place operation"),
 "C13": ("GetVariables, GetFreeVariables, is_polynomial, Evaluate without a value", "computed from the tree"),
 "C14": ("operations of Environment and Variables over histories", "a map and a bit-set model"),
 "C15": ("Nnfizer", "truth at a symbolic point and the shape of the result"),
 "C16": ("NaiveCnfizer", "truth at a symbolic point; every result is a clause"),
 "C17": ("TseitinCnfizer", "satisfiable extension exactly at the points of the formula; auxiliary variables are fresh"),
 "C18": ("IfThenElseEliminator", "the eliminated formula with the values of the auxiliary variables"),
 "C19": ("PredicateAbstractor over a history of conversions", "truth under the induced assignment, injectivity of the map"),
 "C20": ("operator<< and PrefixPrinter text, read back by a reader in the harness", "value of the text by infix precedence or SMT-LIB rules"),
 "C21": ("Box::Add, copies, bisect, InplaceUnion with symbolic bounds", "set meaning of the boxes at a symbolic point"),
 "C22": ("FindMaxDiam, BranchLargestFirst for every active set", "maximality over the listed dimensions"),
 "C23": ("FilterAssertion bit-exactly", "membership of a symbolic double before and after"),
 "C24": ("ExpressionEvaluator and RelationalFormulaEvaluator on symbolic boxes", "the value at a symbolic point of the box"),
 "C25": ("IbexConverter", "value of the expression tree handed over"),
 "C26": ("Prune of the real contractors and compositions around an arbitrary sound IBEX contraction", "a symbolic solution stays; explanations exclude a symbolic point"),
 "C27": ("SatSolver over histories", "the formulas under every assignment (the assignment is symbolic)"),
 "C28": ("Context::CheckSat over histories, the whole stack below it being real code except IBEX and PicoSAT", "a symbolic point and the delta-weakening of each relation"),
 "C29": ("declarations, domains, bounds, scopes, then CheckSat", "declared domains; the real or integer bounds"),
 "C30": ("the assertion added by Minimize/Maximize is evaluated at two symbolic points", "optimality at the symbolic point against the other"),
 "C31": ("script text is produced by symbolic choices and read by the real scanner and parser; the resulting box and assertions are evaluated at a symbolic point", "an evaluator of SMT-LIB terms in the harness"),
 "C32": ("histories over the scoped containers and options; conversions bit-exactly", "snapshots at push; source precedence"),
}


def main():
    out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", "",
           "Cost: each quick check takes 20-180 s on 8 cores, building its harness included. Bounds are per run; `[T]` runs in the thorough tier only (which also raises every time budget). "
           "A run that exhausts its time says so in a NOTE and in the evidence (paths not finished), and claims nothing about them.", ""]
    for p in props.P:
        i = p["id"]
        c = checks.CHECKS.get(i)
        if not c:
            continue
        spec, oracle = SPEC[i]
        out.append(f"### {i} {p['title']}")
        out.append(f"Executed: {spec}. Oracle: {oracle}.")
        out.append("Functions encoded: " + "; ".join(c["functions"]) + ".")
        out.append("Beyond tests: " + p["why_tests_cant"])
        out.append("Assumptions: " + " ".join(c["assumptions"]))
        out.append("Runs (harness, arithmetic, bounds):")
        for r in c["runs"]:
            out.append(f"- {r['h']}, {'exact reals' if r['mode'] == 'real' else 'IEEE-754'}: {r['bounds']}{' [T]' if r.get('thorough_only') else ''}")
        out.append("")
    out.append("## Not applicable")
    for n in props.NA:
        t = next(p["title"] for p in props.P if p["id"] == n["property"])
        out.append(f"- {n['property']} {t}: {n['reason']}")
    import glob, json
    missed = set(open(V + "/tools/missed.txt").read().split())
    rows = ["| planted bug | check | caught | needs |", "|---|---|---|---|"]
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        j = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        rows.append(f"| {i} | {j['property']} | {'no' if i in missed else 'yes'} | {j['needs']} |")
    out += ["", open(V + "/tools/design_tail.md").read().rstrip().replace("SEEDTABLE", "\n".join(rows)), ""]
    open(V + "/DESIGN.md", "w").write("\n".join(out))


main()
