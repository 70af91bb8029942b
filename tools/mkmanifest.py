#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = "TLA+ specification; TLC validates traces recorded from the real %s against it"
P = "propagator (driven callback by callback by a stand-in solver)"
O = "application (its calls to libclingo recorded)"
S = "library running on the real clingo"
TRUST = (" Trusted: TLC, the recording harness (public C API only), clingo. Bounds: generated histories of at most a few"
         " dozen events, up to ~8 variables and ~20 constraints; nothing is claimed beyond the behaviours explored.")

CLAIMS = {
    "C01": (S, "Every model reported in the explored runs satisfies the constraints enforced by the spec's answer set."),
    "C02": (S, "The reported models of each explored program are exactly the specification's answer sets, with multiplicity."),
    "C03": (P, "Every clause added in the explored runs is implied by the constraints (infeasibility of its negation)."),
    "C04": (P, "After each callback without conflict the delivered literals are feasible in the specification."),
    "C05": (P, "Values after every callback equal the canonical values of the constraints in force, computed without history."),
    "C06": (P, "At every fixpoint the closure promised by the configured mode holds."),
    "C07": (P, "Mutex clauses of the explored initialisations are valid, bounded in size, and complete for sizes two and three."),
    "C08": (S, "Truth of constraints under every relation agrees with the specification in all explored programs."),
    "C09": (P + " and the " + S,
            "In all explored constraints between generated terms, exact evaluation (integers of any size, rationals) decides"
            " acceptance and the constraint meant."),
    "C10": (S, "Every solve call of the explored histories returns the answer sets of the accumulated program."),
    "C11": (S, "Runs of one history under different options return the same models as the specification and as each other."),
    "C12": (O, "The last model of every explored run has the optimum computed by the specification; the design terminates with the optimum."),
    "C13": (O, "Every bound added and reported in the explored runs is allowed by the specification of the algorithm."),
    "C14": (P, "No callback of one thread changes what another observes; runs with several real threads are exact."),
    "C15": (P + " and the application (options on its command line)",
            "Every value tried is accepted or rejected as the specification of options says, and the configuration it"
            " computes is the one observed (strength, order of edges, mutexes, decisions, components, numbers, shifting)."),
    "C16": (S, "Shifted programs have exactly the specification's answer sets."),
    "C17": (S, "All access paths to the assignment agree in every explored model."),
    "C18": (P, "Statistics equal the specification's counters and accumulate exactly in the explored runs."),
    "C19": (P, "Every decision of the explored runs is one the specification of the heuristic allows."),
    "C20": (P + " and the " + S, "C01-C06 hold for scaled real-valued constraints in the explored runs."),
    "C22": ("library's rewriting and of the application's program loading",
            "Every explored statement is rewritten to what the specification of rewriting says (up to order where order has no"
            " meaning), or rejected exactly if it says so; the input tree stays as it is and failing callbacks end the rewriting."),
    "C21": (P, "Values of a component are computed from that component alone in the specification and agree in all explored runs."),
    "C23": ("Python package (its extension module, theory class, and application) with the real clingo",
            "All runs through the package (with a stand-in for the clingo package, which is not installed here) show the answer sets,"
            " values, symbols, statistics, and accepted options that the specification allows."),
}

NA = {
}

TODO = {
}


def main():
    checks = []
    for pid, (what, note) in sorted(CLAIMS.items()):
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TRACE % what if not what.startswith("TLA+") else what,
            "level": "model_checking",
            "level_note": note + TRUST,
        })
    na = [{"property": p, "reason": r} for p, r in sorted({**NA, **TODO}.items())]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
