"""writes MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the package's Python code, assertions decided by SMT (z3, cvc5)"
NOTES = {
    "C01": ("+ induction over steps from an arbitrary state", "Exact over the reals for all parameters and forcings; runs of any length by induction over one step from an arbitrary state and position, plus full runs within the stated lengths."),
    "C02": ("+ induction over steps", "Per-step budget from an arbitrary state, whole runs within the stated lengths."),
    "C03": ("+ exp axioms, induction over steps", "exp is uninterpreted with axioms; results hold for any function satisfying them."),
    "C04": ("+ unit algebra through pint", "Parameters in default and other units; harder nonlinear queries are best effort and reported if undecided."),
    "C05": ("+ polynomial normal forms", "All positive parameters, exact over the reals (square root handled algebraically)."),
    "C06": ("+ polynomial normal forms", "All positive parameters, exact over the reals."),
    "C07": ("", "All non-zero values of a and every unit scale."),
    "C08": ("", "Runs within the stated lengths, all parameters and forcings; one arbitrary step for the induction."),
    "C09": ("+ induction over steps", "One arbitrary step from rest or equilibrium, and short runs."),
    "C10": ("+ induction over steps", "Linearity of one step from arbitrary states and of short runs."),
    "C11": ("+ symbolic unit scales", "Units include freshly defined ones worth any positive amount of the default."),
    "C12": ("", "Each setter and entry with every kind of invalid value, then equality with an untouched model."),
    "C13": ("over operation histories", "Histories within the stated lengths over a fixed set of operations, all values symbolic."),
    "C14": ("", "Runs within the stated lengths."),
    "C15": ("through pandas and scmdata", "2 or 3 scenarios on the stated time axes, all forcing and parameter values."),
    "C16": ("through pandas and scmdata", "The stated further variables and regions, all values symbolic; names are enumerated, not symbolic."),
    "C17": ("with symbolic dates", "Dates symbolic to the hour for up to 3 (4) points, and chosen longer axes."),
    "C18": ("through pandas and scmdata", "The stated metadata, units and time axes; all values symbolic."),
    "C19": ("over all patterns of missing values", "All patterns within the stated lengths, all values symbolic."),
    "C20": ("", "All values; units enumerated plus symbolic scales."),
    "C21": ("+ induction over steps", "Invariant and monotonicity of one step from an arbitrary state, and short runs."),
    "C22": ("", "All values; setters in any order within the stated length."),
    "C23": ("", "The stated operations and kinds of input; values symbolic."),
    "C24": ("over interleavings", "Two instances, operations interleaved at every position of a run of 3 points."),
    "C25": ("", "Delays and start dates are enumerated; all values symbolic."),
    "C26": ("+ induction over steps", "One step from an arbitrary state, and short runs, all other parameters."),
    "C27": ("+ symbolic unit scales", "Every parameter by keyword, position and assignment; all values symbolic."),
    "C28": ("+ polynomial normal forms", "One step from every pair of corresponding states (exact over the reals), and short runs from rest."),
    "C29": ("over histories", "Copies at the stated moments, one operation on either; all values symbolic."),
    "C30": ("through pandas and scmdata", "The forms and ways to call are enumerated; values symbolic except in files and long data frames, where only the parameters are."),
    "C31": ("over symbolic integers", "Any whole number for one or all parameters and the forcing; chosen values at the ends of numpy's integer types."),
    "C32": ("over crash points", "Crash points are lines of the package outside setters (quick: every 3rd to 5th); values symbolic."),
    "C33": ("over histories", "The ways to look are enumerated; every moment of a run of 3 points; values symbolic."),
}
TRUST = (" Trusts: reals for doubles, the stubs listed in the evidence, z3/cvc5; every counterexample "
         "is replayed on the unpatched code before it is reported.")


def main():
    py = "/opt/venv/bin/python check.py"
    checks = []
    for k in sorted(NOTES):
        extra, note = NOTES[k]
        checks.append({
            "property": k,
            "quick_cmd": "%s %s --tier quick" % (py, k),
            "thorough_cmd": "%s %s --tier thorough" % (py, k),
            "evidence_file": "evidence/%s.json" % k,
            "technique": (TECH + " " + extra).strip(),
            "level": "model_checking",
            "level_note": note + TRUST,
        })
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python check.py --selftest",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo. Checks import /repo/src directly; nothing is built.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
