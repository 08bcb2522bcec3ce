#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "P01": "sum/difference laws against direct numerical convolution of scipy reference laws",
 "P02": "product/quotient laws against direct numerical Mellin-type integrals of scipy reference laws",
 "P03": "min/max against products of reference cdfs and survival functions",
 "P04": "functions of one variable against the exact change-of-variables law",
 "P05": "constructors against scipy.stats laws, exact atoms, rejection of invalid parameters",
 "P06": "consistency relations between pdf, cdf, ccdf, quantile, interval, range and integrals",
 "P07": "summary statistics against quadrature and scipy reference functionals",
 "P08": "conditions and mixtures against restricted and averaged reference laws",
 "P09": "discrete arithmetic against exact enumeration with rationals",
 "P10": "piecewise algebra against pointwise evaluation of the operands",
 "P11": "interpolants against the interpolated function",
 "P12": "quadrature against closed-form integrals",
 "P13": "variable transforms: round trips, monotonicity, finite-difference derivative",
 "P14": "iid operations against laws of independent copies",
 "P15": "noncentral families against scipy and defining mixtures",
 "P16": "samples against the law (distribution-free bounds with negligible false-alarm probability)",
 "P17": "model-based histories: deep snapshots of every live object before and after each step",
 "P18": "parallel versus serial evaluation of the same expression",
 "P19": "copulas: validity, consistency of density, margins and conditionals",
 "P20": "joint distributions: marginals, conditionals, inference against quadrature",
 "P21": "symbolic bookkeeping against a reference expression tree",
 "P22": "sparse-grid interpolants against smooth functions, exactness at nodes and on low-degree polynomials",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "pbt", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 pbt/run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 pbt/run.py %s --tier thorough" % i,
                       "technique": "property-based testing (Hypothesis): " + NOTES[i],
                       "level": "exploration",
                       "level_note": "Random structured inputs, fixed by VERIF_SEED, judged by an independent oracle with stated tolerances; "
                                     "no violation on the explored cases, no claim of absence beyond them. Trusts numpy/scipy and the oracle in pbt/."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 pbt/run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check rebuilds the extension module when its source changed and imports the package from /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
