#!/usr/bin/env python3
"""Source of MANIFEST.json. Usage: python3 tools_manifest.py"""
import json, os
ORACLE = "Trusted: the exact rational/Sturm oracle in lib/poly.py, Jython, sympy and the z3 RCF Java library. "
T = {
 'C01': ("explicit enumeration of all bounded constraint conjunctions, executed on the real VTS procedure", "Exhaustive within the stated polynomial universes, constraint counts, orders and histories; nothing is claimed beyond the bound. " + ORACLE),
 'C02': ("explicit enumeration of all bounded constraint conjunctions, executed on the real TS procedure", "Exhaustive within the stated universes. " + ORACLE),
 'C03': ("explicit enumeration of (polynomial, root, goal) states on the real sign-determination code", "Exhaustive over all products of bounded factors. " + ORACLE),
 'C04': ("explicit enumeration of (polynomial, root, goal) states on the real right-of-root evaluation", "Exhaustive over all products of bounded factors. " + ORACLE),
 'C05': ("explicit enumeration of all polynomial pairs with bounded degree and coefficients on the real remainder/Cauchy-index/Tarski code", "Exhaustive over the stated coefficient boxes. " + ORACLE),
 'C06': ("explicit-state exploration of all request/restart/file-loss histories of the matrix cache on the real code", "All histories to the stated depth, every answer compared with an independently computed matrix."),
 'C07': ("exhaustive crash-point, torn-write, I/O-fault and interleaving exploration of the real cache code", "All crash points, all torn prefixes of every write, all single faults and all schedules at I/O granularity of two writers within the stated bounds, on a simulated file layer kept equal to the real one."),
 'C08': ("explicit enumeration of all bounded expression trees through the real conversion", "Exhaustive over the expression grammar to the stated depth. " + ORACLE),
 'C09': ("explicit enumeration of all bounded formula texts through the real parser", "Exhaustive over the grammar to the stated depth; oracle is an independent evaluator on a point grid with enough points to separate the polynomials."),
 'C10': ("explicit enumeration of all bounded sequents and stores on the real checker", "Exhaustive over the stated sequents, both procedures. " + ORACLE),
 'C11': ("explicit enumeration of all bounded inputs through the real example converter", "Exhaustive within the stated grammar."),
 'C12': ("explicit-state exploration of store/load/convert histories on the real example store", "All histories to the stated depth on a real directory."),
 'C13': ("explicit enumeration of all bounded systems x all parameter cells on the real Muchnik procedure", "Every returned formula is evaluated in every cell of the parameter line. " + ORACLE),
 'C14': ("explicit enumeration of all bounded systems x all parameter cells on the real complex Muchnik procedure", "Every returned formula is evaluated in every cell of the parameter line. " + ORACLE),
 'C15': ("explicit enumeration of all bounded systems x all parameter cells on the real Cohen-Hormander procedure", "Every returned formula is evaluated in every cell of the parameter line. " + ORACLE),
 'C16': ("explicit-state exploration of all operation histories of the caching algebra on the real code", "All histories to the stated depth; each answer compared with a fresh plain algebra."),
 'C17': ("explicit enumeration of all bounded polynomials and polynomial pairs on the real algebra", "Exhaustive over the stated coefficient boxes; oracle is independent integer polynomial arithmetic. Division is judged for monic divisors only (sympy 0.7.6.1's own division by parametric leading coefficients is not what the repository defines)."),
}
LEVEL = {}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools_manifest_grf.py')
NA = {}
if os.path.exists(extra):
    exec(open(extra).read())
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
built = [p for p in props if p in T and os.path.exists(os.path.join(here, 'lib', 'props', p.lower() + '.py'))]
m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": "model checking: " + T[p][0], "level": LEVEL.get(p, "model_checking"), "level_note": T[p][1]} for p in built],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in built],
     "notes": "No hooks: the checks import the code from /repo unchanged and observe it through its return values, printed output and files."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
