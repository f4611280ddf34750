import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
PRE = '''import cantera as ct, numpy as np, sys
def gas(rx):
    return ct.Solution(yaml="""
phases:
- {name: g, thermo: ideal-gas, kinetics: bulk, elements: [H], species: [A, B, C, D], reactions: all, state: {T: 500, P: 1 atm}}
species:
""" + "".join("- {name: %s, composition: {H: 1}, thermo: {model: constant-cp, h0: 0, s0: 0, cp0: 0}}\\n" % s for s in "ABCD") + "reactions:\\n" + rx)
'''
mkseed("C03a", "C03", [("include/cantera/kinetics/StoichManager.h", "        m_sum_order = 0.;\n", ""),
                        ("include/cantera/kinetics/StoichManager.h", "double m_sum_order; //", "double m_sum_order = 0.0; //")],
       "a reaction with fractional order, another reaction added later, then a derivative with respect to total concentration",
       "the order sum of an any-order reaction accumulates whenever the mechanism is resized",
       py=PRE + '''g = gas("- {equation: A => B, rate-constant: {A: 1, b: 0, Ea: 0}, orders: {A: 0.5}}\\n")
g.TPX = 500, 1e5, "A:1,B:1"
a = g.forward_rates_of_progress_ddC[0]
g.add_reaction(ct.Reaction(equation="C => D", rate=ct.ArrheniusRate(1, 0, 0)))
b = g.forward_rates_of_progress_ddC[0]
sys.exit(0 if np.isclose(a, b) else 1)
''')
mkseed("C03b", "C03", [("include/cantera/kinetics/ThirdBodyCalc.h", "static_cast<int>(k), efficiency - default_efficiency);", "static_cast<int>(k), efficiency - (default_efficiency > 0. ? 1. : 0.));")],
       "a third body with a default efficiency other than zero or one and a composition derivative",
       "the sparse efficiency matrix used for derivatives differs from the efficiencies used for rates",
       py=PRE + '''g = gas("- {equation: A + M => B + M, rate-constant: {A: 1, b: 0, Ea: 0}, default-efficiency: 2, efficiencies: {C: 5}}\\n")
g.TPX = 500, 1e5, "A:1,B:1,C:1"
d = g.forward_rates_of_progress_ddCi
d = np.asarray(d.todense() if hasattr(d, "todense") else d)
sys.exit(0 if np.isclose(d[0, 2], 5 * g.concentrations[0]) else 1)
''')
