import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
from C03 import PRE
K = "src/kinetics/Kinetics.cpp"
mkseed("C04b", "C04", [("src/kinetics/Reaction.cpp", 'kin.skipUndeclaredThirdBodies() && m_name != "M"', 'kin.skipUndeclaredThirdBodies() && m_name != "M" && mass_action')],
       "a falloff reaction with an explicit undeclared collider while undeclared third bodies are skipped",
       "a falloff reaction whose only collider is undeclared is accepted although it should be skipped",
       py=PRE + '''g = ct.Solution(yaml="""
phases:
- {name: g, thermo: ideal-gas, kinetics: bulk, elements: [H], species: [A, B], reactions: all, skip-undeclared-third-bodies: true, state: {T: 500, P: 1 atm}}
species:
- {name: A, composition: {H: 1}, thermo: {model: constant-cp}}
- {name: B, composition: {H: 1}, thermo: {model: constant-cp}}
reactions:
- {equation: A (+Z) => B (+Z), type: falloff, low-P-rate-constant: {A: 1, b: 0, Ea: 0}, high-P-rate-constant: {A: 1, b: 0, Ea: 0}}
""")
sys.exit(0 if g.n_reactions == 0 else 1)
''')
mkseed("C04c", "C04", [(K, "for (size_t k = 0; k < nTotalSpecies(); k++) {\n                    string s", "for (size_t k = 1; k < nTotalSpecies(); k++) {\n                    string s")],
       "two three-body reactions whose colliders overlap only in the first species of the phase",
       "duplicates that overlap only in the first species are missed",
       py=PRE + '''
try:
    gas("- {equation: B + A => C + A, type: three-body, rate-constant: {A: 1, b: 0, Ea: 0}}\\n- {equation: B + A => C + A, type: three-body, rate-constant: {A: 2, b: 0, Ea: 0}}\\n")
    sys.exit(1)
except ct.CanteraError:
    sys.exit(0)
''')
