import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
mkseed("C02a", "C02", [("src/thermo/HMWSoln.cpp", """void HMWSoln::s_update_dlnMolalityActCoeff_dT() const
{
    static const int cacheId = m_cache.getId();
    CachedScalar cached = m_cache.getScalar(cacheId);
    if( cached.validate(temperature(), pressure(), stateMFNumber()) ) {""", """void HMWSoln::s_update_dlnMolalityActCoeff_dT() const
{
    static const int cacheId = m_cache.getId();
    CachedScalar cached = m_cache.getScalar(cacheId);
    if( cached.validate(temperature(), stateMFNumber()) ) {""")],
       "an electrolyte whose pressure alone is changed between two queries of its partial molar enthalpies",
       "temperature derivatives of activity coefficients of an earlier pressure are reused",
       py='''import cantera as ct, sys, os
f = os.path.join(os.environ["PYTHONPATH"], "..", "..", "test", "data", "thermo-models.yaml")
def mk(P):
    p = ct.Solution(f, "HMW-NaCl-electrolyte"); p.TPX = 330, P, "H2O(L):0.9, Na+:0.04, Cl-:0.05, H+:0.02, OH-:0.01"; return p
p = mk(1e5); p.partial_molar_enthalpies; p.TP = None, 8e5
a, b = p.partial_molar_enthalpies, mk(8e5).partial_molar_enthalpies
sys.exit(int(abs(a - b).max() > 1e-7 * abs(b).max() * 1e-3))
''')
mkseed("C02b", "C02", [("src/kinetics/InterfaceRate.cpp", """    for (size_t n = 0; n < kin.nPhases(); n++) {
        mf += kin.thermo(n).stateMFNumber();
    }
""", """    for (size_t n = 0; n < kin.nPhases(); n++) {
        mf = std::max(mf, kin.thermo(n).stateMFNumber());
    }
""")],
       "coverages changed while another phase of the interface has been modified more often",
       "coverage-dependent rates use earlier coverages",
       py='''import cantera as ct, sys
def mk(): return ct.Interface("ptcombust.yaml", "Pt_surf")
p = mk(); p.TP = 900, 1e5; g = p.adjacent["gas"]
for i in range(60): g.TPX = 900, 1e5, {"CH4": 1, "O2": 1 + 0.1 * i}
p.coverages = "PT(S):0.5, H(S):0.5"; p.forward_rate_constants
p.coverages = "PT(S):0.2, H(S):0.8"
q = mk(); q.adjacent["gas"].TPX = g.TPX; q.TP = 900, 1e5; q.coverages = "PT(S):0.2, H(S):0.8"
a, b = p.forward_rate_constants, q.forward_rate_constants
sys.exit(int((abs(a - b) > 1e-6 * abs(b)).any()))
''')
mkseed("C02c", "C02", [("src/thermo/SurfPhase.cpp", "    if (m_tlast != tnow || force) {", "    if (std::abs(m_tlast - tnow) > 2e-3 || force) {")],
       "a surface whose temperature moves by less than 2 mK between queries",
       "reference properties of a neighbouring temperature are reused",
       py='''import cantera as ct, sys
def mk(T):
    p = ct.Interface("ptcombust.yaml", "Pt_surf"); p.TP = T, 1e5; return p
p = mk(700); p.standard_enthalpies_RT; p.TP = 700.0015, 1e5
a, b = p.standard_enthalpies_RT, mk(700.0015).standard_enthalpies_RT
sys.exit(int((abs(a - b) > 1e-9 * abs(b)).any()))
''')
mkseed("C02d", "C02", [("src/transport/GasTransport.cpp", "fits will need to be redone\n    m_visc_ok = false;\n    m_spvisc_ok = false;\n    m_viscwt_ok = false;\n    m_bindiff_ok = false;\n}", "fits will need to be redone\n    m_visc_ok = false;\n    m_spvisc_ok = false;\n    m_viscwt_ok = m_viscwt_ok && m_mode == CK_Mode;\n    m_bindiff_ok = false;\n}")],
       "a Chemkin-compatible transport model asked for the viscosity at a second temperature",
       "the weighting of species viscosities is that of the first temperature",
       py='''import cantera as ct, sys
def mk(): 
    g = ct.Solution("h2o2.yaml", transport_model="mixture-averaged-CK"); return g
X = "H2:1, O2:1, AR:2"
p = mk(); p.TPX = 400, 1e5, X; p.viscosity; p.TP = 1400, 1e5
q = mk(); q.TPX = 1400, 1e5, X
sys.exit(int(abs(p.viscosity / q.viscosity - 1) > 1e-9))
''')
mkseed("C02e", "C02", [("src/kinetics/PlogRate.cpp", "    if (P != pressure || T != temperature) {", "    if (P > pressure || T != temperature) {")],
       "rates asked at a pressure and then, at the same temperature, at a lower one",
       "pressure-dependent rates of the earlier pressure are reused",
       py='''import cantera as ct, sys, os
f = os.path.join(os.environ["PYTHONPATH"], "..", "..", "test", "data", "pdep-test.yaml")
def mk():
    return ct.Solution(f)
p = mk(); p.TP = 900, 1e6; p.forward_rate_constants; p.TP = 900, 1e5
q = mk(); q.TP = 900, 1e5
sys.exit(int((abs(p.forward_rate_constants / q.forward_rate_constants - 1) > 1e-9).any()))
''')
