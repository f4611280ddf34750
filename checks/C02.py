"""Answers depend on state and settings only."""
import os
from vf import core, build
TQ = ("getActivityConcentrations getActivities getActivityCoefficients getLnActivityCoefficients getChemPotentials "
      "getElectrochemPotentials getPartialMolarEnthalpies getPartialMolarEntropies getPartialMolarIntEnergies getPartialMolarCp "
      "getPartialMolarVolumes getStandardChemPotentials getEnthalpy_RT getEntropy_R getGibbs_RT getPureGibbs getIntEnergy_RT getCp_R "
      "getStandardVolumes getEnthalpy_RT_ref getGibbs_RT_ref getGibbs_ref getEntropy_R_ref getIntEnergy_RT_ref getCp_R_ref "
      "getStandardVolumes_ref getMoleFractions getMassFractions getConcentrations getdlnActCoeffdlnX_diag getdlnActCoeffdlnN_diag "
      "temperature pressure density molarDensity meanMolecularWeight enthalpy_mole intEnergy_mole entropy_mole gibbs_mole cp_mole "
      "cv_mole enthalpy_mass intEnergy_mass entropy_mass gibbs_mass cp_mass cv_mass isothermalCompressibility thermalExpansionCoeff "
      "soundSpeed critTemperature critPressure critDensity refPressure minTemp maxTemp vaporFraction "
      "standardConcentration logStandardConc electricPotential satPressure satTemperature conck dlnN elements").split()
KQ = ("getFwdRatesOfProgress getRevRatesOfProgress getNetRatesOfProgress getEquilibriumConstants getFwdRateConstants "
      "getRevRateConstants getDeltaGibbs getDeltaElectrochemPotentials getDeltaEnthalpy getDeltaEntropy getDeltaSSGibbs "
      "getDeltaSSEnthalpy getDeltaSSEntropy getCreationRates getDestructionRates getNetProductionRates "
      "getActivityConcentrations heat irrev").split()
BQ = ("getThirdBodyConcentrations getFwdRateConstants_ddT getFwdRateConstants_ddP getFwdRateConstants_ddC getFwdRatesOfProgress_ddT "
      "getFwdRatesOfProgress_ddP getFwdRatesOfProgress_ddC getRevRatesOfProgress_ddT getRevRatesOfProgress_ddP "
      "getRevRatesOfProgress_ddC "
      "fwdRatesOfProgress_ddX revRatesOfProgress_ddX fwdRatesOfProgress_ddCi revRatesOfProgress_ddCi "
      "creationRates_ddX destructionRates_ddX "
      "getCreationRates_ddP getDestructionRates_ddC").split()
RQ = ("viscosity thermalConductivity electricalConductivity bulkViscosity getSpeciesViscosities getMobilities getThermalDiffCoeffs "
      "getMixDiffCoeffs getMixDiffCoeffsMole getMixDiffCoeffsMass getBinaryDiffCoeffs getMultiDiffCoeffs getSpeciesFluxes").split()
GAS = ["Teps", "Peps", "Xeps", "TPX", "TPY", "TP", "T", "T", "P", "P", "TD", "D", "X", "X", "Y", "conc", "HP", "SP", "UV", "SV", "equil", "save", "restore",
       "restore", "copy", "copy"]
SOL = ["Teps", "Xeps", "TPX", "TP", "T", "T", "P", "P", "X", "X", "HP", "SP", "save", "restore", "copy", "pot", "TPX"]
PUR = ["TP", "T", "P", "TD", "D", "HP", "SP", "UV", "SV", "save", "restore", "copy"]
SRF = ["Teps", "Xeps", "TP2", "TP2", "TPX", "TP", "T", "P", "cov", "cov", "X", "pot", "save", "restore", "copy", "advcov"]
TR = ["mixture-averaged", "multicomponent", "unity-Lewis-number", "mixture-averaged-CK", "multicomponent-CK", "none"]


def spec(file, phase, xs, how, T=(300, 1500), P=(2e4, 1e6), iface=False, q="tkbr", tr=(), w=1.0, struct=True):
    return {"file": file, "phase": phase, "xs": xs, "how": how, "T": T, "P": P, "iface": iface, "q": q, "tr": tr, "w": w, "struct": struct}


H2O2 = [["H2:1, O2:1, AR:3"], ["H2:0.2, O2:1, H2O:2, OH:0.3, H:0.1, O:0.1, HO2:0.05, H2O2:0.01, AR:2"], ["AR:1, O:0.01"], ["H2O:1, H2:2"]]
TM = "thermo-models.yaml"
NACL = [["H2O(L):0.9, Na+:0.04, Cl-:0.05, H+:0.02, OH-:0.01"], ["H2O(L):0.97, Na+:0.015, Cl-:0.015"], ["H2O(L):0.8, Na+:0.1, Cl-:0.1"]]
SYS = [
    spec("h2o2.yaml", "ohmech", H2O2, GAS, tr=TR, w=5),
    spec("kineticsfromscratch.yaml", "ohmech", H2O2, GAS, w=4),
    spec("kineticsfromscratch.yaml", "Pt_surf", [["PT(S):0.35, H(S):0.35, H2O(S):.1, OH(S):0.1, O(S):0.1", H2O2[1][0]], ["PT(S):1, O(S):0.2", H2O2[0][0]],
                                                ["H(S):1, PT(S):1, OH(S):0.4", "AR:1, H2:0.1"]], SRF, iface=True, T=(500, 1300), w=4),
    spec("pdep-test.yaml", "gas", [["H:1, R1A:1, R1B:1, P1:0.2, R2:1, R3:1, R4:1, R5:0.5, R6:1, P2A:1"], ["H:1, R1A:2, R3:1"]], GAS, q="kbt", w=2),
    spec("airNASA9.yaml", "airNASA9", [["N2:0.6, O2:0.2, NO:0.1, N:0.05, O:0.1"], ["N2:1, E-:0.01, NO+:0.01"]], GAS, T=(300, 9000), w=1),
    spec("ch4_ion.yaml", "gas", [["CH4:1, O2:2, N2:7"], ["CO2:1, H2O:2, N2:7, E:1e-4, H3O+:1e-4, O2-:1e-5"]], GAS, tr=["ionized-gas", "mixture-averaged"], w=0.5),
    spec("co2_RK_example.yaml", "carbondioxide", [["CO2:0.9, H2:0.05, CO:0.05"], ["CO2:0.7, H2:0.2, CH4:0.1"], ["CO2:0.2, H2O:0.3, CO:0.3, H2:0.2"]], [h for h in GAS if h != "equil"], P=(1e5, 2e7), T=(300, 900), w=2),
    spec("co2_PR_example.yaml", "CO2-PR", [["CO2:0.9, H2:0.05, CO:0.05"], ["CO2:0.7, H2:0.2, CH4:0.1"], ["CO2:0.2, H2O:0.3, CO:0.3, H2:0.2"]], [h for h in GAS if h != "equil"], P=(1e5, 2e7), T=(300, 900), w=2),
    spec("methane_co2.yaml", "methane_co2", [["CH4:0.8, CO2:0.2"], ["CH4:0.5, CO2:0.5"]], GAS, P=(1e5, 1e7), tr=["high-pressure", "high-pressure-Chung"], w=1),
    spec("liquidvapor.yaml", "water", [[""]], PUR, q="tr", P=(1e4, 5e6), T=(300, 900), tr=[], w=1),
    spec("liquidvapor.yaml", "liquid-water-IAPWS95", [[""]], PUR, q="tr", P=(1e5, 5e6), T=(300, 620), w=1),
    spec("liquidvapor.yaml", "nitrogen", [[""]], PUR, q="t", P=(1e4, 5e6), T=(80, 400), w=0.5),
    spec("liquidvapor.yaml", "carbon-dioxide", [[""]], PUR, q="t", P=(1e5, 1e7), T=(250, 600), w=0.5),
    spec("liquidvapor.yaml", "HFC-134a", [[""]], PUR, q="t", P=(1e5, 3e6), T=(220, 420), w=0.5),
    spec(TM, "molten-salt-Margules", [["KCl(l):0.3, LiCl(l):0.7"], ["KCl(l):0.8, LiCl(l):0.2"]], SOL, q="t", T=(700, 1200)),
    spec(TM, "ideal-molal-aqueous", [["H2O(l):0.8, CO2(aq):0.1, H2S(aq):0.05, CH4(aq):0.05"], ["H2O(l):0.99, CO2(aq):0.01"]], SOL, q="t", T=(300, 400), P=(1e5, 1e6)),
    spec(TM, "debye-huckel-B-dot-ak", NACL, SOL, q="t", T=(280, 380), P=(1e5, 1e6)),
    spec(TM, "debye-huckel-beta_ij", NACL, SOL, q="t", T=(280, 380), P=(1e5, 1e6)),
    spec(TM, "IdealSolnGas-liquid", [["Li(l):1"], ["Li(l):1"]], SOL, q="t", T=(500, 900)),
    spec(TM, "Redlich-Kister-LiC6", [["Li(C6):0.6, V(C6):0.4"], ["Li(C6):0.2, V(C6):0.8"]], SOL, q="t", T=(280, 400)),
    spec(TM, "HMW-NaCl-electrolyte", NACL, SOL, q="t", T=(280, 400), P=(1e5, 1e6), w=2),
    spec(TM, "HMW-NaCl-HKFT", NACL, SOL, q="t", T=(280, 400), P=(1e5, 1e6)),
    spec(TM, "IdealSolidSolnPhase", [["sp1:0.5, sp2:0.3, sp3:0.2"], ["sp1:0.1, sp2:0.1, sp3:0.8"]], SOL, q="t", T=(400, 900), w=1),
    spec(TM, "IdealSolidSolnPhase2", [["sp1:0.5, sp2:0.3, sp3:0.2"], ["sp1:0.1, sp2:0.1, sp3:0.8"]], SOL, q="t", T=(400, 900), w=1),
    spec(TM, "Li7Si3(s)", [[""]], SOL, q="t", T=(300, 900), w=0.5),
    spec(TM, "Li7Si3-interstitial", [["Li(i):0.01, V(i):0.99"], ["Li(i):0.3, V(i):0.7"]], SOL, q="t", T=(300, 900), w=1),
    spec(TM, "Metal", [[""]], SOL, q="t", T=(300, 900), w=0.3),
    spec(TM, "graphite-anode", [["Li[anode]:0.3, V[anode]:0.7"], ["Li[anode]:0.8, V[anode]:0.2"]], SOL, q="t", T=(280, 320)),
    spec("surface-phases.yaml", "anode-surface", [["", "C6:1, LiC6:1e-5", "Li+(e):0.08, PF6-(e):0.08, EC(e):0.28, EMC(e):0.56"],
                                                 ["", "C6:1, LiC6:1", "Li+(e):0.2, PF6-(e):0.2, EC(e):0.2, EMC(e):0.4"]], [h for h in SRF if h not in ("Xeps", "cov", "TPX", "X", "advcov")] + ["TP2"] * 3, iface=True, T=(300, 500), w=0.5),
    spec("surface-phases.yaml", "Pt-multi-sites", [["Pt(s):1, H(s):0.3, O2(s):0.2", "H2:1, Ar:2"], ["Pt(s):0.2, H(s):1, O(s):0.4", "H2:1, H:1"]], SRF, iface=True, T=(400, 1000), w=1),
    spec("copt_covdepsurf_example.yaml", "covdep", [["Pt:0.5, OC_Pt:0.3, O_Pt:0.2"], ["Pt:0.2, CO2_Pt:0.3, C_Pt:0.3, OC_Pt:0.3"]], [h for h in SRF if h != "advcov"], q="t", T=(400, 800), w=2),
    spec("copt_covdepsurf_example.yaml", "ideal", [["Pt:0.5, OC_Pt:0.3, O_Pt:0.2"], ["Pt:0.2, CO2_Pt:0.3, C_Pt:0.3, OC_Pt:0.3"]], [h for h in SRF if h != "advcov"], q="t", T=(400, 800), w=1),
    spec("sofc.yaml", "metal_surface", [["(m):0.6, H(m):0.2, O(m):0.1, OH(m):0.1", "H2:0.9, H2O:0.1"], ["(m):1, H(m):1", "H2:0.1, H2O:1, N2:1"]], SRF, iface=True, T=(800, 1200), w=1),
    spec("sofc.yaml", "oxide_surface", [["(ox):0.5, O''(ox):1, OH'(ox):0.3", "H2:0.9, H2O:0.1", "Ox:0.95, VO**:0.05"], ["(ox):1, H2O(ox):1, O''(ox):0.1", "H2:0.1, H2O:1, N2:1", "Ox:0.8, VO**:0.2"]], SRF, iface=True, T=(800, 1200), w=1),
    spec("blowers-masel.yaml", "gas", [["H2:1, O2:1, H:0.1, O:0.1, OH:0.2, H2O:1, CH4:0.5"], ["CH4:1, H:1"]], GAS, q="kbt", w=1),
    spec("blowers-masel.yaml", "Pt_surf", [["PT(S):0.5, H(S):0.3, O(S):0.2", "H2:1, O2:1"], ["PT(S):0.2, H(S):0.8", "CH4:1, H:1"]], SRF, iface=True, T=(500, 1200), w=1),
    spec("blowers-masel.yaml", "Pt_motz_wise", [["PT(S):0.5, H(S):0.3, O(S):0.2", "H2:1, O2:1"], ["PT(S):0.2, H(S):0.8", "CH4:1, H:1"]], SRF, iface=True, T=(500, 1200), w=0.5),
    spec("linearBurke-test.yaml", "linear-Burke_mechanism", [["H:1, OH:1, H2O:1, O2:1, HO2:0.1, H2O2:0.1"], ["H2O:1, O2:0.2, H:0.1"]], GAS, q="kbt", w=1),
    spec("linearBurke-test.yaml", "linear-Burke-complex", [["H:1, R1A:1, R1B:1, P1:0.2, R2:1, R3:1, R4:1, R5:0.5, R6:1, P2A:1"], ["H:1, R1A:2, R3:1"]], GAS, q="kbt", w=1),
]


def scenario(r, s):
    qs = []
    if "t" in s["q"]:
        qs += ["t:" + q for q in TQ]
    if s["iface"]:
        qs += ["t:coverages"] * 2
    kq = ["k:" + q for q in KQ] + (["k:" + q for q in BQ] if "b" in s["q"] else [])
    rq = ["r:" + q for q in RQ] if "r" in s["q"] else []
    ops = []
    focus = r.random() < 0.5
    pick = [r.choice(x) for x in [x for x in (qs, kq, rq, rq, kq) if x] for _ in range(2)] if focus else None
    T0 = [r.uniform(*s["T"]) for _ in range(3)]
    P0 = [r.uniform(*s["P"]) for _ in range(3)]

    def q(o):
        if focus:
            n = r.choice(pick)
        else:
            n = r.choice(r.choice([x for x in (qs, kq, rq) if x]))
        ops.append({"op": "q", "o": o, "q": n})

    def state(o, how):
        ops.append({"op": "state", "o": o, "how": how, "n": r.choice([0, 0, 0, 1, 2, 3]) if s["iface"] else 0,
                    "T": round(r.choice(T0), 3), "P": round(r.choice(P0), 1), "x": r.choice(s["xs"])})
    for o in (0, 1):
        state(o, "TPX" if s["xs"][0][0] and "TPX" in s["how"] else "TP")
    for _ in range(r.randint(8, 18)):
        o = r.choice([0, 0, 0, 1])
        y = r.random()
        if y < 0.6:
            for _ in range(r.choice([1, 1, 2])):
                q(o)
            state(o, r.choice(s["how"]))
            q(o)
        elif y < 0.8:
            q(o)
        elif s["struct"]:
            z = r.choice(["mult", "mult", "rate", "modsp", "h298", "addrx", "deriv"] if not s["iface"] else ["mult", "rate", "modsp", "exist", "stable", "h298"])
            if s["tr"] and r.random() < 0.5:
                m = r.randrange(len(s["tr"]))
                ops.append({"op": "tr", "o": o, "m": s["tr"][m], "mi": m})
            elif "k" not in s["q"]:
                ops.append({"op": r.choice(["modsp", "h298"]), "o": o, "i": r.randint(0, 9), "v": 0})
            else:
                q(o)
                ops.append({"op": z, "o": o, "i": r.randint(0, 40), "v": r.choice([0, 0, 1, 1, 2, 6]) if z == "mult" else r.choice([0, 1]),
                            "a": r.randint(0, 1), "b": r.randint(0, 1)})
            q(o)
    q(0)
    q(1)
    return {"cfg": {"file": s["file"], "phase": s["phase"], "iface": s["iface"]}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "CacheSpec", "MC_Cache", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    only = os.environ.get("ONLY")
    sys_ = [s for s in SYS if not only or only in s["file"] + ":" + s["phase"]]
    w = [s["w"] for s in sys_]
    n = ctx.pick(1500, 30000)
    data = os.path.join(build.REPO, "data") + ":" + os.path.join(build.REPO, "test", "data")
    core.conform(ctx, "CacheSpec", "cache", [scenario(r, s) for s in r.choices(sys_, w, k=n)], "Trace_Cache", env={"CANTERA_DATA": data}, timeout=700)
