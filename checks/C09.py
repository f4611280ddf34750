"""The C interface: handles, error codes and buffers, for any sequence of calls with any handle, index or length."""
from vf import core

KINDS = ["sol", "thermo", "kin", "tr", "func", "mix", "rx", "net", "con", "surf", "dom", "sim", "diag", "bld"]
NAMES = ["A", "B", "C", "S", "AS", "Q", "", "Xe1", "Ze1", "gas", "mix", "surf", "T", "velocity", "d0", "d1"]
SPECIES = ["A:1", "B:1", "C:2", "Q:1", "A:1, B:0", "S:1", "AS:1"]


def scenario(r, focus):
    ops = []
    n = {k: 0 for k in KINDS}        # handles that may exist

    def h(k, bad=0.12):
        if r.random() < bad or not n[k]:
            return r.choice([-1, -2, n[k], n[k] + 3, 1000, -1000000])
        return r.randrange(n[k])

    def ix(m=3):
        return r.choice([-1, m, m + 1, 50, 2000000000, -2000000000]) if r.random() < 0.15 else r.randrange(m + 1)

    def ln():
        return r.choice([0, 0, 1, 2, 3, 3, 4, 5, 5, 6, 7, 10, 16, 40])

    def call(f, i=(), d=(), s=(), mk="", guess=None):
        if f == "reactornet_setTolerances":
            q = [-1 if d[0] < 0 else round(d[0] * 1e9), -1 if d[1] < 0 else round(d[1] * 1e15)]
        else:
            q = [int(x) for x in d]
        ops.append({"f": f, "i": list(i), "d": q, "ds": [repr(x) for x in d], "s": list(s), "mk": mk})
        if mk and "nosuch" not in s and "bad" not in s:          # a guess: only the specification knows what exists
            src = {"reactor_new": "sol", "domain_new": "sol", "connector_new": "rx", "sim1D_new": "dom", "soln_newInterface": "sol",
                   "soln_setTransportModel": "sol"}.get(f, "func" if mk == "func" else None)
            if f not in ("func_new_basic", "func_new_advanced") and src and any(not 0 <= x < n[src] for x in i):
                return
            n[mk] += 1
            if mk == "sol":
                n["thermo"] += 1
                n["kin"] += 1
                n["tr"] += 1

    def fn_sol():
        x = r.random()
        if x < 0.22:
            ph = r.choice(["gas", "mix", "gas", "mix", "surf", "bad", "nosuch"])
            call("soln_new", s=[ph, r.choice(["", "none", "nosuch"]) if ph == "surf" else r.choice(["", "", "none", "mixture-averaged", "nosuch"])], mk="sol")
        elif x < 0.32:
            call("soln_newInterface", i=[h("sol", 0.05) for _ in range(r.choice([0, 1, 2, 2]))], s=["surf" if r.random() < 0.9 else "gas"], mk="sol")
        elif x < 0.45:
            call("soln_del", [h("sol", 0.2)])
        elif x < 0.55:
            call("soln_setTransportModel", [h("sol")], s=[r.choice(["none", "mixture-averaged", "unity-Lewis-number", "nosuch"])], mk="tr")
        elif x < 0.68:
            call("soln_adjacent", [h("sol"), ix(2)], mk="sol")
        elif x < 0.76:
            call("soln_adjacentName", [h("sol"), ix(2), ln()])
        elif x < 0.84:
            call("soln_name", [h("sol"), ln()])
        else:
            call(r.choice(["soln_thermo", "soln_kinetics", "soln_transport", "soln_nAdjacent"]), [h("sol")])

    def onehot(m):
        k = r.randrange(min(m, 2)) if m else 0
        return [2.0 if j == k else 0.0 for j in range(m)]

    def fn_thermo():
        t = h("thermo")
        x = r.random()
        if x < 0.2:
            f = r.choice(["thermo_setTemperature", "thermo_setDensity"])
            call(f, [t], [r.choice([-5, 0, 1, 2, 4] + ([300, 500, 700] if f == "thermo_setTemperature" else []))])
        elif x < 0.26:
            call("thermo_set_TD", [t], [r.choice([-5, 300, 500]), r.choice([-1, 1, 2, 4])])
        elif x < 0.4:
            call(r.choice(["thermo_setMoleFractions", "thermo_setMassFractions"]), [t], onehot(r.choice([0, 1, 2, 2, 3, 3, 4])))
        elif x < 0.5:
            call(r.choice(["thermo_setMoleFractionsByName", "thermo_setMassFractionsByName"]), [t], s=[r.choice(SPECIES)])
        elif x < 0.6:
            call(r.choice(["thermo_getMoleFractions", "thermo_getMassFractions", "thermo_getMolecularWeights", "thermo_getAtomicWeights", "thermo_getCharges"]), [t, r.choice([0, 1, 2, 3, 4])])
        elif x < 0.7:
            call(r.choice(["thermo_moleFraction", "thermo_massFraction", "thermo_minTemp", "thermo_maxTemp"]), [t, ix()])
        elif x < 0.78:
            call(r.choice(["thermo_getSpeciesName", "thermo_getElementName"]), [t, ix(), ln()])
        elif x < 0.84:
            call(r.choice(["thermo_getName", "thermo_getEosType"]), [t, ln()])
        elif x < 0.88:
            call(r.choice(["thermo_speciesIndex", "thermo_elementIndex"]), [t], s=[r.choice(NAMES)])
        elif x < 0.91:
            call("thermo_nAtoms", [t, ix(), ix(2)])
        elif x < 0.94:
            call("thermo_setName", [t], s=[r.choice(["ph1", "ph2", "a-long-phase-name"])])
        else:
            call(r.choice(["thermo_nElements", "thermo_nSpecies", "thermo_del", "thermo_parent", "thermo_size", "thermo_vaporFraction", "thermo_setState_Tsat", "thermo_critTemperature"]), [t])

    def fn_kin():
        k = h("kin")
        x = r.random()
        if x < 0.14:
            call(r.choice(["kin_reactantStoichCoeff", "kin_productStoichCoeff"]), [k, ix(), ix()])
        elif x < 0.24:
            call(r.choice(["kin_getReactionType", "kin_getReactionString"]), [k, ix(), ln()])
        elif x < 0.44:
            call("kin_setMultiplier", [k, ix()], [r.choice([-1, 0, 1, 2, 3])])
        elif x < 0.52:
            call(r.choice(["kin_isReversible", "kin_start", "kin_phase", "kin_phase", "kin_start"]), [k, ix(3)])
        elif x < 0.6:
            call(r.choice(["kin_speciesIndex", "kin_phaseIndex"]), [k], s=[r.choice(NAMES)])
        elif x < 0.88:
            call(r.choice(["kin_getFwdRateConstants", "kin_getFwdRatesOfProgress", "kin_getRevRatesOfProgress", "kin_getNetRatesOfProgress", "kin_getEquilibriumConstants", "kin_getRevRateConstants",
                           "kin_getCreationRates", "kin_getDestructionRates", "kin_getNetProductionRates", "kin_getSourceTerms"]), [k, r.choice([0, 1, 2, 3, 4, 4, 5, 6])])
        elif x < 0.93:
            call("kin_getDelta", [k, r.choice([3, 4, 5, 6, -1]), r.choice([0, 1, 3, 4, 5])])
        else:
            call(r.choice(["kin_getType", "kin_del", "kin_parent", "kin_advanceCoverages"]), [k, ln()])

    def fn_tr():
        t = h("tr")
        x = r.random()
        if x < 0.3:
            call("trans_transportModel", [t, ln()])
        elif x < 0.7:
            call(r.choice(["trans_getMixDiffCoeffs", "trans_getBinDiffCoeffs", "trans_getThermalDiffCoeffs"]), [t, r.choice([0, 1, 2, 3, 4])])
        else:
            call(r.choice(["trans_viscosity", "trans_thermalConductivity", "trans_del", "trans_parent"]), [t])

    def fn_func():
        x = r.random()
        if x < 0.25:
            call("func_new_basic", [], [r.randint(-2, 3)], [r.choice(["constant", "constant", "constant", "nosuch", "sum"])], mk="func")
        elif x < 0.4:
            call("func_new_advanced", [], [r.randint(-2, 3) for _ in range(r.choice([0, 1, 2, 3]))], [r.choice(["polynomial3", "polynomial3", "nosuch"])], mk="func")
        elif x < 0.55:
            call("func_new_" + r.choice(["sum", "diff", "sum", "diff", "prod"]), [h("func"), h("func")], mk="func")
        elif x < 0.62:
            call("func_new_compound", [h("func"), h("func")], s=[r.choice(["sum", "diff", "product", "nosuch"])], mk="func")
        elif x < 0.69:
            call("func_new_modified", [h("func")], [r.randint(-2, 3)], [r.choice(["times-constant", "plus-constant", "nosuch"])], mk="func")
        elif x < 0.8:
            call("func_del", [h("func", 0.2)])
        elif x < 0.88:
            call(r.choice(["func_derivative", "func_duplicate"]), [h("func")], mk="func")
        elif x < 0.97:
            call("func_value", [h("func")], [r.randint(-2, 2)])
        else:
            call("ct_clearFunc")

    need = set()

    def fn_mix():
        x = r.random()
        m = h("mix")
        if x < 0.1:
            call("mix_new", mk="mix")
        elif x < 0.14:
            call("mix_del", [h("mix", 0.2)])
        elif x < 0.3:
            need.add(m)
            call("mix_addPhase", [m, h("thermo")], [r.choice([0, 1, 2, 3, -1])])
        elif m in need and r.random() < 0.3:
            need.discard(m)
            call("mix_setPressure", [m], [100000])
        elif m in need:          # queries need an initialised mixture
            need.discard(m)
            call("mix_init", [m])
        elif x < 0.42:
            call("mix_setPhaseMoles", [m, ix(2)], [r.choice([-1, 0, 1, 2, 4])])
        elif x < 0.5:
            call("mix_setMoles", [m], [r.randint(0, 3) for _ in range(r.choice([0, 2, 3, 5, 5, 6]))])
        elif x < 0.58:
            call(r.choice(["mix_setTemperature", "mix_setPressure"]), [m], [r.choice([-1, 300, 100000])])
        elif x < 0.88:
            f = r.choice(["mix_phaseMoles", "mix_speciesMoles", "mix_elementMoles", "mix_moleFraction", "mix_speciesPhaseIndex", "mix_phaseCharge"])
            call(f, [m, ix(3 if f in ("mix_phaseMoles", "mix_elementMoles", "mix_phaseCharge") else 6)])
        elif x < 0.94:
            call(r.choice(["mix_speciesIndex", "mix_nAtoms"]), [m, ix(), ix(2)])
        else:
            f = r.choice(["mix_nElements", "mix_nPhases", "mix_nSpecies", "mix_charge", "mix_elementIndex", "ct_clearMix", "mix_init", "mix_updatePhases"])
            call(f, [] if f == "ct_clearMix" else [m], s=[r.choice(NAMES)])

    def fn_rx():
        x = r.random()
        if x < 0.13:
            call("reactor_new", [h("sol")], s=[r.choice(["Reactor", "IdealGasReactor", "Reservoir", "nosuch"]), "r%d" % n["rx"]], mk="rx")
        elif x < 0.17:
            call("reactor_del", [h("rx", 0.2)])
        elif x < 0.22:
            call(r.choice(["reactor_type", "reactor_name"]), [h("rx"), ln()])
        elif x < 0.25:
            call("reactor_setName", [h("rx")], s=[r.choice(["x1", "x2"])])
        elif x < 0.3:
            call("reactor_setInitialVolume", [h("rx")], [r.choice([1, 2, 5])])
        elif x < 0.37:
            call("reactor_massFraction", [h("rx"), ix()])
        elif x < 0.42:
            call(r.choice(["reactor_setChemistry", "reactor_setEnergy"]), [h("rx"), r.randint(0, 1)])
        elif x < 0.46:
            f = r.choice(["reactor_setMassFlowRate", "reactor_mass", "reactor_nSensParams"])
            call(f, [h("rx")], [1])
        elif x < 0.5:
            call("reactor_addSensitivityReaction", [h("rx"), ix(3)])
        elif x < 0.55:
            call("reactornet_new", mk="net")
        elif x < 0.57:
            call("reactornet_del", [h("net", 0.2)])
        elif x < 0.62:
            call("reactornet_setTolerances", [h("net")], [r.choice([-1, 0.001, 0.002]), r.choice([-1, 1e-9, 2e-9])])
        elif x < 0.65:
            call("reactornet_addreactor", [h("net"), h("rx")])
        elif x < 0.67:
            f = r.choice(["reactornet_sensitivity", "reactornet_setInitialTime"])
            call(f, [h("net", 1.0 if f == "reactornet_sensitivity" else 0.1), 0, 0], [0], ["T"])
        elif x < 0.74:
            call("connector_new", [h("rx"), h("rx")], s=[r.choice(["Wall", "MassFlowController", "Valve", "PressureController", "nosuch"]), "c%d" % n["con"]], mk="con")
        elif x < 0.77:
            call("connector_del", [h("con", 0.2)])
        elif x < 0.8:
            call(r.choice(["connector_type", "connector_name"]), [h("con"), ln()])
        elif x < 0.9:
            f = r.choice(["connector_setName", "flowdev_setPrimary", "flowdev_setMassFlowCoeff", "flowdev_setValveCoeff", "flowdev_setPressureCoeff", "flowdev_setTimeFunction", "flowdev_setPressureFunction",
                          "wall_setVelocity", "wall_setHeatFlux", "wall_setArea", "wall_setArea", "wall_setEmissivity", "wall_setThermalResistance", "wall_setHeatTransferCoeff", "wall_setExpansionRateCoeff"])
            call(f, [h("con"), h("con") if f == "flowdev_setPrimary" else h("func")], [r.choice([0, 1]) if f == "wall_setEmissivity" else r.randint(1, 4)], [r.choice(["y1", "y2"])])
        elif x < 0.92:
            call("reactorsurface_new", s=["s%d" % n["surf"]], mk="surf")
        elif x < 0.935:
            call("reactorsurface_del", [h("surf", 0.2)])
        elif x < 0.99:
            f = r.choice(["reactorsurface_name", "reactorsurface_setName", "reactorsurface_install", "reactorsurface_setkinetics", "reactorsurface_setArea", "reactorsurface_addSensitivityReaction"])
            second = {"reactorsurface_name": ln(), "reactorsurface_install": h("rx"), "reactorsurface_setkinetics": h("kin")}.get(f, ix())
            call(f, [h("surf"), second], [r.randint(1, 4)], [r.choice(["z1", "z2"])])
        else:
            call("ct_clearReactors")

    used = set()

    def fn_dom():
        x = r.random()
        d = h("dom")
        if x < 0.18:
            call("domain_new", [h("sol")], s=[r.choice(["inlet", "outlet", "empty", "surface", "symmetry-plane", "free-flow", "axisymmetric-flow", "reacting-surface", "nosuch"]), "d%d" % n["dom"]], mk="dom")
        elif x < 0.22:
            call("domain_del", [h("dom", 0.2)])
        elif x < 0.27:
            call("domain_type", [d, ln()])
        elif x < 0.34:
            call("domain_componentName", [d, ix(6), ln()])
        elif x < 0.38:
            call("domain_componentIndex", [d], s=[r.choice(NAMES)])
        elif x < 0.43:
            call("domain_grid", [d, ix(2)])
        elif x < 0.52:
            call("domain_setBounds", [d, ix(6)], [r.randint(-3, 0), r.randint(1, 4)])
        elif x < 0.58:
            call(r.choice(["domain_lowerBound", "domain_upperBound"]), [d, ix(6)])
        elif x < 0.62:
            call(r.choice(["domain_setSteadyTolerances", "domain_setTransientTolerances"]), [d, ix(6)], [0.001, 1e-6])
        elif x < 0.66:
            call(r.choice(["bdry_setMdot", "bdry_setTemperature", "bdry_mdot", "bdry_temperature"]), [d], [r.choice([1, 2, 300])])
        elif x < 0.7:
            call("bdry_massFraction", [d, ix(3)])
        elif x < 0.72:
            call("bdry_setMoleFractions", [d], s=[r.choice(SPECIES)])
        elif x < 0.75:
            call(r.choice(["reactingsurf_enableCoverageEqs", "flow1D_pressure", "flow1D_setPressure"]), [d, 1], [100])
        elif x < 0.82:
            c = [k for k in range(n["dom"]) if k not in used]
            if c and r.random() < 0.9:
                k = r.randint(1, min(3, len(c)))
                l = r.sample(c, k)
                used.update(l)
                call("sim1D_new", l, mk="sim")
            else:
                call("sim1D_new", [h("dom", 1.0)], mk="sim")
        elif x < 0.84:
            call("sim1D_del", [h("sim", 0.2)])
        elif x < 0.98:
            f = r.choice(["sim1D_setValue", "sim1D_value", "sim1D_workValue", "sim1D_setFlatProfile", "sim1D_setProfile", "sim1D_setRefineCriteria", "sim1D_setGridMin", "sim1D_domainIndex"])
            call(f, [h("sim"), ix(2), ix(6), ix(1)], [r.randint(2, 5), 0.5, 0.5, 0.1] if f == "sim1D_setRefineCriteria" else [r.randint(1, 9)] * 2, [r.choice(NAMES)])
        else:
            call("ct_clearOneDim")

    def fn_diag():
        x = r.random()
        if x < 0.3:
            f = r.choice(["diag", "bld"])
            call("rdiag_new" if f == "diag" else "rbuild_new", mk=f)
        elif x < 0.45:
            call(*r.choice([("rdiag_del", [h("diag")]), ("rbuild_del", [h("bld")])]))
        elif x < 0.7:
            call(r.choice(["rdiag_setThreshold", "rdiag_detailed"]), [h("diag")], [0.5])
        elif x < 0.9:
            call("rbuild_init", [h("bld"), h("kin")])
        else:
            call("ct_clearReactionPath")

    FNS = {"sol": fn_sol, "thermo": fn_thermo, "kin": fn_kin, "tr": fn_tr, "func": fn_func, "mix": fn_mix, "rx": fn_rx, "dom": fn_dom, "diag": fn_diag}
    if focus == "func":
        for _ in range(r.randint(8, 24)):
            fn_func()
        return {"cfg": {"x": 0}, "ops": ops}
    if r.random() < 0.9:
        call("soln_new", s=["gas", ""], mk="sol")
    if r.random() < 0.7:
        call("soln_new", s=["mix", "mixture-averaged" if focus in ("dom", "tr") or r.random() < 0.5 else ""], mk="sol")
    if r.random() < 0.5:
        call("soln_newInterface", i=[] if r.random() < 0.4 else [0, 1], s=["surf"], mk="sol")
    for k, f in (("mix", "mix_new"), ("net", "reactornet_new"), ("diag", "rdiag_new"), ("bld", "rbuild_new")):
        if focus in (k, {"net": "rx", "bld": "diag"}.get(k)):
            call(f, mk=k)
    if focus == "dom":
        for k, t in enumerate(r.choice([["inlet", "free-flow", "outlet"], ["inlet", "axisymmetric-flow", "reacting-surface"], ["free-flow"], ["empty", "free-flow", "symmetry-plane"]])):
            call("domain_new", [2 if t == "reacting-surface" and n["sol"] > 2 else min(1, max(0, n["sol"] - 1))], s=[t, "d%d" % k], mk="dom")
        if r.random() < 0.8:
            used.update(range(n["dom"]))
            call("sim1D_new", range(n["dom"]), mk="sim")
    if focus == "rx":
        for k in range(2):
            call("reactor_new", [r.randrange(2) if n["sol"] > 1 else 0], s=[r.choice(["Reactor", "IdealGasReactor", "Reservoir"]), "r%d" % k], mk="rx")
        call("connector_new", [0, 1], s=[r.choice(["Wall", "MassFlowController"]), "c0"], mk="con")
        call("reactorsurface_new", s=["s0"], mk="surf")
        if n["kin"] > 2:
            call("reactorsurface_setkinetics", [0, 2], [1], [""])
    if focus == "mix":
        for k in range(r.randint(1, 3)):
            call("mix_addPhase", [0, h("thermo", 0)], [k])
        call("mix_init", [0])
    for _ in range(r.randint(8, 26)):
        if r.random() < 0.03:
            call(r.choice(["ct_clearStorage", "ct_resetStorage"]))
            if ops[-1]["f"] == "ct_resetStorage":
                for k in ("sol", "thermo", "kin", "tr"):
                    n[k] = 0
        elif r.random() < 0.55:
            FNS[focus]()
        else:
            FNS[r.choice(list(FNS))]()
    return {"cfg": {"x": 0}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "ClibSpec", "MC_Clib", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    foci = ["sol", "thermo", "kin", "tr", "func", "mix", "rx", "dom", "diag", "sol", "rx", "dom", "mix", "kin"]
    core.conform(ctx, "ClibSpec", "clib", [scenario(r, foci[j % len(foci)]) for j in range(ctx.pick(2800, 40000))], "Trace_Clib", timeout=700)
