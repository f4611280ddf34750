"""Source of properties.jsonl: python3 tools/props.py writes it."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Setting a thermodynamic state reaches exactly the requested state",
     "After any sequence of state changes on a phase, a setter given a pair of properties (T, P, D, H, S, U, V, G-free pairs with P or V, with or without composition in mass or mole units) leaves the phase in the state whose properties equal the requested values, with composition normalised to unit sum, and every property of that state (in mass and molar basis) is consistent with the same T, density and composition set directly. "
     "Quantities the setter does not name keep the documented behaviour (composition setters keep T and density or T and P as documented). "
     "Saving the state and restoring it later, in the same or another object of the same phase, reproduces it, and a malformed request (unknown or repeated species, non-positive temperature or density, bad units, wrong length) is reported and leaves the state as it was. (Real-gas enthalpy and entropy set-points beyond a phase jump are left out: the solvers stop at the jump by design.)",
     ["histories", "inputs"], "all sequences of setters and all reachable states of the supported phase models",
     "Tests set a few states from a few starting points; the result of a setter depends on the state left by all earlier calls (initial guesses, cached species, ordering of T/D/P updates).",
     ["src/thermo/ThermoPhase.cpp", "src/thermo/Phase.cpp", "src/thermo/IdealGasPhase.cpp", "src/thermo/MixtureFugacityTP.cpp", "src/thermo/PureFluidPhase.cpp", "src/base/global.cpp"],
     [("iterative HP/UV/SP/SV solvers", "ThermoPhase::setState_HPorUV, setState_SPorSV"), ("composition normalisation", "Phase::setMoleFractions and relatives"), ("state vectors", "Phase::saveState/restoreState"), ("dictionary states", "ThermoPhase::setState(AnyMap)")],
     [("state", "temperature, density and mass fractions", "Phase::m_temp, m_dens, m_y, m_ym, m_mmw")], ["ThermoPhase getters"])

prop("C02", "Query results depend only on the current state, never on earlier calls",
     "Every property returned by a phase, its kinetics or its transport model (partial molar and standard properties, rates of progress, rate constants, equilibrium constants, creation rates, viscosities, conductivities, diffusion coefficients) is a function of the current state, settings and mechanism only. "
     "It must not depend on which queries or states came before, on whether a value was cached, on the order of queries, or on other objects of the same kind; a freshly created object put in the same state gives the same values.",
     ["histories", "schedules"], "all interleavings of state changes, setting changes and queries over one or several objects",
     "Unit tests query few properties after few changes; stale caches need a particular order of partial updates (only T, only P, only composition, equal state numbers on another object) followed by a particular query.",
     ["src/thermo/IdealGasPhase.cpp", "src/thermo/Phase.cpp", "src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/MultiRate.h", "src/transport/GasTransport.cpp", "src/transport/MixTransport.cpp", "src/transport/MultiTransport.cpp", "src/base/ValueCache.cpp", "src/thermo/MultiSpeciesThermo.cpp"],
     [("state-number validated caches", "ValueCache, Phase::m_cache, stateMFNumber"), ("ROP_ok / T and P tracking", "Kinetics::invalidateCache, BulkKinetics::updateROP"), ("visc_ok/bindiff_ok flags", "GasTransport::update_T/update_C"), ("ReactionData::update", "MultiRate")],
     [("caches", "derived values tagged with the state they were computed for", "ValueCache, m_ROP_ok, m_visc_ok")])

prop("C03", "Reaction rates, production rates and third-body factors obey the rate law",
     "At every state and after any history of adding reactions, replacing rates or setting multipliers, the forward rate of progress of a reaction is its (multiplied) rate constant times the product of reactant concentrations raised to the reaction orders times the efficiency-weighted third-body concentration, and the reverse rate is that of the detailed-balance constant (zero if irreversible). "
     "Creation, destruction and net production rates of each species, and every per-reaction delta, are the stoichiometric sums of those rates over all phases, so that elements and mass are conserved; a multiplier scales exactly one reaction in both directions. Composition and rate derivatives are those of the same rate law, with the terms that the derivative settings exclude left out. "
     "Stoichiometric queries report exactly the coefficients of the reactions that were accepted, in the order they were added.",
     ["inputs", "histories", "programs"], "all mechanisms (orders, fractional and non-reactant orders, repeated species, third bodies with efficiencies) and all histories of multiplier, rate replacement and state changes",
     "Shipped tests compare selected reactions of fixed mechanisms with stored numbers; the stoichiometry manager has separate code paths by participant count and by reaction type.",
     ["src/kinetics/StoichManager.h", "src/kinetics/BulkKinetics.cpp", "src/kinetics/Kinetics.cpp", "src/kinetics/Reaction.cpp", "include/cantera/kinetics/ThirdBodyCalc.h"],
     [("StoichManagerN / C1,C2,C3,C_AnyN", "include/cantera/kinetics/StoichManager.h"), ("ThirdBodyCalc", "include/cantera/kinetics/ThirdBodyCalc.h"), ("addReaction/modifyReaction/setMultiplier", "Kinetics, BulkKinetics")])

prop("C04", "A mechanism is accepted exactly when it is well formed",
     "Adding a reaction succeeds only if it balances elements and charge, names declared species, has a usable rate, and has valid orders; reactions or third bodies that name undeclared species are rejected, or skipped when and only when the corresponding skip option is set, and a rejected reaction leaves the mechanism unchanged. "
     "The duplicate check reports exactly the pairs of reactions that have proportional stoichiometry in a common direction (also reversed, for reversible reactions) and compatible third bodies and are not both marked duplicate, and marked reactions without a partner, independently of the order in which reactions were added or queried.",
     ["inputs", "programs", "histories"], "all reaction sets over small species sets, in every order of addition",
     "Tests hold a few hand-written duplicate pairs; the check is order dependent through hashing of participants and through shared maps.",
     ["src/kinetics/Kinetics.cpp", "src/kinetics/Reaction.cpp", "src/kinetics/KineticsFactory.cpp"],
     [("checkDuplicates, checkDuplicateStoich", "Kinetics"), ("checkSpecies, checkBalance, undeclaredThirdBodies", "Reaction")])

prop("C05", "Species, elements and name look-up of a phase stay consistent",
     "After any sequence of adding elements and species, aliases, modifications, undefined-element policies, name look-ups (case-sensitive or not) and refused operations, the phase reports exactly the species and elements that were accepted, in order, with indices and names that invert each other, compositions, charges and molecular weights that follow from the declared element composition, and mass/mole fractions of correct size. "
     "A refused addition (duplicate, undefined element under the strict policy, locked phase, inconsistent data) reports an error and leaves the phase as it was; while any holder keeps the species list locked no species can be added.",
     ["histories", "inputs"], "all histories of registry operations",
     "Tests add a few species once; index/name maps, charge elements and case-insensitive caches interact only over longer histories.",
     ["src/thermo/Phase.cpp", "src/thermo/Elements.cpp", "src/thermo/ThermoPhase.cpp", "src/thermo/Species.cpp"],
     [("addElement/addSpecies/addSpeciesAlias/addSpeciesLock", "Phase")],
     [("registry", "element and species vectors with name maps", "Phase::m_elementNames, m_speciesNames, m_speciesIndices, m_speciesLower")])

prop("C06", "Structured input data survives access, copying and a YAML round trip",
     "A tree of input data (nested maps, lists, numbers, strings, booleans, quantities) reports exactly the keys, types and values last written to it, independently of aliasing between copies, order of insertion, type conversions and metadata; comparison of trees is an equivalence on that content. "
     "Written as YAML and read back, it yields an equal tree, and files read through the cache always reflect the current content of the file on disk.",
     ["histories", "inputs"], "all sequences of edits, copies, updates, queries and round trips over nested data",
     "Tests check selected literals; conversions on access (int to double, vector types), lazily applied ordering and shared metadata only show over histories.",
     ["src/base/AnyMap.cpp", "include/cantera/base/AnyMap.h", "include/cantera/base/AnyMap.inl.h"],
     [("AnyMap, AnyValue", "src/base/AnyMap.cpp"), ("s_cache of parsed files", "AnyMap::fromYamlFile")])

prop("C07", "Unit conversion follows dimensional algebra under every unit system",
     "Converting a value between two unit expressions multiplies it by the ratio of their SI factors and is refused exactly when their dimensions differ; expressions combine by multiplication, division and (fractional) powers with all documented units and prefixes, and activation energies may be given per quantity, per molecule or as temperatures. "
     "Numbers without units are interpreted in the unit system in force, defined by the last defaults set for each dimension, including pressure, energy and activation energy defaults and nested `units` declarations of input maps, each level overriding only what it declares; the reported difference between two unit systems restores the first when applied to the second.",
     ["inputs", "histories"], "all unit expressions and histories of default settings and nested declarations",
     "Tests use a handful of literal conversions from fresh unit systems.",
     ["src/base/Units.cpp", "include/cantera/base/Units.h", "src/base/AnyMap.cpp"],
     [("Units, UnitSystem, UnitStack", "src/base/Units.cpp"), ("applyUnits", "src/base/AnyMap.cpp")],
     [("defaults", "factor per dimension and explicit activation energy", "UnitSystem::m_*_factor")])

prop("C08", "A solution array keeps per-location states and extra data aligned",
     "Through any history of appending, resizing, setting states and auxiliary data, slicing, sharing, resetting and save/restore, each location of a solution array holds exactly the state last written to it (through any slice or shared view), every extra component has exactly one typed entry per location, and the underlying phase object is left as the array's documented current location. "
     "Data written to file and read back (YAML or CSV) reproduces the array, its shape, its component names and its metadata.",
     ["histories", "inputs"], "all histories of array operations, slices and shared views",
     "Tests exercise single operations on small arrays.",
     ["src/base/SolutionArray.cpp", "include/cantera/base/SolutionArray.h"], [("SolutionArray", "src/base/SolutionArray.cpp")])

prop("C09", "C interface handles are safe: errors are codes, never misuse",
     "For any sequence of calls on the C interface, every call with a handle that does not name a live object, or with an out-of-range index or too small a buffer, returns an error code (with a retrievable message) and changes nothing, every valid handle keeps referring to its own object, reference-counted objects shared between handles stay alive as long as one handle does, and deleting an object again is refused. "
     "Objects a caller lends to another one (phases of a mixture, reactors of a network, functions of a connector) stay valid as long as the caller keeps them; clearing and resetting the storage releases everything it holds.",
     ["histories"], "all call sequences across handle types",
     "Tests call each function a few times with valid handles.",
     ["src/clib/Cabinet.h", "src/clib/ct.cpp", "src/clib/ctfunc.cpp", "src/clib/ctreactor.cpp", "src/clib/ctonedim.cpp"], [("SharedCabinet/Cabinet", "src/clib/Cabinet.h"), ("handleAllExceptions", "src/clib/clib_utils.h")])

prop("C10", "A reactor network's life cycle, time and events behave as documented",
     "Over any history of adding reactors, changing initial time, tolerances, step limits and reactor contents, advancing, stepping, reinitialising, setting advance limits and querying, the network time never moves except by advance/step/initial-time calls, advance ends at the requested time (or at the limit that stopped it), step moves time strictly forward and at most to the limits, and after each call every reactor's contents agree with the network's state vector and its own phase. "
     "External changes to reactor contents take effect after the documented synchronisation and never before; component indices and names invert each other across reactors.",
     ["histories"], "all histories of network and reactor calls", "Tests run few short scripts.",
     ["src/zeroD/ReactorNet.cpp", "src/zeroD/Reactor.cpp", "src/numerics/CVodesIntegrator.cpp"], [("ReactorNet::initialize/reinitialize/advance/step", "src/zeroD/ReactorNet.cpp")])

prop("C11", "Reactor networks conserve what flows between their parts",
     "For every network of reactors, reservoirs, walls and flow devices, mass, species, elements, energy and volume leave one reactor exactly as they enter its neighbour: mass-flow rates follow the device's documented law (never negative), wall velocity and heat flux follow theirs with opposite signs on the two sides, and the rates of change evaluated for each reactor equal the sum of its own connections and reactions. "
     "Connecting, configuring or modifying one device changes only what it is connected to.",
     ["configurations", "histories"], "all topologies and device settings, and histories of changing them", "Tests contain selected two-reactor networks.",
     ["src/zeroD/Reactor.cpp", "src/zeroD/IdealGasReactor.cpp", "src/zeroD/Wall.cpp", "src/zeroD/flowControllers.cpp", "src/zeroD/FlowDevice.cpp", "src/zeroD/ReactorSurface.cpp"], [("FlowDevice::massFlowRate, Wall::expansionRate/heatRate, Reactor::evalWalls/eval", "src/zeroD")])

prop("C12", "One-dimensional simulations keep grid, layout and solution consistent",
     "For any stack of domains and any history of setting grids, profiles, values, fixed temperature, refinement criteria, refining, saving and restoring, the solution vector has exactly points times components entries per domain, values read back are those last set or interpolated linearly from the profile, every kept grid point keeps its values on refinement, new points take the linear mean of their neighbours and grid limits are respected. "
     "Saving and restoring (to file or the internal steady state) reproduces the grid and every value, also when the grid was changed in between.",
     ["histories", "inputs"], "all histories of grid and profile operations over stacks of domains", "Tests run complete flames with fixed refinement histories.",
     ["src/oneD/OneDim.cpp", "src/oneD/Sim1D.cpp", "src/oneD/refine.cpp", "src/oneD/Domain1D.cpp", "src/oneD/Boundary1D.cpp"], [("OneDim::resize/locate, Refiner::analyze/prune, Sim1D::refine/save/restore", "src/oneD")])

prop("C13", "Function objects mean what their construction says",
     "A function object built from basic functions by any nesting of sum, difference, product, ratio, composition, scaling, shifting, powers, periodic and tabulated forms evaluates, at every argument where it is defined, to the value of that expression, and its derivative object to the derivative; simplification performed while building or differentiating never changes the value, and building a new function never alters the ones it was built from. "
     "Invalid parameter sets are refused.",
     ["inputs", "programs"], "all expression trees over the available functors and arguments", "Tests evaluate a few hand-built combinations.",
     ["src/numerics/Func1.cpp", "include/cantera/numerics/Func1.h", "src/numerics/Func1Factory.cpp"], [("newSumFunction/newProdFunction/... simplifications", "src/numerics/Func1.cpp")])

prop("C14", "Delegated methods run in the declared order and combine as declared",
     "For every delegable method and any history of installing delegates, a call runs 'before' delegates and then the base method, the base method and then 'after' delegates, or the replacement alone, exactly once each, with the array arguments updated in that order; returned values are those of the replacement or, for before/after, of the base combined as documented. "
     "Installing a delegate under an unknown name or with an unknown mode is refused and changes nothing.",
     ["histories", "programs"], "all combinations of method signature and mode, and histories of installation", "Tests override few methods of one reactor type.",
     ["include/cantera/base/Delegator.h", "include/cantera/zeroD/ReactorDelegator.h"], [("Delegator::install/makeDelegate", "include/cantera/base/Delegator.h")])

prop("C15", "Factories create exactly what is registered, under every documented name",
     "For each extensible class family (phases, reactors, flow devices, walls, reaction rates, species models, function objects, domains, kinetics, transport), creating by a canonical name or any of its aliases yields the same kind of object, an unknown name is refused, and registering, aliasing or removing names affects only those names. "
     "Deprecated aliases keep working and deleting all factories restores the initial registry.",
     ["histories", "inputs"], "all histories of registration, alias, deletion and creation", "Tests create most types once by one name.",
     ["include/cantera/base/FactoryBase.h", "src/zeroD/ReactorFactory.cpp", "src/thermo/ThermoFactory.cpp", "src/kinetics/ReactionRateFactory.cpp"], [("Factory::reg/addAlias/create", "include/cantera/base/FactoryBase.h")])

prop("C16", "Objects sharing a solution stay connected and are told about changes",
     "In any history of creating solutions, attaching and replacing thermo, kinetics and transport objects, registering and removing change listeners and adding adjacent phases, every manager refers to the same phase object, adjacent phases are found by name and index in order of declaration and shared between users, each registered listener is called exactly once per replacement of its component until it is removed, and objects stay usable as long as any user holds them.",
     ["histories"], "all histories of object graph operations", "Tests build graphs once and never mutate them.",
     ["src/base/Solution.cpp", "src/base/Interface.cpp"], [("Solution::set*/addAdjacent/registerChangedCallback", "src/base/Solution.cpp")])

prop("C17", "Linear algebra objects track the matrix they represent",
     "For any history of sizing, setting entries, resetting, factoring, solving and copying, a dense or banded matrix returns the entries last written (zero elsewhere), products and solutions are those of the matrix as it is now, factorisation is redone after any change and never applied to stale entries, and matrices with an empty row or column are reported as singular. "
     "Preconditioners and system Jacobians assembled from sparse updates solve with the matrix last set up, and polynomial fits are the weighted least-squares solution.",
     ["histories", "inputs"], "all histories of edits, factorisations and solves of small matrices", "Tests factor once.",
     ["src/numerics/BandMatrix.cpp", "src/numerics/DenseMatrix.cpp", "src/numerics/AdaptivePreconditioner.cpp", "src/numerics/EigenSparseJacobian.cpp", "src/oneD/MultiJac.cpp", "src/numerics/polyfit.cpp", "include/cantera/base/Array.h"], [("m_factored and pivot state", "BandMatrix, DenseMatrix")])

prop("C18", "Multiphase mixtures account for every species and equilibrate to the minimum",
     "For any set of phases and any history of adding phases, setting moles, mole fractions, temperature and pressure, a multiphase mixture reports species, element and phase moles, indices, charges, enthalpy, energy, heat capacity and volume that are the sums over its phases, and each phase's composition agrees with the mixture; phases changed from outside do not change the mixture unless read back. "
     "Equilibrating a phase (any pair of held properties, any offered solver) or a mixture (fixed T and P with any solver; the other pairs with the Gibbs solver) either arrives at the composition that minimises the Gibbs energy for the elements and held properties given, whatever the composition it starts from, with all phases at the common T and P, or reports an error and leaves the state as it was; pairs a solver does not offer are refused.",
     ["inputs", "histories"], "all phase sets, initial compositions and property pairs", "Tests equilibrate selected mixtures.",
     ["src/equil/MultiPhase.cpp", "src/equil/ChemEquil.cpp", "src/equil/vcs_solve.cpp", "src/equil/MultiPhaseEquil.cpp", "src/thermo/ThermoPhase.cpp"], [("MultiPhase::updatePhases/setMoles/equilibrate", "src/equil/MultiPhase.cpp"), ("ChemEquil::equilibrate", "src/equil/ChemEquil.cpp")])

prop("C19", "Piecewise and composite rate and thermo models select the right piece",
     "For every temperature, pressure and composition, models defined piecewise or from several parts (pressure-dependent Arrhenius tables, Chebyshev polynomials, linear-Burke mixture rates, Troe/SRI/Tsang broadening factors, Blowers-Masel activation energies, two-range and multi-range species polynomials, tabulated Gibbs energies, tabulated interpolation and quadrature) use exactly the piece whose range contains the argument, including at and outside the range ends as documented, interpolate between neighbouring pieces, and combine the parameters given at equal conditions by summation; the order in which pieces are listed and the conditions evaluated before do not matter, and a replaced table is used from the next evaluation on.",
     ["inputs", "histories"], "all tables and all arguments, in particular at the boundaries, in every order of evaluation", "Tests evaluate few interior points of single shipped tables, in one order.",
     ["src/kinetics/PlogRate.cpp", "include/cantera/kinetics/PlogRate.h", "src/kinetics/ChebyshevRate.cpp", "src/kinetics/LinearBurkeRate.cpp", "src/kinetics/Falloff.cpp", "src/kinetics/BlowersMaselRate.cpp", "src/thermo/NasaPoly2.cpp", "src/thermo/Nasa9PolyMultiTempRegion.cpp", "src/thermo/Mu0Poly.cpp", "include/cantera/thermo/ShomatePoly.h", "src/numerics/funcs.cpp"],
     [("PlogRate::updateFromStruct, Nasa9PolyMultiTempRegion::update", "src"), ("LinearBurkeRate::evalFromStruct", "src/kinetics/LinearBurkeRate.cpp")])

prop("C20", "Reaction path diagrams account for each reaction's element flux",
     "For any mechanism state and element, the path diagram links two species exactly when some reaction moves that element between them, with a net and total flux that are the sums over reactions of rate times transferred atoms, so that the flux in and out of each species equals the element's net production from the reactions analysed; including or excluding species, thresholds, scaling and merging diagrams change only what they name.",
     ["inputs", "programs"], "all mechanisms and states", "Tests cover one mechanism.",
     ["src/kinetics/ReactionPath.cpp"], [("ReactionPathBuilder::build, ReactionPathDiagram::add", "src/kinetics/ReactionPath.cpp")])

prop("C21", "A solution written to YAML and read back is the same solution",
     "Any phase definition, with its species, reactions, rates, multipliers of units and user data, when serialised (in any output unit system and precision) and loaded again gives a solution with the same species, thermodynamic properties, reactions, rate constants and transport properties, for every reaction and species model that can be written.",
     ["programs", "configurations"], "all combinations of species models, rate types and output units", "Tests round-trip shipped files in few unit systems.",
     ["src/base/YamlWriter.cpp", "src/kinetics/Reaction.cpp", "src/thermo/Species.cpp", "src/base/Solution.cpp"], [("YamlWriter::toYamlString, getParameters", "src")])

prop("C22", "Interface kinetics honour phase existence, coverages and site balance",
     "For surface and edge mechanisms, coverages sum to one, surface concentrations follow coverage times site density over site size, reaction rates use exactly the concentrations of the phases that are marked existing, reactions are suppressed in the direction that would produce or consume a phase marked absent or unstable, and net production conserves elements and surface sites.",
     ["inputs", "histories"], "all histories of coverages, phase existence flags and states of adjacent phases", "Tests use one surface mechanism in one state.",
     ["src/kinetics/InterfaceKinetics.cpp", "src/thermo/SurfPhase.cpp"], [("setPhaseExistence/updateROP", "InterfaceKinetics")])

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
