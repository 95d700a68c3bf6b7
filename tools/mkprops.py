#!/usr/bin/env python3
"""Write properties.jsonl (kept as a script for readable long lines)."""
import json, os
S = "src/diffpy/srreal/"
D = "src/diffpy/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Cached and incremental evaluation always equals evaluation from scratch",
  "Whatever was done before with a calculator (evaluations of other structures, edits of the structure in place, "
  "explicit structure assignment, changes of ranges, masks, models or tables, evaluator switches, failed evaluations), "
  "a successful evaluation gives the same result as a new calculator with the same configuration that evaluates the "
  "same structure once without any shortcuts. The self-checking evaluator never reports an inconsistency.",
  ["histories", "inputs", "configurations"],
  "for every history of structure edits, evaluations, configuration and mask changes, evaluator and CPU-split changes "
  "and failed evaluations, for every calculator and both half and full pair summation",
  "TestPQEvaluator tries about ten fixed histories on three calculators; the cache decides from tickers, differences "
  "and flags whose combinations occur only in longer histories.",
  [S + "PQEvaluator.cpp", S + "PairQuantity.cpp", S + "StructureDifference.cpp", S + "PDFCalculator.cpp",
   S + "BaseDebyeSum.cpp", S + "DebyePDFCalculator.cpp", S + "BondCalculator.cpp"],
  [("fast update by removal and addition of changed sites", S + "PQEvaluator.cpp PQEvaluatorOptimized::updateValue"),
   ("stash and restore of partial values", S + "PDFCalculator.cpp, BaseDebyeSum.cpp, BondCalculator.cpp")],
  [("last structure", "copy of the structure the current value belongs to"),
   ("value ticker", "time of the last value update, compared to the configuration ticker")],
  ["value returned from eval", "getPDF/getRDF/getF", "bond lists"])

p("C02", "CPU shares partition the pairs; merged shares equal the serial result",
  "When an evaluation is split into shares, every pair of sites contributes to exactly one share for any number of CPUs, "
  "any structure, mask and summation method. Shares merged in any order give the serial result, the result is final "
  "exactly when all shares were merged, and surplus or mis-sized shares are refused.",
  ["inputs", "configurations", "schedules"],
  "for every structure size, CPU count (smaller, equal or larger than the number of sites), mask, merge order and calculator",
  "Only the pair counter is tested with 2..7 CPUs on two structures; the choice between the outer and inner split depends "
  "on the ratio of CPUs and sites and on masks.",
  [S + "PQEvaluator.cpp", S + "PairQuantity.cpp", S + "BondCalculator.cpp", S + "OverlapCalculator.cpp"],
  [("outer/inner loop split by CPU index", S + "PQEvaluator.cpp PQEvaluatorBasic::updateValue"),
   ("merge counter and final step", S + "PairQuantity.cpp mergeParallelData")],
  [("merged count", "number of shares merged since the last reset")],
  ["getParallelData", "mergeParallelData", "value"])

p("C03", "Pair and type masks select exactly the requested pairs",
  "After any sequence of mask calls (all pairs, whole site, single pair, type with type, type with all, inversion) the pairs "
  "that enter the next evaluation are exactly those given by the latest applicable call; masking is symmetric in its arguments, "
  "extends to sites that appear later, and masked pairs never contribute. A single-pair call that contradicts whole-site "
  "masks cancels those whole-site rules for later structures, and type masks and index masks replace each other.",
  ["histories", "inputs"],
  "for every sequence of mask operations interleaved with structure changes and evaluations",
  "TestPairCounter and TestOverlapCalculator use a handful of masks; precedence among overlapping masks and lazy resolution "
  "at structure assignment are history dependent.",
  [S + "PairQuantity.cpp", S + "PQEvaluator.cpp"],
  [("mask storage and precedence", S + "PairQuantity.cpp setPairMask, setTypeMask, invertMask, maskAllPairs"),
   ("resolution to site indices", S + "PairQuantity.cpp updateMaskData")],
  [("default mask", "value for pairs with no rule"), ("whole-site masks", "site index to flag"), ("type masks", "type pair to flag")],
  ["getPairMask", "getTypeMask", "pairs counted by eval"])

p("C04", "Every neighbor in range is enumerated exactly once",
  "For any finite, periodic or crystal structure the bond enumeration from any anchor over any selection of sites yields every "
  "neighbor image whose distance lies in the closed range exactly once with consistent positions, direction, distance and "
  "site indices, and never the anchor itself; coordinates outside of the unit cell, skewed cells and site order do not matter. "
  "Changing anchor, selection or range ends the running enumeration until it is rewound.",
  ["inputs", "histories"],
  "for every lattice, positions, symmetry, anchor, site selection, range and sequence of generator calls",
  "Tests count neighbors of about ten ideal crystals at a few radii; missed images depend on cell shape, position wrapping and range edges.",
  [S + "BaseBondGenerator.cpp", S + "PeriodicStructureAdapter.cpp", S + "CrystalStructureAdapter.cpp", S + "PointsInSphere.cpp", S + "PairCounter.cpp"],
  [("bond iteration", S + "BaseBondGenerator.cpp rewind/next/advanceWhileInvalid"),
   ("lattice points in a spherical shell", S + "PointsInSphere.cpp"),
   ("image buffer around the range", S + "PeriodicStructureAdapter.cpp PeriodicStructureBondGenerator::rewind")],
  [("current site and image", "iteration position")],
  ["BaseBondGenerator accessors", "PairCounter"])

p("C05", "Symmetry expansion gives the orbit of each site and is never stale",
  "For every asymmetric site the equivalent atoms are exactly the distinct images under the symmetry operations modulo lattice "
  "translations, placed in the unit cell with correctly transformed displacements, and site multiplicity and total occupancy agree with them. "
  "This holds at any moment, after any edits of atoms, lattice, operations or precision, and does not depend on the order of operations.",
  ["inputs", "histories"],
  "for every lattice, set of symmetry operations, site positions (including special positions at cell faces) and edit history",
  "Tests expand three crystals once; special positions at cell boundaries and edits between queries are not sampled.",
  [S + "CrystalStructureAdapter.cpp", S + "PeriodicStructureAdapter.cpp"],
  [("expansion and averaging of duplicates", S + "CrystalStructureAdapter.cpp expandLatticeAtom"),
   ("cache of symmetry positions", S + "CrystalStructureAdapter.cpp updateSymmetryPositions")],
  [("symmetry cache", "equivalent atoms per site")],
  ["getEquivalentAtoms", "siteMultiplicity", "totalOccupancy", "bond generator"])

p("C06", "Structure differences turn the old structure into the new one",
  "The difference of two structures lists removed and added sites such that old minus removed equals new minus added as multisets of "
  "atoms, with sorted unique indices; in the index-preserving form the kept atoms have equal indices. Structures that differ in kind, lattice, "
  "symmetry or symmetry precision are reported as completely different, equal objects as equal, and an empty difference is "
  "reported only for structures that compare equal.",
  ["inputs"],
  "for every pair of structures including duplicates, permutations, different lengths, kinds and wrappers",
  "Tests compare a few pairs; the chosen method depends on sizes and duplicates.",
  [S + "StructureDifference.cpp", S + "AtomicStructureAdapter.cpp", S + "PeriodicStructureAdapter.cpp", S + "CrystalStructureAdapter.cpp",
   S + "StructureAdapter.cpp", S + "NoMetaStructureAdapter.cpp", S + "NoSymmetryStructureAdapter.cpp"],
  [("side by side and sorted comparison", S + "AtomicStructureAdapter.cpp diff"),
   ("guards for lattice and symmetry", S + "PeriodicStructureAdapter.cpp, CrystalStructureAdapter.cpp diff")],
  None, ["StructureAdapter::diff"])

p("C07", "Bond lists are complete, sorted and mutually consistent",
  "Bond listing contains every unmasked directed bond in range once, ordered by distance and then by sites, and its distances, directions, "
  "site indices and type lists describe the same bonds entry by entry after any history of evaluations. With cone filters a bond is listed "
  "if and only if it lies within the angle of at least one cone.",
  ["inputs", "histories"],
  "for every structure, range, mask, set of cones and history of evaluations with any evaluator",
  "There is no test of BondCalculator apart from a few evaluator comparisons.",
  [S + "BondCalculator.cpp", S + "AtomUtils.cpp"],
  [("bond store, sort and merge", S + "BondCalculator.cpp finishValue, BondOp"),
   ("cone test", S + "BondCalculator.cpp checkConeFilters")],
  [("bond list", "sorted entries"), ("cone list", "axis and angle")],
  ["distances", "directions", "sites0/1", "types0/1"])

p("C08", "Configuration tickers move on every effective change and only then",
  "Every configuration change that can alter the result of an evaluation, made directly or in an owned component (peak width, profile, scattering "
  "table, masks, cones), makes the calculator's ticker later than all earlier events; setting an equal number does not move it. "
  "Event order is total in time, survives copies and is restored consistently with later events.",
  ["histories", "configurations"],
  "for every sequence of setter calls with equal or different values, on the calculator or on components before or after they are replaced",
  "Ticker tests exist for pair masks and peak widths only; a missing tick shows just as a stale value in rare histories.",
  [D + "EventTicker.cpp", S + "PairQuantity.cpp", S + "PDFCalculator.cpp", S + "DebyePDFCalculator.cpp", S + "BaseDebyeSum.cpp",
   S + "PeakWidthModel.cpp", S + "PeakProfile.cpp", S + "ScatteringFactorTable.cpp", S + "BondCalculator.cpp", S + "ConstantPeakWidth.cpp",
   S + "DebyeWallerPeakWidth.cpp", S + "JeongPeakWidth.cpp"],
  [("global event counter", D + "EventTicker.cpp click, updateFrom"), ("composite tickers", S + "*Calculator.cpp ticker()")],
  [("ticker value", "time of last change")],
  ["ticker()"])

p("C09", "Saved and restored objects behave identically afterwards",
  "Any calculator, structure, table or component that is saved and loaded at any point of its history has the same observable state as the original, "
  "and any further sequence of operations gives the same results on both. Operations on the copy never affect the original.",
  ["histories"],
  "for every object kind, every history before the save point and every continuation after it",
  "Serialization tests save fresh or once evaluated objects and compare a few getters.",
  [D + "serialization.hpp", S + "PairQuantity.hpp", S + "PQEvaluator.hpp", S + "PDFCalculator.hpp", S + "OverlapCalculator.hpp",
   S + "BVParametersTable.hpp", S + "ScatteringFactorTable.hpp", S + "CrystalStructureAdapter.hpp", D + "Attributes.hpp"],
  [("serialize methods", "src/diffpy/**/*.hpp serialize")],
  None, ["getters after reload", "results of continued operations"])

p("C10", "Named attributes mirror the setters and getters they stand for",
  "Reading a named attribute gives the value of the corresponding getter and writing it has the effect of the corresponding setter, including for attributes of "
  "owned components that are currently installed; unknown names and writes to read-only attributes are refused with distinct errors and change nothing. "
  "The listed names are exactly the readable ones and the writable listing is exactly the ones that can be written.",
  ["histories", "configurations"],
  "for every calculator and component, every attribute name and every sequence of component replacements",
  "TestAttributes covers one synthetic class; components are not replaced between accesses.",
  [D + "Attributes.cpp", D + "Attributes.hpp", D + "Attributes.ipp", S + "PDFCalculator.cpp", S + "DebyePDFCalculator.cpp"],
  [("attribute lookup through visitors", D + "Attributes.cpp"), ("delegation to components", S + "PDFCalculator.cpp accept")],
  [("attribute map", "name to accessor")],
  ["getDoubleAttr", "setDoubleAttr", "hasDoubleAttr", "namesOfDoubleAttributes"])

p("C11", "Class registries resolve types and aliases consistently",
  "After any sequence of registrations, aliases and removals every registered type and alias creates a new independent object of that type, unregistered names are "
  "refused, a name cannot be redirected to a different type, and removing a type removes all its aliases and reports how many names vanished. "
  "The lists of types and aliases always match what can be created.",
  ["histories"],
  "for every sequence of register, alias, deregister and create calls on every registry",
  "TestHasClassRegistry walks one sequence for one registry.",
  [D + "HasClassRegistry.hpp", D + "HasClassRegistry.ipp"],
  [("registry maps", D + "HasClassRegistry.ipp registerThisType, aliasType, deregisterType, createByType")],
  [("registry", "name to prototype"), ("aliases", "alias to type")],
  ["createByType", "isRegisteredType", "getRegisteredTypes", "getAliasedTypes"])

p("C12", "Atom radii tables honour custom values and textual round trips",
  "A lookup gives the custom radius if there is one and otherwise the standard value of the table; custom entries change only by explicit calls, "
  "and a radii text is either applied completely or refused without any change. The text written from a table restores the same custom entries with radii to six significant digits, for symbols without the separators colon and comma.",
  ["histories", "inputs"],
  "for every sequence of set, reset, parse and default changes and every comma-separated radii text",
  "TestAtomRadiiTable checks a few texts and sequences.",
  [S + "AtomRadiiTable.cpp", S + "ConstantRadiiTable.cpp"],
  [("custom map and parser", S + "AtomRadiiTable.cpp fromString, toString, lookup")],
  [("custom radii", "symbol to radius")],
  ["lookup", "getAllCustom", "toString"])

p("C13", "Bond valence parameter lookup follows its precedence in either atom order",
  "Lookup of an atom-valence pair gives the custom parameters if set, else the standard ones, else those stored for an unspecified valence of the cation, else none, "
  "and it does not depend on the order of the two atoms. Custom entries appear and vanish only by explicit calls and always shadow the standard ones. "
  "Bond valences at a distance and distances of a valence follow from the parameters found, and symbols and charges in texts are read the same way everywhere.",
  ["histories", "inputs"],
  "for every sequence of set/reset calls and every queried pair of symbols and valences",
  "TestBVParametersTable looks up a few pairs from the distributed data.",
  [S + "BVParametersTable.cpp", S + "BVParam.cpp"],
  [("lookup precedence", S + "BVParametersTable.cpp lookup"), ("canonical order of atoms", S + "BVParam.cpp")],
  [("custom set", "custom parameters"), ("standard set", "parameters from the data file")],
  ["lookup", "getAllCustom", "getAll"])

p("C14", "Scattering factor tables apply custom settings exactly until they are reset",
  "A lookup uses the latest custom setting for the symbol (explicit value or standard curve of another symbol rescaled to it) and otherwise the standard factor; resets restore the standard factor. "
  "The table ticker advances on every effective change of a custom setting and the tables of different calculators are independent.",
  ["histories"],
  "for every sequence of custom settings and resets on every table type and every Q",
  "TestScatteringFactorTable tries single settings.",
  [S + "ScatteringFactorTable.cpp", S + "SFTXray.cpp", S + "SFTNeutron.cpp", S + "SFTElectron.cpp", S + "SFTElectronNumber.cpp"],
  [("custom map", S + "ScatteringFactorTable.cpp setCustomAs, resetCustom, lookup")],
  [("custom factors", "symbol to source symbol and scale")],
  ["lookup", "getCustomSymbols", "ticker"])

p("C15", "Overlaps, coordinations and neighborhoods follow from atom radii",
  "Atoms overlap exactly when their distance is less than the sum of their radii, and the reported overlaps, per-site and total squares, coordination numbers and counts by type follow "
  "from that set of pairs with occupancies and multiplicities. Neighborhoods are the connected components of the overlap relation and no pair out of range or masked takes part.",
  ["inputs", "configurations", "histories"],
  "for every structure, radii table, range, mask and evaluation history",
  "TestOverlapCalculator uses a few ideal crystals.",
  [S + "OverlapCalculator.cpp"],
  [("overlap chunks", S + "OverlapCalculator.cpp addPairContribution"), ("neighborhood merge", S + "OverlapCalculator.cpp neighborhoods")],
  [("overlap data", "distance, direction and sites of close pairs")],
  ["overlaps", "siteSquareOverlaps", "coordinations", "coordinationByTypes", "neighborhoods"])

p("C16", "Predicted effects of atom swaps equal the actual effects",
  "The change of the total and of the mean square overlap predicted for an exchange of the atoms at two sites, i.e., of their radii, equals the change measured after the exchange is really made and evaluated, "
  "and querying a prediction changes nothing.",
  ["inputs", "histories"],
  "for every structure, radii, mask and every pair of exchanged sites",
  "Tests compare two structures.",
  [S + "OverlapCalculator.cpp"],
  [("flip difference", S + "OverlapCalculator.cpp flipDiffTotal, flipDiffMean")],
  None, ["flipDiffTotal", "flipDiffMean"])

p("C17", "Result grids match the requested ranges and all result arrays fit them",
  "The r-grid holds exactly the multiples of the r-step in the requested half-open range and the Q-grid the multiples of the Q-step below the maximum; after an evaluation every result array has the length of its grid, "
  "extended limits enclose the requested ones, and the Q-step used is the requested or the optimum one.",
  ["configurations", "histories"],
  "for every rmin, rmax, rstep, qmin, qmax, qstep, extension and order of setting them",
  "Tests use default ranges and few alternatives.",
  [S + "PDFUtils.ipp", S + "PDFUtils.cpp", S + "PDFCalculator.cpp", S + "DebyePDFCalculator.cpp"],
  [("step counting", S + "PDFUtils.ipp"), ("limit caches", S + "PDFCalculator.cpp cacheRlimitsData, DebyePDFCalculator.cpp updateQstep")],
  [("limits cache", "extended and calculated step counts")],
  ["getRgrid", "getQgrid", "getPDF", "getRDF", "getF", "extendedrmin/max"])

p("C18", "PDF envelopes and baseline compose as the set that is installed",
  "The PDF is multiplied by each installed envelope exactly once in any order of installation, with at most one envelope per type, and removal or clearing takes away exactly those; the baseline is added before the envelopes. "
  "Installed components reflect later changes of their parameters.",
  ["histories", "configurations"],
  "for every sequence of adding, replacing, removing and configuring envelopes and baselines",
  "Tests install one envelope at a time.",
  [S + "PDFEnvelope.cpp", S + "PDFBaseline.cpp", S + "ScaleEnvelope.cpp", S + "StepCutEnvelope.cpp", S + "SphericalShapeEnvelope.cpp", S + "QResolutionEnvelope.cpp",
   S + "LinearBaseline.cpp", S + "ZeroBaseline.cpp", S + "PDFCalculator.cpp"],
  [("envelope owner", S + "PDFEnvelope.cpp applyEnvelopes, addEnvelope, popEnvelope")],
  [("envelopes", "type to envelope")],
  ["usedEnvelopeTypes", "applyEnvelopes", "getPDF"])

p("C19", "Structure wrappers hide exactly one aspect and are otherwise transparent",
  "A structure wrapped to ignore metadata passes everything through except calculator customization, and a structure wrapped to ignore symmetry has the same sites with unit multiplicity and no periodic images; "
  "wrapping twice equals wrapping once and edits of the source show through the wrapper.",
  ["inputs", "histories"],
  "for every structure kind, wrapper nesting and edit history of the source",
  "Tests wrap one structure of each kind.",
  [S + "NoMetaStructureAdapter.cpp", S + "NoSymmetryStructureAdapter.cpp"],
  [("delegation", S + "NoMetaStructureAdapter.cpp, NoSymmetryStructureAdapter.cpp")],
  None, ["StructureAdapter interface of the wrappers", "diff", "bonds"])

p("C20", "Refused requests leave no trace",
  "A call that is refused with an error (invalid range, step or precision, unknown type or attribute, null component, unsupported evaluator, bad CPU count, malformed text, surplus merge) leaves the observable "
  "configuration, tickers and later results exactly as if it had not been made.",
  ["histories", "fault_sequences"],
  "for every calculator, every history and every refused call inserted anywhere in it",
  "Tests check that an exception is thrown, not that the state survived.",
  [D + "validators.hpp", S + "PairQuantity.cpp", S + "PDFCalculator.cpp", S + "DebyePDFCalculator.cpp", S + "PeakWidthModel.cpp", S + "PDFEnvelope.cpp", D + "Attributes.cpp", D + "HasClassRegistry.ipp", S + "AtomRadiiTable.cpp"],
  [("validation before assignment", D + "validators.hpp and the setters")],
  None, ["getters and results after a refused call"])

p("C21", "Bond valence sums add the valence of every bond to both of its ends",
  "The valence sum at each site is the sum over its unmasked neighbors in range of the valence of that bond, shared equally and with the sign of the ion, using the parameters in force for the pair; "
  "mean square deviations follow from those sums and the expected valences weighted by multiplicity and occupancy.",
  ["inputs", "configurations", "histories"],
  "for every structure, table customization, range, mask and evaluation history",
  "Tests check a single ideal crystal.",
  [S + "BVSCalculator.cpp", S + "BVParam.cpp", S + "AtomUtils.cpp"],
  [("valence accumulation", S + "BVSCalculator.cpp addPairContribution"), ("cached site symbols", S + "BVSCalculator.cpp cacheStructureData")],
  None, ["value", "bvdiff", "bvmsdiff"])

p("C22", "Data files are located by the environment first and follow its changes",
  "The directory of data files is the one in the environment variable whenever that is set (normalized, error if it does not exist), otherwise the one belonging to the library, and changes of the variable between "
  "calls take effect at the next call. Standard data are those found by the first successful lookup, and lookups that fail for missing or malformed data leave no trace. "
  "Lines of data are split to the words between separators, blank lines and comments are recognized.",
  ["histories", "configurations"],
  "for every sequence of environment values (unset, empty, existing, missing, symbolic link, trailing slashes) and queries",
  "TestRuntimePath checks one change.",
  [D + "runtimepath.cpp"],
  [("cached lookup", D + "runtimepath.cpp diffpyruntime"), ("standard tables", S + "scatteringfactordata.cpp, BVParametersTable.cpp getStandardSetOfBVParam")],
  [("cached paths", "library and environment directories"), ("standard tables", "data loaded by the first lookup")],
  ["datapath", "standardLookup"])

p("C23", "Each pair gives one peak of the right weight in PDF and Debye sums",
  "Before normalization the pair distribution is the sum over all unmasked pairs of one peak at their distance weighted by the product of scattering factors, occupancies and multiplicity, "
  "normalized by total occupancy and mean scattering factor, and the Debye sum is the sum of the corresponding sine terms over the same pairs, damped by the width. "
  "Widths are those of the selected model for the displacements of both atoms along their bond. "
  "Both are unchanged by permuting sites and by splitting a site into equivalent partial ones.",
  ["inputs", "configurations"],
  "for every structure, occupancies, symmetry, mask, scattering table and range",
  "Tests compare with stored curves of a few structures.",
  [S + "PDFCalculator.cpp", S + "BaseDebyeSum.cpp", S + "DebyePDFCalculator.cpp"],
  [("peak accumulation", S + "PDFCalculator.cpp addPairContribution"), ("normalization", S + "PDFCalculator.cpp getExtendedRDF, cacheStructureData"),
   ("sine sum", S + "BaseDebyeSum.cpp addPairContribution, cacheStructureData")],
  None, ["getRDF", "getF"])

p("C24", "Structure containers behave as sequences and derived quantities follow",
  "Structures edited by inserting, appending, assigning, removing and replacing atoms hold exactly the resulting sequence; per-site properties, total occupancy and number density follow from it, equality compares the contents, "
  "and a clone is equal and independent of later edits.",
  ["histories"],
  "for every sequence of container operations on finite, periodic and crystal structures",
  "Tests perform single operations.",
  [S + "AtomicStructureAdapter.cpp", S + "AtomicStructureAdapter.hpp", S + "StructureAdapter.cpp", S + "PeriodicStructureAdapter.cpp", S + "AtomUtils.cpp"],
  [("atom vector", S + "AtomicStructureAdapter.cpp"), ("derived quantities", S + "StructureAdapter.cpp")],
  [("atoms", "sequence of atoms")],
  ["StructureAdapter interface", "operator=="])

p("C25", "Lattices, points in range and numeric helpers follow their definitions",
  "After any sequence of settings by cell parameters or base vectors (own vectors of the lattice included), copies and restorations, all derived quantities of a lattice agree with its base matrix: lengths, angles and their sines and cosines, volume, "
  "metric tensor, reciprocal lattice, sets of parameters and their reciprocals, standard orientation and rotation, which cell parameters keep; left-handed and degenerate bases are refused and change nothing. Products, norms, distances, angles (of parallel vectors too) and conversions "
  "of vectors and tensors between fractional and Cartesian coordinates follow from the base, and conversions back restore the input. PointsInSphere and the reflection iterators visit every lattice point within the limits exactly once and again after rewind. "
  "Vector and matrix functions, sines and arcsines in degrees (exact at multiples of 30 degrees), tolerant comparisons and fast sine transforms of values that start at any step equal their definitions.",
  ["histories", "inputs"], "for every history of lattice settings and every argument of the functions",
  "Tests compare a few lattices and values, and never set a lattice by refused vectors or by its own vectors.",
  [S + "Lattice.cpp", S + "Lattice.hpp", S + "PointsInSphere.cpp", S + "R3linalg.cpp", S + "R3linalg.hpp", S + "PDFUtils.cpp", D + "mathutils.ipp"],
  [("lattice settings", S + "Lattice.cpp setLatPar, setLatBase"), ("enumeration", S + "PointsInSphere.cpp"), ("transforms", S + "PDFUtils.cpp fftgtof, fftftog")])

p("C26", "Standard tables hold the distributed data for every symbol",
  "The standard x-ray, electron and neutron scattering factors, the electron numbers and the bond valence parameters equal the distributed data for every atom and ion in them, for any notation of the ion, "
  "the electron factors follow from the x-ray ones, and symbols that are not in the data are refused. The radii of a constant radii table are its default for every symbol.",
  ["inputs", "histories"], "for every symbol and ion in the distributed data, every notation of it and every Q",
  "Tests look up a few symbols.",
  [S + "scatteringfactordata.cpp", "src/runtime/f0_WaasKirf.dat", "src/runtime/nsftable.dat", "src/runtime/bvparm2011sel.cif", S + "BVParametersTable.cpp", S + "SFTXray.cpp", S + "SFTElectron.cpp", S + "SFTNeutron.cpp"],
  [("readers of the data files", S + "scatteringfactordata.cpp fxrayatq, nscatteringlength; BVParametersTable.cpp getStandardSetOfBVParam")],
  [("standard data", "symbol to factors")],
  ["standardLookup", "lookup", "BVParametersTable::lookup"])

p("C27", "Peak width and profile models follow their formulas for all parameters",
  "The constant, Debye-Waller and Jeong peak widths of a bond and the largest width they report for a structure and range, the values of Gaussian and cropped Gaussian profiles and the bounds beyond which they are below the "
  "requested precision follow the documented formulas for any parameters, including zero or negative widths and corrections, where widths and profiles are zero and finite. Clones and restored models give the same values.",
  ["inputs", "histories"], "for every history of parameter changes, every model, bond, width and offset",
  "Tests evaluate default or few parameters.",
  [S + "ConstantPeakWidth.cpp", S + "DebyeWallerPeakWidth.cpp", S + "JeongPeakWidth.cpp", S + "GaussianProfile.cpp", S + "CroppedGaussianProfile.cpp"],
  [("width of a bond", S + "*PeakWidth.cpp calculate, maxWidth"), ("profile values and bounds", S + "*Profile.cpp operator(), xboundlo, xboundhi")],
  [("model parameters", "values of attributes")],
  ["calculate", "maxWidth", "operator()", "xboundlo", "xboundhi"])

p("C28", "Converted ObjCryst objects have the atoms and symmetry of their source",
  "A structure created from an ObjCryst crystal has one site for each scattering component that is not a dummy, in their order, with the type, position, occupancy and displacement parameters of the source at the time of the "
  "conversion, and exactly the symmetry operations of its space group, including centering translations and inversion centers off the origin; a structure created from a molecule has its atoms. Calculators that evaluate "
  "the ObjCryst objects directly give the results of the converted structure, and later edits of the source change no converted structure.",
  ["inputs", "histories", "configurations"], "for every space group and setting, cell, list of scattering powers and scatterers, dummy and history of edits and conversions",
  "Tests convert five crystals whose inversion centers are at the origin and one molecule.",
  [S + "ObjCrystStructureAdapter.cpp", S + "ObjCrystStructureAdapter.hpp", S + "CrystalStructureAdapter.cpp"],
  [("operations of the space group", S + "ObjCrystStructureAdapter.cpp fetchSymmetryOperations"), ("conversion", S + "ObjCrystStructureAdapter.cpp createStructureAdapter")],
  [("sites and operations", "copies of those in the source")],
  ["createStructureAdapter", "eval(ObjCryst object)"])

p("C29", "PDF and Q-space function are sine transforms of each other within Q limits",
  "After an evaluation F(Q) of a PDF calculator is the sine transform of the radial distribution with baseline over the extended range, and the PDF is the product of envelopes and the inverse transform of F limited to qmin <= Q < qmax, "
  "or of the distribution itself when there are no Q limits. The PDF of a Debye calculator is the inverse transform of its F from qmin, interpolated to the r-grid, and its RDF is that from Q zero. Changes of qmin, envelopes and baseline "
  "appear in the results at once.",
  ["inputs", "histories", "configurations"], "for every combination of grids, Q limits, envelopes and baselines and every history of their changes",
  "Tests compare few configurations with stored results.",
  [S + "PDFCalculator.cpp", S + "DebyePDFCalculator.cpp", S + "BaseDebyeSum.cpp", S + "PDFUtils.cpp", S + "PDFUtils.ipp"],
  [("transforms", S + "PDFUtils.cpp fftgtof, fftftog"), ("Q limits and padding", S + "PDFCalculator.cpp getExtendedPDF, getExtendedF; DebyePDFCalculator.cpp getPDFAtQmin")],
  [("evaluated pair sums", "radial distribution or Debye sum")],
  ["getPDF", "getF", "getExtendedPDF", "getExtendedF", "getRDFperR"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fp.write(json.dumps(x) + "\n")
print(len(P))
