#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property catalogue)."""
import json, os, re

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Time stepping visits exactly the prescribed instants and ends at stop time",
  "For a time-stepping scheme with given start time, stop time and list of increments (segments, per-step tables, "
  "adaptive limits), stepping increases the step counter by one and the time by the increment in force, lands exactly "
  "on every segment end and on the stop time, never goes beyond the stop time and reports completion exactly then. "
  "A cut-back rolls the last step back to its starting time and retries with a smaller increment, and is refused when "
  "the increment would get below the minimum. The instants prescribed after a cut-back are still all reached.",
  ["histories", "inputs"],
  "all start/stop times and increment tables, and all sequences of advance / cut-back / adaptive-increase calls",
  "The suite has no test of the time stepper at all; the guarantee quantifies over every interleaving of steps, "
  "convergence failures and segment ends.",
  ["src/SIM/TimeStep.C", "src/SIM/TimeStep.h", "src/ASM/TimeDomain.h"],
  [("increment/cutback/finished", "TimeStep.C"), ("segment iterator", "TimeStep::stepIt"), ("parse", "TimeStep.C")],
  [("step,time.t,time.dt", "current step number, time and increment", "TimeStep"),
   ("mySteps,stepIt,lstep", "increment table and position in it", "TimeStep")],
  ["TimeStep public members after each call"])

prop("C02", "A restored time stepper continues exactly as the saved one",
  "Saving the time-stepping state in the middle of a run, and restoring it into a freshly configured stepper, gives "
  "a stepper with the same step number, time and increment, whose every later step, cut-back and completion report is "
  "the same as that of the stepper which was saved.  Re-initialising, copying or rewinding to a given step number "
  "similarly reproduces the prescribed instants for that step.",
  ["histories", "crash_points"],
  "every prefix of every history of steps/cut-backs as the point where the state is saved",
  "No test restores a time stepper; the crash point and the history before it are both quantified.",
  ["src/SIM/TimeStep.C", "src/SIM/SIMSolver.h"],
  [("serialize/deSerialize", "TimeStep.C"), ("reset", "TimeStep.C"), ("operator=", "TimeStep.C")],
  [("serialized map", "key/value archive of the stepper", "TimeStep::serialize")],
  ["members after restore and after each later call"])

prop("C03", "Chained linear constraints resolve to the composed equation in free unknowns",
  "Resolving a set of multi-point constraints, in which a master of one equation may itself be constrained, gives for "
  "every constrained unknown the exact linear combination of unconstrained unknowns plus offset which the chain "
  "prescribes, whatever the order in which the equations were added. Constant contributions of prescribed masters are "
  "accounted for, fixed masters contribute nothing, and when prescribed values change between increments the updated equations "
  "make the constraints hold for the new values after the increment, from whatever previous solution.",
  ["inputs", "histories"],
  "all sets of constraint equations without circular references (with chains, shared masters, fixed and prescribed masters) in every insertion order",
  "The unit tests for chains need a spline patch and are not part of the buildable suite; they sample a few fixed models.",
  ["src/ASM/ASMbase.C", "src/LinAlg/MPC.C", "src/LinAlg/MPC.h"],
  [("resolveMPCchains/resolveMPCchain", "ASMbase.C"), ("mergeAndGetAllMPCs", "ASMbase.C"), ("addMaster/updateMaster", "MPC.h")],
  [("mpcs", "set of constraint equations, ordered by slave", "ASMbase"), ("dCode", "prescribed-value table", "ASMbase")],
  ["MPC objects after resolution"])

prop("C04", "Equation numbering is a bijection between free unknowns and equations",
  "After preprocessing, every unknown of every node is either free, fixed or a constrained slave; the free ones are "
  "numbered 1..N without holes or duplicates, fixed ones have no equation, and every slave refers to its own constraint "
  "equation, also when two models are merged into one. The element-to-node, node-to-unknown and constraint tables reproduce the model's elements, nodes and constraint "
  "equations exactly, and per-element, per-node and whole-model queries of equations, couplings and node types agree with them.",
  ["inputs", "configurations"],
  "all models: element connectivities, variable number of unknowns per node, boundary codes and constraint sets",
  "The numbering test needs a spline patch and is excluded from the buildable suite.",
  ["src/LinAlg/SAM.C", "src/ASM/SAMpatch.C"],
  [("initSystemEquations", "SAM.C"), ("initNodeDofs/initElementConn/initConstraintEqs", "SAMpatch.C"), ("getElmEqns/getNodeEqns/getDofCouplings", "SAM.C")],
  [("madof,msc,mpmnpc,mmnpc,mpmceq,mmceq,ttcc,meqn", "the control arrays of the numbering", "SAM")],
  ["public queries of the numbering object"])

prop("C05", "Global assembly equals constrained projection of the element contributions",
  "The assembled system matrix and right-hand side equal the sum over elements of the element contributions projected "
  "through the constraint equations (with prescribed values moved to the right-hand side), independent of the order in "
  "which elements are assembled. Expanding an equation-order vector to all unknowns satisfies every constraint equation "
  "exactly and gives fixed unknowns zero, and reaction forces equal the un-projected residual of the constrained unknowns.",
  ["inputs", "histories"],
  "all models with constraints, all element matrices, every assembly order",
  "Existing tests assemble one or two small hand-made models without prescribed multi-master constraints.",
  ["src/LinAlg/SAM.C", "src/LinAlg/SystemMatrix.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/SparseMatrix.C", "src/ASM/AlgEqSystem.C"],
  [("assembleSystem", "SAM.C"), ("assemble", "DenseMatrix.C, SparseMatrix.C"), ("expandVector/expandSolution", "SAM.C")],
  [("system matrix, rhs, reaction container", "assembled quantities", "SAM/SystemMatrix")],
  ["dense image of the system matrix, right-hand side, reaction and expanded solution vectors"])

prop("C06", "All matrix formats represent the same matrix under every operation history",
  "Dense, diagonal (for diagonal content) and every sparse storage format give the same coefficient values, products, "
  "norms and sums for the same sequence of resize, initialise, assemble, add, scale and truncate operations. Converting "
  "between editable and optimised storage, re-initialising for a new assembly or copying never changes, loses or "
  "resurrects a coefficient.",
  ["histories"],
  "all sequences of matrix operations on all formats",
  "The tests cover single operations from a fresh state; format conversion combined with later operations is not reached.",
  ["src/LinAlg/SparseMatrix.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/DiagMatrix.C", "src/LinAlg/SystemMatrix.h"],
  [("optimiseRows/optimiseCols/SLU/UMF", "SparseMatrix.C"), ("initAssembly/init", "all formats"), ("add/mult/multiply", "all formats")],
  [("elem,IA,JA,A,editable,factored", "storage of the sparse matrix", "SparseMatrix")],
  ["coefficient values through the public accessors, products with unit vectors"])

prop("C07", "Every solve answers for the coefficients assembled last",
  "Solving a linear system returns the solution of the system as assembled since it was last initialised, whether the "
  "matrix is new, reassembled with the same or a different pattern, or re-used for further right-hand sides. A stale "
  "factorisation, pivot vector or preconditioner is never used, and a singular or incompatible system is reported as failure.",
  ["histories"],
  "all sequences of initialise / assemble / solve / re-solve / reassemble with same or new pattern, for each solver back-end",
  "Tests solve each matrix once; re-use after re-assembly is exactly what time stepping does and is not tested.",
  ["src/LinAlg/DenseMatrix.C", "src/LinAlg/SparseMatrix.C", "src/LinAlg/DiagMatrix.C", "src/LinAlg/ISTLMatrix.C"],
  [("solve", "each format"), ("factored/ipiv/umfSymbolic/slu data", "each format")],
  [("factored flag", "whether the stored factors are those of the current coefficients", "SparseMatrix/DenseMatrix")],
  ["solution vectors and return status"])

prop("C08", "Parallel element groups cover each element once and never share a node",
  "The thread-group colouring used for parallel assembly lists each element of the patch exactly once, and two elements "
  "which are processed concurrently by different threads never touch a common node, for every mesh size, polynomial order "
  "and thread count. Hence every interleaving of the concurrent assembly gives the same result as the sequential one.",
  ["schedules", "configurations"],
  "all one-, two- and three-dimensional structured and unstructured meshes, thread counts and strip directions; all thread interleavings",
  "Tests compare four fixed partitionings; races need particular sizes, thread counts and schedules.",
  ["src/Utility/ThreadGroups.C", "src/Utility/ThreadGroups.h", "src/ASM/ASMbase.C"],
  [("calcGroups", "ThreadGroups.C"), ("multiColoring", "ThreadGroups.C"), ("oneGroup/oneStripe/applyMap/filter", "ThreadGroups.C")],
  [("tg[color][thread]", "elements each thread handles in each colour", "ThreadGroups")],
  ["the groups returned for a mesh"])

prop("C09", "The nonlinear solver reports convergence only for a converged iteration",
  "The equilibrium iteration reports success only when the last iteration's residual norm is within the tolerance, "
  "divergence when the norm grew beyond the divergence limit or the iteration limit was exhausted, and failure on any "
  "assembly or solver error, for every sequence of norms. Tangent updating, line search and iteration counting follow the "
  "configured numbers, and several solvers in one process do not influence each other.",
  ["histories", "fault_sequences"],
  "all sequences of iteration norms, solver failures and configurations of the iteration limits, for one or several solvers",
  "Tests run converging linear problems only; rejected, slow, divergent and faulty iterations are never taken.",
  ["src/SIM/NonLinSIM.C", "src/SIM/MultiStepSIM.C", "src/SIM/NewmarkSIM.C", "src/SIM/NewmarkNLSIM.C"],
  [("solveStep/checkConvergence", "NonLinSIM.C, NewmarkSIM.C"), ("lineSearch", "NonLinSIM.C")],
  [("iter, refNorm, convergence flags", "iteration state", "NonLinSIM/TimeStep")],
  ["sequence of assemble/solve/norm calls issued and status returned"])

prop("C10", "Time integration keeps displacement, velocity and acceleration consistent",
  "After every converged step of the one-step second-order time integrators, the new displacement, velocity and "
  "acceleration fulfil the method's update formulas relative to the accepted state of the previous step and balance the equation of motion. "
  "The accepted state is kept unchanged while the step is iterated, a run continued from restart data proceeds as the uninterrupted one, and the "
  "integration parameters used by element and system level are the same.",
  ["histories", "inputs"],
  "all step sequences with varying increments, sub-iterations and restarts; all admissible method parameters",
  "Tests check a few end values of two oscillators with constant increments and no cut-back.",
  ["src/SIM/NewmarkSIM.C", "src/SIM/NewmarkNLSIM.C", "src/SIM/HHTSIM.C", "src/SIM/GenAlphaSIM.C", "src/ASM/NewmarkMats.C", "src/ASM/HHTMats.C"],
  [("predictStep/correctStep", "NewmarkSIM.C"), ("advanceStep", "NewmarkSIM.C"), ("setSolution/solution stack", "SIMsolution.C")],
  [("solution[]", "displacement, velocity, acceleration at current and previous steps", "SIMsolution")],
  ["solution vectors after each phase"])

prop("C11", "The simulation driver executes and saves the prescribed steps exactly once",
  "The transient driver solves every time step exactly once in order, saves the initial state and then the results at the configured stride "
  "(and, for restart states, at their own stride) with consecutive numbering, and stops with "
  "an error status exactly when a solve or an output failed. A run which is restarted from a saved state performs exactly the remaining steps, on the mesh of that state, "
  "and continues the results from the level of that state.",
  ["histories", "fault_sequences", "crash_points"],
  "all time-step schemes, save strides, failing operations and restart points",
  "There is no test of the driver loop; the fault position and restart point are quantified.",
  ["Apps/Utils/SIMSolver.h", "Apps/Utils/SIMSolverTS.h", "Apps/Utils/SIMSolverAdap.h"],
  [("solveProblem/saveState/handleRestart", "SIMSolver.h")],
  [("step, geoBlk, nBlock", "progress of the driver", "SIMSolver")],
  ["recorded calls to the simulator and the exporters"])

prop("C12", "Restart and result files give back exactly what was written at each level",
  "Every time level written to a restart or result file is read back bit-identical as last written, the default read of a restart file gives the highest "
  "level, levels are numbered consecutively by the write sequence with the configured stride, and appending after re-opening preserves the other levels. "
  "A missing or unreadable level, field or file is reported as failure and leaves the requested data untouched.",
  ["histories", "crash_points", "inputs"],
  "all sequences of write / re-open / append / read of arbitrary keys, byte strings and field vectors",
  "No test writes and re-reads a restart file.",
  ["src/Utility/HDF5Restart.C", "src/Utility/HDF5Writer.C", "src/Utility/HDF5Reader.C", "src/Utility/HDF5Base.C"],
  [("writeData/readData/dumpStep", "HDF5Restart.C"), ("openFile/closeFile", "HDF5Base.C")],
  [("file groups per level", "stored levels", "HDF5 file")],
  ["data maps and field vectors read back, return values"])

prop("C13", "Registered result fields are exported at every due time level exactly once",
  "Each registered field is handed to every registered writer at each time level at which it is due - enabled, until written if only once - exactly once, "
  "in an order independent of the registrations, between one opening and one closing of that level. The level number "
  "increases by one per written level and skipped steps write nothing; unregistered, mistyped or undefined fields never corrupt the others.",
  ["histories", "configurations"],
  "all sequences of registrations, results flags, strides and dump calls, with any number of writers",
  "No test exercises the exporter.",
  ["src/Utility/DataExporter.C", "src/Utility/DataExporter.h"],
  [("dumpTimeLevel/registerField/setFieldValue", "DataExporter.C")],
  [("m_entry,m_level,m_ndump,m_infoReg", "registered fields and progress", "DataExporter")],
  ["calls received by a recording writer"])

prop("C14", "Coupled simulators advance in lock-step and agree on success",
  "A coupled simulation performs each life-cycle operation on all its parts in the documented order, for each time step "
  "and staggering iteration, and reports success only if every part succeeded. The iteration between parts ends "
  "when both converge or at the iteration limit, a divergence or failure of any part is reported for the whole, and shared fields are "
  "registered such that each part reads its partner's current values.",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of life-cycle calls and outcomes (success, slow, diverged, failure) of the parts",
  "One test checks a single call forwards to both parts; outcomes and iteration are not varied.",
  ["Apps/Utils/SIMCoupled.h", "Apps/Utils/SIMCoupledSI.h", "src/SIM/SIMdependency.C"],
  [("solveStep", "SIMCoupled.h, SIMCoupledSI.h"), ("registerDependency/extractPatchDependencies", "SIMdependency.C")],
  [("staggering iteration counter and statuses", "progress", "SIMCoupledSI")],
  ["recorded calls on scripted sub-solvers and the combined status"])

prop("C15", "Solution history shifts by exactly one step and survives save and restore",
  "Advancing a simulator shifts the stored solutions by exactly one step, so that entry k always is the solution accepted k steps ago, "
  "with no entry lost or duplicated. Saving and restoring the solution state under a simulator's name reproduces all entries exactly, for "
  "several simulators in one archive, and a missing or incomplete archive is refused.",
  ["histories", "crash_points"],
  "all sequences of initialise / solve / advance / save / restore with any number of stored steps and simulators",
  "The tests advance one hand-made stack once.",
  ["src/SIM/SIMsolution.C", "src/SIM/SIMsolution.h", "src/SIM/MultiStepSIM.C"],
  [("pushSolution/saveSolution/restoreSolution", "SIMsolution.C")],
  [("solution", "stack of solution vectors", "SIMsolution")],
  ["solution vectors"])

prop("C16", "Input files are processed completely, once, with priority tags first",
  "Every element of the input document, with included files expanded in place to any depth, is offered to the simulator exactly once in "
  "document order, except that priority elements are processed first. A missing or malformed file, a "
  "rejected element or a runaway inclusion makes loading report failure, and command-line options take precedence over file contents.",
  ["inputs", "fault_sequences"],
  "all document trees with nested inclusions, priority tags and rejecting elements",
  "Tests read one small file without includes.",
  ["src/SIM/XMLInputBase.C", "src/SIM/SIMadmin.C", "src/SIM/SIMoptions.C"],
  [("injectIncludeFiles/loadXML/readXML", "XMLInputBase.C"), ("getPrioritizedTags", "SIMadmin")],
  [("document tree", "parsed XML", "XMLInputBase")],
  ["elements offered to a recording simulator, return status"])

prop("C17", "Adaptive refinement marks the worst elements and terminates at its limits",
  "Each adaptive cycle marks the elements with the largest error indicators - or all above the configured threshold - and "
  "never refines an element with a smaller error while leaving out one with a larger. The cycle stops when the accuracy, the step limit or the size limit is reached, "
  "and reports why, without ever refining beyond a limit.",
  ["inputs", "configurations", "histories"],
  "all error distributions (with ties and zeros), threshold types and limits",
  "One test with one distribution.",
  ["src/SIM/AdaptiveSetup.C", "src/SIM/AdaptiveSIM.C"],
  [("calcRefinement", "AdaptiveSetup.C")],
  [("errors, threshold, limits", "refinement decision", "AdaptiveSetup")],
  ["list of elements to refine, status"])

prop("C18", "Merging and renumbering nodes preserves the mesh topology",
  "Collapsing coinciding nodes and closing the holes in the global numbering gives consecutive node numbers 1..N, "
  "in which two local nodes have the same number exactly when they were merged (directly or through a chain of merges), and every "
  "constraint, boundary code and element refers to the same physical node as before, independent of patch order.",
  ["histories", "inputs"],
  "all multi-patch node sets and all merge sequences",
  "Renumbering is only tested through spline models outside the buildable suite.",
  ["src/ASM/ASMbase.C", "src/SIM/SIMinput.C", "src/SIM/SIMbase.C"],
  [("renumberNodes", "ASMbase.C"), ("mergeNodes/collapseNodes", "ASMbase.C, ASMs*")],
  [("MLGN, MLGE", "local-to-global tables", "ASMbase")],
  ["global node numbers by local index"])

prop("C19", "Domain decomposition is a partition with consistent global equation numbers",
  "Splitting a structured grid into subdomains lists each equation of the grid in at least one of them, and neighbouring subdomains share exactly the "
  "requested number of grid layers (or all of a smaller subdomain), for all equation blocks. The orders of nodes and elements along two matching sides put "
  "coinciding ones at the same place for every relative orientation, and neighbour tables and ghost connections across sides are complete and symmetric. "
  "The local-to-global equation map of each block is a one-to-one numbering from its reported smallest to its largest number, and depends only on the last setup.",
  ["configurations", "histories"],
  "all grid sizes, subdomain counts, overlaps, blocks and boundary orientations",
  "Tests compare a few fixed grids.",
  ["src/ASM/DomainDecomposition.C", "src/ASM/DomainDecomposition.h"],
  [("calcSubdomains", "DomainDecomposition.C"), ("OrientIterator", "DomainDecomposition.C")],
  [("subdomains", "nodes or elements of each subdomain", "DomainDecomposition")],
  ["subdomain lists and interface orders"])

prop("C20", "Functions of time and space have the prescribed values for every argument",
  "Piece-wise linear, ramp, step, impulse, periodic and expression functions of time, their products with functions of space, and weighted sums of them, have "
  "the prescribed values (the tabulated value at tabulated arguments, linear between, the end values beyond) and derivatives, independently of "
  "the order of the queries. A function parsed from text has the values of the one built directly, with its amplitude, and invalid expressions yield no function. "
  "A function reported as zero or time-independent is so for all arguments.",
  ["inputs", "histories"],
  "all tables, parameters, arguments and query orders",
  "Tests sample a few instants of a few functions in increasing order.",
  ["src/Utility/Functions.C", "src/Utility/Functions.h", "src/Utility/ExprFunctions.C", "src/SIM/FunctionSum.C"],
  [("evaluate", "Functions.C"), ("parseRealFunc", "Functions.C")],
  [("search of the interval", "interpolation between neighbours", "LinearFunc")],
  ["function values", "derivatives", "zero and constant flags"])

prop("C21", "Integrators of first-order systems combine the right evaluations and weights",
  "Explicit and embedded Runge-Kutta, Adams-Bashforth and Adams-Moulton methods evaluate the right-hand side at the times and solutions prescribed by the method, with "
  "boundary values for these times, also during start-up and after a restart, and the new solution is the prescribed combination of these evaluations. A step rejected by the "
  "error estimate is redone from the solution at its start with a smaller step, and a failed evaluation is reported. Backward differences have the coefficients, "
  "extrapolation and element matrices of their order, also in the first steps and with changed step sizes.",
  ["histories", "faults", "configurations"],
  "all methods, start-up, restart and rejection histories, and failures of any evaluation",
  "Tests compare the final error of a scalar problem for a few methods with a constant step.",
  ["Apps/Utils/TimeIntUtils.C", "Apps/Utils/SIMExplicitRK.h", "Apps/Utils/SIMExplicitRKE.h", "Apps/Utils/SIMExplicitLMM.h", "Apps/Utils/SIMImplicitLMM.h", "src/Utility/BDF.C", "src/ASM/BDFMats.C"],
  [("solveStep, solveRK", "SIMExplicit*.h, SIMImplicitLMM.h"), ("advanceStep", "BDF.C")],
  [("RK", "the tableau", "SIMExplicitRK"), ("loads", "earlier evaluations", "SIMExplicitLMM"), ("coefs", "difference coefficients", "TimeIntegration::BDF")],
  ["times, boundary values and solutions of the evaluations", "the solution", "step success"])

prop("C22", "Systems of several matrices and vectors are sums of element contributions",
  "Each matrix, vector and scalar quantity of an algebraic system, and its reaction forces, is the sum of the corresponding element contributions for every assembly order, number of threads, "
  "re-initialisation, copy and sum of systems. A statically condensed system and the recovery from it are equivalent to the full one. Element matrices made of blocks have each block, and its mirror "
  "image when symmetric or skew, at the unknowns of the block; nodal forces are the sums over the elements, and norms are summed by group with the final operation applied once.",
  ["histories", "inputs", "schedules"],
  "all assembly histories, block layouts and retained nodes",
  "Tests assemble one matrix and vector, once, in one order.",
  ["src/ASM/AlgEqSystem.C", "src/ASM/BlockElmMats.C", "src/ASM/GlbForceVec.C", "src/ASM/GlbNorm.C"],
  [("assemble, copy, add, staticCondensation, recoverInternals", "AlgEqSystem.C"), ("getNewtonMatrix", "BlockElmMats.C")],
  [("A, b, c, R", "matrices, vectors, scalars and reactions", "AlgEqSystem"), ("F", "nodal forces", "GlbForceVec")],
  ["matrices (by multiplication), vectors, scalars, reactions", "condensed matrix and recovered solution", "nodal forces and norms"])

prop("C23", "Runtime control commands reach their receivers exactly once, in order",
  "Each command sent through the control pipe of a running simulation is delivered exactly once, in the order sent, to the first component registered for its context, "
  "whatever the number and size of the messages waiting when the pipe is polled. Commands for unknown contexts and malformed messages have no effect on later ones. "
  "A pipe which cannot be created or opened is reported, and none is left behind when the control is closed.",
  ["histories", "inputs", "faults"],
  "all sequences of registrations, messages and polls",
  "The test sends one short message.",
  ["src/Utility/ControlFIFO.C", "src/IFEM.C"],
  [("poll, open", "ControlFIFO.C")],
  [("callbacks", "receivers by context", "ControlFIFO")],
  ["commands received", "result of opening", "the pipe in the file system"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert len(re.findall(r"[.]( |$)", p["statement"])) <= 3, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
