#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed). Run in /verif after a change here."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mech(*l): return [{"name": n, "where": w} for n, w in l]
def state(*l): return [{"name": n, "meaning": m, "where": w} for n, m, w in l]

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, st=(), technique="", note="", level="model_checking", hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": mech(*mechanism), "state": state(*st), "observe_at": observe, "hook_needed": hook},
        technique=technique, note=note, level=level))

D = "deflect/"
SPACE = "explicit-state exploration of the space of structures (edits of 24 templates up to a depth bound), every state run on the real code against an independent reference model"

prop("C01", "Nodal displacements and support reactions are exact",
 "For every stable plane frame, plane truss or space truss, with any combination of nodal loads, loads along elements, releases, materials, prescribed displacements and inclined supports, the analysis returns a result, and every nodal displacement and rotation equals the exact solution of linear-elastic bar and Euler-Bernoulli beam theory in the documented sign conventions. The reaction at every supported degree of freedom is the exact support force or moment. Results only depend on the structure: not on the names of nodes and elements or on which end of an element comes first.",
 ["inputs", "configurations"], "for all structures, loads, releases, supports, materials, orientations and names",
 "The tests compare a few dozen fixed structures to tabulated values; an error that needs a particular combination (orientation, release, load kind, support) is not among them.",
 [D+"linear_bvp_solver.go", D+"eq_layout.go", D+"frame.go", D+"beam2d.go", D+"truss2d.go", D+"truss3d.go", D+"static_condensation.go", D+"inclined_support.go"],
 [("partitioned solution and recovery of reactions", D+"linear_bvp_solver.go:Solve"), ("element stiffness and consistent loads", D+"beam2d.go, "+D+"truss2d.go, "+D+"truss3d.go"), ("static condensation of released ends", D+"static_condensation.go"), ("rotation of inclined supports", D+"inclined_support.go")],
 ["ProblemResult.Primary/PrimaryAll", "ProblemResult.Reaction/ReactionAll"],
 [("global system", "stiffness matrix, residual and primary vector, partitioned by constraint", D+"linear_bvp_solver.go")],
 SPACE, "States: structures reachable from the templates by sets of edits (loads, releases, supports, settlements, inclined supports, kinds, orientation, materials, rotation, names). Every state is executed on the real code and compared with the reference model: independent formulation (quadrature, private hinge unknowns, Lagrange multipliers, full pivoting). Bounded by templates, menus and edit depth.")
prop("C02", "Every element, every node and the whole structure are in equilibrium",
 "In every result, the inner forces at both ends of each element balance the loads on that element, the end forces of all elements at a node balance the loads and the reaction at that node in every direction, and loads and reactions of the whole structure have no resultant force or moment. There is no reaction where nothing is supported.",
 ["inputs", "configurations"], "for all stable structures and load combinations",
 "Equilibrium is never asserted by the tests, only individual numbers; it has to hold for every structure and every load combination.",
 [D+"linear_bvp_solver.go", D+"frame.go", D+"beam2d.go", D+"truss2d.go", D+"truss3d.go", D+"solver_result.go"],
 [("reactions from the constrained rows", D+"linear_bvp_solver.go:Solve"), ("inner forces from loads and end displacements", D+"beam2d.go, "+D+"truss2d.go")],
 ["ProblemResult.Reaction", "ProblemResult.Interpolate"], (),
 SPACE + "; the oracle is equilibrium of the outputs themselves", "Oracle uses only outputs and given loads; the reference model merely decides stability and supplies the magnitude for the tolerance.")
prop("C03", "Displacements and inner forces along elements are exact",
 "For every element of every stable structure, the returned piecewise polynomials of axial and lateral displacement, rotation, normal force, shear force and bending moment equal the exact solution at every point of the element, including jumps at concentrated loads and moments. The pieces tile the element from its start to its end without gaps or overlaps, and exactly the functions the element kind defines are returned, once each. A positive zero tolerance alters coefficients by no more than that (absolutely or relatively), leaves no trailing coefficients below it, and unites pieces if all of them are equal.",
 ["inputs", "configurations"], "for all elements, load combinations and positions along the element",
 "Tests evaluate a few points of a few elements; the functions have to be right everywhere, for any order, number and position of loads.",
 [D+"frame.go", D+"beam2d.go", D+"truss2d.go", D+"truss3d.go", D+"polynomial.go", D+"solver_result.go"],
 [("superposition of load contributions to piecewise polynomials", D+"beam2d.go, "+D+"truss2d.go"), ("trimming and merging of pieces", D+"polynomial.go")],
 ["ProblemResult.Interpolate", "ProblemResult.InterpolateAll"], (),
 SPACE, "All functions of all elements are sampled 7 times per piece, which determines a polynomial of up to degree 6 (the exact solutions have at most degree 5).")
prop("C04", "Supports act as described: settlements, inclined supports, transfer of loads",
 "Every prescribed displacement or rotation, zero or not, in any number and combination, is taken on exactly by the result, and the structure responds to it as theory demands. An inclined support never moves in its fixed direction and never pushes in its sliding direction, whatever its angle and whatever else acts at the node, also when several of them are combined. Degrees of freedom that are not supported have no reaction.",
 ["inputs", "configurations"], "for all combinations of supports, prescribed values, inclined supports and nodal loads",
 "The tests cover few settlements and few inclined supports, none of them in combination with loads at the support, with each other or with prescribed values only.",
 [D+"linear_bvp_solver.go", D+"inclined_support.go", D+"eq_layout.go"],
 [("elimination of prescribed values", D+"linear_bvp_solver.go:Solve"), ("rotation into the direction of the support and back", D+"inclined_support.go:Pre, Post")],
 ["ProblemResult.Primary", "ProblemResult.Reaction"], (), SPACE,
 "Denser menu of settlements and angles than C01; oracle: direct conditions at supports plus the reference model.")
prop("C05", "Released ends transmit nothing, and releases combine correctly",
 "An element end whose normal force, shear force or moment is released transmits exactly zero of it, for every supported set of releases on every element, under any loads on the element and at its ends. Displacements, inner forces and the deformed shape between released ends are those of theory. Sets of releases are either analysed correctly or refused with an error, but never silently analysed as something else.",
 ["inputs", "configurations"], "for all sets of releases on all elements, combined with all kinds of loads",
 "There are 64 release patterns per beam, multiplied by load kinds, orientation and neighbours; the tests have a handful.",
 [D+"static_condensation.go", D+"frame.go", D+"truss2d.go", D+"truss3d.go", D+"beam2d.go"],
 [("static condensation of tangent and residual", D+"static_condensation.go"), ("recovery of condensed displacements for interpolation", D+"static_condensation.go")],
 ["ProblemResult.Interpolate", "ProblemResult.Primary", "NewFrame2d/NewTruss2d/NewTruss3d"], (), SPACE,
 "All 64 (frame) or 4 (truss) release sets per element are in the menu, including the ones the code refuses.")
prop("C06", "Unstable structures are refused, stable ones are solved",
 "A structure that can move without straining (insufficient supports, mechanisms through releases or geometry, lone degrees of freedom without stiffness) is always refused with an error instead of a result, as are structures without any support or without any free degree of freedom. Every stable structure within moderate stiffness contrasts is solved with finite values. Neither ever panics.",
 ["inputs", "configurations"], "for all subsets of supports, releases, element kinds, orientations and materials",
 "Round-off decides whether the factorisation of a singular matrix fails, so that each geometry, material and support set behaves differently; tests have three unstable examples.",
 [D+"cholesky.go", D+"linear_bvp_solver.go", D+"eq_layout.go", D+"static_condensation.go", D+"truss2d.go"],
 [("condition number bound", D+"cholesky.go"), ("check of diagonal stiffness", D+"linear_bvp_solver.go:verifyStiffness")],
 ["ProblemSolver.Solve"], (), SPACE,
 "The verdict (stable or not) is computed by the reference model with unit stiffnesses and full pivoting; structures in the gap between both thresholds are not judged.")
prop("C07", "Loads can be added and removed in any order, any number of times",
 "An element accepts exactly the loads its kind supports and whose position lies on it, refuses everything else, and says which. After any history of adding and removing loads, with analyses in between, results equal those of a structure built with exactly the loads that are still present; the same load can be present several times, and removing it removes all of its instances and no other load, even one with equal values.",
 ["histories"], "for all sequences of additions, removals and analyses up to the depth bound",
 "No test removes a load and analyses again; correctness depends on identity, multiplicity and order of operations.",
 [D+"one_dim_element.go", D+"frame.go", D+"truss2d.go", D+"truss3d.go", D+"element_loads.go"],
 [("list of loads per element", D+"one_dim_element.go"), ("split of loads into axial and lateral ones", D+"frame.go:AddLoad, RemoveLoad")],
 ["Element.AddLoad", "Element.RemoveLoad", "ProblemResult"], [("loads", "load handles an element carries", D+"one_dim_element.go")],
 "exhaustive enumeration of all operation sequences up to a depth on the real elements, against a list model and the reference model",
 "All sequences up to length 4 (thorough 5) over 24 operations, and up to length 6 (8) over a core alphabet, on 4 structures.")
prop("C08", "Analyses on one solver are independent of each other; results are immutable",
 "Whatever a solver has been used for before - other problems of any size, the same problem again, unstable problems, failing equation solvers or mismatching layouts - an analysis yields what it yields on a new solver, and leaves the problem as it is. Results obtained earlier, including ones from before a failure or from before a change of the problem, keep their values for as long as they are held. Problems that share elements, supports or inclined supports, or that grow, shrink or change between analyses (elements, supports, loads, coordinates, stiffness), are analysed like separate ones in the state of the moment.",
 ["histories", "fault_sequences"], "for all sequences of analyses, failures and queries on shared solvers up to the depth bound",
 "Each test uses a new solver for a single problem and drops the result before the next one.",
 [D+"linear_bvp_solver.go", D+"solver_result.go", D+"inclined_support.go", D+"eq_layout.go"],
 [("reshaping of reused buffers", D+"linear_bvp_solver.go:formMatrices"), ("copies of vectors in results", D+"linear_bvp_solver.go:Solve"), ("flushing of lookup failures", D+"eq_layout.go:flushFailure")],
 ["ProblemSolver.Solve", "ProblemResult"], [("buffers", "matrices that survive from one analysis to the next", D+"linear_bvp_solver.go:matrices")],
 "exhaustive enumeration of all histories of analyses and injected failures up to a depth on the real solver, each compared with the same analysis on its own",
 "All sequences up to length 4 (thorough 6) over all operations, two solvers, seven problems, failing and garbage-producing equation solvers, layouts of other problems.")
prop("C09", "Results don't depend on any order",
 "The order in which nodes, elements, supports, loads and inclined supports are listed, the order of properties in a document, and any internal iteration order of the language runtime make no difference to results or to whether a problem is accepted; the latter doesn't influence the order in which results are listed, either. Names merely identify: any distinct names lead to the same results.",
 ["schedules", "inputs"], "for all map iteration orders up to a bound on deviating loops, and all permutations of lists and names",
 "Map iteration order is random, so that a test sees one order per run; an error that depends on it passes most of the time.",
 [D+"eq_layout.go", D+"problem_from_json.go", D+"linear_bvp_solver.go", D+"static_condensation.go"],
 [("sorting of indices before numbering", D+"eq_layout.go:freeAndConstraintsToIndices"), ("order-independent translation of JSON maps", D+"problem_from_json.go")],
 ["ProblemFromJSON", "NewEqLayout", "ProblemResult"], (),
 "stateless exploration of all map iteration orders under a controlled iteration seam (source-instrumented copy of the library), bounded by the number of deviating loops; all permutations of lists and names",
 "The library is instrumented from the working tree on every run: each range over a map asks the explorer for its order. All orders (all permutations up to 4 entries, transpositions, rotations and reversal beyond) of up to 2 (thorough 3) deviating loops.")
prop("C10", "A document means the same as constructor calls",
 "Reading a problem from a JSON document yields the same nodes, elements, supports, loads and, once analysed, the same results as building it through constructors, for every way to write the document: inferred or explicit nodes, materials and cross sections, omitted or empty sections, order of properties, number formats, escapes and white space. A document without any support is refused.",
 ["inputs", "configurations"], "for all structures of the explored space and all ways to write them down",
 "Test documents come in one style each, and are only compared at a few values.",
 [D+"problem_from_json.go"], [("translation of the document with inference of missing parts", D+"problem_from_json.go")],
 ["ProblemFromJSON"], (),
 "explicit-state exploration of the space of structures times the ways to write a document, each document read by the real code and compared with the constructor-built problem",
 "All 2^13 combinations of writing styles for five rich problems, plus all edit sets of the model space with up to the depth bound styles.")
prop("C11", "Faulty documents are refused with an error, never misread, and never panic",
 "A document that is damaged anywhere - syntax, wrong types, missing or empty properties, unknown names or kinds, dangling references, impossible values, duplicates - is refused with an error. It is never accepted as some other problem and never leads to a panic; whatever is accepted is analysed as the problem that the document describes.",
 ["inputs", "fault_sequences"], "for all single and double faults of the documents, and all truncations, replaced, inserted and lost bytes",
 "The tests have about thirty handwritten faulty documents; each place of a document can be wrong in many ways, and faults combine.",
 [D+"problem_from_json.go", D+"eq_layout.go", D+"frame.go", D+"truss2d.go", D+"cross_sections.go", D+"element_loads.go"],
 [("validation while translating the document", D+"problem_from_json.go"), ("validation in constructors", D+"cross_sections.go, "+D+"element_loads.go, "+D+"truss2d.go")],
 ["ProblemFromJSON", "NewEqLayout", "ProblemSolver.Solve"], (),
 "exhaustive enumeration of single and double faults and of byte-level damage of documents, verdict by an independent reader",
 "Every value of the document tree replaced by each of the wrong values, removed, duplicated or renamed; all pairs of faults for the smaller documents. An independent reader says whether a document must be refused, is open, or describes which structure.")
prop("C12", "The Cholesky solver solves what is positive definite and refuses the rest",
 "For every symmetric positive definite matrix of moderate condition, the equation solver returns the exact solution up to round-off, for any right-hand side, any scaling and any storage of the arguments, and leaves matrix, right-hand side and neighbouring memory untouched. Every matrix that is singular or indefinite, and arguments whose dimensions don't fit, are refused with an error, without panic, and without an effect on later calls.",
 ["inputs", "histories"], "for all integer matrices in the entry bounds",
 "Three matrices are tested; singularity is decided by round-off, which depends on the entries.",
 [D+"cholesky.go"], [("factorisation, condition bound, recovered panic", D+"cholesky.go:SolveLinearSystem")],
 ["EquationSolver.SolveLinearSystem"], (),
 "exhaustive enumeration of all integer matrices within entry bounds, against exact rational arithmetic",
 "All symmetric matrices 1x1 to 4x4 (thorough 5x5) over integer alphabets; definiteness by Sylvester's criterion and solutions by Cramer's rule in big integers. Spring networks of 4 to 6 displacements, families up to 80x80 (140x140). Solvers have seen other matrices, in the same storage, before.")
prop("C13", "Simplifying piecewise polynomials preserves the function",
 "Trimming trailing zero coefficients removes exactly the trailing coefficients below the tolerance, and merging unites exactly those neighbours that touch and whose coefficients agree within the tolerance; both are idempotent, keep the domain, and leave the represented function unchanged within the tolerance. Evaluation is exact inside the domain and refused outside of it; a piece is found by its domain and nothing else.",
 ["inputs"], "for all sequences of pieces over the coefficient alphabet, domain gaps and tolerances",
 "A few sequences are tested; errors show up with particular lengths, runs of equal pieces, constants of zero and gaps.",
 [D+"polynomial.go"], [("trimming, merging, evaluation and search", D+"polynomial.go")],
 ["PolySequence.TrimTrailingZeros", "PolySequence.CompactIdentical", "PolySequence.IntervalIndex", "PolyPiece.Eval", "PolyPiece.Degree"], (),
 "exhaustive enumeration of all piecewise polynomials over small coefficient and domain alphabets, against a declarative specification of each operation",
 "All sequences of 1 to 8 (thorough 12) pieces over alphabets with zero, tiny, equal and different coefficients, adjacent or with gaps.")
prop("C14", "Independent analyses can run concurrently",
 "Two analyses that share no problem, no solver and no result, run at the same time in different goroutines, don't influence each other: each yields exactly what it yields when it runs alone, for every interleaving. This includes reading documents, and holds if both problems use the same immutable material and load objects.",
 ["schedules"], "for all interleavings at statement granularity with up to two preemptions",
 "Tests run one interleaving per run, whichever the scheduler takes; hidden shared state shows only when switched at the wrong statement.",
 [D+"linear_bvp_solver.go", D+"problem_from_json.go", D+"frame.go", D+"beam2d.go", D+"inclined_support.go", D+"static_condensation.go"],
 [("no package-level mutable state", D)], ["ProblemFromJSON", "ProblemSolver.Solve", "ProblemResult"], (),
 "stateless model checking of the real code under a controlled scheduler (instrumented at every statement), iterative preemption bounding",
 "Exhaustive for one preemption at every statement of the library; two preemptions on a grid whose spacing is reported (every statement for the small scenes). Steps inside gonum and the standard library are atomic.")
prop("C15", "Layout and result queries are complete, consistent and free of side effects",
 "A result lists each degree of freedom of the structure exactly once, its dimensions count all and the unsupported ones, and each query for a single value or function agrees with the lists, in any order and however often it is asked. Queries for unknown nodes, elements or functions are answered with an error or an empty function and influence nothing else, nor does a change to a returned function. Supports at degrees of freedom that don't exist or that are already supported are refused.",
 ["histories", "inputs"], "for all structures of the explored space and all query histories up to the depth bound",
 "Tests query each result once, in one order, and mostly for values that exist.",
 [D+"eq_layout.go", D+"solver_result.go", D+"polynomial.go"],
 [("lookup with deferred failures", D+"eq_layout.go"), ("cached lists", D+"solver_result.go:indexPaired"), ("duplicates and unconnected supports", D+"eq_layout.go:createIndexMap")],
 ["NewEqLayout", "ProblemResult"], [("failures", "lookups that failed and haven't been reported yet", D+"eq_layout.go")],
 "exhaustive enumeration of query histories up to a depth on real results, of all additional supports, and of the space of structures",
 "All query sequences up to length 4 (thorough 5) over the alphabet of valid and invalid queries on several results; all single and double additional supports on all templates.")
prop("C16", "Cross sections and materials have the stiffness they should",
 "Rectangular cross sections have the exact area and second moments of area about both axes, and the torsion constant to the accuracy of the documented formula (half a percent), for any valid dimensions and whichever side is longer, and hand-given constants are taken over unmixed, in calls and documents alike; non-positive or missing values that are required are refused. Analyses use Young's modulus, area and the second moment of area about the bending axis, and nothing else.",
 ["inputs", "configurations"], "for all dimensions and constants of the alphabets, in all combinations",
 "Tests use two rectangles; confusing width and height or axes needs values that tell them apart.",
 [D+"cross_sections.go", D+"linear_elastic.go", D+"beam2d.go", D+"truss2d.go"],
 [("closed formulae and validation", D+"cross_sections.go")], ["NewRectangularCrossSection", "NewConstantsCrossSections", "ProblemResult"], (),
 "exhaustive enumeration over value alphabets against closed formulae and a series solution",
 "All combinations of dimensions, roll angles and constants from alphabets with valid, border and invalid values; documents with all combinations of cross section and material parameters.")
prop("C17", "Results are objective: they don't depend on the frame of reference or on units",
 "Moving or rotating a structure together with its supports and loads, reversing the direction of elements, mirroring it, permuting the axes of a space truss, or changing units of length and force leads to the correspondingly transformed results, and never changes whether the structure is accepted. A support that is inclined by a multiple of a right angle equals the plain support.",
 ["inputs", "configurations"], "for all structures of the explored space and all transformations of the set",
 "Tests have no structure in two positions; objectivity is a relation between analyses, for all structures.",
 [D+"geometry.go", D+"frame.go", D+"truss2d.go", D+"truss3d.go", D+"inclined_support.go", D+"beam2d.go"],
 [("rotation between local and global coordinates", D+"geometry.go"), ("inclined support", D+"inclined_support.go")], ["ProblemResult"], (),
 "explicit-state exploration of the space of structures; every state is run on the real code in its original and in all transformed frames and related to each other",
 "Relations between outputs of the real code; the reference model only provides the magnitudes for tolerances and the verdict on stability.")
prop("C18", "Superposition, proportionality, reciprocity and energy balance hold",
 "The response to several loads and settlements is the sum of the responses to each of them, and scales with them. For any two sets of loads, the work of the first along the displacements of the second equals the reverse. The external work of loads and settlements equals the strain energy of the returned inner forces.",
 ["inputs", "configurations"], "for all structures of the explored space and all decompositions into single load cases",
 "Tests analyse isolated load cases; linearity relates many analyses of the same structure.",
 [D+"linear_bvp_solver.go", D+"beam2d.go", D+"truss2d.go", D+"static_condensation.go"],
 [("linear assembly of loads and settlements", D+"linear_bvp_solver.go:Solve")], ["ProblemResult"], (),
 "explicit-state exploration of the space of structures; every state is run on the real code as a whole and split into its load cases",
 "Relations between outputs of the real code; inner products and energies are evaluated from returned polynomials.")
prop("C19", "The equation solver is replaceable, and its failures are passed on",
 "The equation solver that a user supplies receives a symmetric, finite system of exactly the unsupported degrees of freedom, whose solution are their displacements: any correct equation solver leads to the same results as the built-in one. Its failure makes the analysis fail with an error from which the original error can be retrieved, no matter what it wrote before, and a retry succeeds.",
 ["inputs", "fault_sequences"], "for all structures of the explored space and all behaviours of the supplied equation solver from the menu",
 "Tests only use the built-in equation solver.",
 [D+"linear_bvp_solver.go", D+"deflect.go"], [("call of the strategy with views of the partitioned system", D+"linear_bvp_solver.go:Solve")],
 ["EquationSolver", "ProblemSolver.Solve"], (),
 "explicit-state exploration of the space of structures times the behaviours of a substituted equation solver (environment model), on the real code",
 "Own Gauss-Jordan solver, also with a result that is erased before the system is read, recording solver, and solvers that fail, always or once, with and without prior writes.")
prop("C20", "The expectation checker accepts exactly what matches",
 "Expectations attached to a document pass for the results they describe exactly, and fail as soon as any of them - a displacement, a reaction, a degree, a range, a boundary value or an evaluated value - deviates by more than its tolerance, or an expected failure does not occur or reads differently. Malformed expectations are refused.",
 ["inputs"], "for all expectations derived from results, and all single deviations",
 "The checker is the oracle of the integration tests itself; tests that pass can't show that it would have failed otherwise.",
 ["integr/expectations.go", "integr/expectations_from_json.go"], [("comparison of results and expectations", "integr/expectations.go"), ("translation of the document", "integr/expectations_from_json.go")],
 ["integr.ExpectationsFromJSON", "integr.Expectation"], (),
 "exhaustive enumeration of expectations and all their single and double perturbations, run through the real checker",
 "Expectations are generated from real results; each one is perturbed in every position by amounts below and above the tolerance.")
prop("C21", "Elements and inclined supports honour their contracts with any solver",
 "Elements, equation layouts and inclined supports do what their interfaces describe on their own, so that they work with any solver. Assembling an element adds exactly its stiffness (released ends condensed) and its consistent nodal loads to the entries of its own degrees of freedom, on top of whatever is there; it leaves other entries and the primary values alone, doesn't depend on the latter, and can be repeated with the same or another layout. For any nodal values, its interpolation returns exactly the functions that theory gives for them, nothing for functions it doesn't define, and alters neither the nodal values nor what is returned later. It reports two nodes, its id, and adds exactly its degrees of freedom to a set. An inclined support turns the stiffness into TᵀKT and both vectors into Tᵀv before, and into Tv after the solution, for any angle, any two degrees of freedom and any sequence of layouts, touches nothing else, and prescribes zero at its second degree of freedom. The linear solver in turn relies on nothing but these interfaces.",
 ["inputs", "configurations", "histories"], "for all elements of the explored structures, nodal states, prior contents and layouts, all pairs of degrees of freedom and all angles of the menu",
 "Tests call elements with small zeroed matrices, a single layout and few nodal values; users who write their own solver or elements rely on the interfaces for all of them.",
 [D+"deflect.go", D+"frame.go", D+"beam2d.go", D+"truss2d.go", D+"truss3d.go", D+"one_dim_element.go", D+"inclined_support.go", D+"eq_layout.go", D+"linear_bvp_solver.go"],
 [("assembly into global matrices", D+"beam2d.go:Assemble, "+D+"truss2d.go:Assemble, "+D+"truss3d.go:Assemble"), ("interpolation from nodal values", D+"beam2d.go:Interpolate"), ("rotation of stiffness and vectors", D+"inclined_support.go:Pre, Post"), ("mapping of symbolic indices", D+"eq_layout.go:NewEqLayout")],
 ["Element.Assemble", "Element.Interpolate", "Element.Indices", "Transformer.Pre", "Transformer.Post", "NewEqLayout"], (),
 "explicit-state exploration of the space of structures, with the explorer in place of the solver: every element and inclined support is called on the real code in several layouts, prior contents and nodal states, and compared with the reference model",
 "Element matrices of the reference come from quadrature, releases are eliminated numerically. A solver of the explorer's own, made of the interfaces alone, and the library's solver on wrapped elements have to reproduce the exact solution.")

CLAIMED = set(os.environ.get("CLAIM", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21").split())
keep = [p for p in P if p["id"] in CLAIMED]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in keep:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in keep], "not_applicable": [],
 "notes": "run.sh builds the explorer against /repo's working tree on every run (Go build cache). Instrumented copies of the library (C09, C14) are generated from the working tree in a temporary folder. See DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
