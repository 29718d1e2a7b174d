#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only so that the file stays readable and valid).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Solved problems satisfy equilibrium and all prescribed displacements",
 "Whenever a boundary value problem is solved without error, the reported displacements and reactions satisfy the assembled system at every degree of freedom: stiffness times displacement equals applied load plus reported reaction. Every prescribed displacement, whatever its value and however many of them are non-zero, is reproduced exactly, and the reaction reported at a degree of freedom without support is zero.",
 ["inputs","configurations"],"all symmetric stiffnesses, all load vectors, all sets and values of prescribed displacements (including all-zero, mixed, all-non-zero), every partition into constrained and free degrees of freedom",
 "The integration suite solves about a hundred concrete structures, in nearly all of which at least one prescribed value is zero; it never samples stiffness coefficients or settlement values as free variables.",
 ["deflect/linear_bvp_solver.go","deflect/eq_layout.go"],
 [("partitioned solve and reaction recovery","deflect/linear_bvp_solver.go: Solve, extractK12, formMatrices")],
 ["ProblemResult.Primary","ProblemResult.Reaction","ProblemSolver.Solve"])
p("C02","Inclined supports block exactly the inclined direction",
 "With inclined supports of any angle, alone or several of them at different nodes or on different degrees of freedom of one node, the reported displacement has no component along each blocked direction and the reported reaction at the supported node has no component along the free sliding direction. Supports sharing a degree of freedom act one after the other, the direction of a later one being taken in the coordinates that the earlier one left. Displacements and reactions are reported in global coordinates and satisfy global equilibrium there.",
 ["inputs","configurations"],"all angles, all stiffnesses and loads (including loads at the supported node itself), one or two inclined supports at distinct nodes or sharing a node",
 "One unit test compares four angles on one matrix; the integration files use a handful of angles, no load on a supported node, and never two inclined supports at one node.",
 ["deflect/inclined_support.go","deflect/linear_bvp_solver.go"],
 [("rotation of the system before and after solving","deflect/inclined_support.go: Pre, Post, transformTangent, transformVec"),("transformer loop","deflect/linear_bvp_solver.go: Solve")],
 ["ProblemResult.Primary","ProblemResult.Reaction"])
p("C03","Element stiffness is the exact linear-elastic one in any orientation",
 "The stiffness that a planar truss, spatial truss or planar frame element contributes is the exact rod / Euler-Bernoulli stiffness expressed in global coordinates, for every length, orientation, material and cross section. In particular rigid-body motions cause no forces, swapping the two end nodes changes nothing, and contributions of several elements add up.",
 ["inputs"],"all node positions (planar elements: end nodes at equal y), all positive E, A, Iyy, all three JSON-reachable element kinds",
 "Tests use axis-aligned and a few inclined members with fixed numbers; a wrong coefficient that only matters for particular orientations or coupled degrees of freedom is not sampled.",
 ["deflect/truss2d.go","deflect/truss3d.go","deflect/beam2d.go","deflect/frame.go","deflect/geometry.go"],
 [("local stiffness and transformation to global","Assemble of truss2d, truss3d, beam2d"),("direction cosines","deflect/geometry.go")],
 ["Element.Assemble"])
p("C04","Element loads are applied as work-equivalent nodal loads",
 "Loads on an element (concentrated force or moment at any position, constant and linear distributed loads, along or across the element) enter the system as the exact work-equivalent nodal loads of the element's shape functions, in any orientation. Hence they have the same total force and moment as the load itself, and several loads on one element simply add up.",
 ["inputs"],"all load magnitudes, all positions within the element including both ends, all orientations, every load kind the element accepts, pairs of loads",
 "Tests sample a few positions and magnitudes on horizontal and vertical members; equivalence for every position and combination cannot be sampled.",
 ["deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/element_loads.go"],
 [("equivalent nodal loads","localNoHingeLoads of beam2d and truss2d"),("load dispatch","deflect/element_loads.go: loadDispatch")],
 ["Element.Assemble","Element.AddLoad"])
p("C05","Interpolated internal forces are in equilibrium along the element",
 "For any nodal displacements and any accepted loads, the interpolated axial force, shear force and bending moment satisfy the differential equilibrium equations with the distributed loads, jump by exactly the concentrated loads and are otherwise continuous. Their values at the two ends are exactly the forces and moments that the element exerts on its nodes.",
 ["inputs","configurations"],"all displacement vectors, loads, positions, lengths, orientations, materials, hinge setups, up to two loads per element",
 "Integration tests compare a few sampled abscissae on concrete problems; sign or coefficient errors for particular load/hinge/orientation combinations are not reached.",
 ["deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/polynomial.go"],
 [("interpolation of Nx, Vz, My","InterpolateMy, InterpolateNx, startNodeValues")],
 ["Element.Interpolate","ProblemResult.Interpolate"])
p("C06","Interpolated displacements obey the material law and match the nodes",
 "For any nodal displacements and any accepted loads, the interpolated axial displacement, rotation and deflection are continuous and satisfy the linear-elastic relations with the interpolated internal forces. At ends that are not released by a hinge, they equal the nodal displacements and rotations expressed in local element coordinates.",
 ["inputs","configurations"],"all displacement vectors, loads, positions, lengths, orientations, materials, hinge setups, up to two loads per element",
 "Integration tests compare sampled values on concrete problems; exact agreement at both ends for every combination of load, hinge and orientation is not sampled.",
 ["deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/polynomial.go"],
 [("interpolation by integration of Nx/EA and My/EI","Interpolate, InterpolateNxOrUx, PolySequence.integrate")],
 ["Element.Interpolate","ProblemResult.Interpolate"])
p("C07","Hinges release exactly the released end forces",
 "Every hinge setup is either refused when the element is constructed or condensed exactly: the internal force belonging to each released degree of freedom vanishes at that end, for any displacements and loads, and the contributed stiffness and loads are those of the original element with the released degrees of freedom eliminated. A hinge at one end never changes the behaviour of any other degree of freedom.",
 ["inputs","configurations"],"all subsets of hinged degrees of freedom at both ends, all stiffnesses, loads, displacements and orientations, all element kinds",
 "Tests cover selected hinge setups with fixed numbers; formulas with many coupled terms can be wrong in a term which those numbers do not excite.",
 ["deflect/static_condensation.go","deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/frame.go"],
 [("pre-computed static condensation","deflect/static_condensation.go: reduce, enhance, newStaticHingeCondenser")],
 ["NewFrame2d","NewTruss2d","NewTruss3d","Element.Assemble","Element.Interpolate"])
p("C08","Interpolations partition the element domain",
 "Every interpolation consists of pieces that are ordered along the element, start at zero, end at the element length and touch without gaps or overlaps, with interior boundaries exactly at concentrated loads. Trimming and merging with a tolerance, as done for reported results, keeps this partition and changes the interpolated values by no more than the tolerance implies.",
 ["inputs","configurations"],"all load positions (coinciding, at the ends, in any order of addition), lengths, load values and tolerances, up to three concentrated loads",
 "Tests look up expected ranges in concrete problems; orderings, coincidences and tolerance-sized differences between positions are not sampled.",
 ["deflect/polynomial.go","deflect/beam2d.go","deflect/truss2d.go","deflect/solver_result.go"],
 [("flattening of additive pieces","PolySequence.flatten"),("post-processing","TrimTrailingZeros, CompactIdentical")],
 ["ProblemResult.Interpolate","Element.Interpolate"])
p("C09","Piecewise polynomial operations are exact",
 "Evaluating a polynomial inside its domain returns its value and outside its domain returns an error. Flattening preserves the sum of the given pieces at every point, differentiation and integration are exact and mutually inverse with continuity across pieces, and trimming or merging changes values only within the given tolerance.",
 ["inputs"],"all coefficients, domains, evaluation points and integration constants; degree up to 5, up to three pieces in any overlap configuration",
 "Table tests use a dozen fixed polynomials and never assert that evaluation beyond the upper domain end fails.",
 ["deflect/polynomial.go","deflect/algorithm.go"],
 [("polynomial algebra","deflect/polynomial.go")],
 ["PolyPiece.Eval","PolyPiece.Degree","PolySequence.IntervalIndex","PolySequence.TrimTrailingZeros","PolySequence.CompactIdentical"])
p("C10","Equation numbering is a deterministic constrained-first bijection",
 "For every problem, the numbering assigns each degree of freedom used by an element a distinct number from zero to n-1 without gaps, constrained ones before free ones and sorted by node ID and degree of freedom within both groups. The numbering depends only on the sets of degrees of freedom, never on iteration or listing order, and a prescribed value that is duplicated or not connected to any element is reported as an error, while no other problem is.",
 ["inputs","schedules"],"all node IDs (arbitrary strings), all degrees of freedom, all subsets constrained, duplicates, all map iteration orders; up to four degrees of freedom",
 "The table test has seven cases with three fixed node names, and Go's randomised map order is only sampled.",
 ["deflect/eq_layout.go"],
 [("index map creation","createIndexMap, freeAndConstraintsToIndices, compareIndices")],
 ["NewEqLayout","ProblemResult.PrimaryAll","ProblemResult.Dimension"])
p("C11","A degree of freedom unknown to the system is never silently replaced",
 "If any element, load, support or link refers to a degree of freedom that the equation numbering does not contain, solving returns an error instead of results. Querying a result for an unknown degree of freedom or element returns an error, and such a failed query does not affect later valid queries.",
 ["inputs","configurations","histories"],"all positions at which an unknown degree of freedom can occur (element, nodal load, prescribed value, both ends of a link), all query sequences up to length three",
 "Unit tests exercise the lookup table in isolation; no test solves a problem in which an element or link refers to an unmapped degree of freedom.",
 ["deflect/eq_layout.go","deflect/linear_bvp_solver.go","deflect/solver_result.go","deflect/inclined_support.go"],
 [("failure accumulation","EqLayout.saveFailure, failure, flushFailure"),("failure checks","linearSolver.Solve, solverResult.Primary/Reaction/Interpolate")],
 ["ProblemSolver.Solve","ProblemResult.Primary","ProblemResult.Reaction","ProblemResult.Interpolate"])
p("C12","A problem read from JSON is exactly the problem described",
 "Reading a well-formed description yields exactly the described nodes, elements, materials, cross sections, hinges, loads, supports and links, with every number unchanged, every name mapped to its own quantity, and nothing added, dropped or duplicated. The outcome does not depend on the order in which objects are listed or iterated.",
 ["inputs","schedules","configurations"],"all numeric values in a description, all degree-of-freedom and load names, all element kinds, explicit and inferred nodes/material/cross section, all map iteration orders; descriptions with up to four nodes and three elements",
 "Integration tests read fixed documents and observe only the solution; a wrong mapping for a rarely used name or a value is not sampled, and map order is only sampled.",
 ["deflect/problem_from_json.go"],
 [("translation from JSON","deflect/problem_from_json.go")],
 ["ProblemFromJSON"])
p("C13","Incomplete or inconsistent JSON descriptions are refused",
 "A description that lacks nodes, elements, materials, cross sections or supports, refers to something that does not exist, uses an unknown name or kind, supplies the wrong number of values or positions, or asks for something an element cannot represent is refused with an error. The refusal happens whichever entry is defective and in whatever order entries are processed, and never as a crash.",
 ["inputs","schedules","configurations"],"every single-entry defect from a catalogue applied at every possible entry of the description, for all numeric values and all map iteration orders",
 "Only a few failure documents exist in the integration suite; most error branches are never taken, and a defect in one of several entries depends on iteration order.",
 ["deflect/problem_from_json.go","deflect/one_dim_element.go","deflect/element_loads.go","deflect/static_condensation.go"],
 [("validation during translation","deflect/problem_from_json.go")],
 ["ProblemFromJSON"])
p("C14","Solving is repeatable and results stay valid",
 "Solving the same problem again, with the same or a fresh solver, gives the same results, and solving another problem of any size with a solver instance gives the same results as a fresh instance. Results obtained earlier keep their values whatever is solved later, and neither solving nor querying alters the problem.",
 ["histories","inputs"],"all sequences of two solves (same or different problem, growing and shrinking size, different number of supports, after a failed solve) on one solver instance, with and without inclined supports, all coefficients",
 "Every test creates a fresh solver and solves exactly once.",
 ["deflect/linear_bvp_solver.go","deflect/solver_result.go","deflect/inclined_support.go"],
 [("buffer reuse","formMatrices"),("scratch buffers of inclined supports","inclinedSupport.Pre")],
 ["ProblemSolver.Solve","ProblemResult.Primary","ProblemResult.Reaction","ProblemResult.PrimaryAll"])
p("C15","Adding and removing element loads behaves like a multiset",
 "After any sequence of adding and removing loads, every element kind behaves as if it had been created with exactly the remaining loads: adding reports whether the load is supported and an unsupported load has no effect, adding a load twice counts twice, removing a load removes all its occurrences and nothing else, and removing an absent load has no effect. The order in which loads were added does not matter.",
 ["histories","inputs"],"all add/remove sequences up to length four over three loads of every kind, for all element kinds and load values",
 "The unit test runs one fixed sequence on the shared base type only, never on a truss or frame, and counts entries instead of observing the element's behaviour.",
 ["deflect/one_dim_element.go","deflect/frame.go","deflect/beam2d.go","deflect/truss2d.go","deflect/element_loads.go"],
 [("load storage","oneDimElement.AddLoad, RemoveLoad; frame.AddLoad; truss2d.AddLoad; beam2d.AddLoad")],
 ["Element.AddLoad","Element.RemoveLoad","Element.Assemble"])
p("C16","The linear equation solver solves or reports an error",
 "Given a symmetric positive definite system, the Cholesky equation solver returns its exact solution up to rounding and leaves matrix and right-hand side unchanged. For a singular or indefinite matrix it returns an error and never panics.",
 ["inputs"],"all symmetric matrices and right-hand sides up to dimension three",
 "Two fixed matrices are tested.",
 ["deflect/cholesky.go"],
 [("Cholesky factorisation and error mapping","cholesky.SolveLinearSystem")],
 ["EquationSolver.SolveLinearSystem"])
p("C17","Accepted cross sections and loads have physical parameters",
 "A cross section or load is accepted only if its parameters are physically valid: dimensions, areas and second moments strictly positive, optional parameters not negative, load positions not negative; everything valid is accepted. The derived area and second moments of a rectangle follow the textbook formulas, are positive, and swap roles consistently when width and height are exchanged.",
 ["inputs"],"all floating-point parameter values including NaN and infinities for validation, all positive dimensions for the formulas, all subsets of present and missing parameters",
 "A handful of fixed parameter sets is tested; Izz and non-square torsion constants are never checked.",
 ["deflect/cross_sections.go","deflect/element_loads.go","deflect/one_dim_element.go"],
 [("validation","NewConstantsCrossSections, NewRectangularCrossSection, NewElementConcentratedLoad")],
 ["NewRectangularCrossSection","NewConstantsCrossSections","CrossSection","NewElementConcentratedLoad"])
p("C18","The different ways of querying a result agree",
 "Listing all displacements or reactions yields every degree of freedom exactly once with the value that querying it individually gives, however often and in whichever order queries are made. Interpolating everything yields exactly the non-empty interpolations that individual queries yield for each element and quantity the element kind provides, and the reported dimensions are the total and the unconstrained number of degrees of freedom.",
 ["inputs","histories"],"all results over problems with truss and frame elements, all coefficient values, all elements and quantities",
 "No test calls the listing functions or the reported dimensions at all.",
 ["deflect/solver_result.go","deflect/frame.go"],
 [("result access","solverResult.Primary, PrimaryAll, Interpolate, InterpolateAll, Dimension")],
 ["ProblemResult"])
p("C19","Results do not depend on listing or iteration order",
 "Permuting the elements, nodes, supports, nodal loads or element loads of a problem, or processing its description in a different order, leaves every reported displacement, reaction and interpolated value unchanged. Nodal loads given several times at one degree of freedom add up.",
 ["schedules","inputs","configurations"],"all permutations of elements, supports, loads and all map iteration orders while reading a description, for all coefficient values",
 "Go randomises map order, so each test run samples a few orders only, and list orders are fixed in the test data.",
 ["deflect/linear_bvp_solver.go","deflect/eq_layout.go","deflect/problem_from_json.go","deflect/inclined_support.go"],
 [("accumulating assembly and sorted numbering","linearSolver.Solve, Element.Assemble, freeAndConstraintsToIndices")],
 ["ProblemResult.Primary","ProblemResult.Reaction","ProblemFromJSON"])
p("C20","Support reactions balance the applied loads",
 "For every structure of truss and frame elements that is solved without error, the sum of all applied loads (nodal and element loads) and all reported reactions vanishes, as total force in every direction and as total moment about any point. This holds for hinged, settled and inclined supports alike.",
 ["inputs","configurations"],"structures of up to three members (trusses, frames, hinges, inclined support, settlement), all geometries, materials, loads and load positions",
 "Integration tests compare the reactions of concrete structures only.",
 ["deflect/linear_bvp_solver.go","deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/frame.go","deflect/inclined_support.go"],
 [("assembly and reaction recovery","Assemble, Solve")],
 ["ProblemResult.Reaction","ProblemFromJSON","ProblemSolver.Solve"])
p("C21","Unsolvable problems are reported as errors, never as a crash",
 "Solving a problem that has no supports, only supports, fewer supports than needed, or whose stiffness is singular returns an error instead of panicking or returning results. The same holds when the injected equation solver fails.",
 ["inputs","configurations","fault_sequences"],"problems with zero to all degrees of freedom constrained, arbitrary (including singular) stiffness, equation solver failing at any call",
 "No test solves a problem without supports or a mechanism, or injects a failing equation solver.",
 ["deflect/linear_bvp_solver.go","deflect/cholesky.go","deflect/eq_layout.go"],
 [("error paths of the solver","linearSolver.Solve, initialise; cholesky.SolveLinearSystem")],
 ["ProblemSolver.Solve"])
p("C22","Integration expectations fail exactly when results deviate",
 "The expectations that drive the integration tests report a failure if and only if the results deviate from them: an expected displacement, reaction, sample or boundary value is missing or differs by more than the tolerance given for its kind of value (relative to the larger magnitude, with an absolute floor for values near zero), an interpolation is not available, has another polynomial degree, or has no piece over the expected range (or several pieces when no range is given), or solving fails unexpectedly, does not fail as expected, or fails with another message. The verdict is the same each time they are run.",
 ["inputs","configurations","histories"],"all expected and actual values and tolerances for displacements, reactions, samples and boundary values; all combinations of degree, range, pieces and values, with any one of them deviating",
 "The expectations are the oracle of the integration tests, which all pass: whether a deviation would be noticed is never exercised.",
 ["integr/expectations.go"],
 [("comparison with results","nodalExpectation.nodal; interpolationExpectation.findPolySegment, testInterpolation; regexFailureExpectation.Failure")],
 ["Expectation.Primary","Expectation.Reaction","Expectation.Interpolated","Expectation.Failure"])
p("C23","Expectations read from JSON are exactly the expectations described",
 "Reading the expectations of an integration test yields exactly the described ones: every name means its own degree of freedom or function, every value, range, degree and tolerance is used unchanged for its own kind of value, tolerances not given are 1e-8, success is expected unless a failure is described, and nothing is added, dropped or duplicated, in whichever order the description is processed. A description without expectations, with unknown fields or names, with values of the wrong type or number, or with an invalid pattern is refused with an error.",
 ["inputs","configurations","schedules"],"all names with all values, all subsets of tolerances, every kind of defect at every place of a description, all iteration orders of maps",
 "The integration files contain well-formed expectations only; a dropped or misread expectation makes their tests pass.",
 ["integr/expectations_from_json.go"],
 [("translation of the description","ExpectationsFromJSON, expectationsFromDescriptions, translateToNodalExpectations, translateInterpolation")],
 ["ExpectationsFromJSON","Expectation"])
p("C24","Dividing an element in two changes nothing",
 "Replacing an element by two elements of the same material that meet in an additional node on its axis, with the element loads divided accordingly and hinges kept at the outer ends, leaves the structure's behaviour unchanged: with the additional node displaced as the undivided element is at that point, the node is in equilibrium, the forces at the outer ends are the same, and every internal force and displacement has the same value at every point. A concentrated load at the dividing point may be given to either part.",
 ["inputs","configurations"],"all element kinds, dividing points, loads of every kind at every position, hinges, displacements, orientations and materials, every point of the element",
 "No test compares two models of the same structure; the integration tests contain fixed structures with loads at fixed positions.",
 ["deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/frame.go","deflect/static_condensation.go","deflect/polynomial.go"],
 [("element loads and interpolation","localNoHingeLoads, InterpolateMy, InterpolateNx, startNodeValues")],
 ["Element.Assemble","Element.Interpolate"])
p("C25","Load cases superpose",
 "The response to two load cases acting together is the sum of the responses to each alone, whether their loads are listed side by side or added up: for displacements, reactions and every interpolated quantity at every point, with element loads, nodal loads, prescribed displacements, hinges and inclined supports.",
 ["inputs","configurations"],"all pairs of load kinds, positions and values for every element kind, all generic systems up to dimension four with settlements and inclined supports",
 "Tests solve fixed load cases; none compares the results of several.",
 ["deflect/linear_bvp_solver.go","deflect/inclined_support.go","deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/frame.go","deflect/polynomial.go"],
 [("linear response","Solve; Assemble; Interpolate; inclinedSupport.Pre, Post")],
 ["ProblemSolver.Solve","Element.Assemble","Element.Interpolate","ProblemResult.Reaction"])
p("C26","Results do not depend on where and how a structure is placed",
 "Moving and turning a structure together with its loads and supports turns displacements and reactions along and leaves everything along the elements unchanged. Swapping the ends of an element (with its loads described from the other end) mirrors its interpolated quantities and changes nothing else, a planar truss behaves as a spatial one that lies in the plane, and an inclined support acts as an ordinary one on the structure turned by its angle.",
 ["inputs","configurations"],"all element kinds, positions and pairs of directions, loads of every kind at every position, hinges, displacements, materials and support angles",
 "Test structures are mostly aligned with the axes and never compared with their turned or reversed counterparts.",
 ["deflect/geometry.go","deflect/beam2d.go","deflect/truss2d.go","deflect/truss3d.go","deflect/frame.go","deflect/inclined_support.go"],
 [("transformation between local and global axes","Assemble, startNodeValues, sineCosine2d; inclinedSupport")],
 ["Element.Assemble","Element.Interpolate","ProblemSolver.Solve","NewInclinedSupport"])
p("C27","Reported interpolations are in canonical form",
 "Whatever an element interpolates, the pieces reported for any tolerance are canonical: each has at least one coefficient, its highest one exceeds the tolerance unless the piece is constant, a constant term within the tolerance is reported as exactly zero, and neighbouring pieces with identical coefficients are reported as one. Number and degree of the pieces of every quantity therefore follow from the loads: what vanishes is one zero, a distributed load adds its degree, a concentrated one divides.",
 ["inputs","configurations"],"all coefficients, domains and tolerances; all element kinds, load kinds, load values and positions",
 "Tests trim and merge a few fixed polynomials, with one tolerance.",
 ["deflect/solver_result.go","deflect/polynomial.go"],
 [("post-processing of interpolations","Interpolate, TrimTrailingZeros, CompactIdentical")],
 ["ProblemResult.Interpolate","PolySequence.TrimTrailingZeros","PolySequence.CompactIdentical"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
    
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
