COMMON = ("Every feasible path of the real code within the bound is enumerated and each assertion is decided by the solver for all values; "
  "a path or query that cannot be decided is reported as REDUCED in the evidence, never as a pass of that part. "
  "Arithmetic is exact real arithmetic unless stated (rounding errors are outside); trusted: go/ssa, the executor, z3. "
  "Sampled models of completed paths are re-run natively and compared with the encoding.")
NOTE.update({
 'C03': "All geometries, materials and sections for each element kind, swap of ends, rigid-body motions, two elements.",
 'C04': "All element kinds, up to two loads of every accepted kind, all positions and values, all orientations.",
 'C05': "All displacements, orientations, hinge setups and up to two loads per element (lengths and gaps between distinct load positions at least 1e-6).",
 'C06': "All displacements, orientations, hinge setups and up to two loads per element (lengths and gaps at least 1e-6).",
 'C07': "All hinge subsets of all element kinds, all stiffnesses, displacements, orientations, one load per element.",
 'C09': "Polynomials with up to 4 coefficients (7 thorough), sequences of up to 3 pieces.",
 'C01': "Generic problems of dimension 2-4 (5 thorough), one or two elements, every partition into prescribed and free, any equation solver that is exact.",
 'C02': "Generic problems, one to three inclined supports at distinct nodes or sharing a node or a degree of freedom; any angle, stiffness, load. One recorded finding (settled support, see DESIGN).",
 'C08': "All element kinds, up to two loads of every kind and three (four) concentrated loads; reported results of arbitrary piecewise polynomials with up to three pieces, any tolerance.",
 'C10': "Up to four degrees of freedom with arbitrary string IDs, every subset prescribed, up to two map iterations in any order.",
 'C11': "Unknown degree of freedom at one place (element, load, prescribed value, link), query sequences of length three.",
 'C12': "Up to four nodes and three elements, two to three materials and sections, all names; one map iteration in any order (two thorough). encoding/json itself is modelled.",
 'C13': "About 90 single-entry defects at every place of one description, one map iteration in any order (two thorough). encoding/json itself is modelled.",
 'C14': "Histories of up to three solutions on one solver, dimensions 2-4, growing and shrinking, with inclined supports and failing solutions in between.",
 'C15': "Histories of three (four thorough) additions and removals; all load types, kinds of elements and values.",
 'C16': "Dimension 1-3 (4 thorough), gonum's factorisation executed over the reals, its condition estimate not executed.",
 'C17': "All 64-bit values (bit-precise) for validation, exact reals for formulas.",
 'C18': "Three to five degrees of freedom, sequences of three queries, up to three elements with four quantities.",
 'C19': "Two elements, four degrees of freedom, every order of each list, one map iteration in any order (two thorough).",
 'C20': "One to three members of all kinds with one load per member, hinges, settlements, inclined supports, any geometry.",
 'C21': "Dimension 1-4 with every number of prescribed values; singular stiffness up to three free degrees of freedom; failing solver.",
 'C22': "One value with any tolerance, up to three values of which any one deviates, polynomials of degree 0-2 in one or two pieces, any range; regular expressions are evaluated by the host on six messages.",
 'C23': "All 24 names, all subsets of tolerances, 20 kinds of defect at five places, maps of up to three entries in any order. encoding/json itself is modelled, *testing.T counts failure reports.",
 'C24': "All element kinds and dividing points, one load of every kind (two thorough) at any position, hinges at one or both ends (parts and gaps at least 1e-6).",
 'C25': "All pairs of load kinds at any position for every element kind; generic systems of dimension 2-4 with settlements and an inclined support.",
 'C26': "All element kinds at two arbitrary places, reversed, planar and spatial trusses, one load of every kind (two thorough), hinges; one member on an inclined support, turned.",
 'C27': "Up to three pieces with up to three coefficients (one piece with four), arbitrary or identical to their neighbour, any tolerance; cantilevers of fixed geometry under one load of every kind.",
})
