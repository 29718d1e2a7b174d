package deflect

// BOUNDS: generic problems with two elements on four degrees of freedom, two prescribed displacements,
// up to two inclined supports on different nodes, four nodal loads (two of them at one degree of
// freedom), every order of each list; a frame and a truss with three element loads in every order; a
// description of two elements read with every permutation of one iterated map at a time (thorough: two;
// rotations for maps of more than four entries); all coefficients; exact real arithmetic. Equal systems are assumed to get equal
// answers from the equation solver.
// Larger instances, with symbolic values throughout: one instance of dimension 8 with four elements, four supports and eight nodal loads in three orders of each list.
// Three concentrated loads at the start, inside and at the end of an element, or at one position, in every order.

// vxPerm picks a permutation of n things.
func vxPerm(tag string, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for i := 0; i < n; i++ {
		k := vfInt("perm"+tag+vfIntStr(i), 0, len(left)-1)
		out = append(out, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	return out
}

func vxPermuted[T any](tag string, in []T) []T {
	var out []T
	for _, i := range vxPerm(tag, len(in)) {
		out = append(out, in[i])
	}
	return out
}

func vxSameResults(a, b ProblemResult, dofs []Index) {
	for _, idx := range dofs {
		vfEq("same displacement in any order", vxPrimary(b, idx), vxPrimary(a, idx))
		vfEq("same reaction in any order", vxReaction(b, idx), vxReaction(a, idx))
	}
	t0, n0 := a.Dimension()
	t1, n1 := b.Dimension()
	vfCheck("same dimension in any order", t0 == t1 && n0 == n1)
}

// VvhC19_Lists: permuted lists of elements, supports and nodal loads.
func VvhC19_Lists() {
	dofs := []Index{{"a", Ux}, {"b", Ux}, {"b", Uz}, {"a", Uz}}
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs[:3]...), vxNewBlob("q", dofs[1:]...)}}
	p.Dirichlet = []NodalValue{{Index: dofs[0], Value: vfF("u0")}, {Index: dofs[3], Value: vfF("u1")}}
	p.Neumann = []NodalValue{{Index: dofs[1], Value: vfSlack("f0")}, {Index: dofs[1], Value: vfF("g")},
		{Index: dofs[2], Value: vfSlack("f1")}, {Index: dofs[0], Value: vfF("h")}}
	q := &Problem{Elements: vxPermuted("e", p.Elements), Dirichlet: vxPermuted("d", p.Dirichlet), Neumann: vxPermuted("n", p.Neumann)}
	e := &vxSolver{}
	a, err := vxSolve(p, e)
	vfCheck("solving succeeds", err == nil)
	b, err2 := vxSolve(q, e)
	vfCheck("solving succeeds", err2 == nil)
	if err != nil || err2 != nil {
		return
	}
	vxSameResults(a, b, dofs)
	// several loads at one degree of freedom add up
	s := &Problem{Elements: p.Elements, Dirichlet: p.Dirichlet, Neumann: []NodalValue{p.Neumann[3],
		{Index: dofs[1], Value: p.Neumann[0].Value + p.Neumann[1].Value}, p.Neumann[2]}}
	c, err := vxSolve(s, e)
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	vxSameResults(a, c, dofs)
	vfCover("lists")
}

// VvhC19_Inclined: permuted supports of different nodes.
func VvhC19_Inclined() {
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Uz}, {"c", Ux}}
	n := vfInt("dim", 4, 5)
	dofs = dofs[:n]
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	for i := 0; i < 2; i++ {
		tag := vfIntStr(i)
		c, s, angle := vxAngleOf(tag)
		along := vfSlack("along" + tag)
		from, to := dofs[2*i], dofs[2*i+1]
		p.Neumann = append(p.Neumann, NodalValue{Index: from, Value: c * along}, NodalValue{Index: to, Value: s * along})
		tr, bc := NewInclinedSupport(from, to, angle)
		p.EqTransforms = append(p.EqTransforms, tr)
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	if n == 5 {
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dofs[4], Value: vfF("u")})
	}
	q := &Problem{Elements: p.Elements, Neumann: p.Neumann, Dirichlet: vxPermuted("d", p.Dirichlet), EqTransforms: vxPermuted("t", p.EqTransforms)}
	e := &vxSolver{}
	a, err := vxSolve(p, e)
	vfCheck("solving succeeds", err == nil)
	b, err2 := vxSolve(q, e)
	vfCheck("solving succeeds", err2 == nil)
	if err != nil || err2 != nil {
		return
	}
	vxSameResults(a, b, dofs)
	vfCover("inclined")
}

// VvhC19_ElementLoads: loads of real elements in any order, elements in any order.
func VvhC19_ElementLoads() {
	kind := vfInt("kind", 0, 2)
	c, s := vfDir2("dir")
	l0, l1 := vfPos("l0"), vfPos("l1")
	vfAssume(l0 >= vxGap)
	n0 := &Node{ID: "a", X: vfF("x"), Z: vfF("z")}
	n1 := &Node{ID: "b", X: n0.X + l0*c, Z: n0.Z + l0*s}
	n2 := &Node{ID: "c", X: n1.X + l1}
	n2.Z = n1.Z
	m := vxMaterial("")
	specs := vxSpecs(kind)
	first := vfInt("spec", 0, len(specs)-1)
	pos := vfPos("pos")
	vfAssume(pos <= l0)
	var loads []*vxLoad
	for i := 0; i < 3; i++ {
		loads = append(loads, vxNewLoad(specs[(first+i)%len(specs)], pos, vfIntStr(i)))
	}
	build := func(loads []*vxLoad) *vxBar {
		e, err := vxNew(kind, "p", n0, n1, m, nil)
		vfCheck("element is accepted", err == nil)
		for _, ld := range loads {
			vfCheck("supported load is accepted by the element", e.AddLoad(ld.bc))
		}
		return &vxBar{kind: kind, n0: n0, n1: n1, el: e}
	}
	other, err := vxNew(kind, "q", n1, n2, m, nil)
	vfCheck("element is accepted", err == nil)
	b0, b1 := build(loads), build(vxPermuted("l", loads))
	p := &Problem{Elements: []Element{b0.el, other}}
	q := &Problem{Elements: []Element{other, b1.el}}
	dofs := b0.vxDofs()
	half := len(dofs) / 2
	for i, idx := range dofs {
		at2 := idx
		at2.NodalID = "c"
		if i < half {
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: vfF("u" + vfIntStr(i))}, NodalValue{Index: at2})
		} else {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + vfIntStr(i))})
		}
	}
	q.Dirichlet, q.Neumann = p.Dirichlet, p.Neumann
	e := &vxSolver{}
	a, err := vxSolve(p, e)
	vfCheck("solving succeeds", err == nil)
	b, err2 := vxSolve(q, e)
	vfCheck("solving succeeds", err2 == nil)
	if err != nil || err2 != nil {
		return
	}
	vxSameResults(a, b, dofs)
	vfCover("loads")
}

const vxOrderDoc = `{
 "nodes": {"a": [{{xa}}, 0, {{za}}], "b": [{{xb}}, 0, {{zb}}], "c": [{{xc}}, 0, {{zb}}]},
 "material": {"m": {"kind": "linelast", "parameter": {"E": {{E}}, "nu": 0.3, "rho": 1}},
  "n": {"kind": "linelast", "parameter": {"E": {{E2}}, "nu": 0.3, "rho": 1}}},
 "crosssection": {"r": {"kind": "constants", "parameter": {"A": {{A}}, "Iyy": {{I}}, "Izz": 1}},
  "s": {"kind": "constants", "parameter": {"A": {{A2}}, "Iyy": {{I}}, "Izz": 1}}},
 "elements": {"ab": {"kind": "frame2d", "material": "m", "cs": "r", "hinges": {"a": ["Phiy"], "b": ["Ux"]}},
  "bc": {"kind": "truss2d", "material": "n", "cs": "s"}},
 "dirichlet": {"a": [{"Ux": {{u0}}, "Uz": {{u1}}}, {"Phiy": 0}], "c": [{"Ux": 0, "Uz": {{u2}}}]},
 "neumann": {"b": [{"Fx": {{f0}}, "My": {{f2}}}, {"Fz": {{f1}}}],
  "ab": [{"kind": "qz", "degree": "constant", "values": [{{q0}}]}, {"kind": "qz", "degree": "linear", "values": [{{q1}}, {{q2}}]}],
  "bc": [{"kind": "qx", "degree": "constant", "values": [{{q3}}]}]}
}`

func vxReadInOrder(policy string, budget int) {
	c, s := vfDir2("dir")
	l0, l1 := vfPos("l0"), vfPos("l1")
	m0 := &Material{CrossSection: &vxCS{a: vfPos("A"), iyy: vfPos("I"), izz: 1}, LinearElastic: LinearElastic{YoungsModulus: vfPos("E")}}
	m1 := &Material{CrossSection: &vxCS{a: vfPos("A2"), iyy: m0.Iyy(), izz: 1}, LinearElastic: LinearElastic{YoungsModulus: vfPos("E2")}}
	a := &Node{ID: "a", X: vfF("x"), Z: vfF("z")}
	b := &Node{ID: "b", X: a.X + l0*c, Z: a.Z + l0*s}
	d := &Node{ID: "c", X: b.X + l1, Z: b.Z}
	u := []float64{vfF("u0"), vfF("u1"), vfF("u2")}
	f := []float64{vfSlack("f0"), vfSlack("f1"), vfSlack("f2")}
	q := []float64{vfF("q0"), vfF("q1"), vfF("q2"), vfF("q3")}
	frame, err := NewFrame2d("ab", a, b, m0, map[Index]struct{}{vxIdx("a", Phiy): {}, vxIdx("b", Ux): {}})
	vfCheck("element is accepted", err == nil)
	truss, err := NewTruss2d("bc", b, d, m1, nil)
	vfCheck("element is accepted", err == nil)
	vfCheck("load is accepted", frame.AddLoad(NewElementConstantLoad(Uz, q[0])) && frame.AddLoad(NewElementLinearLoad(Uz, q[1], q[2])) &&
		truss.AddLoad(NewElementConstantLoad(Ux, q[3])))
	ref := &Problem{Elements: []Element{frame, truss},
		Dirichlet: []NodalValue{{vxIdx("a", Ux), u[0]}, {vxIdx("a", Uz), u[1]}, {vxIdx("a", Phiy), 0}, {vxIdx("c", Ux), 0}, {vxIdx("c", Uz), u[2]}},
		Neumann:   []NodalValue{{vxIdx("b", Ux), f[0]}, {vxIdx("b", Uz), f[1]}, {vxIdx("b", Phiy), f[2]}}}
	e := &vxSolver{}
	want, err := vxSolve(ref, e)
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	doc := vfDoc(vxOrderDoc, map[string]float64{"xa": a.X, "za": a.Z, "xb": b.X, "zb": b.Z, "xc": d.X, "E": m0.YoungsModulus,
		"E2": m1.YoungsModulus, "A": m0.Area(), "A2": m1.Area(), "I": m0.Iyy(), "u0": u[0], "u1": u[1], "u2": u[2],
		"f0": f[0], "f1": f[1], "f2": f[2], "q0": q[0], "q1": q[1], "q2": q[2], "q3": q[3]})
	vfMapOrder(policy, budget)
	p, err := ProblemFromJSON(doc)
	vfCheck("well-formed description is accepted", err == nil)
	if err != nil {
		return
	}
	got, err := vxSolve(&p, e)
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	vxSameResults(want, got, []Index{{"a", Ux}, {"a", Uz}, {"a", Phiy}, {"b", Ux}, {"b", Uz}, {"b", Phiy}, {"c", Ux}, {"c", Uz}})
	vfCover("description")
}

// VvhC19_Description: a description read in any order gives the results of the problem built by hand.
func VvhC19_Description() { vxReadInOrder("full", 1) }

func VvhC19_Description_Thorough() { vxReadInOrder("full", 2) }

// VvhC19_Many: longer lists, reversed, rotated and interleaved, each on its own or all together.
func VvhC19_Many() {
	dofs := []Index{{"n10", Ux}, {"n2", Ux}, {"n2", Uz}, {"n1", Uz}, {"n3", Uy}, {"n3", Phiy}, {"n1", Phix}, {"n10", Uz}}
	p := &Problem{}
	for i, id := range []string{"e10", "e2", "e1", "e3"} {
		p.Elements = append(p.Elements, vxNewBlob(id, dofs[i], dofs[i+1], dofs[i+4]))
	}
	for i := 0; i < 4; i++ {
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dofs[i], Value: vfF("u" + vfIntStr(i))})
		p.Neumann = append(p.Neumann, NodalValue{Index: dofs[i+4], Value: vfSlack("f" + vfIntStr(i))},
			NodalValue{Index: dofs[2*i%3+3], Value: vfF("g" + vfIntStr(i))})
	}
	how, which := vfInt("how", 0, 2), vfInt("which", 0, 3)
	pick := func(list, n int) (out []int) {
		for i := 0; i < n; i++ {
			switch {
			case which != 3 && which != list:
				out = append(out, i)
			case how == 0:
				out = append(out, n-1-i)
			case how == 1:
				out = append(out, (i+n/2)%n)
			default:
				out = append(out, (3*i+1)%n) // n is 4 or 8
			}
		}
		return out
	}
	q := &Problem{}
	for _, i := range pick(0, len(p.Elements)) {
		q.Elements = append(q.Elements, p.Elements[i])
	}
	for _, i := range pick(1, len(p.Dirichlet)) {
		q.Dirichlet = append(q.Dirichlet, p.Dirichlet[i])
	}
	for _, i := range pick(2, len(p.Neumann)) {
		q.Neumann = append(q.Neumann, p.Neumann[i])
	}
	e := &vxSolver{}
	a, err := vxSolve(p, e)
	vfCheck("solving succeeds", err == nil)
	b, err2 := vxSolve(q, e)
	vfCheck("solving succeeds", err2 == nil)
	if err != nil || err2 != nil {
		return
	}
	vxSameResults(a, b, dofs)
	vfCover("many")
}

// VvhC19_Positions: concentrated loads at the start, inside, and at the end, or at the same position, in any order.
func VvhC19_Positions() {
	kind := vfInt("kind", 0, 2)
	dof := Ux
	if kind == vxFrame2d {
		dof = vxDofChoice("load", Ux, Uz, Phiy)
	}
	b := vxMakeLong(kind, "", nil)
	c, err := vxNew(kind, "e", b.n0, b.n1, b.mat, nil)
	vfCheck("element is accepted", b.err == nil && err == nil)
	if b.err != nil || err != nil {
		return
	}
	h := b.l / 2
	pos := [][]float64{{0, h, b.l}, {h, 0, h}, {b.l, 0, b.l}}[vfInt("positions", 0, 2)]
	var loads []*vxLoad
	for i, x := range pos {
		loads = append(loads, vxNewLoad(vxSpec{vxConc, dof}, x, vfIntStr(i)))
		vfCheck("supported load is accepted by the element", b.el.AddLoad(loads[i].bc))
	}
	for _, ld := range vxPermuted("l", loads) {
		vfCheck("supported load is accepted by the element", c.AddLoad(ld.bc))
	}
	s := b.vxDisplaced(loads)
	p, q := vxAssemble(b.el), vxAssemble(c)
	for _, idx := range b.vxDofs() {
		vfEq("same load in any order", q.load(idx), p.load(idx))
	}
	for _, f := range vxFcts(kind) {
		x, y := b.el.Interpolate(s.lay, f, s.d), c.Interpolate(s.lay, f, s.d)
		vfCheck("same number of pieces in any order", len(x) == len(y))
		for i := range min(len(x), len(y)) {
			vxSamePiece("same piece in any order", y[i], x[i])
		}
	}
	vfCover("positions")
}
