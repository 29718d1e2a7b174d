package deflect

// BOUNDS: elements of kind truss2d, truss3d, frame2d (frames also with a hinge): two load cases of one load each
// (every supported kind, equal or different, or none) at any position (in either order, equal, or at an
// end; distinct ones at least 1e-6 apart), listed side by side or added up, any displacements, geometry,
// material; every point of the element. Generic systems of dimension 2 to 4 with settlements, nodal and
// element loads, and an inclined support; any equation solver that
// solves the system; exact real arithmetic.
// Larger instances, with symbolic values throughout: six loads on one element distributed over two load cases.

// vxCombine adds load cases to three copies of an element: the first, the second, and both.
func vxCombine(kind int, hinges map[Index]struct{}, specs []vxSpec) (bars [3]*vxBar, loads [3][]*vxLoad) {
	b := vxMakeLong(kind, "", hinges)
	vfCheck("element is accepted", b.err == nil)
	bars[0] = b
	for i := 1; i < 3; i++ {
		o := *b
		o.el, o.err = vxNew(kind, "e", b.n0, b.n1, b.mat, hinges)
		bars[i] = &o
	}
	add := func(i int, ld *vxLoad) {
		vfCheck("supported load is accepted by the element", bars[i].el.AddLoad(ld.bc))
		loads[i] = append(loads[i], ld)
	}
	i := vfInt("first load", 0, len(specs)-1)
	j := vfInt("second load", i, len(specs)) // or none
	pos := 0.0
	if specs[i].typ == vxConc {
		pos = vxChoosePos(b.l, "0")
	}
	ld := vxNewLoad(specs[i], pos, "0")
	add(0, ld)
	if j == i && vfBool("added up") {
		o := vxNewLoad(specs[j], pos, "1")
		add(1, o)
		sum := &vxLoad{typ: ld.typ, kind: ld.kind, pos: pos, v0: ld.v0 + o.v0, v1: ld.v1 + o.v1}
		switch ld.typ {
		case vxConc:
			bc, err := NewElementConcentratedLoad(ld.kind, pos, sum.v0)
			vfCheck("valid concentrated load is accepted", err == nil)
			sum.bc = bc
		case vxConst:
			sum.bc = NewElementConstantLoad(ld.kind, sum.v0)
		default:
			sum.bc = NewElementLinearLoad(ld.kind, sum.v0, sum.v1)
		}
		add(2, sum)
		return
	}
	add(2, ld)
	if j < len(specs) {
		p := 0.0
		if specs[j].typ == vxConc {
			if specs[i].typ == vxConc && vfBool("same place") {
				p = pos
			} else {
				p = vxChoosePos(b.l, "1")
				if specs[i].typ == vxConc {
					vxSeparate(p, pos, "")
				}
			}
		}
		o := vxNewLoad(specs[j], p, "1")
		add(1, o)
		if vfBool("other order") {
			bars[2].el.RemoveLoad(ld.bc)
			loads[2] = nil
			add(2, o)
			add(2, ld)
		} else {
			add(2, o)
		}
	}
	return
}

// vxSuperpose compares the response to both load cases with the sum of the responses.
func vxSuperpose(kind int, hinges map[Index]struct{}, specs []vxSpec) {
	bars, loads := vxCombine(kind, hinges, specs)
	vxSuperposed(kind, bars, loads)
}

func vxSuperposed(kind int, bars [3]*vxBar, loads [3][]*vxLoad) {
	n := len(bars[0].vxDofs())
	var g [3][]float64
	for i := 0; i < n; i++ {
		d, e := vfF("d"+vfIntStr(i)), vfF("e"+vfIntStr(i))
		g[0], g[1], g[2] = append(g[0], d), append(g[1], e), append(g[2], d+e)
	}
	var s [3]*vxState
	for i := range s {
		s[i] = bars[i].vxDisplacedBy(loads[i], g[i])
	}
	for i := 0; i < n; i++ {
		vfEq("nodal forces superpose", s[2].f[i], s[0].f[i]+s[1].f[i])
	}
	at := vfPos("at")
	vfAssume(at < bars[0].l)
	for i := range loads[2] {
		if loads[2][i].typ == vxConc {
			vfAssume(at != loads[2][i].pos)
		}
	}
	for _, f := range vxFcts(kind) {
		vfEq(f.String()+" superposes", vxAtPoint(s[2].interp(f), at), vxAtPoint(s[0].interp(f), at)+vxAtPoint(s[1].interp(f), at))
	}
}

func VvhC25_Truss() {
	kind := vfInt("kind", vxTruss2d, vxTruss3d)
	vxSuperpose(kind, nil, vxSpecs(kind))
}

func VvhC25_Frame() {
	// axial loads are those of the truss
	if vfBool("transverse") {
		vxSuperpose(vxFrame2d, nil, vxSpecs(vxFrame2d)[3:])
	} else {
		s := vxSpecs(vxFrame2d)
		vxSuperpose(vxFrame2d, nil, []vxSpec{s[0], s[3], s[5]})
	}
}

func VvhC25_Hinged() {
	h := []Index{vxIdx("a", Phiy), vxIdx("b", Phiy), vxIdx("b", Ux)}[vfInt("hinge", 0, 2)]
	s := vxSpecs(vxFrame2d)
	vxSuperpose(vxFrame2d, map[Index]struct{}{h: {}}, []vxSpec{s[2], s[3], s[4], s[6]}[:])
}

// vxSystem is a load case of a generic structure.
type vxSystem struct {
	p   *Problem
	sol *vxSolver
	res ProblemResult
}

func (c *vxSystem) vxSolve(s EquationSolver) bool {
	lay, err := NewEqLayout(c.p)
	vfCheck("numbering succeeds", err == nil)
	c.res, err = NewLinearProblemSolver().Solve(c.p, lay, s)
	vfCheck("solving succeeds", err == nil)
	return err == nil
}

// VvhC25_Solution: displacements and reactions of generic structures.
func VvhC25_Solution() {
	n := vfInt("dim", 2, 4)
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Uz}}[:n]
	fixed := vfInt("supports", 1, n-1)
	inclined := n > 2 && fixed < 3 && vfBool("inclined")
	cos, sin, angle := 1.0, 0.0, 0.0
	if inclined {
		cos, sin, angle = vxAngleOf("")
		fixed--
	}
	if inclined && fixed > n-2 {
		return
	}
	el := vxNewBlob("p", dofs...)
	cases := []*vxSystem{}
	for k := 0; k < 2; k++ {
		tag := vfIntStr(k)
		b := &vxBlob{id: "p", dofs: dofs, k: el.k}
		for i := range dofs {
			b.r = append(b.r, vfF("r"+tag+vfIntStr(i)))
		}
		c := &vxSystem{p: &Problem{Elements: []Element{b}}, sol: &vxSolver{}}
		for i, idx := range dofs {
			switch {
			case i < fixed:
				c.p.Dirichlet = append(c.p.Dirichlet, NodalValue{Index: idx, Value: vfF("u" + tag + vfIntStr(i))})
				c.p.Neumann = append(c.p.Neumann, NodalValue{Index: idx, Value: vfF("f" + tag + vfIntStr(i))})
			case inclined && i == n-2:
				along, across := vfSlack("along"+tag), vfF("across"+tag)
				c.p.Neumann = append(c.p.Neumann, NodalValue{Index: idx, Value: cos*along - sin*across},
					NodalValue{Index: dofs[n-1], Value: sin*along + cos*across})
				tr, bc := NewInclinedSupport(idx, dofs[n-1], angle)
				c.p.EqTransforms = append(c.p.EqTransforms, tr)
				c.p.Dirichlet = append(c.p.Dirichlet, bc)
			case inclined && i == n-1:
			default:
				c.p.Neumann = append(c.p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + tag + vfIntStr(i))})
			}
		}
		if !c.vxSolve(c.sol) {
			return
		}
		cases = append(cases, c)
	}
	one, two := cases[0], cases[1]
	sum := &vxSystem{p: &Problem{EqTransforms: one.p.EqTransforms}}
	b := &vxBlob{id: "p", dofs: dofs, k: el.k}
	for i := range dofs {
		b.r = append(b.r, one.p.Elements[0].(*vxBlob).r[i]+two.p.Elements[0].(*vxBlob).r[i])
	}
	sum.p.Elements = []Element{b}
	for i, bc := range one.p.Dirichlet {
		sum.p.Dirichlet = append(sum.p.Dirichlet, NodalValue{Index: bc.Index, Value: bc.Value + two.p.Dirichlet[i].Value})
	}
	if vfBool("listed side by side") {
		sum.p.Neumann = append(append(sum.p.Neumann, one.p.Neumann...), two.p.Neumann...)
	} else {
		for i, bc := range one.p.Neumann {
			sum.p.Neumann = append(sum.p.Neumann, NodalValue{Index: bc.Index, Value: bc.Value + two.p.Neumann[i].Value})
		}
	}
	x := make([]float64, len(one.sol.calls[0].x))
	for k := range x {
		x[k] = one.sol.calls[0].x[k] + two.sol.calls[0].x[k]
	}
	if !sum.vxSolve(&vxGivenSolver{x: x}) {
		return
	}
	for _, idx := range dofs {
		vfEq("displacements superpose", vxPrimary(sum.res, idx), vxPrimary(one.res, idx)+vxPrimary(two.res, idx))
		vfEq("reactions superpose", vxReaction(sum.res, idx), vxReaction(one.res, idx)+vxReaction(two.res, idx))
	}
	vfCover("solution")
}

// VvhC25_Many: six loads, distributed over two load cases.
func VvhC25_Many() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	var bars [3]*vxBar
	var loads [3][]*vxLoad
	bars[2] = vxMakeLong(kind, "", nil)
	loads[2] = bars[2].vxManyLoads()
	split := vfInt("split", 0, 2)
	for i := range 2 {
		o := *bars[2]
		o.el, o.err = vxNew(kind, "e", o.n0, o.n1, o.mat, nil)
		bars[i] = &o
	}
	for i, ld := range loads[2] {
		k := []int{i % 2, i / 3 % 2, i / 2 % 2}[split]
		vfCheck("supported load is accepted by the element", bars[k].el.AddLoad(ld.bc))
		loads[k] = append(loads[k], ld)
	}
	vxSuperposed(kind, bars, loads)
}
