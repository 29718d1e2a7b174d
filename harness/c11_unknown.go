package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: systems of dimension 2 to 5; an unknown degree of freedom at one place of the problem: any
// degree of freedom of an element of any kind, a nodal load, a prescribed value, either end of an
// inclined support; node IDs are arbitrary strings of up to two printable characters for the generic problem; query sequences of length
// three on results; nodes with every set of degrees of freedom asked for every other one; a layout that is used again after a failure.

func vxKnown() (*Problem, []Index) {
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Uz}}
	return &Problem{
		Elements:  []Element{vxNewBlob("p", dofs...)},
		Dirichlet: []NodalValue{{Index: dofs[0], Value: 0}},
		Neumann: []NodalValue{{Index: dofs[1], Value: vfSlack("f1")},
			{Index: dofs[2], Value: vfSlack("f2")}, {Index: dofs[3], Value: vfSlack("f3")}},
	}, dofs
}

// vxUnknown is a degree of freedom of an arbitrary node that is not in the list.
func vxUnknown(dofs []Index) Index {
	idx := Index{NodalID: vfStr("node"), Dof: vxDofChoice("", Ux, Phiy)}
	for _, o := range dofs {
		vfAssume(idx != o)
	}
	return idx
}

func VvhC11_Problem() {
	p, dofs := vxKnown()
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	idx := vxUnknown(dofs)
	switch vfInt("place", 0, 4) {
	case 0:
		p.Elements = append(p.Elements, vxNewBlob("q", dofs[1], idx))
		vfCover("element")
	case 1:
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("load")})
		vfCover("load")
	case 2:
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: vfF("value")})
		vfCover("prescribed value")
	case 3:
		tr, _ := NewInclinedSupport(idx, dofs[3], vfAngle("angle"))
		p.EqTransforms = append(p.EqTransforms, tr)
		vfCover("first of link")
	case 4:
		tr, _ := NewInclinedSupport(dofs[2], idx, vfAngle("angle"))
		p.EqTransforms = append(p.EqTransforms, tr)
		vfCover("second of link")
	}
	if vfInt("twice", 0, 1) == 1 {
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("again")})
	}
	_, err = NewLinearProblemSolver().Solve(p, lay, &vxSolver{})
	vfCheck("unknown degree of freedom is an error", err != nil)

	// the layout is still good for the problem it was made for
	p, _ = vxKnown()
	res, err := NewLinearProblemSolver().Solve(p, lay, &vxSolver{})
	vfCheck("layout works after a failure", err == nil)
	if err == nil {
		vxEquilibrium(p, res, dofs)
	}
}

// VvhC11_Elements: an element of any kind with one degree of freedom that is unknown.
func VvhC11_Elements() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	dofs := b.vxDofs()
	gone := vfInt("gone", 0, len(dofs)-1)
	used := map[Index]struct{}{}
	b.el.Indices(used)
	if _, ok := used[dofs[gone]]; !ok {
		return
	}
	var known []Index
	for i, idx := range dofs {
		if i != gone {
			known = append(known, idx)
		}
	}
	lay, err := NewEqLayout(&Problem{Elements: []Element{&vxBlob{id: "p", dofs: known}},
		Dirichlet: []NodalValue{{Index: known[0]}}})
	vfCheck("numbering succeeds", err == nil)
	_, err = NewLinearProblemSolver().Solve(&Problem{Elements: []Element{b.el},
		Dirichlet: []NodalValue{{Index: known[0]}}}, lay, &vxSolver{})
	vfCheck("unknown degree of freedom of an element is an error", err != nil)
	vfCover("element")
}

// VvhC11_Queries: valid and invalid queries in any order.
func VvhC11_Queries() {
	p, dofs := vxKnown()
	el := p.Elements[0].(*vxBlob)
	el.ps = map[Fct]PolySequence{FctNx: {PolyPiece{X0: 0, XE: 1, Coeff: []float64{2}}}}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	d, r := map[Index]float64{}, map[Index]float64{}
	for _, idx := range dofs {
		d[idx], r[idx] = vxPrimary(res, idx), vxReaction(res, idx)
	}
	idx := vxUnknown(dofs)
	name := vfStr("element")
	vfAssume(name != "p")
	for i := 0; i < 3; i++ {
		switch vfInt("query"+vfIntStr(i), 0, 5) {
		case 0:
			_, err := res.Primary(idx)
			vfCheck("displacement of an unknown degree of freedom is an error", err != nil)
		case 1:
			_, err := res.Reaction(idx)
			vfCheck("reaction of an unknown degree of freedom is an error", err != nil)
		case 2:
			_, err := res.Interpolate(name, FctNx, 1e-9)
			vfCheck("interpolation of an unknown element is an error", err != nil)
		case 3:
			k := dofs[vfInt("known"+vfIntStr(i), 0, 3)]
			vfEq("displacement of a known degree of freedom", vxPrimary(res, k), d[k])
			vfEq("reaction of a known degree of freedom", vxReaction(res, k), r[k])
		case 4:
			got, err := res.Interpolate("p", FctNx, 1e-9)
			vfCheck("interpolation of a known element succeeds", err == nil && len(got.Piecewise) == 1)
		case 5:
			vfCheck("listings are complete", len(res.PrimaryAll()) == 4 && len(res.ReactionAll()) == 4)
		}
	}
	vfCover("queries")
}

// VvhC11_Interpolation: an element that needs an unknown degree of freedom for its interpolation.
func VvhC11_Interpolation() {
	p, dofs := vxKnown()
	el := p.Elements[0].(*vxBlob)
	el.ps = map[Fct]PolySequence{FctNx: {PolyPiece{X0: 0, XE: 1, Coeff: []float64{2}}}}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	el.dofs = append([]Index{}, dofs...)
	el.dofs[vfInt("which", 0, 3)] = vxUnknown(dofs)
	_, err = res.Interpolate("p", FctNx, 1e-9)
	vfCheck("interpolation with an unknown degree of freedom is an error", err != nil)
	el.dofs = dofs
	_, err = res.Interpolate("p", FctNx, 1e-9)
	vfCheck("later interpolation succeeds", err == nil)
	_, err = res.Primary(dofs[1])
	vfCheck("later query succeeds", err == nil)
	vfCover("interpolation")
}

// VvhC11_SixDofs: nodes with any set of degrees of freedom, asked for any other one.
func VvhC11_SixDofs() {
	all := []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}
	mask := vfInt("set", 1, 62)
	asked := vfInt("asked", 0, 5)
	if mask>>asked&1 == 1 {
		return
	}
	node, other := "a", "b"
	if vfInt("node", 0, 1) == 1 {
		node, other = other, node
	}
	idx := Index{node, all[asked]}
	var dofs []Index
	for i, d := range all {
		if mask>>i&1 == 1 {
			dofs = append(dofs, Index{node, d})
		}
		if node == "a" && i < 2 || node == "b" { // all degrees of freedom at the other node, or two of them
			dofs = append(dofs, Index{other, d})
		}
	}
	el := &vxBlob{id: "p", dofs: dofs, k: vxZeros(len(dofs), len(dofs)), r: make([]float64, len(dofs))}
	p := &Problem{Elements: []Element{el}, Dirichlet: []NodalValue{{Index: dofs[0]}}}
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	switch vfInt("where", 0, 4) {
	case 0:
		res, err := NewLinearProblemSolver().Solve(p, lay, &vxDone{})
		vfCheck("solving succeeds", err == nil)
		if err != nil {
			return
		}
		_, err = res.Primary(idx)
		vfCheck("displacement of an unknown degree of freedom is an error", err != nil)
		_, err = res.Reaction(idx)
		vfCheck("reaction of an unknown degree of freedom is an error", err != nil)
		vfCover("result")
		return
	case 1:
		p.Neumann = []NodalValue{{Index: idx, Value: vfF("load")}}
	case 2:
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: vfF("value")})
		_, err := NewEqLayout(p)
		vfCheck("unconnected prescribed value is an error", err != nil)
	case 3:
		p.Elements = append(p.Elements, vxNewBlob("q", dofs[1], idx))
	case 4:
		known := dofs[len(dofs)-1]
		tr, _ := NewInclinedSupport(known, idx, vfAngle("angle"))
		if vfInt("swapped", 0, 1) == 1 {
			tr, _ = NewInclinedSupport(idx, known, vfAngle("angle"))
		}
		p.EqTransforms = []Transformer{tr}
	}
	_, err = NewLinearProblemSolver().Solve(p, lay, &vxDone{})
	vfCheck("unknown degree of freedom is an error", err != nil)
	vfCover("problem")
}

type vxDone struct{}

func (*vxDone) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error { return nil }
