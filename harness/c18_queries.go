package deflect

// BOUNDS: results of generic problems with three to five degrees of freedom, one or two prescribed,
// with and without an inclined support, sequences of three queries of any kind; two or three elements
// that provide any of four quantities with up to two pieces each; real truss2d, truss3d and frame2d
// elements together; all coefficients and every tolerance up to 1e-6; exact real arithmetic.
// Larger instances, with symbolic values throughout: one instance of dimension 8 with five elements.
// The same quantity interpolated with two tolerances (of 0, 1e-3, 10) one after the other; 18 interpolations of three loaded elements that are kept while all others are asked for again.

func vxListed(label string, all []NodalValue, dofs []Index, value func(Index) float64) {
	vfCheck(label+": every degree of freedom is listed once", len(all) == len(dofs))
	for _, idx := range dofs {
		n := 0
		for _, v := range all {
			if v.Index == idx {
				n++
				vfEq(label+": listed value is the queried one", v.Value, value(idx))
			}
		}
		vfCheck(label+": every degree of freedom is listed once", n == 1)
	}
}

// VvhC18_Values: lists of displacements and reactions, in any order of queries.
func VvhC18_Values() {
	n := vfInt("dim", 3, 5)
	dofs := []Index{{"b", Phiy}, {"a", Uz}, {"b", Ux}, {"a", Ux}, {"c", Uz}}[:n]
	fixed := vfInt("fixed", 0, 2)
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs[:2]...), vxNewBlob("q", dofs[1:]...)}}
	inclined := vfInt("inclined", 0, 1) == 1
	count := 0
	for i, idx := range dofs {
		tag := vfIntStr(i)
		switch {
		case inclined && i == 1:
			c, s, angle := vxAngleOf("")
			along := vfSlack("along")
			tr, bc := NewInclinedSupport(idx, dofs[2], angle)
			p.EqTransforms, p.Dirichlet = append(p.EqTransforms, tr), append(p.Dirichlet, bc)
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: c * along}, NodalValue{Index: dofs[2], Value: s * along})
			count++
		case inclined && i == 2:
		case i == 0 && fixed != 1, i == n-1 && fixed > 0 && (!inclined || i > 2):
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: vfF("u" + tag)})
			count++
		default:
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + tag)})
		}
	}
	vfAssume(count > 0)
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	d := func(idx Index) float64 { return vxPrimary(res, idx) }
	r := func(idx Index) float64 { return vxReaction(res, idx) }
	for i := 0; i < 3; i++ {
		switch vfInt("query"+vfIntStr(i), 0, 3) {
		case 0:
			vxListed("displacements", res.PrimaryAll(), dofs, d)
		case 1:
			vxListed("reactions", res.ReactionAll(), dofs, r)
		case 2:
			for _, idx := range dofs {
				vxPrimary(res, idx)
				vxReaction(res, idx)
			}
		case 3:
			_, err := res.Primary(vxIdx("nowhere", Ux))
			vfCheck("unknown degree of freedom is an error", err != nil)
			vfCheck("nothing to interpolate", len(res.InterpolateAll(0)) == 0)
		}
	}
	vxListed("displacements", res.PrimaryAll(), dofs, d)
	vxListed("reactions", res.ReactionAll(), dofs, r)
	total, net := res.Dimension()
	vfCheck("total number of degrees of freedom", total == len(dofs))
	vfCheck("number of unconstrained degrees of freedom", net == len(dofs)-count)
	vfCover("values")
}

var vxAllFct = []Fct{FctUx, FctUz, FctUy, FctPhiy, FctPhiz, FctPhix, FctNx, FctVz, FctVy, FctMy, FctMz, FctMx}

// vxCompareAll asserts that everything interpolated at once is what is interpolated one by one.
func vxCompareAll(res ProblemResult, ids []string, provides func(id string, q Fct) bool, tol float64) {
	all := res.InterpolateAll(tol)
	n := 0
	for _, id := range ids {
		for _, q := range vxAllFct {
			one, err := res.Interpolate(id, q, tol)
			vfCheck("interpolating a known element succeeds", err == nil)
			vfCheck("interpolation is labelled with its element and quantity", one.Element == id && one.Quantity == q)
			vfCheck("exactly the quantities of the element are provided", (len(one.Piecewise) > 0) == provides(id, q))
			found := 0
			for _, o := range all {
				if o.Element != id || o.Quantity != q {
					continue
				}
				found++
				vfCheck("same number of pieces", len(o.Piecewise) == len(one.Piecewise))
				for i := range min(len(o.Piecewise), len(one.Piecewise)) {
					vxSamePiece("same piece", o.Piecewise[i], one.Piecewise[i])
				}
			}
			if provides(id, q) {
				n++
				vfCheck("provided quantity is listed once", found == 1)
			} else {
				vfCheck("no other quantity is listed", found == 0)
			}
		}
	}
	vfCheck("nothing else is listed", len(all) == n)
}

// VvhC18_Interpolations: generic elements that provide some quantities.
func VvhC18_Interpolations() {
	dofs := []Index{{"a", Ux}, {"b", Ux}, {"c", Ux}}
	ids := []string{"p", "q", "pq"}[:vfInt("elements", 2, 3)]
	p := &Problem{Dirichlet: []NodalValue{{Index: dofs[0], Value: vfF("u")}}}
	p.Neumann = []NodalValue{{Index: dofs[1], Value: vfSlack("f")}, {Index: dofs[2], Value: vfSlack("g")}}
	has := map[string]Fct{}
	for i, id := range ids {
		e := vxNewBlob(id, dofs[i%2:i%2+2]...)
		q := FctPhix
		if i == 0 {
			q = vxAllFct[vfInt("which", 0, 11)]
		} else if i == 1 {
			q = []Fct{FctUx, FctMx}[vfInt("other", 0, 1)]
		}
		l := vfPos("l" + id)
		e.ps = map[Fct]PolySequence{q: {{X0: 0, XE: l, Coeff: []float64{vfF("c" + id)}}}}
		if i == 0 {
			switch vfInt("more", 0, 3) {
			case 1:
				e.ps[q] = append(e.ps[q], PolyPiece{X0: l, XE: 2 * l, Coeff: []float64{vfF("e" + id), vfPos("d" + id)}})
			case 2: // to be merged
				e.ps[q] = append(e.ps[q], PolyPiece{X0: l, XE: 2 * l, Coeff: []float64{e.ps[q][0].Coeff[0]}})
			case 3: // to be trimmed
				e.ps[q][0].Coeff = append(e.ps[q][0].Coeff, vfF("d"+id), 0)
			}
		}
		has[id] = q
		p.Elements = append(p.Elements, e)
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	tol := 0.0
	if len(ids) == 2 && len(p.Elements[0].(*vxBlob).ps[has["p"]]) == 1 && len(p.Elements[0].(*vxBlob).ps[has["p"]][0].Coeff) == 1 {
		tol = vfNN("tol")
		vfAssume(tol <= vxGap)
	}
	vxCompareAll(res, ids, func(id string, q Fct) bool { return has[id] == q }, tol)
	_, err = res.Interpolate("x", FctUx, tol)
	vfCheck("unknown element is an error", err != nil)
	vfCover("interpolations")
}

// VvhC18_Kinds: real elements of all kinds provide their quantities.
func VvhC18_Kinds() {
	kind := vfInt("kind", 0, 2)
	x, l := vfF("x"), vfPos("l")
	vfAssume(l >= vxGap)
	m := vxMaterial("")
	n0, n1 := &Node{ID: "a", X: x}, &Node{ID: "b", X: x + l}
	e, err := vxNew(kind, "p", n0, n1, m, nil)
	vfCheck("element is accepted", err == nil)
	f, err := NewTruss2d("q", n1, &Node{ID: "c", X: x + 2*l}, m, nil)
	vfCheck("element is accepted", err == nil)
	p := &Problem{Elements: []Element{e, f}}
	for _, idx := range (&vxBar{kind: kind, n0: n0, n1: n1}).vxDofs() {
		if idx == vxIdx("b", Ux) {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f")})
		} else {
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx})
		}
	}
	p.Dirichlet = append(p.Dirichlet, NodalValue{Index: vxIdx("c", Ux)}, NodalValue{Index: vxIdx("c", Uz)})
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	vxCompareAll(res, []string{"p", "q"}, func(id string, q Fct) bool {
		switch q {
		case FctUx, FctNx:
			return true
		case FctUz, FctPhiy, FctMy, FctVz:
			return id == "p" && kind == vxFrame2d
		}
		return false
	}, 0)
	vfCover("kinds")
}

// VvhC18_Many: more degrees of freedom, supports and elements, interpolated after other queries.
func VvhC18_Many() {
	dofs := []Index{{"n10", Phiy}, {"n2", Uz}, {"n10", Ux}, {"n2", Ux}, {"n1", Uz}, {"n3", Phix}, {"n3", Uy}, {"n1", Ux}}
	p := &Problem{}
	ids := []string{"e10", "e2", "e1", "E3", "e"}
	has := map[string][]Fct{}
	for i, id := range ids {
		e := vxNewBlob(id, dofs[i], dofs[i+1], dofs[i+3])
		e.ps = map[Fct]PolySequence{}
		for j := 0; j <= i%3; j++ {
			q := vxAllFct[(5*i+4*j)%12]
			has[id] = append(has[id], q)
			l := vfPos("l" + id + vfIntStr(j))
			e.ps[q] = PolySequence{{X0: 0, XE: l, Coeff: []float64{vfPos("c" + id + vfIntStr(j))}}}
			if i == 2 {
				e.ps[q] = append(e.ps[q], PolyPiece{X0: l, XE: 2 * l, Coeff: []float64{vfF("b" + id + vfIntStr(j)), vfPos("a" + id + vfIntStr(j))}})
			}
		}
		p.Elements = append(p.Elements, e)
	}
	fixed := map[int]bool{1: true, 4: true, 7: true}
	if vfInt("more", 0, 1) == 1 {
		fixed = map[int]bool{0: true, 2: true, 3: true, 4: true, 5: true, 6: true}
	}
	for i, idx := range dofs {
		if fixed[i] {
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: vfF("u" + vfIntStr(i))})
		} else {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + vfIntStr(i))})
		}
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	provides := func(id string, q Fct) bool {
		for _, o := range has[id] {
			if o == q {
				return true
			}
		}
		return false
	}
	vxListed("displacements", res.PrimaryAll(), dofs, func(idx Index) float64 { return vxPrimary(res, idx) })
	vxCompareAll(res, ids, provides, 0)
	vxListed("reactions", res.ReactionAll(), dofs, func(idx Index) float64 { return vxReaction(res, idx) })
	total, net := res.Dimension()
	vfCheck("total number of degrees of freedom", total == len(dofs))
	vfCheck("number of unconstrained degrees of freedom", net == len(dofs)-len(fixed))
	vxCompareAll(res, ids, provides, 0)
	vfCover("many")
}

// VvhC18_Tolerances: the same quantity asked for with one tolerance after another, alone or with all others.
func VvhC18_Tolerances() {
	e := vxNewBlob("p", Index{"a", Ux}, Index{"b", Ux})
	l := vfPos("l")
	vfAssume(l >= 100)
	e.ps = map[Fct]PolySequence{
		FctNx: {{X0: 0, XE: l, Coeff: []float64{20, vfF("s")}}, {X0: l, XE: 2 * l, Coeff: []float64{vfPos("d")}}},
	}
	p := &Problem{Elements: []Element{e}, Dirichlet: []NodalValue{{Index: Index{"a", Ux}}}, Neumann: []NodalValue{{Index: Index{"b", Ux}, Value: vfSlack("f")}}}
	s := &vxSolver{}
	used, err := vxSolve(p, s)
	vfCheck("solving succeeds", err == nil)
	fresh, err2 := vxSolve(p, s)
	vfCheck("solving succeeds", err2 == nil)
	if err != nil || err2 != nil {
		return
	}
	tols := []float64{0, 1e-3, 10, 1e-3}
	i := vfInt("first", 0, 3)
	if vfInt("all", 0, 1) == 1 {
		used.InterpolateAll(tols[i])
	} else {
		_, err := used.Interpolate("p", FctNx, tols[i])
		vfCheck("interpolating a known element succeeds", err == nil)
	}
	tol := tols[(i+1)%4]
	a, err := used.Interpolate("p", FctNx, tol)
	b, err2 := fresh.Interpolate("p", FctNx, tol)
	vfCheck("interpolating a known element succeeds", err == nil && err2 == nil)
	vfCheck("same number of pieces whatever was asked before", len(a.Piecewise) == len(b.Piecewise))
	for i := range min(len(a.Piecewise), len(b.Piecewise)) {
		vxSamePiece("same piece whatever was asked before", a.Piecewise[i], b.Piecewise[i])
	}
	all := used.InterpolateAll(tol)
	vfCheck("the provided quantity is listed once", len(all) == 1)
	if len(all) == 1 && len(all[0].Piecewise) == len(b.Piecewise) {
		for i := range b.Piecewise {
			vxSamePiece("same piece when listed", all[0].Piecewise[i], b.Piecewise[i])
		}
	}
	vfCover("tolerances")
}

// VvhC18_Kept: interpolations that are kept while all others are asked for, one after the other and twice.
func VvhC18_Kept() {
	m := vxMat0()
	nodes := []*Node{{ID: "a"}, {ID: "b", X: 2}, {ID: "c", X: 5}}
	p := &Problem{}
	var els []Element
	for i, kind := range []int{vxFrame2d, vxFrame2d, vxTruss2d} {
		ends := [][2]int{{0, 1}, {1, 2}, {2, 0}}[i]
		e, err := vxNew(kind, []string{"p", "q", "r"}[i], nodes[ends[0]], nodes[ends[1]], m, nil)
		vfCheck("element is accepted", err == nil)
		els = append(els, e)
	}
	// each frame has one linear load across, alone or with a constant or a concentrated load
	for i, e := range els[:2] {
		first := float64(3 * (i + 1))
		vfCheck("supported load is accepted by the element", e.AddLoad(NewElementLinearLoad(Uz, first, 7)) &&
			e.AddLoad(NewElementLinearLoad(Ux, first, 1)))
		switch vfInt("other"+vfIntStr(i), 0, 2) {
		case 1:
			vfCheck("supported load is accepted by the element", e.AddLoad(NewElementConstantLoad(Uz, 7)))
		case 2:
			bc, err := NewElementConcentratedLoad(Uz, 1, 5)
			vfCheck("supported load is accepted by the element", err == nil && e.AddLoad(bc))
		}
	}
	vfCheck("supported load is accepted by the element", els[2].AddLoad(NewElementLinearLoad(Ux, 2, 1)))
	p.Elements = els
	for i, n := range nodes {
		for j, dof := range []Dof{Ux, Uz, Phiy} {
			if i == 2 && j == 0 {
				p.Neumann = append(p.Neumann, NodalValue{Index: Index{n.ID, dof}, Value: vfSlack("f")})
				continue
			}
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: Index{n.ID, dof}, Value: float64(3*i+j) / 8})
		}
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	var kept []Interpolation
	var copies []PolySequence
	for _, f := range []Fct{FctUx, FctUz, FctPhiy, FctNx, FctVz, FctMy} {
		for _, e := range els {
			ip, err := res.Interpolate(e.ID(), f, 0)
			vfCheck("interpolating a known element succeeds", err == nil)
			kept = append(kept, ip)
			copies = append(copies, vxCopySeq(ip.Piecewise))
		}
	}
	var again []PolySequence
	for _, ip := range kept {
		o, err := res.Interpolate(ip.Element, ip.Quantity, 0)
		vfCheck("interpolating a known element succeeds", err == nil)
		again = append(again, vxCopySeq(o.Piecewise))
	}
	for i, ip := range kept {
		for _, ps := range []PolySequence{ip.Piecewise, again[i]} {
			vfCheck("same number of pieces later on", len(ps) == len(copies[i]))
			for j := range min(len(ps), len(copies[i])) {
				vxSamePiece("same piece later on", ps[j], copies[i][j])
			}
		}
	}
	vfCover("kept")
}

func vxMat0() *Material {
	return &Material{CrossSection: &vxCS{a: 2, iyy: 3, izz: 5}, LinearElastic: LinearElastic{YoungsModulus: 7}}
}
