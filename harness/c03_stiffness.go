package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: one element (all lengths > 0, all orientations, all positive E, A, I, any node position) of
// kind truss2d, truss3d, frame2d, plus pairs of elements; exact real arithmetic.
// Larger instances, with symbolic values throughout: six elements that meet at a node.

func vxCheckStiffness(b *vxBar) {
	vfCheck("element of non-zero length is accepted", b.err == nil)
	if b.err != nil {
		return
	}
	dofs := b.vxDofs()
	want := vxGlobal(b.vxLocal(), b.vxEnergy())
	a := vxAssemble(b.el)
	vfCheck("uses exactly its own degrees of freedom", a.dim == len(dofs))
	for i, p := range dofs {
		for j, q := range dofs {
			vfEq("stiffness entry", a.at(p, q), want[i][j])
		}
		vfEq("no load vector without loads", a.load(p), 0)
	}
	vfCover("compared")
}

func VvhC03_Truss2d() { vxCheckStiffness(vxMake(vxTruss2d, "", nil)) }
func VvhC03_Truss3d() { vxCheckStiffness(vxMake(vxTruss3d, "", nil)) }
func VvhC03_Frame2d() { vxCheckStiffness(vxMake(vxFrame2d, "", nil)) }

// VvhC03_Rigid: rigid body motions cause no forces.
func VvhC03_Rigid() {
	for kind := vxTruss2d; kind <= vxFrame2d; kind++ {
		b := vxMake(kind, vfIntStr(kind), nil)
		a := vxAssemble(b.el)
		tx, ty, tz := vfF("tx"), vfF("ty"), vfF("tz")
		wx, wy, wz := vfF("wx"), vfF("wy"), vfF("wz")
		if kind != vxTruss3d {
			ty, wx, wz = 0, 0, 0
		}
		d := mat.NewVecDense(a.dim, nil)
		for _, n := range []*Node{b.n0, b.n1} {
			for _, i := range b.vxDofs() {
				if i.NodalID != n.ID {
					continue
				}
				v := 0.0
				switch i.Dof {
				case Ux:
					v = tx + wy*n.Z - wz*n.Y
				case Uy:
					v = ty + wz*n.X - wx*n.Z
				case Uz:
					v = tz + wx*n.Y - wy*n.X
				case Phiy:
					v = wy
				}
				d.SetVec(a.lay.mapOne(i), v)
			}
		}
		f := mat.NewVecDense(a.dim, nil)
		f.MulVec(a.k, d)
		for i := 0; i < a.dim; i++ {
			vfEq("rigid body motion causes no force", f.AtVec(i), 0)
		}
	}
	vfCover("rigid")
}

// VvhC03_Swap: exchanging the end nodes changes nothing.
func VvhC03_Swap() {
	for kind := vxTruss2d; kind <= vxFrame2d; kind++ {
		b := vxMake(kind, vfIntStr(kind), nil)
		e, err := vxNew(kind, "swapped", b.n1, b.n0, b.mat, nil)
		vfCheck("swapped element is accepted", err == nil)
		p, q := vxAssemble(b.el), vxAssemble(e)
		for _, i := range b.vxDofs() {
			for _, j := range b.vxDofs() {
				vfEq("swapping nodes leaves the stiffness unchanged", p.at(i, j), q.at(i, j))
			}
		}
	}
	vfCover("swap")
}

// VvhC03_Sum: contributions of several elements and previous content add up.
func VvhC03_Sum() {
	kinds := [][2]int{{vxTruss2d, vxTruss2d}, {vxTruss3d, vxTruss3d}, {vxFrame2d, vxTruss2d}, {vxFrame2d, vxFrame2d}}
	for n, k := range kinds {
		p := vxMake(k[0], "p"+vfIntStr(n), nil)
		q := vxNodes(k[1], "q"+vfIntStr(n))
		q.mat = vxMaterial("q" + vfIntStr(n))
		q.n0 = p.n1 // chain a-b-c
		q.n1 = &Node{ID: "c", X: q.n0.X + q.l*q.ux, Y: q.n0.Y + q.l*q.uy, Z: q.n0.Z + q.l*q.uz}
		q.el, q.err = vxNew(k[1], "second", q.n0, q.n1, q.mat, nil)
		vfCheck("second element is accepted", q.err == nil)
		both := vxAssemble(p.el, q.el)
		one, two := vxAssemble(p.el), vxAssemble(q.el)
		all := map[Index]struct{}{}
		p.el.Indices(all)
		q.el.Indices(all)
		in := func(e Element, i Index) bool {
			set := map[Index]struct{}{}
			e.Indices(set)
			_, ok := set[i]
			return ok
		}
		var list []Index
		for _, i := range p.vxDofs() {
			list = append(list, i)
		}
		for _, i := range q.vxDofs() {
			if i.NodalID == "c" {
				list = append(list, i)
			}
		}
		for _, i := range list {
			for _, j := range list {
				want := 0.0
				if in(p.el, i) && in(p.el, j) {
					want += one.at(i, j)
				}
				if in(q.el, i) && in(q.el, j) {
					want += two.at(i, j)
				}
				vfEq("stiffness contributions add up", both.at(i, j), want)
			}
		}
	}
	vfCover("sum")
}

// VvhC03_Many: six elements of all plane kinds, or of spatial ones, that meet at a node, partly twice
// between the same nodes.
func VvhC03_Many() {
	kinds := []int{vxFrame2d, vxTruss2d, vxFrame2d, vxTruss2d, vxFrame2d}
	if vfInt("spatial", 0, 1) == 1 {
		kinds = []int{vxTruss3d, vxTruss3d, vxTruss3d, vxTruss3d, vxTruss3d}
	}
	center := &Node{ID: "n10", X: vfF("x"), Y: vfF("y"), Z: vfF("z")}
	var bars []*vxBar
	var els []Element
	for i, id := range []string{"n2", "n1", "n3", "", "n11", "n3"} {
		k := kinds[i%5]
		b := vxNodes(k, vfIntStr(i))
		b.mat = vxMaterial(vfIntStr(i))
		b.n0 = center
		b.n1 = &Node{ID: id, X: center.X + b.l*b.ux, Y: center.Y + b.l*b.uy, Z: center.Z + b.l*b.uz}
		if i == 5 { // parallel to the third one
			o := bars[2]
			b.n1, b.l, b.ux, b.uy, b.uz = o.n1, o.l, o.ux, o.uy, o.uz
		}
		if i%2 == 1 {
			b.n0, b.n1, b.ux, b.uy, b.uz = b.n1, b.n0, -b.ux, -b.uy, -b.uz
		}
		b.el, b.err = vxNew(k, "e"+vfIntStr(i), b.n0, b.n1, b.mat, nil)
		vfCheck("element of non-zero length is accepted", b.err == nil)
		if b.err != nil {
			return
		}
		bars = append(bars, b)
		els = append(els, b.el)
	}
	a := vxAssemble(els...)
	type vxPair struct{ p, q Index }
	want := map[vxPair]float64{}
	var all []Index
	for _, b := range bars {
		k := vxGlobal(b.vxLocal(), b.vxEnergy())
		for i, p := range b.vxDofs() {
			known := false
			for _, o := range all {
				known = known || o == p
			}
			if !known {
				all = append(all, p)
			}
			for j, q := range b.vxDofs() {
				want[vxPair{p, q}] += k[i][j]
			}
		}
	}
	vfCheck("uses exactly the degrees of freedom of the elements", a.dim == len(all))
	for _, p := range all {
		for _, q := range all {
			vfEq("stiffness entry", a.at(p, q), want[vxPair{p, q}])
		}
		vfEq("no load vector without loads", a.load(p), 0)
	}
	vfCover("many")
}
