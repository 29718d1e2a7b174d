package deflect

// BOUNDS: structures of one to three members (single member, chain of two, isosceles triangle; truss2d,
// frame2d, mixed truss/frame, truss3d) with arbitrary geometry, materials, one load of every
// accepted kind per loaded member at any position, arbitrary nodal loads, one support node with
// arbitrary settlements plus none, a roller with settlement, an inclined support or a second fixed
// support at another node,
// one hinge or none; any equation solver that solves the system; one member
// with element loads only and a single free degree of freedom (Cholesky solver); exact real arithmetic.
// Larger instances, with symbolic values throughout: a chain of five members with three loads each.

// vxFrameWork is a structure of real elements with everything needed for its global balance.
type vxFrameWork struct {
	p     *Problem
	nodes []*Node
	dofs  []Index
	bars  []*vxBar
	loads [][]*vxLoad
}

// vxConnect adds a member between existing nodes; l and the direction describe its geometry.
func (w *vxFrameWork) vxConnect(kind int, id string, n0, n1 *Node, l, ux, uy, uz float64, hinges map[Index]struct{}) {
	b := &vxBar{kind: kind, n0: n0, n1: n1, l: l, ux: ux, uy: uy, uz: uz, mat: vxMaterial(id)}
	b.el, b.err = vxNew(kind, id, n0, n1, b.mat, hinges)
	vfCheck("element is accepted", b.err == nil)
	w.bars = append(w.bars, b)
	w.loads = append(w.loads, nil)
	w.p.Elements = append(w.p.Elements, b.el)
	for _, idx := range b.vxDofs() {
		seen := false
		for _, o := range w.dofs {
			seen = seen || o == idx
		}
		if !seen {
			w.dofs = append(w.dofs, idx)
		}
	}
}

// vxAway creates a node at an arbitrary distance in an arbitrary direction.
func (w *vxFrameWork) vxAway(from *Node, id string, spatial bool) (n *Node, l, ux, uy, uz float64) {
	l = vfPos("l" + id)
	if spatial {
		ux, uy, uz = vfDir3("dir" + id)
	} else {
		ux, uz = vfDir2("dir" + id)
	}
	n = &Node{ID: id, X: from.X + l*ux, Y: from.Y + l*uy, Z: from.Z + l*uz}
	w.nodes = append(w.nodes, n)
	return n, l, ux, uy, uz
}

func (w *vxFrameWork) vxLoadMember(i int, s vxSpec) {
	b := w.bars[i]
	pos := 0.0
	if s.typ == vxConc {
		pos = vfPos("pos" + vfIntStr(i))
		vfAssume(pos <= b.l)
	}
	ld := vxNewLoad(s, pos, vfIntStr(i))
	vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
	w.loads[i] = append(w.loads[i], ld)
}

// vxSupport prescribes everything at the first node; how: nothing else, a roller or an inclined
// support at the last node, or everything at the second one as well.
func (w *vxFrameWork) vxSupport(how int) {
	last := w.nodes[len(w.nodes)-1].ID
	for _, idx := range w.dofs {
		tag := idx.NodalID + vfIntStr(int(idx.Dof))
		switch {
		case idx.NodalID == "a", how == 3 && idx.NodalID == "b", how == 1 && idx == vxIdx(last, Uz):
			w.p.Dirichlet = append(w.p.Dirichlet, NodalValue{Index: idx, Value: vfF("u" + tag)})
			w.p.Neumann = append(w.p.Neumann, NodalValue{Index: idx, Value: vfF("g" + tag)})
		case how == 2 && idx == vxIdx(last, Ux):
			c, s, angle := vxAngleOf("skid")
			along, across := vfSlack("along"), vfF("across")
			to := vxIdx(last, Uz)
			w.p.Neumann = append(w.p.Neumann, NodalValue{Index: idx, Value: c*along - s*across},
				NodalValue{Index: to, Value: s*along + c*across})
			tr, bc := NewInclinedSupport(idx, to, angle)
			w.p.Dirichlet = append(w.p.Dirichlet, bc)
			w.p.EqTransforms = append(w.p.EqTransforms, tr)
		case how == 2 && idx == vxIdx(last, Uz):
		default:
			w.p.Neumann = append(w.p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + tag)})
		}
	}
}

func (w *vxFrameWork) vxNode(id string) *Node {
	for _, n := range w.nodes {
		if n.ID == id {
			return n
		}
	}
	return nil
}

type vxWrench struct{ fx, fy, fz, mx, my, mz float64 }

// vxForce adds a force at a point: moment r x F about the origin.
func (t *vxWrench) vxForce(x, y, z, fx, fy, fz float64) {
	t.fx += fx
	t.fy += fy
	t.fz += fz
	t.mx += y*fz - z*fy
	t.my += z*fx - x*fz
	t.mz += x*fy - y*fx
}

func (t *vxWrench) vxNodal(n *Node, d Dof, v float64) {
	switch d {
	case Ux:
		t.vxForce(n.X, n.Y, n.Z, v, 0, 0)
	case Uy:
		t.vxForce(n.X, n.Y, n.Z, 0, v, 0)
	case Uz:
		t.vxForce(n.X, n.Y, n.Z, 0, 0, v)
	case Phiy:
		t.my += v
	default:
		vfCheck("only known degrees of freedom", false)
	}
}

// vxMember adds the resultant of an element load.
func (t *vxWrench) vxMember(b *vxBar, ld *vxLoad) {
	// force f at distance e from the start, local direction
	f, e := ld.v0, ld.pos
	fe := f * e
	if ld.typ != vxConc {
		f = (ld.v0 + ld.v1) / 2 * b.l
		fe = (ld.v0 + 2*ld.v1) / 6 * b.l * b.l
	}
	if ld.kind == Phiy {
		t.my -= ld.v0
		return
	}
	dx, dy, dz := b.ux, b.uy, b.uz
	if ld.kind == Uz {
		dx, dy, dz = b.uz, 0, -b.ux
	}
	t.fx += f * dx
	t.fy += f * dy
	t.fz += f * dz
	// moment: r0 x F + (axis x d) fe
	x, y, z := b.n0.X, b.n0.Y, b.n0.Z
	t.mx += f*(y*dz-z*dy) + fe*(b.uy*dz-b.uz*dy)
	t.my += f*(z*dx-x*dz) + fe*(b.uz*dx-b.ux*dz)
	t.mz += f*(x*dy-y*dx) + fe*(b.ux*dy-b.uy*dx)
}

func (w *vxFrameWork) vxBalance() { w.vxBalanceWith(&vxSolver{}) }

func (w *vxFrameWork) vxBalanceWith(solver EquationSolver) {
	res, err := vxSolve(w.p, solver)
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	t := &vxWrench{}
	for _, n := range w.p.Neumann {
		t.vxNodal(w.vxNode(n.NodalID), n.Dof, n.Value)
	}
	for i, b := range w.bars {
		for _, ld := range w.loads[i] {
			t.vxMember(b, ld)
		}
	}
	for _, v := range res.ReactionAll() {
		t.vxNodal(w.vxNode(v.NodalID), v.Dof, v.Value)
	}
	vfEq("forces along x balance", t.fx, 0)
	vfEq("forces along y balance", t.fy, 0)
	vfEq("forces along z balance", t.fz, 0)
	vfEq("moments about x balance", t.mx, 0)
	vfEq("moments about y balance", t.my, 0)
	vfEq("moments about z balance", t.mz, 0)
	vfCover("balance")
}

func vxStart() *vxFrameWork {
	w := &vxFrameWork{p: &Problem{}}
	w.nodes = append(w.nodes, &Node{ID: "a", X: vfF("x"), Y: vfF("y"), Z: vfF("z")})
	return w
}

// vxAnyHinge picks no hinge or one at either end.
func vxAnyHinge(kind int, n0, n1 string) map[Index]struct{} {
	h := map[Index]struct{}{}
	if c := vfInt("hinge", 0, 2); c > 0 {
		d := Ux
		if kind == vxFrame2d && vfInt("rot", 0, 1) == 1 {
			d = Phiy
		}
		h[vxIdx([]string{n0, n1}[c-1], d)] = struct{}{}
	}
	return h
}

// VvhC20_Single: one member of every kind with every load.
func VvhC20_Single() {
	kind := vfInt("kind", 0, 2)
	w := vxStart()
	n, l, ux, uy, uz := w.vxAway(w.nodes[0], "b", kind == vxTruss3d)
	w.vxConnect(kind, "p", w.nodes[0], n, l, ux, uy, uz, vxAnyHinge(kind, "a", "b"))
	specs := vxSpecs(kind)
	w.vxLoadMember(0, specs[vfInt("spec", 0, len(specs)-1)])
	w.vxSupport(vfInt("support", 0, 2))
	w.vxBalance()
}

// VvhC20_ElementLoad: nothing but an element load, all degrees of freedom but one prescribed; solved
// with the Cholesky solver.
func VvhC20_ElementLoad() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	w := vxStart()
	a := w.nodes[0]
	l, ux, uz := vfPos("l"), 1.0, 0.0
	if vfInt("upright", 0, 1) == 1 {
		ux, uz = 0, -1
	}
	b := &Node{ID: "b", X: a.X + l*ux, Y: a.Y, Z: a.Z + l*uz}
	w.nodes = append(w.nodes, b)
	w.vxConnect(kind, "p", a, b, l, ux, 0, uz, nil)
	specs := vxSpecs(kind)
	w.vxLoadMember(0, specs[vfInt("spec", 0, len(specs)-1)])
	loose := vxIdx("b", Ux)
	if uz != 0 {
		loose.Dof = Uz
	}
	if kind == vxFrame2d {
		loose.Dof = []Dof{Ux, Uz, Phiy}[vfInt("loose", 0, 2)]
	}
	settled := vfInt("settled", 0, 1) == 1
	for _, idx := range w.dofs {
		if idx != loose {
			u := 0.0
			if settled {
				u = vfF("u" + idx.NodalID + vfIntStr(int(idx.Dof)))
			}
			w.p.Dirichlet = append(w.p.Dirichlet, NodalValue{Index: idx, Value: u})
		}
	}
	w.vxBalanceWith(NewCholeskySolver())
}

// VvhC20_Chain: two members of any kinds.
func VvhC20_Chain() {
	w := vxStart()
	spatial := vfInt("spatial", 0, 1) == 1
	k0, k1 := vxTruss3d, vxTruss3d
	if !spatial {
		k0 = []int{vxTruss2d, vxFrame2d}[vfInt("k0", 0, 1)]
		k1 = []int{vxTruss2d, vxFrame2d}[vfInt("k1", 0, 1)]
	}
	b, l, ux, uy, uz := w.vxAway(w.nodes[0], "b", spatial)
	w.vxConnect(k0, "p", w.nodes[0], b, l, ux, uy, uz, nil)
	c, l, ux, uy, uz := w.vxAway(b, "c", spatial)
	if vfInt("reverse", 0, 1) == 0 {
		w.vxConnect(k1, "q", b, c, l, ux, uy, uz, vxAnyHinge(k1, "b", "c"))
	} else {
		w.vxConnect(k1, "q", c, b, l, -ux, -uy, -uz, vxAnyHinge(k1, "b", "c"))
	}
	for i, b := range w.bars {
		specs := vxSpecs(b.kind)
		w.vxLoadMember(i, specs[vfInt("spec"+vfIntStr(i), 0, 1)*(len(specs)-1)])
	}
	w.vxSupport(vfInt("support", 0, 3))
	w.vxBalance()
}

// VvhC20_Triangle: three members that form an isosceles triangle.
func VvhC20_Triangle() {
	w := vxStart()
	a := w.nodes[0]
	c, s := vfDir2("dir")
	ca, sa := vfDir2("A") // angle at the base
	leg := vfPos("leg")
	vfAssume(ca > 0)
	base := 2 * leg * ca
	b := &Node{ID: "b", X: a.X + base*c, Y: a.Y, Z: a.Z + base*s}
	dx, dz := c*ca-s*sa, s*ca+c*sa
	d := &Node{ID: "c", X: a.X + leg*dx, Y: a.Y, Z: a.Z + leg*dz}
	w.nodes = append(w.nodes, b, d)
	kinds := []int{vxTruss2d, vxFrame2d}
	k := kinds[vfInt("k", 0, 1)]
	w.vxConnect(k, "p", a, b, base, c, 0, s, nil)
	w.vxConnect(k, "q", a, d, leg, dx, 0, dz, nil)
	w.vxConnect(kinds[vfInt("close", 0, 1)], "r", b, d, leg, -c*ca-s*sa, 0, -s*ca+c*sa, nil)
	specs := vxSpecs(w.bars[2].kind)
	w.vxLoadMember(2, specs[vfInt("spec", 0, 1)*(len(specs)-1)])
	w.vxSupport(vfInt("support", 0, 2))
	w.vxBalance()
}

// VvhC20_Many: a polygon of five members, several loads on each, a hinge, supports at both ends.
func VvhC20_Many() {
	w := vxStart()
	kinds := []int{vxFrame2d, vxFrame2d, vxTruss2d, vxFrame2d, vxTruss2d}
	at := w.nodes[0]
	for i, k := range kinds {
		id := vfIntStr(i)
		n, l, ux, uy, uz := w.vxAway(at, "n"+id, false)
		var hinges map[Index]struct{}
		if i == 1 {
			hinges = map[Index]struct{}{vxIdx("n1", Phiy): {}}
		}
		if i == 3 {
			w.vxConnect(k, "e"+id, n, at, l, -ux, -uy, -uz, hinges)
		} else {
			w.vxConnect(k, "e"+id, at, n, l, ux, uy, uz, hinges)
		}
		b := w.bars[i]
		specs := vxSpecs(k)
		for j := 0; j < 3; j++ {
			s := specs[(i+2*j)%len(specs)]
			pos := 0.0
			if s.typ == vxConc {
				pos = vfPos("pos" + id + vfIntStr(j))
				vfAssume(pos <= b.l)
			}
			ld := vxNewLoad(s, pos, id+vfIntStr(j))
			vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
			w.loads[i] = append(w.loads[i], ld)
		}
		at = n
	}
	w.vxSupport(vfInt("support", 0, 2))
	w.vxBalance()
}
