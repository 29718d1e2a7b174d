package deflect

// BOUNDS: one element of kind truss2d, truss3d, frame2d (frames also with hinges) with one load of every supported
// kind (two in the thorough tier) at any position, any material and length, placed twice at arbitrary
// points and in arbitrary directions, or with its ends swapped, or modelled as a planar and as a
// spatial truss; any displacements; every point of the element. A structure of one member on
// an inclined support of any angle, compared with the same structure turned until the support is
// aligned with an axis; any equation solver that solves the system; exact real arithmetic.
// Larger instances, with symbolic values throughout: six loads on one element in four combinations.

// vxPlace puts another instance of a bar at an arbitrary place.
func (b *vxBar) vxPlace(kind int, tag string, hinges map[Index]struct{}) *vxBar {
	o := *b
	o.kind = kind
	if kind == vxTruss3d {
		o.ux, o.uy, o.uz = vfDir3("dir" + tag)
	} else {
		o.uy = 0
		o.ux, o.uz = vfDir2("dir" + tag)
	}
	x, y, z := vfF("x"+tag), vfF("y"+tag), vfF("z"+tag)
	o.n0 = &Node{ID: "a", X: x, Y: y, Z: z}
	o.n1 = &Node{ID: "b", X: x + o.l*o.ux, Y: y + o.l*o.uy, Z: z + o.l*o.uz}
	o.el, o.err = vxNew(kind, "e", o.n0, o.n1, o.mat, hinges)
	vfCheck("element is accepted", o.err == nil)
	return &o
}

// vxGiveAll adds the loads of another bar.
func (b *vxBar) vxGiveAll(loads []*vxLoad) {
	for _, ld := range loads {
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
	}
}

// vxFromLocal gives displacements (vxDofs) with the given local ones (vxLocal); trusses may move
// arbitrarily across their axis.
func (b *vxBar) vxFromLocal(dl []float64, tag string) []float64 {
	var g []float64
	switch b.kind {
	case vxTruss2d:
		for i := 0; i < 2; i++ {
			lat := vfF("lateral" + tag + vfIntStr(i))
			g = append(g, b.ux*dl[i]+b.uz*lat, b.uz*dl[i]-b.ux*lat)
		}
	case vxTruss3d:
		for i := 0; i < 2; i++ {
			t := tag + vfIntStr(i)
			lx, ly, lz := vfF("lx"+t), vfF("ly"+t), vfF("lz"+t)
			g = append(g, b.ux*dl[i]+b.uy*lz-b.uz*ly, b.uy*dl[i]+b.uz*lx-b.ux*lz, b.uz*dl[i]+b.ux*ly-b.uy*lx)
		}
	default:
		g = vxGlobalVec(b.vxLocal(), dl)
	}
	return g
}

// vxAlike compares two states in local terms.
func vxAlike(s, t *vxState) {
	for i := range s.fl {
		vfEq("same end forces", t.fl[i], s.fl[i])
	}
	for _, st := range []*vxState{s, t} {
		// trusses have no forces across their axis
		if st.b.kind == vxTruss2d {
			vfEq("no lateral force", st.f[0]*st.b.uz-st.f[1]*st.b.ux, 0)
			vfEq("no lateral force", st.f[2]*st.b.uz-st.f[3]*st.b.ux, 0)
		} else if st.b.kind == vxTruss3d {
			for i := 0; i < 6; i += 3 {
				vfEq("no lateral force", st.f[i]*st.b.uy-st.f[i+1]*st.b.ux, 0)
				vfEq("no lateral force", st.f[i+1]*st.b.uz-st.f[i+2]*st.b.uy, 0)
				vfEq("no lateral force", st.f[i+2]*st.b.ux-st.f[i]*st.b.uz, 0)
			}
		}
	}
	for _, f := range vxFcts(s.b.kind) {
		p, q := s.interp(f), t.interp(f)
		vfCheck("same number of pieces", len(p) == len(q))
		if len(p) != len(q) {
			return
		}
		for i := range p {
			vfEq("same pieces", q[i].X0, p[i].X0)
			vfEq("same pieces", q[i].XE, p[i].XE)
		}
		x := vfF("at")
		for i := range p {
			vfEq("same "+f.String(), vxPolyVal(q[i].Coeff, x), vxPolyVal(p[i].Coeff, x))
		}
	}
}

func vxMoved(kind, other int, hinges map[Index]struct{}, n int) {
	b := vxMakeLong(kind, "", hinges)
	vfCheck("element is accepted", b.err == nil)
	o := b.vxPlace(other, "'", hinges)
	loads := b.vxAnyLoads(n, vxSpecs(kind))
	o.vxGiveAll(loads)
	var dl []float64
	for range b.vxLocal() {
		dl = append(dl, vfF("dl"))
	}
	s := b.vxDisplacedBy(loads, b.vxFromLocal(dl, ""))
	vxAlike(s, o.vxDisplacedBy(loads, o.vxFromLocal(dl, "'")))
}

func VvhC26_Moved() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	vxMoved(kind, kind, nil, vfInt("loads", 0, 1))
}

func VvhC26_MovedTwo_Thorough() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	vxMoved(kind, kind, nil, 2)
}

// VvhC26_Kinds: a planar truss is a spatial one that lies in the plane.
func VvhC26_Kinds() {
	hinges := map[Index]struct{}{}
	switch vfInt("hinge", 0, 2) {
	case 1:
		hinges[vxIdx("a", Ux)] = struct{}{}
	case 2:
		hinges[vxIdx("b", Ux)] = struct{}{}
	}
	vxMoved(vxTruss2d, vxTruss3d, hinges, 1)
}

func vxHingeSet(n int) map[Index]struct{} {
	h := map[Index]struct{}{}
	for i, idx := range []Index{vxIdx("a", Phiy), vxIdx("b", Phiy), vxIdx("a", Ux), vxIdx("b", Uz)} {
		if n&(1<<i) != 0 {
			h[idx] = struct{}{}
		}
	}
	return h
}

var vxHingeChoices = []int{1, 2, 3, 4, 5, 6, 8, 9}

func VvhC26_MovedHinged() {
	vxMoved(vxFrame2d, vxFrame2d, vxHingeSet(vxHingeChoices[vfInt("hinges", 0, len(vxHingeChoices)-1)]), 1)
}

// vxReversedLoad is the same physical load on the element that runs the other way.
func vxReversedLoad(ld *vxLoad, l float64) *vxLoad {
	o := &vxLoad{typ: ld.typ, kind: ld.kind, pos: l - ld.pos, v0: -ld.v1, v1: -ld.v0}
	switch ld.typ {
	case vxConc:
		o.v0 = -ld.v0
		if ld.kind == Phiy {
			o.v0 = ld.v0
		}
		bc, err := NewElementConcentratedLoad(ld.kind, o.pos, o.v0)
		vfCheck("valid concentrated load is accepted", err == nil)
		o.bc = bc
	case vxConst:
		o.bc = NewElementConstantLoad(ld.kind, o.v0)
	default:
		o.bc = NewElementLinearLoad(ld.kind, o.v0, o.v1)
	}
	return o
}

func vxReversed(kind int, hinges map[Index]struct{}, n int) {
	b := vxMakeLong(kind, "", hinges)
	vfCheck("element is accepted", b.err == nil)
	o := *b
	o.n0, o.n1, o.ux, o.uy, o.uz = b.n1, b.n0, -b.ux, -b.uy, -b.uz
	o.el, o.err = vxNew(kind, "e", o.n0, o.n1, o.mat, hinges)
	vfCheck("element is accepted", o.err == nil)
	loads := b.vxAnyLoads(n, vxSpecs(kind))
	var back []*vxLoad
	for _, ld := range loads {
		back = append(back, vxReversedLoad(ld, b.l))
	}
	o.vxGiveAll(back)
	s := b.vxDisplaced(loads)
	m := len(s.g) / 2
	t := o.vxDisplacedBy(back, append(append([]float64{}, s.g[m:]...), s.g[:m]...))
	for i := range s.f {
		vfEq("same nodal forces", t.f[(i+m)%(2*m)], s.f[i])
	}
	x := vfPos("at")
	vfAssume(x < b.l)
	for _, ld := range loads {
		if ld.typ == vxConc {
			vfAssume(x != ld.pos)
		}
	}
	for _, f := range vxFcts(kind) {
		sign := 1.0
		if f == FctUx || f == FctUz || f == FctMy {
			sign = -1
		}
		vfEq("mirrored "+f.String(), vxAtPoint(t.interp(f), b.l-x), sign*vxAtPoint(s.interp(f), x))
	}
}

func VvhC26_Reversed() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	vxReversed(kind, nil, vfInt("loads", 0, 1))
}

func VvhC26_ReversedHinged() {
	vxReversed(vxFrame2d, vxHingeSet(vxHingeChoices[vfInt("hinges", 0, len(vxHingeChoices)-1)]), 1)
}

func VvhC26_ReversedTwo_Thorough() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	vxReversed(kind, nil, 2)
}

// VvhC26_Turned: a member, its loads and supports, all turned by the same angle. An inclined support
// gets aligned with the axes (or another inclination).
func VvhC26_Turned() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	if kind == vxTruss3d {
		return
	}
	b := vxMakeLong(kind, "", nil)
	vfCheck("element is accepted", b.err == nil)
	cos, sin, angle := vxAngleOf("")
	turn := func(x, z float64) (float64, float64) { return cos*x + sin*z, -sin*x + cos*z }
	o := *b
	o.ux, o.uz = turn(b.ux, b.uz)
	x, z := turn(b.n0.X, b.n0.Z)
	o.n0 = &Node{ID: "a", X: x, Y: b.n0.Y, Z: z}
	o.n1 = &Node{ID: "b", X: x + o.l*o.ux, Y: b.n0.Y, Z: z + o.l*o.uz}
	o.el, o.err = vxNew(kind, "e", o.n0, o.n1, o.mat, nil)
	vfCheck("element is accepted", o.err == nil)
	specs := vxSpecs(kind)
	spec := specs[len(specs)-1]
	ld := vxNewLoad(spec, 0, "")
	b.vxGiveAll([]*vxLoad{ld})
	o.vxGiveAll([]*vxLoad{ld})

	// fixed at a, inclined support at b
	p := &Problem{Elements: []Element{b.el}}
	q := &Problem{Elements: []Element{o.el}}
	both := func(id string, vx, vz float64, add func(r *Problem, v NodalValue)) {
		add(p, NodalValue{Index: vxIdx(id, Ux), Value: vx})
		add(p, NodalValue{Index: vxIdx(id, Uz), Value: vz})
		vx, vz = turn(vx, vz)
		add(q, NodalValue{Index: vxIdx(id, Ux), Value: vx})
		add(q, NodalValue{Index: vxIdx(id, Uz), Value: vz})
	}
	fix := func(r *Problem, v NodalValue) { r.Dirichlet = append(r.Dirichlet, v) }
	load := func(r *Problem, v NodalValue) { r.Neumann = append(r.Neumann, v) }
	both("a", vfF("ux"), vfF("uz"), fix)
	both("a", vfF("gx"), vfF("gz"), load)
	along, across := vfSlack("along"), vfF("across")
	both("b", cos*along-sin*across, sin*along+cos*across, load)
	if kind == vxFrame2d {
		m, phi := vfSlack("moment"), vfF("phi")
		for _, r := range []*Problem{p, q} {
			fix(r, NodalValue{Index: vxIdx("a", Phiy), Value: phi})
			load(r, NodalValue{Index: vxIdx("b", Phiy), Value: m})
		}
	}
	tr, bc := NewInclinedSupport(vxIdx("b", Ux), vxIdx("b", Uz), angle)
	p.EqTransforms = []Transformer{tr}
	p.Dirichlet = append(p.Dirichlet, bc)
	q.Dirichlet = append(q.Dirichlet, NodalValue{Index: vxIdx("b", Uz), Value: 0})

	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	ux, uz := vxPrimary(res, vxIdx("b", Ux)), vxPrimary(res, vxIdx("b", Uz))
	u, w := turn(ux, uz)
	vfEq("no displacement across the inclined support", w, 0)
	want := map[Index]float64{vxIdx("b", Ux): u}
	if kind == vxFrame2d {
		want[vxIdx("b", Phiy)] = vxPrimary(res, vxIdx("b", Phiy))
	}
	lay, err := NewEqLayout(q)
	vfCheck("numbering succeeds", err == nil)
	given := &vxGivenSolver{}
	for i := 0; i < len(want); i++ {
		given.x = append(given.x, want[lay.unmap(len(q.Dirichlet)+i)])
	}
	turned, err := NewLinearProblemSolver().Solve(q, lay, given)
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	for _, id := range []string{"a", "b"} {
		rx, rz := turn(vxReaction(res, vxIdx(id, Ux)), vxReaction(res, vxIdx(id, Uz)))
		vfEq("reactions turn with the structure", vxReaction(turned, vxIdx(id, Ux)), rx)
		vfEq("reactions turn with the structure", vxReaction(turned, vxIdx(id, Uz)), rz)
		if kind == vxFrame2d {
			vfEq("reaction moment is the same", vxReaction(turned, vxIdx(id, Phiy)), vxReaction(res, vxIdx(id, Phiy)))
		}
	}
	// along the member
	state := func(x *vxBar, r ProblemResult) *vxState {
		var g []float64
		for _, idx := range x.vxDofs() {
			g = append(g, vxPrimary(r, idx))
		}
		return x.vxDisplacedBy([]*vxLoad{ld}, g)
	}
	vxAlike(state(b, res), state(&o, turned))
	vfCover("turned")
}

// VvhC26_Many: several loads.
func VvhC26_Many() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	o := b.vxPlace(kind, "'", nil)
	loads := b.vxManyLoads()
	o.vxGiveAll(loads)
	var dl []float64
	for range b.vxLocal() {
		dl = append(dl, vfF("dl"))
	}
	vxAlike(b.vxDisplacedBy(loads, b.vxFromLocal(dl, "")), o.vxDisplacedBy(loads, o.vxFromLocal(dl, "'")))
	vfCover("many")
}
