package deflect

// BOUNDS: one element of kind truss2d, truss3d, frame2d, divided at any point, with one load of every supported
// kind (two in the thorough tier) and no hinge or hinges at one or both ends; all nodal displacements, load values
// and positions (in either part or at the point of division; for two loads at least 1e-6 apart from each other),
// orientations, materials; parts of at least 1e-6 length; every point of the element; exact real
// arithmetic.
// Larger instances, with symbolic values throughout: four or five loads in three combinations.

// vxHalves is an element and the two it may be divided into.
type vxHalves struct {
	whole, one, two *vxBar
	p, q            float64
	loads           [3][]*vxLoad
}

func vxDivided(kind int, hinges ...Index) *vxHalves {
	w := &vxHalves{p: vfPos("p"), q: vfPos("q")}
	vfAssume(w.p >= vxGap)
	vfAssume(w.q >= vxGap)
	var ux, uy, uz float64
	if kind == vxTruss3d {
		ux, uy, uz = vfDir3("dir")
	} else {
		ux, uz = vfDir2("dir")
	}
	x, y, z := vfF("x"), vfF("y"), vfF("z")
	at := func(id string, t float64) *Node {
		return &Node{ID: id, X: x + t*ux, Y: y + t*uy, Z: z + t*uz}
	}
	a, m, b := at("a", 0), at("m", w.p), at("b", w.p+w.q)
	mat := vxMaterial("")
	bar := func(id string, n0, n1 *Node, l float64) *vxBar {
		set := map[Index]struct{}{}
		for _, h := range hinges {
			if h.NodalID == n0.ID || h.NodalID == n1.ID {
				set[h] = struct{}{}
			}
		}
		x := &vxBar{kind: kind, n0: n0, n1: n1, l: l, ux: ux, uy: uy, uz: uz, mat: mat}
		x.el, x.err = vxNew(kind, id, n0, n1, mat, set)
		vfCheck("element is accepted", x.err == nil)
		return x
	}
	w.whole, w.one, w.two = bar("w", a, b, w.p+w.q), bar("1", a, m, w.p), bar("2", m, b, w.q)
	return w
}

func (w *vxHalves) vxAdd(part int, ld *vxLoad) {
	b := []*vxBar{w.whole, w.one, w.two}[part]
	vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
	w.loads[part] = append(w.loads[part], ld)
}

// vxLoad adds a load to the whole and to the part or parts that it acts on.
func (w *vxHalves) vxLoad(s vxSpec, tag string) {
	if s.typ != vxConc {
		ld := vxNewLoad(s, 0, tag)
		mid := ld.v0 + (ld.v1-ld.v0)*w.p/(w.p+w.q)
		w.vxAdd(0, ld)
		if s.typ == vxConst {
			w.vxAdd(1, &vxLoad{typ: s.typ, kind: s.kind, v0: ld.v0, v1: ld.v0, bc: NewElementConstantLoad(s.kind, ld.v0)})
			w.vxAdd(2, &vxLoad{typ: s.typ, kind: s.kind, v0: ld.v0, v1: ld.v0, bc: NewElementConstantLoad(s.kind, ld.v0)})
		} else {
			w.vxAdd(1, &vxLoad{typ: s.typ, kind: s.kind, v0: ld.v0, v1: mid, bc: NewElementLinearLoad(s.kind, ld.v0, mid)})
			w.vxAdd(2, &vxLoad{typ: s.typ, kind: s.kind, v0: mid, v1: ld.v1, bc: NewElementLinearLoad(s.kind, mid, ld.v1)})
		}
		return
	}
	pos, in, part := w.p, 0.0, 1
	switch vfInt("class"+tag, 0, 3) {
	case 0:
		pos = vfPos("pos" + tag)
		vfAssume(pos >= vxGap)
		vfAssume(pos <= w.p-vxGap)
		in = pos
	case 1:
		in, part = vfPos("pos"+tag), 2
		vfAssume(in >= vxGap)
		vfAssume(in <= w.q-vxGap)
		pos = w.p + in
	case 2:
		in = w.p
	case 3:
		part = 2
	}
	for _, o := range w.loads[0] {
		if o.typ == vxConc {
			vxSeparate(pos, o.pos, tag)
		}
	}
	ld := vxNewLoad(s, pos, tag)
	w.vxAdd(0, ld)
	bc, err := NewElementConcentratedLoad(s.kind, in, ld.v0)
	vfCheck("valid concentrated load is accepted", err == nil)
	w.vxAdd(part, &vxLoad{typ: s.typ, kind: s.kind, pos: in, v0: ld.v0, bc: bc})
}

func (w *vxHalves) vxCompare() {
	whole := w.whole.vxDisplaced(w.loads[0])
	n := len(whole.b.vxDofs())
	ps := map[Fct]PolySequence{}
	for _, f := range vxFcts(w.whole.kind) {
		ps[f] = whole.interp(f)
		vfCheck("quantity is available", len(ps[f]) > 0)
	}
	// what the nodes of the parts do
	b := w.whole
	var mid []float64
	u := vxAtPoint(ps[FctUx], w.p)
	switch b.kind {
	case vxTruss2d:
		lat := vfF("lateral")
		mid = []float64{b.ux*u + b.uz*lat, b.uz*u - b.ux*lat}
	case vxTruss3d:
		lx, ly, lz := vfF("lx"), vfF("ly"), vfF("lz")
		mid = []float64{b.ux*u + b.uy*lz - b.uz*ly, b.uy*u + b.uz*lx - b.ux*lz, b.uz*u + b.ux*ly - b.uy*lx}
	default:
		lat := vxAtPoint(ps[FctUz], w.p)
		mid = []float64{b.ux*u + b.uz*lat, b.uz*u - b.ux*lat, -vxAtPoint(ps[FctPhiy], w.p)}
	}
	g := whole.g
	one := w.one.vxDisplacedBy(w.loads[1], append(append([]float64{}, g[:n/2]...), mid...))
	two := w.two.vxDisplacedBy(w.loads[2], append(append([]float64{}, mid...), g[n/2:]...))
	for i := 0; i < n/2; i++ {
		vfEq("the node between the parts is in equilibrium", one.f[n/2+i]+two.f[i], 0)
		vfEq("same forces at the start", one.f[i], whole.f[i])
		vfEq("same forces at the end", two.f[n/2+i], whole.f[n/2+i])
	}
	x := vfPos("at")
	part, y := one, x
	if vfBool("second part") {
		part, y = two, w.p+x
		vfAssume(x < w.q)
	} else {
		vfAssume(x < w.p)
	}
	for _, ld := range w.loads[0] {
		if ld.typ == vxConc && ld.pos != w.p {
			vfAssume(y != ld.pos)
		}
	}
	for _, f := range vxFcts(b.kind) {
		vfEq("same "+f.String()+" in the parts", vxAtPoint(part.interp(f), x), vxAtPoint(ps[f], y))
	}
}

func VvhC24_Plain() { vxDivided(vfInt("kind", vxTruss2d, vxFrame2d)).vxCompare() }

func VvhC24_Loaded() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	w := vxDivided(kind)
	specs := vxSpecs(kind)
	w.vxLoad(specs[vfInt("load", 0, len(specs)-1)], "0")
	w.vxCompare()
}

func VvhC24_Hinged() {
	var hinges []Index
	kind := vxFrame2d
	switch vfInt("hinges", 0, 7) {
	case 0:
		hinges = []Index{vxIdx("a", Phiy)}
	case 1:
		hinges = []Index{vxIdx("b", Phiy)}
	case 2:
		hinges = []Index{vxIdx("a", Phiy), vxIdx("b", Phiy)}
	case 3:
		hinges = []Index{vxIdx("a", Ux)}
	case 4:
		hinges = []Index{vxIdx("b", Ux), vxIdx("a", Phiy)}
	case 5:
		hinges = []Index{vxIdx("a", Ux)}
		kind = vxTruss2d
	case 6:
		hinges = []Index{vxIdx("b", Ux)}
		kind = vxTruss3d
	case 7:
		hinges = []Index{vxIdx("a", Uz)}
	}
	w := vxDivided(kind, hinges...)
	specs := vxSpecs(kind)
	w.vxLoad(specs[vfInt("load", 0, len(specs)-1)], "0")
	w.vxCompare()
}

func VvhC24_Two_Thorough() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	w := vxDivided(kind)
	specs := vxSpecs(kind)
	i := vfInt("load0", 0, len(specs)-1)
	w.vxLoad(specs[i], "0")
	w.vxLoad(specs[vfInt("load1", i, len(specs)-1)], "1")
	w.vxCompare()
}

// VvhC24_Many: several loads.
func VvhC24_Many() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	w := vxDivided(kind)
	list := []vxSpec{{vxConc, Ux}, {vxLin, Ux}, {vxConc, Ux}, {vxConst, Ux}}
	if kind == vxFrame2d {
		list = [][]vxSpec{
			{{vxLin, Uz}, {vxConc, Uz}, {vxConst, Uz}, {vxConst, Ux}, {vxConc, Phiy}},
			{{vxConc, Phiy}, {vxLin, Uz}, {vxLin, Ux}, {vxConc, Ux}, {vxLin, Uz}},
		}[vfInt("list", 0, 1)]
	}
	for i, s := range list {
		w.vxLoad(s, vfIntStr(i))
	}
	w.vxCompare()
}
