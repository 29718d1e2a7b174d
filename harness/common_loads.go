package deflect

// Loads with symbolic values and positions, and their exact work-equivalent nodal loads.

const (
	vxConc = iota
	vxConst
	vxLin
)

type vxLoad struct {
	typ    int
	kind   Dof
	pos    float64
	v0, v1 float64 // value (v0), or first and last value
	bc     NeumannElementBC
}

type vxSpec struct {
	typ  int
	kind Dof
}

// vxSpecs lists the loads an element kind supports.
func vxSpecs(kind int) []vxSpec {
	s := []vxSpec{{vxConc, Ux}, {vxConst, Ux}, {vxLin, Ux}}
	if kind == vxFrame2d {
		s = append(s, vxSpec{vxConc, Uz}, vxSpec{vxConc, Phiy}, vxSpec{vxConst, Uz}, vxSpec{vxLin, Uz})
	}
	return s
}

const vxGap = 1e-6 // concentrated loads coincide with each other or an end, or are this far away

func vxNewLoad(s vxSpec, pos float64, tag string) *vxLoad {
	ld := &vxLoad{typ: s.typ, kind: s.kind, pos: pos, v0: vfF("q" + tag)}
	switch s.typ {
	case vxConc:
		bc, err := NewElementConcentratedLoad(s.kind, pos, ld.v0)
		vfCheck("valid concentrated load is accepted", err == nil)
		ld.bc = bc
	case vxConst:
		ld.v1 = ld.v0
		ld.bc = NewElementConstantLoad(s.kind, ld.v0)
	default:
		ld.v1 = vfF("qe" + tag)
		ld.bc = NewElementLinearLoad(s.kind, ld.v0, ld.v1)
	}
	return ld
}

// vxChoosePos picks a position class: at the start, at the end, or inside.
func vxChoosePos(l float64, tag string) float64 {
	switch vfInt("class"+tag, 0, 2) {
	case 0:
		p := vfPos("pos" + tag)
		vfAssume(p >= vxGap)
		vfAssume(p <= l-vxGap)
		return p
	case 1:
		return 0
	}
	return l
}

// vxAnyLoads adds n loads of freely chosen kinds to the element and returns them.
func (b *vxBar) vxAnyLoads(n int, specs []vxSpec) []*vxLoad {
	var out []*vxLoad
	last := 0
	for i := 0; i < n; i++ {
		tag := vfIntStr(i)
		last = vfInt("load"+tag, last, len(specs)-1)
		s := specs[last]
		pos := 0.0
		if s.typ == vxConc {
			prev := -1
			for j, o := range out {
				if o.typ == vxConc {
					prev = j
				}
			}
			if prev >= 0 && vfInt("same"+tag, 0, 1) == 1 {
				pos = out[prev].pos
			} else {
				pos = vxChoosePos(b.l, tag)
				if prev >= 0 {
					vxSeparate(pos, out[prev].pos, tag)
				}
			}
		}
		ld := vxNewLoad(s, pos, tag)
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		out = append(out, ld)
	}
	return out
}

func vxSeparate(p, q float64, tag string) {
	if vfInt("order"+tag, 0, 1) == 0 {
		vfAssume(p >= q+vxGap)
	} else {
		vfAssume(q >= p+vxGap)
	}
}

// vxShapes gives the shape functions of the local degrees of freedom (see vxLocal) as polynomials in
// x, for the axial displacement (first two) and the deflection (others).
func vxAxialShapes(l float64) [][]float64 {
	return [][]float64{{1, -1 / l}, {0, 1 / l}}
}

func vxBendingShapes(l float64) [][]float64 {
	l2, l3 := l*l, l*l*l
	return [][]float64{
		{1, 0, -3 / l2, 2 / l3},
		{0, -1, 2 / l, -1 / l2},
		{0, 0, 3 / l2, -2 / l3},
		{0, 0, 1 / l, -1 / l2},
	}
}

func vxPolyVal(p []float64, x float64) float64 {
	y, xp := 0.0, 1.0
	for _, c := range p {
		y += c * xp
		xp *= x
	}
	return y
}

func vxPolyDiff(p []float64) []float64 {
	out := []float64{0}
	if len(p) > 1 {
		out = make([]float64, len(p)-1)
	}
	for i := 1; i < len(p); i++ {
		out[i-1] = float64(i) * p[i]
	}
	return out
}

// vxPolyInt integrates p times (q0 + (q1-q0) x/l) over [0, l].
func vxPolyInt(p []float64, q0, q1, l float64) float64 {
	sum := 0.0
	lp := l
	for i, c := range p {
		sum += c * (q0*lp/float64(i+1) + (q1-q0)*lp/float64(i+2))
		lp *= l
	}
	return sum
}

// vxWork is the virtual work of a load in a displacement shape along its direction.
func (ld *vxLoad) vxWork(shape []float64, l float64) float64 {
	switch {
	case ld.typ != vxConc:
		return vxPolyInt(shape, ld.v0, ld.v1, l)
	case ld.kind == Phiy:
		return -ld.v0 * vxPolyVal(vxPolyDiff(shape), ld.pos)
	}
	return ld.v0 * vxPolyVal(shape, ld.pos)
}

// vxLocalLoads gives the exact work-equivalent nodal loads in local degrees of freedom.
func (b *vxBar) vxLocalLoads(loads []*vxLoad) []float64 {
	r := make([]float64, len(b.vxLocal()))
	for _, ld := range loads {
		if ld.kind == Ux {
			for i, s := range vxAxialShapes(b.l) {
				r[i] += ld.vxWork(s, b.l)
			}
		} else if len(r) == 6 {
			for i, s := range vxBendingShapes(b.l) {
				r[i+2] += ld.vxWork(s, b.l)
			}
		}
	}
	return r
}

// vxManyLoads adds several loads: three concentrated ones at increasing positions (added in another
// order), one more at one of these positions, and two distributed ones.
func (b *vxBar) vxManyLoads() []*vxLoad {
	if vfInt("row", 0, 1) == 1 {
		return b.vxRowOfLoads(9)
	}
	var pos [3]float64
	at := 0.0
	for i := range pos {
		h := vfPos("h" + vfIntStr(i))
		vfAssume(h >= vxGap)
		at += h
		pos[i] = at
	}
	vfAssume(at <= b.l-vxGap)
	sets := [][]vxSpec{{{vxConc, Ux}, {vxLin, Ux}, {vxConc, Ux}, {vxConc, Ux}, {vxConst, Ux}, {vxConc, Ux}}}
	if b.kind == vxFrame2d {
		sets = [][]vxSpec{
			{{vxConc, Uz}, {vxLin, Uz}, {vxConc, Uz}, {vxConc, Uz}, {vxConst, Uz}, {vxConc, Uz}},
			{{vxConc, Phiy}, {vxLin, Ux}, {vxConc, Uz}, {vxConc, Phiy}, {vxLin, Uz}, {vxConc, Phiy}},
			{{vxConc, Uz}, {vxConst, Uz}, {vxConc, Ux}, {vxConc, Phiy}, {vxConst, Ux}, {vxConc, Uz}},
		}
	}
	where := []int{2, -1, 0, 1, -1, vfInt("again", 0, 2)}
	var out []*vxLoad
	for i, s := range sets[vfInt("set", 0, len(sets)-1)] {
		p := 0.0
		if where[i] >= 0 {
			p = pos[where[i]]
		}
		ld := vxNewLoad(s, p, vfIntStr(i))
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		out = append(out, ld)
	}
	return out
}

// vxRowOfLoads puts n concentrated loads at regular distances, listed from the outside in.
func (b *vxBar) vxRowOfLoads(n int) []*vxLoad {
	kinds := []Dof{Ux}
	if b.kind == vxFrame2d {
		kinds = []Dof{Uz, Phiy, Uz, Ux, Uz}
	}
	var out []*vxLoad
	for i := range n {
		j := i / 2
		if i%2 == 1 {
			j = n - 1 - i/2
		}
		ld := vxNewLoad(vxSpec{vxConc, kinds[i%len(kinds)]}, b.l*float64(j+1)/float64(n+1), vfIntStr(i))
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		out = append(out, ld)
	}
	return out
}
