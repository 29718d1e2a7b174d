package deflect

// BOUNDS: reported results of arbitrary piecewise polynomials with up to three pieces, with up to three coefficients
// each, arbitrary or identical to those of the piece before, and every tolerance; cantilevers of fixed length, section and
// material (truss2d, truss3d, frame2d) under one load of every supported kind with any value from 1 to 1000 of either sign
// (or zero), at any position, every quantity, a tolerance of 1e-6; exact real arithmetic.

// vxCanonOf solves a problem with an element that has the given interpolation and asks for it.
func vxCanonOf(ps PolySequence, tol float64) (PolySequence, bool) {
	el := vxNewBlob("p", vxIdx("a", Ux), vxIdx("b", Ux))
	el.ps = map[Fct]PolySequence{FctMy: ps}
	p := &Problem{Elements: []Element{el},
		Dirichlet: []NodalValue{{Index: vxIdx("a", Ux), Value: 0}},
		Neumann:   []NodalValue{{Index: vxIdx("b", Ux), Value: vfSlack("f")}}}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return nil, false
	}
	got, err := res.Interpolate("p", FctMy, tol)
	vfCheck("interpolation succeeds", err == nil)
	return got.Piecewise, err == nil
}

// vxOutside tells that a value is outside of the tolerance, or at its very end.
func vxOutside(x, tol float64) bool { return x != 0 && (x >= tol || x <= -tol) }

func vxCanonical(ps PolySequence, tol float64) {
	for _, p := range ps {
		n := len(p.Coeff)
		vfCheck("reported piece has coefficients", n > 0)
		if n == 0 {
			continue
		}
		if n > 1 {
			vfCheck("highest coefficient exceeds the tolerance", vxOutside(p.Coeff[n-1], tol))
		}
		vfCheck("constant term within the tolerance is reported as zero", p.Coeff[0] == 0 || vxOutside(p.Coeff[0], tol))
	}
}

// vxTwins builds contiguous pieces, each arbitrary or with the coefficients of the one before.
func vxTwins(n, maxCoeff int) (ps PolySequence, same []bool) {
	x := vfF("start")
	for i := 0; i < n; i++ {
		tag := vfIntStr(i)
		h := vfPos("h" + tag)
		vfAssume(h >= vxGap)
		p := PolyPiece{X0: x, XE: x + h}
		twin := i > 0 && vfInt("twin"+tag, 0, 1) == 1
		if twin {
			p.Coeff = append(p.Coeff, ps[i-1].Coeff...)
		} else {
			for j := vfInt("n"+tag, 1, maxCoeff); j > 0; j-- {
				p.Coeff = append(p.Coeff, vfF("c"+tag))
			}
		}
		same = append(same, twin)
		ps = append(ps, p)
		x = p.XE
	}
	return ps, same
}

func vxCanon(n, maxCoeff int) {
	ps, same := vxTwins(n, maxCoeff)
	tol := vfNN("tol")
	var starts []float64
	for _, p := range ps {
		starts = append(starts, p.X0)
	}
	got, ok := vxCanonOf(ps, tol)
	if !ok {
		return
	}
	vxCanonical(got, tol)
	for i, x := range starts {
		if !same[i] {
			continue
		}
		for _, g := range got {
			vfCheck("identical neighbours are reported as one piece", g.X0 != x)
		}
	}
	vfCover("canonical" + vfIntStr(n))
}

func VvhC27_One() { vxCanon(1, 4) }

func VvhC27_Two() { vxCanon(2, 2) }

func VvhC27_Three() { vxCanon(3, 1) }

func VvhC27_Three_Thorough() { vxCanon(3, 2) }

// VvhC27_Cantilever: the degree of every quantity follows from the load.
func VvhC27_Cantilever() {
	kind := vfInt("kind", 0, 2)
	n := []Node{{ID: "a"}, {ID: "b", X: 4}}
	m := &Material{CrossSection: &vxCS{a: 2, iyy: 0.5, izz: 0.25, ixx: 0.125}, LinearElastic: LinearElastic{YoungsModulus: 2, PoissonsRatio: 0.25, Density: 1}}
	el, err := vxNew(kind, "ab", &n[0], &n[1], m, map[Index]struct{}{})
	vfCheck("element is accepted", err == nil)
	if err != nil {
		return
	}
	p := &Problem{Nodes: n, Elements: []Element{el}}
	b := &vxBar{kind: kind, n0: &n[0], n1: &n[1]}
	for i, idx := range b.vxDofs() {
		if i < len(b.vxDofs())/2 || kind != vxFrame2d && idx.Dof != Ux {
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx})
		}
	}
	q := vfPos("q")
	vfAssume(q >= 1)
	vfAssume(q <= 1000)
	switch vfInt("sign", 0, 2) {
	case 1:
		q = -q
	case 2:
		q = 0
	}
	specs := vxSpecs(kind)
	s := specs[vfInt("load", 0, len(specs)-1)]
	var bc NeumannElementBC
	switch s.typ {
	case vxConc:
		pos := vfPos("pos")
		vfAssume(pos >= 0.5)
		vfAssume(pos <= 3.5)
		bc, err = NewElementConcentratedLoad(s.kind, pos, q)
		vfCheck("load is accepted", err == nil)
	case vxConst:
		bc = NewElementConstantLoad(s.kind, q)
	default:
		bc = NewElementLinearLoad(s.kind, q, 3*q)
	}
	vfCheck("supported load is accepted by the element", el.AddLoad(bc))
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	const none = -1 // exactly zero
	order := []Fct{FctNx, FctUx}
	if kind == vxFrame2d {
		order = append(order, FctVz, FctMy, FctPhiy, FctUz)
	}
	var want [6][]int
	for i := range want {
		want[i] = []int{none}
	}
	switch {
	case q == 0:
	case s.typ == vxConc && s.kind == Ux:
		want = [6][]int{{0, none}, {1, 0}, {none}, {none}, {none}, {none}}
	case s.typ == vxConc && s.kind == Uz:
		want = [6][]int{{none}, {none}, {0, none}, {1, none}, {2, 0}, {3, 1}}
	case s.typ == vxConc:
		want = [6][]int{{none}, {none}, {none}, {0, none}, {1, 0}, {2, 1}}
	default:
		d := 1
		if s.typ != vxConst {
			d = 2
		}
		if s.kind == Ux {
			want[0], want[1] = []int{d}, []int{d + 1}
		} else {
			want[2], want[3], want[4], want[5] = []int{d}, []int{d + 1}, []int{d + 2}, []int{d + 3}
		}
	}
	for i, which := range order {
		got, err := res.Interpolate("ab", which, 1e-6)
		vfCheck("interpolation succeeds", err == nil)
		vfCheck("number of pieces follows from the load", len(got.Piecewise) == len(want[i]))
		if len(got.Piecewise) != len(want[i]) {
			continue
		}
		vxCanonical(got.Piecewise, 1e-6)
		for j, g := range got.Piecewise {
			if want[i][j] == none {
				vfCheck("what vanishes is reported as zero", len(g.Coeff) == 1 && g.Coeff[0] == 0)
			} else {
				vfCheck("degree follows from the load", len(g.Coeff) == want[i][j]+1)
			}
		}
	}
	vfCover("cantilever" + vfIntStr(kind))
}
