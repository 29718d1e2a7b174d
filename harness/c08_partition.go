package deflect

// BOUNDS: elements of kind truss2d, truss3d, frame2d with up to two loads of every kind and three
// concentrated loads (four in the thorough tier), positions coinciding, at an end or at least 1e-6
// apart, in any order of addition, lengths of at least 1e-6; every quantity; reported results of
// arbitrary piecewise polynomials with up to three pieces and every tolerance; exact real arithmetic.
// Larger instances, with symbolic values throughout: six loads on one element in four combinations, with four positions of which two coincide.

func vxQuantities(kind int) []Fct {
	q := []Fct{FctNx, FctUx}
	if kind == vxFrame2d {
		q = append(q, FctVz, FctMy, FctPhiy, FctUz)
	}
	return q
}

func vxCheckPartition(s *vxState) {
	l := s.b.l
	for _, which := range vxQuantities(s.b.kind) {
		ps := s.interp(which)
		vfCheck("quantity is available", len(ps) > 0)
		if len(ps) == 0 {
			continue
		}
		vfEq("pieces start at zero", ps[0].X0, 0)
		vfEq("pieces end at the element length", ps[len(ps)-1].XE, l)
		axial := which == FctNx || which == FctUx
		for i, p := range ps {
			vfCheck("piece has coefficients", len(p.Coeff) > 0)
			vfCheck("pieces are ordered and not empty", p.X0 < p.XE)
			if i == 0 {
				continue
			}
			vfEq("pieces touch", p.X0, ps[i-1].XE)
			at := false
			for _, ld := range s.loads {
				if ld.typ == vxConc && ld.pos == p.X0 {
					at = true
				}
			}
			vfCheck("interior boundary is at a concentrated load", at)
		}
		for _, ld := range s.loads {
			if ld.typ != vxConc || (ld.kind == Ux) != axial || ld.pos <= 0 || ld.pos >= l {
				continue
			}
			n := 0
			for i := 1; i < len(ps); i++ {
				if ps[i].X0 == ld.pos {
					n++
				}
			}
			vfCheck("exactly one boundary at a concentrated load", n == 1)
		}
	}
	vfCover("partition" + vfIntStr(len(s.loads)))
}

func VvhC08_Few() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckPartition(b.vxDisplaced(b.vxAnyLoads(vfInt("loads", 0, 2), vxSpecs(kind))))
}

func vxConcentrated(kind int) []vxSpec {
	if kind == vxFrame2d {
		return []vxSpec{{vxConc, Uz}, {vxConc, Phiy}}
	}
	return []vxSpec{{vxConc, Ux}}
}

// vxManyConcentrated adds n concentrated loads at chosen places of k distinct positions.
func vxManyConcentrated(b *vxBar, n int) []*vxLoad {
	specs := vxConcentrated(b.kind)
	p, q := vfPos("p"), vfPos("q")
	vfAssume(p >= vxGap)
	vfAssume(q >= p+vxGap)
	vfAssume(q <= b.l-vxGap)
	places := []float64{p, q, 0, b.l}
	third := vfPos("t")
	if vfInt("third", 0, 1) == 1 {
		vfAssume(third >= q+vxGap)
		vfAssume(third <= b.l-vxGap)
		places = append(places, third)
	}
	var out []*vxLoad
	for i := 0; i < n; i++ {
		tag := vfIntStr(i)
		ld := vxNewLoad(specs[vfInt("spec"+tag, 0, len(specs)-1)], places[vfInt("place"+tag, 0, len(places)-1)], tag)
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		out = append(out, ld)
	}
	return out
}

func VvhC08_Three() {
	kind := []int{vxTruss2d, vxFrame2d}[vfInt("kind", 0, 1)]
	b := vxMakeLong(kind, "", nil)
	vxCheckPartition(b.vxDisplaced(vxManyConcentrated(b, 3)))
}

func VvhC08_Four_Thorough() {
	b := vxMakeLong(vxTruss2d, "", nil)
	vxCheckPartition(b.vxDisplaced(vxManyConcentrated(b, 4)))
}

// vxReportedOf solves a problem with an element that has the given interpolation and asks for it.
func vxReportedOf(ps PolySequence, which Fct, tol float64) (PolySequence, bool) {
	el := vxNewBlob("p", vxIdx("a", Ux), vxIdx("b", Ux))
	el.ps = map[Fct]PolySequence{which: ps}
	p := &Problem{Elements: []Element{el},
		Dirichlet: []NodalValue{{Index: vxIdx("a", Ux), Value: 0}},
		Neumann:   []NodalValue{{Index: vxIdx("b", Ux), Value: vfSlack("f")}}}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return nil, false
	}
	got, err := res.Interpolate("p", which, tol)
	vfCheck("interpolation succeeds", err == nil)
	vfCheck("interpolation names element and quantity", got.Element == "p" && got.Quantity == which)
	return got.Piecewise, err == nil
}

func VvhC08_Reported() {
	ps := vxChain(vfInt("pieces", 1, 3), 1)
	tol := vfNN("tol")
	if got, ok := vxReportedOf(ps, FctNx, tol); ok {
		vxReported(got, ps, tol)
		vfCover("reported")
	}
}

func VvhC08_ReportedTwo() {
	ps := vxChain(2, 2)
	tol := vfNN("tol")
	if got, ok := vxReportedOf(ps, FctMy, tol); ok {
		vxReported(got, ps, tol)
		vfCover("reported")
	}
}

func VvhC08_ReportedCubic() {
	ps := vxChain(1, 4)
	tol := vfNN("tol")
	if got, ok := vxReportedOf(ps, FctUz, tol); ok {
		vxReported(got, ps, tol)
		vfCover("reported")
	}
}

// VvhC08_Many: six loads on one element.
func VvhC08_Many() {
	b := vxMakeLong(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	vxCheckPartition(b.vxDisplaced(b.vxManyLoads()))
}
