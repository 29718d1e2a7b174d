package deflect

// BOUNDS: polynomials with up to 4 coefficients (7 in the thorough tier, 9 for evaluation), arbitrary coefficients and
// domains; sequences of up to 3 pieces, domain ends equal or at least 1e-6 apart; every evaluation
// point; exact real arithmetic.
// Larger instances, with symbolic values throughout: sequences of six pieces in the order and shape that elements produce;
// every pattern of equal neighbours among six pieces.

func VvhC09_Eval() {
	p := vxPiece(vfInt("n", 1, 9), "")
	q := vxCopyPiece(p)
	x := vfF("x")
	vfCheck("degree", p.Degree() == len(p.Coeff)-1)
	y, err := p.Eval(x)
	switch {
	case x >= p.X0 && x <= p.XE:
		vfCheck("evaluation inside the domain succeeds", err == nil)
		vfEq("value of the polynomial", y, vxPolyVal(q.Coeff, x))
		vfCover("inside")
	case x < p.X0-vxGap || x > p.XE+vxGap:
		vfCheck("evaluation outside the domain is an error", err != nil)
		vfCover("outside")
	}
	vxSamePiece("evaluation leaves the polynomial unchanged", p, q)
}

func vxCheckCalculus(n int) {
	p := vxPiece(n, "")
	q := vxCopyPiece(p)
	x, c := vfF("x"), vfF("const")

	d := p.derive()
	vfEq("derivative", vxPolyVal(d.Coeff, x), vxPolyVal(vxPolyDiff(q.Coeff), x))
	vfEq("derivative keeps the domain start", d.X0, q.X0)
	vfEq("derivative keeps the domain end", d.XE, q.XE)

	i := p.integrate(c)
	vfEq("integral starts with the constant", vxPolyVal(i.Coeff, i.X0), c)
	vfEq("derivative of the integral", vxPolyVal(vxPolyDiff(i.Coeff), x), vxPolyVal(q.Coeff, x))
	vfEq("integral keeps the domain start", i.X0, q.X0)
	vfEq("integral keeps the domain end", i.XE, q.XE)

	back := i.derive()
	vfEq("differentiation inverts integration", vxPolyVal(back.Coeff, x), vxPolyVal(q.Coeff, x))
	again := d.integrate(vxPolyVal(q.Coeff, q.X0))
	vfEq("integration inverts differentiation", vxPolyVal(again.Coeff, x), vxPolyVal(q.Coeff, x))
	vxSamePiece("calculus leaves the polynomial unchanged", p, q)
	for j := range d.Coeff {
		d.Coeff[j] = 0
	}
	for j := range i.Coeff {
		i.Coeff[j] = 0
	}
	vxSamePiece("derivative and integral are independent objects", p, q)
	vfCover("calculus")
}

func VvhC09_Calculus()          { vxCheckCalculus(vfInt("n", 1, 4)) }
func VvhC09_Calculus_Thorough() { vxCheckCalculus(vfInt("n", 5, 7)) }

func VvhC09_IntegrateSequence() {
	ps := vxChain(vfInt("pieces", 1, 3), 3)
	orig := vxCopySeq(ps)
	c, x := vfF("const"), vfF("x")
	got := ps.integrate(c)
	vfCheck("one integral per piece", len(got) == len(orig))
	if len(got) != len(orig) {
		return
	}
	vfEq("integral starts with the constant", vxFirst(got), c)
	for i := range orig {
		vfEq("integral keeps the domain start", got[i].X0, orig[i].X0)
		vfEq("integral keeps the domain end", got[i].XE, orig[i].XE)
		vfEq("derivative of the integral", vxPolyVal(vxPolyDiff(got[i].Coeff), x), vxPolyVal(orig[i].Coeff, x))
		if i > 0 {
			b := orig[i].X0
			vfEq("integral is continuous", vxPolyVal(got[i].Coeff, b), vxPolyVal(got[i-1].Coeff, b))
		}
		vxSamePiece("integration leaves the pieces unchanged", ps[i], orig[i])
	}
	vfCover("integrated")
}

func VvhC09_Multiply() {
	ps := vxChain(vfInt("pieces", 1, 2), 3)
	orig := vxCopySeq(ps)
	f, x := vfF("factor"), vfF("x")
	ps.multiply(f)
	for i := range orig {
		vfEq("multiplied value", vxPolyVal(ps[i].Coeff, x), f*vxPolyVal(orig[i].Coeff, x))
		vfEq("multiplication keeps the domain start", ps[i].X0, orig[i].X0)
		vfEq("multiplication keeps the domain end", ps[i].XE, orig[i].XE)
	}
	vfCover("multiplied")
}

// vxApart: equal or clearly different.
func vxApart(a, b float64) {
	vfAssume(a == b || a >= b+vxGap || b >= a+vxGap)
}

func vxCheckFlatten(ps PolySequence) {
	orig := vxCopySeq(ps)
	var ends []float64
	for _, p := range ps {
		for _, e := range []float64{p.X0, p.XE} {
			for _, o := range ends {
				vxApart(e, o)
			}
			ends = append(ends, e)
		}
	}
	x := vfF("x")
	for _, e := range ends {
		vfAssume(x != e)
	}
	got := ps.flatten()
	want, covered := 0.0, false
	for _, p := range orig {
		if p.X0 < x && x < p.XE {
			want += vxPolyVal(p.Coeff, x)
			covered = true
		}
	}
	hits, value := 0, 0.0
	for i, g := range got {
		vfCheck("flattened piece has a domain", g.X0 < g.XE)
		vfCheck("flattened pieces are ordered without overlaps", i == 0 || got[i-1].XE <= g.X0)
		if g.X0 < x && x < g.XE {
			hits++
			value = vxPolyVal(g.Coeff, x)
		}
	}
	if covered {
		vfCheck("exactly one flattened piece at every covered point", hits == 1)
		vfCover("covered")
	} else {
		vfCheck("no flattened piece at uncovered points", hits == 0)
		vfCover("gap")
	}
	vfEq("flattening preserves the sum", value, want)
	for i := range orig {
		vxSamePiece("flattening leaves the pieces unchanged", ps[i], orig[i])
	}
}

func VvhC09_FlattenTwo() {
	vxCheckFlatten(PolySequence{vxPiece(vfInt("n0", 1, 3), "0"), vxPiece(vfInt("n1", 1, 3), "1")})
}

// VvhC09_FlattenThree uses the shape that elements produce: pieces that end together.
func VvhC09_FlattenThree() {
	p, q, r := vxPiece(2, "0"), vxPiece(1, "1"), vxPiece(3, "2")
	q.XE, r.XE = p.XE, p.XE
	vfAssume(q.X0+vxGap <= p.XE)
	vfAssume(r.X0+vxGap <= p.XE)
	vxCheckFlatten(PolySequence{p, q, r})
}

func VvhC09_FlattenAny_Thorough() {
	vxCheckFlatten(PolySequence{vxPiece(2, "0"), vxPiece(1, "1"), vxPiece(2, "2")})
}

func VvhC09_IntervalIndex() {
	ps := PolySequence{vxPiece(1, "0"), vxPiece(1, "1")}
	for i := range ps { // moderate magnitudes, so that the relative tolerance stays below the gap
		vfAssume(0 <= ps[i].X0 && ps[i].XE <= 1000)
	}
	a, b := vfF("a"), vfF("b")
	vfAssume(0 <= a && a <= 1000 && 0 <= b && b <= 1000)
	want := -1
	for i := len(ps) - 1; i >= 0; i-- {
		vxApart(a, ps[i].X0)
		vxApart(b, ps[i].XE)
		if a == ps[i].X0 && b == ps[i].XE {
			want = i
		}
	}
	vfCheck("index of the matching interval", ps.IntervalIndex(a, b) == want)
	vfCover("index" + vfIntStr(want+1))
}

// VvhC09_Trim: trimming with any tolerance.
func VvhC09_Trim() {
	p := vxPiece(vfInt("n", 1, 4), "")
	q := vxCopyPiece(p)
	tol := vfPos("tol")
	ps := PolySequence{p}
	ps.TrimTrailingZeros(tol)
	vfCheck("trimming keeps the piece", len(ps) == 1)
	vfEq("trimming keeps the domain start", ps[0].X0, q.X0)
	vfEq("trimming keeps the domain end", ps[0].XE, q.XE)
	n := len(ps[0].Coeff)
	vfCheck("trimming keeps at least one coefficient", n >= 1 && n <= len(q.Coeff))
	if n < 1 {
		return
	}
	for j := range q.Coeff {
		v := 0.0
		if j < n {
			v = ps[0].Coeff[j]
		}
		vfLe("trimming changes coefficients within the tolerance", vxAbs(v-q.Coeff[j]), tol)
		if j > 0 && j < n {
			vfEq("trimming keeps higher coefficients", v, q.Coeff[j])
		}
	}
	if n > 1 {
		vfCheck("no negligible trailing coefficient remains", vxAbs(ps[0].Coeff[n-1]) >= tol)
	}
	vfCover("trimmed")
}

// VvhC09_Compact: merging with any tolerance. Without tolerance only identical pieces are merged.
func VvhC09_Compact() {
	ps := vxChain(vfInt("pieces", 1, 3), 1)
	orig := vxCopySeq(ps)
	tol := vfNN("tol")
	vxReported(ps.CompactIdentical(tol), orig, tol)
	vfCover("merged")
}

func VvhC09_CompactTwo() {
	ps := vxChain(2, 2)
	orig := vxCopySeq(ps)
	tol := vfNN("tol")
	vxReported(ps.CompactIdentical(tol), orig, tol)
	vfCover("merged")
}

// VvhC09_CompactExact: identical consecutive pieces are merged, clearly different ones are not.
func VvhC09_CompactExact() {
	ps := vxChain(3, 2)
	tol := 1e-9
	same := []bool{vfInt("same01", 0, 1) == 1, vfInt("same12", 0, 1) == 1}
	want := 1
	for i := range same {
		a, b := ps[i], &ps[i+1]
		if same[i] {
			b.Coeff = append([]float64{}, a.Coeff...)
			continue
		}
		want++
		if len(a.Coeff) == len(b.Coeff) {
			vfAssume(vxAbs(a.Coeff[0]) <= 100)
			vfAssume(b.Coeff[0] >= a.Coeff[0]+1)
			vfAssume(b.Coeff[0] <= 200)
		}
	}
	vfAssume(ps[0].X0 >= -100)
	vfAssume(ps[2].XE <= 100)
	got := ps.CompactIdentical(tol)
	vfCheck("identical neighbours are merged, others are not", len(got) == want)
	vfCover("merged")
}

// VvhC09_FlattenMany: six pieces in the shape that elements produce, with ordered starts.
func VvhC09_FlattenMany() {
	x0, end := vfF("start"), vfF("end")
	var starts []float64
	at := x0
	for i := range 3 {
		h := vfPos("h" + vfIntStr(i))
		vfAssume(h >= vxGap)
		starts = append(starts, at)
		at += h
	}
	vfAssume(at <= end)
	var ps PolySequence
	where := [][]int{{0, 2, 1, 0, 1, 2}, {2, 1, 0, 1, 1, 0}}[vfInt("where", 0, 1)]
	for i, w := range where {
		p := PolyPiece{X0: starts[w], XE: end}
		for range 1 + i%3 {
			p.Coeff = append(p.Coeff, vfF("c"+vfIntStr(i)))
		}
		ps = append(ps, p)
	}
	vxCheckFlatten(ps)
}

// VvhC09_FlattenLong: twelve pieces that start at regular distances.
func VvhC09_FlattenLong() {
	x0, h := vfF("start"), vfPos("h")
	vfAssume(h >= vxGap)
	var ps PolySequence
	shift := vfInt("shift", 0, 1)
	for i := range 12 {
		at := (5*i + shift) % 12
		p := PolyPiece{X0: x0 + float64(at)*h, XE: x0 + 12*h}
		for range 1 + i%2 {
			p.Coeff = append(p.Coeff, vfF("c"+vfIntStr(i)))
		}
		ps = append(ps, p)
	}
	vxCheckFlatten(ps)
}

// VvhC09_Long: six pieces integrated, multiplied and merged.
func VvhC09_Long() {
	var ps PolySequence
	at := vfF("start")
	vfAssume(at >= -1000)
	same := vfInt("same", -1, 4) // this one and the next have the same coefficients
	for i := range 6 {
		h := vfPos("h" + vfIntStr(i))
		vfAssume(h >= vxGap)
		vfAssume(h <= 1000)
		p := PolyPiece{X0: at, XE: at + h}
		for j := range 1 + (2*i)%3 {
			if j == 0 {
				p.Coeff = append(p.Coeff, float64(10*i)+vfF("c"+vfIntStr(i)))
				vfAssume(p.Coeff[0] >= float64(10*i-1))
				vfAssume(p.Coeff[0] <= float64(10*i+1))
			} else {
				p.Coeff = append(p.Coeff, 1+vfPos("c"+vfIntStr(i)+vfIntStr(j)))
			}
		}
		if same >= 0 && i == same+1 {
			p.Coeff = append([]float64{}, ps[same].Coeff...)
		}
		ps = append(ps, p)
		at = p.XE
	}
	orig := vxCopySeq(ps)
	c, x := vfF("const"), vfF("x")
	got := ps.integrate(c)
	vfCheck("one integral per piece", len(got) == len(orig))
	if len(got) != len(orig) {
		return
	}
	vfEq("integral starts with the constant", vxFirst(got), c)
	for i := range orig {
		vfEq("derivative of the integral", vxPolyVal(vxPolyDiff(got[i].Coeff), x), vxPolyVal(orig[i].Coeff, x))
		if i > 0 {
			vfEq("integral is continuous", vxPolyVal(got[i].Coeff, orig[i].X0), vxPolyVal(got[i-1].Coeff, orig[i].X0))
		}
		vxSamePiece("integration leaves the pieces unchanged", ps[i], orig[i])
	}
	merged := vxCopySeq(ps).CompactIdentical(1e-9)
	var want PolySequence
	for i, p := range orig {
		if same >= 0 && i == same+1 {
			want[len(want)-1].XE = p.XE
			continue
		}
		want = append(want, vxCopyPiece(p))
	}
	vfCheck("identical neighbours are merged, others are not", len(merged) == len(want))
	for i := range min(len(merged), len(want)) {
		vxSamePiece("merged piece", merged[i], want[i])
	}
	vfCover("long")
}

// VvhC09_Runs: six pieces, any of which may equal the one before.
func VvhC09_Runs() {
	ps := vxChain(1, 1)[:0]
	at := vfF("start")
	vfAssume(at >= -1000)
	same := vfInt("same", 0, 31)
	var want PolySequence
	for i := range 6 {
		h := vfPos("h" + vfIntStr(i))
		vfAssume(h >= vxGap)
		vfAssume(h <= 1000)
		p := PolyPiece{X0: at, XE: at + h}
		at = p.XE
		if i > 0 && same>>(i-1)&1 == 1 {
			p.Coeff = append([]float64{}, ps[i-1].Coeff...)
			ps = append(ps, p)
			want[len(want)-1].XE = p.XE
			continue
		}
		c := vfF("c" + vfIntStr(i))
		vfAssume(c >= -1)
		vfAssume(c <= 1)
		p.Coeff = []float64{float64(10*i) + c}
		if i%2 == 1 {
			p.Coeff = append(p.Coeff, 1+vfPos("d"+vfIntStr(i)))
		}
		ps = append(ps, p)
		want = append(want, vxCopyPiece(p))
	}
	got := ps.CompactIdentical(1e-9)
	vfCheck("runs of identical pieces are merged, others are not", len(got) == len(want))
	for i := range min(len(got), len(want)) {
		vxSamePiece("merged run", got[i], want[i])
	}
	vfCover("runs")
}
