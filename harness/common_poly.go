package deflect

// Symbolic polynomial pieces.

// vxPiece is a piece with n arbitrary coefficients over an arbitrary domain of at least 1e-6.
func vxPiece(n int, tag string) PolyPiece {
	p := PolyPiece{X0: vfF("x0" + tag), XE: vfF("xe" + tag)}
	vfAssume(p.XE >= p.X0+vxGap)
	for i := 0; i < n; i++ {
		p.Coeff = append(p.Coeff, vfF("c"+tag))
	}
	return p
}

func vxCopyPiece(p PolyPiece) PolyPiece {
	return PolyPiece{X0: p.X0, XE: p.XE, Coeff: append([]float64{}, p.Coeff...)}
}

func vxCopySeq(ps PolySequence) PolySequence {
	var out PolySequence
	for _, p := range ps {
		out = append(out, vxCopyPiece(p))
	}
	return out
}

// vxSamePiece asserts that two pieces are identical.
func vxSamePiece(label string, p, q PolyPiece) {
	vfEq(label+" (domain start)", p.X0, q.X0)
	vfEq(label+" (domain end)", p.XE, q.XE)
	vfCheck(label+" (number of coefficients)", len(p.Coeff) == len(q.Coeff))
	for i := range min(len(p.Coeff), len(q.Coeff)) {
		vfEq(label+" (coefficient)", p.Coeff[i], q.Coeff[i])
	}
}

func vxAbs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// vxChain is a contiguous sequence of n pieces, each with a freely chosen number of coefficients.
func vxChain(n, maxCoeff int) PolySequence {
	var ps PolySequence
	x := vfF("start")
	for i := 0; i < n; i++ {
		tag := vfIntStr(i)
		h := vfPos("h" + tag)
		vfAssume(h >= vxGap)
		p := PolyPiece{X0: x, XE: x + h}
		for j := vfInt("n"+tag, 1, maxCoeff); j > 0; j-- {
			p.Coeff = append(p.Coeff, vfF("c"+tag))
		}
		ps = append(ps, p)
		x = p.XE
	}
	return ps
}

// vxReported asserts that got is what remains of ps after trimming and merging with a tolerance:
// pieces of ps are merged to one piece only where their coefficients agree within the tolerance,
// coefficients change within the tolerance only, and the domain stays partitioned.
func vxReported(got, ps PolySequence, tol float64) {
	vfCheck("trimming and merging keep at least one piece", len(got) > 0 && len(got) <= len(ps))
	if len(got) == 0 {
		return
	}
	vfEq("reported pieces start where the pieces start", got[0].X0, ps[0].X0)
	vfEq("reported pieces end where the pieces end", got[len(got)-1].XE, ps[len(ps)-1].XE)
	k := 0
	for i, g := range got {
		vfCheck("reported piece has coefficients", len(g.Coeff) > 0)
		if i > 0 {
			vfEq("reported pieces touch", g.X0, got[i-1].XE)
		}
		first := k
		for k < len(ps) && ps[k].XE <= g.XE {
			o := ps[k]
			steps := float64(k - first) // merged with its predecessors one by one
			for j := 0; j < max(len(g.Coeff), len(o.Coeff)); j++ {
				a, b, c := 0.0, 0.0, 0.0
				if j < len(g.Coeff) {
					a = g.Coeff[j]
				}
				if j < len(o.Coeff) {
					b = o.Coeff[j]
				}
				if k > first && j < len(ps[k-1].Coeff) {
					c = ps[k-1].Coeff[j]
				}
				vfLe("coefficients change within the tolerance", vxAbs(a-b), tol+steps*tol*(2+vxAbs(a)+vxAbs(b)+vxAbs(c)))
			}
			k++
		}
		vfCheck("reported piece covers pieces", k > first)
		if k > first {
			vfEq("reported boundary is a boundary", g.XE, ps[k-1].XE)
		}
	}
	vfCheck("reported pieces cover all pieces", k == len(ps))
}
