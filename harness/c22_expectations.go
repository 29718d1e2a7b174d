package integr

// PACKAGE: integr
// BOUNDS: up to 2 nodes with 1-2 expected values each, displacements and reactions, any values and
// BOUNDS: any expected degree against polynomials with vanishing leading coefficients; tolerances in (0, 1), results of NaN and infinity; interpolations of 1-2 pieces of degree 0-2 with 0-2 samples and 0-2
// BOUNDS: boundary values; up to 4 functions per element; every reversed or overlapping range; two (thorough: three) results in a row; 6 error messages; five expectations with ranges for two (thorough: three) results with the same or other pieces; results come from a stand-in that returns given values.

import (
	"errors"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// one nodal value, any tolerance
func VvhC22_Value() {
	v, a := vfF("v"), vfF("a")
	what := "primary"
	reaction := vfBool("reaction")
	if reaction {
		what = "reaction"
	}
	tol := 1e-8
	tolDoc := ""
	nums := map[string]float64{"v": v}
	switch vfInt("tolerance", 0, 3) {
	case 1:
		tol = vfPos("tol")
		vfAssume(tol < 1)
		nums["tol"] = tol
		tolDoc = `"tolerance": {"` + what + `": {{tol}}},`
	case 2: // of other values
		tolDoc = `"tolerance": {"reaction": 0.5, "polynomial": 0.5},`
		if reaction {
			tolDoc = `"tolerance": {"primary": 0.5, "polynomial": 0.5},`
		}
	case 3:
		tol = 1e-3
		tolDoc = `"tolerance": {"reaction": 0.5, "polynomial": 0.5, "primary": 1e-3},`
		if reaction {
			tolDoc = `"tolerance": {"polynomial": 0.5, "reaction": 1e-3, "primary": 0.5},`
		}
	}
	es := vxExpect(`{"expected": {`+tolDoc+`"`+what+`": {"A": [{"Ux": {{v}}}]}}}`, nums)
	r := vxNewResult()
	i := deflect.Index{NodalID: "A", Dof: deflect.Ux}
	if reaction {
		r.reaction[i] = a
	} else {
		r.primary[i] = a
	}
	want := !vxWithin(a, v, 1e-8, tol)
	if want {
		vfCover("failed")
	} else {
		vfCover("passed")
	}
	vfCheck("a failure is reported iff the nodal value deviates", vxFails(es, r, nil) == want)
}

// values that are not finite numbers deviate from every expected one
func VvhC22_Special_FP() {
	a := vfF("a")
	vfAssume(a != a || a > math.MaxFloat64 || a < -math.MaxFloat64 || a == 1)
	r := vxNewResult()
	i := deflect.Index{NodalID: "A", Dof: deflect.Ux}
	doc := ""
	switch vfInt("what", 0, 4) {
	case 0:
		r.primary[i] = a
		doc = `"primary": {"A": [{"Ux": 1}]}`
	case 1:
		r.reaction[i] = a
		doc = `"reaction": {"A": [{"Fx": 1}]}`
	case 2:
		doc = `"interpolation": {"e": [{"kind": "My", "degree": 0, "boundary": [1]}]}`
	case 3:
		doc = `"interpolation": {"e": [{"kind": "My", "degree": 0, "boundary": [1, 1]}]}`
	case 4:
		doc = `"interpolation": {"e": [{"kind": "My", "degree": 0, "range": [0, 2], "eval": [[1, 1]]}]}`
	}
	r.pieces[vxKey("e", deflect.FctMy)] = deflect.PolySequence{{X0: 0, XE: 2, Coeff: []float64{a}}}
	fails := vxFails(vxExpect(`{"expected": {`+doc+`}}`, nil), r, nil)
	if a == 1 {
		vfCover("exact")
		vfCheck("the very value is accepted", !fails)
	} else {
		vfCover("other")
		vfCheck("a failure is reported for any other value", fails)
	}
}

// several nodal values: each of them counts, and a missing one is a failure
func VvhC22_Nodal() {
	v, a := vfF("v"), vfF("a")
	vfAssume(v <= 100)
	vfAssume(a <= 100)
	vfAssume(v >= -100)
	vfAssume(a >= -100)
	what := "primary"
	reaction := vfBool("reaction")
	if reaction {
		what = "reaction"
	}
	idx := []deflect.Index{{NodalID: "A", Dof: deflect.Ux}, {NodalID: "A", Dof: deflect.Phiy}, {NodalID: "B", Dof: deflect.Uz}}
	desc := `{"A": [{"Ux": {{v0}}}, {"Phiy": {{v1}}}], "B": [{"Uz": {{v2}}}]}`
	if vfBool("one object") {
		desc = `{"B": [{"Fz": {{v2}}}], "A": [{"Ux": {{v0}}, "My": {{v1}}}]}`
	}
	vfMapOrder("full", 2)
	at := vfInt("symbolic", 0, 2)
	values := []float64{5, -6, 7}
	actual := []float64{5, -6, 7}
	values[at], actual[at] = v, a
	bad := vfInt("bad", 0, 3) // this one deviates, 3: none
	kind := vfInt("kind", 0, 1)
	r := vxNewResult()
	m := r.primary
	if reaction {
		m = r.reaction
	}
	want := bad < 3
	for i, x := range idx {
		if i == bad {
			if kind == 1 {
				continue
			}
			vfAssume(bad != at)
			actual[i] = -actual[i]
		} else if i == at && !vxWithin(a, v, 1e-8, 1e-3) {
			want = true
		}
		m[x] = actual[i]
	}
	es := vxExpect(`{"expected": {"tolerance": {"primary": 1e-3, "reaction": 1e-3}, "`+what+`": `+desc+`}}`,
		map[string]float64{"v0": values[0], "v1": values[1], "v2": values[2]})
	vfCheck("a failure is reported iff some nodal value deviates", vxFails(es, r, nil) == want)
	vfCheck("the verdict stays the same", vxFails(es, r, nil) == want)
}

// vxPiece is a polynomial with one unknown coefficient.
func vxPiece() []float64 {
	deg := vfInt("degree", 0, 2)
	coeff := make([]float64, deg+1)
	for i := range coeff {
		coeff[i] = float64(3*i + 2)
	}
	c := 0.01 + vfNN("c")
	vfAssume(c <= 100)
	if vfBool("negative") {
		c = -c
	}
	coeff[vfInt("unknown", 0, deg)] = c
	return coeff
}

// a value of a polynomial, any tolerance
func VvhC22_Sample() {
	tol := 1e-8
	tolDoc := ""
	nums := map[string]float64{}
	if vfBool("tolerance") {
		tol = vfPos("tol")
		vfAssume(tol < 0.1)
		vfAssume(tol > 1e-6)
		nums["tol"] = tol
		tolDoc = `"tolerance": {"polynomial": {{tol}}, "primary": 0.5, "reaction": 0.5},`
	}
	coeff := vxPiece()
	r := vxNewResult()
	r.pieces[vxKey("e", deflect.FctMy)] = deflect.PolySequence{{X0: 0, XE: 2, Coeff: coeff}}
	v := vfF("v")
	vfAssume(v <= 1000)
	vfAssume(v >= -1000)
	nums["v"] = v
	x := 0.0
	doc := `"boundary": [{{v}}]`
	switch vfInt("value", 0, 2) {
	case 1:
		x = 2
		doc = `"boundary": [{{y0}}, {{v}}]`
		nums["y0"] = vxPoly(0, coeff)
	case 2:
		x = vfF("x")
		vfAssume(1e-3 <= x)
		vfAssume(x <= 2-1e-3)
		nums["x"] = x
		doc = `"eval": [[{{x}}, {{v}}]]`
	}
	es := vxExpect(`{"expected": {`+tolDoc+`"interpolation": {"e": [{"kind": "My", "degree": `+
		vfIntStr(len(coeff)-1)+`, `+doc+`}]}}}`, nums)
	want := !vxWithin(vxPoly(x, coeff), v, tol, tol)
	if want {
		vfCover("failed")
	} else {
		vfCover("passed")
	}
	vfCheck("a failure is reported iff the value deviates", vxFails(es, r, nil) == want)
	for _, t := range r.tols {
		vfEq("interpolations are queried with the tolerance", t, tol)
	}
}

// ranges, degrees and several values: a failure is reported iff the quantity cannot be interpolated,
// has no piece over the range (or several pieces without one), or degree or some value differs
func VvhC22_Interpolation() {
	coeff := vxPiece()
	nums := map[string]float64{}
	r := vxNewResult()
	ps := deflect.PolySequence{{X0: 0, XE: 2, Coeff: coeff}}
	first, n := 0, vfInt("pieces", 1, 3)
	switch n {
	case 2:
		first = 1
		ps = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{7}}, {X0: 1, XE: 2, Coeff: coeff}}
	case 3:
		ps = deflect.PolySequence{{X0: 0, XE: 1, Coeff: coeff}, {X0: 1, XE: 2, Coeff: []float64{7}}}
	}
	x0, xE := ps[first].X0, ps[first].XE
	nums["x0"], nums["xE"] = x0, xE
	r.pieces[vxKey("e", deflect.FctMy)] = ps
	rangeDoc, want := "", n != 1
	switch vfInt("range", 0, 4) {
	case 1: // the domain of the piece
		rangeDoc, want = `, "range": [{{x0}}, {{xE}}]`, false
	case 2: // other ones
		rangeDoc, want = `, "range": [{{x0}}, {{r}}]`, true
		nums["r"] = xE + 0.5
	case 3:
		rangeDoc, want = `, "range": [{{r}}, {{xE}}]`, true
		nums["r"] = x0 + 0.25
	case 4: // empty: the entire element
		rangeDoc = `, "range": []`
	}
	wantDeg := len(coeff) - 1
	if !want && vfBool("degree differs") {
		wantDeg += vfInt("difference", 0, 1)*2 - 1
		want = true
	}
	kind := `"My"`
	if !want && vfBool("not available") {
		kind, want = `"Vz"`, true
	}
	doc := `"kind": ` + kind + `, "degree": ` + vfIntStr(wantDeg) + rangeDoc
	bad := vfInt("bad", 0, 3)
	k := 0
	sample := func(name string, x float64) {
		v := vxPoly(x, coeff)
		k++
		if k == bad {
			v += vfPos("error") + 1
			want = true
		}
		nums[name] = v
	}
	switch vfInt("values", 0, 6) {
	case 1:
		doc += `, "boundary": [{{b}}]`
		sample("b", x0)
	case 2:
		doc += `, "boundary": [{{b}}, {{d}}]`
		sample("b", x0)
		sample("d", xE)
	case 4:
		doc += `, "eval": [[{{m}}, {{e}}], [{{x0}}, {{g}}], [{{xE}}, {{h}}]]`
		nums["m"] = x0 + 0.5
		sample("e", x0+0.5)
		sample("g", x0)
		sample("h", xE)
	case 5: // boundary and samples
		doc += `, "boundary": [{{b}}, {{d}}], "eval": [[{{m}}, {{e}}]]`
		nums["m"] = x0 + 0.5
		sample("b", x0)
		sample("d", xE)
		sample("e", x0+0.5)
	case 6: // outside, with the value of the polynomial there
		doc += `, "eval": [[{{x}}, {{e}}]]`
		x := xE + 1e-3 + vfPos("x")
		if vfBool("left") {
			x = x0 - 1e-3 - vfPos("x")
		}
		nums["x"] = x
		sample("e", x)
		want = true
	}
	vfAssume(bad <= k)
	es := vxExpect(`{"expected": {"interpolation": {"e": [{`+doc+`}]}}}`, nums)
	if want {
		vfCover("failed")
	} else {
		vfCover("passed")
	}
	vfCheck("a failure is reported iff the interpolation deviates", vxFails(es, r, nil) == want)
	vfCheck("the verdict stays the same", vxFails(es, r, nil) == want)
}

// several elements and several functions per element: each of them counts
func VvhC22_Several() {
	vfMapOrder("full", 2)
	r := vxNewResult()
	keys := []string{vxKey("e", deflect.FctNx), vxKey("e", deflect.FctVz), vxKey("f", deflect.FctNx)}
	want := false
	nums := map[string]float64{}
	at := vfInt("deviates", 0, 3)
	for i, k := range keys {
		a := vfF("a" + vfIntStr(i))
		v := a
		vfAssume(a <= 100)
		vfAssume(a >= -100)
		if i == at {
			want = true
			v += 1 + vfPos("error")
		}
		r.pieces[k] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{a}}}
		nums["v"+vfIntStr(i)] = v
	}
	es := vxExpect(`{"expected": {"interpolation": {
		"e": [{"kind": "Nx", "degree": 0, "boundary": [{{v0}}]}, {"kind": "Vz", "degree": 0, "boundary": [{{v1}}]}],
		"f": [{"kind": "Nx", "degree": 0, "eval": [[0.5, {{v2}}]]}]}}}`, nums)
	vfCheck("each expected interpolation counts", vxFails(es, r, nil) == want)
}

// no coefficients at all
func VvhC22_Empty() {
	r := vxNewResult()
	ps := deflect.PolySequence{{X0: 0, XE: 1}}
	if vfBool("no piece") {
		ps = nil
	}
	r.pieces[vxKey("e", deflect.FctNx)] = ps
	es := vxExpect(`{"expected": {"interpolation": {"e": [{"kind": "Nx", "degree": 0}]}}}`, nil)
	vfCheck("an empty interpolation is a failure", vxFails(es, r, nil))
}

// errors of the solver
func VvhC22_Errors() {
	es := vxExpect(`{"expected": {}}`, nil)
	msgs := []string{"", "matrix is singular", "Matrix is SINGULAR", "something else", "matrix is close to singular", "x",
		"first\nmatrix is singular", "matrix is singular\nsecond", "matrix\nsingular", " matrix singular "}
	k := vfInt("message", 0, len(msgs)-1)
	var err error
	if k > 0 {
		err = errors.New(msgs[k])
	}
	vfCheck("success is expected unless stated otherwise", vxFails(es, vxNewResult(), err) == (k > 0))
	es = vxExpect(`{"expected": {"failure": "matrix.*singular"}}`, nil)
	r := vxNewResult()
	want := k == 0 || k == 3 || k == 5 || k == 8
	vfCheck("an expected error must occur and match", vxFails(es, r, err) == want)
	es = vxExpect(`{"expected": {"failure": "SINGULAR"}}`, nil)
	vfCheck("upper case pattern", vxFails(es, r, err) == (k != 2))
}

// the same expectations for several results: every one of them is judged by itself
func VvhC22_Again()          { vxAgain(2) }
func VvhC22_Again_Thorough() { vxAgain(3) }

func vxAgain(n int) {
	v := vfF("v")
	vfAssume(v <= 100)
	vfAssume(v >= -100)
	es := vxExpect(`{"expected": {"tolerance": {"primary": 1e-6}, "primary": {"A": [{"Ux": {{v}}}]}, "reaction": {"A": [{"Fz": {{v}}}]},
		"interpolation": {"e": [{"kind": "My", "degree": 1, "boundary": [{{v}}, {{w}}]}, {"kind": "Nx", "degree": 0, "eval": [[0.5, {{v}}]]}]}}}`,
		map[string]float64{"v": v, "w": v + 6})
	for i := range n {
		tag := vfIntStr(i)
		r := vxNewResult()
		dev := vfInt("deviates"+tag, 0, 5)
		bad := func(k int) float64 {
			if k != dev {
				return v
			}
			return v + 1 + vfPos("error"+tag)
		}
		r.primary[deflect.Index{NodalID: "A", Dof: deflect.Ux}] = bad(1)
		r.reaction[deflect.Index{NodalID: "A", Dof: deflect.Uz}] = bad(2)
		// the same values at the ends of different domains
		xE := float64(i + 1)
		r.pieces[vxKey("e", deflect.FctMy)] = deflect.PolySequence{{X0: 0, XE: xE, Coeff: []float64{bad(3), 6 / xE}}}
		r.pieces[vxKey("e", deflect.FctNx)] = deflect.PolySequence{{X0: 0, XE: xE, Coeff: []float64{bad(4)}}}
		if dev == 5 {
			delete(r.pieces, vxKey("e", deflect.FctNx))
		}
		vfCheck("every result is judged by itself", vxFails(es, r, nil) == (dev > 0))
	}
	vfCover("again")
}

// up to four functions of an element, of which one is not available or deviates
func VvhC22_Functions() {
	n := vfInt("functions", 1, 4)
	r := vxNewResult()
	nums := map[string]float64{}
	doc := ""
	bad := vfInt("bad", 0, n) // n: none
	how := vfInt("how", 0, 3)
	want := bad < n
	for i := range n {
		f := vxFctNames[[]int{6, 8, 10, 2}[i]]
		form := vfInt("form", 0, 2)
		if i != bad {
			form = i % 3
		}
		a := vfF("a" + vfIntStr(i))
		vfAssume(a <= 100)
		vfAssume(a >= -100)
		name := "v" + vfIntStr(i)
		nums[name] = a
		coeff := []float64{a}
		text := `{"kind": "` + f.name + `", "degree": 0` + []string{"", `, "boundary": [{{` + name + `}}]`, `, "eval": [[0.5, {{` + name + `}}]]`}[form] + `}`
		if i == bad {
			switch how {
			case 0: // deviates
				vfAssume(form > 0)
				coeff[0] += 1 + vfPos("error")
			case 1: // another degree
				coeff = append(coeff, 1)
			case 2: // several pieces
				r.pieces[vxKey("e", f.q)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: coeff}, {X0: 1, XE: 2, Coeff: coeff}}
			}
		}
		if i != bad || how < 2 {
			r.pieces[vxKey("e", f.q)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: coeff}}
		}
		if i > 0 {
			doc += ", "
		}
		doc += text
	}
	es := vxExpect(`{"expected": {"interpolation": {"e": [`+doc+`]}}}`, nums)
	vfCheck("each function counts", vxFails(es, r, nil) == want)
	vfCover("functions")
}

// ranges: only the very domain of a piece is one
func VvhC22_Ranges() {
	v := vfF("v")
	vfAssume(v <= 100)
	vfAssume(v >= -100)
	a, b := vfPos("a"), vfPos("b")
	vfAssume(a >= 0.1)
	vfAssume(b >= a+0.1)
	vfAssume(b <= 100)
	r := vxNewResult()
	ps := deflect.PolySequence{{X0: 0, XE: a, Coeff: []float64{v}}, {X0: a, XE: b, Coeff: []float64{v}}}
	ranges := [][]string{{"o", "a"}, {"a", "b"}, {"a", "o"}, {"b", "a"}, {"o", "b"}, {"b", "o"}, {"a", "a"}, {"o", "o"}, {"o", "n"}, {"n", "o"}}
	k := vfInt("range", 0, len(ranges)-1)
	want := k > 1
	if vfInt("pieces", 1, 2) == 1 {
		ps = deflect.PolySequence{{X0: 0, XE: b, Coeff: []float64{v}}}
		want = k != 4
	}
	r.pieces[vxKey("e", deflect.FctMy)] = ps
	es := vxExpect(`{"expected": {"interpolation": {"e": [{"kind": "My", "degree": 0, "range": [{{`+ranges[k][0]+`}}, {{`+ranges[k][1]+`}}]}]}}}`,
		map[string]float64{"o": 0, "a": a, "b": b, "n": -a})
	vfCheck("a range is the domain of a piece", vxFails(es, r, nil) == want)
	vfCover("ranges")
}

// the degree counts whatever the values are, those of a function that is zero included
func VvhC22_Degrees() {
	deg := vfInt("degree", 0, 2)
	coeff := make([]float64, deg+1)
	for i := range coeff {
		coeff[i] = vfF("c" + vfIntStr(i))
		vfAssume(coeff[i] <= 100)
		vfAssume(coeff[i] >= -100)
	}
	switch vfInt("special", 0, 2) {
	case 1: // starts at zero
		coeff[0] = 0
	case 2: // is zero at both ends
		coeff[0] = 0
		if deg == 2 {
			coeff[1] = -2 * coeff[2]
		} else if deg == 1 {
			coeff[1] = 0
		}
	}
	r := vxNewResult()
	r.pieces[vxKey("e", deflect.FctMy)] = deflect.PolySequence{{X0: 0, XE: 2, Coeff: coeff}}
	want := vfInt("expected", 0, 3)
	nums := map[string]float64{"y0": vxPoly(0, coeff), "yE": vxPoly(2, coeff)}
	doc := []string{``, `, "boundary": [{{y0}}]`, `, "boundary": [{{y0}}, {{yE}}]`, `, "eval": [[2, {{yE}}]]`}[vfInt("values", 0, 3)]
	es := vxExpect(`{"expected": {"interpolation": {"e": [{"kind": "My", "degree": `+vfIntStr(want)+doc+`}]}}}`, nums)
	vfCheck("another degree is a failure", vxFails(es, r, nil) == (want != deg))
}

// the same expectations of several pieces for several results, of which the pieces are the same
func VvhC22_Kept()          { vxKept(2) }
func VvhC22_Kept_Thorough() { vxKept(3) }

func vxKept(n int) {
	v := vfF("v")
	vfAssume(v <= 100)
	vfAssume(v >= -100)
	es := vxExpect(`{"expected": {"interpolation": {"e": [
		{"kind": "My", "degree": 0, "range": [0, 1], "boundary": [{{v}}]},
		{"kind": "My", "degree": 1, "range": [1, 3], "boundary": [{{v}}, {{w}}], "eval": [[2, {{u}}]]},
		{"kind": "Vz", "degree": 0, "range": [0, 2], "eval": [[1, {{v}}]]}],
		"f": [{"kind": "My", "degree": 0, "range": [0, 1], "boundary": [{{v}}]}]}}}`,
		map[string]float64{"v": v, "w": v + 4, "u": v + 2})
	for i := range n {
		tag := vfIntStr(i)
		r := vxNewResult()
		dev := vfInt("deviates"+tag, 0, 7)
		bad := func(k int) float64 {
			if k != dev {
				return v
			}
			return v + 1 + vfPos("error"+tag)
		}
		my := deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{bad(1)}}, {X0: 1, XE: 3, Coeff: []float64{bad(2) - 2, 2}}}
		vz := deflect.PolySequence{{X0: 0, XE: 2, Coeff: []float64{bad(3)}}, {X0: 2, XE: 3, Coeff: []float64{1}}}
		switch dev {
		case 4: // other pieces
			my[0].XE, my[1].X0 = 1.5, 1.5
		case 5:
			vz = vz[:1]
			vz[0].XE = 3
		case 6: // another degree
			my[1].Coeff = []float64{v - 2, 2, 1}
		}
		r.pieces[vxKey("e", deflect.FctMy)] = my
		r.pieces[vxKey("e", deflect.FctVz)] = vz
		r.pieces[vxKey("f", deflect.FctMy)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{bad(7)}}, {X0: 1, XE: 3, Coeff: []float64{1}}}
		vfCheck("every result is judged by itself", vxFails(es, r, nil) == (dev > 0))
	}
	vfCover("kept")
}
