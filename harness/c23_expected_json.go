package integr

// PACKAGE: integr
// BOUNDS: every nodal name and every function name with any value; documents with 1-2 nodes, 1-2 elements and
// BOUNDS: 1-2 entries each; one or two defects per document, at every position; iteration orders
// BOUNDS: of maps with up to 3 entries.
// BOUNDS: Larger instances, with symbolic values throughout: one document with sixteen nodal values and eighteen pieces;
// BOUNDS: two documents read one after the other that differ in one of seven places, or in their patterns.

import (
	"errors"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

// every name means its own degree of freedom, and a value is looked up once and under that only
func VvhC23_NodalNames() {
	n := vxNodalNames[vfInt("name", 0, len(vxNodalNames)-1)]
	what := "primary"
	reaction := vfBool("reaction")
	if reaction {
		what = "reaction"
	}
	v, a := vfF("v"), vfF("a")
	doc := `{"expected": {"` + what + `": {"A": [{"` + n.name + `": {{v}}}]}}}`
	es := vxExpect(doc, map[string]float64{"v": v})
	r := vxNewResult()
	for _, x := range vxNodalNames[:6] {
		r.primary[deflect.Index{NodalID: "A", Dof: x.dof}] = v + 1 + vxAbs(v)
		r.reaction[deflect.Index{NodalID: "A", Dof: x.dof}] = v + 1 + vxAbs(v)
	}
	i := deflect.Index{NodalID: "A", Dof: n.dof}
	if reaction {
		r.reaction[i] = a
	} else {
		r.primary[i] = a
	}
	want := !vxWithin(a, v, 1e-8, 1e-8)
	vfCheck("a name means its own quantity", vxFails(es, r, nil) == want)
	np, nr := 1, 0
	if reaction {
		np, nr = 0, 1
	}
	vfCheck("one lookup", len(r.askedP) == np && len(r.askedR) == nr && len(r.askedI) == 0)
}

func VvhC23_FunctionNames() {
	n := vxFctNames[vfInt("name", 0, len(vxFctNames)-1)]
	v, a := vfF("v"), vfF("a")
	deg := vfInt("degree", 0, 5)
	coeff := []float64{a, 1, 2, 3, 4, 5}[:deg+1]
	doc := `{"expected": {"interpolation": {"e": [{"kind": "` + n.name + `", "degree": ` + vfIntStr(deg) + `, "boundary": [{{v}}]}]}}}`
	es := vxExpect(doc, map[string]float64{"v": v})
	r := vxNewResult()
	r.pieces[vxKey("e", n.q)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: coeff}}
	want := !vxWithin(a, v, 1e-8, 1e-8)
	vfCheck("a name means its own function", vxFails(es, r, nil) == want)
	vfCheck("one lookup", len(r.askedI) == 1 && r.askedI[vxKey("e", n.q)] > 0 && len(r.askedP)+len(r.askedR) == 0)
}

// everything described is expected, nothing else
func VvhC23_Exact() {
	vfMapOrder("full", 3)
	num := map[string]float64{}
	r := vxNewResult()
	bad := vfInt("deviates", 0, 8)
	k := 0
	next := func() float64 {
		v := vfF("v" + vfIntStr(k))
		vfAssume(v <= 100)
		vfAssume(v >= -100)
		num["v"+vfIntStr(k)] = v
		if k == bad {
			v += 1 + vfPos("error")
		}
		k++
		return v
	}
	p := func(node string, d deflect.Dof) { r.primary[deflect.Index{NodalID: node, Dof: d}] = next() }
	q := func(node string, d deflect.Dof) { r.reaction[deflect.Index{NodalID: node, Dof: d}] = next() }
	f := func(e string, q deflect.Fct) {
		r.pieces[vxKey(e, q)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{next()}}}
	}
	p("A", deflect.Ux)
	p("A", deflect.Uz)
	p("B", deflect.Phiy)
	q("A", deflect.Ux)
	q("B", deflect.Phiy)
	f("e", deflect.FctNx)
	f("e", deflect.FctVz)
	f("g", deflect.FctNx)
	es := vxExpect(`{"name": "x", "other": {"kind": 5}, "expected": {
		"primary": {"A": [{"Ux": {{v0}}}, {"Uz": {{v1}}}], "B": [{"Phiy": {{v2}}}]},
		"reaction": {"A": [{"Fx": {{v3}}}], "B": [{"My": {{v4}}}]},
		"interpolation": {
			"e": [{"kind": "Nx", "degree": 0, "boundary": [{{v5}}]}, {"kind": "Vz", "degree": 0, "boundary": [{{v6}}]}],
			"g": [{"kind": "Nx", "degree": 0, "boundary": [{{v7}}]}]}}}`, num)
	vfCheck("everything described is expected", vxFails(es, r, nil) == (bad < 8))
	if bad < 8 {
		return
	}
	vfCheck("displacements looked up", len(r.askedP) == 3)
	vfCheck("reactions looked up", len(r.askedR) == 2)
	vfCheck("functions looked up", len(r.askedI) == 3)
	for i := range r.askedP {
		_, ok := r.primary[i]
		vfCheck("described displacement", ok)
	}
	for i := range r.askedR {
		_, ok := r.reaction[i]
		vfCheck("described reaction", ok)
	}
	for i := range r.askedI {
		_, ok := r.pieces[i]
		vfCheck("described function", ok)
	}
}

// tolerances: every one of them applies to its own kind of values only, and 1e-8 is the default
func VvhC23_Tolerances() {
	names := []string{"primary", "reaction", "polynomial"}
	given := []bool{vfBool("primary"), vfBool("reaction"), vfBool("polynomial")}
	tol := []float64{0.01, 0.001, 0.0001}
	num := map[string]float64{}
	var parts []string
	for i, n := range names {
		if given[i] {
			num[n] = tol[i]
			parts = append(parts, `"`+n+`": {{`+n+`}}`)
		} else {
			tol[i] = 1e-8
		}
	}
	e := vfPos("relative error")
	vfAssume(e < 0.5)
	at := vfInt("at", 0, 2)
	val := []float64{1, 1, 1}
	val[at] += e
	r := vxNewResult()
	i := deflect.Index{NodalID: "A", Dof: deflect.Ux}
	r.primary[i], r.reaction[i] = val[0], val[1]
	r.pieces[vxKey("e", deflect.FctNx)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{val[2]}}}
	es := vxExpect(`{"expected": {"tolerance": {`+strings.Join(parts, ", ")+`},
		"primary": {"A": [{"Ux": 1}]}, "reaction": {"A": [{"Fx": 1}]},
		"interpolation": {"e": [{"kind": "Nx", "degree": 0, "boundary": [1]}]}}}`, num)
	want := !vxWithin(val[at], 1, tol[at], tol[at])
	vfCheck("each tolerance applies to its own values", vxFails(es, r, nil) == want)
	for _, t := range r.tols {
		vfEq("interpolations are queried with the tolerance", t, tol[2])
	}
}

// a tolerance of zero is a tolerance: nodal values may still differ by 1e-8, others not at all
func VvhC23_ZeroTolerance() {
	names := []string{"primary", "reaction", "polynomial"}
	at := vfInt("at", 0, 2)
	doc := `"` + names[at] + `": 0`
	if vfBool("others") {
		doc += `, "` + names[(at+1)%3] + `": 1e-3`
	}
	e := vfPos("error")
	vfAssume(e < 1e-4)
	val := []float64{1000, 1000, 1000}
	val[at] += e
	r := vxNewResult()
	i := deflect.Index{NodalID: "A", Dof: deflect.Ux}
	r.primary[i], r.reaction[i] = val[0], val[1]
	r.pieces[vxKey("e", deflect.FctNx)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{val[2]}}}
	es := vxExpect(`{"expected": {"tolerance": {`+doc+`},
		"primary": {"A": [{"Ux": 1000}]}, "reaction": {"A": [{"Fx": 1000}]},
		"interpolation": {"e": [{"kind": "Nx", "degree": 0, "boundary": [1000]}]}}}`, nil)
	want := true
	if at == 2 {
		vfAssume(e > 1e-9)
	} else {
		vfAssume(e <= 0.99e-8 || e >= 1.01e-8)
		want = e >= 1.01e-8
	}
	vfCheck("a tolerance of zero is none", vxFails(es, r, nil) == want)
	if at == 2 {
		for _, t := range r.tols {
			vfEq("interpolations are queried without tolerance", t, 0)
		}
	}
}

// anything that cannot be an expectation is refused
func VvhC23_Refused() {
	vfMapOrder("full", 3)
	num := map[string]float64{"v": vfF("v")}
	primary, reaction := `{"Ux": {{v}}}`, `{"Fx": {{v}}}`
	inter := `{"kind": "Nx", "degree": 0}`
	tol, extra := `"primary": 1e-3`, ""
	bad := ""
	switch vfInt("defect", 0, 20) {
	case 0: // none
		_, err := ExpectationsFromJSON(vfDoc(`{"expected": {"tolerance": {`+tol+`}, "primary": {"A": [`+primary+`]},
			"reaction": {"A": [`+reaction+`]}, "interpolation": {"e": [`+inter+`]}, "failure": "a.*b"}}`, num))
		vfCheck("well-formed expectations are accepted", err == nil)
		return
	case 1:
		bad = `{"Uw": {{v}}}`
	case 2:
		bad = `{"ux": {{v}}}`
	case 3:
		bad = `{"": {{v}}}`
	case 4:
		bad = `{"Nx": {{v}}}`
	case 5:
		bad = `{"Ux": "1"}`
	case 6:
		extra = `, "failure": "a(b"`
	case 7:
		extra = `, "primry": {}`
	case 8:
		tol = `"primary": 1e-3, "reactions": {{v}}`
	case 9:
		inter = `{"kind": "Nx", "degree": 0, "value": {{v}}}`
	case 10:
		inter = `{"kind": "Fx", "degree": 0}`
	case 11:
		inter = `{"degree": 0}`
	case 12:
		inter = `{"kind": "nx", "degree": 0}`
	case 13:
		inter = `{"kind": "Nx", "degree": 0, "range": [{{v}}]}`
	case 14:
		inter = `{"kind": "Nx", "degree": 0, "range": [0, {{v}}, 3]}`
	case 15:
		inter = `{"kind": "Nx", "degree": 0, "eval": [[{{v}}]]}`
	case 16:
		inter = `{"kind": "Nx", "degree": 0, "eval": [[0, 1], [0, {{v}}, 2]]}`
	case 17:
		inter = `{"kind": "Nx", "degree": 0, "eval": [[], [0, 1]]}`
	case 18:
		inter = `{"kind": "Nx", "degree": 0, "boundary": [0, {{v}}, 1]}`
	case 19:
		inter = `{"kind": "Nx", "degree": "0"}`
	case 20:
		tol = `"primary": "1"`
	}
	doc := `"tolerance": {` + tol + `}`
	if bad != "" {
		// the wrong name among others
		switch vfInt("at", 0, 4) {
		case 0:
			primary = bad
		case 1:
			primary = `{"Ux": {{v}}}, ` + bad
		case 2:
			primary = bad + `, {"Ux": {{v}}}`
		case 3:
			primary = primary + `], "B": [` + bad
		case 4:
			primary = bad + `], "B": [{"Uz": {{v}}}`
		}
		// alone, or with the other section and interpolations beside it
		alone := vfInt("alone", 0, 2)
		if alone == 1 {
			reaction, inter = "", ""
		} else if alone == 2 {
			reaction = ""
		}
		if vfBool("reaction") {
			primary, reaction = reaction, primary
		}
	} else {
		if vfBool("no nodal values") {
			primary, reaction = "", ""
		}
		// the wrong interpolation among others
		other := `{"kind": "Vz", "degree": 1}`
		switch vfInt("at", 0, 4) {
		case 1:
			inter += ", " + other
		case 2:
			inter = other + ", " + inter
		case 3:
			inter += `], "f": [` + other
		case 4:
			inter = other + `], "f": [` + inter
		}
	}
	if primary != "" {
		doc += `, "primary": {"A": [` + primary + `]}`
	}
	if reaction != "" {
		doc += `, "reaction": {"A": [` + reaction + `]}`
	}
	if inter != "" {
		doc += `, "interpolation": {"e": [` + inter + `]}`
	}
	_, err := ExpectationsFromJSON(vfDoc(`{"expected": {`+doc+extra+`}}`, num))
	vfCheck("a defect in the expectations is refused", err != nil)
}

// without expectations, or with something else in their place
func VvhC23_Missing() {
	docs := []string{`{}`, `{"name": "x"}`, `{"expected": []}`, `{"expected": 5}`, `{"expected": "x"}`, `[]`, `5`, `{"expected": {}`, ``,
		`{"expected": {"primary": []}}`, `{"expected": {"primary": {"A": {"Ux": 1}}}}`, `{"expected": {"interpolation": {"e": {}}}}`}
	_, err := ExpectationsFromJSON(vfDoc(docs[vfInt("document", 0, len(docs)-1)], nil))
	vfCheck("expectations must be there", err != nil)
}

// the kind of failure expected
func VvhC23_Failure() {
	r := vxNewResult()
	want := vfBool("failure expected")
	doc := `{"expected": {"primary": {}}}`
	if want {
		doc = `{"expected": {"failure": ""}}`
	}
	es := vxExpect(doc, nil)
	vfCheck("success or failure as described", vxFails(es, r, nil) == want)
}

// the same quantity described more than once: every description counts
func VvhC23_Repeated() {
	vfMapOrder("full", 2)
	v, a := vfF("v"), vfF("a")
	vfAssume(v <= 100)
	vfAssume(v >= -100)
	first := vfBool("the first one is met") // the other one is met in any case
	second := v
	if !first {
		v = vfF("w")
		vfAssume(vxAbs(v-a) >= 1+vxAbs(a))
	}
	vfAssume(second == a)
	texts := []string{"{{v}}", "{{second}}"}
	if vfBool("swapped") {
		texts[0], texts[1] = texts[1], texts[0]
	}
	r := vxNewResult()
	node := deflect.Index{NodalID: "A", Dof: deflect.Uz}
	r.primary[node], r.reaction[node] = a, a
	r.pieces[vxKey("e", deflect.FctVz)] = deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{a}}}
	doc := ""
	switch kind := vfInt("kind", 0, 6); kind {
	case 0:
		doc = `"primary": {"A": [{"Uz": ` + texts[0] + `}, {"Uz": ` + texts[1] + `}]}`
	case 1:
		doc = `"reaction": {"A": [{"Fz": ` + texts[0] + `}, {"Fz": ` + texts[1] + `}]}`
	case 2:
		doc = `"reaction": {"A": [{"Uz": ` + texts[0] + `, "Fz": ` + texts[1] + `}]}`
	default:
		ranges := []string{"", `, "range": []`, `, "range": [0, 1]`}
		one, two := ranges[vfInt("range of one", 0, 2)], ranges[vfInt("range of two", 0, 2)]
		form := func(x string) string { return `, "boundary": [` + x + `]` }
		if kind == 4 {
			form = func(x string) string { return `, "eval": [[0.5, ` + x + `]]` }
		}
		head := `{"kind": "Vz", "degree": 0`
		if kind == 5 {
			doc = `"interpolation": {"e": [` + head + one + form(texts[0]) + `}, {"kind": "Vz", "degree": 0` + two + `, "eval": [[0.5, ` + texts[1] + `]]}]}`
		} else if kind == 6 {
			doc = `"interpolation": {"e": [` + head + one + `, "eval": [[0.5, ` + texts[0] + `], [0.5, ` + texts[1] + `]]}]}`
		} else {
			doc = `"interpolation": {"e": [` + head + one + form(texts[0]) + `}, ` + head + two + form(texts[1]) + `}]}`
		}
	}
	es := vxExpect(`{"expected": {`+doc+`}}`, map[string]float64{"v": v, "second": second})
	vfCheck("every description counts", vxFails(es, r, nil) == !first)
}

// a longer description: many nodes, values, functions, pieces, samples; any single one deviates
func VvhC23_Many() {
	num := map[string]float64{}
	r := vxNewResult()
	k := 0
	next := func() (name string, v float64) {
		name = "v" + vfIntStr(k)
		v = vfF(name)
		vfAssume(v <= 100)
		vfAssume(v >= -100)
		num[name] = v
		k++
		return "{{" + name + "}}", v
	}
	type vxEntry struct {
		index deflect.Index
		react bool
		key   string
		at    int
	}
	var all []vxEntry
	nodal := func(reaction bool, ids ...string) string {
		var nodes []string
		for n, id := range ids {
			var objs []string
			for j := 0; j <= n; j++ {
				dof := vxNodalNames[(2*n+j)%6]
				name := dof.name
				if reaction {
					name = vxNodalNames[(2*n+j)%6+6].name
				}
				text, v := next()
				i := deflect.Index{NodalID: id, Dof: dof.dof}
				if reaction {
					r.reaction[i] = v
				} else {
					r.primary[i] = v
				}
				all = append(all, vxEntry{index: i, react: reaction})
				entry := `"` + name + `": ` + text
				if j%3 == 1 { // together with the one before
					last := objs[len(objs)-1]
					objs[len(objs)-1] = last[:len(last)-1] + `, ` + entry + `}`
				} else {
					objs = append(objs, `{`+entry+`}`)
				}
			}
			nodes = append(nodes, `"`+id+`": [`+strings.Join(objs, ", ")+`]`)
		}
		return strings.Join(nodes, ", ")
	}
	primary := nodal(false, "n10", "n2", "N3", "n1")
	reaction := nodal(true, "n2", "n10", "2")
	var elmts []string
	for n, id := range []string{"e10", "e2", "e1"} {
		var fs []string
		for j := 0; j < 2; j++ {
			f := vxFctNames[(4*n+3*j)%12]
			key := vxKey(id, f.q)
			var pieces deflect.PolySequence
			for l := 0; l < 3; l++ {
				text, v := next()
				_, w := next()
				x0 := float64(2 * l)
				coeff := []float64{v}
				if l == 1 {
					coeff = []float64{v, 0.5}
				}
				pieces = append(pieces, deflect.PolyPiece{X0: x0, XE: x0 + 2, Coeff: coeff})
				doc := `{"kind": "` + f.name + `", "degree": ` + vfIntStr(len(coeff)-1) + `, "range": [` + vfIntStr(2*l) + `, ` + vfIntStr(2*l+2) + `]`
				if l == 1 {
					num["v"+vfIntStr(k-1)] = vxPoly(x0+1, coeff)
					num["v"+vfIntStr(k-2)] = vxPoly(x0, coeff)
				} else {
					vfAssume(w == v)
				}
				doc += `, "boundary": [` + text + `], "eval": [[` + vfIntStr(2*l+1) + `, {{v` + vfIntStr(k-1) + `}}]]}`
				fs = append(fs, doc)
				all = append(all, vxEntry{key: key, at: l})
			}
			r.pieces[key] = pieces
		}
		elmts = append(elmts, `"`+id+`": [`+strings.Join(fs, ", ")+`]`)
	}
	es := vxExpect(`{"expected": {"primary": {`+primary+`}, "reaction": {`+reaction+`}, "interpolation": {`+strings.Join(elmts, ", ")+`}}}`, num)
	vfCheck("everything is met", !vxFails(es, r, nil))
	bad := all[vfInt("deviates", 0, len(all)-1)]
	e := 1 + vfPos("error")
	switch {
	case bad.key != "":
		r.pieces[bad.key][bad.at].Coeff[0] += e
	case bad.react:
		r.reaction[bad.index] += e
	default:
		r.primary[bad.index] += e
	}
	vfCheck("every described value counts", vxFails(es, r, nil))
	n := 0
	for range r.askedP {
		n++
	}
	vfCheck("nothing else is looked up", n == len(r.primary) && len(r.askedR) == len(r.reaction) && len(r.askedI) == len(r.pieces))
	vfCover("many")
}

// two descriptions read one after the other: each means what it says, however alike they are
func VvhC23_Twice() {
	a, b := vfF("a"), vfF("b")
	vfAssume(a <= 100)
	vfAssume(a >= -100)
	vfAssume(b <= 100)
	vfAssume(b >= -100)
	vfAssume(vxAbs(a-b) >= 1)
	at := vfInt("difference", 0, 6)
	doc := func(second bool) []Expectation {
		pick := func(k int, x, y string) string {
			if second && at == k {
				return y
			}
			return x
		}
		return vxExpect(`{"expected": {"tolerance": {"primary": `+pick(6, "1e-8", "1e3")+`},
			"primary": {"`+pick(0, "A", "B")+`": [{"Ux": `+pick(1, "{{a}}", "{{b}}")+`}]},
			"reaction": {"A": [{"`+pick(2, "Fx", "Fz")+`": {{a}}}]},
			"interpolation": {"`+pick(3, "e", "f")+`": [{"kind": "`+pick(4, "Nx", "Vz")+`", "degree": 0, "boundary": [`+pick(5, "{{a}}", "{{b}}")+`]}]}}}`,
			map[string]float64{"a": a, "b": b})
	}
	swap := vfBool("the other one first")
	first := doc(swap)
	second := doc(!swap)
	if swap {
		first, second = second, first
	}
	// everything is as the first one says, and differs from the second one where they differ
	r := vxNewResult()
	pa := deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{a}}}
	pb := deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{b}}}
	r.primary[deflect.Index{NodalID: "A", Dof: deflect.Ux}] = a
	r.primary[deflect.Index{NodalID: "B", Dof: deflect.Ux}] = b
	r.reaction[deflect.Index{NodalID: "A", Dof: deflect.Ux}] = a
	r.reaction[deflect.Index{NodalID: "A", Dof: deflect.Uz}] = b
	r.pieces[vxKey("e", deflect.FctNx)] = pa
	r.pieces[vxKey("f", deflect.FctNx)] = pb
	r.pieces[vxKey("e", deflect.FctVz)] = pb
	vfCheck("the first description is met", !vxFails(first, r, nil))
	vfCheck("the second description is not met", vxFails(second, r, nil) == (at < 6))
	if at == 6 { // only the second one is tolerant
		r.primary[deflect.Index{NodalID: "A", Dof: deflect.Ux}] = b
		vfCheck("the first description is not met", vxFails(first, r, nil))
		vfCheck("the second description is met", !vxFails(second, r, nil))
	}
}

// two patterns read one after the other
func VvhC23_TwoPatterns() {
	pairs := [][]string{{`^\\D+$`, `^\\d+$`, "123"}, {`^singular$`, `singular`, "is singular"}, {`a`, `b`, "b"}, {` x`, `x`, "x"}, {`[^a-z]$`, `[a-z]$`, "x"}}
	p := pairs[vfInt("patterns", 0, len(pairs)-1)]
	doc := func(s string) []Expectation { return vxExpect(`{"expected": {"failure": "`+s+`"}}`, nil) }
	swap := vfInt("the other one first", 0, 1)
	es := [2][]Expectation{}
	for _, i := range []int{swap, 1 - swap} {
		es[i] = doc(p[i])
	}
	vfCheck("the first pattern does not match", vxFails(es[0], vxNewResult(), errors.New(p[2])))
	vfCheck("the second pattern matches", !vxFails(es[1], vxNewResult(), errors.New(p[2])))
}
