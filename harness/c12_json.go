package deflect

import (
	"slices"

	"gonum.org/v1/gonum/mat"
)

// BOUNDS: descriptions with two to four nodes and one to three elements of every kind; nodes of
// elements explicit (either direction) or inferred; one to three materials and cross sections of both
// kinds, named or inferred; every set of hinge names at either end; nodes and elements of the same name; every name of degrees of freedom and
// nodal loads, every name and degree of element loads; up to two inclined supports between any two
// displacements; nodes listed in either order and every permutation of one iterated map at a time
// (rotations beyond four entries; thorough: two maps); all numbers; exact real arithmetic. Decoding
// itself (encoding/json) is modelled.
// Larger instances, with symbolic values throughout: one description of six nodes, five elements and fourteen loads,
// and descriptions of four nodes and four elements whose names differ by case, blanks, zeros, order or length only
// (names of one byte and of two, elements named by their nodes or not);
// all numbers of all materials and cross sections of two elements, found in the element wherever it keeps them;
// two descriptions read one after the other that are alike except in one of 31 places (any two numbers there);
// two materials and two sections whose names are the same when joined by one of twelve separators.

const vxPlainMaterial = `"m": {"kind": "linelast", "parameter": {"E": 7, "nu": 0.3, "rho": 2}}`
const vxPlainSection = `"s": {"kind": "constants", "parameter": {"A": 2, "Iyy": 3, "Izz": 5}}`

// vxPlain is a description of a single element between nodes a and b.
func vxPlain(kind int) (*vxParts, *Node, *Node) {
	d := &vxParts{material: []string{vxPlainMaterial}, cs: []string{vxPlainSection},
		elements: []string{`"ab": {"kind": "` + vxKindName[kind] + `"}`}, dirichlet: []string{`"a": [{"Ux": 0, "Uz": 0}]`}}
	b := vxNodes(kind, "")
	d.node("a", b.n0)
	d.node("b", b.n1)
	return d, b.n0, b.n1
}

func vxPlainMat() *Material {
	return &Material{CrossSection: &vxCS{a: 2, iyy: 3, izz: 5}, LinearElastic: LinearElastic{YoungsModulus: 7, PoissonsRatio: 0.3, Density: 2}}
}

func vxRead(d *vxParts) (Problem, bool) {
	p, err := d.read()
	vfCheck("well-formed description is accepted", err == nil)
	return p, err == nil
}

// VvhC12_Elements: kinds, connectivity, materials, cross sections and hinges.
func VvhC12_Elements() {
	kind := vfInt("kind", 0, 2)
	b := vxNodes(kind, "")
	d := &vxParts{dirichlet: []string{`"a": [{"Ux": 0}]`}}
	d.node("a", b.n0)
	d.node("b", b.n1)
	extra := &Node{ID: "c", X: vfF("xc"), Y: vfF("yc"), Z: vfF("zc")}
	want := []Node{*b.n0, *b.n1}
	if vfInt("extra", 0, 1) == 1 {
		d.node("c", extra)
		d.nodes = []string{d.nodes[2], d.nodes[1], d.nodes[0]}
		want = append(want, *extra)
	}
	// materials: one of up to three
	e := vfPos("E")
	own := `"own": {"kind": "linelast", "parameter": {"E": ` + d.num("E", e) + `, "nu": ` + d.num("nu", vfNN("nu")) + `, "rho": ` + d.num("rho", vfPos("rho")) + `}}`
	d.material = []string{own}
	elmt := `"kind": "` + vxKindName[kind] + `"`
	if vfInt("materials", 0, 1) == 1 {
		d.material = []string{vxPlainMaterial, own, `"n": {"kind": "linelast", "parameter": {"E": 1, "nu": 0, "rho": 0}}`}
		elmt += `, "material": "own"`
	}
	// cross sections
	cs := &vxCS{}
	text := ""
	if vfInt("rectangle", 0, 1) == 1 {
		w, h := vfPos("w"), vfPos("h")
		cs.a, cs.iyy = w*h, w*h*h*h/12
		text = `"sec": {"kind": "rectangle", "parameter": {"b": ` + d.num("w", w) + `, "h": ` + d.num("h", h)
		if vfInt("roll", 0, 1) == 1 {
			text += `, "roll": ` + d.num("roll", vfNN("roll"))
		}
		text += `}}`
	} else {
		cs.a, cs.iyy = vfPos("A"), vfPos("Iyy")
		text = `"sec": {"kind": "constants", "parameter": {"A": ` + d.num("A", cs.a) + `, "Iyy": ` + d.num("Iyy", cs.iyy) + `, "Izz": ` + d.num("Izz", vfPos("Izz")) + `}}`
	}
	d.cs = []string{text}
	if vfInt("sections", 0, 1) == 1 {
		d.cs = []string{vxPlainSection, text, `"t": {"kind": "rectangle", "parameter": {"b": 1, "h": 2}}`}
		elmt += `, "cs": "sec"`
	}
	// connectivity
	id, n0, n1 := "ab", b.n0, b.n1
	switch vfInt("connect", 0, 3) {
	case 1:
		id, n0, n1 = "ba", b.n1, b.n0
	case 2:
		id = "some member"
		elmt += `, "nodes": ["a", "b"]`
	case 3:
		elmt += `, "nodes": ["b", "a"]`
		n0, n1 = b.n1, b.n0
	}
	d.elements = []string{`"` + id + `": {` + elmt + `}`}
	m := &Material{CrossSection: cs, LinearElastic: LinearElastic{YoungsModulus: e}}
	ref, err := vxNew(kind, id, n0, n1, m, nil)
	vfCheck("element is accepted", err == nil)
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameNodes(p.Nodes, want)
	vxSameElements(p.Elements, []Element{ref})
	vxSameValues("supports", p.Dirichlet, []NodalValue{{Index: vxIdx("a", Ux)}})
	vfCheck("nothing else", len(p.Neumann) == 0 && len(p.EqTransforms) == 0)
	vfCover("elements")
}

var vxDofNames = []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"}
var vxForceNames = []string{"Fx", "Fz", "Fy", "My", "Mz", "Mx"}
var vxDofOrder = []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}

// VvhC12_Hinges: hinge names at either end.
func VvhC12_Hinges() {
	kind := vfInt("kind", 0, 2)
	d, n0, n1 := vxPlain(kind)
	hinges := map[Index]struct{}{}
	text := ""
	for i, end := range []string{"a", "b"} {
		first, second := vfInt("first"+end, 0, 6), 0
		if i == vfInt("two", 0, 1) {
			second = vfInt("second"+end, 0, 6)
		}
		names := ""
		for _, k := range []int{first, second} {
			if k == 0 {
				continue
			}
			hinges[vxIdx(end, vxDofOrder[k-1])] = struct{}{}
			if names != "" {
				names += ", "
			}
			names += `"` + vxDofNames[k-1] + `"`
		}
		if names != "" {
			if text != "" {
				text += ", "
			}
			text += `"` + end + `": [` + names + `]`
		}
	}
	ref, err := vxNew(kind, "ab", n0, n1, vxPlainMat(), hinges)
	d.elements = []string{`"ab": {"kind": "` + vxKindName[kind] + `", "hinges": {` + text + `}}`}
	p, errRead := d.read()
	vfCheck("hinges are accepted exactly if the element supports them", (errRead == nil) == (err == nil))
	if err != nil || errRead != nil {
		return
	}
	vxSameElements(p.Elements, []Element{ref})
	vfCover("hinges")
}

// VvhC12_ManyHinges: any set of hinge names at one end.
func VvhC12_ManyHinges() {
	kind := vfInt("kind", 0, 2)
	d, n0, n1 := vxPlain(kind)
	hinges := map[Index]struct{}{}
	end, far := "a", "b"
	if vfInt("second", 0, 1) == 1 {
		end, far = far, end
	}
	mask := vfInt("names", 1, 63)
	names := ""
	for i, n := range vxDofNames {
		if mask>>i&1 == 1 {
			hinges[vxIdx(end, vxDofOrder[i])] = struct{}{}
			if names != "" {
				names += ", "
			}
			names += `"` + n + `"`
		}
	}
	text := `"` + end + `": [` + names + `]`
	if vfInt("far", 0, 1) == 1 {
		hinges[vxIdx(far, Phiy)] = struct{}{}
		text += `, "` + far + `": ["Phiy"]`
	}
	ref, err := vxNew(kind, "ab", n0, n1, vxPlainMat(), hinges)
	d.elements = []string{`"ab": {"kind": "` + vxKindName[kind] + `", "hinges": {` + text + `}}`}
	p, errRead := d.read()
	vfCheck("hinges are accepted exactly if the element supports them", (errRead == nil) == (err == nil))
	if err != nil || errRead != nil {
		return
	}
	vxSameElements(p.Elements, []Element{ref})
	vfCover("hinges")
}

// VvhC12_ManySupports: many prescribed values at one node in several objects, also repeated ones.
func VvhC12_ManySupports() {
	vfMapOrder("rotate", 1)
	d, _, _ := vxPlain(vxFrame2d)
	var want []NodalValue
	text := ""
	// the first object has any of these sets, the second one up to two values, the third one at most one
	sets := [][]int{{0}, {0, 1}, {2, 4}, {0, 1, 3}, {0, 1, 2, 3}, {5, 4, 3, 2, 1}, {0, 1, 2, 3, 4, 5}}
	objects := [][]int{sets[vfInt("set", 0, len(sets)-1)]}
	if i := vfInt("second", -1, 5); i >= 0 {
		objects = append(objects, []int{i, (i + 1) % 6}[:vfInt("two", 1, 2)])
		if j := vfInt("third", -1, 1); j >= 0 {
			objects = append(objects, []int{(i + 3*j) % 6})
		}
	}
	settled := vfInt("settled", 0, 1) == 1
	for i, o := range objects {
		if i > 0 {
			text += ", "
		}
		text += "{"
		for j, k := range o {
			v := NodalValue{Index: vxIdx("b", vxDofOrder[k])}
			tag := "u" + vfIntStr(i) + vfIntStr(j)
			if settled {
				v.Value = vfF(tag)
			}
			want = append(want, v)
			if j > 0 {
				text += ", "
			}
			text += `"` + vxDofNames[k] + `": ` + d.num(tag, v.Value)
		}
		text += "}"
	}
	d.dirichlet = []string{`"b": [` + text + `]`}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameValues("supports", p.Dirichlet, want)
	vfCover("supports")
}

// VvhC12_SameName: a node and an element of the same name, with loads of both in one list.
func VvhC12_SameName() {
	vfMapOrder("full", 1)
	kind := vfInt("kind", 0, 2)
	b := vxNodes(kind, "")
	b.n0.ID, b.n1.ID = "ab", "c"
	d := &vxParts{material: []string{vxPlainMaterial}, cs: []string{vxPlainSection},
		elements: []string{`"ab": {"kind": "` + vxKindName[kind] + `", "nodes": ["ab", "c"]}`}, dirichlet: []string{`"ab": [{"Ux": 0, "Uz": 0}]`}}
	d.node("ab", b.n0)
	d.node("c", b.n1)
	ref, err := vxNew(kind, "ab", b.n0, b.n1, vxPlainMat(), nil)
	vfCheck("element is accepted", err == nil)
	var want []NodalValue
	list := ""
	n := vfInt("loads", 1, 3)
	for i := range n {
		tag := vfIntStr(i)
		if i > 0 {
			list += ", "
		}
		if vfInt("element"+tag, 0, 1) == 1 {
			text, bc := vxLoadText(d, vfInt("degree"+tag, 0, 2), 6, b.l, tag)
			vfCheck("supported load is accepted by the element", ref.AddLoad(bc))
			list += text
		} else {
			v := NodalValue{vxIdx("ab", vxDofOrder[i]), vfF("f" + tag)}
			want = append(want, v)
			list += `{"` + vxForceNames[i] + `": ` + d.num("f"+tag, v.Value) + `}`
		}
	}
	d.neumann = []string{`"ab": [` + list + `]`}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameElements(p.Elements, []Element{ref})
	vxSameValues("nodal loads", p.Neumann, want)
	vfCover("same name")
}

// VvhC12_Several: three elements, each with its own material and section.
func VvhC12_Several() {
	vfMapOrder("full", 1)
	vxSeveral()
}

func VvhC12_Several_Thorough() {
	vfMapOrder("full", 2)
	vxSeveral()
}

func vxSeveral() {
	d := &vxParts{dirichlet: []string{`"a": [{"Ux": 0}]`}}
	nodes := []*Node{{ID: "a"}, {ID: "b", X: vfPos("x1")}, {ID: "c", Z: vfPos("z2")}, {ID: "d", X: -vfPos("x3")}}
	var want []Node
	for _, n := range nodes {
		d.node(n.ID, n)
		want = append(want, *n)
	}
	var els []Element
	first := vfInt("kind", 0, 2)
	for i := 0; i < 3; i++ {
		tag := vfIntStr(i)
		m := &Material{CrossSection: &vxCS{a: vfPos("A" + tag), iyy: vfPos("I" + tag)}, LinearElastic: LinearElastic{YoungsModulus: vfPos("E" + tag)}}
		d.material = append(d.material, `"m`+tag+`": {"kind": "linelast", "parameter": {"E": `+d.num("E"+tag, m.YoungsModulus)+`, "nu": 0.3, "rho": 1}}`)
		d.cs = append(d.cs, `"s`+tag+`": {"kind": "constants", "parameter": {"A": `+d.num("A"+tag, m.Area())+`, "Iyy": `+d.num("I"+tag, m.Iyy())+`, "Izz": 1}}`)
		kind := (first + i) % 3
		e, err := vxNew(kind, "a"+nodes[i+1].ID, nodes[0], nodes[i+1], m, nil)
		vfCheck("element is accepted", err == nil)
		els = append(els, e)
		d.elements = append(d.elements, `"a`+nodes[i+1].ID+`": {"kind": "`+vxKindName[kind]+`", "material": "m`+tag+`", "cs": "s`+tag+`"}`)
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameNodes(p.Nodes, want)
	vxSameElements(p.Elements, els)
	vfCover("several")
}

// VvhC12_Supports: every name, several per node and nodes in any order.
func VvhC12_Supports() {
	vfMapOrder("full", 1)
	d, _, _ := vxPlain(vxFrame2d)
	i, j := vfInt("i", 0, 5), vfInt("j", 0, 5)
	u := []float64{vfF("u0"), vfF("u1"), vfF("u2"), vfF("u3")}
	k := (i + 1 + vfInt("k", 0, 4)) % 6
	entry := func(name string, n int) string { return `"` + vxDofNames[n] + `": ` + d.num(name, u[len(d.nums)-6]) }
	e0 := entry("u0", i)
	e1 := entry("u1", k)
	e2 := entry("u2", j)
	if vfInt("joint", 0, 1) == 1 {
		d.dirichlet = []string{`"a": [{` + e0 + `, ` + e1 + `}]`, `"b": [{` + e2 + `}]`}
	} else {
		d.dirichlet = []string{`"b": [{` + e2 + `}]`, `"a": [{` + e0 + `}, {` + e1 + `}]`}
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameValues("supports", p.Dirichlet, []NodalValue{{vxIdx("a", vxDofOrder[i]), u[0]}, {vxIdx("a", vxDofOrder[k]), u[1]}, {vxIdx("b", vxDofOrder[j]), u[2]}})
	vfCheck("nothing else", len(p.Neumann) == 0 && len(p.EqTransforms) == 0)
	vfCover("supports")
}

// VvhC12_NodalLoads: every name, several per node, also twice the same.
func VvhC12_NodalLoads() {
	vfMapOrder("full", 1)
	d, n0, n1 := vxPlain(vxFrame2d)
	i, j := vfInt("i", 0, 5), vfInt("j", 0, 5)
	f := []float64{vfF("f0"), vfF("f1"), vfF("f2")}
	k := (i + 1 + vfInt("k", 0, 4)) % 6
	entry := func(n, dof int) string {
		return `"` + vxForceNames[dof] + `": ` + d.num("f"+vfIntStr(n), f[n])
	}
	e0 := entry(0, i)
	e1 := entry(1, k)
	e2 := entry(2, j)
	want := []NodalValue{{vxIdx("a", vxDofOrder[i]), f[0]}, {vxIdx("a", vxDofOrder[k]), f[1]}, {vxIdx("b", vxDofOrder[j]), f[2]}}
	switch vfInt("how", 0, 2) {
	case 0:
		d.neumann = []string{`"a": [{` + e0 + `, ` + e1 + `}]`, `"b": [{` + e2 + `}]`}
	case 1:
		d.neumann = []string{`"b": [{` + e2 + `}]`, `"a": [{` + e0 + `}, {` + e1 + `}]`}
	case 2:
		d.neumann = []string{`"b": [{` + e2 + `}]`, `"a": [{` + e0 + `}, {` + e1 + `}, {` + e0 + `}]`}
		want = append(want, want[0])
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameValues("nodal loads", p.Neumann, want)
	ref, err := NewFrame2d("ab", n0, n1, vxPlainMat(), nil)
	vfCheck("element is accepted", err == nil)
	vxSameElements(p.Elements, []Element{ref})
	vxSameValues("supports", p.Dirichlet, []NodalValue{{Index: vxIdx("a", Ux)}, {Index: vxIdx("a", Uz)}})
	vfCover("nodal")
}

var vxElementLoadNames = []string{"Fx", "Fz", "Fy", "My", "Mz", "Mx", "qx", "qz", "qy", "my", "mz", "mx"}

// vxLoadText writes an element load and creates the same one.
func vxLoadText(d *vxParts, degree, name int, l float64, tag string) (string, NeumannElementBC) {
	kind := vxDofOrder[name%6]
	v := vfF("v" + tag)
	text := `{"kind": "` + vxElementLoadNames[name] + `", "degree": `
	switch degree {
	case 0:
		pos := vfPos("pos" + tag)
		vfAssume(pos <= l)
		bc, err := NewElementConcentratedLoad(kind, pos, v)
		vfCheck("valid concentrated load is accepted", err == nil)
		return text + `"dirac", "values": [` + d.num("v"+tag, v) + `], "position": [` + d.num("pos"+tag, pos) + `]}`, bc
	case 1:
		return text + `"constant", "values": [` + d.num("v"+tag, v) + `]}`, NewElementConstantLoad(kind, v)
	}
	w := vfF("w" + tag)
	return text + `"linear", "values": [` + d.num("v"+tag, v) + `, ` + d.num("w"+tag, w) + `]}`, NewElementLinearLoad(kind, v, w)
}

// VvhC12_ElementLoads: every name and degree, alone or with another load, with nodal loads nearby.
func VvhC12_ElementLoads() {
	kind := vfInt("kind", 0, 2)
	b := vxNodes(kind, "")
	d := &vxParts{material: []string{vxPlainMaterial}, cs: []string{vxPlainSection},
		elements: []string{`"ab": {"kind": "` + vxKindName[kind] + `"}`}, dirichlet: []string{`"a": [{"Ux": 0, "Uz": 0}]`}}
	d.node("a", b.n0)
	d.node("b", b.n1)
	ref, err := vxNew(kind, "ab", b.n0, b.n1, vxPlainMat(), nil)
	vfCheck("element is accepted", err == nil)
	text, bc := vxLoadText(d, vfInt("degree", 0, 2), vfInt("name", 0, 11), b.l, "0")
	valid := ref.AddLoad(bc)
	g := vfF("g")
	nodal := `"b": [{"Fx": ` + d.num("g", g) + `}]`
	switch vfInt("how", 0, 2) {
	case 0:
		d.neumann = []string{`"ab": [` + text + `]`}
	case 1:
		other, obc := vxLoadText(d, 1, 6, b.l, "1")
		vfCheck("supported load is accepted by the element", ref.AddLoad(obc))
		d.neumann = []string{`"ab": [` + other + `, ` + text + `]`, nodal}
	case 2: // the same twice
		d.neumann = []string{nodal, `"ab": [` + text + `, ` + text + `]`}
		ref.AddLoad(bc)
	}
	p, err := d.read()
	vfCheck("load is accepted exactly if the element supports it", (err == nil) == valid)
	if err != nil || !valid {
		return
	}
	vxSameElements(p.Elements, []Element{ref})
	if len(d.neumann) == 2 {
		vxSameValues("nodal loads", p.Neumann, []NodalValue{{vxIdx("b", Ux), g}})
	} else {
		vfCheck("no nodal loads", len(p.Neumann) == 0)
	}
	vfCover("loads")
}

// VvhC12_Attribution: loads of different elements and nodes reach the right ones, in any order.
func VvhC12_Attribution() {
	vfMapOrder("full", 1)
	vxAttribution()
}

func VvhC12_Attribution_Thorough() {
	vfMapOrder("full", 2)
	vxAttribution()
}

func vxAttribution() {
	d := &vxParts{material: []string{vxPlainMaterial}, cs: []string{vxPlainSection}, dirichlet: []string{`"a": [{"Ux": 0}]`}}
	nodes := []*Node{{ID: "a"}, {ID: "b", X: vfPos("x1")}, {ID: "c", Z: vfPos("z2")}}
	for _, n := range nodes {
		d.node(n.ID, n)
	}
	d.elements = []string{`"ab": {"kind": "frame2d"}`, `"ac": {"kind": "truss2d"}`, `"cb": {"kind": "frame2d", "nodes": ["b", "c"]}`}
	q := []float64{vfF("q0"), vfF("q1"), vfF("q2"), vfF("q3")}
	load := func(name string, i int) string {
		return `{"kind": "` + name + `", "degree": "constant", "values": [` + d.num("q"+vfIntStr(i), q[i]) + `]}`
	}
	f := []float64{vfF("f0"), vfF("f1")}
	d.neumann = []string{`"ab": [` + load("qz", 0) + `]`, `"c": [{"Fz": ` + d.num("f0", f[0]) + `}]`,
		`"ac": [` + load("qx", 1) + `]`, `"cb": [` + load("qx", 2) + `, ` + load("qz", 3) + `]`}
	e0, err0 := NewFrame2d("ab", nodes[0], nodes[1], vxPlainMat(), nil)
	e1, err1 := NewTruss2d("ac", nodes[0], nodes[2], vxPlainMat(), nil)
	e2, err2 := NewFrame2d("cb", nodes[1], nodes[2], vxPlainMat(), nil)
	vfCheck("elements are accepted", err0 == nil && err1 == nil && err2 == nil)
	vfCheck("loads are accepted", e0.AddLoad(NewElementConstantLoad(Uz, q[0])) && e1.AddLoad(NewElementConstantLoad(Ux, q[1])) &&
		e2.AddLoad(NewElementConstantLoad(Ux, q[2])) && e2.AddLoad(NewElementConstantLoad(Uz, q[3])))
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameElements(p.Elements, []Element{e0, e1, e2})
	vxSameValues("nodal loads", p.Neumann, []NodalValue{{vxIdx("c", Uz), f[0]}})
	vfCover("attribution")
}

// VvhC12_Links: inclined supports between any two displacements, with other supports.
func VvhC12_Links() {
	vfMapOrder("full", 1)
	d, _, _ := vxPlain(vxFrame2d)
	names := []string{"Ux", "Uz", "Uy"}
	var trs []Transformer
	want := []NodalValue{{vxIdx("z", Ux), vfF("u")}}
	link := func(node, tag string) string {
		i := vfInt("from"+tag, 0, 2)
		j := (i + 1 + vfInt("to"+tag, 0, 1)) % 3
		_, _, angle := vxAngleOf(tag)
		tr, bc := NewInclinedSupport(vxIdx(node, vxDofOrder[i]), vxIdx(node, vxDofOrder[j]), angle)
		trs = append(trs, tr)
		want = append(want, bc)
		return `{"from": "` + names[i] + `", "to": "` + names[j] + `", "angle": ` + d.num("angle"+tag, angle) + `}`
	}
	d.dirichlet = []string{`"z": [{"Ux": ` + d.num("u", want[0].Value) + `}]`}
	switch vfInt("how", 0, 2) {
	case 0:
		d.links = []string{`"a": [` + link("a", "0") + `]`}
	case 1:
		d.links = []string{`"b": [` + link("b", "0") + `]`, `"a": [` + link("a", "1") + `]`}
	case 2:
		d.links = []string{`"b": [` + link("b", "0") + `]`}
		d.dirichlet = nil
		want = want[1:]
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameValues("supports", p.Dirichlet, want)
	vfCheck("no nodal loads", len(p.Neumann) == 0)
	vfCheck("same number of links", len(p.EqTransforms) == len(trs))
	// supports of different nodes commute
	var dofs []Index
	for _, id := range []string{"a", "b", "z"} {
		dofs = append(dofs, Index{id, Ux}, Index{id, Uz}, Index{id, Uy})
	}
	lay, err := NewEqLayout(&Problem{Elements: []Element{&vxBlob{id: "p", dofs: dofs}}})
	vfCheck("numbering succeeds", err == nil)
	n := len(dofs)
	r0, r1 := mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	d0, d1 := mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	k0, k1 := mat.NewSymDense(n, nil), mat.NewSymDense(n, nil)
	for i := 0; i < n; i++ {
		v := vfF("r" + vfIntStr(i))
		r0.SetVec(i, v)
		r1.SetVec(i, v)
	}
	for _, tr := range trs {
		tr.Pre(lay, k0, r0, d0)
	}
	for _, tr := range p.EqTransforms {
		tr.Pre(lay, k1, r1, d1)
	}
	for i := 0; i < n; i++ {
		vfEq("same rotation", r1.AtVec(i), r0.AtVec(i))
	}
	vfCover("links")
}

// VvhC12_Many: a larger description with everything in it.
func VvhC12_Many() {
	vfMapOrder("rotate", 1)
	d := &vxParts{}
	nodes := []*Node{{ID: "n10"}, {ID: "n2", X: vfPos("x1")}, {ID: "N3", X: vfF("x2"), Z: vfPos("z2")},
		{ID: "n1", Z: -vfPos("z3")}, {ID: "L", Y: vfPos("y4")}, {ID: "2", X: -vfPos("x5"), Y: vfF("y5"), Z: vfF("z5")}}
	var want []Node
	for _, n := range nodes {
		d.node(n.ID, n)
		want = append(want, *n)
	}
	m := []*Material{}
	for i := range 2 {
		tag := vfIntStr(i)
		x := &Material{CrossSection: &vxCS{a: vfPos("A" + tag), iyy: vfPos("I" + tag)}, LinearElastic: LinearElastic{YoungsModulus: vfPos("E" + tag)}}
		d.material = append(d.material, `"m`+tag+`": {"kind": "linelast", "parameter": {"E": `+d.num("E"+tag, x.YoungsModulus)+`, "nu": 0.2, "rho": 1}}`)
		d.cs = append(d.cs, `"m`+tag+`": {"kind": "constants", "parameter": {"A": `+d.num("A"+tag, x.Area())+`, "Iyy": `+d.num("I"+tag, x.Iyy())+`, "Izz": 1}}`)
		m = append(m, x)
	}
	mixed := &Material{CrossSection: m[0].CrossSection, LinearElastic: m[1].LinearElastic}
	member := func(id, kind, mat, cs, more string) {
		d.elements = append(d.elements, `"`+id+`": {"kind": "`+kind+`", "material": "`+mat+`", "cs": "`+cs+`"`+more+`}`)
	}
	member("e10", "frame2d", "m0", "m0", `, "nodes": ["n10", "n2"], "hinges": {"n2": ["Phiy", "Ux"]}`)
	member("e2", "frame2d", "m1", "m0", `, "nodes": ["n2", "N3"]`)
	member("n10n1", "truss2d", "m1", "m1", `, "nodes": ["n10", "n1"]`)
	member("2L", "truss3d", "m1", "m0", `, "hinges": {"L": ["Ux"]}`)
	member("e1", "frame2d", "m0", "m0", `, "nodes": ["n1", "n2"], "hinges": {"n1": ["Phiy"], "n2": ["Uz"]}`)
	var errs [5]error
	var els [5]Element
	els[0], errs[0] = NewFrame2d("e10", nodes[0], nodes[1], m[0], map[Index]struct{}{vxIdx("n2", Phiy): {}, vxIdx("n2", Ux): {}})
	els[1], errs[1] = NewFrame2d("e2", nodes[1], nodes[2], mixed, nil)
	els[2], errs[2] = NewTruss2d("n10n1", nodes[0], nodes[3], m[1], nil)
	els[3], errs[3] = NewTruss3d("2L", nodes[5], nodes[4], mixed, map[Index]struct{}{vxIdx("L", Ux): {}})
	els[4], errs[4] = NewFrame2d("e1", nodes[3], nodes[1], m[0], map[Index]struct{}{vxIdx("n1", Phiy): {}, vxIdx("n2", Uz): {}})
	for _, err := range errs {
		vfCheck("element is accepted", err == nil)
	}
	if vfInt("backwards", 0, 1) == 1 {
		for i, j := 0, len(d.elements)-1; i < j; i, j = i+1, j-1 {
			d.elements[i], d.elements[j] = d.elements[j], d.elements[i]
		}
	}
	// supports
	var bcs, loads []NodalValue
	entry := func(list *[]NodalValue, names []string, id string, k int) string {
		v := NodalValue{vxIdx(id, vxDofOrder[k]), vfF(names[k] + id)}
		*list = append(*list, v)
		return `"` + names[k] + `": ` + d.num(names[k]+id, v.Value)
	}
	sup := func(id string, k int) string { return entry(&bcs, vxDofNames, id, k) }
	d.dirichlet = []string{
		`"n2": [{` + sup("n2", 0) + `}, {` + sup("n2", 3) + `}]`,
		`"L": [{` + sup("L", 2) + `, ` + sup("L", 0) + `, ` + sup("L", 1) + `}]`,
		`"2": [{` + sup("2", 1) + `}]`,
	}
	d.links = []string{`"N3": [{"from": "Ux", "to": "Uz", "angle": 0.5}]`}
	_, bc := NewInclinedSupport(vxIdx("N3", Ux), vxIdx("N3", Uz), 0.5)
	bcs = append(bcs, bc)
	// loads
	f := func(id string, k int) string { return `{` + entry(&loads, vxForceNames, id, k) + `}` }
	el := func(i, degree, name int, l float64, tag string) string {
		text, bc := vxLoadText(d, degree, name, l, tag)
		vfCheck("supported load is accepted by the element", els[i].AddLoad(bc))
		return text
	}
	d.neumann = []string{
		`"e1": [` + el(4, 1, 6, 0, "0") + `, ` + el(4, 2, 7, 0, "1") + `, ` + el(4, 1, 7, 0, "2") + `]`,
		`"n2": [` + f("n2", 1) + `, ` + f("n2", 5) + `]`,
		`"e10": [` + el(0, 0, 1, nodes[1].X, "3") + `, ` + el(0, 0, 3, nodes[1].X, "4") + `, ` + el(0, 2, 6, 0, "5") + `]`,
		`"2": [` + f("2", 0) + `, ` + f("2", 2) + `]`,
		`"n10n1": [` + el(2, 0, 0, -nodes[3].Z, "6") + `]`,
		`"2L": [` + el(3, 2, 6, 0, "7") + `]`,
		`"n10": [` + f("n10", 4) + `]`,
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameNodes(p.Nodes, want)
	vxSameElements(p.Elements, els[:])
	vxSameValues("supports", p.Dirichlet, bcs)
	vxSameValues("nodal loads", p.Neumann, loads)
	vfCheck("same number of links", len(p.EqTransforms) == 1)
	vfCover("many")
}

// VvhC12_LookAlikes: names that differ by case, blanks, leading zeros, order or length only.
func VvhC12_LookAlikes() {
	vfMapOrder("rotate", 1)
	set := vfInt("names", 0, 5)
	inferred := set == 0 || set == 5 // elements named by their nodes
	names := [][]string{{"a", "A", "b", "B"}, {"x", " x", "y", "y "}, {"1", "01", "2", "02"}, {"n1", "n10", "n2", "n20"}, {"ab", "ba", "a", "b"}, {"e", "é", "o", "ö"}}[set]
	d := &vxParts{}
	nodes := []*Node{{ID: names[0], X: vfPos("x0")}, {ID: names[1], X: -vfPos("x1")}, {ID: names[2], Z: vfPos("z2")}, {ID: names[3], Z: -vfPos("z3")}}
	var want []Node
	var m []*Material
	for i, n := range nodes {
		d.node(n.ID, n)
		want = append(want, *n)
		tag := vfIntStr(i)
		x := &Material{CrossSection: &vxCS{a: vfPos("A" + tag), iyy: vfPos("I" + tag)}, LinearElastic: LinearElastic{YoungsModulus: vfPos("E" + tag)}}
		d.material = append(d.material, `"`+n.ID+`": {"kind": "linelast", "parameter": {"E": `+d.num("E"+tag, x.YoungsModulus)+`, "nu": 0.3, "rho": 1}}`)
		d.cs = append(d.cs, `"`+n.ID+`": {"kind": "constants", "parameter": {"A": `+d.num("A"+tag, x.Area())+`, "Iyy": `+d.num("I"+tag, x.Iyy())+`, "Izz": 1}}`)
		m = append(m, x)
	}
	var els []Element
	var bcs, loads []NodalValue
	forces := vfInt("loads", 0, 1) == 1
	section := []int{2, 3, 1, 0}
	for i, e := range [][]int{{0, 2}, {2, 0}, {1, 3}, {1, 2}} {
		tag := vfIntStr(i)
		id := names[(i+1)%4]
		if inferred {
			id = names[e[0]] + names[e[1]]
		}
		hinge := e[i%2]
		mat := &Material{CrossSection: m[section[i]].CrossSection, LinearElastic: m[i].LinearElastic}
		el, err := NewFrame2d(id, nodes[e[0]], nodes[e[1]], mat, map[Index]struct{}{vxIdx(names[hinge], Phiy): {}})
		vfCheck("element is accepted", err == nil)
		text := `"` + id + `": {"kind": "frame2d", "material": "` + names[i] + `", "cs": "` + names[section[i]] + `", "hinges": {"` + names[hinge] + `": ["Phiy"]}`
		if !inferred {
			text += `, "nodes": ["` + names[e[0]] + `", "` + names[e[1]] + `"]`
		}
		d.elements = append(d.elements, text+`}`)
		if forces { // an element or a node of that name
			load, bc := vxLoadText(d, 1+i%2, 7, 0, tag)
			vfCheck("supported load is accepted by the element", el.AddLoad(bc))
			v := NodalValue{vxIdx(names[i], Uz), vfF("f" + tag)}
			loads = append(loads, v)
			nodal := `{"Fz": ` + d.num("f"+tag, v.Value) + `}`
			if inferred {
				d.neumann = append(d.neumann, `"`+id+`": [`+load+`]`, `"`+names[i]+`": [`+nodal+`]`)
			} else { // the node of the name of the element
				v.NodalID = id
				loads[i] = v
				d.neumann = append(d.neumann, `"`+id+`": [`+load+`, `+nodal+`]`)
			}
		}
		bc := NodalValue{vxIdx(names[i], Ux), vfF("u" + tag)}
		bcs = append(bcs, bc)
		d.dirichlet = append(d.dirichlet, `"`+names[i]+`": [{"Ux": `+d.num("u"+tag, bc.Value)+`}]`)
		els = append(els, el)
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameNodes(p.Nodes, want)
	vxSameElements(p.Elements, els)
	vxSameValues("supports", p.Dirichlet, bcs)
	vxSameValues("nodal loads", p.Neumann, loads)
	vfCover("look-alikes")
}

// VvhC12_Materials: the elements hold the described materials with all their numbers, those that do
// not influence the planar stiffness included.
func VvhC12_Materials() {
	d := &vxParts{dirichlet: []string{`"a": [{"Ux": 0}]`}}
	d.node("a", &Node{})
	d.node("b", &Node{X: 1})
	d.node("c", &Node{X: 1, Z: 1})
	type parameters struct{ e, nu, rho, a, iyy, izz, ixx, roll float64 }
	var want []parameters
	for i := range 2 {
		tag := vfIntStr(i)
		p := parameters{e: vfPos("E" + tag), nu: vfNN("nu" + tag), rho: vfPos("rho" + tag)}
		d.material = append(d.material, `"m`+tag+`": {"kind": "linelast", "parameter": {"E": `+d.num("E"+tag, p.e)+
			`, "nu": `+d.num("nu"+tag, p.nu)+`, "rho": `+d.num("rho"+tag, p.rho)+`}}`)
		optional := ""
		if vfInt("roll"+tag, 0, 1) == 1 {
			p.roll = vfNN("roll" + tag)
			optional += `, "roll": ` + d.num("roll"+tag, p.roll)
		}
		if vfInt("kind"+tag, 0, 1) == 0 {
			b, h := vfPos("b"+tag), vfPos("h"+tag)
			p.a, p.iyy, p.izz, p.ixx = b*h, b*h*h*h/12, h*b*b*b/12, -1
			d.cs = append(d.cs, `"s`+tag+`": {"kind": "rectangle", "parameter": {"b": `+d.num("b"+tag, b)+`, "h": `+d.num("h"+tag, h)+optional+`}}`)
		} else {
			p.a, p.iyy, p.izz = vfPos("A"+tag), vfPos("Iyy"+tag), vfPos("Izz"+tag)
			if vfInt("ixx"+tag, 0, 1) == 1 {
				p.ixx = vfNN("Ixx" + tag)
				optional += `, "Ixx": ` + d.num("Ixx"+tag, p.ixx)
			}
			d.cs = append(d.cs, `"s`+tag+`": {"kind": "constants", "parameter": {"A": `+d.num("A"+tag, p.a)+
				`, "Iyy": `+d.num("Iyy"+tag, p.iyy)+`, "Izz": `+d.num("Izz"+tag, p.izz)+optional+`}}`)
		}
		want = append(want, p)
	}
	kind := vfInt("element", 0, 2)
	cross := vfInt("cross", 0, 1) // the second element has the first material and the second section
	d.elements = []string{
		`"ab": {"kind": "` + vxKindName[kind] + `", "material": "m0", "cs": "s0"}`,
		`"bc": {"kind": "` + vxKindName[(kind+1)%3] + `", "material": "m` + vfIntStr(1-cross) + `", "cs": "s1"}`,
	}
	if cross == 1 {
		want[1].e, want[1].nu, want[1].rho = want[0].e, want[0].nu, want[0].rho
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	for i, id := range []string{"ab", "bc"} {
		w := want[i]
		at := slices.IndexFunc(p.Elements, func(e Element) bool { return e.ID() == id })
		vfCheck("described element exists", at >= 0)
		for _, v := range vfFind(p.Elements[max(at, 0)], Material{}) {
			m := v.(Material)
			vfEq("modulus of the element", m.YoungsModulus, w.e)
			vfEq("Poisson's ratio of the element", m.PoissonsRatio, w.nu)
			vfEq("density of the element", m.Density, w.rho)
			vfEq("area of the element", m.Area(), w.a)
			vfEq("second moment of area of the element about y", m.Iyy(), w.iyy)
			vfEq("second moment of area of the element about z", m.Izz(), w.izz)
			vfEq("roll angle of the element", m.RollAngle(), w.roll)
			if w.ixx >= 0 {
				vfEq("torsional constant of the element", m.Ixx(), w.ixx)
			}
			vfCover("material")
		}
	}
	vfCover("materials")
}

// VvhC12_Joined: pairs of names that are the same when they are put together, with or without a separator.
func VvhC12_Joined() {
	sep := []string{"", "/", ":", "-", " ", "|", ",", "_", ".", ";", "+", "#"}[vfInt("separator", 0, 11)]
	d := &vxParts{dirichlet: []string{`"a": [{"Ux": 0}]`}}
	nodes := []*Node{{ID: "a"}, {ID: "b", X: vfPos("x")}}
	for _, n := range nodes {
		d.node(n.ID, n)
	}
	mats := []string{"x" + sep, "x"}
	css := []string{"y", sep + "y"}
	if sep == "" {
		mats, css = []string{"xz", "x"}, []string{"y", "zy"}
	}
	var es, as [2]float64
	for i := range 2 {
		tag := vfIntStr(i)
		es[i], as[i] = vfPos("E"+tag), vfPos("A"+tag)
		d.material = append(d.material, `"`+mats[i]+`": {"kind": "linelast", "parameter": {"E": `+d.num("E"+tag, es[i])+`, "nu": 0.3, "rho": 1}}`)
		d.cs = append(d.cs, `"`+css[i]+`": {"kind": "constants", "parameter": {"A": `+d.num("A"+tag, as[i])+`, "Iyy": 1, "Izz": 1}}`)
	}
	var els []Element
	for i, id := range []string{"ab", "ba"} {
		m := &Material{CrossSection: &vxCS{a: as[i], iyy: 1, izz: 1}, LinearElastic: LinearElastic{YoungsModulus: es[i]}}
		e, err := NewTruss2d(id, nodes[i], nodes[1-i], m, nil)
		vfCheck("element is accepted", err == nil)
		els = append(els, e)
		d.elements = append(d.elements, `"`+id+`": {"kind": "truss2d", "material": "`+mats[i]+`", "cs": "`+css[i]+`"}`)
	}
	p, ok := vxRead(d)
	if !ok {
		return
	}
	vxSameElements(p.Elements, els)
	vfCover("joined")
}

// vxTwin is one of two descriptions that are alike except in one place.
type vxTwin struct {
	d     *vxParts
	place int
	tag   string
	nodes []Node
	els   []Element
	mats  []Material
	bcs   []NodalValue
	loads []NodalValue
	links []Transformer
	kinds [2]int
	other bool // in places without numbers: whether this is the differing one
}

// at is the number of a place: an arbitrary positive one if the descriptions differ there.
func (t *vxTwin) at(place int, otherwise float64, literal string) (float64, string) {
	if t.place != place {
		return otherwise, literal
	}
	v := vfPos("v" + t.tag)
	return v, t.d.num("v", v)
}

func (t *vxTwin) differs(place int) bool { return t.place == place && t.other }

func vxNewTwin(place int, other bool) *vxTwin {
	t := &vxTwin{d: &vxParts{}, place: place, other: other, tag: "0"}
	if other {
		t.tag = "1"
	}
	xb, xbText := t.at(0, 2, "2")
	zc, zcText := t.at(1, 3, "3")
	t.nodes = []Node{{ID: "a"}, {ID: "b", X: xb}, {ID: "c", Z: zc}}
	t.d.nodes = []string{`"a": [0, 0, 0]`, `"b": [` + xbText + `, 0, 0]`, `"c": [0, 0, ` + zcText + `]`}
	e, eText := t.at(2, 7, "7")
	nu, nuText := t.at(3, 0.25, "0.25")
	rho, rhoText := t.at(4, 5, "5")
	t.d.material = []string{
		`"m": {"kind": "linelast", "parameter": {"E": ` + eText + `, "nu": ` + nuText + `, "rho": ` + rhoText + `}}`,
		`"n": {"kind": "linelast", "parameter": {"E": 11, "nu": 0.5, "rho": 3}}`,
	}
	elastic := []LinearElastic{{YoungsModulus: e, PoissonsRatio: nu, Density: rho}, {YoungsModulus: 11, PoissonsRatio: 0.5, Density: 3}}
	a, aText := t.at(5, 2, "2")
	iyy, iyyText := t.at(6, 3, "3")
	izz, izzText := t.at(7, 5, "5")
	ixx, ixxText := t.at(8, 7, "7")
	roll, rollText := t.at(9, 0.25, "0.25")
	extra := ""
	if place == 8 || place == 9 || vfInt("optional", 0, 1) == 1 {
		extra = `, "Ixx": ` + ixxText + `, "roll": ` + rollText
	} else {
		ixx, roll = -1, 0
	}
	b, bText := t.at(10, 2, "2")
	h, hText := t.at(11, 4, "4")
	rectRoll, rectRollText := t.at(12, 0.5, "0.5")
	t.d.cs = []string{
		`"s": {"kind": "constants", "parameter": {"A": ` + aText + `, "Iyy": ` + iyyText + `, "Izz": ` + izzText + extra + `}}`,
		`"t": {"kind": "rectangle", "parameter": {"b": ` + bText + `, "h": ` + hText + `, "roll": ` + rectRollText + `}}`,
	}
	sections := []*vxSection{{a, iyy, izz, ixx, roll}, {b * h, b * h * h * h / 12, h * b * b * b / 12, -1, rectRoll}}
	mats, css := []int{0, 1}, []int{0, 1}
	if t.differs(20) {
		mats = []int{1, 0}
	}
	if t.differs(21) {
		css = []int{1, 0}
	}
	t.kinds = [2]int{vxFrame2d, vxTruss2d}
	if t.differs(22) {
		t.kinds[1] = vxFrame2d
	}
	ends := [2]int{0, 2}
	if t.differs(23) {
		ends = [2]int{1, 2}
	}
	if t.differs(24) {
		ends = [2]int{2, 0}
	}
	hinges, hingeText := map[Index]struct{}{}, ""
	if t.differs(25) {
		hinges[vxIdx("b", Phiy)], hingeText = struct{}{}, `, "hinges": {"b": ["Phiy"]}`
	} else if place == 25 && vfInt("hinge", 0, 1) == 1 {
		hinges[vxIdx("a", Phiy)], hingeText = struct{}{}, `, "hinges": {"a": ["Phiy"]}`
	}
	for i, id := range []string{"ab", "ac"} {
		n0, n1, hs, text := &t.nodes[0], &t.nodes[1], hinges, hingeText
		if i == 1 {
			n0, n1, hs, text = &t.nodes[ends[0]], &t.nodes[ends[1]], nil, ""
		}
		cs := sections[css[i]]
		m := Material{CrossSection: &vxCS{a: cs.a, iyy: cs.iyy, izz: cs.izz}, LinearElastic: elastic[mats[i]]}
		t.mats = append(t.mats, Material{CrossSection: cs, LinearElastic: elastic[mats[i]]})
		ref, err := vxNew(t.kinds[i], id, n0, n1, &m, hs)
		vfCheck("element is accepted", err == nil)
		t.els = append(t.els, ref)
		t.d.elements = append(t.d.elements, `"`+id+`": {"kind": "`+vxKindName[t.kinds[i]]+`", "nodes": ["`+n0.ID+`", "`+n1.ID+`"], "material": "`+
			[]string{"m", "n"}[mats[i]]+`", "cs": "`+[]string{"s", "t"}[css[i]]+`"`+text+`}`)
	}
	u, uText := t.at(13, 0.125, "0.125")
	t.bcs = []NodalValue{{vxIdx("a", Ux), 0}, {vxIdx("a", Uz), u}}
	dof := 2
	if t.differs(26) {
		dof = 3
	}
	t.bcs = append(t.bcs, NodalValue{vxIdx("a", vxDofOrder[dof]), 0})
	t.d.dirichlet = []string{`"a": [{"Ux": 0, "Uz": ` + uText + `, "` + vxDofNames[dof] + `": 0}]`}
	f, fText := t.at(14, 3, "3")
	force, node := 1, "b"
	if t.differs(27) {
		force = 0
	}
	if t.differs(28) {
		node = "c"
	}
	t.loads = []NodalValue{{vxIdx(node, vxDofOrder[force]), f}}
	q, qText := t.at(15, 2, "2")
	w, wText := t.at(16, 3, "3")
	pos, posText := t.at(17, 0.5, "0.5")
	if place == 17 {
		vfAssume(pos <= 2)
	}
	p, pText := t.at(18, 5, "5")
	if place == 0 {
		vfAssume(xb >= 1)
	}
	kind, name := Uz, "qz"
	if t.differs(29) {
		kind, name = Ux, "qx"
	}
	linear, degree, values := NewElementLinearLoad(kind, q, w), "linear", qText+", "+wText
	if t.differs(30) {
		linear, degree, values = NewElementConstantLoad(kind, q), "constant", qText
	}
	dirac, err := NewElementConcentratedLoad(Uz, pos, p)
	vfCheck("valid concentrated load is accepted", err == nil)
	vfCheck("loads are accepted", t.els[0].AddLoad(linear) && t.els[0].AddLoad(dirac))
	t.d.neumann = []string{`"` + node + `": [{"` + vxForceNames[force] + `": ` + fText + `}]`,
		`"ab": [{"kind": "` + name + `", "degree": "` + degree + `", "values": [` + values + `]}, {"kind": "Fz", "degree": "dirac", "values": [` +
			pText + `], "position": [` + posText + `]}]`}
	if place == 19 {
		_, _, angle := vxAngleOf(t.tag)
		tr, bc := NewInclinedSupport(vxIdx("c", Ux), vxIdx("c", Uz), angle)
		t.links, t.bcs = []Transformer{tr}, append(t.bcs, bc)
		t.d.links = []string{`"c": [{"from": "Ux", "to": "Uz", "angle": ` + t.d.num("angle", angle) + `}]`}
	}
	return t
}

type vxSection struct{ a, iyy, izz, ixx, roll float64 }

func (s *vxSection) Area() float64      { return s.a }
func (s *vxSection) Iyy() float64       { return s.iyy }
func (s *vxSection) Izz() float64       { return s.izz }
func (s *vxSection) Ixx() float64       { return s.ixx }
func (s *vxSection) RollAngle() float64 { return s.roll }

func (t *vxTwin) compare(p Problem) {
	vxSameNodes(p.Nodes, t.nodes)
	vxSameElements(p.Elements, t.els)
	vxSameValues("supports", p.Dirichlet, t.bcs)
	vxSameValues("nodal loads", p.Neumann, t.loads)
	for i, e := range t.els {
		at := slices.IndexFunc(p.Elements, func(g Element) bool { return g.ID() == e.ID() })
		if at < 0 {
			continue
		}
		w := t.mats[i]
		for _, v := range vfFind(p.Elements[at], Material{}) {
			m := v.(Material)
			vfEq("modulus of the element", m.YoungsModulus, w.YoungsModulus)
			vfEq("Poisson's ratio of the element", m.PoissonsRatio, w.PoissonsRatio)
			vfEq("density of the element", m.Density, w.Density)
			vfEq("area of the element", m.Area(), w.Area())
			vfEq("second moment of area of the element about y", m.Iyy(), w.Iyy())
			vfEq("second moment of area of the element about z", m.Izz(), w.Izz())
			vfEq("roll angle of the element", m.RollAngle(), w.RollAngle())
			if w.Ixx() >= 0 {
				vfEq("torsional constant of the element", m.Ixx(), w.Ixx())
			}
			vfCover("material")
		}
	}
	vfCheck("same number of links", len(p.EqTransforms) == len(t.links))
	if len(p.EqTransforms) != len(t.links) {
		return
	}
	lay := vxLayout(&vxBlob{id: "p", dofs: []Index{{"c", Ux}, {"c", Uz}}})
	for i := range t.links {
		var r [2]*mat.VecDense
		for j, tr := range []Transformer{t.links[i], p.EqTransforms[i]} {
			r[j] = mat.NewVecDense(2, []float64{3, 5})
			tr.Pre(lay, mat.NewSymDense(2, nil), r[j], mat.NewVecDense(2, nil))
		}
		vfEq("same rotation", r[1].AtVec(0), r[0].AtVec(0))
		vfEq("same rotation", r[1].AtVec(1), r[0].AtVec(1))
	}
}

// VvhC12_Twice: two descriptions, read one after the other, that are alike except in one place.
func VvhC12_Twice() {
	place := vfInt("place", 0, 30)
	first, second := vxNewTwin(place, false), vxNewTwin(place, true)
	p, ok := vxRead(first.d)
	q, okQ := vxRead(second.d)
	if !ok || !okQ {
		return
	}
	first.compare(p)
	second.compare(q)
	vfCover("twice")
}
