package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: a description with three nodes, three elements (two frame2d, truss2d), two materials, two
// cross sections, supports, an inclined support, nodal and element loads; about 90 kinds of defects, each
// applied to every entry of its part, and about 220 pairs of defects of one part; about 100 names that are almost the one of something; all numbers; every permutation of one iterated map at a time
// (rotations beyond four entries; thorough: two maps). Refusal means an error from reading, numbering
// or solving; every description is read twice in the same process. Decoding itself (encoding/json) is modelled.

func vxBase() *vxParts {
	d := &vxParts{}
	x, z := vfPos("x"), vfPos("z")
	d.node("a", &Node{})
	d.node("b", &Node{X: x})
	d.node("c", &Node{Z: z})
	d.material = []string{vxMat("m", "linelast", "E", "nu", "rho"), vxMat("n", "linelast", "E", "nu", "rho")}
	d.cs = []string{`"s": {"kind": "constants", "parameter": {"A": 2, "Iyy": 3, "Izz": 5}}`, `"t": {"kind": "rectangle", "parameter": {"b": 1, "h": 2}}`}
	for i := range vxEdges {
		d.elements = append(d.elements, vxEl(i, vxEdges[i].kind, "", "m", "s", ""))
	}
	d.dirichlet = []string{`"a": [{"Ux": 0, "Uz": ` + d.num("u", vfF("u")) + `}, {"Phiy": 0}]`, `"c": [{"Ux": 0, "Uz": 0}]`}
	d.links = []string{`"b": [{"from": "Ux", "to": "Uz", "angle": 0}]`}
	d.neumann = []string{`"b": [{"Fx": ` + d.num("f", vfF("f")) + `}]`, `"ab": [` + vxLd("qz", "constant", "1", "") + `]`,
		`"bc": [` + vxLd("qx", "linear", "1, 2", "") + `, ` + vxLd("Fx", "dirac", "1", "0.5") + `]`}
	return d
}

var vxEdges = []struct{ id, kind string }{{"ab", "frame2d"}, {"bc", "frame2d"}, {"ac", "truss2d"}}

func vxMat(id, kind string, params ...string) string {
	out := `"` + id + `": {"kind": "` + kind + `", "parameter": {`
	for i, p := range params {
		if i > 0 {
			out += ", "
		}
		out += `"` + p + `": 1`
	}
	return out + "}}"
}

// vxEl writes the i-th element.
func vxEl(i int, kind, nodes, m, s, hinges string) string {
	return `"` + vxEdges[i].id + `": ` + vxElBody(kind, nodes, m, s, hinges)
}

func vxElBody(kind, nodes, m, s, hinges string) string {
	out := `{"kind": "` + kind + `"`
	if nodes != "" {
		out += `, "nodes": [` + nodes + `]`
	}
	if m != "" {
		out += `, "material": "` + m + `"`
	}
	if s != "" {
		out += `, "cs": "` + s + `"`
	}
	if hinges != "" {
		out += `, "hinges": {` + hinges + `}`
	}
	return out + "}"
}

func vxLd(kind, degree, values, position string) string {
	out := `{"kind": "` + kind + `", "degree": "` + degree + `", "values": [` + values + `]`
	if position != "" {
		out += `, "position": [` + position + `]`
	}
	return out + "}"
}

// vxRefused asserts that a description is refused.
func vxRefused(d *vxParts) {
	for i := range 2 { // also when it has been refused before
		if i == 1 {
			vfMapOrder("full", 0)
		}
		p, err := d.read()
		if err == nil {
			err = vxUse(&p)
		}
		vfCheck("defective description is refused", err != nil)
	}
	vfCover("refused")
}

// vxUse numbers and solves a problem.
func vxUse(p *Problem) error {
	lay, err := NewEqLayout(p)
	if err != nil {
		return err
	}
	_, err = NewLinearProblemSolver().Solve(p, lay, &vxNull{})
	return err
}

type vxNull struct{}

func (*vxNull) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error { return nil }

// VvhC13_Sound: the description without defect is accepted.
func VvhC13_Sound() {
	vfMapOrder("full", 1)
	d := vxBase()
	p, err := d.read()
	vfCheck("well-formed description is accepted", err == nil)
	if err == nil {
		vfCheck("well-formed problem can be solved", vxUse(&p) == nil)
	}
	vfCover("sound")
}

// VvhC13_Missing: a part is absent, empty or null.
func VvhC13_Missing() {
	d := vxBase()
	how := vfInt("how", 0, 1)
	cut := func(name string, part *[]string) {
		if how == 0 {
			*part = nil
		} else {
			*part = []string{}
		}
	}
	switch vfInt("part", 0, 4) {
	case 0:
		cut("nodes", &d.nodes)
	case 1:
		cut("material", &d.material)
	case 2:
		cut("crosssection", &d.cs)
	case 3:
		cut("elements", &d.elements)
	case 4:
		cut("dirichlet", &d.dirichlet)
		cut("links", &d.links)
	}
	vxRefused(d)
}

func vxDefectOrder() {
	vfMapOrder("full", 1)
}

// VvhC13_Materials: incomplete or unknown materials and cross sections, used or not.
func VvhC13_Materials() {
	vxDefectOrder()
	d := vxBase()
	at := vfInt("at", 0, 1)
	v := vfF("v")
	vfAssume(v <= 0)
	bad := d.num("v", v)
	less := vfF("less")
	vfAssume(less < 0)
	neg := d.num("less", less)
	params := func(params ...string) { d.material[at] = vxMat([]string{"m", "n"}[at], "linelast", params...) }
	cs := func(text string) { d.cs[at] = `"` + []string{"s", "t"}[at] + `": ` + text }
	switch vfInt("defect", 0, 20) {
	case 0:
		params("nu", "rho")
	case 1:
		params("E", "rho")
	case 2:
		params("E", "nu")
	case 3:
		params()
	case 4:
		d.material[at] = vxMat([]string{"m", "n"}[at], "plastic", "E", "nu", "rho")
	case 5:
		cs(`{"kind": "circle", "parameter": {"A": 2, "Iyy": 3, "Izz": 5, "b": 1, "h": 1}}`)
	case 6:
		cs(`{"parameter": {"A": 2, "Iyy": 3, "Izz": 5, "b": 1, "h": 1}}`)
	case 7:
		cs(`{"kind": "constants", "parameter": {"Iyy": 3, "Izz": 5}}`)
	case 8:
		cs(`{"kind": "constants", "parameter": {"A": 3, "Izz": 5}}`)
	case 9:
		cs(`{"kind": "constants", "parameter": {"A": 3, "Iyy": 5}}`)
	case 10:
		cs(`{"kind": "constants", "parameter": {"A": ` + bad + `, "Iyy": 3, "Izz": 5}}`)
	case 11:
		cs(`{"kind": "constants", "parameter": {"A": 1, "Iyy": ` + bad + `, "Izz": 5}}`)
	case 12:
		cs(`{"kind": "constants", "parameter": {"A": 1, "Iyy": 2, "Izz": ` + bad + `}}`)
	case 13:
		cs(`{"kind": "constants", "parameter": {"A": 1, "Iyy": 2, "Izz": 3, "Ixx": ` + neg + `}}`)
	case 14:
		cs(`{"kind": "rectangle", "parameter": {"b": 1}}`)
	case 15:
		cs(`{"kind": "rectangle", "parameter": {"h": 1}}`)
	case 16:
		cs(`{"kind": "rectangle", "parameter": {"b": ` + bad + `, "h": 1}}`)
	case 17:
		cs(`{"kind": "rectangle", "parameter": {"b": 1, "h": ` + bad + `}}`)
	case 18:
		cs(`{"kind": "rectangle", "parameter": {"b": 1, "h": 1, "roll": ` + neg + `}}`)
	case 19:
		cs(`{"kind": "constants", "parameter": {"A": 1, "Iyy": 2, "Izz": 3, "roll": ` + neg + `}}`)
	case 20:
		cs(`{"kind": "constants"}`)
	}
	vxRefused(d)
}

// VvhC13_Elements: defective elements.
func VvhC13_Elements() {
	vxDefectOrder()
	d := vxBase()
	at := vfInt("at", 0, 2)
	kind, id := vxEdges[at].kind, vxEdges[at].id
	set := func(kind, nodes, m, s, hinges string) { d.elements[at] = vxEl(at, kind, nodes, m, s, hinges) }
	rename := func(id, nodes string) { d.elements[at] = `"` + id + `": ` + vxElBody(kind, nodes, "m", "s", "") }
	switch vfInt("defect", 0, 22) {
	case 0:
		set("beam", "", "m", "s", "")
	case 1:
		set("", "", "m", "s", "")
	case 2:
		set(kind, "", "x", "s", "")
	case 3:
		set(kind, "", "m", "x", "")
	case 4:
		set(kind, "", "", "s", "")
	case 5:
		set(kind, "", "m", "", "")
	case 6:
		set(kind, `"a"`, "m", "s", "")
	case 7:
		set(kind, `"a", "b", "c"`, "m", "s", "")
	case 8:
		set(kind, `"a", "x"`, "m", "s", "")
	case 9:
		set(kind, `"x", "a"`, "m", "s", "")
	case 10:
		set(kind, `"a", "a"`, "m", "s", "")
	case 11:
		rename("ax", "")
		d.neumann = d.neumann[:1]
	case 12:
		rename("xa", "")
		d.neumann = d.neumann[:1]
	case 13:
		rename("abc", "")
		d.neumann = d.neumann[:1]
	case 14:
		rename("a", "")
		d.neumann = d.neumann[:1]
	case 15:
		rename("", `"a", "b"`)
		d.neumann = d.neumann[:1]
	case 16: // a hinge at a node of another element
		other := "c"
		if id[0] == 'c' || id[1] == 'c' {
			other = "b"
		}
		if id == "bc" {
			other = "a"
		}
		set(kind, "", "m", "s", `"`+other+`": ["Ux"]`)
	case 17:
		set(kind, "", "m", "s", `"`+id[vfInt("end", 0, 1):][:1]+`": ["Ux", "Px"]`)
	case 18: // released at both ends
		set(kind, "", "m", "s", `"`+id[:1]+`": ["Ux"], "`+id[1:]+`": ["Ux"]`)
	case 19:
		set("frame2d", "", "m", "s", `"`+id[:1]+`": ["Uz"], "`+id[1:]+`": ["Uz"]`)
	case 20:
		set("frame2d", "", "m", "s", `"`+id[:1]+`": ["Uz", "Phiy"]`)
	case 21: // nothing released at a node which does not exist
		set(kind, "", "m", "s", `"x": []`)
	case 22:
		set(kind, "", "m", "s", `"x": [], "`+id[1:]+`": ["Ux"]`)
	}
	vxRefused(d)
}

// VvhC13_SamePlace: two nodes of an element at the same place.
func VvhC13_SamePlace() {
	d := vxBase()
	n := &Node{X: vfF("px"), Y: vfF("py"), Z: vfF("pz")}
	d.nodes = nil
	d.node("a", n)
	d.node("b", n)
	d.node("c", &Node{X: n.X + 1, Y: n.Y})
	kind := vfInt("kind", 0, 2)
	d.elements[0] = vxEl(0, vxKindName[kind], "", "m", "s", "")
	d.neumann, d.links = nil, nil
	_, err := d.read()
	vfCheck("defective description is refused", err != nil)
	vfCover("refused")
}

// VvhC13_Supports: defective supports.
func VvhC13_Supports() {
	vxDefectOrder()
	d := vxBase()
	where := vfInt("where", 0, 2)
	put := func(text string) {
		if where == 0 {
			d.dirichlet = append([]string{text}, d.dirichlet...)
		} else {
			d.dirichlet = append(d.dirichlet, text)
		}
	}
	link := func(text string) {
		good := `{"from": "Ux", "to": "Uz", "angle": 0}`
		switch where {
		case 0:
			d.links = []string{`"b": [` + text + `, ` + good + `]`}
		case 1:
			d.links = []string{`"b": [` + text + `]`}
		case 2:
			d.links = []string{`"b": [` + good + `, ` + text + `]`}
		}
	}
	bad := d.num("bad", vfF("bad"))
	switch vfInt("defect", 0, 15) {
	case 0:
		put(`"b": [{"Px": ` + bad + `}]`)
	case 1:
		put(`"b": [{"Phiy": 0, "Fx": ` + bad + `}]`)
	case 2:
		put(`"b": [{"Phiy": 0}, {"": ` + bad + `}]`)
	case 3:
		put(`"x": [{"Ux": ` + bad + `}]`)
	case 4:
		put(`"b": [{"Uy": ` + bad + `}]`)
	case 5:
		put(`"b": [{"Phiz": ` + bad + `}]`)
	case 6: // twice
		d.dirichlet[0] = `"a": [{"Ux": 0, "Uz": 0}, {"Ux": ` + bad + `}]`
	case 7: // also an inclined support
		put(`"b": [{"Uz": ` + bad + `}]`)
	case 8:
		link(`{"from": "Ux", "to": "Px", "angle": ` + bad + `}`)
	case 9:
		link(`{"from": "Fx", "to": "Uz", "angle": ` + bad + `}`)
	case 10:
		link(`{"to": "Ux", "angle": ` + bad + `}`)
	case 11:
		link(`{"from": "Ux", "angle": ` + bad + `}`)
	case 12:
		d.links = []string{`"b": [{"from": "Ux", "to": "Phiy", "angle": ` + bad + `}]`}
	case 13:
		d.links = append(d.links, `"x": [{"from": "Ux", "to": "Uz", "angle": 0}]`)
	case 14:
		d.links = []string{`"b": [{"from": "Ux", "to": "Uy", "angle": 0}]`}
	case 15: // nothing to rotate
		d.links = []string{`"b": [{"from": "Uz", "to": "Uz", "angle": 0.3}]`}
	}
	vxRefused(d)
}

// VvhC13_NodalLoads: defective nodal loads.
func VvhC13_NodalLoads() {
	vxDefectOrder()
	d := vxBase()
	bad := d.num("bad", vfF("bad"))
	text := ""
	switch vfInt("defect", 0, 12) {
	case 9:
		text = `"c": [{"kind": ` + bad + `, "degree": ` + bad + `}]`
	case 10:
		text = `"c": [{"` + []string{"kind", "degree", "values", "position"}[vfInt("key", 0, 3)] + `": ` + bad + `}]`
	case 11:
		text = `"c": [{"Fx": 1, "kind": ` + bad + `}]`
	case 12:
		text = `"c": [{"kind": "Fx", "Fx": ` + bad + `}]`
	case 0:
		text = `"c": [{"Px": ` + bad + `}]`
	case 1:
		text = `"c": [{"Fx": 1, "Ux": ` + bad + `}]`
	case 2:
		text = `"c": [{"Fx": 1}, {"qz": ` + bad + `}]`
	case 3:
		text = `"x": [{"Fx": ` + bad + `}]`
	case 4:
		text = `"c": [{"Fy": ` + bad + `}]`
	case 5:
		text = `"c": [{"Mz": ` + bad + `}]`
	case 6:
		text = `"c": [{"Mx": ` + bad + `}]`
	case 7:
		text = `"c": [{"Fx": "1"}]`
	case 8:
		text = `"c": [{}]`
	}
	if vfInt("front", 0, 1) == 1 {
		d.neumann = append([]string{text}, d.neumann...)
	} else {
		d.neumann = append(d.neumann, text)
	}
	vxRefused(d)
}

// VvhC13_ElementLoads: defective element loads on any element, alone or among others.
func VvhC13_ElementLoads() {
	vxDefectOrder()
	d := vxBase()
	at := vfInt("at", 0, 2)
	id := vxEdges[at].id
	v := vfF("v")
	q := d.num("v", v)
	less := vfF("less")
	vfAssume(less < 0)
	neg := d.num("less", less)
	text := ""
	switch vfInt("defect", 0, 29) {
	case 26: // loads whose fields are numbers
		text = `{"kind": ` + q + `, "degree": ` + q + `}`
	case 27:
		text = `{"` + []string{"kind", "degree", "values", "position"}[vfInt("key", 0, 3)] + `": ` + q + `}`
	case 28:
		text = `{"kind": "qx", "degree": ` + q + `, "values": [1]}`
	case 29:
		text = `{"kind": ` + q + `, "degree": "constant", "values": [1]}`
	case 0:
		text = vxLd("px", "constant", q, "")
	case 1:
		text = vxLd("Ux", "constant", q, "")
	case 2:
		text = vxLd("qx", "cubic", q, "")
	case 3:
		text = vxLd("qx", "", q, "")
	case 4:
		text = vxLd("qx", "constant", "", "")
	case 5:
		text = vxLd("qx", "constant", q+", "+q, "")
	case 6:
		text = vxLd("qx", "linear", q, "")
	case 7:
		text = vxLd("qx", "linear", q+", "+q+", 1", "")
	case 8:
		text = vxLd("qx", "linear", "", "")
	case 9:
		text = vxLd("Fx", "dirac", "", "0.1")
	case 10:
		text = vxLd("Fx", "dirac", q+", 1", "0.1")
	case 11:
		text = vxLd("Fx", "dirac", q, "")
	case 12:
		text = vxLd("Fx", "dirac", q, "0.1, 0.2")
	case 13:
		text = vxLd("Fx", "dirac", q, neg)
	case 14:
		text = vxLd("qy", "constant", q, "")
	case 15:
		text = vxLd("mz", "linear", q+", 1", "")
	case 16:
		text = vxLd("Fy", "dirac", q, "0.1")
	case 17:
		text = vxLd("my", "constant", q, "")
	case 18:
		text = vxLd("my", "linear", q+", 2", "")
	case 19:
		text = vxLd("mx", "constant", q, "")
	case 20:
		text = vxLd("Mz", "dirac", q, "0")
	case 21: // loads a truss cannot carry
		at, id = 2, vxEdges[2].id
		text = vxLd("qz", "constant", q, "")
	case 22:
		at, id = 2, vxEdges[2].id
		text = vxLd("My", "dirac", q, "0.1")
	case 23:
		at, id = 2, vxEdges[2].id
		text = vxLd("Fz", "dirac", q, "0.1")
	case 24:
		id = "xy"
		text = vxLd("qx", "constant", q, "")
	case 25:
		text = `{"kind": "qx", "values": [` + q + `]}`
	}
	good := vxLd("qx", "constant", "1", "")
	switch vfInt("where", 0, 2) {
	case 1:
		text = good + ", " + text
	case 2:
		text += ", " + good
	}
	entry := `"` + id + `": [` + text + `]`
	switch id {
	case "ab":
		d.neumann[1] = entry
	case "bc":
		d.neumann[2] = entry
	default:
		d.neumann = append(d.neumann, entry)
	}
	vxRefused(d)
}

// VvhC13_Decoding: what does not decode is refused.
func VvhC13_Decoding() {
	d := vxBase()
	at := vfInt("at", 0, 9)
	switch at {
	case 0:
		d.nodes[0] = `"a": "origin"`
	case 1:
		d.nodes[1] = `"b": [0, "1", 0]`
	case 2:
		d.material[0] = `"m": []`
	case 3:
		d.elements[1] = `"bc": 3`
	case 4:
		d.elements[0] = `"ab": {"kind": "frame2d", "nodes": "ab", "material": "m", "cs": "s"}`
	case 5:
		d.dirichlet[0] = `"a": {"Ux": 0}`
	case 6:
		d.neumann[0] = `"b": {"Fx": 1}`
	case 7:
		d.neumann[1] = `"ab": [{"kind": "qz", "degree": "constant", "values": 1}]`
	case 8:
		d.links[0] = `"b": [{"from": "Ux", "to": "Uz", "angle": "0"}]`
	case 9:
		d.dirichlet[1] = `"c": [{"Ux": true}]`
	}
	vxRefused(d)
}

// VvhC13_Truncated: an incomplete document.
func VvhC13_Truncated() {
	d := vxBase()
	t := d.text()
	cuts := []int{0, 1, len(t) / 3, len(t) - 1}
	_, err := ProblemFromJSON(vfDoc(t[:cuts[vfInt("cut", 0, 3)]], d.nums))
	vfCheck("defective description is refused", err != nil)
	vfCover("refused")
}

// VvhC13_Pairs: two defective entries of the same part, one after the other or in different entries.
func VvhC13_Pairs() {
	vxDefectOrder()
	d := vxBase()
	group := vfInt("group", 0, 6)
	lists := [][]string{
		{`{"from": "Px", "to": "Uz"}`, `{"from": "Ux"}`, `{"to": "Uz"}`, `{}`, `{"from": "Ux", "to": "Ux", "angle": 1}`, `{"from": "Phiy", "to": "Ux"}`},
		{`{"Px": 0}`, `{"": 1}`, `{"Phiy": 0, "Fx": 1}`, `{"Uy": 0}`, `{"Ux": 0}`, `{}`},
		{`{"Px": 1}`, `{"Fx": 1, "Ux": 1}`, `{"qz": 1}`, `{"Fy": 0}`, `{}`},
		{vxLd("qx", "cubic", "1", ""), vxLd("px", "constant", "1", ""), vxLd("qx", "linear", "1", ""), vxLd("Fx", "dirac", "1", "-1"),
			vxLd("qy", "constant", "1", ""), vxLd("Fx", "dirac", "1, 1", "1"), vxLd("qx", "constant", "", "")},
		{vxElBody("beam", "", "m", "s", ""), vxElBody("truss2d", `"a", "x"`, "m", "s", ""), vxElBody("truss2d", "", "x", "s", ""),
			vxElBody("truss2d", "", "m", "", ""), vxElBody("truss2d", `"a"`, "m", "s", ""), vxElBody("frame2d", "", "m", "s", `"x": ["Ux"]`),
			vxElBody("truss2d", `"b", "b"`, "m", "s", ""), vxElBody("frame2d", "", "m", "s", `"b": ["Px"]`)},
		{`{"kind": "plastic", "parameter": {"E": 1, "nu": 0, "rho": 1}}`, `{"parameter": {"nu": 0, "rho": 1}}`, `{"parameter": {"E": 1, "rho": 1}}`, `{}`},
		{`{"kind": "circle"}`, `{}`, `{"kind": "rectangle", "parameter": {"h": 1}}`, `{"kind": "rectangle", "parameter": {"b": -1, "h": 1}}`,
			`{"kind": "constants", "parameter": {"A": 1, "Iyy": 1}}`, `{"kind": "constants", "parameter": {"A": 1, "Iyy": 0, "Izz": 1}}`},
	}
	defects := lists[group]
	// the first one is a defect, the second one a defect, too, or it is repeated
	one, two := defects[vfInt("one", 0, len(defects)-1)], defects[vfInt("two", 0, len(defects)-1)]
	if group == 1 && one == "{}" && two == "{}" {
		return // nothing prescribed is no defect
	}
	apart := vfInt("apart", 0, 1) == 1
	put := func(list []string, first, second string) []string {
		if apart {
			return append(list, `"`+first+`": [`+one+`]`, `"`+second+`": [`+two+`]`)
		}
		return append(list, `"`+second+`": [`+one+`, `+two+`]`)
	}
	switch group {
	case 0:
		d.links = put(nil, "b", "c")
		d.dirichlet = d.dirichlet[:1]
	case 1:
		d.links, d.dirichlet = nil, put(nil, "a", "b")
		if one == two || one == "{}" || two == "{}" || one == `{"Ux": 0}` || two == `{"Ux": 0}` {
			d.dirichlet = put([]string{`"c": [{"Qx": 0}]`}, "a", "b")
		}
	case 2:
		d.neumann = put(nil, "b", "c")
	case 3:
		d.neumann = put(nil, "ab", "bc")
	case 4:
		d.links, d.neumann = nil, nil
		d.elements[1+vfInt("at", 0, 1)] = `"bc": ` + two
		d.elements[0] = `"ab": ` + one
	case 5:
		d.material = []string{`"m": ` + one, `"n": ` + two}
	case 6:
		d.cs = []string{`"s": ` + one, `"t": ` + two}
	}
	vxRefused(d)
}

// VvhC13_LookAlikes: a name that is almost the one of something, everywhere where names are used.
func VvhC13_LookAlikes() {
	vxDefectOrder()
	d := vxBase()
	like := func(name string) string {
		upper := map[string]string{"m": "M", "s": "S", "a": "A", "b": "B", "c": "C", "ab": "aB", "Ux": "ux", "Fx": "fx", "qz": "Qz",
			"frame2d": "Frame2d", "linelast": "LinElast", "constants": "Constants", "constant": "Constant"}[name]
		switch vfInt("like", 0, 5) {
		case 0:
			return upper
		case 1:
			return " " + name
		case 2:
			return name + " "
		case 3:
			return name + "0"
		case 4: // its beginning, or twice
			if len(name) > 1 {
				return name[:len(name)-1]
			}
			return name + name
		}
		out := "" // backwards
		for i := range len(name) {
			out = name[i:i+1] + out
		}
		if out == name {
			out += out
		}
		return out
	}
	d.elements = d.elements[:1]
	d.neumann = d.neumann[:2]
	d.dirichlet, d.links = d.dirichlet[:1], nil
	d.nodes = d.nodes[:2]
	single := vfInt("single", 0, 1) == 1 // nothing to choose from
	if single {
		d.material, d.cs = d.material[:1], d.cs[:1]
	}
	explicit := `"a", "b"`
	switch vfInt("where", 0, 17) {
	case 0:
		d.elements[0] = vxEl(0, "frame2d", "", like("m"), "s", "")
	case 1:
		d.elements[0] = vxEl(0, "frame2d", "", "m", like("s"), "")
	case 2:
		d.elements[0] = vxEl(0, like("frame2d"), "", "m", "s", "")
	case 3:
		d.elements[0] = vxEl(0, "frame2d", `"`+like("a")+`", "b"`, "m", "s", "")
	case 4:
		d.elements[0] = vxEl(0, "frame2d", `"a", "`+like("b")+`"`, "m", "s", "")
	case 5:
		d.elements[0] = vxEl(0, "frame2d", explicit, "m", "s", `"`+like("b")+`": ["Ux"]`)
	case 6:
		d.elements[0] = vxEl(0, "frame2d", explicit, "m", "s", `"b": ["`+like("Ux")+`"]`)
	case 7:
		d.dirichlet = append(d.dirichlet, `"`+like("b")+`": [{"Uz": 0}]`)
	case 8:
		d.dirichlet = append(d.dirichlet, `"b": [{"`+like("Ux")+`": 0}]`)
	case 9:
		d.neumann[0] = `"` + like("b") + `": [{"Fx": 1}]`
	case 10:
		d.neumann[0] = `"b": [{"` + like("Fx") + `": 1}]`
	case 11:
		name := like("ab")
		vfAssume(name != "a")
		d.neumann[1] = `"` + name + `": [` + vxLd("qz", "constant", "1", "") + `]`
	case 12:
		d.neumann[1] = `"ab": [` + vxLd(like("qz"), "constant", "1", "") + `]`
	case 13:
		d.neumann[1] = `"ab": [` + vxLd("qz", like("constant"), "1", "") + `]`
	case 14:
		d.links = []string{`"` + like("b") + `": [{"from": "Ux", "to": "Uz", "angle": 0}]`}
	case 15:
		d.links = []string{`"b": [{"from": "` + like("Ux") + `", "to": "Uz", "angle": 0}]`}
	case 16:
		d.material[0] = vxMat("m", like("linelast"), "E", "nu", "rho")
	case 17:
		d.cs[0] = `"s": {"kind": "` + like("constants") + `", "parameter": {"A": 2, "Iyy": 3, "Izz": 5}}`
	}
	vxRefused(d)
}
