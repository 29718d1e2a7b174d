package deflect

import "gonum.org/v1/gonum/mat"

// JSON descriptions in parts, each entry on its own so that a defect can be put anywhere.

type vxParts struct {
	nodes, material, cs, elements, dirichlet, links, neumann []string
	skip                                                     string // name of a part to leave out
	nums                                                     map[string]float64
}

func vxJoin(parts []string) string {
	out := ""
	for i, p := range parts {
		if i > 0 {
			out += ", "
		}
		out += p
	}
	return out
}

func (d *vxParts) text() string {
	out := "{"
	add := func(name string, parts []string) {
		if d.skip == name || parts == nil {
			return
		}
		if len(out) > 1 {
			out += ",\n"
		}
		out += `"` + name + `": {` + vxJoin(parts) + "}"
	}
	add("nodes", d.nodes)
	add("material", d.material)
	add("crosssection", d.cs)
	add("elements", d.elements)
	add("dirichlet", d.dirichlet)
	add("links", d.links)
	add("neumann", d.neumann)
	return out + "}"
}

func (d *vxParts) read() (Problem, error) { return ProblemFromJSON(vfDoc(d.text(), d.nums)) }

// num names a symbolic number and gives its placeholder.
func (d *vxParts) num(name string, v float64) string {
	if d.nums == nil {
		d.nums = map[string]float64{}
	}
	d.nums[name] = v
	return "{{" + name + "}}"
}

// node adds a node with arbitrary coordinates.
func (d *vxParts) node(id string, n *Node) {
	d.nodes = append(d.nodes, `"`+id+`": [`+d.num("x"+id, n.X)+", "+d.num("y"+id, n.Y)+", "+d.num("z"+id, n.Z)+"]")
}

// vxSameElement asserts that two elements relate to the same degrees of freedom and assemble the same.
func vxSameElement(got, want Element) {
	vfCheck("same name", got.ID() == want.ID())
	g, w := map[Index]struct{}{}, map[Index]struct{}{}
	got.Indices(g)
	want.Indices(w)
	vfCheck("same number of degrees of freedom", len(g) == len(w))
	for idx := range w {
		_, ok := g[idx]
		vfCheck("same degrees of freedom", ok)
	}
	if len(g) != len(w) {
		return
	}
	lay := vxLayout(want)
	n := len(w)
	a := &vxAssembled{lay: lay, dim: n, k: mat.NewSymDense(n, nil), r: mat.NewVecDense(n, nil), d: mat.NewVecDense(n, nil)}
	b := &vxAssembled{lay: lay, dim: n, k: mat.NewSymDense(n, nil), r: mat.NewVecDense(n, nil), d: mat.NewVecDense(n, nil)}
	got.Assemble(lay, a.k, a.r, a.d)
	want.Assemble(lay, b.k, b.r, b.d)
	for i := 0; i < n; i++ {
		vfEq("same element load", a.r.AtVec(i), b.r.AtVec(i))
		for j := 0; j <= i; j++ {
			vfEq("same element stiffness", a.k.At(i, j), b.k.At(i, j))
		}
	}
}

// vxSameValues asserts that two lists hold the same values at the same degrees of freedom.
func vxSameValues(label string, got, want []NodalValue) {
	vfCheck(label+": same number", len(got) == len(want))
	seen := map[Index]bool{}
	for _, v := range want {
		if seen[v.Index] {
			continue
		}
		seen[v.Index] = true
		n, m, sum := 0, 0, 0.0
		for _, o := range want {
			if o.Index == v.Index {
				n++
				sum += o.Value
			}
		}
		for _, o := range got {
			if o.Index == v.Index {
				m++
				sum -= o.Value
			}
		}
		vfCheck(label+": same degrees of freedom", n == m)
		vfEq(label+": same values", sum, 0)
	}
}

// vxSameNodes asserts that two lists hold the same nodes.
func vxSameNodes(got, want []Node) {
	vfCheck("same number of nodes", len(got) == len(want))
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.ID == w.ID {
				n++
				vfEq("same x", g.X, w.X)
				vfEq("same y", g.Y, w.Y)
				vfEq("same z", g.Z, w.Z)
			}
		}
		vfCheck("every node once", n == 1)
	}
}

// vxSameElements compares lists of elements by name.
func vxSameElements(got, want []Element) {
	vfCheck("same number of elements", len(got) == len(want))
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.ID() == w.ID() {
				n++
				vxSameElement(g, w)
			}
		}
		vfCheck("every element once", n == 1)
	}
}

// the three kinds of element a description may name, in the order the
// harnesses number them
var vxKindName = []string{"truss2d", "truss3d", "frame2d"}
