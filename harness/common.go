package deflect

// Shared model code of the harnesses: element construction from symbolic parameters, reference
// formulas that are written independently of the implementation, and small matrix helpers.

import (
	"gonum.org/v1/gonum/mat"
)

// vxCS is a cross section with arbitrary values.
type vxCS struct{ a, iyy, izz, ixx, roll float64 }

func (c *vxCS) Area() float64      { return c.a }
func (c *vxCS) Iyy() float64       { return c.iyy }
func (c *vxCS) Izz() float64       { return c.izz }
func (c *vxCS) Ixx() float64       { return c.ixx }
func (c *vxCS) RollAngle() float64 { return c.roll }

func vxMaterial(tag string) *Material {
	cs := &vxCS{a: vfPos("A" + tag), iyy: vfPos("Iyy" + tag), izz: vfPos("Izz" + tag), ixx: vfPos("Ixx" + tag), roll: vfNN("roll" + tag)}
	return &Material{CrossSection: cs, LinearElastic: LinearElastic{YoungsModulus: vfPos("E" + tag), PoissonsRatio: vfNN("nu" + tag), Density: vfNN("rho" + tag)}}
}

const (
	vxTruss2d = iota
	vxTruss3d
	vxFrame2d
)

// vxBar is an element together with the parameters it was built from.
type vxBar struct {
	kind       int
	n0, n1     *Node
	l          float64
	ux, uy, uz float64 // direction cosines of the axis
	mat        *Material
	el         Element
	err        error
}

func vxNodes(kind int, tag string) *vxBar {
	b := &vxBar{kind: kind}
	b.l = vfPos("l" + tag)
	if kind == vxTruss3d {
		b.ux, b.uy, b.uz = vfDir3("dir" + tag)
	} else {
		b.ux, b.uz = vfDir2("dir" + tag)
	}
	x, y, z := vfF("x"+tag), vfF("y"+tag), vfF("z"+tag)
	b.n0 = &Node{ID: "a", X: x, Y: y, Z: z}
	b.n1 = &Node{ID: "b", X: x + b.l*b.ux, Y: y + b.l*b.uy, Z: z + b.l*b.uz}
	return b
}

func vxNew(kind int, id string, n0, n1 *Node, m *Material, hinges map[Index]struct{}) (Element, error) {
	switch kind {
	case vxTruss2d:
		return NewTruss2d(id, n0, n1, m, hinges)
	case vxTruss3d:
		return NewTruss3d(id, n0, n1, m, hinges)
	}
	return NewFrame2d(id, n0, n1, m, hinges)
}

// vxMake builds an element of the given kind with symbolic geometry and material.
func vxMake(kind int, tag string, hinges map[Index]struct{}) *vxBar {
	b := vxNodes(kind, tag)
	b.mat = vxMaterial(tag)
	b.el, b.err = vxNew(kind, "e"+tag, b.n0, b.n1, b.mat, hinges)
	return b
}

// vxDofs lists the degrees of freedom of a bar, node by node.
func (b *vxBar) vxDofs() []Index {
	var dofs []Dof
	switch b.kind {
	case vxTruss2d:
		dofs = []Dof{Ux, Uz}
	case vxTruss3d:
		dofs = []Dof{Ux, Uy, Uz}
	default:
		dofs = []Dof{Ux, Uz, Phiy}
	}
	var out []Index
	for _, n := range []*Node{b.n0, b.n1} {
		for _, d := range dofs {
			out = append(out, Index{NodalID: n.ID, Dof: d})
		}
	}
	return out
}

// vxLocal gives the rows that map the degrees of freedom of vxDofs to local ones: axial
// displacement of both ends, for frames followed by deflection and rotation of both ends. Deflection
// is positive to the local z axis (s, -c), the rotation turns the bar with dw/dx = -phi.
func (b *vxBar) vxLocal() [][]float64 {
	c, s := b.ux, b.uz
	switch b.kind {
	case vxTruss2d:
		return [][]float64{{c, s, 0, 0}, {0, 0, c, s}}
	case vxTruss3d:
		return [][]float64{{b.ux, b.uy, b.uz, 0, 0, 0}, {0, 0, 0, b.ux, b.uy, b.uz}}
	}
	return [][]float64{
		{c, s, 0, 0, 0, 0}, {0, 0, 0, c, s, 0},
		{s, -c, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0},
		{0, 0, 0, s, -c, 0}, {0, 0, 0, 0, 0, -1},
	}
}

// vxEnergy gives the local stiffness from the strain energy: EA/(2l) (u1-u0)^2 for the rod and
// 2EI/l (a^2+ab+b^2) for the beam, with a, b the end rotations relative to the chord.
func (b *vxBar) vxEnergy() [][]float64 {
	n := len(b.vxLocal())
	k := vxZeros(n, n)
	ea := b.mat.YoungsModulus * b.mat.Area()
	u := []float64{-1, 1}
	for i := range u {
		for j := range u {
			k[i][j] = ea / b.l * u[i] * u[j]
		}
	}
	if n == 6 {
		ei := b.mat.YoungsModulus * b.mat.Iyy()
		// dw/dx = -phi, chord slope psi = (w1-w0)/l; end rotations relative to the chord are
		// -phi - psi
		ra := []float64{0, 0, 1 / b.l, -1, -1 / b.l, 0}
		rb := []float64{0, 0, 1 / b.l, 0, -1 / b.l, -1}
		for i := range ra {
			for j := range ra {
				k[i][j] += ei / b.l * (4*ra[i]*ra[j] + 4*rb[i]*rb[j] + 2*ra[i]*rb[j] + 2*rb[i]*ra[j])
			}
		}
	}
	return k
}

func vxZeros(n, m int) [][]float64 {
	k := make([][]float64, n)
	for i := range k {
		k[i] = make([]float64, m)
	}
	return k
}

// vxGlobal computes B^T k B.
func vxGlobal(rows [][]float64, k [][]float64) [][]float64 {
	n := len(rows[0])
	out := vxZeros(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for p := range rows {
				for q := range rows {
					out[i][j] += rows[p][i] * k[p][q] * rows[q][j]
				}
			}
		}
	}
	return out
}

// vxGlobalVec computes B^T r.
func vxGlobalVec(rows [][]float64, r []float64) []float64 {
	out := make([]float64, len(rows[0]))
	for i := range out {
		for p := range rows {
			out[i] += rows[p][i] * r[p]
		}
	}
	return out
}

// vxAssembled is the contribution of elements to matrices that held arbitrary values before.
type vxAssembled struct {
	lay  EqLayout
	dim  int
	k    *mat.SymDense
	r, d *mat.VecDense
}

func vxLayout(els ...Element) EqLayout {
	lay, err := NewEqLayout(&Problem{Elements: els})
	vfCheck("layout of a connected structure is accepted", err == nil)
	return lay
}

func vxAssemble(els ...Element) *vxAssembled {
	set := map[Index]struct{}{}
	for _, e := range els {
		e.Indices(set)
	}
	a := &vxAssembled{lay: vxLayout(els...), dim: len(set)}
	a.k = mat.NewSymDense(a.dim, nil)
	a.r = mat.NewVecDense(a.dim, nil)
	a.d = mat.NewVecDense(a.dim, nil)
	for _, e := range els {
		e.Assemble(a.lay, a.k, a.r, a.d)
	}
	return a
}

func (a *vxAssembled) at(i, j Index) float64 { return a.k.At(a.lay.mapOne(i), a.lay.mapOne(j)) }
func (a *vxAssembled) load(i Index) float64  { return a.r.AtVec(a.lay.mapOne(i)) }

func vxIdx(id string, d Dof) Index { return Index{NodalID: id, Dof: d} }

func vxHingeDof(kind int) Dof {
	if kind == vxFrame2d {
		return Phiy
	}
	return Ux
}
