package deflect

import (
	"fmt"
	"math"

	"gonum.org/v1/gonum/mat"
)

// BOUNDS: generic problems of dimension 1 to 4 with every number of prescribed degrees of freedom
// from none to all (and more than there are); real trusses and frames with too few supports, for all
// geometries and materials; rows of up to three elements without any support or with nothing free; generic singular stiffness of up to three free degrees of freedom, with
// the Cholesky solver (also singular only up to rounding); an equation solver failing in the first or second of two solutions with a generic error or one of gonum's; exact real
// arithmetic. Three (thorough: four) sound, indefinite, singular and negative definite systems in a row given to one equation solver.

func vxRefused(res ProblemResult, err error) {
	vfCheck("unsolvable problem is an error", err != nil)
	vfCheck("no result along with the error", err == nil || res == nil)
}

func vxFreeLoads(p *Problem, dofs []Index, skip int) {
	for i, idx := range dofs {
		if i >= skip {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + vfIntStr(i))})
		}
	}
}

// VvhC21_Count: no, all, or too many supports.
func VvhC21_Count() {
	n := vfInt("dim", 1, 4)
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Phiy}}[:n]
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	vxFreeLoads(p, dofs, 0)
	fix := []int{0, n, n + 1}[vfInt("supports", 0, 2)]
	for i := 0; i < fix; i++ {
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dofs[i%n], Value: vfF("u" + vfIntStr(i))})
	}
	lay, _ := NewEqLayout(p)
	res, err := NewLinearProblemSolver().Solve(p, lay, &vxSolver{})
	vxRefused(res, err)
	vfCover("supports" + vfIntStr(fix))
}

// VvhC21_Empty: no elements at all.
func VvhC21_Empty() {
	p := &Problem{}
	lay, _ := NewEqLayout(p)
	res, err := NewLinearProblemSolver().Solve(p, lay, NewCholeskySolver())
	vxRefused(res, err)
	vfCover("empty")
}

// VvhC21_Failing: the injected equation solver fails.
func VvhC21_Failing() {
	n := vfInt("dim", 2, 3)
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}}[:n]
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	vxFreeLoads(p, dofs, 1)
	p.Dirichlet = []NodalValue{{Index: dofs[0], Value: vfF("u")}}
	if vfInt("inclined", 0, 1) == 1 && n == 3 {
		tr, bc := NewInclinedSupport(dofs[1], dofs[0], vfAngle("angle"))
		p.EqTransforms, p.Dirichlet = []Transformer{tr}, []NodalValue{bc}
	}
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	s := NewLinearProblemSolver()
	first := vfInt("first", 0, 1) == 1
	failure := []error{
		nil, mat.ErrShape, mat.Condition(1e17), mat.Condition(math.Inf(1)),
		fmt.Errorf("wrapped: %w", mat.Condition(1e17)),
	}[vfInt("failure", 0, 4)]
	for i := 0; i < 2; i++ {
		fails := first == (i == 0)
		res, err := s.Solve(p, lay, &vxSolver{fails: fails, err: failure})
		if fails {
			vxRefused(res, err)
		}
	}
	vfCover("failing")
}

// VvhC21_Mechanism: one element with too few supports.
func VvhC21_Mechanism() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	p := &Problem{Elements: []Element{b.el}}
	var fixed []Dof
	switch vfInt("supports", 0, 2) {
	case 0:
		fixed = []Dof{Ux}
	case 1:
		fixed = []Dof{Uz}
	case 2:
		fixed = []Dof{Ux, Uz}
	}
	for _, d := range fixed {
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: vxIdx("a", d), Value: 0})
	}
	p.Neumann = append(p.Neumann, NodalValue{Index: vxIdx("b", Ux), Value: vfF("load")})
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	res, err := NewLinearProblemSolver().Solve(p, lay, NewCholeskySolver())
	vxRefused(res, err)
	vfCover("mechanism")
}

// VvhC21_Singular: a generic stiffness that is singular on the free degrees of freedom.
func VvhC21_Singular() {
	n := vfInt("free", 1, 3)
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Phiy}}[:n+1]
	el := vxNewBlob("p", dofs...)
	// K22 = L D L^T with a zero in D
	l := vxZeros(n, n)
	d := make([]float64, n)
	gone := vfInt("gone", 0, n-1)
	for i := 0; i < n; i++ {
		l[i][i] = 1
		for j := 0; j < i; j++ {
			l[i][j] = vfF("l")
		}
		if i != gone {
			d[i] = vfPos("d")
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			el.k[i+1][j+1] = 0
			for k := 0; k < n; k++ {
				el.k[i+1][j+1] += l[i][k] * d[k] * l[j][k]
			}
		}
	}
	p := &Problem{Elements: []Element{el}, Dirichlet: []NodalValue{{Index: dofs[0], Value: vfF("u")}}}
	for i, idx := range dofs {
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("load" + vfIntStr(i))})
	}
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	res, err := NewLinearProblemSolver().Solve(p, lay, NewCholeskySolver())
	if !vfNative() { // rounding may hide the singularity natively
		vxRefused(res, err)
	}
	vfCover("singular")
}

// VvhC21_IllConditioned: a stiffness that is singular up to rounding.
func VvhC21_IllConditioned() {
	vfIllConditioned()
	n := vfInt("free", 2, 3)
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Phiy}}[:n+1]
	el := vxNewBlob("p", dofs...)
	at := vfInt("at", 0, n-1)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			el.k[i+1][j+1] = 0
		}
		p := vfPos("p" + vfIntStr(i))
		vfAssume(p >= 1)
		vfAssume(p <= 2)
		if i == at {
			p *= 1e-30
		}
		el.k[i+1][i+1] = p
	}
	p := &Problem{Elements: []Element{el}, Dirichlet: []NodalValue{{Index: dofs[0], Value: vfF("u")}}}
	for i, idx := range dofs {
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("load" + vfIntStr(i))})
	}
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	res, err := NewLinearProblemSolver().Solve(p, lay, NewCholeskySolver())
	vxRefused(res, err)
	vfCover("ill-conditioned")
}

// VvhC21_Unsupported: structures of one to three elements without any support, also with links
// between degrees of freedom but no prescribed value, or with every degree of freedom supported.
func VvhC21_Unsupported() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	n := vfInt("elements", 1, 3)
	nodes := []*Node{{ID: "a"}}
	p := &Problem{}
	m := vxMaterial("")
	x := 0.0
	for i := range n {
		l := vfPos("l" + vfIntStr(i))
		vfAssume(l >= vxGap)
		x += l
		nodes = append(nodes, &Node{ID: []string{"b", "c", "d"}[i], X: x})
		el, err := vxNew(kind, "e"+vfIntStr(i), nodes[i], nodes[i+1], m, nil)
		vfCheck("element is accepted", err == nil)
		p.Elements = append(p.Elements, el)
	}
	last := nodes[n].ID
	p.Neumann = append(p.Neumann, NodalValue{Index: vxIdx(last, Ux), Value: vfF("load")})
	used := map[Index]struct{}{}
	for _, e := range p.Elements {
		e.Indices(used)
	}
	switch vfInt("how", 0, 2) {
	case 1:
		tr, _ := NewInclinedSupport(vxIdx(last, Ux), vxIdx(last, Uz), vfAngle("angle"))
		if _, ok := used[vxIdx(last, Uz)]; ok {
			p.EqTransforms = append(p.EqTransforms, tr)
		}
	case 2:
		for _, node := range nodes {
			for _, d := range []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix} {
				if _, ok := used[vxIdx(node.ID, d)]; ok {
					p.Dirichlet = append(p.Dirichlet, NodalValue{Index: vxIdx(node.ID, d), Value: vfF("u")})
				}
			}
		}
	}
	lay, err := NewEqLayout(p)
	vfCheck("numbering succeeds", err == nil)
	var eq EquationSolver = NewCholeskySolver()
	if vfInt("solver", 0, 1) == 1 {
		eq = &vxNull{}
	}
	s := NewLinearProblemSolver()
	for range vfInt("times", 1, 2) {
		res, err := s.Solve(p, lay, eq)
		vxRefused(res, err)
	}
	vfCover("unsupported")
}

type vxNull struct{}

func (*vxNull) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error { return nil }

// VvhC21_Attempts: one equation solver is given up to four systems in a row, sound and unsolvable ones.
func VvhC21_Attempts()          { vxAttempts(3) }
func VvhC21_Attempts_Thorough() { vxAttempts(4) }

func vxAttempts(n int) {
	eq, s := NewCholeskySolver(), NewLinearProblemSolver()
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}}
	for i := range n {
		tag := vfIntStr(i)
		el := vxNewBlob("p", dofs...)
		for r := range el.k {
			for c := range el.k {
				el.k[r][c] = 0
			}
		}
		p0, q, l := vfPos("p"+tag), vfPos("q"+tag), vfF("l"+tag)
		sound := false
		switch vfInt("system"+tag, 0, 3) {
		case 0:
			sound = true
		case 1: // indefinite
			q = -q
		case 2: // singular
			q = 0
		case 3: // negative definite
			p0, q = -p0, -q
		}
		el.k[0][0] = 1
		el.k[1][1], el.k[1][2], el.k[2][1], el.k[2][2] = p0, l*p0, l*p0, l*l*p0+q
		p := &Problem{Elements: []Element{el}, Dirichlet: []NodalValue{{Index: dofs[0], Value: 0}}}
		vxFreeLoads(p, dofs, 1)
		lay, err := NewEqLayout(p)
		vfCheck("numbering succeeds", err == nil)
		res, err := s.Solve(p, lay, eq)
		if vfNative() && !sound && q == 0 { // rounding may hide the singularity natively
			continue
		}
		if sound {
			if !vfNative() {
				vfCheck("sound system is solved", err == nil)
			}
		} else {
			vxRefused(res, err)
		}
	}
	vfCover("attempts")
}
