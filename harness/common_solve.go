package deflect

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// A generic linear element (any symmetric stiffness, any load vector) and a generic equation solver,
// so that the boundary value problem solver is checked for every structure at once.

type vxBlob struct {
	id    string
	dofs  []Index
	k     [][]float64
	r     []float64
	ps    map[Fct]PolySequence
	loads int
	asm   int
}

// vxNewBlob has arbitrary coefficients everywhere.
func vxNewBlob(id string, dofs ...Index) *vxBlob {
	b := &vxBlob{id: id, dofs: dofs, k: vxZeros(len(dofs), len(dofs))}
	for i := range dofs {
		for j := 0; j <= i; j++ {
			b.k[i][j] = vfF("k" + id + vfIntStr(i) + vfIntStr(j))
			b.k[j][i] = b.k[i][j]
		}
		b.r = append(b.r, vfF("r"+id+vfIntStr(i)))
	}
	return b
}

func (b *vxBlob) Assemble(indices EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	b.asm++
	at := make([]int, len(b.dofs))
	for i, idx := range b.dofs {
		at[i] = indices.mapOne(idx)
	}
	for i := range at {
		for j := 0; j <= i; j++ {
			k.SetSym(at[i], at[j], k.At(at[i], at[j])+b.k[i][j])
		}
		r.SetVec(at[i], r.AtVec(at[i])+b.r[i])
	}
}
func (b *vxBlob) AddLoad(NeumannElementBC) bool { return false }
func (b *vxBlob) RemoveLoad(NeumannElementBC)   {}
func (b *vxBlob) NumNodes() uint                { return 2 }
func (b *vxBlob) ID() string                    { return b.id }
func (b *vxBlob) Indices(set map[Index]struct{}) {
	for _, idx := range b.dofs {
		set[idx] = struct{}{}
	}
}
func (b *vxBlob) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
	for _, idx := range b.dofs {
		indices.mapOne(idx)
	}
	ps, ok := b.ps[which]
	if !ok {
		return nil
	}
	return vxCopySeq(ps)
}

// vxSolver is any correct equation solver: it answers with arbitrary unknowns that satisfy the
// system (each equation determines the slack load in it), and gives equal systems equal answers.
type vxSolver struct {
	calls []vxCall
	fails bool
	err   error // the failure, or nil for a generic one
	// the system of the last call
	n int
}

type vxCall struct {
	a [][]float64
	b []float64
	x []float64
}

type vxError struct{}

func (vxError) Error() string { return "injected failure" }

func (s *vxSolver) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	n := a.SymmetricDim()
	s.n = n
	if s.fails && s.err != nil {
		return s.err
	} else if s.fails {
		return vxError{}
	}
	c := vxCall{a: vxZeros(n, n), b: make([]float64, n), x: make([]float64, n)}
	for i := range c.b {
		for j := range c.b {
			c.a[i][j] = a.At(i, j)
		}
		c.b[i] = b.AtVec(i)
	}
	found := false
	for _, o := range s.calls {
		if vxSameSystem(&o, &c) {
			copy(c.x, o.x)
			found = true
			break
		}
	}
	if !found {
		if vfNative() {
			for i := range c.x {
				c.x[i] = vfFresh("x")
			}
			if !vxSolves(&c) {
				vfAssume(vxGauss(vxCopyMat(c.a), append([]float64{}, c.b...), c.x))
			}
		} else {
			for i := range c.x {
				c.x[i] = vfFresh("x")
			}
			for i := range c.x {
				sum := -c.b[i]
				for j := range c.x {
					sum += c.a[i][j] * c.x[j]
				}
				vfZero(sum)
			}
		}
		s.calls = append(s.calls, c)
	}
	for i := range c.x {
		x.SetVec(i, c.x[i])
	}
	return nil
}

// vxSolves: the unknowns satisfy the system (native replay only).
func vxSolves(c *vxCall) bool {
	for i := range c.x {
		sum, mag := -c.b[i], 1+vxAbs(c.b[i])
		for j := range c.x {
			sum += c.a[i][j] * c.x[j]
			mag += vxAbs(c.a[i][j] * c.x[j])
		}
		if !(vxAbs(sum) <= 1e-9*mag) {
			return false
		}
	}
	return true
}

func vxSameSystem(o, c *vxCall) bool {
	if len(o.b) != len(c.b) {
		return false
	}
	for i := range c.b {
		if o.b[i] != c.b[i] {
			return false
		}
		for j := range c.b {
			if o.a[i][j] != c.a[i][j] {
				return false
			}
		}
	}
	return true
}

func vxCopyMat(a [][]float64) [][]float64 {
	out := make([][]float64, len(a))
	for i := range a {
		out[i] = append([]float64{}, a[i]...)
	}
	return out
}

// vxGauss solves a x = b (native replay only).
func vxGauss(a [][]float64, b, x []float64) bool {
	n := len(b)
	for i := 0; i < n; i++ {
		p := i
		for j := i + 1; j < n; j++ {
			if vxAbs(a[j][i]) > vxAbs(a[p][i]) {
				p = j
			}
		}
		if a[p][i] == 0 {
			return false
		}
		a[i], a[p], b[i], b[p] = a[p], a[i], b[p], b[i]
		for j := i + 1; j < n; j++ {
			f := a[j][i] / a[i][i]
			for k := i; k < n; k++ {
				a[j][k] -= f * a[i][k]
			}
			b[j] -= f * b[i]
		}
	}
	for i := n - 1; i >= 0; i-- {
		x[i] = b[i]
		for j := i + 1; j < n; j++ {
			x[i] -= a[i][j] * x[j]
		}
		x[i] /= a[i][i]
	}
	return true
}

func vxSolve(p *Problem, s EquationSolver) (ProblemResult, error) {
	lay, err := NewEqLayout(p)
	vfCheck("numbering of a well-formed problem succeeds", err == nil)
	return NewLinearProblemSolver().Solve(p, lay, s)
}

// vxPrimary and vxReaction query single values of known degrees of freedom.
func vxPrimary(res ProblemResult, idx Index) float64 {
	v, err := res.Primary(idx)
	vfCheck("displacement of a known degree of freedom is available", err == nil)
	vfCheck("displacement is labelled with its degree of freedom", v.Index == idx)
	return v.Value
}

func vxReaction(res ProblemResult, idx Index) float64 {
	v, err := res.Reaction(idx)
	vfCheck("reaction of a known degree of freedom is available", err == nil)
	vfCheck("reaction is labelled with its degree of freedom", v.Index == idx)
	return v.Value
}

// vxApplied sums all loads at a degree of freedom: of the elements and nodal ones.
func vxApplied(p *Problem, idx Index) float64 {
	sum := 0.0
	for _, e := range p.Elements {
		b := e.(*vxBlob)
		for i, o := range b.dofs {
			if o == idx {
				sum += b.r[i]
			}
		}
	}
	for _, n := range p.Neumann {
		if n.Index == idx {
			sum += n.Value
		}
	}
	return sum
}

// vxInternal is the force of the structure at a degree of freedom: stiffness times displacement.
func vxInternal(p *Problem, idx Index, d func(Index) float64) float64 {
	sum := 0.0
	for _, e := range p.Elements {
		b := e.(*vxBlob)
		for i, o := range b.dofs {
			if o != idx {
				continue
			}
			for j, q := range b.dofs {
				sum += b.k[i][j] * d(q)
			}
		}
	}
	return sum
}

// vxEquilibrium asserts stiffness times displacement = load + reaction everywhere.
func vxEquilibrium(p *Problem, res ProblemResult, dofs []Index) {
	for _, idx := range dofs {
		f := vxInternal(p, idx, func(q Index) float64 { return vxPrimary(res, q) })
		vfEq("stiffness times displacement equals load plus reaction", f, vxApplied(p, idx)+vxReaction(res, idx))
	}
}

func vxDofChoice(tag string, dofs ...Dof) Dof { return dofs[vfInt("dof"+tag, 0, len(dofs)-1)] }

func vxAngleOf(tag string) (c, s, angle float64) {
	angle = vfAngle("angle" + tag)
	return math.Cos(angle), math.Sin(angle), angle
}

// vxGivenSolver answers with given unknowns and asserts that they solve the system.
type vxGivenSolver struct{ x []float64 }

func (s *vxGivenSolver) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	n := a.SymmetricDim()
	vfCheck("number of unknowns", n == len(s.x))
	for i := 0; i < n; i++ {
		sum := 0.0
		for j := 0; j < n; j++ {
			sum += a.At(i, j) * s.x[j]
		}
		vfEq("the expected unknowns solve the system", sum, b.AtVec(i))
		x.SetVec(i, s.x[i])
	}
	return nil
}
