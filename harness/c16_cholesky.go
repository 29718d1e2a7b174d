package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: symmetric matrices and right-hand sides of dimension 1 to 3 (4 in the thorough tier) with
// arbitrary coefficients, positive definite (as L D L^T), or not positive definite because of any
// pivot that is zero or negative; ill-conditioned diagonal matrices; exact real arithmetic (gonum's
// factorisation and substitution are executed, its condition estimate is not).

type vxSystem struct {
	n int
	a [][]float64
	b []float64
	m *mat.SymDense
	v *mat.VecDense
	x *mat.VecDense
}

// vxLDL builds the matrix L D L^T and an arbitrary right-hand side.
func vxLDL(n int, d []float64) *vxSystem {
	s := &vxSystem{n: n, a: vxZeros(n, n), b: make([]float64, n)}
	l := vxZeros(n, n)
	for i := range l {
		l[i][i] = 1
		for j := 0; j < i; j++ {
			l[i][j] = vfF("l" + vfIntStr(i) + vfIntStr(j))
		}
	}
	s.m, s.v, s.x = mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	for i := range l {
		for j := range l {
			for k := range l {
				s.a[i][j] += l[i][k] * d[k] * l[j][k]
			}
		}
	}
	for i := range l {
		s.b[i] = vfF("b" + vfIntStr(i))
		s.v.SetVec(i, s.b[i])
		s.x.SetVec(i, vfF("before"+vfIntStr(i)))
		for j := i; j < n; j++ {
			s.m.SetSym(i, j, s.a[i][j])
		}
	}
	return s
}

func (s *vxSystem) unchanged() {
	for i := range s.b {
		vfEq("right-hand side is unchanged", s.v.AtVec(i), s.b[i])
		for j := range s.b {
			vfEq("matrix is unchanged", s.m.At(i, j), s.a[i][j])
		}
	}
}

func vxCheckDefinite(n int) {
	d := make([]float64, n)
	for i := range d {
		d[i] = vfPos("d" + vfIntStr(i))
	}
	s := vxLDL(n, d)
	err := NewCholeskySolver().SolveLinearSystem(s.m, s.v, s.x)
	if vfNative() && err != nil { // ill-conditioned in floating-point arithmetic
		vfAssume(false)
	}
	vfCheck("positive definite system is solved", err == nil)
	for i := range s.b {
		sum := 0.0
		for j := range s.b {
			sum += s.a[i][j] * s.x.AtVec(j)
		}
		vfEq("solution satisfies the system", sum, s.b[i])
	}
	s.unchanged()
	vfCover("definite" + vfIntStr(n))
}

func VvhC16_Definite()          { vxCheckDefinite(vfInt("dim", 1, 3)) }
func VvhC16_Definite_Thorough() { vxCheckDefinite(4) }

// vxCheckIndefinite: one pivot is zero or negative.
func vxCheckIndefinite(n int) {
	d := make([]float64, n)
	at := vfInt("at", 0, n-1)
	for i := range d {
		d[i] = vfPos("d" + vfIntStr(i))
	}
	switch vfInt("pivot", 0, 1) {
	case 0:
		d[at] = 0
		vfCover("singular")
	case 1:
		d[at] = -d[at]
		vfCover("indefinite")
	}
	s := vxLDL(n, d)
	err := NewCholeskySolver().SolveLinearSystem(s.m, s.v, s.x)
	if !vfNative() || d[at] < -1e-3 { // rounding may hide the singularity natively
		vfCheck("system that is not positive definite is an error", err != nil)
	}
	s.unchanged()
}

func VvhC16_Indefinite()          { vxCheckIndefinite(vfInt("dim", 1, 3)) }
func VvhC16_Indefinite_Thorough() { vxCheckIndefinite(4) }

// VvhC16_Zero: matrices of zeros only, exactly singular also in floating-point arithmetic.
func VvhC16_Zero() {
	n := vfInt("dim", 1, 3)
	s := vxLDL(n, make([]float64, n))
	err := NewCholeskySolver().SolveLinearSystem(s.m, s.v, s.x)
	vfCheck("singular system is an error", err != nil)
	s.unchanged()
	vfCover("zero")
}

// VvhC16_IllConditioned: singular up to rounding.
func VvhC16_IllConditioned() {
	vfIllConditioned()
	n := vfInt("dim", 2, 3)
	at := vfInt("at", 0, n-1)
	s := &vxSystem{n: n, a: vxZeros(n, n), b: make([]float64, n)}
	s.m, s.v, s.x = mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	for i := range s.b {
		p := vfPos("p" + vfIntStr(i))
		vfAssume(p >= 1)
		vfAssume(p <= 2)
		if i == at {
			p *= 1e-30
		}
		s.a[i][i] = p
		s.m.SetSym(i, i, p)
		s.b[i] = vfF("b" + vfIntStr(i))
		s.v.SetVec(i, s.b[i])
	}
	err := NewCholeskySolver().SolveLinearSystem(s.m, s.v, s.x)
	vfCheck("system that is singular up to rounding is an error", err != nil)
	s.unchanged()
	vfCover("ill-conditioned")
}

// VvhC16_Repeat: a solver keeps nothing from one system to the next.
func VvhC16_Repeat() {
	solver := NewCholeskySolver()
	bad := vfInt("first", 0, 1) == 1
	d := []float64{vfPos("d0"), vfPos("d1")}
	if bad {
		d[1] = 0
	}
	first := vxLDL(2, d)
	_ = solver.SolveLinearSystem(first.m, first.v, first.x)
	n := vfInt("dim", 1, 2)
	e := []float64{vfPos("e0"), vfPos("e1")}[:n]
	s := vxLDL(n, e)
	err := solver.SolveLinearSystem(s.m, s.v, s.x)
	if vfNative() && err != nil {
		vfAssume(false)
	}
	vfCheck("positive definite system is solved", err == nil)
	for i := range s.b {
		sum := 0.0
		for j := range s.b {
			sum += s.a[i][j] * s.x.AtVec(j)
		}
		vfEq("solution satisfies the system", sum, s.b[i])
	}
	s.unchanged()
	vfCover("repeat")
}
