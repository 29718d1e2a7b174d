package deflect

import "math"

// BOUNDS: problems of dimension 3 to 4 (6 for three supports) with a generic element of arbitrary
// symmetric stiffness and loads; one to three inclined supports of arbitrary angle on different
// nodes, on distinct degrees of freedom of one node, or sharing a degree of freedom (there the later
// support acts in the coordinates left by the earlier one), each with arbitrary nodal loads at the
// supported degrees of freedom, combined with other prescribed displacements; exact real arithmetic.
// Larger instances, with symbolic values throughout: one instance with four inclined supports in a system of dimension 11.

type vxSkid struct {
	from, to Index
	angle    float64
	c, s     float64
	tr       Transformer
}

func vxNewSkid(p *Problem, from, to Index, tag string) *vxSkid {
	k := &vxSkid{from: from, to: to, angle: vfAngle("angle" + tag)}
	k.c, k.s = math.Cos(k.angle), math.Sin(k.angle)
	tr, bc := NewInclinedSupport(from, to, k.angle)
	vfCheck("inclined support blocks the second degree of freedom", bc.Index == to)
	vfEq("inclined support blocks without displacement", bc.Value, 0)
	k.tr = tr
	p.EqTransforms = append(p.EqTransforms, tr)
	p.Dirichlet = append(p.Dirichlet, bc)
	return k
}

// vxLoadSkid applies an arbitrary nodal load, given along (slack) and across the sliding direction.
func (k *vxSkid) vxLoadSkid(p *Problem, tag string) {
	t, n := vfSlack("along"+tag), vfF("across"+tag)
	p.Neumann = append(p.Neumann,
		NodalValue{Index: k.from, Value: k.c*t - k.s*n},
		NodalValue{Index: k.to, Value: k.s*t + k.c*n})
}

func vxCheckSkid(res ProblemResult, k *vxSkid) {
	vfEq("no displacement along the blocked direction", -k.s*vxPrimary(res, k.from)+k.c*vxPrimary(res, k.to), 0)
	vfEq("no reaction along the sliding direction", k.c*vxReaction(res, k.from)+k.s*vxReaction(res, k.to), 0)
}

func vxInclinedDofs(n int) []Index {
	return []Index{{"a", Ux}, {"a", Uz}, {"b", Uy}, {"b", Uz}, {"c", Ux}, {"c", Uz}}[:n]
}

// VvhC02_One: one inclined support, the other degrees of freedom free or prescribed.
func VvhC02_One() {
	n := vfInt("dim", 3, 4)
	dofs := vxInclinedDofs(n)
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	from, to := dofs[0], dofs[1]
	if vfInt("swap", 0, 1) == 1 {
		from, to = to, from
	}
	k := vxNewSkid(p, from, to, "")
	k.vxLoadSkid(p, "")
	values := map[Index]float64{}
	for i, idx := range dofs[2:] {
		tag := vfIntStr(i)
		if vfInt("fix"+tag, 0, 1) == 1 {
			values[idx] = vfF("u" + tag)
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: values[idx]})
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("g" + tag)})
		} else {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + tag)})
		}
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	vxCheckSkid(res, k)
	vxEquilibrium(p, res, dofs)
	for _, idx := range dofs[2:] {
		if v, ok := values[idx]; ok {
			vfEq("prescribed displacement is reproduced", vxPrimary(res, idx), v)
		} else {
			vfEq("no reaction without support", vxReaction(res, idx), 0)
		}
	}
	vfCover("one")
}

func vxTwoSkids(p *Problem, dofs []Index, pairs [][2]Index) {
	used := map[Index]bool{}
	var ks []*vxSkid
	for i, q := range pairs {
		tag := vfIntStr(i)
		k := vxNewSkid(p, q[0], q[1], tag)
		k.vxLoadSkid(p, tag)
		ks = append(ks, k)
		used[q[0]], used[q[1]] = true, true
	}
	for i, idx := range dofs {
		if !used[idx] {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + vfIntStr(i))})
		}
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	for _, k := range ks {
		vxCheckSkid(res, k)
	}
	vxEquilibrium(p, res, dofs)
	for _, idx := range dofs {
		if !used[idx] {
			vfEq("no reaction without support", vxReaction(res, idx), 0)
		}
	}
	vfCover("several")
}

func VvhC02_TwoNodes() {
	dofs := vxInclinedDofs(4)
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	vxTwoSkids(p, dofs, [][2]Index{{dofs[0], dofs[1]}, {dofs[3], dofs[2]}})
}

func VvhC02_SameNode() {
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"a", Phix}, {"a", Phiy}}
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	vxTwoSkids(p, dofs, [][2]Index{{dofs[0], dofs[1]}, {dofs[3], dofs[2]}})
}

func VvhC02_ThreeNodes_Thorough() {
	dofs := vxInclinedDofs(6)
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	vxTwoSkids(p, dofs, [][2]Index{{dofs[0], dofs[1]}, {dofs[3], dofs[2]}, {dofs[4], dofs[5]}})
}

// VvhC02_Chained: two supports that share the first degree of freedom. The second one acts in the
// coordinates rotated by the first one: t1 = c1 x + s1 z, and -s2 t1 + c2 y is blocked.
func VvhC02_Chained() {
	x, z, y := Index{"a", Ux}, Index{"a", Uz}, Index{"a", Uy}
	dofs := []Index{x, z, y}
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	k1 := vxNewSkid(p, x, z, "1")
	k2 := vxNewSkid(p, x, y, "2")
	t, n1, n2 := vfSlack("along"), vfF("across1"), vfF("across2")
	// directions: sliding, first and second blocked one
	d1 := []float64{-k1.s, k1.c, 0}
	d2 := []float64{-k2.s * k1.c, -k2.s * k1.s, k2.c}
	ds := []float64{k2.c * k1.c, k2.c * k1.s, k2.s}
	for i, idx := range dofs {
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: t*ds[i] + n1*d1[i] + n2*d2[i]})
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	u1, u2, rs := 0.0, 0.0, 0.0
	for i, idx := range dofs {
		u1 += d1[i] * vxPrimary(res, idx)
		u2 += d2[i] * vxPrimary(res, idx)
		rs += ds[i] * vxReaction(res, idx)
	}
	vfEq("no displacement along the first blocked direction", u1, 0)
	vfEq("no displacement along the second blocked direction", u2, 0)
	vfEq("no reaction along the sliding direction", rs, 0)
	vxEquilibrium(p, res, dofs)
	vfCover("chained")
}

// VvhC02_Fixed: the sliding direction is blocked as well (without displacement).
func VvhC02_Fixed() {
	dofs := vxInclinedDofs(4)
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	k := vxNewSkid(p, dofs[0], dofs[1], "")
	p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dofs[0], Value: 0})
	for i, idx := range dofs {
		load := vfSlack("f" + vfIntStr(i))
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: load})
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	vfEq("no displacement along the blocked direction", -k.s*vxPrimary(res, k.from)+k.c*vxPrimary(res, k.to), 0)
	vfEq("fixed", vxPrimary(res, k.from), 0)
	vxEquilibrium(p, res, dofs)
	vfCover("fixed")
}

// VvhC02_Settled: a prescribed displacement at the first degree of freedom of the support.
func VvhC02_Settled() {
	dofs := vxInclinedDofs(3)
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}
	k := vxNewSkid(p, dofs[0], dofs[1], "")
	v := vfF("v")
	vfAssume(v != 0)
	p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dofs[0], Value: v})
	p.Neumann = append(p.Neumann, NodalValue{Index: dofs[2], Value: vfSlack("f")})
	res, err := vxSolve(p, &vxSolver{})
	if err != nil {
		vfCover("refused")
		return
	}
	vfEq("no displacement along the blocked direction", -k.s*vxPrimary(res, k.from)+k.c*vxPrimary(res, k.to), 0)
	vfCover("settled")
}

// VvhC02_Many: four inclined supports, prescribed displacements and free degrees of freedom.
func VvhC02_Many() {
	dofs := []Index{
		{"n10", Ux}, {"n10", Uz}, {"n2", Uz}, {"n2", Ux}, {"n3", Uy}, {"n3", Ux}, {"n1", Uz}, {"n1", Uy},
		{"n2", Phiy}, {"n4", Ux}, {"n4", Uz},
	}
	p := &Problem{Elements: []Element{vxNewBlob("p", dofs[:6]...), vxNewBlob("q", dofs[4:9]...), vxNewBlob("r", dofs[8:]...)}}
	v := vfF("settlement")
	p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dofs[9], Value: v})
	p.Neumann = append(p.Neumann, NodalValue{Index: dofs[9], Value: vfF("g")})
	var ks []*vxSkid
	for i := 0; i < 4; i++ {
		k := vxNewSkid(p, dofs[2*i], dofs[2*i+1], vfIntStr(i))
		k.vxLoadSkid(p, vfIntStr(i))
		ks = append(ks, k)
	}
	for _, i := range []int{8, 10} {
		p.Neumann = append(p.Neumann, NodalValue{Index: dofs[i], Value: vfSlack("f" + vfIntStr(i))})
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	for _, k := range ks {
		vxCheckSkid(res, k)
	}
	vxEquilibrium(p, res, dofs)
	vfEq("prescribed displacement is reproduced", vxPrimary(res, dofs[9]), v)
	for _, i := range []int{8, 10} {
		vfEq("no reaction without support", vxReaction(res, dofs[i]), 0)
	}
	vfCover("many")
}
