package deflect

// BOUNDS: problems of dimension 2 to 4 (5 in the thorough tier) with one or two generic elements of
// arbitrary symmetric stiffness and arbitrary element loads, every partition into constrained and
// free degrees of freedom, every prescribed value, every nodal load (also at
// free or at supported degrees of freedom only, or none at all); exact real arithmetic. The
// equation solver is any one that solves its system exactly.
// Two or three elements side by side (truss2d, truss3d or frame2d of any length) that connect the same two nodes,
// of the same or equal or other materials, in the same or opposite direction, unloaded or with an axial load.
// Larger instances, with symbolic values throughout: one instance of dimension 9 with three elements and four of its partitions.

var vxFive = []Index{{"b", Ux}, {"a", Phiy}, {"b", Uz}, {"a", Ux}, {"c", Uy}}

// vxConstrain prescribes a chosen non-trivial subset of the degrees of freedom.
func vxConstrain(p *Problem, dofs []Index) (free, fixed []Index, values map[Index]float64) {
	n := len(dofs)
	mask := vfInt("constrained", 1, 1<<n-2)
	values = map[Index]float64{}
	for i, idx := range dofs {
		if mask>>i&1 == 1 {
			v := vfF("u" + vfIntStr(i))
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: v})
			values[idx] = v
			fixed = append(fixed, idx)
		} else {
			free = append(free, idx)
		}
	}
	return free, fixed, values
}

// vxLoadNodes applies slack loads at free and arbitrary loads at constrained degrees of freedom.
func vxLoadNodes(p *Problem, free, fixed []Index) {
	for i, idx := range free {
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + vfIntStr(i))})
	}
	for i, idx := range fixed {
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("g" + vfIntStr(i))})
	}
}

func vxCheckSolve(p *Problem, dofs []Index) {
	free, fixed, values := vxConstrain(p, dofs)
	vxLoadNodes(p, free, fixed)
	vxCheckSolved(p, dofs, free, fixed, values)
}

func vxCheckSolved(p *Problem, dofs, free, fixed []Index, values map[Index]float64) {
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	for _, idx := range fixed {
		vfEq("prescribed displacement is reproduced", vxPrimary(res, idx), values[idx])
	}
	vxEquilibrium(p, res, dofs)
	for _, idx := range free {
		vfEq("no reaction without support", vxReaction(res, idx), 0)
	}
	vfCover("fixed" + vfIntStr(len(fixed)))
}

func VvhC01_OneElement() {
	dofs := vxFive[:vfInt("dim", 2, 4)]
	vxCheckSolve(&Problem{Elements: []Element{vxNewBlob("p", dofs...)}}, dofs)
}

// VvhC01_Unloaded: no nodal loads, or only at free or only at supported degrees of freedom.
func VvhC01_Unloaded() {
	dofs := vxFive[:vfInt("dim", 2, 3)]
	el := vxNewBlob("p", dofs...)
	p := &Problem{Elements: []Element{el}}
	free, fixed, values := vxConstrain(p, dofs)
	if vfInt("settled", 0, 1) == 0 {
		for i, v := range p.Dirichlet {
			p.Dirichlet[i].Value, values[v.Index] = 0, 0
		}
	}
	loads := vfInt("loads", 0, 2)
	for i, idx := range dofs {
		for _, f := range free {
			if idx == f && loads != 1 {
				el.r[i] = vfSlack("s" + vfIntStr(i)) // element loads only
			}
		}
	}
	switch loads {
	case 1:
		vxLoadNodes(p, free, nil)
	case 2:
		vxLoadNodes(p, nil, fixed)
	}
	vxCheckSolved(p, dofs, free, fixed, values)
}

func VvhC01_TwoElements() {
	dofs := vxFive[:4]
	vxCheckSolve(&Problem{Elements: []Element{vxNewBlob("p", dofs[:3]...), vxNewBlob("q", dofs[2:]...)}}, dofs)
}

func VvhC01_Larger_Thorough() {
	vxCheckSolve(&Problem{Elements: []Element{vxNewBlob("p", vxFive...)}}, vxFive)
}

var vxNine = []Index{{"n10", Ux}, {"n2", Phiy}, {"n10", Uz}, {"n2", Ux}, {"n1", Uy}, {"n3", Uz}, {"n2", Uz}, {"n1", Phix}, {"n3", Ux}}

// VvhC01_Many: a larger structure of three elements, with several prescribed values and loads, some
// of them at the same degree of freedom.
func VvhC01_Many() {
	dofs := vxNine
	p := &Problem{Elements: []Element{
		vxNewBlob("p", dofs[:5]...), vxNewBlob("q", dofs[3:8]...), vxNewBlob("r", dofs[8], dofs[0], dofs[4]),
	}}
	values := map[Index]float64{}
	var free, fixed []Index
	mask := []int{0b010110100, 0b111011011, 0b000000001, 0b100010000}[vfInt("constrained", 0, 3)]
	for i, idx := range dofs {
		if mask>>i&1 == 1 {
			v := vfF("u" + vfIntStr(i))
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: v})
			values[idx] = v
			fixed = append(fixed, idx)
		} else {
			free = append(free, idx)
		}
	}
	vxLoadNodes(p, free, fixed)
	for i, idx := range dofs {
		if i%2 == 0 {
			p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: vfF("h" + vfIntStr(i))})
		}
	}
	vxCheckSolved(p, dofs, free, fixed, values)
}

// VvhC01_Parallel: several elements connect the same two nodes. All of them carry.
func VvhC01_Parallel() {
	kind := vfInt("kind", 0, 2)
	l := vfPos("l")
	n := []Node{{ID: "a", X: vfF("x")}, {ID: "b"}}
	n[1].X = n[0].X + l
	m := vxMaterial("")
	p := &Problem{Nodes: n}
	count := vfInt("count", 2, 3)
	var bars []*vxBar
	for i := range count {
		b := &vxBar{kind: kind, n0: &n[0], n1: &n[1], l: l, ux: 1, mat: m}
		if i == 1 {
			switch vfInt("second", 0, 3) {
			case 1:
				b.n0, b.n1, b.ux = b.n1, b.n0, -1
			case 2:
				b.mat = vxMaterial("other")
			case 3:
				o := *m
				b.mat = &o
			}
		}
		var err error
		b.el, err = vxNew(kind, []string{"p", "q", "r"}[i], b.n0, b.n1, b.mat, map[Index]struct{}{})
		vfCheck("element is accepted", err == nil)
		p.Elements = append(p.Elements, b.el)
		bars = append(bars, b)
	}
	q, loaded := 0.0, vfInt("loaded", -1, count-1)
	if loaded >= 0 {
		q = vfF("q")
		vfCheck("load is accepted", bars[loaded].el.AddLoad(NewElementConstantLoad(Ux, q)))
		q *= bars[loaded].ux * l / 2
	}
	dofs := bars[0].vxDofs()
	var f [6]float64
	for i, idx := range dofs {
		if i < len(dofs)/2 || kind != vxFrame2d && idx.Dof != Ux {
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx})
			continue
		}
		f[i] = vfSlack("f" + vfIntStr(i))
		p.Neumann = append(p.Neumann, NodalValue{Index: idx, Value: f[i]})
	}
	res, err := vxSolve(p, &vxSolver{})
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return
	}
	for i, idx := range dofs {
		sum := 0.0
		for _, b := range bars {
			k := vxGlobal(b.vxLocal(), b.vxEnergy())
			for j, jdx := range b.vxDofs() {
				for h, hdx := range b.vxDofs() {
					if jdx == idx {
						sum += k[j][h] * vxPrimary(res, hdx)
					}
				}
			}
		}
		if idx.Dof == Ux {
			sum -= q
		}
		vfEq("stiffness of all elements times displacement equals load plus reaction", sum, f[i]+vxReaction(res, idx))
	}
	vfCover("parallel" + vfIntStr(kind))
}
