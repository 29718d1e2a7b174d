package deflect

// BOUNDS: one element of kind truss2d, truss3d (all 4 hinge setups) and frame2d (all 64 hinge setups),
// without load and with one load of every supported kind at every position; all nodal displacements,
// lengths, orientations, materials; exact real arithmetic.
// Two elements with the same hinges, both assembled before either is interpolated, then assembled and interpolated again in reverse order.
// Nodes of any two different names, one hinge at either of them or at a node that is not the element's.

// vxHinges chooses a hinge setup and returns the released local degrees of freedom (see vxLocal).
func vxHinges(kind int) (map[Index]struct{}, []bool) {
	order := []Index{{"a", Ux}, {"b", Ux}}
	if kind == vxFrame2d {
		order = append(order, Index{"a", Uz}, Index{"a", Phiy}, Index{"b", Uz}, Index{"b", Phiy})
	}
	hinges, released := map[Index]struct{}{}, make([]bool, len(order))
	for i, idx := range order {
		if vfInt("hinge"+vfIntStr(i), 0, 1) == 1 {
			hinges[idx] = struct{}{}
			released[i] = true
		}
	}
	return hinges, released
}

func vxCount(b []bool) (n int) {
	for _, x := range b {
		if x {
			n++
		}
	}
	return n
}

// vxMechanism: the released element could move without strain energy.
func vxMechanism(rel []bool) bool {
	if rel[0] && rel[1] {
		return true
	}
	return len(rel) == 6 && (vxCount(rel[2:]) > 2 || rel[2] && rel[4])
}

// vxUsual: at most one axial hinge and at most one hinge in bending or both moment hinges.
func vxUsual(rel []bool) bool {
	if rel[0] && rel[1] {
		return false
	}
	if len(rel) == 2 {
		return true
	}
	return vxCount(rel[2:]) <= 1 || vxCount(rel[2:]) == 2 && rel[3] && rel[5]
}

// vxCondense eliminates the released degrees of freedom by Gauss elimination.
func vxCondense(k [][]float64, r []float64, rel []bool) {
	for h := range rel {
		if !rel[h] {
			continue
		}
		for i := range rel {
			if i == h {
				continue
			}
			f := k[i][h] / k[h][h]
			for j := range rel {
				if j != h {
					k[i][j] -= f * k[h][j]
				}
			}
			r[i] -= f * r[h]
		}
		for i := range rel {
			k[i][h], k[h][i] = 0, 0
		}
		r[h] = 0
	}
}

func vxCheckHinges(kind, nloads int) {
	hinges, rel := vxHinges(kind)
	n := len(hinges)
	b := vxMakeLong(kind, "", hinges)
	vfCheck("hinge description is not altered", len(hinges) == n)
	if vxMechanism(rel) {
		vfCheck("hinges that make the element a mechanism are refused", b.err != nil)
	}
	if vxUsual(rel) {
		vfCheck("usual hinge setup is accepted", b.err == nil)
	}
	if b.err != nil {
		vfCover("refused")
		return
	}
	loads := b.vxAnyLoads(nloads, vxSpecs(kind))
	k, r := b.vxEnergy(), b.vxLocalLoads(loads)
	vxCondense(k, r, rel)
	want, wantR := vxGlobal(b.vxLocal(), k), vxGlobalVec(b.vxLocal(), r)
	dofs := b.vxDofs()
	a := vxAssemble(b.el)
	vfCheck("a hinge leaves the set of degrees of freedom unchanged", a.dim == len(dofs))
	for i, p := range dofs {
		for j, q := range dofs {
			vfEq("condensed stiffness", a.at(p, q), want[i][j])
		}
		vfEq("condensed loads", a.load(p), wantR[i])
	}
	s := b.vxDisplaced(loads)
	vxReleased(s, rel)
	vfCover("condensed")
}

// vxReleased: the internal forces of the released degrees of freedom vanish at the ends.
func vxReleased(s *vxState, rel []bool) {
	forces := func(which Fct, i, j int) {
		if !rel[i] && !rel[j] {
			return
		}
		ps := s.interp(which)
		vfCheck("internal force is available", len(ps) > 0)
		if len(ps) == 0 {
			return
		}
		kind := map[Fct]Dof{FctNx: Ux, FctVz: Uz, FctMy: Phiy}[which]
		if rel[i] {
			vfEq("released force vanishes at the start", vxFirst(ps)+s.vxAt(kind, 0), 0)
		}
		if rel[j] {
			vfEq("released force vanishes at the end", vxLast(ps)-s.vxAt(kind, s.b.l), 0)
		}
	}
	forces(FctNx, 0, 1)
	if s.b.kind == vxFrame2d {
		forces(FctVz, 2, 4)
		forces(FctMy, 3, 5)
	}
}

func VvhC07_Truss2d() { vxCheckHinges(vxTruss2d, vfInt("loads", 0, 2)) }
func VvhC07_Truss3d() { vxCheckHinges(vxTruss3d, vfInt("loads", 0, 2)) }
func VvhC07_Frame2d() { vxCheckHinges(vxFrame2d, vfInt("loads", 0, 1)) }

func VvhC07_Frame2dTwo_Thorough() { vxCheckHinges(vxFrame2d, 2) }

// VvhC07_Names: hinges belong to the node of their name, whatever the names are.
func VvhC07_Names() {
	kind := vfInt("kind", 0, 2)
	b := vxNodes(kind, "")
	vfAssume(b.l >= vxGap)
	b.mat = vxMaterial("")
	b.n1.ID = vfStr("name")
	vfAssume(b.n1.ID != "a")
	dof := Ux
	if kind == vxFrame2d {
		dof = vxDofChoice("hinge", Ux, Phiy)
	}
	at := []string{"a", b.n1.ID, "A"}[vfInt("node", 0, 2)]
	hinge := Index{at, dof}
	var err error
	b.el, err = vxNew(kind, "e", b.n0, b.n1, b.mat, map[Index]struct{}{hinge: {}})
	vfCheck("usual hinge setup is accepted", err == nil)
	if err != nil {
		return
	}
	order := []Index{{"a", Ux}, {b.n1.ID, Ux}}
	if kind == vxFrame2d {
		order = append(order, Index{"a", Uz}, Index{"a", Phiy}, Index{b.n1.ID, Uz}, Index{b.n1.ID, Phiy})
	}
	rel := make([]bool, len(order))
	for i, idx := range order {
		rel[i] = idx == hinge
	}
	k := b.vxEnergy()
	vxCondense(k, make([]float64, len(k)), rel)
	want := vxGlobal(b.vxLocal(), k)
	a := vxAssemble(b.el)
	dofs := b.vxDofs()
	for i, p := range dofs {
		for j, q := range dofs {
			vfEq("condensed stiffness", a.at(p, q), want[i][j])
		}
	}
	vfCover("names")
}

// VvhC07_Two: two elements with the same hinges, both assembled before either one is interpolated, and
// once more in the reverse order.
func VvhC07_Two() {
	kind := vfInt("kind", 0, 1) * vxFrame2d
	hinges, rel := vxHinges(kind)
	n := vfInt("loads", 0, 1)
	bars, states := make([]*vxBar, 2), make([]*vxState, 2)
	loads := make([][]*vxLoad, 2)
	for i := range bars {
		b := &vxBar{kind: kind, l: vfPos("l" + vfIntStr(i)), ux: 1}
		vfAssume(b.l >= 1)
		vfAssume(b.l <= 2)
		b.n0, b.n1 = &Node{ID: "a"}, &Node{ID: "b", X: b.l}
		b.mat = vxMaterial(vfIntStr(i))
		b.el, b.err = vxNew(kind, "e"+vfIntStr(i), b.n0, b.n1, b.mat, hinges)
		if b.err != nil {
			vfCheck("the same hinges are refused for every element", i == 0)
			vfCover("refused")
			return
		}
		specs := vxSpecs(kind)
		if n > 0 {
			ld := vxNewLoad(specs[len(specs)-1], 0, vfIntStr(i))
			vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
			loads[i] = append(loads[i], ld)
		}
		bars[i] = b
	}
	for i, b := range bars {
		states[i] = b.vxDisplaced(loads[i])
	}
	for _, s := range states {
		vxReleased(s, rel)
	}
	for i := range bars {
		b := bars[1-i]
		k, r := b.vxEnergy(), b.vxLocalLoads(loads[1-i])
		vxCondense(k, r, rel)
		want, wantR := vxGlobal(b.vxLocal(), k), vxGlobalVec(b.vxLocal(), r)
		a := vxAssemble(b.el)
		dofs := b.vxDofs()
		for i, p := range dofs {
			for j, q := range dofs {
				vfEq("condensed stiffness", a.at(p, q), want[i][j])
			}
			vfEq("condensed loads", a.load(p), wantR[i])
		}
	}
	for i := range states {
		vxReleased(states[1-i], rel)
	}
	vfCover("two")
}
