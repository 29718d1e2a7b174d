package deflect

// BOUNDS: problems with one or two elements using up to four degrees of freedom; up to three nodes
// with arbitrary strings of up to two printable characters as IDs (equal or different), every degree of freedom, every subset
// prescribed; one prescribed value too many (duplicate or unconnected); up to two map iterations in
// any order.
// Two nodes whose IDs begin with the same up to 17 characters, followed by any two characters.
// Larger instances, with symbolic values throughout: one instance of six nodes and eleven or twelve degrees of freedom,
// and one with a prescribed value too many among five to eleven; three numberings in use at the same time; one problem numbered before and after it was changed in one place.

func vxContains(set []Index, idx Index) bool {
	for _, o := range set {
		if o == idx {
			return true
		}
	}
	return false
}

func vxDistinct(in []Index) (out []Index) {
	for _, idx := range in {
		if !vxContains(out, idx) {
			out = append(out, idx)
		}
	}
	return out
}

// vxBefore is the documented order within a group.
func vxBefore(i, j Index) bool {
	return i.NodalID < j.NodalID || i.NodalID == j.NodalID && i.Dof < j.Dof
}

// vxCheckNumbering asserts the numbering of the given used degrees of freedom.
func vxCheckNumbering(lay EqLayout, used, fixed []Index) {
	n := len(used)
	vfCheck("size of the system", lay.eqSize() == n)
	at := make([]int, n)
	for i, idx := range used {
		at[i] = lay.mapOne(idx)
		vfCheck("number is within the system", at[i] >= 0 && at[i] < n)
		vfCheck("constrained ones come first", vxContains(fixed, idx) == (at[i] < len(fixed)))
		if at[i] >= 0 && at[i] < n {
			vfCheck("reverse lookup", lay.unmap(at[i]) == idx)
		}
	}
	vfCheck("no lookup fails", lay.failure() == nil)
	for i := range used {
		for j := 0; j < i; j++ {
			vfCheck("numbers are distinct", at[i] != at[j])
			if vxContains(fixed, used[i]) == vxContains(fixed, used[j]) {
				vfCheck("sorted within the group", (at[i] < at[j]) == vxBefore(used[i], used[j]))
			}
		}
	}
}

func vxPrescribe(p *Problem, used []Index) (fixed []Index) {
	mask := vfInt("mask", 0, 1<<len(used)-1)
	for i, idx := range used {
		if mask>>i&1 == 1 {
			p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx, Value: float64(i)})
			fixed = append(fixed, idx)
		}
	}
	return fixed
}

// VvhC10_Strings: two nodes with arbitrary IDs.
func VvhC10_Strings() {
	a, b := vfStr("a"), vfStr("b")
	p := &Problem{}
	dofs := []Index{{a, vxDofChoice("0", Ux, Phiy)}, {b, vxDofChoice("1", Ux, Uz)}}
	p.Elements = append(p.Elements, &vxBlob{id: "p", dofs: dofs})
	if vfInt("third", 0, 1) == 1 {
		dofs = append(dofs, Index{a, Uz})
		p.Elements = append(p.Elements, &vxBlob{id: "q", dofs: dofs[1:]})
	}
	used := vxDistinct(dofs)
	fixed := vxPrescribe(p, used)
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, used, fixed)
	vfCover("strings" + vfIntStr(len(used)))
}

// VvhC10_Names: two arbitrary IDs in a problem without any other choice.
func VvhC10_Names() {
	a, b := vfStr("a"), vfStr("b")
	vfAssume(a != b && a != "m" && b != "m")
	dofs := []Index{{a, Ux}, {b, Uz}, {b, Ux}, {a, Uz}, {"m", Ux}}
	p := &Problem{Elements: []Element{&vxBlob{id: "p", dofs: dofs}}, Dirichlet: []NodalValue{{Index: dofs[4]}}}
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, dofs, dofs[4:])
	vfCover("names")
}

// VvhC10_ThreeNodes: three nodes with arbitrary IDs.
func VvhC10_ThreeNodes() {
	a, b, c := vfStr("a"), vfStr("b"), vfStr("c")
	p := &Problem{}
	dofs := []Index{{a, Uz}, {b, Ux}, {c, Uz}}
	p.Elements = []Element{&vxBlob{id: "p", dofs: dofs[:2]}, &vxBlob{id: "q", dofs: dofs[1:]}}
	used := vxDistinct(dofs)
	fixed := vxPrescribe(p, used)
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, used, fixed)
	vfCover("nodes" + vfIntStr(len(used)))
}

// VvhC10_Dofs: all pairs of degrees of freedom.
func VvhC10_Dofs() {
	all := []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}
	p := &Problem{}
	dofs := []Index{{"a", vxDofChoice("0", all...)}, {"a", vxDofChoice("1", all...)}, {"b", vxDofChoice("2", Ux, Phix)}}
	p.Elements = []Element{&vxBlob{id: "p", dofs: dofs}}
	used := vxDistinct(dofs)
	fixed := vxPrescribe(p, used)
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, used, fixed)
	vfCover("dofs" + vfIntStr(len(used)))
}

// VvhC10_Order: any iteration order of the maps involved.
func VvhC10_Order() {
	vfMapOrder("full", 2)
	dofs := []Index{{"b", Ux}, {"a", Phiy}, {"b", Uz}, {"a", Ux}}
	p := &Problem{Elements: []Element{&vxBlob{id: "p", dofs: dofs[:3]}, &vxBlob{id: "q", dofs: dofs[2:]}}}
	fixed := vxPrescribe(p, dofs)
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, dofs, fixed)
	vfCover("order")
}

// VvhC10_Defective: a prescribed value that is duplicated or not connected to any element.
func VvhC10_Defective() {
	id := vfStr("id")
	dofs := []Index{{"a", Ux}, {"b", Uz}, {"b", Ux}}
	p := &Problem{Elements: []Element{&vxBlob{id: "p", dofs: dofs}}}
	fixed := vxPrescribe(p, dofs)
	extra := NodalValue{Index: Index{id, vxDofChoice("", Ux, Uz, Uy, Phiy, Phiz, Phix)}, Value: vfF("v")}
	if vfInt("front", 0, 1) == 1 {
		p.Dirichlet = append([]NodalValue{extra}, p.Dirichlet...)
	} else {
		p.Dirichlet = append(p.Dirichlet, extra)
	}
	_, err := NewEqLayout(p)
	bad := vxContains(fixed, extra.Index) || !vxContains(dofs, extra.Index)
	vfCheck("defective prescribed value is an error, no other is", (err != nil) == bad)
	vfCover("defective")
}

// VvhC10_Repeat: the numbering does not depend on listing order, nor on earlier calls.
func VvhC10_Repeat() {
	a, b := vfStr("a"), vfStr("b")
	dofs := []Index{{a, Ux}, {b, Ux}, {a, Uz}}
	e, f := &vxBlob{id: "p", dofs: dofs[:2]}, &vxBlob{id: "q", dofs: dofs[1:]}
	vfAssume(a != b)
	d := []NodalValue{{Index: dofs[0]}, {Index: dofs[1]}}
	l1, err1 := NewEqLayout(&Problem{Elements: []Element{e, f}, Dirichlet: d})
	l2, err2 := NewEqLayout(&Problem{Elements: []Element{f, e}, Dirichlet: []NodalValue{d[1], d[0]}})
	vfCheck("both are accepted", err1 == nil && err2 == nil)
	for _, idx := range dofs {
		vfCheck("same number", l1.mapOne(idx) == l2.mapOne(idx))
	}
	vfCover("repeat")
}

func VvhC10_ManyStrings_Thorough() {
	a, b, c := vfStr("a"), vfStr("b"), vfStr("c")
	p := &Problem{}
	dofs := []Index{{a, vxDofChoice("0", Ux, Phiy)}, {b, vxDofChoice("1", Ux, Uz)}, {c, Ux}, {a, Uz}}
	p.Elements = []Element{&vxBlob{id: "p", dofs: dofs[:2]}, &vxBlob{id: "q", dofs: dofs[2:]}}
	used := vxDistinct(dofs)
	fixed := vxPrescribe(p, used)
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, used, fixed)
	vfCover("many" + vfIntStr(len(used)))
}

// VvhC10_Many: more nodes, whose order as strings is not the one of the numbers in them.
func VvhC10_Many() {
	var dofs []Index
	for i, id := range []string{"n10", "n2", "N3", "n1", "", "n"} {
		dofs = append(dofs, Index{id, Ux}, Index{id, []Dof{Phiy, Uz, Phix}[i%3]})
	}
	dofs[11] = Index{vfStr("s"), Uz}
	p := &Problem{Elements: []Element{
		&vxBlob{id: "p", dofs: dofs[:4]}, &vxBlob{id: "q", dofs: dofs[2:7]},
		&vxBlob{id: "r", dofs: dofs[6:11]}, &vxBlob{id: "s", dofs: []Index{dofs[11], dofs[0], dofs[3], dofs[10]}},
	}}
	used := vxDistinct(dofs)
	mask := []int{0b101010101010, 0b000111000111}[vfInt("mask", 0, 1)]
	var fixed []Index
	for i, idx := range used {
		if mask>>i&1 == 1 {
			p.Dirichlet = append([]NodalValue{{Index: idx, Value: float64(i)}}, p.Dirichlet...)
			fixed = append(fixed, idx)
		}
	}
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, used, fixed)
	vfCover("many" + vfIntStr(len(used)))
}

// VvhC10_ManyDefective: one prescribed value too many among up to eleven, unconnected or a duplicate.
func VvhC10_ManyDefective() {
	ids := []string{"n10", "n2", "N3", "n1", "", "n"}
	var dofs []Index
	for i, id := range ids {
		dofs = append(dofs, Index{id, Ux}, Index{id, []Dof{Phiy, Uz, Phix}[i%3]})
	}
	p := &Problem{Elements: []Element{&vxBlob{id: "p", dofs: dofs[:7]}, &vxBlob{id: "q", dofs: dofs[5:]}}}
	n := []int{5, 9, 11}[vfInt("count", 0, 2)]
	settled := vfInt("settled", 0, 1) == 1
	for i := range n {
		v := NodalValue{Index: dofs[(7*i)%12]}
		if settled {
			v.Value = vfF("u" + vfIntStr(i))
		}
		p.Dirichlet = append(p.Dirichlet, v)
	}
	extra := NodalValue{}
	if vfInt("zero", 0, 1) == 0 {
		extra.Value = vfF("v")
	}
	switch vfInt("which", 0, 2) {
	case 0: // already prescribed
		extra.Index = p.Dirichlet[vfInt("twin", 0, n-1)].Index
		if vfInt("alike", 0, 1) == 1 {
			extra.Value = p.Dirichlet[0].Value
		}
	case 1: // not used at its node
		extra.Index = Index{ids[vfInt("node", 0, 5)], vxDofChoice("", Uy, Phiz)}
	case 2: // no such node
		extra.Index = Index{[]string{"x", "N10", "n3", " n", "2"}[vfInt("id", 0, 4)], Ux}
	}
	at := vfInt("at", 0, 2) * n / 2
	p.Dirichlet = append(p.Dirichlet[:at:at], append([]NodalValue{extra}, p.Dirichlet[at:]...)...)
	_, err := NewEqLayout(p)
	vfCheck("defective prescribed value is an error", err != nil)
	vfCover("defective")
}

// VvhC10_Several: several numberings in use at the same time.
func VvhC10_Several() {
	a, b := vfStr("a"), vfStr("b")
	vfAssume(a != "m" && b != "m")
	ids := [][]string{{a, "m"}, {"m", b}, {"m", "m2", "m10"}}
	var used, fixed [3][]Index
	var lays [3]EqLayout
	for i := range ids {
		p := &Problem{}
		for j, id := range ids[i] {
			used[i] = append(used[i], Index{id, Ux}, Index{id, []Dof{Uz, Phiy, Uy}[j]})
		}
		used[i] = vxDistinct(used[i])
		p.Elements = []Element{&vxBlob{id: "p", dofs: used[i]}}
		fixed[i] = used[i][i : i+1]
		p.Dirichlet = []NodalValue{{Index: fixed[i][0], Value: float64(i)}}
		if i == 2 && vfInt("defective", 0, 1) == 1 {
			p.Dirichlet = append(p.Dirichlet, p.Dirichlet[0])
		}
		lay, err := NewEqLayout(p)
		vfCheck("accepted unless defective", (err == nil) == (len(p.Dirichlet) == 1))
		lays[i] = lay
	}
	for i := range 2 {
		vxCheckNumbering(lays[i], used[i], fixed[i])
	}
	vfCover("several")
}

// VvhC10_Changed: a problem is numbered, changed in one place and numbered again.
func VvhC10_Changed() {
	ids := []string{"a", "b", "c"}
	var used []Index
	for i, id := range ids {
		used = append(used, Index{id, Ux}, Index{id, []Dof{Uz, Phiy, Uy}[i]})
	}
	p := &Problem{Elements: []Element{&vxBlob{id: "p", dofs: used[:4]}, &vxBlob{id: "q", dofs: used[2:]}}}
	fixed := []Index{used[vfInt("fixed", 0, 1)], used[5]}
	for _, idx := range fixed {
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: idx})
	}
	before, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	oldUsed, oldFixed := used, fixed
	used, fixed = append([]Index{}, used...), append([]Index{}, fixed...)
	defect := false
	switch vfInt("change", 0, 8) {
	case 0: // another support in place of one
		fixed[0] = used[vfInt("to", 2, 4)]
		p.Dirichlet[0].Index = fixed[0]
	case 1: // one of the same values in a new list
		fixed[1] = used[vfInt("to", 2, 4)]
		p.Dirichlet = []NodalValue{{Index: fixed[0]}, {Index: fixed[1]}}
	case 2: // one more
		fixed = append(fixed, used[3])
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: used[3], Value: 1})
	case 3: // one less
		fixed = fixed[:1]
		p.Dirichlet = p.Dirichlet[:1]
	case 4: // another element of the same name in place of one
		used[0] = Index{"a0", Ux}
		if fixed[0] == oldUsed[0] {
			fixed[0] = used[0]
			p.Dirichlet[0].Index = used[0]
		}
		p.Elements[0] = &vxBlob{id: "p", dofs: used[:4]}
	case 5: // an element the node of which is named differently
		used[1] = Index{vfStr("a"), Phix}
		vfAssume(fixed[0] == used[0])
		p.Elements[0].(*vxBlob).dofs = used[:4]
	case 6: // one more element
		used = append(used, Index{"b", Phiz}, Index{"0", Ux})
		p.Elements = append(p.Elements, &vxBlob{id: "r", dofs: used[6:]})
	case 7: // the same support twice
		defect = true
		p.Dirichlet[0].Index = p.Dirichlet[1].Index
	case 8: // a support that is not connected
		defect = true
		p.Dirichlet[1].Index = Index{"c", Ux}
		vfAssume(used[4] == p.Dirichlet[1].Index)
		p.Dirichlet[1].Index.Dof = Phix
	}
	after, err := NewEqLayout(p)
	vfCheck("accepted unless defective", (err == nil) != defect)
	vxCheckNumbering(before, oldUsed, oldFixed)
	if !defect {
		vxCheckNumbering(after, used, fixed)
	}
	vfCover("changed")
}

// VvhC10_LongNames: nodes the IDs of which differ only after a long common beginning.
func VvhC10_LongNames() {
	prefix := []string{"n", "node", "northern", "northern-pier-of-"}[vfInt("prefix", 0, 3)]
	a, b := prefix+vfStr("a"), prefix+vfStr("b")
	vfAssume(a != b)
	dofs := []Index{{a, Ux}, {b, Uz}, {b, Ux}, {a, Uz}, {a, Phiy}, {b, Phiy}}
	p := &Problem{Elements: []Element{&vxBlob{id: "p", dofs: dofs}}, Dirichlet: []NodalValue{{Index: dofs[4]}, {Index: dofs[5]}}}
	lay, err := NewEqLayout(p)
	vfCheck("well-formed problem is accepted", err == nil)
	vxCheckNumbering(lay, dofs, dofs[4:])
	vfCover("long names")
}
