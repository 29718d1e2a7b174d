package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: histories of up to three (thorough: four) additions and removals of two load instances, of
// up to two of three instances; every load type with every degree of freedom and a type the package
// does not know; all element kinds, values, positions inside the element and orientations; one hinge
// or none; exact real arithmetic. Five stories in which an element
// (hinged or not) is assembled and interpolated between changes of its loads.
// Larger instances, with symbolic values throughout: six loads of which one or two are removed; up to thirteen additions
// of up to four loads, of which one or two are removed with all copies.

type vxForeign struct{ v float64 }

// vxLoadOf creates a load of any type and degree of freedom, supported or not.
func vxLoadOf(kind int, tag string, first int) (ld *vxLoad, supported bool, which int) {
	which = vfInt("what"+tag, first, 18)
	if which == 18 {
		return &vxLoad{typ: -1, bc: &vxForeign{v: 1}}, false, which
	}
	s := vxSpec{which / 6, []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}[which%6]}
	for _, o := range vxSpecs(kind) {
		if o == s {
			supported = true
		}
	}
	return &vxLoad{typ: s.typ, kind: s.kind}, supported, which
}

// vxFill creates the load itself.
func (ld *vxLoad) vxFill(l float64, tag string) {
	if ld.typ < 0 {
		return
	}
	pos := 0.0
	if ld.typ == vxConc {
		pos = vfPos("pos" + tag)
		vfAssume(pos <= l)
	}
	*ld = *vxNewLoad(vxSpec{ld.typ, ld.kind}, pos, tag)
}

// vxSameBehaviour asserts that the element assembles exactly the given loads.
func (b *vxBar) vxSameBehaviour(label string, loads []*vxLoad, hinges map[Index]struct{}) {
	ref, err := vxNew(b.kind, "ref", b.n0, b.n1, b.mat, hinges)
	vfCheck("element is accepted", err == nil)
	for _, ld := range loads {
		vfCheck("supported load is accepted by the element", ref.AddLoad(ld.bc))
	}
	got, want := vxAssemble(b.el), vxAssemble(ref)
	for _, p := range b.vxDofs() {
		vfEq(label+" (load)", got.load(p), want.load(p))
		for _, q := range b.vxDofs() {
			vfEq(label+" (stiffness)", got.at(p, q), want.at(p, q))
		}
	}
	if len(hinges) > 0 {
		return
	}
	exact := vxGlobalVec(b.vxLocal(), b.vxLocalLoads(loads))
	for i, p := range b.vxDofs() {
		vfEq(label+" (work)", got.load(p), exact[i])
	}
}

func vxHistory(steps int, loads []*vxLoad, ok []bool, b *vxBar, hinges map[Index]struct{}) {
	var left []*vxLoad
	for i := 0; i < steps; i++ {
		op := vfInt("op"+vfIntStr(i), 0, 2*len(loads)-1)
		ld := loads[op/2]
		if op%2 == 0 {
			vfCheck("adding a load reports whether it is supported", b.el.AddLoad(ld.bc) == ok[op/2])
			if ok[op/2] {
				left = append(left, ld)
			}
			continue
		}
		b.el.RemoveLoad(ld.bc)
		var keep []*vxLoad
		for _, o := range left {
			if o != ld {
				keep = append(keep, o)
			}
		}
		left = keep
	}
	b.vxSameBehaviour("element carries exactly the remaining loads", left, hinges)
	vfCover("history")
}

// VvhC15_Any: one load of any kind and a second one, supported.
func VvhC15_Any() {
	kind := vfInt("kind", 0, 2)
	b := vxMake(kind, "", nil)
	one, ok, what := vxLoadOf(kind, "0", 0)
	one.vxFill(b.l, "0")
	specs := vxSpecs(kind)
	s := specs[(what+3*vfInt("spec", 0, 1))%len(specs)]
	if ok && vfInt("alike", 0, 1) == 1 {
		s = vxSpec{one.typ, one.kind}
	}
	two := &vxLoad{typ: s.typ, kind: s.kind}
	two.vxFill(b.l, "1")
	vxHistory(vfInt("steps", 2, 3), []*vxLoad{one, two}, []bool{ok, true}, b, nil)
}

// VvhC15_Three: three different supported loads.
func VvhC15_Three() {
	kind := vfInt("kind", 0, 2)
	b := vxMake(kind, "", nil)
	specs := vxSpecs(kind)
	f := vfInt("spec", 0, len(specs)-1)
	var loads []*vxLoad
	for i := 0; i < 3; i++ {
		s := specs[(f+i)%len(specs)]
		ld := &vxLoad{typ: s.typ, kind: s.kind}
		ld.vxFill(b.l, vfIntStr(i))
		loads = append(loads, ld)
	}
	vxHistory(vfInt("steps", 3, 3), loads, []bool{true, true, true}, b, nil)
}

// VvhC15_Four_Thorough: longer histories.
func VvhC15_Four_Thorough() {
	kind := vfInt("kind", 0, 2)
	b := vxMake(kind, "", nil)
	specs := vxSpecs(kind)
	f := vfInt("spec", 0, len(specs)-1)
	var loads []*vxLoad
	for i := 0; i < 3; i++ {
		s := specs[(f+i)%len(specs)]
		ld := &vxLoad{typ: s.typ, kind: s.kind}
		ld.vxFill(b.l, vfIntStr(i))
		loads = append(loads, ld)
	}
	vxHistory(4, loads, []bool{true, true, true}, b, nil)
}

// VvhC15_Hinged: elements with a hinge.
func VvhC15_Hinged() {
	kind := vfInt("kind", 0, 2)
	hinge := vxIdx([]string{"a", "b"}[vfInt("end", 0, 1)], Ux)
	if kind == vxFrame2d && vfInt("rot", 0, 1) == 1 {
		hinge.Dof = Phiy
	}
	hinges := map[Index]struct{}{hinge: {}}
	b := vxMake(kind, "", hinges)
	specs := vxSpecs(kind)
	f := vfInt("spec", 0, len(specs)-1)
	var loads []*vxLoad
	for i := 0; i < 2; i++ {
		s := specs[(f+i)%len(specs)]
		ld := &vxLoad{typ: s.typ, kind: s.kind}
		ld.vxFill(b.l, vfIntStr(i))
		loads = append(loads, ld)
	}
	vxHistory(vfInt("steps", 2, 3), loads, []bool{true, true}, b, hinges)
}

// VvhC15_Interpolated: internal forces and displacements follow the remaining loads, in any order of
// addition.
func VvhC15_Interpolated() {
	kind := vfInt("kind", 0, 2)
	b := vxMakeLong(kind, "", nil)
	specs := vxSpecs(kind)
	one := vxNewLoadAt(b, specs[vfInt("s0", 0, len(specs)-1)], "0")
	two := vxNewLoadAt(b, specs[vfInt("s1", 0, len(specs)-1)], "1")
	if one.typ == vxConc && two.typ == vxConc {
		vfAssume(two.pos >= one.pos+vxGap)
	}
	ref, err := vxNew(kind, "ref", b.n0, b.n1, b.mat, nil)
	vfCheck("element is accepted", err == nil)
	add := func(e Element, ld *vxLoad) {
		vfCheck("supported load is accepted by the element", e.AddLoad(ld.bc))
	}
	switch vfInt("story", 0, 2) {
	case 0: // the order of loads
		add(b.el, one)
		add(b.el, two)
		add(ref, two)
		add(ref, one)
	case 1: // removed before the other one was added
		add(b.el, one)
		b.el.RemoveLoad(one.bc)
		add(b.el, two)
		add(ref, two)
	case 2: // removed afterwards, with all occurrences
		add(b.el, one)
		add(b.el, two)
		add(b.el, one)
		b.el.RemoveLoad(one.bc)
		add(ref, two)
	}
	s := b.vxDisplaced(nil)
	which := []Fct{FctUx, FctNx}
	if kind == vxFrame2d {
		which = []Fct{FctUx, FctNx, FctUz, FctMy}
	}
	f := which[vfInt("which", 0, len(which)-1)]
	p, q := s.interp(f), ref.Interpolate(s.lay, f, s.d)
	vfCheck("same number of pieces", len(p) == len(q))
	for i := range min(len(p), len(q)) {
		vxSamePiece("same interpolation", p[i], q[i])
	}
	vfCover("interpolated")
}

func vxNewLoadAt(b *vxBar, s vxSpec, tag string) *vxLoad {
	pos := 0.0
	if s.typ == vxConc {
		pos = vfPos("pos" + tag)
		vfAssume(pos >= vxGap)
		vfAssume(pos <= b.l-vxGap)
	}
	return vxNewLoad(s, pos, tag)
}

// VvhC15_Many: one or two of six loads are removed and, perhaps, one of them is added again.
func VvhC15_Many() {
	b := vxMakeLong(vfInt("kind", 0, 2), "", nil)
	loads := b.vxManyLoads()
	first := vfInt("first", 0, len(loads)-1)
	gone := map[int]bool{first: true}
	b.el.RemoveLoad(loads[first].bc)
	switch vfInt("then", 0, 2) {
	case 1:
		second := (first + 2) % len(loads)
		b.el.RemoveLoad(loads[second].bc)
		gone[second] = true
	case 2:
		vfCheck("load is accepted again", b.el.AddLoad(loads[first].bc))
		delete(gone, first)
	}
	var left []*vxLoad
	for i, ld := range loads {
		if !gone[i] {
			left = append(left, ld)
		}
	}
	b.vxSameBehaviour("element carries exactly the remaining loads", left, nil)
	ref, err := vxNew(b.kind, "ref", b.n0, b.n1, b.mat, nil)
	vfCheck("element is accepted", err == nil)
	for i := len(left) - 1; i >= 0; i-- {
		vfCheck("supported load is accepted by the element", ref.AddLoad(left[i].bc))
	}
	s := b.vxDisplaced(nil)
	for _, f := range vxFcts(b.kind)[:2] {
		p, q := s.interp(f), ref.Interpolate(s.lay, f, s.d)
		vfCheck("same number of pieces", len(p) == len(q))
		for i := range min(len(p), len(q)) {
			vxSamePiece("same interpolation", p[i], q[i])
		}
	}
	vfCover("many")
}

// VvhC15_Copies: some loads of many were added several times, next to each other or apart; they
// disappear with all copies, the others remain.
func VvhC15_Copies() {
	b := vxMakeLong(vfInt("kind", 0, 2), "", nil)
	specs := vxSpecs(b.kind)
	var loads []*vxLoad
	for i := range 4 {
		loads = append(loads, vxNewLoad(vxSpec{vxConst + i%2, specs[len(specs)-1-(i/2)%2].kind}, 0, vfIntStr(i)))
	}
	n := vfInt("n", 2, 4)
	loads = loads[:n]
	order := [][]int{
		{0, 1, 0}, {0, 0, 1}, {1, 0, 0}, {0, 0, 0, 1}, {1, 0, 1, 0}, {0, 1, 2, 0, 3}, {0, 0, 1, 2, 3}, {1, 2, 3, 0, 0}, {1, 0, 2, 0, 3, 0},
		{0, 1, 0, 2, 0, 3, 0}, {3, 2, 1, 0, 1, 2, 3}, {0, 0, 0, 0, 1, 1, 1}, {1, 1, 0, 1, 1, 0, 2, 2, 0},
	}[vfInt("order", 0, 12)]
	gone := []bool{false, false, false, false}
	switch vfInt("gone", 0, 2) {
	case 0:
		gone[0] = true
	case 1:
		gone[1] = true
	case 2:
		gone[0], gone[1] = true, true
	}
	var left []*vxLoad
	for _, k := range order {
		if k >= n {
			continue
		}
		vfCheck("supported load is accepted by the element", b.el.AddLoad(loads[k].bc))
		if !gone[k] {
			left = append(left, loads[k])
		}
	}
	for k := range loads {
		if gone[k] {
			b.el.RemoveLoad(loads[k].bc)
		}
	}
	b.vxSameBehaviour("element carries exactly the remaining loads", left, nil)
	vfCover("copies")
}

// VvhC15_Watched: the element is used while its loads change.
func VvhC15_Watched() {
	kind := vfInt("kind", 0, 2)
	hinges := map[Index]struct{}{}
	if vfInt("hinge", 0, 1) == 1 {
		hinges[vxIdx("b", vxHingeDof(kind))] = struct{}{}
	}
	b := vxMakeLong(kind, "", hinges)
	specs := vxSpecs(kind)
	i := vfInt("s0", 0, len(specs)-1)
	one := vxNewLoadAt(b, specs[i], "0")
	two := vxNewLoadAt(b, specs[(i+vfInt("s1", 0, 1))%len(specs)], "1")
	if one.typ == vxConc && two.typ == vxConc {
		vfAssume(two.pos >= one.pos+vxGap)
	}
	n := len(b.vxDofs())
	vec := mat.NewVecDense(n, nil)
	for i := range n {
		vec.SetVec(i, vfF("d"+vfIntStr(i)))
	}
	fcts := vxFcts(kind)
	use := func() {
		vxAssemble(b.el)
		b.el.Interpolate(vxLayout(b.el), fcts[0], vec)
		b.el.Interpolate(vxLayout(b.el), fcts[len(fcts)-1], vec)
	}
	add := func(e Element, ld *vxLoad) {
		vfCheck("supported load is accepted by the element", e.AddLoad(ld.bc))
	}
	var left []*vxLoad
	switch vfInt("story", 0, 4) {
	case 0: // replaced
		add(b.el, one)
		use()
		b.el.RemoveLoad(one.bc)
		add(b.el, two)
		left = []*vxLoad{two}
	case 1: // taken away
		add(b.el, one)
		use()
		b.el.RemoveLoad(one.bc)
	case 2: // added
		use()
		add(b.el, one)
		left = []*vxLoad{one}
	case 3:
		add(b.el, one)
		use()
		add(b.el, one)
		left = []*vxLoad{one, one}
	case 4:
		add(b.el, one)
		add(b.el, two)
		use()
		b.el.RemoveLoad(one.bc)
		use()
		add(b.el, two)
		left = []*vxLoad{two, two}
	}
	b.vxSameBehaviour("element carries exactly the present loads", left, hinges)
	ref, err := vxNew(kind, "ref", b.n0, b.n1, b.mat, hinges)
	vfCheck("element is accepted", err == nil)
	for _, ld := range left {
		add(ref, ld)
	}
	lay := vxLayout(ref)
	f := []Fct{fcts[0], fcts[len(fcts)-1]}[vfInt("which", 0, 1)]
	p, q := b.el.Interpolate(lay, f, vec), ref.Interpolate(lay, f, vec)
	vfCheck("same number of pieces", len(p) == len(q))
	for i := range min(len(p), len(q)) {
		vxSamePiece("interpolation follows the present loads", p[i], q[i])
	}
	vfCover("watched")
}
