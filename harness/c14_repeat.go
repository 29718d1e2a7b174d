package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: histories of up to three solutions on one solver instance over generic problems of
// dimension 2 to 4 with one or two prescribed degrees of freedom, with and without inclined supports
// (also the same support object in a problem that grew or in different problems of equal size), interrupted by failing solutions; all
// coefficients; real elements of every kind with one hinge and one load assembled and interpolated
// repeatedly; compared with a fresh solver per problem; exact real arithmetic. Equal systems are
// assumed to get equal answers from the equation solver; also the Cholesky solver itself, used for two
// problems of dimension three.
// Larger instances, with symbolic values throughout: histories of six solutions of five problems in three orders, one of them failing.
// One result of a loaded beam whose interpolations are kept while 150 later ones are made.
// Elements handed over in either order, with names of different lengths, are still in it afterwards.

type vxTask struct {
	p    *Problem
	dofs []Index
	d, r map[Index]float64
}

// vxNewTask is a problem with dim degrees of freedom, the first ones prescribed.
func vxNewTask(tag string, dim, fix int, inclined bool) *vxTask {
	t := &vxTask{dofs: []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}, {"b", Uz}}[:dim]}
	t.p = &Problem{Elements: []Element{vxNewBlob(tag, t.dofs...)}}
	for i, idx := range t.dofs {
		switch {
		case i < fix:
			t.p.Dirichlet = append(t.p.Dirichlet, NodalValue{Index: idx, Value: vfF("u" + tag)})
		case inclined && i == dim-2:
			k := vxSkid0(t.p, idx, t.dofs[i+1], tag)
			t.p.EqTransforms = append(t.p.EqTransforms, k)
		case inclined && i == dim-1:
		default:
			t.p.Neumann = append(t.p.Neumann, NodalValue{Index: idx, Value: vfSlack("f" + tag)})
		}
	}
	return t
}

// vxSkid0 creates an inclined support with a slack load along its sliding direction.
func vxSkid0(p *Problem, from, to Index, tag string) Transformer {
	c, s, angle := vxAngleOf(tag)
	load := vfSlack("along" + tag)
	p.Neumann = append(p.Neumann, NodalValue{Index: from, Value: c * load}, NodalValue{Index: to, Value: s * load})
	tr, bc := NewInclinedSupport(from, to, angle)
	p.Dirichlet = append(p.Dirichlet, bc)
	return tr
}

func (t *vxTask) solve(s ProblemSolver, e EquationSolver) ProblemResult {
	lay, err := NewEqLayout(t.p)
	vfCheck("numbering succeeds", err == nil)
	res, err := s.Solve(t.p, lay, e)
	vfCheck("solving succeeds", err == nil)
	if err != nil {
		return nil
	}
	return res
}

// remember keeps the values of a result.
func (t *vxTask) remember(res ProblemResult) {
	t.d, t.r = map[Index]float64{}, map[Index]float64{}
	for _, idx := range t.dofs {
		t.d[idx], t.r[idx] = vxPrimary(res, idx), vxReaction(res, idx)
	}
}

func (t *vxTask) same(label string, res ProblemResult) {
	for _, idx := range t.dofs {
		vfEq("same displacement: "+label, vxPrimary(res, idx), t.d[idx])
		vfEq("same reaction: "+label, vxReaction(res, idx), t.r[idx])
	}
	total, net := res.Dimension()
	vfCheck("same dimension: "+label, total == len(t.dofs) && net == len(t.dofs)-len(t.p.Dirichlet))
	all := res.PrimaryAll()
	vfCheck("same number of values: "+label, len(all) == len(t.dofs))
	for _, v := range all {
		vfEq("same listed displacement: "+label, v.Value, t.d[v.Index])
	}
	for _, v := range res.ReactionAll() {
		vfEq("same listed reaction: "+label, v.Value, t.r[v.Index])
	}
}

// VvhC14_History: first, second and again the first problem on one instance.
func VvhC14_History() {
	one := vxNewTask("p", vfInt("dim", 2, 3), 1, false)
	fix := vfInt("fix", 1, 2)
	two := vxNewTask("q", vfInt("dim2", max(2, fix+1), 4), fix, false)
	eq := &vxSolver{}
	r1 := one.solve(NewLinearProblemSolver(), eq)
	r2 := two.solve(NewLinearProblemSolver(), eq)
	if r1 == nil || r2 == nil {
		return
	}
	one.remember(r1)
	two.remember(r2)
	s := NewLinearProblemSolver()
	h1 := one.solve(s, eq)
	if h1 == nil {
		return
	}
	one.same("first solution", h1)
	h2 := two.solve(s, eq)
	if h2 == nil {
		return
	}
	two.same("second solution", h2)
	one.same("earlier result after another solution", h1)
	h3 := one.solve(s, eq)
	if h3 == nil {
		return
	}
	one.same("solved again", h3)
	two.same("earlier result after solving again", h2)
	one.same("fresh result after other solutions", r1)
	vfCover("history")
}

// VvhC14_Inclined: the same with inclined supports.
func VvhC14_Inclined() {
	one := vxNewTask("p", 3, 1, vfInt("incl1", 0, 1) == 1)
	two := vxNewTask("q", vfInt("dim2", 3, 4), 1, vfInt("incl2", 0, 1) == 1)
	eq := &vxSolver{}
	r1, r2 := one.solve(NewLinearProblemSolver(), eq), two.solve(NewLinearProblemSolver(), eq)
	if r1 == nil || r2 == nil {
		return
	}
	one.remember(r1)
	two.remember(r2)
	s := NewLinearProblemSolver()
	h1 := one.solve(s, eq)
	h2 := two.solve(s, eq)
	h3 := one.solve(s, eq)
	if h1 == nil || h2 == nil || h3 == nil {
		return
	}
	one.same("earlier result after another solution", h1)
	two.same("second solution", h2)
	one.same("solved again", h3)
	vfCover("inclined")
}

// VvhC14_AfterFailure: a solution that fails does not affect the next one.
func VvhC14_AfterFailure() {
	one := vxNewTask("p", vfInt("dim", 2, 3), 1, false)
	eq := &vxSolver{}
	r1 := one.solve(NewLinearProblemSolver(), eq)
	if r1 == nil {
		return
	}
	one.remember(r1)
	s := NewLinearProblemSolver()
	bad := vxNewTask("q", vfInt("dim2", 2, 4), 1, false)
	lay, err := NewEqLayout(bad.p)
	vfCheck("numbering succeeds", err == nil)
	before := vfInt("before", 0, 1) == 1
	if before {
		if h := one.solve(s, eq); h == nil {
			return
		}
	}
	switch vfInt("failure", 0, 2) {
	case 0:
		_, err = s.Solve(bad.p, lay, &vxSolver{fails: true})
	case 1:
		bad.p.Neumann = append(bad.p.Neumann, NodalValue{Index: vxIdx("z", Ux), Value: 1})
		_, err = s.Solve(bad.p, lay, eq)
	case 2:
		bad.p.Dirichlet = nil
		for _, idx := range bad.dofs {
			bad.p.Dirichlet = append(bad.p.Dirichlet, NodalValue{Index: idx, Value: 1})
		}
		_, err = s.Solve(bad.p, lay, eq)
	}
	vfCheck("failing solution is an error", err != nil)
	h := one.solve(s, eq)
	if h == nil {
		return
	}
	one.same("after a failure", h)
	one.same("fresh result", r1)
	vfCover("failure")
}

// VvhC14_Growing: an inclined support object in a problem to which an element was added.
func VvhC14_Growing() {
	dofs := []Index{{"a", Ux}, {"b", Ux}, {"b", Uz}}
	eq := &vxSolver{}
	one := &vxTask{p: &Problem{Elements: []Element{vxNewBlob("p", dofs...)}}, dofs: dofs}
	one.p.Dirichlet = []NodalValue{{Index: dofs[0], Value: vfF("u")}}
	c, s, angle := vxAngleOf("")
	tr, bc := NewInclinedSupport(dofs[1], dofs[2], angle)
	load := func(p *Problem, tag string) {
		f := vfSlack("along" + tag)
		p.Neumann = append(p.Neumann, NodalValue{Index: dofs[1], Value: c * f}, NodalValue{Index: dofs[2], Value: s * f})
	}
	one.p.Dirichlet = append(one.p.Dirichlet, bc)
	one.p.EqTransforms = []Transformer{tr}
	load(one.p, "1")
	more := Index{"c", Ux}
	two := &vxTask{dofs: append(append([]Index{}, dofs...), more), p: &Problem{
		Elements:  []Element{one.p.Elements[0], vxNewBlob("q", dofs[1], more)},
		Dirichlet: one.p.Dirichlet, EqTransforms: one.p.EqTransforms,
		Neumann: []NodalValue{{Index: more, Value: vfSlack("f")}}}}
	load(two.p, "2")
	order := []*vxTask{one, two}
	if vfInt("shrink", 0, 1) == 1 {
		order = []*vxTask{two, one}
	}
	r1 := order[0].solve(NewLinearProblemSolver(), eq)
	if r1 == nil {
		return
	}
	order[0].remember(r1)
	r2 := order[1].solve(NewLinearProblemSolver(), eq)
	if r2 == nil {
		return
	}
	order[0].same("earlier result after another solution", r1)
	vxEquilibrium(order[1].p, r2, order[1].dofs)
	vfEq("no displacement along the blocked direction", -s*vxPrimary(r2, dofs[1])+c*vxPrimary(r2, dofs[2]), 0)
	vfCover("growing")
}

// VvhC14_SharedSupport: the same inclined support in different problems of equal size, where some
// stiffness coefficients may vanish.
func VvhC14_SharedSupport() {
	dofs := []Index{{"a", Ux}, {"b", Ux}, {"b", Uz}, {"c", Ux}}[:vfInt("dim", 3, 4)]
	c, s, angle := vxAngleOf("")
	tr, bc := NewInclinedSupport(dofs[1], dofs[2], angle)
	eq := &vxSolver{}
	var tasks []*vxTask
	for i := range 2 {
		tag := []string{"p", "q"}[i]
		el := vxNewBlob(tag, dofs...)
		for _, m := range []int{0, 3} {
			if m < len(dofs) && vfInt("uncoupled"+tag+vfIntStr(m), 0, 1) == 1 {
				for _, n := range []int{1, 2} {
					el.k[m][n], el.k[n][m] = 0, 0
				}
			}
		}
		p := &Problem{Elements: []Element{el}, EqTransforms: []Transformer{tr}}
		p.Dirichlet = []NodalValue{{Index: dofs[0], Value: vfF("u" + tag)}, bc}
		f := vfSlack("along" + tag)
		p.Neumann = []NodalValue{{Index: dofs[1], Value: c * f}, {Index: dofs[2], Value: s * f}}
		if len(dofs) > 3 {
			p.Neumann = append(p.Neumann, NodalValue{Index: dofs[3], Value: vfSlack("f" + tag)})
		}
		tasks = append(tasks, &vxTask{p: p, dofs: dofs})
	}
	r1 := tasks[0].solve(NewLinearProblemSolver(), eq)
	if r1 == nil {
		return
	}
	tasks[0].remember(r1)
	r2 := tasks[1].solve(NewLinearProblemSolver(), eq)
	if r2 == nil {
		return
	}
	tasks[0].same("earlier result after another solution", r1)
	vxEquilibrium(tasks[1].p, r2, dofs)
	vfEq("no displacement along the blocked direction", -s*vxPrimary(r2, dofs[1])+c*vxPrimary(r2, dofs[2]), 0)
	vfCover("shared")
}

// VvhC14_Unaltered: neither solving nor querying alters the problem.
func VvhC14_Unaltered() {
	t := vxNewTask("p", vfInt("dim", 3, 4), 1, vfInt("incl", 0, 1) == 1)
	el := t.p.Elements[0].(*vxBlob)
	x := vfPos("l")
	vfAssume(x >= vxGap)
	el.ps = map[Fct]PolySequence{FctNx: {{X0: 0, XE: x, Coeff: []float64{vfF("n0"), vfF("n1")}}}}
	kept := vxCopySeq(el.ps[FctNx])
	name := []string{"a long name", "0"}[vfInt("name", 0, 1)]
	other := vxNewBlob(name, t.dofs[len(t.dofs)-1])
	if vfInt("second", 0, 1) == 0 {
		el, other = other, el
		t.p.Elements[0] = el
		el.ps, other.ps = other.ps, nil
	}
	t.p.Elements = append(t.p.Elements, other)
	// listed in another order than that of the names
	t.p.Nodes = []Node{{ID: "b", Z: vfF("z")}, {ID: "a", X: vfF("x")}}
	for i, j := 0, len(t.p.Neumann)-1; i < j; i, j = i+1, j-1 {
		t.p.Neumann[i], t.p.Neumann[j] = t.p.Neumann[j], t.p.Neumann[i]
	}
	t.p.Dirichlet = append([]NodalValue{{Index: Index{"b", Uz}, Value: 0}}, t.p.Dirichlet...)
	if len(t.p.EqTransforms) > 0 || len(t.dofs) < 4 {
		t.p.Dirichlet = t.p.Dirichlet[1:]
	} else {
		t.p.Neumann = t.p.Neumann[1:]
	}
	nodes := append([]Node{}, t.p.Nodes...)
	neumann := append([]NodalValue{}, t.p.Neumann...)
	dirichlet := append([]NodalValue{}, t.p.Dirichlet...)
	k, r := vxCopyMat(el.k), append([]float64{}, el.r...)
	s := NewLinearProblemSolver()
	if vfInt("again", 0, 1) == 1 {
		if t.solve(s, &vxSolver{}) == nil {
			return
		}
	}
	res := t.solve(s, &vxSolver{})
	if res == nil {
		return
	}
	for range 2 {
		res.PrimaryAll()
		res.ReactionAll()
	}
	_, err := res.Interpolate(el.ID(), FctNx, 1e-9)
	vfCheck("interpolation succeeds", err == nil)
	vfCheck("everything is interpolated", len(res.InterpolateAll(1e-9)) == 1)
	vfCheck("same number of entries", len(t.p.Nodes) == 2 && len(t.p.Elements) == 2 && t.p.Elements[0] == Element(el) && t.p.Elements[1] == Element(other) &&
		len(t.p.Neumann) == len(neumann) && len(t.p.Dirichlet) == len(dirichlet))
	for i := range nodes {
		vfCheck("same node", t.p.Nodes[i] == nodes[i])
	}
	for i := range neumann {
		vfCheck("same loaded degree of freedom", t.p.Neumann[i].Index == neumann[i].Index)
		vfEq("same nodal load", t.p.Neumann[i].Value, neumann[i].Value)
	}
	for i := range dirichlet {
		vfCheck("same prescribed degree of freedom", t.p.Dirichlet[i].Index == dirichlet[i].Index)
		vfEq("same prescribed value", t.p.Dirichlet[i].Value, dirichlet[i].Value)
	}
	for i := range r {
		vfEq("same element load", el.r[i], r[i])
		for j := range r {
			vfEq("same element stiffness", el.k[i][j], k[i][j])
		}
	}
	for i := range kept {
		vxSamePiece("same interpolation of the element", el.ps[FctNx][i], kept[i])
	}
	vfCover("unaltered")
}

// VvhC14_Elements: using an element changes neither the element nor its loads.
func VvhC14_Elements() {
	kind := vfInt("kind", 0, 2)
	hinges := map[Index]struct{}{}
	switch vfInt("hinge", 0, 2) {
	case 1:
		hinges[vxIdx("a", vxHingeDof(kind))] = struct{}{}
	case 2:
		hinges[vxIdx("b", vxHingeDof(kind))] = struct{}{}
	}
	b := vxMakeLong(kind, "", hinges)
	vfCheck("element is accepted", b.err == nil)
	if b.err != nil {
		return
	}
	ld := b.vxAnyLoads(1, vxSpecs(kind))
	first := vxAssemble(b.el)
	s := b.vxDisplaced(ld)
	which := []Fct{FctUx, FctNx}
	if kind == vxFrame2d {
		which = append(which, FctUz, FctPhiy, FctMy, FctVz)
	}
	f := which[vfInt("which", 0, len(which)-1)]
	one := s.interp(f)
	before := vxCopySeq(one)
	s.interp(which[vfInt("other", 0, len(which)-1)])
	two := s.interp(f)
	vfCheck("same number of pieces", len(one) == len(two) && len(one) == len(before))
	for i := range before {
		vxSamePiece("same interpolation again", two[i], before[i])
		vxSamePiece("earlier interpolation unaltered", one[i], before[i])
	}
	second := vxAssemble(b.el)
	for _, p := range b.vxDofs() {
		vfEq("same assembled load again", second.load(p), first.load(p))
		for _, q := range b.vxDofs() {
			vfEq("same assembled stiffness again", second.at(p, q), first.at(p, q))
		}
	}
	vfCover("elements")
}

// VvhC14_Many: six solutions on one instance, of growing and shrinking problems, one of them failing.
func VvhC14_Many() {
	incl := vfInt("inclined", 0, 1) == 1
	tasks := []*vxTask{
		vxNewTask("p", 3, 1, false), vxNewTask("q", 4, 2, incl), vxNewTask("r", 2, 1, false),
		vxNewTask("s", 4, 1, incl), vxNewTask("t", 3, 2, false),
	}
	var eqs []*vxSolver
	for _, t := range tasks {
		eq := &vxSolver{}
		eqs = append(eqs, eq)
		r := t.solve(NewLinearProblemSolver(), eq)
		if r == nil {
			return
		}
		t.remember(r)
	}
	which := vfInt("order", 0, 2)
	order := [][]int{{0, 1, 2, 3, 4, 0}, {1, 0, 1, 4, 2, 3}, {3, 3, 2, 1, 2, 0}}[which]
	fail := []int{2, 5, -1}[which]
	s := NewLinearProblemSolver()
	var results []ProblemResult
	for i, k := range order {
		if i == fail {
			bad := vxNewTask("b", 4, 1, false)
			lay, err := NewEqLayout(bad.p)
			vfCheck("numbering succeeds", err == nil)
			_, err = s.Solve(bad.p, lay, &vxSolver{fails: true})
			vfCheck("failing solution is an error", err != nil)
		}
		r := tasks[k].solve(s, eqs[k])
		if r == nil {
			return
		}
		results = append(results, r)
	}
	for i, k := range order {
		tasks[k].same("in a long history", results[i])
	}
	vfCover("many")
}

// VvhC14_Cholesky: one Cholesky solver for several problems, as if there was one for each of them.
func VvhC14_Cholesky() {
	n := 2
	dofs := []Index{{"a", Ux}, {"a", Uz}, {"b", Ux}}
	var tasks []*vxTask
	eq := NewCholeskySolver()
	s := NewLinearProblemSolver()
	alike := vfInt("alike", 0, 3)
	var first *vxBlob
	for _, tag := range []string{"p", "q"} {
		el := vxNewBlob(tag, dofs...)
		d0, d1, l := vfPos("d0"+tag), vfPos("d1"+tag), vfF("l"+tag)
		if first != nil {
			switch alike {
			case 1: // the same diagonal
				d0 = first.k[1][1]
				d1 = first.k[2][2] - l*l*d0
				vfAssume(d1 > 0)
			case 2: // the same matrix but for the last entry
				d0 = first.k[1][1]
				l = first.k[1][2] / d0
			case 3: // the same matrix
				for i := range el.k {
					copy(el.k[i], first.k[i])
				}
			}
		}
		if first == nil || alike < 3 {
			el.k[1][1], el.k[1][2], el.k[2][1], el.k[2][2] = d0, l*d0, l*d0, l*l*d0+d1
		}
		if first == nil {
			first = el
		}
		p := &Problem{Elements: []Element{el}, Dirichlet: []NodalValue{{Index: dofs[0], Value: vfF("u" + tag)}}}
		for i := range n {
			p.Neumann = append(p.Neumann, NodalValue{Index: dofs[i+1], Value: vfF("f" + vfIntStr(i) + tag)})
		}
		t := &vxTask{p: p, dofs: dofs}
		lay, err := NewEqLayout(p)
		vfCheck("numbering succeeds", err == nil)
		fresh, err := NewLinearProblemSolver().Solve(p, lay, NewCholeskySolver())
		if vfNative() {
			vfAssume(err == nil)
		}
		vfCheck("solving succeeds", err == nil)
		if err != nil {
			return
		}
		t.remember(fresh)
		tasks = append(tasks, t)
	}
	for _, k := range [][]int{{0, 1}, {0, 1, 0}, {1, 1, 0}}[vfInt("order", 0, 2)] {
		res := tasks[k].solve(s, eq)
		if res == nil {
			return
		}
		tasks[k].same("same equation solver", res)
	}
	vfCover("cholesky")
}

// VvhC14_Kept: an interpolation that is in use while very many others are queried.
func VvhC14_Kept() {
	kind := []int{vxTruss2d, vxFrame2d}[vfInt("kind", 0, 1)]
	n0, n1 := &Node{ID: "a"}, &Node{ID: "b", X: 2}
	m := &Material{CrossSection: &vxCS{a: 2, iyy: 3, izz: 5}, LinearElastic: LinearElastic{YoungsModulus: 7}}
	e, err := vxNew(kind, "ab", n0, n1, m, nil)
	vfCheck("element is accepted", err == nil)
	dof := Ux
	which := []Fct{FctNx, FctUx}
	if kind == vxFrame2d {
		dof = Uz
		which = []Fct{FctMy, FctVz, FctUz, FctPhiy}
	}
	load, _ := NewElementConcentratedLoad(dof, 1, vfF("f"))
	vfCheck("load is accepted", e.AddLoad(NewElementConstantLoad(dof, vfF("q"))) && e.AddLoad(load))
	lay := vxLayout(e)
	d := mat.NewVecDense(lay.eqSize(), nil)
	for i := range lay.eqSize() {
		d.SetVec(i, vfF("d"+vfIntStr(i)))
	}
	f := which[vfInt("function", 0, len(which)-1)]
	kept := e.Interpolate(lay, f, d)
	before := vxCopySeq(kept)
	// later queries are those of another element
	g, err := vxNew(kind, "cd", &Node{ID: "a"}, &Node{ID: "b", X: 4}, m, nil)
	vfCheck("element is accepted", err == nil)
	load, _ = NewElementConcentratedLoad(dof, 3, 5)
	vfCheck("load is accepted", g.AddLoad(NewElementConstantLoad(dof, 11)) && g.AddLoad(load))
	glay := vxLayout(g)
	gd := mat.NewVecDense(glay.eqSize(), nil)
	gd.SetVec(0, 13)
	for i := range 150 {
		g.Interpolate(glay, which[i%len(which)], gd)
	}
	vfCheck("same number of pieces", len(kept) == len(before))
	for i := range before {
		vxSamePiece("earlier interpolation unaltered", kept[i], before[i])
	}
	vfCover("kept")
}
