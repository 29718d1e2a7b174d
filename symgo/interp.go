package main

import (
	"regexp"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// program holds what is shared by all paths.
type program struct {
	prog     *ssa.Program
	main     *ssa.Package
	sizes    types.Sizes
	initPkgs []*ssa.Package // packages whose init is interpreted (dependency order)
	allowed  map[*ssa.Package]bool
	mu       sync.Mutex
	encoded  map[string]bool // functions of the implementation executed symbolically
	unsup    map[string]int
}

type deferred struct {
	fn    value
	args  []value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	m                *machine
	caller           *frame
	fn               *ssa.Function
	block, prevBlock *ssa.BasicBlock
	env              map[ssa.Value]value
	result           value
	defers           *deferred
	panicking        bool
	panic            any
	depth            int
	pos              token.Pos
}

type logEntry struct {
	kind, label string
	a, b        *Term
	tol         float64
}

type inputRec struct {
	name string
	kind string // real, pos, fp, str, int, angle
	t    *Term  // for symbolic ones
	t2   *Term
	i    int
	b    bool
	def  bool // slack: value is computed from its definition
}

// machine executes one path.
type machine struct {
	p       *program
	ex      *explorer
	w       *worker
	c       *tctx
	fpMode  bool
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	pc      []*Term
	prefix  []int
	trace   []int
	steps   int
	maxStep int
	inputs  []*inputRec
	names   map[string]int
	log     []logEntry
	mapPol  string // "fixed", "rot", "full"
	mapBud  int
	fnSeen  map[*ssa.Function]bool
	fresh   int
	desc    []string // human readable decisions
	harness string
	docs    []*docState
	decoders map[*value]*jsonDecState
	regexps map[*value]*regexp.Regexp
	tFailed int // calls of failing methods of *testing.T
	exclDiv bool
	stack   int
	sb      map[*value]value
	phase   string
	badCond bool // condition estimates are hopeless

	angles     map[string]*Term // results of inverse trigonometric and rounding functions
	strVal     map[*Term]string // strings fixed on this path
	strOrder   []*Term
	strSpecial int
	forcing    bool
}

func (m *machine) runtimePanic(msg string) {
	if os.Getenv("SYMGO_PANICS") != "" {
		fmt.Println("panic:", msg)
	}
	panic(targetPanic{v: iface{m.p.runtimeErrType(), "runtime error: " + msg}})
}

func (p *program) runtimeErrType() types.Type { return types.Universe.Lookup("string").Type() }

func (fr *frame) get(key ssa.Value) value {
	switch key := key.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return key
	case *ssa.Builtin:
		return key
	case *ssa.Const:
		return fr.m.constValue(key)
	case *ssa.Global:
		return fr.m.global(key)
	}
	if r, ok := fr.env[key]; ok {
		return r
	}
	panic(fmt.Sprintf("get: no value for %T: %v", key, key.Name()))
}

func (m *machine) global(g *ssa.Global) value {
	if a, ok := m.globals[g]; ok {
		return a
	}
	if !m.p.allowed[g.Pkg] {
		if v, ok := m.externGlobal(g); ok {
			a := new(value)
			*a = v
			m.globals[g] = a
			return a
		}
		panic(pathUnsupported{"global of uninitialised package: " + g.String()})
	}
	a := new(value)
	*a = m.zero(deref(g.Type()))
	m.globals[g] = a
	return a
}

func (m *machine) call(caller *frame, pos token.Pos, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return m.callSSA(caller, pos, fn, args, nil)
	case *closure:
		if fn == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return m.callSSA(caller, pos, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return m.callBuiltin(caller, fn, args, pos)
	case hostFunc:
		return fn(m, caller, args)
	}
	panic(fmt.Sprintf("cannot call %T", fn))
}

type hostFunc func(m *machine, caller *frame, args []value) value

const maxDepth = 3000

func (m *machine) callSSA(caller *frame, pos token.Pos, fn *ssa.Function, args []value, env []value) value {
	if in := lookupIntrinsic(fn); in != nil {
		return in(m, caller, fn, args)
	}
	if fn.Blocks == nil && fn.Synthetic == "package initializer" || fn.Name() == "init" && fn.Blocks == nil {
		return nil
	}
	if fn.Blocks == nil {
		panic(pathUnsupported{"no body: " + fn.String() + " <- " + caller.chain()})
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil {
		// wrapper / thunk / bound: belongs to the method's package
	} else if fn.Synthetic == "package initializer" {
		if !m.p.allowed[pkg] {
			return nil
		}
		if !strings.Contains(pkg.Pkg.Path(), ".") { // standard library: as far as it can be encoded
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(pathUnsupported); !ok {
						panic(r)
					}
				}
			}()
		}
	} else if denied(pkg.Pkg.Path()) {
		panic(pathUnsupported{"function outside the encodable part: " + fn.String() + " <- " + caller.chain()})
	}
	if !m.fnSeen[fn] {
		m.fnSeen[fn] = true
	}
	m.stack++
	if m.stack > maxDepth {
		m.stack = 0
		panic(pathUnsupported{"call depth exceeded (unbounded recursion?)"})
	}
	defer func() { m.stack-- }()
	fr := &frame{m: m, caller: caller, fn: fn, env: make(map[ssa.Value]value, 16), block: fn.Blocks[0]}
	for _, l := range fn.Locals {
		a := new(value)
		*a = m.zero(deref(l.Type()))
		fr.env[l] = a
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for fr.block != nil {
		m.runFrame(fr)
	}
	return fr.result
}

func (m *machine) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			switch x := r.(type) {
			case pathUnsupported, pathInfeasible, pathStop, targetGoexit:
				panic(r)
			default:
				panic(enginePanic(x, fr))
			}
		}
		if tp.pos == "" {
			tp.pos = posString(m.p.prog.Fset, fr.pos)
		}
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
	}()
	for {
		nonPhis := executePhis(fr)
		for _, instr := range nonPhis {
			m.steps++
			if m.steps > m.maxStep {
				panic(pathStop{"step bound exceeded"})
			}
			if p := instr.Pos(); p.IsValid() {
				fr.pos = p
			}
			if fr.fn.Synthetic == "package initializer" {
				if m.visitInit(fr, instr) {
					return
				}
			} else if m.visit(fr, instr) {
				return
			}
			if fr.block == nil {
				return
			}
		}
	}
}

type engineErr struct {
	msg string
}

func enginePanic(x any, fr *frame) any {
	if e, ok := x.(engineErr); ok {
		return e
	}
	msg := fmt.Sprintf("%v", x)
	for f, i := fr, 0; f != nil && i < 12; f, i = f.caller, i+1 {
		msg += fmt.Sprintf("\n    in %s at %s", f.fn, posString(f.m.p.prog.Fset, f.pos))
	}
	if os.Getenv("SYMGO_DEBUG") != "" {
		panic(x)
	}
	return engineErr{msg}
}

func executePhis(fr *frame) []ssa.Instruction {
	first := -1
	for i, instr := range fr.block.Instrs {
		if _, ok := instr.(*ssa.Phi); !ok {
			first = i
			break
		}
	}
	nonPhis := fr.block.Instrs[first:]
	if first > 0 {
		phis := fr.block.Instrs[:first]
		idx := 0
		for fr.block.Preds[idx] != fr.prevBlock {
			idx++
		}
		tmp := make([]value, len(phis))
		for i, phi := range phis {
			tmp[i] = fr.get(phi.(*ssa.Phi).Edges[idx])
		}
		for i, phi := range phis {
			fr.env[phi.(*ssa.Phi)] = tmp[i]
		}
	}
	return nonPhis
}

func (fr *frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			tp, isT := r.(targetPanic)
			if !isT {
				panic(r)
			}
			fr.panicking = true
			fr.panic = tp
		}
	}()
	fr.m.call(fr, d.instr.Pos(), d.fn, d.args)
	ok = true
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = d.tail {
		fr.runDefer(d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panic)
	}
}

func (m *machine) doRecover(caller *frame) value {
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		caller.caller.panicking = false
		p := caller.caller.panic
		caller.caller.panic = nil
		return p.(targetPanic).v
	}
	return iface{}
}

func (m *machine) ptr(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(pathUnsupported{fmt.Sprintf("pointer expected, got %T", v)})
	}
	if p == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// visit executes one instruction; true means that control left the block.
func (m *machine) visit(fr *frame, instr ssa.Instruction) bool {
	switch instr := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[instr] = m.unop(instr, fr.get(instr.X))
	case *ssa.BinOp:
		fr.env[instr] = m.binop(instr.Op, instr.X.Type(), fr.get(instr.X), fr.get(instr.Y))
	case *ssa.Call:
		fn, args := m.prepareCall(fr, &instr.Call)
		fr.env[instr] = m.call(fr, instr.Pos(), fn, args)
	case *ssa.ChangeInterface:
		fr.env[instr] = fr.get(instr.X)
	case *ssa.ChangeType:
		fr.env[instr] = fr.get(instr.X)
	case *ssa.Convert:
		fr.env[instr] = m.conv(instr.Type(), instr.X.Type(), fr.get(instr.X))
	case *ssa.MultiConvert:
		fr.env[instr] = m.conv(instr.Type(), instr.X.Type(), fr.get(instr.X))
	case *ssa.SliceToArrayPointer:
		panic(pathUnsupported{"slice to array pointer"})
	case *ssa.MakeInterface:
		fr.env[instr] = iface{t: instr.X.Type(), v: copyVal(fr.get(instr.X))}
	case *ssa.Extract:
		fr.env[instr] = fr.get(instr.Tuple).(tuple)[instr.Index]
	case *ssa.Slice:
		fr.env[instr] = m.slice(fr.get(instr.X), fr.get(instr.Low), fr.get(instr.High), fr.get(instr.Max))
	case *ssa.Return:
		switch len(instr.Results) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(instr.Results[0]))
		default:
			res := make(tuple, 0, len(instr.Results))
			for _, r := range instr.Results {
				res = append(res, copyVal(fr.get(r)))
			}
			fr.result = res
		}
		fr.block = nil
		return true
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		if os.Getenv("SYMGO_PANICS") != "" {
			fmt.Println("panic:", m.render(fr.get(instr.X)), posString(m.p.prog.Fset, fr.pos), fr.fn)
		}
		panic(targetPanic{v: fr.get(instr.X), pos: posString(m.p.prog.Fset, fr.pos)})
	case *ssa.Store:
		store(m.ptr(fr.get(instr.Addr)), fr.get(instr.Val))
	case *ssa.If:
		succ := 1
		if m.truth(fr.get(instr.Cond)) {
			succ = 0
		}
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[succ]
		return false
	case *ssa.Jump:
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[0]
		return false
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &instr.Call)
		defers := &fr.defers
		if into := fr.get(instr.DeferStack); into != nil {
			defers = into.(**deferred)
		}
		*defers = &deferred{fn: fn, args: args, instr: instr, tail: *defers}
	case *ssa.Alloc:
		var addr *value
		if instr.Heap {
			addr = new(value)
			fr.env[instr] = addr
		} else {
			addr = fr.env[instr].(*value)
		}
		*addr = m.zero(deref(instr.Type()))
	case *ssa.MakeSlice:
		c, l := mustInt(fr.get(instr.Cap)), mustInt(fr.get(instr.Len))
		if l < 0 || l > 1<<24 {
			m.runtimePanic("makeslice: len out of range")
		}
		if c < l || c > 1<<24 {
			m.runtimePanic("makeslice: cap out of range")
		}
		s := make([]value, c)
		et := instr.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = m.zero(et)
		}
		fr.env[instr] = s[:l]
	case *ssa.MakeMap:
		fr.env[instr] = m.newMap(instr.Type())
	case *ssa.Range:
		fr.env[instr] = m.rangeIter(fr, m.forced(fr.get(instr.X)))
	case *ssa.Next:
		fr.env[instr] = fr.get(instr.Iter).(iter).next(m)
	case *ssa.FieldAddr:
		s, ok := (*m.ptr(fr.get(instr.X))).(structure)
		if !ok {
			panic(pathUnsupported{fmt.Sprintf("field of %T", *m.ptr(fr.get(instr.X)))})
		}
		fr.env[instr] = &s[instr.Field]
	case *ssa.Field:
		s, ok := fr.get(instr.X).(structure)
		if !ok {
			panic(pathUnsupported{"field of opaque value"})
		}
		fr.env[instr] = s[instr.Field]
	case *ssa.IndexAddr:
		x := fr.get(instr.X)
		idx := mustInt(fr.get(instr.Index))
		switch x := x.(type) {
		case []value:
			if idx < 0 || idx >= int64(len(x)) {
				m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.env[instr] = &x[idx]
		case *value:
			a := (*m.ptr(x)).(array)
			if idx < 0 || idx >= int64(len(a)) {
				m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(a)))
			}
			fr.env[instr] = &a[idx]
		default:
			panic(fmt.Sprintf("IndexAddr %T", x))
		}
	case *ssa.Index:
		x := m.forced(fr.get(instr.X))
		idx := mustInt(fr.get(instr.Index))
		switch x := x.(type) {
		case array:
			if idx < 0 || idx >= int64(len(x)) {
				m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.env[instr] = x[idx]
		case string:
			if idx < 0 || idx >= int64(len(x)) {
				m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.env[instr] = x[idx]
		default:
			panic(pathUnsupported{fmt.Sprintf("index of %T", x)})
		}
	case *ssa.Lookup:
		mp := fr.get(instr.X).(*smap)
		e := m.mapFind(mp, fr.get(instr.Index))
		var v value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(instr.X.Type().Underlying().(*types.Map).Elem())
		}
		if instr.CommaOk {
			fr.env[instr] = tuple{v, e != nil}
		} else {
			fr.env[instr] = v
		}
	case *ssa.MapUpdate:
		m.mapSet(fr.get(instr.Map).(*smap), fr.get(instr.Key), fr.get(instr.Value))
	case *ssa.TypeAssert:
		fr.env[instr] = m.typeAssert(instr, fr.get(instr.X).(iface))
	case *ssa.MakeClosure:
		var b []value
		for _, x := range instr.Bindings {
			b = append(b, fr.get(x))
		}
		fr.env[instr] = &closure{instr.Fn.(*ssa.Function), b}
	default:
		panic(pathUnsupported{fmt.Sprintf("instruction %T", instr)})
	}
	return false
}

func (m *machine) prepareCall(fr *frame, call *ssa.CallCommon) (fn value, args []value) {
	v := fr.get(call.Value)
	if call.Method == nil {
		fn = v
	} else {
		recv, ok := v.(iface)
		if !ok {
			panic(pathUnsupported{fmt.Sprintf("method %s on %T", call.Method.Name(), v)})
		}
		if recv.t == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		f := m.lookupMethod(recv.t, call.Method)
		if f == nil {
			panic(pathUnsupported{fmt.Sprintf("no method %s on %s", call.Method.Name(), recv.t)})
		}
		fn = f
		args = append(args, copyVal(recv.v))
	}
	for _, a := range call.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return
}

func (m *machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	return m.p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
}

func (m *machine) findMethod(t types.Type, name string) *ssa.Function {
	ms := m.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (m *machine) rangeIter(fr *frame, x value) iter {
	switch x := x.(type) {
	case *smap:
		if x == nil {
			return &mapIter{}
		}
		live := make([]*mapEntry, 0, len(x.entries))
		for _, e := range x.entries {
			if !e.dead {
				live = append(live, e)
			}
		}
		return &mapIter{mp: x, order: m.mapOrder(fr, live)}
	case string:
		return &strIter{s: x}
	}
	panic(pathUnsupported{fmt.Sprintf("range over %T", x)})
}

// mapOrder picks an iteration order: all orders (or all rotations) are explored, within a budget of
// deviations from insertion order per path.
func (m *machine) mapOrder(fr *frame, live []*mapEntry) []*mapEntry {
	n := len(live)
	if n < 2 || m.mapPol == "fixed" || m.mapBud <= 0 {
		return live
	}
	// only iterations in the package under test are permuted
	if fr.fn.Pkg != m.p.main && !(fr.fn.Origin() != nil || fr.fn.Pkg == nil || allowedPath(fr.fn.Pkg.Pkg.Path())) {
		return live
	}
	if n := fr.fn.Name(); strings.HasPrefix(n, "vf") || strings.HasPrefix(n, "vx") || strings.HasPrefix(n, "Vvh") {
		return live
	}
	var perms [][]int
	if m.mapPol == "full" && n <= 4 {
		perms = permutations(n)
	} else {
		for r := 0; r < n; r++ {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + r) % n
			}
			perms = append(perms, p)
		}
		if m.mapPol == "full" {
			p := make([]int, n)
			for i := range p {
				p[i] = n - 1 - i
			}
			perms = append(perms, p)
		}
	}
	k := m.choose(len(perms), "order@"+posString(m.p.prog.Fset, fr.pos))
	if k == 0 {
		return live
	}
	m.mapBud--
	out := make([]*mapEntry, n)
	for i, j := range perms[k] {
		out[i] = live[j]
	}
	return out
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	var rec func(cur []int, used []bool)
	rec = func(cur []int, used []bool) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				rec(append(cur, i), used)
				used[i] = false
			}
		}
	}
	rec(nil, make([]bool, n))
	return out
}

func (m *machine) typeAssert(instr *ssa.TypeAssert, itf iface) value {
	var v value
	fail := ""
	if itf.t == nil {
		fail = fmt.Sprintf("interface conversion: interface is nil, not %s", instr.AssertedType)
	} else if idst, ok := instr.AssertedType.Underlying().(*types.Interface); ok {
		v = itf
		if meth, _ := types.MissingMethod(itf.t, idst, true); meth != nil {
			fail = fmt.Sprintf("interface conversion: %v is not %v: missing method %s", itf.t, idst, meth.Name())
		}
	} else if types.Identical(itf.t, instr.AssertedType) {
		v = copyVal(itf.v)
	} else {
		fail = fmt.Sprintf("interface conversion: interface is %s, not %s", itf.t, instr.AssertedType)
	}
	if fail != "" {
		if !instr.CommaOk {
			m.runtimePanic(fail)
		}
		return tuple{m.zero(instr.AssertedType), false}
	}
	if instr.CommaOk {
		return tuple{v, true}
	}
	return v
}

func (m *machine) slice(x, lo, hi, max value) value {
	x = m.forced(x)
	var ln, cp int64
	switch x := x.(type) {
	case string:
		ln, cp = int64(len(x)), int64(len(x))
	case []value:
		ln, cp = int64(len(x)), int64(cap(x))
	case *value:
		a := (*m.ptr(x)).(array)
		ln, cp = int64(len(a)), int64(cap(a))
	default:
		panic(pathUnsupported{fmt.Sprintf("slice of %T", x)})
	}
	l, h, mx := int64(0), ln, cp
	if lo != nil {
		l = mustInt(lo)
	}
	if hi != nil {
		h = mustInt(hi)
	}
	if max != nil {
		mx = mustInt(max)
	}
	if l < 0 || h < l || mx < h || mx > cp {
		m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, mx, cp))
	}
	switch x := x.(type) {
	case string:
		return x[l:h]
	case []value:
		return x[l:h:mx]
	case *value:
		return []value((*x).(array))[l:h:mx]
	}
	return nil
}

func (m *machine) unop(instr *ssa.UnOp, x value) value {
	switch instr.Op {
	case token.MUL:
		return copyVal(*m.ptr(x))
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return m.tb(m.c.not(x))
		}
	case token.SUB:
		if t, ok := x.(*Term); ok {
			return m.c.neg(t)
		}
		if i, ok := asInt(x); ok {
			return mkInt(instr.X.Type(), -i)
		}
	case token.XOR:
		if i, ok := asInt(x); ok {
			return mkInt(instr.X.Type(), ^i)
		}
	}
	panic(pathUnsupported{fmt.Sprintf("unary %s on %T", instr.Op, x)})
}

func (m *machine) binop(op token.Token, t types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return m.equal(t, x, y)
	case token.NEQ:
		switch r := m.equal(t, x, y).(type) {
		case bool:
			return !r
		case *Term:
			return m.tb(m.c.not(r))
		}
	}
	if isFloat(t) {
		a, b := m.toTerm(x), m.toTerm(y)
		switch op {
		case token.ADD:
			return m.c.add(a, b)
		case token.SUB:
			return m.c.sub(a, b)
		case token.MUL:
			return m.c.mul(a, b)
		case token.QUO:
			return m.fdiv(a, b)
		case token.LSS:
			return m.tb(m.c.cmp(OpLt, a, b))
		case token.LEQ:
			return m.tb(m.c.cmp(OpLe, a, b))
		case token.GTR:
			return m.tb(m.c.cmp(OpLt, b, a))
		case token.GEQ:
			return m.tb(m.c.cmp(OpLe, b, a))
		}
	}
	if isString(t) {
		sx, okx := x.(string)
		sy, oky := y.(string)
		if okx && oky {
			switch op {
			case token.ADD:
				return sx + sy
			case token.LSS:
				return sx < sy
			case token.LEQ:
				return sx <= sy
			case token.GTR:
				return sx > sy
			case token.GEQ:
				return sx >= sy
			}
		}
		if op == token.ADD {
			return m.concatStr(x, y)
		}
		_, o1 := x.(opaque)
		_, o2 := y.(opaque)
		if o1 || o2 {
			a, ok1 := m.forceStr(x)
			b, ok2 := m.forceStr(y)
			if !ok1 || !ok2 {
				panic(pathUnsupported{"order of formatted strings"})
			}
			return m.binop(op, t, a, b)
		}
		a, b := m.toTerm(x), m.toTerm(y)
		switch op {
		case token.LSS:
			return m.tb(m.c.cmp(OpLt, a, b))
		case token.LEQ:
			return m.tb(m.c.cmp(OpLe, a, b))
		case token.GTR:
			return m.tb(m.c.cmp(OpLt, b, a))
		case token.GEQ:
			return m.tb(m.c.cmp(OpLe, b, a))
		}
	}
	a, ok1 := asInt(x)
	b, ok2 := asInt(y)
	if !ok1 || !ok2 {
		panic(pathUnsupported{fmt.Sprintf("binary %s on %T, %T", op, x, y)})
	}
	bt, _ := t.Underlying().(*types.Basic)
	unsigned := bt != nil && bt.Info()&types.IsUnsigned != 0
	switch op {
	case token.ADD:
		return mkInt(t, a+b)
	case token.SUB:
		return mkInt(t, a-b)
	case token.MUL:
		return mkInt(t, a*b)
	case token.QUO:
		if b == 0 {
			m.runtimePanic("integer divide by zero")
		}
		if unsigned {
			return mkInt(t, int64(uint64(a)/uint64(b)))
		}
		return mkInt(t, a/b)
	case token.REM:
		if b == 0 {
			m.runtimePanic("integer divide by zero")
		}
		if unsigned {
			return mkInt(t, int64(uint64(a)%uint64(b)))
		}
		return mkInt(t, a%b)
	case token.AND:
		return mkInt(t, a&b)
	case token.OR:
		return mkInt(t, a|b)
	case token.XOR:
		return mkInt(t, a^b)
	case token.AND_NOT:
		return mkInt(t, a&^b)
	case token.SHL:
		if b < 0 {
			m.runtimePanic("negative shift amount")
		}
		if b >= 64 {
			return mkInt(t, 0)
		}
		return mkInt(t, a<<uint(b))
	case token.SHR:
		if b < 0 {
			m.runtimePanic("negative shift amount")
		}
		if unsigned {
			if b >= 64 {
				return mkInt(t, 0)
			}
			return mkInt(t, int64(uint64(a)>>uint(b)))
		}
		if b >= 64 {
			b = 63
		}
		return mkInt(t, a>>uint(b))
	case token.LSS:
		if unsigned {
			return uint64(a) < uint64(b)
		}
		return a < b
	case token.LEQ:
		if unsigned {
			return uint64(a) <= uint64(b)
		}
		return a <= b
	case token.GTR:
		if unsigned {
			return uint64(a) > uint64(b)
		}
		return a > b
	case token.GEQ:
		if unsigned {
			return uint64(a) >= uint64(b)
		}
		return a >= b
	}
	panic(pathUnsupported{"binop " + op.String()})
}

// fdiv divides; a possibly vanishing denominator forks into the IEEE special cases.
func (m *machine) fdiv(a, b *Term) value {
	if m.fpMode || b.isSpecial() || a.op == OpNaN {
		return m.c.div(a, b)
	}
	if b.isC() {
		if b.rat.Sign() == 0 {
			return m.divZero(a)
		}
		return m.c.div(a, b)
	}
	z := m.c.cmp(OpEq, b, m.c.realConst(ratZero))
	if m.truth(m.tb(z)) {
		return m.divZero(a)
	}
	return m.c.div(a, b)
}

func (m *machine) divZero(a *Term) value {
	if a.isSpecial() {
		return a
	}
	zero := m.c.realConst(ratZero)
	if m.truth(m.tb(m.c.cmp(OpEq, a, zero))) {
		return m.c.tNaN
	}
	if m.truth(m.tb(m.c.cmp(OpLt, zero, a))) {
		return m.c.tPInf
	}
	return m.c.tNInf
}

func (m *machine) conv(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	switch ud := ud.(type) {
	case *types.Pointer:
		return x
	case *types.Slice:
		// string -> []byte / []rune
		if s, ok := m.forced(x).(string); ok {
			var out []value
			if ud.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				for i := 0; i < len(s); i++ {
					out = append(out, s[i])
				}
			} else {
				for _, r := range s {
					out = append(out, int32(r))
				}
			}
			if out == nil {
				out = []value{}
			}
			return out
		}
		return x
	case *types.Basic:
		if ud.Info()&types.IsString != 0 {
			switch x := x.(type) {
			case string, *Term, opaque:
				return x
			case []value:
				if us.(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					b := make([]byte, len(x))
					for i := range x {
						c, ok := x[i].(uint8)
						if !ok {
							panic(pathUnsupported{"symbolic byte"})
						}
						b[i] = c
					}
					return string(b)
				}
				b := make([]rune, len(x))
				for i := range x {
					b[i] = x[i].(int32)
				}
				return string(b)
			}
			if i, ok := asInt(x); ok {
				return string(rune(i))
			}
		}
		if ud.Info()&types.IsFloat != 0 {
			switch x := x.(type) {
			case *Term:
				if ud.Kind() == types.Float32 && !x.isC() {
					panic(pathUnsupported{"symbolic float32"})
				}
				return x
			}
			if i, ok := asInt(x); ok {
				if b, ok := us.(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					return m.fc(float64(uint64(i)))
				}
				return m.fc(float64(i))
			}
		}
		if ud.Info()&types.IsInteger != 0 {
			switch x := x.(type) {
			case *Term:
				if x.isC() && x.sort == SReal {
					q := new(big.Int).Quo(x.rat.Num(), x.rat.Denom())
					return mkInt(dst, q.Int64())
				}
				if x.isC() && x.sort == SFP {
					return mkInt(dst, int64(x.f))
				}
				panic(pathUnsupported{"conversion of a symbolic float to an integer"})
			}
			if i, ok := asInt(x); ok {
				return mkInt(dst, i)
			}
		}
		if ud.Kind() == types.UnsafePointer {
			panic(pathUnsupported{"unsafe.Pointer"})
		}
	}
	panic(pathUnsupported{fmt.Sprintf("conversion %s -> %s (%T)", src, dst, x)})
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int64) int64 {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	want := nc * esz
	for _, s := range sizeClasses {
		if s >= want {
			return s / esz
		}
	}
	return (want + 8191) / 8192 * 8192 / esz
}

func (m *machine) appendSlice(et types.Type, a, b []value) []value {
	if len(b) == 0 {
		return a
	}
	n := len(a) + len(b)
	if n <= cap(a) {
		out := a[:n]
		tmp := make([]value, len(b))
		for i, x := range b {
			tmp[i] = copyVal(x)
		}
		for i, x := range tmp {
			store(&out[len(a)+i], x)
		}
		return out
	}
	nc := growCap(int64(cap(a)), int64(n), m.p.sizes.Sizeof(et))
	out := make([]value, nc)
	for i, x := range a {
		out[i] = copyVal(x)
	}
	for i, x := range b {
		out[len(a)+i] = copyVal(x)
	}
	for i := n; i < int(nc); i++ {
		out[i] = m.zero(et)
	}
	return out[:n]
}

func (m *machine) callBuiltin(caller *frame, fn *ssa.Builtin, args []value, pos token.Pos) value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		st := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
		if s, ok := m.forced(args[1]).(string); ok {
			var b []value
			for i := 0; i < len(s); i++ {
				b = append(b, s[i])
			}
			return m.appendSlice(st.Elem(), args[0].([]value), b)
		}
		if _, ok := args[1].(opaque); ok {
			panic(pathUnsupported{"append of opaque string"})
		}
		return m.appendSlice(st.Elem(), args[0].([]value), args[1].([]value))
	case "copy":
		src := m.forced(args[1])
		if s, ok := src.(string); ok {
			var b []value
			for i := 0; i < len(s); i++ {
				b = append(b, s[i])
			}
			src = b
		}
		d, s := args[0].([]value), src.([]value)
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			store(&d[i], tmp[i])
		}
		return n
	case "delete":
		m.mapDelete(args[0].(*smap), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *smap:
			if x != nil {
				for _, e := range x.entries {
					e.dead = true
				}
				x.entries, x.index, x.symKeys = nil, map[string]*mapEntry{}, false
			}
		case []value:
			et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				store(&x[i], m.zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := m.forced(args[0]).(type) {
		case string:
			return len(x)
		case array:
			return len(x)
		case *value:
			return len((*m.ptr(x)).(array))
		case []value:
			return len(x)
		case *smap:
			return x.size()
		}
		panic(pathUnsupported{fmt.Sprintf("len of %T", args[0])})
	case "cap":
		switch x := args[0].(type) {
		case array:
			return cap(x)
		case *value:
			return cap((*m.ptr(x)).(array))
		case []value:
			return cap(x)
		}
	case "min", "max":
		acc := args[0]
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		for _, a := range args[1:] {
			if isFloat(t) {
				acc = m.fminmax(m.toTerm(acc), m.toTerm(a), fn.Name() == "min")
				continue
			}
			op := token.LSS
			if fn.Name() == "max" {
				op = token.GTR
			}
			if m.truth(m.binop(op, t, a, acc)) {
				acc = a
			}
		}
		return acc
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		return m.doRecover(caller)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			m.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &caller.defers
	}
	panic(pathUnsupported{"builtin " + fn.Name()})
}

func (m *machine) fminmax(a, b *Term, min bool) value {
	if a.op == OpNaN || b.op == OpNaN {
		return m.c.tNaN
	}
	if m.fpMode {
		if m.truth(m.tb(m.c.not(m.c.cmp(OpEq, a, a)))) {
			return a
		}
		if m.truth(m.tb(m.c.not(m.c.cmp(OpEq, b, b)))) {
			return b
		}
	}
	lt := m.truth(m.tb(m.c.cmp(OpLt, b, a)))
	if lt == min {
		return b
	}
	return a
}

// visitInit makes package initialisation lenient: what cannot be encoded yields an opaque value, which
// is reported if the program under test ever depends on it.
func (m *machine) visitInit(fr *frame, instr ssa.Instruction) (ret bool) {
	depth := m.stack
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(pathUnsupported)
			if _, isIf := instr.(*ssa.If); ok && !isIf {
				m.stack = depth
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Println("init:", u.msg)
				}
				if v, ok := instr.(ssa.Value); ok {
					fr.env[v] = opaque{s: "initialiser " + u.msg}
				}
				return
			}
			panic(r)
		}
	}()
	return m.visit(fr, instr)
}

// chain lists the innermost callers.
func (fr *frame) chain() string {
	var out []string
	for f := fr; f != nil && len(out) < 4; f = f.caller {
		out = append(out, f.fn.Name())
	}
	return strings.Join(out, " <- ")
}
