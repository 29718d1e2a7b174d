package main

// Values of the symbolic interpreter. Same representation as golang.org/x/tools/go/ssa/interp, except
// that floats are always *Term, and bools and strings may be *Term.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value any

type tuple []value
type array []value
type structure []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}
type bad struct{}

// opaque is a value that must not influence control flow, or (with parts) a string formatted from symbols.
type opaque struct {
	s     string
	parts []value
}

type mapEntry struct {
	k, v value
	dead bool
}
type smap struct {
	t       *types.Map
	entries []*mapEntry
	index   map[string]*mapEntry // concrete keys
	symKeys bool
}

// control-flow panics of the engine
type pathInfeasible struct{}
type pathUnsupported struct{ msg string }
type pathStop struct{ msg string }

type targetPanic struct {
	v   value
	pos string
}

// targetGoexit unwinds to the enclosing vfFails ((*testing.T).FailNow and its callers).
type targetGoexit struct{}

func sortStrings(s []string) { sort.Strings(s) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *machine) zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			panic("untyped nil has no zero value")
		}
		if t.Info()&types.IsUntyped != 0 {
			t = types.Default(t).(*types.Basic)
		}
		switch t.Kind() {
		case types.Bool:
			return false
		case types.Int:
			return int(0)
		case types.Int8:
			return int8(0)
		case types.Int16:
			return int16(0)
		case types.Int32:
			return int32(0)
		case types.Int64:
			return int64(0)
		case types.Uint:
			return uint(0)
		case types.Uint8:
			return uint8(0)
		case types.Uint16:
			return uint16(0)
		case types.Uint32:
			return uint32(0)
		case types.Uint64:
			return uint64(0)
		case types.Uintptr:
			return uintptr(0)
		case types.Float32, types.Float64:
			return m.fc(0)
		case types.Complex64, types.Complex128:
			return complex(0, 0)
		case types.String:
			return ""
		case types.UnsafePointer:
			return (*value)(nil)
		}
		panic(fmt.Sprint("zero for unexpected type:", t))
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = m.zero(t.Elem())
		}
		return a
	case *types.Named:
		return m.zero(t.Underlying())
	case *types.Alias:
		return m.zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return m.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = m.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*value)(nil)
	case *types.Map:
		return (*smap)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	}
	panic(fmt.Sprint("zero: unexpected ", t))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case array:
		a := make(array, len(v))
		for i := range v {
			a[i] = copyVal(v[i])
		}
		return a
	case structure:
		a := make(structure, len(v))
		for i := range v {
			a[i] = copyVal(v[i])
		}
		return a
	}
	return v
}

// store keeps the identity of aggregate elements so that outstanding field addresses stay valid.
func store(addr *value, v value) {
	switch x := v.(type) {
	case structure:
		if old, ok := (*addr).(structure); ok && len(old) == len(x) {
			tmp := copyVal(x).(structure)
			for i := range old {
				store(&old[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if old, ok := (*addr).(array); ok && len(old) == len(x) {
			tmp := copyVal(x).(array)
			for i := range old {
				store(&old[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func (m *machine) constValue(c *ssa.Const) value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	if t, ok := c.Type().Underlying().(*types.Basic); ok {
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return constant.BoolVal(c.Value)
		case types.Int, types.UntypedInt:
			return int(c.Int64())
		case types.Int8:
			return int8(c.Int64())
		case types.Int16:
			return int16(c.Int64())
		case types.Int32, types.UntypedRune:
			return int32(c.Int64())
		case types.Int64:
			return c.Int64()
		case types.Uint:
			return uint(c.Uint64())
		case types.Uint8:
			return uint8(c.Uint64())
		case types.Uint16:
			return uint16(c.Uint64())
		case types.Uint32:
			return uint32(c.Uint64())
		case types.Uint64:
			return c.Uint64()
		case types.Uintptr:
			return uintptr(c.Uint64())
		case types.Float32, types.Float64, types.UntypedFloat:
			return m.fc(c.Float64())
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return c.Complex128()
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

func (m *machine) fc(f float64) *Term { return m.c.floatConst(f, m.fpMode) }

func asInt(x value) (int64, bool) {
	switch x := x.(type) {
	case int:
		return int64(x), true
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case uint:
		return int64(x), true
	case uint8:
		return int64(x), true
	case uint16:
		return int64(x), true
	case uint32:
		return int64(x), true
	case uint64:
		return int64(x), true
	case uintptr:
		return int64(x), true
	}
	return 0, false
}

func mustInt(x value) int64 {
	i, ok := asInt(x)
	if !ok {
		panic(pathUnsupported{fmt.Sprintf("symbolic integer needed concretely (%T)", x)})
	}
	return i
}

func mkInt(t types.Type, v int64) value {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int, types.UntypedInt:
		return int(v)
	case types.Int8:
		return int8(v)
	case types.Int16:
		return int16(v)
	case types.Int32, types.UntypedRune:
		return int32(v)
	case types.Int64:
		return v
	case types.Uint:
		return uint(v)
	case types.Uint8:
		return uint8(v)
	case types.Uint16:
		return uint16(v)
	case types.Uint32:
		return uint32(v)
	case types.Uint64:
		return uint64(v)
	case types.Uintptr:
		return uintptr(v)
	}
	panic(fmt.Sprintf("mkInt %s", t))
}

// concreteKey returns a canonical string for fully concrete, comparable values.
func concreteKey(v value) (string, bool) {
	var sb strings.Builder
	if writeKey(&sb, v) {
		return sb.String(), true
	}
	return "", false
}

func writeKey(sb *strings.Builder, v value) bool {
	switch v := v.(type) {
	case string:
		fmt.Fprintf(sb, "s%q", v)
	case bool:
		fmt.Fprintf(sb, "b%v", v)
	case *Term:
		if v.op == OpConst && v.sort == SReal {
			fmt.Fprintf(sb, "r%s", v.rat.RatString())
			return true
		}
		if v.op == OpConst && v.sort == SFP && v.f == v.f {
			fmt.Fprintf(sb, "f%v", v.f)
			return true
		}
		if v.op == OpConst && v.sort == SStr {
			fmt.Fprintf(sb, "s%q", v.str)
			return true
		}
		return false
	case structure:
		sb.WriteString("{")
		for _, x := range v {
			if !writeKey(sb, x) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case array:
		sb.WriteString("[")
		for _, x := range v {
			if !writeKey(sb, x) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case *value:
		fmt.Fprintf(sb, "p%p", v)
	case *smap:
		fmt.Fprintf(sb, "m%p", v)
	case iface:
		if v.t == nil {
			sb.WriteString("nil")
			return true
		}
		fmt.Fprintf(sb, "i<%s>", v.t.String())
		return writeKey(sb, v.v)
	default:
		if i, ok := asInt(v); ok {
			fmt.Fprintf(sb, "i%d", i)
			return true
		}
		return false
	}
	return true
}

// equal returns bool or *Term.
func (m *machine) equal(t types.Type, x, y value) value {
	if _, ok := y.(opaque); ok {
		return m.equalOpaque(x, y)
	}
	switch x := x.(type) {
	case bool:
		if y, ok := y.(bool); ok {
			return x == y
		}
		return m.tb(m.c.cmp(OpEq, m.toTerm(x), m.toTerm(y)))
	case string:
		if y, ok := y.(string); ok {
			return x == y
		}
		return m.tb(m.c.cmp(OpEq, m.toTerm(x), m.toTerm(y)))
	case *Term:
		return m.tb(m.c.cmp(OpEq, x, m.toTerm(y)))
	case structure:
		y := y.(structure)
		st := t.Underlying().(*types.Struct)
		acc := m.c.tTrue
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			acc = m.c.and(acc, m.toTerm(m.equal(st.Field(i).Type(), x[i], y[i])))
			if acc == m.c.tFalse {
				return false
			}
		}
		return m.tb(acc)
	case array:
		y := y.(array)
		et := t.Underlying().(*types.Array).Elem()
		acc := m.c.tTrue
		for i := range x {
			acc = m.c.and(acc, m.toTerm(m.equal(et, x[i], y[i])))
			if acc == m.c.tFalse {
				return false
			}
		}
		return m.tb(acc)
	case iface:
		y := y.(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			m.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.t, x.v, y.v)
	case *value:
		y, ok := y.(*value)
		return ok && x == y
	case *smap:
		y, ok := y.(*smap)
		return ok && x == y
	case []value:
		y, ok := y.([]value)
		if !ok || x != nil && y != nil {
			panic(pathUnsupported{"slice comparison"})
		}
		return x == nil && y == nil
	case *ssa.Function:
		switch y := y.(type) {
		case *ssa.Function:
			return x == y
		}
		return false
	case *closure:
		switch y := y.(type) {
		case *closure:
			return x == y
		}
		return false
	case *ssa.Builtin:
		return false
	case opaque:
		return m.equalOpaque(x, y)
	case nil:
		return y == nil
	}
	if a, ok := asInt(x); ok {
		if b, ok := asInt(y); ok {
			return a == b
		}
	}
	panic(pathUnsupported{fmt.Sprintf("equality of %T and %T", x, y)})
}

func (m *machine) tb(t *Term) value {
	switch t {
	case m.c.tTrue:
		return true
	case m.c.tFalse:
		return false
	}
	return t
}

func (m *machine) toTerm(v value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return m.c.boolConst(v)
	case string:
		return m.c.strConst(v)
	}
	panic(pathUnsupported{fmt.Sprintf("no term for %T", v)})
}

// maps ----------------------------------------------------------------------------------------------

func (m *machine) newMap(t types.Type) *smap {
	return &smap{t: t.Underlying().(*types.Map), index: map[string]*mapEntry{}}
}

func (mp *smap) size() int {
	if mp == nil {
		return 0
	}
	n := 0
	for _, e := range mp.entries {
		if !e.dead {
			n++
		}
	}
	return n
}

func (m *machine) mapFind(mp *smap, k value) *mapEntry {
	if mp == nil {
		return nil
	}
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.runtimePanic("hash of unhashable type " + i.t.String())
	}
	ck, conc := concreteKey(k)
	if conc && !mp.symKeys {
		return mp.index[ck]
	}
	if conc {
		if e := mp.index[ck]; e != nil {
			return e
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := concreteKey(e.k); c2 {
				continue
			}
		}
		if m.truth(m.equal(mp.t.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *machine) mapSet(mp *smap, k, v value) {
	if mp == nil {
		m.runtimePanic("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	mp.entries = append(mp.entries, e)
	if ck, ok := concreteKey(k); ok {
		mp.index[ck] = e
	} else {
		mp.symKeys = true
	}
}

func (m *machine) mapDelete(mp *smap, k value) {
	if e := m.mapFind(mp, k); e != nil {
		e.dead = true
		if ck, ok := concreteKey(e.k); ok {
			delete(mp.index, ck)
		}
		for i, x := range mp.entries {
			if x == e {
				mp.entries = append(append([]*mapEntry{}, mp.entries[:i]...), mp.entries[i+1:]...)
				break
			}
		}
	}
}

type iter interface{ next(m *machine) tuple }

type mapIter struct {
	mp    *smap
	order []*mapEntry
	i     int
}

func (it *mapIter) next(m *machine) tuple {
	for it.i < len(it.order) {
		e := it.order[it.i]
		it.i++
		if e.dead {
			continue
		}
		return tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	return tuple{false, nil, nil}
}

type strIter struct {
	s string
	i int
}

func (it *strIter) next(m *machine) tuple {
	if it.i >= len(it.s) {
		return tuple{false, it.i, int32(0)}
	}
	for j, r := range it.s[it.i:] {
		_ = j
		p := it.i
		n := len(string(r))
		if r == 0xFFFD {
			n = 1
			if strings.HasPrefix(it.s[it.i:], "\uFFFD") {
				n = 3
			}
		}
		it.i += n
		return tuple{true, p, int32(r)}
	}
	return tuple{false, it.i, int32(0)}
}

func posString(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// render gives a readable form of a value.
func (m *machine) render(v value) string {
	switch v := v.(type) {
	case *Term:
		return m.renderTerm(v)
	case iface:
		if v.t == nil {
			return "<nil>"
		}
		return m.render(v.v)
	case opaque:
		return v.s
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + m.render(*v)
	case structure:
		var p []string
		for _, x := range v {
			p = append(p, m.render(x))
		}
		return "{" + strings.Join(p, " ") + "}"
	case array:
		return m.render([]value(v))
	case []value:
		var p []string
		for _, x := range v {
			p = append(p, m.render(x))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *smap:
		return fmt.Sprintf("map(%d)", v.size())
	}
	return fmt.Sprint(v)
}

func (m *machine) renderTerm(t *Term) string {
	switch t.op {
	case OpConst:
		switch t.sort {
		case SReal:
			return ratString(t.rat)
		case SFP:
			return fmt.Sprint(t.f)
		case SStr:
			return t.str
		}
	case OpNaN:
		return "NaN"
	case OpPInf:
		return "+Inf"
	case OpNInf:
		return "-Inf"
	case OpVar:
		return t.name
	}
	return "<sym>"
}

func ratString(r *big.Rat) string {
	f, _ := r.Float64()
	return fmt.Sprint(f)
}
