package main

// Symbolic strings. The solver decides equality and order of string terms; every operation that looks inside
// a string (case folding, prefixes, splitting, length, ...) first fixes the term to one of a few candidates,
// one path each. Formatted and concatenated strings stay symbolic until something inspects them.

import (
	"fmt"
	"go/types"
	"strings"
	"sync/atomic"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// fmtPart is one formatted piece of a string: format and arguments of a Sprintf-like call, or a sprint/sprintln
// call (format "" / "\n").
type fmtPart struct {
	format string
	plain  int // 0 Sprintf, 1 Sprint, 2 Sprintln
	args   []value
}

func mkOpaque(s string, parts ...value) opaque { return opaque{s: s, parts: parts} }

// concatStr joins string values that may be symbolic.
func (m *machine) concatStr(vs ...value) value {
	var parts []value
	conc := true
	out := ""
	for _, v := range vs {
		switch v := v.(type) {
		case string:
			out += v
			parts = append(parts, v)
			continue
		case *Term:
			if v.isC() && v.sort == SStr {
				out += v.str
				parts = append(parts, v.str)
				continue
			}
			parts = append(parts, v)
			out += "<sym>"
		case opaque:
			if v.parts == nil {
				return opaque{s: "string"}
			}
			parts = append(parts, v.parts...)
			out += v.s
		default:
			return opaque{s: "string"}
		}
		conc = false
	}
	if conc {
		return out
	}
	return opaque{s: out, parts: parts}
}

const maxSpecialStrings = 2

// concStr fixes a string term to a concrete value on this path. A term is either generic (a name of its
// own), equal to a constant it was compared with, or one of the special candidates.
func (m *machine) concStr(t *Term) string {
	if t.isC() {
		return t.str
	}
	if s, ok := m.strVal[t]; ok {
		return s
	}
	if m.strVal == nil {
		m.strVal = map[*Term]string{}
	}
	cands := []string{fmt.Sprintf("n%d", len(m.strVal))}
	seen := map[string]bool{cands[0]: true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			cands = append(cands, s)
		}
	}
	visited := map[*Term]bool{}
	var walk func(x *Term, hit bool)
	walk = func(x *Term, hit bool) {
		if visited[x] {
			return
		}
		visited[x] = true
		for _, a := range x.args {
			if a == t {
				for _, b := range x.args {
					if b.isC() && b.sort == SStr {
						add(b.str)
					}
				}
			}
		}
		for _, a := range x.args {
			walk(a, hit)
		}
	}
	for _, p := range m.pc {
		walk(p, false)
	}
	// values already given to other strings: equal names
	for _, o := range m.strOrder {
		add(m.strVal[o])
	}
	if m.strSpecial < maxSpecialStrings {
		for _, s := range append([]string{}, cands[1:]...) {
			for _, s := range similar(s) {
				add(s)
			}
		}
		for _, s := range []string{"a", "A", "ab", "", "1"} {
			add(s)
		}
	}
	k := m.choose(len(cands), "string")
	s := cands[k]
	if k > 0 {
		m.strSpecial++
	}
	m.strVal[t] = s
	m.strOrder = append(m.strOrder, t)
	atomic.StoreInt32(&m.ex.strForced, 1)
	m.assume(m.tb(m.c.cmp(OpEq, t, m.c.strConst(s))))
	return s
}

// similar yields strings that a sloppy comparison takes for s, or orders differently.
func similar(s string) []string {
	swap := strings.Map(func(r rune) rune {
		if u := unicode.ToUpper(r); u != r {
			return u
		}
		return unicode.ToLower(r)
	}, s)
	out := []string{swap, "0" + s, s + " ", s + "0"}
	if s != "" {
		out = append(out, s[:len(s)-1])
	}
	return out
}

// forceStr gives the concrete string of a value, fixing symbolic parts.
func (m *machine) forceStr(v value) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case *Term:
		if v.sort == SStr {
			return m.concStr(v), true
		}
	case opaque:
		if v.parts == nil {
			return "", false
		}
		var sb strings.Builder
		for _, p := range v.parts {
			if f, ok := p.(*fmtPart); ok {
				s, ok := m.forceFmt(f)
				if !ok {
					return "", false
				}
				sb.WriteString(s)
				continue
			}
			s, ok := m.forceStr(p)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
		}
		return sb.String(), true
	}
	return "", false
}

func (m *machine) forceFmt(f *fmtPart) (string, bool) {
	old := m.forcing
	m.forcing = true
	defer func() { m.forcing = old }()
	var v value
	switch f.plain {
	case 0:
		v = m.sprintf(nil, f.format, f.args, nil)
	case 1:
		v = m.sprint(nil, f.args, false)
	default:
		v = m.sprint(nil, f.args, true)
	}
	s, ok := v.(string)
	return s, ok
}

// forced replaces symbolic strings by concrete ones, for operations that look inside.
func (m *machine) forced(v value) value {
	switch x := v.(type) {
	case *Term:
		if x.sort != SStr {
			return v
		}
	case opaque:
	default:
		return v
	}
	if s, ok := m.forceStr(v); ok {
		return s
	}
	return v
}

// equalOpaque compares two strings of which at least one is formatted or concatenated.
func (m *machine) equalOpaque(x, y value) value {
	xo, ok1 := x.(opaque)
	yo, ok2 := y.(opaque)
	if ok1 && ok2 && xo.parts != nil && yo.parts != nil {
		if t, ok := m.sameShape(xo.parts, yo.parts); ok {
			return m.tb(t)
		}
	}
	a, ok1 := m.forceStr(x)
	if ok1 {
		if b, ok2 := m.forceStr(y); ok2 {
			return a == b
		}
	}
	panic(pathUnsupported{"comparison of opaque value " + m.render(x)})
}

// sameShape: the same literals around numbers in a format that is injective.
func (m *machine) sameShape(a, b []value) (*Term, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	acc := m.c.tTrue
	for i := range a {
		fa, ok1 := a[i].(*fmtPart)
		fb, ok2 := b[i].(*fmtPart)
		if ok1 != ok2 {
			return nil, false
		}
		if !ok1 {
			sa, ok1 := a[i].(string)
			sb, ok2 := b[i].(string)
			if !ok1 || !ok2 || sa != sb {
				return nil, false
			}
			continue
		}
		if fa.format != fb.format || fa.plain != fb.plain || len(fa.args) != len(fb.args) || fa.plain == 0 && !injective(fa.format) {
			return nil, false
		}
		for k := range fa.args {
			x, ok1 := fa.args[k].(iface)
			y, ok2 := fb.args[k].(iface)
			if !ok1 || !ok2 || x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
				return nil, false
			}
			bt, ok := x.t.Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsNumeric == 0 && bt.Kind() != types.Bool {
				sx, ok1 := x.v.(string)
				sy, ok2 := y.v.(string)
				if ok1 && ok2 && sx == sy {
					continue
				}
				return nil, false
			}
			acc = m.c.and(acc, m.toTerm(m.equal(x.t, x.v, y.v)))
		}
	}
	return acc, true
}

// injective: verbs that print numbers without loss, separated by text no number contains.
func injective(f string) bool {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		if i >= len(f) || strings.IndexByte("vgdxt%s", f[i]) < 0 {
			return false
		}
		if f[i] != '%' && i+1 < len(f) && strings.IndexByte("0123456789.+-eE%", f[i+1]) >= 0 {
			return false
		}
	}
	return true
}

// deepEqual models reflect.DeepEqual.
func (m *machine) deepEqual(t types.Type, x, y value, seen map[[2]any]bool) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return m.c.boolConst(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.c.tFalse
		}
		return m.deepEqual(a.t, a.v, b.v, seen)
	case *types.Pointer:
		a, ok1 := x.(*value)
		b, ok2 := y.(*value)
		if !ok1 || !ok2 {
			break
		}
		if a == b {
			return m.c.tTrue
		}
		if a == nil || b == nil {
			return m.c.tFalse
		}
		k := [2]any{a, b}
		if seen[k] {
			return m.c.tTrue
		}
		seen[k] = true
		return m.deepEqual(u.Elem(), *a, *b, seen)
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		acc := m.c.tTrue
		for i := range a {
			acc = m.c.and(acc, m.deepEqual(u.Field(i).Type(), a[i], b[i], seen))
			if acc == m.c.tFalse {
				break
			}
		}
		return acc
	case *types.Array:
		a, b := x.(array), y.(array)
		acc := m.c.tTrue
		for i := range a {
			acc = m.c.and(acc, m.deepEqual(u.Elem(), a[i], b[i], seen))
		}
		return acc
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return m.c.tFalse
		}
		acc := m.c.tTrue
		for i := range a {
			acc = m.c.and(acc, m.deepEqual(u.Elem(), a[i], b[i], seen))
			if acc == m.c.tFalse {
				break
			}
		}
		return acc
	case *types.Map:
		a, b := x.(*smap), y.(*smap)
		if (a == nil) != (b == nil) || a.size() != b.size() {
			return m.c.tFalse
		}
		if a == b {
			return m.c.tTrue
		}
		acc := m.c.tTrue
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			o := m.mapFind(b, e.k)
			if o == nil {
				return m.c.tFalse
			}
			acc = m.c.and(acc, m.deepEqual(u.Elem(), e.v, o.v, seen))
		}
		return acc
	case *types.Signature:
		f, ok1 := x.(*ssa.Function)
		g, ok2 := y.(*ssa.Function)
		return m.c.boolConst(ok1 && ok2 && f == nil && g == nil)
	case *types.Basic:
		return m.toTerm(m.equal(t, x, y))
	}
	panic(pathUnsupported{"reflect.DeepEqual of " + t.String()})
}

func init() {
	add := func(name string, text func(m *machine, c *frame, a []value) value) {
		lateIntrinsics[name] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			if w, ok := a[0].(iface); ok && w.t != nil && w.t.String() == "*strings.Builder" {
				m.sbAdd(w.v, text(m, c, a))
			}
			return tuple{opaque{s: "length"}, iface{}}
		}
	}
	add("fmt.Fprintf", func(m *machine, c *frame, a []value) value { return m.sprintf(c, a[1], varargs(a[2]), nil) })
	add("fmt.Fprint", func(m *machine, c *frame, a []value) value { return m.sprint(c, varargs(a[1]), false) })
	add("fmt.Fprintln", func(m *machine, c *frame, a []value) value { return m.sprint(c, varargs(a[1]), true) })
}
