package main

// Model of encoding/json.Unmarshal on interpreter values. Numbers may be symbolic: vfDoc replaces
// {{name}} by a unique numeral that is mapped back to the symbol here.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"encoding/json"

	"golang.org/x/tools/go/ssa"
)

type docState struct{ nums map[string]*Term }

const holePrefix = "8801230"

func (m *machine) vfDoc(tmpl value, nums *smap) value {
	s, ok := tmpl.(string)
	if !ok {
		panic(pathUnsupported{"symbolic document"})
	}
	ds := &docState{nums: map[string]*Term{}}
	if nums == nil {
		nums = &smap{}
	}
	for _, e := range nums.entries {
		if e.dead {
			continue
		}
		lit := fmt.Sprintf("%s%03d%03d", holePrefix, len(m.docs), len(ds.nums))
		k := "{{" + e.k.(string) + "}}"
		s = strings.ReplaceAll(s, k, lit)
		ds.nums[lit] = m.toTerm(e.v)
	}
	m.docs = append(m.docs, ds)
	out := make([]value, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = s[i]
	}
	return out
}

type jnode struct {
	kind byte // o a s n b z
	raw  string
	keys []string
	vals []*jnode
	str  string
	b    bool
}

type jparser struct {
	s string
	i int
}

func (p *jparser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *jparser) val() *jnode {
	p.ws()
	st := p.i
	n := &jnode{}
	switch c := p.s[p.i]; {
	case c == '{':
		n.kind = 'o'
		p.i++
		p.ws()
		if p.s[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			k := p.str()
			p.ws()
			p.i++ // :
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, p.val())
			p.ws()
			p.i++
			if p.s[p.i-1] == '}' {
				break
			}
		}
	case c == '[':
		n.kind = 'a'
		p.i++
		p.ws()
		if p.s[p.i] == ']' {
			p.i++
			break
		}
		for {
			n.vals = append(n.vals, p.val())
			p.ws()
			p.i++
			if p.s[p.i-1] == ']' {
				break
			}
		}
	case c == '"':
		n.kind = 's'
		n.str = p.str()
	case c == 't':
		n.kind, n.b = 'b', true
		p.i += 4
	case c == 'f':
		n.kind = 'b'
		p.i += 5
	case c == 'n':
		n.kind = 'z'
		p.i += 4
	default:
		n.kind = 'n'
		for p.i < len(p.s) && strings.IndexByte("+-.eE0123456789", p.s[p.i]) >= 0 {
			p.i++
		}
	}
	n.raw = p.s[st:p.i]
	return n
}

func (p *jparser) str() string {
	st := p.i
	p.i++
	for p.s[p.i] != '"' {
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	var out string
	json.Unmarshal([]byte(p.s[st:p.i]), &out)
	return out
}

func bytesOf(v value) (string, bool) {
	s, ok := v.([]value)
	if !ok {
		return "", false
	}
	b := make([]byte, len(s))
	for i, x := range s {
		c, ok := x.(uint8)
		if !ok {
			return "", false
		}
		b[i] = c
	}
	return string(b), true
}

func jsonValid(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	s, ok := bytesOf(args[0])
	if !ok {
		panic(pathUnsupported{"json on symbolic bytes"})
	}
	return json.Valid([]byte(s))
}

func jsonUnmarshal(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	s, ok := bytesOf(args[0])
	if !ok {
		panic(pathUnsupported{"json on symbolic bytes"})
	}
	if !json.Valid([]byte(s)) {
		return m.mkError("invalid JSON")
	}
	dst := args[1].(iface)
	pt, ok := dst.t.(*types.Pointer)
	if !ok {
		panic(pathUnsupported{"json.Unmarshal target"})
	}
	p := &jparser{s: s}
	d := &jdec{m: m, caller: caller}
	if err := d.into(m.ptr(dst.v), pt.Elem(), p.val()); err.t != nil {
		return err
	}
	if d.saved.t != nil {
		return d.saved
	}
	return iface{}
}

type jdec struct {
	m      *machine
	caller *frame
	strict bool // DisallowUnknownFields
	saved  iface // first type error (decoding continues)
}

func (d *jdec) typeError(what string, t types.Type) {
	if d.saved.t == nil {
		d.saved = d.m.mkError(fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", what, t))
	}
}

func (m *machine) number(raw string) *Term {
	if strings.HasPrefix(raw, holePrefix) {
		for _, ds := range m.docs {
			if t, ok := ds.nums[raw]; ok {
				return t
			}
		}
	}
	f, _ := strconv.ParseFloat(raw, 64)
	return m.fc(f)
}

var kindName = map[byte]string{'o': "object", 'a': "array", 's': "string", 'n': "number", 'b': "bool", 'z': "null"}

func (d *jdec) into(dst *value, t types.Type, n *jnode) iface {
	m := d.m
	if isRawMessage(t) {
		raw := make([]value, len(n.raw))
		for i := range raw {
			raw[i] = n.raw[i]
		}
		*dst = raw
		return iface{}
	}
	// UnmarshalJSON on *T
	if _, isNamed := t.(*types.Named); isNamed && n.kind != 'z' || isNamed2(t) {
		if f := m.findMethod(types.NewPointer(t), "UnmarshalJSON"); f != nil && f.Signature.Params().Len() == 1 {
			raw := make([]value, len(n.raw))
			for i := range raw {
				raw[i] = n.raw[i]
			}
			r := m.call(d.caller, 0, f, []value{dst, raw})
			e := r.(iface)
			if e.t != nil {
				return e
			}
			return iface{}
		}
		if f := m.findMethod(types.NewPointer(t), "UnmarshalText"); f != nil && n.kind == 's' {
			raw := make([]value, len(n.str))
			for i := range raw {
				raw[i] = n.str[i]
			}
			e := m.call(d.caller, 0, f, []value{dst, raw}).(iface)
			return e
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == 'z' {
			*dst = (*value)(nil)
			return iface{}
		}
		p, _ := (*dst).(*value)
		if p == nil {
			p = new(value)
			*p = m.zero(u.Elem())
			*dst = p
		}
		return d.into(p, u.Elem(), n)
	case *types.Interface:
		if n.kind == 'z' {
			*dst = iface{}
			return iface{}
		}
		if u.NumMethods() > 0 {
			d.typeError(kindName[n.kind], t)
			return iface{}
		}
		*dst = d.any(n)
	case *types.Struct:
		if n.kind == 'z' {
			return iface{}
		}
		if n.kind != 'o' {
			d.typeError(kindName[n.kind], t)
			return iface{}
		}
		st := (*dst).(structure)
		for i, k := range n.keys {
			fi := fieldFor(u, k)
			if fi < 0 {
				if d.strict && d.saved.t == nil {
					d.saved = m.mkError("json: unknown field " + strconv.Quote(k))
				}
				continue
			}
			if e := d.into(&st[fi], u.Field(fi).Type(), n.vals[i]); e.t != nil {
				return e
			}
		}
	case *types.Map:
		if n.kind == 'z' {
			*dst = (*smap)(nil)
			return iface{}
		}
		if n.kind != 'o' {
			d.typeError(kindName[n.kind], t)
			return iface{}
		}
		mp, _ := (*dst).(*smap)
		if mp == nil {
			mp = m.newMap(t)
			*dst = mp
		}
		if !isString(u.Key()) {
			panic(pathUnsupported{"json map key type"})
		}
		for i, k := range n.keys {
			el := new(value)
			*el = m.zero(u.Elem())
			if e := d.into(el, u.Elem(), n.vals[i]); e.t != nil {
				return e
			}
			m.mapSet(mp, k, *el)
		}
	case *types.Slice:
		if n.kind == 'z' {
			*dst = []value(nil)
			return iface{}
		}
		if n.kind != 'a' {
			d.typeError(kindName[n.kind], t)
			return iface{}
		}
		out := make([]value, len(n.vals))
		for i := range out {
			out[i] = m.zero(u.Elem())
			if e := d.into(&out[i], u.Elem(), n.vals[i]); e.t != nil {
				return e
			}
		}
		*dst = out
	case *types.Array:
		if n.kind == 'z' {
			return iface{}
		}
		if n.kind != 'a' {
			d.typeError(kindName[n.kind], t)
			return iface{}
		}
		a := (*dst).(array)
		for i := range a {
			if i < len(n.vals) {
				if e := d.into(&a[i], u.Elem(), n.vals[i]); e.t != nil {
					return e
				}
			} else {
				store(&a[i], m.zero(u.Elem()))
			}
		}
	case *types.Basic:
		if n.kind == 'z' {
			return iface{}
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				d.typeError(kindName[n.kind], t)
				return iface{}
			}
			*dst = n.str
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'n' {
				d.typeError(kindName[n.kind], t)
				return iface{}
			}
			*dst = m.number(n.raw)
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				d.typeError(kindName[n.kind], t)
				return iface{}
			}
			if strings.HasPrefix(n.raw, holePrefix) {
				panic(pathUnsupported{"symbolic number decoded into an integer"})
			}
			f, err := strconv.ParseInt(n.raw, 10, 64)
			if err != nil {
				d.typeError("number "+n.raw, t)
				return iface{}
			}
			*dst = mkInt(t, f)
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				d.typeError(kindName[n.kind], t)
				return iface{}
			}
			*dst = n.b
		default:
			panic(pathUnsupported{"json into " + t.String()})
		}
	default:
		panic(pathUnsupported{"json into " + t.String()})
	}
	return iface{}
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Name() == "RawMessage" && n.Obj().Pkg().Path() == "encoding/json" ||
		n.Obj().Name() == "Value" && n.Obj().Pkg().Path() == "encoding/json/jsontext")
}

// Decoders: the bytes of the reader are read when the decoder is made; values are taken one by one.
type jsonDecState struct {
	rest   string
	bad    bool
	strict bool
}

func jsonNewDecoder(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	r := args[0].(iface)
	read := m.findMethod(r.t, "Read")
	if read == nil {
		panic(pathUnsupported{"json decoder without reader"})
	}
	st := &jsonDecState{}
	var sb strings.Builder
	for i := 0; ; i++ {
		buf := make([]value, 4096)
		for j := range buf {
			buf[j] = uint8(0)
		}
		res := m.call(caller, 0, read, []value{r.v, buf}).(tuple)
		n, ok := asInt(res[0])
		if !ok {
			panic(pathUnsupported{"json decoder on symbolic reader"})
		}
		s, ok := bytesOf(buf[:n])
		if !ok {
			panic(pathUnsupported{"json on symbolic bytes"})
		}
		sb.WriteString(s)
		if e := res[1].(iface); e.t != nil || n == 0 || i > 64 {
			break
		}
	}
	st.rest = sb.String()
	p := new(value)
	*p = m.zero(deref(fn.Signature.Results().At(0).Type()))
	if m.decoders == nil {
		m.decoders = map[*value]*jsonDecState{}
	}
	m.decoders[p] = st
	return p
}

func jsonDisallowUnknown(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	m.decoderOf(args[0]).strict = true
	return nil
}

func (m *machine) decoderOf(v value) *jsonDecState {
	p, _ := v.(*value)
	st := m.decoders[p]
	if st == nil {
		panic(pathUnsupported{"unknown json decoder"})
	}
	return st
}

func jsonDecode(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	st := m.decoderOf(args[0])
	// the extent of the first value, found with the real decoder
	hd := json.NewDecoder(strings.NewReader(st.rest))
	var raw json.RawMessage
	if st.bad {
		return m.mkError("invalid JSON")
	}
	if err := hd.Decode(&raw); err != nil {
		st.bad = true
		return m.mkError(err.Error())
	}
	st.rest = st.rest[hd.InputOffset():]
	dst := args[1].(iface)
	pt, ok := dst.t.(*types.Pointer)
	if !ok {
		panic(pathUnsupported{"json.Decode target"})
	}
	d := &jdec{m: m, caller: caller, strict: st.strict}
	if err := d.into(m.ptr(dst.v), pt.Elem(), (&jparser{s: string(raw)}).val()); err.t != nil {
		return err
	}
	return d.saved
}

func isNamed2(t types.Type) bool { return false }

func (d *jdec) any(n *jnode) iface {
	m := d.m
	switch n.kind {
	case 'z':
		return iface{}
	case 's':
		return iface{types.Typ[types.String], n.str}
	case 'n':
		return iface{types.Typ[types.Float64], m.number(n.raw)}
	case 'b':
		return iface{types.Typ[types.Bool], n.b}
	case 'a':
		out := make([]value, len(n.vals))
		for i := range out {
			out[i] = d.any(n.vals[i])
		}
		return iface{types.NewSlice(anyType()), out}
	}
	mt := types.NewMap(types.Typ[types.String], anyType())
	mp := m.newMap(mt)
	for i, k := range n.keys {
		m.mapSet(mp, k, d.any(n.vals[i]))
	}
	return iface{mt, mp}
}

func anyType() types.Type { return types.Universe.Lookup("any").Type() }

func fieldFor(st *types.Struct, key string) int {
	best := -1
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		name := f.Name()
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		if c := strings.Split(tag, ",")[0]; c != "" {
			name = c
		}
		if name == key {
			return i
		}
		if best < 0 && strings.EqualFold(name, key) {
			best = i
		}
	}
	return best
}

var _ = math.Pi
