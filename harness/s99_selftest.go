package deflect

// Self-test of the symbolic executor (no property): library calls that real code, or an edit of it, may use.

import (
	"cmp"
	"errors"
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type s99pt struct {
	x float64
	s string
}

type s99by []s99pt

func (b s99by) Len() int           { return len(b) }
func (b s99by) Less(i, j int) bool { return b[i].x < b[j].x }
func (b s99by) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func VvhS99_Sorts() {
	a, b, c := vfF("a"), vfF("b"), vfF("c")
	xs := []float64{a, b, c}
	sort.Float64s(xs)
	vfCheck("sorted", xs[0] <= xs[1] && xs[1] <= xs[2])
	ys := []float64{a, b, c}
	slices.SortFunc(ys, func(p, q float64) int { return cmp.Compare(q, p) })
	vfCheck("sorted2", ys[0] >= ys[1] && ys[1] >= ys[2])
	zs := s99by{{a, "a"}, {b, "b"}, {c, "c"}}
	sort.Sort(zs)
	vfCheck("sorted3", zs[0].x <= zs[1].x && zs[1].x <= zs[2].x)
	sort.Stable(sort.Reverse(zs))
	vfCheck("sorted4", zs[0].x >= zs[1].x && zs[1].x >= zs[2].x)
	vfCheck("max", slices.Max(ys) == ys[0] && min(a, b, c) == ys[2])
	i := sort.Search(3, func(i int) bool { return xs[i] >= b })
	vfCheck("search", xs[i] == b)
	_, found := slices.BinarySearch(xs, c)
	vfCheck("found", found)
	slices.Reverse(ys)
	vfCheck("rev", ys[0] <= ys[1])
	ys = slices.Insert(ys, 1, 7)
	vfCheck("ins", ys[1] == 7 && len(ys) == 4)
	vfCheck("contains", slices.Contains(ys, a))
	vfCheck("equal", slices.Equal(xs, slices.Clone(xs)))
	vfCover("sorts")
}

func VvhS99_Maps() {
	a := vfF("a")
	s, t := vfStr("s"), vfStr("t")
	mp := map[string]float64{"k": 1}
	mp[s] = a
	mp[t] += 2
	keys := slices.Sorted(maps.Keys(mp))
	vfCheck("keys", len(keys) == len(mp) && len(mp) <= 3)
	ks := make([]string, 0)
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vfCheck("sortedkeys", slices.Equal(keys, ks))
	c := maps.Clone(mp)
	delete(c, s)
	vfCheck("deleted", len(c) == len(mp)-1)
	vs := slices.Collect(maps.Values(mp))
	vfCheck("values", len(vs) == len(mp))
	clear(c)
	vfCheck("cleared", len(c) == 0)
	st := map[struct {
		s string
		d Fct
	}]int{{s, FctNx}: 1}
	st[struct {
		s string
		d Fct
	}{t, FctNx}] = 2
	vfCheck("struct", (len(st) == 1) == (s == t))
	maps.DeleteFunc(mp, func(k string, v float64) bool { return k == s })
	_, has := mp[s]
	vfCheck("nodelete", !has)
	vfCover("maps")
}

func VvhS99_Strings() {
	s, t := vfStr("s"), vfStr("t")
	lower := strings.ToLower(s) == strings.ToLower(t)
	if s == t {
		vfCheck("lower", lower)
	} else if lower {
		vfCover("folded")
		vfCheck("foldedneq", strings.EqualFold(s, t))
	}
	key := s + "/" + strconv.Itoa(3)
	vfCheck("prefix", strings.HasPrefix(key, s) && len(key) == len(s)+2)
	var sb strings.Builder
	sb.WriteString(s)
	fmt.Fprintf(&sb, "-%d", 4)
	vfCheck("builder", sb.String() == fmt.Sprintf("%s-%d", s, 4))
	e := fmt.Errorf("x %v: %w", s, errors.New("inner"))
	vfCheck("msg", strings.HasSuffix(e.Error(), "inner"))
	before, after, ok := strings.Cut("a/b", "/")
	vfCheck("cut", before == "a" && after == "b" && ok)
	vfCheck("cmp", strings.Compare("a", "b") < 0)
	for i, r := range s {
		vfCheck("range", i < len(s) && r > 0)
	}
	vfCheck("map", strings.Map(func(r rune) rune { return r }, "abc") == "abc")
	vfCover("strings")
}

func VvhS99_Floats() {
	a, b := vfF("a"), vfF("b")
	k1, k2 := fmt.Sprintf("%v|%v", a, b), fmt.Sprintf("%v|%v", b, a)
	vfCheck("fmtkey", (k1 == k2) == (a == b))
	vfAssume(a > 0)
	th := math.Atan2(b, a)
	vfEq("cos", math.Cos(th)*math.Hypot(a, b), a)
	vfEq("sin", math.Sin(th)*math.Hypot(a, b), b)
	n := math.Hypot(a, b)
	vfEq("acos", math.Cos(math.Acos(a/n)), a/n)
	vfCheck("deep", reflect.DeepEqual([]float64{a, b}, []float64{a, a}) == (a == b))
	vfCheck("signbit", !math.Signbit(a))
	vfCheck("round", math.Abs(math.Round(a)-a) <= 0.5)
	vfEq("cbrt", math.Pow(a, 3), a*a*a)
	type kk struct{ p, q float64 }
	mp := map[kk]int{{a, b}: 1}
	mp[kk{b, a}]++
	vfCheck("kk", (len(mp) == 1) == (a == b))
	vfCover("floats")
}

type s99err struct{ n int }

func (e *s99err) Error() string { return "s99" }

func VvhS99_Errors() {
	base := &s99err{3}
	err := errors.Join(fmt.Errorf("a: %w", base), errors.New("b"))
	var e *s99err
	vfCheck("as", errors.As(err, &e) && e.n == 3 && errors.Is(err, base))
	vfCheck("nil", errors.Join(nil, nil) == nil)
	func() {
		defer func() {
			r := recover()
			vfCheck("recovered", r != nil)
		}()
		var m map[string]int
		m["a"] = 1
	}()
	var f func() (int, error)
	f = func() (n int, err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered %v", r)
			}
		}()
		return []int{}[n], nil
	}
	_, err = f()
	vfCheck("deferred", err != nil)
	for i := range 3 {
		vfCheck("rangeint", i < 3)
	}
	type gen[T any] struct{ v T }
	g := gen[string]{v: "x"}
	vfCheck("gen", g.v == "x")
	switch x := any(base).(type) {
	case error:
		vfCheck("switch", x.Error() == "s99")
	default:
		vfCheck("switch2", false)
	}
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 2 {
				continue outer
			}
			if i == 2 {
				break outer
			}
		}
	}
	vfCover("errors")
}
