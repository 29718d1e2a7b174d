package deflect

// Verification harness library. Under the symbolic executor every vf* function below is intercepted
// (fresh symbols, solver queries); compiled natively the same functions read concrete inputs from a
// replay file and evaluate the assertions numerically.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unsafe"
)

type vfReplay struct {
	Harness string
	Repeat  int
	Floats  map[string]string
	Ints    map[string]int
	Strs    map[string]string
	Bools   map[string]bool
}

type vfStop struct{ why string }

var (
	vfIn   vfReplay
	vfUsed map[string]int
	vfOut  *bufio.Writer
	vfBad  string
)

// VfMain runs one replay file (path in argv[1]).
func VfMain(harnesses map[string]func()) {
	raw, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(3)
	}
	if err := json.Unmarshal(raw, &vfIn); err != nil {
		fmt.Println("ERROR", err)
		os.Exit(3)
	}
	h, ok := harnesses[vfIn.Harness]
	if !ok {
		fmt.Println("ERROR unknown harness", vfIn.Harness)
		os.Exit(3)
	}
	null, _ := os.Open(os.DevNull)
	_ = null
	for i := 0; i < max(1, vfIn.Repeat); i++ {
		var sb strings.Builder
		vfOut = bufio.NewWriter(&sb)
		vfUsed = map[string]int{}
		vfBad = ""
		end := vfRunOne(h)
		vfOut.Flush()
		if vfBad != "" || i == max(1, vfIn.Repeat)-1 || strings.HasPrefix(end, "assume") {
			fmt.Print(sb.String())
			if vfBad != "" {
				fmt.Printf("FAIL %s\n", vfBad)
			}
			fmt.Printf("END %s run=%d\n", end, i)
			return
		}
	}
}

func vfRunOne(h func()) (end string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vfStop); ok {
				end = s.why
				return
			}
			if vfBad == "" {
				vfBad = "panic"
			}
			end = strings.ReplaceAll(fmt.Sprintf("panic: %v", r), "\n", " ")
		}
	}()
	h()
	return "done"
}

func vfName(n string) string {
	k := vfUsed[n]
	vfUsed[n]++
	if k > 0 {
		n += "#" + strconv.Itoa(k)
	}
	return n
}

func vfRaw(n string, dflt float64) float64 {
	s, ok := vfIn.Floats[n]
	if !ok {
		return dflt
	}
	u, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		return dflt
	}
	return math.Float64frombits(u)
}

func vfF(n string) float64     { return vfRaw(vfName(n), 1) }
func vfPos(n string) float64   { return vfRaw(vfName(n), 1) }
func vfNN(n string) float64    { return vfRaw(vfName(n), 1) }
func vfSlack(n string) float64 { return vfRaw(vfName(n), 0) }
func vfFresh(n string) float64 { return vfRaw(vfName(n), 0) }

func vfDir2(n string) (c, s float64) {
	n = vfName(n)
	c, s = vfRaw(n+".c", 0.6), vfRaw(n+".s", 0.8)
	h := math.Hypot(c, s)
	return c / h, s / h
}

func vfDir3(n string) (x, y, z float64) {
	n = vfName(n)
	x, y, z = vfRaw(n+".ux", 0.36), vfRaw(n+".uy", 0.48), vfRaw(n+".uz", 0.8)
	h := math.Hypot(x, math.Hypot(y, z))
	return x / h, y / h, z / h
}

func vfAngle(n string) float64 {
	n = vfName(n)
	base := math.Atan2(vfRaw(n+".s", 0.8), vfRaw(n+".c", 0.6))
	// More than half a turn: the next angle of this direction, with further turns
	if th := vfRaw(n, 0); math.Abs(th) > math.Pi && math.Abs(th) < 1e9 {
		turns := math.Ceil((math.Abs(th) - math.Copysign(base, th*base)) / (2 * math.Pi))
		base += math.Copysign(turns*2*math.Pi, th)
	}
	return base
}

// vfFind returns copies of all values of the type of like that are reachable from root.
func vfFind(root, like any) (found []any) {
	seen := map[any]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		if v.Type() == reflect.TypeOf(like) {
			c := reflect.New(v.Type()).Elem()
			if v.CanAddr() {
				v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			} else if !v.CanInterface() {
				return
			}
			c.Set(v)
			found = append(found, c.Interface())
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if key := [2]any{v.UnsafePointer(), v.Type()}; !v.IsNil() && !seen[key] {
				seen[key] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Struct:
			for i := range v.NumField() {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			for i := range v.Len() {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		}
	}
	walk(reflect.ValueOf(root))
	return found
}

func vfInt(n string, lo, hi int) int {
	if v, ok := vfIn.Ints[vfName(n)]; ok {
		return v
	}
	return lo
}

func vfBool(n string) bool  { return vfIn.Bools[vfName(n)] }
func vfStr(n string) string { return vfIn.Strs[vfName(n)] }

func vfAssume(b bool) {
	if !b {
		panic(vfStop{"assume"})
	}
}

func vfZero(float64) {}

func vfFail(l string) {
	if vfBad == "" {
		vfBad = l
	}
}

func vfEq(l string, a, b float64) {
	fmt.Fprintf(vfOut, "LOG eq %x %x %s\n", math.Float64bits(a), math.Float64bits(b), l)
	if a == b {
		return
	}
	if !(math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b))) {
		vfFail(l)
	}
}

func vfLe(l string, a, b float64) {
	fmt.Fprintf(vfOut, "LOG le 0 0 %s\n", l)
	if !(a <= b+1e-9*(1+math.Abs(a)+math.Abs(b))) {
		vfFail(l)
	}
}

func vfCheck(l string, b bool) {
	fmt.Fprintf(vfOut, "LOG check 0 0 %s\n", l)
	if !b {
		vfFail(l)
	}
}

func vfCover(string)         {}
func vfMapOrder(string, int) {}
func vfNative() bool         { return true }
func vfIllConditioned()      {} // the following matrices have a hopeless condition number
func vfIntStr(i int) string  { return strconv.Itoa(i) }

// vfDoc replaces {{name}} in a JSON template by numbers.
func vfDoc(tmpl string, nums map[string]float64) []byte {
	for k, v := range nums {
		tmpl = strings.ReplaceAll(tmpl, "{{"+k+"}}", strconv.FormatFloat(v, 'g', -1, 64))
	}
	return []byte(tmpl)
}
