package main

// Stand-ins for (*testing.T) and regexp. A test handle only counts failure reports; FailNow and its
// callers leave the function under test. Regular expressions are evaluated by the host on concrete
// strings.

import (
	"regexp"

	"golang.org/x/tools/go/ssa"
)

func init() {
	fail := func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		m.tFailed++
		return nil
	}
	fatal := func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		m.tFailed++
		panic(targetGoexit{})
	}
	nop := func(m *machine, c *frame, fn *ssa.Function, a []value) value { return nil }
	reg := func(n string, f intrinsic) {
		intrinsics["(*testing.common)."+n] = f
		intrinsics["(*testing.T)."+n] = f
	}
	reg("Fail", fail)
	reg("Error", fail)
	reg("Errorf", fail)
	reg("FailNow", fatal)
	reg("Fatal", fatal)
	reg("Fatalf", fatal)
	reg("Helper", nop)
	reg("Log", nop)
	reg("Logf", nop)
	failed := func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.tFailed > 0 }
	reg("Failed", failed)

	intrinsics["regexp.Compile"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		re, err := regexp.Compile(m.hostStr(a[0]))
		if err != nil {
			return tuple{(*value)(nil), m.mkError(err.Error())}
		}
		return tuple{m.newRegexp(fn, re), iface{}}
	}
	intrinsics["regexp.MustCompile"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		re, err := regexp.Compile(m.hostStr(a[0]))
		if err != nil {
			panic(targetPanic{v: m.mkError(err.Error())})
		}
		return m.newRegexp(fn, re)
	}
	intrinsics["regexp.MatchString"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		ok, err := regexp.MatchString(m.hostStr(a[0]), m.hostStr(a[1]))
		if err != nil {
			return tuple{false, m.mkError(err.Error())}
		}
		return tuple{ok, iface{}}
	}
	intrinsics["(*regexp.Regexp).MatchString"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		return m.regexpOf(a[0]).MatchString(m.hostStr(a[1]))
	}
	intrinsics["(*regexp.Regexp).Match"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		s, ok := bytesOf(a[1])
		if !ok {
			panic(pathUnsupported{"regexp on symbolic bytes"})
		}
		return m.regexpOf(a[0]).MatchString(s)
	}
	intrinsics["(*regexp.Regexp).FindString"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		return m.regexpOf(a[0]).FindString(m.hostStr(a[1]))
	}
	intrinsics["(*regexp.Regexp).String"] = func(m *machine, c *frame, fn *ssa.Function, a []value) value {
		return m.regexpOf(a[0]).String()
	}
}

func (m *machine) hostStr(v value) string {
	s, ok := v.(string)
	if !ok {
		s, ok = m.forceStr(v)
	}
	if !ok {
		panic(pathUnsupported{"regexp on symbolic string"})
	}
	return s
}

func (m *machine) newRegexp(fn *ssa.Function, re *regexp.Regexp) value {
	p := new(value)
	*p = m.zero(deref(fn.Signature.Results().At(0).Type()))
	if m.regexps == nil {
		m.regexps = map[*value]*regexp.Regexp{}
	}
	m.regexps[p] = re
	return p
}

func (m *machine) regexpOf(v value) *regexp.Regexp {
	p, _ := v.(*value)
	re := m.regexps[p]
	if re == nil {
		if p == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		panic(pathUnsupported{"unknown regexp"})
	}
	return re
}
