// Package hmycnf checks the my.cnf generator.
package hmycnf

import (
	"strings"

	"github.com/cybozu-go/moco/pkg/mycnf"
	vf "github.com/cybozu-go/moco/zzvf"
)

type line struct{ k, v string }

// section returns the "k = v" lines of a section.
func section(out, name string) []line {
	var r []line
	in := false
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "[") {
			in = l == "["+name+"]"
			continue
		}
		if !in || l == "" || strings.HasPrefix(l, "!") {
			continue
		}
		i := strings.Index(l, " = ")
		if i < 0 {
			r = append(r, line{"", l})
			continue
		}
		r = append(r, line{l[:i], l[i+3:]})
	}
	return r
}

// base is the spelling-independent name of an option as mysqld resolves it.
func base(k string) string {
	k = strings.ReplaceAll(k, "-", "_")
	return strings.TrimPrefix(k, "loose_")
}

func key(name string, lo, hi int) string {
	n := vf.Int(name+".len", lo, hi)
	k := vf.StrN(name, n, '-', 'z')
	for i := 0; i < len(k); i++ {
		c := k[i]
		vf.Assume(vf.Or(c == '-', c == '_', vf.And(c >= 'a', c <= 'z')))
	}
	return k
}

var special = []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"}

// ForcedOptions: whatever single option the user sets, MOCO's own settings
// win, the binary log cannot be switched off, and the option is effective if
// it is not one of those.
func ForcedOptions() {
	check(key("k", vf.Param("lo", 1), vf.Param("hi", 20)))
}

// Forced: every option that MOCO sets or drops, in every spelling.
func Forced() {
	var names []string
	names = append(names, special...)
	names = append(names, sorted(mycnf.ConstMycnf["mysqld"])...)
	names = append(names, sorted(mycnf.DefaultMycnf)...)
	names = append(names, "innodb_buffer_pool_size")
	i := vf.Int("which", 0, len(names)-1)
	n := base(names[pick(i, len(names))])
	if vf.Bool("loose") {
		n = "loose_" + n
	}
	b := []byte(n)
	for j := range b {
		if b[j] == '_' {
			b[j] = vf.IteByte(vf.Bool("dash"), '-', '_')
		}
	}
	check(string(b))
}

func pick(i, n int) int {
	for j := 0; j < n-1; j++ {
		if i == j {
			return j
		}
	}
	return n - 1
}

func sorted(m map[string]string) []string {
	var r []string
	for k := range m {
		i := len(r)
		r = append(r, k)
		for i > 0 && r[i-1] > k {
			r[i] = r[i-1]
			i--
		}
		r[i] = k
	}
	return r
}

func check(k string) {
	vf.Assume(vf.And(k != "_include", k != "-include"))
	out := mycnf.Generate(map[string]string{k: "@user@"}, 1<<30)
	ls := section(out, "mysqld")
	vf.Assert(len(ls) > 40, "mysqld section present")
	ub := base(k)
	forced := false
	for c, want := range mycnf.ConstMycnf["mysqld"] {
		cb := base(c)
		n := 0
		for _, l := range ls {
			if base(l.k) == cb {
				n++
				vf.Assert(l.v == want, "a forced option keeps MOCO's value")
			}
		}
		vf.Assert(n == 1, "a forced option appears exactly once")
		forced = vf.Or(forced, ub == cb)
	}
	gone := false
	for _, d := range special {
		gone = vf.Or(gone, ub == d)
		for _, l := range ls {
			vf.Assert(base(l.k) != d, "binary and error log destinations cannot be changed")
		}
	}
	last := ""
	for _, l := range ls {
		if base(l.k) == ub {
			last = l.v
		}
	}
	if vf.And(vf.Not(forced), vf.Not(gone)) {
		vf.Reach("effective")
		vf.Assert(last == "@user@", "a user option is effective")
	} else if forced {
		vf.Reach("forced")
	} else {
		vf.Reach("dropped")
	}
	// the others are not affected
	for d, want := range mycnf.DefaultMycnf {
		db := base(d)
		n := 0
		for _, l := range ls {
			if base(l.k) == db {
				n++
				vf.Assert(vf.Or(l.v == want, ub == db), "other defaults stay")
			}
		}
		vf.Assert(n > 0, "a default is present")
	}
	vf.Event(out)
}

// Deterministic: the output depends on nothing but the input.
func Deterministic() {
	a := key("a", vf.Param("lo", 1), vf.Param("hi", 3))
	b := key("b", vf.Param("lo", 1), vf.Param("hi", 3))
	pa, pb := "", ""
	if vf.Bool("loose-a") {
		pa = "loose_"
	}
	if vf.Bool("loose-b") {
		pb = "loose-"
	}
	a, b = pa+a, pb+b
	vf.Assume(a != b)
	conf := map[string]string{a: "1", b: "2"}
	vf.MapOrder(3)
	o1 := mycnf.Generate(conf, 1<<30)
	o2 := mycnf.Generate(conf, 1<<30)
	vf.Assert(o1 == o2, "the same input gives the same my.cnf")
	vf.Reach("end")
}
