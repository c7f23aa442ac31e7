package main

import (
	"fmt"
	"strings"
)

// product makes a scenario for every assignment of calls to threads of the
// given lengths; threads of equal length are interchangeable.
func product(base Scenario, ops []Op, shape ...int) []*Scenario {
	var out []*Scenario
	n := len(ops)
	pow := func(k int) int {
		r := 1
		for i := 0; i < k; i++ {
			r *= n
		}
		return r
	}
	idx := make([]int, len(shape))
	var rec func(t int)
	rec = func(t int) {
		if t == len(shape) {
			sc := base
			var names []string
			for i, k := range idx {
				var th []Op
				for j := 0; j < shape[i]; j++ {
					th = append(th, ops[k%n])
					k /= n
				}
				sc.Threads = append(sc.Threads, th)
				names = append(names, opNames(th))
			}
			sc.Name = base.Name + ": " + strings.Join(names, " || ")
			out = append(out, &sc)
			return
		}
		from := 0
		if t > 0 && shape[t] == shape[t-1] {
			from = idx[t-1]
		}
		for i := from; i < pow(shape[t]); i++ {
			idx[t] = i
			rec(t + 1)
		}
	}
	rec(0)
	return out
}

func op[W any](name string, f func(w W) string) Op {
	return Op{Name: name, Do: func(w any) string { return f(w.(W)) }}
}

func str(a ...any) string { return fmt.Sprint(a...) }
