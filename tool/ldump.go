package main

import (
	"fmt"
	"os"
	"strings"
)

func ruleLDump(p *Program, r *Report) {
	l := newLgen(p, r)
	want := os.Getenv("LDF")
	for _, f := range l.interps {
		if want != "" && !strings.HasSuffix(fnName(f), want) {
			continue
		}
		ps := l.paths(f, r)
		fmt.Println("==", fnName(f), len(ps), l.over[f])
		for i, q := range ps {
			if i > 40 {
				break
			}
			if q.o.Kind != Ret {
				continue
			}
			s := ""
			for _, v := range q.o.Vals {
				s += " | " + q.st.resolve(v).String()
			}
			fmt.Println("  ", trunc(q.st.factString(), 600), "=>", trunc(s, 600))
			fl := func(st *State) string {
				s := ""
				for _, n := range []string{"n", "theScope", "hiScope", "hoaScope", "varScope"} {
					s += " " + n + "=" + trunc(st.resolve(l.field(st, n)).String(), 200)
				}
				return s
			}
			for _, e := range q.st.events {
				fmt.Println("     ev", e.Kind, e.Name, trunc(fmt.Sprint(e.Args), 300))
				if e.St != nil {
					fmt.Println("        ", fl(e.St))
				}
			}
			fmt.Println("     end", fl(q.st))
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
