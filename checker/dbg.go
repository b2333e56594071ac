package main

import (
	"fmt"
	"os"
	"sort"
)

func dbg(r *Repo) {
	e := newEng(r)
	e.initGlobals()
	fmt.Println("init ok nodes", len(e.nodes), "bdd", e.b.n, "events", len(e.Events))
	var ks []string
	for o, m := range e.Globals.mem {
		for k, v := range m.m {
			if len(o) > 2 && o[:2] == "g:" {
				ks = append(ks, fmt.Sprintf("%q=%s", o+k, v))
			}
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
	for _, m := range []string{"GetFlags", "SetFlags", "AddFlag", "RemoveFlag", "CheckFlag"} {
		fn := r.Method("", "FullBox", m)
		st := e.newState()
		args := e.symArgs(fn)
		v, s := e.runTop(fn, st, args)
		fmt.Println(m, v)
		for o, m := range s.mem {
			for k, x := range m.m {
				if o[0] == '*' {
					fmt.Printf("  %q = %s\n", o+k, x)
				}
			}
		}
	}
	for _, m := range []string{"MatchWith", "String"} {
		fn := r.Method("", "BoxType", m)
		v, _ := e.runTop(fn, e.newState(), e.symArgs(fn))
		fmt.Println(m, v)
	}
}

var dbgOn = os.Getenv("MP4VERIF_DEBUG") != ""
