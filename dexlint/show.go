package main

import (
	"fmt"
	"strings"
)

// show prints the units of an entry (debugging aid): show ENTRY [loop-substring] [event-kind] [max]
func show(w *World, args []string) {
	e := w.ByName[args[0]]
	if e == nil {
		fmt.Println("no entry", args[0])
		return
	}
	lp, ek, max := "", "", 3
	if len(args) > 1 {
		lp = args[1]
	}
	if len(args) > 2 {
		ek = args[2]
	}
	if len(args) > 3 {
		fmt.Sscan(args[3], &max)
	}
	us := w.Units(e)
	n := 0
	for i, u := range us {
		name := "top"
		if u.Loop != nil {
			name = u.Loop.Loop
		}
		if lp != "" && !strings.HasSuffix(name, lp) {
			continue
		}
		ok := ek == ""
		for _, ev := range u.Events {
			if ev.Kind == ek || ek == ev.Name {
				ok = true
			}
		}
		if !ok {
			continue
		}
		n++
		if n > max {
			continue
		}
		fmt.Println("== unit", i, name)
		for _, f := range u.Facts.list() {
			if u.Parent != nil && strings.Contains(u.Loop.Facts.String(), f) {
				continue
			}
			fmt.Println("   fact", clip(f))
		}
		for _, ev := range u.Events {
			var as []string
			for _, a := range ev.Args {
				as = append(as, clip(a.str(9)))
			}
			for _, a := range ev.Snap {
				as = append(as, "SNAP "+clip(a.str(9)))
			}
			fmt.Println("   EV", ev.Kind, ev.Name, strings.Join(as, " ; "))
		}
		if u.Out != nil {
			fmt.Println("   RET", u.Out.Vals)
		}
	}
	fmt.Println("total units", len(us), "matching", n)
}

func clip(s string) string {
	if len(s) > clipN {
		return s[:clipN] + "…"
	}
	return s
}

var clipN = 600
