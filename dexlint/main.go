package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is one decided property.
type Prop struct {
	ID      string
	Rule    func(w *World, r *R)
	Explain string
	Assume  []string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: dexlint check ID TIER EVIDENCE REPORT KNOWN | all | ID | show ENTRY ... | globals")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3], os.Args[4], os.Args[5], os.Args[6]))
	}
	w, err := analyse()
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "show":
		show(w, os.Args[2:])
		return
	case "showfn":
		showFn(w, os.Args[2:])
		return
	case "globals":
		for k, v := range w.P.globals {
			fmt.Println(k.Name, "=", clip(v.str(5)))
		}
		return
	}
	t0 := time.Now()
	for _, pr := range props {
		if os.Args[1] != "all" && os.Args[1] != pr.ID {
			continue
		}
		r := newR(w, pr.ID)
		t1 := time.Now()
		runRule(pr, w, r)
		n, bad := 0, 0
		var ks []string
		for k, v := range r.Count {
			n += v
			bad += r.Bad[k]
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ks)
		mark := "ok  "
		if len(r.Fails) > 0 {
			mark = "BAD "
		}
		fmt.Println(mark, pr.ID, "obligations", n, "bad", bad, "fails", len(r.Fails), ks, time.Since(t1).Round(time.Millisecond))
		for i, f := range r.Fails {
			if i < 12 {
				fmt.Println("  FAIL", f.Rule, "["+f.Construct+"]", f.Pos, f.Msg)
			}
		}
	}
	fmt.Println("rules:", time.Since(t0))
}

func analyse() (w *World, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("analysis panicked: %v\n%s", p, debug.Stack())
		}
	}()
	p, err := loadProgram()
	if err != nil {
		return nil, err
	}
	if err = p.evalGlobals(pAmm, pTypes, pKeep); err != nil {
		return nil, err
	}
	return buildWorld(p)
}

// runRule runs one rule; a panic of the rule (an anchor it needs is gone)
// counts as an undecided obligation.
func runRule(pr Prop, w *World, r *R) {
	defer func() {
		if p := recover(); p != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			at := ""
			for _, l := range st {
				if strings.Contains(l, "rules_") {
					at = strings.TrimSpace(l)
					break
				}
			}
			r.Fails = append(r.Fails, Fail{"UNDECIDED", "anchor", "", fmt.Sprintf("a construct this rule is anchored to could not be resolved: %v (%s)", p, at)})
		}
	}()
	pr.Rule(w, r)
}

func check(id, tier, evidence, report, known string) int {
	t0 := time.Now()
	var pr *Prop
	for i := range props {
		if props[i].ID == id {
			pr = &props[i]
		}
	}
	if pr == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	w, err := analyse()
	r := newR(w, id)
	if err != nil {
		r.Fails = append(r.Fails, Fail{"UNDECIDED", "analysis", "", err.Error()})
	} else {
		runRule(*pr, w, r)
	}
	// known findings
	kf := map[string]string{}
	if f, err := os.Open(known); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if !strings.HasPrefix(l, "finding: property="+id+" ") {
				continue
			}
			l = strings.TrimPrefix(l, "finding: property="+id+" ")
			if i := strings.Index(l, " :: "); i > 0 && strings.HasPrefix(l, "key=") {
				kf[strings.TrimPrefix(l[:i], "key=")] = l[i+4:]
			}
		}
		f.Close()
	}
	var fails []Fail
	usedK := map[string]bool{}
	for _, f := range r.Fails {
		if d, ok := kf[f.key()]; ok {
			if !usedK[f.key()] {
				usedK[f.key()] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
			}
			continue
		}
		fails = append(fails, f)
	}
	n, bad := 0, 0
	for k, v := range r.Count {
		n += v
		bad += r.Bad[k]
	}
	cov := map[string]any{
		"explanation":         pr.Explain,
		"obligations":         n,
		"discharged":          n - bad,
		"obligations_by_rule": r.Count,
		"samples":             r.Sample,
	}
	if w != nil {
		us, evs := 0, 0
		entries := map[string]int{}
		for _, e := range w.Entries {
			u := w.Units(e)
			entries[e.Name] = len(u)
			us += len(u)
			for _, x := range u {
				evs += len(x.Events)
			}
		}
		cov["entry_paths"] = entries
		cov["abstract_paths"] = us
		cov["effects_on_paths"] = evs
		cov["functions_interpreted"] = len(w.fns)
		cov["functions_in_repo"] = len(w.P.AllFns)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{
			"the Go type checker and SSA builder (golang.org/x/tools) represent the source faithfully",
			"the effect models of the cosmos-sdk store, bank, codec, math and params interfaces used by the analyser",
		}, pr.Assume...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evidence), 0o755)
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(fails) == 0 {
		fmt.Printf("property %s holds: %d obligations discharged\n", id, n)
		os.Remove(report)
		return 0
	}
	var sb strings.Builder
	for _, f := range fails {
		fmt.Fprintf(&sb, "%s [%s] %s\n  %s\n", f.Rule, f.Construct, f.Pos, f.Msg)
	}
	os.WriteFile(report, []byte(sb.String()), 0o644)
	for i, f := range fails {
		if i >= 20 {
			fmt.Printf("... and %d more, see the report\n", len(fails)-i)
			break
		}
		fmt.Printf("%s [%s] %s: %s\n", f.Rule, f.Construct, f.Pos, clip(f.Msg))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	return 1
}
