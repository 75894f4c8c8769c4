package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable effect in the abstract trace of a state.
type Event struct {
	Kind  string // bank, kvset, kvdel, kviter, emit, gas, pset, call, loop, mapset, go, sort
	Name  string
	Args  []*Term
	Facts *Facts
	Pos   token.Pos
	Path  string
	Res   *Term   // error result, when the effect can fail
	Err   *Term   // the error among the results
	Ver   string  // the last fill of an order before an opaque call
	Old   *Term   // what the store has under the key, before a write
	Snap  []*Term // arguments with pointed-to objects written out (opaque calls)
	// loops
	Bodies []*BodyPath
	Loop   string
	Joined string            // the later loop fused into this one
	Mus    map[*Term]*MuInfo // what the loop changes, as entered here
}

// BodyPath is one abstract path through a loop body.
type BodyPath struct {
	Events []*Event
	Facts  *Facts
	hash   uint64
}

type evNode struct {
	prev *evNode
	ev   *Event
	hash uint64
	n    int
}

func (e *Event) key() string {
	var sb strings.Builder
	sb.WriteString(e.Kind + "|" + e.Name)
	for _, a := range e.Args {
		if a != nil {
			sb.WriteString("|" + strconv.Itoa(a.ID))
		}
	}
	if e.Kind == "loop" {
		sb.WriteString(e.Loop)
		for _, b := range e.Bodies {
			sb.WriteString("/" + strconv.FormatUint(b.hash, 16))
		}
		var ms []string
		for m, mi := range e.Mus {
			x := strconv.Itoa(m.ID)
			if mi.Init != nil {
				x += ":" + strconv.Itoa(mi.Init.ID)
			}
			for _, b := range mi.Backs {
				x += "," + strconv.Itoa(b.Val.ID)
			}
			ms = append(ms, x)
		}
		sort.Strings(ms)
		sb.WriteString(strings.Join(ms, ";"))
	}
	return sb.String()
}

func push(p *evNode, e *Event) *evNode {
	h := fnv.New64a()
	var ph uint64
	n := 0
	if p != nil {
		ph = p.hash
		n = p.n
	}
	fmt.Fprintf(h, "%x", ph)
	h.Write([]byte(e.key()))
	return &evNode{p, e, h.Sum64(), n + 1}
}

func (n *evNode) until(stop *evNode) []*Event {
	var r []*Event
	for x := n; x != nil && x != stop; x = x.prev {
		r = append(r, x.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// kvNode is the abstract history of key-value store writes.
type kvNode struct {
	prev *kvNode
	key  *Term // nil for havoc nodes
	val  *Term // nil = deleted
	tag  string
	pfx  []*Term // havoc: keys (shapes) possibly written
}

type deferCall struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	inst ssa.Instruction
}

type frameState struct {
	env    map[ssa.Value]*Term
	defers []deferCall
}

func (f *frameState) clone() *frameState {
	n := &frameState{env: make(map[ssa.Value]*Term, len(f.env)+4), defers: append([]deferCall(nil), f.defers...)}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

// State is one partition of the abstract state at a program point.
type State struct {
	mem      map[*Term]*Term
	facts    *Facts
	ev       *evNode
	kv       *kvNode
	fr       *frameState
	bankVer  string
	panicVal *Term
	inDefer  bool
}

func (s *State) clone() *State {
	n := *s
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.fr = s.fr.clone()
	return &n
}

// Outcome is the result of analysing a function from some state.
type Outcome struct {
	St   *State
	Kind string // "ret" or "panic"
	Vals []*Term
	Pos  token.Pos
	// Recovered: the function panicked and recovered
	Recovered bool
}

func (o *Outcome) Events() []*Event { return o.St.ev.until(nil) }
func (o *Outcome) Facts() *Facts    { return o.St.facts }

// MuInfo describes a loop-carried value.
type MuInfo struct {
	Init  *Term
	Backs []MuBack
	Loop  string
	kv    *kvNode // the store when the loop began
}
type MuBack struct {
	Val   *Term
	Facts *Facts
	Snap  *Term // Val with pointed-to objects written out
}

const (
	Inline = iota
	OpaquePure
	OpaqueEvent
)

// Interp is the trace-partitioned dataflow engine.
type Interp struct {
	P        *Program
	Policy   func(fn *ssa.Function) int
	Mus      map[*Term]*MuInfo
	Analysed map[*ssa.Function]bool
	Calls    int
	Havocked map[string]bool
	Cap      int
	steps    int
	Aborted  string
	stack    []*ssa.Function
	IterEv   bool // iterator steps and closings are events
}

func NewInterp(p *Program, policy func(fn *ssa.Function) int) *Interp {
	return &Interp{P: p, Policy: policy, Mus: map[*Term]*MuInfo{}, Analysed: map[*ssa.Function]bool{}, Havocked: map[string]bool{}, Cap: 160}
}

type abort struct{ msg string }

// Run analyses fn from its entry with symbolic parameters.
func (in *Interp) Run(fn *ssa.Function) (outs []*Outcome) {
	st := in.freshState()
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, entryParam(p, i))
	}
	return in.RunWith(fn, args, st)
}

func (in *Interp) freshState() *State {
	return &State{mem: map[*Term]*Term{}, facts: newFacts(), fr: &frameState{env: map[ssa.Value]*Term{}}}
}

func entryParam(p *ssa.Parameter, i int) *Term {
	name := p.Name()
	if name == "" || name == "_" {
		name = fmt.Sprintf("arg%d", i)
	}
	if _, ok := p.Type().Underlying().(*types.Pointer); ok {
		name = "*" + name
	}
	t := mk("param", name, p.Type())
	if t.Typ != nil && !types.Identical(t.Typ, p.Type()) { // another parameter of that name
		t = mk("param", name+":"+typeName(p.Type()), p.Type())
	}
	return t
}

func (in *Interp) RunWith(fn *ssa.Function, args []*Term, st *State) (outs []*Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				in.Aborted = a.msg
				outs = nil
				return
			}
			panic(r)
		}
	}()
	return in.execFunc(fn, args, nil, st, "")
}

func (in *Interp) execFunc(fn *ssa.Function, args []*Term, bindings []*Term, st *State, path string) []*Outcome {
	if len(fn.Blocks) == 0 {
		panic(abort{"no body: " + fn.String()})
	}
	in.Analysed[fn] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	saved := st.fr
	s := *st
	s.fr = &frameState{env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			s.fr.env[p] = args[i]
		} else {
			s.fr.env[p] = entryParam(p, i)
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			s.fr.env[fv] = bindings[i]
		} else {
			s.fr.env[fv] = mk("freevar", path+fv.Name(), fv.Type())
		}
	}
	c := &fctx{in: in, fn: fn, path: path + "/" + fn.Name(), li: loopsOf(fn)}
	r := c.runRegion(nil, fn.Blocks[0], []*State{&s})
	outs := r.outs
	// panics inside a frame with deferred recovers
	var final []*Outcome
	for _, o := range outs {
		if o.Kind == "panic" && len(o.St.fr.defers) > 0 {
			o.St.panicVal = o.Vals[0]
			for _, o2 := range c.runDefers(o.St) {
				if o2.Kind == "panic" {
					final = append(final, o2)
					continue
				}
				if o2.St.panicVal != nil {
					pv := o2.St.panicVal
					o2.St.panicVal = nil
					final = append(final, &Outcome{St: o2.St, Kind: "panic", Vals: []*Term{pv}, Pos: o.Pos})
					continue
				}
				// recovered
				if fn.Recover != nil {
					rr := c.runRegion(nil, fn.Recover, []*State{o2.St})
					for _, ro := range rr.outs {
						ro.Recovered = true
					}
					final = append(final, rr.outs...)
				} else {
					var zs []*Term
					res := fn.Signature.Results()
					for i := 0; i < res.Len(); i++ {
						zs = append(zs, zeroTerm(res.At(i).Type()))
					}
					final = append(final, &Outcome{St: o2.St, Kind: "ret", Vals: zs, Pos: o.Pos, Recovered: true})
				}
			}
			continue
		}
		final = append(final, o)
	}
	for _, o := range final {
		if saved != nil {
			o.St.fr = saved // caller clones when branching
		}
	}
	return final
}

// ---- loops ---------------------------------------------------------------

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
	rpo      []*ssa.BasicBlock
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// RPO ignoring back edges
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit loop-exit successors first so that loop bodies precede exits in RPO
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		for _, s := range succs {
			if seen[s] || s.Dominates(b) {
				continue
			}
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	loopCache[fn] = li
	return li
}

type fctx struct {
	in   *Interp
	fn   *ssa.Function
	path string
	li   *loopInfo
}

type regionResult struct {
	exits map[*ssa.BasicBlock][]*State
	back  []*State
	outs  []*Outcome
}

func (c *fctx) runRegion(loop *Loop, entry *ssa.BasicBlock, entryStates []*State) *regionResult {
	r := &regionResult{exits: map[*ssa.BasicBlock][]*State{}}
	pending := map[*ssa.BasicBlock][]*State{entry: entryStates}
	deliver := func(target *ssa.BasicBlock, st *State) {
		if loop != nil && target == entry {
			r.back = append(r.back, st)
			return
		}
		if loop != nil && !loop.blocks[target] {
			r.exits[target] = append(r.exits[target], st)
			return
		}
		pending[target] = append(pending[target], st)
	}
	for _, b := range c.li.rpo {
		states := pending[b]
		if len(states) == 0 {
			continue
		}
		delete(pending, b)
		states = c.mergeStates(b, states)
		if l := c.li.byHeader[b]; l != nil && l != loop {
			for _, st := range states {
				lr := c.runLoop(l, st)
				r.outs = append(r.outs, lr.outs...)
				for _, t := range sortedBlocks(lr.exits) {
					for _, s := range lr.exits[t] {
						deliver(t, s)
					}
				}
			}
			continue
		}
		for _, st := range states {
			c.execInstrs(b, 0, st, func(from *ssa.BasicBlock, target *ssa.BasicBlock, s *State) {
				c.evalPhis(from, target, s)
				deliver(target, s)
			}, func(o *Outcome) { r.outs = append(r.outs, o) })
		}
	}
	if loop != nil {
		r.back = c.mergeStates(nil, r.back)
	}
	return r
}

func sortedBlocks(m map[*ssa.BasicBlock][]*State) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range m {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

func (c *fctx) evalPhis(from, target *ssa.BasicBlock, s *State) {
	pi := -1
	for i, p := range target.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, ins := range target.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, c.val(s, phi.Edges[pi]))
	}
	for i, p := range phis {
		s.fr.env[p] = vals[i]
	}
}

// mergeStates joins partitions: identical ones are always merged; above the
// cap, partitions with the same event history are joined.
func (c *fctx) mergeStates(b *ssa.BasicBlock, states []*State) []*State {
	if len(states) <= 1 {
		return states
	}
	if len(states) > 4*c.in.Cap*4 {
		panic(abort{fmt.Sprintf("state explosion (%d) in %s", len(states), c.path)})
	}
	if len(states) <= c.in.Cap {
		return states
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range states {
		var h uint64
		if s.ev != nil {
			h = s.ev.hash
		}
		k := fmt.Sprintf("%x|%p|%v", h, s.kv, s.panicVal)
		// partition on phi values of this block and boolean/err values
		if b != nil {
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if v := s.fr.env[phi]; v != nil {
					k += "|" + strconv.Itoa(v.ID)
				}
			}
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var res []*State
	for _, k := range order {
		g := groups[k]
		res = append(res, c.join(g))
	}
	return res
}

func (c *fctx) join(g []*State) *State {
	if len(g) == 1 {
		return g[0]
	}
	n := g[0].clone()
	f := newFacts()
	for a, v := range g[0].facts.m {
		ok := true
		for _, s := range g[1:] {
			if x, has := s.facts.m[a]; !has || x != v {
				ok = false
				break
			}
		}
		if ok {
			f.m[a] = v
		}
	}
	n.facts = f
	for k, v := range g[0].fr.env {
		for _, s := range g[1:] {
			x, has := s.fr.env[k]
			if !has {
				delete(n.fr.env, k)
				break
			}
			if x != v {
				n.fr.env[k] = mk("join", c.path+":"+k.Name(), k.Type())
				break
			}
		}
	}
	for k, v := range g[0].mem {
		for _, s := range g[1:] {
			if x := s.mem[k]; x != v {
				n.mem[k] = mk("join", c.path+":mem:"+strconv.Itoa(k.ID), nil)
				if v.Typ != nil {
					n.mem[k].Typ = v.Typ
				}
				break
			}
		}
	}
	return n
}

func (c *fctx) havocMerge(a, b *Term, name string, typ types.Type) *Term {
	if a == b {
		return a
	}
	if a != nil && a.Op == "mu" && a.Name == name {
		return a
	}
	if typ == nil && a != nil {
		typ = a.Typ
	}
	if st := structOf(typ); st != nil && a != nil && b != nil && st.NumFields() > 0 && (a.Op == "struct" || b.Op == "struct" || a.Op == "zero" || b.Op == "zero") {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = c.havocMerge(mkField(a, typ, i), mkField(b, typ, i), name+"."+st.Field(i).Name(), st.Field(i).Type())
		}
		return mkStruct(typ, args)
	}
	return mk("mu", name, typ)
}

// tryUnroll executes a loop exactly when its header test is decided by the
// facts on every iteration (constant trip count, e.g. a range over a list
// literal). It returns nil when any test is undecided.
func (c *fctx) tryUnroll(l *Loop, st *State) *regionResult {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	if _, ok := last.(*ssa.If); !ok {
		return nil
	}
	for _, ins := range l.header.Instrs {
		switch ins.(type) {
		case *ssa.Call, *ssa.Defer, *ssa.RunDefers, *ssa.Next:
			return nil
		}
	}
	decided := func(s *State) bool {
		n := 0
		probe := s.clone()
		c.execInstrs(l.header, 0, probe, func(from, to *ssa.BasicBlock, s *State) { n++ }, func(*Outcome) { n += 2 })
		return n == 1
	}
	res := &regionResult{exits: map[*ssa.BasicBlock][]*State{}}
	cur := []*State{st.clone()}
	for k := 0; k <= 24; k++ {
		if len(cur) == 0 {
			return res
		}
		if len(cur) > 64 {
			return nil
		}
		for _, s := range cur {
			if !decided(s) {
				return nil
			}
		}
		cc := *c
		cc.path = fmt.Sprintf("%s[%d]", c.path, k)
		var next []*State
		for _, s := range cur {
			r := cc.runRegion(l, l.header, []*State{s})
			res.outs = append(res.outs, r.outs...)
			for _, t := range sortedBlocks(r.exits) {
				res.exits[t] = append(res.exits[t], r.exits[t]...)
			}
			next = append(next, r.back...)
		}
		cur = next
	}
	return nil
}

func (c *fctx) runLoop(l *Loop, st *State) *regionResult {
	if r := c.tryUnroll(l, st); r != nil {
		return r
	}
	loopID := fmt.Sprintf("%s@L%d", c.path, l.header.Index)
	header := l.header
	var phis []*ssa.Phi
	for _, ins := range header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	cur := st.clone()
	entry := st
	var kvh *kvNode
	for pass := 0; ; pass++ {
		if pass > 12 {
			panic(abort{"loop fixpoint does not stabilise in " + loopID})
		}
		start := cur.clone()
		le := &Event{Kind: "loop", Name: loopID, Loop: loopID, Facts: start.facts, Path: c.path, Pos: headerPos(header)}
		start.ev = &evNode{prev: entry.ev, ev: le, n: evLen(entry.ev) + 1}
		base := start.ev
		if kvh != nil {
			start.kv = kvh
		}
		startKV := start.kv
		r := c.runRegion(l, header, []*State{start})
		r = c.lastRounds(l, phis, entry, r)
		// compare back states
		changed := false
		next := cur.clone()
		for _, bs := range r.back {
			for _, p := range phis {
				nv := c.havocMerge(next.fr.env[p], bs.fr.env[p], loopID+":"+p.Name(), p.Type())
				if nv != next.fr.env[p] {
					changed = true
					next.fr.env[p] = nv
				}
			}
			for root, v := range bs.mem {
				if root.Op == "mapver" {
					// a map written in the loop: its content is unknown from here on
					m := root.Args[0]
					if next.mem[root] != v && !allocatedIn(m, loopID, c.path, entry) && next.mapVer(m) != loopID {
						next.havocMap(m, loopID)
						changed = true
					}
					continue
				}
				if root.Op == "mapcell" || root.Op == "slicever" {
					continue
				}
				if root.Op == "iaddr" && root.Args[0].Op == "mkslice" && !isLit(root.Args[1]) {
					// a new slice filled in the loop: its elements are unknown from here on
					b := root.Args[0]
					if ver := next.mem[sliceVerKey(b)]; !allocatedIn(b, loopID, c.path, entry) && (ver == nil || ver.Name != loopID) {
						next.havocSlice(b, loopID)
						changed = true
					}
					continue
				}
				if root.Op == "iaddr" && c.stepping(root.Args[1], l, phis, loopID, bs) {
					continue // each round writes another element
				}
				old, ok := next.mem[root]
				if !ok {
					// created inside the loop: visible cells of outer objects
					if in := initialCell(root); in != nil && in != v && !allocatedIn(root, loopID, c.path, entry) {
						old = in
						ok = true
					}
				}
				if !ok {
					continue
				}
				nv := c.havocMerge(old, v, loopID+":m"+strconv.Itoa(root.ID), cellType(root, old))
				if nv != old || next.mem[root] == nil {
					if next.mem[root] != nv {
						changed = true
						next.mem[root] = nv
					}
				}
			}
			// kv writes
			for n := bs.kv; n != nil && n != startKV; n = n.prev {
				if kvh == nil {
					kvh = &kvNode{prev: entry.kv, tag: loopID}
					changed = true
				}
				ks := n.pfx
				if n.key != nil {
					ks = []*Term{n.key}
				}
				for _, k := range ks {
					dup := false
					for _, x := range kvh.pfx {
						if x == k {
							dup = true
						}
					}
					if !dup {
						kvh = &kvNode{prev: entry.kv, tag: loopID, pfx: append(append([]*Term(nil), kvh.pfx...), k)}
						changed = true
					}
				}
			}
			if bs.bankVer != next.bankVer && next.bankVer != "mu:"+loopID {
				next.bankVer = "mu:" + loopID
				changed = true
			}
		}
		cur = next
		if !changed {
			// finalise
			hs := map[uint64]bool{}
			for _, bs := range r.back {
				bp := &BodyPath{Events: bs.ev.until(base), Facts: bs.facts}
				hsh := fnv.New64a()
				for _, e := range bp.Events {
					hsh.Write([]byte(e.key()))
				}
				bp.hash = hsh.Sum64()
				hs[bp.hash] = true
				le.Bodies = append(le.Bodies, bp)
			}
			le.Mus = map[*Term]*MuInfo{}
			var regMu func(v, e *Term, back func(*State) *Term, typ types.Type)
			regMu = func(v, e *Term, back func(*State) *Term, typ types.Type) {
				if v == nil {
					return
				}
				if v.Op == "mu" && strings.HasPrefix(v.Name, loopID+":") {
					mi := &MuInfo{Init: e, Loop: loopID, kv: entry.kv}
					for _, bs := range r.back {
						if bv := back(bs); bv != nil {
							mi.Backs = append(mi.Backs, MuBack{bv, bs.facts, c.snapshot(bs, bv, 8)})
						}
					}
					c.in.Mus[v] = mi
					le.Mus[v] = mi
					return
				}
				if v.Op == "struct" && v.Typ != nil {
					for i := range v.Args {
						i := i
						var ee *Term
						if e != nil {
							ee = mkField(e, v.Typ, i)
						}
						regMu(v.Args[i], ee, func(s *State) *Term {
							b := back(s)
							if b == nil {
								return nil
							}
							return mkField(b, v.Typ, i)
						}, nil)
					}
				}
			}
			for i := range phis {
				p := phis[i]
				regMu(cur.fr.env[p], entry.fr.env[p], func(s *State) *Term { return s.fr.env[p] }, nil)
			}
			for root, v := range cur.mem {
				e := entry.mem[root]
				if e == nil {
					e = initialCell(root)
				}
				regMu(v, e, func(s *State) *Term { return s.mem[root] }, nil)
			}
			base.hash = push(entry.ev, le).hash
			return r
		}
	}
}

// stepping: an index that moves by a constant in every round.
func (c *fctx) stepping(idx *Term, l *Loop, phis []*ssa.Phi, loopID string, bs *State) bool {
	for _, p := range phis {
		m := mk("mu", loopID+":"+p.Name(), p.Type())
		if bs.fr.env[p] == nil || linAdd(idx, m, -1, nil).Op != "int" {
			continue
		}
		if d := linAdd(bs.fr.env[p], m, -1, nil); d.Op == "int" && d != constInt(0) {
			return true
		}
	}
	return false
}

// lastRounds follows the rounds that set a flag the loop then stops on: what
// comes after such a round is part of it.
func (c *fctx) lastRounds(l *Loop, phis []*ssa.Phi, entry *State, r *regionResult) *regionResult {
	flag := func(s *State) bool {
		for _, p := range phis {
			v, init := s.fr.env[p], entry.fr.env[p]
			if v == nil || init == nil || v == init {
				continue
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && v.Op == "bool" {
				return true
			}
			if types.IsInterface(p.Type()) && init.Op == "nil" && (nilness(v) == -1 || s.facts.contra(isNilL(v))) {
				return true
			}
		}
		return false
	}
	res := &regionResult{outs: r.outs, exits: r.exits}
	for _, bs := range r.back {
		if flag(bs) {
			n := c.runRegion(l, l.header, []*State{bs.clone()})
			if len(n.back) == 0 {
				res.outs = append(res.outs, n.outs...)
				for _, t := range sortedBlocks(n.exits) {
					res.exits[t] = append(res.exits[t], n.exits[t]...)
				}
				continue
			}
		}
		res.back = append(res.back, bs)
	}
	return res
}

func evLen(n *evNode) int {
	if n == nil {
		return 0
	}
	return n.n
}

func headerPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

// allocatedIn reports whether a memory root was allocated inside the loop body.
func allocatedIn(root *Term, loopID, path string, entry *State) bool {
	r := root
	for {
		switch r.Op {
		case "iaddr", "mapcell", "faddr":
			r = r.Args[0]
			continue
		case "alloc", "mkmap", "mkslice":
			_, ok := entry.mem[r]
			if r.Op != "alloc" {
				_, ok = entry.mem[mk("maphere", "", nil, r)]
			}
			return !ok
		}
		return false
	}
}

func sliceVerKey(b *Term) *Term { return mk("slicever", "", nil, b) }

// havocSlice forgets the elements of a new slice.
func (s *State) havocSlice(b *Term, ver string) {
	for root := range s.mem {
		if root.Op == "iaddr" && root.Args[0] == b {
			delete(s.mem, root)
		}
	}
	s.mem[sliceVerKey(b)] = mk("ver", ver, nil)
}

func mapverKey(m *Term) *Term { return mk("mapver", "", nil, m) }

func (s *State) mapVer(m *Term) string {
	if v := s.mem[mapverKey(m)]; v != nil {
		return v.Name
	}
	return ""
}

// havocMap forgets the content of a map.
func (s *State) havocMap(m *Term, ver string) {
	for root := range s.mem {
		if root.Op == "mapcell" && root.Args[0] == m {
			delete(s.mem, root)
		}
	}
	s.mem[mapverKey(m)] = mk("ver", ver, nil)
}

// setMap stores into a map; entries whose key may be the same are forgotten.
func (s *State) setMap(m, k, v *Term, typ types.Type) {
	cell := mk("mapcell", "", typ, m, k)

	for root := range s.mem {
		if root.Op == "mapcell" && root.Args[0] == m && root != cell {
			if isLit(root.Args[1]) && isLit(k) {
				continue
			}
			delete(s.mem, root)

		}
	}

	lits := isLit(k) && s.onlyLits(m)
	ver := mk("ver", s.mapVer(m)+"+"+strconv.Itoa(k.ID)+"."+strconv.Itoa(v.ID), nil)
	s.mem[mapverKey(m)] = ver
	s.mem[cell] = v
	if lits {
		s.mem[mk("maplits", "", nil, m)] = ver
	}
}

// onlyLits: all keys in the map are constants put there by this run, and known.
func (s *State) onlyLits(m *Term) bool {
	if _, here := s.mem[mk("maphere", "", nil, m)]; !here || m.Op != "mkmap" {
		return false
	}
	v := s.mapVer(m)
	if v == "" {
		return true
	}
	l := s.mem[mk("maplits", "", nil, m)]
	return l != nil && l.Name == v
}

func initialCell(root *Term) *Term {
	switch root.Op {
	case "alloc":
		return nil
	case "iaddr":
		return mkElem(root.Args[0], root.Args[1])
	}
	return mk("deref", "", root.Typ, root)
}

func cellType(root, old *Term) types.Type {
	if old != nil && old.Typ != nil {
		return old.Typ
	}
	return root.Typ
}

// ---- instructions ----------------------------------------------------------

func (c *fctx) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk("global", v.RelString(nil), v.Type())
	case *ssa.Function:
		return c.in.P.funcTerm(v)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	if t, ok := s.fr.env[v]; ok && t != nil {
		return t
	}
	return mk("undef", c.path+":"+v.Name(), v.Type())
}

func constTerm(v *ssa.Const) *Term {
	if v.Value == nil {
		if v.Type() == nil {
			return nilTerm
		}
		return zeroTerm(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return constBool(constant.BoolVal(v.Value))
	case constant.String:
		return constStr(constant.StringVal(v.Value))
	case constant.Int:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk("float", v.Value.String(), v.Type())
		}
		return mk("int", v.Value.ExactString(), nil)
	}
	return mk("float", v.Value.ExactString(), v.Type())
}

// elementary memory model --------------------------------------------------

// splitAddr resolves an address term to a root cell and a field path.
func splitAddr(a *Term) (root *Term, path []fieldStep) {
	for a.Op == "faddr" {
		idx, _ := strconv.Atoi(strings.SplitN(a.Name, ":", 2)[0])
		path = append([]fieldStep{{idx, faddrStruct[a]}}, path...)
		a = a.Args[0]
	}
	return a, path
}

type fieldStep struct {
	idx int
	typ types.Type
}

var faddrStruct = map[*Term]types.Type{}

func mkFaddr(base *Term, structTyp types.Type, idx int, ptrTyp types.Type) *Term {
	st := structOf(structTyp)
	t := mk("faddr", fmt.Sprintf("%d:%s", idx, st.Field(idx).Name()), ptrTyp, base)
	faddrStruct[t] = structTyp
	return t
}

func mkIaddr(base, idx *Term, typ types.Type) *Term {
	if base.Op == "sliceof" {
		base = base.Args[0]
	}
	return mk("iaddr", "", typ, base, idx)
}

func mkElem(s, idx *Term) *Term {
	if s.Op == "list" {
		if v, ok := idx.intVal(); ok && v.IsInt64() && v.Int64() >= 0 && int(v.Int64()) < len(s.Args) {
			return s.Args[v.Int64()]
		}
	}
	if s.Op == "slice" && isBytes(s.Typ) {
		lo := s.Args[1]
		if lo.Op == "none" {
			lo = constInt(0)
		}
		return mkElem(s.Args[0], linAdd(lo, idx, 1, types.Typ[types.Int]))
	}
	var et types.Type
	if s.Typ != nil {
		switch u := s.Typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
	}
	return mk("elem", "", et, s, idx)
}

func (c *fctx) rootValue(s *State, root *Term, typ types.Type) *Term {
	if v, ok := s.mem[root]; ok {
		return v
	}
	switch root.Op {
	case "global":
		if v, ok := c.in.P.globals[root]; ok {
			return v
		}
		return mk("gval", root.Name, typ)
	case "iaddr":
		b := root.Args[0]
		if b.Op == "alloc" || b.Op == "global" || b.Op == "faddr" || b.Op == "iaddr" { // array cell
			if bv, ok := s.mem[b]; ok && bv.Op == "zero" {
				return zeroTerm(typ)
			}
			bv := c.load(s, b, nil)
			e := mkElem(bv, root.Args[1])
			if e.Typ == nil {
				e.Typ = typ
			}
			return e
		}
		if b.Op == "mkslice" {
			if ver := s.mem[sliceVerKey(b)]; ver != nil { // written in a loop
				return mk("cell", ver.Name, typ, b, root.Args[1])
			}
			return zeroTerm(typ)
		}
		if x := c.drawn(s.facts, b, root.Args[1]); x != nil {
			return x
		}
		e := mkElem(b, root.Args[1])
		if e.Typ == nil {
			e.Typ = typ
		}
		return e
	}
	t := mk("deref", "", typ, root)
	return t
}

func (c *fctx) load(s *State, addr *Term, typ types.Type) *Term {
	if at, ok := arrayOf(typ); ok && addr.Op != "faddr" {
		if cells := s.cellsOf(addr, at.Len()); len(cells) > 0 {
			es := make([]*Term, at.Len())
			for i := range es {
				es[i] = c.load(s, mkIaddr(addr, constInt(int64(i)), types.NewPointer(at.Elem())), at.Elem())
			}
			return mk("list", "", typ, es...)
		}
	}
	root, path := splitAddr(addr)
	rt := typ
	if len(path) > 0 {
		rt = path[0].typ
	}
	v := c.rootValue(s, root, rt)
	for _, p := range path {
		v = mkField(v, p.typ, p.idx)
	}
	if v.Typ == nil && typ != nil && !v.isConst() {
		v.Typ = typ
	}
	return v
}

func (c *fctx) store(s *State, addr, x *Term) {
	root, path := splitAddr(addr)
	if root.Op == "iaddr" {
		defer func() { s.noteCell(c, root) }()
	}
	if len(path) == 0 {
		if p, ok := root.Typ.(*types.Pointer); ok {
			if at, ok := arrayOf(p.Elem()); ok {
				for _, cell := range s.cellsOf(root, at.Len()) {
					delete(s.mem, cell)
				}
			}
		}
		if root.Op == "iaddr" && s.shiftIn(root.Args[0], root.Args[1], x) {
			return
		}
		s.mem[root] = x
		return
	}
	v := c.rootValue(s, root, path[0].typ)
	s.mem[root] = updPath(v, path, x)
}

// noteCell records that an element of a slice changed.
func (s *State) noteCell(c *fctx, root *Term) {
	switch root.Args[0].Op {
	case "alloc", "global", "faddr", "iaddr": // arrays
		return
	}
	if v := s.mem[root]; v != nil {
		s.ev = push(s.ev, &Event{Kind: "cellset", Args: []*Term{root.Args[0], root.Args[1], v}, Facts: s.facts, Path: c.path})
	}
}

// arrayOf: a short array type, kept element by element.
func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	at, ok := t.Underlying().(*types.Array)
	return at, ok && at.Len() <= 16
}

// cellsOf are the elements of an array that were written one by one.
func (s *State) cellsOf(addr *Term, n int64) []*Term {
	var r []*Term
	for i := int64(0); i < n; i++ {
		a := mk("iaddr", "", nil, addr, constInt(i))
		if _, ok := s.mem[a]; ok {
			r = append(r, a)
		}
	}
	return r
}

func updPath(v *Term, path []fieldStep, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	inner := mkField(v, path[0].typ, path[0].idx)
	return mkUpdate(v, path[0].typ, path[0].idx, updPath(inner, path[1:], x))
}

// execInstrs runs the instructions of b from index i.
func (c *fctx) execInstrs(b *ssa.BasicBlock, i int, s *State, edge func(from, to *ssa.BasicBlock, s *State), out func(*Outcome)) {
	for ; i < len(b.Instrs); i++ {
		c.in.steps++
		if c.in.steps > 40_000_000 {
			panic(abort{"step budget exhausted in " + c.path})
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond, pol := litOf(c.val(s, ins.Cond))
			ft := s.facts.assume(cond, pol)
			ff := s.facts.assume(cond, !pol)
			if ft != nil && ff != nil {
				s2 := s.clone()
				s2.facts = ff
				s.facts = ft
				edge(b, b.Succs[0], s)
				edge2(c, b, 1, s2, edge)
			} else if ft != nil {
				s.facts = ft
				edge(b, b.Succs[0], s)
			} else if ff != nil {
				s.facts = ff
				edge2(c, b, 1, s, edge)
			}
			return
		case *ssa.Jump:
			edge(b, b.Succs[0], s)
			return
		case *ssa.Return:
			var vs []*Term
			for _, r := range ins.Results {
				vs = append(vs, c.val(s, r))
			}
			out(&Outcome{St: s, Kind: "ret", Vals: vs, Pos: ins.Pos()})
			return
		case *ssa.Panic:
			out(&Outcome{St: s, Kind: "panic", Vals: []*Term{c.val(s, ins.X)}, Pos: ins.Pos()})
			return
		case *ssa.RunDefers:
			outs := c.runDefers(s)
			for k, o := range outs {
				if o.Kind == "panic" {
					out(o)
					continue
				}
				st := o.St
				if k < len(outs)-1 || len(outs) > 1 {
					st = o.St.clone()
				}
				c.execInstrs(b, i+1, st, edge, out)
			}
			return
		case *ssa.Defer:
			dc := deferCall{call: &ins.Call, inst: ins}
			if !ins.Call.IsInvoke() {
				dc.fn = c.val(s, ins.Call.Value)
			} else {
				dc.fn = c.val(s, ins.Call.Value)
			}
			for _, a := range ins.Call.Args {
				dc.args = append(dc.args, c.val(s, a))
			}
			s.fr.defers = append(s.fr.defers, dc)
		case *ssa.Call:
			fnT := c.val(s, ins.Call.Value)
			var args []*Term
			for _, a := range ins.Call.Args {
				args = append(args, c.val(s, a))
			}
			outs := c.call(s, &ins.Call, fnT, args, ins, fmt.Sprintf("%s#%d.%d", c.path, b.Index, i))
			fr := s.fr
			for k, o := range outs {
				if o.Kind == "panic" {
					o.St.fr = fr.clone()
					out(&Outcome{St: o.St, Kind: "panic", Vals: o.Vals, Pos: o.Pos})
					continue
				}
				st := o.St
				if len(outs) > 1 {
					st.fr = fr.clone()
				} else {
					st.fr = fr
				}
				_ = k
				var rv *Term
				switch len(o.Vals) {
				case 0:
					rv = mk("void", "", nil)
				case 1:
					rv = o.Vals[0]
				default:
					rv = mk("tuple", "", nil, o.Vals...)
				}
				if rv.Typ == nil && !rv.isConst() && len(o.Vals) == 1 {
					rv.Typ = ins.Type()
				}
				st.fr.env[ins] = rv
				c.execInstrs(b, i+1, st, edge, out)
			}
			return
		default:
			c.simple(s, ins, fmt.Sprintf("%s#%d.%d", c.path, b.Index, i))
			if ia, ok := ins.(*ssa.IndexAddr); ok {
				if alts := c.draw(s, s.fr.env[ia], ia.X.Type()); len(alts) > 0 {
					for _, st := range alts {
						c.execInstrs(b, i+1, st, edge, out)
					}
					return
				}
			}
		}
	}
}

// edge2 follows successor k (distinguishes double edges to the same block).
func edge2(c *fctx, b *ssa.BasicBlock, k int, s *State, edge func(from, to *ssa.BasicBlock, s *State)) {
	if b.Succs[0] == b.Succs[1] {
		// phi edges are positional; rare, evaluate with first matching edge
	}
	edge(b, b.Succs[k], s)
}

func (c *fctx) runDefers(s *State) []*Outcome {
	states := []*Outcome{{St: s, Kind: "ret"}}
	ds := s.fr.defers
	s.fr.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*Outcome
		for _, o := range states {
			if o.Kind == "panic" {
				next = append(next, o)
				continue
			}
			fr := o.St.fr
			prev := o.St.inDefer
			o.St.inDefer = true
			outs := c.call(o.St, d.call, d.fn, d.args, d.inst, fmt.Sprintf("%s#defer%d", c.path, i))
			for _, o2 := range outs {
				o2.St.inDefer = prev
				if len(outs) > 1 {
					o2.St.fr = fr.clone()
				} else {
					o2.St.fr = fr
				}
				next = append(next, &Outcome{St: o2.St, Kind: o2.Kind, Vals: o2.Vals, Pos: o2.Pos})
			}
		}
		states = next
	}
	return states
}

func isIntegerType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func litTerm(a *Term, pol bool) *Term {
	if a.Op == "bool" {
		return constBool((a.Name == "true") == pol)
	}
	if pol {
		return a
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], a)
}

func binop(op token.Token, x, y *Term, t types.Type, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return litTerm(mkEq(x, y))
	case token.NEQ:
		a, p := mkEq(x, y)
		return litTerm(a, !p)
	}
	integer := isIntegerType(t)
	if integer {
		vx, okx := x.intVal()
		vy, oky := y.intVal()
		switch op {
		case token.LSS:
			return litTerm(mkLt(x, y, true))
		case token.GTR:
			return litTerm(mkLt(y, x, true))
		case token.LEQ:
			a, p := mkLt(y, x, true)
			return litTerm(a, !p)
		case token.GEQ:
			a, p := mkLt(x, y, true)
			return litTerm(a, !p)
		case token.ADD:
			return linAdd(x, y, 1, rt)
		case token.SUB:
			return linAdd(x, y, -1, rt)
		case token.MUL:
			if okx && oky {
				return constBig(new(bigInt).Mul(vx, vy))
			}
			if okx || oky {
				v, z := vx, y
				if oky {
					v, z = vy, x
				}
				l := toLin(z)
				l.c = new(bigInt).Mul(l.c, v)
				for k, cf := range l.co {
					l.co[k] = new(bigInt).Mul(cf, v)
				}
				return l.term(rt)
			}
			return mk("bin", "*", rt, sort2(x, y)...)
		}
	}
	if op == token.ADD {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.Op == "str" && y.Op == "str" {
				return constStr(x.Name + y.Name)
			}
			return mk("strcat", "", rt, x, y)
		}
	}
	switch op {
	case token.LSS:
		return litTerm(mkLt(x, y, false))
	case token.GTR:
		return litTerm(mkLt(y, x, false))
	case token.LEQ:
		a, p := mkLt(y, x, false)
		return litTerm(a, !p)
	case token.GEQ:
		a, p := mkLt(x, y, false)
		return litTerm(a, !p)
	}
	return mk("bin", op.String(), rt, x, y)
}

func convert(x *Term, from, to types.Type) *Term {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsString != 0 {
			return x
		}
		if x.Op == "bytesof" {
			return x.Args[0]
		}
		return mk("strof", "", to, x)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		_ = sl
		if x.Op == "strof" {
			return x.Args[0]
		}
		return mk("bytesof", "", to, x)
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.Op == "int" {
			return x
		}
		if intSize(fb) <= intSize(tb) || x.Op == "len" && intSize(tb) >= 32 {
			return x
		}
		return mk("conv", tb.Name(), to, x)
	}
	if x.isConst() {
		return x
	}
	if fb != nil && tb != nil {
		return mk("conv", tb.Name(), to, x)
	}
	return x
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (c *fctx) simple(s *State, ins ssa.Instruction, id string) {
	set := func(v ssa.Value, t *Term) {
		if t.Typ == nil && !t.isConst() {
			t.Typ = v.Type()
		}
		s.fr.env[v] = t
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		a := mk("alloc", id, ins.Type())
		elem := ins.Type().Underlying().(*types.Pointer).Elem()
		s.mem[a] = zeroTerm(elem)
		// clear stale array cells when re-executed in a loop
		if _, ok := elem.Underlying().(*types.Array); ok {
			for k := range s.mem {
				if k.Op == "iaddr" && k.Args[0] == a {
					delete(s.mem, k)
				}
			}
		}
		set(ins, a)
	case *ssa.BinOp:
		set(ins, binop(ins.Op, c.val(s, ins.X), c.val(s, ins.Y), ins.X.Type(), ins.Type()))
	case *ssa.UnOp:
		x := c.val(s, ins.X)
		switch ins.Op {
		case token.MUL:
			set(ins, c.load(s, x, ins.Type()))
		case token.NOT:
			a, p := litOf(x)
			set(ins, litTerm(a, !p))
		case token.SUB:
			if isIntegerType(ins.Type()) {
				set(ins, linNeg(x, ins.Type()))
			} else {
				set(ins, mk("neg", "", ins.Type(), x))
			}
		case token.ARROW:
			s.ev = push(s.ev, &Event{Kind: "chan", Name: "recv", Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			set(ins, mk("recv", id, ins.Type()))
		default:
			set(ins, mk("un", ins.Op.String(), ins.Type(), x))
		}
	case *ssa.ChangeType:
		set(ins, c.val(s, ins.X))
	case *ssa.ChangeInterface:
		set(ins, c.val(s, ins.X))
	case *ssa.Convert:
		set(ins, convert(c.val(s, ins.X), ins.X.Type(), ins.Type()))
	case *ssa.MultiConvert:
		set(ins, mk("conv", typeName(ins.Type()), ins.Type(), c.val(s, ins.X)))
	case *ssa.SliceToArrayPointer:
		set(ins, mk("s2a", "", ins.Type(), c.val(s, ins.X)))
	case *ssa.MakeInterface:
		x := c.val(s, ins.X)
		if x.Op == "iface" {
			set(ins, x)
		} else {
			set(ins, mk("iface", typeName(ins.X.Type()), ins.X.Type(), x))
		}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, c.val(s, b))
		}
		fn := ins.Fn.(*ssa.Function)
		t := mk("closure", c.in.P.funcName(fn), ins.Type(), bs...)
		c.in.P.closures[t] = fn
		set(ins, t)
	case *ssa.MakeMap:
		m := mk("mkmap", id, ins.Type())
		for k := range s.mem {
			if k.Op == "mapcell" && k.Args[0] == m {
				delete(s.mem, k)
			}
		}
		delete(s.mem, mapverKey(m))
		s.mem[mk("maphere", "", nil, m)] = constBool(true)
		set(ins, m)
	case *ssa.MakeChan:
		set(ins, mk("mkchan", id, ins.Type()))
	case *ssa.MakeSlice:
		m := mk("mkslice", id, ins.Type(), c.val(s, ins.Len))
		s.mem[mk("maphere", "", nil, m)] = constBool(true)
		if v, ok := c.val(s, ins.Len).intVal(); ok && v.Sign() == 0 {
			// empty slice with capacity: behaves as an empty list
			set(ins, mk("list", "", ins.Type()))
			return
		}
		for k := range s.mem {
			if k.Op == "iaddr" && k.Args[0] == m {
				delete(s.mem, k)
			}
		}
		delete(s.mem, sliceVerKey(m))
		set(ins, m)
	case *ssa.Slice:
		set(ins, c.slice(s, ins))
	case *ssa.FieldAddr:
		pt := ins.X.Type().Underlying().(*types.Pointer).Elem()
		set(ins, mkFaddr(c.val(s, ins.X), pt, ins.Field, ins.Type()))
	case *ssa.Field:
		set(ins, mkField(c.val(s, ins.X), ins.X.Type(), ins.Field))
	case *ssa.IndexAddr:
		set(ins, mkIaddr(c.val(s, ins.X), c.val(s, ins.Index), ins.Type()))
	case *ssa.Index:
		set(ins, mkElem(c.val(s, ins.X), c.val(s, ins.Index)))
	case *ssa.Lookup:
		x, k := c.val(s, ins.X), c.val(s, ins.Index)
		if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
			set(ins, mk("elem", "", ins.Type(), x, k))
			return
		}
		mt := ins.X.Type().Underlying().(*types.Map)
		cell := mk("mapcell", "", mt.Elem(), x, k)
		var v, ok *Term
		if cv, has := s.mem[cell]; has {
			v = cv
			ok = constBool(true)
		} else if s.onlyLits(x) && (isLit(k) || s.mapVer(x) == "") {
			// nothing has been put into it under this key yet
			v = zeroTerm(mt.Elem())
			ok = constBool(false)
		} else {
			v = mk("maplookup", s.mapVer(x), mt.Elem(), x, k)
			ok = mk("mapok", s.mapVer(x), types.Typ[types.Bool], x, k)
		}
		if ins.CommaOk {
			set(ins, mk("tuple", "", nil, v, ok))
		} else {
			set(ins, v)
		}
	case *ssa.MapUpdate:
		m, k, v := c.val(s, ins.Map), c.val(s, ins.Key), c.val(s, ins.Value)
		mt := ins.Map.Type().Underlying().(*types.Map)
		s.setMap(m, k, v, mt.Elem())
		s.ev = push(s.ev, &Event{Kind: "mapset", Args: []*Term{m, k, v}, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
	case *ssa.Range:
		set(ins, mk("range", id, nil, c.val(s, ins.X)))
	case *ssa.Next:
		r := c.val(s, ins.Iter)
		x := r.Args[0]
		tt := ins.Type().(*types.Tuple)
		k := mk("rngkey", id, tt.At(1).Type(), x)
		var v *Term
		if ins.IsString {
			v = mk("elem", "", tt.At(2).Type(), x, k)
		} else {
			v = mk("maplookup", s.mapVer(x), tt.At(2).Type(), x, k)
		}
		set(ins, mk("tuple", "", nil, mk("rngok", id, types.Typ[types.Bool], x), k, v))
	case *ssa.TypeAssert:
		c.typeAssert(s, ins, set)
	case *ssa.Extract:
		t := c.val(s, ins.Tuple)
		if t.Op == "tuple" && ins.Index < len(t.Args) {
			set(ins, t.Args[ins.Index])
		} else {
			set(ins, mk("res", strconv.Itoa(ins.Index), ins.Type(), t))
		}
	case *ssa.Store:
		c.store(s, c.val(s, ins.Addr), c.val(s, ins.Val))
	case *ssa.Send:
		s.ev = push(s.ev, &Event{Kind: "chan", Name: "send", Facts: s.facts, Pos: ins.Pos(), Path: c.path})
	case *ssa.Select:
		s.ev = push(s.ev, &Event{Kind: "chan", Name: "select", Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		set(ins, mk("select", id, ins.Type()))
	case *ssa.Go:
		s.ev = push(s.ev, &Event{Kind: "go", Facts: s.facts, Pos: ins.Pos(), Path: c.path})
	default:
		panic(abort{fmt.Sprintf("unsupported instruction %T in %s", ins, c.path)})
	}
}

func (c *fctx) slice(s *State, ins *ssa.Slice) *Term {
	x := c.val(s, ins.X)
	var lo, hi *Term
	if ins.Low != nil {
		lo = c.val(s, ins.Low)
		if v, ok := lo.intVal(); ok && v.Sign() == 0 {
			lo = nil
		}
	}
	if ins.High != nil {
		hi = c.val(s, ins.High)
	}
	if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && lo == nil && hi == nil && at.Len() <= 256 {
			var es []*Term
			for i := int64(0); i < at.Len(); i++ {
				cell := mkIaddr(x, constInt(i), types.NewPointer(at.Elem()))
				es = append(es, c.load(s, cell, at.Elem()))
			}
			if a, ok := ins.X.(*ssa.Alloc); ok && (a.Comment == "varargs" || a.Comment == "slicelit" || a.Comment == "makeslice") {
				if a.Comment == "makeslice" {
					return mk("sliceof", "", ins.Type(), x)
				}
				return mk("list", "", ins.Type(), es...)
			}
			return mk("sliceof", "", ins.Type(), x)
		}
		x = mk("sliceof", "", nil, x)
	}
	if a, ok := ins.X.(*ssa.Alloc); ok && a.Comment == "makeslice" && lo == nil && hi != nil {
		if v, ok := hi.intVal(); ok && v.Sign() == 0 {
			return mk("list", "", ins.Type()) // an empty slice with capacity
		}
	}
	return mkSlice(x, lo, hi, ins.Type())
}

// mkSlice is x[lo:hi]; nil bounds are open.
func mkSlice(x, lo, hi *Term, typ types.Type) *Term {
	z := mk("none", "", nil)
	if lo != nil {
		if v, ok := lo.intVal(); ok && v.Sign() == 0 {
			lo = nil
		}
	}
	if hi == mkLen(x) {
		hi = nil
	}
	if lo == nil && hi == nil {
		return x
	}
	if x.Op == "slice" && isBytes(typ) {
		l0, h0 := x.Args[1], x.Args[2]
		if l0.Op == "none" {
			l0 = constInt(0)
		}
		l := l0
		if lo != nil {
			l = linAdd(l0, lo, 1, types.Typ[types.Int])
		}
		h := h0
		if hi != nil {
			h = linAdd(l0, hi, 1, types.Typ[types.Int])
		}
		if h.Op == "none" {
			h = nil
		}
		return mkSlice(x.Args[0], l, h, typ)
	}
	if lo == nil {
		lo = z
	}
	if hi == nil {
		hi = z
	}
	return mk("slice", "", typ, x, lo, hi)
}

func isStr(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (c *fctx) typeAssert(s *State, ins *ssa.TypeAssert, set func(ssa.Value, *Term)) {
	x := c.val(s, ins.X)
	tn := typeName(ins.AssertedType)
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	var v, ok *Term
	if x.Op == "iface" && !toIface {
		if x.Name == tn {
			v, ok = x.Args[0], constBool(true)
		} else {
			v, ok = zeroTerm(ins.AssertedType), constBool(false)
		}
	} else {
		v = mk("as", tn, ins.AssertedType, x)
		ok = mk("typeis", tn, types.Typ[types.Bool], x)
		if toIface {
			v = x
		}
	}
	if ins.CommaOk {
		set(ins, mk("tuple", "", nil, v, ok))
		return
	}
	set(ins, v)
}

// Success reports that the outcome is a normal return whose error result (if
// the function has one) may be nil.
func (o *Outcome) Success() bool {
	if o.Kind != "ret" {
		return false
	}
	if len(o.Vals) == 0 {
		return true
	}
	last := o.Vals[len(o.Vals)-1]
	if !looksErr(last) {
		return true
	}
	a, p := mkEq(last, nilTerm)
	v, known := o.St.facts.eval(a)
	return !known || v == p
}

func looksErr(t *Term) bool {
	switch t.Op {
	case "nil", "errres", "wrap", "error", "bech32err":
		return true
	}
	if t.Typ != nil {
		if isErrType(t.Typ) || typeName(t.Typ) == "*cosmossdk.io/errors.Error" {
			return true
		}
	}
	return false
}

func isLit(t *Term) bool { return t.Op == "int" || t.Op == "str" || t.Op == "bool" }
