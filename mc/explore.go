package main

import (
	"encoding/binary"
	"hash/fnv"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Hash is a 64-bit fingerprint of a canonical spec, for state deduplication.
func (s *Spec) Hash() uint64 {
	h := fnv.New64a()
	var b [8]byte
	w := func(v float64) { binary.LittleEndian.PutUint64(b[:], math.Float64bits(v)); h.Write(b[:]) }
	str := func(v string) { h.Write([]byte(v)); h.Write([]byte{0}) }
	for _, n := range s.Nodes {
		str(n.ID)
		w(n.X)
		w(n.Y)
		w(n.Z)
	}
	for _, e := range s.Elems {
		str(e.ID)
		str(e.Kind)
		h.Write([]byte{byte(e.A), byte(e.B)})
		w(e.Mat.E)
		w(e.Mat.A)
		w(e.Mat.Iyy)
		w(e.Mat.B)
		w(e.Mat.H)
		for _, x := range e.Hinges {
			h.Write([]byte{byte(x.End), byte(x.Dof)})
		}
		h.Write([]byte{0xfe})
		for _, l := range e.Loads {
			str(l.Deg)
			h.Write([]byte{byte(l.Kind)})
			w(l.V0)
			w(l.V1)
			w(l.Pos)
		}
	}
	for _, l := range [][]BC{s.Dirichlet, s.Neumann} {
		for _, d := range l {
			h.Write([]byte{byte(d.Node), byte(d.Dof)})
			w(d.Val)
		}
		h.Write([]byte{0xff})
	}
	for _, l := range s.Links {
		h.Write([]byte{byte(l.Node), byte(l.From), byte(l.To)})
		w(l.Angle)
	}
	w(float64(s.Flags))
	return h.Sum64()
}

type hashSet struct {
	mu [64]sync.Mutex
	m  [64]map[uint64]struct{}
}

func newHashSet() *hashSet {
	h := &hashSet{}
	for i := range h.m {
		h.m[i] = map[uint64]struct{}{}
	}
	return h
}

func (h *hashSet) add(v uint64) bool {
	i := v >> 58
	h.mu[i].Lock()
	defer h.mu[i].Unlock()
	if _, ok := h.m[i][v]; ok {
		return false
	}
	h.m[i][v] = struct{}{}
	return true
}

func (h *hashSet) len() int {
	n := 0
	for i := range h.m {
		n += len(h.m[i])
	}
	return n
}

// Verdict of one evaluated state.
type Verdict struct {
	Msg     string // non-empty: violation
	Class   string // outcome class, for the evidence
	Trivial bool
}

// Explorer runs a breadth-first (by number of edits) search over model spaces.
type Explorer struct {
	Run         *Run
	Eval        func(s *Spec) Verdict
	States      int64
	Transitions int64
	Nontrivial  int64
	classes     sync.Map // string -> *int64
	seen        *hashSet
	stop        atomic.Bool
	Outcomes    *hashSet
	MaxDepth    map[string]int // per template: depth fully covered
}

func NewExplorer(r *Run, eval func(s *Spec) Verdict) *Explorer {
	return &Explorer{Run: r, Eval: eval, seen: newHashSet(), Outcomes: newHashSet(), MaxDepth: map[string]int{}}
}

func (x *Explorer) class(c string) {
	p, ok := x.classes.Load(c)
	if !ok {
		p, _ = x.classes.LoadOrStore(c, new(int64))
	}
	atomic.AddInt64(p.(*int64), 1)
}

func (x *Explorer) Classes() map[string]int64 {
	out := map[string]int64{}
	x.classes.Range(func(k, v any) bool { out[k.(string)] = *v.(*int64); return true })
	return out
}

func (x *Explorer) eval(s *Spec) (v Verdict) {
	if m := protect(func() string { v = x.Eval(s); return "" }); m != "" {
		return Verdict{Class: "panic", Msg: m}
	}
	return v
}

// visit evaluates one state unless it has been seen before. The spec is handed over.
func (x *Explorer) visit(t string, edits []string, s *Spec, mark func(func() map[string]any)) {
	s.Normalise()
	if !x.seen.add(s.Hash()) {
		return
	}
	mark(func() map[string]any { return map[string]any{"template": t, "edits": edits, "spec": s} })
	n := atomic.AddInt64(&x.States, 1)
	v := x.eval(s)
	x.class(v.Class)
	if !v.Trivial {
		atomic.AddInt64(&x.Nontrivial, 1)
	}
	if n%50021 == 1 {
		x.Run.Sample(map[string]any{"template": t, "edits": edits, "class": v.Class, "spec": s.String()})
	}
	if v.Msg != "" {
		x.violation(t, edits, s, v)
	}
}

func (x *Explorer) violation(t string, edits []string, s *Spec, v Verdict) {
	if !again(func() bool { return x.eval(s).Msg != "" }) {
		x.class("unreproducible")
		return
	}
	if x.Run.Violation(v.Msg, map[string]any{"template": t, "edits": edits, "spec": s, "json": s.JSON()}) {
		x.stop.Store(true)
	}
}

// Explore visits every subset of at most depth edits of the menu (exclusive slots respected).
// Returns false if the deadline was hit before everything was visited.
func (x *Explorer) Explore(t Template, menu []Edit, from, depth int) bool {
	if from == 0 {
		x.visit(t.Name, nil, t.Spec.Clone(), func(func() map[string]any) {})
		from = 1
	}
	for d := from; d <= depth; d++ {
		if !x.exploreExact(t, menu, d) {
			return false
		}
		x.MaxDepth[t.Name] = d
	}
	return true
}

func (x *Explorer) exploreExact(t Template, menu []Edit, d int) bool {
	type job struct{ pre []int }
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	var capped atomic.Bool
	done := func() bool {
		if x.stop.Load() {
			return true
		}
		if time.Now().After(x.Run.Deadline) {
			capped.Store(true)
			return true
		}
		return false
	}
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mark := x.Run.inflight().worker()
			defer mark(nil)
			for j := range jobs {
				if done() {
					continue
				}
				x.rec(t, menu, d, append([]int(nil), j.pre...), done, mark)
			}
		}()
	}
	if d >= 2 {
		for i := range menu {
			for k := i; k < len(menu); k++ {
				jobs <- job{[]int{i, k}}
			}
		}
	} else {
		for i := range menu {
			jobs <- job{[]int{i}}
		}
	}
	close(jobs)
	wg.Wait()
	return !capped.Load() && !x.stop.Load()
}

func compatible(menu []Edit, pre []int) bool {
	last := pre[len(pre)-1]
	for _, p := range pre[:len(pre)-1] {
		if menu[p].Slot != "" && menu[p].Slot == menu[last].Slot {
			return false
		}
	}
	return true
}

func (x *Explorer) rec(t Template, menu []Edit, d int, pre []int, done func() bool, mark func(func() map[string]any)) {
	for i := 2; i <= len(pre); i++ {
		if !compatible(menu, pre[:i]) {
			return
		}
	}
	if len(pre) == d {
		x.leaf(t, menu, pre, mark)
		return
	}
	if done() {
		return
	}
	for k := pre[len(pre)-1]; k < len(menu); k++ {
		np := append(append([]int(nil), pre...), k)
		if !compatible(menu, np) {
			continue
		}
		x.rec(t, menu, d, np, done, mark)
	}
}

// Edits are applied in a fixed order of phases, so that a set of edits is one state regardless of
// its order: geometry first, then kinds and orientation, then everything else.
func phase(e *Edit) int {
	switch {
	case e.Slot == "size" || e.Slot == "rot" || e.Slot == "relabel" || e.Slot == "matall" || e.Slot == "shift":
		return 0
	case len(e.Slot) > 2 && e.Slot[:3] == "rev":
		return 1
	case len(e.Slot) > 3 && e.Slot[:4] == "link":
		return 2
	case e.Slot == "scale":
		return 4
	}
	return 3
}

func (x *Explorer) leaf(t Template, menu []Edit, pre []int, mark func(func() map[string]any)) {
	s := t.Spec.Clone()
	names := make([]string, 0, len(pre))
	for ph := 0; ph <= 4; ph++ {
		for _, i := range pre {
			if phase(&menu[i]) != ph {
				continue
			}
			if !menu[i].Apply(s) {
				return
			}
			names = append(names, menu[i].Name)
		}
	}
	atomic.AddInt64(&x.Transitions, 1)
	x.visit(t.Name, names, s, mark)
}
