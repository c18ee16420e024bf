package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Space is a generic, deadline-aware enumeration: n cases, each evaluated by its number. Cases of
// one level are explored in parallel; levels (deepening bounds) are explored one after another.
type Space struct {
	Run         *Run
	States      int64
	Transitions int64
	Validated   int64
	classes     sync.Map
	stop        atomic.Bool
	Complete    bool
	Bounds      map[string]any
}

func NewSpace(r *Run) *Space { return &Space{Run: r, Complete: true, Bounds: map[string]any{}} }

func (x *Space) Class(c string) { x.addClass(c, 1) }

func (x *Space) addClass(c string, n int64) {
	p, ok := x.classes.Load(c)
	if !ok {
		p, _ = x.classes.LoadOrStore(c, new(int64))
	}
	atomic.AddInt64(p.(*int64), n)
}

func (x *Space) Stopped() bool { return x.stop.Load() }

// Each evaluates f(0..n-1). f returns a violation message (or "") and the data to replay it. A
// violation has to show up again within fifty repetitions, otherwise it is only counted.
func (x *Space) Each(name string, n int, f func(i int) (string, map[string]any)) bool {
	if x.Stopped() || !x.Complete {
		return false
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	var capped atomic.Bool
	stride, _ := strconv.Atoi(os.Getenv("VERIF_STRIDE")) // for experiments
	workers, shard, shards := runtime.NumCPU(), x.Run.Shard, max(1, x.Run.Shards)
	if x.Run.Shards > 0 {
		workers = 1
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mark := x.Run.inflight().worker()
			defer mark(nil)
			for {
				i := int(next.Add(1)) - 1
				if i < n && i%shards != shard || stride > 1 && i < n && i%stride != 0 {
					continue
				}
				if rp := x.Run.Replay; rp != nil && (rp.Space != name || rp.Case != i) {
					if i >= n {
						return
					}
					continue
				}
				if i >= n || x.stop.Load() {
					return
				}
				if time.Now().After(x.Run.Deadline) {
					capped.Store(true)
					return
				}
				var data map[string]any
				eval := func() (m string) {
					return protect(func() string { m, d := f(i); data = d; return m })
				}
				mark(func() map[string]any { return map[string]any{"space": name, "case": i} })
				msg := eval()
				x.report(name, i, msg, data, eval)
			}
		}()
	}
	wg.Wait()
	if capped.Load() {
		x.Complete = false
	} else if !x.stop.Load() {
		x.Bounds[name] = fmt.Sprintf("%v cases", n)
	}
	return x.Complete && !x.stop.Load()
}

func (x *Space) report(name string, i int, msg string, data map[string]any, repeat func() string) {
	if msg == "" {
		if data != nil {
			x.Run.Sample(data)
		}
		return
	}
	if !again(func() bool { return repeat() != "" }) {
		x.Class("unreproducible")
		return
	}
	if data == nil {
		data = map[string]any{}
	}
	data["space"], data["case"] = name, i
	if x.Run.Violation(msg, data) {
		x.stop.Store(true)
	}
}

func (x *Space) Count(states, transitions, validated int64) {
	atomic.AddInt64(&x.States, states)
	atomic.AddInt64(&x.Transitions, transitions)
	atomic.AddInt64(&x.Validated, validated)
}

func (x *Space) Finish() {
	cl := map[string]int64{}
	x.classes.Range(func(k, v any) bool { cl[k.(string)] = *v.(*int64); return true })
	c := x.Run.Coverage
	c["states"], c["transitions"], c["traces_validated_against_impl"] = x.States, x.Transitions, x.Validated
	c["classes"], c["exhaustive"], c["bounds"] = cl, x.Complete && !x.Stopped(), x.Bounds
}

// seqOf decodes case i as a sequence of length d over an alphabet of size k.
func seqOf(i, k, d int) []int {
	out := make([]int, d)
	for j := range out {
		out[j] = i % k
		i /= k
	}
	return out
}

func pow(k, d int) int {
	n := 1
	for ; d > 0; d-- {
		n *= k
	}
	return n
}

// sequences explores all sequences of length lo..hi over an alphabet of size k.
func (x *Space) sequences(name string, k, lo, hi int, f func(seq []int) (string, map[string]any)) {
	for d := lo; d <= hi; d++ {
		if !x.Each(fmt.Sprintf("%v, sequences of length %v over %v operations", name, d, k), pow(k, d), func(i int) (string, map[string]any) {
			seq := seqOf(i, k, d)
			x.Count(1, int64(d), 1)
			return f(seq)
		}) {
			return
		}
	}
}

// longSequences explores long sequences over an alphabet of size k: all periods up to the given one,
// repeated, and all first operations that are repeated many times, followed by any two others.
func (x *Space) longSequences(name string, k, period, length int, f func(seq []int) (string, map[string]any)) {
	for d := 1; d <= period; d++ {
		if !x.Each(fmt.Sprintf("%v, sequences of length %v with period %v over %v operations", name, length, d, k), pow(k, d), func(i int) (string, map[string]any) {
			p, seq := seqOf(i, k, d), make([]int, length)
			for j := range seq {
				seq[j] = p[j%d]
			}
			x.Count(1, int64(length), 1)
			return f(seq)
		}) {
			return
		}
	}
	repeats := []int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64}
	for len(repeats) > 0 && repeats[len(repeats)-1] > length {
		repeats = repeats[:len(repeats)-1]
	}
	after := min(period, 2)
	x.Each(fmt.Sprintf("%v, one of %v operations repeated %v times and sequences of length %v afterwards", name, k, repeats, after), pow(k, 1+after)*len(repeats), func(i int) (string, map[string]any) {
		seq, n := seqOf(i/len(repeats), k, 1+after), repeats[i%len(repeats)]
		for j := 1; j < n; j++ {
			seq = append([]int{seq[0]}, seq...)
		}
		x.Count(1, int64(len(seq)), 1)
		return f(seq)
	})
}

// permutations of 0..n-1 in lexicographic order.
func permutations(n int) [][]int {
	var out [][]int
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p = append(p, i)
			rec()
			p = p[:len(p)-1]
			used[i] = false
		}
	}
	rec()
	return out
}

// again repeats an evaluation that found a violation. Violations which depend on the random map
// iteration order of the runtime only show up in some of the repetitions.
func again(violated func() bool) bool {
	for i := 0; i < 50; i++ {
		if violated() {
			return true
		}
	}
	return false
}
