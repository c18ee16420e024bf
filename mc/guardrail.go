package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

// inflight lists the evaluations that are currently executing, for the watchdog.
type inflight struct {
	mu    sync.Mutex
	slots map[int]*slot
	next  int
}

type slot struct {
	since time.Time
	what  func() map[string]any
}

func newInflight(r *Run) *inflight {
	f := &inflight{slots: map[int]*slot{}}
	go func() {
		for {
			time.Sleep(2 * time.Second)
			f.mu.Lock()
			for _, s := range f.slots {
				if s.what != nil && time.Since(s.since) > 90*time.Second {
					data := s.what()
					f.mu.Unlock()
					r.Violation("the analysis does not terminate (no result after 90 s)", data)
					if r.Shards > 0 {
						b, _ := json.Marshal(workerReport{Violation: r.found})
						fmt.Printf("REPORT %s\n", b)
						os.Exit(0)
					}
					r.Coverage["exhaustive"] = false
					os.Exit(r.Finish())
				}
			}
			f.mu.Unlock()
		}
	}()
	return f
}

// worker returns a function that marks the start of one evaluation (or the end, with nil).
func (f *inflight) worker() func(what func() map[string]any) {
	f.mu.Lock()
	defer f.mu.Unlock()
	s := &slot{}
	f.slots[f.next] = s
	f.next++
	return func(what func() map[string]any) {
		f.mu.Lock()
		s.since, s.what = time.Now(), what
		f.mu.Unlock()
	}
}

// protect turns a panic that escapes an evaluation into a violation message.
func protect(f func() string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%v", e, st)
		}
	}()
	return f()
}
