package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Hooks of the instrumented library are global, so exploration is spread over processes: the parent
// starts one worker per core, each explores every n-th case, and the parent merges the results.

type workerViolation struct {
	Msg  string
	Data map[string]any
}

type workerReport struct {
	States, Transitions, Validated int64
	Classes                        map[string]int64
	Complete                       bool
	Bounds                         map[string]any
	Violation                      *workerViolation
	Samples                        []any
	Extra                          map[string]any
}

var workers = map[string]func(r *Run, x *Space){}

func runWorker(args []string, root string) int {
	id, tier := args[0], args[1]
	r := NewRun(id, tier, root, time.Hour, time.Hour)
	r.Shard, _ = strconv.Atoi(args[2])
	r.Shards, _ = strconv.Atoi(args[3])
	ns, _ := strconv.ParseInt(args[4], 10, 64)
	r.Deadline = time.Unix(0, ns)
	if len(args) > 5 {
		r.Replay = &Replay{}
		if err := json.Unmarshal([]byte(args[5]), r.Replay); err != nil {
			return 2
		}
	}
	x := NewSpace(r)
	workers[id](r, x)
	rep := workerReport{States: x.States, Transitions: x.Transitions, Validated: x.Validated, Classes: map[string]int64{},
		Complete: x.Complete && !x.Stopped(), Bounds: x.Bounds, Violation: r.found, Samples: r.samples, Extra: r.Coverage}
	x.classes.Range(func(k, v any) bool { rep.Classes[k.(string)] = *v.(*int64); return true })
	b, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w := bufio.NewWriter(os.Stdout)
	fmt.Fprintf(w, "REPORT %s\n", b)
	w.Flush()
	return 0
}

// spread runs the worker part of a check in parallel processes of the given binary.
func (r *Run) spread(x *Space, bin string) error {
	n := runtime.NumCPU()
	if r.Replay != nil {
		n = 1
	}
	var wg sync.WaitGroup
	reports := make([]*workerReport, n)
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"worker", r.ID, r.Tier, fmt.Sprint(i), fmt.Sprint(n), fmt.Sprint(r.Deadline.UnixNano())}
			if r.Replay != nil {
				b, _ := json.Marshal(r.Replay)
				args = append(args, string(b))
			}
			cmd := exec.Command(bin, args...)
			cmd.Env = append(os.Environ(), "VERIF_ROOT="+r.Root, "GOMAXPROCS=2")
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			out, err := cmd.Output()
			for _, l := range strings.Split(string(out), "\n") {
				if s, ok := strings.CutPrefix(l, "REPORT "); ok {
					var rep workerReport
					if e := json.Unmarshal([]byte(s), &rep); e == nil {
						reports[i] = &rep
					}
				}
			}
			if reports[i] == nil {
				e := stderr.String()
				if len(e) > 2000 {
					e = e[:2000]
				}
				errs[i] = fmt.Errorf("worker %v: %v: %v", i, err, e)
			}
		}()
	}
	wg.Wait()
	for i, rep := range reports {
		if rep == nil {
			return errs[i]
		}
		x.Count(rep.States, rep.Transitions, rep.Validated)
		for c, k := range rep.Classes {
			x.addClass(c, k)
		}
		for k, v := range rep.Bounds {
			x.Bounds[k] = v
		}
		x.Complete = x.Complete && rep.Complete
		for _, s := range rep.Samples {
			r.Sample(s)
		}
		for k, v := range rep.Extra {
			r.Coverage[k] = v
		}
	}
	for _, rep := range reports {
		if rep.Violation != nil {
			r.Violation(rep.Violation.Msg, rep.Violation.Data)
			x.stop.Store(true)
			break
		}
	}
	return nil
}

// spreadFailed reports a worker that died. A crash inside of the library counts, since no valid or
// malformed input may end the process; anything else leaves the check without an answer.
func (r *Run) spreadFailed(err error) {
	if s := err.Error(); strings.Contains(s, "fatal error: ") || strings.Contains(s, "panic: ") {
		r.Violation("a worker process crashed: "+s, map[string]any{})
		return
	}
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}
