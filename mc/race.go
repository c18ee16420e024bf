package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Dependence of the two threads of C14: if no two of their accesses conflict, all their
// interleavings are equivalent to a single one (one trace of a partial-order reduction), no matter
// how many there are. The accesses of both threads, which don't synchronise with each other, are
// checked for conflicts with the race detector, in both orders and at once, each time in a new
// process, where nothing is initialised yet. This also covers what no interleaving of statements
// shows, as the crash of the language runtime after unsynchronised changes to a map.

var raceModes = []string{"at once", "first one ahead", "second one ahead"}

func raceScenes() []concScene {
	out := concScenes()
	all := allTemplates()
	var as, bs []func() Outcome
	for i := range all {
		s, t := all[i].Spec, all[(i+1)%len(all)].Spec
		d := []byte(t.JSON())
		as = append(as, func() Outcome { return s.Run() }, func() Outcome { return RunJSONDoc(d) })
		bs = append(bs, func() Outcome { return RunJSONDoc(d) }, func() Outcome { return s.Run() })
	}
	in := func(l []func() Outcome) func() Outcome {
		return func() (o Outcome) {
			for _, f := range l {
				o = f()
				if o.Res != nil {
					CopyInterp(o.Res.InterpolateAll(1e-8))
				}
			}
			return o
		}
	}
	return append(out, concScene{name: "all templates", make: func() (func() Outcome, func() Outcome) { return in(as), in(bs) }})
}

// raceMain is the process that executes one scene.
func raceMain(args []string) int {
	i, _ := strconv.Atoi(args[0])
	mode, _ := strconv.Atoi(args[1])
	sc := raceScenes()[i]
	a, b := sc.make()
	var o [2]Outcome
	var wg sync.WaitGroup
	wg.Add(2)
	for k, f := range []func() Outcome{a, b} {
		go func() {
			defer wg.Done()
			if mode == 2-k {
				time.Sleep(60 * time.Millisecond) // unlike a signal, this doesn't order anything
			}
			guard(&o[k], func() { o[k] = f() })
		}()
	}
	wg.Wait()
	sc.alone()
	for k, want := range []*Outcome{&sc.x, &sc.y} {
		if m := near(&o[k], want, 1e-9); m != "" {
			fmt.Printf("MISMATCH %v\n", m)
		}
	}
	fmt.Println("DONE")
	return 0
}

// conflicts runs all scenes under the race detector.
func conflicts(r *Run, x *Space) {
	dir, err := os.MkdirTemp("", "verifmc")
	if err != nil {
		r.Coverage["conflicts"] = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, ".")
	cmd.Dir, cmd.Env = filepath.Join(r.Root, "mc"), append(goEnv(), "CGO_ENABLED=1")
	if h := os.Getenv("VERIF_MC"); h != "" {
		cmd.Dir = h
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Coverage["conflicts"] = fmt.Sprintf("no race detector: %v %s", err, out)
		return
	}
	scenes := raceScenes()
	var crashed sync.Once
	x.Each("conflicting accesses: scenes in new processes, in both orders and at once", len(scenes)*len(raceModes), func(i int) (string, map[string]any) {
		sc, mode := i/len(raceModes), i%len(raceModes)
		cmd := exec.Command(bin, "race", fmt.Sprint(sc), fmt.Sprint(mode))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66")
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err := cmd.Run()
		data := map[string]any{"scene": scenes[sc].name, "order": raceModes[mode]}
		where := scenes[sc].name + ", " + raceModes[mode] + ": "
		for _, b := range strings.Split(stderr.String(), "==================") {
			if strings.Contains(b, "WARNING: DATA RACE") && strings.Contains(b, "github.com/lubgr/deflect/deflect.") {
				data["report"] = strings.Split(b, "\n")
				return where + "unsynchronised accesses to the same memory in " + firstFrame(b), data
			}
		}
		if m, ok := strings.CutPrefix(stdout.String(), "MISMATCH "); ok {
			return where + strings.TrimSpace(m), data
		}
		if s := stderr.String(); strings.Contains(s, "fatal error: concurrent map") {
			data["report"] = strings.Split(s, "\n")
			return where + "crash due to concurrent changes of a map", data
		}
		var exit *exec.ExitError
		if err != nil && !(errors.As(err, &exit) && exit.ExitCode() == 66) || !strings.HasSuffix(stdout.String(), "DONE\n") {
			crashed.Do(func() { r.Coverage["conflicts"] = fmt.Sprintf("%v: %v %.500s", where, err, stderr.String()) })
			x.Complete = false
			return "", nil
		}
		x.Class("no conflict")
		x.Count(1, 1, 1)
		return "", nil
	})
}

// firstFrame of a report that is in the library.
func firstFrame(report string) string {
	for _, l := range strings.Split(report, "\n") {
		if l = strings.TrimSpace(l); strings.HasPrefix(l, "github.com/lubgr/deflect/deflect.") {
			return l
		}
	}
	return "?"
}
