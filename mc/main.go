package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"time"
)

type checkFn func(r *Run)

var checks = map[string]checkFn{}

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: verifmc check <ID> [quick|thorough] | replay <file>")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root, _ = filepath.Abs("..")
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier, root))
	case "worker":
		os.Exit(runWorker(os.Args[2:], root))
	case "race":
		os.Exit(raceMain(os.Args[2:]))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var rp Replay
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r := NewRun(rp.Property, "thorough", root, time.Hour, time.Hour)
		r.Replay = &rp
		checks[rp.Property](r)
		os.Exit(r.Finish())
	}
	os.Exit(2)
}
