package main

import (
	"os"
	"strings"
	"testing"
)

// TestHarness runs a check within the test framework of Go, for code that needs tests to report to.
func TestHarness(t *testing.T) {
	args := os.Getenv("VERIF_ARGS")
	if args == "" {
		t.Skip("not called by the harness")
	}
	runT = func(f func(t *testing.T)) (failed bool) {
		t.Run("", func(t *testing.T) {
			defer func() { failed = t.Failed() }()
			f(t)
		})
		return failed
	}
	os.Args = append(os.Args[:1], strings.Split(args, "\x1f")...)
	main()
}
