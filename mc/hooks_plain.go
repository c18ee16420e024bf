//go:build !verifinstr

package main

const instrumentedBuild = false

func setOrderHook(f func(n int) []int) {}
func setStepHook(f func(id int32))     {}
func resetLocks()                      {}
func resetPackage()                    {}
