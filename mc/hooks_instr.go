//go:build verifinstr

package main

import "github.com/lubgr/deflect/deflect"

const instrumentedBuild = true

func setOrderHook(f func(n int) []int) { deflect.VerifOrder = f }
func setStepHook(f func(id int32))     { deflect.VerifStep = f }
func resetLocks()                      { deflect.VerifLocks = 0 }
func resetPackage()                    { deflect.VerifReset() }
