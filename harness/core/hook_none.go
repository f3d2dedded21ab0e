//go:build !verifinstr

package core

const Instrumented = false

func setHook(f func(int)) {}
