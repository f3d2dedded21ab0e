//go:build verifinstr

package core

import "github.com/jfcg/sorty/v2"

// Instrumented tells whether the code under test calls a hook before each statement.
const Instrumented = true

func setHook(f func(int)) { sorty.VerifHook = f }
