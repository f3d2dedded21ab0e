//go:build !tuneparam

package core

import "github.com/jfcg/sorty/v2"

const Tunable = false

// Params returns MaxLenIns, MaxLenInsFC, MaxLenRec, MaxLenRecFC in force.
func Params() [4]int {
	return [4]int{sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC}
}

func setParams(p [4]int) {}
