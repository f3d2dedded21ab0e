//go:build tuneparam

package core

import "github.com/jfcg/sorty/v2"

const Tunable = true

// Params returns MaxLenIns, MaxLenInsFC, MaxLenRec, MaxLenRecFC in force.
func Params() [4]int {
	return [4]int{sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC}
}

func setParams(p [4]int) {
	sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC = p[0], p[1], p[2], p[3]
}
