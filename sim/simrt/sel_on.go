//go:build vsim

package simrt

import "runtime"

func selSeed(x uint64) { runtime.SimSelectSeed(x) }
