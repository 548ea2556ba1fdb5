//go:build race

package engine

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
