//go:build !race

package engine

func raceErrors() int { return 0 }
