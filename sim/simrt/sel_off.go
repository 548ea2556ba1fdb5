//go:build !vsim

package simrt

func selSeed(uint64) {}
