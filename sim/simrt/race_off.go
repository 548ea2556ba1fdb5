//go:build !race

package simrt

// RaceBuild says whether the Go race detector is on.
const RaceBuild = false
