// Package simtask runs a program of the repository as the tasks of a schedule:
// its goroutines, those of its libraries included, take turns as the seed says,
// its locks, channels and timers are the simulator's, and time passes for it
// only when none of them can go on, or while an operation takes it.
package simtask

import (
	"os"
	"strconv"
	"strings"
	"time"

	"vsim.local/simapp"
	"vsim.local/simrt"
	"vsim.local/simrt/simtime"
)

const (
	long = int64(time.Millisecond) // what is shorter nobody waits for
)

var (
	start   int64 // the time of the simulator when the program started
	telling bool  // the simulator is being told that time may pass
)

// Main runs the program.
func Main(prog func()) {
	if os.Getenv("VSIM_APP") == "" {
		prog()
		return
	}
	start = simapp.Now()
	simtime.Base = time.Unix(start/1e9, start%1e9)
	simrt.Limit = 4096
	simrt.Idle = idle
	simrt.FailHook = func(class, msg string) {
		simapp.Call(simapp.OpDone, 1, 0, 0, class, []byte(msg))
		os.Exit(95)
	}
	simapp.After = after
	simapp.Wait = simrt.Sleep
	simapp.Yield = func(op int, a int64) bool {
		if !simrt.Active() {
			return false
		}
		simrt.SyncPoint()
		if op == simapp.OpSleep {
			simrt.Sleep(a * 1000)
			return true
		}
		return false
	}
	var seed uint64
	var mean, sync int
	if f := strings.Fields(os.Getenv("VSIM_SCHED")); len(f) == 3 {
		seed, _ = strconv.ParseUint(f[0], 10, 64)
		mean, _ = strconv.Atoi(f[1])
		sync, _ = strconv.Atoi(f[2])
	}
	simrt.Run(simrt.Config{Seed: seed, Mean: int64(mean), SyncPct: sync, MaxSteps: 200_000_000}, []func(){func() {
		prog()
		os.Exit(0) // whatever else still runs
	}})
}

// idle lets the simulator's time come to what the program waits for.
//
//go:norace
func idle(until int64) {
	for i := 0; i < 1000; i++ {
		d := start + until - simapp.Now()
		if d <= 0 {
			return
		}
		telling = true
		simapp.Call(simapp.OpSleep, 0, (d+999)/1000, 0, "", nil)
		telling = false
	}
}

// after has the task wait for as long as its operation took.
//
//go:norace
func after() {
	if telling || !simrt.Active() {
		return
	}
	if d := simapp.Now() - start - simrt.Now(); d >= long {
		simrt.Sleep(d)
	} else {
		simrt.Advance(simapp.Now() - start)
	}
}
