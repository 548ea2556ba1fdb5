// Package plan is what the orchestrator and the simulated programs exchange:
// a plan is one complete simulated run, so a plan file is a replay file.
package plan

import "vsim.local/simrt"

// Op is one call a task makes. Which fields matter depends on K.
type Op struct {
	K string `json:"k"`
	T int    `json:"t,omitempty"` // text
	S int    `json:"s,omitempty"` // slot operated on
	D int    `json:"d,omitempty"` // slot the result goes to
	A int    `json:"a,omitempty"` // argument: record, rename table, ...
	F string `json:"f,omitempty"` // fault injected into this call
	N int    `json:"n,omitempty"` // fault position or count
}

type Episode struct {
	Setup  []Op      `json:"setup,omitempty"` // before, by one caller
	Tasks  [][]Op    `json:"tasks"`           // concurrently
	Final  []Op      `json:"final,omitempty"` // after, by one caller
	Sched  Sched     `json:"sched"`
	Rand   [2]uint64 `json:"rand"`             // mode and seed of the random source
	Repeat int       `json:"repeat,omitempty"` // run the whole episode so often (leak cycles)
}

type Sched struct {
	Seed      uint64           `json:"seed"`
	Mean      int64            `json:"mean"`
	SyncPct   int              `json:"sync_pct"`
	OpPct     int              `json:"op_pct"`
	MaxSteps  int64            `json:"max_steps,omitempty"`
	Replay    []simrt.Decision `json:"replay,omitempty"`
	UseReplay bool             `json:"use_replay,omitempty"`
}

// Ref is what one text yields to a caller that does nothing else: the results
// of every kind of call, computed alone in a fresh process.
type Ref map[string]string

type Plan struct {
	Property  string              `json:"property"`
	Scenario  string              `json:"scenario"`
	Target    string              `json:"target"` // v4, v5, v6
	Race      bool                `json:"race"`
	Seed      uint64              `json:"seed"`
	Texts     []string            `json:"texts"`
	Names     []map[string]string `json:"names,omitempty"` // rename tables
	Episodes  []Episode           `json:"episodes"`
	AllocFail []int64             `json:"alloc_fail,omitempty"` // ordinals of failing allocations
	Env       map[string]string   `json:"env,omitempty"`
	Refs      map[string]Ref      `json:"refs,omitempty"` // by text; not part of the replay file
	RefMode   bool                `json:"ref_mode,omitempty"`
	Trace     bool                `json:"trace,omitempty"`
	Opts      map[string]string   `json:"opts,omitempty"`
}

type Violation struct {
	Class   string `json:"class"`
	Msg     string `json:"msg"`
	Episode int    `json:"episode"`
	Task    int    `json:"task"`
	Op      int    `json:"op"`
}

type Report struct {
	Done       bool               `json:"done"`
	Violations []Violation        `json:"violations,omitempty"`
	Ref        Ref                `json:"ref,omitempty"`
	Steps      int64              `json:"steps"`
	Switches   int64              `json:"switches"`
	Preempts   int64              `json:"preempts"`
	Blocked    int64              `json:"blocked"`
	SyncOps    int64              `json:"sync_ops"`
	Ops        int64              `json:"ops"`
	SimNanos   int64              `json:"sim_nanos"`
	Hash       uint64             `json:"hash"`       // of every decision and every result
	SchedHash  []uint64           `json:"sched_hash"` // per episode
	Faults     map[string]int64   `json:"faults,omitempty"`
	Probes     map[string]int64   `json:"probes,omitempty"`
	Decisions  [][]simrt.Decision `json:"decisions,omitempty"`
	CAccesses  int64              `json:"c_accesses,omitempty"`
	Allocs     int64              `json:"allocs,omitempty"`
	Trace      []string           `json:"trace,omitempty"`
}
