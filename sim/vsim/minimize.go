package main

import (
	"encoding/json"
	"time"

	"vsim.local/simrt"
	"vsim.local/simrt/plan"
)

func clonePlan(p *plan.Plan) *plan.Plan {
	q := *p
	q.Refs = nil
	b, _ := json.Marshal(&q)
	var c plan.Plan
	json.Unmarshal(b, &c)
	c.Refs = p.Refs
	return &c
}

// minimizer shrinks a failing plan while the same class of violation persists.
type minimizer struct {
	prog     program
	class    string
	deadline time.Time
	runs     int
	last     *outcome
}

func (m *minimizer) fails(p *plan.Plan) bool {
	if time.Now().After(m.deadline) {
		return false
	}
	m.runs++
	o := m.prog.run(p)
	if o.class == m.class {
		m.last = o
		return true
	}
	return false
}

// failsUnder also tries a few other schedules: removing work shifts the points
// at which the recorded one preempts.
func (m *minimizer) failsUnder(p *plan.Plan, tries int) *plan.Plan {
	if m.fails(p) {
		return p
	}
	multi := false
	for _, e := range p.Episodes {
		if len(e.Tasks) > 1 {
			multi = true
		}
	}
	if !multi {
		return nil
	}
	for i := 1; i <= tries; i++ {
		q := clonePlan(p)
		for e := range q.Episodes {
			q.Episodes[e].Sched.Seed += uint64(i) * 1000003
			q.Episodes[e].Sched.UseReplay = false
			q.Episodes[e].Sched.Replay = nil
			if m := q.Episodes[e].Sched.Mean; m == 0 || m > 40 {
				q.Episodes[e].Sched.Mean = []int64{8, 40, 200}[i%3]
			}
		}
		if m.fails(q) {
			return q
		}
	}
	return nil
}

func (m *minimizer) shrink(p *plan.Plan) *plan.Plan {
	best := p
	try := func(q *plan.Plan, tries int) bool {
		if r := m.failsUnder(q, tries); r != nil {
			best = r
			return true
		}
		return false
	}
	// episodes
	if m.last != nil && m.last.rep != nil {
		for _, v := range m.last.rep.Violations {
			if v.Episode+1 < len(best.Episodes) && v.Episode >= 0 {
				q := clonePlan(best)
				q.Episodes = q.Episodes[:v.Episode+1]
				try(q, 0)
			}
			break
		}
	}
	for size := (len(best.Episodes) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(best.Episodes) && len(best.Episodes) > 1; {
			q := clonePlan(best)
			q.Episodes = append(q.Episodes[:i:i], q.Episodes[i+size:]...)
			if len(q.Episodes) == 0 || !try(q, 2) {
				i += size
			}
		}
	}
	// tasks
	for e := range best.Episodes {
		for t := len(best.Episodes[e].Tasks) - 1; t >= 0 && len(best.Episodes[e].Tasks) > 1; t-- {
			q := clonePlan(best)
			q.Episodes[e].Tasks = append(q.Episodes[e].Tasks[:t:t], q.Episodes[e].Tasks[t+1:]...)
			try(q, 4)
		}
	}
	// operations, in chunks
	lists := func(p *plan.Plan, e int) []*[]plan.Op {
		l := []*[]plan.Op{&p.Episodes[e].Final}
		for t := range p.Episodes[e].Tasks {
			l = append(l, &p.Episodes[e].Tasks[t])
		}
		return append(l, &p.Episodes[e].Setup)
	}
	for e := len(best.Episodes) - 1; e >= 0; e-- {
		for li := range lists(best, e) {
			n := len(*lists(best, e)[li])
			for size := n; size >= 1; size /= 2 {
				for i := 0; i < len(*lists(best, e)[li]); {
					q := clonePlan(best)
					l := lists(q, e)[li]
					j := min(i+size, len(*l))
					*l = append((*l)[:i:i], (*l)[j:]...)
					if !try(q, 3) {
						i += size
					}
				}
			}
		}
	}
	// faults: drop those that do not matter
	for i := len(best.AllocFail) - 1; i >= 0; i-- {
		q := clonePlan(best)
		q.AllocFail = append(q.AllocFail[:i:i], q.AllocFail[i+1:]...)
		try(q, 0)
	}
	for e := range best.Episodes {
		for li := range lists(best, e) {
			for i := range *lists(best, e)[li] {
				o := (*lists(best, e)[li])[i]
				if o.F == "" {
					continue
				}
				q := clonePlan(best)
				(*lists(q, e)[li])[i].F = ""
				try(q, 1)
			}
		}
	}
	best = m.explicit(best)
	return best
}

// explicit replaces the seeded schedule by the list of its decisions and drops
// the preemptions that do not matter.
func (m *minimizer) explicit(p *plan.Plan) *plan.Plan {
	multi := false
	for _, e := range p.Episodes {
		if len(e.Tasks) > 1 {
			multi = true
		}
	}
	if !multi {
		return p
	}
	q := clonePlan(p)
	if q.Opts == nil {
		q.Opts = map[string]string{}
	}
	q.Opts["stream"] = "1"
	m.runs++
	o := m.prog.run(q)
	delete(q.Opts, "stream")
	if o.class != m.class || len(o.stream) == 0 {
		return p
	}
	k := 0
	for e := range q.Episodes {
		n := max(q.Episodes[e].Repeat, 1)
		if len(q.Episodes[e].Tasks) == 0 {
			continue
		}
		if n > 1 || k >= len(o.stream) {
			return p // repeated episodes keep their seed
		}
		q.Episodes[e].Sched.Replay = o.stream[k]
		q.Episodes[e].Sched.UseReplay = true
		k++
	}
	if !m.fails(q) {
		return p
	}
	best := q
	for e := range best.Episodes {
		for size := len(best.Episodes[e].Sched.Replay); size >= 1; size /= 2 {
			for i := 0; i < len(best.Episodes[e].Sched.Replay); {
				c := clonePlan(best)
				l := c.Episodes[e].Sched.Replay
				var keep []simrt.Decision
				dropped := false
				for j, d := range l {
					if j >= i && j < i+size && d.Kind == 0 {
						dropped = true
						continue
					}
					keep = append(keep, d)
				}
				if !dropped {
					i += size
					continue
				}
				c.Episodes[e].Sched.Replay = keep
				if m.fails(c) {
					best = c
				} else {
					i += size
				}
			}
		}
	}
	return best
}
