package main

import (
	"math"

	"MODULE_PATH/zz_verif/vsim"
)

// Parallel runs fns as concurrent tasks, the simulator deciding every switch.
func (c *Ctx) Parallel(op string, budget int64, fns ...func()) vsim.Result {
	c.Op("%s", op)
	s := c.S("sched")
	// how eager the scheduler is
	lo, hi := 0, 20
	switch s.Intn(4) {
	case 1:
		lo, hi = 0, 8
	case 2:
		lo, hi = 6, 14
	case 3:
		lo, hi = 10, 22
	}
	draws := 0
	gap := func() int64 {
		if draws >= 300 {
			return math.MaxInt64 / 4
		}
		draws++
		k := s.Intn(hi - lo + 2)
		if k == 0 {
			return math.MaxInt64 / 4 // until it ends or waits
		}
		k += lo - 1
		return 1<<uint(k) + int64(s.Intn(1<<uint(k)))
	}
	r := vsim.Run(vsim.Config{Budget: budget, Gap: gap, Pick: s.Intn}, fns...)
	c.Tasks += int64(len(fns))
	c.Count("tasks", int64(len(fns)))
	c.Count("task switches", int64(r.Switches))
	if r.Steps > c.Counters["max steps of one operation"] {
		c.Counters["max steps of one operation"] = r.Steps
	}
	c.Inter[r.Hash] = struct{}{}
	c.Note("schedule %x: %d switches", r.Hash, r.Switches)
	for _, t := range r.Tasks {
		if t.Panic != nil {
			c.rethrow(t.Panic, t.Stack)
		}
	}
	if r.Deadlock {
		c.Fail("deadlock", "%s: %v", op, r.Blocked)
	}
	if r.Switches > len(fns) {
		c.NonTrivial()
	}
	return r
}
