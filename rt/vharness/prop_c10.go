package main

// C10: whatever was done to a layout before, it answers as a new one with the
// same settings does.

import (
	"MODULE_PATH/pango"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C10", Run: runC10}) }

func runC10(c *Ctx) {
	s := c.S("run")
	env := genEnv(c, c.S("env"))
	env.world(c)
	maxText := 40
	if c.Tier > 0 {
		maxText = 120
	}
	budget := int64(4e8)

	xs := genCtx(c.S("ctx"))
	c.Note("%s", xs)
	var fm = env.fontMap()
	ctx := xs.newContext(fm)
	// in such a run, a layout which is settled has one property changed, and is
	// compared each time
	toggle := s.Chance(1, 2)
	n := 1
	if !toggle && s.Chance(1, 4) {
		n = 2
	}
	sets := make([]laySet, n)
	layouts := make([]*pango.Layout, n)
	for i := range sets {
		sets[i] = genLay(c.S("set"), s.Intn(4), maxText)
		if toggle {
			sets[i] = genRich(c.S("set"))
		}
		c.Note("%s", &sets[i])
		c.Guard("newLayout", budget, func() { layouts[i] = sets[i].newLayout(ctx) })
	}
	check := func(i int, where string) {
		set := &sets[i]
		var want, got []string
		fresh := s.Chance(1, 8)
		c.Guard("fresh layout", budget, func() {
			ref := ctx
			if fresh {
				ref = xs.newContext(env.fontMap())
			}
			want = report(set.newLayout(ref), repAll, 24)
		})
		c.Guard("report", budget, func() { got = report(layouts[i], repAll, 24) })
		c.State(hashStrings(want))
		if d := diffReport(want, got); d != "" {
			c.Fail("layout differs from a new one", "%s, %s:\n%s", where, set, d)
		}
	}
	steps := s.Range(1, 8)
	if c.Tier > 0 && s.Chance(1, 3) {
		steps = s.Range(8, 30)
	}
	muts := 0
	for k := 0; toggle && k < 2*steps; k++ {
		set, l := &sets[0], layouts[0]
		parts := 0
		switch s.Weighted(3, 2, 1) {
		case 0:
			parts = repAll
		case 1:
			parts = 1 << s.Intn(12) & repAll
		}
		if parts != 0 {
			c.Guard("settle", budget, func() { report(l, parts, 4) })
		} else {
			c.Guard("query", budget, func() { query(c.S("query"), l) })
		}
		m := set.mutate(c.S("mut"), maxText)
		c.Count("change "+m.name, 1)
		c.Note("change %s: %s", m.name, set)
		c.Guard(m.name, budget, func() { m.apply(l) })
		muts++
		if s.Chance(2, 3) {
			check(0, "after "+m.name)
		}
	}
	for k := 0; !toggle && k < steps; k++ {
		i := s.Intn(n)
		set, l := &sets[i], layouts[i]
		switch s.Weighted(5, 3, 1, 1, 1) {
		case 0:
			m := set.mutate(c.S("mut"), maxText)
			c.Count("change "+m.name, 1)
			c.Guard(m.name, budget, func() { m.apply(l) })
			muts++
		case 1:
			q := ""
			c.Guard("query", budget, func() { q = query(c.S("query"), l) })
			c.Count("query "+q, 1)
			c.Note("query %s", q)
		case 2: // set properties to what they are
			c.Guard("set again", budget, func() {
				l.SetWidth(set.width)
				l.SetAttributes(set.attrs.list())
				l.SetEllipsize(set.ellipsize)
				l.SetHeight(set.height)
				l.SetSpacing(set.spacing)
				l.SetTabs(copyTabs(set.tabs))
				if set.desc != nil {
					d := *set.desc
					l.SetFontDescription(&d)
				}
			})
		case 3: // the tabs given were the caller's, and change
			t := genTabs(c.S("mut"))
			if t == nil {
				continue
			}
			c.Guard("SetTabs", budget, func() {
				l.SetTabs(t)
				set.tabs = copyTabs(t)
				if s.Chance(1, 2) {
					query(c.S("query"), l)
				}
				t2 := genTabs(c.S("mut"))
				if t2 != nil {
					*t = *t2
					if s.Chance(1, 2) {
						l.SetTabs(t)
						set.tabs = copyTabs(t)
					}
				}
			})
			muts++
		case 4:
			check(i, "in the course of the run")
		}
	}
	for i := range sets {
		check(i, "at the end")
		if s.Chance(1, 3) {
			check(i, "asked again")
		}
	}
	c.Faults(vos.Current())
	if muts > 0 {
		c.NonTrivial()
	}
}
