package main

// C11: what changes in a context or a font map reaches all that uses them:
// existing layouts and contexts answer as new ones made under the new
// settings.

import (
	"fmt"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C11", Run: runC11}) }

func loadInto(cf *fc.Config, doc string) {
	if doc == "" {
		return
	}
	if err := cf.LoadFromMemory(strings.NewReader(doc)); err != nil {
		harnessBug("%s: %v", doc, err)
	}
}

// c11Map is a font map with what it was last given.
type c11Map struct {
	env    layEnv
	extra  int // additional document loaded into the configuration, plus one
	first  int // fonts of the database left out
	cf     *fc.Config
	db     fc.Fontset
	fm     *fcfonts.FontMap
	serial uint
	seen   map[uint]bool
}

// settings makes a configuration and a database equal to the current ones.
func (m *c11Map) settings() (*fc.Config, fc.Fontset) {
	cf := layConfig(m.env.cf)
	if m.extra > 0 {
		loadInto(cf, layConfs[m.extra-1])
	}
	d := layDBs[m.env.db]
	db := database(d.key, d.list)
	if m.first >= len(db) {
		m.first = len(db) - 1
	}
	return cf, db[m.first:]
}

func (m *c11Map) fresh() *fcfonts.FontMap {
	fm := fcfonts.NewFontMap(m.settings())
	if m.env.loader != nil {
		fm.SetFaceLoader(m.env.loader)
	}
	return fm
}

type c11Ctx struct {
	set ctxSet
	m   *c11Map
	ctx *pango.Context
}

type c11Lay struct {
	set laySet
	x   *c11Ctx
	l   *pango.Layout
}

func runC11(c *Ctx) {
	s := c.S("run")
	w := c.World()
	maxText := 24
	if c.Tier > 0 {
		maxText = 60
	}
	budget := int64(4e8)

	maps := make([]*c11Map, 1+s.Weighted(3, 1))
	for i := range maps {
		m := &c11Map{env: layEnv{db: c.S("env").Weighted(6, 2, 3, 1, 1), cf: c.S("env").Weighted(2, 4, 1), loader: sharedFaces{}}, seen: map[uint]bool{}}
		if c.S("env").Chance(1, 10) {
			m.env.loader = nil
			if m.env.db < 2 {
				m.env.db = 2
			}
		}
		m.cf, m.db = m.settings()
		m.fm = fcfonts.NewFontMap(m.cf, m.db)
		if m.env.loader != nil {
			m.fm.SetFaceLoader(m.env.loader)
		} else {
			for _, f := range smallFonts {
				w.PutFile(f.Path, f.Data())
			}
		}
		m.serial = m.fm.GetSerial()
		m.seen[m.serial] = true
		maps[i] = m
		c.Note("font map %d: database %d configuration %d", i, m.env.db, m.env.cf)
	}
	ctxs := make([]*c11Ctx, 1+s.Weighted(3, 2, 1))
	for i := range ctxs {
		x := &c11Ctx{set: genCtx(c.S("ctx")), m: maps[s.Intn(len(maps))]}
		x.ctx = x.set.newContext(x.m.fm)
		ctxs[i] = x
		c.Note("context %d: %s", i, x.set)
	}
	lays := make([]*c11Lay, 1+s.Weighted(3, 2, 1))
	for i := range lays {
		l := &c11Lay{set: genLay(c.S("set"), s.Intn(4), maxText), x: ctxs[s.Intn(len(ctxs))]}
		c.Guard("newLayout", budget, func() { l.l = l.set.newLayout(l.x.ctx) })
		lays[i] = l
		c.Note("layout %d: %s", i, &l.set)
	}
	checkSerials := func() {
		for i, m := range maps {
			if v := m.fm.GetSerial(); v != m.serial {
				c.Fail("the change counter moves without a change", "font map %d: %d after %d", i, v, m.serial)
			}
		}
	}
	checkLayout := func(i int) {
		y := lays[i]
		var want, got []string
		c.Guard("fresh layout", budget, func() {
			want = report(y.set.newLayout(y.x.set.newContext(y.x.m.fresh())), repAll, 16)
		})
		c.Guard("report", budget, func() { got = report(y.l, repAll, 16) })
		c.State(hashStrings(want))
		if d := diffReport(want, got); d != "" {
			c.Fail("layout differs from a new one", "layout %d, %s, %s:\n%s", i, &y.set, y.x.set, d)
		}
		checkSerials()
	}
	checkContext := func(i int) {
		x := ctxs[i]
		gen := c.S("ask").Sub()
		var want, got []string
		c.Guard("fresh context", budget, func() {
			fm := x.m.fresh()
			want = askContext(gen(), x.set.newContext(fm), fm)
		})
		c.Guard("context", budget, func() { got = askContext(gen(), x.ctx, x.m.fm) })
		c.State(hashStrings(want))
		if d := diffReport(want, got); d != "" {
			c.Fail("context differs from a new one", "context %d, %s:\n%s", i, x.set, d)
		}
		checkSerials()
	}

	steps := s.Range(2, 10)
	if c.Tier > 0 && s.Chance(1, 3) {
		steps = s.Range(10, 40)
	}
	for k := 0; k < steps; k++ {
		switch s.Weighted(6, 3, 2, 3, 2) {
		case 0: // a context changes
			i := s.Intn(len(ctxs))
			x := ctxs[i]
			t := c.S("change")
			name := ""
			switch t.Intn(6) {
			case 0:
				name = "SetFontDescription"
				d := genDesc(t)
				if x.set.desc != nil && t.Chance(1, 2) {
					d = tweakDesc(t, *x.set.desc)
				}
				x.set.desc = &d
				c.Guard(name, budget, func() { x.ctx.SetFontDescription(d) })
			case 1:
				name = "SetLanguage"
				var l pango.Language
				switch t.Intn(4) {
				case 0:
				case 1:
					l = pango.DefaultLanguage()
				default:
					l = layLangs[t.Intn(len(layLangs))]
				}
				x.set.lang = l
				c.Guard(name, budget, func() { x.ctx.SetLanguage(l) })
			case 2:
				name = "SetBaseGravity"
				x.set.gravity = []pango.Gravity{0, 1, 2, 3, 4, 4, 4}[t.Intn(7)]
				c.Guard(name, budget, func() { x.ctx.SetBaseGravity(x.set.gravity) })
			case 3:
				name = "SetRoundGlyphPositions"
				x.set.round = t.Chance(1, 2)
				c.Guard(name, budget, func() { x.ctx.SetRoundGlyphPositions(x.set.round) })
			case 4:
				name = "matrix"
				// a field: the change is announced by changing something else.
				// The gravity follows the matrix when it is set.
				x.set.matrix = t.Intn(len(layMatrices))
				m := cloneMatrix(x.set.matrix)
				inPlace := t.Chance(1, 2) && m != nil && x.ctx.Matrix != nil
				order := t.Chance(1, 2)
				ask := t.Chance(1, 4)
				c.Guard(name, budget, func() {
					if inPlace {
						*x.ctx.Matrix = *m
					} else {
						x.ctx.Matrix = m
					}
					if order {
						x.ctx.SetBaseGravity(x.set.gravity)
					}
					x.ctx.SetRoundGlyphPositions(!x.set.round)
					x.ctx.SetRoundGlyphPositions(x.set.round)
					if ask {
						for _, y := range lays {
							if y.x == x {
								query(c.S("query"), y.l)
							}
						}
					}
					if !order {
						x.ctx.SetBaseGravity(x.set.gravity)
					}
				})
			case 5: // nothing changes
				name = "same again"
				c.Guard(name, budget, func() {
					x.ctx.SetRoundGlyphPositions(x.set.round)
					x.ctx.SetLanguage(x.set.lang)
					x.ctx.SetBaseGravity(x.set.gravity)
					if x.set.desc != nil {
						x.ctx.SetFontDescription(*x.set.desc)
					}
				})
			}
			c.Count("change "+name, 1)
			c.Note("context %d: %s", i, x.set)
			c.NonTrivial()
			checkSerials()
		case 1: // a font map changes
			i := s.Intn(len(maps))
			m := maps[i]
			t := c.S("change")
			name := ""
			switch t.Weighted(2, 2, 2, 1, 1) {
			case 0:
				name = "database"
				m.env.db, m.first = t.Intn(len(layDBs)), 0
				if m.env.loader == nil && m.env.db < 2 {
					m.env.db += 2
				}
				_, m.db = m.settings()
			case 1:
				name = "configuration"
				m.env.cf, m.extra = t.Intn(len(layConfs)), 0
				m.cf, _ = m.settings()
			case 2:
				name = "configuration and database"
				m.env.cf, m.extra = t.Intn(len(layConfs)), 0
				m.env.db, m.first = t.Intn(len(layDBs)), 0
				if m.env.loader == nil && m.env.db < 2 {
					m.env.db += 2
				}
				m.cf, m.db = m.settings()
			case 3:
				name = "configuration in place"
				if m.extra == 0 {
					m.extra = 1 + t.Intn(len(layConfs))
					loadInto(m.cf, layConfs[m.extra-1])
				}
			case 4:
				name = "fonts left out"
				m.first = t.Intn(len(layDBs[m.env.db].list))
				_, m.db = m.settings()
			}
			c.Count("change "+name, 1)
			c.Guard("SetConfig", budget, func() { m.fm.SetConfig(m.cf, m.db) })
			c.Note("font map %d: database %d from %d configuration %d %d", i, m.env.db, m.first, m.env.cf, m.extra)
			v := m.fm.GetSerial()
			if v <= m.serial || m.seen[v] {
				c.Fail("the change counter does not increase", "font map %d: %d after %d", i, v, m.serial)
			}
			m.serial = v
			m.seen[v] = true
			c.NonTrivial()
			checkSerials()
		case 2: // a layout changes
			y := lays[s.Intn(len(lays))]
			m := y.set.mutate(c.S("mut"), maxText)
			c.Count("change "+m.name, 1)
			c.Guard(m.name, budget, func() { m.apply(y.l) })
		case 3:
			y := lays[s.Intn(len(lays))]
			q := ""
			c.Guard("query", budget, func() { q = query(c.S("query"), y.l) })
			c.Count("query "+q, 1)
			checkSerials()
		case 4:
			if s.Chance(1, 2) {
				checkLayout(s.Intn(len(lays)))
			} else {
				checkContext(s.Intn(len(ctxs)))
			}
		}
	}
	for i := range lays {
		checkLayout(i)
	}
	for i := range ctxs {
		checkContext(i)
	}
	c.Faults(vos.Current())
}

// askContext queries a context and its font map.
func askContext(s *Stream, ctx *pango.Context, fm *fcfonts.FontMap) []string {
	r := &reporter{names: map[pango.Font]string{}}
	var lang pango.Language
	if s.Chance(1, 2) {
		lang = layLangs[s.Intn(len(layLangs))]
	}
	var desc *pango.FontDescription
	if s.Chance(1, 2) {
		d := genDesc(s)
		desc = &d
	}
	r.s(fmt.Sprintf("language %q", ctx.GetLanguage())).end()
	r.s(fmt.Sprintf("metrics %+v", ctx.GetMetrics(desc, lang))).end()
	d := genDesc(s)
	if f := pango.LoadFont(fm, ctx, &d); f != nil {
		r.s("font").font(f).s(fmt.Sprintf("%+v", f.GetMetrics(lang))).end()
	}
	fs := fm.LoadFontset(ctx, &d, lang)
	if fs != nil {
		r.s("set ").s(string(fs.GetLanguage()))
		n := 0
		fs.Foreach(func(f pango.Font) bool {
			r.font(f)
			n++
			return n >= 5
		})
		r.end()
	}
	text := genText(s, 20)
	var specs []attrSpec
	for k := s.Intn(3); k > 0; k-- {
		specs = append(specs, genAttr(s, len(text)))
	}
	for it := ctx.Itemize(text, 0, len(text), buildAttrs(specs)); it != nil; it = it.Next {
		r.s("item").item(it.Data).end()
	}
	return r.lines
}
