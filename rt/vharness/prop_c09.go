package main

// C09: queries leave what they are given as it was, and what they hand out is
// the caller's.

import (
	"fmt"
	"math"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C09", Run: runC09}) }

func runC09(c *Ctx) {
	s := c.S("run")
	if s.Chance(1, 2) {
		c09Layouts(c, s)
	} else {
		c09Queries(c, s)
	}
}

// spoil changes a value handed out by a query.
func spoil(s *Stream, v interface{}, patterns bool) {
	switch v := v.(type) {
	case fc.Pattern:
		if v != nil {
			spoilPattern(s, v)
		}
	case fc.Fontset:
		if patterns {
			for _, p := range v {
				if p != nil && s.Chance(1, 2) {
					spoilPattern(s, p)
				}
			}
		}
		if n := len(v); n > 1 {
			v[0], v[n-1] = v[n-1], v[0]
			v[s.Intn(n)] = nil
		}
	case fc.Charset:
		spoilCharset(s, v)
	}
}

func spoilCharset(s *Stream, cs fc.Charset) {
	for _, r := range []rune{'a', 'A', 'é', 'ש', 0x2603, 'z', ' ', 'क'} {
		switch s.Intn(3) {
		case 0:
			cs.AddChar(r)
		case 1:
			cs.DelChar(r)
		}
	}
}

func spoilPattern(s *Stream, p fc.Pattern) {
	if cs, ok := p.GetCharset(fc.CHARSET); ok {
		spoilCharset(s, cs)
	}
	for _, o := range sortedObjects(p) {
		for i := 0; ; i++ {
			x, r := p.GetAt(o, i)
			if r != fc.ResultMatch {
				break
			}
			if cs, ok := x.(fc.Charset); ok {
				spoilCharset(s, cs)
			}
		}
		switch s.Intn(6) {
		case 0:
			p.Del(o)
		case 1, 2:
			x, r := p.GetAt(o, 0)
			if r == fc.ResultMatch {
				p.Add(o, x, s.Chance(1, 2))
			}
		}
	}
	p.Add(fc.FAMILY, fc.String("spoiled"), s.Chance(1, 2))
	p.Add(fc.WEIGHT, fc.Float(77), false)
}

// c09Queries makes font queries on shared values and spoils what they return.
func c09Queries(c *Ctx, s *Stream) {
	budget := int64(2e9)
	w := c08World(c, c.S("env"))
	var env *c08Env
	mk := genC08Env(c, c.S("env"))
	c.Guard("setup", 0, func() { env = mk() })
	files := []string{"/scan/alpha.ttf", "/scan/sub/pair.ttc", "/scan/bad.ttf", "/scan/empty.ttf", "/usr/share/fonts/beta.ttf", "/scan/var.ttf"}
	pr := c.newProbes(s, false)
	snapshot := func() (l []string) {
		for i, q := range env.queries {
			l = append(l, fmt.Sprintf("query %d %s", i, dumpPattern(q)))
		}
		l = append(l, dumpSet(env.fs)...)
		l = append(l, fmt.Sprintf("cache %x", hashStr(string(env.cache))))
		for _, f := range files {
			b, ok := w.Get(f)
			l = append(l, fmt.Sprintf("file %s %v %x", f, ok, hashStr(string(b))))
		}
		return l
	}
	before := snapshot()
	asked := c.ask(pr, env.cf)
	vos.Use(w)
	same := func(what string) {
		if d := diffStrings(before, snapshot()); d != "" {
			c.Fail("query modifies what it is given", "%s: %s", what, d)
		}
	}
	var ops []*c08Op
	var first [][]string
	for k := s.Range(1, 6); k > 0; k-- {
		o := genC08Op(s)
		if o.kind == 10 && !s.Chance(1, 4) {
			o.kind = 15
		}
		o.share = true
		ops = append(ops, o)
		c.Note("%s", o)
		c.Guard(c08Kinds[o.kind], budget, func() { o.run(env) })
		first = append(first, o.answer())
		same(o.String())
		if o.kind != 17 && s.Chance(3, 4) { // accessors return what a pattern holds
			// the patterns of a sort belong to the set
			patterns := o.kind != 3 && o.kind != 15
			c.Guard("change results", budget, func() {
				for _, v := range o.res {
					spoil(s, v, patterns)
				}
			})
			c.Count("values changed by the caller", int64(len(o.res)))
			same(o.String() + ", after its results were changed,")
			c.NonTrivial()
		}
	}
	for i, o := range ops {
		again := *o
		again.res = nil
		c.Guard(c08Kinds[o.kind]+" again", budget, func() { again.run(env) })
		got := again.answer()
		c.State(hashStrings(first[i]))
		if d := diffStrings(first[i], got); d != "" {
			c.Fail("repeated query answers differently", "%s: %s", o, d)
		}
	}
	same("repeated queries")
	if d := diffStrings(asked, c.ask(pr, env.cf)); d != "" {
		c.Fail("query modifies the configuration", "%s", d)
	}
	vos.Use(w)

	// values given to a pattern remain the caller's
	cs := genCharset(s)
	p := fc.NewPattern()
	c.Guard("Add", budget, func() { p.Add(fc.CHARSET, cs, true) })
	d := p.Duplicate()
	want := dumpPattern(p)
	spoilCharset(s, cs)
	if got := dumpPattern(p); got != want {
		c.Fail("pattern retains the caller's value", "expected %s\nobtained %s", want, got)
	}
	spoilPattern(s, d)
	if got := dumpPattern(p); got != want {
		c.Fail("patterns share their values", "expected %s\nobtained %s", want, got)
	}
}

// c09Layouts lays out text with objects which are all the caller's.
func c09Layouts(c *Ctx, s *Stream) {
	budget := int64(4e8)
	env := genEnv(c, c.S("env"))
	env.world(c)
	d := layDBs[env.db]
	db := database(d.key, d.list)
	cf := layConfig(env.cf)
	xs := genCtx(c.S("ctx"))
	maxText := 24
	if c.Tier > 0 {
		maxText = 80
	}
	set := genLay(c.S("set"), s.Intn(8), maxText)
	if s.Chance(1, 3) && len(set.text) > 2 { // ellipsized
		set.width, set.ellipsize = pango.Unit(s.Range(5, 60))*pu, pango.EllipsizeMode(s.Range(1, 3))
		if s.Chance(1, 2) {
			set.height = -pango.Unit(s.Range(1, 2))
		}
	}
	c.Note("%s %s", xs, &set)

	fm := fcfonts.NewFontMap(cf, db)
	if env.loader != nil {
		fm.SetFaceLoader(env.loader)
	}
	text := append([]rune(nil), set.text...)
	attrs := set.attrs.list()
	held := append(pango.AttrList(nil), attrs...)
	tabs := copyTabs(set.tabs)
	matrix := cloneMatrix(xs.matrix)
	var desc *pango.FontDescription
	if set.desc != nil {
		e := *set.desc
		desc = &e
	}
	ask := genDesc(s)
	snapshot := func() (l []string) {
		l = append(l, "text "+string(text), "attributes "+attrsString(attrs), "each attribute "+attrsString(held))
		l = append(l, fmt.Sprint("tabs ", tabs), fmt.Sprint("matrix ", matrix))
		if desc != nil {
			l = append(l, fmt.Sprintf("description %v", *desc))
		}
		return append(l, fmt.Sprintf("description asked %v", ask))
	}
	before := snapshot()
	dbBefore := dumpSet(db)
	q := genPattern(s)
	q.Add(fc.FAMILY, fc.String("Alpha"), true)
	probe := func() (l []string) {
		for _, font := range []fc.Pattern{nil, db[0], db[len(db)-1]} {
			p := q.Duplicate()
			if font == nil {
				cf.Substitute(p, nil, fc.MatchQuery)
			} else {
				p = font.Duplicate()
				cf.Substitute(p, q, fc.MatchResult)
			}
			l = append(l, dumpPattern(p))
		}
		return l
	}
	probed := probe()
	same := func(what string) {
		if d := diffStrings(before, snapshot()); d != "" {
			c.Fail("query modifies what it is given", "%s: %s", what, d)
		}
	}

	ctx := pango.NewContext(fm)
	ctx.Matrix = matrix
	if xs.desc != nil {
		ctx.SetFontDescription(*xs.desc)
	}
	if xs.lang != "" {
		ctx.SetLanguage(xs.lang)
	}
	ctx.SetBaseGravity(xs.gravity)
	ctx.SetRoundGlyphPositions(xs.round)
	var l *pango.Layout
	c.Guard("newLayout", budget, func() {
		plain := set
		plain.text, plain.attrs, plain.tabs, plain.desc = nil, layAttrs{}, nil, nil
		l = plain.newLayout(ctx)
		if desc != nil {
			l.SetFontDescription(desc)
		}
		l.SetTabs(tabs)
		l.SetRunes(text)
		l.SetAttributes(attrs)
	})
	same("setting a layout")

	type question struct {
		kind  int
		gen   func() *Stream
		lang  pango.Language
		first []string
	}
	kinds := []string{"report", "query", "metrics", "font set", "itemize", "markup", "font", "glyphs", "lists", "apply attributes"}
	answer := func(x *question, change bool) []string {
		s := x.gen()
		r := &reporter{names: map[pango.Font]string{}}
		switch x.kind {
		case 0:
			r.lines = report(l, 1+s.Intn(repAll), 8)
		case 1:
			r.s(query(s, l)).end()
		case 2:
			r.s(fmt.Sprintf("%+v %+v", ctx.GetMetrics(&ask, x.lang), ctx.GetMetrics(nil, x.lang))).end()
		case 3:
			fs := fm.LoadFontset(ctx, &ask, x.lang)
			if fs == nil {
				break
			}
			n := s.Range(1, 8)
			fs.Foreach(func(f pango.Font) bool {
				n--
				r.font(f)
				return n <= 0
			})
			r.end()
		case 4:
			items := ctx.Itemize(text, 0, len(text), attrs)
			for it := items; it != nil; it = it.Next {
				r.s("item").item(it.Data).end()
			}
			if change {
				for it := items; it != nil; it = it.Next {
					it.Data.Offset += 3
					it.Data.Length = 1
					it.Data.Analysis.Level = 5
					it.Data.Analysis.Language = "xx"
					it.Data.Analysis.Font = nil
					ex := it.Data.Analysis.ExtraAttrs
					for i := range ex {
						ex[i] = nil
					}
				}
			}
		case 5:
			m := []byte(genMarkup(s))
			held := string(m)
			p, err := pango.ParseMarkup(m, '_')
			if string(m) != held {
				c.Fail("query modifies what it is given", "markup %q", held)
			}
			if err != nil {
				r.s(err.Error()).end()
				break
			}
			r.s(string(p.Text)).s(attrsString(p.Attr)).i(int(p.AccelChar)).end()
			if change {
				for i := range p.Text {
					p.Text[i] = '?'
				}
				for _, a := range p.Attr {
					a.StartIndex, a.EndIndex = 7, 8
				}
				for i := range m {
					m[i] = '?'
				}
			}
		case 6:
			f := pango.LoadFont(fm, ctx, &ask)
			if f == nil {
				break
			}
			r.describeFont(s, f)
			if change {
				e := f.Describe(false)
				e.SetFamily("spoiled")
				e.SetWeight(100)
				for _, ft := range f.GetFeatures() {
					ft.Value = 77
				}
				m := f.GetMetrics(x.lang)
				m.Ascent = -1
			}
		case 7:
			var gs pango.GlyphString
			an := pango.Analysis{Font: pango.LoadFont(fm, ctx, &ask), Language: x.lang}
			if an.Font == nil {
				break
			}
			gs.Shape(text, &an)
			r.glyphs(&gs).end()
			if change {
				for i := range gs.Glyphs {
					gs.Glyphs[i].Geometry.Width = 1
					gs.LogClusters[i] = 0
				}
			}
		case 8:
			for k := 0; k < l.GetLineCount(); k++ {
				line := l.GetLinesReadonly()[k]
				x := line.GetXRanges(line.StartIndex, line.StartIndex+line.Length)
				for run := line.Runs; run != nil; run = run.Next {
					if it := run.Data.Item; it.Offset >= 0 && it.Offset+it.Length <= len(l.Text) {
						x = append(x, run.Data.GetLogicalWidths(l.Text)...)
					}
				}
				for i := range x {
					r.i(int(x[i]))
					if change {
						x[i] = -9
					}
				}
				x = line.GetXRanges(line.StartIndex, line.StartIndex+line.Length)
				for i := range x {
					r.i(int(x[i]))
					x[i] = 4
				}
			}
			r.end()
		case 9:
			items := ctx.Itemize(text, 0, len(text), nil)
			items.ApplyAttributes(attrs)
			for it := items; it != nil; it = it.Next {
				r.s("item").item(it.Data).end()
			}
		}
		return r.lines
	}
	var asked []*question
	for k := s.Range(1, 7); k > 0; k-- {
		x := &question{kind: s.Weighted(5, 3, 1, 2, 3, 1, 2, 1, 1, 1)}
		if s.Chance(1, 2) {
			x.lang = layLangs[s.Intn(len(layLangs))]
		}
		x.gen = s.Sub()
		if x.kind == 9 && !sane(attrs, len(text)) {
			x.kind = 4
		}
		c.Note("ask %s", kinds[x.kind])
		c.Guard(kinds[x.kind], budget, func() { x.first = answer(x, true) })
		c.State(hashStrings(x.first))
		same(kinds[x.kind])
		asked = append(asked, x)
	}
	for _, x := range asked {
		var got []string
		c.Guard(kinds[x.kind]+" again", budget, func() { got = answer(x, false) })
		if d := diffReport(x.first, got); d != "" {
			c.Fail("repeated query answers differently", "%s: %s", kinds[x.kind], d)
		}
	}
	same("asking again")
	if d := diffStrings(dbBefore, dumpSet(db)); d != "" {
		c.Fail("query modifies the database", "%s", d)
	}
	if d := diffStrings(probed, probe()); d != "" {
		c.Fail("query modifies the configuration", "%s", d)
	}
	// a coverage can be changed
	if f := pango.LoadFont(fm, ctx, &ask); f != nil {
		e := ask
		c.Guard("Coverage.Set", budget, func() {
			cov := f.GetCoverage("")
			for _, ch := range c17Runes {
				cov.Set(ch, !cov.Get(ch))
			}
		})
		c.Count("coverages changed by the caller", 1)
		if d := diffStrings(dbBefore, dumpSet(db)); d != "" {
			c.Fail("changing a coverage modifies the database", "%s: %s", e.String(), d)
		}
	}
	if len(asked) > 1 {
		c.NonTrivial()
	}
}

// sane tells if the attributes lie in a text of length n.
func sane(l pango.AttrList, n int) bool {
	for _, a := range l {
		if a.EndIndex > n && a.EndIndex != math.MaxInt32 && a.EndIndex != pango.MaxInt {
			return false
		}
	}
	return true
}
