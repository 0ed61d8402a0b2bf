package main

// C14: every operation finishes in a number of steps bounded by a polynomial
// of the size of what it is given.

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/fribidi"
	"MODULE_PATH/pango"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

func init() { register(&Prop{ID: "C14", Run: runC14}) }

// bound is A + K·n^Deg steps.
type bound struct {
	a, k float64
	deg  int
}

// within runs an operation whose inputs have size n.
func (c *Ctx) within(op string, b bound, n int, fn func()) {
	lim := b.a + b.k*math.Pow(float64(n+1), float64(b.deg))
	start := vsim.Steps()
	c.Guard(op, int64(lim), fn)
	d := float64(vsim.Steps() - start)
	cl := opName(op)
	if p := int64(1e6 * d / lim); p > c.Counters["max millionths of the bound: "+cl] {
		c.Counters["max millionths of the bound: "+cl] = p
	}
	c.Count("bounded operations", 1)
}

// The bounds are at least ten times what is observed on the pinned version.
var (
	bndSet     = bound{1e6, 1e4, 1}
	bndLay     = bound{3e7, 3e5, 2}
	bndMove    = bound{3e7, 1e5, 3}
	bndWalk    = bound{1e7, 5e4, 3}
	bndText    = bound{1e6, 1e4, 2}
	bndItem    = bound{3e7, 3e5, 2}
	bndMarkup  = bound{1e6, 1e4, 2}
	bndQuery   = bound{1e8, 1e6, 1}
	bndDoc     = bound{1e6, 1e4, 2}
	bndSubst   = bound{1e6, 1e4, 3}
	bndScan    = bound{2e9, 1e5, 1} // a damaged character map may cover every character
	bndCache   = bound{1e7, 1e4, 1}
	bndMetrics = bound{1e8, 1e6, 1}
)

var wildRunes = []rune{'a', ' ', '\n', '\t', '\r', 0x0301, 0x200D, 0x200B, 0x00AD, 0x202B, 0x202E, 0x202C, 0x2067, 0x2068, 0x2069, 0x200F, 0x200E,
	0x05D0, 0x0627, 0x0644, 0x0640, 0x1100, 0x1161, 0x11A8, 0x1F1EB, 0xFE0F, 0x1F469, 0x0915, 0x094D, 0x0E01, 0x4E00, 0x3000, 0x2029, 0x2028, 0x0085, 0x0B, 0x0C,
	0, 0xFFFC, 0xFFFD, 0xFEFF, '-', '(', ')', '1', '.', 0x00DF, 0x0130, 0x01C5, 0xE0041, 0x10FFFF, 0x0378, 0x034F, 0x115F, 0x3164, 0x1160, 0x0300, 0x0E31, 0x0BCB, 0x1D15E, 0x061C, 0x2066, 0x202A, 0x00A0, 0x2026, 0x1F3FB, 0x20E3, 0x180E}

// genWild draws a text nobody would write.
func genWild(s *Stream, max int) []rune {
	n := 0
	switch s.Intn(5) {
	case 0:
		n = s.Intn(4)
	case 1, 2:
		n = s.Range(1, mini(max, 20))
	default:
		n = s.Range(1, max)
	}
	pick := func() rune { return wildRunes[s.Intn(len(wildRunes))] }
	out := make([]rune, 0, n)
	switch s.Intn(6) {
	case 0: // one character
		r := pick()
		for len(out) < n {
			out = append(out, r)
		}
	case 1: // two of them
		a, b := pick(), pick()
		k := s.Range(1, 5)
		for len(out) < n {
			if len(out)%(k+1) == k {
				out = append(out, b)
			} else {
				out = append(out, a)
			}
		}
	case 2: // a few
		var l []rune
		for k := s.Range(2, 5); k > 0; k-- {
			l = append(l, pick())
		}
		for len(out) < n {
			out = append(out, l[s.Intn(len(l))])
		}
	case 3: // all of them
		for len(out) < n {
			out = append(out, pick())
		}
	case 4: // any
		for len(out) < n {
			r := rune(s.Intn(0x3100))
			switch s.Intn(6) {
			case 0:
				r = rune(0xA000 + s.Intn(0x6000))
			case 1:
				r = rune(0x10000 + s.Intn(0x10000))
			case 2:
				r = rune(s.Intn(0x110000))
			}
			if r >= 0xD800 && r < 0xE000 {
				r -= 0x800
			}
			out = append(out, r)
		}
	case 5:
		if s.Chance(1, 8) { // not even characters
			for len(out) < n {
				out = append(out, []rune{'a', 0xD800, 0xDFFF, 0x110000, -1, math.MaxInt32, math.MinInt32, 0x5D0}[s.Intn(8)])
			}
			break
		}
		t := genText(s, max)
		if len(t) > max {
			t = t[:max]
		}
		out = t
	}
	return out
}

var wildUnits = []pango.Unit{0, -1, 1, -2, 2, pu, -pu, 1 << 20, -(1 << 20), 1 << 30, -(1 << 30), math.MaxInt32, math.MinInt32, math.MaxInt32 - 1}

func genUnit(s *Stream) pango.Unit {
	if s.Chance(1, 2) {
		return wildUnits[s.Intn(len(wildUnits))]
	}
	return pango.Unit(s.Range(-100, 300)) * pu
}

func genWildDesc(s *Stream) pango.FontDescription {
	d := genDesc(s)
	switch s.Intn(6) {
	case 0:
		d.SetSize([]int32{0, 1, 1 << 20, 1 << 28, math.MaxInt32, 1000 * pu}[s.Intn(6)])
	case 1:
		d.SetAbsoluteSize([]int32{0, 1, 1 << 20, 1 << 28, math.MaxInt32, 1000 * pu}[s.Intn(6)])
	case 2:
		d.SetFamily(strings.Repeat([]string{"a,", ",", "x", " ", "Alpha,", "é"}[s.Intn(6)], s.Range(1, 60)))
	case 3:
		d.SetVariations(strings.Repeat([]string{"wght=200,", ",", "=", "wght=1e30", "wdth=-5;", "abcd=nan,"}[s.Intn(6)], s.Range(1, 20)))
	case 4:
		d.SetWeight(pango.Weight([]int{0, -5, 1000, 1 << 30, 1}[s.Intn(5)]))
	}
	return d
}

// genWildAttr draws an attribute with extreme values or positions.
func genWildAttr(s *Stream, n int) *pango.Attribute {
	var at *pango.Attribute
	u := int(genUnit(s))
	f := []float32{0, -1, 1e-30, 1e30, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 0.5, 3}[s.Intn(9)]
	switch s.Intn(14) {
	case 0:
		at = pango.NewAttrLetterSpacing(int32(u))
	case 1:
		at = pango.NewAttrRise(u)
	case 2:
		at = pango.NewAttrScale(pango.Fl(f))
	case 3:
		at = pango.NewAttrLineHeight(f)
	case 4:
		at = pango.NewAttrAbsoluteLineHeight(u)
	case 5:
		at = pango.NewAttrShape(pango.Rectangle{X: genUnit(s), Y: genUnit(s), Width: genUnit(s), Height: genUnit(s)}, pango.Rectangle{X: genUnit(s), Y: genUnit(s), Width: genUnit(s), Height: genUnit(s)})
	case 6:
		at = pango.NewAttrSize(maxi(0, u))
	case 7:
		at = pango.NewAttrAbsoluteSize(maxi(0, u))
	case 8:
		at = pango.NewAttrBaselineShift(u)
	case 9:
		at = pango.NewAttrFontDescription(genWildDesc(s))
	case 10:
		at = pango.NewAttrFontFeatures(strings.Repeat([]string{"liga=0,", ",", "=", "aalt[3:5]=2,", "kern[:", "x y"}[s.Intn(6)], s.Range(1, 20)))
	case 11:
		at = pango.NewAttrLanguage(genWildLang(s))
	case 12:
		at = pango.NewAttrWord()
	default:
		a := genAttr(s, n)
		at = a.build()
	}
	switch s.Intn(6) {
	case 0:
		at.StartIndex, at.EndIndex = 0, pango.MaxInt
	case 1:
		at.StartIndex, at.EndIndex = s.Intn(n+1), pango.MaxInt
	case 2:
		at.StartIndex = s.Intn(n + 1)
		at.EndIndex = at.StartIndex // empty
	default:
		at.StartIndex = s.Intn(n + 1)
		at.EndIndex = at.StartIndex + s.Intn(n-at.StartIndex+2)
	}
	return at
}

// genWildLang draws a language tag.
func genWildLang(s *Stream) pango.Language {
	if s.Chance(1, 3) {
		return layLangs[s.Intn(len(layLangs))]
	}
	sub := []string{"a", "", "en", "zh", "hant", "é", "x", "zzz", "zzj", "zza", "hk", "tw", "mn", "art", "i", "no", "und", "fonipa", "hbotabcd", "hbsc", "sgn", "lojban", "hans", "mo", "zh-min-nan", "cmn", "polyton", "syre", "0", "--", "日本"}
	l := sub[s.Intn(len(sub))]
	for k := s.Intn(4); k > 0; k-- {
		l += "-" + sub[s.Intn(len(sub))]
	}
	if s.Chance(1, 20) {
		l = strings.Repeat(l, 30)
	}
	return pango.Language(l)
}

func genWildTabs(s *Stream) *pango.TabArray {
	t := &pango.TabArray{PositionsInPixels: s.Chance(1, 2)}
	for n := []int{0, 1, 3, 40}[s.Intn(4)]; n > 0; n-- {
		t.Tabs = append(t.Tabs, pango.Tab{Location: genUnit(s), Alignment: pango.TabAlign(s.Intn(4)), DecimalPoint: []rune{0, '.', '\t', 'a'}[s.Intn(4)]})
	}
	return t
}

// wildChange makes one change with extreme values.
func wildChange(s *Stream, max int, l *pango.Layout) (string, func()) {
	n := len(l.Text)
	switch s.Intn(16) {
	case 0, 1:
		t := genWild(s, max)
		return fmt.Sprintf("SetRunes %q", string(t)), func() { l.SetRunes(t) }
	case 2:
		t := string(genWild(s, max))
		if s.Chance(1, 4) {
			t = t[s.Intn(len(t)+1):] // not always valid UTF-8
		}
		return fmt.Sprintf("SetText %q", t), func() { l.SetText(t) }
	case 3, 4:
		var al pango.AttrList
		ds := ""
		for k := []int{0, 1, 2, 3, 6, 40}[s.Intn(6)]; k > 0; k-- {
			a := genWildAttr(s, n)
			ds += a.String() + " "
			al.Insert(a)
		}
		return "SetAttributes " + ds, func() { l.SetAttributes(al) }
	case 5:
		d := genWildDesc(s)
		return "SetFontDescription " + d.String(), func() { l.SetFontDescription(&d) }
	case 6:
		w := genUnit(s)
		return fmt.Sprintf("SetWidth %d", w), func() { l.SetWidth(w) }
	case 7:
		w := genUnit(s)
		return fmt.Sprintf("SetHeight %d", w), func() { l.SetHeight(w) }
	case 8:
		w := genUnit(s)
		return fmt.Sprintf("SetIndent %d", w), func() { l.SetIndent(w) }
	case 9:
		w := genUnit(s)
		return fmt.Sprintf("SetSpacing %d", w), func() { l.SetSpacing(w) }
	case 10:
		f := []float32{0, -1, 1e30, float32(math.NaN()), float32(math.Inf(1)), 0.5}[s.Intn(6)]
		return fmt.Sprintf("SetLineSpacing %v", f), func() { l.SetLineSpacing(f) }
	case 11:
		t := genWildTabs(s)
		return fmt.Sprintf("SetTabs %v", t), func() { l.SetTabs(t) }
	default:
		// an ordinary change
		set := defaultSet()
		set.text = l.Text
		var m layMut
		for {
			set = defaultSet()
			set.text = append([]rune(nil), l.Text...)
			m = set.mutate(s, mini(max, 60))
			if len(set.text) <= 2*max {
				break
			}
		}
		set.text = nil
		return m.name + " to " + set.String(), func() { m.apply(l) }
	}
}

func wildContext(c *Ctx, s *Stream, ctx *pango.Context) {
	mats := []*pango.Matrix{{}, {Xx: 1, Xy: 1, Yx: 1, Yy: 1}, {Xx: 1e30, Yy: 1e30}, {Xx: 1e-30, Yy: 1e-30}, {Xx: 1, Yy: 0}, {Xx: pango.Fl(math.NaN()), Yy: 1}, {Xx: pango.Fl(math.Inf(1)), Yy: 1}, {Xx: 0, Xy: 1e5, Yx: -1e-5}}
	c.within("context", bndSet, 0, func() {
		switch s.Intn(4) {
		case 0:
			m := *mats[s.Intn(len(mats))]
			c.Note("matrix %v", m)
			ctx.Matrix = &m
			ctx.SetRoundGlyphPositions(s.Chance(1, 2))
		case 1:
			d := genWildDesc(s)
			c.Note("context description %s", d.String())
			ctx.SetFontDescription(d)
		case 2:
			ctx.SetBaseGravity(pango.Gravity(s.Intn(5)))
		case 3:
			lang := genWildLang(s)
			c.Note("context language %q", lang)
			ctx.SetLanguage(lang)
		}
	})
}

// size is what the work of a layout depends on.
func laySize(l *pango.Layout) int { return len(l.Text) + 4*len(l.Attributes) }

func runC14(c *Ctx) {
	s := c.S("run")
	switch s.Weighted(6, 3, 3, 3, 2, 2, 2) {
	case 0:
		c14Layout(c, s)
	case 1:
		c14Cursor(c, s)
	case 2:
		c14Text(c, s)
	case 3:
		c14Items(c, s)
	case 4:
		c14Query(c, s)
	case 5:
		c14Conf(c, s)
	case 6:
		c14Storage(c, s)
	}
	c.NonTrivial()
}

func c14FontMap(c *Ctx, s *Stream) pango.FontMap {
	env := genEnv(c, c.S("env"))
	env.world(c)
	fm := env.fontMap()
	if env.loader != nil && s.Chance(1, 8) {
		fm.SetFaceLoader(&flakyLoader{c: c, s: c.S("loader"), den: 4, num: []int{1, 2, 4}[s.Intn(3)], next: env.loader})
	}
	return fm
}

func c14Layout(c *Ctx, s *Stream) {
	ctx := pango.NewContext(c14FontMap(c, s))
	max := []int{12, 40, 150}[s.Weighted(3, 4, 2)]
	if c.Tier > 0 && s.Chance(1, 6) {
		max = 600
	}
	l := pango.NewLayout(ctx)
	m := c.S("mut")
	for k := s.Range(1, 8); k > 0; k-- {
		name, apply := wildChange(m, max, l)
		c.Note("%s", name)
		c.within("set "+opName(name), bndSet, maxi(len(name), laySize(l)), apply)
	}
	steps := s.Range(1, 5)
	for k := 0; k < steps; k++ {
		switch s.Weighted(5, 2, 1) {
		case 0:
			c14Ask(c, l)
		case 1:
			name, apply := wildChange(m, max, l)
			c.Note("%s", name)
			c.within("set "+opName(name), bndSet, maxi(len(name), laySize(l)), apply)
		case 2:
			wildContext(c, s, ctx)
		}
	}
	c14Ask(c, l)
	c.State(mix(uint64(l.GetLineCount()), mix(uint64(len(l.Text)), hashStr(fmt.Sprint(l.GetSize())))))
	c.Faults(vos.Current())
}

func c14Ask(c *Ctx, l *pango.Layout) {
	q := c.S("query")
	n := laySize(l)
	q0 := q.Intn(6)
	if q0 < 4 {
		name := "?"
		c.within("query", bndMove, n, func() { name = query(q, l) })
		c.Count("query "+name, 1)
		return
	}
	c.within("lines", bndLay, n, func() { l.GetLinesReadonly() })
	c.within("extents", bndLay, n, func() { l.GetExtents(&pango.Rectangle{}, &pango.Rectangle{}) })
	c.within("iterate", bndMove, n, func() {
		moves := 0
		it := l.GetIter()
		kind := q.Intn(5)
		next := []func() bool{it.NextChar, it.NextCluster, it.NextRun, it.NextLine}
		for {
			it.GetCharExtents()
			it.GetClusterExtents(&pango.Rectangle{}, &pango.Rectangle{})
			it.GetRunExtents(&pango.Rectangle{}, &pango.Rectangle{})
			it.GetLineExtents(&pango.Rectangle{}, &pango.Rectangle{})
			it.GetBaseline()
			it.GetLine()
			it.GetRun()
			it.IsAtLastLine()
			f := next[q.Intn(4)]
			if kind < 4 {
				f = next[kind]
			}
			if !f() {
				break
			}
			if moves++; moves > 8*(len(l.Text)+2) {
				c.Fail("endless iteration", "%d moves of an iterator over %d characters (kind %d)\n%s", moves, len(l.Text), kind, describeLines(l))
			}
		}
	})
	c.within("positions", bndMove, n, func() {
		for _, i := range sampleIndexes(len(l.Text), 12) {
			l.IndexToPos(i, &pango.Rectangle{})
			l.GetCursorPos(i, &pango.Rectangle{}, &pango.Rectangle{})
			l.GetDirectionAt(i)
		}
	})
	c.within("ranges", bndMove, n, func() {
		for _, line := range l.GetLinesReadonly() {
			line.GetExtents(&pango.Rectangle{}, &pango.Rectangle{})
			line.GetXRanges(line.StartIndex, line.StartIndex+line.Length)
			a := q.Intn(len(l.Text) + 1)
			line.GetXRanges(a, a+q.Intn(len(l.Text)-a+1))
			line.IndexToX(line.StartIndex, false)
			line.IndexToX(line.StartIndex+line.Length, true)
		}
	})
	c.within("widths", bndMove, n, func() {
		for _, line := range l.GetLinesReadonly() {
			for r := line.Runs; r != nil; r = r.Next {
				r.Data.GetLogicalWidths(l.Text)
			}
		}
	})
}

// c14Cursor walks through a text.
func c14Cursor(c *Ctx, s *Stream) {
	ctx := pango.NewContext(c14FontMap(c, s))
	l := pango.NewLayout(ctx)
	m := c.S("mut")
	var t []rune
	if s.Chance(1, 2) {
		t = genWild(m, 30)
	} else {
		t = genText(m, 24)
	}
	if len(t) > 40 {
		t = t[:40]
	}
	l.SetRunes(t)
	c.Note("text %q", string(t))
	for k := s.Intn(5); k > 0; k-- {
		name, apply := wildChange(m, 30, l)
		c.Note("%s", name)
		c.within("set "+opName(name), bndSet, maxi(len(name), laySize(l)), apply)
	}
	if len(l.Text) > 60 {
		l.SetRunes(l.Text[:60])
	}
	n := len(l.Text)
	for k := s.Range(1, 3); k > 0; k-- {
		strong := s.Chance(1, 2)
		dir := 1 - 2*s.Intn(2)
		i, tr := s.Intn(n+1), 0
		if s.Chance(1, 3) {
			i = 0
		}
		c.Note("walk from %d, direction %d, strong %v", i, dir, strong)
		moves := 0
		var path []string
		for {
			path = append(path, fmt.Sprintf("%d/%d", i, tr))
			if moves++; moves > 4*(n+2) {
				last := path[maxi(0, len(path)-12):]
				c.Fail("endless cursor walk", "the cursor (strong %v, direction %d) does not leave the text %q after %d moves: ... %v\nlayout direction %v\n%s", strong, dir, string(l.Text), moves, last, l.GetDirectionAt(0), describeLines(l))
			}
			c.within("MoveCursorVisually", bndWalk, laySize(l), func() { i, tr = l.MoveCursorVisually(strong, i, tr, dir) })
			if i < 0 || i > n {
				break
			}
			c.Check(tr >= 0 && i+tr <= n, "cursor outside the text", "position %d trailing %d in %q", i, tr, string(l.Text))
		}
		if i >= 0 && i < math.MaxInt32 {
			c.Fail("cursor outside the text", "position %d trailing %d in %q", i, tr, string(l.Text))
		}
		c.State(mix(uint64(moves), mix(uint64(n), hashStr(strings.Join(path, " ")))))
	}
}

// c14Text covers what works on texts alone.
func c14Text(c *Ctx, s *Stream) {
	max := []int{12, 60, 400}[s.Intn(3)]
	t := genWild(c.S("mut"), max)
	if s.Chance(1, 4) {
		t = genText(c.S("mut"), max)
	}
	n := len(t)
	c.Note("text %q", string(t))
	for k := s.Range(1, 3); k > 0; k-- {
		switch s.Intn(5) {
		case 0:
			lvl := fribidi.Level(s.Range(-1, 3))
			c.within("ComputeCharacterAttributes", bndText, n, func() {
				a := pango.ComputeCharacterAttributes(append([]rune(nil), t...), lvl)
				c.Check(len(a) == n+1, "attributes count", "%d attributes for %q", len(a), string(t))
			})
		case 1:
			types := make([]fribidi.CharType, n)
			var br []fribidi.BracketType
			withBr := s.Chance(1, 2)
			for i, r := range t {
				types[i] = fribidi.GetBidiType(r)
				if withBr {
					b := fribidi.BracketType(0)
					if types[i] == fribidi.ON {
						b = fribidi.GetBracket(r)
					}
					br = append(br, b)
				}
			}
			dir := []fribidi.ParType{fribidi.LTR, fribidi.RTL, fribidi.ON, fribidi.WLTR, fribidi.WRTL}[s.Intn(5)]
			flags := []fribidi.Options{fribidi.DefaultFlags, 0, fribidi.ReorderNSM, fribidi.ShapeMirroring | fribidi.ShapeArabPres}[s.Intn(4)]
			a := s.Intn(n + 1)
			ln := s.Intn(n - a + 1)
			c.within("bidi", bndText, n, func() {
				lv, _ := fribidi.GetParEmbeddingLevels(types, br, &dir)
				c.Check(len(lv) == n, "levels count", "%d levels for %q", len(lv), string(t))
				vis := append([]rune(nil), t...)
				mp := make([]int, n)
				for i := range mp {
					mp[i] = i
				}
				fribidi.ReorderLine(flags, types, ln, a, dir, lv, vis, mp)
				fribidi.Shape(flags, lv, nil, append([]rune(nil), t...))
			})
		case 2:
			dir := []fribidi.ParType{fribidi.LTR, fribidi.RTL, fribidi.ON, fribidi.WLTR, fribidi.WRTL}[s.Intn(5)]
			flags := []fribidi.Options{fribidi.DefaultFlags, 0, fribidi.DefaultFlags | fribidi.ShapeArabConsole}[s.Intn(3)]
			c.within("LogicalToVisual", bndText, n, func() {
				v, _ := fribidi.LogicalToVisual(flags, append([]rune(nil), t...), &dir)
				v.LogicalToVisual()
				lv := append([]fribidi.Level(nil), v.EmbeddingLevels...)
				fribidi.RemoveBidiMarks(append([]rune(nil), t...), nil, nil, lv)
			})
		case 3:
			str := string(t)
			if s.Chance(1, 2) {
				d := genWildDesc(s)
				str = d.String() + " " + str
			}
			c.within("NewFontDescriptionFrom", bndText, len(str), func() { d := pango.NewFontDescriptionFrom(str); _ = d.String() })
		case 4:
			m := s
			doc := []byte(genMarkup(m))
			for k := m.Intn(4); k > 0 && len(doc) > 0; k-- {
				i := m.Intn(len(doc))
				switch m.Intn(5) {
				case 0:
					doc[i] = []byte("<>/\"&;x_ =\x00\xff'")[m.Intn(13)]
				case 1:
					doc = append(doc[:i:i], doc[mini(len(doc), i+1+m.Intn(8)):]...)
				case 2:
					j := mini(len(doc), i+m.Intn(40))
					doc = append(doc[:j:j], doc[i:]...)
				case 3:
					v := []string{"99999999999", "-1", "nan", "1e400", "", "inf%", "xx-large", "#zzz", "0", "%", "-", "#"}[m.Intn(12)]
					j := bytes.IndexByte(doc[i:], '"')
					if j >= 0 {
						e := bytes.IndexByte(doc[i+j+1:], '"')
						if e >= 0 {
							doc = append(append(append([]byte(nil), doc[:i+j+1]...), v...), doc[i+j+1+e:]...)
						}
					}
				case 4:
					doc = append(append(append([]byte(nil), doc[:i]...), string(t[:mini(n, 20)])...), doc[i:]...)
				}
			}
			if m.Chance(1, 4) {
				at := []string{"lang", "size", "font", "color", "rise", "letter_spacing", "underline", "gravity", "line_height", "font_features", "alpha", "weight", "stretch", "show", "baseline_shift", "nothing", "background", "absolute_line_height"}
				v := string(genWildLang(m))
				if m.Chance(1, 2) {
					v = []string{"99999999999", "-1", "nan", "1e400", "", "inf%", "xx-large", "#zzz", "0", "%", "-", "#", "#123", "50%", "1pt", "superscript", "none", "east", "red", "12.5", "é"}[m.Intn(21)]
				}
				doc = []byte("<span " + at[m.Intn(len(at))] + "=\"" + v + "\">" + string(doc) + "</span>")
			}
			if m.Chance(1, 6) {
				k := m.Range(1, 200)
				doc = []byte(strings.Repeat("<b>", k) + "x" + strings.Repeat("</b>", k))
			}
			ac := []rune{0, '_', '<', '&', 'x', ' '}[m.Intn(6)]
			c.Note("markup %q accelerator %q", doc, ac)
			c.within("ParseMarkup", bndMarkup, len(doc), func() {
				p, err := pango.ParseMarkup(doc, ac)
				c.Count(fmt.Sprintf("markup accepted: %v", err == nil), 1)
				for _, a := range p.Attr {
					_ = a.String()
				}
			})
		}
	}
	c.State(hashStr(string(t)))
}

// c14Items covers itemization and the glyphs of items.
func c14Items(c *Ctx, s *Stream) {
	fm := c14FontMap(c, s)
	ctx := pango.NewContext(fm)
	m := c.S("mut")
	for k := s.Intn(3); k > 0; k-- {
		wildContext(c, m, ctx)
	}
	max := []int{12, 40, 150}[s.Weighted(3, 4, 1)]
	t := genWild(m, max)
	n := len(t)
	var al, all pango.AttrList
	for k := []int{0, 1, 3, 30}[s.Weighted(3, 3, 3, 1)]; k > 0; k-- {
		a := genWildAttr(m, n)
		al.Insert(a)
	}
	for k := s.Intn(3); k > 0; k-- {
		all.Insert(genWildAttr(m, n))
	}
	a := s.Intn(n + 1)
	ln := s.Intn(n - a + 1)
	if s.Chance(1, 2) {
		a, ln = 0, n
	}
	size := n + 4*len(al) + 4*len(all)
	c.Note("text %q, [%d, +%d] attributes %s then %s", string(t), a, ln, attrsString(al), attrsString(all))
	var items *pango.ItemList
	c.within("Itemize", bndItem, size, func() { items = ctx.Itemize(t, a, ln, al) })
	if s.Chance(1, 2) && items != nil {
		c.within("ApplyAttributes", bndItem, size, func() { items.ApplyAttributes(all) })
	}
	count := 0
	for l := items; l != nil; l = l.Next {
		if count++; count > 3*(n+2)+len(all) {
			c.Fail("too many items", "%d items for %q", count, string(t))
		}
		it := l.Data
		var gs pango.GlyphString
		c.within("ShapeRange", bndItem, size, func() { gs.ShapeRange(t, it.Offset, it.Length, &it.Analysis) })
		c.within("Extents", bndItem, size, func() { gs.Extents(it.Analysis.Font, &pango.Rectangle{}, &pango.Rectangle{}) })
		c.within("IndexToX", bndItem, size, func() {
			for i := 0; i <= it.Length; i++ {
				gs.IndexToX(t[it.Offset:it.Offset+it.Length], &it.Analysis, i, i%2 == 0)
			}
		})
		gi := pango.GlyphItem{Item: it, Glyphs: &gs}
		c.within("GetLogicalWidths", bndItem, size, func() { gi.GetLogicalWidths(t) })
		c.within("GlyphItemIter", bndItem, size, func() {
			for dir := 0; dir < 2; dir++ {
				var iter pango.GlyphItemIter
				ok := false
				if dir == 0 {
					ok = iter.InitStart(&gi, t)
				} else {
					ok = iter.InitEnd(&gi, t)
				}
				for k := 0; ok; k++ {
					if k > it.Length+1 {
						c.Fail("endless iteration", "over the clusters of %q", string(t[it.Offset:it.Offset+it.Length]))
					}
					if dir == 0 {
						ok = iter.NextCluster()
					} else {
						ok = iter.PrevCluster()
					}
				}
			}
		})
	}
	c.within("GetMetrics", bndMetrics, 0, func() {
		d := genWildDesc(m)
		ctx.GetMetrics(&d, genWildLang(m))
		if f := pango.LoadFont(fm, ctx, &d); f != nil {
			pango.FontGetMetrics(f, genWildLang(m))
			f.GetCoverage("en")
			for k := 0; k < 4; k++ {
				f.GlyphExtents([]pango.Glyph{pango.AsUnknownGlyph(t0(t)), pango.Glyph(m.Intn(70000)), 0, pango.GLYPH_EMPTY, pango.GLYPH_INVALID_INPUT}[m.Intn(5)], &pango.Rectangle{}, &pango.Rectangle{})
			}
		}
	})
	c.State(mix(uint64(count), hashStr(string(t))))
	c.Faults(vos.Current())
}

func t0(t []rune) rune {
	if len(t) == 0 {
		return 'a'
	}
	return t[0]
}

// c14Query covers the operations of C08 on larger patterns.
func c14Query(c *Ctx, s *Stream) {
	w := c08World(c, s)
	w.PutFile("/usr/share/fonts/alpha.ttf", smallFonts[0].Data())
	e := genC08Env(c, c.S("env"))()
	// patterns with many values
	q := c.S("query")
	size := 0
	for k := q.Intn(4); k > 0; k-- {
		p := e.queries[q.Intn(len(e.queries))]
		for j := q.Range(1, 60); j > 0; j-- {
			size++
			switch q.Intn(6) {
			case 0:
				p.AddString(fc.FAMILY, words[q.Intn(len(words))])
			case 1:
				p.AddFloat(fc.SIZE, []float32{0, -1, 1e30, float32(math.NaN()), float32(math.Inf(1)), 12}[q.Intn(6)])
			case 2:
				p.AddInt(fc.WEIGHT, []int32{0, -1, math.MaxInt32, math.MinInt32, 200}[q.Intn(5)])
			case 3:
				p.AddString(fc.STYLE, strings.Repeat("*?a ", q.Intn(20)))
			case 4:
				p.AddString(fc.LANG, []string{"en", "zh-*", "", "ja-JP"}[q.Intn(4)])
			case 5:
				o := allObjects[q.Intn(len(allObjects))].obj
				p.AddBool(o, q.Chance(1, 2))
			}
		}
	}
	for k := s.Range(1, 4); k > 0; k-- {
		o := genC08Op(c.S("op"))
		c.Note("%s", o)
		c.within(c08Kinds[o.kind], bndQuery, size, func() { o.run(e) })
		c.State(hashStrings(o.answer()))
	}
	c.Faults(w)
}

// c14Conf covers documents and substitutions.
func c14Conf(c *Ctx, s *Stream) {
	w := c.World()
	cf := fc.NewConfig()
	d := c.S("doc")
	size := 0
	for k := s.Range(1, 3); k > 0; k-- {
		doc := genConf(d)
		switch d.Intn(6) {
		case 0, 1:
			doc = mutateConf(d, doc)
		case 2: // deep expressions
			n := d.Range(1, 300)
			op := []string{"not", "floor", "plus", "or", "if"}[d.Intn(5)]
			doc = "<fontconfig><match><edit name=\"size\" mode=\"assign\">" + strings.Repeat("<"+op+">", n) + "<int>1</int>" + strings.Repeat("</"+op+">", n) + "</edit></match></fontconfig>"
		case 3: // rules feeding one another
			n := d.Range(1, 30)
			r := `<match target="pattern"><test qual="` + []string{"any", "all", "first", "not_first"}[d.Intn(4)] + `" name="family"><string>Alpha</string></test><edit name="family" mode="` +
				[]string{"append", "prepend", "append_last", "prepend_first", "assign", "assign_replace", "delete_all"}[d.Intn(7)] + `" binding="same"><string>Alpha</string><name>family</name></edit></match>`
			if n > 6 && strings.Contains(r, "<name>") {
				// the list doubles with each rule
				r = strings.Replace(r, "<name>family</name>", "<string>Beta</string>", 1)
			}
			doc = "<fontconfig>" + strings.Repeat(r, n) + "</fontconfig>"
		}
		size += len(doc)
		c.Note("document %s", doc)
		var err error
		c.within("LoadFromMemory", bndDoc, len(doc), func() { err = cf.LoadFromMemory(strings.NewReader(doc)) })
		c.Count(fmt.Sprintf("documents accepted: %v", err == nil), 1)
	}
	if s.Chance(1, 3) {
		cd := genConfDir(d, "/etc/fonts", true)
		cd.install(w)
		if s.Chance(1, 3) {
			w.PutLink("/etc/fonts/20-loop.conf", "/etc/fonts/20-loop.conf")
		}
		if s.Chance(1, 3) {
			w.PutLink("/etc/fonts/30-up", "/etc/fonts")
		}
		j := &inject{s: c.S("fault"), rate: []int{0, 3, 20}[s.Intn(3)], max: 3, short: true}
		j.arm(w)
		c.within("LoadFromDir", bndDoc, 4000, func() { cf.LoadFromDir("/etc/fonts") })
		w.Inject = nil
		size += 4000
	}
	q := c.S("query")
	for k := s.Range(1, 3); k > 0; k-- {
		p := genPattern(q)
		for j := q.Intn(40); j > 0; j-- {
			p.AddString(fc.FAMILY, []string{"Alpha", "Beta", "serif", ""}[q.Intn(4)])
		}
		c.within("Substitute", bndSubst, size/20+40, func() {
			switch q.Intn(3) {
			case 0:
				cf.Substitute(p, nil, fc.MatchQuery)
			case 1:
				cf.Substitute(p, genPattern(q), fc.MatchResult)
			case 2:
				cf.Substitute(p, nil, fc.MatchScan)
			}
		})
		c.within("SubstituteDefault", bndSubst, 10, func() { p.SubstituteDefault() })
		c.within("Hash", bndSubst, 50, func() { _ = p.Hash() + p.String() })
		c.State(hashStr(p.Hash()))
	}
	c.within("Copy", bndDoc, size, func() { cf.Copy() })
	c.Faults(w)
}

// c14Storage covers scans, saves and loads on failing machines.
func c14Storage(c *Ctx, s *Stream) {
	t := genTree(s)
	w := c.World()
	t.install(w)
	for k := s.Intn(3); k > 0; k-- {
		w.PutLink(fmt.Sprintf("/fonts/up%d", k), []string{"/", "/fonts", "/fonts/up1", "/fonts/up2", "/nowhere"}[s.Intn(5)])
	}
	j := &inject{s: c.S("fault"), flipOK: fontFlip(w)}
	if s.Chance(2, 3) {
		j.rate, j.max = []int{3, 20, 100}[s.Intn(3)], 1+s.Intn(3)
	}
	size := 0
	for _, p := range t.paths() {
		if b, ok := w.Get(p); ok {
			size += len(b) + 100
		}
	}
	dirs := genDirs(s, t)
	j.arm(w)
	var fs fc.Fontset
	c.within("ScanFontDirectories", bndScan, size*len(dirs), func() { fs, _ = fc.NewConfig().ScanFontDirectories(dirs...) })
	c.within("PartialScanFontDirectories", bndScan, size*len(dirs), func() { fc.PartialScanFontDirectories(dirs...) })
	var buf bytes.Buffer
	c.within("Serialize", bndCache, size+1000*len(fs), func() { fs.Serialize(&buf) })
	data, what := damage(s, buf.Bytes())
	w.PutFile("/cache", data)
	c.Note("cache of %d fonts, %s", len(fs), what)
	c.within("LoadFontsetFile", bndCache, size+40*len(data), func() { fc.LoadFontsetFile("/cache") })
	c.within("LoadFontset", bndCache, size+40*len(data), func() { fc.LoadFontset(bytes.NewReader(data)) })
	w.Inject = nil
	c.State(mix(uint64(len(fs)), uint64(len(data))))
	c.Faults(w)
}
