package main

// C17: what a font map answers does not depend on what it answered before.

import (
	"fmt"

	"github.com/benoitkugler/textlayout/fonts/truetype"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C17", Run: runC17}) }

// additional configurations, about sizes, features and variations
var c17Confs = append(append([]string(nil), layConfs...),
	`<fontconfig>
<match target="pattern"><test name="family"><string>Alpha</string></test><edit name="pixelsize" mode="assign"><double>20</double></edit></match>
<match target="pattern"><test name="size" compare="more"><double>14</double></test><edit name="family" mode="prepend" binding="strong"><string>Beta</string></edit></match>
<match target="font"><test name="family"><string>Variable</string></test><edit name="fontvariations" mode="append"><string>wght=300</string></edit></match>
<match target="font"><edit name="hinting" mode="assign"><bool>false</bool></edit></match>
</fontconfig>`,
	`<fontconfig>
<match target="pattern"><test name="lang" compare="contains"><string>ja</string></test><edit name="family" mode="prepend" binding="strong"><string>Delta</string></edit></match>
<match target="pattern"><test name="lang" compare="contains"><string>ar</string></test><edit name="family" mode="prepend"><string>Gamma</string></edit></match>
<match target="pattern"><test name="weight" compare="more_eq"><const>bold</const></test><edit name="fontfeatures" mode="append"><string>smcp=1</string></edit></match>
<match target="font"><test name="pixelsize" compare="less"><double>12</double></test><edit name="matrix" mode="assign"><matrix><double>0.5</double><double>0</double><double>0</double><double>0.5</double></matrix></edit></match>
</fontconfig>`,
)

// c17Ask is a request to a font map.
type c17Ask struct {
	kind int
	ctx  int // index of a context, or -1
	desc pango.FontDescription
	lang pango.Language
	gen  func() *Stream // details
}

func genC17Ask(s *Stream, nctx int) c17Ask {
	a := c17Ask{kind: s.Weighted(6, 4, 2, 2, 1), ctx: s.Intn(nctx + 1), desc: genDesc(s)}
	a.ctx--
	if a.kind >= 2 && a.ctx < 0 {
		a.ctx = 0
	}
	if s.Chance(1, 2) {
		a.lang = layLangs[s.Intn(len(layLangs))]
	}
	a.gen = s.Sub()
	return a
}

func (a c17Ask) String() string {
	return fmt.Sprintf("%s(context %d, %s, %q)", []string{"font", "fontset", "metrics", "layout", "itemize"}[a.kind], a.ctx, a.desc.String(), a.lang)
}

// variations returns a request differing from a by one detail.
func (a c17Ask) near(s *Stream, nctx int) c17Ask {
	switch s.Weighted(1, 1, 1, 1, 1, 1, 3, 1, 1) {
	case 0:
		a.desc.SetSize(a.desc.Size + int32(s.Range(-2, 2)))
	case 1:
		a.desc.SetWeight([]pango.Weight{400, 700, 300, 900}[s.Intn(4)])
	case 2:
		a.desc.SetVariations([]string{"wght=200", "wght=700", "", "wght=200,"}[s.Intn(4)])
	case 3:
		a.lang = layLangs[s.Intn(len(layLangs))]
	case 4:
		a.desc.SetGravity(pango.Gravity(s.Intn(4)))
	case 5:
		a.desc.SetVariant(pango.Variant(s.Intn(7)))
	case 6:
		a.ctx = s.Intn(nctx+1) - 1
		if a.kind >= 2 && a.ctx < 0 {
			a.ctx = 0
		}
	case 7:
		if a.desc.SizeIsAbsolute {
			a.desc.SetSize(a.desc.Size * 3 / 4)
		} else {
			a.desc.SetAbsoluteSize(a.desc.Size * 4 / 3)
		}
	case 8:
		a.kind = s.Intn(5)
		if a.kind >= 2 && a.ctx < 0 {
			a.ctx = 0
		}
	}
	return a
}

var c17Runes = []rune("aAfi M0.é\u00a0\u00adمא日क\U0001F600\u0378\t\n\u200bẞ")

// describeFont asks a font all it knows.
func (r *reporter) describeFont(s *Stream, f pango.Font) {
	r.s("font ").font(f).end()
	for k := s.Range(1, 3); k > 0; k-- {
		var lang pango.Language
		if s.Chance(2, 3) {
			lang = layLangs[s.Intn(len(layLangs))]
		}
		switch s.Intn(2) {
		case 0:
			r.s(fmt.Sprintf("  metrics %q %+v", lang, f.GetMetrics(lang))).end()
		case 1:
			r.s(fmt.Sprintf("  metrics %q %+v", lang, pango.FontGetMetrics(f, lang))).end()
		}
	}
	hb := f.GetHarfbuzzFont()
	r.s(fmt.Sprintf("  scale %d %d %v %d %d", hb.XScale, hb.YScale, hb.Ptem, hb.XPpem, hb.YPpem))
	if v, ok := hb.Face().(truetype.FaceVariable); ok {
		r.s(fmt.Sprintf(" coordinates %v", v.VarCoordinates()))
	}
	r.s(fmt.Sprintf(" features %v", f.GetFeatures())).end()
	cov := f.GetCoverage("")
	for _, ch := range c17Runes {
		r.bool(cov.Get(ch))
		g := pango.AsUnknownGlyph(ch)
		if gid, ok := hb.Face().NominalGlyph(ch); ok {
			g = pango.Glyph(gid)
		}
		var ink, log pango.Rectangle
		f.GlyphExtents(g, &ink, &log)
		r.i(int(g)).rect(ink).rect(log)
	}
	var ink, log pango.Rectangle
	f.GlyphExtents(pango.GLYPH_EMPTY, &ink, &log)
	r.rect(ink).rect(log).end()
	var gs pango.GlyphString
	text := genText(s, 8)
	an := pango.Analysis{Font: f, Language: "en", Gravity: pango.Gravity(s.Weighted(5, 1, 1, 1)), Script: 0}
	gs.Shape(text, &an)
	r.s("  shaped").glyphs(&gs).end()
}

// answer makes the request.
func (a c17Ask) answer(c *Ctx, fm *fcfonts.FontMap, ctxs []*pango.Context, keep *[]pango.Font) []string {
	s := a.gen()
	r := &reporter{names: map[pango.Font]string{}}
	var ctx *pango.Context
	if a.ctx >= 0 {
		ctx = ctxs[a.ctx]
	}
	d := a.desc
	switch a.kind {
	case 0:
		f := pango.LoadFont(fm, ctx, &d)
		if f == nil {
			r.s("no font").end()
			break
		}
		e := a.desc
		if g := pango.LoadFont(fm, ctx, &e); g != f {
			c.Fail("equal requests return different fonts", "%s: %s and %s", a, fontName(f), fontName(g))
		}
		r.describeFont(s, f)
		if keep != nil {
			*keep = append(*keep, f)
		}
	case 1:
		fs := fm.LoadFontset(ctx, &d, a.lang)
		if fs == nil {
			r.s("no fontset").end()
			break
		}
		r.s("language ").s(string(fs.GetLanguage())).end()
		max, full := s.Range(1, 12), s.Intn(12)
		var l []pango.Font
		fs.Foreach(func(f pango.Font) bool {
			r.font(f)
			l = append(l, f)
			return len(l) >= max
		})
		r.end()
		e := a.desc
		i := 0
		fm.LoadFontset(ctx, &e, a.lang).Foreach(func(f pango.Font) bool {
			if i >= len(l) || l[i] != f {
				c.Fail("equal requests return different fonts", "%s: font %d", a, i)
			}
			i++
			return i >= max
		})
		if full < len(l) {
			r.describeFont(s, l[full])
			if keep != nil {
				*keep = append(*keep, l[full])
			}
		}
	case 2:
		if s.Chance(1, 4) {
			r.s(fmt.Sprintf("metrics %+v", ctx.GetMetrics(nil, a.lang))).end()
		} else {
			r.s(fmt.Sprintf("metrics %+v", ctx.GetMetrics(&d, a.lang))).end()
		}
	case 3:
		set := genLay(s, s.Intn(3), 12)
		set.desc = &d
		r.lines = report(set.newLayout(ctx), repLines, 4)
	case 4:
		text := genText(s, 12)
		specs := []attrSpec{{kind: 0, desc: d, end: len(text)}}
		if s.Chance(1, 2) {
			specs = append(specs, genAttr(s, len(text)))
		}
		for it := ctx.Itemize(text, 0, len(text), buildAttrs(specs)); it != nil; it = it.Next {
			r.s("item").item(it.Data).end()
		}
	}
	return r.lines
}

func runC17(c *Ctx) {
	s := c.S("run")
	env := genEnv(c, c.S("env"))
	env.cf = s.Intn(len(c17Confs))
	env.world(c)
	budget := int64(4e8)
	d := layDBs[env.db]
	db := database(d.key, d.list)
	if s.Chance(1, 8) { // a small database
		i := s.Intn(len(db))
		db = db[i:mini(len(db), i+s.Range(1, 3))]
	}
	if s.Chance(1, 2) {
		db = variants(s, db)
	}
	newMap := func() *fcfonts.FontMap {
		cf := fc.NewConfig()
		loadInto(cf, c17Confs[env.cf])
		fm := fcfonts.NewFontMap(cf, db)
		if env.loader != nil {
			fm.SetFaceLoader(env.loader)
		}
		return fm
	}
	c.Note("database %d configuration %d", env.db, env.cf)
	sets := make([]ctxSet, s.Range(1, 3))
	for i := range sets {
		if i > 0 && s.Chance(1, 2) { // another one seen under another matrix
			sets[i] = sets[s.Intn(i)]
			sets[i].matrix = s.Intn(len(layMatrices))
		} else {
			sets[i] = genCtx(c.S("ctx"))
		}
		c.Note("context %d: %s", i, sets[i])
	}
	contexts := func(fm *fcfonts.FontMap) []*pango.Context {
		l := make([]*pango.Context, len(sets))
		for i := range sets {
			l[i] = sets[i].newContext(fm)
		}
		return l
	}
	fm := newMap()
	ctxs := contexts(fm)

	type held struct {
		ask  c17Ask
		font pango.Font
	}
	var asked []c17Ask
	var fontsHeld []held
	steps := s.Range(2, 8)
	if c.Tier > 0 {
		steps = s.Range(2, 30)
	}
	if s.Chance(1, 60) {
		// more fonts than any cache may be expected to hold
		a := genC17Ask(c.S("ask"), len(sets))
		a.kind = s.Intn(2)
		n := s.Range(100, 300)
		c.Guard("flood", budget, func() {
			var ctx *pango.Context
			if a.ctx >= 0 {
				ctx = ctxs[a.ctx]
			}
			for i := 0; i < n; i++ {
				e := a.desc
				e.SetSize(int32(5000 + 77*i))
				if a.kind == 0 {
					pango.LoadFont(fm, ctx, &e)
				} else {
					fm.LoadFontset(ctx, &e, a.lang).Foreach(func(pango.Font) bool { return true })
				}
			}
		})
		c.Count("floods", 1)
	}
	for k := 0; k < steps; k++ {
		var a c17Ask
		switch {
		case len(asked) > 0 && s.Chance(1, 3):
			a = asked[s.Intn(len(asked))]
			if s.Chance(1, 2) {
				a.gen = c.S("ask").Sub()
			}
		case len(asked) > 0 && s.Chance(1, 2):
			a = asked[s.Intn(len(asked))].near(c.S("ask"), len(sets))
		default:
			a = genC17Ask(c.S("ask"), len(sets))
		}
		asked = append(asked, a)
		c.Count("request "+[]string{"font", "fontset", "metrics", "layout", "itemize"}[a.kind], 1)
		var got []string
		var keep []pango.Font
		c.Guard("request "+a.String(), budget, func() { got = a.answer(c, fm, ctxs, &keep) })
		for _, f := range keep {
			fontsHeld = append(fontsHeld, held{a, f})
		}
		if k == 0 && s.Chance(1, 2) {
			continue // nothing came before
		}
		compare := func(what string, a c17Ask, got []string) {
			var want []string
			c.Guard("fresh "+a.String(), budget, func() {
				fm := newMap()
				want = a.answer(c, fm, contexts(fm), nil)
			})
			c.State(hashStrings(want))
			if d := diffReport(want, got); d != "" {
				c.Fail(what+" depends on earlier requests", "%s:\n%s", a, d)
			}
			c.NonTrivial()
		}
		if s.Chance(1, 2) || k == steps-1 {
			compare([]string{"a font", "a fontset", "metrics", "a layout", "itemizing"}[a.kind], a, got)
		}
		if len(fontsHeld) > 0 && s.Chance(1, 4) {
			// a font handed out earlier
			h := fontsHeld[s.Intn(len(fontsHeld))]
			gen := c.S("ask").Sub()
			r := &reporter{names: map[pango.Font]string{}}
			c.Guard("held font of "+h.ask.String(), budget, func() { r.describeFont(gen(), h.font) })
			w := &reporter{names: map[pango.Font]string{}}
			c.Guard("fresh font of "+h.ask.String(), budget, func() {
				fm := newMap()
				var keep []pango.Font
				h.ask.answer(c, fm, contexts(fm), &keep)
				if len(keep) == 1 {
					w.describeFont(gen(), keep[0])
				}
			})
			if d := diffReport(w.lines, r.lines); d != "" {
				c.Fail("a font handed out depends on later requests", "%s:\n%s", h.ask, d)
			}
		}
	}
	c.Faults(vos.Current())
}

// variants makes a larger database: fonts described as having other styles,
// languages and characters than they have.
func variants(s *Stream, db fc.Fontset) fc.Fontset {
	var out fc.Fontset
	for n := s.Range(2, 12); n > 0; n-- {
		p := db[s.Intn(len(db))].Duplicate()
		for k := s.Intn(4); k > 0; k-- {
			switch s.Intn(7) {
			case 0:
				p.Del(fc.LANG)
				switch s.Intn(6) {
				case 0:
				case 1:
					p.Add(fc.LANG, fc.NewLangset([]string{"en", "ja", "ar", "fr", "zh-cn", "zh-tw", "en-us"}[s.Intn(7)]), true)
				default:
					p.Add(fc.LANG, fc.NewLangset([]string{"ja|en", "ar|hi|fr", "zh-tw|ja", "en|zh-cn|ar"}[s.Intn(4)]), true)
				}
			case 1:
				p.Del(fc.WEIGHT)
				if s.Chance(4, 5) {
					p.Add(fc.WEIGHT, fc.Float([]float32{0, 80, 100, 200, 210}[s.Intn(5)]), true)
				}
			case 2:
				p.Del(fc.SLANT)
				p.Add(fc.SLANT, fc.Int([]int32{0, 100, 110}[s.Intn(3)]), true)
			case 3:
				p.Del(fc.CHARSET)
				var cs fc.Charset
				for i, ch := range c17Runes {
					if i%s.Range(1, 3) == 0 {
						cs.AddChar(ch)
					}
				}
				if s.Chance(5, 6) {
					p.Add(fc.CHARSET, cs, true)
				}
			case 4:
				p.Del(fc.FAMILY)
				p.AddString(fc.FAMILY, []string{"Alpha", "Beta", "Gamma", "Delta", "serif"}[s.Intn(5)])
			case 5:
				p.Add(fc.FAMILY, fc.String([]string{"Alpha", "Beta", "Gamma", "Delta"}[s.Intn(4)]), s.Chance(1, 2))
			case 6:
				p.Del(fc.WIDTH)
				p.Add(fc.WIDTH, fc.Int([]int32{50, 75, 100, 200}[s.Intn(4)]), true)
			}
		}
		out = append(out, p)
	}
	return out
}
