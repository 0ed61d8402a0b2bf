package main

// C12: fonts that are missing, unreadable or corrupt when they are needed.

import (
	"fmt"
	"strings"

	"github.com/benoitkugler/textlayout/fonts"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

func init() { register(&Prop{ID: "C12", Run: runC12}) }

// pathLoader refuses some files.
type pathLoader struct {
	bad  map[string]bool
	nils map[string]bool
	next fcfonts.FaceLoader
	n    int
}

func (l *pathLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	if l.bad[key.File] {
		l.n++
		return nil, fmt.Errorf("injected failure for %s", key.File)
	}
	return l.next.LoadFace(key, format)
}

// c12Ask is a request: a font set, a layout or metrics.
type c12Ask struct {
	kind int
	desc pango.FontDescription
	lang pango.Language
	ctx  int
	set  laySet
}

// c12Answer is what came out of it.
type c12Answer struct {
	report []string // everything
	fonts  []c12Font
	runs   []string // of a layout
	files  map[string]bool
	boxes  bool
}

type c12Font struct {
	file  string
	lines []string
}

func (a *c12Ask) String() string {
	if a.kind == 1 {
		return a.set.String()
	}
	return fmt.Sprintf("%s(%s, %q)", []string{"fontset", "", "metrics"}[a.kind], a.desc.String(), a.lang)
}

// faceFacts is what a font answers that other fonts have no part in.
func faceFacts(f pango.Font) []string {
	r := &reporter{names: map[pango.Font]string{}}
	r.font(f).end()
	hb := f.GetHarfbuzzFont()
	r.s(fmt.Sprintf("scale %d %d %v features %v", hb.XScale, hb.YScale, hb.Ptem, f.GetFeatures())).end()
	m := f.GetMetrics("en")
	m.ApproximateCharWidth, m.ApproximateDigitWidth = 0, 0 // measured with other fonts
	r.s(fmt.Sprintf("metrics %+v", m))
	cov := f.GetCoverage("")
	for _, ch := range c17Runes {
		r.bool(cov.Get(ch))
		if gid, ok := hb.Face().NominalGlyph(ch); ok {
			var ink, log pango.Rectangle
			f.GlyphExtents(pango.Glyph(gid), &ink, &log)
			r.i(int(gid)).rect(ink).rect(log)
		}
	}
	r.end()
	return r.lines
}

func (a *c12Ask) answer(c *Ctx, ctxs []*pango.Context, fm *fcfonts.FontMap) (out c12Answer) {
	ctx := ctxs[a.ctx]
	r := &reporter{names: map[pango.Font]string{}}
	out.files = map[string]bool{}
	switch a.kind {
	case 0:
		d := a.desc
		fs := fm.LoadFontset(ctx, &d, a.lang)
		if fs == nil {
			c.Fail("no font set", "%s", a)
		}
		fs.Foreach(func(f pango.Font) bool {
			if f == nil {
				c.Fail("nil font in a font set", "%s", a)
			}
			out.fonts = append(out.fonts, c12Font{f.FaceID().File, faceFacts(f)})
			return len(out.fonts) >= 40
		})
		for _, f := range out.fonts {
			out.report = append(out.report, f.lines...)
		}
	case 1:
		l := a.set.newLayout(ctx)
		account(&a.set, l, c)
		out.report = report(l, repLines|repIndex, 12)
		for _, line := range l.GetLinesReadonly() {
			for run := line.Runs; run != nil; run = run.Next {
				it := run.Data.Item
				if it.Analysis.Font == nil {
					out.boxes = true
				} else {
					out.files[it.Analysis.Font.FaceID().File] = true
				}
				for _, g := range run.Data.Glyphs.Glyphs {
					if g.Glyph&pango.GLYPH_UNKNOWN_FLAG != 0 {
						out.boxes = true
					}
				}
				r.item(it).glyphs(run.Data.Glyphs).end()
			}
		}
		out.runs = r.lines
	case 2:
		d := a.desc
		out.report = append(out.report, fmt.Sprintf("metrics %+v", ctx.GetMetrics(&d, a.lang)))
		if f := pango.LoadFont(fm, ctx, &d); f != nil {
			out.report = append(out.report, faceFacts(f)...)
			pango.FontGetMetrics(f, a.lang)
		} else {
			pango.FontGetMetrics(nil, a.lang)
		}
	}
	return out
}

type thirdParty struct{}

func runC12(c *Ctx) {
	s := c.S("run")
	e := c.S("env")
	env := layEnv{db: []int{2, 2, 3, 4, 0}[e.Intn(5)], cf: e.Weighted(2, 4, 1)}
	// how fonts are loaded, and fail
	const (
		fromDisk = iota
		flipped
		transient
		byLoader
	)
	mode := s.Weighted(4, 2, 4, 3)
	if mode == byLoader {
		env.loader = sharedFaces{}
		env.db = e.Weighted(4, 2, 1, 1, 1)
	} else if env.db == 0 && !s.Chance(1, 6) {
		env.db = 2
	}
	w := env.world(c)
	list := layDBs[env.db].list
	budget := int64(4e9)
	c.Note("database %d configuration %d mode %d", env.db, env.cf, mode)

	maxText := 16
	if c.Tier > 0 {
		maxText = 40
	}
	sets := make([]ctxSet, s.Range(1, 2))
	for i := range sets {
		sets[i] = genCtx(c.S("ctx"))
		c.Note("context %d: %s", i, sets[i])
	}
	asks := make([]*c12Ask, s.Range(1, 4))
	for i := range asks {
		t := c.S("ask")
		a := &c12Ask{kind: t.Weighted(2, 4, 1), ctx: t.Intn(len(sets)), desc: genDesc(t)}
		if t.Chance(1, 3) {
			a.lang = layLangs[t.Intn(len(layLangs))]
		}
		if a.kind == 1 {
			a.set = genLay(t, t.Intn(4), maxText)
			if t.Chance(1, 2) {
				a.set.desc = &a.desc
			}
			if t.Chance(1, 2) {
				a.set.width, a.set.tabs = -1, nil
			}
		}
		asks[i] = a
		c.Note("request %d: %s", i, a)
	}
	newMap := func(loader fcfonts.FaceLoader) (*fcfonts.FontMap, []*pango.Context) {
		d := layDBs[env.db]
		fm := fcfonts.NewFontMap(layConfig(env.cf), database(d.key, d.list))
		if loader != nil {
			fm.SetFaceLoader(loader)
		}
		l := make([]*pango.Context, len(sets))
		for i := range sets {
			l[i] = sets[i].newContext(fm)
		}
		return fm, l
	}

	// without failure
	want := make([]c12Answer, len(asks))
	fm, ctxs := newMap(env.loader)
	for i, a := range asks {
		c.Guard(fmt.Sprintf("reference %d", i), budget, func() { want[i] = a.answer(c, ctxs, fm) })
		c.State(hashStrings(want[i].report))
	}

	// with failures
	affected := map[string]bool{}
	bad := &pathLoader{bad: affected, next: sharedFaces{}}
	var loader fcfonts.FaceLoader
	if mode == byLoader {
		loader = bad
	}
	healthy := loader
	if mode == byLoader {
		healthy = sharedFaces{}
	}
	fm2, ctxs2 := newMap(loader)
	damaged := false // a parser may meet corrupt data
	failing := false
	fail := func() {
		failing = true
		t := c.S("damage")
		if mode == transient {
			j := &inject{s: c.S("faults"), rate: []int{2, 5, 20, 60}[t.Intn(4)], max: t.Range(1, 12)}
			flips := t.Chance(1, 3)
			if flips {
				damaged = true
				j.flipOK = fontFlip(w)
			} else {
				j.flipOK = func(vos.Op) bool { return false }
			}
			j.only = func(op vos.Op) bool { return strings.HasPrefix(op.Path, "/fonts/") }
			keep := t.Chance(1, 3)
			if keep {
				j.dead = map[string]error{}
			}
			w.Inject = func(op vos.Op) vos.Fault {
				f := j.fault(op)
				if f.Name != "" {
					affected[op.Path] = true
					if keep && f.Err != nil && j.dead[op.Path] == nil {
						j.dead[op.Path] = f.Err
					}
				}
				return f
			}
			return
		}
		n := t.Range(1, len(list))
		if t.Chance(1, 3) {
			n = len(list)
		}
		used := map[string]bool{}
		for i := range want {
			for f := range want[i].files {
				used[f] = true
			}
		}
		for _, f := range list {
			hit := t.Intn(len(list)) < n
			if !used[f.Path] {
				hit = hit || t.Chance(1, 3)
			}
			if !hit {
				continue
			}
			affected[f.Path] = true
			c.faultN++
			if mode == byLoader {
				c.Count("fault:face not loaded", 1)
				continue
			}
			k := t.Intn(5)
			if mode == flipped {
				k = 5 + t.Intn(3)
			}
			name := ""
			switch k {
			case 0, 1:
				name = "font file missing"
				w.Delete(f.Path)
			case 2:
				name = "font file unreadable"
				w.SetNoRead(f.Path, true)
			case 3:
				name = "font file empty"
				w.PutFile(f.Path, nil)
			case 4:
				name = "font file replaced by a directory"
				w.Delete(f.Path)
				w.MkdirAll(f.Path)
			case 5:
				name = "font file truncated"
				b := f.Data()
				w.PutFile(f.Path, append([]byte(nil), b[:t.Intn(len(b))]...))
				damaged = true
			case 6:
				name = "font file corrupt"
				w.PutFile(f.Path, damagedFont(t, f.Data()))
				damaged = true
			case 7:
				name = "font file replaced by another"
				w.PutFile(f.Path, list[t.Intn(len(list))].Data())
			}
			c.Count("fault:"+name, 1)
			c.Note("%s: %s", f.Path, name)
		}
	}
	heal := func() {
		failing = false
		w.Inject = nil
		for _, f := range list {
			if env.loader == nil {
				w.Delete(f.Path)
				w.PutFile(f.Path, f.Data())
			}
		}
	}
	guard := func(op string, fn func()) {
		c.Op("%s", op)
		vsim.Budget(budget)
		r, stack := Try(fn)
		vsim.Budget(0)
		if r == nil {
			return
		}
		if _, ok := r.(*Violation); !ok && damaged {
			if l := stackFuncs(stack); len(l) > 0 && !strings.Contains(stack, "LoadFace") {
				for _, f := range l {
					if strings.HasPrefix(f, "runtime.") {
						continue
					}
					if strings.HasPrefix(f, "github.com/benoitkugler/textlayout/") {
						panic(thirdParty{})
					}
					break
				}
			}
		}
		c.rethrow(r, stack)
	}
	degraded := func() {
		early := s.Intn(len(asks) + 1)
		if s.Chance(1, 2) {
			early = 0
		}
		got := map[int]c12Answer{}
		for i, a := range asks {
			if i == early {
				fail()
			}
			guard(fmt.Sprintf("request %d with failures", i), func() { got[i] = a.answer(c, ctxs2, fm2) })
		}
		if !failing {
			fail()
		}
		for k := s.Intn(3); k > 0; k-- {
			// again, on the same font map
			i := s.Intn(len(asks))
			guard(fmt.Sprintf("request %d again with failures", i), func() { got[i] = asks[i].answer(c, ctxs2, fm2) })
		}
		// fonts which did not fail
		for i, a := range asks {
			switch a.kind {
			case 0:
				var l, m []c12Font
				for _, f := range want[i].fonts {
					if !affected[f.file] {
						l = append(l, f)
					}
				}
				for _, f := range got[i].fonts {
					if !affected[f.file] {
						m = append(m, f)
					}
				}
				for j := range l {
					if j >= len(m) {
						c.Fail("a font is lost with others", "%s: expected %s", a, l[j].lines[0])
					}
					if d := diffReport(l[j].lines, m[j].lines); d != "" {
						c.Fail("the failure of fonts alters others", "%s, font %d: %s", a, j, d)
					}
				}
				if len(m) > len(l) {
					c.Fail("the failure of fonts alters others", "%s: %d fonts instead of %d", a, len(m), len(l))
				}
				if len(l) > 0 {
					c.Count("font sets compared with failures", 1)
				}
			case 1:
				if a.set.width != -1 || a.set.tabs != nil || want[i].boxes || strings.ContainsRune(string(a.set.text), '\t') {
					continue
				}
				hit := false
				for f := range want[i].files {
					hit = hit || affected[f]
				}
				if hit {
					continue
				}
				c.Count("layouts compared with failures", 1)
				if d := diffReport(want[i].runs, got[i].runs); d != "" {
					c.Fail("the failure of unused fonts alters a layout", "%s:\n%s", a, d)
				}
			}
		}
	}
	r, stack := Try(degraded)
	if r != nil {
		if _, ok := r.(thirdParty); !ok {
			c.rethrow(r, stack)
		}
		c.Count("discarded: parser met corrupt data", 1)
	}
	c.Faults(w)
	if len(affected) > 0 {
		c.NonTrivial()
	}
	heal()

	// once healed
	if !damaged && s.Chance(1, 3) {
		// the font map which met the failures goes on
		i := s.Intn(len(asks))
		guard(fmt.Sprintf("request %d on the old font map", i), func() { asks[i].answer(c, ctxs2, fm2) })
	}
	fm, ctxs = newMap(healthy)
	for i, a := range asks {
		var got c12Answer
		c.Guard(fmt.Sprintf("request %d once healed", i), budget, func() { got = a.answer(c, ctxs, fm) })
		if d := diffReport(want[i].report, got.report); d != "" {
			c.Fail("results do not recover", "%s:\n%s", a, d)
		}
	}
}
