package main

// C07: tasks lay out text, each with a font map, a context and layouts of its
// own, sharing the database, the configuration and the process-wide tables.

import (
	"fmt"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/fribidi"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C07", Concurrent: true, Run: runC07, Warm: warmC07}) }

// c07Env is what the tasks share.
type c07Env struct {
	cf *fc.Config
	fs fc.Fontset
}

type c07Step struct {
	kind int
	mut  layMut
	desc pango.FontDescription
	lang pango.Language
	gen  func() *Stream
}

var c07Kinds = []string{"report", "change", "query", "metrics", "fontset", "itemize", "markup", "font", "context", "another layout", "boundaries", "new font map"}

// c07Task is the work of one task.
type c07Task struct {
	ctx   ctxSet
	set   laySet
	steps []c07Step
	out   []string
}

func genC07Task(s *Stream, maxText int) *c07Task {
	t := &c07Task{ctx: genCtx(s), set: genLay(s, s.Intn(3), maxText)}
	now := t.set
	for k := s.Range(1, 4); k > 0; k-- {
		st := c07Step{kind: s.Weighted(6, 4, 3, 2, 3, 2, 2, 2, 2, 2, 1, 1), desc: genDesc(s)}
		if s.Chance(1, 2) {
			st.lang = layLangs[s.Intn(len(layLangs))]
		}
		if st.kind == 1 {
			st.mut = now.mutate(s, maxText)
		}
		st.gen = s.Sub()
		t.steps = append(t.steps, st)
	}
	return t
}

func (t *c07Task) String() string {
	var l []string
	for _, st := range t.steps {
		l = append(l, c07Kinds[st.kind]+" "+st.mut.name)
	}
	return fmt.Sprintf("%s %s %s", t.ctx, &t.set, strings.Join(l, ", "))
}

// run is executed as a task: it uses nothing of the harness that is shared.
func (t *c07Task) run(e *c07Env) {
	fm := fcfonts.NewFontMap(e.cf, e.fs)
	ctx := t.ctx.newContext(fm)
	l := t.set.newLayout(ctx)
	for i := range t.steps {
		st := &t.steps[i]
		s := st.gen()
		r := &reporter{names: map[pango.Font]string{}}
		d := st.desc
		switch st.kind {
		case 0:
			r.lines = report(l, 1+s.Intn(repAll), 6)
		case 1:
			st.mut.apply(l)
			r.lines = report(l, repLines, 6)
		case 2:
			query(s, l)
			r.lines = report(l, repIndex|repCursor, 3)
		case 3:
			r.s(fmt.Sprintf("metrics %+v %+v", ctx.GetMetrics(&d, st.lang), ctx.GetMetrics(nil, st.lang))).end()
		case 4:
			fs := fm.LoadFontset(ctx, &d, st.lang)
			if fs == nil {
				r.s("no fontset").end()
				break
			}
			r.s(string(fs.GetLanguage()))
			n := s.Range(1, 6)
			fs.Foreach(func(f pango.Font) bool {
				n--
				r.font(f)
				return n <= 0
			})
			r.end()
		case 5:
			text := genText(s, 12)
			for it := ctx.Itemize(text, 0, len(text), buildAttrs([]attrSpec{{kind: 0, desc: d, end: len(text)}, genAttr(s, len(text))})); it != nil; it = it.Next {
				r.s("item").item(it.Data).end()
			}
		case 6:
			p, err := pango.ParseMarkup([]byte(genMarkup(s)), '_')
			if err != nil {
				r.s(err.Error()).end()
				break
			}
			r.s(string(p.Text)).s(attrsString(p.Attr)).i(int(p.AccelChar)).end()
		case 7:
			if f := pango.LoadFont(fm, ctx, &d); f != nil {
				r.describeFont(s, f)
			}
		case 8:
			switch s.Intn(4) {
			case 0:
				ctx.SetLanguage(st.lang)
			case 1:
				ctx.SetFontDescription(d)
			case 2:
				ctx.SetBaseGravity(pango.Gravity(s.Intn(5)))
			case 3:
				ctx.SetRoundGlyphPositions(s.Chance(1, 2))
			}
			r.lines = report(l, repLines, 3)
		case 9:
			set := genLay(s, 2, 16)
			r.lines = report(set.newLayout(ctx), repLines|repIter, 3)
		case 10:
			text := genText(s, 20)
			attrs := pango.ComputeCharacterAttributes(text, fribidi.Level(s.Intn(3)-1))
			r.s(fmt.Sprint(attrs, pango.DefaultLanguage(), pango.SampleString(st.lang), pango.NewFontDescriptionFrom(d.String()).String())).end()
		case 11:
			fm = fcfonts.NewFontMap(e.cf, e.fs)
			ctx = t.ctx.newContext(fm)
			if f := pango.LoadFont(fm, ctx, &d); f != nil {
				r.s("font").font(f).s(fmt.Sprintf(" %+v", f.GetMetrics(st.lang))).end()
			}
		}
		t.out = append(t.out, "step "+c07Kinds[st.kind])
		t.out = append(t.out, r.lines...)
	}
	t.out = append(t.out, report(l, repLines, 6)...)
}

func c07World(c *Ctx, e *Stream, db dbChoice) {
	w := c.World()
	none := e.Chance(1, 16)
	for i, f := range db.list {
		data := f.Data()
		w.PutFile(f.Path, data)
		switch {
		case none:
			w.Delete(f.Path)
		case i > 0 && e.Chance(1, 24):
			w.Delete(f.Path)
		case i > 0 && e.Chance(1, 24):
			w.SetNoRead(f.Path, true)
		}
	}
	w.Env["LANG"] = "en_US.UTF-8"
	if e.Chance(3, 4) {
		w.Env["PANGO_LANGUAGE"] = []string{"ar:ja:ru", "en:fa", "he", "de:el:hi:zh-cn", "xx"}[e.Intn(5)]
	}
	if e.Chance(1, 4) {
		w.Env["FC_LANG"] = []string{"ja", "ar:fr", "C"}[e.Intn(3)]
	}
}

func runC07(c *Ctx) {
	s := c.S("run")
	e := c.S("env")
	db := layDBs[2+e.Intn(3)]
	if e.Chance(1, 24) {
		db = layDBs[e.Intn(2)]
	}
	conf := e.Intn(len(layConfs))
	c07World(c, e, db)
	newEnv := func() *c07Env { return &c07Env{cf: layConfig(conf), fs: database(db.key, db.list)} }
	env := newEnv()
	c.Note("database %s configuration %d", db.key, conf)
	maxText := 24
	if c.Tier > 0 {
		maxText = 60
	}
	tasks := make([]*c07Task, s.Range(2, 4))
	same := s.Chance(1, 3)
	gen := s.Sub()
	var fns []func()
	for i := range tasks {
		if same {
			tasks[i] = genC07Task(gen(), maxText)
		} else {
			tasks[i] = genC07Task(s, maxText)
		}
		t := tasks[i]
		c.Note("task %d: %s", i, t)
		fns = append(fns, func() { t.run(env) })
	}
	c.Parallel("layouts", 8e9, fns...)
	for i, t := range tasks {
		alone := *t
		alone.out = nil
		c.Guard("layout alone", 4e9, func() { alone.run(newEnv()) })
		c.State(hashStrings(alone.out))
		if d := diffReport(alone.out, t.out); d != "" {
			c.Fail("concurrent layouts disturb each other", "task %d: %s\n%s", i, t, d)
		}
	}
}

func warmC07() {
	c := newCtx("C07", 1, 0)
	db := layDBs[2]
	e := c.S("env")
	c07World(c, e, db)
	s := c.S("run")
	for k := range c07Kinds {
		if k == 1 {
			continue
		}
		t := genC07Task(s, 24)
		t.steps = t.steps[:1]
		t.steps[0].kind = k
		t.run(&c07Env{cf: layConfig(1), fs: database(db.key, db.list)})
	}
	vos.Use(nil)
}
