package main

// C08: concurrent queries on one configuration and one font database.

import (
	"bytes"
	"fmt"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C08", Concurrent: true, Run: runC08, Warm: warmC08}) }

// c08Env is what the tasks share.
type c08Env struct {
	cf      *fc.Config
	fs      fc.Fontset
	queries []fc.Pattern
	cache   []byte // a saved database
}

type c08Op struct {
	kind  int
	a, b  int
	trim  bool
	share bool // use the shared pattern itself
	objs  []fc.Object
	text  string
	rnd   func() *Stream
	res   []interface{}
}

var c08Kinds = []string{"Substitute", "SubstituteDefault", "Match", "Sort", "List", "PrepareRender", "ScanFontDirectories", "ScanFontFile", "Serialize", "LoadFontset", "ScanAndCache", "Copy", "Hash", "Standard.Substitute", "Langset", "Query", "ScanFontRessource", "Accessors"}

func (o *c08Op) String() string {
	return fmt.Sprintf("%s %d %d %v %v %v %q", c08Kinds[o.kind], o.a, o.b, o.trim, o.share, o.objs, o.text)
}

var c08Docs = []string{`<fontconfig><match target="pattern"><edit name="verifdoc" mode="assign"><string>one</string></edit></match></fontconfig>`,
	`<fontconfig><alias><family>Alpha</family><prefer><family>Beta</family></prefer></alias><match target="font"><edit name="verifother" mode="append"><int>3</int></edit></match></fontconfig>`}

func genC08Op(s *Stream) *c08Op {
	o := &c08Op{kind: s.Weighted(5, 2, 5, 4, 3, 3, 2, 1, 2, 3, 1, 2, 2, 1, 1, 4, 1, 2)}
	o.a, o.b = s.Intn(8), s.Intn(20)
	o.trim, o.share = s.Chance(1, 2), s.Chance(1, 2)
	for k := s.Intn(4); k > 0; k-- {
		o.objs = append(o.objs, allObjects[s.Intn(len(allObjects))].obj)
	}
	o.text = []string{"en|fr", "zh-tw|xx-yy", "ja|ko|mn-cn", "", "und"}[s.Intn(5)]
	o.rnd = s.Sub()
	return o
}

// run is executed as a task: it uses nothing of the harness that is shared.
func (o *c08Op) run(e *c08Env) {
	out := func(l ...interface{}) { o.res = append(o.res, l...) }
	q := e.queries[o.a%len(e.queries)]
	if !o.share {
		q = q.Duplicate()
	}
	font := e.fs[o.b%len(e.fs)]
	switch o.kind {
	case 0:
		q = q.Duplicate()
		switch o.b % 3 {
		case 0:
			e.cf.Substitute(q, nil, fc.MatchQuery)
		case 1:
			e.cf.Substitute(q, font, fc.MatchResult)
		case 2:
			e.cf.Substitute(q, nil, fc.MatchScan)
		}
		out(q)
	case 1:
		q = q.Duplicate()
		q.SubstituteDefault()
		out(q)
	case 2:
		out(e.fs.Match(q, e.cf))
	case 3:
		l, cs := e.fs.Sort(q, o.trim)
		out(l, cs)
	case 4:
		p := fc.NewPattern()
		if o.trim {
			p.Add(fc.FAMILY, fc.String([]string{"Alpha", "Delta", "Pair One"}[o.b%3]), true)
		}
		out(e.fs.List(p, o.objs...))
	case 5:
		out(e.cf.PrepareRender(q, font))
	case 6:
		fs, err := e.cf.ScanFontDirectories([]string{"/scan", "/scan/sub", "/usr/share/fonts"}[:1+o.b%3]...)
		out(fs, err)
	case 7:
		fs, err := e.cf.ScanFontFile([]string{"/scan/alpha.ttf", "/scan/bad.ttf", "/scan/sub/pair.ttc", "/scan/none.ttf"}[o.b%4])
		out(fs, err)
	case 8:
		var buf bytes.Buffer
		err := e.fs.Serialize(&buf)
		fs, err2 := fc.LoadFontset(&buf)
		out(err, fs, err2)
	case 9:
		fs, err := fc.LoadFontset(bytes.NewReader(e.cache))
		out(fs, err)
		if o.trim {
			fs, err := fc.LoadFontset(bytes.NewReader(e.cache[:len(e.cache)*o.b/20]))
			out(fs, err)
		}
	case 10:
		file := fmt.Sprintf("/cache/%d-%d", o.a, o.b)
		fs, err := fc.ScanAndCache(file)
		out(fs, err)
	case 11:
		cf := e.cf.Copy()
		err := cf.LoadFromMemory(strings.NewReader(c08Docs[o.b%2]))
		q = q.Duplicate()
		cf.Substitute(q, nil, fc.MatchQuery)
		out(err, q)
		if o.trim {
			out(e.fs.Match(q, cf))
		}
	case 12:
		out(q.Hash(), q.String(), font.Hash(), font.String(), font.Duplicate())
	case 13:
		q = q.Duplicate()
		fc.Standard.Substitute(q, nil, fc.MatchQuery)
		out(q)
	case 14:
		ls := fc.NewLangset(o.text)
		dirs, err := fc.DefaultFontDirs()
		l, _ := font.GetAt(fc.LANG, 0)
		out(ls, fmt.Sprint(dirs), err, fmt.Sprint(l))
	case 15:
		// what an application does to find a font
		q = q.Duplicate()
		e.cf.Substitute(q, nil, fc.MatchQuery)
		q.SubstituteDefault()
		m := e.fs.Match(q, e.cf)
		l, cs := e.fs.Sort(q, o.trim)
		out(m, l, cs)
		for i := 0; i < len(l) && i < 3; i++ {
			out(e.cf.PrepareRender(q, l[i]))
		}
	case 16:
		data, ok := vosGet("/scan/sub/pair.ttc")
		if ok {
			fs, err := e.cf.ScanFontRessource(bytes.NewReader(data), "resource")
			out(fs, err)
		}
	case 17:
		cs, ok := font.GetCharset(fc.CHARSET)
		if ok {
			cp := cs.Copy()
			cp.AddChar(0x2603)
			out(cs.Len(), cs.HasChar('a'), cp.Len(), cs)
		}
		w, _ := font.GetInt(fc.WEIGHT)
		out(font.FaceID(), string(font.Format()), font.GetStrings(fc.FAMILY), w, font.GetFloats(fc.WEIGHT))
	}
}

func vosGet(p string) ([]byte, bool) {
	b, ok := vos.Current().Get(p)
	return b, ok
}

// answer describes what the operation returned.
func (o *c08Op) answer() []string {
	var l []string
	for _, v := range o.res {
		switch v := v.(type) {
		case fc.Pattern:
			l = append(l, dumpPattern(v))
		case fc.Fontset:
			l = append(l, dumpSet(v)...)
			l = append(l, "-")
		case fc.Charset:
			l = append(l, dumpCharset(v))
		case fc.Langset:
			l = append(l, dumpLangset(v))
		case error:
			l = append(l, "error: "+v.Error())
		default:
			l = append(l, fmt.Sprint(v))
		}
	}
	return l
}

// c08World is the machine of the tasks.
func c08World(c *Ctx, s *Stream) *vos.World {
	w := c.World()
	w.PutFile("/scan/alpha.ttf", smallFonts[0].Data())
	w.PutFile("/scan/sub/pair.ttc", smallFonts[9].Data())
	w.PutFile("/scan/bad.ttf", smallFonts[1].Data()[:300])
	w.PutFile("/scan/empty.ttf", nil)
	w.PutFile("/scan/private.ttf", smallFonts[2].Data())
	w.SetNoRead("/scan/private.ttf", true)
	w.PutLink("/scan/link.ttf", "/scan/sub/pair.ttc")
	w.PutFile("/usr/share/fonts/beta.ttf", smallFonts[4].Data())
	if s.Chance(1, 3) {
		w.PutFile("/scan/var.ttf", smallFonts[8].Data())
	}
	w.MkdirAll("/usr/share/texmf/fonts/opentype/public")
	w.MkdirAll("/cache")
	w.Env["LANG"] = "en_US.UTF-8"
	return w
}

// genC08Env returns a function making environments, all alike.
func genC08Env(c *Ctx, e *Stream) func() *c08Env {
	docs := []string{}
	for k := e.Weighted(1, 4, 2); k > 0; k-- {
		if e.Chance(1, 3) {
			docs = append(docs, layConfs[1+e.Intn(2)])
		} else {
			docs = append(docs, genConf(e))
		}
	}
	std := e.Chance(1, 12)
	db := layDBs[2]
	if e.Chance(1, 6) {
		db = layDBs[3+e.Intn(2)]
	}
	nq := e.Range(1, 3)
	qs := e.Sub()
	for _, d := range docs {
		c.Note("configuration %s", d)
	}
	return func() *c08Env {
		v := &c08Env{cf: fc.NewConfig(), fs: database(db.key, db.list)}
		for _, d := range docs {
			if err := v.cf.LoadFromMemory(strings.NewReader(d)); err != nil {
				harnessBug("configuration refused: %v\n%s", err, d)
			}
		}
		if std {
			v.cf = fc.Standard
		}
		v.cache = dbCache[db.key]
		g := qs()
		for i := 0; i < nq; i++ {
			p := genPattern(g)
			if g.Chance(2, 3) {
				p.Add(fc.FAMILY, fc.String([]string{"Alpha", "Delta", "serif", "Gamma", "Variable"}[g.Intn(5)]), g.Chance(1, 2))
			}
			if g.Chance(1, 3) {
				p.Del(fc.LANG)
				p.Add(fc.LANG, fc.NewLangset([]string{"ja", "en", "ar|fr"}[g.Intn(3)]), true)
			}
			v.queries = append(v.queries, p)
		}
		return v
	}
}

func runC08(c *Ctx) {
	s := c.S("run")
	e := c.S("env")
	c08World(c, e)
	newEnv := genC08Env(c, e)
	env := newEnv()
	tasks := make([][]*c08Op, s.Range(2, 4))
	var fns []func()
	same := s.Chance(1, 3) // all do the same
	gen := s.Sub()
	for i := range tasks {
		g := s
		if same {
			g = gen()
		}
		for k := g.Range(1, 4); k > 0; k-- {
			o := genC08Op(g)
			if o.kind == 10 {
				o.a = i // a file of its own
				o.b = len(tasks[i])
			}
			tasks[i] = append(tasks[i], o)
			c.Note("task %d: %s", i, o)
		}
		l := tasks[i]
		fns = append(fns, func() {
			for _, o := range l {
				o.run(env)
			}
		})
	}
	c.Parallel("queries", 8e9, fns...)
	for i, l := range tasks {
		for _, o := range l {
			alone := *o
			alone.res = nil
			fresh := newEnv()
			c.Guard(c08Kinds[o.kind]+" alone", 4e9, func() { alone.run(fresh) })
			got, want := o.answer(), alone.answer()
			c.State(hashStrings(append(want, o.String())))
			if d := diffStrings(want, got); d != "" {
				c.Fail("concurrent queries disturb "+c08Kinds[o.kind], "task %d, %s: %s", i, o, d)
			}
		}
	}
}

// warmC08 does everything once.
func warmC08() {
	c := newCtx("C08", 1, 0)
	w := c08World(c, c.S("env"))
	env := &c08Env{cf: fc.NewConfig(), fs: database("small", smallFonts), cache: dbCache["small"]}
	for k := 0; k < 3; k++ {
		env.queries = append(env.queries, fc.BuildPattern(fc.PatternElement{Object: fc.FAMILY, Value: fc.String("Alpha")}))
	}
	for k := range c08Kinds {
		for b := 0; b < 4; b++ {
			o := genC08Op(c.S("run"))
			o.kind, o.b = k, b
			o.run(env)
			o.answer()
		}
	}
	_ = w
	vos.Use(nil)
}
