package main

// C15: results do not depend on the order in which maps and directories are
// enumerated; fonts of equal merit come in database order.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/benoitkugler/textlayout/fonts"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

func init() { register(&Prop{ID: "C15", Run: runC15}) }

// ordered does the work under several enumeration orders; work starts from
// nothing each time.
func (c *Ctx) ordered(what string, budget int64, work func() []string) {
	s := c.S("order")
	var want []string
	for k := 0; k < 3; k++ {
		mode, salt := 0, uint64(0)
		if k > 0 {
			mode, salt = 1+s.Intn(3), uint64(s.Intn(1<<16))
		}
		var got []string
		vsim.SetOrder(mode, salt)
		c.Guard(what, budget, func() { got = work() })
		if n := vsim.OrderUsed(); n > 0 {
			c.NonTrivial()
			c.Count("unordered enumerations", int64(n))
		}
		vsim.SetOrder(0, 0)
		c.Count(fmt.Sprintf("executions under order %d", mode), 1)
		if k == 0 {
			want = got
			c.State(hashStrings(want))
			continue
		}
		if d := diffReport(want, got); d != "" {
			c.Fail("results depend on the enumeration order: "+what, "order %d, salt %d: %s", mode, salt, d)
		}
	}
}

func runC15(c *Ctx) {
	s := c.S("run")
	switch s.Weighted(5, 3, 2, 3, 3) {
	case 0:
		c15Queries(c, s)
	case 1:
		c15Layouts(c, s)
	case 2:
		c15ConfDir(c, s)
	case 3:
		c15Scan(c, s)
	case 4:
		c15EqualMerit(c, s)
	}
}

// c15Queries makes font queries of every kind.
func c15Queries(c *Ctx, s *Stream) {
	env := genC08Env(c, c.S("env"))
	var ops []*c08Op
	for k := s.Range(1, 5); k > 0; k-- {
		o := genC08Op(s)
		if o.kind == 10 && !s.Chance(1, 4) { // uses the whole standard configuration
			o.kind = 6
		}
		ops = append(ops, o)
		c.Note("%s", o)
	}
	e := c.S("env").Sub()
	c.ordered("queries", 1e9, func() []string {
		c08World(c, e())
		v := env()
		var out []string
		for _, o := range ops {
			x := *o
			x.res = nil
			x.run(v)
			out = append(out, x.String())
			out = append(out, x.answer()...)
		}
		// what is stored
		for _, o := range ops {
			switch o.kind {
			case 8:
				var b bytes.Buffer
				err := v.fs.Serialize(&b)
				out = append(out, fmt.Sprintf("saved %x %v", hashStr(b.String()), err))
			case 10:
				b, ok := vosGet(fmt.Sprintf("/cache/%d-%d", o.a, o.b))
				out = append(out, fmt.Sprintf("cache file %v %x", ok, hashStr(string(b))))
			}
		}
		return out
	})
}

// c15Layouts lays out text, measures and loads fonts.
func c15Layouts(c *Ctx, s *Stream) {
	e := c.S("env")
	db := layDBs[2+e.Intn(3)]
	if e.Chance(1, 24) {
		db = layDBs[e.Intn(2)]
	}
	conf := e.Intn(len(c17Confs))
	we := e.Sub()
	maxText := 24
	if c.Tier > 0 {
		maxText = 60
	}
	t := genC07Task(s, maxText)
	c.Note("database %s configuration %d %s", db.key, conf, t)
	vary := s.Chance(1, 2)
	gen := s.Sub()
	c.ordered("layouts", 1e9, func() []string {
		c07World(c, we(), db)
		v := &c07Env{cf: fc.NewConfig(), fs: database(db.key, db.list)}
		loadInto(v.cf, c17Confs[conf])
		if vary {
			v.fs = variants(gen(), v.fs)
		}
		x := *t
		x.out = nil
		x.run(v)
		return x.out
	})
}

// c15ConfDir loads directories of configuration documents.
func c15ConfDir(c *Ctx, s *Stream) {
	root := "/etc/conf.d"
	d := genConfDir(s, root, s.Chance(1, 4))
	pr := c.newProbes(s, false)
	c.ordered("configuration directory", 1e9, func() []string {
		w := c.World()
		d.install(w)
		cf := fc.NewConfig()
		err := cf.LoadFromDir(root)
		out := []string{fmt.Sprint("error ", err)}
		for i, p := range pr.pats {
			q := p.Duplicate()
			cf.Substitute(q, nil, fc.MatchQuery)
			out = append(out, "query "+dumpPattern(q))
			q = p.Duplicate()
			cf.Substitute(q, pr.pats[(i+1)%len(pr.pats)], fc.MatchResult)
			out = append(out, "result "+dumpPattern(q))
		}
		vos.Use(pr.world)
		fs, err := cf.ScanFontDirectories("/fonts")
		out = append(out, fmt.Sprint("scan ", err))
		return append(out, dumpSet(fs)...)
	})
}

// c15Scan scans trees.
func c15Scan(c *Ctx, s *Stream) {
	t := genTree(s)
	dirs := genDirs(s, t)
	var docs []string
	if s.Chance(1, 3) {
		docs = append(docs, genConf(s))
	}
	c.ordered("scan", 1e9, func() []string {
		w := c.World()
		t.install(w)
		cf := fc.NewConfig()
		for _, d := range docs {
			loadInto(cf, d)
		}
		fs, err := cf.ScanFontDirectories(dirs...)
		out := append([]string{fmt.Sprint("scan ", err)}, dumpSet(fs)...)
		var b bytes.Buffer
		err = fs.Serialize(&b)
		out = append(out, fmt.Sprintf("saved %x %v", hashStr(b.String()), err))
		for _, l := range fs.List(fc.NewPattern(), fc.FAMILY, fc.LANG) {
			out = append(out, "listed "+dumpPattern(l))
		}
		return out
	})
}

// cloneLoader opens the same font whatever the file.
type cloneLoader struct{}

func (cloneLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	key.File, key.Index, key.Instance = smallFonts[0].Path, 0, 0
	return sharedFaces{}.LoadFace(key, fc.TrueType)
}

// c15EqualMerit asks for fonts among which several are as good as each other.
func c15EqualMerit(c *Ctx, s *Stream) {
	d := layDBs[2+s.Intn(3)]
	base := database(d.key, d.list)
	if s.Chance(1, 2) {
		base = variants(s, base)
	}
	var db fc.Fontset
	group := map[string]int{}
	place := map[string]int{}
	type clone struct {
		p fc.Pattern
		g int
	}
	var all []clone
	for i, p := range base {
		n := 1
		if s.Chance(1, 2) {
			n = s.Range(2, 5)
		}
		for ; n > 0; n-- {
			all = append(all, clone{p, i})
		}
	}
	for i := len(all) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	if s.Chance(1, 6) { // many, so that a sort leaves its short-list algorithm
		for len(all) < 40 {
			all = append(all, all...)
		}
	}
	for i, x := range all {
		p := x.p.Duplicate()
		file := fmt.Sprintf("/fonts/clone%03d.ttf", (i*37)%1000)
		p.Del(fc.FILE)
		p.AddString(fc.FILE, file)
		p.Del(fc.FULLNAME)
		p.AddString(fc.FULLNAME, fmt.Sprintf("Full %d", (i*7)%11))
		db = append(db, p)
		group[file], place[file] = x.g, i
	}
	q := genPattern(s)
	q.Del(fc.FILE)
	if s.Chance(3, 4) {
		q.Add(fc.FAMILY, fc.String([]string{"Alpha", "Delta", "serif", "Gamma", "Variable", "Nothing"}[s.Intn(6)]), s.Chance(1, 2))
	}
	if s.Chance(1, 3) {
		q.Del(fc.LANG)
		q.Add(fc.LANG, fc.NewLangset([]string{"ja", "en", "ar|fr"}[s.Intn(3)]), true)
	}
	conf := s.Intn(len(c17Confs))
	trim := s.Chance(1, 2)
	c.Note("%d fonts, query %s, configuration %d, trim %v", len(db), dumpPattern(q), conf, trim)
	fileOf := func(p fc.Pattern) string {
		f, _ := p.GetString(fc.FILE)
		return f
	}
	first := func(what, file string) {
		i, ok := place[file]
		if !ok {
			return
		}
		for j := 0; j < i; j++ {
			if f := fileOf(db[j]); group[f] == group[file] {
				c.Fail("fonts of equal merit not in database order: "+what, "%s is chosen, being at %d, and %s, which only differs by its file and full name, is at %d", file, i, f, j)
			}
		}
	}
	inOrder := func(what string, files []string) {
		last := map[int]string{}
		for _, f := range files {
			i, ok := place[f]
			if !ok {
				continue
			}
			g := group[f]
			if p, ok := last[g]; ok && place[p] > i {
				c.Fail("fonts of equal merit not in database order: "+what, "%s, which is at %d, is returned before %s, which is at %d and only differs by its file and full name\nreturned %s", p, place[p], f, i, strings.Join(files, " "))
			}
			last[g] = f
		}
	}
	c.ordered("equal merit", 1e9, func() []string {
		cf := fc.NewConfig()
		loadInto(cf, c17Confs[conf])
		p := q.Duplicate()
		cf.Substitute(p, nil, fc.MatchQuery)
		p.SubstituteDefault()
		m := db.Match(p, cf)
		out := []string{"match " + dumpPattern(m)}
		first("Match", fileOf(m))
		l, _ := db.Sort(p, trim)
		var files []string
		for _, x := range l {
			files = append(files, fileOf(x))
		}
		inOrder("Sort", files)
		if len(files) > 0 {
			first("Sort", files[0])
		}
		out = append(out, "sorted "+strings.Join(files, " "))
		files = nil
		for _, x := range db.List(fc.NewPattern(), fc.FAMILY, fc.FILE) {
			files = append(files, fileOf(x))
		}
		for i := 1; i < len(files); i++ {
			if place[files[i-1]] > place[files[i]] {
				c.Fail("fonts of equal merit not in database order: List", "%s is listed before %s", files[i-1], files[i])
			}
		}
		out = append(out, "listed "+strings.Join(files, " "))
		fm := fcfonts.NewFontMap(cf, db)
		desc := pango.NewFontDescriptionFrom("Alpha 12")
		files = nil
		fm.SetFaceLoader(cloneLoader{})
		if fs := fm.LoadFontset(pango.NewContext(fm), &desc, "en"); fs != nil {
			fs.Foreach(func(f pango.Font) bool {
				if f != nil {
					files = append(files, f.FaceID().File)
				}
				return len(files) >= 8
			})
			inOrder("font set", files)
		}
		return append(out, "font set "+strings.Join(files, " "))
	})
}
