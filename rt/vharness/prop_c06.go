package main

import (
	"bytes"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
)

// ---- C06: configuration loading ----

// confInst is one configuration and the documents it holds.
type confInst struct {
	cf   *fc.Config
	docs []string
}

// confProbes are the questions that tell configurations apart.
type confProbes struct {
	pats  []fc.Pattern
	fonts []namedFont
	world *vos.World
}

func (c *Ctx) newProbes(s *Stream, sel bool) *confProbes {
	pr := &confProbes{world: vos.NewWorld()}
	if sel {
		pr.fonts = append(pr.fonts, smallFonts[:10]...)
		for _, f := range pr.fonts {
			pr.world.PutFile(f.Path, f.Data())
		}
		return pr
	}
	for i := s.Range(3, 6); i > 0; i-- {
		p := genPattern(s)
		if s.Chance(2, 3) {
			p.Add(fc.FAMILY, fc.String(words[s.Intn(len(words))]), s.Chance(1, 2))
		}
		pr.pats = append(pr.pats, p)
	}
	for i := s.Range(1, 3); i > 0; i-- {
		f := smallFonts[s.Intn(11)]
		pr.fonts = append(pr.fonts, f)
		pr.world.PutFile(f.Path, f.Data())
	}
	return pr
}

// ask returns the answers of a configuration.
func (c *Ctx) ask(pr *confProbes, cf *fc.Config) []string {
	var out []string
	cur := vos.Current()
	for i, p := range pr.pats {
		for _, k := range []struct {
			name string
			run  func(p fc.Pattern)
		}{
			{"query", func(p fc.Pattern) { cf.Substitute(p, nil, fc.MatchQuery) }},
			{"result", func(p fc.Pattern) { cf.Substitute(p, pr.pats[(i+1)%len(pr.pats)], fc.MatchResult) }},
			{"scan", func(p fc.Pattern) { cf.Substitute(p, nil, fc.MatchScan) }},
		} {
			q := p.Duplicate()
			c.Guard("Substitute "+k.name, opBudget, func() { k.run(q) })
			out = append(out, k.name+"\n"+dumpPattern(q))
		}
	}
	vos.Use(pr.world)
	var fs fc.Fontset
	var err error
	c.Guard("ScanFontDirectories", 4*opBudget, func() { fs, err = cf.ScanFontDirectories("/fonts") })
	if err != nil {
		out = append(out, "error "+err.Error())
	}
	out = append(out, dumpSet(fs)...)
	vos.Use(cur)
	return out
}

// reference is a configuration that loads the documents one by one, whole.
func (c *Ctx) reference(docs []string) *fc.Config {
	cf := fc.NewConfig()
	for _, d := range docs {
		var err error
		c.Guard("LoadFromMemory", opBudget, func() { err = cf.LoadFromMemory(bytes.NewReader([]byte(d))) })
		if err != nil {
			c.Fail("loading depends on the stream", "a document loaded before is refused when read at once: %v\n%s", err, short(d))
		}
	}
	return cf
}

func (c *Ctx) sameConf(pr *confProbes, in *confInst, sig, what string) {
	want := c.ask(pr, c.reference(in.docs))
	got := c.ask(pr, in.cf)
	c.State(hashStrings(want))
	if d := diffStrings(want, got); d != "" {
		c.Fail(sig, "%s (%d documents loaded): %s\n%s", what, len(in.docs), d, strings.Join(in.docs, "\n--\n"))
	}
}

// rootEnd is the offset past the end of the root element.
func rootEnd(doc string) int {
	i := strings.LastIndex(doc, "</fontconfig>")
	return i + len("</fontconfig>")
}

// confDir is a directory of documents.
type confDir struct {
	files map[string]string // path, content
	links map[string]string
	dirs  map[string]bool
}

func genConfDir(s *Stream, root string, bad bool) *confDir {
	d := &confDir{files: map[string]string{}, links: map[string]string{}, dirs: map[string]bool{root: true}}
	dirs := []string{root}
	for i := s.Intn(4); i > 0; i-- {
		p := path.Join(dirs[s.Intn(len(dirs))], []string{"10-sub", "50", "a", "95-x.conf", "0", "conf.d"}[s.Intn(6)])
		if !d.dirs[p] {
			d.dirs[p] = true
			dirs = append(dirs, p)
		}
	}
	for i := s.Range(0, 6); i > 0; i-- {
		n := []string{"10-a.conf", "09-b.conf", "2.conf", "10.conf", "100-c.conf", "99-z.conf", "50-m.conf", "x.conf", "10-a.conf.bak", "README", "1", ".conf", "7conf", "9.CONF", "10-A.conf", "10-a-b.conf"}[s.Weighted(3, 3, 3, 3, 3, 3, 3, 1, 1, 1, 1, 1, 1, 1, 2, 2)]
		p := path.Join(dirs[s.Intn(len(dirs))], n)
		if d.dirs[p] || d.files[p] != "" || d.links[p] != "" {
			continue
		}
		doc := genConf(s)
		if bad && s.Chance(1, 4) {
			doc = invalidConfs[s.Intn(len(invalidConfs))] + " "
		}
		if s.Chance(1, 5) {
			t := fmt.Sprintf("/elsewhere/doc%d", i)
			d.files[t] = doc
			if s.Chance(1, 3) {
				d.links["/elsewhere/hop"+fmt.Sprint(i)] = t
				t = "/elsewhere/hop" + fmt.Sprint(i)
			}
			d.links[p] = t
			continue
		}
		d.files[p] = doc
	}
	return d
}

type confDoc struct{ via, path, doc string }

// order lists the documents in the order they apply.
func (d *confDir) order(root string) []confDoc {
	var out []confDoc
	var visit func(dir string)
	visit = func(dir string) {
		var names []string
		for p := range d.files {
			if path.Dir(p) == dir {
				names = append(names, path.Base(p))
			}
		}
		for p := range d.links {
			if path.Dir(p) == dir {
				names = append(names, path.Base(p))
			}
		}
		for p := range d.dirs {
			if path.Dir(p) == dir && p != root {
				names = append(names, path.Base(p))
			}
		}
		sort.Strings(names)
		for _, n := range names {
			p := path.Join(dir, n)
			if d.dirs[p] {
				visit(p)
				continue
			}
			if n[0] < '0' || n[0] > '9' || !strings.HasSuffix(n, ".conf") {
				continue
			}
			t := p
			for d.links[t] != "" {
				t = d.links[t]
			}
			out = append(out, confDoc{p, t, d.files[t]})
		}
	}
	visit(root)
	return out
}

func (d *confDir) install(w *vos.World) {
	for _, p := range sortedKeys(d.dirs) {
		w.MkdirAll(p)
	}
	var ps []string
	for p := range d.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		w.PutFile(p, []byte(d.files[p]))
	}
	ps = nil
	for p := range d.links {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		w.PutLink(p, d.links[p])
	}
}

func runC06(c *Ctx) {
	s := c.S("prog")
	fl := c.S("fault")
	st := c.S("io")
	// some runs only select fonts
	sel := s.Chance(1, 5)
	pr := c.newProbes(s, sel)
	genConf := func(s *Stream) string {
		if sel && !s.Chance(1, 8) {
			return genSelConf(s)
		}
		return genConf(s)
	}
	vos.Use(nil)
	insts := []*confInst{{cf: fc.NewConfig()}}
	for n := s.Range(3, 9); n > 0; n-- {
		setOrder(c.S("order"))
		in := insts[s.Intn(len(insts))]
		w := []int{4, 3, 3, 2, 3, 3, 2}
		if sel {
			w = []int{8, 1, 1, 1, 4, 0, 2}
		}
		switch s.Weighted(w...) {
		case 0:
			doc := genConf(s)
			c.load(in.cf, st, doc)
			in.docs = append(in.docs, doc)
			c.Note("loaded %q", doc)
		case 1: // the stream fails, or the document is cut
			doc := genConf(s)
			end := rootEnd(doc)
			r := newChunkReader(st, []byte(doc))
			r.at = fl.Intn(len(doc) + 1)
			what := "truncated"
			r.err = errEOF
			if fl.Chance(1, 2) {
				r.err, what = errIO, "whose reading fails"
			}
			c.Count("fault:document "+what, 1)
			c.Note("document %s at %d of %d: %q", what, r.at, end, doc)
			c.NonTrivial()
			c.faultN++
			var err error
			c.Guard("LoadFromMemory", opBudget, func() { err = in.cf.LoadFromMemory(r) })
			if err == nil && r.at < end {
				c.Fail("damaged document accepted", "a document %s after %d of its %d bytes is loaded without error\n%s", what, r.at, end, short(doc))
			}
			if err == nil {
				in.docs = append(in.docs, doc)
			} else if r.at >= end && what == "truncated" {
				c.Fail("valid configuration refused", "%v\n%s", err, short(doc))
			}
		case 2: // damaged document
			doc := mutateConf(fl, genConf(s))
			c.Count("fault:document damaged", 1)
			c.Note("damaged document %q", doc)
			c.NonTrivial()
			c.faultN++
			var err error
			c.Guard("LoadFromMemory", opBudget, func() { err = in.cf.LoadFromMemory(newChunkReader(st, []byte(doc))) })
			if err == nil {
				in.docs = append(in.docs, doc)
				c.Count("damaged documents still valid", 1)
			} else {
				probe := fc.NewConfig()
				for _, d := range in.docs {
					c.load(probe, st, d)
				}
				c.Guard("LoadFromMemory", opBudget, func() { err = probe.LoadFromMemory(bytes.NewReader([]byte(doc))) })
				if err == nil {
					c.Fail("loading depends on the stream", "a document refused when read by pieces is accepted at once\n%s", short(doc))
				}
			}
		case 3: // malformed
			doc := invalidConfs[s.Intn(len(invalidConfs))]
			if s.Chance(1, 2) { // its first rules are good
				good := genConf(s)
				if i := strings.Index(doc, "<fontconfig>"); i >= 0 {
					doc = good[:strings.LastIndex(good, "</fontconfig>")] + doc[i+len("<fontconfig>"):]
				}
			}
			c.NonTrivial()
			c.Note("malformed document %q", doc)
			var err error
			c.Guard("LoadFromMemory", opBudget, func() { err = in.cf.LoadFromMemory(newChunkReader(st, []byte(doc))) })
			if err == nil {
				c.Fail("damaged document accepted", "a malformed document is loaded without error\n%s", short(doc))
			}
		case 4:
			if len(insts) < 4 {
				ni := &confInst{docs: append([]string(nil), in.docs...)}
				c.Guard("Copy", opBudget, func() { ni.cf = in.cf.Copy() })
				insts = append(insts, ni)
			}
		case 5:
			c.loadDir(pr, in)
		case 6:
			c.sameConf(pr, in, "configuration differs", "configuration")
		}
	}
	for i, in := range insts {
		c.sameConf(pr, in, "configuration differs", fmt.Sprintf("configuration %d of %d (original and copies)", i, len(insts)))
	}
	vos.Use(nil)
}

// loadDir loads a directory on a failing machine.
func (c *Ctx) loadDir(pr *confProbes, in *confInst) {
	s := c.S("prog")
	fl := c.S("fault")
	bad := s.Chance(1, 4)
	d := genConfDir(s, "/conf", bad)
	docs := d.order("/conf")
	w := c.World()
	defer vos.Use(nil)
	d.install(w)
	blocked := ""
	if len(docs) > 0 && fl.Chance(1, 10) {
		blocked = docs[fl.Intn(len(docs))].path
		w.SetNoRead(blocked, true)
	}
	j := &inject{s: fl, short: true, rate: []int{0, 2, 8, 30}[fl.Intn(4)], max: 1 + fl.Intn(2), flipOK: func(vos.Op) bool { return false }}
	j.arm(w)
	var err error
	c.Guard("LoadFromDir", 4*opBudget, func() { err = in.cf.LoadFromDir([]string{"/conf", "/conf/"}[s.Intn(2)]) })
	if h := w.OpenHandles(); len(h) > 0 {
		c.Fail("handle leak", "LoadFromDir (error %v) leaves open %v", err, h)
	}
	w.Inject = nil
	if c.Faults(w) > 0 {
		c.NonTrivial()
	}
	c.Note("directory %v: error %v, failures %v", names(docs), err, j.hits)
	// the documents it must have stopped at
	limit := len(docs)
	why := ""
	for i, x := range docs {
		if x.path == blocked {
			limit, why = i, "unreadable"
			break
		}
		if strings.HasSuffix(x.doc, " ") && isInvalid(x.doc) {
			limit, why = i, "malformed"
			break
		}
	}
	if err == nil {
		if limit < len(docs) {
			c.Fail("damaged document accepted", "LoadFromDir returns no error although %s is %s\n%s", docs[limit].via, why, short(docs[limit].doc))
		}
		for _, x := range docs {
			in.docs = append(in.docs, x.doc)
		}
		c.sameConf(pr, in, "directory applied differently", fmt.Sprintf("after LoadFromDir of %v (failures %v)", names(docs), j.hits))
		return
	}
	if len(j.hits) == 0 && limit == len(docs) {
		c.Fail("valid configuration refused", "LoadFromDir of %v fails without any failure: %v", names(docs), err)
	}
	lo, hi := 0, limit
	if len(j.hits) == 0 {
		lo = limit
	} else if op := j.hits[0]; len(j.hits) == 1 && (op.Kind == "open" || op.Kind == "read") {
		for i, x := range docs {
			if x.path == op.Path && i <= limit {
				if i == limit || op.Kind == "open" {
					lo, hi = i, i
				} else {
					// a document whose end was read before the failure counts
					lo, hi = i, limit
				}
				break
			}
		}
	}
	got := c.ask(pr, in.cf)
	var match [][]string
	for k := lo; k <= hi; k++ {
		l := append([]string(nil), in.docs...)
		for _, x := range docs[:k] {
			l = append(l, x.doc)
		}
		if diffStrings(c.ask(pr, c.reference(l)), got) == "" {
			match = append(match, l)
		}
	}
	if len(match) > 0 {
		in.docs = match[0]
		if len(match) > 1 { // the probes do not tell which one it is: start again
			in.cf = c.reference(in.docs)
		}
		return
	}
	c.Fail("failed load changes the configuration", "LoadFromDir of %v fails (%v, failures %v) and the configuration is not the one holding the documents before the failing one", names(docs), err, j.hits)
}

func isInvalid(doc string) bool {
	for _, d := range invalidConfs {
		if doc == d+" " {
			return true
		}
	}
	return false
}

func names(docs []confDoc) (out []string) {
	for _, d := range docs {
		out = append(out, d.via)
	}
	return
}

var errEOF = io.EOF

func init() { register(&Prop{ID: "C06", Run: runC06}) }
