package main

import (
	"fmt"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

const opBudget = 600_000_000

// genSet builds a font set from scanned fonts and generated patterns.
func genSet(c *Ctx, s *Stream) fc.Fontset {
	var fs fc.Fontset
	if s.Chance(2, 3) {
		db := database("small", smallFonts)
		k := s.Range(0, len(db))
		off := s.Intn(len(db))
		for i := 0; i < k; i++ {
			fs = append(fs, db[(off+i)%len(db)])
		}
	}
	n := s.Intn(6)
	if s.Chance(1, 20) {
		n = s.Range(20, 120)
	}
	for i := 0; i < n; i++ {
		p := genPattern(s)
		if s.Chance(1, 3) {
			weaken(p)
		}
		fs = append(fs, p)
	}
	if s.Chance(1, 20) { // many short records: their limits fall everywhere
		for i, k := 0, s.Range(400, 2500); i < k; i++ {
			p := fc.NewPattern()
			for j := s.Intn(3); j > 0; j-- {
				o := allObjects[s.Intn(len(allObjects))]
				if o.kind == 'c' || o.kind == 'l' {
					o = objKind{fc.INDEX, 'i'}
				}
				p.Add(o.obj, genValue(s, o.kind), true)
			}
			fs = append(fs, p)
		}
	}
	// shuffle
	for i := len(fs) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		fs[i], fs[j] = fs[j], fs[i]
	}
	return fs
}

// setOrder picks the order in which unordered collections are enumerated.
func setOrder(s *Stream) {
	m := s.Intn(4)
	vsim.SetOrder(m, uint64(s.Intn(1<<16)))
}

// answers asks the library a few questions about a set.
func answers(c *Ctx, s *Stream, fs fc.Fontset) []string {
	var out []string
	for i := 0; i < 2; i++ {
		q := fc.NewPattern()
		q.AddString(fc.FAMILY, words[s.Intn(len(words))])
		if s.Chance(1, 2) {
			q.Add(fc.WEIGHT, fc.Float(float32(s.Intn(3))*100), true)
		}
		if s.Chance(1, 2) {
			q.Add(fc.CHARSET, genCharset(s), true)
		}
		if s.Chance(1, 2) {
			q.Add(fc.LANG, fc.NewLangset(langTags[s.Intn(len(langTags))]), true)
		}
		sorted, cs := fs.Sort(q, s.Chance(1, 2))
		out = append(out, dumpSet(sorted)...)
		out = append(out, dumpCharset(cs))
		out = append(out, dumpPattern(fs.Match(q, fc.NewConfig())))
	}
	l := fs.List(fc.NewPattern(), fc.FAMILY, fc.STYLE, fc.WEIGHT, fc.LANG)
	out = append(out, dumpSet(l)...)
	for _, p := range fs {
		out = append(out, fmt.Sprintf("%q", p.Hash()))
		if cs, ok := p.GetCharset(fc.CHARSET); ok {
			out = append(out, dumpCharset(cs))
		}
	}
	return out
}

// validForQueries tells if every value of p has the type its property wants
// with at least one value: what matching functions assume of a database.
func scannedOnly(fs fc.Fontset) fc.Fontset {
	var out fc.Fontset
	for _, p := range fs {
		if _, ok := p.GetString(fc.FILE); ok {
			if _, ok := p.GetCharset(fc.CHARSET); ok {
				if _, ok := p.GetString(fc.FONTFORMAT); ok {
					out = append(out, p)
				}
			}
		}
	}
	return out
}

func runC01(c *Ctx) {
	s := c.S("prog")
	io := c.S("io")
	ord := c.S("order")
	fs := genSet(c, s)
	want := dumpSet(fs)
	c.Note("set of %d patterns %x", len(fs), hashStrings(want))
	c.State(hashStrings(want))

	var first []string
	saves := s.Range(1, 3)
	for k := 0; k < saves; k++ {
		setOrder(ord)
		w := &memWriter{fail: -1}
		var err error
		c.Guard("Serialize", opBudget, func() { err = fs.Serialize(w) })
		if err != nil {
			c.Fail("save refused", "Serialize of %d patterns on a healthy stream: %v", len(fs), err)
		}
		c.Count("bytes saved", int64(len(w.buf)))
		if d := diffStrings(want, dumpSet(fs)); d != "" {
			c.Fail("saved set modified", "Serialize modified the set: %s", d)
		}
		setOrder(ord)
		var got fc.Fontset
		if io.Chance(1, 3) {
			wd := c.World()
			wd.PutFile("/cache/fonts", w.buf)
			wd.Inject = func(op vos.Op) vos.Fault {
				f := vos.NoFault
				if op.Kind == "read" && op.N > 1 && io.Chance(1, 2) {
					f.Name = "short read"
					f.Short = 1 + io.Intn(op.N-1)
				}
				return f
			}
			c.Guard("LoadFontsetFile", opBudget, func() { got, err = fc.LoadFontsetFile("/cache/fonts") })
			c.Faults(wd)
			if h := wd.OpenHandles(); len(h) > 0 {
				c.Fail("handle leak", "LoadFontsetFile leaves %v open", h)
			}
			vos.Use(nil)
		} else {
			r := newChunkReader(io, w.buf)
			c.Guard("LoadFontset", opBudget, func() { got, err = fc.LoadFontset(r) })
			c.Count(fmt.Sprintf("fault:stream chunking mode %d", r.mode), 1)
			if r.mode > 0 {
				c.NonTrivial()
			}
		}
		if err != nil {
			c.Fail("load refused", "loading a complete save fails: %v", err)
		}
		c.sameSet("loaded set differs", want, got, "loaded set")
		d := dumpSet(got)
		if first == nil {
			first = d
		} else if x := diffStrings(first, d); x != "" {
			c.Fail("saves differ", "two saves of the same set load differently: %s", x)
		}
		for i := range fs {
			if fs[i].Hash() != got[i].Hash() {
				c.Fail("hash differs", "pattern %d hashes differently once loaded:\n%s", i, want[i])
			}
		}
		if s.Chance(1, 2) {
			a, b := scannedOnly(fs), scannedOnly(got)
			vsim.SetOrder(0, 0)
			st := s.Sub() // the same questions to both
			var qa, qb []string
			c.Guard("queries", opBudget, func() {
				qa = answers(c, st(), a)
				qb = answers(c, st(), b)
			})
			if x := diffStrings(qa, qb); x != "" {
				c.Fail("answers differ", "the loaded set answers differently: %s", x)
			}
			c.Count("query comparisons", int64(len(qa)))
		}
	}
}

func init() { register(&Prop{ID: "C01", Run: runC01}) }
