package main

import (
	"bytes"
	"fmt"
	"path"
	"path/filepath"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
)

// ---- selection rules, and what they mean ----

// elt is one condition on a property: every listed value must be found in the font.
type elt struct {
	name string
	vals []string // XML of the values
	ok   func(p fc.Pattern) bool
}

type selRule struct {
	accept bool
	glob   string // file rule
	isGlob bool
	elts   []elt
}

func (r selRule) xml() string {
	if r.isGlob {
		return "<glob>" + xmlText(r.glob) + "</glob>"
	}
	b := "<pattern>"
	for _, e := range r.elts {
		b += fmt.Sprintf("<patelt name=%q>%s</patelt>", e.name, strings.Join(e.vals, "\n "))
	}
	return b + "</pattern>"
}

func xmlText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (r selRule) matchFont(p fc.Pattern) bool {
	for _, e := range r.elts {
		if !e.ok(p) {
			return false
		}
	}
	return true
}

func sameName(a, b string) bool {
	n := strings.NewReplacer(" ", "", "\t", "")
	return n.Replace(strings.ToLower(a)) == n.Replace(strings.ToLower(b))
}

func hasString(o fc.Object, want string) func(p fc.Pattern) bool {
	return func(p fc.Pattern) bool {
		for _, v := range p.GetStrings(o) {
			if sameName(v, want) {
				return true
			}
		}
		return false
	}
}

func hasNumber(o fc.Object, want float32) func(p fc.Pattern) bool {
	return func(p fc.Pattern) bool {
		for i := 0; ; i++ {
			v, r := p.GetAt(o, i)
			if r != fc.ResultMatch {
				return false
			}
			switch v := v.(type) {
			case fc.Int:
				if float32(v) == want {
					return true
				}
			case fc.Float:
				if float32(v) == want {
					return true
				}
			case fc.Range:
				if v.Begin == want && v.End == want {
					return true
				}
			}
		}
	}
}

func both(a, b func(p fc.Pattern) bool) func(p fc.Pattern) bool {
	return func(p fc.Pattern) bool { return a(p) && b(p) }
}

func genElt(s *Stream) elt {
	fam := func() string {
		f := append(append([]string{}, specFamilies...), "Gamma", "Delta", "Pair One", "Pair Two", "Variable", "Alpha", "Rewritten")[s.Intn(len(specFamilies)+7)]
		switch s.Intn(5) {
		case 0:
			return strings.ToUpper(f)
		case 1:
			return f + " "
		}
		return f
	}
	str := func(name string, o fc.Object, v string) elt {
		return elt{name, []string{"<string>" + xmlText(v) + "</string>"}, hasString(o, v)}
	}
	num := func(name string, o fc.Object, v int) elt {
		return elt{name, []string{fmt.Sprintf("<int>%d</int>", v)}, hasNumber(o, float32(v))}
	}
	switch s.Weighted(6, 2, 2, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1) {
	case 0:
		return str("family", fc.FAMILY, fam())
	case 1:
		return str("style", fc.STYLE, []string{"Regular", "bold", "Plain", "Text"}[s.Intn(4)])
	case 2:
		return str("fontformat", fc.FONTFORMAT, []string{"TrueType", "CFF", "PCF", "Type 1"}[s.Intn(4)])
	case 3:
		w := []int{0, 40, 50, 80, 100, 180, 200, 205, 210}[s.Intn(9)]
		e := num("weight", fc.WEIGHT, w)
		if w == 200 && s.Chance(1, 2) {
			e.vals[0] = "<const>bold</const>"
		}
		if s.Chance(1, 4) {
			e.vals[0] = fmt.Sprintf("<double>%d.0</double>", w)
		}
		return e
	case 4:
		if s.Chance(1, 2) {
			return elt{"slant", []string{"<const>italic</const>"}, hasNumber(fc.SLANT, 100)}
		}
		return num("slant", fc.SLANT, 0)
	case 5:
		return num("index", fc.INDEX, []int{0, 1, 1 << 16}[s.Intn(3)])
	case 6:
		return num("width", fc.WIDTH, []int{50, 75, 100, 125}[s.Intn(4)])
	case 7:
		o, n := fc.VARIABLE, "variable"
		switch s.Intn(4) {
		case 1:
			o, n = fc.OUTLINE, "outline"
		case 2:
			o, n = fc.SCALABLE, "scalable"
		case 3:
			o, n = fc.COLOR, "color"
		}
		want := fc.Bool(s.Intn(2))
		return elt{n, []string{"<bool>" + []string{"false", "true"}[want] + "</bool>"}, func(p fc.Pattern) bool {
			for i := 0; ; i++ {
				v, r := p.GetAt(o, i)
				if r != fc.ResultMatch {
					return false
				}
				if b, ok := v.(fc.Bool); ok && (b == want || b >= fc.DontCare) {
					return true
				}
			}
		}}
	case 8:
		tag := []string{"fr", "de", "ru", "el", "ar", "he", "ja"}[s.Intn(7)]
		return elt{"lang", []string{"<string>" + tag + "</string>"}, func(p fc.Pattern) bool {
			for i := 0; ; i++ {
				v, r := p.GetAt(fc.LANG, i)
				if r != fc.ResultMatch {
					return false
				}
				if l, ok := v.(fc.Langset); ok {
					for _, t := range strings.Split(l.String(), "|") {
						if t == tag {
							return true
						}
					}
				}
			}
		}}
	case 9: // a property no font has
		return elt{"verifcustom", []string{"<string>x</string>"}, func(fc.Pattern) bool { return false }}
	case 10: // several values: all are needed
		a, b := fam(), fam()
		return elt{"family", []string{"<string>" + xmlText(a) + "</string>", "<string>" + xmlText(b) + "</string>"}, both(hasString(fc.FAMILY, a), hasString(fc.FAMILY, b))}
	case 11: // the language of names is not a property of fonts: ignored
		return elt{"namelang", []string{"<string>en</string>"}, func(fc.Pattern) bool { return true }}
	default:
		r := []rune{'A', 'z', 0x3B1, 0x5D0, 0x20, 0x100}[s.Intn(6)]
		return elt{"charset", []string{fmt.Sprintf("<charset><int>%d</int></charset>", r)}, func(p fc.Pattern) bool {
			cs, ok := p.GetCharset(fc.CHARSET)
			return ok && cs.HasChar(r)
		}}
	}
}

func genRules(s *Stream, paths []string) []selRule {
	var out []selRule
	for i := s.Intn(5); i > 0; i-- {
		r := selRule{accept: s.Chance(2, 5)}
		if s.Chance(2, 5) {
			r.isGlob = true
			switch s.Weighted(3, 2, 2, 2, 1, 1, 1, 1) {
			case 0:
				if len(paths) > 0 {
					r.glob = paths[s.Intn(len(paths))]
				}
			case 1:
				if len(paths) > 0 {
					r.glob = path.Dir(paths[s.Intn(len(paths))]) + "/*"
				}
			case 2:
				r.glob = "/t1/*.ttf"
			case 3:
				r.glob = "/t?/[a-c]*"
			case 4:
				r.glob = "["
			case 5:
				r.glob = "*"
			case 6:
				r.glob = "*.ttf"
			case 7:
				r.glob = "/*/*/*"
			}
		} else {
			n := s.Weighted(1, 9, 6, 2)
			for j := 0; j < n; j++ {
				r.elts = append(r.elts, genElt(s))
			}
		}
		out = append(out, r)
	}
	return out
}

const scanRule = `<match target="scan"><test name="family"><string>Alpha</string></test><edit name="family" mode="assign"><string>Rewritten</string></edit></match>
<match target="scan"><test name="weight" compare="more"><int>190</int></test><edit name="slant" mode="assign"><int>100</int></edit></match>`

// docs splits the rules into documents.
func genDocs(s *Stream, rules []selRule, scan bool) []string {
	var docs []string
	cur := ""
	flush := func() {
		docs = append(docs, "<?xml version=\"1.0\"?>\n<fontconfig>"+cur+"</fontconfig>")
		cur = ""
	}
	if scan {
		cur = scanRule
	}
	for i := 0; i < len(rules); {
		kind := rules[i].accept
		body := ""
		for i < len(rules) && rules[i].accept == kind {
			body += rules[i].xml()
			i++
			if s.Chance(1, 2) {
				break
			}
		}
		tag := "rejectfont"
		if kind {
			tag = "acceptfont"
		}
		body = "<" + tag + ">" + body + "</" + tag + ">"
		if s.Chance(4, 5) {
			body = "<selectfont>" + body + "</selectfont>"
		}
		cur += body
		if s.Chance(1, 3) {
			flush()
		}
	}
	flush()
	return docs
}

// verdict applies the rules: accept wins over reject.
func verdict(rules []selRule, match func(r selRule) bool) bool {
	for _, r := range rules {
		if r.accept && match(r) {
			return true
		}
	}
	for _, r := range rules {
		if !r.accept && match(r) {
			return false
		}
	}
	return true
}

func acceptedFile(rules []selRule, p string) bool {
	return verdict(rules, func(r selRule) bool {
		ok, _ := filepath.Match(r.glob, p)
		return r.isGlob && ok
	})
}

func acceptedFace(rules []selRule, p fc.Pattern) bool {
	return verdict(rules, func(r selRule) bool { return !r.isGlob && r.matchFont(p) })
}

func (c *Ctx) load(cf *fc.Config, s *Stream, doc string) {
	var err error
	c.Guard("LoadFromMemory", opBudget, func() { err = cf.LoadFromMemory(newChunkReader(s, []byte(doc))) })
	if err != nil {
		c.Fail("valid configuration refused", "%v\n%s", err, doc)
	}
}

func runC05(c *Ctx) {
	s := c.S("prog")
	fl := c.S("fault")
	io := c.S("io")
	t := genTree(s)
	dirs := genDirs(s, t)
	fnd := t.walk(dirs)
	var paths []string
	for _, f := range fnd {
		paths = append(paths, f.path)
	}
	rules := genRules(s, paths)
	scan := s.Chance(1, 3)
	docs := genDocs(s, rules, scan)
	cf := fc.NewConfig()
	for _, d := range docs {
		c.load(cf, io, d)
		if s.Chance(1, 6) { // use it between two loads
			vos.Use(nil)
			c.Guard("ScanFontRessource", 4*opBudget, func() { cf.ScanFontRessource(bytes.NewReader(smallFonts[0].Data()), "/x") })
		}
	}
	if s.Chance(1, 3) {
		c.Guard("Copy", opBudget, func() { cf = cf.Copy() })
	}
	edits := fc.NewConfig() // the scan rules, without the selection
	if scan {
		c.load(edits, io, "<fontconfig>"+scanRule+"</fontconfig>")
	}
	// what each file holds, once edited, and what is selected
	type filePats struct {
		all, kept []string
		inst      []bool
	}
	perFile := map[string]*filePats{}
	healthy := vos.NewWorld()
	vos.Use(healthy)
	for _, f := range fnd {
		if perFile[f.path] != nil || f.e.data == nil && f.e.kind != "empty" {
			continue
		}
		fp := &filePats{}
		var fs fc.Fontset
		c.Guard("ScanFontRessource", 4*opBudget, func() { fs, _ = edits.ScanFontRessource(bytes.NewReader(f.e.data), f.path) })
		for _, p := range fs {
			d := dumpPattern(p)
			fp.all = append(fp.all, d)
			ok := acceptedFace(rules, p)
			fp.inst = append(fp.inst, ok)
			if ok {
				fp.kept = append(fp.kept, d)
			}
		}
		perFile[f.path] = fp
		c.State(mix(uint64(len(fp.all)), uint64(len(fp.kept))))
		if len(fp.kept) < len(fp.all) {
			c.Count("files with rejected faces", 1)
			c.NonTrivial()
		}
	}
	var want []string
	for _, f := range fnd {
		fp := perFile[f.path]
		if fp == nil {
			continue
		}
		if !acceptedFile(rules, f.path) {
			c.Count("files rejected by name", 1)
			c.NonTrivial()
			continue
		}
		want = append(want, fp.kept...)
	}
	h := uint64(len(rules))
	for _, r := range rules {
		h = mix(h, hashStr(r.xml()))
	}
	for _, w := range want {
		h = mix(h, hashStr(w))
	}
	c.State(h)
	c.Note("%d rules, %d files, %d faces selected", len(rules), len(fnd), len(want))
	w := c.World()
	t.install(w)
	check := func(what string, want []string, got fc.Fontset) {
		if d := diffStrings(want, dumpSet(got)); d != "" {
			c.Fail("selection differs", "%s: %s\nrules:\n%s", what, d, strings.Join(docs, "\n"))
		}
	}
	for n := s.Range(2, 6); n > 0; n-- {
		setOrder(c.S("order"))
		var got fc.Fontset
		var err error
		switch k := s.Weighted(4, 3, 3, 1, 2); {
		case k == 0:
			c.Guard("ScanFontDirectories", 4*opBudget, func() { got, err = cf.ScanFontDirectories(dirs...) })
			if err != nil {
				c.Fail("scan refused", "scanning %v: %v", dirs, err)
			}
			check(fmt.Sprintf("scanning %v", dirs), want, got)
		case k == 1 || k == 2:
			if len(fnd) == 0 {
				continue
			}
			f := fnd[s.Intn(len(fnd))]
			fp := perFile[f.path]
			if fp == nil {
				continue
			}
			if k == 1 {
				c.Guard("ScanFontFile", 4*opBudget, func() { got, err = cf.ScanFontFile(f.path) })
			} else {
				c.Guard("ScanFontRessource", 4*opBudget, func() { got, err = cf.ScanFontRessource(bytes.NewReader(f.e.data), f.path) })
			}
			if len(fp.all) == 0 {
				if err == nil {
					c.Fail("invalid font accepted", "scanning %s, which holds no font, returns no error", f.path)
				}
				check("scanning "+f.path, nil, got)
				continue
			}
			if err != nil && len(fp.kept) > 0 {
				c.Fail("scan refused", "scanning %s: %v", f.path, err)
			}
			check("scanning "+f.path, fp.kept, got)
		case k == 3:
			c.Guard("Copy", opBudget, func() { cf = cf.Copy() })
		default: // on a failing machine, nothing rejected gets in
			j := &inject{s: fl, rate: []int{3, 20, 100}[fl.Intn(3)], max: 1 + fl.Intn(3), flipOK: func(vos.Op) bool { return false }}
			j.arm(w)
			c.Guard("ScanFontDirectories", 4*opBudget, func() { got, err = cf.ScanFontDirectories(dirs...) })
			w.Inject = nil
			if c.Faults(w) > 0 {
				c.NonTrivial()
			}
			if err != nil {
				continue
			}
			// a file hit by a failure may be missing or described in part:
			// only the others are judged
			dg := dumpSet(got)
			hit := map[string]bool{}
			for _, f := range fnd {
				if hitFile(t, f, j.hits) {
					hit[f.path] = true
				}
			}
			var left, exp []string
			for i, p := range got {
				if f, _ := p.GetString(fc.FILE); !hit[f] {
					left = append(left, dg[i])
				} else if !acceptedFile(rules, f) {
					c.Fail("rejected file present", "on a failing machine, the scan returns a face of %s, rejected by name\nrules:\n%s", f, strings.Join(docs, "\n"))
				}
			}
			for _, f := range fnd {
				if fp := perFile[f.path]; fp != nil && !hit[f.path] && acceptedFile(rules, f.path) {
					exp = append(exp, fp.kept...)
				}
			}
			if d := diffStrings(exp, left); d != "" {
				c.Fail("selection differs on a failing machine", "files not concerned by the failures (%v): %s\nrules:\n%s", j.hits, d, strings.Join(docs, "\n"))
			}
		}
	}
	vos.Use(nil)
}

func init() { register(&Prop{ID: "C05", Run: runC05}) }
