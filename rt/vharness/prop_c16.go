package main

// C16: default languages, in processes of their own.

import (
	"fmt"
	"os"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C16", Fresh: true, Run: runC16}) }

// what the tags found in lists and locales mean
var c16Tags = []struct {
	tag   string
	fc    string // for font queries, "" when it is ignored
	pango string // for layouts, as a preferred language
}{
	{"fr", "fr", "fr"}, {"en", "en", "en"}, {"fr_FR", "fr", "fr-fr"}, {"en_US", "en", "en-us"}, {"zh_TW", "zh-tw", "zh-tw"},
	{"zh-hk", "zh-hk", "zh-hk"}, {"de", "de", "de"}, {"C", "en", ""}, {"POSIX", "en", "posix"}, {"fa", "fa", "fa"}, {"ar", "ar", "ar"},
	{"ru", "ru", "ru"}, {"ja", "ja", "ja"}, {"el", "el", "el"}, {"he", "he", "he"}, {"FR", "fr", "fr"}, {"sr", "sr", "sr"}, {"uk", "uk", "uk"},
	{"english", "", "english"}, {"e", "", "e"}, {"xyz", "xyz", "xyz"}, {"fr_F", "", "fr-f"}, {"ur", "ur", "ur"}, {"ku_TR", "ku-tr", "ku-tr"},
	{"de_DE@euro", "de", "de-de-euro"}, {"ja_JP", "ja", "ja-jp"},
}

// scripts in which the languages above are written, among those of c16Texts
var c16Scripts = map[string]string{
	"fr": "L", "en": "L", "de": "L", "fa": "A", "ar": "A", "ur": "A", "ru": "C", "uk": "C", "sr": "C", "ja": "HJ", "el": "G", "he": "W", "zh": "H", "ku-tr": "L",
}

var c16Texts = []struct {
	script string
	text   string
	sample string // the language when none is preferred
}{
	{"A", "سلام", "ar"}, {"C", "Привет", "ru"}, {"L", "abc", "en"}, {"G", "αβγ", "el"}, {"W", "שלום", "he"}, {"H", "漢字", "xx"}, {"J", "ひらがな", "ja"},
}

// c16Env is the environment.
type c16Env struct {
	vars  map[string]string
	langs []int  // tags of the variable which decides for font queries
	pref  []int  // tags of the preferred languages
	def   string // default language of layouts
	loose bool   // def is not settled by the documentation
}

var c16Names = []string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG", "PANGO_LANGUAGE", "LANGUAGE"}

func genC16Env(s *Stream) *c16Env {
	e := &c16Env{vars: map[string]string{}}
	lists := map[string][]int{}
	for _, n := range c16Names {
		switch s.Weighted(3, 4, 1) {
		case 0:
			continue
		case 2:
			e.vars[n] = ""
			lists[n] = nil
			continue
		}
		max := 4
		sep := ":"
		if n == "LC_ALL" || n == "LC_CTYPE" || n == "LANG" {
			max = 1
			if s.Chance(1, 4) {
				max = 3
			}
		}
		k := s.Range(1, max)
		var v strings.Builder
		var l []int
		for i := 0; i < k; i++ {
			if i > 0 {
				if n == "PANGO_LANGUAGE" || n == "LANGUAGE" {
					sep = []string{":", ";", ",", " ", "\t", "::", ", "}[s.Intn(7)]
				} else if s.Chance(1, 8) {
					sep = "::"
				} else {
					sep = ":"
				}
				v.WriteString(sep)
			}
			t := s.Intn(len(c16Tags))
			v.WriteString(c16Tags[t].tag)
			l = append(l, t)
			posix := n != "PANGO_LANGUAGE" && n != "LANGUAGE"
			if (max == 1 && s.Chance(1, 2) || posix && s.Chance(1, 4)) && c16Tags[t].fc != "" && c16Tags[t].fc != "xyz" && !strings.Contains(c16Tags[t].tag, "@") && c16Tags[t].tag != "POSIX" {
				v.WriteString([]string{".UTF-8", ".utf8"}[s.Intn(2)])
			}
		}
		if s.Chance(1, 8) {
			v.WriteString(":")
		}
		e.vars[n] = v.String()
		lists[n] = l
	}
	for _, n := range c16Names[:4] {
		if e.vars[n] != "" {
			e.langs = lists[n]
			break
		}
	}
	for _, n := range c16Names[4:] {
		if _, ok := e.vars[n]; ok {
			e.pref = lists[n]
			break
		}
	}
	for _, n := range c16Names[1:4] {
		v, ok := e.vars[n]
		if ok && v == "" {
			e.loose = true
		}
		if v != "" {
			if strings.Contains(v, ":") {
				e.loose = true
			}
			e.def = string(pango.Language(canonLang(strings.SplitN(v, ".", 2)[0])))
			break
		}
	}
	return e
}

// canonLang writes a locale as a language.
func canonLang(s string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(s) {
		switch {
		case r == '_' || r == '@':
			b.WriteByte('-')
		case r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-':
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (e *c16Env) install(w *vos.World) {
	// both as seen by the library and, for the parts which are not simulated, by the process
	w.Env = map[string]string{}
	for _, n := range c16Names {
		v, ok := e.vars[n]
		if !ok {
			os.Unsetenv(n)
			continue
		}
		os.Setenv(n, v)
		w.Env[n] = v
	}
}

func (e *c16Env) String() string {
	var l []string
	for _, n := range c16Names {
		if v, ok := e.vars[n]; ok {
			l = append(l, fmt.Sprintf("%s=%q", n, v))
		}
	}
	return strings.Join(l, " ")
}

// wantLangs are the languages of font queries.
func (e *c16Env) wantLangs() []string {
	var out []string
	seen := map[string]bool{}
	for _, t := range e.langs {
		if l := c16Tags[t].fc; l != "" && !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	if len(out) == 0 {
		out = []string{"en"}
	}
	return out
}

// includes tells if a language may be written in a script.
func includes(lang, script string) bool {
	if i := strings.IndexByte(lang, '-'); i >= 0 && lang[:i] != "ku" {
		lang = lang[:i]
	}
	sc, ok := c16Scripts[lang]
	return !ok || strings.Contains(sc, script)
}

// wantScript is the language of a piece of text in a script.
func (e *c16Env) wantScript(lang string, text int) string {
	t := c16Texts[text]
	if lang != "" && includes(lang, t.script) {
		return lang
	}
	for _, p := range e.pref {
		if l := c16Tags[p].pango; l != "" && includes(l, t.script) {
			return l
		}
	}
	return t.sample
}

type c16Ask struct {
	kind int
	text []int
	lang string
	ans  []string
}

func (a *c16Ask) String() string { return fmt.Sprintf("%s %v %q", c16Kinds[a.kind], a.text, a.lang) }

var c16Kinds = []string{"Substitute", "SubstituteDefault", "List", "Itemize", "new context", "Layout", "Match"}

func (a *c16Ask) run(cf *fc.Config, fm *fcfonts.FontMap, fams fc.Fontset) {
	switch a.kind {
	case 0:
		p := fc.NewPattern()
		cf.Substitute(p, nil, fc.MatchQuery)
		for i := 0; ; i++ {
			v, r := p.GetAt(fc.LANG, i)
			if r != fc.ResultMatch {
				break
			}
			a.ans = append(a.ans, fmt.Sprint(v))
		}
	case 1:
		p := fc.NewPattern()
		p.SubstituteDefault()
		l, _ := p.GetString(fc.NAMELANG)
		a.ans = []string{l}
	case 2:
		for _, p := range fams.List(fc.NewPattern(), fc.FAMILY) {
			l, _ := p.GetString(fc.FAMILY)
			a.ans = append(a.ans, l)
		}
	case 3, 5:
		ctx := pango.NewContext(fm)
		ctx.SetLanguage(pango.Language(a.lang))
		var text []rune
		for i, t := range a.text {
			if i > 0 {
				text = append(text, '\n')
			}
			text = append(text, []rune(c16Texts[t].text)...)
		}
		at := func(l pango.Language, start int) {
			pos := 0
			for _, t := range a.text {
				if start == pos {
					a.ans = append(a.ans, string(l))
				}
				pos += len([]rune(c16Texts[t].text)) + 1
			}
		}
		if a.kind == 3 {
			for it := ctx.Itemize(text, 0, len(text), nil); it != nil; it = it.Next {
				at(it.Data.Analysis.Language, it.Data.Offset)
			}
			return
		}
		l := pango.NewLayout(ctx)
		l.SetText(string(text))
		for _, line := range l.GetLinesReadonly() {
			for run := line.Runs; run != nil; run = run.Next {
				at(run.Data.Item.Analysis.Language, run.Data.Item.Offset)
			}
		}
	case 4:
		a.ans = []string{string(pango.DefaultLanguage())}
		text := []rune(c16Texts[a.text[0]].text)
		for it := pango.NewContext(fm).Itemize(text, 0, len(text), nil); it != nil; it = it.Next {
			a.ans = append(a.ans, string(it.Data.Analysis.Language))
		}
	case 6:
		// the languages asked and the name language of what is matched
		p := fc.NewPattern()
		cf.Substitute(p, nil, fc.MatchQuery)
		p.SubstituteDefault()
		m := fams.Match(p, cf)
		l, _ := m.GetString(fc.FAMILY)
		a.ans = []string{l}
	}
}

func runC16(c *Ctx) {
	e := c.S("env")
	s := c.S("run")
	w := c.World()
	env := genC16Env(e)
	c.Note("environment: %s", env)
	env.install(w)

	cf := fc.NewConfig()
	// one font whose name is given in every language
	fam := fc.NewPattern()
	langs := env.wantLangs()
	names := []string{"en", "fr", "ru", "ja", "zh-tw", "de", "el"}
	for i := len(names) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	names = names[:s.Range(1, len(names))]
	hasDefault := false
	for _, l := range names {
		hasDefault = hasDefault || l == langs[0]
	}
	if !hasDefault {
		names = append(names, langs[0])
	}
	for _, l := range names {
		fam.AddString(fc.FAMILY, "family "+l)
		fam.AddString(fc.FAMILYLANG, l)
	}
	fams := fc.Fontset{fam}
	newMap := func() *fcfonts.FontMap { return fcfonts.NewFontMap(cf, nil) }

	langsKnown, prefKnown := false, false
	current := env
	waves := s.Range(1, 3)
	for wave := 0; wave < waves; wave++ {
		if wave > 0 && s.Chance(2, 3) {
			// the process changes its own environment: what was determined stays
			current = genC16Env(e)
			c.Note("environment: %s", current)
			current.install(w)
			if !langsKnown {
				env.langs = current.langs
				fam = fc.NewPattern()
				for _, l := range append(names, env.wantLangs()[0]) {
					fam.AddString(fc.FAMILY, "family "+l)
					fam.AddString(fc.FAMILYLANG, l)
				}
				fams = fc.Fontset{fam}
			}
			if !prefKnown {
				env.pref = current.pref
			}
		}
		tasks := make([][]*c16Ask, s.Range(1, 3))
		var fns []func()
		for i := range tasks {
			fm := newMap()
			l := make([]*c16Ask, s.Range(1, 3))
			for j := range l {
				a := &c16Ask{kind: s.Weighted(3, 2, 2, 4, 2, 2, 1)}
				for k := s.Range(1, 3); k > 0; k-- {
					t := s.Intn(len(c16Texts))
					if n := len(a.text); n > 0 && a.text[n-1] == t { // would be one item
						t = (t + 1) % len(c16Texts)
					}
					a.text = append(a.text, t)
				}
				a.lang = []string{"en", "ru", "", "fa", "xyz", "fr-fr"}[s.Intn(6)]
				if current.loose {
					// what a locale that is not one means is not settled
					if a.kind == 4 {
						a.kind = 3
					}
					if a.lang == "" {
						a.lang = "en"
					}
				}
				l[j] = a
				c.Note("wave %d task %d: %s", wave, i, a)
			}
			tasks[i] = l
			fns = append(fns, func() {
				for _, a := range l {
					a.run(cf, fm, fams)
				}
			})
		}
		c.Parallel(fmt.Sprintf("wave %d", wave), 1e8, fns...)
		def := current.def
		for i, l := range tasks {
			for _, a := range l {
				var want []string
				switch a.kind {
				case 0:
					want, langsKnown = env.wantLangs(), true
				case 1:
					want, langsKnown = env.wantLangs()[:1], true
				case 2, 6:
					want, langsKnown = []string{"family " + env.wantLangs()[0]}, true
				case 3, 5:
					langsKnown = true
					for _, t := range a.text {
						lang := a.lang
						if lang == "" {
							lang = def
						}
						if !includes(lang, c16Texts[t].script) || lang == "" {
							prefKnown = true
						}
						want = append(want, env.wantScript(lang, t))
					}
				case 4:
					if !includes(def, c16Texts[a.text[0]].script) || def == "" {
						prefKnown = true
					}
					langsKnown = true
					want = []string{def, env.wantScript(def, a.text[0])}
				}
				c.State(hashStrings(append([]string{a.String(), env.String()}, a.ans...)))
				if strings.Join(a.ans, "|") != strings.Join(want, "|") {
					c.Fail("wrong default language: "+c16Kinds[a.kind], "environment %s (at first %s)\ntask %d, %s: obtained %q, expected %q", current, env, i, a, a.ans, want)
				}
			}
		}
	}
	c.NonTrivial()
}
