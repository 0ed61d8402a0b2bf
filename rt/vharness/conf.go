package main

import (
	"fmt"
	"strings"
)

// Generated configuration documents.

type confGen struct {
	s    *Stream
	b    strings.Builder
	kind string // target of the match under way
}

var confStrings = []string{"family", "style", "foundry", "fullname", "verifone", "veriftwo"}
var confNumbers = []string{"size", "pixelsize", "aspect", "dpi", "slant", "spacing", "weight", "width", "hintstyle", "rgba"}
var confBools = []string{"antialias", "hinting", "autohint", "embolden", "outline", "scalable", "color", "variable"}
var numConsts = map[string][]string{"weight": {"bold", "light", "regular"}, "slant": {"italic", "roman"}, "width": {"condensed", "normal"}, "hintstyle": {"hintslight", "hintfull"}, "rgba": {"rgb", "none"}, "spacing": {"mono"}}

func (g *confGen) str() string {
	return append([]string{"Pair One", "Delta", "Gamma"}, words...)[g.s.Intn(3+len(words)-3)]
}

func (g *confGen) string() string {
	t := g.str()
	t = strings.ReplaceAll(t, "\x00", "")
	if t != "" && g.s.Chance(1, 8) {
		return "<string><![CDATA[" + t + "]]></string>"
	}
	if g.s.Chance(1, 10) {
		return "<string>" + xmlText(t) + "<!-- c --></string>"
	}
	return "<string>" + xmlText(t) + "</string>"
}

func (g *confGen) name(of []string) string {
	t := ""
	switch g.s.Intn(4) {
	case 1:
		t = ` target="pattern"`
	case 2:
		if g.kind != "pattern" {
			t = ` target="font"`
		}
	case 3:
		t = ` target="default"`
	}
	return "<name" + t + ">" + of[g.s.Intn(len(of))] + "</name>"
}

// expr writes an expression of the given type ('s', 'n', 'b', 'c', 'l', 'm').
func (g *confGen) expr(typ byte, prop string, depth int) string {
	s := g.s
	leaf := depth <= 0 || s.Chance(3, 5)
	bin := func(ops ...string) string {
		op := ops[s.Intn(len(ops))]
		return "<" + op + ">" + g.expr(typ, prop, depth-1) + g.expr(typ, prop, depth-1) + "</" + op + ">"
	}
	cond := func() string {
		return "<if>" + g.expr('b', "", depth-1) + "\n" + g.expr(typ, prop, depth-1) + g.expr(typ, prop, depth-1) + "</if>"
	}
	switch typ {
	case 's':
		if leaf {
			if s.Chance(1, 6) {
				return g.name(confStrings)
			}
			return g.string()
		}
		if s.Chance(1, 3) {
			return cond()
		}
		return bin("plus")
	case 'n':
		if leaf {
			switch c := numConsts[prop]; {
			case len(c) > 0 && s.Chance(1, 3):
				return "<const>" + c[s.Intn(len(c))] + "</const>"
			case s.Chance(1, 6):
				return g.name([]string{"pixelsize", "aspect", "dpi", "slant", "spacing"})
			case s.Chance(1, 3):
				return "<double>" + []string{"0", "12.5", "-3.25", "1e3", "0.1"}[s.Intn(5)] + "</double>"
			}
			return "<int>" + []string{"0", "1", "-1", "80", "200", "100", "12"}[s.Intn(7)] + "</int>"
		}
		switch s.Intn(3) {
		case 0:
			op := []string{"floor", "ceil", "round", "trunc"}[s.Intn(4)]
			return "<" + op + ">" + g.expr('n', "", depth-1) + "</" + op + ">"
		case 1:
			return cond()
		}
		return bin("plus", "minus", "times", "divide")
	case 'b':
		if leaf {
			if s.Chance(1, 5) {
				return g.name(confBools)
			}
			return "<bool>" + []string{"true", "false", "yes", "no", "dontcare"}[s.Intn(5)] + "</bool>"
		}
		switch s.Intn(4) {
		case 0:
			return "<not>" + g.expr('b', "", depth-1) + "</not>"
		case 1:
			op := []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}[s.Intn(8)]
			t := []byte("nsb")[s.Intn(3)]
			return "<" + op + ">" + g.expr(t, "", depth-1) + g.expr(t, "", depth-1) + "</" + op + ">"
		case 2:
			return cond()
		}
		return bin("or", "and")
	case 'c':
		if leaf {
			if s.Chance(1, 5) {
				return g.name([]string{"charset"})
			}
			out := "<charset>"
			for i := s.Range(1, 3); i > 0; i-- {
				a := []int{0x20, 0x41, 0x3B1, 0x4E00, 0x10FFFF - 50}[s.Intn(5)]
				if s.Chance(1, 2) {
					out += fmt.Sprintf("<int>%d</int>", a)
				} else {
					out += fmt.Sprintf("<range><int>%d</int><int>%d</int></range>", a, a+s.Intn(40))
				}
			}
			return out + "</charset>"
		}
		return bin("plus", "minus")
	case 'l':
		if leaf {
			if s.Chance(1, 6) {
				return g.name([]string{"lang"})
			}
			out := "<langset>"
			for i := s.Range(1, 3); i > 0; i-- {
				out += "<string>" + append([]string{"xx-yy", "verif"}, langTags...)[s.Intn(2+len(langTags))] + "</string>"
			}
			return out + "</langset>"
		}
		return bin("plus", "minus")
	case 'm':
		if leaf {
			if s.Chance(1, 6) {
				return g.name([]string{"matrix"})
			}
			out := "<matrix>"
			for i := 0; i < 4; i++ {
				out += g.expr('n', "", depth-2)
			}
			return out + "</matrix>"
		}
		return bin("times")
	}
	return ""
}

func (g *confGen) prop(custom bool) (string, byte) {
	s := g.s
	switch s.Weighted(6, 5, 3, 1, 2, 1) {
	case 0:
		l := confStrings
		if !custom {
			l = l[:4]
		}
		if s.Chance(1, 2) {
			return "family", 's'
		}
		return l[s.Intn(len(l))], 's'
	case 1:
		return confNumbers[s.Intn(len(confNumbers))], 'n'
	case 2:
		return confBools[s.Intn(len(confBools))], 'b'
	case 3:
		return "charset", 'c'
	case 4:
		return "lang", 'l'
	}
	return "matrix", 'm'
}

func (g *confGen) sp() string {
	return []string{"", "\n", "  ", "<!-- note -->", "\t\n", "<?pi x?>"}[g.s.Weighted(4, 4, 1, 1, 1, 1)]
}

func (g *confGen) test() string {
	s := g.s
	n, t := g.prop(true)
	a := fmt.Sprintf(" name=%q", n)
	if s.Chance(1, 2) {
		a += fmt.Sprintf(" compare=%q", []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}[s.Intn(8)])
	}
	if s.Chance(1, 2) {
		a += fmt.Sprintf(" qual=%q", []string{"any", "all", "first", "not_first"}[s.Intn(4)])
	}
	if s.Chance(1, 5) {
		a += fmt.Sprintf(" target=%q", []string{"pattern", "font", "default", "scan"}[s.Intn(4)])
	}
	if t == 's' && s.Chance(1, 4) {
		a += ` ignore-blanks="true"`
	}
	return "<test" + a + ">" + g.sp() + g.expr(t, n, 1) + g.sp() + "</test>"
}

func (g *confGen) edit() string {
	s := g.s
	n, t := g.prop(g.kind != "scan")
	mode := []string{"assign", "assign_replace", "prepend", "prepend_first", "append", "append_last", "delete", "delete_all"}[s.Intn(8)]
	a := fmt.Sprintf(" name=%q mode=%q", n, mode)
	if s.Chance(1, 3) {
		a += fmt.Sprintf(" binding=%q", []string{"weak", "strong", "same"}[s.Intn(3)])
	}
	body := ""
	if !strings.HasPrefix(mode, "delete") {
		for i := s.Weighted(1, 8, 3); i > 0; i-- {
			body += g.expr(t, n, 2) + g.sp()
		}
	}
	return "<edit" + a + ">" + body + "</edit>"
}

func (g *confGen) match() string {
	s := g.s
	g.kind = []string{"pattern", "font", "scan"}[s.Weighted(4, 2, 2)]
	out := "<match target=\"" + g.kind + "\">"
	if g.kind == "pattern" && s.Chance(1, 3) {
		out = "<match>"
	}
	nt := s.Intn(3)
	for i := 0; i < nt; i++ {
		out += g.sp() + g.test()
	}
	for i := s.Range(1, 3); i > 0; i-- {
		out += g.sp() + g.edit()
	}
	return out + g.sp() + "</match>"
}

func (g *confGen) alias() string {
	s := g.s
	g.kind = "pattern"
	a := ""
	if s.Chance(1, 3) {
		a = fmt.Sprintf(" binding=%q", []string{"weak", "strong", "same"}[s.Intn(3)])
	}
	out := "<alias" + a + ">" + g.sp() + "<family>" + xmlText(strings.ReplaceAll(g.str(), "\x00", "")) + "</family>"
	for _, k := range []string{"prefer", "accept", "default"} {
		if s.Chance(1, 2) {
			out += "<" + k + ">"
			for i := s.Range(1, 3); i > 0; i-- {
				out += g.sp() + "<family>" + xmlText(strings.ReplaceAll(g.str(), "\x00", "")) + "</family>"
			}
			out += "</" + k + ">"
		}
	}
	return out + "</alias>"
}

// genConf writes one valid document.
func genConf(s *Stream) string {
	g := &confGen{s: s}
	out := []string{"", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE fontconfig SYSTEM \"fonts.dtd\">\n"}[s.Intn(3)]
	out += "<fontconfig>"
	for i := s.Weighted(1, 4, 4, 3, 2); i > 0; i-- {
		out += g.sp()
		switch s.Weighted(6, 3, 2, 1) {
		case 0:
			out += g.match()
		case 1:
			out += g.alias()
		case 2:
			body := ""
			for j := s.Range(1, 2); j > 0; j-- {
				if s.Chance(1, 3) {
					body += "<glob>" + []string{"/fonts/alpha*", "*.pcf", "/fonts/*", "/fonts/sub/*"}[s.Intn(4)] + "</glob>"
				} else {
					body += selRule{elts: []elt{genElt(s)}}.xml()
				}
			}
			tag := []string{"rejectfont", "acceptfont"}[s.Intn(2)]
			out += "<selectfont><" + tag + ">" + body + "</" + tag + "></selectfont>"
		case 3:
			out += "<description>about</description>"
		}
	}
	return out + g.sp() + "</fontconfig>"
}

// genSelConf writes a document that only selects fonts, by their names.
func genSelConf(s *Stream) string {
	out := "<fontconfig>"
	for i := s.Range(1, 3); i > 0; i-- {
		tag := []string{"rejectfont", "acceptfont"}[s.Weighted(3, 1)]
		out += "<selectfont><" + tag + ">"
		for j := s.Range(1, 4); j > 0; j-- {
			switch s.Weighted(4, 1, 1) {
			case 0:
				out += "<pattern><patelt name=\"family\"><string>" + []string{"Alpha", "Beta", "Gamma", "Delta", "Delta Two", "Variable", "Pair One", "Pair Two", "None"}[s.Intn(9)] + "</string></patelt></pattern>"
			case 1:
				out += "<pattern><patelt name=\"style\"><string>" + []string{"Regular", "Bold", "Italic", "Narrow"}[s.Intn(4)] + "</string></patelt></pattern>"
			case 2:
				out += "<glob>" + []string{"/fonts/alpha-*", "/fonts/beta.ttf", "/fonts/delta?.ttf", "*.ttc", "/fonts/sub/*"}[s.Intn(5)] + "</glob>"
			}
		}
		out += "</" + tag + "></selectfont>"
	}
	return out + "</fontconfig>"
}

// invalidConfs are documents that must be refused.
var invalidConfs = []string{
	``,
	`   `,
	`plain text`,
	`<fontconfig>`,
	`<fontconfig><match></fontconfig>`,
	`<fontconfig><unknown/></fontconfig>`,
	`<fontconfig><match target="nowhere"><edit name="family" mode="assign"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"></match></fontconfig>`,
	`<fontconfig><match target="pattern"><string>x</string></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit mode="assign"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="family" mode="put"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="family" binding="loose"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="family" mode="delete"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="family" mode="assign"><int>4</int></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="size" mode="assign"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="weight" mode="assign"><const>nosuchconst</const></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="size" mode="assign"><int>4x</int></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="size" mode="assign"><double>--1</double></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="antialias" mode="assign"><bool>maybe</bool></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><edit name="family" mode="assign" color="red"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><match target="pattern"><test><string>x</string></test></match></fontconfig>`,
	`<fontconfig><match target="pattern"><test name="family"></test></match></fontconfig>`,
	`<fontconfig><match target="pattern"><test name="family"><string>x</string><string>y</string></test></match></fontconfig>`,
	`<fontconfig><match target="pattern"><test name="family" compare="like"><string>x</string></test></match></fontconfig>`,
	`<fontconfig><match target="pattern"><test name="family" qual="some"><string>x</string></test></match></fontconfig>`,
	`<fontconfig><match target="pattern"><test name="size"><string>x</string></test></match></fontconfig>`,
	`<fontconfig><match target="scan"><edit name="verifnew" mode="assign"><string>x</string></edit></match></fontconfig>`,
	`<fontconfig><alias><prefer><family>x</family></prefer></alias></fontconfig>`,
	`<fontconfig><alias><family>a</family><family>b</family><prefer><family>x</family></prefer></alias></fontconfig>`,
	`<fontconfig><alias><family>a</family><prefer><string>x</string></prefer></alias></fontconfig>`,
	`<fontconfig><alias binding="x"><family>a</family><prefer><family>x</family></prefer></alias></fontconfig>`,
	`<fontconfig><selectfont><rejectfont><string>x</string></rejectfont></selectfont></fontconfig>`,
	`<fontconfig><selectfont><rejectfont><pattern><string>x</string></pattern></rejectfont></selectfont></fontconfig>`,
	`<fontconfig><selectfont><rejectfont><pattern><patelt><string>x</string></patelt></pattern></rejectfont></selectfont></fontconfig>`,
	`<fontconfig><dir>/x</dir></fontconfig>`,
	`<fontconfig><include>/x</include></fontconfig>`,
	`<fontconfig><match><edit name="matrix" mode="assign"><matrix><int>1</int></matrix></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="matrix" mode="assign"><matrix><int>1</int><int>1</int><int>1</int><int>1</int><int>1</int></matrix></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="size" mode="assign"><range><int>2</int><int>1</int></range></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="charset" mode="assign"><charset><int>-4</int></charset></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="charset" mode="assign"><charset><string>a</string></charset></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="lang" mode="assign"><langset><int>1</int></langset></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="family" mode="assign"><name target="x">family</name></edit></match></fontconfig>`,
	`<fontconfig><match><edit name="antialias" mode="assign"><if><bool>true</bool><bool>true</bool></if></edit></match></fontconfig>`,
}

// mutate damages a document.
func mutateConf(s *Stream, doc string) string {
	b := []byte(doc)
	for k := 1 + s.Intn(3); k > 0 && len(b) > 0; k-- {
		switch s.Weighted(3, 2, 2, 2, 2) {
		case 0: // a byte changes
			b[s.Intn(len(b))] = []byte("<>/\"&x0-9 \x00\xff=")[s.Intn(13)]
		case 1: // a piece is lost
			a := s.Intn(len(b))
			l := 1 + s.Intn(mini(30, len(b)-a))
			b = append(b[:a:a], b[a+l:]...)
		case 2: // a piece is repeated
			a := s.Intn(len(b))
			l := 1 + s.Intn(mini(60, len(b)-a))
			b = append(b[:a+l:a+l], b[a:]...)
		case 3: // an element takes the place of another
			tags := []string{"int", "double", "string", "bool", "const", "name", "matrix", "range", "charset", "langset", "plus", "not", "if", "test", "edit", "family", "prefer", "pattern", "patelt", "glob", "match", "alias", "eq", "floor"}
			x, y := tags[s.Intn(len(tags))], tags[s.Intn(len(tags))]
			t := strings.ReplaceAll(string(b), "<"+x+">", "<"+y+">")
			b = []byte(strings.ReplaceAll(t, "</"+x+">", "</"+y+">"))
		case 4: // a number gets larger
			t := string(b)
			if i := strings.Index(t, "<int>"); i >= 0 {
				b = []byte(t[:i+5] + []string{"999999999999", "-1", "4294967295", "1114111", "2147483648", "", "1.5"}[s.Intn(7)] + t[i+5+strings.IndexByte(t[i+5:], '<'):])
			}
		}
	}
	return string(b)
}
