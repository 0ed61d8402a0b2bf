package main

// What the checks of layout share: the font environment, generated settings
// and the operations that change them, and the full report of a layout made
// through the public interface.

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/benoitkugler/textlayout/fonts"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

const pu = 1024 // Pango units

// ---------------------------------------------------------------- fonts

// layFonts is what layout runs have at hand.
var layFonts = func() []namedFont {
	var l []namedFont
	l = append(l, bigFonts...)
	l = append(l, smallFonts[:12]...)
	return l
}()

type dbChoice struct {
	key  string
	list []namedFont
}

var layDBs = []dbChoice{
	{"lay", layFonts},
	{"big", bigFonts},
	{"small", smallFonts},
	{"two", []namedFont{smallFonts[0], smallFonts[4]}},
	{"variable", []namedFont{smallFonts[8], smallFonts[0], smallFonts[5]}},
}

var layConfs = []string{
	``,
	`<fontconfig>
<alias><family>serif</family><prefer><family>Liberation Sans</family><family>Alpha</family></prefer></alias>
<alias><family>sans</family><prefer><family>DejaVu Sans</family><family>Beta</family></prefer></alias>
<alias binding="same"><family>monospace</family><prefer><family>Go Mono</family></prefer></alias>
</fontconfig>`,
	`<fontconfig>
<match target="pattern"><test name="family"><string>serif</string></test><edit name="family" mode="prepend" binding="strong"><string>Gamma</string></edit></match>
<match target="pattern"><test name="lang" compare="contains"><string>ja</string></test><edit name="family" mode="prepend" binding="strong"><string>Delta</string></edit></match>
<match target="font"><test name="family"><string>Alpha</string></test><edit name="fontfeatures" mode="append"><string>kern=0</string></edit></match>
<match target="font"><test name="family"><string>Beta</string></test><edit name="matrix" mode="assign"><times><name>matrix</name><matrix><double>1</double><double>0.2</double><double>0</double><double>1</double></matrix></times></edit></match>
</fontconfig>`,
}

func layConfig(i int) *fc.Config {
	cf := fc.NewConfig()
	if layConfs[i] != "" {
		if err := cf.LoadFromMemory(strings.NewReader(layConfs[i])); err != nil {
			harnessBug("layConfs[%d]: %v", i, err)
		}
	}
	return cf
}

// sharedFaces opens faces once per process: what a face loader given by an
// application may do. Variable fonts are opened anew each time, since their
// settings are held by the face.
type sharedFaces struct{}

var faceCache = map[fonts.FaceID]fonts.Face{}

var layFontData = func() map[string]func() []byte {
	m := map[string]func() []byte{}
	for _, f := range append(append([]namedFont(nil), bigFonts...), smallFonts...) {
		m[f.Path] = f.Data
	}
	return m
}()

func (sharedFaces) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	if f := faceCache[key]; f != nil {
		return f, nil
	}
	data, ok := layFontData[key.File]
	if !ok {
		return nil, fmt.Errorf("unknown font file %s", key.File)
	}
	loader := format.Loader()
	if loader == nil {
		return nil, fmt.Errorf("unsupported format")
	}
	faces, err := loader(bytes.NewReader(data()))
	if err != nil {
		return nil, err
	}
	if int(key.Index) >= len(faces) {
		return nil, fmt.Errorf("index out of range")
	}
	f := faces[key.Index]
	if key.File != "/fonts/var.ttf" {
		faceCache[key] = f
	}
	return f, nil
}

// layEnv makes font maps, all alike.
type layEnv struct {
	db, cf int
	loader fcfonts.FaceLoader // nil: from the simulated storage
}

func genEnv(c *Ctx, s *Stream) layEnv {
	e := layEnv{db: s.Weighted(6, 2, 3, 1, 1), cf: s.Weighted(2, 4, 1)}
	e.loader = sharedFaces{}
	if s.Chance(1, 8) {
		e.loader = nil
		if e.db < 2 && !s.Chance(1, 4) {
			e.db = 2 // smaller files
		}
	}
	return e
}

// world puts the font files on a new machine.
func (e layEnv) world(c *Ctx) *vos.World {
	w := c.World()
	if e.loader == nil {
		for _, f := range layDBs[e.db].list {
			w.PutFile(f.Path, f.Data())
		}
	}
	return w
}

func (e layEnv) fontMap() *fcfonts.FontMap {
	d := layDBs[e.db]
	fm := fcfonts.NewFontMap(layConfig(e.cf), database(d.key, d.list))
	if e.loader != nil {
		fm.SetFaceLoader(e.loader)
	}
	return fm
}

// ---------------------------------------------------------------- settings

var layFamilies = []string{"", "serif", "sans", "Alpha", "Beta", "DejaVu Sans", "Liberation Sans", "Gamma", "Delta,Alpha", "Variable", "monospace", "Nothing", "Go Mono", "Pair One", "alpha", "Fixed"}

func genDesc(s *Stream) pango.FontDescription {
	d := pango.NewFontDescription()
	if f := layFamilies[s.Intn(len(layFamilies))]; f != "" {
		d.SetFamily(f)
	}
	if s.Chance(3, 4) {
		switch s.Intn(8) {
		case 0:
			d.SetAbsoluteSize(16 * pu)
		case 1:
			d.SetAbsoluteSize(int32(s.Range(0, 40)) * pu)
		case 2:
			d.SetSize(int32(s.Range(1, 60) * 341))
		case 3:
			d.SetSize([]int32{0, 1, 12*pu + 1, 200 * pu, 12*pu - 1}[s.Intn(5)])
		default:
			d.SetSize([]int32{12, 10, 8, 20}[s.Intn(4)] * pu)
		}
	}
	if s.Chance(1, 3) {
		d.SetWeight([]pango.Weight{400, 700, 300, 900, 401, 100}[s.Intn(6)])
	}
	if s.Chance(1, 4) {
		d.SetStyle(pango.Style(s.Intn(3)))
	}
	if s.Chance(1, 6) {
		d.SetStretch(pango.Stretch(s.Intn(9)))
	}
	if s.Chance(1, 6) {
		d.SetVariant(pango.Variant(s.Intn(7)))
	}
	if s.Chance(1, 10) {
		d.SetGravity(pango.Gravity(s.Intn(4)))
	}
	if s.Chance(1, 8) {
		d.SetVariations([]string{"wght=200", "wght=700", "wght=550.5", "wdth=3", "wght=200,wght=900", "x"}[s.Intn(6)])
	}
	return d
}

// tweakDesc changes one field.
func tweakDesc(s *Stream, d pango.FontDescription) pango.FontDescription {
	switch s.Intn(11) {
	case 0:
		d.SetSize(int32(s.Range(1, 40)) * pu)
	case 1:
		d.SetAbsoluteSize(int32(s.Range(1, 40)) * pu)
	case 2:
		d.SetWeight([]pango.Weight{400, 700, 300, 900, 401, 100}[s.Intn(6)])
	case 3:
		d.SetStyle(pango.Style(s.Intn(3)))
	case 4:
		d.SetStretch(pango.Stretch(s.Intn(9)))
	case 5:
		d.SetVariant(pango.Variant(s.Intn(7)))
	case 6:
		d.SetGravity(pango.Gravity(s.Intn(4)))
	case 7:
		d.SetVariations([]string{"wght=200", "wght=700", "wght=550.5", "wdth=3", "", "x"}[s.Intn(6)])
	case 8:
		d.SetFamily(layFamilies[s.Intn(len(layFamilies))])
	case 9: // explicit default values
		for i := 0; i < 4; i++ {
			if s.Chance(1, 2) {
				switch i {
				case 0:
					d.SetWeight(pango.WEIGHT_NORMAL)
				case 1:
					d.SetStyle(pango.STYLE_NORMAL)
				case 2:
					d.SetStretch(pango.STRETCH_NORMAL)
				case 3:
					d.SetGravity(pango.GRAVITY_SOUTH)
				}
			}
		}
	case 10:
		d.UnsetFields(1 << s.Intn(8))
	}
	return d
}

var layWords = []string{
	"a", "Hello", "world", "fi", "AVAT", "office", "x1", "3.14", "1,000.50", "http://a.b/c?d", "well-known", "don't",
	"مرحبا", "سلام", "لا", "אבג", "שלום", "日本語", "漢字かな", "カタカナ", "Привет", "Ελλάδα", "ß", "ǅ", "ﬁ", "i̇",
	"नमस्ते", "क्षि", "ไทย", "안녕", "ᄒ\u1161ᆫ", "é", "e\u0301", "a\u0300\u0316", "😀", "👩\u200d👩\u200d👧", "🇫🇷", "☎\ufe0f", "1\ufe0f\u20e3",
	"so\u00adft", "zw\u200bsp", "nb\u00a0sp", "\u202eRLO\u202c", "\u2067אי\u2069", "\u200f", "\u200e", "\ufffd", "\u0378", "\U0001F9D1", "\U000E0041", "...", "…", "‐", "—", "(", ")", "[א]",
}

func genText(s *Stream, max int) []rune {
	var b strings.Builder
	n := 0
	switch s.Weighted(2, 6, 3, 1, 1) {
	case 0:
		n = s.Intn(2)
	case 1:
		n = s.Range(1, 8)
	case 2:
		n = s.Range(4, 20)
	case 3:
		n = s.Range(1, max)
	case 4:
		// one script, long word
		w := layWords[s.Intn(len(layWords))]
		return []rune(strings.Repeat(w, s.Range(1, maxi(1, max/4))))
	}
	latin := s.Chance(1, 3)
	for i := 0; i < n; i++ {
		if latin {
			b.WriteString(layWords[s.Intn(12)])
		} else {
			b.WriteString(layWords[s.Intn(len(layWords))])
		}
		switch s.Weighted(12, 3, 2, 2, 1, 1, 1, 1) {
		case 0:
			b.WriteByte(' ')
		case 1:
		case 2:
			b.WriteByte('\n')
		case 3:
			b.WriteByte('\t')
		case 4:
			b.WriteString("  ")
		case 5:
			b.WriteString([]string{"\r\n", "\r", "\u2029", "\u2028", "\n\n", "\x0b", "\x0c", "\u0085"}[s.Intn(8)])
		case 6:
			b.WriteString([]string{"\u3000", "\u2003", "\x00", "\x1b", "\u200c", "\u200d", "\u00ad"}[s.Intn(7)])
		case 7:
			b.WriteString("-")
		}
	}
	return []rune(b.String())
}

// attrSpec describes an attribute.
type attrSpec struct {
	kind, a, b int
	desc       pango.FontDescription
	start, end int
}

var layLangs = []pango.Language{"en", "ja", "ar", "fr", "zh-cn", "xx", "hi", "en-us", "tr"}

func genAttr(s *Stream, n int) attrSpec {
	a := attrSpec{kind: s.Intn(34), a: s.Intn(12), b: s.Intn(6)}
	if a.kind == 0 {
		a.desc = genDesc(s)
	}
	switch s.Weighted(2, 6, 1, 1) {
	case 0:
		a.end = math.MaxInt32
	case 1:
		a.start = s.Intn(n + 1)
		a.end = a.start + s.Intn(n-a.start+1)
	case 2:
		a.start = s.Intn(n + 1)
		a.end = n + s.Intn(4)
	case 3:
		a.start = s.Intn(n + 3)
		a.end = a.start + s.Intn(3)
	}
	return a
}

func (a attrSpec) build() *pango.Attribute {
	var at *pango.Attribute
	col := pango.AttrColor{Red: uint16(a.a * 5000), Green: uint16(a.b * 9000), Blue: 7}
	switch a.kind {
	case 0:
		at = pango.NewAttrFontDescription(a.desc)
	case 1:
		at = pango.NewAttrFamily(layFamilies[(a.a+1)%len(layFamilies)])
	case 2:
		at = pango.NewAttrSize([]int{8, 12, 12, 30, 0, 5}[a.a%6] * pu)
	case 3:
		at = pango.NewAttrAbsoluteSize([]int{8, 16, 12, 30, 0, 5}[a.a%6] * pu)
	case 4:
		at = pango.NewAttrWeight([]pango.Weight{400, 700, 900}[a.a%3])
	case 5:
		at = pango.NewAttrStyle(pango.Style(a.a % 3))
	case 6:
		at = pango.NewAttrStretch(pango.Stretch(a.a % 9))
	case 7:
		at = pango.NewAttrVariant(pango.Variant(a.a % 7))
	case 8:
		at = pango.NewAttrForeground(col)
	case 9:
		at = pango.NewAttrBackground(col)
	case 10:
		at = pango.NewAttrUnderline(pango.Underline(a.a % 8))
	case 11:
		at = pango.NewAttrStrikethrough(a.a%2 == 0)
	case 12:
		at = pango.NewAttrRise((a.a - 4) * 2 * pu)
	case 13:
		at = pango.NewAttrShape(pango.Rectangle{X: 0, Y: pango.Unit(-a.a * pu), Width: pango.Unit(a.b * 3 * pu), Height: pango.Unit(a.a * pu)},
			pango.Rectangle{X: 0, Y: pango.Unit(-a.a * pu), Width: pango.Unit(a.b * 4 * pu), Height: pango.Unit(a.a * 2 * pu)})
	case 14:
		at = pango.NewAttrScale([]pango.Fl{0.5, 1, 1.5, 2, 0.1, 1. / 1.2}[a.a%6])
	case 15:
		at = pango.NewAttrFallback(a.a%2 == 0)
	case 16:
		at = pango.NewAttrLetterSpacing(int32(a.a-3) * 700)
	case 17:
		at = pango.NewAttrUnderlineColor(col)
	case 18:
		at = pango.NewAttrGravity([]pango.Gravity{0, 1, 2, 3}[a.a%4])
	case 19:
		at = pango.NewAttrGravityHint(pango.GravityHint(a.a % 3))
	case 20:
		at = pango.NewAttrFontFeatures([]string{"liga=0", "smcp=1", "kern=0, liga 0", "tnum", "zero[0:3]=1", "bad feature!!", "", "salt 2"}[a.a%8])
	case 21:
		at = pango.NewAttrAllowBreaks(a.a%2 == 1)
	case 22:
		at = pango.NewAttrShow(pango.ShowFlags(a.a % 8))
	case 23:
		at = pango.NewAttrInsertHyphens(a.a%2 == 0)
	case 24:
		at = pango.NewAttrOverline(pango.Overline(a.a % 2))
	case 25:
		at = pango.NewAttrLineHeight([]float32{0.5, 1, 2, 1.3}[a.a%4])
	case 26:
		at = pango.NewAttrAbsoluteLineHeight([]int{10, 40, 1}[a.a%3] * pu)
	case 27:
		at = pango.NewAttrTextTransform(pango.TextTransform(a.a % 4))
	case 28:
		at = pango.NewAttrWord()
	case 29:
		at = pango.NewAttrSentence()
	case 30:
		at = pango.NewAttrBaselineShift([]int{5000, -3000, 1, 2, 0, 1}[a.a%6])
	case 31:
		at = pango.NewAttrFontScale(pango.FontScale(a.a % 4))
	case 32:
		at = pango.NewAttrLanguage(layLangs[a.a%len(layLangs)])
	case 33:
		at = pango.NewAttrForegroundAlpha(uint16(a.a * 3000))
	default:
		harnessBug("attribute kind %d", a.kind)
	}
	at.StartIndex, at.EndIndex = a.start, a.end
	if a.end == math.MaxInt32 {
		at.EndIndex = pango.MaxInt
	}
	return at
}

func buildAttrs(l []attrSpec) pango.AttrList {
	var out pango.AttrList
	for _, a := range l {
		out.Insert(a.build())
	}
	return out
}

var layMarkups = []string{
	`<b>bold</b> and <i>it</i>`,
	`<span font="Alpha 20" letter_spacing="2000">wide</span> text`,
	`a<sup>2</sup>+b<sub>i<sub>j</sub></sub>`,
	`<big>B<big>B</big></big><small>s</small>`,
	`<span size="x-large" weight="bold" underline="double">x</span>` + "\n" + `<tt>mono</tt>`,
	`<span lang="ja" fallback="false">日本</span>`,
	`<span rise="3000" line_height="1.5">r</span>`,
	`<span text_transform="uppercase">upper case</span>`,
	`<span gravity="east">vert</span>`,
	`<span font_features="liga=0" show="spaces|line-breaks">fi fi</span>`,
	`plain`,
	``,
	`<span segment="word">two words</span>`,
	`<span font_scale="superscript">Small Caps</span>`,
	`<span baseline_shift="superscript" size="50%">ab</span>`,
	`&lt;&amp;&#65;`,
}

func genMarkup(s *Stream) string {
	var b strings.Builder
	for k := s.Range(1, 4); k > 0; k-- {
		b.WriteString(layMarkups[s.Intn(len(layMarkups))])
		if s.Chance(1, 2) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// attrs of a layout: built, or parsed from markup
type layAttrs struct {
	specs    []attrSpec
	markup   string
	isMarkup bool
}

func (a layAttrs) list() pango.AttrList {
	if a.isMarkup {
		p, err := pango.ParseMarkup([]byte(a.markup), 0)
		if err != nil {
			harnessBug("markup %q: %v", a.markup, err)
		}
		return p.Attr
	}
	return buildAttrs(a.specs)
}

// laySet is the settings of one layout, and ctxSet those of one context.
type laySet struct {
	text                 []rune
	attrs                layAttrs
	desc                 *pango.FontDescription
	limited              bool // the settings which limit the number of lines change more
	width, height        pango.Unit
	indent, spacing      pango.Unit
	lineSpacing          float32
	align                pango.Alignment
	ellipsize            pango.EllipsizeMode
	wrap                 pango.WrapMode
	justify, justifyLast bool
	autoDir, single      bool
	tabs                 *pango.TabArray
}

type ctxSet struct {
	desc    *pango.FontDescription
	lang    pango.Language
	gravity pango.Gravity
	matrix  int
	round   bool
}

var layMatrices = []*pango.Matrix{nil, {Xx: 1, Yy: 1}, {Xx: 2, Yy: 2}, {Xx: 0, Xy: 1, Yx: -1, Yy: 0}, {Xx: 0, Xy: -1, Yx: 1, Yy: 0}, {Xx: 1, Xy: 0.3, Yx: 0, Yy: 1}, {Xx: 0.5, Yy: 3, X0: 10, Y0: 4}, {Xx: -1, Yy: -1}, {Xx: 3, Yy: 1}, {Xx: 0.5, Yy: 2}, {Xx: 2, Xy: 0.5, Yy: 2}, {Xx: 0, Xy: 2, Yx: -1, Yy: 0}}

func defaultSet() laySet {
	return laySet{width: -1, height: -1, autoDir: true}
}

func defaultCtx() ctxSet { return ctxSet{round: true} }

func genCtx(s *Stream) ctxSet {
	x := defaultCtx()
	if s.Chance(1, 3) {
		d := genDesc(s)
		x.desc = &d
	}
	if s.Chance(1, 3) {
		x.lang = layLangs[s.Intn(len(layLangs))]
	}
	if s.Chance(1, 8) {
		x.gravity = pango.Gravity(s.Intn(5))
	}
	if s.Chance(1, 6) {
		x.matrix = s.Intn(len(layMatrices))
		if s.Chance(1, 2) {
			x.gravity = pango.GRAVITY_AUTO
		}
	}
	if s.Chance(1, 4) {
		x.round = false
	}
	return x
}

func cloneMatrix(i int) *pango.Matrix {
	if layMatrices[i] == nil {
		return nil
	}
	m := *layMatrices[i]
	return &m
}

// newContext makes a context directly with the settings.
func (x ctxSet) newContext(fm pango.FontMap) *pango.Context {
	ctx := pango.NewContext(fm)
	ctx.Matrix = cloneMatrix(x.matrix)
	if x.desc != nil {
		ctx.SetFontDescription(*x.desc)
	}
	if x.lang != "" {
		ctx.SetLanguage(x.lang)
	}
	ctx.SetBaseGravity(x.gravity)
	ctx.SetRoundGlyphPositions(x.round)
	return ctx
}

func (x ctxSet) String() string {
	d := "-"
	if x.desc != nil {
		d = x.desc.String()
	}
	return fmt.Sprintf("context{%s %q gravity %d matrix %d round %v}", d, x.lang, x.gravity, x.matrix, x.round)
}

func copyTabs(t *pango.TabArray) *pango.TabArray {
	if t == nil {
		return nil
	}
	return &pango.TabArray{Tabs: append([]pango.Tab(nil), t.Tabs...), PositionsInPixels: t.PositionsInPixels}
}

// newLayout makes a layout directly with the settings.
func (set *laySet) newLayout(ctx *pango.Context) *pango.Layout {
	l := pango.NewLayout(ctx)
	if set.desc != nil {
		d := *set.desc
		l.SetFontDescription(&d)
	}
	l.SetWidth(set.width)
	l.SetHeight(set.height)
	l.SetIndent(set.indent)
	l.SetSpacing(set.spacing)
	l.SetLineSpacing(set.lineSpacing)
	l.SetAlignment(set.align)
	l.SetEllipsize(set.ellipsize)
	l.SetWrap(set.wrap)
	l.SetJustify(set.justify)
	l.SetJustifyLastLine(set.justifyLast)
	l.SetAutoDir(set.autoDir)
	l.SetSingleParagraphMode(set.single)
	l.SetTabs(copyTabs(set.tabs))
	l.SetRunes(set.text)
	l.SetAttributes(set.attrs.list())
	return l
}

func (set *laySet) String() string {
	d := "-"
	if set.desc != nil {
		d = set.desc.String()
	}
	at := ""
	if set.attrs.isMarkup {
		at = set.attrs.markup
	} else {
		for _, a := range set.attrs.specs {
			at += a.build().String() + " "
		}
	}
	return fmt.Sprintf("layout{%q font %s attributes %s width %d height %d indent %d spacing %d line spacing %v align %d ellipsize %d wrap %d justify %v/%v autodir %v single %v tabs %v}",
		string(set.text), d, at, set.width, set.height, set.indent, set.spacing, set.lineSpacing, set.align, set.ellipsize, set.wrap, set.justify, set.justifyLast, set.autoDir, set.single, set.tabs)
}

// layMut is one change of a property of a layout: to the recorded settings,
// and to a layout.
type layMut struct {
	name  string
	apply func(l *pango.Layout)
}

const nLayMuts = 17

// mutate changes one property, with the setter it returns.
func (set *laySet) mutate(s *Stream, maxText int) layMut {
	k := s.Intn(nLayMuts)
	if set.limited && s.Chance(1, 2) {
		k = []int{6, 9, 11, 5, 8, 6, 6}[s.Intn(7)]
	}
	switch k {
	case 0:
		set.text = genText(s, maxText)
		t := append([]rune(nil), set.text...)
		if s.Chance(1, 2) {
			return layMut{"SetText", func(l *pango.Layout) { l.SetText(string(t)) }}
		}
		return layMut{"SetRunes", func(l *pango.Layout) {
			given := append([]rune(nil), t...)
			l.SetRunes(given)
			for i := range given { // it is still the caller's
				given[i] = 'x'
			}
		}}
	case 1:
		m := genMarkup(s)
		if s.Chance(1, 8) {
			bad := "<b>" + m
			return layMut{"SetMarkup (malformed)", func(l *pango.Layout) {
				if err := l.SetMarkup([]byte(bad)); err == nil {
					panic(&Violation{Sig: "malformed markup accepted", Msg: bad})
				}
			}}
		}
		p, err := pango.ParseMarkup([]byte(m), 0)
		if err != nil {
			harnessBug("markup %q: %v", m, err)
		}
		set.text = p.Text
		set.attrs = layAttrs{markup: m, isMarkup: true}
		return layMut{"SetMarkup", func(l *pango.Layout) {
			if err := l.SetMarkup([]byte(m)); err != nil {
				panic(&Violation{Sig: "markup refused", Msg: m + ": " + err.Error()})
			}
		}}
	case 2, 3:
		if k == 3 && !set.attrs.isMarkup && len(set.attrs.specs) > 0 {
			// one attribute among others changes
			specs := append([]attrSpec(nil), set.attrs.specs...)
			i := s.Intn(len(specs))
			switch s.Intn(4) {
			case 0:
				specs[i] = genAttr(s, len(set.text))
			case 1:
				specs = append(specs[:i], specs[i+1:]...)
			case 2:
				n := genAttr(s, len(set.text))
				specs[i].start, specs[i].end = n.start, n.end
			case 3:
				specs[i].a, specs[i].b = s.Intn(12), s.Intn(6)
			}
			set.attrs = layAttrs{specs: specs}
		} else {
			var specs []attrSpec
			for n := s.Weighted(1, 3, 3, 2, 1, 1); n > 0; n-- {
				specs = append(specs, genAttr(s, len(set.text)))
			}
			set.attrs = layAttrs{specs: specs}
		}
		a := set.attrs
		return layMut{"SetAttributes", func(l *pango.Layout) { l.SetAttributes(a.list()) }}
	case 4:
		if s.Chance(1, 4) {
			set.desc = nil
			return layMut{"SetFontDescription nil", func(l *pango.Layout) { l.SetFontDescription(nil) }}
		}
		var d pango.FontDescription
		if set.desc != nil && s.Chance(1, 2) {
			d = tweakDesc(s, *set.desc)
		} else {
			d = genDesc(s)
		}
		set.desc = &d
		return layMut{"SetFontDescription", func(l *pango.Layout) {
			e := d
			l.SetFontDescription(&e)
			e = pango.NewFontDescription() // it is still the caller's
			e.SetSize(3 * pango.Scale)
		}}
	case 5:
		w := pango.Unit(-1)
		switch s.Intn(5) {
		case 0:
			w = []pango.Unit{0, 1, -1, -5, 1 << 20}[s.Intn(5)]
		case 1:
			w = pango.Unit(s.Intn(200000))
		default:
			w = pango.Unit(s.Range(5, 200)) * pu
		}
		set.width = w
		return layMut{"SetWidth", func(l *pango.Layout) { l.SetWidth(w) }}
	case 6:
		h := pango.Unit(-1)
		switch s.Intn(3) {
		case 0:
			h = -pango.Unit(s.Intn(5))
		case 1:
			h = pango.Unit(s.Range(0, 120)) * pu
		case 2:
			h = []pango.Unit{0, 1, -1, -100, 1 << 24}[s.Intn(5)]
		}
		if set.limited {
			h = genLimit(s)
		}
		set.height = h
		return layMut{"SetHeight", func(l *pango.Layout) { l.SetHeight(h) }}
	case 7:
		v := pango.Unit(s.Range(-20, 40)) * pu
		set.indent = v
		return layMut{"SetIndent", func(l *pango.Layout) { l.SetIndent(v) }}
	case 8:
		v := pango.Unit(s.Range(-3, 12)) * pu
		set.spacing = v
		return layMut{"SetSpacing", func(l *pango.Layout) { l.SetSpacing(v) }}
	case 9:
		v := []float32{0, 1, 1.5, 0.7, 2}[s.Intn(5)]
		set.lineSpacing = v
		return layMut{"SetLineSpacing", func(l *pango.Layout) { l.SetLineSpacing(v) }}
	case 10:
		v := pango.Alignment(s.Intn(3))
		set.align = v
		return layMut{"SetAlignment", func(l *pango.Layout) { l.SetAlignment(v) }}
	case 11:
		v := pango.EllipsizeMode(s.Intn(4))
		set.ellipsize = v
		return layMut{"SetEllipsize", func(l *pango.Layout) { l.SetEllipsize(v) }}
	case 12:
		v := pango.WrapMode(s.Intn(3))
		set.wrap = v
		return layMut{"SetWrap", func(l *pango.Layout) { l.SetWrap(v) }}
	case 13:
		v := set.justify != s.Chance(3, 4)
		set.justify = v
		return layMut{"SetJustify", func(l *pango.Layout) { l.SetJustify(v) }}
	case 14:
		v := set.justifyLast != s.Chance(3, 4)
		set.justifyLast = v
		return layMut{"SetJustifyLastLine", func(l *pango.Layout) { l.SetJustifyLastLine(v) }}
	case 15:
		if s.Chance(1, 2) {
			v := set.autoDir != s.Chance(3, 4)
			set.autoDir = v
			return layMut{"SetAutoDir", func(l *pango.Layout) { l.SetAutoDir(v) }}
		}
		v := set.single != s.Chance(3, 4)
		set.single = v
		return layMut{"SetSingleParagraphMode", func(l *pango.Layout) { l.SetSingleParagraphMode(v) }}
	default:
		set.tabs = genTabs(s)
		t := set.tabs
		return layMut{"SetTabs", func(l *pango.Layout) {
			given := copyTabs(t)
			l.SetTabs(given)
			if given != nil { // it is still the caller's
				given.PositionsInPixels = !given.PositionsInPixels
				for i := range given.Tabs {
					given.Tabs[i].Location++
				}
			}
		}}
	}
}

func genTabs(s *Stream) *pango.TabArray {
	if s.Chance(1, 4) {
		return nil
	}
	t := &pango.TabArray{PositionsInPixels: s.Chance(1, 2)}
	for n := s.Intn(4); n > 0; n-- {
		loc := pango.Unit(s.Range(0, 150))
		if !t.PositionsInPixels {
			loc *= pu
		}
		t.Tabs = append(t.Tabs, pango.Tab{Location: loc, Alignment: pango.TabAlign(s.Intn(4)), DecimalPoint: []rune{0, '.', ','}[s.Intn(3)]})
	}
	return t
}

// genRich draws settings most of which matter: words on several lines, with
// a width, and many properties set at once.
func genRich(s *Stream) laySet {
	set := defaultSet()
	var b strings.Builder
	for n := s.Range(1, 7); n > 0; n-- {
		if s.Chance(3, 4) {
			b.WriteString(layWords[s.Intn(12)])
		} else {
			b.WriteString(layWords[s.Intn(len(layWords))])
		}
		switch s.Weighted(10, 2, 2, 1) {
		case 0:
			b.WriteByte(' ')
		case 1:
			b.WriteByte('\t')
		case 2:
			b.WriteByte('\n')
		}
	}
	set.text = []rune(b.String())
	if s.Chance(3, 4) {
		set.width = pango.Unit(s.Range(1, 160)) * pu
	}
	if s.Chance(1, 4) {
		set.height = pango.Unit(s.Range(-3, 40))
		if set.height > 0 {
			set.height *= pu
		}
	}
	if s.Chance(1, 3) {
		set.indent = pango.Unit(s.Range(-20, 40)) * pu
	}
	if s.Chance(1, 3) {
		set.spacing = pango.Unit(s.Range(-3, 12)) * pu
	}
	if s.Chance(1, 4) {
		set.lineSpacing = []float32{0, 1, 1.5, 0.7, 2}[s.Intn(5)]
	}
	set.align = pango.Alignment(s.Intn(3))
	if s.Chance(1, 3) {
		set.ellipsize = pango.EllipsizeMode(s.Intn(4))
	}
	set.wrap = pango.WrapMode(s.Intn(3))
	set.justify = s.Chance(1, 2)
	set.justifyLast = s.Chance(1, 3)
	set.autoDir = s.Chance(1, 2)
	set.single = s.Chance(1, 6)
	if s.Chance(1, 3) {
		set.tabs = genTabs(s)
	}
	if s.Chance(1, 3) {
		d := genDesc(s)
		set.desc = &d
	}
	if s.Chance(1, 2) {
		var specs []attrSpec
		for n := s.Range(1, 2); n > 0; n-- {
			specs = append(specs, genAttr(s, len(set.text)))
		}
		set.attrs = layAttrs{specs: specs}
	}
	if s.Chance(1, 3) { // several lines, and a limit to their number
		set.limited = true
		for len(set.text) < 60 {
			set.text = append(append(set.text, ' '), set.text...)
		}
		set.text = set.text[:s.Range(30, 60)]
		set.width = pango.Unit(s.Range(30, 120)) * pu
		set.ellipsize = pango.EllipsizeMode(s.Range(1, 3))
		set.height = genLimit(s)
	}
	return set
}

// genLimit draws a height which makes a difference for a text of a few lines.
func genLimit(s *Stream) pango.Unit {
	if s.Chance(2, 3) {
		return -pango.Unit(s.Range(1, 8))
	}
	if s.Chance(1, 8) {
		return 0
	}
	return pango.Unit(s.Range(0, 160)) * pu
}

// genLay draws settings at once.
func genLay(s *Stream, muts, maxText int) laySet {
	if muts > 1 && s.Chance(1, 3) {
		return genRich(s)
	}
	set := defaultSet()
	set.text = genText(s, maxText)
	for ; muts > 0; muts-- {
		set.mutate(s, maxText)
	}
	return set
}

// ---------------------------------------------------------------- report

type reporter struct {
	lines []string
	b     []byte
	names map[pango.Font]string
}

func (r *reporter) s(x string) *reporter { r.b = append(r.b, x...); return r }
func (r *reporter) i(x int) *reporter {
	r.b = append(strconv.AppendInt(append(r.b, ' '), int64(x), 10))
	return r
}
func (r *reporter) rect(x pango.Rectangle) *reporter {
	return r.s(" (").i(int(x.X)).i(int(x.Y)).i(int(x.Width)).i(int(x.Height)).s(")")
}
func (r *reporter) bool(x bool) *reporter {
	if x {
		return r.s(" T")
	}
	return r.s(" F")
}
func (r *reporter) end() { r.lines = append(r.lines, string(r.b)); r.b = r.b[:0] }

func fontName(f pango.Font) string {
	if f == nil {
		return "no font"
	}
	id := f.FaceID()
	d := f.Describe(false)
	a := f.Describe(true)
	return fmt.Sprintf("%s#%d.%d %s / %s", id.File, id.Index, id.Instance, d.String(), a.String())
}

func (r *reporter) font(f pango.Font) *reporter {
	n, ok := r.names[f]
	if !ok {
		n = fontName(f)
		r.names[f] = n
	}
	return r.s(" <").s(n).s(">")
}

func attrString(a *pango.Attribute) string {
	return fmt.Sprintf("%d[%d,%d]%v", int(a.Kind), a.StartIndex, a.EndIndex, a.Data)
}

func attrsString(l pango.AttrList) string {
	var b strings.Builder
	for _, a := range l {
		b.WriteString(attrString(a))
		b.WriteByte(' ')
	}
	return b.String()
}

func (r *reporter) item(it *pango.Item) *reporter {
	r.i(it.Offset).i(it.Length).font(it.Analysis.Font).s(" ").s(string(it.Analysis.Language))
	r.i(int(it.Analysis.Script)).i(int(it.Analysis.Level)).i(int(it.Analysis.Gravity)).i(int(it.Analysis.Flags))
	if len(it.Analysis.ExtraAttrs) != 0 {
		r.s(" attrs ").s(attrsString(it.Analysis.ExtraAttrs))
	}
	return r
}

func (r *reporter) glyphs(g *pango.GlyphString) *reporter {
	if g == nil {
		return r.s(" no glyphs")
	}
	for i, gl := range g.Glyphs {
		lc := -1
		if i < len(g.LogClusters) {
			lc = g.LogClusters[i]
		}
		r.s(" |").i(int(gl.Glyph)).i(int(gl.Geometry.Width)).i(int(gl.Geometry.XOffset)).i(int(gl.Geometry.YOffset)).s("@").i(lc)
	}
	return r
}

// report parts
const (
	repLines = 1 << iota
	repIndex
	repIter
	repCursor
	repAll = repLines | repIndex | repIter | repCursor
)

// sampleIndexes are the positions asked about, at most about max of them.
func sampleIndexes(n, max int) []int {
	var out []int
	step := 1
	if n+1 > max {
		step = (n + max) / max
	}
	for i := 0; i <= n; i += step {
		out = append(out, i)
	}
	if len(out) > 0 && out[len(out)-1] != n {
		out = append(out, n)
	}
	return out
}

// report describes everything a layout answers.
func report(l *pango.Layout, parts, maxIdx int) []string {
	r := &reporter{names: map[pango.Font]string{}}
	n := len(l.Text)
	if parts&repLines != 0 {
		r.s("text ").s(string(l.Text)).s(" attributes ").s(attrsString(l.Attributes)).end()
		r.s("count").i(l.GetLineCount()).s(" wrapped").bool(l.IsWrapped()).s(" ellipsized").bool(l.IsEllipsized()).end()
		w, h := l.GetSize()
		r.s("size").i(int(w)).i(int(h)).s(" baseline").i(int(l.GetBaseline())).end()
		var ink, log pango.Rectangle
		l.GetExtents(&ink, &log)
		r.s("extents").rect(ink).rect(log).end()
		for k, line := range l.GetLinesReadonly() {
			var ink, log pango.Rectangle
			h := line.GetExtents(&ink, &log)
			r.s("line").i(k).s(" start").i(line.StartIndex).s(" length").i(line.Length).bool(line.IsParagraphStart).i(int(line.ResolvedDir)).i(int(h)).rect(ink).rect(log).end()
			for run := line.Runs; run != nil; run = run.Next {
				r.s(" run").item(run.Data.Item).end()
				r.s("  glyphs").bool(run.Data.LTR()).glyphs(run.Data.Glyphs).end()
				r.s("  widths")
				if run.Data.Item.Offset >= 0 && run.Data.Item.Offset+run.Data.Item.Length <= n {
					for _, w := range run.Data.GetLogicalWidths(l.Text) {
						r.i(int(w))
					}
				}
				r.end()
			}
		}
		r.s("log attributes")
		for _, a := range l.GetCharacterAttributes() {
			r.i(int(a))
		}
		r.end()
	}
	idx := sampleIndexes(n, maxIdx)
	if parts&repIndex != 0 {
		for _, i := range idx {
			var pos, st, wk pango.Rectangle
			l.IndexToPos(i, &pos)
			l.GetCursorPos(i, &st, &wk)
			r.s("at").i(i).rect(pos).rect(st).rect(wk).i(int(l.GetDirectionAt(i))).end()
		}
		for k := 0; k < l.GetLineCount(); k++ {
			line := l.GetLine(k)
			r.s("line").i(k).s(" x")
			for _, i := range sampleIndexes(line.Length, maxIdx) {
				r.i(int(line.IndexToX(line.StartIndex+i, false))).i(int(line.IndexToX(line.StartIndex+i, true)))
			}
			r.end()
			m := line.StartIndex + line.Length/2
			r.s(" ranges")
			for _, x := range line.GetXRanges(line.StartIndex, m) {
				r.i(int(x))
			}
			r.s(" /")
			for _, x := range line.GetXRanges(m, line.StartIndex+line.Length) {
				r.i(int(x))
			}
			r.end()
		}
	}
	if parts&repCursor != 0 {
		// a move costs up to the cube of the length of the line
		idx := idx
		if n > 100 {
			idx = []int{n / 2}
		} else if n > 6 {
			idx = sampleIndexes(n, 6)
		}
		for _, strong := range []bool{true, false} {
			for _, dir := range []int{1, -1} {
				r.s("moves").bool(strong).i(dir)
				for _, i := range idx {
					ni, nt := l.MoveCursorVisually(strong, i, 0, dir)
					r.i(ni).s(",").i(nt)
				}
				r.end()
			}
		}
	}
	if parts&repIter != 0 {
		limit := 40*n + 400
		it := l.GetIter()
		for do, k := true, 0; do; do = it.NextLine() {
			var ink, log pango.Rectangle
			it.GetLineExtents(&ink, &log)
			r.s("iter line").i(it.Index).i(int(it.GetBaseline())).rect(ink).rect(log).bool(it.IsAtLastLine()).end()
			if k++; k > limit {
				panic(&Violation{Sig: "iteration by line does not end", Msg: fmt.Sprintf("after %d lines", k)})
			}
		}
		it = l.GetIter()
		for do, k := true, 0; do; do = it.NextRun() {
			var ink, log pango.Rectangle
			it.GetRunExtents(&ink, &log)
			off := -1
			if run := it.GetRun(); run != nil {
				off = run.Item.Offset
			}
			r.s("iter run").i(it.Index).i(off).rect(ink).rect(log).end()
			if k++; k > limit {
				panic(&Violation{Sig: "iteration by run does not end", Msg: fmt.Sprintf("after %d runs", k)})
			}
		}
		it = l.GetIter()
		r.s("iter clusters")
		for do, k := true, 0; do; do = it.NextCluster() {
			var ink, log pango.Rectangle
			it.GetClusterExtents(&ink, &log)
			r.s(" |").i(it.Index).rect(ink).rect(log)
			if k++; k > limit {
				panic(&Violation{Sig: "iteration by cluster does not end", Msg: fmt.Sprintf("after %d clusters", k)})
			}
		}
		r.end()
		it = l.GetIter()
		r.s("iter chars")
		for do, k := true, 0; do; do = it.NextChar() {
			r.s(" |").i(it.Index).rect(it.GetCharExtents())
			if k++; k > limit {
				panic(&Violation{Sig: "iteration by character does not end", Msg: fmt.Sprintf("after %d characters", k)})
			}
		}
		r.end()
	}
	return r.lines
}

func diffReport(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("report ends before %s", short(want[i]))
		}
		if want[i] != got[i] {
			return "expected " + shortDiff(want[i], got[i]) + "\nobtained " + shortDiff(got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return "more than expected: " + short(got[len(want)])
	}
	return ""
}

// shortDiff cuts a around its first difference with b.
func shortDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i < 150 {
		return short(a)
	}
	head := a
	if len(head) > 60 {
		head = head[:60]
	}
	return head + " ... " + short(a[i-80:])
}

// query makes one random query on a layout.
func query(s *Stream, l *pango.Layout) string {
	n := len(l.Text)
	i := s.Intn(n + 3)
	switch s.Intn(16) {
	case 0:
		l.GetLineCount()
		return "GetLineCount"
	case 1:
		l.GetExtents(nil, &pango.Rectangle{})
		return "GetExtents logical"
	case 2:
		l.GetExtents(&pango.Rectangle{}, nil)
		return "GetExtents ink"
	case 3:
		l.GetExtents(&pango.Rectangle{}, &pango.Rectangle{})
		return "GetExtents"
	case 4:
		l.GetSize()
		return "GetSize"
	case 5:
		l.GetBaseline()
		return "GetBaseline"
	case 6:
		l.IndexToPos(i, &pango.Rectangle{})
		return "IndexToPos"
	case 7:
		l.GetCursorPos(i, &pango.Rectangle{}, nil)
		return "GetCursorPos"
	case 8:
		l.GetDirectionAt(i)
		return "GetDirectionAt"
	case 9:
		i = mini(i, n)
		l.MoveCursorVisually(s.Chance(1, 2), i, 0, []int{-1, 1, 2, -3}[s.Intn(4)])
		return "MoveCursorVisually"
	case 10:
		l.GetCharacterAttributes()
		return "GetCharacterAttributes"
	case 11:
		l.IsEllipsized()
		return "IsEllipsized"
	case 12:
		l.IsWrapped()
		return "IsWrapped"
	case 13:
		lines := l.GetLinesReadonly()
		if len(lines) > 0 {
			line := lines[s.Intn(len(lines))]
			line.GetExtents(&pango.Rectangle{}, nil)
			line.GetXRanges(line.StartIndex, line.StartIndex+line.Length)
			line.IndexToX(line.StartIndex, true)
		}
		return "lines"
	case 14:
		it := l.GetIter()
		for k := s.Intn(12); k > 0; k-- {
			switch s.Intn(4) {
			case 0:
				it.NextChar()
				it.GetCharExtents()
			case 1:
				it.NextCluster()
				it.GetClusterExtents(&pango.Rectangle{}, nil)
			case 2:
				it.NextRun()
				it.GetRunExtents(nil, &pango.Rectangle{})
			case 3:
				it.NextLine()
				it.GetLineExtents(&pango.Rectangle{}, nil)
			}
		}
		return "iterate"
	default:
		report(l, repAll, 8)
		return "report"
	}
}
