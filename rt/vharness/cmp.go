package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"sort"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

func init() { log.SetOutput(io.Discard) }

// ---- canonical descriptions, through the public interface only ----

var charsetCanon = map[string]string{}

// dumpCharset describes the set of runes.
func dumpCharset(cs fc.Charset) string {
	rep := cs.String()
	if s, ok := charsetCanon[rep]; ok {
		return s
	}
	var b strings.Builder
	n := cs.Len()
	fmt.Fprintf(&b, "cs{%d:", n)
	h := uint64(1)
	seen := 0
	for r := rune(0); r <= 0x10FFFF && seen < n; r++ {
		if cs.HasChar(r) {
			h = mix(h, uint64(r))
			if seen < 6 {
				fmt.Fprintf(&b, " %x", r)
			}
			seen++
		}
	}
	fmt.Fprintf(&b, " #%x seen %d}", h, seen)
	s := b.String()
	if len(charsetCanon) < 5000 {
		charsetCanon[rep] = s
	}
	return s
}

func dumpLangset(ls fc.Langset) string {
	l := strings.Split(ls.String(), "|")
	sort.Strings(l)
	return "ls{" + strings.Join(l, "|") + "}"
}

func dumpValue(v fc.Value) string {
	switch v := v.(type) {
	case fc.Int:
		return fmt.Sprintf("i:%d", int(v))
	case fc.Float:
		return fmt.Sprintf("f:%x", math.Float32bits(float32(v)))
	case fc.String:
		return fmt.Sprintf("s:%q", string(v))
	case fc.Bool:
		return fmt.Sprintf("b:%d", uint8(v))
	case fc.Charset:
		return dumpCharset(v)
	case fc.Langset:
		return dumpLangset(v)
	case fc.Matrix:
		return fmt.Sprintf("m:%x,%x,%x,%x", math.Float32bits(v.Xx), math.Float32bits(v.Xy), math.Float32bits(v.Yx), math.Float32bits(v.Yy))
	case fc.Range:
		return fmt.Sprintf("r:%x-%x", math.Float32bits(v.Begin), math.Float32bits(v.End))
	case nil:
		return "nil"
	}
	return fmt.Sprintf("?%T:%v", v, v)
}

func sortedObjects(p fc.Pattern) []fc.Object {
	var objs []fc.Object
	for o := range p {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i] < objs[j] })
	return objs
}

// dumpPattern describes a pattern: properties, values, strengths, in order.
func dumpPattern(p fc.Pattern) string {
	if p == nil {
		return "<nil>"
	}
	var b strings.Builder
	for _, o := range sortedObjects(p) {
		l := p[o]
		if l == nil {
			continue
		}
		fmt.Fprintf(&b, "%d=", int(o))
		for _, e := range *l {
			fmt.Fprintf(&b, "%s(%v) ", dumpValue(e.Value), e.Binding)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func dumpSet(fs fc.Fontset) []string {
	out := make([]string, len(fs))
	for i, p := range fs {
		out[i] = dumpPattern(p)
	}
	return out
}

func hashSet(fs fc.Fontset) uint64 {
	h := uint64(len(fs))
	for _, s := range dumpSet(fs) {
		h = mix(h, hashStr(s))
	}
	return h
}

func hashStrings(l []string) uint64 {
	h := uint64(len(l))
	for _, s := range l {
		h = mix(h, hashStr(s))
	}
	return h
}

// diffStrings explains the first difference.
func diffStrings(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d elements instead of %d", len(b), len(a))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("element %d differs:\n%s", i, diffLines(a[i], b[i]))
		}
	}
	return ""
}

func diffLines(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	var out []string
	for i := 0; i < len(la) || i < len(lb); i++ {
		var x, y string
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			out = append(out, "  expected "+short(x), "  obtained "+short(y))
			if len(out) > 10 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// sameSet fails the run unless the two font sets are equal.
func (c *Ctx) sameSet(sig string, want []string, got fc.Fontset, what string) {
	if d := diffStrings(want, dumpSet(got)); d != "" {
		c.Fail(sig, "%s: %s", what, d)
	}
}

// ---- simulated byte streams ----

// chunkReader serves data in pieces whose sizes, and whose end, the simulator
// decides.
type chunkReader struct {
	s    *Stream
	data []byte
	mode int
	// fault: fail with err once `at` bytes were served (at<0: never)
	at    int
	err   error
	pos   int
	zero  int
	fired bool
	reads int
}

func newChunkReader(s *Stream, data []byte) *chunkReader {
	return &chunkReader{s: s, data: data, mode: s.Weighted(3, 2, 2, 2, 1), at: -1}
}

func (r *chunkReader) Read(p []byte) (int, error) {
	vsim.Y()
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if r.at >= 0 && r.pos >= r.at {
		r.fired = true
		return 0, r.err
	}
	rest := len(r.data) - r.pos
	if r.at >= 0 && r.at-r.pos < rest {
		rest = r.at - r.pos
	}
	if rest == 0 {
		return 0, io.EOF
	}
	n := len(p)
	switch r.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + r.s.Intn(16)
	case 3:
		n = 1 + r.s.Intn(700)
	case 4:
		if r.zero < 3 && r.s.Chance(1, 4) {
			r.zero++
			return 0, nil // allowed by io.Reader, must not be taken for the end
		}
		r.zero = 0
		n = 1 + r.s.Intn(64)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > rest {
		n = rest
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.data) && r.at < 0 && r.mode >= 2 && r.s.Chance(1, 2) {
		return n, io.EOF // data and end in one call
	}
	return n, nil
}

// memRes is a fonts.Resource held in memory.
type memWriter struct {
	buf    []byte
	fail   int // bytes accepted before failing, -1: never
	err    error
	short  bool // the failing write accepts a part
	writes int
	fired  bool
}

func (w *memWriter) Write(p []byte) (int, error) {
	vsim.Y()
	w.writes++
	if w.fail >= 0 && len(w.buf)+len(p) > w.fail {
		w.fired = true
		n := 0
		if w.short {
			n = w.fail - len(w.buf)
			if n < 0 {
				n = 0
			}
			w.buf = append(w.buf, p[:n]...)
		}
		return n, w.err
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

// ---- generated patterns ----

var words = []string{"Alpha", "Beta", "gamma", "", "a", "ab", "b", "Sans", "serif", "DejaVu Sans", "日本語", "A", "en", "fr", "x:y", "reg,bold", "-", "\x00", "ALPHA", "Alpha "}

var langTags = []string{"en", "fr", "ar", "he", "ja", "zh-cn", "zh-tw", "ru", "el", "de", "pt", "und-zsye"}

type objKind struct {
	obj  fc.Object
	kind byte
}

var allObjects = []objKind{
	{fc.FAMILY, 's'}, {fc.FAMILYLANG, 's'}, {fc.STYLE, 's'}, {fc.STYLELANG, 's'}, {fc.FULLNAME, 's'}, {fc.FULLNAMELANG, 's'},
	{fc.SLANT, 'i'}, {fc.WEIGHT, 'r'}, {fc.WIDTH, 'r'}, {fc.SIZE, 'r'}, {fc.ASPECT, 'f'}, {fc.PIXEL_SIZE, 'f'}, {fc.SPACING, 'i'},
	{fc.FOUNDRY, 's'}, {fc.ANTIALIAS, 'b'}, {fc.HINT_STYLE, 'i'}, {fc.HINTING, 'b'}, {fc.VERTICAL_LAYOUT, 'b'}, {fc.AUTOHINT, 'b'}, {fc.GLOBAL_ADVANCE, 'b'},
	{fc.FILE, 's'}, {fc.INDEX, 'i'}, {fc.RASTERIZER, 's'}, {fc.OUTLINE, 'b'}, {fc.SCALABLE, 'b'}, {fc.DPI, 'f'}, {fc.RGBA, 'i'}, {fc.SCALE, 'f'}, {fc.MINSPACE, 'b'},
	{fc.CHARWIDTH, 'i'}, {fc.CHAR_HEIGHT, 'i'}, {fc.MATRIX, 'm'}, {fc.CHARSET, 'c'}, {fc.LANG, 'l'}, {fc.FONTVERSION, 'i'}, {fc.CAPABILITY, 's'}, {fc.FONTFORMAT, 's'},
	{fc.EMBOLDEN, 'b'}, {fc.EMBEDDED_BITMAP, 'b'}, {fc.DECORATIVE, 'b'}, {fc.LCD_FILTER, 'i'}, {fc.NAMELANG, 's'}, {fc.FONT_FEATURES, 's'}, {fc.PRGNAME, 's'}, {fc.HASH, 's'},
	{fc.POSTSCRIPT_NAME, 's'}, {fc.COLOR, 'b'}, {fc.SYMBOL, 'b'}, {fc.FONT_VARIATIONS, 's'}, {fc.VARIABLE, 'b'}, {fc.FONT_HAS_HINT, 'b'}, {fc.ORDER, 'i'},
}

func genValue(s *Stream, kind byte) fc.Value {
	switch kind {
	case 's':
		w := words[s.Intn(len(words))]
		if s.Chance(1, 12) {
			w = strings.Repeat(w+"x", s.Range(1, 400))
		}
		return fc.String(w)
	case 'i':
		if s.Chance(1, 8) {
			return fc.Int(int32(s.Intn(1<<16)<<16 | s.Intn(1<<16)))
		}
		return fc.Int([]int32{0, 1, -1, 100, 180, 1 << 16, 2 << 16, math.MaxInt32, math.MinInt32}[s.Intn(9)])
	case 'f':
		if s.Chance(1, 8) {
			return fc.Float(float32(s.Intn(1<<24)) / 1024)
		}
		return fc.Float([]float32{0, 12, 0.5, -1, 1e-30, 3e38, 96}[s.Intn(7)])
	case 'b':
		return fc.Bool(s.Intn(3))
	case 'm':
		if s.Chance(1, 3) {
			return fc.Matrix{Xx: float32(s.Intn(9)) / 4, Xy: float32(s.Intn(9)) / 8, Yx: -float32(s.Intn(9)) / 16, Yy: float32(s.Intn(9)) / 32}
		}
		return fc.Matrix{Xx: 1, Xy: float32(s.Intn(3)), Yx: -0.25 * float32(s.Intn(3)), Yy: 1}
	case 'r':
		switch s.Intn(3) {
		case 0:
			return fc.Float(float32(s.Intn(3)) * 80)
		case 1:
			return fc.Int(int32(s.Intn(3)) * 100)
		}
		a := float32(s.Intn(200))
		if s.Chance(1, 4) {
			a += float32(s.Intn(16)) / 16
			return fc.Range{Begin: a, End: a + float32(s.Intn(1600))/16}
		}
		return fc.Range{Begin: a, End: a + float32(s.Intn(100))}
	case 'c':
		return genCharset(s)
	case 'l':
		n := s.Intn(5)
		if n == 0 { // NewLangset("") holds an empty extra tag, which is not saved
			return fc.Langset{}
		}
		var l []string
		for i := 0; i < n; i++ {
			if s.Chance(1, 3) {
				l = append(l, tableTags[s.Intn(len(tableTags))])
				continue
			}
			l = append(l, langTags[s.Intn(len(langTags))])
		}
		return fc.NewLangset(strings.Join(l, "|"))
	}
	return fc.Int(0)
}

func genCharset(s *Stream) fc.Charset {
	var cs fc.Charset
	n := s.Intn(6)
	if s.Chance(1, 16) { // many pages
		step, from := s.Range(1, 3), rune(s.Intn(0x10000))
		for i, k := 0, s.Range(100, 700); i < k; i++ {
			cs.AddChar(from + rune(i*step)*0x100)
		}
	}
	for i := 0; i < n; i++ {
		base := []rune{0, 0x41, 0x3B1, 0x5D0, 0x4E00, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0xFE, 0x100}[s.Intn(11)]
		k := s.Intn(4) * s.Intn(40)
		for j := 0; j <= k; j++ {
			if base+rune(j) <= 0x10FFFF {
				cs.AddChar(base + rune(j))
			}
		}
	}
	return cs
}

// genPattern builds an arbitrary pattern with every type of value and strength.
func genPattern(s *Stream) fc.Pattern {
	p := fc.NewPattern()
	n := s.Intn(8)
	if s.Chance(1, 8) {
		n = s.Range(8, 52)
	}
	for i := 0; i < n; i++ {
		o := allObjects[s.Intn(len(allObjects))]
		obj := o.obj
		if s.Chance(1, 12) {
			obj = fc.FirstCustomObject + fc.Object(s.Intn(20))
			if s.Chance(1, 4) { // far beyond the ones a configuration names
				obj = fc.FirstCustomObject + fc.Object(s.Intn(math.MaxUint16-int(fc.FirstCustomObject)))
			}
		}
		k := 1
		if s.Chance(1, 4) {
			k = s.Range(0, 5)
		}
		for j := 0; j < k; j++ {
			p.Add(obj, genValue(s, o.kind), s.Intn(3) != 2)
		}
	}
	return p
}

// weaken gives some values of p other strengths, through a substitution.
var bindConf = `<fontconfig><match target="pattern"><edit name="family" mode="append_last" binding="weak"><string>Weak Fam</string></edit>
<edit name="family" mode="prepend" binding="same"><string>Same Fam</string></edit>
<edit name="size" mode="append" binding="weak"><double>11</double></edit>
<edit name="antialias" mode="assign" binding="same"><bool>true</bool></edit></match></fontconfig>`

var bindConfig *fc.Config

func weaken(p fc.Pattern) {
	if bindConfig == nil {
		cf := fc.NewConfig()
		if err := cf.LoadFromMemory(strings.NewReader(bindConf)); err != nil {
			harnessBug("bindConf: %v", err)
		}
		bindConfig = cf
	}
	bindConfig.Substitute(p, nil, fc.MatchQuery)
}

// ---- databases ----

// scanWorld scans the given font files, alone on a healthy machine.
var dbCache = map[string][]byte{}

// database returns a freshly loaded font database made of the given fonts.
func database(key string, list []namedFont) fc.Fontset {
	scan := func() fc.Fontset {
		w := vos.NewWorld()
		for _, f := range list {
			w.PutFile(f.Path, f.Data())
		}
		old := vos.Current()
		vos.Use(w)
		cf := fc.NewConfig()
		fs, err := cf.ScanFontDirectories("/fonts")
		vos.Use(old)
		if err != nil || len(fs) == 0 {
			harnessBug("scanning the fixture fonts %s: %d fonts, %v", key, len(fs), err)
		}
		return fs
	}
	b, ok := dbCache[key]
	if !ok {
		var mw memWriter
		mw.fail = -1
		if err := scan().Serialize(&mw); err == nil {
			b = mw.buf
		}
		dbCache[key] = b
	}
	fs, err := fc.LoadFontset(strings.NewReader(string(b)))
	if err != nil {
		return scan() // saving or loading does not work; it is for others to tell
	}
	return fs
}

// warmup makes the process-wide tables of the library be built before the
// first run, so that the first run of a process is like any other.
func warmup(p *Prop) {
	if p.Fresh {
		return
	}
	Try(func() { // what goes wrong will again in the runs
		resetGlobals()
		database("small", smallFonts)
		if p.Warm != nil {
			p.Warm()
		}
	})
}
