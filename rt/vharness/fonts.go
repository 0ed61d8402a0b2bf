package main

// Font files used by the runs: a few real fonts of every supported format, and
// small ones synthesised from them (names, weights, coverage, collections,
// variable instances).

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"unicode/utf16"
)

var dataDir string

var fileCache = map[string][]byte{}

// fontFile returns the bytes of a real font file.
func fontFile(name string) []byte {
	if b, ok := fileCache[name]; ok {
		return b
	}
	b, err := os.ReadFile(filepath.Join(dataDir, "fonts", name))
	if err != nil {
		panic(harnessError{msg: fmt.Sprintf("font data: %v", err), fatal: true})
	}
	fileCache[name] = b
	return b
}

type sfnt struct {
	magic  uint32
	tables map[string][]byte
}

func parseSfnt(b []byte) *sfnt {
	s := &sfnt{magic: binary.BigEndian.Uint32(b), tables: map[string][]byte{}}
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		off, l := binary.BigEndian.Uint32(e[8:]), binary.BigEndian.Uint32(e[12:])
		s.tables[string(e[:4])] = append([]byte(nil), b[off:off+l]...)
	}
	return s
}

func (s *sfnt) clone() *sfnt {
	o := &sfnt{magic: s.magic, tables: map[string][]byte{}}
	for k, v := range s.tables {
		o.tables[k] = append([]byte(nil), v...)
	}
	return o
}

// build serialises the font, for a file offset of base
func (s *sfnt) build(base int) []byte {
	var tags []string
	for t := range s.tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	hdr := make([]byte, 12+16*len(tags))
	binary.BigEndian.PutUint32(hdr, s.magic)
	binary.BigEndian.PutUint16(hdr[4:], uint16(len(tags)))
	out := hdr
	for i, t := range tags {
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
		e := out[12+16*i:]
		copy(e, t)
		var sum uint32
		d := s.tables[t]
		for j := 0; j < len(d); j += 4 {
			var w [4]byte
			copy(w[:], d[j:])
			sum += binary.BigEndian.Uint32(w[:])
		}
		binary.BigEndian.PutUint32(e[4:], sum)
		binary.BigEndian.PutUint32(e[8:], uint32(base+len(out)))
		binary.BigEndian.PutUint32(e[12:], uint32(len(d)))
		out = append(out, d...)
	}
	return out
}

func collection(fs ...*sfnt) []byte {
	out := make([]byte, 12+4*len(fs))
	copy(out, "ttcf")
	binary.BigEndian.PutUint32(out[4:], 0x00010000)
	binary.BigEndian.PutUint32(out[8:], uint32(len(fs)))
	for i, f := range fs {
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
		binary.BigEndian.PutUint32(out[12+4*i:], uint32(len(out)))
		out = append(out, f.build(len(out))...)
	}
	return out
}

func (s *sfnt) setNames(family, style string, extra map[uint16]string) {
	names := map[uint16]string{1: family, 2: style, 4: family + " " + style, 6: family + "-" + style}
	for k, v := range extra {
		names[k] = v
	}
	var ids []int
	for k := range names {
		ids = append(ids, int(k))
	}
	sort.Ints(ids)
	out := make([]byte, 6+12*len(ids))
	binary.BigEndian.PutUint16(out[2:], uint16(len(ids)))
	binary.BigEndian.PutUint16(out[4:], uint16(len(out)))
	str := []byte{}
	for i, id := range ids {
		e := out[6+12*i:]
		binary.BigEndian.PutUint16(e, 3)
		binary.BigEndian.PutUint16(e[2:], 1)
		binary.BigEndian.PutUint16(e[4:], 0x409)
		binary.BigEndian.PutUint16(e[6:], uint16(id))
		u := utf16.Encode([]rune(names[uint16(id)]))
		binary.BigEndian.PutUint16(e[8:], uint16(2*len(u)))
		binary.BigEndian.PutUint16(e[10:], uint16(len(str)))
		for _, x := range u {
			str = append(str, byte(x>>8), byte(x))
		}
	}
	s.tables["name"] = append(out, str...)
}

// setStyle sets the weight class, width class and slant bits.
func (s *sfnt) setStyle(weight, width uint16, italic bool) {
	os2 := s.tables["OS/2"]
	binary.BigEndian.PutUint16(os2[4:], weight)
	binary.BigEndian.PutUint16(os2[6:], width)
	sel := binary.BigEndian.Uint16(os2[62:]) &^ 0x61
	head := s.tables["head"]
	mac := uint16(0)
	if italic {
		sel |= 1
		mac |= 2
	}
	if weight >= 600 {
		sel |= 0x20
		mac |= 1
	}
	if sel&0x21 == 0 {
		sel |= 0x40
	}
	binary.BigEndian.PutUint16(os2[62:], sel)
	binary.BigEndian.PutUint16(head[44:], mac)
}

// setCoverage replaces the character map: every rune of the given inclusive
// ranges maps to a glyph chosen among those of the font.
func (s *sfnt) setCoverage(ranges ...rune) {
	ng := uint32(binary.BigEndian.Uint16(s.tables["maxp"][4:]))
	type grp struct{ a, b, g uint32 }
	var gs []grp
	for i := 0; i < len(ranges); i += 2 {
		for r := uint32(ranges[i]); r <= uint32(ranges[i+1]); r++ {
			g := uint32(1)
			if ng > 2 {
				g = 1 + r%(ng-1)
			}
			gs = append(gs, grp{r, r, g})
		}
	}
	sub := make([]byte, 16+12*len(gs))
	binary.BigEndian.PutUint16(sub, 12)
	binary.BigEndian.PutUint32(sub[4:], uint32(len(sub)))
	binary.BigEndian.PutUint32(sub[12:], uint32(len(gs)))
	for i, g := range gs {
		binary.BigEndian.PutUint32(sub[16+12*i:], g.a)
		binary.BigEndian.PutUint32(sub[20+12*i:], g.b)
		binary.BigEndian.PutUint32(sub[24+12*i:], g.g)
	}
	hdr := make([]byte, 12)
	binary.BigEndian.PutUint16(hdr[2:], 1)
	binary.BigEndian.PutUint16(hdr[4:], 3)
	binary.BigEndian.PutUint16(hdr[6:], 10)
	binary.BigEndian.PutUint32(hdr[8:], 12)
	s.tables["cmap"] = append(hdr, sub...)
}

// setVariable adds a weight axis and named instances.
func (s *sfnt) setVariable(weights ...int) {
	fx := func(v int) uint32 { return uint32(v) << 16 }
	b := make([]byte, 16+20+8*len(weights))
	binary.BigEndian.PutUint16(b, 1)
	binary.BigEndian.PutUint16(b[4:], 16)
	binary.BigEndian.PutUint16(b[6:], 2)
	binary.BigEndian.PutUint16(b[8:], 1)
	binary.BigEndian.PutUint16(b[10:], 20)
	binary.BigEndian.PutUint16(b[12:], uint16(len(weights)))
	binary.BigEndian.PutUint16(b[14:], 8)
	a := b[16:]
	copy(a, "wght")
	binary.BigEndian.PutUint32(a[4:], fx(100))
	binary.BigEndian.PutUint32(a[8:], fx(400))
	binary.BigEndian.PutUint32(a[12:], fx(900))
	binary.BigEndian.PutUint16(a[18:], 2)
	for i, w := range weights {
		e := b[36+8*i:]
		binary.BigEndian.PutUint16(e, 2)
		binary.BigEndian.PutUint32(e[4:], fx(w))
	}
	s.tables["fvar"] = b
}

// synthSpec describes a synthetic font.
type synthSpec struct {
	Family, Style string
	Weight, Width uint16
	Italic        bool
	Ranges        []rune
	Instances     []int
}

var latin = []rune{0x20, 0x7E, 0xA0, 0xFF}

var synthCache = map[string]*sfnt{}

func synth(sp synthSpec) *sfnt {
	base := synthCache["base"]
	if base == nil {
		base = parseSfnt(fontFile("cmapTest.ttf"))
		synthCache["base"] = base
	}
	s := base.clone()
	s.setNames(sp.Family, sp.Style, nil)
	if sp.Weight == 0 {
		sp.Weight = 400
	}
	if sp.Width == 0 {
		sp.Width = 5
	}
	s.setStyle(sp.Weight, sp.Width, sp.Italic)
	if len(sp.Ranges) > 0 {
		s.setCoverage(sp.Ranges...)
	}
	if len(sp.Instances) > 0 {
		s.setVariable(sp.Instances...)
	}
	return s
}

// the fonts of the standard database, by path
type namedFont struct {
	Path string
	Data func() []byte
}

func fileFont(p, name string) namedFont {
	return namedFont{p, func() []byte { return fontFile(name) }}
}

func synthFont(p string, sp synthSpec) namedFont {
	return namedFont{p, func() []byte {
		if b, ok := fileCache[p]; ok {
			return b
		}
		b := synth(sp).build(0)
		fileCache[p] = b
		return b
	}}
}

// smallFonts is a database of small fonts of many kinds.
var smallFonts = []namedFont{
	synthFont("/fonts/alpha.ttf", synthSpec{Family: "Alpha", Style: "Regular", Ranges: latin}),
	synthFont("/fonts/alpha-bold.ttf", synthSpec{Family: "Alpha", Style: "Bold", Weight: 700, Ranges: latin}),
	synthFont("/fonts/alpha-italic.ttf", synthSpec{Family: "Alpha", Style: "Italic", Italic: true, Ranges: latin}),
	synthFont("/fonts/alpha-narrow.ttf", synthSpec{Family: "Alpha", Style: "Narrow", Width: 3, Ranges: []rune{0x20, 0x7E}}),
	synthFont("/fonts/beta.ttf", synthSpec{Family: "Beta", Style: "Regular", Ranges: []rune{0x20, 0x7E, 0x370, 0x3FF, 0x400, 0x45F}}),
	synthFont("/fonts/gamma.ttf", synthSpec{Family: "Gamma", Style: "Regular", Ranges: []rune{0x20, 0x40, 0x590, 0x5F4, 0x600, 0x6FF}}),
	synthFont("/fonts/delta.ttf", synthSpec{Family: "Delta", Style: "Regular", Ranges: []rune{0x20, 0x2F, 0x3040, 0x30FF, 0x4E00, 0x4E40}}),
	synthFont("/fonts/delta2.ttf", synthSpec{Family: "Delta Two", Style: "Regular", Ranges: []rune{0x20, 0x7E, 0x4E00, 0x4E60}}),
	synthFont("/fonts/var.ttf", synthSpec{Family: "Variable", Style: "Regular", Ranges: []rune{0x20, 0x7E}, Instances: []int{200, 400, 700}}),
	{"/fonts/pair.ttc", func() []byte {
		if b, ok := fileCache["pair.ttc"]; ok {
			return b
		}
		b := collection(synth(synthSpec{Family: "Pair One", Style: "Regular", Ranges: latin}), synth(synthSpec{Family: "Pair Two", Style: "Bold", Weight: 700, Ranges: []rune{0x20, 0x5F, 0x370, 0x3FF}}))
		fileCache["pair.ttc"] = b
		return b
	}},
	fileFont("/fonts/sub/weasyprint.otf", "weasyprint.otf"),
	fileFont("/fonts/sub/8x16.pcf", "8x16.pcf"),
	fileFont("/fonts/sub/dingbats.pfb", "FoxitDingbats.pfb"),
	fileFont("/fonts/sub/fixed.pfb", "FoxitFixed.pfb"),
}

// bigFonts are real fonts with complex scripts and features.
var bigFonts = []namedFont{
	fileFont("/fonts/dejavu/DejaVuSans.ttf", "DejaVuSans.ttf"),
	fileFont("/fonts/dejavu/DejaVuSans-Bold.ttf", "DejaVuSans-Bold.ttf"),
	fileFont("/fonts/liberation/LiberationSans-Regular.ttf", "LiberationSans-Regular.ttf"),
	fileFont("/fonts/liberation/LiberationSans-Bold.ttf", "LiberationSans-Bold.ttf"),
	fileFont("/fonts/liberation/LiberationSans-Italic.ttf", "LiberationSans-Italic.ttf"),
	fileFont("/fonts/go/Go-Regular.ttf", "Go-Regular.ttf"),
	fileFont("/fonts/go/Go-Mono.ttf", "Go-Mono.ttf"),
}
