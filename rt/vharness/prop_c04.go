package main

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

// ---- a tree of files, and what a scan must find in it ----

type entry struct {
	kind string // font, damaged, junk, empty, unreadable, link
	data []byte
	dst  string
	spec []*synthSpec // what the faces are, when it is known
	anon bool         // a font without name
}

type tree struct {
	dirs  map[string]bool
	files map[string]*entry
}

func newTree() *tree { return &tree{dirs: map[string]bool{}, files: map[string]*entry{}} }

func (t *tree) mkdir(d string) {
	for ; d != "/" && d != "."; d = path.Dir(d) {
		t.dirs[d] = true
	}
}

func (t *tree) put(p string, e *entry) {
	t.mkdir(path.Dir(p))
	t.files[p] = e
}

func (t *tree) install(w *vos.World) {
	for _, d := range sortedKeys(t.dirs) {
		w.MkdirAll(d)
	}
	for _, p := range t.paths() {
		e := t.files[p]
		if e.kind == "link" {
			w.PutLink(p, e.dst)
			continue
		}
		w.PutFile(p, e.data)
		if e.kind == "unreadable" {
			w.SetNoRead(p, true)
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (t *tree) paths() []string {
	var out []string
	for k := range t.files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// found is a file a scan must open.
type found struct {
	via  string // name in the directory
	path string // the file it designates
	e    *entry
}

// resolve follows the links from p.
func (t *tree) resolve(p string) (string, *entry) {
	for i := 0; i < 20; i++ {
		e := t.files[p]
		if e == nil {
			return "", nil
		}
		if e.kind != "link" {
			return p, e
		}
		d := e.dst
		if !strings.HasPrefix(d, "/") {
			d = path.Join(path.Dir(p), d)
		}
		p = path.Clean(d)
	}
	return "", nil
}

// walk lists, in the order of a scan, the candidate files under the dirs.
func (t *tree) walk(dirs []string) []found {
	var out []found
	seen := map[string]bool{}
	var visit func(d string)
	visit = func(d string) {
		if seen[d] {
			return
		}
		seen[d] = true
		names := map[string]bool{}
		for p := range t.files {
			if path.Dir(p) == d {
				names[path.Base(p)] = true
			}
		}
		for p := range t.dirs {
			if path.Dir(p) == d && p != d {
				names[path.Base(p)] = true
			}
		}
		for _, n := range sortedKeys(names) {
			p := path.Join(d, n)
			if t.dirs[p] {
				visit(p)
				continue
			}
			if !scannedName(n) {
				continue
			}
			rp, e := t.resolve(p)
			if e == nil || e.kind == "unreadable" {
				continue
			}
			out = append(out, found{p, rp, e})
		}
	}
	for _, d := range dirs {
		visit(path.Clean(d))
	}
	return out
}

// scannedName tells if a file of that name may be a font, as documented.
func scannedName(n string) bool {
	if strings.HasPrefix(n, ".") {
		return false
	}
	for _, s := range []string{".enc.gz", ".afm", ".pfm", ".dir", ".scale", ".alias"} {
		if strings.HasSuffix(n, s) {
			return false
		}
	}
	return true
}

var aloneCache = map[string]fc.Fontset{}

// alone describes the faces of one file, scanned alone on a healthy machine.
func (c *Ctx) alone(p string, data []byte) []string {
	key := fmt.Sprintf("%x %d %s", hashStr(string(data)), len(data), p)
	fs, ok := aloneCache[key]
	if !ok {
		c.Op("scan of a file alone (%d bytes)", len(data))
		vsim.Budget(4 * opBudget)
		r, stack := Try(func() { fs, _ = fc.NewConfig().ScanFontRessource(bytes.NewReader(data), p) })
		vsim.Budget(0)
		if r != nil {
			c.rethrow(r, stack)
		}
		if len(aloneCache) < 400 {
			aloneCache[key] = fs
		}
	}
	return dumpSet(fs)
}

var specFamilies = []string{"Alpha", "Beta", "Été", "日本", "A b c", "x"}
var otWeights = []uint16{100, 200, 300, 400, 500, 600, 700, 800, 900}
var fcWeights = map[uint16]float32{100: 0, 200: 40, 300: 50, 400: 80, 500: 100, 600: 180, 700: 200, 800: 205, 900: 210}
var fcWidths = map[uint16]float32{1: 50, 2: 63, 3: 75, 4: 87, 5: 100, 6: 113, 7: 125, 8: 150, 9: 200}

func genSpec(s *Stream) synthSpec {
	sp := synthSpec{Family: specFamilies[s.Intn(len(specFamilies))], Style: []string{"Regular", "Plain", "Text"}[s.Intn(3)]}
	sp.Weight = otWeights[s.Intn(9)]
	sp.Width = uint16(s.Range(1, 9))
	sp.Italic = s.Chance(1, 3)
	n := s.Range(1, 3)
	last := rune(0x20)
	for i := 0; i < n; i++ {
		a := last + rune(s.Intn(0x180))
		b := a + rune(s.Intn(40))
		sp.Ranges = append(sp.Ranges, a, b)
		last = b + 1
	}
	if s.Chance(1, 4) {
		for i := s.Range(1, 3); i > 0; i-- {
			sp.Instances = append(sp.Instances, s.Range(1, 9)*100)
		}
	}
	return sp
}

// faces tells how many descriptions a font has.
func (sp *synthSpec) faces() int {
	n := 1
	for _, w := range sp.Instances {
		if w != 400 { // the instance that is the default one is the base face
			n++
		}
	}
	return n
}

// checkSpecs compares the descriptions of a scanned file to the fonts in it.
func (c *Ctx) checkSpecs(l []*synthSpec, pats fc.Fontset, file string) {
	n := 0
	for _, sp := range l {
		n += sp.faces()
	}
	if len(pats) != n {
		c.Fail("faces missing", "%s: %d faces described instead of %d in %d fonts", file, len(pats), n, len(l))
	}
	for i, sp := range l {
		n := sp.faces()
		c.checkSpec(sp, int32(i), pats[:n], file)
		pats = pats[n:]
	}
}

// checkSpec compares the descriptions of a scanned face to what the font is.
func (c *Ctx) checkSpec(sp *synthSpec, face int32, pats fc.Fontset, file string) {
	var cs fc.Charset
	for i := 0; i < len(sp.Ranges); i += 2 {
		for r := sp.Ranges[i]; r <= sp.Ranges[i+1]; r++ {
			cs.AddChar(r)
		}
	}
	inst := 0
	for k, p := range pats {
		idx := face
		weight := float32(sp.Weight)
		if k > 0 {
			for sp.Instances[inst] == 400 {
				inst++
			}
			idx = int32(inst+1)<<16 | face
			weight = weight * float32(sp.Instances[inst]) / 400
			inst++
		}
		bad := func(what string, got interface{}) {
			c.Fail("face misdescribed: "+what, "%s face %d: %s is %v, the font is %+v", file, k, what, got, *sp)
		}
		if f, _ := p.GetString(fc.FAMILY); f != sp.Family {
			bad("family", f)
		}
		if f, _ := p.GetString(fc.FILE); f != file {
			bad("file", f)
		}
		if v, _ := p.GetInt(fc.INDEX); v != idx {
			bad("index", v)
		}
		if v, _ := p.GetCharset(fc.CHARSET); dumpCharset(v) != dumpCharset(cs) {
			bad("coverage", v.String())
		}
		if v, _ := p.GetInt(fc.SLANT); (v == 100) != sp.Italic {
			bad("slant", v)
		}
		if v, ok := p.GetFloat(fc.WIDTH); !ok || v != fcWidths[sp.Width] {
			bad("width", v)
		}
		if v, _ := p.GetBool(fc.OUTLINE); v != 1 {
			bad("outline", v)
		}
		if v, _ := p.GetString(fc.FONTFORMAT); v != "TrueType" {
			bad("format", v)
		}
		va, _ := p.GetBool(fc.VARIABLE)
		if (va == 1) != (len(sp.Instances) > 0 && k == 0) {
			bad("variable", va)
		}
		if va == 1 {
			v, _ := p.GetAt(fc.WEIGHT, 0)
			if r, ok := v.(fc.Range); !ok || r != (fc.Range{Begin: 0, End: 210}) {
				bad("weight range", v)
			}
			continue
		}
		if st, _ := p.GetString(fc.STYLE); k == 0 && st != sp.Style {
			bad("style", st)
		}
		want, exact := fcWeights[sp.Weight], true
		if k > 0 {
			want, exact = fcWeights[uint16(weight)]
			if !exact {
				continue
			}
		}
		if v, ok := p.GetFloat(fc.WEIGHT); !ok || v != want {
			bad("weight", v)
		}
	}
}

var dirNames = []string{"a", "b", "sub", "ttf.d", "x y", ".hidden", "z"}
var exts = []string{".ttf", ".otf", ".ttc", ".pcf", ".pfb", "", ".bin", ".afm", ".enc.gz", ".dir", ".scale", ".alias", ".pfm", ".txt"}

// damagedFont returns an altered font file.
func damagedFont(s *Stream, b []byte) []byte {
	out, _ := damage(s, b)
	return saneLengths(out)
}

// saneLengths keeps the table lengths a damaged font announces under 1 MB: the
// third party parser allocates what is announced before reading it.
func saneLengths(b []byte) []byte {
	fix := func(off int) {
		if off+12 > len(b) {
			return
		}
		n := int(b[off+4])<<8 | int(b[off+5])
		for i := 0; i < n && off+28+16*i <= len(b); i++ {
			e := b[off+12+16*i:]
			e[12] = 0
			e[13] &= 0xF
		}
	}
	if len(b) > 16 && string(b[:4]) == "ttcf" {
		for i := 0; i < 8 && 16+4*i <= len(b); i++ {
			o := b[12+4*i:]
			fix(int(o[0])<<24 | int(o[1])<<16 | int(o[2])<<8 | int(o[3]))
		}
		return b
	}
	fix(0)
	return b
}

var smallish = func() []namedFont { return smallFonts }

// genTree builds a tree of files under /t1 and /t2.
func genTree(s *Stream) *tree {
	t := newTree()
	t.mkdir("/t1")
	t.mkdir("/t2")
	t.mkdir("/elsewhere")
	var dirs []string
	for i := s.Range(1, 4); i > 0; i-- {
		d := []string{"/t1", "/t2", "/elsewhere"}[s.Weighted(3, 2, 1)]
		for j := s.Intn(3); j > 0; j-- {
			d = path.Join(d, dirNames[s.Intn(len(dirNames))])
		}
		t.mkdir(d)
		dirs = append(dirs, d)
	}
	dirs = append(dirs, "/t1")
	var files []string
	for i := s.Range(1, 9); i > 0; i-- {
		d := dirs[s.Intn(len(dirs))]
		name := string(rune('a'+s.Intn(6))) + fmt.Sprint(s.Intn(3)) + exts[s.Weighted(5, 3, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1)]
		if s.Chance(1, 12) {
			name = "." + name
		}
		if s.Chance(1, 12) { // nearly one of the names which are ignored
			name = []string{"alias", "boldscale", "fontsdir", "xafm", "pfm", "x.enc", "y.gz", "enc.gz", "q.AFM", "fonts.dir.ttf", "a.alias.otf", "z.scales", "_x.ttf", "x.pfmx", "m.afm.ttf", "n.pfm.otf", "p.enc.gz.ttf", "o.scale.otf"}[s.Intn(18)]
		}
		p := path.Join(d, name)
		if t.dirs[p] || t.files[p] != nil {
			continue
		}
		e := &entry{}
		switch s.Weighted(5, 4, 3, 1, 1, 1, 2, 1) {
		case 0:
			sp := genSpec(s)
			e.kind, e.data, e.spec = "font", synth(sp).build(0), []*synthSpec{&sp}
			if s.Chance(1, 4) { // a collection
				e.kind = "collection"
				var l []*sfnt
				for k := s.Range(1, 3); k > 0; k-- {
					sp := genSpec(s)
					e.spec = append(e.spec, &sp)
				}
				for _, sp := range e.spec {
					l = append(l, synth(*sp))
				}
				e.data = collection(l...)
			}
		case 1:
			e.kind, e.data = "font", smallFonts[s.Intn(len(smallFonts))].Data()
		case 2:
			e.kind, e.data = "damaged", damagedFont(s, smallFonts[s.Intn(len(smallFonts))].Data())
		case 3:
			e.kind, e.data = "junk", []byte(strings.Repeat("not a font\n", s.Intn(50)))
		case 4:
			e.kind, e.data = "empty", nil
		case 5:
			e.kind, e.data = "unreadable", smallFonts[s.Intn(len(smallFonts))].Data()
		case 6:
			e.kind = "link"
			switch {
			case len(files) > 0 && s.Chance(3, 4):
				e.dst = files[s.Intn(len(files))]
				if strings.HasPrefix(e.dst, d+"/") && s.Chance(1, 2) {
					e.dst = e.dst[len(d)+1:]
				}
			case s.Chance(1, 3):
				e.dst = dirs[s.Intn(len(dirs))] // to a directory: not followed
			case s.Chance(1, 2):
				e.dst = "/nowhere/x.ttf"
			default:
				e.dst = p // a loop
			}
		case 7: // no name at all: the family comes from the file name
			f := parseSfnt(fontFile("cmapTest.ttf")).clone()
			f.setNames("", "", nil)
			delete(f.tables, "name")
			f.tables["name"] = []byte{0, 0, 0, 0, 0, 6}
			e.kind, e.data, e.anon = "font", f.build(0), true
		}
		t.put(p, e)
		files = append(files, p)
	}
	return t
}

func genDirs(s *Stream, t *tree) []string {
	dirs := []string{"/t1"}
	all := sortedKeys(t.dirs)
	for i := s.Intn(4); i > 0; i-- {
		dirs = append(dirs, all[s.Intn(len(all))])
	}
	for i := len(dirs) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		dirs[i], dirs[j] = dirs[j], dirs[i]
	}
	return dirs
}

type group struct {
	f    found
	pats []string
}

func (c *Ctx) expected(fnd []found) (out []group, flat []string) {
	for _, f := range fnd {
		g := group{f, nil}
		if t := f.e; t.data != nil {
			g.pats = c.alone(f.path, t.data)
		}
		out = append(out, g)
		flat = append(flat, g.pats...)
	}
	return out, flat
}

// linkDirs: a link to a directory is a file the scan may open and ignore.

func runC04(c *Ctx) {
	s := c.S("prog")
	fl := c.S("fault")
	ord := c.S("order")
	t := genTree(s)
	w := c.World()
	t.install(w)
	for round := s.Range(1, 3); round > 0; round-- {
		dirs := genDirs(s, t)
		fnd := t.walk(dirs)
		vos.Use(w)
		groups, flat := c.expected(fnd)
		for _, f := range fnd {
			c.State(mix(hashStr(f.path), hashStr(f.e.kind)))
		}
		partial := s.Chance(1, 6)
		setOrder(ord)
		j := &inject{s: fl, flipOK: fontFlip(w)} // the font parsers, third party, do not support short reads
		if fl.Chance(2, 3) {
			j.rate, j.max = []int{3, 20, 100}[fl.Intn(3)], 1+fl.Intn(3)
		}
		j.arm(w)
		cf := fc.NewConfig()
		var got fc.Fontset
		var err error
		c.Note("dirs %v, %d candidates, %d faces expected", dirs, len(fnd), len(flat))
		if partial {
			c.runPartial(w, j, dirs, fnd)
			w.Inject = nil
			c.Faults(w)
			continue
		}
		c.Guard("ScanFontDirectories", 4*opBudget, func() { got, err = cf.ScanFontDirectories(dirs...) })
		w.Inject = nil
		if h := w.OpenHandles(); len(h) > 0 {
			c.Fail("handle leak", "the scan (error %v) leaves open %v; faults %v", err, h, w.Trace)
		}
		nf := c.Faults(w)
		c.Note("scan: %d patterns, error %v", len(got), err != nil)
		if nf > 0 || len(t.files) > 1 {
			c.NonTrivial()
		}
		if err != nil {
			if len(j.hits) == 0 {
				c.Fail("scan refused", "scanning %v fails without any storage failure: %v", dirs, err)
			}
			c.Count("scans reporting a failure", 1)
			continue
		}
		for _, op := range j.hits {
			if op.Kind == "readdir" {
				c.Fail("directory failure hidden", "listing %s failed but the scan returned no error", op.Path)
			}
		}
		d := dumpSet(got)
		if len(j.hits) == 0 {
			if x := diffStrings(flat, d); x != "" {
				c.Fail("scan differs", "scanning %v: %s\nfiles expected: %s", dirs, x, describe(groups))
			}
			// what the fonts are, for the synthetic ones
			k := 0
			for _, g := range groups {
				if g.f.e.spec != nil {
					c.checkSpecs(g.f.e.spec, got[k:k+len(g.pats)], g.f.path)
				}
				if g.f.e.anon {
					want := strings.TrimSuffix(path.Base(g.f.path), path.Ext(g.f.path))
					f, _ := got[k].GetString(fc.FAMILY)
					if len(g.pats) != 1 || f != want {
						c.Fail("face misdescribed: family", "%s has no name: %d faces, family %q", g.f.path, len(g.pats), f)
					}
				}
				k += len(g.pats)
			}
			continue
		}
		// a failure affects only the file concerned
		hit := map[string]bool{}
		for _, g := range groups {
			if hitFile(t, g.f, j.hits) {
				hit[g.f.path] = true
			}
		}
		k := 0
		for _, g := range groups {
			if hit[g.f.path] {
				for k < len(got) {
					if f, _ := got[k].GetString(fc.FILE); f != g.f.path {
						break
					}
					k++
				}
				continue
			}
			for _, p := range g.pats {
				if k >= len(d) || d[k] != p {
					have := "nothing"
					if k < len(d) {
						have = d[k]
					}
					c.Fail("failure spreads", "%s, not concerned by any failure (%v), is expected as\n%s\nbut the scan gives\n%s\nfiles: %s", g.f.path, j.hits, short(p), short(have), describe(groups))
				}
				k++
			}
		}
		if k != len(d) {
			c.Fail("scan differs", "unexpected pattern:\n%s", short(d[k]))
		}
	}
	// healthy again: everything is found
	dirs := genDirs(s, t)
	_, flat := c.expected(t.walk(dirs))
	var got fc.Fontset
	var err error
	vos.Use(w)
	w.Inject = nil
	c.Guard("ScanFontDirectories", 4*opBudget, func() { got, err = fc.NewConfig().ScanFontDirectories(dirs...) })
	if err != nil {
		c.Fail("scan refused", "scanning %v fails without any storage failure: %v", dirs, err)
	}
	if x := diffStrings(flat, dumpSet(got)); x != "" {
		c.Fail("scan differs", "scanning %v: %s", dirs, x)
	}
	vos.Use(nil)
}

// hitFile tells if one of the failed operations concerns a file.
func hitFile(t *tree, f found, hits []vos.Op) bool {
	for _, op := range hits {
		if op.Path == f.path || op.Path == f.via || strings.HasPrefix(f.via, op.Path+"/") || strings.HasPrefix(f.path, op.Path+"/") || linkStep(t, f.via, op.Path) {
			return true
		}
	}
	return false
}

// linkStep tells if p is on the chain of links that starts at via.
func linkStep(t *tree, via, p string) bool {
	for i := 0; i < 20; i++ {
		if via == p || strings.HasPrefix(via, p+"/") {
			return true
		}
		e := t.files[via]
		if e == nil || e.kind != "link" {
			return false
		}
		d := e.dst
		if !strings.HasPrefix(d, "/") {
			d = path.Join(path.Dir(via), d)
		}
		via = path.Clean(d)
	}
	return false
}

func describe(gs []group) string {
	var l []string
	for _, g := range gs {
		l = append(l, fmt.Sprintf("%s->%s (%s, %d)", g.f.via, g.f.path, g.f.e.kind, len(g.pats)))
	}
	return strings.Join(l, "; ")
}

// runPartial checks the summary scan.
func (c *Ctx) runPartial(w *vos.World, j *inject, dirs []string, fnd []found) {
	var want []string
	w.Inject = nil
	for _, f := range fnd {
		one := vos.NewWorld()
		one.PutFile("/one/font", f.e.data)
		vos.Use(one)
		c.Guard("PartialScanFontDirectories", 4*opBudget, func() {
			l, err := fc.PartialScanFontDirectories("/one")
			if err != nil {
				c.Fail("scan refused", "summary scan of a file alone: %v", err)
			}
			for _, x := range l {
				want = append(want, fmt.Sprintf("%+v", x))
			}
		})
	}
	vos.Use(w)
	j.arm(w)
	var got []string
	var err error
	c.Guard("PartialScanFontDirectories", 4*opBudget, func() {
		l, e := fc.PartialScanFontDirectories(dirs...)
		err = e
		for _, x := range l {
			got = append(got, fmt.Sprintf("%+v", x))
		}
	})
	w.Inject = nil
	if h := w.OpenHandles(); len(h) > 0 {
		c.Fail("handle leak", "the summary scan (error %v) leaves open %v", err, h)
	}
	if len(j.hits) == 0 {
		if err != nil {
			c.Fail("scan refused", "summary scan of %v fails without any storage failure: %v", dirs, err)
		}
		if x := diffStrings(want, got); x != "" {
			c.Fail("summary scan differs", "summary scan of %v (%v): %s\n%v\n%v", dirs, describe2(fnd), x, want, got)
		}
	}
	c.Count("summary scans", 1)
}

func init() { register(&Prop{ID: "C04", Run: runC04}) }

func describe2(fs []found) (out []string) {
	for _, f := range fs {
		out = append(out, fmt.Sprintf("%s->%s (%s)", f.via, f.path, f.e.kind))
	}
	return out
}
