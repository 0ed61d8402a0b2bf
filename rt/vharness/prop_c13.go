package main

// C13: whatever state a layout is in, it accounts for all its text.

import (
	"fmt"

	"github.com/benoitkugler/textlayout/fonts"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/pango"
	"MODULE_PATH/pango/fcfonts"
	"MODULE_PATH/zz_verif/vos"
)

func init() { register(&Prop{ID: "C13", Run: runC13}) }

// flakyLoader fails to load faces now and then, or always.
type flakyLoader struct {
	c        *Ctx
	s        *Stream
	num, den int
	next     fcfonts.FaceLoader
	failed   int
}

func (l *flakyLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	if l.s.Chance(l.num, l.den) {
		l.failed++
		l.c.Count("fault:face not loaded", 1)
		l.c.faultN++
		return nil, fmt.Errorf("injected failure for %s", key.File)
	}
	return l.next.LoadFace(key, format)
}

func runC13(c *Ctx) {
	driveLayout(c, func(set *laySet, l *pango.Layout) { checkText(c, set, l, 4e8) })
}

// driveLayout takes a layout through a random history and checks it in the
// course of it.
func driveLayout(c *Ctx, check func(*laySet, *pango.Layout)) {
	s := c.S("run")
	env := genEnv(c, c.S("env"))
	env.world(c)
	maxText := 60
	if c.Tier > 0 {
		maxText = 200
	}
	budget := int64(4e8)

	fm := env.fontMap()
	var flaky *flakyLoader
	if env.loader != nil && s.Chance(1, 4) {
		flaky = &flakyLoader{c: c, s: c.S("loader"), den: 4, num: []int{1, 2, 3, 4}[s.Intn(4)], next: env.loader}
		fm.SetFaceLoader(flaky)
	}
	xs := genCtx(c.S("ctx"))
	c.Note("%s", xs)
	ctx := xs.newContext(fm)
	set := genLay(c.S("set"), s.Intn(5), maxText)
	c.Note("%s", &set)
	var l *pango.Layout
	c.Guard("newLayout", budget, func() { l = set.newLayout(ctx) })

	steps := s.Range(1, 6)
	if c.Tier > 0 {
		steps = s.Range(1, 14)
	}
	for k := 0; k < steps; k++ {
		switch s.Weighted(4, 2, 1, 3) {
		case 0:
			m := set.mutate(c.S("mut"), maxText)
			c.Count("change "+m.name, 1)
			c.Guard(m.name, budget, func() { m.apply(l) })
		case 1:
			q := ""
			c.Guard("query", budget, func() { q = query(c.S("query"), l) })
			c.Count("query "+q, 1)
		case 2:
			xs = genCtx(c.S("ctx"))
			c.Note("%s", xs)
			c.Guard("context", budget, func() {
				if xs.desc != nil {
					ctx.SetFontDescription(*xs.desc)
				}
				ctx.SetLanguage(xs.lang)
				ctx.Matrix = cloneMatrix(xs.matrix)
				ctx.SetBaseGravity(xs.gravity)
				ctx.SetRoundGlyphPositions(!xs.round)
				ctx.SetRoundGlyphPositions(xs.round)
			})
		case 3:
			check(&set, l)
		}
	}
	check(&set, l)
	c.Faults(vos.Current())
	if len(l.Text) > 0 {
		c.NonTrivial()
	}
}

// checkText verifies that the answers of a layout account for its text.
func checkText(c *Ctx, set *laySet, l *pango.Layout, budget int64) {
	c.Guard("account", budget, func() {
		if msg := account(set, l, c); msg != "" {
			c.Note("%s", msg)
		}
	})
}

func isSeparator(t []rune, i int) int {
	switch t[i] {
	case '\r':
		if i+1 < len(t) && t[i+1] == '\n' {
			return 2
		}
		return 1
	case '\n', '\u2029':
		return 1
	}
	return 0
}

type visit struct{ line, index, len int }

func account(set *laySet, l *pango.Layout, c *Ctx) string {
	bad := func(sig, format string, args ...interface{}) {
		c.Fail(sig, "%s:\n%s\n%s", set, fmt.Sprintf(format, args...), describeLines(l))
	}
	text := set.text
	n := len(text)
	if string(l.Text) != string(text) {
		bad("text is not the one given", "%q", string(l.Text))
	}
	lines := l.GetLinesReadonly()
	if l.GetLineCount() != len(lines) || len(lines) == 0 {
		bad("line count", "%d, but %d lines", l.GetLineCount(), len(lines))
	}
	if l.GetLine(-1) != nil || l.GetLine(len(lines)) != nil {
		bad("line out of range", "")
	}
	h := uint64(len(lines))
	// lines
	pos := 0 // where the next line should start
	cut := set.height >= 0
	for k, line := range lines {
		if l.GetLine(k) != line {
			bad("GetLine differs", "line %d", k)
		}
		if line.Length < 0 || line.StartIndex < 0 || line.StartIndex+line.Length > n {
			bad("line outside the text", "line %d: %d+%d", k, line.StartIndex, line.Length)
		}
		if k == 0 {
			if !line.IsParagraphStart || line.StartIndex != 0 {
				bad("first line", "starts at %d, paragraph start %v", line.StartIndex, line.IsParagraphStart)
			}
		} else {
			want := pos
			if line.IsParagraphStart {
				sep := 0
				if pos < n {
					sep = isSeparator(text, pos)
				}
				if sep == 0 || set.single {
					bad("paragraph without separator", "line %d starts at %d after the end %d", k, line.StartIndex, pos)
				}
				want += sep
			}
			if line.StartIndex != want {
				bad("gap or overlap between lines", "line %d starts at %d, expected %d", k, line.StartIndex, want)
			}
		}
		pos = line.StartIndex + line.Length
		if !set.single {
			for i := line.StartIndex; i < pos; i++ {
				if isSeparator(text, i) != 0 {
					bad("separator inside a line", "line %d, at %d", k, i)
				}
			}
		}
		h = mix(mix(h, uint64(line.StartIndex)), uint64(line.Length))
	}
	if pos != n {
		if !cut {
			bad("text after the last line", "lines end at %d of %d", pos, n)
		} else if isSeparator(text, pos) == 0 && (set.ellipsize != pango.ELLIPSIZE_NONE) {
			bad("text cut inside a paragraph", "lines end at %d of %d", pos, n)
		}
	}
	// runs
	var chars, clusters []visit
	type runRef struct {
		line int
		run  *pango.GlyphItem
	}
	var runs []runRef
	covered := make([]int, n)
	for k, line := range lines {
		total := 0
		for run := line.Runs; run != nil; run = run.Next {
			it, gs := run.Data.Item, run.Data.Glyphs
			runs = append(runs, runRef{k, run.Data})
			if it.Length <= 0 || it.Offset < line.StartIndex || it.Offset+it.Length > line.StartIndex+line.Length {
				bad("run outside its line", "line %d [%d,%d[: run %d+%d", k, line.StartIndex, line.StartIndex+line.Length, it.Offset, it.Length)
			}
			for i := it.Offset; i < it.Offset+it.Length; i++ {
				covered[i]++
			}
			total += it.Length
			if len(gs.Glyphs) != len(gs.LogClusters) || len(gs.Glyphs) == 0 {
				bad("glyphs and clusters of a run", "line %d, run %d+%d: %d glyphs, %d clusters", k, it.Offset, it.Length, len(gs.Glyphs), len(gs.LogClusters))
			}
			ltr := run.Data.LTR()
			prev := -1
			m := len(gs.LogClusters)
			for g := range gs.LogClusters {
				v := gs.LogClusters[g]
				if !ltr {
					v = gs.LogClusters[m-1-g]
				}
				if v < 0 || v >= it.Length {
					bad("cluster outside its run", "line %d, run %d+%d: clusters %v", k, it.Offset, it.Length, gs.LogClusters)
				}
				if g == 0 && v != 0 {
					bad("characters of a run without cluster", "line %d, run %d+%d: clusters %v", k, it.Offset, it.Length, gs.LogClusters)
				}
				if v < prev {
					bad("clusters not monotonic", "line %d, run %d+%d: clusters %v", k, it.Offset, it.Length, gs.LogClusters)
				}
				prev = v
			}
			// clusters, in visual order
			var cl []visit // in logical order
			for g := range gs.LogClusters {
				v := gs.LogClusters[g]
				if !ltr {
					v = gs.LogClusters[m-1-g]
				}
				if len(cl) == 0 || cl[len(cl)-1].index != it.Offset+v {
					cl = append(cl, visit{k, it.Offset + v, 0})
				}
			}
			for j := range cl {
				end := it.Offset + it.Length
				if j+1 < len(cl) {
					end = cl[j+1].index
				}
				cl[j].len = end - cl[j].index
			}
			checkItemIter(bad, l.Text, run.Data, cl)
			for j := range cl {
				x := cl[j]
				if !ltr {
					x = cl[len(cl)-1-j]
					for i := x.index + x.len - 1; i >= x.index; i-- {
						chars = append(chars, visit{k, i, 1})
					}
				} else {
					for i := x.index; i < x.index+x.len; i++ {
						chars = append(chars, visit{k, i, 1})
					}
				}
				clusters = append(clusters, x)
			}
			h = mix(mix(h, uint64(it.Offset)), uint64(len(cl)))
		}
		// a position for each character of the separator which ends the line
		end := line.StartIndex + line.Length
		if k+1 < len(lines) && lines[k+1].IsParagraphStart {
			for i := end; i < lines[k+1].StartIndex; i++ {
				chars = append(chars, visit{k, end, 0})
			}
		} else if k == 0 && line.Runs == nil {
			chars = append(chars, visit{k, end, 0}) // the initial position
		}
		if total != line.Length {
			bad("runs do not cover their line", "line %d of length %d: %d characters in runs", k, line.Length, total)
		}
		for i := line.StartIndex; i < line.StartIndex+line.Length; i++ {
			if covered[i] != 1 {
				bad("character in several runs or none", "line %d, character %d in %d runs", k, i, covered[i])
			}
		}
	}
	c.State(h)
	if v := l.GetCharacterAttributes(); len(v) != n+1 {
		bad("number of log attributes", "%d for %d characters", len(v), n)
	}

	// iteration
	limit := 10*n + 10*len(lines) + 10*len(clusters) + 100
	it := l.GetIter()
	for k := 0; ; k++ {
		if k >= len(lines) || it.GetLine() != lines[k] {
			bad("iteration by line", "step %d", k)
		}
		if it.IsAtLastLine() != (k == len(lines)-1) {
			bad("IsAtLastLine", "line %d of %d", k, len(lines))
		}
		if !it.NextLine() {
			if k != len(lines)-1 {
				bad("iteration by line", "ends after line %d of %d", k, len(lines))
			}
			break
		}
	}

	it = l.GetIter()
	var got []runRef
	lineNo := func(line *pango.LayoutLine) int {
		for k, x := range lines {
			if x == line {
				return k
			}
		}
		return -1
	}
	nils := 0
	for do, k := true, 0; do; do, k = it.NextRun(), k+1 {
		if k > limit {
			bad("iteration by run does not end", "after %d", k)
		}
		ln := lineNo(it.GetLine())
		if r := it.GetRun(); r != nil {
			got = append(got, runRef{ln, r})
			if r.LTR() && it.Index != r.Item.Offset {
				bad("iteration by run", "index %d in run %d+%d", it.Index, r.Item.Offset, r.Item.Length)
			}
		} else {
			if ln != nils {
				bad("iteration by run", "line %d ends after %d others", ln, nils)
			}
			if line := it.GetLine(); leftToRight(line) && it.Index != line.StartIndex+line.Length {
				bad("iteration by run", "index %d at the end of line %d, %d+%d", it.Index, ln, line.StartIndex, line.Length)
			}
			nils++
		}
	}
	if len(got) != len(runs) || nils != len(lines) {
		bad("iteration by run", "%d runs and %d lines visited, %d and %d expected", len(got), nils, len(runs), len(lines))
	}
	for i := range got {
		if got[i] != runs[i] {
			bad("iteration by run", "step %d", i)
		}
	}

	it = l.GetIter()
	i := 0
	for do, k := true, 0; do; do, k = it.NextCluster(), k+1 {
		if k > limit {
			bad("iteration by cluster does not end", "after %d", k)
		}
		r := it.GetRun()
		if r == nil {
			continue
		}
		if i >= len(clusters) {
			bad("iteration by cluster", "more than %d clusters", len(clusters))
		}
		x := clusters[i]
		want := x.index
		if !r.LTR() {
			want += x.len - 1
		}
		if it.Index != want || lineNo(it.GetLine()) != x.line {
			bad("iteration by cluster", "step %d: index %d line %d, expected %d and %d", i, it.Index, lineNo(it.GetLine()), want, x.line)
		}
		i++
	}
	if i != len(clusters) {
		bad("iteration by cluster", "%d clusters visited of %d", i, len(clusters))
	}

	it = l.GetIter()
	i = 0
	for do, k := true, 0; do; do, k = it.NextChar(), k+1 {
		if k > limit {
			bad("iteration by character does not end", "after %d", k)
		}
		if i >= len(chars) {
			bad("iteration by character", "more than %d characters", len(chars))
		}
		x := chars[i]
		if it.GetRun() == nil {
			if x.len != 0 || lineNo(it.GetLine()) != x.line {
				bad("iteration by character", "step %d: at the end of line %d, expected %v", i, lineNo(it.GetLine()), x)
			}
			i++
			continue
		}
		if x.len == 0 {
			bad("iteration by character", "step %d: index %d line %d, expected a separator", i, it.Index, lineNo(it.GetLine()))
		}
		if it.Index != x.index || lineNo(it.GetLine()) != x.line {
			bad("iteration by character", "step %d: index %d line %d, expected %d and %d", i, it.Index, lineNo(it.GetLine()), x.index, x.line)
		}
		i++
	}
	if i != len(chars) {
		bad("iteration by character", "%d characters visited of %d", i, len(chars))
	}
	return ""
}

// leftToRight tells if the line has only left to right runs.
func leftToRight(line *pango.LayoutLine) bool {
	for r := line.Runs; r != nil; r = r.Next {
		if !r.Data.LTR() {
			return false
		}
	}
	return true
}

// checkItemIter walks the clusters of a run both ways.
func checkItemIter(bad func(sig, format string, args ...interface{}), text []rune, run *pango.GlyphItem, cl []visit) {
	var it pango.GlyphItemIter
	i := 0
	for ok := it.InitStart(run, text); ok; ok = it.NextCluster() {
		if i >= len(cl) || it.StartIndex != cl[i].index || it.EndIndex != cl[i].index+cl[i].len ||
			it.StartChar != it.StartIndex-run.Item.Offset || it.EndChar != it.EndIndex-run.Item.Offset {
			bad("iteration over the clusters of a run", "run %d+%d, step %d: [%d,%d[ [%d,%d[", run.Item.Offset, run.Item.Length, i, it.StartIndex, it.EndIndex, it.StartChar, it.EndChar)
		}
		i++
	}
	if i != len(cl) {
		bad("iteration over the clusters of a run", "run %d+%d: %d of %d", run.Item.Offset, run.Item.Length, i, len(cl))
	}
	i = len(cl)
	for ok := it.InitEnd(run, text); ok; ok = it.PrevCluster() {
		i--
		if i < 0 || it.StartIndex != cl[i].index || it.EndIndex != cl[i].index+cl[i].len ||
			it.StartChar != it.StartIndex-run.Item.Offset || it.EndChar != it.EndIndex-run.Item.Offset {
			bad("backward iteration over the clusters of a run", "run %d+%d, step %d: [%d,%d[ [%d,%d[", run.Item.Offset, run.Item.Length, i, it.StartIndex, it.EndIndex, it.StartChar, it.EndChar)
		}
	}
	if i != 0 {
		bad("backward iteration over the clusters of a run", "run %d+%d: %d left of %d", run.Item.Offset, run.Item.Length, i, len(cl))
	}
}

func describeLines(l *pango.Layout) string {
	var b []byte
	for k, line := range l.GetLinesReadonly() {
		b = append(b, fmt.Sprintf("line %d: %d+%d %v\n", k, line.StartIndex, line.Length, line.IsParagraphStart)...)
		for run := line.Runs; run != nil; run = run.Next {
			b = append(b, fmt.Sprintf("  run %d+%d level %d clusters %v\n", run.Data.Item.Offset, run.Data.Item.Length, run.Data.Item.Analysis.Level, run.Data.Glyphs.LogClusters)...)
		}
	}
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}
