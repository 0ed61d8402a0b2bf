package main

// C18: in every state a layout keeps within the limits set on it.

import (
	"fmt"

	"MODULE_PATH/pango"
)

func init() { register(&Prop{ID: "C18", Run: runC18}) }

func runC18(c *Ctx) {
	driveLayout(c, func(set *laySet, l *pango.Layout) {
		c.Guard("limits", 4e8, func() { limits(c, set, l) })
	})
}

func width(run *pango.GlyphItem) pango.Unit {
	var w pango.Unit
	for _, g := range run.Glyphs.Glyphs {
		w += g.Geometry.Width
	}
	return w
}

const lineSep = '\u2028'

func limits(c *Ctx, set *laySet, l *pango.Layout) {
	bad := func(sig, format string, args ...interface{}) {
		c.Fail(sig, "%s:\n%s\n%s", set, fmt.Sprintf(format, args...), describeLines(l))
	}
	wrapped, ellipsized := l.IsWrapped(), l.IsEllipsized()
	lines := l.GetLinesReadonly()
	attrs := l.GetCharacterAttributes()
	text := l.Text
	// the spacing of letters is moved about at the ends of runs and lines
	spaced := false
	for _, a := range l.Attributes {
		if a.Kind == pango.ATTR_LETTER_SPACING {
			spaced = true
		}
	}
	limited := set.ellipsize != pango.ELLIPSIZE_NONE && set.width >= 0

	cont, sepEnd, ells := false, false, 0
	nPara := 0 // lines in the paragraph
	for k, line := range lines {
		end := line.StartIndex + line.Length
		if line.IsParagraphStart {
			nPara = 0
		} else {
			cont = true
		}
		nPara++
		if limited && set.height < 0 && nPara > -int(set.height) {
			bad("more lines than allowed in a paragraph", "line %d is the %dth", k, nPara)
		}
		more := k+1 < len(lines) && !lines[k+1].IsParagraphStart
		sep := !set.single && end > line.StartIndex && text[end-1] == lineSep
		if sep {
			sepEnd = true
		}
		if more && !sep {
			if set.width < 0 {
				bad("line broken without a width", "line %d", k)
			}
			a := attrs[end]
			ok := a.IsLineBreak()
			if set.wrap != pango.WRAP_WORD {
				ok = ok || a.IsCharBreak()
			}
			if !ok {
				bad("line broken where it is not allowed", "line %d ends at %d, %v", k, end, a)
			}
		}
		// ellipsis
		el := 0
		for run := line.Runs; run != nil; run = run.Next {
			if run.Data.Item.Analysis.Flags&pango.AFIsEllipsis != 0 {
				el++
			}
		}
		ells += el
		if el > 1 {
			bad("several ellipsis in a line", "line %d", k)
		}
		if el > 0 && !limited {
			bad("ellipsis without a limit", "line %d", k)
		}
		if el > 0 && more {
			bad("ellipsis before the last line of a paragraph", "line %d", k)
		}
		var lw pango.Unit
		for run := line.Runs; run != nil; run = run.Next {
			lw += width(run.Data)
		}
		avail := set.width
		if set.width >= 0 && set.align != pango.ALIGN_CENTER {
			if line.IsParagraphStart && set.indent >= 0 {
				avail -= set.indent
			} else if !line.IsParagraphStart && set.indent < 0 {
				avail += set.indent
			}
			if avail < 0 {
				avail = 0
			}
		}
		if set.width >= 0 && lw > avail && !spaced {
			c.Count("line too wide", 1)
			if el > 0 {
				var others pango.Unit
				for run := line.Runs; run != nil; run = run.Next {
					if run.Data.Item.Analysis.Flags&pango.AFIsEllipsis == 0 {
						others += width(run.Data)
					}
				}
				if others > 0 {
					bad("ellipsized line too wide", "line %d, %d of %d, %d without the ellipsis", k, lw, avail, others)
				}
			} else if limited && set.height < 0 && nPara == -int(set.height) {
				bad("line which should be ellipsized too wide", "line %d, %d of %d", k, lw, avail)
			} else {
				earlier(bad, set, line, text, attrs, k, avail)
			}
		}
		if set.justify && (more || set.justifyLast) && el == 0 && avail > 0 && lw < avail && !spaced {
			widths, _ := clusterWidths(line)
			for i, w := range widths {
				if w > 0 && attrs[line.StartIndex+i].IsExpandableSpace() {
					bad("justified line shorter than the width", "line %d, %d of %d", k, lw, avail)
					break
				}
			}
		}
		if more && !sep && set.wrap == pango.WRAP_WORD_CHAR && set.width >= 0 && !attrs[end].IsLineBreak() && !spaced {
			c.Count("line broken inside a word", 1)
			between(bad, line, text, attrs, k, avail)
		}
	}
	if ellipsized != (ells > 0) {
		bad("IsEllipsized", "%v, %d runs", ellipsized, ells)
	}
	if wrapped && !cont && !sepEnd || cont && !wrapped {
		bad("IsWrapped", "%v", wrapped)
	}
}

// earlier reports a line which exceeds the width it has although one of its
// beginnings fits, after which breaking is allowed. Tabs have no width of their
// own, the space where a line is broken does not count, and glyphs may have
// another width at the end of a line than inside, except after a space.
func earlier(bad func(sig, format string, args ...interface{}), set *laySet, line *pango.LayoutLine, text []rune, attrs []pango.CharAttr, k int, avail pango.Unit) {
	start, end := line.StartIndex, line.StartIndex+line.Length
	widths, first := clusterWidths(line)
	var lw, w pango.Unit
	last := end
	for last > start && (attrs[last-1].IsWhite() || widths[last-1-start] == 0 && first[last-1-start]) {
		last--
	}
	for i := start; i < last; i++ {
		if text[i] == '\t' {
			return
		}
		lw += widths[i-start]
	}
	if end < len(text) && attrs[end].IsBreakInsertsHyphen() { // it may have been added afterwards
		for i := last - 1; i >= start; i-- {
			if first[i-start] {
				lw -= widths[i-start]
				break
			}
		}
	}
	if lw <= avail {
		return
	}
	for i := start; i < last; i++ {
		need := atMost(w, i, start, widths, attrs)
		if i > start && first[i-start] && !attrs[i].IsBreakInsertsHyphen() && need <= avail &&
			(attrs[i].IsLineBreak() || set.wrap != pango.WRAP_WORD && attrs[i].IsCharBreak()) {
			bad("line wider than allowed which could be broken earlier", "line %d has %d of %d; up to %d: %d; %v", k, lw, avail, i, need, widths)
		}
		w += widths[i-start]
	}
}

// atMost returns what the beginning of a line up to i would need, being w wide in it.
func atMost(w pango.Unit, i, start int, widths []pango.Unit, attrs []pango.CharAttr) pango.Unit {
	if i > start && attrs[i-1].IsWhite() {
		return w - widths[i-1-start]
	}
	return w + w/2 + 2*pango.Scale
}

// clusterWidths returns the widths by the first character of clusters, and which ones these are.
func clusterWidths(line *pango.LayoutLine) (widths []pango.Unit, first []bool) {
	widths, first = make([]pango.Unit, line.Length), make([]bool, line.Length)
	for run := line.Runs; run != nil; run = run.Next {
		it := run.Data.Item
		for j, g := range run.Data.Glyphs.Glyphs {
			at := it.Offset + run.Data.Glyphs.LogClusters[j] - line.StartIndex
			widths[at] += g.Geometry.Width
			first[at] = true
		}
	}
	return
}

// between reports a line broken inside a word which could be broken between
// words, which the mode prefers.
func between(bad func(sig, format string, args ...interface{}), line *pango.LayoutLine, text []rune, attrs []pango.CharAttr, k int, avail pango.Unit) {
	start := line.StartIndex
	widths, first := clusterWidths(line)
	var w pango.Unit
	for i := start; i < start+line.Length; i++ {
		if text[i] == '\t' {
			return
		}
		if i > start && first[i-start] && attrs[i].IsLineBreak() && !attrs[i].IsBreakInsertsHyphen() {
			if need := atMost(w, i, start, widths, attrs); need <= avail {
				bad("line broken inside a word which could be broken between words", "line %d has %d; up to %d: %d; %v", k, avail, i, need, widths)
			}
		}
		w += widths[i-start]
	}
}
