From 07a1b6e333295f6e2491a5701c25217a42654631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 01/64] fix: matching an empty family or PostScript name no
 longer panics

---
 fontconfig/match.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..50c9afd 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -90,8 +90,9 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
+	// as in C, an empty string does not start with a blank
 	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
+		!strings.HasPrefix(v1String, " ") && !strings.HasPrefix(v2String, " ") {
 		return bestValue, 1.0
 	}
 
@@ -126,12 +127,18 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 	bestValue := v2
 
 	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
+		!strings.HasPrefix(v1_string, " ") && !strings.HasPrefix(v2_string, " ") {
 		return bestValue, 1.0
 	}
 
 	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
 	length := len(v1_string)
+	if length == 0 { // avoid the undefined ratio 0/0
+		if v2_string == "" {
+			return bestValue, 0
+		}
+		return bestValue, 1.0
+	}
 
 	return bestValue, float32(length-n) / float32(length)
 }
-- 
2.43.0


From cfa7c17d187de1d1f3635c6773d3b7cb14bb5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 02/64] fix: file name globs in font queries no longer recurse
 forever or index out of range

---
 fontconfig/match.go | 55 +++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 50c9afd..a02d290 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -314,45 +314,32 @@ func compareSize(v1, v2 Value) (Value, float32) {
 	return bestValue, 0.0
 }
 
+// strGlobMatch reports whether `st` matches `glob`, where
+// '*' stands for any sequence of bytes and '?' for any byte.
 func strGlobMatch(glob, st string) bool {
-	var str int // index in st
-	for i, c := range []byte(glob) {
-		switch c {
-		case '*':
-			// short circuit common case
-			if i == len(glob)-1 {
-				return true
-			}
-			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
-				l1 := len(st) - str
-				l2 := len(glob)
-				if l1 < l2 {
-					return false
-				}
-				str += (l1 - l2)
-			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
-					return true
-				}
-				str++
-			}
-			return false
-		case '?':
-			if str == len(st) {
-				return false
-			}
+	var i, str int // index in glob and st
+	star, starStr := -1, 0
+	for str < len(st) {
+		switch {
+		case i < len(glob) && glob[i] == '*':
+			// start by matching nothing
+			star, starStr = i, str
+			i++
+		case i < len(glob) && (glob[i] == '?' || glob[i] == st[str]):
+			i++
 			str++
+		case star != -1:
+			// extend the text matched by the last '*'
+			starStr++
+			i, str = star+1, starStr
 		default:
-			if st[str] != c {
-				return false
-			}
-			str++
+			return false
 		}
 	}
-	return str == len(st)
+	for i < len(glob) && glob[i] == '*' {
+		i++
+	}
+	return i == len(glob)
 }
 
 func compareFilename(v1, v2 Value) (Value, float32) {
-- 
2.43.0


From 62915dc268e08a21ac645d096272cad602ce88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 03/64] fix: damaged font caches are detected by checking the
 stored checksum

---
 fontconfig/cache.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..83b8c54 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -395,6 +395,7 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 		return nil, fmt.Errorf("invalid fontconfig compressed dump file: %s", err)
 	}
 	defer r.Close()
+	r.Multistream(false) // ignore what follows the dump
 
 	var buf [4]byte
 	if _, err := io.ReadFull(r, buf[:]); err != nil {
@@ -425,6 +426,14 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
 		}
 	}
+
+	// the gzip checksum is only verified when reaching the end of the stream
+	if _, err := io.ReadFull(r, buf[:1]); err == nil {
+		return nil, errors.New("invalid fontset: unexpected trailing data")
+	} else if err != io.EOF {
+		return nil, fmt.Errorf("invalid fontset: %s", err)
+	}
+
 	return fs, nil
 }
 
-- 
2.43.0


From e3fd4d9768c04a5f6f1a440b517436325e942a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 04/64] fix: font sets exceeding the cache format limits are
 refused when saving, unknown value types when loading

---
 fontconfig/cache.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 83b8c54..3e86c3a 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -53,6 +53,9 @@ func (p Pattern) serializeBin() ([]byte, error) {
 		w   bytes.Buffer
 		buf [2]byte
 	)
+	if len(p) > math.MaxUint16 {
+		return nil, fmt.Errorf("unsupported pattern length: %d", len(p))
+	}
 	binary.BigEndian.PutUint16(buf[:], uint16(len(p)))
 	_, err := w.Write(buf[:])
 	if err != nil {
@@ -73,6 +76,9 @@ func (p Pattern) serializeBin() ([]byte, error) {
 
 func (l valueList) serializeBin(w io.Writer) error {
 	var buf [2]byte
+	if len(l) > math.MaxUint16 {
+		return fmt.Errorf("unsupported value list length: %d", len(l))
+	}
 	binary.BigEndian.PutUint16(buf[:], uint16(len(l)))
 	_, err := w.Write(buf[:])
 	if err != nil {
@@ -301,6 +307,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		err = fmt.Errorf("invalid value type %d", type_)
 	}
 
 	return 2 + valueSize, err
@@ -350,10 +358,17 @@ func deserializePatternBin(data []byte) (Pattern, error) {
 	return pat, nil
 }
 
+// maximum number of patterns supported in a cache
+const maxFontsetLength = 1e6
+
 // Serialize serialise the content of the font set (using a custom binary encoding and gzip).
 // Since scanning the fonts is rather slow, this methods can be used in
 // conjonction with `LoadFontset` to cache the result of a scan.
 func (fs Fontset) Serialize(dst io.Writer) error {
+	if len(fs) > maxFontsetLength {
+		return fmt.Errorf("unsupported fontset length: %d", len(fs))
+	}
+
 	w := gzip.NewWriter(dst)
 
 	var buf [4]byte
@@ -403,7 +418,7 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 	}
 	// guard against malicious files with hard limit
 	L := binary.BigEndian.Uint32(buf[:])
-	if L > 1e6 {
+	if L > maxFontsetLength {
 		return nil, fmt.Errorf("unsupported fontset length: %d", L)
 	}
 
-- 
2.43.0


From f0fed8f4a3f315496c47923bf9e24f564ff7f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 05/64] fix: scanning a font with a corrupted character map
 takes a bounded time

---
 fontconfig/scan.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index cc8369a..2b8aa96 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/benoitkugler/textlayout/fonts"
 	"github.com/benoitkugler/textlayout/fonts/bitmap"
@@ -1968,7 +1969,7 @@ func getSpacing(face fonts.Face) int32 {
 
 	advances := make([]int, 0, 3)
 	iter := cmap.Iter()
-	for iter.Next() && len(advances) < 3 {
+	for count := 0; iter.Next() && len(advances) < 3 && count <= utf8.MaxRune; count++ {
 		_, glyph := iter.Char()
 		advance := int(face.HorizontalAdvance(glyph))
 		if advance != 0 {
@@ -2009,8 +2010,13 @@ func getCharSet(face fonts.Face) (Charset, fonts.CmapEncoding) {
 		off  uint32
 	)
 	iter := cmap.Iter()
-	for iter.Next() {
+	// a valid map has at most one entry per character: guard against
+	// corrupted ones, which may have overlapping or huge ranges
+	for count := 0; iter.Next() && count <= utf8.MaxRune; count++ {
 		ucs4, _ := iter.Char()
+		if ucs4 < 0 || ucs4 > utf8.MaxRune {
+			continue
+		}
 
 		/* CID fonts built by Adobe used to make ASCII control chars to cid1
 		 * (space glyph). As such, always check contour for those characters. */
-- 
2.43.0


From 06b51e056afd635f7b91305d9befb2fff8b118d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 06/64] fix: unreadable font files and dangling links no longer
 fail a whole directory scan

---
 fontconfig/config.go       | 14 ++++++++------
 fontconfig/partial_scan.go | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..28d9081 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -218,15 +218,15 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 			seen[path] = true
 			return nil
 		}
+		if !validFontFile(info.Name()) {
+			return nil
+		}
 		if info.Mode()&os.ModeSymlink != 0 {
 			path, err = filepath.EvalSymlinks(path)
-			if err != nil {
-				return err
+			if err != nil { // dangling link
+				return nil
 			}
 		}
-		if !validFontFile(info.Name()) {
-			return nil
-		}
 
 		// path selector
 		if !config.acceptFilename(path) {
@@ -234,7 +234,9 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 		}
 
 		file, err := os.Open(path)
-		if err != nil {
+		if os.IsPermission(err) || os.IsNotExist(err) { // not a readable font file
+			return nil
+		} else if err != nil {
 			return err
 		}
 		fonts := scanOneFontFile(file, path, config)
diff --git a/fontconfig/partial_scan.go b/fontconfig/partial_scan.go
index a16d1ed..6cc5457 100644
--- a/fontconfig/partial_scan.go
+++ b/fontconfig/partial_scan.go
@@ -60,18 +60,20 @@ func partialReadDir(dir string, seen map[string]bool, dst []fonts.FaceDescriptio
 			return nil
 		}
 
+		if !validFontFile(info.Name()) {
+			return nil
+		}
 		if info.Mode()&os.ModeSymlink != 0 {
 			path, err = filepath.EvalSymlinks(path)
-			if err != nil {
-				return err
+			if err != nil { // dangling link
+				return nil
 			}
 		}
-		if !validFontFile(info.Name()) {
-			return nil
-		}
 
 		file, err := os.Open(path)
-		if err != nil {
+		if os.IsPermission(err) || os.IsNotExist(err) { // not a readable font file
+			return nil
+		} else if err != nil {
 			return err
 		}
 
-- 
2.43.0


From bc07343fa36a354548cdd902d788eea0a32c8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 07/64] fix: the family of a font without name comes from its
 file name, not from its directories

---
 fontconfig/scan.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 2b8aa96..1b3cfd6 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1596,12 +1596,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	}
 
 	if nfamily == 0 && file != "" {
-		start := strings.IndexByte(file, '/')
-		end := strings.IndexByte(file, '.')
-		if end == -1 {
-			end = len(file)
+		family := file[strings.LastIndexByte(file, '/')+1:]
+		if end := strings.LastIndexByte(family, '.'); end != -1 {
+			family = family[:end]
 		}
-		family := file[start+1 : end]
 		if debugMode {
 			fmt.Printf("\tusing filename for family %s\n", family)
 		}
-- 
2.43.0


From 21e322476a97d77fd8113a8c58a90d642b90ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 08/64] fix: ScanFontFile and ScanFontRessource apply the font
 selection rules

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 28d9081..2c8dcdc 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From 088001ba9031a73ca3f12e3691c7716a1f7bcb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:17 +0000
Subject: [PATCH 09/64] fix: a corrupted file that makes a font parser panic is
 ignored as invalid when scanning

---
 fontconfig/scan.go | 52 ++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 1b3cfd6..c940338 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -3,6 +3,7 @@ package fontconfig
 import (
 	"bytes"
 	"fmt"
+	"log"
 	"sort"
 	"strings"
 	"unicode/utf8"
@@ -62,13 +63,44 @@ func scanOneFontFile(file fonts.Resource, fileID string, config *Config) Fontset
 		fmt.Printf("Scanning file %s...\n", file)
 	}
 
+	set := queryFontFile(file, fileID)
+
+	for _, font := range set {
+		// Edit pattern with user-defined rules
+		config.Substitute(font, nil, MatchScan)
+
+		font.addFullname()
+
+		if debugMode {
+			fmt.Println("Final font pattern:", font)
+			fmt.Println()
+		}
+	}
+
+	if debugMode {
+		fmt.Printf("Done. (found %d fonts)\n\n", len(set))
+	}
+
+	return set
+}
+
+// constructs the raw patterns found in 'file' (see scanOneFontFile), without
+// applying the rules of a configuration
+func queryFontFile(file fonts.Resource, fileID string) (set Fontset) {
+	// the font parsers may panic on a corrupted file: such a file is invalid,
+	// and should not prevent the others to be scanned
+	defer func() {
+		if r := recover(); r != nil {
+			log.Printf("fontconfig: invalid font file %s: %v", fileID, r)
+			set = nil
+		}
+	}()
+
 	faces, format := ReadFontFile(file)
 	if format == "" {
 		return nil
 	}
 
-	var set Fontset
-
 	for faceNum, face := range faces {
 		var pat Pattern
 
@@ -98,22 +130,6 @@ func scanOneFontFile(file fonts.Resource, fileID string, config *Config) Fontset
 		}
 	}
 
-	for _, font := range set {
-		// Edit pattern with user-defined rules
-		config.Substitute(font, nil, MatchScan)
-
-		font.addFullname()
-
-		if debugMode {
-			fmt.Println("Final font pattern:", font)
-			fmt.Println()
-		}
-	}
-
-	if debugMode {
-		fmt.Printf("Done. (found %d faces)\n\n", len(faces))
-	}
-
 	return set
 }
 
-- 
2.43.0


From 064ed8c790e47def0a1b42e872d64e685cde299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 10/64] fix: a configuration which failed to load a document is
 left unchanged

---
 fontconfig/config.go | 12 ++++++++++--
 fontconfig/xml.go    |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2c8dcdc..3e91244 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -60,12 +60,20 @@ func (c *Config) Copy() *Config {
 		return c
 	}
 
-	out := *c
+	out := c.copySelectors()
 	out.subst = make([]ruleSet, len(c.subst))
 	for i, v := range c.subst {
 		out.subst[i] = v.copy()
 	}
 
+	return &out
+}
+
+// copySelectors returns a copy of the configuration, sharing its substitution rules,
+// but with its own custom objects and font selectors
+func (c *Config) copySelectors() Config {
+	out := *c
+
 	out.customObjects = make(map[string]Object, len(c.customObjects))
 	for k, v := range c.customObjects {
 		out.customObjects[k] = v
@@ -89,7 +97,7 @@ func (c *Config) Copy() *Config {
 		out.rejectPatterns[i] = v.Duplicate()
 	}
 
-	return &out
+	return out
 }
 
 // Walks the configuration in `r` and constructs the internal representation
diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..da46f3c 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -17,14 +17,18 @@ func (config *Config) parseAndLoadFromMemory(filename string, content io.Reader)
 		fmt.Printf("Processing config file from %s", filename)
 	}
 
-	parser := newConfigParser(filename, config)
+	// the selectors and the custom objects are registered while parsing:
+	// work on a copy, so that an invalid file does not change `config`
+	staged := config.copySelectors()
+	parser := newConfigParser(filename, &staged)
 
 	err := xml.NewDecoder(content).Decode(parser)
 	if err != nil {
 		return fmt.Errorf("cannot process config file from %s: %s", filename, err)
 	}
 
-	config.subst = append(config.subst, parser.ruleset)
+	staged.subst = append(staged.subst, parser.ruleset)
+	*config = staged
 
 	return nil
 }
-- 
2.43.0


From a333c3fe5dc7b6fc560f6d0414e7b5c4b1b03548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 11/64] fix: malformed configuration documents are reported
 with an error instead of a panic or an unbounded loop

---
 fontconfig/xml.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index da46f3c..acdf943 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -303,7 +303,7 @@ func (parser *configParser) createVAndPush() *vstack {
 		ps.values = append(ps.values, vstack{})
 		return &ps.values[len(ps.values)-1]
 	}
-	return nil
+	return new(vstack) // discarded
 }
 
 func (parse *configParser) startElement(name xml.Name, attr []xml.Attr) error {
@@ -443,7 +443,7 @@ func (parser *configParser) endElement() error {
 	case elementDivide:
 		parser.parseBinary(opDivide)
 	case elementIf:
-		parser.parseBinary(opQuest)
+		err = parser.parseIf()
 	case elementNot:
 		parser.parseUnary(opNot)
 	case elementFloor:
@@ -670,13 +670,13 @@ func (parser *configParser) popExpr() *expression {
 		return nil
 	}
 	switch vstack.tag {
-	case vstackString, vstackFamily:
+	case vstackString:
 		expr = &expression{op: opString, u: vstack.u}
 	case vstackName:
 		expr = &expression{op: opField, u: vstack.u}
 	case vstackConstant:
 		expr = &expression{op: opConst, u: vstack.u}
-	case vstackPrefer, vstackAccept, vstackDefault:
+	case vstackFamily, vstackPrefer, vstackAccept, vstackDefault:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	case vstackInt:
@@ -693,7 +693,7 @@ func (parser *configParser) popExpr() *expression {
 		expr = &expression{op: opCharSet, u: vstack.u}
 	case vstackLangSet:
 		expr = &expression{op: opLangSet, u: vstack.u}
-	case vstackTest, vstackExpr:
+	case vstackExpr:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	}
@@ -734,6 +734,19 @@ func (parser *configParser) parseBinary(op opKind) {
 	}
 }
 
+// This builds a conditional expression, which requires exactly three operands
+func (parser *configParser) parseIf() error {
+	if n := len(parser.p().values); n != 3 {
+		return parser.error("wrong number %d of elements in if", n)
+	}
+	no, yes, cond := parser.popExpr(), parser.popExpr(), parser.popExpr()
+	if cond == nil || yes == nil || no == nil {
+		return parser.error("invalid element in if")
+	}
+	parser.pushExpr(vstackExpr, newExprOp(cond, newExprOp(yes, no, opQuest), opQuest))
+	return nil
+}
+
 // This builds a a unary operator, it consumes only a single operand
 func (parser *configParser) parseUnary(op opKind) {
 	operand := parser.popExpr()
@@ -916,7 +929,7 @@ func (parser *configParser) parseCharSet() error {
 		switch vstack.tag {
 		case vstackInt:
 			r := rune(vstack.u.(Int))
-			if r > maxCharsetRune {
+			if r < 0 || r > maxCharsetRune {
 				return parser.error("invalid character: 0x%04x", r)
 			} else {
 				charset.AddChar(r)
@@ -924,14 +937,13 @@ func (parser *configParser) parseCharSet() error {
 			}
 		case vstackRange:
 			ra := vstack.u.(Range)
+			if ra.Begin < 0 || ra.End > maxCharsetRune {
+				return parser.error("invalid character range: %v", ra)
+			}
 			if ra.Begin <= ra.End {
 				for r := rune(ra.Begin); r <= rune(ra.End); r++ {
-					if r > maxCharsetRune {
-						return parser.error("invalid character: 0x%04x", r)
-					} else {
-						charset.AddChar(r)
-						n++
-					}
+					charset.AddChar(r)
+					n++
 				}
 			}
 		default:
-- 
2.43.0


From 0dc9b738822600c7bbd2e7f2095ba889d7cbf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 12/64] fix: substitution rules no longer panic on deleted
 values or on family tests without string value

---
 fontconfig/substitutions.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..0f7d329 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -123,7 +123,11 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 				targetList.del(thisValue, object, table)
 			}
 
-			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			// The index into the value list is kept, to ensure future edits occur at the same place,
+			// as long as it points to something valid
+			if thisValue >= len(*targetList) {
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -152,11 +156,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
@@ -355,17 +361,18 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 			e = nil
 		}
 
-		if t.object == FAMILY && table != nil {
+		// the expression may have no value, or another type (custom objects)
+		if family, isString := value.(String); isString && t.object == FAMILY && table != nil {
 			op := t.op.getOp()
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From 586bae90703f33b740a58fb41668256eb65669bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 13/64] fix: a corrupted file that makes a font parser panic is
 ignored as invalid by the partial scan

---
 fontconfig/partial_scan.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fontconfig/partial_scan.go b/fontconfig/partial_scan.go
index 6cc5457..d591074 100644
--- a/fontconfig/partial_scan.go
+++ b/fontconfig/partial_scan.go
@@ -12,7 +12,14 @@ import (
 	"github.com/benoitkugler/textlayout/fonts/type1"
 )
 
-func scanFontFile(file fonts.Resource) ([]fonts.FontDescriptor, FontFormat) {
+func scanFontFile(file fonts.Resource) (fds []fonts.FontDescriptor, format FontFormat) {
+	// the font parsers may panic on a corrupted file: such a file is invalid
+	defer func() {
+		if r := recover(); r != nil {
+			fds, format = nil, ""
+		}
+	}()
+
 	out, err := truetype.ScanFont(file)
 	if err == nil {
 		return out, TrueType
-- 
2.43.0


From 7cfc3f863b3033cfc85cfb119351487547c31a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 14/64] fix: the cache file is closed when saving it fails

---
 fontconfig/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 3e86c3a..8121b06 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -485,6 +485,7 @@ func ScanAndCache(fontsFileCache string) (Fontset, error) {
 	}
 
 	if err = out.Serialize(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 21bc33399c5bf384c8fed4482df87aa8c0647fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 15/64] fix: fonts of equal merit are sorted and listed in
 database order

---
 fontconfig/list.go  | 26 +++++++++++++-------------
 fontconfig/match.go |  4 ++--
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..4584898 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -90,15 +90,16 @@ func (font Pattern) getDefaultObjectLangIndex(object Object, lang string) int {
 	return 0
 }
 
-func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string) {
+// listAppend returns the pattern to add to the results, or nil if the same one is already in `table`
+func listAppend(table map[string]bool, font Pattern, os []Object, lang string) Pattern {
 	familyidx := -1
 	defidx := 0
 	fullnameidx := -1
 	styleidx := -1
 
 	hash := patternHash(font, os)
-	if _, has := table[hash]; has {
-		return
+	if table[hash] {
+		return nil
 	}
 
 	pattern := NewPattern()
@@ -128,7 +129,8 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 			pattern.Add(obj, v.Value, defidx != idx)
 		}
 	}
-	table[hash] = pattern
+	table[hash] = true
+	return pattern
 }
 
 func getDefaultLang() string {
@@ -143,7 +145,8 @@ func getDefaultLang() string {
 // only the objects in `objs` and returns the set of unique such patterns.
 // If no objects are specified, default to all builtin objects.
 func (set Fontset) List(p Pattern, objs ...Object) Fontset {
-	table := make(map[string]Pattern)
+	table := make(map[string]bool)
+	ret := make(Fontset, 0)
 
 	if len(objs) == 0 { // default to all objects
 		for i := Object(1); i < FirstCustomObject; i++ {
@@ -151,21 +154,18 @@ func (set Fontset) List(p Pattern, objs ...Object) Fontset {
 		}
 	}
 
-	// Walk all available fonts adding those that match to the hash table
+	// Walk all available fonts adding those that match, and were not already listed,
+	// in the order of the set
 	for _, font := range set {
 		if patternMatchAny(p, font) {
 			lang, res := p.getAtString(NAMELANG, 0)
 			if res != ResultMatch {
 				lang = getDefaultLang()
 			}
-			listAppend(table, font, objs, lang)
+			if pattern := listAppend(table, font, objs, lang); pattern != nil {
+				ret = append(ret, pattern)
+			}
 		}
 	}
-
-	// Walk the hash table and build a font set
-	ret := make(Fontset, 0, len(table))
-	for _, font := range table {
-		ret = append(ret, font)
-	}
 	return ret
 }
diff --git a/fontconfig/match.go b/fontconfig/match.go
index a02d290..f8bbc43 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -876,7 +876,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 		nodes[i] = newPtr
 	}
 
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	for _, node := range nodes {
 		satisfies := false
@@ -901,7 +901,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 	}
 
 	// re-sort once the language issues have been settled
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	return sortWalk(nodes, trim)
 }
-- 
2.43.0


From 63a822ba94e584698c9590ec97d0296ed7c21061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 16/64] fix: the default languages follow the documented
 environment variables, in order

---
 fontconfig/fontconfig.go    | 20 +++++++-------------
 fontconfig/lang.go          | 25 ++++++++++++-------------
 fontconfig/list.go          |  6 +-----
 fontconfig/substitutions.go |  4 ++--
 4 files changed, 22 insertions(+), 33 deletions(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..62f4a90 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -252,15 +252,15 @@ func WeightToOT(fcWeight float32) float32 {
 }
 
 var (
-	defaultLangs     strSet
+	defaultLangs     []string
 	defaultLangsLock sync.Mutex
 )
 
-// Returns a string set of the default languages according to the environment variables on the system.
+// Returns the default languages, without duplicates, according to the environment variables on the system.
 // This function looks for them in order of FC_LANG, LC_ALL, LC_CTYPE and LANG then.
 // If there are no valid values in those environment variables, "en" will be set as fallback.
 // Thus, it always returns at least one language.
-func getDefaultLangs() strSet {
+func getDefaultLangs() []string {
 	defaultLangsLock.Lock()
 	defer defaultLangsLock.Unlock()
 
@@ -268,9 +268,7 @@ func getDefaultLangs() strSet {
 		return defaultLangs
 	}
 
-	defaultLangs = make(strSet)
-
-	langs := os.Getenv("LANG")
+	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
 	}
@@ -280,13 +278,9 @@ func getDefaultLangs() strSet {
 	if langs == "" {
 		langs = os.Getenv("LANG")
 	}
-	if langs != "" {
-		ok := addLangs(defaultLangs, langs)
-		if !ok {
-			defaultLangs["en"] = true
-		}
-	} else {
-		defaultLangs["en"] = true
+	defaultLangs = parseLangs(langs)
+	if len(defaultLangs) == 0 {
+		defaultLangs = []string{"en"}
 	}
 
 	return defaultLangs
diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..9f39476 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -83,7 +83,7 @@ func normalizeLang(lang string) string {
 
 	lang = strings.ToLower(lang)
 	switch lang {
-	case "c", "c.utf-8, c.utf8", "posix":
+	case "c", "c.utf-8", "c.utf8", "posix":
 		return "en"
 	}
 
@@ -144,9 +144,9 @@ func normalizeLang(lang string) string {
 		tm += "@" + modifier
 	}
 	if territory != "" {
-		if findLangIndex(lang+"_"+tm) < 0 {
+		if findLangIndex(lang+"-"+tm) < 0 {
 		} else {
-			return lang + "_" + tm
+			return lang + "-" + tm
 		}
 	}
 	if modifier != "" {
@@ -437,22 +437,21 @@ func (ls Langset) Copy() Langset {
 	return new
 }
 
-// return true it at least one language has been added
-func addLangs(strs strSet, languages string) bool {
-	var ret bool
-	ls := strings.Split(languages, ":")
-	for _, lang := range ls {
+// parseLangs returns the valid languages of the list, in order and without duplicates
+func parseLangs(languages string) []string {
+	var out []string
+	seen := make(strSet)
+	for _, lang := range strings.Split(languages, ":") {
 		if lang == "" { // ignore an empty item
 			continue
 		}
 		normalizedLang := normalizeLang(lang)
-		if normalizedLang != "" {
-			strs[normalizedLang] = true
-			ret = true
+		if normalizedLang != "" && !seen[normalizedLang] {
+			seen[normalizedLang] = true
+			out = append(out, normalizedLang)
 		}
 	}
-
-	return ret
+	return out
 }
 
 // Keep Han languages separated by eliminating languages that the codePageRange bits says aren't supported
diff --git a/fontconfig/list.go b/fontconfig/list.go
index 4584898..6fa407b 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -134,11 +134,7 @@ func listAppend(table map[string]bool, font Pattern, os []Object, lang string) P
 }
 
 func getDefaultLang() string {
-	langs := getDefaultLangs()
-	for s := range langs {
-		return s
-	}
-	return ""
+	return getDefaultLangs()[0] // never empty
 }
 
 // List selects fonts matching `p` (all if p is empty), creates patterns from those fonts containing
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 0f7d329..07b5eec 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -400,11 +400,11 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 }
 
 func substituteLang(p Pattern) {
-	strs := getDefaultLangs()
+	langs := getDefaultLangs()
 	var lsund Langset
 	lsund.add("und")
 
-	for lang := range strs {
+	for _, lang := range langs {
 		for _, ll := range p.getVals(LANG) {
 			vvL := ll.Value
 
-- 
2.43.0


From c863ca9f244ef35bccdd36d40ca9ea3d1aff0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 17/64] fix: language sets answer correctly, and in a fixed
 order, for languages without orthography

---
 fontconfig/lang.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 9f39476..6f5a070 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,15 +44,19 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	for _, s := range l.sortedExtra() {
+		out = append(append(out, s...), 0)
+	}
+	return out
+}
+
+func (l Langset) sortedExtra() []string {
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
-	for _, s := range extra {
-		out = append(out, s...)
-	}
-	return out
+	return extra
 }
 
 func newCharSetFromLang(lang string) *Charset {
@@ -316,10 +320,7 @@ func (ls Langset) String() string {
 		}
 	}
 
-	for extra := range ls.extra {
-		chunks = append(chunks, extra)
-	}
-	return strings.Join(chunks, "|")
+	return strings.Join(append(chunks, ls.sortedExtra()...), "|")
 }
 
 func (ls *Langset) bitSet(id int) {
@@ -372,13 +373,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -400,18 +400,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From 38a8305aafd9d837b91281badeee89e65e7641cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 18/64] fix: patterns with different values never share a hash

---
 fontconfig/values.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..c070478 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -313,9 +314,16 @@ func (b valueBinding) String() string {
 type valueList []valueElt
 
 func (vs valueList) Hash() []byte {
-	var hash []byte
+	var (
+		hash []byte
+		buf  [4]byte
+	)
 	for _, v := range vs {
-		hash = append(hash, v.hash()...)
+		// to make the hash unique, we add the type and the length of each value
+		tmp := v.hash()
+		binary.BigEndian.PutUint32(buf[:], uint32(len(tmp)))
+		hash = append(append(hash, fmt.Sprintf("%T", v.Value)...), buf[:]...)
+		hash = append(hash, tmp...)
 	}
 	return hash
 }
-- 
2.43.0


From 43d1823ee6f083ec093183c27f79a4ba0e803fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 19/64] fix: patterns are printed in a fixed order

---
 fontconfig/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..b247158 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -151,8 +151,8 @@ func (p Pattern) String() string {
 	}
 	s := fmt.Sprintf("Pattern(len %d):\n", len(p))
 
-	for obj, vs := range p {
-		s += fmt.Sprintf("\t%s: %v\n", obj, vs)
+	for _, obj := range p.sortedKeys() {
+		s += fmt.Sprintf("\t%s: %v\n", obj, p[obj])
 	}
 
 	return s
-- 
2.43.0


From ed5a40a82a7d7873dc642ff1a1c12e132323d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 20/64] fix: preparing a variable font no longer panics on huge
 weights, widths or sizes

---
 fontconfig/match.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index f8bbc43..597bc73 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -741,10 +741,12 @@ func (config *Config) PrepareRender(pat, font Pattern) Pattern {
 			new.Add(obj, v, false)
 
 			// Set font-variations settings for standard axes in variable fonts.
-			if _, isRange := fe[0].Value.(Range); variable != 0 && isRange &&
+			_, isRange := fe[0].Value.(Range)
+			vf, isFloat := v.(Float) // nil if all the values are infinitely far
+			if variable != 0 && isRange && isFloat &&
 				(obj == WEIGHT || obj == WIDTH || obj == SIZE) {
 				tag := "    "
-				num := float32(v.(Float)) //  v.type == FcTypeDouble
+				num := float32(vf)
 				if variations.Len() != 0 {
 					variations.WriteByte(',')
 				}
-- 
2.43.0


From dbdeff46df129d2d409b3cb063158138ee302451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 21/64] fix: substitutions no longer share values between
 configurations and patterns

---
 fontconfig/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..ed47121 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -764,6 +764,8 @@ func (e *expression) toValues(p, p_pat Pattern, kind matchKind, binding valueBin
 
 	if l[0].Value == nil {
 		l = l[1:]
+	} else { // do not share the values of the rules or of other patterns
+		l[0].Value = l[0].Value.copy()
 	}
 
 	return l
-- 
2.43.0


From 7d68a8b3639ba3b4eefd8fa5cc2c0219e165ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 22/64] fix: break attributes lying outside of a paragraph, or
 reaching its end, no longer panic or loop

---
 pango/break.go  | 37 ++++++++++++++++++++++++++++---------
 pango/layout.go |  2 +-
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..79f3b12 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -451,7 +451,10 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 			logAttrs[pos].setLineBreak(false)
 		}
 
-		ch := text[pos]
+		var ch rune // 0 at the end of the text
+		if pos < len(text) {
+			ch = text[pos]
+		}
 		bt := unicodedata.LookupLineBreakClass(ch)
 
 		/* Hyphens and visible word dividers */
@@ -476,8 +479,12 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 	}
 }
 
-func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (int, int) {
-	var startPos, endPos int
+// posFromOffset returns the positions in `logAttrs` of an attribute;
+// ok is false if it lies outside of `text`
+func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (startPos, endPos int, ok bool) {
+	if end < offset || start > offset+len(text) {
+		return 0, 0, false
+	}
 	if start >= offset {
 		startPos = start - offset
 	}
@@ -486,7 +493,7 @@ func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (in
 	} else {
 		endPos = end - offset
 	}
-	return startPos, endPos
+	return startPos, endPos, true
 }
 
 func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAttr) bool {
@@ -500,7 +507,10 @@ func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAt
 			continue
 		}
 		start, end := iter.StartIndex, iter.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setCharBreak(false)
@@ -525,7 +535,10 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setWordStart(false)
@@ -598,7 +611,10 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setSentenceStart(false)
@@ -625,7 +641,7 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 		if end < offset+len(text) {
 			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
+			for pos := endPos + 1; pos < len(logAttrs); pos++ {
 				if logAttrs[pos].IsSentenceStart() {
 					break
 				}
@@ -655,7 +671,10 @@ func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr)
 			continue
 		}
 
-		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			if !logAttrs[pos].IsBreakRemovesPreceding() {
diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..014eb2b 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1835,7 +1835,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, start, logAttrs[:length+1])
 	}
 }
 
-- 
2.43.0


From e630ea994dab4a1636940230617d597822399b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 23/64] fix: clusters of items with a text transform are
 relative to the paragraph

---
 pango/shape.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/shape.go b/pango/shape.go
index 3a06880..2e3d25f 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -164,7 +164,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 
 	hyphenIndex := itemOffset + itemLength - 1
 	if analysis.Flags&AFNeedHyphen != 0 {
-		if logAttrs[numChars].IsBreakRemovesPreceding() {
+		if numChars < len(logAttrs) && logAttrs[numChars].IsBreakRemovesPreceding() {
 			itemLength -= 1
 		}
 	}
@@ -182,11 +182,11 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 			case TEXT_TRANSFORM_UPPERCASE:
 				ch = unicode.ToUpper(ch)
 			case TEXT_TRANSFORM_CAPITALIZE:
-				if logAttrs[i].IsWordStart() {
+				if i < len(logAttrs) && logAttrs[i].IsWordStart() {
 					ch = unicode.ToTitle(ch)
 				}
 			}
-			cachedBuffer.AddRune(ch, i)
+			cachedBuffer.AddRune(ch, itemOffset+i)
 		}
 	}
 
-- 
2.43.0


From 211d2f59e0928259d4ae4c8a567de5a5f7fed182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 24/64] fix: positions inside clusters count each character
 once

---
 pango/glyphs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..4688bb7 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,8 +486,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	var clusterChars, clusterOffset int
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
@@ -511,7 +510,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Try to get a ligature caret position for the glyph from the font.
 	// This only makes sense if the cluster contains a single spacing
 	// glyph, so we need to check that all but one of them are marks.
-	if clusterOffset > 0 && clusterOffset < clusterChars {
+	if clusterOffset > 0 && clusterOffset < clusterChars && analysis.Font != nil {
 		hbFont := analysis.Font.GetHarfbuzzFont()
 
 		var glyphPos int
-- 
2.43.0


From 80be9a6bfa337c40050d6cfd5fb08708cc6502e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 25/64] fix: the position of a grapheme starting in another run
 is the edge of the run

---
 pango/layout_line.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..7729132 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1219,6 +1219,13 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 				}
 			}
 
+			// the grapheme may start (or end) in another run
+			if index < run.Item.Offset {
+				index = run.Item.Offset
+			} else if last := run.Item.Offset + run.Item.Length - 1; index > last {
+				index = last
+			}
+
 			attrOffset := run.Item.Offset
 			xPos := run.Glyphs.indexToXFull(layout.Text[attrOffset:attrOffset+run.Item.Length],
 				&run.Item.Analysis, index-attrOffset, trailing, layout.logAttrs[attrOffset:])
-- 
2.43.0


From 09208c920424bba9290d5607cbc4e741ce625048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 26/64] fix: justification of clusters no longer loops on
 graphemes or empty clusters

---
 pango/layout_line.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 7729132..e0c55b2 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -838,12 +838,14 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				clusterIter GlyphItemIter
 				haveCluster bool
 			)
+			nextCluster := clusterIter.NextCluster
 			if dir > 0 {
 				haveCluster = clusterIter.InitStart(run, text)
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
+				nextCluster = clusterIter.PrevCluster
 			}
-			for haveCluster {
+			for ; haveCluster; haveCluster = nextCluster() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -900,12 +902,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From 2b82d8ac258d888a514432b5bb53ead77817339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:43 +0000
Subject: [PATCH 27/64] fix: fonts failing to load are skipped instead of being
 used half initialised

---
 pango/fcfonts/fonset.go  | 29 ++++++++++++++++-------------
 pango/fcfonts/fontmap.go |  9 ++++++---
 pango/fcfonts/types.go   |  1 -
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/pango/fcfonts/fonset.go b/pango/fcfonts/fonset.go
index 0c50be0..408968b 100644
--- a/pango/fcfonts/fonset.go
+++ b/pango/fcfonts/fonset.go
@@ -30,22 +30,25 @@ func (fs *Fontset) GetLanguage() pango.Language { return fs.key.language }
 // may return nil
 func (fs *Fontset) loadNextFont() *Font {
 	pattern := fs.patterns.pattern
-	fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
-	fs.currentPatternIndex++
-	if fontPattern == nil {
-		return nil
-	}
+	for {
+		fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
+		fs.currentPatternIndex++
+		if fontPattern == nil {
+			return nil
+		}
 
-	if prepare {
-		fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
-	}
+		if prepare {
+			fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
+		}
 
-	font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
-	if err != nil {
-		log.Println(err)
-	}
+		font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
+		if err != nil { // ignore the font and try the next one
+			log.Println(err)
+			continue
+		}
 
-	return font
+		return font
+	}
 }
 
 // lazy loading
diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 2e749d1..16aa6b3 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -542,15 +542,18 @@ func (fontmap *FontMap) newFont(fsKey fontsetKey, match fc.Pattern) (*Font, erro
 	pattern.Add(fc.MATRIX, fcMatrix, true)
 
 	fcfont := newFont(pattern, fontmap)
+	fcfont.key = &key
 
 	// fcfont.matrix = key.matrix
 
+	if err := fcfont.loadHBFont(); err != nil {
+		return nil, err
+	}
+
 	// cache it on fontmap
 	fontmap.fontHash.insert(key, fcfont)
 
-	err := fcfont.loadHBFont()
-
-	return fcfont, err
+	return fcfont, nil
 }
 
 func (key *fontsetKey) defaultSubstitute(fontmap *FontMap, pattern fc.Pattern) {
diff --git a/pango/fcfonts/types.go b/pango/fcfonts/types.go
index f46de98..8b12ae2 100644
--- a/pango/fcfonts/types.go
+++ b/pango/fcfonts/types.go
@@ -68,7 +68,6 @@ func (m fontHash) insert(key fcFontKey, v *Font) {
 		pattern: key.pattern.Hash(), matrix: key.matrix,
 		contextKey: key.contextKey, variations: key.variations,
 	}
-	v.key = &key
 	m[keyCopy] = v
 }
 
-- 
2.43.0


From 544df75a5ca992926881ba9e5f9f49439de6d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 28/64] fix: fonts with different variations no longer share
 the coordinates of their face

---
 pango/fcfonts/fontmap.go | 30 +++++++++++++++++++++++-------
 pango/fcfonts/fonts.go   | 12 ++----------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 16aa6b3..5eb50d0 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -117,7 +117,13 @@ type FontMap struct {
 	serial     uint
 }
 
-type faceDataKey = fonts.FaceID
+type faceDataKey struct {
+	fonts.FaceID
+
+	// the variation coordinates are stored in the face, which can't be shared
+	// by fonts with different settings
+	variations string
+}
 
 // FaceLoader is implemented by client application
 // to extend loading capabilities.
@@ -206,8 +212,11 @@ func (fontmap *FontMap) clearCache() {
 	}
 }
 
-func (fontmap *FontMap) getFontFaceData(fontPattern fc.Pattern) (faceDataKey, *faceData) {
-	key := fontPattern.FaceID()
+func (fontmap *FontMap) getFontFaceData(font *Font) (faceDataKey, *faceData) {
+	key := faceDataKey{FaceID: font.Pattern.FaceID()}
+	if font.key != nil {
+		key.variations = font.key.getVariations()
+	}
 
 	data := fontmap.fontKeyHash[key]
 	if data != nil {
@@ -215,7 +224,7 @@ func (fontmap *FontMap) getFontFaceData(fontPattern fc.Pattern) (faceDataKey, *f
 	}
 
 	data = &faceData{}
-	data.format = fontPattern.Format()
+	data.format = font.Pattern.Format()
 	// other fields are loaded lazilly
 
 	fontmap.fontKeyHash[key] = data
@@ -225,14 +234,14 @@ func (fontmap *FontMap) getFontFaceData(fontPattern fc.Pattern) (faceDataKey, *f
 
 // retrieves the `HB_face_t` for the given `font`
 func (fontmap *FontMap) getHBFace(font *Font) (harfbuzz.Face, error) {
-	key, data := fontmap.getFontFaceData(font.Pattern)
+	key, data := fontmap.getFontFaceData(font)
 
 	var err error
 	if data.hbFace == nil {
 		if fontmap.fontLoader == nil {
-			data.hbFace, err = DefaultLoadFace(key, data.format)
+			data.hbFace, err = DefaultLoadFace(key.FaceID, data.format)
 		} else {
-			data.hbFace, err = fontmap.fontLoader.LoadFace(key, data.format)
+			data.hbFace, err = fontmap.fontLoader.LoadFace(key.FaceID, data.format)
 		}
 	}
 
@@ -321,6 +330,13 @@ func (key *fcFontKey) getFontSize() (pixelSize, pointSize float32) {
 	return pixelSize, pointSize
 }
 
+// returns the variation settings of the font, comma separated:
+// the ones from the pattern, then the ones from the font description
+func (key *fcFontKey) getVariations() string {
+	variations, _ := key.pattern.GetString(fc.FONT_VARIATIONS)
+	return variations + "," + key.variations
+}
+
 type fontsetKey struct {
 	fontmap    *FontMap
 	language   pango.Language
diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index d08df5c..c092dca 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -384,19 +384,11 @@ func (font *Font) loadHBFont() error {
 
 		if index, ok := key.pattern.GetInt(fc.INDEX); ok && index != 0 {
 			if instance := (index >> 16) - 1; instance >= 0 && int(instance) < len(fvar.Instances) {
-				coords = fvar.Instances[instance].Coords
+				copy(coords, fvar.Instances[instance].Coords)
 			}
 		}
 
-		if variations, ok := key.pattern.GetString(fc.FONT_VARIATIONS); ok {
-			vars := parseVariations(variations)
-			fvar.GetDesignCoords(vars, coords)
-		}
-
-		if key.variations != "" {
-			vars := parseVariations(key.variations)
-			fvar.GetDesignCoords(vars, coords)
-		}
+		fvar.GetDesignCoords(parseVariations(key.getVariations()), coords)
 
 		font.hbFont.SetVarCoordsDesign(coords)
 	}
-- 
2.43.0


From 3f980b3e85694d090390618610726017ae4ef3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 29/64] fix: changing the configuration of a font map notifies
 its contexts

---
 pango/fcfonts/fontmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 5eb50d0..18d72ad 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -191,6 +191,11 @@ func (fontmap *FontMap) SetConfig(config *fc.Config, database fc.Fontset) {
 	fontmap.Config = config
 	fontmap.Database = database
 	fontmap.clearCache()
+	// notify the contexts
+	fontmap.serial++
+	if fontmap.serial == 0 {
+		fontmap.serial++
+	}
 }
 
 // Clear all cached information and fontsets for this font map.
-- 
2.43.0


From 4388c97288900f540e2cba69667d01e59b7e1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:04 +0000
Subject: [PATCH 30/64] fix: font metrics computed for several languages at
 once are no longer lost

---
 pango/fcfonts/fonts.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index c092dca..c235199 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -40,7 +40,7 @@ type Font struct {
 
 	fontmap       *FontMap   // associated map
 	Pattern       fc.Pattern // fully resolved pattern
-	metricsByLang []fcMetricsInfo
+	metricsByLang []*fcMetricsInfo
 	description   pango.FontDescription
 	// matrix        pango.Matrix // used internally
 
@@ -466,9 +466,8 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 
 	/* Note: we need to add info to the list before calling
 	* into PangoLayout below, to prevent recursion */
-	font.metricsByLang = append(font.metricsByLang, fcMetricsInfo{})
-	info := &font.metricsByLang[len(font.metricsByLang)-1]
-	info.sampleStr = sampleStr
+	info := &fcMetricsInfo{sampleStr: sampleStr}
+	font.metricsByLang = append(font.metricsByLang, info)
 
 	context := pango.NewContext(fontmap)
 	context.SetLanguage(lang)
-- 
2.43.0


From e34bf9f86fd5e417f180df45cb7ffbd316397225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 31/64] fix: the tabs of a layout are a copy of the ones of the
 caller

---
 pango/tabs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..a70b55f 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From d8b7fadc2246a8197f1bf158ab2a8ec946546b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 32/64] fix: a tab position far away is found without stepping
 through all the ones before

---
 pango/layout.go      |  7 +++++++
 pango/layout_line.go | 21 ++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 014eb2b..622577e 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1085,6 +1085,13 @@ func (layout *Layout) ensureTabWidth() {
 	}
 }
 
+func (layout *Layout) numTabs() int {
+	if layout.tabs == nil {
+		return 0
+	}
+	return len(layout.tabs.Tabs)
+}
+
 // resolve the tab at index `index`
 func (line *LayoutLine) get_tab_pos(index int) (tab Tab, isDefault bool) {
 	var (
diff --git a/pango/layout_line.go b/pango/layout_line.go
index e0c55b2..1f6d5d5 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -334,7 +334,26 @@ func (line *LayoutLine) shapeTab(tabState *lastTabState, properties *itemPropert
 		if isDefault {
 			sw = spaceWidth
 		}
-		if tab.Location >= currentWidth+sw {
+		target := int64(currentWidth) + int64(sw)
+		if int64(tab.Location) >= target {
+			glyphs.Glyphs[0].Geometry.Width = tab.Location - currentWidth
+			break
+		}
+
+		if nTabs := line.layout.numTabs(); i >= nTabs {
+			// the next tabs are evenly spaced: go directly to the right one
+			next, _ := line.get_tab_pos(i + 1)
+			location, gap := int64(tab.Location), int64(next.Location)-int64(tab.Location)
+			if gap > 0 {
+				steps := (target-location-1)/gap + 1
+				i += int(steps)
+				location += steps * gap
+			}
+			if location < target || location > math.MaxInt32 { // the positions overflow
+				location = target
+			}
+			tab, _ = line.get_tab_pos(i)
+			tab.Location = Unit(location)
 			glyphs.Glyphs[0].Geometry.Width = tab.Location - currentWidth
 			break
 		}
-- 
2.43.0


From 00bd77347d85959adc1effb367fb03e6f79565b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 33/64] fix: the font_scale attribute of markup spans is read

---
 pango/attributes.go | 1 +
 pango/markup.go     | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..31c19c2 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -219,6 +219,7 @@ var fontScaleMap = enumMap{
 	{value: int(FONT_SCALE_NONE), str: "none"},
 	{value: int(FONT_SCALE_SUPERSCRIPT), str: "superscript"},
 	{value: int(FONT_SCALE_SUBSCRIPT), str: "subscript"},
+	{value: int(FONT_SCALE_SMALL_CAPS), str: "small-caps"},
 }
 
 // AttrData stores the type specific value of
diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..3619234 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1227,7 +1227,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 34170f02a178526761c8c5615d48ea8e9476ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 34/64] fix: clusters reordered by the shaper are merged to
 stay in logical order

---
 pango/glyphs.go | 19 +++++++++++++++++++
 pango/shape.go  | 20 ++++++++++++--------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 4688bb7..7a3413f 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/benoitkugler/textlayout/fonts"
 	"github.com/benoitkugler/textlayout/harfbuzz"
+	"github.com/benoitkugler/textprocessing/fribidi"
 )
 
 // Glyph represents a single glyph in the output form of a str.
@@ -177,6 +178,24 @@ func (glyphs *GlyphString) reverse() {
 	}
 }
 
+// mergeClusters merges the clusters which are not in logical order.
+func (glyphs *GlyphString) mergeClusters(level fribidi.Level) {
+	lc := glyphs.LogClusters
+	if level&1 != 0 { // right to left : from the end of the text to its start
+		for i := 1; i < len(lc); i++ {
+			if lc[i] > lc[i-1] {
+				lc[i] = lc[i-1]
+			}
+		}
+	} else {
+		for i := len(lc) - 2; i >= 0; i-- {
+			if lc[i] > lc[i+1] {
+				lc[i] = lc[i+1]
+			}
+		}
+	}
+}
+
 // getWidth computes the logical width of the glyph string as can also be computed
 // using pango_glyph_string_extents(). However, since this only computes the
 // width, it's much faster.
diff --git a/pango/shape.go b/pango/shape.go
index 2e3d25f..b65d0a2 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -278,6 +278,18 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 		}
 	}
 
+	// Make sure glyphstring direction conforms to analysis.level
+	if lc := glyphs.LogClusters; (analysis.Level&1) != 0 && lc[0] < lc[len(lc)-1] {
+		log.Println("pango: expected RTL run but got LTR. Fixing.")
+
+		// *Fix* it so we don't crash later
+		glyphs.reverse()
+	}
+
+	// Characters are reordered by the shaper when the direction is not the native
+	// one of the script: make sure that the clusters are monotonic.
+	glyphs.mergeClusters(analysis.Level)
+
 	// make sure last_cluster is invalid
 	lastCluster := glyphs.LogClusters[0] - 1
 	for i, lo := range glyphs.LogClusters {
@@ -297,14 +309,6 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 		}
 	}
 
-	// Make sure glyphstring direction conforms to analysis.level
-	if lc := glyphs.LogClusters; (analysis.Level&1) != 0 && lc[0] < lc[len(lc)-1] {
-		log.Println("pango: expected RTL run but got LTR. Fixing.")
-
-		// *Fix* it so we don't crash later
-		glyphs.reverse()
-	}
-
 	if flags&shapeROUND_POSITIONS != 0 {
 		for i := range glyphs.Glyphs {
 			glyphs.Glyphs[i].Geometry.Width = glyphs.Glyphs[i].Geometry.Width.Round()
-- 
2.43.0


From 192acf9576132202d12bd7b92c74cbd3e25837f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 35/64] fix: measuring a font no longer depends on, or recurses
 through, other fonts metrics

---
 pango/fcfonts/fontmap.go |  3 +++
 pango/fcfonts/fonts.go   | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 18d72ad..f0785f7 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -115,6 +115,9 @@ type FontMap struct {
 
 	dpiX, dpiY float32
 	serial     uint
+
+	// true when the metrics of a font are being measured, see Font.GetMetrics
+	measuring bool
 }
 
 type faceDataKey struct {
diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index c235199..9db9fd7 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -451,6 +451,14 @@ func (font *Font) getGlyph(wc rune) pango.Glyph {
 }
 
 func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
+	if font.fontmap != nil && font.fontmap.measuring {
+		// Laying out the sample text below requires the metrics of the fonts it uses.
+		// Do not measure them in turn: it would depend on the fonts already measured,
+		// and, for fonts which are not the best match for their own description,
+		// it would never end.
+		return font.getFaceMetrics()
+	}
+
 	sampleStr := pango.SampleString(lang)
 
 	for _, info := range font.metricsByLang {
@@ -464,10 +472,10 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 		return pango.FontMetrics{}
 	}
 
-	/* Note: we need to add info to the list before calling
-	* into PangoLayout below, to prevent recursion */
+	fontmap.measuring = true
+	defer func() { fontmap.measuring = false }()
+
 	info := &fcMetricsInfo{sampleStr: sampleStr}
-	font.metricsByLang = append(font.metricsByLang, info)
 
 	context := pango.NewContext(fontmap)
 	context.SetLanguage(lang)
@@ -489,6 +497,8 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 	layout.SetText("0123456789")
 	info.metrics.ApproximateDigitWidth = pango.Unit(maxGlyphWidth(layout))
 
+	font.metricsByLang = append(font.metricsByLang, info)
+
 	return info.metrics
 }
 
-- 
2.43.0


From cfc9045187c91cb122734d3496ba52518e596426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 36/64] fix: changes of the height of a layout are no longer
 missed

---
 pango/layout.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 622577e..4aa2b0d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -292,17 +292,19 @@ func (layout *Layout) SetWidth(width Unit) {
 // ellipsization mode is set to `ELLIPSIZE_NONE`, and may change in the
 // future.
 func (layout *Layout) SetHeight(height Unit) {
-	if height != layout.Height {
+	if oldHeight := layout.Height; height != oldHeight {
 		layout.Height = height
 
 		/* Do not invalidate if the number of lines requested is
 		* larger than the total number of lines in layout.
 		* Bug 549003
 		 */
-		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) <= -int(height)) {
-			layout.layoutChanged()
+		if oldHeight < 0 && height < 0 && (layout.ellipsize == ELLIPSIZE_NONE ||
+			!layout.isEllipsized && len(layout.lines) <= -int(height)) {
+			return
 		}
+
+		layout.layoutChanged()
 	}
 }
 
@@ -344,7 +346,7 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.isEllipsized || layout.isWrapped {
+		if layout.isEllipsized || layout.isWrapped || layout.Height >= 0 {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From 6821d2607507f344accdd5141a2bbe45a6dacd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:35 +0000
Subject: [PATCH 37/64] fix: shape attributes on right to left text follow the
 visual order

---
 pango/layout_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 1f6d5d5..74d3d4f 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -248,6 +248,9 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 		}
 		if state.properties.shape != nil {
 			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical)
+			if item.Analysis.Level%2 != 0 {
+				glyphs.reverse() // visual order
+			}
 		} else {
 			item.Shape(layout.Text, layout.logAttrs[state.startOffset:], glyphs, shapeFlag)
 		}
-- 
2.43.0


From 39918a4c5661f95b3df922306413817ca465b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 38/64] fix: line extents take the decorations into account
 when the height is set

---
 pango/layout.go      | 3 +++
 pango/layout_line.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 4aa2b0d..5a3d245 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1867,6 +1867,9 @@ func (layout *Layout) applyAttributesToRuns(attrs AttrList) {
 	}
 
 	for _, line := range layout.lines {
+		// the extents may have been computed by addLine, without the decorations
+		line.cacheStatus = notCached
+
 		old_runs := line.Runs.reverse()
 		line.Runs = nil
 		for rl := old_runs; rl != nil; rl = rl.Next {
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 74d3d4f..5d49d1f 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1062,7 +1062,10 @@ func (line *LayoutLine) getExtentsAndHeight(inkRect, logicalRect *Rectangle, hei
 		if rect == nil {
 			rect = &Rectangle{}
 		}
-		*height = line.layout.getEmptyExtentsAndHeightAt(line.StartIndex, rect, true)
+		emptyHeight := line.layout.getEmptyExtentsAndHeightAt(line.StartIndex, rect, true)
+		if height != nil {
+			*height = emptyHeight
+		}
 	}
 
 	if caching {
-- 
2.43.0


From 84dec2aedf71827e8447b2699ab55466f25d8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:03 +0000
Subject: [PATCH 39/64] fix: log attributes of text cut by the height of the
 layout are not stale

---
 pango/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index 5a3d245..5ae2f72 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1912,6 +1912,9 @@ func (layout *Layout) checkLines() {
 		L := len(layout.Text) + 1
 		if cap(layout.logAttrs) >= L {
 			layout.logAttrs = layout.logAttrs[:L]
+			for i := range layout.logAttrs { // do not keep old values
+				layout.logAttrs[i] = 0
+			}
 		} else {
 			layout.logAttrs = make([]CharAttr, L)
 		}
-- 
2.43.0


From 9805c0650b2c33fa8cf6df6ca1cb53fbf40794c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 40/64] fix: changes of the ellipsization mode of a layout are
 no longer missed

---
 pango/layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 5ae2f72..1e74119 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -346,7 +346,9 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.isEllipsized || layout.isWrapped || layout.Height >= 0 {
+		// even a layout with no wrapped lines may be ellipsized: the spaces
+		// at the end of a line do not count when wrapping
+		if layout.Width >= 0 || layout.Height >= 0 {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From 54ee3ee7cb04b0286899a8520cdf305ae1d37b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 41/64] fix: the categories of characters do not depend on the
 order of a map

---
 pango/break.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 79f3b12..cf72758 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -743,6 +743,28 @@ func kanji(wc rune) bool    { return wc >= 0x2F00 && wc <= 0x2FDF }
 func hiragana(wc rune) bool { return wc >= 0x3040 && wc <= 0x309F }
 func katakana(wc rune) bool { return wc >= 0x30A0 && wc <= 0x30FF }
 
+// the general categories, which do not overlap: unicode.Categories also has
+// unions of them
+var generalCategories = [...]*unicode.RangeTable{
+	unicode.Ll, unicode.Lu, unicode.Lo, unicode.Lm, unicode.Lt,
+	unicode.Mn, unicode.Mc, unicode.Me,
+	unicode.Nd, unicode.Nl, unicode.No,
+	unicode.Po, unicode.Pc, unicode.Pd, unicode.Ps, unicode.Pe, unicode.Pi, unicode.Pf,
+	unicode.Sm, unicode.Sc, unicode.Sk, unicode.So,
+	unicode.Zs, unicode.Zl, unicode.Zp,
+	unicode.Cc, unicode.Cf, unicode.Cs, unicode.Co,
+}
+
+// lookupType returns the general category of `r`, or nil if it is not assigned.
+func lookupType(r rune) *unicode.RangeTable {
+	for _, table := range generalCategories {
+		if unicode.Is(table, r) {
+			return table
+		}
+	}
+	return nil
+}
+
 func resolveSentenceBreakType(wc rune, sbType sentenceBreakType, type_, breakType *unicode.RangeTable) sentenceBreakType {
 	if sbType == sb_Other {
 		switch type_ {
@@ -912,7 +934,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			nextBreakType = ucd.LookupLineBreakClass(nextWc)
 		}
 
-		type_ := ucd.LookupType(wc)
+		type_ := lookupType(wc)
 		jamo := ucd.Jamo(breakType)
 
 		/* Determine wheter this forms a Hangul syllable with prev. */
@@ -1471,7 +1493,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				breakOp = break_PROHIBITED
 			}
 
-			if unicode.Is(ucd.Extended_Pictographic, prevWc) && unicodedata.LookupType(prevWc) == nil &&
+			if unicode.Is(ucd.Extended_Pictographic, prevWc) && lookupType(prevWc) == nil &&
 				breakType == ucd.BreakEM {
 				breakOp = break_PROHIBITED
 			}
-- 
2.43.0


From 60a7ac0425c4dbf4f965562e4bdb37851db2eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 42/64] fix: itemizing does not change the font description it
 is given

---
 pango/context.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..6d54b6c 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -569,12 +569,12 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 		state.attrIter.advance_attr_iterator_to(startIndex)
 		state.update_attr_iterator()
 	} else {
-		if desc == nil {
-			cp := state.context.fontDesc
-			state.fontDesc = &cp
-		} else {
-			state.fontDesc = desc
+		// copy the description, whose gravity is changed below
+		cp := state.context.fontDesc
+		if desc != nil {
+			cp = *desc
 		}
+		state.fontDesc = &cp
 		state.lang = state.context.language
 		state.extraAttrs = nil
 		state.copyExtraAttrs = false
-- 
2.43.0


From 8003265df13922c56fa2e62b9adfbc59eba8869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 43/64] fix: a base gravity following the matrix reaches the
 layouts

---
 pango/context.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 6d54b6c..60934e0 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -158,18 +158,19 @@ func (context *Context) SetLanguage(language Language) {
 //
 // The base gravity is used in laying vertical text out.
 func (context *Context) SetBaseGravity(gravity Gravity) {
-	if gravity != context.base_gravity {
+	//  update_resolved_gravity
+	resolvedGravity := gravity
+	if gravity == GRAVITY_AUTO {
+		// the matrix may have changed, even if the base gravity has not
+		resolvedGravity = gravityFromMatrix(context.Matrix)
+	}
+
+	if gravity != context.base_gravity || resolvedGravity != context.resolvedGravity {
 		context.contextChanged()
 	}
 
 	context.base_gravity = gravity
-
-	//  update_resolved_gravity
-	if context.base_gravity == GRAVITY_AUTO {
-		context.resolvedGravity = gravityFromMatrix(context.Matrix)
-	} else {
-		context.resolvedGravity = context.base_gravity
-	}
+	context.resolvedGravity = resolvedGravity
 }
 
 // GetMetrics get overall metric information for a particular font
-- 
2.43.0


From 1b0e51d7555fd552544be83289632ebaa8aec648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 44/64] fix: text is laid out as boxes, without panic, when no
 font can be loaded

---
 pango/fonts.go       | 23 +++++++++++++++++++++++
 pango/glyph_item.go  |  4 ++--
 pango/glyphs.go      |  4 ++--
 pango/item.go        |  9 ++++++++-
 pango/layout.go      |  2 +-
 pango/layout_line.go |  2 +-
 pango/shape.go       |  2 ++
 7 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..ad3c188 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -823,6 +823,29 @@ type FontMetrics struct {
 	StrikethroughThickness Unit
 }
 
+// fontGlyphExtents gets the extents of a glyph.
+//
+// If `font` is `nil`, this function gracefully returns some sane values.
+func fontGlyphExtents(font Font, glyph Glyph, inkRect, logicalRect *Rectangle) {
+	if font != nil {
+		font.GlyphExtents(glyph, inkRect, logicalRect)
+		return
+	}
+
+	if inkRect != nil {
+		inkRect.X = Scale
+		inkRect.Y = -(unknownGlyphHeight - 1) * Scale
+		inkRect.Height = (unknownGlyphHeight - 2) * Scale
+		inkRect.Width = (unknownGlyphWidth - 2) * Scale
+	}
+	if logicalRect != nil {
+		logicalRect.X = 0
+		logicalRect.Y = -unknownGlyphHeight * Scale
+		logicalRect.Height = unknownGlyphHeight * Scale
+		logicalRect.Width = unknownGlyphWidth * Scale
+	}
+}
+
 // FontGetMetrics gets overall metric information for a font.
 // Since the metrics may be substantially different for different scripts, a language tag can
 // be provided to indicate that the metrics should be retrieved that
diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index a7cbd0b..0f25627 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -237,7 +237,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if runInk != nil && (hasUnderline || hasOverline || properties.strikethrough) {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 
@@ -283,7 +283,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if height != nil {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 		*height = metrics.Height
diff --git a/pango/glyphs.go b/pango/glyphs.go
index 7a3413f..a910ada 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -229,7 +229,7 @@ func (glyphs *GlyphString) fallbackShape(text []rune, analysis *Analysis) {
 		}
 
 		var logicalRect Rectangle
-		analysis.Font.GlyphExtents(glyph, nil, &logicalRect)
+		fontGlyphExtents(analysis.Font, glyph, nil, &logicalRect)
 
 		glyphs.Glyphs[i].Glyph = glyph
 
@@ -356,7 +356,7 @@ func (glyphs *GlyphString) extentsRange(start, end int, font Font, inkRect, logi
 
 		geometry := &glyphs.Glyphs[i].Geometry
 
-		font.GlyphExtents(glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
+		fontGlyphExtents(font, glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
 
 		if inkRect != nil && glyphInk.Width != 0 && glyphInk.Height != 0 {
 			if inkRect.Width == 0 || inkRect.Height == 0 {
diff --git a/pango/item.go b/pango/item.go
index db963aa..b63f7e5 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -330,7 +330,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					hbFont *harfbuzz.Font
 					yScale int32
 				)
-				if prev != nil {
+				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
 					yScale = hbFont.YScale
 				}
@@ -390,6 +390,10 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 }
 
 func (context *Context) applyScaleToItem(item *Item, scale float32) {
+	if item.Analysis.Font == nil {
+		return
+	}
+
 	desc := item.Analysis.Font.Describe(false)
 	size := scale * float32(desc.Size)
 
@@ -469,6 +473,9 @@ func (item *Item) variantSupported(variant Variant) bool {
 }
 
 func (item *Item) getFontVariant() Variant {
+	if item.Analysis.Font == nil {
+		return VARIANT_NORMAL
+	}
 	return item.Analysis.Font.Describe(false).Variant
 }
 
diff --git a/pango/layout.go b/pango/layout.go
index 1e74119..c584507 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1498,7 +1498,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// Add some safety margin here. If we are farther away from the end of the
 	// line than this, we don't look carefully at a break possibility.
-	metrics := item.Analysis.Font.GetMetrics(item.Analysis.Language)
+	metrics := FontGetMetrics(item.Analysis.Font, item.Analysis.Language)
 	safe_distance := metrics.ApproximateCharWidth * 3
 
 	if processingNewItem {
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 5d49d1f..ab7d7d0 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1375,7 +1375,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				} else {
 					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
 
-					if prev != nil {
+					if prev != nil && prev.Analysis.Font != nil {
 						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
 						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
 						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
diff --git a/pango/shape.go b/pango/shape.go
index b65d0a2..4a63b8b 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -269,6 +269,8 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 					analysis.Font.Describe(false), string(itemText), itemText)
 			}
 		}
+	} else {
+		glyphs.setSize(0)
 	}
 
 	if len(glyphs.Glyphs) == 0 {
-- 
2.43.0


From 0346dffabbc583e05baae212728e5842884ff260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 45/64] fix: a line overflowing with char breaks allowed is not
 filled twice

A line break position which is not a char break (a hyphen inside a range
where breaks are not allowed) was forgotten when trying again with char
breaks: the item was added to the line and also to the next ones.
---
 pango/layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index c584507..8737f6a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1533,7 +1533,9 @@ retryBreak:
 		}
 
 		// If there are no previous runs we have to take care to grab at least one char.
-		if layout.canBreakAt(state.startOffset+numChars, wrap) &&
+		// When trying again with looser conditions, the line breaks are still
+		// accepted: some of them are not char breaks.
+		if (layout.canBreakAt(state.startOffset+numChars, wrap) || layout.canBreakAt(state.startOffset+numChars, layout.wrap)) &&
 			(numChars > 0 || line.Runs != nil) {
 
 			if debugMode {
-- 
2.43.0


From 951f0b75fe136d1028f0e5694f86525b5accf500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 46/64] fix: loading fonts without a context does not panic

---
 pango/fcfonts/fontmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index f0785f7..77d8680 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -284,8 +284,11 @@ func (fcfontmap *FontMap) getScaledSize(context *pango.Context, desc *pango.Font
 
 		size = size * dpi / 72.
 	}
-	_, scale := context.Matrix.GetFontScaleFactors()
-	return int(.5 + scale*size)
+	if context != nil { // the context is optional
+		_, scale := context.Matrix.GetFontScaleFactors()
+		size *= scale
+	}
+	return int(.5 + size)
 }
 
 type fcFontKey struct {
-- 
2.43.0


From a89f4bd90720195a41dfff284bc64e709da83256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 47/64] fix: the metrics of a font for a language do not depend
 on the languages asked before

Languages sharing a sample text may use different fonts for it.
---
 pango/fcfonts/fonts.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 9db9fd7..fb260af 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -288,8 +288,8 @@ func (font *Font) GlyphExtents(glyph pango.Glyph, inkRect, logicalRect *pango.Re
 }
 
 type fcMetricsInfo struct {
-	sampleStr string
-	metrics   pango.FontMetrics
+	lang    pango.Language
+	metrics pango.FontMetrics
 }
 
 func (font *Font) Describe(absolute bool) pango.FontDescription {
@@ -459,14 +459,15 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 		return font.getFaceMetrics()
 	}
 
-	sampleStr := pango.SampleString(lang)
-
+	// languages sharing the same sample may still select different fonts
 	for _, info := range font.metricsByLang {
-		if info.sampleStr == sampleStr {
+		if info.lang == lang {
 			return info.metrics
 		}
 	}
 
+	sampleStr := pango.SampleString(lang)
+
 	fontmap := font.fontmap
 	if fontmap == nil {
 		return pango.FontMetrics{}
@@ -475,7 +476,7 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 	fontmap.measuring = true
 	defer func() { fontmap.measuring = false }()
 
-	info := &fcMetricsInfo{sampleStr: sampleStr}
+	info := &fcMetricsInfo{lang: lang}
 
 	context := pango.NewContext(fontmap)
 	context.SetLanguage(lang)
-- 
2.43.0


From 298313af098278878400a6b1b303ffbf253e0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 48/64] fix: the first font of a fontset does not depend on the
 fontsets used before

It was the best match, or, once the sorted fonts had been used for the same
pattern under another matrix, the first of them.
---
 pango/fcfonts/fontmap.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 77d8680..c4c3359 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -481,9 +481,11 @@ func (fontmap *FontMap) newCachedPattern(pat fc.Pattern) *cachedPattern {
 	return &pats
 }
 
+// getFontPattern returns the i-th font to use: the best match, followed by the fonts
+// of the sorted fontset. The result does not depend on the previous calls.
 func (pats *cachedPattern) getFontPattern(i int) (fc.Pattern, bool) {
 	if i == 0 {
-		if pats.match == nil && pats.fontset == nil {
+		if pats.match == nil {
 			pats.match = pats.fontmap.Database.Match(pats.pattern, pats.fontmap.Config)
 		}
 
@@ -497,10 +499,6 @@ func (pats *cachedPattern) getFontPattern(i int) (fc.Pattern, bool) {
 		// we actually supports more formats than Harfbuzz, no need to filter
 
 		pats.fontset, _ = fonts.Sort(pats.pattern, true)
-
-		if pats.match != nil {
-			pats.match = nil
-		}
 	}
 
 	if i < len(pats.fontset) {
-- 
2.43.0


From c881e5dbbf2d53ea0f8b56625021f9693250b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 49/64] fix: fonts whose file is corrupt are skipped instead of
 panicking when measured

---
 pango/fcfonts/fonts.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index fb260af..4359244 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -6,6 +6,7 @@
 package fcfonts
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/benoitkugler/textlayout/fonts"
@@ -325,7 +326,16 @@ func (font *Font) GetCoverage(_ pango.Language) pango.Coverage {
 func (font *Font) GetFontMap() pango.FontMap { return font.fontmap }
 
 // create a new font, which will be cached
-func (font *Font) loadHBFont() error {
+func (font *Font) loadHBFont() (err error) {
+	// the font parsers may panic on a corrupted file, or accept it without some of the tables
+	// required to use the font: such a font is invalid
+	defer func() {
+		if r := recover(); r != nil {
+			font.hbFont = nil
+			err = fmt.Errorf("invalid font %s: %v", font.FaceID().File, r)
+		}
+	}()
+
 	var (
 		xScaleInv, yScaleInv float32 = 1, 1
 		pixelSize, pointSize float32 = 1, 1
@@ -374,6 +384,8 @@ func (font *Font) loadHBFont() error {
 	font.hbFont.XScale, font.hbFont.YScale = int32(pixelSize*pango.Scale*xScale), int32(pixelSize*pango.Scale*yScale)
 	font.hbFont.Ptem = pointSize
 
+	font.getFaceMetrics() // make sure the metrics are available
+
 	if varFont, isVariable := face.(truetype.FaceVariable); key != nil && isVariable {
 		fvar := varFont.Variations()
 		if len(fvar.Axis) == 0 {
-- 
2.43.0


From ea563121457b3a25afe7fb63e2ff21505c5679bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 50/64] fix: Japanese is not taken as a language written in any
 script

---
 pango/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/language.go b/pango/language.go
index 249669a..a993ad8 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -366,7 +366,7 @@ func pango_language_get_scripts(lang Language) []Script {
 		}
 	}
 
-	return nil
+	return script_for_lang.scripts[:]
 }
 
 // pango_language_includes_script determines if `script` is one of the scripts used to
-- 
2.43.0


From b0f097f61bdfdd042e8796ba676873655d1376d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 51/64] fix: all the languages of PANGO_LANGUAGE and LANGUAGE
 are honoured

---
 pango/language.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pango/language.go b/pango/language.go
index a993ad8..bf3f4f4 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -428,18 +428,16 @@ func parse_default_languages() []Language {
 		if end == -1 {
 			end = len(p)
 			done = true
-		} else {
-			p = p[:end]
 		}
 
 		/* skip empty languages, and skip the language 'C' */
 		if end != 0 && !(end == 1 && p[0] == 'C') {
-			l := pango_language_from_string(p)
+			l := pango_language_from_string(p[:end])
 			langs = append(langs, l)
 		}
 
 		if !done {
-			p = p[end:]
+			p = p[end+1:]
 		}
 	}
 
-- 
2.43.0


From 2c7f521b53d8043dd025d712f902c0663a0a5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 52/64] fix: the bytes of a saved font cache do not depend on
 the enumeration order of maps

---
 fontconfig/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8121b06..bc0ef8c 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -61,7 +61,8 @@ func (p Pattern) serializeBin() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	for obj, list := range p {
+	for _, obj := range p.sortedKeys() { // do not depend on the map order
+		list := p[obj]
 		binary.BigEndian.PutUint16(buf[:], uint16(obj))
 		_, err := w.Write(buf[:])
 		if err != nil {
-- 
2.43.0


From 0e81b8564911cf731570dab009e313699da928b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 53/64] fix: the cursor jumps to the start of the text instead
 of reaching the edge of its line

---
 pango/layout_cursors.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..dede8fa 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -312,7 +312,10 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 	if 0 <= visPos && visPos < len(cursors) {
 		newIndex = cursors[visPos].pos
-	} else if visPos >= len(cursors)-1 {
+	} else if (visPos < 0) == (line.ResolvedDir == DIRECTION_LTR) {
+		// at one edge of the line: the start is on the left for LTR lines, on the right for RTL ones
+		newIndex = line.StartIndex
+	} else {
 		newIndex = line.StartIndex + line.Length
 	}
 
-- 
2.43.0


From 02853f0bdac1b99c32c8db224c66cb0473a83eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 54/64] fix: characters past the last upright range are looked
 up out of range

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 60934e0..3aa317b 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -428,7 +428,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From 3ef5887022ea46e82a21a2c90ba09f607affa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 55/64] fix: an accelerator before an element makes markup
 parsing panic

---
 pango/markup.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 3619234..1bb0cfb 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
-- 
2.43.0


From da0c77700cc81653a9433784d2b99e6f4c5edc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 56/64] fix: languages not supported by harfbuzz, or not in
 Latin script, panic

---
 pango/item.go     |  2 +-
 pango/language.go | 29 +++++++++++++++++++++++++++++
 pango/shape.go    |  2 +-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index b63f7e5..a543e71 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -436,7 +436,7 @@ func (item *Item) allFeaturesSupported(features []truetype.Tag) bool {
 	}
 
 	script := item.Analysis.Script
-	language := item.Analysis.Language
+	language := harfbuzzLanguage(item.Analysis.Language)
 
 	scriptTags, languageTags := harfbuzz.NewOTTagsFromScriptAndLanguage(script, language)
 
diff --git a/pango/language.go b/pango/language.go
index bf3f4f4..fb4d7de 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -4,6 +4,7 @@ import (
 	"os"
 	"strings"
 	"sync"
+	"unicode"
 
 	"github.com/benoitkugler/textlayout/language"
 )
@@ -139,6 +140,14 @@ func pango_language_from_string(l string) Language {
 	// using a map from language to pointer,
 	// which replace comparison and copies of string to comparison and copies of pointers
 
+	// NewLanguage only supports Latin-1 characters
+	l = strings.Map(func(r rune) rune {
+		if r > unicode.MaxASCII {
+			return -1
+		}
+		return r
+	}, l)
+
 	return language.NewLanguage(l)
 
 	// hash := lang_hash(can)
@@ -151,6 +160,26 @@ func pango_language_from_string(l string) Language {
 	// }
 }
 
+// lastOTLanguage is the last language known by the harfbuzz package
+const lastOTLanguage = "zzj"
+
+// harfbuzzLanguage returns the longest prefix of `lang` supported by the harfbuzz
+// package, whose look up fails on languages sorted after the ones it knows,
+// and on tags ending by a subtag of one character.
+func harfbuzzLanguage(lang Language) Language {
+	tags := strings.Split(string(lang), "-")
+	for i, tag := range tags {
+		if tag > lastOTLanguage {
+			tags = tags[:i]
+			break
+		}
+	}
+	for len(tags) != 0 && len(tags[len(tags)-1]) <= 1 {
+		tags = tags[:len(tags)-1]
+	}
+	return Language(strings.Join(tags, "-"))
+}
+
 func compute_derived_language(lang Language, script Script) Language {
 	var derivedLang Language
 
diff --git a/pango/shape.go b/pango/shape.go
index 4a63b8b..09f8b8d 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -158,7 +158,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 
 	cachedBuffer.Props.Direction = dir
 	cachedBuffer.Props.Script = analysis.Script
-	cachedBuffer.Props.Language = analysis.Language
+	cachedBuffer.Props.Language = harfbuzzLanguage(analysis.Language)
 	cachedBuffer.ClusterLevel = harfbuzz.MonotoneCharacters
 	cachedBuffer.Flags = flags
 
-- 
2.43.0


From 4951c29da6b55955383373adef7315840a00d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 57/64] fix: shaping a leading combining mark in a right to
 left run panics

---
 pango/shape.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/shape.go b/pango/shape.go
index 09f8b8d..7e4741d 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -206,6 +206,10 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 
 	features := analysis.collectFeatures()
 
+	// The shaper may insert a dotted circle in front of the text, and reverse the
+	// buffer before it resizes the positions: make sure that there is room for one more.
+	cachedBuffer.Pos = append(cachedBuffer.Pos, harfbuzz.GlyphPosition{})
+
 	cachedBuffer.Shape(hbFont, features)
 
 	if analysis.Gravity.IsImproper() {
-- 
2.43.0


From dc98cbdcf16824557f83c72d3ffb31970a3b963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 58/64] fix: SetHeight keeps the lines when the last one is to
 be ellipsized

---
 pango/layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 8737f6a..a8890b5 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -298,9 +298,11 @@ func (layout *Layout) SetHeight(height Unit) {
 		/* Do not invalidate if the number of lines requested is
 		* larger than the total number of lines in layout.
 		* Bug 549003
+		* The last line requested is not filled like the others: it is
+		* ellipsized if it does not fit, even if it would not be wrapped.
 		 */
 		if oldHeight < 0 && height < 0 && (layout.ellipsize == ELLIPSIZE_NONE ||
-			!layout.isEllipsized && len(layout.lines) <= -int(height)) {
+			!layout.isEllipsized && len(layout.lines) < -int(height) && len(layout.lines) < -int(oldHeight)) {
 			return
 		}
 
-- 
2.43.0


From 2bff0c7fb0718337907c10a335f636d501754ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 59/64] fix: items too wide for the line, with breaks between
 characters only, overflowed it: the width of the whole item was lost

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index a8890b5..0cf5ddc 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1484,7 +1484,6 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// From here on, we look for a way to break item
 
-	width = 0
 	var (
 		orig_width      = width
 		origExtraWidth  = extraWidth
@@ -1513,6 +1512,7 @@ retryBreak:
 	if noBreakAtEnd {
 		limit--
 	}
+	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
 		extraWidth = layout.find_break_extraWidth(state, numChars)
 
-- 
2.43.0


From 8012c7ac183c7865c342fd89da5394df2a8aa0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 60/64] fix: SetFontDescription ignored a description with the
 same values in which other fields are set

---
 pango/context.go | 2 +-
 pango/layout.go  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 3aa317b..069ba2a 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -231,7 +231,7 @@ func (context *Context) GetLanguage() Language { return context.setLanguage }
 // SetFontDescription sets the default font description for the context,
 // which is used during itemization when no other font information is available.
 func (context *Context) SetFontDescription(desc FontDescription) {
-	if !desc.pango_font_description_equal(context.fontDesc) {
+	if desc.mask != context.fontDesc.mask || !desc.pango_font_description_equal(context.fontDesc) {
 		context.contextChanged()
 		context.fontDesc = desc
 	}
diff --git a/pango/layout.go b/pango/layout.go
index 0cf5ddc..e240d56 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -134,7 +134,9 @@ func NewLayout(context *Context) *Layout {
 // SetFontDescription sets the default font description for the layout.
 // If `nil`, the font description from the layout's context is used.
 func (layout *Layout) SetFontDescription(desc *FontDescription) {
-	if desc != nil && layout.fontDesc != nil && desc.pango_font_description_equal(*layout.fontDesc) {
+	// the fields which are set matter: the others come from the context
+	if desc != nil && layout.fontDesc != nil && desc.mask == layout.fontDesc.mask &&
+		desc.pango_font_description_equal(*layout.fontDesc) {
 		return
 	}
 
-- 
2.43.0


From b61c7d8be35f02d8d2c1e17383036cc237d427c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 61/64] fix: the width of an added hyphen was given to the line
 instead of taken from it

---
 pango/layout_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index ab7d7d0..e7bfa7b 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -551,7 +551,7 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 
 		state.startOffset = startOffset
 
-		state.remainingWidth += run.Glyphs.getWidth() - width
+		state.remainingWidth -= run.Glyphs.getWidth() - width
 	}
 }
 
-- 
2.43.0


From f6a7447fcd28fccab8bd99c13a00ad96a37a349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 62/64] fix: adding a hyphen shaped the last run of a line with
 the properties of the next item

---
 pango/layout_line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index e7bfa7b..0f73ae6 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -545,11 +545,15 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 		 */
 		startOffset := state.startOffset
 		state.startOffset = state.lineStartIndex + lineChars - item.Length
+		// the same goes for the properties, which may be the ones of the next item
+		properties := state.properties
+		state.properties = item.getProperties()
 
 		item.Analysis.Flags |= AFNeedHyphen
 		run.Glyphs = line.shapeRun(state, item)
 
 		state.startOffset = startOffset
+		state.properties = properties
 
 		state.remainingWidth -= run.Glyphs.getWidth() - width
 	}
-- 
2.43.0


From 970fe66ce5b4bff1782561197c5415422b8ab9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 63/64] fix: hyphens had a negative width when the gravity
 turns the font around

---
 pango/item.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index a543e71..d2eb8b4 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -242,7 +242,11 @@ func (item *Item) find_hyphen_width() Unit {
 		glyph, ok = hbFont.Face().NominalGlyph('-')
 	}
 	if ok {
-		return Unit(hbFont.GlyphHAdvance(glyph))
+		width := Unit(hbFont.GlyphHAdvance(glyph))
+		if width < 0 { // as when shaping: the gravity may rotate the font
+			width = -width
+		}
+		return width
 	}
 
 	return 0
-- 
2.43.0


From 1820b535a5d6c2861857d2e64a554bb0551335dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 64/64] fix: the space at the end of an item which does not end
 the line was not counted, and justified lines were not filled when it ended
 it

---
 pango/layout.go      | 7 ++++++-
 pango/layout_line.go | 7 +++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index e240d56..ac5e0c1 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1635,7 +1635,12 @@ retryBreak:
 
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
 		if state.remainingWidth >= 0 {
-			state.remainingWidth -= breakWidth + breakExtraWidth
+			state.remainingWidth -= breakWidth
+			if breakNumChars != item.Length {
+				// the extra width (of a hyphen, minus the one of a final space)
+				// only matters if the line ends there
+				state.remainingWidth -= breakExtraWidth
+			}
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 0f73ae6..0bd5bea 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -502,10 +502,9 @@ func (line *LayoutLine) postprocess(state *paraBreakState, wrapped bool) {
 
 	// Distribute extra space between words if justifying and line was wrapped
 	if line.layout.Justify && (wrapped || ellipsized || line.layout.JustifyLastLine) {
-		/* if we ellipsized, we don't have remaining_width set */
-		if state.remainingWidth < 0 {
-			state.remainingWidth = state.lineWidth - line.getWidth()
-		}
+		// if we ellipsized, we don't have remainingWidth set, and it
+		// may still count a final space
+		state.remainingWidth = state.lineWidth - line.getWidth()
 
 		line.justifyWords(state)
 	}
-- 
2.43.0

