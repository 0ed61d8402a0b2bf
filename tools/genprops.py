#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

F = "fontconfig/"; G = "pango/"; M = "pango/fcfonts/"

prop("C01", "A saved font database loads back equal, over any byte stream",
 "Saving a font set to a stream and loading it back yields a font set with the same patterns in the same order, each with the same properties and, per property, the same values (of every supported type) with the same strengths in the same order (language tags outside the library's language table excepted: the cache format documents that it does not store them). This holds whatever the sizes in which the storage accepts and returns bytes. Two saves of the same set load back identically, and everything the library answers from the loaded set (listing, matching, sorting, hashing, character and language coverage) equals the answer from the original.",
 ["inputs", "fault_sequences", "histories"],
 "every font set obtainable by scanning or by building patterns through the public API (including empty sets and patterns, lists, ranges, matrices, charsets, language sets), every partition of the byte stream into short reads and writes, every number of save/load generations",
 "The existing cache test saves one scanned database into a memory buffer and reads it back in one go; it never varies value types, list lengths, chunk sizes or generations, and it is not in the set of tests that run reliably.",
 [F+"cache.go", F+"values.go", F+"pattern.go", F+"charset.go", F+"lang.go"],
 [("binary encoding of patterns, value lists and values", F+"cache.go serializeBin/deserializeBin"), ("length-prefixed, gzip-compressed records", F+"cache.go Fontset.Serialize, LoadFontset")],
 ["LoadFontset result vs. the set given to Fontset.Serialize", "Pattern.Hash, Pattern.String, Fontset.List/Match/Sort on both"])

prop("C02", "A damaged font cache is refused, never silently misread",
 "Loading a cache whose stored bytes were truncated, altered or lost, or whose storage fails while being read, either returns an error or returns exactly the font set that was saved. It never panics, never loops and never returns a set that differs from the saved one.",
 ["inputs", "fault_sequences", "crash_points"],
 "every saved font set, every truncation point, every flipped bit or byte, overwritten, zeroed, duplicated or dropped block, every read error at any offset, with any read sizes",
 "Tests load only intact caches from reliable memory; the space of damage positions times database contents is unbounded.",
 [F+"cache.go"],
 [("gzip frame with checksum and length", F+"cache.go LoadFontset"), ("length prefixes checked while decoding", F+"cache.go deserialize*"), ("hard limit on the number of patterns", F+"cache.go LoadFontset")],
 ["LoadFontset, LoadFontsetFile: returned set and error"])

prop("C03", "Saving a font cache is acknowledged only when it is really stored",
 "Saving the font database, to a stream or to the cache file, returns success only if the stored bytes are complete and load back as the same set. If any storage operation fails (full disk, write error, short write, failing close), an error is returned. After a failure or crash at any point, loading the cache file either fails with an error or yields a complete font set that was passed to a save, never a partial or mixed one.",
 ["crash_points", "fault_sequences", "histories"],
 "every database, every storage operation index at which a write, create or close fails, is short or torn, and every crash point between them, over histories of repeated saves to the same file",
 "No existing test injects a storage failure or interrupts a save.",
 [F+"cache.go"],
 [("propagation of write, flush and close errors", F+"cache.go Fontset.Serialize, ScanAndCache"), ("gzip trailer written by the final close", F+"cache.go Fontset.Serialize")],
 ["error returned by Fontset.Serialize and ScanAndCache", "LoadFontsetFile on the surviving file"])

prop("C04", "Directory scans find every readable font and isolate failures",
 "Scanning directories returns exactly the faces of the readable, accepted font files reachable from them, each with the right file, index and content-derived properties, wherever a file sits in the tree and whatever unreadable, corrupt, non-font or empty files surround it; a file reached through several given directories or links is not read as something else. A storage failure met while walking, opening or reading either surfaces as an error or affects only the file concerned, never the description of other files. Every file opened by a scan is closed when it returns, whether it succeeded or failed.",
 ["inputs", "fault_sequences", "configurations"],
 "every directory tree (nesting, symbolic links, several roots, mixed formats, junk files, partial or compressed fonts), every storage fault sequence while scanning (open, read, short read, directory read, stat errors), every later fault-free retry",
 "Tests scan the host machine's font directories once, without faults, and are excluded from the reliable set because results depend on the machine.",
 [F+"config.go", F+"partial_scan.go", F+"scan.go"],
 [("tree walk with link resolution and extension filter", F+"config.go readDir/scanFontFiles"), ("per-file format probing with fallback", F+"scan.go"), ("deferred closing of files", F+"config.go, "+F+"partial_scan.go")],
 ["Config.ScanFontDirectories, Config.ScanFontFile, Config.ScanFontRessource, ScanFontFile results", "open file handles after return"])

prop("C05", "Font selection rules apply the same on every scanning path",
 "A font file or face rejected by the configuration's glob or pattern rules is absent from, and an accepted one present in, the result, the accept rules taking precedence over the reject rules. The decision for a given file is the same whether it is found by scanning a directory, a single file or an opened resource (for the rules based on font properties), and does not depend on what was scanned before.",
 ["configurations", "inputs", "histories"],
 "every combination of accept and reject globs and patterns loaded into a configuration, every tree of files, every entry point and every order of scans",
 "The only selector tests use one or two fixed rules on one path.",
 [F+"config.go", F+"xml.go", F+"match.go"],
 [("acceptance by file name and by pattern", F+"config.go acceptFilename, acceptFont"), ("selectfont parsing", F+"xml.go")],
 ["presence of each face in the scan results"])

prop("C06", "Configuration loading is stream independent and reports damage",
 "Loading a configuration from a stream or from files has the same effect whatever the read sizes, and the files of a directory are applied in their documented name order whatever the order in which storage lists them. If the document is malformed or the storage fails while it is read, an error is returned, never a panic, and a configuration that failed to load a document behaves as if that document had never been offered. A copy of a configuration behaves like the original at the time of the copy, and later loads into either one never affect the other.",
 ["configurations", "fault_sequences", "histories"],
 "every configuration document and directory of documents, every chunking, truncation, corruption and read error, every sequence of loads and copies",
 "Tests load fixed well-formed documents from disk or memory and never interrupt a load or interleave copies and loads.",
 [F+"xml.go", F+"config.go", F+"expr.go"],
 [("XML parsing into rule sets", F+"xml.go"), ("directory loading with name filter and order", F+"config.go LoadFromDir"), ("deep copy", F+"config.go Copy")],
 ["error returned by Config.LoadFromMemory/LoadFromDir", "Config.Substitute/ScanFontFile behaviour after the load"])

prop("C07", "Concurrent layout users do not disturb each other",
 "Any number of threads may each lay out text with their own font map, context and layout at the same time, sharing the font database, the configuration and the process-wide tables of the library. Each thread obtains exactly the results it would obtain running alone, under every interleaving. No interleaving has a data race, a deadlock or a crash.",
 ["schedules", "inputs"],
 "every set of concurrent layout sessions (texts, attributes, widths, languages, fonts), every interleaving of their steps, with and without warm process-wide caches",
 "All existing tests are single threaded; a race or a corrupted shared cache shows only in particular interleavings.",
 [G+"shape.go", G+"language.go", G+"fontset.go", G+"context.go", M+"fontmap.go", M+"fonts.go"],
 [("locks around shared buffers and caches", G+"shape.go cachedBufferLock, "+G+"language.go languagesLock, "+G+"fontset.go, "+G+"context.go emoji/width caches"), ("one-time default language", G+"language.go defaultLanguageOnce")],
 ["per-thread layout results compared with the same session run alone", "race detector reports", "scheduler deadlock detection"],
 state=[("shared shaping buffer", "reused between calls under a lock", G+"shape.go"), ("language tables", "process-wide tag cache", G+"language.go")])

prop("C08", "Concurrent font queries on shared data equal serial ones",
 "Any number of threads may query one configuration and one font database at the same time: substitution, matching, sorting, listing, scanning, loading and saving caches, reading default languages. Each query returns what it returns when run alone, under every interleaving, with no data race, deadlock or crash.",
 ["schedules", "inputs"],
 "every set of concurrent query programs over a shared configuration and database, every interleaving, including the first use of process-wide defaults",
 "All existing tests are single threaded.",
 [F+"config.go", F+"substitutions.go", F+"match.go", F+"list.go", F+"fontconfig.go", F+"family_mapping.go", F+"charset.go"],
 [("read-only use of the shared configuration", F+"substitutions.go, "+F+"config.go"), ("lock around the default languages", F+"fontconfig.go defaultLangsLock"), ("copy before merge of shared charsets and patterns", F+"match.go")],
 ["per-thread query results compared with the same query run alone", "race detector reports"])

prop("C09", "Queries never modify the data they are given",
 "Matching, sorting, listing, scanning, saving, substituting on a copy, laying out text, measuring, iterating and loading fonts leave the configuration, the font database, the patterns, texts, attribute lists and font descriptions given by the caller as they were. Values a query hands out can be changed by the caller, as documented, without altering later answers. Repeating a query gives the same answer.",
 ["histories", "inputs"],
 "every sequence of queries over shared databases, configurations, attribute lists, descriptions and texts, including ones that wrap, ellipsize, justify, fall back or fail",
 "Tests check the value returned once, not that inputs and shared state are unchanged afterwards.",
 [F+"match.go", F+"list.go", F+"substitutions.go", G+"layout.go", G+"ellipsize.go", G+"attributes.go", G+"context.go", M+"fontmap.go"],
 [("copies taken before mutation", F+"match.go PrepareRender, "+F+"pattern.go Duplicate"), ("attributes copied into items", G+"attributes.go getFont")],
 ["deep comparison of inputs before and after each operation", "answers of repeated queries"])

prop("C10", "Layout caching is invisible: history never changes the result",
 "After any sequence of property changes, text and attribute changes and queries, what a layout reports (lines, runs, glyphs, positions, extents, cursor and hit-test answers, flags, counts) equals what a new layout configured directly with the same final settings reports. A query never changes the answer of a later query, and setting a property to the value it already has changes nothing.",
 ["histories", "inputs"],
 "every interleaving of setters and queries on a layout, over every text, attribute list, width, height, wrap, ellipsis, alignment, spacing, tab, direction and context setting",
 "Tests build a layout, set it up once and query it; stale caches appear only after particular query-change-query orders.",
 [G+"layout.go", G+"layout_line.go", G+"layout_iter.go", G+"context.go"],
 [("invalidation on change", G+"layout.go layoutChanged, clearLines"), ("cached extents, tab width, log attributes", G+"layout.go, "+G+"layout_line.go")],
 ["all public queries of the layout vs. those of a freshly built one"],
 state=[("cached lines and extents", "valid only for the current settings", G+"layout.go Layout")])

prop("C11", "Context and font map changes reach every layout that uses them",
 "After a context's font description, language, base direction, gravity, gravity hint, matrix, glyph rounding or font map changes, or the font map's resolution, configuration or database changes, every existing layout and context on it reports the same as one created afresh under the new settings, once the change has been announced where the interface documents that it must be. This holds for any number of contexts and layouts sharing the same objects and for changes made between any two queries. The change counters of font map and context increase on every such change and never otherwise take a previous value.",
 ["histories", "configurations"],
 "every sequence of changes to shared contexts and font maps interleaved with queries on any number of layouts sharing them",
 "No test changes a context or font map after laying out with it.",
 [G+"context.go", G+"layout.go", M+"fontmap.go"],
 [("serial numbers", G+"context.go GetSerial, checkFontmapChanged, "+M+"fontmap.go GetSerial"), ("serial check before using cached lines", G+"layout.go checkContextChanged")],
 ["layout queries before and after the change vs. fresh objects", "Context.GetSerial, FontMap.GetSerial"])

prop("C12", "Missing or corrupt font files degrade gracefully and heal",
 "If font files recorded in the database are missing, unreadable, truncated or corrupt when they are needed, laying out, measuring and font queries complete without panicking, and text keeps being laid out, with other fonts or placeholder boxes. Fonts not affected by the failure give the same results as without it. Once the storage works again, a new font map gives the results of a run that never failed.",
 ["fault_sequences", "histories", "inputs"],
 "every database, every subset of files missing or damaged, every sequence of open and read failures while fonts are loaded, healing at any later point, every text",
 "Tests only run with all font files present and intact.",
 [M+"fontmap.go", M+"fonts.go", M+"fontset.go", G+"shape.go", G+"fontset.go"],
 [("load error handling and skipping in font sets", M+"fontmap.go newFont, "+M+"fontset.go"), ("fallback to unknown-glyph boxes", G+"shape.go")],
 ["completion of layout and font queries", "results on unaffected fonts vs. fault-free run", "results after healing"])

prop("C13", "Every reachable layout state accounts for all the text",
 "In every state a layout reaches, with or without font failures: the lines cover the paragraphs of the text in order without overlap or gap except the paragraph separators, the runs of a line cover exactly its characters, each run's glyph clusters are monotonic and lie inside the run, there is one log attribute per character plus one, and line and character counts agree with the text. Iterating by line, run, cluster and character visits the same content in the same order and ends. Ellipsized text is covered by the ellipsis run.",
 ["histories", "inputs", "fault_sequences"],
 "every text and settings history including changes of width, height, ellipsis, wrap and attributes, with and without unavailable fonts",
 "Tests compare a few fixed outputs; conservation has to hold for all texts, settings and histories.",
 [G+"layout.go", G+"layout_line.go", G+"layout_iter.go", G+"ellipsize.go", G+"glyph_item.go", G+"context.go", G+"item.go"],
 [("paragraph and line breaking", G+"layout.go processLine/processItem"), ("run splitting and insertion", G+"layout_line.go, "+G+"glyph_item.go split"), ("visual iteration", G+"layout_iter.go")],
 ["Layout.GetLinesReadonly/GetIter and run structures in every state of a session"])

prop("C14", "Every operation finishes in a bounded number of steps",
 "Every public operation (layout, measuring, cursor motion, iteration, hit testing, markup parsing, itemizing, matching, sorting, listing, substituting, scanning, loading and saving) returns after a number of steps bounded by a polynomial of the size of its inputs, for every input, every history and every fault sequence. In particular no operation loops forever or panics, and moving the cursor repeatedly in one direction leaves the text after finitely many moves.",
 ["inputs", "histories", "fault_sequences"],
 "every text, attribute list, tab array, width (including zero, negative and huge), configuration, pattern, stream and fault sequence, from every reachable state",
 "Tests run fixed inputs that terminate; a hang needs a particular combination, such as justification of unbreakable zero-width clusters.",
 [G+"layout_line.go", G+"layout.go", G+"layout_cursors.go", G+"ellipsize.go", G+"break.go", F+"xml.go", F+"match.go", F+"cache.go"],
 [("loops advancing by cluster, run, tab or item", G+"layout_line.go, "+G+"layout.go, "+G+"ellipsize.go"), ("retry loops on break reset", G+"layout.go processItem")],
 ["logical step count of each call against a budget"])

prop("C15", "Results never depend on unordered iteration",
 "The results of every operation are a function of its inputs and of documented process settings: they are the same in every process and every repetition, whatever order the runtime chooses to enumerate unordered collections and storage chooses to enumerate directories. In particular fonts of equal merit are returned in database order.",
 ["schedules", "inputs"],
 "every enumeration order of every unordered collection and directory, for every operation and input",
 "The runtime picks enumeration orders at random, so a test sees one order per run; one existing test is flaky for this reason.",
 [F+"list.go", F+"match.go", F+"pattern.go", F+"substitutions.go", F+"fontconfig.go", F+"lang.go", F+"name.go", G+"language.go"],
 [("sorted keys before enumeration", F+"pattern.go Hash, String"), ("stable ordering of fonts", F+"match.go Sort"), ("grouping of listed fonts", F+"list.go")],
 ["results of the same program under different enumeration orders"])

prop("C16", "Default languages follow the documented environment settings",
 "The default language and the preferred languages are the ones prescribed by the documented environment variables in their documented order of precedence, every well-formed entry of a list being honoured, in order, with a defined fallback when nothing usable is set. The default languages of font queries and the preferred languages are determined once, the answer being the same for every caller and thread for the life of the process whichever operation asks first; the default language of a new context follows LC_ALL, LC_CTYPE and LANG as they are set when it is asked. Font queries that depend on the default language use the same answer.",
 ["configurations", "schedules"],
 "every setting of the environment, every first caller among all operations that use the defaults, every interleaving of concurrent first uses",
 "Environment is read once per process; tests run in a single environment and never race the first use.",
 [F+"fontconfig.go", G+"language.go", F+"substitutions.go"],
 [("environment precedence", F+"fontconfig.go getDefaultLangs, "+G+"language.go pango_get_preferred_languages"), ("one-time initialisation", G+"language.go defaultLanguageOnce, "+F+"fontconfig.go defaultLangsLock")],
 ["DefaultLanguage, script sample/preferred language answers, Pattern.SubstituteDefault languages in fresh simulated processes"])

prop("C17", "Font lookups do not depend on earlier lookups",
 "Loading a font or a font set, its description, metrics, coverage, glyph choices, scaling and features give the same answer on a font map that already served any other requests as on a new one. Caches, evictions and equal-looking keys never return a font made for another description, language, size, resolution, gravity, matrix or set of features. Equal requests on an unchanged font map return the same font.",
 ["histories", "inputs"],
 "every sequence of font, font set and metrics requests, over sizes, languages, contexts, gravities, matrices, resolutions and variations, including more distinct requests than the caches hold",
 "Tests load one or two fonts from a new font map.",
 [M+"fontmap.go", M+"fonts.go", M+"fontset.go", M+"faces.go", G+"fontset.go", G+"fonts.go"],
 [("cache keys for font sets and fonts", M+"fontmap.go fontsetKey, fontKey"), ("metrics per language", M+"fonts.go GetMetrics"), ("font set cache with eviction", M+"fontmap.go, "+M+"fontset.go")],
 ["descriptions, metrics and glyphs of fonts from a used font map vs. a fresh one"],
 state=[("font and font set hash tables", "must be keyed by everything that influences the result", M+"fontmap.go")])

prop("C18", "Lines keep within the limits set on the layout",
 "After any history of settings, text changes and queries, the lines of a layout respect its limits. A line goes on in another line only where a width is set and where the log attributes and the wrap mode allow a break. A line wider than the width left by the indent has no place where it could have been broken earlier and fit. With ellipsization and a height of -n, each paragraph has at most n lines; ellipsis appear only under such limits, at most one per line and only in the last line of a paragraph, and a line that is ellipsized, or had to be, fits the width. A justified line with spaces to expand fills the width when it can. IsWrapped and IsEllipsized tell what the lines show.",
 ["histories", "inputs"],
 "every sequence of setters and queries on a layout, texts, scripts, attributes, font databases (fonts that fail to load among them), wrap and ellipsization modes, widths, heights and indents",
 "Tests compare a few layouts with recorded dumps, each laid out once from a new layout.",
 ["pango/layout.go", "pango/layout_line.go", "pango/ellipsize.go", "pango/break.go"],
 [("line breaking", "pango/layout.go tryAddItemToLine, processItem, processLine, canBreakAt"), ("ellipsization", "pango/ellipsize.go"), ("hyphens, justification and spacing of lines", "pango/layout_line.go postprocess, addMissingHyphen, justifyWords")],
 ["lines, runs, glyph widths and flags of a layout in any state, against its log attributes and settings"],
 state=[("lines of a layout, with the state of the paragraph being broken", "must account for every width change made after an item was accepted", "pango/layout.go, "+"pango/layout_line.go")])

# pure functions of their arguments: listed, not claimed
def pure(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text,
         "Tests sample inputs; the input space is unbounded.", files, mech, ["function results"])
pure("N01", "Bidirectional levels and reordering follow the Unicode algorithm",
 "For every paragraph, the embedding levels, visual order, mirroring and joining computed equal those the Unicode Bidirectional Algorithm and Arabic joining rules prescribe.",
 "every paragraph and base direction", ["fribidi/bidi.go", "fribidi/fridibi.go", "fribidi/joining.go", "fribidi/mirroring.go"], [("rule by rule implementation", "fribidi/bidi.go")])
pure("N02", "Line, word, sentence and grapheme boundaries follow Unicode",
 "For every text, the boundary attributes equal those prescribed by the Unicode segmentation and line breaking rules with the documented tailorings.",
 "every text and language", ["pango/break.go", "pango/break_indic.go", "pango/break_arabic.go", "pango/break_thai.go"], [("state machine over character classes", "pango/break.go")])
pure("N03", "Markup parses to the text and attributes it denotes",
 "For every markup document the resulting text, attributes and accelerator are the ones the documented markup language denotes, and malformed documents are rejected.",
 "every markup document", ["pango/markup.go"], [("element and attribute parsing", "pango/markup.go")])
pure("N04", "Font name strings round trip",
 "Printing and parsing a font pattern name or a font description yields an equal pattern or description.",
 "every pattern and description", ["fontconfig/name.go", "pango/fonts.go"], [("escaping rules", "fontconfig/name.go")])
pure("N05", "Character and language sets obey set algebra",
 "Union, difference, intersection counts, subset tests and membership of character and language sets agree with sets of runes and tags.",
 "every pair of sets", ["fontconfig/charset.go", "fontconfig/lang.go"], [("paged bitmaps", "fontconfig/charset.go")])
pure("N06", "Matching returns the font with the best documented score",
 "For every query and database the matched font is one minimising the documented priority-ordered distances.",
 "every query and database", ["fontconfig/match.go"], [("priority comparison", "fontconfig/match.go")])
pure("N07", "Attribute list operations keep ranges correct",
 "Inserting, changing, filtering and iterating attribute lists yields, at every position, the attributes the documented overlap rules prescribe.",
 "every sequence of attribute insertions, as a function of the list", ["pango/attributes.go"], [("range splitting and merging", "pango/attributes.go Change")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
