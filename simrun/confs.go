package main

var realLib = []string{
	"packages fontconfig, fribidi, pango, pango/fcfonts of /repo's working tree, instrumented source to source (scheduling points, simulated locks, storage and enumeration order)",
	"github.com/benoitkugler/textlayout (font parsers, HarfBuzz port) and the Go standard library, unmodified",
}

var stubFS = []string{"file system, environment, executable path: in-memory machine with injected faults (package vos)", "goroutine scheduler and lock waiting: cooperative scheduler (packages vsim, vsync)", "map enumeration order: chosen by the simulator"}

var confs = map[string]propConf{
	"C01": {batch: 400, quick: 40, long: 600, rule: "A run builds a font set (scanned and generated patterns), saves it, and loads it back through streams that split the bytes; it is non-trivial when the stream split the bytes in pieces."},
	"C02": {batch: 400, quick: 40, long: 600, rule: "A run saves a font set, damages the bytes or fails the reading, and loads; it is non-trivial when the bytes differ from what was saved or a read failed."},
	"C03": {batch: 200, quick: 40, long: 600, rule: "A run saves font sets to a failing stream or, through ScanAndCache, to a failing or crashing machine, and loads what is left; it is non-trivial when a fault fired."},
	"C04": {batch: 100, quick: 45, long: 600, rule: "A run scans directories of generated trees of good, damaged, unreadable and foreign files and links, with storage failures; it is non-trivial when the tree holds several files or a fault fired."},
	"C05": {batch: 100, quick: 40, long: 600, rule: "A run loads generated selection rules, in several documents, and scans a generated tree by directory, by file and by resource, on a healthy or failing machine; it is non-trivial when a rule rejects something or a fault fired."},
	"C06": {batch: 100, quick: 40, long: 600, rule: "A run loads generated documents into configurations and their copies through streams that split, cut or fail, from damaged documents and from directories on failing machines, and compares what the configurations answer; it is non-trivial when a document was damaged or a fault fired."},
	"C07": {race: true, batch: 60, quick: 50, long: 600, rule: "A run has 2 to 4 tasks, each with a font map, context and layouts of its own on one database and configuration, lay out, measure, itemize, parse markup and load fonts under a schedule chosen by the simulator, some runs in processes that never used the library; what they report is compared with what each reports alone. It is non-trivial when a task was interrupted."},
	"C08": {race: true, batch: 60, quick: 50, long: 600, rule: "A run has 2 to 4 tasks make queries of every kind on one configuration and one database under a schedule chosen by the simulator, some runs in processes that never used the library; the answers are compared with those of queries made alone on fresh copies. It is non-trivial when a task was interrupted."},
	"C09": {batch: 100, quick: 45, long: 600, rule: "A run makes queries of every kind on objects it keeps (configuration, database, patterns, files, or text, attributes, tabs, matrix, descriptions), checks after each that they are as they were, changes what was handed out, and asks again; it is non-trivial when results were changed or several layout queries made."},
	"C10": {batch: 100, quick: 45, long: 600, rule: "A run drives layouts through random changes of every property, of text, attributes and tabs, interleaved with queries, and compares all they report with new layouts given the final settings; it is non-trivial when at least one property changed."},
	"C11": {batch: 100, quick: 45, long: 600, rule: "A run changes the settings of contexts and the configurations and databases of font maps shared by several contexts and layouts, between queries, and compares what layouts, contexts and font maps answer with new ones made under the new settings; it is non-trivial when a context or a font map changed."},
	"C12": {batch: 100, quick: 45, long: 600, rule: "A run makes requests for font sets, metrics and layouts on a healthy machine, then with font files missing, unreadable, corrupt, or failing at any operation, on a font map that may have served before, then on a new font map once the machine is healed; it is non-trivial when a font file was damaged or a fault fired."},
	"C13": {batch: 100, quick: 45, long: 600, rule: "A run drives a layout through random changes and queries, with fonts that may fail to load, and checks in the course of it that lines, runs, clusters, attributes and iterations account for the text; it is non-trivial when the text is not empty."},
	"C14": {batch: 100, quick: 45, long: 600, rule: "A run gives extreme texts, settings, attributes, documents, patterns, trees of files, saved data and storage failures to the operations of the library, each of which must return within a number of steps polynomial in the size of what it was given; iterations and walks of the cursor must come to an end. Every run is non-trivial."},
	"C15": {xproc: true, batch: 100, quick: 45, long: 600, rule: "A run performs the same queries, scans, loads, saves or layouts from the same inputs under three enumeration orders of maps and directories chosen by the simulator, and compares the results; some runs are made again in other processes, in which the packages were initialised under other orders. It is non-trivial when a map or directory of at least two entries was enumerated."},
	"C16": {fresh: true, race: true, quick: 40, long: 400, rule: "A run is a process of its own with a generated environment, in which concurrent tasks ask for what depends on default and preferred languages, the environment changing between waves of requests; every run compares answers with a model of the documented precedence and is non-trivial."},
	"C17": {batch: 100, quick: 45, long: 600, rule: "A run makes a history of requests for fonts, font sets, metrics, layouts and items on one font map, near-identical ones among them, and compares the answers, and those of fonts kept, with the ones of new font maps; it is non-trivial when an answer given after other requests was compared."},
	"C18": {batch: 100, quick: 45, long: 600, rule: "A run drives a layout through random changes and queries, with fonts that may fail to load, and checks in the course of it that lines are broken where allowed and keep within the width, height and ellipsization set; it is non-trivial when the text is not empty."},
}

func init() {
	for k, c := range confs {
		c.real, c.stub = realLib, stubFS
		if c.batch == 0 {
			c.batch = 100
		}
		if c.fresh {
			c.batch = 1
		}
		confs[k] = c
	}
}
