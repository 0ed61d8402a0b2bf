package main

import (
	"bytes"
	"fmt"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
	"MODULE_PATH/zz_verif/vsim"
)

// flakyWriter is a stream whose given write fails, once or for ever.
type flakyWriter struct {
	buf     []byte
	failAt  int // index of the failing write
	forever bool
	part    int // bytes accepted by the failing write
	n       int
	fired   bool
}

func (w *flakyWriter) Write(p []byte) (int, error) {
	vsim.Y()
	k := w.n
	w.n++
	if k == w.failAt || (w.forever && k > w.failAt) {
		w.fired = true
		n := mini(w.part, len(p))
		w.buf = append(w.buf, p[:n]...)
		return n, errIO
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func runC03(c *Ctx) {
	if c.S("prog").Chance(2, 3) {
		runC03File(c)
	} else {
		runC03Stream(c)
	}
}

// loads tells what a cache loads as; "" is a refusal.
func (c *Ctx) loads(data []byte) ([]string, error) {
	var got fc.Fontset
	var err error
	c.Guard("LoadFontset", opBudget, func() { got, err = fc.LoadFontset(bytes.NewReader(data)) })
	if err != nil {
		return nil, err
	}
	return dumpSet(got), nil
}

func runC03Stream(c *Ctx) {
	s := c.S("prog")
	fl := c.S("fault")
	fs := genSet(c, s)
	if s.Chance(1, 40) { // sizes that do not fit the format
		p := fc.NewPattern()
		n := []int{65535, 65536, 70000, 131072}[s.Intn(4)]
		for i := 0; i < n; i++ {
			p.AddInt(fc.INDEX, int32(i))
		}
		fs = append(fs, p)
	}
	if s.Chance(1, 300) { // more patterns than a cache may hold
		huge := make(fc.Fontset, 1_000_001)
		w := &memWriter{fail: -1}
		var err error
		c.Guard("Serialize", 4*opBudget, func() { err = huge.Serialize(w) })
		if err == nil {
			var got fc.Fontset
			c.Guard("LoadFontset", 4*opBudget, func() { got, err = fc.LoadFontset(bytes.NewReader(w.buf)) })
			if err != nil || len(got) != len(huge) {
				c.Fail("acknowledged save unreadable", "a save of %d patterns reported as successful loads %d: %v", len(huge), len(got), err)
			}
		}
	}
	setOrder(c.S("order"))
	want := dumpSet(fs)
	dry := &flakyWriter{failAt: -1}
	var err error
	c.Guard("Serialize", opBudget, func() { err = fs.Serialize(dry) })
	if err == nil {
		if got, e := c.loads(dry.buf); e != nil {
			c.Fail("acknowledged save unreadable", "a save reported as successful does not load: %v", e)
		} else if d := diffStrings(want, got); d != "" {
			c.Fail("acknowledged save wrong", "a save reported as successful loads as another set: %s", d)
		}
	} else {
		c.Count("saves refused on a healthy stream", 1)
	}
	c.State(mix(hashStrings(want), 3))
	for k := s.Range(1, 8); k > 0; k-- {
		w := &flakyWriter{failAt: fl.Intn(dry.n + 1), forever: fl.Chance(1, 2), part: fl.Intn(3) * fl.Intn(5000)}
		var e error
		c.Guard("Serialize", opBudget, func() { e = fs.Serialize(w) })
		if w.fired {
			c.NonTrivial()
			c.faultN++
			c.Count("fault:stream write error", 1)
			if w.part > 0 {
				c.Count("fault:stream write accepting a part", 1)
			}
			if e == nil {
				c.Fail("failed write acknowledged", "write %d of the stream failed (forever: %v, %d bytes accepted) but Serialize returned no error", w.failAt, w.forever, w.part)
			}
		} else if (e == nil) != (err == nil) {
			c.Fail("save refused", "Serialize on a healthy stream: %v then %v", err, e)
		}
		if got, e2 := c.loads(w.buf); e2 == nil {
			if d := diffStrings(want, got); d != "" {
				c.Fail("failed save loads as something else", "the bytes left by a failed save load as another set: %s", d)
			}
		}
		c.Note("%v %v", w.fired, e == nil)
	}
}

var cacheTrees = []string{"/usr/share/fonts", "/usr/share/texmf/fonts/opentype/public"}

// runC03File saves to a file of the simulated machine, with failures and crashes.
func runC03File(c *Ctx) {
	s := c.S("prog")
	fl := c.S("fault")
	ord := c.S("order")
	w := c.World()
	for _, d := range cacheTrees {
		w.MkdirAll(d)
	}
	w.MkdirAll("/cache")
	const file = "/cache/fonts.cache"
	var passed [][]string // sets passed to a save so far
	installed := map[string]bool{}
	if s.Chance(1, 2) { // an older cache, complete and durable
		old := genSet(c, s)
		mw := &memWriter{fail: -1}
		if err := old.Serialize(mw); err == nil {
			w.PutFile(file, mw.buf)
			passed = append(passed, dumpSet(old))
		}
	}
	for round := s.Range(1, 4); round > 0; round-- {
		// fonts come and go
		for k := s.Range(0, 3); k > 0 || len(installed) == 0; k-- {
			f := smallFonts[s.Intn(len(smallFonts))]
			p := cacheTrees[s.Intn(2)] + f.Path
			if installed[p] && len(installed) > 1 {
				w.Delete(p)
				delete(installed, p)
			} else {
				w.PutFile(p, f.Data())
				installed[p] = true
			}
		}
		setOrder(ord)
		// what the scan finds, and how many operations a save takes
		w.Inject = nil
		ref := w.Ops()
		var plain fc.Fontset
		var perr error
		c.Guard("ScanFontDirectories", opBudget, func() {
			plain, perr = fc.Standard.ScanFontDirectories(cacheTrees...)
		})
		if perr != nil {
			c.Fail("scan refused", "ScanFontDirectories on a healthy machine: %v", perr)
		}
		scanOps := w.Ops() - ref
		want := dumpSet(plain)

		mode := s.Weighted(2, 5, 4)
		var got fc.Fontset
		var err error
		crashed := false
		j := &inject{s: fl, rate: 2, max: 2, only: writeSide}
		base := w.Ops()
		switch mode {
		case 0: // healthy
			w.Inject = nil
		case 1: // failing storage, on the writing side or anywhere
			if fl.Chance(1, 3) {
				// while scanning, a file that cannot be opened is left out or
				// reported: the set saved is a part of the expected one
				j.only, j.rate = func(op vos.Op) bool {
					return op.Kind == "open" || op.Kind == "readdir" || op.Kind == "lstat"
				}, 1+scanOps/4
			} else {
				j.only = func(op vos.Op) bool {
					return writeSide(op) || (op.Kind == "close" && op.Path == file) || op.Path == file || (op.Index-base >= scanOps)
				}
			}
			j.arm(w)
		case 2: // the process stops at some operation
			at := scanOps + fl.Intn(24)
			if fl.Chance(1, 4) {
				at = fl.Intn(scanOps + 1)
			}
			w.Inject = func(op vos.Op) vos.Fault {
				f := vos.NoFault
				if op.Index-base >= at { // nothing runs after a crash, deferred calls included
					f.Crash = true
					if !crashed {
						f.Name = "crash at " + op.Kind
					}
					crashed = true
				}
				return f
			}
		}
		c.Op("ScanAndCache")
		vsim.Budget(opBudget)
		r, stack := Try(func() { got, err = fc.ScanAndCache(file) })
		vsim.Budget(0)
		w.Inject = nil
		if r != nil {
			if _, ok := r.(vsim.Crash); !ok {
				c.rethrow(r, stack)
			}
		}
		nf := c.Faults(w)
		if nf > 0 {
			c.NonTrivial()
		}
		passed = append(passed, want)
		if r == nil && err == nil {
			// acknowledged: the bytes must be there
			passed = append(passed, dumpSet(got))
			data, ok := w.Get(file)
			if !ok {
				c.Fail("acknowledged save unreadable", "ScanAndCache returned no error but wrote no file")
			}
			l, e := c.loads(data)
			if e != nil {
				c.Fail("acknowledged save unreadable", "ScanAndCache returned no error but the file (%d bytes) does not load: %v", len(data), e)
			}
			if d := diffStrings(dumpSet(got), l); d != "" {
				c.Fail("acknowledged save wrong", "ScanAndCache returned no error but the file loads as another set: %s", d)
			}
			for _, op := range j.hits {
				if op.Kind == "write" || op.Kind == "create" || (op.Path == file && (op.Kind == "close" || op.Kind == "sync" || op.Kind == "open")) || op.Kind == "rename" {
					c.Fail("failed write acknowledged", "%s of %s failed but ScanAndCache returned no error", op.Kind, op.Path)
				}
			}
			if mode == 0 {
				if d := diffStrings(want, dumpSet(got)); d != "" {
					c.Fail("saved set differs from the scan", "%s", d)
				}
			}
		}
		if r == nil && err != nil && mode == 0 {
			c.Fail("save refused", "ScanAndCache on a healthy machine: %v", err)
		}
		if crashed || (r == nil && fl.Chance(1, 3)) {
			// power loss: only what is durable survives
			w.Crash(func(n int) int { return fl.Intn(n) })
			c.Count("fault:power loss", 1)
			crashed = true
		}
		// whatever happened, the file is refused or complete
		var l fc.Fontset
		var e error
		c.Guard("LoadFontsetFile", opBudget, func() { l, e = fc.LoadFontsetFile(file) })
		if e == nil {
			ld := dumpSet(l)
			ok := false
			for _, p := range passed {
				if diffStrings(p, ld) == "" {
					ok = true
				}
			}
			// a scan that lost a file to a failure is a set of its own
			if !ok && mode == 1 && nf > 0 {
				ok = subset(ld, want)
			}
			if !ok {
				c.Fail("partial cache accepted", "after a failure, the cache file loads as a set that was never saved (%d patterns, crash %v)", len(l), crashed)
			}
			c.Count("caches loading after the round", 1)
		} else {
			c.Count("caches refused after the round", 1)
		}
		c.State(mix(mix(hashStrings(want), uint64(mode)), hashStr(fmt.Sprint(err == nil, e == nil, crashed))))
		c.Note("round mode %d: %v, load %v", mode, err == nil, e == nil)
	}
	vos.Use(nil)
}

// subset tells if a is a subsequence of b.
func subset(a, b []string) bool {
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

func init() { register(&Prop{ID: "C03", Run: runC03}) }
