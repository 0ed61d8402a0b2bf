// Command simrun builds the simulated library from /repo's working tree and
// runs one property's check: seeded search over schedules, workloads and fault
// sequences, minimisation and confirmation of what it finds, evidence.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

type Replay struct {
	Property string              `json:"property"`
	Sig      string              `json:"signature"`
	Message  string              `json:"message"`
	Tier     int                 `json:"tier"`
	Seed     uint64              `json:"seed"`
	Cold     bool                `json:"cold,omitempty"`
	Prelude  []uint64            `json:"prelude,omitempty"`
	Streams  map[string][]uint32 `json:"choices"`
	Trace    []string            `json:"trace,omitempty"`
	Xproc    *xproc              `json:"processes,omitempty"`
}

// xproc is a run made in several processes: alone under each enumeration order
// of the package initialisations, and after the runs start, start+stride...
type xproc struct {
	Base   uint64 `json:"base seed"`
	Index  int    `json:"run"`
	Start  int    `json:"start"`
	Stride int    `json:"stride"`
}

type line struct {
	Kind     string              `json:"k"`
	Index    int                 `json:"i"`
	Seed     uint64              `json:"seed"`
	Digest   uint64              `json:"d"`
	Sig      string              `json:"sig"`
	Msg      string              `json:"msg"`
	Streams  map[string][]uint32 `json:"streams"`
	Counters map[string]int64    `json:"counters"`
	States   []uint64            `json:"states"`
	Inter    []uint64            `json:"inter"`
	NonTriv  int                 `json:"nontriv"`
	Runs     int                 `json:"runs"`
	Trace    []string            `json:"trace"`
	NT       bool                `json:"nt"`
	Cold     bool                `json:"cold"`
}

type sample struct {
	Index   int      `json:"run"`
	Seed    uint64   `json:"seed"`
	History []string `json:"history"`
}

type propConf struct {
	race  bool
	fresh bool // one run per process
	xproc bool // the results must be the same in every process
	batch int  // runs per process
	quick int  // seconds of search
	long  int
	rule  string
	real  []string
	stub  []string
	what  string
}

var verifDir string

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: simrun check <id> quick|thorough | replay <file> | build <id>")
		os.Exit(2)
	}
	exe, _ := os.Executable()
	verifDir = os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	default:
		os.Exit(2)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type runner struct {
	id    string
	conf  propConf
	bin   string
	work  string
	tier  int
	seed  uint64
	stats map[string]int

	mu       sync.Mutex
	counters map[string]int64
	states   map[uint64]struct{}
	inter    map[uint64]struct{}
	nontriv  int
	runs     int
	procs    int
	digests  map[int]uint64
	starts   map[int][2]int // the batch of a run
	differ   []int          // runs with other results in other processes
	distinct map[uint64]struct{}
	samples  []sample
	found    map[string]*finding // by signature
	errors   []string
}

type finding struct {
	sig, msg string
	index    int
	seed     uint64
	streams  map[string][]uint32
	prelude  []uint64
	cold     bool
	fatal    bool // the process died
	count    int
}

func setup(id string) (*runner, func()) {
	conf, ok := confs[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	base := filepath.Join(verifDir, ".build")
	os.MkdirAll(base, 0o755)
	work, err := os.MkdirTemp(base, "run-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	clean := func() {
		if os.Getenv("VERIF_KEEP") == "" {
			os.RemoveAll(work)
		}
	}
	bin, stats, err := buildHarness(repoDir(), filepath.Join(verifDir, "rt"), work, conf.race)
	if err != nil {
		clean()
		fatal("building the simulated library: %v", err)
	}
	r := &runner{id: id, conf: conf, bin: bin, work: work, stats: stats, counters: map[string]int64{}, states: map[uint64]struct{}{}, inter: map[uint64]struct{}{}, digests: map[int]uint64{}, starts: map[int][2]int{}, distinct: map[uint64]struct{}{}, found: map[string]*finding{}}
	return r, clean
}

func (r *runner) cmd(args ...string) *exec.Cmd { return r.cmdOrder(0, args...) }

func (r *runner) cmdOrder(order int, args ...string) *exec.Cmd {
	cmd := exec.Command(r.bin, args...)
	cmd.Dir = r.work
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GOGC=") || strings.HasPrefix(e, "VERIF_INITORDER=") {
			continue
		}
		env = append(env, e)
	}
	lp := filepath.Join(r.work, "race")
	env = append(env, "VERIF_DATA="+filepath.Join(verifDir, "data"), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=4 log_path="+lp, "VERIF_RACELOG="+lp, "GOMAXPROCS=2", "GOTRACEBACK=single", "VERIF_INITORDER="+strconv.Itoa(order))
	cmd.Env = env
	return cmd
}

const runLimit = 150 * time.Second // real time of one run, far above the usual

// batch runs one worker process.
func (r *runner) batch(start, stride, count int, deadline time.Time, record bool) (next int, err error) {
	cmd := r.cmdOrder(r.order(start), "worker", r.id, strconv.FormatUint(r.seed, 10), strconv.Itoa(start), strconv.Itoa(stride), strconv.Itoa(count), strconv.Itoa(r.tier), strconv.FormatInt(deadline.UnixMilli(), 10))
	var stderr tail
	cmd.Stderr = &stderr
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return start, err
	}
	if err := cmd.Start(); err != nil {
		return start, err
	}
	watch := time.AfterFunc(runLimit, func() { cmd.Process.Kill() })
	timedOut := false
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	cur, curSeed, curCold := -1, uint64(0), false
	var seeds []uint64
	last := start - stride
	gotSummary := false
	for sc.Scan() {
		var l line
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			continue
		}
		switch l.Kind {
		case "start":
			cur, curSeed, curCold = l.Index, l.Seed, l.Cold
			watch.Reset(runLimit)
		case "done":
			last = l.Index
			seeds = append(seeds, curSeed)
			if record {
				r.mu.Lock()
				r.digests[l.Index] = l.Digest
				if r.conf.xproc {
					r.starts[l.Index] = [2]int{start, stride}
				}
				if l.NT {
					r.distinct[l.Digest] = struct{}{}
				}
				if len(l.Trace) > 0 && len(r.samples) < 32 {
					r.samples = append(r.samples, sample{l.Index, curSeed, l.Trace})
				}
				r.mu.Unlock()
			}
			cur = -1
		case "violation":
			last = l.Index
			r.add(&finding{sig: l.Sig, msg: l.Msg, index: l.Index, seed: l.Seed, streams: l.Streams, prelude: append([]uint64(nil), seeds...), cold: l.Cold})
			seeds = append(seeds, curSeed)
			cur = -1
		case "summary":
			gotSummary = true
			r.mu.Lock()
			if record {
				for k, v := range l.Counters {
					if strings.HasPrefix(k, "max ") {
						if v > r.counters[k] {
							r.counters[k] = v
						}
					} else {
						r.counters[k] += v
					}
				}
				for _, h := range l.States {
					r.states[h] = struct{}{}
				}
				for _, h := range l.Inter {
					r.inter[h] = struct{}{}
				}
				r.nontriv += l.NonTriv
				r.runs += l.Runs
				r.procs++
			}
			r.mu.Unlock()
		}
	}
	if !watch.Stop() {
		timedOut = true
	}
	werr := cmd.Wait()
	if gotSummary && werr == nil {
		return last + stride, nil
	}
	text := stderr.String()
	if strings.Contains(text, "HARNESS ERROR") {
		return last, fmt.Errorf("harness error: %s", text)
	}
	if cur < 0 {
		return last + stride, fmt.Errorf("worker ended without a summary (%v): %s", werr, text)
	}
	if timedOut {
		return cur + stride, fmt.Errorf("run %d (seed %d) of %s exceeded %v of real time", cur, curSeed, r.id, runLimit)
	}
	// the process died during run cur
	sig, ok := fatalSig(text)
	if !ok {
		return cur + stride, fmt.Errorf("worker died during run %d (seed %d): %v: %s", cur, curSeed, werr, text)
	}
	r.add(&finding{sig: sig, msg: text, index: cur, seed: curSeed, prelude: seeds, fatal: true, cold: curCold})
	return cur + stride, nil
}

// fatalSig classifies a death of the process that no recover can stop.
func fatalSig(text string) (string, bool) {
	for _, m := range []string{"stack overflow", "concurrent map", "out of memory", "all goroutines are asleep", "unlock of unlocked", "sync: "} {
		if i := strings.Index(text, m); i >= 0 {
			return "fatal: " + m, true
		}
	}
	return "", false
}

func (r *runner) add(f *finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if g := r.found[f.sig]; g != nil {
		g.count++
		if f.index < g.index && !f.fatal {
			f.count = g.count
			r.found[f.sig] = f
		}
		return
	}
	f.count = 1
	r.found[f.sig] = f
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:1<<18:1<<18], t.b[len(t.b)-1<<18:]...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	if len(t.b) > 12000 {
		return string(t.b[:8000]) + "\n...\n" + string(t.b[len(t.b)-4000:])
	}
	return string(t.b)
}

func check(id, tierName string) int {
	t0 := time.Now()
	r, clean := setup(id)
	defer clean()
	buildTime := time.Since(t0)
	r.seed = 1
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.seed = v
	}
	dur := r.conf.quick
	if tierName == "thorough" {
		r.tier = 1
		dur = r.conf.long
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil {
		dur = v
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil {
		nw = v
	}
	known := loadKnown(id)
	search := time.Now()
	deadline := search.Add(time.Duration(dur) * time.Second)
	fmt.Printf("simrun: %s %s: seed %d, %d workers, %ds of search (built in %.1fs, %d yield points, %d map iterations, %d storage calls)\n", id, tierName, r.seed, nw, dur, buildTime.Seconds(), r.stats["yield points"], r.stats["map iterations"], r.stats["storage and environment calls"])
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next := w
			for first := true; first || time.Now().Before(deadline); first = false {
				n, err := r.batch(next, nw, r.conf.batch, deadline, true)
				if err != nil {
					r.mu.Lock()
					r.errors = append(r.errors, err.Error())
					r.mu.Unlock()
					return
				}
				if n <= next {
					n = next + nw
				}
				next = n
				if r.stop(known) {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	searchTime := time.Since(search)

	// repeatability: some runs again, in other processes, one worker
	same, differ := 0, 0
	if len(r.found) == 0 && len(r.errors) == 0 {
		same, differ = r.recheck()
	}

	status := 0
	var reported []string
	for _, i := range r.differ {
		if !r.conf.xproc || len(reported) > 0 {
			break
		}
		x := &xproc{Base: r.seed, Index: i, Start: r.starts[i][0], Stride: r.starts[i][1]}
		sig, msg := r.processes(x)
		if sig == "" || known.match(sig) != "" {
			continue
		}
		path := r.save(&Replay{Property: id, Sig: sig, Message: msg, Tier: r.tier, Seed: r.seed, Xproc: x}, 99)
		fmt.Printf("violation: %s\n%s\n", sig, printable(msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		reported = append(reported, sig)
		status = 1
	}

	newOnes, knownOnes := []*finding{}, map[string]*finding{}
	for sig, f := range r.found {
		if k := known.match(sig); k != "" {
			knownOnes[k] = f
			continue
		}
		newOnes = append(newOnes, f)
	}
	sort.Slice(newOnes, func(i, j int) bool { return newOnes[i].index < newOnes[j].index })
	for _, k := range known.list {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
	}
	for i, f := range newOnes {
		if i >= 3 {
			fmt.Printf("(another violation: %s)\n", f.sig)
			continue
		}
		rep, ok, why := r.minimise(f)
		if !ok {
			r.errors = append(r.errors, fmt.Sprintf("violation %q of run %d does not reproduce: %s", f.sig, f.index, why))
			continue
		}
		path := r.save(rep, i)
		fmt.Printf("violation: %s\n%s\n", rep.Sig, printable(rep.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		reported = append(reported, rep.Sig)
		status = 1
	}
	if status == 0 {
		for _, f := range newOnes {
			if !strings.HasPrefix(f.sig, "race:") || f.fatal {
				continue
			}
			// a race is one whether or not the detector sees it again
			path := r.save(&Replay{Property: id, Sig: f.sig, Message: f.msg, Tier: r.tier, Seed: f.seed, Streams: f.streams, Cold: f.cold, Prelude: f.prelude}, 98)
			fmt.Printf("violation: %s\n%s\n", f.sig, printable(f.msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			reported = append(reported, f.sig)
			status = 1
			break
		}
	}
	r.evidence(tierName, buildTime, searchTime, nw, same, differ, reported, known, knownOnes)
	fmt.Printf("simrun: %s: %d runs in %.0fs (%.0f per hour), %d non-trivial, %d states, %d interleavings, recheck %d/%d identical\n", id, r.runs, searchTime.Seconds(), float64(r.runs)/searchTime.Hours(), r.nontriv, len(r.states), len(r.inter), same, same+differ)
	if status == 0 && len(r.errors) > 0 {
		for _, e := range r.errors {
			fmt.Fprintln(os.Stderr, "simrun: error:", e)
		}
		return 2
	}
	if status == 0 && r.runs == 0 {
		fmt.Fprintln(os.Stderr, "simrun: no run was made")
		return 2
	}
	return status
}

// stop tells if the search can end: something new was found.
func (r *runner) stop(known *knownList) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if os.Getenv("VERIF_ALL") != "" {
		return false
	}
	for sig := range r.found {
		if known.match(sig) == "" {
			return true
		}
	}
	return len(r.errors) > 0
}

func (r *runner) recheck() (same, differ int) {
	var idx []int
	for i := range r.digests {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	n := 24
	if r.conf.fresh {
		n = 8
	}
	if r.conf.xproc {
		n = 160
		if r.tier == 1 {
			n = 1600
		}
	}
	if len(idx) > n {
		idx = idx[:n]
	}
	want := map[int]uint64{}
	for k, v := range r.digests {
		want[k] = v
	}
	r.digests = map[int]uint64{}
	saved := r.found
	r.found = map[string]*finding{}
	// contiguous stretches, so that process histories differ from the search
	var wg sync.WaitGroup
	par := 4
	if r.conf.xproc {
		par = 8
	}
	per := (len(idx) + par - 1) / par
	for a := 0; a < len(idx); a += per {
		b := a + per
		if b > len(idx) {
			b = len(idx)
		}
		wg.Add(1)
		go func(l []int) {
			defer wg.Done()
			for _, i := range l {
				order := 0
				if r.conf.xproc {
					order = (r.order(r.starts[i][0]) + 1 + i/8%3) % 4
				}
				if d, ok := r.alone(i, order); ok {
					r.mu.Lock()
					r.digests[i] = d
					r.mu.Unlock()
				}
			}
		}(idx[a:b])
	}
	wg.Wait()
	for _, i := range idx {
		d, ok := r.digests[i]
		if ok && d == want[i] {
			same++
		} else {
			differ++
			r.differ = append(r.differ, i)
		}
	}
	r.found = saved
	r.digests = want
	return
}

// order is the enumeration order under which a worker process initialises its
// packages.
func (r *runner) order(start int) int {
	if r.conf.xproc {
		return start % 4
	}
	return 0
}

// alone performs one run in a process of its own and returns its digest.
func (r *runner) alone(i, order int) (uint64, bool) {
	d := r.series(i, 1, 1, order)
	v, ok := d[i]
	return v, ok
}

// series performs the runs start, start+stride... and returns their digests.
func (r *runner) series(start, stride, count, order int) map[int]uint64 {
	cmd := r.cmdOrder(order, "worker", r.id, strconv.FormatUint(r.seed, 10), strconv.Itoa(start), strconv.Itoa(stride), strconv.Itoa(count), strconv.Itoa(r.tier), strconv.FormatInt(time.Now().Add(time.Hour).UnixMilli(), 10))
	t := time.AfterFunc(runLimit, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer t.Stop()
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	digests := map[int]uint64{}
	for _, s := range strings.Split(string(out), "\n") {
		var l line
		if json.Unmarshal([]byte(s), &l) == nil && l.Kind == "done" {
			digests[l.Index] = l.Digest
		}
	}
	return digests
}

// processes repeats a run in several processes and tells how the results differ.
func (r *runner) processes(x *xproc) (sig, msg string) {
	r.seed = x.Base
	first, ok := r.alone(x.Index, 0)
	if !ok {
		return "", "no result"
	}
	msg = fmt.Sprintf("run %d in a process initialised under order 0: results %x", x.Index, first)
	for k := 1; k < 12; k++ {
		d, ok := r.alone(x.Index, k%4)
		if ok && d != first {
			return "results differ between processes", fmt.Sprintf("%s; in one initialised under order %d: results %x", msg, k%4, d)
		}
	}
	d, ok := r.series(x.Start, x.Stride, (x.Index-x.Start)/x.Stride+1, r.order(x.Start))[x.Index]
	if ok && d != first {
		return "results depend on what the process did before", fmt.Sprintf("%s; after runs %d, %d...: results %x", msg, x.Start, x.Start+x.Stride, d)
	}
	return "", msg
}

// judge runs one candidate in a fresh process.
func (r *runner) judge(rep *Replay) (line, error) {
	f, err := os.CreateTemp(r.work, "cand-*.json")
	if err != nil {
		return line{}, err
	}
	b, _ := json.Marshal(rep)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	cmd := r.cmd("judge", f.Name())
	var stderr tail
	cmd.Stderr = &stderr
	t := time.AfterFunc(runLimit, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, err := cmd.Output()
	t.Stop()
	if err != nil {
		if sig, ok := fatalSig(stderr.String()); ok {
			return line{Sig: sig, Msg: stderr.String(), Streams: rep.Streams}, nil
		}
		return line{}, fmt.Errorf("%v: %s", err, stderr.String())
	}
	for _, s := range strings.Split(string(out), "\n") {
		var l line
		if json.Unmarshal([]byte(s), &l) == nil && l.Kind == "result" {
			return l, nil
		}
	}
	return line{}, fmt.Errorf("no result")
}

// alike compares signatures. The race detector remembers a few accesses for each
// place of the memory, chosen at random: it may pair an access with another one,
// or miss the pair, in the same execution.
func alike(a, b string) bool {
	return a == b || strings.HasPrefix(a, "race:") && strings.HasPrefix(b, "race:")
}

// again judges a replay, several times if the race detector missed the race.
func (r *runner) again(rep *Replay, sig string) (l line, err error) {
	for try := 0; try < 6; try++ {
		l, err = r.judge(rep)
		if err == nil && alike(l.Sig, sig) || !strings.HasPrefix(sig, "race:") {
			break
		}
	}
	return l, err
}

func (r *runner) minimise(f *finding) (*Replay, bool, string) {
	rep := &Replay{Property: r.id, Sig: f.sig, Message: f.msg, Tier: r.tier, Seed: f.seed, Streams: f.streams, Cold: f.cold}
	if f.fatal {
		// the choices were lost with the process: run the seed itself
		rep.Prelude = append(append([]uint64(nil), f.prelude...), f.seed)
		one := *rep
		one.Prelude = []uint64{f.seed}
		if l, err := r.judge(&one); err == nil && alike(l.Sig, f.sig) {
			return &one, true, ""
		}
		l, err := r.judge(rep)
		if err == nil && alike(l.Sig, f.sig) {
			return rep, true, ""
		}
		return nil, false, fmt.Sprint(err)
	}
	l, err := r.judge(rep)
	if err != nil {
		return nil, false, err.Error()
	}
	for try := 0; try < 4 && l.Sig == ""; try++ {
		// something in the process may not be under the simulator's control
		if m, err := r.judge(rep); err == nil {
			l = m
		}
	}
	if l.Sig != "" && l.Sig != f.sig && !strings.HasPrefix(l.Sig, "race:") == !strings.HasPrefix(f.sig, "race:") {
		f.sig, rep.Sig, rep.Message = l.Sig, l.Sig, l.Msg
	}
	if !alike(l.Sig, f.sig) {
		// depends on what the process did before
		rep.Prelude = f.prelude
		l, err = r.judge(rep)
		if err != nil || !alike(l.Sig, f.sig) {
			return nil, false, fmt.Sprintf("obtained %q (%v)", l.Sig, err)
		}
		// shorten the prelude
		for n := len(rep.Prelude) / 2; n >= 1; n /= 2 {
			for len(rep.Prelude) >= n {
				c := *rep
				c.Prelude = rep.Prelude[n:]
				if l, err := r.judge(&c); err == nil && alike(l.Sig, f.sig) {
					rep.Prelude = c.Prelude
				} else {
					break
				}
			}
		}
	}
	limit := 60 * time.Second
	if r.tier == 1 {
		limit = 240 * time.Second
	}
	cur := shrink(r, rep, f.sig, time.Now().Add(limit))
	l, err = r.again(cur, f.sig)
	if err != nil || !alike(l.Sig, f.sig) {
		cur = rep
		l, err = r.again(cur, f.sig)
		if err != nil || !alike(l.Sig, f.sig) {
			return nil, false, "lost while shrinking"
		}
	}
	cur.Sig = l.Sig
	cur.Message = l.Msg
	cur.Trace = l.Trace
	return cur, true, ""
}

func size(m map[string][]uint32) int {
	n := 0
	for _, v := range m {
		n += len(v)
		for _, x := range v {
			if x != 0 {
				n++
			}
		}
	}
	return n
}

// shrink removes, zeroes and halves choices while the same violation persists.
func shrink(r *runner, rep *Replay, sig string, deadline time.Time) *Replay {
	best := *rep
	try := func(cands []map[string][]uint32) bool {
		const par = 8
		for a := 0; a < len(cands); a += par {
			if time.Now().After(deadline) {
				return false
			}
			b := a + par
			if b > len(cands) {
				b = len(cands)
			}
			res := make([]map[string][]uint32, b-a)
			var wg sync.WaitGroup
			for i := a; i < b; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					c := best
					c.Streams = cands[i]
					if l, err := r.judge(&c); err == nil && alike(l.Sig, sig) {
						res[i-a] = l.Streams
						if size(cands[i]) < size(l.Streams) {
							res[i-a] = cands[i]
						}
					}
				}(i)
			}
			wg.Wait()
			for i := range res {
				if res[i] != nil && size(res[i]) <= size(best.Streams) {
					best.Streams = res[i]
					return true
				}
			}
		}
		return false
	}
	with := func(name string, v []uint32) map[string][]uint32 {
		m := map[string][]uint32{}
		for k, x := range best.Streams {
			m[k] = x
		}
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		m[name] = v
		return m
	}
	var names []string
	for k := range best.Streams {
		names = append(names, k)
	}
	sort.Strings(names)
	// whole streams first
	for _, n := range names {
		if len(best.Streams[n]) > 0 {
			try([]map[string][]uint32{with(n, nil)})
		}
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := size(best.Streams)
		for _, n := range names {
			for chunk := len(best.Streams[n]) / 2; chunk >= 1; chunk /= 2 {
				progress := true
				for progress && time.Now().Before(deadline) {
					progress = false
					v := best.Streams[n]
					var cands []map[string][]uint32
					for i := 0; i < len(v); i += chunk {
						j := i + chunk
						if j > len(v) {
							j = len(v)
						}
						del := append(append([]uint32(nil), v[:i]...), v[j:]...)
						cands = append(cands, with(n, del))
						zero := append([]uint32(nil), v...)
						nz := false
						for k := i; k < j; k++ {
							nz = nz || zero[k] != 0
							zero[k] = 0
						}
						if nz {
							cands = append(cands, with(n, zero))
						}
					}
					if len(cands) > 160 {
						cands = cands[:160]
					}
					progress = try(cands)
				}
			}
		}
		if size(best.Streams) >= before {
			break
		}
	}
	return &best
}

func (r *runner) save(rep *Replay, i int) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", r.id, r.seed, i))
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	return path
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fatal("%v", err)
	}
	abs, _ := filepath.Abs(path)
	r, clean := setup(rep.Property)
	defer clean()
	if rep.Xproc != nil {
		r.tier = rep.Tier
		sig, msg := r.processes(rep.Xproc)
		fmt.Println(sig, msg)
		if sig != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
			return 1
		}
		return 0
	}
	for try := 0; ; try++ {
		cmd := r.cmd("replay", abs)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		if err == nil {
			if strings.HasPrefix(rep.Sig, "race:") && try < 5 { // see alike
				continue
			}
			return 0
		}
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 1 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
			return 1
		}
		fmt.Println(err)
		return 2
	}
}

// ---- known findings ----

type knownEntry struct{ sig, what string }
type knownList struct{ list []knownEntry }

// match returns the entry that lists a signature.
func (k *knownList) match(sig string) string {
	for _, e := range k.list {
		if e.sig == sig {
			return e.sig
		}
	}
	return ""
}

// loadKnown reads lines
//
//	known: property=<id> signature="<sig>" <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(id string) *knownList {
	k := &knownList{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " signature=\""
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := l[len(pre):]
		i := strings.Index(rest, "\" ")
		if i < 0 {
			continue
		}
		k.list = append(k.list, knownEntry{rest[:i], rest[i+2:]})
	}
	return k
}

// printable replaces what would make the output binary.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' {
			return r
		}
		if r < ' ' || r == 0x7F || r == utf8.RuneError {
			return '.'
		}
		return r
	}, s)
}
