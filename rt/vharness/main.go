package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"MODULE_PATH/zz_verif/vsim"
)

// Replay is the content of a replay file: the whole of what decides a run.
type Replay struct {
	Property string              `json:"property"`
	Sig      string              `json:"signature"`
	Message  string              `json:"message"`
	Tier     int                 `json:"tier"`
	Seed     uint64              `json:"seed"`
	Cold     bool                `json:"cold,omitempty"`    // in a process that did nothing before
	Prelude  []uint64            `json:"prelude,omitempty"` // seeds of runs made before, in the same process
	Streams  map[string][]uint32 `json:"choices"`
	Trace    []string            `json:"trace,omitempty"`
}

// line is what a worker prints.
type line struct {
	Kind     string              `json:"k"` // start, done, violation, summary, result
	Index    int                 `json:"i"`
	Seed     uint64              `json:"seed,omitempty"`
	Digest   uint64              `json:"d,omitempty"`
	Sig      string              `json:"sig,omitempty"`
	Msg      string              `json:"msg,omitempty"`
	Streams  map[string][]uint32 `json:"streams,omitempty"`
	Counters map[string]int64    `json:"counters,omitempty"`
	States   []uint64            `json:"states,omitempty"`
	Inter    []uint64            `json:"inter,omitempty"`
	NonTriv  int                 `json:"nontriv,omitempty"`
	Runs     int                 `json:"runs,omitempty"`
	Trace    []string            `json:"trace,omitempty"`
	NT       bool                `json:"nt,omitempty"`
	Cold     bool                `json:"cold,omitempty"`
}

var out = bufio.NewWriter(os.Stdout)

func emit(l line) {
	b, err := json.Marshal(l)
	if err != nil {
		panic(err)
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

func runSeed(base uint64, prop string, i int) uint64 {
	return mix(mix(base, hashStr(prop)), uint64(i)*2+1)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness worker|replay|judge|list ...")
		os.Exit(2)
	}
	dataDir = os.Getenv("VERIF_DATA")
	if !vsim.RaceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "worker":
		// worker prop base start stride count tier deadline(unix ms)
		a := os.Args[2:]
		p := props[a[0]]
		base, _ := strconv.ParseUint(a[1], 10, 64)
		start, _ := strconv.Atoi(a[2])
		stride, _ := strconv.Atoi(a[3])
		count, _ := strconv.Atoi(a[4])
		tier, _ := strconv.Atoi(a[5])
		dl, _ := strconv.ParseInt(a[6], 10, 64)
		worker(p, base, start, stride, count, tier, time.UnixMilli(dl))
	case "replay", "judge":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		replay(&r, os.Args[1] == "replay")
	default:
		os.Exit(2)
	}
}

func worker(p *Prop, base uint64, start, stride, count, tier int, deadline time.Time) {
	if !p.isCold(start) {
		warmup(p)
	}
	if path := os.Getenv("VERIF_PROF"); path != "" { // for development
		if f, err := os.Create(path); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	total := map[string]int64{}
	states := map[uint64]struct{}{}
	inter := map[uint64]struct{}{}
	nontriv, runs := 0, 0
	n := 0
	for i := start; n < count; i, n = i+stride, n+1 {
		if n > 0 && (time.Now().After(deadline) || p.isCold(i) || p.isCold(start)) {
			break
		}
		seed := runSeed(base, p.ID, i)
		emit(line{Kind: "start", Index: i, Seed: seed, Cold: p.isCold(i)})
		c := newCtx(p.ID, seed, tier)
		c.verbose = n == 0 && i < 8 || os.Getenv("VERIF_TRACE") != "" // written out as a sample
		steps := vsim.Steps()
		v := runOneRace(p, c)
		total["simulated steps"] += vsim.Steps() - steps
		runs++
		if c.nontriv {
			nontriv++
		}
		if c.faultN > 0 {
			total["runs with faults injected"]++
		}
		for k, n := range c.Counters {
			if strings.HasPrefix(k, "max ") {
				if n > total[k] {
					total[k] = n
				}
			} else {
				total[k] += n
			}
		}
		for h := range c.States {
			states[h] = struct{}{}
		}
		for h := range c.Inter {
			inter[h] = struct{}{}
		}
		if v != nil {
			emit(line{Kind: "violation", Index: i, Seed: seed, Sig: v.Sig, Msg: v.Msg, Streams: c.record(), Cold: p.isCold(i)})
			if p.Concurrent || strings.HasPrefix(v.Sig, "race:") || strings.HasPrefix(v.Sig, "fatal") {
				break // later reports of this process would be suppressed
			}
			continue
		}
		tr := c.log
		if os.Getenv("VERIF_TRACE") == "" {
			if len(tr) > 40 {
				tr = tr[:40]
			}
			for k := range tr {
				tr[k] = short(tr[k])
			}
		}
		emit(line{Kind: "done", Index: i, Digest: c.digest(), NT: c.nontriv, Trace: tr})
	}
	emit(line{Kind: "summary", Counters: total, States: keys(states), Inter: keys(inter), NonTriv: nontriv, Runs: runs})
}

func keys(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > 50000 {
		out = out[:50000]
	}
	return out
}

func (c *Ctx) record() map[string][]uint32 {
	m := map[string][]uint32{}
	for k, s := range c.streams {
		rec := s.rec
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		m[k] = rec
	}
	return m
}

// digest identifies the execution: every choice made and every note taken.
func (c *Ctx) digest() uint64 {
	h := c.hash
	var names []string
	for k := range c.streams {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		h = mix(h, hashStr(k))
		for _, v := range c.streams[k].rec {
			h = mix(h, uint64(v))
		}
	}
	return h
}

func replay(r *Replay, verbose bool) {
	p := props[r.Property]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", r.Property)
		os.Exit(2)
	}
	if !r.Cold {
		warmup(p)
	}
	for _, seed := range r.Prelude {
		c := newCtx(p.ID, seed, r.Tier)
		runOneRace(p, c)
	}
	c := newCtx(p.ID, r.Seed, r.Tier)
	c.verbose = true
	c.replay = r.Streams
	if c.replay == nil {
		c.replay = map[string][]uint32{}
	}
	v := runOneRace(p, c)
	l := line{Kind: "result", Seed: r.Seed, Streams: c.record()}
	if v != nil {
		l.Sig, l.Msg = v.Sig, v.Msg
	}
	l.Trace = c.log
	if !verbose {
		emit(l)
		return
	}
	for _, s := range c.log {
		fmt.Println(s)
	}
	if v == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("VIOLATION %s\n%s\n", v.Sig, v.Msg)
	os.Exit(1)
}

// runOneRace adds the reports of the race detector to the outcome of a run.
func runOneRace(p *Prop, c *Ctx) *Violation {
	before := vsim.RaceErrors()
	v := runOne(p, c)
	if vsim.RaceErrors() > before {
		if v == nil || !strings.HasPrefix(v.Sig, "panic") {
			sig, msg := raceReport()
			return &Violation{Sig: sig, Msg: msg}
		}
	}
	return v
}

var raceFn = regexp.MustCompile(`(?m)^  (\S+)\(`)

// raceReport reads the last report of the race detector (GORACE log_path).
func raceReport() (sig, msg string) {
	lp := os.Getenv("VERIF_RACELOG")
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", lp, os.Getpid()))
	if err != nil {
		return "race: ?", "data race (report not found: " + err.Error() + ")"
	}
	reports := strings.Split(string(b), "==================\n")
	msg = ""
	for _, r := range reports {
		if strings.Contains(r, "WARNING: DATA RACE") {
			msg = r
			break
		}
	}
	const mod = "MODULE_PATH/"
	var sites []string
	for _, blk := range strings.Split(msg, "\n\n") {
		if !strings.Contains(blk, " by ") && !strings.Contains(blk, "revious ") {
			continue
		}
		if strings.HasPrefix(strings.TrimSpace(blk), "Goroutine") {
			continue
		}
		for _, m := range raceFn.FindAllStringSubmatch(blk, -1) {
			if strings.HasPrefix(m[1], mod) && !strings.Contains(m[1], "zz_verif") {
				f := strings.TrimPrefix(m[1], mod)
				if i := strings.Index(f, ".func"); i > 0 {
					f = f[:i]
				}
				sites = append(sites, f)
				break
			}
		}
		if len(sites) == 2 {
			break
		}
	}
	sort.Strings(sites)
	_ = filepath.Base
	return "race: " + strings.Join(sites, " / "), "data race under the simulated schedule\n" + msg
}
