// Package vsim is the simulator core: a cooperative scheduler that decides every
// interleaving, a logical step clock, step budgets, and the iteration order of
// maps. It is compiled without race instrumentation and hands control between
// goroutines inside RaceDisable/RaceEnable, so that the race detector sees only
// the synchronisation made by the code under test.
package vsim

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
)

// Hang is the panic value used when a step budget is exhausted.
type Hang struct{ Steps int64 }

func (h Hang) Error() string { return fmt.Sprintf("step budget exhausted (%d steps)", h.Steps) }

// Deadlock is the panic value used when a lock is waited for that nobody will
// release.
type Deadlock struct{}

func (Deadlock) Error() string { return "waiting for a lock nobody releases" }

// abort is the panic value used to unwind the tasks of a failed run.
type abort struct{}

// Crash is the panic value used by the simulated storage to stop a process at a
// crash point.
type Crash struct{}

func (Crash) Error() string { return "simulated crash" }

// Recovered filters the result of recover in the library: the panics by which
// the simulator stops a task go through.
func Recovered(r interface{}) interface{} {
	switch r.(type) {
	case Hang, Deadlock, abort, Crash:
		panic(r)
	}
	return r
}

var (
	cnt  int64                 // logical clock: scheduling points passed
	next int64 = math.MaxInt64 // next count at which slow must run

	limit      int64 = math.MaxInt64 // step budget
	limitBase  int64
	limitRaise bool  // the budget was exceeded and the panic raised
	nextSwitch int64 = math.MaxInt64

	cur        *task // task running now (concurrent mode), nil in sequential mode
	concurrent bool
	nblocked   int
	toKernel   chan request

	// the initialisation of packages happens under the order given to the process
	orderMode int = initOrder() // 0 sorted, 1 reversed, 2 shuffled per size, 3 shuffled per call
	orderSalt uint64
	orderCnt  uint64
	orderUsed uint64
)

// Y is a scheduling point.
//
//go:noinline
//go:norace
func Y() {
	cnt++
	if cnt >= next {
		slow()
	}
}

type reset struct {
	pkg, order int
	fn         func()
}

var (
	resets       []reset
	resetPkgs    = map[string]int{}
	resetsSorted bool
)

// OnReset registers the initialisation of a variable that holds some state of the
// process; order is the place it has among those of its package. Packages
// register in the order of their initialisation.
func OnReset(pkg string, order int, fn func()) {
	n, ok := resetPkgs[pkg]
	if !ok {
		n = len(resetPkgs)
		resetPkgs[pkg] = n
	}
	resets = append(resets, reset{n, order, fn})
}

// Reset gives the process the state it had when it started.
func Reset() {
	if !resetsSorted {
		resetsSorted = true
		sort.SliceStable(resets, func(i, j int) bool {
			a, b := resets[i], resets[j]
			return a.pkg < b.pkg || a.pkg == b.pkg && a.order < b.order
		})
	}
	for _, r := range resets {
		r.fn()
	}
}

// Steps returns the logical clock.
//
//go:norace
func Steps() int64 { return cnt }

//go:norace
func setNext() {
	next = limit
	if nextSwitch < next {
		next = nextSwitch
	}
}

//go:noinline
//go:norace
func slow() {
	if limitRaise {
		return
	}
	if cnt >= limit {
		limitRaise = true
		limit = math.MaxInt64
		nextSwitch = math.MaxInt64
		setNext()
		panic(Hang{cnt - limitBase})
	}
	if concurrent && cnt >= nextSwitch {
		call(request{kind: reqYield})
		return
	}
	setNext()
}

// Budget bounds the number of steps from now on; the run panics with Hang when
// it is exhausted. Budget(0) removes the bound.
//
//go:norace
func Budget(n int64) {
	limitRaise = false
	limitBase = cnt
	if n <= 0 {
		limit = math.MaxInt64
	} else {
		limit = cnt + n
	}
	setNext()
}

// --------------------------------------------------------------------------
// scheduler

type taskState uint8

const (
	runnable taskState = iota
	blocked
	done
)

type task struct {
	id      int
	ch      chan struct{}
	state   taskState
	on      interface{}
	aborted bool
	result  TaskResult
	isMain  bool
}

// TaskResult tells how a task ended.
type TaskResult struct {
	Panic interface{}
	Stack string
	Abort bool
}

type reqKind uint8

const (
	reqYield reqKind = iota
	reqBlock
	reqWake
	reqDone
	reqSpawn
	reqCall
)

type request struct {
	kind reqKind
	t    *task
	on   interface{}
	fn   func()
}

// Config of a concurrent run.
type Config struct {
	Budget int64
	// Gap returns the number of steps until the next preemption, Pick chooses
	// among n runnable tasks. Both are called on the kernel goroutine only.
	Gap  func() int64
	Pick func(n int) int
	// First picks the task to start with.
}

// Result of a concurrent run.
type Result struct {
	Tasks    []TaskResult
	Steps    int64
	Switches int
	Hash     uint64 // hash of the interleaving
	Deadlock bool
	Blocked  []string
}

// call sends a request to the kernel and waits to be resumed.
//
//go:norace
func call(r request) {
	t := cur
	r.t = t
	raceDisable()
	toKernel <- r
	if r.kind != reqDone {
		<-t.ch
	}
	raceEnable()
	if r.kind != reqDone && t.aborted {
		t.aborted = false
		panic(abort{})
	}
}

// InTask tells if the caller runs as a task of a concurrent simulation.
//
//go:norace
func InTask() bool { return concurrent && cur != nil }

// Kernel runs fn on the kernel goroutine (concurrent mode) or directly.
//
//go:norace
func Kernel(fn func()) {
	if !concurrent || cur == nil {
		fn()
		return
	}
	call(request{kind: reqCall, fn: fn})
}

// Block parks the current task until Wake(on).
//
//go:norace
func Block(on interface{}) { call(request{kind: reqBlock, on: on}) }

// Wake makes the tasks blocked on `on` runnable.
//
//go:norace
func Wake(on interface{}) {
	if !concurrent || nblocked == 0 || cur == nil {
		return
	}
	call(request{kind: reqWake, on: on})
}

// Wrap registers the function of a go statement as a task.
func Wrap[F any](f F) F {
	if !InTask() {
		return f
	}
	t := &task{ch: make(chan struct{})}
	call(request{kind: reqSpawn, fn: func() { kern.add(t) }})
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) (out []reflect.Value) {
		kern.body(t, func() { out = v.Call(args) })
		return out
	})
	return w.Interface().(F)
}

type kernel struct {
	tasks []*task
	wg    sync.WaitGroup
}

func (k *kernel) add(t *task) {
	t.id = len(k.tasks)
	k.tasks = append(k.tasks, t)
	k.wg.Add(1)
}

var kern *kernel

// body runs fn as task t: waits for its first turn, and reports its end.
func (k *kernel) body(t *task, fn func()) {
	defer k.wg.Done()
	raceDisable()
	<-t.ch
	raceEnable()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				t.result.Abort = true
			} else {
				t.result.Panic = r
				t.result.Stack = string(debug.Stack())
			}
		}
		call(request{kind: reqDone})
	}()
	if t.aborted {
		t.aborted = false
		panic(abort{})
	}
	fn()
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

// Run executes fns as concurrent tasks under the scheduler.
func Run(cfg Config, fns ...func()) Result {
	k := &kernel{}
	kern = k
	toKernel = make(chan request)
	for _, f := range fns {
		t := &task{ch: make(chan struct{})}
		k.add(t)
		f := f
		go k.body(t, f)
	}
	start := cnt
	concurrent = true
	nblocked = 0
	Budget(cfg.Budget)
	res := make(chan Result, 1)
	go func() { res <- k.loop(cfg, start) }()
	r := <-res
	k.wg.Wait()
	concurrent = false
	cur = nil
	nextSwitch = math.MaxInt64
	Budget(0)
	for _, t := range k.tasks {
		r.Tasks = append(r.Tasks, t.result)
	}
	return r
}

func (k *kernel) loop(cfg Config, start int64) (r Result) {
	raceDisable()
	defer raceEnable()
	r.Hash = 0x1234567
	var last *task
	failed := false
	for {
		var ready []*task
		alive := 0
		for _, t := range k.tasks {
			switch t.state {
			case runnable:
				ready = append(ready, t)
				alive++
			case blocked:
				alive++
			}
		}
		if alive == 0 {
			break
		}
		if len(ready) == 0 {
			// deadlock: unwind the blocked tasks
			if !failed {
				r.Deadlock = true
				for _, t := range k.tasks {
					if t.state == blocked {
						r.Blocked = append(r.Blocked, fmt.Sprintf("task %d on %T", t.id, t.on))
					}
				}
			}
			failed = true
			for _, t := range k.tasks {
				if t.state == blocked {
					t.state = runnable
					t.aborted = true
					nblocked--
				}
			}
			continue
		}
		pick := 0
		if len(ready) > 1 && !failed {
			pick = cfg.Pick(len(ready))
		}
		t := ready[pick]
		if t != last {
			r.Switches++
			r.Hash = mix(mix(r.Hash, uint64(t.id)), uint64(cnt-start))
			last = t
		}
		if failed {
			nextSwitch = math.MaxInt64
		} else {
			nextSwitch = cnt + cfg.Gap()
		}
		setNext()
		// run t until it comes back
		for resume := true; resume; {
			cur = t
			t.ch <- struct{}{}
			q := <-toKernel
			resume = false
			switch q.kind {
			case reqYield:
			case reqBlock:
				t.state = blocked
				t.on = q.on
				nblocked++
			case reqWake:
				for _, o := range k.tasks {
					if o.state == blocked && o.on == q.on {
						o.state = runnable
						o.on = nil
						nblocked--
					}
				}
				resume = true
			case reqCall, reqSpawn:
				q.fn()
				resume = true
			case reqDone:
				t.state = done
				if t.result.Panic != nil {
					// a panicking task ends the run: unwind the others
					failed = true
					for _, o := range k.tasks {
						if o.state != done {
							o.aborted = true
							if o.state == blocked {
								o.state = runnable
								nblocked--
							}
						}
					}
				}
			}
		}
	}
	r.Steps = cnt - start
	return r
}

// --------------------------------------------------------------------------
// map iteration order

func initOrder() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_INITORDER"))
	return n & 3
}

// SetOrder chooses the iteration order of maps: 0 sorted, 1 reversed,
// 2 shuffled (a function of salt and size), 3 shuffled anew at each iteration.
func SetOrder(mode int, salt uint64) {
	orderMode, orderSalt, orderCnt, orderUsed = mode, salt, 0, 0
}

// OrderUsed counts the iterations over maps of at least two entries.
func OrderUsed() uint64 { return orderUsed }

// Entry is one entry of a map being iterated.
type Entry[K comparable, V any] struct {
	k K
	m map[K]V
}

func (e Entry[K, V]) Key() K         { return e.k }
func (e Entry[K, V]) Get() (V, bool) { v, ok := e.m[e.k]; return v, ok }

// Entries lists the keys of m in the simulated iteration order.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	if len(m) == 0 {
		return nil
	}
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	if len(out) == 1 {
		return out
	}
	sort.Slice(out, func(i, j int) bool { return less(reflect.ValueOf(out[i].k), reflect.ValueOf(out[j].k)) })
	perm(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func perm(n int, swap func(i, j int)) {
	orderUsed++
	switch orderMode {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case 2, 3:
		s := mix(orderSalt, uint64(n))
		if orderMode == 3 {
			orderCnt++
			s = mix(s, orderCnt)
		}
		for i := n - 1; i > 0; i-- {
			s += 0x9E3779B97F4A7C15
			z := s
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
			z = (z ^ (z >> 27)) * 0x94D049BB133111EB
			z ^= z >> 31
			swap(i, int(z%uint64(i+1)))
		}
	}
}

// Shuffle applies the simulated enumeration order to any sequence.
func Shuffle(n int, swap func(i, j int)) {
	if n > 1 {
		perm(n, swap)
	}
}

func less(a, b reflect.Value) bool { return compare(a, b) < 0 }

func compare(a, b reflect.Value) int {
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			switch {
			case a.IsNil() && b.IsNil():
				return 0
			case a.IsNil():
				return -1
			}
			return 1
		}
		a, b = a.Elem(), b.Elem()
		if a.Type() != b.Type() {
			if a.Type().String() < b.Type().String() {
				return -1
			}
			return 1
		}
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, y := a.Int(), b.Int()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x, y := a.Uint(), b.Uint()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.String:
		x, y := a.String(), b.String()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.Bool:
		if a.Bool() == b.Bool() {
			return 0
		} else if !a.Bool() {
			return -1
		}
		return 1
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := compare(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := compare(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			switch {
			case a.IsNil() && b.IsNil():
				return 0
			case a.IsNil():
				return -1
			}
			return 1
		}
		if a.Pointer() == b.Pointer() {
			return 0
		}
		// pointees, never addresses
		x, y := fmt.Sprintf("%v", reflect.Indirect(a)), fmt.Sprintf("%v", reflect.Indirect(b))
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	}
	return 0
}
