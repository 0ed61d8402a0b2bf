// Package vsync stands for package sync in the instrumented code: the same
// operations on the same real primitives, with waiting done in the simulated
// scheduler when the caller is a simulated task.
package vsync

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"MODULE_PATH/zz_verif/vsim"
)

type Locker = sync.Locker
type Map = sync.Map

// wait acquires a lock outside of the simulated tasks, where nobody else is
// there to release it but the goroutines the library may have started.
func wait(try func() bool) {
	for k := 0; !try(); k++ {
		if k > 100 {
			time.Sleep(time.Millisecond)
		} else {
			runtime.Gosched()
		}
		if k > 2000 {
			panic(vsim.Deadlock{})
		}
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !vsim.InTask() {
		wait(m.mu.TryLock)
		return
	}
	vsim.Y()
	for !m.mu.TryLock() {
		vsim.Block(m)
	}
}

func (m *Mutex) TryLock() bool { return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	vsim.Wake(m)
	vsim.Y()
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if !vsim.InTask() {
		wait(m.mu.TryLock)
		return
	}
	vsim.Y()
	for !m.mu.TryLock() {
		vsim.Block(m)
	}
}

func (m *RWMutex) RLock() {
	if !vsim.InTask() {
		wait(m.mu.TryRLock)
		return
	}
	vsim.Y()
	for !m.mu.TryRLock() {
		vsim.Block(m)
	}
}

func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	vsim.Wake(m)
	vsim.Y()
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	vsim.Wake(m)
	vsim.Y()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once keeps the ordering guarantee of sync.Once (the first call happens before
// the return of every other one, callers are otherwise unordered) with real
// locks, which are never held across a scheduling point.
type Once struct {
	done bool
	hb   sync.RWMutex
	m    Mutex
}

func (o *Once) isDone() bool {
	o.hb.RLock()
	d := o.done
	o.hb.RUnlock()
	return d
}

func (o *Once) Do(f func()) {
	vsim.Y()
	if !o.isDone() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.isDone() {
			defer func() {
				o.hb.Lock()
				o.done = true
				o.hb.Unlock()
			}()
			f()
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int64
}

func (w *WaitGroup) Add(d int) {
	w.wg.Add(d)
	if atomic.AddInt64(&w.n, int64(d)) == 0 {
		vsim.Wake(w)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if vsim.InTask() {
		vsim.Y()
		for atomic.LoadInt64(&w.n) > 0 {
			vsim.Block(w)
		}
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go vsim.Wrap(func() {
		defer w.Done()
		f()
	})()
}

type Cond struct {
	L   Locker
	c   *sync.Cond
	gen uint64
	sig uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsim.InTask() {
		c.c.Wait()
		return
	}
	c.L.Unlock()
	vsim.Block(c) // spurious wake-ups are allowed to the caller's loop
	c.L.Lock()
}
func (c *Cond) Signal() { c.Broadcast() }
func (c *Cond) Broadcast() {
	c.c.Broadcast()
	vsim.Wake(c)
}

// Pool keeps objects in a last-in first-out stack.
type Pool struct {
	New  func() interface{}
	mu   sync.Mutex
	free []interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	var out interface{}
	if n := len(p.free); n > 0 {
		out = p.free[n-1]
		p.free = p.free[:n-1]
	}
	p.mu.Unlock()
	if out == nil && p.New != nil {
		out = p.New()
	}
	return out
}

func (p *Pool) Put(x interface{}) {
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}
