// Package vhook is what the instrumented copy of the program under test
// calls instead of the file system, the clock, mutexes and the HTTP server:
// file operations are confined to a scratch directory and recorded, time is
// virtual, and every statement is a scheduling point.
package vhook

import (
	"context"
	"net/http"
	"runtime"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Op is one file operation of the program.
type Op struct {
	Kind, Path string
	N          int // bytes written
	Read       bool
	Out        bool // outside of the scratch directory (and refused)
}

// Run is one execution of the program.
type Run struct {
	Root string // scratch directory; nothing outside of it is touched
	Base string // parent of the scratch directories of all runs

	mu  sync.Mutex
	Ops []Op

	CrashAt int // die at this mutating operation (counted from 0), -1: never
	Torn    int // how much of a torn write reaches the disk: 0 nothing, 1 an empty file, 2 half, 3 all but one byte, 4 everything
	muts    int
	frozen  bool
	Crashed chan struct{}
	FailAt  func(kind, path string) error

	now  time.Time
	Tick time.Duration

	Idle     func(d time.Duration) // the main loop waits
	LoopG    int64
	Handler  http.Handler
	HandlerC chan struct{}
	nowCalls int
	MaxNow   int
	Runaway  bool

	Recvs map[uintptr]interface{}
	Sched *Sched

	label unsafe.Pointer
	dead  atomic.Bool
}

var cur atomic.Pointer[Run]

// Start makes r the current run.
func Start(r *Run) {
	if r.now.IsZero() {
		r.now = time.Now()
	}
	if r.Tick == 0 {
		r.Tick = time.Millisecond
	}
	r.Crashed = make(chan struct{})
	r.HandlerC = make(chan struct{})
	r.Recvs = map[uintptr]interface{}{}
	cur.Store(r)
}

func (r *Run) SetNow(t time.Time) { r.mu.Lock(); r.now = t; r.mu.Unlock() }
func (r *Run) GetNow() time.Time  { r.mu.Lock(); defer r.mu.Unlock(); return r.now }

// Advance moves the clock.
func (r *Run) Advance(d time.Duration) { r.mu.Lock(); r.now = r.now.Add(d); r.mu.Unlock() }

// Kill makes every goroutine of the run end at its next hook.
func (r *Run) Kill()          { r.dead.Store(true) }
func (r *Run) Dead() bool     { return r.dead.Load() }
func (r *Run) Muts() int      { r.mu.Lock(); defer r.mu.Unlock(); return r.muts }
func (r *Run) OpList() []Op   { r.mu.Lock(); defer r.mu.Unlock(); return append([]Op(nil), r.Ops...) }
func (r *Run) IsFrozen() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.frozen }

// owners tells the run a goroutine belongs to by its profiler labels, which
// goroutines inherit: one that outlives its run must not act in the next.
var owners sync.Map

//go:linkname profLabel runtime/pprof.runtime_getProfLabel
func profLabel() unsafe.Pointer

// Own makes the calling goroutine, and those it starts, part of r.
func (r *Run) Own() {
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("run", "verif")))
	r.label = profLabel()
	owners.Store(r.label, r)
}

// Disown ends the records of Own. Goroutines that are left belong to a dead
// run.
func (r *Run) Disown() { owners.Store(r.label, graveyard) }

var graveyard = func() *Run { r := &Run{}; r.dead.Store(true); return r }()

func owner() *Run {
	if p := profLabel(); p != nil {
		if r, ok := owners.Load(p); ok {
			return r.(*Run)
		}
	}
	return cur.Load()
}

func get() *Run {
	r := owner()
	if r != nil && r.dead.Load() {
		runtime.Goexit()
	}
	return r
}

// Cur returns the current run.
func Cur() *Run { return owner() }

// ---- HTTP server ----

func ListenAndServe(addr string, h http.Handler) error {
	r := get()
	if h == nil {
		h = http.DefaultServeMux
	}
	r.mu.Lock()
	if r.Handler == nil {
		r.Handler = h
		close(r.HandlerC)
	}
	r.mu.Unlock()
	select {}
}

func Serve(s *http.Server) error { return ListenAndServe(s.Addr, s.Handler) }

// ---- clock ----

func Now() time.Time {
	r := get()
	if r == nil {
		return time.Now()
	}
	r.mu.Lock()
	r.now = r.now.Add(r.Tick)
	t := r.now
	r.nowCalls++
	over := r.MaxNow > 0 && r.nowCalls > r.MaxNow
	if over {
		r.Runaway = true
	}
	r.mu.Unlock()
	if over {
		r.Kill()
		runtime.Goexit()
	}
	return t
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func (r *Run) idle(d time.Duration) bool {
	if r == nil || Goid() != r.LoopG {
		return false
	}
	if r.Sched != nil {
		r.Sched.point(r, r.LoopG)
	}
	r.Advance(d)
	if r.Idle != nil {
		r.Idle(d)
	}
	get()
	return true
}
func After(d time.Duration) <-chan time.Time {
	r := get()
	if !r.idle(d) {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	c <- Now()
	return c
}
func Sleep(d time.Duration) {
	if !get().idle(d) {
		time.Sleep(d)
	}
}
func NewTimer(d time.Duration) *time.Timer {
	if get().idle(d) {
		return time.NewTimer(0)
	}
	return time.NewTimer(d)
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func NewTicker(d time.Duration) *time.Ticker {
	return time.NewTicker(d)
}
