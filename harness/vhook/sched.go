package vhook

import (
	"hash/maphash"
	"reflect"
	"runtime"
	"sync"
	"time"
	"unsafe"
)

// Sched explores interleavings of HTTP requests (observers) with the main
// loop. Only one of them runs at any time. At every scheduling point of the
// main loop at which the shared state has changed, Point is called on the
// loop's goroutine; it may start observers and let them advance.
type Sched struct {
	Point func(n int) // n: number of state changes so far

	mu     sync.Mutex
	thr    map[int64]*Thread
	live   []*Thread
	last   uint64
	n      int
	inside bool
	Points int // scheduling points of the loop passed
	Forced int // observers that had to finish because the loop needed a lock
	States map[uint64]struct{}

	workers sync.RWMutex // held (shared) by other goroutines while they have a lock
}

// Thread is one observer.
type Thread struct {
	s       *Sched
	budget  int // points it may still pass before pausing; -1: run to the end
	wake    chan int
	yield   chan struct{}
	excl    int
	shared  int
	Steps   int
	Done    bool
	Blocked bool
	g       int64
	Panic   interface{}
}

var globals []interface{}

// Globals registers the package-level variables that belong to the state.
func Globals(v ...interface{}) { globals = append(globals, v...) }

// Recv registers an object of the program.
func Recv(p interface{}) {
	r := owner()
	if r == nil || r.Sched == nil {
		return
	}
	a := reflect.ValueOf(p).Pointer()
	if a == 0 {
		return
	}
	r.mu.Lock()
	r.Recvs[a] = p
	r.mu.Unlock()
}

// P is a scheduling point.
func P() {
	r := owner()
	if r == nil {
		return
	}
	if r.dead.Load() {
		runtime.Goexit()
	}
	if r.Sched == nil {
		return
	}
	r.Sched.point(r, Goid())
}

// At is a scheduling point before an access to a field.
func At[T any](p *T) *T { P(); return p }

func (s *Sched) thread(g int64) *Thread {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.thr[g]
}

func (s *Sched) point(r *Run, g int64) {
	if g == r.LoopG {
		if s.inside {
			return
		}
		s.Points++
		free := false
		for i := 0; i < 200 && !free; i++ {
			if free = s.workers.TryLock(); !free {
				runtime.Gosched()
			}
		}
		if !free {
			return
		}
		h := s.hash(r)
		s.workers.Unlock()
		if h == s.last {
			return
		}
		s.last = h
		if s.States == nil {
			s.States = map[uint64]struct{}{}
		}
		s.States[h] = struct{}{}
		s.inside = true
		s.Point(s.n)
		s.inside = false
		s.n++
		return
	}
	t := s.thread(g)
	if t == nil {
		return
	}
	t.Steps++
	if t.excl > 0 {
		return
	}
	t.pause()
}

// pause gives up control when the budget is used up.
func (t *Thread) pause() {
	if t.budget < 0 {
		return
	}
	if t.budget > 0 {
		t.budget--
		return
	}
	t.yield <- struct{}{}
	t.budget = <-t.wake
	if t.budget > 0 {
		t.budget--
	}
}

func (s *Sched) acquire(r *Run, try func() bool, lock func(), excl bool) {
	g := Goid()
	t := s.thread(g)
	if t == nil {
		if g != r.LoopG {
			if excl {
				s.workers.RLock()
			}
			lock()
			return
		}
		if s.inside {
			lock()
			return
		}
		for i := 0; !try(); i++ {
			if i == 0 {
				s.finishHolders()
			} else {
				runtime.Gosched()
			}
		}
		return
	}
	for !try() {
		// Somebody paused holds it: wait for another turn.
		t.Blocked = true
		t.yield <- struct{}{}
		t.budget = <-t.wake
		t.Blocked = false
	}
	if excl {
		t.excl++
	} else {
		t.shared++
	}
}

func (s *Sched) release(r *Run, excl bool) {
	g := Goid()
	t := s.thread(g)
	if t == nil && g != r.LoopG && excl {
		s.workers.RUnlock()
	}
	if t != nil {
		if excl {
			t.excl--
		} else {
			t.shared--
		}
	}
}

func (s *Sched) finishHolders() {
	for _, t := range s.Live() {
		if t.shared > 0 || t.excl > 0 {
			s.Forced++
			t.Run(-1)
		}
	}
}

// Live lists the observers that have not ended.
func (s *Sched) Live() []*Thread {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []*Thread
	for _, t := range s.live {
		if !t.Done {
			l = append(l, t)
		}
	}
	s.live = append([]*Thread(nil), l...)
	return l
}

// Spawn creates an observer that has not run yet.
func (s *Sched) Spawn(f func()) *Thread {
	t := &Thread{s: s, wake: make(chan int), yield: make(chan struct{})}
	s.mu.Lock()
	s.live = append(s.live, t)
	s.mu.Unlock()
	go func() {
		t.budget = <-t.wake
		t.g = Goid()
		s.mu.Lock()
		if s.thr == nil {
			s.thr = map[int64]*Thread{}
		}
		s.thr[t.g] = t
		s.mu.Unlock()
		defer func() {
			t.Panic = recover()
			s.mu.Lock()
			delete(s.thr, t.g)
			t.Done = true
			s.mu.Unlock()
			t.yield <- struct{}{}
		}()
		f()
	}()
	return t
}

// Run lets the observer pass n points (-1: to its end) and waits until it
// pauses, blocks or ends.
func (t *Thread) Run(n int) {
	if t.Done {
		return
	}
	t.wake <- n
	<-t.yield
}

// ---- state hash ----

func (s *Sched) hash(r *Run) uint64 {
	h := &hasher{seen: map[uintptr]bool{}}
	var sum uint64
	r.mu.Lock()
	rs := make([]interface{}, 0, len(r.Recvs))
	for _, p := range r.Recvs {
		rs = append(rs, p)
	}
	r.mu.Unlock()
	for _, p := range rs {
		sum += h.value(reflect.ValueOf(p), 0)
	}
	for i, g := range globals {
		sum = sum*31 + h.value(reflect.ValueOf(g), 0) + uint64(i)
	}
	return sum
}

type hasher struct{ seen map[uintptr]bool }

func mixs(s string) uint64 { return maphash.String(seed, s) }

var seed = maphash.MakeSeed()
var timeType = reflect.TypeOf(time.Time{})
var skipType = map[reflect.Type]bool{}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + a<<12 + a>>4
	return a * 0xff51afd7ed558ccd
}

var skipPkg = map[string]bool{
	"github.com/opentracing/opentracing-go": true, "net/http": true, "github.com/prometheus/client_golang/prometheus": true,
	"crypto/ecdsa": true, "sync": true, "github.com/cloudflare/cfrpki/zzverif/vhook": true, "github.com/getsentry/sentry-go": true,
	"github.com/sirupsen/logrus": true, "regexp": true, "flag": true, "math/big": true, "crypto/x509": true, "crypto/elliptic": true,
	"github.com/cloudflare/cfrpki/validator/lib": true, "github.com/cloudflare/cfrpki/validator/pki": true,
}

func (h *hasher) value(v reflect.Value, depth int) uint64 {
	if !v.IsValid() || depth > 12 {
		return 1
	}
	t := v.Type()
	skip, ok := skipType[t]
	if !ok {
		skip = skipPkg[t.PkgPath()]
		skipType[t] = skip
	}
	if skip {
		return 2
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 3
		}
		return 4
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mix(5, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return mix(6, v.Uint())
	case reflect.String:
		return mix(7, mixs(v.String()))
	case reflect.Float32, reflect.Float64:
		return mix(8, uint64(v.Float()*1e6))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return mix(9, maphash.Bytes(seed, v.Bytes()))
		}
		x := uint64(10)
		for i := 0; i < v.Len(); i++ {
			x = mix(x, h.value(v.Index(i), depth+1))
		}
		return x
	case reflect.Array:
		x := uint64(11)
		for i := 0; i < v.Len(); i++ {
			x = mix(x, h.value(v.Index(i), depth+1))
		}
		return x
	case reflect.Map:
		x := uint64(12)
		for it := v.MapRange(); it.Next(); {
			x += mix(h.value(it.Key(), depth+1), h.value(it.Value(), depth+1))
		}
		return x
	case reflect.Interface:
		if v.IsNil() {
			return 13
		}
		return mix(14, h.value(v.Elem(), depth+1))
	case reflect.Ptr:
		if v.IsNil() {
			return 15
		}
		if h.seen[v.Pointer()] {
			return 16
		}
		h.seen[v.Pointer()] = true
		x := h.value(v.Elem(), depth+1)
		delete(h.seen, v.Pointer())
		return mix(17, x)
	case reflect.Struct:
		if t == timeType {
			return mix(mix(20, v.Field(0).Uint()), uint64(v.Field(1).Int()))
		}
		x := uint64(18)
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			x = mix(x, h.value(fv, depth+1))
		}
		return x
	}
	return 19
}

var _ = unsafe.Pointer(nil)
