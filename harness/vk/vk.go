// Package vk is the shared kit of the model-checking harnesses: case
// accounting, replayable violations, known findings, evidence.
package vk

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type violation struct {
	Case, Key, Desc string
	Detail          interface{}
}

// Run accumulates what one check did.
type Run struct {
	Prop, Tier, Verif string
	Only              string
	Level, Rule       string
	start             time.Time
	deadline          time.Time

	evals, trans, traces, flaky int64
	mu                          sync.Mutex
	distinct                    map[[16]byte]struct{}
	outcomes                    map[[16]byte]struct{}
	samples                     []string
	viol                        map[string]*violation
	violCount                   int64
	notes                       map[string]interface{}
	incomplete                  atomic.Bool
	assumptions                 []string

	shard  *shard
	hang   time.Duration
	active sync.Map // case id -> start
}

// HangLimit makes a case that runs longer a violation (and ends the run).
func (r *Run) HangLimit(d time.Duration) {
	r.hang = d
	go func() {
		for {
			time.Sleep(time.Second)
			r.active.Range(func(k, v interface{}) bool {
				if time.Since(v.(time.Time)) > d {
					r.Violate(k.(string), Failf("hang", "case still running after %v", d))
					r.Finish()
				}
				return true
			})
		}
	}()
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Out is the real standard output; the code under test may print.
var Out = os.Stdout

// New starts a run for the property named by VK_PROP.
func New(prop string) *Run {
	tier := envOr("VERIF_TIER", "quick")
	limit := 540 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("VK_DEADLINE"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	now := time.Now()
	r := &Run{Prop: prop, Tier: tier, Verif: envOr("VK_VERIF", "/verif"), Only: os.Getenv("VK_ONLY"), Level: "model_checking",
		start: now, deadline: now.Add(limit), distinct: map[[16]byte]struct{}{}, outcomes: map[[16]byte]struct{}{}, viol: map[string]*violation{}, notes: map[string]interface{}{}}
	r.initShard()
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Expired tells whether the internal deadline passed; the run is then
// recorded as not exhaustive.
func (r *Run) Expired() bool {
	if time.Now().After(r.deadline) {
		r.incomplete.Store(true)
		return true
	}
	return false
}
func (r *Run) Assume(s string)              { r.mu.Lock(); r.assumptions = append(r.assumptions, s); r.mu.Unlock() }
func (r *Run) Note(k string, v interface{}) { r.mu.Lock(); r.notes[k] = v; r.mu.Unlock() }
func (r *Run) Count(k string, n int64) {
	r.mu.Lock()
	if c, ok := r.notes[k].(int64); ok {
		r.notes[k] = c + n
	} else {
		r.notes[k] = n
	}
	r.mu.Unlock()
}
func (r *Run) Trans(n int)  { atomic.AddInt64(&r.trans, int64(n)) }
func (r *Run) Traces(n int) { atomic.AddInt64(&r.traces, int64(n)) }
func h16(s string) (o [16]byte) {
	x := sha256.Sum256([]byte(s))
	copy(o[:], x[:16])
	return
}

// State records a distinct model state / input.
func (r *Run) State(s string) {
	h := h16(s)
	r.mu.Lock()
	r.distinct[h] = struct{}{}
	r.mu.Unlock()
}

// Outcome records a distinct observed outcome (guards against vacuity).
func (r *Run) Outcome(s string) {
	h := h16(s)
	r.mu.Lock()
	r.outcomes[h] = struct{}{}
	r.mu.Unlock()
}
func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Fail is a violation: Key identifies the failing class (matched against the
// known findings), Desc describes it.
type Fail struct {
	Key, Desc string
	Detail    interface{}
}

func Failf(key, f string, a ...interface{}) *Fail { return &Fail{Key: key, Desc: fmt.Sprintf(f, a...)} }

// Skip tells whether a replay run restricts the cases and excludes this one.
func (r *Run) Skip(id string) bool { return r.Only != "" && r.Only != id }

func guard(f func() *Fail) (out *Fail) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			out = &Fail{Key: "panic:" + panicSite(st), Desc: fmt.Sprintf("panic: %v", p), Detail: st}
		}
	}()
	return f()
}

// PanicSite extracts the first repository frame (outside the harness).
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/cloudflare/cfrpki/") && !strings.Contains(l, "/zzverif/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/cloudflare/cfrpki/")
		}
	}
	return "?"
}

// Check runs one case on the real code. A failure is reported only if it
// occurs again within twenty more executions.
func (r *Run) Check(id string, f func() *Fail) bool {
	if r.Skip(id) {
		return true
	}
	atomic.AddInt64(&r.evals, 1)
	if r.hang > 0 {
		r.active.Store(id, time.Now())
		defer r.active.Delete(id)
	}
	x := guard(f)
	if x == nil {
		return true
	}
	r.mu.Lock()
	_, seen := r.viol[x.Key]
	r.mu.Unlock()
	if !seen {
		again := false
		for i := 0; i < 20 && !again; i++ {
			again = guard(f) != nil
		}
		if !again {
			atomic.AddInt64(&r.flaky, 1)
			r.Note("unreproducible:"+id, x.Desc)
			return true
		}
	}
	r.Violate(id, x)
	return false
}

// Violate records a violation without re-running it.
func (r *Run) Violate(id string, x *Fail) {
	atomic.AddInt64(&r.violCount, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.viol[x.Key]; !ok {
		r.viol[x.Key] = &violation{Case: id, Key: x.Key, Desc: x.Desc, Detail: x.Detail}
		if r.shard != nil {
			if b, err := json.Marshal(r.viol[x.Key]); err == nil {
				r.shard.viols.Write(append(b, '\n'))
			}
		}
	}
}
func (r *Run) Eval(n int) { atomic.AddInt64(&r.evals, int64(n)) }
func (r *Run) Violations() int {
	return int(atomic.LoadInt64(&r.violCount))
}

// Parallel runs f over 0..n-1 on all cores, stopping at the deadline.
func (r *Run) Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	var next int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= n || r.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) known() map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(r.Verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		p := "finding: property=" + r.Prop + " key="
		if strings.HasPrefix(l, p) {
			rest := strings.TrimPrefix(l, p)
			k, t, _ := strings.Cut(rest, " ")
			m[k] = t
		}
	}
	return m
}

// Finish writes the evidence, prints findings and violations and exits.
func (r *Run) Finish() {
	if r.shard != nil {
		r.dumpShard()
	}
	known := r.known()
	keys := make([]string, 0)
	for k := range r.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := 0
	shown := 0
	foundKnown := 0
	for _, k := range keys {
		v := r.viol[k]
		if t, ok := known[strings.ReplaceAll(k, " ", "_")]; ok {
			fmt.Fprintf(Out, "KNOWN-FINDING: property=%s %s\n", r.Prop, t)
			foundKnown++
			continue
		}
		bad++
		if shown++; shown > 12 {
			continue
		}
		dir := filepath.Join(r.Verif, "replays")
		os.MkdirAll(dir, 0755)
		hs := sha256.Sum256([]byte(k))
		path := filepath.Join(dir, r.Prop+"-"+hex.EncodeToString(hs[:6])+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": r.Prop, "case": v.Case, "key": v.Key, "what": v.Desc, "detail": v.Detail,
			"rerun": fmt.Sprintf("VK_ONLY=%q VERIF_TIER=%s %s/run.sh %s", v.Case, r.Tier, r.Verif, r.Prop)}, "", " ")
		os.WriteFile(path, b, 0644)
		d := v.Desc
		if len(d) > 400 {
			d = d[:400] + "..."
		}
		fmt.Fprintf(Out, "  case=%s\n  key=%s\n  %s\n", v.Case, v.Key, strings.ReplaceAll(d, "\n", "\n  "))
		fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", r.Prop, path)
	}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "(none)")
	}
	cov := map[string]interface{}{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples,
		"states": len(r.distinct), "transitions": r.trans, "traces_validated_against_impl": r.traces,
		"exhaustive": !r.incomplete.Load() && r.Only == "", "distinct_outcomes": len(r.outcomes), "unreproducible": r.flaky, "known_findings_observed": foundKnown,
	}
	for k, v := range r.notes {
		cov[k] = v
	}
	ev := map[string]interface{}{"property": r.Prop, "tier": r.Tier, "seed": 1, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": bad}
	if r.assumptions != nil {
		ev["assumptions"] = r.assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(Out, "evidence:", err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(r.Verif, "evidence", r.Prop+".json"), b, 0644); err != nil {
		fmt.Fprintln(Out, "evidence:", err)
		os.Exit(3)
	}
	fmt.Fprintf(Out, "%s %s: evaluations=%d states=%d transitions=%d outcomes=%d exhaustive=%v violations=%d (%d raw) known=%d wall=%.1fs\n", r.Prop, r.Tier, r.evals, len(r.distinct), r.trans, len(r.outcomes), !r.incomplete.Load(), bad, r.violCount, foundKnown, time.Since(r.start).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
