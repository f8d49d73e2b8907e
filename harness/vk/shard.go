package vk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The code under test keeps global state, so the cases of one check are
// spread over child processes: every child enumerates all cases in the same
// order and runs those of its shard.

type shard struct {
	i, n, start int // this child's shard, number of shards, first case index
	next        int // index of the next case
	progress    *os.File
	viols       *os.File
	dump        string
}

type dumped struct {
	Evals, Trans, Traces, Flaky, ViolCount int64
	Distinct, Outcomes                     [][16]byte
	Samples                                []string
	Viol                                   []violation
	Notes                                  map[string]interface{}
	Counts                                 map[string]int64
	Incomplete                             bool
	Assumptions                            []string
	Rule                                   string
}

// Child tells whether this process runs one shard only.
func (r *Run) Child() bool { return r.shard != nil }

func (r *Run) initShard() {
	s := os.Getenv("VK_SHARD")
	if s == "" {
		return
	}
	sh := &shard{}
	fmt.Sscanf(s, "%d/%d/%d", &sh.i, &sh.n, &sh.start)
	dir := os.Getenv("VK_SHARD_DIR")
	sh.progress, _ = os.OpenFile(filepath.Join(dir, fmt.Sprintf("progress.%d", sh.i)), os.O_CREATE|os.O_RDWR, 0644)
	sh.viols, _ = os.OpenFile(filepath.Join(dir, fmt.Sprintf("viols.%d", sh.i)), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	sh.dump = filepath.Join(dir, fmt.Sprintf("dump.%d.%d", sh.i, sh.start))
	r.shard = sh
}

// Case runs one case if it belongs to this shard.
func (r *Run) Case(id string, f func() *Fail) {
	if r.Skip(id) {
		return
	}
	if r.shard != nil {
		k := r.shard.next
		r.shard.next++
		if k < r.shard.start || k%r.shard.n != r.shard.i {
			return
		}
		if r.Expired() {
			return
		}
		r.shard.progress.WriteAt([]byte(fmt.Sprintf("%-12d%-400.400s", k, id)), 0)
	}
	r.State(id)
	r.Check(id, f)
}

// Mine tells whether the next case belongs to this shard, without running
// it: for callers whose cases are expensive to prepare.
func (r *Run) Mine() bool {
	return r.shard == nil || r.shard.next >= r.shard.start && r.shard.next%r.shard.n == r.shard.i
}

func (r *Run) dumpShard() {
	d := dumped{Evals: r.evals, Trans: r.trans, Traces: r.traces, Flaky: r.flaky, ViolCount: r.violCount, Samples: r.samples,
		Incomplete: r.incomplete.Load(), Assumptions: r.assumptions, Rule: r.Rule, Notes: map[string]interface{}{}, Counts: map[string]int64{}}
	for h := range r.distinct {
		d.Distinct = append(d.Distinct, h)
	}
	for h := range r.outcomes {
		d.Outcomes = append(d.Outcomes, h)
	}
	for _, v := range r.viol {
		d.Viol = append(d.Viol, *v)
	}
	for k, v := range r.notes {
		if c, ok := v.(int64); ok {
			d.Counts[k] = c
		} else {
			d.Notes[k] = v
		}
	}
	b, err := json.Marshal(d)
	if err != nil {
		fmt.Fprintln(os.Stderr, "dump:", err)
		os.Exit(4)
	}
	os.WriteFile(r.shard.dump, b, 0644)
	os.Exit(0)
}

func (r *Run) merge(file string) bool {
	b, err := os.ReadFile(file)
	if err != nil {
		return false
	}
	d := dumped{}
	if json.Unmarshal(b, &d) != nil {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += d.Evals
	r.trans += d.Trans
	r.traces += d.Traces
	r.flaky += d.Flaky
	r.violCount += d.ViolCount
	for _, h := range d.Distinct {
		r.distinct[h] = struct{}{}
	}
	for _, h := range d.Outcomes {
		r.outcomes[h] = struct{}{}
	}
	for _, s := range d.Samples {
		if len(r.samples) < 8 {
			r.samples = append(r.samples, s)
		}
	}
	for i := range d.Viol {
		v := d.Viol[i]
		if o, ok := r.viol[v.Key]; !ok || v.Case < o.Case {
			r.viol[v.Key] = &v
		}
	}
	for k, v := range d.Notes {
		r.notes[k] = v
	}
	for k, v := range d.Counts {
		if c, ok := r.notes[k].(int64); ok {
			r.notes[k] = c + v
		} else {
			r.notes[k] = v
		}
	}
	if d.Incomplete {
		r.incomplete.Store(true)
	}
	if r.assumptions == nil {
		r.assumptions = d.Assumptions
	}
	if d.Rule != "" {
		r.Rule = d.Rule
	}
	return true
}

// ShardFactor is the number of child processes per processor.
var ShardFactor = 1

// Supervise runs the check in child processes and collects their results.
// A child that dies makes the case it was running a violation (if it dies
// again there); the others go on.
func (r *Run) Supervise() {
	n := runtime.NumCPU() * ShardFactor
	if r.Only != "" {
		n = 1
	}
	dir, err := os.MkdirTemp("", "vk-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			start, again := 0, -1
			for tries := 0; tries < 60; tries++ {
				var errb bytes.Buffer
				os.Remove(filepath.Join(dir, fmt.Sprintf("progress.%d", i)))
				c := exec.Command(os.Args[0], os.Args[1:]...)
				left := time.Until(r.deadline)
				c.Env = append(os.Environ(), fmt.Sprintf("VK_SHARD=%d/%d/%d", i, n, start), "VK_SHARD_DIR="+dir, "VK_DEADLINE="+left.String(), "TMPDIR="+dir)
				c.Stderr = &errb
				c.Stdout = &errb
				err := c.Run()
				if r.Only != "" && os.Getenv("VK_DEBUG") != "" {
					os.Stderr.Write(errb.Bytes())
				}
				if r.merge(filepath.Join(dir, fmt.Sprintf("dump.%d.%d", i, start))) {
					return
				}
				// The child died.
				pb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress.%d", i)))
				if len(pb) < 12 {
					r.Violate("start", Failf("crash:start", "the check could not start: %v: %s", err, tail(errb.String(), 2000)))
					return
				}
				k, _ := strconv.Atoi(strings.TrimSpace(string(pb[:12])))
				id := strings.TrimSpace(string(pb[12:]))
				if os.Getenv("VK_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "child %d died at %s: %v\n%s\n", i, id, err, tail(errb.String(), 6000))
				}
				if again == k {
					st := errb.String()
					if j := strings.Index(st, "panic: "); j > 0 {
						st = st[j:]
					}
					if j := strings.Index(st, "fatal error: "); j > 0 {
						st = st[j:]
					}
					x := Failf("crash:"+panicSite(st), "the process died: %v: %s", err, head(st, 300))
					x.Detail = head(st, 4000)
					r.Violate(id, x)
					start = k + 1
				} else {
					again, start = k, k
				}
				// keep what the dead child had found
				r.mergeViols(filepath.Join(dir, fmt.Sprintf("viols.%d", i)))
			}
		}(i)
	}
	wg.Wait()
	os.RemoveAll(dir)
	r.Finish()
}

func (r *Run) mergeViols(file string) {
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		v := violation{}
		if l != "" && json.Unmarshal([]byte(l), &v) == nil {
			r.Violate(v.Case, &Fail{Key: v.Key, Desc: v.Desc, Detail: v.Detail})
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
