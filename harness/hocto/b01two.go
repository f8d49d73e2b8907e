package hocto

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

// Two RRDP endpoints for CAs of the same rsync module: each has a session
// and serial of its own.
var twoWorld *world.World

type twoEv struct {
	name string
	f    func(s *RRDP, u string, n int)
}

var twoEvs = []twoEv{
	{"none", func(s *RRDP, u string, n int) {}},
	{"add", func(s *RRDP, u string, n int) {
		s.Update(map[string][]byte{fmt.Sprintf("%s/n%d.roa", u, n): []byte(fmt.Sprint("new", n))})
	}},
	{"replace", func(s *RRDP, u string, n int) {
		s.Update(map[string][]byte{u + "/o.roa": []byte(fmt.Sprint("replaced", n))})
	}},
	{"withdraw", func(s *RRDP, u string, n int) {
		if _, ok := s.Objects[u+"/o.roa"]; ok {
			s.Update(nil, u+"/o.roa")
		}
	}},
	{"session", func(s *RRDP, u string, n int) {
		s.Objects[u+"/s.roa"] = []byte(fmt.Sprint("session", n))
		s.NewSession()
	}},
}

// runTwo polls both endpoints after each step. faulty: bit mask of endpoints
// whose notification fails in a round.
func runTwo(steps [][2]int, faulty []int, memory bool) (fail *vk.Fail, polls int) {
	if twoWorld == nil {
		b := world.NewBuilder()
		w := b.TA("ta", mHost, world.Res{V4: []world.Rng{world.PR("10.0.0.0/8")}, AS: []world.ARng{{Lo: 1, Hi: 100}}})
		w.TA.Cert.RRDP = "https://" + mHost + "/rrdp/notification.xml"
		b.Kid(w.TA, "k1", mHost, world.Res{V4: []world.Rng{world.PR("10.0.0.0/8")}}).Cert.RRDP = "https://" + mHost + "/second/notification.xml"
		twoWorld = w
	}
	e := NewEnv()
	defer e.Close()
	files := twoWorld.Files()
	for u, b := range files {
		e.Put(u, b)
	}
	e.Flags["tal.root"] = e.TAL("ta.tal", twoWorld.TALBytes())
	e.Flags["tal.name"] = "TA"
	e.Flags["rrdp.failover"] = "false"
	if memory {
		e.Flags["rrdp.file"] = ""
	}
	srv := []*RRDP{NewRRDP("https://" + mHost + "/rrdp"), NewRRDP("https://" + mHost + "/second")}
	dirs := []string{"rsync://" + mHost + "/repo/first", "rsync://" + mHost + "/repo/second"}
	wd := map[string]bool{}
	for i, s := range srv {
		s.Objects[dirs[i]+"/o.roa"] = []byte("original")
		s.Objects[dirs[i]+"/p.roa"] = []byte("other")
	}
	round := 0 // number of the coming fetch round, from 1
	cur := 0
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		for i, s := range srv {
			if strings.HasPrefix(u, s.Base+"/") {
				if cur>>i&1 == 1 {
					return Resp(500, nil), nil
				}
				polls++
				for n, d := range s.Deltas { // what the client is told to remove
					if u == fmt.Sprintf("%s/%s/%d/delta.xml", s.Base, s.Session, n) {
						for _, x := range d.wd {
							wd[x] = true
						}
					}
				}
				return s.Serve(rq), nil
			}
		}
		return Resp(404, nil), nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) { return "", "", 5 }
	prev := map[string]recorded{}
	e.OnIdle = func(int) bool {
		// judge the round that ended (the first pause comes after a fetch)
		st, err := e.recordedState()
		if !memory && err != nil {
			fail = vk.Failf("two:state", "the RRDP state cannot be read: %v", err)
			return false
		}
		have := e.cacheObjects(mHost)
		for i, s := range srv {
			now := recorded{s.Session, s.Serial}
			if cur>>i&1 == 1 {
				if !memory && st[s.Notify()] != prev[s.Notify()] {
					fail = vk.Failf("two:failed-poll", "round %d: the failed poll of %s changed the recorded state from %v to %v", round, s.Base, prev[s.Notify()], st[s.Notify()])
				}
				continue
			}
			if !memory && st[s.Notify()] != now {
				fail = vk.Failf("two:not-recorded", "round %d: the state recorded for %s is %v, the server is at %v", round, s.Base, st[s.Notify()], now)
			}
			for u, b := range s.Objects {
				if string(have[u]) != string(b) {
					fail = vk.Failf("two:content", "round %d: the cache has %q for %s, the server publishes %q", round, have[u], u, b)
				}
			}
			for u := range wd {
				if strings.HasPrefix(u, dirs[i]+"/") && s.Objects[u] == nil && have[u] != nil {
					fail = vk.Failf("two:withdrawn", "round %d: the withdrawn %s is still in the cache", round, u)
				}
			}
		}
		prev = st
		if fail != nil || round > len(steps) {
			return false
		}
		if round < len(steps) {
			for i, s := range srv {
				twoEvs[steps[round][i]].f(s, dirs[i], round)
			}
			cur = faulty[round]
		} else {
			cur = 0
		}
		round++
		return true
	}
	e.Exec()
	if f := e.Died(); f != nil {
		return f, polls
	}
	if fail == nil && round <= len(steps) {
		fail = vk.Failf("two:gave-up", "the program stopped after %d rounds (%s)", round, e.Ended)
	}
	return
}

func b01two(r *vk.Run, depth int) {
	var rec func(st [][2]int, fl []int)
	rec = func(st [][2]int, fl []int) {
		if len(st) == depth {
			for _, mem := range []bool{false, true} {
				mem := mem
				id := fmt.Sprintf("two endpoints memory=%v", mem)
				for i, s := range st {
					id += fmt.Sprintf("; %s+%s/%d", twoEvs[s[0]].name, twoEvs[s[1]].name, fl[i])
				}
				st, fl := append([][2]int(nil), st...), append([]int(nil), fl...)
				r.Case(id, func() *vk.Fail {
					f, n := runTwo(st, fl, mem)
					r.Trans(n)
					r.Traces(1)
					return f
				})
			}
			return
		}
		for a := range twoEvs {
			for b := range twoEvs {
				for f := 0; f < 4; f++ {
					rec(append(st[:len(st):len(st)], [2]int{a, b}), append(fl[:len(fl):len(fl)], f))
				}
			}
		}
	}
	rec(nil, nil)
}
