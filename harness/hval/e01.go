package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// E01: the localrpki program on worlds laid out on disk.

type localOut struct {
	ROAs []struct {
		ASN       string `json:"asn"`
		Prefix    string `json:"prefix"`
		MaxLength int    `json:"maxLength"`
		Path      string `json:"path"`
	} `json:"roas"`
}

func init() {
	checks["E01"] = func(r *vk.Run) {
		r.Rule = "the built program on every tree shape x every single deviation x strictness flags, every boundary instant +-1s in each time format, directory mappings of every form (single, per host, overlapping, with and without slash), several TALs, with and without manifests, each run at least twice; output compared with the reference model and between runs"
		root, err := os.MkdirTemp("", "vke01")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		bin := filepath.Join(r.Verif, ".build", "bin", "localrpki")
		type kase struct {
			id    string
			build []func() *w.World
			o     w.Opts
			tstr  string
			mapd  func(dir string) (string, func(uri string) string)
			extra []string
			twice bool
			exact bool // healthy: everything must be there
		}
		flat := func(dir string) (string, func(string) string) {
			return "rsync://=" + dir, func(u string) string { return filepath.Join(dir, strings.TrimPrefix(u, "rsync://")) }
		}
		hosts := func(dir string) (string, func(string) string) {
			var l []string
			for _, h := range []string{"ta", "a", "b", "c", "d", "u", "ua"} {
				l = append(l, "rsync://"+h+".example/="+dir+"/dir-"+h+"/")
			}
			return strings.Join(l, ","), func(u string) string {
				p := strings.TrimPrefix(u, "rsync://")
				h, rest, _ := strings.Cut(p, "/")
				return filepath.Join(dir, "dir-"+strings.TrimSuffix(h, ".example"), rest)
			}
		}
		overlap := func(dir string) (string, func(string) string) {
			return fmt.Sprintf("rsync://=%s/gen,rsync://a.example/=%s/a,rsync://a.example/repo/=%s/arepo/,rsync://ta.example/ta=%s/tadir", dir, dir, dir, dir), func(u string) string {
				switch {
				case strings.HasPrefix(u, "rsync://a.example/repo/"):
					return filepath.Join(dir, "arepo", strings.TrimPrefix(u, "rsync://a.example/repo/"))
				case strings.HasPrefix(u, "rsync://a.example/"):
					return filepath.Join(dir, "a", strings.TrimPrefix(u, "rsync://a.example/"))
				case strings.HasPrefix(u, "rsync://ta.example/ta"):
					return filepath.Join(dir, "tadir", strings.TrimPrefix(u, "rsync://ta.example/ta"))
				}
				return filepath.Join(dir, "gen", strings.TrimPrefix(u, "rsync://"))
			}
		}
		var cases []kase
		ts := func(t time.Time) string { return fmt.Sprint(t.Unix()) }
		shapes := []Shape{s1, s3}
		if r.Thorough() {
			shapes = []Shape{s1, s2, s3, s4, s5}
		}
		o4 := []w.Opts{
			{Time: w.T0, StrictMft: true, Hash: true},
			{Time: w.T0, StrictMft: false, Hash: true},
			{Time: w.T0, StrictMft: true, Hash: false},
			{Time: w.T0, StrictMft: false, Hash: false, StrictCMS: true},
		}
		for _, s := range shapes {
			s := s
			for _, o := range o4 {
				for _, m := range []struct {
					n string
					f func(string) (string, func(string) string)
				}{{"flat", flat}, {"hosts", hosts}, {"overlap", overlap}} {
					cases = append(cases, kase{id: fmt.Sprintf("%s/%s/%s", s.Name, optName(o), m.n), build: []func() *w.World{s.Build}, o: o, tstr: ts(o.Time), mapd: m.f, twice: true, exact: true})
				}
			}
			for i, d := range Menu(s) {
				d := d
				o := o4[i%4]
				os := []w.Opts{o}
				if r.Thorough() {
					os = o4
				} else if strings.HasPrefix(d.Class, "a04") {
					os = o4[:3]
				}
				for _, o := range os {
					cases = append(cases, kase{id: fmt.Sprintf("%s/%s/%s", s.Name, optName(o), d.Name), o: o, tstr: ts(o.Time), mapd: flat, build: []func() *w.World{func() *w.World { x := s.Build(); d.Apply(x); return x }}})
				}
			}
		}
		// time
		x := s1.Build()
		bounds := []time.Time{x.TA.Cert.NB, x.TA.Cert.NA, x.TA.MftThis, x.TA.MftNext, w.T0}
		for bi, b := range bounds {
			for d := -1; d <= 1; d++ {
				t := b.Add(time.Duration(d) * time.Second)
				o := w.Opts{Time: t, StrictMft: true, Hash: true}
				for _, f := range []string{ts(t), t.UTC().Format(time.RFC3339), t.In(time.FixedZone("x", 2*3600)).Format(time.RFC3339), t.In(time.FixedZone("y", -5*3600-1800)).Format(time.RFC3339)} {
					for _, sm := range []bool{true, false} {
						o.StrictMft = sm
						cases = append(cases, kase{id: fmt.Sprintf("time/%d%+d/%s/%v", bi, d, f, sm), build: []func() *w.World{s1.Build}, o: o, tstr: f, mapd: flat})
					}
				}
			}
		}
		longLived := func(shift time.Duration) func() *w.World {
			return func() *w.World {
				x := s3.Build()
				now := time.Now().UTC().Truncate(time.Second)
				x.Walk(func(c *w.CA) {
					for _, k := range []*w.Cert{&c.Cert, &c.MftEE} {
						k.NB, k.NA = now.Add(shift-time.Hour), now.Add(shift+time.Hour)
					}
					for _, ro := range c.Roas {
						ro.EE.NB, ro.EE.NA = now.Add(shift-time.Hour), now.Add(shift+time.Hour)
					}
					c.MftThis, c.MftNext, c.CrlThis, c.CrlNext = now.Add(shift-time.Hour), now.Add(shift+time.Hour), now.Add(shift-time.Hour), now.Add(shift+time.Hour)
				})
				return x
			}
		}
		for _, sh := range []time.Duration{0, 10 * 24 * time.Hour, -10 * 24 * time.Hour, 50 * time.Minute, 70 * time.Minute} {
			o := w.Opts{Time: time.Now().UTC(), StrictMft: true, Hash: true}
			cases = append(cases, kase{id: fmt.Sprintf("now/%v", sh), build: []func() *w.World{longLived(sh)}, o: o, tstr: "now", mapd: flat})
		}
		// several TALs, also the same twice
		cases = append(cases, kase{id: "tals/2", build: []func() *w.World{s1.Build, otherWorld}, o: o4[0], tstr: ts(w.T0), mapd: flat, twice: true, exact: true})
		cases = append(cases, kase{id: "tals/2r", build: []func() *w.World{otherWorld, s3.Build}, o: o4[0], tstr: ts(w.T0), mapd: hosts, twice: true, exact: true})
		for _, s := range []Shape{s1, s2, s3, s5} {
			cases = append(cases, kase{id: "nomanifest/" + s.Name, build: []func() *w.World{s.Build}, o: o4[0], tstr: ts(w.T0), mapd: flat, extra: []string{"-manifest.use=false"}, twice: true, exact: true})
			for _, nm := range namings {
				s, nm := s, nm
				build := []func() *w.World{func() *w.World { return rename(s.Build(), nm.f) }}
				cases = append(cases, kase{id: "nomanifest/" + s.Name + "/" + nm.n, build: build, o: o4[0], tstr: ts(w.T0), mapd: flat, extra: []string{"-manifest.use=false"}, twice: true, exact: true})
				cases = append(cases, kase{id: "names/" + s.Name + "/" + nm.n, build: build, o: o4[0], tstr: ts(w.T0), mapd: flat, twice: true, exact: true})
			}
		}
		r.Note("runs", len(cases))
		r.Parallel(len(cases), func(i int) {
			c := cases[i]
			if r.Skip(c.id) {
				return
			}
			dir := filepath.Join(root, fmt.Sprint(i))
			defer os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			mapd, where := c.mapd(filepath.Join(dir, "cache"))
			e := &w.Expect{Cert: map[string]w.Verdict{}, Roa: map[string]w.Verdict{}, Mft: map[string]w.Verdict{}, Why: map[string]string{}, VRPs: map[string][]string{}, Must: map[string][]string{}}
			var tals []string
			for k, b := range c.build {
				x := b()
				x.EvalInto(c.o, e)
				for u, data := range x.Files() {
					p := where(u)
					os.MkdirAll(filepath.Dir(p), 0755)
					os.WriteFile(p, data, 0644)
				}
				t := filepath.Join(dir, fmt.Sprintf("t%d.tal", k))
				os.WriteFile(t, x.TALBytes(), 0644)
				tals = append(tals, t)
			}
			run := func(n int) ([]byte, error) {
				out := filepath.Join(dir, fmt.Sprintf("out%d.json", n))
				args := append([]string{"-tal.root", strings.Join(tals, ","), "-map.dir", mapd, "-valid.time", c.tstr, "-output", out, "-loglevel", "fatal",
					fmt.Sprintf("-strict.manifests=%v", c.o.StrictMft), fmt.Sprintf("-strict.hash=%v", c.o.Hash), fmt.Sprintf("-strict.cms=%v", c.o.StrictCMS)}, c.extra...)
				cmd := exec.Command(bin, args...)
				cmd.Dir = dir
				o, err := cmd.CombinedOutput()
				if err != nil {
					s := string(o)
					if len(s) > 1500 {
						s = s[:1500]
					}
					return nil, fmt.Errorf("%v: %s", err, s)
				}
				return os.ReadFile(out)
			}
			r.State(c.id)
			r.Check(c.id, func() *vk.Fail {
				b, err := run(1)
				if err != nil {
					return vk.Failf("the program failed", "%v", err)
				}
				r.Trans(1)
				if c.twice {
					for k := 2; k < 6; k++ {
						b2, err := run(k)
						if err != nil || string(b2) != string(b) {
							return vk.Failf("output differs between runs", "%v\n%s\n%s", err, b, b2)
						}
					}
				}
				var l localOut
				if err := json.Unmarshal(b, &l); err != nil {
					return vk.Failf("output is not JSON", "%v: %s", err, b)
				}
				res := &w.Result{Cert: map[string]bool{}, Mft: map[string]bool{}, Roa: map[string]bool{}, VRPs: map[string][]string{}}
				for _, x := range l.ROAs {
					res.Roa[x.Path] = true
					res.VRPs[x.Path] = append(res.VRPs[x.Path], fmt.Sprintf("%s-%d=>%s", x.Prefix, x.MaxLength, x.ASN))
				}
				r.Outcome(fmt.Sprint(len(l.ROAs)))
				for p := range res.VRPs {
					sort.Strings(res.VRPs[p])
				}
				e2 := &w.Expect{Cert: map[string]w.Verdict{}, Mft: map[string]w.Verdict{}, Roa: e.Roa, Why: e.Why, VRPs: e.VRPs, Must: e.Must}
				if k, d := w.Diff(e2, res, true, true); k != "" {
					return &vk.Fail{Key: k, Desc: d}
				}
				if c.exact {
					for p, v := range e.VRPs {
						if strings.Join(v, " ") != strings.Join(res.VRPs[p], " ") {
							return vk.Failf("output", "%s: %v instead of %v", p, res.VRPs[p], v)
						}
					}
				}
				return nil
			})
			r.Traces(1)
		})
	}
}
