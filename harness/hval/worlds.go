package main

import (
	"fmt"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

type spec struct {
	class    map[string]bool // deviations that define the property
	sound    func(why string) bool
	complete bool
	opts     []w.Opts
	shapes   []Shape
	run      func(files map[string][]byte, tal []byte, o w.Opts) *w.Result
}

var optsAll = []w.Opts{
	{Time: w.T0, StrictMft: true, Hash: true},
	{Time: w.T0, StrictMft: false, Hash: true},
	{Time: w.T0, StrictMft: true, Hash: false},
	{Time: w.T0, StrictMft: true, Hash: true, StrictCMS: true},
}

func optName(o w.Opts) string {
	return fmt.Sprintf("mft=%v,hash=%v,cms=%v", o.StrictMft, o.Hash, o.StrictCMS)
}

// runWorld validates one world and compares with the reference model.
func runWorld(r *vk.Run, id string, build func() *w.World, o w.Opts, sp *spec) {
	if r.Skip(id) {
		return
	}
	x := build()
	e := x.Eval(o)
	files := x.Files()
	tal := x.TALBytes()
	r.Check(id, func() *vk.Fail {
		run := sp.run
		if run == nil {
			run = w.RunFiles
		}
		res := run(files, tal, o)
		r.Trans(res.Steps)
		r.Outcome(res.Summary())
		return judge(e, res, sp)
	})
	r.Traces(1)
	r.State(id)
}

func judge(e *w.Expect, res *w.Result, sp *spec) *vk.Fail {
	if sp.sound != nil {
		f := *e
		if k, d := w.DiffSound(&f, res, sp.sound); k != "" {
			return &vk.Fail{Key: k, Desc: d}
		}
	}
	if sp.complete {
		if k, d := w.Diff(e, res, false, true); k != "" {
			return &vk.Fail{Key: k, Desc: d}
		}
	}
	return nil
}

// explore enumerates 0, 1 and 2 deviations: every pair has at least one
// deviation of the property's own classes.
func explore(r *vk.Run, sp *spec) {
	type job struct {
		s Shape
		o w.Opts
		d []Dev
	}
	var jobs []job
	n0, n1, n2 := 0, 0, 0
	for pass := 0; pass <= 2; pass++ {
		for _, s := range sp.shapes {
			m := Menu(s)
			if pass == 2 && !r.Thorough() { // encodings of one fault: single deviations only
				var k []Dev
				for _, d := range m {
					if !strings.HasSuffix(d.Class, "x") {
						k = append(k, d)
					}
				}
				m = k
			}
			for oi, o := range sp.opts {
				switch pass {
				case 0:
					jobs = append(jobs, job{s, o, nil})
					n0++
				case 1:
					for _, d := range m {
						jobs = append(jobs, job{s, o, []Dev{d}})
						n1++
					}
				case 2:
					if oi > 0 && !r.Thorough() {
						continue
					}
					for i, d := range m {
						for j, e := range m {
							if j == i || (!sp.class[d.Class] && !sp.class[e.Class]) {
								continue
							}
							if j < i {
								continue
							}
							jobs = append(jobs, job{s, o, []Dev{d, e}})
							n2++
						}
					}
				}
			}
		}
	}
	r.Note("deviations0", n0)
	r.Note("deviations1", n1)
	r.Note("deviations2", n2)
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		id := j.s.Name + "/" + optName(j.o) + "/" + devNames(j.d)
		if i%997 == 0 {
			r.Sample(id)
		}
		runWorld(r, id, func() *w.World {
			x := j.s.Build()
			for _, d := range j.d {
				d.Apply(x)
			}
			return x
		}, j.o, sp)
	})
}

// namings are ways to name the files of a publication point.
var namings = []struct {
	n string
	f func(i int, base, ext string) string
}{
	{"one-letter", func(i int, b, e string) string { return string(rune('a'+i)) + e }},
	{"dots", func(i int, b, e string) string { return fmt.Sprintf("10.%d.0.0-16.%s%s", i, b, e) }},
	{"two-extensions", func(i int, b, e string) string { return b + ".cer" + e }},
	{"mixed", func(i int, b, e string) string { return fmt.Sprintf("-_%s_%d-%s", strings.ToUpper(b), i, e) }},
	{"long", func(i int, b, e string) string { return b + strings.Repeat("x", 200) + e }},
	{"extension-inside", func(i int, b, e string) string { return b + ".roa.mft.crl" + e }},
}

// rename gives every published file another name.
func rename(x *w.World, f func(i int, base, ext string) string) *w.World {
	i := 0
	x.Walk(func(c *w.CA) {
		nm := func(old string) string {
			i++
			k := strings.LastIndex(old, ".")
			return f(i, old[:k], old[k:])
		}
		c.MftFile = nm(c.MftFile)
		c.Cert.Mft = c.Dir + c.MftFile
		c.MftEE.SignedObj = c.Cert.Mft
		c.CrlFile = nm(c.CrlFile)
		c.MftEE.CRLDP = c.Dir + c.CrlFile
		for _, r := range c.Roas {
			r.File = nm(r.File)
			r.EE.SignedObj = c.Dir + r.File
			r.EE.CRLDP = c.Dir + c.CrlFile
		}
		for _, k := range c.Kids {
			k.File = nm(k.File)
			k.Cert.CRLDP = c.Dir + c.CrlFile
		}
	})
	return x
}
