package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	"github.com/cloudflare/cfrpki/zzverif/vk"
)

// B06: the rsync runner against a program whose output and exit code are
// enumerated.

type rsyncLine struct {
	text    string
	file    string // "": not a listed RPKI file
	deleted bool
}

func rsyncLines() []rsyncLine {
	l := []rsyncLine{
		{"receiving incremental file list", "", false},
		{"", "", false},
		{"sent 43 bytes  received 1,192 bytes  823.33 bytes/sec", "", false},
		{"sub/", "", false},
		{"deleting sub/", "", false},
		{"deleting old.txt", "", false},
		{"readme.txt", "", false},
		{"x.roa.tmp", "", false},
		{"xroa", "", false},
		{"a b.roa", "a b.roa", false},
		{"sub/deeper/x.mft", "sub/deeper/x.mft", false},
		{"deleting sub/old.roa", "sub/old.roa", true},
		{"deleting old.cer", "old.cer", true},
		{"undeleting.crl", "undeleting.crl", false},
	}
	for _, e := range []string{"cer", "mft", "crl", "roa", "gbr"} {
		l = append(l, rsyncLine{"f." + e, "f." + e, false})
	}
	return l
}

func init() {
	checks["B06"] = func(r *vk.Run) {
		r.Rule = "every output of up to 2 (3) lines from a menu (files of every extension, deletions, directories, statistics, foreign files, empty lines), lines of 1 byte up to several pipe buffers on either stream, every form of line ending, exit codes and signals, URI forms, expired contexts; a stand-in program prints them"
		root, err := os.MkdirTemp("", "vkb06")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		bin := filepath.Join(root, "rsync")
		os.WriteFile(bin, []byte("#!/bin/sh\nfor d; do :; done\n. \"$d/../spec\"\n"), 0755)
		n := int64(0)
		type uriCase struct{ uri, base string }
		uris := []uriCase{{"rsync://h/m", "rsync://h/m"}, {"rsync://h/m/", "rsync://h/m"}, {"rsync://h/m/dir", "rsync://h/m"}, {"rsync://h/m/dir/", "rsync://h/m/dir"}, {"rsync://h:8730/m/a/ta.cer", "rsync://h:8730/m/a"}, {"rsync://h/m/a/b/", "rsync://h/m/a/b"}}
		type kase struct {
			id     string
			out    string
			script string
			uri    uriCase
			lines  []rsyncLine
			fail   bool
			ctx    time.Duration
			dead   bool // the context ends the run
		}
		var cases []kase
		lines := rsyncLines()
		const cat = "cat \"$d/../out\"\n"
		add := func(seq []int, uc uriCase, end string, last bool, code string) {
			var ls []rsyncLine
			var t []string
			for _, i := range seq {
				ls = append(ls, lines[i])
				t = append(t, lines[i].text)
			}
			out := strings.Join(t, end)
			if last && len(t) > 0 {
				out += end
			}
			cases = append(cases, kase{fmt.Sprintf("lines/%v/%s/%q/%v/%s", seq, uc.uri, end, last, code), out, cat + code, uc, ls, code != "exit 0" && code != "", 0, false})
		}
		codes := []string{"exit 0", "exit 23"}
		all := []string{"exit 0", "exit 1", "exit 10", "exit 23", "exit 24", "exit 30", "exit 255", "kill -9 $$", "kill -15 $$"}
		for _, uc := range uris {
			add(nil, uc, "\n", true, "exit 0")
			for i := range lines {
				for _, e := range []string{"\n", "\r\n"} {
					for _, l := range []bool{true, false} {
						add([]int{i}, uc, e, l, "exit 0")
					}
				}
				for _, c := range all {
					add([]int{i}, uc, "\n", true, c)
				}
			}
		}
		for i := range lines {
			for j := range lines {
				for k, c := range codes {
					add([]int{i, j}, uris[(i+j+k)%len(uris)], "\n", (i+k)%2 == 0, c)
				}
				if r.Thorough() {
					for k := range lines {
						add([]int{i, j, k}, uris[(i+j+k)%len(uris)], "\n", true, "exit 0")
					}
				}
			}
		}
		// lengths around buffer sizes, on both streams
		for _, n := range []int{1, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 300000, 1 << 20} {
			long := strings.Repeat("x", n)
			for _, sfx := range []string{"", ".roa"} {
				f := rsyncLine{text: long + sfx}
				if sfx != "" {
					f.file = f.text
				}
				ls := []rsyncLine{lines[14], f, lines[15]}
				for _, code := range codes {
					cases = append(cases, kase{fmt.Sprintf("long/%d/%s/%s", n, sfx, code), "f.cer\n" + f.text + "\nf.mft\n", cat + code, uris[0], ls, code != "exit 0", 0, false})
				}
			}
			for _, code := range codes {
				cases = append(cases, kase{fmt.Sprintf("longerr/%d/%s", n, code), "f.cer\nf.mft\n", "tr '\\0' 'e' </dev/zero | head -c " + fmt.Sprint(n) + " >&2\necho >&2\n" + cat + "echo more >&2\n" + code, uris[0], []rsyncLine{lines[14], lines[15]}, code != "exit 0", 0, false})
				cases = append(cases, kase{fmt.Sprintf("manyerr/%d/%s", n, code), "f.cer\nf.mft\n", "yes error | head -c " + fmt.Sprint(n) + " >&2\n" + cat + code, uris[0], []rsyncLine{lines[14], lines[15]}, code != "exit 0", 0, false})
			}
		}
		// closed streams
		for _, c := range []string{"exec >&-\n", "exec 2>&-\n", "exec >&- 2>&-\n"} {
			cases = append(cases, kase{"closed/" + c, "f.cer\n", cat + c + "exit 0", uris[0], []rsyncLine{lines[14]}, false, 0, false})
			cases = append(cases, kase{"closedfail/" + c, "f.cer\n", cat + c + "exit 5", uris[0], []rsyncLine{lines[14]}, true, 0, false})
		}
		// the context ends
		cases = append(cases, kase{"timeout/0", "f.cer\n", cat + "exec sleep 600", uris[0], nil, true, 300 * time.Millisecond, true})
		cases = append(cases, kase{"timeout/1", "", "exec sleep 600", uris[0], nil, true, 100 * time.Millisecond, true})
		cases = append(cases, kase{"timeout/2", "", "exec yes f.cer", uris[0], nil, true, 300 * time.Millisecond, true})
		r.Note("programs", len(cases))
		r.Parallel(len(cases), func(i int) {
			c := cases[i]
			if r.Skip(c.id) {
				return
			}
			dir := filepath.Join(root, fmt.Sprint(i), "dst")
			os.MkdirAll(dir, 0755)
			os.WriteFile(filepath.Join(dir, "..", "out"), []byte(c.out), 0644)
			os.WriteFile(filepath.Join(dir, "..", "spec"), []byte(c.script+"\n"), 0644)
			defer os.RemoveAll(filepath.Join(root, fmt.Sprint(i)))
			n++
			r.State(c.id)
			r.Check(c.id, func() *vk.Fail {
				limit := c.ctx
				if limit == 0 {
					limit = 60 * time.Second
				}
				ctx, cancel := context.WithTimeout(context.Background(), limit)
				defer cancel()
				files, err := syncpki.RunRsync(ctx, c.uri.uri, bin, dir)
				r.Trans(len(c.lines))
				r.Outcome(fmt.Sprint(err != nil, len(files)))
				if !c.dead && ctx.Err() != nil {
					return vk.Failf("the run did not end with rsync", "%s", c.id)
				}
				if c.fail {
					if err == nil {
						return vk.Failf("failed rsync reported as success", "%s", c.id)
					}
					return nil
				}
				if err != nil {
					return vk.Failf("good rsync run reported as failed", "%s: %v", c.id, err)
				}
				var want, got []string
				for _, l := range c.lines {
					if l.file != "" {
						want = append(want, fmt.Sprintf("%s/%s %v", c.uri.base, l.file, l.deleted))
					}
				}
				for _, f := range files {
					got = append(got, fmt.Sprintf("%s %v", f.Path, f.Deleted))
				}
				if a, b := strings.Join(want, "\n"), strings.Join(got, "\n"); a != b {
					if len(a) > 300 {
						a = a[:300]
					}
					if len(b) > 300 {
						b = b[:300]
					}
					return vk.Failf("listed files", "%s: got %q, want %q", c.id, b, a)
				}
				return nil
			})
			r.Traces(1)
		})
		for _, u := range []string{"", "rsync:/", "http://h/m", "/etc", "-e sh", "rsync:/h/m/a/b", "h::m"} {
			u := u
			r.Check("uri/"+u, func() *vk.Fail {
				d := filepath.Join(root, "u", "dst")
				os.MkdirAll(d, 0755)
				os.WriteFile(filepath.Join(d, "..", "spec"), []byte("exit 0\n"), 0644)
				_, err := syncpki.RunRsync(context.Background(), u, bin, d)
				if err == nil {
					return vk.Failf("rsync run on something else than an rsync URI", "%q", u)
				}
				return nil
			})
		}
		for _, b := range []string{"", "/nonexistent/rsync", root} {
			b := b
			r.Check("bin/"+b, func() *vk.Fail {
				if _, err := syncpki.RunRsync(context.Background(), "rsync://h/m", b, filepath.Join(root, "nobin")); err == nil {
					return vk.Failf("missing rsync program reported as success", "%q", b)
				}
				return nil
			})
		}
	}
}
