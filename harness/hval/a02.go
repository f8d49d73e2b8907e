package main

import (
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
)

func has(subs ...string) func(string) bool {
	return func(why string) bool {
		for _, s := range subs {
			if strings.Contains(why, s) {
				return true
			}
		}
		return false
	}
}

var allShapes = []Shape{s1, s3, s2, s4}

func init() {
	checks["A02"] = func(r *vk.Run) {
		r.Rule = "0,1,2-deviation worlds over shapes S1..S4; a case is distinct by its deviation set, shape and options; every case runs the real validator and is compared object by object with the reference model"
		explore(r, &spec{class: map[string]bool{"a02": true}, shapes: allShapes, opts: optsAll,
			sound: has("bad signature", "issuer is not a CA", "authority key", "validity period", "TA key", "ROA signature", "manifest signature", "unknown")})
	}
	checks["A04"] = func(r *vk.Run) {
		r.Rule = "as A02, deviations of publication points (missing, altered, unlisted, stale, dangling)"
		explore(r, &spec{class: map[string]bool{"a04": true}, shapes: []Shape{s1, s3}, opts: optsAll, complete: true,
			sound: has("listed file", "hash", "manifest not current", "not listed", "file missing", "manifest missing", "manifest signature", "unknown")})
	}
}
