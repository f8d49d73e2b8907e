package hocto

import (
	"os"
	"sort"
)

// The real rsync, with a daemon of its own per host that is started for each
// connection and serves directories of the scratch directory.

// rsyncd sets what the rsync server of a host serves: module -> directory.
func (e *Env) rsyncd(host string, modules map[string]string) {
	os.MkdirAll(e.Dir+"/rsyncd", 0755)
	conf := "uid = 0\ngid = 0\nuse chroot = no\nlog file=/dev/null\nmunge symlinks = no\nreverse lookup = no\n"
	var ms []string
	for m := range modules {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		conf += "[" + m + "]\npath=" + modules[m] + "\nread only = yes\n"
	}
	os.WriteFile(e.Dir+"/rsyncd/"+host, []byte(conf), 0644)
}

// rsyncConnect is the value of RSYNC_CONNECT_PROG.
func (e *Env) rsyncConnect(bin string) string {
	return bin + " --server --daemon --config=" + e.Dir + "/rsyncd/%H ."
}
