package vhook

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

var ErrOutside = errors.New("verif: outside of the scratch directory")

// resolve returns the real place a path designates, following symbolic
// links of the parts that exist.
func resolve(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	for i := 0; i < 40; i++ {
		rest := ""
		x := a
		for {
			if fi, err := os.Lstat(x); err == nil {
				if fi.Mode()&os.ModeSymlink != 0 {
					t, err := os.Readlink(x)
					if err != nil {
						return a
					}
					if !filepath.IsAbs(t) {
						t = filepath.Join(filepath.Dir(x), t)
					}
					a = filepath.Join(t, rest)
					break
				}
				if e, err := filepath.EvalSymlinks(x); err == nil && e != x {
					a = filepath.Join(e, rest)
					return a
				}
				return a
			}
			if x == "/" {
				return a
			}
			rest = filepath.Join(filepath.Base(x), rest)
			x = filepath.Dir(x)
		}
	}
	return a
}

func within(p, root string) bool { return p == root || strings.HasPrefix(p, root+"/") }

// enter records an operation. refused: do not perform it. torn: the process
// dies during it.
func enter(kind, path string, n int, read bool) (r *Run, err error, torn bool) {
	r = get()
	if r == nil {
		return nil, nil, false
	}
	real := resolve(path)
	if r.Base != "" && strings.HasPrefix(real, r.Base+"/r") && !within(real, r.Root) {
		if d := strings.SplitN(strings.TrimPrefix(real, r.Base+"/r"), "/", 2)[0]; d != "" && strings.Trim(d, "0123456789") == "" {
			runtime.Goexit() // left over from an earlier run
		}
	}
	r.mu.Lock()
	if r.frozen {
		r.mu.Unlock()
		runtime.Goexit()
	}
	op := Op{Kind: kind, Path: real, N: n, Read: read, Out: !within(real, r.Root)}
	if op.Out && read && (within(real, "/usr") || within(real, "/etc") || within(real, "/proc")) && !strings.Contains(path, "..") && !within(path, r.Root) {
		// libraries looking for configuration
	} else {
		r.Ops = append(r.Ops, op)
	}
	if op.Out {
		r.mu.Unlock()
		return r, &fs.PathError{Op: kind, Path: path, Err: ErrOutside}, false
	}
	if !read {
		if r.CrashAt == r.muts {
			torn = true
			r.frozen = true
		}
		r.muts++
	}
	f := r.FailAt
	r.mu.Unlock()
	if f != nil {
		if e := f(kind, real); e != nil {
			return r, e, torn
		}
	}
	return r, nil, torn
}

func (r *Run) crash() {
	r.Kill()
	r.mu.Lock()
	select {
	case <-r.Crashed:
	default:
		close(r.Crashed)
	}
	r.mu.Unlock()
	runtime.Goexit()
}

func tornLen(t, n int) int {
	switch t {
	case 1:
		return 0
	case 2:
		return n / 2
	case 3:
		if n > 0 {
			return n - 1
		}
	}
	return n
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	r, err, torn := enter("write", name, len(data), false)
	if err != nil {
		return err
	}
	if torn {
		if r.Torn > 0 {
			os.WriteFile(name, data[:tornLen(r.Torn, len(data))], perm)
		}
		r.crash()
	}
	return os.WriteFile(name, data, perm)
}
func simple(kind, path string, f func() error) error {
	r, err, torn := enter(kind, path, 0, false)
	if err != nil {
		return err
	}
	if torn {
		if r.Torn >= 4 {
			f()
		}
		r.crash()
	}
	return f()
}
func MkdirAll(p string, m fs.FileMode) error {
	if fi, err := os.Stat(p); err == nil && fi.IsDir() {
		_, err, _ := enter("mkdir", p, 0, true)
		return err
	}
	return simple("mkdir", p, func() error { return os.MkdirAll(p, m) })
}
func Mkdir(p string, m fs.FileMode) error {
	return simple("mkdir", p, func() error { return os.Mkdir(p, m) })
}
func Remove(p string) error { return simple("remove", p, func() error { return os.Remove(p) }) }
func RemoveAll(p string) error {
	return simple("removeall", p, func() error { return os.RemoveAll(p) })
}
func Rename(a, b string) error {
	if _, err, _ := enter("renamefrom", a, 0, true); err != nil {
		return err
	}
	return simple("rename", b, func() error { return os.Rename(a, b) })
}
func Symlink(a, b string) error {
	return simple("symlink", b, func() error { return os.Symlink(a, b) })
}
func Link(a, b string) error {
	if _, err, _ := enter("linkfrom", a, 0, true); err != nil {
		return err
	}
	return simple("link", b, func() error { return os.Link(a, b) })
}
func Truncate(p string, n int64) error {
	return simple("truncate", p, func() error { return os.Truncate(p, n) })
}
func Chmod(p string, m fs.FileMode) error {
	return simple("chmod", p, func() error { return os.Chmod(p, m) })
}

func rd(kind, p string) error { _, err, _ := enter(kind, p, 0, true); return err }

func ReadFile(p string) ([]byte, error) {
	if err := rd("read", p); err != nil {
		return nil, err
	}
	return os.ReadFile(p)
}
func ReadDir(p string) ([]fs.DirEntry, error) {
	if err := rd("readdir", p); err != nil {
		return nil, err
	}
	return os.ReadDir(p)
}
func IoutilReadDir(p string) ([]fs.FileInfo, error) {
	l, err := ReadDir(p)
	if err != nil {
		return nil, err
	}
	out := make([]fs.FileInfo, 0, len(l))
	for _, e := range l {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	return out, nil
}
func Stat(p string) (fs.FileInfo, error) {
	if err := rd("stat", p); err != nil {
		return nil, err
	}
	return os.Stat(p)
}
func Lstat(p string) (fs.FileInfo, error) {
	if err := rd("stat", filepath.Dir(p)); err != nil {
		return nil, err
	}
	return os.Lstat(p)
}

// File stands in for os.File.
type File struct {
	*os.File
}

func OpenFile(p string, flag int, perm fs.FileMode) (*File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return Open(p)
	}
	r, err, torn := enter("open", p, 0, false)
	if err != nil {
		return nil, err
	}
	if torn {
		if r.Torn > 0 {
			if f, err := os.OpenFile(p, flag, perm); err == nil {
				f.Close()
			}
		}
		r.crash()
	}
	f, err := os.OpenFile(p, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}
func Create(p string) (*File, error) { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func Open(p string) (*File, error) {
	if err := rd("read", p); err != nil {
		return nil, err
	}
	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

// Raw variants for when the type os.File cannot be replaced.
func RawOpenFile(p string, flag int, perm fs.FileMode) (*os.File, error) {
	f, err := OpenFile(p, flag, perm)
	if err != nil {
		return nil, err
	}
	return f.File, nil
}
func RawCreate(p string) (*os.File, error) {
	return RawOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func RawOpen(p string) (*os.File, error) { return RawOpenFile(p, os.O_RDONLY, 0) }
func CreateTemp(dir, pat string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	r, err, torn := enter("createtemp", dir, 0, false)
	if err != nil {
		return nil, err
	}
	if torn {
		r.crash()
	}
	f, err := os.CreateTemp(dir, pat)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}
func RawCreateTemp(dir, pat string) (*os.File, error) {
	f, err := CreateTemp(dir, pat)
	if err != nil {
		return nil, err
	}
	return f.File, nil
}
func MkdirTemp(dir, pat string) (string, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	r, err, torn := enter("mkdirtemp", dir, 0, false)
	if err != nil {
		return "", err
	}
	if torn {
		r.crash()
	}
	return os.MkdirTemp(dir, pat)
}

func (f *File) Write(b []byte) (int, error) {
	r, err, torn := enter("filewrite", f.Name(), len(b), false)
	if err != nil {
		return 0, err
	}
	if torn {
		if r.Torn > 0 {
			f.File.Write(b[:tornLen(r.Torn, len(b))])
		}
		r.crash()
	}
	return f.File.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadFrom(rd io.Reader) (int64, error) {
	b, err := io.ReadAll(rd)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}
func (f *File) Truncate(n int64) error {
	return simple("filetruncate", f.Name(), func() error { return f.File.Truncate(n) })
}

// Exit stands in for os.Exit.
func Exit(c int) {
	if r := get(); r != nil {
		if OnExit != nil {
			OnExit(c)
		}
		r.Kill()
		runtime.Goexit()
	}
	os.Exit(c)
}

// OnExit is told about exits.
var OnExit func(int)
