// Package sos stands in for package os: files live on the simulated disk.
package sos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"ecksbee.com/telefacts/vsim"
)

type (
	FileInfo = fs.FileInfo
	FileMode = fs.FileMode
	DirEntry = fs.DirEntry
)

// Env is the simulated environment.
var Env = map[string]string{}

type File struct {
	h    *vsim.Handle
	name string
	list []*vsim.FileInfo
	read bool
	real *os.File
}

var (
	Stdin  = &File{real: os.Stdin, name: "/dev/stdin"}
	Stdout = &File{real: os.Stdout, name: "/dev/stdout"}
	Stderr = &File{real: os.Stderr, name: "/dev/stderr"}
)

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

func Getenv(k string) string            { return Env[k] }
func LookupEnv(k string) (string, bool) { v, ok := Env[k]; return v, ok }
func Setenv(k, v string) error          { Env[k] = v; return nil }
func Unsetenv(k string) error           { delete(Env, k); return nil }
func Getwd() (string, error)            { return vsim.FSGetwd(), nil }
func Chdir(d string) error              { return perr("chdir", d, vsim.FSPath("chdir", d, "", 0, 0)) }
func Exit(code int)                     { vsim.ProcExit(code) }
func TempDir() string                   { return "/tmp" }
func Hostname() (string, error)         { return "sim", nil }
func Getpid() int                       { return 4242 }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*vsim.FileInfo)
	y, ok2 := b.(*vsim.FileInfo)
	return ok1 && ok2 && x.Same(y)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := vsim.FSOpen(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{h: h, name: name}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Stat(name string) (FileInfo, error) {
	i, err := vsim.FSStat(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return i, nil
}

func Lstat(name string) (FileInfo, error) {
	i, err := vsim.FSStat(name)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return i, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return readAll(f)
}

func readAll(f *File) ([]byte, error) {
	data := make([]byte, 0, 512)
	for {
		b, err := f.h.ReadFresh(1 << 20)
		data = append(data, b...)
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, perr("read", f.name, err)
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	l, err := vsim.FSReadDir(name)
	out := make([]DirEntry, 0, len(l))
	for _, i := range l {
		out = append(out, i)
	}
	if err != nil {
		return out, perr("open", name, err)
	}
	return out, nil
}

func Mkdir(name string, perm FileMode) error {
	return perr("mkdir", name, vsim.FSPath("mkdir", name, "", perm, 0))
}

func MkdirAll(name string, perm FileMode) error {
	if i, err := vsim.FSStat(name); err == nil {
		if i.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(strings.TrimRight(name, "/")); d != name && d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil {
		if i, e := vsim.FSStat(name); e == nil && i.IsDir() {
			return nil
		}
	}
	return err
}

func Remove(name string) error { return perr("remove", name, vsim.FSPath("remove", name, "", 0, 0)) }

func RemoveAll(name string) error {
	i, err := vsim.FSStat(name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return perr("unlinkat", name, err)
	}
	if i.IsDir() {
		l, err := vsim.FSReadDir(name)
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return perr("unlinkat", name, err)
		}
		for _, k := range l {
			if err := RemoveAll(name + "/" + k.Name()); err != nil {
				return err
			}
		}
	}
	err = Remove(name)
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return err
}

func lerr(op, a, b string, err error) error {
	if err == nil {
		return nil
	}
	return &os.LinkError{Op: op, Old: a, New: b, Err: err}
}

func Rename(a, b string) error {
	// as the os package does, a directory is not replaced
	if fi, err := Lstat(b); err == nil && fi.IsDir() && a != b {
		if _, err := Lstat(a); err != nil {
			if pe, ok := err.(*os.PathError); ok {
				err = pe.Err
			}
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
		}
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	return lerr("rename", a, b, vsim.FSPath("rename", a, b, 0, 0))
}
func Link(a, b string) error { return lerr("link", a, b, vsim.FSPath("link", a, b, 0, 0)) }
func Symlink(a, b string) error {
	return lerr("symlink", a, b, syscall.EPERM)
}
func Readlink(a string) (string, error) { return "", perr("readlink", a, syscall.EINVAL) }
func Chmod(name string, m FileMode) error {
	return perr("chmod", name, vsim.FSPath("chmod", name, "", m, 0))
}
func Chown(name string, u, g int) error                   { return nil }
func Chtimes(name string, a time.Time, m time.Time) error { return nil }
func Truncate(name string, n int64) error {
	return perr("truncate", name, vsim.FSPath("truncate", name, "", 0, n))
}

var tempSeq int

//go:norace
func nextTemp() int { tempSeq++; return tempSeq }

// ResetTemp restarts the numbering of temporary files.
func ResetTemp() { tempSeq = 0 }

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	s := strconv.Itoa(100000 + nextTemp()*7919)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return dir + "/" + pattern[:i] + s + pattern[i+1:]
	}
	return dir + "/" + pattern + s
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for {
		n := tempName(dir, pattern)
		err := Mkdir(n, 0700)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		if err != nil {
			return "", err
		}
		return n, nil
	}
}

func (f *File) bad(op string) error {
	if f == nil || f.h == nil {
		return os.ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.real != nil {
		return f.real.Read(b)
	}
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	n, err := f.h.Read(b, -1)
	if err == io.EOF {
		return n, io.EOF
	}
	return n, perr("read", f.name, err)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	total := 0
	for total < len(b) {
		n, err := f.h.Read(b[total:], off+int64(total))
		total += n
		if err == io.EOF {
			return total, io.EOF
		}
		if err != nil {
			return total, perr("read", f.name, err)
		}
	}
	return total, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.real != nil {
		return f.real.Write(b)
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	n, err := f.h.Write(b, -1)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return n, perr("write", f.name, err)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	n, err := f.h.Write(b, off)
	return n, perr("write", f.name, err)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	n, err := f.h.Seek(off, whence)
	return n, perr("seek", f.name, err)
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.real != nil {
		return nil
	}
	if err := f.bad("close"); err != nil {
		return err
	}
	return perr("close", f.name, f.h.Op("close", 0))
}

func (f *File) Sync() error {
	if err := f.bad("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, f.h.Op("sync", 0))
}

func (f *File) Truncate(n int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, f.h.Op("truncate", n))
}

func (f *File) Chmod(m FileMode) error {
	if err := f.bad("chmod"); err != nil {
		return err
	}
	return Chmod(f.name, m)
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	i, err := f.h.Stat()
	if err != nil {
		return nil, perr("stat", f.name, err)
	}
	return i, nil
}

func (f *File) Fd() uintptr                   { return 9 }
func (f *File) SetDeadline(t time.Time) error { return nil }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	if !f.read {
		l, err := vsim.FSReadDir(f.name)
		if err != nil {
			var out []DirEntry
			for _, i := range l {
				out = append(out, i)
			}
			return out, perr("readdirent", f.name, err)
		}
		f.list, f.read = l, true
	}
	take := len(f.list)
	if n > 0 {
		if take == 0 {
			return nil, io.EOF
		}
		if n < take {
			take = n
		}
	}
	out := make([]DirEntry, 0, take)
	for _, i := range f.list[:take] {
		out = append(out, i)
	}
	f.list = f.list[take:]
	return out, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out, err
}

type dirFS string

// DirFS serves the simulated disk as an fs.FS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readfile", Path: name, Err: fs.ErrInvalid}
	}
	return ReadFile(string(d) + "/" + name)
}

func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrInvalid}
	}
	return ReadDir(string(d) + "/" + name)
}

func (d dirFS) Stat(name string) (FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrInvalid}
	}
	return Stat(string(d) + "/" + name)
}

func Environ() []string {
	var out []string
	for k, v := range Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Executable() (string, error)  { return "/app/telefacts", nil }
func UserHomeDir() (string, error) { return "/root", nil }

// Root is os.Root. The simulated disk has no symbolic links, so that a name leads outside only by
// its dots.
type Root struct {
	dir  string
	shut bool
}

func OpenRoot(dir string) (*Root, error) {
	i, err := Stat(dir)
	if err != nil {
		return nil, err
	}
	if !i.IsDir() {
		return nil, &fs.PathError{Op: "open", Path: dir, Err: syscall.ENOTDIR}
	}
	return &Root{dir: dir}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return r.Open(name)
}

func (r *Root) at(op, name string) (string, error) {
	if r.shut {
		return "", &fs.PathError{Op: op, Path: name, Err: os.ErrClosed}
	}
	if name == "" {
		return "", &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT}
	}
	deep := 0
	for i, part := range strings.Split(name, "/") {
		switch part {
		case "":
			if i == 0 {
				deep = -1
			}
		case ".":
		case "..":
			deep--
		default:
			deep++
		}
		if deep < 0 {
			return "", &fs.PathError{Op: op, Path: name, Err: errors.New("path escapes from parent")}
		}
	}
	return r.dir + "/" + name, nil
}

func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error { r.shut = true; return nil }
func (r *Root) FS() fs.FS    { return dirFS(r.dir) }

func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p, err := r.at("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}

func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, os.O_RDONLY, 0) }

func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (r *Root) OpenRoot(name string) (*Root, error) {
	p, err := r.at("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenRoot(p)
}

func (r *Root) Stat(name string) (FileInfo, error) {
	p, err := r.at("statat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

func (r *Root) Lstat(name string) (FileInfo, error) { return r.Stat(name) }

func (r *Root) ReadFile(name string) ([]byte, error) {
	p, err := r.at("openat", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (r *Root) WriteFile(name string, data []byte, perm FileMode) error {
	p, err := r.at("openat", name)
	if err != nil {
		return err
	}
	return WriteFile(p, data, perm)
}

func (r *Root) Mkdir(name string, perm FileMode) error {
	p, err := r.at("mkdirat", name)
	if err != nil {
		return err
	}
	return Mkdir(p, perm)
}

func (r *Root) MkdirAll(name string, perm FileMode) error {
	p, err := r.at("mkdirat", name)
	if err != nil {
		return err
	}
	return MkdirAll(p, perm)
}

func (r *Root) Remove(name string) error {
	p, err := r.at("unlinkat", name)
	if err != nil {
		return err
	}
	return Remove(p)
}

func (r *Root) RemoveAll(name string) error {
	p, err := r.at("unlinkat", name)
	if err != nil {
		return err
	}
	return RemoveAll(p)
}

func (r *Root) Rename(a, b string) error {
	p, err := r.at("renameat", a)
	if err != nil {
		return err
	}
	q, err := r.at("renameat", b)
	if err != nil {
		return err
	}
	return Rename(p, q)
}
