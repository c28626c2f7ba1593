package vsim

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated disk. It survives a simulated crash of the process; open handles do not.
type FS struct {
	w     *World
	root  *inode
	Cwd   string
	NOps  int            // disk operations performed by the program
	Reads map[string]int // opens for reading, by path
	// Touched counts the operations by kind and path, as the kernel resolves it, once it is made.
	Touched map[[2]string]int
	Handles int // files that are open
}

type inode struct {
	dir   bool
	mode  fs.FileMode
	data  []byte
	kids  map[string]*inode
	mtime int64
	nlink int
}

// Fault is one injected fault: the disk operation it hit and what happened.
type Fault struct {
	Op   int    `json:"op"`
	Kind string `json:"kind"`
	On   string `json:"on,omitempty"`
	Path string `json:"path,omitempty"`
	Arg  uint64 `json:"arg,omitempty"`
}

// Fault kinds and the operations they can hit.
//
//	eio, eacces, emfile, eintr  an operation fails with that error and has no effect
//	enospc                      creating or writing fails; a write may have stored a prefix
//	short                       a read returns fewer bytes than available (legal; callers must loop)
//	eioread                     a read fails after part of the data was returned
//	torn                        a write stores a prefix and fails
//	closeerr                    close fails and the data written through the handle is lost
//	stall                       the operation takes simulated seconds
//	crash                       the process dies before the operation takes effect
//	crashafter                  the process dies right after the operation took effect
//	crashtorn                   the process dies when a prefix of a write has been stored
var faultOps = map[string][]string{
	"eio":        {"open", "stat", "readdir", "mkdir", "rename", "remove", "truncate", "sync", "chmod"},
	"eacces":     {"open", "readdir", "mkdir", "rename", "remove", "stat"},
	"emfile":     {"open", "readdir"},
	"enospc":     {"create", "mkdir", "write", "rename"},
	"short":      {"read"},
	"eioread":    {"read"},
	"torn":       {"write"},
	"eiowrite":   {"write"},
	"closeerr":   {"closew"},
	"stall":      {"open", "stat", "readdir", "read", "write", "mkdir", "rename", "closew"},
	"crash":      {"open", "create", "stat", "readdir", "read", "write", "mkdir", "rename", "remove", "closew", "closer", "sync"},
	"crashafter": {"open", "create", "stat", "readdir", "read", "write", "mkdir", "rename", "remove", "closew", "closer", "sync"},
	"crashtorn":  {"write"},
}

type FSReq struct {
	op    string
	path  string
	path2 string
	flag  int
	perm  fs.FileMode
	h     *handle
	data  []byte
	n     int
	off   int64
	wh    int

	err  error
	rn   int
	ri   *FileInfo
	rl   []*FileInfo
	rh   *handle
	rd   []byte
	roff int64
}

type handle struct {
	node   *inode
	path   string
	flag   int
	off    int64
	closed bool
	wrote  bool
	before []byte
	lost   bool
	dirpos int
}

type FileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	node  *inode
}

func (i *FileInfo) Name() string               { return i.name }
func (i *FileInfo) Size() int64                { return i.size }
func (i *FileInfo) Mode() fs.FileMode          { return i.mode }
func (i *FileInfo) ModTime() time.Time         { return time.Unix(0, i.mtime).UTC() }
func (i *FileInfo) IsDir() bool                { return i.mode.IsDir() }
func (i *FileInfo) Sys() any                   { return nil }
func (i *FileInfo) Type() fs.FileMode          { return i.mode.Type() }
func (i *FileInfo) Info() (fs.FileInfo, error) { return i, nil }
func (i *FileInfo) String() string             { return fs.FormatFileInfo(i) }
func (i *FileInfo) Same(j *FileInfo) bool      { return i.node == j.node }

func newFS(w *World) *FS {
	return &FS{w: w, root: &inode{dir: true, mode: fs.ModeDir | 0755, kids: map[string]*inode{}}, Cwd: "/app", Reads: map[string]int{}}
}

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return p
}

// walk resolves p component by component as the kernel does.
func (f *FS) walk(p string) (*inode, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, syscall.EINVAL
	}
	p = f.abs(p)
	stack := []*inode{f.root}
	mustDir := strings.HasSuffix(p, "/")
	for _, c := range strings.Split(p, "/") {
		if c == "" || c == "." {
			if !stack[len(stack)-1].dir {
				return nil, syscall.ENOTDIR
			}
			continue
		}
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		n := stack[len(stack)-1]
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		k := n.kids[c]
		if k == nil {
			return nil, syscall.ENOENT
		}
		stack = append(stack, k)
	}
	n := stack[len(stack)-1]
	if mustDir && !n.dir {
		return nil, syscall.ENOTDIR
	}
	return n, nil
}

func (f *FS) parent(p string) (*inode, string, error) {
	if p == "" {
		return nil, "", syscall.ENOENT
	}
	p = strings.TrimRight(f.abs(p), "/")
	i := strings.LastIndexByte(p, '/')
	base := p[i+1:]
	if base == "" || base == "." || base == ".." {
		return nil, "", syscall.EEXIST
	}
	if len(base) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	d, err := f.walk(p[:i+1])
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, base, nil
}

// Driver-side access, without faults or scheduling.

func (f *FS) Put(p string, data []byte) {
	f.PutDir(path.Dir(p))
	d, b, err := f.parent(p)
	if err != nil {
		panic(err)
	}
	d.kids[b] = &inode{mode: 0644, data: append([]byte(nil), data...), mtime: f.w.Now, nlink: 1}
}

func (f *FS) PutDir(p string) {
	n := f.root
	for _, c := range strings.Split(f.abs(p), "/") {
		if c == "" || c == "." {
			continue
		}
		k := n.kids[c]
		if k == nil {
			k = &inode{dir: true, mode: fs.ModeDir | 0755, kids: map[string]*inode{}}
			n.kids[c] = k
		}
		n = k
	}
}

func (f *FS) Delete(p string) {
	if d, b, err := f.parent(p); err == nil {
		delete(d.kids, b)
	}
}

func (f *FS) Get(p string) ([]byte, bool) {
	n, err := f.walk(p)
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

func (f *FS) Exists(p string) bool { _, err := f.walk(p); return err == nil }

func (f *FS) List(p string) []string {
	n, err := f.walk(p)
	if err != nil || !n.dir {
		return nil
	}
	var out []string
	for k := range n.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// IsDirPath tells whether p names a directory.
func (f *FS) IsDirPath(p string) bool { n, err := f.walk(p); return err == nil && n.dir }

// CopyFrom makes f hold the same files as g.
func (f *FS) CopyFrom(g *FS) { f.root = cloneNode(g.root); f.Cwd = g.Cwd }

func cloneNode(n *inode) *inode {
	c := *n
	if n.dir {
		c.kids = make(map[string]*inode, len(n.kids))
		for k, v := range n.kids {
			c.kids[k] = cloneNode(v)
		}
	} else {
		c.data = append([]byte(nil), n.data...)
	}
	return &c
}

func info(name string, n *inode) *FileInfo {
	return &FileInfo{name: name, size: int64(len(n.data)), mode: n.mode, mtime: n.mtime, node: n}
}

const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oCREAT  = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
	oAPPEND = syscall.O_APPEND
)

// faultClass names the operation for fault selection.
func faultClass(q *FSReq) string {
	switch q.op {
	case "open":
		if q.flag&oCREAT != 0 {
			return "create"
		}
		return "open"
	case "close":
		if q.h != nil && q.h.flag&(oWRONLY|oRDWR) != 0 {
			return "closew"
		}
		return "closer"
	}
	return q.op
}

func (w *World) pickFault(q *FSReq, op int) (Fault, bool) {
	if w.faultsOff {
		return Fault{}, false
	}
	if w.pol.Replay != nil {
		f, ok := w.replayFl[op]
		return f, ok
	}
	p := q.path
	if q.h != nil && p == "" {
		p = q.h.path
	}
	cls := faultClass(q)
	if w.pol.CrashAt > 0 && op == w.pol.CrashAt {
		kind := "crash"
		if cls == "write" && w.frng.Chance(0.5) {
			kind = "crashtorn"
		} else if w.frng.Chance(0.5) {
			kind = "crashafter"
		}
		return Fault{Op: op, Kind: kind, On: cls, Path: p, Arg: w.frng.U64() >> 40}, true
	}
	if w.pol.FaultRate <= 0 || len(w.pol.FaultKinds) == 0 || w.nFaults >= w.pol.FaultMax {
		return Fault{}, false
	}
	if w.pol.FaultPath != nil && !w.pol.FaultPath(cls, p) {
		return Fault{}, false
	}
	if !w.frng.Chance(w.pol.FaultRate) {
		return Fault{}, false
	}
	var can []string
	for _, k := range w.pol.FaultKinds {
		for _, c := range faultOps[k] {
			if c == cls || c == "open" && cls == "create" {
				can = append(can, k)
				break
			}
		}
	}
	if len(can) == 0 {
		return Fault{}, false
	}
	return Fault{Op: op, Kind: can[w.frng.Intn(len(can))], On: cls, Path: p, Arg: w.frng.U64() >> 40}, true
}

func errnoOf(kind string) error {
	switch kind {
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "enospc":
		return syscall.ENOSPC
	}
	return syscall.EIO
}

// fsPerform carries out the disk operation of t; it returns true when t has to wait.
func (w *World) fsPerform(t *Task) bool {
	q := t.fsq
	f := w.FS
	if q.wh == 1 { // second half of a stalled operation
		f.apply(q)
		return false
	}
	f.NOps++
	op := f.NOps
	p := q.path
	if p == "" && q.h != nil {
		p = q.h.path
	}
	w.event(t, "fs "+q.op+" "+p, uint64(op))
	f.touch(q)
	flt, hit := w.pickFault(q, op)
	if hit {
		hit = w.applicable(q, flt)
	}
	if !hit {
		f.apply(q)
		return false
	}
	w.nFaults++
	w.FaultsHit[flt.Kind]++
	w.FaultedPaths = append(w.FaultedPaths, flt)
	w.rec.Faults = append(w.rec.Faults, flt)
	w.SchedHash = mix(mix(w.SchedHash, hashStr(flt.Kind)), uint64(op))
	w.note("fault %s on %s %s", flt.Kind, q.op, p)
	q.err = nil
	switch flt.Kind {
	case "stall":
		q.wh = 1
		t.op = opSleep
		t.stalled = true
		d := time.Duration(1+flt.Arg%40) * time.Second
		if flt.Arg>>6&1 == 1 {
			d = time.Duration(10+flt.Arg>>7%6000) * time.Millisecond
		}
		t.wakeAt = w.Now + int64(d)
		return true
	case "short":
		if q.n > 1 {
			q.n = 1 + int(flt.Arg)%(q.n-1)
		}
		f.apply(q)
		if q.rn > 1 {
			cut := 1 + int(flt.Arg)%q.rn
			q.h.off -= int64(q.rn - cut)
			q.rn = cut
			q.rd = q.rd[:cut]
		}
	case "eioread":
		f.apply(q)
		if q.rn > 0 {
			cut := int(flt.Arg) % q.rn
			q.h.off -= int64(q.rn - cut)
			q.rn = cut
			q.rd = q.rd[:cut]
		}
		q.err = syscall.EIO
	case "torn", "eiowrite", "enospc":
		if q.op == "write" {
			k := 0
			if flt.Kind != "eiowrite" && len(q.data) > 0 {
				k = int(flt.Arg) % len(q.data)
			}
			q.data = q.data[:k]
			f.apply(q)
			if flt.Kind == "enospc" {
				q.err = syscall.ENOSPC
			} else {
				q.err = syscall.EIO
			}
			q.rn = k
		} else {
			q.err = syscall.ENOSPC
		}
	case "closeerr":
		f.apply(q)
		if q.h.wrote {
			q.h.node.data = q.h.before
		}
		q.err = syscall.EIO
	case "crash":
		w.crashed = true
		w.end(EndCrash)
	case "crashafter":
		f.apply(q)
		w.crashed = true
		w.end(EndCrash)
	case "crashtorn":
		if len(q.data) > 0 {
			q.data = q.data[:int(flt.Arg)%len(q.data)]
		}
		f.apply(q)
		w.crashed = true
		w.end(EndCrash)
	default:
		if q.op == "readdir" && flt.Kind == "eio" {
			f.apply(q) // the failure may come after some of the names
			if len(q.rl) > 0 {
				q.rl = q.rl[:int(flt.Arg)%len(q.rl)]
			}
		}
		q.err = errnoOf(flt.Kind)
	}
	return false
}

func (f *FS) touch(q *FSReq) {
	if q.path == "" || f.Touched == nil {
		return
	}
	op := q.op
	if op == "open" && q.flag&(oWRONLY|oRDWR|oCREAT|oTRUNC) != 0 {
		op = "openw"
	}
	f.Touched[[2]string{op, path.Clean(f.abs(q.path))}]++
	if q.path2 != "" {
		f.Touched[[2]string{op, path.Clean(f.abs(q.path2))}]++
	}
}

// Walk lists every file with its content.
func (f *FS) Walk(each func(path string, data []byte)) {
	var down func(p string, n *inode)
	down = func(p string, n *inode) {
		if !n.dir {
			each(p, n.data)
			return
		}
		for _, k := range f.List(p + "/") {
			down(p+"/"+k, n.kids[k])
		}
	}
	down("", f.root)
}

func (w *World) applicable(q *FSReq, flt Fault) bool {
	cls := faultClass(q)
	for _, c := range faultOps[flt.Kind] {
		if c == cls || c == "open" && cls == "create" {
			return true
		}
	}
	return false
}

func (f *FS) apply(q *FSReq) {
	q.err = nil
	switch q.op {
	case "stat":
		n, err := f.walk(q.path)
		if err != nil {
			q.err = err
			return
		}
		q.ri = info(path.Base(q.path), n)
	case "fstat":
		if q.h.closed {
			q.err = fs.ErrClosed
			return
		}
		q.ri = info(path.Base(q.h.path), q.h.node)
	case "open":
		n, err := f.walk(q.path)
		if err == syscall.ENOENT && q.flag&oCREAT != 0 {
			d, b, perr := f.parent(q.path)
			if perr != nil {
				q.err = perr
				return
			}
			n = &inode{mode: q.perm.Perm(), mtime: f.w.Now, nlink: 1}
			d.kids[b] = n
			err = nil
		} else if err == nil && q.flag&(oCREAT|oEXCL) == oCREAT|oEXCL {
			err = syscall.EEXIST
		}
		if err != nil {
			q.err = err
			return
		}
		if n.dir && q.flag&(oWRONLY|oRDWR|oCREAT) != 0 {
			q.err = syscall.EISDIR
			return
		}
		h := &handle{node: n, path: q.path, flag: q.flag, before: append([]byte(nil), n.data...)}
		if q.flag&oTRUNC != 0 && !n.dir {
			n.data = nil
		}
		if q.flag&(oWRONLY|oRDWR) == 0 {
			f.Reads[q.path]++
		}
		f.Handles++
		q.rh = h
	case "read":
		h := q.h
		if h.closed {
			q.err = fs.ErrClosed
			return
		}
		if h.node.dir {
			q.err = syscall.EISDIR
			return
		}
		if h.flag&oWRONLY != 0 {
			q.err = syscall.EBADF
			return
		}
		off := h.off
		if q.off >= 0 {
			off = q.off
		}
		q.rd, q.rn = nil, 0
		if off >= int64(len(h.node.data)) {
			if q.n > 0 {
				q.err = io.EOF
			}
			return
		}
		d := h.node.data[off:]
		if len(d) > q.n {
			d = d[:q.n]
		}
		q.rd = append([]byte(nil), d...)
		q.rn = len(d)
		if q.off < 0 {
			h.off += int64(len(d))
		}
	case "write":
		h := q.h
		if h.closed {
			q.err = fs.ErrClosed
			return
		}
		if h.flag&(oWRONLY|oRDWR) == 0 {
			q.err = syscall.EBADF
			return
		}
		off := h.off
		if h.flag&oAPPEND != 0 {
			off = int64(len(h.node.data))
		}
		if q.off >= 0 {
			off = q.off
		}
		end := off + int64(len(q.data))
		nd := h.node.data
		if int64(len(nd)) < end {
			nd = append(append([]byte(nil), nd...), make([]byte, end-int64(len(nd)))...)
		} else {
			nd = append([]byte(nil), nd...)
		}
		copy(nd[off:], q.data)
		h.node.data = nd
		h.node.mtime = f.w.Now
		h.wrote = true
		q.rn = len(q.data)
		if q.off < 0 {
			h.off = end
		}
	case "seek":
		h := q.h
		var base int64
		switch q.flag {
		case io.SeekCurrent:
			base = h.off
		case io.SeekEnd:
			base = int64(len(h.node.data))
		}
		if base+q.off < 0 {
			q.err = syscall.EINVAL
			return
		}
		h.off = base + q.off
		q.roff = h.off
	case "close":
		if q.h.closed {
			q.err = fs.ErrClosed
			return
		}
		q.h.closed = true
		f.Handles--
	case "sync":
		if q.h.closed {
			q.err = fs.ErrClosed
		}
	case "truncate":
		n := (*inode)(nil)
		if q.h != nil {
			n = q.h.node
		} else {
			var err error
			if n, err = f.walk(q.path); err != nil {
				q.err = err
				return
			}
		}
		if int64(len(n.data)) > q.off {
			n.data = append([]byte(nil), n.data[:q.off]...)
		} else {
			n.data = append(append([]byte(nil), n.data...), make([]byte, q.off-int64(len(n.data)))...)
		}
	case "readdir":
		n, err := f.walk(q.path)
		if err == nil && !n.dir {
			err = syscall.ENOTDIR
		}
		if err != nil {
			q.err = err
			return
		}
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		q.rl = nil
		for _, k := range names {
			q.rl = append(q.rl, info(k, n.kids[k]))
		}
	case "mkdir":
		if _, err := f.walk(q.path); err == nil {
			q.err = syscall.EEXIST
			return
		}
		d, b, err := f.parent(q.path)
		if err != nil {
			q.err = err
			return
		}
		d.kids[b] = &inode{dir: true, mode: fs.ModeDir | q.perm.Perm(), kids: map[string]*inode{}, mtime: f.w.Now}
	case "remove":
		n, err := f.walk(q.path)
		if err != nil {
			q.err = err
			return
		}
		if n.dir && len(n.kids) > 0 {
			q.err = syscall.ENOTEMPTY
			return
		}
		d, b, err := f.parent(q.path)
		if err != nil {
			q.err = err
			return
		}
		delete(d.kids, b)
	case "rename":
		n, err := f.walk(q.path)
		if err != nil {
			q.err = err
			return
		}
		d1, b1, err := f.parent(q.path)
		if err != nil {
			q.err = err
			return
		}
		d2, b2, err := f.parent(q.path2)
		if err != nil {
			q.err = err
			return
		}
		if old := d2.kids[b2]; old != nil && old != n {
			if n.dir && !old.dir {
				q.err = syscall.ENOTDIR
				return
			}
			if !n.dir && old.dir {
				q.err = syscall.EISDIR
				return
			}
			if old.dir && len(old.kids) > 0 {
				q.err = syscall.ENOTEMPTY
				return
			}
		}
		delete(d1.kids, b1)
		d2.kids[b2] = n
	case "link":
		n, err := f.walk(q.path)
		if err != nil {
			q.err = err
			return
		}
		if _, err := f.walk(q.path2); err == nil {
			q.err = syscall.EEXIST
			return
		}
		d2, b2, err := f.parent(q.path2)
		if err != nil {
			q.err = err
			return
		}
		d2.kids[b2] = n
	case "chmod":
		n, err := f.walk(q.path)
		if err != nil {
			q.err = err
			return
		}
		n.mode = n.mode&^0777 | q.perm.Perm()
	case "chdir":
		n, err := f.walk(q.path)
		if err == nil && !n.dir {
			err = syscall.ENOTDIR
		}
		if err != nil {
			q.err = err
			return
		}
		f.Cwd = path.Clean(f.abs(q.path))
	default:
		panic("vsim: bad disk operation " + q.op)
	}
}

// Task-side entry points.

//go:norace
func cloneStr(s string) string {
	b := make([]byte, len(s))
	copy(b, s)
	return string(b)
}

//go:norace
func cloneBytes(s []byte) []byte {
	b := make([]byte, len(s))
	copy(b, s)
	return b
}

//go:norace
func doFS(q *FSReq) {
	t := cur
	if t == nil {
		directFS(q)
		return
	}
	if t.dead {
		q.err = syscall.EIO
		return
	}
	t.op, t.fsq = opFS, q
	call(t)
}

// directFS serves the driver itself (package initialisation and the like).
func directFS(q *FSReq) {
	if theWorld == nil {
		q.err = syscall.ENOSYS
		return
	}
	theWorld.FS.apply(q)
}

type Handle struct {
	h    *handle
	path string
}

//go:norace
func FSStat(p string) (*FileInfo, error) {
	q := &FSReq{op: "stat", path: cloneStr(p)}
	doFS(q)
	return q.ri, q.err
}

//go:norace
func FSOpen(p string, flag int, perm fs.FileMode) (*Handle, error) {
	q := &FSReq{op: "open", path: cloneStr(p), flag: flag, perm: perm}
	doFS(q)
	if q.err != nil {
		return nil, q.err
	}
	if q.rh == nil {
		return nil, syscall.EIO
	}
	return &Handle{h: q.rh, path: q.path}, nil
}

//go:norace
func FSReadDir(p string) ([]*FileInfo, error) {
	q := &FSReq{op: "readdir", path: cloneStr(p)}
	doFS(q)
	return q.rl, q.err
}

// FSPath performs an operation that takes one or two paths.
//
//go:norace
func FSPath(op, p, p2 string, perm fs.FileMode, off int64) error {
	q := &FSReq{op: op, path: cloneStr(p), path2: cloneStr(p2), perm: perm, off: off}
	doFS(q)
	return q.err
}

//go:norace
func FSGetwd() string {
	if theWorld == nil {
		return "/"
	}
	return theWorld.FS.Cwd
}

//go:norace
func (h *Handle) Read(b []byte, off int64) (int, error) {
	q := &FSReq{op: "read", h: h.h, n: len(b), off: off}
	doFS(q)
	for i := 0; i < q.rn; i++ {
		b[i] = q.rd[i]
	}
	return q.rn, q.err
}

// ReadFresh returns up to n bytes in a slice of its own.
//
//go:norace
func (h *Handle) ReadFresh(n int) ([]byte, error) {
	q := &FSReq{op: "read", h: h.h, n: n, off: -1}
	doFS(q)
	return q.rd, q.err
}

//go:norace
func (h *Handle) Write(b []byte, off int64) (int, error) {
	q := &FSReq{op: "write", h: h.h, data: cloneBytes(b), off: off}
	doFS(q)
	return q.rn, q.err
}

//go:norace
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	q := &FSReq{op: "seek", h: h.h, off: off, flag: whence}
	doFS(q)
	return q.roff, q.err
}

//go:norace
func (h *Handle) Op(op string, off int64) error {
	q := &FSReq{op: op, h: h.h, off: off}
	doFS(q)
	return q.err
}

//go:norace
func (h *Handle) Stat() (*FileInfo, error) {
	q := &FSReq{op: "fstat", h: h.h}
	doFS(q)
	return q.ri, q.err
}
