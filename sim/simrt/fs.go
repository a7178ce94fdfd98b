package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BurntSushi/toml"
)

// FSFault is the outcome the fault planner gives one disk operation.
type FSFault struct {
	Err     error // returned to the caller
	Partial int   // for writes: bytes that still reach the file (-1 = all)
	Crash   bool  // the process dies at this point (after Partial bytes)
}

// FS is a simulated file system with a page cache: data and directory
// operations become durable on Sync, in order; a power loss keeps a prefix of
// the unsynced directory operations and an arbitrary torn state of unsynced
// data.
type FS struct {
	w       *World
	tree    map[string]*inode
	durable map[string]*inode
	journal []func(map[string]*inode)
	Cap     int // bytes, 0 = unlimited
	used    int
	Fault   func(op, path string, n int) *FSFault
	ops     int64
	nino    int
	temp    int
	locks   map[int]*Node
}

type inode struct {
	id    int
	dir   bool
	sock  bool
	mode  os.FileMode
	data  []byte
	disk  []byte   // durable content
	dirty []dwrite // writes since the last sync
	mtime int64
}

type dwrite struct {
	off  int
	data []byte
	trim bool // truncate to off
}

func NewFS(w *World) *FS {
	f := &FS{w: w, tree: map[string]*inode{}, durable: map[string]*inode{}}
	for _, d := range []string{"/", "/tmp"} {
		i := f.newInode()
		i.dir = true
		i.mode = os.ModeDir | 0777
		f.tree[d] = i
		f.durable[d] = i
	}
	return f
}

func (f *FS) newInode() *inode { f.nino++; return &inode{id: f.nino, mtime: f.w.now} }

func (n *Node) abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(n.Cwd, p)
	}
	return filepath.Clean(p)
}

func (f *FS) meta(op func(map[string]*inode)) {
	op(f.tree)
	f.journal = append(f.journal, op)
}

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

// CrashNow kills the node of the current task, as a process crash would.
func CrashNow(why string) {
	w := W
	if w.cur.dead {
		return
	}
	w.Fault(why)
	exitNode(-9, why)
}

// enter is called at the start of every disk operation.
func (f *FS) enter(op, path string, n int) *FSFault {
	Y()
	f.ops++
	f.w.now += 20_000
	f.w.event("disk-"+op, path)
	if f.Fault != nil {
		if x := f.Fault(op, path, n); x != nil {
			if x.Crash && x.Partial < 0 || x.Crash && op != "write" {
				CrashNow("crash-at-disk-" + op)
			}
			if x.Err != nil {
				f.w.Fault(fmt.Sprintf("disk-%s-error", op))
			}
			return x
		}
	}
	return nil
}

func fsHere() (*FS, *Node, bool) {
	n := CurNode()
	if n == nil || dead() {
		return nil, nil, false
	}
	return n.FS, n, true
}

var errDead = errors.New("simrt: process is dead")

// ---- raw access (no faults, no yields), for the harness ----

func (f *FS) rawSocket(p string) error {
	if f.tree[p] != nil {
		return syscall.EADDRINUSE
	}
	if d := f.tree[filepath.Dir(p)]; d == nil || !d.dir {
		return syscall.ENOENT
	}
	i := f.newInode()
	i.sock = true
	i.mode = os.ModeSocket | 0755
	f.meta(func(t map[string]*inode) { t[p] = i })
	return nil
}
func (f *FS) rawRemove(p string) {
	if f.tree[p] != nil {
		f.meta(func(t map[string]*inode) { delete(t, p) })
	}
}

// Put stores a file durably.
func (f *FS) Put(p string, b []byte) {
	p = filepath.Clean(p)
	f.MkdirAllRaw(filepath.Dir(p))
	i := f.newInode()
	i.mode = 0644
	i.data = append([]byte(nil), b...)
	i.disk = append([]byte(nil), b...)
	f.tree[p] = i
	f.durable[p] = i
	// later journal entries must not undo it
	f.journal = append(f.journal, func(t map[string]*inode) { t[p] = i })
}

func (f *FS) MkdirAllRaw(p string) {
	p = filepath.Clean(p)
	for _, q := range parents(p) {
		if f.tree[q] == nil {
			i := f.newInode()
			i.dir = true
			i.mode = os.ModeDir | 0755
			f.tree[q] = i
			f.durable[q] = i
		}
	}
}

func parents(p string) []string {
	var out []string
	for p != "/" && p != "." {
		out = append([]string{p}, out...)
		p = filepath.Dir(p)
	}
	return out
}

// Peek reads a file without faults; nil if absent.
func (f *FS) Peek(p string) []byte {
	i := f.tree[filepath.Clean(p)]
	if i == nil || i.dir {
		return nil
	}
	return append([]byte{}, i.data...)
}

// Exists reports whether a path exists.
func (f *FS) Exists(p string) bool { return f.tree[filepath.Clean(p)] != nil }

// Mode returns the permission bits of a path.
func (f *FS) Mode(p string) os.FileMode {
	if i := f.tree[filepath.Clean(p)]; i != nil {
		return i.mode
	}
	return 0
}

// Delete removes a path durably.
func (f *FS) Delete(p string) {
	p = filepath.Clean(p)
	f.tree[p] = nil
	delete(f.tree, p)
	delete(f.durable, p)
	f.journal = append(f.journal, func(t map[string]*inode) { delete(t, p) })
}

// List returns all paths.
func (f *FS) List() []string {
	var out []string
	for p := range f.tree {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Ops counts disk operations so far.
func (f *FS) Ops() int64 { return f.ops }

// SyncAll makes everything durable.
func (f *FS) SyncAll() {
	for _, op := range f.journal {
		op(f.durable)
	}
	f.journal = nil
	for _, i := range f.tree {
		i.disk = append([]byte(nil), i.data...)
		i.dirty = nil
	}
}

// PowerLoss drops the page cache: only durable state, a chosen prefix of the
// directory operations and torn pieces of unsynced writes survive. Processes
// using the file system must be dead.
func (f *FS) PowerLoss() {
	w := f.w
	w.Fault("power-loss")
	k := 0
	if n := len(f.journal); n > 0 {
		// favour both extremes
		switch w.Choose("pl-mode", 3) {
		case 0:
			k = n
		case 1:
			k = 0
		case 2:
			k = w.Choose("pl-journal", n+1)
		}
	}
	if k < len(f.journal) {
		w.Faults["lost-dir-op"] += int64(len(f.journal) - k)
	}
	for _, op := range f.journal[:k] {
		op(f.durable)
	}
	f.journal = nil
	f.tree = map[string]*inode{}
	var paths []string
	for p := range f.durable {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	seen := map[*inode]bool{}
	for _, p := range paths {
		i := f.durable[p]
		f.tree[p] = i
		if seen[i] {
			continue
		}
		seen[i] = true
		if len(i.dirty) > 0 {
			i.tear(w)
		}
		i.data = append([]byte(nil), i.disk...)
		i.dirty = nil
	}
	f.used = 0
	for i := range seen {
		f.used += len(i.data)
	}
}

func apply(b []byte, d dwrite) []byte {
	if d.trim {
		if d.off <= len(b) {
			return b[:d.off:d.off]
		}
		return append(b, make([]byte, d.off-len(b))...)
	}
	if need := d.off + len(d.data); need > len(b) {
		b = append(b, make([]byte, need-len(b))...)
	}
	copy(b[d.off:], d.data)
	return b
}

func (i *inode) tear(w *World) {
	n := len(i.dirty)
	switch w.Choose("pl-data", 5) {
	case 0: // everything reached the disk
		i.disk = append([]byte(nil), i.data...)
	case 1: // nothing did
		w.Faults["lost-write"]++
	case 2: // a prefix of the writes, the last one torn
		k := w.Choose("pl-k", n+1)
		for j := 0; j < k; j++ {
			i.disk = apply(i.disk, i.dirty[j])
		}
		if k < n && !i.dirty[k].trim && len(i.dirty[k].data) > 1 {
			d := i.dirty[k]
			m := 1 + w.Choose("pl-torn", len(d.data)-1)
			i.disk = apply(i.disk, dwrite{off: d.off, data: d.data[:m]})
			w.Faults["torn-write"]++
		} else if k < n {
			w.Faults["lost-write"]++
		}
	case 3: // size updated, data blocks zero
		old := len(i.disk)
		for _, d := range i.dirty {
			if d.trim {
				i.disk = apply(i.disk, d)
			} else {
				i.disk = apply(i.disk, dwrite{off: d.off, data: make([]byte, len(d.data))})
			}
		}
		_ = old
		w.Faults["zeroed-write"]++
	case 4: // an arbitrary subset of the writes (reordering)
		for j := 0; j < n; j++ {
			if w.Choose("pl-sub", 2) == 0 {
				i.disk = apply(i.disk, i.dirty[j])
			}
		}
		w.Faults["reordered-write"]++
	}
}

// ---- the os API ----

type fileInfo struct {
	name string
	i    *inode
	size int64
}

func (x *fileInfo) Name() string               { return x.name }
func (x *fileInfo) Size() int64                { return x.size }
func (x *fileInfo) Mode() os.FileMode          { return x.i.mode }
func (x *fileInfo) ModTime() time.Time         { return WallAt(x.i.mtime) }
func (x *fileInfo) IsDir() bool                { return x.i.dir }
func (x *fileInfo) Sys() interface{}           { return nil }
func (x *fileInfo) Type() fs.FileMode          { return x.i.mode.Type() }
func (x *fileInfo) Info() (fs.FileInfo, error) { return x, nil }

func Stat(name string) (os.FileInfo, error) {
	f, n, ok := fsHere()
	if !ok {
		return nil, errDead
	}
	p := n.abs(name)
	if x := f.enter("stat", p, 0); x != nil && x.Err != nil {
		return nil, perr("stat", name, x.Err)
	}
	i := f.tree[p]
	if i == nil || name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &fileInfo{filepath.Base(p), i, int64(len(i.data))}, nil
}

// File replaces os.File.
type File struct {
	fs     *FS
	node   *Node
	i      *inode
	name   string
	path   string
	off    int
	flag   int
	closed bool
	std    int // 1 stdin, 2 stdout, 3 stderr
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f, n, ok := fsHere()
	if !ok {
		return nil, errDead
	}
	p := n.abs(name)
	if x := f.enter("open", p, 0); x != nil && x.Err != nil {
		return nil, perr("open", name, x.Err)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	i := f.tree[p]
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := f.tree[filepath.Dir(p)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		i = f.newInode()
		i.mode = perm &^ 022
		ni := i
		f.meta(func(t map[string]*inode) { t[p] = ni })
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if i.sock {
			return nil, perr("open", name, syscall.ENXIO)
		}
		if i.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && len(i.data) > 0 {
			f.used -= len(i.data)
			i.data = nil
			i.dirty = append(i.dirty, dwrite{off: 0, trim: true})
		}
	}
	return &File{fs: f, node: n, i: i, name: name, path: p, flag: flag}, nil
}

func Stdin() *File  { return &File{std: 1, name: "/dev/stdin", node: CurNode()} }
func Stdout() *File { return &File{std: 2, name: "/dev/stdout", node: CurNode()} }
func Stderr() *File { return &File{std: 3, name: "/dev/stderr", node: CurNode()} }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return uintptr(100 + f.i.id)
}

func (f *File) ok(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if dead() || W == nil {
		return errDead
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if f.std == 1 {
		return f.node.In.read(b)
	}
	n, err := f.readAt("read", b, f.off)
	f.off += n
	return n, err
}

func (f *File) readAt(op string, b []byte, off int) (int, error) {
	if x := f.fs.enter("read", f.path, len(b)); x != nil && x.Err != nil {
		return 0, perr(op, f.name, x.Err)
	}
	if f.i.dir {
		return 0, perr(op, f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= len(f.i.data) {
		return 0, io.EOF
	}
	return copy(b, f.i.data[off:]), nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	n, err := f.readAt("read", b, int(off))
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		f.node.Out.Write(b)
		Y()
		return len(b), nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	off := f.off
	if f.flag&os.O_APPEND != 0 {
		off = len(f.i.data)
	}
	n, err := f.writeAt(b, off)
	f.off = off + n
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, int(off))
}

func (f *File) writeAt(b []byte, off int) (int, error) {
	fs := f.fs
	x := fs.enter("write", f.path, len(b))
	k := len(b)
	var err error
	if x != nil {
		if x.Partial >= 0 && x.Partial < k {
			k = x.Partial
			fs.w.Faults["short-write"]++
		}
		err = x.Err
	}
	grow := off + k - len(f.i.data)
	if grow > 0 && fs.Cap > 0 && fs.used+grow > fs.Cap {
		fs.w.Fault("disk-full")
		k -= fs.used + grow - fs.Cap
		if k < 0 {
			k = 0
		}
		err = syscall.ENOSPC
	}
	if k > 0 {
		d := dwrite{off: off, data: append([]byte(nil), b[:k]...)}
		old := len(f.i.data)
		f.i.data = apply(f.i.data, d)
		f.i.dirty = append(f.i.dirty, d)
		f.i.mtime = fs.w.now
		fs.used += len(f.i.data) - old
	}
	if x != nil && x.Crash {
		CrashNow("crash-at-disk-write")
	}
	if err != nil {
		return k, perr("write", f.name, err)
	}
	if k < len(b) {
		return k, io.ErrShortWrite
	}
	return k, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.i.data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	if x := f.fs.enter("sync", f.path, 0); x != nil && x.Err != nil {
		return perr("sync", f.name, x.Err)
	}
	f.fs.w.now += 500_000
	f.fs.syncInode(f.i)
	return nil
}

func (f *FS) syncInode(i *inode) {
	i.disk = append([]byte(nil), i.data...)
	i.dirty = nil
	for _, op := range f.journal {
		op(f.durable)
	}
	f.journal = nil
}

func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	if x := f.fs.enter("truncate", f.path, 0); x != nil && x.Err != nil {
		return perr("truncate", f.name, x.Err)
	}
	d := dwrite{off: int(n), trim: true}
	old := len(f.i.data)
	f.i.data = apply(f.i.data, d)
	f.i.dirty = append(f.i.dirty, d)
	f.fs.used += len(f.i.data) - old
	return nil
}

func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	f.closed = true
	if x := f.fs.enter("close", f.path, 0); x != nil && x.Err != nil {
		return perr("close", f.name, x.Err)
	}
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	return &fileInfo{filepath.Base(f.path), f.i, int64(len(f.i.data))}, nil
}
func (f *File) Chmod(m os.FileMode) error { f.i.mode = f.i.mode.Type() | m.Perm(); return nil }
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := ReadDir(f.name)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
func (f *File) SetDeadline(time.Time) error { return nil }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.i.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	var out []byte
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	p := n.abs(name)
	if x := f.enter("remove", p, 0); x != nil && x.Err != nil {
		return perr("remove", name, x.Err)
	}
	i := f.tree[p]
	if i == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir {
		for q := range f.tree {
			if strings.HasPrefix(q, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	f.used -= len(i.data)
	f.meta(func(t map[string]*inode) { delete(t, p) })
	return nil
}

func RemoveAll(name string) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	p := n.abs(name)
	if x := f.enter("remove", p, 0); x != nil && x.Err != nil {
		return perr("unlinkat", name, x.Err)
	}
	var del []string
	for q := range f.tree {
		if q == p || strings.HasPrefix(q, p+"/") {
			del = append(del, q)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(del)))
	for _, q := range del {
		q := q
		f.used -= len(f.tree[q].data)
		f.meta(func(t map[string]*inode) { delete(t, q) })
	}
	return nil
}

func Rename(a, b string) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	pa, pb := n.abs(a), n.abs(b)
	if x := f.enter("rename", pa, 0); x != nil && x.Err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: x.Err}
	}
	i := f.tree[pa]
	if i == nil || f.tree[filepath.Dir(pb)] == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if o := f.tree[pb]; o != nil && o != i {
		f.used -= len(o.data)
	}
	if i.dir {
		var move []string
		for q := range f.tree {
			if strings.HasPrefix(q, pa+"/") {
				move = append(move, q)
			}
		}
		sort.Strings(move)
		for _, q := range move {
			q := q
			f.meta(func(t map[string]*inode) { t[pb+q[len(pa):]] = t[q]; delete(t, q) })
		}
	}
	f.meta(func(t map[string]*inode) {
		if x := t[pa]; x != nil {
			delete(t, pa)
			t[pb] = x
		}
	})
	return nil
}

func Link(a, b string) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	pa, pb := n.abs(a), n.abs(b)
	if x := f.enter("link", pa, 0); x != nil && x.Err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: x.Err}
	}
	i := f.tree[pa]
	if i == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if f.tree[pb] != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	f.meta(func(t map[string]*inode) { t[pb] = i })
	return nil
}
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}

func Mkdir(name string, perm os.FileMode) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	p := n.abs(name)
	if x := f.enter("mkdir", p, 0); x != nil && x.Err != nil {
		return perr("mkdir", name, x.Err)
	}
	if f.tree[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := f.tree[filepath.Dir(p)]; d == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	i := f.newInode()
	i.dir = true
	i.mode = os.ModeDir | perm
	f.meta(func(t map[string]*inode) { t[p] = i })
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	for _, q := range parents(n.abs(name)) {
		if i := f.tree[q]; i == nil {
			if err := Mkdir(q, perm); err != nil {
				return err
			}
		} else if !i.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
	}
	return nil
}

func tempName(dir, pattern string) (string, error) {
	f, _, ok := fsHere()
	if !ok {
		return "", errDead
	}
	if dir == "" {
		dir = "/tmp"
	}
	f.temp++
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return filepath.Join(dir, fmt.Sprintf("%s%09d%s", pre, f.temp, suf)), nil
}

func MkdirTemp(dir, pattern string) (string, error) {
	p, err := tempName(dir, pattern)
	if err != nil {
		return "", err
	}
	return p, Mkdir(p, 0700)
}
func CreateTemp(dir, pattern string) (*File, error) {
	p, err := tempName(dir, pattern)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func ReadDir(name string) ([]os.DirEntry, error) {
	f, n, ok := fsHere()
	if !ok {
		return nil, errDead
	}
	p := n.abs(name)
	if x := f.enter("readdir", p, 0); x != nil && x.Err != nil {
		return nil, perr("open", name, x.Err)
	}
	d := f.tree[p]
	if d == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []os.DirEntry
	for _, q := range f.List() {
		if q != "/" && filepath.Dir(q) == p {
			i := f.tree[q]
			out = append(out, &fileInfo{filepath.Base(q), i, int64(len(i.data))})
		}
	}
	return out, nil
}

// FilepathAbs and FilepathGlob replace the functions of path/filepath.
func FilepathAbs(name string) (string, error) {
	_, n, ok := fsHere()
	if !ok {
		return filepath.Abs(name)
	}
	return n.abs(name), nil
}
func FilepathGlob(pattern string) ([]string, error) {
	if _, _, ok := fsHere(); !ok {
		return filepath.Glob(pattern)
	}
	dir, base := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	}
	if _, err := filepath.Match(base, ""); err != nil {
		return nil, err
	}
	es, _ := ReadDir(filepath.Clean(dir))
	var out []string
	for _, e := range es {
		if ok, _ := filepath.Match(base, e.Name()); ok {
			out = append(out, filepath.Join(filepath.Dir(pattern), e.Name()))
		}
	}
	return out, nil
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.name) }
func (f *File) Readdir(n int) ([]os.FileInfo, error) { return IoutilReadDir(f.name) }
func (f *File) SetReadDeadline(time.Time) error      { return nil }
func (f *File) SetWriteDeadline(time.Time) error     { return nil }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func IoutilReadDir(name string) ([]os.FileInfo, error) {
	es, err := ReadDir(name)
	var out []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func Chmod(name string, m os.FileMode) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	i := f.tree[n.abs(name)]
	if i == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	i.mode = i.mode.Type() | m.Perm()
	return nil
}
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func Getwd() (string, error) {
	if n := CurNode(); n != nil {
		return n.Cwd, nil
	}
	return "/", nil
}
func Chdir(d string) error {
	_, n, ok := fsHere()
	if !ok {
		return errDead
	}
	p := n.abs(d)
	if i := n.FS.tree[p]; i == nil || !i.dir {
		return perr("chdir", d, syscall.ENOENT)
	}
	n.Cwd = p
	return nil
}
func OSTempDir() string { return "/tmp" }

// SyncDir makes directory operations durable (used by simldb).
func SyncDir(name string) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	p := n.abs(name)
	if x := f.enter("sync", p, 0); x != nil && x.Err != nil {
		return perr("sync", name, x.Err)
	}
	for _, op := range f.journal {
		op(f.durable)
	}
	f.journal = nil
	return nil
}

// TomlDecodeFile replaces toml.DecodeFile.
func TomlDecodeFile(path string, v interface{}) (toml.MetaData, error) {
	b, err := ReadFile(path)
	if err != nil {
		return toml.MetaData{}, err
	}
	return toml.Decode(string(b), v)
}

// Exit replaces os.Exit.
func Exit(code int) {
	if W == nil || W.cur == nil {
		os.Exit(code)
	}
	exitNode(code, "exit")
}
func Getpid() int {
	if n := CurNode(); n != nil {
		return 1000 + n.ID
	}
	return 1
}

// SysFlock replaces syscall.Flock for simulated files (locks belong to a
// process and vanish with it).
func SysFlock(fd int, how int) error {
	f, n, ok := fsHere()
	if !ok {
		return errDead
	}
	id := fd - 100
	if f.locks == nil {
		f.locks = map[int]*Node{}
	}
	o := f.locks[id]
	if how&syscall.LOCK_UN != 0 {
		delete(f.locks, id)
		return nil
	}
	if o != nil && !o.Dead && o != n || o == n && how&syscall.LOCK_EX != 0 {
		return syscall.EWOULDBLOCK
	}
	f.locks[id] = n
	return nil
}
