// Package vos stands for the file system and environment entry points of os,
// io/ioutil and path/filepath in the instrumented code: an in-memory storage
// whose every operation may be delayed, refused, cut short, corrupted or be the
// point of a crash, as decided by the simulator.
package vos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"MODULE_PATH/zz_verif/vsim"
)

// Op is one storage operation, as seen by the fault injector.
type Op struct {
	Index int
	Kind  string // open create read readat write close sync readdir stat lstat rename remove mkdir readlink seek truncate
	Path  string
	N     int // bytes requested
	Off   int64
}

// Fault is the injector's decision about one operation.
type Fault struct {
	Name  string // for the counters, "" when nothing is injected
	Err   error  // the operation fails
	Short int    // >=0: at most Short bytes are transferred (with Err if set)
	Crash bool   // the process stops here (before the operation takes effect)
	Flip  bool   // the data read is altered at position Pos by xor Mask
	Pos   int
	Mask  byte
}

// NoFault is the neutral decision.
var NoFault = Fault{Short: -1}

type inode struct {
	id       int
	dir      bool
	link     string // symbolic link target
	data     []byte
	durable  []byte
	pending  []writeRec
	children map[string]*inode
	mode     fs.FileMode
	mtime    time.Time
	noRead   bool // permission denied
}

type writeRec struct {
	trunc bool
	off   int64
	data  []byte
}

// World is the state of the simulated machine.
type World struct {
	root    *inode
	nodes   int
	journal []func() // undo of the namespace operations not yet durable

	Env    map[string]string
	Exe    string
	Cwd    string
	Inject func(op Op) Fault

	ops     int
	Trace   []string // faults injected
	Counts  map[string]int
	OpKinds map[string]int
	handles map[*OS_File]string
	LogHash uint64
	Log     []string
	KeepLog bool
	tmp     int
}

var world *World

// NewWorld returns an empty machine.
func NewWorld() *World {
	w := &World{Env: map[string]string{}, Exe: "/usr/bin/app", Cwd: "/", Counts: map[string]int{}, OpKinds: map[string]int{}, handles: map[*OS_File]string{}}
	w.root = w.node(true)
	return w
}

// Use installs w as the machine seen by the instrumented code.
func Use(w *World) { world = w }

// Current returns the machine in use.
func Current() *World { return world }

func (w *World) node(dir bool) *inode {
	w.nodes++
	n := &inode{id: w.nodes, dir: dir, mode: 0o644, mtime: time.Unix(1600000000, 0)}
	if dir {
		n.children = map[string]*inode{}
		n.mode = fs.ModeDir | 0o755
	}
	return n
}

// ---- set up and inspection by the harness (no faults, always durable) ----

func (w *World) MkdirAll(p string) {
	cur := w.root
	for _, c := range split(p) {
		n := cur.children[c]
		if n == nil {
			n = w.node(true)
			cur.children[c] = n
		}
		cur = n
	}
}

func (w *World) PutFile(p string, data []byte) {
	w.MkdirAll(path.Dir(p))
	d, err := w.lookup(path.Dir(p), true, 0)
	if err != nil {
		panic(err)
	}
	n := w.node(false)
	n.data = data
	n.durable = data
	d.children[path.Base(p)] = n
}

func (w *World) PutLink(p, target string) {
	w.MkdirAll(path.Dir(p))
	d, err := w.lookup(path.Dir(p), true, 0)
	if err != nil {
		panic(err)
	}
	n := w.node(false)
	n.link = target
	n.mode = fs.ModeSymlink | 0o777
	d.children[path.Base(p)] = n
}

func (w *World) Delete(p string) {
	d, err := w.lookup(path.Dir(p), true, 0)
	if err == nil {
		delete(d.children, path.Base(p))
	}
}

// Get returns the content of a file.
func (w *World) Get(p string) ([]byte, bool) {
	n, err := w.lookup(p, true, 0)
	if err != nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// SetNoRead makes a file or directory unreadable (or readable again).
func (w *World) SetNoRead(p string, v bool) {
	if n, err := w.lookup(p, true, 0); err == nil {
		n.noRead = v
	}
}

// Ops returns the number of storage operations performed.
func (w *World) Ops() int { return w.ops }

// OpenHandles lists the files still open.
func (w *World) OpenHandles() []string {
	var out []string
	for _, p := range w.handles {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Crash turns the machine into what is found after a restart: only durable
// state, plus whatever part of the pending writes choose picks, survives.
func (w *World) Crash(choose func(n int) int) {
	// namespace: the last k operations are lost
	if n := len(w.journal); n > 0 {
		k := choose(n + 1)
		for i := 0; i < k; i++ {
			w.journal[n-1-i]()
		}
		w.journal = nil
	}
	seen := map[*inode]bool{}
	var visit func(n *inode)
	visit = func(n *inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.dir {
			names := make([]string, 0, len(n.children))
			for c := range n.children {
				names = append(names, c)
			}
			sort.Strings(names)
			for _, c := range names {
				visit(n.children[c])
			}
			return
		}
		if len(n.pending) == 0 {
			return
		}
		data := append([]byte(nil), n.durable...)
		mode := choose(4)
		cut := choose(len(n.pending) + 1)
		for i, r := range n.pending {
			apply, torn := true, false
			switch mode {
			case 0: // everything reached the disk
			case 1, 2: // a prefix, the next one possibly torn
				apply = i < cut
				if i == cut && mode == 2 {
					apply, torn = true, true
				}
			case 3: // any subset
				apply = choose(2) == 0
			}
			if !apply {
				continue
			}
			if torn && !r.trunc && len(r.data) > 0 {
				r.data = r.data[:choose(len(r.data))]
			}
			data = applyRec(data, r)
		}
		n.data, n.durable, n.pending = data, data, nil
	}
	visit(w.root)
	w.handles = map[*OS_File]string{}
}

func applyRec(data []byte, r writeRec) []byte {
	if r.trunc {
		if int64(len(data)) > r.off {
			return append([]byte(nil), data[:r.off]...)
		}
		return append(append([]byte(nil), data...), make([]byte, r.off-int64(len(data)))...)
	}
	end := r.off + int64(len(r.data))
	out := append([]byte(nil), data...)
	if int64(len(out)) < end {
		out = append(out, make([]byte, end-int64(len(out)))...)
	}
	copy(out[r.off:], r.data)
	return out
}

// ---- path resolution ----

func split(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (w *World) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = path.Join(w.Cwd, p)
	}
	return p
}

// lookup resolves p; the last component is followed if follow is set
func (w *World) lookup(p string, follow bool, depth int) (*inode, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	p = w.abs(p)
	cur := w.root
	done := "/"
	comps := split(p)
	for i, c := range comps {
		if !cur.dir {
			return nil, syscall.ENOTDIR
		}
		n := cur.children[c]
		if n == nil {
			return nil, syscall.ENOENT
		}
		if n.link != "" && (follow || i < len(comps)-1) {
			t := n.link
			if !strings.HasPrefix(t, "/") {
				t = path.Join(done, t)
			}
			rest := strings.Join(comps[i+1:], "/")
			return w.lookup(path.Join(t, rest), follow, depth+1)
		}
		cur = n
		done = path.Join(done, c)
	}
	return cur, nil
}

// ---- operations ----

// do runs one operation on the kernel: accounting, fault injection, effect.
func do(kind, p string, n int, off int64, effect func(w *World, f Fault) error) error {
	vsim.Y()
	var err error
	crash := false
	vsim.Kernel(func() {
		w := world
		if w == nil {
			err = syscall.ENOSYS
			return
		}
		op := Op{Index: w.ops, Kind: kind, Path: p, N: n, Off: off}
		w.ops++
		w.OpKinds[kind]++
		f := NoFault
		if w.Inject != nil {
			f = w.Inject(op)
		}
		if f.Name != "" {
			w.Counts[f.Name]++
			w.Trace = append(w.Trace, fmt.Sprintf("op %d %s %s (%d bytes at %d): %s", op.Index, kind, p, n, off, f.describe()))
		}
		for i := 0; i < len(kind); i++ {
			w.LogHash = w.LogHash*1099511628211 ^ uint64(kind[i])
		}
		w.LogHash = w.LogHash*1099511628211 ^ uint64(n) ^ uint64(len(p))<<32
		if w.KeepLog {
			w.Log = append(w.Log, fmt.Sprintf("%d %s %s %d@%d %s", op.Index, kind, p, n, off, f.Name))
		}
		if f.Crash {
			crash = true
			return
		}
		err = effect(w, f)
	})
	if crash {
		panic(vsim.Crash{})
	}
	return err
}

func (f Fault) describe() string {
	s := f.Name
	if f.Err != nil {
		s += ": " + f.Err.Error()
	}
	if f.Short >= 0 {
		s += fmt.Sprintf(", %d bytes transferred", f.Short)
	}
	if f.Flip {
		s += fmt.Sprintf(", byte %d xor %#x", f.Pos, f.Mask)
	}
	return s
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	if err == io.EOF {
		return err
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

type OS_FileInfo = fs.FileInfo
type OS_FileMode = fs.FileMode
type OS_DirEntry = fs.DirEntry
type OS_PathError = fs.PathError

type fileInfo struct {
	name string
	size int64
	mode fs.FileMode
	mt   time.Time
}

func (i fileInfo) Name() string               { return i.name }
func (i fileInfo) Size() int64                { return i.size }
func (i fileInfo) Mode() fs.FileMode          { return i.mode }
func (i fileInfo) ModTime() time.Time         { return i.mt }
func (i fileInfo) IsDir() bool                { return i.mode.IsDir() }
func (i fileInfo) Sys() interface{}           { return nil }
func (i fileInfo) Type() fs.FileMode          { return i.mode.Type() }
func (i fileInfo) Info() (fs.FileInfo, error) { return i, nil }

func infoOf(n *inode, name string) fileInfo {
	return fileInfo{name: path.Base(name), size: int64(len(n.data)), mode: n.mode, mt: n.mtime}
}

// OS_File is an open file.
type OS_File struct {
	name   string
	n      *inode
	pos    int64
	flag   int
	closed bool
	listed []string
	listOK bool
	w      *World
}

func OS_OpenFile(name string, flag int, mode fs.FileMode) (*OS_File, error) {
	var f *OS_File
	kind := "open"
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		kind = "create"
	}
	err := do(kind, name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		n, err := w.lookup(name, true, 0)
		if err == syscall.ENOENT && flag&os.O_CREATE != 0 {
			d, derr := w.lookup(path.Dir(w.abs(name)), true, 0)
			if derr != nil {
				return derr
			}
			if !d.dir {
				return syscall.ENOTDIR
			}
			n = w.node(false)
			n.mode = mode & 0o777
			base := path.Base(name)
			d.children[base] = n
			w.journal = append(w.journal, func() {
				if d.children[base] == n {
					delete(d.children, base)
				}
			})
		} else if err != nil {
			return err
		} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return syscall.EEXIST
		}
		if n.noRead {
			return syscall.EACCES
		}
		writing := flag&(os.O_WRONLY|os.O_RDWR) != 0
		if n.dir && writing {
			return syscall.EISDIR
		}
		if flag&os.O_TRUNC != 0 && !n.dir && len(n.data) > 0 {
			n.pending = append(n.pending, writeRec{trunc: true})
			n.data = nil
		}
		f = &OS_File{name: name, n: n, flag: flag, w: w}
		w.handles[f] = name
		return nil
	})
	return f, perr("open", name, err)
}

func OS_Open(name string) (*OS_File, error) { return OS_OpenFile(name, os.O_RDONLY, 0) }
func OS_Create(name string) (*OS_File, error) {
	return OS_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OS_CreateTemp(dir, pattern string) (*OS_File, error) {
	if dir == "" {
		dir = OS_TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if world != nil {
		world.tmp++
		pre = fmt.Sprintf("%s%d", pre, 1000+world.tmp)
	}
	return OS_OpenFile(path.Join(dir, pre+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func OS_TempDir() string { return "/tmp" }

func (f *OS_File) Name() string { return f.name }
func (f *OS_File) Fd() uintptr  { return uintptr(f.n.id) }

func (f *OS_File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *OS_File) transfer(kind string, p []byte, off int64, ft Fault) (int, error) {
	if f.n.dir {
		return 0, syscall.EISDIR
	}
	if ft.Err != nil && ft.Short < 0 {
		return 0, ft.Err
	}
	if off >= int64(len(f.n.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, f.n.data[off:])
	if ft.Short >= 0 && n > ft.Short {
		n = ft.Short
		for i := n; i < len(p); i++ {
			p[i] = 0
		}
	}
	if ft.Flip && n > 0 {
		p[ft.Pos%n] ^= ft.Mask
	}
	return n, ft.Err
}

func (f *OS_File) Read(p []byte) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	err = do("read", f.name, len(p), f.pos, func(w *World, ft Fault) error {
		if ft.Short == 0 && ft.Err == nil {
			ft.Short = 1 // a read of 0 bytes means end of file to nobody
		}
		var err error
		n, err = f.transfer("read", p, f.pos, ft)
		f.pos += int64(n)
		return err
	})
	return n, perr("read", f.name, err)
}

func (f *OS_File) ReadAt(p []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: f.name, Err: fmt.Errorf("negative offset")}
	}
	err = do("readat", f.name, len(p), off, func(w *World, ft Fault) error {
		if ft.Err == nil {
			ft.Short = -1 // ReadAt never returns short without error
		}
		var err error
		n, err = f.transfer("readat", p, off, ft)
		if err == nil && n < len(p) {
			err = io.EOF
		}
		return err
	})
	return n, perr("read", f.name, err)
}

func (f *OS_File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	var out int64
	err := do("seek", f.name, 0, off, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		base := int64(0)
		switch whence {
		case io.SeekCurrent:
			base = f.pos
		case io.SeekEnd:
			base = int64(len(f.n.data))
		}
		if base+off < 0 {
			return syscall.EINVAL
		}
		f.pos = base + off
		out = f.pos
		return nil
	})
	return out, perr("seek", f.name, err)
}

func (f *OS_File) Write(p []byte) (n int, err error) {
	n, err = f.write(p, -1)
	return n, err
}
func (f *OS_File) WriteString(s string) (n int, err error) { return f.Write([]byte(s)) }
func (f *OS_File) WriteAt(p []byte, off int64) (n int, err error) {
	return f.write(p, off)
}

func (f *OS_File) write(p []byte, off int64) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	err = do("write", f.name, len(p), f.pos, func(w *World, ft Fault) error {
		if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			return syscall.EBADF
		}
		at := off
		if at < 0 {
			at = f.pos
			if f.flag&os.O_APPEND != 0 {
				at = int64(len(f.n.data))
			}
		}
		q := p
		err := ft.Err
		if ft.Short >= 0 && ft.Short < len(q) {
			q = q[:ft.Short]
			if err == nil {
				err = io.ErrShortWrite
			}
		} else if err != nil {
			q = nil
		}
		if len(q) > 0 {
			r := writeRec{off: at, data: append([]byte(nil), q...)}
			f.n.pending = append(f.n.pending, r)
			f.n.data = applyRec(f.n.data, r)
			if off < 0 {
				f.pos = at + int64(len(q))
			}
		}
		n = len(q)
		return err
	})
	return n, perr("write", f.name, err)
}

func (f *OS_File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *OS_File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, do("truncate", f.name, 0, size, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		r := writeRec{trunc: true, off: size}
		f.n.pending = append(f.n.pending, r)
		f.n.data = applyRec(f.n.data, r)
		return nil
	}))
}

func (f *OS_File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, do("sync", f.name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		f.n.durable = f.n.data
		f.n.pending = nil
		w.journal = nil
		return nil
	}))
}

func (f *OS_File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	return perr("close", f.name, do("close", f.name, 0, 0, func(w *World, ft Fault) error {
		delete(w.handles, f)
		return ft.Err
	}))
}

func (f *OS_File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	var out fs.FileInfo
	err := do("stat", f.name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		out = infoOf(f.n, f.name)
		return nil
	})
	return out, perr("stat", f.name, err)
}

func (f *OS_File) Chmod(fs.FileMode) error { return nil }

func (f *OS_File) names() ([]string, error) {
	if f.listOK {
		return f.listed, nil
	}
	var names []string
	err := do("readdir", f.name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		if !f.n.dir {
			return syscall.ENOTDIR
		}
		for c := range f.n.children {
			names = append(names, c)
		}
		sort.Strings(names)
		vsim.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		return nil
	})
	names = own(names)
	if err == nil {
		f.listOK = true
		f.listed = names
	}
	return names, perr("readdirent", f.name, err)
}

// own copies a list made on the kernel goroutine, so that the race detector
// takes it as made by the caller.
func own(l []string) []string {
	if l == nil {
		return nil
	}
	out := make([]string, len(l))
	for i := range l {
		out[i] = l[i]
	}
	return out
}

func (f *OS_File) take(n int) ([]string, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	names, err := f.names()
	if err != nil {
		return nil, err
	}
	if n > 0 {
		if len(names) == 0 {
			return nil, io.EOF
		}
		if n < len(names) {
			f.listed = names[n:]
			return names[:n], nil
		}
	}
	f.listed = nil
	return names, nil
}

func (f *OS_File) Readdirnames(n int) ([]string, error) { return f.take(n) }

func (f *OS_File) Readdir(n int) ([]fs.FileInfo, error) {
	names, err := f.take(n)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, c := range names {
		i, err := OS_Lstat(path.Join(f.name, c))
		if err != nil {
			return out, err
		}
		out = append(out, i)
	}
	return out, nil
}

func (f *OS_File) ReadDir(n int) ([]fs.DirEntry, error) {
	names, err := f.take(n)
	if err != nil {
		return nil, err
	}
	var out []fs.DirEntry
	for _, c := range names {
		var child *inode
		c := c
		vsim.Kernel(func() { child = f.n.children[c] })
		if child != nil {
			out = append(out, infoOf(child, c))
		}
	}
	return out, nil
}

func stat(kind, name string, follow bool) (fs.FileInfo, error) {
	var out fs.FileInfo
	err := do(kind, name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		n, err := w.lookup(name, follow, 0)
		if err != nil {
			return err
		}
		out = infoOf(n, name)
		return nil
	})
	return out, perr(kind, name, err)
}

func OS_Stat(name string) (fs.FileInfo, error)  { return stat("stat", name, true) }
func OS_Lstat(name string) (fs.FileInfo, error) { return stat("lstat", name, false) }

func OS_ReadFile(name string) ([]byte, error) {
	f, err := OS_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func OS_WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OS_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OS_ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := OS_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	out, err := f.ReadDir(-1)
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, err
}

func OS_Remove(name string) error {
	return perr("remove", name, do("remove", name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		n, err := w.lookup(name, false, 0)
		if err != nil {
			return err
		}
		if n.dir && len(n.children) > 0 {
			return syscall.ENOTEMPTY
		}
		d, err := w.lookup(path.Dir(w.abs(name)), true, 0)
		if err != nil {
			return err
		}
		base := path.Base(name)
		delete(d.children, base)
		w.journal = append(w.journal, func() { d.children[base] = n })
		return nil
	}))
}

func OS_RemoveAll(name string) error {
	err := OS_Remove(name)
	if os.IsNotExist(err) {
		return nil
	}
	return err
}

func OS_Rename(from, to string) error {
	err := do("rename", from, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		n, err := w.lookup(from, false, 0)
		if err != nil {
			return err
		}
		d1, err := w.lookup(path.Dir(w.abs(from)), true, 0)
		if err != nil {
			return err
		}
		d2, err := w.lookup(path.Dir(w.abs(to)), true, 0)
		if err != nil {
			return err
		}
		b1, b2 := path.Base(from), path.Base(to)
		old := d2.children[b2]
		delete(d1.children, b1)
		d2.children[b2] = n
		w.journal = append(w.journal, func() {
			delete(d2.children, b2)
			if old != nil {
				d2.children[b2] = old
			}
			d1.children[b1] = n
		})
		return nil
	})
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	return nil
}

func OS_Mkdir(name string, perm fs.FileMode) error {
	return perr("mkdir", name, do("mkdir", name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		if _, err := w.lookup(name, true, 0); err == nil {
			return syscall.EEXIST
		}
		d, err := w.lookup(path.Dir(w.abs(name)), true, 0)
		if err != nil {
			return err
		}
		d.children[path.Base(name)] = w.node(true)
		return nil
	}))
}

func OS_MkdirAll(name string, perm fs.FileMode) error {
	return perr("mkdir", name, do("mkdir", name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		w.MkdirAll(w.abs(name))
		return nil
	}))
}

func OS_Readlink(name string) (string, error) {
	var out string
	err := do("readlink", name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		n, err := w.lookup(name, false, 0)
		if err != nil {
			return err
		}
		if n.link == "" {
			return syscall.EINVAL
		}
		out = n.link
		return nil
	})
	return out, perr("readlink", name, err)
}

func OS_Getwd() (string, error) {
	if world == nil {
		return "/", nil
	}
	return world.Cwd, nil
}

func OS_MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = OS_TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if world != nil {
		world.tmp++
		pre = fmt.Sprintf("%s%d", pre, 1000+world.tmp)
	}
	name := path.Join(dir, pre+suf)
	return name, OS_Mkdir(name, 0o700)
}

func OS_Symlink(to, name string) error {
	err := do("symlink", name, 0, 0, func(w *World, ft Fault) error {
		if ft.Err != nil {
			return ft.Err
		}
		if _, err := w.lookup(name, false, 0); err == nil {
			return syscall.EEXIST
		}
		d, err := w.lookup(path.Dir(w.abs(name)), true, 0)
		if err != nil {
			return err
		}
		n := w.node(false)
		n.link = to
		n.mode = fs.ModeSymlink | 0o777
		d.children[path.Base(name)] = n
		return nil
	})
	if err != nil {
		return &os.LinkError{Op: "symlink", Old: to, New: name, Err: err}
	}
	return nil
}

func OS_Chmod(name string, mode fs.FileMode) error {
	_, err := OS_Stat(name)
	return err
}

func OS_Chtimes(name string, a, m time.Time) error {
	_, err := OS_Stat(name)
	return err
}

func OS_Truncate(name string, size int64) error {
	f, err := OS_OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := OS_Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) Stat(name string) (fs.FileInfo, error) { return OS_Stat(path.Join(string(d), name)) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	return OS_ReadDir(path.Join(string(d), name))
}
func (d dirFS) ReadFile(name string) ([]byte, error) { return OS_ReadFile(path.Join(string(d), name)) }

func OS_DirFS(dir string) fs.FS { return dirFS(dir) }

// ---- environment ----

func OS_ExpandEnv(s string) string { return os.Expand(s, OS_Getenv) }

func OS_LookupEnv(k string) (string, bool) {
	if world == nil {
		return "", false
	}
	v, ok := world.Env[k]
	return v, ok
}
func OS_Getenv(k string) string { v, _ := OS_LookupEnv(k); return v }
func OS_Setenv(k, v string) error {
	if world != nil {
		world.Env[k] = v
	}
	return nil
}
func OS_Unsetenv(k string) error {
	if world != nil {
		delete(world.Env, k)
	}
	return nil
}
func OS_Environ() []string {
	var out []string
	if world != nil {
		for k, v := range world.Env {
			out = append(out, k+"="+v)
		}
	}
	sort.Strings(out)
	return out
}
func OS_Executable() (string, error) {
	if world == nil {
		return "", os.ErrNotExist
	}
	return world.Exe, nil
}
func OS_UserHomeDir() (string, error) {
	if v := OS_Getenv("HOME"); v != "" {
		return v, nil
	}
	return "", fmt.Errorf("$HOME is not defined")
}
func OS_UserCacheDir() (string, error) {
	if v := OS_Getenv("XDG_CACHE_HOME"); v != "" {
		return v, nil
	}
	h, err := OS_UserHomeDir()
	return h + "/.cache", err
}
func OS_UserConfigDir() (string, error) {
	if v := OS_Getenv("XDG_CONFIG_HOME"); v != "" {
		return v, nil
	}
	h, err := OS_UserHomeDir()
	return h + "/.config", err
}

// ---- io/ioutil ----

func IO_ReadFile(name string) ([]byte, error) { return OS_ReadFile(name) }
func IO_WriteFile(name string, data []byte, perm fs.FileMode) error {
	return OS_WriteFile(name, data, perm)
}
func IO_ReadDir(name string) ([]fs.FileInfo, error) {
	f, err := OS_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	out, err := f.Readdir(-1)
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, err
}
func IO_TempFile(dir, pattern string) (*OS_File, error) { return OS_CreateTemp(dir, pattern) }
func IO_TempDir(dir, pattern string) (string, error)    { return OS_MkdirTemp(dir, pattern) }

// ---- path/filepath ----

type FP_WalkFunc = filepath.WalkFunc

func FP_Walk(root string, fn filepath.WalkFunc) error {
	info, err := OS_Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn filepath.WalkFunc) error {
	vsim.Y()
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	var names []string
	f, err := OS_Open(p)
	if err == nil {
		names, err = f.Readdirnames(-1)
		f.Close()
		sort.Strings(names)
	}
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, c := range names {
		name := filepath.Join(p, c)
		fi, err := OS_Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err = walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func FP_WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := OS_Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := OS_ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(p, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func FP_EvalSymlinks(p string) (string, error) {
	for depth := 0; depth < 50; depth++ {
		comps := split(p)
		rel := !strings.HasPrefix(p, "/")
		cur := "/"
		if rel {
			cur = ""
		}
		changed := false
		for i, c := range comps {
			at := path.Join(cur, c)
			info, err := OS_Lstat(at)
			if err != nil {
				return "", err
			}
			if info.Mode()&fs.ModeSymlink != 0 {
				t, err := OS_Readlink(at)
				if err != nil {
					return "", err
				}
				if !strings.HasPrefix(t, "/") {
					t = path.Join(cur, t)
				}
				p = path.Join(append([]string{t}, comps[i+1:]...)...)
				changed = true
				break
			}
			if i < len(comps)-1 && !info.IsDir() {
				return "", syscall.ENOTDIR
			}
			cur = at
		}
		if !changed {
			return filepath.Clean(p), nil
		}
	}
	return "", fmt.Errorf("EvalSymlinks: too many links")
}

func FP_Abs(p string) (string, error) {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p), nil
	}
	wd, _ := OS_Getwd()
	return path.Join(wd, p), nil
}

func FP_Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	dir = filepath.Clean(dir)
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[") {
		var err error
		if dirs, err = FP_Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := OS_ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

// ---- clock ----

// TM_Now is the simulated clock: one microsecond per scheduling point.
func TM_Now() time.Time {
	return time.Unix(1700000000, 0).Add(time.Duration(vsim.Steps()) * time.Microsecond)
}
func TM_Since(t time.Time) time.Duration { return TM_Now().Sub(t) }
func TM_Until(t time.Time) time.Duration { return t.Sub(TM_Now()) }
func TM_Sleep(d time.Duration)           { vsim.Y() }

// ---- math/rand top level functions ----

var rdState uint64 = 42

func rd() uint64 {
	rdState += 0x9E3779B97F4A7C15
	z := rdState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// SeedRand sets the state behind the global functions of math/rand.
func SeedRand(s uint64) { rdState = s }

func RD_Int() int             { return int(rd() >> 1) }
func RD_Intn(n int) int       { return int(rd()>>1) % n }
func RD_Int63() int64         { return int64(rd() >> 1) }
func RD_Int31n(n int32) int32 { return int32(int64(rd()>>1) % int64(n)) }
func RD_Float64() float64     { return float64(rd()>>11) / (1 << 53) }
func RD_Float32() float32     { return float32(rd()>>40) / (1 << 24) }
func RD_Uint32() uint32       { return uint32(rd() >> 32) }
func RD_Uint64() uint64       { return rd() }
func RD_Int31() int32         { return int32(rd() >> 33) }
func RD_Int63n(n int64) int64 { return int64(rd()>>1) % n }
func RD_Seed(seed int64)      { rdState = uint64(seed) }
func RD_Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	RD_Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
func RD_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RD_Intn(i+1))
	}
}
