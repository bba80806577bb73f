// Package mos is an in-memory model of the part of package os that writes and
// reads files; the symbolic executor puts it in the place of the real
// functions. Names take effect at once and survive a crash in the order they
// were made (an ordered journal); data survive a crash up to the last Sync,
// and beyond it as any prefix of what was written.
package mos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sync"

	"verif/sym"
)

type inode struct {
	data   []byte
	synced int // length that has reached the disk
}

type handle struct {
	name    string
	n       *inode
	off     int
	closed  bool
	write   bool
	read    bool
	appendW bool
}

type crash struct{}

// FS is the state of the model.
type FS struct {
	names   map[string]*inode
	handles map[*os.File]*handle
	dirs    map[string]bool
	ops     int
	temp    int
	turn    sync.Mutex
	crashed bool

	CrashAt int // the number of the operation that the machine stops before; -1 never
	FailAt  int // the number of the operation that fails; -1 none
}

var errIO = errors.New("input/output error")

var fsys = New()

// New makes an empty file system.
func New() *FS {
	return &FS{names: map[string]*inode{}, handles: map[*os.File]*handle{}, dirs: map[string]bool{}, CrashAt: -1, FailAt: -1}
}

// Use installs f.
func Use(f *FS) { fsys = f }

// Mkdir makes a directory.
func (f *FS) Mkdir(name string) { f.dirs[name] = true }

// Ops is the number of operations so far.
func (f *FS) Ops() int { return f.ops }

// Run runs do until it ends or the machine stops.
func (f *FS) Run(do func()) (stopped bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(crash); !ok {
				panic(x)
			}
			stopped = true
		}
	}()
	do()
	return
}

// Restart is what a crash leaves: the unsynced end of every file is cut anywhere.
func (f *FS) Restart() {
	for _, n := range f.names {
		if len(n.data) > n.synced {
			n.data = n.data[:n.synced+sym.Choose("kept", len(n.data)-n.synced+1)]
		}
		n.synced = len(n.data)
	}
	f.handles = map[*os.File]*handle{}
	f.crashed = false
	f.CrashAt, f.FailAt = -1, -1
}

// Names lists the number of names.
func (f *FS) Names() int { return len(f.names) }

// op says whether the next operation fails.
func (f *FS) op() bool {
	f.turn.Lock() // others may run before an operation
	f.turn.Unlock()
	if f.crashed {
		panic(crash{})
	}
	if f.ops == f.CrashAt {
		f.crashed = true
		panic(crash{})
	}
	f.ops++
	return f.ops-1 == f.FailAt
}

func fail(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func dirOf(name string) string {
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			return name[:i]
		}
	}
	return "."
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	f := fsys
	if f.op() {
		return nil, fail("open", name, errIO)
	}
	n := f.names[name]
	if n == nil && (f.dirs[name] && flag&(os.O_WRONLY|os.O_RDWR) == 0) {
		n = &inode{}
	} else if n == nil {
		if flag&os.O_CREATE == 0 || !f.dirs[dirOf(name)] {
			return nil, fail("open", name, fs.ErrNotExist)
		}
		n = &inode{}
		f.names[name] = n
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, fail("open", name, fs.ErrExist)
	}
	if flag&os.O_TRUNC != 0 {
		n.data, n.synced = nil, 0
	}
	h := new(os.File)
	f.handles[h] = &handle{name: name, n: n, write: flag&(os.O_WRONLY|os.O_RDWR) != 0, read: flag&os.O_WRONLY == 0, appendW: flag&os.O_APPEND != 0}
	return h, nil
}

// Create is os.Create.
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// Open is os.Open.
func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// CreateTemp is os.CreateTemp and ioutil.TempFile.
func CreateTemp(dir, pattern string) (*os.File, error) {
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	if dir == "" {
		dir = "/tmp"
		fsys.dirs[dir] = true
	}
	fsys.temp++
	return OpenFile(dir+"/"+pre+string(rune('0'+fsys.temp%10))+suf, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// Rename is os.Rename.
func Rename(from, to string) error {
	f := fsys
	bad := f.op()
	n := f.names[from]
	if bad || n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errIO}
	}
	f.names[to] = n
	delete(f.names, from)
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	f := fsys
	if f.op() {
		return fail("remove", name, errIO)
	}
	if f.names[name] == nil {
		return fail("remove", name, fs.ErrNotExist)
	}
	delete(f.names, name)
	return nil
}

// WriteFile is os.WriteFile and ioutil.WriteFile.
func WriteFile(name string, b []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = Write(h, b)
	if e := Close(h); err == nil {
		err = e
	}
	return err
}

// ReadFile is os.ReadFile and ioutil.ReadFile.
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	if fsys.op() {
		return nil, fail("read", name, errIO)
	}
	b := append([]byte{}, fsys.handles[h].n.data...)
	return b, Close(h)
}

func get(h *os.File, op string) (*handle, error) {
	x := fsys.handles[h]
	if fsys.crashed {
		panic(crash{})
	}
	if h == nil || x == nil {
		return nil, os.ErrInvalid
	}
	if x.closed {
		return nil, fail(op, x.name, fs.ErrClosed)
	}
	return x, nil
}

// Write is (*os.File).Write.
func Write(h *os.File, b []byte) (int, error) {
	x, err := get(h, "write")
	if err != nil {
		return 0, err
	}
	bad := fsys.op()
	if !x.write {
		return 0, fail("write", x.name, errIO)
	}
	n := len(b)
	if bad {
		n = sym.Choose("written", len(b))
	}
	if x.appendW {
		x.off = len(x.n.data)
	}
	if x.off < x.n.synced {
		x.n.synced = x.off
	}
	for len(x.n.data) < x.off {
		x.n.data = append(x.n.data, 0) // a hole
	}
	x.n.data = append(append(append([]byte(nil), x.n.data[:x.off]...), b[:n]...), x.n.data[min(len(x.n.data), x.off+n):]...)
	x.off += n
	if bad {
		return n, fail("write", x.name, errIO)
	}
	return n, nil
}

// WriteString is (*os.File).WriteString.
func WriteString(h *os.File, s string) (int, error) { return Write(h, []byte(s)) }

// Read is (*os.File).Read.
func Read(h *os.File, b []byte) (int, error) {
	x, err := get(h, "read")
	if err != nil {
		return 0, err
	}
	if fsys.op() || !x.read {
		return 0, fail("read", x.name, errIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if x.off >= len(x.n.data) {
		return 0, io.EOF
	}
	n := copy(b, x.n.data[x.off:])
	x.off += n
	return n, nil
}

// Seek is (*os.File).Seek.
func Seek(h *os.File, off int64, whence int) (int64, error) {
	x, err := get(h, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		x.off = int(off)
	case 1:
		x.off += int(off)
	case 2:
		x.off = len(x.n.data) + int(off)
	}
	return int64(x.off), nil
}

// Truncate is (*os.File).Truncate.
func Truncate(h *os.File, n int64) error {
	x, err := get(h, "truncate")
	if err != nil {
		return err
	}
	if fsys.op() {
		return fail("truncate", x.name, errIO)
	}
	x.n.data = append([]byte(nil), x.n.data[:n]...)
	x.n.synced = min(x.n.synced, int(n))
	return nil
}

// Sync is (*os.File).Sync. After a failure the system has forgotten what it
// could not write: a part of it is on the disk, the rest is not.
func Sync(h *os.File) error {
	x, err := get(h, "sync")
	if err != nil {
		return err
	}
	if fsys.op() {
		return fail("sync", x.name, errIO)
	}
	x.n.synced = len(x.n.data)
	return nil
}

// Close is (*os.File).Close.
func Close(h *os.File) error {
	x, err := get(h, "close")
	if err != nil {
		return err
	}
	bad := fsys.op()
	x.closed = true
	if bad {
		return fail("close", x.name, errIO)
	}
	return nil
}

// Name is (*os.File).Name.
func Name(h *os.File) string { return fsys.handles[h].name }

// Chmod is (*os.File).Chmod.
func Chmod(h *os.File, m os.FileMode) error {
	_, err := get(h, "chmod")
	return err
}

// ChmodName is os.Chmod.
func ChmodName(name string, m os.FileMode) error { return nil }
