// Package os replaces the standard os in the code under test: files live in a simulated, in-memory
// file system with injected faults. Nothing of the real file system can be reached through it.
package os

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// Fault is one fault of a plan: it fires at the Nth (0-based; -1: every) call of kind Call which
// operation Op of task Task makes.
type Fault struct {
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Call string `json:"call"` // open read write close stat sync
	Nth  int    `json:"nth"`
	Kind string `json:"kind"` // eio enospc eacces short zero grow statlie crash ...
	Arg  int    `json:"arg"`
}

type inode struct {
	data []byte
	mode FileMode
	dir  bool
}

// System is one simulated disk.
type System struct {
	files  map[string]*inode
	Faults []Fault
	calls  map[[2]int]map[string]int
	Open   int // open handles
	Fired  []Fault
	Log    []string
	seq    int
	// EOFContent is what the last file read to its end held at that moment.
	Delivered map[string][]byte
}

func NewSystem() *System {
	return &System{files: map[string]*inode{}, calls: map[[2]int]map[string]int{}, Delivered: map[string][]byte{}}
}

func clean(p string) string { return path.Clean("/" + strings.ReplaceAll(p, "\\", "/")) }

func (s *System) Put(name string, data []byte) {
	s.files[clean(name)] = &inode{data: append([]byte(nil), data...), mode: 0o644}
}
func (s *System) Get(name string) ([]byte, bool) {
	n, ok := s.files[clean(name)]
	if !ok {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}
func (s *System) Truncate(name string, k int) {
	if n, ok := s.files[clean(name)]; ok && k < len(n.data) {
		n.data = n.data[:k:k]
	}
}
func (s *System) Names() []string {
	var r []string
	for k := range s.files {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// NewRun forgets call counts and open handles (a process restart); the content stays.
func (s *System) NewRun() { s.calls, s.Open = map[[2]int]map[string]int{}, 0 }

var fallback = NewSystem()

func sys() *System {
	if w := rt.W(); w != nil {
		if s, ok := w.FS.(*System); ok && s != nil {
			return s
		}
	}
	return fallback
}

// dead: the process has crashed, deferred calls of unwinding tasks have no effect any more.
func dead() bool { return rt.Unwinding() }

// fault finds the fault for this call, counting calls per operation.
func (s *System) fault(call string) *Fault {
	t := rt.Cur()
	if t == nil {
		return nil
	}
	key := [2]int{t.ID, t.Op()}
	m := s.calls[key]
	if m == nil {
		m = map[string]int{}
		s.calls[key] = m
	}
	n := m[call]
	m[call]++
	for i := range s.Faults {
		f := &s.Faults[i]
		if f.Task == t.ID && f.Op == t.Op() && f.Call == call && (f.Nth == n || f.Nth < 0) {
			return f
		}
	}
	return nil
}

func (s *System) fired(f *Fault) {
	s.Fired = append(s.Fired, *f)
	rt.Count("fault:" + f.Call + ":" + f.Kind)
}

func perr(op, name string, e error) error { return &PathError{Op: op, Path: name, Err: e} }

func errOf(kind string) error {
	switch kind {
	case "enospc":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "enoent":
		return syscall.ENOENT
	case "emfile":
		return syscall.EMFILE
	case "edquot":
		return syscall.EDQUOT
	}
	return syscall.EIO
}

// ---------------------------------------------------------------- File

type File struct {
	s      *System
	n      *inode
	name   string
	flag   int
	off    int64
	closed bool
	got    []byte // bytes delivered by Read since open
}

var (
	Stdin  = &File{name: "/dev/stdin", closed: true}
	Stdout = &File{name: "/dev/stdout", closed: true}
	Stderr = &File{name: "/dev/stderr", closed: true}
)

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	rt.YS(50)
	s := sys()
	if f := s.fault("open"); f != nil {
		s.fired(f)
		if f.Kind == "crash" {
			rt.Crash()
		}
		return nil, perr("open", name, errOf(f.Kind))
	}
	p := clean(name)
	n, ok := s.files[p]
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &inode{mode: perm}
		s.files[p] = n
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
	}
	if flag&O_TRUNC != 0 && !n.dir {
		n.data = nil
	}
	s.Open++
	rt.YS(50)
	return &File{s: s, n: n, name: name, flag: flag}, nil
}

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) canRead() bool  { return f.flag&(O_WRONLY|O_RDWR) != O_WRONLY }
func (f *File) canWrite() bool { return f.flag&(O_WRONLY|O_RDWR) != 0 }

func (f *File) Name() string { return f.name }

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	rt.YS(51)
	if !f.canRead() {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	max := len(b)
	if len(b) == 0 {
		return 0, nil
	}
	if ft := f.s.fault("read"); ft != nil {
		switch ft.Kind {
		case "short":
			if max > ft.Arg && ft.Arg > 0 {
				if int64(len(f.n.data))-f.off > int64(ft.Arg) {
					f.s.fired(ft)
				}
				max = ft.Arg
			}
		case "grow":
			f.s.fired(ft)
			for i := 0; i < ft.Arg; i++ {
				f.n.data = append(f.n.data, byte('a'+i%26))
			}
		case "growws": // grows by white space, so that a text document stays valid
			f.s.fired(ft)
			for i := 0; i < ft.Arg; i++ {
				f.n.data = append(f.n.data, " \n"[i%2])
			}
		case "crash":
			f.s.fired(ft)
			rt.Crash()
		default:
			f.s.fired(ft)
			return 0, perr("read", f.name, errOf(ft.Kind))
		}
	}
	if f.off >= int64(len(f.n.data)) {
		f.s.Delivered[clean(f.name)] = append([]byte(nil), f.got...)
		return 0, io.EOF
	}
	k := copy(b[:max], f.n.data[f.off:])
	f.got = append(f.got, b[:k]...)
	f.off += int64(k)
	rt.YS(51)
	return k, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	n := 0
	for n < len(b) {
		old := f.off
		f.off = off + int64(n)
		k, err := f.Read(b[n:])
		f.off = old
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if dead() {
		return len(b), nil
	}
	rt.YS(52)
	if !f.canWrite() {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if ft := f.s.fault("write"); ft != nil {
		k := ft.Arg
		if k < 0 {
			k = 0
		}
		if k > len(b) {
			k = len(b)
		}
		switch ft.Kind {
		case "crash":
			f.put(b[:k])
			f.s.fired(ft)
			rt.Crash()
		default:
			if k == len(b) && k > 0 {
				k = len(b) - 1
			}
			if len(b) > 0 {
				f.put(b[:k])
				f.s.fired(ft)
				return k, perr("write", f.name, errOf(ft.Kind))
			}
		}
	}
	f.put(b)
	rt.YS(52)
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	for int64(len(f.n.data)) < f.off {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = append(f.n.data[:f.off:f.off], append(append([]byte(nil), b...), tail(f.n.data, f.off+int64(len(b)))...)...)
	f.off += int64(len(b))
}

func tail(b []byte, from int64) []byte {
	if from >= int64(len(b)) {
		return nil
	}
	return b[from:]
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = old
	return n, err
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	f.closed = true
	f.s.Open--
	if dead() {
		return nil
	}
	rt.YS(53)
	if ft := f.s.fault("close"); ft != nil {
		if ft.Kind == "crash" {
			f.s.fired(ft)
			rt.Crash()
		}
		if f.canWrite() {
			f.s.fired(ft)
			// the write-back of the last bytes failed
			if k := len(f.n.data) - ft.Arg; k >= 0 && k < len(f.n.data) {
				f.n.data = f.n.data[:k:k]
			}
			return perr("close", f.name, errOf(ft.Kind))
		}
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	rt.YS(54)
	if ft := f.s.fault("sync"); ft != nil {
		f.s.fired(ft)
		if ft.Kind == "crash" {
			rt.Crash()
		}
		return perr("sync", f.name, errOf(ft.Kind))
	}
	return nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	if dead() {
		return nil
	}
	for int64(len(f.n.data)) < size {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size:size]
	return nil
}
func (f *File) Chmod(FileMode) error               { return nil }
func (f *File) Fd() uintptr                        { return 3 }
func (f *File) SetDeadline(time.Time) error        { return nil }
func (f *File) SetReadDeadline(time.Time) error    { return nil }
func (f *File) SetWriteDeadline(time.Time) error   { return nil }
func (f *File) Readdir(int) ([]FileInfo, error)    { return nil, errors.New("not simulated") }
func (f *File) ReadDir(int) ([]DirEntry, error)    { return nil, errors.New("not simulated") }
func (f *File) Readdirnames(int) ([]string, error) { return nil, errors.New("not simulated") }

type info struct {
	name string
	size int64
	mode FileMode
	dir  bool
}

func (i info) Name() string       { return path.Base(i.name) }
func (i info) Size() int64        { return i.size }
func (i info) Mode() FileMode     { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(1_600_000_000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func (s *System) stat(name string, n *inode) (FileInfo, error) {
	rt.YS(55)
	i := info{clean(name), int64(len(n.data)), n.mode, n.dir}
	if f := s.fault("stat"); f != nil {
		s.fired(f)
		switch f.Kind {
		case "statlie":
			i.size = int64(f.Arg)
		case "crash":
			rt.Crash()
		default:
			return nil, perr("stat", name, errOf(f.Kind))
		}
	}
	return i, nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	return f.s.stat(f.name, f.n)
}

// ---------------------------------------------------------------- functions

func Stat(name string) (FileInfo, error) {
	s := sys()
	n, ok := s.files[clean(name)]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return s.stat(name, n)
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 512
	if fi, err := f.Stat(); err == nil && fi.Size() > 0 && fi.Size() < 1<<20 {
		size = int(fi.Size()) + 1
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error {
	if dead() {
		return nil
	}
	rt.YS(56)
	s := sys()
	if f := s.fault("remove"); f != nil {
		s.fired(f)
		if f.Kind == "crash" {
			rt.Crash()
		}
		return perr("remove", name, errOf(f.Kind))
	}
	if _, ok := s.files[clean(name)]; !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(s.files, clean(name))
	return nil
}
func RemoveAll(name string) error {
	if dead() {
		return nil
	}
	s := sys()
	p := clean(name)
	for k := range s.files {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(s.files, k)
		}
	}
	return nil
}
func Rename(from, to string) error {
	if dead() {
		return nil
	}
	rt.YS(57)
	s := sys()
	if f := s.fault("rename"); f != nil {
		s.fired(f)
		if f.Kind == "crash" {
			rt.Crash()
		}
		return &LinkError{"rename", from, to, errOf(f.Kind)}
	}
	n, ok := s.files[clean(from)]
	if !ok {
		return &LinkError{"rename", from, to, syscall.ENOENT}
	}
	delete(s.files, clean(from))
	s.files[clean(to)] = n
	return nil
}
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func Mkdir(name string, perm FileMode) error {
	sys().files[clean(name)] = &inode{dir: true, mode: perm | ModeDir}
	return nil
}
func MkdirAll(name string, perm FileMode) error { return Mkdir(name, perm) }
func TempDir() string                           { return "/tmp" }
func temp(dir, pattern string) string {
	s := sys()
	s.seq++
	if dir == "" {
		dir = "/tmp"
	}
	num := string(rune('a'+s.seq%26)) + string(rune('0'+s.seq/26%10))
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return path.Join(dir, pattern[:i]+num+pattern[i+1:])
	}
	return path.Join(dir, pattern+num)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := temp(dir, pattern)
	return n, Mkdir(n, 0o700)
}
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(temp(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}
func Chmod(string, FileMode) error               { return nil }
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Chdir(string) error                         { return nil }
func Link(string, string) error                  { return errors.New("not simulated") }
func Symlink(string, string) error               { return errors.New("not simulated") }
func Readlink(string) (string, error)            { return "", errors.New("not simulated") }
func ReadDir(string) ([]DirEntry, error)         { return nil, errors.New("not simulated") }
func DirFS(string) fs.FS                         { return nil }
func CopyFS(string, fs.FS) error                 { return errors.New("not simulated") }
func NewFile(uintptr, string) *File              { return nil }
func Pipe() (*File, *File, error)                { return nil, nil, errors.New("not simulated") }
func Exit(code int)                              { panic("os.Exit called") }
func SameFile(a, b FileInfo) bool                { return a == b }
