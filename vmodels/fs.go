package vmodels

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/miniLCT/gosb/verifh/vsym"
)

// An in-memory file system standing in for package os, with faults chosen by
// the harness.

type fnode struct {
	path string
	dir  bool
	data []byte
}

var (
	nodes []*fnode
	// Fault, when set, decides whether an operation fails, and how.
	Fault func(op, path string) error
	// Partial, when set, tells how much of a failing write of n bytes reaches
	// the file: -1 leaves the file as it was.
	Partial func(n int) int
	// ErrIO is a plain input/output error.
	ErrIO = errors.New("input/output error")
	// Log records the mutating operations, in order.
	Log []string
)

// ResetFS empties the file system.
func ResetFS(dirs ...string) {
	nodes, Fault, Partial, Log, temps = nil, nil, nil, nil, 0
	for _, d := range dirs {
		addDirs(d)
	}
}

func node(p string) *fnode {
	for _, n := range nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

func insert(n *fnode) {
	i := 0
	for i < len(nodes) && nodes[i].path < n.path {
		i++
	}
	r := append([]*fnode(nil), nodes[:i]...)
	r = append(r, n)
	nodes = append(r, nodes[i:]...)
}

func addDirs(p string) error {
	if p == "." || p == "/" || p == "" {
		return nil
	}
	if n := node(p); n != nil {
		if n.dir {
			return nil
		}
		return errors.New("not a directory")
	}
	if err := addDirs(filepath.Dir(p)); err != nil {
		return err
	}
	insert(&fnode{path: p, dir: true})
	return nil
}

func isDir(p string) bool {
	if p == "." || p == "/" {
		return true
	}
	n := node(p)
	return n != nil && n.dir
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// begin is the scheduling point before a step on the file system; the step
// depends on the content of path and, for what names there are in a
// directory, on that directory.
func begin(op, path string) error {
	p := filepath.Clean(path)
	const all = "fs"
	switch {
	case Fault != nil:
		vsym.Touch("", all)
	case op == "open" || op == "stat" || op == "lstat" || op == "readdir":
		vsym.Touch(all+"\n"+p, "")
	case op == "write" || op == "remove":
		vsym.Touch(all, p+"\n"+filepath.Dir(p))
	case op == "mkdir" && known(p):
		vsym.Touch(all+"\n"+p, "")
	default:
		vsym.Touch("", all)
	}
	var err error
	if Fault != nil { // may use the file system itself
		err = Fault(op, path)
	}
	vsym.Enter()
	if err != nil {
		return perr(op, path, err)
	}
	return nil
}

func known(p string) bool {
	vsym.Enter()
	defer vsym.Leave()
	return isDir(p)
}

// Put places a file directly, without faults (harness use).
func Put(path string, data []byte) {
	path = filepath.Clean(path)
	addDirs(filepath.Dir(path))
	if n := node(path); n != nil {
		n.data = append([]byte(nil), data...)
		return
	}
	insert(&fnode{path: path, data: append([]byte(nil), data...)})
}

// Peek reads a file directly, without faults (harness use).
func Peek(path string) ([]byte, bool) {
	n := node(filepath.Clean(path))
	if n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Files lists the paths of all regular files (harness use).
func Files() []string {
	var r []string
	for _, n := range nodes {
		if !n.dir {
			r = append(r, n.path)
		}
	}
	return r
}

func ReadFile(name string) ([]byte, error) {
	path := filepath.Clean(name)
	err := begin("open", name)
	defer vsym.Leave()
	if err != nil {
		return nil, err
	}
	n := node(path)
	if n == nil {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	if n.dir {
		return nil, perr("read", name, errors.New("is a directory"))
	}
	return append([]byte(nil), n.data...), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	path := filepath.Clean(name)
	err := begin("write", name)
	defer vsym.Leave()
	n := node(path)
	if n == nil && !isDir(filepath.Dir(path)) {
		return perr("open", name, fs.ErrNotExist)
	}
	if n != nil && n.dir {
		return perr("open", name, errors.New("is a directory"))
	}
	keep := len(data)
	if err != nil {
		keep = -1
		if Partial != nil {
			keep = Partial(len(data))
		}
		if keep < 0 {
			return err
		}
	}
	if n == nil {
		n = &fnode{path: path}
		insert(n)
	}
	// the file is emptied first; others may see that, or remove it, before
	// the data is there
	n.data = nil
	vsym.Leave()
	vsym.Touch("fs", path)
	vsym.Enter()
	n.data = append([]byte(nil), data[:keep]...)
	Log = append(Log, "write "+path)
	return err
}

func Remove(name string) error {
	path := filepath.Clean(name)
	err := begin("remove", name)
	defer vsym.Leave()
	if err != nil {
		return err
	}
	n := node(path)
	if n == nil {
		return perr("remove", name, fs.ErrNotExist)
	}
	if n.dir {
		for _, m := range nodes {
			if strings.HasPrefix(m.path, path+"/") {
				return perr("remove", name, errors.New("directory not empty"))
			}
		}
	}
	drop(func(m *fnode) bool { return m == n })
	Log = append(Log, "remove "+path)
	return nil
}

func drop(f func(*fnode) bool) {
	var r []*fnode
	for _, m := range nodes {
		if !f(m) {
			r = append(r, m)
		}
	}
	nodes = r
}

func RemoveAll(name string) error {
	path := filepath.Clean(name)
	err := begin("removeall", name)
	defer vsym.Leave()
	if err != nil {
		return err
	}
	drop(func(m *fnode) bool { return m.path == path || strings.HasPrefix(m.path, path+"/") })
	Log = append(Log, "removeall "+path)
	return nil
}

type finfo struct{ n fnode }

func (f finfo) Name() string { return filepath.Base(f.n.path) }
func (f finfo) Size() int64  { return int64(len(f.n.data)) }
func (f finfo) Mode() fs.FileMode {
	if f.n.dir {
		return fs.ModeDir | 0777
	}
	return 0666
}
func (f finfo) ModTime() time.Time         { return time.Unix(0, NowNS) }
func (f finfo) IsDir() bool                { return f.n.dir }
func (f finfo) Sys() any                   { return nil }
func (f finfo) Type() fs.FileMode          { return f.Mode() & fs.ModeType }
func (f finfo) Info() (fs.FileInfo, error) { return f, nil }

func Stat(name string) (fs.FileInfo, error) {
	path := filepath.Clean(name)
	err := begin("stat", name)
	defer vsym.Leave()
	if err != nil {
		return nil, err
	}
	if n := node(path); n != nil {
		return finfo{*n}, nil
	}
	if isDir(path) {
		return finfo{fnode{path: path, dir: true}}, nil
	}
	return nil, perr("stat", name, fs.ErrNotExist)
}

func MkdirAll(name string, perm fs.FileMode) error {
	err := begin("mkdir", name)
	defer vsym.Leave()
	if err != nil {
		return err
	}
	if err := addDirs(filepath.Clean(name)); err != nil {
		return perr("mkdir", name, err)
	}
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	path := filepath.Clean(name)
	err := begin("mkdir", name)
	defer vsym.Leave()
	if err != nil {
		return err
	}
	if node(path) != nil {
		return perr("mkdir", name, fs.ErrExist)
	}
	if !isDir(filepath.Dir(path)) {
		return perr("mkdir", name, fs.ErrNotExist)
	}
	insert(&fnode{path: path, dir: true})
	return nil
}

func Rename(from, to string) error {
	err := begin("rename", from)
	defer vsym.Leave()
	if err != nil {
		return err
	}
	n := node(filepath.Clean(from))
	if n == nil || !isDir(filepath.Dir(filepath.Clean(to))) {
		return perr("rename", from, fs.ErrNotExist)
	}
	if n.dir {
		return perr("rename", from, errors.New("directories are outside the model"))
	}
	drop(func(m *fnode) bool { return m == n || m.path == filepath.Clean(to) })
	n.path = filepath.Clean(to)
	insert(n)
	Log = append(Log, "rename "+from+" "+to)
	return nil
}

// WalkDir visits the tree in lexical order.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	path := filepath.Clean(root)
	err := begin("lstat", root)
	var self *fnode
	if err == nil {
		self = node(path)
		if self == nil && isDir(path) {
			self = &fnode{path: path, dir: true}
		}
		if self == nil {
			err = perr("lstat", root, fs.ErrNotExist)
		}
	}
	vsym.Leave()
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, self, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(path string, n *fnode, fn fs.WalkDirFunc) error {
	vsym.Enter()
	d := finfo{*n}
	vsym.Leave()
	if err := fn(path, d, nil); err != nil || !n.dir {
		if err == fs.SkipDir && n.dir {
			err = nil
		}
		return err
	}
	var kids []*fnode
	err := begin("readdir", path)
	if err == nil {
		for _, m := range nodes {
			if filepath.Dir(m.path) == n.path && m.path != n.path {
				kids = append(kids, m)
			}
		}
	}
	vsym.Leave()
	if err != nil {
		// second call, reporting the unreadable directory
		if err = fn(path, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, k := range kids {
		if err := walk(filepath.Join(path, filepath.Base(k.path)), k, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// File is an open file of the in-memory file system.
type File struct {
	n      *fnode
	name   string
	pos    int
	flag   int
	closed bool
}

// Create, Open and OpenFile open files; opening for writing is a write.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	path := filepath.Clean(name)
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
		op = "write"
	}
	err := begin(op, name)
	defer vsym.Leave()
	if err != nil {
		return nil, err
	}
	n := node(path)
	switch {
	case n == nil && (flag&os.O_CREATE == 0 || !isDir(filepath.Dir(path))):
		return nil, perr("open", name, fs.ErrNotExist)
	case n != nil && n.dir && op == "write":
		return nil, perr("open", name, errors.New("is a directory"))
	case n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", name, fs.ErrExist)
	case n == nil:
		n = &fnode{path: path}
		insert(n)
		Log = append(Log, "write "+path)
	case flag&os.O_TRUNC != 0:
		n.data = nil
		Log = append(Log, "write "+path)
	}
	return &File{n: n, name: name, flag: flag}, nil
}

var temps int

// CreateTemp makes a new file with a name of its own.
func CreateTemp(dir, pattern string) (*File, error) {
	temps++
	num := "7" + string(rune('0'+temps/10%10)) + string(rune('0'+temps%10))
	name := pattern + num
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		name = pattern[:i] + num + pattern[i+1:]
	}
	if dir == "" {
		dir = "/tmp"
	}
	return OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func (f *File) Name() string { return f.name }

func (f *File) Write(b []byte) (int, error) {
	if f.closed {
		return 0, perr("write", f.name, fs.ErrClosed)
	}
	err := begin("write", f.n.path)
	defer vsym.Leave()
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	keep := len(b)
	if err != nil {
		keep = 0
		if Partial != nil {
			if keep = Partial(len(b)); keep < 0 {
				keep = 0
			}
		}
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = len(f.n.data)
	}
	d := append([]byte(nil), f.n.data...)
	for len(d) < f.pos {
		d = append(d, 0)
	}
	tail := []byte(nil)
	if len(d) > f.pos+keep {
		tail = d[f.pos+keep:]
	}
	f.n.data = append(append(append([]byte(nil), d[:f.pos]...), b[:keep]...), tail...)
	f.pos += keep
	Log = append(Log, "write "+f.n.path)
	return keep, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if f.closed {
		return 0, perr("read", f.name, fs.ErrClosed)
	}
	err := begin("open", f.n.path)
	defer vsym.Leave()
	if err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr("read", f.name, errors.New("is a directory"))
	}
	if f.pos >= len(f.n.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	k := copy(b, f.n.data[f.pos:])
	f.pos += k
	return k, nil
}

func (f *File) Truncate(size int64) error {
	err := begin("write", f.n.path)
	defer vsym.Leave()
	if err != nil {
		return err
	}
	d := append([]byte(nil), f.n.data...)
	for len(d) < int(size) {
		d = append(d, 0)
	}
	f.n.data = d[:size]
	Log = append(Log, "write "+f.n.path)
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	err := begin("stat", f.n.path)
	defer vsym.Leave()
	if err != nil {
		return nil, err
	}
	return finfo{*f.n}, nil
}

func (f *File) Sync() error { return nil }

func (f *File) Close() error {
	if f.closed {
		return perr("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	return nil
}
