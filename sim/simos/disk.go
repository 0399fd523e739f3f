// Package simos stands in for package os in the instrumented build. Every
// file operation goes to a simulated disk whose faults, delivery sizes and
// crashes the simulation decides.
package simos

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"simv/simrt"
)

// Op is one file-system call, offered to the fault hook before it happens.
type Op struct {
	Seq  int
	Kind string // open create read write close stat rename remove mkdir readdir sync
	Path string
	N    int // bytes asked for; close: 1 if the handle cannot write
}

// Action is the hook's decision about one call. The zero value lets it pass.
type Action struct {
	Err     error // fail with this error ...
	Partial int   // ... after this many bytes were transferred
	Short   int   // >0: a read transfers at most this many bytes
	Crash   bool  // kill the process; a write transfers Partial bytes first
	Size    int64 // stat: report this size (SizeSet)
	SizeSet bool
	EOFNow  bool // read: return data together with io.EOF where possible
	Empty   bool // read: return 0, nil
	Delay   time.Duration
}

// Node is a file, a directory or a symbolic link.
type Node struct {
	Dir     bool
	Link    string // where a symbolic link leads to
	Data    []byte
	durable []byte
	onDisk  bool
	Mode    fs.FileMode
}

// Handle is an open file, kept for the rest of the run.
type Handle struct {
	ID       int
	Path     string
	Kind     string
	node     *Node
	pos      int
	flags    int
	Closed   int
	UseAfter int
	Task     int
}

// Access is one path the code under test touched.
type Access struct {
	Kind string
	Path string
	Name string // as passed
}

// Disk is a simulated disk.
type Disk struct {
	nodes    table
	links    int // symbolic links made so far
	Handles  []*Handle
	Accesses []Access
	Ops      int
	Hook     func(Op) Action
	Dead     bool // the process was killed: nothing reaches the disk any more
	Cwd      string
}

// NewDisk returns a disk with a root and a working directory.
func NewDisk() *Disk {
	d := &Disk{Cwd: "/sim"}
	d.MkdirAll("/sim")
	d.MkdirAll("/tmp")
	return d
}

var cur *Disk

// Use makes d the disk of the current run.
func Use(d *Disk) { cur = d }

func init() { simrt.OnReset = append(simrt.OnReset, func(*simrt.Sim) { cur = NewDisk() }) }

// Symlink makes a symbolic link outside the simulation's control.
func (d *Disk) Symlink(target, p string) {
	d.links++
	d.nodes.put(d.at(p, false), &Node{Link: target, onDisk: true, Mode: 0o777 | fs.ModeSymlink})
}

// Real returns the path name leads to, all symbolic links followed.
func (d *Disk) Real(name string) string { return d.at(name, true) }

// at is resolve for names that are no loops.
func (d *Disk) at(name string, follow bool) string {
	p, err := d.resolve(name, follow)
	if err != nil {
		return d.Abs(name)
	}
	return p
}

// resolve follows symbolic links like the kernel does; follow tells whether
// the last element is followed too.
func (d *Disk) resolve(name string, follow bool) (string, error) {
	if d.links == 0 {
		return d.Abs(name), nil
	}
	if !strings.HasPrefix(name, "/") {
		name = d.Cwd + "/" + name
	}
	if strings.HasSuffix(name, "/") {
		follow = true
	}
	at, rest := "/", name
	for hops := 0; rest != ""; {
		part := rest
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			part, rest = rest[:i], rest[i+1:]
		} else {
			rest = ""
		}
		switch part {
		case "", ".":
			continue
		case "..":
			at = path.Dir(at)
			continue
		}
		next := path.Join(at, part)
		n := d.nodes.get(next)
		if n == nil || n.Link == "" || (strings.Trim(rest, "/") == "" && !follow) {
			at = next
			continue
		}
		if hops++; hops > 40 {
			return "", syscall.ELOOP
		}
		if strings.HasPrefix(n.Link, "/") {
			at = "/"
		}
		rest = n.Link + "/" + rest
		if strings.Trim(rest[len(n.Link):], "/") == "" {
			rest = n.Link
		}
	}
	return at, nil
}

// Abs makes a name absolute and clean, whatever is there.
func (d *Disk) Abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = d.Cwd + "/" + name
	}
	return path.Clean(name)
}

// MkdirAll creates a directory outside the simulation's control.
func (d *Disk) MkdirAll(p string) {
	p = d.at(p, true)
	for q := p; ; q = path.Dir(q) {
		if d.nodes.get(q) == nil {
			d.nodes.put(q, &Node{Dir: true, Mode: 0o755 | fs.ModeDir, onDisk: true})
		}
		if q == "/" {
			return
		}
	}
}

// Put stores a durable file outside the simulation's control.
func (d *Disk) Put(p string, data []byte) {
	p = d.at(p, true)
	d.MkdirAll(path.Dir(p))
	d.nodes.put(p, &Node{Data: append([]byte(nil), data...), durable: append([]byte(nil), data...), onDisk: true, Mode: 0o644})
}

// Get returns a file's bytes.
func (d *Disk) Get(p string) ([]byte, bool) {
	n := d.nodes.get(d.at(p, true))
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Del removes a file.
func (d *Disk) Del(p string) { d.nodes.del(d.at(p, false)) }

// Files lists all files.
func (d *Disk) Files() []string {
	var out []string
	for i, p := range d.nodes.names {
		n := d.nodes.nodes[i]
		if !n.Dir && n.Link == "" {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Snapshot copies the contents of all files.
func (d *Disk) Snapshot() map[string]string {
	m := map[string]string{}
	for i, p := range d.nodes.names {
		n := d.nodes.nodes[i]
		if n.Link != "" {
			m[p] = "link to " + n.Link
		} else if !n.Dir {
			m[p] = string(n.Data)
		}
	}
	return m
}

// Clone copies the disk's contents, not its handles.
func (d *Disk) Clone() *Disk {
	c := &Disk{Cwd: d.Cwd, links: d.links}
	for i, p := range d.nodes.names {
		n := d.nodes.nodes[i]
		m := *n
		m.Data = append([]byte(nil), n.Data...)
		m.durable = append([]byte(nil), n.durable...)
		c.nodes.put(p, &m)
	}
	return c
}

// Flush makes everything durable (the kernel wrote back its cache).
func (d *Disk) Flush() {
	for _, n := range d.nodes.nodes {
		n.durable = append([]byte(nil), n.Data...)
		n.onDisk = true
	}
}

// Restart brings the process back; closed or lost handles are forgotten.
func (d *Disk) Restart() {
	d.Dead = false
	d.Handles = nil
	d.Hook = nil
}

// PowerLoss keeps of every file only what was durable, or any mix of old and
// new contents for files that were not flushed.
func (d *Disk) PowerLoss(s *simrt.Sim) {
	var ps []string
	for _, p := range append([]string(nil), d.nodes.names...) {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		n := d.nodes.get(p)
		if n.Dir || n.Link != "" || (n.onDisk && string(n.durable) == string(n.Data)) {
			continue
		}
		switch s.F.N(4) {
		case 0: // survived
		case 1:
			s.Fault("power-loss: write lost", p)
			if n.onDisk {
				n.Data = append([]byte(nil), n.durable...)
			} else {
				d.nodes.del(p)
				continue
			}
		case 2:
			s.Fault("power-loss: torn tail", p)
			n.Data = n.Data[:s.F.N(len(n.Data)+1)]
		case 3:
			s.Fault("power-loss: zeroed tail", p)
			for i := s.F.N(len(n.Data) + 1); i < len(n.Data); i++ {
				n.Data[i] = 0
			}
		}
		n.durable = append([]byte(nil), n.Data...)
		n.onDisk = true
	}
}

// Leaks lists handles that are not closed exactly once or were misused.
func (d *Disk) Leaks() []string {
	var out []string
	for _, h := range d.Handles {
		if h.Closed == 0 {
			out = append(out, "never closed: "+h.Kind+" "+h.Path)
		} else if h.Closed > 1 {
			out = append(out, "closed more than once: "+h.Kind+" "+h.Path)
		}
		if h.UseAfter > 0 {
			out = append(out, "used after close: "+h.Kind+" "+h.Path)
		}
	}
	return out
}

// do offers an operation to the hook.
func (d *Disk) do(kind, p string, n int) Action {
	s := simrt.Cur()
	if s == nil {
		return Action{}
	}
	simrt.Yield(kind)
	if d.Dead {
		panic(simrt.CrashSignal{})
	}
	op := Op{Seq: d.Ops, Kind: kind, Path: p, N: n}
	d.Ops++
	var a Action
	if d.Hook != nil {
		a = d.Hook(op)
	}
	if a.Delay > 0 {
		s.Sleep(a.Delay)
	}
	return a
}

func (d *Disk) crash(a Action) {
	if a.Crash {
		d.Dead = true
		panic(simrt.CrashSignal{})
	}
}

func ev(kind string, args ...any) {
	if s := simrt.Cur(); s != nil {
		s.Event(kind, args...)
	}
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func (d *Disk) parentOK(p string) error {
	n := d.nodes.get(path.Dir(p))
	if n == nil {
		// a file in the middle of the path gives ENOTDIR
		for q := path.Dir(p); q != "/"; q = path.Dir(q) {
			if m := d.nodes.get(q); m != nil && !m.Dir {
				return syscall.ENOTDIR
			}
		}
		return syscall.ENOENT
	}
	if !n.Dir {
		return syscall.ENOTDIR
	}
	return nil
}

// OpenFile is os.OpenFile on this disk.
func (d *Disk) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p, lerr := d.resolve(name, flag&syscall.O_NOFOLLOW == 0 && flag&(O_CREATE|O_EXCL) != O_CREATE|O_EXCL)
	if lerr != nil {
		p = d.Abs(name)
	}
	kind := "open"
	if flag&O_CREATE != 0 {
		kind = "create"
	} else if flag&(O_WRONLY|O_RDWR) != 0 {
		kind = "openw"
	}
	d.Accesses = append(d.Accesses, Access{kind, p, name})
	a := d.do(kind, p, 0)
	d.crash(a)
	if a.Err != nil {
		ev(kind, p, a.Err.Error())
		return nil, perr("open", name, a.Err)
	}
	if lerr != nil {
		return nil, perr("open", name, lerr)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if strings.ContainsRune(name, 0) {
		return nil, perr("open", name, syscall.EINVAL)
	}
	if err := d.parentOK(p); err != nil && p != "/" {
		ev(kind, p, err.Error())
		return nil, perr("open", name, err)
	}
	n := d.nodes.get(p)
	switch {
	case n == nil && flag&O_CREATE == 0:
		ev(kind, p, "ENOENT")
		return nil, perr("open", name, syscall.ENOENT)
	case n == nil:
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		n = &Node{Mode: perm}
		d.nodes.put(p, n)
	case flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL:
		return nil, perr("open", name, syscall.EEXIST)
	case n.Link != "":
		return nil, perr("open", name, syscall.ELOOP)
	case n.Dir && flag&(O_WRONLY|O_RDWR) != 0:
		ev(kind, p, "EISDIR")
		return nil, perr("open", name, syscall.EISDIR)
	case !n.Dir && strings.HasSuffix(name, "/"):
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	if flag&O_TRUNC != 0 && !n.Dir {
		n.Data = nil
	}
	h := &Handle{ID: len(d.Handles), Path: p, Kind: kind, node: n, flags: flag}
	if s := simrt.Cur(); s != nil {
		h.Task = s.CurTask()
	}
	d.Handles = append(d.Handles, h)
	ev(kind, p, h.ID)
	return &File{d: d, h: h, name: name}, nil
}

// Stat is os.Stat on this disk.
func (d *Disk) Stat(name string) (fs.FileInfo, error) { return d.stat(name, true) }

// Lstat is os.Lstat on this disk.
func (d *Disk) Lstat(name string) (fs.FileInfo, error) { return d.stat(name, false) }

// Readlink is os.Readlink on this disk.
func (d *Disk) Readlink(name string) (string, error) {
	i, err := d.stat(name, false)
	if err != nil {
		return "", err
	}
	if l := i.(fileInfo).node.Link; l != "" {
		return l, nil
	}
	return "", perr("readlink", name, syscall.EINVAL)
}

func (d *Disk) stat(name string, follow bool) (fs.FileInfo, error) {
	p, err := d.resolve(name, follow)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	d.Accesses = append(d.Accesses, Access{"stat", p, name})
	a := d.do("stat", p, 0)
	d.crash(a)
	if a.Err != nil {
		return nil, perr("stat", name, a.Err)
	}
	n := d.nodes.get(p)
	if n == nil || name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info(path.Base(p), n, a), nil
}

type fileInfo struct {
	name string
	size int64
	mode fs.FileMode
	node *Node
}

func info(name string, n *Node, a Action) fs.FileInfo {
	sz := int64(len(n.Data))
	if a.SizeSet {
		sz = a.Size
	}
	return fileInfo{name, sz, n.Mode, n}
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return i.mode }
func (i fileInfo) ModTime() time.Time { return time.Unix(1_000_000_000, 0) }
func (i fileInfo) IsDir() bool        { return i.node.Dir }
func (i fileInfo) Sys() any           { return nil }

// ReadDir lists a directory.
func (d *Disk) ReadDir(name string) ([]fs.DirEntry, error) { return d.readDir(name) }

func (d *Disk) readDir(name string) ([]fs.DirEntry, error) {
	p := d.at(name, true)
	d.Accesses = append(d.Accesses, Access{"readdir", p, name})
	a := d.do("readdir", p, 0)
	d.crash(a)
	if a.Err != nil {
		return nil, perr("open", name, a.Err)
	}
	n := d.nodes.get(p)
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var names []string
	for _, q := range append([]string(nil), d.nodes.names...) {
		if q != p && path.Dir(q) == p {
			names = append(names, q)
		}
	}
	sort.Strings(names)
	var out []fs.DirEntry
	for _, q := range names {
		out = append(out, fs.FileInfoToDirEntry(info(path.Base(q), d.nodes.get(q), Action{})))
	}
	return out, nil
}

func (d *Disk) mkdir(name string, all bool) error {
	p := d.at(name, all)
	d.Accesses = append(d.Accesses, Access{"mkdir", p, name})
	a := d.do("mkdir", p, 0)
	d.crash(a)
	if a.Err != nil {
		return perr("mkdir", name, a.Err)
	}
	if n := d.nodes.get(p); n != nil {
		if all && n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.EEXIST)
	}
	if all {
		for q := p; q != "/"; q = path.Dir(q) {
			if n := d.nodes.get(q); n != nil && !n.Dir {
				return perr("mkdir", q, syscall.ENOTDIR)
			}
		}
		d.MkdirAll(p)
		return nil
	}
	if err := d.parentOK(p); err != nil {
		return perr("mkdir", name, err)
	}
	d.nodes.put(p, &Node{Dir: true, Mode: 0o755 | fs.ModeDir, onDisk: true})
	return nil
}

func (d *Disk) remove(name string, all bool) error {
	p := d.at(name, false)
	d.Accesses = append(d.Accesses, Access{"remove", p, name})
	a := d.do("remove", p, 0)
	d.crash(a)
	if a.Err != nil {
		return perr("remove", name, a.Err)
	}
	n := d.nodes.get(p)
	if n == nil {
		if all {
			return nil
		}
		return perr("remove", name, syscall.ENOENT)
	}
	for _, q := range append([]string(nil), d.nodes.names...) {
		if n.Dir && q != p && strings.HasPrefix(q, p+"/") {
			if !all {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
			d.nodes.del(q)
		}
	}
	ev("remove", p)
	d.nodes.del(p)
	return nil
}

func (d *Disk) rename(o, n string) error {
	po, pn := d.at(o, false), d.at(n, false)
	d.Accesses = append(d.Accesses, Access{"rename", po, o}, Access{"rename", pn, n})
	a := d.do("rename", pn, 0)
	d.crash(a)
	if a.Err != nil {
		return &LinkError{"rename", o, n, a.Err}
	}
	if d.nodes.get(po) == nil {
		return &LinkError{"rename", o, n, syscall.ENOENT}
	}
	if err := d.parentOK(pn); err != nil {
		return &LinkError{"rename", o, n, err}
	}
	if m := d.nodes.get(pn); m != nil && m.Dir {
		return &LinkError{"rename", o, n, syscall.EEXIST}
	}
	ev("rename", po, pn)
	if po == pn {
		return nil
	}
	d.nodes.put(pn, d.nodes.get(po))
	d.nodes.del(po)
	return nil
}

// DirFS is os.DirFS on the current disk.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (f dirFS) join(op, name string) (string, error) {
	if f == "" {
		return "", perr(op, name, syscall.EINVAL)
	}
	if !fs.ValidPath(name) || strings.ContainsRune(name, 0) {
		return "", perr(op, name, fs.ErrInvalid)
	}
	if _, err := filepath.Localize(name); err != nil {
		return "", perr(op, name, fs.ErrInvalid)
	}
	return string(f) + "/" + name, nil
}

func (f dirFS) Open(name string) (fs.File, error) {
	p, err := f.join("open", name)
	if err != nil {
		return nil, err
	}
	h, err := Open(p)
	if err != nil {
		return nil, fixName(err, name)
	}
	return h, nil
}

func (f dirFS) ReadFile(name string) ([]byte, error) {
	p, err := f.join("readfile", name)
	if err != nil {
		return nil, err
	}
	b, err := ReadFile(p)
	if err != nil {
		return nil, fixName(err, name)
	}
	return b, nil
}

func (f dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := f.join("readdir", name)
	if err != nil {
		return nil, err
	}
	e, err := ReadDir(p)
	return e, fixName(err, name)
}

func (f dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := f.join("stat", name)
	if err != nil {
		return nil, err
	}
	i, err := Stat(p)
	return i, fixName(err, name)
}

func (f dirFS) Lstat(name string) (fs.FileInfo, error) { return f.lstat(name) }

func (f dirFS) ReadLink(name string) (string, error) {
	p, err := f.join("readlink", name)
	if err != nil {
		return "", err
	}
	l, err := Readlink(p)
	return l, fixName(err, name)
}

func (f dirFS) lstat(name string) (fs.FileInfo, error) {
	p, err := f.join("lstat", name)
	if err != nil {
		return nil, err
	}
	i, err := Lstat(p)
	return i, fixName(err, name)
}

func fixName(err error, name string) error {
	if e, ok := err.(*fs.PathError); ok {
		e.Path = name
	}
	return err
}

// Note appends to a list that tasks share. It lives here, where the race
// detector does not look: a caller's file system may be used concurrently.
func Note(list *[]string, s string) { *list = append(*list, s) }
