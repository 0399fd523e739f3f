package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"simv/simrt"
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Args   = []string{"sim"}
	Stdin  = os.Stdin
	Stdout = os.Stdout
	Stderr = os.Stderr
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

var (
	IsExist         = os.IsExist
	IsNotExist      = os.IsNotExist
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	IsPathSeparator = os.IsPathSeparator
	NewSyscallError = os.NewSyscallError
	Expand          = os.Expand
)

func Open(name string) (*File, error)   { return cur.OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return cur.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return cur.OpenFile(name, flag, perm)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (FileInfo, error)        { return cur.Stat(name) }
func Lstat(name string) (FileInfo, error)       { return cur.Lstat(name) }
func ReadDir(name string) ([]DirEntry, error)   { return cur.readDir(name) }
func Mkdir(name string, perm FileMode) error    { return cur.mkdir(name, false) }
func MkdirAll(name string, perm FileMode) error { return cur.mkdir(name, true) }
func Remove(name string) error                  { return cur.remove(name, false) }
func RemoveAll(name string) error               { return cur.remove(name, true) }
func Rename(o, n string) error                  { return cur.rename(o, n) }
func Chmod(name string, mode FileMode) error    { _, err := cur.Stat(name); return err }
func Chown(name string, uid, gid int) error     { _, err := cur.Stat(name); return err }
func Lchown(name string, uid, gid int) error    { _, err := cur.Stat(name); return err }
func Chtimes(name string, a, m time.Time) error { _, err := cur.Stat(name); return err }
func Link(o, n string) error                    { return &LinkError{"link", o, n, syscall.EPERM} }
func Symlink(o, n string) error                 { return &LinkError{"symlink", o, n, syscall.EPERM} }
func Readlink(name string) (string, error)      { return cur.Readlink(name) }
func Getwd() (string, error)                    { return cur.Cwd, nil }
func TempDir() string                           { return "/tmp" }
func Chdir(dir string) error                    { cur.Cwd = cur.Abs(dir); return nil }
func Hostname() (string, error)                 { return "sim", nil }
func Getenv(key string) string                  { v, _ := LookupEnv(key); return v }
func Setenv(key, value string) error            { return nil }
func Unsetenv(key string) error                 { return nil }
func Environ() []string                         { return []string{"HOME=/sim", "TMPDIR=/tmp", "UP=..", "OLDPWD=/"} }
func ExpandEnv(s string) string                 { return os.Expand(s, Getenv) }
func Getpid() int                               { return 4242 }
func Getppid() int                              { return 1 }
func Getuid() int                               { return 1000 }
func Geteuid() int                              { return 1000 }
func Getgid() int                               { return 1000 }
func Getegid() int                              { return 1000 }
func Getpagesize() int                          { return 4096 }
func Executable() (string, error)               { return "/sim/exe", nil }
func UserHomeDir() (string, error)              { return "/sim", nil }
func UserCacheDir() (string, error)             { return "/tmp", nil }
func UserConfigDir() (string, error)            { return "/tmp", nil }
func Exit(code int)                             { panic(fmt.Sprintf("os.Exit(%d) called", code)) }

func Truncate(name string, size int64) error {
	n := cur.nodes.get(cur.Abs(name))
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	a := cur.do("write", cur.Abs(name), 0)
	cur.crash(a)
	if a.Err != nil {
		return perr("truncate", name, a.Err)
	}
	trunc(n, int(size))
	return nil
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok1 && ok2 && x.node == y.node
}

func tempName(dir, pattern string, try int) string {
	if dir == "" {
		dir = TempDir()
	}
	id := fmt.Sprint(1000 + try)
	if s := simrt.Cur(); s != nil {
		id = fmt.Sprint(s.P.N(1_000_000) + try*1_000_000)
	}
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return path.Join(dir, pattern[:i]+id+pattern[i+1:])
	}
	return path.Join(dir, pattern+id)
}

func CreateTemp(dir, pattern string) (*File, error) {
	for try := 0; ; try++ {
		f, err := OpenFile(tempName(dir, pattern, try), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if err == nil || !os.IsExist(err) || try > 100 {
			return f, err
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for try := 0; ; try++ {
		n := tempName(dir, pattern, try)
		err := Mkdir(n, 0o700)
		if err == nil || !os.IsExist(err) || try > 100 {
			return n, err
		}
	}
}

func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			return MkdirAll(path.Join(dir, p), 0o777)
		}
		b, err := fs.ReadFile(fsys, p)
		if err != nil {
			return err
		}
		return WriteFile(path.Join(dir, p), b, 0o666)
	})
}

// Root confines names to a directory, like os.Root.
type Root struct {
	dir    string
	closed bool
}

func OpenRoot(name string) (*Root, error) {
	i, err := Stat(name)
	if err != nil {
		return nil, err
	}
	if !i.IsDir() {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	return &Root{dir: name}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

func (r *Root) join(op, name string) (string, error) {
	if r.closed {
		return "", perr(op, name, fs.ErrClosed)
	}
	c := path.Clean(name)
	if name == "" || strings.HasPrefix(name, "/") || c == ".." || strings.HasPrefix(c, "../") {
		return "", perr(op, name, fmt.Errorf("path escapes from parent"))
	}
	root, full := cur.Real(r.dir), cur.Real(r.dir+"/"+name)
	if full != root && !strings.HasPrefix(full, strings.TrimSuffix(root, "/")+"/") {
		return "", perr(op, name, fmt.Errorf("path escapes from parent"))
	}
	return r.dir + "/" + name, nil
}

func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error { r.closed = true; return nil }
func (r *Root) Open(name string) (*File, error) {
	return r.OpenFile(name, O_RDONLY, 0)
}
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}
func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p, err := r.join("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}
func (r *Root) Stat(name string) (FileInfo, error) {
	p, err := r.join("statat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (r *Root) Lstat(name string) (FileInfo, error) {
	p, err := r.join("lstatat", name)
	if err != nil {
		return nil, err
	}
	return Lstat(p)
}
func (r *Root) Mkdir(name string, perm FileMode) error {
	p, err := r.join("mkdirat", name)
	if err != nil {
		return err
	}
	return Mkdir(p, perm)
}
func (r *Root) MkdirAll(name string, perm FileMode) error {
	p, err := r.join("mkdirat", name)
	if err != nil {
		return err
	}
	return MkdirAll(p, perm)
}
func (r *Root) Remove(name string) error {
	p, err := r.join("unlinkat", name)
	if err != nil {
		return err
	}
	return Remove(p)
}
func (r *Root) ReadFile(name string) ([]byte, error) {
	p, err := r.join("openat", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
func (r *Root) WriteFile(name string, data []byte, perm FileMode) error {
	p, err := r.join("openat", name)
	if err != nil {
		return err
	}
	return WriteFile(p, data, perm)
}
func (r *Root) FS() fs.FS { return dirFS(r.dir) }

// LookupEnv finds a variable of the simulated process.
func LookupEnv(key string) (string, bool) {
	for _, kv := range Environ() {
		if strings.HasPrefix(kv, key+"=") && key != "" {
			return kv[len(key)+1:], true
		}
	}
	return "", false
}

// Real and Lexical serve filepath.EvalSymlinks.
func Real(name string) string    { return cur.Real(name) }
func Lexical(name string) string { return cur.Abs(name) }
