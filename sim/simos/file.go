package simos

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"syscall"
	"time"

	"simv/simrt"
)

// File is an open file of the simulated disk.
type File struct {
	d    *Disk
	h    *Handle
	name string
}

func (f *File) ok(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.h.Closed > 0 {
		f.h.UseAfter++
		ev("use-after-close", op, f.h.Path)
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return uintptr(1000 + f.h.ID) }

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.h.Closed > 0 {
		f.h.Closed++
		ev("close-again", f.h.Path)
		return perr("close", f.name, fs.ErrClosed)
	}
	ro := 0
	if f.h.flags&(O_WRONLY|O_RDWR) == 0 {
		ro = 1
	}
	a := f.d.do("close", f.h.Path, ro)
	f.d.crash(a)
	f.h.Closed++
	ev("close", f.h.Path, f.h.ID)
	if a.Err != nil {
		return perr("close", f.name, a.Err)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	n, err := f.readAt(b, f.h.pos)
	f.h.pos += n
	return n, err
}

func (f *File) readAt(b []byte, pos int) (int, error) {
	if f.h.node.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.h.flags&(O_WRONLY) != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	a := f.d.do("read", f.h.Path, len(b))
	f.d.crash(a)
	if a.Empty && len(b) > 0 {
		return 0, nil
	}
	src := f.h.node.Data
	n := 0
	if pos < len(src) {
		n = len(src) - pos
	}
	if n > len(b) {
		n = len(b)
	}
	if a.Err != nil {
		if n > a.Partial {
			n = a.Partial
		}
		copy(b[:n], src[min(pos, len(src)):])
		simrt.RaceWrite(b[:n])
		ev("read", f.h.Path, n, a.Err.Error())
		return n, perr("read", f.name, a.Err)
	}
	if a.Short > 0 && n > a.Short {
		n = a.Short
	}
	if n == 0 && len(b) > 0 {
		ev("read", f.h.Path, "EOF")
		return 0, io.EOF
	}
	copy(b[:n], src[pos:])
	simrt.RaceWrite(b[:n])
	ev("read", f.h.Path, n)
	if a.EOFNow && pos+n >= len(src) {
		return n, io.EOF
	}
	return n, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	n := 0
	for n < len(b) {
		m, err := f.readAt(b[n:], int(off)+n)
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.h.flags&O_APPEND != 0 {
		f.h.pos = len(f.h.node.Data)
	}
	n, err := f.writeAt(b, f.h.pos)
	f.h.pos += n
	return n, err
}

func (f *File) writeAt(b []byte, pos int) (int, error) {
	if f.h.flags&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	a := f.d.do("write", f.h.Path, len(b))
	n := len(b)
	if a.Err != nil || a.Crash {
		n = min(n, a.Partial)
	}
	simrt.RaceRead(b)
	nd := f.h.node
	if n > 0 {
		if grow := pos + n - len(nd.Data); grow > 0 {
			nd.Data = append(nd.Data, make([]byte, grow)...)
		}
		copy(nd.Data[pos:], b[:n])
	}
	f.d.crash(a)
	if a.Err != nil {
		ev("write", f.h.Path, n, a.Err.Error())
		return n, perr("write", f.name, a.Err)
	}
	ev("write", f.h.Path, b)
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, int(off))
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	p := off
	switch whence {
	case io.SeekCurrent:
		p += int64(f.h.pos)
	case io.SeekEnd:
		p += int64(len(f.h.node.Data))
	}
	if p < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.h.pos = int(p)
	return p, nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	a := f.d.do("stat", f.h.Path, 0)
	f.d.crash(a)
	if a.Err != nil {
		return nil, perr("stat", f.name, a.Err)
	}
	return info(path.Base(f.h.Path), f.h.node, a), nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	a := f.d.do("sync", f.h.Path, 0)
	f.d.crash(a)
	if a.Err != nil {
		return perr("sync", f.name, a.Err)
	}
	f.h.node.durable = append([]byte(nil), f.h.node.Data...)
	f.h.node.onDisk = true
	return nil
}

func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	a := f.d.do("write", f.h.Path, 0)
	f.d.crash(a)
	if a.Err != nil {
		return perr("truncate", f.name, a.Err)
	}
	trunc(f.h.node, int(n))
	return nil
}

func trunc(n *Node, sz int) {
	for len(n.Data) < sz {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:sz]
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.ok("readdir"); err != nil {
		return nil, err
	}
	return f.d.readDir(f.h.Path)
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func (f *File) Chmod(fs.FileMode) error          { return f.ok("chmod") }
func (f *File) Chown(int, int) error             { return f.ok("chown") }
func (f *File) Chdir() error                     { return f.ok("chdir") }
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }
