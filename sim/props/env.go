// Package props holds the simulated scenarios and oracles, one per property.
package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"simv/ref"
	"simv/simos"
	"simv/simrt"

	"github.com/qmuntal/gltf"
)

// Prop is one checked property.
type Prop struct {
	ID          string
	Race        bool  // build with the race detector
	MemLimit    int64 // address-space limit of a worker, bytes
	Runs        int   // runs of the quick check
	Thorough    int   // runs of the thorough check
	MaxSteps    int64
	Rule        string
	Level       string
	Body        func(e *Env)
	Assumptions []string
}

// All is every claimed property by id.
var All = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	All[p.ID] = p
}

// Env is what a scenario works with.
type Env struct {
	S    *simrt.Sim
	G    *simrt.Stream
	F    *simrt.Stream
	Disk *simos.Disk
	Run  uint64 // unique number of this run within its process

	// Where the run keeps its asset.
	At, Base string
	Spelled  string // as the caller writes it

	enc  keptEncoder
	into *gltf.Document // where the next Decode puts its result
}

var runs uint64

// NewEnv prepares a run.
func NewEnv(s *simrt.Sim) *Env {
	runs++
	e := &Env{S: s, G: s.G, F: s.F, Run: runs, Disk: simos.NewDisk(), At: "/sim/a", Base: "main.file", Spelled: "a/main.file"}
	simos.Use(e.Disk)
	return e
}

// Names of directories and main files no special meaning may be read into.
var spotDirs = []string{"/sim/a", "/", "/sim", "/sim/s p", "/sim/%41", "/sim/%2e%2e", "/sim/#d", "/sim/d?q=1", "/sim/日本/ü", "/sim/..x", "/sim/.h", "/sim/c:", "/sim/a+b", "/sim/[x]*", "/sim/sim", "/srv/sub/sub", "/sim/ends.gltf", "/sim/..."}
var spotBases = []string{"main.file", "m.gltf", "M.GLTF", "m.glb", "x.GLB", "%41.gltf", "%2e%2e%2f", "a b.glb", "#.gltf", "q?.gltf", "ü日本.gltf", ".gltf", "..gltf", "...", "main", "n.json", "x.gltf.glb", "data:x.gltf", "data:application;base64,AAAA", "a:b.glb", "+.gltf", "[a]*.gltf", "ends.", "buffer.bin", "http:"}

// DrawSpot chooses where the asset of this run is kept.
func (e *Env) DrawSpot() {
	if e.G.N(3) != 0 {
		return
	}
	e.At, e.Base = spotDirs[e.G.N(len(spotDirs))], spotBases[e.G.N(len(spotBases))]
	full := path.Join(e.At, e.Base)
	e.Spelled = full
	if rel, ok := strings.CutPrefix(full, "/sim/"); ok && e.G.N(2) == 0 {
		e.Spelled = []string{rel, "./" + rel, "../sim/" + rel, rel}[e.G.N(4)]
	}
	if e.At == "/" {
		e.At = "" // prefix of the paths
	}
	e.S.Event("spot", e.At, e.Spelled)
}

// Newdisk gives the run a fresh disk.
func (e *Env) Newdisk() *simos.Disk {
	e.Disk = simos.NewDisk()
	simos.Use(e.Disk)
	return e.Disk
}

// UseDisk switches to d.
func (e *Env) UseDisk(d *simos.Disk) {
	e.Disk = d
	simos.Use(d)
}

// Nontrivial marks the run as one that exercised the property.
func (e *Env) Nontrivial() { e.S.Probe("nontrivial") }

// Do runs code under test; a panic of it is a violation.
func (e *Env) Do(what string, f func()) {
	if p := e.S.Try(f); p != nil {
		e.S.Fail("panic", "%s panicked: %s\n%s", what, p.Value, p.Stack)
	}
}

// Limit for any single operation, in executed statements and stream calls.
const (
	opLimit  = 3_000_000
	bigLimit = 60_000_000 // where elements are counted in ten thousands
)

// DoBounded is Do with a bound on the steps.
func (e *Env) DoBounded(what string, limit int64, f func()) {
	if e.S.Multi() { // steps of other tasks count as well; the run has its own limit
		e.Do(what, f)
		return
	}
	e.S.WithLimit(limit, "no-termination", func() { e.Do(what, f) })
}

// ---- delivery -------------------------------------------------------------

// Plan decides in which pieces bytes are handed over.
type Plan struct {
	mode    int
	chunk   int
	empties int // one in n reads is empty; 0 = never
	eofWith bool
	delays  bool
	run     int
	slept   int
	empty   int
	pieces  int
}

// DrawPlan chooses a delivery.
func DrawPlan(st *simrt.Stream) *Plan {
	p := &Plan{mode: st.N(4)}
	switch p.mode {
	case 2:
		p.chunk = 1 + st.Size(64)
	case 3:
		p.chunk = []int{2, 3, 5, 11, 12, 13, 19, 20, 21, 64, 511, 512, 513, 4095, 4096, 4097}[st.N(16)]
	}
	if st.Chance(1, 3) {
		p.empties = 1 + st.N(4)
	}
	p.eofWith = st.Chance(1, 3)
	p.delays = st.Chance(1, 6)
	return p
}

// CoarsePlan is DrawPlan with pieces that are not tiny.
func CoarsePlan(st *simrt.Stream) *Plan {
	p := DrawPlan(st)
	switch p.mode {
	case 1:
		p.mode = 0
	case 2:
		p.chunk += 200
	case 3:
		p.chunk += 500
	}
	return p
}

func (p *Plan) String() string {
	return fmt.Sprintf("mode=%d chunk=%d empties=%d eofWith=%v delays=%v", p.mode, p.chunk, p.empties, p.eofWith, p.delays)
}

// Next is the size of the next piece (0: an empty read).
func (p *Plan) Next(s *simrt.Sim, want int) int {
	if p.delays && p.slept < 40 && s.F.Chance(1, 8) {
		p.slept++
		s.Sleep(time.Duration(1+s.F.N(5000)) * time.Millisecond)
		s.Fault("delay")
	}
	if p.empties > 0 && p.run < 20 && p.empty < 300 && s.F.N(p.empties+1) == p.empties {
		p.empty++
		p.run++
		s.Fault("empty read")
		return 0
	}
	p.run = 0
	if p.pieces++; p.pieces > 40000 { // long enough for what is small
		return want
	}
	switch p.mode {
	case 1:
		return 1
	case 2:
		return min(want, 1+s.F.N(p.chunk))
	case 3:
		return min(want, p.chunk)
	}
	return want
}

// Reader is a caller's source.
type Reader struct {
	s       *simrt.Sim
	Name    string
	Data    []byte
	Pos     int
	P       *Plan
	FailAt  int // byte position from which reads fail; -1 never
	FailErr error
	Fails   int // failing reads before it works again; 0 = for ever
	StallAt int // byte position at which it returns 0, nil; -1 never
	Stalls  int // how many times; 0 = for ever
	Calls   int
	Closed  int
	failed  int
	stalled int
	Hit     bool // a failing or stalled read was delivered
	AtEOF   bool
}

// NewReader returns a source without faults.
func (e *Env) NewReader(data []byte, p *Plan) *Reader {
	return &Reader{s: e.S, Name: "source", Data: data, P: p, FailAt: -1, StallAt: -1}
}

func (r *Reader) Read(b []byte) (int, error) {
	simrt.Yield("source read")
	r.Calls++
	if len(b) == 0 {
		return 0, nil
	}
	if r.StallAt >= 0 && r.Pos >= r.StallAt && (r.Stalls == 0 || r.stalled < r.Stalls) {
		r.stalled++
		r.Hit = true
		if r.stalled == 1 {
			r.s.Fault("source stalls", r.Pos)
		}
		return 0, nil
	}
	failing := r.FailAt >= 0 && (r.Fails == 0 || r.failed < r.Fails)
	if failing && r.Pos >= r.FailAt {
		r.failed++
		r.Hit = true
		if r.failed == 1 {
			r.s.Fault("source read error", r.Pos, r.FailErr.Error())
		}
		return 0, r.FailErr
	}
	left := len(r.Data) - r.Pos
	if left == 0 {
		r.AtEOF = true
		r.s.Event("source EOF")
		return 0, io.EOF
	}
	n := len(b)
	if n > left {
		n = left
	}
	if failing && n > r.FailAt-r.Pos {
		n = r.FailAt - r.Pos
	}
	if r.StallAt > r.Pos && n > r.StallAt-r.Pos {
		n = r.StallAt - r.Pos
	}
	if r.P != nil {
		n = r.P.Next(r.s, n)
	}
	copy(b[:n], r.Data[r.Pos:])
	simrt.RaceWrite(b[:n])
	r.Pos += n
	r.s.Event("source read", n)
	if r.P != nil && r.P.eofWith && n > 0 {
		if failing && r.Pos == r.FailAt && r.StallAt < 0 {
			r.failed++
			r.Hit = true
			r.s.Fault("source read error with data", r.Pos, r.FailErr.Error())
			return n, r.FailErr
		}
		if r.Pos == len(r.Data) {
			r.s.Fault("EOF together with data")
			r.AtEOF = true
			return n, io.EOF
		}
	}
	return n, nil
}

// Close must never be called.
func (r *Reader) Close() error { r.Closed++; r.s.Event("source closed"); return nil }

// What callers hand in often has more methods than Read.
type (
	sizedReader struct{ *Reader }
	seekReader  struct {
		*Reader
		base int  // bytes before the first one of Data, which were read already
		back *int // how far the position is before Data
	}
	byteReader struct{ *Reader }
	copyReader struct{ *Reader }
	fileReader struct {
		seekReader
	}
)

func (r sizedReader) Len() int    { return len(r.Data) - r.Pos }
func (r sizedReader) Size() int64 { return int64(len(r.Data)) }

func (e *Env) seekable(r *Reader) seekReader {
	x := seekReader{r, 0, new(int)}
	if e.G.N(2) == 1 {
		x.base = 1 + e.G.N(40)
	}
	return x
}

func (r seekReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.base + r.Pos - *r.back)
	case io.SeekEnd:
		off += int64(r.base + len(r.Data))
	}
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	r.s.Event("source seek", off)
	p := int(off) - r.base
	*r.back = max(0, -p)
	r.Pos = min(max(0, p), len(r.Data))
	return off, nil
}

func (r seekReader) Read(b []byte) (int, error) {
	if *r.back > 0 && len(b) > 0 {
		b[0] = '['
		*r.back--
		return 1, nil
	}
	return r.Reader.Read(b)
}

func (r byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 200; i++ {
		if n, err := r.Read(b[:]); n > 0 || err != nil {
			if n > 0 {
				err = nil
			}
			return b[0], err
		}
	}
	return 0, io.ErrNoProgress
}

func (r byteReader) UnreadByte() error {
	if r.Pos == 0 {
		return errors.New("nothing to unread")
	}
	r.Pos--
	return nil
}

func (r copyReader) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 512)
	for i := 0; i < 200; i++ {
		m, err := r.Read(b)
		if m > 0 {
			i = 0
			k, werr := w.Write(b[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
	return n, io.ErrNoProgress
}

func (r fileReader) Name() string { return "/sim/not there" }
func (r fileReader) Stat() (fs.FileInfo, error) {
	return nil, fs.ErrInvalid
}

// dress gives a source methods, or a type, that callers' sources have.
func (e *Env) dress(r io.Reader) io.Reader {
	x, ok := r.(*Reader)
	if !ok {
		return r
	}
	switch e.G.N(12) {
	case 6:
		return sizedReader{x}
	case 7:
		return e.seekable(x)
	case 8:
		return byteReader{x}
	case 9:
		return copyReader{x}
	case 10:
		return fileReader{e.seekable(x)}
	case 11:
		if x.FailAt < 0 && x.StallAt < 0 {
			switch e.G.N(4) {
			case 0:
				return bufio.NewReaderSize(x, 16+e.G.N(8))
			case 1:
				return bufio.NewReaderSize(x, []int{64, 4095, 4096, 10000}[e.G.N(4)])
			}
			if x.P == nil && x.Pos == 0 {
				x.Pos, x.AtEOF = len(x.Data), true // not used
				return e.source(x.Data)
			}
		}
	}
	return r
}

// source gives data as one of the standard library's readers, some of which
// were read from before.
func (e *Env) source(data []byte) io.Reader {
	before := 0
	if e.G.N(2) == 1 {
		before = 1 + e.G.N(40)
	}
	all := make([]byte, before, before+len(data)+before)
	for i := range all {
		all[i] = '{'
	}
	all = append(all, data...)
	var r io.Reader
	switch e.G.N(7) {
	case 0:
		r = bytes.NewReader(all)
	case 1:
		r = bytes.NewBuffer(all)
	case 2:
		r = strings.NewReader(string(all))
	case 3: // a part of something larger
		all = append(all, "}}}}"...)
		return io.NewSectionReader(bytes.NewReader(all), int64(before), int64(len(data)))
	case 4:
		all = append(all, "}}}}"...)
		x := bytes.NewReader(all)
		x.Seek(int64(before), io.SeekStart)
		return io.LimitReader(x, int64(len(data)))
	case 5:
		r = bufio.NewReaderSize(bytes.NewReader(all), []int{16, 64, 4096, 10000}[e.G.N(4)])
	default:
		k := before + e.G.N(len(data)+1)
		r = io.MultiReader(bytes.NewReader(all[:k]), strings.NewReader(""), bytes.NewBuffer(append([]byte(nil), all[k:]...)))
	}
	io.CopyN(io.Discard, r, int64(before))
	return r
}

// Writer is a caller's destination.
type Writer struct {
	s       *simrt.Sim
	Buf     []byte
	FailAt  int // byte position at which writes fail; -1 never
	FailErr error
	FailOp  int // call number which fails; -1 never
	Partial int
	Once    bool
	Calls   int
	Closed  int
	Hit     bool
	Crash   bool
	delays  bool
	OnWrite func()
	Panic   bool // fail by panicking
}

// NewWriter returns a destination without faults.
func (e *Env) NewWriter() *Writer { return &Writer{s: e.S, FailAt: -1, FailOp: -1} }

func (w *Writer) Write(b []byte) (int, error) {
	simrt.Yield("sink write")
	simrt.RaceRead(b)
	op := w.Calls
	w.Calls++
	if w.OnWrite != nil {
		w.OnWrite()
	}
	if w.Panic && (w.FailOp >= 0 && op == w.FailOp || w.FailAt >= 0 && len(w.Buf)+len(b) > w.FailAt) {
		w.Hit = true
		w.s.Fault("sink panics")
		panic("sink panics")
	}
	if w.delays && w.s.F.Chance(1, 4) {
		w.s.Fault("delay")
		w.s.Sleep(time.Second)
	}
	if w.Hit && !w.Once {
		w.s.Event("sink write fails again")
		return 0, w.FailErr
	}
	if !w.Hit && w.FailOp >= 0 && op == w.FailOp {
		w.Hit = true
		n := 0
		if len(b) > 0 {
			n = w.Partial % (len(b) + 1)
			if n == len(b) && n > 0 {
				n--
			}
		}
		w.Buf = append(w.Buf, b[:n]...)
		w.s.Fault("sink write error", op, n, w.FailErr.Error())
		return n, w.FailErr
	}
	if !w.Hit && w.FailAt >= 0 && len(w.Buf)+len(b) > w.FailAt {
		w.Hit = true
		n := w.FailAt - len(w.Buf)
		w.Buf = append(w.Buf, b[:n]...)
		w.s.Fault("sink full", len(w.Buf), w.FailErr.Error())
		return n, w.FailErr
	}
	w.Buf = append(w.Buf, b...)
	w.s.Event("sink write", b)
	return len(b), nil
}

// Close must never be called.
func (w *Writer) Close() error { w.Closed++; w.s.Event("sink closed"); return nil }

// fancyWriter has the optional interfaces an encoder could look for.
type fancyWriter struct{ *Writer }

func (w fancyWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w fancyWriter) WriteByte(c byte) error            { _, err := w.Write([]byte{c}); return err }
func (w fancyWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 100)
	for {
		m, err := r.Read(b)
		if m > 0 {
			k, werr := w.Write(b[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// plainWriter can do nothing but Write.
type plainWriter struct{ w *Writer }

func (w plainWriter) Write(b []byte) (int, error) { return w.w.Write(b) }

// pipeWriter is like an open file that is the end of a pipe.
type pipeWriter struct{ fancyWriter }

func (w pipeWriter) Name() string                       { return "|1" }
func (w pipeWriter) Seek(int64, int) (int64, error)     { return 0, syscall.ESPIPE }
func (w pipeWriter) WriteAt([]byte, int64) (int, error) { return 0, syscall.ESPIPE }
func (w pipeWriter) Truncate(int64) error               { return syscall.EINVAL }
func (w pipeWriter) Sync() error                        { return syscall.EINVAL }
func (w pipeWriter) Stat() (fs.FileInfo, error)         { return nil, syscall.EIO }
func (w pipeWriter) Read([]byte) (int, error)           { return 0, syscall.EBADF }

// dressSink gives the sink more or less than Write and Close, as callers' have.
func (e *Env) dressSink(w io.Writer) io.Writer {
	p, ok := w.(*Writer)
	if !ok {
		return w
	}
	switch e.F.N(6) {
	case 3:
		return plainWriter{p}
	case 4:
		return fancyWriter{p}
	case 5:
		return pipeWriter{fancyWriter{p}}
	}
	return w
}

type customErr struct{ s string }

func (e *customErr) Error() string { return e.s }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var ioErrs = []error{syscall.EIO, errors.New("boom"), &customErr{"custom"}, syscall.ENOSPC, timeoutErr{}, io.ErrUnexpectedEOF,
	fs.ErrPermission, syscall.EINTR, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", syscall.EDQUOT), io.ErrShortWrite, fs.ErrNotExist, io.ErrNoProgress,
	syscall.ETIMEDOUT, syscall.EAGAIN, os.ErrDeadlineExceeded, syscall.EBUSY, context.DeadlineExceeded}

// DrawErr chooses an error.
func DrawErr(st *simrt.Stream) error { return ioErrs[st.N(len(ioErrs))] }

var openErrs = []error{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOSPC, syscall.EROFS, syscall.EINTR, syscall.ENOENT, syscall.ENAMETOOLONG}

// ---- file systems ---------------------------------------------------------

// FS is a caller's file system on the simulated disk.
type FS struct {
	s     *simrt.Sim
	D     *simos.Disk
	Dir   string
	Names []string // as passed by the library
	P     *Plan
	Size  int // 0 true, 1 zero, 2 too small, 3 too large, 4 error, 5 negative
	bare  int // 1: handles that can do nothing but what fs.File and io.WriteCloser ask for
}

// bareFile is an open file without anything fs.File does not have.
type bareFile struct{ h *simos.File }

func (b bareFile) Read(p []byte) (int, error) { return b.h.Read(p) }
func (b bareFile) Stat() (fs.FileInfo, error) { return b.h.Stat() }
func (b bareFile) Close() error               { return b.h.Close() }

// bareSink is a created file without anything io.WriteCloser does not have.
type bareSink struct{ h *simos.File }

func (b bareSink) Write(p []byte) (int, error) { return b.h.Write(p) }
func (b bareSink) Close() error                { return b.h.Close() }

// NewFS makes a file system over directory dir of the current disk.
func (e *Env) NewFS(dir string) *FS {
	e.Dirs(dir)
	return &FS{s: e.S, D: e.Disk, Dir: dir, bare: e.F.N(2)}
}

// Dirs makes dir and the directories generated buffer names live in.
func (e *Env) Dirs(dir string) {
	e.Disk.MkdirAll(dir + "/sub")
	e.Disk.MkdirAll(dir + "/a/b")
}

func (f *FS) note(kind, name string) {
	simos.Note(&f.Names, name)
	f.s.Event(kind, name)
}

// Open implements fs.FS.
func (f *FS) Open(name string) (fs.File, error) {
	f.note("fs.Open", name)
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	h, err := f.D.OpenFile(f.Dir+"/"+name, simos.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	if f.bare == 1 {
		return bareFile{h}, nil
	}
	return h, nil
}

// Create implements gltf.CreateFS.
func (f *FS) Create(name string) (io.WriteCloser, error) {
	f.note("fs.Create", name)
	h, err := f.D.OpenFile(f.Dir+"/"+name, simos.O_RDWR|simos.O_CREATE|simos.O_TRUNC, 0o666)
	if err != nil {
		return nil, err
	}
	if f.bare == 1 {
		return bareSink{h}, nil
	}
	return h, nil
}

// ReadFileFS also has ReadFile.
type ReadFileFS struct{ *FS }

// ReadFile implements fs.ReadFileFS.
func (f ReadFileFS) ReadFile(name string) ([]byte, error) {
	f.note("fs.ReadFile", name)
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	h, err := f.D.OpenFile(f.Dir+"/"+name, simos.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var out []byte
	buf := make([]byte, 700)
	for {
		n, err := h.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			// what lies behind the slice is not part of the file
			for i, rest := 0, out[len(out):cap(out)]; i < len(rest); i++ {
				rest[i] = 0xee
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// StatFS also has Stat, which knows the file without opening it.
type StatFS struct{ *FS }

// Stat implements fs.StatFS.
func (f StatFS) Stat(name string) (fs.FileInfo, error) {
	f.note("fs.Stat", name)
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrInvalid}
	}
	return f.D.Stat(f.Dir + "/" + name)
}

// FullFS has everything package fs knows.
type FullFS struct{ StatFS }

// ReadFile implements fs.ReadFileFS.
func (f FullFS) ReadFile(name string) ([]byte, error) { return ReadFileFS{f.FS}.ReadFile(name) }

// Sub implements fs.SubFS.
func (f FullFS) Sub(dir string) (fs.FS, error) {
	f.note("fs.Sub", dir)
	if !fs.ValidPath(dir) {
		return nil, &fs.PathError{Op: "sub", Path: dir, Err: fs.ErrInvalid}
	}
	if dir == "." {
		return f, nil
	}
	x := *f.FS
	x.Dir += "/" + dir
	x.Names = nil
	return FullFS{StatFS{&x}}, nil
}

// ReadDir implements fs.ReadDirFS.
func (f FullFS) ReadDir(name string) ([]fs.DirEntry, error) {
	f.note("fs.ReadDir", name)
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrInvalid}
	}
	return f.D.ReadDir(f.Dir + "/" + name)
}

// Glob implements fs.GlobFS.
func (f FullFS) Glob(pattern string) ([]string, error) {
	f.note("fs.Glob", pattern)
	return fs.Glob(StatFS{f.FS}, pattern)
}

// dressFS gives the file system more than Open, as callers' have.
func (e *Env) dressFS(f *FS) fs.FS {
	switch e.F.N(4) {
	case 1:
		return StatFS{f}
	case 2:
		return FullFS{StatFS{f}}
	}
	return ReadFileFS{f}
}

// hook for reads of buffer files following a plan per file.
func (e *Env) deliverHook(plans map[string]*Plan, sizes int) func(simos.Op) simos.Action {
	return func(op simos.Op) simos.Action {
		var a simos.Action
		switch op.Kind {
		case "read":
			p := plans[op.Path]
			if p == nil {
				p = DrawPlan(e.F)
				plans[op.Path] = p
				e.S.Event("delivery", op.Path, p.String())
			}
			n := p.Next(e.S, op.N)
			if n == 0 && op.N > 0 {
				a.Empty = true
			}
			a.Short = n
			a.EOFNow = p.eofWith
		case "stat":
			true0, _ := e.Disk.Get(op.Path)
			switch sizes {
			case 1:
				a.SizeSet, a.Size = true, 0
			case 2:
				a.SizeSet, a.Size = true, int64(len(true0)/2)
			case 3:
				a.SizeSet, a.Size = true, int64(len(true0)*2+7)
			case 4:
				a.Err = syscall.EIO
			case 5:
				a.SizeSet, a.Size = true, -1
			}
			if sizes > 0 {
				e.S.Fault("file size misreported", sizes)
			}
		}
		return a
	}
}

// ---- operations -----------------------------------------------------------

// Setting are the encoder's settings.
type Setting struct {
	Binary         bool
	Prefix, Indent string
}

// DrawSetting chooses settings.
func DrawSetting(g *simrt.Stream) Setting {
	st := Setting{Binary: g.N(2) == 0}
	switch g.N(12) {
	case 8, 9:
		st.Indent = "  "
	case 10:
		st.Prefix, st.Indent = " ", "\t"
	case 11:
		st.Prefix = "\t"
	}
	return st
}

func (st Setting) String() string {
	return fmt.Sprintf("binary=%v prefix=%q indent=%q", st.Binary, st.Prefix, st.Indent)
}

// NewEncoder makes an encoder with settings.
func (st Setting) NewEncoder(w io.Writer, fsys gltf.CreateFS) *gltf.Encoder {
	var enc *gltf.Encoder
	if fsys == nil {
		enc = gltf.NewEncoder(w)
	} else {
		enc = gltf.NewEncoderFS(w, fsys)
	}
	enc.AsBinary = st.Binary
	if st.Prefix != "" || st.Indent != "" {
		enc.SetJSONIndent(st.Prefix, st.Indent)
	}
	return enc
}

// Encode encodes on the current disk below dir. In some runs all documents go
// through one encoder.
func (e *Env) Encode(d *gltf.Document, st Setting, w io.Writer, fsys gltf.CreateFS) (err error) {
	k := &e.enc
	if k.mode == 0 {
		k.mode = 1
		if e.F.Chance(1, 4) {
			k.mode = 2
		}
	}
	if k.mode == 1 || k.busy {
		w = e.dressSink(w)
		e.DoBounded("Encode", opLimit, func() { err = st.NewEncoder(w, fsys).Encode(d) })
		return err
	}
	k.busy = true
	use := func(d *gltf.Document, st Setting, w io.Writer, fsys gltf.CreateFS) (err error) {
		if k.enc == nil {
			k.enc = st.NewEncoder(&k.to, fsys)
		}
		k.enc.AsBinary, k.enc.Fsys, k.to.w = st.Binary, fsys, w
		k.enc.SetJSONIndent(st.Prefix, st.Indent)
		e.DoBounded("Encode by a kept encoder", opLimit, func() { err = k.enc.Encode(d) })
		if err != nil {
			k.enc = nil
		}
		return err
	}
	if e.F.N(3) == 0 { // something else before
		x := d
		if e.F.N(2) == 0 {
			x = e.NewGen().Doc()
			e.NewGen().Buffers(x)
		}
		saved := e.Disk
		e.Newdisk()
		e.S.Probe("encoder used before")
		use(x, st, e.NewWriter(), e.NewFS("/sim/before"))
		e.UseDisk(saved)
	}
	err = use(d, st, w, fsys)
	k.busy = false
	return err
}

// keptEncoder is an encoder that lives as long as the run.
type keptEncoder struct {
	mode int // 1 not used, 2 used
	busy bool
	enc  *gltf.Encoder
	to   turn
}

// turn passes on what is written to whoever it is for at the moment.
type turn struct{ w io.Writer }

func (t *turn) Write(p []byte) (int, error) { return t.w.Write(p) }

// Decode decodes into a new document, or the one in e.into.
func (e *Env) Decode(r io.Reader, fsys fs.FS) (d *gltf.Document, err error) {
	if d = e.into; d == nil {
		d = new(gltf.Document)
	} else {
		e.into = nil
	}
	r = e.dress(r)
	e.DoBounded("Decode", opLimit, func() {
		if fsys == nil {
			err = gltf.NewDecoder(r).Decode(d)
		} else {
			err = gltf.NewDecoderFS(r, fsys).Decode(d)
		}
	})
	return d, err
}

// Asset is an encoded document: main bytes and buffer files.
type Asset struct {
	Main  []byte
	Files map[string]string
}

// EncodeClean encodes without faults on a scratch disk.
func (e *Env) EncodeClean(d *gltf.Document, st Setting) (*Asset, error) {
	saved := e.Disk
	disk := e.Newdisk()
	fsys := e.NewFS("/sim/out")
	w := e.NewWriter()
	err := e.Encode(d, st, w, fsys)
	a := &Asset{Main: w.Buf, Files: map[string]string{}}
	for p, c := range disk.Snapshot() {
		a.Files[strings.TrimPrefix(p, "/sim/out/")] = c
	}
	e.UseDisk(saved)
	return a, err
}

// Store puts the asset's files under dir on the current disk.
func (e *Env) Store(a *Asset, dir string) {
	e.Dirs(dir)
	for f, c := range a.Files {
		e.Disk.Put(dir+"/"+f, []byte(c))
	}
}

// DecodeClean decodes an asset without faults.
func (e *Env) DecodeClean(a *Asset) (*gltf.Document, error) {
	saved := e.Disk
	e.Newdisk()
	e.Store(a, "/sim/in")
	d, err := e.Decode(e.NewReader(a.Main, nil), e.NewFS("/sim/in"))
	e.UseDisk(saved)
	return d, err
}

// Text of the asset for comparison.
func (a *Asset) Text() string {
	var ks []string
	for k := range a.Files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.Write(a.Main)
	for _, k := range ks {
		fmt.Fprintf(&b, "\n--%s %d:%x", k, len(a.Files[k]), simrt.HashString(a.Files[k]))
	}
	return b.String()
}

// NewGen makes a document generator for this run.
func (e *Env) NewGen() *ref.Gen {
	g := &ref.Gen{S: e.G, Density: e.G.N(4), MaxData: 300}
	switch e.G.N(24) {
	case 22:
		g.MaxData = 9000
	case 23:
		if e.G.N(3) == 2 {
			g.MaxData = 70000
			if e.G.N(8) == 7 {
				g.MaxData = 5 << 19
			}
		}
	}
	return g
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}
