package props

import (
	"fmt"
	"strings"

	"simv/ref"
	"simv/simos"
	"simv/simrt"

	"github.com/qmuntal/gltf"
)

// Job is one way of writing a document.
type Job struct {
	e   *Env
	Doc *gltf.Document
	Set Setting
	How string // save, encode, encode-noFS
	Dir string // directory of the asset

	Base, Spelled string // main file of a save
}

func (j *Job) name() string { return j.Dir + "/" + j.Base }

// DrawJob generates a document and a way to write it.
func (e *Env) DrawJob() *Job {
	g := e.NewGen()
	g.NoExt = e.G.N(2) == 0
	g.ExternalDirs = []string{"", "", "sub", "a/b"}
	if e.G.Chance(1, 12) {
		g.MaxData = max(g.MaxData, 70000)
	}
	d := g.Doc()
	g.Buffers(d)
	return e.newJob(d)
}

func (e *Env) newJob(d *gltf.Document) *Job {
	e.DrawSpot()
	return &Job{e: e, Doc: d, Set: DrawSetting(e.G), How: []string{"save", "encode", "encode", "encode-noFS"}[e.G.N(4)], Dir: e.At, Base: e.Base, Spelled: e.Spelled}
}

func (j *Job) String() string { return fmt.Sprintf("%s %v", j.How, j.Set) }

// Run writes the document on the current disk; the bytes of the main stream
// are returned whatever happened.
func (j *Job) Run(w *Writer) (main []byte, err error) {
	e := j.e
	e.Dirs(j.Dir)
	switch j.How {
	case "save":
		name := j.Spelled
		if j.Set.Binary {
			e.DoBounded("SaveBinary", opLimit, func() { err = gltf.SaveBinary(j.Doc, name) })
		} else {
			e.DoBounded("Save", opLimit, func() { err = gltf.Save(j.Doc, name) })
		}
		main, _ = e.Disk.Get(j.name())
		return main, err
	case "encode":
		err = e.Encode(j.Doc, j.Set, w, e.NewFS(j.Dir))
	default:
		err = e.Encode(j.Doc, j.Set, w, nil)
	}
	return w.Buf, err
}

// Clutter puts older contents where the job will write, or nearby.
func (j *Job) Clutter() {
	e := j.e
	if e.G.N(2) == 0 {
		return
	}
	e.Dirs(j.Dir)
	old := func(name string, size int) {
		n := size
		switch e.G.N(6) {
		case 0:
			return
		case 1, 2:
			n += 1 + e.G.Size(5000)
		case 3:
			n = e.G.N(n + 1)
		}
		b := make([]byte, n)
		simrt.FillBytes(b, e.G.U64())
		if n > 0 && e.G.N(2) == 0 {
			b[0] = '{'
		}
		e.S.Fault("older file at the destination", name, n)
		e.Disk.Put(name, b)
	}
	old(j.name(), 600)
	for _, b := range j.Doc.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
			old(j.Dir+"/"+normURI(b.URI), len(b.Data))
		}
	}
}

// Ops counts what a fault-free run does.
type Ops struct {
	Calls int // writes to the main stream
	Bytes int
	Disk  []simos.Op
	Main  []byte
	Files map[string]string
}

// DryRun performs the job without faults on a scratch disk; nil if it fails.
func (j *Job) DryRun() *Ops {
	e := j.e
	saved := e.Disk
	e.Newdisk()
	o := &Ops{}
	e.Disk.Hook = func(op simos.Op) simos.Action {
		o.Disk = append(o.Disk, op)
		return simos.Action{}
	}
	w := e.NewWriter()
	main, err := j.Run(w)
	if err != nil {
		e.UseDisk(saved)
		return nil
	}
	o.Calls, o.Bytes, o.Main = w.Calls, len(w.Buf), append([]byte(nil), main...)
	o.Files = e.Disk.Snapshot()
	e.UseDisk(saved)
	return o
}

// buffersStored checks that every byte of every external buffer with data is
// in the file its URI names.
func (j *Job) buffersStored(files map[string]string) string {
	if j.How == "encode-noFS" {
		return ""
	}
	for i, b := range j.Doc.Buffers {
		if b.URI == "" || strings.HasPrefix(b.URI, "data:") || len(b.Data) == 0 {
			continue
		}
		f := j.Dir + "/" + normURI(b.URI)
		c, ok := files[f]
		if !ok {
			return fmt.Sprintf("buffer %d with URI %q was not written", i, b.URI)
		}
		if c != string(b.Data) {
			return fmt.Sprintf("file %s of buffer %d has %d bytes that differ from the buffer's %d", f, i, len(c), len(b.Data))
		}
	}
	return ""
}

// sameFiles compares disk contents.
func sameFiles(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		v, ok := b[k]
		if !ok {
			return k + " is missing"
		}
		if v != a[k] {
			return fmt.Sprintf("%s differs: %d and %d bytes", k, len(a[k]), len(v))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " is extra"
		}
	}
	return ""
}

var _ = ref.Diff
