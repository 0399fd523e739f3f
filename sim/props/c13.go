package props

import (
	"errors"
	"fmt"

	"simv/simos"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C13", Runs: 280000, Body: c13,
		Rule: "Each run takes a deep snapshot of a document (optionally with all buffers in one piece of memory, with payloads that refuse to be encoded, with values no valid asset has, or with damaged accessors) and performs 1 to 4 encodes, saves and rounds of reads on it, fault-free or with failing, full or panicking destinations, failing file calls and killed processes; the document is compared with the snapshot after every operation and also during it, whenever the library calls the destination or a file operation. A run is non-trivial when an operation failed or the document was inspected during one.",
	})
}

// refusing is an extension payload that cannot be encoded.
type refusing struct{ Why string }

func (r refusing) MarshalJSON() ([]byte, error) { return nil, errors.New(r.Why) }

// oneBlock moves the data of all buffers into one piece of memory, as a
// program that loads a whole file and cuts it up has it.
func (e *Env) oneBlock(d *gltf.Document) {
	n := 0
	for _, b := range d.Buffers {
		n += len(b.Data)
	}
	block := make([]byte, 0, n+8)
	for _, b := range d.Buffers {
		block = append(block, b.Data...)
	}
	at := 0
	block = block[:cap(block)]
	for _, b := range d.Buffers {
		b.Data = block[at : at+len(b.Data)]
		at += len(b.Data)
	}
	for i := at; i < len(block); i++ {
		block[i] = 0xEE
	}
}

// spare is the memory after the last buffer's data.
func spare(d *gltf.Document) string {
	s := ""
	for _, b := range d.Buffers {
		if b == nil || cap(b.Data) == len(b.Data) || len(b.Data) == 0 {
			continue
		}
		s += fmt.Sprintf("%x;", b.Data[len(b.Data):min(cap(b.Data), len(b.Data)+8)])
	}
	return s
}

func c13(e *Env) {
	g := e.G
	var d *gltf.Document
	acc := g.N(3) == 0
	if acc {
		d = e.AccessorDoc(1 + g.N(4))
	} else {
		gen := e.NewGen()
		gen.NoExt = g.N(3) == 0
		gen.ExternalDirs = []string{"", "", "sub"}
		d = gen.Doc()
		gen.Buffers(d)
	}
	if g.N(2) == 0 {
		e.oneBlock(d)
		e.S.Probe("buffers share memory")
	}
	if g.Chance(1, 8) {
		n := &gltf.Node{Name: "refusing"}
		if g.N(2) == 0 {
			n.Extensions = gltf.Extensions{"REFUSING": refusing{"no"}}
		} else {
			n.Extras = refusing{"no"}
		}
		d.Nodes = append(d.Nodes, n)
		e.S.Fault("payload refuses to be encoded")
	}
	if acc && g.Chance(1, 3) { // reads that fail
		a := d.Accessors[g.N(len(d.Accessors))]
		switch g.N(4) {
		case 0:
			a.Count += 1 + g.N(1000)
		case 1:
			a.ByteOffset += 1 + g.N(1000)
		case 2:
			a.BufferView = gltf.Index(99)
		case 3:
			if a.Sparse != nil {
				a.Sparse.Count += 1 + g.N(50)
			}
		}
		e.S.Fault("accessor damaged")
	}
	if g.Chance(1, 3) {
		e.odd(d, 6)
		e.S.Probe("odd values")
	}
	before := Dump(d) + spare(d)
	check := func(when string) {
		if now := Dump(d) + spare(d); now != before {
			e.S.Fail("document-changed", "%s the document is not as it was: %s", when, diff(before, now))
		}
	}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		if acc && g.N(3) > 0 {
			c13read(e, d, check)
		} else {
			c13write(e, d, check)
		}
	}
}

func c13write(e *Env, d *gltf.Document, check func(string)) {
	j := e.newJob(d)
	e.Newdisk()
	e.Dirs(j.Dir)
	w := e.NewWriter()
	if e.F.N(3) > 0 {
		if e.F.N(2) == 0 {
			w.FailOp = e.F.N(12)
		} else {
			w.FailAt = e.F.N(1500)
		}
		w.Partial, w.FailErr, w.Once = e.F.N(64), DrawErr(e.F), e.F.N(2) == 1
		w.Panic = e.F.Chance(1, 5)
	}
	crashAt := -1
	if e.F.N(2) == 0 {
		e.anyFaults(2 + 3*len(d.Buffers))
		if e.F.Chance(1, 4) {
			crashAt = e.F.N(4 + 2*len(d.Buffers))
		}
	}
	hook := e.Disk.Hook
	inside := e.F.N(2) == 0
	base := e.Disk.Ops
	e.Disk.Hook = func(op simos.Op) simos.Action {
		if inside {
			e.Nontrivial()
			check("during " + j.String() + " (file " + op.Kind + ")")
		}
		if crashAt >= 0 && op.Seq-base == crashAt {
			e.S.Fault("crash", op.Kind)
			return simos.Action{Crash: true, Partial: e.F.N(op.N + 1)}
		}
		if hook != nil {
			return hook(op)
		}
		return simos.Action{}
	}
	if inside {
		w.OnWrite = func() { e.Nontrivial(); check("during " + j.String() + " (write)") }
	}
	var err error
	what := ""
	crashed := e.S.TryCrash(func() {
		if w.Panic {
			// The panic is the destination's own.
			if p := e.S.Try(func() { err = c13job(j, w) }); p != nil {
				if !w.Hit {
					e.S.Fail("panic", "%v panicked: %s\n%s", j, p.Value, p.Stack)
				}
				what = "destination panicked"
			}
			return
		}
		_, err = j.Run(w)
	})
	if crashed {
		what = "killed"
		e.Disk.Restart()
	}
	e.Disk.Hook = nil
	if err != nil || what != "" {
		e.Nontrivial()
	}
	e.S.Event("wrote", j.String(), errText(err), what)
	check(fmt.Sprintf("after %v (%s %s)", j, errText(err), what))
}

// c13job is Job.Run letting panics through.
func c13job(j *Job, w *Writer) (err error) {
	e := j.e
	switch j.How {
	case "save":
		if j.Set.Binary {
			return gltf.SaveBinary(j.Doc, j.Spelled)
		}
		return gltf.Save(j.Doc, j.Spelled)
	case "encode":
		return j.Set.NewEncoder(e.dressSink(w), e.NewFS(j.Dir)).Encode(j.Doc)
	}
	return j.Set.NewEncoder(e.dressSink(w), nil).Encode(j.Doc)
}

func c13read(e *Env, d *gltf.Document, check func(string)) {
	g := e.G
	a := d.Accessors[g.N(len(d.Accessors))]
	var err error
	what := ""
	switch k := g.N(4); k {
	case 0:
		what = "ReadAccessor"
		b := e.drawScratch()
		e.DoBounded(what, opLimit, func() { _, err = modeler.ReadAccessor(d, a, b.bytes()) })
	case 1:
		if len(d.BufferViews) == 0 {
			return
		}
		what = "ReadBufferView"
		e.DoBounded(what, opLimit, func() { _, err = modeler.ReadBufferView(d, d.BufferViews[g.N(len(d.BufferViews))]) })
	default:
		r := &typedReaders[g.N(len(typedReaders))]
		if k == 3 {
			for i := range typedReaders {
				if x := &typedReaders[i]; has(x.comps, a.ComponentType) && has(x.types, a.Type) {
					r = x
				}
			}
		}
		what = r.name
		b := e.drawScratch()
		e.DoBounded(what, opLimit, func() { _, err = r.read(d, a, b) })
	}
	if err != nil {
		e.Nontrivial()
	}
	e.S.Event("read", what, errText(err))
	check(fmt.Sprintf("after %s (%s)", what, errText(err)))
}
