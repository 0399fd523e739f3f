package props

import (
	"fmt"
	"io/fs"

	"simv/ref"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C14", Runs: 120000, Body: c14,
		Rule: "Each run works on one disk: it takes the fault-free result of an operation (decode, open, encode, save, reading accessors, writing an image), performs the operation one to four times under faults (source that stalls for ever or for a while, errors that are permanent, temporary or repeated, full disks, failing creates, closes and reads, buffers whose data is missing), with a bound on calls and statements for each attempt, and then repeats it without faults: the result must be the fault-free one. A run is non-trivial when a fault was delivered.",
	})
}

const callLimit = 20000 // calls of streams and files by one operation beyond the bytes to move

func c14(e *Env) {
	switch e.G.N(5) {
	case 0, 1:
		c14read(e)
	case 2, 3:
		c14write(e)
	default:
		c14model(e)
	}
}

// c14read: sources that stall or fail, then one that does not.
func c14read(e *Env) {
	e.DrawSpot()
	g := e.G
	src := e.AnyAsset()
	a := src.Asset
	desc := src.Desc
	if g.Chance(1, 6) { // errors of the input itself must stay the same as well
		a = &Asset{Main: Mutate(g, a.Main), Files: a.Files}
		desc += ", damaged"
	}
	d0, err0 := e.DecodeClean(a)
	want := outcome(d0, err0)
	need := len(a.Main)
	if err0 == nil {
		need = needed(a.Main, d0)
	}
	e.S.Event("asset", desc, a.Main, len(a.Files), errText(err0))
	e.Newdisk()
	e.Store(a, e.At)
	name := e.At + "/" + e.Base
	e.Disk.Put(name, a.Main)
	fsys := e.NewFS(e.At)
	same := new(gltf.Document) // a caller that decodes into the same document again
	reuse := g.N(3) == 2
	total := len(a.Main)
	for _, c := range a.Files {
		total += len(c)
	}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		k := e.F.N(len(a.Main) + 1)
		if e.F.N(3) == 0 {
			k = e.drawCut(a.Main, need)
		}
		p := DrawPlan(e.F)
		doc := new(gltf.Document)
		if reuse {
			doc = same
		}
		ops := e.Disk.Ops
		var err error
		stalled := false
		what := ""
		switch e.F.N(4) {
		case 0: // stall
			r := e.NewReader(a.Main, p)
			r.StallAt = k
			if e.F.N(3) == 2 {
				r.Stalls = 1 + e.F.N(80)
			}
			what = fmt.Sprintf("Decode of a source that stalls at %d %d times", k, r.Stalls)
			e.within(what, total, func() { err = decodeInto(doc, r, fsys) })
			stalled = r.Hit && r.Stalls == 0
			e.calls(what, r.Calls+e.Disk.Ops-ops, total)
			if stalled && err == nil && k < need {
				e.S.Fail("stall-accepted", "%s returned no error though only %d of %d needed bytes arrived", what, k, need)
			}
			if r.Hit {
				e.Nontrivial()
			}
			if !stalled && outcome(doc, err) != want && r.Stalls < 40 {
				e.S.Fail("stall-not-survived", "%s, which then went on: %s instead of %s", what, errText(err), brief(d0, err0))
			}
		case 1: // fail
			r := e.NewReader(a.Main, p)
			r.FailAt, r.FailErr = k, DrawErr(e.F)
			r.Fails = e.F.N(3)
			what = fmt.Sprintf("Decode of a source that fails at %d", k)
			e.within(what, total, func() { err = decodeInto(doc, r, fsys) })
			e.calls(what, r.Calls+e.Disk.Ops-ops, total)
			if r.Hit {
				e.Nontrivial()
			}
		case 2: // files fail
			r := e.NewReader(a.Main, p)
			fired := e.anyFaults(1 + 4*len(a.Files))
			what = "Decode with failing buffer files"
			if e.F.N(2) == 0 {
				e.within(what, total, func() { err = decodeInto(doc, r, fsys) })
			} else {
				e.within(what, total, func() { err = decodeInto(doc, r, e.dressFS(fsys)) })
			}
			e.calls(what, r.Calls+e.Disk.Ops-ops, total)
			if *fired > 0 {
				e.Nontrivial()
			}
		case 3:
			fired := e.anyFaults(4 + 4*len(a.Files))
			what = "Open"
			e.within(what, total, func() { _, err = gltf.Open(e.Spelled) })
			e.calls(what, e.Disk.Ops-ops, total)
			if *fired > 0 {
				e.Nontrivial()
			}
		}
		e.Disk.Hook = nil
		e.S.Event("attempt", what, errText(err))
	}
	// The faults are over.
	var d *gltf.Document
	var err error
	how := "Decode"
	switch g.N(3) {
	case 0:
		how = "Open"
		e.within(how, total, func() { d, err = gltf.Open(e.Spelled) })
	default:
		d = new(gltf.Document)
		if reuse && err0 == nil {
			how, d = "Decode into the same document", same
		}
		e.within(how, total, func() { err = decodeInto(d, e.NewReader(a.Main, nil), fsys) })
	}
	e.S.Event("recovered", how, errText(err))
	if got := outcome(d, err); got != want {
		e.S.Fail("not-recovered", "%s of an asset (%s) after the faults had stopped: %s; without any fault: %s", how, desc, cmp(got, want, d, err), brief(d0, err0))
	}
}

func decodeInto(d *gltf.Document, r *Reader, fsys fs.FS) error {
	return gltf.NewDecoderFS(r, fsys).Decode(d)
}

// within runs an operation that moves n bytes.
func (e *Env) within(what string, n int, f func()) {
	e.DoBounded(what, 300_000+60*int64(n), f)
}

// calls checks the number of stream and file calls of one operation.
func (e *Env) calls(what string, calls, n int) {
	if calls > callLimit+3*n {
		e.S.Fail("too-many-calls", "%s made %d calls of streams and files for %d bytes", what, calls, n)
	}
}

// c14write: destinations that fail, then ones that do not.
func c14write(e *Env) {
	j := e.DrawJob()
	if j.How == "save" {
		j.Set.Prefix, j.Set.Indent = "", ""
	}
	dry := j.DryRun()
	if dry == nil {
		e.S.Fail("spurious-error", "%v of a valid document failed without any fault", j)
	}
	e.Newdisk()
	e.Dirs(j.Dir)
	w := e.NewWriter()
	var enc *gltf.Encoder
	if j.How != "save" && e.G.N(2) == 0 { // one encoder for all attempts
		if j.How == "encode" {
			enc = j.Set.NewEncoder(e.dressSink(w), e.NewFS(j.Dir))
		} else {
			enc = j.Set.NewEncoder(e.dressSink(w), nil)
		}
	}
	total := dry.Bytes
	for _, c := range dry.Files {
		total += len(c)
	}
	attempt := func() (main []byte, err error) {
		w.Calls, w.Buf = 0, nil
		ops := e.Disk.Ops
		e.DoBounded(j.String(), 300_000+60*int64(total), func() {
			if enc != nil {
				err = enc.Encode(j.Doc)
				main = w.Buf
			} else {
				main, err = j.Run(w)
			}
		})
		e.calls(j.String(), w.Calls+e.Disk.Ops-ops, total)
		return main, err
	}
	for i, n := 0, 1+e.G.N(4); i < n; i++ {
		w.Hit, w.FailOp, w.FailAt, w.Once = false, -1, -1, false
		if e.F.N(3) > 0 {
			if e.F.N(2) == 0 {
				w.FailOp = e.F.N(dry.Calls + 1)
			} else {
				w.FailAt = e.F.N(dry.Bytes + 1)
			}
			w.FailErr, w.Partial, w.Once = DrawErr(e.F), e.F.N(200), e.F.N(2) == 1
		}
		fired := new(int)
		if w.FailErr == nil || e.F.N(2) == 0 {
			fired = e.anyFaults(2 + len(dry.Disk))
		}
		_, err := attempt()
		e.Disk.Hook = nil
		if w.Hit || *fired > 0 {
			e.Nontrivial()
		}
		e.S.Event("attempt", j.String(), errText(err))
	}
	w.Hit, w.FailOp, w.FailAt = false, -1, -1
	main, err := attempt()
	e.S.Event("recovered", errText(err))
	if err != nil {
		e.S.Fail("not-recovered", "%v after the faults had stopped failed: %v", j, err)
	}
	if string(main) != string(dry.Main) {
		e.S.Fail("not-recovered", "%v after the faults had stopped gives other bytes than without any fault: %s", j, firstDiff(string(dry.Main), string(main)))
	}
	if m := sameFiles(dry.Files, e.Disk.Snapshot()); m != "" {
		e.S.Fail("not-recovered", "%v after the faults had stopped: %s", j, m)
	}
	if j.How == "save" {
		d, err := gltf.Open(j.Spelled)
		if err != nil {
			e.S.Fail("not-recovered", "the file saved after the faults had stopped cannot be opened: %v", err)
		}
		if got, want := Content(d), Saved(j.Doc, j.Set.Binary); got != want {
			e.S.Fail("not-recovered", "the file saved after the faults had stopped: %s", diff(got, want))
		}
	}
}

// c14model: accessors whose data is missing for a while, images whose reader
// fails.
func c14model(e *Env) {
	g := e.G
	d := e.AccessorDoc(1 + g.N(4))
	for step, n := 0, 2+g.N(6); step < n; step++ {
		if g.N(4) == 3 {
			c14image(e, d)
			continue
		}
		a := d.Accessors[g.N(len(d.Accessors))]
		values := ref.Values(d, a)
		var rs []*typed
		for k := range typedReaders {
			if r := &typedReaders[k]; has(r.comps, a.ComponentType) && has(r.types, a.Type) {
				rs = append(rs, r)
			}
		}
		var r *typed
		what := "ReadAccessor"
		if len(rs) > 0 && g.N(2) == 0 {
			r = rs[g.N(len(rs))]
			what = r.name
		}
		var v any
		var err error
		read := func(b *scratch) {
			e.DoBounded(what, opLimit, func() {
				if r != nil {
					v, err = r.read(d, a, b)
				} else {
					v, err = modeler.ReadAccessor(d, a, b.bytes())
				}
			})
		}
		// The data is not there (yet).
		saved := make([][]byte, len(d.Buffers))
		for i, b := range d.Buffers {
			saved[i] = b.Data
			switch e.F.N(3) {
			case 0:
				b.Data = nil
			case 1:
				b.Data = b.Data[:e.F.N(len(b.Data)+1)]
			}
		}
		e.S.Fault("buffer data missing")
		for i, n := 0, 1+g.N(3); i < n; i++ {
			read(e.drawScratch())
			if err != nil {
				e.Nontrivial()
			}
			e.S.Event("attempt", what, errText(err))
		}
		for i, b := range d.Buffers {
			b.Data = saved[i]
		}
		read(e.drawScratch())
		e.S.Event("recovered", what, errText(err))
		want := values
		if r != nil {
			want = make([][]uint64, len(values))
			for i := range values {
				want[i] = r.conv(a.ComponentType, values[i])
			}
		}
		c10check(e, what+" of "+describe(d, a)+" after its data had arrived", v, err, want)
	}
}

// c14image: an image whose reader fails at first.
func c14image(e *Env, d *gltf.Document) {
	data := make([]byte, 1+e.G.Size(3000))
	e.G.Bytes(data)
	for i, n := 0, 1+e.G.N(3); i < n; i++ {
		r := e.NewReader(data, DrawPlan(e.F))
		r.FailAt, r.FailErr = e.F.N(len(data)+1), DrawErr(e.F)
		var err error
		e.within("WriteImage", len(data), func() { _, err = modeler.WriteImage(d, "x", "image/png", r) })
		e.calls("WriteImage", r.Calls, len(data))
		e.S.Event("attempt", "WriteImage", errText(err))
		if r.Hit {
			e.Nontrivial()
		}
		if err == nil {
			e.S.Fail("error-lost", "WriteImage returned no error although its reader failed")
		}
	}
	imgs, views := len(d.Images), len(d.BufferViews)
	idx := -1
	var err error
	e.within("WriteImage", len(data), func() { idx, err = modeler.WriteImage(d, "x", "image/png", e.NewReader(data, DrawPlan(e.F))) })
	if err != nil || idx != imgs || len(d.Images) != imgs+1 || len(d.BufferViews) != views+1 {
		e.S.Fail("not-recovered", "WriteImage after its reader had recovered: index %d of %d images and %d new views, %s", idx, len(d.Images), len(d.BufferViews)-views, errText(err))
	}
	im := d.Images[idx]
	if im.BufferView == nil || *im.BufferView >= len(d.BufferViews) {
		e.S.Fail("not-recovered", "WriteImage after its reader had recovered made an image without data")
	}
	got, err := ref.ViewBytes(d, d.BufferViews[*im.BufferView])
	if err != nil || string(got) != string(data) {
		e.S.Fail("not-recovered", "WriteImage after its reader had recovered stored other bytes: %d and %d, %s", len(got), len(data), errText(err))
	}
}
