package props

import (
	"bytes"
	"encoding/binary"
	"path"

	"simv/ref"
	"simv/simos"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C03", Runs: 90000, Body: c03,
		Rule: "Each run generates an asset, decodes it completely, and then several times with the main source cut or failing at a drawn position (biased to headers, chunk boundaries and the last bytes), with a buffer file that cannot be opened or fails while it is read, or with buffer files cut short; a run is non-trivial when a cut or failure was delivered before everything needed had arrived.",
	})
}

// needed is how much of a valid asset must arrive before it is complete: all
// but what follows the JSON value or the data of the binary chunk.
func needed(main []byte, d *gltf.Document) int {
	glb := main
	if len(main) >= 20 && string(main[:4]) == "glTF" { // without trailing bytes
		glb = main[:min(len(main), int(binary.LittleEndian.Uint32(main[8:])))]
	}
	chunks, err := ref.ParseGLB(glb)
	if err != nil {
		return len(bytes.TrimRight(main, " \t\r\n"))
	}
	jl := len(chunks[0].Data)
	if len(chunks) > 1 && chunks[1].Type == ref.ChunkBIN && len(d.Buffers) > 0 && d.Buffers[0].URI == "" {
		return 20 + jl + 8 + d.Buffers[0].ByteLength
	}
	return 20 + len(bytes.TrimRight(chunks[0].Data, " \t\r\n"))
}

func (e *Env) drawCut(main []byte, need int) int {
	n := len(main)
	switch e.F.N(5) {
	case 0:
		return min(n, e.F.N(26))
	case 1:
		return max(0, min(n, need-3+e.F.N(8)))
	case 2:
		return max(0, n-1-e.F.N(6))
	case 3:
		if n >= 20 && string(main[:4]) == "glTF" { // around the end of the JSON chunk
			j := 20 + int(binary.LittleEndian.Uint32(main[12:]))
			return max(0, min(n, j-3+e.F.N(14)))
		}
	}
	return e.F.N(n + 1)
}

func c03(e *Env) {
	e.DrawSpot()
	src := e.AnyAsset()
	a := src.Asset
	d0, err := e.DecodeClean(a)
	if err != nil {
		e.S.Probe("asset rejected")
		return
	}
	want := Content(d0)
	need := needed(a.Main, d0)
	ext := map[int]string{} // buffers in files
	for i, b := range d0.Buffers {
		if b.URI != "" && !b.IsEmbeddedResource() {
			if f := path.Clean(b.URI); a.Files[f] != "" {
				ext[i] = f
			} else if f := normURI(b.URI); a.Files[f] != "" {
				ext[i] = f
			}
		}
	}
	e.S.Event("asset", src.Desc, a.Main, need, len(ext))
	for i, n := 0, 1+e.G.N(4); i < n; i++ {
		if e.G.N(5) == 0 { // a caller that decodes into the same document again
			if e.into, err = e.DecodeClean(a); err != nil {
				e.S.Fail("spurious-error", "the second Decode of an asset (%s) failed: %v", src.Desc, err)
			}
			for _, b := range e.into.Buffers {
				spoil(b.Data)
			}
			e.S.Probe("document used before")
		}
		e.Newdisk()
		switch k := e.F.N(5); {
		case k >= 3 && len(ext) > 0:
			if k == 3 {
				c03bufferFails(e, a, ext, src.Desc)
			} else {
				c03bufferCut(e, a, d0, ext, src.Desc)
			}
		default:
			c03main(e, a, want, need, src.Desc)
		}
		e.into = nil
	}
}

// c03main cuts or fails the main source.
func c03main(e *Env, a *Asset, want string, need int, desc string) {
	k := e.drawCut(a.Main, need)
	p := DrawPlan(e.F)
	fails := e.F.N(2) == 1
	ferr := DrawErr(e.F)
	once := fails && e.F.N(3) == 2
	file := e.F.N(2) == 1
	e.Store(a, e.At)
	what := "cut"
	if fails {
		what = "failing with " + ferr.Error()
		if once {
			what += " once"
		}
	}
	var d *gltf.Document
	var err error
	hit := false
	how := "Decode"
	if file {
		how = "Open"
		name := e.At + "/" + e.Base
		pos, failed := 0, 0
		if fails {
			e.Disk.Put(name, a.Main)
			e.Disk.Hook = func(op simos.Op) simos.Action {
				if op.Kind != "read" || op.Path != name {
					return simos.Action{}
				}
				if failed > 0 && once {
					return simos.Action{}
				}
				if pos >= k || pos+op.N > k && e.F.N(2) == 0 {
					failed++
					hit = true
					got := k - pos
					if got < 0 || failed > 1 {
						got = 0
					}
					pos += got
					e.S.Fault("file read error", name, k)
					return simos.Action{Err: ferr, Partial: got}
				}
				n := p.Next(e.S, min(op.N, k-pos))
				pos += min(n, len(a.Main)-pos)
				if n == 0 {
					return simos.Action{Empty: true}
				}
				return simos.Action{Short: n}
			}
		} else {
			e.Disk.Put(name, a.Main[:k])
			hit = true
			e.S.Fault("source cut", k)
		}
		e.DoBounded("Open", opLimit, func() { d, err = gltf.Open(e.Spelled) })
		if err != nil && d != nil {
			e.S.Fail("document-with-error", "Open failed (%v) but returned a document", err)
		}
		if err == nil && d == nil {
			e.S.Fail("no-document", "Open returned neither a document nor an error")
		}
	} else {
		r := e.NewReader(a.Main, p)
		if fails {
			r.FailAt, r.FailErr = k, ferr
			if once {
				r.Fails = 1
			}
		} else {
			r.Data = a.Main[:k]
			e.S.Fault("source cut", k)
		}
		d, err = e.Decode(r, e.NewFS(e.At))
		hit = !fails || r.Hit
	}
	if hit && k < need {
		e.Nontrivial()
	}
	e.S.Event("read", how, k, what, errText(err))
	if err != nil {
		if !hit {
			e.S.Fail("spurious-error", "%s of a complete asset (%s) failed although the failure at %d was never reached: %v", how, desc, k, err)
		}
		return
	}
	if hit && k < need && !once {
		e.S.Fail("truncation-accepted", "%s of an asset (%s) of %d bytes, %s at byte %d of %d needed, returned a document and no error", how, desc, len(a.Main), what, k, need)
	}
	if got := Content(d); got != want {
		e.S.Fail("wrong-document", "%s of an asset (%s) of %d bytes, %s at byte %d (%d needed), returned another document without error: %s", how, desc, len(a.Main), what, k, need, diff(got, want))
	}
}

// c03bufferFails lets the open or a read of one buffer file fail.
func c03bufferFails(e *Env, a *Asset, ext map[int]string, desc string) {
	e.Store(a, e.At)
	idx := sortedInts(ext)
	bi := idx[e.F.N(len(idx))]
	target := e.At + "/" + ext[bi]
	kind := []string{"open", "read"}[e.F.N(2)]
	ferr := DrawErr(e.F)
	if kind == "open" {
		ferr = openErrs[e.F.N(len(openErrs))]
	}
	p := DrawPlan(e.F)
	nth := e.F.Size(5)
	part := e.F.N(300)
	once := e.F.N(2) == 1
	count, fired := 0, false
	e.Disk.Hook = func(op simos.Op) simos.Action {
		if op.Path != target {
			return simos.Action{}
		}
		if op.Kind == kind && (!fired || !once) {
			if kind == "open" || count >= nth {
				fired = true
				e.S.Fault("buffer file "+kind+" error", op.Path, nth, ferr.Error())
				return simos.Action{Err: ferr, Partial: part}
			}
			count++
		}
		if op.Kind == "read" {
			n := p.Next(e.S, op.N)
			if n == 0 && op.N > 0 {
				return simos.Action{Empty: true}
			}
			return simos.Action{Short: n, EOFNow: p.eofWith}
		}
		return simos.Action{}
	}
	d, err, how := e.anyDecode(a)
	e.S.Event("read", how, fired, errText(err))
	if !fired {
		return
	}
	e.Nontrivial()
	if err == nil {
		e.S.Fail("buffer-error-swallowed", "%s of an asset (%s): %s of the file of buffer %d failed with %v, but no error was returned", how, desc, kind, bi, ferr)
	}
	if how == "Open" && d != nil {
		e.S.Fail("document-with-error", "Open failed (%v) but returned a document", err)
	}
}

// anyDecode decodes the asset stored in /sim/a on the current disk.
func (e *Env) anyDecode(a *Asset) (d *gltf.Document, err error, how string) {
	switch e.G.N(3) {
	case 0:
		d, err = e.Decode(e.NewReader(a.Main, nil), e.NewFS(e.At))
		return d, err, "Decode"
	case 1:
		d, err = e.Decode(e.NewReader(a.Main, nil), e.dressFS(e.NewFS(e.At)))
		return d, err, "Decode with ReadFileFS"
	}
	e.Disk.Put(e.At+"/"+e.Base, a.Main)
	e.DoBounded("Open", opLimit, func() { d, err = gltf.Open(e.Spelled) })
	return d, err, "Open"
}

// c03bufferCut cuts buffer files short.
func c03bufferCut(e *Env, a *Asset, d0 *gltf.Document, ext map[int]string, desc string) {
	cut := &Asset{Main: a.Main, Files: map[string]string{}}
	for k, v := range a.Files {
		cut.Files[k] = v
	}
	short := false
	for _, i := range sortedInts(ext) {
		f := ext[i]
		if e.F.N(3) == 2 {
			continue
		}
		c := a.Files[f]
		n := e.F.N(len(c) + 1)
		if e.F.N(2) == 1 {
			n = max(0, min(len(c), d0.Buffers[i].ByteLength)-1-e.F.N(3))
		}
		cut.Files[f] = c[:n]
		e.S.Fault("buffer file cut", f, n)
		short = short || n < d0.Buffers[i].ByteLength
	}
	e.Store(cut, e.At)
	e.Disk.Hook = e.deliverHook(map[string]*Plan{}, 0)
	d, err, how := e.anyDecode(cut)
	e.S.Event("read", how, short, errText(err))
	if short {
		e.Nontrivial()
	}
	if err != nil {
		return // refusing a short file is fine
	}
	for _, i := range sortedInts(ext) {
		f := ext[i]
		b := d.Buffers[i]
		want := cut.Files[f]
		want = want[:min(len(want), d0.Buffers[i].ByteLength)]
		if string(b.Data) != want {
			e.S.Fail("invented-data", "%s of an asset (%s): the file of buffer %d holds %d of %d bytes, but the buffer has %d bytes that differ from them", how, desc, i, len(cut.Files[f]), b.ByteLength, len(b.Data))
		}
	}
	for _, i := range sortedInts(ext) {
		have := len(d.Buffers[i].Data)
		for j := 0; j < 3; j++ {
			off := e.G.N(have + 3)
			n := 1 + e.G.N(8)
			if e.G.N(2) == 0 {
				n = max(1, have-off+e.G.N(3)-1)
			}
			bv := &gltf.BufferView{Buffer: i, ByteOffset: off, ByteLength: n}
			var got []byte
			var err error
			e.DoBounded("ReadBufferView", opLimit, func() { got, err = modeler.ReadBufferView(d, bv) })
			if off+n > have {
				if err == nil {
					e.S.Fail("invented-data", "reading bytes %d to %d of a buffer with %d bytes returned %d bytes and no error", off, off+n, have, len(got))
				}
			} else if err != nil || string(got) != string(d.Buffers[i].Data[off:off+n]) {
				e.S.Fail("wrong-data", "reading bytes %d to %d of a buffer with %d bytes: %d bytes, %s", off, off+n, have, len(got), errText(err))
			}
			vi := len(d.BufferViews)
			d.BufferViews = append(d.BufferViews, bv)
			acr := &gltf.Accessor{BufferView: &vi, ComponentType: gltf.ComponentUbyte, Type: gltf.AccessorScalar, Count: n}
			var v any
			e.DoBounded("ReadAccessor", opLimit, func() { v, err = modeler.ReadAccessor(d, acr, nil) })
			if off+n > have {
				if err == nil {
					e.S.Fail("invented-data", "reading an accessor of bytes %d to %d of a buffer with %d bytes returned no error", off, off+n, have)
				}
			} else if x, ok := v.([]uint8); err != nil || !ok || string(x) != string(d.Buffers[i].Data[off:off+n]) {
				e.S.Fail("wrong-data", "reading an accessor of bytes %d to %d of a buffer with %d bytes: %v, %s", off, off+n, have, v, errText(err))
			}
		}
	}
}
