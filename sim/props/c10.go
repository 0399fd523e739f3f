package props

import (
	"bytes"
	"fmt"
	"reflect"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C10", Runs: 180000, MaxSteps: 2_000_000_000, Body: c10,
		Rule: "Each run builds a valid document of 1 to 5 accessors (every component and element type; dense, interleaved, sparse or without data; all alignments; sizes around those of pooled buffers), sometimes relayed through an encoder and a decoder, and reads them 2 to 14 times in any order through ReadAccessor and the typed readers, with nil, empty, dirty, too small, too large or reused buffers, while the pools hand out what the simulation decides and the caller scribbles over earlier results. Each result must equal the values an independent evaluation gives, and still do so at the end. A run is non-trivial when two reads of different accessors happened.",
	})
}

// AccessorDoc generates a document of valid accessors.
func (e *Env) AccessorDoc(n int) *gltf.Document {
	g := e.G
	d := gltf.NewDocument()
	nb := 1 + g.N(3)
	for i := 0; i < nb; i++ {
		b := &gltf.Buffer{Data: make([]byte, g.N(9))}
		g.Bytes(b.Data)
		d.Buffers = append(d.Buffers, b)
	}
	for i := 0; i < n; i++ {
		c, t := compTypes[g.N(6)], accTypes[g.N(7)]
		count := 0
		switch g.N(8) {
		case 0:
			count = g.N(3)
		case 6:
			count = 1 + g.Size(400)
			if g.Chance(1, 100) {
				count = 65530 + g.N(12)
			} else if g.Chance(1, 12) {
				count = 250<<g.N(5) + g.N(100)
			}
		case 7: // about the sizes of pooled buffers
			l, _ := ref.LayoutOf(c, t)
			count = []int{256, 1024 / l.Size, 1024 / (l.Rows * l.Cols * l.Comp), 100}[g.N(4)] - 2 + g.N(5)
		default:
			count = 1 + g.N(12)
		}
		e.accessor(d, c, t, count)
	}
	for _, b := range d.Buffers {
		if len(b.Data) == 0 {
			b.Data = []byte{1}
		}
		b.ByteLength = len(b.Data)
	}
	return d
}

// place appends elements to a buffer and returns the view.
func (e *Env) place(d *gltf.Document, l ref.Layout, count, offset, stride int, data []byte) int {
	g := e.G
	i := g.N(len(d.Buffers))
	b := d.Buffers[i]
	for len(b.Data)%4 != 0 {
		b.Data = append(b.Data, byte(g.N(256)))
	}
	step := stride
	if step == 0 {
		step = l.Size
	}
	n := offset
	if count > 0 {
		n += (count-1)*step + l.Need
		if g.N(2) == 0 { // with the last padding
			n += l.Size - l.Need
		}
	}
	if g.Chance(1, 3) {
		n += g.N(9)
	}
	if n == 0 {
		n = 1
	}
	x := make([]byte, n)
	g.Bytes(x)
	copy(x[offset:], data)
	bv := &gltf.BufferView{Buffer: i, ByteOffset: len(b.Data), ByteLength: n, ByteStride: stride}
	b.Data = append(b.Data, x...)
	d.BufferViews = append(d.BufferViews, bv)
	return len(d.BufferViews) - 1
}

// accessor adds one.
func (e *Env) accessor(d *gltf.Document, c gltf.ComponentType, t gltf.AccessorType, count int) int {
	g := e.G
	l, _ := ref.LayoutOf(c, t)
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: count, Normalized: g.N(4) == 0 && c != gltf.ComponentFloat && c != gltf.ComponentUint}
	off := func() int {
		if g.N(2) == 0 {
			return 0
		}
		return l.Comp * g.N(9)
	}
	kind := g.N(8)
	switch kind {
	case 0: // no data
	case 1, 2, 3: // interleaved
		a.ByteOffset = off()
		stride := l.Need + g.N(3)*4
		stride = (stride + 3) / 4 * 4
		if g.N(12) == 0 { // the widest ones
			stride = 252 - 4*g.N(47)
		}
		if g.N(6) == 0 {
			stride = (l.Need + l.Comp - 1) / l.Comp * l.Comp // not padded
		}
		v := e.place(d, l, count, a.ByteOffset, stride, nil)
		a.BufferView = &v
	default:
		a.ByteOffset = off()
		v := e.place(d, l, count, a.ByteOffset, 0, nil)
		a.BufferView = &v
	}
	if count > 0 && g.N(4) == 0 {
		a.Sparse = e.sparse(d, l, count)
	}
	d.Accessors = append(d.Accessors, a)
	if a.BufferView != nil && g.N(6) == 0 { // another one over the same bytes
		b := *a
		b.Sparse = nil
		if g.N(2) == 0 && count > 0 {
			b.Count = 1 + g.N(count)
		}
		d.Accessors = append(d.Accessors, &b)
	}
	return len(d.Accessors) - 1
}

// indices draws left of count indices, increasing.
func (e *Env) indices(il ref.Layout, count, left int) ([]byte, int) {
	var idx []byte
	for i := 0; i < count && left > 0; i++ {
		if count-i > 600 { // leap
			i += e.G.N((count - i) / left)
		}
		if e.G.N(count-i) < left {
			for k := 0; k < il.Comp; k++ {
				idx = append(idx, byte(i>>(8*k)))
			}
			left--
		}
	}
	return idx, left
}

// sparse makes the sparse part of an accessor of count elements.
func (e *Env) sparse(d *gltf.Document, l ref.Layout, count int) *gltf.Sparse {
	g := e.G
	s := &gltf.Sparse{Count: 1 + g.N(count)}
	if s.Count > 500 {
		s.Count = 1 + g.N(500)
	}
	if g.N(2) > 0 && s.Count > 5 {
		s.Count = 1 + g.N(5)
	}
	cs := ct{gltf.ComponentUint}
	if count <= 65536 {
		cs = append(cs, gltf.ComponentUshort)
	}
	if count <= 256 {
		cs = append(cs, gltf.ComponentUbyte)
	}
	s.Indices.ComponentType = cs[g.N(len(cs))]
	il, _ := ref.LayoutOf(s.Indices.ComponentType, gltf.AccessorScalar)
	idx, left := e.indices(il, count, s.Count)
	s.Count -= left
	s.Indices.ByteOffset = il.Comp * g.N(4)
	s.Indices.BufferView = e.place(d, il, s.Count, s.Indices.ByteOffset, 0, idx)
	s.Values.ByteOffset = l.Comp * g.N(4)
	s.Values.BufferView = e.place(d, l, s.Count, s.Values.ByteOffset, 0, nil)
	return s
}

// kept is a result that must stay as it is.
type kept struct {
	what string
	v    any
	want [][]uint64
	mem  *byte // first byte of the memory it may share with others
}

func c10(e *Env) {
	g := e.G
	d := e.AccessorDoc(1 + g.N(5))
	if g.N(8) == 0 {
		a, err := e.EncodeClean(d, DrawSetting(g))
		if err != nil {
			e.S.Fail("encode-failed", "a valid document cannot be encoded: %v", err)
		}
		if d, err = e.DecodeClean(a); err != nil {
			e.S.Fail("decode-failed", "the encoded document cannot be decoded: %v", err)
		}
	}
	before := Dump(d)
	var results []*kept
	shared := make([]byte, 8*g.Size(300)+8) // the caller's buffer, used again and again
	first := -1
	for n := 2 + g.N(13); n > 0; n-- {
		i := g.N(len(d.Accessors))
		a := d.Accessors[i]
		if first < 0 {
			first = i
		} else if first != i {
			e.Nontrivial()
		}
		if bad := ref.Satisfiable(d, a); bad != nil {
			panic(fmt.Sprintf("generator: accessor %d: %v", i, bad))
		}
		want := ref.Values(d, a)
		var rs []*typed
		for k := range typedReaders {
			if r := &typedReaders[k]; has(r.comps, a.ComponentType) && has(r.types, a.Type) {
				rs = append(rs, r)
			}
		}
		k := g.N(2 + 3*len(rs))
		if a.BufferView != nil && a.Sparse == nil && g.N(10) == 9 {
			results = append(results, c10hand(e, d, i, want))
		} else if k < 2 || len(rs) == 0 {
			results = c10any(e, d, i, want, shared, results)
		} else {
			r := rs[(k-2)%len(rs)]
			b := e.drawScratch()
			var v any
			var err error
			e.DoBounded(r.name, bigLimit, func() { v, err = r.read(d, a, b) })
			what := fmt.Sprintf("%s of accessor %d (%s) with buffer %d/%d mode %d", r.name, i, describe(d, a), b.Len, b.Cap, b.Mode)
			e.S.Event("read", what, errText(err))
			w := make([][]uint64, len(want))
			for j := range want {
				w[j] = r.conv(a.ComponentType, want[j])
			}
			results = append(results, c10check(e, what, v, err, w))
		}
		if g.Chance(1, 6) {
			for _, r := range results {
				if diff := ref.SameBits(bitsOf(r.v), r.want); diff != "" {
					e.S.Fail("changed-later", "the result of %s changed after it was returned: %s", r.what, diff)
				}
			}
			if now := Dump(d); now != before {
				e.S.Fail("document-changed", "reading changed the document: %s", diff(before, now))
			}
			results = nil
			e.edit(d)
			before = Dump(d)
		}
		if g.N(5) == 0 && len(results) > 0 { // the caller uses a result for something else
			j := g.N(len(results))
			if m := rawOf(results[j].v); len(m) > 0 {
				e.S.Fault("caller scribbles over a result")
				simrt.FillBytes(m, g.U64())
			}
			results = append(results[:j], results[j+1:]...)
		}
	}
	for _, r := range results {
		if diff := ref.SameBits(bitsOf(r.v), r.want); diff != "" {
			e.S.Fail("changed-later", "the result of %s changed after it was returned: %s", r.what, diff)
		}
	}
	if now := Dump(d); now != before {
		e.S.Fail("document-changed", "reading changed the document: %s", diff(before, now))
	}
}

// edit changes what accessors mean, in place.
func (e *Env) edit(d *gltf.Document) {
	g := e.G
	a := d.Accessors[g.N(len(d.Accessors))]
	kind := g.N(6)
	e.S.Fault("document edited", kind)
	fill := func(view, offset, n int) {
		bv := d.BufferViews[view]
		x := d.Buffers[bv.Buffer].Data[bv.ByteOffset+offset : bv.ByteOffset+bv.ByteLength]
		g.Bytes(x[:min(n, len(x))])
	}
	switch {
	case kind == 0 && a.BufferView != nil: // other values
		fill(*a.BufferView, a.ByteOffset, 1<<30)
	case kind == 1 && a.BufferView != nil && a.Count > 0: // fewer elements
		if a.Sparse == nil {
			a.Count = 1 + g.N(a.Count)
		}
	case kind == 2 && a.Sparse != nil: // other sparse values
		l, _ := ref.LayoutOf(a.ComponentType, a.Type)
		fill(a.Sparse.Values.BufferView, a.Sparse.Values.ByteOffset, l.Size*a.Sparse.Count)
	case kind == 3: // the sparse part comes, goes or is another
		l, _ := ref.LayoutOf(a.ComponentType, a.Type)
		if a.Sparse != nil && g.N(3) == 0 {
			a.Sparse = nil
		} else if a.Count > 0 {
			a.Sparse = e.sparse(d, l, a.Count)
			for _, b := range d.Buffers {
				b.ByteLength = len(b.Data)
			}
		}
	case kind == 4 && a.Sparse != nil: // other elements, the same number
		sp := a.Sparse
		il, _ := ref.LayoutOf(sp.Indices.ComponentType, gltf.AccessorScalar)
		idx, _ := e.indices(il, a.Count, sp.Count)
		bv := d.BufferViews[sp.Indices.BufferView]
		copy(d.Buffers[bv.Buffer].Data[bv.ByteOffset+sp.Indices.ByteOffset:], idx)
	default: // another buffer with other bytes
		i := g.N(len(d.Buffers))
		b := *d.Buffers[i]
		b.Data = append([]byte(nil), b.Data...)
		d.Buffers[i] = &b
		if a.BufferView != nil && d.BufferViews[*a.BufferView].Buffer == i {
			fill(*a.BufferView, a.ByteOffset, 1<<30)
		}
	}
}

func describe(d *gltf.Document, a *gltf.Accessor) string {
	s := fmt.Sprintf("%d of %s", a.Count, ref.TypeName(a.ComponentType, a.Type))
	if a.BufferView == nil {
		s += " without data"
	} else if st := d.BufferViews[*a.BufferView].ByteStride; st > 0 {
		s += fmt.Sprint(" stride ", st)
	}
	if a.Sparse != nil {
		s += fmt.Sprintf(" sparse %d", a.Sparse.Count)
	}
	return s
}

// c10any reads by ReadAccessor.
func c10any(e *Env, d *gltf.Document, i int, want [][]uint64, shared []byte, results []*kept) []*kept {
	g := e.G
	a := d.Accessors[i]
	var buf []byte
	mode := ""
	var mem *byte
	if g.N(3) == 2 {
		off := g.N(len(shared))
		end := off + g.N(len(shared)-off+1)
		buf, mode = shared[off:end], fmt.Sprintf("the caller's buffer [%d:%d:%d]", off, end, len(shared))
		mem = &shared[0]
		keep := results[:0]
		for _, r := range results { // those which live there end now
			if r.mem != mem {
				keep = append(keep, r)
			}
		}
		results = keep
		e.S.Fault("buffer reused")
	} else {
		b := e.drawScratch()
		buf = b.bytes()
		mode = fmt.Sprintf("buffer %d/%d", len(buf), cap(buf))
	}
	var v any
	var err error
	e.DoBounded("ReadAccessor", bigLimit, func() { v, err = modeler.ReadAccessor(d, a, buf) })
	what := fmt.Sprintf("ReadAccessor of accessor %d (%s) with %s", i, describe(d, a), mode)
	e.S.Event("read", what, errText(err))
	if err == nil {
		if got := reflect.TypeOf(v).String(); got != ref.TypeName(a.ComponentType, a.Type) {
			e.S.Fail("wrong-type", "%s returned a %s", what, got)
		}
	}
	k := c10check(e, what, v, err, want)
	k.mem = mem
	return append(results, k)
}

// c10hand reads the elements with package binary, as callers with containers of their own do.
func c10hand(e *Env, d *gltf.Document, i int, want [][]uint64) *kept {
	a := d.Accessors[i]
	bv := d.BufferViews[*a.BufferView]
	n := a.Count
	if e.G.N(3) == 0 { // not all of them
		n = e.G.N(n + 1)
	}
	v := e.slice(a.ComponentType, a.Type, n)
	var b []byte
	var err error
	e.DoBounded("ReadBufferView", bigLimit, func() { b, err = modeler.ReadBufferView(d, bv) })
	what := fmt.Sprintf("binary.Read of the first %d elements of accessor %d (%s) into a %T", n, i, describe(d, a), v)
	if err != nil {
		e.S.Fail("valid-rejected", "ReadBufferView for %s returned %v", what, err)
	}
	if w, _ := ref.ViewBytes(d, bv); !bytes.Equal(b, w) {
		e.S.Fail("wrong-values", "ReadBufferView for %s: %d bytes instead of %d or others", what, len(b), len(w))
	}
	e.DoBounded("binary.Read", bigLimit, func() { err = binary.Read(b[a.ByteOffset:], bv.ByteStride, v) })
	e.S.Event("read", what, errText(err))
	return c10check(e, what, v, err, want[:n])
}

func c10check(e *Env, what string, v any, err error, want [][]uint64) *kept {
	if err != nil {
		e.S.Fail("valid-rejected", "%s returned %v", what, err)
	}
	if diff := ref.SameBits(bitsOf(v), want); diff != "" {
		e.S.Fail("wrong-values", "%s: %s", what, diff)
	}
	return &kept{what: what, v: v, want: want}
}
