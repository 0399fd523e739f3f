package props

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/fs"
	"reflect"
	"runtime/metrics"
	"strings"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C08", Runs: 250000, Body: c08, MemLimit: 6 << 30,
		Rule: "Each run damages a stored asset (flipped, lost, duplicated, spliced or cut bytes, replaced numbers, header words and JSON values, deep nesting) or its buffer files and decodes what is left under a bound on executed statements and on allocated bytes, then reads every accessor and view of the result in every way; or it builds a document whose indices, offsets, lengths, strides, counts, types and sparse parts have hostile values and reads that. An independent evaluation tells which reads cannot be satisfied and must fail. A run is non-trivial when damage was done.",
	})
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// bounded runs f under limits on steps and memory in proportion to the input.
func (e *Env) bounded(what string, input int, f func()) {
	before := allocated()
	e.DoBounded(what, opLimit, f)
	if n := allocated() - before; n > uint64(input)*4096+4<<20 {
		e.S.Fail("memory", "%s allocated %d bytes for an input of %d bytes", what, n>>20<<20, input)
	}
}

var hostileInts = []int{0, 1, -1, 2, 3, 4, 5, 7, 8, 16, 64, 255, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 62, 1<<63 - 1, -1 << 63, -4, 1<<61 + 1, 1 << 40, 1<<63 - 4}

// hint is a hostile integer near n.
func (e *Env) hint(n int) int {
	g := e.G
	switch g.N(4) {
	case 0:
		return hostileInts[g.N(len(hostileInts))]
	case 1:
		return n
	case 2:
		return n - 2 + g.N(5)
	}
	return g.N(n + 1)
}

func c08(e *Env) {
	e.Nontrivial()
	if e.G.N(2) == 0 {
		c08doc(e)
	} else {
		c08bytes(e)
	}
}

func c08bytes(e *Env) {
	e.DrawSpot()
	g := e.G
	var a *Asset
	switch g.N(9) {
	case 8: // a container that claims more than it holds
		n := []int{1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 4}[g.N(6)] - g.N(5)
		extra := ""
		if g.N(2) == 0 {
			extra = `,{"byteLength":` + fmt.Sprint(n) + `}`
		}
		js := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}%s]}`, n, extra)
		for len(js)%4 != 0 {
			js += " "
		}
		data := make([]byte, g.Size(4000))
		b := ref.BuildGLB(ref.Chunk{Type: ref.ChunkJSON, Data: []byte(js)}, ref.Chunk{Type: ref.ChunkBIN, Data: data})
		claim := uint32(min(n+g.N(8), 1<<32-1))
		binary.LittleEndian.PutUint32(b[20+len(js):], claim)
		if g.N(2) == 0 {
			binary.LittleEndian.PutUint32(b[8:], uint32(min(28+len(js)+int(claim), 1<<32-1)))
		}
		a = &Asset{Main: b}
	case 7: // arbitrary bytes
		b := make([]byte, g.Size(400))
		g.Bytes(b)
		if g.N(2) == 0 && len(b) >= 20 {
			copy(b, "glTF\x02\x00\x00\x00")
			copy(b[16:], "JSON")
		}
		a = &Asset{Main: b}
	case 6: // deep nesting
		n := 200 + g.N(30000)
		open := []string{"[", `{"extras":`, `{"nodes":[`, `{"extensions":{"x":`, `{"asset":{"extras":[`}[g.N(5)]
		s := strings.Repeat(open, n)
		if g.N(2) == 0 {
			s += "1" + strings.Repeat("]", n)
		}
		pre := []string{`{"extras":`, `{"asset":{"version":"2.0"},"extensions":{"a":`, "", `{"nodes":[{"extensions":{"KHR_lights_punctual":`}[g.N(4)]
		a = &Asset{Main: []byte(pre + s)}
	default:
		src := e.AnyAsset()
		a = &Asset{Main: src.Main, Files: map[string]string{}}
		for k, v := range src.Files {
			a.Files[k] = v
		}
		if g.N(3) == 0 {
			a.Main = e.mutateTree(a.Main)
		} else {
			a.Main = Mutate(g, a.Main)
		}
		for _, k := range sortedKeys(a.Files) {
			switch g.N(5) {
			case 3:
				a.Files[k] = a.Files[k][:g.N(len(a.Files[k])+1)]
				e.S.Fault("buffer file cut", k)
			case 4:
				delete(a.Files, k)
				e.S.Fault("buffer file lost", k)
			}
		}
	}
	e.S.Fault("bytes damaged")
	e.Newdisk()
	e.Store(a, e.At)
	size := len(a.Main)
	for _, v := range a.Files {
		size += len(v)
	}
	e.S.Event("asset", a.Main, size)
	var d *gltf.Document
	var err error
	what := "Decode"
	switch g.N(4) {
	case 0:
		what = "Open"
		e.Disk.Put(e.At+"/"+e.Base, a.Main)
		e.bounded(what, size, func() { d, err = gltf.Open(e.Spelled) })
	default:
		var p *Plan
		if g.N(3) == 0 {
			p = DrawPlan(e.F)
		}
		r := e.NewReader(a.Main, p)
		src := e.dress(r)
		var fsys fs.FS
		if g.N(3) > 0 {
			fsys = e.NewFS(e.At)
			if e.F.N(2) == 1 {
				fsys = e.dressFS(e.NewFS(e.At))
			}
		}
		d = new(gltf.Document)
		e.bounded(what, size, func() {
			dec := gltf.NewDecoder(src)
			if fsys != nil {
				dec = gltf.NewDecoderFS(src, fsys)
			}
			err = dec.Decode(d)
		})
	}
	e.S.Event("decoded", what, errText(err))
	if d == nil {
		return
	}
	if err == nil {
		e.S.Probe("damaged asset decodes")
	}
	n := len(d.Accessors)
	if n > 12 {
		n = 12
	}
	for i := 0; i < n; i++ {
		if ok := e.countBearable(d.Accessors[i]); ok {
			c08read(e, d, d.Accessors[i])
		}
	}
	for i, bv := range d.BufferViews {
		if i < 12 {
			c08view(e, d, bv)
		}
	}
	c08images(e, d)
}

// mutateTree replaces values of the JSON by hostile ones.
func (e *Env) mutateTree(main []byte) []byte {
	g := e.G
	js := main
	var chunks []ref.Chunk
	if len(main) > 4 && string(main[:4]) == "glTF" {
		c, err := ref.ParseGLB(main)
		if err != nil {
			return Mutate(g, main)
		}
		chunks, js = c, c[0].Data
	}
	var v any
	if json.Unmarshal(js, &v) != nil {
		return Mutate(g, main)
	}
	for i, n := 0, 1+g.Size(5); i < n; i++ {
		v = e.mutateValue(v, g.N(6))
	}
	js, err := json.Marshal(v)
	if err != nil {
		return Mutate(g, main)
	}
	if chunks == nil {
		return js
	}
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	chunks[0].Data = js
	return ref.BuildGLB(chunks...)
}

func (e *Env) mutateValue(v any, depth int) any {
	g := e.G
	if depth > 0 {
		switch x := v.(type) {
		case map[string]any:
			if len(x) > 0 {
				ks := sortedKeys(x)
				k := ks[g.N(len(ks))]
				x[k] = e.mutateValue(x[k], depth-1+g.N(2))
				return x
			}
		case []any:
			if len(x) > 0 {
				i := g.N(len(x))
				x[i] = e.mutateValue(x[i], depth-1+g.N(2))
				return x
			}
		}
	}
	e.S.Fault("JSON value replaced")
	if _, ok := v.(float64); ok && g.N(2) == 0 {
		return hostileInts[g.N(len(hostileInts))]
	}
	if s, ok := v.(string); ok && g.N(2) == 0 {
		return []string{"", s + "x", "data:application/octet-stream;base64", "data:application/octet-stream;base64,", "data:application/octet-stream;base64,A", "data:image/png;base64", "../x", "\x00", "data:application/gltf-buffer;base64,!!!!", "VEC5", strings.Repeat("A", 2000), "data:image/jpeg;base64", "data:image/jpeg;base64,", "data:image/png;base64,", "data:image/png;base64,AA=", "data:application/gltf-buffer;base64"}[g.N(16)]
	}
	return []any{nil, map[string]any{}, []any{}, []any{nil}, map[string]any{"a": nil}, "x", -1, true, 1.5, 1e300, []any{map[string]any{}}, []any{1, "a", nil}, -0.0, "null", 4294967296, []any{[]any{}}}[g.N(16)]
}

// countBearable leaves out accessors whose own definition asks for a lot of
// memory: without a buffer view nothing but the count says how many zeroes.
func (e *Env) countBearable(a *gltf.Accessor) bool {
	return a == nil || a.BufferView != nil || a.Count <= 1e5 || a.Count > 1<<34
}

// c08doc reads documents made by a program, with hostile values.
func c08doc(e *Env) {
	g := e.G
	d := &gltf.Document{}
	total := 0
	for i, n := 0, g.N(4); i < n; i++ {
		if g.Chance(1, 10) {
			d.Buffers = append(d.Buffers, nil)
			continue
		}
		b := &gltf.Buffer{Data: make([]byte, g.Size(200))}
		g.Bytes(b.Data)
		if g.N(3) == 0 { // small values make good sparse indices
			for i := range b.Data {
				b.Data[i] %= 4
			}
		}
		b.ByteLength = e.hint(len(b.Data))
		total += len(b.Data)
		d.Buffers = append(d.Buffers, b)
	}
	for i, n := 0, g.N(5); i < n; i++ {
		if g.Chance(1, 10) {
			d.BufferViews = append(d.BufferViews, nil)
			continue
		}
		bv := &gltf.BufferView{Buffer: g.N(len(d.Buffers) + 1)}
		if g.Chance(1, 8) {
			bv.Buffer = e.hint(len(d.Buffers))
		}
		have := 0
		if bv.Buffer >= 0 && bv.Buffer < len(d.Buffers) && d.Buffers[bv.Buffer] != nil {
			have = len(d.Buffers[bv.Buffer].Data)
		}
		if g.N(2) == 0 {
			bv.ByteOffset = g.N(have + 1)
			bv.ByteLength = have - bv.ByteOffset
		}
		if g.N(3) == 0 {
			bv.ByteOffset = e.hint(have)
		}
		if g.N(3) == 0 {
			bv.ByteLength = e.hint(have)
		}
		if g.N(3) == 0 {
			bv.ByteStride = e.hint(16)
		}
		d.BufferViews = append(d.BufferViews, bv)
	}
	view := func() int {
		if g.Chance(1, 6) {
			return e.hint(len(d.BufferViews))
		}
		return g.N(len(d.BufferViews) + 1)
	}
	comp := func() gltf.ComponentType {
		if g.Chance(1, 16) {
			return gltf.ComponentType([]int{6, 7, 255, 100}[g.N(4)])
		}
		return compTypes[g.N(6)]
	}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		a := &gltf.Accessor{ComponentType: comp(), Type: accTypes[g.N(7)], Count: g.Size(20)}
		if g.Chance(1, 16) {
			a.Type = gltf.AccessorType([]int{7, 8, 255, 100}[g.N(4)])
		}
		if g.N(4) > 0 {
			v := view()
			a.BufferView = &v
			if g.N(3) == 0 {
				a.Count = e.hint(20)
			}
		} else if g.Chance(1, 6) {
			a.Count = []int{-1, 0, 1 << 40, 1<<63 - 1, -1 << 63, 1 << 62, 1<<61 + 1}[g.N(7)]
		}
		if g.N(3) == 0 {
			a.ByteOffset = e.hint(8)
		}
		if g.N(3) == 0 {
			s := &gltf.Sparse{Count: g.Size(6)}
			if g.N(4) == 0 {
				s.Count = e.hint(a.Count & 0xff)
			}
			s.Indices = gltf.SparseIndices{ComponentType: []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint, comp()}[g.N(4)], BufferView: view()}
			s.Values = gltf.SparseValues{BufferView: view()}
			if g.N(4) == 0 {
				s.Indices.ByteOffset = e.hint(8)
			}
			if g.N(4) == 0 {
				s.Values.ByteOffset = e.hint(8)
			}
			a.Sparse = s
		}
		d.Accessors = append(d.Accessors, a)
	}
	if g.Chance(1, 10) {
		d.Accessors = append(d.Accessors, nil)
	}
	for i, n := 0, g.N(4); i < n; i++ {
		d.Images = append(d.Images, &gltf.Image{URI: e.nearDataURI()})
		d.Buffers = append(d.Buffers, &gltf.Buffer{URI: e.nearDataURI()})
	}
	e.S.Fault("hostile document")
	e.S.Event("document", Dump(d))
	_ = total
	for _, a := range d.Accessors {
		c08read(e, d, a)
	}
	for _, bv := range d.BufferViews {
		c08view(e, d, bv)
	}
	if g.Chance(1, 10) {
		c08view(e, d, nil)
	}
	c08images(e, d)
}

// c08images decodes what is embedded in a document.
func c08images(e *Env, d *gltf.Document) {
	n := 0
	for _, im := range d.Images {
		if n++; n > 6 || im == nil {
			continue
		}
		var b []byte
		var err error
		e.bounded("Image.MarshalData", len(im.URI), func() { b, err = im.MarshalData() })
		if err == nil && len(b) > len(im.URI) {
			e.S.Fail("impossible-read", "Image.MarshalData of %q returned %d bytes", im.URI, len(b))
		}
	}
}

// nearDataURI is nearly a data URI.
func (e *Env) nearDataURI() string {
	g := e.G
	s := []string{"data:image/png;base64", "data:image/jpeg;base64", "data:application/octet-stream;base64", "data:application/gltf-buffer;base64", "data:;base64", "data:", "image.png", ""}[g.N(8)]
	switch g.N(5) {
	case 0:
	case 1:
		s = s[:g.N(len(s)+1)]
	case 2:
		s += ","
	default:
		s += "," + strings.Repeat([]string{"A", "AAAA", "=", "\x00", "!", "AA==", "Zm9v\n"}[g.N(7)], g.N(6))
	}
	return s
}

func docSize(d *gltf.Document) int {
	n := 64
	for _, b := range d.Buffers {
		if b != nil {
			n += len(b.Data)
		}
	}
	return n
}

func c08view(e *Env, d *gltf.Document, bv *gltf.BufferView) {
	var got []byte
	var err error
	e.bounded("ReadBufferView", docSize(d), func() { got, err = modeler.ReadBufferView(d, bv) })
	if err != nil {
		return
	}
	if bv == nil {
		e.S.Fail("impossible-read", "ReadBufferView of nothing returned %d bytes", len(got))
	}
	want, bad := ref.ViewBytes(d, bv)
	if bad != nil {
		e.S.Fail("impossible-read", "ReadBufferView cannot be satisfied (%v) but returned %d bytes", bad, len(got))
	}
	if string(got) != string(want) {
		e.S.Fail("wrong-bytes", "ReadBufferView returned %d bytes that differ from the view's %d", len(got), len(want))
	}
}

func c08read(e *Env, d *gltf.Document, a *gltf.Accessor) {
	size := docSize(d)
	if a != nil && a.BufferView == nil && a.Count > 0 && a.Count <= 1e5 {
		size += 64 * a.Count
	}
	bad := ref.Satisfiable(d, a)
	if bad == nil {
		e.S.Probe("read is satisfiable")
	}
	check := func(name string, v any, err error) {
		if err != nil {
			return
		}
		if bad != nil {
			e.S.Fail("impossible-read", "%s of %s cannot be satisfied (%v) but returned no error", name, Dump(a), bad)
		}
		if n := reflect.ValueOf(v).Len(); n != a.Count {
			e.S.Fail("wrong-count", "%s of %s returned %d elements", name, Dump(a), n)
		}
	}
	for i := 0; i < 2; i++ {
		b := e.drawScratch()
		var v any
		var err error
		buf := b.bytes()
		e.bounded("ReadAccessor", size+len(buf), func() { v, err = modeler.ReadAccessor(d, a, buf) })
		check("ReadAccessor", v, err)
	}
	for i := range typedReaders {
		r := &typedReaders[i]
		if a != nil && !(has(r.comps, a.ComponentType) && has(r.types, a.Type)) && e.G.N(4) > 0 {
			continue
		}
		b := e.drawScratch()
		var v any
		var err error
		e.bounded(r.name, size+b.Cap*64, func() { v, err = r.read(d, a, b) })
		if err == nil && a != nil && !(has(r.comps, a.ComponentType) && has(r.types, a.Type)) {
			e.S.Fail("impossible-read", "%s of %s, which has another type, returned no error", r.name, Dump(a))
		}
		check(r.name, v, err)
	}
}

var _ = fmt.Sprint
var _ simrt.Stream
