package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C09", Runs: 60000, MaxSteps: 2_000_000_000, Body: c09,
		Rule: "Each run is a history of 3 to 14 steps on one document: writes of every element type and length through every modeler writer, interleaved and as primitive attributes, images from readers that fail or dribble, invalid arguments, encode and decode relays in both formats, and reuse of the memory that was passed in. The model is the list of what was written; all of it is read back by the library and by an independent reader. A run is non-trivial when something written is read back after a later step.",
	})
}

// item is one thing written.
type item struct {
	what       string
	acc        int // accessor index or -1
	view       int
	comp       gltf.ComponentType
	typ        gltf.AccessorType
	vals       [][]uint64
	normalized bool
	lo, hi     []float64
	raw        []byte // bytes of a plain view or image
	img        int
	name, mime string
	target     gltf.Target
	anyTarget  bool
	step       int
}

type c09world struct {
	e     *Env
	d     *gltf.Document
	items []*item
	step  int
	mem   []any // slices passed to writes before
}

func c09(e *Env) {
	w := &c09world{e: e, d: gltf.NewDocument()}
	switch e.G.N(4) {
	case 1:
		w.d = &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	case 2, 3: // one with contents
		g := e.NewGen()
		g.NoExt = e.G.N(3) > 0
		w.d = g.Doc()
		w.d.Accessors, w.d.BufferViews, w.d.Images = nil, nil, nil
		g.Buffers(w.d)
		for i, b := range w.d.Buffers {
			w.d.BufferViews = append(w.d.BufferViews, &gltf.BufferView{Buffer: i, ByteLength: len(b.Data)})
			w.items = append(w.items, &item{what: "present from the start", acc: -1, img: -1, view: i, raw: append([]byte(nil), b.Data...), anyTarget: true})
		}
	}
	for n := 3 + e.G.N(12); w.step < n; w.step++ {
		w.one()
	}
	w.checkAll()
}

// length of what is written; the same for related data.
func (w *c09world) length() int {
	g := w.e.G
	switch g.N(8) {
	case 7:
		switch {
		case g.Chance(1, 700):
			return 65530 + g.N(12)
		case g.Chance(1, 20):
			return 250<<g.N(5) + g.N(100)
		}
		return 1 + g.Size(300)
	case 6:
		return 1 + g.N(40)
	}
	return 1 + g.N(9)
}

func (w *c09world) one() {
	g := w.e.G
	switch g.N(14) {
	case 0, 1:
		w.write("WriteAccessor")
	case 2, 3, 4:
		w.write([]string{"WriteIndices", "WriteNormal", "WriteTangent", "WriteTextureCoord", "WriteWeights", "WriteJoints", "WritePosition", "WriteColor", "WriteInverseBindMatrices"}[g.N(9)])
	case 5, 6:
		w.interleaved()
	case 7:
		w.attributes()
	case 8:
		w.image()
	case 9:
		w.view()
	case 10:
		w.viewInterleaved()
	case 11, 12:
		w.relay()
	case 13:
		w.empty()
	}
}

// do performs a write and compares what was there before.
func (w *c09world) do(what string, adds int, f func() error) error {
	e, d := w.e, w.d
	before := snapshot(d)
	var err error
	e.DoBounded(what, bigLimit, func() { err = f() })
	e.S.Event(what, adds, errText(err), len(d.Accessors), len(d.BufferViews), len(d.Images))
	if err != nil {
		if diff := before.same(d); diff != "" {
			e.S.Fail("error-changed-document", "%s returned an error (%v) and changed the document: %s", what, err, diff)
		}
		return err
	}
	if diff := before.kept(d); diff != "" {
		e.S.Fail("disturbed", "%s disturbed what the document had before: %s", what, diff)
	}
	return nil
}

// snap is a deep record of a document.
type snap struct {
	accs, views, imgs []string
	bufs              []string
	data              [][]byte
	rest              string
	all               string
}

func snapshot(d *gltf.Document) *snap {
	s := &snap{}
	for _, a := range d.Accessors {
		s.accs = append(s.accs, Dump(a))
	}
	for _, a := range d.BufferViews {
		s.views = append(s.views, Dump(a))
	}
	for _, a := range d.Images {
		s.imgs = append(s.imgs, Dump(a))
	}
	for _, b := range d.Buffers {
		c := *b
		c.Data, c.ByteLength = nil, 0
		s.bufs = append(s.bufs, Dump(c))
		s.data = append(s.data, append([]byte(nil), b.Data...))
	}
	s.rest = restOf(d)
	s.all = Dump(d)
	return s
}

func restOf(d *gltf.Document) string {
	c := *d
	c.Accessors, c.BufferViews, c.Images, c.Buffers = nil, nil, nil, nil
	return Dump(&c)
}

func (s *snap) same(d *gltf.Document) string {
	if now := Dump(d); now != s.all {
		return diff(s.all, now)
	}
	return ""
}

// kept tells what of the snapshot is no longer there.
func (s *snap) kept(d *gltf.Document) string {
	now := snapshot(d)
	for _, x := range []struct {
		name     string
		old, new []string
	}{{"accessors", s.accs, now.accs}, {"buffer views", s.views, now.views}, {"images", s.imgs, now.imgs}, {"buffers", s.bufs, now.bufs}} {
		if len(x.new) < len(x.old) {
			return fmt.Sprintf("%d %s of %d are left", len(x.new), x.name, len(x.old))
		}
		for i := range x.old {
			if x.old[i] != x.new[i] {
				return fmt.Sprintf("%s %d: %s", x.name, i, diff(x.old[i], x.new[i]))
			}
		}
	}
	for i, b := range s.data {
		if !bytes.HasPrefix(now.data[i], b) {
			return fmt.Sprintf("the %d bytes of buffer %d changed", len(b), i)
		}
	}
	if s.rest != now.rest {
		return diff(s.rest, now.rest)
	}
	for i, b := range d.Buffers {
		if b.ByteLength != len(b.Data) {
			return fmt.Sprintf("buffer %d has %d bytes of data and length %d", i, len(b.Data), b.ByteLength)
		}
	}
	return ""
}

// reuse overwrites the memory a caller passed to a write.
func (w *c09world) reuse(vs ...any) {
	if w.e.G.N(2) == 0 {
		return
	}
	w.e.S.Fault("caller reuses its memory")
	for _, v := range vs {
		if b := rawOf(v); len(b) > 0 {
			simrt.FillBytes(b, w.e.G.U64())
		}
	}
}

func (w *c09world) add(it *item) {
	it.step = w.step
	w.items = append(w.items, it)
	w.check(it)
	if len(w.items) > 1 {
		w.check(w.items[w.e.G.N(len(w.items))])
	}
}

func normInt(c gltf.ComponentType) bool { return c == gltf.ComponentUbyte || c == gltf.ComponentUshort }

func (w *c09world) write(how string) {
	e, g, d := w.e, w.e.G, w.d
	n := w.length()
	var data any
	it := &item{what: how, img: -1, target: gltf.TargetArrayBuffer}
	pick := func(cs ct, ts at) {
		it.comp, it.typ = cs[g.N(len(cs))], ts[g.N(len(ts))]
		data = e.slice(it.comp, it.typ, n)
		if x := w.again(it.comp, it.typ); x != nil {
			data = x
		}
		if x := w.refill(reflect.TypeOf(data)); x != nil {
			data = x
		}
	}
	var f func() int
	v4, v2 := at{gltf.AccessorVec4}, at{gltf.AccessorVec2}
	switch how {
	case "WriteAccessor":
		pick(compTypes, accTypes)
		it.target = []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[g.N(3)]
		f = func() int { return modeler.WriteAccessor(d, it.target, data) }
	case "WriteIndices":
		pick(ct{gltf.ComponentUshort, gltf.ComponentUint}, at{gltf.AccessorScalar})
		it.target = gltf.TargetElementArrayBuffer
		f = func() int { return modeler.WriteIndices(d, data) }
	case "WriteNormal":
		pick(floatOnly, at{gltf.AccessorVec3})
		f = func() int { return modeler.WriteNormal(d, data.([][3]float32)) }
	case "WriteTangent":
		pick(floatOnly, v4)
		f = func() int { return modeler.WriteTangent(d, data.([][4]float32)) }
	case "WriteTextureCoord":
		pick(normTypes, v2)
		it.normalized = normInt(it.comp)
		f = func() int { return modeler.WriteTextureCoord(d, data) }
	case "WriteWeights":
		pick(normTypes, v4)
		if isColor(data) {
			data = e.plain(it.comp, it.typ, n)
		}
		it.normalized = normInt(it.comp)
		f = func() int { return modeler.WriteWeights(d, data) }
	case "WriteJoints":
		pick(ct{gltf.ComponentUbyte, gltf.ComponentUshort}, v4)
		if isColor(data) {
			data = e.plain(it.comp, it.typ, n)
		}
		f = func() int { return modeler.WriteJoints(d, data) }
	case "WritePosition":
		it.comp, it.typ = gltf.ComponentFloat, gltf.AccessorVec3
		p := e.points(n)
		if x := w.refill(reflect.TypeOf(p)); x != nil {
			p = x.([][3]float32)
		}
		data = p
		it.lo, it.hi = boundsOf(p)
		f = func() int { return modeler.WritePosition(d, p) }
	case "WriteColor":
		pick(normTypes, at{gltf.AccessorVec3, gltf.AccessorVec4})
		it.normalized = normInt(it.comp)
		f = func() int { return modeler.WriteColor(d, data) }
	case "WriteInverseBindMatrices":
		pick(floatOnly, at{gltf.AccessorMat4})
		it.anyTarget = true
		f = func() int { return modeler.WriteInverseBindMatrices(d, data.([][4][4]float32)) }
	}
	it.vals = bitsOf(data)
	n = len(it.vals)
	accs := len(d.Accessors)
	w.do(how, n, func() error { it.acc = f(); return nil })
	if len(d.Accessors) != accs+1 {
		e.S.Fail("entries", "%s added %d accessors", how, len(d.Accessors)-accs)
	}
	if n > 0 && len(w.mem) < 6 {
		w.mem = append(w.mem, data)
	}
	w.reuse(data)
	w.aligned(it)
	w.add(it)
}

// refill takes a slice that was written before, as a program does that fills
// one slice again and again, and changes a few elements or all of them.
func (w *c09world) refill(t reflect.Type) any {
	g := w.e.G
	for _, x := range w.mem {
		v := reflect.ValueOf(x)
		if v.Type() != t || !g.Chance(1, 3) {
			continue
		}
		w.e.S.Probe("the same slice again")
		if p, ok := x.([][3]float32); ok {
			for i := range p { // the caller may have put anything there
				for j, f := range p[i] {
					if f-f != 0 {
						p[i][j] = 0
					}
				}
			}
			for i, k := 0, 1+g.N(2); i < k; i++ {
				p[g.N(len(p))] = w.e.points(1)[0]
			}
			return p
		}
		if b := rawOf(x); g.N(2) == 0 {
			simrt.FillBytes(b, g.U64())
		} else {
			b[g.N(len(b))] ^= byte(1 + g.N(255))
		}
		return x
	}
	return nil
}

// again makes data of the bytes of something the document has, if chance will
// have it.
func (w *c09world) again(c gltf.ComponentType, t gltf.AccessorType) any {
	g := w.e.G
	if len(w.d.BufferViews) == 0 || !g.Chance(1, 4) {
		return nil
	}
	b, err := ref.ViewBytes(w.d, w.d.BufferViews[g.N(len(w.d.BufferViews))])
	n := len(b) / int(elemType(c, t).Size())
	if err != nil || n == 0 || n > 3000 {
		return nil
	}
	x := w.e.plain(c, t, n)
	copy(rawOf(x), b)
	w.e.S.Probe("the same data again")
	return x
}

func isColor(v any) bool { return v != nil && reflect.TypeOf(v).Elem().Kind() == reflect.Struct }

// plain is a slice that is not one of colours.
func (e *Env) plain(c gltf.ComponentType, t gltf.AccessorType, n int) any {
	v := reflect.MakeSlice(reflect.SliceOf(elemType(c, t)), n, n).Interface()
	if b := rawOf(v); len(b) > 0 {
		simrt.FillBytes(b, e.G.U64())
	}
	return v
}

func (w *c09world) aligned(it *item) {
	d := w.d
	if it.acc < 0 || it.acc >= len(d.Accessors) || d.Accessors[it.acc].BufferView == nil {
		w.e.S.Fail("entries", "%s returned accessor %d of %d, or one without a buffer view", it.what, it.acc, len(d.Accessors))
	}
	v := *d.Accessors[it.acc].BufferView
	if v < 0 || v >= len(d.BufferViews) {
		w.e.S.Fail("entries", "%s made an accessor of buffer view %d of %d", it.what, v, len(d.BufferViews))
	}
	if o := d.BufferViews[v].ByteOffset; o%4 != 0 {
		w.e.S.Fail("unaligned", "%s put its data at offset %d", it.what, o)
	}
}

// mixed draws data of one or more kinds.
func (w *c09world) mixed(bad bool) (data []any, items []*item) {
	e, g := w.e, w.e.G
	n := w.length()
	for i, k := 0, 1+g.N(4); i < k; i++ {
		c, t := compTypes[g.N(6)], accTypes[g.N(7)]
		m := n
		if bad && i > 0 && g.N(2) == 0 {
			m = n + 1 + g.N(3) - 2*g.N(2)
			if m < 0 {
				m = 0
			}
		}
		x := e.slice(c, t, m)
		if i == 0 {
			if y := w.again(c, t); y != nil {
				x = y
				n = reflect.ValueOf(x).Len()
			}
		}
		data = append(data, x)
		items = append(items, &item{img: -1, comp: c, typ: t, vals: bitsOf(x), target: gltf.TargetArrayBuffer})
	}
	return
}

func unequal(data []any) bool {
	for _, x := range data {
		if reflect.ValueOf(x).Len() != reflect.ValueOf(data[0]).Len() {
			return true
		}
	}
	return false
}

func (w *c09world) interleaved() {
	e, d := w.e, w.d
	data, items := w.mixed(e.G.N(3) == 2)
	accs := len(d.Accessors)
	var idx []int
	err := w.do("WriteAccessorsInterleaved", len(data), func() (err error) {
		idx, err = modeler.WriteAccessorsInterleaved(d, data...)
		return
	})
	w.outcome("WriteAccessorsInterleaved", err, unequal(data))
	if err != nil {
		return
	}
	if len(idx) != len(data) || len(d.Accessors) != accs+len(data) {
		e.S.Fail("entries", "WriteAccessorsInterleaved of %d parts returned %d indices and added %d accessors", len(data), len(idx), len(d.Accessors)-accs)
	}
	w.reuse(data...)
	for i, it := range items {
		it.what, it.acc = fmt.Sprintf("WriteAccessorsInterleaved part %d of %d", i, len(data)), idx[i]
		w.aligned(it)
		w.add(it)
	}
}

func (w *c09world) outcome(what string, err error, invalid bool) {
	if invalid {
		w.e.S.Fault("invalid arguments")
		if err == nil {
			w.e.S.Fail("invalid-accepted", "%s of parts with different numbers of elements or wrong types returned no error", what)
		}
	} else if err != nil {
		w.e.S.Fail("valid-rejected", "%s of valid data returned %v", what, err)
	}
}

func (w *c09world) attributes() {
	e, g, d := w.e, w.e.G, w.d
	n := w.length()
	bad := g.N(4) == 3
	var attrs []modeler.PrimitiveAttribute
	items := map[string]*item{}
	var data []any
	invalid := false
	names := []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.JOINTS_0, gltf.COLOR_0, "_CUSTOM", "_ID"}
	for _, name := range names {
		if g.N(3) != 0 {
			continue
		}
		m := n
		if g.Chance(1, 8) {
			m = 0
		}
		if bad && g.N(3) == 0 {
			m = n + 1
		}
		it := &item{what: "attribute " + name, img: -1, target: gltf.TargetArrayBuffer}
		var x any
		set := func(cs ct, ts at) {
			it.comp, it.typ = cs[g.N(len(cs))], ts[g.N(len(ts))]
			if bad && g.N(4) == 0 {
				it.comp, it.typ = compTypes[g.N(6)], accTypes[g.N(7)]
			}
			x = e.plain(it.comp, it.typ, m)
			if m > 0 && !(has(cs, it.comp) && has(ts, it.typ)) {
				invalid = true
			}
		}
		switch name {
		case gltf.POSITION:
			it.comp, it.typ = gltf.ComponentFloat, gltf.AccessorVec3
			p := e.points(m)
			x = p
			it.lo, it.hi = boundsOf(p)
			if bad && g.N(6) == 0 {
				x = e.plain(gltf.ComponentFloat, gltf.AccessorVec4, m)
				it.typ = gltf.AccessorVec4
				invalid = invalid || m > 0
			}
		case gltf.TEXCOORD_0, gltf.TEXCOORD_1:
			set(normTypes, at{gltf.AccessorVec2})
			it.normalized = normInt(it.comp)
		case gltf.WEIGHTS_0:
			set(normTypes, at{gltf.AccessorVec4})
			it.normalized = normInt(it.comp)
		case gltf.JOINTS_0:
			set(ct{gltf.ComponentUbyte, gltf.ComponentUshort}, at{gltf.AccessorVec4})
		case gltf.COLOR_0:
			set(normTypes, at{gltf.AccessorVec3, gltf.AccessorVec4})
			it.normalized = normInt(it.comp)
		case gltf.NORMAL:
			it.comp, it.typ = gltf.ComponentFloat, gltf.AccessorVec3
			x = e.plain(it.comp, it.typ, m)
		case gltf.TANGENT:
			it.comp, it.typ = gltf.ComponentFloat, gltf.AccessorVec4
			x = e.plain(it.comp, it.typ, m)
		default:
			it.comp, it.typ = compTypes[g.N(6)], accTypes[g.N(7)]
			x = e.plain(it.comp, it.typ, m)
		}
		it.vals = bitsOf(x)
		attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: x})
		if m > 0 {
			items[name] = it
			data = append(data, x)
		} else {
			switch g.N(4) {
			case 0, 1:
				attrs[len(attrs)-1].Data = nil
			case 2: // a nil slice of the type
				attrs[len(attrs)-1].Data = reflect.Zero(reflect.TypeOf(x)).Interface()
			}
		}
	}
	for i := len(attrs) - 1; i > 0; i-- { // any order
		j := g.N(i + 1)
		attrs[i], attrs[j] = attrs[j], attrs[i]
	}
	if len(data) > 0 && unequal(data) {
		invalid = true
	}
	accs, before := len(d.Accessors), ""
	if len(items) == 0 {
		before = Dump(d)
	}
	var got gltf.PrimitiveAttributes
	err := w.do("WritePrimitiveAttributes", len(data), func() (err error) {
		got, err = modeler.WritePrimitiveAttributes(d, attrs...)
		return
	})
	w.outcome("WritePrimitiveAttributes", err, invalid)
	if err != nil {
		return
	}
	if len(got) != len(items) || len(d.Accessors) != accs+len(items) {
		e.S.Fail("entries", "WritePrimitiveAttributes of %d attributes with data returned %v and added %d accessors", len(items), got, len(d.Accessors)-accs)
	}
	if len(items) == 0 {
		if now := Dump(d); now != before {
			e.S.Fail("entries", "WritePrimitiveAttributes of no data changed the document: %s", diff(before, now))
		}
	}
	w.reuse(data...)
	for _, name := range sortedKeys(items) {
		i, ok := got[name]
		if !ok {
			e.S.Fail("entries", "WritePrimitiveAttributes returned no accessor for %s", name)
		}
		items[name].acc = i
		w.aligned(items[name])
		w.add(items[name])
	}
}

func (w *c09world) image() {
	e, g, d := w.e, w.e.G, w.d
	size := 1 + g.Size(3000)
	if g.Chance(1, 40) {
		size = 1 + g.N(140000)
	}
	data := make([]byte, size)
	g.Bytes(data)
	it := &item{what: "WriteImage", acc: -1, raw: append([]byte(nil), data...), name: fmt.Sprint("img", w.step), mime: []string{"image/png", "image/jpeg"}[g.N(2)], anyTarget: true}
	var r io.Reader
	var src *Reader
	switch g.N(4) {
	case 0:
		r = bytes.NewBuffer(data)
	case 1:
		r = e.source(data)
	default:
		src = e.NewReader(data, DrawPlan(e.F))
		if e.F.N(3) == 2 {
			src.FailAt, src.FailErr = e.F.N(len(data)+1), DrawErr(e.F)
		}
		r = e.dress(src)
	}
	imgs := len(d.Images)
	err := w.do("WriteImage", len(data), func() (err error) {
		it.img, err = modeler.WriteImage(d, it.name, it.mime, r)
		return
	})
	if src != nil && src.Closed > 0 {
		e.S.Fail("stream-closed", "WriteImage closed the caller's reader")
	}
	if src != nil && src.Hit {
		if err == nil {
			e.S.Fail("error-lost", "WriteImage returned no error although its reader failed")
		}
		return
	}
	if err != nil {
		e.S.Fail("valid-rejected", "WriteImage returned %v although its reader did not fail", err)
	}
	if len(d.Images) != imgs+1 {
		e.S.Fail("entries", "WriteImage added %d images", len(d.Images)-imgs)
	}
	w.reuse(data)
	w.add(it)
}

// view writes data without an accessor.
func (w *c09world) view() {
	e, g, d := w.e, w.e.G, w.d
	it := &item{what: "WriteBufferView", acc: -1, img: -1, target: []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[g.N(3)]}
	var data any
	if g.N(2) == 0 {
		b := make([]byte, 1+g.Size(60))
		g.Bytes(b)
		it.raw = append([]byte(nil), b...)
		if it.target == gltf.TargetArrayBuffer { // a stride is due there
			it.target = gltf.TargetNone
		}
		data = b
	} else {
		it.comp, it.typ = compTypes[g.N(6)], accTypes[g.N(7)]
		data = e.slice(it.comp, it.typ, w.length())
		it.vals = bitsOf(data)
	}
	n := len(d.BufferViews)
	w.do("WriteBufferView", 1, func() error { it.view = modeler.WriteBufferView(d, it.target, data); return nil })
	if len(d.BufferViews) != n+1 {
		e.S.Fail("entries", "WriteBufferView added %d views", len(d.BufferViews)-n)
	}
	w.reuse(data)
	w.add(it)
}

func (w *c09world) viewInterleaved() {
	e, d := w.e, w.d
	data, items := w.mixed(e.G.N(3) == 2)
	n := len(d.BufferViews)
	var v int
	err := w.do("WriteBufferViewInterleaved", len(data), func() (err error) {
		v, err = modeler.WriteBufferViewInterleaved(d, data...)
		return
	})
	w.outcome("WriteBufferViewInterleaved", err, unequal(data))
	if err != nil {
		return
	}
	if len(d.BufferViews) != n+1 || v < 0 || v >= len(d.BufferViews) {
		e.S.Fail("entries", "WriteBufferViewInterleaved returned %d and added %d views", v, len(d.BufferViews)-n)
	}
	w.reuse(data...)
	// The caller makes the accessors.
	off := 0
	for i, it := range items {
		l, _ := ref.LayoutOf(it.comp, it.typ)
		d.Accessors = append(d.Accessors, &gltf.Accessor{BufferView: gltf.Index(v), ByteOffset: off, ComponentType: it.comp, Type: it.typ, Count: len(it.vals)})
		off += l.Size
		it.what, it.acc = fmt.Sprintf("WriteBufferViewInterleaved part %d of %d", i, len(data)), len(d.Accessors)-1
		w.add(it)
	}
}

// empty writes nothing, which leaves the rest alone.
func (w *c09world) empty() {
	e, g, d := w.e, w.e.G, w.d
	if len(d.Buffers) == 0 || len(d.Buffers[len(d.Buffers)-1].Data) == 0 {
		return
	}
	data := e.slice(compTypes[g.N(6)], accTypes[g.N(7)], 0)
	w.do("write of nothing", 0, func() error {
		switch g.N(3) {
		case 0:
			modeler.WriteAccessor(d, gltf.TargetArrayBuffer, data)
		case 1:
			_, err := modeler.WriteAccessorsInterleaved(d, data, e.slice(gltf.ComponentFloat, gltf.AccessorVec3, 0))
			return err
		default:
			_, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: [][3]float32{}})
			return err
		}
		return nil
	})
}

// relay sends the document through an encoder and a decoder.
func (w *c09world) relay() {
	e := w.e
	if len(w.d.Buffers) > 0 && len(w.d.Buffers[len(w.d.Buffers)-1].Data) == 0 {
		return
	}
	st := DrawSetting(e.G)
	before := Dump(w.d)
	a, err := e.EncodeClean(w.d, st)
	if err != nil {
		e.S.Fail("encode-failed", "the document written cannot be encoded: %v", err)
	}
	if now := Dump(w.d); now != before {
		e.S.Fail("disturbed", "encoding changed the document: %s", diff(before, now))
	}
	e.S.Event("relay", st.String(), a.Main)
	if e.G.N(3) == 0 {
		return // go on with the original
	}
	d, err := e.DecodeClean(a)
	if err != nil {
		e.S.Fail("decode-failed", "the encoded document cannot be decoded: %v", err)
	}
	w.d = d
	for _, it := range w.items {
		if it.img >= 0 && it.what == "WriteImage" {
			continue
		}
	}
}

func (w *c09world) checkAll() {
	for _, it := range w.items {
		w.check(it)
	}
}

// check reads an item back.
func (w *c09world) check(it *item) {
	e, d := w.e, w.d
	if it.step < w.step {
		e.Nontrivial()
	}
	when := fmt.Sprintf("%s of step %d, read back at step %d", it.what, it.step, w.step)
	view := it.view
	if it.img >= 0 {
		if it.img >= len(d.Images) || d.Images[it.img].BufferView == nil {
			e.S.Fail("lost", "%s: there is no such image", when)
		}
		im := d.Images[it.img]
		if im.Name != it.name || im.MimeType != it.mime || im.URI != "" {
			e.S.Fail("lost", "%s: the image is %s", when, Dump(im))
		}
		view = *im.BufferView
	}
	var a *gltf.Accessor
	if it.acc >= 0 {
		if it.acc >= len(d.Accessors) {
			e.S.Fail("lost", "%s: there is no such accessor", when)
		}
		a = d.Accessors[it.acc]
		if a.BufferView == nil {
			e.S.Fail("lost", "%s: the accessor has no data", when)
		}
		view = *a.BufferView
	}
	if view < 0 || view >= len(d.BufferViews) {
		e.S.Fail("lost", "%s: there is no buffer view %d", when, view)
	}
	bv := d.BufferViews[view]
	if !it.anyTarget && bv.Target != it.target {
		e.S.Fail("description", "%s: the buffer view's target is %d instead of %d", when, bv.Target, it.target)
	}
	if it.raw != nil {
		var got []byte
		var err error
		e.DoBounded("ReadBufferView", bigLimit, func() { got, err = modeler.ReadBufferView(d, bv) })
		if err != nil || !bytes.Equal(got, it.raw) {
			e.S.Fail("lost", "%s: %d bytes (%s) differ from the %d written", when, len(got), errText(err), len(it.raw))
		}
		return
	}
	if a == nil {
		a = &gltf.Accessor{BufferView: gltf.Index(view), ComponentType: it.comp, Type: it.typ, Count: len(it.vals)}
	} else {
		if a.ComponentType != it.comp || a.Type != it.typ || a.Count != len(it.vals) || a.Normalized != it.normalized || a.Sparse != nil {
			e.S.Fail("description", "%s: the accessor of %d elements is %s", when, len(it.vals), Dump(a))
		}
		if it.lo != nil && (!sameFloats(a.Min, it.lo) || !sameFloats(a.Max, it.hi)) {
			e.S.Fail("description", "%s: the bounds are %v to %v instead of %v to %v", when, a.Min, a.Max, it.lo, it.hi)
		}
	}
	l, _ := ref.LayoutOf(it.comp, it.typ)
	if it.target == gltf.TargetArrayBuffer && bv.ByteStride == 0 && l.Size != l.Cols*l.ColSize {
		e.S.Fail("description", "%s: elements of %d bytes are %d bytes apart, but the buffer view has no stride", when, l.Need, l.Size)
	}
	if bad := ref.Satisfiable(d, a); bad != nil {
		e.S.Fail("lost", "%s: %v", when, bad)
	}
	if diff := ref.SameBits(ref.Values(d, a), it.vals); diff != "" {
		e.S.Fail("lost", "%s, by an independent reader: %s", when, diff)
	}
	var v any
	var err error
	e.DoBounded("ReadAccessor", bigLimit, func() { v, err = modeler.ReadAccessor(d, a, nil) })
	if err != nil {
		e.S.Fail("lost", "%s: ReadAccessor: %v", when, err)
	}
	if diff := ref.SameBits(bitsOf(v), it.vals); diff != "" {
		e.S.Fail("lost", "%s, by ReadAccessor: %s", when, diff)
	}
	if strings.HasPrefix(it.what, "Write") && !strings.Contains(it.what, " ") {
		w.typed(when, "Read"+strings.TrimPrefix(it.what, "Write"), a, it)
	}
}

// typed reads an item back by the reader that belongs to its writer.
func (w *c09world) typed(when, name string, a *gltf.Accessor, it *item) {
	e := w.e
	for i := range typedReaders {
		r := &typedReaders[i]
		if r.name != name {
			continue
		}
		var v any
		var err error
		e.DoBounded(name, bigLimit, func() { v, err = r.read(w.d, a, &scratch{g: e.G}) })
		if err != nil {
			e.S.Fail("lost", "%s: %s: %v", when, name, err)
		}
		want := make([][]uint64, len(it.vals))
		for i, x := range it.vals {
			want[i] = r.conv(it.comp, x)
		}
		if diff := ref.SameBits(bitsOf(v), want); diff != "" {
			e.S.Fail("lost", "%s, by %s: %s", when, name, diff)
		}
	}
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
