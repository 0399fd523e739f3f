package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"simv/ref"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C18", Runs: 60000, Body: c18,
		Rule: "Each run keeps a set of documents (made, decoded from the same or other bytes, opened, left over from decodes that failed) and of slices and extension values the library returned, and performs 4 to 15 steps: further decodes and opens with drawn deliveries and faults, writes, accessor reads, and callers that overwrite or edit one of the things they hold, wholly or at a drawn place. After each step everything else must be as it was, a part of a document that was overwritten must leave the other parts as they are in a deep copy, and the same input must give the same result again. A run is non-trivial when something was overwritten while something else was held.",
	})
}

// holding is something the library gave a caller.
type holding struct {
	what string
	v    any
	doc  *gltf.Document // v, if it is a document
	dump string
}

var newDoc = Dump(gltf.NewDocument())

func c18(e *Env) {
	g := e.G
	e.DrawSpot()
	src := e.AnyAsset()
	ref0, err := e.DecodeClean(src.Asset)
	if err != nil {
		e.S.Probe("asset rejected")
		return
	}
	want := Content(ref0)
	e.Newdisk()
	e.Store(src.Asset, e.At)
	e.Disk.Put(e.At+"/"+e.Base, src.Main)
	var held []*holding
	hold := func(what string, v any) *holding {
		d, _ := v.(*gltf.Document)
		h := &holding{what, v, d, Dump(v)}
		held = append(held, h)
		return h
	}
	hold("the first decoded document", ref0)
	check := func(after string, but *holding) {
		for _, h := range held {
			if h == but {
				h.dump = Dump(h.v)
				continue
			}
			if now := Dump(h.v); now != h.dump {
				e.S.Fail("shared", "%s changed after %s: %s", h.what, after, diff(now, h.dump))
			}
		}
	}
	drop := func(h *holding) {
		for i := range held {
			if held[i] == h {
				held = append(held[:i], held[i+1:]...)
				return
			}
		}
	}
	anyDoc := func() *holding {
		var ds []*holding
		for _, h := range held {
			if h.doc != nil {
				ds = append(ds, h)
			}
		}
		if len(ds) == 0 {
			return nil
		}
		return ds[g.N(len(ds))]
	}
	decoded := func(step int, how string, d *gltf.Document, err error) {
		if err != nil {
			e.S.Fail("not-the-same-again", "%s of an asset (%s) in step %d failed: %v", how, src.Desc, step, err)
		}
		if got := Content(d); got != want {
			e.S.Fail("not-the-same-again", "%s of an asset (%s) in step %d gives another document than the first time: %s", how, src.Desc, step, diff(got, want))
		}
		hold(fmt.Sprintf("the document of the %s in step %d", how, step), d)
	}
	fsys := e.NewFS(e.At)
	for step, n := 1, 4+g.N(12); step <= n; step++ {
		switch g.N(12) {
		case 0: // decode
			d, err := e.Decode(e.NewReader(src.Main, DrawPlan(e.F)), e.dressFS(fsys))
			decoded(step, "Decode", d, err)
			check("a Decode", nil)
		case 1: // decode from memory that is used for something else afterwards
			own := append(make([]byte, 0, len(src.Main)+16), src.Main...)
			var r io.Reader = bytes.NewReader(own)
			if g.N(2) == 0 {
				r = bytes.NewBuffer(own)
			}
			d := new(gltf.Document)
			var err error
			e.DoBounded("Decode", opLimit, func() { err = gltf.NewDecoderFS(r, fsys).Decode(d) })
			decoded(step, "Decode from memory", d, err)
			spoil(own)
			check("the caller used the memory it had decoded from for something else", nil)
		case 2: // open
			var d *gltf.Document
			var err error
			e.DoBounded("Open", opLimit, func() { d, err = gltf.Open(e.Spelled) })
			decoded(step, "Open", d, err)
			check("an Open", nil)
		case 3: // a decode that fails leaves what it has
			r := e.NewReader(src.Main, DrawPlan(e.F))
			r.FailAt, r.FailErr = e.F.N(len(src.Main)+1), DrawErr(e.F)
			d := new(gltf.Document)
			var err error
			e.DoBounded("Decode", opLimit, func() { err = gltf.NewDecoderFS(r, fsys).Decode(d) })
			e.S.Event("failed", errText(err))
			hold(fmt.Sprintf("what the failed Decode in step %d had filled in", step), d)
			check("a Decode that failed", nil)
		case 4: // new document
			var d *gltf.Document
			e.Do("NewDocument", func() { d = gltf.NewDocument() })
			if got := Dump(d); got != newDoc {
				e.S.Fail("not-the-same-again", "NewDocument in step %d gives another document than at first: %s", step, diff(got, newDoc))
			}
			hold(fmt.Sprintf("the new document of step %d", step), d)
		case 5: // overwrite everything
			if len(held) < 2 {
				continue
			}
			h := held[g.N(len(held))]
			e.S.Event("spoil", h.what)
			drop(h)
			spoil(h.v)
			e.Nontrivial()
			check("the caller overwrote "+h.what, nil)
		case 6, 7: // overwrite a part
			h := anyDoc()
			if h == nil {
				continue
			}
			c := clone(h.doc)
			var path []int
			k := 0
			x := part(reflect.ValueOf(h.doc), func(n int) int { path = append(path, g.N(n)); return path[len(path)-1] })
			y := part(reflect.ValueOf(c), func(n int) int { k++; return path[k-1] })
			what := fmt.Sprintf("%s at %v", x.Type(), path)
			e.S.Event("spoil part", h.what, what)
			spoil(x.Interface())
			spoil(y.Interface())
			e.Nontrivial()
			if a, b := Dump(h.doc), Dump(c); a != b {
				e.S.Fail("shared-within", "overwriting one part (%s) of %s changes others: %s", what, h.what, diff(a, b))
			}
			check("the caller overwrote a part ("+what+") of "+h.what, h)
			h.doc = nil // no document any longer, but still held
		case 8: // edit
			h := anyDoc()
			if h == nil {
				continue
			}
			e.S.Event("tweak", h.what, e.tweak(h.doc))
			e.Nontrivial()
			check("the caller edited "+h.what, h)
		case 9: // write
			h := anyDoc()
			if h == nil {
				continue
			}
			data := make([][3]float32, 1+g.N(8))
			for i := range data {
				data[i] = [3]float32{float32(g.N(9)), float32(g.N(9)), float32(g.N(9))}
			}
			img := make([]byte, 1+g.N(20))
			g.Bytes(img)
			switch g.N(4) {
			case 0:
				e.DoBounded("WritePosition", opLimit, func() { modeler.WritePosition(h.doc, data) })
			case 1:
				e.DoBounded("WriteNormal", opLimit, func() { modeler.WriteNormal(h.doc, data) })
			case 2:
				e.DoBounded("WriteImage", opLimit, func() { modeler.WriteImage(h.doc, "x", "image/png", bytes.NewBuffer(img)) })
			case 3:
				var attrs gltf.PrimitiveAttributes
				e.DoBounded("WritePrimitiveAttributes", opLimit, func() {
					attrs, _ = modeler.WritePrimitiveAttributes(h.doc, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: data}, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: data})
				})
				hold(fmt.Sprintf("the attributes of step %d", step), attrs)
			}
			check("a write into "+h.what, h)
			spoil(data)
			spoil(img)
			check("the caller used the memory it had written to "+h.what+" from for something else", nil)
		case 10: // read
			d := e.AccessorDoc(1 + g.N(3))
			h := hold(fmt.Sprintf("the document read in step %d", step), d)
			i := g.N(len(d.Accessors))
			for k := 2 + g.N(3); k > 0; k-- {
				if g.N(2) == 0 {
					i = g.N(len(d.Accessors))
				}
				name, v := c18read(e, d, d.Accessors[i])
				r := hold(fmt.Sprintf("what %s returned in step %d", name, step), v)
				check("a "+name, nil)
				if g.N(3) == 0 {
					drop(r)
					spoil(v)
					e.Nontrivial()
					check("the caller overwrote "+r.what, nil)
				}
			}
			drop(h)
			if g.N(2) == 0 {
				spoil(d)
				check("the caller overwrote the document whose elements it had read", nil)
			}
		case 11: // extensions
			c18ext(e, hold, check)
		}
	}
}

// c18read reads an accessor into no buffer of the caller's.
func c18read(e *Env, d *gltf.Document, a *gltf.Accessor) (string, any) {
	g := e.G
	values := ref.Values(d, a)
	name := "ReadAccessor"
	read := func() (any, error) { return modeler.ReadAccessor(d, a, nil) }
	if g.N(3) != 0 {
		for k, n := 0, g.N(len(typedReaders)); k < len(typedReaders); k++ {
			if x := &typedReaders[(n+k)%len(typedReaders)]; has(x.comps, a.ComponentType) && has(x.types, a.Type) {
				b := &scratch{g: g, Mode: g.N(2)} // none or an empty one
				name, read = x.name, func() (any, error) { return x.read(d, a, b) }
				for j := range values {
					values[j] = x.conv(a.ComponentType, values[j])
				}
				break
			}
		}
	}
	var v any
	var err error
	e.DoBounded(name, opLimit, func() { v, err = read() })
	c10check(e, name+" of "+describe(d, a), v, err, values)
	return name, v
}

// part goes down from v to a drawn place.
func part(v reflect.Value, n func(int) int) reflect.Value {
	last := v
	for depth := 0; ; depth++ {
		var next []reflect.Value
		var collect func(v reflect.Value)
		collect = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map:
				if !v.IsNil() {
					next = append(next, v)
				}
			case reflect.Interface:
				if !v.IsNil() {
					collect(v.Elem())
				}
			case reflect.Struct:
				for i := 0; i < v.NumField(); i++ {
					if v.Type().Field(i).PkgPath == "" {
						collect(v.Field(i))
					}
				}
			}
		}
		switch last.Kind() {
		case reflect.Ptr:
			if k := last.Elem().Kind(); k == reflect.Struct {
				collect(last.Elem())
			}
		case reflect.Slice:
			if last.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < last.Len(); i++ {
					collect(last.Index(i))
				}
			}
		case reflect.Map:
			if last.Type().Key().Kind() == reflect.String {
				for _, k := range sortedMapKeys(last) {
					collect(last.MapIndex(k))
				}
			}
		}
		if len(next) == 0 || depth > 0 && n(3) == 0 {
			return last
		}
		last = next[n(len(next))]
	}
}

func sortedMapKeys(m reflect.Value) []reflect.Value {
	by := map[string]reflect.Value{}
	for _, k := range m.MapKeys() {
		by[k.String()] = k
	}
	var out []reflect.Value
	for _, k := range sortedKeys(by) {
		out = append(out, by[k])
	}
	return out
}

var c18exts = []struct {
	name string
	f    func([]byte) (any, error)
	in   []string
}{
	{"lightspunctual", lightspunctual.Unmarshal, []string{`{"light":3}`, `{"lights":[{"type":"point"},{"type":"spot","spot":{}},{"type":"directional"}]}`, `{"lights":[{"type":"point","color":[1,0,1],"intensity":2,"range":3,"name":"n"}]}`}},
	{"specular", specular.Unmarshal, []string{`{}`, `{"diffuseFactor":[1,0,0,1],"diffuseTexture":{"index":1,"extensions":{"X":{"a":1}}}}`, `{"specularFactor":[0,0,0],"glossinessFactor":0.5}`}},
	{"texturetransform", texturetransform.Unmarshal, []string{`{}`, `{"offset":[1,2],"texCoord":1}`, `{"scale":[2,2],"rotation":1}`}},
	{"unlit", unlit.Unmarshal, []string{`{}`}},
}

// c18ext unmarshals the payload of an extension, twice, and holds one of the
// results.
func c18ext(e *Env, hold func(string, any) *holding, check func(string, *holding)) {
	g := e.G
	x := c18exts[g.N(len(c18exts))]
	in := x.in[g.N(len(x.in))]
	first := ""
	for i := 0; i < 2; i++ {
		own := []byte(in)
		var v any
		var err error
		e.Do("Unmarshal", func() { v, err = x.f(own) })
		if err != nil {
			e.S.Fail("not-the-same-again", "%s.Unmarshal of %s failed: %v", x.name, in, err)
		}
		spoil(own)
		got := Dump(v)
		if i == 0 {
			first = got
			if g.N(2) == 0 {
				spoil(v)
				e.Nontrivial()
				check("the caller overwrote what "+x.name+".Unmarshal had returned", nil)
				continue
			}
		} else if got != first {
			e.S.Fail("not-the-same-again", "%s.Unmarshal of %s gives another value than before: %s", x.name, in, diff(got, first))
		}
		hold("the value of "+x.name+".Unmarshal", v)
		check("an Unmarshal", nil)
	}
}
