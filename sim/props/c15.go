package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"

	"simv/ref"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

func init() {
	ref.Custom = custom
	register(&Prop{
		ID: "C15", Runs: 28000, Body: c15,
		Rule: "Each run generates a document with payloads of built-in, registered, failing and unknown extensions and extras at drawn places, writes it (by the library or by a foreign writer) and relays it through one to six decodes and encodes with drawn settings, deliveries and failing attempts in between; after each decode the content, the type of every payload and the exact bytes of every raw payload are compared, and overwriting one payload must not show in another. A run is non-trivial when the document has at least one payload or extras.",
	})
}

// Extensions of the simulated program, one per way an extension can be
// implemented.
const (
	extStruct = "SIM_struct" // pointer to a struct, with extensions and extras inside
	extValue  = "SIM_value"  // a value
	extMap    = "SIM_map"    // a map
	extFails  = "SIM_fails"  // factory always fails
	extPicky  = "SIM_picky"  // factory fails for some payloads
	extKeep   = "SIM_keep"   // factory keeps the bytes it was given
)

type simStruct struct {
	Extensions gltf.Extensions   `json:"extensions,omitempty"`
	Extras     any               `json:"extras,omitempty"`
	Name       string            `json:"name"`
	Nums       []float64         `json:"nums"`
	Tex        *gltf.TextureInfo `json:"tex,omitempty"`
	Node       *gltf.Node        `json:"node,omitempty"`
}

type simValue float64

func (v simValue) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"v": float64(v)})
}

type simMap map[string]float64

type simPicky struct {
	OK bool   `json:"ok"`
	S  string `json:"s"`
}

// simKeep is the payload as it was handed to the factory.
type simKeep struct{ b []byte }

func (k *simKeep) MarshalJSON() ([]byte, error) { return k.b, nil }

func custom(v any) (any, bool) {
	switch v := v.(type) {
	case *simKeep:
		return ref.Generic(json.RawMessage(v.b)), true
	case *simStruct:
		return ref.SimStruct(v.Extensions, v.Extras, v.Name, v.Nums, v.Tex, v.Node), true
	case simValue:
		return ref.Generic(map[string]any{"v": float64(v)}), true
	case simMap:
		m := map[string]any{}
		for k, x := range v {
			m[k] = x
		}
		return ref.Generic(m), true
	case *simPicky:
		return ref.Generic(map[string]any{"ok": v.OK, "s": v.S}), true
	}
	return nil, false
}

// simExts registers the extensions and returns makers of payloads.
func (e *Env) simExts() []ref.ExtMaker {
	gltf.RegisterExtension(extStruct, func(b []byte) (any, error) {
		x := new(simStruct)
		return x, json.Unmarshal(b, x)
	})
	gltf.RegisterExtension(extValue, func(b []byte) (any, error) {
		var x struct{ V float64 }
		err := json.Unmarshal(b, &x)
		return simValue(x.V), err
	})
	gltf.RegisterExtension(extMap, func(b []byte) (any, error) {
		x := simMap{}
		err := json.Unmarshal(b, &x)
		return x, err
	})
	gltf.RegisterExtension(extFails, func(b []byte) (any, error) {
		e.S.Fault("extension factory fails")
		return &simPicky{S: "half done"}, errors.New("no")
	})
	gltf.RegisterExtension(extPicky, func(b []byte) (any, error) {
		x := new(simPicky)
		if err := json.Unmarshal(b, x); err != nil {
			e.S.Fault("extension factory fails")
			return nil, err
		}
		if !x.OK {
			e.S.Fault("extension factory fails")
			return x, errors.New("not ok")
		}
		return x, nil
	})
	gltf.RegisterExtension(extKeep, func(b []byte) (any, error) {
		return &simKeep{b}, nil
	})
	return []ref.ExtMaker{
		{Key: extKeep, Make: func(g *ref.Gen) any { return &simKeep{[]byte(g.RawJSON(2))} }},
		{Key: extStruct, Make: func(g *ref.Gen) any {
			x := &simStruct{Name: g.Str(), Nums: []float64{g.Num()}}
			x.Extensions, x.Extras = g.Inner()
			if g.S.N(2) == 1 {
				x.Tex = g.TexInfo()
			}
			if g.S.N(3) == 2 {
				x.Node = g.InnerNode()
			}
			return x
		}},
		{Key: extValue, Make: func(g *ref.Gen) any { return simValue(g.Num()) }},
		{Key: extMap, Make: func(g *ref.Gen) any {
			m := simMap{}
			for i, n := 0, g.S.N(3); i < n; i++ {
				m[g.Str()] = g.Num()
			}
			return m
		}},
		{Key: extFails, Make: func(g *ref.Gen) any { return json.RawMessage(g.RawJSON(2)) }},
		{Key: extPicky, Make: func(g *ref.Gen) any {
			if g.S.N(2) == 0 {
				return &simPicky{OK: true, S: g.Str()}
			}
			return json.RawMessage([]string{`{"ok":false,"s":"x"}`, `{"s":5}`, `[]`, `"ok"`, `{"ok":false,"extra":1e400}`, `{}`}[g.S.N(6)])
		}},
	}
}

// documented tells what type a decoded payload of an extension has.
func documented(key string, v any) string {
	want := ""
	switch key {
	case lightspunctual.ExtensionName:
		switch v.(type) {
		case lightspunctual.Lights, lightspunctual.LightIndex:
			return ""
		}
		want = "lightspunctual.Lights or LightIndex"
	case specular.ExtensionName:
		if x, ok := v.(*specular.PBRSpecularGlossiness); ok && x != nil {
			return ""
		}
		want = "*specular.PBRSpecularGlossiness"
	case texturetransform.ExtensionName:
		if x, ok := v.(*texturetransform.TextureTranform); ok && x != nil {
			return ""
		}
		want = "*texturetransform.TextureTranform"
	case unlit.ExtensionName:
		if x, ok := v.(*unlit.Unlit); ok && x != nil {
			return ""
		}
		want = "*unlit.Unlit"
	case extStruct:
		if _, ok := v.(*simStruct); ok {
			return ""
		}
		want = "what its factory returned"
	case extValue:
		if _, ok := v.(simValue); ok {
			return ""
		}
		want = "what its factory returned"
	case extMap:
		if _, ok := v.(simMap); ok {
			return ""
		}
		want = "what its factory returned"
	case extKeep:
		if _, ok := v.(*simKeep); ok {
			return ""
		}
		want = "what its factory returned"
	case extPicky:
		if x, ok := v.(*simPicky); ok && x.OK {
			return ""
		}
		fallthrough
	default:
		if _, ok := v.(json.RawMessage); ok {
			return ""
		}
		want = "json.RawMessage"
	}
	return fmt.Sprintf("payload of %s is a %T, not %s", key, v, want)
}

// rawPayloads lists the text of every payload that stays raw, from the JSON.
func rawPayloads(js []byte) []string {
	var out []string
	var walk func(b json.RawMessage, member string)
	walk = func(b json.RawMessage, member string) {
		b = bytes.TrimLeft(b, " \t\r\n")
		if len(b) == 0 {
			return
		}
		switch b[0] {
		case '[':
			var xs []json.RawMessage
			if json.Unmarshal(b, &xs) == nil {
				for _, x := range xs {
					walk(x, "")
				}
			}
		case '{':
			var m map[string]json.RawMessage
			if json.Unmarshal(b, &m) != nil {
				return
			}
			for _, k := range sortedKeys(m) {
				x := m[k]
				switch {
				case k == "extras" || len(k) > 9 && k[:10] == "x_unknown_" || k == "attributes" || k == "targets":
				case k == "extensions":
					var es map[string]json.RawMessage
					if json.Unmarshal(x, &es) != nil {
						return
					}
					for _, key := range sortedKeys(es) {
						p := es[key]
						switch key {
						case specular.ExtensionName, extStruct:
							walk(p, key)
						case lightspunctual.ExtensionName, texturetransform.ExtensionName, extValue, extMap, extKeep, unlit.ExtensionName:
						case extPicky:
							var y simPicky
							if json.Unmarshal(p, &y) == nil && y.OK {
								continue
							}
							out = append(out, key+"="+string(p))
						default:
							out = append(out, key+"="+string(p))
						}
					}
				default:
					walk(x, k)
				}
			}
		}
	}
	walk(js, "")
	sort.Strings(out)
	return out
}

// jsonOf extracts the JSON of an asset.
func jsonOf(main []byte) []byte {
	if len(main) >= 20 && string(main[:4]) == "glTF" {
		n := int(main[12]) | int(main[13])<<8 | int(main[14])<<16 | int(main[15])<<24
		return main[20 : 20+n]
	}
	return main
}

func c15(e *Env) {
	g := e.G
	makers := e.simExts()
	var d *gltf.Document
	var a *Asset
	var want, desc string
	gen := func() *ref.Gen {
		x := e.NewGen()
		x.Density = []int{0, 1, 1, 2, 2, 3}[g.N(6)]
		x.Exts = makers
		return x
	}
	if g.N(3) == 0 {
		binary := g.N(2) == 0
		d = gen().Doc()
		st := ref.DrawStyle(g)
		a = e.Foreign(d, binary, st)
		want, desc = Content(d), "written by another program"
	} else {
		x := gen()
		x.ExternalDirs = []string{""}
		d = x.Doc()
		x.Buffers(d)
		var err error
		st := DrawSetting(g)
		a, err = e.EncodeClean(d, st)
		if err != nil {
			e.S.Fail("encode-failed", "encoding a valid document without any fault failed: %v", err)
		}
		want, desc = Saved(d, st.Binary), "encoded"
	}
	rest := Rest(d)
	n := 0
	eachExt(d, func(x gltf.Extensions) { n += len(x) })
	if n > 0 {
		e.Nontrivial()
	}
	e.S.Event("asset", desc, n, a.Main)
	for i, relays := 0, 1+g.N(6); i < relays; i++ {
		if e.F.Chance(1, 4) { // an attempt that fails
			r := e.NewReader(a.Main, DrawPlan(e.F))
			r.FailAt, r.FailErr = e.F.N(len(a.Main)+1), DrawErr(e.F)
			e.Newdisk()
			e.Decode(r, e.NewFS("/sim/f"))
		}
		got, err, how := e.deliver(a)
		e.S.Event("decoded", how, errText(err))
		if err != nil {
			e.S.Fail("relay-rejected", "%s of a document %s, relay %d, failed: %v", how, desc, i, err)
		}
		if c := Content(got); c != want {
			e.S.Fail("content-lost", "%s of a document %s, relay %d: %s", how, desc, i, diff(c, want))
		}
		var raws []string
		var all []json.RawMessage
		eachExt(got, func(x gltf.Extensions) {
			for _, k := range sortedKeys(x) {
				if m := documented(k, x[k]); m != "" {
					e.S.Fail("wrong-type", "%s, relay %d: %s", how, i, m)
				}
				if r, ok := x[k].(json.RawMessage); ok {
					raws = append(raws, k+"="+string(r))
					all = append(all, r)
				}
				if r, ok := x[k].(*simKeep); ok {
					all = append(all, r.b)
				}
				if u, ok := x[k].(*unlit.Unlit); ok {
					for _, m := range sortedKeys(*u) {
						if r, ok := (*u)[m].(json.RawMessage); ok {
							all = append(all, r)
						}
					}
				}
			}
		})
		sort.Strings(raws)
		if src := rawPayloads(jsonOf(a.Main)); !reflect.DeepEqual(raws, src) && len(raws)+len(src) > 0 {
			e.S.Fail("not-verbatim", "%s, relay %d: raw payloads %.300q, in the asset %.300q", how, i, raws, src)
		}
		c15apart(e, got, all)
		st := DrawSetting(g)
		if e.F.Chance(1, 4) { // an attempt that fails
			w := e.NewWriter()
			w.FailOp, w.FailErr = e.F.N(4), DrawErr(e.F)
			e.Encode(got, st, w, nil)
		}
		next, err := e.EncodeClean(got, st)
		if err != nil {
			e.S.Fail("relay-rejected", "encoding a decoded document, relay %d, failed: %v", i, err)
		}
		want = Saved(got, st.Binary)
		if r := Rest(got); r != rest {
			e.S.Fail("content-lost", "relay %d changed the content: %s", i, diff(r, rest))
		}
		c15own(e, got)
		a, desc = next, "relayed with "+st.String()
		e.S.Event("encoded", st.String(), a.Main)
	}
}

// c15own checks that payloads share nothing: overwriting one does not show in
// the others, nor in what is decoded later.
func c15own(e *Env, d *gltf.Document) {
	var all []any
	eachExt(d, func(x gltf.Extensions) {
		for _, k := range sortedKeys(x) {
			all = append(all, x[k])
		}
	})
	if len(all) > 1 {
		k := e.G.N(len(all))
		texts := make([]string, len(all))
		for i := range all {
			if i != k && !holds(all[k], all[i]) && !holds(all[i], all[k]) {
				texts[i] = Dump(all[i])
			}
		}
		was := Dump(all[k])
		spoil(all[k])
		for i := range all {
			if texts[i] == "" {
				continue
			}
			if now := Dump(all[i]); now != texts[i] {
				e.S.Fail("shared-memory", "overwriting the payload %.200s changed another: %s", was, diff(now, texts[i]))
			}
		}
	}
	spoil(d)
}

// holds tells whether payload b is somewhere inside payload a.
func holds(a, b any) (yes bool) {
	y := reflect.ValueOf(b)
	eachExt(a, func(x gltf.Extensions) {
		for _, v := range x {
			z := reflect.ValueOf(v)
			if z.Kind() != y.Kind() || z.Type() != y.Type() {
				continue
			}
			switch z.Kind() {
			case reflect.Ptr, reflect.Map, reflect.Slice:
				yes = yes || z.Pointer() == y.Pointer() && z.Pointer() != 0
			}
		}
	})
	return yes
}

// c15apart checks that raw payloads have memory of their own: appending to one
// or overwriting it does not show in the others.
func c15apart(e *Env, d *gltf.Document, all []json.RawMessage) {
	if len(all) == 0 {
		return
	}
	i := e.G.N(len(all))
	before := Content(d)
	for _, r := range all {
		_ = append(r, "@@@@@@@@"...)
	}
	if now := Content(d); now != before {
		e.S.Fail("shared-memory", "appending to a raw payload changed the document: %s", diff(now, before))
	}
	r := all[i]
	saved := append([]byte(nil), r...)
	texts := make([]string, len(all))
	for k := range all {
		texts[k] = string(all[k])
	}
	for k := range r {
		r[k] = '@'
	}
	for k := range all {
		if k != i && string(all[k]) != texts[k] {
			e.S.Fail("shared-memory", "overwriting one raw payload changed another: %q to %q", texts[k], all[k])
		}
	}
	copy(r, saved)
}
