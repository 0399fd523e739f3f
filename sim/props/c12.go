package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID: "C12", Race: true, Runs: 50000, Body: runC12,
		Rule:        "Each run draws one to three tasks that register and re-register factories for one to three keys and one to three tasks that decode documents with payloads of these keys (and of a key nobody registers) at several places; factories may fail, take time, decode further documents, decode payloads nested in theirs, or register factories themselves. The scheduler interleaves them statement by statement. The recorded history of every key must be that of an atomic register: each factory call and each payload left raw is a read at some moment between the start of its decode and the call (or the end of the decode). A run is non-trivial when at least one read overlapped or followed a registration.",
		Assumptions: []string{"synchronisation inside the standard library (encoding/json, reflect) is real and may order tasks that the code under test does not order"},
	})
}

// Kinds of records of a history.
const (
	nPayload  = iota // payload, key, decode start
	nCall            // payload, factory, time
	nResult          // payload, factory (0: raw), decode end, key
	nRegister        // key, factory, start, end, kind
)

// c12val is what the factories make.
type c12val struct {
	Factory    int64
	ID         int64
	Extensions gltf.Extensions
}

type c12payload struct {
	ID         int64           `json:"id"`
	Depth      int             `json:"depth"`
	Extensions gltf.Extensions `json:"extensions"`
}

// c12doc is a document to decode, without its payloads' numbers.
type c12doc struct {
	places  [][]int // keys at the document, nodes, materials...
	nest    []bool  // whether the payloads at a place carry nested ones
	nested  int     // key of the nested payloads
	binary  bool
	failing bool
}

const (
	fPlain = iota
	fFails
	fSlow
	fDecodes
	fRegisters
	fNested
)

type c12factory struct {
	kind int
	doc  *c12doc
	key  int
}

type c12 struct {
	*Env
	keys []string
}

func (c *c12) drawDoc(nested bool) *c12doc {
	g := c.G
	d := &c12doc{binary: g.N(3) == 2, failing: g.Chance(1, 10), nested: g.N(len(c.keys))}
	n := 1 + g.N(3)
	if nested {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ks []int
		for k := range c.keys {
			if g.N(3) < 2 {
				ks = append(ks, k)
			}
		}
		d.places = append(d.places, ks)
		d.nest = append(d.nest, g.Chance(1, 4))
	}
	return d
}

func (c *c12) drawFactory() *c12factory {
	f := &c12factory{kind: fPlain}
	if c.G.N(2) == 1 {
		f.kind = c.G.N(6)
	}
	switch f.kind {
	case fDecodes:
		f.doc = c.drawDoc(true)
	case fRegisters:
		f.key = c.G.N(len(c.keys) - 1)
	}
	return f
}

// register registers a factory for key k.
func (c *c12) register(k int, f *c12factory) {
	id := c.S.Tick()
	start := c.S.Tick()
	c.Do("RegisterExtension", func() {
		gltf.RegisterExtension(c.keys[k], func(b []byte) (any, error) {
			var p c12payload
			if f.kind == fNested {
				if err := json.Unmarshal(b, &p); err != nil {
					return nil, err
				}
			} else {
				var q struct {
					ID    int64 `json:"id"`
					Depth int   `json:"depth"`
				}
				if err := json.Unmarshal(b, &q); err != nil {
					return nil, err
				}
				p.ID, p.Depth = q.ID, q.Depth
			}
			c.S.Note([6]int64{nCall, p.ID, id, c.S.Tick()})
			c.S.Event("call", k, f.kind)
			switch f.kind {
			case fFails:
				c.S.Fault("extension factory fails")
				return nil, errors.New("no")
			case fSlow:
				c.S.Fault("slow factory")
				c.S.Sleep(1000)
			case fDecodes:
				if p.Depth < 2 {
					c.S.Fault("factory decodes")
					c.decode(f.doc, p.Depth+1)
				}
			case fRegisters:
				if p.Depth < 2 {
					c.S.Fault("factory registers")
					c.register(f.key, &c12factory{kind: fPlain})
				}
			}
			return &c12val{id, p.ID, p.Extensions}, nil
		})
	})
	end := c.S.Tick()
	c.S.Event("registered", k, f.kind)
	c.S.Note([6]int64{nRegister, int64(k), id, start, end, int64(f.kind)})
}

// decode decodes a document and records what its payloads became.
func (c *c12) decode(t *c12doc, depth int) {
	start := c.S.Tick()
	payload := func(k int, inner string) string {
		id := 1000000 + c.S.Tick()
		c.S.Note([6]int64{nPayload, id, int64(k), start})
		return fmt.Sprintf(`"%s":{"id":%d,"depth":%d%s}`, c.keys[k], id, depth, inner)
	}
	var places []string
	for i, ks := range t.places {
		var ps []string
		for _, k := range ks {
			inner := ""
			if t.nest[i] {
				inner = `,"extensions":{` + payload(t.nested, "") + `}`
			}
			ps = append(ps, payload(k, inner))
		}
		places = append(places, `"extensions":{`+strings.Join(ps, ",")+`}`)
	}
	js := `{"asset":{"version":"2.0"},` + places[0]
	if len(places) > 1 {
		js += `,"nodes":[{` + places[1] + `}]`
	}
	if len(places) > 2 {
		js += `,"materials":[{"pbrMetallicRoughness":{"baseColorTexture":{"index":0,` + places[2] + `}}}]`
	}
	js += `}`
	data := []byte(js)
	if t.binary {
		data = ref.BuildGLB(ref.Chunk{Type: ref.ChunkJSON, Data: data})
	}
	var src io.Reader
	if depth == 0 {
		r := c.NewReader(data, CoarsePlan(c.F))
		if t.failing {
			c.S.Fault("source fails")
			r.FailAt, r.FailErr = c.F.N(len(data)), ioErrs[c.F.N(len(ioErrs))]
		}
		src = r
	} else {
		src = bytes.NewReader(data)
	}
	d := new(gltf.Document)
	var err error
	c.Do("Decode", func() { err = gltf.NewDecoder(src).Decode(d) })
	end := c.S.Tick()
	if err != nil {
		if depth > 0 || !t.failing {
			c.S.Fail("decode-failed", "decoding a valid document failed: %v", err)
		}
		return
	}
	n := 0
	var walk func(x gltf.Extensions)
	walk = func(x gltf.Extensions) {
		for _, k := range sortedKeys(x) {
			n++
			ki := -1
			for i := range c.keys {
				if c.keys[i] == k {
					ki = i
				}
			}
			switch v := x[k].(type) {
			case *c12val:
				c.S.Note([6]int64{nResult, v.ID, v.Factory, end, int64(ki)})
				walk(v.Extensions)
			case json.RawMessage:
				var p struct {
					ID int64 `json:"id"`
				}
				if err := json.Unmarshal(v, &p); err != nil {
					c.S.Fail("wrong-raw", "raw payload is %q", v)
				}
				c.S.Note([6]int64{nResult, p.ID, 0, end, int64(ki)})
			default:
				c.S.Fail("wrong-type", "payload became a %T", v)
			}
		}
	}
	eachExt12(d, walk)
	want := 0
	for _, ks := range t.places {
		want += len(ks)
	}
	if n < want {
		c.S.Fail("payload-lost", "%d of %d payloads are gone", want-n, want)
	}
}

// eachExt12 visits the extensions of the document but not those nested in
// payloads.
func eachExt12(d *gltf.Document, f func(gltf.Extensions)) {
	f(d.Extensions)
	for _, n := range d.Nodes {
		f(n.Extensions)
	}
	for _, m := range d.Materials {
		if m.PBRMetallicRoughness != nil && m.PBRMetallicRoughness.BaseColorTexture != nil {
			f(m.PBRMetallicRoughness.BaseColorTexture.Extensions)
		}
	}
}

func runC12(e *Env) {
	if e.F.N(2) == 0 {
		simrt.ResetGlobals()
	}
	g := e.G
	c := &c12{Env: e}
	n := 2 + g.N(3)
	if g.Chance(1, 12) {
		n += g.N(16)
	}
	vendor := "SIM"
	if g.N(4) == 3 { // long names that differ late
		vendor = strings.Repeat("VENDOR_", 1+g.N(40))
	}
	for i := 0; i < n; i++ { // the last one is never registered
		k := fmt.Sprintf("%s_%09d_%d", vendor, e.Run, i)
		if i > 0 && g.Chance(1, 6) { // a near miss of the one before
			x := c.keys[i-1]
			if y := []string{strings.ToLower(x), x + "0x", x + ".b", " " + x}[g.N(4)]; y != x {
				k = y
			}
		}
		c.keys = append(c.keys, k)
	}
	reg := len(c.keys) - 1
	type op struct {
		key int
		f   *c12factory
		doc *c12doc
	}
	var tasks []func()
	var names []string
	run := func(ops []op) func() {
		return func() {
			for _, o := range ops {
				if o.doc != nil {
					c.decode(o.doc, 0)
				} else {
					c.register(o.key, o.f)
				}
				if e.F.Chance(1, 8) {
					e.S.Fault("delay")
					e.S.Sleep(1000)
				}
			}
		}
	}
	// Some keys have a factory from the beginning.
	for k := 0; k < reg; k++ {
		if g.N(3) == 0 {
			c.register(k, c.drawFactory())
		}
	}
	for i, n := 0, 1+g.N(3); i < n; i++ {
		var ops []op
		for j, m := 0, 1+g.N(4); j < m; j++ {
			ops = append(ops, op{key: g.N(reg), f: c.drawFactory()})
			if g.Chance(1, 5) { // its own registration must be seen by it
				ops = append(ops, op{doc: c.drawDoc(false)})
			}
		}
		names, tasks = append(names, fmt.Sprint("registrar ", i)), append(tasks, run(ops))
	}
	for i, n := 0, 1+g.N(3); i < n; i++ {
		var ops []op
		for j, m := 0, 1+g.N(4); j < m; j++ {
			ops = append(ops, op{doc: c.drawDoc(false)})
		}
		names, tasks = append(names, fmt.Sprint("decoder ", i)), append(tasks, run(ops))
	}
	e.S.Concurrent(names, tasks...)
	// When all is quiet, the last registration counts.
	all := &c12doc{nest: []bool{false}, places: [][]int{nil}}
	for k := range c.keys {
		all.places[0] = append(all.places[0], k)
	}
	c.decode(all, 2)
	c.judge()
}

// zone is the time in which a value of a register must have been current.
type zone struct {
	value  int64
	f, s   int64 // earliest end, latest start of the operations on it
	ws, we int64 // when it was written
	known  bool
	reads  int
}

func (c *c12) judge() {
	key, start := map[int64]int64{}, map[int64]int64{}
	calls := map[int64][][2]int64{}
	zones, fails := map[int64]map[int64]*zone{}, map[int64]bool{}
	at := func(k, v int64) *zone {
		if zones[k] == nil {
			zones[k] = map[int64]*zone{0: {f: math.MinInt64 + 1, s: math.MinInt64, known: true, ws: math.MinInt64}}
		}
		z := zones[k][v]
		if z == nil {
			z = &zone{value: v, f: math.MaxInt64, s: math.MinInt64}
			zones[k][v] = z
		}
		return z
	}
	span := func(z *zone, s, e int64) {
		z.f, z.s = min(z.f, e), max(z.s, s)
	}
	notes := c.S.Notes()
	for _, n := range notes {
		switch n[0] {
		case nPayload:
			key[n[1]], start[n[1]] = n[2], n[3]
		case nRegister:
			z := at(n[1], n[2])
			z.known, z.ws, z.we = true, n[3], n[4]
			span(z, n[3], n[4])
			fails[n[2]] = n[5] == fFails
		}
	}
	read := func(k, v, s, e int64) {
		z := at(k, v)
		if !z.known {
			c.S.Fail("wrong-factory", "a payload of key %d was given to a factory registered for another key", k)
		}
		if e < z.ws {
			c.S.Fail("not-atomic", "key %d: a factory was used before it was registered", k)
		}
		if z.reads++; v != 0 {
			c.Nontrivial()
		}
		span(z, s, e)
	}
	for _, n := range notes {
		if n[0] == nCall {
			calls[n[1]] = append(calls[n[1]], [2]int64{n[2], n[3]})
			if _, ok := key[n[1]]; !ok {
				c.S.Fail("wrong-payload", "a factory was called with a payload no document has")
			}
			read(key[n[1]], n[2], start[n[1]], n[3])
		}
	}
	for _, n := range notes {
		if n[0] != nResult {
			continue
		}
		id, fac := n[1], n[2]
		k, ok := key[id]
		if !ok || k != n[4] {
			c.S.Fail("wrong-payload", "key %d has the payload of key %d", n[4], k)
		}
		switch {
		case fac != 0:
			made := false
			for _, x := range calls[id] {
				made = made || x[0] == fac
			}
			if !made {
				c.S.Fail("wrong-payload", "key %d: the value comes from a factory that was not called with this payload", k)
			}
		case len(calls[id]) == 0: // nobody was registered
			read(k, 0, start[id], n[3])
		default:
			failed := false
			for _, x := range calls[id] {
				failed = failed || fails[x[0]]
			}
			if !failed {
				c.S.Fail("wrong-raw", "key %d: a payload is raw although its factory did not fail", k)
			}
		}
	}
	var ks []int64
	for k := range zones {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		var zs []*zone
		for _, z := range zones[k] {
			zs = append(zs, z)
		}
		sort.Slice(zs, func(i, j int) bool { return zs[i].value < zs[j].value })
		for i, a := range zs {
			for _, b := range zs[:i] {
				fa, fb := a.f < a.s, b.f < b.s
				la, ha := min(a.f, a.s), max(a.f, a.s)
				lb, hb := min(b.f, b.s), max(b.f, b.s)
				bad := false
				switch {
				case fa && fb:
					bad = la < hb && lb < ha
				case fa && !fb:
					bad = la < lb && hb < ha
				case fb && !fa:
					bad = lb < la && ha < hb
				}
				if bad {
					c.S.Fail("not-atomic", "key %d: the history is not that of an atomic map: %s and %s were both current at the same time (read or registered before and after one another)\n%s", k, name(a), name(b), c.history(k))
				}
			}
		}
	}
}

func name(z *zone) string {
	if z.value == 0 {
		return "no factory"
	}
	return fmt.Sprint("factory ", z.value)
}

func (c *c12) history(k int64) string {
	var out []string
	keys, start := map[int64]int64{}, map[int64]int64{}
	for _, n := range c.S.Notes() {
		switch n[0] {
		case nPayload:
			keys[n[1]], start[n[1]] = n[2], n[3]
		case nRegister:
			if n[1] == k {
				out = append(out, fmt.Sprintf("register factory %d during [%d,%d]", n[2], n[3], n[4]))
			}
		case nCall:
			if keys[n[1]] == k {
				out = append(out, fmt.Sprintf("factory %d called for payload %d of a decode started at %d, at %d", n[2], n[1], start[n[1]], n[3]))
			}
		case nResult:
			if keys[n[1]] == k && n[2] == 0 {
				out = append(out, fmt.Sprintf("payload %d is raw after a decode during [%d,%d]", n[1], start[n[1]], n[3]))
			}
		}
	}
	return strings.Join(out, "\n")
}
