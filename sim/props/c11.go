package props

import (
	"fmt"
	"reflect"
	"strings"
	"syscall"

	"simv/ref"
	"simv/simos"
	"simv/simrt"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C11", Race: true, Runs: 6000, Body: c11,
		Rule:        "Each run draws two to four scripts of one to four operations (decode, open, encode, save, build, read; on documents of their own, on one shared document and on one shared file), performs each alone, and then all of them at once under the race detector with an interleaving drawn statement by statement; every script must give the result it gave alone. A run is non-trivial when at least two scripts ran and the scheduler switched between them.",
		Assumptions: []string{"synchronisation inside the standard library (encoding/json, reflect) is real and may order tasks that the code under test does not order"},
	})
}

// clone copies a value deeply.
func clone[T any](v T) T { return cloneValue(reflect.ValueOf(&v).Elem()).Interface().(T) }

func cloneValue(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(cloneValue(v.Elem()))
			out.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(cloneValue(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			switch v.Type().Elem().Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					s.Index(i).Set(cloneValue(v.Index(i)))
				}
			default:
				reflect.Copy(s, v)
			}
			out.Set(s)
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMapWithSize(v.Type(), v.Len())
			it := v.MapRange()
			for it.Next() {
				m.SetMapIndex(it.Key(), cloneValue(it.Value()))
			}
			out.Set(m)
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// place is where one execution of a script works.
type place struct {
	e   *Env
	dir string // own directory, or
	id  string // own prefix of names in a common one
	fs  *FS
}

// own renames the files of d's buffers to own ones.
func (p *place) own(d *gltf.Document) *gltf.Document {
	if p.id != "" {
		for _, b := range d.Buffers {
			if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
				i := strings.LastIndexByte(b.URI, '/') + 1
				b.URI = b.URI[:i] + p.id + b.URI[i:]
			}
		}
	}
	return d
}

// c11shared is what scripts have in common.
type c11shared struct {
	doc  *gltf.Document
	pool []pooled
}

type scriptOp struct {
	what string
	run  func(p *place) string
}

// at is where the operation works: those that write files of documents of
// their own may share a directory.
func (o scriptOp) at(own, common *place) *place {
	if o.what == "encode" || o.what == "build" || o.what == "save and open" {
		return common
	}
	return own
}

func c11(e *Env) {
	g := e.G
	e.enc.mode = 1 // tasks share e
	fresh := e.F.N(2) == 0
	if fresh {
		simrt.ResetGlobals()
	}
	makers := e.simExts()
	gen := func() *ref.Gen {
		x := e.NewGen()
		x.Density = g.N(3)
		if g.N(2) == 0 {
			x.Exts = makers
		}
		return x
	}
	newDoc := func() *gltf.Document {
		x := gen()
		x.ExternalDirs = []string{"", "sub"}
		d := x.Doc()
		x.Buffers(d)
		return d
	}
	// What the scripts share: a document for reading and encoding, and a file.
	shared := e.AccessorDoc(1 + g.N(4))
	if g.N(2) == 0 {
		x := gen()
		rich := x.Doc()
		shared.Extensions, shared.Extras, shared.Nodes, shared.Materials = rich.Extensions, rich.Extras, rich.Nodes, rich.Materials
	}
	e.Dirs("/sim/shared")
	fileDoc := newDoc()
	sharedFiles, err := e.EncodeClean(fileDoc, Setting{Binary: g.N(2) == 0})
	if err != nil {
		e.S.Fail("encode-failed", "encoding a valid document failed: %v", err)
	}
	sh := &c11shared{shared, e.buildPool()}
	common := g.N(3) == 0 // all work in one directory, with names of their own
	var fsys *FS
	var scripts [][]scriptOp
	twins := g.N(3) == 2 // do the same with copies of their own
	for i, n := 0, 2+g.N(3); i < n; i++ {
		if twins && i > 0 && g.N(3) > 0 {
			scripts = append(scripts, scripts[0])
			continue
		}
		var ops []scriptOp
		for k, m := 0, 1+g.N(4); k < m; k++ {
			ops = append(ops, e.c11op(sh, newDoc))
		}
		scripts = append(scripts, ops)
	}
	setup := func(disk *simos.Disk) {
		e.UseDisk(disk)
		e.Store(sharedFiles, "/sim/shared")
		disk.Put("/sim/shared/main.file", sharedFiles.Main)
		for i := range scripts {
			e.Dirs(fmt.Sprint("/sim/t", i))
		}
		fsys = e.NewFS("/sim/common")
	}
	do := func(i int) []string {
		p := &place{e: e, dir: fmt.Sprint("/sim/t", i)}
		c := *p
		if common {
			c = place{e: e, dir: "/sim/common", id: fmt.Sprint("t", i, "-"), fs: fsys}
		}
		var out []string
		for _, op := range scripts[i] {
			out = append(out, op.what+": "+op.run(op.at(p, &c)))
		}
		return out
	}
	alone := make([][]string, len(scripts))
	for i := range scripts {
		setup(simos.NewDisk())
		alone[i] = do(i)
	}
	before := Dump(shared)
	if fresh { // what happens once in a process happens now
		simrt.ResetGlobals()
		e.simExts()
	}
	disk := simos.NewDisk()
	setup(disk)
	if e.F.N(2) == 0 { // short and late reads
		disk.Hook = func(op simos.Op) simos.Action {
			if op.Kind == "read" && e.F.N(3) == 0 {
				if e.F.N(8) == 0 {
					e.S.Fault("delay")
					e.S.Sleep(1000)
				}
				return simos.Action{Short: 1 + op.N/8 + e.F.N(op.N+1)}
			}
			return simos.Action{}
		}
	}
	got := make([][]string, len(scripts))
	var names []string
	var tasks []func()
	for i := range scripts {
		i := i
		names = append(names, fmt.Sprint("script ", i))
		tasks = append(tasks, func() { got[i] = do(i) })
	}
	e.S.Concurrent(names, tasks...)
	disk.Hook = nil
	e.Nontrivial()
	for i := range scripts {
		for k := range alone[i] {
			e.S.Event("result", i, got[i][k])
			if got[i][k] != alone[i][k] {
				e.S.Fail("differs-from-alone", "script %d (%s), operation %d: alone %s; at the same time as others: %s", i, scripts[i][k].what, k, short(alone[i][k]), short(got[i][k]))
			}
		}
	}
	if now := Dump(shared); now != before {
		e.S.Fail("shared-document-changed", "reading and encoding changed the shared document: %s", diff(before, now))
	}
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// c11op draws one operation; all of its input is drawn now.
func (e *Env) c11op(sh *c11shared, newDoc func() *gltf.Document) scriptOp {
	g, shared := e.G, sh.doc
	switch k := g.N(9); k {
	case 0, 1: // decode
		src := e.AnyAsset()
		main := src.Main
		if g.Chance(1, 5) {
			main = Mutate(g, main)
		}
		files, fails := src.Files, e.drawFails()
		return scriptOp{"decode", func(p *place) string {
			for f, c := range files {
				e.Disk.Put(p.dir+"/"+f, []byte(c))
			}
			r := e.NewReader(main, CoarsePlan(e.F))
			r.FailAt, r.FailErr = fails, syscall.EIO
			d, err := e.Decode(r, e.dressFS(e.NewFS(p.dir)))
			defer spoil(d) // it is its own
			return outcome(d, err)
		}}
	case 2: // the shared file
		return scriptOp{"open shared file", func(p *place) string {
			var d *gltf.Document
			var err error
			e.Do("Open", func() { d, err = gltf.Open("shared/main.file") })
			defer spoil(d)
			return outcome(d, err)
		}}
	case 3: // encode the shared document
		st, fails := DrawSetting(g), e.drawFails()
		return scriptOp{"encode shared document", func(p *place) string { return e.c11encode(shared, st, p, fails) }}
	case 4: // encode its own
		d, st, fails := newDoc(), DrawSetting(g), e.drawFails()
		return scriptOp{"encode", func(p *place) string { return e.c11encode(p.own(clone(d)), st, p, fails) }}
	case 5: // save and open
		d := newDoc()
		if g.N(3) == 0 {
			d = shared
		}
		binary := g.N(2) == 0
		what := "save and open"
		if d == shared {
			what = "save shared document and open"
		}
		return scriptOp{what, func(p *place) string {
			x := d
			if d != shared {
				x = p.own(clone(d))
			}
			name := p.dir + "/" + p.id + "saved.file"
			var err error
			e.Do("Save", func() {
				if binary {
					err = gltf.SaveBinary(x, name)
				} else {
					err = gltf.Save(x, name)
				}
			})
			if err != nil {
				return errText(err)
			}
			var o *gltf.Document
			e.Do("Open", func() { o, err = gltf.Open(name) })
			defer spoil(o)
			return outcome(o, err)
		}}
	case 6, 7: // read the shared document
		i := g.N(len(shared.Accessors))
		a := shared.Accessors[i]
		var r *typed
		if g.N(2) == 0 {
			for k, n := 0, g.N(len(typedReaders)); k < len(typedReaders); k++ {
				if x := &typedReaders[(n+k)%len(typedReaders)]; has(x.comps, a.ComponentType) && has(x.types, a.Type) {
					r = x
					break
				}
			}
		}
		mode, l, c := g.N(4), g.Size(200), g.Size(60)
		times := 1 + g.N(3)
		return scriptOp{"read shared document", func(p *place) string {
			var out string
			for k := 0; k < times; k++ {
				b := &scratch{g: e.P(), Mode: mode, Len: l, Cap: l + c}
				var v any
				var err error
				if r != nil {
					e.Do(r.name, func() { v, err = r.read(shared, a, b) })
				} else {
					e.Do("ReadAccessor", func() { v, err = modeler.ReadAccessor(shared, a, b.bytes()) })
				}
				if err != nil {
					return errText(err)
				}
				out += fmt.Sprintf("%T %x;", v, simrt.HashString(fmt.Sprint(bitsOf(v))))
			}
			if a.BufferView != nil {
				var raw []byte
				var err error
				e.Do("ReadBufferView", func() { raw, err = modeler.ReadBufferView(shared, shared.BufferViews[*a.BufferView]) })
				out += fmt.Sprintf("view %d %x %s", len(raw), simrt.HashBytes(raw), errText(err))
			}
			return out
		}}
	}
	// build
	steps := make([]buildStep, 1+g.N(6))
	for i := range steps {
		steps[i] = e.buildStep(sh.pool)
	}
	st, fails := DrawSetting(g), e.drawFails()
	return scriptOp{"build", func(p *place) string {
		d := gltf.NewDocument()
		var res []string
		for _, s := range steps {
			e.Do(s.what, func() { res = append(res, s.what+" "+s.run(d)) })
		}
		e.Do("modeler", func() {
			for _, a := range d.Accessors {
				v, err := modeler.ReadAccessor(d, a, nil)
				res = append(res, fmt.Sprintf("%T %x %s", v, simrt.HashString(fmt.Sprint(v)), errText(err)))
			}
		})
		return strings.Join(res, "; ") + "; " + e.c11encode(d, st, p, fails)
	}}
}

// buildStep is one modeler call; what it writes may be shared by the tasks.
type buildStep struct {
	what string
	run  func(d *gltf.Document) string
}

// pooled is data that several scripts hand to the modeler.
type pooled struct {
	v any
	c gltf.ComponentType
	t gltf.AccessorType
}

func (e *Env) buildPool() []pooled {
	g := e.G
	n := 1 + g.Size(30)
	pool := []pooled{{e.points(n), gltf.ComponentFloat, gltf.AccessorVec3}}
	for i, k := 0, 3+g.N(6); i < k; i++ {
		c, t := compTypes[g.N(len(compTypes))], accTypes[g.N(len(accTypes))]
		m := n
		if g.N(4) == 0 {
			m = 1 + g.Size(40)
		}
		pool = append(pool, pooled{e.slice(c, t, m), c, t})
	}
	return pool
}

func (e *Env) buildStep(pool []pooled) buildStep {
	g := e.G
	pick := func(cs ct, ts at) any { // something of a fitting type
		for k, n := 0, g.N(len(pool)); k < len(pool); k++ {
			if p := pool[(n+k)%len(pool)]; has(cs, p.c) && has(ts, p.t) && !isColor(p.v) {
				return p.v
			}
		}
		return e.plain(cs[g.N(len(cs))], ts[g.N(len(ts))], 1+g.N(8))
	}
	norm := ct{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat}
	flt := ct{gltf.ComponentFloat}
	one := func(what string, v any, f func(d *gltf.Document) int) buildStep {
		return buildStep{what, func(d *gltf.Document) string { return fmt.Sprintf("%T %d", v, f(d)) }}
	}
	switch g.N(13) {
	case 0:
		v := pick(ct{gltf.ComponentUshort, gltf.ComponentUint}, at{gltf.AccessorScalar})
		return one("WriteIndices", v, func(d *gltf.Document) int { return modeler.WriteIndices(d, v) })
	case 1:
		v := pick(flt, at{gltf.AccessorVec3}).([][3]float32)
		return one("WriteNormal", v, func(d *gltf.Document) int { return modeler.WriteNormal(d, v) })
	case 2:
		v := pick(flt, at{gltf.AccessorVec4}).([][4]float32)
		return one("WriteTangent", v, func(d *gltf.Document) int { return modeler.WriteTangent(d, v) })
	case 3:
		v := pick(norm, at{gltf.AccessorVec2})
		return one("WriteTextureCoord", v, func(d *gltf.Document) int { return modeler.WriteTextureCoord(d, v) })
	case 4:
		v := pick(norm, at{gltf.AccessorVec4})
		return one("WriteWeights", v, func(d *gltf.Document) int { return modeler.WriteWeights(d, v) })
	case 5:
		v := pick(ct{gltf.ComponentUbyte, gltf.ComponentUshort}, at{gltf.AccessorVec4})
		return one("WriteJoints", v, func(d *gltf.Document) int { return modeler.WriteJoints(d, v) })
	case 6:
		v := pool[0].v.([][3]float32)
		return one("WritePosition", v, func(d *gltf.Document) int { return modeler.WritePosition(d, v) })
	case 7:
		v := pick(norm, at{gltf.AccessorVec3, gltf.AccessorVec4})
		for _, p := range pool {
			if isColor(p.v) {
				v = p.v
			}
		}
		return one("WriteColor", v, func(d *gltf.Document) int { return modeler.WriteColor(d, v) })
	case 8, 9:
		var data []any
		for i, n := 0, 1+g.N(4); i < n; i++ {
			data = append(data, pool[g.N(len(pool))].v)
		}
		if g.N(3) > 0 { // of one length
			k := 0
			for _, x := range data {
				if reflect.ValueOf(x).Len() == reflect.ValueOf(data[0]).Len() {
					data[k] = x
					k++
				}
			}
			data = data[:k]
		}
		return buildStep{"WriteAccessorsInterleaved", func(d *gltf.Document) string {
			ix, err := modeler.WriteAccessorsInterleaved(d, data...)
			return fmt.Sprint(ix, errText(err))
		}}
	case 10:
		attrs := []modeler.PrimitiveAttribute{{Name: gltf.POSITION, Data: pool[0].v}}
		n := len(pool[0].v.([][3]float32))
		for i, p := range pool[1:] {
			if !isColor(p.v) && reflect.ValueOf(p.v).Len() == n {
				attrs = append(attrs, modeler.PrimitiveAttribute{Name: fmt.Sprint("_X", i), Data: p.v})
			}
		}
		return buildStep{"WritePrimitiveAttributes", func(d *gltf.Document) string {
			m, err := modeler.WritePrimitiveAttributes(d, attrs...)
			return fmt.Sprint(m, errText(err))
		}}
	case 11:
		img := make([]byte, 1+g.Size(200))
		g.Bytes(img)
		failAt := -1
		if g.N(4) == 0 {
			failAt = g.N(len(img))
		}
		return buildStep{"WriteImage", func(d *gltf.Document) string {
			r := e.NewReader(img, CoarsePlan(e.F))
			r.FailAt, r.FailErr = failAt, syscall.EIO
			ix, err := modeler.WriteImage(d, "i", "image/png", r)
			return fmt.Sprint(ix, errText(err))
		}}
	}
	p := pool[g.N(len(pool))]
	return one("WriteAccessor", p.v, func(d *gltf.Document) int { return modeler.WriteAccessor(d, gltf.TargetNone, p.v) })
}

// fails tells at which byte a destination starts to fail; -1 never.
func (e *Env) drawFails() int {
	if e.G.Chance(1, 6) {
		return e.G.Size(3000)
	}
	return -1
}

// P is the stream for incidental data.
func (e *Env) P() *simrt.Stream { return e.S.P }

func (e *Env) c11encode(d *gltf.Document, st Setting, p *place, fails int) string {
	w := e.NewWriter()
	w.FailAt, w.FailErr = fails, syscall.ENOSPC
	fsys := p.fs
	if fsys == nil {
		fsys = e.NewFS(p.dir)
	}
	err := e.Encode(d, st, w, fsys)
	out := fmt.Sprintf("%s %d %x", errText(err), len(w.Buf), simrt.HashBytes(w.Buf))
	for _, f := range e.Disk.Files() {
		if strings.HasPrefix(f, p.dir+"/") && strings.Contains(f, "/"+p.id) {
			c, _ := e.Disk.Get(f)
			out += fmt.Sprintf(" %s %d %x", f, len(c), simrt.HashBytes(c))
		}
	}
	return out
}
