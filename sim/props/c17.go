package props

import (
	"fmt"
	"strings"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID: "C17", Runs: 80000, Body: c17,
		Rule: "Each run encodes one document with one setting and then again 2 to 8 times in other circumstances: by a fresh encoder or one that has encoded this or other documents or has failed, by Save, after decodes, accessor writes and failed encodes elsewhere, by several tasks at once whose interleaving is drawn, after the clock has moved, with other map iteration orders and pool contents, and as an equal document decoded separately, copied deeply or edited in place; some documents hold values no valid asset has. Main stream and buffer files are compared byte by byte. A run is non-trivial when the document has extensions, attributes, buffers or other parts whose order or state could show.",
	})
}

// encoded is a complete output.
func (e *Env) encoded(d *gltf.Document, st Setting) string {
	a, err := e.EncodeClean(d, st)
	if err != nil {
		return "error"
	}
	return a.Text()
}

func c17(e *Env) {
	g := e.G
	gen := e.NewGen()
	gen.ExternalDirs = []string{"", "", "sub"}
	if g.Chance(1, 12) {
		gen.MaxData = max(gen.MaxData, 70000)
	}
	d := gen.Doc()
	gen.Buffers(d)
	if len(d.Buffers)+len(d.Meshes)+len(d.Materials)+len(d.Nodes)+len(d.Extensions) > 0 {
		e.Nontrivial()
	}
	if g.Chance(1, 6) {
		e.odd(d, 4)
		e.S.Probe("odd values")
	}
	st := DrawSetting(g)
	want := e.encoded(d, st)
	e.S.Event("first", st.String(), want)
	// An encoder that lives through the whole run.
	long := e.NewWriter()
	disk := e.Newdisk()
	fsys := e.NewFS("/sim/long")
	var enc *gltf.Encoder
	other := func() *gltf.Document {
		x := e.NewGen()
		o := x.Doc()
		x.Buffers(o)
		return o
	}
	for i, n := 0, 2+g.N(7); i < n; i++ {
		what, got := "", want
		switch g.N(12) {
		case 9: // the document changes
			k := e.tweak(d)
			want = e.encoded(d, st)
			e.S.Event("tweak", k, want)
			what, got = "a copy of the document, of which the "+k+" was changed,", e.encoded(clone(d), st)
		case 10:
			what, got = "a copy of the document", e.encoded(clone(d), st)
		case 11: // other settings for a while, or from now on
			if enc == nil {
				continue
			}
			x := DrawSetting(g)
			enc.AsBinary = x.Binary
			enc.SetJSONIndent(x.Prefix, x.Indent)
			if g.N(2) == 0 {
				st = x
				want = e.encoded(d, st)
				continue
			}
			if g.N(2) == 0 {
				enc.Fsys = nil
			}
			e.UseDisk(disk)
			e.DoBounded("Encode", opLimit, func() { enc.Encode(d) })
			enc.AsBinary, enc.Fsys = st.Binary, fsys
			enc.SetJSONIndent(st.Prefix, st.Indent)
		case 0:
			what, got = "fresh encoder", e.encoded(d, st)
		case 1, 2: // reused encoder
			what = fmt.Sprintf("encode %d of one encoder", i)
			e.UseDisk(disk)
			for _, f := range disk.Files() {
				disk.Del(f)
			}
			if enc == nil {
				enc = st.NewEncoder(e.dressSink(long), fsys)
			}
			from := len(long.Buf)
			var err error
			e.DoBounded("Encode", opLimit, func() { err = enc.Encode(d) })
			a := &Asset{Main: long.Buf[from:], Files: map[string]string{}}
			for p, c := range disk.Snapshot() {
				a.Files[strings.TrimPrefix(p, "/sim/long/")] = c
			}
			got = a.Text()
			if err != nil {
				got = "error"
			}
		case 3: // the same encoder, another document, or a failure
			if enc == nil {
				enc = st.NewEncoder(e.dressSink(long), fsys)
			}
			e.UseDisk(disk)
			o := other()
			if g.N(2) == 0 {
				o = d
			}
			if e.F.N(2) == 0 {
				long.Hit, long.Once = false, true
				long.FailOp, long.FailErr, long.Partial = long.Calls+e.F.N(6), DrawErr(e.F), e.F.N(50)
			}
			e.DoBounded("Encode", opLimit, func() { enc.Encode(o) })
			long.FailOp = -1
			e.Disk.Hook = nil
		case 4: // other documents and failures elsewhere
			e.Newdisk()
			w := e.NewWriter()
			if e.F.N(2) == 0 {
				w.FailOp, w.FailErr, w.Partial = e.F.N(6), DrawErr(e.F), e.F.N(50)
			}
			e.anyFaults(6)
			o := other()
			if e.F.N(2) == 0 {
				o = d
			}
			e.Encode(o, DrawSetting(g), w, e.NewFS("/sim/x"))
			e.Disk.Hook = nil
		case 5: // an equal document
			a, err := e.EncodeClean(d, st)
			if err != nil {
				continue
			}
			d1, err1 := e.DecodeClean(a)
			d2, err2 := e.DecodeClean(a)
			if err1 != nil || err2 != nil {
				continue
			}
			what = "equal documents"
			w1, w2 := e.encoded(d1, st), e.encoded(d2, st)
			if w1 != w2 {
				e.S.Fail("differs", "two equal documents decoded from the same bytes are encoded differently: %s", firstDiff(w1, w2))
			}
			continue
		case 6: // to a file
			if st.Prefix != "" || st.Indent != "" {
				continue
			}
			what = "Save"
			e.Newdisk()
			j := &Job{e: e, Doc: d, Dir: "/sim/s", Base: "main.glb", Spelled: "s/main.glb"}
			j.Clutter()
			e.Disk.Del("/sim/s/main.glb")
			var old []string // left alone when the buffer has no data
			for _, b := range d.Buffers {
				if len(b.Data) == 0 && b.URI != "" {
					old = append(old, "/sim/s/"+normURI(b.URI))
				}
			}
			for _, f := range old {
				e.Disk.Del(f)
			}
			e.Dirs("/sim/s")
			if g.N(2) == 0 {
				e.Disk.Put("/sim/s/zz.main", make([]byte, g.N(3000)))
			}
			var err error
			e.DoBounded("Save", opLimit, func() {
				if st.Binary {
					err = gltf.SaveBinary(d, "/sim/s/zz.main")
				} else {
					err = gltf.Save(d, "/sim/s/zz.main")
				}
			})
			main, _ := e.Disk.Get("/sim/s/zz.main")
			a := &Asset{Main: main, Files: map[string]string{}}
			for p, c := range e.Disk.Snapshot() {
				if p != "/sim/s/zz.main" {
					a.Files[strings.TrimPrefix(p, "/sim/s/")] = c
				}
			}
			got = a.Text()
			if err != nil {
				got = "error"
			}
		case 7: // at the same time
			what = "several tasks"
			e.Newdisk()
			var names []string
			var tasks []func()
			k := 2 + g.N(2)
			outs := make([]*Writer, k)
			errs := make([]error, k)
			for t := 0; t < k; t++ {
				t := t
				outs[t] = e.NewWriter()
				x, xs := d, st
				if t > 0 && g.N(2) == 0 {
					x, xs = other(), DrawSetting(g)
					outs[t] = nil
				}
				names = append(names, fmt.Sprint("encode ", t))
				fs := e.NewFS(fmt.Sprint("/sim/t", t))
				tasks = append(tasks, func() {
					w := outs[t]
					if w == nil {
						w = e.NewWriter()
					}
					errs[t] = e.Encode(x, xs, w, fs)
				})
			}
			e.S.Concurrent(names, tasks...)
			for t := range outs {
				if outs[t] == nil {
					continue
				}
				a := &Asset{Main: outs[t].Buf, Files: map[string]string{}}
				pre := fmt.Sprintf("/sim/t%d/", t)
				for p, c := range e.Disk.Snapshot() {
					if strings.HasPrefix(p, pre) {
						a.Files[strings.TrimPrefix(p, pre)] = c
					}
				}
				got = a.Text()
				if errs[t] != nil {
					got = "error"
				}
				if got != want {
					break
				}
			}
		case 8: // time passes
			e.S.Fault("clock moves")
			e.S.Now += 12345678901234
			what, got = "later", e.encoded(d, st)
		}
		if what == "" {
			continue
		}
		e.S.Event("again", what, got == want)
		if got != want {
			e.S.Fail("differs", "%s (%v) gives other bytes than the first encode: %s", what, st, firstDiff(want, got))
		}
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(len(s), i-30)):min(len(s), i+40)] }
	return fmt.Sprintf("%d and %d bytes, at %d %q and %q", len(a), len(b), i, cut(a), cut(b))
}
