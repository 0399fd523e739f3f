package props

import (
	"fmt"
	"io/fs"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID: "C01", Runs: 60000, Body: c01,
		Rule: "Each run generates an asset (library-written, foreign-written, damaged or cut), decodes it once in one piece and several times in other pieces drawn from the fault stream, through plain streams, caller file systems or files; a run is non-trivial when at least one delivery was different from one piece.",
	})
}

// outcome of a decode: the content or that it failed.
func outcome(d *gltf.Document, err error) string {
	if err != nil {
		return "error"
	}
	return Content(d)
}

func c01(e *Env) {
	e.DrawSpot()
	src := e.AnyAsset()
	a := src.Asset
	kind := "valid"
	switch e.G.N(5) {
	case 3:
		kind = "damaged"
		a = &Asset{Main: Mutate(e.G, a.Main), Files: a.Files}
	case 4:
		kind = "cut"
		a = &Asset{Main: a.Main[:e.G.N(len(a.Main)+1)], Files: a.Files}
	}
	if e.G.Chance(1, 6) { // short or missing buffer files
		fs := map[string]string{}
		for k, v := range a.Files {
			fs[k] = v
		}
		for _, k := range sortedKeys(a.Files) {
			switch e.G.N(3) {
			case 1:
				fs[k] = fs[k][:e.G.N(len(fs[k])+1)]
			case 2:
				delete(fs, k)
			}
		}
		a = &Asset{Main: a.Main, Files: fs}
		kind += ", files changed"
	}
	e.S.Event("asset", src.Desc, kind, a.Main, len(a.Files))

	for _, f := range []bool{true, false} { // with and without a file system
		if !f && e.G.N(3) > 0 {
			continue
		}
		e.Newdisk()
		e.Store(a, e.At)
		var fsys fs.FS
		if f {
			fsys = e.NewFS(e.At)
		}
		d0, err0 := e.Decode(e.NewReader(a.Main, nil), fsys)
		want := outcome(d0, err0)
		e.S.Event("reference", errText(err0))
		for i, n := 0, 1+e.G.N(3); i < n; i++ {
			e.Newdisk()
			e.Store(a, e.At)
			sizes := 0
			if e.F.Chance(1, 4) {
				sizes = 1 + e.F.N(4)
			}
			e.Disk.Hook = e.deliverHook(map[string]*Plan{}, sizes)
			p := DrawPlan(e.F)
			if err0 == nil && e.G.N(8) == 0 { // into the document it was decoded into before
				again, err := e.Decode(e.NewReader(a.Main, nil), fsys)
				if err == nil {
					for _, b := range again.Buffers {
						spoil(b.Data)
					}
					e.into = again
				}
			}
			var d *gltf.Document
			var err error
			how := ""
			switch {
			case f && e.G.N(3) == 2: // through Open
				how = "Open"
				e.Disk.Put(e.At+"/"+e.Base, a.Main)
				e.DoBounded("Open", opLimit, func() { d, err = gltf.Open(e.Spelled) })
				if err == nil && d == nil {
					e.S.Fail("nil-document", "Open returned neither a document nor an error")
				}
			case f:
				x := e.NewFS(e.At)
				r := e.NewReader(a.Main, p)
				if e.F.N(2) == 0 {
					how = "FS"
					d, err = e.Decode(r, x)
				} else {
					how = "ReadFileFS"
					d, err = e.Decode(r, e.dressFS(x))
				}
			default:
				how = "no FS"
				d, err = e.Decode(e.NewReader(a.Main, p), nil)
			}
			e.Nontrivial()
			got := outcome(d, err)
			e.S.Event("delivered", how, p.String(), errText(err))
			if got != want {
				e.S.Fail("delivery-changes-result", "%s asset (%s): in one piece: %s; delivered by %s with %s: %s", kind, src.Desc, brief(d0, err0), how, p, cmp(got, want, d, err))
			}
			spoil(d) // it is the caller's
			e.into = nil
		}
	}
}

func brief(d *gltf.Document, err error) string {
	if err != nil {
		return errText(err)
	}
	return fmt.Sprintf("a document with %d buffers", len(d.Buffers))
}

func cmp(got, want string, d *gltf.Document, err error) string {
	if err != nil {
		return errText(err)
	}
	return "another document: " + diff(got, want)
}
