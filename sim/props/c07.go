package props

import (
	"fmt"

	"simv/simos"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID: "C07", Runs: 100000, Body: c07,
		Rule: "Each run performs one to four saves, encodes, opens and decodes (of valid, damaged or cut assets) with up to two failing calls each, drawn from all file operations including close, and failing streams. The simulated disk keeps every handle ever opened; after each operation each must have been closed exactly once and not used afterwards, and the caller's reader or writer never closed. A run is non-trivial when a file was opened and a fault was delivered.",
	})
}

func c07(e *Env) {
	for i, n := 0, 1+e.G.N(4); i < n; i++ {
		if e.G.N(2) == 0 {
			c07write(e)
		} else {
			c07read(e)
		}
	}
}

// anyFaults installs up to two failing calls.
func (e *Env) anyFaults(span int) *int {
	fired := new(int)
	at := map[int]bool{}
	for i, n := 0, e.F.N(3); i < n; i++ {
		at[e.F.N(span)] = true
	}
	onKind := ""
	if e.F.Chance(1, 4) { // every call of one kind
		onKind = []string{"close", "write", "create", "read", "stat", "open", "read"}[e.F.N(7)]
	}
	skip := e.F.N(3)
	var same error // nil: every failure has an error of its own
	if e.F.N(2) == 0 {
		same = DrawErr(e.F)
	}
	base := e.Disk.Ops
	e.Disk.Hook = func(op simos.Op) simos.Action {
		hit := at[op.Seq-base]
		if op.Kind == onKind {
			if skip == 0 {
				hit = true
			} else {
				skip--
			}
		}
		if !hit {
			return simos.Action{}
		}
		*fired++
		a := simos.Action{Err: same}
		if same == nil {
			a.Err = DrawErr(e.F)
		}
		if op.Kind == "write" || op.Kind == "read" {
			a.Partial = e.F.N(40)
		}
		e.S.Fault("file "+op.Kind+" error", op.Path, a.Partial, a.Err.Error())
		return a
	}
	return fired
}

func (e *Env) leakCheck(what string, err error, fired int) {
	for _, l := range e.Disk.Leaks() {
		e.S.Fail("handle", "after %s (%s) a file is %s", what, errText(err), l)
	}
	if len(e.Disk.Handles) > 0 && fired > 0 {
		e.Nontrivial()
	}
	e.S.Probe(fmt.Sprintf("files opened: %d", min(5, len(e.Disk.Handles))))
}

func c07write(e *Env) {
	j := e.DrawJob()
	e.Newdisk()
	w := e.NewWriter()
	if e.F.Chance(1, 3) {
		w.FailOp, w.Partial, w.FailErr, w.Once = e.F.N(8), e.F.N(64), DrawErr(e.F), e.F.N(2) == 1
	}
	if e.G.Chance(1, 6) { // a document that may be impossible to encode
		e.odd(j.Doc, 6)
		if e.G.N(2) == 0 {
			j.Doc.Nodes = append(j.Doc.Nodes, &gltf.Node{Extras: refusing{"no"}})
			e.S.Fault("payload refuses to be encoded")
		}
	}
	e.Dirs(j.Dir)
	fired := e.anyFaults(4 + 3*len(j.Doc.Buffers))
	if e.F.Chance(1, 8) && j.How == "save" { // a directory is in the way
		e.Disk.MkdirAll(j.name())
		*fired++
	}
	var err error
	if j.How != "save" && e.G.N(3) == 2 {
		var fsys gltf.CreateFS
		if j.How == "encode" {
			fsys = e.NewFS(j.Dir)
		}
		err = e.Encode(j.Doc, j.Set, fancyWriter{w}, fsys)
	} else {
		_, err = j.Run(w)
	}
	e.Disk.Hook = nil
	if w.Hit {
		*fired++
	}
	e.S.Event("wrote", j.String(), errText(err))
	if w.Closed > 0 {
		e.S.Fail("stream-closed", "%v closed the caller's writer", j)
	}
	e.leakCheck(j.String(), err, *fired)
}

func c07read(e *Env) {
	e.DrawSpot()
	src := e.AnyAsset()
	a := src.Asset
	bad := 0
	switch e.G.N(4) {
	case 2:
		a, bad = &Asset{Main: Mutate(e.G, a.Main), Files: a.Files}, 1
	case 3:
		a, bad = &Asset{Main: a.Main[:e.G.N(len(a.Main)+1)], Files: a.Files}, 1
	}
	e.Newdisk()
	e.Store(a, e.At)
	r := e.NewReader(a.Main, DrawPlan(e.F))
	if e.F.Chance(1, 4) {
		r.FailAt, r.FailErr = e.F.N(len(a.Main)+1), DrawErr(e.F)
	}
	for _, f := range sortedKeys(a.Files) {
		if e.F.Chance(1, 8) {
			e.Disk.Del(e.At + "/" + f)
			bad++
			if e.F.N(2) == 1 {
				e.Disk.MkdirAll(e.At + "/" + f)
			}
		} else if e.F.Chance(1, 6) { // shorter, even empty, or longer
			b := []byte(a.Files[f])
			switch e.F.N(3) {
			case 0:
				b = nil
			case 1:
				b = b[:e.F.N(len(b)+1)]
			default:
				b = append(b, make([]byte, 1+e.F.N(9))...)
			}
			e.S.Fault("buffer file of another length", len(b))
			e.Disk.Put(e.At+"/"+f, b)
		}
	}
	e.Disk.Put(e.At+"/"+e.Base, a.Main)
	fired := e.anyFaults(6 + 4*len(a.Files))
	var err error
	how := ""
	switch e.G.N(4) {
	case 0:
		how = "Decode without FS"
		_, err = e.Decode(r, nil)
	case 1:
		how = "Decode"
		_, err = e.Decode(r, e.NewFS(e.At))
	case 2:
		how = "Decode with ReadFileFS"
		_, err = e.Decode(r, e.dressFS(e.NewFS(e.At)))
	default:
		how = "Open"
		e.DoBounded("Open", opLimit, func() { _, err = gltf.Open(e.Spelled) })
	}
	e.Disk.Hook = nil
	if r.Hit {
		*fired++
	}
	e.S.Event("read", how, errText(err))
	if r.Closed > 0 {
		e.S.Fail("stream-closed", "%s closed the caller's reader", how)
	}
	e.leakCheck(how+" of "+src.Desc, err, *fired+bad)
}
