package props

import (
	"errors"
	"fmt"
	"io"
	"io/fs"

	"simv/simos"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Prop{
		ID: "C19", Runs: 100000, Body: c19,
		Rule: "Each run performs one to four saves, encodes, opens, decodes and image writes of things that are in order, with failing streams, failing file calls (also on close, and from several at once), missing files and directories, and payloads that refuse to be encoded. Every error that was delivered is recorded; an operation that then fails must return one of them, or an error that wraps one. A run is non-trivial when an operation failed.",
	})
}

// causes records the errors that were delivered.
type causes struct {
	e    *Env
	list []error
}

// draw chooses an error, which often is like no other.
func (c *causes) draw() error {
	if c.e.F.N(2) == 0 {
		return &customErr{fmt.Sprintf("cause %d", c.e.F.N(1000))}
	}
	return DrawErr(c.e.F)
}

// arm makes file calls fail.
func (c *causes) arm(span int) {
	f := c.e.F
	at := map[int]bool{}
	for i, n := 0, f.N(3); i < n; i++ {
		at[f.N(span)] = true
	}
	onKind := ""
	if f.Chance(1, 3) {
		onKind = []string{"close", "write", "create", "read", "stat", "open"}[f.N(6)]
	}
	skip := f.N(3)
	base := c.e.Disk.Ops
	c.e.Disk.Hook = func(op simos.Op) simos.Action {
		hit := at[op.Seq-base]
		if op.Kind == onKind {
			if skip == 0 {
				hit = true
			} else {
				skip--
			}
		}
		if !hit {
			return simos.Action{}
		}
		a := simos.Action{Err: c.draw()}
		c.list = append(c.list, a.Err)
		if op.Kind == "write" || op.Kind == "read" {
			a.Partial = f.N(40)
		}
		c.e.S.Fault("file "+op.Kind+" error", op.Path, a.Partial, a.Err.Error())
		return a
	}
}

func (c *causes) judge(what string, err error) {
	e := c.e
	e.Disk.Hook = nil
	e.S.Event("done", what, errText(err))
	if err == nil {
		return
	}
	e.Nontrivial()
	var names []string
	for _, x := range c.list {
		if errors.Is(err, x) {
			return
		}
		names = append(names, x.Error())
	}
	if len(c.list) == 0 {
		e.S.Fail("no-cause", "%s failed though nothing it used did: %v", what, err)
	}
	e.S.Fail("cause-lost", "%s failed because of %q, but the error does not tell: %v", what, names, err)
}

// reluctant refuses to be encoded.
type reluctant struct{ err error }

func (r reluctant) MarshalJSON() ([]byte, error) { return nil, r.err }

func c19(e *Env) {
	for i, n := 0, 1+e.G.N(4); i < n; i++ {
		switch e.G.N(7) {
		case 0, 1, 2:
			c19write(e)
		case 3, 4, 5:
			c19read(e)
		case 6:
			c19image(e)
		}
	}
}

func c19write(e *Env) {
	j := e.DrawJob()
	c := &causes{e: e}
	e.Newdisk()
	if _, err := e.EncodeClean(j.Doc, j.Set); err != nil {
		e.S.Probe("cannot be encoded")
		return
	}
	w := e.NewWriter()
	fails := e.F.Chance(1, 2)
	if fails {
		w.FailOp, w.Partial, w.FailErr, w.Once = e.F.N(9), e.F.N(64), c.draw(), e.F.N(2) == 1
	}
	if e.F.Chance(1, 5) {
		r := reluctant{c.draw()}
		c.list = append(c.list, r.err)
		e.S.Fault("payload refuses to be encoded", r.err.Error())
		switch e.F.N(4) {
		case 0:
			j.Doc.Extras = r
		case 1:
			j.Doc.Nodes = append(j.Doc.Nodes, &gltf.Node{Extensions: gltf.Extensions{"X": r}})
		case 2:
			j.Doc.Materials = append(j.Doc.Materials, &gltf.Material{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorTexture: &gltf.TextureInfo{Extras: r}}})
		case 3:
			j.Doc.Buffers = append(j.Doc.Buffers, &gltf.Buffer{ByteLength: 1, Data: []byte{1}, Extras: r})
		}
	}
	if j.How == "save" && e.F.Chance(1, 8) {
		e.S.Fault("no such directory")
		var err error
		name := j.Dir + "/not there/" + j.Base
		e.DoBounded("Save", opLimit, func() { err = gltf.Save(j.Doc, name) })
		c.list = append(c.list, fs.ErrNotExist)
		c.judge("save to a missing directory", err)
		return
	}
	c.arm(4 + 3*len(j.Doc.Buffers))
	_, err := j.Run(w)
	if w.Hit {
		c.list = append(c.list, w.FailErr)
	}
	c.judge(j.String(), err)
}

func c19read(e *Env) {
	e.DrawSpot()
	src := e.AnyAsset()
	if _, err := e.DecodeClean(src.Asset); err != nil {
		e.S.Probe("asset rejected")
		return
	}
	a := src.Asset
	c := &causes{e: e}
	e.Newdisk()
	e.Store(a, e.At)
	e.Disk.Put(e.At+"/"+e.Base, a.Main)
	r := e.NewReader(a.Main, DrawPlan(e.F))
	how := e.G.N(3)
	if how != 2 && e.F.N(2) == 0 {
		r.FailAt, r.FailErr, r.Fails = e.F.N(len(a.Main)+1), c.draw(), e.F.N(3)
		if e.F.N(3) == 0 {
			r.FailAt = e.F.N(min(24, len(a.Main)) + 1)
		}
	}
	for _, f := range sortedKeys(a.Files) {
		if e.F.Chance(1, 8) {
			e.S.Fault("buffer file missing")
			e.Disk.Del(e.At + "/" + f)
			c.list = append(c.list, fs.ErrNotExist)
		}
	}
	if how == 2 && e.F.Chance(1, 12) {
		e.S.Fault("file missing")
		e.Disk.Del(e.At + "/" + e.Base)
		c.list = append(c.list, fs.ErrNotExist)
	}
	c.arm(6 + 4*len(a.Files))
	var err error
	what := ""
	switch how {
	case 0:
		what = "Decode"
		_, err = e.Decode(r, e.NewFS(e.At))
	case 1:
		what = "Decode with ReadFileFS"
		_, err = e.Decode(r, e.dressFS(e.NewFS(e.At)))
	default:
		what = "Open"
		e.DoBounded("Open", opLimit, func() { _, err = gltf.Open(e.Spelled) })
	}
	if r.Hit {
		c.list = append(c.list, r.FailErr)
	}
	c.judge(what+" of "+src.Desc, err)
}

func c19image(e *Env) {
	data := make([]byte, 1+e.G.Size(700))
	e.G.Bytes(data)
	e.Newdisk()
	c := &causes{e: e}
	r := e.NewReader(data, DrawPlan(e.F))
	r.FailAt, r.FailErr = e.F.N(len(data)+1), c.draw()
	var err error
	e.DoBounded("WriteImage", opLimit, func() { _, err = modeler.WriteImage(gltf.NewDocument(), "x", "image/png", io.Reader(r)) })
	if r.Hit {
		c.list = append(c.list, r.FailErr)
	}
	c.judge("WriteImage", err)
}
