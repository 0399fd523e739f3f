package props

import (
	"fmt"
	"io/fs"
	"math"
	"reflect"
	"strings"

	"simv/ref"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
)

func init() {
	register(&Prop{
		ID: "C16", Runs: 50000, Body: c16,
		Rule: "Each run generates the content of an asset and has an independent writer put it down in a drawn style (member order, white space, explicit defaults, unknown members, escapes, spellings of numbers, chunk padding, further chunks, trailing bytes, percent-encoding, media types, longer buffer files); one to three decodes with drawn deliveries, through streams, file systems and files, must give that content, with the specification's default wherever the asset has none. A run is non-trivial when the asset has content beyond its version.",
	})
}

func c16(e *Env) {
	e.DrawSpot()
	binary := e.G.N(2) == 0
	d := e.ForeignDoc(binary, e.G.N(2) == 1)
	files := map[int]string{} // names which are their own URI
	for i, b := range d.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") && !strings.ContainsAny(b.URI, "%\\:?#") {
			files[i] = b.URI
		}
	}
	st := ref.DrawStyle(e.G)
	a := e.Foreign(d, binary, st)
	want := Content(d)
	if len(d.Buffers)+len(d.Accessors)+len(d.Nodes)+len(d.Materials)+len(d.Meshes)+len(d.Animations)+len(d.Cameras)+len(d.Scenes)+len(d.Samplers)+len(d.Skins)+len(d.Textures)+len(d.Images)+len(d.Extensions) > 0 {
		e.Nontrivial()
	}
	desc := fmt.Sprintf("binary=%v %v", binary, st)
	e.S.Event("asset", desc, a.Main, len(a.Files))
	for i, n := 0, 1+e.G.N(3); i < n; i++ {
		got, err, how := e.deliver(a)
		e.S.Event("decoded", how, errText(err))
		if err != nil {
			e.S.Fail("conforming-asset-rejected", "%s of an asset written by another program (%s) failed: %v", how, desc, err)
		}
		if c := Content(got); c != want {
			e.S.Fail("wrong-content", "%s of an asset written by another program (%s): %s", how, desc, diff(c, want))
		}
		for k, b := range got.Buffers {
			if f := files[k]; f != "" && b.URI != f {
				e.S.Fail("wrong-uri", "%s of an asset written by another program (%s): the URI of buffer %d in file %q is given as %q", how, desc, k, f, b.URI)
			}
			if len(b.Data) > 0 && len(b.Data) != b.ByteLength {
				e.S.Fail("wrong-buffer", "%s of an asset written by another program (%s): buffer %d has byteLength %d and %d bytes of data", how, desc, k, b.ByteLength, len(b.Data))
			}
		}
		if m := defaults(got); m != "" {
			e.S.Fail("default-missing", "%s of an asset written by another program (%s): %s", how, desc, m)
		}
		spoil(got) // it is the caller's
	}
}

// deliver decodes an asset on a new disk with drawn deliveries and no faults
// that would lose anything.
func (e *Env) deliver(a *Asset) (d *gltf.Document, err error, how string) {
	e.Newdisk()
	e.Store(a, e.At)
	sizes := 0
	if e.F.Chance(1, 6) {
		sizes = 1 + e.F.N(4)
	}
	e.Disk.Hook = e.deliverHook(map[string]*Plan{}, sizes)
	p := DrawPlan(e.F)
	if e.F.N(3) == 0 {
		p = nil
	}
	switch e.G.N(4) {
	case 0:
		how = "Open"
		e.Disk.Put(e.At+"/"+e.Base, a.Main)
		e.DoBounded("Open", opLimit, func() { d, err = gltf.Open(e.Spelled) })
	case 1:
		how = "Decode with ReadFileFS"
		d, err = e.Decode(e.NewReader(a.Main, p), e.dressFS(e.NewFS(e.At)))
	default:
		how = "Decode"
		var fsys fs.FS
		if len(a.Files) > 0 || e.G.N(2) == 0 {
			fsys = e.NewFS(e.At)
		}
		d, err = e.Decode(e.NewReader(a.Main, p), fsys)
	}
	e.Disk.Hook = nil
	return d, err, how
}

// defaults checks that a decoded document has the values the specification
// gives to omitted properties. (Content takes a value left unset for its
// default; here it has to be there.)
func defaults(d *gltf.Document) string {
	if d.Asset.Version == "" {
		return "asset.version is not set"
	}
	for i, n := range d.Nodes {
		switch {
		case n.Matrix == [16]float64{}:
			return fmt.Sprintf("matrix of node %d is all zeroes", i)
		case n.Rotation == [4]float64{}:
			return fmt.Sprintf("rotation of node %d is all zeroes", i)
		case n.Scale == [3]float64{}:
			return fmt.Sprintf("scale of node %d is all zeroes", i)
		case n.MatrixOrDefault() != n.Matrix || n.RotationOrDefault() != n.Rotation || n.ScaleOrDefault() != n.Scale || n.TranslationOrDefault() != n.Translation:
			return fmt.Sprintf("the transformation helpers of node %d give other values than it has", i)
		}
	}
	for i, m := range d.Materials {
		if m.AlphaCutoff == nil {
			return fmt.Sprintf("alphaCutoff of material %d is not set", i)
		}
		if m.AlphaCutoffOrDefault() != *m.AlphaCutoff {
			return fmt.Sprintf("alphaCutoff of material %d is %v but AlphaCutoffOrDefault says %v", i, *m.AlphaCutoff, m.AlphaCutoffOrDefault())
		}
		if t := m.NormalTexture; t != nil && (t.Scale == nil || t.ScaleOrDefault() != *t.Scale) {
			return fmt.Sprintf("scale of the normal texture of material %d", i)
		}
		if t := m.OcclusionTexture; t != nil && (t.Strength == nil || t.StrengthOrDefault() != *t.Strength) {
			return fmt.Sprintf("strength of the occlusion texture of material %d", i)
		}
		if p := m.PBRMetallicRoughness; p != nil {
			if p.BaseColorFactor == nil || p.MetallicFactor == nil || p.RoughnessFactor == nil {
				return fmt.Sprintf("a factor of material %d is not set", i)
			}
			if p.BaseColorFactorOrDefault() != *p.BaseColorFactor || p.MetallicFactorOrDefault() != *p.MetallicFactor || p.RoughnessFactorOrDefault() != *p.RoughnessFactor {
				return fmt.Sprintf("the factor helpers of material %d give other values than it has", i)
			}
		}
	}
	msg := ""
	eachExt(d, func(x gltf.Extensions) {
		for _, k := range sortedKeys(x) {
			if m := extDefaults(x[k]); m != "" && msg == "" {
				msg = k + ": " + m
			}
		}
	})
	return msg
}

func extDefaults(v any) string {
	switch v := v.(type) {
	case lightspunctual.Lights:
		for i, l := range v {
			if l == nil {
				continue
			}
			if l.Color == nil || l.Intensity == nil || l.Range == nil {
				return fmt.Sprintf("light %d lacks a default", i)
			}
			if l.ColorOrDefault() != *l.Color || l.IntensityOrDefault() != *l.Intensity || math.IsNaN(*l.Range) {
				return fmt.Sprintf("the helpers of light %d give other values than it has", i)
			}
			if s := l.Spot; s != nil && (s.OuterConeAngle == nil || s.OuterConeAngleOrDefault() != *s.OuterConeAngle) {
				return fmt.Sprintf("the spot of light %d lacks a default", i)
			}
		}
	case *specular.PBRSpecularGlossiness:
		if v.DiffuseFactor == nil || v.SpecularFactor == nil || v.GlossinessFactor == nil {
			return "a factor is not set"
		}
	case *texturetransform.TextureTranform:
		if v.Scale == [2]float64{} || v.ScaleOrDefault() != v.Scale {
			return "scale is not set"
		}
	}
	return ""
}

var extType = reflect.TypeOf(gltf.Extensions{})

// eachExt calls f for every Extensions value reachable from v.
func eachExt(v any, f func(gltf.Extensions)) { walkExt(reflect.ValueOf(v), f, 0) }

func walkExt(v reflect.Value, f func(gltf.Extensions), depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			walkExt(v.Elem(), f, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				walkExt(v.Field(i), f, depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Struct, reflect.Ptr, reflect.Map, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walkExt(v.Index(i), f, depth+1)
			}
		}
	case reflect.Map:
		if v.Type() != extType {
			return
		}
		x := v.Interface().(gltf.Extensions)
		f(x)
		for _, k := range sortedKeys(x) {
			walkExt(reflect.ValueOf(x[k]), f, depth+1)
		}
	}
}
