// Package ref is the independent reference side of the checks: it describes a
// document as specification JSON without using the library's own marshalling,
// renders and parses assets the way a foreign program would, and evaluates
// accessors from first principles.
package ref

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// Obj is a JSON object with ordered members.
type Obj struct{ KV []KV }

// KV is a member; Def marks one that holds the specification's default, which
// a writer may leave out.
type KV struct {
	K   string
	V   any
	Def bool
}

// Raw is a number kept as written.
type Raw string

// Fl is a number of a floating-point property.
type Fl float64

func (o *Obj) put(k string, v any)         { o.KV = append(o.KV, KV{k, v, false}) }
func (o *Obj) opt(k string, v any, d bool) { o.KV = append(o.KV, KV{k, v, d}) }
func (o *Obj) str(k, v string) {
	if v != "" {
		o.put(k, v)
	}
}
func (o *Obj) idx(k string, p *int) {
	if p != nil {
		o.put(k, float64(*p))
	}
}

// Get returns a member.
func (o *Obj) Get(k string) (any, bool) {
	for _, m := range o.KV {
		if m.K == k {
			return m.V, true
		}
	}
	return nil, false
}

var compCode = map[gltf.ComponentType]float64{gltf.ComponentByte: 5120, gltf.ComponentUbyte: 5121, gltf.ComponentShort: 5122,
	gltf.ComponentUshort: 5123, gltf.ComponentUint: 5125, gltf.ComponentFloat: 5126}
var accName = map[gltf.AccessorType]string{gltf.AccessorScalar: "SCALAR", gltf.AccessorVec2: "VEC2", gltf.AccessorVec3: "VEC3",
	gltf.AccessorVec4: "VEC4", gltf.AccessorMat2: "MAT2", gltf.AccessorMat3: "MAT3", gltf.AccessorMat4: "MAT4"}
var modeCode = map[gltf.PrimitiveMode]float64{gltf.PrimitivePoints: 0, gltf.PrimitiveLines: 1, gltf.PrimitiveLineLoop: 2,
	gltf.PrimitiveLineStrip: 3, gltf.PrimitiveTriangles: 4, gltf.PrimitiveTriangleStrip: 5, gltf.PrimitiveTriangleFan: 6}
var alphaName = map[gltf.AlphaMode]string{gltf.AlphaOpaque: "OPAQUE", gltf.AlphaMask: "MASK", gltf.AlphaBlend: "BLEND"}
var magCode = map[gltf.MagFilter]float64{gltf.MagNearest: 9728, gltf.MagLinear: 9729}
var minCode = map[gltf.MinFilter]float64{gltf.MinNearest: 9728, gltf.MinLinear: 9729, gltf.MinNearestMipMapNearest: 9984,
	gltf.MinLinearMipMapNearest: 9985, gltf.MinNearestMipMapLinear: 9986, gltf.MinLinearMipMapLinear: 9987}
var wrapCode = map[gltf.WrappingMode]float64{gltf.WrapRepeat: 10497, gltf.WrapClampToEdge: 33071, gltf.WrapMirroredRepeat: 33648}
var interpName = map[gltf.Interpolation]string{gltf.InterpolationLinear: "LINEAR", gltf.InterpolationStep: "STEP", gltf.InterpolationCubicSpline: "CUBICSPLINE"}
var pathName = map[gltf.TRSProperty]string{gltf.TRSTranslation: "translation", gltf.TRSRotation: "rotation", gltf.TRSScale: "scale", gltf.TRSWeights: "weights"}

func floats(v []float64) []any {
	out := make([]any, len(v))
	for i, x := range v {
		out[i] = Fl(x)
	}
	return out
}
func ints(v []int) []any {
	out := make([]any, len(v))
	for i, x := range v {
		out[i] = float64(x)
	}
	return out
}
func strs(v []string) []any {
	out := make([]any, len(v))
	for i, x := range v {
		out[i] = x
	}
	return out
}

func list[T any](o *Obj, k string, v []T, f func(T) any) {
	if len(v) == 0 {
		return
	}
	o.put(k, listv(v, f))
}
func listv[T any](v []T, f func(T) any) []any {
	out := make([]any, len(v))
	for i, x := range v {
		out[i] = f(x)
	}
	return out
}

func attrs(m map[string]int) *Obj {
	o := &Obj{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o.put(k, float64(m[k]))
	}
	return o
}

// Generic converts decoded or to-be-encoded JSON-like data to tree form.
func Generic(v any) any {
	switch v := v.(type) {
	case nil, bool, string, Raw, Fl:
		return v
	case float64:
		return Fl(v)
	case int:
		return float64(v)
	case json.Number:
		return Raw(v)
	case json.RawMessage:
		return ParseJSON(v)
	case *json.RawMessage:
		return ParseJSON(*v)
	case []byte:
		return ParseJSON(v)
	case []any:
		return listv(v, Generic)
	case map[string]any:
		o := &Obj{}
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			o.put(k, Generic(v[k]))
		}
		return o
	}
	return fmt.Sprintf("!!unexpected %T", v)
}

// ParseJSON parses JSON keeping number literals; it fails on duplicate names,
// invalid syntax and trailing data.
func ParseJSON(b []byte) any {
	v, err := ParseStrict(b)
	if err != nil {
		return "!!bad json: " + err.Error() + ": " + string(b)
	}
	return v
}

// ParseStrict is ParseJSON with an error result.
func ParseStrict(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := parseValue(d)
	if err != nil {
		return nil, err
	}
	rest := bytes.TrimLeft(b[d.InputOffset():], " \t\r\n")
	if len(rest) > 0 {
		return nil, fmt.Errorf("data after the value: %q", rest[:1])
	}
	return v, nil
}

func parseValue(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		switch t {
		case '{':
			o := &Obj{}
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				ks, ok := k.(string)
				if !ok {
					return nil, fmt.Errorf("member name is not a string")
				}
				if seen[ks] {
					return nil, fmt.Errorf("duplicate member %q", ks)
				}
				seen[ks] = true
				v, err := parseValue(d)
				if err != nil {
					return nil, err
				}
				o.put(ks, v)
			}
			_, err := d.Token()
			return o, err
		case '[':
			out := []any{}
			for d.More() {
				v, err := parseValue(d)
				if err != nil {
					return nil, err
				}
				out = append(out, v)
			}
			_, err := d.Token()
			return out, err
		}
		return nil, fmt.Errorf("unexpected %v", t)
	case json.Number:
		return Raw(t), nil
	default:
		return t, nil
	}
}

// Custom lets tests describe extension values of their own types.
var Custom func(v any) (any, bool)

// Ext describes one extension payload.
func Ext(v any) any {
	if Custom != nil {
		if t, ok := Custom(v); ok {
			return t
		}
	}
	switch v := v.(type) {
	case lightspunctual.LightIndex:
		o := &Obj{}
		o.put("light", float64(v))
		return o
	case *lightspunctual.LightIndex:
		return Ext(*v)
	case lightspunctual.Lights:
		o := &Obj{}
		list(o, "lights", v, light)
		return o
	case *lightspunctual.Lights:
		return Ext(*v)
	case *specular.PBRSpecularGlossiness:
		o := &Obj{}
		if v.DiffuseFactor != nil {
			o.opt("diffuseFactor", floats(v.DiffuseFactor[:]), *v.DiffuseFactor == [4]float64{1, 1, 1, 1})
		} else {
			o.opt("diffuseFactor", floats([]float64{1, 1, 1, 1}), true)
		}
		if v.DiffuseTexture != nil {
			o.put("diffuseTexture", textureInfo(v.DiffuseTexture))
		}
		if v.SpecularFactor != nil {
			o.opt("specularFactor", floats(v.SpecularFactor[:]), *v.SpecularFactor == [3]float64{1, 1, 1})
		} else {
			o.opt("specularFactor", floats([]float64{1, 1, 1}), true)
		}
		g := 1.0
		if v.GlossinessFactor != nil {
			g = *v.GlossinessFactor
		}
		o.opt("glossinessFactor", Fl(g), g == 1)
		if v.SpecularGlossinessTexture != nil {
			o.put("specularGlossinessTexture", textureInfo(v.SpecularGlossinessTexture))
		}
		return o
	case *texturetransform.TextureTranform:
		o := &Obj{}
		o.opt("offset", floats(v.Offset[:]), v.Offset == [2]float64{})
		o.opt("rotation", Fl(v.Rotation), v.Rotation == 0)
		sc := v.Scale
		if sc == [2]float64{} {
			sc = [2]float64{1, 1}
		}
		o.opt("scale", floats(sc[:]), sc == [2]float64{1, 1})
		o.idx("texCoord", v.TexCoord)
		return o
	case *unlit.Unlit:
		return Generic(map[string]any(*v))
	case unlit.Unlit:
		return Generic(map[string]any(v))
	}
	return Generic(v)
}

func light(l *lightspunctual.Light) any {
	if l == nil {
		return nil
	}
	o := &Obj{}
	o.put("type", l.Type)
	o.str("name", l.Name)
	c := [3]float64{1, 1, 1}
	if l.Color != nil {
		c = *l.Color
	}
	o.opt("color", floats(c[:]), c == [3]float64{1, 1, 1})
	in := 1.0
	if l.Intensity != nil {
		in = *l.Intensity
	}
	o.opt("intensity", Fl(in), in == 1)
	if l.Range != nil && !math.IsInf(*l.Range, 1) {
		o.put("range", Fl(*l.Range))
	}
	if l.Spot != nil {
		s := &Obj{}
		s.opt("innerConeAngle", Fl(l.Spot.InnerConeAngle), l.Spot.InnerConeAngle == 0)
		oc := math.Pi / 4
		if l.Spot.OuterConeAngle != nil {
			oc = *l.Spot.OuterConeAngle
		}
		s.opt("outerConeAngle", Fl(oc), oc == math.Pi/4)
		o.put("spot", s)
	}
	return o
}

func (o *Obj) ext(e gltf.Extensions, extras any) {
	if len(e) > 0 {
		x := &Obj{}
		var ks []string
		for k := range e {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x.put(k, Ext(e[k]))
		}
		o.put("extensions", x)
	}
	if extras != nil {
		o.put("extras", Generic(extras))
	}
}

func textureInfo(t *gltf.TextureInfo) any {
	o := &Obj{}
	o.ext(t.Extensions, t.Extras)
	o.put("index", float64(t.Index))
	o.opt("texCoord", float64(t.TexCoord), t.TexCoord == 0)
	return o
}

// BufferMode tells how buffers are described.
type BufferMode func(i int, b *gltf.Buffer) (uri string, has bool)

// Tree describes a document. uri decides what is said about buffer URIs.
func Tree(d *gltf.Document, uri BufferMode) *Obj {
	o := &Obj{}
	o.ext(d.Extensions, d.Extras)
	if len(d.ExtensionsUsed) > 0 {
		o.put("extensionsUsed", strs(d.ExtensionsUsed))
	}
	if len(d.ExtensionsRequired) > 0 {
		o.put("extensionsRequired", strs(d.ExtensionsRequired))
	}
	list(o, "accessors", d.Accessors, accessor)
	list(o, "animations", d.Animations, animation)
	as := &Obj{}
	as.ext(d.Asset.Extensions, d.Asset.Extras)
	as.str("copyright", d.Asset.Copyright)
	as.str("generator", d.Asset.Generator)
	v := d.Asset.Version
	if v == "" {
		v = "2.0"
	}
	as.put("version", v)
	as.str("minVersion", d.Asset.MinVersion)
	o.put("asset", as)
	if len(d.Buffers) > 0 {
		var bs []any
		for i, b := range d.Buffers {
			if b == nil {
				bs = append(bs, nil)
				continue
			}
			x := &Obj{}
			x.ext(b.Extensions, b.Extras)
			x.str("name", b.Name)
			if u, has := uri(i, b); has {
				x.put("uri", u)
			}
			x.put("byteLength", float64(b.ByteLength))
			bs = append(bs, x)
		}
		o.put("buffers", bs)
	}
	list(o, "bufferViews", d.BufferViews, func(b *gltf.BufferView) any {
		if b == nil {
			return nil
		}
		x := &Obj{}
		x.ext(b.Extensions, b.Extras)
		x.put("buffer", float64(b.Buffer))
		x.opt("byteOffset", float64(b.ByteOffset), b.ByteOffset == 0)
		x.put("byteLength", float64(b.ByteLength))
		if b.ByteStride != 0 {
			x.put("byteStride", float64(b.ByteStride))
		}
		if b.Target != 0 {
			x.put("target", float64(b.Target))
		}
		x.str("name", b.Name)
		return x
	})
	list(o, "cameras", d.Cameras, camera)
	list(o, "images", d.Images, func(im *gltf.Image) any {
		if im == nil {
			return nil
		}
		x := &Obj{}
		x.ext(im.Extensions, im.Extras)
		x.str("name", im.Name)
		x.str("uri", im.URI)
		x.str("mimeType", im.MimeType)
		x.idx("bufferView", im.BufferView)
		return x
	})
	list(o, "materials", d.Materials, material)
	list(o, "meshes", d.Meshes, mesh)
	list(o, "nodes", d.Nodes, node)
	list(o, "samplers", d.Samplers, func(s *gltf.Sampler) any {
		if s == nil {
			return nil
		}
		x := &Obj{}
		x.ext(s.Extensions, s.Extras)
		x.str("name", s.Name)
		if s.MagFilter != gltf.MagUndefined {
			x.put("magFilter", enum(magCode[s.MagFilter], s.MagFilter))
		}
		if s.MinFilter != gltf.MinUndefined {
			x.put("minFilter", enum(minCode[s.MinFilter], s.MinFilter))
		}
		x.opt("wrapS", wrapCode[s.WrapS], s.WrapS == gltf.WrapRepeat)
		x.opt("wrapT", wrapCode[s.WrapT], s.WrapT == gltf.WrapRepeat)
		return x
	})
	o.idx("scene", d.Scene)
	list(o, "scenes", d.Scenes, func(s *gltf.Scene) any {
		if s == nil {
			return nil
		}
		x := &Obj{}
		x.ext(s.Extensions, s.Extras)
		x.str("name", s.Name)
		if len(s.Nodes) > 0 {
			x.put("nodes", ints(s.Nodes))
		}
		return x
	})
	list(o, "skins", d.Skins, func(s *gltf.Skin) any {
		if s == nil {
			return nil
		}
		x := &Obj{}
		x.ext(s.Extensions, s.Extras)
		x.str("name", s.Name)
		x.idx("inverseBindMatrices", s.InverseBindMatrices)
		x.idx("skeleton", s.Skeleton)
		x.put("joints", ints(s.Joints))
		return x
	})
	list(o, "textures", d.Textures, func(t *gltf.Texture) any {
		if t == nil {
			return nil
		}
		x := &Obj{}
		x.ext(t.Extensions, t.Extras)
		x.str("name", t.Name)
		x.idx("sampler", t.Sampler)
		x.idx("source", t.Source)
		return x
	})
	return o
}

func enum(v float64, x any) any {
	if v == 0 {
		return fmt.Sprintf("!!unknown enum %v", x)
	}
	return v
}

func accessor(a *gltf.Accessor) any {
	if a == nil {
		return nil
	}
	x := &Obj{}
	x.ext(a.Extensions, a.Extras)
	x.str("name", a.Name)
	x.idx("bufferView", a.BufferView)
	x.opt("byteOffset", float64(a.ByteOffset), a.ByteOffset == 0)
	x.put("componentType", compCode[a.ComponentType])
	x.opt("normalized", a.Normalized, !a.Normalized)
	x.put("count", float64(a.Count))
	x.put("type", accName[a.Type])
	if len(a.Max) > 0 {
		x.put("max", floats(a.Max))
	}
	if len(a.Min) > 0 {
		x.put("min", floats(a.Min))
	}
	if s := a.Sparse; s != nil {
		y := &Obj{}
		y.ext(s.Extensions, s.Extras)
		y.put("count", float64(s.Count))
		i := &Obj{}
		i.ext(s.Indices.Extensions, s.Indices.Extras)
		i.put("bufferView", float64(s.Indices.BufferView))
		i.opt("byteOffset", float64(s.Indices.ByteOffset), s.Indices.ByteOffset == 0)
		i.put("componentType", compCode[s.Indices.ComponentType])
		y.put("indices", i)
		v := &Obj{}
		v.ext(s.Values.Extensions, s.Values.Extras)
		v.put("bufferView", float64(s.Values.BufferView))
		v.opt("byteOffset", float64(s.Values.ByteOffset), s.Values.ByteOffset == 0)
		y.put("values", v)
		x.put("sparse", y)
	}
	return x
}

func animation(a *gltf.Animation) any {
	if a == nil {
		return nil
	}
	x := &Obj{}
	x.ext(a.Extensions, a.Extras)
	x.str("name", a.Name)
	x.put("channels", listv(a.Channels, func(c *gltf.AnimationChannel) any {
		if c == nil {
			return nil
		}
		y := &Obj{}
		y.ext(c.Extensions, c.Extras)
		y.put("sampler", float64(c.Sampler))
		t := &Obj{}
		t.ext(c.Target.Extensions, c.Target.Extras)
		t.idx("node", c.Target.Node)
		t.put("path", pathName[c.Target.Path])
		y.put("target", t)
		return y
	}))
	x.put("samplers", listv(a.Samplers, func(s *gltf.AnimationSampler) any {
		if s == nil {
			return nil
		}
		y := &Obj{}
		y.ext(s.Extensions, s.Extras)
		y.put("input", float64(s.Input))
		y.opt("interpolation", interpName[s.Interpolation], s.Interpolation == gltf.InterpolationLinear)
		y.put("output", float64(s.Output))
		return y
	}))
	return x
}

func camera(c *gltf.Camera) any {
	if c == nil {
		return nil
	}
	x := &Obj{}
	x.ext(c.Extensions, c.Extras)
	x.str("name", c.Name)
	if p := c.Perspective; p != nil {
		x.put("type", "perspective")
		y := &Obj{}
		y.ext(p.Extensions, p.Extras)
		if p.AspectRatio != nil {
			y.put("aspectRatio", Fl(*p.AspectRatio))
		}
		y.put("yfov", Fl(p.Yfov))
		if p.Zfar != nil {
			y.put("zfar", Fl(*p.Zfar))
		}
		y.put("znear", Fl(p.Znear))
		x.put("perspective", y)
	}
	if p := c.Orthographic; p != nil {
		if c.Perspective == nil {
			x.put("type", "orthographic")
		}
		y := &Obj{}
		y.ext(p.Extensions, p.Extras)
		y.put("xmag", Fl(p.Xmag))
		y.put("ymag", Fl(p.Ymag))
		y.put("zfar", Fl(p.Zfar))
		y.put("znear", Fl(p.Znear))
		x.put("orthographic", y)
	}
	return x
}

func ptr(o *Obj, k string, p *float64, def float64) {
	v := def
	if p != nil {
		v = *p
	}
	o.opt(k, Fl(v), v == def)
}

func material(m *gltf.Material) any {
	if m == nil {
		return nil
	}
	x := &Obj{}
	x.ext(m.Extensions, m.Extras)
	x.str("name", m.Name)
	if p := m.PBRMetallicRoughness; p != nil {
		y := &Obj{}
		y.ext(p.Extensions, p.Extras)
		bc := [4]float64{1, 1, 1, 1}
		if p.BaseColorFactor != nil {
			bc = *p.BaseColorFactor
		}
		y.opt("baseColorFactor", floats(bc[:]), bc == [4]float64{1, 1, 1, 1})
		if p.BaseColorTexture != nil {
			y.put("baseColorTexture", textureInfo(p.BaseColorTexture))
		}
		ptr(y, "metallicFactor", p.MetallicFactor, 1)
		ptr(y, "roughnessFactor", p.RoughnessFactor, 1)
		if p.MetallicRoughnessTexture != nil {
			y.put("metallicRoughnessTexture", textureInfo(p.MetallicRoughnessTexture))
		}
		x.put("pbrMetallicRoughness", y)
	}
	if n := m.NormalTexture; n != nil {
		y := &Obj{}
		y.ext(n.Extensions, n.Extras)
		y.idx("index", n.Index)
		y.opt("texCoord", float64(n.TexCoord), n.TexCoord == 0)
		ptr(y, "scale", n.Scale, 1)
		x.put("normalTexture", y)
	}
	if n := m.OcclusionTexture; n != nil {
		y := &Obj{}
		y.ext(n.Extensions, n.Extras)
		y.idx("index", n.Index)
		y.opt("texCoord", float64(n.TexCoord), n.TexCoord == 0)
		ptr(y, "strength", n.Strength, 1)
		x.put("occlusionTexture", y)
	}
	if m.EmissiveTexture != nil {
		x.put("emissiveTexture", textureInfo(m.EmissiveTexture))
	}
	x.opt("emissiveFactor", floats(m.EmissiveFactor[:]), m.EmissiveFactor == [3]float64{})
	x.opt("alphaMode", alphaName[m.AlphaMode], m.AlphaMode == gltf.AlphaOpaque)
	ptr(x, "alphaCutoff", m.AlphaCutoff, 0.5)
	x.opt("doubleSided", m.DoubleSided, !m.DoubleSided)
	return x
}

func mesh(m *gltf.Mesh) any {
	if m == nil {
		return nil
	}
	x := &Obj{}
	x.ext(m.Extensions, m.Extras)
	x.str("name", m.Name)
	x.put("primitives", listv(m.Primitives, func(p *gltf.Primitive) any {
		if p == nil {
			return nil
		}
		y := &Obj{}
		y.ext(p.Extensions, p.Extras)
		y.put("attributes", attrs(p.Attributes))
		y.idx("indices", p.Indices)
		y.idx("material", p.Material)
		y.opt("mode", modeCode[p.Mode], p.Mode == gltf.PrimitiveTriangles)
		if len(p.Targets) > 0 {
			y.put("targets", listv(p.Targets, func(t gltf.PrimitiveAttributes) any { return attrs(t) }))
		}
		return y
	}))
	if len(m.Weights) > 0 {
		x.put("weights", floats(m.Weights))
	}
	return x
}

func node(n *gltf.Node) any {
	if n == nil {
		return nil
	}
	x := &Obj{}
	x.ext(n.Extensions, n.Extras)
	x.str("name", n.Name)
	x.idx("camera", n.Camera)
	if len(n.Children) > 0 {
		x.put("children", ints(n.Children))
	}
	x.idx("skin", n.Skin)
	m := n.Matrix
	if m == [16]float64{} {
		m = [16]float64{0: 1, 5: 1, 10: 1, 15: 1}
	}
	x.opt("matrix", floats(m[:]), m == [16]float64{0: 1, 5: 1, 10: 1, 15: 1})
	x.idx("mesh", n.Mesh)
	r := n.Rotation
	if r == [4]float64{} {
		r = [4]float64{0, 0, 0, 1}
	}
	x.opt("rotation", floats(r[:]), r == [4]float64{0, 0, 0, 1})
	s := n.Scale
	if s == [3]float64{} {
		s = [3]float64{1, 1, 1}
	}
	x.opt("scale", floats(s[:]), s == [3]float64{1, 1, 1})
	x.opt("translation", floats(n.Translation[:]), n.Translation == [3]float64{})
	if len(n.Weights) > 0 {
		x.put("weights", floats(n.Weights))
	}
	return x
}

// Canon is a canonical text of a tree with defaults left out, for comparison.
func Canon(v any) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func num(f float64) string {
	if f == 0 {
		return "0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func canon(b *strings.Builder, v any) {
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case string:
		b.WriteString(strconv.Quote(v))
	case float64:
		b.WriteString(num(v))
	case Fl:
		b.WriteString(num(float64(v)))
	case Raw:
		if f, err := strconv.ParseFloat(string(v), 64); err == nil && num(f) == string(v) {
			b.WriteString(num(f))
		} else {
			b.WriteString("raw:" + string(v))
		}
	case []any:
		b.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, x)
		}
		b.WriteByte(']')
	case *Obj:
		kv := append([]KV(nil), v.KV...)
		sort.SliceStable(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
		b.WriteByte('{')
		first := true
		for _, m := range kv {
			if m.Def {
				continue
			}
			if !first {
				b.WriteByte(',')
			}
			first = false
			b.WriteString(strconv.Quote(m.K))
			b.WriteByte(':')
			canon(b, m.V)
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "!!%T", v)
	}
}

// Match compares parsed JSON with the expected tree; members holding a
// default may be absent. It returns the first difference.
func Match(path string, got, want any) string {
	switch w := want.(type) {
	case *Obj:
		g, ok := got.(*Obj)
		if !ok {
			return fmt.Sprintf("%s: got %.80s, want an object", path, Canon(got))
		}
		used := map[string]bool{}
		for _, m := range w.KV {
			v, ok := g.Get(m.K)
			if !ok {
				if m.Def {
					continue
				}
				return fmt.Sprintf("%s.%s: missing, want %.80s", path, m.K, Canon(m.V))
			}
			used[m.K] = true
			if d := Match(path+"."+m.K, v, m.V); d != "" {
				return d
			}
		}
		for _, m := range g.KV {
			if !used[m.K] {
				return fmt.Sprintf("%s.%s: unexpected member %.80s", path, m.K, Canon(m.V))
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			if !ok && got == nil && len(w) == 0 {
				return ""
			}
			return fmt.Sprintf("%s: got %.120s, want %.120s", path, Canon(got), Canon(want))
		}
		for i := range w {
			if d := Match(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	case Fl:
		return Match(path, got, float64(w))
	case float64:
		if r, ok := got.(Raw); ok {
			f, err := strconv.ParseFloat(string(r), 64)
			if err == nil && f == w {
				return ""
			}
		}
	case Raw:
		if r, ok := got.(Raw); ok && r == w {
			return ""
		}
	default:
		if got == want {
			return ""
		}
	}
	return fmt.Sprintf("%s: got %.120s, want %.120s", path, Canon(got), Canon(want))
}

// Diff shows where two canonical texts part.
func Diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at %d: ...%s... vs ...%s...", i, cut(a), cut(b))
}

// SimStruct describes an extension of the simulated program.
func SimStruct(x gltf.Extensions, extras any, name string, nums []float64, tex *gltf.TextureInfo, n *gltf.Node) any {
	o := &Obj{}
	o.ext(x, extras)
	o.put("name", name)
	o.put("nums", floats(nums))
	if tex != nil {
		o.put("tex", textureInfo(tex))
	}
	if n != nil {
		o.put("node", node(n))
	}
	return o
}
