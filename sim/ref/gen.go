package ref

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"simv/simrt"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// Gen generates documents from a choice stream; every 0 choice is the simplest.
type Gen struct {
	S *simrt.Stream
	// Density scales how many optional things are present (0..3).
	Density int
	// Exts are additional extension payload makers by key (besides built-ins).
	Exts []ExtMaker
	// NoExt leaves out all extensions and extras.
	NoExt bool
	// MaxData bounds buffer sizes.
	MaxData int
	// ExternalDirs are directories external buffers may live in ("" = asset dir).
	ExternalDirs []string
	// Kinds of buffers allowed: "bin", "embed", "ext", "extnodata".
	Kinds []string
	// PlainURI restricts external names to unreserved characters.
	PlainURI bool

	names int
	depth int
	bulk  bool // inside a long list: elements are kept plain
}

// ExtMaker makes payloads for one extension key.
type ExtMaker struct {
	Key  string
	Make func(g *Gen) any
}

func (g *Gen) some() bool {
	density := g.Density
	if g.bulk {
		density = 0
	}
	switch density {
	case 0:
		return g.S.Chance(1, 8)
	case 1:
		return g.S.Chance(1, 4)
	case 2:
		return g.S.Chance(1, 2)
	}
	return g.S.Chance(4, 5)
}

func (g *Gen) count() int {
	if !g.some() {
		return 0
	}
	if g.S.Chance(1, 80) {
		if g.S.Chance(1, 20) {
			return 31<<g.S.N(6) + g.S.N(4) - 1
		}
		return 1 + g.S.N(30)
	}
	return 1 + g.S.Size(2)
}

// each calls f for a drawn number of elements.
func (g *Gen) each(f func(i int)) {
	n := g.count()
	old := g.bulk
	defer func() { g.bulk = old }()
	g.bulk = g.bulk || n > 40
	for i := 0; i < n; i++ {
		f(i)
	}
}

// few draws a number below n, and now and then a larger one.
func (g *Gen) few(n int) int {
	k := g.S.N(n)
	if k == n-1 && !g.bulk && g.S.Chance(1, 60) {
		k += 1 + g.S.N(16)
		if g.S.Chance(1, 12) {
			k = 31<<g.S.N(3) + g.S.N(4) - 1
		}
	}
	return k
}

var strPieces = []string{"", "a", "name", "Root", "x y", "ü", "日本", "😀", "<b>&", "\"q\"", "\\", "/", "\n", "\t", "\u2028", "\u007f", "\u0001", "é", ",,", "{,", ",}", "null", `"scale":[1,1]`, "0", "-", "%41", "\ufeff", "\ufffd"}

// Str generates a string.
func (g *Gen) Str() string {
	n := g.S.N(4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strPieces[g.S.N(len(strPieces))])
	}
	if g.S.Chance(1, 40) {
		b.WriteString(strings.Repeat("long ", 1+g.S.N(2000)))
	}
	return b.String()
}

var nums = []float64{0, 1, -1, 0.5, 2, 100, 0.1, 1e-7, 1e21, 1e300, -1e-300, math.Pi, math.Pi / 4, 1.0 / 3, math.MaxFloat64, math.SmallestNonzeroFloat64, 16777217, 9007199254740993, -0.25, 1e20, 123456789.125}

// Num generates a finite number.
func (g *Gen) Num() float64 {
	if g.S.Chance(1, 3) {
		f := math.Float64frombits(g.S.U64() << 1)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 3.25
		}
		if f == 0 {
			return 0
		}
		return f
	}
	return nums[g.S.N(len(nums))]
}

func (g *Gen) nums(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = g.Num()
	}
	return out
}

// Int generates a non-negative integer.
func (g *Gen) Int() int {
	switch g.S.N(5) {
	case 4:
		return int(g.S.U64() % (1 << 31))
	case 3:
		return g.S.N(70000)
	}
	return g.S.N(4)
}

func (g *Gen) idx() *int {
	if g.some() {
		return gltf.Index(g.Int())
	}
	return nil
}

func (g *Gen) fl() *float64 {
	if g.some() {
		return gltf.Float(g.Num())
	}
	return nil
}

// Any generates a JSON-like value.
func (g *Gen) Any(depth int) any {
	k := g.S.N(7)
	if depth <= 0 && k > 3 {
		k -= 4
	}
	switch k {
	case 0:
		return g.Str()
	case 1:
		return g.Num()
	case 2:
		return g.S.N(2) == 1
	case 3:
		return float64(g.Int())
	case 4:
		n := g.few(4)
		out := make([]any, n)
		for i := range out {
			out[i] = g.Any(depth - 1)
		}
		return out
	case 5:
		m := map[string]any{}
		for i, n := 0, g.few(4); i < n; i++ {
			m[g.Str()] = g.Any(depth - 1)
		}
		return m
	}
	if g.S.Chance(1, 60) { // deep
		v := any(g.Num())
		for i := g.S.Size(300); i >= 0; i-- {
			if i%3 == 0 {
				v = map[string]any{"deep": v}
			} else {
				v = []any{v}
			}
		}
		return v
	}
	if depth < 2 { // a nested null
		return []any{nil}
	}
	return map[string]any{"null": nil, "n": g.Num()}
}

var rawNums = []string{"0", "1", "1.0", "-0", "1e5", "1E+2", "12345678901234567890", "0.10", "-1.5e-10", "1e400"}

// RawJSON generates JSON text with all its liberties, compact.
func (g *Gen) RawJSON(depth int) string {
	k := g.S.N(8)
	if k == 7 && depth > 0 && g.S.Chance(1, 60) { // deep
		n := 1 + g.S.Size(400)
		if g.S.N(2) == 0 {
			return strings.Repeat("[", n) + g.RawJSON(0) + strings.Repeat("]", n)
		}
		return strings.Repeat(`{"d":[`, n) + g.RawJSON(0) + strings.Repeat("]}", n)
	}
	if depth <= 0 && k > 4 {
		k -= 4
	}
	switch k {
	case 0:
		return rawNums[g.S.N(len(rawNums))]
	case 1:
		b, _ := json.Marshal(g.Str())
		return string(b)
	case 2:
		return "true"
	case 3:
		return "null"
	case 4:
		return `"A\u0301\ud83d\ude00"`
	case 5:
		var p []string
		for i, n := 0, g.few(4); i < n; i++ {
			p = append(p, g.RawJSON(depth-1))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	var p []string
	for i, n := 0, g.few(4); i < n; i++ {
		p = append(p, fmt.Sprintf(`"k%d":%s`, i, g.RawJSON(depth-1)))
	}
	return "{" + strings.Join(p, ",") + "}"
}

// RawObject generates a JSON object text.
func (g *Gen) RawObject(depth int) string {
	var p []string
	for i, n := 0, g.few(4); i < n; i++ {
		k, _ := json.Marshal(fmt.Sprintf("m%d.%s", i, strPieces[g.S.N(len(strPieces))]))
		p = append(p, string(k)+":"+g.RawJSON(depth-1))
	}
	return "{" + strings.Join(p, ",") + "}"
}

// Where extensions of a kind make sense; the library allows any anywhere.
func (g *Gen) ext(where string) (gltf.Extensions, any) {
	if g.NoExt {
		return nil, nil
	}
	var e gltf.Extensions
	var x any
	if g.some() && g.S.Chance(1, 2) {
		e = gltf.Extensions{}
		for i, n := 0, 1+g.few(3); i < n; i++ {
			k, v := g.ExtPayload()
			if _, ok := e[k]; ok {
				k, v = fmt.Sprintf("VENDOR_more_%d", i), json.RawMessage(g.RawObject(1))
			}
			e[k] = v
		}
	}
	if g.some() && g.S.Chance(1, 2) {
		x = g.Any(2)
	}
	return e, x
}

// ExtPayload generates one extension entry.
func (g *Gen) ExtPayload() (string, any) {
	n := 7 + len(g.Exts)
	k := g.S.N(n)
	if k >= 7 {
		m := g.Exts[k-7]
		return m.Key, m.Make(g)
	}
	switch k {
	case 1:
		return lightspunctual.ExtensionName, g.Lights()
	case 2:
		return lightspunctual.ExtensionName, lightspunctual.LightIndex(g.S.N(5))
	case 3:
		return specular.ExtensionName, g.Specular()
	case 4:
		return texturetransform.ExtensionName, g.Transform()
	case 5:
		u := unlit.Unlit{}
		for i, n := 0, g.S.N(3); i < n; i++ {
			u[fmt.Sprintf("u%d", i)] = json.RawMessage(g.RawJSON(1))
		}
		return unlit.ExtensionName, &u
	}
	return g.UnknownKey(), json.RawMessage(g.RawObject(2))
}

// alike are names close to those of registered extensions.
var alike = []string{"khr_lights_punctual", "KHR_LIGHTS_PUNCTUAL", "KHR_lights_punctual_2", "KHR_lights", "EXT_lights_punctual", " KHR_lights_punctual", "KHR_materials_unlit ", "khr_materials_unlit", "KHR_materials", "KHR_texture_transforms", "Khr_texture_transform", "KHR-texture-transform", "KHR_materials_pbrSpecularGlossines", "KHR_materials_pbrspecularglossiness", "", "KHR_", "ü", "extensions", "a/b", "a.b", "null"}

// UnknownKey is a name under which nothing is registered.
func (g *Gen) UnknownKey() string {
	if g.S.N(4) == 0 {
		k := alike[g.S.N(len(alike))]
		if len(g.Exts) > 0 && g.S.N(2) == 0 {
			x := g.Exts[g.S.N(len(g.Exts))].Key
			k = []string{strings.ToLower(x), strings.ToUpper(x), x + "_", "_" + x, x[:len(x)-1]}[g.S.N(5)]
			for _, m := range g.Exts {
				if m.Key == k {
					k = "VENDOR_" + k
				}
			}
		}
		return k
	}
	return fmt.Sprintf("VENDOR_unknown_%d", g.S.N(4))
}

// Lights generates a lights extension.
func (g *Gen) Lights() lightspunctual.Lights {
	n := g.few(4)
	out := make(lightspunctual.Lights, n)
	for i := range out {
		l := &lightspunctual.Light{Type: []string{lightspunctual.TypeDirectional, lightspunctual.TypePoint, lightspunctual.TypeSpot}[g.S.N(3)], Name: g.Str()}
		if g.some() {
			l.Color = &[3]float64{g.one(), g.one(), g.one()}
		}
		l.Intensity = g.fl()
		l.Range = g.fl()
		if l.Range != nil && *l.Range == 0 {
			*l.Range = 2
		}
		if l.Type == lightspunctual.TypeSpot || g.some() {
			l.Spot = &lightspunctual.Spot{InnerConeAngle: g.Num(), OuterConeAngle: g.fl()}
		}
		out[i] = l
	}
	return out
}

// Specular generates a specular-glossiness extension.
func (g *Gen) Specular() *specular.PBRSpecularGlossiness {
	p := &specular.PBRSpecularGlossiness{}
	if g.some() {
		p.DiffuseFactor = &[4]float64{g.one(), g.one(), g.one(), g.one()}
	}
	if g.some() {
		p.DiffuseTexture = g.texInfo()
	}
	if g.some() {
		p.SpecularFactor = &[3]float64{g.one(), g.one(), g.one()}
	}
	if g.some() {
		p.GlossinessFactor = gltf.Float(g.one())
	}
	if g.some() {
		p.SpecularGlossinessTexture = g.texInfo()
	}
	return p
}

func (g *Gen) zero() float64 {
	if g.S.N(2) == 0 {
		return 0
	}
	return g.Num()
}

func (g *Gen) one() float64 {
	if g.S.N(2) == 0 {
		return 1
	}
	return g.Num()
}

// Transform generates a texture transform extension.
func (g *Gen) Transform() *texturetransform.TextureTranform {
	t := &texturetransform.TextureTranform{Scale: [2]float64{1, 1}}
	if g.some() {
		t.Offset = [2]float64{g.Num(), g.Num()}
	}
	if g.some() {
		t.Rotation = g.Num()
	}
	if g.some() {
		t.Scale = [2]float64{g.one(), g.one()}
		if g.S.N(6) == 0 {
			t.Scale = [2]float64{} // left unset: the default
		}
	}
	t.TexCoord = g.idx()
	return t
}

func (g *Gen) texInfo() *gltf.TextureInfo {
	t := &gltf.TextureInfo{Index: g.Int()}
	if g.depth < 2 {
		g.depth++
		t.Extensions, t.Extras = g.ext("textureInfo")
		g.depth--
	}
	if g.some() {
		t.TexCoord = g.S.N(3)
	}
	return t
}

func (g *Gen) texInfoOpt() *gltf.TextureInfo {
	if g.some() {
		return g.texInfo()
	}
	return nil
}

func (g *Gen) attrs() gltf.PrimitiveAttributes {
	names := []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.COLOR_0, gltf.JOINTS_0, gltf.WEIGHTS_0, "_CUSTOM", "TEXCOORD_7"}
	m := gltf.PrimitiveAttributes{}
	n := g.few(5)
	for i := 0; i < n; i++ {
		k := names[g.S.N(len(names))]
		if _, ok := m[k]; ok && n > 5 {
			k = fmt.Sprintf("_MORE_%d", i)
		}
		m[k] = g.Int()
	}
	return m
}

func (g *Gen) indices() []int {
	n := g.S.N(5)
	if g.S.Chance(1, 80) {
		n = g.S.N(300)
	}
	if n == 0 {
		return nil
	}
	out := make([]int, n)
	for i := range out {
		out[i] = g.Int()
	}
	return out
}

// extName is an entry of extensionsUsed or extensionsRequired.
func (g *Gen) extName(i int) string {
	switch g.S.N(3) {
	case 1:
		return fmt.Sprintf("VENDOR_unknown_%d", i)
	case 2:
		return append(g.known(), g.Str()+fmt.Sprint(i))[min(i, len(g.known()))]
	}
	return g.Str() + fmt.Sprint(i)
}

func (g *Gen) known() []string {
	l := []string{lightspunctual.ExtensionName, specular.ExtensionName, texturetransform.ExtensionName, unlit.ExtensionName}
	for _, m := range g.Exts {
		l = append(l, m.Key)
	}
	return l
}

// Doc generates a document without buffers.
func (g *Gen) Doc() *gltf.Document {
	d := gltf.NewDocument()
	if g.S.N(2) == 0 {
		d = &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	}
	s := g.S
	d.Extensions, d.Extras = g.ext("doc")
	if g.some() {
		for i, n := 0, g.few(3); i < n; i++ {
			d.ExtensionsUsed = append(d.ExtensionsUsed, g.extName(i))
		}
		for i, n := 0, g.few(3); i < n; i++ {
			d.ExtensionsRequired = append(d.ExtensionsRequired, g.extName(i))
		}
	}
	if g.some() {
		d.Asset.Extensions, d.Asset.Extras = g.ext("asset")
		d.Asset.Copyright, d.Asset.Generator = g.Str(), g.Str()
		if g.some() {
			d.Asset.MinVersion = "2.0"
		}
		if g.some() {
			d.Asset.Version = "2.1"
		}
	}
	if s.N(8) == 0 {
		d.Asset.Version = "" // what is written then is the default
	}
	g.each(func(i int) {
		a := &gltf.Accessor{Name: g.Str(), BufferView: g.idx(), ComponentType: gltf.ComponentType(s.N(6)), Count: g.Int(), Type: gltf.AccessorType(s.N(7))}
		a.Extensions, a.Extras = g.ext("accessor")
		if g.some() {
			a.ByteOffset = g.Int()
		}
		a.Normalized = g.some()
		if g.some() {
			a.Max, a.Min = g.nums(1+s.N(4)), g.nums(1+s.N(4))
		}
		if g.some() {
			sp := &gltf.Sparse{Count: g.Int()}
			sp.Extensions, sp.Extras = g.ext("sparse")
			sp.Indices = gltf.SparseIndices{BufferView: g.Int(), ByteOffset: g.Int(), ComponentType: []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint}[s.N(3)]}
			sp.Indices.Extensions, sp.Indices.Extras = g.ext("sparseIndices")
			sp.Values = gltf.SparseValues{BufferView: g.Int(), ByteOffset: g.Int()}
			sp.Values.Extensions, sp.Values.Extras = g.ext("sparseValues")
			a.Sparse = sp
		}
		d.Accessors = append(d.Accessors, a)
	})
	g.each(func(i int) {
		a := &gltf.Animation{Name: g.Str(), Channels: []*gltf.AnimationChannel{}, Samplers: []*gltf.AnimationSampler{}}
		a.Extensions, a.Extras = g.ext("animation")
		for j, m := 0, g.few(3); j < m; j++ {
			c := &gltf.AnimationChannel{Sampler: g.Int()}
			c.Extensions, c.Extras = g.ext("channel")
			c.Target = gltf.AnimationChannelTarget{Node: g.idx(), Path: gltf.TRSProperty(s.N(4))}
			c.Target.Extensions, c.Target.Extras = g.ext("channelTarget")
			a.Channels = append(a.Channels, c)
		}
		for j, m := 0, g.few(3); j < m; j++ {
			c := &gltf.AnimationSampler{Input: g.Int(), Output: g.Int(), Interpolation: gltf.Interpolation(s.N(3))}
			c.Extensions, c.Extras = g.ext("sampler")
			a.Samplers = append(a.Samplers, c)
		}
		d.Animations = append(d.Animations, a)
	})
	g.each(func(i int) {
		b := &gltf.BufferView{Buffer: g.Int(), ByteLength: g.Int(), Name: g.Str()}
		b.Extensions, b.Extras = g.ext("bufferView")
		if g.some() {
			b.ByteOffset = g.Int()
		}
		if g.some() {
			b.ByteStride = 4 + 4*s.N(62)
		}
		if g.some() {
			b.Target = []gltf.Target{gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[s.N(2)]
		}
		d.BufferViews = append(d.BufferViews, b)
	})
	g.each(func(i int) {
		c := &gltf.Camera{Name: g.Str()}
		c.Extensions, c.Extras = g.ext("camera")
		if s.N(2) == 0 {
			c.Perspective = &gltf.Perspective{AspectRatio: g.fl(), Yfov: g.Num(), Zfar: g.fl(), Znear: g.Num()}
			c.Perspective.Extensions, c.Perspective.Extras = g.ext("perspective")
		} else {
			c.Orthographic = &gltf.Orthographic{Xmag: g.Num(), Ymag: g.Num(), Zfar: g.Num(), Znear: g.Num()}
			c.Orthographic.Extensions, c.Orthographic.Extras = g.ext("orthographic")
		}
		d.Cameras = append(d.Cameras, c)
	})
	g.each(func(i int) {
		im := &gltf.Image{Name: g.Str()}
		im.Extensions, im.Extras = g.ext("image")
		switch s.N(6) {
		case 5: // names that mean themselves
			im.URI = []string{"tex ture.png", "ü.png", "sub/dir/i.jpg", "..hidden.png", "a+b.jpg", "https://example.com/a/b.png", "data:image/webp;base64,UklGRgABAg==", "noext", "日本/1.png", "a=1&b=2"}[s.N(10)]
			im.MimeType = []string{"", "image/png", "image/jpeg"}[s.N(3)]
		case 4:
			b := make([]byte, s.Size(40))
			if s.Chance(1, 20) {
				b = make([]byte, s.N(9000))
			}
			s.Bytes(b)
			im.URI = []string{"data:image/png;base64,", "data:image/jpeg;base64,"}[s.N(2)] + base64.StdEncoding.EncodeToString(b)
		case 0:
			im.URI = fmt.Sprintf("img%d.png", i)
		case 1:
			im.URI = "data:image/png;base64,iVBORw0KGgo="
		case 2:
			im.URI = "data:image/jpeg;base64,/9j/4AAQ"
		case 3:
			im.BufferView, im.MimeType = gltf.Index(g.Int()), "image/png"
		}
		d.Images = append(d.Images, im)
	})
	g.each(func(i int) {
		d.Materials = append(d.Materials, g.Material())
	})
	g.each(func(i int) {
		m := &gltf.Mesh{Name: g.Str(), Primitives: []*gltf.Primitive{}}
		m.Extensions, m.Extras = g.ext("mesh")
		for j, k := 0, g.few(3); j < k; j++ {
			p := &gltf.Primitive{Attributes: g.attrs(), Indices: g.idx(), Material: g.idx(), Mode: gltf.PrimitiveMode(s.N(7))}
			p.Extensions, p.Extras = g.ext("primitive")
			if g.some() {
				for t, c := 0, 1+g.few(3); t < c; t++ {
					p.Targets = append(p.Targets, g.attrs())
				}
			}
			m.Primitives = append(m.Primitives, p)
		}
		if g.some() {
			m.Weights = g.nums(1 + g.few(3))
		}
		d.Meshes = append(d.Meshes, m)
	})
	g.each(func(i int) {
		d.Nodes = append(d.Nodes, g.Node())
	})
	g.each(func(i int) {
		x := &gltf.Sampler{Name: g.Str(), MagFilter: gltf.MagFilter(s.N(3)), MinFilter: gltf.MinFilter(s.N(7)), WrapS: gltf.WrappingMode(s.N(3)), WrapT: gltf.WrappingMode(s.N(3))}
		x.Extensions, x.Extras = g.ext("textureSampler")
		d.Samplers = append(d.Samplers, x)
	})
	if g.some() {
		d.Scene = gltf.Index(g.Int())
	}
	g.each(func(i int) {
		x := &gltf.Scene{Name: g.Str(), Nodes: g.indices()}
		x.Extensions, x.Extras = g.ext("scene")
		d.Scenes = append(d.Scenes, x)
	})
	g.each(func(i int) {
		x := &gltf.Skin{Name: g.Str(), InverseBindMatrices: g.idx(), Skeleton: g.idx(), Joints: append([]int{}, g.indices()...)}
		x.Extensions, x.Extras = g.ext("skin")
		d.Skins = append(d.Skins, x)
	})
	g.each(func(i int) {
		x := &gltf.Texture{Name: g.Str(), Sampler: g.idx(), Source: g.idx()}
		x.Extensions, x.Extras = g.ext("texture")
		d.Textures = append(d.Textures, x)
	})
	for i := 0; i < 4 && s.Chance(1, 8); i++ {
		g.share(d)
	}
	return d
}

// more appends an entry of the list again.
func more[T any](s *simrt.Stream, l []T) []T {
	if len(l) == 0 {
		return l
	}
	return append(l, l[s.N(len(l))])
}

// share makes parts of a document refer to the same memory, as they may in a
// program.
func (g *Gen) share(d *gltf.Document) {
	s := g.S
	switch s.N(14) {
	case 0:
		d.Nodes = more(s, d.Nodes)
	case 1:
		d.Materials = more(s, d.Materials)
	case 2:
		d.Accessors = more(s, d.Accessors)
	case 3:
		d.Meshes = more(s, d.Meshes)
	case 4:
		d.Textures = more(s, d.Textures)
	case 5:
		d.Cameras = more(s, d.Cameras)
	case 6:
		d.Animations, d.Skins = more(s, d.Animations), more(s, d.Skins)
	case 7:
		d.Images, d.Samplers = more(s, d.Images), more(s, d.Samplers)
	case 8:
		d.BufferViews, d.Scenes = more(s, d.BufferViews), more(s, d.Scenes)
	case 9:
		if len(d.Nodes) > 1 {
			a, b := d.Nodes[0], d.Nodes[len(d.Nodes)-1]
			a.Extensions, a.Extras, a.Mesh, a.Camera, a.Children, a.Weights = b.Extensions, b.Extras, b.Mesh, b.Mesh, b.Children, b.Weights
		}
	case 10:
		if len(d.Materials) > 1 {
			a, b := d.Materials[0], d.Materials[len(d.Materials)-1]
			a.PBRMetallicRoughness, a.NormalTexture, a.OcclusionTexture, a.EmissiveTexture, a.AlphaCutoff = b.PBRMetallicRoughness, b.NormalTexture, b.OcclusionTexture, b.EmissiveTexture, b.AlphaCutoff
			a.AlphaMode, a.Extensions = b.AlphaMode, b.Extensions
		}
	case 11:
		for _, m := range d.Meshes {
			for _, p := range m.Primitives {
				p.Attributes, p.Targets, p.Indices = m.Primitives[0].Attributes, m.Primitives[0].Targets, m.Primitives[0].Indices
				m.Extensions, p.Extras = p.Extensions, m.Extras
			}
		}
	case 12:
		for _, a := range d.Accessors {
			a.Min, a.Sparse, a.BufferView = a.Max, d.Accessors[0].Sparse, d.Accessors[0].BufferView
		}
	case 13:
		d.Asset.Extensions, d.Asset.Extras = d.Extensions, d.Extras
		d.ExtensionsUsed = d.ExtensionsRequired
	}
}

// Node generates a node.
func (g *Gen) Node() *gltf.Node {
	s := g.S
	n := &gltf.Node{Name: g.Str(), Camera: g.idx(), Children: g.indices(), Skin: g.idx(), Mesh: g.idx()}
	n.Extensions, n.Extras = g.ext("node")
	switch s.N(3) {
	case 1:
		n.Matrix = gltf.DefaultMatrix
		if s.N(2) == 1 {
			n.Matrix[s.N(16)] = g.Num()
		}
	case 2:
		for i := range n.Matrix {
			n.Matrix[i] = g.Num()
		}
	}
	switch s.N(3) {
	case 1:
		n.Rotation = gltf.DefaultRotation
	case 2:
		n.Rotation = [4]float64{g.zero(), g.zero(), g.zero(), g.one()}
	}
	switch s.N(3) {
	case 1:
		n.Scale = gltf.DefaultScale
	case 2:
		n.Scale = [3]float64{g.one(), g.one(), g.one()}
	}
	if g.some() {
		n.Translation = [3]float64{g.zero(), g.zero(), g.zero()}
	}
	if g.some() {
		n.Weights = g.nums(1 + s.N(3))
	}
	return n
}

// Material generates a material.
func (g *Gen) Material() *gltf.Material {
	s := g.S
	m := &gltf.Material{Name: g.Str(), AlphaMode: gltf.AlphaMode(s.N(3)), DoubleSided: g.some(), EmissiveTexture: g.texInfoOpt()}
	m.Extensions, m.Extras = g.ext("material")
	if g.some() {
		p := &gltf.PBRMetallicRoughness{BaseColorTexture: g.texInfoOpt(), MetallicRoughnessTexture: g.texInfoOpt()}
		p.Extensions, p.Extras = g.ext("pbr")
		if g.some() {
			p.BaseColorFactor = &[4]float64{g.one(), g.one(), g.one(), g.one()}
		}
		if g.some() {
			p.MetallicFactor = gltf.Float(g.one())
		}
		if g.some() {
			p.RoughnessFactor = gltf.Float(g.one())
		}
		m.PBRMetallicRoughness = p
	}
	if g.some() {
		t := &gltf.NormalTexture{Index: g.idx(), TexCoord: s.N(2)}
		t.Extensions, t.Extras = g.ext("normalTexture")
		if g.some() {
			t.Scale = gltf.Float(g.one())
		}
		m.NormalTexture = t
	}
	if g.some() {
		t := &gltf.OcclusionTexture{Index: g.idx(), TexCoord: s.N(2)}
		t.Extensions, t.Extras = g.ext("occlusionTexture")
		if g.some() {
			t.Strength = gltf.Float(g.one())
		}
		m.OcclusionTexture = t
	}
	if g.some() {
		m.EmissiveFactor = [3]float64{g.zero(), g.zero(), g.zero()}
	}
	if g.some() {
		m.AlphaCutoff = gltf.Float([]float64{0.5, 0, 0.25, 1}[s.N(4)])
	}
	return m
}

// Data generates buffer contents of a size at or around interesting limits.
func (g *Gen) Data() []byte {
	max := g.MaxData
	if max <= 0 {
		max = 64
	}
	var n int
	switch g.S.N(6) {
	case 0, 1:
		n = 1 + g.S.N(16)
	case 2:
		n = 1 + g.S.N(min(max, 200))
	case 3: // around the sizes of internal buffers
		base := []int{512, 1024, 4096, 8192, 65536}[g.S.N(5)]
		n = base - 3 + g.S.N(8)
		if max > 1<<20 {
			n = []int{1 << 20, 1 << 20, 1 << 21}[g.S.N(3)] - 3 + g.S.N(8)
		}
	default:
		n = 1 + g.S.N(max)
	}
	if n > max {
		n = 1 + n%max
	}
	spare := 0
	if g.S.N(4) == 0 { // other bytes behind it
		spare = 1 + g.S.N(8)
	}
	b := make([]byte, n+spare)
	g.S.Bytes(b)
	switch g.S.N(9) {
	case 5: // the same three bytes, and so the same four of base64, over and over
		for i := 3; i < len(b); i++ {
			b[i] = b[i-3]
		}
	case 6: // mostly zero
		for i := range b {
			if b[i] < 250 {
				b[i] = 0
			}
		}
	case 7: // two values
		for i := range b {
			b[i] = b[int(b[i]>>7)%len(b)]
		}
	case 8: // what could be taken for something else
		copy(b, []string{"glTF\x02\x00\x00\x00", "{}", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff", "\xef\xbb\xbf", "data:", "\x1f\x8b\x08", "BIN\x00"}[g.S.N(8)])
	}
	return b[:n]
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// names of external buffers: URI as in the document and the file it means.
type extName struct{ uri, file string }

var extNames = []extName{
	{"a.bin", "a.bin"}, {"buf-1_x.bin", "buf-1_x.bin"}, {"noext", "noext"}, {"B.BIN", "B.BIN"}, {"data", "data"},
	{"my%20file.bin", "my file.bin"}, {"with space.bin", "with space.bin"}, {"%C3%BC.bin", "ü.bin"}, {"日本.bin", "日本.bin"},
	{"p%25q.bin", "p%q.bin"}, {"plus+1.bin", "plus+1.bin"}, {"./dot.bin", "dot.bin"}, {"tilde~.bin", "tilde~.bin"}, {"a,b;c=d.bin", "a,b;c=d.bin"},
	{"..hidden", "..hidden"}, {"x..y.bin", "x..y.bin"}, {"q%23hash.bin", "q#hash.bin"}, {"data.bin", "data.bin"}, {"datax,1.bin", "datax,1.bin"},
	{"it's(1)!.bin", "it's(1)!.bin"}, {"what%3F.bin", "what?.bin"}, {"q%3Fa=1%26b.bin", "q?a=1&b.bin"}, {"%5B1%5D.bin", "[1].bin"}, {"50%25.bin", "50%.bin"}, {"100%2541.bin", "100%41.bin"}, {"%2B1.bin", "+1.bin"}, {"a%3Bb%3A.bin", "a;b:.bin"}, {"$a&b=c@d*.bin", "$a&b=c@d*.bin"}, {"./k:v.bin", "k:v.bin"}, {"1+1=2+0", "1+1=2+0"},
}

// ExtName generates the name of an external buffer, unique in this Gen.
func (g *Gen) ExtName() (uri, file string) {
	g.names++
	lim := len(extNames)
	if g.PlainURI {
		lim = 5
	}
	e := extNames[g.S.N(lim)]
	dir := ""
	if len(g.ExternalDirs) > 0 {
		dir = g.ExternalDirs[g.S.N(len(g.ExternalDirs))]
	}
	p := ""
	if g.names > 1 {
		p = fmt.Sprint(g.names)
	}
	uri, file = e.uri, e.file
	if strings.HasPrefix(uri, "./") {
		if dir == "" {
			return "./" + p + uri[2:], p + file
		}
		return "./" + dir + "/" + p + uri[2:], dir + "/" + p + file
	}
	if dir != "" {
		return dir + "/" + p + uri, dir + "/" + p + file
	}
	return p + uri, p + file
}

// Buffers adds buffers to a document; it returns what each external URI means.
func (g *Gen) Buffers(d *gltf.Document) map[int]string {
	files := map[int]string{}
	kinds := g.Kinds
	if len(kinds) == 0 {
		kinds = []string{"bin", "embed", "ext"}
	}
	n := g.few(4)
	if n > 20 {
		n = 20
	}
	for i := 0; i < n; i++ {
		b := &gltf.Buffer{Data: g.Data()}
		b.ByteLength = len(b.Data)
		if g.some() {
			b.Name = g.Str()
		}
		b.Extensions, b.Extras = g.ext("buffer")
		switch kinds[g.S.N(len(kinds))] {
		case "bin":
		case "embed":
			b.EmbeddedResource()
		case "ext":
			u, f := g.ExtName()
			b.URI, files[len(d.Buffers)] = u, f
		}
		d.Buffers = append(d.Buffers, b)
	}
	if n := len(d.Buffers); n > 0 && g.S.Chance(1, 12) {
		if b := d.Buffers[g.S.N(n)]; b.URI == "" && len(g.Kinds) == 0 || strings.HasPrefix(b.URI, "data:") {
			d.Buffers = append(d.Buffers, b) // the same buffer twice
		}
	}
	return files
}

// Inner generates extensions and extras inside of an extension's payload.
func (g *Gen) Inner() (gltf.Extensions, any) {
	if g.depth >= 2 {
		return nil, nil
	}
	g.depth++
	defer func() { g.depth-- }()
	return g.ext("inner")
}

// TexInfo generates a texture info.
func (g *Gen) TexInfo() *gltf.TextureInfo { return g.texInfo() }

// InnerNode generates a node inside of an extension's payload.
func (g *Gen) InnerNode() *gltf.Node {
	if g.depth >= 2 {
		return &gltf.Node{Name: g.Str()}
	}
	g.depth++
	defer func() { g.depth-- }()
	return g.Node()
}
