package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"simv/ref"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
)

func init() {
	register(&Prop{
		ID: "C05", Runs: 250000, Body: c05,
		Rule: "Each run generates a document and encodes it to a simulated peer (stream, stream with optional interfaces, file system or disk, slow or fast) that shares no code with the library: it parses the container and the JSON strictly and compares every property, name, enumeration value and default with a description of the document built by reflection-free reference code, and every buffer with its bytes. A run is non-trivial when the document has at least one buffer or element beyond the asset.",
	})
}

// wellFormed checks encoded bytes against the document; "" if they are right.
func wellFormed(d *gltf.Document, set Setting, main []byte) string {
	js, binary := main, set.Binary
	var bin []byte
	hasBin := binary && len(d.Buffers) > 0 && d.Buffers[0].URI == ""
	if binary {
		chunks, err := ref.ParseGLB(main)
		if err != nil {
			return "the container is malformed: " + err.Error()
		}
		js = chunks[0].Data
		text := bytes.TrimRight(js, " ")
		if n := len(js) - len(text); n > 3 {
			return fmt.Sprintf("the JSON chunk is padded with %d bytes", n)
		}
		if len(text) > 0 && text[len(text)-1] != '}' {
			return fmt.Sprintf("the JSON chunk is not padded with spaces: it ends with %q", js[len(js)-4:])
		}
		want := 1
		if hasBin {
			want = 2
		}
		if len(chunks) != want {
			return fmt.Sprintf("%d chunks instead of %d", len(chunks), want)
		}
		if hasBin {
			if chunks[1].Type != ref.ChunkBIN {
				return "the second chunk is not BIN"
			}
			bin = chunks[1].Data
			data := d.Buffers[0].Data
			if len(bin) < len(data) || len(bin)-len(data) > 3 || string(bin[:len(data)]) != string(data) {
				return fmt.Sprintf("the binary chunk of %d bytes does not hold the %d bytes of the first buffer", len(bin), len(data))
			}
			if strings.Trim(string(bin[len(data):]), "\x00") != "" {
				return "the binary chunk is not padded with zeroes"
			}
		}
	}
	got, err := ref.ParseStrict(js)
	if err != nil {
		return "the JSON is malformed: " + err.Error()
	}
	if set.Prefix != "" || set.Indent != "" {
		var flat, asked bytes.Buffer
		text := bytes.TrimRight(js, " \n")
		if json.Compact(&flat, text) == nil && json.Indent(&asked, flat.Bytes(), set.Prefix, set.Indent) == nil && string(text) != asked.String() {
			return fmt.Sprintf("the JSON is not indented with prefix %q and indent %q: %s", set.Prefix, set.Indent, diff(string(text), asked.String()))
		}
	}
	// How buffers are stored is compared by what the URIs mean.
	root, _ := got.(*ref.Obj)
	if root == nil {
		return "the JSON is not an object"
	}
	bufs, _ := root.Get("buffers")
	list, _ := bufs.([]any)
	uris := make([]string, len(d.Buffers))
	for i, b := range d.Buffers {
		if i >= len(list) {
			return fmt.Sprintf("buffer %d is missing", i)
		}
		o, _ := list[i].(*ref.Obj)
		if o == nil {
			return fmt.Sprintf("buffer %d is not an object", i)
		}
		v, has := o.Get("uri")
		u, _ := v.(string)
		uris[i] = u
		switch {
		case i == 0 && hasBin:
			if has {
				return "the buffer in the binary chunk has a URI"
			}
		case b.URI == "" || strings.HasPrefix(b.URI, "data:"):
			data, ok := dataURI(u)
			if !ok {
				return fmt.Sprintf("buffer %d is not embedded by a base64 data URI: %.60q", i, u)
			}
			if string(data) != string(b.Data) {
				return fmt.Sprintf("the data URI of buffer %d holds %d bytes which differ from its %d", i, len(data), len(b.Data))
			}
			if mt := u[5:strings.Index(u, ";")]; mt != "application/octet-stream" && mt != "application/gltf-buffer" {
				return fmt.Sprintf("buffer %d has media type %q", i, mt)
			}
		default:
			if normURI(u) != normURI(b.URI) {
				return fmt.Sprintf("buffer %d with URI %q is written with URI %q", i, b.URI, u)
			}
		}
	}
	want := ref.Tree(d, func(i int, b *gltf.Buffer) (string, bool) { return uris[i], uris[i] != "" })
	if m := ref.Match("$", got, want); m != "" {
		return m
	}
	return exclusive(d, root)
}

// exclusive checks that what the specification does not allow side by side is
// only written side by side when the document itself has it so.
func exclusive(d *gltf.Document, root *ref.Obj) string {
	each := func(list string, f func(i int, has func(string) bool) string) string {
		v, _ := root.Get(list)
		l, _ := v.([]any)
		for i, x := range l {
			if o, _ := x.(*ref.Obj); o != nil {
				if m := f(i, func(k string) bool { _, ok := o.Get(k); return ok }); m != "" {
					return fmt.Sprintf("$.%s[%d]: %s", list, i, m)
				}
			}
		}
		return ""
	}
	if m := each("nodes", func(i int, has func(string) bool) string {
		n := d.Nodes[i]
		if has("matrix") && (n.Matrix == [16]float64{} || n.Matrix == gltf.DefaultMatrix) && (has("translation") || has("rotation") || has("scale")) {
			return "a default matrix is written beside translation, rotation or scale"
		}
		if !has("matrix") || n.Matrix == [16]float64{} || n.Matrix == gltf.DefaultMatrix {
			return ""
		}
		switch {
		case has("translation") && n.Translation == [3]float64{}:
			return "a default translation is written beside a matrix"
		case has("rotation") && (n.Rotation == [4]float64{} || n.Rotation == gltf.DefaultRotation):
			return "a default rotation is written beside a matrix"
		case has("scale") && (n.Scale == [3]float64{} || n.Scale == gltf.DefaultScale):
			return "a default scale is written beside a matrix"
		}
		return ""
	}); m != "" {
		return m
	}
	if m := each("accessors", func(i int, has func(string) bool) string {
		if !has("bufferView") && has("byteOffset") && d.Accessors[i].ByteOffset == 0 {
			return "a default byte offset is written without a buffer view"
		}
		return ""
	}); m != "" {
		return m
	}
	return each("materials", func(i int, has func(string) bool) string {
		if has("alphaCutoff") && !has("alphaMode") && d.Materials[i].AlphaCutoff == nil {
			return "a default alpha cutoff is written without an alpha mode"
		}
		return ""
	})
}

func c05(e *Env) {
	j := e.DrawJob()
	spoilt := ""
	if e.G.Chance(1, 10) {
		spoilt = e.spoil(j.Doc)
		e.S.Fault("value that JSON cannot represent", spoilt)
	}
	for i, n := 0, 1+e.G.N(3); i < n; i++ {
		if i > 0 && spoilt == "" && e.G.N(2) == 0 { // the document changes
			e.S.Event("tweak", e.tweak(j.Doc))
		}
		e.Newdisk()
		j.Clutter()
		w := e.NewWriter()
		w.delays = e.F.Chance(1, 6)
		var main []byte
		var err error
		if j.How != "save" && e.F.N(3) == 2 {
			e.Dirs(j.Dir)
			var fsys gltf.CreateFS
			if j.How == "encode" {
				fsys = e.NewFS(j.Dir)
			}
			e.S.Fault("destination with optional interfaces")
			err = e.Encode(j.Doc, j.Set, fancyWriter{w}, fsys)
			main = w.Buf
		} else {
			main, err = j.Run(w)
		}
		e.S.Event("encoded", j.String(), main, errText(err))
		if err != nil {
			e.S.Probe("encode failed")
			return
		}
		if spoilt != "" {
			e.S.Fail("malformed", "%v: encoding succeeded with %d bytes although the document has a value that JSON cannot represent (%s)", j, len(main), spoilt)
		}
		if len(j.Doc.Buffers)+len(j.Doc.Nodes)+len(j.Doc.Meshes)+len(j.Doc.Materials) > 0 {
			e.Nontrivial()
		}
		set := j.Set
		if j.How == "save" {
			set = Setting{Binary: set.Binary} // has no indentation
		}
		if m := wellFormed(j.Doc, set, main); m != "" {
			e.S.Fail("malformed", "%v: %s", j, m)
		}
		if m := j.buffersStored(e.Disk.Snapshot()); m != "" {
			e.S.Fail("buffer-not-written", "%v: %s", j, m)
		}
	}
}

// spoil puts a value into the document that has no JSON representation.
func (e *Env) spoil(d *gltf.Document) string {
	g := e.G
	bad := math.NaN()
	if g.N(2) == 1 {
		bad = math.Inf(1 - 2*g.N(2))
	}
	var v any
	what := ""
	switch g.N(5) {
	case 0:
		v, what = refusing{"no"}, "payload that refuses"
	case 1:
		v, what = map[string]any{"a": bad}, "map with a number that is not finite"
	case 2:
		v, what = func() {}, "function"
	case 3:
		v, what = json.RawMessage(`{"a":`), "raw JSON that is cut off"
	case 4:
		v, what = []any{1, make(chan int)}, "list with a channel"
	}
	x := func() gltf.Extensions { return gltf.Extensions{"SPOILT": v} }
	num := func(s string) string { return s + " that is not finite" }
	switch k := g.N(21); k {
	case 0:
		d.Asset.Extras = v
	case 1:
		d.Extras = v
	case 2:
		d.Extensions = x()
	case 3:
		d.Nodes = append(d.Nodes, &gltf.Node{Extensions: x()})
	case 4:
		d.Nodes = append(d.Nodes, &gltf.Node{Extras: v})
	case 5:
		d.Materials = append(d.Materials, &gltf.Material{Extensions: x()})
	case 6:
		d.Materials = append(d.Materials, &gltf.Material{NormalTexture: &gltf.NormalTexture{Extras: v}})
	case 7:
		d.Materials = append(d.Materials, &gltf.Material{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{Extensions: x()}})
	case 8:
		d.Cameras = append(d.Cameras, &gltf.Camera{Perspective: &gltf.Perspective{Yfov: 1, Znear: 1, Extras: v}})
	case 9:
		d.Buffers = append(d.Buffers, &gltf.Buffer{URI: "spoilt.bin", ByteLength: 1, Data: []byte{1}, Extensions: x()})
	case 10:
		d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: 1, Data: []byte{1}, Extras: v})
	case 11:
		d.Nodes = append(d.Nodes, &gltf.Node{Scale: [3]float64{1, bad, 1}})
		return num("node scale")
	case 12:
		d.Nodes = append(d.Nodes, &gltf.Node{Weights: []float64{bad}})
		return num("weight")
	case 13:
		d.Materials = append(d.Materials, &gltf.Material{AlphaCutoff: &bad})
		return num("alpha cutoff")
	case 14:
		d.Materials = append(d.Materials, &gltf.Material{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{MetallicFactor: &bad}})
		return num("metallic factor")
	case 15:
		d.Materials = append(d.Materials, &gltf.Material{OcclusionTexture: &gltf.OcclusionTexture{Strength: &bad}})
		return num("occlusion strength")
	case 16:
		d.Materials = append(d.Materials, &gltf.Material{Extensions: gltf.Extensions{specular.ExtensionName: &specular.PBRSpecularGlossiness{GlossinessFactor: &bad}}})
		return num("glossiness")
	case 17:
		d.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.Lights{{Type: lightspunctual.TypePoint, Intensity: &bad}}}
		return num("light intensity")
	case 18:
		d.Accessors = append(d.Accessors, &gltf.Accessor{Count: 1, Min: []float64{bad}})
		return num("accessor minimum")
	case 19:
		d.Materials = append(d.Materials, &gltf.Material{EmissiveTexture: &gltf.TextureInfo{Extensions: gltf.Extensions{texturetransform.ExtensionName: &texturetransform.TextureTranform{Rotation: bad}}}})
		return num("rotation of a texture")
	case 20:
		d.Cameras = append(d.Cameras, &gltf.Camera{})
		return "camera without projection"
	}
	return what
}
