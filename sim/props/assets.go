package props

import (
	"encoding/base64"
	"fmt"
	"strings"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
)

// Foreign renders a document the way some other program would. External
// buffers of d must have their file name as URI.
func (e *Env) Foreign(d *gltf.Document, binary bool, st *ref.Style) *Asset {
	s := e.G
	a := &Asset{Files: map[string]string{}}
	uris := map[int]string{}
	var bin []byte
	hasBin := false
	for i, b := range d.Buffers {
		switch {
		case b.URI == "" && i == 0 && binary:
			bin, hasBin = b.Data, true
		case b.URI == "" || strings.HasPrefix(b.URI, "data:"):
			mt := "data:application/octet-stream;base64,"
			if s.N(2) == 1 {
				mt = "data:application/gltf-buffer;base64,"
			}
			uris[i] = mt + base64.StdEncoding.EncodeToString(e.longer(b.Data))
		default:
			uris[i] = e.percent(b.URI)
			if c := string(e.longer(b.Data)); len(c) > len(a.Files[b.URI]) {
				a.Files[b.URI] = c
			}
			b.URI = strings.ReplaceAll(b.URI, "%", "%25") // from now on a URI, as the library has it
		}
	}
	tree := ref.Tree(d, func(i int, b *gltf.Buffer) (string, bool) { u, ok := uris[i]; return u, ok })
	js := st.Render(tree)
	if !binary {
		if s.N(4) == 3 {
			js = append(js, []string{"\n", " \r\n\t", "    "}[s.N(3)]...)
		}
		a.Main = js
		return a
	}
	js = append(js, strings.Repeat(" ", (4-len(js)%4)%4)...)
	if s.Chance(1, 2) {
		n := 4 * (1 + s.Size(8))
		if s.Chance(1, 4) {
			n = 4 * (1 + s.N(1500))
		}
		js = append(js, strings.Repeat(" ", n)...)
	}
	chunks := []ref.Chunk{{Type: ref.ChunkJSON, Data: js}}
	if hasBin {
		b := append([]byte(nil), bin...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		chunks = append(chunks, ref.Chunk{Type: ref.ChunkBIN, Data: b})
	}
	if binary && !hasBin && s.Chance(1, 4) { // one that is not needed
		x := make([]byte, 4*s.N(4))
		s.Bytes(x)
		chunks = append(chunks, ref.Chunk{Type: ref.ChunkBIN, Data: x})
		hasBin = true
	}
	if hasBin || len(d.Buffers) == 0 {
		for i, n := 0, s.Size(2); i < n; i++ {
			x := make([]byte, 4*s.N(8))
			s.Bytes(x)
			chunks = append(chunks, ref.Chunk{Type: 0x54455354 + uint32(i), Data: x})
		}
	}
	a.Main = ref.BuildGLB(chunks...)
	if s.Chance(1, 6) {
		x := make([]byte, 1+s.N(40))
		s.Bytes(x)
		a.Main = append(a.Main, x...)
	}
	return a
}

// percent writes a file name as a URI reference.
func (e *Env) percent(file string) string {
	const plain = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~/"
	const delims = "!$&'()*+,;=@" // also legal as they are
	var b strings.Builder
	style := e.G.N(3)
	bare := e.G.N(2) == 0
	if style == 2 && e.G.N(2) == 1 && !strings.HasPrefix(file, "./") {
		b.WriteString("./")
	}
	for i := 0; i < len(file); i++ {
		c := file[i]
		switch {
		case strings.IndexByte(plain, c) >= 0 && !(style == 1 && c != '/' && c != '.' && e.G.Chance(1, 6)):
			b.WriteByte(c)
		case bare && (strings.IndexByte(delims, c) >= 0 || c == ':' && strings.Contains(b.String(), "/")):
			b.WriteByte(c)
		case c == '%' || c == '#' || c == '?' || style != 2 || c < 0x80:
			if e.G.N(2) == 0 {
				fmt.Fprintf(&b, "%%%02X", c)
			} else {
				fmt.Fprintf(&b, "%%%02x", c)
			}
		default:
			b.WriteByte(c) // non-ASCII left as it is
		}
	}
	return b.String()
}

// ForeignDoc generates a document for Foreign: external buffers are named by
// their files, only legal combinations are used.
func (e *Env) ForeignDoc(binary bool, exts bool) *gltf.Document {
	g := e.NewGen()
	g.NoExt = !exts
	g.ExternalDirs = []string{"", "", "sub", "a/b"}
	d := g.Doc()
	if binary {
		g.Kinds = []string{"embed", "ext"}
		if e.G.N(4) < 3 {
			b := &gltf.Buffer{Data: g.Data()}
			b.ByteLength = len(b.Data)
			d.Buffers = append(d.Buffers, b)
		}
	} else {
		g.Kinds = []string{"embed", "ext"}
	}
	files := g.Buffers(d)
	for i, f := range files {
		d.Buffers[i].URI = f
	}
	if ids := sortedInts(files); len(ids) > 1 && e.G.N(2) == 0 { // two names for one file
		x, y := ids[e.G.N(len(ids))], ids[e.G.N(len(ids))]
		if len(d.Buffers[x].Data) < len(d.Buffers[y].Data) {
			x, y = y, x
		}
		a, b := d.Buffers[x], d.Buffers[y]
		b.URI, b.Data, b.ByteLength = a.URI, append([]byte(nil), a.Data...), a.ByteLength
	}
	return d
}

// Source is an asset with what it should decode to ("" when not known).
type Source struct {
	*Asset
	Want string
	Desc string
	Doc  *gltf.Document
}

// AnyAsset generates a valid asset, by the library or by a foreign writer.
func (e *Env) AnyAsset() *Source {
	if e.G.N(3) == 2 {
		binary := e.G.N(2) == 0
		d := e.ForeignDoc(binary, e.G.N(2) == 1)
		st := ref.DrawStyle(e.G)
		a := e.Foreign(d, binary, st)
		return &Source{a, Content(d), fmt.Sprintf("foreign binary=%v %v", binary, st), d}
	}
	g := e.NewGen()
	g.NoExt = e.G.N(3) == 0
	g.ExternalDirs = []string{"", "", "sub"}
	if e.G.Chance(1, 12) {
		g.MaxData = max(g.MaxData, 70000)
	}
	d := g.Doc()
	g.Buffers(d)
	st := DrawSetting(e.G)
	a, err := e.EncodeClean(d, st)
	if err != nil {
		e.S.Fail("encode-failed", "encoding a valid document without any fault failed: %v", err)
	}
	return &Source{a, Saved(d, st.Binary), "encoded " + st.String(), d}
}

// Mutate damages bytes.
func Mutate(g *simrt.Stream, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i, n := 0, 1+g.Size(4); i < n && len(b) > 0; i++ {
		at := g.N(len(b))
		switch g.N(9) {
		case 0:
			b[at] ^= 1 << uint(g.N(8))
		case 1:
			b[at] = []byte(" \"{}[]:,0-9e.\\\x00\xfft")[g.N(17)]
		case 2: // drop
			end := min(len(b), at+1+g.N(8))
			b = append(b[:at], b[end:]...)
		case 3: // duplicate
			end := min(len(b), at+1+g.N(40))
			x := append([]byte(nil), b[at:end]...)
			b = append(b[:at], append(x, b[at:]...)...)
		case 4: // cut
			b = b[:at]
		case 5: // number
			x := []string{"-1", "0", "4294967296", "9223372036854775807", "1e999", "null", "1.5", "-9223372036854775808", "99999999999999999999", "2147483648", "true", "[]", "{}", "\"\""}[g.N(14)]
			j := at
			for j < len(b) && (b[j] < '0' || b[j] > '9') {
				j++
			}
			k := j
			for k < len(b) && b[k] >= '0' && b[k] <= '9' {
				k++
			}
			if k > j {
				b = append(b[:j:j], append([]byte(x), b[k:]...)...)
			}
		case 6: // a header word
			if len(b) >= 20 {
				o := 4 * g.N(5)
				v := []uint32{0, 1, 2, 3, 19, 20, 21, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(b)), uint32(len(b)) + 1, 0x4E4F534A, 0x004E4942, 0xfffffff0}[g.N(15)]
				b[o], b[o+1], b[o+2], b[o+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
			}
		case 7: // append
			x := make([]byte, 1+g.N(30))
			g.Bytes(x)
			b = append(b, x...)
		case 8: // a JSON token for another
			x := []string{"null", "{}", "[]", "[null]", "{\"a\":1}", "\"x\"", "-1", "true"}[g.N(8)]
			depth, j := 0, at
			for j < len(b) && b[j] != ':' {
				j++
			}
			k := j + 1
			for k < len(b) {
				c := b[k]
				if depth == 0 && (c == ',' || c == '}' || c == ']') {
					break
				}
				if c == '{' || c == '[' {
					depth++
				} else if c == '}' || c == ']' {
					depth--
				}
				k++
			}
			if j+1 < len(b) && k <= len(b) && k > j {
				b = append(b[:j+1:j+1], append([]byte(x), b[k:]...)...)
			}
		}
	}
	return b
}

// longer is data, or what begins with it: a resource may have more bytes than
// the buffer declares.
func (e *Env) longer(data []byte) []byte {
	c := append([]byte(nil), data...)
	if e.G.Chance(1, 3) {
		x := make([]byte, 1+e.G.N(20))
		e.G.Bytes(x)
		c = append(c, x...)
	}
	return c
}
