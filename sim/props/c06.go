package props

import (
	"encoding/base64"
	"fmt"
	"path"
	"path/filepath"
	"strings"

	"simv/ref"
	"simv/simos"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID: "C06", Runs: 1000000, Body: c06,
		Rule: "Each run builds documents whose buffer and image URIs are composed of dot-dot segments, absolute paths, back-slashes, percent-encodings, schemes, control characters and ordinary names, and decodes or encodes them through a caller's file system, a file on the simulated disk or a plain stream, also when the file system refuses or fails calls. Decoy files outside the directory of the asset carry a marker. Every name and path the library uses is recorded. A run is non-trivial when at least one URI would leave the directory if followed.",
	})
}

var hostile = []string{"..", ".", "", "a", "b.bin", "%2e%2e", "%2E.", ".%2e", "...", "secret", "etc", "passwd", "sim", "out", "~", "C:", "c:", " ", "%20", "\x00", "%00", "%", "%zz", "日", "%252e%252e", "..;", "..\t", "sub", "~root", "NUL", "localhost", "%c0%ae%c0%ae", "．．", "$UP", "${UP}", "$HOME", "~", "%24UP", "*"}
var hostileSep = []string{"/", "/", "/", "\\", "%2f", "%2F", "%5c", "%5C", "//", "/./", "\\/", ":", "%252f", "?", "#", ""}
var hostilePre = []string{"", "", "", "", "/", "\\", "//", "./", "../", "..\\", "/../", "%2f", "file:", "file:///", "file://localhost/", "http://h/", "https:", "data:", "DATA:", "data:,", "x:", "x:/", "a:b/", "\\\\host\\", "?", "#", "%5c", "http:../", "file:../../", " ../", "data:application/octet-stream;base64,../", "://", "1:"}
var hostileWhole = []string{"../secret.bin", "..\\secret.bin", "%2e%2e/secret.bin", "..%2fsecret.bin", "/sim/secret.bin", "%2fsim%2fsecret.bin", "sub/../../secret.bin", "sub/..%2f../secret.bin", "a/b/../../../secret.bin", "./../secret.bin", ".\\..\\secret.bin", "file:///sim/secret.bin", "../out2/secret.bin", "http://x/../../secret.bin", "x:../../secret.bin", "x:/../../../sim/secret.bin", "..%5csecret.bin", "%2e%2e%5csecret.bin", "//sim/secret.bin", "x/../../../sim/secret.bin", "/secret.bin", "..", "../", "%252e%252e/secret.bin", "x:y/../../../secret.bin", "a:../secret.bin", "http:/../secret.bin", "..?/../../secret.bin", "..#/../secret.bin", "$UP/secret.bin", "%24UP/secret.bin", "${UP}/secret.bin", "~/secret.bin"}

func (e *Env) hostileURI() string {
	g := e.G
	if g.N(3) == 2 {
		return hostileWhole[g.N(len(hostileWhole))]
	}
	if g.Chance(1, 12) { // down some levels and up one more, or a long name first
		k := 1 + g.Size(40)
		switch g.N(4) {
		case 0:
			return strings.Repeat("a/", k) + strings.Repeat("../", k) + "../secret.bin"
		case 1:
			return strings.Repeat("a/", k) + strings.Repeat("..%2f", k+1) + "secret.bin"
		case 2:
			return strings.Repeat("long", 10*k) + "/../../secret.bin"
		}
		return strings.Repeat("./", k) + strings.Repeat("..\\", 1+g.N(3)) + "secret.bin"
	}
	var b strings.Builder
	b.WriteString(hostilePre[g.N(len(hostilePre))])
	for i, n := 0, 1+g.Size(6); i < n; i++ {
		if i > 0 {
			b.WriteString(hostileSep[g.N(len(hostileSep))])
		}
		b.WriteString(hostile[g.N(len(hostile))])
	}
	return b.String()
}

const marker = "SECRET-MARKER-0123456789"

// leaves tells whether some reading of the URI leaves the directory.
func leaves(u string) bool {
	for i := 0; i < 3; i++ {
		s := strings.ReplaceAll(u, "\\", "/")
		if j := strings.Index(s, ":"); j >= 0 && !strings.HasPrefix(s, "data:") && leaves(s[j+1:]) {
			return true
		}
		if strings.HasPrefix(s, "/") || strings.HasPrefix(path.Clean(s), "..") {
			return true
		}
		u = strings.NewReplacer("%2e", ".", "%2E", ".", "%2f", "/", "%2F", "/", "%5c", "\\", "%5C", "\\", "%25", "%").Replace(u)
	}
	return false
}

func c06(e *Env) {
	g := e.G
	dir, base := "/sim/out", "main.file"
	if g.N(4) == 0 {
		dir = []string{"/sim/out", "/sim/%2e%2e", "/srv", "/sim/...", "/sim/o:t", "/sim/ü", "/sim/#", "/sim/..out", "/sim/in/in", "/sim/s p", "/sim/?"}[g.N(11)]
		base = spotBases[g.N(len(spotBases))]
	}
	e.Dirs(dir)
	e.Dirs("/sim/out2")
	e.Dirs(dir + "2")
	e.Disk.Put(dir+"2/secret.bin", []byte(marker))
	e.Disk.Put(dir+".bin", []byte(marker))
	e.Dirs("/etc")
	decoys := []string{"/secret.bin", "/sim/secret.bin", "/sim/out2/secret.bin", "/sim/b.bin", "/sim/a", "/etc/passwd", "/sim/out.bin", "/secret", "/sim/secret", "/tmp/secret.bin"}
	for _, d := range decoys {
		e.Disk.Put(d, []byte(marker))
	}
	inside := []string{"b.bin", "secret.bin", "sub/secret.bin", "a/b/b.bin", "..hidden"}
	for _, f := range inside {
		e.Disk.Put(dir+"/"+f, []byte("inside "+f+strings.Repeat(".", 40)))
	}
	e.Disk.Cwd = []string{"/sim", "/", dir, "/sim/out2"}[g.N(4)]
	spell := func() string {
		full := dir + "/" + base
		switch k := g.N(4); {
		case k == 1 && e.Disk.Cwd == dir:
			return base
		case k == 2:
			if rel, err := filepath.Rel(e.Disk.Cwd, full); err == nil {
				return rel
			}
		case k == 3:
			return dir + "/sub/../" + base
		}
		return full
	}

	n := 1 + g.N(3)
	one := -1 // the only one that is not harmless
	if g.N(3) == 0 {
		n = 1 + g.N(12)
		one = g.N(n)
	}
	var uris []string
	bad := false
	for i := 0; i < n; i++ {
		u := e.hostileURI()
		if one < 0 && g.Chance(1, 5) || one >= 0 && i != one {
			u = inside[g.N(len(inside))]
		}
		bad = bad || leaves(u)
		uris = append(uris, u)
	}
	if bad {
		e.Nontrivial()
	}
	d := &gltf.Document{}
	d.Asset.Version = "2.0"
	for i, u := range uris {
		b := &gltf.Buffer{URI: u, Data: []byte(fmt.Sprintf("data of buffer %d ..............", i))}
		b.ByteLength = len(b.Data)
		d.Buffers = append(d.Buffers, b)
	}
	for i, k := 0, g.N(2); i < k; i++ {
		d.Images = append(d.Images, &gltf.Image{URI: e.hostileURI()})
	}
	binary := g.N(2) == 0
	if binary && g.N(2) == 0 {
		d.Buffers = append([]*gltf.Buffer{{ByteLength: 4, Data: []byte("bin!")}}, d.Buffers...)
	}
	before := e.Disk.Snapshot()
	failAt := -1
	if e.F.Chance(1, 4) {
		failAt = e.F.N(6)
	}
	ferr := openErrs[e.F.N(len(openErrs))]
	e.Disk.Hook = func(op simos.Op) simos.Action {
		if op.Seq == failAt && op.Path != dir+"/"+base {
			e.S.Fault("file "+op.Kind+" error", op.Path, ferr.Error())
			return simos.Action{Err: ferr}
		}
		return simos.Action{}
	}
	var names []string
	how := []string{"decode FS", "decode ReadFileFS", "Open", "decode no FS", "encode FS", "Save", "encode no FS"}[g.N(7)]
	var err error
	main := ""
	var res *gltf.Document
	// first runs f while all URIs are harmless, as in an earlier life of the
	// document, if chance will have it.
	first := func(f func()) {
		if !g.Chance(1, 3) {
			return
		}
		e.S.Event("the same with harmless URIs first")
		was := make([]string, len(d.Buffers))
		for i, b := range d.Buffers {
			if was[i] = b.URI; b.URI != "" {
				b.URI = fmt.Sprintf("b%d.bin", i)
			}
		}
		f()
		for i, b := range d.Buffers {
			b.URI = was[i]
		}
	}
	if strings.HasPrefix(how, "dec") || how == "Open" {
		style := ref.DrawStyle(g)
		build := func() []byte {
			tree := ref.Tree(d, func(i int, b *gltf.Buffer) (string, bool) { return b.URI, b.URI != "" })
			js := style.Render(tree)
			if !binary {
				return js
			}
			for len(js)%4 != 0 {
				js = append(js, ' ')
			}
			ch := []ref.Chunk{{Type: ref.ChunkJSON, Data: js}}
			if d.Buffers[0].URI == "" {
				ch = append(ch, ref.Chunk{Type: ref.ChunkBIN, Data: d.Buffers[0].Data})
			}
			return ref.BuildGLB(ch...)
		}
		asset := build()
		switch how {
		case "decode FS":
			f := e.NewFS(dir)
			first(func() { e.Decode(e.NewReader(build(), nil), f) })
			res, err = e.Decode(e.NewReader(asset, nil), f)
			names = f.Names
		case "decode ReadFileFS":
			f := e.NewFS(dir)
			res, err = e.Decode(e.NewReader(asset, nil), e.dressFS(f))
			names = f.Names
		case "Open":
			main = dir + "/" + base
			e.Disk.Put(main, asset)
			before[main] = string(asset)
			spelled := spell()
			first(func() {
				e.Disk.Put(main, build())
				e.DoBounded("Open", opLimit, func() { gltf.Open(spelled) })
			})
			e.Disk.Put(main, asset)
			e.DoBounded("Open", opLimit, func() { res, err = gltf.Open(spelled) })
		default:
			res, err = e.Decode(e.NewReader(asset, nil), nil)
		}
	} else {
		st := DrawSetting(g)
		st.Binary = binary
		w := e.NewWriter()
		switch how {
		case "encode FS":
			f := e.NewFS(dir)
			var enc *gltf.Encoder
			first(func() {
				enc = st.NewEncoder(w, f)
				e.DoBounded("Encode", opLimit, func() { enc.Encode(d) })
			})
			if enc != nil {
				e.DoBounded("Encode", opLimit, func() { err = enc.Encode(d) })
			} else {
				err = e.Encode(d, st, w, f)
			}
			names = f.Names
		case "Save":
			main = dir + "/" + base
			spelled := spell()
			save := func() {
				e.DoBounded("Save", opLimit, func() {
					if binary {
						err = gltf.SaveBinary(d, spelled)
					} else {
						err = gltf.Save(d, spelled)
					}
				})
			}
			first(save)
			save()
		default:
			err = e.Encode(d, st, w, nil)
		}
	}
	e.Disk.Hook = nil
	e.S.Event(how, fmt.Sprintf("%q", uris), fmt.Sprintf("%q", names), errText(err))
	for _, nm := range names {
		if !filepath.IsLocal(nm) {
			e.S.Fail("escapes", "%s of URIs %q named %q, which is not inside the directory of the asset", how, uris, nm)
		}
	}
	for _, a := range e.Disk.Accesses {
		if a.Path != dir && !strings.HasPrefix(a.Path, dir+"/") {
			e.S.Fail("escapes", "%s of URIs %q: %s of %s, outside the directory of the asset", how, uris, a.Kind, a.Path)
		}
		if strings.HasSuffix(how, "no FS") {
			e.S.Fail("touches-files", "%s of URIs %q: %s of %s, though there is no file system", how, uris, a.Kind, a.Path)
		}
	}
	after := e.Disk.Snapshot()
	for _, f := range sortedKeys(after) {
		if !strings.HasPrefix(f, dir+"/") && before[f] != after[f] {
			e.S.Fail("escapes", "%s of URIs %q changed %s", how, uris, f)
		}
	}
	if res == nil || err != nil {
		return
	}
	for i, b := range res.Buffers {
		if b == nil || len(b.Data) == 0 {
			continue
		}
		if strings.Contains(string(b.Data), marker[:10]) {
			e.S.Fail("escapes", "%s of URIs %q read a file outside the directory of the asset", how, uris)
		}
		if strings.HasSuffix(how, "no FS") && d.Buffers[i].URI != "" {
			u := d.Buffers[i].URI
			j := strings.Index(u, ",")
			if strings.HasPrefix(u, "data:") && j >= 0 {
				if want, e := base64.StdEncoding.DecodeString(u[j+1:]); e == nil && strings.HasPrefix(string(want), string(b.Data)) {
					continue
				}
			}
			e.S.Fail("touches-files", "%s of URI %q gave %d bytes of data though there is no file system", how, u, len(b.Data))
		}
	}
}
