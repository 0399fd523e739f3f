package props

import (
	"fmt"
	"path"
	"strings"

	"simv/ref"
	"simv/simos"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID: "C04", Runs: 100000, Body: c04,
		Rule: "Each run is a history of 3 to 12 steps on one disk with up to four file names: build, edit, save as glTF or GLB, save with a failing call, save killed at a drawn call followed by a restart, open, open with failing or short reads, re-save of an opened document; in a quarter of the runs symbolic links lead to directories, assets or buffer files. The model maps each name to the content of its last successful save while all bytes it wrote are in place. A run is non-trivial when a file is opened after another step followed its save.",
	})
}

// saved is what the model knows about one file name.
type saved struct {
	want  string
	bytes map[string]string // every file the save wrote
	step  int
	desc  string
}

type c04world struct {
	e     *Env
	docs  []*gltf.Document
	files map[string]*saved
	step  int
	fresh int
	names []string
}

func c04(e *Env) {
	w := &c04world{e: e, files: map[string]*saved{}}
	e.Dirs("/sim/w")
	e.Dirs("/sim/w/sub")
	w.names = append(w.names, c04names...)
	if e.G.N(2) == 0 {
		for i := range w.names {
			if e.G.N(2) == 0 {
				dir := c04dirs[e.G.N(len(c04dirs))]
				w.names[i] = path.Join(dir, c04bases[e.G.N(len(c04bases))])
				e.Dirs(dir)
			}
		}
	}
	linked := e.G.Chance(1, 4)
	if linked {
		w.link()
	}
	e.Disk.Cwd = []string{"/sim", "/sim/w", "/", path.Dir(w.names[e.G.N(len(w.names))])}[e.G.N(4)]
	e.Disk.Put("/sim/w/other.txt", []byte("untouched"))
	e.Disk.Put("/sim/other.bin", []byte("untouched too"))
	w.docs = append(w.docs, w.build())
	for n := 3 + e.G.N(10); w.step < n; w.step++ {
		switch e.G.N(9) {
		case 0:
			if len(w.docs) < 4 {
				w.docs = append(w.docs, w.build())
				continue
			}
			w.save(0)
		case 1, 2:
			w.edit(w.docs[e.G.N(len(w.docs))])
		case 3, 4:
			w.save(0)
		case 5:
			w.save(1)
		case 6:
			w.save(2)
		case 7:
			w.open(w.name(), false)
		case 8:
			w.open(w.name(), true)
		}
	}
	for _, f := range sortedKeys(w.files) {
		w.open(f, false)
	}
}

var c04names = []string{"/sim/w/m0.gltf", "/sim/w/m1.glb", "/sim/w/sub/m2.gltf", "/sim/w/no extension"}

// Names no special meaning may be read into.
var c04dirs = []string{"/", "/sim", "/sim/w", "/sim/w/sub", "/sim/w/s p", "/sim/w/%41", "/sim/w/#d", "/sim/w/d?q=1", "/sim/w/日本/ü", "/sim/w/..x", "/sim/w/.h", "/sim/w/c:", "/sim/w/a+b", "/sim/w/[x]*", "/sim/w/w/w", "/sim/w/ends.gltf"}
var c04bases = []string{"m0.gltf", "M.GLTF", "x.GLB", "%41.gltf", "%2e%2e", "a b.glb", "#.gltf", "q?.gltf", "ü日本.gltf", ".gltf", "..gltf", "...", "noext", "n.bin", "x.gltf.glb", "data:x.gltf", "a:b.glb", "+.gltf", "[a]*.gltf", "ends."}

// link puts symbolic links where names lead through: to a directory, to an
// asset, to where buffers are stored.
func (w *c04world) link() {
	e := w.e
	g := e.G
	e.Dirs("/sim/t")
	e.Dirs("/far/store")
	for i, n := range w.names {
		dir, base := path.Dir(n), path.Base(n)
		switch g.N(5) {
		case 0: // the directory
			e.Disk.Symlink([]string{"/sim/t", "../t", "/far/store"}[g.N(3)], fmt.Sprint("/sim/w/lnk", i))
			w.names[i] = fmt.Sprint("/sim/w/lnk", i, "/", base)
		case 1: // the asset, which may not exist yet
			if g.N(2) == 0 {
				e.Disk.Put("/sim/t/"+base, []byte("{}"))
			}
			e.Disk.Symlink([]string{"/sim/t/" + base, "/far/store/model" + fmt.Sprint(i)}[g.N(2)], n)
		case 2: // a buffer
			e.Disk.Symlink("/far/store/shared.bin", fmt.Sprintf("%s/e%d.bin", dir, g.N(5)))
		case 3: // the directory of the directory
			e.Disk.Symlink(dir, fmt.Sprint("/far/", i))
			e.Disk.Symlink("/far", "/sim/t/up")
			w.names[i] = fmt.Sprint("/sim/t/up/", i, "/", base)
		}
	}
	e.S.Event("links", strings.Join(w.names, " "))
}

// lead reports whether a symbolic link is on the way to p.
func (w *c04world) lead(p string) bool { return w.e.Disk.Real(p) != p }

func (w *c04world) name() string { return w.names[w.e.G.N(len(w.names))] }

// spell gives a path the way a caller may write it.
func (w *c04world) spell(p string) string {
	e := w.e
	rel := ""
	if e.Disk.Cwd == "/" {
		rel = p[1:]
	} else if strings.HasPrefix(p, e.Disk.Cwd+"/") {
		rel = p[len(e.Disk.Cwd)+1:]
	}
	switch e.G.N(5) {
	case 4:
		if w.lead(path.Dir(p)) {
			break // the directory above is not the one the name says
		}
		return path.Dir(p) + "/../" + path.Base(path.Dir(p)) + "/./" + path.Base(p)
	case 1:
		return p
	case 2:
		if rel != "" {
			return "./" + rel
		}
	case 3:
		return path.Dir(p) + "//" + path.Base(p)
	}
	if rel != "" {
		return rel
	}
	return p
}

func (w *c04world) build() *gltf.Document {
	g := w.e.NewGen()
	g.NoExt = w.e.G.N(2) == 0
	g.ExternalDirs = []string{"", "", "sub"}
	if w.e.G.Chance(1, 10) {
		g.MaxData = 9000
	}
	d := g.Doc()
	g.Buffers(d)
	return d
}

// edit changes a document the way a program would.
func (w *c04world) edit(d *gltf.Document) {
	g := w.e.G
	gen := w.e.NewGen()
	gen.NoExt = true
	w.e.S.Event("edit")
	for i, n := 0, 1+g.N(3); i < n; i++ {
		var b *gltf.Buffer
		if len(d.Buffers) > 0 {
			b = d.Buffers[g.N(len(d.Buffers))]
		}
		switch k := g.N(11); {
		case k > 8:
			w.e.S.Event("tweak", w.e.tweak(d))
		case k == 0:
			d.Asset.Generator = fmt.Sprint("edit ", g.N(1000))
		case k == 1:
			d.Nodes = append(d.Nodes, gen.Node())
		case k == 2 && len(d.Nodes) > 0:
			d.Nodes = d.Nodes[:g.N(len(d.Nodes))]
		case k == 3 || b == nil:
			x := &gltf.Buffer{Data: gen.Data()}
			x.ByteLength = len(x.Data)
			w.kind(d, x)
			d.Buffers = append(d.Buffers, x)
		case k == 4: // in place
			b.Data[g.N(len(b.Data))] ^= byte(1 + g.N(255))
		case k == 5: // longer
			b.Data = append(b.Data, gen.Data()...)
			b.ByteLength = len(b.Data)
		case k == 6: // shorter
			b.Data = b.Data[:1+g.N(len(b.Data))]
			b.ByteLength = len(b.Data)
		case k == 7:
			w.kind(d, b)
		case k == 8:
			i := g.N(len(d.Buffers))
			d.Buffers = append(d.Buffers[:i:i], d.Buffers[i+1:]...)
		}
	}
}

// kind changes how a buffer is stored.
func (w *c04world) kind(d *gltf.Document, b *gltf.Buffer) {
	switch w.e.G.N(3) {
	case 0:
		b.URI = ""
	case 1:
		b.EmbeddedResource()
	case 2:
		w.fresh++
		b.URI = fmt.Sprintf("e%d.bin", w.fresh%5)
		for _, o := range d.Buffers {
			if o != b && normURI(o.URI) == b.URI {
				b.URI = ""
			}
		}
	}
}

// parts lists the files a save of d as name writes.
func parts(d *gltf.Document, name string) map[string]bool {
	m := map[string]bool{name: true}
	for _, b := range d.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
			m[path.Join(path.Dir(name), normURI(b.URI))] = true
		}
	}
	return m
}

// untouched reports a file that changed though it may not.
func untouched(before, after map[string]string, may map[string]bool) string {
	for _, f := range sortedKeys(before) {
		if may[f] {
			continue
		}
		if c, ok := after[f]; !ok {
			return f + " was removed"
		} else if c != before[f] {
			return f + " was changed"
		}
	}
	for _, f := range sortedKeys(after) {
		if _, ok := before[f]; !ok && !may[f] {
			return f + " was created"
		}
	}
	return ""
}

// save saves a document; mode 1: a call fails, 2: the process dies.
func (w *c04world) save(mode int) {
	e := w.e
	d := w.docs[e.G.N(len(w.docs))]
	name := w.name()
	for _, b := range d.Buffers {
		if strings.HasPrefix(normURI(b.URI), "sub/") {
			e.Disk.MkdirAll(path.Join(path.Dir(name), "sub"))
		}
	}
	for _, b := range d.Buffers {
		if b.URI != "" && !b.IsEmbeddedResource() && e.Disk.Real(path.Join(path.Dir(name), normURI(b.URI))) == e.Disk.Real(name) {
			return // no valid request: one file cannot be both
		}
	}
	binary := e.G.N(2) == 0
	may := parts(d, name)
	files := map[string]bool{}
	for _, p := range sortedKeys(may) {
		files[e.Disk.Real(p)] = true
	}
	if len(files) < len(may) {
		return // one file cannot be two of them
	}
	for _, p := range sortedKeys(files) {
		may[p] = true
	}
	fired := false
	if mode > 0 && e.G.Chance(1, 4) {
		// Somebody else's folder is in the way.
		names := sortedKeys(may)
		p := names[e.G.N(len(names))]
		if _, ok := e.Disk.Get(p); !ok {
			e.S.Fault("folder in the way", p)
			e.Disk.MkdirAll(p)
			e.Disk.Put(p+"/theirs.txt", []byte("untouched"))
			if e.G.N(2) == 0 {
				e.Disk.Put(p+"/m0.gltf", []byte("{}"))
			}
		}
	}
	for _, p := range sortedKeys(may) {
		if fi, err := e.Disk.Stat(p); err == nil && fi.IsDir() {
			fired = true
		}
	}
	before := e.Disk.Snapshot()
	if mode > 0 {
		at, part := e.Disk.Ops+e.F.N(4+3*len(files)), e.F.N(300)
		ferr := DrawErr(e.F)
		e.Disk.Hook = func(op simos.Op) simos.Action {
			if op.Seq != at {
				return simos.Action{}
			}
			fired = true
			if mode == 2 {
				e.S.Fault("process killed in "+op.Kind, op.Path, part)
				return simos.Action{Crash: true, Partial: part}
			}
			e.S.Fault("file "+op.Kind+" error", op.Path, part, ferr.Error())
			return simos.Action{Err: ferr, Partial: part}
		}
	}
	var err error
	spelled := w.spell(name)
	crashed := e.S.TryCrash(func() {
		e.DoBounded("Save", opLimit, func() {
			if binary {
				err = gltf.SaveBinary(d, spelled)
			} else {
				err = gltf.Save(d, spelled)
			}
		})
	})
	e.Disk.Hook = nil
	if crashed {
		e.Disk.Restart()
	}
	after := e.Disk.Snapshot()
	what := fmt.Sprintf("saving %s (binary=%v)", name, binary)
	e.S.Event("save", name, binary, crashed, errText(err))
	if m := untouched(before, after, may); m != "" {
		e.S.Fail("touched-other-file", "%s: %s", what, m)
	}
	if crashed || err != nil {
		if err != nil && !crashed && !fired {
			e.S.Fail("save-failed", "%s failed without any fault: %v", what, err)
		}
		return
	}
	s := &saved{want: Saved(d, binary), bytes: map[string]string{}, step: w.step, desc: what}
	for f := range may {
		if c, ok := after[f]; ok {
			s.bytes[f] = c
		}
	}
	w.files[name] = s
}

// open opens a file and compares with the model.
func (w *c04world) open(name string, faulty bool) {
	e := w.e
	s := w.files[name]
	before := e.Disk.Snapshot()
	known := s != nil
	if known {
		for f, c := range s.bytes {
			known = known && before[f] == c
		}
	}
	fired := false
	if faulty {
		at := e.Disk.Ops + e.F.N(10)
		ferr, part := DrawErr(e.F), e.F.N(300)
		deliver := e.deliverHook(map[string]*Plan{}, 0)
		e.Disk.Hook = func(op simos.Op) simos.Action {
			if op.Seq == at {
				fired = true
				e.S.Fault("file "+op.Kind+" error", op.Path, part, ferr.Error())
				return simos.Action{Err: ferr, Partial: part}
			}
			return deliver(op)
		}
	}
	first := len(e.Disk.Accesses)
	var d *gltf.Document
	var err error
	spelled := w.spell(name)
	e.DoBounded("Open", opLimit, func() { d, err = gltf.Open(spelled) })
	e.Disk.Hook = nil
	e.S.Event("open", name, known, errText(err))
	if m := untouched(before, e.Disk.Snapshot(), nil); m != "" {
		e.S.Fail("touched-other-file", "opening %s: %s", name, m)
	}
	if !known {
		if err == nil {
			w.keep(d)
		}
		return
	}
	if s.step < w.step {
		e.Nontrivial()
	}
	for _, a := range e.Disk.Accesses[first:] {
		if a.Kind != "stat" && s.bytes[a.Path] == "" {
			e.S.Fail("touched-other-file", "opening %s: %s of %s, which is not part of it", name, a.Kind, a.Path)
		}
	}
	if err != nil {
		if !fired {
			e.S.Fail("lost", "%s succeeded in step %d, but opening it fails: %v", s.desc, s.step, err)
		}
		return
	}
	if got := Content(d); got != s.want {
		e.S.Fail("wrong-content", "%s succeeded in step %d, but opening it gives something else: %s", s.desc, s.step, ref.Diff(got, s.want))
	}
	w.keep(d)
}

// keep adds an opened document to those the program works with.
func (w *c04world) keep(d *gltf.Document) {
	if d == nil {
		return
	}
	for _, b := range d.Buffers { // only valid documents are saved
		if b == nil || len(b.Data) != b.ByteLength || b.ByteLength == 0 {
			return
		}
	}
	seen := map[string]bool{}
	for _, b := range d.Buffers {
		u := normURI(b.URI)
		if b.URI != "" && !b.IsEmbeddedResource() {
			if seen[u] || strings.HasPrefix(u, "..") && !strings.HasPrefix(u, "..h") {
				return
			}
			seen[u] = true
		}
	}
	if len(w.docs) < 6 {
		w.docs = append(w.docs, d)
	} else {
		w.docs[w.e.G.N(len(w.docs))] = d
	}
}
