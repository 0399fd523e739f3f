// Command instrument prepares a build of the code under test for the
// simulator, from the current working tree and without touching it: it writes
// instrumented copies of its source files and an overlay for the go command.
//
//   - before every statement a scheduling point (simrt.Y) is inserted;
//   - os, sync, path/filepath, io/ioutil and math/rand are replaced by
//     simulated ones;
//   - the clock is the simulation's;
//   - go statements start simulated tasks;
//   - ranges over maps take their order from the simulation.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	ImportMap  map[string]string
	Module     *struct{ Path string }
}

type edit struct {
	at, end int // replace [at,end) by text
	text    string
	order   int
}

var replaced = map[string][2]string{
	"os":            {"os", "simv/simos"},
	"sync":          {"sync", "simv/simsync"},
	"path/filepath": {"filepath", "simv/simfilepath"},
	"io/ioutil":     {"ioutil", "simv/simioutil"},
	"math/rand":     {"rand", "simv/simrand"},
}

func main() {
	module := flag.String("module", "github.com/qmuntal/gltf", "module under test")
	out := flag.String("out", "", "output directory")
	race := flag.Bool("race", false, "the build is for the race detector")
	flag.Parse()
	if err := run(*module, *out, *race, flag.Args()); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func run(module, out string, race bool, patterns []string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,ImportMap,Module"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var under []*pkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && (p.Module.Path == module) {
			under = append(under, p)
		}
	}
	sort.Slice(under, func(i, j int) bool { return under[i].ImportPath < under[j].ImportPath })
	overlay := map[string]string{}
	sites := []string{"?"}
	for _, p := range under {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				return err
			}
			files, names, srcs = append(files, af), append(names, name), append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(e)
			}),
			Error: func(error) {},
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fmt.Fprintln(os.Stderr, "instrument: type check:", err)
		}
		for i, af := range files {
			res := instrument(fset, af, srcs[i], info, &sites, strings.TrimPrefix(names[i], "/"))
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			overlay[names[i]] = dst
		}
	}
	if len(overlay) == 0 {
		return fmt.Errorf("no files of %s found", module)
	}
	if race {
		if err := noPool(out, overlay); err != nil {
			return err
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		return err
	}
	b, _ = json.Marshal(sites)
	return os.WriteFile(filepath.Join(out, "sites.json"), b, 0o644)
}

// noPool turns pooling off in the standard library: under the race detector a
// pool keeps an object or drops it at random, and what it keeps orders the
// tasks that pass the object on.
func noPool(out string, overlay map[string]string) error {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	name := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
	src, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	const drop = "runtime_randn(4) == 0"
	if !bytes.Contains(src, []byte(drop)) {
		fmt.Fprintln(os.Stderr, "instrument: sync.Pool is not the expected one and stays as it is")
		return nil
	}
	dst := filepath.Join(out, "sync__pool.go")
	overlay[name] = dst
	return os.WriteFile(dst, bytes.Replace(src, []byte(drop), []byte("runtime_randn(4) < 4"), 1), 0o644)
}

func instrument(fset *token.FileSet, af *ast.File, src []byte, info *types.Info, sites *[]string, name string) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, text string) {
		edits = append(edits, edit{at, end, text, len(edits)})
	}
	y := func(p token.Pos) string {
		*sites = append(*sites, fmt.Sprintf("%s:%d", name, fset.Position(p).Line))
		return "zzsimrt.Y(" + strconv.Itoa(len(*sites)-1) + "); "
	}
	add(off(af.Name.End()), off(af.Name.End()), `; import zzsimrt "simv/simrt"; var _ = zzsimrt.Y`)
	// The import must precede other declarations; a var declaration may not
	// come before further imports, so the use is appended at the end instead.
	edits[0].text = `; import zzsimrt "simv/simrt"`
	add(len(src), len(src), "\nvar _ = zzsimrt.Y\n")
	// Package-level variables are made known to the simulator.
	var vars []string
	for _, d := range af.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars = append(vars, "zzsimrt.Global(&"+n.Name+")")
					}
				}
			}
		}
	}
	if len(vars) > 0 {
		add(len(src), len(src), "\nfunc init() { "+strings.Join(vars, "; ")+" }\n")
	}
	clock := ""  // name of package time
	ioName := "" // name of package io
	for _, im := range af.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "io" {
			ioName = "io"
			if im.Name != nil {
				ioName = im.Name.Name
			}
			if ioName != "." && ioName != "_" {
				add(len(src), len(src), "\nvar _ = "+ioName+".EOF\n")
			}
		}
		if path == "time" {
			clock = "time"
			if im.Name != nil {
				clock = im.Name.Name
			}
			if clock != "." && clock != "_" {
				add(len(src), len(src), "\nvar _ = "+clock+".Nanosecond\n")
			}
		}
		r, ok := replaced[path]
		if !ok {
			continue
		}
		text := strconv.Quote(r[1])
		if im.Name == nil {
			text = r[0] + " " + text
		}
		add(off(im.Path.Pos()), off(im.Path.End()), text)
	}
	stmts := func(list []ast.Stmt) {
		for _, st := range list {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(st.Pos()), off(st.Pos()), y(st.Pos()))
		}
	}
	comm := map[ast.Node]bool{} // operations of select cases
	pair := map[ast.Node]bool{} // receives with two results
	unparen := func(e ast.Expr) ast.Expr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				return e
			}
			e = p.X
		}
	}
	two := func(e ast.Expr) {
		if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			pair[u] = true
		}
	}
	selects := map[*ast.SelectStmt]bool{}
	selectStmt := func(n *ast.SelectStmt, at token.Pos) {
		if selects[n] {
			return
		}
		selects[n] = true
		id := strconv.Itoa(len(selects))
		again := "if zzsel" + id + ".Again() { goto zzselect" + id + " }; "
		i, def := 0, false
		for _, cl := range n.Body.List {
			c := cl.(*ast.CommClause)
			var recv ast.Expr
			switch s := c.Comm.(type) {
			case nil:
				def = true
				add(off(c.Colon)+1, off(c.Colon)+1, " "+again)
				continue
			case *ast.SendStmt:
				comm[s] = true
				add(off(s.Chan.Pos()), off(s.Chan.Pos()), "zzsimrt.SelSend(zzsel"+id+", "+strconv.Itoa(i)+", ")
				add(off(s.Chan.End()), off(s.Chan.End()), ")")
			case *ast.ExprStmt:
				recv = s.X
			case *ast.AssignStmt:
				recv = s.Rhs[0]
			}
			if recv != nil {
				u := unparen(recv).(*ast.UnaryExpr)
				comm[u] = true
				add(off(u.X.Pos()), off(u.X.Pos()), "zzsimrt.SelRecv(zzsel"+id+", "+strconv.Itoa(i)+", ")
				add(off(u.X.End()), off(u.X.End()), ")")
			}
			i++
		}
		if !def {
			add(off(n.Body.Rbrace), off(n.Body.Rbrace), " default: zzsel"+id+".Again(); goto zzselect"+id+"\n")
		}
		add(off(at), off(at), "zzsel"+id+" := zzsimrt.NewSel("+strconv.FormatBool(def)+"); zzselect"+id+": ; ")
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && clock != "" && x.Name == clock && x.Obj == nil {
				switch n.Sel.Name {
				case "Now", "Sleep", "Since", "Until", "After":
					add(off(n.Pos()), off(n.End()), "zzsimrt.Time"+n.Sel.Name)
				}
			}
			if x, ok := n.X.(*ast.Ident); ok && ioName != "" && x.Name == ioName && x.Obj == nil {
				switch n.Sel.Name {
				case "Pipe", "PipeReader", "PipeWriter":
					add(off(n.Pos()), off(n.End()), "zzsimrt."+n.Sel.Name)
				}
			}
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
				selectStmt(sel, n.Pos())
			}
		case *ast.SelectStmt:
			selectStmt(n, n.Pos())
		case *ast.SendStmt:
			if !comm[n] {
				add(off(n.Pos()), off(n.Pos()), "zzsimrt.SendTo(")
				add(off(n.Arrow), off(n.Arrow)+2, ")(")
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two(n.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two(n.Values[0])
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				f := "zzsimrt.Recv("
				if pair[n] {
					f = "zzsimrt.Recv2("
				}
				add(off(n.OpPos), off(n.OpPos)+2, f)
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					add(off(id.Pos()), off(id.End()), "zzsimrt.Close")
				}
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " "+y(n.Body.Lbrace))
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " "+y(n.Body.Lbrace))
			}
			tv, ok := info.Types[n.X]
			if !ok {
				break
			}
			if _, isChan := tv.Type.Underlying().(*types.Chan); isChan {
				add(off(n.For)+3, off(n.X.Pos()), " zzn := zzsimrt.RangeChan(")
				add(off(n.X.End()), off(n.X.End()), "); zzn.Next();")
				if n.Key != nil {
					tok := " = "
					if n.Tok == token.DEFINE {
						tok = " := "
					}
					add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " "+string(src[off(n.Key.Pos()):off(n.Key.End())])+tok+"zzn.V; ")
				}
				break
			}
			if n.Key == nil {
				break
			}
			if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
				break
			}
			if hasFuncLit(n.X) {
				break
			}
			text := func(e ast.Expr) string {
				if e == nil {
					return "_"
				}
				return string(src[off(e.Pos()):off(e.End())])
			}
			k, v, x := text(n.Key), text(n.Value), text(n.X)
			if k == "_" && v == "_" {
				break
			}
			decl := "_, _"
			if n.Tok == token.DEFINE {
				decl = k + ", " + v
			}
			add(off(n.Key.Pos()), off(n.X.End()), decl+", zzi, zzes := zzsimrt.Range4("+x+"); zzi < len(zzes); zzi++")
			add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " if !zzes[zzi].Live() { continue }; "+k+", "+v+" = zzes[zzi].Key, zzes[zzi].Cur(); ")
		case *ast.GoStmt:
			c := n.Call
			if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				add(off(n.Go), off(n.Go)+2, "zzsimrt.Go(")
				add(off(c.Lparen), off(c.Rparen)+1, ")")
				break
			}
			// evaluate function and arguments now, call later
			names := []string{"zzf"}
			call := "zzf("
			for i := range c.Args {
				a := "zza" + strconv.Itoa(i)
				names = append(names, a)
				if i > 0 {
					call += ", "
				}
				call += a
			}
			if c.Ellipsis.IsValid() {
				call += "..."
			}
			call += ")"
			add(off(n.Go), off(n.Go)+2, "zzsimrt.Go(func() func() { "+strings.Join(names, ", ")+" := ")
			if len(c.Args) > 0 {
				add(off(c.Lparen), off(c.Lparen)+1, ", ")
			} else {
				add(off(c.Lparen), off(c.Lparen)+1, "")
			}
			if c.Ellipsis.IsValid() {
				add(off(c.Ellipsis), off(c.Ellipsis)+3, "")
			}
			add(off(c.Rparen), off(c.Rparen)+1, "; return func() { "+call+" } }())")
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].order < edits[j].order
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.at < pos { // inside a replaced range
			continue
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return b.Bytes()
}

func hasFuncLit(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}
