// instrument writes copies of the repository's current sources in which tasks, locks, channels and clocks go through
// simrt, and an overlay file that puts them in place of the originals. Line numbers stay as they are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var pkgs = []string{".", "api", "blockissuer", "blockissuer/pow", "builder", "merklehasher", "nodeclient", "vm", "vm/nova", "wallet", "bech32"}

type edit struct {
	at, end int // bytes [at,end) are replaced
	text    string
	seq     int
}

type file struct {
	fset  *token.FileSet
	f     *ast.File
	src   []byte
	name  string
	edits []edit
	info  *types.Info
	n     int
	names map[string]string // import path -> local name
	used  bool
	skip  map[ast.Node]bool
}

func (x *file) off(p token.Pos) int { return x.fset.Position(p).Offset }
func (x *file) text(n ast.Node) string {
	return string(x.src[x.off(n.Pos()):x.off(n.End())])
}
func (x *file) ins(p token.Pos, t string) { x.rep(p, p, t) }
func (x *file) rep(a, b token.Pos, t string) {
	x.used = true
	x.edits = append(x.edits, edit{x.off(a), x.off(b), t, len(x.edits)})
}

var mapsOnly bool

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output folder")
	flag.BoolVar(&mapsOnly, "maps", false, "only decide the order of maps")
	flag.Parse()
	over := map[string]string{}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	total := 0
	own := &sources{repo: *repo, pkgs: map[string]*types.Package{}}
	for _, p := range pkgs {
		dir := filepath.Join(*repo, p)
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		var files []*file
		var asts []*ast.File
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			full := filepath.Join(dir, n)
			src, err := os.ReadFile(full)
			if err != nil {
				fatal(err)
			}
			f, err := parser.ParseFile(fset, full, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			if ignored(f) {
				continue
			}
			files = append(files, &file{fset: fset, f: f, src: src, name: full, skip: map[ast.Node]bool{}, names: map[string]string{}})
			asts = append(asts, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: own, Error: func(error) {}, FakeImportC: true}
		_, _ = conf.Check("p", fset, asts, info)
		for _, x := range files {
			x.info = info
			res := x.rewrite()
			if res == nil {
				continue
			}
			if _, err := parser.ParseFile(token.NewFileSet(), x.name, res, 0); err != nil {
				fmt.Fprintf(os.Stderr, "left alone, rewriting failed: %v\n", err)
				continue
			}
			to := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(x.name, *repo+"/"), "/", "__"))
			if err := os.WriteFile(to, res, 0o644); err != nil {
				fatal(err)
			}
			over[x.name] = to
			total += len(x.edits)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%d files, %d edits\n", len(over), total)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

// sources imports the repository's own packages; types of others stay unknown.
type sources struct {
	repo string
	pkgs map[string]*types.Package
}

const module = "github.com/iotaledger/iota.go/v4"

func (s *sources) Import(path string) (*types.Package, error) {
	if p, ok := s.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("not loaded")
		}
		return p, nil
	}
	s.pkgs[path] = nil
	dir, ok := strings.CutPrefix(path, module)
	if !ok {
		return nil, fmt.Errorf("not loaded")
	}
	dir = filepath.Join(s.repo, dir)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	var asts []*ast.File
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if !ignored(f) {
			asts = append(asts, f)
		}
	}
	conf := types.Config{Importer: s, Error: func(error) {}, FakeImportC: true, IgnoreFuncBodies: true}
	p, _ := conf.Check(path, fset, asts, nil)
	if p == nil {
		return nil, fmt.Errorf("not loaded")
	}
	p.MarkComplete()
	s.pkgs[path] = p
	return p, nil
}

func ignored(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				return true
			}
		}
	}
	return false
}

func (x *file) site(p token.Pos) string {
	ps := x.fset.Position(p)
	return strconv.Quote(filepath.Base(ps.Filename) + ":" + strconv.Itoa(ps.Line))
}

var syncTypes = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true}

func (x *file) rewrite() []byte {
	for _, im := range x.f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if path == "github.com/eclipse/paho.mqtt.golang" {
			name = "mqtt"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		x.names[path] = name
	}
	keep := map[string]string{}
	imports := map[string]bool{}
	sel := func(s *ast.SelectorExpr) {
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return
		}
		switch id.Name {
		case x.names["sync"]:
			if syncTypes[s.Sel.Name] {
				x.rep(s.Pos(), s.End(), "simrt."+s.Sel.Name)
				keep["sync"] = "var _ *" + id.Name + ".Mutex"
			}
		case x.names["time"]:
			if s.Sel.Name == "Now" || s.Sel.Name == "Sleep" {
				x.rep(s.Pos(), s.End(), "simrt."+s.Sel.Name)
				keep["time"] = "var _ *" + id.Name + ".Time"
			}
		case x.names["github.com/eclipse/paho.mqtt.golang"]:
			if s.Sel.Name == "NewClient" {
				x.rep(s.Pos(), s.End(), "simmqtt.NewClient")
				imports["simmqtt"] = true
				keep["mqtt"] = "var _ *" + id.Name + ".ClientOptions"
			}
		}
	}
	for _, d := range x.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			if x.skip[n] {
				return false
			}
			if mapsOnly {
				if v, ok := n.(*ast.RangeStmt); ok {
					x.rng(v)
				}
				return true
			}
			switch v := n.(type) {
			case *ast.SelectorExpr:
				sel(v)
			case *ast.BlockStmt:
				x.list(v.List)
				// nothing in it: still a point at which others go on
			case *ast.CaseClause:
				x.list(v.Body)
			case *ast.CommClause:
				x.list(v.Body)
			case *ast.ForStmt:
				if len(v.Body.List) == 0 {
					x.ins(v.Body.Lbrace+1, "simrt.Y("+x.site(v.Pos())+");")
				}
			case *ast.RangeStmt:
				x.rng(v)
			case *ast.GoStmt:
				x.gostmt(v)
			case *ast.SendStmt:
				x.ins(v.Chan.Pos(), "simrt.To(")
				x.rep(v.Chan.End(), v.Value.Pos(), ").Send(")
				x.ins(v.End(), ")")
			case *ast.UnaryExpr:
				if v.Op == token.ARROW {
					x.rep(v.Pos(), v.X.Pos(), "simrt.Recv(")
					x.ins(v.End(), ")")
				}
			case *ast.AssignStmt:
				if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
					x.recv2(v.Rhs[0])
				}
			case *ast.ValueSpec:
				if len(v.Names) == 2 && len(v.Values) == 1 {
					x.recv2(v.Values[0])
				}
			case *ast.CallExpr:
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "close" && len(v.Args) == 1 && id.Obj == nil {
					x.rep(id.Pos(), id.End(), "simrt.Close")
				}
			}
			return true
		})
	}
	if len(x.edits) == 0 {
		return nil
	}
	imp := "; import simrt \"verif.local/sim/simrt\""
	if imports["simmqtt"] {
		imp += "; import \"verif.local/sim/simrt/simmqtt\""
	}
	x.ins(x.f.Name.End(), imp)
	sort.SliceStable(x.edits, func(i, j int) bool {
		a, b := x.edits[i], x.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// insertions come before replacements that start here
		if (a.at == a.end) != (b.at == b.end) {
			return a.at == a.end
		}
		return a.seq < b.seq
	})
	var out []byte
	pos := 0
	for _, e := range x.edits {
		if e.at < pos {
			continue // inside of a part that was replaced
		}
		out = append(out, x.src[pos:e.at]...)
		out = append(out, e.text...)
		pos = e.end
	}
	out = append(out, x.src[pos:]...)
	out = append(out, "\nvar _ = simrt.Y\n"...)
	ks := make([]string, 0, len(keep))
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, keep[k]+"\n"...)
	}
	return out
}

func (x *file) list(l []ast.Stmt) {
	for _, s := range l {
		if x.skip[s] {
			continue
		}
		switch v := s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt:
			continue
		case *ast.BranchStmt:
			if v.Tok == token.FALLTHROUGH {
				continue
			}
		case *ast.CaseClause, *ast.CommClause: // the list of a switch
			continue
		}
		x.ins(s.Pos(), "simrt.Y("+x.site(s.Pos())+");")
		in := s
		for {
			l, ok := in.(*ast.LabeledStmt)
			if !ok {
				break
			}
			in = l.Stmt
		}
		if sl, ok := in.(*ast.SelectStmt); ok {
			x.sel(sl, s.Pos())
		}
	}
}

// sel turns a select into a switch over what simrt.Select chose.
func (x *file) sel(s *ast.SelectStmt, before token.Pos) {
	x.n++
	head, args, dflt := "", "", "false"
	i := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			dflt = "true"
			continue
		}
		v := fmt.Sprintf("simc%d_%d", x.n, i)
		body := ""
		switch st := cc.Comm.(type) {
		case *ast.SendStmt:
			head += fmt.Sprintf("%s := simrt.Sc(%s).Set(%s);", v, x.text(st.Chan), x.text(st.Value))
		case *ast.ExprStmt:
			head += fmt.Sprintf("%s := simrt.Rc(%s);", v, x.text(arrow(st.X)))
		case *ast.AssignStmt:
			head += fmt.Sprintf("%s := simrt.Rc(%s);", v, x.text(arrow(st.Rhs[0])))
			body = x.text(st.Lhs[0])
			val := v + ".Val"
			if len(st.Lhs) == 2 {
				body += ", " + x.text(st.Lhs[1])
				val += ", " + v + ".Ok"
			}
			body += st.Tok.String() + val + ";"
		}
		x.skip[cc.Comm] = true
		x.rep(cc.Pos(), cc.Colon+1, fmt.Sprintf("case %d: %s", i, body))
		args += ", " + v
		i++
	}
	x.ins(before, head)
	x.rep(s.Pos(), s.Body.Lbrace, "switch simrt.Select("+dflt+args+") ")
}

func arrow(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	return e.(*ast.UnaryExpr).X
}

func (x *file) recv2(e ast.Expr) {
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return
	}
	x.skip[u] = true
	x.rep(u.Pos(), u.X.Pos(), "simrt.Recv2(")
	x.ins(u.End(), ")")
}

func (x *file) rng(r *ast.RangeStmt) {
	tv, ok := x.info.Types[r.X]
	if ok && tv.Type != nil {
		if _, isChan := tv.Type.Underlying().(*types.Chan); isChan && !mapsOnly {
			v, op := "_", ":="
			if r.Key != nil {
				v, op = x.text(r.Key), r.Tok.String()
			}
			x.n++
			okv := fmt.Sprintf("simok%d", x.n)
			h := fmt.Sprintf("for { %s, %s %s simrt.Recv2(%s); if !%s { break };", v, okv, op, x.text(r.X), okv)
			if op == "=" {
				h = fmt.Sprintf("for { simv%d, %s := simrt.Recv2(%s); if !%s { break }; %s = simv%d;", x.n, okv, x.text(r.X), okv, v, x.n)
			}
			x.skip[r.X] = true
			x.rep(r.Pos(), r.Body.Lbrace+1, h)
			return
		}
		if _, isMap := tv.Type.Underlying().(*types.Map); isMap && (r.Key != nil || r.Value != nil) {
			// Go's order is random: simrt decides it
			x.n++
			e := fmt.Sprintf("sime%d", x.n)
			h := fmt.Sprintf("for _, %s := range simrt.Entries(%s) { if !%s.In() { continue };", e, x.text(r.X), e)
			if r.Key != nil && x.text(r.Key) != "_" {
				h += fmt.Sprintf("%s %s %s.K;", x.text(r.Key), r.Tok, e)
			}
			if r.Value != nil && x.text(r.Value) != "_" {
				h += fmt.Sprintf("%s %s %s.V();", x.text(r.Value), r.Tok, e)
			}
			x.skip[r.X] = true
			x.rep(r.Pos(), r.Body.Lbrace+1, h)
			return
		}
	}
	if len(r.Body.List) == 0 && !mapsOnly {
		x.ins(r.Body.Lbrace+1, "simrt.Y("+x.site(r.Pos())+");")
	}
}

func (x *file) gostmt(g *ast.GoStmt) {
	c := g.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		x.rep(g.Pos(), c.Fun.Pos(), "simrt.Go(")
		x.rep(c.Lparen, c.End(), ")")
		return
	}
	x.n++
	head, args := "{", ""
	fn := ""
	if _, ok := c.Fun.(*ast.FuncLit); !ok {
		fn = fmt.Sprintf("simf%d", x.n)
		head += fn + " := " + x.text(c.Fun) + ";"
	}
	for i, a := range c.Args {
		t := x.text(a)
		if bl, ok := a.(*ast.BasicLit); ok {
			t = bl.Value
		} else if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
			t = id.Name
		} else {
			v := fmt.Sprintf("sima%d_%d", x.n, i)
			head += v + " := " + t + ";"
			t = v
		}
		if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
			t += "..."
		}
		if i > 0 {
			args += ", "
		}
		args += t
		x.skip[a] = true
	}
	if fn != "" {
		x.skip[c.Fun] = true
		x.rep(g.Pos(), c.End(), head+"simrt.Go(func() { "+fn+"("+args+") })}")
		return
	}
	x.rep(g.Pos(), c.Fun.Pos(), head+"simrt.Go(func() { ")
	x.rep(c.Lparen, c.End(), "("+args+") })}")
}
