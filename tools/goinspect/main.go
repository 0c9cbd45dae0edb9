// goinspect reads generated Go packages and prints what they declare as JSON.
//
// stdin: a JSON list of directories; stdout: a JSON list of reports (same order).
// It only looks at the program (syntax tree, constant values computed by
// go/types), never at layout, so that formatting does not matter.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

type Field struct {
	Name string `json:"name"`
	Type string `json:"type"`
}

type File struct {
	Name     string   `json:"name"`
	Package  string   `json:"package"`
	Preamble []string `json:"preamble"`
	HasC     bool     `json:"hasC"`
	Imports  []string `json:"imports"`
	Comments []string `json:"comments"`
	Head     []string `json:"head"` // comments before the package clause
	Error    string   `json:"error"`
}

type Const struct {
	Name  string `json:"name"`
	Type  string `json:"type"`
	Expr  string `json:"expr"`
	Value string `json:"value"`
	VKind string `json:"vkind"`
	GoTyp string `json:"gotype"`
	Kind  string `json:"kind"` // const or var
	Doc   string `json:"doc"`
	File  string `json:"file"`
	Group int    `json:"group"`
	Line  int    `json:"line"`
	// identifiers in the expression; bytes of a string value
	Idents []string `json:"idents"`
	Bytes  []int    `json:"bytes"`
}

type Type struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Expr    string   `json:"expr"`
	Fields  []Field  `json:"fields"`
	Results []string `json:"results"`
	Doc     string   `json:"doc"`
	File    string   `json:"file"`
	Line    int      `json:"line"`
	ArrLen  string   `json:"arrlen"`
	Elem    string   `json:"elem"`
}

type Func struct {
	Name    string   `json:"name"`
	Recv    string   `json:"recv"`
	RecvVar string   `json:"recvvar"`
	Params  []Field  `json:"params"`
	Results []string `json:"results"`
	CCalls  []string `json:"ccalls"`
	Doc     string   `json:"doc"`
	File    string   `json:"file"`
	Body    string   `json:"body"`
	Stmts   []string `json:"stmts"`
	First   *Guard   `json:"guard"`
	Line    int      `json:"line"`
}

// Guard describes a leading `if F("name") != nil { return X }`.
type Guard struct {
	Func        string `json:"func"`
	Arg         string `json:"arg"`
	Ret         string `json:"ret"`
	CallsBefore int    `json:"callsBefore"`
}

type Report struct {
	Dir        string            `json:"dir"`
	Files      []File            `json:"files"`
	Consts     []Const           `json:"consts"`
	Types      []Type            `json:"types"`
	Funcs      []Func            `json:"funcs"`
	Raw        map[string]string `json:"raw"`
	TypeErrors []string          `json:"typeErrors"`
}

func str(fset *token.FileSet, n interface{}) string {
	if n == nil {
		return ""
	}
	var b bytes.Buffer
	cfg := printer.Config{Mode: printer.RawFormat}
	if err := cfg.Fprint(&b, fset, n); err != nil {
		return "<" + err.Error() + ">"
	}
	return strings.Join(strings.Fields(b.String()), " ")
}

func fields(fset *token.FileSet, fl *ast.FieldList) []Field {
	out := []Field{}
	if fl == nil {
		return out
	}
	for _, f := range fl.List {
		t := str(fset, f.Type)
		if len(f.Names) == 0 {
			out = append(out, Field{"", t})
		}
		for _, n := range f.Names {
			out = append(out, Field{n.Name, t})
		}
	}
	return out
}

func types_(fs []Field) []string {
	out := []string{}
	for _, f := range fs {
		out = append(out, f.Type)
	}
	return out
}

func docText(cg *ast.CommentGroup) string {
	if cg == nil {
		return ""
	}
	return strings.TrimSpace(cg.Text())
}

type fake struct{ imp types.Importer }

var impMu sync.Mutex

func (f fake) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	impMu.Lock()
	defer impMu.Unlock()
	return nil, fmt.Errorf("no import %s", path)
}

func inspect(dir string) Report {
	rep := Report{Dir: dir, Files: []File{}, Consts: []Const{}, Types: []Type{}, Funcs: []Func{}, Raw: map[string]string{}, TypeErrors: []string{}}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return rep
	}
	fset := token.NewFileSet()
	var files []*ast.File
	names := []string{}
	for _, e := range ents {
		if !e.IsDir() {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	group := 0
	type cref struct {
		id  *ast.Ident
		idx int
	}
	var crefs []cref
	for _, n := range names {
		data, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			continue
		}
		if !strings.HasSuffix(n, ".go") {
			rep.Raw[n] = string(data)
			continue
		}
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), data, parser.ParseComments)
		fr := File{Name: n, Preamble: []string{}, Imports: []string{}, Comments: []string{}, Head: []string{}}
		if err != nil {
			fr.Error = err.Error()
			rep.Files = append(rep.Files, fr)
			continue
		}
		files = append(files, f)
		fr.Package = f.Name.Name
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				fr.Comments = append(fr.Comments, c.Text)
				if c.Pos() < f.Package {
					fr.Head = append(fr.Head, c.Text)
				}
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				group++
				switch d.Tok {
				case token.IMPORT:
					for _, s := range d.Specs {
						is := s.(*ast.ImportSpec)
						p := strings.Trim(is.Path.Value, `"`)
						fr.Imports = append(fr.Imports, p)
						if p == "C" {
							fr.HasC = true
							cg := d.Doc
							if cg == nil {
								cg = is.Doc
							}
							if cg != nil {
								var lines []string
								for _, c := range cg.List {
									t := c.Text
									t = strings.TrimPrefix(strings.TrimPrefix(t, "/*"), "//")
									t = strings.TrimSuffix(t, "*/")
									lines = append(lines, strings.Split(t, "\n")...)
								}
								for _, l := range lines {
									l = strings.TrimSpace(l)
									if l != "" {
										fr.Preamble = append(fr.Preamble, l)
									}
								}
							}
						}
					}
				case token.CONST, token.VAR:
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, id := range vs.Names {
							c := Const{Name: id.Name, Type: str(fset, vs.Type), Kind: d.Tok.String(), File: n, Group: group, Line: fset.Position(id.Pos()).Line}
							if vs.Type == nil {
								c.Type = ""
							}
							if i < len(vs.Values) {
								c.Expr = str(fset, vs.Values[i])
								c.Idents = []string{}
								ast.Inspect(vs.Values[i], func(x ast.Node) bool {
									if id, ok := x.(*ast.Ident); ok {
										c.Idents = append(c.Idents, id.Name)
									}
									return true
								})
							}
							c.Doc = docText(vs.Doc)
							if c.Doc == "" {
								c.Doc = docText(d.Doc)
							}
							crefs = append(crefs, cref{id, len(rep.Consts)})
							rep.Consts = append(rep.Consts, c)
						}
					}
				case token.TYPE:
					for _, s := range d.Specs {
						ts := s.(*ast.TypeSpec)
						t := Type{Name: ts.Name.Name, Expr: str(fset, ts.Type), File: n, Fields: []Field{}, Results: []string{}, Line: fset.Position(ts.Pos()).Line}
						t.Doc = docText(ts.Doc)
						if t.Doc == "" {
							t.Doc = docText(d.Doc)
						}
						switch x := ts.Type.(type) {
						case *ast.StructType:
							t.Kind = "struct"
							t.Fields = fields(fset, x.Fields)
						case *ast.FuncType:
							t.Kind = "func"
							t.Fields = fields(fset, x.Params)
							t.Results = types_(fields(fset, x.Results))
						case *ast.ArrayType:
							t.Kind = "array"
							t.ArrLen = ""
							if x.Len != nil {
								t.ArrLen = str(fset, x.Len)
							}
							t.Elem = str(fset, x.Elt)
						case *ast.Ident:
							t.Kind = "ident"
						case *ast.SelectorExpr:
							t.Kind = "selector"
						case *ast.StarExpr:
							t.Kind = "ptr"
						default:
							t.Kind = "other"
						}
						rep.Types = append(rep.Types, t)
					}
				}
			case *ast.FuncDecl:
				fn := Func{Name: d.Name.Name, File: n, CCalls: []string{}, Stmts: []string{}, Line: fset.Position(d.Pos()).Line}
				if d.Recv != nil && len(d.Recv.List) > 0 {
					fn.Recv = str(fset, d.Recv.List[0].Type)
					if len(d.Recv.List[0].Names) > 0 {
						fn.RecvVar = d.Recv.List[0].Names[0].Name
					}
				}
				fn.Params = fields(fset, d.Type.Params)
				fn.Results = types_(fields(fset, d.Type.Results))
				fn.Doc = docText(d.Doc)
				if d.Doc != nil {
					// directives such as //export are not part of Text()
					for _, c := range d.Doc.List {
						if strings.HasPrefix(c.Text, "//export ") {
							fn.Doc = strings.TrimSpace(fn.Doc + "\n" + c.Text)
						}
					}
				}
				if d.Body != nil {
					fn.Body = str(fset, d.Body)
					calls := 0
					ast.Inspect(d.Body, func(x ast.Node) bool {
						if ce, ok := x.(*ast.CallExpr); ok {
							if se, ok := ce.Fun.(*ast.SelectorExpr); ok {
								if id, ok := se.X.(*ast.Ident); ok && id.Name == "C" {
									fn.CCalls = append(fn.CCalls, se.Sel.Name)
								}
							}
						}
						return true
					})
					for _, st := range d.Body.List {
						fn.Stmts = append(fn.Stmts, str(fset, st))
						if fn.First == nil {
							if g := guard(fset, st); g != nil {
								g.CallsBefore = calls
								fn.First = g
							}
						}
						ast.Inspect(st, func(x ast.Node) bool {
							if _, ok := x.(*ast.CallExpr); ok {
								calls++
							}
							return true
						})
					}
				}
				rep.Funcs = append(rep.Funcs, fn)
			}
		}
		rep.Files = append(rep.Files, fr)
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{FakeImportC: true, Importer: fake{importer.Default()}, Error: func(err error) {
		if len(rep.TypeErrors) < 50 {
			rep.TypeErrors = append(rep.TypeErrors, err.Error())
		}
	}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				rep.TypeErrors = append(rep.TypeErrors, fmt.Sprint("panic: ", r))
			}
		}()
		conf.Check("p", fset, files, info)
	}()
	for _, cr := range crefs {
		if obj, ok := info.Defs[cr.id].(*types.Const); ok && obj != nil {
			v := obj.Val()
			if v != nil && v.Kind() != constant.Unknown {
				rep.Consts[cr.idx].Value = v.ExactString()
				rep.Consts[cr.idx].VKind = [...]string{"unknown", "bool", "string", "int", "float", "complex"}[v.Kind()]
				if v.Kind() == constant.String {
					rep.Consts[cr.idx].Value = constant.StringVal(v)
					rep.Consts[cr.idx].Bytes = []int{}
					for _, b := range []byte(constant.StringVal(v)) {
						rep.Consts[cr.idx].Bytes = append(rep.Consts[cr.idx].Bytes, int(b))
					}
				}
			}
			if obj.Type() != nil {
				rep.Consts[cr.idx].GoTyp = obj.Type().Underlying().String()
			}
		}
	}
	return rep
}

func guard(fset *token.FileSet, st ast.Stmt) *Guard {
	is, ok := st.(*ast.IfStmt)
	if !ok {
		return nil
	}
	be, ok := is.Cond.(*ast.BinaryExpr)
	if !ok || be.Op != token.NEQ {
		return nil
	}
	ce, ok := be.X.(*ast.CallExpr)
	if !ok || len(ce.Args) != 1 {
		return nil
	}
	lit, ok := ce.Args[0].(*ast.BasicLit)
	if !ok || lit.Kind != token.STRING {
		return nil
	}
	if y, ok := be.Y.(*ast.Ident); !ok || y.Name != "nil" {
		return nil
	}
	g := &Guard{Func: str(fset, ce.Fun), Arg: strings.Trim(lit.Value, "\"")}
	if len(is.Body.List) == 1 {
		if rs, ok := is.Body.List[0].(*ast.ReturnStmt); ok {
			var rr []string
			for _, r := range rs.Results {
				rr = append(rr, str(fset, r))
			}
			g.Ret = strings.Join(rr, ", ")
		} else {
			g.Ret = "<not a return>"
		}
	} else {
		g.Ret = "<not a return>"
	}
	return g
}

func main() {
	var dirs []string
	if err := json.NewDecoder(os.Stdin).Decode(&dirs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := make([]Report, len(dirs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, d := range dirs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, d string) {
			defer wg.Done()
			out[i] = inspect(d)
			<-sem
		}(i, d)
	}
	wg.Wait()
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
