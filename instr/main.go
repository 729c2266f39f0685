// Command amtinstr prepares the build overlay of the simulator.
//
// It copies every non-test Go file of the repository, inserting a call to a
// yield function before each statement and at the start of each function and
// loop body, and writes an overlay file for "go build -overlay" which maps
//   - the repository's files to the instrumented copies,
//   - <repo>/zzamtsim/hook.go to the yield hook package, and
//   - hash/maphash of the Go installation to the simulated hash.
//
// The insertion works on the text, on the same line as the statement, so that
// line numbers do not change.  Nothing is written to the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	del  int // bytes replaced
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "amtinstr:", err)
		os.Exit(3)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	goroot := flag.String("goroot", "", "GOROOT")
	ovl := flag.String("overlay-src", "", "directory with maphash.go.txt and hook.go.txt")
	plain := flag.Bool("plain", false, "do not insert yields (maphash overlay only)")
	flag.Parse()
	modb, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	die(err)
	mod := ""
	for _, l := range strings.Split(string(modb), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			mod = strings.Trim(f[1], `"`)
		}
	}
	if mod == "" {
		die(fmt.Errorf("no module line in go.mod"))
	}
	hookPkg := mod + "/zzamtsim"
	repl := map[string]string{}
	var sites []site
	die(os.MkdirAll(*out, 0o755))
	var files []string
	die(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	if *plain {
		files = nil
	}
	for i, p := range files {
		src, err := os.ReadFile(p)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			// not parseable: leave the file alone, the build will report it
			fmt.Fprintln(os.Stderr, "amtinstr: not instrumented:", err)
			continue
		}
		rel, _ := filepath.Rel(*repo, p)
		var inss []ins
		fn := ""
		add := func(pos token.Pos, pre, post string) {
			id := len(sites)
			sites = append(sites, site{id, rel, fset.Position(pos).Line, fn})
			inss = append(inss, ins{fset.Position(pos).Offset, fmt.Sprintf("%szzamtsim.Y(%d);%s", pre, id, post), 0})
		}
		// offsets must be physical ones even in the presence of //line comments
		off := func(pos token.Pos) int { return fset.PositionFor(pos, false).Offset }
		var list func(l []ast.Stmt)
		list = func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				n := len(inss)
				add(s.Pos(), "", " ")
				inss[n].off = off(s.Pos())
			}
		}
		body := func(b *ast.BlockStmt) {
			if b == nil {
				return
			}
			n := len(inss)
			add(b.Lbrace, " ", "")
			inss[n].off = off(b.Lbrace) + 1
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Recv != nil && len(n.Recv.List) > 0 {
					t := n.Recv.List[0].Type
					fn = string(src[off(t.Pos()):off(t.End())]) + "." + fn
				}
				body(n.Body)
			case *ast.FuncLit:
				body(n.Body)
			case *ast.ForStmt:
				body(n.Body)
			case *ast.RangeStmt:
				body(n.Body)
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		if len(inss) == 0 {
			continue
		}
		// import on the line of the package clause
		inss = append(inss, ins{off(f.Name.End()), fmt.Sprintf("; import zzamtsim %q", hookPkg), 0})
		for _, im := range f.Imports { // locks that know the simulated callers
			if im.Path.Value == `"sync"` || im.Path.Value == "`sync`" {
				inss = append(inss, ins{off(im.Path.Pos()), fmt.Sprintf("%q", hookPkg+"/sync"), len(im.Path.Value)})
			}
		}
		// A switch body is a BlockStmt whose list holds clauses: no statement may stand before "case".
		sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
		var b strings.Builder
		prev := 0
		for _, in := range inss {
			if isClause(src, in) {
				continue
			}
			b.Write(src[prev:in.off])
			b.WriteString(in.text)
			prev = in.off + in.del
		}
		b.Write(src[prev:])
		dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", i, filepath.Base(p)))
		die(os.WriteFile(dst, []byte(b.String()), 0o644))
		repl[p] = dst
	}
	hook, err := os.ReadFile(filepath.Join(*ovl, "hook.go.txt"))
	die(err)
	hp := filepath.Join(*out, "zzhook.go")
	die(os.WriteFile(hp, []byte(strings.ReplaceAll(string(hook), "NSITES", fmt.Sprint(len(sites)+16))), 0o644))
	repl[filepath.Join(*repo, "zzamtsim", "hook.go")] = hp
	sh, err := os.ReadFile(filepath.Join(*ovl, "sync.go.txt"))
	die(err)
	sp := filepath.Join(*out, "zzsync.go")
	die(os.WriteFile(sp, []byte(strings.ReplaceAll(string(sh), "MODULE", mod)), 0o644))
	repl[filepath.Join(*repo, "zzamtsim", "sync", "sync.go")] = sp
	mh, err := os.ReadFile(filepath.Join(*ovl, "maphash.go.txt"))
	die(err)
	mp := filepath.Join(*out, "zzmaphash.go")
	die(os.WriteFile(mp, mh, 0o644))
	repl[filepath.Join(*goroot, "src", "hash", "maphash", "maphash.go")] = mp
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	sj, _ := json.Marshal(sites)
	die(os.WriteFile(filepath.Join(*out, "sites.json"), sj, 0o644))
}

// isClause reports whether the insertion stands before a case or default clause.
func isClause(src []byte, in ins) bool {
	s := string(src[in.off:min(len(src), in.off+8)])
	if !strings.HasPrefix(strings.TrimSpace(in.text), "zzamtsim.Y") {
		return false
	}
	for _, kw := range []string{"case", "default"} {
		if strings.HasPrefix(s, kw) && len(s) > len(kw) && !isIdent(s[len(kw)]) {
			return true
		}
	}
	return false
}

func isIdent(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
