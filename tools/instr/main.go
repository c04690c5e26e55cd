// Command instr prepares the package under test for the controlled scheduler:
// it writes a copy of every source file with a scheduling point before each
// statement and with package sync replaced by a shim whose locks yield to the
// scheduler, and the overlay file that puts the copies in place of the originals.
//
//	instr [-plain] REPO OUTDIR SHIM POINT
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	args := os.Args[1:]
	plain := false
	if len(args) > 0 && args[0] == "-plain" {
		plain, args = true, args[1:]
	}
	repo, out, shim, point := args[0], args[1], args[2], args[3]
	replace := map[string]string{
		filepath.Join(repo, "verifsync", "sync.go"):   shim,
		filepath.Join(repo, "zz_verif_schedpoint.go"): point,
	}
	points := 0
	if !plain {
		files, err := filepath.Glob(filepath.Join(repo, "*.go"))
		die(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			die(err)
			text, n, err := rewrite(f, src, points)
			if err != nil {
				// the compiler reports what is wrong with it
				fmt.Fprintln(os.Stderr, err)
				continue
			}
			points += n
			if n < 0 {
				// starts or waits for goroutines of its own, which the scheduler
				// does not know: leave the package as it is
				fmt.Fprintln(os.Stderr, f, "uses goroutines")
				os.Exit(3)
			}
			dst := filepath.Join(out, filepath.Base(f))
			die(os.WriteFile(dst, []byte(text), 0600))
			replace[f] = dst
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0600))
	fmt.Println(points, "scheduling points")
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

type edit struct {
	at, end int
	text    string
}

func rewrite(name string, src []byte, base int) (string, int, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return "", 0, err
	}
	var edits []edit
	points := 0
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points++
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("verifSchedPoint(%d);", base+points)})
		}
	}
	foreign := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			foreign = true
		case *ast.SelectorExpr:
			if p, ok := x.X.(*ast.Ident); ok && p.Name == "sync" && (x.Sel.Name == "WaitGroup" || x.Sel.Name == "Cond" || x.Sel.Name == "NewCond") {
				foreign = true
			}
		}
		return true
	})
	if foreign {
		return "", -1, nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				// a loop that waits for something
				points++
				edits = append(edits, edit{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, fmt.Sprintf("verifSchedPoint(%d);", base+points)})
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ImportSpec:
			if x.Path.Value == `"sync"` {
				t := `"yunion.io/x/jsonutils/verifsync"`
				if x.Name == nil {
					t = "sync " + t
				}
				edits = append(edits, edit{off(x.Path.Pos()), off(x.Path.End()), t})
			}
		}
		return true
	})
	// clauses themselves are no place for a call
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var sb strings.Builder
	last := 0
	for _, e := range edits {
		if e.end == e.at && clause[e.at] {
			continue
		}
		sb.Write(src[last:e.at])
		sb.WriteString(e.text)
		last = e.end
	}
	sb.Write(src[last:])
	return sb.String(), points, nil
}
