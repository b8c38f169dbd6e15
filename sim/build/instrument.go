package build

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// WriteRepo instruments every non-test source file of the mondis packages with
// a potential preemption point before each statement, so that the simulator can
// interleave goroutines between any two statements of the code under test.
func WriteRepo(repo, dir string, overlay map[string]string) error {
	return filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			switch rel {
			case ".git", "pb", "test":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, ok := instrument(path, src)
		if !ok {
			return nil // not parseable alone: the compiler will report it
		}
		dst := filepath.Join(dir, "repo", strings.ReplaceAll(rel, "/", "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := writeIfChanged(dst, out); err != nil {
			return err
		}
		overlay[path] = dst
		return nil
	})
}

func instrument(path string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	if f.Name.Name == "main" {
		return nil, false
	}
	seen := map[int]bool{}
	var offs []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			o := fset.Position(s.Pos()).Offset
			if !seen[o] {
				seen[o] = true
				offs = append(offs, o)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Doc != nil {
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			// the body of a switch or select is a list of clauses
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(n.List)
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	if len(offs) == 0 {
		return nil, false
	}
	sort.Ints(offs)
	var b strings.Builder
	nameEnd := fset.Position(f.Name.End()).Offset
	b.Write(src[:nameEnd])
	b.WriteString(`; import simrt "runtime"`)
	last := nameEnd
	for _, o := range offs {
		b.Write(src[last:o])
		b.WriteString("simrt.SimPoint();")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
