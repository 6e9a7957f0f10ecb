package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Instrumentation makes every statement of the code under test a scheduling
// point: a call of runtime.SimYield is put before it, on the same line, and a
// few compound updates are split into a read, a scheduling point and a write,
// which is how the machine performs them. Nothing else changes.

type edit struct {
	pos  int
	end  int
	text string
	ord  int
}

func pureOperand(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return pureOperand(x.X)
	case *ast.StarExpr:
		return pureOperand(x.X)
	case *ast.ParenExpr:
		return pureOperand(x.X)
	}
	return false
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// instrument returns the instrumented source of one file.
func instrument(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(pos, end int, text string) {
		edits = append(edits, edit{pos, end, text, len(edits)})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	const y = "simrt__.SimYield(); "
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), off(s.Pos()), y)
			switch x := s.(type) {
			case *ast.IncDecStmt:
				if pureOperand(x.X) {
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					t := str(x.X)
					add(off(x.Pos()), off(x.End()), fmt.Sprintf("{ simt__ := %s; %s%s = simt__ %s 1 }", t, y, t, op))
				}
			case *ast.AssignStmt:
				if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !pureOperand(x.Lhs[0]) {
					continue
				}
				l, r := str(x.Lhs[0]), str(x.Rhs[0])
				if strings.Contains(str(x), "\n") {
					continue
				}
				switch x.Tok {
				case token.ASSIGN:
					c, ok := x.Rhs[0].(*ast.CallExpr)
					if !ok || len(c.Args) == 0 {
						continue
					}
					id, ok := c.Fun.(*ast.Ident)
					if !ok || id.Name != "append" || str(c.Args[0]) != l {
						continue
					}
					add(off(x.Pos()), off(x.End()), fmt.Sprintf("{ simt__ := %s; %s%s = simt__ }", r, y, l))
				case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN, token.XOR_ASSIGN, token.MUL_ASSIGN:
					if hasCall(x.Rhs[0]) {
						continue
					}
					op := strings.TrimSuffix(x.Tok.String(), "=")
					add(off(x.Pos()), off(x.End()), fmt.Sprintf("{ simt__ := %s; %s%s = simt__ %s (%s) }", l, y, l, op, r))
				}
			}
		}
	}
	bodyStart := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) == 0 {
			add(off(b.Lbrace)+1, off(b.Lbrace)+1, " "+y)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			bodyStart(x.Body)
		case *ast.RangeStmt:
			bodyStart(x.Body)
		}
		return true
	})
	if len(edits) == 0 {
		return nil, nil
	}
	// A switch or select body is a block whose "statements" are clauses.
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	// Splitting an update inside another replaced range would overlap; such
	// ranges hold no statements of their own, so only yields can collide.
	add(off(f.Name.End()), off(f.Name.End()), "; import simrt__ \"runtime\"")
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].ord < edits[j].ord
	})
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.pos == e.end && clause[e.pos] && strings.HasPrefix(e.text, y) {
			continue
		}
		if e.pos < at {
			continue
		}
		out.Write(src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	res := out.Bytes()
	if _, err := parser.ParseFile(token.NewFileSet(), path, res, parser.SkipObjectResolution); err != nil {
		return nil, fmt.Errorf("instrumented %s does not parse: %w", path, err)
	}
	return res, nil
}

// repoSources lists the non-test Go sources of the repository that are
// instrumented: everything except generated protobuf code.
func repoSources(repo string) ([]string, []string, error) {
	var srcs, tests []string
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "node_modules") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		if strings.HasSuffix(p, "_test.go") {
			tests = append(tests, p)
			return nil
		}
		if strings.HasSuffix(p, ".pb.go") {
			return nil
		}
		srcs = append(srcs, p)
		return nil
	})
	return srcs, tests, err
}

// instrumentRepo adds instrumented copies of the repository's sources.
func (o *overlay) instrumentRepo(repo string, skip map[string]bool) error {
	srcs, tests, err := repoSources(repo)
	if err != nil {
		return err
	}
	for _, t := range tests {
		o.Replace[t] = ""
	}
	for _, p := range srcs {
		rel, _ := filepath.Rel(repo, p)
		if skip[rel] {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, err := instrument(p, src)
		if err != nil || res == nil {
			continue // compiles as it is, or not at all
		}
		dst := filepath.Join(o.dir, "src", rel)
		if err := writeIfChanged(dst, res); err != nil {
			return err
		}
		o.Replace[p] = dst
	}
	return nil
}
