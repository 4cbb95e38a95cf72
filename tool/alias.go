package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
)

// Byte slices are translated as values. That is faithful as long as no write to a backing array
// can be seen through another slice. The only writes the translator accepts are appends; an append
// to X[lo:hi] writes behind hi in X's array. This file accepts such appends only where X and the
// result are used in ways that can be tracked: X is afterwards known up to hi only, and the result
// is consumed at once.

type aliasInfo struct {
	t      *tr
	fd     *ast.FuncDecl
	parent map[ast.Node]ast.Node
	uses   map[types.Object][]*ast.Ident
	loop   map[ast.Node]int
}

func isByteSeq(ty types.Type) bool {
	if ty == nil {
		return false
	}
	s, ok := ty.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (t *tr) aliasOf(fd *ast.FuncDecl) *aliasInfo {
	a := &aliasInfo{t: t, fd: fd, parent: map[ast.Node]ast.Node{}, uses: map[types.Object][]*ast.Ident{}}
	var stack []ast.Node
	ast.Inspect(fd, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			a.parent[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		if id, ok := n.(*ast.Ident); ok {
			if o := t.l.info().Uses[id]; o != nil {
				a.uses[o] = append(a.uses[o], id)
			}
			if o := t.l.info().Defs[id]; o != nil {
				a.uses[o] = append(a.uses[o], id)
			}
		}
		return true
	})
	return a
}

// up is the parent, parentheses skipped.
func (a *aliasInfo) up(n ast.Node) ast.Node {
	p := a.parent[n]
	for {
		q, ok := p.(*ast.ParenExpr)
		if !ok {
			return p
		}
		p = a.parent[q]
	}
}

func (a *aliasInfo) isBuiltin(c *ast.CallExpr, name string) bool {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = a.t.l.info().Uses[id].(*types.Builtin)
	return ok
}

func (a *aliasInfo) callee(c *ast.CallExpr) *types.Func {
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		fn, _ := a.t.l.info().Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := a.t.l.info().Uses[f.Sel].(*types.Func)
		return fn
	}
	return nil
}

// fresh: the value of e is a slice no one else holds.
func (a *aliasInfo) fresh(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.CompositeLit:
		return true
	case *ast.Ident:
		return a.t.isNil(x)
	case *ast.CallExpr:
		if tv, ok := a.t.l.info().Types[x.Fun]; ok && tv.IsType() {
			return len(x.Args) == 1 && a.fresh(x.Args[0])
		}
		if a.isBuiltin(x, "make") {
			return true
		}
		if a.isBuiltin(x, "append") {
			return a.fresh(x.Args[0])
		}
		fn := a.callee(x)
		if fn == nil {
			return false
		}
		if fn.FullName() == "(net.IP).Mask" || fn.FullName() == "net.CIDRMask" {
			return true
		}
		return pkgRel(fn.Pkg()) != "" && a.t.returnsFresh(fn, 3)
	}
	return false
}

func (t *tr) returnsFresh(fn *types.Func, depth int) bool {
	fd := t.declOf(fn)
	if depth == 0 || fd == nil || fd.Body == nil {
		return false
	}
	b := t.aliasOf(fd)
	ok := true
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if _, is := n.(*ast.FuncLit); is {
			return false
		}
		if r, is := n.(*ast.ReturnStmt); is {
			if len(r.Results) == 0 {
				ok = false
			}
			for _, e := range r.Results {
				if isByteSeq(t.typeOf(e)) && !b.fresh(e) {
					id, isID := unparen(e).(*ast.Ident)
					if !isID || !b.onlyFresh(t.objOf(id)) {
						ok = false
					}
				}
			}
		}
		return true
	})
	return ok
}

// onlyFresh: a local variable that only ever holds fresh slices.
func (a *aliasInfo) onlyFresh(o types.Object) bool {
	if a.isParam(o) {
		return false
	}
	for _, id := range a.uses[o] {
		if e, ok := a.assigned(id); ok && (e == nil || !a.fresh(e)) {
			if e != nil {
				if c, is := unparen(e).(*ast.CallExpr); is && a.isBuiltin(c, "append") {
					if b, is := unparen(c.Args[0]).(*ast.Ident); is && a.t.objOf(b) == o {
						continue
					}
				}
			}
			return false
		}
	}
	return true
}

func (a *aliasInfo) isParam(o types.Object) bool {
	ok := false
	lists := []*ast.FieldList{a.fd.Recv, a.fd.Type.Params}
	for _, l := range lists {
		if l == nil {
			continue
		}
		for _, f := range l.List {
			for _, id := range f.Names {
				if a.t.l.info().Defs[id] == o {
					ok = true
				}
			}
		}
	}
	return ok
}

// assigned: id is written here; the expression, or nil if unknown.
func (a *aliasInfo) assigned(id *ast.Ident) (ast.Expr, bool) {
	switch p := a.parent[id].(type) {
	case *ast.AssignStmt:
		for i, l := range p.Lhs {
			if l == id {
				if len(p.Lhs) == len(p.Rhs) && (p.Tok == token.ASSIGN || p.Tok == token.DEFINE) {
					return p.Rhs[i], true
				}
				return nil, true
			}
		}
	case *ast.ValueSpec:
		for i, l := range p.Names {
			if l == id {
				if len(p.Values) == 0 {
					return nil, false // nil
				}
				if len(p.Values) == len(p.Names) {
					return p.Values[i], true
				}
				return nil, true
			}
		}
	case *ast.RangeStmt:
		if p.Key == ast.Expr(id) || p.Value == ast.Expr(id) {
			return nil, true
		}
	case *ast.UnaryExpr:
		if p.Op == token.AND {
			return nil, true
		}
	}
	return nil, false
}

// reads: this use of a byte slice only looks at its bytes.
func (a *aliasInfo) reads(e ast.Expr, depth int) bool {
	switch p := a.up(e).(type) {
	case *ast.IndexExpr:
		return unparen(p.X) == e
	case *ast.BinaryExpr:
		return true
	case *ast.SelectorExpr:
		c, ok := a.parent[p].(*ast.CallExpr)
		return ok && a.callee(c) != nil && a.callee(c).FullName() == "(net.IP).Mask"
	case *ast.SliceExpr:
		return a.reads(p, depth)
	case *ast.CallExpr:
		if a.isBuiltin(p, "len") {
			return true
		}
		if a.isBuiltin(p, "append") {
			return len(p.Args) == 2 && unparen(p.Args[1]) == e && p.Ellipsis.IsValid()
		}
		fn := a.callee(p)
		if fn == nil {
			return false
		}
		if fn.FullName() == "(net.IP).Mask" {
			return true
		}
		if pkgRel(fn.Pkg()) == "" {
			return false
		}
		for i, x := range p.Args {
			if unparen(x) == e {
				return a.t.readsParam(fn, i, depth-1)
			}
		}
	}
	return false
}

func (t *tr) readsParam(fn *types.Func, i, depth int) bool {
	fd := t.declOf(fn)
	sig := fn.Type().(*types.Signature)
	if depth <= 0 || fd == nil || fd.Body == nil || sig.Variadic() {
		return false
	}
	b := t.aliasOf(fd)
	return b.tracked(sig.Params().At(i), depth)
}

// tracked: every use of the variable reads it, assigns a fresh slice to it, is the base of an
// append, or hands it to a function that does no more.
func (a *aliasInfo) tracked(o types.Object, depth int) bool {
	for _, id := range a.uses[o] {
		if a.t.l.info().Defs[id] == o {
			if _, isField := a.parent[id].(*ast.Field); isField {
				continue
			}
		}
		if e, ok := a.assigned(id); ok {
			if a.isParam(o) || e == nil || !(a.fresh(e) || a.aliasAppend(e)) {
				return false
			}
			continue
		}
		if _, ok := a.parent[id].(*ast.ValueSpec); ok {
			continue
		}
		if s, ok := a.up(id).(*ast.SliceExpr); ok {
			if c, ok := a.up(s).(*ast.CallExpr); ok && a.isBuiltin(c, "append") && unparen(c.Args[0]) == s {
				continue
			}
		}
		if !a.reads(id, depth) {
			return false
		}
	}
	return true
}

func (a *aliasInfo) aliasAppend(e ast.Expr) bool {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || !a.isBuiltin(c, "append") {
		return false
	}
	_, ok = unparen(c.Args[0]).(*ast.SliceExpr)
	return ok
}

func (a *aliasInfo) loopOf(n ast.Node) ast.Node {
	for p := a.parent[n]; p != nil; p = a.parent[p] {
		switch p.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			return p
		}
	}
	return nil
}

// high is the constant upper bound of a slice expression, or 0.
func (a *aliasInfo) high(s *ast.SliceExpr) int64 {
	if s.High != nil && s.Max == nil {
		if tv, ok := a.t.l.info().Types[s.High]; ok && tv.Value != nil {
			if v, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
				return v
			}
		}
	}
	return 0
}

// clobbers: may a call change bytes of its i-th argument, and from which index on?
func (t *tr) clobbers(fn *types.Func, i, depth int) (int64, bool) {
	sig := fn.Type().(*types.Signature)
	if sig.Variadic() || !isByteSeq(sig.Params().At(i).Type()) {
		return 0, false
	}
	fd := t.declOf(fn)
	if fd == nil || fd.Body == nil {
		return 0, false
	}
	if depth == 0 {
		return 0, true
	}
	a := t.aliasOf(fd)
	par := types.Object(sig.Params().At(i))
	lo, any := int64(1)<<40, false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		if a.isBuiltin(c, "append") {
			x := unparen(c.Args[0])
			h := int64(0)
			if s, ok := x.(*ast.SliceExpr); ok {
				h, x = a.high(s), unparen(s.X)
			}
			if id, ok := x.(*ast.Ident); ok && t.objOf(id) == par {
				any = true
				if h < lo {
					lo = h
				}
			}
			return true
		}
		if g := a.callee(c); g != nil && pkgRel(g.Pkg()) != "" {
			for j, x := range c.Args {
				if id, ok := unparen(x).(*ast.Ident); ok && t.objOf(id) == par {
					if h, yes := t.clobbers(g, j, depth-1); yes {
						any = true
						if h < lo {
							lo = h
						}
					}
				}
			}
		}
		return true
	})
	return lo, any
}

// checkByteAlias refuses a function whose appends to byte slices cannot be tracked.
func (t *tr) checkByteAlias(fd *ast.FuncDecl) {
	if fd == nil || fd.Body == nil {
		return
	}
	a := t.aliasOf(fd)
	cnt := map[types.Object]int{}
	kept := map[types.Object]bool{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		if !a.isBuiltin(c, "append") {
			if g := a.callee(c); g != nil && pkgRel(g.Pkg()) != "" {
				sig := g.Type().(*types.Signature)
				for j, x := range c.Args {
					if sig.Variadic() {
						break
					}
					if _, yes := t.clobbers(g, j, 4); !yes || a.fresh(x) {
						continue
					}
					id, ok := unparen(x).(*ast.Ident)
					if !ok || !a.tracked(t.objOf(id), 4) {
						t.fail(c, "byte slice handed to %s, which appends to it, is also held elsewhere", objName(g))
					}
				}
			}
			return true
		}
		if !isByteSeq(t.typeOf(c)) {
			return true
		}
		x := unparen(c.Args[0])
		if s, ok := x.(*ast.SliceExpr); ok {
			id, ok := unparen(s.X).(*ast.Ident)
			if !ok {
				t.fail(c, "append to a part of a byte slice that is not a variable")
			}
			o := t.objOf(id)
			if v, ok := o.(*types.Var); !ok || v.Parent() == v.Pkg().Scope() || !a.tracked(o, 4) {
				t.fail(c, "append to a part of %s, which is also held elsewhere", id.Name)
			}
			cnt[o]++
			if as, ok := a.up(c).(*ast.AssignStmt); ok && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
				if v, ok := as.Lhs[0].(*ast.Ident); ok {
					vo := t.objOf(v)
					for _, u := range a.uses[vo] {
						if _, w := a.assigned(u); w {
							continue
						}
						if _, w := a.parent[u].(*ast.ValueSpec); w {
							continue
						}
						if !a.reads(u, 4) {
							t.fail(c, "%s shares its array with %s and is not only read", v.Name, id.Name)
						}
						if a.loopOf(u) != a.loopOf(c) {
							t.fail(c, "%s shares its array with %s across loop iterations", v.Name, id.Name)
						}
					}
					kept[o] = true
					return true
				}
			}
			if !a.reads(c, 4) {
				t.fail(c, "the result of append shares its array with %s and is not only read", id.Name)
			}
			return true
		}
		if id, ok := x.(*ast.Ident); ok && !t.isNil(id) {
			o := t.objOf(id)
			as, ok := a.up(c).(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 {
				t.fail(c, "append to %s, which keeps being used", id.Name)
			}
			l, ok := as.Lhs[0].(*ast.Ident)
			if !ok || t.objOf(l) != o || a.isParam(o) || !a.onlyFresh(o) {
				t.fail(c, "append to %s, which may be held elsewhere", id.Name)
			}
			return true
		}
		if !a.fresh(x) {
			t.fail(c, "append to a byte slice that may be held elsewhere")
		}
		return true
	})
	for o := range kept {
		if cnt[o] > 1 {
			t.fail(fd, "several appends to parts of %s, with a result kept", o.Name())
		}
	}
}
