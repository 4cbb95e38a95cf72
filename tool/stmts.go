package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// Statements are translated in continuation-passing style: stmts(list, k) emits the list and
// calls k at every point where control falls through. Code after a loop or an inlined call is
// therefore emitted inside the loop's exits; everything else is emitted as plain Rust.

func (t *tr) stmts(list []ast.Stmt, k func()) {
	if len(list) == 0 {
		k()
		return
	}
	s := list[0]
	rest := list[1:]
	t.stmt(s, func() { t.stmts(rest, k) })
}

// complexStmt: must the continuation be emitted inside the statement?
func (t *tr) complexStmt(s ast.Node) bool {
	if s == nil {
		return false
	}
	c := false
	depth := 0
	_ = depth
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			c = true
		case *ast.BranchStmt:
			// break out of a switch
			c = true
		case *ast.FuncLit:
			return false
		case *ast.GoStmt:
			c = true
		case *ast.CallExpr:
			if t.mustHoist(x) {
				c = true
			}
		}
		return !c
	})
	return c
}

func (t *tr) terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	switch x := list[len(list)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return true
	case *ast.BlockStmt:
		return t.terminates(x.List)
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				if _, ok := t.l.info().Uses[id].(*types.Builtin); ok {
					return true
				}
			}
		}
	case *ast.IfStmt:
		if x.Else == nil {
			return false
		}
		if !t.terminates(x.Body.List) {
			return false
		}
		return t.terminates([]ast.Stmt{x.Else})
	}
	return false
}

// mustHoist: the call has to be inlined as statements.
func (t *tr) mustHoist(c *ast.CallExpr) bool {
	if !t.needsInline(c) {
		return false
	}
	cl := t.resolve(c)
	if cl.lit != nil {
		return true
	}
	if e, ok := t.singleReturn(cl.fn); ok {
		h := false
		ast.Inspect(e, func(n ast.Node) bool {
			if cc, ok := n.(*ast.CallExpr); ok && t.mustHoist(cc) {
				h = true
			}
			return !h
		})
		return h
	}
	return true
}

// hoist inlines the calls of e that need it, then runs f.
func (t *tr) hoist(es []ast.Expr, f func()) {
	var calls []*ast.CallExpr
	var guarded []*ast.CallExpr
	var walk func(n ast.Node, g bool)
	walk = func(n ast.Node, g bool) {
		switch x := n.(type) {
		case nil:
			return
		case *ast.FuncLit:
			return
		case *ast.BinaryExpr:
			walk(x.X, g)
			walk(x.Y, g || x.Op == token.LAND || x.Op == token.LOR)
			return
		case *ast.CallExpr:
			walk(x.Fun, g)
			for _, a := range x.Args {
				walk(a, g)
			}
			if tv, ok := t.l.info().Types[x.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return
			}
			if g {
				guarded = append(guarded, x)
			} else {
				calls = append(calls, x)
			}
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n || m == nil {
				return true
			}
			walk(m, g)
			return false
		})
	}
	for _, e := range es {
		if e != nil {
			walk(e, false)
		}
	}
	for _, c := range guarded {
		if _, done := t.subst[c]; !done && t.mustHoist(c) {
			t.fail(c, "call that must be inlined under a short-circuit operator")
		}
	}
	last := -1
	for i, c := range calls {
		if _, done := t.subst[c]; !done && t.mustHoist(c) {
			last = i
		}
	}
	var step func(i int)
	step = func(i int) {
		for i <= last {
			c := calls[i]
			if _, done := t.subst[c]; done {
				i++
				continue
			}
			if t.mustHoist(c) {
				j := i
				t.inlineCall(c, func(vals []string) {
					// bind values to temporaries: later code must not re-evaluate them
					t.subst[c] = vals
					step(j + 1)
					delete(t.subst, c)
				})
				return
			}
			sig := t.typeOf(c.Fun).Underlying().(*types.Signature)
			r := t.call(c)
			if sig.Results().Len() == 1 {
				v := t.fresh("hv")
				t.emit("let %s: %s = %s;", v, t.rty(c, sig.Results().At(0).Type()), r[0])
				r = []string{v}
			}
			t.subst[c] = r
			cc := c
			defer delete(t.subst, cc)
			i++
		}
		f()
	}
	step(0)
}

func (t *tr) setPos(n ast.Node) {
	t.curPos = n.Pos()
}

func (t *tr) stmt(s ast.Stmt, k func()) {
	t.setPos(s)
	switch x := s.(type) {
	case *ast.EmptyStmt:
		k()
	case *ast.BlockStmt:
		if t.complexStmt(x) {
			t.emit("{")
			t.stmts(x.List, k)
			t.emit("}")
			return
		}
		t.emit("{")
		t.stmts(x.List, func() {})
		t.emit("}")
		if !t.terminates(x.List) {
			k()
		}
	case *ast.ExprStmt:
		switch e := unparen(x.X).(type) {
		case *ast.CallExpr:
			if t.mustHoist(e) {
				var args []ast.Expr
				args = append(args, e.Args...)
				t.hoist(args, func() {
					t.inlineCall(e, func([]string) { k() })
				})
				return
			}
			t.hoist([]ast.Expr{e}, func() {
				t.setPos(s)
				t.call(e)
				if !t.terminates([]ast.Stmt{s}) {
					k()
				} else {
					t.emit("return go_unreachable();")
				}
			})
		case *ast.UnaryExpr:
			if e.Op == token.ARROW {
				t.emit("let _ = %s;", t.expr(e))
				k()
				return
			}
			t.fail(s, "unsupported expression statement")
		default:
			t.fail(s, "unsupported expression statement")
		}
	case *ast.AssignStmt:
		t.assign(x, k)
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		t.opAssign(x.X, op, "", nil, s)
		k()
	case *ast.DeclStmt:
		t.declStmt(x, k)
	case *ast.ReturnStmt:
		t.returnStmt(x)
	case *ast.IfStmt:
		t.ifStmt(x, k)
	case *ast.ForStmt:
		t.forStmt(x, "", k)
	case *ast.RangeStmt:
		t.rangeStmt(x, "", k)
	case *ast.SwitchStmt:
		t.switchStmt(x, "", k)
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.ForStmt:
			t.forStmt(y, x.Label.Name, k)
		case *ast.RangeStmt:
			t.rangeStmt(y, x.Label.Name, k)
		case *ast.SwitchStmt:
			t.switchStmt(y, x.Label.Name, k)
		default:
			t.fail(s, "unsupported labelled statement")
		}
	case *ast.BranchStmt:
		t.branch(x)
	case *ast.SendStmt:
		id, ok := unparen(x.Chan).(*ast.Ident)
		if !ok {
			t.fail(s, "unsupported channel expression")
		}
		t.hoist([]ast.Expr{x.Value}, func() {
			t.setPos(s)
			t.chanUse(id)
			ct := t.typeOf(x.Chan).Underlying().(*types.Chan)
			v := t.atom(t.exprTo(x.Value, ct.Elem()), t.rty(x, ct.Elem()))
			c := t.nameOf(t.objOf(id))
			for _, hk := range t.spec.hooks {
				if hk.callee == "$send" {
					t.emitGhost(strings.ReplaceAll(hk.before, "$a0", v), "ghost code before send")
				}
			}
			t.emit("%s.send(%s);", c, v)
			for _, hk := range t.spec.hooks {
				if hk.callee == "$send" {
					t.emitGhost(strings.ReplaceAll(hk.after, "$a0", v), "ghost code after send")
				}
			}
			k()
		})
	case *ast.GoStmt:
		t.goStmt(x, k)
	case *ast.DeferStmt:
		if len(t.defers) == 0 {
			t.fail(s, "defer outside a function body")
		}
		id, ok := x.Call.Fun.(*ast.Ident)
		if !ok || id.Name != "close" {
			t.fail(s, "unsupported defer")
		}
		c := t.chanExpr(x.Call.Args[0])
		d := t.defers[len(t.defers)-1]
		*d = append(*d, func() { t.emit("%s.close();", c) })
		k()
	default:
		t.fail(s, "unsupported statement %T", s)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// chanUse: sending on an unbuffered channel made by the same function outside a goroutine
// would block for ever.
func (t *tr) chanUse(id *ast.Ident) {
	if t.localChan[t.objOf(id)] && t.inGo == 0 {
		t.fail(id, "deadlock: channel %s is used by its maker outside a goroutine", id.Name)
	}
}

func (t *tr) goStmt(x *ast.GoStmt, k func()) {
	t.inGo++
	lit, ok := x.Call.Fun.(*ast.FuncLit)
	if !ok {
		es := append([]ast.Expr{}, x.Call.Args...)
		t.hoist(es, func() {
			t.call(x.Call)
			t.inGo--
			k()
			t.inGo++
		})
		t.inGo--
		return
	}
	if len(x.Call.Args) > 0 {
		t.fail(x, "go statement with arguments")
	}
	saveRet, saveFrames, saveRes, saveDef := t.retK, t.frames, t.result, t.defers
	var mine []func()
	t.defers = append(append([]*[]func(){}, saveDef...), &mine)
	t.frames = nil
	t.result = t.typeOf(lit).(*types.Signature).Results()
	t.retK = func([]string) {
		for i := len(mine) - 1; i >= 0; i-- {
			mine[i]()
		}
		r2, f2, s2, d2, g2 := t.retK, t.frames, t.result, t.defers, t.inGo
		t.retK, t.frames, t.result, t.defers = saveRet, saveFrames, saveRes, saveDef
		t.inGo--
		k()
		t.retK, t.frames, t.result, t.defers, t.inGo = r2, f2, s2, d2, g2
	}
	t.emit("{")
	t.stmts(lit.Body.List, func() { t.retK(nil) })
	t.emit("}")
	t.retK, t.frames, t.result, t.defers = saveRet, saveFrames, saveRes, saveDef
	t.inGo--
}

func (t *tr) branch(x *ast.BranchStmt) {
	lab := ""
	if x.Label != nil {
		lab = x.Label.Name
	}
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		switch x.Tok {
		case token.BREAK:
			if lab == "" || f.label == lab {
				save := t.frames
				t.frames = t.frames[:i]
				f.breakK()
				t.frames = save
				return
			}
		case token.CONTINUE:
			if f.isLoop && (lab == "" || f.label == lab) {
				save := t.frames
				t.frames = t.frames[:i+1]
				f.contK()
				t.frames = save
				return
			}
		}
	}
	t.fail(x, "unsupported branch statement")
}

func (t *tr) returnStmt(x *ast.ReturnStmt) {
	n := t.result.Len()
	if len(x.Results) == 0 {
		if n == 0 {
			t.retK(nil)
			return
		}
		var vals []string
		for i := 0; i < n; i++ {
			vals = append(vals, t.nameOf(t.result.At(i)))
		}
		t.retK(vals)
		return
	}
	if len(x.Results) == 1 && n > 1 {
		c, ok := unparen(x.Results[0]).(*ast.CallExpr)
		if !ok {
			t.fail(x, "unsupported return")
		}
		if t.mustHoist(c) {
			t.hoist(c.Args, func() {
				t.inlineCall(c, func(vals []string) { t.retK(t.conv(x, vals, c)) })
			})
			return
		}
		t.hoist([]ast.Expr{c}, func() {
			t.setPos(x)
			t.retK(t.conv(x, t.call(c), c))
		})
		return
	}
	t.hoist(x.Results, func() {
		t.setPos(x)
		var vals []string
		for i, e := range x.Results {
			ty := t.result.At(i).Type()
			v := t.exprTo(e, ty)
			if !isRefLike(ty) {
				v = t.atomv(v, t.rty(e, ty))
			}
			vals = append(vals, v)
		}
		t.retK(vals)
	})
}

// conv coerces the results of call c to the current result types.
func (t *tr) conv(at ast.Node, vals []string, c *ast.CallExpr) []string {
	tup, ok := t.typeOf(c).(*types.Tuple)
	if !ok {
		return vals
	}
	var out []string
	for i, v := range vals {
		out = append(out, t.coerce(at, v, tup.At(i).Type(), t.result.At(i).Type()))
	}
	return out
}

// atomv binds the value to a fresh temporary unless it is a literal or temporary.
func (t *tr) atomv(s, ty string) string {
	if reConst.MatchString(s) || s == "true" || s == "false" || s == "NIL" || reTmp.MatchString(s) {
		return s
	}
	v := t.fresh("v")
	t.emit("let %s: %s = %s;", v, ty, s)
	return v
}

// cond emits a branch on e.
func (t *tr) condK(e ast.Expr, kt, kf func()) {
	e = unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && t.complexStmt(b.Y) {
		if b.Op == token.LAND {
			t.condK(b.X, func() { t.condK(b.Y, kt, kf) }, kf)
		} else {
			t.condK(b.X, kt, func() { t.condK(b.Y, kt, kf) })
		}
		return
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT && t.complexStmt(u.X) {
		t.condK(u.X, kf, kt)
		return
	}
	t.hoist([]ast.Expr{e}, func() {
		c := t.expr(e)
		t.emit("if %s {", c)
		kt()
		t.emit("} else {")
		kf()
		t.emit("}")
	})
}

func (t *tr) ifStmt(x *ast.IfStmt, k func()) {
	if x.Init != nil {
		t.emit("{")
		t.stmt(x.Init, func() {
			y := *x
			y.Init = nil
			t.setPos(x)
			t.ifStmt(&y, k)
		})
		t.emit("}")
		return
	}
	cplx := t.complexStmt(x.Cond) || t.complexStmt(x.Body) || (x.Else != nil && t.complexStmt(x.Else)) || t.hasInit(x)
	if cplx {
		t.condK(x.Cond, func() {
			t.stmts(x.Body.List, k)
		}, func() {
			if x.Else != nil {
				t.stmt(x.Else, k)
			} else {
				k()
			}
		})
		return
	}
	c := t.expr(x.Cond)
	t.emit("if %s {", c)
	t.stmts(x.Body.List, func() {})
	if x.Else != nil {
		t.emit("} else {")
		t.stmt(x.Else, func() {})
	}
	t.emit("}")
	if !t.terminates([]ast.Stmt{x}) {
		k()
	}
}

// hasInit: an if with an init statement opens a block, so its continuation goes inside.
func (t *tr) hasInit(x *ast.IfStmt) bool {
	h := false
	ast.Inspect(x, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.IfStmt:
			if y.Init != nil {
				h = true
			}
		}
		return !h
	})
	return h
}

func (t *tr) switchStmt(x *ast.SwitchStmt, label string, k func()) {
	if x.Init != nil {
		t.emit("{")
		t.stmt(x.Init, func() {
			y := *x
			y.Init = nil
			t.switchStmt(&y, label, k)
		})
		t.emit("}")
		return
	}
	tag := ""
	var tagT types.Type
	run := func() {
		var def *ast.CaseClause
		var cases []*ast.CaseClause
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, s := range cc.Body {
				if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					t.fail(b, "fallthrough")
				}
			}
			if cc.List == nil {
				def = cc
			} else {
				cases = append(cases, cc)
			}
		}
		cplx := t.complexStmt(x.Body) || t.bodyHasInit(x.Body)
		kk := k
		if !cplx {
			kk = func() {}
		}
		save := t.frames
		body := func(list []ast.Stmt) {
			t.frames = append(append([]ctlFrame{}, save...), ctlFrame{label: label, breakK: func() { k() }})
			t.stmts(list, func() {
				t.frames = save
				kk()
			})
			t.frames = save
		}
		var chain func(i int)
		chain = func(i int) {
			if i == len(cases) {
				if def != nil {
					body(def.Body)
				} else {
					kk()
				}
				return
			}
			var conds []string
			for _, e := range cases[i].List {
				if tag == "" {
					conds = append(conds, t.expr(e))
				} else {
					v := t.exprTo(e, tagT)
					if t.rty(e, tagT) == "RType" {
						conds = append(conds, fmt.Sprintf("rtype_eq(%s, %s)", tag, v))
					} else if t.rty(e, tagT) == "Str" {
						conds = append(conds, fmt.Sprintf("%s.eq_(%s)", tag, v))
					} else {
						conds = append(conds, fmt.Sprintf("(%s == %s)", tag, v))
					}
				}
			}
			t.emit("if %s {", strings.Join(conds, " || "))
			body(cases[i].Body)
			t.emit("} else {")
			chain(i + 1)
			t.emit("}")
		}
		chain(0)
		if !cplx {
			all := def != nil && t.terminates(def.Body)
			for _, c := range cases {
				all = all && t.terminates(c.Body)
			}
			if !all {
				k()
			}
		}
	}
	if x.Tag == nil {
		run()
		return
	}
	t.hoist([]ast.Expr{x.Tag}, func() {
		tagT = t.typeOf(x.Tag)
		tag = t.fresh("tag")
		t.emit("let %s: %s = %s;", tag, t.rty(x.Tag, tagT), t.exprTo(x.Tag, tagT))
		run()
	})
}

func (t *tr) bodyHasInit(b *ast.BlockStmt) bool {
	h := false
	ast.Inspect(b, func(n ast.Node) bool {
		if y, ok := n.(*ast.IfStmt); ok && y.Init != nil {
			h = true
		}
		return !h
	})
	return h
}

func (t *tr) loopKey(n ast.Node) string {
	return fmt.Sprintf("%s|%d", strings.Join(t.inlSites, ","), n.Pos())
}

func (t *tr) loopSpec(n ast.Node) *loopSpec {
	o, ok := t.loopOrd[t.loopKey(n)]
	if !ok {
		t.fail(n, "loop without ordinal")
	}
	ls := t.spec.loops[o]
	if ls == nil {
		ls = &loopSpec{missing: true}
	}
	if len(t.loopAlias) == 0 {
		return ls
	}
	l2 := *ls
	l2.inv = nil
	for _, c := range ls.inv {
		c.text = t.realias(c.text)
		l2.inv = append(l2.inv, c)
	}
	l2.dec, l2.pre, l2.body, l2.tail, l2.after = t.realias(ls.dec), t.realias(ls.pre), t.realias(ls.body), t.realias(ls.tail), t.realias(ls.after)
	return &l2
}

// counted gives $i, the number of finished rounds in a contract written for a range loop, its
// meaning in a loop that counts from zero.
func (t *tr) counted(x *ast.ForStmt, ls *loopSpec) *loopSpec {
	in, ok := x.Init.(*ast.AssignStmt)
	if !ok || len(in.Lhs) == 0 {
		return ls
	}
	id, ok := in.Lhs[0].(*ast.Ident)
	if !ok || t.objOf(id) == nil {
		return ls
	}
	v := t.nameOf(t.objOf(id))
	sub := func(s string) string { return strings.ReplaceAll(s, "$i", v) }
	l2 := *ls
	l2.inv = nil
	for _, c := range ls.inv {
		c.text = sub(c.text)
		l2.inv = append(l2.inv, c)
	}
	l2.dec, l2.pre, l2.body, l2.tail, l2.after = sub(ls.dec), sub(ls.pre), sub(ls.body), sub(ls.tail), sub(ls.after)
	if l2.dec == "" && !ls.missing {
		if c, ok := x.Cond.(*ast.BinaryExpr); ok && (c.Op == token.LSS || c.Op == token.NEQ) {
			if call, ok := unparen(c.Y).(*ast.CallExpr); ok && len(call.Args) == 1 {
				if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "len" {
					if a, ok := call.Args[0].(*ast.Ident); ok {
						l2.dec = t.nameOf(t.objOf(a)) + "@.len() - " + v
					}
				}
			}
		}
	}
	return &l2
}

// writtenVar: the function writes the variable after its declaration.
func (t *tr) writtenVar(o types.Object) bool {
	if t.fnDecl == nil {
		return true
	}
	for _, x := range t.reassigned(t.fnDecl) {
		if x == o {
			return true
		}
	}
	// a variable of an inlined function
	return !(o.Pos() >= t.fnDecl.Pos() && o.Pos() < t.fnDecl.End())
}

var reWord = regexp.MustCompile(`\.?\b[A-Za-z_]\w*`)

func (t *tr) realias(s string) string {
	return reWord.ReplaceAllStringFunc(s, func(w string) string {
		if a, ok := t.loopAlias[w]; ok {
			return t.nameOf(a)
		}
		return w
	})
}

const maxUnroll = 8

// unrolls gives the number of rounds of a loop whose bounds are small constants; such a loop is
// written out and needs no invariant. 0 means any other loop.
func (t *tr) unrolls(n ast.Node) int {
	small := func(k int64) int {
		if k >= 1 && k <= maxUnroll {
			return int(k)
		}
		return 0
	}
	intConst := func(e ast.Expr) (int64, bool) {
		tv := t.l.info().Types[e]
		if tv.Value == nil || tv.Value.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(tv.Value)
	}
	switch x := n.(type) {
	case *ast.RangeStmt:
		if x.Tok == token.ASSIGN {
			return 0
		}
		switch ty := t.l.info().Types[x.X].Type.Underlying().(type) {
		case *types.Array:
			if t.rty(x, ty) == "A2" {
				return small(ty.Len())
			}
		case *types.Basic:
			if c, ok := intConst(x.X); ok {
				return small(c)
			}
		}
	case *ast.ForStmt:
		in, ok1 := x.Init.(*ast.AssignStmt)
		cond, ok2 := x.Cond.(*ast.BinaryExpr)
		if !ok1 || !ok2 || x.Post == nil || in.Tok != token.DEFINE || len(in.Lhs) != 1 || len(in.Rhs) != 1 {
			return 0
		}
		id, ok := in.Lhs[0].(*ast.Ident)
		if !ok {
			return 0
		}
		o := t.l.info().Defs[id]
		isI := func(e ast.Expr) bool {
			i, ok := unparen(e).(*ast.Ident)
			return ok && o != nil && t.l.info().Uses[i] == o
		}
		step := int64(0)
		switch p := x.Post.(type) {
		case *ast.IncDecStmt:
			if isI(p.X) {
				step = 1
				if p.Tok == token.DEC {
					step = -1
				}
			}
		case *ast.AssignStmt:
			if len(p.Lhs) == 1 && isI(p.Lhs[0]) {
				c, ok := intConst(p.Rhs[0])
				if ok && p.Tok == token.ADD_ASSIGN {
					step = c
				} else if ok && p.Tok == token.SUB_ASSIGN {
					step = -c
				}
			}
		}
		v, okv := intConst(in.Rhs[0])
		lim, okl := intConst(cond.Y)
		if step == 0 || !okv || !okl || !isI(cond.X) {
			return 0
		}
		if b, ok := o.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsUnsigned != 0 && step < 0 {
			return 0 // may wrap
		}
		// the counter is written by the loop head only
		clean := true
		ast.Inspect(x.Body, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					clean = clean && !isI(l)
				}
			case *ast.IncDecStmt:
				clean = clean && !isI(y.X)
			case *ast.UnaryExpr:
				clean = clean && !(y.Op == token.AND && isI(y.X))
			case *ast.RangeStmt:
				clean = clean && (y.Key == nil || !isI(y.Key)) && (y.Value == nil || !isI(y.Value))
			case *ast.FuncLit:
				clean = false
			}
			return clean
		})
		if !clean {
			return 0
		}
		k := int64(0)
		for ; k <= maxUnroll; k++ {
			var go1 bool
			switch cond.Op {
			case token.LSS:
				go1 = v < lim
			case token.LEQ:
				go1 = v <= lim
			case token.GTR:
				go1 = v > lim
			case token.GEQ:
				go1 = v >= lim
			case token.NEQ:
				go1 = v != lim
			default:
				return 0
			}
			if !go1 {
				return small(k)
			}
			v += step
		}
	}
	return 0
}

// unroll writes n rounds of a loop; bind binds the variables of round i, post follows the body.
func (t *tr) unroll(n int, label string, body []ast.Stmt, bind func(i int), post func(k func()), k func()) {
	save := t.frames
	var round func(i int)
	round = func(i int) {
		if i == n {
			s2 := t.frames
			t.frames = save
			k()
			t.frames = s2
			return
		}
		t.emit("{")
		bind(i)
		fr := ctlFrame{label: label, isLoop: true,
			breakK: func() {
				s2 := t.frames
				t.frames = save
				k()
				t.frames = s2
			},
			contK: func() { post(func() { round(i + 1) }) }}
		s2 := t.frames
		t.frames = append(append([]ctlFrame{}, save...), fr)
		t.stmts(body, func() { fr.contK() })
		t.frames = s2
		t.emit("}")
	}
	round(0)
}

func (t *tr) loopHead(n ast.Node, ls *loopSpec) string {
	t.label++
	lab := fmt.Sprintf("'l%d", t.label)
	t.emitGhost(ls.pre, "ghost code before the loop")
	t.emit("%s: loop", lab)
	if len(ls.inv) > 0 {
		t.emit("    invariant")
		for _, c := range ls.inv {
			t.emitClause(c, "loop invariant", ",")
		}
	}
	if ls.dec != "" {
		t.emitClause(clause{text: "decreases " + ls.dec, file: t.spec.file, line: t.spec.line}, "loop termination measure", ",")
	} else if ls.missing {
		t.emitClause(clause{text: "decreases 0int", file: t.spec.file, line: t.spec.line}, "loop without invariant or measure", ",")
	}
	t.emit("{")
	return lab
}

func (t *tr) forStmt(x *ast.ForStmt, label string, k func()) {
	t.emit("{")
	if n := t.unrolls(x); n > 0 {
		t.stmt(x.Init, func() {
			t.unroll(n, label, x.Body.List, func(int) {}, func(k func()) { t.stmt(x.Post, k) }, k)
		})
		t.emit("}")
		return
	}
	start := func() {
		ls := t.counted(x, t.loopSpec(x))
		lab := t.loopHead(x, ls)
		save := t.frames
		inner := func(f func()) {
			t.frames = append(append([]ctlFrame{}, save...), ctlFrame{
				label: label, isLoop: true,
				breakK: func() {
					s2 := t.frames
					t.frames = save
					t.emitGhost(ls.after, "ghost code after the loop")
					k()
					t.frames = s2
				},
				contK: func() {
					t.emitGhost(ls.tail, "ghost code at the end of the loop body")
					if x.Post != nil {
						t.stmt(x.Post, func() { t.emit("continue %s;", lab) })
					} else {
						t.emit("continue %s;", lab)
					}
				},
			})
			f()
			t.frames = save
		}
		fr := func() ctlFrame { return t.frames[len(t.frames)-1] }
		inner(func() {
			f := fr()
			bodyF := func() {
				t.emitGhost(ls.body, "ghost code in the loop body")
				t.emitSplit(ls.split)
				t.stmts(x.Body.List, func() { f.contK() })
			}
			if x.Cond == nil {
				bodyF()
				return
			}
			t.setPos(x.Cond)
			t.condK(x.Cond, bodyF, func() { f.breakK() })
		})
		t.emit("}")
	}
	if x.Init != nil {
		t.stmt(x.Init, start)
	} else {
		start()
	}
	t.emit("}")
}

func (t *tr) rangeStmt(x *ast.RangeStmt, label string, k func()) {
	if n := t.unrolls(x); n > 0 {
		arr, isArr := t.typeOf(x.X).Underlying().(*types.Array)
		t.emit("{")
		one := func(a string) {
			t.unroll(n, label, x.Body.List, func(i int) {
				if x.Key != nil {
					kt := types.Type(types.Typ[types.Int])
					if !isArr {
						kt = t.typeOf(x.X)
					}
					t.assignVal(x.Key, fmt.Sprintf("%d%s", i, t.rty(x, kt)), true, kt, x)
				}
				if x.Value != nil {
					t.assignVal(x.Value, fmt.Sprintf("%s.at_(%du64)", a, i), true, arr.Elem(), x)
				}
			}, func(k func()) { k() }, k)
		}
		if !isArr {
			one("")
		} else {
			t.hoist([]ast.Expr{x.X}, func() { one(t.atom(t.expr(x.X), "A2")) })
		}
		t.emit("}")
		return
	}
	switch xt := t.typeOf(x.X).Underlying().(type) {
	case *types.Chan:
		t.emit("{")
		t.hoist([]ast.Expr{x.X}, func() {
			ch := ""
			if id, ok := unparen(x.X).(*ast.Ident); ok {
				ch = t.nameOf(t.objOf(id))
			} else {
				ch = t.fresh("rch")
				s := t.expr(x.X)
				t.emit("let mut %s = %s;", ch, s)
			}
			ls := t.loopSpec(x)
			ls2 := *ls
			sub := func(s string) string { return strings.ReplaceAll(s, "$ch", ch) }
			ls2.inv = nil
			for _, c := range ls.inv {
				c.text = sub(c.text)
				ls2.inv = append(ls2.inv, c)
			}
			ls2.dec, ls2.pre, ls2.body, ls2.tail, ls2.after = sub(ls.dec), sub(ls.pre), sub(ls.body), sub(ls.tail), sub(ls.after)
			lab := t.loopHead(x, &ls2)
			save := t.frames
			v, okv := t.fresh("rv"), t.fresh("rok")
			fr := ctlFrame{label: label, isLoop: true,
				breakK: func() {
					s2 := t.frames
					t.frames = save
					t.emitGhost(ls2.after, "ghost code after the loop")
					k()
					t.frames = s2
				},
				contK: func() {
					t.emitGhost(ls2.tail, "ghost code at the end of the loop body")
					t.emit("continue %s;", lab)
				}}
			t.emit("let (%s, %s) = %s.recv_ok();", v, okv, ch)
			t.emit("if !%s {", okv)
			fr.breakK()
			t.emit("}")
			t.frames = append(append([]ctlFrame{}, save...), fr)
			if x.Key != nil {
				t.assignVal(x.Key, v, x.Tok == token.DEFINE, xt.Elem(), x)
			}
			t.emitGhost(ls2.body, "ghost code in the loop body")
			t.stmts(x.Body.List, func() { fr.contK() })
			t.frames = save
			t.emit("}")
		})
		t.emit("}")
		return
	case *types.Slice, *types.Array, *types.Basic:
		rt := t.rty(x, t.typeOf(x.X))
		isStr := rt == "Str"
		if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			t.fail(x, "range over a string (runes)")
		}
		if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			// for i := range n
			t.rangeIdx(x, label, t.atom(t.exprTo(x.X, t.typeOf(x.X)), rt), rt, nil, k)
			return
		}
		id, ok := unparen(x.X).(*ast.Ident)
		if !ok {
			t.fail(x, "range over an expression")
		}
		_ = isStr
		b := t.nameOf(t.objOf(id))
		var elem types.Type
		switch y := xt.(type) {
		case *types.Slice:
			elem = y.Elem()
		case *types.Array:
			elem = y.Elem()
		}
		n := t.fresh("len")
		t.emit("{")
		t.emit("let %s: i64 = %s.len_i();", n, b)
		if !t.writtenVar(t.objOf(id)) {
			t.rangeLen = n + " == " + b + "@.len()"
		}
		t.rangeIdx(x, label, n, "i64", func(i string) (string, types.Type) {
			return fmt.Sprintf("%s.at_((%s as u64))", b, i), elem
		}, k)
		t.emit("}")
		return
	}
	t.fail(x, "unsupported range")
}

// rangeIdx: for i := 0; i < n; i++ with the element bound by elem.
func (t *tr) rangeIdx(x *ast.RangeStmt, label, n, rt string, elem func(string) (string, types.Type), k func()) {
	t.emit("{")
	ri := t.fresh("ri")
	t.emit("let mut %s: %s = 0;", ri, rt)
	ls := t.loopSpec(x)
	ls2 := *ls
	sub := func(s string) string { return strings.ReplaceAll(s, "$i", ri) }
	ls2.inv = nil
	for _, c := range ls.inv {
		c.text = sub(c.text)
		ls2.inv = append(ls2.inv, c)
	}
	if t.rangeLen != "" {
		ls2.inv = append([]clause{{text: t.rangeLen, file: t.spec.file, line: t.spec.line}}, ls2.inv...)
		t.rangeLen = ""
	}
	ls2.dec, ls2.pre, ls2.body, ls2.tail, ls2.after = sub(ls.dec), sub(ls.pre), sub(ls.body), sub(ls.tail), sub(ls.after)
	if ls2.dec == "" {
		ls2.dec = n + " - " + ri
	}
	lab := t.loopHead(x, &ls2)
	save := t.frames
	fr := ctlFrame{label: label, isLoop: true,
		breakK: func() {
			s2 := t.frames
			t.frames = save
			t.emitGhost(ls2.after, "ghost code after the loop")
			k()
			t.frames = s2
		},
		contK: func() {
			t.emitGhost(ls2.tail, "ghost code at the end of the loop body")
			t.emit("%s = %s + 1;", ri, ri)
			t.emit("continue %s;", lab)
		}}
	t.emit("if !(%s < %s) {", ri, n)
	fr.breakK()
	t.emit("}")
	t.frames = append(append([]ctlFrame{}, save...), fr)
	if x.Key != nil {
		t.assignVal(x.Key, ri, x.Tok == token.DEFINE, types.Typ[types.Int], x)
	}
	if x.Value != nil {
		v, et := elem(ri)
		t.assignVal(x.Value, v, x.Tok == token.DEFINE, et, x)
	}
	t.emitGhost(ls2.body, "ghost code in the loop body")
	t.stmts(x.Body.List, func() { fr.contK() })
	t.frames = save
	t.emit("}")
	t.emit("}")
}

// ---------------------------------------------------------------- assignments

func (t *tr) declStmt(x *ast.DeclStmt, k func()) {
	gd := x.Decl.(*ast.GenDecl)
	switch gd.Tok {
	case token.CONST, token.TYPE:
		k()
		return
	case token.VAR:
		var es []ast.Expr
		for _, sp := range gd.Specs {
			es = append(es, sp.(*ast.ValueSpec).Values...)
		}
		t.hoist(es, func() {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) != 0 && len(vs.Values) != len(vs.Names) {
					t.fail(x, "unsupported variable declaration")
				}
				var vals []string
				for i, id := range vs.Names {
					ty := t.objTypeOf(id)
					if ty == nil {
						vals = append(vals, "")
						continue
					}
					if len(vs.Values) > 0 {
						vals = append(vals, t.exprTo(vs.Values[i], ty))
					} else {
						vals = append(vals, t.zero(id, ty))
					}
				}
				for i, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					o := t.l.info().Defs[id]
					t.emit("let mut %s: %s = %s;", t.nameOf(o), t.rty(id, o.Type()), vals[i])
				}
			}
			k()
		})
		return
	}
	t.fail(x, "unsupported declaration")
}

func (t *tr) objTypeOf(id *ast.Ident) types.Type {
	if o := t.l.info().Defs[id]; o != nil {
		return o.Type()
	}
	return nil
}

func (t *tr) assign(x *ast.AssignStmt, k func()) {
	def := x.Tok == token.DEFINE
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		op, ok := ops[x.Tok]
		if !ok {
			t.fail(x, "unsupported assignment")
		}
		t.hoist([]ast.Expr{x.Rhs[0]}, func() {
			t.opAssign(x.Lhs[0], op, "", x.Rhs[0], x)
			k()
		})
		return
	}
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		switch r := unparen(x.Rhs[0]).(type) {
		case *ast.CallExpr:
			fin := func(vals []string) {
				t.setPos(x)
				tup := t.typeOf(r).(*types.Tuple)
				for i, l := range x.Lhs {
					t.assignVal(l, vals[i], def, tup.At(i).Type(), x)
				}
				k()
			}
			if t.mustHoist(r) {
				t.hoist(r.Args, func() { t.inlineCall(r, fin) })
				return
			}
			t.hoist([]ast.Expr{r}, func() {
				t.setPos(x)
				fin(t.call(r))
			})
			return
		case *ast.TypeAssertExpr:
			t.hoist([]ast.Expr{r.X}, func() {
				nm := t.assertTid(r)
				a, b := t.fresh("ta"), t.fresh("tok")
				t.emit("let (%s, %s) = iface_as(%s, %s);", a, b, t.expr(r.X), nm)
				t.assignVal(x.Lhs[0], a, def, t.typeOf(r.Type), x)
				t.assignVal(x.Lhs[1], b, def, types.Typ[types.Bool], x)
				k()
			})
			return
		case *ast.UnaryExpr:
			if r.Op == token.ARROW {
				a, b := t.fresh("rv"), t.fresh("rok")
				t.emit("let (%s, %s) = %s.recv_ok();", a, b, t.chanExpr(r.X))
				t.assignVal(x.Lhs[0], a, def, t.typeOf(r.X).Underlying().(*types.Chan).Elem(), x)
				t.assignVal(x.Lhs[1], b, def, types.Typ[types.Bool], x)
				k()
				return
			}
		}
		t.fail(x, "unsupported multi-value assignment")
	}
	// function literals bound to a local variable
	if len(x.Lhs) == 1 && def {
		if lit, ok := unparen(x.Rhs[0]).(*ast.FuncLit); ok {
			o := t.l.info().Defs[x.Lhs[0].(*ast.Ident)]
			t.closure[o] = &closureEnv{lit: lit}
			k()
			return
		}
	}
	t.hoist(append(append([]ast.Expr{}, x.Rhs...), lhsExprs(x.Lhs)...), func() {
		t.setPos(x)
		if len(x.Lhs) == 1 {
			ty := t.lhsType(x.Lhs[0], x.Rhs[0])
			t.checkAlias(x.Rhs[0], ty)
			v := t.exprTo(x.Rhs[0], ty)
			t.assignVal(x.Lhs[0], v, def, ty, x)
			if id, ok := x.Lhs[0].(*ast.Ident); ok {
				if c, ok := unparen(x.Rhs[0]).(*ast.CallExpr); ok {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "make" {
						if _, ok := ty.Underlying().(*types.Chan); ok {
							t.localChan[t.objOf(id)] = true
						}
					}
				}
			}
			k()
			return
		}
		var vals []string
		for i, l := range x.Lhs {
			ty := t.lhsType(l, x.Rhs[i])
			t.checkAlias(x.Rhs[i], ty)
			v := t.fresh("pv")
			s := t.exprTo(x.Rhs[i], ty)
			t.emit("let %s: %s = %s;", v, t.rty(x, ty), s)
			vals = append(vals, v)
		}
		for i, l := range x.Lhs {
			t.assignVal(l, vals[i], def, t.lhsType(l, x.Rhs[i]), x)
		}
		k()
	})
}

func lhsExprs(ls []ast.Expr) []ast.Expr {
	var r []ast.Expr
	for _, l := range ls {
		if _, ok := l.(*ast.Ident); !ok {
			r = append(r, l)
		}
	}
	return r
}

// checkAlias refuses assignments that would alias a mutable slice or array.
func (t *tr) checkAlias(e ast.Expr, ty types.Type) {
	rt := t.rty(e, ty)
	if !strings.HasPrefix(rt, "Sl<") {
		return
	}
	switch y := unparen(e).(type) {
	case *ast.CallExpr, *ast.CompositeLit:
		_ = y
		return
	}
	t.fail(e, "slice or array alias")
}

func (t *tr) lhsType(l, r ast.Expr) types.Type {
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			ty := t.typeOf(r)
			if b, ok := ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return types.Default(ty)
			}
			return ty
		}
		return t.objOf(id).Type()
	}
	return t.typeOf(l)
}

func (t *tr) assignVal(l ast.Expr, v string, def bool, vt types.Type, at ast.Node) {
	l = unparen(l)
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			t.emit("let _ = %s;", v)
			return
		}
		if def {
			if o := t.l.info().Defs[id]; o != nil {
				v = t.coerce(at, v, vt, o.Type())
				delete(t.closure, o)
				t.emit("let mut %s: %s = %s;", t.nameOf(o), t.rty(l, o.Type()), v)
				return
			}
		}
		o := t.objOf(id)
		if vv, ok := o.(*types.Var); ok && vv.Pkg() != nil && vv.Parent() == vv.Pkg().Scope() {
			t.fail(at, "assignment to package variable %s", id.Name)
		}
		if t.byRef[o] {
			t.fail(at, "assignment to slice or channel parameter")
		}
		v = t.coerce(at, v, vt, o.Type())
		t.emit("%s = %s;", t.nameOf(o), v)
		return
	}
	v = t.coerce(at, v, vt, t.typeOf(l))
	t.store(l, v, at)
}

// store writes v to the field, element or pointee denoted by l.
func (t *tr) store(l ast.Expr, v string, at ast.Node) {
	path := ""
	idx := ""
	e := unparen(l)
	if ix, ok := e.(*ast.IndexExpr); ok {
		idx = t.idx(ix.Index)
		e = unparen(ix.X)
	}
	for {
		switch y := e.(type) {
		case *ast.ParenExpr:
			e = y.X
			continue
		case *ast.SelectorExpr:
			path = "." + rid(y.Sel.Name) + path
			if n, ok := ptrStruct(t.typeOf(y.X)); ok {
				t.heapStore(t.expr(y.X), n, path, idx, v, at)
				return
			}
			e = y.X
			continue
		case *ast.StarExpr:
			if n, ok := ptrStruct(t.typeOf(y.X)); ok {
				t.heapStore(t.expr(y.X), n, path, idx, v, at)
				return
			}
		case *ast.Ident:
			o := t.objOf(y)
			if vv, ok := o.(*types.Var); ok && vv.Pkg() != nil && vv.Parent() == vv.Pkg().Scope() {
				t.fail(at, "assignment to package variable %s", y.Name)
			}
			b := t.nameOf(o) + path
			if idx != "" {
				if t.rty(at, t.typeOf(unparen(l).(*ast.IndexExpr).X)) == "Str" {
					t.fail(at, "write to a byte string")
				}
				t.emit("%s.set_(%s, %s);", b, idx, v)
			} else {
				t.emit("%s = %s;", b, v)
			}
			return
		}
		t.fail(at, "unsupported assignment target")
	}
}

func (t *tr) heapStore(ptr string, n *types.Named, path, idx, v string, at ast.Node) {
	if t.spec.heap != "mut" {
		t.fail(at, "frame: heap write in a function whose contract does not modify the heap")
	}
	name := t.needStruct(n)
	p := t.atomv(ptr, "Ref")
	if strings.HasPrefix(v, "new_") {
		// keep
	}
	val := v
	if !reAtom.MatchString(v) || strings.Contains(v, "h.") {
		val = t.fresh("v")
		t.emit("let %s = %s;", val, v)
	}
	t.mayWrite(name, p, "a store")
	c := t.fresh("c")
	if path == "" {
		t.emit("h.%s.set(%s, %s);", name, p, val)
		return
	}
	iv := ""
	if idx != "" {
		iv = t.fresh("i")
		t.emit("let %s: u64 = %s;", iv, idx)
	}
	t.emit("let mut %s = h.%s.get(%s);", c, name, p)
	if idx != "" {
		t.emit("%s%s.set_(%s, %s);", c, path, iv, val)
	} else {
		t.emit("%s%s = %s;", c, path, val)
	}
	t.emit("h.%s.set(%s, %s);", name, p, c)
	for _, hk := range t.spec.hooks {
		if hk.callee == "$store" || hk.callee == "$store"+path {
			t.emitGhost(strings.ReplaceAll(hk.after, "$p", p), "ghost code after a heap write")
		}
	}
}

// mayWrite emits the obligation that object p, if it existed at entry, is one the contract
// allows the function to write.
func (t *tr) mayWrite(name, p, what string) {
	w := t.spec.writes
	if w == nil {
		return
	}
	alt := ""
	for _, e := range w.items[name] {
		alt += " || " + p + " == " + t.entryNames(e)
	}
	txt := t.subH(fmt.Sprintf("proof { assert(!H0.%s@.contains_key(%s)%s); }", name, p, alt), false)
	t.lines = append(t.lines, outLine{text: txt, fn: t.fnName, tags: w.tags,
		desc: fmt.Sprintf("%s write frame (%s:%d): %s may only change objects made by this call or listed in the contract", t.fnName, w.file, w.line, what)})
}

// entryNames replaces parameter names by their values at entry.
func (t *tr) entryNames(e string) string {
	sig := t.l.info().Defs[t.fnDecl.Name].Type().(*types.Signature)
	sub := func(v *types.Var) {
		if v != nil && v.Name() != "" && v.Name() != "_" {
			n := t.nameOf(v)
			e = regexp.MustCompile(`\b`+n+`\b`).ReplaceAllString(e, n+"_in")
		}
	}
	sub(sig.Recv())
	for i := 0; i < sig.Params().Len(); i++ {
		sub(sig.Params().At(i))
	}
	return e
}

// calleeWrites emits the same obligation for what a callee may write.
func (t *tr) calleeWrites(c ast.Node, sp *funcSpec, fn *types.Func, args []string) {
	if t.spec.writes == nil || sp.heap != "mut" {
		return
	}
	if sp.writes == nil {
		t.fail(c, "call of %s, whose contract does not say what it writes, in a function whose contract does", sp.name)
	}
	sig := fn.Type().(*types.Signature)
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	for name, es := range sp.writes.items {
		for _, e := range es {
			x := reH0.ReplaceAllString(e, "(*h)")
			k := 0
			base, _, _ := t.base(sp.pkg + ":" + sp.name)
			for i, p := range ps {
				if p.Name() != "" && p.Name() != "_" && i+1 < len(args) {
					n := p.Name()
					if k < len(base) {
						n = base[k]
					}
					k++
					x = regexp.MustCompile(`\b`+rid(n)+`\b`).ReplaceAllString(x, "("+args[i+1]+")")
				}
			}
			v := t.fresh("w")
			t.emit("let ghost %s = %s;", v, x)
			t.mayWrite(name, v, "the call of "+sp.name)
		}
	}
}

// opAssign: l op= r (r nil means the constant 1).
func (t *tr) opAssign(l ast.Expr, op token.Token, _ string, r ast.Expr, at ast.Node) {
	ty := t.typeOf(l)
	rt := t.rty(l, ty)
	rs := "1" + rt
	constR := true
	if r != nil {
		if op == token.SHL || op == token.SHR {
			if tv := t.l.info().Types[r]; tv.Value != nil {
				rs = tv.Value.ExactString() + rt
			} else {
				rs = "(" + t.expr(r) + " as " + rt + ")"
			}
		} else {
			constR = t.l.info().Types[r].Value != nil
			rs = t.exprTo(r, ty)
		}
	}
	cur := t.expr(l)
	v := t.binop(at, op, rt, cur, rs, constR)
	t.assignVal(l, v, false, ty, at)
}

func (t *tr) binop(at ast.Node, op token.Token, rt, l, r string, constR bool) string {
	switch op {
	case token.ADD:
		if rt == "Str" {
			return fmt.Sprintf("%s.concat(%s)", l, r)
		}
	case token.AND:
		if constR {
			return fmt.Sprintf("and_%s(%s, %s)", rt, l, r)
		}
	case token.AND_NOT:
		return fmt.Sprintf("(%s & (!%s))", l, r)
	case token.QUO, token.REM:
		if strings.HasPrefix(rt, "i") {
			t.fail(at, "signed division")
		}
	}
	return fmt.Sprintf("(%s %s %s)", l, op, r)
}
