package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// generated holds the Verus text of one unit and the map from its lines to obligations.
type generated struct {
	unit  *unitSpec
	lines []outLine
	funcs []*doneFunc
	std   []string
	trust []trustItem
}

type trustItem struct{ what, why string }

func (g *generated) text() string {
	var sb strings.Builder
	for _, l := range g.lines {
		sb.WriteString(l.text)
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (g *generated) line(n int) outLine {
	if n >= 1 && n <= len(g.lines) {
		return g.lines[n-1]
	}
	return outLine{}
}

func plain(s string, desc string) []outLine {
	var r []outLine
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		r = append(r, outLine{text: l, desc: desc})
	}
	return r
}

// localDefs lists the identifiers declared by fd, in source order.
func (t *tr) localDefs(fd *ast.FuncDecl) []*ast.Ident {
	var ids []*ast.Ident
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o := t.l.info().Defs[id]; o != nil {
				if _, ok := o.(*types.Var); ok && id.Name != "_" {
					ids = append(ids, id)
				}
			}
		}
		return true
	})
	return ids
}

// base gives the names and types of the parameters and locals the contract of fn was written with.
func (t *tr) base(key string) ([]string, []string, bool) {
	b, ok := t.vars[key]
	var ns, ts []string
	for _, x := range b {
		f := strings.SplitN(x, " ", 2)
		ns = append(ns, f[0])
		if len(f) > 1 {
			ts = append(ts, f[1])
		} else {
			ts = append(ts, "")
		}
	}
	return ns, ts, ok
}

func shortType(o types.Object) string {
	return types.TypeString(o.Type(), func(p *types.Package) string { return p.Name() })
}

// canonNames maps the names of parameters and locals to the ones the contracts were written with.
func (t *tr) canonNames(ids []*ast.Ident) {
	base, bty, ok := t.base(t.fnName)
	if !ok {
		return
	}
	obj := func(id *ast.Ident) types.Object { return t.l.info().Defs[id] }
	set := func(id *ast.Ident, n string) {
		if id.Name != n {
			t.canon[fmt.Sprint(obj(id).Pos())] = n
		}
	}
	np := 0
	if t.fnDecl != nil {
		if t.fnDecl.Recv != nil {
			np++
		}
		np += t.fnDecl.Type.Params.NumFields()
	}
	if np > len(ids) || np > len(base) {
		np = 0
	}
	for i := 0; i < np; i++ {
		set(ids[i], base[i])
	}
	// a local keeps its name where the contract knows a local of that name and type
	left := map[string]int{}
	for i := np; i < len(base); i++ {
		left[base[i]+" "+bty[i]]++
	}
	var lc []*ast.Ident
	for _, id := range ids[np:] {
		k := id.Name + " " + shortType(obj(id))
		if left[k] > 0 {
			left[k]--
			continue
		}
		lc = append(lc, id)
	}
	var lb []int
	for i := len(base) - 1; i >= np; i-- {
		k := base[i] + " " + bty[i]
		if left[k] > 0 {
			left[k]--
			lb = append([]int{i}, lb...)
		}
	}
	// what is left goes by type and order if the counts agree, else by order if all counts agree
	done := map[int]bool{}
	var rest []*ast.Ident
	for _, id := range lc {
		ty := shortType(obj(id))
		var same []int
		for _, i := range lb {
			if bty[i] == ty {
				same = append(same, i)
			}
		}
		k, n := 0, 0
		for _, o := range lc {
			if shortType(obj(o)) == ty {
				if o == id {
					k = n
				}
				n++
			}
		}
		if n == len(same) {
			set(id, base[same[k]])
			done[same[k]] = true
		} else {
			rest = append(rest, id)
		}
	}
	var rb []int
	for _, i := range lb {
		if !done[i] {
			rb = append(rb, i)
		}
	}
	if len(rb) == len(rest) {
		for k, id := range rest {
			// a number may have been given another width; anything else is a variable of another use
			if b, ok := obj(id).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && numericNames[bty[rb[k]]] {
				set(id, base[rb[k]])
			}
		}
	}
}

var numericNames = map[string]bool{"int": true, "int8": true, "int16": true, "int32": true, "int64": true,
	"uint": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true, "byte": true}

// reassigned lists the variables of fd that are written after their declaration.
func (t *tr) reassigned(fd *ast.FuncDecl) []types.Object {
	var r []types.Object
	seen := map[types.Object]bool{}
	add := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			o := t.l.info().Uses[id]
			if v, ok := o.(*types.Var); ok && !seen[o] && v.Pos() >= fd.Pos() && v.Pos() < fd.End() {
				seen[o] = true
				r = append(r, o)
			}
		}
	}
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				add(l)
			}
		case *ast.IncDecStmt:
			add(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				add(x.Key)
				add(x.Value)
			}
		}
		return true
	})
	return r
}

// aliases finds the new locals that do the work of a variable the contracts speak about: the code
// writes cur, made as a copy of n, where it wrote n before. Loop invariants then speak about cur.
func (t *tr) aliases(fd *ast.FuncDecl) {
	t.loopAlias = map[string]types.Object{}
	bn, bt, ok := t.base("=" + t.fnName)
	if !ok {
		return
	}
	all, _, _ := t.base(t.fnName)
	canon := func(o types.Object) string {
		if c, ok := t.canon[fmt.Sprint(o.Pos())]; ok {
			return c
		}
		return o.Name()
	}
	cur := map[string]bool{}
	var fresh []types.Object
	for _, o := range t.reassigned(fd) {
		n := canon(o)
		cur[n] = true
		if !hasStr(all, n) {
			fresh = append(fresh, o)
		}
	}
	from := map[types.Object]string{}
	ast.Inspect(fd, func(n ast.Node) bool {
		if x, ok := n.(*ast.AssignStmt); ok && len(x.Lhs) == len(x.Rhs) && x.Tok == token.DEFINE {
			for i := range x.Lhs {
				l, ok1 := x.Lhs[i].(*ast.Ident)
				r, ok2 := unparen(x.Rhs[i]).(*ast.Ident)
				if ok1 && ok2 && t.l.info().Defs[l] != nil && t.l.info().Uses[r] != nil {
					from[t.l.info().Defs[l]] = canon(t.l.info().Uses[r])
				}
			}
		}
		return true
	})
	for i, b := range bn {
		if cur[b] {
			continue
		}
		var c []types.Object
		for _, o := range fresh {
			if shortType(o) == bt[i] {
				if from[o] == b {
					c = []types.Object{o}
					break
				}
				c = append(c, o)
			}
		}
		if len(c) == 1 {
			t.loopAlias[b] = c[0]
		}
	}
}

func (t *tr) resetFn(sp *funcSpec, fd *ast.FuncDecl) {
	t.spec = sp
	t.fnName = sp.pkg + ":" + sp.name
	t.names = map[types.Object]string{}
	t.nameCnt = map[string]int{}
	t.canon = map[string]string{}
	t.label = 0
	t.loopOrd = map[string]int{}
	t.loopAlias = map[string]types.Object{}
	t.inl = nil
	t.inlPath = ""
	t.inlSites = nil
	t.inlCnt = map[string]int{}
	t.frames = nil
	t.subst = map[ast.Expr][]string{}
	t.closure = map[types.Object]*closureEnv{}
	t.byRef = map[types.Object]bool{}
	t.callCnt = map[string]int{}
	t.callSite = map[string]int{}
	t.defers = nil
	t.localChan = map[types.Object]bool{}
	t.inGo = 0
	t.fnDecl = fd
	t.ownNames = map[string]bool{}
	t.tmp = 0
	if fd == nil {
		return
	}
	// names of ghost variables are not available to the code's own locals
	for _, g := range sp.ghostNames() {
		t.nameCnt[g] = 1
	}
	ids := t.localDefs(fd)
	t.canonNames(ids)
	t.aliases(fd)
	for _, id := range ids {
		n := t.nameOf(t.l.info().Defs[id])
		t.ownNames[n] = true
		t.ownNames[id.Name] = true
	}
	ord := 0
	t.numberLoops(fd.Body, nil, &ord, 0)
}

// numberLoops gives every loop, including those of inlined helpers, its ordinal in source order.
func (t *tr) numberLoops(n ast.Node, sites []string, ord *int, depth int) {
	if n == nil || depth > 12 {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if t.unrolls(x) > 0 {
				return true
			}
			t.loopOrd[fmt.Sprintf("%s|%d", strings.Join(sites, ","), x.Pos())] = *ord
			*ord++
		case *ast.CallExpr:
			if !t.needsInline(x) {
				return true
			}
			cl := t.resolve(x)
			if cl.fn == nil {
				return true
			}
			if fd := t.declOf(cl.fn); fd != nil && fd.Body != nil {
				for _, a := range x.Args {
					t.numberLoops(a, sites, ord, depth+1)
				}
				t.numberLoops(fd.Body, append(append([]string{}, sites...), fmt.Sprint(x.Pos())), ord, depth+1)
				return false
			}
		}
		return true
	})
}

func (t *tr) signature(sp *funcSpec, f *types.Func) (string, []string, []*types.Var) {
	sig := f.Type().(*types.Signature)
	var ps []string
	var vars []*types.Var
	switch sp.heap {
	case "mut":
		ps = append(ps, "h: &mut Heap")
	case "ro":
		ps = append(ps, "h: &Heap")
	}
	add := func(v *types.Var, i int) {
		rt := t.rty(nil, v.Type())
		nm := ""
		if v.Name() == "" || v.Name() == "_" {
			nm = fmt.Sprintf("_p%d", i)
		} else {
			nm = t.nameOf(v)
		}
		if isRefLike(v.Type()) {
			t.byRef[v] = true
			ps = append(ps, nm+": &mut "+rt)
		} else {
			ps = append(ps, nm+": "+rt)
		}
		vars = append(vars, v)
	}
	if sig.Recv() != nil {
		add(sig.Recv(), 0)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		add(sig.Params().At(i), i+1)
	}
	if sp.ghostArg != "" {
		ps = append(ps, sp.ghostArg)
	}
	ret := ""
	switch sig.Results().Len() {
	case 0:
		ret = "()"
	case 1:
		ret = t.rty(nil, sig.Results().At(0).Type())
	default:
		var rs []string
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, t.rty(nil, sig.Results().At(i).Type()))
		}
		ret = "(" + strings.Join(rs, ", ") + ")"
	}
	return ret, ps, vars
}

func (t *tr) emitSpecClauses(sp *funcSpec) {
	if len(sp.requires) > 0 {
		t.emit("    requires")
		for _, c := range sp.requires {
			t.emitClause(c, "precondition", ",")
		}
	}
	if len(sp.ensures) > 0 {
		t.emit("    ensures")
		for _, c := range sp.ensures {
			t.emitClause(c, "postcondition", ",")
		}
	}
	if sp.decr != "" && sp.mode == "verify" {
		t.emitClause(clause{text: "decreases " + sp.decr, file: sp.file, line: sp.line}, "termination measure", ",")
	}
}

func (t *tr) function(sp *funcSpec) {
	n := len(sp.split)
	for _, ls := range sp.loops {
		if len(ls.split) > 0 {
			if n > 0 {
				panic("two case splits in " + sp.name)
			}
			n = len(ls.split)
		}
	}
	if n == 0 || sp.mode != "verify" {
		n = 1
	}
	if n > 1 && sp.decr != "" {
		panic("case split of a recursive function " + sp.name)
	}
	for i := 0; i < n; i++ {
		t.functionCase(sp, i)
	}
	t.caseN = 0
}

// trusted emits the signature and contract only.
func (t *tr) trusted(sp *funcSpec, fd *ast.FuncDecl, f *types.Func, rust string) {
	t.resetFn(sp, nil)
	t.fnDecl = fd
	t.canonNames(t.localDefs(fd))
	ret, ps, _ := t.signature(sp, f)
	t.emit("#[verifier::external_body]")
	t.emit("fn %s(%s) -> (%s: %s)", rust, strings.Join(ps, ", "), sp.retName, ret)
	t.emitSpecClauses(sp)
	t.emit("{ unimplemented!() }")
	t.emit("")
}

// stub stands in for a function that cannot be translated, so that its callers are still decided;
// the function itself is reported as failed.
func (t *tr) stub(sp *funcSpec, df *doneFunc) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(transErr); !ok {
				panic(r)
			}
		}
	}()
	if t.caseN > 0 {
		return
	}
	p, err := t.l.load(sp.pkg)
	if err != nil || p.funcs[sp.srcName()] == nil {
		return
	}
	fd := p.funcs[sp.srcName()]
	f := t.l.info().Defs[fd.Name].(*types.Func)
	n := len(t.lines)
	mode := sp.mode
	sp.mode = "trusted"
	defer func() { sp.mode = mode }()
	defer func() {
		if r := recover(); r != nil {
			t.lines = t.lines[:n]
			panic(r)
		}
	}()
	t.trusted(sp, fd, f, rustFn(f))
}

func (t *tr) functionCase(sp *funcSpec, caseN int) (df *doneFunc) {
	df = &doneFunc{spec: sp, caseN: caseN}
	t.caseN = caseN
	t.funcs = append(t.funcs, df)
	start := len(t.lines)
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(transErr)
			if !ok {
				panic(r)
			}
			df.err = te.msg
			t.lines = t.lines[:start]
			t.stub(sp, df)
		}
		df.start, df.end = start, len(t.lines)
	}()
	p, err := t.l.load(sp.pkg)
	if err != nil {
		panic(transErr{err.Error()})
	}
	fd := p.funcs[sp.srcName()]
	if msg, ok := t.u.broken[sp.pkg+":"+sp.name]; ok && fd != nil {
		panic(transErr{msg})
	}
	if fd == nil {
		panic(transErr{"function " + sp.pkg + ":" + sp.name + " does not exist in the source"})
	}
	f := t.l.info().Defs[fd.Name].(*types.Func)
	df.rust = rustFn(f)
	ps0 := t.l.fset.Position(fd.Pos())
	df.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps0.Filename, t.l.repo+"/"), ps0.Line)
	df.loc = t.l.fset.Position(fd.End()).Line - ps0.Line + 1
	if sp.mode != "verify" {
		t.trusted(sp, fd, f, df.rust)
		df.ok = true
		return
	}
	t.resetFn(sp, fd)
	t.curPos = fd.Pos()
	t.checkByteAlias(fd)
	ret, ps, vars := t.signature(sp, f)
	t.emit("#[verifier::loop_isolation(false)]")
	if caseN > 0 {
		df.rust += fmt.Sprintf("__case%d", caseN)
	}
	t.emit("#[verifier::spinoff_prover]")
	for _, a := range sp.attrs {
		t.emit("#[%s]", a)
	}
	t.emit("fn %s(%s) -> (%s: %s)", df.rust, strings.Join(ps, ", "), sp.retName, ret)
	t.emitSpecClauses(sp)
	t.emit("{")
	for _, v := range vars {
		if v.Name() == "" || v.Name() == "_" {
			continue
		}
		n := t.nameOf(v)
		if t.byRef[v] {
			t.emit("let ghost %s_in = *%s;", n, n)
		} else {
			t.emit("let ghost %s_in = %s;", n, n)
			t.emit("let mut %s = %s;", n, n)
		}
	}
	sig := f.Type().(*types.Signature)
	t.result = sig.Results()
	t.declResults(sig.Results())
	t.emitGhost(sp.entry, "ghost code at entry")
	t.emitSplit(sp.split)
	var mine []func()
	t.defers = []*[]func(){&mine}
	t.retK = func(vals []string) {
		for i := len(mine) - 1; i >= 0; i-- {
			mine[i]()
		}
		val := ""
		switch len(vals) {
		case 0:
			val = "()"
		case 1:
			val = vals[0]
		default:
			val = "(" + strings.Join(vals, ", ") + ")"
		}
		if strings.TrimSpace(sp.exit) == "" {
			t.emit("return %s;", val)
			return
		}
		t.emit("let %s: %s = %s;", sp.retName, ret, val)
		t.emitGhost(sp.exit, "ghost code at return")
		t.emit("return %s;", sp.retName)
	}
	t.stmts(fd.Body.List, func() {
		if sig.Results().Len() == 0 {
			t.retK(nil)
		}
	})
	t.emit("}")
	t.emit("")
	df.ok = true
	return
}

// globalFn emits the read-only package variable as a function.
func (t *tr) globalFn(sp *funcSpec) {
	df := &doneFunc{spec: sp}
	t.funcs = append(t.funcs, df)
	start := len(t.lines)
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(transErr)
			if !ok {
				panic(r)
			}
			df.err = te.msg
			t.lines = t.lines[:start]
		}
		df.start, df.end = start, len(t.lines)
	}()
	p, err := t.l.load(sp.pkg)
	if err != nil {
		panic(transErr{err.Error()})
	}
	v, ok := p.pkg.Scope().Lookup(sp.name).(*types.Var)
	if !ok {
		panic(transErr{"package variable " + sp.pkg + ":" + sp.name + " does not exist in the source"})
	}
	if w := t.assignedAnywhere(v); w != "" {
		panic(transErr{"package variable " + sp.name + " is assigned at " + w})
	}
	var init ast.Expr
	for _, f := range p.files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				for _, s := range gd.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, id := range vs.Names {
							if t.l.info().Defs[id] == v && i < len(vs.Values) {
								init = vs.Values[i]
							}
						}
					}
				}
			}
		}
	}
	if init == nil {
		panic(transErr{"package variable " + sp.name + " has no initializer"})
	}
	t.resetFn(sp, nil)
	t.curPos = init.Pos()
	name := v.Pkg().Name() + "_" + v.Name()
	df.rust = name
	pp := t.l.fset.Position(init.Pos())
	df.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, t.l.repo+"/"), pp.Line)
	df.loc = t.l.fset.Position(init.End()).Line - pp.Line + 1
	var elem types.Type
	switch y := v.Type().Underlying().(type) {
	case *types.Slice:
		elem = y.Elem()
	case *types.Array:
		elem = y.Elem()
	}
	if cl, ok := init.(*ast.CompositeLit); ok && elem != nil {
		rt := t.rty(nil, elem)
		if sp.mode != "verify" {
			t.emit("#[verifier::external_body]")
		}
		t.emit("fn %s(i: u64) -> (ret: %s)", name, rt)
		t.emitSpecClauses(sp)
		t.emit("{")
		if sp.mode != "verify" {
			t.emit("unimplemented!()")
		} else {
			for k, e := range cl.Elts {
				if _, ok := e.(*ast.KeyValueExpr); ok {
					t.fail(e, "keyed table")
				}
				t.setPos(e)
				val := t.exprTo(e, elem)
				t.emit("if i == %d {", k)
				t.emitGhost(strings.ReplaceAll(strings.ReplaceAll(sp.entry, "$i", fmt.Sprint(k)), "$v", val), "table entry")
				t.emit("return %s;", val)
				t.emit("}")
			}
			t.emit("return go_index_panic();")
		}
		t.emit("}")
		t.emit("")
		df.ok = true
		return
	}
	rt := t.rty(nil, v.Type())
	if sp.mode != "verify" {
		t.emit("#[verifier::external_body]")
	}
	t.emit("fn %s() -> (ret: %s)", name, rt)
	t.emitSpecClauses(sp)
	t.emit("{")
	if sp.mode != "verify" {
		t.emit("unimplemented!()")
	} else {
		s := t.exprTo(init, v.Type())
		t.emit("let ret: %s = %s;", rt, s)
		t.emitGhost(sp.exit, "ghost code")
		t.emit("return ret;")
	}
	t.emit("}")
	t.emit("")
	df.ok = true
}

// errorVars registers the package-level error variables of the unit's packages.
func (t *tr) errorVars() {
	for _, rel := range t.u.pkgs {
		p, err := t.l.load(rel)
		if err != nil {
			continue
		}
		names := p.pkg.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			if v, ok := p.pkg.Scope().Lookup(n).(*types.Var); ok && isError(v.Type()) {
				t.errVars[v.Pkg().Name()+"_"+n] = len(t.errOrd) + 1
				t.errOrd = append(t.errOrd, v.Pkg().Name()+"_"+n)
			}
		}
	}
}

// renamed finds the functions under contract that are no longer in the source. An unexported one
// may have got another name: a new function of the same type takes its contract (which is then
// verified against that function's body); failing that, callers are verified without it.
func (t *tr) renamed() {
	for _, sp := range t.u.funcs {
		if sp.isGlobal {
			continue
		}
		p, err := t.l.load(sp.pkg)
		if err != nil || p.funcs[sp.name] != nil {
			continue
		}
		recv, nm := "", sp.name
		if i := strings.Index(nm, "."); i >= 0 {
			recv, nm = nm[:i+1], nm[i+1:]
		}
		if ast.IsExported(nm) {
			continue
		}
		base := map[string]bool{}
		for _, n := range t.vars["#"+sp.pkg] {
			base[n] = true
		}
		want := t.vars["#"+sp.pkg+":"+sp.name]
		var cand []string
		for n, fd := range p.funcs {
			if base[n] || t.u.byName[sp.pkg+":"+n] != nil || !strings.HasPrefix(n, recv) || recv == "" && strings.Contains(n, ".") {
				continue
			}
			if f, ok := p.info.Defs[fd.Name].(*types.Func); ok && len(want) == 1 && sigString(f) == want[0] {
				cand = append(cand, n)
			}
		}
		if len(cand) == 1 {
			sp.src = cand[0]
			t.u.byName[sp.pkg+":"+cand[0]] = sp
		} else {
			sp.gone = true
		}
	}
}

// sigString writes a function's type without parameter names.
func sigString(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	q := func(p *types.Package) string { return p.Name() }
	var s []string
	for i := 0; i < sig.Params().Len(); i++ {
		s = append(s, types.TypeString(sig.Params().At(i).Type(), q))
	}
	s = append(s, "->")
	for i := 0; i < sig.Results().Len(); i++ {
		s = append(s, types.TypeString(sig.Results().At(i).Type(), q))
	}
	return strings.Join(s, " ")
}

func generate(l *loader, u *unitSpec, root string, vars map[string][]string) (*generated, error) {
	t := &tr{l: l, u: u, structs: map[string]*types.Named{}, errVars: map[string]int{}, tids: map[string]int{}, strLits: map[string]int{}, stdUsed: map[string]bool{}, globals: map[string]bool{}, vars: vars}
	for _, p := range u.pkgs {
		if _, err := l.load(p); err != nil {
			return nil, err
		}
	}
	t.errorVars()
	t.renamed()
	for _, s := range u.types {
		// make sure a named struct type is declared: pkg:Name
		f := strings.SplitN(s, ":", 2)
		p, err := l.load(f[0])
		if err != nil {
			return nil, err
		}
		o := p.pkg.Scope().Lookup(f[1])
		if o == nil {
			return nil, fmt.Errorf("type %s does not exist in the source", s)
		}
		if n, ok := o.Type().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							fmt.Fprintln(os.Stderr, "type", s, r)
						}
					}()
					t.needStruct(n)
				}()
			}
		}
	}
	for _, s := range u.tids {
		t.tid(s)
	}
	for _, sp := range u.funcs {
		if sp.inline || sp.gone {
			continue
		}
		if sp.isGlobal {
			t.globalFn(sp)
		} else {
			t.function(sp)
		}
	}
	g := &generated{unit: u, funcs: t.funcs}
	pre, err := os.ReadFile(filepath.Join(root, "prelude", "prelude.rs"))
	if err != nil {
		return nil, err
	}
	g.lines = append(g.lines, plain(string(pre), "prelude")...)
	var sb strings.Builder
	opq := map[string]bool{}
	for _, s := range u.opaque {
		f := strings.SplitN(s, ":", 2)
		p, err := l.load(f[0])
		if err != nil {
			return nil, err
		}
		if o := p.pkg.Scope().Lookup(f[1]); o != nil {
			if n, ok := o.Type().(*types.Named); ok {
				opq[structName(n)] = true
			}
		}
	}
	for _, n := range t.structOrd {
		st := t.structs[n].Underlying().(*types.Struct)
		fmt.Fprintf(&sb, "#[derive(Clone, Copy)]\npub struct %s {", n)
		if opq[n] {
			fmt.Fprintf(&sb, " pub opaque_: Ref, }\n")
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fmt.Fprintf(&sb, " pub %s: %s,", rid(st.Field(i).Name()), t.rty(nil, st.Field(i).Type()))
		}
		fmt.Fprintf(&sb, " }\n")
	}
	refl := false
	for _, f := range u.funcs {
		refl = refl || f.panics
	}
	if refl {
		// what package reflect sees of the structs: their types and the places of their fields
		for _, n := range t.structOrd {
			st := t.structs[n].Underlying().(*types.Struct)
			fmt.Fprintf(&sb, "pub spec const RT_%s: int = %d;\npub spec const NF_%s: int = %d;\n", n, t.rtypeID(types.TypeString(t.structs[n], nil)), n, st.NumFields())
			for i := 0; i < st.NumFields(); i++ {
				fmt.Fprintf(&sb, "pub spec const FI_%s_%s: int = %d;\n", n, st.Field(i).Name(), i)
			}
		}
	}
	fmt.Fprintf(&sb, "pub struct Heap {")
	for _, n := range t.structOrd {
		fmt.Fprintf(&sb, " pub %s: Mem<%s>,", n, n)
	}
	fmt.Fprintf(&sb, " }\n")
	for i, n := range t.tidOrd {
		fmt.Fprintf(&sb, "pub const TID_%s: u64 = %d;\n", n, i+1)
	}
	for i, n := range t.errOrd {
		fmt.Fprintf(&sb, "pub const E_%s: Err = Err { code: %d };\n", n, i+1)
	}
	for _, k := range sortedKeys2(t.opaque) {
		sb.WriteString(t.opaque[k])
	}
	for i, s := range t.strOrd {
		var bs []string
		for _, b := range []byte(s) {
			bs = append(bs, fmt.Sprintf("%du8", b))
		}
		fmt.Fprintf(&sb, "#[verifier::external_body] pub fn str_lit_%d() -> (r: Str) ensures r@ == seq![%s], !r.nil() { unimplemented!() }\n", i, strings.Join(bs, ", "))
	}
	g.lines = append(g.lines, plain(sb.String(), "type declarations")...)
	for _, th := range u.theory {
		g.lines = append(g.lines, plain(th, "theory")...)
	}
	if u.rust != "" {
		g.lines = append(g.lines, plain(u.rust, "theory")...)
	}
	base := len(g.lines)
	g.lines = append(g.lines, t.lines...)
	for _, f := range g.funcs {
		f.start += base
		f.end += base
	}
	g.lines = append(g.lines, plain("} // verus!\nfn main() {}", "end")...)
	g.std = sortedKeys(t.stdUsed)
	return g, nil
}

func sortedKeys2(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
