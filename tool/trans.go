package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// The translator turns the typed AST of the functions under contract into Verus exec
// functions over an explicit heap. It is purely syntax directed; every construct it does not
// know is reported (transErr) and the function counts as undecided, never as proved.

type transErr struct{ msg string }

type outLine struct {
	text string
	desc string // obligation description attached to the line
	fn   string
	tags []string
}

type tr struct {
	l     *loader
	u     *unitSpec
	lines []outLine
	caseN int

	structs   map[string]*types.Named // rust name -> type
	structOrd []string
	errVars   map[string]int
	errOrd    []string
	tids      map[string]int
	tidOrd    []string
	strLits   map[string]int
	strOrd    []string
	stdUsed   map[string]bool
	globals   map[string]bool
	rtypes    []string

	// current function
	spec      *funcSpec
	fnName    string
	names     map[types.Object]string
	nameCnt   map[string]int
	opaque    map[string]string // library functions of which nothing is assumed
	canon     map[string]string // Go name -> canonical name
	tmp       int
	label     int
	loopOrd   map[string]int
	inl       []string // inline stack
	inlPath   string
	inlCnt    map[string]int
	frames    []ctlFrame
	retK      func(vals []string)
	subst     map[ast.Expr][]string
	closure   map[types.Object]*closureEnv
	byRef     map[types.Object]bool
	callCnt   map[string]int
	callSite  map[string]int
	curPos    token.Pos
	result    *types.Tuple
	funcs     []*doneFunc
	defers    []*[]func()
	localChan map[types.Object]bool
	inGo      int
	inlSites  []string
	fnDecl    *ast.FuncDecl
	ownNames  map[string]bool
	vars      map[string][]string
	rangeLen  string
	specNames map[string]bool
	loopAlias map[string]types.Object
	usesErr   bool
}

type doneFunc struct {
	spec  *funcSpec
	rust  string
	ok    bool
	err   string
	start int
	end   int
	pos   string
	loc   int
	caseN int // 1, 2, ...: a copy of the function for one of its cases
}

type closureEnv struct {
	lit   *ast.FuncLit
	outer *tr
}

type ctlFrame struct {
	label  string
	isLoop bool
	breakK func()
	contK  func()
}

func (t *tr) fail(n ast.Node, f string, a ...interface{}) {
	pos := ""
	if n != nil {
		p := t.l.fset.Position(n.Pos())
		pos = fmt.Sprintf("%s:%d: ", strings.TrimPrefix(p.Filename, t.l.repo+"/"), p.Line)
	}
	panic(transErr{pos + fmt.Sprintf(f, a...)})
}

func (t *tr) posDesc() string {
	if !t.curPos.IsValid() {
		return ""
	}
	p := t.l.fset.Position(t.curPos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, t.l.repo+"/"), p.Line)
}

func (t *tr) emit(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	d := t.posDesc()
	for _, l := range strings.Split(s, "\n") {
		t.lines = append(t.lines, outLine{text: l, desc: d, fn: t.fnName})
	}
}

func (t *tr) emitClause(c clause, kind, suffix string) {
	txt := t.subH(c.text, kind != "invariant")
	for _, l := range strings.Split(txt+suffix, "\n") {
		t.lines = append(t.lines, outLine{text: "      " + l, desc: fmt.Sprintf("%s %s (%s:%d): %s", t.fnName, kind, c.file, c.line, oneLine(c.text)), fn: t.fnName, tags: c.tags})
	}
}

func (t *tr) emitGhost(s string, what string) {
	if strings.TrimSpace(s) == "" {
		return
	}
	txt := t.subH(s, false)
	for _, l := range strings.Split(txt, "\n") {
		t.lines = append(t.lines, outLine{text: l, desc: t.fnName + " " + what + ": " + strings.TrimSpace(l), fn: t.fnName})
	}
}

// emitSplit restricts this copy of the function to its case; the first copy also proves
// that the cases are exhaustive.
func (t *tr) emitSplit(cases []string) {
	if len(cases) == 0 {
		return
	}
	if t.caseN == 0 {
		t.emitGhost("proof { assert(("+strings.Join(cases, ") || (")+")); }", "exhaustive cases")
	}
	i := t.caseN
	if i >= len(cases) {
		t.fail(nil, "case number")
	}
	t.lines = append(t.lines, outLine{text: "proof { assume(" + t.subH(cases[i], false) + "); }", desc: "case split", fn: t.fnName})
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

var reH0 = regexp.MustCompile(`\bH0\b`)
var reH1 = regexp.MustCompile(`\bH1\b`)

// subH replaces H0/H1 (entry/current heap) in specification text.
func (t *tr) subH(s string, isSig bool) string {
	h0, h1 := "h", "h"
	if t.spec != nil && t.spec.heap == "mut" {
		h0 = "old(h)"
		if isSig {
			h1 = "final(h)"
		}
	}
	s = reH0.ReplaceAllString(s, h0)
	return reH1.ReplaceAllString(s, h1)
}

func (t *tr) fresh(p string) string {
	t.tmp++
	return fmt.Sprintf("%s_%d", p, t.tmp)
}

// ---------------------------------------------------------------- types

func structName(n *types.Named) string {
	return n.Obj().Pkg().Name() + "_" + n.Obj().Name()
}

func (t *tr) needStruct(n *types.Named) string {
	name := structName(n)
	if _, ok := t.structs[name]; !ok {
		t.structs[name] = n
		t.structOrd = append(t.structOrd, name)
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			t.rty(nil, st.Field(i).Type())
		}
	}
	return name
}

func isIface(ty types.Type) bool {
	_, ok := ty.Underlying().(*types.Interface)
	return ok
}

func isError(ty types.Type) bool {
	n, ok := ty.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func pkgTypeName(ty types.Type) string {
	n, ok := ty.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func ptrStruct(ty types.Type) (*types.Named, bool) {
	p, ok := ty.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return nil, false
	}
	_, ok = n.Underlying().(*types.Struct)
	return n, ok
}

// rty is the Rust type of a Go type.
func (t *tr) rty(at ast.Node, ty types.Type) string {
	switch pkgTypeName(ty) {
	case "net.IP", "net.IPMask":
		return "Str"
	case "reflect.Value":
		return "RVal"
	case "reflect.Type":
		return "RType"
	}
	if isError(ty) {
		return "Err"
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.Int, types.UntypedInt, types.Int64:
			return "i64"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.Uint8:
			return "u8"
		case types.Uint16:
			return "u16"
		case types.Uint32:
			return "u32"
		case types.Uint64, types.Uint:
			return "u64"
		case types.String, types.UntypedString:
			return "Str"
		}
	case *types.Pointer:
		if n, ok := ptrStruct(ty); ok {
			t.needStruct(n)
			return "Ref"
		}
	case *types.Struct:
		if n, ok := ty.(*types.Named); ok {
			return t.needStruct(n)
		}
	case *types.Interface:
		return "Iface"
	case *types.Array:
		if u.Len() == 2 {
			if _, ok := ptrStruct(u.Elem()); ok {
				t.rty(at, u.Elem())
				return "A2"
			}
		}
		return "Sl<" + t.rty(at, u.Elem()) + ">"
	case *types.Slice:
		return "Sl<" + t.rty(at, u.Elem()) + ">"
	case *types.Chan:
		return "Chan<" + t.rty(at, u.Elem()) + ">"
	case *types.Signature:
		if n, ok := ty.(*types.Named); ok {
			return n.Obj().Name()
		}
		if u.Params().Len() == 1 && u.Results().Len() == 1 && t.rty(at, u.Params().At(0).Type()) == "Str" && isError(u.Results().At(0).Type()) {
			return "LabelFunc"
		}
	}
	t.fail(at, "unsupported type %s", ty)
	return ""
}

func isRefLike(ty types.Type) bool {
	if n := pkgTypeName(ty); n == "net.IP" || n == "net.IPMask" {
		return false
	}
	switch ty.Underlying().(type) {
	case *types.Slice, *types.Chan:
		return true
	}
	if _, ok := ty.(*types.Signature); ok {
		return true
	}
	if n, ok := ty.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Signature); ok && n.Obj().Name() == "UpdateDescendantsCallback" {
			return true
		}
	}
	return false
}

func (t *tr) zero(at ast.Node, ty types.Type) string {
	switch pkgTypeName(ty) {
	case "net.IP", "net.IPMask":
		return "Str::nil_()"
	case "reflect.Type":
		return "RType { id: 0 }"
	}
	if isError(ty) {
		return "ERR_NIL"
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return "Str::empty()"
		case u.Info()&types.IsInteger != 0:
			return "0" + t.rty(at, ty)
		}
	case *types.Pointer:
		return "NIL"
	case *types.Interface:
		return "Iface::Nil"
	case *types.Struct:
		if n, ok := ty.(*types.Named); ok {
			return t.structLit(at, n, map[string]string{})
		}
	case *types.Signature:
		if t.rty(at, ty) == "Compare" {
			return "Compare { id: 0 }"
		}
	case *types.Array:
		if t.rty(at, ty) == "A2" {
			return "A2 { a: NIL, b: NIL }"
		}
		return fmt.Sprintf("Sl::make(%d, %s)", u.Len(), t.zero(at, u.Elem()))
	}
	t.fail(at, "no zero value for %s", ty)
	return ""
}

func (t *tr) structLit(at ast.Node, n *types.Named, vals map[string]string) string {
	name := t.needStruct(n)
	st := n.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v, ok := vals[f.Name()]
		if !ok {
			v = t.zero(at, f.Type())
		}
		fs = append(fs, rid(f.Name())+": "+v)
	}
	return name + " { " + strings.Join(fs, ", ") + " }"
}

var rustKw = map[string]bool{"ref": true, "match": true, "type": true, "fn": true, "loop": true, "mut": true, "box": true, "move": true, "impl": true, "in": true, "let": true, "self": true, "use": true, "mod": true, "pub": true, "where": true, "as": true, "crate": true, "dyn": true, "enum": true, "super": true, "trait": true, "unsafe": true, "async": true, "await": true, "h": true, "old": true, "ret": true, "proof": true, "spec": true, "int": true, "nat": true, "exec": true, "open": true, "closed": true, "tracked": true, "ghost": true, "by": true, "final": true, "priv": true, "abstract": true, "become": true, "do": true, "macro": true, "override": true, "typeof": true, "unsized": true, "virtual": true, "yield": true, "try": true}

func rid(s string) string {
	if rustKw[s] {
		return s + "_"
	}
	if s == "_" {
		return "_u"
	}
	return s
}

func (t *tr) typeOf(e ast.Expr) types.Type {
	tv, ok := t.l.info().Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := t.objOf(id); o != nil {
			return o.Type()
		}
	}
	t.fail(e, "no type for expression")
	return nil
}

func (t *tr) objOf(id *ast.Ident) types.Object {
	if o := t.l.info().Defs[id]; o != nil {
		return o
	}
	return t.l.info().Uses[id]
}

func (t *tr) isBase(g string) bool {
	b, _, _ := t.base(t.fnName)
	return hasStr(b, g)
}

var reSpecFn = regexp.MustCompile(`\bfn\s+(\w+)`)

// specFns are the names of the functions the theories define.
func (t *tr) specFns() map[string]bool {
	if t.specNames == nil {
		t.specNames = map[string]bool{}
		for _, th := range t.u.theory {
			for _, m := range reSpecFn.FindAllStringSubmatch(th, -1) {
				t.specNames[m[1]] = true
			}
		}
	}
	return t.specNames
}

func (t *tr) nameOf(o types.Object) string {
	if n, ok := t.names[o]; ok {
		return n
	}
	g := o.Name()
	if t.fnDecl != nil && o.Pos() >= t.fnDecl.Pos() && o.Pos() < t.fnDecl.End() {
		if c, ok := t.canon[fmt.Sprint(o.Pos())]; ok {
			g = c
		}
	} else if t.ownNames[g] {
		g = t.inlPath + g
	}
	g = rid(g)
	if !t.isBase(g) && t.specFns()[g] {
		g += "_v" // the contracts call a spec function of that name
	}
	k := t.nameCnt[g]
	t.nameCnt[g]++
	n := g
	if k > 0 {
		n = fmt.Sprintf("%s__%d", g, k)
	}
	t.names[o] = n
	return n
}

// ---------------------------------------------------------------- constants

func (t *tr) constExpr(e ast.Expr, v constant.Value, ty types.Type) string {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	case constant.Int:
		r := t.rty(e, ty)
		if r == "Iface" {
			t.fail(e, "integer constant in interface")
		}
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + r + ")"
		}
		return s + r
	case constant.String:
		s := constant.StringVal(v)
		if s == "" {
			return "Str::empty()"
		}
		k, ok := t.strLits[s]
		if !ok {
			k = len(t.strOrd)
			t.strLits[s] = k
			t.strOrd = append(t.strOrd, s)
		}
		return fmt.Sprintf("str_lit_%d()", k)
	}
	t.fail(e, "unsupported constant")
	return ""
}

// ---------------------------------------------------------------- expressions

// coerce converts a translated value of Go type from to Go type to.
func (t *tr) coerce(at ast.Node, s string, from, to types.Type) string {
	if to == nil || from == nil {
		return s
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return t.nilOf(at, to)
	}
	if isIface(to) && !isError(to) && !isIface(from) {
		if n, ok := ptrStruct(from); ok {
			tn := from
			nm := ""
			if nn, ok := tn.(*types.Named); ok {
				nm = nn.Obj().Pkg().Name() + "_" + nn.Obj().Name()
			} else {
				nm = "P" + structName(n)
			}
			return fmt.Sprintf("Iface::Ptr(%s, %s)", t.tid(nm), s)
		}
		if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "Iface::S(" + s + ")"
		}
		t.fail(at, "unsupported conversion of %s to interface", from)
	}
	return s
}

func (t *tr) tid(n string) string {
	if _, ok := t.tids[n]; !ok {
		t.tids[n] = len(t.tidOrd) + 1
		t.tidOrd = append(t.tidOrd, n)
	}
	return "TID_" + n
}

func (t *tr) nilOf(at ast.Node, to types.Type) string {
	if isError(to) {
		return "ERR_NIL"
	}
	if pkgTypeName(to) == "reflect.Type" {
		return "RType { id: 0 }"
	}
	switch to.Underlying().(type) {
	case *types.Pointer:
		return "NIL"
	case *types.Interface:
		return "Iface::Nil"
	}
	switch pkgTypeName(to) {
	case "net.IP", "net.IPMask":
		return "Str::nil_()"
	}
	t.fail(at, "nil of type %s", to)
	return ""
}

// exprTo translates e and converts it to type to.
func (t *tr) exprTo(e ast.Expr, to types.Type) string {
	if t.isNil(e) {
		return t.nilOf(e, to)
	}
	tv := t.l.info().Types[e]
	if tv.Value != nil && to != nil && !isIface(to) {
		return t.constExpr(e, tv.Value, to)
	}
	return t.coerce(e, t.expr(e), t.typeOf(e), to)
}

func (t *tr) isNil(e ast.Expr) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return t.isNil(p.X)
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = t.l.info().Uses[id].(*types.Nil)
	return ok
}

func (t *tr) heapGet(at ast.Node, ptr string, n *types.Named) string {
	name := t.needStruct(n)
	if t.spec != nil && t.spec.heap == "none" {
		t.fail(at, "frame: heap access in a function whose contract reads no heap")
	}
	return fmt.Sprintf("h.%s.get(%s)", name, ptr)
}

func (t *tr) capture(f func() string) (string, []outLine) {
	save := t.lines
	defer func() { t.lines = save }()
	t.lines = nil
	r := f()
	return r, t.lines
}

func (t *tr) idx(e ast.Expr) string {
	tv := t.l.info().Types[e]
	if tv.Value != nil {
		return tv.Value.ExactString() + "u64"
	}
	s := t.expr(e)
	if t.rty(e, t.typeOf(e)) == "u64" {
		return s
	}
	return "(" + s + " as u64)"
}

func (t *tr) expr(e ast.Expr) string {
	if v, ok := t.subst[e]; ok && len(v) == 1 {
		return v[0]
	}
	tv, okTV := t.l.info().Types[e]
	if okTV && tv.Value != nil {
		return t.constExpr(e, tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.expr(x.X)
	case *ast.Ident:
		o := t.objOf(x)
		switch v := o.(type) {
		case *types.Nil:
			return t.nilOf(x, t.typeOf(e))
		case *types.Var:
			if v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return t.global(x, v)
			}
			return t.nameOf(v)
		}
		t.fail(e, "unsupported identifier %s", x.Name)
	case *ast.SelectorExpr:
		if sel, ok := t.l.info().Selections[x]; ok {
			if sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
				t.fail(e, "unsupported selector")
			}
			xt := t.typeOf(x.X)
			if n, ok := ptrStruct(xt); ok {
				return t.heapGet(e, t.expr(x.X), n) + "." + rid(x.Sel.Name)
			}
			return t.expr(x.X) + "." + rid(x.Sel.Name)
		}
		o := t.l.info().Uses[x.Sel]
		if v, ok := o.(*types.Var); ok {
			return t.global(x, v)
		}
		if f, ok := o.(*types.Func); ok && f.FullName() == "strings.Compare" {
			t.stdUsed["strings.Compare"] = true
			return "strings_Compare_value()"
		}
		t.fail(e, "unsupported qualified identifier")
	case *ast.StarExpr:
		if n, ok := ptrStruct(t.typeOf(x.X)); ok {
			return t.heapGet(e, t.expr(x.X), n)
		}
	case *ast.IndexExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if v, ok := t.objOf(id).(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return t.globalIndex(x, v)
			}
		}
		i := t.idx(x.Index)
		b := t.expr(x.X)
		return fmt.Sprintf("%s.at_(%s)", b, i)
	case *ast.SliceExpr:
		return t.sliceExpr(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "(!" + t.expr(x.X) + ")"
		case token.XOR:
			return "(!" + t.expr(x.X) + ")"
		case token.SUB:
			return "(-" + t.expr(x.X) + ")"
		case token.AND:
			if cl, ok := x.X.(*ast.CompositeLit); ok {
				return t.alloc(e, t.compositeLit(cl), t.typeOf(cl))
			}
		case token.ARROW:
			c := t.chanExpr(x.X)
			v := t.fresh("rcv")
			t.emit("let %s = %s.recv();", v, c)
			return v
		}
	case *ast.CompositeLit:
		return t.compositeLit(x)
	case *ast.BinaryExpr:
		return t.binary(x)
	case *ast.CallExpr:
		r := t.call(x)
		if len(r) != 1 {
			t.fail(e, "call with %d results in expression", len(r))
		}
		return r[0]
	case *ast.TypeAssertExpr:
		nm := t.assertTid(x)
		return fmt.Sprintf("iface_must(%s, %s)", t.expr(x.X), nm)
	case *ast.FuncLit:
		t.fail(e, "unsupported function literal")
	}
	t.fail(e, "unsupported expression %T", e)
	return ""
}

func (t *tr) assertTid(x *ast.TypeAssertExpr) string {
	ty := t.typeOf(x.Type)
	n, ok := ptrStruct(ty)
	if !ok {
		t.fail(x, "unsupported type assertion to %s", ty)
	}
	nm := "P" + structName(n)
	if nn, ok := ty.(*types.Named); ok {
		nm = nn.Obj().Pkg().Name() + "_" + nn.Obj().Name()
	}
	return t.tid(nm)
}

func (t *tr) alloc(at ast.Node, val string, ty types.Type) string {
	n, ok := ty.(*types.Named)
	if !ok {
		t.fail(at, "allocation of unnamed type")
	}
	if t.spec.heap != "mut" {
		t.fail(at, "frame: allocation in a function whose contract does not modify the heap")
	}
	v := t.fresh("new")
	t.emit("let %s = h.%s.alloc(%s);", v, t.needStruct(n), val)
	return v
}

func (t *tr) compositeLit(x *ast.CompositeLit) string {
	ty := t.typeOf(x)
	if nm := pkgTypeName(ty); nm == "net.IP" || nm == "net.IPMask" {
		var es []string
		for _, el := range x.Elts {
			es = append(es, t.exprTo(el, types.Typ[types.Uint8]))
		}
		return fmt.Sprintf("Str::lit%d(%s)", len(es), strings.Join(es, ", "))
	}
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		n, ok := ty.(*types.Named)
		if !ok {
			t.fail(x, "anonymous struct literal")
		}
		vals := map[string]string{}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				fn := kv.Key.(*ast.Ident).Name
				var ft types.Type
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == fn {
						ft = u.Field(j).Type()
					}
				}
				vals[fn] = t.atom(t.exprTo(kv.Value, ft), t.rty(kv.Value, ft))
			} else {
				vals[u.Field(i).Name()] = t.atom(t.exprTo(el, u.Field(i).Type()), t.rty(el, u.Field(i).Type()))
			}
		}
		return t.structLit(x, n, vals)
	case *types.Array:
		if t.rty(x, ty) == "A2" {
			v := []string{"NIL", "NIL"}
			for i, el := range x.Elts {
				if _, ok := el.(*ast.KeyValueExpr); ok {
					t.fail(x, "keyed array literal")
				}
				v[i] = t.atom(t.exprTo(el, u.Elem()), "Ref")
			}
			return fmt.Sprintf("A2 { a: %s, b: %s }", v[0], v[1])
		}
	}
	t.fail(x, "unsupported composite literal of %s", ty)
	return ""
}

var reAtom = regexp.MustCompile(`^[A-Za-z_0-9:.]+$`)

// atom binds s to a temporary unless it is already atomic, fixing evaluation order.
func (t *tr) atom(s, ty string) string {
	if reAtom.MatchString(s) || strings.HasPrefix(s, "Str::empty") {
		return s
	}
	v := t.fresh("v")
	t.emit("let %s: %s = %s;", v, ty, s)
	return v
}

func (t *tr) binary(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		l := t.expr(x.X)
		var r string
		r, sub := t.capture(func() string { return t.expr(x.Y) })
		op := "&&"
		if x.Op == token.LOR {
			op = "||"
		}
		if len(sub) == 0 {
			return fmt.Sprintf("(%s %s %s)", l, op, r)
		}
		v := t.fresh("c")
		t.emit("let mut %s: bool = %s;", v, l)
		if x.Op == token.LAND {
			t.emit("if %s {", v)
		} else {
			t.emit("if !%s {", v)
		}
		t.lines = append(t.lines, sub...)
		t.emit("%s = %s;", v, r)
		t.emit("}")
		return v
	}
	xt, yt := t.typeOf(x.X), t.typeOf(x.Y)
	switch x.Op {
	case token.SHL, token.SHR:
		l := t.expr(x.X)
		lt := t.rty(x.X, t.typeOf(x))
		var r string
		if tv := t.l.info().Types[x.Y]; tv.Value != nil {
			r = tv.Value.ExactString() + lt
		} else {
			r = t.expr(x.Y)
			if t.rty(x.Y, yt) != lt {
				r = "(" + r + " as " + lt + ")"
			}
		}
		return fmt.Sprintf("(%s %s %s)", l, x.Op, r)
	}
	// operand type
	ot := xt
	if t.isNil(x.X) || (t.l.info().Types[x.X].Value != nil && t.l.info().Types[x.Y].Value == nil) {
		ot = yt
	}
	if isIface(xt) && !isIface(yt) && !t.isNil(x.Y) {
		ot = xt
	}
	l := t.exprTo(x.X, ot)
	r, sub := t.capture(func() string { return t.exprTo(x.Y, ot) })
	if len(sub) > 0 {
		l = t.atom(l, t.rty(x.X, ot))
		t.lines = append(t.lines, sub...)
	}
	rt := t.rty(x, ot)
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := ""
		if x.Op == token.NEQ {
			neg = "!"
		}
		switch rt {
		case "Str":
			if t.isNil(x.Y) {
				return fmt.Sprintf("(%s%s.is_nil())", neg, l)
			}
			return fmt.Sprintf("(%s%s.eq_(%s))", neg, l, r)
		case "Iface":
			if t.isNil(x.Y) {
				return fmt.Sprintf("(%siface_is_nil(%s))", neg, l)
			}
			t.fail(x, "interface comparison")
		case "Err":
			return fmt.Sprintf("(%serr_eq(%s, %s))", neg, l, r)
		case "Ref":
			return fmt.Sprintf("(%sref_eq(%s, %s))", neg, l, r)
		case "RType":
			return fmt.Sprintf("(%srtype_eq(%s, %s))", neg, l, r)
		case "A2":
			t.fail(x, "array comparison")
		}
		return fmt.Sprintf("(%s %s %s)", l, x.Op, r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if rt == "Str" {
			t.fail(x, "string ordering operator")
		}
		return fmt.Sprintf("(%s %s %s)", l, x.Op, r)
	case token.ADD:
		if rt == "Str" {
			return fmt.Sprintf("%s.concat(%s)", l, r)
		}
		return fmt.Sprintf("(%s + %s)", l, r)
	case token.AND:
		if tv := t.l.info().Types[x.Y]; tv.Value != nil {
			return fmt.Sprintf("and_%s(%s, %s)", rt, l, r)
		}
		return fmt.Sprintf("(%s & %s)", l, r)
	case token.SUB, token.MUL, token.OR, token.XOR:
		return fmt.Sprintf("(%s %s %s)", l, x.Op, r)
	case token.AND_NOT:
		return fmt.Sprintf("(%s & (!%s))", l, r)
	case token.QUO, token.REM:
		if strings.HasPrefix(rt, "i") {
			t.fail(x, "signed division")
		}
		return fmt.Sprintf("(%s %s %s)", l, x.Op, r)
	}
	t.fail(x, "unsupported operator %s", x.Op)
	return ""
}

func (t *tr) sliceExpr(x *ast.SliceExpr) string {
	ty := t.typeOf(x.X)
	rt := t.rty(x.X, ty)
	b := t.expr(x.X)
	lo, hi := "0u64", ""
	if x.Low != nil {
		lo = t.idx(x.Low)
	}
	if x.High != nil {
		hi = t.idx(x.High)
	} else {
		hi = b + ".len()"
	}
	if rt == "Str" {
		return fmt.Sprintf("%s.sub(%s, %s)", b, lo, hi)
	}
	if strings.HasPrefix(rt, "Sl<") {
		return fmt.Sprintf("%s.sub(%s, %s)", b, lo, hi)
	}
	t.fail(x, "unsupported slice expression")
	return ""
}

// global: package-level variables are read-only (checked) and become functions.
func (t *tr) global(at ast.Expr, v *types.Var) string {
	pk := pkgRel(v.Pkg())
	if isError(v.Type()) {
		n := v.Pkg().Name() + "_" + v.Name()
		if _, ok := t.errVars[n]; !ok {
			if w := t.assignedAnywhere(v); w != "" {
				t.fail(at, "package variable %s is assigned at %s", v.Name(), w)
			}
			t.errVars[n] = len(t.errOrd) + 1
			t.errOrd = append(t.errOrd, n)
		}
		return "E_" + n
	}
	if sp, ok := t.u.byName[pk+":"+v.Name()]; ok && sp.isGlobal {
		if w := t.assignedAnywhere(v); w != "" {
			t.fail(at, "package variable %s is assigned at %s", v.Name(), w)
		}
		t.globals[pk+":"+v.Name()] = true
		return fmt.Sprintf("%s_%s()", v.Pkg().Name(), v.Name())
	}
	if pkgTypeName(v.Type()) == "reflect.Type" {
		if w := t.assignedAnywhere(v); w != "" {
			t.fail(at, "package variable %s is assigned at %s", v.Name(), w)
		}
		if c, ok := t.initOf(v).(*ast.CallExpr); ok {
			if r, ok := t.typeOfCall(c); ok {
				return r
			}
		}
	}
	t.fail(at, "package variable %s has no contract", v.Name())
	return ""
}

// initOf is the expression a package variable is initialised with.
func (t *tr) initOf(v *types.Var) ast.Expr {
	p, err := t.l.load(pkgRel(v.Pkg()))
	if err != nil {
		return nil
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Values) != len(vs.Names) {
					continue
				}
				for i, n := range vs.Names {
					if t.l.info().Defs[n] == types.Object(v) {
						return unparen(vs.Values[i])
					}
				}
			}
		}
	}
	return nil
}

// typeOfCall: reflect.TypeOf of an expression whose type is not an interface is a constant.
func (t *tr) typeOfCall(c *ast.CallExpr) (string, bool) {
	cl := t.resolve(c)
	if cl.fn == nil || cl.fn.FullName() != "reflect.TypeOf" || len(cl.args) != 1 {
		return "", false
	}
	ty := t.typeOf(cl.args[0])
	if b, ok := ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		ty = types.Default(ty)
	}
	if isIface(ty) {
		return "", false
	}
	return fmt.Sprintf("RType { id: %d }", t.rtypeID(types.TypeString(ty, nil))), true
}

func (t *tr) rtypeID(s string) int {
	if s == "string" {
		return 1
	}
	for i, n := range t.rtypes {
		if n == s {
			return i + 2
		}
	}
	t.rtypes = append(t.rtypes, s)
	return len(t.rtypes) + 1
}

func (t *tr) globalIndex(x *ast.IndexExpr, v *types.Var) string {
	pk := pkgRel(v.Pkg())
	sp, ok := t.u.byName[pk+":"+v.Name()]
	if !ok || !sp.isGlobal {
		t.fail(x, "package variable %s has no contract", v.Name())
	}
	if w := t.assignedAnywhere(v); w != "" {
		t.fail(x, "package variable %s is assigned at %s", v.Name(), w)
	}
	t.globals[pk+":"+v.Name()] = true
	return fmt.Sprintf("%s_%s(%s)", v.Pkg().Name(), v.Name(), t.idx(x.Index))
}

// assignedAnywhere reports a write to (or address taken of) package variable v.
func (t *tr) assignedAnywhere(v *types.Var) string {
	rel := pkgRel(v.Pkg())
	p, err := t.l.load(rel)
	if err != nil {
		return err.Error()
	}
	bad := ""
	root := func(e ast.Expr) bool {
		for {
			switch y := e.(type) {
			case *ast.IndexExpr:
				e = y.X
			case *ast.ParenExpr:
				e = y.X
			case *ast.SliceExpr:
				e = y.X
			case *ast.SelectorExpr:
				if t.l.info().Uses[y.Sel] == v {
					return true
				}
				return false
			case *ast.Ident:
				return t.l.info().Uses[y] == v
			default:
				return false
			}
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if root(l) {
						bad = t.l.fset.Position(y.Pos()).String()
					}
				}
			case *ast.IncDecStmt:
				if root(y.X) {
					bad = t.l.fset.Position(y.Pos()).String()
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND && root(y.X) {
					bad = t.l.fset.Position(y.Pos()).String()
				}
			}
			return true
		})
	}
	return bad
}

// ---------------------------------------------------------------- calls

var stdFuncs = map[string]string{
	"math/bits.LeadingZeros32": "bits_LeadingZeros32",
	"math/bits.LeadingZeros64": "bits_LeadingZeros64",
	"strings.Compare":          "strings_Compare",
	"net.CIDRMask":             "net_CIDRMask",
	"net.IP.Mask":              "net_IP_Mask",
	"net.IP.To4":               "net_IP_To4",
	"net.IP.To16":              "net_IP_To16",
	"net.IPMask.Size":          "net_IPMask_Size",
	"reflect.Value.Type":       "reflect_Value_Type",
	"reflect.Value.Kind":       "reflect_Value_Kind",
	"reflect.Value.Elem":       "reflect_Value_Elem",
	"reflect.Value.Field":      "reflect_Value_Field",
	"reflect.Value.NumField":   "reflect_Value_NumField",
	"reflect.Value.String":     "reflect_Value_String",
	"reflect.Value.IsValid":    "reflect_Value_IsValid",
	"reflect.Value.IsNil":      "reflect_Value_IsNil",
	"reflect.Indirect":         "reflect_Indirect",
}

type callee struct {
	fn   *types.Func
	recv ast.Expr
	args []ast.Expr
	lit  *ast.FuncLit
	dyn  ast.Expr // call of a function value
}

func (t *tr) resolve(c *ast.CallExpr) callee {
	fun := c.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := t.objOf(f).(type) {
		case *types.Func:
			return callee{fn: o, args: c.Args}
		case *types.Var:
			if cl, ok := t.closure[o]; ok {
				return callee{lit: cl.lit, args: c.Args}
			}
			return callee{dyn: f, args: c.Args}
		}
	case *ast.SelectorExpr:
		if sel, ok := t.l.info().Selections[f]; ok {
			if sel.Kind() == types.MethodVal {
				return callee{fn: sel.Obj().(*types.Func), recv: f.X, args: c.Args}
			}
			return callee{dyn: f, args: c.Args}
		}
		if o, ok := t.l.info().Uses[f.Sel].(*types.Func); ok {
			return callee{fn: o, args: c.Args}
		}
	case *ast.FuncLit:
		return callee{lit: f, args: c.Args}
	}
	return callee{}
}

func (t *tr) specFor(f *types.Func) *funcSpec {
	return t.u.byName[pkgRel(f.Pkg())+":"+objName(f)]
}

// needsInline reports whether the call must be inlined at statement level.
func (t *tr) needsInline(c *ast.CallExpr) bool {
	if _, ok := t.subst[c]; ok {
		return false
	}
	if tv, ok := t.l.info().Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return false
	}
	cl := t.resolve(c)
	if cl.lit != nil {
		return true
	}
	if cl.fn == nil {
		return false
	}
	if pkgRel(cl.fn.Pkg()) == "" {
		return false
	}
	sp := t.specFor(cl.fn)
	if sp != nil && !sp.inline {
		return false
	}
	return true
}

func (t *tr) call(c *ast.CallExpr) []string {
	if v, ok := t.subst[c]; ok {
		return v
	}
	if tv, ok := t.l.info().Types[c.Fun]; ok {
		if tv.IsType() {
			return []string{t.conversion(c, tv.Type)}
		}
		if tv.IsBuiltin() {
			return t.builtin(c)
		}
	}
	cl := t.resolve(c)
	if cl.fn != nil && pkgRel(cl.fn.Pkg()) != "" {
		defer func() {
			for i, a := range cl.args {
				if id, ok := unparen(a).(*ast.Ident); ok && !t.isNil(id) && !cl.fn.Type().(*types.Signature).Variadic() {
					if h, yes := t.clobbers(cl.fn, i, 4); yes {
						nm := t.nameOf(t.objOf(id))
						t.emit("%s = %s.clobber(%du64);", nm, nm, h)
					}
				}
			}
		}()
	}
	if cl.dyn != nil {
		return t.dynCall(c, cl)
	}
	if cl.fn == nil {
		t.fail(c, "unsupported call")
	}
	sig := cl.fn.Type().(*types.Signature)
	if pkgRel(cl.fn.Pkg()) == "" {
		return t.stdCall(c, cl, sig)
	}
	sp := t.specFor(cl.fn)
	if sp == nil || sp.inline {
		// single-expression helper: inline in place
		if e, ok := t.singleReturn(cl.fn); ok {
			return t.inlineExpr(c, cl, e)
		}
		t.fail(c, "call of %s, which has no contract, in a position where it cannot be inlined", objName(cl.fn))
	}
	var args []string
	if sp.heap == "mut" {
		if t.spec.heap != "mut" {
			t.fail(c, "frame: call of %s, which modifies the heap, in a function whose contract does not", sp.name)
		}
		args = append(args, "h")
	} else if sp.heap == "ro" {
		if t.spec.heap == "none" {
			t.fail(c, "frame: call of %s, which reads the heap, in a function whose contract does not", sp.name)
		}
		args = append(args, "h")
	}
	if cl.recv != nil {
		rt := sig.Recv().Type()
		a := t.expr(cl.recv)
		if _, ok := ptrStruct(rt); ok {
			if _, ok := ptrStruct(t.typeOf(cl.recv)); !ok {
				t.fail(c, "method call on addressable value")
			}
		} else if n, ok := ptrStruct(t.typeOf(cl.recv)); ok {
			a = t.heapGet(c, a, n)
		}
		args = append(args, t.atom(a, t.rty(c, rt)))
	}
	if sig.Variadic() {
		t.fail(c, "variadic call")
	}
	for i, a := range cl.args {
		args = append(args, t.arg(a, sig.Params().At(i).Type(), cl.fn, i))
	}
	if sp.ghostArg != "" {
		args = append(args, "Ghost(arbitrary())")
	}
	nm := rustFn(cl.fn)
	key := sp.name
	ord := t.callOrd(key, c)
	for _, hk := range t.spec.hooks {
		if hk.callee == key && (hk.ord < 0 || hk.ord == ord) {
			s := hk.before
			for i, a := range args {
				s = strings.ReplaceAll(s, fmt.Sprintf("$a%d", i), a)
			}
			t.emitGhost(s, "ghost code before call of "+key)
		}
	}
	t.calleeWrites(c, sp, cl.fn, args)
	nres := sig.Results().Len()
	var res []string
	switch nres {
	case 0:
		t.emit("%s(%s);", nm, strings.Join(args, ", "))
	case 1:
		v := t.fresh("r")
		t.emit("let %s = %s(%s);", v, nm, strings.Join(args, ", "))
		res = []string{v}
	default:
		for i := 0; i < nres; i++ {
			res = append(res, t.fresh("r"))
		}
		t.emit("let (%s) = %s(%s);", strings.Join(res, ", "), nm, strings.Join(args, ", "))
	}
	for _, hk := range t.spec.hooks {
		if hk.callee == key && (hk.ord < 0 || hk.ord == ord) {
			s := hk.after
			for i, r := range res {
				s = strings.ReplaceAll(s, fmt.Sprintf("$r%d", i), r)
			}
			for i, a := range args {
				s = strings.ReplaceAll(s, fmt.Sprintf("$a%d", i), a)
			}
			t.emitGhost(s, "ghost code after call of "+key)
		}
	}
	return res
}

// callOrd numbers the call sites of key in order of first translation; code that is
// emitted more than once keeps its number.
func (t *tr) callOrd(key string, c *ast.CallExpr) int {
	k := key + "|" + t.loopKey(c)
	o, ok := t.callSite[k]
	if !ok {
		o = t.callCnt[key]
		t.callCnt[key]++
		t.callSite[k] = o
	}
	return o
}

func rustFn(f *types.Func) string {
	return f.Pkg().Name() + "_" + strings.ReplaceAll(objName(f), ".", "_")
}

// arg translates an argument for a parameter of type pt. Slices, channels and callbacks are
// passed by mutable reference.
func (t *tr) arg(a ast.Expr, pt types.Type, fn *types.Func, i int) string {
	if isRefLike(pt) {
		switch x := a.(type) {
		case *ast.Ident:
			o := t.objOf(x)
			if t.byRef[o] {
				return t.nameOf(o)
			}
			return "&mut " + t.nameOf(o)
		case *ast.SliceExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				o := t.objOf(id)
				nm := t.nameOf(o)
				if x.Low == nil && x.High == nil {
					if t.byRef[o] {
						return nm
					}
					return "&mut " + nm
				}
				if fn != nil && t.writesParam(fn, i) {
					t.fail(a, "sub-slice passed to a function that writes it")
				}
				v := t.fresh("sl")
				s := t.sliceExpr(x)
				t.emit("let mut %s = %s;", v, s)
				return "&mut " + v
			}
		}
		t.fail(a, "unsupported slice or channel argument")
	}
	return t.atom(t.exprTo(a, pt), t.rty(a, pt))
}

// writesParam: does the function's body write elements of its i-th parameter?
func (t *tr) writesParam(fn *types.Func, i int) bool {
	p, err := t.l.load(pkgRel(fn.Pkg()))
	if err != nil {
		return true
	}
	fd := p.funcs[objName(fn)]
	if fd == nil || fd.Body == nil {
		return true
	}
	par := fn.Type().(*types.Signature).Params().At(i)
	w := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					if id, ok := ix.X.(*ast.Ident); ok && t.l.info().Uses[id] == par {
						w = true
					}
				}
			}
		case *ast.CallExpr:
			for _, a := range y.Args {
				e := a
				if s, ok := e.(*ast.SliceExpr); ok {
					e = s.X
				}
				if id, ok := e.(*ast.Ident); ok && t.l.info().Uses[id] == par {
					if f, ok := y.Fun.(*ast.Ident); ok && f.Name == "len" {
						continue
					}
					w = true
				}
			}
		}
		return true
	})
	return w
}

// opaquePkgs hold functions without side effects; those taking and returning plain values are
// called as functions about whose result nothing is known.
var opaquePkgs = map[string]bool{"strings": true, "math/bits": true, "math": true, "strconv": true, "unicode": true, "unicode/utf8": true}
var opaqueNot = map[string]bool{"strings.Repeat": true, "math/bits.Div": true, "math/bits.Div32": true, "math/bits.Div64": true, "math/bits.Rem": true, "math/bits.Rem32": true, "math/bits.Rem64": true}

func plainValue(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return isError(ty)
	}
	return b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 && b.Kind() != types.Uintptr
}

func (t *tr) opaqueCall(c *ast.CallExpr, cl callee, sig *types.Signature, full string) []string {
	ok := opaquePkgs[cl.fn.Pkg().Path()] && !opaqueNot[full] && sig.Recv() == nil && !sig.Variadic()
	for i := 0; ok && i < sig.Params().Len(); i++ {
		ok = plainValue(sig.Params().At(i).Type())
	}
	for i := 0; ok && i < sig.Results().Len(); i++ {
		ok = plainValue(sig.Results().At(i).Type())
	}
	if !ok || sig.Results().Len() == 0 {
		t.fail(c, "call of %s, which has no contract", full)
	}
	nm := "opaque_" + strings.NewReplacer("/", "_", ".", "_").Replace(full)
	var args, ps, rs, res []string
	for i, a := range cl.args {
		pt := sig.Params().At(i).Type()
		args = append(args, t.atom(t.exprTo(a, pt), t.rty(a, pt)))
		ps = append(ps, fmt.Sprintf("_p%d: %s", i, t.rty(a, pt)))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, t.rty(c, sig.Results().At(i).Type()))
		res = append(res, t.fresh("r"))
	}
	rt, lhs := rs[0], res[0]
	if len(rs) > 1 {
		rt, lhs = "("+strings.Join(rs, ", ")+")", "("+strings.Join(res, ", ")+")"
	}
	if t.opaque == nil {
		t.opaque = map[string]string{}
	}
	t.opaque[nm] = fmt.Sprintf("#[verifier::external_body] pub fn %s(%s) -> (r: %s) { unimplemented!() }\n", nm, strings.Join(ps, ", "), rt)
	t.stdUsed[full+" (nothing assumed of its result)"] = true
	t.emit("let %s = %s(%s);", lhs, nm, strings.Join(args, ", "))
	return res
}

func (t *tr) stdCall(c *ast.CallExpr, cl callee, sig *types.Signature) []string {
	full := ""
	if sig.Recv() != nil {
		full = cl.fn.Pkg().Path() + "." + objName(cl.fn)
	} else {
		full = cl.fn.Pkg().Path() + "." + cl.fn.Name()
	}
	if r, ok := t.typeOfCall(c); ok {
		return []string{r}
	}
	if full == "fmt.Errorf" || full == "errors.New" {
		return []string{"err_opaque()"}
	}
	rn, ok := stdFuncs[full]
	if !ok {
		return t.opaqueCall(c, cl, sig, full)
	}
	t.stdUsed[full] = true
	var args []string
	if cl.recv != nil {
		args = append(args, t.expr(cl.recv))
	}
	for i, a := range cl.args {
		args = append(args, t.exprTo(a, sig.Params().At(i).Type()))
	}
	s := fmt.Sprintf("%s(%s)", rn, strings.Join(args, ", "))
	n := sig.Results().Len()
	if n == 1 {
		return []string{s}
	}
	var res []string
	for i := 0; i < n; i++ {
		res = append(res, t.fresh("r"))
	}
	t.emit("let (%s) = %s;", strings.Join(res, ", "), s)
	return res
}

func (t *tr) dynCall(c *ast.CallExpr, cl callee) []string {
	ty := t.typeOf(cl.dyn)
	sig := ty.Underlying().(*types.Signature)
	var args []string
	for i, a := range cl.args {
		args = append(args, t.atom(t.exprTo(a, sig.Params().At(i).Type()), t.rty(a, sig.Params().At(i).Type())))
	}
	f := t.expr(cl.dyn)
	nres := sig.Results().Len()
	var res []string
	for i := 0; i < nres; i++ {
		res = append(res, t.fresh("r"))
	}
	lhs := strings.Join(res, ", ")
	if nres != 1 {
		lhs = "(" + lhs + ")"
	}
	key := "$" + t.rty(c, ty)
	for _, hk := range t.spec.hooks {
		if hk.callee == key {
			t.emitGhost(hk.before, "ghost code before call of "+key)
		}
	}
	t.emit("let %s = %s.call_(%s);", lhs, f, strings.Join(args, ", "))
	for _, hk := range t.spec.hooks {
		if hk.callee == key {
			s := hk.after
			for i, r := range res {
				s = strings.ReplaceAll(s, fmt.Sprintf("$r%d", i), r)
			}
			for i, a := range args {
				s = strings.ReplaceAll(s, fmt.Sprintf("$a%d", i), a)
			}
			t.emitGhost(s, "ghost code after call of "+key)
		}
	}
	return res
}

func (t *tr) conversion(c *ast.CallExpr, to types.Type) string {
	a := c.Args[0]
	from := t.typeOf(a)
	rf, rtt := "", t.rty(c, to)
	if t.isNil(a) {
		return t.nilOf(c, to)
	}
	if rtt == "Str" {
		// string(b[i:j])
		if s, ok := a.(*ast.SliceExpr); ok {
			if strings.HasPrefix(t.rty(s.X, t.typeOf(s.X)), "Sl<") {
				b := t.expr(s.X)
				lo, hi := "0u64", b+".len()"
				if s.Low != nil {
					lo = t.idx(s.Low)
				}
				if s.High != nil {
					hi = t.idx(s.High)
				}
				return fmt.Sprintf("sl_to_str(&%s, %s, %s)", b, lo, hi)
			}
		}
	}
	rf = t.rty(a, from)
	s := t.expr(a)
	if rf == rtt {
		return s
	}
	if strings.HasPrefix(rtt, "u") || strings.HasPrefix(rtt, "i") {
		return "(" + s + " as " + rtt + ")"
	}
	if isIface(to) && !isError(to) {
		return t.coerce(c, s, from, to)
	}
	t.fail(c, "unsupported conversion %s -> %s", from, to)
	return ""
}

func (t *tr) builtin(c *ast.CallExpr) []string {
	nm := ""
	switch f := c.Fun.(type) {
	case *ast.Ident:
		nm = f.Name
	}
	switch nm {
	case "len":
		b := t.expr(c.Args[0])
		if t.rty(c, t.typeOf(c.Args[0])) == "Str" {
			return []string{b + ".len_i()"}
		}
		return []string{b + ".len_i()"}
	case "new":
		ty := t.typeOf(c.Args[0])
		return []string{t.alloc(c, t.zero(c, ty), ty)}
	case "make":
		ty := t.typeOf(c.Args[0])
		switch u := ty.Underlying().(type) {
		case *types.Chan:
			return []string{"Chan::<" + t.rty(c, u.Elem()) + ">::make()"}
		case *types.Slice:
			if t.rty(c, ty) == "Str" {
				return []string{fmt.Sprintf("Str::zeros(%s)", t.idx(c.Args[1]))}
			}
			return []string{fmt.Sprintf("Sl::make(%s, %s)", t.idx(c.Args[1]), t.zero(c, u.Elem()))}
		}
	case "append":
		ty := t.typeOf(c)
		if t.rty(c, ty) == "Str" && c.Ellipsis.IsValid() && len(c.Args) == 2 {
			b := t.expr(c.Args[1])
			if s, ok := c.Args[0].(*ast.SliceExpr); ok {
				// append to a prefix of a byte slice may overwrite what follows in the array (alias.go)
				a := t.sliceExpr(s)
				v := t.fresh("ap")
				t.emit("let %s: Str = %s.concat(%s);", v, a, t.atom(b, "Str"))
				id, ok := unparen(s.X).(*ast.Ident)
				if !ok {
					t.fail(c, "append to a part of a byte slice that is not a variable")
				}
				o := t.nameOf(t.objOf(id))
				t.emit("%s = %s.clobber(%du64);", o, o, (&aliasInfo{t: t}).high(s))
				return []string{v}
			}
			a := t.expr(c.Args[0])
			return []string{fmt.Sprintf("%s.concat(%s)", a, b)}
		}
	case "copy":
		d, ok1 := c.Args[0].(*ast.SliceExpr)
		s, ok2 := c.Args[1].(*ast.SliceExpr)
		if ok1 && ok2 {
			db, sb := t.expr(d.X), t.expr(s.X)
			dl, dh, sl, sh := "0u64", db+".len()", "0u64", sb+".len()"
			if d.Low != nil {
				dl = t.idx(d.Low)
			}
			if d.High != nil {
				dh = t.idx(d.High)
			}
			if s.Low != nil {
				sl = t.idx(s.Low)
			}
			if s.High != nil {
				sh = t.idx(s.High)
			}
			a1, a2, a3, a4 := t.fresh("i"), t.fresh("i"), t.fresh("i"), t.fresh("i")
			t.emit("let (%s, %s, %s, %s) = (%s, %s, %s, %s);", a1, a2, a3, a4, dl, dh, sl, sh)
			v := t.fresh("n")
			t.emit("let %s = sl_copy(&mut %s, %s, %s, &%s, %s, %s);", v, db, a1, a2, sb, a3, a4)
			return []string{v}
		}
	case "close":
		t.emit("%s.close();", t.chanExpr(c.Args[0]))
		return nil
	case "panic":
		if t.spec.panics {
			t.emit("go_panic_expected();")
		} else {
			t.emit("go_panic();")
		}
		return nil
	case "cap":
		t.fail(c, "cap")
	}
	t.fail(c, "unsupported builtin %s", nm)
	return nil
}

func (t *tr) chanExpr(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		t.fail(e, "unsupported channel expression")
	}
	return t.nameOf(t.objOf(id))
}

// ---------------------------------------------------------------- inlining

func (t *tr) declOf(f *types.Func) *ast.FuncDecl {
	p, err := t.l.load(pkgRel(f.Pkg()))
	if err != nil {
		return nil
	}
	return p.funcs[objName(f)]
}

func (t *tr) singleReturn(f *types.Func) (ast.Expr, bool) {
	fd := t.declOf(f)
	if fd == nil || fd.Body == nil || len(fd.Body.List) != 1 {
		return nil, false
	}
	r, ok := fd.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return nil, false
	}
	return r.Results[0], true
}

func (t *tr) pushInline(key string) func() {
	for _, k := range t.inl {
		if k == key {
			panic(transErr{"recursive function " + key + " has no contract"})
		}
	}
	t.inl = append(t.inl, key)
	saveP := t.inlPath
	n := t.inlCnt[saveP+key]
	short := key
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	short = strings.Map(func(r rune) rune {
		if r == ':' || r == '/' {
			return '_'
		}
		return r
	}, short)
	_ = n
	t.inlPath = saveP + short + "_"
	return func() {
		t.inl = t.inl[:len(t.inl)-1]
		t.inlPath = saveP
	}
}

func (t *tr) bindParams(cl callee, fd *ast.FuncType, recv *ast.FieldList, at ast.Node) {
	bind := func(id *ast.Ident, a ast.Expr) {
		o := t.l.info().Defs[id]
		if o == nil || id.Name == "_" {
			return
		}
		pt := o.Type()
		if lit, ok := a.(*ast.FuncLit); ok {
			t.closure[o] = &closureEnv{lit: lit}
			return
		}
		if isRefLike(pt) {
			if x, ok := a.(*ast.Ident); ok {
				ao := t.objOf(x)
				t.names[o] = t.nameOf(ao)
				t.byRef[o] = t.byRef[ao]
				return
			}
			t.fail(at, "slice or channel argument of inlined call")
		}
		if id2, ok := unparen(a).(*ast.Ident); ok && isByteSeq(pt) && !t.isNil(id2) && cl.fn != nil && t.declOf(cl.fn) != nil {
			sg := cl.fn.Type().(*types.Signature)
			for i := 0; i < sg.Params().Len(); i++ {
				if sg.Params().At(i) == o {
					if _, yes := t.clobbers(cl.fn, i, 4); yes {
						t.names[o] = t.nameOf(t.objOf(id2))
						return
					}
				}
			}
		}
		s := t.exprTo(a, pt)
		delete(t.names, o)
		t.emit("let mut %s: %s = %s;", t.nameOf(o), t.rty(at, pt), s)
	}
	// evaluate arguments in the caller's name space
	saveP := t.inlPath
	_ = saveP
	if recv != nil && len(recv.List) == 1 && len(recv.List[0].Names) == 1 {
		bind(recv.List[0].Names[0], cl.recv)
	}
	i := 0
	for _, f := range fd.Params.List {
		for _, id := range f.Names {
			bind(id, cl.args[i])
			i++
		}
		if len(f.Names) == 0 {
			i++
		}
	}
}

func (t *tr) inlineExpr(c *ast.CallExpr, cl callee, e ast.Expr) []string {
	fd := t.declOf(cl.fn)
	t.checkByteAlias(fd)
	pop := t.pushInline(pkgRel(cl.fn.Pkg()) + ":" + objName(cl.fn))
	defer pop()
	t.bindParams(cl, fd.Type, fd.Recv, c)
	rt := cl.fn.Type().(*types.Signature).Results().At(0).Type()
	s := t.exprTo(e, rt)
	v := t.fresh("in")
	t.emit("let %s: %s = %s;", v, t.rty(c, rt), s)
	return []string{v}
}

// inlineCall emits the body of the callee; k receives the result values at each return.
func (t *tr) inlineCall(c *ast.CallExpr, k func(vals []string)) {
	cl := t.resolve(c)
	saveRet, saveFrames, saveRes, saveDef := t.retK, t.frames, t.result, t.defers
	saveInl, savePath, saveSites := append([]string{}, t.inl...), t.inlPath, append([]string{}, t.inlSites...)
	restore := func() func() {
		r2, f2, s2, i2, p2, d2, q2 := t.retK, t.frames, t.result, append([]string{}, t.inl...), t.inlPath, t.defers, t.inlSites
		t.retK, t.frames, t.result, t.defers = saveRet, saveFrames, saveRes, saveDef
		t.inl, t.inlPath, t.inlSites = append([]string{}, saveInl...), savePath, saveSites
		return func() {
			t.retK, t.frames, t.result, t.inl, t.inlPath, t.defers, t.inlSites = r2, f2, s2, i2, p2, d2, q2
		}
	}
	var body *ast.BlockStmt
	var ft *ast.FuncType
	var recv *ast.FieldList
	var sig *types.Signature
	key := ""
	if cl.lit != nil {
		body, ft = cl.lit.Body, cl.lit.Type
		sig = t.typeOf(cl.lit).(*types.Signature)
		key = "closure"
		if strings.HasSuffix(t.inlPath, "closure_") {
			t.fail(c, "nested closures")
		}
	} else {
		fd := t.declOf(cl.fn)
		if fd == nil || fd.Body == nil {
			t.fail(c, "no body for %s", cl.fn.FullName())
		}
		t.checkByteAlias(fd)
		body, ft, recv = fd.Body, fd.Type, fd.Recv
		sig = cl.fn.Type().(*types.Signature)
		key = pkgRel(cl.fn.Pkg()) + ":" + objName(cl.fn)
	}
	pop := t.pushInline(key)
	defer pop()
	t.emit("{")
	t.bindParams(cl, ft, recv, c)
	t.inlSites = append(append([]string{}, saveSites...), fmt.Sprint(c.Pos()))
	t.result = sig.Results()
	t.declResults(sig.Results())
	var mine []func()
	t.defers = append(append([]*[]func(){}, saveDef...), &mine)
	t.frames = nil
	t.retK = func(vals []string) {
		for i := len(mine) - 1; i >= 0; i-- {
			mine[i]()
		}
		back := restore()
		k(vals)
		back()
	}
	t.stmts(body.List, func() {
		if sig.Results().Len() == 0 {
			t.retK(nil)
		}
	})
	t.emit("}")
	t.retK, t.frames, t.result, t.defers, t.inlSites = saveRet, saveFrames, saveRes, saveDef, saveSites
}

// declResults declares named results.
func (t *tr) declResults(r *types.Tuple) {
	for i := 0; i < r.Len(); i++ {
		if n := r.At(i).Name(); n != "" && n != "_" {
			t.emit("let mut %s: %s = %s;", t.nameOf(r.At(i)), t.rty(nil, r.At(i).Type()), t.zero(nil, r.At(i).Type()))
		}
	}
}

var reConst = regexp.MustCompile(`^[0-9]+[ui](8|16|32|64)$`)
var reTmp = regexp.MustCompile(`^(new|r|in|rv|rok|ta|tok|v|pv|hv|ap|n|c)_[0-9]+$`)

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
