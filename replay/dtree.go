package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
	"github.com/infobloxopen/go-trees/uintX/domaintree32"
	"github.com/infobloxopen/go-trees/uintX/domaintree64"
	"github.com/infobloxopen/go-trees/uintX/domaintree8"
)

// A domain tree seen through its API.
type dtr interface {
	ins(d domain.Name, v interface{}) dtr
	in(d domain.Name, v interface{})
	get(d domain.Name) (interface{}, bool)
	del(d domain.Name) (dtr, bool)
	delSub(d domain.Name) (dtr, bool)
	enum() []dent
}

type dent struct {
	k string
	v interface{}
}

type genDT struct{ t *domaintree.Node }

func (t genDT) ins(d domain.Name, v interface{}) dtr  { return genDT{t.t.Insert(d, v)} }
func (t genDT) in(d domain.Name, v interface{})       { t.t.InplaceInsert(d, v) }
func (t genDT) get(d domain.Name) (interface{}, bool) { return t.t.Get(d) }
func (t genDT) del(d domain.Name) (dtr, bool)         { r, ok := t.t.Delete(d); return genDT{r}, ok }
func (t genDT) delSub(d domain.Name) (dtr, bool) {
	r, ok := t.t.DeleteSubdomains(d)
	return genDT{r}, ok
}
func (t genDT) enum() (r []dent) {
	for p := range t.t.Enumerate() {
		r = append(r, dent{p.Key, p.Value})
	}
	return
}

type ux8DT struct{ t *domaintree8.Node }

func (t ux8DT) ins(d domain.Name, v interface{}) dtr  { return ux8DT{t.t.Insert(d, v.(uint8))} }
func (t ux8DT) in(d domain.Name, v interface{})       { t.t.InplaceInsert(d, v.(uint8)) }
func (t ux8DT) get(d domain.Name) (interface{}, bool) { return t.t.Get(d) }
func (t ux8DT) del(d domain.Name) (dtr, bool)         { r, ok := t.t.Delete(d); return ux8DT{r}, ok }
func (t ux8DT) delSub(d domain.Name) (dtr, bool) {
	r, ok := t.t.DeleteSubdomains(d)
	return ux8DT{r}, ok
}
func (t ux8DT) enum() (r []dent) {
	for p := range t.t.Enumerate() {
		r = append(r, dent{p.Key, p.Value})
	}
	return
}

type ux16DT struct{ t *domaintree16.Node }

func (t ux16DT) ins(d domain.Name, v interface{}) dtr  { return ux16DT{t.t.Insert(d, v.(uint16))} }
func (t ux16DT) in(d domain.Name, v interface{})       { t.t.InplaceInsert(d, v.(uint16)) }
func (t ux16DT) get(d domain.Name) (interface{}, bool) { return t.t.Get(d) }
func (t ux16DT) del(d domain.Name) (dtr, bool)         { r, ok := t.t.Delete(d); return ux16DT{r}, ok }
func (t ux16DT) delSub(d domain.Name) (dtr, bool) {
	r, ok := t.t.DeleteSubdomains(d)
	return ux16DT{r}, ok
}
func (t ux16DT) enum() (r []dent) {
	for p := range t.t.Enumerate() {
		r = append(r, dent{p.Key, p.Value})
	}
	return
}

type ux32DT struct{ t *domaintree32.Node }

func (t ux32DT) ins(d domain.Name, v interface{}) dtr  { return ux32DT{t.t.Insert(d, v.(uint32))} }
func (t ux32DT) in(d domain.Name, v interface{})       { t.t.InplaceInsert(d, v.(uint32)) }
func (t ux32DT) get(d domain.Name) (interface{}, bool) { return t.t.Get(d) }
func (t ux32DT) del(d domain.Name) (dtr, bool)         { r, ok := t.t.Delete(d); return ux32DT{r}, ok }
func (t ux32DT) delSub(d domain.Name) (dtr, bool) {
	r, ok := t.t.DeleteSubdomains(d)
	return ux32DT{r}, ok
}
func (t ux32DT) enum() (r []dent) {
	for p := range t.t.Enumerate() {
		r = append(r, dent{p.Key, p.Value})
	}
	return
}

type ux64DT struct{ t *domaintree64.Node }

func (t ux64DT) ins(d domain.Name, v interface{}) dtr  { return ux64DT{t.t.Insert(d, v.(uint64))} }
func (t ux64DT) in(d domain.Name, v interface{})       { t.t.InplaceInsert(d, v.(uint64)) }
func (t ux64DT) get(d domain.Name) (interface{}, bool) { return t.t.Get(d) }
func (t ux64DT) del(d domain.Name) (dtr, bool)         { r, ok := t.t.Delete(d); return ux64DT{r}, ok }
func (t ux64DT) delSub(d domain.Name) (dtr, bool) {
	r, ok := t.t.DeleteSubdomains(d)
	return ux64DT{r}, ok
}
func (t ux64DT) enum() (r []dent) {
	for p := range t.t.Enumerate() {
		r = append(r, dent{p.Key, p.Value})
	}
	return
}

// The reference: names as paths of decoded labels from the root, coded with lengths.
type dmodel map[string]dent2

type dent2 struct {
	path []string
	v    interface{}
}

func dcode(p []string) string {
	var s strings.Builder
	for _, l := range p {
		s.WriteByte(byte(len(l)))
		s.WriteString(l)
	}
	return s.String()
}
func (m dmodel) clone() dmodel {
	r := make(dmodel, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (m dmodel) get(p []string) (interface{}, bool) {
	for i := len(p); i >= 0; i-- {
		if e, ok := m[dcode(p[:i])]; ok {
			return e.v, true
		}
	}
	return nil, false
}
func (m dmodel) below(p []string) []string {
	c := dcode(p)
	var r []string
	for k := range m {
		if strings.HasPrefix(k, c) {
			r = append(r, k)
		}
	}
	return r
}
func (m dmodel) pick(g *G) ([]string, bool) {
	if len(m) == 0 {
		return nil, false
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return m[ks[g.n(len(ks))]].path, true
}

func dhuman(p []string) string {
	var r []string
	for i := len(p) - 1; i >= 0; i-- {
		r = append(r, refHuman(p[i]))
	}
	return strings.Join(r, ".")
}

// A text of the name with this path.
func dtext(g *G, p []string) string {
	if len(p) == 0 {
		return []string{"", "."}[g.n(2)]
	}
	plain := g.one(2)
	var s strings.Builder
	for i := len(p) - 1; i >= 0; i-- {
		for j := 0; j < len(p[i]); j++ {
			c := p[i][j]
			if c >= 'A' && c <= 'Z' && g.bool() {
				c |= 0x20
			}
			switch {
			case c == '.' || c == '\\':
				s.WriteByte('\\')
				s.WriteByte(c)
			case c < ' ' || c > '~' || !plain && g.one(4):
				fmt.Fprintf(&s, "\\%03d", c)
			case !plain && g.one(4) && !(c >= '0' && c <= '9'):
				s.WriteByte('\\')
				s.WriteByte(c)
			default:
				s.WriteByte(c)
			}
		}
		if i > 0 || g.one(4) {
			s.WriteByte('.')
		}
	}
	return s.String()
}

func dlabel(g *G, max int) string {
	if max > 63 {
		max = 63
	}
	const al = "ABCDEZ09-_[`"
	n := 1 + g.n(2)
	switch g.n(12) {
	case 0:
		n = 1 + g.n(20)
	case 1:
		n = 60 + g.n(4)
	}
	if n > max {
		n = max
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[g.n(3)]
		if g.one(6) {
			b[i] = al[g.n(len(al))]
		}
		if g.one(30) {
			b[i] = byte(g.n(256))
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
	}
	return string(b)
}

type dpool struct {
	ps   [][]string
	deep bool
}

// A path near the ones seen before.
func (p *dpool) path(g *G) []string {
	var r []string
	if len(p.ps) > 0 && !g.one(6) {
		o := p.ps[g.n(len(p.ps))]
		k := len(o)
		switch g.n(5) {
		case 0:
		case 1:
			k = g.n(len(o) + 1)
		case 2:
			if k > 0 {
				k--
			}
		case 3: // one label another
			r = append(r, o...)
			if k > 0 {
				i := g.n(k)
				r[i] = dlabel(g, len(r[i]))
			}
			p.ps = append(p.ps, r)
			return r
		}
		r = append(r, o[:k]...)
		if g.bool() {
			if !p.fit(r) {
				return r
			}
			return p.grow(g, r, 1+g.n(2))
		}
		return r
	}
	return p.grow(g, r, g.n(4))
}
func (p *dpool) room(r []string) int {
	t := 254
	for _, l := range r {
		t -= len(l) + 1
	}
	return t
}
func (p *dpool) fit(r []string) bool { return len(r) < 127 && p.room(r) >= 1 }
func (p *dpool) grow(g *G, r []string, n int) []string {
	if p.deep && g.one(3) {
		n = 120 + g.n(8)
	}
	long := n > 20
	for ; n > 0 && p.fit(r); n-- {
		if long {
			r = append(r, string("ABC"[g.n(3)]))
		} else {
			r = append(r, dlabel(g, p.room(r)))
		}
	}
	p.ps = append(p.ps, r)
	if len(p.ps) > 30 {
		p.ps = p.ps[1:]
	}
	return r
}

func dname(g *G, p []string) (domain.Name, string) {
	s := dtext(g, p)
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		g.fail("name", "MakeNameFromString(%q) fails: %v", s, err)
	}
	return n, s
}

func dLook(g *G, t dtr, m dmodel, p *dpool, what string, n int) {
	for ; n > 0; n-- {
		q := p.path(g)
		if g.one(3) {
			if o, ok := m.pick(g); ok {
				q = o
			}
		}
		d, s := dname(g, q)
		v, ok := t.get(d)
		ev, eok := m.get(q)
		g.op("%s.Get(%q)", what, s)
		if ok != eok || ok && differ(v, ev) {
			g.fail("get", "%s: Get(%q) gives %v, %v; expected %v, %v", what, s, v, ok, ev, eok)
		}
	}
}

// all stored names by lookup of each
func dAll(g *G, t dtr, m dmodel, what string) {
	for _, e := range m {
		d, s := dname(g, e.path)
		v, ok := t.get(d)
		if !ok || differ(v, e.v) {
			g.fail("get", "%s: Get(%q) gives %v, %v; it was stored with %v", what, s, v, ok, e.v)
		}
	}
}

func dEnum(g *G, t dtr, m dmodel, what string) []dent {
	es := t.enum()
	g.op("%s.Enumerate()", what)
	want := map[string]dent2{}
	for _, e := range m {
		want[dhuman(e.path)] = e
	}
	seen := map[string]bool{}
	for _, e := range es {
		w, ok := want[e.k]
		if !ok {
			g.fail("enum", "%s: Enumerate gives %q, which is not stored", what, e.k)
		}
		if seen[e.k] {
			g.fail("enum", "%s: Enumerate gives %q twice", what, e.k)
		}
		if differ(e.v, w.v) {
			g.fail("enum", "%s: Enumerate gives %v for %q; expected %v", what, e.v, e.k, w.v)
		}
		for i := 0; i < len(w.path); i++ {
			if u, ok := m[dcode(w.path[:i])]; ok && !seen[dhuman(u.path)] {
				g.fail("order", "%s: Enumerate gives %q before %q", what, e.k, dhuman(u.path))
			}
		}
		seen[e.k] = true
	}
	if len(es) != len(m) {
		for k := range want {
			if !seen[k] {
				g.fail("enum", "%s: Enumerate does not give %q", what, k)
			}
		}
	}
	return es
}

// the same names put into an empty tree in another order come out in the same order
func dOrder(g *G, mk func() dtr, es []dent, m dmodel, what string) {
	t := mk()
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i := range ks {
		j := i + g.n(len(ks)-i)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		d, _ := dname(g, m[k].path)
		t = t.ins(d, m[k].v)
	}
	fs := t.enum()
	if len(fs) != len(es) {
		g.fail("enum", "a tree with the names of %s lists %d names; expected %d", what, len(fs), len(es))
	}
	for i := range es {
		if es[i].k != fs[i].k || differ(es[i].v, fs[i].v) {
			g.fail("order", "%s lists %q at place %d, and a tree with the same names lists %q", what, es[i].k, i, fs[i].k)
		}
	}
}

type dver struct {
	t dtr
	m dmodel
	n int
	d string // its nodes when it was made
}

func dtHistory(mk func() dtr, null func() dtr, focus int, deep bool, val func(g *G, id int) interface{}) func(*G) {
	return func(g *G) {
		p := &dpool{deep: deep}
		vs := []dver{{mk(), dmodel{}, 0, ""}}
		if g.one(3) && focus&fInplace == 0 {
			vs[0].t = null()
			g.op("v0 = nil")
		} else {
			g.op("v0 = new(Node)")
		}
		vs[0].d = nodes(vs[0].t)
		id := 0
		for i := 0; i < g.size; i++ {
			v := vs[len(vs)-1]
			if focus&fPersist != 0 && g.one(3) {
				v = vs[g.n(len(vs))]
			}
			nv := dver{n: vs[len(vs)-1].n + 1, m: v.m.clone()}
			id++
			x := val(g, id)
			c := g.n(8)
			if focus&fInplace != 0 && c > 3 {
				c = 7
			} else if c == 7 {
				c = 4
			}
			q := p.path(g)
			if c < 4 && g.bool() {
				if o, ok := v.m.pick(g); ok {
					q = o
					if g.one(4) && len(q) > 0 {
						q = q[:g.n(len(q))]
					}
				}
			}
			d, s := dname(g, q)
			switch {
			case c == 7:
				g.op("v%d = v%d; v%d.InplaceInsert(%q, %v)  (older versions are given up)", nv.n, v.n, nv.n, s, x)
				nv.t = v.t
				nv.t.in(d, x)
				nv.m[dcode(q)] = dent2{q, x}
				vs = vs[:0]
			case c < 2:
				_, eok := nv.m[dcode(q)]
				delete(nv.m, dcode(q))
				g.op("v%d, ok = v%d.Delete(%q)", nv.n, v.n, s)
				var ok bool
				nv.t, ok = v.t.del(d)
				if ok != eok {
					g.fail("delete", "Delete(%q) reports %v; the name is stored: %v", s, ok, eok)
				}
			case c == 2 || c == 3 && g.bool():
				if len(q) == 0 && !g.one(4) {
					continue
				}
				r := nv.m.below(q)
				for _, k := range r {
					delete(nv.m, k)
				}
				g.op("v%d, ok = v%d.DeleteSubdomains(%q)", nv.n, v.n, s)
				var ok bool
				nv.t, ok = v.t.delSub(d)
				if ok != (len(r) > 0) {
					g.fail("delete", "DeleteSubdomains(%q) reports %v; %d names are stored there", s, ok, len(r))
				}
			default:
				g.op("v%d = v%d.Insert(%q, %v)", nv.n, v.n, s, x)
				nv.t = v.t.ins(d, x)
				nv.m[dcode(q)] = dent2{q, x}
			}
			if focus&fPersist != 0 {
				nv.d = nodes(nv.t)
			}
			vs = append(vs, nv)
			if len(vs) > 6 {
				vs = vs[1:]
			}
			what := fmt.Sprintf("v%d", nv.n)
			last := i == g.size-1
			if focus&fEnum != 0 && (last || g.one(3)) || focus&(fUpdate|fInplace) != 0 && (last || g.one(4)) {
				es := dEnum(g, nv.t, nv.m, what)
				if focus&fEnum != 0 && g.one(3) {
					dOrder(g, mk, es, nv.m, what)
				}
			}
			if focus&(fUpdate|fLookup|fInplace) != 0 && (last || g.one(3)) {
				dLook(g, nv.t, nv.m, p, what, 5)
				dAll(g, nv.t, nv.m, what)
			}
			if focus&fPersist != 0 {
				for _, o := range vs {
					if d := nodes(o.t); d != o.d {
						g.fail("nodes", "nodes of v%d were written to when v%d was made:\n%s", o.n, nv.n, diffAt(o.d, d))
					}
					if g.one(2) {
						w := fmt.Sprintf("v%d, after v%d was made,", o.n, nv.n)
						dEnum(g, o.t, o.m, w)
						dLook(g, o.t, o.m, p, w, 2)
					}
				}
			}
		}
	}
}

func init() {
	mk := func() dtr { return genDT{new(domaintree.Node)} }
	null := func() dtr { return genDT{nil} }
	val := anyVal
	for _, deep := range []bool{false, true} {
		nm, k := "Node", 24
		if deep {
			nm, k = "deep", 10
		}
		reg("C23", nm, k, dtHistory(mk, null, fLookup, deep, val))
		reg("C24", nm, k, dtHistory(mk, null, fUpdate, deep, val))
		reg("C24", nm+" in place", k, dtHistory(mk, null, fInplace, deep, val))
		reg("C25", nm, k*2/3, dtHistory(mk, null, fPersist, deep, val))
		reg("C26", nm, k, dtHistory(mk, null, fEnum, deep, val))
	}
	for _, w := range []uint{8, 16, 32, 64} {
		w := w
		mk := func() dtr {
			switch w {
			case 8:
				return ux8DT{new(domaintree8.Node)}
			case 16:
				return ux16DT{new(domaintree16.Node)}
			case 32:
				return ux32DT{new(domaintree32.Node)}
			}
			return ux64DT{new(domaintree64.Node)}
		}
		null := func() dtr {
			switch w {
			case 8:
				return ux8DT{}
			case 16:
				return ux16DT{}
			case 32:
				return ux32DT{}
			}
			return ux64DT{}
		}
		val := func(g *G, id int) interface{} {
			if g.one(10) {
				id = 0
			}
			switch w {
			case 8:
				return uint8(id)
			case 16:
				return uint16(id * 257)
			case 32:
				return uint32(id) * 0x1000193
			}
			return uint64(id) * 0x100000001b3
		}
		nm := fmt.Sprintf("domaintree%d ", w)
		reg("C29", nm+"map", 24, dtHistory(mk, null, fLookup|fUpdate|fEnum, false, val))
		reg("C29", nm+"deep", 10, dtHistory(mk, null, fLookup|fUpdate|fEnum, true, val))
		reg("C29", nm+"versions", 16, dtHistory(mk, null, fPersist, false, val))
		reg("C29", nm+"in place", 20, dtHistory(mk, null, fInplace, false, val))
	}
}
