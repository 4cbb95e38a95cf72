package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/infobloxopen/go-trees/numtree"
)

// anyVal makes a value: nil, one used before, one that cannot be compared with ==, or a new one.
func anyVal(g *G, id int) interface{} {
	switch g.n(24) {
	case 0, 1:
		return nil
	case 2, 3, 4:
		return 1 + g.n(id)
	case 5, 6:
		return []int{1 + g.n(2)}
	}
	return id
}

func differ(a, b interface{}) bool {
	x, ok := a.(int)
	y, ok2 := b.(int)
	if ok && ok2 {
		return x != y
	}
	return !reflect.DeepEqual(a, b)
}

// A radix tree seen through its API, keys left-aligned in 64 bits.
type radix interface {
	insert(k uint64, b int, v interface{}) radix
	inplace(k uint64, b int, v interface{}) radix
	del(k uint64, b int) (radix, bool)
	match(k uint64, b int) (interface{}, bool)
	exact(k uint64, b int) (interface{}, bool)
	find(k uint64, b int) (found bool, key uint64, bits int, leaf bool, val interface{})
	enum() []rent
	w() int
	nilp() bool
	same(o radix) bool
}

type rent struct {
	k uint64
	b int
	v interface{}
}

type r32 struct{ n *numtree.Node32 }
type r64 struct{ n *numtree.Node64 }

func (t r32) w() int            { return 32 }
func (t r32) nilp() bool        { return t.n == nil }
func (t r32) same(o radix) bool { return t.n == o.(r32).n }
func (t r32) insert(k uint64, b int, v interface{}) radix {
	return r32{t.n.Insert(uint32(k>>32), b, v)}
}
func (t r32) inplace(k uint64, b int, v interface{}) radix {
	return r32{t.n.InplaceInsert(uint32(k>>32), b, v)}
}
func (t r32) del(k uint64, b int) (radix, bool) {
	n, ok := t.n.Delete(uint32(k>>32), b)
	return r32{n}, ok
}
func (t r32) match(k uint64, b int) (interface{}, bool) { return t.n.Match(uint32(k>>32), b) }
func (t r32) exact(k uint64, b int) (interface{}, bool) { return t.n.ExactMatch(uint32(k>>32), b) }
func (t r32) find(k uint64, b int) (bool, uint64, int, bool, interface{}) {
	n := t.n.FindNode(uint32(k>>32), b)
	if n == nil {
		return false, 0, 0, false, nil
	}
	return true, uint64(n.Key) << 32, int(n.Bits), n.Leaf, n.Value
}
func (t r32) enum() []rent {
	var r []rent
	for n := range t.n.Enumerate() {
		if !n.Leaf {
			panic(failure{"enum", "Enumerate delivers a node without data"})
		}
		r = append(r, rent{uint64(n.Key) << 32, int(n.Bits), n.Value})
	}
	return r
}

func (t r64) w() int                                       { return 64 }
func (t r64) nilp() bool                                   { return t.n == nil }
func (t r64) same(o radix) bool                            { return t.n == o.(r64).n }
func (t r64) insert(k uint64, b int, v interface{}) radix  { return r64{t.n.Insert(k, b, v)} }
func (t r64) inplace(k uint64, b int, v interface{}) radix { return r64{t.n.InplaceInsert(k, b, v)} }
func (t r64) del(k uint64, b int) (radix, bool)            { n, ok := t.n.Delete(k, b); return r64{n}, ok }
func (t r64) match(k uint64, b int) (interface{}, bool)    { return t.n.Match(k, b) }
func (t r64) exact(k uint64, b int) (interface{}, bool)    { return t.n.ExactMatch(k, b) }
func (t r64) find(k uint64, b int) (bool, uint64, int, bool, interface{}) {
	n := t.n.FindNode(k, b)
	if n == nil {
		return false, 0, 0, false, nil
	}
	return true, n.Key, int(n.Bits), n.Leaf, n.Value
}
func (t r64) enum() []rent {
	var r []rent
	for n := range t.n.Enumerate() {
		if !n.Leaf {
			panic(failure{"enum", "Enumerate delivers a node without data"})
		}
		r = append(r, rent{n.Key, int(n.Bits), n.Value})
	}
	return r
}

func hi(b int) uint64 {
	if b <= 0 {
		return 0
	}
	if b >= 64 {
		return ^uint64(0)
	}
	return ^uint64(0) << uint(64-b)
}

// The reference: a list of prefixes.
type rmodel map[[2]uint64]interface{}

func (m rmodel) clone() rmodel {
	r := make(rmodel, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}
func clampw(b, w int) int {
	if b < 0 {
		return 0
	}
	if b > w {
		return w
	}
	return b
}
func (m rmodel) set(k uint64, b int, v interface{}) { m[[2]uint64{k & hi(b), uint64(b)}] = v }
func (m rmodel) get(k uint64, b int) (interface{}, bool) {
	v, ok := m[[2]uint64{k & hi(b), uint64(b)}]
	return v, ok
}
func (m rmodel) lpm(k uint64, b int) (interface{}, bool) {
	for i := b; i >= 0; i-- {
		if v, ok := m.get(k, i); ok {
			return v, true
		}
	}
	return nil, false
}
func (m rmodel) del(k uint64, b int) bool {
	ok := false
	for p := range m {
		if int(p[1]) >= b && p[0]&hi(b) == k&hi(b) {
			delete(m, p)
			ok = true
		}
	}
	return ok
}
func (m rmodel) sorted() [][2]uint64 {
	var r [][2]uint64
	for p := range m {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i][0] != r[j][0] {
			return r[i][0] < r[j][0]
		}
		return r[i][1] < r[j][1]
	})
	return r
}

// keyPool makes keys that share prefixes with the ones made before.
type keyPool struct {
	w    int
	keys []uint64
	bits []int
}

func (p *keyPool) key(g *G) (uint64, int) {
	var k uint64
	m := hi(p.w)
	switch {
	case len(p.keys) > 0 && !g.one(4):
		k = p.keys[g.n(len(p.keys))]
		switch g.n(4) {
		case 0:
		case 1:
			k ^= 1 << uint(63-g.n(p.w))
		case 2:
			s := g.n(p.w + 1)
			k = k&hi(s) | g.u64()&^hi(s)
		case 3:
			b := p.bits[g.n(len(p.bits))]
			d := b + g.n(3) - 1
			if d < 0 {
				d = 0
			}
			if d >= p.w {
				d = p.w - 1
			}
			k ^= 1 << uint(63-d)
		}
	default:
		switch g.n(4) {
		case 0:
			k = 0
		case 1:
			k = ^uint64(0)
		case 2:
			k = g.u64()
		case 3:
			k = hi(g.n(p.w + 1))
		}
	}
	k &= m
	b := 0
	switch g.n(10) {
	case 0:
		b = p.w
	case 1:
		b = g.n(3)
	case 2:
		b = p.w - g.n(3)
	case 3, 4:
		if len(p.bits) > 0 {
			b = p.bits[g.n(len(p.bits))] + g.n(3) - 1
		}
	case 5:
		switch g.n(6) {
		case 0:
			b = -1
		case 1:
			b = p.w + 1
		case 2:
			b = -1 << 63
		case 3:
			b = 1<<63 - 1
		case 4:
			b = 256
		case 5:
			b = 256 + g.n(p.w)
		}
	default:
		b = g.n(p.w + 1)
	}
	if g.one(3) {
		k &= hi(clampw(b, p.w))
	}
	p.keys = append(p.keys, k)
	p.bits = append(p.bits, clampw(b, p.w))
	return k, b
}

func checkLookups(g *G, t radix, m rmodel, p *keyPool, what string, n int) {
	w := t.w()
	one := func(k uint64, b int) {
		cb := clampw(b, w)
		v, ok := t.match(k, b)
		ev, eok := m.lpm(k, cb)
		if ok != eok || ok && differ(v, ev) {
			g.fail("match", "%s: Match(%#x, %d) gives %v, %v; the most specific stored prefix gives %v, %v", what, k, b, v, ok, ev, eok)
		}
		v, ok = t.exact(k, b)
		ev, eok = m.get(k, cb)
		if ok != eok || ok && differ(v, ev) {
			g.fail("exact", "%s: ExactMatch(%#x, %d) gives %v, %v; expected %v, %v", what, k, b, v, ok, ev, eok)
		}
		f, fk, fb, leaf, fv := t.find(k, b)
		if f != eok || f && (differ(fv, ev) || !leaf || fb != cb || fk&hi(cb) != k&hi(cb)) {
			g.fail("find", "%s: FindNode(%#x, %d) gives %v key %#x bits %d value %v; expected %v, %v", what, k, b, f, fk, fb, fv, ev, eok)
		}
	}
	for i := 0; i < n; i++ {
		k, b := p.key(g)
		p.keys, p.bits = p.keys[:len(p.keys)-1], p.bits[:len(p.bits)-1]
		one(k, b)
	}
	for _, q := range m.sorted() {
		one(q[0], int(q[1]))
		if g.one(4) {
			one(q[0]|g.u64()&hi(w)&^hi(int(q[1])), w)
			one(q[0], int(q[1])-1)
		}
	}
}

func checkEnum(g *G, t radix, m rmodel, what string) {
	es := t.enum()
	ks := m.sorted()
	for i, e := range es {
		if i >= len(ks) {
			g.fail("enum", "%s: Enumerate delivers %d entries, %d are stored", what, len(es), len(ks))
		}
		if e.b != int(ks[i][1]) || e.k&hi(e.b) != ks[i][0] || differ(e.v, m[ks[i]]) {
			g.fail("enum", "%s: entry %d of Enumerate is %#x/%d = %v; expected %#x/%d = %v", what, i, e.k, e.b, e.v, ks[i][0], ks[i][1], m[ks[i]])
		}
	}
	if len(es) != len(ks) {
		g.fail("enum", "%s: Enumerate delivers %d entries, %d are stored", what, len(es), len(ks))
	}
}

type rver struct {
	t radix
	m rmodel
	n int
	d string // its nodes when it was made
}

const (
	fLookup = 1 << iota
	fUpdate
	fPersist
	fEnum
	fInplace
)

func numHistory(w, focus int) func(*G) {
	return func(g *G) {
		var t0 radix = r64{}
		if w == 32 {
			t0 = r32{}
		}
		p := &keyPool{w: w}
		vs := []rver{{t0, rmodel{}, 0, ""}}
		vs[0].d = nodes(vs[0].t)
		g.op("v0 = (*numtree.Node%d)(nil)", w)
		id := 0
		val := func() interface{} {
			id++
			return anyVal(g, id)
		}
		for i := 0; i < g.size; i++ {
			v := vs[len(vs)-1]
			if focus&fPersist != 0 && g.one(3) {
				v = vs[g.n(len(vs))]
			}
			k, b := p.key(g)
			cb := clampw(b, w)
			nv := rver{n: vs[len(vs)-1].n + 1, m: v.m.clone()}
			c := g.n(8)
			if focus&fInplace != 0 {
				c = []int{0, 7, 7, 7, 7, 7, 7, 2}[c]
			} else if c == 7 && focus&fPersist != 0 {
				c = 1
			}
			switch {
			case c == 7:
				x := val()
				g.op("v%d = v%d.InplaceInsert(%#x, %d, %v)  (older versions are given up)", nv.n, v.n, k>>uint(64-w), b, x)
				nv.t = v.t.inplace(k, b, x)
				nv.m.set(k, cb, x)
				vs = vs[:0]
				if nv.t.nilp() {
					g.fail("update", "InplaceInsert returns nil")
				}
			case c == 2 || c == 3 && g.bool():
				if cb < 3 && !g.one(5) {
					cb = cb + g.n(w-3)
					b = cb
				}
				if len(v.m) > 0 && g.bool() {
					s := v.m.sorted()
					q := s[g.n(len(s))]
					k, b = q[0], int(q[1])
					cb = b
				}
				t, ok := v.t.del(k, b)
				eok := nv.m.del(k, cb)
				g.op("v%d, ok = v%d.Delete(%#x, %d)", nv.n, v.n, k>>uint(64-w), b)
				if ok != eok {
					g.fail("delete", "Delete(%#x, %d) reports %v; a stored prefix is inside: %v", k>>uint(64-w), b, ok, eok)
				}
				nv.t = t
			default:
				x := val()
				g.op("v%d = v%d.Insert(%#x, %d, %v)", nv.n, v.n, k>>uint(64-w), b, x)
				nv.t = v.t.insert(k, b, x)
				nv.m.set(k, cb, x)
				if nv.t.nilp() {
					g.fail("update", "Insert returns nil")
				}
			}
			if focus&fPersist != 0 {
				nv.d = nodes(nv.t)
			}
			vs = append(vs, nv)
			if len(vs) > 6 {
				vs = vs[1:]
			}
			what := fmt.Sprintf("v%d", nv.n)
			if focus&(fUpdate|fEnum|fInplace) != 0 && (i == g.size-1 || g.one(4)) {
				checkEnum(g, nv.t, nv.m, what)
			}
			if focus&(fUpdate|fLookup|fInplace) != 0 && (i == g.size-1 || g.one(3)) {
				checkLookups(g, nv.t, nv.m, p, what, 6)
			}
			if focus&fPersist != 0 {
				for _, o := range vs {
					if d := nodes(o.t); d != o.d {
						g.fail("nodes", "nodes of v%d were written to when v%d was made:\n%s", o.n, nv.n, diffAt(o.d, d))
					}
					if g.one(2) {
						checkEnum(g, o.t, o.m, fmt.Sprintf("v%d, after v%d was made,", o.n, nv.n))
						checkLookups(g, o.t, o.m, p, fmt.Sprintf("v%d, after v%d was made,", o.n, nv.n), 2)
					}
				}
			}
		}
	}
}

func init() {
	for _, w := range []int{32, 64} {
		n := fmt.Sprint("Node", w)
		reg("C01", n, 24, numHistory(w, fLookup))
		reg("C02", n, 24, numHistory(w, fUpdate))
		reg("C03", n, 16, numHistory(w, fPersist))
		reg("C04", n, 24, numHistory(w, fEnum))
		reg("C05", n, 24, numHistory(w, fInplace))
	}
}
