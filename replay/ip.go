package main

import (
	"bytes"
	"fmt"
	"net"
	"sort"

	"github.com/infobloxopen/go-trees/iptree"
)

// An IP tree seen through its API.
type iptr interface {
	insNet(n *net.IPNet, v interface{}) iptr
	insIP(ip net.IP, v interface{}) iptr
	inNet(n *net.IPNet, v interface{})
	inIP(ip net.IP, v interface{})
	getNet(n *net.IPNet) (interface{}, bool)
	getIP(ip net.IP) (interface{}, bool)
	delNet(n *net.IPNet) (iptr, bool)
	delIP(ip net.IP) (iptr, bool)
	enum() []ient
	update(n *net.IPNet, f func(k *net.IPNet, v interface{}) (interface{}, bool)) bool
}

type ient struct {
	k *net.IPNet
	v interface{}
}

type genIP struct{ t *iptree.Tree }

func (t genIP) insNet(n *net.IPNet, v interface{}) iptr { return genIP{t.t.InsertNet(n, v)} }
func (t genIP) insIP(ip net.IP, v interface{}) iptr     { return genIP{t.t.InsertIP(ip, v)} }
func (t genIP) inNet(n *net.IPNet, v interface{})       { t.t.InplaceInsertNet(n, v) }
func (t genIP) inIP(ip net.IP, v interface{})           { t.t.InplaceInsertIP(ip, v) }
func (t genIP) getNet(n *net.IPNet) (interface{}, bool) { return t.t.GetByNet(n) }
func (t genIP) getIP(ip net.IP) (interface{}, bool)     { return t.t.GetByIP(ip) }
func (t genIP) delNet(n *net.IPNet) (iptr, bool)        { r, ok := t.t.DeleteByNet(n); return genIP{r}, ok }
func (t genIP) delIP(ip net.IP) (iptr, bool)            { r, ok := t.t.DeleteByIP(ip); return genIP{r}, ok }
func (t genIP) enum() (r []ient) {
	for p := range t.t.Enumerate() {
		r = append(r, ient{p.Key, p.Value})
	}
	return
}
func (t genIP) update(n *net.IPNet, f func(k *net.IPNet, v interface{}) (interface{}, bool)) bool {
	t.t.UpdateDescendants(n, func(p iptree.Pair) (interface{}, bool) { return f(p.Key, p.Value) })
	return true
}

// A network in the reference: family, address with the host bits zero, prefix length.
type ikey struct {
	v6   bool
	a    [16]byte
	bits int
}

func maskBytes(b []byte, n int) {
	for i := range b {
		k := n - 8*i
		if k <= 0 {
			b[i] = 0
		} else if k < 8 {
			b[i] &= byte(0xff) << uint(8-k)
		}
	}
}

// refNet reads a network; no result when address and mask do not fit or the mask has holes.
func refNet(n *net.IPNet) (ikey, bool) {
	var k ikey
	if n == nil || len(n.IP) != len(n.Mask) || len(n.IP) != 4 && len(n.IP) != 16 {
		return k, false
	}
	end := false
	for _, m := range n.Mask {
		for j := 7; j >= 0; j-- {
			if m>>uint(j)&1 == 1 {
				if end {
					return k, false
				}
				k.bits++
			} else {
				end = true
			}
		}
	}
	k.v6 = len(n.IP) == 16
	copy(k.a[:], n.IP)
	maskBytes(k.a[:len(n.IP)], k.bits)
	return k, true
}

// refAddr reads an address; an address counts as IPv4 exactly when it has an IPv4 form.
func refAddr(ip net.IP) (ikey, bool) {
	var k ikey
	if len(ip) == 4 {
		copy(k.a[:], ip)
		k.bits = 32
		return k, true
	}
	if len(ip) != 16 {
		return k, false
	}
	if bytes.Equal(ip[:12], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}) {
		copy(k.a[:], ip[12:])
		k.bits = 32
		return k, true
	}
	k.v6 = true
	copy(k.a[:], ip)
	k.bits = 128
	return k, true
}

func (k ikey) inside(o ikey) bool {
	if k.v6 != o.v6 || k.bits < o.bits {
		return false
	}
	a := k.a
	maskBytes(a[:], o.bits)
	return a == o.a
}
func (k ikey) less(o ikey) bool {
	if k.v6 != o.v6 {
		return !k.v6
	}
	if c := bytes.Compare(k.a[:], o.a[:]); c != 0 {
		return c < 0
	}
	return k.bits < o.bits
}
func (k ikey) String() string {
	if k.v6 {
		return fmt.Sprintf("%s/%d", net.IP(k.a[:]), k.bits)
	}
	return fmt.Sprintf("%s/%d", net.IP(k.a[:4]), k.bits)
}

type imodel map[ikey]interface{}

func (m imodel) clone() imodel {
	r := make(imodel, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (m imodel) get(k ikey) (interface{}, bool) {
	best := -1
	var v interface{}
	for q, w := range m {
		if k.inside(q) && q.bits > best {
			best, v = q.bits, w
		}
	}
	return v, best >= 0
}
func (m imodel) del(k ikey) bool {
	ok := false
	for q := range m {
		if q.inside(k) {
			delete(m, q)
			ok = true
		}
	}
	return ok
}
func (m imodel) sorted() []ikey {
	var r []ikey
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].less(r[j]) })
	return r
}

type ipPool struct {
	p4, p6 [][]byte
	bits   []int
}

func (p *ipPool) addr(g *G, v6 bool) []byte {
	w, pool := 4, p.p4
	if v6 {
		w, pool = 16, p.p6
	}
	b := make([]byte, w)
	if len(pool) > 0 && !g.one(4) {
		copy(b, pool[g.n(len(pool))])
		switch g.n(4) {
		case 0:
		case 1:
			i := g.n(8 * w)
			b[i/8] ^= 0x80 >> uint(i%8)
		case 2: // another host part
			s := g.n(8*w + 1)
			for i := s; i < 8*w; i++ {
				if g.bool() {
					b[i/8] ^= 0x80 >> uint(i%8)
				}
			}
		case 3: // near a used boundary
			if len(p.bits) > 0 {
				i := p.bits[g.n(len(p.bits))] + g.n(3) - 1
				if i >= 0 && i < 8*w {
					b[i/8] ^= 0x80 >> uint(i%8)
				}
			}
		}
	} else {
		switch g.n(5) {
		case 0:
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
			if v6 { // an IPv4 address in IPv6 form
				b[10], b[11] = 0xff, 0xff
				for i := 12; i < 16; i++ {
					b[i] = byte(g.n(256))
				}
			} else {
				b[0] = 10
			}
		default:
			for i := range b {
				b[i] = byte(g.n(256))
			}
		}
	}
	if v6 {
		p.p6 = append(p.p6, b)
	} else {
		p.p4 = append(p.p4, b)
	}
	return append([]byte(nil), b...)
}

func (p *ipPool) net(g *G) *net.IPNet {
	v6 := !g.one(3)
	b := p.addr(g, v6)
	w := 8 * len(b)
	n := 0
	switch g.n(8) {
	case 0:
		n = w
	case 1:
		n = g.n(3)
	case 2, 3, 4:
		n = 64 + g.n(5) - 2
	case 5:
		if len(p.bits) > 0 {
			n = p.bits[g.n(len(p.bits))] + g.n(3) - 1
		}
	default:
		n = g.n(w + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > w {
		n = g.n(w + 1)
	}
	p.bits = append(p.bits, n)
	m := net.CIDRMask(n, w)
	if g.one(25) { // not a valid network
		switch g.n(4) {
		case 0:
			m = net.CIDRMask(n%33, 160-w)
		case 1:
			m[g.n(len(m))] = 0xf5
		case 2:
			return nil
		case 3:
			b = b[:g.n(len(b))]
		}
	}
	if g.one(2) && len(m) == len(b) {
		maskBytes(b, n)
	}
	return &net.IPNet{IP: b, Mask: m}
}
func (p *ipPool) ip(g *G) net.IP {
	if g.one(30) {
		return make(net.IP, g.n(20))
	}
	b := p.addr(g, g.bool())
	if len(b) == 4 && g.bool() {
		return net.IP(b).To16()
	}
	return b
}

func netText(n *net.IPNet) string {
	if n == nil {
		return "nil"
	}
	if _, ok := refNet(n); ok {
		o, _ := n.Mask.Size()
		return fmt.Sprintf("%s/%d", n.IP, o)
	}
	return fmt.Sprintf("{%v %v}", []byte(n.IP), []byte(n.Mask))
}

func ipEnum(g *G, t iptr, m imodel, what string) {
	es := t.enum()
	ks := m.sorted()
	for i, e := range es {
		if i >= len(ks) {
			g.fail("enum", "%s: Enumerate delivers %d networks, %d are stored", what, len(es), len(ks))
		}
		k, ok := refNet(e.k)
		if !ok || k != ks[i] || !bytes.Equal(e.k.IP, k.a[:len(e.k.IP)]) || differ(e.v, m[ks[i]]) {
			g.fail("enum", "%s: network %d of Enumerate is %s = %v; expected %v = %v", what, i, netText(e.k), e.v, ks[i], m[ks[i]])
		}
	}
	if len(es) != len(ks) {
		g.fail("enum", "%s: Enumerate delivers %d networks, %d are stored", what, len(es), len(ks))
	}
}

func ipLook(g *G, t iptr, m imodel, p *ipPool, what string, n int) {
	one := func(x *net.IPNet) {
		var ev interface{}
		eok := false
		if k, ok := refNet(x); ok {
			ev, eok = m.get(k)
		}
		v, ok := t.getNet(x)
		if ok != eok || ok && differ(v, ev) {
			g.fail("get", "%s: GetByNet(%s) gives %v, %v; the most specific stored network gives %v, %v", what, netText(x), v, ok, ev, eok)
		}
	}
	addr := func(x net.IP) {
		var ev interface{}
		eok := false
		if k, ok := refAddr(x); ok {
			ev, eok = m.get(k)
		}
		v, ok := t.getIP(x)
		if ok != eok || ok && differ(v, ev) {
			g.fail("get", "%s: GetByIP(%v) gives %v, %v; the most specific stored network gives %v, %v", what, []byte(x), v, ok, ev, eok)
		}
	}
	a, b, c := len(p.p4), len(p.p6), len(p.bits)
	for i := 0; i < n; i++ {
		one(p.net(g))
		addr(p.ip(g))
		p.p4, p.p6, p.bits = p.p4[:a], p.p6[:b], p.bits[:c]
	}
	for k := range m {
		l := 4
		if k.v6 {
			l = 16
		}
		one(&net.IPNet{IP: append(net.IP(nil), k.a[:l]...), Mask: net.CIDRMask(k.bits, 8*l)})
		if k.bits > 0 {
			one(&net.IPNet{IP: append(net.IP(nil), k.a[:l]...), Mask: net.CIDRMask(k.bits-1, 8*l)})
		}
		if k.bits < 8*l {
			one(&net.IPNet{IP: append(net.IP(nil), k.a[:l]...), Mask: net.CIDRMask(k.bits+1, 8*l)})
		}
		addr(append(net.IP(nil), k.a[:l]...))
	}
}

func ipUpdate(g *G, t iptr, m imodel, k ikey, id *int) {
	l := 4
	if k.v6 {
		l = 16
	}
	n := &net.IPNet{IP: append(net.IP(nil), k.a[:l]...), Mask: net.CIDRMask(k.bits, 8*l)}
	if g.bool() { // host bits do not matter
		for i := k.bits; i < 8*l; i++ {
			if g.bool() {
				n.IP[i/8] ^= 0x80 >> uint(i%8)
			}
		}
	}
	seen := map[ikey]bool{}
	nm := m.clone()
	var bad string
	if !t.update(n, func(q *net.IPNet, v interface{}) (interface{}, bool) {
		x, ok := refNet(q)
		switch {
		case bad != "":
		case !ok || !bytes.Equal(q.IP, x.a[:len(q.IP)]):
			bad = fmt.Sprintf("the callback is given %s", netText(q))
		case !x.inside(k) || x == k:
			bad = fmt.Sprintf("the callback is given %s, which is not strictly inside", netText(q))
		case seen[x]:
			bad = fmt.Sprintf("the callback is given %s twice", netText(q))
		default:
			if w, ok := m[x]; !ok || differ(w, v) {
				bad = fmt.Sprintf("the callback is given %s = %v; stored: %v, %v", netText(q), v, w, ok)
			}
		}
		seen[x] = true
		*id++
		if g.bool() {
			nm[x] = *id
			return *id, true
		}
		return *id, false
	}) {
		return
	}
	g.op("UpdateDescendants(%s)", netText(n))
	if bad == "" {
		for q := range m {
			if q.inside(k) && q != k && !seen[q] {
				bad = fmt.Sprintf("the callback is not given %v", q)
			}
		}
	}
	if bad != "" {
		g.fail("update", "UpdateDescendants(%s): %s", netText(n), bad)
	}
	for q := range m {
		m[q] = nm[q]
	}
}

const fDesc = fInplace << 1

type iver struct {
	t iptr
	m imodel
	n int
	d string // its nodes when it was made
}

func ipHistory(mk func() iptr, focus int, val func(g *G, id int) interface{}) func(*G) {
	return func(g *G) {
		p := &ipPool{}
		vs := []iver{{mk(), imodel{}, 0, ""}}
		vs[0].d = nodes(vs[0].t)
		g.op("v0 = an empty tree")
		id := 0
		for i := 0; i < g.size; i++ {
			v := vs[len(vs)-1]
			if focus&fPersist != 0 && g.one(3) {
				v = vs[g.n(len(vs))]
			}
			nv := iver{n: vs[len(vs)-1].n + 1, m: v.m.clone()}
			id++
			x := val(g, id)
			c := g.n(8)
			if focus&fInplace != 0 {
				c = []int{0, 7, 7, 7, 7, 7, 7, 2}[c]
			} else if c == 7 && focus&fPersist != 0 {
				c = 1
			}
			byIP := g.one(5)
			nt := p.net(g)
			ip := p.ip(g)
			k, kok := refNet(nt)
			arg := netText(nt)
			if byIP {
				k, kok = refAddr(ip)
				arg = fmt.Sprint([]byte(ip))
			}
			switch {
			case c == 7:
				g.op("v%d = v%d; v%d.InplaceInsert(%s, %v)  (older versions are given up)", nv.n, v.n, nv.n, arg, x)
				nv.t = v.t
				if byIP {
					nv.t.inIP(ip, x)
				} else {
					nv.t.inNet(nt, x)
				}
				if kok {
					nv.m[k] = x
				}
				vs = vs[:0]
			case c == 2 || c == 3 && g.bool():
				if len(v.m) > 0 && g.bool() {
					s := v.m.sorted()
					k, kok, byIP = s[g.n(len(s))], true, false
					l := 4
					if k.v6 {
						l = 16
					}
					if g.one(4) && k.bits > 0 {
						k.bits -= g.n(4)
						if k.bits < 0 {
							k.bits = 0
						}
						maskBytes(k.a[:], k.bits)
					}
					nt = &net.IPNet{IP: append(net.IP(nil), k.a[:l]...), Mask: net.CIDRMask(k.bits, 8*l)}
					arg = netText(nt)
				} else if kok && k.bits < 4 && !g.one(4) {
					continue
				}
				eok := false
				if kok {
					eok = nv.m.del(k)
				}
				g.op("v%d, ok = v%d.Delete(%s)", nv.n, v.n, arg)
				var ok bool
				if byIP {
					nv.t, ok = v.t.delIP(ip)
				} else {
					nv.t, ok = v.t.delNet(nt)
				}
				if ok != eok {
					g.fail("delete", "Delete(%s) reports %v; a stored network is inside: %v", arg, ok, eok)
				}
			default:
				g.op("v%d = v%d.Insert(%s, %v)", nv.n, v.n, arg, x)
				if byIP {
					nv.t = v.t.insIP(ip, x)
				} else {
					nv.t = v.t.insNet(nt, x)
				}
				if kok {
					nv.m[k] = x
				}
			}
			if focus&fPersist != 0 {
				nv.d = nodes(nv.t)
			}
			vs = append(vs, nv)
			if len(vs) > 6 {
				vs = vs[1:]
			}
			what := fmt.Sprintf("v%d", nv.n)
			if focus&fDesc != 0 && len(nv.m) > 0 && g.one(2) {
				s := nv.m.sorted()
				vs = []iver{nv}
				ipUpdate(g, nv.t, nv.m, s[g.n(len(s))], &id)
				ipEnum(g, nv.t, nv.m, what)
			}
			if focus&(fUpdate|fEnum|fInplace) != 0 && (i == g.size-1 || g.one(4)) {
				ipEnum(g, nv.t, nv.m, what)
			}
			if focus&(fUpdate|fLookup|fInplace) != 0 && (i == g.size-1 || g.one(3)) {
				ipLook(g, nv.t, nv.m, p, what, 6)
			}
			if focus&fPersist != 0 {
				for _, o := range vs {
					if d := nodes(o.t); d != o.d {
						g.fail("nodes", "nodes of v%d were written to when v%d was made:\n%s", o.n, nv.n, diffAt(o.d, d))
					}
					if g.one(2) {
						w := fmt.Sprintf("v%d, after v%d was made,", o.n, nv.n)
						ipEnum(g, o.t, o.m, w)
						ipLook(g, o.t, o.m, p, w, 2)
					}
				}
			}
		}
	}
}

func init() {
	mk := func() iptr { return genIP{iptree.NewTree()} }
	val := anyVal
	reg("C17", "Tree", 24, ipHistory(mk, fLookup, val))
	reg("C18", "Tree", 24, ipHistory(mk, fUpdate, val))
	reg("C19", "Tree", 16, ipHistory(mk, fPersist, val))
	reg("C20", "Tree", 24, ipHistory(mk, fEnum, val))
	reg("C21", "Tree", 24, ipHistory(mk, fInplace, val))
	reg("C22", "Tree", 24, ipHistory(mk, fDesc, val))
}
