package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/strtree"
	"github.com/infobloxopen/go-trees/uintX/strtree16"
	"github.com/infobloxopen/go-trees/uintX/strtree32"
	"github.com/infobloxopen/go-trees/uintX/strtree64"
	"github.com/infobloxopen/go-trees/uintX/strtree8"
)

// A red-black tree seen through its API. Values are integers; kind.wrap limits them to what the tree stores.
type smap interface {
	insert(k string, v uint64) smap
	inplace(k string, v uint64)
	get(k string) (uint64, bool)
	del(k string) (smap, bool)
	enum() []sent
	empty() bool
	dot() string
}

type sent struct {
	k string
	v uint64
}

type sver struct {
	t smap
	m *smodel
	n int
	d string // its nodes when it was made
}

// smodel is the reference: entries sorted by cmp; keys are kept as first inserted only when id says so.
type smodel struct {
	cmp func(a, b string) int
	e   []sent
}

func (m *smodel) at(k string) (int, bool) {
	i := sort.Search(len(m.e), func(i int) bool { return m.cmp(m.e[i].k, k) >= 0 })
	return i, i < len(m.e) && m.cmp(m.e[i].k, k) == 0
}
func (m *smodel) clone() *smodel { return &smodel{m.cmp, append([]sent(nil), m.e...)} }
func (m *smodel) set(k string, v uint64) {
	i, ok := m.at(k)
	if ok {
		m.e[i].v = v
		return
	}
	m.e = append(m.e, sent{})
	copy(m.e[i+1:], m.e[i:])
	m.e[i] = sent{k, v}
}
func (m *smodel) get(k string) (uint64, bool) {
	i, ok := m.at(k)
	if !ok {
		return 0, false
	}
	return m.e[i].v, true
}
func (m *smodel) del(k string) bool {
	i, ok := m.at(k)
	if ok {
		m.e = append(m.e[:i:i], m.e[i+1:]...)
	}
	return ok
}

type skind struct {
	name string
	cmp  func(a, b string) int
	make func(g *G) smap
	bits uint
	key  func(g *G) string   // a key as the caller writes it
	can  func(string) string // the key the tree is about
	out  func(string) string // how the enumeration writes it
	nils bool                // the zero version is a nil pointer
}

// ---- strtree

type st struct{ t *strtree.Tree }

func iv(v interface{}) uint64 {
	if v == nil {
		return 0
	}
	if x, ok := v.([]uint64); ok {
		return x[0]
	}
	return v.(uint64)
}
func vi(v uint64) interface{} {
	if v == 0 {
		return nil
	}
	if v%8 == 5 { // cannot be compared with ==
		return []uint64{v}
	}
	return v
}

func (t st) insert(k string, v uint64) smap { return st{t.t.Insert(k, vi(v))} }
func (t st) inplace(k string, v uint64)     { t.t.InplaceInsert(k, vi(v)) }
func (t st) get(k string) (uint64, bool)    { v, ok := t.t.Get(k); return iv(v), ok }
func (t st) del(k string) (smap, bool)      { n, ok := t.t.Delete(k); return st{n}, ok }
func (t st) enum() (r []sent) {
	for p := range t.t.Enumerate() {
		r = append(r, sent{p.Key, iv(p.Value)})
	}
	return
}
func (t st) empty() bool { return t.t.IsEmpty() }
func (t st) dot() string { return t.t.Dot() }

type st8 struct{ t *strtree8.Tree }

func (t st8) insert(k string, v uint64) smap { return st8{t.t.Insert(k, uint8(v))} }
func (t st8) inplace(k string, v uint64)     { t.t.InplaceInsert(k, uint8(v)) }
func (t st8) get(k string) (uint64, bool)    { v, ok := t.t.Get(k); return uint64(v), ok }
func (t st8) del(k string) (smap, bool)      { n, ok := t.t.Delete(k); return st8{n}, ok }
func (t st8) enum() (r []sent) {
	for p := range t.t.Enumerate() {
		r = append(r, sent{p.Key, uint64(p.Value)})
	}
	return
}
func (t st8) empty() bool { return t.t.IsEmpty() }
func (t st8) dot() string { return t.t.Dot() }

type st16 struct{ t *strtree16.Tree }

func (t st16) insert(k string, v uint64) smap { return st16{t.t.Insert(k, uint16(v))} }
func (t st16) inplace(k string, v uint64)     { t.t.InplaceInsert(k, uint16(v)) }
func (t st16) get(k string) (uint64, bool)    { v, ok := t.t.Get(k); return uint64(v), ok }
func (t st16) del(k string) (smap, bool)      { n, ok := t.t.Delete(k); return st16{n}, ok }
func (t st16) enum() (r []sent) {
	for p := range t.t.Enumerate() {
		r = append(r, sent{p.Key, uint64(p.Value)})
	}
	return
}
func (t st16) empty() bool { return t.t.IsEmpty() }
func (t st16) dot() string { return t.t.Dot() }

type st32 struct{ t *strtree32.Tree }

func (t st32) insert(k string, v uint64) smap { return st32{t.t.Insert(k, uint32(v))} }
func (t st32) inplace(k string, v uint64)     { t.t.InplaceInsert(k, uint32(v)) }
func (t st32) get(k string) (uint64, bool)    { v, ok := t.t.Get(k); return uint64(v), ok }
func (t st32) del(k string) (smap, bool)      { n, ok := t.t.Delete(k); return st32{n}, ok }
func (t st32) enum() (r []sent) {
	for p := range t.t.Enumerate() {
		r = append(r, sent{p.Key, uint64(p.Value)})
	}
	return
}
func (t st32) empty() bool { return t.t.IsEmpty() }
func (t st32) dot() string { return t.t.Dot() }

type st64 struct{ t *strtree64.Tree }

func (t st64) insert(k string, v uint64) smap { return st64{t.t.Insert(k, v)} }
func (t st64) inplace(k string, v uint64)     { t.t.InplaceInsert(k, v) }
func (t st64) get(k string) (uint64, bool)    { return t.t.Get(k) }
func (t st64) del(k string) (smap, bool)      { n, ok := t.t.Delete(k); return st64{n}, ok }
func (t st64) enum() (r []sent) {
	for p := range t.t.Enumerate() {
		r = append(r, sent{p.Key, p.Value})
	}
	return
}
func (t st64) empty() bool { return t.t.IsEmpty() }
func (t st64) dot() string { return t.t.Dot() }

// ---- dltree, raw and human-readable

type dr struct{ t *dltree.Tree }

func (t dr) insert(k string, v uint64) smap { return dr{t.t.RawInsert(k, vi(v))} }
func (t dr) inplace(k string, v uint64)     { t.t.RawInplaceInsert(k, vi(v)) }
func (t dr) get(k string) (uint64, bool)    { v, ok := t.t.RawGet(k); return iv(v), ok }
func (t dr) del(k string) (smap, bool)      { n, ok := t.t.RawDelete(k); return dr{n}, ok }
func (t dr) enum() (r []sent) {
	for p := range t.t.RawEnumerate() {
		r = append(r, sent{p.Key, iv(p.Value)})
	}
	return
}
func (t dr) empty() bool { return t.t.IsEmpty() }
func (t dr) dot() string { return t.t.Dot() }

type dh struct{ t *dltree.Tree }

func (t dh) insert(k string, v uint64) smap { return dh{t.t.Insert(k, vi(v))} }
func (t dh) inplace(k string, v uint64)     { t.t.InplaceInsert(k, vi(v)) }
func (t dh) get(k string) (uint64, bool)    { v, ok := t.t.Get(k); return iv(v), ok }
func (t dh) del(k string) (smap, bool)      { n, ok := t.t.Delete(k); return dh{n}, ok }
func (t dh) enum() (r []sent) {
	for p := range t.t.Enumerate() {
		r = append(r, sent{p.Key, iv(p.Value)})
	}
	return
}
func (t dh) empty() bool { return t.t.IsEmpty() }
func (t dh) dot() string { return t.t.Dot() }

// ---- comparisons and keys

func lexCmp(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}
func lenCmp(a, b string) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return lexCmp(a, b)
}

var strCmps = []struct {
	name string
	f    func(a, b string) int
}{
	{"", nil},
	{"reversed", func(a, b string) int { return strings.Compare(b, a) }},
	{"ignoring case", func(a, b string) int { return strings.Compare(strings.ToLower(a), strings.ToLower(b)) }},
	{"by length", func(a, b string) int { return 7 * (len(a) - len(b)) }},
	{"length, then bytes", func(a, b string) int { return 3 * lenCmp(a, b) }},
}

func strKey(g *G) string {
	switch g.n(8) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", g.n(40))
	case 2, 3:
		return strconv.Itoa(g.n(30))
	}
	b := make([]byte, 1+g.n(3))
	for i := range b {
		b[i] = "abcABC\x00\xff"[g.n(8)]
	}
	return string(b)
}

func rawLabel(g *G) string {
	al := "ABaz-09\x00\xff.\\ Z"
	n := 0
	switch g.n(6) {
	case 0:
		n = g.n(64)
	case 1:
		n = []int{0, 61, 62, 63}[g.n(4)]
	default:
		n = 1 + g.n(3)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[g.n(len(al))]
	}
	return string(b)
}

// A human-readable text of a random label.
func humanLabel(g *G) string {
	r := rawLabel(g)
	var s strings.Builder
	for i := 0; i < len(r); i++ {
		c := r[i]
		if c >= 'A' && c <= 'Z' && g.bool() {
			c |= 0x20
		}
		dig := c >= '0' && c <= '9'
		switch {
		case g.one(4):
			fmt.Fprintf(&s, "\\%03d", c)
		case c == '.' || c == '\\':
			s.WriteByte('\\')
			s.WriteByte(c)
		case g.one(4) && !dig:
			s.WriteByte('\\')
			s.WriteByte(c)
		default:
			s.WriteByte(c)
		}
	}
	if g.one(6) {
		s.WriteByte('.')
	}
	return s.String()
}

// refLabel decodes a human-readable label without an inner unescaped dot.
func refLabel(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); {
		c, n, st := refByte(s, i)
		if st == 2 {
			return "", false
		}
		if st == 1 {
			break
		}
		b = append(b, c)
		i += n
	}
	if len(b) > 63 {
		return "", false
	}
	return string(b), true
}

// refByte reads the byte at i: its value and length, and 0 for a byte, 1 for a dot, 2 for a broken escape.
func refByte(s string, i int) (byte, int, int) {
	up := func(c byte) byte {
		if c >= 'a' && c <= 'z' {
			return c - 32
		}
		return c
	}
	if s[i] == '.' {
		return 0, 1, 1
	}
	if s[i] != '\\' {
		return up(s[i]), 1, 0
	}
	if i+1 >= len(s) {
		return 0, 0, 2
	}
	d := func(j int) (int, bool) {
		if j >= len(s) || s[j] < '0' || s[j] > '9' {
			return 0, false
		}
		return int(s[j] - '0'), true
	}
	a, ok := d(i + 1)
	if !ok {
		return up(s[i+1]), 2, 0
	}
	b, ok1 := d(i + 2)
	c, ok2 := d(i + 3)
	if !ok1 || !ok2 || 100*a+10*b+c > 255 {
		return 0, 0, 2
	}
	return up(byte(100*a + 10*b + c)), 4, 0
}

func refHuman(l string) string {
	var s strings.Builder
	for i := 0; i < len(l); i++ {
		c := l[i]
		switch {
		case c == '.' || c == '\\':
			s.WriteByte('\\')
			s.WriteByte(c)
		case c < '!' || c > '~':
			fmt.Fprintf(&s, "\\%03d", c)
		case c >= 'A' && c <= 'Z':
			s.WriteByte(c + 32)
		default:
			s.WriteByte(c)
		}
	}
	return s.String()
}

func same(s string) string { return s }
func labelOf(s string) string {
	l, ok := refLabel(s)
	if !ok {
		panic(failure{"harness", "the harness made an invalid label"})
	}
	return l
}

func strKinds() []skind {
	var r []skind
	for _, c := range strCmps {
		c := c
		cmp := c.f
		if cmp == nil {
			cmp = lexCmp
		}
		r = append(r, skind{name: "strtree " + c.name, cmp: cmp, bits: 63, key: strKey, can: same, out: same, nils: c.f == nil,
			make: func(g *G) smap {
				if c.f != nil {
					return st{strtree.NewTreeWithCustomComparison(strtree.Compare(c.f))}
				}
				if g.one(3) {
					return st{}
				}
				return st{strtree.NewTree()}
			}})
	}
	return r
}

func uxKinds() []skind {
	var r []skind
	for _, c := range strCmps {
		c := c
		cmp := c.f
		if cmp == nil {
			cmp = lexCmp
		}
		for _, w := range []uint{8, 16, 32, 64} {
			w := w
			r = append(r, skind{name: fmt.Sprintf("strtree%d %s", w, c.name), cmp: cmp, bits: w, key: strKey, can: same, out: same, nils: c.f == nil,
				make: func(g *G) smap {
					nl := c.f == nil && g.one(3)
					switch w {
					case 8:
						if nl {
							return st8{}
						} else if c.f == nil {
							return st8{strtree8.NewTree()}
						}
						return st8{strtree8.NewTreeWithCustomComparison(strtree8.Compare(c.f))}
					case 16:
						if nl {
							return st16{}
						} else if c.f == nil {
							return st16{strtree16.NewTree()}
						}
						return st16{strtree16.NewTreeWithCustomComparison(strtree16.Compare(c.f))}
					case 32:
						if nl {
							return st32{}
						} else if c.f == nil {
							return st32{strtree32.NewTree()}
						}
						return st32{strtree32.NewTreeWithCustomComparison(strtree32.Compare(c.f))}
					}
					if nl {
						return st64{}
					} else if c.f == nil {
						return st64{strtree64.NewTree()}
					}
					return st64{strtree64.NewTreeWithCustomComparison(strtree64.Compare(c.f))}
				}})
		}
	}
	return r
}

func dlKinds() []skind {
	mk := func(g *G) *dltree.Tree {
		if g.one(3) {
			return nil
		}
		return dltree.NewTree()
	}
	return []skind{
		{name: "dltree raw", cmp: lenCmp, bits: 63, key: rawLabel, can: same, out: same, nils: true,
			make: func(g *G) smap { return dr{mk(g)} }},
		{name: "dltree", cmp: lenCmp, bits: 63, key: humanLabel, can: labelOf, out: refHuman, nils: true,
			make: func(g *G) smap { return dh{mk(g)} }},
	}
}

// nilTree tells whether the version is a nil pointer, on which in-place insertion is not defined.
func nilTree(t smap) bool {
	switch x := t.(type) {
	case st:
		return x.t == nil
	case st8:
		return x.t == nil
	case st16:
		return x.t == nil
	case st32:
		return x.t == nil
	case st64:
		return x.t == nil
	case dr:
		return x.t == nil
	case dh:
		return x.t == nil
	}
	return false
}

func checkSmap(g *G, k *skind, t smap, m *smodel, what string, lookups int, enum bool) {
	if e := t.empty(); e != (len(m.e) == 0) {
		g.fail("empty", "%s: IsEmpty gives %v for %d entries", what, e, len(m.e))
	}
	if enum {
		es := t.enum()
		for i, e := range es {
			if i >= len(m.e) {
				break
			}
			x := m.e[i]
			if m.cmp(k.can0(e.k), x.k) != 0 || k.name[0] == 'd' && e.k != k.out(x.k) || e.v != x.v {
				g.fail("enum", "%s: entry %d of the enumeration is %q = %d; expected %q = %d", what, i, e.k, e.v, k.out(x.k), x.v)
			}
		}
		if len(es) != len(m.e) {
			g.fail("enum", "%s: the enumeration delivers %d entries, %d are stored", what, len(es), len(m.e))
		}
	}
	look := func(key string) {
		v, ok := t.get(key)
		ev, eok := m.get(k.can(key))
		if v != ev || ok != eok {
			g.fail("get", "%s: a lookup of %q gives %d, %v; expected %d, %v", what, key, v, ok, ev, eok)
		}
	}
	for i := 0; i < lookups; i++ {
		look(k.key(g))
	}
	if lookups > 0 {
		for _, e := range m.e {
			look(k.out(e.k))
		}
	}
}

// can0 maps an enumerated key back to the key the model uses.
func (k *skind) can0(s string) string {
	if k.name == "dltree" {
		l, ok := refLabel(s)
		if !ok {
			return "\x00bad\x00" + s
		}
		return l
	}
	return s
}

// balance reads a Dot dump: the longest and shortest number of nodes from the root to a leaf.
func balance(dot string) (min, max, n int) {
	type nd struct{ l, r int }
	kids := map[int]nd{}
	isNil := map[int]bool{}
	for _, l := range strings.Split(dot, "\n") {
		if !strings.HasPrefix(l, "N") {
			continue
		}
		sp := strings.IndexByte(l, ' ')
		id, err := strconv.Atoi(l[1:sp])
		if err != nil {
			continue
		}
		rest := l[sp+1:]
		if strings.HasPrefix(rest, "-> {") {
			var a, b int
			if _, err := fmt.Sscanf(rest, "-> { N%d N%d }", &a, &b); err == nil {
				kids[id] = nd{a, b}
			}
		} else if strings.HasPrefix(rest, "[label=\"nil\" style=filled fontcolor=white") {
			isNil[id] = true
		} else {
			n++
		}
	}
	var rec func(i int) (int, int)
	rec = func(i int) (int, int) {
		if isNil[i] {
			return 0, 0
		}
		k, ok := kids[i]
		if !ok {
			return 1, 1
		}
		a, b := rec(k.l)
		c, d := rec(k.r)
		if c < a {
			a = c
		}
		if d > b {
			b = d
		}
		return a + 1, b + 1
	}
	min, max = rec(0)
	return
}

const fBalance = 1 << 10

func smapHistory(k skind, focus int) func(*G) {
	return func(g *G) {
		id := uint64(0)
		val := func() uint64 {
			id++
			if g.one(8) {
				return 0
			}
			if k.bits < 64 && id >= 1<<k.bits {
				id = 1
			}
			if g.one(8) {
				return ^uint64(0) >> (64 - k.bits)
			}
			if g.one(5) { // one used before
				return 1 + uint64(g.n(int(id)))
			}
			return id
		}
		vs := []sver{{t: k.make(g), m: &smodel{cmp: k.cmp}}}
		vs[0].d = nodes(vs[0].t)
		g.op("v0 = an empty %s tree%s", k.name, map[bool]string{true: " (nil)", false: ""}[nilTree(vs[0].t)])
		var used []string
		newKey := func() string {
			if len(used) > 0 && g.one(3) {
				return used[g.n(len(used))]
			}
			s := k.key(g)
			used = append(used, s)
			return s
		}
		seq := g.n(8) // 0: ascending keys, 1: descending keys
		ops := g.size
		if seq < 2 {
			ops *= 2
		}
		for i := 0; i < ops; i++ {
			v := vs[len(vs)-1]
			if focus&fPersist != 0 && g.one(3) {
				v = vs[g.n(len(vs))]
			}
			nv := sver{m: v.m.clone(), n: vs[len(vs)-1].n + 1}
			key := newKey()
			if seq < 2 && k.name != "dltree" && g.one(5) == false {
				j := i
				if seq == 1 {
					j = 2000 - i
				}
				key = fmt.Sprintf("%04d", j)
			}
			c := g.n(8)
			if seq < 2 && c < 4 && len(v.m.e) < 12 {
				c = 4
			}
			if focus&fInplace != 0 {
				c = []int{0, 7, 7, 7, 7, 7, 7, 7}[c]
			} else if c == 7 && focus&fPersist != 0 {
				c = 4
			}
			if c == 7 && nilTree(v.t) {
				c = 4
			}
			switch {
			case c == 7:
				x := val()
				g.op("v%d = v%d, InplaceInsert(%q, %d)  (older versions are given up)", nv.n, v.n, key, x)
				v.t.inplace(key, x)
				nv.t = v.t
				nv.m.set(k.can(key), x)
				vs = vs[:0]
			case c < 3:
				if len(v.m.e) > 0 && g.n(4) > 0 {
					key = k.out(v.m.e[g.n(len(v.m.e))].k)
				}
				g.op("v%d, ok = v%d.Delete(%q)", nv.n, v.n, key)
				t, ok := v.t.del(key)
				eok := nv.m.del(k.can(key))
				if ok != eok {
					g.fail("delete", "Delete(%q) reports %v; the key is stored: %v", key, ok, eok)
				}
				nv.t = t
			default:
				x := val()
				g.op("v%d = v%d.Insert(%q, %d)", nv.n, v.n, key, x)
				nv.t = v.t.insert(key, x)
				nv.m.set(k.can(key), x)
			}
			if focus&fPersist != 0 {
				nv.d = nodes(nv.t)
			}
			vs = append(vs, nv)
			if len(vs) > 6 {
				vs = vs[1:]
			}
			last := i == ops-1
			what := fmt.Sprintf("v%d", nv.n)
			if focus&(fLookup|fInplace) != 0 && (last || g.one(4)) {
				checkSmap(g, &k, nv.t, nv.m, what, 3, last || focus&fEnum != 0)
			}
			if focus&fEnum != 0 && (last || g.one(3)) {
				checkSmap(g, &k, nv.t, nv.m, what, 0, true)
			}
			if focus&fBalance != 0 && (last || g.one(3)) {
				mn, mx, n := balance(nv.t.dot())
				if n == len(nv.m.e) && mx > 2*mn {
					g.fail("balance", "%s: %d entries, the shortest path from the root to a leaf has %d nodes, the longest %d", what, n, mn, mx)
				}
			}
			if focus&fPersist != 0 {
				for _, o := range vs {
					if d := nodes(o.t); d != o.d {
						g.fail("nodes", "nodes of v%d were written to when v%d was made:\n%s", o.n, nv.n, diffAt(o.d, d))
					}
					if g.one(2) {
						checkSmap(g, &k, o.t, o.m, fmt.Sprintf("v%d, after v%d was made,", o.n, nv.n), 2, true)
					}
				}
			}
		}
	}
}

func init() {
	for _, k := range strKinds() {
		reg("C06", k.name, 24, smapHistory(k, fLookup))
		reg("C07", k.name, 20, smapHistory(k, fPersist))
		reg("C08", k.name, 24, smapHistory(k, fEnum))
		reg("C09", k.name, 60, smapHistory(k, fBalance))
		reg("C10", k.name, 32, smapHistory(k, fInplace))
	}
	for _, k := range dlKinds() {
		reg("C11", k.name, 24, smapHistory(k, fLookup))
		reg("C12", k.name, 20, smapHistory(k, fPersist))
		reg("C13", k.name, 24, smapHistory(k, fEnum))
		reg("C09", k.name, 60, smapHistory(k, fBalance))
	}
	for _, k := range uxKinds() {
		reg("C28", k.name+" map", 24, smapHistory(k, fLookup|fEnum))
		reg("C28", k.name+" versions", 20, smapHistory(k, fPersist|fBalance))
	}
}
