package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
)

// refName splits a text into decoded labels, in order of the text.
func refName(s string) ([]string, bool) {
	if s == "" || s == "." {
		return nil, true
	}
	var ls []string
	var cur []byte
	n := 0
	for i := 0; i < len(s); {
		c, k, st := refByte(s, i)
		switch st {
		case 2:
			return nil, false
		case 1:
			if n == 0 {
				return nil, false
			}
			ls = append(ls, string(cur))
			cur, n = nil, 0
		default:
			cur = append(cur, c)
			n++
		}
		i += k
	}
	if n > 0 {
		ls = append(ls, string(cur))
	}
	tot := 0
	for _, l := range ls {
		if len(l) > 63 {
			return nil, false
		}
		tot += len(l) + 1
	}
	if len(ls) > 127 || tot > 255 {
		return nil, false
	}
	return ls, true
}

func writeByte(g *G, s *strings.Builder, c byte) {
	const d = "0123456789"
	switch {
	case g.one(12):
		s.WriteByte('\\')
		s.WriteByte(d[c/100])
		s.WriteByte(d[c/10%10])
		s.WriteByte(d[c%10])
	case c == '.' || c == '\\' || g.one(20) && !(c >= '0' && c <= '9'):
		s.WriteByte('\\')
		s.WriteByte(c)
	default:
		s.WriteByte(c)
	}
}

// escText writes an escape of bytes at the borders of what a digit is, and now and then something around it.
func escText(g *G, s *strings.Builder) {
	const al = "0012259//::;\x00\xff-aAz\\"
	if g.one(3) {
		s.WriteByte('x')
	}
	for k := 1 + g.n(2); k > 0; k-- {
		s.WriteByte('\\')
		for i := g.n(4); i >= 0; i-- {
			s.WriteByte(al[g.n(len(al))])
		}
	}
}

func anyByte(g *G) byte {
	if g.one(3) {
		return byte(g.n(256))
	}
	return "azAZ@[`{09.\\ !~\x7f\x00\xff"[g.n(18)]
}

// nameText makes a text that is, or nearly is, a domain name.
func nameText(g *G) string {
	var s strings.Builder
	switch g.n(6) {
	case 0: // few labels of any bytes
		for i := g.n(5); i >= 0; i-- {
			for j := g.n(5) + g.n(2); j > 0; j-- {
				writeByte(g, &s, anyByte(g))
			}
			if i > 0 || g.one(3) {
				s.WriteByte('.')
			}
		}
	case 1: // many short labels
		n := 120 + g.n(10)
		for i := 0; i < n; i++ {
			for j := 0; j < 1 || g.one(40); j++ {
				writeByte(g, &s, anyByte(g))
			}
			if i < n-1 || g.bool() {
				s.WriteByte('.')
			}
		}
	case 2: // long labels
		for i := g.n(5); i >= 0; i-- {
			for j := 58 + g.n(7); j > 0; j-- {
				writeByte(g, &s, anyByte(g))
			}
			if i > 0 || g.one(3) {
				s.WriteByte('.')
			}
		}
	case 3: // a name near 255 bytes
		tot := 0
		for tot < 250+g.n(10) {
			k := 1 + g.n(63)
			if tot+k+1 > 256 && g.n(3) > 0 {
				k = 254 - tot
			}
			if k < 1 {
				break
			}
			for j := 0; j < k; j++ {
				writeByte(g, &s, anyByte(g))
			}
			tot += k + 1
			s.WriteByte('.')
		}
		if g.bool() {
			return strings.TrimSuffix(s.String(), ".")
		}
	case 4:
		if g.bool() {
			escText(g, &s)
			break
		}
		for i := g.n(12); i > 0; i-- {
			s.WriteByte("a.\\0129Z"[g.n(8)])
		}
	case 5:
		return []string{"", ".", "..", "\\", "\\0", "\\00", "\\256", "\\255", "a..", ".a", "\\.", "a.b", "\\999"}[g.n(13)]
	}
	t := s.String()
	if len(t) > 0 && g.one(6) { // damage it
		i := g.n(len(t))
		t = t[:i] + string("\\.0a"[g.n(4)]) + t[i+g.n(2):]
	}
	return t
}

func checkName(g *G, s string) {
	g.op("MakeNameFromString(%q)", s)
	n, err := domain.MakeNameFromString(s)
	ls, ok := refName(s)
	if (err == nil) != ok {
		g.fail("accept", "MakeNameFromString(%q) gives error %v; the name is valid: %v", s, err, ok)
	}
	if err != nil {
		return
	}
	if n.String() != s {
		g.fail("string", "the name made from %q gives back %q", s, n.String())
	}
	for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
		ls[i], ls[j] = ls[j], ls[i]
	}
	var got []string
	e := n.GetLabels(func(l string) error { got = append(got, l); return nil })
	if e != nil || strings.Join(got, "\xff|") != strings.Join(ls, "\xff|") || len(got) != len(ls) {
		g.fail("labels", "GetLabels of the name made from %q gives %q (error %v); expected %q", s, got, e, ls)
	}
	got = nil
	off := 0
	for k := 0; ; k++ {
		l, next := n.GetLabel(off)
		if next < 0 || k > len(ls)+1 {
			g.fail("iterate", "GetLabel of the name made from %q at offset %d gives %q, %d", s, off, l, next)
		}
		if len(ls) == 0 {
			if l != "" || next != 0 {
				g.fail("iterate", "GetLabel of the name made from %q at offset 0 gives %q, %d", s, l, next)
			}
			break
		}
		got = append(got, l)
		if next == 0 {
			break
		}
		off = next
	}
	if strings.Join(got, "\xff|") != strings.Join(ls, "\xff|") || len(got) != len(ls) {
		g.fail("iterate", "going through the name made from %q with GetLabel gives %q; expected %q", s, got, ls)
	}
	if len(ls) > 0 {
		boom := errors.New("stop")
		at := g.n(len(ls))
		k := 0
		e := n.GetLabels(func(l string) error {
			k++
			if k == at+1 {
				return boom
			}
			return nil
		})
		if e != boom || k != at+1 {
			g.fail("stop", "GetLabels of %q stopped by the callback at call %d returns %v after %d calls", s, at+1, e, k)
		}
	}
}

type myString string
type myName domain.Name
type boxedName struct{ domain.Name }

// checkReflect extracts a name from a reflected value and compares it with what the value wraps.
func checkReflect(g *G) {
	s := nameText(g)
	n, err := domain.MakeNameFromString(s)
	var v reflect.Value
	good := err == nil
	what := ""
	ps, pn := &s, &n
	switch g.n(14) {
	case 0, 1:
		v, what = reflect.ValueOf(s), "a string"
	case 2, 3:
		v, what = reflect.ValueOf(ps), "a pointer to a string"
	case 4, 5:
		v, what, good = reflect.ValueOf(n), "a name", true
	case 6, 7:
		v, what, good = reflect.ValueOf(pn), "a pointer to a name", true
	case 8:
		v, what, good = reflect.ValueOf(&pn), "a pointer to a pointer to a name", false
	case 9:
		v, what, good = reflect.ValueOf((*domain.Name)(nil)), "a nil pointer", false
		if g.bool() {
			v = reflect.ValueOf((*string)(nil))
		}
	case 10:
		v, what, good = reflect.Value{}, "the zero reflect.Value", false
	case 11:
		t := myString(s)
		v, what, good = reflect.ValueOf(t), "a named string type", false
		if g.bool() {
			v = reflect.ValueOf(&t)
		}
	case 12:
		t := myName(n)
		v, what, good = reflect.ValueOf(t), "another struct type", false
		if g.bool() {
			v = reflect.ValueOf(&t)
		} else if g.bool() {
			v = reflect.ValueOf(boxedName{n})
		}
	default:
		v, good = reflect.ValueOf([]interface{}{1, uint8(3), []byte(s), []string{s}, [1]string{s}, map[string]string{s: s}, errors.New(s), &ps, struct{ a, b string }{s, s}, func() {}, 1.5, true, make(chan int)}[g.n(13)]), false
		what = "a value of type " + v.Type().String()
	}
	g.op("MakeNameFromReflection(%s of %q)", what, s)
	var got domain.Name
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		got = domain.MakeNameFromReflection(v)
	}()
	if (pan == nil) != good {
		g.fail("accept", "MakeNameFromReflection of %s of %q: panic %v; the value is a name: %v", what, s, fmt.Sprint(pan), good)
	}
	if good && got != n {
		g.fail("name", "MakeNameFromReflection of %s of %q gives %#v; expected %#v", what, s, got, n)
	}
}

func labelText(g *G) string {
	var s strings.Builder
	switch g.n(4) {
	case 0:
		for j := g.n(6); j > 0; j-- {
			writeByte(g, &s, anyByte(g))
		}
	case 1:
		for j := 60 + g.n(6); j > 0; j-- {
			writeByte(g, &s, anyByte(g))
		}
	case 2:
		return humanLabel(g)
	case 3:
		if g.bool() {
			escText(g, &s)
			break
		}
		for i := g.n(8); i > 0; i-- {
			s.WriteByte("a\\0129Z"[g.n(7)])
		}
	}
	if g.one(5) {
		s.WriteByte('.')
	}
	return s.String()
}

func rawBytes(g *G, max int) string {
	b := make([]byte, g.n(max+1))
	c := g.n(4)
	for i := range b {
		switch c {
		case 0:
			b[i] = anyByte(g)
		case 1:
			b[i] = byte(g.n(256))
		case 2:
			b[i] = "\x00\x01 \xff\x7f"[g.n(5)]
		case 3:
			b[i] = ".\\AZ"[g.n(4)]
		}
	}
	return string(b)
}

// no panics
func total(g *G, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(failure); ok {
				panic(x)
			}
			g.fail("panic", "%s panics: %v", what, e)
		}
	}()
	f()
}

func init() {
	reg("C14", "names", 6, func(g *G) {
		for i := 0; i < g.size; i++ {
			checkName(g, nameText(g))
		}
	})
	reg("C15", "texts", 6, func(g *G) {
		for i := 0; i < g.size; i++ {
			s := labelText(g)
			g.op("MakeLabel(%q)", s)
			l, err := domain.MakeLabel(s)
			e, ok := refLabel(s)
			if (err == nil) != ok || ok && l != e {
				g.fail("label", "MakeLabel(%q) gives %q, %v; expected %q, valid: %v", s, l, err, e, ok)
			}
		}
	})
	reg("C15", "labels", 6, func(g *G) {
		for i := 0; i < g.size; i++ {
			b := []byte(rawBytes(g, 63))
			for i, c := range b {
				if c >= 'a' && c <= 'z' {
					b[i] = c - 32
				}
			}
			l := string(b)
			g.op("MakeHumanReadableLabel(%q)", l)
			h := domain.MakeHumanReadableLabel(l)
			if e := refHuman(l); h != e {
				g.fail("human", "MakeHumanReadableLabel(%q) gives %q; expected %q", l, h, e)
			}
			back, err := domain.MakeLabel(h)
			if err != nil || back != l {
				g.fail("round-trip", "label %q is written %q, which parses as %q, %v", l, h, back, err)
			}
		}
	})
	reg("C32", "reflection", 6, func(g *G) {
		for i := 0; i < g.size; i++ {
			checkReflect(g)
		}
	})
	reg("C16", "format", 6, func(g *G) {
		for i := 0; i < g.size; i++ {
			s := rawBytes(g, 300)
			g.op("MakeHumanReadableLabel(%q)", s)
			total(g, "MakeHumanReadableLabel", func() { domain.MakeHumanReadableLabel(s) })
		}
	})
	reg("C16", "parse", 6, func(g *G) {
		for i := 0; i < g.size; i++ {
			s := nameText(g)
			if g.one(3) {
				s = rawBytes(g, 300)
			}
			g.op("MakeNameFromString(%q)", s)
			total(g, "MakeNameFromString", func() {
				n, err := domain.MakeNameFromString(s)
				k := 0
				n.GetLabels(func(string) error { k++; return nil })
				for _, off := range []int{-1 << 63, -1, 0, 1, 254, 255, 256, 1<<63 - 1, g.n(256)} {
					c := 0
					for o := off; ; c++ {
						_, nx := n.GetLabel(o)
						if nx < 0 || nx == 0 {
							break
						}
						if nx <= o || c > 300 {
							g.fail("iterate", "GetLabel of the name made from %q goes from offset %d to %d", s, o, nx)
						}
						o = nx
					}
				}
				if err == nil {
					c, o := 0, 0
					for k > 0 {
						c++
						_, nx := n.GetLabel(o)
						if nx < 0 {
							g.fail("iterate", "GetLabel of the name made from %q at offset %d gives %d", s, o, nx)
						}
						if nx == 0 {
							break
						}
						o = nx
					}
					if c != k {
						g.fail("iterate", "going through the name made from %q with GetLabel visits %d labels, GetLabels %d", s, c, k)
					}
				}
			})
			l := strings.ReplaceAll(s, ".", "-")
			if g.bool() {
				l = labelText(g)
			}
			g.op("MakeLabel(%q)", l)
			total(g, "MakeLabel", func() { domain.MakeLabel(l) })
		}
	})
}
