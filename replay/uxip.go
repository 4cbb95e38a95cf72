package main

import (
	"fmt"
	"net"

	"github.com/infobloxopen/go-trees/uintX/iptree16"
	"github.com/infobloxopen/go-trees/uintX/iptree32"
	"github.com/infobloxopen/go-trees/uintX/iptree64"
	"github.com/infobloxopen/go-trees/uintX/iptree8"
)

type ux8IP struct{ t *iptree8.Tree }

func (t ux8IP) insNet(n *net.IPNet, v interface{}) iptr {
	return ux8IP{t.t.InsertNet(n, v.(uint8))}
}
func (t ux8IP) insIP(ip net.IP, v interface{}) iptr     { return ux8IP{t.t.InsertIP(ip, v.(uint8))} }
func (t ux8IP) inNet(n *net.IPNet, v interface{})       { t.t.InplaceInsertNet(n, v.(uint8)) }
func (t ux8IP) inIP(ip net.IP, v interface{})           { t.t.InplaceInsertIP(ip, v.(uint8)) }
func (t ux8IP) getNet(n *net.IPNet) (interface{}, bool) { return t.t.GetByNet(n) }
func (t ux8IP) getIP(ip net.IP) (interface{}, bool)     { return t.t.GetByIP(ip) }
func (t ux8IP) delNet(n *net.IPNet) (iptr, bool)        { r, ok := t.t.DeleteByNet(n); return ux8IP{r}, ok }
func (t ux8IP) delIP(ip net.IP) (iptr, bool)            { r, ok := t.t.DeleteByIP(ip); return ux8IP{r}, ok }
func (t ux8IP) enum() (r []ient) {
	for p := range t.t.Enumerate() {
		r = append(r, ient{p.Key, p.Value})
	}
	return
}
func (t ux8IP) update(n *net.IPNet, f func(k *net.IPNet, v interface{}) (interface{}, bool)) bool {
	return false
}

type ux16IP struct{ t *iptree16.Tree }

func (t ux16IP) insNet(n *net.IPNet, v interface{}) iptr {
	return ux16IP{t.t.InsertNet(n, v.(uint16))}
}
func (t ux16IP) insIP(ip net.IP, v interface{}) iptr     { return ux16IP{t.t.InsertIP(ip, v.(uint16))} }
func (t ux16IP) inNet(n *net.IPNet, v interface{})       { t.t.InplaceInsertNet(n, v.(uint16)) }
func (t ux16IP) inIP(ip net.IP, v interface{})           { t.t.InplaceInsertIP(ip, v.(uint16)) }
func (t ux16IP) getNet(n *net.IPNet) (interface{}, bool) { return t.t.GetByNet(n) }
func (t ux16IP) getIP(ip net.IP) (interface{}, bool)     { return t.t.GetByIP(ip) }
func (t ux16IP) delNet(n *net.IPNet) (iptr, bool)        { r, ok := t.t.DeleteByNet(n); return ux16IP{r}, ok }
func (t ux16IP) delIP(ip net.IP) (iptr, bool)            { r, ok := t.t.DeleteByIP(ip); return ux16IP{r}, ok }
func (t ux16IP) enum() (r []ient) {
	for p := range t.t.Enumerate() {
		r = append(r, ient{p.Key, p.Value})
	}
	return
}
func (t ux16IP) update(n *net.IPNet, f func(k *net.IPNet, v interface{}) (interface{}, bool)) bool {
	return false
}

type ux32IP struct{ t *iptree32.Tree }

func (t ux32IP) insNet(n *net.IPNet, v interface{}) iptr {
	return ux32IP{t.t.InsertNet(n, v.(uint32))}
}
func (t ux32IP) insIP(ip net.IP, v interface{}) iptr     { return ux32IP{t.t.InsertIP(ip, v.(uint32))} }
func (t ux32IP) inNet(n *net.IPNet, v interface{})       { t.t.InplaceInsertNet(n, v.(uint32)) }
func (t ux32IP) inIP(ip net.IP, v interface{})           { t.t.InplaceInsertIP(ip, v.(uint32)) }
func (t ux32IP) getNet(n *net.IPNet) (interface{}, bool) { return t.t.GetByNet(n) }
func (t ux32IP) getIP(ip net.IP) (interface{}, bool)     { return t.t.GetByIP(ip) }
func (t ux32IP) delNet(n *net.IPNet) (iptr, bool)        { r, ok := t.t.DeleteByNet(n); return ux32IP{r}, ok }
func (t ux32IP) delIP(ip net.IP) (iptr, bool)            { r, ok := t.t.DeleteByIP(ip); return ux32IP{r}, ok }
func (t ux32IP) enum() (r []ient) {
	for p := range t.t.Enumerate() {
		r = append(r, ient{p.Key, p.Value})
	}
	return
}
func (t ux32IP) update(n *net.IPNet, f func(k *net.IPNet, v interface{}) (interface{}, bool)) bool {
	return false
}

type ux64IP struct{ t *iptree64.Tree }

func (t ux64IP) insNet(n *net.IPNet, v interface{}) iptr {
	return ux64IP{t.t.InsertNet(n, v.(uint64))}
}
func (t ux64IP) insIP(ip net.IP, v interface{}) iptr     { return ux64IP{t.t.InsertIP(ip, v.(uint64))} }
func (t ux64IP) inNet(n *net.IPNet, v interface{})       { t.t.InplaceInsertNet(n, v.(uint64)) }
func (t ux64IP) inIP(ip net.IP, v interface{})           { t.t.InplaceInsertIP(ip, v.(uint64)) }
func (t ux64IP) getNet(n *net.IPNet) (interface{}, bool) { return t.t.GetByNet(n) }
func (t ux64IP) getIP(ip net.IP) (interface{}, bool)     { return t.t.GetByIP(ip) }
func (t ux64IP) delNet(n *net.IPNet) (iptr, bool)        { r, ok := t.t.DeleteByNet(n); return ux64IP{r}, ok }
func (t ux64IP) delIP(ip net.IP) (iptr, bool)            { r, ok := t.t.DeleteByIP(ip); return ux64IP{r}, ok }
func (t ux64IP) enum() (r []ient) {
	for p := range t.t.Enumerate() {
		r = append(r, ient{p.Key, p.Value})
	}
	return
}
func (t ux64IP) update(n *net.IPNet, f func(k *net.IPNet, v interface{}) (interface{}, bool)) bool {
	return false
}

func init() {
	for _, w := range []uint{8, 16, 32, 64} {
		w := w
		mk := func() iptr {
			switch w {
			case 8:
				return ux8IP{iptree8.NewTree()}
			case 16:
				return ux16IP{iptree16.NewTree()}
			case 32:
				return ux32IP{iptree32.NewTree()}
			}
			return ux64IP{iptree64.NewTree()}
		}
		val := func(g *G, id int) interface{} {
			if g.one(10) {
				id = 0
			}
			switch w {
			case 8:
				return uint8(id)
			case 16:
				return uint16(id * 257)
			case 32:
				return uint32(id) * 0x1000193
			}
			return uint64(id) * 0x100000001b3
		}
		nm := fmt.Sprintf("iptree%d ", w)
		reg("C27", nm+"map", 24, ipHistory(mk, fLookup|fUpdate|fEnum, val))
		reg("C27", nm+"versions", 16, ipHistory(mk, fPersist, val))
		reg("C27", nm+"in place", 20, ipHistory(mk, fInplace, val))
	}
}
