#![allow(unused_mut, unused_variables, unused_assignments, dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_parens, unused_labels, unreachable_code, unused_imports, unused_must_use, unused_braces, path_statements)]
use vstd::prelude::*;
use vstd::map::*;
use vstd::seq::*;
use vstd::set::*;
verus! {

// ------------------------------------------------------------------ pointers and the heap

#[derive(Clone, Copy)]
pub struct Ref { pub a: u64 }

pub const NIL: Ref = Ref { a: 0 };

pub fn ref_eq(x: Ref, y: Ref) -> (r: bool)
    ensures r == (x == y),
{ x.a == y.a }

// Mem<T> holds the allocated objects of one Go struct type. get, set and alloc are the
// memory model: a load or store needs an allocated non-nil object, a fresh object differs
// from every allocated one.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mem<T> { v: Vec<T> }

impl<T: Copy> Mem<T> {
    pub uninterp spec fn view(&self) -> Map<Ref, T>;

    #[verifier::external_body]
    pub fn get(&self, r: Ref) -> (v: T)
        requires r != NIL, self@.contains_key(r),
        ensures v == self@[r],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn set(&mut self, r: Ref, v: T)
        requires r != NIL, old(self)@.contains_key(r),
        ensures final(self)@ == old(self)@.insert(r, v),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn alloc(&mut self, v: T) -> (r: Ref)
        ensures r != NIL, !old(self)@.contains_key(r), final(self)@ == old(self)@.insert(r, v),
    { unimplemented!() }
}

// [2]*T
#[derive(Clone, Copy)]
pub struct A2 { pub a: Ref, pub b: Ref }

impl A2 {
    pub open spec fn at(self, i: int) -> Ref { if i == 0 { self.a } else { self.b } }
    pub open spec fn put(self, i: int, v: Ref) -> A2 { if i == 0 { A2 { a: v, b: self.b } } else { A2 { a: self.a, b: v } } }

    pub fn at_(&self, i: u64) -> (r: Ref)
        requires i < 2,
        ensures r == self.at(i as int),
    { if i == 0 { self.a } else { self.b } }

    pub fn set_(&mut self, i: u64, v: Ref)
        requires i < 2,
        ensures *final(self) == old(self).put(i as int, v),
    { if i == 0 { self.a = v; } else { self.b = v; } }
}

// ------------------------------------------------------------------ control

#[verifier::external_body]
pub fn go_panic()
    requires false,
    ensures false,
{ unimplemented!() }

#[verifier::external_body]
pub fn go_unreachable<T>() -> T
    requires false,
{ unimplemented!() }

#[verifier::external_body]
pub fn go_index_panic<T>() -> T
    requires false,
{ unimplemented!() }

// ------------------------------------------------------------------ strings and byte slices

// A Go string (or a byte slice used as a value: net.IP, net.IPMask).
#[derive(Clone, Copy)]
pub struct Str { pub s: Ghost<Seq<u8>>, pub n: Ghost<bool> }

pub open spec fn mkstr(s: Seq<u8>) -> Str { Str { s: Ghost(s), n: Ghost(false) } }

pub spec const MAXLEN: int = 0x4000_0000_0000_0000;

impl Str {
    pub open spec fn view(&self) -> Seq<u8> { self.s@ }
    pub open spec fn nil(&self) -> bool { self.n@ }

    #[verifier::external_body]
    pub fn len(&self) -> (r: u64)
        ensures r == self@.len(), r <= MAXLEN,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len_i(&self) -> (r: i64)
        ensures r == self@.len(), 0 <= r <= MAXLEN,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn at_(&self, i: u64) -> (r: u8)
        requires i < self@.len(),
        ensures r == self@[i as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn sub(&self, lo: u64, hi: u64) -> (r: Str)
        requires lo <= hi <= self@.len(),
        ensures r@ == self@.subrange(lo as int, hi as int), !self.nil() ==> !r.nil(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn concat(&self, o: Str) -> (r: Str)
        ensures r@ == self@ + o@, !self.nil() || o@.len() > 0 ==> !r.nil(),
    { unimplemented!() }

    // what is known of a byte slice x after append(x[:at], ...) may have written behind at
    #[verifier::external_body]
    pub fn clobber(&self, at: u64) -> (r: Str)
        ensures r@.len() == self@.len(), r.nil() == self.nil(),
            forall|i: int| 0 <= i < self@.len() && i < at ==> (#[trigger] r@[i]) == self@[i],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn eq_(&self, o: Str) -> (r: bool)
        ensures r == (self@ == o@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn empty() -> (r: Str)
        ensures r@ == Seq::<u8>::empty(), !r.nil(),
    { unimplemented!() }

    // a nil byte slice
    #[verifier::external_body]
    pub fn nil_() -> (r: Str)
        ensures r@ == Seq::<u8>::empty(), r.nil(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_nil(&self) -> (r: bool)
        ensures r == self.nil(), r ==> self@.len() == 0,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn zeros(n: u64) -> (r: Str)
        ensures r@ == Seq::new(n as nat, |i: int| 0u8), !r.nil(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn lit4(a: u8, b: u8, c: u8, d: u8) -> (r: Str)
        ensures r@ == seq![a, b, c, d], !r.nil(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn lit8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, i: u8) -> (r: Str)
        ensures r@ == seq![a, b, c, d, e, f, g, i], !r.nil(),
    { unimplemented!() }
}

// ------------------------------------------------------------------ arrays and slices

#[verifier::reject_recursive_types(T)]
pub struct Sl<T> { pub s: Ghost<Seq<T>> }

impl<T: Copy> Sl<T> {
    pub open spec fn view(&self) -> Seq<T> { self.s@ }

    #[verifier::external_body]
    pub fn make(n: u64, z: T) -> (r: Sl<T>)
        ensures r@ == Seq::new(n as nat, |i: int| z),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: u64)
        ensures r == self@.len(), r <= MAXLEN,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len_i(&self) -> (r: i64)
        ensures r == self@.len(), 0 <= r <= MAXLEN,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn at_(&self, i: u64) -> (r: T)
        requires i < self@.len(),
        ensures r == self@[i as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn set_(&mut self, i: u64, v: T)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, v),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn sub(&self, lo: u64, hi: u64) -> (r: Sl<T>)
        requires lo <= hi <= self@.len(),
        ensures r@ == self@.subrange(lo as int, hi as int),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn sl_to_str(b: &Sl<u8>, lo: u64, hi: u64) -> (r: Str)
    requires lo <= hi <= b@.len(),
    ensures r@ == b@.subrange(lo as int, hi as int), !r.nil(),
{ unimplemented!() }

pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }

// copy(d[a1:a2], s[a3:a4])
#[verifier::external_body]
pub fn sl_copy<T: Copy>(d: &mut Sl<T>, a1: u64, a2: u64, s: &Sl<T>, a3: u64, a4: u64) -> (r: i64)
    requires a1 <= a2 <= old(d)@.len(), a3 <= a4 <= s@.len(),
    ensures
        r == min_int(a2 - a1, a4 - a3),
        final(d)@.len() == old(d)@.len(),
        forall|i: int| 0 <= i < old(d)@.len() ==> (#[trigger] final(d)@[i]) == (if a1 <= i < a1 + r { s@[a3 + (i - a1)] } else { old(d)@[i] }),
{ unimplemented!() }

// ------------------------------------------------------------------ channels

// A channel filled by one producer goroutine that runs before its consumer (see DESIGN.md).
#[verifier::reject_recursive_types(T)]
pub struct Chan<T> { pub s: Ghost<Seq<T>>, pub p: Ghost<int>, pub c: Ghost<bool> }

impl<T: Copy> Chan<T> {
    pub open spec fn view(&self) -> Seq<T> { self.s@ }
    pub open spec fn pos(&self) -> int { self.p@ }
    pub open spec fn closed(&self) -> bool { self.c@ }

    #[verifier::external_body]
    pub fn make() -> (r: Chan<T>)
        ensures r@ == Seq::<T>::empty(), r.pos() == 0, !r.closed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn send(&mut self, v: T)
        requires !old(self).closed(),
        ensures final(self)@ == old(self)@.push(v), final(self).pos() == old(self).pos(), !final(self).closed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn close(&mut self)
        requires !old(self).closed(),
        ensures final(self)@ == old(self)@, final(self).pos() == old(self).pos(), final(self).closed(),
    { unimplemented!() }

    // blocks for ever on an exhausted channel that nobody closes
    #[verifier::external_body]
    pub fn recv_ok(&mut self) -> (r: (T, bool))
        requires 0 <= old(self).pos() <= old(self)@.len(), old(self).pos() < old(self)@.len() || old(self).closed(),
        ensures
            final(self)@ == old(self)@, final(self).closed() == old(self).closed(),
            old(self).pos() < old(self)@.len() ==> r.1 && r.0 == old(self)@[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self)@.len() ==> !r.1 && final(self).pos() == old(self).pos(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: T)
        requires 0 <= old(self).pos() <= old(self)@.len(), old(self).pos() < old(self)@.len() || old(self).closed(),
        ensures
            final(self)@ == old(self)@, final(self).closed() == old(self).closed(),
            old(self).pos() < old(self)@.len() ==> r == old(self)@[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self)@.len() ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
}

// ------------------------------------------------------------------ errors and interfaces

#[derive(Clone, Copy)]
pub struct Err { pub code: u64 }

pub const ERR_NIL: Err = Err { code: 0 };

pub fn err_eq(x: Err, y: Err) -> (r: bool)
    ensures r == (x == y),
{ x.code == y.code }

#[verifier::external_body]
pub fn err_opaque() -> (r: Err)
    ensures r.code >= 1000000,
{ unimplemented!() }

// interface{}: nil, a pointer with its dynamic type, a string, or any other value
#[derive(Clone, Copy)]
pub enum Iface { Nil, Ptr(u64, Ref), S(Str), V(u64) }

pub fn iface_is_nil(x: Iface) -> (r: bool)
    ensures r == (x == Iface::Nil),
{ match x { Iface::Nil => true, _ => false } }

pub open spec fn iface_has(x: Iface, t: u64) -> bool { x is Ptr && x->Ptr_0 == t }

pub fn iface_must(x: Iface, t: u64) -> (r: Ref)
    requires iface_has(x, t),
    ensures r == x->Ptr_1,
{ match x { Iface::Ptr(_, p) => p, _ => NIL } }

pub fn iface_as(x: Iface, t: u64) -> (r: (Ref, bool))
    ensures r.1 == iface_has(x, t), r.0 == if r.1 { x->Ptr_1 } else { NIL },
{ match x { Iface::Ptr(u, p) => if u == t { (p, true) } else { (NIL, false) }, _ => (NIL, false) } }

// ------------------------------------------------------------------ function values

// strtree.Compare: a pure three-way comparison of strings; id 0 is the nil function
#[derive(Clone, Copy)]
pub struct Compare { pub id: u64 }

impl Compare {
    pub uninterp spec fn cmp(self, a: Seq<u8>, b: Seq<u8>) -> int;

    #[verifier::external_body]
    pub fn call_(&self, a: Str, b: Str) -> (r: i64)
        requires self.id != 0,
        ensures r == self.cmp(a@, b@),
    { unimplemented!() }
}

// A func(string) error argument: what it was called with and what it answered.
pub struct LabelFunc { pub l: Ghost<Seq<(Seq<u8>, Err)>>, pub nil: Ghost<bool> }

impl LabelFunc {
    pub open spec fn view(&self) -> Seq<(Seq<u8>, Err)> { self.l@ }

    #[verifier::external_body]
    pub fn call_(&mut self, a: Str) -> (r: Err)
        requires !old(self).nil@,
        ensures final(self)@ == old(self)@.push((a@, r)), final(self).nil@ == old(self).nil@,
    { unimplemented!() }
}

// strings.Compare: bytewise lexicographic order
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> int
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { 0 }
    else if a.len() == 0 { -1 }
    else if b.len() == 0 { 1 }
    else if a[0] < b[0] { -1 }
    else if a[0] > b[0] { 1 }
    else { lex(a.drop_first(), b.drop_first()) }
}

#[verifier::external_body]
pub fn strings_Compare(a: Str, b: Str) -> (r: i64)
    ensures r == lex(a@, b@),
{ unimplemented!() }

pub uninterp spec fn strings_compare() -> Compare;

#[verifier::external_body]
pub fn strings_Compare_value() -> (r: Compare)
    ensures r == strings_compare(), r.id != 0, forall|a: Seq<u8>, b: Seq<u8>| #[trigger] r.cmp(a, b) == lex(a, b),
{ unimplemented!() }

// ------------------------------------------------------------------ masking with a constant

pub fn and_u8(x: u8, c: u8) -> (r: u8)
    ensures r == x & c, r <= c, r <= x,
{ proof { assert((x & c) <= c && (x & c) <= x) by (bit_vector); } x & c }

pub fn and_u16(x: u16, c: u16) -> (r: u16)
    ensures r == x & c, r <= c, r <= x,
{ proof { assert((x & c) <= c && (x & c) <= x) by (bit_vector); } x & c }

pub fn and_u32(x: u32, c: u32) -> (r: u32)
    ensures r == x & c, r <= c, r <= x,
{ proof { assert((x & c) <= c && (x & c) <= x) by (bit_vector); } x & c }

pub fn and_u64(x: u64, c: u64) -> (r: u64)
    ensures r == x & c, r <= c, r <= x,
{ proof { assert((x & c) <= c && (x & c) <= x) by (bit_vector); } x & c }

// ------------------------------------------------------------------ package reflect

// What a reflect.Value holds; the first component is its type (1 is string).
pub enum RV {
    Invalid,
    Text(int, Seq<u8>),
    Struct(int, Seq<RV>),
    Ptr(int, Seq<RV>), // no element: a nil pointer
    Other(int, int),   // a value of another kind
}

pub spec const RT_string: int = 1;

pub open spec fn rv_type(v: RV) -> int {
    match v { RV::Invalid => 0, RV::Text(t, _) => t, RV::Struct(t, _) => t, RV::Ptr(t, _) => t, RV::Other(t, _) => t }
}
pub open spec fn rv_kind(v: RV) -> int {
    match v { RV::Invalid => 0, RV::Text(_, _) => 24, RV::Struct(_, _) => 25, RV::Ptr(_, _) => 22, RV::Other(_, k) => k }
}
pub open spec fn rv_elem(v: RV) -> RV { if v is Ptr && v->Ptr_1.len() == 1 { v->Ptr_1[0] } else { RV::Invalid } }

#[derive(Clone, Copy)]
pub struct RVal { pub v: Ghost<RV> }

impl RVal {
    pub open spec fn view(&self) -> RV { self.v@ }
}

#[derive(Clone, Copy)]
pub struct RType { pub id: u64 }

pub fn rtype_eq(x: RType, y: RType) -> (r: bool)
    ensures r == (x == y),
{ x.id == y.id }

// The contract of the function under verification says for which arguments it panics; the calls below panic where they
// have to, which is allowed there only.
pub uninterp spec fn panic_expected() -> bool;

#[verifier::external_body]
pub fn go_panic_expected()
    requires panic_expected(),
    ensures false,
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Value_Type(v: RVal) -> (r: RType)
    requires panic_expected() || !(v@ is Invalid),
    ensures !(v@ is Invalid), r.id == rv_type(v@),
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Value_Kind(v: RVal) -> (r: u64)
    ensures r == rv_kind(v@), (r == 24) == (v@ is Text), (r == 25) == (v@ is Struct), (r == 22) == (v@ is Ptr), (r == 0) == (v@ is Invalid),
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Value_IsValid(v: RVal) -> (r: bool)
    ensures r == !(v@ is Invalid),
{ unimplemented!() }

// nothing is assumed about kinds other than pointers that have an IsNil or an Elem
#[verifier::external_body]
pub fn reflect_Value_IsNil(v: RVal) -> (r: bool)
    requires panic_expected() || v@ is Ptr,
    ensures v@ is Ptr || v@ is Other, v@ is Ptr ==> r == (v@->Ptr_1.len() == 0),
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Value_Elem(v: RVal) -> (r: RVal)
    requires panic_expected() || v@ is Ptr,
    ensures v@ is Ptr || v@ is Other, v@ is Ptr ==> r@ == rv_elem(v@),
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Indirect(v: RVal) -> (r: RVal)
    ensures r@ == if v@ is Ptr { rv_elem(v@) } else { v@ },
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Value_NumField(v: RVal) -> (r: i64)
    requires panic_expected() || v@ is Struct,
    ensures v@ is Struct, r == v@->Struct_1.len(),
{ unimplemented!() }

#[verifier::external_body]
pub fn reflect_Value_Field(v: RVal, i: i64) -> (r: RVal)
    requires panic_expected() || v@ is Struct && 0 <= i < v@->Struct_1.len(),
    ensures v@ is Struct && 0 <= i < v@->Struct_1.len(), r@ == v@->Struct_1[i as int],
{ unimplemented!() }

// the text of a string; of another value, its type's name in brackets
#[verifier::external_body]
pub fn reflect_Value_String(v: RVal) -> (r: Str)
    ensures v@ is Text ==> r@ == v@->Text_1,
{ unimplemented!() }

// ------------------------------------------------------------------ package net (net.IP and net.IPMask as byte strings)

// the byte of a mask with k ones left to place
pub open spec fn mbyte(k: int) -> u8 {
    if k <= 0 { 0u8 } else if k == 1 { 0x80u8 } else if k == 2 { 0xc0u8 } else if k == 3 { 0xe0u8 } else if k == 4 { 0xf0u8 }
    else if k == 5 { 0xf8u8 } else if k == 6 { 0xfcu8 } else if k == 7 { 0xfeu8 } else { 0xffu8 }
}
// the mask of len bytes with the given number of leading ones
pub open spec fn cidr(ones: int, len: nat) -> Seq<u8> { Seq::new(len, |i: int| mbyte(ones - 8 * i)) }
pub open spec fn is_ones(m: Seq<u8>, k: int) -> bool { 0 <= k <= 8 * m.len() && m == cidr(k, m.len()) }
pub open spec fn is_cidr(m: Seq<u8>) -> bool { exists|k: int| #[trigger] is_ones(m, k) }
pub open spec fn ones(m: Seq<u8>) -> int { choose|k: int| #[trigger] is_ones(m, k) }
pub open spec fn masked(ip: Seq<u8>, m: Seq<u8>) -> Seq<u8> { Seq::new(ip.len(), |i: int| ip[i] & m[i]) }
pub open spec fn v4in6(ip: Seq<u8>) -> bool {
    ip.len() == 16 && (forall|i: int| 0 <= i < 10 ==> (#[trigger] ip[i]) == 0u8) && ip[10] == 0xffu8 && ip[11] == 0xffu8
}

#[verifier::external_body]
pub fn net_CIDRMask(ones: i64, bits: i64) -> (r: Str)
    ensures
        (bits == 32 || bits == 128) && 0 <= ones <= bits ==> r@ == cidr(ones as int, (bits / 8) as nat) && !r.nil(),
        !((bits == 32 || bits == 128) && 0 <= ones <= bits) ==> r.nil() && r@.len() == 0,
{ unimplemented!() }

#[verifier::external_body]
pub fn net_IPMask_Size(m: Str) -> (r: (i64, i64))
    ensures
        is_cidr(m@) ==> r.0 == ones(m@) && r.1 == 8 * m@.len(),
        !is_cidr(m@) ==> r.0 == 0 && r.1 == 0,
{ unimplemented!() }

// nothing is assumed about an address and a mask of different lengths
#[verifier::external_body]
pub fn net_IP_Mask(ip: Str, m: Str) -> (r: Str)
    ensures ip@.len() == m@.len() ==> r@ == masked(ip@, m@) && !r.nil(),
{ unimplemented!() }

#[verifier::external_body]
pub fn net_IP_To4(ip: Str) -> (r: Str)
    ensures
        ip@.len() == 4 ==> r@ == ip@ && !r.nil(),
        v4in6(ip@) ==> r@ == ip@.subrange(12, 16) && !r.nil(),
        ip@.len() != 4 && !v4in6(ip@) ==> r.nil() && r@.len() == 0,
{ unimplemented!() }

#[verifier::external_body]
pub fn net_IP_To16(ip: Str) -> (r: Str)
    ensures
        ip@.len() == 4 ==> v4in6(r@) && r@.subrange(12, 16) == ip@ && !r.nil(),
        ip@.len() == 16 ==> r@ == ip@ && !r.nil(),
        ip@.len() != 4 && ip@.len() != 16 ==> r.nil() && r@.len() == 0,
{ unimplemented!() }

// ------------------------------------------------------------------ the standard library

// math/bits: the number of leading zero bits
pub open spec fn is_lz32(x: u32, r: int) -> bool {
    0 <= r <= 32 && (r == 32 <==> x == 0u32)
    && (0 < r < 32 ==> (x >> ((32 - r) as u32)) == 0u32)
    && (r < 32 ==> (x >> ((31 - r) as u32)) & 1u32 == 1u32)
}
pub open spec fn is_lz64(x: u64, r: int) -> bool {
    0 <= r <= 64 && (r == 64 <==> x == 0u64)
    && (0 < r < 64 ==> (x >> ((64 - r) as u64)) == 0u64)
    && (r < 64 ==> (x >> ((63 - r) as u64)) & 1u64 == 1u64)
}

#[verifier::external_body]
pub fn bits_LeadingZeros32(x: u32) -> (r: i64)
    ensures is_lz32(x, r as int),
{ unimplemented!() }

#[verifier::external_body]
pub fn bits_LeadingZeros64(x: u64) -> (r: i64)
    ensures is_lz64(x, r as int),
{ unimplemented!() }
