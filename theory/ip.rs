// the two-level tree of IPv6 networks
pub type M64 = Map<Ref, @S64@>;

pub open spec fn is_sub(v: Iface) -> bool { iface_has(v, TID_iptree_subTree64) }
pub open spec fn sub_of(v: Iface) -> Ref { v->Ptr_1 }

// the subtree below the 64-bit prefix hi, or nil
pub open spec fn subat(m: M64, root: Ref, hi: u64) -> Ref {
    match get64(m, root, hi, 64) { Some(v) => sub_of(v), None => NIL }
}

// the value stored for exactly the IPv6 prefix k
pub open spec fn get6(m: M64, root: Ref, k: K6) -> Option<Iface> {
    if k.n < 64 { get64(m, root, k.hi, k.n) }
    else { match get64(m, root, k.hi, 64) { Some(v) => get64(m, sub_of(v), k.lo, k.n - 64), None => None } }
}

pub open spec fn lpmlen6(m: M64, root: Ref, k: K6, d: int) -> int
    decreases d + 1,
{
    if d < 0 { -1 } else if get6(m, root, K6 { n: d, ..k }) is Some { d } else { lpmlen6(m, root, k, d - 1) }
}
// the value of the longest stored prefix that contains k
pub open spec fn lpm6(m: M64, root: Ref, k: K6) -> Option<Iface> {
    let d = lpmlen6(m, root, k, k.n);
    if d < 0 { None } else { get6(m, root, K6 { n: d, ..k }) }
}

// values a user stores are not subtrees (the type is not exported)
pub open spec fn plain64(m: M64, r: Ref) -> bool {
    forall|k: u64, b: int| (#[trigger] get64(m, r, k, b)) is Some ==> !is_sub(get64(m, r, k, b)->0)
}

#[verifier::opaque]
pub open spec fn lvl6(m: M64, root: Ref) -> bool {
    forall|k: u64, b: int| (#[trigger] get64(m, root, k, b)) is Some ==> {
        let v = get64(m, root, k, b)->0;
        &&& (b == 64 <==> is_sub(v))
        &&& is_sub(v) ==> sub_of(v) != NIL && wf64(m, sub_of(v)) && plain64(m, sub_of(v)) && fp64(tree64(m, sub_of(v))).disjoint(fp64(tree64(m, root)))
    }
}
#[verifier::opaque]
pub open spec fn sep6(m: M64, root: Ref) -> bool {
    forall|k: u64, j: u64| k != j && (#[trigger] get64(m, root, k, 64)) is Some && (#[trigger] get64(m, root, j, 64)) is Some
        ==> fp64(tree64(m, subat(m, root, k))).disjoint(fp64(tree64(m, subat(m, root, j))))
}
// a valid IPv6 tree
pub open spec fn ok6(m: M64, root: Ref) -> bool { wf64(m, root) && lvl6(m, root) && sep6(m, root) }

// x is a node of the IPv6 tree
pub open spec fn fp6(m: M64, root: Ref, x: Ref) -> bool {
    fp64(tree64(m, root)).contains(x) || exists|k: u64| (#[trigger] get64(m, root, k, 64)) is Some && fp64(tree64(m, subat(m, root, k))).contains(x)
}

pub open spec fn upd6(m0: M64, r0: Ref, k: K6, v: Iface, m1: M64, r1: Ref) -> bool {
    forall|a: K6| (#[trigger] get6(m1, r1, a)) == if same6(a, k) { Some(v) } else { get6(m0, r0, a) }
}
pub open spec fn rem6(m0: M64, r0: Ref, k: K6, m1: M64, r1: Ref) -> bool {
    forall|a: K6| (#[trigger] get6(m1, r1, a)) == if within6(a, k) { None } else { get6(m0, r0, a) }
}
pub open spec fn anyin6(m: M64, r: Ref, k: K6) -> bool {
    exists|a: K6| within6(a, k) && (#[trigger] get6(m, r, a)) is Some
}

// ------------------------------------------------------------ lemmas

pub proof fn l_lvl6(m: M64, root: Ref, k: u64, b: int)
    requires lvl6(m, root), get64(m, root, k, b) is Some,
    ensures ({
        let v = get64(m, root, k, b)->0;
        &&& (b == 64 <==> is_sub(v))
        &&& is_sub(v) ==> sub_of(v) != NIL && wf64(m, sub_of(v)) && plain64(m, sub_of(v)) && fp64(tree64(m, sub_of(v))).disjoint(fp64(tree64(m, root)))
    }),
{
    reveal(lvl6);
}
pub proof fn l_sep6(m: M64, root: Ref, k: u64, j: u64)
    requires sep6(m, root), k != j, get64(m, root, k, 64) is Some, get64(m, root, j, 64) is Some,
    ensures fp64(tree64(m, subat(m, root, k))).disjoint(fp64(tree64(m, subat(m, root, j)))),
{
    reveal(sep6);
}


pub proof fn l_empty6(m: M64)
    ensures ok6(m, NIL), forall|k: u64, b: int| (#[trigger] get64(m, NIL, k, b)) is None,
{
    broadcast use radix64;
    assert(repr64(m, NIL, T64::E));
    reveal(lvl6);
    reveal(sep6);
}

pub proof fn l_empty32(m: Map<Ref, @S32@>)
    ensures wf32(m, NIL),
{
    broadcast use radix32;
    assert(repr32(m, NIL, T32::E));
}

pub proof fn l_get_range(m: M64, r: Ref, k: u64, b: int)
    requires wf64(m, r), get64(m, r, k, b) is Some,
    ensures 0 <= b <= 64,
{
    l_find_in64(tree64(m, r), k, b);
}

// a key that agrees on the prefix finds the same value
pub proof fn l_get_agree(m: M64, r: Ref, k: u64, j: u64, b: int)
    requires wf64(m, r), agree64(k, j, b),
    ensures get64(m, r, k, b) == get64(m, r, j, b),
{
    l_find_agree(tree64(m, r), k, j, b);
}
pub proof fn l_find_agree(t: T64, k: u64, j: u64, b: int)
    requires agree64(k, j, b),
    ensures find64(t, k, b) == find64(t, j, b),
    decreases t,
{
    if t is N {
        l_find_agree(*t->l, k, j, b);
        l_find_agree(*t->rt, k, j, b);
    }
}

pub proof fn l_lpm6_is(m: M64, root: Ref, k: K6, d: int, n: int)
    requires
        -1 <= n <= d,
        n >= 0 ==> get6(m, root, K6 { n, ..k }) is Some,
        forall|b: int| n < b <= d && b >= 0 ==> (#[trigger] get6(m, root, K6 { n: b, ..k })) is None,
    ensures lpmlen6(m, root, k, d) == n,
    decreases d + 1,
{
    if d >= 0 && d > n {
        assert(get6(m, root, K6 { n: d, ..k }) is None);
        l_lpm6_is(m, root, k, d - 1, n);
    }
}

// lookups below 64 bits
pub proof fn l_lpm6_hi(m: M64, root: Ref, k: K6, d: int)
    requires ok6(m, root), -1 <= d < 64,
    ensures lpmlen6(m, root, k, d) == lpmlen64(tree64(m, root), k.hi, d),
    decreases d + 1,
{
    if d >= 0 {
        assert(get6(m, root, K6 { n: d, ..k }) == find64(tree64(m, root), k.hi, d));
        if find64(tree64(m, root), k.hi, d) is None { l_lpm6_hi(m, root, k, d - 1); }
    }
}

// ... and beyond
pub proof fn l_lpm6_lo(m: M64, root: Ref, k: K6, d: int)
    requires ok6(m, root), 64 <= d <= 128,
    ensures
        get64(m, root, k.hi, 64) is None ==> lpmlen6(m, root, k, d) == lpmlen64(tree64(m, root), k.hi, 63),
        get64(m, root, k.hi, 64) is Some ==> ({
            let b = lpmlen64(tree64(m, subat(m, root, k.hi)), k.lo, d - 64);
            lpmlen6(m, root, k, d) == if b >= 0 { 64 + b } else { lpmlen64(tree64(m, root), k.hi, 63) }
        }),
    decreases d,
{
    let g = get6(m, root, K6 { n: d, ..k });
    l_lpm6_hi(m, root, k, 63);
    let s = subat(m, root, k.hi);
    if get64(m, root, k.hi, 64) is Some {
        assert(g == find64(tree64(m, s), k.lo, d - 64));
    }
    if d > 64 {
        l_lpm6_lo(m, root, k, d - 1);
    } else {
        assert(lpmlen64(tree64(m, s), k.lo, -1) == -1);
    }
}

// the whole lookup, as the two-level tree does it
pub proof fn l_lpm6(m: M64, root: Ref, k: K6)
    requires ok6(m, root), 0 <= k.n <= 128,
    ensures
        k.n < 64 ==> lpm6(m, root, k) == lpm64(m, root, k.hi, k.n),
        k.n >= 64 && get64(m, root, k.hi, 64) is None ==> lpm6(m, root, k) == lpm64(m, root, k.hi, 64) && lpm6(m, root, k) == lpm64(m, root, k.hi, 63),
        k.n >= 64 && get64(m, root, k.hi, 64) is Some ==> ({
            let v = get64(m, root, k.hi, 64)->0;
            &&& is_sub(v) && lpm64(m, root, k.hi, 64) == Some(v) && wf64(m, sub_of(v)) && sub_of(v) != NIL
            &&& lpm64(m, sub_of(v), k.lo, k.n - 64) is Some ==> lpm6(m, root, k) == lpm64(m, sub_of(v), k.lo, k.n - 64)
            &&& lpm64(m, sub_of(v), k.lo, k.n - 64) is None ==> lpm6(m, root, k) == lpm64(m, root, k.hi, 63)
        }),
        k.n < 64 && lpm64(m, root, k.hi, k.n) is Some ==> !is_sub(lpm64(m, root, k.hi, k.n)->0),
        k.n >= 64 && get64(m, root, k.hi, 64) is None && lpm64(m, root, k.hi, 64) is Some ==> !is_sub(lpm64(m, root, k.hi, 64)->0),
{
    let t = tree64(m, root);
    if k.n < 64 {
        l_lpm6_hi(m, root, k, k.n);
        l_lpm_max64(t, k.hi, k.n);
        let d = lpmlen64(t, k.hi, k.n);
        if d >= 0 { l_lvl6(m, root, k.hi, d); }
    } else {
        l_lpm6_lo(m, root, k, k.n);
        l_lpm_max64(t, k.hi, 63);
        let d = lpmlen64(t, k.hi, 63);
        if d >= 0 { l_lvl6(m, root, k.hi, d); }
        if get64(m, root, k.hi, 64) is Some {
            l_lvl6(m, root, k.hi, 64);
            let s = subat(m, root, k.hi);
            l_lpm_max64(tree64(m, s), k.lo, k.n - 64);
            assert(lpmlen64(t, k.hi, 64) == 64);
        } else {
            assert(lpmlen64(t, k.hi, 64) == d);
        }
    }
}

pub open spec fn fresh_or(m0: M64, f0: Set<Ref>, f1: Set<Ref>) -> bool {
    forall|x: Ref| #[trigger] f1.contains(x) ==> !m0.contains_key(x) || f0.contains(x)
}

// a subtree seen through a memory in which its nodes are unchanged
pub proof fn l_same_sub(m0: M64, m1: M64, r: Ref)
    requires wf64(m0, r), forall|x: Ref| #[trigger] fp64(tree64(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures wf64(m1, r), tree64(m1, r) == tree64(m0, r), plain64(m0, r) ==> plain64(m1, r),
{
    l_frame64(m0, m1, r, tree64(m0, r));
    l_unique64(m1, r, tree64(m0, r));
    if plain64(m0, r) {
        assert forall|k: u64, b: int| (#[trigger] get64(m1, r, k, b)) is Some implies !is_sub(get64(m1, r, k, b)->0) by {
            assert(get64(m0, r, k, b) == get64(m1, r, k, b));
        }
    }
}

pub proof fn l_disjoint(m0: M64, fa: Set<Ref>, fb: Set<Ref>, fc: Set<Ref>)
    requires fa.subset_of(m0.dom()), fresh_or(m0, fb, fc), fa.disjoint(fb),
    ensures fa.disjoint(fc),
{
    assert forall|x: Ref| !(#[trigger] fa.contains(x) && fc.contains(x)) by {}
}

// the first level changes, what stays below 64-bit prefixes stays as it was
pub proof fn l_top6(m0: M64, r0: Ref, m1: M64, r1: Ref)
    requires
        ok6(m0, r0), wf64(m1, r1),
        forall|k: u64, b: int| (#[trigger] get64(m1, r1, k, b)) is Some ==> if b == 64 { get64(m0, r0, k, b) == get64(m1, r1, k, b) } else { !is_sub(get64(m1, r1, k, b)->0) },
        fresh_or(m0, fp64(tree64(m0, r0)), fp64(tree64(m1, r1))),
        forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, r0)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(m1, r1),
        forall|a: K6| (#[trigger] get6(m1, r1, a)) == if a.n < 64 { get64(m1, r1, a.hi, a.n) } else if get64(m1, r1, a.hi, 64) is Some { get6(m0, r0, a) } else { None },
        forall|x: Ref| #[trigger] fp6(m1, r1, x) ==> !m0.contains_key(x) || fp6(m0, r0, x),
{
    broadcast use radix64;
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) is Some && b == 64 implies get64(m0, r0, kk, 64) == get64(m1, r1, kk, b) && ({
            let s = sub_of(get64(m1, r1, kk, b)->0);
            &&& s != NIL && wf64(m1, s) && tree64(m1, s) == tree64(m0, s) && plain64(m1, s) && is_sub(get64(m1, r1, kk, b)->0)
            &&& fp64(tree64(m0, s)).disjoint(fp64(tree64(m0, r0))) && fp64(tree64(m0, s)).subset_of(m0.dom())
        }) by {
        l_lvl6(m0, r0, kk, b);
        let s = sub_of(get64(m0, r0, kk, b)->0);
        l_fp_dom64(m0, s, tree64(m0, s));
        assert forall|x: Ref| #[trigger] fp64(tree64(m0, s)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by {}
        l_same_sub(m0, m1, s);
    }
    assert(lvl6(m1, r1)) by {
        reveal(lvl6);
        assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) is Some implies {
            let w = get64(m1, r1, kk, b)->0;
            &&& (b == 64 <==> is_sub(w))
            &&& is_sub(w) ==> sub_of(w) != NIL && wf64(m1, sub_of(w)) && plain64(m1, sub_of(w)) && fp64(tree64(m1, sub_of(w))).disjoint(fp64(tree64(m1, r1)))
        } by {
            if b == 64 {
                let s = sub_of(get64(m1, r1, kk, b)->0);
                l_disjoint(m0, fp64(tree64(m0, s)), fp64(tree64(m0, r0)), fp64(tree64(m1, r1)));
            }
        }
    }
    assert(sep6(m1, r1)) by {
        reveal(sep6);
        assert forall|i: u64, j: u64| i != j && (#[trigger] get64(m1, r1, i, 64)) is Some && (#[trigger] get64(m1, r1, j, 64)) is Some
            implies fp64(tree64(m1, subat(m1, r1, i))).disjoint(fp64(tree64(m1, subat(m1, r1, j)))) by {
            l_sep6(m0, r0, i, j);
        }
    }
    assert forall|a: K6| (#[trigger] get6(m1, r1, a)) == if a.n < 64 { get64(m1, r1, a.hi, a.n) } else if get64(m1, r1, a.hi, 64) is Some { get6(m0, r0, a) } else { None } by {
        if a.n >= 64 && get64(m1, r1, a.hi, 64) is Some { }
    }
    assert forall|x: Ref| #[trigger] fp6(m1, r1, x) implies !m0.contains_key(x) || fp6(m0, r0, x) by {
        if !fp64(tree64(m1, r1)).contains(x) {
            let kk = choose|kk: u64| (#[trigger] get64(m1, r1, kk, 64)) is Some && fp64(tree64(m1, subat(m1, r1, kk))).contains(x);
            assert(get64(m0, r0, kk, 64) == get64(m1, r1, kk, 64));
        }
    }
}

// the tree below the 64-bit prefix hi is replaced by s1 (nil: removed)
pub proof fn l_sub6(m0: M64, r0: Ref, hi: u64, m1: M64, r1: Ref, s1: Ref)
    requires
        ok6(m0, r0), wf64(m1, r1), wf64(m1, s1), plain64(m1, s1),
        forall|k: u64, b: int| (#[trigger] get64(m1, r1, k, b)) == if b == 64 && k == hi { if s1 == NIL { None } else { Some(Iface::Ptr(TID_iptree_subTree64, s1)) } } else { get64(m0, r0, k, b) },
        fresh_or(m0, fp64(tree64(m0, r0)), fp64(tree64(m1, r1))),
        fresh_or(m0, fp64(tree64(m0, subat(m0, r0, hi))), fp64(tree64(m1, s1))),
        fp64(tree64(m1, s1)).disjoint(fp64(tree64(m1, r1))),
        forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, r0)).contains(x) && !fp64(tree64(m0, subat(m0, r0, hi))).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(m1, r1),
        forall|a: K6| (#[trigger] get6(m1, r1, a)) == if a.n >= 64 && a.hi == hi { get64(m1, s1, a.lo, a.n - 64) } else { get6(m0, r0, a) },
        forall|x: Ref| #[trigger] fp6(m1, r1, x) ==> !m0.contains_key(x) || fp6(m0, r0, x),
{
    broadcast use radix64;
    l_empty6(m0);
    l_empty6(m1);
    let s0 = subat(m0, r0, hi);
    let sv = Iface::Ptr(TID_iptree_subTree64, s1);
    if get64(m0, r0, hi, 64) is Some { l_lvl6(m0, r0, hi, 64); }
    assert forall|kk: u64| (#[trigger] get64(m1, r1, kk, 64)) is Some && kk != hi implies get64(m0, r0, kk, 64) == get64(m1, r1, kk, 64) && ({
            let s = subat(m1, r1, kk);
            &&& s != NIL && wf64(m1, s) && tree64(m1, s) == tree64(m0, s) && plain64(m1, s) && is_sub(get64(m1, r1, kk, 64)->0)
            &&& fp64(tree64(m0, s)).disjoint(fp64(tree64(m0, r0))) && fp64(tree64(m0, s)).subset_of(m0.dom())
            &&& fp64(tree64(m0, s)).disjoint(fp64(tree64(m0, s0)))
        }) by {
        l_lvl6(m0, r0, kk, 64);
        let s = subat(m0, r0, kk);
        l_fp_dom64(m0, s, tree64(m0, s));
        if get64(m0, r0, hi, 64) is Some { l_sep6(m0, r0, kk, hi); }
        assert forall|x: Ref| #[trigger] fp64(tree64(m0, s)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by {}
        l_same_sub(m0, m1, s);
    }
    assert(lvl6(m1, r1)) by {
        reveal(lvl6);
        assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) is Some implies {
            let w = get64(m1, r1, kk, b)->0;
            &&& (b == 64 <==> is_sub(w))
            &&& is_sub(w) ==> sub_of(w) != NIL && wf64(m1, sub_of(w)) && plain64(m1, sub_of(w)) && fp64(tree64(m1, sub_of(w))).disjoint(fp64(tree64(m1, r1)))
        } by {
            if b == 64 && kk == hi { } else if b == 64 {
                let s = subat(m1, r1, kk);
                l_disjoint(m0, fp64(tree64(m0, s)), fp64(tree64(m0, r0)), fp64(tree64(m1, r1)));
            } else {
                l_lvl6(m0, r0, kk, b);
            }
        }
    }
    assert forall|kk: u64| (#[trigger] get64(m1, r1, kk, 64)) is Some && kk != hi implies fp64(tree64(m1, subat(m1, r1, kk))).disjoint(fp64(tree64(m1, s1))) by {
        let s = subat(m1, r1, kk);
        l_disjoint(m0, fp64(tree64(m0, s)), fp64(tree64(m0, s0)), fp64(tree64(m1, s1)));
    }
    assert(sep6(m1, r1)) by {
        reveal(sep6);
        assert forall|i: u64, j: u64| i != j && (#[trigger] get64(m1, r1, i, 64)) is Some && (#[trigger] get64(m1, r1, j, 64)) is Some
            implies fp64(tree64(m1, subat(m1, r1, i))).disjoint(fp64(tree64(m1, subat(m1, r1, j)))) by {
            if i == hi { assert(subat(m1, r1, i) == s1); }
            else if j == hi { assert(subat(m1, r1, j) == s1); }
            else { l_sep6(m0, r0, i, j); }
        }
    }
    assert forall|a: K6| (#[trigger] get6(m1, r1, a)) == if a.n >= 64 && a.hi == hi { get64(m1, s1, a.lo, a.n - 64) } else { get6(m0, r0, a) } by {
        if a.n >= 64 {
            assert(get64(m1, r1, a.hi, 64) == if a.hi == hi { if s1 == NIL { None } else { Some(sv) } } else { get64(m0, r0, a.hi, 64) });
        } else {
            assert(get64(m1, r1, a.hi, a.n) == get64(m0, r0, a.hi, a.n));
        }
    }
    assert forall|x: Ref| #[trigger] fp6(m1, r1, x) implies !m0.contains_key(x) || fp6(m0, r0, x) by {
        if !fp64(tree64(m1, r1)).contains(x) {
            let kk = choose|kk: u64| (#[trigger] get64(m1, r1, kk, 64)) is Some && fp64(tree64(m1, subat(m1, r1, kk))).contains(x);
            if kk == hi {
                assert(subat(m1, r1, kk) == s1);
                if m0.contains_key(x) {
                    assert(fp64(tree64(m0, s0)).contains(x));
                    if get64(m0, r0, hi, 64) is None { assert(tree64(m0, NIL) is E); }
                }
            } else {
                assert(get64(m0, r0, kk, 64) == get64(m1, r1, kk, 64));
            }
        }
    }
}

// what may have happened to the nodes that existed: those outside the tree are unchanged
pub open spec fn outside6(m0: M64, r0: Ref, m1: M64) -> bool {
    forall|x: Ref| #[trigger] m0.contains_key(x) && !fp6(m0, r0, x) ==> m1.contains_key(x) && m1[x] == m0[x]
}
pub open spec fn fresh6(m0: M64, r0: Ref, m1: M64, r1: Ref) -> bool {
    forall|x: Ref| #[trigger] fp6(m1, r1, x) ==> !m0.contains_key(x) || fp6(m0, r0, x)
}

pub proof fn l_ins6_hi(m0: M64, r0: Ref, k: K6, v: Iface, m1: M64, r1: Ref)
    requires
        ok6(m0, r0), 0 <= k.n < 64, !is_sub(v),
        wf64(m1, r1), upd64(tree64(m1, r1), tree64(m0, r0), k.hi, k.n, v),
        fresh_or(m0, fp64(tree64(m0, r0)), fp64(tree64(m1, r1))),
        forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, r0)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(m1, r1), upd6(m0, r0, k, v, m1, r1), fresh6(m0, r0, m1, r1),
{
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) == if same64(kk, b, k.hi, k.n) { Some(v) } else { get64(m0, r0, kk, b) } by {
        assert(find64(tree64(m1, r1), kk, b) == if same64(kk, b, k.hi, k.n) { Some(v) } else { find64(tree64(m0, r0), kk, b) });
    }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) is Some implies if b == 64 { get64(m0, r0, kk, b) == get64(m1, r1, kk, b) } else { !is_sub(get64(m1, r1, kk, b)->0) } by {
        if b != 64 && !same64(kk, b, k.hi, k.n) { l_lvl6(m0, r0, kk, b); }
    }
    l_top6(m0, r0, m1, r1);
    assert forall|a: K6| (#[trigger] get6(m1, r1, a)) == if same6(a, k) { Some(v) } else { get6(m0, r0, a) } by {
        if a.n < 64 { assert(get64(m1, r1, a.hi, a.n) == if same64(a.hi, a.n, k.hi, k.n) { Some(v) } else { get64(m0, r0, a.hi, a.n) }); }
        else { assert(get64(m1, r1, a.hi, 64) == get64(m0, r0, a.hi, 64)); }
    }
}

pub proof fn l_ins6_lo(m0: M64, r0: Ref, k: K6, v: Iface, m1: M64, r1: Ref, s1: Ref)
    requires
        ok6(m0, r0), 64 <= k.n <= 128, !is_sub(v), s1 != NIL,
        wf64(m1, r1), upd64(tree64(m1, r1), tree64(m0, r0), k.hi, 64, Iface::Ptr(TID_iptree_subTree64, s1)) || r1 == r0 && get64(m1, r1, k.hi, 64) == Some(Iface::Ptr(TID_iptree_subTree64, s1)) && tree64(m1, r1) == tree64(m0, r0),
        wf64(m1, s1), upd64(tree64(m1, s1), tree64(m0, subat(m0, r0, k.hi)), k.lo, k.n - 64, v),
        fresh_or(m0, fp64(tree64(m0, r0)), fp64(tree64(m1, r1))),
        fresh_or(m0, fp64(tree64(m0, subat(m0, r0, k.hi))), fp64(tree64(m1, s1))),
        fp64(tree64(m1, s1)).disjoint(fp64(tree64(m1, r1))),
        forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, r0)).contains(x) && !fp64(tree64(m0, subat(m0, r0, k.hi))).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(m1, r1), upd6(m0, r0, k, v, m1, r1), fresh6(m0, r0, m1, r1),
{
    let sv = Iface::Ptr(TID_iptree_subTree64, s1);
    let s0 = subat(m0, r0, k.hi);
    l_agree_refl64(k.hi, 64);
    l_empty6(m0);
    if get64(m0, r0, k.hi, 64) is Some { l_lvl6(m0, r0, k.hi, 64); }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) == if b == 64 && kk == k.hi { Some(sv) } else { get64(m0, r0, kk, b) } by {
        if same64(kk, b, k.hi, 64) { l_agree_full(kk, k.hi); }
        if tree64(m1, r1) != tree64(m0, r0) {
            assert(find64(tree64(m1, r1), kk, b) == if same64(kk, b, k.hi, 64) { Some(sv) } else { find64(tree64(m0, r0), kk, b) });
        }
    }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) == if same64(kk, b, k.lo, k.n - 64) { Some(v) } else { get64(m0, s0, kk, b) } by {
        assert(find64(tree64(m1, s1), kk, b) == if same64(kk, b, k.lo, k.n - 64) { Some(v) } else { find64(tree64(m0, s0), kk, b) });
    }
    assert(plain64(m1, s1)) by {
        assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) is Some implies !is_sub(get64(m1, s1, kk, b)->0) by {
            assert(get64(m1, s1, kk, b) == if same64(kk, b, k.lo, k.n - 64) { Some(v) } else { get64(m0, s0, kk, b) });
        }
    }
    l_sub6(m0, r0, k.hi, m1, r1, s1);
    assert forall|a: K6| (#[trigger] get6(m1, r1, a)) == if same6(a, k) { Some(v) } else { get6(m0, r0, a) } by {
        if a.n >= 64 && a.hi == k.hi {
            assert(get64(m1, s1, a.lo, a.n - 64) == if same64(a.lo, a.n - 64, k.lo, k.n - 64) { Some(v) } else { get64(m0, s0, a.lo, a.n - 64) });
        } else if a.n >= 64 && agree64(a.hi, k.hi, 64) { l_agree_full(a.hi, k.hi); }
    }
}

pub proof fn l_del6_hi(m0: M64, r0: Ref, k: K6, m1: M64, r1: Ref)
    requires
        ok6(m0, r0), 0 <= k.n < 64,
        wf64(m1, r1), rem64(tree64(m1, r1), tree64(m0, r0), k.hi, k.n),
        fresh_or(m0, fp64(tree64(m0, r0)), fp64(tree64(m1, r1))),
        ext64(m0, m1),
    ensures ok6(m1, r1), rem6(m0, r0, k, m1, r1), anyin6(m0, r0, k) == anyin64(tree64(m0, r0), k.hi, k.n),
{
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) == if within64(kk, b, k.hi, k.n) { None } else { get64(m0, r0, kk, b) } by {
        assert(find64(tree64(m1, r1), kk, b) == if within64(kk, b, k.hi, k.n) { None } else { find64(tree64(m0, r0), kk, b) });
    }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) is Some implies if b == 64 { get64(m0, r0, kk, b) == get64(m1, r1, kk, b) } else { !is_sub(get64(m1, r1, kk, b)->0) } by {
        if b != 64 { l_lvl6(m0, r0, kk, b); }
    }
    l_top6(m0, r0, m1, r1);
    assert forall|a: K6| (#[trigger] get6(m1, r1, a)) == if within6(a, k) { None } else { get6(m0, r0, a) } by {
        assert(get64(m1, r1, a.hi, ms(a.n)) == if within64(a.hi, ms(a.n), k.hi, k.n) { None } else { get64(m0, r0, a.hi, ms(a.n)) });
    }
    if anyin6(m0, r0, k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] get6(m0, r0, a)) is Some;
        assert(find64(tree64(m0, r0), a.hi, ms(a.n)) is Some);
        assert(within64(a.hi, ms(a.n), k.hi, k.n));
    }
    if anyin64(tree64(m0, r0), k.hi, k.n) {
        let (kk, b) = choose|kk: u64, b: int| within64(kk, b, k.hi, k.n) && (#[trigger] find64(tree64(m0, r0), kk, b)) is Some;
        assert(get64(m0, r0, kk, b) is Some);
        l_get_range(m0, r0, kk, b);
        if b < 64 {
            assert(get6(m0, r0, K6 { hi: kk, lo: 0, n: b }) is Some);
        } else {
            l_lvl6(m0, r0, kk, b);
            let s = subat(m0, r0, kk);
            l_open64(m0, s);
            let w = l_some64(tree64(m0, s));
            let a = K6 { hi: kk, lo: w.0, n: 64 + w.1 };
            assert(get6(m0, r0, a) == find64(tree64(m0, s), w.0, w.1));
            assert(within6(a, k));
        }
    }
}

// s1: what is left below the 64-bit prefix
pub proof fn l_del6_lo(m0: M64, r0: Ref, k: K6, m1: M64, r1: Ref, s1: Ref)
    requires
        ok6(m0, r0), 64 <= k.n <= 128, get64(m0, r0, k.hi, 64) is Some,
        wf64(m1, r1),
        s1 != NIL ==> upd64(tree64(m1, r1), tree64(m0, r0), k.hi, 64, Iface::Ptr(TID_iptree_subTree64, s1)),
        s1 == NIL ==> rem64(tree64(m1, r1), tree64(m0, r0), k.hi, 64),
        wf64(m1, s1), rem64(tree64(m1, s1), tree64(m0, subat(m0, r0, k.hi)), k.lo, k.n - 64),
        fresh_or(m0, fp64(tree64(m0, r0)), fp64(tree64(m1, r1))),
        fresh_or(m0, fp64(tree64(m0, subat(m0, r0, k.hi))), fp64(tree64(m1, s1))),
        fp64(tree64(m1, s1)).disjoint(fp64(tree64(m1, r1))),
        ext64(m0, m1),
    ensures ok6(m1, r1), rem6(m0, r0, k, m1, r1),
{
    let s0 = subat(m0, r0, k.hi);
    l_agree_refl64(k.hi, 64);
    l_lvl6(m0, r0, k.hi, 64);
    let sv = Iface::Ptr(TID_iptree_subTree64, s1);
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r1, kk, b)) == if b == 64 && kk == k.hi { if s1 == NIL { None } else { Some(sv) } } else { get64(m0, r0, kk, b) } by {
        if b == 64 && agree64(kk, k.hi, 64) { l_agree_full(kk, k.hi); }
        if s1 != NIL {
            assert(find64(tree64(m1, r1), kk, b) == if same64(kk, b, k.hi, 64) { Some(sv) } else { find64(tree64(m0, r0), kk, b) });
        } else {
            assert(find64(tree64(m1, r1), kk, b) == if within64(kk, b, k.hi, 64) { None } else { find64(tree64(m0, r0), kk, b) });
            if b > 64 && get64(m0, r0, kk, b) is Some { l_get_range(m0, r0, kk, b); }
        }
    }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) == if within64(kk, b, k.lo, k.n - 64) { None } else { get64(m0, s0, kk, b) } by {
        assert(find64(tree64(m1, s1), kk, b) == if within64(kk, b, k.lo, k.n - 64) { None } else { find64(tree64(m0, s0), kk, b) });
    }
    assert(plain64(m1, s1)) by {
        assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) is Some implies !is_sub(get64(m1, s1, kk, b)->0) by {
            assert(get64(m0, s0, kk, b) is Some);
        }
    }
    l_sub6(m0, r0, k.hi, m1, r1, s1);
    assert forall|a: K6| (#[trigger] get6(m1, r1, a)) == if within6(a, k) { None } else { get6(m0, r0, a) } by {
        if a.n >= 64 && a.hi == k.hi {
            assert(get64(m1, s1, a.lo, a.n - 64) == if within64(a.lo, a.n - 64, k.lo, k.n - 64) { None } else { get64(m0, s0, a.lo, a.n - 64) });
        } else if a.n >= 64 && agree64(a.hi, k.hi, 64) { l_agree_full(a.hi, k.hi); }
    }
}

// the deletion flag
pub proof fn l_anyin6_lo(m0: M64, r0: Ref, k: K6)
    requires ok6(m0, r0), 64 <= k.n <= 128,
    ensures
        get64(m0, r0, k.hi, 64) is None ==> !anyin6(m0, r0, k),
        get64(m0, r0, k.hi, 64) is Some ==> anyin6(m0, r0, k) == anyin64(tree64(m0, subat(m0, r0, k.hi)), k.lo, k.n - 64),
{
    if anyin6(m0, r0, k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] get6(m0, r0, a)) is Some;
        l_agree_full(a.hi, k.hi);
        let s0 = subat(m0, r0, k.hi);
        assert(find64(tree64(m0, s0), a.lo, a.n - 64) is Some);
        assert(within64(a.lo, a.n - 64, k.lo, k.n - 64));
    }
    if get64(m0, r0, k.hi, 64) is Some {
        let s0 = subat(m0, r0, k.hi);
        if anyin64(tree64(m0, s0), k.lo, k.n - 64) {
            let (kk, b) = choose|kk: u64, b: int| within64(kk, b, k.lo, k.n - 64) && (#[trigger] find64(tree64(m0, s0), kk, b)) is Some;
            let a = K6 { hi: k.hi, lo: kk, n: 64 + b };
            l_agree_refl64(k.hi, 64);
            assert(get6(m0, r0, a) == find64(tree64(m0, s0), kk, b));
            assert(within6(a, k));
        }
    }
}

// nothing changes
pub proof fn l_keep6(m0: M64, r0: Ref, m1: M64)
    requires ok6(m0, r0), forall|x: Ref| #[trigger] fp6(m0, r0, x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(m1, r0), forall|a: K6| (#[trigger] get6(m1, r0, a)) == get6(m0, r0, a), forall|x: Ref| #[trigger] fp6(m1, r0, x) == fp6(m0, r0, x),
{
    broadcast use radix64;
    assert forall|x: Ref| #[trigger] fp64(tree64(m0, r0)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp6(m0, r0, x)); }
    l_same_sub(m0, m1, r0);
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, r0, kk, b)) == get64(m0, r0, kk, b) by {}
    assert forall|kk: u64| (#[trigger] get64(m1, r0, kk, 64)) is Some implies get64(m0, r0, kk, 64) == get64(m1, r0, kk, 64) && ({
            let s = subat(m1, r0, kk);
            &&& s != NIL && wf64(m1, s) && tree64(m1, s) == tree64(m0, s) && plain64(m1, s) && is_sub(get64(m1, r0, kk, 64)->0)
        }) by {
        l_lvl6(m0, r0, kk, 64);
        let s = subat(m0, r0, kk);
        assert forall|x: Ref| #[trigger] fp64(tree64(m0, s)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp6(m0, r0, x)); }
        l_same_sub(m0, m1, s);
    }
    assert(lvl6(m1, r0)) by {
        reveal(lvl6);
        assert forall|kk: u64, b: int| (#[trigger] get64(m1, r0, kk, b)) is Some implies {
            let w = get64(m1, r0, kk, b)->0;
            &&& (b == 64 <==> is_sub(w))
            &&& is_sub(w) ==> sub_of(w) != NIL && wf64(m1, sub_of(w)) && plain64(m1, sub_of(w)) && fp64(tree64(m1, sub_of(w))).disjoint(fp64(tree64(m1, r0)))
        } by {
            l_lvl6(m0, r0, kk, b);
            if b == 64 { assert(get64(m1, r0, kk, 64) is Some); }
        }
    }
    assert(sep6(m1, r0)) by {
        reveal(sep6);
        assert forall|i: u64, j: u64| i != j && (#[trigger] get64(m1, r0, i, 64)) is Some && (#[trigger] get64(m1, r0, j, 64)) is Some
            implies fp64(tree64(m1, subat(m1, r0, i))).disjoint(fp64(tree64(m1, subat(m1, r0, j)))) by { l_sep6(m0, r0, i, j); }
    }
    assert forall|a: K6| (#[trigger] get6(m1, r0, a)) == get6(m0, r0, a) by {
        if a.n >= 64 { assert(get64(m1, r0, a.hi, 64) == get64(m0, r0, a.hi, 64)); } else { assert(get64(m1, r0, a.hi, a.n) == get64(m0, r0, a.hi, a.n)); }
    }
    assert forall|x: Ref| #[trigger] fp6(m1, r0, x) == fp6(m0, r0, x) by {
        if fp6(m1, r0, x) && !fp64(tree64(m0, r0)).contains(x) {
            let kk = choose|kk: u64| (#[trigger] get64(m1, r0, kk, 64)) is Some && fp64(tree64(m1, subat(m1, r0, kk))).contains(x);
            assert(get64(m0, r0, kk, 64) is Some);
        }
        if fp6(m0, r0, x) && !fp64(tree64(m0, r0)).contains(x) {
            let kk = choose|kk: u64| (#[trigger] get64(m0, r0, kk, 64)) is Some && fp64(tree64(m0, subat(m0, r0, kk))).contains(x);
            assert(get64(m1, r0, kk, 64) is Some);
        }
    }
}

pub proof fn l_fp6_dom(m: M64, r: Ref, x: Ref)
    requires ok6(m, r), fp6(m, r, x),
    ensures m.contains_key(x),
{
    l_fp_dom64(m, r, tree64(m, r));
    if !fp64(tree64(m, r)).contains(x) {
        let kk = choose|kk: u64| (#[trigger] get64(m, r, kk, 64)) is Some && fp64(tree64(m, subat(m, r, kk))).contains(x);
        l_lvl6(m, r, kk, 64);
        let s = subat(m, r, kk);
        l_fp_dom64(m, s, tree64(m, s));
    }
}

// ------------------------------------------------------------ whole trees

pub open spec fn root32_of(tm: Map<Ref, @TS@>, t: Ref) -> Ref { if t == NIL { NIL } else { tm[t].root32 } }
pub open spec fn root64_of(tm: Map<Ref, @TS@>, t: Ref) -> Ref { if t == NIL { NIL } else { tm[t].root64 } }

// a valid IP tree (nil is the empty one)
pub open spec fn okip(tm: Map<Ref, @TS@>, m32: Map<Ref, @S32@>, m64: M64, t: Ref) -> bool {
    &&& t != NIL ==> tm.contains_key(t)
    &&& wf32(m32, root32_of(tm, t))
    &&& ok6(m64, root64_of(tm, t))
}

pub open spec fn extip(m0: Map<Ref, @TS@>, m1: Map<Ref, @TS@>) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}

pub open spec fn map32(m: Map<Ref, @S32@>, tm: Map<Ref, @TS@>, t: Ref, k: u32, b: int) -> Option<Iface> { get32(m, root32_of(tm, t), k, b) }
pub open spec fn map6(m: M64, tm: Map<Ref, @TS@>, t: Ref, k: K6) -> Option<Iface> { get6(m, root64_of(tm, t), k) }

// the two families of tree t1 against those of t0
pub open spec fn upd4ip(m0: Map<Ref, @S32@>, tm0: Map<Ref, @TS@>, t0: Ref, k: u32, n: int, v: Iface, m1: Map<Ref, @S32@>, tm1: Map<Ref, @TS@>, t1: Ref) -> bool {
    forall|a: u32, b: int| (#[trigger] map32(m1, tm1, t1, a, b)) == if same32(a, b, k, n) { Some(v) } else { map32(m0, tm0, t0, a, b) }
}
pub open spec fn rem4ip(m0: Map<Ref, @S32@>, tm0: Map<Ref, @TS@>, t0: Ref, k: u32, n: int, m1: Map<Ref, @S32@>, tm1: Map<Ref, @TS@>, t1: Ref) -> bool {
    forall|a: u32, b: int| (#[trigger] map32(m1, tm1, t1, a, b)) == if within32(a, b, k, n) { None } else { map32(m0, tm0, t0, a, b) }
}
pub open spec fn any4ip(m0: Map<Ref, @S32@>, tm0: Map<Ref, @TS@>, t0: Ref, k: u32, n: int) -> bool {
    exists|a: u32, b: int| within32(a, b, k, n) && (#[trigger] map32(m0, tm0, t0, a, b)) is Some
}
pub open spec fn same4ip(m0: Map<Ref, @S32@>, tm0: Map<Ref, @TS@>, t0: Ref, m1: Map<Ref, @S32@>, tm1: Map<Ref, @TS@>, t1: Ref) -> bool {
    forall|a: u32, b: int| (#[trigger] map32(m1, tm1, t1, a, b)) == map32(m0, tm0, t0, a, b)
}
pub open spec fn upd6ip(m0: M64, tm0: Map<Ref, @TS@>, t0: Ref, k: K6, v: Iface, m1: M64, tm1: Map<Ref, @TS@>, t1: Ref) -> bool {
    forall|a: K6| (#[trigger] map6(m1, tm1, t1, a)) == if same6(a, k) { Some(v) } else { map6(m0, tm0, t0, a) }
}
pub open spec fn rem6ip(m0: M64, tm0: Map<Ref, @TS@>, t0: Ref, k: K6, m1: M64, tm1: Map<Ref, @TS@>, t1: Ref) -> bool {
    forall|a: K6| (#[trigger] map6(m1, tm1, t1, a)) == if within6(a, k) { None } else { map6(m0, tm0, t0, a) }
}
pub open spec fn any6ip(m0: M64, tm0: Map<Ref, @TS@>, t0: Ref, k: K6) -> bool {
    exists|a: K6| within6(a, k) && (#[trigger] map6(m0, tm0, t0, a)) is Some
}
pub open spec fn same6ip(m0: M64, tm0: Map<Ref, @TS@>, t0: Ref, m1: M64, tm1: Map<Ref, @TS@>, t1: Ref) -> bool {
    forall|a: K6| (#[trigger] map6(m1, tm1, t1, a)) == map6(m0, tm0, t0, a)
}

// the IPv6 prefix of a network

// insertion of the network (ip, mask): tree t1 against tree t0
pub open spec fn ins_ip(m32: Map<Ref, @S32@>, m64: M64, tm: Map<Ref, @TS@>, t0: Ref, ip: Seq<u8>, mask: Seq<u8>, v: Iface,
        n32: Map<Ref, @S32@>, n64: M64, un: Map<Ref, @TS@>, t1: Ref) -> bool {
    let b4 = v4bits(ip, mask);
    let b6 = v6bits(ip, mask);
    &&& okip(un, n32, n64, t1)
    &&& if b4 >= 0 { upd4ip(m32, tm, t0, be32(ip), b4, v, n32, un, t1) } else { same4ip(m32, tm, t0, n32, un, t1) }
    &&& if b6 >= 0 { upd6ip(m64, tm, t0, k6(ip, b6), v, n64, un, t1) } else { same6ip(m64, tm, t0, n64, un, t1) }
}

// deletion of everything within the network (ip, mask)
pub open spec fn del_ip(m32: Map<Ref, @S32@>, m64: M64, tm: Map<Ref, @TS@>, t0: Ref, ip: Seq<u8>, mask: Seq<u8>,
        n32: Map<Ref, @S32@>, n64: M64, un: Map<Ref, @TS@>, t1: Ref, ok: bool) -> bool {
    let b4 = v4bits(ip, mask);
    let b6 = v6bits(ip, mask);
    &&& okip(un, n32, n64, t1)
    &&& if b4 >= 0 { rem4ip(m32, tm, t0, be32(ip), b4, n32, un, t1) } else { same4ip(m32, tm, t0, n32, un, t1) }
    &&& if b6 >= 0 { rem6ip(m64, tm, t0, k6(ip, b6), n64, un, t1) } else { same6ip(m64, tm, t0, n64, un, t1) }
    &&& ok == (b4 >= 0 && any4ip(m32, tm, t0, be32(ip), b4) || b6 >= 0 && any6ip(m64, tm, t0, k6(ip, b6)))
}

// the value of the smallest stored network that contains (ip, mask)
pub open spec fn look_ip(m32: Map<Ref, @S32@>, m64: M64, tm: Map<Ref, @TS@>, t: Ref, ip: Seq<u8>, mask: Seq<u8>) -> Option<Iface> {
    let b4 = v4bits(ip, mask);
    let b6 = v6bits(ip, mask);
    if b4 >= 0 { lpm32(m32, root32_of(tm, t), be32(ip), b4) }
    else if b6 >= 0 { lpm6(m64, root64_of(tm, t), k6(ip, b6)) }
    else { None }
}

// the network of an address: IPv4 exactly when it has an IPv4 form

pub proof fn l_keep_ip(m32: Map<Ref, @S32@>, m64: M64, tm: Map<Ref, @TS@>, t: Ref, n32: Map<Ref, @S32@>, n64: M64, un: Map<Ref, @TS@>)
    requires okip(tm, m32, m64, t), ext32(m32, n32), ext64(m64, n64), extip(tm, un),
    ensures
        okip(un, n32, n64, t), root32_of(un, t) == root32_of(tm, t), root64_of(un, t) == root64_of(tm, t),
        tree32(n32, root32_of(tm, t)) == tree32(m32, root32_of(tm, t)),
        same4ip(m32, tm, t, n32, un, t), same6ip(m64, tm, t, n64, un, t),
{
    l_persist32(m32, n32, root32_of(tm, t));
    assert forall|x: Ref| #[trigger] fp6(m64, root64_of(tm, t), x) implies n64.contains_key(x) && n64[x] == m64[x] by { l_fp6_dom(m64, root64_of(tm, t), x); }
    l_keep6(m64, root64_of(tm, t), n64);
}

pub proof fn l_any4(m: Map<Ref, @S32@>, tm: Map<Ref, @TS@>, t: Ref, k: u32, n: int)
    ensures any4ip(m, tm, t, k, n) == anyin32(tree32(m, root32_of(tm, t)), k, n),
{
    let tr = tree32(m, root32_of(tm, t));
    if any4ip(m, tm, t, k, n) {
        let (a, b) = choose|a: u32, b: int| within32(a, b, k, n) && (#[trigger] map32(m, tm, t, a, b)) is Some;
        assert(find32(tr, a, b) is Some);
    }
    if anyin32(tr, k, n) {
        let (a, b) = choose|a: u32, b: int| within32(a, b, k, n) && (#[trigger] find32(tr, a, b)) is Some;
        assert(map32(m, tm, t, a, b) is Some);
    }
}
pub proof fn l_none4(m: Map<Ref, @S32@>, tm: Map<Ref, @TS@>, t: Ref, k: u32, n: int)
    requires !any4ip(m, tm, t, k, n),
    ensures rem4ip(m, tm, t, k, n, m, tm, t),
{
}
pub proof fn l_any6(m: M64, tm: Map<Ref, @TS@>, t: Ref, k: K6)
    ensures any6ip(m, tm, t, k) == anyin6(m, root64_of(tm, t), k),
{
    if any6ip(m, tm, t, k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] map6(m, tm, t, a)) is Some;
        assert(get6(m, root64_of(tm, t), a) is Some);
    }
    if anyin6(m, root64_of(tm, t), k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] get6(m, root64_of(tm, t), a)) is Some;
        assert(map6(m, tm, t, a) is Some);
    }
}
pub proof fn l_none6(m: M64, r: Ref, k: K6)
    requires !anyin6(m, r, k),
    ensures rem6(m, r, k, m, r),
{
}

pub open spec fn outside32(m0: Map<Ref, @S32@>, r: Ref, m1: Map<Ref, @S32@>) -> bool {
    forall|x: Ref| #[trigger] m0.contains_key(x) && !fp32(tree32(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x]
}

// a tree whose nodes did not change, if they did not
pub proof fn l_same_all(m0: M64, m1: M64, r: Ref)
    requires wf64(m0, r),
    ensures (forall|x: Ref| #[trigger] fp64(tree64(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x]) ==> wf64(m1, r) && tree64(m1, r) == tree64(m0, r),
{
    if forall|x: Ref| #[trigger] fp64(tree64(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x] { l_same_sub(m0, m1, r); }
}

// what an in-place update returned, seen after one more update of the first level
pub proof fn l_apart(m0: M64, r0: Ref, s0: Ref, ma: M64, s1: Ref)
    requires
        wf64(m0, r0), wf64(m0, s0), fp64(tree64(m0, s0)).disjoint(fp64(tree64(m0, r0))),
        fresh_or(m0, fp64(tree64(m0, s0)), fp64(tree64(ma, s1))),
    ensures fp64(tree64(ma, s1)).disjoint(fp64(tree64(m0, r0))),
{
    broadcast use radix64;
    assert forall|x: Ref| !(#[trigger] fp64(tree64(ma, s1)).contains(x) && fp64(tree64(m0, r0)).contains(x)) by {}
}

// ------------------------------------------------------------ enumeration

pub type M32 = Map<Ref, @S32@>;

// one stored network: its node, key, prefix length and value
pub struct It { pub r: Ref, pub v4: bool, pub k4: u32, pub hi: u64, pub lo: u64, pub n: int, pub v: Iface }

pub open spec fn it4(m: M32, x: Ref) -> It { It { r: x, v4: true, k4: m[x].Key, hi: 0, lo: 0, n: m[x].Bits as int, v: m[x].Value } }
pub open spec fn ith(m: M64, x: Ref) -> It { It { r: x, v4: false, k4: 0, hi: m[x].Key, lo: 0, n: m[x].Bits as int, v: m[x].Value } }
pub open spec fn itl(m: M64, hi: u64, x: Ref) -> It { It { r: x, v4: false, k4: 0, hi, lo: m[x].Key, n: 64 + m[x].Bits, v: m[x].Value } }

// the delivered pair is this network, host bits zero, with this value
pub open spec fn pair_is(hn: MN, p: iptree_Pair, i: It) -> bool {
    &&& p.Key != NIL && hn.contains_key(p.Key)
    &&& hn[p.Key].IP@ =~= if i.v4 { net4(i.k4, i.n) } else { net6(i.hi, i.lo, i.n) }
    &&& hn[p.Key].Mask@ == cidr(i.n, if i.v4 { 4 } else { 16 })
    &&& p.Value == i.v
}
#[verifier::opaque]
pub open spec fn pairs_are(hn: MN, s: Seq<iptree_Pair>, q: Seq<It>) -> bool {
    s.len() == q.len() && forall|i: int| 0 <= i < s.len() ==> pair_is(hn, #[trigger] s[i], q[i])
}
pub open spec fn all4(m: M32, s: Seq<Ref>) -> Seq<It> { Seq::new(s.len(), |i: int| it4(m, s[i])) }
pub open spec fn lows(m: M64, hi: u64, s: Seq<Ref>) -> Seq<It> { Seq::new(s.len(), |i: int| itl(m, hi, s[i])) }
pub open spec fn one6(m: M64, x: Ref) -> Seq<It> {
    if is_sub(m[x].Value) { lows(m, m[x].Key, leaves64(tree64(m, sub_of(m[x].Value)))) } else { seq![ith(m, x)] }
}
pub open spec fn all6(m: M64, s: Seq<Ref>) -> Seq<It>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { all6(m, s.drop_last()) + one6(m, s.last()) }
}
// what a tree stores, in the order in which it is enumerated
pub open spec fn items(m32: M32, m: M64, tm: Map<Ref, @TS@>, t: Ref) -> Seq<It> {
    all4(m32, leaves32(tree32(m32, root32_of(tm, t)))) + all6(m, leaves64(tree64(m, root64_of(tm, t))))
}

pub open spec fn it_below(a: It, b: It) -> bool {
    if a.v4 { b.v4 ==> below32(a.k4, a.n, b.k4, b.n) } else { !b.v4 && below6(itk(a), itk(b)) }
}
pub open spec fn itk(a: It) -> K6 { K6 { hi: a.hi, lo: a.lo, n: a.n } }
pub open spec fn lst4(q: Seq<It>, k: u32, n: int) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).v4 && same32(q[i].k4, q[i].n, k, n) }
pub open spec fn lst6(q: Seq<It>, k: K6) -> bool { exists|i: int| 0 <= i < q.len() && !(#[trigger] q[i]).v4 && same6(itk(q[i]), k) }
// q lists exactly what the tree stores, in order
pub open spec fn lists(m32: M32, m: M64, tm: Map<Ref, @TS@>, t: Ref, q: Seq<It>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> it_below(#[trigger] q[i], #[trigger] q[j])
    &&& forall|i: int| 0 <= i < q.len() ==> if (#[trigger] q[i]).v4 { 0 <= q[i].n <= 32 && map32(m32, tm, t, q[i].k4, q[i].n) == Some(q[i].v) } else { 0 <= q[i].n <= 128 && map6(m, tm, t, itk(q[i])) == Some(q[i].v) }
    &&& forall|k: u32, n: int| (#[trigger] map32(m32, tm, t, k, n)) is Some ==> lst4(q, k, n)
    &&& forall|k: K6| (#[trigger] map6(m, tm, t, k)) is Some ==> lst6(q, k)
}

// the first-level leaf a listed network comes from
pub proof fn l_src6(m: M64, s: Seq<Ref>, i: int) -> (r: (int, int))
    requires 0 <= i < all6(m, s).len(),
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < one6(m, s[r.0]).len(), all6(m, s)[i] == one6(m, s[r.0])[r.1],
        i < all6(m, s.drop_last()).len() ==> r.0 < s.len() - 1,
        i >= all6(m, s.drop_last()).len() ==> r.0 == s.len() - 1 && r.1 == i - all6(m, s.drop_last()).len(),
    decreases s.len(),
{
    let d = s.drop_last();
    if i < all6(m, d).len() {
        let r = l_src6(m, d, i);
        assert(d[r.0] == s[r.0]);
        r
    } else {
        (s.len() - 1, i - all6(m, d).len())
    }
}
pub proof fn l_dst6(m: M64, s: Seq<Ref>, j: int, k: int) -> (i: int)
    requires 0 <= j < s.len(), 0 <= k < one6(m, s[j]).len(),
    ensures 0 <= i < all6(m, s).len(), all6(m, s)[i] == one6(m, s[j])[k],
    decreases s.len(),
{
    let d = s.drop_last();
    if j == s.len() - 1 {
        all6(m, d).len() + k
    } else {
        assert(d[j] == s[j]);
        l_dst6(m, d, j, k)
    }
}
// a leaf of the first level and what is listed for it
pub proof fn l_one6(m: M64, root: Ref, x: Ref, k: int)
    requires ok6(m, root), 0 <= m[x].Bits <= 64, get64(m, root, m[x].Key, m[x].Bits as int) == Some(m[x].Value), 0 <= k < one6(m, x).len(),
    ensures ({
        let e = one6(m, x)[k];
        &&& e.hi == m[x].Key && ms(e.n) == m[x].Bits && !e.v4 && 0 <= e.n <= 128
        &&& get6(m, root, itk(e)) == Some(e.v)
    }),
{
    l_lvl6(m, root, m[x].Key, m[x].Bits as int);
    if is_sub(m[x].Value) {
        let s = sub_of(m[x].Value);
        l_leaves_ok64(m, s);
        let y = leaves64(tree64(m, s))[k];
        assert(stored64(m, s, leaves64(tree64(m, s))));
        assert(m.contains_key(y));
    }
}
pub proof fn l_one6_sorted(m: M64, root: Ref, x: Ref, i: int, j: int)
    requires ok6(m, root), get64(m, root, m[x].Key, m[x].Bits as int) == Some(m[x].Value), 0 <= i < j < one6(m, x).len(),
    ensures it_below(one6(m, x)[i], one6(m, x)[j]),
{
    l_lvl6(m, root, m[x].Key, m[x].Bits as int);
    if is_sub(m[x].Value) {
        let s = sub_of(m[x].Value);
        l_leaves_ok64(m, s);
        let q = leaves64(tree64(m, s));
        assert(sorted64(m, q));
        assert(m.contains_key(q[i]) && m.contains_key(q[j]));
        assert(below64(m[q[i]].Key, m[q[i]].Bits as int, m[q[j]].Key, m[q[j]].Bits as int));
    }
}
pub proof fn l_all6_sorted(m: M64, root: Ref, s: Seq<Ref>)
    requires ok6(m, root), sorted64(m, s), stored64(m, root, s),
    ensures forall|i: int, j: int| 0 <= i < j < all6(m, s).len() ==> it_below(#[trigger] all6(m, s)[i], #[trigger] all6(m, s)[j]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        l_all6_sorted(m, root, d);
        let x = s.last();
        assert(s[s.len() - 1] == x);
        let q = all6(m, s);
        let nd = all6(m, d).len();
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
            if j < nd {
                assert(q[i] == all6(m, d)[i] && q[j] == all6(m, d)[j]);
            } else if i >= nd {
                l_one6_sorted(m, root, x, i - nd, j - nd);
                assert(q[i] == one6(m, x)[i - nd] && q[j] == one6(m, x)[j - nd]);
            } else {
                let a = l_src6(m, s, i);
                let b = l_src6(m, s, j);
                assert(m.contains_key(s[a.0]) && m.contains_key(s[b.0]));
                l_one6(m, root, s[a.0], a.1);
                l_one6(m, root, s[b.0], b.1);
                assert(below64(m[s[a.0]].Key, m[s[a.0]].Bits as int, m[s[b.0]].Key, m[s[b.0]].Bits as int));
            }
        }
    }
}
pub proof fn l_lists(m32: M32, m: M64, tm: Map<Ref, @TS@>, t: Ref)
    requires okip(tm, m32, m, t),
    ensures lists(m32, m, tm, t, items(m32, m, tm, t)),
{
    let p = root32_of(tm, t);
    let r = root64_of(tm, t);
    let s4 = leaves32(tree32(m32, p));
    let s6 = leaves64(tree64(m, r));
    let q4 = all4(m32, s4);
    let q6 = all6(m, s6);
    let q = items(m32, m, tm, t);
    l_leaves_ok32(m32, p);
    l_leaves_ok64(m, r);
    l_all6_sorted(m, r, s6);
    assert forall|i: int| 0 <= i < q6.len() implies !(#[trigger] q6[i]).v4 && 0 <= q6[i].n <= 128 && map6(m, tm, t, itk(q6[i])) == Some(q6[i].v) by {
        let a = l_src6(m, s6, i);
        assert(m.contains_key(s6[a.0]));
        l_one6(m, r, s6[a.0], a.1);
    }
    assert forall|i: int| 0 <= i < q4.len() implies (#[trigger] q4[i]).v4 && 0 <= q4[i].n <= 32 && map32(m32, tm, t, q4[i].k4, q4[i].n) == Some(q4[i].v) by {
        assert(m32.contains_key(s4[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
        if j < q4.len() {
            assert(q[i] == q4[i] && q[j] == q4[j]);
            assert(below32(m32[s4[i]].Key, m32[s4[i]].Bits as int, m32[s4[j]].Key, m32[s4[j]].Bits as int));
        } else if i < q4.len() {
            assert(q[i] == q4[i] && q[j] == q6[j - q4.len()]);
        } else {
            assert(q[i] == q6[i - q4.len()] && q[j] == q6[j - q4.len()]);
        }
    }
    assert forall|i: int| 0 <= i < q.len() implies if (#[trigger] q[i]).v4 { 0 <= q[i].n <= 32 && map32(m32, tm, t, q[i].k4, q[i].n) == Some(q[i].v) } else { 0 <= q[i].n <= 128 && map6(m, tm, t, itk(q[i])) == Some(q[i].v) } by {
        if i < q4.len() { assert(q[i] == q4[i]); } else { assert(q[i] == q6[i - q4.len()]); }
    }
    assert forall|k: u32, n: int| (#[trigger] map32(m32, tm, t, k, n)) is Some implies lst4(q, k, n) by {
        assert(get32(m32, p, k, n) is Some);
        assert(hasit32(m32, s4, k, n));
        let i = choose|i: int| 0 <= i < s4.len() && same32(m32[#[trigger] s4[i]].Key, m32[s4[i]].Bits as int, k, n);
        assert(q[i] == q4[i]);
    }
    assert forall|k: K6| (#[trigger] map6(m, tm, t, k)) is Some implies lst6(q, k) by {
        let i = l_has6(m, r, k);
        assert(q[q4.len() + i] == q6[i]);
    }
}
pub proof fn l_has6(m: M64, root: Ref, k: K6) -> (i: int)
    requires ok6(m, root), get6(m, root, k) is Some,
    ensures ({
        let q = all6(m, leaves64(tree64(m, root)));
        0 <= i < q.len() && !q[i].v4 && same6(itk(q[i]), k)
    }),
{
    let s = leaves64(tree64(m, root));
    l_leaves_ok64(m, root);
    let b = ms(k.n);
    assert(get64(m, root, k.hi, b) is Some);
    assert(hasit64(m, s, k.hi, b));
    let j = choose|j: int| 0 <= j < s.len() && same64(m[#[trigger] s[j]].Key, m[s[j]].Bits as int, k.hi, b);
    let x = s[j];
    assert(m.contains_key(s[j]));
    l_lvl6(m, root, m[x].Key, m[x].Bits as int);
    if k.n < 64 {
        let i = l_dst6(m, s, j, 0);
        i
    } else {
        l_agree_full(m[x].Key, k.hi);
        let u = sub_of(m[x].Value);
        let w = leaves64(tree64(m, u));
        l_leaves_ok64(m, u);
        assert(get64(m, u, k.lo, k.n - 64) is Some);
        assert(hasit64(m, w, k.lo, k.n - 64));
        let c = choose|c: int| 0 <= c < w.len() && same64(m[#[trigger] w[c]].Key, m[w[c]].Bits as int, k.lo, k.n - 64);
        assert(m.contains_key(w[c]));
        let i = l_dst6(m, s, j, c);
        assert(one6(m, x)[c] == itl(m, m[x].Key, w[c]));
        i
    }
}
pub proof fn l_push_pair(hn0: MN, hn1: MN, s: Seq<iptree_Pair>, q: Seq<It>, p: iptree_Pair, i: It)
    requires pairs_are(hn0, s, q), extnet(hn0, hn1), pair_is(hn1, p, i),
    ensures pairs_are(hn1, s.push(p), q.push(i)),
{
    reveal(pairs_are);
    assert forall|j: int| 0 <= j < s.push(p).len() implies pair_is(hn1, #[trigger] s.push(p)[j], q.push(i)[j]) by {
        if j < s.len() { assert(pair_is(hn0, s[j], q[j])); }
    }
}
pub proof fn l_no_pairs(hn: MN, s: Seq<iptree_Pair>, q: Seq<It>)
    requires s.len() == 0, q.len() == 0,
    ensures pairs_are(hn, s, q),
{
    reveal(pairs_are);
}
// s are the leaves of a valid tree
#[verifier::opaque]
pub open spec fn leafs32(m: M32, r: Ref, s: Seq<Ref>) -> bool { wf32(m, r) && s == leaves32(tree32(m, r)) }
#[verifier::opaque]
pub open spec fn leafs64(m: M64, r: Ref, s: Seq<Ref>) -> bool { wf64(m, r) && s == leaves64(tree64(m, r)) }
#[verifier::opaque]
pub open spec fn leafs6(m: M64, r: Ref, s: Seq<Ref>) -> bool { ok6(m, r) && s == leaves64(tree64(m, r)) }

pub proof fn l_leaf32(m: M32, r: Ref, s: Seq<Ref>, i: int)
    requires leafs32(m, r, s), 0 <= i < s.len(),
    ensures s[i] != NIL, m.contains_key(s[i]), 0 <= m[s[i]].Bits <= 32,
{
    reveal(leafs32);
    l_leaves_ok32(m, r);
}
pub proof fn l_leaf64(m: M64, r: Ref, s: Seq<Ref>, i: int)
    requires leafs64(m, r, s), 0 <= i < s.len(),
    ensures s[i] != NIL, m.contains_key(s[i]), 0 <= m[s[i]].Bits <= 64, get64(m, r, m[s[i]].Key, m[s[i]].Bits as int) == Some(m[s[i]].Value),
{
    reveal(leafs64);
    l_leaves_ok64(m, r);
}
pub proof fn l_leaf6(m: M64, r: Ref, s: Seq<Ref>, i: int)
    requires leafs6(m, r, s), 0 <= i < s.len(),
    ensures s[i] != NIL, m.contains_key(s[i]), 0 <= m[s[i]].Bits <= 64, is_sub(m[s[i]].Value) <==> m[s[i]].Bits == 64,
        is_sub(m[s[i]].Value) ==> wf64(m, sub_of(m[s[i]].Value)) && leafs64(m, sub_of(m[s[i]].Value), leaves64(tree64(m, sub_of(m[s[i]].Value)))),
        get64(m, r, m[s[i]].Key, m[s[i]].Bits as int) == Some(m[s[i]].Value),
{
    reveal(leafs6);
    reveal(leafs64);
    l_leaves_ok64(m, r);
    assert(stored64(m, r, s));
    l_lvl6(m, r, m[s[i]].Key, m[s[i]].Bits as int);
}
