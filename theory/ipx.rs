// the two-level tree of IPv6 networks with integer values: below every stored prefix of the first level
// there is a tree of the low halves (for a prefix shorter than 64 bits: one entry without bits)

pub type M32 = Map<Ref, @S32@>;
pub type M64 = Map<Ref, @S64@>;
pub type MS = Map<Ref, @S64S@>;
pub type MT = Map<Ref, @TS@>;

// the tree below the first-level prefix (hi, n), or nil
pub open spec fn subat(mm: MS, root: Ref, hi: u64, n: int) -> Ref {
    match gets(mm, root, hi, n) { Some(r) => r, None => NIL }
}

// the value stored for exactly the IPv6 prefix k
pub open spec fn get6(mm: MS, m: M64, root: Ref, k: K6) -> Option<@VT@> {
    match gets(mm, root, k.hi, ms(k.n)) { Some(r) => get64(m, r, k.lo, ls(k.n)), None => None }
}

pub open spec fn lpmlen6(mm: MS, m: M64, root: Ref, k: K6, d: int) -> int
    decreases d + 1,
{
    if d < 0 { -1 } else if get6(mm, m, root, K6 { n: d, ..k }) is Some { d } else { lpmlen6(mm, m, root, k, d - 1) }
}
// the value of the longest stored prefix that contains k
pub open spec fn lpm6(mm: MS, m: M64, root: Ref, k: K6) -> Option<@VT@> {
    let d = lpmlen6(mm, m, root, k, k.n);
    if d < 0 { None } else { get6(mm, m, root, K6 { n: d, ..k }) }
}

// only an entry without bits
pub open spec fn only0(m: M64, r: Ref) -> bool {
    forall|k: u64, b: int| (#[trigger] get64(m, r, k, b)) is Some ==> b == 0
}

#[verifier::opaque]
pub open spec fn lvl6(mm: MS, m: M64, root: Ref) -> bool {
    forall|k: u64, b: int| (#[trigger] gets(mm, root, k, b)) is Some ==> {
        let s = subat(mm, root, k, b);
        s != NIL && wf64(m, s) && (b < 64 ==> only0(m, s))
    }
}
#[verifier::opaque]
pub open spec fn sep6(mm: MS, m: M64, root: Ref) -> bool {
    forall|k: u64, b: int, j: u64, c: int| !same64(k, b, j, c) && (#[trigger] gets(mm, root, k, b)) is Some && (#[trigger] gets(mm, root, j, c)) is Some
        ==> fp64(tree64(m, subat(mm, root, k, b))).disjoint(fp64(tree64(m, subat(mm, root, j, c))))
}
// a valid IPv6 tree
pub open spec fn ok6(mm: MS, m: M64, root: Ref) -> bool { wfs(mm, root) && lvl6(mm, m, root) && sep6(mm, m, root) }

// x is a node of the second level of the IPv6 tree
pub open spec fn fp6(mm: MS, m: M64, root: Ref, x: Ref) -> bool {
    exists|k: u64, b: int| (#[trigger] gets(mm, root, k, b)) is Some && fp64(tree64(m, subat(mm, root, k, b))).contains(x)
}

pub open spec fn upd6(mm0: MS, m0: M64, r0: Ref, k: K6, v: @VT@, mm1: MS, m1: M64, r1: Ref) -> bool {
    forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if same6(a, k) { Some(v) } else { get6(mm0, m0, r0, a) }
}
pub open spec fn rem6(mm0: MS, m0: M64, r0: Ref, k: K6, mm1: MS, m1: M64, r1: Ref) -> bool {
    forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if within6(a, k) { None } else { get6(mm0, m0, r0, a) }
}
pub open spec fn anyin6(mm: MS, m: M64, r: Ref, k: K6) -> bool {
    exists|a: K6| within6(a, k) && (#[trigger] get6(mm, m, r, a)) is Some
}

// ------------------------------------------------------------ lemmas

pub proof fn l_lvl6(mm: MS, m: M64, root: Ref, k: u64, b: int)
    requires lvl6(mm, m, root), gets(mm, root, k, b) is Some,
    ensures ({
        let s = subat(mm, root, k, b);
        s != NIL && wf64(m, s) && (b < 64 ==> only0(m, s))
    }),
{
    reveal(lvl6);
}
pub proof fn l_sep6(mm: MS, m: M64, root: Ref, k: u64, b: int, j: u64, c: int)
    requires sep6(mm, m, root), !same64(k, b, j, c), gets(mm, root, k, b) is Some, gets(mm, root, j, c) is Some,
    ensures fp64(tree64(m, subat(mm, root, k, b))).disjoint(fp64(tree64(m, subat(mm, root, j, c)))),
{
    reveal(sep6);
}

pub proof fn l_empty6(mm: MS, m: M64)
    ensures ok6(mm, m, NIL), forall|k: u64, b: int| (#[trigger] gets(mm, NIL, k, b)) is None,
        wf64(m, NIL), forall|k: u64, b: int| (#[trigger] get64(m, NIL, k, b)) is None, tree64(m, NIL) is E,
{
    broadcast use radixs, radix64;
    assert(reprs(mm, NIL, Ts::E));
    assert(repr64(m, NIL, T64::E));
    reveal(lvl6);
    reveal(sep6);
}
pub proof fn l_empty32(m: M32)
    ensures wf32(m, NIL), forall|k: u32, b: int| (#[trigger] get32(m, NIL, k, b)) is None,
{
    broadcast use radix32;
    assert(repr32(m, NIL, T32::E));
}

pub proof fn l_gets_range(mm: MS, r: Ref, k: u64, b: int)
    requires wfs(mm, r), gets(mm, r, k, b) is Some,
    ensures 0 <= b <= 64,
{
    l_find_ins(trees(mm, r), k, b);
}
pub proof fn l_get_range(m: M64, r: Ref, k: u64, b: int)
    requires wf64(m, r), get64(m, r, k, b) is Some,
    ensures 0 <= b <= 64,
{
    l_find_in64(tree64(m, r), k, b);
}
pub proof fn l_find_agree(t: T64, k: u64, j: u64, b: int)
    requires agree64(k, j, b),
    ensures find64(t, k, b) == find64(t, j, b),
    decreases t,
{
    if t is N {
        l_find_agree(*t->l, k, j, b);
        l_find_agree(*t->rt, k, j, b);
    }
}
pub proof fn l_finds_agree(t: Ts, k: u64, j: u64, b: int)
    requires agree64(k, j, b),
    ensures finds(t, k, b) == finds(t, j, b),
    decreases t,
{
    if t is N {
        l_finds_agree(*t->l, k, j, b);
        l_finds_agree(*t->rt, k, j, b);
    }
}
pub proof fn l_agree_tr(a: u64, b: u64, c: u64, n: int)
    requires agree64(a, b, n), agree64(b, c, n),
    ensures agree64(a, c, n), agree64(b, a, n),
{
}

// a tree with only the entry without bits finds it for every key
pub proof fn l_only0(m: M64, r: Ref, k: u64, d: int)
    requires wf64(m, r), r != NIL, only0(m, r), d >= 0,
    ensures get64(m, r, k, 0) is Some, lpm64(m, r, k, d) == get64(m, r, k, 0),
{
    broadcast use l_agree064;
    l_open64(m, r);
    let t = tree64(m, r);
    let w = l_some64(t);
    assert(get64(m, r, w.0, w.1) is Some);
    l_find_agree(t, w.0, k, 0);
    assert forall|b: int| 0 < b <= d implies (#[trigger] find64(t, k, b)) is None by {
        if find64(t, k, b) is Some { assert(get64(m, r, k, b) is Some); }
    }
    l_lpm_is64(t, k, d, 0);
}
// some network is stored below every prefix of the first level
pub proof fn l_some6(mm: MS, m: M64, root: Ref, k: u64, b: int) -> (a: K6)
    requires ok6(mm, m, root), gets(mm, root, k, b) is Some,
    ensures a.hi == k, ms(a.n) == b, get6(mm, m, root, a) is Some, a.n >= b,
{
    l_gets_range(mm, root, k, b);
    l_lvl6(mm, m, root, k, b);
    let s = subat(mm, root, k, b);
    if b < 64 {
        l_only0(m, s, 0, 0);
        K6 { hi: k, lo: 0, n: b }
    } else {
        l_open64(m, s);
        let w = l_some64(tree64(m, s));
        l_find_in64(tree64(m, s), w.0, w.1);
        assert(get64(m, s, w.0, w.1) is Some);
        K6 { hi: k, lo: w.0, n: 64 + w.1 }
    }
}

// lookups below 64 bits
pub proof fn l_lpm6_hi(mm: MS, m: M64, root: Ref, k: K6, d: int)
    requires ok6(mm, m, root), -1 <= d < 64,
    ensures lpmlen6(mm, m, root, k, d) == lpmlens(trees(mm, root), k.hi, d),
    decreases d + 1,
{
    if d >= 0 {
        let g = get6(mm, m, root, K6 { n: d, ..k });
        if gets(mm, root, k.hi, d) is Some {
            l_lvl6(mm, m, root, k.hi, d);
            l_only0(m, subat(mm, root, k.hi, d), k.lo, 0);
            assert(g is Some);
        } else {
            assert(g is None);
            l_lpm6_hi(mm, m, root, k, d - 1);
        }
    }
}

// ... and beyond
pub proof fn l_lpm6_lo(mm: MS, m: M64, root: Ref, k: K6, d: int)
    requires ok6(mm, m, root), 64 <= d <= 128,
    ensures
        gets(mm, root, k.hi, 64) is None ==> lpmlen6(mm, m, root, k, d) == lpmlens(trees(mm, root), k.hi, 63),
        gets(mm, root, k.hi, 64) is Some ==> ({
            let b = lpmlen64(tree64(m, subat(mm, root, k.hi, 64)), k.lo, d - 64);
            lpmlen6(mm, m, root, k, d) == if b >= 0 { 64 + b } else { lpmlens(trees(mm, root), k.hi, 63) }
        }),
    decreases d,
{
    let g = get6(mm, m, root, K6 { n: d, ..k });
    l_lpm6_hi(mm, m, root, k, 63);
    let s = subat(mm, root, k.hi, 64);
    if gets(mm, root, k.hi, 64) is Some {
        assert(g == find64(tree64(m, s), k.lo, d - 64));
    }
    if d > 64 {
        l_lpm6_lo(mm, m, root, k, d - 1);
    } else {
        assert(lpmlen64(tree64(m, s), k.lo, -1) == -1);
    }
}

// the whole lookup, as the two-level tree does it
pub open spec fn step6(mm: MS, m: M64, root: Ref, k: K6, s: Ref) -> bool {
    &&& s != NIL && wf64(m, s)
    &&& lpm64(m, s, k.lo, ls(k.n)) is Some ==> lpm6(mm, m, root, k) == lpm64(m, s, k.lo, ls(k.n))
    &&& lpm64(m, s, k.lo, ls(k.n)) is None ==> k.n >= 64 && match lpms(mm, root, k.hi, 63) {
        Some(u) => u != NIL && wf64(m, u) && lpm64(m, u, k.lo, ls(k.n)) is Some && lpm6(mm, m, root, k) == lpm64(m, u, k.lo, ls(k.n)),
        None => lpm6(mm, m, root, k) is None,
    }
}
pub proof fn l_lpm6(mm: MS, m: M64, root: Ref, k: K6)
    requires ok6(mm, m, root), 0 <= k.n <= 128,
    ensures
        match lpms(mm, root, k.hi, ms(k.n)) {
            Some(s) => step6(mm, m, root, k, s),
            None => lpm6(mm, m, root, k) is None,
        },
{
    let t = trees(mm, root);
    if k.n < 64 {
        l_lpm6_hi(mm, m, root, k, k.n);
        l_lpm_maxs(t, k.hi, k.n);
        let d = lpmlens(t, k.hi, k.n);
        if d >= 0 {
            assert(gets(mm, root, k.hi, d) is Some);
            l_lvl6(mm, m, root, k.hi, d);
            l_only0(m, subat(mm, root, k.hi, d), k.lo, 0);
        }
    } else {
        l_lpm6_lo(mm, m, root, k, k.n);
        l_lpm_maxs(t, k.hi, 63);
        let d = lpmlens(t, k.hi, 63);
        if d >= 0 {
            assert(gets(mm, root, k.hi, d) is Some);
            l_lvl6(mm, m, root, k.hi, d);
            l_only0(m, subat(mm, root, k.hi, d), k.lo, ls(k.n));
        }
        if gets(mm, root, k.hi, 64) is Some {
            l_lvl6(mm, m, root, k.hi, 64);
            let s = subat(mm, root, k.hi, 64);
            l_lpm_max64(tree64(m, s), k.lo, k.n - 64);
            assert(lpmlens(t, k.hi, 64) == 64);
        } else {
            assert(lpmlens(t, k.hi, 64) == d);
        }
    }
}

pub open spec fn fresh_or(m0: M64, f0: Set<Ref>, f1: Set<Ref>) -> bool {
    forall|x: Ref| #[trigger] f1.contains(x) ==> !m0.contains_key(x) || f0.contains(x)
}
pub open spec fn fresh_ors(m0: MS, f0: Set<Ref>, f1: Set<Ref>) -> bool {
    forall|x: Ref| #[trigger] f1.contains(x) ==> !m0.contains_key(x) || f0.contains(x)
}

// a subtree seen through a memory in which its nodes are unchanged
pub proof fn l_same_sub(m0: M64, m1: M64, r: Ref)
    requires wf64(m0, r), forall|x: Ref| #[trigger] fp64(tree64(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures wf64(m1, r), tree64(m1, r) == tree64(m0, r), only0(m0, r) ==> only0(m1, r),
{
    l_frame64(m0, m1, r, tree64(m0, r));
    l_unique64(m1, r, tree64(m0, r));
    if only0(m0, r) {
        assert forall|k: u64, b: int| (#[trigger] get64(m1, r, k, b)) is Some implies b == 0 by {
            assert(get64(m0, r, k, b) == get64(m1, r, k, b));
        }
    }
}
pub proof fn l_disjoint(m0: M64, fa: Set<Ref>, fb: Set<Ref>, fc: Set<Ref>)
    requires fa.subset_of(m0.dom()), fresh_or(m0, fb, fc), fa.disjoint(fb),
    ensures fa.disjoint(fc),
{
    assert forall|x: Ref| !(#[trigger] fa.contains(x) && fc.contains(x)) by {}
}

// entries of the first level only go away
pub proof fn l_top6(mm0: MS, m0: M64, r0: Ref, mm1: MS, m1: M64, r1: Ref)
    requires
        ok6(mm0, m0, r0), wfs(mm1, r1), ext64(m0, m1),
        forall|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) is Some ==> gets(mm0, r0, k, b) == gets(mm1, r1, k, b),
    ensures ok6(mm1, m1, r1),
        forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if gets(mm1, r1, a.hi, ms(a.n)) is Some { get6(mm0, m0, r0, a) } else { None },
{
    broadcast use radix64;
    assert forall|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) is Some implies ({
            let s = subat(mm1, r1, k, b);
            s == subat(mm0, r0, k, b) && s != NIL && wf64(m1, s) && tree64(m1, s) == tree64(m0, s) && (b < 64 ==> only0(m1, s))
        }) by {
        assert(gets(mm0, r0, k, b) is Some);
        l_lvl6(mm0, m0, r0, k, b);
        let s = subat(mm0, r0, k, b);
        l_fp_dom64(m0, s, tree64(m0, s));
        assert forall|x: Ref| #[trigger] fp64(tree64(m0, s)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(m0.contains_key(x)); }
        l_same_sub(m0, m1, s);
    }
    assert(lvl6(mm1, m1, r1)) by { reveal(lvl6); }
    assert(sep6(mm1, m1, r1)) by {
        reveal(sep6);
        assert forall|k: u64, b: int, j: u64, c: int| !same64(k, b, j, c) && (#[trigger] gets(mm1, r1, k, b)) is Some && (#[trigger] gets(mm1, r1, j, c)) is Some
            implies fp64(tree64(m1, subat(mm1, r1, k, b))).disjoint(fp64(tree64(m1, subat(mm1, r1, j, c)))) by {
            l_sep6(mm0, m0, r0, k, b, j, c);
        }
    }
}

// the tree below the first-level prefix (hi, n) is replaced by s1 (nil: removed)
pub proof fn l_sub6(mm0: MS, m0: M64, r0: Ref, hi: u64, n: int, mm1: MS, m1: M64, r1: Ref, s1: Ref)
    requires
        ok6(mm0, m0, r0), wfs(mm1, r1), wf64(m1, s1), n < 64 ==> only0(m1, s1),
        forall|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) == if same64(k, b, hi, n) { if s1 == NIL { None } else { Some(s1) } } else { gets(mm0, r0, k, b) },
        fresh_or(m0, fp64(tree64(m0, subat(mm0, r0, hi, n))), fp64(tree64(m1, s1))),
        forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, subat(mm0, r0, hi, n))).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(mm1, m1, r1),
        forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if same64(a.hi, ms(a.n), hi, n) { get64(m1, s1, a.lo, ls(a.n)) } else { get6(mm0, m0, r0, a) },
        forall|x: Ref| #[trigger] fp6(mm1, m1, r1, x) ==> !m0.contains_key(x) || fp6(mm0, m0, r0, x),
{
    broadcast use radix64;
    l_empty6(mm0, m0);
    l_empty6(mm1, m1);
    let s0 = subat(mm0, r0, hi, n);
    assert(wf64(m0, s0)) by { if gets(mm0, r0, hi, n) is Some { l_lvl6(mm0, m0, r0, hi, n); } }
    assert forall|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) is Some && !same64(k, b, hi, n) implies gets(mm0, r0, k, b) == gets(mm1, r1, k, b) && ({
            let s = subat(mm1, r1, k, b);
            &&& s != NIL && wf64(m1, s) && tree64(m1, s) == tree64(m0, s) && (b < 64 ==> only0(m1, s))
            &&& fp64(tree64(m0, s)).subset_of(m0.dom()) && fp64(tree64(m0, s)).disjoint(fp64(tree64(m0, s0)))
        }) by {
        l_lvl6(mm0, m0, r0, k, b);
        let s = subat(mm0, r0, k, b);
        l_fp_dom64(m0, s, tree64(m0, s));
        if gets(mm0, r0, hi, n) is Some { l_sep6(mm0, m0, r0, k, b, hi, n); }
        assert forall|x: Ref| #[trigger] fp64(tree64(m0, s)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(m0.contains_key(x)); }
        l_same_sub(m0, m1, s);
    }
    assert(lvl6(mm1, m1, r1)) by {
        reveal(lvl6);
        assert forall|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) is Some implies {
            let s = subat(mm1, r1, k, b);
            s != NIL && wf64(m1, s) && (b < 64 ==> only0(m1, s))
        } by {
            if same64(k, b, hi, n) { assert(subat(mm1, r1, k, b) == s1); }
        }
    }
    assert forall|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) is Some && !same64(k, b, hi, n) implies fp64(tree64(m1, subat(mm1, r1, k, b))).disjoint(fp64(tree64(m1, s1))) by {
        let s = subat(mm1, r1, k, b);
        l_disjoint(m0, fp64(tree64(m0, s)), fp64(tree64(m0, s0)), fp64(tree64(m1, s1)));
    }
    assert(sep6(mm1, m1, r1)) by {
        reveal(sep6);
        assert forall|k: u64, b: int, j: u64, c: int| !same64(k, b, j, c) && (#[trigger] gets(mm1, r1, k, b)) is Some && (#[trigger] gets(mm1, r1, j, c)) is Some
            implies fp64(tree64(m1, subat(mm1, r1, k, b))).disjoint(fp64(tree64(m1, subat(mm1, r1, j, c)))) by {
            let f = fp64(tree64(m1, s1));
            if same64(k, b, hi, n) {
                assert(subat(mm1, r1, k, b) == s1);
                if same64(j, c, hi, n) { l_agree_tr(k, hi, j, b); }
            } else if same64(j, c, hi, n) {
                assert(subat(mm1, r1, j, c) == s1);
            } else {
                l_sep6(mm0, m0, r0, k, b, j, c);
            }
        }
    }
    assert forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if same64(a.hi, ms(a.n), hi, n) { get64(m1, s1, a.lo, ls(a.n)) } else { get6(mm0, m0, r0, a) } by {
        let g = gets(mm1, r1, a.hi, ms(a.n));
        assert(g == if same64(a.hi, ms(a.n), hi, n) { if s1 == NIL { None } else { Some(s1) } } else { gets(mm0, r0, a.hi, ms(a.n)) });
        if same64(a.hi, ms(a.n), hi, n) { if s1 == NIL { assert(get64(m1, NIL, a.lo, ls(a.n)) is None); } }
        else if g is Some { assert(subat(mm1, r1, a.hi, ms(a.n)) == subat(mm0, r0, a.hi, ms(a.n))); }
    }
    assert forall|x: Ref| #[trigger] fp6(mm1, m1, r1, x) implies !m0.contains_key(x) || fp6(mm0, m0, r0, x) by {
        let (k, b) = choose|k: u64, b: int| (#[trigger] gets(mm1, r1, k, b)) is Some && fp64(tree64(m1, subat(mm1, r1, k, b))).contains(x);
        if same64(k, b, hi, n) {
            assert(subat(mm1, r1, k, b) == s1);
            if m0.contains_key(x) {
                assert(fp64(tree64(m0, s0)).contains(x));
                assert(gets(mm0, r0, hi, n) is Some);
            }
        } else {
            assert(gets(mm0, r0, k, b) == gets(mm1, r1, k, b));
        }
    }
}

// what may have happened to the second-level nodes that existed: those outside the tree are unchanged
pub open spec fn outside6(mm0: MS, m0: M64, r0: Ref, m1: M64) -> bool {
    forall|x: Ref| #[trigger] m0.contains_key(x) && !fp6(mm0, m0, r0, x) ==> m1.contains_key(x) && m1[x] == m0[x]
}
pub open spec fn outsides(m0: MS, r: Ref, m1: MS) -> bool {
    forall|x: Ref| #[trigger] m0.contains_key(x) && !fps(trees(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x]
}
pub open spec fn outside32(m0: M32, r: Ref, m1: M32) -> bool {
    forall|x: Ref| #[trigger] m0.contains_key(x) && !fp32(tree32(m0, r)).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x]
}

pub proof fn l_ins6(mm0: MS, m0: M64, r0: Ref, k: K6, v: @VT@, mm1: MS, m1: M64, r1: Ref, s1: Ref)
    requires
        ok6(mm0, m0, r0), 0 <= k.n <= 128, s1 != NIL,
        wfs(mm1, r1), upds(trees(mm1, r1), trees(mm0, r0), k.hi, ms(k.n), s1) || gets(mm0, r0, k.hi, ms(k.n)) == Some(s1) && trees(mm1, r1) == trees(mm0, r0),
        wf64(m1, s1), upd64(tree64(m1, s1), tree64(m0, subat(mm0, r0, k.hi, ms(k.n))), k.lo, ls(k.n), v),
        fresh_or(m0, fp64(tree64(m0, subat(mm0, r0, k.hi, ms(k.n)))), fp64(tree64(m1, s1))),
        forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, subat(mm0, r0, k.hi, ms(k.n)))).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures ok6(mm1, m1, r1), upd6(mm0, m0, r0, k, v, mm1, m1, r1),
        forall|x: Ref| #[trigger] fp6(mm1, m1, r1, x) ==> !m0.contains_key(x) || fp6(mm0, m0, r0, x),
{
    broadcast use l_agree064;
    let n = ms(k.n);
    let s0 = subat(mm0, r0, k.hi, n);
    l_empty6(mm0, m0);
    if gets(mm0, r0, k.hi, n) is Some { l_lvl6(mm0, m0, r0, k.hi, n); }
    assert forall|kk: u64, b: int| (#[trigger] gets(mm1, r1, kk, b)) == if same64(kk, b, k.hi, n) { Some(s1) } else { gets(mm0, r0, kk, b) } by {
        if upds(trees(mm1, r1), trees(mm0, r0), k.hi, n, s1) {
            assert(finds(trees(mm1, r1), kk, b) == if sames(kk, b, k.hi, n) { Some(s1) } else { finds(trees(mm0, r0), kk, b) });
        } else {
            if same64(kk, b, k.hi, n) { l_finds_agree(trees(mm0, r0), kk, k.hi, b); }
        }
    }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) == if same64(kk, b, k.lo, ls(k.n)) { Some(v) } else { get64(m0, s0, kk, b) } by {
        assert(find64(tree64(m1, s1), kk, b) == if same64(kk, b, k.lo, ls(k.n)) { Some(v) } else { find64(tree64(m0, s0), kk, b) });
    }
    if n < 64 {
        assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) is Some implies b == 0 by {
            if b != 0 { assert(get64(m1, s1, kk, b) == get64(m0, s0, kk, b)); }
        }
    }
    l_sub6(mm0, m0, r0, k.hi, n, mm1, m1, r1, s1);
    assert forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if same6(a, k) { Some(v) } else { get6(mm0, m0, r0, a) } by {
        if same64(a.hi, ms(a.n), k.hi, n) {
            assert(get64(m1, s1, a.lo, ls(a.n)) == if same64(a.lo, ls(a.n), k.lo, ls(k.n)) { Some(v) } else { get64(m0, s0, a.lo, ls(a.n)) });
            l_finds_agree(trees(mm0, r0), a.hi, k.hi, n);
        }
    }
}

// deletion below a prefix shorter than 64 bits
pub proof fn l_del6_hi(mm0: MS, m0: M64, r0: Ref, k: K6, mm1: MS, m1: M64, r1: Ref)
    requires
        ok6(mm0, m0, r0), 0 <= k.n < 64,
        wfs(mm1, r1), rems(trees(mm1, r1), trees(mm0, r0), k.hi, k.n),
        ext64(m0, m1),
    ensures ok6(mm1, m1, r1), rem6(mm0, m0, r0, k, mm1, m1, r1), anyin6(mm0, m0, r0, k) == anyins(trees(mm0, r0), k.hi, k.n),
{
    assert forall|kk: u64, b: int| (#[trigger] gets(mm1, r1, kk, b)) == if within64(kk, b, k.hi, k.n) { None } else { gets(mm0, r0, kk, b) } by {
        assert(finds(trees(mm1, r1), kk, b) == if withins(kk, b, k.hi, k.n) { None } else { finds(trees(mm0, r0), kk, b) });
    }
    l_top6(mm0, m0, r0, mm1, m1, r1);
    assert forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if within6(a, k) { None } else { get6(mm0, m0, r0, a) } by {
        assert(gets(mm1, r1, a.hi, ms(a.n)) == if within64(a.hi, ms(a.n), k.hi, k.n) { None } else { gets(mm0, r0, a.hi, ms(a.n)) });
    }
    if anyin6(mm0, m0, r0, k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] get6(mm0, m0, r0, a)) is Some;
        assert(finds(trees(mm0, r0), a.hi, ms(a.n)) is Some);
        assert(withins(a.hi, ms(a.n), k.hi, k.n));
    }
    if anyins(trees(mm0, r0), k.hi, k.n) {
        let (kk, b) = choose|kk: u64, b: int| withins(kk, b, k.hi, k.n) && (#[trigger] finds(trees(mm0, r0), kk, b)) is Some;
        assert(gets(mm0, r0, kk, b) is Some);
        let a = l_some6(mm0, m0, r0, kk, b);
        assert(within6(a, k));
    }
}

// s1: what is left below the 64-bit prefix
pub proof fn l_del6_lo(mm0: MS, m0: M64, r0: Ref, k: K6, mm1: MS, m1: M64, r1: Ref, s1: Ref)
    requires
        ok6(mm0, m0, r0), 64 <= k.n <= 128,
        wfs(mm1, r1),
        s1 != NIL ==> upds(trees(mm1, r1), trees(mm0, r0), k.hi, 64, s1),
        s1 == NIL ==> rems(trees(mm1, r1), trees(mm0, r0), k.hi, 64),
        wf64(m1, s1), rem64(tree64(m1, s1), tree64(m0, subat(mm0, r0, k.hi, 64)), k.lo, k.n - 64),
        fresh_or(m0, fp64(tree64(m0, subat(mm0, r0, k.hi, 64))), fp64(tree64(m1, s1))),
        ext64(m0, m1),
    ensures ok6(mm1, m1, r1), rem6(mm0, m0, r0, k, mm1, m1, r1),
{
    let s0 = subat(mm0, r0, k.hi, 64);
    l_empty6(mm0, m0);
    if gets(mm0, r0, k.hi, 64) is Some { l_lvl6(mm0, m0, r0, k.hi, 64); }
    assert forall|kk: u64, b: int| (#[trigger] gets(mm1, r1, kk, b)) == if same64(kk, b, k.hi, 64) { if s1 == NIL { None } else { Some(s1) } } else { gets(mm0, r0, kk, b) } by {
        if s1 != NIL {
            assert(finds(trees(mm1, r1), kk, b) == if sames(kk, b, k.hi, 64) { Some(s1) } else { finds(trees(mm0, r0), kk, b) });
        } else {
            assert(finds(trees(mm1, r1), kk, b) == if withins(kk, b, k.hi, 64) { None } else { finds(trees(mm0, r0), kk, b) });
            if b > 64 && gets(mm0, r0, kk, b) is Some { l_gets_range(mm0, r0, kk, b); }
        }
    }
    assert forall|kk: u64, b: int| (#[trigger] get64(m1, s1, kk, b)) == if within64(kk, b, k.lo, k.n - 64) { None } else { get64(m0, s0, kk, b) } by {
        assert(find64(tree64(m1, s1), kk, b) == if within64(kk, b, k.lo, k.n - 64) { None } else { find64(tree64(m0, s0), kk, b) });
    }
    assert forall|x: Ref| #[trigger] m0.contains_key(x) && !fp64(tree64(m0, s0)).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by {}
    l_sub6(mm0, m0, r0, k.hi, 64, mm1, m1, r1, s1);
    assert forall|a: K6| (#[trigger] get6(mm1, m1, r1, a)) == if within6(a, k) { None } else { get6(mm0, m0, r0, a) } by {
        if same64(a.hi, ms(a.n), k.hi, 64) {
            assert(get64(m1, s1, a.lo, ls(a.n)) == if within64(a.lo, ls(a.n), k.lo, k.n - 64) { None } else { get64(m0, s0, a.lo, ls(a.n)) });
            l_finds_agree(trees(mm0, r0), a.hi, k.hi, 64);
        }
    }
}

// the deletion flag
pub proof fn l_anyin6_lo(mm0: MS, m0: M64, r0: Ref, k: K6)
    requires ok6(mm0, m0, r0), 64 <= k.n <= 128,
    ensures
        gets(mm0, r0, k.hi, 64) is None ==> !anyin6(mm0, m0, r0, k),
        gets(mm0, r0, k.hi, 64) is Some ==> anyin6(mm0, m0, r0, k) == anyin64(tree64(m0, subat(mm0, r0, k.hi, 64)), k.lo, k.n - 64),
{
    let s0 = subat(mm0, r0, k.hi, 64);
    if anyin6(mm0, m0, r0, k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] get6(mm0, m0, r0, a)) is Some;
        l_finds_agree(trees(mm0, r0), a.hi, k.hi, 64);
        assert(find64(tree64(m0, s0), a.lo, a.n - 64) is Some);
        assert(within64(a.lo, a.n - 64, k.lo, k.n - 64));
    }
    if gets(mm0, r0, k.hi, 64) is Some {
        if anyin64(tree64(m0, s0), k.lo, k.n - 64) {
            let (kk, b) = choose|kk: u64, b: int| within64(kk, b, k.lo, k.n - 64) && (#[trigger] find64(tree64(m0, s0), kk, b)) is Some;
            let a = K6 { hi: k.hi, lo: kk, n: 64 + b };
            l_agree_refl64(k.hi, 64);
            assert(get6(mm0, m0, r0, a) == find64(tree64(m0, s0), kk, b));
            assert(within6(a, k));
        }
    }
}

// nothing changes
pub proof fn l_keep6(mm0: MS, m0: M64, r0: Ref, mm1: MS, m1: M64)
    requires ok6(mm0, m0, r0), exts(mm0, mm1), ext64(m0, m1),
    ensures ok6(mm1, m1, r0), forall|a: K6| (#[trigger] get6(mm1, m1, r0, a)) == get6(mm0, m0, r0, a), trees(mm1, r0) == trees(mm0, r0),
{
    l_persists(mm0, mm1, r0);
    assert(forall|k: u64, b: int| (#[trigger] gets(mm1, r0, k, b)) == gets(mm0, r0, k, b));
    l_top6(mm0, m0, r0, mm1, m1, r0);
    assert forall|a: K6| (#[trigger] get6(mm1, m1, r0, a)) == get6(mm0, m0, r0, a) by {
        assert(gets(mm1, r0, a.hi, ms(a.n)) == gets(mm0, r0, a.hi, ms(a.n)));
    }
}

// ------------------------------------------------------------ whole trees

pub open spec fn root32_of(tm: MT, t: Ref) -> Ref { if t == NIL { NIL } else { tm[t].root32 } }
pub open spec fn root64_of(tm: MT, t: Ref) -> Ref { if t == NIL { NIL } else { tm[t].root64 } }

// the memories the trees live in
pub struct W { pub m32: M32, pub mm: MS, pub m: M64, pub tm: MT }

pub open spec fn okip(w: W, t: Ref) -> bool {
    &&& t != NIL ==> w.tm.contains_key(t)
    &&& wf32(w.m32, root32_of(w.tm, t))
    &&& ok6(w.mm, w.m, root64_of(w.tm, t))
}
pub open spec fn extip(m0: MT, m1: MT) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}
// nothing that existed changed
pub open spec fn extw(w0: W, w1: W) -> bool { ext32(w0.m32, w1.m32) && exts(w0.mm, w1.mm) && ext64(w0.m, w1.m) && extip(w0.tm, w1.tm) }

pub open spec fn map32(w: W, t: Ref, k: u32, b: int) -> Option<@VT@> { get32(w.m32, root32_of(w.tm, t), k, b) }
pub open spec fn map6(w: W, t: Ref, k: K6) -> Option<@VT@> { get6(w.mm, w.m, root64_of(w.tm, t), k) }

pub open spec fn upd4ip(w0: W, t0: Ref, k: u32, n: int, v: @VT@, w1: W, t1: Ref) -> bool {
    forall|a: u32, b: int| (#[trigger] map32(w1, t1, a, b)) == if same32(a, b, k, n) { Some(v) } else { map32(w0, t0, a, b) }
}
pub open spec fn rem4ip(w0: W, t0: Ref, k: u32, n: int, w1: W, t1: Ref) -> bool {
    forall|a: u32, b: int| (#[trigger] map32(w1, t1, a, b)) == if within32(a, b, k, n) { None } else { map32(w0, t0, a, b) }
}
pub open spec fn any4ip(w0: W, t0: Ref, k: u32, n: int) -> bool {
    exists|a: u32, b: int| within32(a, b, k, n) && (#[trigger] map32(w0, t0, a, b)) is Some
}
pub open spec fn same4ip(w0: W, t0: Ref, w1: W, t1: Ref) -> bool {
    forall|a: u32, b: int| (#[trigger] map32(w1, t1, a, b)) == map32(w0, t0, a, b)
}
pub open spec fn upd6ip(w0: W, t0: Ref, k: K6, v: @VT@, w1: W, t1: Ref) -> bool {
    forall|a: K6| (#[trigger] map6(w1, t1, a)) == if same6(a, k) { Some(v) } else { map6(w0, t0, a) }
}
pub open spec fn rem6ip(w0: W, t0: Ref, k: K6, w1: W, t1: Ref) -> bool {
    forall|a: K6| (#[trigger] map6(w1, t1, a)) == if within6(a, k) { None } else { map6(w0, t0, a) }
}
pub open spec fn any6ip(w0: W, t0: Ref, k: K6) -> bool {
    exists|a: K6| within6(a, k) && (#[trigger] map6(w0, t0, a)) is Some
}
pub open spec fn same6ip(w0: W, t0: Ref, w1: W, t1: Ref) -> bool {
    forall|a: K6| (#[trigger] map6(w1, t1, a)) == map6(w0, t0, a)
}

// insertion of the network (ip, mask): tree t1 against tree t0
pub open spec fn ins_ip(w0: W, t0: Ref, ip: Seq<u8>, mask: Seq<u8>, v: @VT@, w1: W, t1: Ref) -> bool {
    let b4 = v4bits(ip, mask);
    let b6 = v6bits(ip, mask);
    &&& okip(w1, t1)
    &&& if b4 >= 0 { upd4ip(w0, t0, be32(ip), b4, v, w1, t1) } else { same4ip(w0, t0, w1, t1) }
    &&& if b6 >= 0 { upd6ip(w0, t0, k6(ip, b6), v, w1, t1) } else { same6ip(w0, t0, w1, t1) }
}

// deletion of everything within the network (ip, mask)
pub open spec fn del_ip(w0: W, t0: Ref, ip: Seq<u8>, mask: Seq<u8>, w1: W, t1: Ref, ok: bool) -> bool {
    let b4 = v4bits(ip, mask);
    let b6 = v6bits(ip, mask);
    &&& okip(w1, t1)
    &&& if b4 >= 0 { rem4ip(w0, t0, be32(ip), b4, w1, t1) } else { same4ip(w0, t0, w1, t1) }
    &&& if b6 >= 0 { rem6ip(w0, t0, k6(ip, b6), w1, t1) } else { same6ip(w0, t0, w1, t1) }
    &&& ok == (b4 >= 0 && any4ip(w0, t0, be32(ip), b4) || b6 >= 0 && any6ip(w0, t0, k6(ip, b6)))
}

// the value of the smallest stored network that contains (ip, mask)
pub open spec fn look_ip(w: W, t: Ref, ip: Seq<u8>, mask: Seq<u8>) -> Option<@VT@> {
    let b4 = v4bits(ip, mask);
    let b6 = v6bits(ip, mask);
    if b4 >= 0 { lpm32(w.m32, root32_of(w.tm, t), be32(ip), b4) }
    else if b6 >= 0 { lpm6(w.mm, w.m, root64_of(w.tm, t), k6(ip, b6)) }
    else { None }
}

pub proof fn l_keep_ip(w: W, t: Ref, u: W)
    requires okip(w, t), extw(w, u),
    ensures
        okip(u, t), root32_of(u.tm, t) == root32_of(w.tm, t), root64_of(u.tm, t) == root64_of(w.tm, t),
        tree32(u.m32, root32_of(w.tm, t)) == tree32(w.m32, root32_of(w.tm, t)),
        trees(u.mm, root64_of(w.tm, t)) == trees(w.mm, root64_of(w.tm, t)),
        same4ip(w, t, u, t), same6ip(w, t, u, t),
{
    l_persist32(w.m32, u.m32, root32_of(w.tm, t));
    l_keep6(w.mm, w.m, root64_of(w.tm, t), u.mm, u.m);
}
pub proof fn l_any4(w: W, t: Ref, k: u32, n: int)
    ensures any4ip(w, t, k, n) == anyin32(tree32(w.m32, root32_of(w.tm, t)), k, n),
{
    let tr = tree32(w.m32, root32_of(w.tm, t));
    if any4ip(w, t, k, n) {
        let (a, b) = choose|a: u32, b: int| within32(a, b, k, n) && (#[trigger] map32(w, t, a, b)) is Some;
        assert(find32(tr, a, b) is Some);
    }
    if anyin32(tr, k, n) {
        let (a, b) = choose|a: u32, b: int| within32(a, b, k, n) && (#[trigger] find32(tr, a, b)) is Some;
        assert(map32(w, t, a, b) is Some);
    }
}
pub proof fn l_any6(w: W, t: Ref, k: K6)
    ensures any6ip(w, t, k) == anyin6(w.mm, w.m, root64_of(w.tm, t), k),
{
    if any6ip(w, t, k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] map6(w, t, a)) is Some;
        assert(get6(w.mm, w.m, root64_of(w.tm, t), a) is Some);
    }
    if anyin6(w.mm, w.m, root64_of(w.tm, t), k) {
        let a = choose|a: K6| within6(a, k) && (#[trigger] get6(w.mm, w.m, root64_of(w.tm, t), a)) is Some;
        assert(map6(w, t, a) is Some);
    }
}

// ------------------------------------------------------------ enumeration

// one stored network: key, prefix length and value
pub struct It { pub v4: bool, pub k4: u32, pub hi: u64, pub lo: u64, pub n: int, pub v: @VT@ }

pub open spec fn it4(m: M32, x: Ref) -> It { It { v4: true, k4: m[x].key, hi: 0, lo: 0, n: m[x].bits as int, v: m[x].value } }
pub open spec fn itl(m: M64, hi: u64, b: int, x: Ref) -> It { It { v4: false, k4: 0, hi, lo: m[x].key, n: b + m[x].bits, v: m[x].value } }

// the delivered pair is this network, host bits zero, with this value
pub open spec fn pair_is(hn: MN, p: @PT@, i: It) -> bool {
    &&& p.Key != NIL && hn.contains_key(p.Key)
    &&& hn[p.Key].IP@ =~= if i.v4 { net4(i.k4, i.n) } else { net6(i.hi, i.lo, i.n) }
    &&& hn[p.Key].Mask@ == cidr(i.n, if i.v4 { 4 } else { 16 })
    &&& p.Value == i.v
}
#[verifier::opaque]
pub open spec fn pairs_are(hn: MN, s: Seq<@PT@>, q: Seq<It>) -> bool {
    s.len() == q.len() && forall|i: int| 0 <= i < s.len() ==> pair_is(hn, #[trigger] s[i], q[i])
}
pub open spec fn all4(m: M32, s: Seq<Ref>) -> Seq<It> { Seq::new(s.len(), |i: int| it4(m, s[i])) }
pub open spec fn lows(m: M64, hi: u64, b: int, s: Seq<Ref>) -> Seq<It> { Seq::new(s.len(), |i: int| itl(m, hi, b, s[i])) }
pub open spec fn one6(mm: MS, m: M64, x: Ref) -> Seq<It> { lows(m, mm[x].key, mm[x].bits as int, leaves64(tree64(m, mm[x].value))) }
pub open spec fn all6(mm: MS, m: M64, s: Seq<Ref>) -> Seq<It>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { all6(mm, m, s.drop_last()) + one6(mm, m, s.last()) }
}
// what a tree stores, in the order in which it is enumerated
pub open spec fn items(w: W, t: Ref) -> Seq<It> {
    all4(w.m32, leaves32(tree32(w.m32, root32_of(w.tm, t)))) + all6(w.mm, w.m, leavess(trees(w.mm, root64_of(w.tm, t))))
}

pub open spec fn it_below(a: It, b: It) -> bool {
    if a.v4 { b.v4 ==> below32(a.k4, a.n, b.k4, b.n) } else { !b.v4 && below6(itk(a), itk(b)) }
}
pub open spec fn itk(a: It) -> K6 { K6 { hi: a.hi, lo: a.lo, n: a.n } }
pub open spec fn lst4(q: Seq<It>, k: u32, n: int) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).v4 && same32(q[i].k4, q[i].n, k, n) }
pub open spec fn lst6(q: Seq<It>, k: K6) -> bool { exists|i: int| 0 <= i < q.len() && !(#[trigger] q[i]).v4 && same6(itk(q[i]), k) }
// q lists exactly what the tree stores, in order
pub open spec fn lists(w: W, t: Ref, q: Seq<It>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> it_below(#[trigger] q[i], #[trigger] q[j])
    &&& forall|i: int| 0 <= i < q.len() ==> if (#[trigger] q[i]).v4 { 0 <= q[i].n <= 32 && map32(w, t, q[i].k4, q[i].n) == Some(q[i].v) } else { 0 <= q[i].n <= 128 && map6(w, t, itk(q[i])) == Some(q[i].v) }
    &&& forall|k: u32, n: int| (#[trigger] map32(w, t, k, n)) is Some ==> lst4(q, k, n)
    &&& forall|k: K6| (#[trigger] map6(w, t, k)) is Some ==> lst6(q, k)
}

// the first-level leaf a listed network comes from
pub proof fn l_src6(mm: MS, m: M64, s: Seq<Ref>, i: int) -> (r: (int, int))
    requires 0 <= i < all6(mm, m, s).len(),
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < one6(mm, m, s[r.0]).len(), all6(mm, m, s)[i] == one6(mm, m, s[r.0])[r.1],
        i < all6(mm, m, s.drop_last()).len() ==> r.0 < s.len() - 1,
        i >= all6(mm, m, s.drop_last()).len() ==> r.0 == s.len() - 1 && r.1 == i - all6(mm, m, s.drop_last()).len(),
    decreases s.len(),
{
    let d = s.drop_last();
    if i < all6(mm, m, d).len() {
        let r = l_src6(mm, m, d, i);
        assert(d[r.0] == s[r.0]);
        r
    } else {
        (s.len() - 1, i - all6(mm, m, d).len())
    }
}
pub proof fn l_dst6(mm: MS, m: M64, s: Seq<Ref>, j: int, k: int) -> (i: int)
    requires 0 <= j < s.len(), 0 <= k < one6(mm, m, s[j]).len(),
    ensures 0 <= i < all6(mm, m, s).len(), all6(mm, m, s)[i] == one6(mm, m, s[j])[k],
    decreases s.len(),
{
    let d = s.drop_last();
    if j == s.len() - 1 {
        all6(mm, m, d).len() + k
    } else {
        assert(d[j] == s[j]);
        l_dst6(mm, m, d, j, k)
    }
}
// a leaf of the first level and what is listed for it
pub proof fn l_one6(mm: MS, m: M64, root: Ref, x: Ref, k: int)
    requires ok6(mm, m, root), 0 <= mm[x].bits <= 64, gets(mm, root, mm[x].key, mm[x].bits as int) == Some(mm[x].value), 0 <= k < one6(mm, m, x).len(),
    ensures ({
        let e = one6(mm, m, x)[k];
        &&& e.hi == mm[x].key && ms(e.n) == mm[x].bits && !e.v4 && 0 <= e.n <= 128
        &&& get6(mm, m, root, itk(e)) == Some(e.v)
    }),
{
    l_lvl6(mm, m, root, mm[x].key, mm[x].bits as int);
    let s = mm[x].value;
    l_leaves_ok64(m, s);
    let y = leaves64(tree64(m, s))[k];
    assert(stored64(m, s, leaves64(tree64(m, s))));
    assert(m.contains_key(y));
    assert(get64(m, s, m[y].key, m[y].bits as int) is Some);
}
pub proof fn l_one6_sorted(mm: MS, m: M64, root: Ref, x: Ref, i: int, j: int)
    requires ok6(mm, m, root), 0 <= mm[x].bits <= 64, gets(mm, root, mm[x].key, mm[x].bits as int) == Some(mm[x].value), 0 <= i < j < one6(mm, m, x).len(),
    ensures it_below(one6(mm, m, x)[i], one6(mm, m, x)[j]),
{
    l_lvl6(mm, m, root, mm[x].key, mm[x].bits as int);
    let s = mm[x].value;
    l_leaves_ok64(m, s);
    let q = leaves64(tree64(m, s));
    assert(sorted64(m, q));
    assert(stored64(m, s, q));
    assert(m.contains_key(q[i]) && m.contains_key(q[j]));
    let a = m[q[i]];
    let b = m[q[j]];
    assert(below64(a.key, a.bits as int, b.key, b.bits as int));
    assert(get64(m, s, a.key, a.bits as int) is Some);
    assert(get64(m, s, b.key, b.bits as int) is Some);
    if mm[x].bits < 64 {
        let (p, r) = (a.key, b.key);
        assert((p & 0u64) == 0 && (r & 0u64) == 0) by (bit_vector);
        assert(mask64(0) == 0u64);
        assert(false);
    }
}
pub proof fn l_all6_sorted(mm: MS, m: M64, root: Ref, s: Seq<Ref>)
    requires ok6(mm, m, root), sorteds(mm, s), storeds(mm, root, s),
    ensures forall|i: int, j: int| 0 <= i < j < all6(mm, m, s).len() ==> it_below(#[trigger] all6(mm, m, s)[i], #[trigger] all6(mm, m, s)[j]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        l_all6_sorted(mm, m, root, d);
        let x = s.last();
        assert(s[s.len() - 1] == x);
        let q = all6(mm, m, s);
        let nd = all6(mm, m, d).len();
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
            if j < nd {
                assert(q[i] == all6(mm, m, d)[i] && q[j] == all6(mm, m, d)[j]);
            } else if i >= nd {
                assert(mm.contains_key(s[s.len() - 1]));
                l_one6_sorted(mm, m, root, x, i - nd, j - nd);
                assert(q[i] == one6(mm, m, x)[i - nd] && q[j] == one6(mm, m, x)[j - nd]);
            } else {
                let a = l_src6(mm, m, s, i);
                let b = l_src6(mm, m, s, j);
                assert(mm.contains_key(s[a.0]) && mm.contains_key(s[b.0]));
                l_one6(mm, m, root, s[a.0], a.1);
                l_one6(mm, m, root, s[b.0], b.1);
                assert(below64(mm[s[a.0]].key, mm[s[a.0]].bits as int, mm[s[b.0]].key, mm[s[b.0]].bits as int));
            }
        }
    }
}
pub proof fn l_has6(mm: MS, m: M64, root: Ref, k: K6) -> (i: int)
    requires ok6(mm, m, root), get6(mm, m, root, k) is Some,
    ensures ({
        let q = all6(mm, m, leavess(trees(mm, root)));
        0 <= i < q.len() && !q[i].v4 && same6(itk(q[i]), k)
    }),
{
    broadcast use l_agree064;
    let s = leavess(trees(mm, root));
    l_leaves_oks(mm, root);
    let b = ms(k.n);
    assert(gets(mm, root, k.hi, b) is Some);
    assert(hasits(mm, s, k.hi, b));
    let j = choose|j: int| 0 <= j < s.len() && sames(mm[#[trigger] s[j]].key, mm[s[j]].bits as int, k.hi, b);
    let x = s[j];
    assert(mm.contains_key(s[j]));
    l_finds_agree(trees(mm, root), mm[x].key, k.hi, b);
    l_lvl6(mm, m, root, mm[x].key, mm[x].bits as int);
    let u = mm[x].value;
    let w = leaves64(tree64(m, u));
    l_leaves_ok64(m, u);
    assert(get64(m, u, k.lo, ls(k.n)) is Some);
    l_get_range(m, u, k.lo, ls(k.n));
    assert(hasit64(m, w, k.lo, ls(k.n)));
    let c = choose|c: int| 0 <= c < w.len() && same64(m[#[trigger] w[c]].key, m[w[c]].bits as int, k.lo, ls(k.n));
    assert(m.contains_key(w[c]));
    let i = l_dst6(mm, m, s, j, c);
    assert(one6(mm, m, x)[c] == itl(m, mm[x].key, mm[x].bits as int, w[c]));
    i
}
pub proof fn l_lists(w: W, t: Ref)
    requires okip(w, t),
    ensures lists(w, t, items(w, t)),
{
    let (m32, mm, m) = (w.m32, w.mm, w.m);
    let p = root32_of(w.tm, t);
    let r = root64_of(w.tm, t);
    let s4 = leaves32(tree32(m32, p));
    let s6 = leavess(trees(mm, r));
    let q4 = all4(m32, s4);
    let q6 = all6(mm, m, s6);
    let q = items(w, t);
    l_leaves_ok32(m32, p);
    l_leaves_oks(mm, r);
    l_all6_sorted(mm, m, r, s6);
    assert forall|i: int| 0 <= i < q6.len() implies !(#[trigger] q6[i]).v4 && 0 <= q6[i].n <= 128 && map6(w, t, itk(q6[i])) == Some(q6[i].v) by {
        let a = l_src6(mm, m, s6, i);
        assert(mm.contains_key(s6[a.0]));
        l_one6(mm, m, r, s6[a.0], a.1);
    }
    assert forall|i: int| 0 <= i < q4.len() implies (#[trigger] q4[i]).v4 && 0 <= q4[i].n <= 32 && map32(w, t, q4[i].k4, q4[i].n) == Some(q4[i].v) by {
        assert(m32.contains_key(s4[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
        if j < q4.len() {
            assert(q[i] == q4[i] && q[j] == q4[j]);
            assert(below32(m32[s4[i]].key, m32[s4[i]].bits as int, m32[s4[j]].key, m32[s4[j]].bits as int));
        } else if i < q4.len() {
            assert(q[i] == q4[i] && q[j] == q6[j - q4.len()]);
        } else {
            assert(q[i] == q6[i - q4.len()] && q[j] == q6[j - q4.len()]);
        }
    }
    assert forall|i: int| 0 <= i < q.len() implies if (#[trigger] q[i]).v4 { 0 <= q[i].n <= 32 && map32(w, t, q[i].k4, q[i].n) == Some(q[i].v) } else { 0 <= q[i].n <= 128 && map6(w, t, itk(q[i])) == Some(q[i].v) } by {
        if i < q4.len() { assert(q[i] == q4[i]); } else { assert(q[i] == q6[i - q4.len()]); }
    }
    assert forall|k: u32, n: int| (#[trigger] map32(w, t, k, n)) is Some implies lst4(q, k, n) by {
        assert(get32(m32, p, k, n) is Some);
        assert(hasit32(m32, s4, k, n));
        let i = choose|i: int| 0 <= i < s4.len() && same32(m32[#[trigger] s4[i]].key, m32[s4[i]].bits as int, k, n);
        assert(q[i] == q4[i]);
    }
    assert forall|k: K6| (#[trigger] map6(w, t, k)) is Some implies lst6(q, k) by {
        let i = l_has6(mm, m, r, k);
        assert(q[q4.len() + i] == q6[i]);
    }
}
pub proof fn l_push_pair(hn0: MN, hn1: MN, s: Seq<@PT@>, q: Seq<It>, p: @PT@, i: It)
    requires pairs_are(hn0, s, q), extnet(hn0, hn1), pair_is(hn1, p, i),
    ensures pairs_are(hn1, s.push(p), q.push(i)),
{
    reveal(pairs_are);
    assert forall|j: int| 0 <= j < s.push(p).len() implies pair_is(hn1, #[trigger] s.push(p)[j], q.push(i)[j]) by {
        if j < s.len() { assert(pair_is(hn0, s[j], q[j])); }
    }
}
pub proof fn l_no_pairs(hn: MN, s: Seq<@PT@>, q: Seq<It>)
    requires s.len() == 0, q.len() == 0,
    ensures pairs_are(hn, s, q),
{
    reveal(pairs_are);
}
// s are the leaves of a valid tree
#[verifier::opaque]
pub open spec fn leafs32(m: M32, r: Ref, s: Seq<Ref>) -> bool { wf32(m, r) && s == leaves32(tree32(m, r)) }
#[verifier::opaque]
pub open spec fn leafs64(m: M64, r: Ref, s: Seq<Ref>) -> bool { wf64(m, r) && s == leaves64(tree64(m, r)) }
#[verifier::opaque]
pub open spec fn leafs6(mm: MS, m: M64, r: Ref, s: Seq<Ref>) -> bool { ok6(mm, m, r) && s == leavess(trees(mm, r)) }

pub proof fn l_leaf32(m: M32, r: Ref, s: Seq<Ref>, i: int)
    requires leafs32(m, r, s), 0 <= i < s.len(),
    ensures s[i] != NIL, m.contains_key(s[i]), 0 <= m[s[i]].bits <= 32,
{
    reveal(leafs32);
    l_leaves_ok32(m, r);
}
pub proof fn l_leaf64(m: M64, r: Ref, s: Seq<Ref>, i: int)
    requires leafs64(m, r, s), 0 <= i < s.len(),
    ensures s[i] != NIL, m.contains_key(s[i]), 0 <= m[s[i]].bits <= 64, get64(m, r, m[s[i]].key, m[s[i]].bits as int) == Some(m[s[i]].value),
{
    reveal(leafs64);
    l_leaves_ok64(m, r);
}
pub proof fn l_leaf6(mm: MS, m: M64, r: Ref, s: Seq<Ref>, i: int)
    requires leafs6(mm, m, r, s), 0 <= i < s.len(),
    ensures s[i] != NIL, mm.contains_key(s[i]), 0 <= mm[s[i]].bits <= 64,
        mm[s[i]].bits < 64 ==> only0(m, mm[s[i]].value),
        wf64(m, mm[s[i]].value), leafs64(m, mm[s[i]].value, leaves64(tree64(m, mm[s[i]].value))),
        gets(mm, r, mm[s[i]].key, mm[s[i]].bits as int) == Some(mm[s[i]].value),
{
    reveal(leafs6);
    reveal(leafs64);
    l_leaves_oks(mm, r);
    assert(storeds(mm, r, s));
    assert(gets(mm, r, mm[s[i]].key, mm[s[i]].bits as int) is Some);
    l_lvl6(mm, m, r, mm[s[i]].key, mm[s[i]].bits as int);
}
pub open spec fn wof(h: Heap) -> W { W { m32: h.@S32@@, mm: h.@S64S@@, m: h.@S64@@, tm: h.@TS@@ } }
