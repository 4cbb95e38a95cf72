// Abstract radix trees over the heap of @S@ nodes.
pub enum T@X@ {
    E,
    N { r: Ref, key: @K@, b: int, leaf: bool, val: @VT@, l: Box<T@X@>, rt: Box<T@X@> },
}

pub open spec fn root@X@(t: T@X@) -> Ref { match t { T@X@::E => NIL, T@X@::N { r, .. } => r } }
pub open spec fn child@X@(t: T@X@, i: int) -> T@X@ { if i == 0 { *t->l } else { *t->rt } }

// the node r of memory m is the root of the abstract tree t
pub open spec fn repr@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@) -> bool
    decreases t,
{
    match t {
        T@X@::E => r == NIL,
        T@X@::N { r: n, key, b, leaf, val, l, rt } => {
            &&& r == n && r != NIL && m.contains_key(r)
            &&& m[r].@KEY@ == key && m[r].@BITS@ == b && m[r].@LEAF@ == leaf && m[r].@VAL@ == val
            &&& repr@X@(m, m[r].chld.a, *l)
            &&& repr@X@(m, m[r].chld.b, *rt)
        },
    }
}

pub open spec fn fp@X@(t: T@X@) -> Set<Ref>
    decreases t,
{
    match t {
        T@X@::E => Set::empty(),
        T@X@::N { r, l, rt, .. } => fp@X@(*l).union(fp@X@(*rt)).insert(r),
    }
}

// c hangs below a node (key, b) on side i
pub open spec fn under@X@(c: T@X@, key: @K@, b: int, i: int) -> bool {
    c is N ==> c->b > b && agree@B@(c->key, key, b) && bitat@B@(c->key, b) == i
}

// representation invariant of a radix tree: prefixes nest, branches follow the key bits,
// inner nodes without data have both children (canonical shape)
pub open spec fn twf@X@(t: T@X@) -> bool
    decreases t,
{
    match t {
        T@X@::E => true,
        T@X@::N { r, key, b, leaf, val, l, rt } => {
            &&& 0 <= b <= @W@
            &&& under@X@(*l, key, b, 0) && under@X@(*rt, key, b, 1)
            &&& !leaf ==> (*l) is N && (*rt) is N
            &&& twf@X@(*l) && twf@X@(*rt)
        },
    }
}

pub open spec fn tree@X@(m: Map<Ref, @S@>, r: Ref) -> T@X@ { choose|t: T@X@| repr@X@(m, r, t) }

// valid tree at r
pub open spec fn wf@X@(m: Map<Ref, @S@>, r: Ref) -> bool { repr@X@(m, r, tree@X@(m, r)) && twf@X@(tree@X@(m, r)) }

// the value stored for exactly the prefix (k, b)
pub open spec fn find@X@(t: T@X@, k: @K@, b: int) -> Option<@VT@>
    decreases t,
{
    match t {
        T@X@::E => None,
        T@X@::N { key, b: nb, leaf, val, l, rt, .. } =>
            if leaf && nb == b && agree@B@(key, k, b) { Some(val) }
            else { match find@X@(*l, k, b) { Some(v) => Some(v), None => find@X@(*rt, k, b) } },
    }
}

// the content of the tree at r: prefix -> value
pub open spec fn get@X@(m: Map<Ref, @S@>, r: Ref, k: @K@, b: int) -> Option<@VT@> { find@X@(tree@X@(m, r), k, b) }

// the longest stored prefix of (k, d): its length, or -1
pub open spec fn lpmlen@X@(t: T@X@, k: @K@, d: int) -> int
    decreases d + 1,
{
    if d < 0 { -1 } else if find@X@(t, k, d) is Some { d } else { lpmlen@X@(t, k, d - 1) }
}
pub open spec fn lpm@X@(m: Map<Ref, @S@>, r: Ref, k: @K@, d: int) -> Option<@VT@> {
    let n = lpmlen@X@(tree@X@(m, r), k, d);
    if n < 0 { None } else { get@X@(m, r, k, n) }
}

pub open spec fn clamp@X@(b: int) -> int { if b < 0 { 0 } else if b > @W@ { @W@ } else { b } }

// (k, b) is the prefix (ck, cb)
pub open spec fn same@X@(k: @K@, b: int, ck: @K@, cb: int) -> bool { b == cb && agree@B@(k, ck, b) }
// (k, b) is contained in (ck, cb)
pub open spec fn within@X@(k: @K@, b: int, ck: @K@, cb: int) -> bool { b >= cb && agree@B@(k, ck, cb) }

// ------------------------------------------------------------ memory lemmas

// every old object is still there, unchanged
pub open spec fn ext@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}
// ... except c
pub open spec fn extx@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: Ref) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && (r != c ==> m1[r] == m0[r])
}

pub broadcast proof fn l_unique@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires #[trigger] repr@X@(m, r, t),
    ensures tree@X@(m, r) == t,
{
    l_unique2@X@(m, r, t, tree@X@(m, r));
}

pub proof fn l_unique2@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, u: T@X@)
    requires repr@X@(m, r, t), repr@X@(m, r, u),
    ensures t == u,
    decreases t,
{
    if t is N && u is N {
        l_unique2@X@(m, m[r].chld.a, *t->l, *u->l);
        l_unique2@X@(m, m[r].chld.b, *t->rt, *u->rt);
    }
}

pub proof fn l_fp_cases@X@(t: T@X@, x: Ref)
    requires t is N,
    ensures fp@X@(t).contains(x) <==> x == t->r || fp@X@(*t->l).contains(x) || fp@X@(*t->rt).contains(x),
{
}

pub proof fn l_fp_dom@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires repr@X@(m, r, t),
    ensures forall|x: Ref| #[trigger] fp@X@(t).contains(x) ==> m.contains_key(x) && x != NIL,
    decreases t,
{
    if t is N {
        l_fp_dom@X@(m, m[r].chld.a, *t->l);
        l_fp_dom@X@(m, m[r].chld.b, *t->rt);
        assert forall|x: Ref| #[trigger] fp@X@(t).contains(x) implies m.contains_key(x) && x != NIL by {
            l_fp_cases@X@(t, x);
            if fp@X@(*t->l).contains(x) { } else if fp@X@(*t->rt).contains(x) { }
        }
    }
}

// a tree survives any change outside its footprint
pub proof fn l_frame@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires
        repr@X@(m0, r, t),
        forall|x: Ref| #[trigger] fp@X@(t).contains(x) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures repr@X@(m1, r, t),
    decreases t,
{
    if t is N {
        assert(fp@X@(t).contains(r));
        assert forall|x: Ref| #[trigger] fp@X@(*t->l).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp@X@(t).contains(x)); }
        assert forall|x: Ref| #[trigger] fp@X@(*t->rt).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp@X@(t).contains(x)); }
        l_frame@X@(m0, m1, m0[r].chld.a, *t->l);
        l_frame@X@(m0, m1, m0[r].chld.b, *t->rt);
    }
}

pub proof fn l_frame_ext@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref, t: T@X@, c: Ref)
    requires repr@X@(m0, r, t), extx@X@(m0, m1, c), !fp@X@(t).contains(c),
    ensures repr@X@(m1, r, t),
{
    l_fp_dom@X@(m0, r, t);
    l_frame@X@(m0, m1, r, t);
}

// persistence: a memory extension keeps every tree
pub proof fn l_persist@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref)
    requires wf@X@(m0, r), ext@X@(m0, m1),
    ensures wf@X@(m1, r), tree@X@(m1, r) == tree@X@(m0, r),
{
    let t = tree@X@(m0, r);
    l_fp_dom@X@(m0, r, t);
    l_frame@X@(m0, m1, r, t);
    l_unique@X@(m1, r, t);
}

pub open spec fn side@X@(t: T@X@, key: @K@, b: int, i: int, m: Map<Ref, @S@>) -> bool {
    forall|x: Ref| #[trigger] fp@X@(t).contains(x) ==> m[x].@BITS@ > b && m[x].@BITS@ <= @W@ && agree@B@(m[x].@KEY@, key, b) && bitat@B@(m[x].@KEY@, b) == i
}

// all nodes below carry the prefix
pub proof fn l_side@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, key: @K@, b: int, i: int)
    requires repr@X@(m, r, t), twf@X@(t), under@X@(t, key, b, i), 0 <= b < @W@ || t is E,
    ensures side@X@(t, key, b, i, m),
    decreases t,
{
    if t is N {
        l_sub_under@X@(*t->l, t->key, t->b, 0, key, b, i);
        l_sub_under@X@(*t->rt, t->key, t->b, 1, key, b, i);
        l_side@X@(m, m[r].chld.a, *t->l, key, b, i);
        l_side@X@(m, m[r].chld.b, *t->rt, key, b, i);
        assert forall|x: Ref| #[trigger] fp@X@(t).contains(x) implies m[x].@BITS@ > b && m[x].@BITS@ <= @W@ && agree@B@(m[x].@KEY@, key, b) && bitat@B@(m[x].@KEY@, b) == i by {
            l_fp_cases@X@(t, x);
            if fp@X@(*t->l).contains(x) { } else if fp@X@(*t->rt).contains(x) { }
        }
    }
}

pub proof fn l_sub_under@X@(c: T@X@, k1: @K@, b1: int, i1: int, key: @K@, b: int, i: int)
    requires twf@X@(c), under@X@(c, k1, b1, i1), 0 <= b < b1 <= @W@, agree@B@(k1, key, b), bitat@B@(k1, b) == i,
    ensures under@X@(c, key, b, i),
{
    if c is N {
        l_agree_le@B@(c->key, k1, b1, b);
        l_agree_bit@B@(c->key, k1, b1, b);
    }
}

// the two subtrees and the root are disjoint
pub proof fn l_nodup@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires repr@X@(m, r, t), twf@X@(t), t is N,
    ensures
        !fp@X@(*t->l).contains(r), !fp@X@(*t->rt).contains(r),
        fp@X@(*t->l).disjoint(fp@X@(*t->rt)),
{
    if t->b < @W@ {
        l_side@X@(m, m[r].chld.a, *t->l, t->key, t->b, 0);
        l_side@X@(m, m[r].chld.b, *t->rt, t->key, t->b, 1);
    }
    else {
        assert(twf@X@(*t->l) && twf@X@(*t->rt));
        assert(*t->l is E);
        assert(*t->rt is E);
    }
    assert(!fp@X@(*t->l).contains(r)) by { if fp@X@(*t->l).contains(r) { assert(m[r].@BITS@ > t->b); } }
    assert(!fp@X@(*t->rt).contains(r)) by { if fp@X@(*t->rt).contains(r) { assert(m[r].@BITS@ > t->b); } }
    assert forall|x: Ref| !(#[trigger] fp@X@(*t->l).contains(x) && fp@X@(*t->rt).contains(x)) by {
        if fp@X@(*t->l).contains(x) && fp@X@(*t->rt).contains(x) { assert(bitat@B@(m[x].@KEY@, t->b) == 0); }
    }
    assert(fp@X@(*t->l).disjoint(fp@X@(*t->rt)));
}

// ------------------------------------------------------------ content lemmas

// whatever is found in a tree lies within the root's prefix
pub proof fn l_find_in@X@(t: T@X@, k: @K@, b: int)
    requires twf@X@(t), find@X@(t, k, b) is Some,
    ensures t is N, t->b <= b <= @W@, agree@B@(t->key, k, t->b),
    decreases t,
{
    if t->leaf && t->b == b && agree@B@(t->key, k, b) {
    } else if find@X@(*t->l, k, b) is Some {
        l_find_in@X@(*t->l, k, b);
        l_agree_le@B@((*t->l)->key, k, (*t->l)->b, t->b);
    } else {
        l_find_in@X@(*t->rt, k, b);
        l_agree_le@B@((*t->rt)->key, k, (*t->rt)->b, t->b);
    }
}

// a key is found only below the branch its bit selects
pub proof fn l_find_side@X@(t: T@X@, k: @K@, b: int)
    requires twf@X@(t), t is N,
    ensures
        b <= t->b ==> find@X@(*t->l, k, b) is None && find@X@(*t->rt, k, b) is None,
        !agree@B@(t->key, k, t->b) ==> find@X@(t, k, b) is None && find@X@(*t->l, k, b) is None && find@X@(*t->rt, k, b) is None,
        b > t->b ==> find@X@(child@X@(t, 1 - bitat@B@(k, t->b)), k, b) is None,
        b > t->b ==> find@X@(t, k, b) == find@X@(child@X@(t, bitat@B@(k, t->b)), k, b),
{
    l_bit@B@(k, t->b);
    if find@X@(*t->l, k, b) is Some {
        l_find_in@X@(*t->l, k, b);
        l_agree_le@B@((*t->l)->key, k, (*t->l)->b, t->b);
        l_agree_bit@B@((*t->l)->key, k, (*t->l)->b, t->b);
    }
    if find@X@(*t->rt, k, b) is Some {
        l_find_in@X@(*t->rt, k, b);
        l_agree_le@B@((*t->rt)->key, k, (*t->rt)->b, t->b);
        l_agree_bit@B@((*t->rt)->key, k, (*t->rt)->b, t->b);
    }
    if find@X@(t, k, b) is Some {
        l_find_in@X@(t, k, b);
    }
}

// agreement beyond the node's prefix transfers the question to agreement of keys
pub proof fn l_agree_trans@X@(a: @K@, b: @K@, c: @K@, n: int)
    requires agree@B@(a, b, n), agree@B@(b, c, n),
    ensures agree@B@(a, c, n),
{
}

// every nonempty tree stores something, within its root prefix
pub proof fn l_some@X@(t: T@X@) -> (w: (@K@, int))
    requires twf@X@(t), t is N,
    ensures find@X@(t, w.0, w.1) is Some, t->b <= w.1 <= @W@, agree@B@(t->key, w.0, t->b),
    decreases t,
{
    if t->leaf {
        (t->key, t->b)
    } else {
        let w = l_some@X@(*t->l);
        l_agree_le@B@((*t->l)->key, w.0, (*t->l)->b, t->b);
        w
    }
}

// lpmlen: basic facts
pub proof fn l_lpm_max@X@(t: T@X@, k: @K@, d: int)
    ensures
        -1 <= lpmlen@X@(t, k, d), d >= 0 ==> lpmlen@X@(t, k, d) <= d,
        lpmlen@X@(t, k, d) >= 0 ==> find@X@(t, k, lpmlen@X@(t, k, d)) is Some,
        forall|b: int| lpmlen@X@(t, k, d) < b <= d && b >= 0 ==> #[trigger] find@X@(t, k, b) is None,
    decreases d + 1,
{
    if d >= 0 && find@X@(t, k, d) is None {
        l_lpm_max@X@(t, k, d - 1);
    }
}

pub proof fn l_lpm_is@X@(t: T@X@, k: @K@, d: int, n: int)
    requires
        -1 <= n <= d,
        n >= 0 ==> find@X@(t, k, n) is Some,
        forall|b: int| n < b <= d && b >= 0 ==> #[trigger] find@X@(t, k, b) is None,
    ensures lpmlen@X@(t, k, d) == n,
    decreases d + 1,
{
    if d >= 0 && d > n {
        assert(find@X@(t, k, d) is None);
        l_lpm_is@X@(t, k, d - 1, n);
    }
}

// matching at a node: nothing, the node, or whatever the branch gives
pub proof fn l_match@X@(t: T@X@, k: @K@, d: int)
    requires twf@X@(t), t is N, 0 <= d <= @W@,
    ensures
        t->b > d || !agree@B@(t->key, k, t->b) ==> lpmlen@X@(t, k, d) == -1,
        t->b <= d && agree@B@(t->key, k, t->b) ==> {
            let c = child@X@(t, bitat@B@(k, t->b));
            let n = lpmlen@X@(c, k, d);
            if t->b < d && n >= 0 { lpmlen@X@(t, k, d) == n && find@X@(t, k, n) == find@X@(c, k, n) }
            else if t->leaf { lpmlen@X@(t, k, d) == t->b && find@X@(t, k, t->b) == Some(t->val) }
            else { lpmlen@X@(t, k, d) == -1 }
        },
        t is E ==> lpmlen@X@(t, k, d) == -1,
{
    if t->b > d || !agree@B@(t->key, k, t->b) {
        assert forall|b: int| -1 < b <= d && b >= 0 implies #[trigger] find@X@(t, k, b) is None by {
            if find@X@(t, k, b) is Some { l_find_in@X@(t, k, b); }
        }
        l_lpm_is@X@(t, k, d, -1);
    } else {
        let i = bitat@B@(k, t->b);
        l_bit@B@(k, t->b);
        let c = child@X@(t, i);
        let n = lpmlen@X@(c, k, d);
        l_lpm_max@X@(c, k, d);
        if n >= 0 { l_find_in@X@(c, k, n); }
        assert forall|b: int| t->b < b <= d implies #[trigger] find@X@(t, k, b) == find@X@(c, k, b) by { l_find_side@X@(t, k, b); }
        assert forall|b: int| 0 <= b < t->b implies #[trigger] find@X@(t, k, b) is None by {
            if find@X@(t, k, b) is Some { l_find_in@X@(t, k, b); }
        }
        l_find_side@X@(t, k, t->b);
        if t->b < d && n >= 0 {
            l_lpm_is@X@(t, k, d, n);
        } else if t->leaf {
            l_lpm_is@X@(t, k, d, t->b);
        } else {
            l_lpm_is@X@(t, k, d, -1);
        }
    }
}

pub proof fn l_lpm_empty@X@(k: @K@, d: int)
    ensures lpmlen@X@(T@X@::E, k, d) == -1,
    decreases d + 1,
{
    if d >= 0 { l_lpm_empty@X@(k, d - 1); }
}

// a write or an allocation outside the footprint keeps the tree
pub broadcast proof fn l_upd@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, x: Ref, v: @S@)
    requires repr@X@(m, r, t), !fp@X@(t).contains(x),
    ensures #![trigger repr@X@(m, r, t), m.insert(x, v)] repr@X@(m.insert(x, v), r, t),
{
    l_fp_dom@X@(m, r, t);
    l_frame@X@(m, m.insert(x, v), r, t);
}

pub broadcast proof fn l_fp_key@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, x: Ref)
    requires #[trigger] repr@X@(m, r, t), #[trigger] fp@X@(t).contains(x),
    ensures m.contains_key(x), x != NIL,
{
    l_fp_dom@X@(m, r, t);
}

pub broadcast proof fn l_extx@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref, t: T@X@, c: Ref)
    requires #[trigger] repr@X@(m0, r, t), #[trigger] extx@X@(m0, m1, c), !fp@X@(t).contains(c),
    ensures repr@X@(m1, r, t),
{
    l_frame_ext@X@(m0, m1, r, t, c);
}

pub broadcast proof fn l_ext@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires #[trigger] repr@X@(m0, r, t), #[trigger] ext@X@(m0, m1),
    ensures repr@X@(m1, r, t),
{
    l_fp_dom@X@(m0, r, t);
    l_frame@X@(m0, m1, r, t);
}

// the tree at r, opened
pub proof fn l_open@X@(m: Map<Ref, @S@>, r: Ref)
    requires wf@X@(m, r),
    ensures
        r == NIL <==> tree@X@(m, r) is E,
        r != NIL ==> {
            let t = tree@X@(m, r);
            &&& m.contains_key(r) && t is N
            &&& t == (T@X@::N { r, key: m[r].@KEY@, b: m[r].@BITS@ as int, leaf: m[r].@LEAF@, val: m[r].@VAL@, l: t->l, rt: t->rt })
            &&& 0 <= m[r].@BITS@ <= @W@
            &&& wf@X@(m, m[r].chld.a) && wf@X@(m, m[r].chld.b)
            &&& tree@X@(m, m[r].chld.a) == *t->l && tree@X@(m, m[r].chld.b) == *t->rt
            &&& repr@X@(m, m[r].chld.a, *t->l) && repr@X@(m, m[r].chld.b, *t->rt)
            &&& !fp@X@(*t->l).contains(r) && !fp@X@(*t->rt).contains(r)
            &&& fp@X@(*t->l).disjoint(fp@X@(*t->rt))
        },
{
    let t = tree@X@(m, r);
    assert(repr@X@(m, r, t));
    if r != NIL {
        l_unique@X@(m, m[r].chld.a, *t->l);
        l_unique@X@(m, m[r].chld.b, *t->rt);
        l_nodup@X@(m, r, t);
    }
}

// ------------------------------------------------------------ insertion

pub open spec fn upd@X@(t2: T@X@, t: T@X@, ck: @K@, cb: int, v: @VT@) -> bool {
    forall|k: @K@, b: int| (#[trigger] find@X@(t2, k, b)) == if same@X@(k, b, ck, cb) { Some(v) } else { find@X@(t, k, b) }
}

// t lies within the first d bits of k
pub open spec fn cov@X@(t: T@X@, k: @K@, d: int) -> bool { t is N && d <= t->b && agree@B@(t->key, k, d) }

// t2 lies wherever t and (k, b) lie
pub open spec fn keeps@X@(t: T@X@, k: @K@, b: int, t2: T@X@) -> bool {
    &&& t2 is N
    &&& forall|d: int| 0 <= d <= b && (t is N ==> cov@X@(t, k, d)) ==> #[trigger] cov@X@(t2, k, d)
}

pub open spec fn leafof@X@(t: T@X@, k: @K@, b: int, v: @VT@) -> bool {
    t is N && t->key == k && t->b == b && t->leaf && t->val == v && *t->l is E && *t->rt is E
}

// t2 is t after an insertion of (k, b) -> v at its root
pub open spec fn ins_step@X@(t: T@X@, k: @K@, b: int, v: @VT@, t2: T@X@) -> bool {
    ||| t is E && leafof@X@(t2, k, b, v)
    ||| t is N && t2 is N && {
        ||| b < t->b && agree@B@(t->key, k, b) && t2->key == k && t2->b == b && t2->leaf && t2->val == v
            && child@X@(t2, bitat@B@(t->key, b)) == t && child@X@(t2, 1 - bitat@B@(t->key, b)) is E
        ||| b == t->b && agree@B@(t->key, k, b) && t2->key == k && t2->b == b && t2->leaf && t2->val == v && t2->l == t->l && t2->rt == t->rt
        ||| b > t->b && agree@B@(t->key, k, t->b) && t2->key == t->key && t2->b == t->b && t2->leaf == t->leaf && t2->val == t->val
            && child@X@(t2, 1 - bitat@B@(k, t->b)) == child@X@(t, 1 - bitat@B@(k, t->b))
            && ins_ok@X@(child@X@(t, bitat@B@(k, t->b)), k, b, v, child@X@(t2, bitat@B@(k, t->b)))
        ||| 0 <= t2->b < t->b && t2->b < b && !t2->leaf && agree@B@(t->key, k, t2->b) && agree@B@(t2->key, k, t2->b)
            && bitat@B@(t->key, t2->b) != bitat@B@(k, t2->b)
            && child@X@(t2, bitat@B@(t->key, t2->b)) == t && leafof@X@(child@X@(t2, bitat@B@(k, t2->b)), k, b, v)
    }
}

pub open spec fn ins_ok@X@(t: T@X@, k: @K@, b: int, v: @VT@, t2: T@X@) -> bool {
    twf@X@(t2) && upd@X@(t2, t, k, b, v) && keeps@X@(t, k, b, t2)
}

pub proof fn l_ins@X@(t: T@X@, k: @K@, b: int, v: @VT@, t2: T@X@)
    requires twf@X@(t), 0 <= b <= @W@, ins_step@X@(t, k, b, v, t2),
    ensures ins_ok@X@(t, k, b, v, t2),
{
    broadcast use l_bit@B@;
    assert(twf@X@(T@X@::E));
    if t is E {
        assert forall|d: int| 0 <= d <= b implies #[trigger] cov@X@(t2, k, d) by {}
    } else if b < t->b && agree@B@(t->key, k, b) && t2->key == k && t2->b == b && t2->leaf && t2->val == v
            && child@X@(t2, bitat@B@(t->key, b)) == t && child@X@(t2, 1 - bitat@B@(t->key, b)) is E {
        assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if same@X@(kk, bb, k, b) { Some(v) } else { find@X@(t, kk, bb) } by {
            if same@X@(kk, bb, k, b) {
                assert(agree@B@(t2->key, kk, bb));
            } else {
                assert(find@X@(T@X@::E, kk, bb) is None);
            }
        }
    } else if b == t->b && agree@B@(t->key, k, b) && t2->key == k && t2->b == b && t2->leaf && t2->val == v && t2->l == t->l && t2->rt == t->rt {
        l_under_agree@X@(*t->l, t->key, t->b, 0, k);
        l_under_agree@X@(*t->rt, t->key, t->b, 1, k);
        assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if same@X@(kk, bb, k, b) { Some(v) } else { find@X@(t, kk, bb) } by {
        }
    } else if b > t->b && agree@B@(t->key, k, t->b) && t2->key == t->key && t2->b == t->b && t2->leaf == t->leaf && t2->val == t->val
            && child@X@(t2, 1 - bitat@B@(k, t->b)) == child@X@(t, 1 - bitat@B@(k, t->b))
            && ins_ok@X@(child@X@(t, bitat@B@(k, t->b)), k, b, v, child@X@(t2, bitat@B@(k, t->b))) {
        let i = bitat@B@(k, t->b);
        let c = child@X@(t, i);
        let c2 = child@X@(t2, i);
        assert(keeps@X@(c, k, b, c2));
        let d1 = t->b + 1;
        assert(c is N ==> cov@X@(c, k, d1)) by {
            if c is N {
                assert(under@X@(c, t->key, t->b, i));
                l_agree_step@B@(c->key, k, t->b);
            }
        }
        assert(cov@X@(c2, k, d1));
        l_agree_step@B@(c2->key, k, t->b);
        assert(under@X@(c2, t->key, t->b, i));
        assert(twf@X@(t2));
        assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if same@X@(kk, bb, k, b) { Some(v) } else { find@X@(t, kk, bb) } by {
            assert(find@X@(c2, kk, bb) == if same@X@(kk, bb, k, b) { Some(v) } else { find@X@(c, kk, bb) });
            if same@X@(kk, bb, k, b) {
                l_agree_le@B@(kk, k, b, t->b);
                l_agree_bit@B@(kk, k, b, t->b);
                l_find_side@X@(t2, kk, bb);
            } else {
            }
        }
        assert forall|d: int| 0 <= d <= b && cov@X@(t, k, d) implies #[trigger] cov@X@(t2, k, d) by {}
    } else {
        let z = t2->b;
        let i = bitat@B@(t->key, z);
        let cc = child@X@(t2, 1 - i);
        assert(bitat@B@(k, z) == 1 - i);
        assert(under@X@(t, t2->key, z, i));
        assert(under@X@(cc, t2->key, z, 1 - i));
        assert(twf@X@(*cc->l));
        assert(twf@X@(cc));
        assert(twf@X@(t2));
        assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if same@X@(kk, bb, k, b) { Some(v) } else { find@X@(t, kk, bb) } by {
            assert(find@X@(*cc->l, kk, bb) is None);
            assert(find@X@(cc, kk, bb) == if same@X@(kk, bb, k, b) { Some(v) } else { None });
            if same@X@(kk, bb, k, b) {
                l_agree_bit@B@(kk, k, b, z);
                l_agree_le@B@(kk, k, b, z);
                l_find_side@X@(t2, kk, bb);
            } else {
            }
        }
        assert(t2 is N && t is N);
        assert forall|d: int| 0 <= d <= b && cov@X@(t, k, d) implies #[trigger] cov@X@(t2, k, d) by {
            if d > z { l_agree_bit@B@(t->key, k, d, z); }
            l_agree_le@B@(t2->key, k, z, d);
        }
    }
}

pub proof fn l_under_agree@X@(c: T@X@, k1: @K@, b: int, i: int, k2: @K@)
    requires under@X@(c, k1, b, i), agree@B@(k1, k2, b),
    ensures under@X@(c, k2, b, i),
{
}

// ------------------------------------------------------------ deletion

pub open spec fn anyin@X@(t: T@X@, k: @K@, b: int) -> bool {
    exists|kk: @K@, bb: int| within@X@(kk, bb, k, b) && (#[trigger] find@X@(t, kk, bb)) is Some
}

pub open spec fn rem@X@(t2: T@X@, t: T@X@, ck: @K@, cb: int) -> bool {
    forall|k: @K@, b: int| (#[trigger] find@X@(t2, k, b)) == if within@X@(k, b, ck, cb) { None } else { find@X@(t, k, b) }
}

pub open spec fn shrinks@X@(t: T@X@, t2: T@X@) -> bool {
    t2 is N ==> t is N && t2->b >= t->b && agree@B@(t2->key, t->key, t->b)
}

pub open spec fn del_ok@X@(t: T@X@, k: @K@, b: int, t2: T@X@, ok: bool) -> bool {
    twf@X@(t2) && rem@X@(t2, t, k, b) && shrinks@X@(t, t2) && ok == anyin@X@(t, k, b)
}

pub open spec fn del_step@X@(t: T@X@, k: @K@, b: int, t2: T@X@, ok: bool) -> bool {
    ||| t is E && t2 is E && !ok
    ||| t is N && {
        ||| b <= t->b && agree@B@(t->key, k, b) && t2 is E && ok
        ||| b <= t->b && !agree@B@(t->key, k, b) && t2 == t && !ok
        ||| b > t->b && !agree@B@(t->key, k, t->b) && t2 == t && !ok
        ||| b > t->b && agree@B@(t->key, k, t->b) && {
            let i = bitat@B@(k, t->b);
            ||| child@X@(t, i) is E && t2 == t && !ok
            ||| t2 == t && !ok && !anyin@X@(child@X@(t, i), k, b)
            ||| !t->leaf && t2 == child@X@(t, 1 - i) && ok && del_ok@X@(child@X@(t, i), k, b, T@X@::E, true)
            ||| ok && t2 is N && t2->key == t->key && t2->b == t->b && t2->leaf == t->leaf && t2->val == t->val
                && child@X@(t2, 1 - i) == child@X@(t, 1 - i) && (t->leaf || child@X@(t2, i) is N)
                && del_ok@X@(child@X@(t, i), k, b, child@X@(t2, i), true)
        }
    }
}

pub proof fn l_del@X@(t: T@X@, k: @K@, b: int, t2: T@X@, ok: bool)
    requires twf@X@(t), 0 <= b <= @W@, del_step@X@(t, k, b, t2, ok),
    ensures del_ok@X@(t, k, b, t2, ok),
{
    broadcast use l_bit@B@;
    assert(twf@X@(T@X@::E));
    if t is E {
    } else if b <= t->b {
        if agree@B@(t->key, k, b) {
            let w = l_some@X@(t);
            l_agree_le@B@(w.0, t->key, t->b, b);
            assert(within@X@(w.0, w.1, k, b));
            assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if within@X@(kk, bb, k, b) { None } else { find@X@(t, kk, bb) } by {
                if find@X@(t, kk, bb) is Some {
                    l_find_in@X@(t, kk, bb);
                    l_agree_le@B@(kk, t->key, t->b, b);
                }
            }
        } else {
            assert forall|kk: @K@, bb: int| within@X@(kk, bb, k, b) implies #[trigger] find@X@(t, kk, bb) is None by {
                if find@X@(t, kk, bb) is Some {
                    l_find_in@X@(t, kk, bb);
                    l_agree_le@B@(kk, t->key, t->b, b);
                }
            }
        }
    } else if !agree@B@(t->key, k, t->b) {
        assert forall|kk: @K@, bb: int| within@X@(kk, bb, k, b) implies #[trigger] find@X@(t, kk, bb) is None by {
            if find@X@(t, kk, bb) is Some {
                l_find_in@X@(t, kk, bb);
                l_agree_le@B@(kk, k, b, t->b);
            }
        }
    } else {
        let i = bitat@B@(k, t->b);
        let c = child@X@(t, i);
        let o = child@X@(t, 1 - i);
        assert forall|kk: @K@, bb: int| within@X@(kk, bb, k, b) implies
            (#[trigger] find@X@(t, kk, bb)) == find@X@(c, kk, bb) && find@X@(o, kk, bb) is None && !(t->leaf && t->b == bb && agree@B@(t->key, kk, bb)) by {
            l_agree_le@B@(kk, k, b, t->b);
            l_agree_bit@B@(kk, k, b, t->b);
            l_find_side@X@(t, kk, bb);
        }
        if t2 == t && !ok {
            assert(!anyin@X@(c, k, b)) by {
                if c is E { assert forall|kk: @K@, bb: int| (#[trigger] find@X@(c, kk, bb)) is None by {} }
            }
            assert forall|kk: @K@, bb: int| within@X@(kk, bb, k, b) implies #[trigger] find@X@(t, kk, bb) is None by {
                assert(find@X@(c, kk, bb) is None);
            }
        } else {
            assert(anyin@X@(c, k, b));
            let (wk, wb) = choose|wk: @K@, wb: int| within@X@(wk, wb, k, b) && (#[trigger] find@X@(c, wk, wb)) is Some;
            assert(find@X@(t, wk, wb) is Some);
            if t2 == o && !t->leaf && del_ok@X@(c, k, b, T@X@::E, true) {
                assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if within@X@(kk, bb, k, b) { None } else { find@X@(t, kk, bb) } by {
                    assert(find@X@(T@X@::E, kk, bb) == if within@X@(kk, bb, k, b) { None } else { find@X@(c, kk, bb) });
                    if within@X@(kk, bb, k, b) {
                        assert(find@X@(t, kk, bb) == find@X@(c, kk, bb));
                    }
                }
            } else {
                let c2 = child@X@(t2, i);
                if c2 is N {
                    l_agree_le@B@(c2->key, c->key, c->b, t->b);
                    l_agree_bit@B@(c2->key, c->key, c->b, t->b);
                }
                assert(under@X@(c2, t->key, t->b, i));
                assert(twf@X@(t2));
                assert forall|kk: @K@, bb: int| (#[trigger] find@X@(t2, kk, bb)) == if within@X@(kk, bb, k, b) { None } else { find@X@(t, kk, bb) } by {
                    assert(find@X@(c2, kk, bb) == if within@X@(kk, bb, k, b) { None } else { find@X@(c, kk, bb) });
                    if within@X@(kk, bb, k, b) {
                        assert(find@X@(t, kk, bb) == find@X@(c, kk, bb));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------ in-place insertion

// the subtree d levels down on the path of k, and its replacement
pub open spec fn sub@X@(t: T@X@, k: @K@, d: nat) -> T@X@
    decreases d,
{
    if d == 0 { t } else if t is E { T@X@::E } else { sub@X@(child@X@(t, bitat@B@(k, t->b)), k, (d - 1) as nat) }
}

pub open spec fn put@X@(t: T@X@, k: @K@, d: nat, s: T@X@) -> T@X@
    decreases d,
{
    if d == 0 || t is E { s } else {
        let i = bitat@B@(k, t->b);
        let c = put@X@(child@X@(t, i), k, (d - 1) as nat, s);
        T@X@::N { r: t->r, key: t->key, b: t->b, leaf: t->leaf, val: t->val, l: if i == 0 { Box::new(c) } else { t->l }, rt: if i == 0 { t->rt } else { Box::new(c) } }
    }
}

pub open spec fn path@X@(t: T@X@, k: @K@, b: int, d: nat) -> bool
    decreases d,
{
    d == 0 || (t is N && t->b < b && agree@B@(t->key, k, t->b) && path@X@(child@X@(t, bitat@B@(k, t->b)), k, b, (d - 1) as nat))
}

// one step further down
pub proof fn l_sub_next@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, k: @K@, b: int, d: nat)
    requires repr@X@(m, r, t), twf@X@(t), path@X@(t, k, b, d), 0 <= b <= @W@,
    ensures
        repr@X@(m, root@X@(sub@X@(t, k, d)), sub@X@(t, k, d)), twf@X@(sub@X@(t, k, d)),
        fp@X@(sub@X@(t, k, d)).subset_of(fp@X@(t)),
        d == 0 ==> sub@X@(t, k, d) == t,
        sub@X@(t, k, d) is N ==> sub@X@(t, k, d + 1) == child@X@(sub@X@(t, k, d), bitat@B@(k, sub@X@(t, k, d)->b)),
        sub@X@(t, k, d) is N && sub@X@(t, k, d)->b < b && agree@B@(sub@X@(t, k, d)->key, k, sub@X@(t, k, d)->b) ==> path@X@(t, k, b, d + 1),
        d > 0 ==> sub@X@(t, k, (d - 1) as nat) is N && sub@X@(t, k, (d - 1) as nat)->b < b && agree@B@(sub@X@(t, k, (d - 1) as nat)->key, k, sub@X@(t, k, (d - 1) as nat)->b)
            && under@X@(sub@X@(t, k, d), sub@X@(t, k, (d - 1) as nat)->key, sub@X@(t, k, (d - 1) as nat)->b, bitat@B@(k, sub@X@(t, k, (d - 1) as nat)->b))
            && m.contains_key(root@X@(sub@X@(t, k, (d - 1) as nat)))
            && m[root@X@(sub@X@(t, k, (d - 1) as nat))].@BITS@ == sub@X@(t, k, (d - 1) as nat)->b
            && m[root@X@(sub@X@(t, k, (d - 1) as nat))].chld.at(bitat@B@(k, m[root@X@(sub@X@(t, k, (d - 1) as nat))].@BITS@ as int)) == root@X@(sub@X@(t, k, d))
            && !fp@X@(sub@X@(t, k, d)).contains(root@X@(sub@X@(t, k, (d - 1) as nat)))
            && fp@X@(t).contains(root@X@(sub@X@(t, k, (d - 1) as nat))),
    decreases d,
{
    broadcast use l_bit@B@;
    if d > 0 {
        let i = bitat@B@(k, t->b);
        let c = child@X@(t, i);
        l_nodup@X@(m, r, t);
        l_sub_next@X@(m, m[r].chld.at(i), c, k, b, (d - 1) as nat);
        assert(fp@X@(c).subset_of(fp@X@(t)));
        assert(sub@X@(t, k, d) == sub@X@(c, k, (d - 1) as nat));
        assert(sub@X@(t, k, d + 1) == sub@X@(c, k, d));
        if d > 1 {
            assert(sub@X@(t, k, (d - 1) as nat) == sub@X@(c, k, (d - 2) as nat));
        } else {
            assert(sub@X@(t, k, 0) == t);
            assert(sub@X@(t, k, 1) == sub@X@(c, k, 0));
            assert(sub@X@(c, k, 0) == c);
            assert(repr@X@(m, m[r].chld.at(i), c));
            assert(root@X@(c) == m[r].chld.at(i));
        }
    } else {
        if t is N {
            assert(sub@X@(t, k, 1) == sub@X@(child@X@(t, bitat@B@(k, t->b)), k, 0));
            assert(path@X@(child@X@(t, bitat@B@(k, t->b)), k, b, 0));
        }
    }
}

// memory after the replacement
pub proof fn l_put@X@(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref, t: T@X@, k: @K@, b: int, d: nat, s: T@X@)
    requires
        repr@X@(m0, r, t), twf@X@(t), path@X@(t, k, b, d), d > 0, 0 <= b <= @W@,
        repr@X@(m1, root@X@(s), s),
        forall|x: Ref| #[trigger] fp@X@(t).contains(x) && !fp@X@(sub@X@(t, k, d)).contains(x) && x != root@X@(sub@X@(t, k, (d - 1) as nat)) ==> m1.contains_key(x) && m1[x] == m0[x],
        ({
            let p = root@X@(sub@X@(t, k, (d - 1) as nat));
            m1.contains_key(p) && m1[p] == (@S@ { chld: m0[p].chld.put(bitat@B@(k, m0[p].@BITS@ as int), root@X@(s)), ..m0[p] })
        }),
    ensures repr@X@(m1, r, put@X@(t, k, d, s)),
    decreases d,
{
    broadcast use l_bit@B@;
    let i = bitat@B@(k, t->b);
    let c = child@X@(t, i);
    let o = child@X@(t, 1 - i);
    let p = root@X@(sub@X@(t, k, (d - 1) as nat));
    l_nodup@X@(m0, r, t);
    l_sub_next@X@(m0, m0[r].chld.at(i), c, k, b, (d - 1) as nat);
    assert(sub@X@(t, k, d) == sub@X@(c, k, (d - 1) as nat));
    assert(put@X@(c, k, 0, s) == s);
    assert forall|x: Ref| #[trigger] fp@X@(c).contains(x) implies fp@X@(t).contains(x) && x != r && !fp@X@(o).contains(x) by { l_fp_cases@X@(t, x); }
    assert forall|x: Ref| #[trigger] fp@X@(o).contains(x) implies fp@X@(t).contains(x) && x != r && !fp@X@(c).contains(x) by { l_fp_cases@X@(t, x); }
    if d == 1 {
        assert(sub@X@(t, k, 0) == t);
        assert forall|x: Ref| #[trigger] fp@X@(o).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by {
            assert(!fp@X@(sub@X@(t, k, d)).contains(x));
        }
        l_frame@X@(m0, m1, m0[r].chld.at(1 - i), o);
    } else {
        assert(sub@X@(t, k, (d - 1) as nat) == sub@X@(c, k, (d - 2) as nat));
        assert(fp@X@(t).contains(r));
        assert(fp@X@(c).contains(p));
        assert forall|x: Ref| #[trigger] fp@X@(o).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by {
            assert(!fp@X@(sub@X@(t, k, d)).contains(x));
        }
        l_frame@X@(m0, m1, m0[r].chld.at(1 - i), o);
        assert(!fp@X@(sub@X@(t, k, d)).contains(r));
        l_put@X@(m0, m1, m0[r].chld.at(i), c, k, b, (d - 1) as nat, s);
        assert(root@X@(put@X@(c, k, (d - 1) as nat, s)) == c->r);
    }
}

// content after the replacement
pub proof fn l_put_ok@X@(t: T@X@, k: @K@, b: int, v: @VT@, d: nat, s: T@X@)
    requires twf@X@(t), path@X@(t, k, b, d), 0 <= b <= @W@, ins_ok@X@(sub@X@(t, k, d), k, b, v, s),
    ensures ins_ok@X@(t, k, b, v, put@X@(t, k, d, s)),
    decreases d,
{
    broadcast use l_bit@B@;
    if d > 0 {
        let c = child@X@(t, bitat@B@(k, t->b));
        l_put_ok@X@(c, k, b, v, (d - 1) as nat, s);
        l_ins@X@(t, k, b, v, put@X@(t, k, d, s));
    }
}

// ------------------------------------------------------------ subtrees

pub proof fn l_put_fp@X@(t: T@X@, k: @K@, d: nat, s: T@X@, x: Ref)
    requires fp@X@(put@X@(t, k, d, s)).contains(x),
    ensures fp@X@(t).contains(x) || fp@X@(s).contains(x),
    decreases d,
{
    if d > 0 && t is N {
        l_fp_cases@X@(t, x);
        l_fp_cases@X@(put@X@(t, k, d, s), x);
        if fp@X@(put@X@(child@X@(t, bitat@B@(k, t->b)), k, (d - 1) as nat, s)).contains(x) {
            l_put_fp@X@(child@X@(t, bitat@B@(k, t->b)), k, (d - 1) as nat, s, x);
        }
    }
}

pub proof fn l_sub_fp@X@(t: T@X@, k: @K@, d: nat, x: Ref)
    ensures fp@X@(sub@X@(t, k, d)).contains(x) ==> fp@X@(t).contains(x),
    decreases d,
{
    if d > 0 && t is N {
        l_fp_cases@X@(t, x);
        l_sub_fp@X@(child@X@(t, bitat@B@(k, t->b)), k, (d - 1) as nat, x);
    }
}

// r is the node of tree n that stores (key, b), and the root of everything below it
pub open spec fn isub@X@(m: Map<Ref, @S@>, n: Ref, key: @K@, b: int, r: Ref) -> bool {
    &&& r != NIL && wf@X@(m, r) && m[r].@LEAF@ && same@X@(m[r].@KEY@, m[r].@BITS@ as int, key, b)
    &&& forall|k: @K@, kb: int| (#[trigger] find@X@(tree@X@(m, r), k, kb)) == if within@X@(k, kb, key, b) { find@X@(tree@X@(m, n), k, kb) } else { None }
    &&& forall|x: Ref| #[trigger] fp@X@(tree@X@(m, r)).contains(x) ==> fp@X@(tree@X@(m, n)).contains(x)
}

pub proof fn l_isub@X@(m: Map<Ref, @S@>, n: Ref, key: @K@, b: int, r: Ref)
    requires
        wf@X@(m, n), n != NIL, 0 <= b <= @W@, r != NIL,
        r == n && m[n].@LEAF@ && m[n].@BITS@ == b && agree@B@(m[n].@KEY@, key, b)
        || b > m[n].@BITS@ && isub@X@(m, m[n].chld.at(bitat@B@(key, m[n].@BITS@ as int)), key, b, r),
    ensures isub@X@(m, n, key, b, r),
{
    broadcast use l_bit@B@;
    l_open@X@(m, n);
    let t = tree@X@(m, n);
    if r == n && m[n].@LEAF@ && m[n].@BITS@ == b && agree@B@(m[n].@KEY@, key, b) {
        assert forall|k: @K@, kb: int| (#[trigger] find@X@(tree@X@(m, r), k, kb)) == if within@X@(k, kb, key, b) { find@X@(t, k, kb) } else { None } by {
            if find@X@(t, k, kb) is Some { l_find_in@X@(t, k, kb); }
        }
    } else {
        let i = bitat@B@(key, t->b);
        let c = m[n].chld.at(i);
        assert(tree@X@(m, c) == child@X@(t, i));
        assert forall|k: @K@, kb: int| (#[trigger] find@X@(tree@X@(m, r), k, kb)) == if within@X@(k, kb, key, b) { find@X@(t, k, kb) } else { None } by {
            if within@X@(k, kb, key, b) {
                l_agree_bit@B@(k, key, b, t->b);
                l_find_side@X@(t, k, kb);
            }
        }
        assert forall|x: Ref| #[trigger] fp@X@(tree@X@(m, r)).contains(x) implies fp@X@(t).contains(x) by {
            l_fp_cases@X@(t, x);
        }
    }
}

// ------------------------------------------------------------ enumeration

pub open spec fn leaves@X@(t: T@X@) -> Seq<Ref>
    decreases t,
{
    match t {
        T@X@::E => Seq::empty(),
        T@X@::N { r, leaf, l, rt, .. } => (if leaf { seq![r] } else { Seq::empty() }) + leaves@X@(*l) + leaves@X@(*rt),
    }
}

pub open spec fn sorted@X@(m: Map<Ref, @S@>, s: Seq<Ref>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> below@B@(m[#[trigger] s[i]].@KEY@, m[s[i]].@BITS@ as int, m[#[trigger] s[j]].@KEY@, m[s[j]].@BITS@ as int)
}
pub open spec fn stored@X@(m: Map<Ref, @S@>, r: Ref, s: Seq<Ref>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> s[i] != NIL && m.contains_key(#[trigger] s[i]) && m[s[i]].@LEAF@ && 0 <= m[s[i]].@BITS@ <= @W@
        && get@X@(m, r, m[s[i]].@KEY@, m[s[i]].@BITS@ as int) == Some(m[s[i]].@VAL@)
}
pub open spec fn hasit@X@(m: Map<Ref, @S@>, s: Seq<Ref>, k: @K@, b: int) -> bool {
    exists|i: int| 0 <= i < s.len() && same@X@(m[#[trigger] s[i]].@KEY@, m[s[i]].@BITS@ as int, k, b)
}
pub open spec fn covers@X@(m: Map<Ref, @S@>, r: Ref, s: Seq<Ref>) -> bool {
    forall|k: @K@, b: int| (#[trigger] get@X@(m, r, k, b)) is Some ==> hasit@X@(m, s, k, b)
}

pub proof fn l_leaves_fp@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, i: int)
    requires repr@X@(m, r, t), twf@X@(t), 0 <= i < leaves@X@(t).len(),
    ensures
        fp@X@(t).contains(leaves@X@(t)[i]), m.contains_key(leaves@X@(t)[i]), leaves@X@(t)[i] != NIL,
        m[leaves@X@(t)[i]].@LEAF@, 0 <= m[leaves@X@(t)[i]].@BITS@ <= @W@,
        find@X@(t, m[leaves@X@(t)[i]].@KEY@, m[leaves@X@(t)[i]].@BITS@ as int) == Some(m[leaves@X@(t)[i]].@VAL@),
    decreases t,
{
    broadcast use l_bit@B@;
    let a = if t->leaf { 1int } else { 0 };
    let x = leaves@X@(t)[i];
    if i < a {
        assert(x == r);
    } else {
        let inl = i < a + leaves@X@(*t->l).len();
        let c = if inl { *t->l } else { *t->rt };
        let j = if inl { i - a } else { i - a - leaves@X@(*t->l).len() };
        assert(leaves@X@(c)[j] == x);
        l_leaves_fp@X@(m, if inl { m[r].chld.a } else { m[r].chld.b }, c, j);
        l_find_in@X@(c, m[x].@KEY@, m[x].@BITS@ as int);
        l_agree_le@B@(c->key, m[x].@KEY@, c->b, t->b);
        l_agree_bit@B@(c->key, m[x].@KEY@, c->b, t->b);
        l_find_side@X@(t, m[x].@KEY@, m[x].@BITS@ as int);
    }
}

pub proof fn l_leaves_in@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, k: @K@, b: int) -> (i: int)
    requires repr@X@(m, r, t), find@X@(t, k, b) is Some,
    ensures 0 <= i < leaves@X@(t).len(), same@X@(m[leaves@X@(t)[i]].@KEY@, m[leaves@X@(t)[i]].@BITS@ as int, k, b),
    decreases t,
{
    let a = if t->leaf { 1int } else { 0 };
    if t->leaf && t->b == b && agree@B@(t->key, k, b) {
        assert(leaves@X@(t)[0] == r);
        0
    } else if find@X@(*t->l, k, b) is Some {
        let i = l_leaves_in@X@(m, m[r].chld.a, *t->l, k, b);
        assert(leaves@X@(t)[a + i] == leaves@X@(*t->l)[i]);
        a + i
    } else {
        let i = l_leaves_in@X@(m, m[r].chld.b, *t->rt, k, b);
        let p = a + leaves@X@(*t->l).len() + i;
        assert(leaves@X@(t)[p] == leaves@X@(*t->rt)[i]);
        p
    }
}

pub proof fn l_leaves_sorted@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires repr@X@(m, r, t), twf@X@(t),
    ensures sorted@X@(m, leaves@X@(t)),
    decreases t,
{
    broadcast use l_bit@B@;
    if t is N {
        let a = if t->leaf { 1int } else { 0 };
        let nl = leaves@X@(*t->l).len() as int;
        l_leaves_sorted@X@(m, m[r].chld.a, *t->l);
        l_leaves_sorted@X@(m, m[r].chld.b, *t->rt);
        let s = leaves@X@(t);
        if t->b < @W@ {
            l_side@X@(m, m[r].chld.a, *t->l, t->key, t->b, 0);
            l_side@X@(m, m[r].chld.b, *t->rt, t->key, t->b, 1);
        } else {
            assert(twf@X@(*t->l) && twf@X@(*t->rt));
            assert(*t->l is E && *t->rt is E);
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies below@B@(m[#[trigger] s[i]].@KEY@, m[s[i]].@BITS@ as int, m[#[trigger] s[j]].@KEY@, m[s[j]].@BITS@ as int) by {
            if a <= i < a + nl {
                assert(s[i] == leaves@X@(*t->l)[i - a]);
                l_leaves_fp@X@(m, m[r].chld.a, *t->l, i - a);
            }
            if a <= j < a + nl {
                assert(s[j] == leaves@X@(*t->l)[j - a]);
                l_leaves_fp@X@(m, m[r].chld.a, *t->l, j - a);
            }
            if a + nl <= i {
                assert(s[i] == leaves@X@(*t->rt)[i - a - nl]);
                l_leaves_fp@X@(m, m[r].chld.b, *t->rt, i - a - nl);
            }
            if a + nl <= j {
                assert(s[j] == leaves@X@(*t->rt)[j - a - nl]);
                l_leaves_fp@X@(m, m[r].chld.b, *t->rt, j - a - nl);
            }
            if i < a {
                assert(s[i] == r);
                l_below_prefix@B@(m[s[i]].@KEY@, m[s[i]].@BITS@ as int, m[s[j]].@KEY@, m[s[j]].@BITS@ as int);
            } else if i < a + nl && a + nl <= j {
                l_below_bit@B@(m[s[i]].@KEY@, m[s[i]].@BITS@ as int, m[s[j]].@KEY@, m[s[j]].@BITS@ as int, t->b);
            }
        }
    }
}

pub proof fn l_leaves_ok@X@(m: Map<Ref, @S@>, r: Ref)
    requires wf@X@(m, r),
    ensures sorted@X@(m, leaves@X@(tree@X@(m, r))), stored@X@(m, r, leaves@X@(tree@X@(m, r))), covers@X@(m, r, leaves@X@(tree@X@(m, r))),
{
    let t = tree@X@(m, r);
    let s = leaves@X@(t);
    l_leaves_sorted@X@(m, r, t);
    assert forall|i: int| 0 <= i < s.len() implies s[i] != NIL && m.contains_key(#[trigger] s[i]) && m[s[i]].@LEAF@ && 0 <= m[s[i]].@BITS@ <= @W@
        && get@X@(m, r, m[s[i]].@KEY@, m[s[i]].@BITS@ as int) == Some(m[s[i]].@VAL@) by {
        l_leaves_fp@X@(m, r, t, i);
    }
    assert forall|k: @K@, b: int| (#[trigger] get@X@(m, r, k, b)) is Some implies hasit@X@(m, s, k, b) by {
        let i = l_leaves_in@X@(m, r, t, k, b);
        assert(same@X@(m[s[i]].@KEY@, m[s[i]].@BITS@ as int, k, b));
    }
}

pub broadcast group radix@X@ {
    l_bit@B@, l_agree0@B@, l_xor@B@, l_bitsel@B@, l_unique@X@, l_upd@X@, l_fp_key@X@, l_extx@X@, l_ext@X@, l_lz@X@, l_fp_root@X@, l_masked@B@,
}

pub broadcast proof fn l_fp_root@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires #[trigger] repr@X@(m, r, t),
    ensures r == root@X@(t), r != NIL ==> m.contains_key(r) && fp@X@(t).contains(r), t is E <==> r == NIL,
{}

pub broadcast proof fn l_lz@X@(a: @K@, b: @K@, i: int, j: int, z: int)
    requires 0 <= i <= @W@, 0 <= j <= @W@, #[trigger] is_lz@W@((a ^ b) | !mask@B@(i) | !mask@B@(j), z),
    ensures z <= i, z <= j, agree@B@(a, b, z), z < i && z < j ==> bitat@B@(a, z) != bitat@B@(b, z), (z == j || z == i) ==> agree@B@(b, a, z),
{
    l_common@B@(a, b, i, j, z);
}
