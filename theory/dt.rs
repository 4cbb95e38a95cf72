// Domain trees: every node keeps an optional value and a label tree of child nodes.
// A name is a path of labels from the top-level one down.
pub ghost struct W { pub nm: Map<Ref, @S@>, pub tm: Map<Ref, @TS@>, pub dm: Map<Ref, @N@> }
pub open spec fn wof(h: Heap) -> W { W { nm: h.@S@@, tm: h.@TS@@, dm: h.@N@@ } }

pub open spec fn bra(w: W, m: Ref) -> Ref { w.dm[m].branches }
pub open spec fn kids(w: W, m: Ref) -> Seq<(Seq<u8>, @VT@)> { cont(w.nm, w.tm, bra(w, m)) }
pub open spec fn kidv(w: W, m: Ref, l: Seq<u8>) -> Option<@VT@> { look((), kids(w, m), l) }
pub open spec fn kid(w: W, m: Ref, l: Seq<u8>) -> Option<Ref> { match kidv(w, m, l) { Some(v) => Some(noder(v)), None => None } }
pub open spec fn nodev(w: W, m: Ref) -> Option<@V@> { if w.dm[m].hasValue { Some(w.dm[m].value) } else { None } }
// one node is well formed
pub open spec fn lok(w: W, m: Ref) -> bool {
    &&& m != NIL && w.dm.contains_key(m) && okT(w.nm, w.tm, bra(w, m))
    &&& forall|l: Seq<u8>| (#[trigger] kidv(w, m, l)) is Some ==> isnode(kidv(w, m, l)->0) && 1 <= l.len() <= 63
}
// the node at a path
pub open spec fn at(w: W, r: Ref, p: Seq<Seq<u8>>) -> Option<Ref>
    decreases p.len(),
{
    if p.len() == 0 { if r == NIL { None } else { Some(r) } }
    else { match at(w, r, p.drop_last()) { None => None, Some(m) => kid(w, m, p.last()) } }
}
// the value stored under a name
pub open spec fn val(w: W, r: Ref, p: Seq<Seq<u8>>) -> Option<@V@> { match at(w, r, p) { Some(m) => nodev(w, m), None => None } }
// what a node is made of
pub open spec fn inw(w: W, k: int, x: Ref) -> bool { if k == 0 { w.dm.contains_key(x) } else if k == 1 { w.tm.contains_key(x) } else { w.nm.contains_key(x) } }
pub open spec fn owns(w: W, m: Ref, k: int, x: Ref) -> bool {
    if k == 0 { x == m } else if k == 1 { x != NIL && x == bra(w, m) } else { fpt(w.nm, w.tm, bra(w, m)).contains(x) }
}
pub open spec fn hold(w: W, r: Ref, p: Seq<Seq<u8>>, k: int, x: Ref) -> bool { at(w, r, p) is Some && owns(w, at(w, r, p)->0, k, x) }
// no part is shared
pub open spec fn inj(w: W, r: Ref) -> bool {
    forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w, r, p, k, x) && #[trigger] hold(w, r, q, k, x) ==> p == q
}
pub open spec fn loks(w: W, r: Ref) -> bool { forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some ==> lok(w, at(w, r, p)->0) }
pub open spec fn dep(w: W, r: Ref, d: int) -> bool { forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some ==> p.len() <= d }
// no node but the root, and the one at path e, is empty
pub open spec fn full(w: W, m: Ref) -> bool { w.dm[m].hasValue || kids(w, m).len() > 0 }
pub open spec fn prunedx(w: W, r: Ref, e: Seq<Seq<u8>>) -> bool {
    forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && p.len() > 0 && p != e ==> full(w, at(w, r, p)->0)
}
pub open spec fn pruned(w: W, r: Ref) -> bool { prunedx(w, r, Seq::empty()) }
#[verifier::opaque]
pub open spec fn okn(w: W, r: Ref) -> bool { loks(w, r) && inj(w, r) }
// a valid tree
pub open spec fn okd(w: W, r: Ref) -> bool { okn(w, r) && dep(w, r, 127) && pruned(w, r) }

pub open spec fn extN(m0: Map<Ref, @N@>, m1: Map<Ref, @N@>) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}
// nothing that existed was written
pub open spec fn extw(w0: W, w1: W) -> bool { ext(w0.nm, w1.nm) && extT(w0.tm, w1.tm) && extN(w0.dm, w1.dm) }
// every tree that existed is what it was
pub open spec fn stays(w0: W, w1: W) -> bool {
    forall|u: Ref| #[trigger] okd(w0, u) ==> okd(w1, u) && forall|p: Seq<Seq<u8>>| #[trigger] val(w1, u, p) == val(w0, u, p)
}

// ------------------------------------------------------------ paths

pub proof fn l_okn(w: W, r: Ref)
    requires okn(w, r),
    ensures loks(w, r), inj(w, r),
{ reveal(okn); }
pub proof fn l_okn_lok(w: W, r: Ref, p: Seq<Seq<u8>>)
    requires okn(w, r), at(w, r, p) is Some,
    ensures lok(w, at(w, r, p)->0),
{ reveal(okn); }
pub proof fn l_kid(w: W, m: Ref, l: Seq<u8>)
    requires lok(w, m), kid(w, m, l) is Some,
    ensures kid(w, m, l)->0 != NIL, kidv(w, m, l) == Some(mknode(kid(w, m, l)->0)), 1 <= l.len() <= 63,
{
    assert(kidv(w, m, l) is Some);
}
pub proof fn l_snoc(w: W, r: Ref, p: Seq<Seq<u8>>, l: Seq<u8>)
    ensures at(w, r, p.push(l)) == match at(w, r, p) { None => None, Some(m) => kid(w, m, l) },
{
    assert(p.push(l).drop_last() =~= p);
}
pub proof fn l_cat(w: W, r: Ref, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires loks(w, r),
    ensures at(w, r, a + b) == match at(w, r, a) { None => None, Some(m) => at(w, m, b) },
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        l_cat(w, r, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
// a subtree of a valid tree
pub proof fn t_sub(w: W, r: Ref, a: Seq<Seq<u8>>, c: Ref)
    requires okn(w, r), at(w, r, a) == Some(c),
    ensures
        okn(w, c), lok(w, c),
        forall|q: Seq<Seq<u8>>| #[trigger] at(w, c, q) == at(w, r, a + q),
        forall|q: Seq<Seq<u8>>| #[trigger] val(w, c, q) == val(w, r, a + q),
        forall|q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w, c, q, k, x) == hold(w, r, a + q, k, x),
        forall|d: int| #[trigger] dep(w, r, d) ==> dep(w, c, d - a.len()),
        pruned(w, r) ==> pruned(w, c),
        pruned(w, r) && a.len() > 0 ==> full(w, c),
{
    reveal(okn);
    assert forall|q: Seq<Seq<u8>>| #[trigger] at(w, c, q) == at(w, r, a + q) by { l_cat(w, r, a, q); }
    assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w, c, p, k, x) && #[trigger] hold(w, c, q, k, x) implies p == q by {
        assert(hold(w, r, a + p, k, x) && hold(w, r, a + q, k, x));
        assert((a + p).skip(a.len() as int) =~= p);
        assert((a + q).skip(a.len() as int) =~= q);
    }
    assert forall|d: int| #[trigger] dep(w, r, d) implies dep(w, c, d - a.len()) by {
        assert forall|q: Seq<Seq<u8>>| (#[trigger] at(w, c, q)) is Some implies q.len() <= d - a.len() by { assert((a + q).len() == a.len() + q.len()); }
    }
    if pruned(w, r) {
        assert forall|q: Seq<Seq<u8>>| (#[trigger] at(w, c, q)) is Some && q.len() > 0 && q != Seq::<Seq<u8>>::empty() implies full(w, at(w, c, q)->0) by {
            assert((a + q).len() > 0);
        }
    }
}
pub proof fn l_cons(w: W, r: Ref, l: Seq<u8>, q: Seq<Seq<u8>>)
    requires loks(w, r), r != NIL,
    ensures at(w, r, seq![l] + q) == match kid(w, r, l) { None => None, Some(c) => at(w, c, q) },
{
    l_cat(w, r, seq![l], q);
    assert(seq![l].drop_last() =~= Seq::<Seq<u8>>::empty());
    assert(at(w, r, Seq::<Seq<u8>>::empty()) == Some(r));
    assert(seq![l].last() == l);
    assert(at(w, r, seq![l]) == kid(w, r, l));
}
pub proof fn l_split(p: Seq<Seq<u8>>)
    requires p.len() > 0,
    ensures p == seq![p[0]] + p.skip(1),
{
    assert(p =~= seq![p[0]] + p.skip(1));
}
// the empty tree
pub proof fn l_none(w: W, r: Ref, p: Seq<Seq<u8>>)
    requires r == NIL || (forall|l: Seq<u8>| (#[trigger] kid(w, r, l)) is None),
    ensures r == NIL || p.len() > 0 ==> at(w, r, p) is None,
    decreases p.len(),
{
    if p.len() > 0 { l_none(w, r, p.drop_last()); }
}
pub proof fn l_nilok(w: W)
    ensures okd(w, NIL), forall|p: Seq<Seq<u8>>| #[trigger] at(w, NIL, p) is None, forall|p: Seq<Seq<u8>>| #[trigger] val(w, NIL, p) is None, forall|d: int| dep(w, NIL, d),
{
    reveal(okn);
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w, NIL, p) is None by { l_none(w, NIL, p); }
}
pub proof fn l_nokids(w: W, m: Ref)
    requires okT(w.nm, w.tm, bra(w, m)),
    ensures kids(w, m).len() == 0 <==> (forall|l: Seq<u8>| (#[trigger] kid(w, m, l)) is None),
        kids(w, m).len() == 0 <==> kids(w, m) == Seq::<(Seq<u8>, @VT@)>::empty(),
{
    let s = kids(w, m);
    l_nil((), w.nm);
    l_dl_total();
    if s.len() == 0 {
        assert(s =~= Seq::empty());
        assert forall|l: Seq<u8>| (#[trigger] kid(w, m, l)) is None by { assert(kidv(w, m, l) is None); }
    } else {
        l_look_at((), s, s[0].0, 0);
        assert(kid(w, m, s[0].0) is Some);
    }
}
// a node with nothing below
pub proof fn l_leaf(w: W, r: Ref)
    requires lok(w, r), kids(w, r).len() == 0,
    ensures
        okn(w, r), pruned(w, r), forall|d: int| d >= 0 ==> #[trigger] dep(w, r, d),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w, r, p) == if p.len() == 0 { Some(r) } else { None },
        forall|p: Seq<Seq<u8>>| #[trigger] val(w, r, p) == if p.len() == 0 { nodev(w, r) } else { None },
{
    reveal(okn);
    l_nokids(w, r);
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w, r, p) == if p.len() == 0 { Some(r) } else { None } by { l_none(w, r, p); }
    assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w, r, p, k, x) && #[trigger] hold(w, r, q, k, x) implies p == q by {
        assert(p =~= q);
    }
}
// everything a valid tree is made of exists
pub proof fn l_inw(w: W, m: Ref, k: int, x: Ref)
    requires lok(w, m), owns(w, m, k, x),
    ensures inw(w, k, x),
{
    if k != 0 && k != 1 {
        l_fpt_dom(w.nm, w.tm, bra(w, m));
    }
}
// no other node of the tree is n
pub proof fn l_only(w: W, r: Ref, p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref)
    requires okn(w, r), hold(w, r, p, k, x), hold(w, r, q, k, x),
    ensures p == q,
{ reveal(okn); }

// ------------------------------------------------------------ frames

// node m is the same in both states
pub open spec fn same(w: W, w1: W, m: Ref) -> bool {
    &&& w1.dm.contains_key(m) && w1.dm[m].hasValue == w.dm[m].hasValue && w1.dm[m].value == w.dm[m].value
    &&& lok(w1, m) && kids(w1, m) == kids(w, m)
    &&& forall|k: int, x: Ref| #[trigger] owns(w1, m, k, x) == owns(w, m, k, x)
}
pub proof fn l_same_at(w: W, w1: W, r: Ref, p: Seq<Seq<u8>>)
    requires forall|q: Seq<Seq<u8>>| (#[trigger] at(w, r, q)) is Some ==> kids(w1, at(w, r, q)->0) == kids(w, at(w, r, q)->0),
    ensures at(w1, r, p) == at(w, r, p),
    decreases p.len(),
{
    if p.len() > 0 {
        l_same_at(w, w1, r, p.drop_last());
        if at(w, r, p.drop_last()) is Some {
            let m = at(w, r, p.drop_last())->0;
            assert(kids(w1, m) == kids(w, m));
            assert(kidv(w1, m, p.last()) == kidv(w, m, p.last()));
        }
    }
}
pub proof fn l_same(w: W, w1: W, r: Ref)
    requires okn(w, r), forall|q: Seq<Seq<u8>>| (#[trigger] at(w, r, q)) is Some ==> same(w, w1, at(w, r, q)->0),
    ensures
        okn(w1, r),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == val(w, r, p),
        forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) == hold(w, r, p, k, x),
        forall|d: int| #[trigger] dep(w1, r, d) == dep(w, r, d),
        forall|e: Seq<Seq<u8>>| #[trigger] prunedx(w, r, e) ==> prunedx(w1, r, e),
{
    reveal(okn);
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p) by { l_same_at(w, w1, r, p); }
    assert forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == val(w, r, p) by { assert(at(w1, r, p) == at(w, r, p)); }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) == hold(w, r, p, k, x) by { assert(at(w1, r, p) == at(w, r, p)); }
    assert forall|d: int| #[trigger] dep(w1, r, d) == dep(w, r, d) by {
        if dep(w1, r, d) { assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some implies p.len() <= d by { assert(at(w1, r, p) == at(w, r, p)); } }
    }
}
// a node under an extension of the heap
pub proof fn l_ext_node(w: W, w1: W, m: Ref)
    requires extw(w, w1), lok(w, m),
    ensures same(w, w1, m),
{
    l_persists(w.nm, w1.nm, w.tm, w1.tm);
    assert(okT(w1.nm, w1.tm, bra(w, m)));
    assert(kids(w1, m) == kids(w, m));
    l_fpt_ext(w.nm, w1.nm, w.tm, w1.tm, bra(w, m));
    assert forall|l: Seq<u8>| (#[trigger] kidv(w1, m, l)) is Some implies isnode(kidv(w1, m, l)->0) && 1 <= l.len() <= 63 by { assert(kidv(w, m, l) == kidv(w1, m, l)); }
}
pub proof fn l_ext(w: W, w1: W, r: Ref)
    requires extw(w, w1), okn(w, r),
    ensures
        okn(w1, r),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == val(w, r, p),
        forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) == hold(w, r, p, k, x),
        forall|d: int| #[trigger] dep(w1, r, d) == dep(w, r, d),
        forall|e: Seq<Seq<u8>>| #[trigger] prunedx(w, r, e) ==> prunedx(w1, r, e),
        r != NIL ==> same(w, w1, r),
{
    assert forall|q: Seq<Seq<u8>>| (#[trigger] at(w, r, q)) is Some implies same(w, w1, at(w, r, q)->0) by {
        l_okn_lok(w, r, q);
        l_ext_node(w, w1, at(w, r, q)->0);
    }
    l_same(w, w1, r);
    if r != NIL { assert(at(w, r, Seq::<Seq<u8>>::empty()) == Some(r)); }
}
pub proof fn l_stays(w: W, w1: W)
    requires extw(w, w1),
    ensures stays(w, w1),
{
    assert forall|u: Ref| #[trigger] okd(w, u) implies okd(w1, u) && forall|p: Seq<Seq<u8>>| #[trigger] val(w1, u, p) == val(w, u, p) by {
        l_ext(w, w1, u);
        assert(dep(w1, u, 127) == dep(w, u, 127));
    }
}
pub proof fn l_extw(a: W, b: W, c: W)
    requires extw(a, b), extw(b, c),
    ensures extw(a, c),
{
    assert forall|r: Ref| a.nm.contains_key(r) implies c.nm.contains_key(r) && c.nm[r] == a.nm[r] by { assert(b.nm.contains_key(r) && b.nm[r] == a.nm[r]); }
    assert forall|r: Ref| a.tm.contains_key(r) implies c.tm.contains_key(r) && c.tm[r] == a.tm[r] by { assert(b.tm.contains_key(r) && b.tm[r] == a.tm[r]); }
    assert forall|r: Ref| a.dm.contains_key(r) implies c.dm.contains_key(r) && c.dm[r] == a.dm[r] by { assert(b.dm.contains_key(r) && b.dm[r] == a.dm[r]); }
}

// ------------------------------------------------------------ one more child

// w1 is w with child c under l of node n, which is at path pre. c takes over what was below.
pub open spec fn grafted(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, l: Seq<u8>, c: Ref) -> bool {
    &&& forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n ==> same(w, w1, at(w, r, p)->0)
    &&& lok(w1, n) && w1.dm[n].hasValue == w.dm[n].hasValue && w1.dm[n].value == w.dm[n].value
    &&& forall|k: Seq<u8>| #[trigger] kid(w1, n, k) == if k == l { Some(c) } else { kid(w, n, k) }
    &&& forall|k: int, x: Ref| #[trigger] owns(w1, n, k, x) ==> owns(w, n, k, x) || !inw(w, k, x)
    &&& lok(w1, c) && !w.dm.contains_key(c)
    &&& forall|k: Seq<u8>| #[trigger] kid(w1, c, k) == match kid(w, n, l) { Some(o) => kid(w, o, k), None => None }
    &&& forall|k: int, x: Ref| #[trigger] owns(w1, c, k, x) ==> (kid(w, n, l) is Some && k != 0 && owns(w, kid(w, n, l)->0, k, x)) || (!inw(w, k, x) && !owns(w1, n, k, x))
}
pub proof fn l_graft_at(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, l: Seq<u8>, c: Ref, p: Seq<Seq<u8>>)
    requires okn(w, r), at(w, r, pre) == Some(n), grafted(w, w1, r, pre, n, l, c),
    ensures at(w1, r, p) == if p == pre.push(l) { Some(c) } else { at(w, r, p) },
    decreases p.len(),
{
    if p.len() == 0 {
        assert(pre.push(l).len() > 0);
    } else {
        let q = p.drop_last();
        l_graft_at(w, w1, r, pre, n, l, c, q);
        assert(p =~= q.push(p.last()));
        l_snoc(w, r, pre, l);
        if q == pre.push(l) {
            assert(p.len() == pre.len() + 2);
        } else if at(w, r, q) is Some {
            let m = at(w, r, q)->0;
            if m == n {
                assert(hold(w, r, q, 0, n) && hold(w, r, pre, 0, n));
                l_only(w, r, q, pre, 0, n);
                assert(p == pre.push(l) <==> p.last() == l) by { assert(pre.push(l).last() == l); }
            } else {
                assert(same(w, w1, m));
                assert(kidv(w1, m, p.last()) == kidv(w, m, p.last()));
                if p == pre.push(l) {
                    assert(q =~= pre);
                }
            }
        } else {
            if p == pre.push(l) { assert(q =~= pre); }
        }
    }
}
pub proof fn l_graft(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, l: Seq<u8>, c: Ref)
    requires okn(w, r), at(w, r, pre) == Some(n), grafted(w, w1, r, pre, n, l, c),
    ensures
        okn(w1, r),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == if p == pre.push(l) { Some(c) } else { at(w, r, p) },
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == if p == pre.push(l) { nodev(w1, c) } else { val(w, r, p) },
        forall|d: int| #[trigger] dep(w, r, d) && pre.len() < d ==> dep(w1, r, d),
        prunedx(w, r, pre) ==> prunedx(w1, r, pre.push(l)),
{
    reveal(okn);
    let pl = pre.push(l);
    l_snoc(w, r, pre, l);
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == if p == pl { Some(c) } else { at(w, r, p) } by { l_graft_at(w, w1, r, pre, n, l, c, p); }
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some implies lok(w1, at(w1, r, p)->0) by {
        if p != pl { assert(at(w, r, p) is Some); if at(w, r, p)->0 != n { assert(same(w, w1, at(w, r, p)->0)); } }
    }
    assert forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == if p == pl { nodev(w1, c) } else { val(w, r, p) } by {
        if p != pl && at(w, r, p) is Some { if at(w, r, p)->0 != n { assert(same(w, w1, at(w, r, p)->0)); } }
    }
    // what each place holds
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) implies hold(w, r, p, k, x) || (!inw(w, k, x) && (p == pre || (p == pl && !owns(w1, n, k, x)))) by {
        if p == pl {
            assert(owns(w1, c, k, x));
        } else {
            assert(at(w, r, p) is Some);
            let m = at(w, r, p)->0;
            if m == n {
                assert(hold(w, r, p, 0, n) && hold(w, r, pre, 0, n));
                assert(owns(w1, n, k, x));
            } else {
                assert(same(w, w1, m));
                assert(owns(w1, m, k, x) == owns(w, m, k, x));
            }
        }
    }
    assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) && #[trigger] hold(w1, r, q, k, x) implies p == q by {
        if hold(w, r, p, k, x) { l_inw(w, at(w, r, p)->0, k, x); }
        if hold(w, r, q, k, x) { l_inw(w, at(w, r, q)->0, k, x); }
        assert(at(w1, r, pre) == Some(n)) by { assert(pre.len() != pl.len()); }
        if !inw(w, k, x) {
            if p == pre { assert(owns(w1, n, k, x)); }
            if q == pre { assert(owns(w1, n, k, x)); }
        }
    }
    assert forall|d: int| #[trigger] dep(w, r, d) && pre.len() < d implies dep(w1, r, d) by {
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some implies p.len() <= d by { if p != pl { assert(at(w, r, p) is Some); } }
    }
    if prunedx(w, r, pre) {
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some && p.len() > 0 && p != pl implies full(w1, at(w1, r, p)->0) by {
            assert(at(w, r, p) is Some);
            let m = at(w, r, p)->0;
            if m == n {
                l_nokids(w1, n);
                assert(kid(w1, n, l) is Some);
            } else {
                if p == pre { }
                assert(same(w, w1, m));
                assert(full(w, m));
            }
        }
    }
}

// ------------------------------------------------------------ a new root over old children

pub open spec fn fl(w: W, n: Ref) -> bool { n != NIL && full(w, n) }
// m1, a new node, is a copy of m except that child n replaces the one under l
pub open spec fn thung(w: W, w1: W, m: Ref, l: Seq<u8>, n: Ref, m1: Ref) -> bool {
    &&& extw(w, w1) && !w.dm.contains_key(m1) && lok(w1, m1)
    &&& w1.dm[m1].hasValue == w.dm[m].hasValue && w1.dm[m1].value == w.dm[m].value
    &&& forall|k: Seq<u8>| #[trigger] kid(w1, m1, k) == if k == l { if fl(w, n) { Some(n) } else { None } } else { kid(w, m, k) }
    &&& forall|k: int, x: Ref| #[trigger] owns(w1, m1, k, x) ==> (k != 0 && owns(w, m, k, x)) || !inw(w, k, x)
}
// what n holds is shared with m below l only
pub open spec fn apart(w: W, n: Ref, m: Ref, a: Seq<Seq<u8>>) -> bool {
    forall|q: Seq<Seq<u8>>, p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w, n, q, k, x) && #[trigger] hold(w, m, p, k, x) ==> a.is_prefix_of(p)
}
pub proof fn l_hang_at(w: W, w1: W, m: Ref, l: Seq<u8>, n: Ref, m1: Ref, p: Seq<Seq<u8>>)
    requires okn(w, m), okn(w, n), m != NIL, thung(w, w1, m, l, n, m1),
    ensures at(w1, m1, p) == if p.len() == 0 { Some(m1) } else if p[0] == l { if fl(w, n) { at(w, n, p.skip(1)) } else { None } } else { at(w, m, p) },
    decreases p.len(),
{
    l_ext(w, w1, m);
    l_ext(w, w1, n);
    if p.len() > 0 {
        let q = p.drop_last();
        l_hang_at(w, w1, m, l, n, m1, q);
        if q.len() == 0 {
            assert(p[0] == p.last());
            assert(p.skip(1) =~= Seq::<Seq<u8>>::empty());
            assert(at(w, m, q) == Some(m));
        } else {
            assert(p[0] == q[0]);
            assert(p.skip(1).drop_last() =~= q.skip(1));
            assert(p.skip(1).last() == p.last());
            if p[0] == l {
                if fl(w, n) && at(w, n, q.skip(1)) is Some {
                    let c = at(w, n, q.skip(1))->0;
                    l_okn_lok(w, n, q.skip(1));
                    l_ext_node(w, w1, c);
                    assert(kidv(w1, c, p.last()) == kidv(w, c, p.last()));
                }
            } else if at(w, m, q) is Some {
                let c = at(w, m, q)->0;
                l_okn_lok(w, m, q);
                l_ext_node(w, w1, c);
                assert(kidv(w1, c, p.last()) == kidv(w, c, p.last()));
            }
        }
    }
}
pub proof fn l_hang(w: W, w1: W, m: Ref, l: Seq<u8>, n: Ref, m1: Ref)
    requires okn(w, m), okn(w, n), m != NIL, thung(w, w1, m, l, n, m1), apart(w, n, m, seq![l]), pruned(w, m), pruned(w, n),
    ensures
        okn(w1, m1), pruned(w1, m1),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, m1, p) == if p.len() > 0 && p[0] == l { val(w, n, p.skip(1)) } else { val(w, m, p) },
        forall|d: int| #[trigger] dep(w, m, d) && dep(w, n, d - 1) ==> dep(w1, m1, d),
        forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, m1, p, k, x) ==> thold(w, m, l, n, p, k, x),
{
    reveal(okn);
    l_ext(w, w1, m);
    l_ext(w, w1, n);
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w1, m1, p) == if p.len() == 0 { Some(m1) } else if p[0] == l { if fl(w, n) { at(w, n, p.skip(1)) } else { None } } else { at(w, m, p) } by {
        l_hang_at(w, w1, m, l, n, m1, p);
    }
    if n == NIL { l_nilok(w); } else if !fl(w, n) { assert(at(w, n, Seq::<Seq<u8>>::empty()) == Some(n)); l_leaf(w, n); }
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, m1, p)) is Some implies lok(w1, at(w1, m1, p)->0) by {
        if p.len() > 0 {
            if p[0] == l { assert(at(w1, n, p.skip(1)) is Some); } else { assert(at(w1, m, p) is Some); }
        }
    }
    assert forall|p: Seq<Seq<u8>>| #[trigger] val(w1, m1, p) == if p.len() > 0 && p[0] == l { val(w, n, p.skip(1)) } else { val(w, m, p) } by {
        assert(at(w1, m1, p) == if p.len() == 0 { Some(m1) } else if p[0] == l { if fl(w, n) { at(w, n, p.skip(1)) } else { None } } else { at(w, m, p) });
        if p.len() > 0 {
            if p[0] == l {
                assert(val(w1, n, p.skip(1)) == val(w, n, p.skip(1)));
                assert(at(w1, n, p.skip(1)) == at(w, n, p.skip(1)));
            } else {
                assert(val(w1, m, p) == val(w, m, p));
                assert(at(w1, m, p) == at(w, m, p));
            }
        }
    }
    assert forall|d: int| #[trigger] dep(w, m, d) && dep(w, n, d - 1) implies dep(w1, m1, d) by {
        assert(at(w, m, Seq::<Seq<u8>>::empty()) is Some);
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, m1, p)) is Some implies p.len() <= d by {
            if p.len() > 0 { if p[0] == l { assert(at(w, n, p.skip(1)) is Some); } else { assert(at(w, m, p) is Some); } }
        }
    }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, m1, p, k, x) implies thold(w, m, l, n, p, k, x) by {
        if p.len() == 0 {
            assert(owns(w1, m1, k, x));
            if owns(w, m, k, x) { assert(hold(w, m, p, k, x)); }
        } else if p[0] == l {
            assert(hold(w1, n, p.skip(1), k, x) == hold(w, n, p.skip(1), k, x));
            assert(at(w1, n, p.skip(1)) == at(w, n, p.skip(1)));
        } else {
            assert(hold(w1, m, p, k, x) == hold(w, m, p, k, x));
            assert(at(w1, m, p) == at(w, m, p));
        }
    }
    assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, m1, p, k, x) && #[trigger] hold(w1, m1, q, k, x) implies p == q by {
        assert(thold(w, m, l, n, p, k, x));
        assert(thold(w, m, l, n, q, k, x));
        l_hang_inj(w, m, l, n, p, q, k, x);
    }
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, m1, p)) is Some && p.len() > 0 && p != Seq::<Seq<u8>>::empty() implies full(w1, at(w1, m1, p)->0) by {
        if p[0] == l {
            assert(at(w1, n, p.skip(1)) == at(w, n, p.skip(1)));
            l_ext_node(w, w1, at(w, n, p.skip(1))->0);
            if p.len() > 1 { assert(p.skip(1).len() > 0); assert(full(w, at(w, n, p.skip(1))->0)); }
            else { assert(p.skip(1) =~= Seq::<Seq<u8>>::empty()); }
        } else {
            assert(at(w1, m, p) == at(w, m, p));
            l_ext_node(w, w1, at(w, m, p)->0);
            assert(full(w, at(w, m, p)->0));
        }
    }
}
// where a part of the new tree comes from
pub open spec fn thold(w: W, m: Ref, l: Seq<u8>, n: Ref, p: Seq<Seq<u8>>, k: int, x: Ref) -> bool {
    if p.len() == 0 { !inw(w, k, x) || (k != 0 && hold(w, m, p, k, x)) }
    else if p[0] == l { hold(w, n, p.skip(1), k, x) }
    else { hold(w, m, p, k, x) }
}
pub proof fn l_hang_inj(w: W, m: Ref, l: Seq<u8>, n: Ref, p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref)
    requires okn(w, m), okn(w, n), apart(w, n, m, seq![l]), thold(w, m, l, n, p, k, x), thold(w, m, l, n, q, k, x),
    ensures p == q,
{
    reveal(okn);
    if hold(w, m, p, k, x) { l_inw(w, at(w, m, p)->0, k, x); }
    if hold(w, m, q, k, x) { l_inw(w, at(w, m, q)->0, k, x); }
    let pn = p.len() > 0 && p[0] == l;
    let qn = q.len() > 0 && q[0] == l;
    if pn { l_inw(w, at(w, n, p.skip(1))->0, k, x); l_split(p); }
    if qn { l_inw(w, at(w, n, q.skip(1))->0, k, x); l_split(q); }
    if pn && qn {
        assert(p.skip(1) == q.skip(1));
    } else if pn && !qn {
        if hold(w, m, q, k, x) { assert(seq![l].is_prefix_of(q)); assert(q[0] == seq![l][0]); }
    } else if qn && !pn {
        if hold(w, m, p, k, x) { assert(seq![l].is_prefix_of(p)); assert(p[0] == seq![l][0]); }
    } else if hold(w, m, p, k, x) && hold(w, m, q, k, x) {
    } else {
        assert(p =~= q);
    }
}

pub proof fn l_mkhung(w: W, w3: W, m: Ref, l: Seq<u8>, n: Ref, m1: Ref, b: Ref, ok: bool)
    requires
        lok(w, m), kid(w, m, l) is Some, extw(w, w3), !w.dm.contains_key(m1), m1 != NIL,
        w3.dm.contains_key(m1), w3.dm[m1] == (@N@ { branches: b, ..w.dm[m] }),
        okT(w3.nm, w3.tm, b), b != NIL, !w.tm.contains_key(b),
        forall|x: Ref| #[trigger] fpt(w3.nm, w3.tm, b).contains(x) ==> !w.nm.contains_key(x) || fpt(w.nm, w.tm, bra(w, m)).contains(x),
        fl(w, n) ==> put_map((), kids(w, m), l, mknode(n), cont(w3.nm, w3.tm, b)),
        !fl(w, n) ==> rem_map((), kids(w, m), l, cont(w3.nm, w3.tm, b), ok),
    ensures thung(w, w3, m, l, n, m1),
{
    l_dl_total();
    l_kid(w, m, l);
    assert(kids(w3, m1) == cont(w3.nm, w3.tm, b));
    assert forall|k: Seq<u8>| #[trigger] kidv(w3, m1, k) == if k == l { if fl(w, n) { Some(mknode(n)) } else { None } } else { kidv(w, m, k) } by {
        assert(kidv(w3, m1, k) == look((), cont(w3.nm, w3.tm, b), k));
        assert(kidv(w, m, l) is Some);
    }
    assert forall|k: Seq<u8>| #[trigger] kid(w3, m1, k) == if k == l { if fl(w, n) { Some(n) } else { None } } else { kid(w, m, k) } by {
        assert(kidv(w3, m1, k) == if k == l { if fl(w, n) { Some(mknode(n)) } else { None } } else { kidv(w, m, k) });
    }
}

// a node replaced at its place by one with the same children
pub proof fn l_rebr(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n),
        forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n ==> same(w, w1, at(w, r, p)->0),
        lok(w1, n), kids(w1, n) == kids(w, n),
        forall|k: int, x: Ref| #[trigger] owns(w1, n, k, x) ==> owns(w, n, k, x) || !inw(w, k, x),
    ensures
        okn(w1, r),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == if p == pre { nodev(w1, n) } else { val(w, r, p) },
        forall|d: int| #[trigger] dep(w, r, d) ==> dep(w1, r, d),
        prunedx(w, r, pre) ==> prunedx(w1, r, pre),
        prunedx(w, r, pre) && w1.dm[n].hasValue ==> pruned(w1, r),
{
    reveal(okn);
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p) by { l_same_at(w, w1, r, p); }
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 == n implies p == pre by {
        assert(hold(w, r, p, 0, n) && hold(w, r, pre, 0, n));
    }
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some implies lok(w1, at(w1, r, p)->0) by {
        assert(at(w1, r, p) == at(w, r, p));
        if at(w, r, p)->0 != n { assert(same(w, w1, at(w, r, p)->0)); }
    }
    assert forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == if p == pre { nodev(w1, n) } else { val(w, r, p) } by {
        assert(at(w1, r, p) == at(w, r, p));
        if p != pre && at(w, r, p) is Some { assert(same(w, w1, at(w, r, p)->0)); }
    }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) implies hold(w, r, p, k, x) || (!inw(w, k, x) && p == pre) by {
        assert(at(w1, r, p) == at(w, r, p));
        let m = at(w, r, p)->0;
        if m == n { assert(owns(w1, n, k, x)); } else { assert(same(w, w1, m)); assert(owns(w1, m, k, x) == owns(w, m, k, x)); }
    }
    assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) && #[trigger] hold(w1, r, q, k, x) implies p == q by {
        if hold(w, r, p, k, x) { l_inw(w, at(w, r, p)->0, k, x); }
        if hold(w, r, q, k, x) { l_inw(w, at(w, r, q)->0, k, x); }
    }
    assert forall|d: int| #[trigger] dep(w, r, d) implies dep(w1, r, d) by {
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some implies p.len() <= d by { assert(at(w1, r, p) == at(w, r, p)); }
    }
    if prunedx(w, r, pre) {
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some && p.len() > 0 && p != pre implies full(w1, at(w1, r, p)->0) by {
            assert(at(w1, r, p) == at(w, r, p));
            assert(same(w, w1, at(w, r, p)->0));
            assert(full(w, at(w, r, p)->0));
        }
        if w1.dm[n].hasValue {
            assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r, p)) is Some && p.len() > 0 && p != Seq::<Seq<u8>>::empty() implies full(w1, at(w1, r, p)->0) by {
                assert(at(w1, r, p) == at(w, r, p));
                if p != pre { assert(full(w1, at(w1, r, p)->0)); }
            }
        }
    }
}
// the root replaced by a copy
pub proof fn l_recopy(w: W, w1: W, r: Ref, r1: Ref)
    requires
        okn(w, r), extw(w, w1), !w.dm.contains_key(r1), w1.dm.contains_key(r1), r1 != NIL,
        r != NIL ==> w1.dm[r1].branches == w.dm[r].branches,
        r == NIL ==> w1.dm[r1].branches == NIL,
    ensures
        okn(w1, r1), pruned(w, r) ==> pruned(w1, r1), forall|d: int| #[trigger] dep(w, r, d) && d >= 0 ==> dep(w1, r1, d),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r1, p) == if p.len() == 0 { Some(r1) } else { at(w, r, p) },
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r1, p) == if p.len() == 0 { nodev(w1, r1) } else { val(w, r, p) },
        forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r1, p, k, x) ==> hold(w, r, p, k, x) || !inw(w, k, x),
{
    reveal(okn);
    if r == NIL {
        l_nilok(w);
        l_nil((), w1.nm);
        assert(lok(w1, r1)) by { assert forall|l: Seq<u8>| (#[trigger] kidv(w1, r1, l)) is Some implies false by { } }
        l_leaf(w1, r1);
        assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r1, p, k, x) implies !inw(w, k, x) by { }
    } else {
        l_ext(w, w1, r);
        assert(at(w, r, Seq::<Seq<u8>>::empty()) == Some(r));
        assert(same(w, w1, r));
        assert(kids(w1, r1) == kids(w1, r));
        assert(lok(w1, r1)) by {
            assert forall|l: Seq<u8>| (#[trigger] kidv(w1, r1, l)) is Some implies isnode(kidv(w1, r1, l)->0) && 1 <= l.len() <= 63 by { assert(kidv(w1, r1, l) == kidv(w, r, l)); }
        }
        assert forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r1, p) == if p.len() == 0 { Some(r1) } else { at(w, r, p) } by {
            l_recopy_at(w, w1, r, r1, p);
        }
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r1, p)) is Some implies lok(w1, at(w1, r1, p)->0) by {
            if p.len() > 0 { assert(at(w1, r, p) == at(w, r, p)); }
        }
        assert forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r1, p) == if p.len() == 0 { nodev(w1, r1) } else { val(w, r, p) } by {
            assert(val(w1, r, p) == val(w, r, p));
            assert(at(w1, r, p) == at(w, r, p));
            assert(at(w1, r1, p) == if p.len() == 0 { Some(r1) } else { at(w, r, p) });
        }
        assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r1, p, k, x) implies (hold(w, r, p, k, x) && !(p.len() == 0 && k == 0)) || (!inw(w, k, x) && p.len() == 0) by {
            assert(at(w1, r1, p) == if p.len() == 0 { Some(r1) } else { at(w, r, p) });
            if p.len() == 0 {
                if k == 0 { assert(x == r1); }
                else { assert(owns(w1, r, k, x)); assert(owns(w, r, k, x)); assert(hold(w, r, p, k, x)); }
            } else {
                assert(at(w1, r, p) == at(w, r, p));
                assert(hold(w1, r, p, k, x) == hold(w, r, p, k, x));
            }
        }
        assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r1, p, k, x) && #[trigger] hold(w1, r1, q, k, x) implies p == q by {
            if hold(w, r, p, k, x) { l_inw(w, at(w, r, p)->0, k, x); }
            if hold(w, r, q, k, x) { l_inw(w, at(w, r, q)->0, k, x); }
            if !inw(w, k, x) { assert(p =~= q); }
        }
        assert forall|d: int| #[trigger] dep(w, r, d) && d >= 0 implies dep(w1, r1, d) by {
            assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r1, p)) is Some implies p.len() <= d by { if p.len() > 0 { assert(at(w, r, p) is Some); } }
        }
        if pruned(w, r) {
            assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w1, r1, p)) is Some && p.len() > 0 && p != Seq::<Seq<u8>>::empty() implies full(w1, at(w1, r1, p)->0) by {
                assert(at(w, r, p) is Some);
                l_ext_node(w, w1, at(w, r, p)->0);
            }
        }
    }
}
pub proof fn l_recopy_at(w: W, w1: W, r: Ref, r1: Ref, p: Seq<Seq<u8>>)
    requires okn(w, r), extw(w, w1), r != NIL, r1 != NIL, kids(w1, r1) == kids(w1, r),
    ensures at(w1, r1, p) == if p.len() == 0 { Some(r1) } else { at(w, r, p) },
    decreases p.len(),
{
    l_ext(w, w1, r);
    assert(at(w1, r, p) == at(w, r, p));
    if p.len() > 0 {
        l_recopy_at(w, w1, r, r1, p.drop_last());
        if p.len() == 1 {
            assert(at(w1, r, p.drop_last()) == Some(r));
            assert(kidv(w1, r1, p.last()) == kidv(w1, r, p.last()));
        } else {
            assert(at(w1, r, p.drop_last()) == at(w, r, p.drop_last()));
        }
    }
}

// ------------------------------------------------------------ insertion steps

pub proof fn t_ins_step(w: W, w3: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, l: Seq<u8>, c: Ref, b: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), 1 <= l.len() <= 63,
        ext(w.nm, w3.nm), extT(w.tm, w3.tm),
        forall|m: Ref| #![trigger w3.dm[m]] w.dm.contains_key(m) && m != n ==> w3.dm.contains_key(m) && w3.dm[m] == w.dm[m],
        w3.dm.contains_key(n), w3.dm[n] == (@N@ { branches: b, ..w.dm[n] }),
        c != NIL, !w.dm.contains_key(c), w3.dm.contains_key(c),
        kid(w, n, l) is Some ==> w3.dm[c] == w.dm[kid(w, n, l)->0],
        kid(w, n, l) is None ==> w3.dm[c].branches == NIL && !w3.dm[c].hasValue,
        okT(w3.nm, w3.tm, b), put_map((), kids(w, n), l, mknode(c), cont(w3.nm, w3.tm, b)), b != NIL, !w.tm.contains_key(b),
        forall|x: Ref| #[trigger] fpt(w3.nm, w3.tm, b).contains(x) ==> !w.nm.contains_key(x) || fpt(w.nm, w.tm, bra(w, n)).contains(x),
    ensures grafted(w, w3, r, pre, n, l, c), nodev(w3, c) == val(w, r, pre.push(l)),
{
    l_dl_total();
    l_okn(w, r);
    l_snoc(w, r, pre, l);
    let wx = W { dm: w.dm, ..w3 };
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n implies same(w, w3, at(w, r, p)->0) by {
        let m = at(w, r, p)->0;
        assert(lok(w, m));
        l_ext_node(w, wx, m);
        assert(w3.dm[m] == w.dm[m]);
        l_swap(w, wx, w3, m);
    }
    assert(kids(w3, n) == cont(w3.nm, w3.tm, b));
    assert forall|k: Seq<u8>| #[trigger] kidv(w3, n, k) == if k == l { Some(mknode(c)) } else { kidv(w, n, k) } by {
        assert(kidv(w3, n, k) == look((), cont(w3.nm, w3.tm, b), k));
    }
    assert(lok(w, n));
    assert forall|k: Seq<u8>| (#[trigger] kidv(w3, n, k)) is Some implies isnode(kidv(w3, n, k)->0) && 1 <= k.len() <= 63 by { assert(k != l ==> kidv(w, n, k) is Some); }
    assert forall|k: Seq<u8>| #[trigger] kid(w3, n, k) == if k == l { Some(c) } else { kid(w, n, k) } by { assert(kidv(w3, n, k) == if k == l { Some(mknode(c)) } else { kidv(w, n, k) }); }
    assert forall|k: int, x: Ref| #[trigger] owns(w3, n, k, x) implies owns(w, n, k, x) || !inw(w, k, x) by { }
    if kid(w, n, l) is Some {
        let o = kid(w, n, l)->0;
        assert(at(w, r, pre.push(l)) == Some(o));
        assert(lok(w, o));
        l_ext_node(w, wx, o);
        assert(bra(w3, c) == bra(w, o));
        assert(kids(w3, c) == kids(w, o));
        assert forall|k: Seq<u8>| #[trigger] kidv(w3, c, k) == kidv(w, o, k) by { }
        assert forall|k: Seq<u8>| #[trigger] kid(w3, c, k) == kid(w, o, k) by { assert(kidv(w3, c, k) == kidv(w, o, k)); }
        assert forall|k: int, x: Ref| #[trigger] owns(w3, c, k, x) implies (k != 0 && owns(w, o, k, x)) || (!inw(w, k, x) && !owns(w3, n, k, x)) by {
            assert(owns(wx, o, k, x) == owns(w, o, k, x));
            if k == 0 { assert(x == c); }
        }
    } else {
        l_nil((), w3.nm);
        assert(kids(w3, c) =~= Seq::<(Seq<u8>, @VT@)>::empty());
        assert forall|k: Seq<u8>| (#[trigger] kidv(w3, c, k)) is None by { }
        assert forall|k: Seq<u8>| #[trigger] kid(w3, c, k) is None by { assert(kidv(w3, c, k) is None); }
        assert forall|k: int, x: Ref| #[trigger] owns(w3, c, k, x) implies (!inw(w, k, x) && !owns(w3, n, k, x)) by { }
    }
}
pub proof fn l_swap(w: W, wx: W, w3: W, m: Ref)
    requires same(w, wx, m), w3.nm == wx.nm, w3.tm == wx.tm, w3.dm.contains_key(m), w3.dm[m] == wx.dm[m],
    ensures same(w, w3, m),
{
    assert(kids(w3, m) == kids(wx, m));
    assert forall|l: Seq<u8>| (#[trigger] kidv(w3, m, l)) is Some implies isnode(kidv(w3, m, l)->0) && 1 <= l.len() <= 63 by { assert(kidv(wx, m, l) == kidv(w3, m, l)); }
    assert forall|k: int, x: Ref| #[trigger] owns(w3, m, k, x) == owns(w, m, k, x) by { assert(owns(wx, m, k, x) == owns(w, m, k, x)); }
}
// node n gets an empty label tree in place of none
pub proof fn l_newbr(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, b: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), bra(w, n) == NIL,
        ext(w.nm, w1.nm), extT(w.tm, w1.tm), w1.dm =~= w.dm.insert(n, @N@ { branches: b, ..w.dm[n] }),
        b != NIL, !w.tm.contains_key(b), okT(w1.nm, w1.tm, b), cont(w1.nm, w1.tm, b) == Seq::<(Seq<u8>, @VT@)>::empty(),
    ensures
        okn(w1, r),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == val(w, r, p),
        forall|d: int| #[trigger] dep(w, r, d) ==> dep(w1, r, d),
        prunedx(w, r, pre) ==> prunedx(w1, r, pre),
{
    l_okn(w, r);
    let wx = W { dm: w.dm, ..w1 };
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n implies same(w, w1, at(w, r, p)->0) by {
        let m = at(w, r, p)->0;
        assert(lok(w, m));
        l_ext_node(w, wx, m);
        l_swap(w, wx, w1, m);
    }
    assert(lok(w, n));
    assert(kids(w, n) =~= kids(w1, n));
    l_nil((), w1.nm);
    assert(lok(w1, n)) by { assert forall|l: Seq<u8>| (#[trigger] kidv(w1, n, l)) is Some implies false by { } }
    l_fpt_empty(w1.nm, w1.tm, b);
    assert forall|k: int, x: Ref| #[trigger] owns(w1, n, k, x) implies owns(w, n, k, x) || !inw(w, k, x) by { }
    l_rebr(w, w1, r, pre, n);
}
// a fresh child written into the label tree of n
pub proof fn l_inp_step(w: W, wb: W, wc: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, l: Seq<u8>, c: Ref, bt: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), 1 <= l.len() <= 63, kid(w, n, l) is None, bra(w, n) != NIL,
        ext(w.nm, wb.nm), extT(w.tm, wb.tm), extN(w.dm, wb.dm),
        c != NIL, !w.dm.contains_key(c), wb.dm.contains_key(c), wb.dm[c].branches == bt, !wb.dm[c].hasValue,
        bt != NIL, !w.tm.contains_key(bt), okT(wb.nm, wb.tm, bt), cont(wb.nm, wb.tm, bt) == Seq::<(Seq<u8>, @VT@)>::empty(),
        wc.dm == wb.dm,
        okT(wc.nm, wc.tm, bra(w, n)),
        put_map((), cont(wb.nm, wb.tm, bra(w, n)), l, mknode(c), cont(wc.nm, wc.tm, bra(w, n))),
        keeps(wb.nm, wc.nm, wb.nm.dom().difference(fp(tree(wb.nm, wb.tm[bra(w, n)].root)))),
        forall|u: Ref| #[trigger] wb.tm.contains_key(u) && u != bra(w, n) ==> wc.tm.contains_key(u) && wc.tm[u] == wb.tm[u],
        forall|x: Ref| #[trigger] fp(tree(wc.nm, wc.tm[bra(w, n)].root)).contains(x) ==> !wb.nm.contains_key(x) || fp(tree(wb.nm, wb.tm[bra(w, n)].root)).contains(x),
    ensures grafted(w, wc, r, pre, n, l, c), nodev(wc, c) is None, val(w, r, pre.push(l)) is None,
{
    l_dl_total();
    l_okn(w, r);
    l_snoc(w, r, pre, l);
    let b = bra(w, n);
    assert(lok(w, n));
    l_ext_node(w, wb, n);
    assert(fpt(wb.nm, wb.tm, b) == fpt(w.nm, w.tm, b)) by { l_fpt_ext(w.nm, wb.nm, w.tm, wb.tm, b); }
    l_fpt_dom(w.nm, w.tm, b);
    assert(okT(wb.nm, wb.tm, b));
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n implies same(w, wc, at(w, r, p)->0) by {
        let m = at(w, r, p)->0;
        assert(lok(w, m));
        l_ext_node(w, wb, m);
        let t = bra(w, m);
        assert(fpt(wb.nm, wb.tm, t) == fpt(w.nm, w.tm, t)) by { l_fpt_ext(w.nm, wb.nm, w.tm, wb.tm, t); }
        l_fpt_dom(wb.nm, wb.tm, t);
        if t != NIL && t == b {
            assert(hold(w, r, p, 1, b) && hold(w, r, pre, 1, b));
            l_only(w, r, p, pre, 1, b);
        }
        assert(same_on(wb.nm, wc.nm, fpt(wb.nm, wb.tm, t))) by {
            assert forall|x: Ref| #[trigger] fpt(wb.nm, wb.tm, t).contains(x) implies wc.nm.contains_key(x) && wc.nm[x] == wb.nm[x] by {
                if fpt(w.nm, w.tm, b).contains(x) {
                    assert(hold(w, r, p, 2, x) && hold(w, r, pre, 2, x));
                    l_only(w, r, p, pre, 2, x);
                }
                assert(wb.nm.dom().difference(fp(tree(wb.nm, wb.tm[b].root))).contains(x));
            }
        }
        l_fpt_keep(wb.nm, wc.nm, wb.tm, wc.tm, t);
        assert(kids(wc, m) == kids(w, m));
        assert forall|k: Seq<u8>| (#[trigger] kidv(wc, m, k)) is Some implies isnode(kidv(wc, m, k)->0) && 1 <= k.len() <= 63 by { assert(kidv(wc, m, k) == kidv(w, m, k)); }
    }
    assert(kids(wc, n) == cont(wc.nm, wc.tm, b));
    assert(kids(w, n) == cont(wb.nm, wb.tm, b));
    assert forall|k: Seq<u8>| #[trigger] kidv(wc, n, k) == if k == l { Some(mknode(c)) } else { kidv(w, n, k) } by {
        assert(kidv(wc, n, k) == look((), cont(wc.nm, wc.tm, b), k));
    }
    assert forall|k: Seq<u8>| (#[trigger] kidv(wc, n, k)) is Some implies isnode(kidv(wc, n, k)->0) && 1 <= k.len() <= 63 by { assert(k != l ==> kidv(w, n, k) is Some); }
    assert forall|k: Seq<u8>| #[trigger] kid(wc, n, k) == if k == l { Some(c) } else { kid(w, n, k) } by { assert(kidv(wc, n, k) == if k == l { Some(mknode(c)) } else { kidv(w, n, k) }); }
    assert forall|k: int, x: Ref| #[trigger] owns(wc, n, k, x) implies owns(w, n, k, x) || !inw(w, k, x) by { }
    l_fpt_empty(wb.nm, wb.tm, bt);
    assert(same_on(wb.nm, wc.nm, fpt(wb.nm, wb.tm, bt)));
    l_fpt_keep(wb.nm, wc.nm, wb.tm, wc.tm, bt);
    assert(kids(wc, c) =~= Seq::<(Seq<u8>, @VT@)>::empty());
    l_nil((), wc.nm);
    assert forall|k: Seq<u8>| (#[trigger] kidv(wc, c, k)) is None by { }
    assert forall|k: Seq<u8>| #[trigger] kid(wc, c, k) is None by { assert(kidv(wc, c, k) is None); }
    assert forall|k: int, x: Ref| #[trigger] owns(wc, c, k, x) implies (!inw(w, k, x) && !owns(wc, n, k, x)) by { }
}

// ------------------------------------------------------------ names

pub open spec fn nlabs(c: Seq<u8>) -> Seq<Seq<u8>> { choose|ls: Seq<Seq<u8>>| #[trigger] labels_ok(ls) && enc(ls) == c }
pub open spec fn rev(ls: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(ls.len(), |i: int| ls[ls.len() - 1 - i]) }
// the path of a name given in wire form
pub open spec fn npath(c: Seq<u8>) -> Seq<Seq<u8>> { rev(nlabs(c)) }
// off is where label number j of the path starts in the wire form
pub open spec fn woff(c: Seq<u8>, j: int, off: int) -> bool {
    0 <= j <= nlabs(c).len() && off == c.len() - enc(nlabs(c).take(nlabs(c).len() - j)).len() && 0 <= off <= c.len() && (off == c.len() <==> j == nlabs(c).len())
}
pub proof fn l_woff0(c: Seq<u8>)
    requires nameok(c),
    ensures woff(c, 0, 0), npath(c).len() <= 127, nlabs(c).len() == npath(c).len(), npath(c).take(0) == Seq::<Seq<u8>>::empty(),
        forall|i: int| 0 <= i < npath(c).len() ==> 1 <= (#[trigger] npath(c)[i]).len() <= 63,
{
    let ls = nlabs(c);
    assert(labels_ok(ls) && enc(ls) == c);
    assert(ls.take(ls.len() as int) =~= ls);
    if ls.len() > 0 { assert(enc(ls).len() > 0); }
    assert(npath(c).take(0) =~= Seq::<Seq<u8>>::empty());
    assert forall|i: int| 0 <= i < npath(c).len() implies 1 <= (#[trigger] npath(c)[i]).len() <= 63 by { assert(npath(c)[i] == ls[ls.len() - 1 - i]); }
}
pub proof fn l_woff(c: Seq<u8>, j: int, off: int)
    requires nameok(c), woff(c, j, off), off < c.len(),
    ensures
        0 <= j < npath(c).len(),
        c[off] == npath(c)[j].len(), off + 1 + npath(c)[j].len() <= c.len(),
        c.subrange(off + 1, off + 1 + npath(c)[j].len()) == npath(c)[j],
        1 <= npath(c)[j].len() <= 63,
        woff(c, j + 1, off + 1 + npath(c)[j].len()),
        npath(c).take(j + 1) == npath(c).take(j).push(npath(c)[j]),
{
    let ls = nlabs(c);
    assert(labels_ok(ls) && enc(ls) == c);
    let m = ls.len() - j;
    l_at_off(c, ls, m, off);
    assert(npath(c)[j] == ls[m - 1]);
    assert(npath(c).take(j + 1) =~= npath(c).take(j).push(npath(c)[j]));
    if m == 1 { assert(ls.take(0) =~= Seq::<Seq<u8>>::empty()); }
}
pub proof fn l_wend(c: Seq<u8>, j: int, off: int)
    requires nameok(c), woff(c, j, off), off >= c.len(),
    ensures j == npath(c).len(), npath(c).take(j) == npath(c),
{
    assert(npath(c).take(j) =~= npath(c));
}

// the value of the closest enclosing name
pub open spec fn best(w: W, r: Ref, p: Seq<Seq<u8>>) -> Option<@V@>
    decreases p.len(),
{
    match val(w, r, p) { Some(v) => Some(v), None => if p.len() == 0 { None } else { best(w, r, p.drop_last()) } }
}
pub proof fn l_best_push(w: W, r: Ref, p: Seq<Seq<u8>>, l: Seq<u8>)
    ensures best(w, r, p.push(l)) == match val(w, r, p.push(l)) { Some(v) => Some(v), None => best(w, r, p) },
{
    assert(p.push(l).drop_last() =~= p);
}
pub proof fn l_bestnil(w: W, p: Seq<Seq<u8>>)
    ensures best(w, NIL, p) is None,
    decreases p.len(),
{
    l_nilok(w);
    assert(val(w, NIL, p) is None);
    if p.len() > 0 { l_bestnil(w, p.drop_last()); }
}
pub proof fn l_best_stop(w: W, r: Ref, p: Seq<Seq<u8>>, j: int)
    requires 0 <= j < p.len(), at(w, r, p.take(j + 1)) is None,
    ensures best(w, r, p) == best(w, r, p.take(j)), at(w, r, p) is None,
    decreases p.len(),
{
    if p.len() == j + 1 {
        assert(p.take(j + 1) =~= p);
        assert(p.drop_last() =~= p.take(j));
    } else {
        assert(p.drop_last().take(j + 1) =~= p.take(j + 1));
        assert(p.drop_last().take(j) =~= p.take(j));
        l_best_stop(w, r, p.drop_last(), j);
    }
}

// ------------------------------------------------------------ rebuilding a path upwards

// the names of tree r with everything at P and below replaced by tree n0
pub open spec fn newv(w: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, p: Seq<Seq<u8>>) -> Option<@V@> {
    if P.is_prefix_of(p) { val(w, n0, p.skip(P.len() as int)) } else { val(w, r, p) }
}
// n is what the subtree at the first j labels of P becomes
#[verifier::opaque]
pub open spec fn rebuilt(w0: W, w: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, j: int, n: Ref) -> bool {
    &&& 0 <= j <= P.len() && extw(w0, w)
    &&& okn(w0, r) && pruned(w0, r) && dep(w0, r, 127)
    &&& okn(w, n) && pruned(w, n) && dep(w, n, 127 - j)
    &&& forall|q: Seq<Seq<u8>>| #[trigger] val(w, n, q) == newv(w0, n0, r, P, P.take(j) + q)
    &&& apart(w, n, r, P.take(j))
}
pub proof fn l_rebuilt_ok(w0: W, w: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, j: int, n: Ref)
    requires rebuilt(w0, w, n0, r, P, j, n),
    ensures okn(w, n), pruned(w, n), dep(w, n, 127 - j), apart(w, n, r, P.take(j)), extw(w0, w), okn(w, r), pruned(w, r), dep(w, r, 127),
        forall|q: Seq<Seq<u8>>| #[trigger] val(w, n, q) == newv(w0, n0, r, P, P.take(j) + q),
        forall|p: Seq<Seq<u8>>| #[trigger] at(w, r, p) == at(w0, r, p),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w, r, p) == val(w0, r, p),
{
    reveal(rebuilt);
    l_ext(w0, w, r);
    assert(dep(w, r, 127) == dep(w0, r, 127));
}
pub proof fn l_rebuilt0(w: W, n: Ref, r: Ref, P: Seq<Seq<u8>>)
    requires okn(w, r), pruned(w, r), dep(w, r, 127), okn(w, n), pruned(w, n), dep(w, n, 127 - P.len()), apart(w, n, r, P),
    ensures rebuilt(w, w, n, r, P, P.len() as int, n),
{
    reveal(rebuilt);
    assert(P.take(P.len() as int) =~= P);
    assert forall|q: Seq<Seq<u8>>| #[trigger] val(w, n, q) == newv(w, n, r, P, P + q) by {
        assert(P.is_prefix_of(P + q));
        assert((P + q).skip(P.len() as int) =~= q);
    }
}
pub proof fn l_rebuilt_step(w0: W, w: W, w3: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, j: int, n: Ref, m: Ref, m1: Ref)
    requires rebuilt(w0, w, n0, r, P, j, n), j > 0, at(w0, r, P.take(j - 1)) == Some(m), thung(w, w3, m, P[j - 1], n, m1),
    ensures rebuilt(w0, w3, n0, r, P, j - 1, m1),
{
    l_rebuilt_ok(w0, w, n0, r, P, j, n);
    reveal(rebuilt);
    let Q = P.take(j - 1);
    let l = P[j - 1];
    assert(P.take(j) =~= Q + seq![l]);
    assert(at(w, r, Q) == Some(m));
    t_sub(w, r, Q, m);
    assert(apart(w, n, m, seq![l])) by {
        assert forall|q: Seq<Seq<u8>>, p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w, n, q, k, x) && #[trigger] hold(w, m, p, k, x) implies seq![l].is_prefix_of(p) by {
            assert(hold(w, r, Q + p, k, x));
            assert(P.take(j).is_prefix_of(Q + p));
            assert((Q + p)[j - 1] == P.take(j)[j - 1]);
            assert(p[0] == l);
            assert(seq![l] =~= p.subrange(0, 1));
        }
    }
    l_hang(w, w3, m, l, n, m1);
    l_extw(w0, w, w3);
    assert(dep(w, m, 127 - (j - 1)));
    assert(dep(w, n, 127 - (j - 1) - 1));
    assert forall|q: Seq<Seq<u8>>| #[trigger] val(w3, m1, q) == newv(w0, n0, r, P, Q + q) by {
        if q.len() > 0 && q[0] == l {
            l_split(q);
            assert(P.take(j) + q.skip(1) =~= Q + q);
            assert(val(w, n, q.skip(1)) == newv(w0, n0, r, P, P.take(j) + q.skip(1)));
        } else {
            assert(!P.is_prefix_of(Q + q)) by {
                if P.is_prefix_of(Q + q) {
                    assert((Q + q).len() >= P.len());
                    assert((Q + q)[j - 1] == P[j - 1]);
                }
            }
            assert(val(w, m, q) == val(w, r, Q + q));
        }
    }
    assert(apart(w3, m1, r, Q)) by {
        l_ext(w, w3, r);
        assert forall|q: Seq<Seq<u8>>, p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w3, m1, q, k, x) && #[trigger] hold(w3, r, p, k, x) implies Q.is_prefix_of(p) by {
            assert(hold(w, r, p, k, x));
            l_okn_lok(w, r, p);
            l_inw(w, at(w, r, p)->0, k, x);
            assert(thold(w, m, l, n, q, k, x));
            if q.len() > 0 && q[0] == l {
                assert(hold(w, n, q.skip(1), k, x));
                assert(P.take(j).is_prefix_of(p));
                assert(Q =~= p.subrange(0, j - 1)) by { assert(P.take(j) == p.subrange(0, j)); assert(Q =~= P.take(j).subrange(0, j - 1)); assert(p.subrange(0, j).subrange(0, j - 1) =~= p.subrange(0, j - 1)); }
            } else {
                assert(hold(w, m, q, k, x));
                assert(hold(w, r, Q + q, k, x));
                l_only(w, r, p, Q + q, k, x);
                assert(Q =~= p.subrange(0, j - 1));
            }
        }
    }
}
// the finished tree
pub proof fn l_rebuilt_end(w0: W, w: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, n: Ref)
    requires rebuilt(w0, w, n0, r, P, 0, n),
    ensures okd(w, n), extw(w0, w), forall|p: Seq<Seq<u8>>| #[trigger] val(w, n, p) == newv(w0, n0, r, P, p),
{
    l_rebuilt_ok(w0, w, n0, r, P, 0, n);
    assert forall|p: Seq<Seq<u8>>| #[trigger] val(w, n, p) == newv(w0, n0, r, P, p) by { assert(P.take(0) + p =~= p); }
}

// ------------------------------------------------------------ walking down

pub proof fn l_at_prefix(w: W, r: Ref, p: Seq<Seq<u8>>, j: int)
    requires at(w, r, p) is Some, 0 <= j <= p.len(),
    ensures at(w, r, p.take(j)) is Some,
    decreases p.len(),
{
    if j == p.len() {
        assert(p.take(j) =~= p);
    } else {
        assert(p.drop_last().take(j) =~= p.take(j));
        l_at_prefix(w, r, p.drop_last(), j);
    }
}
// what a lookup in the label tree of a node yields
pub proof fn l_look_kid(w: W, r: Ref, p: Seq<Seq<u8>>, n: Ref, j: int)
    requires okn(w, r), 0 <= j < p.len(), at(w, r, p.take(j)) == Some(n),
    ensures
        lok(w, n), n != NIL, w.dm.contains_key(n), okT(w.nm, w.tm, bra(w, n)),
        at(w, r, p.take(j + 1)) == kid(w, n, p[j]),
        kidv(w, n, p[j]) == look((), cont(w.nm, w.tm, bra(w, n)), p[j]),
        kidv(w, n, p[j]) is Some ==> isnode(kidv(w, n, p[j])->0) && at(w, r, p.take(j + 1)) == Some(noder(kidv(w, n, p[j])->0)),
        kidv(w, n, p[j]) is None ==> at(w, r, p.take(j + 1)) is None,
        kidv(w, n, p[j]) is Some ==> (prunedx(w, r, p.take(j)) ==> prunedx(w, r, p.take(j + 1))),
        kidv(w, n, p[j]) is Some ==> bra(w, n) != NIL && kids(w, n).len() > 0 && w.dm.contains_key(noder(kidv(w, n, p[j])->0)),
{
    l_okn_lok(w, r, p.take(j));
    assert(p.take(j + 1) =~= p.take(j).push(p[j]));
    l_snoc(w, r, p.take(j), p[j]);
    if kidv(w, n, p[j]) is Some {
        assert(kids(w, n).len() > 0) by { l_nokids(w, n); assert(kid(w, n, p[j]) is Some); }
        l_okn_lok(w, r, p.take(j + 1));
        if prunedx(w, r, p.take(j)) {
            assert forall|q: Seq<Seq<u8>>| (#[trigger] at(w, r, q)) is Some && q.len() > 0 && q != p.take(j + 1) implies full(w, at(w, r, q)->0) by {
                if q == p.take(j) { }
            }
        }
    }
}
pub proof fn l_root(w: W, r: Ref)
    requires okn(w, r),
    ensures r != NIL ==> lok(w, r) && w.dm.contains_key(r) && at(w, r, Seq::<Seq<u8>>::empty()) == Some(r),
{
    if r != NIL { l_okn_lok(w, r, Seq::<Seq<u8>>::empty()); }
}
// the value of one node is set
pub proof fn t_setval(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), w1.nm == w.nm, w1.tm == w.tm,
        w1.dm.dom() =~= w.dm.dom(), forall|m: Ref| #![trigger w1.dm[m]] w.dm.contains_key(m) && m != n ==> w1.dm[m] == w.dm[m],
        w1.dm[n].hasValue, w1.dm[n].branches == w.dm[n].branches,
    ensures
        okn(w1, r),
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, r, p) == if p == pre { Some(w1.dm[n].value) } else { val(w, r, p) },
        dep(w, r, 127) ==> dep(w1, r, 127),
        prunedx(w, r, pre) ==> pruned(w1, r),
{
    l_okn(w, r);
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n implies same(w, w1, at(w, r, p)->0) by {
        let m = at(w, r, p)->0;
        assert(lok(w, m));
        assert(w1.dm.contains_key(m) && w1.dm[m] == w.dm[m]);
        assert(kids(w1, m) == kids(w, m));
        assert forall|l: Seq<u8>| (#[trigger] kidv(w1, m, l)) is Some implies isnode(kidv(w1, m, l)->0) && 1 <= l.len() <= 63 by { assert(kidv(w, m, l) == kidv(w1, m, l)); }
    }
    assert(lok(w, n));
    assert(w1.dm.contains_key(n));
    assert(kids(w1, n) == kids(w, n));
    assert forall|l: Seq<u8>| (#[trigger] kidv(w1, n, l)) is Some implies isnode(kidv(w1, n, l)->0) && 1 <= l.len() <= 63 by { assert(kidv(w, n, l) == kidv(w1, n, l)); }
    l_rebr(w, w1, r, pre, n);
}
// a node that is not empty leads to a value
pub proof fn l_full_val(w: W, m: Ref, d: int) -> (q: Seq<Seq<u8>>)
    requires okn(w, m), pruned(w, m), m != NIL, dep(w, m, d), full(w, m),
    ensures val(w, m, q) is Some,
    decreases d,
{
    let e = Seq::<Seq<u8>>::empty();
    assert(at(w, m, e) == Some(m));
    if w.dm[m].hasValue {
        e
    } else {
        l_okn_lok(w, m, e);
        l_nokids(w, m);
        let l = choose|l: Seq<u8>| (#[trigger] kid(w, m, l)) is Some;
        let c = kid(w, m, l)->0;
        assert(e.push(l) =~= seq![l]);
        l_snoc(w, m, e, l);
        assert(seq![l].len() == 1);
        assert(at(w, m, seq![l]) == Some(c));
        t_sub(w, m, seq![l], c);
        l_kid(w, m, l);
        let q = l_full_val(w, c, d - 1);
        assert(val(w, c, q) == val(w, m, seq![l] + q));
        seq![l] + q
    }
}

// ------------------------------------------------------------ deleting

// the names of tree r with the one at P, or everything from P on, gone
pub open spec fn gone(w: W, r: Ref, P: Seq<Seq<u8>>, all: bool, p: Seq<Seq<u8>>) -> Option<@V@> {
    if (all && P.is_prefix_of(p)) || p == P { None } else { val(w, r, p) }
}
pub open spec fn below(w: W, r: Ref, P: Seq<Seq<u8>>) -> bool { exists|p: Seq<Seq<u8>>| P.is_prefix_of(p) && (#[trigger] val(w, r, p)) is Some }
pub proof fn l_nobelow(w: W, r: Ref, P: Seq<Seq<u8>>)
    requires at(w, r, P) is None,
    ensures !below(w, r, P), forall|p: Seq<Seq<u8>>, all: bool| #[trigger] gone(w, r, P, all, p) == val(w, r, p),
{
    assert forall|p: Seq<Seq<u8>>| P.is_prefix_of(p) implies (#[trigger] val(w, r, p)) is None by {
        if at(w, r, p) is Some {
            l_at_prefix(w, r, p, P.len() as int);
            assert(p.take(P.len() as int) =~= P);
        }
    }
    assert forall|p: Seq<Seq<u8>>, all: bool| #[trigger] gone(w, r, P, all, p) == val(w, r, p) by {
        if all && P.is_prefix_of(p) { assert(val(w, r, p) is None); }
    }
}
pub proof fn l_below(w: W, r: Ref, P: Seq<Seq<u8>>, m: Ref)
    requires okd(w, r), at(w, r, P) == Some(m), full(w, m),
    ensures below(w, r, P),
{
    t_sub(w, r, P, m);
    assert(dep(w, r, 127));
    let q = l_full_val(w, m, 127 - P.len());
    assert(val(w, m, q) == val(w, r, P + q));
    assert(P.is_prefix_of(P + q));
}
// nothing takes the place of the target
pub proof fn l_del0(w: W, r: Ref, P: Seq<Seq<u8>>)
    requires okd(w, r),
    ensures rebuilt(w, w, NIL, r, P, P.len() as int, NIL), extw(w, w),
{
    l_nilok(w);
    assert(extw(w, w));
    l_rebuilt0(w, NIL, r, P);
}
// a copy without a value takes the place of the target
pub proof fn l_del1(w: W, wb: W, r: Ref, P: Seq<Seq<u8>>, m: Ref, r1: Ref)
    requires
        okd(w, r), at(w, r, P) == Some(m), kids(w, m).len() > 0, extw(w, wb), r1 != NIL, !w.dm.contains_key(r1), wb.dm.contains_key(r1),
        wb.dm[r1].branches == bra(w, m), !wb.dm[r1].hasValue,
    ensures
        rebuilt(wb, wb, r1, r, P, P.len() as int, r1), extw(wb, wb), fl(wb, r1), okd(wb, r),
        forall|p: Seq<Seq<u8>>| #[trigger] at(wb, r, p) == at(w, r, p),
        forall|p: Seq<Seq<u8>>| #[trigger] newv(wb, r1, r, P, p) == gone(w, r, P, false, p),
{
    t_sub(w, r, P, m);
    l_recopy(w, wb, m, r1);
    l_ext(w, wb, r);
    assert(dep(w, r, 127));
    assert(dep(wb, r, 127) == dep(w, r, 127));
    assert(at(w, r, P).is_some() ==> P.len() <= 127);
    assert(dep(w, m, 127 - P.len()));
    assert(dep(wb, r1, 127 - P.len()));
    assert(apart(wb, r1, r, P)) by {
        assert forall|q: Seq<Seq<u8>>, p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(wb, r1, q, k, x) && #[trigger] hold(wb, r, p, k, x) implies P.is_prefix_of(p) by {
            assert(hold(w, r, p, k, x));
            l_okn_lok(w, r, p);
            l_inw(w, at(w, r, p)->0, k, x);
            assert(hold(w, m, q, k, x));
            assert(hold(w, r, P + q, k, x));
            l_only(w, r, p, P + q, k, x);
        }
    }
    l_rebuilt0(wb, r1, r, P);
    l_ext_node(w, wb, m);
    assert(kids(wb, r1) == kids(wb, m));
    assert forall|p: Seq<Seq<u8>>| #[trigger] newv(wb, r1, r, P, p) == gone(w, r, P, false, p) by {
        if P.is_prefix_of(p) {
            let q = p.skip(P.len() as int);
            assert(P + q =~= p);
            assert(val(wb, r1, q) == if q.len() == 0 { nodev(wb, r1) } else { val(w, m, q) });
            assert(val(w, m, q) == val(w, r, P + q));
            if p == P { assert(q.len() == 0); } else { assert(q.len() > 0) by { if q.len() == 0 { assert(p =~= P); } } }
        } else {
            assert(val(wb, r, p) == val(w, r, p));
            assert(p != P);
        }
    }
}
// without children the target takes everything below with it
pub proof fn l_gone0(w: W, r: Ref, P: Seq<Seq<u8>>, m: Ref)
    requires okd(w, r), at(w, r, P) == Some(m),
    ensures
        forall|p: Seq<Seq<u8>>| #[trigger] newv(w, NIL, r, P, p) == gone(w, r, P, true, p),
        kids(w, m).len() == 0 ==> forall|p: Seq<Seq<u8>>| #[trigger] gone(w, r, P, true, p) == gone(w, r, P, false, p),
{
    l_nilok(w);
    t_sub(w, r, P, m);
    assert forall|p: Seq<Seq<u8>>| #[trigger] newv(w, NIL, r, P, p) == gone(w, r, P, true, p) by {
        assert(P.is_prefix_of(P));
        if P.is_prefix_of(p) { assert(val(w, NIL, p.skip(P.len() as int)) is None); }
    }
    if kids(w, m).len() == 0 {
        l_leaf(w, m);
        assert forall|p: Seq<Seq<u8>>| #[trigger] gone(w, r, P, true, p) == gone(w, r, P, false, p) by {
            if P.is_prefix_of(p) && p != P {
                let q = p.skip(P.len() as int);
                assert(P + q =~= p);
                if q.len() == 0 { assert(p =~= P); }
                assert(val(w, m, q) == val(w, r, P + q));
            }
        }
    }
}
// two stretches of rebuilding in a row
pub proof fn l_rebuilt_chain(w0: W, w: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, j: int, n: Ref, p: Seq<Seq<u8>>)
    requires rebuilt(w0, w, n0, r, P, j, n),
    ensures newv(w, n, r, P.take(j), p) == newv(w0, n0, r, P, p),
{
    l_rebuilt_ok(w0, w, n0, r, P, j, n);
    reveal(rebuilt);
    let Q = P.take(j);
    if Q.is_prefix_of(p) {
        let q = p.skip(j);
        assert(Q + q =~= p);
        assert(val(w, n, q) == newv(w0, n0, r, P, Q + q));
    } else {
        assert(val(w, r, p) == val(w0, r, p));
        if P.is_prefix_of(p) {
            assert(P == p.subrange(0, P.len() as int));
            assert(Q =~= p.subrange(0, j));
        }
    }
}
// labels and nodes from the target up to the root
pub open spec fn upw(s: Seq<Str>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]@) }
pub open spec fn chain(w: W, r: Ref, P: Seq<Seq<u8>>, labels: Seq<Str>, nodes: Seq<Ref>) -> bool {
    &&& labels.len() == nodes.len() && P.len() == nodes.len()
    &&& forall|j: int| 0 <= j < P.len() ==> (#[trigger] labels[P.len() - 1 - j])@ == P[j]
    &&& forall|j: int| 0 <= j < P.len() ==> at(w, r, P.take(j)) == Some(#[trigger] nodes[P.len() - 1 - j])
    &&& at(w, r, P) is Some
}
pub proof fn l_chain(w: W, r: Ref, P: Seq<Seq<u8>>, labels: Seq<Str>, nodes: Seq<Ref>, k: int)
    requires chain(w, r, P, labels, nodes), okn(w, r), 0 <= k < P.len(),
    ensures
        labels[k]@ == P[P.len() - 1 - k], at(w, r, P.take(P.len() - 1 - k)) == Some(nodes[k]), lok(w, nodes[k]), nodes[k] != NIL, w.dm.contains_key(nodes[k]),
        kid(w, nodes[k], P[P.len() - 1 - k]) is Some, bra(w, nodes[k]) != NIL,
        okT(w.nm, w.tm, bra(w, nodes[k])),
{
    let j = P.len() - 1 - k;
    assert(labels[P.len() - 1 - j]@ == P[j]);
    assert(at(w, r, P.take(j)) == Some(nodes[P.len() - 1 - j]));
    l_at_prefix(w, r, P, j + 1);
    l_look_kid(w, r, P, nodes[k], j);
    l_root(w, r);
}
pub open spec fn troot(nodes: Seq<Ref>, n: Ref) -> Ref { if nodes.len() == 0 { n } else { nodes.last() } }

// what getBranch leaves in its two slices
pub open spec fn branch(w: W, r: Ref, P: Seq<Seq<u8>>, labels: Seq<Str>, nodes: Seq<Ref>) -> bool {
    &&& labels.len() == nodes.len() && P.len() < labels.len()
    &&& forall|k: int| 0 <= k < P.len() ==> (#[trigger] labels[labels.len() - 1 - k])@ == P[k]
    &&& forall|k: int| 0 <= k <= P.len() ==> at(w, r, P.take(k)) == Some(#[trigger] nodes[labels.len() - 1 - k])
}
pub proof fn t_branch(w: W, r: Ref, P: Seq<Seq<u8>>, labels: Seq<Str>, nodes: Seq<Ref>)
    requires okd(w, r), branch(w, r, P, labels, nodes),
    ensures
        at(w, r, P) == Some(nodes[labels.len() - 1 - P.len()]), lok(w, nodes[labels.len() - 1 - P.len()]), w.dm.contains_key(nodes[labels.len() - 1 - P.len()]), nodes[labels.len() - 1 - P.len()] != NIL,
        P.len() > 0 ==> full(w, nodes[labels.len() - 1 - P.len()]),
        P.len() == 0 ==> nodes[labels.len() - 1 - P.len()] == r,
        P.len() > 0 ==> labels[labels.len() - P.len()]@ == P.last() && at(w, r, P.take(P.len() - 1)) == Some(nodes[labels.len() - P.len()]) && lok(w, nodes[labels.len() - P.len()])
            && w.dm.contains_key(nodes[labels.len() - P.len()]) && nodes[labels.len() - P.len()] != NIL && kid(w, nodes[labels.len() - P.len()], P.last()) is Some && bra(w, nodes[labels.len() - P.len()]) != NIL
            && okT(w.nm, w.tm, bra(w, nodes[labels.len() - P.len()])),
{
    let L = labels.len();
    let m = P.len() as int;
    assert(P.take(m) =~= P);
    assert(at(w, r, P.take(m)) == Some(nodes[L - 1 - m]));
    l_okn_lok(w, r, P);
    if m > 0 {
        assert(full(w, at(w, r, P)->0)) by { assert(pruned(w, r)); }
        assert(labels[L - 1 - (m - 1)]@ == P[m - 1]);
        assert(at(w, r, P.take(m - 1)) == Some(nodes[L - 1 - (m - 1)]));
        l_look_kid(w, r, P, nodes[L - m], m - 1);
        l_root(w, r);
    } else {
        assert(r != NIL);
    }
}
// the rest of the way up, in a later state
pub proof fn t_tail(w: W, w3: W, r: Ref, n: Ref, P: Seq<Seq<u8>>, labels: Seq<Str>, nodes: Seq<Ref>)
    requires
        okd(w, r), branch(w, r, P, labels, nodes), P.len() > 0, forall|p: Seq<Seq<u8>>| #[trigger] at(w3, r, p) == at(w, r, p),
        n != NIL,
    ensures ({
        let i = labels.len() - P.len() + 1;
        let lb = labels.subrange(i, labels.len() as int);
        let nd = nodes.subrange(i, nodes.len() as int);
        chain(w3, troot(nd, n), upw(lb), lb, nd) && upw(lb) == P.take(P.len() - 1) && (nd.len() > 0 ==> troot(nd, n) == r) && (nd.len() == 0 <==> P.len() == 1) && nd.len() == P.len() - 1
    }),
{
    let L = labels.len();
    let i = L - P.len() + 1;
    let lb = labels.subrange(i, L as int);
    let nd = nodes.subrange(i, L as int);
    let Q = P.take(P.len() - 1);
    assert(lb.len() == P.len() - 1);
    assert forall|j: int| 0 <= j < Q.len() implies (#[trigger] lb[Q.len() - 1 - j])@ == Q[j] by {
        assert(lb[Q.len() - 1 - j] == labels[L - 1 - j]);
    }
    assert(upw(lb) =~= Q) by {
        assert forall|j: int| 0 <= j < Q.len() implies upw(lb)[j] == Q[j] by { assert(lb[Q.len() - 1 - j]@ == Q[j]); }
    }
    assert forall|j: int| 0 <= j < Q.len() implies at(w3, r, Q.take(j)) == Some(#[trigger] nd[Q.len() - 1 - j]) by {
        assert(nd[Q.len() - 1 - j] == nodes[L - 1 - j]);
        assert(Q.take(j) =~= P.take(j));
        assert(at(w, r, P.take(j)) == Some(nodes[L - 1 - j]));
    }
    assert(at(w, r, P.take(P.len() - 1)) == Some(nodes[L - 1 - (P.len() - 1)]));
    if nd.len() > 0 {
        assert(nd.last() == nodes[L - 1 - 0]);
        assert(at(w, r, P.take(0)) == Some(nodes[L - 1 - 0]));
        assert(P.take(0) =~= Seq::<Seq<u8>>::empty());
    } else {
        assert(Q =~= Seq::<Seq<u8>>::empty());
        assert(at(w3, n, Q) == Some(n));
    }
}
// ready to rebuild the rest of the way up
pub proof fn t_pre(w: W, w3: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, n: Ref)
    requires rebuilt(w, w3, n0, r, P, P.len() - 1, n),
    ensures okn(w3, n), pruned(w3, n), dep(w3, n, 127 - (P.len() - 1)), apart(w3, n, r, P.take(P.len() - 1)), okd(w3, r), P.len() == 1 ==> okd(w3, n), forall|p: Seq<Seq<u8>>| #[trigger] at(w3, r, p) == at(w, r, p),
        extw(w, w3),
{
    l_rebuilt_ok(w, w3, n0, r, P, P.len() - 1, n);
}
pub proof fn t_fin(w: W, w3: W, n0: Ref, r: Ref, P: Seq<Seq<u8>>, n: Ref, w1: W, ret: Ref, tr: Ref)
    requires
        rebuilt(w, w3, n0, r, P, P.len() - 1, n), P.len() > 1 ==> tr == r,
        forall|p: Seq<Seq<u8>>| #[trigger] val(w1, ret, p) == newv(w3, n, tr, P.take(P.len() - 1), p),
    ensures forall|p: Seq<Seq<u8>>| #[trigger] val(w1, ret, p) == newv(w, n0, r, P, p),
{
    assert forall|p: Seq<Seq<u8>>| #[trigger] val(w1, ret, p) == newv(w, n0, r, P, p) by {
        reveal(rebuilt);
        let Q = P.take(P.len() - 1);
        if P.len() == 1 { assert(Q.is_prefix_of(p)); }
        assert(newv(w3, n, tr, Q, p) == newv(w3, n, r, Q, p));
        l_rebuilt_chain(w, w3, n0, r, P, P.len() - 1, n, p);
    }
}
// ------------------------------------------------------------ listing

// the order of names: a name first, then what is below it by label
pub open spec fn plt(p: Seq<Seq<u8>>, q: Seq<Seq<u8>>) -> bool
    decreases p.len(),
{
    if q.len() == 0 { false } else if p.len() == 0 { true }
    else if p[0] == q[0] { plt(p.skip(1), q.skip(1)) }
    else { cmp((), p[0], q[0]) < 0 }
}
pub proof fn l_plt_irr(p: Seq<Seq<u8>>)
    ensures !plt(p, p),
    decreases p.len(),
{ if p.len() > 0 { l_plt_irr(p.skip(1)); } }
pub proof fn l_plt_trans(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>)
    requires plt(a, b), plt(b, c),
    ensures plt(a, c),
    decreases a.len(),
{
    if a.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] { l_plt_trans(a.skip(1), b.skip(1), c.skip(1)); }
        else {
            l_dl_total();
            l_trans((), a[0], b[0], c[0]);
        }
    }
}
// a name comes before its subdomains
pub proof fn l_plt_sub(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires a.is_prefix_of(b), a != b,
    ensures plt(a, b),
    decreases a.len(),
{
    if b.len() == a.len() { assert(a =~= b); }
    if a.len() > 0 {
        assert(a[0] == b[0]);
        assert(a.skip(1) =~= b.skip(1).subrange(0, a.len() - 1)) by { assert(a == b.subrange(0, a.len() as int)); }
        assert(a.skip(1) != b.skip(1));
        l_plt_sub(a.skip(1), b.skip(1));
    }
}
pub open spec fn psorted(s: Seq<(Seq<Seq<u8>>, @V@)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> plt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
// s lists what is stored, each name once, in order
pub open spec fn lists(w: W, r: Ref, s: Seq<(Seq<Seq<u8>>, @V@)>) -> bool {
    &&& psorted(s)
    &&& forall|i: int| 0 <= i < s.len() ==> val(w, r, (#[trigger] s[i]).0) == Some(s[i].1)
    &&& forall|p: Seq<Seq<u8>>| (#[trigger] val(w, r, p)) is Some ==> haspath(s, p)
}
pub open spec fn haspath(s: Seq<(Seq<Seq<u8>>, @V@)>, p: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p }
// the same, for the value of the root and the first i children only
pub open spec fn listsx(w: W, r: Ref, i: int, s: Seq<(Seq<Seq<u8>>, @V@)>) -> bool {
    &&& psorted(s)
    &&& forall|j: int| 0 <= j < s.len() ==> val(w, r, (#[trigger] s[j]).0) == Some(s[j].1) && early(w, r, i, s[j].0)
    &&& forall|p: Seq<Seq<u8>>| (#[trigger] val(w, r, p)) is Some && early(w, r, i, p) ==> haspath(s, p)
}
pub open spec fn early(w: W, r: Ref, i: int, p: Seq<Seq<u8>>) -> bool { p.len() == 0 || exists|j: int| 0 <= j < i && (#[trigger] kids(w, r)[j]).0 == p[0] }
// the text of the name at path p below a name with text s
pub open spec fn txt(s: Seq<u8>, p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len(),
{
    if p.len() == 0 { s } else { joined(hum(p.last()), txt(s, p.drop_last())) }
}
pub open spec fn joined(l: Seq<u8>, x: Seq<u8>) -> Seq<u8> { if x.len() == 0 { l } else { l + (seq![46u8] + x) } }
pub proof fn l_txt(s: Seq<u8>, l: Seq<u8>, p: Seq<Seq<u8>>)
    ensures txt(joined(hum(l), s), p) == txt(s, seq![l] + p),
    decreases p.len(),
{
    let a = seq![l] + p;
    if p.len() == 0 {
        assert(a.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(txt(s, a.drop_last()) == s);
        assert(a.last() == l);
    } else {
        assert(a.drop_last() =~= seq![l] + p.drop_last());
        assert(a.last() == p.last());
        l_txt(s, l, p.drop_last());
    }
}
// the entries of log from position from on are the names in s, below text t
pub open spec fn texts(log: Seq<@DP@>, from: int, t: Seq<u8>, s: Seq<(Seq<Seq<u8>>, @V@)>) -> bool {
    &&& log.len() == from + s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> dpent(#[trigger] log[from + i], t, s[i])
}
pub open spec fn dpent(p: @DP@, t: Seq<u8>, e: (Seq<Seq<u8>>, @V@)) -> bool { p.Key@ == txt(t, e.0) && p.Value == e.1 }
pub open spec fn listed(w: W, r: Ref, log: Seq<@DP@>, from: int, t: Seq<u8>) -> bool { exists|s: Seq<(Seq<Seq<u8>>, @V@)>| lists(w, r, s) && #[trigger] texts(log, from, t, s) }
// one more child
pub open spec fn below1(l: Seq<u8>, s: Seq<(Seq<Seq<u8>>, @V@)>) -> Seq<(Seq<Seq<u8>>, @V@)> { Seq::new(s.len(), |i: int| (seq![l] + s[i].0, s[i].1)) }
pub proof fn l_list0(w: W, r: Ref, s: Seq<(Seq<Seq<u8>>, @V@)>)
    requires r != NIL, s == if w.dm[r].hasValue { seq![(Seq::<Seq<u8>>::empty(), w.dm[r].value)] } else { Seq::<(Seq<Seq<u8>>, @V@)>::empty() },
    ensures listsx(w, r, 0, s),
{
    let e = Seq::<Seq<u8>>::empty();
    assert(at(w, r, e) == Some(r));
    assert forall|p: Seq<Seq<u8>>| (#[trigger] val(w, r, p)) is Some && early(w, r, 0, p) implies haspath(s, p) by {
        assert(p =~= e);
        assert(s[0].0 == p);
    }
}
pub proof fn l_list1(w: W, r: Ref, i: int, c: Ref, s: Seq<(Seq<Seq<u8>>, @V@)>, t: Seq<(Seq<Seq<u8>>, @V@)>)
    requires okn(w, r), r != NIL, listsx(w, r, i, s), 0 <= i < kids(w, r).len(), kid(w, r, kids(w, r)[i].0) == Some(c), lists(w, c, t), sorted((), kids(w, r)),
    ensures listsx(w, r, i + 1, s + below1(kids(w, r)[i].0, t)),
{
    l_dl_total();
    l_okn(w, r);
    let l = kids(w, r)[i].0;
    let b = below1(l, t);
    let u = s + b;
    assert forall|q: Seq<Seq<u8>>| #[trigger] val(w, c, q) == val(w, r, seq![l] + q) by { l_cons(w, r, l, q); }
    assert forall|j: int| 0 <= j < u.len() implies val(w, r, (#[trigger] u[j]).0) == Some(u[j].1) && early(w, r, i + 1, u[j].0) by {
        if j < s.len() {
            assert(u[j] == s[j]);
            if u[j].0.len() > 0 {
                let k = choose|k: int| 0 <= k < i && (#[trigger] kids(w, r)[k]).0 == s[j].0[0];
                assert(kids(w, r)[k].0 == u[j].0[0]);
            }
        } else {
            let q = t[j - s.len()].0;
            assert(u[j] == b[j - s.len()]);
            assert(val(w, c, q) == val(w, r, seq![l] + q));
            assert(u[j].0[0] == l);
            assert(kids(w, r)[i].0 == u[j].0[0]);
        }
    }
    assert forall|a: int, z: int| 0 <= a < z < u.len() implies plt((#[trigger] u[a]).0, (#[trigger] u[z]).0) by {
        if z < s.len() {
            assert(u[a] == s[a] && u[z] == s[z]);
        } else if a >= s.len() {
            let x = t[a - s.len()].0;
            let y = t[z - s.len()].0;
            assert(u[a].0 == seq![l] + x && u[z].0 == seq![l] + y);
            assert(plt(x, y));
            assert((seq![l] + x).skip(1) =~= x);
            assert((seq![l] + y).skip(1) =~= y);
            assert((seq![l] + x)[0] == (seq![l] + y)[0]);
        } else {
            let y = t[z - s.len()].0;
            assert(u[a] == s[a]);
            assert(u[z].0 == seq![l] + y);
            assert(u[z].0[0] == l);
            if u[a].0.len() > 0 {
                assert(early(w, r, i, s[a].0));
                let k = choose|k: int| 0 <= k < i && (#[trigger] kids(w, r)[k]).0 == s[a].0[0];
                assert(cmp((), kids(w, r)[k].0, kids(w, r)[i].0) < 0);
                assert(cmp((), l, l) == 0);
            }
        }
    }
    assert forall|p: Seq<Seq<u8>>| (#[trigger] val(w, r, p)) is Some && early(w, r, i + 1, p) implies haspath(u, p) by {
        if early(w, r, i, p) {
            assert(haspath(s, p));
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == p;
            assert(u[k] == s[k]);
        } else {
            let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] kids(w, r)[j]).0 == p[0];
            assert(j == i);
            l_split(p);
            let q = p.skip(1);
            assert(val(w, c, q) == val(w, r, seq![l] + q));
            assert(haspath(t, q));
            let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == q;
            assert(u[s.len() + k] == b[k]);
            assert(u[s.len() + k].0 == p);
        }
    }
}
pub proof fn l_list2(w: W, r: Ref, s: Seq<(Seq<Seq<u8>>, @V@)>)
    requires okn(w, r), r != NIL, listsx(w, r, kids(w, r).len() as int, s),
    ensures lists(w, r, s),
{
    l_okn(w, r);
    assert forall|p: Seq<Seq<u8>>| (#[trigger] val(w, r, p)) is Some implies haspath(s, p) by {
        if p.len() > 0 {
            l_split(p);
            l_cons(w, r, p[0], p.skip(1));
            assert(kid(w, r, p[0]) is Some);
            assert(kidv(w, r, p[0]) is Some);
            let j = choose|j: int| 0 <= j < kids(w, r).len() && cmp((), (#[trigger] kids(w, r)[j]).0, p[0]) == 0;
            l_dl_total();
            assert(kids(w, r)[j].0 == p[0]);
        }
        assert(early(w, r, kids(w, r).len() as int, p));
    }
}
pub proof fn l_texts(log0: Seq<@DP@>, log1: Seq<@DP@>, from: int, t: Seq<u8>, l: Seq<u8>, s: Seq<(Seq<Seq<u8>>, @V@)>, u: Seq<(Seq<Seq<u8>>, @V@)>)
    requires from >= 0, texts(log0, from, t, s), texts(log1, log0.len() as int, joined(hum(l), t), u), log1.len() >= log0.len(), log1.subrange(0, log0.len() as int) == log0,
    ensures texts(log1, from, t, s + below1(l, u)),
{
    let v = s + below1(l, u);
    assert forall|i: int| 0 <= i < v.len() implies dpent(#[trigger] log1[from + i], t, v[i]) by {
        if i < s.len() {
            assert(log1.subrange(0, log0.len() as int)[from + i] == log1[from + i]);
            assert(v[i] == s[i]);
        } else {
            let k = i - s.len();
            assert(log1[log0.len() + k] == log1[from + i]);
            assert(v[i] == (seq![l] + u[k].0, u[k].1));
            l_txt(t, l, u[k].0);
        }
    }
}
// the child under the i-th label
pub proof fn l_kid_at(w: W, r: Ref, i: int)
    requires okd(w, r), r != NIL, 0 <= i < kids(w, r).len(),
    ensures
        isnode(kids(w, r)[i].1), kid(w, r, kids(w, r)[i].0) == Some(noder(kids(w, r)[i].1)), okd(w, noder(kids(w, r)[i].1)), 0 <= hgt(w, noder(kids(w, r)[i].1)) < hgt(w, r), 1 <= kids(w, r)[i].0.len() <= 63,
{
    l_dl_total();
    let e = Seq::<Seq<u8>>::empty();
    let l = kids(w, r)[i].0;
    assert(at(w, r, e) == Some(r));
    l_okn_lok(w, r, e);
    l_nokids(w, r);
    l_look_at((), kids(w, r), l, i);
    assert(kidv(w, r, l) == Some(kids(w, r)[i].1));
    let c = noder(kids(w, r)[i].1);
    l_snoc(w, r, e, l);
    assert(e.push(l) =~= seq![l]);
    t_sub(w, r, seq![l], c);
    l_hgt(w, r, 127);
    assert(at(w, r, seq![l]) is Some && seq![l].len() == 1);
    assert(dep(w, r, hgt(w, r)));
    assert(dep(w, r, 127));
    assert(dep(w, c, 126));
    assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, c, p)) is Some implies p.len() <= 127 by { }
    assert(dep(w, c, hgt(w, r) - 1));
    l_hgt(w, c, hgt(w, r) - 1);
}
pub open spec fn ishgt(w: W, r: Ref, d: int) -> bool { d >= 0 && dep(w, r, d) && (d == 0 || !dep(w, r, d - 1)) }
pub open spec fn hgt(w: W, r: Ref) -> int { choose|d: int| #[trigger] ishgt(w, r, d) }
pub proof fn l_hgt(w: W, r: Ref, d: int)
    requires d >= 0, dep(w, r, d),
    ensures 0 <= hgt(w, r) <= d, dep(w, r, hgt(w, r)),
{
    l_hgt_ex(w, r, d);
    let e = hgt(w, r);
    assert(ishgt(w, r, e));
    if e > d {
        assert forall|p: Seq<Seq<u8>>| (#[trigger] at(w, r, p)) is Some implies p.len() <= e - 1 by { }
    }
}
pub proof fn l_hgt_ex(w: W, r: Ref, d: int)
    requires d >= 0, dep(w, r, d),
    ensures exists|e: int| #[trigger] ishgt(w, r, e),
    decreases d,
{
    if d > 0 && dep(w, r, d - 1) { l_hgt_ex(w, r, d - 1); } else { assert(ishgt(w, r, d)); }
}
// the listing is determined by what is stored
pub proof fn l_lists_eq(w: W, r: Ref, s: Seq<(Seq<Seq<u8>>, @V@)>, w1: W, r1: Ref, t: Seq<(Seq<Seq<u8>>, @V@)>, n: int)
    requires lists(w, r, s), lists(w1, r1, t), forall|p: Seq<Seq<u8>>| #[trigger] val(w, r, p) == val(w1, r1, p), 0 <= n <= s.len(),
    ensures n <= t.len(), s.take(n) == t.take(n), n == s.len() ==> s == t,
    decreases n,
{
    if n > 0 {
        l_lists_eq(w, r, s, w1, r1, t, n - 1);
        let p = s[n - 1].0;
        assert(val(w, r, p) == val(w1, r1, p));
        assert(haspath(t, p));
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == p;
        if k < n - 1 {
            assert(s.take(n - 1)[k] == t.take(n - 1)[k]);
            assert(plt(s[k].0, s[n - 1].0));
            l_plt_irr(p);
        }
        if k > n - 1 {
            let q = t[n - 1].0;
            assert(plt(q, p));
            assert(val(w, r, q) == val(w1, r1, q));
            assert(haspath(s, q));
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == q;
            if j < n - 1 {
                assert(s.take(n - 1)[j] == t.take(n - 1)[j]);
                assert(plt(t[j].0, t[n - 1].0));
                l_plt_irr(q);
            } else if j == n - 1 {
                l_plt_irr(q);
            } else {
                assert(plt(s[n - 1].0, s[j].0));
                l_plt_trans(q, p, q);
                l_plt_irr(q);
            }
        }
        assert(k == n - 1);
        assert(s[n - 1].1 == t[n - 1].1);
        assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
        assert(t.take(n) =~= t.take(n - 1).push(t[n - 1]));
    } else {
        assert(s.take(0) =~= t.take(0));
    }
    if n == s.len() {
        if t.len() > n {
            let q = t[n].0;
            assert(val(w, r, q) == val(w1, r1, q));
            assert(haspath(s, q));
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == q;
            assert(s.take(n)[j] == t.take(n)[j]);
            assert(plt(t[j].0, t[n].0));
            l_plt_irr(q);
        }
        assert(s.take(n) =~= s);
        assert(t.take(n) =~= t);
    }
}

// ------------------------------------------------------------ what writing in place may touch

pub open spec fn cellsame(w: W, w1: W, k: int, x: Ref) -> bool {
    inw(w1, k, x) && if k == 0 { w1.dm[x] == w.dm[x] } else if k == 1 { w1.tm[x] == w.tm[x] } else { w1.nm[x] == w.nm[x] }
}
pub open spec fn held(w: W, r: Ref, k: int, x: Ref) -> bool { exists|p: Seq<Seq<u8>>| #[trigger] hold(w, r, p, k, x) }
// between the two states only node n was written
pub open spec fn onlyin(w: W, w1: W, n: Ref) -> bool {
    forall|k: int, x: Ref| #[trigger] inw(w, k, x) ==> inw(w1, k, x) && (!owns(w, n, k, x) ==> cellsame(w, w1, k, x))
}
// only parts of tree r were written, and what tree r is made of now was part of it or is new
#[verifier::opaque]
pub open spec fn tframe(w: W, w1: W, r: Ref) -> bool {
    &&& forall|k: int, x: Ref| #[trigger] inw(w, k, x) ==> inw(w1, k, x) && (!held(w, r, k, x) ==> cellsame(w, w1, k, x))
    &&& forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) ==> held(w, r, k, x) || !inw(w, k, x)
}
pub proof fn t_frame0(w: W, r: Ref)
    ensures tframe(w, w, r),
{
    reveal(tframe);
}
pub proof fn t_frame_trans(a: W, b: W, c: W, r: Ref)
    requires tframe(a, b, r), tframe(b, c, r),
    ensures tframe(a, c, r),
{
    reveal(tframe);
    assert forall|k: int, x: Ref| #[trigger] inw(a, k, x) implies inw(c, k, x) && (!held(a, r, k, x) ==> cellsame(a, c, k, x)) by {
        assert(inw(b, k, x));
        if !held(a, r, k, x) {
            if held(b, r, k, x) { let p = choose|p: Seq<Seq<u8>>| #[trigger] hold(b, r, p, k, x); assert(false); }
            assert(cellsame(a, b, k, x));
            assert(cellsame(b, c, k, x));
        }
    }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(c, r, p, k, x) implies held(a, r, k, x) || !inw(a, k, x) by {
        if inw(a, k, x) {
            assert(inw(b, k, x));
            assert(held(b, r, k, x));
            let q = choose|q: Seq<Seq<u8>>| #[trigger] hold(b, r, q, k, x);
            assert(held(a, r, k, x));
        }
    }
}
// node n at pre was written, and the shape stayed
pub proof fn t_frame_node(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref)
    requires
        at(w, r, pre) == Some(n), onlyin(w, w1, n), forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p), okn(w, r),
        forall|k: int, x: Ref| #[trigger] owns(w1, n, k, x) ==> owns(w, n, k, x) || !inw(w, k, x),
        forall|p: Seq<Seq<u8>>, k: int, x: Ref| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n ==> (#[trigger] owns(w1, at(w, r, p)->0, k, x) ==> owns(w, at(w, r, p)->0, k, x)),
    ensures tframe(w, w1, r),
{
    reveal(tframe);
    assert forall|k: int, x: Ref| #[trigger] inw(w, k, x) implies inw(w1, k, x) && (!held(w, r, k, x) ==> cellsame(w, w1, k, x)) by {
        if owns(w, n, k, x) { assert(hold(w, r, pre, k, x)); }
    }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) implies held(w, r, k, x) || !inw(w, k, x) by {
        let m = at(w, r, p)->0;
        assert(owns(w1, m, k, x));
        if m == n { if owns(w, n, k, x) { assert(hold(w, r, p, k, x)); } } else { assert(hold(w, r, p, k, x)); }
    }
}
pub proof fn t_frame_newbr(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, b: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), bra(w, n) == NIL,
        ext(w.nm, w1.nm), extT(w.tm, w1.tm), w1.dm =~= w.dm.insert(n, @N@ { branches: b, ..w.dm[n] }),
        b != NIL, !w.tm.contains_key(b), okT(w1.nm, w1.tm, b), cont(w1.nm, w1.tm, b) == Seq::<(Seq<u8>, @VT@)>::empty(),
    ensures tframe(w, w1, r),
{
    l_newbr(w, w1, r, pre, n, b);
    l_okn(w, r);
    assert(lok(w, n));
    l_fpt_empty(w1.nm, w1.tm, b);
    assert(onlyin(w, w1, n)) by {
        assert forall|k: int, x: Ref| #[trigger] inw(w, k, x) implies inw(w1, k, x) && (!owns(w, n, k, x) ==> cellsame(w, w1, k, x)) by { }
    }
    let wx = W { dm: w.dm, ..w1 };
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| (#[trigger] at(w, r, p)) is Some && at(w, r, p)->0 != n implies (#[trigger] owns(w1, at(w, r, p)->0, k, x) ==> owns(w, at(w, r, p)->0, k, x)) by {
        let m = at(w, r, p)->0;
        assert(lok(w, m));
        l_ext_node(w, wx, m);
        l_swap(w, wx, w1, m);
        assert(same(w, w1, m));
        assert(owns(w1, m, k, x) == owns(w, m, k, x));
    }
    t_frame_node(w, w1, r, pre, n);
}
pub proof fn t_frame_set(w: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), w1.nm == w.nm, w1.tm == w.tm,
        w1.dm.dom() =~= w.dm.dom(), forall|m: Ref| #![trigger w1.dm[m]] w.dm.contains_key(m) && m != n ==> w1.dm[m] == w.dm[m],
        w1.dm[n].branches == w.dm[n].branches,
    ensures tframe(w, w1, r),
{
    l_okn(w, r);
    assert forall|k: int, x: Ref| #[trigger] inw(w, k, x) implies inw(w1, k, x) && (!owns(w, n, k, x) ==> cellsame(w, w1, k, x)) by {
        if k == 0 { assert(w1.dm.contains_key(x)); }
    }
    assert forall|m: Ref| #[trigger] w.dm.contains_key(m) implies bra(w1, m) == bra(w, m) by { if m != n { assert(w1.dm[m] == w.dm[m]); } }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| (#[trigger] at(w, r, p)) is Some implies (#[trigger] owns(w1, at(w, r, p)->0, k, x) ==> owns(w, at(w, r, p)->0, k, x)) by {
        let m = at(w, r, p)->0;
        assert(lok(w, m));
        assert(bra(w1, m) == bra(w, m));
    }
    assert forall|p: Seq<Seq<u8>>| #[trigger] at(w1, r, p) == at(w, r, p) by {
        assert forall|q: Seq<Seq<u8>>| (#[trigger] at(w, r, q)) is Some implies kids(w1, at(w, r, q)->0) == kids(w, at(w, r, q)->0) by { assert(lok(w, at(w, r, q)->0)); }
        l_same_at(w, w1, r, p);
    }
    assert forall|k: int, x: Ref| #[trigger] owns(w1, n, k, x) implies owns(w, n, k, x) || !inw(w, k, x) by { assert(lok(w, n)); }
    t_frame_node(w, w1, r, pre, n);
}
pub proof fn t_frame_graft(w: W, wb: W, w1: W, r: Ref, pre: Seq<Seq<u8>>, n: Ref, l: Seq<u8>, c: Ref)
    requires
        okn(w, r), at(w, r, pre) == Some(n), grafted(w, w1, r, pre, n, l, c), kid(w, n, l) is None, bra(w, n) != NIL,
        ext(w.nm, wb.nm), extT(w.tm, wb.tm), extN(w.dm, wb.dm), w1.dm == wb.dm,
        keeps(wb.nm, w1.nm, wb.nm.dom().difference(fp(tree(wb.nm, wb.tm[bra(w, n)].root)))),
        forall|u: Ref| #[trigger] wb.tm.contains_key(u) && u != bra(w, n) ==> w1.tm.contains_key(u) && w1.tm[u] == wb.tm[u],
        forall|x: Ref| #[trigger] wb.nm.contains_key(x) ==> w1.nm.contains_key(x),
    ensures tframe(w, w1, r),
{
    l_graft(w, w1, r, pre, n, l, c);
    l_okn(w, r);
    let b = bra(w, n);
    assert(lok(w, n));
    l_fpt_ext(w.nm, wb.nm, w.tm, wb.tm, b);
    l_fpt_dom(w.nm, w.tm, b);
    assert(lok(w1, n));
    reveal(tframe);
    assert forall|k: int, x: Ref| #[trigger] inw(w, k, x) implies inw(w1, k, x) && (!held(w, r, k, x) ==> cellsame(w, w1, k, x)) by {
        if owns(w, n, k, x) { assert(hold(w, r, pre, k, x)); }
        if k == 0 { assert(wb.dm.contains_key(x)); }
        else if k == 1 { assert(wb.tm.contains_key(x)); if x == b { assert(b != NIL); } }
        else {
            assert(wb.nm.contains_key(x));
            if !owns(w, n, k, x) {
                assert(!fpt(wb.nm, wb.tm, b).contains(x));
                assert(wb.nm.dom().difference(fp(tree(wb.nm, wb.tm[b].root))).contains(x));
            }
        }
    }
    assert forall|p: Seq<Seq<u8>>, k: int, x: Ref| #[trigger] hold(w1, r, p, k, x) implies held(w, r, k, x) || !inw(w, k, x) by {
        if p == pre.push(l) {
            assert(owns(w1, c, k, x));
        } else {
            let m = at(w, r, p)->0;
            assert(owns(w1, m, k, x));
            if m == n { if owns(w, n, k, x) { assert(hold(w, r, p, k, x)); } }
            else { assert(same(w, w1, m)); assert(hold(w, r, p, k, x)); }
        }
    }
}
