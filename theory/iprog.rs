// how far an update of the networks q has got: the first j were shown to the callback
#[verifier::opaque]
pub open spec fn prog@X@(hn: MN, m0: Map<Ref, @S@>, m: Map<Ref, @S@>, q: Seq<It>, j: int, l0: Seq<(iptree_Pair, Iface, bool)>, l: Seq<(iptree_Pair, Iface, bool)>) -> bool {
    &&& 0 <= j <= q.len()
    &&& l == l0 + l.skip(l0.len() as int) && l.len() == l0.len() + j
    &&& ustate@X@(m0, m, refs(q.take(j)), l.skip(l0.len() as int))
    &&& pairs_are(hn, pof(l.skip(l0.len() as int)), q.take(j))
}
pub proof fn l_prog0@X@(hn: MN, m: Map<Ref, @S@>, q: Seq<It>, l: Seq<(iptree_Pair, Iface, bool)>)
    ensures prog@X@(hn, m, m, q, 0, l, l),
{
    reveal(prog@X@);
    l_ustart@X@(m);
    assert(l.skip(l.len() as int) =~= Seq::empty());
    assert(l =~= l + l.skip(l.len() as int));
    assert(refs(q.take(0)) =~= Seq::empty());
    l_no_pairs(hn, pof(l.skip(l.len() as int)), q.take(0));
}
pub proof fn l_prog@X@(hn0: MN, hn1: MN, m0: Map<Ref, @S@>, m: Map<Ref, @S@>, q: Seq<It>, j: int, l0: Seq<(iptree_Pair, Iface, bool)>, l: Seq<(iptree_Pair, Iface, bool)>, e: (iptree_Pair, Iface, bool), m2: Map<Ref, @S@>, l2: Seq<(iptree_Pair, Iface, bool)>)
    requires
        prog@X@(hn0, m0, m, q, j, l0, l), distinct(q), 0 <= j < q.len(), m0.contains_key(q[j].r),
        extnet(hn0, hn1), pair_is(hn1, e.0, q[j]), !is_sub(e.1), l2 == l.push(e),
        m2 =~= m.insert(q[j].r, @S@ { @VAL@: if e.2 { e.1 } else { m[q[j].r].@VAL@ }, ..m[q[j].r] }),
    ensures prog@X@(hn1, m0, m2, q, j + 1, l0, l2),
{
    reveal(prog@X@);
    reveal(distinct);
    let lg = l.skip(l0.len() as int);
    let n = l0.len() as int;
    assert(l2.skip(n) =~= lg.push(e));
    assert(l2 =~= l0 + l2.skip(n));
    assert(q.take(j + 1) =~= q.take(j).push(q[j]));
    assert(refs(q.take(j + 1)) =~= refs(q.take(j)).push(q[j].r));
    assert(!refs(q.take(j)).contains(q[j].r)) by {
        if refs(q.take(j)).contains(q[j].r) {
            let i = choose|i: int| 0 <= i < refs(q.take(j)).len() && refs(q.take(j))[i] == q[j].r;
            assert(q[i].r != q[j].r);
        }
    }
    l_ustep@X@(m0, m, refs(q.take(j)), lg, q[j].r, e, m2);
    l_call(hn0, hn1, q.take(j), lg, e, q[j]);
}
// the next node is still as it was
pub proof fn l_next@X@(hn: MN, m0: Map<Ref, @S@>, m: Map<Ref, @S@>, q: Seq<It>, j: int, l0: Seq<(iptree_Pair, Iface, bool)>, l: Seq<(iptree_Pair, Iface, bool)>)
    requires prog@X@(hn, m0, m, q, j, l0, l), distinct(q), 0 <= j < q.len(), m0.contains_key(q[j].r),
    ensures m.contains_key(q[j].r), m[q[j].r] == m0[q[j].r],
{
    reveal(prog@X@);
    reveal(distinct);
    assert(!refs(q.take(j)).contains(q[j].r)) by {
        if refs(q.take(j)).contains(q[j].r) {
            let i = choose|i: int| 0 <= i < refs(q.take(j)).len() && refs(q.take(j))[i] == q[j].r;
            assert(q[i].r != q[j].r);
        }
    }
    l_ufresh@X@(m0, m, refs(q.take(j)), l.skip(l0.len() as int), q[j].r);
}
pub proof fn l_prog_tree@X@(hn: MN, m0: Map<Ref, @S@>, m: Map<Ref, @S@>, q: Seq<It>, j: int, l0: Seq<(iptree_Pair, Iface, bool)>, l: Seq<(iptree_Pair, Iface, bool)>, r: Ref)
    requires prog@X@(hn, m0, m, q, j, l0, l), wf@X@(m0, r),
    ensures wf@X@(m, r), leaves@X@(tree@X@(m, r)) == leaves@X@(tree@X@(m0, r)),
{
    reveal(prog@X@);
    l_reval@X@(m0, m, refs(q.take(j)), l.skip(l0.len() as int), r);
}
// a node that is not among those to be shown keeps its value
pub proof fn l_prog_not@X@(hn: MN, m0: Map<Ref, @S@>, m: Map<Ref, @S@>, q: Seq<It>, j: int, l0: Seq<(iptree_Pair, Iface, bool)>, l: Seq<(iptree_Pair, Iface, bool)>, x: Ref)
    requires prog@X@(hn, m0, m, q, j, l0, l), m0.contains_key(x), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).r != x,
    ensures m.contains_key(x), m[x] == m0[x],
{
    reveal(prog@X@);
    if refs(q.take(j)).contains(x) {
        let i = choose|i: int| 0 <= i < refs(q.take(j)).len() && refs(q.take(j))[i] == x;
        assert(q[i].r == x);
    }
    l_ufresh@X@(m0, m, refs(q.take(j)), l.skip(l0.len() as int), x);
}
pub proof fn l_prog_end@X@(hn: MN, m0: Map<Ref, @S@>, m: Map<Ref, @S@>, q: Seq<It>, l0: Seq<(iptree_Pair, Iface, bool)>, l: Seq<(iptree_Pair, Iface, bool)>)
    requires prog@X@(hn, m0, m, q, q.len() as int, l0, l),
    ensures ({
        let lg = l.skip(l0.len() as int);
        l == l0 + lg && ustate@X@(m0, m, refs(q), lg) && pairs_are(hn, pof(lg), q)
    }),
{
    reveal(prog@X@);
    assert(q.take(q.len() as int) =~= q);
}
