// The exported tree: @TS@ objects over @S@ nodes.
pub open spec fn cont(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref) -> Seq<(Seq<u8>, @VT@)> {
    if t == NIL { Seq::empty() } else { ino(tree(nm, tm[t].root)) }
}
pub open spec fn okT(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref) -> bool {
    t == NIL || (tm.contains_key(t) && total(tcmp(tm, t)) && wf(tcmp(tm, t), nm, tm[t].root))
}
pub open spec fn extT(m0: Map<Ref, @TS@>, m1: Map<Ref, @TS@>) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}
pub proof fn l_ext_wf(ct: @CT@, m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, r: Ref)
    requires ext(m0, m1), wf(ct, m0, r),
    ensures wf(ct, m1, r), tree(m1, r) == tree(m0, r),
{
    let t = tree(m0, r);
    l_dom(m0, t);
    l_frame(m0, m1, t);
    l_unique(m1, t);
}
// trees that existed before are as they were
pub open spec fn persists(nm0: Map<Ref, @S@>, nm1: Map<Ref, @S@>, tm0: Map<Ref, @TS@>, tm1: Map<Ref, @TS@>) -> bool {
    forall|u: Ref| #[trigger] okT(nm0, tm0, u) ==> okT(nm1, tm1, u) && cont(nm1, tm1, u) == cont(nm0, tm0, u) && tcmp(tm1, u) == tcmp(tm0, u)
}
pub proof fn l_persists(nm0: Map<Ref, @S@>, nm1: Map<Ref, @S@>, tm0: Map<Ref, @TS@>, tm1: Map<Ref, @TS@>)
    requires ext(nm0, nm1), extT(tm0, tm1),
    ensures persists(nm0, nm1, tm0, tm1),
{
    assert forall|u: Ref| #[trigger] okT(nm0, tm0, u) implies okT(nm1, tm1, u) && cont(nm1, tm1, u) == cont(nm0, tm0, u) && tcmp(tm1, u) == tcmp(tm0, u) by {
        if u != NIL { l_ext_wf(tcmp(tm0, u), nm0, nm1, tm0[u].root); }
    }
}

// the map after putting key -> val
pub open spec fn put_map(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, val: @VT@, s1: Seq<(Seq<u8>, @VT@)>) -> bool {
    &&& sorted(ct, s1)
    &&& forall|k: Seq<u8>| #[trigger] look(ct, s1, k) == if cmp(ct, key, k) == 0 { Some(val) } else { look(ct, s0, k) }
    &&& s1.len() == s0.len() + if look(ct, s0, key) is Some { 0int } else { 1 }
}
pub proof fn l_put_map(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, val: @VT@, s1: Seq<(Seq<u8>, @VT@)>)
    requires total(ct), sorted(ct, s0), ins_seq(ct, s0, key, val, s1),
    ensures put_map(ct, s0, key, val, s1),
{
    assert forall|k: Seq<u8>| #[trigger] look(ct, s1, k) == if cmp(ct, key, k) == 0 { Some(val) } else { look(ct, s0, k) } by {
        l_ins_look(ct, s0, key, val, s1, k);
    }
    let i = choose|i: int| #[trigger] ins_at(ct, s0, i, key, val, s1);
    if s1.len() == s0.len() {
        l_look_at(ct, s0, key, i);
    } else {
        assert forall|j: int| 0 <= j < s0.len() implies cmp(ct, (#[trigger] s0[j]).0, key) != 0 by {
            let j1 = if j < i { j } else { j + 1 };
            assert(s1[j1] == s0[j]);
            assert(s1[i] == (key, val));
            assert(cmp(ct, key, s0[j].0) != 0);
            assert((cmp(ct, s0[j].0, key) < 0) == (cmp(ct, key, s0[j].0) > 0) && (cmp(ct, key, s0[j].0) < 0) == (cmp(ct, s0[j].0, key) > 0));
        }
    }
}
// the map after removing key
pub open spec fn rem_map(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, s1: Seq<(Seq<u8>, @VT@)>, ok: bool) -> bool {
    &&& sorted(ct, s1)
    &&& ok == (look(ct, s0, key) is Some)
    &&& !ok ==> s1 == s0
    &&& ok ==> forall|k: Seq<u8>| #[trigger] look(ct, s1, k) == if cmp(ct, key, k) == 0 { None } else { look(ct, s0, k) }
    &&& ok ==> s1.len() == s0.len() - 1
}
pub proof fn l_rem_map(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, s1: Seq<(Seq<u8>, @VT@)>, ok: bool)
    requires total(ct), sorted(ct, s0), sorted(ct, s1), del_seq(ct, s0, key, s1, ok),
    ensures rem_map(ct, s0, key, s1, ok),
{
    if ok {
        let i = choose|i: int| 0 <= i < s0.len() && cmp(ct, (#[trigger] s0[i]).0, key) == 0 && s1 == s0.remove(i);
        l_look_at(ct, s0, key, i);
        assert forall|k: Seq<u8>| #[trigger] look(ct, s1, k) == if cmp(ct, key, k) == 0 { None } else { look(ct, s0, k) } by {
            l_rem_look(ct, s0, key, i, k);
        }
    }
}
pub proof fn l_rem_look(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, i: int, k: Seq<u8>)
    requires total(ct), sorted(ct, s0), 0 <= i < s0.len(), cmp(ct, s0[i].0, key) == 0,
    ensures look(ct, s0.remove(i), k) == if cmp(ct, key, k) == 0 { None } else { look(ct, s0, k) },
{
    let s1 = s0.remove(i);
    l_sorted_remove(ct, s0, i);
    if cmp(ct, key, k) == 0 {
        l_trans(ct, s0[i].0, key, k);
        assert((cmp(ct, s0[i].0, k) < 0) == (cmp(ct, k, s0[i].0) > 0) && (cmp(ct, k, s0[i].0) < 0) == (cmp(ct, s0[i].0, k) > 0));
        assert((cmp(ct, key, k) < 0) == (cmp(ct, k, key) > 0) && (cmp(ct, k, key) < 0) == (cmp(ct, key, k) > 0));
        assert((cmp(ct, s0[i].0, key) < 0) == (cmp(ct, key, s0[i].0) > 0) && (cmp(ct, key, s0[i].0) < 0) == (cmp(ct, s0[i].0, key) > 0));
        l_trans(ct, k, key, s0[i].0);
        assert(cmp(ct, s0[i].0, k) == 0);
        assert forall|j: int| 0 <= j < s1.len() implies cmp(ct, (#[trigger] s1[j]).0, k) != 0 by {
            let j0 = if j < i { j } else { j + 1 };
            assert(s1[j] == s0[j0]);
            if cmp(ct, s0[j0].0, k) == 0 { l_eq_index(ct, s0, k, i, j0); }
        }
    } else {
        assert(cmp(ct, s0[i].0, k) != 0) by {
            if cmp(ct, s0[i].0, k) == 0 {
                assert((cmp(ct, s0[i].0, key) < 0) == (cmp(ct, key, s0[i].0) > 0) && (cmp(ct, key, s0[i].0) < 0) == (cmp(ct, s0[i].0, key) > 0));
                l_trans(ct, key, s0[i].0, k);
                assert((cmp(ct, s0[i].0, k) < 0) == (cmp(ct, k, s0[i].0) > 0) && (cmp(ct, k, s0[i].0) < 0) == (cmp(ct, s0[i].0, k) > 0));
                l_trans(ct, k, s0[i].0, key);
                assert((cmp(ct, key, k) < 0) == (cmp(ct, k, key) > 0) && (cmp(ct, k, key) < 0) == (cmp(ct, key, k) > 0));
            }
        }
        if look(ct, s0, k) is Some {
            let j = choose|j: int| 0 <= j < s0.len() && cmp(ct, (#[trigger] s0[j]).0, k) == 0;
            l_look_at(ct, s0, k, j);
            let j1 = if j < i { j } else { j - 1 };
            assert(s1[j1] == s0[j]);
            l_look_at(ct, s1, k, j1);
        } else {
            assert forall|j: int| 0 <= j < s1.len() implies cmp(ct, (#[trigger] s1[j]).0, k) != 0 by {
                let j0 = if j < i { j } else { j + 1 };
                assert(s1[j] == s0[j0]);
            }
        }
    }
}
pub proof fn l_nil(ct: @CT@, m: Map<Ref, @S@>)
    ensures wf(ct, m, NIL), tree(m, NIL) is E, ino(tree(m, NIL)) == Seq::<(Seq<u8>, @VT@)>::empty(),
        forall|k: Seq<u8>| #[trigger] look(ct, Seq::<(Seq<u8>, @VT@)>::empty(), k) is None,
{
    assert(repr(m, RT::E));
    l_unique(m, RT::E);
    assert(tree(m, NIL) == RT::E);
    assert(ino(RT::E) =~= Seq::<(Seq<u8>, @VT@)>::empty());
    assert(okt(ct, RT::E));
}

// a red-black tree of n entries is at most 2*log2(n+1) levels deep
pub open spec fn levels(t: RT) -> int
    decreases t,
{
    match t { RT::E => 0, RT::N { l, rt, .. } => 1 + if levels(*l) >= levels(*rt) { levels(*l) } else { levels(*rt) } }
}
pub open spec fn p2(n: int) -> int
    decreases n,
{
    if n <= 0 { 1 } else { 2 * p2(n - 1) }
}
pub proof fn l_p2(a: int)
    ensures p2(a) >= 1, a >= 0 ==> p2(a + 1) == 2 * p2(a),
    decreases a,
{
    if a > 0 { l_p2(a - 1); }
}
pub open spec fn shallow(t: RT) -> int
    decreases t,
{
    match t { RT::E => 0, RT::N { l, rt, .. } => 1 + if shallow(*l) <= shallow(*rt) { shallow(*l) } else { shallow(*rt) } }
}
pub proof fn l_balance(t: RT)
    requires rbok(t),
    ensures levels(t) <= 2 * bh(t) + if isred(t) { 1int } else { 0 }, p2(bh(t)) <= ino(t).len() + 1, bh(t) >= 0, bh(t) <= shallow(t),
    decreases t,
{
    if t is N {
        l_balance(*t->l);
        l_balance(*t->rt);
        l_p2(bh(*t->l));
        assert(ino(t).len() == ino(*t->l).len() + 1 + ino(*t->rt).len());
    }
}
// no path is more than twice as long as another, and the depth is logarithmic
pub open spec fn balanced(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref) -> bool {
    t != NIL ==> {
        let u = tree(nm, tm[t].root);
        &&& levels(u) <= 2 * shallow(u)
        &&& exists|b: int| #![trigger p2(b)] b >= 0 && levels(u) <= 2 * b && p2(b) <= cont(nm, tm, t).len() + 1
    }
}
pub proof fn l_balanced(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref)
    requires okT(nm, tm, t),
    ensures balanced(nm, tm, t),
{
    if t != NIL {
        let u = tree(nm, tm[t].root);
        l_balance(u);
        assert(p2(bh(u)) <= cont(nm, tm, t).len() + 1);
    }
}

// the nodes of a tree
pub open spec fn fpt(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref) -> Set<Ref> {
    if t == NIL { Set::empty() } else { fp(tree(nm, tm[t].root)) }
}
pub proof fn l_fpt_dom(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref)
    requires okT(nm, tm, t),
    ensures forall|x: Ref| #[trigger] fpt(nm, tm, t).contains(x) ==> nm.contains_key(x) && x != NIL, t != NIL ==> tm.contains_key(t),
{
    if t != NIL { l_dom(nm, tree(nm, tm[t].root)); }
}
pub proof fn l_fpt_ext(nm: Map<Ref, @S@>, nm1: Map<Ref, @S@>, tm: Map<Ref, @TS@>, tm1: Map<Ref, @TS@>, t: Ref)
    requires okT(nm, tm, t), ext(nm, nm1), extT(tm, tm1),
    ensures fpt(nm1, tm1, t) == fpt(nm, tm, t),
{
    if t != NIL { l_ext_wf(tcmp(tm, t), nm, nm1, tm[t].root); }
}
// a tree none of whose parts was written
pub proof fn l_fpt_keep(nm: Map<Ref, @S@>, nm1: Map<Ref, @S@>, tm: Map<Ref, @TS@>, tm1: Map<Ref, @TS@>, t: Ref)
    requires okT(nm, tm, t), t != NIL ==> tm1.contains_key(t) && tm1[t] == tm[t], same_on(nm, nm1, fpt(nm, tm, t)), tcmp(tm1, t) == tcmp(tm, t),
    ensures okT(nm1, tm1, t), cont(nm1, tm1, t) == cont(nm, tm, t), fpt(nm1, tm1, t) == fpt(nm, tm, t),
{
    if t != NIL {
        let u = tree(nm, tm[t].root);
        l_frame(nm, nm1, u);
        l_unique(nm1, u);
    }
}
pub proof fn l_fpt_empty(nm: Map<Ref, @S@>, tm: Map<Ref, @TS@>, t: Ref)
    requires okT(nm, tm, t), cont(nm, tm, t).len() == 0,
    ensures fpt(nm, tm, t) == Set::<Ref>::empty(),
{
}
