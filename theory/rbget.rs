// Lookup and listing.
pub open spec fn findt(ct: @CT@, t: RT, key: Seq<u8>) -> Option<@VT@>
    decreases t,
{
    match t {
        RT::E => None,
        RT::N { key: k, val, l, rt, .. } => if cmp(ct, k, key) == 0 { Some(val) } else if cmp(ct, k, key) < 0 { findt(ct, *rt, key) } else { findt(ct, *l, key) },
    }
}

pub proof fn l_look_at(ct: @CT@, s: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, i: int)
    requires total(ct), sorted(ct, s), 0 <= i < s.len(), cmp(ct, s[i].0, key) == 0,
    ensures look(ct, s, key) == Some(s[i].1),
{
    let j = choose|j: int| 0 <= j < s.len() && cmp(ct, (#[trigger] s[j]).0, key) == 0;
    l_eq_index(ct, s, key, i, j);
}
pub proof fn l_eq_index(ct: @CT@, s: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, i: int, j: int)
    requires total(ct), sorted(ct, s), 0 <= i < s.len(), cmp(ct, s[i].0, key) == 0, 0 <= j < s.len(), cmp(ct, s[j].0, key) == 0,
    ensures i == j,
{
    assert((cmp(ct, key, s[i].0) < 0) == (cmp(ct, s[i].0, key) > 0));
    assert((cmp(ct, s[i].0, key) < 0) == (cmp(ct, key, s[i].0) > 0));
    assert((cmp(ct, key, s[j].0) < 0) == (cmp(ct, s[j].0, key) > 0));
    assert((cmp(ct, s[j].0, key) < 0) == (cmp(ct, key, s[j].0) > 0));
    if i < j { l_trans(ct, s[j].0, key, s[i].0); assert((cmp(ct, s[i].0, s[j].0) < 0) == (cmp(ct, s[j].0, s[i].0) > 0)); }
    if j < i { l_trans(ct, s[i].0, key, s[j].0); assert((cmp(ct, s[j].0, s[i].0) < 0) == (cmp(ct, s[i].0, s[j].0) > 0)); }
}

pub proof fn l_sorted_sub(ct: @CT@, a: Seq<(Seq<u8>, @VT@)>, b: Seq<(Seq<u8>, @VT@)>, c: Seq<(Seq<u8>, @VT@)>)
    requires sorted(ct, a + b + c),
    ensures sorted(ct, a), sorted(ct, b), sorted(ct, c),
{
    let s = a + b + c;
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies cmp(ct, (#[trigger] a[i]).0, (#[trigger] a[j]).0) < 0 by { assert(s[i] == a[i] && s[j] == a[j]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies cmp(ct, (#[trigger] b[i]).0, (#[trigger] b[j]).0) < 0 by { assert(s[a.len() + i] == b[i] && s[a.len() + j] == b[j]); }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies cmp(ct, (#[trigger] c[i]).0, (#[trigger] c[j]).0) < 0 by { let n = a.len() + b.len(); assert(s[n + i] == c[i] && s[n + j] == c[j]); }
}

// the tree search finds what the listing holds
pub proof fn l_find(ct: @CT@, t: RT, key: Seq<u8>)
    requires total(ct), sorted(ct, ino(t)),
    ensures findt(ct, t, key) == look(ct, ino(t), key),
    decreases t,
{
    let s = ino(t);
    if t is N {
        let a = ino(*t->l);
        let b = ino(*t->rt);
        let n = a.len() as int;
        assert(s[n] == (t->key, t->val));
        l_sorted_sub(ct, a, seq![(t->key, t->val)], b);
        l_find(ct, *t->l, key);
        l_find(ct, *t->rt, key);
        let r = cmp(ct, t->key, key);
        if r == 0 {
            l_look_at(ct, s, key, n);
        } else if r < 0 {
            if look(ct, b, key) is Some {
                let i = choose|i: int| 0 <= i < b.len() && cmp(ct, (#[trigger] b[i]).0, key) == 0;
                assert(s[n + 1 + i] == b[i]);
                l_look_at(ct, s, key, n + 1 + i);
            } else {
                assert forall|i: int| 0 <= i < s.len() implies cmp(ct, (#[trigger] s[i]).0, key) != 0 by {
                    if i < n { l_trans(ct, s[i].0, s[n].0, key); }
                    else if i > n { assert(s[i] == b[i - n - 1]); }
                }
            }
        } else {
            if look(ct, a, key) is Some {
                let i = choose|i: int| 0 <= i < a.len() && cmp(ct, (#[trigger] a[i]).0, key) == 0;
                assert(s[i] == a[i]);
                l_look_at(ct, s, key, i);
            } else {
                assert forall|i: int| 0 <= i < s.len() implies cmp(ct, (#[trigger] s[i]).0, key) != 0 by {
                    if i < n { assert(s[i] == a[i]); }
                    else if i > n {
                        assert((cmp(ct, key, s[n].0) < 0) == (cmp(ct, s[n].0, key) > 0));
                        l_trans(ct, key, s[n].0, s[i].0);
                        assert((cmp(ct, key, s[i].0) < 0) == (cmp(ct, s[i].0, key) > 0));
                    }
                }
            }
        }
    }
}

// what insertion does to lookups
pub proof fn l_ins_look(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, val: @VT@, s1: Seq<(Seq<u8>, @VT@)>, k: Seq<u8>)
    requires total(ct), sorted(ct, s0), ins_seq(ct, s0, key, val, s1),
    ensures look(ct, s1, k) == if cmp(ct, key, k) == 0 { Some(val) } else { look(ct, s0, k) },
{
    let i = choose|i: int| #[trigger] ins_at(ct, s0, i, key, val, s1);
    let e = s1[i];
    if cmp(ct, key, k) == 0 {
        if e.0 == key { l_look_at(ct, s1, k, i); }
        else {
            l_trans(ct, e.0, key, k);
            assert((cmp(ct, k, key) < 0) == (cmp(ct, key, k) > 0) && (cmp(ct, key, k) < 0) == (cmp(ct, k, key) > 0));
            assert((cmp(ct, e.0, key) < 0) == (cmp(ct, key, e.0) > 0) && (cmp(ct, key, e.0) < 0) == (cmp(ct, e.0, key) > 0));
            l_trans(ct, k, key, e.0);
            assert((cmp(ct, e.0, k) < 0) == (cmp(ct, k, e.0) > 0) && (cmp(ct, k, e.0) < 0) == (cmp(ct, e.0, k) > 0));
            l_look_at(ct, s1, k, i);
        }
    } else {
        assert(cmp(ct, e.0, k) != 0) by {
            if e.0 != key && cmp(ct, e.0, k) == 0 {
                assert((cmp(ct, e.0, key) < 0) == (cmp(ct, key, e.0) > 0) && (cmp(ct, key, e.0) < 0) == (cmp(ct, e.0, key) > 0));
                l_trans(ct, key, e.0, k);
                assert((cmp(ct, e.0, k) < 0) == (cmp(ct, k, e.0) > 0) && (cmp(ct, k, e.0) < 0) == (cmp(ct, e.0, k) > 0));
                l_trans(ct, k, e.0, key);
                assert((cmp(ct, key, k) < 0) == (cmp(ct, k, key) > 0) && (cmp(ct, k, key) < 0) == (cmp(ct, key, k) > 0));
            }
        }
        let ins = s1 == s0.insert(i, (key, val));
        if look(ct, s0, k) is Some {
            let j = choose|j: int| 0 <= j < s0.len() && cmp(ct, (#[trigger] s0[j]).0, k) == 0;
            let j1 = if ins && j >= i { j + 1 } else { j };
            assert(s1[j1] == s0[j]);
            l_look_at(ct, s1, k, j1);
            l_look_at(ct, s0, k, j);
        } else {
            assert forall|j: int| 0 <= j < s1.len() implies cmp(ct, (#[trigger] s1[j]).0, k) != 0 by {
                if j != i {
                    let j0 = if ins && j > i { j - 1 } else { j };
                    assert(s1[j] == s0[j0]);
                }
            }
        }
    }
}

// channel content as entries
pub open spec fn ents(s: Seq<@PT@>) -> Seq<(Seq<u8>, @VT@)> { Seq::new(s.len(), |i: int| (s[i].Key@, s[i].Value)) }
pub proof fn l_ents_push(s: Seq<@PT@>, p: @PT@)
    ensures ents(s.push(p)) == ents(s).push((p.Key@, p.Value)),
{
    assert(ents(s.push(p)) =~= ents(s).push((p.Key@, p.Value)));
}
pub proof fn l_ents_nil()
    ensures ents(Seq::<@PT@>::empty()) == Seq::<(Seq<u8>, @VT@)>::empty(),
{
    assert(ents(Seq::<@PT@>::empty()) =~= Seq::<(Seq<u8>, @VT@)>::empty());
}
pub open spec fn isrepr(m: Map<Ref, @S@>, r: Ref) -> bool { rootof(tree(m, r)) == r && repr(m, tree(m, r)) }
pub proof fn l_open_t(m: Map<Ref, @S@>, r: Ref)
    requires isrepr(m, r),
    ensures
        r == NIL <==> tree(m, r) is E,
        r != NIL ==> ncell(m, tree(m, r)) && tree(m, r)->N_r == r,
        r != NIL ==> isrepr(m, m[r].chld.a) && tree(m, m[r].chld.a) == *tree(m, r)->l,
        r != NIL ==> isrepr(m, m[r].chld.b) && tree(m, m[r].chld.b) == *tree(m, r)->rt,
{
    let t = tree(m, r);
    if r != NIL {
        assert(repr(m, *t->l) && repr(m, *t->rt));
        l_unique(m, *t->l);
        l_unique(m, *t->rt);
    }
}
