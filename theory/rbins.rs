// Top-down insertion: one step fills the hole (new leaf, copy, colour flip), repairs a red
// violation by a rotation and moves to the next child.
pub open spec fn recol(t: RT, r: Ref) -> RT { RT::N { r: r, key: t->key, val: t->val, red: false, l: t->l, rt: t->rt } }
pub open spec fn flip(t: RT) -> bool { t is N && isred(*t->l) && isred(*t->rt) }
pub open spec fn calm(t: RT) -> bool { t is N && !t->red && !flip(t) }

pub open spec fn fill(t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@) -> RT {
    if t is E { RT::N { r: n1, key: key, val: zero, red: true, l: Box::new(RT::E), rt: Box::new(RT::E) } }
    else if flip(t) { RT::N { r: n1, key: t->key, val: t->val, red: true, l: Box::new(recol(*t->l, k0)), rt: Box::new(recol(*t->rt, k1)) } }
    else { RT::N { r: n1, key: t->key, val: t->val, red: t->red, l: t->l, rt: t->rt } }
}
pub open spec fn viol(c: RC, t: RT) -> bool { isred(t) && c is F && c->red }
pub open spec fn rotc(c: RC, t: RT) -> RC {
    if !viol(c, t) { c }
    else if c->d == (*c->up)->d {
        RC::F { r: c->F_r, key: c->key, val: c->val, red: false, d: c->d,
            o: Box::new(mk((*c->up)->F_r, (*c->up)->key, (*c->up)->val, true, c->d, *c->o, *(*c->up)->o)), up: (*c->up)->up }
    } else { *(*c->up)->up }
}
pub open spec fn rott(c: RC, t: RT) -> RT {
    if !viol(c, t) || c->d == (*c->up)->d { t }
    else {
        let gd = (*c->up)->d;
        mk(t->N_r, t->key, t->val, false, gd,
            mk(c->F_r, c->key, c->val, true, gd, *c->o, child(t, gd)),
            mk((*c->up)->F_r, (*c->up)->key, (*c->up)->val, true, gd, child(t, 1 - gd), *(*c->up)->o))
    }
}

pub open spec fn plen(ct: @CT@, t: RT, key: Seq<u8>) -> int
    decreases t,
{
    match t {
        RT::E => 0,
        RT::N { key: k, l, rt, .. } => 1 + if cmp(ct, k, key) == 0 { 0 } else if cmp(ct, k, key) < 0 { plen(ct, *rt, key) } else { plen(ct, *l, key) },
    }
}
pub open spec fn mu(ct: @CT@, r: int, t: RT, key: Seq<u8>) -> int {
    if r == 0 { 0 } else { 2 * plen(ct, t, key) + if flip(t) { 2int } else { 1 } }
}
pub proof fn l_plen(ct: @CT@, t: RT, key: Seq<u8>)
    ensures plen(ct, t, key) >= 0,
    decreases t,
{
    if t is N { l_plen(ct, *t->l, key); l_plen(ct, *t->rt, key); }
}

// what the colours look like above the hole while going down
pub open spec fn st_d(c: RC) -> bool { *c->up is F && !(*c->up)->red && !isred(*(*c->up)->o) }
pub open spec fn st_b(ct: @CT@, c: RC, t: RT, key: Seq<u8>) -> bool {
    isred(t) && cmp(ct, t->key, key) != 0 && dirof(cmp(ct, t->key, key)) == 1 - c->d && calm(child(t, 1 - c->d))
}
pub open spec fn st(ct: @CT@, c: RC, t: RT, key: Seq<u8>) -> bool {
    match c {
        RC::Top { r } => !isred(t),
        RC::F { red, o, .. } => if red { calm(t) || st_d(c) } else { !(isred(t) && isred(*o)) || st_b(ct, c, t, key) },
    }
}

pub proof fn l_fill_good(ct: @CT@, c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@)
    requires good(c, t), st(ct, c, t, key),
    ensures
        rbok(fill(t, n1, k0, k1, key, zero)), bh(fill(t, n1, k0, k1, key, zero)) == bh(t),
        cok(c, bh(t), false),
        viol(c, fill(t, n1, k0, k1, key, zero)) ==> st_d(c) && (t is E || flip(t)),
{
    let t2 = fill(t, n1, k0, k1, key, zero);
    if flip(t) {
        assert(rbok(*t->l) && rbok(*t->rt));
        assert(rbok(*t2->l) && rbok(*t2->rt));
        assert(bh(*t2->l) == bh(*t->l) + 1);
        assert(bh(*t2->rt) == bh(*t->rt) + 1);
    }
    if t is E { assert(bh(RT::E) == 0 && rbok(RT::E)); }
    l_cok_weak(c, bh(t), isred(t));
}
pub proof fn l_cok_weak(c: RC, h: int, rh: bool)
    requires cok(c, h, rh),
    ensures cok(c, h, false),
{
}

pub proof fn l_rot_good(c: RC, t: RT)
    requires rbok(t), cok(c, bh(t), false), viol(c, t) ==> st_d(c), c is F ==> c->d == 0 || c->d == 1, viol(c, t) ==> (*c->up)->d == 0 || (*c->up)->d == 1,
    ensures good(rotc(c, t), rott(c, t)),
{
    if viol(c, t) {
        let up = *c->up;
        assert(cok(up, bh(t), true));
        assert(cok(*up->up, bh(t) + 1, false));
        assert(bh(*up->o) == bh(t) && bh(*c->o) == bh(t));
        if c->d == up->d {
            let o = mk(up->F_r, up->key, up->val, true, c->d, *c->o, *up->o);
            assert(rbok(o) && bh(o) == bh(t));
        } else {
            let gd = up->d;
            let x = mk(c->F_r, c->key, c->val, true, gd, *c->o, child(t, gd));
            let y = mk(up->F_r, up->key, up->val, true, gd, child(t, 1 - gd), *up->o);
            assert(rbok(x) && bh(x) == bh(t));
            assert(rbok(y) && bh(y) == bh(t));
            let u = rott(c, t);
            assert(rbok(u) && bh(u) == bh(t) + 1);
        }
    } else if c is F {
        assert(cok(c, bh(t), isred(t)));
    }
}

pub proof fn l_fill_ino(c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@)
    ensures
        t is N ==> ino(fill(t, n1, k0, k1, key, zero)) == ino(t),
        t is E ==> ino(fill(t, n1, k0, k1, key, zero)) == seq![(key, zero)],
        t is N ==> whole(c, fill(t, n1, k0, k1, key, zero)) == whole(c, t),
        t is E ==> whole(c, fill(t, n1, k0, k1, key, zero)) == whole(c, t).insert(cl(c).len() as int, (key, zero)),
{
    let t2 = fill(t, n1, k0, k1, key, zero);
    if t is E {
        assert(ino(RT::E) =~= Seq::empty());
        assert(ino(t2) =~= seq![(key, zero)]);
        assert(whole(c, t2) =~= whole(c, t).insert(cl(c).len() as int, (key, zero)));
    } else if flip(t) {
        assert(ino(*t2->l) == ino(*t->l));
        assert(ino(*t2->rt) == ino(*t->rt));
    }
}

pub proof fn l_assoc5(a: Seq<(Seq<u8>, @VT@)>, b: Seq<(Seq<u8>, @VT@)>, c: Seq<(Seq<u8>, @VT@)>, d: Seq<(Seq<u8>, @VT@)>, e: Seq<(Seq<u8>, @VT@)>)
    ensures a + (b + c + d) + e == a + b + (c + d + e),
{
    assert(a + (b + c + d) + e =~= a + b + (c + d + e));
}
pub proof fn l_assoc6(a: Seq<(Seq<u8>, @VT@)>, b: Seq<(Seq<u8>, @VT@)>, c: Seq<(Seq<u8>, @VT@)>, d: Seq<(Seq<u8>, @VT@)>, e: Seq<(Seq<u8>, @VT@)>)
    ensures a + (b + c + d) + e == (a + b + c) + d + e,
{
    assert(a + (b + c + d) + e =~= (a + b + c) + d + e);
}
pub proof fn l_assoc9(a: Seq<(Seq<u8>, @VT@)>, b: Seq<(Seq<u8>, @VT@)>, c: Seq<(Seq<u8>, @VT@)>, d: Seq<(Seq<u8>, @VT@)>, e: Seq<(Seq<u8>, @VT@)>, f: Seq<(Seq<u8>, @VT@)>, g: Seq<(Seq<u8>, @VT@)>, h: Seq<(Seq<u8>, @VT@)>, i: Seq<(Seq<u8>, @VT@)>)
    ensures (a + b + c) + (d + e + f) + (g + h + i) == a + ((b + c + d) + e + (f + g + h)) + i,
{
    assert((a + b + c) + (d + e + f) + (g + h + i) =~= a + ((b + c + d) + e + (f + g + h)) + i);
}

pub proof fn l_rot_ino(ct: @CT@, c: RC, t: RT, key: Seq<u8>)
    requires viol(c, t) ==> *c->up is F, c is F ==> c->d == 0 || c->d == 1, viol(c, t) ==> (*c->up)->d == 0 || (*c->up)->d == 1,
    ensures
        whole(rotc(c, t), rott(c, t)) == whole(c, t),
        bnd(ct, c, key) ==> bnd(ct, rotc(c, t), key),
{
    if viol(c, t) {
        let up = *c->up;
        if c->d == up->d {
            let o = mk(up->F_r, up->key, up->val, true, c->d, *c->o, *up->o);
            if c->d == 0 {
                assert(ino(o) == ino(*c->o) + seq![(up->key, up->val)] + ino(*up->o));
                assert(cr(up) == seq![(up->key, up->val)] + ino(*up->o) + cr(*up->up));
                l_assoc5(seq![(c->key, c->val)], ino(*c->o), seq![(up->key, up->val)], ino(*up->o), cr(*up->up));
                assert(cl(up) == cl(*up->up));
            } else {
                assert(ino(o) == ino(*up->o) + seq![(up->key, up->val)] + ino(*c->o));
                assert(cl(up) == cl(*up->up) + ino(*up->o) + seq![(up->key, up->val)]);
                l_assoc6(cl(*up->up), ino(*up->o), seq![(up->key, up->val)], ino(*c->o), seq![(c->key, c->val)]);
                assert(cr(up) == cr(*up->up));
            }
            assert(cl(rotc(c, t)) == cl(c));
            assert(cr(rotc(c, t)) == cr(c));
        } else {
            let gd = up->d;
            let x = mk(c->F_r, c->key, c->val, true, gd, *c->o, child(t, gd));
            let y = mk(up->F_r, up->key, up->val, true, gd, child(t, 1 - gd), *up->o);
            assert(ino(rott(c, t)) == if gd == 0 { ino(x) + seq![(t->key, t->val)] + ino(y) } else { ino(y) + seq![(t->key, t->val)] + ino(x) });
            if gd == 0 {
                assert(ino(x) == ino(*c->o) + seq![(c->key, c->val)] + ino(*t->l));
                assert(ino(y) == ino(*t->rt) + seq![(up->key, up->val)] + ino(*up->o));
                assert(cr(c) == cr(up) && cr(up) == seq![(up->key, up->val)] + ino(*up->o) + cr(*up->up));
                assert(c->d == 1 && up->d == 0);
                assert(cl(up) == cl(*up->up));
                assert(cl(c) == cl(up) + ino(*c->o) + seq![(c->key, c->val)]);
                assert(cl(c) == cl(*up->up) + ino(*c->o) + seq![(c->key, c->val)]);
                l_assoc9(cl(*up->up), ino(*c->o), seq![(c->key, c->val)], ino(*t->l), seq![(t->key, t->val)], ino(*t->rt), seq![(up->key, up->val)], ino(*up->o), cr(*up->up));
            } else {
                assert(ino(x) == ino(*t->rt) + seq![(c->key, c->val)] + ino(*c->o));
                assert(ino(y) == ino(*up->o) + seq![(up->key, up->val)] + ino(*t->l));
                assert(cl(c) == cl(up) && cl(up) == cl(*up->up) + ino(*up->o) + seq![(up->key, up->val)]);
                assert(c->d == 0 && up->d == 1);
                assert(cr(up) == cr(*up->up));
                assert(cr(c) == seq![(c->key, c->val)] + ino(*c->o) + cr(*up->up));
                l_assoc9(cl(*up->up), ino(*up->o), seq![(up->key, up->val)], ino(*t->l), seq![(t->key, t->val)], ino(*t->rt), seq![(c->key, c->val)], ino(*c->o), cr(*up->up));
            }
            assert(whole(rotc(c, t), rott(c, t)) == whole(c, t));
            if bnd(ct, c, key) {
                l_frame_cmp(ct, c, key);
                l_frame_cmp(ct, up, key);
            }
        }
    }
}

pub proof fn l_sorted_insert(ct: @CT@, s: Seq<(Seq<u8>, @VT@)>, n: int, key: Seq<u8>, v: @VT@)
    requires
        total(ct), sorted(ct, s), 0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> cmp(ct, (#[trigger] s[i]).0, key) < 0,
        forall|i: int| n <= i < s.len() ==> cmp(ct, (#[trigger] s[i]).0, key) > 0,
    ensures sorted(ct, s.insert(n, (key, v))),
{
    let w = s.insert(n, (key, v));
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies cmp(ct, (#[trigger] w[i]).0, (#[trigger] w[j]).0) < 0 by {
        if i < n && j < n { assert(w[i] == s[i] && w[j] == s[j]); }
        else if i < n && j == n { assert(w[i] == s[i]); }
        else if i < n { assert(w[i] == s[i] && w[j] == s[j - 1]); }
        else if i == n { assert(w[j] == s[j - 1]); }
        else { assert(w[i] == s[i - 1] && w[j] == s[j - 1]); }
    }
}

// one step of the descent, without the memory
pub proof fn l_ins_step(ct: @CT@, c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@)
    requires
        total(ct), cdirs(c), good(c, t), sorted(ct, whole(c, t)), bnd(ct, c, key), st(ct, c, t, key),
    ensures
        ({
            let t2 = fill(t, n1, k0, k1, key, zero);
            let c3 = rotc(c, t2);
            let t3 = rott(c, t2);
            let r = cmp(ct, t3->key, key);
            let d = dirof(r);
            &&& viol(c, t2) ==> st_d(c) && (t is E || flip(t))
            &&& good(c3, t3) && cdirs(c3) && t3 is N
            &&& t is N ==> whole(c3, t3) == whole(c, t)
            &&& t is E ==> r == 0 && whole(c3, t3) == whole(c, t).insert(cl(c).len() as int, (key, zero))
            &&& sorted(ct, whole(c3, t3))
            &&& whole(down(c3, t3, d), child(t3, d)) == whole(c3, t3)
            &&& good(down(c3, t3, d), child(t3, d)) && cdirs(down(c3, t3, d))
            &&& r != 0 ==> bnd(ct, down(c3, t3, d), key) && st(ct, down(c3, t3, d), child(t3, d), key)
            &&& mu(ct, r, child(t3, d), key) < 2 * plen(ct, t, key) + (if flip(t) { 2int } else { 1 })
            &&& mu(ct, r, child(t3, d), key) >= 0
            &&& (down(c3, t3, d)->red && !calm(child(t3, d)) && r != 0 ==> c is F && c3 == c)
        }),
{
    let t2 = fill(t, n1, k0, k1, key, zero);
    let c3 = rotc(c, t2);
    let t3 = rott(c, t2);
    let r = cmp(ct, t3->key, key);
    let d = dirof(r);
    if c is F { assert(cdirs(*c->up)); }
    l_fill_good(ct, c, t, n1, k0, k1, key, zero);
    l_fill_ino(c, t, n1, k0, k1, key, zero);
    l_rot_good(c, t2);
    l_rot_ino(ct, c, t2, key);
    l_plen(ct, t, key);
    l_plen(ct, child(t3, d), key);
    if t is E {
        assert(ino(RT::E) =~= Seq::<(Seq<u8>, @VT@)>::empty());
        assert(whole(c, t) =~= cl(c) + cr(c));
        let n = cl(c).len() as int;
        assert forall|i: int| 0 <= i < n implies cmp(ct, (#[trigger] whole(c, t)[i]).0, key) < 0 by { assert(whole(c, t)[i] == cl(c)[i]); }
        assert forall|i: int| n <= i < whole(c, t).len() implies cmp(ct, (#[trigger] whole(c, t)[i]).0, key) > 0 by { assert(whole(c, t)[i] == cr(c)[i - n]); }
        l_sorted_insert(ct, whole(c, t), n, key, zero);
    }
    l_down_ino(c3, t3, d);
    l_down_good(c3, t3, d);
    if r != 0 {
        l_down_bnd(ct, c3, t3, key, r);
        assert(t is N);
        if viol(c, t2) {
            assert(flip(t));
            assert(calm(*t2->l) && calm(*t2->rt)) by {
                assert(rbok(*t->l) && rbok(*t->rt));
            }
            if c->d == (*c->up)->d {
                assert(calm(child(t3, d)));
                assert(plen(ct, child(t2, d), key) == plen(ct, child(t, d), key));
                assert(plen(ct, t, key) == 1 + plen(ct, child(t, d), key));
            } else {
                let gd = (*c->up)->d;
                l_frame_cmp(ct, c, key);
                l_frame_cmp(ct, *c->up, key);
                let q = child(t3, d);
                assert(child(q, 1 - d) == child(t2, d));
                assert(isred(q));
                assert(cmp(ct, q->key, key) != 0);
                assert(dirof(cmp(ct, q->key, key)) == 1 - d);
                assert(calm(child(q, 1 - d)));
                assert(st_b(ct, down(c3, t3, d), q, key));
                assert(plen(ct, q, key) == 1 + plen(ct, child(t2, d), key));
                assert(plen(ct, child(t2, d), key) == plen(ct, child(t, d), key));
                assert(plen(ct, t, key) == 1 + plen(ct, child(t, d), key));
                assert(!flip(q));
            }
        } else {
            assert(t3 == t2 && c3 == c);
            assert(plen(ct, t, key) == 1 + plen(ct, child(t, d), key));
            assert(plen(ct, child(t2, d), key) == plen(ct, child(t, d), key));
            if flip(t) {
                assert(calm(*t2->l) && calm(*t2->rt)) by {
                    assert(rbok(*t->l) && rbok(*t->rt));
                }
            } else {
                assert(child(t2, d) == child(t, d));
            }
        }
    }
}

// one step of the descent: separation
pub open spec fn newref(n: Ref, own: Ref, c: RC, t: RT) -> bool {
    n != NIL && (n == own || (!cfp(c).contains(n) && !fp(t).contains(n)))
}
pub open spec fn newrefs(c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref) -> bool {
    &&& newref(n1, rootof(t), c, t)
    &&& flip(t) ==> newref(k0, rootof(*t->l), c, t) && newref(k1, rootof(*t->rt), c, t) && n1 != k0 && n1 != k1 && k0 != k1
}

pub proof fn l_fill_sep(c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@)
    requires sep(c, t), newrefs(c, t, n1, k0, k1),
    ensures
        sep(c, fill(t, n1, k0, k1, key, zero)),
        forall|x: Ref| #[trigger] fp(fill(t, n1, k0, k1, key, zero)).contains(x) ==> fp(t).contains(x) || x == n1 || (flip(t) && (x == k0 || x == k1)),
{
    let t2 = fill(t, n1, k0, k1, key, zero);
    if t is N {
        assert(fp(t).contains(t->N_r));
        assert(forall|x: Ref| #[trigger] fp(*t->l).contains(x) ==> fp(t).contains(x));
        assert(forall|x: Ref| #[trigger] fp(*t->rt).contains(x) ==> fp(t).contains(x));
        if flip(t) {
            let l = *t->l;
            let q = *t->rt;
            assert(fp(l).contains(l->N_r));
            assert(fp(q).contains(q->N_r));
            assert(forall|x: Ref| #[trigger] fp(*l->l).contains(x) ==> fp(l).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*l->rt).contains(x) ==> fp(l).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*q->l).contains(x) ==> fp(q).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*q->rt).contains(x) ==> fp(q).contains(x));
            let l2 = *t2->l;
            let q2 = *t2->rt;
            assert(nodup(l) && nodup(q));
            assert(forall|x: Ref| #[trigger] fp(l2).contains(x) ==> x == k0 || fp(*l->l).contains(x) || fp(*l->rt).contains(x));
            assert(forall|x: Ref| #[trigger] fp(q2).contains(x) ==> x == k1 || fp(*q->l).contains(x) || fp(*q->rt).contains(x));
            assert(nodup(l2) && nodup(q2));
            assert(disj(fp(l2), fp(q2)));
            assert(forall|x: Ref| #[trigger] fp(t2).contains(x) ==> x == n1 || fp(l2).contains(x) || fp(q2).contains(x));
        } else {
            assert(forall|x: Ref| #[trigger] fp(t2).contains(x) ==> x == n1 || fp(*t->l).contains(x) || fp(*t->rt).contains(x));
        }
    } else {
        assert(forall|x: Ref| #[trigger] fp(t2).contains(x) ==> x == n1);
    }
}

pub proof fn l_rot_sep(c: RC, t: RT)
    requires sep(c, t), viol(c, t) ==> *c->up is F, c is F ==> c->d == 0 || c->d == 1, viol(c, t) ==> (*c->up)->d == 0 || (*c->up)->d == 1,
    ensures
        sep(rotc(c, t), rott(c, t)),
        forall|x: Ref| #[trigger] fp(rott(c, t)).contains(x) ==> fp(t).contains(x) || cfp(c).contains(x),
        forall|x: Ref| #[trigger] cfp(rotc(c, t)).contains(x) ==> cfp(c).contains(x),
{
    if viol(c, t) {
        let up = *c->up;
        assert(csep(c));
        assert(csep(up));
        assert(csep(*up->up));
        assert(cfp(c).contains(c->F_r));
        assert(cfp(up).contains(up->F_r));
        assert(forall|x: Ref| #[trigger] cfp(up).contains(x) ==> cfp(c).contains(x));
        assert(forall|x: Ref| #[trigger] fp(*c->o).contains(x) ==> cfp(c).contains(x));
        assert(forall|x: Ref| #[trigger] fp(*up->o).contains(x) ==> cfp(up).contains(x));
        assert(forall|x: Ref| #[trigger] cfp(*up->up).contains(x) ==> cfp(up).contains(x));
        if c->d == up->d {
            let o = mk(up->F_r, up->key, up->val, true, c->d, *c->o, *up->o);
            assert(forall|x: Ref| #[trigger] fp(o).contains(x) ==> x == up->F_r || fp(*c->o).contains(x) || fp(*up->o).contains(x));
            assert(nodup(o));
            let c3 = rotc(c, t);
            assert(forall|x: Ref| #[trigger] cfp(c3).contains(x) ==> x == c->F_r || fp(o).contains(x) || cfp(*up->up).contains(x));
            assert(csep(c3));
        } else {
            let gd = up->d;
            assert(fp(t).contains(t->N_r));
            assert(forall|x: Ref| #[trigger] fp(*t->l).contains(x) ==> fp(t).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*t->rt).contains(x) ==> fp(t).contains(x));
            let a = child(t, gd);
            let b = child(t, 1 - gd);
            assert(nodup(t) && nodup(*t->l) && nodup(*t->rt));
            let x1 = mk(c->F_r, c->key, c->val, true, gd, *c->o, a);
            let y1 = mk(up->F_r, up->key, up->val, true, gd, b, *up->o);
            assert(forall|x: Ref| #[trigger] fp(x1).contains(x) ==> x == c->F_r || fp(*c->o).contains(x) || fp(a).contains(x));
            assert(forall|x: Ref| #[trigger] fp(y1).contains(x) ==> x == up->F_r || fp(*up->o).contains(x) || fp(b).contains(x));
            assert(nodup(x1) && nodup(y1) && disj(fp(x1), fp(y1)));
            assert(forall|x: Ref| #[trigger] fp(rott(c, t)).contains(x) ==> x == t->N_r || fp(x1).contains(x) || fp(y1).contains(x));
        }
    }
}

// only these objects changed
pub open spec fn chg(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, a: Ref, b: Ref, c: Ref, d: Ref, e: Ref, f: Ref) -> bool {
    forall|x: Ref| #![trigger m0.contains_key(x)] #![trigger m1.contains_key(x)] #![trigger m1[x]] m0.contains_key(x) ==> m1.contains_key(x) && (x != a && x != b && x != c && x != d && x != e && x != f ==> m1[x] == m0[x])
}
pub open spec fn hung(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, h: Ref) -> bool {
    m1.contains_key(cref(c)) && m1[cref(c)] == (@S@ { chld: m0[cref(c)].chld.put(cdir(c), h), ..m0[cref(c)] })
}

// the step in memory: which objects hold what afterwards
pub open spec fn ins_mem(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@) -> bool {
    let t2 = fill(t, n1, k0, k1, key, zero);
    let v = viol(c, t2);
    let p = cref(c);
    let g = if v { cref(*c->up) } else { p };
    let gp = if v { cref(*(*c->up)->up) } else { p };
    &&& chg(m0, m1, n1, if flip(t) { k0 } else { p }, if flip(t) { k1 } else { p }, p, g, gp)
    &&& (n1 == rootof(t) && t is N) || !m0.contains_key(n1)
    &&& flip(t) ==> (k0 == rootof(*t->l) || !m0.contains_key(k0)) && (k1 == rootof(*t->rt) || !m0.contains_key(k1)) && k0 != k1 && k0 != n1 && k1 != n1
    &&& n1 != NIL && (flip(t) ==> k0 != NIL && k1 != NIL)
    &&& flip(t) ==> ncell(m1, *t2->l) && ncell(m1, *t2->rt)
    &&& ncell(m1, rott(c, t2))
    &&& !v ==> hung(m0, m1, c, n1)
    &&& v && c->d == (*c->up)->d ==> ncell(m1, *rotc(c, t2)->o) && cell(m1, p, c->key, c->val, false, two(c->d, n1, g)) && hung(m0, m1, *(*c->up)->up, p)
    &&& v && c->d != (*c->up)->d ==> ncell(m1, *rott(c, t2)->l) && ncell(m1, *rott(c, t2)->rt) && hung(m0, m1, *(*c->up)->up, n1)
}

pub proof fn l_ins_mem(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, n1: Ref, k0: Ref, k1: Ref, key: Seq<u8>, zero: @VT@)
    requires
        crepr(m0, c, rootof(t)), repr(m0, t), sep(c, t), cdirs(c),
        viol(c, fill(t, n1, k0, k1, key, zero)) ==> *c->up is F,
        ins_mem(m0, m1, c, t, n1, k0, k1, key, zero),
    ensures
        ({
            let t2 = fill(t, n1, k0, k1, key, zero);
            let c3 = rotc(c, t2);
            let t3 = rott(c, t2);
            &&& crepr(m1, c3, rootof(t3)) && repr(m1, t3) && sep(c3, t3)
            &&& forall|x: Ref| #[trigger] fp(t3).contains(x) ==> fp(t).contains(x) || cfp(c).contains(x) || x == n1 || (flip(t) && (x == k0 || x == k1))
            &&& forall|x: Ref| #[trigger] cfp(c3).contains(x) ==> cfp(c).contains(x)
        }),
{
    let t2 = fill(t, n1, k0, k1, key, zero);
    let c3 = rotc(c, t2);
    let t3 = rott(c, t2);
    l_dom(m0, t);
    l_cdom(m0, c, rootof(t));
    if t is N {
        assert(fp(t).contains(t->N_r));
        assert(forall|x: Ref| #[trigger] fp(*t->l).contains(x) ==> fp(t).contains(x));
        assert(forall|x: Ref| #[trigger] fp(*t->rt).contains(x) ==> fp(t).contains(x));
        if flip(t) {
            let l = *t->l;
            let q = *t->rt;
            assert(fp(l).contains(l->N_r));
            assert(fp(q).contains(q->N_r));
        }
    }
    assert(newrefs(c, t, n1, k0, k1));
    assert(cdirs(c));
    if c is F { assert(cdirs(*c->up)); assert(csep(c) && csep(*c->up) && crepr(m0, *c->up, c->F_r)); }
    l_fill_sep(c, t, n1, k0, k1, key, zero);
    l_rot_sep(c, t2);
    assert(cfp(c).contains(cref(c)));
    if c is F {
        assert(forall|x: Ref| #[trigger] fp(*c->o).contains(x) ==> cfp(c).contains(x));
        assert(forall|x: Ref| #[trigger] cfp(*c->up).contains(x) ==> cfp(c).contains(x));
        assert(cfp(*c->up).contains(cref(*c->up)));
    }
    let v = viol(c, t2);
    if v {
        let up = *c->up;
        assert(forall|x: Ref| #[trigger] fp(*up->o).contains(x) ==> cfp(up).contains(x));
        assert(forall|x: Ref| #[trigger] cfp(*up->up).contains(x) ==> cfp(up).contains(x));
        assert(cfp(*up->up).contains(cref(*up->up)));
        l_frame(m0, m1, *c->o);
        l_frame(m0, m1, *up->o);
        l_chole(m0, m1, *up->up, cref(up), rootof(if c->d == up->d { mk(c->F_r, c->key, c->val, false, c->d, t2, *c3->o) } else { t3 }));
    } else {
        l_chole(m0, m1, c, rootof(t), n1);
    }
    // the subtrees of the filled node
    if t is N {
        if flip(t) {
            let l = *t->l;
            let q = *t->rt;
            assert(forall|x: Ref| #[trigger] fp(*l->l).contains(x) ==> fp(l).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*l->rt).contains(x) ==> fp(l).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*q->l).contains(x) ==> fp(q).contains(x));
            assert(forall|x: Ref| #[trigger] fp(*q->rt).contains(x) ==> fp(q).contains(x));
            assert(repr(m0, l) && repr(m0, q));
            assert(nodup(t) && nodup(l) && nodup(q) && disj(fp(l), fp(q)));
            assert forall|x: Ref| #[trigger] fp(l).contains(x) && x != l->N_r implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp(t).contains(x)); }
            assert forall|x: Ref| #[trigger] fp(q).contains(x) && x != q->N_r implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp(t).contains(x)); }
            l_frame(m0, m1, *l->l);
            l_frame(m0, m1, *l->rt);
            l_frame(m0, m1, *q->l);
            l_frame(m0, m1, *q->rt);
        } else {
            l_frame(m0, m1, *t->l);
            l_frame(m0, m1, *t->rt);
        }
    }
    assert(repr(m1, *t2->l) && repr(m1, *t2->rt));
    assert(repr(m1, child(t2, 0)) && repr(m1, child(t2, 1)));
    if v {
        if c->d == (*c->up)->d {
            assert(repr(m1, *c3->o));
        } else {
            assert(repr(m1, *t3->l) && repr(m1, *t3->rt));
        }
    }
    assert(repr(m1, t3));
    assert(crepr(m1, c3, rootof(t3)));
    assert(sep(c3, t3));
    assert forall|x: Ref| #[trigger] fp(t3).contains(x) implies fp(t).contains(x) || cfp(c).contains(x) || x == n1 || (flip(t) && (x == k0 || x == k1)) by {
        assert(fp(t2).contains(x) || cfp(c).contains(x));
    }
}

// frames may be written: they are not in the protected set
pub open spec fn wr(c: RC, z: Set<Ref>) -> bool
    decreases c,
{
    !z.contains(cref(c)) && (c is F ==> wr(*c->up, z))
}

// the relation between the entries before and after
pub open spec fn ins_at(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, i: int, key: Seq<u8>, val: @VT@, s1: Seq<(Seq<u8>, @VT@)>) -> bool {
    ||| 0 <= i <= s0.len() && s1 == s0.insert(i, (key, val))
    ||| 0 <= i < s0.len() && cmp(ct, s0[i].0, key) == 0 && s1 == s0.update(i, (s0[i].0, val))
}
pub open spec fn ins_seq(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, val: @VT@, s1: Seq<(Seq<u8>, @VT@)>) -> bool {
    sorted(ct, s1) && exists|i: int| #[trigger] ins_at(ct, s0, i, key, val, s1)
}

pub open spec fn withval(c: RC, v: @VT@) -> RC { RC::F { r: c->F_r, key: c->key, val: v, red: c->red, d: c->d, o: c->o, up: c->up } }

pub proof fn l_ins_end(ct: @CT@, c: RC, t: RT, s0: Seq<(Seq<u8>, @VT@)>, att: bool, i: int, key: Seq<u8>, zero: @VT@, val: @VT@)
    requires
        total(ct), c is F, c->d == 0, cdirs(c), cmp(ct, c->key, key) == 0,
        sorted(ct, whole(c, t)),
        att ==> 0 <= i <= s0.len() && whole(c, t) == s0.insert(i, (key, zero)),
        !att ==> whole(c, t) == s0,
    ensures
        ins_seq(ct, s0, key, val, whole(withval(c, val), t)),
{
    let s = whole(c, t);
    let j = (cl(c).len() + ino(t).len()) as int;
    assert(cr(c)[0] == (c->key, c->val));
    assert(s[j] == (c->key, c->val));
    let s1 = whole(withval(c, val), t);
    assert(s1 =~= s.update(j, (c->key, val)));
    assert(sorted(ct, s1)) by {
        assert forall|a: int, b: int| 0 <= a < b < s1.len() implies cmp(ct, (#[trigger] s1[a]).0, (#[trigger] s1[b]).0) < 0 by {
            assert(s1[a].0 == s[a].0 && s1[b].0 == s[b].0);
        }
    }
    if att {
        assert(s[i] == (key, zero));
        if i < j {
            assert(cmp(ct, s[i].0, s[j].0) < 0);
            assert((cmp(ct, key, c->key) < 0) == (cmp(ct, c->key, key) > 0));
        } else if j < i {
            assert(cmp(ct, s[j].0, s[i].0) < 0);
        }
        assert(s1 =~= s0.insert(i, (key, val)));
        assert(ins_at(ct, s0, i, key, val, s1));
    } else {
        assert(ins_at(ct, s0, j, key, val, s1));
    }
}

// the value change in memory
pub proof fn l_setval(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, val: @VT@)
    requires
        c is F, crepr(m0, c, rootof(t)), repr(m0, t), sep(c, t),
        m1 == m0.insert(cref(c), @S@ { value: val, ..m0[cref(c)] }),
    ensures
        crepr(m1, withval(c, val), rootof(t)), repr(m1, t), sep(withval(c, val), t),
        cfp(withval(c, val)) == cfp(c),
{
    assert(cfp(c).contains(cref(c)));
    assert(forall|x: Ref| #[trigger] fp(*c->o).contains(x) ==> cfp(c).contains(x));
    assert(forall|x: Ref| #[trigger] cfp(*c->up).contains(x) ==> cfp(c).contains(x));
    l_dom(m0, t);
    l_cdom(m0, c, rootof(t));
    l_frame(m0, m1, t);
    l_frame(m0, m1, *c->o);
    l_cframe(m0, m1, *c->up, c->F_r);
    assert(cfp(withval(c, val)) =~= cfp(c));
}

pub open spec fn black(t: RT) -> RT { if t is N { recol(t, t->N_r) } else { t } }
pub proof fn l_black(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, ct: @CT@, t: RT)
    requires
        t is N, repr(m0, t), nodup(t), rbok(t), m1 == m0.insert(rootof(t), @S@ { red: false, ..m0[rootof(t)] }),
    ensures
        repr(m1, black(t)), ino(black(t)) == ino(t), nodup(black(t)), fp(black(t)) == fp(t), rbok(black(t)), !isred(black(t)), rootof(black(t)) == rootof(t),
{
    l_dom(m0, t);
    assert(forall|x: Ref| #[trigger] fp(*t->l).contains(x) ==> fp(t).contains(x));
    assert(forall|x: Ref| #[trigger] fp(*t->rt).contains(x) ==> fp(t).contains(x));
    l_frame(m0, m1, *t->l);
    l_frame(m0, m1, *t->rt);
    assert(fp(black(t)) =~= fp(t));
}

// ------------------------------------------------------------ the loop invariant of insertion

// z: the objects that must not change
#[verifier::opaque]
pub open spec fn ins_inv(ct: @CT@, h0: Map<Ref, @S@>, z: Set<Ref>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, zero: @VT@, r: int, att: bool, ai: int) -> bool {
    &&& total(ct) && keeps(h0, m, z) && ins_own(h0, t0, c, t) && wr(c, z)
    &&& forall|x: Ref| #[trigger] h0.contains_key(x) ==> m.contains_key(x)
    &&& toref(c) == top
    &&& crepr(m, c, rootof(t)) && repr(m, t) && sep(c, t) && cdirs(c)
    &&& good(c, t) && sorted(ct, whole(c, t))
    &&& dirof(r) == cdir(c)
    &&& r != 0 ==> !att && bnd(ct, c, key) && st(ct, c, t, key)
    &&& r == 0 ==> c is F && cmp(ct, c->key, key) == 0
    &&& !att ==> whole(c, t) == ino(t0)
    &&& att ==> 0 <= ai <= ino(t0).len() && whole(c, t) == ino(t0).insert(ai, (key, zero))
    &&& mu(ct, r, t, key) >= 0
}
pub open spec fn ins_own(h0: Map<Ref, @S@>, t0: RT, c: RC, t: RT) -> bool {
    &&& forall|x: Ref| #[trigger] fp(t).contains(x) ==> !h0.contains_key(x) || fp(t0).contains(x)
    &&& forall|x: Ref| #[trigger] cfp(c).contains(x) ==> !h0.contains_key(x) || fp(t0).contains(x)
}

// what the pointers of the loop point to
pub open spec fn ins_ptrs(c: RC, t: RT, n: Ref, p: Ref, g: Ref, dir: int, r: int) -> bool {
    &&& n == cref(c)
    &&& dir == 0 || dir == 1
    &&& c is F ==> p == cref(*c->up) && (c->d == 0 || c->d == 1)
    &&& r != 0 && c is F && c->red && !calm(t) ==> *c->up is F && g == cref(*(*c->up)->up) && dir == (*c->up)->d
}

pub proof fn l_ins_init(ct: @CT@, h0: Map<Ref, @S@>, z: Set<Ref>, t0: RT, m: Map<Ref, @S@>, top: Ref, key: Seq<u8>, zero: @VT@)
    requires
        total(ct), repr(h0, t0), okt(ct, t0), t0 is N,
        forall|x: Ref| #[trigger] z.contains(x) ==> h0.contains_key(x),
        top != NIL, !h0.contains_key(top), m.contains_key(top), !m[top].red, m[top].chld == (A2 { a: NIL, b: rootof(t0) }),
        forall|x: Ref| #[trigger] h0.contains_key(x) ==> m.contains_key(x) && m[x] == h0[x],
    ensures ins_inv(ct, h0, z, t0, m, RC::Top { r: top }, t0, top, key, zero, -1, false, 0), mu(ct, -1, t0, key) >= 0,
{
    reveal(ins_inv);
    let cx = RC::Top { r: top };
    l_dom(h0, t0);
    l_frame(h0, m, t0);
    assert(whole(cx, t0) =~= ino(t0));
    l_plen(ct, t0, key);
    assert(cfp(cx) =~= set![top]);
    assert(sep(cx, t0));
    assert(bnd(ct, cx, key));
    assert(good(cx, t0));
    assert(crepr(m, cx, rootof(t0)));
}

// the memory the body of the loop works on
pub proof fn l_ins_open(ct: @CT@, h0: Map<Ref, @S@>, z: Set<Ref>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, zero: @VT@, r: int, att: bool, ai: int)
    requires ins_inv(ct, h0, z, t0, m, c, t, top, key, zero, r, att, ai), r != 0,
    ensures
        dirof(r) == cdir(c),
        local(m, c, t),
        c is Top ==> m[cref(c)].red == false,
        c is F && c->red && !calm(t) ==> *c->up is F && ((*c->up)->d == 0 || (*c->up)->d == 1),
        c is F && c->red ==> !isred(t),
        viol(c, t) ==> false,
        forall|x: Ref| #[trigger] h0.contains_key(x) ==> m.contains_key(x),
        !z.contains(cref(c)), c is F ==> !z.contains(cref(*c->up)), c is F && *c->up is F ==> !z.contains(cref(*(*c->up)->up)),
        t is N ==> (!h0.contains_key(rootof(t)) || fp(t0).contains(rootof(t))),
        t is N && *t->l is N ==> (!h0.contains_key(rootof(*t->l)) || fp(t0).contains(rootof(*t->l))),
        t is N && *t->rt is N ==> (!h0.contains_key(rootof(*t->rt)) || fp(t0).contains(rootof(*t->rt))),
        mu(ct, r, t, key) == 2 * plen(ct, t, key) + (if flip(t) { 2int } else { 1 }),
{
    reveal(ins_inv);
    l_ins_loc(m, c, t);
    if c is F { assert(cdirs(*c->up)); assert(wr(*c->up, z)); if *c->up is F { assert(wr(*(*c->up)->up, z)); } }
    if t is N {
        assert(fp(t).contains(rootof(t)));
        if *t->l is N { assert(fp(*t->l).contains(rootof(*t->l))); assert(fp(t).contains(rootof(*t->l))); }
        if *t->rt is N { assert(fp(*t->rt).contains(rootof(*t->rt))); assert(fp(t).contains(rootof(*t->rt))); }
    }
}

pub proof fn l_ins_tail(ct: @CT@, h0: Map<Ref, @S@>, z: Set<Ref>, t0: RT, m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, zero: @VT@, r: int, n1: Ref, k0: Ref, k1: Ref, r1: int) -> (q: (RC, RT, bool, int))
    requires
        ins_inv(ct, h0, z, t0, m0, c, t, top, key, zero, r, false, 0), r != 0,
        ins_mem(m0, m1, c, t, n1, k0, k1, key, zero),
        !z.contains(n1), flip(t) ==> !z.contains(k0) && !z.contains(k1),
        forall|x: Ref| #[trigger] z.contains(x) ==> h0.contains_key(x),
        r1 == cmp(ct, rott(c, fill(t, n1, k0, k1, key, zero))->key, key),
    ensures
        ins_inv(ct, h0, z, t0, m1, q.0, q.1, top, key, zero, r1, q.2, q.3),
        mu(ct, r1, q.1, key) < mu(ct, r, t, key),
        mu(ct, r1, q.1, key) >= 0,
        q.2 ==> r1 == 0,
        !q.2 ==> q.3 == 0,
        q.2 == (t is E),
        q.0 == down(rotc(c, fill(t, n1, k0, k1, key, zero)), rott(c, fill(t, n1, k0, k1, key, zero)), dirof(r1)),
        q.0 is F,
        q.0->red && !calm(q.1) && r1 != 0 ==> c is F && rotc(c, fill(t, n1, k0, k1, key, zero)) == c,
{
    reveal(ins_inv);
    let t2 = fill(t, n1, k0, k1, key, zero);
    let c3 = rotc(c, t2);
    let t3 = rott(c, t2);
    let d = dirof(r1);
    l_ins_step(ct, c, t, n1, k0, k1, key, zero);
    l_ins_mem(m0, m1, c, t, n1, k0, k1, key, zero);
    l_down(m1, c3, t3, d);
    let cx = down(c3, t3, d);
    let ch = child(t3, d);
    assert(wr(c, z));
    if c is F {
        assert(wr(*c->up, z));
        if *c->up is F { assert(wr(*(*c->up)->up, z)); }
    }
    l_dom(m0, t);
        if t is N {
            assert(fp(t).contains(rootof(t)));
            if flip(t) {
                assert(fp(*t->l).contains(rootof(*t->l)));
                assert(fp(*t->rt).contains(rootof(*t->rt)));
                assert(fp(t).contains(rootof(*t->l)));
                assert(fp(t).contains(rootof(*t->rt)));
            }
        }
    assert(ins_own(h0, t0, cx, ch)) by {
        assert forall|x: Ref| #[trigger] fp(ch).contains(x) implies !h0.contains_key(x) || fp(t0).contains(x) by {
            assert(fp(t3).contains(x));
        }
        assert forall|x: Ref| #[trigger] cfp(cx).contains(x) implies !h0.contains_key(x) || fp(t0).contains(x) by {
            assert(fp(t3).contains(x) || cfp(c3).contains(x));
        }
    }
    if c is F { assert(toref(*c->up) == top); if *c->up is F { assert(toref(*(*c->up)->up) == top); } }
    assert(toref(c3) == top);
    assert(toref(cx) == top);
    assert(keeps(h0, m1, z));
    assert(wr(c3, z));
    assert(wr(cx, z));
    l_plen(ct, t, key);
    (cx, ch, t is E, if t is E { cl(c).len() as int } else { 0 })
}

pub proof fn l_plug_wr(c: RC, t: RT, z: Set<Ref>)
    requires wr(c, z), c is F,
    ensures !z.contains(rootof(plug(c, t))),
    decreases c,
{
    let t1 = mk(c->F_r, c->key, c->val, c->red, c->d, t, *c->o);
    assert(plug(c, t) == plug(*c->up, t1));
    assert(wr(*c->up, z));
    if *c->up is F { l_plug_wr(*c->up, t1, z); } else { assert(plug(*c->up, t1) == t1); }
}

pub proof fn l_ins_fin(ct: @CT@, h0: Map<Ref, @S@>, z: Set<Ref>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, zero: @VT@, att: bool, ai: int, val: @VT@) -> (u: RT)
    requires ins_inv(ct, h0, z, t0, m, c, t, top, key, zero, 0, att, ai), forall|x: Ref| #[trigger] z.contains(x) ==> h0.contains_key(x),
    ensures
        c is F && u is N,
        m.contains_key(cref(c)) && cref(c) != NIL,
        ({
            let mv = m.insert(cref(c), @S@ { value: val, ..m[cref(c)] });
            let m1 = mv.insert(rootof(u), @S@ { red: false, ..mv[rootof(u)] });
            &&& mv.contains_key(top) && top != NIL && mv[top].chld.b == rootof(u) && rootof(u) != NIL && mv.contains_key(rootof(u))
            &&& repr(m1, black(u)) && rootof(black(u)) == rootof(u)
            &&& okt(ct, black(u))
            &&& ins_seq(ct, ino(t0), key, val, ino(black(u)))
            &&& keeps(h0, m1, z)
            &&& forall|x: Ref| #[trigger] h0.contains_key(x) ==> m1.contains_key(x)
            &&& forall|x: Ref| #[trigger] fp(black(u)).contains(x) ==> !h0.contains_key(x) || fp(t0).contains(x)
        }),
{
    reveal(ins_inv);
    l_ins_loc(m, c, t);
    let mv = m.insert(cref(c), @S@ { value: val, ..m[cref(c)] });
    l_setval(m, mv, c, t, val);
    let cv = withval(c, val);
    l_plug(mv, cv, t);
    l_cdirs(mv, cv, rootof(t));
    l_plug_ino(cv, t);
    l_plug_ok(cv, t);
    l_ins_end(ct, c, t, ino(t0), att, ai, key, zero, val);
    l_plug_n(cv, t);
    assert(wr(cv, z)) by { assert(wr(c, z)); assert(wr(*c->up, z)); }
    l_plug_wr(cv, t, z);
    let u = plug(cv, t);
    l_dom(mv, u);
    assert(fp(u).contains(rootof(u)));
    let m1 = mv.insert(rootof(u), @S@ { red: false, ..mv[rootof(u)] });
    l_black(mv, m1, ct, u);
    assert(cfp(c).contains(cref(c)));
    assert forall|x: Ref| #[trigger] fp(black(u)).contains(x) implies !h0.contains_key(x) || fp(t0).contains(x) by {
        assert(fp(u).contains(x));
        assert(fp(t).contains(x) || cfp(c).contains(x));
    }
    u
}
