// Top-down deletion: one step copies the next node and recolours or rotates so that the
// removal at the bottom takes a red leaf.
pub open spec fn dkind(c: RC, t: RT, d: int) -> int {
    if t->red || isred(child(t, d)) { 0 }
    else if isred(child(t, 1 - d)) { 1 }
    else if c is Top { 0 }
    else if !isred(*(*c->o)->l) && !isred(*(*c->o)->rt) { 2 }
    else if isred(child(*c->o, c->d)) { 4 }
    else { 3 }
}
pub open spec fn fr(r: Ref, key: Seq<u8>, val: @VT@, red: bool, d: int, o: RT, up: RC) -> RC {
    RC::F { r, key, val, red, d, o: Box::new(o), up: Box::new(up) }
}
pub open spec fn dctx(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref) -> RC {
    let o = child(t, 1 - d);
    let s = *c->o;
    let k = dkind(c, t, d);
    if k == 0 { fr(n1, t->key, t->val, t->red, d, o, c) }
    else if k == 1 { fr(n1, t->key, t->val, true, d, child(o, d), fr(s1, o->key, o->val, false, d, child(o, 1 - d), c)) }
    else if k == 2 { fr(n1, t->key, t->val, true, d, o, fr(c->F_r, c->key, c->val, false, c->d, mk(s1, s->key, s->val, true, 0, *s->l, *s->rt), *c->up)) }
    else if k == 3 {
        fr(n1, t->key, t->val, true, d, o, fr(c->F_r, c->key, c->val, false, c->d, child(s, c->d),
            fr(s1, s->key, s->val, true, c->d, recol(child(s, 1 - c->d), q1), *c->up)))
    } else {
        let q = child(s, c->d);
        fr(n1, t->key, t->val, true, d, o, fr(c->F_r, c->key, c->val, false, c->d, child(q, c->d),
            fr(q1, q->key, q->val, true, c->d, mk(s1, s->key, s->val, false, c->d, child(q, 1 - c->d), child(s, 1 - c->d)), *c->up)))
    }
}

// above the hole there is a red node, or the hole is red, or we are near the top
pub open spec fn push(c: RC, t: RT) -> bool {
    match c {
        RC::Top { r } => true,
        RC::F { red, o, up, .. } => red || isred(t) || (*up is Top && !isred(*o)),
    }
}

pub proof fn l_del_good(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires good(c, t), push(c, t), t is N, d == 0 || d == 1, c is F ==> c->d == 0 || c->d == 1,
    ensures
        good(dctx(c, t, d, n1, s1, q1), child(t, d)), push(dctx(c, t, d, n1, s1, q1), child(t, d)),
        dkind(c, t, d) >= 2 ==> c is F && *c->o is N && !isred(*c->o),
{
    let k = dkind(c, t, d);
    let x = child(t, d);
    let o = child(t, 1 - d);
    let c1 = dctx(c, t, d, n1, s1, q1);
    assert(rbok(*t->l) && rbok(*t->rt));
    let b = bh(x);
    assert(bh(o) == b);
    l_bh_pos(x);
    l_bh_pos(o);
    if k == 1 {
        assert(rbok(*o->l) && rbok(*o->rt));
        let up1 = *c1->up;
        assert(cok(up1, b, true));
    } else if k >= 2 {
        let s = *c->o;
        assert(bh(s) == b + 1);
        assert(s is N);
        assert(rbok(*s->l) && rbok(*s->rt));
        assert(!isred(s));
        assert(bh(*s->l) == b && bh(*s->rt) == b);
        l_cok_weak2(*c->up, b + 1 + if c->red { 0int } else { 1 }, c->red);
        let up1 = *c1->up;
        assert(cok(*c->up, b + 1, false));
        if k == 2 {
            assert(rbok(*up1->o) && bh(*up1->o) == b);
            assert(cok(up1, b, true));
        } else {
            let q = child(s, if k == 4 { c->d } else { 1 - c->d });
            assert(rbok(*q->l) && rbok(*q->rt));
            let up2 = *up1->up;
            if k == 3 {
                assert(rbok(*up2->o) && bh(*up2->o) == b + 1);
            } else {
                assert(rbok(*up2->o) && bh(*up2->o) == b + 1);
            }
            assert(cok(*c->up, b + 1, true));
            assert(cok(up2, b + 1, false));
            assert(cok(up1, b, true));
        }
    }
}
pub proof fn l_bh_pos(t: RT)
    ensures bh(t) >= 0,
    decreases t,
{
    if t is N { l_bh_pos(*t->l); }
}
pub proof fn l_cok_weak2(c: RC, h: int, rh: bool)
    requires cok(c, h, rh),
    ensures cok(c, h, false), c is Top ==> forall|h2: int, b: bool| #[trigger] cok(c, h2, b),
{
}

// rearrangements of entries around rotations
pub proof fn l_q0(p: Seq<(Seq<u8>, @VT@)>, a: Seq<(Seq<u8>, @VT@)>, q: Seq<(Seq<u8>, @VT@)>, b: Seq<(Seq<u8>, @VT@)>, g: Seq<(Seq<u8>, @VT@)>, e: Seq<(Seq<u8>, @VT@)>, z: Seq<(Seq<u8>, @VT@)>)
    ensures p + ((a + q + b) + g + e) + z == p + a + (q + (b + g + e) + z),
{
    assert(p + ((a + q + b) + g + e) + z =~= p + a + (q + (b + g + e) + z));
}
pub proof fn l_q1(z: Seq<(Seq<u8>, @VT@)>, e: Seq<(Seq<u8>, @VT@)>, g: Seq<(Seq<u8>, @VT@)>, a: Seq<(Seq<u8>, @VT@)>, q: Seq<(Seq<u8>, @VT@)>, b: Seq<(Seq<u8>, @VT@)>, p: Seq<(Seq<u8>, @VT@)>)
    ensures z + (e + g + (a + q + b)) + p == (z + (e + g + a) + q) + b + p,
{
    assert(z + (e + g + (a + q + b)) + p =~= (z + (e + g + a) + q) + b + p);
}
pub proof fn l_del_ino1(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires t is N, d == 0 || d == 1, dkind(c, t, d) == 1,
    ensures
        cl(dctx(c, t, d, n1, s1, q1)) == cl(down(c, t, d)),
        cr(dctx(c, t, d, n1, s1, q1)) == cr(down(c, t, d)),
{
    let o = child(t, 1 - d);
    let c1 = dctx(c, t, d, n1, s1, q1);
    let up1 = *c1->up;
    let e = seq![(t->key, t->val)];
    let f = seq![(o->key, o->val)];
    assert(ino(o) == ino(*o->l) + f + ino(*o->rt));
    if d == 0 {
        assert(cr(up1) == f + ino(*o->rt) + cr(c));
        assert(cr(c1) == e + ino(*o->l) + cr(up1));
        assert(cr(down(c, t, d)) == e + ino(o) + cr(c));
        l_assoc5(e, ino(*o->l), f, ino(*o->rt), cr(c));
        assert(cl(up1) == cl(c));
    } else {
        assert(cl(up1) == cl(c) + ino(*o->l) + f);
        assert(cl(c1) == cl(up1) + ino(*o->rt) + e);
        assert(cl(down(c, t, d)) == cl(c) + ino(o) + e);
        l_assoc6(cl(c), ino(*o->l), f, ino(*o->rt), e);
        assert(cr(up1) == cr(c));
    }
}
// the frame above stays the same towards both sides
pub proof fn l_del_ino2(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires t is N, d == 0 || d == 1, dkind(c, t, d) == 2, c is F, c->d == 0 || c->d == 1, *c->o is N,
    ensures
        cl(*dctx(c, t, d, n1, s1, q1)->up) == cl(c),
        cr(*dctx(c, t, d, n1, s1, q1)->up) == cr(c),
{
    let s = *c->o;
    let up1 = *dctx(c, t, d, n1, s1, q1)->up;
    assert(ino(*up1->o) == ino(s));
}
pub proof fn l_del_ino3(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires t is N, d == 0 || d == 1, dkind(c, t, d) == 3, c is F, c->d == 0 || c->d == 1, *c->o is N,
        child(*c->o, 1 - c->d) is N,
    ensures
        cl(*dctx(c, t, d, n1, s1, q1)->up) == cl(c),
        cr(*dctx(c, t, d, n1, s1, q1)->up) == cr(c),
{
    let s = *c->o;
    let up1 = *dctx(c, t, d, n1, s1, q1)->up;
    let up2 = *up1->up;
    let y = *up2->o;
    let p = seq![(c->key, c->val)];
    let g = seq![(s->key, s->val)];
    assert(ino(s) == ino(*s->l) + g + ino(*s->rt));
    assert(ino(y) == ino(child(s, 1 - c->d)));
    if c->d == 0 {
        assert(cr(up2) == g + ino(y) + cr(*c->up));
        assert(cr(up1) == p + ino(*s->l) + cr(up2));
        l_assoc5(p, ino(*s->l), g, ino(*s->rt), cr(*c->up));
        assert(cl(up2) == cl(*c->up));
        assert(cl(up1) == cl(up2));
    } else {
        assert(cl(up2) == cl(*c->up) + ino(y) + g);
        assert(cl(up1) == cl(up2) + ino(*s->rt) + p);
        l_assoc6(cl(*c->up), ino(*s->l), g, ino(*s->rt), p);
        assert(cr(up2) == cr(*c->up));
        assert(cr(up1) == cr(up2));
    }
}
pub proof fn l_del_ino4(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires t is N, d == 0 || d == 1, dkind(c, t, d) == 4, c is F, c->d == 0 || c->d == 1, *c->o is N,
    ensures
        cl(*dctx(c, t, d, n1, s1, q1)->up) == cl(c),
        cr(*dctx(c, t, d, n1, s1, q1)->up) == cr(c),
{
    let s = *c->o;
    let up1 = *dctx(c, t, d, n1, s1, q1)->up;
    let up2 = *up1->up;
    let y = *up2->o;
    let p = seq![(c->key, c->val)];
    let g = seq![(s->key, s->val)];
    let q = child(s, c->d);
    let qe = seq![(q->key, q->val)];
    assert(ino(s) == ino(*s->l) + g + ino(*s->rt));
    assert(ino(q) == ino(*q->l) + qe + ino(*q->rt));
    if c->d == 0 {
        assert(ino(y) == ino(*q->rt) + g + ino(*s->rt));
        assert(cr(up2) == qe + ino(y) + cr(*c->up));
        assert(cr(up1) == p + ino(*q->l) + cr(up2));
        l_q0(p, ino(*q->l), qe, ino(*q->rt), g, ino(*s->rt), cr(*c->up));
        assert(cl(up2) == cl(*c->up));
        assert(cl(up1) == cl(up2));
    } else {
        assert(ino(y) == ino(*s->l) + g + ino(*q->l));
        assert(cl(up2) == cl(*c->up) + ino(y) + qe);
        assert(cl(up1) == cl(up2) + ino(*q->rt) + p);
        l_q1(cl(*c->up), ino(*s->l), g, ino(*q->l), qe, ino(*q->rt), p);
        assert(cr(up2) == cr(*c->up));
        assert(cr(up1) == cr(up2));
    }
}
pub proof fn l_del_ino(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires t is N, d == 0 || d == 1, c is F ==> c->d == 0 || c->d == 1, dkind(c, t, d) >= 2 ==> c is F && *c->o is N,
        dkind(c, t, d) == 3 ==> child(*c->o, 1 - c->d) is N,
    ensures
        cl(dctx(c, t, d, n1, s1, q1)) == cl(down(c, t, d)),
        cr(dctx(c, t, d, n1, s1, q1)) == cr(down(c, t, d)),
        whole(dctx(c, t, d, n1, s1, q1), child(t, d)) == whole(c, t),
{
    let k = dkind(c, t, d);
    l_down_ino(c, t, d);
    if k == 1 { l_del_ino1(c, t, d, n1, s1, q1); }
    else if k == 2 { l_del_ino2(c, t, d, n1, s1, q1); }
    else if k == 3 { l_del_ino3(c, t, d, n1, s1, q1); }
    else if k == 4 { l_del_ino4(c, t, d, n1, s1, q1); }
}

// the frame the deleted key was found in: the innermost one that was left to the left
pub open spec fn tref(c: RC) -> Ref
    decreases c,
{
    match c { RC::Top { r } => NIL, RC::F { r, d, up, .. } => if d == 0 { r } else { tref(*up) } }
}

// ------------------------------------------------------------ the step in memory

pub open spec fn fcell(m: Map<Ref, @S@>, c: RC, h: Ref) -> bool { cell(m, c->F_r, c->key, c->val, c->red, two(c->d, h, rootof(*c->o))) }

pub open spec fn del_mem(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref) -> bool {
    let k = dkind(c, t, d);
    let c1 = dctx(c, t, d, n1, s1, q1);
    let p = cref(c);
    let g = if k >= 3 { cref(*c->up) } else { p };
    &&& chg(m0, m1, p, g, p, p, p, p)
    &&& n1 != NIL && !m0.contains_key(n1)
    &&& k >= 1 ==> s1 != NIL && !m0.contains_key(s1) && s1 != n1
    &&& k >= 3 ==> q1 != NIL && !m0.contains_key(q1) && q1 != n1 && q1 != s1
    &&& fcell(m1, c1, rootof(child(t, d)))
    &&& k == 0 ==> hung(m0, m1, c, n1)
    &&& k == 1 ==> fcell(m1, *c1->up, n1) && hung(m0, m1, c, s1)
    &&& k == 2 ==> fcell(m1, *c1->up, n1) && ncell(m1, *(*c1->up)->o)
    &&& k >= 3 ==> fcell(m1, *c1->up, n1) && fcell(m1, *(*c1->up)->up, p) && ncell(m1, *(*(*c1->up)->up)->o)
    &&& k >= 3 ==> hung(m0, m1, *c->up, cref(*(*c1->up)->up))
}

// what the step needs to know about the kind
pub open spec fn dsib(c: RC, t: RT, d: int) -> bool {
    dkind(c, t, d) >= 2 ==> c is F && *c->o is N && (dkind(c, t, d) == 3 ==> child(*c->o, 1 - c->d) is N)
}

pub proof fn l_sub(t: RT)
    ensures
        t is N ==> fp(t).contains(t->N_r),
        t is N ==> forall|x: Ref| #[trigger] fp(*t->l).contains(x) ==> fp(t).contains(x),
        t is N ==> forall|x: Ref| #[trigger] fp(*t->rt).contains(x) ==> fp(t).contains(x),
        nodup(t) && t is N ==> nodup(*t->l) && nodup(*t->rt) && disj(fp(*t->l), fp(*t->rt)),
        nodup(t) && t is N ==> !fp(*t->l).contains(t->N_r) && !fp(*t->rt).contains(t->N_r),
{
}
pub proof fn l_csub(c: RC)
    ensures
        cfp(c).contains(cref(c)),
        c is F ==> forall|x: Ref| #[trigger] fp(*c->o).contains(x) ==> cfp(c).contains(x),
        c is F ==> forall|x: Ref| #[trigger] cfp(*c->up).contains(x) ==> cfp(c).contains(x),
        csep(c) && c is F ==> csep(*c->up) && nodup(*c->o) && !fp(*c->o).contains(c->F_r) && !cfp(*c->up).contains(c->F_r) && disj(fp(*c->o), cfp(*c->up)),
{
}
// the footprint of a frame
pub proof fn l_fr(r: Ref, key: Seq<u8>, val: @VT@, red: bool, d: int, o: RT, up: RC)
    ensures
        forall|x: Ref| #[trigger] cfp(fr(r, key, val, red, d, o, up)).contains(x) <==> x == r || fp(o).contains(x) || cfp(up).contains(x),
        csep(fr(r, key, val, red, d, o, up)) <==> r != NIL && !fp(o).contains(r) && !cfp(up).contains(r) && disj(fp(o), cfp(up)) && nodup(o) && csep(up),
{
}
pub proof fn l_mk(r: Ref, key: Seq<u8>, val: @VT@, red: bool, d: int, x: RT, y: RT)
    ensures
        forall|z: Ref| #[trigger] fp(mk(r, key, val, red, d, x, y)).contains(z) <==> z == r || fp(x).contains(z) || fp(y).contains(z),
        r != NIL && !fp(x).contains(r) && !fp(y).contains(r) && disj(fp(x), fp(y)) && nodup(x) && nodup(y) ==> nodup(mk(r, key, val, red, d, x, y)),
{
}

pub open spec fn fresh3(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref) -> bool {
    let k = dkind(c, t, d);
    &&& n1 != NIL && !cfp(c).contains(n1) && !fp(t).contains(n1)
    &&& k >= 1 ==> s1 != NIL && !cfp(c).contains(s1) && !fp(t).contains(s1) && s1 != n1
    &&& k >= 3 ==> q1 != NIL && !cfp(c).contains(q1) && !fp(t).contains(q1) && q1 != n1 && q1 != s1
}
pub open spec fn in3(c: RC, t: RT, d: int, x: Ref, n1: Ref, s1: Ref, q1: Ref) -> bool {
    fp(t).contains(x) || cfp(c).contains(x) || x == n1 || (dkind(c, t, d) >= 1 && x == s1) || (dkind(c, t, d) >= 3 && x == q1)
}

pub proof fn l_del_sep(c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires
        sep(c, t), t is N, d == 0 || d == 1, c is F ==> c->d == 0 || c->d == 1, dsib(c, t, d), fresh3(c, t, d, n1, s1, q1),
    ensures
        sep(dctx(c, t, d, n1, s1, q1), child(t, d)),
        forall|x: Ref| #[trigger] cfp(dctx(c, t, d, n1, s1, q1)).contains(x) ==> in3(c, t, d, x, n1, s1, q1),
{
    let k = dkind(c, t, d);
    let o = child(t, 1 - d);
    let x = child(t, d);
    let c1 = dctx(c, t, d, n1, s1, q1);
    l_sub(t);
    l_csub(c);
    l_sub(o);
    if k == 0 {
        l_fr(n1, t->key, t->val, t->red, d, o, c);
    } else if k == 1 {
        l_fr(s1, o->key, o->val, false, d, child(o, 1 - d), c);
        let up1 = fr(s1, o->key, o->val, false, d, child(o, 1 - d), c);
        l_fr(n1, t->key, t->val, true, d, child(o, d), up1);
    } else {
        let s = *c->o;
        l_sub(s);
        if k == 2 {
            let s2 = mk(s1, s->key, s->val, true, 0, *s->l, *s->rt);
            l_mk(s1, s->key, s->val, true, 0, *s->l, *s->rt);
            l_fr(c->F_r, c->key, c->val, false, c->d, s2, *c->up);
            let up1 = fr(c->F_r, c->key, c->val, false, c->d, s2, *c->up);
            l_fr(n1, t->key, t->val, true, d, o, up1);
        } else if k == 3 {
            let y = child(s, 1 - c->d);
            l_sub(y);
            let y1 = recol(y, q1);
            l_mk(q1, y->key, y->val, false, 0, *y->l, *y->rt);
            let up2 = fr(s1, s->key, s->val, true, c->d, y1, *c->up);
            l_fr(s1, s->key, s->val, true, c->d, y1, *c->up);
            assert(csep(up2));
            let up1 = fr(c->F_r, c->key, c->val, false, c->d, child(s, c->d), up2);
            l_fr(c->F_r, c->key, c->val, false, c->d, child(s, c->d), up2);
            assert(csep(up1));
            l_fr(n1, t->key, t->val, true, d, o, up1);
        } else {
            let q = child(s, c->d);
            l_sub(q);
            let a = child(q, 1 - c->d);
            let b = child(s, 1 - c->d);
            let s2 = mk(s1, s->key, s->val, false, c->d, a, b);
            l_mk(s1, s->key, s->val, false, c->d, a, b);
            assert(nodup(s2));
            let up2 = fr(q1, q->key, q->val, true, c->d, s2, *c->up);
            l_fr(q1, q->key, q->val, true, c->d, s2, *c->up);
            assert(csep(up2));
            let up1 = fr(c->F_r, c->key, c->val, false, c->d, child(q, c->d), up2);
            l_fr(c->F_r, c->key, c->val, false, c->d, child(q, c->d), up2);
            assert(csep(up1));
            l_fr(n1, t->key, t->val, true, d, o, up1);
        }
    }
}

pub open spec fn kept(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, a: Ref, b: Ref) -> bool {
    forall|x: Ref| #![trigger m0.contains_key(x)] #![trigger m1.contains_key(x)] #![trigger m1[x]] m0.contains_key(x) ==> m1.contains_key(x) && (x != a && x != b ==> m1[x] == m0[x])
}
pub proof fn l_keep(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, t: RT, a: Ref, b: Ref)
    requires repr(m0, t), kept(m0, m1, a, b), !fp(t).contains(a), !fp(t).contains(b),
    ensures repr(m1, t),
{
    l_dom(m0, t);
    l_frame(m0, m1, t);
}
pub proof fn l_ckeep(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, h: Ref, a: Ref, b: Ref)
    requires crepr(m0, c, h), kept(m0, m1, a, b), !cfp(c).contains(a), !cfp(c).contains(b),
    ensures crepr(m1, c, h),
{
    l_cdom(m0, c, h);
    l_cframe(m0, m1, c, h);
}

pub proof fn l_del_mem(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref)
    requires
        crepr(m0, c, rootof(t)), repr(m0, t), sep(c, t), t is N, d == 0 || d == 1, dsib(c, t, d),
        del_mem(m0, m1, c, t, d, n1, s1, q1),
    ensures
        crepr(m1, dctx(c, t, d, n1, s1, q1), rootof(child(t, d))), repr(m1, child(t, d)), sep(dctx(c, t, d, n1, s1, q1), child(t, d)),
        forall|x: Ref| #[trigger] cfp(dctx(c, t, d, n1, s1, q1)).contains(x) ==> in3(c, t, d, x, n1, s1, q1),
{
    let k = dkind(c, t, d);
    let o = child(t, 1 - d);
    let x = child(t, d);
    let c1 = dctx(c, t, d, n1, s1, q1);
    let p = cref(c);
    let g = if k >= 3 { cref(*c->up) } else { p };
    l_dom(m0, t);
    l_cdom(m0, c, rootof(t));
    l_sub(t);
    l_csub(c);
    if c is F { l_csub(*c->up); }
    assert(fresh3(c, t, d, n1, s1, q1));
    l_del_sep(c, t, d, n1, s1, q1);
    assert(kept(m0, m1, p, g));
    assert(repr(m0, o) && repr(m0, x));
    l_keep(m0, m1, o, p, g);
    l_keep(m0, m1, x, p, g);
    if k <= 1 {
        l_chole(m0, m1, c, rootof(t), if k == 0 { n1 } else { s1 });
        if k == 1 {
            assert(repr(m1, *o->l) && repr(m1, *o->rt));
            assert(crepr(m1, *c1->up, n1));
        }
    } else {
        let s = *c->o;
        let up1 = *c1->up;
        l_sub(s);
        assert(repr(m0, s));
        l_keep(m0, m1, s, p, g);
        assert(repr(m1, *s->l) && repr(m1, *s->rt));
        assert(crepr(m0, *c->up, p));
        if k == 2 {
            l_ckeep(m0, m1, *c->up, p, p, p);
            assert(repr(m1, *up1->o));
            assert(crepr(m1, up1, n1));
        } else {
            let up2 = *up1->up;
            l_chole(m0, m1, *c->up, p, cref(up2));
            let q = if k == 3 { child(s, 1 - c->d) } else { child(s, c->d) };
            assert(repr(m1, q));
            assert(repr(m1, *q->l) && repr(m1, *q->rt));
            if k == 3 {
                assert(repr(m1, *up2->o));
            } else {
                assert(repr(m1, child(q, 1 - c->d)));
                assert(repr(m1, child(s, 1 - c->d)));
                assert(repr(m1, *(*up2->o)->l) && repr(m1, *(*up2->o)->rt));
                assert(repr(m1, *up2->o));
            }
            assert(crepr(m1, up2, p));
            assert(repr(m1, *up1->o));
            assert(crepr(m1, up1, n1));
        }
    }
    assert(crepr(m1, c1, rootof(x)));
}

// ------------------------------------------------------------ the loop invariant of deletion

pub open spec fn sz(t: RT) -> int
    decreases t,
{
    match t { RT::E => 0, RT::N { l, rt, .. } => 1 + sz(*l) + sz(*rt) }
}
pub proof fn l_sz(t: RT)
    ensures sz(t) >= 0, t is N ==> sz(*t->l) < sz(t) && sz(*t->rt) < sz(t),
    decreases t,
{
    if t is N { l_sz(*t->l); l_sz(*t->rt); }
}

// tt: the node that holds the key to delete, if it has been met
pub open spec fn found(ct: @CT@, c: RC, key: Seq<u8>, tt: Ref) -> bool {
    if tt == NIL { bnd(ct, c, key) } else { tt == tref(c) && cr(c).len() > 0 && cmp(ct, cr(c)[0].0, key) == 0 }
}

#[verifier::opaque]
pub open spec fn del_inv(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, tt: Ref) -> bool {
    &&& total(ct) && ext(h0, m) && ins_own(h0, t0, c, t) && wr(c, h0.dom())
    &&& toref(c) == top
    &&& crepr(m, c, rootof(t)) && repr(m, t) && sep(c, t) && cdirs(c)
    &&& good(c, t) && push(c, t) && sorted(ct, whole(c, t))
    &&& whole(c, t) == ino(t0)
    &&& found(ct, c, key, tt)
}

pub proof fn l_del_init(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m: Map<Ref, @S@>, top: Ref, key: Seq<u8>)
    requires
        total(ct), repr(h0, t0), okt(ct, t0),
        top != NIL, !h0.contains_key(top), m.contains_key(top), !m[top].red, m[top].chld == (A2 { a: NIL, b: rootof(t0) }),
        ext(h0, m),
    ensures del_inv(ct, h0, t0, m, RC::Top { r: top }, t0, top, key, NIL), sz(t0) >= 0,
{
    reveal(del_inv);
    let cx = RC::Top { r: top };
    l_dom(h0, t0);
    l_frame(h0, m, t0);
    assert(whole(cx, t0) =~= ino(t0));
    assert(cfp(cx) =~= set![top]);
    assert(sep(cx, t0));
    assert(bnd(ct, cx, key));
    assert(good(cx, t0));
    assert(crepr(m, cx, rootof(t0)));
    l_sz(t0);
}

// the memory the body of the loop works on
pub open spec fn dlocal(m: Map<Ref, @S@>, c: RC, t: RT) -> bool {
    let s = *c->o;
    &&& c is Top ==> m[cref(c)].chld.at(0) == NIL && cdir(c) == 1
    &&& cdir(c) == 0 || cdir(c) == 1
    &&& c is F && s is N && *s->l is N ==> ncell(m, *s->l) && rootof(*s->l) != cref(c) && rootof(*s->l) != cref(*c->up) && rootof(*s->l) != rootof(s) && (t is N ==> rootof(*s->l) != rootof(t))
    &&& c is F && s is N && *s->rt is N ==> ncell(m, *s->rt) && rootof(*s->rt) != cref(c) && rootof(*s->rt) != cref(*c->up) && rootof(*s->rt) != rootof(s) && (t is N ==> rootof(*s->rt) != rootof(t))
    &&& c is F && s is N && *s->l is N && *s->rt is N ==> rootof(*s->l) != rootof(*s->rt)
    &&& c is F ==> m[cref(*c->up)].chld.at(1 - cdir(*c->up)) != cref(c)
    &&& c is F ==> cdir(*c->up) == 0 || cdir(*c->up) == 1
}
pub proof fn l_dloc(m: Map<Ref, @S@>, c: RC, t: RT)
    requires crepr(m, c, rootof(t)), repr(m, t), sep(c, t),
    ensures dlocal(m, c, t), local(m, c, t),
{
    l_ins_loc(m, c, t);
    l_dom(m, t);
    l_cdom(m, c, rootof(t));
    l_sub(t);
    l_csub(c);
    if c is F {
        let s = *c->o;
        let up = *c->up;
        l_csub(up);
        l_sub(s);
        l_sub(*s->l);
        l_sub(*s->rt);
        assert(crepr(m, up, c->F_r));
        if s is N {
            assert(repr(m, s));
            assert(repr(m, *s->l) && repr(m, *s->rt));
        }
        if up is F {
            l_sub(*up->o);
            if *up->o is N { assert(fp(*up->o).contains(rootof(*up->o))); assert(cfp(up).contains(rootof(*up->o))); }
        }
    }
}
pub proof fn l_del_open(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, tt: Ref)
    requires del_inv(ct, h0, t0, m, c, t, top, key, tt),
    ensures
        dlocal(m, c, t), local(m, c, t),
        t is N ==> dsib(c, t, 0) && dsib(c, t, 1),
        ext(h0, m),
        !h0.contains_key(cref(c)), c is F ==> !h0.contains_key(cref(*c->up)),
{
    reveal(del_inv);
    l_dloc(m, c, t);
    if c is F { assert(wr(*c->up, h0.dom())); }
    if t is N {
        assert forall|d: int| d == 0 || d == 1 implies #[trigger] dsib(c, t, d) by {
            l_del_good(c, t, d, NIL, NIL, NIL);
        }
    }
}

pub proof fn l_del_found(ct: @CT@, c: RC, t: RT, d: int, n1: Ref, s1: Ref, q1: Ref, key: Seq<u8>, tt: Ref, r: int)
    requires
        total(ct), t is N, sorted(ct, whole(c, t)), found(ct, c, key, tt), n1 != NIL,
        r == cmp(ct, t->key, key), d == dirof(r), c is F ==> c->d == 0 || c->d == 1, dsib(c, t, d),
    ensures
        found(ct, dctx(c, t, d, n1, s1, q1), key, if r == 0 { n1 } else { tt }),
{
    let c1 = dctx(c, t, d, n1, s1, q1);
    l_del_ino(c, t, d, n1, s1, q1);
    if tt != NIL {
        let s = whole(c, t);
        let i = (cl(c).len() + ino(*t->l).len()) as int;
        let j = (cl(c).len() + ino(t).len()) as int;
        assert(ino(t)[ino(*t->l).len() as int] == (t->key, t->val));
        assert(s[i] == (t->key, t->val));
        assert(s[j] == cr(c)[0]);
        assert(i < j);
        l_trans(ct, t->key, cr(c)[0].0, key);
        assert(r < 0);
        assert(cr(down(c, t, 1)) == cr(c));
        let k = dkind(c, t, d);
        assert(tref(c1) == tref(*c1->up));
        if k >= 2 {
            if k >= 3 { assert(tref(*(*c1->up)->up) == if c->d == 0 { cref(*(*c1->up)->up) } else { tref(*c->up) }); }
            assert(tref(*c1->up) == tref(c));
        }
        assert(tref(c1) == tref(c));
    } else if r == 0 {
        assert(cr(down(c, t, 0))[0] == (t->key, t->val));
        assert(tref(c1) == n1);
    } else {
        l_down_bnd(ct, c, t, key, r);
    }
}

pub proof fn l_del_tail(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, tt: Ref, r: int, n1: Ref, s1: Ref, q1: Ref)
    requires
        del_inv(ct, h0, t0, m0, c, t, top, key, tt), t is N,
        r == cmp(ct, t->key, key),
        del_mem(m0, m1, c, t, dirof(r), n1, s1, q1),
    ensures
        del_inv(ct, h0, t0, m1, dctx(c, t, dirof(r), n1, s1, q1), child(t, dirof(r)), top, key, if r == 0 { n1 } else { tt }),
        sz(child(t, dirof(r))) < sz(t), sz(child(t, dirof(r))) >= 0,
{
    reveal(del_inv);
    let d = dirof(r);
    let c1 = dctx(c, t, d, n1, s1, q1);
    let x = child(t, d);
    l_del_good(c, t, d, n1, s1, q1);
    let k = dkind(c, t, d);
    assert(dsib(c, t, d));
    l_del_mem(m0, m1, c, t, d, n1, s1, q1);
    l_del_ino(c, t, d, n1, s1, q1);
    l_del_found(ct, c, t, d, n1, s1, q1, key, tt, r);
    l_cdirs(m1, c1, rootof(x));
    l_sz(t);
    l_sz(x);
    l_sub(t);
    assert(wr(c, h0.dom()));
    assert(ins_own(h0, t0, c1, x)) by {
        assert forall|y: Ref| #[trigger] fp(x).contains(y) implies !h0.contains_key(y) || fp(t0).contains(y) by { assert(fp(t).contains(y)); }
        assert forall|y: Ref| #[trigger] cfp(c1).contains(y) implies !h0.contains_key(y) || fp(t0).contains(y) by {
            assert(in3(c, t, d, y, n1, s1, q1));
        }
    }
    if c is F { assert(wr(*c->up, h0.dom())); }
    assert(ext(h0, m1));
    let up1 = *c1->up;
    if k == 0 {
        assert(up1 == c);
    } else if k == 1 {
        assert(*up1->up == c);
        assert(wr(up1, h0.dom()));
        assert(toref(up1) == top);
    } else {
        assert(toref(*c->up) == top);
        if k >= 3 {
            assert(*(*up1->up)->up == *c->up);
            assert(wr(*up1->up, h0.dom()));
            assert(toref(*up1->up) == top);
        }
        assert(wr(up1, h0.dom()));
        assert(toref(up1) == top);
    }
    assert(toref(c1) == top);
    assert(wr(c1, h0.dom()));
}

// ------------------------------------------------------------ the end of the descent

// the frame that held the key, with another entry in it
pub open spec fn repl(c: RC, key: Seq<u8>, val: @VT@) -> RC
    decreases c,
{
    match c {
        RC::Top { r } => c,
        RC::F { r, key: k, val: v, red, d, o, up } => if d == 0 { RC::F { r, key, val, red, d, o, up } } else { RC::F { r, key: k, val: v, red, d, o, up: Box::new(repl(*up, key, val)) } },
    }
}
pub proof fn l_repl(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, h: Ref, key: Seq<u8>, val: @VT@)
    requires
        crepr(m0, c, h), csep(c), tref(c) != NIL,
        m1.contains_key(tref(c)), m1[tref(c)].key@ == key, m1[tref(c)].value == val, m1[tref(c)].red == m0[tref(c)].red, m1[tref(c)].chld == m0[tref(c)].chld,
        forall|x: Ref| #[trigger] m0.contains_key(x) && x != tref(c) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures
        crepr(m1, repl(c, key, val), h), csep(repl(c, key, val)), cfp(repl(c, key, val)) == cfp(c),
        cref(repl(c, key, val)) == cref(c), cdir(repl(c, key, val)) == cdir(c), toref(repl(c, key, val)) == toref(c),
        cfp(c).contains(tref(c)), repl(c, key, val) is F, c is F,
    decreases c,
{
    if c is F {
        l_csub(c);
        l_cdom(m0, c, h);
        assert(repr(m0, *c->o) && crepr(m0, *c->up, c->F_r));
        if c->d == 0 {
            l_frame(m0, m1, *c->o);
            l_cframe(m0, m1, *c->up, c->F_r);
            assert(cfp(repl(c, key, val)) =~= cfp(c));
        } else {
            l_repl(m0, m1, *c->up, c->F_r, key, val);
            l_csub(*c->up);
            l_frame(m0, m1, *c->o);
        }
    }
}
pub proof fn l_repl_c(c: RC, key: Seq<u8>, val: @VT@)
    requires cdirs(c),
    ensures
        cdirs(repl(c, key, val)),
        cl(repl(c, key, val)) == cl(c),
        tref(c) != NIL && cr(c).len() > 0 ==> cr(repl(c, key, val)) == cr(c).update(0, (key, val)),
        forall|h: int, b: bool| cok(c, h, b) ==> #[trigger] cok(repl(c, key, val), h, b),
    decreases c,
{
    if c is F {
        if c->d == 0 {
            assert(cr(repl(c, key, val)) =~= cr(c).update(0, (key, val)));
            assert forall|h: int, b: bool| cok(c, h, b) implies #[trigger] cok(repl(c, key, val), h, b) by { }
        } else {
            l_repl_c(*c->up, key, val);
            assert forall|h: int, b: bool| cok(c, h, b) implies #[trigger] cok(repl(c, key, val), h, b) by {
                assert(cok(repl(*c->up, key, val), h + if c->red { 0int } else { 1 }, c->red));
            }
        }
    }
}
// who has nothing to the right has no frame for it
pub proof fn l_cr_empty(c: RC)
    requires cdirs(c), cr(c).len() > 0,
    ensures c is F,
{
}

pub open spec fn del_seq(ct: @CT@, s0: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>, s1: Seq<(Seq<u8>, @VT@)>, ok: bool) -> bool {
    &&& ok ==> exists|i: int| 0 <= i < s0.len() && cmp(ct, (#[trigger] s0[i]).0, key) == 0 && s1 == s0.remove(i)
    &&& !ok ==> s1 == s0 && look(ct, s0, key) is None
}

pub open spec fn del_end(m: Map<Ref, @S@>, c: RC, tt: Ref) -> Map<Ref, @S@> {
    if tt == NIL { m } else {
        let n = cref(c);
        let p = cref(*c->up);
        let m2 = m.insert(tt, @S@ { key: m[n].key, value: m[n].value, ..m[tt] });
        m2.insert(p, @S@ { chld: m2[p].chld.put(cdir(*c->up), NIL), ..m2[p] })
    }
}

pub proof fn l_del_leaf(c: RC, t: RT)
    requires good(c, t), push(c, t), t is E, c is F,
    ensures *c->o is E, c->red || *c->up is Top,
{
    assert(bh(t) == 0);
    let o = *c->o;
    assert(rbok(o) && bh(o) == 0);
    assert(!isred(o));
    if o is N { l_bh_pos(*o->l); }
}

// what the code after the loop reads
pub proof fn l_del_end(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, tt: Ref)
    requires del_inv(ct, h0, t0, m, c, t, top, key, tt), t is E,
    ensures
        m.contains_key(top) && top != NIL,
        c is F ==> cref(*c->up) != NIL && m.contains_key(cref(*c->up)) && cref(c) != NIL && m.contains_key(cref(c)) && cref(*c->up) != cref(c),
        c is F ==> !h0.contains_key(cref(c)) && !h0.contains_key(cref(*c->up)),
        tt != NIL ==> c is F && m.contains_key(tt) && !h0.contains_key(tt) && m[cref(c)].chld == (A2 { a: NIL, b: NIL }),
        tt != NIL ==> m[cref(*c->up)].chld.at(cdir(*c->up)) == cref(c) && m[cref(*c->up)].chld.at(1 - cdir(*c->up)) != cref(c) && (cdir(*c->up) == 0 || cdir(*c->up) == 1),
        tt != NIL ==> tt == cref(c) || tt == tref(*c->up),
{
    reveal(del_inv);
    l_dloc(m, c, t);
    l_cdom(m, c, NIL);
    l_toref(c);
    if c is F { l_csub(c); l_csub(*c->up); assert(wr(*c->up, h0.dom())); }
    if tt != NIL {
        l_cr_empty(c);
        l_del_leaf(c, t);
        l_tref_wr(c, h0.dom());
    }
}
pub proof fn l_toref(c: RC)
    ensures cfp(c).contains(toref(c)),
    decreases c,
{
    if c is F { l_toref(*c->up); }
}
pub proof fn l_tref_wr(c: RC, z: Set<Ref>)
    requires wr(c, z), tref(c) != NIL,
    ensures !z.contains(tref(c)), cfp(c).contains(tref(c)),
    decreases c,
{
    if c is F { l_tref_wr2(c, z); if c->d != 0 { l_tref_wr(*c->up, z); } }
}
pub proof fn l_tref_wr2(c: RC, z: Set<Ref>)
    requires wr(c, z), c is F,
    ensures !z.contains(cref(c)), wr(*c->up, z), cfp(c).contains(cref(c)),
{
}

pub proof fn l_del_cut(ct: @CT@, m: Map<Ref, @S@>, c: RC, t: RT, tt: Ref) -> (cf: RC)
    requires
        crepr(m, c, rootof(t)), repr(m, t), sep(c, t), cdirs(c), good(c, t), push(c, t), t is E,
        tt != NIL, tt == tref(c), cr(c).len() > 0,
    ensures
        c is F,
        crepr(del_end(m, c, tt), cf, NIL), csep(cf), cdirs(cf), good(cf, RT::E),
        whole(cf, RT::E) == cl(c) + cr(c).drop_first(),
        forall|x: Ref| #[trigger] cfp(cf).contains(x) ==> cfp(c).contains(x),
        toref(cf) == toref(c),
        forall|z: Set<Ref>| wr(c, z) ==> #[trigger] wr(cf, z),
        forall|x: Ref| #[trigger] m.contains_key(x) ==> del_end(m, c, tt).contains_key(x) && (x != tt && x != cref(*c->up) ==> del_end(m, c, tt)[x] == m[x]),
{
    l_cr_empty(c);
    l_del_leaf(c, t);
    l_csub(c);
    l_cdom(m, c, NIL);
    let up = *c->up;
    let n = cref(c);
    let p = cref(up);
    l_csub(up);
    let e = (c->key, c->val);
    let m2 = m.insert(tt, @S@ { key: m[n].key, value: m[n].value, ..m[tt] });
    let m3 = del_end(m, c, tt);
    assert(crepr(m, up, n));
    assert(cl(RC::Top { r: n }) =~= Seq::<(Seq<u8>, @VT@)>::empty());
    assert(ino(RT::E) =~= Seq::<(Seq<u8>, @VT@)>::empty());
    assert(cok(up, 0, false)) by { assert(cok(up, 0 + if c->red { 0int } else { 1 }, c->red)); }
    assert(bh(RT::E) == 0 && rbok(RT::E));
    if c->d == 0 {
        assert(m2 =~= m);
        l_chole(m, m3, up, n, NIL);
        assert(cr(c) =~= seq![e] + cr(up));
        assert(cr(c).drop_first() =~= cr(up));
        assert(whole(up, RT::E) =~= cl(c) + cr(c).drop_first());
        up
    } else {
        let cf = repl(up, c->key, c->val);
        assert(tref(up) == tt);
        assert(cr(up) == cr(c));
        l_repl(m, m2, up, n, c->key, c->val);
        l_repl_c(up, c->key, c->val);
        l_csub(cf);
        l_cdom(m2, cf, n);
        l_chole(m2, m3, cf, n, NIL);
        assert(cl(c) =~= cl(up) + seq![e]);
        assert(whole(cf, RT::E) =~= cl(up) + cr(up).update(0, e));
        assert(cl(up) + cr(up).update(0, e) =~= cl(c) + cr(c).drop_first());
        assert(cok(cf, 0, false));
        assert forall|z: Set<Ref>| wr(c, z) implies #[trigger] wr(cf, z) by { assert(wr(up, z)); l_repl_wr(up, c->key, c->val, z); }
        cf
    }
}
pub proof fn l_repl_wr(c: RC, key: Seq<u8>, val: @VT@, z: Set<Ref>)
    requires wr(c, z),
    ensures wr(repl(c, key, val), z),
    decreases c,
{
    if c is F { assert(wr(*c->up, z)); l_repl_wr(*c->up, key, val, z); }
}

pub proof fn l_del_none(ct: @CT@, c: RC, key: Seq<u8>, s: Seq<(Seq<u8>, @VT@)>)
    requires bnd(ct, c, key), s == cl(c) + cr(c),
    ensures look(ct, s, key) is None,
{
    assert forall|i: int| 0 <= i < s.len() implies cmp(ct, (#[trigger] s[i]).0, key) != 0 by {
        if i < cl(c).len() { assert(s[i] == cl(c)[i]); } else { assert(s[i] == cr(c)[i - cl(c).len()]); }
    }
}
pub proof fn l_sorted_remove(ct: @CT@, s: Seq<(Seq<u8>, @VT@)>, i: int)
    requires sorted(ct, s), 0 <= i < s.len(),
    ensures sorted(ct, s.remove(i)),
{
    let w = s.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies cmp(ct, (#[trigger] w[a]).0, (#[trigger] w[b]).0) < 0 by {
        let x = if a < i { a } else { a + 1 };
        let y = if b < i { b } else { b + 1 };
        assert(w[a] == s[x] && w[b] == s[y]);
    }
}

pub open spec fn painted(m: Map<Ref, @S@>, r: Ref) -> Map<Ref, @S@> { if r == NIL { m } else { m.insert(r, @S@ { red: false, ..m[r] }) } }

pub proof fn l_del_fin(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, tt: Ref) -> (u: RT)
    requires del_inv(ct, h0, t0, m, c, t, top, key, tt), t is E,
    ensures
        ({
            let md = del_end(m, c, tt);
            let mf = painted(md, rootof(u));
            &&& md.contains_key(top) && top != NIL && md[top].chld.b == rootof(u)
            &&& rootof(u) != NIL ==> md.contains_key(rootof(u))
            &&& repr(mf, black(u)) && rootof(black(u)) == rootof(u)
            &&& okt(ct, black(u))
            &&& del_seq(ct, ino(t0), key, ino(black(u)), tt != NIL)
            &&& ext(h0, mf)
            &&& forall|x: Ref| #[trigger] fp(black(u)).contains(x) ==> !h0.contains_key(x) || fp(t0).contains(x)
        }),
{
    l_del_end(ct, h0, t0, m, c, t, top, key, tt);
    reveal(del_inv);
    assert(rootof(t) == NIL && t == RT::E);
    assert(ino(RT::E) =~= Seq::<(Seq<u8>, @VT@)>::empty());
    let md = del_end(m, c, tt);
    let cf = if tt == NIL { c } else { l_del_cut(ct, m, c, t, tt) };
    assert(cfp(cf).subset_of(cfp(c)));
    assert(sep(cf, RT::E)) by { assert(fp(RT::E) =~= Set::empty()); assert(nodup(RT::E)); }
    assert(repr(md, RT::E));
    l_plug(md, cf, RT::E);
    l_plug_ino(cf, RT::E);
    l_plug_ok(cf, RT::E);
    let u = plug(cf, RT::E);
    let s0 = ino(t0);
    assert(whole(c, t) =~= cl(c) + cr(c));
    if tt == NIL {
        l_del_none(ct, c, key, s0);
        assert(del_seq(ct, s0, key, ino(u), false));
    } else {
        let i = cl(c).len() as int;
        assert(s0[i] == cr(c)[0]);
        assert(ino(u) =~= s0.remove(i));
        l_sorted_remove(ct, s0, i);
        assert(del_seq(ct, s0, key, ino(u), true));
    }
    assert forall|x: Ref| #[trigger] fp(u).contains(x) implies !h0.contains_key(x) || fp(t0).contains(x) by {
        assert(fp(RT::E).contains(x) || cfp(cf).contains(x));
        assert(cfp(c).contains(x));
    }
    assert(wr(cf, h0.dom()));
    l_dom(md, u);
    if u is N {
        assert(cf is F);
        l_plug_wr(cf, RT::E, h0.dom());
        assert(fp(u).contains(rootof(u)));
        l_black(md, painted(md, rootof(u)), ct, u);
    }
    u
}

pub proof fn l_del_hd(ct: @CT@, h0: Map<Ref, @S@>, t0: RT, m: Map<Ref, @S@>, c: RC, t: RT, top: Ref, key: Seq<u8>, tt: Ref)
    requires del_inv(ct, h0, t0, m, c, t, top, key, tt),
    ensures
        m.contains_key(cref(c)), cref(c) != NIL, m[cref(c)].chld.at(cdir(c)) == rootof(t),
        rootof(t) == NIL <==> t is E, cdir(c) == 0 || cdir(c) == 1,
{
    l_del_open(ct, h0, t0, m, c, t, top, key, tt);
}
