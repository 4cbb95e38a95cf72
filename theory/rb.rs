// Red-black trees over the heap of @S@ nodes, and zippers into them.
pub enum RT {
    E,
    N { r: Ref, key: Seq<u8>, val: @VT@, red: bool, l: Box<RT>, rt: Box<RT> },
}

// A path from the fake root down to a hole: F is a node whose child on side d is the hole
// and whose other child is o.
pub enum RC {
    Top { r: Ref },
    F { r: Ref, key: Seq<u8>, val: @VT@, red: bool, d: int, o: Box<RT>, up: Box<RC> },
}

pub open spec fn rootof(t: RT) -> Ref { match t { RT::E => NIL, RT::N { r, .. } => r } }
pub open spec fn child(t: RT, i: int) -> RT { if i == 0 { *t->l } else { *t->rt } }
pub open spec fn isred(t: RT) -> bool { t is N && t->red }
pub open spec fn mk(r: Ref, key: Seq<u8>, val: @VT@, red: bool, d: int, x: RT, y: RT) -> RT {
    if d == 0 { RT::N { r, key, val, red, l: Box::new(x), rt: Box::new(y) } } else { RT::N { r, key, val, red, l: Box::new(y), rt: Box::new(x) } }
}
pub open spec fn two(d: int, x: Ref, y: Ref) -> A2 { if d == 0 { A2 { a: x, b: y } } else { A2 { a: y, b: x } } }
pub open spec fn cref(c: RC) -> Ref { match c { RC::Top { r } => r, RC::F { r, .. } => r } }
pub open spec fn cdir(c: RC) -> int { match c { RC::Top { r } => 1, RC::F { d, .. } => d } }

// ------------------------------------------------------------ memory

pub open spec fn cell(m: Map<Ref, @S@>, r: Ref, key: Seq<u8>, val: @VT@, red: bool, c: A2) -> bool {
    r != NIL && m.contains_key(r) && m[r].key@ == key && m[r].value == val && m[r].red == red && m[r].chld == c
}

pub open spec fn ncell(m: Map<Ref, @S@>, t: RT) -> bool { cell(m, t->N_r, t->key, t->val, t->red, A2 { a: rootof(*t->l), b: rootof(*t->rt) }) }

pub open spec fn repr(m: Map<Ref, @S@>, t: RT) -> bool
    decreases t,
{
    match t {
        RT::E => true,
        RT::N { r, key, val, red, l, rt } => cell(m, r, key, val, red, A2 { a: rootof(*l), b: rootof(*rt) }) && repr(m, *l) && repr(m, *rt),
    }
}

pub open spec fn crepr(m: Map<Ref, @S@>, c: RC, h: Ref) -> bool
    decreases c,
{
    match c {
        RC::Top { r } => r != NIL && m.contains_key(r) && !m[r].red && m[r].chld == (A2 { a: NIL, b: h }),
        RC::F { r, key, val, red, d, o, up } => (d == 0 || d == 1) && cell(m, r, key, val, red, two(d, h, rootof(*o))) && repr(m, *o) && crepr(m, *up, r),
    }
}

pub open spec fn fp(t: RT) -> Set<Ref>
    decreases t,
{
    match t {
        RT::E => Set::empty(),
        RT::N { r, l, rt, .. } => fp(*l).union(fp(*rt)).insert(r),
    }
}
pub open spec fn cfp(c: RC) -> Set<Ref>
    decreases c,
{
    match c {
        RC::Top { r } => Set::empty().insert(r),
        RC::F { r, o, up, .. } => fp(*o).union(cfp(*up)).insert(r),
    }
}
pub open spec fn disj(a: Set<Ref>, b: Set<Ref>) -> bool { forall|x: Ref| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) ==> !b.contains(x) }

pub open spec fn nodup(t: RT) -> bool
    decreases t,
{
    match t {
        RT::E => true,
        RT::N { r, l, rt, .. } => r != NIL && !fp(*l).contains(r) && !fp(*rt).contains(r) && disj(fp(*l), fp(*rt)) && nodup(*l) && nodup(*rt),
    }
}
pub open spec fn csep(c: RC) -> bool
    decreases c,
{
    match c {
        RC::Top { r } => r != NIL,
        RC::F { r, o, up, .. } => r != NIL && !fp(*o).contains(r) && !cfp(*up).contains(r) && disj(fp(*o), cfp(*up)) && nodup(*o) && csep(*up),
    }
}
pub open spec fn sep(c: RC, t: RT) -> bool { csep(c) && nodup(t) && disj(cfp(c), fp(t)) }

pub open spec fn tree(m: Map<Ref, @S@>, r: Ref) -> RT { choose|t: RT| rootof(t) == r && #[trigger] repr(m, t) }

// every old object is still there, unchanged
pub open spec fn ext(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}
// every old object of z is still there, unchanged
pub open spec fn keeps(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, z: Set<Ref>) -> bool {
    forall|r: Ref| #![trigger m1.contains_key(r)] #![trigger m1[r]] #![trigger z.contains(r)] z.contains(r) && m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}

pub proof fn l_dom(m: Map<Ref, @S@>, t: RT)
    requires repr(m, t),
    ensures forall|x: Ref| #[trigger] fp(t).contains(x) ==> m.contains_key(x) && x != NIL,
    decreases t,
{
    if t is N {
        l_dom(m, *t->l);
        l_dom(m, *t->rt);
        assert forall|x: Ref| #[trigger] fp(t).contains(x) implies m.contains_key(x) && x != NIL by {
            assert(x == t->N_r || fp(*t->l).contains(x) || fp(*t->rt).contains(x));
        }
    }
}
pub proof fn l_cdom(m: Map<Ref, @S@>, c: RC, h: Ref)
    requires crepr(m, c, h),
    ensures forall|x: Ref| #[trigger] cfp(c).contains(x) ==> m.contains_key(x) && x != NIL,
    decreases c,
{
    if c is F {
        l_dom(m, *c->o);
        l_cdom(m, *c->up, c->F_r);
        assert forall|x: Ref| #[trigger] cfp(c).contains(x) implies m.contains_key(x) && x != NIL by {
            assert(x == c->F_r || fp(*c->o).contains(x) || cfp(*c->up).contains(x));
        }
    }
}

pub open spec fn same_on(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, s: Set<Ref>) -> bool {
    forall|x: Ref| #[trigger] s.contains(x) ==> m1.contains_key(x) && m1[x] == m0[x]
}

pub proof fn l_frame(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, t: RT)
    requires repr(m0, t), same_on(m0, m1, fp(t)),
    ensures repr(m1, t),
    decreases t,
{
    if t is N {
        assert(fp(t).contains(t->N_r));
        assert forall|x: Ref| #[trigger] fp(*t->l).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp(t).contains(x)); }
        assert forall|x: Ref| #[trigger] fp(*t->rt).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(fp(t).contains(x)); }
        l_frame(m0, m1, *t->l);
        l_frame(m0, m1, *t->rt);
    }
}
pub proof fn l_cframe(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, h: Ref)
    requires crepr(m0, c, h), same_on(m0, m1, cfp(c)),
    ensures crepr(m1, c, h),
    decreases c,
{
    assert(cfp(c).contains(cref(c)));
    if c is F {
        assert forall|x: Ref| #[trigger] fp(*c->o).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(cfp(c).contains(x)); }
        assert forall|x: Ref| #[trigger] cfp(*c->up).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(cfp(c).contains(x)); }
        l_frame(m0, m1, *c->o);
        l_cframe(m0, m1, *c->up, c->F_r);
    }
}
// ... with a new pointer in the hole of the innermost node
pub proof fn l_chole(m0: Map<Ref, @S@>, m1: Map<Ref, @S@>, c: RC, h: Ref, h1: Ref)
    requires
        crepr(m0, c, h), csep(c),
        m1.contains_key(cref(c)), m1[cref(c)] == (@S@ { chld: m0[cref(c)].chld.put(cdir(c), h1), ..m0[cref(c)] }),
        forall|x: Ref| #[trigger] cfp(c).contains(x) && x != cref(c) ==> m1.contains_key(x) && m1[x] == m0[x],
    ensures crepr(m1, c, h1),
{
    assert(cfp(c).contains(cref(c)));
    if c is F {
        assert forall|x: Ref| #[trigger] fp(*c->o).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(cfp(c).contains(x)); }
        assert forall|x: Ref| #[trigger] cfp(*c->up).contains(x) implies m1.contains_key(x) && m1[x] == m0[x] by { assert(cfp(c).contains(x)); }
        l_frame(m0, m1, *c->o);
        l_cframe(m0, m1, *c->up, c->F_r);
    }
}

pub broadcast proof fn l_unique(m: Map<Ref, @S@>, t: RT)
    requires #[trigger] repr(m, t),
    ensures tree(m, rootof(t)) == t,
{
    let u = tree(m, rootof(t));
    assert(rootof(t) == rootof(t) && repr(m, t));
    assert(rootof(u) == rootof(t) && repr(m, u));
    l_unique2(m, t, u);
}
pub proof fn l_unique2(m: Map<Ref, @S@>, t: RT, u: RT)
    requires repr(m, t), repr(m, u), rootof(t) == rootof(u),
    ensures t == u,
    decreases t,
{
    if t is N && u is N {
        l_unique2(m, *t->l, *u->l);
        l_unique2(m, *t->rt, *u->rt);
    }
}

// ------------------------------------------------------------ order

pub open spec fn allb(c: @CT@, s: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> cmp(c, (#[trigger] s[i]).0, key) < 0 }
pub open spec fn alla(c: @CT@, s: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> cmp(c, (#[trigger] s[i]).0, key) > 0 }
pub open spec fn sorted(c: @CT@, s: Seq<(Seq<u8>, @VT@)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp(c, (#[trigger] s[i]).0, (#[trigger] s[j]).0) < 0
}

// the entries in order
pub open spec fn ino(t: RT) -> Seq<(Seq<u8>, @VT@)>
    decreases t,
{
    match t {
        RT::E => Seq::empty(),
        RT::N { key, val, l, rt, .. } => ino(*l) + seq![(key, val)] + ino(*rt),
    }
}
pub open spec fn cl(c: RC) -> Seq<(Seq<u8>, @VT@)>
    decreases c,
{
    match c {
        RC::Top { r } => Seq::empty(),
        RC::F { key, val, d, o, up, .. } => if d == 0 { cl(*up) } else { cl(*up) + ino(*o) + seq![(key, val)] },
    }
}
pub open spec fn cr(c: RC) -> Seq<(Seq<u8>, @VT@)>
    decreases c,
{
    match c {
        RC::Top { r } => Seq::empty(),
        RC::F { key, val, d, o, up, .. } => if d == 0 { seq![(key, val)] + ino(*o) + cr(*up) } else { cr(*up) },
    }
}
pub open spec fn whole(c: RC, t: RT) -> Seq<(Seq<u8>, @VT@)> { cl(c) + ino(t) + cr(c) }
pub open spec fn bnd(ct: @CT@, c: RC, key: Seq<u8>) -> bool { allb(ct, cl(c), key) && alla(ct, cr(c), key) }

// the entry the tree holds for key
pub open spec fn look(c: @CT@, s: Seq<(Seq<u8>, @VT@)>, key: Seq<u8>) -> Option<@VT@> {
    if exists|i: int| 0 <= i < s.len() && cmp(c, (#[trigger] s[i]).0, key) == 0 {
        Some(s[choose|i: int| 0 <= i < s.len() && cmp(c, (#[trigger] s[i]).0, key) == 0].1)
    } else { None }
}

// ------------------------------------------------------------ colours

pub open spec fn bh(t: RT) -> int
    decreases t,
{
    match t { RT::E => 0, RT::N { red, l, .. } => bh(*l) + if red { 0int } else { 1 } }
}
pub open spec fn rbok(t: RT) -> bool
    decreases t,
{
    match t {
        RT::E => true,
        RT::N { red, l, rt, .. } => rbok(*l) && rbok(*rt) && bh(*l) == bh(*rt) && (red ==> !isred(*l) && !isred(*rt)),
    }
}
pub open spec fn cok(c: RC, h: int, rh: bool) -> bool
    decreases c,
{
    match c {
        RC::Top { r } => true,
        RC::F { red, o, up, .. } => rbok(*o) && bh(*o) == h && (red ==> !isred(*o) && !rh) && cok(*up, h + if red { 0int } else { 1 }, red),
    }
}
pub open spec fn good(c: RC, t: RT) -> bool { rbok(t) && cok(c, bh(t), isred(t)) }

// a valid tree: no sharing, search order, red-black shape
pub open spec fn okt(c: @CT@, t: RT) -> bool { nodup(t) && sorted(c, ino(t)) && rbok(t) && !isred(t) }
pub open spec fn wf(c: @CT@, m: Map<Ref, @S@>, r: Ref) -> bool { rootof(tree(m, r)) == r && repr(m, tree(m, r)) && okt(c, tree(m, r)) }

// ------------------------------------------------------------ filling the hole back

pub open spec fn plug(c: RC, t: RT) -> RT
    decreases c,
{
    match c {
        RC::Top { r } => t,
        RC::F { r, key, val, red, d, o, up } => plug(*up, mk(r, key, val, red, d, t, *o)),
    }
}
pub open spec fn toref(c: RC) -> Ref
    decreases c,
{
    match c { RC::Top { r } => r, RC::F { up, .. } => toref(*up) }
}

pub proof fn l_plug(m: Map<Ref, @S@>, c: RC, t: RT)
    requires crepr(m, c, rootof(t)), repr(m, t), sep(c, t),
    ensures
        repr(m, plug(c, t)), nodup(plug(c, t)),
        m.contains_key(toref(c)) && toref(c) != NIL && m[toref(c)].chld == (A2 { a: NIL, b: rootof(plug(c, t)) }),
        !fp(plug(c, t)).contains(toref(c)),
        forall|x: Ref| #[trigger] fp(plug(c, t)).contains(x) ==> fp(t).contains(x) || cfp(c).contains(x),
    decreases c,
{
    if c is F {
        let t1 = mk(c->F_r, c->key, c->val, c->red, c->d, t, *c->o);
        assert(fp(t1) =~= fp(t).union(fp(*c->o)).insert(c->F_r));
        assert(cfp(c).contains(c->F_r));
        assert(forall|x: Ref| #[trigger] fp(*c->o).contains(x) ==> cfp(c).contains(x));
        assert(forall|x: Ref| #[trigger] cfp(*c->up).contains(x) ==> cfp(c).contains(x));
        l_plug(m, *c->up, t1);
    }
}
pub proof fn l_plug_ino(c: RC, t: RT)
    requires cdirs(c),
    ensures ino(plug(c, t)) == whole(c, t),
    decreases c,
{
    if c is F {
        let t1 = mk(c->F_r, c->key, c->val, c->red, c->d, t, *c->o);
        l_plug_ino(*c->up, t1);
        assert(whole(*c->up, t1) =~= whole(c, t));
    } else {
        assert(whole(c, t) =~= ino(t));
    }
}
pub open spec fn cdirs(c: RC) -> bool
    decreases c,
{
    match c { RC::Top { r } => true, RC::F { d, up, .. } => (d == 0 || d == 1) && cdirs(*up) }
}
pub proof fn l_cdirs(m: Map<Ref, @S@>, c: RC, h: Ref)
    requires crepr(m, c, h),
    ensures cdirs(c),
    decreases c,
{
    if c is F { l_cdirs(m, *c->up, c->F_r); }
}
pub proof fn l_plug_ok(c: RC, t: RT)
    requires good(c, t),
    ensures rbok(plug(c, t)),
    decreases c,
{
    if c is F {
        let t1 = mk(c->F_r, c->key, c->val, c->red, c->d, t, *c->o);
        l_plug_ok(*c->up, t1);
    }
}

// ------------------------------------------------------------ descending

pub open spec fn down(c: RC, t: RT, d: int) -> RC {
    RC::F { r: t->N_r, key: t->key, val: t->val, red: t->red, d: d, o: Box::new(child(t, 1 - d)), up: Box::new(c) }
}
pub open spec fn dirof(r: int) -> int { if r < 0 { 1 } else { 0 } }

pub proof fn l_down(m: Map<Ref, @S@>, c: RC, t: RT, d: int)
    requires crepr(m, c, rootof(t)), repr(m, t), sep(c, t), t is N, d == 0 || d == 1,
    ensures
        crepr(m, down(c, t, d), rootof(child(t, d))), repr(m, child(t, d)), sep(down(c, t, d), child(t, d)),
        forall|x: Ref| #[trigger] fp(child(t, d)).contains(x) ==> fp(t).contains(x),
        forall|x: Ref| #[trigger] cfp(down(c, t, d)).contains(x) ==> fp(t).contains(x) || cfp(c).contains(x),
{
    assert(forall|x: Ref| #[trigger] fp(*t->l).contains(x) ==> fp(t).contains(x));
    assert(forall|x: Ref| #[trigger] fp(*t->rt).contains(x) ==> fp(t).contains(x));
    assert(fp(t).contains(t->N_r));
}
pub proof fn l_down_ino(c: RC, t: RT, d: int)
    requires t is N, d == 0 || d == 1,
    ensures whole(down(c, t, d), child(t, d)) == whole(c, t),
{
    assert(whole(down(c, t, d), child(t, d)) =~= whole(c, t));
}
pub proof fn l_down_good(c: RC, t: RT, d: int)
    requires t is N, good(c, t), d == 0 || d == 1,
    ensures good(down(c, t, d), child(t, d)),
{
}
pub proof fn l_down_bnd(ct: @CT@, c: RC, t: RT, key: Seq<u8>, r: int)
    requires total(ct), t is N, sorted(ct, whole(c, t)), bnd(ct, c, key), r == cmp(ct, t->key, key), r != 0,
    ensures bnd(ct, down(c, t, dirof(r)), key),
{
    let s = ino(t);
    assert(sorted(ct, s)) by {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies cmp(ct, (#[trigger] s[i]).0, (#[trigger] s[j]).0) < 0 by {
            let n = cl(c).len();
            assert(whole(c, t)[n + i] == s[i] && whole(c, t)[n + j] == s[j]);
        }
    }
    let nl = ino(*t->l).len();
    assert(s[nl as int] == (t->key, t->val));
    if r < 0 {
        let w = cl(down(c, t, 1));
        assert forall|i: int| 0 <= i < w.len() implies cmp(ct, (#[trigger] w[i]).0, key) < 0 by {
            if i < cl(c).len() { assert(w[i] == cl(c)[i]); }
            else if i < cl(c).len() + nl {
                assert(w[i] == s[i - cl(c).len()]);
                l_trans(ct, w[i].0, t->key, key);
            } else { assert(w[i] == (t->key, t->val)); }
        }
    } else {
        let w = cr(down(c, t, 0));
        assert forall|i: int| 0 <= i < w.len() implies cmp(ct, (#[trigger] w[i]).0, key) > 0 by {
            let nr = ino(*t->rt).len();
            if i == 0 { assert(w[i] == (t->key, t->val)); }
            else if i < 1 + nr {
                assert(w[i] == s[nl + i]);
                l_trans(ct, key, t->key, w[i].0);
            } else { assert(w[i] == cr(c)[i - 1 - nr]); }
        }
    }
}

// what the context holds at its frames
pub proof fn l_frame_cmp(ct: @CT@, c: RC, key: Seq<u8>)
    requires bnd(ct, c, key), c is F, c->d == 0 || c->d == 1,
    ensures c->d == 1 ==> cmp(ct, c->key, key) < 0, c->d == 0 ==> cmp(ct, c->key, key) > 0, bnd(ct, *c->up, key),
{
    if c->d == 1 {
        let w = cl(c);
        assert(w[w.len() - 1] == (c->key, c->val));
        assert forall|i: int| 0 <= i < cl(*c->up).len() implies cmp(ct, (#[trigger] cl(*c->up)[i]).0, key) < 0 by { assert(w[i] == cl(*c->up)[i]); }
    } else {
        let w = cr(c);
        assert(w[0] == (c->key, c->val));
        let n = 1 + ino(*c->o).len();
        assert forall|i: int| 0 <= i < cr(*c->up).len() implies cmp(ct, (#[trigger] cr(*c->up)[i]).0, key) > 0 by { assert(w[n + i] == cr(*c->up)[i]); }
    }
}

// ------------------------------------------------------------ rotations in memory

pub open spec fn single_map(m: Map<Ref, @S@>, n: Ref, d: int) -> Map<Ref, @S@> {
    let s = m[n].chld.at(d);
    m.insert(n, @S@ { red: true, chld: m[n].chld.put(d, m[s].chld.at(1 - d)), ..m[n] })
        .insert(s, @S@ { red: false, chld: m[s].chld.put(1 - d, n), ..m[s] })
}
pub open spec fn double_map(m: Map<Ref, @S@>, n: Ref, d: int) -> Map<Ref, @S@> {
    let p = m[n].chld.at(d);
    let q = m[p].chld.at(1 - d);
    m.insert(p, @S@ { red: true, chld: m[p].chld.put(1 - d, m[q].chld.at(d)), ..m[p] })
        .insert(n, @S@ { red: true, chld: m[n].chld.put(d, m[q].chld.at(1 - d)), ..m[n] })
        .insert(q, @S@ { red: false, chld: two(d, p, n), ..m[q] })
}

// the memory around the hole
pub open spec fn local(m: Map<Ref, @S@>, c: RC, t: RT) -> bool {
    &&& m.contains_key(cref(c)) && cref(c) != NIL && m[cref(c)].chld.at(cdir(c)) == rootof(t)
    &&& (t is N ==> m.contains_key(rootof(t)) && rootof(t) != cref(c) && rootof(t) != NIL)
    &&& (t is N ==> ncell(m, t))
    &&& (t is N && *t->l is N ==> ncell(m, *t->l) && rootof(*t->l) != rootof(t))
    &&& (t is N && *t->rt is N ==> ncell(m, *t->rt) && rootof(*t->rt) != rootof(t))
    &&& (t is N && *t->l is N ==> rootof(*t->l) != cref(c) && (c is F ==> rootof(*t->l) != cref(*c->up) && (*c->up is F ==> rootof(*t->l) != cref(*(*c->up)->up))))
    &&& (t is N && *t->rt is N ==> rootof(*t->rt) != cref(c) && (c is F ==> rootof(*t->rt) != cref(*c->up) && (*c->up is F ==> rootof(*t->rt) != cref(*(*c->up)->up))))
    &&& (t is N && *t->l is N && *t->rt is N ==> rootof(*t->l) != rootof(*t->rt))
    &&& (c is F ==> m[cref(c)].chld.at(1 - c->d) == rootof(*c->o) && cref(*c->up) != cref(c) && m.contains_key(cref(*c->up)) && cref(*c->up) != NIL && m[cref(*c->up)].chld.at(cdir(*c->up)) == cref(c))
    &&& (c is F ==> cell(m, c->F_r, c->key, c->val, c->red, two(c->d, rootof(t), rootof(*c->o))))
    &&& (c is F && *c->up is F ==> cell(m, (*c->up)->F_r, (*c->up)->key, (*c->up)->val, (*c->up)->red, two((*c->up)->d, c->F_r, rootof(*(*c->up)->o))))
    &&& (c is F && *c->o is N ==> ncell(m, *c->o) && rootof(*c->o) != cref(c) && rootof(*c->o) != cref(*c->up))
    &&& (c is F ==> rootof(t) != cref(*c->up) && (t is N ==> rootof(t) != rootof(*c->o)))
    &&& (c is F && *c->up is F ==> cref(*(*c->up)->up) != NIL && m.contains_key(cref(*(*c->up)->up)) && m[cref(*(*c->up)->up)].chld.at(cdir(*(*c->up)->up)) == cref(*c->up)
                && m[cref(*(*c->up)->up)].chld.at(1 - cdir(*(*c->up)->up)) != cref(*c->up)
                && cref(*(*c->up)->up) != cref(*c->up) && cref(*(*c->up)->up) != cref(c) && rootof(t) != cref(*(*c->up)->up))
}

pub proof fn l_ins_loc(m: Map<Ref, @S@>, c: RC, t: RT)
    requires crepr(m, c, rootof(t)), repr(m, t), sep(c, t),
    ensures
        local(m, c, t),
{
    l_dom(m, t);
    l_cdom(m, c, rootof(t));
    if t is N {
        assert(fp(t).contains(rootof(t)));
        assert(repr(m, *t->l) && repr(m, *t->rt));
        if *t->l is N { assert(fp(*t->l).contains(rootof(*t->l))); assert(fp(t).contains(rootof(*t->l))); }
        if *t->rt is N { assert(fp(*t->rt).contains(rootof(*t->rt))); assert(fp(t).contains(rootof(*t->rt))); }
    }
    assert(cfp(c).contains(cref(c)));
    if c is F {
        let up = *c->up;
        assert(cfp(up).contains(cref(up)));
        assert(cfp(c).contains(cref(up)));
        if *c->o is N { assert(fp(*c->o).contains(rootof(*c->o))); assert(cfp(c).contains(rootof(*c->o))); }
        assert(crepr(m, up, c->F_r));
        assert(csep(up));
        if up is F {
            let up2 = *up->up;
            assert(crepr(m, up2, up->F_r));
            assert(csep(up2));
            assert(cfp(up2).contains(cref(up2)));
            assert(cfp(up).contains(cref(up2)));
            assert(cfp(c).contains(cref(up2)));
            if up2 is F {
                if *up2->o is N {
                    assert(fp(*up2->o).contains(rootof(*up2->o)));
                    assert(cfp(up2).contains(rootof(*up2->o)));
                }
            }
        }
    }
}
pub proof fn l_plug_n(c: RC, t: RT)
    ensures c is F || t is N ==> plug(c, t) is N,
    decreases c,
{
    if c is F { l_plug_n(*c->up, mk(c->F_r, c->key, c->val, c->red, c->d, t, *c->o)); }
}
