pub proof fn l_dl_total()
    ensures total(()), forall|a: Seq<u8>, b: Seq<u8>| #[trigger] cmp((), a, b) == 0 <==> a == b,
{
    assert forall|a: Seq<u8>| #[trigger] cmp((), a, a) == 0 by { l_lex_refl(a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] cmp((), a, b) == 0 <==> a == b by { l_lex_anti(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] cmp((), a, b) < 0) == (cmp((), b, a) > 0) by { l_lex_anti(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>, d: Seq<u8>| #[trigger] cmp((), a, b) <= 0 && #[trigger] cmp((), b, d) <= 0 implies cmp((), a, d) <= 0 by { if a.len() == b.len() && b.len() == d.len() { l_lex_trans(a, b, d); } }
}
// every label tree uses the one order
pub open spec fn tcmp(tm: Map<Ref, @TS@>, t: Ref) -> () { () }
// a human-readable listing, from position from on, of the given entries
pub open spec fn hlist(log: Seq<@PT@>, from: int, s: Seq<(Seq<u8>, @VT@)>) -> bool {
    &&& log.len() == from + s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> hent(#[trigger] log[from + i], s[i])
}
pub open spec fn hent(p: @PT@, e: (Seq<u8>, @VT@)) -> bool { p.Value == e.1 && (e.0.len() <= 63 ==> p.Key@ == hum(e.0)) }
pub proof fn l_hlist(c0: Seq<@PT@>, c1: Seq<@PT@>, c2: Seq<@PT@>, c3: Seq<@PT@>, a: Seq<(Seq<u8>, @VT@)>, k: Seq<u8>, v: @VT@, b: Seq<(Seq<u8>, @VT@)>)
    requires
        hlist(c1, c0.len() as int, a), c1.subrange(0, c0.len() as int) == c0,
        c2 == c1.push(c2.last()), hent(c2.last(), (k, v)),
        hlist(c3, c2.len() as int, b), c3.len() >= c2.len(), c3.subrange(0, c2.len() as int) == c2,
    ensures hlist(c3, c0.len() as int, a + seq![(k, v)] + b), c3.subrange(0, c0.len() as int) == c0,
{
    let s = a + seq![(k, v)] + b;
    let f = c0.len() as int;
    let n = a.len() as int;
    assert(c3.subrange(0, f) =~= c2.subrange(0, f));
    assert(c2.subrange(0, f) =~= c1.subrange(0, f));
    assert forall|i: int| 0 <= i < s.len() implies hent(#[trigger] c3[f + i], s[i]) by {
        if i < n { assert(c3.subrange(0, c2.len() as int)[f + i] == c3[f + i]); assert(c2[f + i] == c1[f + i]); assert(s[i] == a[i]); }
        else if i == n { assert(c3.subrange(0, c2.len() as int)[f + i] == c3[f + i]); assert(s[i] == (k, v)); }
        else { assert(s[i] == b[i - n - 1]); assert(c3[c2.len() + (i - n - 1)] == c3[f + i]); }
    }
}
pub proof fn l_hlist_at(log: Seq<@PT@>, s: Seq<(Seq<u8>, @VT@)>, i: int)
    requires hlist(log, 0, s), 0 <= i < s.len(),
    ensures hent(log[i], s[i]),
{
    assert(hent(log[0 + i], s[i]));
}
