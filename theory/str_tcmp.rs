pub proof fn l_lex_total(c: Compare)
    requires callable(c), forall|a: Seq<u8>, b: Seq<u8>| #[trigger] c.cmp(a, b) == lex(a, b),
    ensures total(c),
{
    assert forall|a: Seq<u8>| #[trigger] cmp(c, a, a) == 0 by { l_lex_refl(a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] cmp(c, a, b) < 0) == (cmp(c, b, a) > 0) by { l_lex_anti(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>, d: Seq<u8>| #[trigger] cmp(c, a, b) <= 0 && #[trigger] cmp(c, b, d) <= 0 implies cmp(c, a, d) <= 0 by { l_lex_trans(a, b, d); }
}
// The comparison a string tree carries; the nil tree acts as one made by NewTree.
pub open spec fn tcmp(tm: Map<Ref, @TS@>, t: Ref) -> Compare { if t == NIL { strings_compare() } else { tm[t].compare } }
