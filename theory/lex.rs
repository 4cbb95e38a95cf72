// The default order is a total order whose only equal keys are identical ones.
pub proof fn l_lex_refl(a: Seq<u8>)
    ensures lex(a, a) == 0,
    decreases a.len(),
{
    if a.len() > 0 { l_lex_refl(a.drop_first()); }
}
pub proof fn l_lex_anti(a: Seq<u8>, b: Seq<u8>)
    ensures (lex(a, b) < 0) == (lex(b, a) > 0), lex(a, b) == 0 <==> a == b, -1 <= lex(a, b) <= 1,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        l_lex_anti(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() && a[0] == b[0] {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
    }
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    if a == b { l_lex_refl(a); }
}
pub proof fn l_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) <= 0, lex(b, c) <= 0,
    ensures lex(a, c) <= 0,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { l_lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
