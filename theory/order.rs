// Total (weak) orders given by a three-way comparison.
pub open spec fn total(c: @CT@) -> bool {
    &&& callable(c)
    &&& forall|a: Seq<u8>| #[trigger] cmp(c, a, a) == 0
    &&& forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] cmp(c, a, b) < 0) == (cmp(c, b, a) > 0)
    &&& forall|a: Seq<u8>, b: Seq<u8>, d: Seq<u8>| #[trigger] cmp(c, a, b) <= 0 && #[trigger] cmp(c, b, d) <= 0 ==> cmp(c, a, d) <= 0
}

pub proof fn l_trans(c: @CT@, a: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    requires total(c), cmp(c, a, b) <= 0, cmp(c, b, d) <= 0,
    ensures cmp(c, a, d) <= 0, cmp(c, a, b) < 0 || cmp(c, b, d) < 0 ==> cmp(c, a, d) < 0,
{
    if cmp(c, a, d) == 0 {
        assert(!(cmp(c, a, d) < 0) && !(cmp(c, d, a) > 0));
        assert(cmp(c, d, a) <= 0);
        if cmp(c, a, b) < 0 {
            assert(cmp(c, b, d) <= 0 && cmp(c, d, a) <= 0);
            assert(cmp(c, b, a) <= 0);
        }
        if cmp(c, b, d) < 0 {
            assert(cmp(c, d, a) <= 0 && cmp(c, a, b) <= 0);
            assert(cmp(c, d, b) <= 0);
        }
    }
}
