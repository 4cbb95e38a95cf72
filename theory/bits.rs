// Bit prefixes of @W@-bit keys. agree(a,b,n): a and b have the same n most significant bits.
pub open spec fn mask@X@(b: int) -> @K@ { if b <= 0 { 0@K@ } else if b >= @W@ { 0@ONES@@K@ } else { (0@ONES@@K@ << ((@W@ - b) as @K@)) as @K@ } }
pub open spec fn bitat@X@(k: @K@, i: int) -> int { ((k >> ((@W@ - 1 - i) as @K@)) & 1@K@) as int }
pub open spec fn agree@X@(a: @K@, b: @K@, n: int) -> bool { (a & mask@X@(n)) == (b & mask@X@(n)) }

pub broadcast proof fn l_bit@X@(k: @K@, i: int)
    ensures #[trigger] bitat@X@(k, i) == 0 || bitat@X@(k, i) == 1,
{
    let s = (@W@ - 1 - i) as @K@;
    assert(((k >> s) & 1) == 0 || ((k >> s) & 1) == 1) by (bit_vector);
}

pub proof fn l_agree_refl@X@(a: @K@, n: int)
    ensures agree@X@(a, a, n),
{}

pub broadcast proof fn l_agree0@X@(a: @K@, b: @K@)
    ensures #[trigger] agree@X@(a, b, 0),
{
    assert((a & 0) == 0 && (b & 0) == 0) by (bit_vector);
}

pub proof fn l_agree_le@X@(a: @K@, b: @K@, n: int, k: int)
    requires 0 <= k <= n <= @W@, agree@X@(a, b, n),
    ensures agree@X@(a, b, k),
{
    if k == 0 {
        l_agree0@X@(a, b);
    } else if n == @W@ {
        let m = 0@ONES@@K@;
        assert((a & m) == (b & m) ==> a == b) by (bit_vector) requires m == 0@ONES@@K@;
    } else {
        let sn = (@W@ - n) as @K@; let sk = (@W@ - k) as @K@;
        assert((a & (0@ONES@@K@ << sn)) == (b & (0@ONES@@K@ << sn)) ==> (a & (0@ONES@@K@ << sk)) == (b & (0@ONES@@K@ << sk))) by (bit_vector) requires sn <= sk, sk < @W@;
    }
}

pub proof fn l_agree_step@X@(a: @K@, b: @K@, n: int)
    requires 0 <= n < @W@,
    ensures agree@X@(a, b, n + 1) <==> (agree@X@(a, b, n) && bitat@X@(a, n) == bitat@X@(b, n)),
{
    let s1 = (@W@ - n - 1) as @K@;
    if n == 0 {
        l_agree0@X@(a, b);
        assert((a & (0@ONES@@K@ << s1)) == (b & (0@ONES@@K@ << s1)) <==> ((a >> s1) & 1) == ((b >> s1) & 1)) by (bit_vector) requires s1 == @W@ - 1;
    } else if n == @W@ - 1 {
        let s = 1@K@;
        let m = 0@ONES@@K@;
        assert((a & m) == (b & m) <==> ((a & (m << 1@K@)) == (b & (m << 1@K@)) && ((a >> 0@K@) & 1) == ((b >> 0@K@) & 1))) by (bit_vector) requires m == 0@ONES@@K@;
    } else {
        let s = (@W@ - n) as @K@;
        assert((a & (0@ONES@@K@ << s1)) == (b & (0@ONES@@K@ << s1)) <==> ((a & (0@ONES@@K@ << s)) == (b & (0@ONES@@K@ << s)) && ((a >> s1) & 1) == ((b >> s1) & 1))) by (bit_vector) requires s1 + 1 == s, s < @W@;
    }
}

// bits inside an agreed prefix are equal
pub proof fn l_agree_bit@X@(a: @K@, b: @K@, n: int, i: int)
    requires 0 <= i < n <= @W@, agree@X@(a, b, n),
    ensures bitat@X@(a, i) == bitat@X@(b, i),
{
    l_agree_le@X@(a, b, n, i + 1);
    l_agree_step@X@(a, b, i);
}

pub proof fn l_mask_agree@X@(a: @K@, n: int, k: int)
    requires 0 <= k <= n <= @W@,
    ensures agree@X@(a & mask@X@(n), a, k),
{
    let m = mask@X@(n);
    assert((a & m) & m == a & m) by (bit_vector);
    l_agree_le@X@(a & m, a, n, k);
}

pub broadcast proof fn l_masked@X@(a: @K@, n: int)
    requires 0 <= n <= @W@,
    ensures agree@X@(#[trigger] (a & mask@X@(n)), a, n),
{
    l_mask_agree@X@(a, n, n);
}

// (a ^ b) & mask == 0 tests agreement
pub broadcast proof fn l_xor@X@(a: @K@, b: @K@, m: @K@)
    ensures (#[trigger] ((a ^ b) & m)) == 0@K@ <==> (a & m) == (b & m),
{
    assert(((a ^ b) & m) == 0 <==> (a & m) == (b & m)) by (bit_vector);
}

// the bit selected by the code
pub broadcast proof fn l_bitsel@X@(k: @K@, s: @K@)
    requires s <= @W@ - 1,
    ensures (#[trigger] ((k >> s) & 1@K@)) as int == bitat@X@(k, @W@ - 1 - s),
{
}

pub open spec fn cbits@X@(a: @K@, b: @K@, i: int, j: int) -> @K@ { (a ^ b) | !mask@X@(i) | !mask@X@(j) }

// leading zeros of the difference, with ones beyond both prefixes: the common prefix
pub proof fn l_common@X@(a: @K@, b: @K@, i: int, j: int, z: int)
    requires 0 <= i <= @W@, 0 <= j <= @W@, is_lz@W@(cbits@X@(a, b, i, j), z),
    ensures z <= i, z <= j, agree@X@(a, b, z), z < i && z < j ==> bitat@X@(a, z) != bitat@X@(b, z),
{
    let x = cbits@X@(a, b, i, j);
    let mi = mask@X@(i); let mj = mask@X@(j);
    // z <= i
    assert(x == ((a ^ b) | !mj) | !mi) by (bit_vector) requires x == (a ^ b) | !mi | !mj;
    l_lz_mask@X@((a ^ b) | !mj, i, z);
    l_lz_mask@X@((a ^ b) | !mi, j, z);
    // agreement up to z
    if z == 0 {
        l_agree0@X@(a, b);
    } else if z == @W@ {
        let m = 0@ONES@@K@;
        assert(x == 0 ==> a == b) by (bit_vector) requires x == (a ^ b) | !mi | !mj;
    } else {
        let s = (@W@ - z) as @K@;
        assert((x >> s) == 0 ==> (a & (0@ONES@@K@ << s)) == (b & (0@ONES@@K@ << s))) by (bit_vector) requires x == (a ^ b) | !mi | !mj, s < @W@;
    }
    if z < i && z < j {
        let s = (@W@ - 1 - z) as @K@;
        l_mask_bit@X@(i, z);
        l_mask_bit@X@(j, z);
        assert(((x >> s) & 1) == 1 && ((mi >> s) & 1) == 1 && ((mj >> s) & 1) == 1 ==> ((a >> s) & 1) != ((b >> s) & 1)) by (bit_vector) requires x == (a ^ b) | !mi | !mj, s < @W@;
    }
}

pub proof fn l_mask_bit@X@(i: int, z: int)
    requires 0 <= z < i <= @W@,
    ensures (mask@X@(i) >> ((@W@ - 1 - z) as @K@)) & 1 == 1,
{
    let s = (@W@ - 1 - z) as @K@;
    if i == @W@ {
        assert((0@ONES@@K@ >> s) & 1 == 1) by (bit_vector) requires s < @W@;
    } else {
        let t = (@W@ - i) as @K@;
        assert(((0@ONES@@K@ << t) >> s) & 1 == 1) by (bit_vector) requires t <= s, s < @W@;
    }
}

pub proof fn l_lz_mask@X@(y: @K@, i: int, z: int)
    requires 0 <= i <= @W@, is_lz@W@(y | !mask@X@(i), z),
    ensures z <= i,
{
    if z > i {
        let x = y | !mask@X@(i);
        let m = mask@X@(i);
        if i == 0 {
            assert(x == 0@ONES@@K@) by (bit_vector) requires x == y | !m, m == 0;
            if z < @W@ {
                let s = (@W@ - z) as @K@;
                assert((x >> s) != 0) by (bit_vector) requires x == 0@ONES@@K@, s < @W@;
            }
        } else {
            let t = (@W@ - i) as @K@;
            assert(x != 0) by (bit_vector) requires x == y | !m, m == (0@ONES@@K@ << t), 0 < t, t < @W@;
            if z < @W@ {
                let s = (@W@ - z) as @K@;
                assert((x >> s) != 0) by (bit_vector) requires x == y | !m, m == (0@ONES@@K@ << t), s < t, t < @W@;
            }
        }
    }
}

// order of masked keys
pub open spec fn below@X@(k1: @K@, b1: int, k2: @K@, b2: int) -> bool {
    (k1 & mask@X@(b1)) < (k2 & mask@X@(b2)) || ((k1 & mask@X@(b1)) == (k2 & mask@X@(b2)) && b1 < b2)
}

// a proper prefix sorts before what it contains
pub proof fn l_below_prefix@X@(k1: @K@, b1: int, k2: @K@, b2: int)
    requires 0 <= b1 < b2 <= @W@, agree@X@(k1, k2, b1),
    ensures below@X@(k1, b1, k2, b2),
{
    let m1 = mask@X@(b1); let m2 = mask@X@(b2);
    l_mask_sub@X@(b1, b2);
    assert((k1 & m1) <= (k2 & m2)) by (bit_vector) requires (k1 & m1) == (k2 & m1), (m1 & m2) == m1;
}

pub proof fn l_mask_sub@X@(b1: int, b2: int)
    requires 0 <= b1 <= b2 <= @W@,
    ensures (mask@X@(b1) & mask@X@(b2)) == mask@X@(b1),
{
    let m1 = mask@X@(b1); let m2 = mask@X@(b2);
    if b1 == 0 {
        assert(0 & m2 == 0) by (bit_vector);
    } else if b2 == @W@ {
        assert(m1 & m2 == m1) by (bit_vector) requires m2 == 0@ONES@@K@;
    } else {
        let s1 = (@W@ - b1) as @K@; let s2 = (@W@ - b2) as @K@;
        assert(((0@ONES@@K@ << s1) & (0@ONES@@K@ << s2)) == (0@ONES@@K@ << s1)) by (bit_vector) requires s2 <= s1, s1 < @W@;
    }
}

// keys that differ first at bit z sort by that bit
pub proof fn l_below_bit@X@(k1: @K@, b1: int, k2: @K@, b2: int, z: int)
    requires 0 <= z < b1 <= @W@, z < b2 <= @W@, agree@X@(k1, k2, z), bitat@X@(k1, z) == 0, bitat@X@(k2, z) == 1,
    ensures below@X@(k1, b1, k2, b2),
{
    let s = (@W@ - 1 - z) as @K@;
    let m1 = mask@X@(b1); let m2 = mask@X@(b2); let mz = mask@X@(z);
    l_mask_bit@X@(b1, z);
    l_mask_bit@X@(b2, z);
    l_mask_sub@X@(z, b1);
    l_mask_sub@X@(z, b2);
    if z == 0 {
        assert((k1 & m1) < (k2 & m2)) by (bit_vector)
            requires s == @W@ - 1, ((k1 >> s) & 1) == 0, ((k2 >> s) & 1) == 1, ((m2 >> s) & 1) == 1;
    } else {
        let t = (@W@ - z) as @K@;
        assert((k1 & m1) < (k2 & m2)) by (bit_vector)
            requires t == s + 1, t < @W@, (k1 & (0@ONES@@K@ << t)) == (k2 & (0@ONES@@K@ << t)), ((0@ONES@@K@ << t) & m1) == (0@ONES@@K@ << t), ((0@ONES@@K@ << t) & m2) == (0@ONES@@K@ << t),
                ((k1 >> s) & 1) == 0, ((k2 >> s) & 1) == 1, ((m2 >> s) & 1) == 1;
    }
}
