// IP networks as byte strings and as prefixes over 64-bit keys.

pub open spec fn be32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24u32) | ((s[1] as u32) << 16u32) | ((s[2] as u32) << 8u32) | (s[3] as u32) }
pub open spec fn be64(s: Seq<u8>) -> u64 {
    ((s[0] as u64) << 56u64) | ((s[1] as u64) << 48u64) | ((s[2] as u64) << 40u64) | ((s[3] as u64) << 32u64)
    | ((s[4] as u64) << 24u64) | ((s[5] as u64) << 16u64) | ((s[6] as u64) << 8u64) | (s[7] as u64)
}
pub open spec fn bytes4(x: u32) -> Seq<u8> { seq![((x >> 24u32) & 255u32) as u8, ((x >> 16u32) & 255u32) as u8, ((x >> 8u32) & 255u32) as u8, (x & 255u32) as u8] }
pub open spec fn bytes8(x: u64) -> Seq<u8> {
    seq![((x >> 56u64) & 255u64) as u8, ((x >> 48u64) & 255u64) as u8, ((x >> 40u64) & 255u64) as u8, ((x >> 32u64) & 255u64) as u8,
         ((x >> 24u64) & 255u64) as u8, ((x >> 16u64) & 255u64) as u8, ((x >> 8u64) & 255u64) as u8, (x & 255u64) as u8]
}

// the prefix length of a valid network of the family, else -1
pub open spec fn v4bits(ip: Seq<u8>, mask: Seq<u8>) -> int { if ip.len() == 4 && mask.len() == 4 && is_cidr(mask) { ones(mask) } else { -1 } }
pub open spec fn v6bits(ip: Seq<u8>, mask: Seq<u8>) -> int { if ip.len() == 16 && mask.len() == 16 && is_cidr(mask) { ones(mask) } else { -1 } }
pub open spec fn hi6(ip: Seq<u8>) -> u64 { be64(ip) }
pub open spec fn lo6(ip: Seq<u8>) -> u64 { be64(ip.subrange(8, 16)) }

pub proof fn l_bits(ip: Seq<u8>, mask: Seq<u8>)
    ensures
        -1 <= v4bits(ip, mask) <= 32, -1 <= v6bits(ip, mask) <= 128,
        v4bits(ip, mask) >= 0 ==> v6bits(ip, mask) < 0,
{
    if is_cidr(mask) { assert(is_ones(mask, ones(mask))); }
}

// a network as delivered: address with the host bits zero
pub open spec fn net4(key: u32, n: int) -> Seq<u8> { masked(bytes4(key), cidr(n, 4)) }
pub open spec fn net6(hi: u64, lo: u64, n: int) -> Seq<u8> { masked(bytes8(hi) + bytes8(lo), cidr(n, 16)) }

// ------------------------------------------------------------ IPv6 prefixes over two 64-bit keys

pub struct K6 { pub hi: u64, pub lo: u64, pub n: int }

pub open spec fn ms(n: int) -> int { if n < 64 { n } else { 64 } }
pub open spec fn ls(n: int) -> int { if n < 64 { 0 } else { n - 64 } }
pub open spec fn agree6(a: K6, b: K6, n: int) -> bool { agree64(a.hi, b.hi, ms(n)) && (n >= 64 ==> agree64(a.lo, b.lo, n - 64)) }
pub open spec fn same6(a: K6, b: K6) -> bool { a.n == b.n && agree6(a, b, b.n) }
pub open spec fn within6(a: K6, b: K6) -> bool { a.n >= b.n && agree6(a, b, b.n) }
pub open spec fn below6(a: K6, b: K6) -> bool {
    below64(a.hi, ms(a.n), b.hi, ms(b.n)) || (a.n >= 64 && b.n >= 64 && a.hi == b.hi && below64(a.lo, a.n - 64, b.lo, b.n - 64))
}

pub proof fn l_agree_full(a: u64, b: u64)
    requires agree64(a, b, 64),
    ensures a == b,
{
    let m = 0xffff_ffff_ffff_ffffu64;
    assert((a & m) == (b & m) ==> a == b) by (bit_vector) requires m == 0xffff_ffff_ffff_ffffu64;
}

pub open spec fn extnet(m0: Map<Ref, net_IPNet>, m1: Map<Ref, net_IPNet>) -> bool {
    forall|r: Ref| #![trigger m0.contains_key(r)] #![trigger m1[r]] m0.contains_key(r) ==> m1.contains_key(r) && m1[r] == m0[r]
}

pub proof fn l_zero8()
    ensures bytes8(0) == seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8],
{
    assert((0u64 >> 56u64) & 255u64 == 0 && (0u64 >> 48u64) & 255u64 == 0 && (0u64 >> 40u64) & 255u64 == 0 && (0u64 >> 32u64) & 255u64 == 0
        && (0u64 >> 24u64) & 255u64 == 0 && (0u64 >> 16u64) & 255u64 == 0 && (0u64 >> 8u64) & 255u64 == 0 && 0u64 & 255u64 == 0) by (bit_vector);
    assert(bytes8(0) =~= seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8]);
}

pub open spec fn k6(ip: Seq<u8>, n: int) -> K6 { K6 { hi: hi6(ip), lo: lo6(ip), n } }
pub open spec fn has4(ip: Seq<u8>) -> bool { ip.len() == 4 || v4in6(ip) }
pub open spec fn ip4of(ip: Seq<u8>) -> Seq<u8> { if ip.len() == 4 { ip } else { ip.subrange(12, 16) } }
pub open spec fn ipnet_ok(ip: Seq<u8>) -> bool { ip.len() == 4 || ip.len() == 16 }
pub open spec fn ipnet_ip(ip: Seq<u8>) -> Seq<u8> { if has4(ip) { ip4of(ip) } else { ip } }
pub open spec fn ipnet_mask(ip: Seq<u8>) -> Seq<u8> { if has4(ip) { cidr(32, 4) } else { cidr(128, 16) } }
pub type MN = Map<Ref, net_IPNet>;
