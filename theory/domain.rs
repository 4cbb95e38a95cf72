// Text form of labels and names. A token is one decoded byte, a dot, the end, or a bad escape.
pub enum Tok { End, Dot, Byte(u8, int), Bad }
pub open spec fn dig(c: u8) -> bool { 48 <= c && c <= 57 }
pub open spec fn up(c: u8) -> u8 { if 97 <= c && c <= 122 { (c - 32) as u8 } else { c } }
pub open spec fn tok(s: Seq<u8>, i: int) -> Tok {
    if i >= s.len() { Tok::End }
    else if s[i] == 46 { Tok::Dot }
    else if s[i] != 92 { Tok::Byte(s[i], 1) }
    else if i + 1 >= s.len() { Tok::Bad }
    else if !dig(s[i + 1]) { Tok::Byte(s[i + 1], 2) }
    else if i + 3 >= s.len() || !dig(s[i + 2]) || !dig(s[i + 3]) { Tok::Bad }
    else {
        let v = (s[i + 1] - 48) * 100 + (s[i + 2] - 48) * 10 + (s[i + 3] - 48);
        if v > 255 { Tok::Bad } else { Tok::Byte(v as u8, 4) }
    }
}
// the labels of s from position i on, cur being what the current label has so far
pub open spec fn labs(s: Seq<u8>, i: int, cur: Seq<u8>) -> Option<Seq<Seq<u8>>>
    decreases s.len() - i,
{
    match tok(s, i) {
        Tok::End => Some(if cur.len() == 0 { Seq::empty() } else { seq![cur] }),
        Tok::Bad => None,
        Tok::Dot => if cur.len() == 0 { None } else {
            match labs(s, i + 1, Seq::empty()) { Some(l) => Some(seq![cur] + l), None => None }
        },
        Tok::Byte(b, k) => if k >= 1 { labs(s, i + k, cur.push(up(b))) } else { None },
    }
}
// wire form: last label first, each label after its length
pub open spec fn enc(ls: Seq<Seq<u8>>) -> Seq<u8>
    decreases ls.len(),
{
    if ls.len() == 0 { Seq::empty() } else { seq![ls.last().len() as u8] + ls.last() + enc(ls.drop_last()) }
}
pub open spec fn labels_ok(ls: Seq<Seq<u8>>) -> bool {
    &&& ls.len() <= 127
    &&& forall|k: int| 0 <= k < ls.len() ==> 1 <= (#[trigger] ls[k]).len() <= 63
    &&& enc(ls).len() <= 255
}
pub open spec fn name_labels(s: Seq<u8>) -> Option<Seq<Seq<u8>>> { if s == seq![46u8] { Some(Seq::empty()) } else { labs(s, 0, Seq::empty()) } }
pub open spec fn name_valid(s: Seq<u8>) -> bool { name_labels(s) is Some && labels_ok(name_labels(s)->0) }
// what a Name value may hold
pub open spec fn nameok(c: Seq<u8>) -> bool { exists|ls: Seq<Seq<u8>>| #[trigger] labels_ok(ls) && enc(ls) == c }

// label starts
pub open spec fn starts(s: Seq<u8>, i: int, start: int) -> Option<Seq<int>>
    decreases s.len() - i,
{
    match tok(s, i) {
        Tok::End => Some(if start < s.len() { seq![start] } else { Seq::empty() }),
        Tok::Bad => None,
        Tok::Dot => if start >= i { None } else {
            match starts(s, i + 1, i + 1) { Some(l) => Some(seq![start] + l), None => None }
        },
        Tok::Byte(b, k) => if k >= 1 { starts(s, i + k, start) } else { None },
    }
}
// one label: an ending dot is ignored, another one must not occur before an error
pub open spec fn lab1(s: Seq<u8>, i: int) -> Option<Seq<u8>>
    decreases s.len() - i,
{
    match tok(s, i) {
        Tok::End => Some(Seq::empty()),
        Tok::Dot => Some(Seq::empty()),
        Tok::Bad => None,
        Tok::Byte(b, k) => if k < 1 { None } else { match lab1(s, i + k) { Some(l) => Some(seq![up(b)] + l), None => None } },
    }
}
pub open spec fn nodot(s: Seq<u8>, i: int) -> bool
    decreases s.len() - i,
{
    match tok(s, i) {
        Tok::Dot => i == s.len() - 1,
        Tok::Byte(b, k) => k >= 1 && nodot(s, i + k),
        _ => true,
    }
}
pub open spec fn label_valid(s: Seq<u8>) -> bool { lab1(s, 0) is Some && (lab1(s, 0)->0).len() <= 63 }

pub proof fn l_tok(s: Seq<u8>, i: int)
    requires 0 <= i,
    ensures
        i < s.len() && s[i] != 46 && s[i] != 92 ==> tok(s, i) == Tok::Byte(s[i], 1),
        tok(s, i) is Byte ==> tok(s, i)->Byte_1 >= 1 && i + tok(s, i)->Byte_1 <= s.len(),
{
}

// s[a..e) is a run of byte tokens that decodes to cur
pub open spec fn run(s: Seq<u8>, a: int, e: int, cur: Seq<u8>) -> bool
    decreases e - a,
{
    if a >= e { a == e && cur.len() == 0 } else {
        tok(s, a) is Byte && tok(s, a)->Byte_1 >= 1 && a + tok(s, a)->Byte_1 <= e && cur.len() > 0 && cur[0] == up(tok(s, a)->Byte_0)
            && run(s, a + tok(s, a)->Byte_1, e, cur.drop_first())
    }
}
pub proof fn l_run_push(s: Seq<u8>, a: int, e: int, cur: Seq<u8>)
    requires 0 <= a <= e, run(s, a, e, cur), tok(s, e) is Byte,
    ensures run(s, a, e + tok(s, e)->Byte_1, cur.push(up(tok(s, e)->Byte_0))), tok(s, e)->Byte_1 >= 1, e + tok(s, e)->Byte_1 <= s.len(),
    decreases e - a,
{
    let c2 = cur.push(up(tok(s, e)->Byte_0));
    let k = tok(s, e)->Byte_1;
    if a == e {
        assert(c2.drop_first() =~= Seq::<u8>::empty());
        assert(run(s, e + k, e + k, Seq::<u8>::empty()));
    } else {
        let k0 = tok(s, a)->Byte_1;
        l_run_push(s, a + k0, e, cur.drop_first());
        assert(c2.drop_first() =~= cur.drop_first().push(up(tok(s, e)->Byte_0)));
    }
}
pub proof fn l_run_len(s: Seq<u8>, a: int, e: int, cur: Seq<u8>)
    requires run(s, a, e, cur),
    ensures a <= e, cur.len() == 0 <==> a == e,
{
}
// decoding a piece of the text alone
pub proof fn l_run_sub(s: Seq<u8>, p: int, a: int, e: int, f: int, cur: Seq<u8>)
    requires 0 <= p <= a <= e <= f <= s.len(), run(s, a, e, cur), f == e || (f == e + 1 && s[e] == 46),
    ensures nodot(s.subrange(p, f), a - p), lab1(s.subrange(p, f), a - p) == Some(cur),
    decreases e - a,
{
    let u = s.subrange(p, f);
    if a == e {
        assert(cur =~= Seq::<u8>::empty());
        if f == e { assert(tok(u, a - p) is End); } else { assert(u[a - p] == 46); assert(tok(u, a - p) is Dot); }
    } else {
        let k = tok(s, a)->Byte_1;
        l_run_sub(s, p, a + k, e, f, cur.drop_first());
        assert(u[a - p] == s[a]);
        if k > 1 { assert(u[a - p + 1] == s[a + 1]); }
        if k > 2 { assert(u[a - p + 2] == s[a + 2]); assert(u[a - p + 3] == s[a + 3]); }
        assert(tok(u, a - p) == tok(s, a));
        assert(seq![cur[0]] + cur.drop_first() =~= cur);
    }
}
// label k of the text lies between the starts k and k+1
pub open spec fn seg_end(s: Seq<u8>, l: Seq<int>, k: int) -> int { if k + 1 < l.len() { l[k + 1] } else { s.len() as int } }
#[verifier::opaque]
pub open spec fn segs_ok(s: Seq<u8>, l: Seq<int>, ls: Seq<Seq<u8>>) -> bool {
    &&& l.len() == ls.len()
    &&& forall|k: int| 0 <= k < l.len() ==> 0 <= #[trigger] l[k] <= seg_end(s, l, k) && seg_end(s, l, k) <= s.len()
        && nodot(s.subrange(l[k], seg_end(s, l, k)), 0) && lab1(s.subrange(l[k], seg_end(s, l, k)), 0) == Some(ls[k]) && ls[k].len() > 0
}
pub proof fn l_seg(s: Seq<u8>, l: Seq<int>, ls: Seq<Seq<u8>>, k: int)
    requires segs_ok(s, l, ls),
    ensures l.len() == ls.len(),
        0 <= k < l.len() ==> 0 <= l[k] <= seg_end(s, l, k) && seg_end(s, l, k) <= s.len()
            && nodot(s.subrange(l[k], seg_end(s, l, k)), 0) && lab1(s.subrange(l[k], seg_end(s, l, k)), 0) == Some(ls[k]) && ls[k].len() > 0,
{
    reveal(segs_ok);
}
pub proof fn l_ints(o: Seq<i64>, n: int, k: int)
    requires 0 <= k < n,
    ensures ints(o, n)[k] == o[k],
{
}
// every label fits and the whole fits
pub proof fn l_labels_ok(s: Seq<u8>, l: Seq<int>, ls: Seq<Seq<u8>>)
    requires segs_ok(s, l, ls), ls.len() <= 127, forall|k: int| 0 <= k < ls.len() ==> (#[trigger] ls[k]).len() <= 63, enc(ls).len() <= 255,
    ensures labels_ok(ls), nameok(enc(ls)),
{
    assert forall|k: int| 0 <= k < ls.len() implies 1 <= (#[trigger] ls[k]).len() <= 63 by { l_seg(s, l, ls, k); }
    assert(labels_ok(ls));
}
pub proof fn l_starts(s: Seq<u8>, start: int, i: int, cur: Seq<u8>)
    requires 0 <= start <= i <= s.len(), run(s, start, i, cur),
    ensures
        starts(s, i, start) is Some <==> labs(s, i, cur) is Some,
        starts(s, i, start) is Some ==> segs_ok(s, starts(s, i, start)->0, labs(s, i, cur)->0),
        starts(s, i, start) is Some && (starts(s, i, start)->0).len() > 0 ==> (starts(s, i, start)->0)[0] == start,
        starts(s, i, start) is Some && (starts(s, i, start)->0).len() == 0 ==> start == s.len(),
    decreases s.len() - i,
{
    reveal(segs_ok);
    l_run_len(s, start, i, cur);
    match tok(s, i) {
        Tok::End => {
            if start < i { l_run_sub(s, start, start, i, i, cur); }
        },
        Tok::Bad => {},
        Tok::Dot => {
            if start < i {
                l_starts(s, i + 1, i + 1, Seq::empty());
                if starts(s, i, start) is Some {
                    let l1 = starts(s, i + 1, i + 1)->0;
                    let ls1 = labs(s, i + 1, Seq::empty())->0;
                    let l = starts(s, i, start)->0;
                    let ls = labs(s, i, cur)->0;
                    assert(l == seq![start] + l1);
                    assert(ls == seq![cur] + ls1);
                    l_run_sub(s, start, start, i, i + 1, cur);
                    assert(seg_end(s, l, 0) == i + 1);
                    assert forall|k: int| 0 <= k < l.len() implies 0 <= #[trigger] l[k] <= seg_end(s, l, k) && seg_end(s, l, k) <= s.len()
                        && nodot(s.subrange(l[k], seg_end(s, l, k)), 0) && lab1(s.subrange(l[k], seg_end(s, l, k)), 0) == Some(ls[k]) && ls[k].len() > 0 by {
                        if k > 0 { assert(l[k] == l1[k - 1] && ls[k] == ls1[k - 1]); assert(seg_end(s, l, k) == seg_end(s, l1, k - 1)); }
                    }
                }
            }
        },
        Tok::Byte(b, k) => {
            l_run_push(s, start, i, cur);
            l_starts(s, start, i + k, cur.push(up(b)));
        },
    }
}
// prefix + rest, where the rest may be an error
pub open spec fn pre(a: Seq<int>, o: Option<Seq<int>>) -> Option<Seq<int>> { match o { Some(l) => Some(a + l), None => None } }
pub open spec fn ints(o: Seq<i64>, n: int) -> Seq<int> { Seq::new(n as nat, |k: int| o[k] as int) }
pub proof fn l_pre(a: Seq<int>, x: int, o: Option<Seq<int>>)
    ensures pre(a.push(x), o) == pre(a, pre(seq![x], o)), pre(a, Some(Seq::<int>::empty())) == Some(a), pre(Seq::<int>::empty(), o) == o, pre(a, Some(seq![x])) == Some(a.push(x)),
{
    assert(a + Seq::<int>::empty() =~= a);
    assert(a + seq![x] =~= a.push(x));
    if o is Some { assert(a.push(x) + o->0 =~= a + (seq![x] + o->0)); assert(Seq::<int>::empty() + o->0 =~= o->0); }
}
pub open spec fn preb(a: Seq<u8>, o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(l) => Some(a + l), None => None } }
pub proof fn l_preb(a: Seq<u8>, x: u8, o: Option<Seq<u8>>)
    ensures preb(a.push(x), o) == preb(a, preb(seq![x], o)), preb(a, Some(Seq::<u8>::empty())) == Some(a), preb(Seq::<u8>::empty(), o) == o,
{
    assert(a + Seq::<u8>::empty() =~= a);
    if o is Some { assert(a.push(x) + o->0 =~= a + (seq![x] + o->0)); assert(Seq::<u8>::empty() + o->0 =~= o->0); }
}
// where a scan in escape state esc stands: ts is the start of the current token
pub open spec fn scan(s: Seq<u8>, ts: int, i: int, esc: int, code: int) -> bool {
    &&& 0 <= ts && i == ts + esc && 0 <= esc <= 3 && i <= s.len()
    &&& esc >= 1 ==> s[ts] == 92
    &&& esc >= 2 ==> dig(s[ts + 1]) && s[ts + 1] <= 50
    &&& esc == 2 ==> code == (s[ts + 1] - 48) * 100
    &&& esc == 3 ==> dig(s[ts + 2]) && code == (s[ts + 1] - 48) * 100 + (s[ts + 2] - 48) * 10 && code <= 255
}
pub proof fn l_up(c: u8)
    ensures 97 <= c && c <= 122 ==> (c & 223u8) == c - 32, 65 <= c && c <= 90 ==> (c | 32u8) == c + 32,
{
    assert(97 <= c && c <= 122 ==> (c & 223u8) == c - 32) by (bit_vector);
    assert(65 <= c && c <= 90 ==> (c | 32u8) == c + 32) by (bit_vector);
}

// ---- escaping
pub open spec fn esc1(c: u8) -> Seq<u8> {
    if c == 46 || c == 92 { seq![92u8, c] }
    else if c < 33 || c > 126 { seq![92u8, (48 + c / 100) as u8, (48 + c / 10 % 10) as u8, (48 + c % 10) as u8] }
    else if 65 <= c && c <= 90 { seq![(c + 32) as u8] }
    else { seq![c] }
}
pub open spec fn hum(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { hum(s.drop_last()) + esc1(s.last()) }
}
pub proof fn l_hum_len(s: Seq<u8>)
    ensures s.len() <= hum(s).len() <= 4 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 { l_hum_len(s.drop_last()); }
}
pub proof fn l_esc_tok(s: Seq<u8>, i: int, c: u8)
    requires 0 <= i, i + esc1(c).len() <= s.len(), s.subrange(i, i + esc1(c).len()) == esc1(c),
    ensures tok(s, i) == Tok::Byte(esc_byte(c), esc1(c).len() as int), up(esc_byte(c)) == up(c),
{
    let e = esc1(c);
    assert forall|k: int| 0 <= k < e.len() implies s[i + k] == #[trigger] e[k] by { assert(s.subrange(i, i + e.len())[k] == s[i + k]); }
    assert(s[i + 0] == e[0]);
    if e.len() > 1 { assert(s[i + 1] == e[1]); }
    if e.len() > 2 { assert(s[i + 2] == e[2]); assert(s[i + 3] == e[3]); }
    assert(c == c / 100 * 100 + c / 10 % 10 * 10 + c % 10);
}
// the byte an escape decodes to, before upper-casing
pub open spec fn esc_byte(c: u8) -> u8 { if 65 <= c && c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn upper(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| up(s[i])) }
pub proof fn l_hum_run(s: Seq<u8>, t: Seq<u8>)
    requires t.len() >= hum(s).len(), t.subrange(0, hum(s).len() as int) == hum(s),
    ensures run(t, 0, hum(s).len() as int, upper(s)),
    decreases s.len(),
{
    let n = hum(s).len() as int;
    if s.len() == 0 {
        assert(upper(s) =~= Seq::<u8>::empty());
    } else {
        let s1 = s.drop_last();
        let h1 = hum(s1);
        let e = esc1(s.last());
        let m = h1.len() as int;
        assert(t.subrange(0, m) =~= t.subrange(0, n).subrange(0, m));
        assert(hum(s).subrange(0, m) =~= h1);
        l_hum_run(s1, t);
        assert(t.subrange(m, n) =~= t.subrange(0, n).subrange(m, n));
        assert(hum(s).subrange(m, n) =~= e);
        l_esc_tok(t, m, s.last());
        l_run_push(t, 0, m, upper(s1));
        assert(upper(s) =~= upper(s1).push(up(s.last())));
    }
}
// C15: formatting and parsing gives the label back
pub proof fn l_round_trip(s: Seq<u8>)
    requires s.len() <= 63, forall|i: int| 0 <= i < s.len() ==> !(97 <= #[trigger] s[i] && s[i] <= 122),
    ensures nodot(hum(s), 0), label_valid(hum(s)), lab1(hum(s), 0) == Some(s),
{
    let t = hum(s);
    assert(t.subrange(0, t.len() as int) =~= t);
    l_hum_run(s, t);
    l_run_sub(t, 0, 0, t.len() as int, t.len() as int, upper(s));
    assert(upper(s) =~= s);
}

// ---- wire form
pub proof fn l_enc_nil()
    ensures enc(Seq::<Seq<u8>>::empty()) == Seq::<u8>::empty(), labels_ok(Seq::<Seq<u8>>::empty()), nameok(Seq::<u8>::empty()),
{
    assert(labels_ok(Seq::<Seq<u8>>::empty()));
}
pub proof fn l_enc_front(a: Seq<u8>, l: Seq<Seq<u8>>)
    ensures enc(seq![a] + l) == enc(l) + (seq![a.len() as u8] + a),
    decreases l.len(),
{
    let x = seq![a] + l;
    if l.len() == 0 {
        assert(x.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(enc(x.drop_last()) =~= Seq::<u8>::empty());
        assert(x.last() == a);
        assert(enc(x) =~= enc(l) + (seq![a.len() as u8] + a));
    } else {
        assert(x.last() == l.last());
        assert(x.drop_last() =~= seq![a] + l.drop_last());
        l_enc_front(a, l.drop_last());
        assert(enc(x) =~= enc(l) + (seq![a.len() as u8] + a));
    }
}
pub proof fn l_enc_skip(ls: Seq<Seq<u8>>, k: int)
    requires 0 <= k < ls.len(),
    ensures enc(ls.skip(k)) == enc(ls.skip(k + 1)) + (seq![ls[k].len() as u8] + ls[k]),
{
    assert(ls.skip(k) =~= seq![ls[k]] + ls.skip(k + 1));
    l_enc_front(ls[k], ls.skip(k + 1));
}
pub proof fn l_enc_skip_le(ls: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= ls.len(),
    ensures enc(ls.skip(k)).len() <= enc(ls).len(),
    decreases k,
{
    assert(ls.skip(0) =~= ls);
    if k > 0 { l_enc_skip(ls, k - 1); l_enc_skip_le(ls, k - 1); }
}
// off is where the first m labels of ls start in the wire form c
pub open spec fn at_off(c: Seq<u8>, ls: Seq<Seq<u8>>, m: int, off: int) -> bool {
    labels_ok(ls) && enc(ls) == c && 0 <= m <= ls.len() && (m == 0 ==> ls.len() == 0) && off == c.len() - enc(ls.take(m)).len()
}
pub open spec fn next_off(ls: Seq<Seq<u8>>, m: int, off: int) -> int { if m <= 1 { 0 } else { off + 1 + ls[m - 1].len() } }
pub open spec fn cur_label(ls: Seq<Seq<u8>>, m: int) -> Seq<u8> { if m == 0 { Seq::empty() } else { ls[m - 1] } }
pub proof fn l_enc_take(ls: Seq<Seq<u8>>, m: int)
    requires 0 <= m <= ls.len(),
    ensures enc(ls.take(m)).len() <= enc(ls).len(), enc(ls).subrange(enc(ls).len() - enc(ls.take(m)).len(), enc(ls).len() as int) == enc(ls.take(m)),
    decreases ls.len() - m,
{
    let c = enc(ls);
    if m == ls.len() {
        assert(ls.take(m) =~= ls);
        assert(c.subrange(0, c.len() as int) =~= c);
    } else {
        l_enc_take(ls, m + 1);
        let t = ls.take(m + 1);
        assert(t.drop_last() =~= ls.take(m));
        let e1 = enc(t);
        let e0 = enc(ls.take(m));
        assert(e1 == seq![t.last().len() as u8] + t.last() + e0);
        let a = c.len() - e1.len();
        let b = c.len() - e0.len();
        assert(c.subrange(b, c.len() as int) =~= c.subrange(a, c.len() as int).subrange(b - a, e1.len() as int));
        assert(e1.subrange(b - a, e1.len() as int) =~= e0);
    }
}
pub proof fn l_at_off(c: Seq<u8>, ls: Seq<Seq<u8>>, m: int, off: int)
    requires at_off(c, ls, m, off),
    ensures
        m == 0 ==> c.len() == 0 && off == 0,
        m > 0 ==> 0 <= off < c.len() && c[off] == ls[m - 1].len() && 1 <= ls[m - 1].len() <= 63 && off + 1 + ls[m - 1].len() <= c.len()
            && c.subrange(off + 1, off + 1 + ls[m - 1].len()) == ls[m - 1]
            && off + 1 + ls[m - 1].len() == c.len() - enc(ls.take(m - 1)).len(),
        m > 1 ==> at_off(c, ls, m - 1, off + 1 + ls[m - 1].len()) && off + 1 + ls[m - 1].len() < c.len(),
        m == 1 ==> off + 1 + ls[m - 1].len() == c.len(),
{
    l_enc_take(ls, m);
    if m == 0 {
        assert(ls.take(0) =~= Seq::<Seq<u8>>::empty());
    } else {
        let t = ls.take(m);
        let e = enc(t);
        let l = ls[m - 1];
        assert(1 <= l.len() <= 63);
        assert(t.last() == l);
        assert(t.drop_last() =~= ls.take(m - 1));
        assert(e == seq![l.len() as u8] + l + enc(ls.take(m - 1)));
        assert(c.subrange(off, c.len() as int)[0] == c[off]);
        assert(c.subrange(off + 1, off + 1 + l.len()) =~= c.subrange(off, c.len() as int).subrange(1, 1 + l.len() as int));
        assert(e.subrange(1, 1 + l.len() as int) =~= l);
        if m > 1 {
            let t1 = ls.take(m - 1);
            assert(enc(t1) == seq![t1.last().len() as u8] + t1.last() + enc(t1.drop_last()));
            assert(enc(t1).len() > 0);
        } else {
            assert(ls.take(0) =~= Seq::<Seq<u8>>::empty());
            assert(enc(ls.take(0)).len() == 0);
        }
    }
}

// the labels of a name, last one first, as calls of a callback
pub open spec fn visited(ls: Seq<Seq<u8>>, from: int, log: Seq<(Seq<u8>, Err)>) -> bool {
    &&& log.len() - from <= ls.len()
    &&& forall|i: int| from <= i < log.len() ==> (#[trigger] log[i]).0 == ls[ls.len() - 1 - (i - from)]
}
pub open spec fn all_nil(log: Seq<(Seq<u8>, Err)>, from: int, to: int) -> bool { forall|i: int| from <= i < to ==> (#[trigger] log[i]).1 == ERR_NIL }
// the wire form determines the labels
pub proof fn l_enc_inj(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires enc(a) == enc(b), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).len() <= 255, forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).len() <= 255,
    ensures a == b,
    decreases a.len(),
{
    let c = enc(a);
    if a.len() == 0 {
        assert(b.len() == 0);
        assert(a =~= b);
    } else {
        assert(b.len() != 0);
        let (x, y) = (a.last(), b.last());
        assert(a[a.len() - 1].len() <= 255 && b[b.len() - 1].len() <= 255);
        let ea = enc(a.drop_last());
        let eb = enc(b.drop_last());
        assert(c == seq![x.len() as u8] + x + ea);
        assert(c == seq![y.len() as u8] + y + eb);
        assert(c[0] == x.len() as u8 && c[0] == y.len() as u8);
        assert(x.len() == y.len());
        assert(x =~= c.subrange(1, 1 + x.len() as int));
        assert(y =~= c.subrange(1, 1 + x.len() as int));
        assert(ea =~= c.subrange(1 + x.len() as int, c.len() as int));
        assert(eb =~= c.subrange(1 + x.len() as int, c.len() as int));
        l_enc_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
    }
}
