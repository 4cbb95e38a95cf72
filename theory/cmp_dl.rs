// Key order of dltree: shorter labels first, labels of one length bytewise.
pub open spec fn cmp(c: (), a: Seq<u8>, b: Seq<u8>) -> int { if a.len() != b.len() { a.len() - b.len() } else { lex(a, b) } }
pub open spec fn callable(c: ()) -> bool { true }
