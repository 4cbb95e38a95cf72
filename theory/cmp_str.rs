// Key order of strtree: whatever comparison function the tree carries.
pub open spec fn cmp(c: Compare, a: Seq<u8>, b: Seq<u8>) -> int { c.cmp(a, b) }
pub open spec fn callable(c: Compare) -> bool { c.id != 0 }
