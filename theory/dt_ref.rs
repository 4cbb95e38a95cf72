pub open spec fn isnode(v: Ref) -> bool { v != NIL }
pub open spec fn noder(v: Ref) -> Ref { v }
pub open spec fn mknode(r: Ref) -> Ref { r }
