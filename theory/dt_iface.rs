pub open spec fn isnode(v: Iface) -> bool { iface_has(v, TID_@TID@) && v->Ptr_1 != NIL }
pub open spec fn noder(v: Iface) -> Ref { v->Ptr_1 }
pub open spec fn mknode(r: Ref) -> Iface { Iface::Ptr(TID_@TID@, r) }
