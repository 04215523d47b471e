// trusted: a storage context is a map from keys to values (what a call does is stated where it is made)
#[verifier::external_body] pub struct Ctx { x: u8 }
impl View for Ctx { type V = Map<Seq<u8>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>; }
pub open spec fn ent(m: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }
