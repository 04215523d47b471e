// ---- an honest proof: its parts hash to the roots of the log's parts, and it lists what the query needs ----
pub open spec fn at<T>(s: Seq<(T, Vec<u8>)>, i: int, p: T) -> bool { 0 <= i < s.len() && s[i].0 == p }
pub open spec fn hasp<T>(s: Seq<(T, Vec<u8>)>, p: T) -> bool { exists|i: int| #[trigger] at(s, i, p) }
pub open spec fn chunk_ok(p: mm::MmrTreeProof, ch: Log) -> bool {
    if ch.len() == 0 { p.mmr_size == 0 }
    else { p.mmr_size == msize(ch.len() as int) && p.leaves@.len() > 0 && mm::distinct(p.leaves@) && mm::in_count(p.leaves@, p.mmr_size) && mm::root_of_size(p.leaves@, p.mmr_size, p.proof_items@) == Some(mroot(ch)) }
}
pub open spec fn buffer_ok(p: dn::DenseTreeProof, h: u8, b: Log) -> bool {
    if b.len() == 0 { p.entries@.len() == 0 && p.node_value_hashes@.len() == 0 && p.node_hashes@.len() == 0 }
    else { dn::accepts(p, h, b.len() as u16) && dn::prec(p, 0, h, b.len() as u16) == Some(droot(h, b)) }
}
pub open spec fn honestp(cp: mm::MmrTreeProof, bp: dn::DenseTreeProof, log: Log, h: u8) -> bool { 1 <= h <= 16 && chunk_ok(cp, chunks(log, h)) && buffer_ok(bp, h, buffer(log, h)) }
// the part of the proof that holds position p is there
pub open spec fn given(cp: mm::MmrTreeProof, bp: dn::DenseTreeProof, n: int, c: int, p: int) -> bool { if p < n / c * c { hasp(cp.leaves@, (p / c) as u64) } else { hasp(bp.entries@, (p - n / c * c) as u16) } }
pub open spec fn covers(cp: mm::MmrTreeProof, bp: dn::DenseTreeProof, n: int, h: u8, q: Query) -> bool { forall|p: int| 0 <= p < n && #[trigger] selq(q, p) ==> given(cp, bp, n, cs(h), p) }
