//@ fn grovedb-bulk-append-tree/src/proof/mod.rs query_to_ranges
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures r is Ok == goodq(*query),
    r is Ok ==> nonempty(r.unwrap()@, total_count) && apart(r.unwrap()@) && forall|p: int| #[trigger] inr(r.unwrap()@, p) == (0 <= p < total_count && selq(*query, p)),
//@ at start
  hide(inr); hide(num); hide(upto);
  let ghost q = *query;
  proof { inr_empty(); upto_all(q); assert forall|s: Seq<u8>| s.len() <= 8 implies 0 <= #[trigger] num(s) <= u64::MAX by { num_bound(s); } }
//@ loop 1
  invariant ii <= q.items@.len(), nonempty(ranges@, total_count), forall|i: int| 0 <= i < ii ==> goodi(#[trigger] q.items@[i]),
    forall|p: int| #[trigger] inr(ranges@, p) == (0 <= p < total_count && upto(q, ii as int, p)),
  decreases q.items@.len() - ii
//@ loopstart 1
  let ghost r0 = ranges@;
  proof { upto_next(q, ii as int); }
//@ after ranges.push((start, end));
  proof { inr_push(r0, (start, end)); }
//@ after sort_pairs(&mut ranges);
  let ghost r1 = rsort; proof { same_members(r1, ranges@, total_count); }
//@ before sort_pairs(&mut ranges);
  let ghost rsort = ranges@;
//@ loop 2
  invariant ri <= ranges@.len(), nonempty(ranges@, total_count), nonempty(merged@, total_count), apart(merged@), forall|p: int| #[trigger] inr(merged@, p) == inr(ranges@.take(ri as int), p),
    forall|i: int| 0 <= i < merged@.len() ==> exists|j: int| 0 <= j < ri && ranges@[j].0 == (#[trigger] merged@[i]).0,
  decreases ranges@.len() - ri
//@ loopstart 2
  let ghost m0 = merged@; let ghost r2 = ranges@.take(ri as int); let ghost r3 = ranges@.take(ri + 1); let ghost x = ranges@[ri as int];
  proof {
    inr_push(r2, x); assert(r3 =~= r2.push(x));
    assert(forall|i: int| 0 <= i < m0.len() ==> (#[trigger] m0[i]).0 <= x.0);
    inr_push(m0, x);
  }
//@ after merged.set($x..);
  proof { merge_last(m0, x, merged@); }
//@ postloop 2
  proof { assert(ranges@.take(ri as int) =~= ranges@); }
//@ end
