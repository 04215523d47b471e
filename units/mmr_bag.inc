//@ fn grovedb-merkle-mountain-range/src/mmr.rs bag_peaks
  //@ attr #[verifier::loop_isolation(false)]
  //@ ret r
  //@ rule peaks.pop().expect($x..) ==> peaks.pop().unwrap()
  //@ spec
    ensures r is Ok, match r->Ok_0 { Some(n) => peaks@.len() > 0 && n.hash == bag(hs(peaks@)), None => peaks@.len() == 0 }
  //@ at start
    let ghost v0 = peaks@;
  //@ loop 1
    invariant v0.len() > 0 ==> peaks@.len() > 0, v0.len() == 0 ==> peaks@.len() == 0, bag(hs(peaks@)) == bag(hs(v0)),
    decreases peaks@.len()
  //@ loopstart 1
    let ghost a = hs(peaks@); let ghost w = a.len(); let ghost s = a.take(w - 2);
    proof { bag_two(s, a[w - 2], a[w - 1]); assert(s.push(a[w - 2]).push(a[w - 1]) =~= a); }
  //@ loopend 1
    proof { assert(hs(peaks@) =~= s.push(mergeh(a[w - 1], a[w - 2]))); }
//@ end
