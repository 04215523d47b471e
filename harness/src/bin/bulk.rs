//! C07 C08 C09: bulk-append tree.
use grovedb_bulk_append_tree::*;
use grovedb_dense_fixed_sized_merkle_tree::position_key;
use grovedb_query::{Query, QueryItem as QI};
use verif_harness::*;
#[path = "../memctx.rs"]
mod memctx;
use memctx::MemCtx;
#[path = "../giant.rs"]
mod giant;
use giant::Giant;

type H = [u8; 32];
type Tree = BulkAppendTree<MemCtx>;
type Pairs = Vec<(u64, Vec<u8>)>;
fn b3(p: &[&[u8]]) -> H { let mut h = blake3::Hasher::new(); for x in p { h.update(x); } *h.finalize().as_bytes() }
fn dense(vals: &[Vec<u8>], cap: usize, pos: usize) -> H {
    if pos >= cap || pos >= vals.len() { return [0; 32]; }
    b3(&[&b3(&[&vals[pos]]), &dense(vals, cap, 2 * pos + 1), &dense(vals, cap, 2 * pos + 2)])
}
/// the documented blob layout
fn blob(es: &[Vec<u8>]) -> Vec<u8> {
    if es.is_empty() { return vec![]; }
    let l = es[0].len();
    let mut b;
    if es.iter().all(|e| e.len() == l) {
        b = vec![1u8];
        b.extend((es.len() as u32).to_be_bytes());
        b.extend((l as u32).to_be_bytes());
        for e in es { b.extend(e); }
    } else {
        b = vec![0u8];
        for e in es { b.extend((e.len() as u32).to_be_bytes()); b.extend(e); }
    }
    b
}
fn mmr_root(blobs: &[Vec<u8>]) -> H {
    let mut peaks: Vec<(H, u8)> = vec![];
    for b in blobs {
        peaks.push((b3(&[&[0], b]), 0));
        while peaks.len() >= 2 && peaks[peaks.len() - 1].1 == peaks[peaks.len() - 2].1 {
            let r = peaks.pop().unwrap();
            let l = peaks.pop().unwrap();
            peaks.push((b3(&[&[1], &l.0, &r.0]), l.1 + 1));
        }
    }
    let Some(mut acc) = peaks.pop().map(|p| p.0) else { return [0; 32] };
    while let Some(p) = peaks.pop() { acc = b3(&[&[1], &acc, &p.0]); }
    acc
}
fn state_root(vals: &[Vec<u8>], h: u8) -> H {
    let ep = 1usize << h;
    let k = vals.len() / ep;
    let blobs: Vec<Vec<u8>> = (0..k).map(|i| blob(&vals[i * ep..(i + 1) * ep])).collect();
    b3(&[b"bulk_state", &mmr_root(&blobs), &dense(&vals[k * ep..], ep - 1, 0)])
}
fn value(r: &mut Rng, fixed: bool) -> Vec<u8> { if fixed { return r.bytes(3); } match r.below(9) { 0 => vec![], 1 => vec![0; 32], 2 => r.bytes(65), 3 => vec![1, 0, 0, 0, 1], _ => { let n = 1 + r.us(5); r.bytes(n) } } }

fn same(t: &Tree, h: u8, vals: &[Vec<u8>], what: &str) -> R {
    let ep = 1u64 << h;
    let n = vals.len() as u64;
    chk!(t.total_count == n && t.chunk_count() == n / ep && t.buffer_count() as u64 == n % ep && t.height() == h && t.epoch_size() == ep && t.capacity() as u64 == ep - 1,
        "{what}: counts total {} chunks {} buffer {}, expected {n} values", t.total_count, t.chunk_count(), t.buffer_count());
    match t.compute_current_state_root() { Ok(x) => chk!(x == state_root(vals, h), "{what}: state root differs from the function of the {n} appended values"), Err(e) => fail!("{what}: state root: {e}") }
    let k = n / ep;
    for c in 0..k {
        let b = t.get_chunk_value(c).map_err(|e| Fail(format!("{what}: chunk {c}: {e}")))?;
        let Some(b) = b else { fail!("{what}: chunk {c} missing") };
        let want = &vals[(c * ep) as usize..((c + 1) * ep) as usize];
        chk!(b == blob(want), "{what}: chunk {c} is not the blob of its values");
        match deserialize_chunk_blob(&b) { Ok(es) => chk!(es == want, "{what}: chunk {c} decodes to {es:?}"), Err(e) => fail!("{what}: chunk {c}: {e}") }
    }
    chk!(matches!(t.get_chunk_value(k), Ok(None)), "{what}: chunk {k} reported before it exists");
    for i in 0..(n % ep).min(40) {
        match t.get_buffer_value(i as u16) { Ok(g) => chk!(g.as_ref() == Some(&vals[(k * ep + i) as usize]), "{what}: buffer value {i} = {g:?}"), Err(e) => fail!("{what}: buffer value {i}: {e}") }
    }
    chk!(matches!(t.get_buffer_value((n % ep) as u16), Ok(None)), "{what}: buffer value past the end");
    Ok(())
}
fn c07(ctx: &mut Ctx) -> R {
    c07_big(ctx)?;
    ctx.rule("random histories (append, commit, reload, injected read and write failures) on logs of height 1..4, epoch boundaries of heights up to 16; non-trivial: at least one compaction or failure");
    for h in [0u8, 17, 32, 33, 255] {
        at(format!("height {h}"));
        chk!(guard(|| Tree::new(h, MemCtx::default()).is_err()) == Ok(true) && guard(|| Tree::from_state(0, h, MemCtx::default()).is_err()) == Ok(true), "height {h} accepted");
    }
    for n in 0..3000u64 { chk!(leaf_count_to_mmr_size(n) == 2 * n - n.count_ones() as u64, "leaf_count_to_mmr_size({n})"); }
    for h in [7u8, 12, 16] {
        let ep = 1u64 << h;
        let m = MemCtx::default();
        let mut vals: Vec<Vec<u8>> = (0..ep - 1).map(|i| if i % 7 == 3 { vec![] } else { (i as u16).to_be_bytes().to_vec() }).collect();
        for (i, v) in vals.iter().enumerate() { m.0.data.borrow_mut().insert(position_key(i as u16).to_vec(), v.clone()); }
        let mut t = Tree::from_state(ep - 1, h, m.clone()).map_err(|e| Fail(format!("from_state height {h}: {e}")))?;
        at(format!("height {h}: the append that fills the first chunk"));
        for j in 0..3u8 {
            let a = t.append(&[j]).map_err(|e| Fail(format!("append at height {h}: {e}")))?;
            vals.push(vec![j]);
            chk!(a.compacted == (j == 0) && a.global_position == vals.len() as u64 - 1 && a.state_root == state_root(&vals, h), "append {j} past the buffer at height {h}: {a:?}");
            same(&t, h, &vals, &format!("height {h}"))?;
        }
        t.commit_mmr().map_err(|e| Fail(format!("commit: {e}")))?;
        let t = Tree::from_state(vals.len() as u64, h, m).map_err(|e| Fail(format!("reload: {e}")))?;
        same(&t, h, &vals, &format!("height {h} reloaded"))?;
        ctx.case(("large", h), true);
    }
    for _ in 0..ctx.n(2_500) {
        let r = &mut ctx.rng;
        let h = 1 + r.below(4) as u8;
        let ep = 1usize << h;
        let m = MemCtx::default();
        let mut vals: Vec<Vec<u8>> = vec![];
        let mut t = Tree::new(h, m.clone()).map_err(|e| Fail(e.to_string()))?;
        let mut log = format!("height {h}");
        let mut failed = 0;
        let fixed = r.chance(1, 3);
        let target = match r.below(3) { 0 => r.us(ep + 2), 1 => r.us(4 * ep), _ => r.us((18 * ep).min(90)) };
        let inject = r.coin();
        let mut dirty = false;
        while vals.len() < target || r.chance(1, 3) {
            match r.below(12) {
                0 => {
                    let inj = inject && r.chance(1, 3);
                    if inj { m.0.fail_put.set(Some(r.below(3) as u32)); }
                    log.push_str(if inj { "; commit (failing write)" } else { "; commit" }); at(log.clone());
                    let res = t.commit_mmr();
                    let armed = m.0.fail_put.take().is_some();
                    match res {
                        Ok(()) => { chk!(!inj || armed, "{log}: commit succeeded although a write failed"); dirty = false; }
                        Err(e) => { chk!(inj && !armed, "{log}: {e}"); failed += 1; }
                    }
                }
                1 => {
                    if dirty { t.commit_mmr().map_err(|e| Fail(format!("{log}: commit: {e}")))?; dirty = false; }
                    log.push_str("; commit, reload"); at(log.clone());
                    t = Tree::from_state(vals.len() as u64, h, m.clone()).map_err(|e| Fail(format!("{log}: {e}")))?;
                }
                _ => {
                    let v = value(r, fixed);
                    let inj = if inject { r.below(9) } else { 9 };
                    if inj == 0 { m.0.fail_put.set(Some(0)); }
                    if inj < 3 && inj > 0 { let k = if r.coin() { r.below(4) } else { r.below(24) }; m.0.fail_get.set(Some(k as u32)); }
                    log.push_str(&format!("; append({}){}", hx(&v), match inj { 0 => " failing write", 1 | 2 => " failing read", _ => "" }));
                    at(log.clone());
                    let res = t.append(&v);
                    let armed = m.0.fail_put.take().is_some() | m.0.fail_get.take().is_some();
                    let tripped = inj < 3 && !armed;
                    match res {
                        Ok(a) => {
                            chk!(!tripped, "{log}: succeeded although storage failed");
                            vals.push(v);
                            let full = vals.len() % ep == 0;
                            dirty |= full;
                            chk!(a.global_position == vals.len() as u64 - 1 && a.compacted == full, "{log}: {a:?}");
                            chk!(a.state_root == state_root(&vals, h), "{log}: returned state root differs from the function of the {} values", vals.len());
                        }
                        Err(e) => { chk!(tripped, "{log}: {e}"); failed += 1; }
                    }
                }
            }
            if r.chance(1, 3) || vals.len() < 8 { same(&t, h, &vals, &log)?; }
            if log.len() > 20_000 { break; }
        }
        same(&t, h, &vals, &log)?;
        t.commit_mmr().map_err(|e| Fail(format!("{log}: commit: {e}")))?;
        let t = Tree::from_state(vals.len() as u64, h, m.clone()).map_err(|e| Fail(format!("{log}: {e}")))?;
        same(&t, h, &vals, &format!("{log}; commit, reload"))?;
        let k = vals.len() / ep;
        if k > 0 {
            let mut ix: Vec<u64> = (0..k as u64).collect();
            r.shuffle(&mut ix);
            ix.truncate(1 + r.us(k));
            let q = t.query_chunks(&ix).map_err(|e| Fail(format!("{log}: query_chunks {ix:?}: {e}")))?;
            let want: Vec<(u64, Vec<Vec<u8>>)> = ix.iter().map(|&i| (i, vals[i as usize * ep..(i as usize + 1) * ep].to_vec())).collect();
            chk!(q.chunks == want, "{log}: query_chunks({ix:?}) returned other entries");
            let blobs: Vec<Vec<u8>> = (0..k).map(|i| blob(&vals[i * ep..(i + 1) * ep])).collect();
            chk!(q.mmr_root == mmr_root(&blobs), "{log}: query_chunks({ix:?}) reports another chunk root");
            let mut sorted = ix.clone();
            sorted.sort();
            let p = grovedb_merkle_mountain_range::MmrTreeProof::new(leaf_count_to_mmr_size(k as u64), sorted.iter().map(|&i| (i, blobs[i as usize].clone())).collect(), q.mmr_proof_items.clone());
            chk!(p.verify(&mmr_root(&blobs)).is_ok(), "{log}: the proof query_chunks({ix:?}) returned does not bind those chunks to the chunk root");
        }
        match t.query_chunks(&[]) { Ok(q) => chk!(q.chunks.is_empty() && q.mmr_proof_items.is_empty(), "{log}: query_chunks of nothing returned chunks"), Err(e) => fail!("{log}: query_chunks of nothing: {e}") }
        let buf = &vals[k * ep..];
        if !buf.is_empty() {
            let mut ps: Vec<u16> = (0..buf.len() as u16).collect();
            r.shuffle(&mut ps);
            ps.truncate(1 + r.us(buf.len()));
            let mut query = Query::new();
            for p in &ps { query.insert_item(QI::Key(p.to_be_bytes().to_vec())); }
            ps.sort();
            let q = t.query_buffer(&query).map_err(|e| Fail(format!("{log}: query_buffer {ps:?}: {e}")))?;
            let want: Vec<(u16, Vec<u8>)> = ps.iter().map(|&p| (p, buf[p as usize].clone())).collect();
            chk!(q.entries == want, "{log}: query_buffer({ps:?}) returned {:?}", q.entries);
            match q.proof.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(&dense(buf, ep - 1, 0), h, buf.len() as u16) { Ok(e) => chk!(e == want, "{log}: proof of query_buffer({ps:?}) yields {e:?}"), Err(e) => fail!("{log}: proof of query_buffer({ps:?}) refused: {e}") }
        }
        chk!(t.query_chunks(&[k as u64]).is_err(), "{log}: query_chunks of an incomplete chunk");
        ctx.case(log, k > 0 || failed > 0);
    }
    Ok(())
}
/// A log of up to 2^30 chunks that is never built: value p depends on its place in a group of four
/// chunks, one chunk is special. Heights whose chunks repeat.
struct Big { h: u8, n: u64, g: std::rc::Rc<Giant>, ctx: MemCtx }
fn gval(h: u8, p: u64, sp: bool) -> Vec<u8> { let mut v = (p % (4 << h)).to_be_bytes()[5..].to_vec(); if sp { v.push(0xee); } v }
impl Big {
    fn val(&self, p: u64) -> Vec<u8> { gval(self.h, p, p >> self.h == self.g.special) }
    fn root(&self) -> H {
        let ep = 1u64 << self.h;
        let vals: Vec<Vec<u8>> = (self.n / ep * ep..self.n).map(|p| self.val(p)).collect();
        b3(&[b"bulk_state", &self.g.root(), &dense(&vals, ep as usize - 1, 0)])
    }
    fn tree(&self) -> Result<Tree, Fail> { Tree::from_state(self.n, self.h, self.ctx.clone()).map_err(|e| Fail(format!("from_state({}, {}): {e}", self.n, self.h))) }
}
fn big(r: &mut Rng) -> Big {
    let h = if r.chance(1, 8) { 8 + r.below(9) as u8 } else { 1 + r.below(6) as u8 };
    let ep = 1u64 << h;
    let max = (1u64 << 30) - 4; // chunks: positions stay below 2^31
    let c = match r.below(4) { 0 => 1 + r.below(40), 1 => { let t = *r.pick(&[16u32, 32, 31, 17]); ((1u64 << t) >> h).wrapping_add(r.below(5)).wrapping_sub(2).clamp(1, max) } 2 => { let b = r.below(30); ((1u64 << b) + r.below(3)).clamp(1, max) } _ => 1 + r.below(max) };
    let n = c * ep + match r.below(5) { 0 => 0, 1 => ep - 1, 2 => ep.saturating_sub(2), _ => r.below(ep) }.min(if h > 8 { 20 } else { ep });
    let sp = match r.below(3) { 0 => c - 1, 1 => 0, _ => r.below(c) };
    let g = std::rc::Rc::new(Giant::new(c, sp, Box::new(move |m, s| blob(&(0..ep).map(|i| gval(h, m * ep + i, s)).collect::<Vec<_>>()))));
    let ctx = MemCtx::default();
    for p in c * ep..n { ctx.0.data.borrow_mut().insert(position_key((p - c * ep) as u16).to_vec(), gval(h, p, false)); }
    let k = g.clone();
    *ctx.0.virt.borrow_mut() = Some(std::rc::Rc::new(move |key: &[u8]| {
        let t = u32::from_be_bytes(key.try_into().ok()?);
        if t >> 31 == 0 { return None; }
        let (hash, v) = k.node((t & 0x7fff_ffff) as u64)?;
        let mut b = vec![v.is_some() as u8];
        b.extend(hash);
        if let Some(v) = v { b.extend((v.len() as u32).to_be_bytes()); b.extend(v); }
        Some(b)
    }));
    Big { h, n, g, ctx }
}
fn near(r: &mut Rng, b: &Big) -> u64 {
    let ep = 1u64 << b.h;
    let x = match r.below(6) { 0 => b.g.special * ep, 1 => b.n, 2 => b.n / ep * ep, 3 => r.edge(), 4 => b.n / ep * ep - ep, _ => r.below(b.n) };
    x.wrapping_add(r.below(5)).wrapping_sub(2)
}
/// counts, reads and the next appends of logs far beyond what can be built
fn c07_big(ctx: &mut Ctx) -> R {
    for k in 0..ctx.n(250) {
        let b = big(&mut ctx.rng);
        let (h, n, ep) = (b.h, b.n, 1u64 << b.h);
        let what = format!("log of height {h} and {n} values (repeating every {} values, chunk {} special)", 4 * ep, b.g.special);
        at(what.clone());
        let mut t = b.tree()?;
        chk!(t.total_count == n && t.chunk_count() == n / ep && t.buffer_count() as u64 == n % ep, "{what}: total {} chunks {} buffer {}", t.total_count, t.chunk_count(), t.buffer_count());
        match t.compute_current_state_root() { Ok(x) => chk!(x == b.root(), "{what}: wrong state root"), Err(e) => fail!("{what}: {e}") }
        for _ in 0..6 {
            let p = near(&mut ctx.rng, &b);
            let got = t.get_chunk_value(p / ep).map_err(|e| Fail(format!("{what}: chunk {}: {e}", p / ep)))?;
            chk!(got == if p / ep < n / ep { Some(b.g.leaf(p / ep)) } else { None }, "{what}: chunk {} is {:?}", p / ep, got.as_ref().map(|x| hx(&x[..x.len().min(40)])));
            let q = ctx.rng.below(ep) as u16;
            let got = t.get_buffer_value(q).map_err(|e| Fail(format!("{what}: buffer {q}: {e}")))?;
            chk!(got == if (q as u64) < n % ep { Some(b.val(n / ep * ep + q as u64)) } else { None }, "{what}: buffer value {q} is {got:?}");
        }
        if h <= 8 {
            // up to and past the next chunk; the special chunk lies behind
            let left = ep - n % ep;
            let steps = if left <= 40 { left + 1 } else { 2 };
            for i in 0..steps {
                let v = gval(h, n + i, false);
                let a = t.append(&v).map_err(|e| Fail(format!("{what}: append {i}: {e}")))?;
                chk!(a.global_position == n + i && t.total_count == n + i + 1 && a.compacted == ((n + i + 1) % ep == 0), "{what}: append {i} gives position {}, compacted {}", a.global_position, a.compacted);
                let c = (n + i + 1) / ep;
                let vals: Vec<Vec<u8>> = (c * ep..n + i + 1).map(|p| gval(h, p, false)).collect();
                let want = b3(&[b"bulk_state", &b.g.root_of(c), &dense(&vals, ep as usize - 1, 0)]);
                chk!(a.state_root == want, "{what}: state root after append {i} is wrong");
                if a.compacted { chk!(matches!(t.get_chunk_value(c - 1), Ok(Some(x)) if x == b.g.leaf(c - 1)), "{what}: the new chunk {} is not read back", c - 1); }
            }
        }
        ctx.case(("big", k, h, n), true);
    }
    Ok(())
}
fn c08_big(ctx: &mut Ctx) -> R {
    for k in 0..ctx.n(1200) {
        let b = big(&mut ctx.rng);
        if b.h > 8 { continue; }
        let (h, n, ep) = (b.h, b.n, 1u64 << b.h);
        let (rt, t) = (b.root(), b.tree()?);
        for _ in 0..3 {
            let mut mk = |r: &mut Rng| -> (Query, Vec<(u64, u64)>) {
                let mut q = Query::new();
                let mut want = vec![];
                for _ in 0..1 + r.below(2) {
                    let a = near(r, &b);
                    let w = match r.below(3) { 0 => 1, 1 => r.below(4), _ => r.below(2 * ep.min(64) + 2) };
                    let e = a.saturating_add(w);
                    let by = |x: u64| x.to_be_bytes().to_vec();
                    q.items.push(match r.below(3) { 0 => QI::Range(by(a)..by(e)), 1 if e > a => QI::RangeInclusive(by(a)..=by(e - 1)), 1 => QI::Range(by(a)..by(e)), _ if a > 0 && a < e => QI::RangeAfterToInclusive(by(a - 1)..=by(e - 1)), _ => QI::RangeAfterTo(by(a)..by(a)) });
                    if !matches!(q.items.last(), Some(QI::RangeAfterTo(_))) { want.push((a, e.min(n))); }
                }
                (q, want)
            };
            let (q, rs) = mk(&mut ctx.rng);
            let mut set = std::collections::BTreeSet::new();
            for (a, e) in &rs { for p in *a..*e { set.insert(p); } }
            let want: Pairs = set.into_iter().map(|p| (p, b.val(p))).collect();
            let what = format!("log of height {h} and {n} values (repeating every {} values, chunk {} special), query {:?}", 4 * ep, b.g.special, q.items);
            at(what.clone());
            let p = match guard(|| BulkAppendTreeProof::generate(&q, &t)) { Ok(Ok(p)) => p, Ok(Err(e)) => fail!("proof generation: {e}: {what}"), Err(e) => fail!("proof generation panicked: {e}: {what}") };
            match guard(|| p.verify_against_query::<Pairs>(&rt, h, n, &q)) { Err(e) => fail!("verification panicked: {e}: {what}"), Ok(Err(e)) => fail!("honest proof refused: {e}: {what}"), Ok(Ok(got)) => chk!(got == want, "honest proof returns {:?}: {what}", got.iter().map(|x| x.0).collect::<Vec<_>>()) }
            // a proof made for another query, and one with a part replaced
            let (q2, _) = mk(&mut ctx.rng);
            at(format!("{what} against a proof for {:?}", q2.items));
            let p2 = BulkAppendTreeProof::generate(&q2, &t).map_err(|e| Fail(format!("proof generation: {e}: {:?}", q2.items)))?;
            for (f, how) in [
                (p2.clone(), "all"),
                (BulkAppendTreeProof { chunk_proof: p2.chunk_proof.clone(), buffer_proof: p.buffer_proof.clone() }, "the chunk part"),
                (BulkAppendTreeProof { chunk_proof: p.chunk_proof.clone(), buffer_proof: p2.buffer_proof.clone() }, "the buffer part"),
            ] {
                if let Ok(got) = guard(|| f.verify_against_query::<Pairs>(&rt, h, n, &q)).map_err(|e| Fail(format!("verification panicked: {e}: {what}")))? {
                    chk!(got == want, "with {how} of a proof for {:?} the answer is {:?}: {what}", q2.items, got.iter().map(|x| x.0).collect::<Vec<_>>());
                }
            }
            ctx.case(("big", k, what), !want.is_empty());
        }
    }
    Ok(())
}
fn num(b: &[u8]) -> Option<u64> { if b.is_empty() || b.len() > 8 { return None; } Some(b.iter().fold(0u64, |a, x| a << 8 | *x as u64)) }
fn selects(i: &QI, p: u64) -> bool {
    let n = |b: &[u8]| num(b).unwrap();
    match i {
        QI::Key(k) => p == n(k),
        QI::Range(r) => n(&r.start) <= p && p < n(&r.end),
        QI::RangeInclusive(r) => n(r.start()) <= p && p <= n(r.end()),
        QI::RangeFull(_) => true,
        QI::RangeFrom(r) => p >= n(&r.start),
        QI::RangeTo(r) => p < n(&r.end),
        QI::RangeToInclusive(r) => p <= n(&r.end),
        QI::RangeAfter(r) => p > n(&r.start),
        QI::RangeAfterTo(r) => p > n(&r.start) && p < n(&r.end),
        QI::RangeAfterToInclusive(r) => p > n(r.start()) && p <= n(r.end()),
    }
}
fn bound(r: &mut Rng, n: u64, ep: u64) -> Vec<u8> {
    let v = match r.below(12) { 0 => 0, 1 => n, 2 => n.wrapping_sub(1), 3 => n + 1, 4 => u64::MAX, 5 => n / ep * ep, 6 => (n / ep * ep).wrapping_sub(1), 7 => r.below(n / ep + 1) * ep, 8 => r.next(), _ => r.below(n + 2) };
    let b = v.to_be_bytes().to_vec();
    let z = b.iter().take_while(|x| **x == 0).count().min(7);
    b[r.us(z + 1)..].to_vec()
}
fn item(r: &mut Rng, n: u64, ep: u64) -> QI {
    let (a, b) = (bound(r, n, ep), bound(r, n, ep));
    match r.below(10) { 0 => QI::Key(a), 1 => QI::Range(a..b), 2 => QI::RangeInclusive(a..=b), 3 => QI::RangeFull(..), 4 => QI::RangeFrom(a..), 5 => QI::RangeTo(..a), 6 => QI::RangeToInclusive(..=a), 7 => QI::RangeAfter(a..), 8 => QI::RangeAfterTo(a..b), _ => QI::RangeAfterToInclusive(a..=b) }
}
fn tamper(r: &mut Rng, p: &mut BulkAppendTreeProof, vals: &[Vec<u8>], h: u8) -> String {
    let ep = 1usize << h;
    let k = vals.len() / ep;
    let (mut size, mut leaves, mut items) = (p.chunk_proof.mmr_size(), p.chunk_proof.leaves().to_vec(), p.chunk_proof.proof_items().to_vec());
    let b = &mut p.buffer_proof;
    let tail = &vals[k * ep..];
    let how = match r.below(18) {
        0 if !leaves.is_empty() => { let i = r.us(leaves.len()); let x = leaves[i].1.len(); if x > 0 { leaves[i].1[r.us(x)] ^= 1 << r.below(8); } "chunk byte flipped" }
        1 if !leaves.is_empty() => { let i = r.us(leaves.len()); leaves[i].0 = r.below(k as u64 + 1); "chunk moved" }
        2 if !leaves.is_empty() => { let i = r.us(leaves.len()); leaves.remove(i); "chunk dropped" }
        3 if !leaves.is_empty() => { let i = r.us(leaves.len()); let mut es = vals[..ep].to_vec(); es[r.us(ep)] = value(r, false); leaves[i].1 = blob(&es); "chunk replaced by another list" }
        4 if !leaves.is_empty() => { let i = r.us(leaves.len()); let x = leaves[i].clone(); let j = r.us(leaves.len() + 1); leaves.insert(j, (x.0, if r.coin() { x.1 } else { blob(&[value(r, false)]) })); "chunk duplicated" }
        5 if k > 0 => { let i = r.us(k); leaves.push((i as u64, blob(&vals[i * ep..(i + 1) * ep]))); "true chunk added" }
        6 if !items.is_empty() => { let i = r.us(items.len()); items.remove(i); "item dropped" }
        7 => { let i = r.us(items.len() + 1); let x = if k > 0 { let c = r.us(k); b3(&[&[0], &blob(&vals[c * ep..(c + 1) * ep])]) } else { [7; 32] }; items.insert(i, x); "item added" }
        8 if items.len() > 1 => { let (a, c) = (r.us(items.len()), r.us(items.len())); items.swap(a, c); "items swapped" }
        9 => { size = match r.below(4) { 0 => 0, 1 => size + 1, 2 => r.next() >> 1, _ => leaf_count_to_mmr_size(r.below(k as u64 + 2)) }; "size changed" }
        10 if !b.entries.is_empty() => { let i = r.us(b.entries.len()); b.entries[i].1 = value(r, false); "buffer value changed" }
        11 if !b.entries.is_empty() => { let i = r.us(b.entries.len()); b.entries[i].0 = r.us(ep) as u16; "buffer entry moved" }
        12 if !b.entries.is_empty() => { let i = r.us(b.entries.len()); let (q, v) = b.entries.remove(i); b.node_value_hashes.push((q, b3(&[&v]))); "buffer entry demoted to a hash" }
        13 if !b.entries.is_empty() => { let i = r.us(b.entries.len()); let (q, _) = b.entries.remove(i); b.node_hashes.push((q, dense(tail, ep - 1, q as usize))); "buffer entry demoted to a subtree hash" }
        14 => { b.entries.push((r.us(ep) as u16, value(r, false))); "buffer entry added" }
        15 => { *b = grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof { entries: vec![], node_value_hashes: vec![], node_hashes: if r.coin() { vec![(0, dense(tail, ep - 1, 0))] } else { vec![] } }; "buffer proof emptied" }
        16 if k > 1 => { let c = r.us(k); leaves = vec![(c as u64, blob(&vals[c * ep..(c + 1) * ep]))]; "one chunk only" }
        _ => "unchanged",
    };
    p.chunk_proof = grovedb_merkle_mountain_range::MmrTreeProof::new(size, leaves, items);
    how.into()
}
// values of many bytes: their proofs encode, decode and verify
fn c08_wide(ctx: &mut Ctx) -> R {
    let top = if ctx.thorough { 20 << 20 } else { 2 << 20 };
    for lens in [[1usize, 70_000, 0, 20_000, 9], [65_535, 65_536, 65_537, 3, 70_000], [300_000, 300_000, 5, 5, 1 << 20], [top, 2, 2 * top - 5000, 4000, top]] {
        let vals: Vec<Vec<u8>> = (0..5).map(|i| vec![i as u8 + 1; lens[i]]).collect();
        let mut t = BulkAppendTree::new(1, MemCtx::default()).map_err(|e| Fail(format!("{e}")))?;
        let mut rt = [0u8; 32];
        for v in &vals { rt = t.append(v).map_err(|e| Fail(format!("append: {e}")))?.state_root; }
        for set in 1u32..32 {
            let ps: Vec<u64> = (0..5u64).filter(|i| set >> i & 1 == 1).collect();
            let desc = format!("height 1, five values with lengths {lens:?} (value i repeats the byte i + 1), positions {ps:?}");
            at(desc.clone());
            let mut q = Query::new();
            for p in &ps { q.insert_key(p.to_be_bytes().to_vec()); }
            let p = BulkAppendTreeProof::generate(&q, &t).map_err(|e| Fail(format!("generate: {e}: {desc}")))?;
            let b = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}: {desc}")))?;
            let d = BulkAppendTreeProof::decode_from_slice(&b).map_err(|e| Fail(format!("honest proof does not decode: {e}: {desc}")))?;
            let got = d.verify_against_query::<Pairs>(&rt, 1, 5, &q).map_err(|e| Fail(format!("honest proof refused: {e}: {desc}")))?;
            chk!(got == ps.iter().map(|p| (*p, vals[*p as usize].clone())).collect::<Pairs>(), "honest proof yields other values: {desc}");
            ctx.case(desc, true);
        }
    }
    Ok(())
}
fn c08(ctx: &mut Ctx) -> R {
    c08_wide(ctx)?;
    c08_big(ctx)?;
    ctx.rule("logs of height 1..4 with up to 40 values, queries of 0..3 items of every kind with bounds around chunk boundaries and the count; honest proofs, proofs with 1..3 field mutations, proofs for another query, mutated bytes; non-trivial: the query selects something or the proof is tampered");
    let mut pool: Vec<(u8, Vec<Vec<u8>>, Tree)> = vec![];
    for _ in 0..ctx.n(40_000) {
        let r = &mut ctx.rng;
        if pool.len() < 60 || r.chance(1, 60) {
            let h = 1 + r.below(4) as u8;
            let fixed = r.coin();
            let n = match r.below(4) { 0 => r.us(3), 1 => (1 << h) * (1 + r.us(3)), _ => r.us(41) };
            let m = MemCtx::default();
            let mut t = Tree::new(h, m.clone()).map_err(|e| Fail(e.to_string()))?;
            let vals: Vec<Vec<u8>> = (0..n).map(|_| value(r, fixed)).collect();
            for v in &vals { t.append(v).map_err(|e| Fail(format!("append: {e}")))?; }
            if r.coin() { t.commit_mmr().map_err(|e| Fail(e.to_string()))?; if r.coin() { t = Tree::from_state(n as u64, h, m).map_err(|e| Fail(e.to_string()))?; } }
            if pool.len() < 60 { pool.push((h, vals, t)); } else { let i = r.us(60); pool[i] = (h, vals, t); }
        }
        let pi = r.us(pool.len());
        let (h, vals, t) = &pool[pi];
        let (h, n) = (*h, vals.len() as u64);
        let rt = state_root(vals, h);
        let mut q = Query::new();
        let mk = |r: &mut Rng| { let mut v = vec![]; for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) { v.push(item(r, n, 1 << h)); } v };
        q.items = mk(r);
        q.left_to_right = r.coin();
        let want: Pairs = (0..n).filter(|p| q.items.iter().any(|i| selects(i, *p))).map(|p| (p, vals[p as usize].clone())).collect();
        let desc = format!("height {h}, values {:?}, query {:?}", vals.iter().map(|v| hx(v)).collect::<Vec<_>>(), q.items);
        at(desc.clone());
        let mut p = match guard(|| BulkAppendTreeProof::generate(&q, t)) { Ok(Ok(p)) => p, Ok(Err(e)) => fail!("proof generation failed: {e}: {desc}"), Err(e) => fail!("proof generation panicked: {e}: {desc}") };
        let ranged = |res: &BulkAppendTreeProofResult, r: &mut Rng, exact: bool| -> R {
            let (a, b) = (r.below(n + 2), r.below(n + 2));
            match guard(|| res.values_in_range(a, b)) {
                Err(e) => fail!("values_in_range panicked: {e}: {desc}"),
                Ok(Err(e)) => fail!("values_in_range({a}, {b}): {e}: {desc}"),
                Ok(Ok(vs)) => {
                    for (i, v) in &vs { chk!(*i >= a && *i < b && vals.get(*i as usize) == Some(v), "values_in_range({a}, {b}) yields {i} = {}: {desc}", hx(v)); }
                    if exact { for (i, v) in &want { if *i >= a && *i < b { chk!(vs.contains(&(*i, v.clone())), "values_in_range({a}, {b}) misses {i}: {desc}"); } } }
                }
            }
            Ok(())
        };
        let honest = |p: &BulkAppendTreeProof, r: &mut Rng, what: &str| -> R {
            match guard(|| p.verify_against_query::<Pairs>(&rt, h, n, &q)) {
                Err(e) => fail!("{what}: verification panicked: {e}: {desc}"),
                Ok(Err(e)) => fail!("{what} refused: {e}: {desc}"),
                Ok(Ok(got)) => chk!(got == want, "{what} returned positions {:?} but the query selects {:?}: {desc}", got.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>()),
            }
            match p.verify(&rt, h, n) { Ok(res) => ranged(&res, r, true)?, Err(e) => fail!("{what}: verify: {e}: {desc}") }
            Ok(())
        };
        honest(&p, r, "honest proof")?;
        if r.chance(1, 4) {
            let b = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}: {desc}")))?;
            let d = BulkAppendTreeProof::decode_from_slice(&b).map_err(|e| Fail(format!("decode: {e}: {desc}")))?;
            honest(&d, r, "decoded proof")?;
        }
        if r.chance(1, 4) { // another query's honest proof
            let mut q2 = Query::new(); q2.items = mk(r);
            p = BulkAppendTreeProof::generate(&q2, t).map_err(|e| Fail(format!("{e}")))?;
        }
        let mut how = vec![];
        for _ in 0..r.below(4) { how.push(tamper(r, &mut p, vals, h)); }
        let mut bytes = String::new();
        if r.chance(1, 5) {
            let mut x = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}")))?;
            for _ in 0..1 + r.below(3) { if x.is_empty() { break; } match r.below(3) { 0 => { let i = r.us(x.len()); x[i] = *r.pick(&[0, 1, 0x7f, 0x80, 250, 251, 252, 253, 255]); } 1 => { let i = r.us(x.len()); x[i] = x[i].wrapping_add(1); } _ => { let k = r.us(x.len()); x.truncate(k); } } }
            bytes = hx(&x);
            at(format!("{desc} proof bytes {bytes}"));
            match guard(|| BulkAppendTreeProof::decode_from_slice(&x)) { Err(e) => fail!("decoder panicked: {e}: {bytes}"), Ok(Ok(d)) => p = d, Ok(Err(_)) => { ctx.case((desc, how), true); continue; } }
        }
        let d2 = format!("{desc} proof {p:?} ({how:?} {bytes})");
        at(d2.clone());
        match guard(|| p.verify_against_query::<Pairs>(&rt, h, n, &q)) {
            Err(e) => fail!("verification panicked: {e}: {d2}"),
            Ok(Ok(got)) => chk!(got == want, "accepted proof returns {:?} but the query selects {:?}: {d2}", got.iter().map(|x| (x.0, hx(&x.1))).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>()),
            Ok(Err(_)) => {}
        }
        let (a, b) = (guard(|| p.verify(&rt, h, n)), guard(|| p.verify_and_compute_root(h, n)));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if let Ok(res) = &a { at(format!("values_in_range: {d2}")); ranged(res, r, false)?; }
                chk!(a.is_ok() == matches!(&b, Ok((x, _)) if *x == rt), "verify and verify_and_compute_root disagree: {d2}");
            }
            (Err(e), _) | (_, Err(e)) => fail!("verification panicked: {e}: {d2}"),
        }
        if r.chance(1, 5) { let (h2, n2) = (*r.pick(&[0u8, 1, 2, 16, 17, 32, 64, 255, h]), *r.pick(&[0u64, 1, n, n + 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]));
            match guard(|| p.verify_against_query::<Pairs>(&rt, h2, n2, &q).is_ok()) { Err(e) => fail!("verifier panicked for height {h2}, count {n2}: {e}: {d2}"), Ok(ok) => chk!(!(ok && !(1..=16).contains(&h2)), "height {h2} accepted: {d2}") } }
        ctx.case((desc, how, bytes), true);
    }
    // ill-formed queries are refused
    let t = Tree::new(2, MemCtx::default()).map_err(|e| Fail(e.to_string()))?;
    for k in [0usize, 9, 20] { let mut q = Query::new(); q.items.push(QI::Key(vec![0; k])); at(format!("key of {k} bytes")); chk!(guard(|| BulkAppendTreeProof::generate(&q, &t).is_err()) == Ok(true), "a {k}-byte position is accepted"); }
    Ok(())
}
/// what the layout says the bytes mean
fn parse(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.is_empty() { return Some(vec![]); }
    let be = |x: &[u8]| x.iter().fold(0u64, |a, y| a << 8 | *y as u64);
    let d = &b[1..];
    match b[0] {
        1 => {
            if d.len() < 8 { return None; }
            let (c, s) = (be(&d[..4]), be(&d[4..8]));
            if c > 1 << 20 || c * s != (d.len() - 8) as u64 { return None; }
            Some((0..c).map(|i| d[(8 + i * s) as usize..(8 + (i + 1) * s) as usize].to_vec()).collect())
        }
        0 => {
            let (mut v, mut o) = (vec![], 0usize);
            while o < d.len() {
                if v.len() >= 1 << 20 || o + 4 > d.len() { return None; }
                let l = be(&d[o..o + 4]) as usize;
                o += 4;
                if o + l > d.len() { return None; }
                v.push(d[o..o + l].to_vec());
                o += l;
            }
            Some(v)
        }
        _ => None,
    }
}
fn c09(ctx: &mut Ctx) -> R {
    ctx.rule("random entry lists in both forms, mutations of their blobs, every blob of up to 2 bytes, random headers; non-trivial: at least one entry, or bytes not produced by the encoder");
    let dec = |b: &[u8]| -> R {
        at(format!("decode {}", if b.len() < 200 { hx(b) } else { format!("{} bytes", b.len()) }));
        match (guard(|| deserialize_chunk_blob(b)), parse(b)) {
            (Err(e), _) => fail!("panic {e} decoding {}", hx(b)),
            (Ok(Ok(v)), Some(w)) => chk!(v == w, "{} decodes to {v:?}", hx(b)),
            (Ok(Err(e)), Some(_)) => fail!("{} refused: {e}", hx(b)),
            (Ok(Ok(v)), None) => fail!("{} decodes to {} entries although they do not account for its bytes", hx(&b[..b.len().min(200)]), v.len()),
            (Ok(Err(_)), None) => {}
        }
        Ok(())
    };
    for a in 0..=255u8 { dec(&[a])?; for b in [0, 1, 255] { dec(&[a, b])?; } }
    for c in [0u32, 1, 1 << 20, (1 << 20) + 1, 1 << 31, u32::MAX] { for s in [0u32, 1, 1 << 12, 1 << 31, u32::MAX] { for extra in [0usize, 1, 2] {
        let mut b = vec![1]; b.extend(c.to_be_bytes()); b.extend(s.to_be_bytes()); b.extend(vec![7; extra]); dec(&b)?; ctx.case(("header", c, s, extra), true);
    } } }
    for es in [vec![vec![]; 1 << 20], (0..1usize << 20).map(|i| vec![1u8; i % 2]).collect::<Vec<_>>(), vec![vec![5u8; 1 << 20], vec![6; 1 << 20]], vec![vec![1u8; 1 << 18], vec![]]] {
        at(format!("list of {} entries", es.len()));
        let b = serialize_chunk_blob(&es).map_err(|e| Fail(format!("serialize: {e}")))?;
        chk!(b == blob(&es), "large list serializes to another layout");
        match deserialize_chunk_blob(&b) { Ok(v) => chk!(v == es, "large list of {} entries decodes to another list", es.len()), Err(e) => fail!("list of {} entries refused: {e}", es.len()) }
        ctx.case(("large", es.len()), true);
    }
    for _ in 0..ctx.n(120_000) {
        let r = &mut ctx.rng;
        let n = match r.below(4) { 0 => r.us(3), 1 => 1 << r.below(7), _ => r.us(20) };
        let l = r.us(6);
        let mode = r.below(4);
        let es: Vec<Vec<u8>> = (0..n).map(|i| { let k = match mode { 0 => l, 1 if i == n - 1 => l + 1, 1 => l, _ => r.us(7) }; r.bytes(k) }).collect();
        at(format!("list {es:?}"));
        let b = match guard(|| serialize_chunk_blob(&es)) { Ok(Ok(b)) => b, x => fail!("serialize {es:?}: {x:?}") };
        chk!(b == blob(&es), "{es:?} serializes to {} instead of {}", hx(&b), hx(&blob(&es)));
        match guard(|| deserialize_chunk_blob(&b)) { Ok(Ok(v)) => chk!(v == es, "{es:?} decodes to {v:?} ({})", hx(&b)), x => fail!("{es:?}: blob {} refused: {x:?}", hx(&b)) }
        let mut x = b;
        for _ in 0..1 + r.below(2) { match r.below(5) {
            0 if !x.is_empty() => { let i = r.us(x.len()); x[i] = r.next() as u8; }
            1 if !x.is_empty() => { let i = r.us(x.len().min(10)); x[i] = x[i].wrapping_add(*r.pick(&[1u8, 255, 4])); }
            2 => { let k = r.us(x.len() + 1); x.truncate(k); }
            3 => { let k = 1 + r.us(5); let e = r.bytes(k); x.extend(e); }
            _ => { let k = r.us(24); x = r.bytes(k); if let Some(f) = x.first_mut() { *f &= 1; } for i in x.iter_mut() { if r.coin() { *i = 0; } } }
        } }
        dec(&x)?;
        ctx.case((es, x), n > 0);
    }
    Ok(())
}
fn main() { main_with(&[("C07", c07), ("C08", c08), ("C09", c09)]); }
