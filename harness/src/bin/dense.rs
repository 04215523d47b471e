//! C04 C05 C06: dense fixed-sized Merkle tree.
use grovedb_dense_fixed_sized_merkle_tree::{position_key, DenseFixedSizedMerkleTree as Tree, DenseTreeProof as Proof};
use grovedb_query::{Query, QueryItem as QI};
use verif_harness::*;
#[path = "../memctx.rs"]
mod memctx;
use memctx::MemCtx;

type H = [u8; 32];
fn b3(p: &[&[u8]]) -> H { let mut h = blake3::Hasher::new(); for x in p { h.update(x); } *h.finalize().as_bytes() }
/// the documented hash: H(H(value) || H(left) || H(right)), zero for absent nodes
fn root(vals: &[Vec<u8>], height: u8, pos: usize) -> H {
    let cap = (1usize << height) - 1;
    if pos >= cap || pos >= vals.len() { return [0; 32]; }
    b3(&[&b3(&[&vals[pos]]), &root(vals, height, 2 * pos + 1), &root(vals, height, 2 * pos + 2)])
}
fn value(r: &mut Rng) -> Vec<u8> { match r.below(9) { 0 => vec![], 1 => vec![0; 32], 2 => r.bytes(96), 3 => r.bytes(64), _ => { let n = 1 + r.us(5); r.bytes(n) } } }
fn filled(r: &mut Rng, max_h: u8) -> (MemCtx, u8, Vec<Vec<u8>>) {
    let h = 1 + r.below(max_h as u64) as u8;
    let cap = (1usize << h) - 1;
    let n = match r.below(6) { 0 => cap, 1 => cap - 1, 2 => 0, _ => r.us(cap + 1) };
    let m = MemCtx::default();
    let vals: Vec<_> = (0..n).map(|_| value(r)).collect();
    for (i, v) in vals.iter().enumerate() { m.0.data.borrow_mut().insert(position_key(i as u16).to_vec(), v.clone()); }
    (m, h, vals)
}
fn same(t: &Tree<MemCtx>, h: u8, vals: &[Vec<u8>], what: &str) -> R {
    chk!(t.height() == h && t.count() as usize == vals.len() && t.capacity() as usize == (1 << h) - 1, "{what}: height {} count {} of {}", t.height(), t.count(), vals.len());
    match t.root_hash().unwrap() { Ok(x) => chk!(x == root(vals, h, 0), "{what}: root {} but the values hash to {}", hx(&x), hx(&root(vals, h, 0))), Err(e) => fail!("{what}: root_hash: {e}") }
    let n = vals.len();
    let mut ps: Vec<usize> = if n < 40 { (0..n + 3).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
    ps.push(65535);
    for i in ps {
        if i > 65535 { continue; }
        match t.get(i as u16).unwrap() { Ok(g) => chk!(g.as_ref() == vals.get(i), "{what}: get({i}) = {g:?}, stored {:?}", vals.get(i)), Err(e) => fail!("{what}: get({i}): {e}") }
    }
    Ok(())
}
fn c04(ctx: &mut Ctx) -> R {
    ctx.rule("random operation sequences (insert, try_insert, reload from state, reset, injected storage failures) on trees of height 1..6, single operations on heights up to 16; non-trivial: at least two values or an injected failure");
    for h in [0u8, 17, 18, 32, 33, 64, 255] {
        at(format!("height {h}"));
        chk!(guard(|| Tree::new(h, MemCtx::default()).is_err()) == Ok(true), "height {h} accepted");
        chk!(guard(|| Tree::from_state(h, 0, MemCtx::default()).is_err()) == Ok(true), "height {h} accepted by from_state");
    }
    for h in 1..=16u8 {
        let cap = (1u32 << h) - 1;
        for c in [0, 1, cap / 2, cap - 1, cap, cap + 1, 65535] {
            if c > 65535 { continue; }
            at(format!("from_state({h}, {c})"));
            chk!(Tree::from_state(h, c as u16, MemCtx::default()).is_ok() == (c <= cap), "from_state({h}, {c})");
        }
    }
    let big: Vec<u8> = if ctx.thorough { vec![12, 14, 15, 16] } else { vec![12, 16] };
    for h in big {
        let cap = (1usize << h) - 1;
        for n in [cap, cap - 1, cap / 2, cap / 2 + 1] {
            let m = MemCtx::default();
            let mut vals: Vec<Vec<u8>> = (0..n).map(|i| (i as u32).to_be_bytes().to_vec()).collect();
            for (i, v) in vals.iter().enumerate() { m.0.data.borrow_mut().insert(position_key(i as u16).to_vec(), v.clone()); }
            at(format!("height {h} with {n} values"));
            let Ok(mut t) = Tree::from_state(h, n as u16, m.clone()) else { fail!("from_state({h},{n})") };
            same(&t, h, &vals, "large")?;
            match t.try_insert(&[9]).unwrap() {
                Ok(None) if n == cap => {}
                Ok(Some((rt, p))) if n < cap && p as usize == n => { vals.push(vec![9]); chk!(rt == root(&vals, h, 0), "root after insert into height {h}"); }
                x => fail!("try_insert at {n} of {cap}: {x:?}"),
            }
            same(&t, h, &vals, "large after insert")?;
            ctx.case(("large", h, n), true);
        }
    }
    for _ in 0..ctx.n(6_000) {
        let r = &mut ctx.rng;
        let (m, h, mut vals) = filled(r, 6);
        let mut t = Tree::from_state(h, vals.len() as u16, m.clone()).map_err(|e| Fail(format!("from_state: {e}")))?;
        if r.chance(1, 3) { m.0.data.borrow_mut().clear(); vals.clear(); t = Tree::new(h, m.clone()).map_err(|e| Fail(e.to_string()))?; }
        let cap = (1usize << h) - 1;
        let mut log = format!("height {h}, {} values", vals.len());
        let mut failed = 0;
        for _ in 0..1 + r.us(14) {
            let before = vals.clone();
            match r.below(12) {
                0 => { log.push_str("; reload"); at(log.clone()); t = Tree::from_state(h, vals.len() as u16, m.clone()).map_err(|e| Fail(format!("{log}: {e}")))?; }
                1 if r.chance(1, 4) => { log.push_str("; reset"); at(log.clone()); t.reset(); vals.clear(); }
                k => {
                    let v = value(r);
                    let inj = r.below(5);
                    if inj == 0 { m.0.fail_put.set(Some(0)); }
                    if inj == 1 { m.0.fail_get.set(Some(r.below(4) as u32)); }
                    log.push_str(&format!("; {}({}){}", if k % 2 == 0 { "insert" } else { "try_insert" }, hx(&v), match inj { 0 => " failing write", 1 => " failing read", _ => "" }));
                    at(log.clone());
                    let res: Result<Option<(H, u16)>, String> = if k % 2 == 0 {
                        t.insert(&v).unwrap().map(Some).map_err(|e| e.to_string())
                    } else { t.try_insert(&v).unwrap().map_err(|e| e.to_string()) };
                    let armed = m.0.fail_put.take().is_some() | m.0.fail_get.take().is_some();
                    let tripped = inj < 2 && !armed;
                    failed += tripped as u32;
                    match res {
                        Ok(Some((rt, p))) => {
                            chk!(!tripped, "{log}: succeeded although storage failed");
                            chk!(vals.len() < cap, "{log}: insert into a full tree succeeded");
                            chk!(p as usize == vals.len(), "{log}: stored at position {p}, expected {}", vals.len());
                            vals.push(v);
                            chk!(rt == root(&vals, h, 0), "{log}: returned root differs from the hash of the values");
                        }
                        Ok(None) => chk!(k % 2 == 1 && vals.len() == cap, "{log}: refused with room left"),
                        Err(e) => chk!(tripped || (k % 2 == 0 && vals.len() == cap), "{log}: {e}"),
                    }
                }
            }
            let _ = before;
            same(&t, h, &vals, &log)?;
        }
        ctx.case(log, vals.len() > 1 || failed > 0);
    }
    Ok(())
}
fn tamper(r: &mut Rng, p: &mut Proof, cap: usize, n: usize, vals: &[Vec<u8>], h: u8) -> String {
    let pos = |r: &mut Rng| match r.below(5) { 0 => r.us(cap + 1) as u16, 1 => n as u16, 2 => r.next() as u16, _ => r.us(n.max(1)) as u16 };
    let true_hash = |q: u16| root(vals, h, q as usize);
    match r.below(17) {
        0 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); p.entries[i].1 = value(r); "value changed".into() }
        1 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); p.entries[i].0 = pos(r); "entry moved".into() }
        2 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); p.entries.remove(i); "entry dropped".into() }
        3 => { let q = pos(r); p.entries.push((q, value(r))); "entry added".into() }
        4 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let (q, v) = p.entries.remove(i); p.node_value_hashes.push((q, b3(&[&v]))); "entry demoted to value hash".into() }
        5 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let (q, _) = p.entries.remove(i); p.node_hashes.push((q, true_hash(q))); "entry demoted to subtree hash".into() }
        6 => { let q = pos(r); p.node_hashes.push((q, true_hash(q))); "true subtree hash added".into() }
        7 => { let q = pos(r); p.entries.push((q, value(r))); let mut a = q; while a > 0 && r.coin() { a = (a - 1) / 2; } p.node_hashes.push((a, true_hash(a))); "false entry hidden below a subtree hash".into() }
        8 if !p.node_value_hashes.is_empty() => { let i = r.us(p.node_value_hashes.len()); p.node_value_hashes.remove(i); "value hash dropped".into() }
        9 if !p.node_hashes.is_empty() => { let i = r.us(p.node_hashes.len()); p.node_hashes[i].0 = pos(r); "subtree hash moved".into() }
        10 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let (q, v) = p.entries[i].clone(); p.entries.push((q, if r.coin() { v } else { value(r) })); "entry duplicated".into() }
        11 => { let q = pos(r); p.node_value_hashes.push((q, b3(&[vals.get(q as usize).map(|v| &v[..]).unwrap_or(b"x")]))); "value hash added".into() }
        12 => { p.node_hashes.clear(); p.node_hashes.push((0, true_hash(0))); let q = pos(r); if r.coin() { p.entries = vec![(q, value(r))]; } "root given as a subtree hash".into() }
        13 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let (q, v) = p.entries[i].clone(); p.node_value_hashes.insert(0, (q, b3(&[&v]))); p.entries[i].1 = value(r); "entry changed beside its true value hash".into() }
        14 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let (q, _) = p.entries[i]; p.node_hashes.insert(0, (q, true_hash(q))); p.entries[i].1 = value(r); "entry changed beside its true subtree hash".into() }
        15 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let x = p.entries[i].clone(); p.entries.insert(0, (x.0, value(r))); "false entry before the true one".into() }
        16 if !p.entries.is_empty() => { let i = r.us(p.entries.len()); let q = p.entries[i].0; p.entries[i].1 = [b3(&[vals.get(q as usize).map(|v| &v[..]).unwrap_or(b"")]), true_hash(q.saturating_mul(2).saturating_add(1)), true_hash(q.saturating_mul(2).saturating_add(2))].concat(); "value replaced by the node preimage".into() }
        _ => "unchanged".into(),
    }
}
fn c05(ctx: &mut Ctx) -> R {
    ctx.rule("honest proofs over trees of height 1..7 with 1..4 field mutations (moved, forged, duplicated, demoted, hidden entries), checked against the true root and against queries; mutated and random bytes for the decoder; non-trivial: a tampered proof");
    for _ in 0..ctx.n(150_000) {
        let r = &mut ctx.rng;
        let (m, h, vals) = { let mh = if r.chance(1, 6) { 7 } else { 4 }; filled(r, mh) };
        let (cap, n) = ((1usize << h) - 1, vals.len());
        let t = Tree::from_state(h, n as u16, m).map_err(|e| Fail(e.to_string()))?;
        let rt = root(&vals, h, 0);
        let ps: Vec<u16> = if n == 0 { vec![] } else { (0..r.us(4)).map(|_| r.us(n) as u16).collect() };
        at(format!("height {h} count {n} positions {ps:?}"));
        let mut p = Proof::generate(&t, &ps).unwrap().map_err(|e| Fail(format!("generate: {e}")))?;
        let mut how = vec![];
        for _ in 0..r.below(4) { how.push(tamper(r, &mut p, cap, n, &vals, h)); }
        if r.chance(1, 20) { for f in [&mut p.node_value_hashes, &mut p.node_hashes] { if r.coin() { for i in 0..cap + 1 { f.push((i as u16, [1; 32])); } } } }
        let desc = format!("height {h} count {n} values {:?} proof {p:?} ({how:?})", vals.iter().map(|v| hx(v)).collect::<Vec<_>>());
        at(desc.clone());
        // a query: sometimes the honest positions, sometimes others
        let mut q = Query::new();
        let qp: Vec<u16> = if r.coin() { ps.clone() } else { (0..r.us(3)).map(|_| r.us(n + 1) as u16).collect() };
        for x in &qp { q.items.push(QI::Key(x.to_be_bytes().to_vec())); }
        let res = guard(|| (p.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(&rt, h, n as u16), p.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, h, n as u16), p.verify_and_get_root::<Vec<(u16, Vec<u8>)>>(h, n as u16)));
        let (a, b, c) = match res { Ok(x) => x, Err(e) => fail!("verifier panicked: {e}: {desc}") };
        let sound = |es: &[(u16, Vec<u8>)]| -> Option<String> {
            let mut seen = std::collections::BTreeSet::new();
            for (q, v) in es {
                if vals.get(*q as usize) != Some(v) { return Some(format!("proved ({q}, {}) but the tree holds {:?}", hx(v), vals.get(*q as usize).map(|v| hx(v)))); }
                if !seen.insert(*q) { return Some(format!("position {q} returned twice")); }
            }
            None
        };
        if let Ok(es) = &a { if let Some(e) = sound(es) { fail!("{e}: {desc}") } }
        if let Ok((x, es)) = &c { if *x == rt { if let Some(e) = sound(es) { fail!("{e} (verify_and_get_root): {desc}") } } chk!((*x == rt) == a.is_ok(), "verify_against_expected_root disagrees with the computed root: {desc}"); } else { chk!(a.is_err(), "accepted by one verifier only: {desc}"); }
        if let Ok((x, es)) = &b { if *x == rt {
            if let Some(e) = sound(es) { fail!("{e} (verify_for_query): {desc}") }
            let want: std::collections::BTreeSet<u16> = qp.iter().copied().filter(|x| (*x as usize) < n).collect();
            let got: std::collections::BTreeSet<u16> = es.iter().map(|e| e.0).collect();
            chk!(want == got, "query {qp:?} answered with positions {got:?}: {desc}");
        } }
        // refusals
        let dup = |l: Vec<u16>| { let s: std::collections::BTreeSet<u16> = l.iter().copied().collect(); s.len() != l.len() };
        let (e, v, k): (Vec<u16>, Vec<u16>, Vec<u16>) = (p.entries.iter().map(|x| x.0).collect(), p.node_value_hashes.iter().map(|x| x.0).collect(), p.node_hashes.iter().map(|x| x.0).collect());
        let overlap = e.iter().any(|x| v.contains(x) || k.contains(x)) || v.iter().any(|x| k.contains(x));
        if dup(e.clone()) || dup(v.clone()) || dup(k.clone()) || overlap || e.iter().any(|x| *x as usize >= n) || e.len() > cap || v.len() > cap || k.len() > cap {
            chk!(c.is_err() && b.is_err(), "malformed proof (duplicate, overlapping, out of range or oversized positions) accepted: {desc}");
        }
        // arbitrary heights and counts never crash
        if r.chance(1, 4) { let (h2, n2) = (*r.pick(&[0u8, 1, 2, 15, 16, 17, 31, 32, 64, 255, h]), *r.pick(&[0u16, 1, 3, 65534, 65535, n as u16])); if let Err(e) = guard(|| { let _ = p.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, h2, n2); }) { fail!("verifier panicked for height {h2} count {n2}: {e}: {desc}") } 
            if !(1..=16).contains(&h2) || n2 as u32 > (1u32 << h2) - 1 { chk!(p.verify_and_get_root::<Vec<(u16, Vec<u8>)>>(h2, n2).is_err(), "height {h2} count {n2} accepted"); } }
        // bytes
        if r.chance(1, 3) {
            let mut x = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}")))?;
            for _ in 0..1 + r.below(3) { if x.is_empty() { break; } match r.below(3) { 0 => { let i = r.us(x.len()); x[i] = *r.pick(&[0, 1, 0x7f, 0x80, 250, 251, 252, 253, 255]); } 1 => { let i = r.us(x.len()); x[i] = x[i].wrapping_add(1); } _ => { let k = r.us(x.len()); x.truncate(k); } } }
            if r.chance(1, 5) { let k = r.us(40); x = r.bytes(k); }
            at(format!("proof bytes {} against height {h} count {n}", hx(&x)));
            match guard(|| Proof::decode_from_slice(&x).ok().map(|d| d.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(&rt, h, n as u16))) {
                Err(e) => fail!("panic {e} on proof bytes {} (height {h} count {n})", hx(&x)),
                Ok(Some(Ok(es))) => if let Some(e) = sound(&es) { fail!("{e}: bytes {} height {h} values {:?}", hx(&x), vals.iter().map(|v| hx(v)).collect::<Vec<_>>()) },
                _ => {}
            }
        }
        let tampered = how.iter().any(|x| x != "unchanged");
        ctx.case(desc, tampered);
    }
    Ok(())
}
fn num(b: &[u8]) -> Option<u32> { match b.len() { 1 => Some(b[0] as u32), 2 => Some(b[0] as u32 * 256 + b[1] as u32), _ => None } }
/// the positions an item selects, by definition
fn selects(i: &QI, p: u32) -> Option<bool> {
    Some(match i {
        QI::Key(k) => p == num(k)?,
        QI::Range(r) => num(&r.start)? <= p && p < num(&r.end)?,
        QI::RangeInclusive(r) => num(r.start())? <= p && p <= num(r.end())?,
        QI::RangeFull(_) => true,
        QI::RangeFrom(r) => p >= num(&r.start)?,
        QI::RangeTo(r) => p < num(&r.end)?,
        QI::RangeToInclusive(r) => p <= num(&r.end)?,
        QI::RangeAfter(r) => p > num(&r.start)?,
        QI::RangeAfterTo(r) => { let e = num(&r.end)?; p > num(&r.start)? && p < e }
        QI::RangeAfterToInclusive(r) => { let e = num(r.end())?; p > num(r.start())? && p <= e }
    })
}
fn bound(r: &mut Rng, n: usize) -> Vec<u8> {
    let v = match r.below(9) { 0 => 0, 1 => n as u16, 2 => (n as u16).wrapping_sub(1), 3 => (n as u16).saturating_add(1), 4 => u16::MAX, 5 => u16::MAX - 1, _ => r.us(n + 2) as u16 };
    if v < 256 && r.coin() { vec![v as u8] } else if r.chance(1, 60) { let k = *r.pick(&[0usize, 3, 8]); vec![0; k] } else { v.to_be_bytes().to_vec() }
}
fn item(r: &mut Rng, n: usize) -> QI {
    let (a, b) = (bound(r, n), bound(r, n));
    match r.below(10) { 0 => QI::Key(a), 1 => QI::Range(a..b), 2 => QI::RangeInclusive(a..=b), 3 => QI::RangeFull(..), 4 => QI::RangeFrom(a..), 5 => QI::RangeTo(..a), 6 => QI::RangeToInclusive(..=a), 7 => QI::RangeAfter(a..), 8 => QI::RangeAfterTo(a..b), _ => QI::RangeAfterToInclusive(a..=b) }
}
// values of many bytes: their proofs encode, decode and verify
fn c06_big(ctx: &mut Ctx) -> R {
    let top = if ctx.thorough { 30 << 20 } else { 4 << 20 };
    for lens in [[1usize, 70_000, 0, 20_000], [65_535, 65_536, 65_537, 3], [1 << 20, 0, 300_000, 1 << 20], [top, 2, 2 * top - 5000, 4000]] {
        let m = MemCtx::default();
        let vals: Vec<Vec<u8>> = (0..4).map(|i| vec![i as u8 + 1; lens[i]]).collect();
        for (i, v) in vals.iter().enumerate() { m.0.data.borrow_mut().insert(position_key(i as u16).to_vec(), v.clone()); }
        let t = Tree::from_state(3, 4, m).map_err(|e| Fail(e.to_string()))?;
        let rt = root(&vals, 3, 0);
        for set in 1u32..16 {
            let ps: Vec<u16> = (0..4u16).filter(|i| set >> i & 1 == 1).collect();
            let desc = format!("height 3, four values with lengths {lens:?} (value i repeats the byte i + 1), positions {ps:?}");
            at(desc.clone());
            let mut q = Query::new();
            for p in &ps { q.insert_key(p.to_be_bytes().to_vec()); }
            let p = Proof::generate_for_query(&t, &q).unwrap().map_err(|e| Fail(format!("generate: {e}: {desc}")))?;
            let b = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}: {desc}")))?;
            let d = Proof::decode_from_slice(&b).map_err(|e| Fail(format!("honest proof does not decode: {e}: {desc}")))?;
            let (x, mut es) = d.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, 3, 4).map_err(|e| Fail(format!("honest proof refused: {e}: {desc}")))?;
            es.sort();
            chk!(x == rt && es == ps.iter().map(|p| (*p, vals[*p as usize].clone())).collect::<Vec<_>>(), "honest proof yields another root or other values: {desc}");
            ctx.case(desc, true);
        }
    }
    Ok(())
}
fn c06(ctx: &mut Ctx) -> R {
    c06_big(ctx)?;
    ctx.rule("trees of height 1..7 (and height 16 at the ends of the position range), queries of 0..3 items of every kind with one and two byte bounds around the count; non-trivial: the query selects something");
    for k in 0..ctx.n(60_000) {
        let r = &mut ctx.rng;
        let (m, h, vals) = if k % 20_000 == 19_999 {
            let n = 65535 - r.us(3);
            let m = MemCtx::default();
            let vals: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8]).collect();
            for (i, v) in vals.iter().enumerate() { m.0.data.borrow_mut().insert(position_key(i as u16).to_vec(), v.clone()); }
            (m, 16, vals)
        } else { let mh = if r.chance(1, 8) { 7 } else { 4 }; filled(r, mh) };
        let n = vals.len();
        let t = Tree::from_state(h, n as u16, m).map_err(|e| Fail(e.to_string()))?;
        let mut q = Query::new();
        for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) { let i = item(r, n); q.items.push(i); }
        q.left_to_right = r.coin();
        let desc = format!("height {h} count {n} query {:?}", q.items);
        at(desc.clone());
        let mut want = vec![]; let mut bad = false;
        for p in 0..n as u32 { let mut any = false; for i in &q.items { match selects(i, p) { Some(x) => any |= x, None => bad = true } } if any { want.push((p as u16, vals[p as usize].clone())); } }
        if n == 0 { for i in &q.items { let mut bs: Vec<&[u8]> = vec![]; match i { QI::Key(k) => bs.push(k), QI::Range(r) => { bs.push(&r.start); bs.push(&r.end) } QI::RangeInclusive(r) | QI::RangeAfterToInclusive(r) => { bs.push(r.start()); bs.push(r.end()) } QI::RangeFull(_) => {} QI::RangeFrom(r) | QI::RangeAfter(r) => bs.push(&r.start), QI::RangeTo(r) => bs.push(&r.end), QI::RangeToInclusive(r) => bs.push(&r.end), QI::RangeAfterTo(r) => { bs.push(&r.start); bs.push(&r.end) } } bad |= bs.iter().any(|b| num(b).is_none()); } }
        else if !bad { for i in &q.items { bad |= selects(i, 0).is_none() || selects(i, 65535).is_none(); } }
        if bad { // an ill-formed bound: refused without crashing
            match guard(|| Proof::generate_for_query(&t, &q).unwrap().is_err()) { Ok(true) => {} Ok(false) => {} Err(e) => fail!("panic {e}: {desc}") }
            ctx.case(desc, false);
            continue;
        }
        let p = match guard(|| Proof::generate_for_query(&t, &q).unwrap()) { Err(e) => fail!("generation panicked: {e}: {desc}"), Ok(Err(e)) => fail!("generation failed: {e}: {desc}"), Ok(Ok(p)) => p };
        let rt = root(&vals, h, 0);
        let check = |p: &Proof, what: &str| -> R {
            match guard(|| p.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, h, n as u16)) {
                Err(e) => fail!("{what}: verification panicked: {e}: {desc}"),
                Ok(Err(e)) => fail!("{what}: honest proof refused: {e}: {desc}"),
                Ok(Ok((x, mut es))) => { es.sort(); chk!(x == rt, "{what}: honest proof yields another root: {desc}"); chk!(es == want, "{what}: returned positions {:?}, the query selects {:?}: {desc}", es.iter().map(|e| e.0).collect::<Vec<_>>(), want.iter().map(|e| e.0).collect::<Vec<_>>()); }
            }
            match p.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(&rt, h, n as u16) { Ok(mut es) => { es.sort(); chk!(es == want, "{what}: entries differ: {desc}"); } Err(e) => fail!("{what}: {e}: {desc}") }
            Ok(())
        };
        check(&p, "proof")?;
        let b = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}: {desc}")))?;
        let d = Proof::decode_from_slice(&b).map_err(|e| Fail(format!("decode: {e}: {desc}")))?;
        chk!(d.entries == p.entries && d.node_value_hashes == p.node_value_hashes && d.node_hashes == p.node_hashes, "decoded proof differs: {desc}");
        if r.chance(1, 4) { check(&d, "decoded proof")?; }
        // explicit positions, duplicates allowed, out of range refused
        if n > 0 && n < 200 {
            let mut ps: Vec<u16> = want.iter().map(|e| e.0).collect();
            let mut z = ps.clone(); z.reverse(); ps.extend(z);
            match Proof::generate(&t, &ps).unwrap() { Ok(g) => check(&g, "proof by positions")?, Err(e) => fail!("generate({ps:?}): {e}: {desc}") }
            let bad = (n + r.us(4)) as u16;
            chk!(Proof::generate(&t, &[bad]).unwrap().is_err(), "proof of absent position {bad}: {desc}");
        }
        ctx.case(desc, !want.is_empty());
    }
    Ok(())
}
fn main() { main_with(&[("C04", c04), ("C05", c05), ("C06", c06)]); }
