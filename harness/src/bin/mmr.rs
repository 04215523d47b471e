//! C01 C02 C03: Merkle Mountain Range.
use grovedb_merkle_mountain_range::*;
use grovedb_costs::{CostResult, CostsExt, OperationCost};
use verif_harness::*;
#[path = "../giant.rs"]
mod giant;
use giant::Giant;

type H = [u8; 32];
fn lh(v: &[u8]) -> H {
    let mut b = vec![0u8];
    b.extend_from_slice(v);
    *blake3::hash(&b).as_bytes()
}
fn mg(a: &H, b: &H) -> H {
    let mut x = vec![1u8];
    x.extend_from_slice(a);
    x.extend_from_slice(b);
    *blake3::hash(&x).as_bytes()
}

/// Reference MMR, straight from the definition.
struct Ref {
    nodes: Vec<(H, u8)>, // position -> (hash, height)
    peaks: Vec<(H, u8, u64)>,
    leaf_pos: Vec<u64>,
    roots: Vec<H>,      // root after each push
    sizes: Vec<u64>,    // size after each push
    merges: Vec<u32>,
}
fn bag(peaks: &[(H, u8, u64)]) -> H {
    let mut acc = peaks[peaks.len() - 1].0;
    for p in peaks[..peaks.len() - 1].iter().rev() {
        acc = mg(&acc, &p.0);
    }
    acc
}
impl Ref {
    fn new() -> Self {
        Ref { nodes: vec![], peaks: vec![], leaf_pos: vec![], roots: vec![], sizes: vec![], merges: vec![] }
    }
    fn push(&mut self, v: &[u8]) {
        let h = lh(v);
        self.leaf_pos.push(self.nodes.len() as u64);
        self.peaks.push((h, 0, self.nodes.len() as u64));
        self.nodes.push((h, 0));
        let mut m = 0;
        while self.peaks.len() >= 2 && self.peaks[self.peaks.len() - 1].1 == self.peaks[self.peaks.len() - 2].1 {
            let r = self.peaks.pop().unwrap();
            let l = self.peaks.pop().unwrap();
            let h = mg(&l.0, &r.0);
            self.peaks.push((h, l.1 + 1, self.nodes.len() as u64));
            self.nodes.push((h, l.1 + 1));
            m += 1;
        }
        self.merges.push(m);
        self.sizes.push(self.nodes.len() as u64);
        self.roots.push(bag(&self.peaks));
    }
}
fn val(i: u64) -> Vec<u8> {
    match i % 4 {
        0 => i.to_be_bytes().to_vec(),
        1 => vec![i as u8; (i % 70) as usize],
        2 => format!("leaf-{i}").into_bytes(),
        _ => vec![],
    }
}

fn c03(ctx: &mut Ctx) -> R {
    ctx.rule("every leaf count up to a bound against a node-by-node construction, plus u128 closed forms at 64-bit boundary values; non-trivial: leaf count > 0");
    let lim = ctx.n(6000) as u64;
    let (mut pos, mut stack) = (0u64, Vec::<u8>::new());
    chk!(mmr_size_to_leaf_count(0) == 0, "mmr_size_to_leaf_count(0) = {}", mmr_size_to_leaf_count(0));
    for i in 0..lim {
        at(format!("leaf index {i}"));
        ctx.case(i, true);
        chk!(leaf_index_to_pos(i) == pos, "leaf_index_to_pos({i}) = {}, the {i}-th pushed leaf sits at {pos}", leaf_index_to_pos(i));
        let mut merges = 0u32;
        stack.push(0);
        pos += 1;
        while stack.len() >= 2 && stack[stack.len() - 1] == stack[stack.len() - 2] {
            let h = stack.pop().unwrap();
            stack.pop();
            stack.push(h + 1);
            pos += 1;
            merges += 1;
        }
        chk!(leaf_index_to_mmr_size(i) == pos, "leaf_index_to_mmr_size({i}) = {}, expected {pos}", leaf_index_to_mmr_size(i));
        chk!(mmr_size_to_leaf_count(pos) == i + 1, "mmr_size_to_leaf_count({pos}) = {}, expected {}", mmr_size_to_leaf_count(pos), i + 1);
        chk!(hash_count_for_push(i) == merges + 1, "hash_count_for_push({i}) = {}, expected {}", hash_count_for_push(i), merges + 1);
    }
    for k in 0..ctx.n(40_000) {
        let i = if k < 63 { (1u64 << k) - 1 } else if k < 126 { 1u64 << (k - 63) } else { ctx.rng.edge() } & ((1u64 << 63) - 1);
        at(format!("leaf index {i}"));
        ctx.case(i, i > 0);
        let p = 2 * (i as u128) - i.count_ones() as u128;
        let s = 2 * (i as u128 + 1) - (i + 1).count_ones() as u128;
        chk!(leaf_index_to_pos(i) as u128 == p, "leaf_index_to_pos({i}) = {}, expected {p}", leaf_index_to_pos(i));
        chk!(leaf_index_to_mmr_size(i) as u128 == s, "leaf_index_to_mmr_size({i}) = {}, expected {s}", leaf_index_to_mmr_size(i));
        chk!(mmr_size_to_leaf_count(s as u64) == i + 1, "mmr_size_to_leaf_count({s}) = {}, expected {}", mmr_size_to_leaf_count(s as u64), i + 1);
        chk!(hash_count_for_push(i) == i.trailing_ones() + 1, "hash_count_for_push({i})");
        // keys are injective and sized keys refuse positions that do not fit
        let k8 = mmr_node_key(i);
        let k8b = mmr_node_key(i ^ (1 << ctx.rng.below(62)));
        chk!(k8 != k8b, "mmr_node_key maps two positions to one key near {i}");
        match (mmr_node_key_sized(i, MmrKeySize::U32), i < 1 << 31) {
            (Ok(_), false) => fail!("mmr_node_key_sized({i}, U32) accepted a position beyond 2^31"),
            (Err(e), true) => fail!("mmr_node_key_sized({i}, U32) refused: {e}"),
            (Ok(a), true) => {
                let j = (i ^ (1 << ctx.rng.below(31))) & 0x7fff_ffff;
                if j != i {
                    let b = mmr_node_key_sized(j, MmrKeySize::U32);
                    if let Ok(b) = b { chk!(a.as_ref() != b.as_ref(), "sized key collision {i} {j}"); }
                }
            }
            _ => {}
        }
    }
    // big-endian order: position order equals key order
    for _ in 0..ctx.n(5000) {
        let (a, b) = (ctx.rng.edge() & ((1 << 62) - 1), ctx.rng.edge() & ((1 << 62) - 1));
        chk!(a.cmp(&b) == mmr_node_key(a).cmp(&mmr_node_key(b)), "mmr_node_key order differs from position order for {a} {b}");
    }
    Ok(())
}

/// reads of a range too large to build
struct Virtual<'a>(&'a Giant);
impl<'a> MMRStoreReadOps for Virtual<'a> {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, Error> { Ok(self.0.node(pos).map(gnode)).wrap_with_cost(OperationCost::default()) }
}
fn gnode(x: (H, Option<Vec<u8>>)) -> MmrNode { match x.1 { Some(v) => MmrNode::leaf(v), None => MmrNode::internal(x.0) } }
fn giant(r: &mut Rng) -> Giant {
    let n = match r.below(5) { 0 => 1 + r.below(40), 1 => { let b = r.below(60); (1u64 << b).wrapping_add(r.below(5)).saturating_sub(2).max(1) } 2 => (1 << 61) - 1 - r.below(3), _ => 1 + (r.next() >> (3 + r.below(58))) };
    let s = match r.below(3) { 0 => n - 1, 1 => 0, _ => r.below(n) };
    Giant::new(n, s, Box::new(|m, sp| if sp { b"special".to_vec() } else { vec![m as u8; m as usize + 1] }))
}
fn gidx(r: &mut Rng, g: &Giant) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for _ in 0..1 + r.below(5) {
        let near = v.last().copied().unwrap_or(g.special);
        let i = match r.below(7) { 0 => g.special, 1 => g.special ^ 1, 2 => near ^ (1 << r.below(61)), 3 => near.wrapping_add(1), 4 => g.leaves - 1, 5 => r.edge(), _ => r.below(g.leaves) };
        if i < g.leaves && !v.contains(&i) { v.push(i); }
    }
    if v.is_empty() { v.push(g.special); }
    v
}
/// ranges of up to 2^61 leaves
fn c02_giant(ctx: &mut Ctx) -> R {
    for k in 0..ctx.n(1500) {
        let g = giant(&mut ctx.rng);
        let (n, size, root) = (g.leaves, Giant::size(g.leaves), g.root());
        let idx = gidx(&mut ctx.rng, &g);
        let what = format!("range of {n} leaves (leaf i holds i mod 4, leaf {} is special), leaves {idx:?}", g.special);
        at(what.clone());
        let mut m = MMR::new(size, Virtual(&g));
        let rt = m.get_root().value.map_err(|e| Fail(format!("get_root: {e}: {what}")))?;
        chk!(rt.hash() == root, "get_root of a {what} is wrong");
        let p = MmrTreeProof::generate(size, &idx, |q| Ok(g.node(q).map(gnode))).map_err(|e| Fail(format!("generate: {e}: {what}")))?;
        let want: Vec<(u64, Vec<u8>)> = idx.iter().map(|&i| (i, g.leaf(i))).collect();
        let got = p.verify(&root).map_err(|e| Fail(format!("honest proof rejected: {e}: {what}")))?;
        chk!(got == want, "honest proof returned {got:?}: {what}");
        // by position, in any order and with repeats
        let mut ps: Vec<u64> = idx.iter().map(|i| Giant::leaf_pos(*i)).collect();
        let set: std::collections::BTreeSet<u64> = ps.iter().copied().collect();
        for _ in 0..ctx.rng.below(3) { let x = *ctx.rng.pick(&ps); ps.push(x); }
        ctx.rng.shuffle(&mut ps);
        let pr = m.gen_proof(ps.clone()).value.map_err(|e| Fail(format!("gen_proof of positions {ps:?}: {e}: {what}")))?;
        let ls: Vec<(u64, MmrNode)> = set.iter().map(|q| (*q, gnode(g.node(*q).unwrap()))).collect();
        let ok = pr.verify(MmrNode::internal(root), ls);
        chk!(matches!(ok, Ok(true)), "honest proof of positions {ps:?} refused: {ok:?}: {what}");
        let beyond = size + ctx.rng.below(9);
        if Giant::place(beyond).0 == 0 {
            let mut bad = ps.clone(); bad.push(beyond); if ctx.rng.coin() { bad.retain(|q| *q == beyond || *q == ps[0]); }
            chk!(m.gen_proof(bad.clone()).value.is_err(), "gen_proof of positions {bad:?} in a range of {size} nodes succeeds");
        }
        // the next leaves
        let more = 1 + ctx.rng.below(4);
        for i in n..n + more {
            let q = m.push(MmrNode::leaf(g.leaf(i))).value.map_err(|e| Fail(format!("push {i}: {e}: {what}")))?;
            chk!(q == Giant::leaf_pos(i) && m.mmr_size == Giant::size(i + 1), "push of leaf {i} gives position {q}, size {}: {what}", m.mmr_size);
            let rt = m.get_root().value.map_err(|e| Fail(format!("get_root after push: {e}: {what}")))?;
            chk!(rt.hash() == g.root_of(i + 1), "root after pushing leaf {i} is wrong: {what}");
        }
        ctx.case(("giant", k, n, idx), true);
    }
    // short position lists, with repeats and positions that hold no leaf
    let g = Giant::new(6, 2, Box::new(|m, sp| if sp { b"special".to_vec() } else { vec![m as u8] }));
    for n in 1..=6u64 {
        let size = Giant::size(n);
        let root = g.root_of(n);
        for code in 0..12u64.pow(3) {
            let ps: Vec<u64> = [code % 12, code / 12 % 12, code / 144].into_iter().filter(|x| *x != 11).collect();
            at(format!("positions {ps:?} of {size}"));
            let m = MMR::new(size, Virtual(&g));
            let ok = !ps.is_empty() && ps.iter().all(|q| *q < size && Giant::place(*q).0 == 0);
            let got = m.gen_proof(ps.clone()).value;
            chk!(got.is_ok() == ok, "gen_proof of positions {ps:?} in a range of {size} nodes: {}", if ok { "refused" } else { "succeeds" });
            if let Ok(p) = got {
                let set: std::collections::BTreeSet<u64> = ps.iter().copied().collect();
                let v = p.verify(MmrNode::internal(root), set.iter().map(|q| (*q, gnode(g.node(*q).unwrap()))).collect());
                chk!(matches!(v, Ok(true)), "honest proof of positions {ps:?} of {size} refused: {v:?}");
            }
            ctx.case(("short", n, code), ok);
        }
    }
    Ok(())
}
/// false leaves of ranges of up to 2^61 leaves
fn c01_giant(ctx: &mut Ctx) -> R {
    for k in 0..ctx.n(1500) {
        let g = giant(&mut ctx.rng);
        let (n, size, root) = (g.leaves, Giant::size(g.leaves), g.root());
        let idx = gidx(&mut ctx.rng, &g);
        let p = MmrTreeProof::generate(size, &idx, |q| Ok(g.node(q).map(gnode))).map_err(|e| Fail(format!("generate: {e}")))?;
        let mut leaves = p.leaves().to_vec();
        let mut items = p.proof_items().to_vec();
        let mut sz = size;
        for _ in 0..1 + ctx.rng.below(3) {
            let r = &mut ctx.rng;
            let i = r.us(leaves.len().max(1));
            match r.below(8) {
                0 => if let Some(l) = leaves.get_mut(i) { l.1 = b"forged".to_vec(); }
                1 => if let Some(l) = leaves.get_mut(i) { l.0 = match r.below(4) { 0 => l.0.wrapping_add(1), 1 => l.0 ^ (1 << r.below(62)), 2 => l.0.wrapping_add(4), _ => r.edge() }; }
                2 => { let x = r.below(n); let at = r.us(leaves.len() + 1); leaves.insert(at, (x, b"special".to_vec())); }
                3 => if !items.is_empty() { let j = r.us(items.len()); items.remove(j); }
                4 => { let j = r.us(items.len() + 1); let x = if r.coin() && !items.is_empty() { *r.pick(&items) } else { root }; items.insert(j, x); }
                5 => if items.len() > 1 { let (a, b) = (r.us(items.len()), r.us(items.len())); items.swap(a, b); }
                6 => if leaves.len() > 1 { leaves.remove(i); }
                _ => sz = match r.below(4) { 0 => Giant::size(n / 2), 1 => size.wrapping_add(1), 2 => Giant::size(n + 1), _ => r.edge() >> 1 },
            }
        }
        let what = format!("proof of size {sz}, leaves {leaves:?}, items {:?} against the root of a range of {n} leaves (leaf i holds i mod 4, leaf {} is special)", items.iter().map(|h| hx(&h[..4])).collect::<Vec<_>>(), g.special);
        at(what.clone());
        let f = MmrTreeProof::new(sz, leaves.clone(), items.clone());
        if sz == size { if let Ok(got) = f.verify(&root) { for (i, v) in &got { chk!(*i < n && *v == g.leaf(*i), "accepted false leaf {i} = {}: {what}", hx(v)); } } } else { let _ = guard(|| f.verify(&root).is_ok()).map_err(|e| Fail(format!("verifier panicked: {e}: {what}")))?; }
        ctx.case(("giant", k), true);
    }
    Ok(())
}
// leaves of many bytes: their proofs encode, decode and verify
fn c02_big(ctx: &mut Ctx) -> R {
    let top = if ctx.thorough { 30 << 20 } else { 4 << 20 };
    for lens in [[1usize, 70_000, 0, 20_000], [65_535, 65_536, 65_537, 3], [1 << 20, 0, 300_000, 1 << 20], [top, 2, 2 * top - 5000, 4000]] {
        let leaf = |i: u64| vec![i as u8 + 1; lens[i as usize]];
        let store = MemStore::default();
        let mut m = MMR::new(0, &store);
        let mut r = Ref::new();
        for i in 0..4 { m.push(MmrNode::leaf(leaf(i))).value.map_err(|e| Fail(format!("push of {} bytes: {e}", lens[i as usize])))?; r.push(&leaf(i)); }
        m.commit().value.map_err(|e| Fail(format!("commit: {e}")))?;
        for set in 1u32..16 {
            let idx: Vec<u64> = (0..4).filter(|i| set >> i & 1 == 1).collect();
            let what = format!("leaves {idx:?} of four with lengths {lens:?} (leaf i repeats the byte i + 1)");
            at(what.clone());
            let p = MmrTreeProof::generate(r.sizes[3], &idx, |q| (&store).element_at_position(q).value).map_err(|e| Fail(format!("generate: {e}: {what}")))?;
            let enc = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}: {what}")))?;
            let d = MmrTreeProof::decode_from_slice(&enc).map_err(|e| Fail(format!("honest proof does not decode: {e}: {what}")))?;
            let got = d.verify(&r.roots[3]).map_err(|e| Fail(format!("honest proof refused: {e}: {what}")))?;
            chk!(got == idx.iter().map(|i| (*i, leaf(*i))).collect::<Vec<_>>(), "honest proof returns other leaves: {what}");
            ctx.case(("big", lens, set), true);
        }
    }
    Ok(())
}
fn c02(ctx: &mut Ctx) -> R {
    c02_giant(ctx)?;
    c02_big(ctx)?;
    ctx.rule("leaf sequences pushed in every split of push/commit batches; all leaf subsets for small sizes, random ones above; non-trivial: a distinct (size, subset)");
    let nmax = if ctx.thorough { 600 } else { 200 };
    let store = MemStore::default();
    let mut r = Ref::new();
    let mut mmr = MMR::new(0, &store);
    for i in 0..nmax as u64 {
        at(format!("push leaf {i}"));
        let v = val(i);
        r.push(&v);
        let res = mmr.push(MmrNode::leaf(v));
        let cost = res.cost.hash_node_calls;
        let p = match res.value { Ok(p) => p, Err(e) => fail!("push of leaf {i} failed: {e}") };
        chk!(p == r.leaf_pos[i as usize], "push of leaf {i} returned position {p}, expected {}", r.leaf_pos[i as usize]);
        chk!(cost <= hash_count_for_push(i), "push of leaf {i} charged {cost} hashes, expected at most {}", hash_count_for_push(i));
        chk!(mmr.mmr_size == r.sizes[i as usize], "mmr_size after leaf {i} is {}", mmr.mmr_size);
        if ctx.rng.chance(1, 3) {
            mmr.commit().value.map_err(|e| Fail(format!("commit: {e}")))?;
        }
        if ctx.rng.chance(1, 4) {
            mmr.commit().value.map_err(|e| Fail(format!("commit: {e}")))?;
            mmr = MMR::new(mmr.mmr_size, &store);
        }
        let root = mmr.get_root().value.map_err(|e| Fail(format!("get_root: {e}")))?;
        chk!(root.hash() == r.roots[i as usize], "root after {} leaves differs from the fold of the leaf sequence", i + 1);
        ctx.case(("push", i), true);
    }
    mmr.commit().value.map_err(|e| Fail(format!("commit: {e}")))?;
    for (p, (h, ht)) in r.nodes.iter().enumerate() {
        let n = (&store).element_at_position(p as u64).value.map_err(|e| Fail(format!("read: {e}")))?;
        match n {
            None => fail!("node {p} missing after commit"),
            Some(n) => {
                chk!(n.hash() == *h, "stored node {p} (height {ht}) has a wrong hash");
                chk!(n.value().is_some() == (*ht == 0), "stored node {p}: value presence wrong");
                let ser = n.serialize().map_err(|e| Fail(format!("serialize {p}: {e}")))?;
                chk!(ser.len() as u64 == n.serialized_size(), "serialized_size of node {p}");
                let back = MmrNode::deserialize(&ser).map_err(|e| Fail(format!("deserialize {p}: {e}")))?;
                chk!(back.hash() == n.hash() && back.value() == n.value(), "node {p} does not survive serialization");
            }
        }
    }
    for i in 0..ctx.n(300) as u64 {
        let n = ctx.rng.us(12);
        let v = ctx.rng.bytes(n);
        let h: H = if ctx.rng.coin() { lh(&v) } else { ctx.rng.bytes(32).try_into().unwrap() };
        let flag = ctx.rng.below(4) as u8;
        let mut b = vec![flag];
        b.extend(h);
        if flag > 0 || ctx.rng.chance(1, 4) { b.extend((v.len() as u32).to_be_bytes()); b.extend(&v); }
        match ctx.rng.below(5) { 0 => { b.pop(); } 1 => b.push(7), 2 => { let k = ctx.rng.us(b.len()); b[k] ^= 1 << ctx.rng.below(8); } 3 => { let k = ctx.rng.us(b.len()); b.truncate(k); } _ => {} }
        at(format!("MmrNode::deserialize({})", hx(&b)));
        // the documented layout, read strictly
        let want = match b.first() {
            Some(0) => b.len() == 33,
            Some(f @ (1 | 2)) => b.len() >= 37 && b.len() as u64 == 37 + u32::from_be_bytes(b[33..37].try_into().unwrap()) as u64 && (*f == 2 || b[1..33] == lh(&b[37..])),
            _ => false,
        };
        let got = MmrNode::deserialize(&b);
        chk!(got.is_ok() == want, "MmrNode::deserialize({}) is {:?}", hx(&b), got.map(|n| n.hash()));
        if let Ok(n) = got {
            chk!(n.hash()[..] == b[1..33] && n.value() == if b[0] == 0 { None } else { Some(&b[37..]) } && n.serialize().ok() == Some(b.clone()) && n.serialized_size() == b.len() as u64, "stored node {} read back as another node", hx(&b));
        }
        ctx.case(("node", i, b), want);
    }
    let node_at = |p: u64| (&store).element_at_position(p).value;
    let one = |ctx: &mut Ctx, n: u64, idx: Vec<u64>| -> R {
        let size = r.sizes[n as usize - 1];
        let root = r.roots[n as usize - 1];
        at(format!("prove leaves {idx:?} of {n}"));
        let p = MmrTreeProof::generate(size, &idx, node_at).map_err(|e| Fail(format!("generate({n} leaves, {idx:?}): {e}")))?;
        let want: Vec<(u64, Vec<u8>)> = idx.iter().map(|&i| (i, val(i))).collect();
        let got = p.verify(&root).map_err(|e| Fail(format!("honest proof of {idx:?} in {n} leaves rejected: {e}")))?;
        chk!(got == want, "honest proof of {idx:?} in {n} leaves returned {got:?}");
        let (rt, got) = p.verify_and_get_root().map_err(|e| Fail(format!("verify_and_get_root {idx:?} of {n}: {e}")))?;
        chk!(rt == root && got == want, "verify_and_get_root of {idx:?} in {n} leaves: wrong root or leaves");
        let enc = p.encode_to_vec().map_err(|e| Fail(format!("encode: {e}")))?;
        let d = MmrTreeProof::decode_from_slice(&enc).map_err(|e| Fail(format!("decode: {e}")))?;
        chk!(d.mmr_size() == p.mmr_size() && d.leaves() == p.leaves() && d.proof_items() == p.proof_items(), "proof encoding does not round-trip for {idx:?} of {n}");
        ctx.case((n, idx), true);
        Ok(())
    };
    let full = if ctx.thorough { 11 } else { 9 };
    for n in 1..=full as u64 {
        for m in 1u32..(1 << n) {
            let idx: Vec<u64> = (0..n).filter(|i| m >> i & 1 == 1).collect();
            one(ctx, n, idx)?;
        }
    }
    for _ in 0..ctx.n(2500) {
        let n = 1 + ctx.rng.below(nmax as u64);
        let mut idx: Vec<u64> = (0..n).collect();
        ctx.rng.shuffle(&mut idx);
        let k = 1 + ctx.rng.us((n as usize).min(9));
        idx.truncate(k);
        one(ctx, n, idx)?;
    }
    for n in 1..=nmax as u64 {
        one(ctx, n, (0..n).collect())?;
        one(ctx, n, vec![n - 1])?;
        one(ctx, n, vec![0])?;
    }
    // extension of a proof of the last leaf, and incremental verification
    for n in 1..nmax as u64 {
        let size = r.sizes[n as usize - 1];
        let m = MMR::new(size, &store);
        at(format!("extend {n}"));
        let lp = r.leaf_pos[n as usize - 1];
        let pr = m.gen_proof(vec![lp]).value.map_err(|e| Fail(format!("gen_proof: {e}")))?;
        let nr = pr
            .calculate_root_with_new_leaf(vec![(lp, MmrNode::leaf(val(n - 1)))], r.leaf_pos[n as usize], MmrNode::leaf(val(n)), r.sizes[n as usize])
            .map_err(|e| Fail(format!("calculate_root_with_new_leaf at {n}: {e}")))?;
        chk!(nr.hash() == r.roots[n as usize], "calculate_root_with_new_leaf for {n}+1 leaves computes a wrong root");
        let k = 1 + ctx.rng.below((nmax as u64 - n).min(20));
        let tot = n + k;
        let m = MMR::new(r.sizes[tot as usize - 1], &store);
        let ps: Vec<u64> = (n..tot).map(|i| r.leaf_pos[i as usize]).collect();
        let pr = m.gen_proof(ps).value.map_err(|e| Fail(format!("gen_proof: {e}")))?;
        let leaves: Vec<_> = (n..tot).map(|i| MmrNode::leaf(val(i))).collect();
        let ok = pr.verify_incremental(MmrNode::internal(r.roots[tot as usize - 1]), MmrNode::internal(r.roots[n as usize - 1]), leaves.clone());
        chk!(matches!(ok, Ok(true)), "verify_incremental refused the honest extension {n} -> {tot}: {ok:?}");
        let mut bad = leaves.clone();
        let j = ctx.rng.us(bad.len());
        bad[j] = MmrNode::leaf(b"forged".to_vec());
        let ok = pr.verify_incremental(MmrNode::internal(r.roots[tot as usize - 1]), MmrNode::internal(r.roots[n as usize - 1]), bad);
        chk!(!matches!(ok, Ok(true)), "verify_incremental accepted a replaced leaf {n} -> {tot}");
        let ok = pr.verify_incremental(MmrNode::internal(r.roots[tot as usize - 1]), MmrNode::internal(lh(b"x")), leaves);
        chk!(!matches!(ok, Ok(true)), "verify_incremental accepted a wrong previous root {n} -> {tot}");
        ctx.case(("inc", n, k), true);
    }
    Ok(())
}

/// the position-level proof: an accepted claim is a leaf of the accumulator at that position
fn judge_pos(r: &Ref, n: u64, root: &H, size: u64, leaves: &[(u64, Vec<u8>)], items: &[H]) -> R {
    let p = MerkleProof::new(size, items.iter().map(|h| MmrNode::internal(*h)).collect());
    let desc = || format!("MerkleProof{{mmr_size:{size}, items:{:?}}} with leaves at positions {leaves:?} against the root of {n} leaves", items.iter().map(|h| hx(&h[..4])).collect::<Vec<_>>());
    at(desc());
    if let Ok(true) = p.verify(MmrNode::internal(*root), leaves.iter().map(|(q, v)| (*q, MmrNode::leaf(v.clone()))).collect()) {
        // several entries for one position: the first is the one that counts, as in MmrTreeProof
        for (k, (q, v)) in leaves.iter().enumerate() {
            if leaves[..k].iter().any(|l| l.0 == *q) { continue; }
            chk!((0..n as usize).any(|i| r.leaf_pos[i] == *q && *v == val(i as u64)), "accepted a false leaf at position {q}: {}", desc());
        }
    }
    Ok(())
}
fn judge(n: u64, root: &H, size: u64, leaves: &[(u64, Vec<u8>)], items: &[H], how: &str) -> R {
    let p = MmrTreeProof::new(size, leaves.to_vec(), items.to_vec());
    let desc = || format!("MmrTreeProof{{mmr_size:{size}, leaves:{leaves:?}, proof_items:{:?}}} ({how}) against the root of {n} leaves", items.iter().map(|h| hx(&h[..4])).collect::<Vec<_>>());
    at(desc());
    if let Ok(got) = p.verify(root) {
        for (i, v) in &got {
            chk!(*i < n && *v == val(*i), "accepted false leaf {i}={} : {}", hx(v), desc());
        }
        let want: std::collections::BTreeSet<u64> = leaves.iter().map(|l| l.0).collect();
        chk!(want.len() == got.len(), "accepted but returned {} leaves of {}: {}", got.len(), want.len(), desc());
        let ok2 = p.verify_and_get_root();
        chk!(matches!(&ok2, Ok((r, g)) if r == root && *g == got), "verify and verify_and_get_root disagree: {}", desc());
    } else if let Ok((r, _)) = p.verify_and_get_root() {
        chk!(r != *root, "verify rejects but verify_and_get_root yields the root: {}", desc());
    }
    Ok(())
}

fn c01(ctx: &mut Ctx) -> R {
    c01_giant(ctx)?;
    ctx.rule("forged proofs against real roots: every item list up to length 4 over the tree's own node/bagged hashes for small trees, and mutations of honest proofs (drop/insert/duplicate/swap/replace items, leaves, indices, values); non-trivial: distinct forged proof");
    let store = MemStore::default();
    let mut r = Ref::new();
    let mut mmr = MMR::new(0, &store);
    let nmax = if ctx.thorough { 90u64 } else { 40 };
    let mut bagged: Vec<Vec<H>> = vec![];
    for i in 0..nmax {
        r.push(&val(i));
        mmr.push(MmrNode::leaf(val(i))).value.map_err(|e| Fail(format!("push: {e}")))?;
        let mut b = vec![];
        for k in 0..r.peaks.len() {
            b.push(bag(&r.peaks[k..]));
            if k > 0 { b.push(bag(&r.peaks[..k])); }
        }
        bagged.push(b);
    }
    mmr.commit().value.map_err(|e| Fail(format!("commit: {e}")))?;
    let forged = b"forged".to_vec();
    for n in 1..=(if ctx.thorough { 8u64 } else { 7 }) {
        let size = r.sizes[n as usize - 1];
        let root = r.roots[n as usize - 1];
        let mut pool: Vec<H> = r.nodes[..size as usize].iter().map(|x| x.0).collect();
        pool.extend(bagged[n as usize - 1].iter());
        pool.push(lh(&forged));
        pool.sort();
        pool.dedup();
        let mut claims: Vec<Vec<(u64, Vec<u8>)>> = vec![];
        for i in 0..n {
            claims.push(vec![(i, forged.clone())]);
            for j in 0..n {
                if j != i { claims.push(vec![(i, val(j))]); }
                claims.push(vec![(i, val(i)), (j, forged.clone())]);
                if j < i { claims.push(vec![(i, forged.clone()), (j, val(j))]); }
            }
        }
        claims.push((0..n).map(|i| (i, if i == n - 1 { forged.clone() } else { val(i) })).collect());
        let maxlen = match n { 1..=4 => 4, _ if ctx.thorough => 4, 5 => 3, _ => 3 };
        for len in 0..=maxlen {
            let total = (pool.len() as u64).pow(len);
            let budget = if ctx.thorough { 60_000 } else { 6_000 };
            for t in 0..total.min(budget) {
                let mut x = if total > budget { ctx.rng.below(total) } else { t };
                let items: Vec<H> = (0..len).map(|_| { let h = pool[(x % pool.len() as u64) as usize]; x /= pool.len() as u64; h }).collect();
                let many = total <= 400;
                let sel: Vec<&Vec<(u64, Vec<u8>)>> = if many { claims.iter().collect() } else { (0..3).map(|_| &claims[ctx.rng.us(claims.len())]).collect() };
                for c in sel {
                    judge(n, &root, size, c, &items, "assembled")?;
                    ctx.case((n, &items, c), true);
                }
            }
            if ctx.out_of_time() { return Ok(()); }
        }
    }
    let node_at = |p: u64| (&store).element_at_position(p).value;
    for _ in 0..ctx.n(30_000) {
        let n = 1 + ctx.rng.below(nmax);
        let size = r.sizes[n as usize - 1];
        let root = r.roots[n as usize - 1];
        let mut idx: Vec<u64> = (0..n).collect();
        ctx.rng.shuffle(&mut idx);
        idx.truncate(1 + ctx.rng.us(n.min(5) as usize));
        at(format!("generate {idx:?} of {n}"));
        let p = MmrTreeProof::generate(size, &idx, node_at).map_err(|e| Fail(format!("generate: {e}")))?;
        let mut leaves = p.leaves().to_vec();
        let mut items = p.proof_items().to_vec();
        let mut how = vec![];
        for _ in 0..1 + ctx.rng.us(3) {
            let k = ctx.rng.us(11);
            match k {
                0 if !items.is_empty() => { let j = ctx.rng.us(items.len()); items.remove(j); }
                1 => { let j = ctx.rng.us(items.len() + 1); let h = r.nodes[ctx.rng.us(size as usize)].0; items.insert(j, h); }
                2 if !items.is_empty() => { let j = ctx.rng.us(items.len()); let h = items[j]; items.insert(j, h); }
                3 if items.len() > 1 => { let (a, b) = (ctx.rng.us(items.len()), ctx.rng.us(items.len())); items.swap(a, b); }
                4 if !items.is_empty() => { let j = ctx.rng.us(items.len()); items[j][ctx.rng.us(32)] ^= 1 << ctx.rng.below(8); }
                5 => { let j = ctx.rng.us(leaves.len()); leaves[j].1.push(7); }
                6 => { let j = ctx.rng.us(leaves.len()); leaves[j].0 = ctx.rng.below(n + 2); }
                7 => { let j = ctx.rng.us(leaves.len()); let i = leaves[j].0; let at = ctx.rng.us(leaves.len() + 1); leaves.insert(at, (i, forged.clone())); }
                8 => { let i = ctx.rng.below(n); leaves.push((i, if ctx.rng.coin() { val(i) } else { forged.clone() })); }
                9 if leaves.len() > 1 => { let j = ctx.rng.us(leaves.len()); leaves.remove(j); }
                10 => { let b = &bagged[n as usize - 1]; items.push(*ctx.rng.pick(b)); }
                _ => continue,
            }
            how.push(k);
        }
        judge(n, &root, size, &leaves, &items, &format!("mutations {how:?}"))?;
        let mut pl: Vec<(u64, Vec<u8>)> = leaves.iter().map(|(i, v)| (if *i < n { r.leaf_pos[*i as usize] } else { size + (i - n) }, v.clone())).collect();
        if ctx.rng.chance(1, 4) { let q = match ctx.rng.below(4) { 0 => size, 1 => size + ctx.rng.below(4), 2 => ctx.rng.below(size), _ => r.leaf_pos[ctx.rng.us(nmax as usize)] }; pl.push((q, if ctx.rng.coin() { forged.clone() } else { val(ctx.rng.below(n)) })); }
        judge_pos(&r, n, &root, size, &pl, &items)?;
        ctx.case((n, &items, &leaves), true);
        // an accepted extension names the log's own last leaves and the log's own earlier root
        if n > 1 && ctx.rng.chance(1, 3) {
            let k = 1 + ctx.rng.below(n - 1);
            at(format!("generate the last {k} of {n}"));
            let hp = MmrTreeProof::generate(size, &((n - k)..n).collect::<Vec<_>>(), node_at).map_err(|e| Fail(format!("generate: {e}")))?;
            let mut its = hp.proof_items().to_vec();
            let mut inc: Vec<Vec<u8>> = ((n - k)..n).map(val).collect();
            let (mut sz, mut prev) = (size, r.roots[(n - k) as usize - 1]);
            for _ in 0..ctx.rng.below(3) {
                match ctx.rng.below(7) {
                    0 => { let j = ctx.rng.us(inc.len().max(1)); if j < inc.len() { inc[j] = forged.clone(); } }
                    1 if !inc.is_empty() => { inc.pop(); }
                    2 => { let i = ctx.rng.below(n); inc.insert(0, val(i)); }
                    3 if !its.is_empty() => { let j = ctx.rng.us(its.len()); its[j] = r.nodes[ctx.rng.us(size as usize)].0; }
                    4 if its.len() > 1 => { let (a, b) = (ctx.rng.us(its.len()), ctx.rng.us(its.len())); its.swap(a, b); }
                    5 => { prev = r.roots[ctx.rng.us(n as usize)]; }
                    _ => { sz = if ctx.rng.coin() { ctx.rng.edge() } else { r.sizes[ctx.rng.us(nmax as usize)] }; }
                }
            }
            let desc = format!("extension of size {sz} by {inc:?}, items {:?}, earlier root {}, against the root of {n} leaves", its.iter().map(|h| hx(&h[..4])).collect::<Vec<_>>(), hx(&prev[..4]));
            at(desc.clone());
            let mp = MerkleProof::new(sz, its.iter().map(|h| MmrNode::internal(*h)).collect());
            let got = mp.verify_incremental(MmrNode::internal(root), MmrNode::internal(prev), inc.iter().map(|v| MmrNode::leaf(v.clone())).collect());
            if sz == size && matches!(got, Ok(true)) {
                let m = inc.len() as u64;
                chk!(m < n && inc.iter().enumerate().all(|(i, v)| *v == val(n - m + i as u64)), "accepted a false {desc}");
                chk!(prev == r.roots[(n - m) as usize - 1], "accepted a false earlier root: {desc}");
            }
            let np = if ctx.rng.coin() { ctx.rng.edge() } else { ctx.rng.below(2 * size + 2) };
            let ns = if ctx.rng.coin() { ctx.rng.edge() } else { r.sizes[ctx.rng.us(nmax as usize)] };
            at(format!("calculate_root_with_new_leaf({:?}, position {np}, size {ns}) on {desc}", pl.iter().map(|l| l.0).collect::<Vec<_>>()));
            let _ = mp.calculate_root_with_new_leaf(pl.iter().map(|(q, v)| (*q, MmrNode::leaf(v.clone()))).collect(), np, MmrNode::leaf(forged.clone()), ns);
        }
        // hostile sizes and indices must be answered, never crash
        let hs = if ctx.rng.coin() { ctx.rng.edge() } else { ctx.rng.below(size + 3) };
        let last = mmr_size_to_leaf_count(hs).wrapping_sub(1);
        let hostile: Vec<(u64, Vec<u8>)> = leaves.iter().map(|l| (match ctx.rng.below(4) { 0 | 1 => l.0, 2 => last, _ => ctx.rng.edge() }, l.1.clone())).collect();
        at(format!("hostile proof mmr_size={hs} leaves={hostile:?} items={}", items.len()));
        let hp = MmrTreeProof::new(hs, hostile.clone(), items.clone());
        let a = hp.verify(&root);
        if hs == size { if let Ok(g) = a { for (i, v) in g { chk!(i < n && v == val(i), "hostile proof accepted with false leaf {i}"); } } }
        let _ = hp.verify_and_get_root();
        if ctx.rng.chance(1, 8) {
            let mut enc = p.encode_to_vec().map_err(|e| Fail(format!("{e}")))?;
            let j = ctx.rng.us(enc.len());
            enc[j] ^= 1 << ctx.rng.below(8);
            at(format!("decode {}", hx(&enc)));
            if let Ok(d) = MmrTreeProof::decode_from_slice(&enc) {
                if d.mmr_size() == size { judge(n, &root, size, &d.leaves().to_vec(), &d.proof_items().to_vec(), "bit flip")?; }
            }
        }
    }
    Ok(())
}

fn main() {
    main_with(&[("C01", c01), ("C02", c02), ("C03", c03)]);
}
