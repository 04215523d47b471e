//! C15: subtree paths mean their segments.
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use verif_harness::*;

type P = SubtreePath<'static, Vec<u8>>;
type B = SubtreePathBuilder<'static, Vec<u8>>;
type Segs = Vec<Vec<u8>>;
fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
fn seg(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => vec![],
        1 => 0usize.to_ne_bytes().to_vec(),
        2 => (r.below(12) as usize).to_ne_bytes().to_vec(),
        3 => { let n = 250 + r.us(20); r.bytes(n) }
        4 => vec![r.below(2) as u8],
        _ => { let n = r.us(6); (0..n).map(|_| b'a' + r.below(2) as u8).collect() }
    }
}
struct G<'a> { r: &'a mut Rng, how: String, err: Option<String> }
impl G<'_> {
    fn path(&mut self, s: &Segs, d: u32) -> P {
        let k = if d == 0 { 0 } else { self.r.below(4) };
        match k {
            0 => { self.how += "S"; P::from(leak(s.clone()).as_slice()) }
            1 | 2 => { self.how += "P("; let b = leak(self.builder(s, d - 1)); self.how += ")"; P::from(b) }
            _ => {
                self.how += "parent(";
                let mut t = s.clone(); let x = seg(self.r); t.push(x.clone());
                let (p, got) = if self.r.coin() {
                    let q = leak(self.path(&t, d - 1));
                    match q.derive_parent() { Some((p, g)) => (p, g.to_vec()), None => { self.err = Some(format!("derive_parent of {t:?} ({}) is None", self.how)); return P::from(leak(s.clone()).as_slice()); } }
                } else {
                    let q = leak(self.builder(&t, d - 1));
                    match q.derive_parent() { Some((p, g)) => (p, g.to_vec()), None => { self.err = Some(format!("derive_parent of builder {t:?} ({}) is None", self.how)); return P::from(leak(s.clone()).as_slice()); } }
                };
                self.how += ")";
                if got != x { self.err = Some(format!("derive_parent of {t:?} ({}) gives segment {got:?}", self.how)); }
                p
            }
        }
    }
    fn builder(&mut self, s: &Segs, d: u32) -> B {
        let k = if d == 0 { 0 } else { self.r.below(8) };
        match k {
            0 => { self.how += "O"; B::owned_from_iter(s.iter()) }
            1 => { self.how += "own("; let p = self.path(s, d - 1); self.how += ")"; p.derive_owned() }
            2 => {
                let k = self.r.us(s.len() + 1);
                self.how += "push("; let mut b = self.builder(&s[..k].to_vec(), d - 1);
                for x in &s[k..] { b.push_segment(x); }
                self.how += &format!(",{})", s.len() - k); b
            }
            3 if !s.is_empty() => {
                let (last, init) = s.split_last().unwrap();
                self.how += "child(";
                let p = self.path(&init.to_vec(), d - 1); self.how += ")";
                if self.r.coin() { p.derive_owned_with_child(last.clone()) } else { p.derive_owned_with_child(leak(last.clone()).as_slice()) }
            }
            4 if !s.is_empty() => {
                let (last, init) = s.split_last().unwrap();
                self.how += "bchild(";
                let p = leak(self.builder(&init.to_vec(), d - 1)); self.how += ")";
                if self.r.coin() { p.derive_owned_with_child(last.clone()) } else { p.derive_owned_with_child(leak(last.clone()).as_slice()) }
            }
            5 => {
                let mut t = s.clone(); let x = seg(self.r); t.push(x.clone());
                self.how += "bparent(";
                let b = self.builder(&t, d - 1); self.how += ")";
                match b.derive_parent_owned() {
                    Some((p, g)) => { if g != x { self.err = Some(format!("derive_parent_owned of {t:?} ({}) gives segment {g:?}", self.how)); } p }
                    None => { self.err = Some(format!("derive_parent_owned of {t:?} ({}) is None", self.how)); B::owned_from_iter(s.iter()) }
                }
            }
            6 => { self.how += "bown("; let b = leak(self.builder(s, d - 1)); self.how += ")"; if self.r.coin() { b.derive_owned() } else { b.clone() } }
            _ => { self.how += "ofp("; let p = self.path(s, d - 1); self.how += ")"; B::owned_from_path(p) }
        }
    }
}
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
/// documented order: deeper paths first, then by segments from the last one up
fn want_cmp(a: &Segs, b: &Segs) -> Ordering { b.len().cmp(&a.len()).then_with(|| a.iter().rev().cmp(b.iter().rev())) }

fn check_path(p: &P, s: &Segs, how: &str) -> R {
    chk!(p.to_vec() == *s, "{how}: to_vec {:?} for segments {s:?}", p.to_vec());
    chk!(p.len() == s.len(), "{how}: len {} for {s:?}", p.len());
    chk!(p.is_empty() == s.is_empty(), "{how}: is_empty {} for {s:?}", p.is_empty());
    chk!(p.is_root() == s.is_empty(), "{how}: is_root {} for {s:?}", p.is_root());
    let it: Segs = p.clone().into_reverse_iter().map(|x| x.to_vec()).collect();
    chk!(it.iter().rev().eq(s.iter()), "{how}: reverse iteration {it:?} for {s:?}");
    match (p.derive_parent(), s.split_last()) {
        (None, None) => {}
        (Some((q, g)), Some((l, init))) => {
            chk!(g == l.as_slice(), "{how}: derive_parent segment {g:?} for {s:?}");
            chk!(q.to_vec() == init && q.len() == init.len() && q.is_root() == init.is_empty() && q.is_empty() == init.is_empty(), "{how}: derived parent {:?} len {} of {s:?}", q.to_vec(), q.len());
            chk!(q == P::from(leak(init.to_vec()).as_slice()) && h(&q) == h(&P::from(leak(init.to_vec()).as_slice())), "{how}: derived parent of {s:?} differs from its slice");
        }
        (a, _) => fail!("{how}: derive_parent is_some {} for {s:?}", a.is_some()),
    }
    Ok(())
}
fn check_builder(b: &'static B, s: &Segs, how: &str) -> R {
    chk!(b.to_vec() == *s, "{how}: builder to_vec {:?} for segments {s:?}", b.to_vec());
    chk!(b.len() == s.len(), "{how}: builder len {} for {s:?}", b.len());
    chk!(b.is_empty() == s.is_empty(), "{how}: builder is_empty {} for {s:?}", b.is_empty());
    chk!(b.is_root() == s.is_empty(), "{how}: builder is_root {} for {s:?}", b.is_root());
    let it: Segs = b.reverse_iter().map(|x| x.to_vec()).collect();
    chk!(it.iter().rev().eq(s.iter()), "{how}: builder reverse iteration {it:?} for {s:?}");
    match (b.derive_parent(), s.split_last()) {
        (None, None) => {}
        (Some((q, g)), Some((l, init))) => { chk!(g == l.as_slice(), "{how}: builder derive_parent segment {g:?} for {s:?}"); check_path(&q, &init.to_vec(), &format!("parent of {how}"))?; }
        (a, _) => fail!("{how}: builder derive_parent is_some {} for {s:?}", a.is_some()),
    }
    match (b.derive_parent_owned(), s.split_last()) {
        (None, None) => {}
        (Some((q, g)), Some((l, init))) => {
            chk!(g == *l, "{how}: derive_parent_owned segment {g:?} for {s:?}");
            chk!(q.to_vec() == init && q.len() == init.len() && q.is_root() == init.is_empty(), "{how}: owned parent {:?} of {s:?}", q.to_vec());
        }
        (a, _) => fail!("{how}: derive_parent_owned is_some {} for {s:?}", a.is_some()),
    }
    check_path(&P::from(b), s, &format!("path of {how}"))?;
    Ok(())
}
fn c15(ctx: &mut Ctx) -> R {
    ctx.rule("random segment lists (empty, length-like, long, colliding) realised through random nestings of slices, builders, derived children/parents and iterator-backed parents, every pair compared; non-trivial: at least one segment");
    for k in 0..ctx.n(9_000) {
        let n = if k % 900 == 450 { 250 + ctx.rng.us(20) } else { *ctx.rng.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6]) };
        let s: Segs = (0..n).map(|_| seg(&mut ctx.rng)).collect();
        // (very rarely: a segment whose length passes 16 bits)
        let s: Segs = if k % 900 == 200 { let mut s = s; s.push(vec![k as u8; 65_500 + ctx.rng.us(80)]); s } else { s };
        let n = s.len();
        // a second list, close to the first
        let mut t = s.clone();
        match ctx.rng.below(6) {
            0 => {}
            1 => { t.pop(); }
            2 => { t.push(seg(&mut ctx.rng)); }
            3 => { let l = t.len(); ctx.rng.shuffle(&mut t[..l]); }
            4 if n > 0 => { let i = ctx.rng.us(n); t[i] = seg(&mut ctx.rng); }
            // same concatenation, other split
            _ => { t = vec![s.concat()]; }
        }
        let d = 1 + ctx.rng.below(4) as u32;
        let mut objs: Vec<(Result<P, &'static B>, Segs, String)> = vec![];
        at(format!("segments {s:?} / {t:?}"));
        for x in [&s, &s, &t] {
            let mut g = G { r: &mut ctx.rng, how: String::new(), err: None };
            let p = g.path(x, d);
            let (e, how) = (g.err.take(), g.how);
            if let Some(e) = e { fail!("{e}"); }
            at(format!("path {how} of {x:?}"));
            check_path(&p, x, &how)?;
            objs.push((Ok(p), x.clone(), how));
            let mut g = G { r: &mut ctx.rng, how: String::new(), err: None };
            let b = leak(g.builder(x, d));
            let (e, how) = (g.err.take(), g.how);
            if let Some(e) = e { fail!("{e}"); }
            at(format!("builder {how} of {x:?}"));
            check_builder(b, x, &how)?;
            objs.push((Err(b), x.clone(), how));
        }
        ctx.case(format!("{:?}", objs.iter().map(|o| (&o.1, &o.2)).collect::<Vec<_>>()), n > 0);
        for (a, sa, ha) in &objs {
            for (b, sb, hb) in &objs {
                at(format!("{ha} of {sa:?} against {hb} of {sb:?}"));
                let same = sa == sb;
                let (eq, hq, cmp) = match (a, b) {
                    (Ok(a), Ok(b)) => { chk!(a.cmp(b) == a.partial_cmp(b).unwrap(), "Ord and PartialOrd disagree"); (a == b, h(a) == h(b), a.partial_cmp(b)) }
                    (Ok(a), Err(b)) => (a == *b, h(a) == h(b), a.partial_cmp(*b)),
                    (Err(a), Ok(b)) => (*a == b, h(a) == h(b), SubtreePath::from(*a).partial_cmp(b)),
                    (Err(a), Err(b)) => { chk!(a.cmp(b) == a.partial_cmp(b).unwrap(), "Ord and PartialOrd disagree"); (a == b, h(a) == h(b), a.partial_cmp(b)) }
                };
                chk!(eq == same, "{ha} of {sa:?} == {hb} of {sb:?} is {eq}");
                chk!(!same || hq, "{ha} and {hb} of the same segments {sa:?} hash differently");
                chk!(cmp == Some(want_cmp(sa, sb)), "{ha} of {sa:?} compared with {hb} of {sb:?} is {cmp:?}");
            }
        }
        if k == 0 {
            let e = SubtreePath::empty();
            chk!(e.is_root() && e.len() == 0 && e.to_vec().is_empty() && e == P::from(leak(vec![]).as_slice()), "empty path");
            chk!(SubtreePathBuilder::new().is_root(), "new builder is root");
        }
    }
    Ok(())
}
fn main() { main_with(&[("C15", c15)]) }
