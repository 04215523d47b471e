//! A mountain range far too large to build: its leaves repeat with period 4 except for one special
//! leaf, so every node follows from its height and place. Reference only, written from the definition.
#![allow(dead_code)]
use std::{cell::RefCell, collections::HashMap};
type H = [u8; 32];
fn b3(p: &[&[u8]]) -> H { let mut h = blake3::Hasher::new(); for x in p { h.update(x); } *h.finalize().as_bytes() }

pub struct Giant {
    pub leaves: u64,
    pub special: u64,
    pub val: Box<dyn Fn(u64, bool) -> Vec<u8>>, // (leaf index mod 4, special?)
    memo: RefCell<HashMap<(u8, u64), H>>,
}
impl Giant {
    pub fn new(leaves: u64, special: u64, val: Box<dyn Fn(u64, bool) -> Vec<u8>>) -> Self { Giant { leaves, special, val, memo: Default::default() } }
    pub fn leaf(&self, i: u64) -> Vec<u8> { (self.val)(i % 4, i == self.special) }
    /// hash of the perfect subtree of height h over the leaves from `start`
    pub fn hash(&self, h: u8, start: u64) -> H {
        let sp = start <= self.special && ((self.special - start) as u128) < 1u128 << h;
        let key = (h, if sp { u64::MAX } else if h >= 2 { 0 } else { start % 4 });
        if let Some(x) = self.memo.borrow().get(&key) { return *x; }
        let r = if h == 0 { b3(&[&[0], &self.leaf(start)]) } else { b3(&[&[1], &self.hash(h - 1, start), &self.hash(h - 1, start + (1 << (h - 1)))]) };
        self.memo.borrow_mut().insert(key, r);
        r
    }
    pub fn size(leaves: u64) -> u64 { (2 * leaves as u128 - leaves.count_ones() as u128) as u64 }
    pub fn leaf_pos(i: u64) -> u64 { Self::size(i) }
    /// height and first leaf of the node at a position
    pub fn place(pos: u64) -> (u8, u64) {
        let (mut h, mut p, mut start) = (0u8, pos as u128, 0u64);
        while (1u128 << (h + 1)) - 1 <= p { h += 1; }
        loop {
            if p == (1u128 << (h + 1)) - 2 { return (h, start); }
            let half = (1u128 << h) - 1;
            h -= 1;
            if p >= half { p -= half; start += 1 << h; }
        }
    }
    /// (hash, value if a leaf) of the node at a position, if the range has one there
    pub fn node(&self, pos: u64) -> Option<(H, Option<Vec<u8>>)> {
        if pos >= Self::size(self.leaves) { return None; }
        let (h, s) = Self::place(pos);
        Some((self.hash(h, s), if h == 0 { Some(self.leaf(s)) } else { None }))
    }
    pub fn root_of(&self, leaves: u64) -> H {
        let (mut peaks, mut s) = (vec![], 0u64);
        for h in (0..64u8).rev() { if leaves >> h & 1 == 1 { peaks.push(self.hash(h, s)); s += 1 << h; } }
        let mut acc = peaks.pop().unwrap();
        while let Some(p) = peaks.pop() { acc = b3(&[&[1], &acc, &p]); }
        acc
    }
    pub fn root(&self) -> H { self.root_of(self.leaves) }
}
