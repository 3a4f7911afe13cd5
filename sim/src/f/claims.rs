//! Simulated Merkle distributor: members, impostors, an owner who publishes new lists.
use super::fungible::{actors, gen20, ledger_inv, q20};
use super::*;
use crate::abi::*;
use crate::c::claims as k;
use crate::core::*;
use crate::m::claims::*;
use crate::model::*;
use crate::rng::Rng;
use alloy_primitives::{Address, U256};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// A complete binary tree laid out in an array, root first, leaves last.
pub struct Tree {
    t: Vec<W>,
    tag: bool,
}
impl Tree {
    /// leaf `i` lies at `at(i)`
    pub fn new(leaves: &[W], tag: bool) -> Tree {
        let l = leaves.len();
        let mut t = vec![[0u8; 32]; 2 * l - 1];
        for (i, x) in leaves.iter().enumerate() {
            t[2 * l - 2 - i] = *x;
        }
        for i in (0..l - 1).rev() {
            t[i] = pair(t[2 * i + 1], t[2 * i + 2], tag);
        }
        Tree { t, tag }
    }
    fn at(&self, leaf: usize) -> usize {
        self.t.len() - 1 - leaf
    }
    fn sib(i: usize) -> usize {
        if i % 2 == 1 {
            i + 1
        } else {
            i - 1
        }
    }
    pub fn root(&self) -> W {
        self.t[0]
    }
    /// proof of the node at `i`
    fn proof(&self, mut i: usize) -> Vec<W> {
        let mut p = vec![];
        while i > 0 {
            p.push(self.t[Self::sib(i)]);
            i = (i - 1) / 2;
        }
        p
    }
    /// proof of several nodes, deepest first
    fn multi(&self, ix: &[usize]) -> (Vec<W>, Vec<bool>) {
        let mut q: std::collections::VecDeque<usize> = ix.iter().copied().collect();
        let (mut p, mut f) = (vec![], vec![]);
        while let Some(&i) = q.front() {
            if i == 0 {
                break;
            }
            q.pop_front();
            if q.front() == Some(&Self::sib(i)) {
                q.pop_front();
                f.push(true);
            } else {
                p.push(self.t[Self::sib(i)]);
                f.push(false);
            }
            q.push_back((i - 1) / 2);
        }
        if ix.is_empty() {
            p.push(self.t[0]);
        }
        (p, f)
    }
}
type Entry = (U256, Address, U256);
pub struct List {
    e: Vec<Entry>,
    tree: Tree,
}
thread_local! {
    static LISTS: RefCell<HashMap<(u64, u64, u64), Rc<List>>> = RefCell::new(HashMap::new());
}
/// The `t`-th list the owner may publish.
fn list(c: &Cfg, t: u64) -> Rc<List> {
    let key = (c.g("lists"), t, c.g("actors"));
    LISTS.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 64 {
            m.clear();
        }
        m.entry(key)
            .or_insert_with(|| {
                let mut r = Rng::new(c.g("lists").wrapping_add(t));
                let sz = match r.below(20) {
                    0..=3 => r.range(1, 3),
                    4..=13 => r.range(2, 9),
                    14..=18 => r.range(5, 40),
                    _ => r.range(40, 300),
                };
                let who = actors(c);
                let off = match r.below(5) {
                    0 => U256::from(250),
                    1 => U256::MAX - U256::from(sz),
                    2 => U256::from(1) << r.below(256) as usize,
                    _ => U256::ZERO,
                };
                let mut e: Vec<Entry> = vec![];
                for i in 0..sz {
                    let x = if !e.is_empty() && r.pct(4) {
                        *r.pick(&e)
                    } else {
                        let v = match r.below(12) {
                            0 => U256::ZERO,
                            1 => U256::MAX >> r.below(3) as usize,
                            2 => U256::from(1) << r.below(250) as usize,
                            _ => U256::from(r.below(1000) + 1),
                        };
                        let x = if r.pct(3) { Address::ZERO } else { *r.pick(&who) };
                        (off.wrapping_add(U256::from(i)), x, v)
                    };
                    e.push(x);
                }
                let l: Vec<W> = e.iter().map(|x| leaf(x.0, x.1, x.2)).collect();
                Rc::new(List { e, tree: Tree::new(&l, false) })
            })
            .clone()
    })
}
fn lw(v: &[W]) -> V {
    V::L(v.iter().map(|x| by(x)).collect())
}
fn lb(v: &[bool]) -> V {
    V::L(v.iter().map(|x| n(*x)).collect())
}
fn rword(g: &mut Gx) -> W {
    g.word().to_be_bytes::<32>()
}
/// What transport and forgers do to a proof.
fn spoil(g: &mut Gx, p: &mut Vec<W>, root: W) {
    let k = p.len() as u64;
    match g.below(9) {
        0 | 1 if k > 0 => {
            let (i, b) = (g.below(k) as usize, g.below(256) as usize);
            p[i][b / 8] ^= 1 << (b % 8);
        }
        2 if k > 0 => {
            p.remove(g.below(k) as usize);
        }
        3 if k > 0 => {
            p.pop();
        }
        4 if k > 1 => {
            let (i, j) = (g.below(k) as usize, g.below(k) as usize);
            p.swap(i, j);
        }
        5 if k > 0 => {
            let i = g.below(k) as usize;
            let x = p[i];
            p.insert(i, x);
        }
        6 => p.push(root),
        7 => p.push([0; 32]),
        _ => {
            let x = rword(g);
            let i = g.below(k + 1) as usize;
            p.insert(i, x);
        }
    }
}
fn spoil_flags(g: &mut Gx, f: &mut Vec<bool>) {
    let k = f.len() as u64;
    match g.below(5) {
        0 | 1 if k > 0 => {
            let i = g.below(k) as usize;
            f[i] = !f[i];
        }
        2 if k > 0 => {
            f.pop();
        }
        3 if k > 1 => {
            let (i, j) = (g.below(k) as usize, g.below(k) as usize);
            f.swap(i, j);
        }
        _ => {
            let (b, i) = (g.pct(50), g.below(k + 1) as usize);
            f.insert(i, b);
        }
    }
}
fn subset(g: &mut Gx, l: u64) -> Vec<usize> {
    let want = match g.below(4) {
        0 => l,
        1 => g.below(3),
        _ => g.below(l + 1),
    };
    let mut v: Vec<usize> = (0..l as usize).filter(|_| want > 0 && g.below(l) < want).collect();
    if v.is_empty() && g.pct(90) {
        v.push(g.below(l) as usize);
    }
    v
}
/// Verification on its own, over leaves and trees of the caller's choosing.
fn raw(g: &mut Gx) -> Tx {
    let tag = g.pct(40);
    let l = if g.pct(10) { g.r.range(1, 40) } else { g.r.range(1, 9) };
    let base = g.word();
    let style = g.below(4);
    let leaves: Vec<W> = (0..l)
        .map(|i| {
            let x = match style {
                0 => g.word(),
                // long common prefixes
                1 => base ^ (U256::from(1) << g.r.below(256) as usize),
                2 => base.wrapping_add(U256::from(i)),
                _ => *g.r.pick(&[U256::ZERO, U256::MAX, U256::from(1), base, base]),
            };
            x.to_be_bytes::<32>()
        })
        .collect();
    let f = g.actor();
    if g.pct(25) {
        // any shape, any depth: the proof decides which tree it is
        let d = if g.pct(15) { g.r.range(20, 300) } else { g.r.range(0, 20) };
        let mut fl: Vec<bool> = vec![];
        let mut p: Vec<W> = vec![];
        let mut left = leaves.len() as u64;
        while left > 1 || (p.len() as u64) < d {
            if left > 1 && (p.len() as u64 >= d || g.pct(40)) {
                fl.push(true);
                left -= 1;
            } else {
                fl.push(false);
                let x = if g.pct(80) { rword(g) } else { *g.r.pick(&leaves) };
                p.push(x);
            }
        }
        let mut x = leaves;
        if g.pct(40) {
            x.truncate(1);
            let mut root = climb(x[0], &p, tag);
            if g.pct(30) {
                let y = root;
                spoil(g, &mut p, y);
                match g.below(10) {
                    0 => root = climb(x[0], &p[..p.len() - p.len().min(1)], tag),
                    1 | 2 => {
                        root = climb(x[0], &p, tag);
                        root[g.below(32) as usize] ^= 1 << g.below(8);
                    }
                    _ => {}
                }
            }
            return g.tx(f, op("prove(bytes32,bytes32,bytes32[],bool)", vec![by(&root), by(&x[0]), lw(&p), n(tag)]));
        }
        let mut root = climb_many(&x, &p, &fl, tag).unwrap_or([1; 32]);
        if g.pct(30) {
            match g.below(4) {
                3 => root[g.below(32) as usize] ^= 1 << g.below(8),
                0 => spoil(g, &mut p, root),
                1 => spoil(g, &mut x, root),
                _ => spoil_flags(g, &mut fl),
            }
        }
        return g.tx(f, op("proveMany(bytes32,bytes32[],bytes32[],bool[],bool)", vec![by(&root), lw(&x), lw(&p), lb(&fl), n(tag)]));
    }
    let t = Tree::new(&leaves, tag);
    let mut root = t.root();
    let wrong_tag = g.pct(4);
    let use_tag = t.tag ^ wrong_tag;
    if g.pct(50) {
        let i = if g.pct(85) { t.at(g.r.below(l) as usize) } else { g.below(t.t.len() as u64) as usize };
        let mut p = t.proof(i);
        let mut x = t.t[i];
        if g.pct(35) {
            match g.below(8) {
                0 => x[g.below(32) as usize] ^= 1 << g.below(8),
                1 => x = rword(g),
                2 => root[g.below(32) as usize] ^= 1 << g.below(8),
                3 => root = x,
                _ => spoil(g, &mut p, root),
            }
        }
        return g.tx(f, op("prove(bytes32,bytes32,bytes32[],bool)", vec![by(&root), by(&x), lw(&p), n(use_tag)]));
    }
    let ix: Vec<usize> = subset(g, l).iter().map(|i| t.at(*i)).collect();
    let (mut p, mut fl) = t.multi(&ix);
    let mut x: Vec<W> = ix.iter().map(|i| t.t[*i]).collect();
    if g.pct(40) {
        for _ in 0..g.r.range(1, 2) {
            match g.below(8) {
                0 | 1 => spoil(g, &mut p, root),
                2 | 3 => spoil_flags(g, &mut fl),
                4 => {
                    // a forger moves nodes between the two inputs
                    if g.pct(50) && !p.is_empty() {
                        x.push(p.remove(0));
                    } else if let Some(y) = x.pop() {
                        p.push(y);
                    }
                }
                5 => root[g.below(32) as usize] ^= 1 << g.below(8),
                6 => {
                    // claim the root itself
                    x = vec![root];
                    p.clear();
                    fl.clear();
                    if g.pct(70) {
                        x.push(rword(g));
                        fl.push(g.pct(50));
                    }
                }
                _ => spoil(g, &mut x, root),
            }
        }
    }
    g.tx(f, op("proveMany(bytes32,bytes32[],bytes32[],bool[],bool)", vec![by(&root), lw(&x), lw(&p), lb(&fl), n(use_tag)]))
}
fn current(w: &MW, c: &Cfg) -> Option<Rc<List>> {
    let root = w.s(C0).cap.to_be_bytes::<32>();
    (0..c.g("nlists")).map(|t| list(c, t)).find(|l| l.tree.root() == root)
}
fn claims(g: &mut Gx) -> Tx {
    let some = g.r.below(g.c.g("nlists"));
    let l = match current(g.v, g.c) {
        Some(l) if !g.pct(8) => l,
        _ => list(g.c, some),
    };
    let k = l.e.len() as u64;
    let f = g.actor();
    let root = l.tree.root();
    let open: Vec<usize> = (0..l.e.len()).filter(|i| !g.v.s(C0).bits.contains(&l.e[*i].0)).collect();
    if g.pct(60) {
        let i = if open.is_empty() || g.pct(15) { g.below(k) as usize } else { *g.r.pick(&open) };
        let (mut ix, mut who, mut v) = l.e[i];
        let mut p = l.tree.proof(l.tree.at(i));
        if g.pct(25) {
            match g.below(8) {
                0 => ix = g.num(&[ix]),
                1 => who = f,
                2 => v = g.num(&[v]),
                3 => {
                    // somebody else's terms under this proof
                    let j = g.below(k) as usize;
                    (ix, who, v) = l.e[j];
                }
                _ => spoil(g, &mut p, root),
            }
        }
        return g.tx(f, op("claim(uint256,address,uint256,bytes32[])", vec![n(ix), a(who), n(v), lw(&p)]));
    }
    let mut s: Vec<usize> = if g.pct(60) && !open.is_empty() {
        let m = g.below(open.len() as u64 + 1).max(1);
        let q = open.len() as u64;
        open.into_iter().filter(|_| g.below(q) < m).collect()
    } else {
        subset(g, k)
    };
    s.sort();
    let ix: Vec<usize> = s.iter().map(|i| l.tree.at(*i)).collect();
    let (mut p, mut fl) = l.tree.multi(&ix);
    let mut e: Vec<Entry> = s.iter().map(|i| l.e[*i]).collect();
    if g.pct(30) {
        match g.below(8) {
            0 | 1 => spoil(g, &mut p, root),
            2 | 3 => spoil_flags(g, &mut fl),
            4 if !e.is_empty() => {
                let i = g.below(e.len() as u64) as usize;
                e[i].1 = f;
            }
            5 if !e.is_empty() => {
                let i = g.below(e.len() as u64) as usize;
                e[i].2 = g.num(&[e[i].2]);
            }
            6 if e.len() > 1 => {
                let i = g.below(e.len() as u64) as usize;
                e.swap(0, i);
            }
            _ if !e.is_empty() => {
                let i = g.below(e.len() as u64) as usize;
                let x = e[i];
                e.insert(i, x);
            }
            _ => {}
        }
    }
    let who: Vec<V> = e.iter().map(|x| a(x.1)).collect();
    let i: Vec<U256> = e.iter().map(|x| x.0).collect();
    let v: Vec<U256> = e.iter().map(|x| x.2).collect();
    g.tx(f, op("claimMany(uint256[],address[],uint256[],bytes32[],bool[])", vec![ln(&i), V::L(who), ln(&v), lw(&p), lb(&fl)]))
}
pub const DROP: Fam = Fam {
    name: "merkle-claims",
    knobs: |r, c| {
        c.set("lists", r.u() >> 8);
        c.set("nlists", r.range(1, 4));
        c.set("rich", r.below(2));
    },
    setup: |c, s| {
        let root = list(c, 0).tree.root();
        s.raw(C0, 3, U256::from_be_bytes(word(&a(eoa(0)))));
        s.raw(C0, 5, U256::from_be_bytes(root));
        let st = S { owner: eoa(0), cap: U256::from_be_bytes(root), ..Default::default() };
        s.deploy(C0, k::Drop::entry, drop, DROP_SIGS, st);
    },
    gen: |g| match g.below(100) {
        0..=5 => {
            let o = g.v.s(C0).owner;
            let f = if g.pct(70) && !o.is_zero() && o != C0 { o } else { g.actor() };
            let t = g.r.below(g.c.g("nlists"));
            let r = if g.pct(95) { list(g.c, t).tree.root() } else { rword(g) };
            g.tx(f, op("setRoot(bytes32)", vec![by(&r)]))
        }
        6 => {
            let (f, to) = (g.v.s(C0).owner, g.actor());
            let f = if f.is_zero() || g.pct(50) { g.actor() } else { f };
            g.tx(f, op("transferOwnership(address)", vec![a(to)]))
        }
        7..=9 => gen20(g, C0, false, false, false),
        10..=44 => raw(g),
        _ => claims(g),
    },
    queries: |w, c| {
        let mut q = vec![];
        q20(C0, c, &mut q);
        q.push((C0, op("root()", vec![])));
        q.push((C0, op("owner()", vec![])));
        let mut ix: Vec<U256> = w.s(C0).bits.iter().copied().collect();
        for t in 0..c.g("nlists") {
            let l = list(c, t);
            ix.extend(l.e.iter().take(40).map(|x| x.0));
            for x in l.e.iter().take(3) {
                q.push((C0, op("leafOf(uint256,address,uint256)", vec![n(x.0), a(x.1), n(x.2)])));
            }
        }
        ix.sort();
        ix.dedup();
        for i in ix {
            q.push((C0, op("isClaimed(uint256)", vec![n(i)])));
        }
        // every member of the published list can prove it, to anyone, at any time
        if let Some(l) = current(w, c) {
            let k = l.e.len();
            for i in 0..k {
                if k <= 24 || i % (k / 12) == 0 {
                    let x = l.tree.at(i);
                    q.push((C0, op("prove(bytes32,bytes32,bytes32[],bool)", vec![by(&l.tree.root()), by(&l.tree.t[x]), lw(&l.tree.proof(x)), n(false)])));
                }
            }
        }
        q
    },
    inv: |s| {
        ledger_inv(s, C0)?;
        // what was paid out is what the claimed entries of the lists say; nobody else was paid
        let c = s.cfg.clone();
        let ls: Vec<Rc<List>> = (0..c.g("nlists")).map(|t| list(&c, t)).collect();
        let done = s.m.s(C0).bits.clone();
        let (mut lo, mut hi) = (U256::ZERO, U256::ZERO);
        for i in &done {
            let vs: Vec<U256> = ls.iter().flat_map(|l| l.e.iter()).filter(|x| x.0 == *i).map(|x| x.2).collect();
            if vs.is_empty() {
                return Err(format!("claims: entry {i} is on no list"));
            }
            lo = lo.saturating_add(*vs.iter().min().unwrap());
            hi = hi.saturating_add(*vs.iter().max().unwrap());
        }
        if let Ok(d) = s.w.query(eoa(0), C0, &op("totalSupply()", vec![])) {
            let t = U256::from_be_slice(&d);
            if t < lo || t > hi {
                return Err(format!("claims: {t} was paid out, the claimed entries are worth {lo} to {hi}"));
            }
        }
        Ok(())
    },
};
