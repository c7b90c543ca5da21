//! Direct workloads on the event queue, the order trees and the book-side walks.

use crate::layout::{self, Leaf};
use crate::report::Case;
use crate::rng::{hash_bytes, mix, Rng};
use crate::svm::guarded;
use openbook_v2::state::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// Zeroed, aligned account memory: 8 bytes of tag, then the structure.
pub struct Mem(Vec<u64>, usize);
impl Mem {
    pub fn new(len: usize) -> Self {
        Mem(vec![0; (len + 7) / 8], len)
    }
    pub fn bytes(&self) -> &[u8] {
        &bytemuck::cast_slice(&self.0)[..self.1]
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        let n = self.1;
        &mut bytemuck::cast_slice_mut(&mut self.0)[..n]
    }
    pub fn get<T: bytemuck::Pod>(&self) -> &T {
        bytemuck::from_bytes(&self.bytes()[8..8 + std::mem::size_of::<T>()])
    }
    pub fn get_mut<T: bytemuck::Pod>(&mut self) -> &mut T {
        bytemuck::from_bytes_mut(&mut self.bytes_mut()[8..8 + std::mem::size_of::<T>()])
    }
}

pub fn load(bank: &crate::svm::Bank, k: &solana_program::pubkey::Pubkey) -> Mem {
    let d = bank.data(k);
    let mut m = Mem::new(d.len());
    m.bytes_mut().copy_from_slice(d);
    m
}

// ---------------------------------------------------------------- event queue

fn rand_event(r: &mut Rng) -> AnyEvent {
    let mut b = [0u8; 144];
    r.fill(&mut b);
    b[0] = r.below(2) as u8;
    bytemuck::cast(b)
}

/// Events pushed, popped and removed in any order; compared with a list after every operation.
pub fn heap_ops(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let mut mem = Mem::new(layout::HEAP_LEN);
    mem.get_mut::<EventHeap>().init();
    let mut model: VecDeque<(usize, Vec<u8>)> = VecDeque::new();
    // a queue that has been in use for long counts on from there
    let mut pushes = *r.pick(&[0u64, 0, (1 << 16) - 3, (1 << 32) - 20, (1 << 53) - 5, 1 << 63]);
    mem.bytes_mut()[16..24].copy_from_slice(&pushes.to_le_bytes());
    let steps = r.range(200, 2600) as usize;
    // target fill level drifts so that empty, medium and full are all visited
    let mut target = 0usize;
    let mut style = 0;
    for step in 0..steps {
        c.step = step;
        if step % 97 == 0 {
            target = *r.pick(&[0, 1, 2, 5, 40, 300, 598, 599, 600, 600, 600]);
            style = r.below(4);
        }
        let len = model.len();
        let want_push = if len < target {
            r.chance(5, 6)
        } else if len > target {
            r.chance(1, 6)
        } else {
            r.chance(1, 2)
        };
        // jump quickly towards far targets
        let burst = if (len as i64 - target as i64).abs() > 50 { 40 } else { 1 };
        for _ in 0..burst {
            let len = model.len();
            let before = mem.bytes().to_vec();
            let op;
            if want_push {
                let e = rand_event(&mut r);
                op = "push";
                let res = guarded(|| mem.get_mut::<EventHeap>().push_back(e));
                if len == layout::MAX_EVENTS {
                    c.count("refused: push to a full queue");
                    if res.is_ok() {
                        c.violate("push-full", "pushing to a full queue succeeded".into());
                        return;
                    }
                    if mem.bytes() != &before[..] {
                        c.violate("push-full-change", "refused push changed the queue".into());
                        return;
                    }
                    c.eval();
                    continue;
                }
                if let Err(p) = res {
                    c.violate("push-fail", format!("push with {len} events failed: {p}"));
                    return;
                }
                pushes += 1;
                // find out which slot it was given: the one that was unused before
                let used: BTreeSet<usize> = model.iter().map(|x| x.0).collect();
                let h = match layout::heap(mem.bytes(), true) {
                    Ok(h) => h,
                    Err(e) => {
                        c.violate("structure", format!("after push at length {len}: {e}"));
                        return;
                    }
                };
                let slot = h.events.iter().map(|x| x.0 as usize).find(|s| !used.contains(s));
                match slot {
                    Some(s) => model.push_back((s, bytemuck::bytes_of(&e).to_vec())),
                    None => {
                        c.violate("push-lost", "pushed event has no place".into());
                        return;
                    }
                }
            } else {
                let (kind, slot) = match (style + r.below(2)) % 4 {
                    0 => (0, 0),
                    1 if len > 0 => (1, model[r.idx(len)].0),
                    2 if len > 0 => (1, model[len - 1].0),
                    3 if r.chance(1, 4) => (1, r.below(650) as usize),
                    3 if r.chance(1, 20) => (1, *r.pick(&[600usize, 65535, 65536, 65536 + 3, usize::MAX, 599])),
                    _ if len > 0 => (1, model[0].0),
                    _ => (0, 0),
                };
                op = if kind == 0 { "pop" } else { "delete" };
                let res = guarded(|| {
                    let h = mem.get_mut::<EventHeap>();
                    let r = if kind == 0 { h.pop_front() } else { h.delete_slot(slot) };
                    r.map(|e| bytemuck::bytes_of(&e).to_vec()).map_err(|_| ())
                });
                let pos = if kind == 0 {
                    if len > 0 {
                        Some(0)
                    } else {
                        None
                    }
                } else {
                    model.iter().position(|x| x.0 == slot)
                };
                match (pos, res) {
                    (Some(p), Ok(Ok(e))) => {
                        let (_, want) = model.remove(p).unwrap();
                        c.count(if p == 0 {
                            "removed front"
                        } else if p + 1 == len {
                            "removed back"
                        } else {
                            "removed middle"
                        });
                        if e != want {
                            c.violate("remove-value", format!("{op} returned another event than the one at position {p}"));
                            return;
                        }
                    }
                    (None, Ok(Err(()))) | (None, Err(_)) => {
                        c.count("refused: removal of nothing");
                        if mem.bytes() != &before[..] {
                            c.violate("refused-change", format!("refused {op} changed the queue"));
                            return;
                        }
                    }
                    (Some(p), x) => {
                        c.violate("remove-fail", format!("{op} slot {slot} (position {p} of {len}) failed: {x:?}"));
                        return;
                    }
                    (None, Ok(Ok(_))) => {
                        c.violate("remove-unused", format!("{op} of unused slot {slot} succeeded"));
                        return;
                    }
                }
            }
            c.count(op);
            c.eval();
            if let Err(e) = heap_check(&mem, &model, pushes, &mut r) {
                c.violate("queue-state", format!("after {op} (length {len}): {e}"));
                return;
            }
            let n = model.len();
            if n == layout::MAX_EVENTS {
                c.count("full");
            }
            if n == 0 {
                c.count("empty");
            }
            // shape: slots of the first few events + length
            let mut sig = n as u64;
            for (s, _) in model.iter().take(6) {
                sig = mix(sig ^ *s as u64);
            }
            if n > 1 {
                c.nontrivial(sig);
            }
        }
    }
    if c.want_sample {
        let s = format!(
            "{steps} operations; queue ends with {} events, {} pushed in total; slots in order: {:?}",
            model.len(),
            pushes,
            model.iter().take(12).map(|x| x.0).collect::<Vec<_>>()
        );
        c.stats.samples.push(s);
    }
}

fn heap_check(mem: &Mem, model: &VecDeque<(usize, Vec<u8>)>, pushes: u64, r: &mut Rng) -> Result<(), String> {
    let raw = layout::heap(mem.bytes(), true)?;
    if raw.events.len() != model.len() {
        return Err(format!("{} events stored, {} expected", raw.events.len(), model.len()));
    }
    for (i, (s, _)) in raw.events.iter().enumerate() {
        if *s as usize != model[i].0 {
            return Err(format!("position {i} is slot {s}, expected slot {}", model[i].0));
        }
        let o = 24 + 152 * *s as usize + 8;
        if mem.bytes()[o..o + 144] != model[i].1[..] {
            return Err(format!("event at position {i} changed"));
        }
    }
    if raw.seq != pushes {
        return Err(format!("sequence number {} after {pushes} pushes", raw.seq));
    }
    let h = mem.get::<EventHeap>();
    guarded(|| {
        if h.len() != model.len() || h.is_empty() != model.is_empty() || h.is_full() != (model.len() == 600) {
            return Err(format!("len {} empty {} full {}", h.len(), h.is_empty(), h.is_full()));
        }
        match (h.front(), model.front()) {
            (None, None) => {}
            (Some(e), Some(m)) if bytemuck::bytes_of(e) == &m.1[..] => {}
            _ => return Err("front is wrong".into()),
        }
        let mut n = 0;
        for (i, (e, s)) in h.iter().take(605).enumerate() {
            n += 1;
            match model.get(i) {
                Some(m) if m.0 == s && bytemuck::bytes_of(e) == &m.1[..] => {}
                _ => return Err(format!("iteration is wrong at position {i}")),
            }
        }
        if n != model.len() {
            return Err(format!("iteration yields {n} events"));
        }
        for _ in 0..6 {
            let s = if r.chance(1, 2) && !model.is_empty() {
                model[r.idx(model.len())].0
            } else {
                *r.pick(&[0usize, 599, 600, 601, 65535, 65536, 3, 77, 1000, usize::MAX])
            };
            match (h.at_slot(s), model.iter().find(|m| m.0 == s)) {
                (None, None) => {}
                (Some(e), Some(m)) if bytemuck::bytes_of(e) == &m.1[..] => {}
                _ => return Err(format!("lookup of slot {s} is wrong")),
            }
        }
        Ok(())
    })
    .unwrap_or_else(|p| Err(format!("query aborted: {p}")))
}

// ---------------------------------------------------------------- order trees

pub fn comp(i: usize) -> BookSideOrderTree {
    if i == 0 {
        BookSideOrderTree::Fixed
    } else {
        BookSideOrderTree::OraclePegged
    }
}

fn to_leaf(l: &LeafNode) -> Leaf {
    Leaf {
        key: l.key,
        owner: l.owner,
        slot: l.owner_slot,
        tif: l.time_in_force,
        qty: l.quantity,
        ts: l.timestamp,
        peg_limit: l.peg_limit,
        client: l.client_order_id,
    }
}

fn new_side(kind: usize) -> Mem {
    let mut m = Mem::new(layout::SIDE_LEN);
    m.bytes_mut()[312] = kind as u8;
    m
}

/// Keys that stress prefixes: few bits varied, dense prices, extreme prices, raw bit patterns.
fn rand_key(r: &mut Rng, style: u64, seq: &mut u64) -> u128 {
    *seq += 1;
    let s = *seq;
    let price = match style % 6 {
        0 => r.below(8) + 1,
        1 => r.below(1 << 20),
        2 => (1u64 << 63).wrapping_add(r.range(-30, 30) as u64),
        3 => r.wild_u64(),
        4 => 1u64 << r.below(64),
        _ => return r.u128() >> r.below(127) as u32,
    };
    let low = if r.chance(1, 2) { s } else { !s };
    ((price as u128) << 64) | low as u128
}

struct TreeModel {
    trees: [BTreeMap<u128, Leaf>; 2],
    /// orders that may be gone already: keys seen before
    old: Vec<(usize, u128)>,
}

fn tree_check(mem: &Mem, m: &TreeModel, kind: usize, c: &mut Case) -> Result<(), String> {
    let raw = layout::side(mem.bytes(), true)?;
    for t in 0..2 {
        let want: Vec<&Leaf> = m.trees[t].values().collect();
        if raw.trees[t].len() != want.len() {
            return Err(format!("tree {t} holds {} orders, expected {}", raw.trees[t].len(), want.len()));
        }
        for (a, b) in raw.trees[t].iter().zip(want) {
            if a != b {
                return Err(format!("tree {t} holds {a:?}, expected {b:?}"));
            }
        }
    }
    if raw.kind as usize != kind {
        return Err("side flag changed".into());
    }
    let used: usize = m.trees.iter().map(|t| if t.is_empty() { 0 } else { 2 * t.len() - 1 }).sum();
    let bs = mem.get::<BookSide>();
    let r = guarded(|| -> Result<(), String> {
        if bs.is_full() != (1024 - used <= 1) {
            return Err(format!("is_full {} with {used} places used", bs.is_full()));
        }
        if bs.is_empty() != (used == 0) {
            return Err(format!("is_empty {} with {used} places used", bs.is_empty()));
        }
        for t in 0..2 {
            let root = bs.root(comp(t));
            let tr = &m.trees[t];
            if root.leaf_count as usize != tr.len() {
                return Err(format!("leaf count {} of tree {t}, expected {}", root.leaf_count, tr.len()));
            }
            // best first
            let mut want: Vec<&Leaf> = tr.values().collect();
            if kind == 0 {
                want.reverse();
            }
            let got: Vec<(u32, Leaf)> = bs.nodes.iter(root).take(2000).map(|(h, l)| (h, to_leaf(l))).collect();
            if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| &a.1 != *b) {
                return Err(format!("iteration of tree {t} is wrong ({} of {} orders)", got.len(), want.len()));
            }
            for (h, l) in &got {
                match bs.node(*h).and_then(|n| n.as_leaf()) {
                    Some(x) if &to_leaf(x) == l => {}
                    _ => return Err(format!("handle {h} does not lead to its order")),
                }
            }
            // peek agrees with next
            let mut it = bs.nodes.iter(root);
            for _ in 0..3 {
                let p = it.peek().map(|x| x.0);
                let n = it.next().map(|x| x.0);
                if p != n {
                    return Err(format!("peek {p:?} differs from next {n:?}"));
                }
            }
            let chk = |name: &str, got: Option<(u32, &LeafNode)>, want: Option<&Leaf>| -> Result<(), String> {
                let g = got.map(|(h, l)| (bs.node(h).and_then(|n| n.as_leaf()).map(to_leaf), to_leaf(l)));
                match (g, want) {
                    (None, None) => Ok(()),
                    (Some((Some(x), y)), Some(w)) if &x == w && &y == w => Ok(()),
                    (g, w) => Err(format!("{name} of tree {t} gives {g:?}, expected {w:?}")),
                }
            };
            chk("min_leaf", bs.nodes.min_leaf(root), tr.values().next())?;
            chk("max_leaf", bs.nodes.max_leaf(root), tr.values().next_back())?;
            let worst = if kind == 0 { tr.values().next() } else { tr.values().next_back() };
            chk("find_worst", bs.nodes.find_worst(root), worst)?;
            let min_exp = tr.values().map(|l| l.expiry()).min();
            match (bs.nodes.find_earliest_expiry(root), min_exp) {
                (None, None) => {}
                (Some((h, e)), Some(w)) if e == w => {
                    match bs.node(h).and_then(|n| n.as_leaf()) {
                        Some(l) if l.expiry() == w => {}
                        _ => return Err("find_earliest_expiry leads to another order".into()),
                    }
                }
                (g, w) => return Err(format!("find_earliest_expiry of tree {t} gives {g:?}, expected {w:?}")),
            }
        }
        Ok(())
    });
    c.eval();
    r.unwrap_or_else(|p| Err(format!("query aborted: {p}")))
}

fn rand_leaf(r: &mut Rng, key: u128, now: u64) -> Leaf {
    Leaf {
        key,
        owner: r.pubkey(),
        slot: r.below(256) as u8,
        tif: match r.below(8) {
            0 | 1 | 2 => 0,
            3 => u16::MAX,
            4 => 1,
            _ => r.below(60) as u16 + 1,
        },
        qty: r.wild_i64(),
        ts: now.wrapping_sub(r.below(40)),
        peg_limit: r.wild_i64(),
        client: r.wild_u64(),
    }
}

pub fn make(l: &Leaf) -> LeafNode {
    LeafNode::new(l.slot, l.key, l.owner, l.qty, l.ts, l.tif, l.peg_limit, l.client)
}

/// Insertions and removals on both trees of one side against two sorted maps.
pub fn tree_ops(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let kind = r.idx(2);
    let mut mem = new_side(kind);
    let mut m = TreeModel {
        trees: Default::default(),
        old: vec![],
    };
    let mut seq = 0u64;
    let big = r.chance(1, 4);
    let steps = if big { r.range(1500, 2600) } else { r.range(80, 500) } as usize;
    let mut style = r.below(12);
    let mut target = 30usize;
    let mut now = *r.pick(&[1000u64, 1_700_000_000, (1 << 32) - 300, (1 << 33) - 300]);
    let mut bias = 50;
    // one tree alone can leave a single place, which only the other tree can use
    let solo = if big && r.chance(1, 2) { Some(*r.pick(&[0u64, 100])) } else { None };
    for step in 0..steps {
        c.step = step;
        if step % 61 == 0 {
            style = r.below(12);
            target = if big {
                *r.pick(&[505usize, 511, 512, 512, 512, 512, 513, 300])
            } else {
                *r.pick(&[0usize, 1, 2, 3, 8, 20, 60])
            };
            bias = *r.pick(&[0u64, 10, 50, 90, 100]);
            if let Some(b) = solo {
                bias = b;
                target = *r.pick(&[511usize, 512, 512, 514]);
            }
        }
        now += r.below(3);
        let n: usize = m.trees[0].len() + m.trees[1].len();
        let grow = if n < target {
            r.chance(9, 10)
        } else {
            r.chance(3, 10)
        };
        let op;
        let mut t = if r.below(100) < bias { 0 } else { 1 };
        if solo.is_some() && r.chance(1, 50) {
            t = 1 - t;
        }
        let used: usize = m.trees.iter().map(|t| if t.is_empty() { 0 } else { 2 * t.len() - 1 }).sum();
        if grow {
            let clobber = r.chance(1, 40) && !m.trees[t].is_empty();
            let key = if clobber {
                let k = r.idx(m.trees[t].len());
                *m.trees[t].keys().nth(k).unwrap()
            } else if style == 11 && !m.trees[t].is_empty() {
                // differ from an existing key in exactly one bit
                let k = r.idx(m.trees[t].len());
                *m.trees[t].keys().nth(k).unwrap() ^ (1u128 << r.below(128))
            } else {
                rand_key(&mut r, style, &mut seq)
            };
            let exists = m.trees[t].contains_key(&key);
            let l = rand_leaf(&mut r, key, now);
            let need = if exists {
                0
            } else if m.trees[t].is_empty() {
                1
            } else {
                2
            };
            op = format!("insert {key:x} into tree {t} with {n} orders");
            let before_free = 1024 - used;
            let res = guarded(|| {
                mem.get_mut::<BookSide>()
                    .insert_leaf(comp(t), &make(&l))
                    .map(|(h, o)| (h, o.map(|x| to_leaf(&x))))
                    .map_err(|_| ())
            });
            match res {
                Ok(Ok((h, old))) => {
                    if need > before_free {
                        c.violate("insert-full", format!("{op} succeeded without room"));
                        return;
                    }
                    let want = m.trees[t].insert(key, l.clone());
                    if old != want {
                        c.violate("insert-old", format!("{op} reports replaced order {old:?}, expected {want:?}"));
                        return;
                    }
                    if exists {
                        c.count("same key inserted again");
                    }
                    let ok = mem.get::<BookSide>().node(h).and_then(|n| n.as_leaf()).map(|x| to_leaf(x) == l);
                    if ok != Some(true) {
                        c.violate("insert-handle", format!("{op} returned handle {h} which is not the order"));
                        return;
                    }
                    m.old.push((t, key));
                }
                Ok(Err(())) | Err(_) => {
                    if need <= before_free {
                        c.violate("insert-fail", format!("{op} failed with {before_free} places free: {res:?}"));
                        return;
                    }
                    c.count("refused: insert without room");
                    if before_free == 1 {
                        c.count("refused: insert with one place left");
                    }
                }
            }
            c.count("insert");
        } else {
            match r.below(10) {
                0..=4 => {
                    let (t, key) = if r.chance(1, 8) && !m.old.is_empty() {
                        // likely gone
                        let (t, k) = *r.pick(&m.old);
                        (if r.chance(1, 3) { 1 - t } else { t }, k)
                    } else if r.chance(1, 10) {
                        (t, rand_key(&mut r, style, &mut seq))
                    } else if !m.trees[t].is_empty() {
                        let k = r.idx(m.trees[t].len());
                        let mut key = *m.trees[t].keys().nth(k).unwrap();
                        if r.chance(1, 10) {
                            key ^= 1u128 << r.below(128);
                        }
                        (t, key)
                    } else {
                        (t, 1)
                    };
                    op = format!("remove {key:x} from tree {t} with {n} orders");
                    let res = guarded(|| mem.get_mut::<BookSide>().remove_by_key(comp(t), key).map(|l| to_leaf(&l)));
                    let want = m.trees[t].remove(&key);
                    c.count(if want.is_some() { "remove" } else { "remove missing" });
                    match res {
                        Ok(x) if x == want => {}
                        x => {
                            c.violate("remove", format!("{op} gives {x:?}, expected {want:?}"));
                            return;
                        }
                    }
                }
                5 | 6 => {
                    op = format!("remove worst of tree {t}");
                    let res = guarded(|| {
                        let bs = mem.get_mut::<BookSide>();
                        let (roots, nodes) = (&mut bs.roots, &mut bs.nodes);
                        nodes.remove_worst(&mut roots[t]).map(|l| to_leaf(&l))
                    });
                    let k = if kind == 0 {
                        m.trees[t].keys().next().copied()
                    } else {
                        m.trees[t].keys().next_back().copied()
                    };
                    let want = k.and_then(|k| m.trees[t].remove(&k));
                    c.count("remove worst");
                    match res {
                        Ok(x) if x == want => {}
                        x => {
                            c.violate("remove-worst", format!("{op} gives {x:?}, expected {want:?}"));
                            return;
                        }
                    }
                }
                7 => {
                    // worst of the whole side, without an oracle price only the fixed tree counts
                    op = "remove worst of the side".to_string();
                    let oracle = if r.chance(1, 2) { None } else { Some(r.range(-5, 100)) };
                    let want = side_worst(&m, kind, oracle);
                    let res = guarded(|| {
                        mem.get_mut::<BookSide>()
                            .remove_worst(now, oracle)
                            .map(|(l, p)| (to_leaf(&l), p))
                    });
                    c.count("remove worst of side");
                    match (res, want) {
                        (Ok(None), None) => {}
                        (Ok(Some((l, p))), Some((t, k, wp))) => {
                            let w = m.trees[t].remove(&k).unwrap();
                            if l != w || p != wp {
                                c.violate("side-worst", format!("{op} gives {l:?} at {p}, expected {w:?} at {wp}"));
                                return;
                            }
                        }
                        // fixed orders with data above i64::MAX cannot exist on a real book
                        (Err(_), _) if m.trees[0].keys().any(|k| (k >> 64) as u64 > i64::MAX as u64) => return,
                        (g, w) => {
                            c.violate("side-worst", format!("{op} gives {g:?}, expected {w:?}"));
                            return;
                        }
                    }
                }
                8 => {
                    // the end of time at times: orders without expiry stay even then
                    let now = if r.chance(1, 20) { u64::MAX } else { now };
                    op = format!("remove one expired of tree {t} at {now}");
                    let res = guarded(|| {
                        let bs = mem.get_mut::<BookSide>();
                        let (roots, nodes) = (&mut bs.roots, &mut bs.nodes);
                        nodes.remove_one_expired(&mut roots[t], now).map(|l| to_leaf(&l))
                    });
                    if let Err(e) = expired_result(&mut m, res, &[t], now, c) {
                        c.violate("remove-expired", format!("{op}: {e}"));
                        return;
                    }
                }
                _ => {
                    op = format!("remove one expired of the side, tree {t} first, at {now}");
                    let res = guarded(|| mem.get_mut::<BookSide>().remove_one_expired(comp(t), now).map(|l| to_leaf(&l)));
                    if let Err(e) = expired_result(&mut m, res, &[t, 1 - t], now, c) {
                        c.violate("remove-expired", format!("{op}: {e}"));
                        return;
                    }
                }
            }
        }
        if let Err(e) = tree_check(&mem, &m, kind, c) {
            c.violate("tree-state", format!("after {op}: {e}"));
            return;
        }
        let n: usize = m.trees[0].len() + m.trees[1].len();
        if mem.get::<BookSide>().is_full() {
            c.count("full");
        }
        if n > 2 {
            // shape of the trees: bytes of the inner nodes are covered by hashing links of the first nodes
            c.nontrivial(hash_bytes(n as u64, &mem.bytes()[8..24]) ^ hash_bytes(step as u64, &mem.bytes()[840..840 + 88 * 8]));
        }
    }
    if c.want_sample {
        c.stats.samples.push(format!(
            "{} side, {steps} operations; ends with {} fixed and {} pegged orders, every structural link checked",
            ["bid", "ask"][kind],
            m.trees[0].len(),
            m.trees[1].len()
        ));
    }
}

fn expired_result(m: &mut TreeModel, res: Result<Option<Leaf>, String>, order: &[usize], now: u64, c: &mut Case) -> Result<(), String> {
    let got = res.map_err(|p| format!("aborted: {p}"))?;
    for t in order {
        let min = m.trees[*t].values().map(|l| l.expiry()).min();
        if let Some(e) = min {
            if e < now {
                c.count("expired order removed");
                let g = got.ok_or_else(|| format!("nothing removed though an order expired at {e}"))?;
                if g.expiry() != e || m.trees[*t].get(&g.key) != Some(&g) {
                    return Err(format!("removed {g:?}, the earliest expiry of tree {t} is {e}"));
                }
                m.trees[*t].remove(&g.key);
                return Ok(());
            }
        }
    }
    if let Some(g) = got {
        return Err(format!("removed {g:?} which has not expired"));
    }
    c.count("nothing expired");
    Ok(())
}

/// (state 0 valid 1 invalid 2 skipped, effective price)
pub fn pegged_state(l: &Leaf, side: usize, oracle: i64) -> (u8, i64) {
    let off = (l.price_data() ^ (1 << 63)) as i64;
    let p = (oracle as i128 + off as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
    if p < 1 || p == i64::MAX {
        return (2, p.max(1));
    }
    let beyond = l.peg_limit != -1 && if side == 0 { p > l.peg_limit } else { p < l.peg_limit };
    (beyond as u8, p)
}

fn side_worst(m: &TreeModel, kind: usize, oracle: Option<i64>) -> Option<(usize, u128, i64)> {
    let pick = |t: usize| {
        if kind == 0 {
            m.trees[t].iter().next()
        } else {
            m.trees[t].iter().next_back()
        }
    };
    let f = pick(0).map(|(k, _)| (0usize, *k, (*k >> 64) as u64 as i64, *k));
    let o = oracle.and_then(|or| {
        pick(1).map(|(k, l)| {
            let (_, p) = pegged_state(l, kind, or);
            (1usize, *k, p, ((p as u128) << 64) | (*k as u64) as u128)
        })
    });
    match (f, o) {
        (None, None) => None,
        (Some(a), None) | (None, Some(a)) => Some((a.0, a.1, a.2)),
        (Some(a), Some(b)) => {
            let a_worse = if kind == 0 { a.3 < b.3 } else { a.3 > b.3 };
            // equal keys cannot occur between orders of one market; the fixed one counts as worse
            let x = if a_worse || a.3 == b.3 { a } else { b };
            Some((x.0, x.1, x.2))
        }
    }
}

// ---------------------------------------------------------------- book-side walks

/// A realistic side: orders placed and removed over time by one counter.
fn build_side(r: &mut Rng, kind: usize, c: &mut Case) -> Option<(Mem, Vec<(usize, Leaf)>, i64, u64)> {
    let mut mem = new_side(kind);
    let side = if kind == 0 { Side::Bid } else { Side::Ask };
    let mut live: Vec<(usize, Leaf)> = vec![];
    let mut n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 14, 30, 80]);
    // most of the orders have expired
    let stale = r.chance(1, 12);
    if stale {
        n = *r.pick(&[90usize, 200, 420]);
    }
    // prices and numbers that differ from one value in a single bit each make the longest paths
    let deep = !stale && r.chance(1, 12);
    if deep {
        n = 70 + r.idx(80);
        c.count("deep trees");
    }
    let root = match r.below(3) {
        0 => r.u64() >> 1,
        _ if kind == 0 => i64::MAX as u64 - 1,
        _ => 0,
    };
    let centre = match r.below(8) {
        0 => 3,
        1 => i64::MAX - 5,
        2 => 1 << 40,
        _ => 60,
    };
    let spread = *r.pick(&[2i64, 5, 30, 200]);
    let now = *r.pick(&[10_000u64, 1_700_000_000, (1 << 32) - 60, (1 << 33) - 60]);
    let mut seq = r.below(1 << 40);
    let mix_pegged = r.below(101);
    while live.len() < n {
        seq += 1 + if deep { 1 << r.below(24) } else { r.below(3) };
        let t = if r.below(100) < mix_pegged { 1 } else { 0 };
        let (data, peg_limit) = if deep && r.chance(9, 10) {
            let d = root ^ if r.chance(1, 3) { 0 } else { 1 << (live.len() as u64 * 5 % 63) };
            if t == 0 {
                (d.clamp(1, i64::MAX as u64), -1)
            } else {
                // offsets around zero, so that many of them are in range
                (((d ^ root) as i64 * if kind == 0 { -1 } else { 1 }) as u64 ^ (1 << 63), -1)
            }
        } else if t == 0 {
            let p = (centre as i128 + r.range(-spread, spread) as i128).clamp(1, i64::MAX as i128) as i64;
            (p as u64, -1)
        } else {
            let off = if r.chance(1, 14) { r.wild_i64() } else { r.range(-spread, spread) };
            let lim = match r.below(4) {
                0 => -1,
                1 => r.wild_i64(),
                _ => (centre as i128 + r.range(-spread, spread) as i128).clamp(1, i64::MAX as i128) as i64,
            };
            ((off as u64) ^ (1 << 63), lim)
        };
        let key = ((data as u128) << 64) | (if kind == 0 { !seq } else { seq }) as u128;
        if new_node_key(side, data, seq) != key {
            c.violate("order-key", format!("key of {side:?} price data {data} number {seq} is wrong"));
            return None;
        }
        let tif = if stale && !r.chance(1, 60) {
            r.below(8) as u16 + 1
        } else if r.chance(1, 3) {
            r.below(100) as u16 + 1
        } else {
            0
        };
        let l = Leaf {
            key,
            owner: Pubkey::new_from_array([r.below(255) as u8; 32]),
            slot: r.below(24) as u8,
            tif,
            qty: match r.below(12) {
                0 => 1 << 44,
                _ => r.range(1, 40),
            },
            ts: now - r.below(120),
            peg_limit,
            client: r.u64(),
        };
        if guarded(|| mem.get_mut::<BookSide>().insert_leaf(comp(t), &make(&l)).is_ok()) != Ok(true) {
            // reported by the tree monitors
            return None;
        }
        live.push((t, l));
        if r.chance(1, 8) {
            let i = r.idx(live.len());
            let (t, l) = live.remove(i);
            let _ = guarded(|| mem.get_mut::<BookSide>().remove_by_key(comp(t), l.key).is_some());
        }
    }
    Some((mem, live, centre, now))
}

/// What a walk must yield: (tree, order, price, valid), best first.
pub fn naive_walk(live: &[(usize, Leaf)], kind: usize, now: u64, oracle: Option<i64>) -> Vec<(usize, Leaf, i64, bool)> {
    let mut v: Vec<(usize, Leaf, i64, bool)> = vec![];
    for (t, l) in live {
        if *t == 0 {
            v.push((0, l.clone(), l.price_data() as i64, !l.expired(now)));
        } else if let Some(o) = oracle {
            let (st, p) = pegged_state(l, kind, o);
            if st != 2 {
                v.push((1, l.clone(), p, st == 0 && !l.expired(now)));
            }
        }
    }
    let seq = |l: &Leaf| {
        let low = l.key as u64;
        if kind == 0 {
            !low
        } else {
            low
        }
    };
    v.sort_by(|a, b| {
        let p = if kind == 0 { b.2.cmp(&a.2) } else { a.2.cmp(&b.2) };
        p.then(seq(&a.1).cmp(&seq(&b.1)))
    });
    v
}

fn rand_oracle(r: &mut Rng, centre: i64) -> Option<i64> {
    match r.below(12) {
        0 | 1 => None,
        2 => Some(0),
        3 => Some(1),
        4 => Some(i64::MAX - r.below(10) as i64),
        5 => Some(r.wild_i64()),
        6 | 7 => Some(r.range(-10, 40)),
        _ => Some((centre as i128 + r.range(-40, 40) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64),
    }
}

pub fn walk(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    for round in 0..20 {
        c.step = round;
        let kind = r.idx(2);
        let (mem, live, centre, now) = match build_side(&mut r, kind, c) {
            Some(x) => x,
            None => return,
        };
        for _ in 0..6 {
            let oracle = rand_oracle(&mut r, centre);
            let t = now + r.below(110);
            let want = naive_walk(&live, kind, t, oracle);
            let bs = mem.get::<BookSide>();
            let conv = |it: BookSideIterItem| {
                (
                    it.handle.order_tree as usize,
                    to_leaf(it.node),
                    it.price_lots,
                    it.state == OrderState::Valid,
                    it.is_valid(),
                    (it.state == OrderState::Valid || it.state == OrderState::Invalid)
                        && bs.node(it.handle.node).and_then(|n| n.as_leaf()).map(to_leaf) == Some(to_leaf(it.node)),
                )
            };
            let all = guarded(|| bs.iter_all_including_invalid(t, oracle).take(2100).map(conv).collect::<Vec<_>>());
            let valid = guarded(|| bs.iter_valid(t, oracle).take(2100).map(conv).collect::<Vec<_>>());
            let describe = || {
                format!(
                    "{} side at time {t}, oracle {oracle:?}, orders (tree,price data,number,tif,ts,limit): {:?}",
                    ["bid", "ask"][kind],
                    live.iter()
                        .map(|(t, l)| (*t, (l.key >> 64) as u64 as i64, l.key as u64, l.tif, l.ts, l.peg_limit))
                        .take(40)
                        .collect::<Vec<_>>()
                )
            };
            c.eval();
            let (all, valid) = match (all, valid) {
                (Ok(a), Ok(v)) => (a, v),
                (a, b) => {
                    c.violate("walk-abort", format!("walk aborted {:?} {:?}; {}", a.err(), b.err(), describe()));
                    return;
                }
            };
            let g: Vec<_> = all.iter().map(|x| (x.0, x.1.clone(), x.2, x.3)).collect();
            if g != want {
                let pos = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
                c.violate(
                    "walk",
                    format!(
                        "walk yields {} orders, expected {}; first difference at {pos}: {:?} instead of {:?}; {}",
                        g.len(),
                        want.len(),
                        g.get(pos),
                        want.get(pos),
                        describe()
                    ),
                );
                return;
            }
            if all.iter().any(|x| x.3 != x.4 || !x.5) {
                c.violate("walk-item", format!("a walked item contradicts itself; {}", describe()));
                return;
            }
            let gv: Vec<_> = valid.iter().map(|x| (x.0, x.1.clone(), x.2, x.3)).collect();
            let wv: Vec<_> = want.iter().filter(|x| x.3).cloned().collect();
            if gv != wv {
                c.violate("walk-valid", format!("valid walk yields {} orders, expected {}; {}", gv.len(), wv.len(), describe()));
                return;
            }
            // what was seen
            let skipped = live.iter().filter(|x| x.0 == 1).count() - want.iter().filter(|x| x.0 == 1).count();
            if oracle.is_some() && skipped > 0 {
                c.count("pegged orders out of range present");
            }
            if want.iter().any(|x| !x.3) {
                c.count("invalid orders present");
            }
            if want.iter().position(|x| x.3).map_or(false, |p| p > 64) {
                c.count("more than 64 invalid orders before a valid one");
            }
            if want.iter().any(|x| x.0 == 1) && want.iter().any(|x| x.0 == 0) {
                c.count("both kinds walked");
                let mut sig = kind as u64;
                for x in &want {
                    sig = mix(sig ^ (x.0 as u64) << 1 ^ x.3 as u64 ^ (x.2 as u64) << 3);
                }
                c.nontrivial(sig);
            }
            if want.windows(2).any(|w| w[0].2 == w[1].2 && w[0].0 != w[1].0) {
                c.count("price ties between kinds");
            }
            if c.want_sample && want.len() > 3 && c.stats.samples.is_empty() {
                let s = describe();
                c.stats.samples.push(s);
            }
        }
    }
}

pub fn depth(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    for round in 0..20 {
        c.step = round;
        let kind = r.idx(2);
        let (mem, live, centre, now) = match build_side(&mut r, kind, c) {
            Some(x) => x,
            None => return,
        };
        let before = mem.bytes().to_vec();
        for _ in 0..8 {
            let oracle = rand_oracle(&mut r, centre);
            let t = now + r.below(110);
            let bs = mem.get::<BookSide>();
            let valid: Vec<_> = naive_walk(&live, kind, t, oracle).into_iter().filter(|x| x.3).collect();
            let describe = || {
                format!(
                    "{} side at time {t}, oracle {oracle:?}, valid (price, quantity): {:?}",
                    ["bid", "ask"][kind],
                    valid.iter().map(|x| (x.2, x.1.qty)).take(40).collect::<Vec<_>>()
                )
            };
            let want = valid.iter().map(|x| x.2).fold(None, |a: Option<i64>, p| {
                Some(match a {
                    None => p,
                    Some(a) if kind == 0 => a.max(p),
                    Some(a) => a.min(p),
                })
            });
            let got = guarded(|| bs.best_price(t, oracle));
            c.eval();
            if got != Ok(want) {
                c.violate("best-price", format!("best price {got:?}, expected {want:?}; {}", describe()));
                return;
            }
            if let Some(o) = oracle {
                for _ in 0..4 {
                    let limit = match r.below(4) {
                        0 => r.wild_i64(),
                        1 if !valid.is_empty() => valid[r.idx(valid.len())].2,
                        2 if !valid.is_empty() => valid[r.idx(valid.len())].2.saturating_add(r.range(-1, 1)),
                        _ => (centre as i128 + r.range(-40, 40) as i128).clamp(1, i64::MAX as i128) as i64,
                    };
                    let want: i64 = valid
                        .iter()
                        .filter(|x| if kind == 0 { x.2 >= limit } else { x.2 <= limit })
                        .map(|x| x.1.qty)
                        .sum();
                    let got = guarded(|| bs.quantity_at_price(limit, t, o));
                    c.eval();
                    if got != Ok(want) {
                        c.violate("quantity-at-price", format!("quantity at {limit}: {got:?}, expected {want}; {}", describe()));
                        return;
                    }
                    let total: i64 = valid.iter().map(|x| x.1.qty).sum();
                    let q = match r.below(6) {
                        0 => total,
                        1 => total + 1,
                        2 => 1,
                        3 if !valid.is_empty() => {
                            let k = r.idx(valid.len());
                            valid[..=k].iter().map(|x| x.1.qty).sum::<i64>() + r.range(0, 1)
                        }
                        4 => i64::MAX,
                        _ => r.range(1, total.max(1)),
                    };
                    let mut sum = 0;
                    let mut want = None;
                    for x in &valid {
                        sum += x.1.qty;
                        if sum >= q {
                            want = Some(x.2);
                            break;
                        }
                    }
                    let got = guarded(|| bs.impact_price(q, t, o));
                    c.eval();
                    if got != Ok(want) {
                        c.violate("impact-price", format!("impact price of {q}: {got:?}, expected {want:?}; {}", describe()));
                        return;
                    }
                    if valid.len() > 1 {
                        c.count("depth over several orders");
                        let mut sig = mix(kind as u64 ^ q as u64) ^ limit as u64;
                        for x in &valid {
                            sig = mix(sig ^ (x.2 as u64) << 3 ^ x.1.qty as u64);
                        }
                        c.nontrivial(sig);
                    }
                    if live.len() > 80 && valid.len() < 20 && !valid.is_empty() {
                        c.count("few valid orders among many");
                    }
                    if valid.len() < live.len() {
                        c.count("depth with invalid orders present");
                    }
                }
            }
            if c.want_sample && valid.len() > 2 && c.stats.samples.is_empty() {
                let s = describe();
                c.stats.samples.push(s);
            }
        }
        if mem.bytes() != &before[..] {
            c.violate("depth-change", "a query changed the book".into());
            return;
        }
    }
}
