//! Decoder for the program's accounts, working on byte offsets of the published layouts.
//! It also checks the internal structure of the order trees and of the event queue.

use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub fn u8_(d: &[u8], o: usize) -> u8 {
    d[o]
}
pub fn u16_(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub fn u32_(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u64_(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn i64_(d: &[u8], o: usize) -> i64 {
    i64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn u128_(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn f64_(d: &[u8], o: usize) -> f64 {
    f64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn key_(d: &[u8], o: usize) -> Pubkey {
    Pubkey::try_from(&d[o..o + 32]).unwrap()
}
fn opt(k: Pubkey) -> Option<Pubkey> {
    if k == Pubkey::default() {
        None
    } else {
        Some(k)
    }
}

pub const MARKET_LEN: usize = 848;
pub const OO_LEN: usize = 1264;
pub const SIDE_LEN: usize = 90952;
pub const HEAP_LEN: usize = 91288;
pub const STUB_LEN: usize = 208;
pub const MAX_NODES: usize = 1024;
pub const MAX_EVENTS: usize = 600;
pub const MAX_OO: usize = 24;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Market {
    pub bump: u8,
    pub base_decimals: u8,
    pub quote_decimals: u8,
    pub authority: Pubkey,
    pub time_expiry: i64,
    pub collect_fee_admin: Pubkey,
    pub open_orders_admin: Option<Pubkey>,
    pub consume_events_admin: Option<Pubkey>,
    pub close_market_admin: Option<Pubkey>,
    pub name: [u8; 16],
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub event_heap: Pubkey,
    pub oracle_a: Option<Pubkey>,
    pub oracle_b: Option<Pubkey>,
    pub conf_filter: f64,
    pub max_staleness: i64,
    pub qls: i64,
    pub bls: i64,
    pub seq_num: u64,
    pub registration_time: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub fees_accrued: u128,
    pub fees_to_referrers: u128,
    pub referrer_rebates_accrued: u64,
    pub fees_available: u64,
    pub maker_volume: u128,
    pub taker_volume_wo_oo: u128,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub base_total: u64,
    pub quote_vault: Pubkey,
    pub quote_total: u64,
}

pub fn market(d: &[u8]) -> Market {
    let mut name = [0; 16];
    name.copy_from_slice(&d[184..200]);
    Market {
        bump: d[8],
        base_decimals: d[9],
        quote_decimals: d[10],
        authority: key_(d, 16),
        time_expiry: i64_(d, 48),
        collect_fee_admin: key_(d, 56),
        open_orders_admin: opt(key_(d, 88)),
        consume_events_admin: opt(key_(d, 120)),
        close_market_admin: opt(key_(d, 152)),
        name,
        bids: key_(d, 200),
        asks: key_(d, 232),
        event_heap: key_(d, 264),
        oracle_a: opt(key_(d, 296)),
        oracle_b: opt(key_(d, 328)),
        conf_filter: f64_(d, 360),
        max_staleness: i64_(d, 368),
        qls: i64_(d, 448),
        bls: i64_(d, 456),
        seq_num: u64_(d, 464),
        registration_time: i64_(d, 472),
        maker_fee: i64_(d, 480),
        taker_fee: i64_(d, 488),
        fees_accrued: u128_(d, 496),
        fees_to_referrers: u128_(d, 512),
        referrer_rebates_accrued: u64_(d, 528),
        fees_available: u64_(d, 536),
        maker_volume: u128_(d, 544),
        taker_volume_wo_oo: u128_(d, 560),
        base_mint: key_(d, 576),
        quote_mint: key_(d, 608),
        base_vault: key_(d, 640),
        base_total: u64_(d, 672),
        quote_vault: key_(d, 680),
        quote_total: u64_(d, 712),
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Slot {
    pub id: u128,
    pub client: u64,
    pub locked_price: i64,
    pub used: bool,
    pub side_tree: u8,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct OpenOrders {
    pub owner: Pubkey,
    pub market: Pubkey,
    pub name: Vec<u8>,
    pub delegate: Option<Pubkey>,
    pub account_num: u32,
    pub bump: u8,
    pub version: u8,
    pub bids_base_lots: i64,
    pub asks_base_lots: i64,
    pub base_free: u64,
    pub quote_free: u64,
    pub locked_maker_fees: u64,
    pub referrer_rebates: u64,
    pub penalty: u64,
    pub maker_volume: u128,
    pub taker_volume: u128,
    pub bids_quote_lots: i64,
    pub slots: Vec<Slot>,
}

pub fn open_orders(d: &[u8]) -> OpenOrders {
    let mut slots = Vec::with_capacity(MAX_OO);
    for i in 0..MAX_OO {
        let o = 304 + 40 * i;
        slots.push(Slot {
            id: u128_(d, o),
            client: u64_(d, o + 16),
            locked_price: i64_(d, o + 24),
            used: d[o + 32] != 1,
            side_tree: d[o + 33],
        });
    }
    OpenOrders {
        owner: key_(d, 8),
        market: key_(d, 40),
        name: d[72..104].to_vec(),
        delegate: opt(key_(d, 104)),
        account_num: u32_(d, 136),
        bump: d[140],
        version: d[141],
        bids_base_lots: i64_(d, 144),
        asks_base_lots: i64_(d, 152),
        base_free: u64_(d, 160),
        quote_free: u64_(d, 168),
        locked_maker_fees: u64_(d, 176),
        referrer_rebates: u64_(d, 184),
        penalty: u64_(d, 192),
        maker_volume: u128_(d, 200),
        taker_volume: u128_(d, 216),
        bids_quote_lots: i64_(d, 232),
        slots,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Leaf {
    pub key: u128,
    pub owner: Pubkey,
    pub slot: u8,
    pub tif: u16,
    pub qty: i64,
    pub ts: u64,
    pub peg_limit: i64,
    pub client: u64,
}

impl Leaf {
    pub fn expiry(&self) -> u64 {
        if self.tif == 0 {
            u64::MAX
        } else {
            self.ts.saturating_add(self.tif as u64)
        }
    }
    pub fn expired(&self, now: u64) -> bool {
        self.tif > 0 && now >= self.expiry()
    }
    pub fn price_data(&self) -> u64 {
        (self.key >> 64) as u64
    }
}

/// One side of the book: the two trees in ascending key order.
#[derive(Clone, Debug, Default)]
pub struct Side {
    pub trees: [Vec<Leaf>; 2],
    pub kind: u8,
    /// places returned for reuse, and places ever handed out
    pub freed: usize,
    pub bump: usize,
}
impl PartialEq for Side {
    fn eq(&self, o: &Side) -> bool {
        self.trees == o.trees && self.kind == o.kind
    }
}

impl Side {
    /// nodes occupied by a tree with n leaves
    fn used(n: usize) -> usize {
        if n == 0 {
            0
        } else {
            2 * n - 1
        }
    }
    /// no room for one more order with certainty (an insert may need two places)
    pub fn full(&self) -> bool {
        MAX_NODES - Self::used(self.trees[0].len()) - Self::used(self.trees[1].len()) <= 1
    }
    /// Room for exactly one more order, part of it never handed out so far.
    pub fn nearly_full(&self) -> bool {
        !self.full() && self.freed <= 1 && self.bump >= MAX_NODES - 1
    }
    /// enough places to insert into the tree
    pub fn room(&self, tree: usize) -> bool {
        MAX_NODES - Self::used(self.trees[0].len()) - Self::used(self.trees[1].len()) >= if self.trees[tree].is_empty() { 1 } else { 2 }
    }
    pub fn take(&mut self, tree: usize, key: u128) {
        let v = &mut self.trees[tree];
        if let Some(n) = v.iter().position(|l| l.key == key) {
            self.freed += if v.len() > 1 { 2 } else { 1 };
            v.remove(n);
        }
    }
    pub fn put(&mut self, tree: usize, leaf: Leaf) {
        let v = &mut self.trees[tree];
        for _ in 0..if v.is_empty() { 1 } else { 2 } {
            if self.freed > 0 {
                self.freed -= 1;
            } else {
                self.bump += 1;
            }
        }
        let at = v.partition_point(|l| l.key < leaf.key);
        v.insert(at, leaf);
    }
    pub fn len(&self) -> usize {
        self.trees[0].len() + self.trees[1].len()
    }
}

const N0: usize = 840;
const NSZ: usize = 88;

pub fn leaf(d: &[u8], o: usize) -> Leaf {
    Leaf {
        slot: d[o + 1],
        tif: u16_(d, o + 2),
        key: u128_(d, o + 8),
        owner: key_(d, o + 24),
        qty: i64_(d, o + 56),
        ts: u64_(d, o + 64),
        peg_limit: i64_(d, o + 72),
        client: u64_(d, o + 80),
    }
}

/// Decode a side; the error tells what is structurally wrong.
pub fn side(d: &[u8], deep: bool) -> Result<Side, String> {
    let mut out = Side {
        kind: d[312],
        ..Default::default()
    };
    let mut seen = if deep { vec![false; MAX_NODES] } else { vec![] };
    let mut used_nodes = 0usize;
    for t in 0..2 {
        let root = u32_(d, 8 + 8 * t) as usize;
        let count = u32_(d, 12 + 8 * t) as usize;
        if count > MAX_NODES {
            return Err(format!("tree {t} claims {count} orders"));
        }
        let v = &mut out.trees[t];
        v.reserve(count);
        if count > 0 {
            // (node, prefix length, key bits, expected earliest expiry)
            let mut stack: Vec<(usize, u32, u128, Option<u64>)> = vec![(root, 0, 0, None)];
            // expiry check needs the minimum of each subtree: compute bottom-up afterwards
            let mut inner: Vec<(usize, usize, usize)> = vec![];
            let mut visited = 0usize;
            while let Some((n, plen, pkey, _)) = stack.pop() {
                visited += 1;
                if n >= MAX_NODES {
                    return Err(format!("tree {t} links to node {n}"));
                }
                if visited > 2 * MAX_NODES {
                    return Err(format!("tree {t} has a cycle"));
                }
                if deep {
                    if seen[n] {
                        return Err(format!("node {n} is linked twice"));
                    }
                    seen[n] = true;
                }
                let o = N0 + NSZ * n;
                let same_prefix = |k: u128| plen == 0 || (k ^ pkey) >> (128 - plen) == 0;
                match d[o] {
                    1 => {
                        let pl = u32_(d, o + 4);
                        let k = u128_(d, o + 8);
                        if deep {
                            if pl > 127 || (plen > 0 && pl < plen) || !same_prefix(k) {
                                return Err(format!("inner node {n} of tree {t} has a wrong prefix"));
                            }
                            inner.push((n, u32_(d, o + 24) as usize, u32_(d, o + 28) as usize));
                        }
                        if pl > 127 {
                            return Err(format!("inner node {n} prefix {pl}"));
                        }
                        let bit = 1u128 << (127 - pl);
                        let mask = if pl == 0 { 0 } else { !0u128 << (128 - pl) };
                        // right first so that the left one is visited first
                        stack.push((u32_(d, o + 28) as usize, pl + 1, (k & mask) | bit, None));
                        stack.push((u32_(d, o + 24) as usize, pl + 1, k & mask, None));
                    }
                    2 => {
                        let l = leaf(d, o);
                        if deep && !same_prefix(l.key) {
                            return Err(format!("leaf {n} of tree {t} is in the wrong subtree"));
                        }
                        v.push(l);
                    }
                    x => return Err(format!("tree {t} links to node {n} of kind {x}")),
                }
                if v.len() > count {
                    return Err(format!("tree {t} holds more orders than its count {count}"));
                }
            }
            if v.len() != count {
                return Err(format!("tree {t} holds {} orders, its count says {count}", v.len()));
            }
            used_nodes += visited;
            if deep {
                let mut exp: BTreeMap<usize, u64> = BTreeMap::new();
                for (n, l, r) in inner.iter().rev() {
                    let e = |c: usize| -> u64 {
                        let o = N0 + NSZ * c;
                        if d[o] == 2 {
                            leaf(d, o).expiry()
                        } else {
                            exp.get(&c).copied().unwrap_or(u64::MAX)
                        }
                    };
                    let (el, er) = (e(*l), e(*r));
                    let o = N0 + NSZ * n;
                    if u64_(d, o + 32) != el || u64_(d, o + 40) != er {
                        return Err(format!(
                            "inner node {n} of tree {t} tracks expiries {}/{} instead of {el}/{er}",
                            u64_(d, o + 32),
                            u64_(d, o + 40)
                        ));
                    }
                    exp.insert(*n, el.min(er));
                }
            }
        }
    }
    let bump = u32_(d, 316) as usize;
    let flen = u32_(d, 320) as usize;
    if bump > MAX_NODES || used_nodes + flen != bump {
        return Err(format!(
            "{used_nodes} places used and {flen} free, but {bump} were ever handed out"
        ));
    }
    out.bump = bump;
    out.freed = flen;
    if deep {
        let mut cur = u32_(d, 324) as usize;
        for i in 0..flen {
            if cur >= MAX_NODES {
                return Err(format!("free list leads to {cur}"));
            }
            if seen[cur] {
                return Err(format!("free list contains node {cur} which is in use or listed twice"));
            }
            seen[cur] = true;
            let o = N0 + NSZ * cur;
            let want = if i + 1 == flen { 4 } else { 3 };
            if d[o] != want {
                return Err(format!("free node {cur} has kind {} instead of {want}", d[o]));
            }
            cur = u32_(d, o + 4) as usize;
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Fill {
        taker_side: u8,
        maker_out: bool,
        maker_slot: u8,
        ts: u64,
        seq: u64,
        maker: Pubkey,
        maker_ts: u64,
        taker: Pubkey,
        taker_client: u64,
        price: i64,
        peg_limit: i64,
        qty: i64,
        maker_client: u64,
    },
    Out {
        side: u8,
        slot: u8,
        ts: u64,
        seq: u64,
        owner: Pubkey,
        qty: i64,
    },
    Unknown(Vec<u8>),
}

impl Event {
    pub fn account(&self) -> Pubkey {
        match self {
            Event::Fill { maker, .. } => *maker,
            Event::Out { owner, .. } => *owner,
            _ => Pubkey::default(),
        }
    }
}

pub fn event(d: &[u8], o: usize) -> Event {
    match d[o] {
        0 => Event::Fill {
            taker_side: d[o + 1],
            maker_out: d[o + 2] == 1,
            maker_slot: d[o + 3],
            ts: u64_(d, o + 8),
            seq: u64_(d, o + 16),
            maker: key_(d, o + 24),
            maker_ts: u64_(d, o + 56),
            taker: key_(d, o + 64),
            taker_client: u64_(d, o + 96),
            price: i64_(d, o + 104),
            peg_limit: i64_(d, o + 112),
            qty: i64_(d, o + 120),
            maker_client: u64_(d, o + 128),
        },
        1 => Event::Out {
            side: d[o + 1],
            slot: d[o + 2],
            ts: u64_(d, o + 8),
            seq: u64_(d, o + 16),
            owner: key_(d, o + 24),
            qty: i64_(d, o + 56),
        },
        _ => Event::Unknown(d[o..o + 144].to_vec()),
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Heap {
    pub events: Vec<(u16, Event)>,
    pub seq: u64,
}

pub fn heap(d: &[u8], deep: bool) -> Result<Heap, String> {
    let count = u16_(d, 12) as usize;
    let mut h = Heap {
        events: Vec::with_capacity(count),
        seq: u64_(d, 16),
    };
    if count > MAX_EVENTS {
        return Err(format!("queue claims {count} events"));
    }
    let node = |i: usize| 24 + 152 * i;
    let mut seen = vec![false; MAX_EVENTS];
    let first = u16_(d, 10) as usize;
    let mut cur = first;
    let mut prev = None;
    for _ in 0..count {
        if cur >= MAX_EVENTS {
            return Err(format!("queue links to slot {cur}"));
        }
        if seen[cur] {
            return Err(format!("queue visits slot {cur} twice"));
        }
        seen[cur] = true;
        let o = node(cur);
        if u16_(d, o + 2) == u16::MAX {
            return Err(format!("queued slot {cur} is marked free"));
        }
        if let Some(p) = prev {
            if u16_(d, o + 2) as usize != p {
                return Err(format!("slot {cur} links back to {} instead of {p}", u16_(d, o + 2)));
            }
        }
        prev = Some(cur);
        h.events.push((cur as u16, event(d, o + 8)));
        cur = u16_(d, o) as usize;
    }
    if count > 0 {
        if cur != first {
            return Err("queue does not close its circle".into());
        }
        if u16_(d, node(first) + 2) as usize != prev.unwrap() {
            return Err("queue head does not link back to its tail".into());
        }
    }
    if deep {
        let mut cur = u16_(d, 8) as usize;
        for _ in count..MAX_EVENTS {
            if cur >= MAX_EVENTS {
                return Err(format!("free list ends early at {cur}"));
            }
            if seen[cur] {
                return Err(format!("free list contains slot {cur} which is used or listed twice"));
            }
            seen[cur] = true;
            if u16_(d, node(cur) + 2) != u16::MAX {
                return Err(format!("free slot {cur} is not marked free"));
            }
            cur = u16_(d, node(cur)) as usize;
        }
    }
    Ok(h)
}

/// Everything about one market that the monitors look at.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Snap {
    pub m: Market,
    pub bids: Side,
    pub asks: Side,
    pub heap: Heap,
    pub oos: BTreeMap<Pubkey, OpenOrders>,
    /// balances of the token accounts of interest
    pub tok: BTreeMap<Pubkey, u64>,
    /// lamports of the accounts of interest
    pub lam: BTreeMap<Pubkey, u64>,
}

impl Snap {
    pub fn side(&self, s: u8) -> &Side {
        if s == 0 {
            &self.bids
        } else {
            &self.asks
        }
    }
    pub fn side_mut(&mut self, s: u8) -> &mut Side {
        if s == 0 {
            &mut self.bids
        } else {
            &mut self.asks
        }
    }
}
