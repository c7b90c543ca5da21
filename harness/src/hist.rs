//! Histories: random instruction sequences executed by the real program, every step judged by the
//! reference model and by invariants over the resulting accounts.

use crate::layout::*;
use crate::model::*;
use crate::report::Case;
use crate::rng::{hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use openbook_v2::state::{OpenOrder, OpenOrdersAccount};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

/// Shape of a workload.
#[derive(Clone)]
pub struct Profile {
    pub steps: usize,
    pub users: usize,
    pub oos: usize,
    /// weights: place, pegged, edit, batch, take, cancel, consume, deposit, settle, sweep, delegate,
    /// oracle, clock, donate, more-accounts, set-expired, prune
    pub w: [u32; 17],
    pub spread: i64,
    pub max_size: i64,
    pub expiring: (u64, u64),
    pub own: (u64, u64),
    pub supply: u8,
    pub wild: bool,
    pub poor: bool,
    pub fees: u8,
    pub wind_down: bool,
    pub prefill: usize,
    pub oracle: u8,
    pub few_clients: bool,
    pub big_limits: bool,
    /// seconds until the market expires
    pub expires: Option<i64>,
    /// all optional admins are set
    pub admins: bool,
    /// settle through the closing admin often
    pub expired_settles: bool,
}

pub fn base_profile() -> Profile {
    Profile {
        steps: 120,
        users: 4,
        oos: 5,
        w: [30, 8, 6, 6, 10, 8, 10, 4, 6, 2, 1, 5, 6, 1, 1, 0, 0],
        spread: 6,
        max_size: 30,
        expiring: (1, 5),
        own: (1, 8),
        supply: 1,
        wild: false,
        poor: false,
        fees: 0,
        wind_down: true,
        prefill: 0,
        oracle: 0,
        few_clients: true,
        big_limits: false,
        expires: None,
        admins: false,
        expired_settles: false,
    }
}

pub struct Hist {
    pub w: World,
    pub r: Rng,
    pub p: Profile,
    pub centre: i64,
    pub donated: [u64; 2],
    pub seen_ids: BTreeSet<u64>,
    pub signers: Vec<Pubkey>,
}

/// a deviation between what happened and what must happen
pub struct Diff {
    pub facet: String,
    pub text: String,
}

fn d(v: &mut Vec<Diff>, facet: impl Into<String>, text: impl Into<String>) {
    v.push(Diff {
        facet: facet.into(),
        text: text.into(),
    })
}

macro_rules! cmp_field {
    ($v:expr, $pre:expr, $a:expr, $b:expr, $($f:ident),*) => {
        $( if $a.$f != $b.$f {
            d($v, format!("{}{}", $pre, stringify!($f)), format!("{}{} is {:?}, must be {:?}", $pre, stringify!($f), $a.$f, $b.$f));
        } )*
    };
}

pub fn log_name(e: &[u8]) -> String {
    for n in [
        "DepositLog",
        "FillLog",
        "TakerSignatureLog",
        "MarketMetaDataLog",
        "TotalOrderFillEvent",
        "SetDelegateLog",
        "SettleFundsLog",
        "SweepFeesLog",
        "OpenOrdersPositionLog",
    ] {
        if e.len() >= 8 && e[..8] == disc("event", n) {
            return n.into();
        }
    }
    "unknown".into()
}

fn used(o: &OpenOrders) -> Vec<(usize, Slot)> {
    o.slots.iter().cloned().enumerate().filter(|(_, s)| s.used).collect()
}

fn show_leaf(l: &Leaf) -> String {
    format!("[price {} seq {} qty {} ts {} tif {} peg {} client {} slot {}]", l.price_data() as i64, l.key as u64, l.qty, l.ts, l.tif, l.peg_limit, l.client, l.slot)
}

fn show_side_diff(a: &Side, b: &Side) -> String {
    let mut s = String::new();
    for t in 0..2 {
        for l in &a.trees[t] {
            if !b.trees[t].contains(l) {
                s += &format!(" has {}{}", ["fixed", "pegged"][t], show_leaf(l));
            }
        }
        for l in &b.trees[t] {
            if !a.trees[t].contains(l) {
                s += &format!(" lacks {}{}", ["fixed", "pegged"][t], show_leaf(l));
            }
        }
    }
    s
}

/// compare the observed state with the expected one
pub fn compare(v: &mut Vec<Diff>, op: &Op, mk: &Mk, got: &Snap, want: &Snap) {
    cmp_field!(
        v, "m.", got.m, want.m, time_expiry, seq_num, fees_accrued, fees_to_referrers, referrer_rebates_accrued, fees_available, maker_volume,
        taker_volume_wo_oo, base_total, quote_total
    );
    let fixed = |m: &Market| {
        let mut x = m.clone();
        x.time_expiry = 0;
        x.seq_num = 0;
        x.fees_accrued = 0;
        x.fees_to_referrers = 0;
        x.referrer_rebates_accrued = 0;
        x.fees_available = 0;
        x.maker_volume = 0;
        x.taker_volume_wo_oo = 0;
        x.base_total = 0;
        x.quote_total = 0;
        x
    };
    if fixed(&got.m) != fixed(&want.m) {
        d(v, "m.parameters", "market parameters changed");
    }
    let own_side = match op {
        Op::Place { req, .. } | Op::Edit { req, .. } | Op::Take { req, .. } => Some(req.side),
        _ => None,
    };
    for s in 0..2u8 {
        if got.side(s) != want.side(s) {
            let f = match own_side {
                Some(o) if o == s => "book.own",
                Some(_) => "book.opp",
                None => "book.any",
            };
            d(v, f, format!("{} differ:{}", ["bids", "asks"][s as usize], show_side_diff(got.side(s), want.side(s))));
        }
    }
    let evs = |h: &Heap| h.events.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
    if evs(&got.heap) != evs(&want.heap) {
        d(v, "heap", format!("event queue is {:?}, must be {:?}", evs(&got.heap).iter().rev().take(4).collect::<Vec<_>>(), evs(&want.heap).iter().rev().take(4).collect::<Vec<_>>()));
    }
    if got.heap.seq != want.heap.seq {
        d(v, "heap.seq", "event counter");
    }
    let own = op.oo();
    for (k, b) in &want.oos {
        let pre = if Some(*k) == own { "oo.self." } else { "oo.other." };
        let a = match got.oos.get(k) {
            Some(a) => a,
            None => {
                d(v, format!("{pre}gone"), format!("{k} disappeared"));
                continue;
            }
        };
        cmp_field!(
            v, pre, a, b, owner, market, name, delegate, account_num, bump, version, bids_base_lots, asks_base_lots, base_free, quote_free, locked_maker_fees,
            referrer_rebates, penalty, maker_volume, taker_volume, bids_quote_lots
        );
        if used(a) != used(b) {
            d(v, format!("{pre}slots"), format!("open orders are {:?}, must be {:?}", used(a), used(b)));
        }
    }
    for (k, b) in &want.tok {
        let a = got.tok.get(k).copied().unwrap_or(0);
        if a != *b {
            let f = if *k == mk.base_vault || *k == mk.quote_vault { "tok.vault" } else { "tok.wallet" };
            d(v, f, format!("token account {k} holds {a}, must hold {b}"));
        }
    }
    for (k, b) in &want.lam {
        let a = got.lam.get(k).copied().unwrap_or(0);
        if a != *b {
            d(v, "lam", format!("account {k} has {a} lamports, must have {b}"));
        }
    }
}

/// what must hold in every state
pub fn invariants(v: &mut Vec<Diff>, s: &Snap, mk: &Mk, donated: &[u64; 2]) {
    let m = &s.m;
    // --- conservation
    let (mut base, mut quote, mut rebates) = (0i128, m.fees_available as i128, 0i128);
    for o in s.oos.values() {
        base += o.base_free as i128 + o.asks_base_lots as i128 * m.bls as i128;
        quote += o.quote_free as i128 + o.bids_quote_lots as i128 * m.qls as i128 + o.locked_maker_fees as i128 + o.referrer_rebates as i128;
        rebates += o.referrer_rebates as i128;
    }
    for (_, e) in &s.heap.events {
        if let Event::Fill { taker_side, maker, taker, price, qty, .. } = e {
            let q = *qty as i128 * *price as i128 * m.qls as i128;
            let b = *qty as i128 * m.bls as i128;
            let rebate = if maker == taker { 0 } else { rebate_floor(m, q) };
            if *taker_side == 0 {
                base -= b;
                quote += q + rebate;
            } else {
                base += b;
                quote += rebate - q;
            }
        }
    }
    if base != m.base_total as i128 {
        d(v, "inv.conservation", format!("traders are owed {base} base, the market records {}", m.base_total));
    }
    if quote != m.quote_total as i128 {
        d(v, "inv.conservation", format!("traders are owed {quote} quote, the market records {}", m.quote_total));
    }
    if rebates != m.referrer_rebates_accrued as i128 {
        d(v, "inv.rebates", format!("accounts hold {rebates} rebates, the market records {}", m.referrer_rebates_accrued));
    }
    for (vault, total, don) in [(mk.base_vault, m.base_total, donated[0]), (mk.quote_vault, m.quote_total, donated[1])] {
        let have = s.tok.get(&vault).copied().unwrap_or(0) as u128;
        if have != total as u128 + don as u128 {
            d(v, "inv.conservation", format!("vault holds {have}, deposits are {total} plus {don} donated"));
        }
    }
    // --- table and book
    let mut release: BTreeMap<(Pubkey, u8), usize> = BTreeMap::new();
    let mut pend: BTreeMap<Pubkey, [i128; 4]> = BTreeMap::new(); // bids base, bids quote, asks base, fees
    for (_, e) in &s.heap.events {
        match e {
            Event::Fill { taker_side, maker_out, maker_slot, maker, price, peg_limit, qty, .. } => {
                if *maker_out {
                    *release.entry((*maker, *maker_slot)).or_default() += 1;
                }
                let p = pend.entry(*maker).or_default();
                if *taker_side == 1 {
                    let lock = if *peg_limit != -1 { *peg_limit } else { *price };
                    p[0] += *qty as i128;
                    p[1] += *qty as i128 * lock as i128;
                    p[3] += maker_fee_floor(m, *qty as i128 * lock as i128 * m.qls as i128);
                } else {
                    p[2] += *qty as i128;
                }
                if *qty <= 0 {
                    d(v, "inv.table", "queued fill without quantity");
                }
            }
            Event::Out { side, slot, owner, qty, .. } => {
                *release.entry((*owner, *slot)).or_default() += 1;
                let lock = s.oos.get(owner).and_then(|o| o.slots.get(*slot as usize)).map(|x| x.locked_price).unwrap_or(0);
                let p = pend.entry(*owner).or_default();
                if *side == 0 {
                    p[0] += *qty as i128;
                    p[1] += *qty as i128 * lock as i128;
                    p[3] += maker_fee_ceil(m, *qty as i128 * lock as i128 * m.qls as i128);
                } else {
                    p[2] += *qty as i128;
                }
            }
            Event::Unknown(_) => d(v, "inv.table", "unknown event in the queue"),
        }
    }
    let mut resting: BTreeMap<(Pubkey, u8), (u8, &Leaf)> = BTreeMap::new();
    let mut seqs = BTreeSet::new();
    for sd in 0..2u8 {
        if s.side(sd).kind != sd {
            d(v, "decode.tree", "book side has the wrong kind");
        }
        for t in 0..2u8 {
            for l in &s.side(sd).trees[t as usize] {
                if l.qty <= 0 {
                    d(v, "inv.table", format!("resting order without quantity {}", show_leaf(l)));
                }
                let seq = if sd == 0 { !(l.key as u64) } else { l.key as u64 };
                if !seqs.insert(seq) || seq > m.seq_num {
                    d(v, "inv.ids", format!("order number {seq} used twice or above the counter {}", m.seq_num));
                }
                if (t == 1) != (l.peg_limit != -1) {
                    d(v, "inv.table", format!("order in the wrong tree {}", show_leaf(l)));
                }
                if resting.insert((l.owner, l.slot), (sd + 2 * t, l)).is_some() {
                    d(v, "inv.table", "two resting orders share one table entry");
                }
            }
        }
    }
    let mut matched = 0;
    for (k, o) in &s.oos {
        let (mut bb, mut bq, mut ab, mut fees) = (0i128, 0i128, 0i128, 0i128);
        for (n, sl) in used(o) {
            let r = release.get(&(*k, n as u8)).copied().unwrap_or(0);
            match resting.get(&(*k, n as u8)) {
                Some((st, l)) => {
                    matched += 1;
                    if l.key != sl.id || l.client != sl.client || *st != sl.side_tree {
                        d(v, "inv.table", format!("entry {n} {sl:?} does not describe the resting order {}", show_leaf(l)));
                    }
                    if r > 0 {
                        d(v, "inv.table", format!("entry {n} rests on the book and has a releasing event"));
                    }
                    let lock_ok = match *st {
                        0 | 1 => sl.locked_price == l.price_data() as i64,
                        2 => sl.locked_price == l.peg_limit,
                        _ => true,
                    };
                    if !lock_ok {
                        d(v, "inv.table", format!("entry {n} locked at {} for {}", sl.locked_price, show_leaf(l)));
                    }
                    let q = l.qty as i128 * sl.locked_price as i128;
                    if st % 2 == 0 {
                        bb += l.qty as i128;
                        bq += q;
                        fees += maker_fee_ceil(m, q * m.qls as i128);
                    } else {
                        ab += l.qty as i128;
                    }
                }
                None => {
                    if r != 1 {
                        d(v, "inv.table", format!("entry {n} of {k} is used, not on the book and has {r} releasing events"));
                    }
                }
            }
        }
        let p = pend.get(k).copied().unwrap_or_default();
        if bb + p[0] != o.bids_base_lots as i128 || bq + p[1] != o.bids_quote_lots as i128 || ab + p[2] != o.asks_base_lots as i128 {
            d(
                v,
                "inv.lots",
                format!(
                    "position records {}/{} bid and {} ask lots, orders and queue imply {}/{} and {}",
                    o.bids_base_lots,
                    o.bids_quote_lots,
                    o.asks_base_lots,
                    bb + p[0],
                    bq + p[1],
                    ab + p[2]
                ),
            );
        }
        if (o.locked_maker_fees as i128) < fees + p[3] {
            d(v, "inv.fees", format!("{} fees reserved, orders and queue need {}", o.locked_maker_fees, fees + p[3]));
        }
    }
    if matched != resting.len() {
        d(v, "inv.table", "a resting order has no table entry");
    }
}

const ORDER: [&str; 7] = ["place", "place_pegged", "edit", "edit_pegged", "batch", "cancel_and_batch", "take"];

/// does a deviation concern the property?
pub fn relevant(prop: &str, kind: &str, facet: &str, tags: &BTreeSet<&'static str>, wild: bool) -> bool {
    let order = ORDER.contains(&kind);
    let verdict = facet.starts_with("verdict");
    let any = |l: &[&str]| l.iter().any(|t| tags.contains(t));
    let is = |l: &[&str]| l.iter().any(|f| facet.starts_with(f));
    let cancel = kind.starts_with("cancel") || kind.starts_with("prune");
    match prop {
        "C01" => is(&["inv.conservation", "tok.vault", "m.base_total", "m.quote_total", "wind-down"]),
        "C02" => order && (is(&["decode.tree", "book.opp", "heap", "logs.FillLog"]) || (kind.contains("batch") && is(&["book.any"])) || (verdict && any(&["match"]))),
        "C03" => {
            order
                && (verdict
                    || is(&[
                        "tok.", "calls.token", "oo.self.base_free", "oo.self.quote_free", "oo.self.locked", "m.base_total", "m.quote_total", "book.", "logs.TotalOrderFillEvent",
                    ]))
        }
        "C04" => order && (verdict || is(&["book.", "ret", "oo.self.slots", "oo.self.bids_", "oo.self.asks_", "heap"])),
        "C05" => any(&["self", "self-fill"]),
        "C06" => {
            is(&["m.fees", "m.referrer", "m.maker_volume", "m.taker_volume", "inv.rebates", "inv.fees", "oo.self.referrer", "oo.other.referrer"])
                || facet.ends_with("_volume")
                || facet.ends_with("locked_maker_fees")
                || (any(&["fee", "makerfee", "rebate", "roundoff", "referrer-paid", "swept", "rebate-to-fees"])
                    && (facet.ends_with("quote_free") || is(&["tok.", "m.quote_total", "logs.TotalOrderFillEvent", "logs.FillLog", "verdict"])))
        }
        "C07" => cancel || (kind.starts_with("edit") && any(&["cancelled", "already-gone"])),
        "C08" => is(&["decode.queue"]) || kind.starts_with("consume") || (order && is(&["heap", "oo.other."])) || facet.starts_with("fork") || (order && verdict && any(&["heap-push", "inline"])),
        "C09" => is(&["decode.queue"]),
        "C10" => is(&["decode.tree"]),
        "C13" => any(&["expired-drop", "own-side-expired", "already-expired", "expiry-clamped", "expiring-post", "drop-limit", "tif-met"]) || (any(&["event-out"])),
        "C14" => kind.ends_with("pegged") || any(&["peg-met", "peg-fill", "peg-drop", "peg-event", "peg-cancel", "peg-refund", "no-oracle", "beyond-peg-limit"]),
        "C15" => any(&["full", "evict", "full-refuse", "own-side-expired"]),
        "C17" => verdict && facet == "verdict.accepted",
        "C16" => kind.starts_with("settle") || kind == "sweep" || facet == "wind-down",
        "C18" => ["set_expired", "prune", "settle_expired", "close_market", "create_market"].contains(&kind) || any(&["market-expired"]) || facet == "m.parameters" || facet == "m.time_expiry",
        "C19" => kind == "set_delegate" || facet.ends_with(".owner") || facet.ends_with(".market") || facet.ends_with(".name") || facet.ends_with(".delegate") || facet.ends_with("account_num") || facet.ends_with(".gone"),
        "C20" => is(&["inv.table", "inv.lots", "decode."]) || facet.ends_with("slots") || facet.ends_with("_lots"),
        "C21" => wild || is(&["foreign", "failed-but-changed", "lamports-created"]),
        "C23" => is(&["logs."]),
        "C28" => facet == "interface",
        "C29" => kind.starts_with("edit") || kind.contains("batch"),
        "C30" => kind == "deposit" || kind == "refill" || is(&["calls.", "tok.", "lam"]),
        "C31" => is(&["m.seq_num", "inv.ids", "ret"]) || (order && is(&["book.own", "book.any"])),
        "C32" => facet.ends_with("penalty") || is(&["lam", "calls.system"]) || (kind == "settle" && verdict && any(&["penalty-paid"])),
        _ => false,
    }
}

/// stands in where the account type no longer has this query
trait NoOrders {
    fn has_no_orders(&self) -> bool;
}
impl NoOrders for OpenOrdersAccount {
    fn has_no_orders(&self) -> bool {
        self.all_orders_in_use().next().is_none()
    }
}

/// What an account says about its own table, against the table.
fn own_answers(data: &[u8], o: &OpenOrders, s: &Snap) -> Option<String> {
    let a: OpenOrdersAccount = bytemuck::pod_read_unaligned(&data[8..8 + std::mem::size_of::<OpenOrdersAccount>()]);
    let same = |x: &OpenOrder, y: &Slot| x.id == y.id && x.client_id == y.client && x.locked_price == y.locked_price && x.side_and_tree == y.side_tree;
    let used: Vec<&Slot> = o.slots.iter().filter(|x| x.used).collect();
    let said: Vec<&OpenOrder> = a.all_orders_in_use().collect();
    if said.len() != used.len() || said.iter().zip(&used).any(|(x, y)| !same(x, y)) {
        return Some(format!("lists {} entries in use, the table has {}", said.len(), used.len()));
    }
    if a.all_orders().count() != o.slots.len() {
        return Some("does not list the whole table".into());
    }
    if a.has_no_orders() != used.is_empty() {
        return Some(format!("says it has {} orders with {} entries in use", if a.has_no_orders() { "no" } else { "some" }, used.len()));
    }
    let lots = o.bids_base_lots != 0 || o.asks_base_lots != 0;
    if a.position.has_open_orders() != lots {
        return Some(format!("position says open orders: {}, lots on book {} and {}", a.position.has_open_orders(), o.bids_base_lots, o.asks_base_lots));
    }
    match a.next_order_slot() {
        Ok(n) if n >= o.slots.len() || o.slots[n].used => return Some(format!("offers slot {n} for the next order, which is in use")),
        Err(_) if used.len() < o.slots.len() => return Some("finds no slot for the next order though one is free".into()),
        _ => {}
    }
    let mut ids: BTreeSet<u128> = used.iter().map(|x| x.id).collect();
    let mut clients: BTreeSet<u64> = used.iter().map(|x| x.client).collect();
    // orders of others, orders gone and ids that never were
    ids.extend(s.oos.values().flat_map(|o| o.slots.iter()).map(|x| x.id));
    clients.extend(s.oos.values().flat_map(|o| o.slots.iter()).map(|x| x.client));
    ids.extend([0, 1, u128::MAX]);
    clients.extend([0, 1, u64::MAX]);
    for id in ids {
        match (a.find_order_with_order_id(id), used.iter().any(|x| x.id == id)) {
            (Some(x), _) if x.is_free() || x.id != id => return Some(format!("finds another entry for order {id}")),
            (Some(_), false) => return Some(format!("finds order {id}, which it does not have")),
            (None, true) => return Some(format!("does not find its order {id}")),
            _ => {}
        }
    }
    for id in clients {
        match (a.find_order_with_client_order_id(id), used.iter().any(|x| x.client == id)) {
            (Some(x), _) if x.is_free() || x.client_id != id => return Some(format!("finds another entry for client id {id}")),
            (Some(_), false) => return Some(format!("finds client id {id}, which it does not have")),
            (None, true) => return Some(format!("does not find client id {id}")),
            _ => {}
        }
    }
    for (n, x) in o.slots.iter().enumerate() {
        let y = a.open_order_by_raw_index(n);
        if y.is_free() == x.used || (x.used && !same(y, x)) {
            return Some(format!("shows entry {n} otherwise than the table"));
        }
    }
    None
}

const FACETS: [&str; 16] = [
    "inv.conservation", "tok.vault", "book.opp", "book.own", "book.any", "heap", "verdict.refused", "oo.self.slots", "oo.other.quote_free", "oo.self.penalty", "m.fees_accrued",
    "m.seq_num", "logs.FillLog", "calls.token", "inv.table", "ret",
];

/// could a deviation in this step concern the property at all?
pub fn concerns(prop: &str, kind: &str, tags: &BTreeSet<&'static str>, wild: bool) -> bool {
    FACETS.iter().any(|f| relevant(prop, kind, f, tags, wild))
}

impl Hist {
    pub fn new(c: &mut Case, p: Profile) -> Option<Hist> {
        let mut r = Rng::new(c.seed);
        let mut params = rand_params(&mut r);
        match p.fees {
            1 => {
                params.taker_fee = *r.pick(&[100, 400, 1000, 50_000]);
                params.maker_fee = -r.range(0, params.taker_fee);
            }
            2 => {
                params.taker_fee = *r.pick(&[0, 100, 1000, 50_000]);
                params.maker_fee = *r.pick(&[1, 100, 1000, 30_000, 333_333]);
            }
            _ => {}
        }
        match p.oracle {
            1 => params.oracles = 1 + r.below(2) as u8,
            2 => params.oracles = 1,
            _ => {}
        }
        params.staleness = if r.chance(1, 4) { Some(r.below(60) as u32) } else { None };
        if p.wind_down {
            params.admins.2 = r.chance(9, 10);
        }
        if p.admins {
            params.admins = (true, true, true);
        }
        if let Some(t) = p.expires {
            params.expiry = Bank::new().ts + r.range(1, t);
        }
        let centre = if p.wild {
            *r.pick(&[1, 100, 1_000_000, i64::MAX / 2, i64::MAX / 4])
        } else {
            *r.pick(&[3i64, 20, 100, 1000, 25_000])
        };
        // pegged orders need a price that the oracle can express exactly
        let mul = |a: i64, b: i64, n: u64| -> u64 { (a as u128 * b as u128 * n as u128).min(u64::MAX as u128 / 64) as u64 };
        let scale = if p.poor { 60 } else { 20_000 };
        let mut w = match World::new(params.clone(), p.users, mul(params.bls, 1, scale), mul(params.qls, centre, scale)) {
            Ok(w) => w,
            Err(e) => {
                c.violate("setup", e);
                return None;
            }
        };
        if p.wild {
            for u in w.users.clone() {
                w.bank.set_token_amount(&u.base, u64::MAX / 32);
                w.bank.set_token_amount(&u.quote, u64::MAX / 32);
            }
        }
        while w.users.iter().map(|u| u.oos.len()).sum::<usize>() < p.oos {
            let i = r.idx(w.users.len());
            if let Err(e) = w.add_oo(i, None) {
                c.violate("setup", e);
                return None;
            }
        }
        let mut h = Hist {
            w,
            r,
            p,
            centre,
            donated: [0, 0],
            seen_ids: BTreeSet::new(),
            signers: vec![],
        };
        h.oracle_near(0);
        if h.r.chance(1, 4) {
            h.age();
            c.count("markets with a long past");
        }
        if h.w.params.native != 0 {
            c.count("markets of wrapped SOL");
        }
        Some(h)
    }

    /// counters as after years of trading
    fn age(&mut self) {
        let (mk, r) = (self.w.mk.clone(), &mut self.r);
        let seq = *r.pick(&[(1u64 << 32) - 4, 1 << 33, (1 << 48) - 3, 1 << 62]);
        let heap_seq = *r.pick(&[(1u64 << 32) - 4, (1 << 53) - 2, 1 << 62]);
        let mut volume = |r: &mut Rng| *r.pick(&[(1u128 << 64) - 100, (1 << 63) - 7, 1 << 90, 1 << 32]);
        let d = &mut self.w.bank.accounts.get_mut(&mk.key).unwrap().data;
        d[464..472].copy_from_slice(&seq.to_le_bytes());
        for o in [496, 512, 544, 560] {
            d[o..o + 16].copy_from_slice(&volume(r).to_le_bytes());
        }
        let d = &mut self.w.bank.accounts.get_mut(&mk.heap).unwrap().data;
        d[16..24].copy_from_slice(&heap_seq.to_le_bytes());
        for k in self.w.users.iter().flat_map(|u| u.oos.iter()) {
            let d = &mut self.w.bank.accounts.get_mut(k).unwrap().data;
            for o in [200, 216] {
                d[o..o + 16].copy_from_slice(&volume(r).to_le_bytes());
            }
        }
    }

    /// publish an oracle price of about centre + off lots
    fn oracle_near(&mut self, off: i64) {
        let m = self.w.params.clone();
        let lots = (self.centre as i128 + off as i128).max(0) as f64 + 0.25;
        let native = lots * m.qls as f64 / m.bls as f64;
        let ui = native / 10f64.powi(m.quote_decimals as i32 - m.base_decimals as i32);
        let (bm, qm) = (self.w.mk.base_mint, self.w.mk.quote_mint);
        let ratio = if self.w.mk.oracle_b.is_some() { *self.r.pick(&[1.0, 0.5, 2.0, 4.0]) } else { 1.0 };
        if let Some(a) = self.w.mk.oracle_a {
            self.w.set_stub(a, bm, ui * ratio, 0.0);
        }
        if let Some(b) = self.w.mk.oracle_b {
            self.w.set_stub(b, qm, ratio, 0.0);
        }
    }

    fn all_oos(&self) -> Vec<Pubkey> {
        self.w.users.iter().flat_map(|u| u.oos.iter().copied()).collect()
    }

    fn price(&mut self) -> i64 {
        if self.p.wild && self.r.chance(1, 4) {
            return self.r.wild_i64();
        }
        let s = self.p.spread;
        (self.centre as i128 + self.r.range(-s, s) as i128).clamp(if self.r.chance(1, 60) { 0 } else { 1 }, i64::MAX as i128) as i64
    }

    fn size(&mut self) -> i64 {
        if self.p.wild && self.r.chance(1, 3) {
            return match self.r.below(3) {
                0 => self.r.wild_i64(),
                1 => i64::MAX / self.w.params.bls - self.r.below(3) as i64,
                _ => self.r.range(1, i64::MAX / self.w.params.bls.max(1)),
            };
        }
        if self.r.chance(1, 40) {
            return 0;
        }
        self.r.range(1, self.p.max_size)
    }

    fn quote(&mut self, price: i64, size: i64) -> i64 {
        if self.p.wild && self.r.chance(1, 3) {
            return match self.r.below(3) {
                0 => self.r.wild_i64(),
                1 => i64::MAX / self.w.params.qls + self.r.range(-2, 2).min(0),
                _ => i64::MAX - self.r.below(3) as i64,
            };
        }
        let exact = (price as i128 * size as i128).clamp(0, i64::MAX as i128);
        let cap = (i64::MAX / self.w.params.qls) as i128;
        let v = match self.r.below(8) {
            0 => exact,
            1 => exact * self.r.range(30, 99) as i128 / 100,
            2 => exact + exact * self.w.params.taker_fee as i128 / 1_000_000 + self.r.below(3) as i128,
            3 => self.r.range(0, (self.centre as i128 * 3).clamp(1, 1 << 40) as i64) as i128,
            _ => exact.max(self.centre as i128 * size as i128) * 2 + 10,
        };
        v.clamp(0, cap) as i64
    }

    fn expiry(&mut self) -> u64 {
        let now = self.w.bank.ts as u64;
        if !self.r.chance(self.p.expiring.0, self.p.expiring.1) {
            return 0;
        }
        match self.r.below(12) {
            0 => now,
            1 => now - self.r.below(50),
            2 => now + 65535 + self.r.below(3),
            3 => now + 65535 * 4,
            4 => {
                if self.p.wild {
                    u64::MAX - self.r.below(2)
                } else {
                    now + 1
                }
            }
            _ => now + 1 + self.r.below(25),
        }
    }

    fn client(&mut self) -> u64 {
        if self.p.few_clients {
            // some that differ in their upper half only
            self.r.below(6) | *self.r.pick(&[0u64, 0, 0, 0, 0, 1 << 8, 1 << 32, 1 << 63])
        } else {
            self.r.u64()
        }
    }

    fn limit(&mut self) -> u8 {
        if self.p.big_limits {
            return *self.r.pick(&[255u8, 40, 20, 16, 15, 3]);
        }
        *self.r.pick(&[255u8, 20, 10, 8, 3, 2, 1, 0, 50])
    }

    /// the accounts supplied for immediate settlement
    fn supplied(&mut self, s: &Snap, side: u8, own: Option<Pubkey>) -> Vec<Pubkey> {
        let mode = match self.p.supply {
            0 => 0,
            2 => 3,
            _ => self.r.below(5),
        };
        let mut v: Vec<Pubkey> = match mode {
            0 | 1 => vec![],
            2 => self.all_oos().into_iter().filter(|_| self.r.chance(1, 2)).collect(),
            _ => {
                let mut v: Vec<Pubkey> = vec![];
                for sd in [1 - side, side] {
                    for t in 0..2 {
                        for l in &s.side(sd).trees[t] {
                            if !v.contains(&l.owner) {
                                v.push(l.owner)
                            }
                        }
                    }
                }
                v.truncate(20);
                v
            }
        };
        if !self.r.chance(1, 30) {
            v.retain(|k| Some(*k) != own);
        }
        self.r.shuffle(&mut v);
        if !v.is_empty() && self.r.chance(1, 10) {
            let x = *self.r.pick(&v);
            v.push(x);
        }
        if self.r.chance(1, 10) {
            let k = self.w.users[0].base;
            v.insert(0, k);
        }
        v
    }

    /// an account and someone allowed to act for it, with their wallet
    fn actor(&mut self, s: &Snap) -> (Pubkey, Pubkey, usize) {
        let all = self.all_oos();
        let oo = *self.r.pick(&all);
        let u = self.w.owner_of(&oo);
        let mut signer = self.w.users[u].key;
        let mut wallet_user = u;
        if let Some(dl) = s.oos.get(&oo).and_then(|o| o.delegate) {
            if self.r.chance(1, 2) {
                signer = dl;
                if let Some(i) = self.w.users.iter().position(|x| x.key == dl) {
                    wallet_user = i;
                }
            }
        }
        if self.r.chance(1, 60) {
            let i = self.r.idx(self.w.users.len());
            signer = self.w.users[i].key;
            wallet_user = i;
        }
        (oo, signer, wallet_user)
    }

    fn wallets(&mut self, u: usize) -> (Pubkey, Pubkey) {
        let x = &self.w.users[if self.r.chance(1, 60) { self.r.idx(self.w.users.len()) } else { u }];
        if self.r.chance(1, 8) {
            (x.base2, x.quote2)
        } else {
            (x.base, x.quote)
        }
    }

    fn request(&mut self, s: &Snap, pegged: bool, own: Pubkey) -> Req {
        let side = self.r.below(2) as u8;
        let size = self.size();
        let otype;
        let price;
        let mut p0;
        if pegged {
            let sp = self.p.spread;
            let offset = if self.p.wild && self.r.chance(1, 4) { self.r.wild_i64() } else { self.r.range(-sp, sp) };
            p0 = (self.centre as i128 + offset as i128).clamp(1, i64::MAX as i128) as i64;
            let limit = match self.r.below(6) {
                0 => p0,
                1 => self.price(),
                2 => self.r.wild_i64(),
                _ => {
                    let k = self.r.range(0, 10);
                    (p0 as i128 + if side == 0 { k as i128 } else { -(k as i128) }).clamp(1, i64::MAX as i128) as i64
                }
            };
            price = Price::Pegged { offset, limit };
            p0 = p0.max(if side == 0 { limit.max(1) } else { p0 });
            let odd = if self.r.chance(1, 5) { 1 } else { 0 };
            otype = *self.r.pick(&[0u8, 0, 0, 2, 4, odd]);
        } else {
            let mut p = self.price();
            // aim at the account's own resting orders now and then
            if self.r.chance(self.p.own.0, self.p.own.1) {
                let mine: Vec<i64> = s.side(1 - side).trees[0].iter().filter(|l| l.owner == own).map(|l| l.price_data() as i64).collect();
                if !mine.is_empty() {
                    p = *self.r.pick(&mine);
                }
            }
            p0 = p;
            price = Price::Fixed(p);
            otype = [0u8, 1, 2, 3, 4, 5][self.r.weighted(&[40, 10, 10, 8, 8, 6])];
        }
        let mut req = Req {
            side,
            price,
            max_base: size,
            max_quote: 0,
            client: self.client(),
            otype,
            expiry: self.expiry(),
            stb: [0u8, 1, 2][self.r.weighted(&[5, 4, 1])],
            limit: self.limit(),
        };
        let pq = if otype == 3 { self.centre } else { p0 };
        req.max_quote = self.quote(pq, size);
        req
    }

    fn multis(&mut self, n: usize) -> Vec<Multi> {
        (0..n)
            .map(|_| {
                let price = self.price();
                let size = self.size();
                Multi {
                    price,
                    max_quote: self.quote(price, size),
                    expiry: self.expiry(),
                }
            })
            .collect()
    }

    pub fn gen(&mut self, s: &Snap) -> Option<Op> {
        let k = self.r.weighted(&self.p.w);
        Some(match k {
            0 | 1 => {
                let (oo, signer, u) = self.actor(s);
                let req = self.request(s, k == 1, oo);
                let (b, q) = self.wallets(u);
                let rem = self.supplied(s, req.side, Some(oo));
                Op::Place {
                    oo,
                    signer,
                    wallet: if req.side == 0 { q } else { b },
                    req,
                    rem,
                }
            }
            2 => {
                let (oo, signer, u) = self.actor(s);
                let pegged = self.r.chance(1, 4);
                let mut req = self.request(s, pegged, oo);
                let o = &s.oos[&oo];
                let mine: Vec<Slot> = o.slots.iter().filter(|x| x.used).cloned().collect();
                let (mut cancel, mut expected) = (self.r.below(8), self.r.range(0, 40));
                if !mine.is_empty() && self.r.chance(5, 6) {
                    let sl = self.r.pick(&mine).clone();
                    cancel = sl.client;
                    let on: i64 = mine
                        .iter()
                        .filter(|x| x.client == sl.client)
                        .map(|x| {
                            s.side(x.side_tree % 2).trees[(x.side_tree / 2) as usize]
                                .iter()
                                .find(|l| l.key == x.id)
                                .map(|l| l.qty)
                                .unwrap_or(0)
                        })
                        .fold(0i64, |a, b| a.saturating_add(b));
                    expected = match self.r.below(5) {
                        0 | 1 => on,
                        2 | 3 => on.saturating_add(self.r.range(0, 6)),
                        _ => (on - self.r.range(0, 3)).max(-1),
                    };
                    if self.r.chance(2, 3) {
                        req.max_base = req.max_base.max(self.r.range(1, self.p.max_size));
                    }
                }
                let (b, q) = self.wallets(u);
                let rem = self.supplied(s, req.side, Some(oo));
                Op::Edit {
                    oo,
                    signer,
                    wallet: if req.side == 0 { q } else { b },
                    cancel,
                    expected,
                    req,
                    rem,
                }
            }
            3 => {
                let (oo, signer, u) = self.actor(s);
                let (base, quote) = self.wallets(u);
                let (nb, na) = (self.r.idx(5), self.r.idx(5));
                let rem = self.supplied(s, 0, Some(oo));
                let otype = [0u8, 1, 2, 3, 4, 5][self.r.weighted(&[20, 3, 10, 2, 10, 2])];
                Op::Batch {
                    oo,
                    signer,
                    base,
                    quote,
                    cancel: self.r.chance(1, 2),
                    otype,
                    bids: self.multis(nb),
                    asks: self.multis(na),
                    limit: self.limit(),
                    rem,
                }
            }
            4 => {
                let u = self.r.idx(self.w.users.len());
                let signer = self.w.users[u].key;
                let (base, quote) = self.wallets(u);
                let mut req = self.request(s, false, Pubkey::default());
                req.otype = if self.r.chance(1, 20) { self.r.below(6) as u8 } else { *self.r.pick(&[1u8, 3, 5, 3, 1]) };
                let rem = self.supplied(s, req.side, None);
                Op::Take {
                    signer,
                    payer: if self.r.chance(1, 4) { self.w.payer } else { signer },
                    base,
                    quote,
                    req,
                    rem,
                }
            }
            5 => {
                let (oo, signer, _) = self.actor(s);
                let o = &s.oos[&oo];
                let mine: Vec<Slot> = o.slots.iter().filter(|x| x.used).cloned().collect();
                match self.r.below(5) {
                    0 | 1 => {
                        let id = if mine.is_empty() || self.r.chance(1, 15) {
                            // someone else's order or nonsense
                            let l = s.bids.trees[0].first().or(s.asks.trees[0].first());
                            match l {
                                Some(l) if self.r.chance(2, 3) => l.key,
                                _ => {
                                    if self.r.chance(1, 2) {
                                        0
                                    } else {
                                        self.r.u128()
                                    }
                                }
                            }
                        } else if self.r.chance(1, 12) {
                            // almost one of its own
                            self.r.pick(&mine).id ^ (1u128 << self.r.below(128))
                        } else {
                            self.r.pick(&mine).id
                        };
                        Op::CancelId { oo, signer, id }
                    }
                    2 | 3 => Op::CancelClient {
                        oo,
                        signer,
                        client: if mine.is_empty() {
                            self.client()
                        } else if self.r.chance(1, 10) {
                            self.r.pick(&mine).client ^ (1u64 << self.r.below(64))
                        } else {
                            self.r.pick(&mine).client
                        },
                    },
                    _ => Op::CancelAll {
                        oo,
                        signer,
                        side: *self.r.pick(&[None, Some(0), Some(1)]),
                        limit: *self.r.pick(&[255u8, 1, 2, 3, 0, 30]),
                    },
                }
            }
            6 => {
                let mut rem: Vec<Pubkey> = match self.r.below(4) {
                    0 => self.all_oos(),
                    1 => self.all_oos().into_iter().filter(|_| self.r.chance(1, 2)).collect(),
                    2 => s.heap.events.iter().take(8).map(|x| x.1.account()).collect(),
                    _ => s.heap.events.iter().skip(1).take(3).map(|x| x.1.account()).collect(),
                };
                self.r.shuffle(&mut rem);
                if self.r.chance(1, 2) {
                    Op::Consume {
                        limit: *self.r.pick(&[8u64, 1, 2, 3, 0, 9, 1000]),
                        given: None,
                        rem,
                    }
                } else {
                    let mut g: Vec<u64> = vec![];
                    for _ in 0..self.r.idx(11) {
                        let x = if s.heap.events.is_empty() || self.r.chance(1, 6) {
                            if self.r.chance(1, 12) {
                                *self.r.pick(&[600u64, 600, 599, 601, 1000, 1 << 16, (1 << 32) - 1, 1 << 32, u64::MAX])
                            } else {
                                self.r.below(600)
                            }
                        } else {
                            self.r.pick(&s.heap.events).0 as u64
                        };
                        g.push(x);
                    }
                    Op::Consume {
                        limit: 0,
                        given: Some(g),
                        rem,
                    }
                }
            }
            7 => {
                let all = self.all_oos();
                let oo = *self.r.pick(&all);
                let u = if self.r.chance(1, 4) { self.r.idx(self.w.users.len()) } else { self.w.owner_of(&oo) };
                let (base_acc, quote_acc) = self.wallets(u);
                let o = &s.oos[&oo];
                let amt = |r: &mut Rng, free: u64, lot: i64, wild: bool| match r.below(6) {
                    0 => 0,
                    1 => free,
                    2 => free.saturating_add(r.below(1 + 20 * lot as u64)),
                    3 if wild => r.wild_u64(),
                    _ => r.below(1 + 200 * lot as u64),
                };
                let base = amt(&mut self.r, o.base_free, self.w.params.bls, self.p.wild);
                let quote = amt(&mut self.r, o.quote_free, self.w.params.qls, self.p.wild);
                Op::Deposit {
                    oo,
                    payer: self.w.users[u].key,
                    base_acc,
                    quote_acc,
                    base,
                    quote,
                    refill: self.r.chance(1, 2),
                }
            }
            8 => {
                let (oo, signer, _) = self.actor(s);
                let owner = self.w.owner_of(&oo);
                let (mut base, mut quote) = self.wallets(owner);
                // someone else's, often the signer's own: both, or only one of them
                if self.r.chance(1, 4) {
                    let u = match self.w.users.iter().position(|u| u.key == signer) {
                        Some(u) if self.r.chance(1, 2) => u,
                        _ => self.r.idx(self.w.users.len()),
                    };
                    let which = self.r.below(4);
                    if which != 1 {
                        base = self.w.users[u].base;
                    }
                    if which != 2 {
                        quote = self.w.users[u].quote;
                    }
                }
                let referrer = match self.r.below(3) {
                    0 => Some(*self.r.pick(&self.w.referrers)),
                    1 if self.r.chance(1, 3) => Some(self.w.users[0].quote),
                    _ => None,
                };
                Op::Settle {
                    oo,
                    signer,
                    payer: if self.r.chance(1, 3) { self.w.payer } else { signer },
                    base,
                    quote,
                    referrer,
                    expired: if self.p.expired_settles { self.r.chance(1, 2) } else { self.r.chance(1, 30) },
                }
            }
            9 => Op::Sweep {
                receiver: if self.r.chance(1, 4) { self.w.users[0].quote } else { self.w.fee_receiver },
            },
            10 => {
                let all = self.all_oos();
                let oo = *self.r.pick(&all);
                let u = if self.r.chance(1, 6) { self.r.idx(self.w.users.len()) } else { self.w.owner_of(&oo) };
                let dl = self.r.idx(self.w.users.len());
                Op::SetDelegate {
                    oo,
                    owner: self.w.users[u].key,
                    delegate: match self.r.below(4) {
                        0 => None,
                        1 if self.r.chance(1, 8) => Some(Pubkey::default()),
                        _ => Some(self.w.users[dl].key),
                    },
                }
            }
            11 => {
                if self.w.mk.oracle_a.is_none() {
                    return None;
                }
                let sp = self.p.spread * 2;
                let off = self.r.range(-sp, sp);
                match self.r.below(10) {
                    0 => {
                        let k = self.w.mk.oracle_a.unwrap();
                        let v = *self.r.pick(&[0.0, 1e-9, 1e30, -5.0, f64::NAN, 1.0]);
                        let bm = self.w.mk.base_mint;
                        self.w.set_stub(k, bm, v, 0.0);
                    }
                    1 => {
                        self.oracle_near(off);
                        let k = self.w.mk.oracle_a.unwrap();
                        let p = f64_(self.w.bank.data(&k), 72);
                        let bm = self.w.mk.base_mint;
                        self.w.set_stub(k, bm, p, p * 0.5 + 1.0);
                    }
                    _ => self.oracle_near(off),
                }
                return None;
            }
            12 => {
                let dt = *self.r.pick(&[1i64, 1, 2, 5, 10, 30, 0]);
                self.w.bank.ts += dt;
                self.w.bank.slot += dt as u64 * 2;
                if self.r.chance(1, 40) {
                    self.w.bank.ts += 65536;
                }
                return None;
            }
            13 => {
                let i = self.r.idx(2);
                let k = [self.w.mk.base_vault, self.w.mk.quote_vault][i];
                let a = 1 + self.r.below(100);
                let v = self.w.bank.token_amount(&k);
                if v < u64::MAX / 2 {
                    self.w.bank.set_token_amount(&k, v + a);
                    self.donated[i] += a;
                }
                return None;
            }
            15 => Op::SetExpired,
            16 => {
                let all = self.all_oos();
                Op::Prune {
                    oo: *self.r.pick(&all),
                    limit: *self.r.pick(&[255u8, 0, 1, 3]),
                }
            }
            _ => {
                if self.w.users.len() < 9 && self.r.chance(1, 3) {
                    let (b, q) = (self.w.params.bls as u64 * 1000, (self.w.params.qls as u128 * self.centre as u128 * 1000).min(1 << 60) as u64);
                    let _ = self.w.add_user(b, q);
                } else {
                    let u = self.r.idx(self.w.users.len());
                    if self.w.users[u].oos.len() < 4 {
                        let _ = self.w.add_oo(u, None);
                    }
                }
                return None;
            }
        })
    }

    /// Execute one instruction and judge it. Returns the state afterwards.
    pub fn step(&mut self, c: &mut Case, op: &Op, pre: &Snap) -> Option<Snap> {
        let kind = op.kind();
        let mut ctx = Ctx::new(&self.w, &self.w.mk, pre);
        let verdict = ctx.run(op);
        let exp = ctx.e;
        let built = self.w.mk.build(op);
        let lamports_before = self.w.bank.total_lamports();
        let mut v: Vec<Diff> = vec![];
        let out = if c.property == "C28" {
            let (name, args) = crate::idl::published(op);
            let ix = match crate::idl::rebuild(&built.ix, name, &args) {
                Ok(ix) => ix,
                Err(e) => {
                    d(&mut v, "interface", e);
                    built.ix.clone()
                }
            };
            let out = self.w.bank.exec_opts(&ix, true);
            for e in crate::idl::judge(c, name, &out) {
                d(&mut v, "interface", e);
            }
            if let (Ok(()), Some(code @ 100..=5999)) = (&verdict, out.code()) {
                d(&mut v, "interface", format!("{name} built from the interface was refused with {code}"));
            }
            out
        } else {
            self.w.bank.exec(&built.ix)
        };
        c.eval();
        c.count(kind);
        let wild = self.p.wild;
        c.trace(|| format!("t={} {:?} -> {} (model {:?})", self.w.bank.ts, op, match &out.result { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}").chars().take(120).collect() }, verdict));

        let post = match self.w.snap() {
            Ok(s) => s,
            Err((what, e)) => {
                d(&mut v, format!("decode.{what}"), e);
                self.report(c, kind, &v, &exp.tags, wild);
                return None;
            }
        };
        if self.w.bank.total_lamports() != lamports_before {
            d(&mut v, "lamports-created", "total lamports changed");
        }
        if let Err(ExecErr::Runtime(e)) = &out.result {
            d(&mut v, "foreign", format!("runtime rule broken: {e}"));
        }
        match (&verdict, out.ok()) {
            (Ok(()), true) => {
                c.count("accepted");
                for t in &exp.tags {
                    c.count(&format!("tag:{t}"));
                }
                compare(&mut v, op, &self.w.mk, &post, &exp.s);
                if out.obs.return_data.as_deref().unwrap_or(&[]) != exp.ret.as_deref().unwrap_or(&[]) {
                    d(&mut v, "ret", format!("returned {:?}, must return {:?}", out.obs.return_data, exp.ret));
                }
                self.compare_logs(&mut v, &out.obs.events, &exp.logs);
                self.compare_calls(&mut v, &out.obs.calls, &exp);
                // only the accounts of this market may have changed
                for (k, _) in &out.changed {
                    let ok = post.oos.contains_key(k)
                        || post.tok.contains_key(k)
                        || post.lam.contains_key(k)
                        || [self.w.mk.key, self.w.mk.bids, self.w.mk.asks, self.w.mk.heap].contains(k);
                    if !ok {
                        d(&mut v, "foreign", format!("account {k} changed"));
                    }
                }
                c.count_n("fills", exp.trades.len() as u64);
                let mut sig = hash_str(kind);
                for t in &exp.tags {
                    sig = mix(sig ^ hash_str(t));
                }
                let shape = (exp.trades.len().min(12), pre.heap.events.len().min(20), pre.bids.len().min(30), pre.asks.len().min(30), post.heap.events.len().min(20));
                sig = mix(sig ^ hash_str(&format!("{shape:?}")));
                if !exp.tags.is_empty() && concerns(&c.property, kind, &exp.tags, wild) {
                    c.count("steps concerning the property");
                    c.nontrivial(sig);
                }
            }
            (Ok(()), false) => d(&mut v, "verdict.refused", format!("legitimate {kind} failed: {:?}", out.result)),
            (Err(No::Fail(why)), true) => d(&mut v, "verdict.accepted", format!("{kind} succeeded although: {why}")),
            (Err(No::Fail(why)), false) => {
                c.count("refused");
                c.count(&format!("refused:{why}"));
                for t in &exp.tags {
                    c.count(&format!("refused-tag:{t}"));
                }
                if concerns(&c.property, kind, &exp.tags, wild) {
                    c.count("refusals concerning the property");
                    c.nontrivial(mix(hash_str(kind) ^ hash_str(why)));
                }
            }
            (Err(No::Unsure(_)), ok) => {
                c.count(if ok { "undecided-accepted" } else { "undecided-refused" });
            }
        }
        if !out.ok() && (post != *pre || !out.changed.is_empty()) {
            d(&mut v, "failed-but-changed", "a failed instruction changed the state");
        }
        if out.ok() {
            invariants(&mut v, &post, &self.w.mk, &self.donated);
            if c.property == "C20" {
                for (k, o) in &post.oos {
                    if pre.oos.get(k) != Some(o) {
                        c.count("tables asked about themselves");
                        if let Some(x) = own_answers(self.w.bank.data(k), o, &post) {
                            d(&mut v, "inv.table-answers", format!("account {k}: {x}"));
                        }
                    }
                }
            }
            if post.m.seq_num < pre.m.seq_num {
                d(&mut v, "inv.ids", "order counter went back");
            }
            for sd in 0..2u8 {
                for t in 0..2 {
                    for l in &post.side(sd).trees[t] {
                        let seq = if sd == 0 { !(l.key as u64) } else { l.key as u64 };
                        if seq > pre.m.seq_num && !self.seen_ids.insert(seq) {
                            d(&mut v, "inv.ids", format!("order number {seq} handed out twice"));
                        }
                    }
                }
            }
        }
        self.report(c, kind, &v, &exp.tags, wild);
        if c.failed() {
            return None;
        }
        Some(post)
    }

    pub fn report(&self, c: &mut Case, kind: &str, v: &[Diff], tags: &BTreeSet<&'static str>, wild: bool) {
        for x in v {
            if relevant(&c.property, kind, &x.facet, tags, wild) {
                c.violate(&format!("{kind}/{}", x.facet), format!("{kind}: {} (situation: {})", x.text, tags.iter().copied().collect::<Vec<_>>().join(",")));
            } else {
                c.count("deviations of other properties");
                if std::env::var("OBV_SHOW").is_ok() {
                    eprintln!("other deviation {kind} {} {} tags {:?}", x.facet, x.text, tags);
                }
            }
        }
    }

    pub fn compare_logs(&self, v: &mut Vec<Diff>, got: &[Vec<u8>], want: &[Vec<u8>]) {
        let group = |l: &[Vec<u8>]| {
            let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
            for e in l {
                m.entry(log_name(e)).or_default().push(e.clone());
            }
            m
        };
        let (g, w) = (group(got), group(want));
        let names: BTreeSet<&String> = g.keys().chain(w.keys()).collect();
        for n in names {
            let (a, b) = (g.get(n).cloned().unwrap_or_default(), w.get(n).cloned().unwrap_or_default());
            if a != b {
                d(v, format!("logs.{n}"), format!("{n}: {} logged, {} expected, first difference at {:?}", a.len(), b.len(), a.iter().zip(&b).position(|(x, y)| x != y)));
            }
        }
    }

    pub fn compare_calls(&self, v: &mut Vec<Diff>, calls: &[Call], exp: &Exp) {
        let mut tok: Vec<(Pubkey, Pubkey, u64)> = vec![];
        let mut sys: Vec<(Pubkey, Pubkey, u64)> = vec![];
        for c in calls {
            match c {
                Call::TokenTransfer { from, to, amount, .. } => {
                    if *amount > 0 {
                        tok.push((*from, *to, *amount))
                    }
                }
                Call::SystemTransfer { from, to, lamports } => {
                    if *lamports > 0 {
                        sys.push((*from, *to, *lamports))
                    }
                }
                other => d(v, "calls.other", format!("unexpected call {other:?}")),
            }
        }
        let sorted = |x: &[(Pubkey, Pubkey, u64)]| {
            let mut y = x.to_vec();
            y.sort();
            y
        };
        if sorted(&tok) != sorted(&exp.moves) {
            d(v, "calls.token", format!("tokens moved {tok:?}, must move {:?}", exp.moves));
        }
        if sorted(&sys) != sorted(&exp.sys) {
            d(v, "calls.system", format!("lamports moved {sys:?}, must move {:?}", exp.sys));
        }
    }

    pub fn start(&mut self, c: &mut Case) -> Option<Snap> {
        match self.w.snap() {
            Ok(s) => Some(s),
            Err((_, e)) => {
                c.violate("setup", e);
                None
            }
        }
    }

    /// bring the market to an end: everything cancelled, cranked, settled and swept
    pub fn wind_down(&mut self, c: &mut Case, mut s: Snap) -> Option<Snap> {
        let expire = self.w.mk.cm_admin.is_some() && self.r.chance(1, 2);
        if expire && s.m.time_expiry == 0 {
            s = self.step(c, &Op::SetExpired, &s)?;
        }
        let expired = s.m.time_expiry != 0 && s.m.time_expiry < self.w.bank.ts && self.w.mk.cm_admin.is_some();
        let oos = self.all_oos();
        let mut left: Vec<Pubkey> = oos.clone();
        // some orders may be cancelled only after the crank
        self.r.shuffle(&mut left);
        let late = left.split_off(left.len() / 2);
        let cancel = |h: &mut Hist, c: &mut Case, s: Snap, oo: Pubkey| -> Option<Snap> {
            let u = h.w.owner_of(&oo);
            let signer = h.w.users[u].key;
            let op = if expired && h.r.chance(1, 2) {
                Op::Prune { oo, limit: 255 }
            } else {
                Op::CancelAll {
                    oo,
                    signer,
                    side: None,
                    limit: 255,
                }
            };
            h.step(c, &op, &s)
        };
        for oo in left {
            s = cancel(self, c, s, oo)?;
        }
        let mut guard = 0;
        while !s.heap.events.is_empty() {
            let rem: Vec<Pubkey> = s.heap.events.iter().take(8).map(|e| e.1.account()).collect();
            let given = if self.r.chance(1, 2) {
                let mut g: Vec<u64> = s.heap.events.iter().take(8).map(|e| e.0 as u64).collect();
                self.r.shuffle(&mut g);
                Some(g)
            } else {
                None
            };
            s = self.step(c, &Op::Consume { limit: 8, given, rem }, &s)?;
            guard += 1;
            if guard > 200 {
                self.report(
                    c,
                    "consume",
                    &[Diff {
                        facet: "wind-down".into(),
                        text: "the event queue does not drain".into(),
                    }],
                    &BTreeSet::new(),
                    self.p.wild,
                );
                return None;
            }
        }
        for oo in late {
            s = cancel(self, c, s, oo)?;
        }
        for oo in oos {
            let u = self.w.owner_of(&oo);
            let op = Op::Settle {
                oo,
                signer: self.w.users[u].key,
                payer: self.w.users[u].key,
                base: self.w.users[u].base,
                quote: self.w.users[u].quote,
                referrer: if self.r.chance(1, 3) { Some(self.w.referrers[0]) } else { None },
                expired: expired && self.r.chance(1, 3),
            };
            s = self.step(c, &op, &s)?;
        }
        s = self.step(c, &Op::Sweep { receiver: self.w.fee_receiver }, &s)?;
        let mut v = vec![];
        if s.m.base_total != 0 || s.m.quote_total != 0 || s.m.fees_available != 0 || s.m.referrer_rebates_accrued != 0 {
            d(
                &mut v,
                "wind-down",
                format!(
                    "after settling everyone the market still records {} base, {} quote, {} fees, {} rebates",
                    s.m.base_total, s.m.quote_total, s.m.fees_available, s.m.referrer_rebates_accrued
                ),
            );
        }
        if s.bids.len() + s.asks.len() + s.heap.events.len() != 0 {
            d(&mut v, "wind-down", "after cancelling everything the book or queue is not empty");
        }
        c.count("wound down");
        self.report(c, "settle", &v, &BTreeSet::new(), self.p.wild);
        if c.failed() {
            None
        } else {
            Some(s)
        }
    }

    pub fn run(&mut self, c: &mut Case) -> Option<Snap> {
        let mut s = self.start(c)?;
        let mut done = 0;
        let mut spins = 0;
        while done < self.p.steps {
            spins += 1;
            if spins > self.p.steps * 4 {
                break;
            }
            match self.gen(&s) {
                None => {
                    s = self.start(c)?;
                }
                Some(op) => {
                    c.step = done;
                    s = self.step(c, &op, &s)?;
                    done += 1;
                }
            }
        }
        Some(s)
    }
}

pub fn with_profile(c: &mut Case, p: Profile) {
    let wind = p.wind_down;
    if let Some(mut h) = Hist::new(c, p) {
        if let Some(s) = h.run(c) {
            if wind {
                h.wind_down(c, s);
            }
        }
    }
}


/// mostly deposits and refills, with trading in between
pub fn deposits(c: &mut Case) {
    let mut p = base_profile();
    p.w = [20, 3, 3, 4, 8, 6, 8, 36, 16, 4, 3, 1, 2, 0, 0, 0, 0];
    p.spread = 4;
    with_profile(c, p)
}

pub fn general(c: &mut Case) {
    with_profile(c, base_profile())
}

/// many trades against many makers, long queues, immediate settlement of many makers
pub fn crossing(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 150;
    p.oos = 8;
    p.users = 6;
    p.w = [50, 4, 2, 8, 16, 3, 5, 2, 3, 1, 0, 3, 4, 1, 0, 0, 0];
    p.spread = 3;
    p.max_size = 12;
    p.big_limits = true;
    p.expiring = (1, 10);
    p.supply = if c.seed % 3 == 0 { 2 } else { 1 };
    with_profile(c, p)
}

/// few prices, small tables: time priority between orders of one price
pub fn ties(c: &mut Case) {
    let mut p = base_profile();
    p.spread = 1;
    p.max_size = 4;
    p.oracle = 1;
    p.w = [40, 14, 4, 6, 10, 6, 8, 2, 3, 1, 0, 6, 3, 0, 0, 0, 0];
    with_profile(c, p)
}

pub fn self_trade(c: &mut Case) {
    let mut p = base_profile();
    p.users = 2;
    p.oos = 2;
    p.own = (4, 5);
    p.fees = if c.seed % 4 == 0 { 1 } else { 2 };
    p.spread = 3;
    p.w = [45, 10, 6, 6, 4, 5, 10, 3, 6, 1, 0, 4, 3, 0, 0, 0, 0];
    with_profile(c, p)
}

pub fn expiries(c: &mut Case) {
    let mut p = base_profile();
    p.expiring = (4, 5);
    p.w = [40, 12, 5, 8, 12, 4, 6, 1, 3, 1, 0, 4, 16, 0, 0, 0, 0];
    p.oracle = (c.seed % 2) as u8;
    with_profile(c, p)
}

pub fn pegged(c: &mut Case) {
    let mut p = base_profile();
    p.oracle = 1;
    p.w = [24, 30, 8, 4, 10, 6, 8, 2, 4, 1, 0, 14, 4, 0, 0, 0, 0];
    p.spread = 8;
    p.fees = (c.seed % 3) as u8;
    with_profile(c, p)
}

/// poor traders who rely on deposits and free balances
pub fn poor(c: &mut Case) {
    let mut p = base_profile();
    p.poor = true;
    p.max_size = 20;
    p.w = [36, 6, 4, 8, 10, 5, 10, 12, 8, 2, 1, 3, 3, 1, 0, 0, 0];
    with_profile(c, p)
}

pub fn fees(c: &mut Case) {
    let mut p = base_profile();
    p.fees = 1 + (c.seed % 2) as u8;
    p.w = [40, 8, 3, 5, 16, 4, 12, 2, 10, 6, 0, 3, 3, 0, 0, 0, 0];
    p.spread = 4;
    with_profile(c, p)
}

pub fn wild(c: &mut Case) {
    let mut p = base_profile();
    p.wild = true;
    p.steps = 60;
    p.max_size = 200;
    p.few_clients = false;
    with_profile(c, p)
}

pub fn edits(c: &mut Case) {
    let mut p = base_profile();
    p.w = [20, 6, 34, 26, 6, 4, 8, 2, 3, 1, 0, 4, 4, 0, 0, 0, 0];
    with_profile(c, p)
}

pub fn cancels(c: &mut Case) {
    let mut p = base_profile();
    p.w = [40, 14, 3, 10, 5, 34, 5, 1, 3, 1, 1, 4, 4, 0, 0, 0, 0];
    p.spread = 30;
    p.oracle = 1;
    with_profile(c, p)
}

/// large orders through many small ones, most makers absent
pub fn sweeping(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 40;
    p.w = [40, 8, 4, 10, 26, 4, 8, 2, 8, 2, 0, 3, 3, 1, 0, 0, 0];
    p.spread = 12;
    p.max_size = 60;
    p.big_limits = true;
    p.expiring = (1, 8);
    p.oracle = (c.seed % 2) as u8;
    p.fees = (c.seed % 3) as u8;
    p.supply = (c.seed / 2 % 2) as u8;
    p.wind_down = c.seed % 4 == 0;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    h.centre = h.centre.max(100);
    h.oracle_near(0);
    if h.prefill(c, [45, 45], c.seed % 4, 1).is_none() {
        return;
    }
    if let Some(s) = h.run(c) {
        if h.p.wind_down {
            h.wind_down(c, s);
        }
    }
}

/// all places of the tables are taken, then orders are cancelled in every way
pub fn full_tables(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 50;
    p.users = 2;
    p.oos = 2;
    p.w = [30, 8, 6, 8, 4, 40, 5, 1, 2, 1, 1, 3, 3, 0, 0, 0, 0];
    p.spread = 30;
    p.oracle = (c.seed % 2) as u8;
    p.wind_down = c.seed % 4 == 0;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    h.centre = h.centre.max(100);
    h.oracle_near(0);
    if h.prefill(c, [24, 24], c.seed % 4, 1).is_none() {
        return;
    }
    if let Some(s) = h.run(c) {
        if h.p.wind_down {
            h.wind_down(c, s);
        }
    }
}

/// trades against a side that holds as many orders as it can
pub fn full_crossing(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 60;
    p.w = [50, 6, 4, 6, 24, 4, 8, 0, 0, 0, 0, 2, 2, 0, 0, 0, 0];
    p.spread = 4;
    p.max_size = 8;
    p.wind_down = false;
    p.supply = 0;
    p.oracle = (c.seed % 2) as u8;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    h.centre = 1000;
    h.oracle_near(0);
    for u in h.w.users.clone() {
        h.w.bank.set_token_amount(&u.base, u64::MAX / 64);
        h.w.bank.set_token_amount(&u.quote, u64::MAX / 64);
    }
    let n = [h.r.range(505, 513) as usize, h.r.range(0, 40) as usize];
    let per = if h.r.chance(1, 2) { n } else { [n[1], n[0]] };
    let share = h.r.below(3);
    if h.prefill(c, per, share, 0).is_none() {
        return;
    }
    for i in 0..h.w.users.len() {
        let _ = h.w.add_oo(i, None);
    }
    h.run(c);
}

pub fn settling(c: &mut Case) {
    let mut p = base_profile();
    p.w = [30, 6, 3, 4, 10, 5, 12, 6, 26, 8, 6, 2, 3, 4, 1, 0, 0];
    p.supply = 0;
    p.spread = 3;
    with_profile(c, p)
}

/// the market expires or is expired in the middle of the history
pub fn ending(c: &mut Case) {
    let mut p = base_profile();
    if c.seed % 2 == 0 {
        p.expires = Some(200);
    }
    p.w = [30, 6, 4, 6, 8, 6, 8, 6, 10, 3, 1, 3, 10, 1, 0, 1, 4];
    with_profile(c, p)
}

/// one trader alone: whatever trades happen are with itself
pub fn alone(c: &mut Case) {
    let mut p = base_profile();
    p.users = 1;
    p.oos = 1;
    p.own = (9, 10);
    p.fees = (c.seed % 3) as u8;
    p.spread = 3;
    p.w = [60, 12, 6, 8, 0, 6, 8, 3, 4, 0, 0, 4, 4, 0, 0, 0, 0];
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let u = h.w.users[0].clone();
    let before = h.start(c).map(|s| s.tok);
    let s = match h.run(c) {
        Some(s) => s,
        None => return,
    };
    let s = match h.wind_down(c, s) {
        Some(s) => s,
        None => return,
    };
    let before = before.unwrap();
    // tokens may move between the trader's wallets; rounding of reserved fees goes to the market
    let own = |m: &BTreeMap<Pubkey, u64>, a: &Pubkey, b: &Pubkey| m[a] as i128 + m[b] as i128;
    let base = own(&s.tok, &u.base, &u.base2) - own(&before, &u.base, &u.base2);
    let quote = own(&s.tok, &u.quote, &u.quote2) - own(&before, &u.quote, &u.quote2);
    let trades = c.stats.get("fills");
    let posts = c.stats.get("tag:post") + c.stats.get("batch") * 8 + c.stats.get("cancel_and_batch") * 8;
    c.count("alone: round trips");
    if trades > 0 {
        c.count("alone: round trips with trades");
    }
    if base != 0 || quote > 0 || -quote > (trades + posts) as i128 {
        c.violate(
            "alone/loss",
            format!("a trader who only traded with itself ends with {base} base and {quote} quote difference after {trades} trades"),
        );
    }
}

impl Hist {
    /// rest many orders of many accounts on both sides
    pub fn prefill(&mut self, c: &mut Case, per_side: [usize; 2], pegged_share: u64, expiring: u64) -> Option<()> {
        let need = (per_side[0] + per_side[1] + 23) / 24 + 1;
        while per_side[0] + per_side[1] > 100 && self.all_oos().len() < need {
            let u = self.r.idx(self.w.users.len());
            if let Err(e) = self.w.add_oo(u, None) {
                c.violate("setup", e);
                return None;
            }
        }
        let s = self.start(c)?;
        let mut slots: Vec<Pubkey> = s.oos.iter().flat_map(|(k, o)| vec![*k; 24 - used(o).len()]).collect();
        self.r.shuffle(&mut slots);
        let has_oracle = self.w.mk.oracle_a.is_some();
        let far = (per_side[0].max(per_side[1]) as i64).min(self.centre - 2).max(1);
        for side in 0..2u8 {
            for _ in 0..per_side[side as usize] {
                let oo = match slots.pop() {
                    Some(k) => k,
                    None => break,
                };
                let u = self.w.owner_of(&oo);
                let off = self.r.range(1, far) * if side == 0 { -1 } else { 1 };
                let expiry = if self.r.chance(expiring, 24) { self.w.bank.ts as u64 + 1 + self.r.below(60) } else { 0 };
                let peg = has_oracle && self.r.chance(pegged_share, 10);
                let size = self.r.range(1, 5);
                let price = if peg {
                    Price::Pegged {
                        offset: off,
                        limit: (self.centre + off).max(1) + if side == 0 { 3 } else { 0 },
                    }
                } else {
                    Price::Fixed((self.centre + off).max(1))
                };
                let op = Op::Place {
                    oo,
                    signer: self.w.users[u].key,
                    wallet: if side == 0 { self.w.users[u].quote } else { self.w.users[u].base },
                    req: Req {
                        side,
                        price,
                        max_base: size,
                        max_quote: (self.centre + far + 10) * size * 2 + 100,
                        client: self.r.below(6),
                        otype: 0,
                        expiry,
                        stb: 1,
                        limit: 10,
                    },
                    rem: vec![],
                };
                let b = self.w.mk.build(&op);
                self.w.bank.exec(&b.ix);
            }
        }
        Some(())
    }
}

/// book sides at the limit of their capacity
pub fn full_book(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 60;
    p.users = 4;
    p.w = [50, 20, 4, 8, 4, 4, 3, 0, 0, 0, 0, 6, 6, 0, 0, 0, 0];
    p.spread = 60;
    p.expiring = (1, 6);
    p.wind_down = false;
    p.supply = 0;
    p.oracle = (c.seed % 2) as u8;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    h.centre = 1000;
    h.oracle_near(0);
    for u in h.w.users.clone() {
        h.w.bank.set_token_amount(&u.base, u64::MAX / 64);
        h.w.bank.set_token_amount(&u.quote, u64::MAX / 64);
    }
    let side = h.r.idx(2) as u8;
    let n = [h.r.range(503, 514) as usize, h.r.range(0, 40) as usize];
    let per = if side == 0 { n } else { [n[1], n[0]] };
    let share = h.r.below(6);
    let expiring = *h.r.pick(&[0u64, 0, 1, 3]);
    if h.prefill(c, per, share, expiring).is_none() {
        return;
    }
    // traders with room in their tables
    for i in 0..h.w.users.len() {
        let _ = h.w.add_oo(i, None);
        let _ = h.w.add_oo(i, None);
    }
    if h.r.chance(1, 3) {
        h.w.bank.ts += h.r.range(1, 70);
    }
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    for n in 0..h.p.steps {
        c.step = n;
        if !s.side(side).full() && h.r.chance(1, 2) {
            let missing = 515usize.saturating_sub(s.side(side).len()).max(1);
            let per = if side == 0 { [missing, 0] } else { [0, missing] };
            if h.prefill(c, per, share, 0).is_none() {
                return;
            }
            s = match h.start(c) {
                Some(s) => s,
                None => return,
            };
        }
        let op = if h.r.chance(4, 5) {
            let room: Vec<Pubkey> = s.oos.iter().filter(|(_, o)| used(o).len() < 24).map(|(k, _)| *k).collect();
            if room.is_empty() {
                return;
            }
            let oo = *h.r.pick(&room);
            let u = h.w.owner_of(&oo);
            let t = &s.side(side).trees[0];
            let worst = if side == 0 { t.first() } else { t.last() };
            let worst_price = worst.map(|l| l.price_data() as i64).unwrap_or(h.centre);
            let p = match h.r.below(4) {
                0 => worst_price,
                1 | 2 => worst_price + h.r.range(-4, 4),
                _ => h.centre + h.r.range(1, 400) * if side == 0 { -1 } else { 1 },
            }
            .max(1);
            let price = if h.w.mk.oracle_a.is_some() && h.r.chance(1, 3) {
                Price::Pegged {
                    offset: p - h.centre,
                    limit: if side == 0 { p + 50 } else { (p - 50).max(1) },
                }
            } else {
                Price::Fixed(p)
            };
            let rem = if h.r.chance(1, 3) {
                worst.map(|l| l.owner).into_iter().filter(|k| *k != oo).collect()
            } else {
                vec![]
            };
            let size = h.r.range(1, 6);
            Op::Place {
                oo,
                signer: h.w.users[u].key,
                wallet: if side == 0 { h.w.users[u].quote } else { h.w.users[u].base },
                req: Req {
                    side,
                    price,
                    max_base: size,
                    max_quote: (p + 100) * size * 2 + 100,
                    client: h.r.below(6),
                    otype: *h.r.pick(&[0u8, 0, 2, 4]),
                    expiry: if h.r.chance(1, 15) { h.w.bank.ts as u64 + h.r.below(20) } else { 0 },
                    stb: 1,
                    limit: 10,
                },
                rem,
            }
        } else {
            match h.gen(&s) {
                Some(op) => op,
                None => {
                    s = match h.start(c) {
                        Some(s) => s,
                        None => return,
                    };
                    continue;
                }
            }
        };
        s = match h.step(c, &op, &s) {
            Some(s) => s,
            None => return,
        };
    }
}

/// event queue at the limit of its capacity
pub fn full_queue(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 40;
    p.users = 3;
    p.w = [50, 2, 2, 10, 30, 3, 1, 0, 0, 0, 0, 2, 2, 0, 0, 0, 0];
    p.spread = 30;
    p.big_limits = true;
    p.max_size = 400;
    p.expiring = (1, 6);
    p.wind_down = true;
    p.supply = 0;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    h.centre = 1000;
    h.oracle_near(0);
    for u in h.w.users.clone() {
        h.w.bank.set_token_amount(&u.base, u64::MAX / 64);
        h.w.bank.set_token_amount(&u.quote, u64::MAX / 64);
    }
    if h.prefill(c, [450, 450], 0, 0).is_none() {
        return;
    }
    // sweep most of both sides into the queue
    for k in 0..3 {
        let s = match h.start(c) {
            Some(s) => s,
            None => return,
        };
        let side = (k % 2) as u8;
        let depth: i64 = s.side(1 - side).trees[0].iter().map(|l| l.qty).sum();
        let u = h.w.users[k % 3].clone();
        let n = h.r.range(180, 254) as u8;
        let op = Op::Take {
            signer: u.key,
            payer: u.key,
            base: u.base,
            quote: u.quote,
            req: Req {
                side,
                price: Price::Fixed(1),
                max_base: depth.max(1),
                max_quote: depth.max(1) * 3000,
                client: 0,
                otype: 3,
                expiry: 0,
                stb: 0,
                limit: n,
            },
            rem: vec![],
        };
        if h.step(c, &op, &s).is_none() {
            return;
        }
    }
    if let Some(s) = h.run(c) {
        h.wind_down(c, s);
    }
}

/// the same queue processed in different orders ends in the same state
pub fn crank_orders(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 60;
    p.w = [50, 8, 2, 8, 14, 4, 1, 1, 2, 0, 0, 3, 6, 0, 0, 0, 0];
    p.supply = 0;
    p.spread = 3;
    p.expiring = (1, 3);
    p.wind_down = false;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let s0 = match h.run(c) {
        Some(s) => s,
        None => return,
    };
    let n = s0.heap.events.len();
    if n < 2 {
        return;
    }
    let start = h.w.clone();
    let mut results: Vec<Snap> = vec![];
    let mut orders = BTreeSet::new();
    for variant in 0..4 {
        h.w = start.clone();
        let mut s = s0.clone();
        let mut taken: Vec<u64> = vec![];
        let mut guard = 0;
        while !s.heap.events.is_empty() {
            guard += 1;
            if guard > 4000 {
                if c.property == "C08" {
                    c.violate("fork/stuck", format!("{} events left after {guard} calls", s.heap.events.len()));
                }
                return;
            }
            let mut all: Vec<u64> = s.heap.events.iter().map(|e| e.0 as u64).collect();
            let accounts: Vec<Pubkey> = s.heap.events.iter().map(|e| e.1.account()).collect();
            let op = match variant {
                0 => Op::Consume {
                    limit: 8,
                    given: None,
                    rem: accounts[..accounts.len().min(8)].to_vec(),
                },
                1 => {
                    all.reverse();
                    Op::Consume {
                        limit: 0,
                        given: Some(vec![all[0]]),
                        rem: accounts,
                    }
                }
                2 => {
                    h.r.shuffle(&mut all);
                    all.truncate(1 + h.r.idx(8));
                    Op::Consume {
                        limit: 0,
                        given: Some(all),
                        rem: accounts,
                    }
                }
                _ => {
                    // only one account's events at a time
                    let k = *h.r.pick(&accounts);
                    h.r.shuffle(&mut all);
                    if h.r.chance(1, 2) {
                        Op::Consume {
                            limit: 8,
                            given: None,
                            rem: vec![k],
                        }
                    } else {
                        let g: Vec<u64> = s.heap.events.iter().filter(|e| e.1.account() == k).map(|e| e.0 as u64).take(8).collect();
                        Op::Consume {
                            limit: 0,
                            given: Some(g),
                            rem: vec![k],
                        }
                    }
                }
            };
            let before: BTreeSet<u16> = s.heap.events.iter().map(|e| e.0).collect();
            s = match h.step(c, &op, &s) {
                Some(s) => s,
                None => return,
            };
            let after: BTreeSet<u16> = s.heap.events.iter().map(|e| e.0).collect();
            for x in before.difference(&after) {
                taken.push(*x as u64);
            }
        }
        orders.insert(taken);
        results.push(s);
    }
    c.count("queues cranked in several orders");
    c.count_n("distinct crank orders", orders.len() as u64);
    c.nontrivial(mix(c.seed ^ orders.len() as u64));
    for r in &results[1..] {
        let (a, b) = (&results[0], r);
        if a.m != b.m || a.oos != b.oos || a.bids != b.bids || a.asks != b.asks || a.tok != b.tok {
            if relevant(&c.property, "consume", "fork", &BTreeSet::new(), false) {
                c.violate("fork/differs", "processing the queue in another order gave another result".to_string());
            }
        }
    }
}
