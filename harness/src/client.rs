//! The client library's quotes and account cache. Its two self-contained files are compiled in as they are.

#[path = "/repo/lib/client/src/book.rs"]
pub mod book;

use crate::chain_data::*;
use crate::containers::{load, naive_walk};
use crate::hist::*;
use crate::layout;
use crate::report::Case;
use crate::rng::{hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use openbook_v2::accounts_zerocopy::KeyedAccount;
use openbook_v2::state::{BookSide, Market, Orderbook, Side};
use solana_program::pubkey::Pubkey;
use solana_sdk::account::{Account as SdkAccount, AccountSharedData, ReadableAccount};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// Adds orders of a lot or two on both sides, more than one order can take, some of them short-lived.
fn crowd(h: &mut Hist, r: &mut Rng) {
    let s = match h.w.snap() {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut top = [0usize; 2];
    for i in 0..2u8 {
        top[i as usize] = s.side(i).trees.iter().map(|t| t.len()).sum();
    }
    let accounts: Vec<(Pubkey, Pubkey, [Pubkey; 2])> =
        h.w.users.iter().flat_map(|u| u.oos.iter().map(|o| (*o, u.key, [u.quote, u.base])).collect::<Vec<_>>()).collect();
    let want = 38 + r.idx(30);
    for _ in 0..200 {
        if top[0] >= want && top[1] >= want {
            break;
        }
        let (oo, signer, wallets) = *r.pick(&accounts);
        let side = if top[0] < want && (top[1] >= want || r.chance(1, 2)) { 0 } else { 1 };
        let away = 1 + r.range(0, 12);
        let price = (if side == 0 { h.centre - away } else { h.centre + away }).max(1);
        let req = Req {
            side,
            price: Price::Fixed(price),
            max_base: r.range(1, 3),
            max_quote: i64::MAX / 8 / h.w.params.qls.max(1),
            client: 0,
            otype: 2,
            expiry: if r.chance(1, 4) { (h.w.bank.ts + r.range(1, 60)) as u64 } else { 0 },
            stb: 0,
            limit: 10,
        };
        let op = Op::Place { oo, signer, wallet: wallets[side as usize], req, rem: vec![] };
        if h.w.bank.exec(&h.w.mk.build(&op).ix).ok() {
            top[side as usize] += 1;
        }
    }
}

/// Quotes for random orders against books grown by histories, each followed by the order itself.
pub fn quotes(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 50;
    p.users = 6;
    p.oos = 8;
    p.w = [50, 16, 2, 10, 2, 2, 2, 2, 1, 0, 0, 4, 3, 0, 0, 0, 0];
    p.spread = if c.seed % 3 == 0 { 30 } else { 6 };
    p.oracle = if c.seed % 4 == 0 { 0 } else { 1 };
    p.expiring = (1, 3);
    p.fees = (c.seed % 3) as u8;
    p.wind_down = false;
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    // one who only takes
    let taker = match h.w.add_user(u64::MAX / 4, u64::MAX / 4) {
        Ok(i) => h.w.users[i].clone(),
        Err(e) => {
            c.violate("setup", e);
            return;
        }
    };
    if h.run(c).is_none() {
        return;
    }
    let mut r = h.r.clone();
    if c.seed % 5 < 2 {
        crowd(&mut h, &mut r);
    }
    for step in 0..10 {
        c.step = 1000 + step;
        if r.chance(1, 3) {
            h.w.bank.ts += r.below(40) as i64;
        }
        let s = match h.w.snap() {
            Ok(s) => s,
            Err(_) => return,
        };
        let mut bank = h.w.bank.clone();
        let now = bank.ts as u64;
        let market = load(&bank, &h.w.mk.key);
        let m = market.get::<Market>();
        let side = r.below(2) as u8;
        let total: i64 = s.side(1 - side).trees.iter().flatten().map(|l| l.qty).sum();
        let max_base = match r.below(5) {
            0 => 1,
            1 => r.range(1, 20),
            2 => m.max_base_lots(),
            _ => r.range(1, total.max(2) + 2),
        };
        let cap = (u64::MAX / 8) as i64 / m.quote_lot_size.max(1);
        let max_quote = match r.below(5) {
            0 | 1 => m.max_quote_lots().min(cap),
            2 => r.range(1, 100),
            _ => r.range(1, (h.centre.saturating_mul(total.max(2))).max(10)).min(cap),
        };
        let acc = |k: Option<Pubkey>| {
            k.map(|k| {
                let a = bank.get(&k).cloned().unwrap_or_default();
                KeyedAccount {
                    key: k,
                    account: SdkAccount {
                        lamports: a.lamports,
                        data: a.data,
                        owner: a.owner,
                        executable: false,
                        rent_epoch: 0,
                    },
                }
            })
        };
        let (oa, ob) = (acc(h.w.mk.oracle_a), acc(h.w.mk.oracle_b));
        set_free_clock(bank.ts, bank.slot);
        let price = match guarded(|| m.oracle_price(oa.as_ref(), ob.as_ref(), bank.slot)) {
            Ok(Ok(p)) => p,
            _ => continue,
        };
        let lots = match price {
            None => None,
            Some(p) => match guarded(|| m.native_price_to_lot(p)) {
                Ok(Ok(l)) => Some(l),
                _ => continue,
            },
        };
        let bids = RefCell::new(*load(&bank, &h.w.mk.bids).get::<BookSide>());
        let asks = RefCell::new(*load(&bank, &h.w.mk.asks).get::<BookSide>());
        let sd = if side == 0 { Side::Bid } else { Side::Ask };
        let mut list = vec![];
        let got = guarded(|| {
            let mk = || Orderbook { bids: bids.borrow_mut(), asks: asks.borrow_mut() };
            let it = book::iterate_book(mk(), sd, max_base, max_quote, m, lots, now, &mut list);
            let am = book::amounts_from_book(mk(), sd, max_base, max_quote, m, price, now);
            let cr = book::remaining_accounts_to_crank(mk(), sd, m, price, now);
            (it, am.ok(), cr.ok())
        });
        c.eval();
        let (it, am, crank) = match got {
            Ok((a, Some(b), Some(d))) => (a, b, d),
            e => {
                c.violate("quote-failed", format!("no quote for {max_base} base, {max_quote} quote: {:?}", e.err()));
                return;
            }
        };
        // the accounts that a short list must name
        let mut live: Vec<(usize, layout::Leaf)> = vec![];
        for t in 0..2 {
            live.extend(s.side(1 - side).trees[t].iter().map(|l| (t, l.clone())));
        }
        let walk = naive_walk(&live, (1 - side) as usize, now, lots);
        let mut first: Vec<Pubkey> = vec![];
        for (_, l, _, ok) in &walk {
            if *ok && !first.contains(&l.owner) && first.len() < 3 {
                first.push(l.owner);
            }
        }
        let (a, b): (BTreeSet<Pubkey>, BTreeSet<Pubkey>) = (first.into_iter().collect(), crank.iter().cloned().collect());
        if a != b || b.len() != crank.len() {
            c.violate("crank-list", format!("the makers to crank are listed as {b:?} instead of {a:?}"));
        }
        let mut rem: Vec<Pubkey> = vec![];
        for k in &list {
            if !rem.contains(k) {
                rem.push(*k);
            }
        }
        let op = |rem: Vec<Pubkey>| Op::Take {
            signer: taker.key,
            payer: taker.key,
            base: taker.base,
            quote: taker.quote,
            req: Req {
                side,
                price: Price::Fixed(if side == 0 { i64::MAX } else { 1 }),
                max_base,
                max_quote,
                client: 0,
                otype: 1,
                expiry: 0,
                stb: 0,
                limit: book::MAXIMUM_TAKEN_ORDERS,
            },
            rem,
        };
        let all: Vec<Pubkey> = h.w.users.iter().flat_map(|u| u.oos.clone()).collect();
        let mut bank2 = bank.clone();
        let o = bank.exec(&h.w.mk.build(&op(rem.clone())).ix);
        if !o.ok() {
            c.count("order refused");
            continue;
        }
        c.eval();
        let delta = |b: &Bank, k: &Pubkey| b.token_amount(k) as i128 - h.w.bank.token_amount(k) as i128;
        let (db, dq) = (delta(&bank, &taker.base), delta(&bank, &taker.quote));
        let (qb, qq, fee) = (am.total_base_taken_native as i128, am.total_quote_taken_native as i128, am.fee as i128);
        let want = if side == 0 { (qb, -(qq + fee)) } else { (-qb, qq - fee) };
        c.trace(|| format!("side {side}, at most {max_base} base and {max_quote} quote: quoted {qb} base, {qq} quote, fee {fee}; executed {db} base, {dq} quote"));
        if (db, dq) != want {
            c.violate("quote", format!("side {side}, at most {max_base} base and {max_quote} quote, {lots:?} oracle lots: quoted {qb} base, {qq} quote, rebates {fee}; the order moved {db} base and {dq} quote"));
        }
        if (it.0 as i128 * m.base_lot_size as i128, it.1 as i128 * m.quote_lot_size as i128, it.2 as i128, it.3) != (qb, qq, fee, am.not_enough_liquidity) {
            c.violate("quote-lots", format!("lots {:?} against amounts {qb} {qq} {fee}", it));
        }
        // traded with valid orders only, and all of them if something was left to trade
        let valid: i64 = walk.iter().filter(|x| x.3).map(|x| x.1.qty).sum();
        if it.0 > valid {
            c.violate("quote-invalid", format!("{} lots quoted where only {valid} are valid", it.0));
        }
        let left = if side == 1 { max_base - it.0 } else { m.subtract_taker_fees(max_quote) - it.1 };
        if it.3 != (left != 0) {
            c.violate("quote-liquidity", format!("lack of liquidity told as {}, {left} lots of the order are left", it.3));
        }
        // with every maker's account given nothing more could have been processed
        let o2 = bank2.exec(&h.w.mk.build(&op(all)).ix);
        if o2.ok() {
            let n = |b: &Bank| layout::heap(b.data(&h.w.mk.heap), false).map(|h| h.events.len()).unwrap_or(9999);
            c.eval();
            if n(&bank) != n(&bank2) {
                c.violate("account-list", format!("with the listed accounts {} events stay queued, with all accounts {}", n(&bank), n(&bank2)));
            }
            if n(&bank2) > s.heap.events.len() {
                c.count("more fills than can be processed at once");
            }
        }
        let fills = {
            let b = walk.iter().filter(|x| x.3).take(book::MAXIMUM_TAKEN_ORDERS as usize).map(|x| x.1.qty).sum::<i64>();
            (it.0 >= b && it.3, valid > b)
        };
        if fills == (true, true) {
            c.count("more orders than one order takes");
            if walk.iter().take(40).any(|x| !x.3) {
                c.count("more orders than one order takes, some invalid");
            }
        }
        c.count(if it.0 == 0 { "nothing to take" } else { "quote equals execution" });
        if walk.iter().any(|x| !x.3) {
            c.count("invalid orders on the book");
        }
        if walk.iter().any(|x| x.0 == 1 && x.3) && it.0 > 0 {
            c.count("pegged orders on the book");
        }
        if fee > 0 {
            c.count("with rebates");
        }
        if !it.3 && it.0 > 0 {
            c.count("enough liquidity");
        }
        if it.0 > 0 {
            c.nontrivial(mix(it.0 as u64 ^ (it.1 as u64).rotate_left(17) ^ (list.len() as u64) << 50 ^ hash_str(&h.w.mk.key.to_string())));
        }
        if c.failed() {
            return;
        }
        // go on from there sometimes
        if r.chance(1, 2) {
            h.w.bank = bank;
        }
    }
}

// ---------------------------------------------------------------- cache

#[derive(Clone, Debug)]
enum Msg {
    Slot(u64, Option<u64>, SlotStatus),
    Write(usize, u64, u64),
    Rpc(usize, u64, u64),
}

/// What has been told so far, kept in full.
#[derive(Default)]
struct Told {
    parent: BTreeMap<u64, u64>,
    known: BTreeSet<u64>,
    rooted: BTreeSet<u64>,
    writes: BTreeMap<usize, Vec<(u64, u64)>>,
    best: u64,
}

impl Told {
    fn slot(&mut self, s: u64, p: Option<u64>, st: SlotStatus) {
        self.known.insert(s);
        if let Some(p) = p {
            self.parent.entry(s).or_insert(p);
            self.best = self.best.max(s);
        }
        if st == SlotStatus::Rooted {
            self.rooted.insert(s);
        }
    }
    /// slots known to be on the chain ending at the newest slot
    fn chain(&self) -> BTreeSet<u64> {
        let mut v = BTreeSet::new();
        let mut s = self.best;
        while self.known.contains(&s) {
            v.insert(s);
            match self.parent.get(&s) {
                Some(p) if *p < s => s = *p,
                _ => break,
            }
        }
        v
    }
    fn root(&self) -> u64 {
        self.rooted.iter().next_back().copied().unwrap_or(0)
    }
    /// the newest root and what it builds on
    fn under(&self) -> BTreeSet<u64> {
        let mut under: BTreeSet<u64> = BTreeSet::new();
        let mut s = self.root();
        while self.known.contains(&s) {
            under.insert(s);
            match self.parent.get(&s) {
                Some(p) if *p < s => s = *p,
                _ => break,
            }
        }
        under
    }
    fn read(&self, a: usize) -> Option<(u64, u64)> {
        let chain = self.chain();
        let (root, under) = (self.root(), self.under());
        let mut best: Option<(u64, u64)> = None;
        for (s, v) in self.writes.get(&a)? {
            let live = self.rooted.contains(s) || under.contains(s) || (chain.contains(s) && *s > root) || (*s > self.best && self.known.contains(s)) || (*s <= root && !self.known.contains(s));
            if live && best.map(|b| *s >= b.0).unwrap_or(true) {
                best = Some((*s, *v));
            }
        }
        best
    }
}

/// Random fork trees told in random orders.
pub fn cache(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let n_acc = 1 + r.idx(3);
    let keys: Vec<Pubkey> = (0..n_acc).map(|_| r.pubkey()).collect();
    // a true chain with forks: slot -> parent
    let n = 4 + r.below(20);
    let start = 1 + r.below(50);
    let mut tree: Vec<(u64, u64)> = vec![];
    let mut tips: Vec<u64> = vec![start];
    let mut s = start;
    let mut main = start;
    let mut on_main = BTreeSet::from([start]);
    for _ in 0..n {
        s += 1 + r.below(4) / 3;
        let fork = r.chance(1, 4);
        if fork {
            // a fork off some recent slot of any branch
            let k = tips.len().saturating_sub(1 + r.idx(4.min(tips.len())));
            tree.push((s, tips[k]));
        } else {
            tree.push((s, main));
            main = s;
            on_main.insert(s);
        }
        tips.push(s);
    }
    // messages with the moment at which a perfect feed would send them
    let mut msgs: Vec<(u64, Msg)> = vec![(0, Msg::Slot(start, None, SlotStatus::Rooted))];
    let disorder = *r.pick(&[0u64, 0, 3, 10, 30, 60]);
    let mut version = 0;
    let rooting = r.chance(3, 4);
    for (i, (s, p)) in tree.iter().enumerate() {
        let t = 10 * (i as u64 + 1);
        let mut jig = |r: &mut Rng, t: u64| t + r.below(disorder + 1);
        let j = jig(&mut r, t);
        msgs.push((j, Msg::Slot(*s, Some(*p), SlotStatus::Processed)));
        for a in 0..n_acc {
            if r.chance(1, 2) {
                for _ in 0..1 + r.below(2) {
                    version += 1;
                    let j = if on_main.contains(s) && r.chance(1, 10) { t + r.below(150) } else { jig(&mut r, t + 1) };
                    msgs.push((j, Msg::Write(a, *s, version)));
                }
            }
        }
        if on_main.contains(s) {
            if r.chance(1, 2) {
                let j = if r.chance(1, 6) { t.saturating_sub(5) } else { jig(&mut r, t + 20) };
                msgs.push((j, Msg::Slot(*s, if r.chance(1, 2) { Some(*p) } else { None }, SlotStatus::Confirmed)));
            }
            // rooted long after everything about older slots has been told
            if rooting && r.chance(1, 2) {
                let j = t + 70 + r.below(60);
                msgs.push((j, Msg::Slot(*s, if r.chance(1, 2) { Some(*p) } else { None }, SlotStatus::Rooted)));
            }
        } else if r.chance(1, 6) {
            let j = jig(&mut r, t + 20);
            msgs.push((j, Msg::Slot(*s, Some(*p), SlotStatus::Confirmed)));
        }
        if r.chance(1, 12) {
            let a = r.idx(n_acc);
            version += 1;
            let j = jig(&mut r, t + 2);
            msgs.push((j, Msg::Rpc(a, *s, version)));
        }
    }
    // repeated messages
    for _ in 0..r.idx(4) {
        let (t, m) = r.pick(&msgs).clone();
        if matches!(m, Msg::Slot(..)) {
            msgs.push((t + r.below(20), m));
        }
    }
    msgs.sort_by_key(|m| m.0);
    let mut told = Told::default();
    let mut cd = ChainData::new();
    let mut root = 0;
    let true_parent: BTreeMap<u64, u64> = tree.iter().cloned().collect();
    for (step, (_, m)) in msgs.iter().enumerate() {
        c.step = step;
        match m {
            Msg::Slot(s, p, st) => {
                // a feed never goes back behind what it rooted
                if *s < root {
                    continue;
                }
                if *st == SlotStatus::Rooted {
                    // all of the chain below must have been told, and the new chain must be the leading one
                    let mut x = *s;
                    let mut ok = true;
                    while x > root.max(start) {
                        if !told.parent.contains_key(&x) && x != *s {
                            ok = false;
                        }
                        match true_parent.get(&x) {
                            Some(p) => x = *p,
                            None => break,
                        }
                    }
                    let guessed = told.parent.iter().any(|(s, p)| true_parent.get(s) != Some(p));
                    if *s != start && (guessed || !ok || !told.parent.contains_key(s) || !told.chain().contains(s)) {
                        c.count("root held back");
                        continue;
                    }
                    root = root.max(*s);
                    c.count("rooted");
                }
                if p.is_none() && !told.known.contains(s) {
                    c.count("slot told before its parent");
                }
                if p.is_some() && !told.parent.contains_key(s) && *s < told.best {
                    c.count("slot told after its successor");
                }
                told.slot(*s, *p, *st);
                if guarded(|| cd.update_slot(SlotData { slot: *s, parent: *p, status: *st, chain: 0 })).is_err() {
                    c.violate("cache-failed", format!("update of slot {s} failed"));
                    return;
                }
            }
            Msg::Write(a, s, v) => {
                // late writes of slots already behind the root are not told unless they are on the chain
                if *s < root && !told.under().contains(s) {
                    c.count("late write of an abandoned slot held back");
                    continue;
                }
                if *s < root {
                    c.count("late write of a rooted slot");
                }
                told.writes.entry(*a).or_default().push((*s, *v));
                cd.update_account(keys[*a], data(*s, *v));
            }
            Msg::Rpc(a, s, v) => {
                if *s < root {
                    continue;
                }
                if *s > told.best {
                    let b = told.best;
                    told.slot(*s, Some(b), SlotStatus::Processed);
                    c.count(if true_parent.get(s) == Some(&b) { "rpc from the future" } else { "rpc from the future, guess wrong" });
                }
                told.writes.entry(*a).or_default().push((*s, *v));
                cd.update_from_rpc(&keys[*a], data(*s, *v));
            }
        }
        let snap = cd.accounts_snapshot();
        let iter: BTreeMap<Pubkey, u64> = cd.iter_accounts().map(|(k, a)| (*k, version_of(&a.account))).collect();
        for a in 0..n_acc {
            c.eval();
            let want = told.read(a);
            let got = cd.account_and_slot(&keys[a]).ok().map(|x| (x.slot, version_of(&x.account)));
            let got2 = cd.account(&keys[a]).ok().map(version_of);
            let got3 = snap.get(&keys[a]).map(|x| (x.slot, version_of(&x.account)));
            if got != want || got2 != want.map(|w| w.1) || got3 != want || iter.get(&keys[a]).copied() != want.map(|w| w.1) {
                let tail: Vec<String> = msgs[..=step].iter().map(|m| format!("{:?}", m.1)).collect();
                c.violate("cache", format!("account {a} reads as {got:?} / {got2:?} / {got3:?}, must be {want:?}, after {}", tail.join(", ")));
                return;
            }
            if let Some((s, v)) = want {
                let chain = told.chain();
                if told.writes[&a].iter().any(|w| w.0 > s) {
                    c.count("newer write on another fork ignored");
                }
                if told.writes[&a].iter().filter(|w| w.0 == s).count() > 1 {
                    c.count("several writes in a slot");
                }
                if told.writes[&a].last() != Some(&(s, v)) {
                    c.count("an older write came last");
                    c.nontrivial(mix(s ^ v << 10 ^ (chain.len() as u64) << 40 ^ (step as u64) << 52 ^ (told.best) << 20));
                }
            }
        }
    }
    c.trace(|| format!("{} messages about {} slots, root {root}", msgs.len(), tree.len()));
}

fn data(slot: u64, v: u64) -> AccountAndSlot {
    AccountAndSlot {
        slot,
        account: AccountSharedData::from(SdkAccount {
            lamports: v,
            data: v.to_le_bytes().to_vec(),
            owner: Pubkey::default(),
            executable: false,
            rent_epoch: 0,
        }),
    }
}

fn version_of(a: &AccountSharedData) -> u64 {
    a.lamports()
}
