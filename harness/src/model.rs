//! Reference model: what one instruction must do to a decoded market state.
//! All amounts are computed in i128, so nothing wraps; results that would not fit make the
//! model undecided (`Unsure`), because refusing such an instruction is legitimate.

use crate::containers::{naive_walk, pegged_state};
use crate::layout::{self, Event, Leaf, Market, OpenOrders, Side, Slot, Snap};
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

pub const SCALE: i128 = 1_000_000;
pub const PENALTY: u64 = 500;
pub const DROP_LIMIT: usize = 5;
pub const INLINE_LIMIT: usize = 15;

#[derive(Debug, Clone, PartialEq)]
pub enum No {
    /// the instruction must fail
    Fail(&'static str),
    /// numbers leave the representable range: failing is fine, succeeding is judged by the invariants only
    Unsure(&'static str),
}
use No::*;
type R<T> = Result<T, No>;

#[derive(Clone, Debug, PartialEq)]
pub struct Trade {
    pub maker: Pubkey,
    pub id: u128,
    pub price: i64,
    pub qty: i64,
    pub own: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub s: Snap,
    pub ret: Option<Vec<u8>>,
    pub logs: Vec<Vec<u8>>,
    /// token movements (from, to, amount)
    pub moves: Vec<(Pubkey, Pubkey, u64)>,
    /// lamport movements (from, to, amount)
    pub sys: Vec<(Pubkey, Pubkey, u64)>,
    pub tags: BTreeSet<&'static str>,
    pub trades: Vec<Trade>,
}

pub fn fee_floor(amount: i128, rate: i64) -> i128 {
    amount * rate as i128 / SCALE
}
pub fn fee_ceil(amount: i128, rate: i64) -> i128 {
    (amount * rate as i128 + SCALE - 1) / SCALE
}
pub fn maker_fee_floor(m: &Market, amount: i128) -> i128 {
    if m.maker_fee > 0 {
        fee_floor(amount, m.maker_fee)
    } else {
        0
    }
}
pub fn maker_fee_ceil(m: &Market, amount: i128) -> i128 {
    if m.maker_fee > 0 {
        fee_ceil(amount, m.maker_fee)
    } else {
        0
    }
}
pub fn rebate_floor(m: &Market, amount: i128) -> i128 {
    if m.maker_fee > 0 {
        0
    } else {
        fee_floor(amount, -m.maker_fee)
    }
}

fn u(x: i128) -> R<u64> {
    u64::try_from(x).map_err(|_| Unsure("amount leaves u64"))
}
fn i(x: i128) -> R<i64> {
    i64::try_from(x).map_err(|_| Unsure("amount leaves i64"))
}
fn addu(f: &mut u64, x: i128) -> R<()> {
    *f = u(*f as i128 + x)?;
    Ok(())
}
fn addi(f: &mut i64, x: i128) -> R<()> {
    *f = i(*f as i128 + x)?;
    Ok(())
}

/// Encoder for the published log layouts.
pub struct Log(Vec<u8>);
impl Log {
    pub fn new(name: &str) -> Self {
        Log(disc("event", name).to_vec())
    }
    pub fn k(mut self, v: &Pubkey) -> Self {
        self.0.extend_from_slice(v.as_ref());
        self
    }
    pub fn b(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i(mut self, v: i64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn w(mut self, v: u128) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn opt(self, v: Option<Pubkey>) -> Self {
        match v {
            None => self.b(0),
            Some(k) => self.b(1).k(&k),
        }
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

fn position_log(o: &OpenOrders) -> Vec<u8> {
    Log::new("OpenOrdersPositionLog")
        .k(&o.owner)
        .u32(o.account_num)
        .k(&o.market)
        .i(o.bids_base_lots)
        .i(o.bids_quote_lots)
        .i(o.asks_base_lots)
        .u(o.base_free)
        .u(o.quote_free)
        .u(o.locked_maker_fees)
        .u(o.referrer_rebates)
        .w(o.maker_volume)
        .w(o.taker_volume)
        .done()
}

/// The oracle price in lots; Err means that the oracle cannot be evaluated at all.
pub fn oracle_lots(w: &World, m: &Market) -> R<Option<i64>> {
    let read = |k: Pubkey| {
        let d = w.bank.data(&k);
        if d.len() < layout::STUB_LEN {
            return Err(Unsure("not a stub oracle"));
        }
        let slot = layout::u64_(d, 88);
        Ok((layout::f64_(d, 72), layout::f64_(d, 96), if slot == 0 { u64::MAX } else { slot }))
    };
    let stale = |slot: u64| m.max_staleness >= 0 && (slot as u128 + m.max_staleness as u128) < w.bank.slot as u128;
    let price = match (m.oracle_a, m.oracle_b) {
        (Some(a), None) => {
            let (p, dev, slot) = read(a)?;
            if stale(slot) || dev > m.conf_filter * p {
                return Ok(None);
            }
            p
        }
        (Some(a), Some(b)) => {
            let (pa, da, sa) = read(a)?;
            let (pb, db, sb) = read(b)?;
            let var = (da / pa).powi(2) + (db / pb).powi(2);
            if stale(sa) || stale(sb) || var > m.conf_filter.powi(2) {
                return Ok(None);
            }
            pa / pb
        }
        _ => return Ok(None),
    };
    let adj = 10f64.powi(m.quote_decimals as i32 - m.base_decimals as i32);
    let p = price * adj;
    if !p.is_finite() || p.abs() >= 2f64.powi(79) {
        return Ok(None);
    }
    // 48 fractional bits, nearest, ties to even
    let scaled = p * 2f64.powi(48);
    let fl = scaled.floor();
    let mut bits = fl as i128;
    let frac = scaled - fl;
    if frac > 0.5 || (frac == 0.5 && bits % 2 != 0) {
        bits += 1;
    }
    let x = bits.checked_mul(m.bls as i128).ok_or(Fail("oracle price not representable"))?;
    let x = x / m.qls as i128;
    i64::try_from(x >> 48).map(Some).map_err(|_| Fail("oracle price not representable"))
}

pub struct Ctx<'a> {
    pub w: &'a World,
    pub mk: &'a Mk,
    pub now: u64,
    pub e: Exp,
}

struct Amounts {
    id: Option<u128>,
    posted_base: i128,
    posted_quote: i128,
    base: i128,
    quote: i128,
    taker_fee: i128,
    maker_fee: i128,
    referrer: i128,
}

fn token_owner(w: &World, k: &Pubkey) -> Pubkey {
    let d = w.bank.data(k);
    if d.len() < 165 {
        return Pubkey::default();
    }
    layout::key_(d, 32)
}

pub fn order_key(side: u8, price_data: u64, seq: u64) -> u128 {
    let low = if side == 0 { !seq } else { seq };
    ((price_data as u128) << 64) | low as u128
}

/// the worst order of a side: (tree, index, price)
fn worst(side: &Side, kind: u8, oracle: Option<i64>) -> Option<(usize, usize, i64)> {
    let pick = |t: usize| {
        let v = &side.trees[t];
        if v.is_empty() {
            None
        } else {
            Some(if kind == 0 { 0 } else { v.len() - 1 })
        }
    };
    let a = pick(0).map(|n| {
        let l = &side.trees[0][n];
        (0usize, n, l.price_data() as i64, l.key as u64)
    });
    let b = oracle.and_then(|o| {
        pick(1).map(|n| {
            let l = &side.trees[1][n];
            (1usize, n, pegged_state(l, kind as usize, o).1, l.key as u64)
        })
    });
    match (a, b) {
        (None, None) => None,
        (Some(x), None) | (None, Some(x)) => Some((x.0, x.1, x.2)),
        (Some(x), Some(y)) => {
            let (kx, ky) = ((x.2 as u64, x.3), (y.2 as u64, y.3));
            let x_worse = if kind == 0 { kx <= ky } else { kx >= ky };
            let z = if x_worse { x } else { y };
            Some((z.0, z.1, z.2))
        }
    }
}

impl<'a> Ctx<'a> {
    pub fn new(w: &'a World, mk: &'a Mk, pre: &Snap) -> Self {
        Ctx {
            w,
            mk,
            now: w.bank.ts as u64,
            e: Exp {
                s: pre.clone(),
                ..Default::default()
            },
        }
    }

    fn tag(&mut self, t: &'static str) {
        self.e.tags.insert(t);
    }

    fn oo(&mut self, k: &Pubkey) -> R<&mut OpenOrders> {
        self.e.s.oos.get_mut(k).ok_or(Fail("no such account"))
    }

    /// move tokens on behalf of `authority`
    fn pay(&mut self, from: Pubkey, to: Pubkey, authority: &Pubkey, amount: i128) -> R<()> {
        let amount = u(amount)?;
        if amount == 0 {
            return Ok(());
        }
        if token_owner(self.w, &from) != *authority {
            self.tag("foreign-wallet");
            return Err(Fail("wallet belongs to someone else"));
        }
        let have = *self.e.s.tok.get(&from).ok_or(Unsure("unknown wallet"))?;
        if have < amount {
            self.tag("poor");
            return Err(Fail("wallet too poor"));
        }
        if from != to {
            self.e.s.tok.insert(from, have - amount);
            let t = self.e.s.tok.get_mut(&to).ok_or(Unsure("unknown wallet"))?;
            addu(t, amount as i128)?;
        }
        self.e.moves.push((from, to, amount));
        Ok(())
    }

    fn pay_lamports(&mut self, from: Pubkey, to: Pubkey, amount: u64) -> R<()> {
        let have = *self.e.s.lam.get(&from).ok_or(Unsure("unknown payer"))?;
        if have < amount {
            self.tag("poor");
            return Err(Fail("payer too poor"));
        }
        if from != to {
            *self.e.s.lam.get_mut(&from).unwrap() -= amount;
            *self.e.s.lam.get_mut(&to).ok_or(Unsure("unknown receiver"))? += amount;
        }
        self.e.sys.push((from, to, amount));
        Ok(())
    }

    fn expired(&self) -> bool {
        let t = self.e.s.m.time_expiry;
        t != 0 && t < self.w.bank.ts
    }

    fn may_act(&self, oo: &Pubkey, who: &Pubkey) -> R<()> {
        let o = self.e.s.oos.get(oo).ok_or(Fail("no such account"))?;
        if o.market != self.mk.key {
            return Err(Fail("account of another market"));
        }
        if o.owner != *who && o.delegate != Some(*who) {
            return Err(Fail("neither owner nor delegate"));
        }
        Ok(())
    }

    // ------------------------------------------------------------ account effects

    /// an order leaves the book unfilled: release its collateral and its entry
    fn cancel_on(&mut self, oo: &Pubkey, slot: u8, qty: i64) -> R<()> {
        let m = self.e.s.m.clone();
        let o = self.oo(oo)?;
        let sl = o.slots.get(slot as usize).cloned().unwrap_or_default();
        if !sl.used {
            return Err(Unsure("entry is not in use"));
        }
        let bid = sl.side_tree % 2 == 0;
        if sl.side_tree >= 2 {
            self.tag("peg-cancel");
        }
        let o = self.oo(oo)?;
        if bid {
            let quote = qty as i128 * sl.locked_price as i128 * m.qls as i128;
            let fee = maker_fee_ceil(&m, quote);
            addu(&mut o.quote_free, quote + fee)?;
            addu(&mut o.locked_maker_fees, -fee)?;
            addi(&mut o.bids_base_lots, -(qty as i128))?;
            addi(&mut o.bids_quote_lots, -(qty as i128 * sl.locked_price as i128))?;
        } else {
            addu(&mut o.base_free, qty as i128 * m.bls as i128)?;
            addi(&mut o.asks_base_lots, -(qty as i128))?;
        }
        o.slots[slot as usize] = Slot::default();
        Ok(())
    }

    /// a fill reaches its maker
    fn fill_maker(&mut self, ev: &Event) -> R<()> {
        let (taker_side, maker_out, maker_slot, ts, seq, maker, maker_ts, taker, taker_client, price, peg_limit, qty, maker_client) = match ev {
            Event::Fill {
                taker_side,
                maker_out,
                maker_slot,
                ts,
                seq,
                maker,
                maker_ts,
                taker,
                taker_client,
                price,
                peg_limit,
                qty,
                maker_client,
            } => (*taker_side, *maker_out, *maker_slot, *ts, *seq, *maker, *maker_ts, *taker, *taker_client, *price, *peg_limit, *qty, *maker_client),
            _ => return Err(Unsure("not a fill")),
        };
        let m = self.e.s.m.clone();
        let own = maker == taker;
        let quote = qty as i128 * price as i128 * m.qls as i128;
        let (fee, rebate) = if own {
            (0, 0)
        } else {
            (maker_fee_floor(&m, quote), rebate_floor(&m, quote))
        };
        let bid = taker_side == 1;
        let lock_price = if peg_limit != -1 && bid { peg_limit } else { price };
        let o = self.oo(&maker)?;
        if bid {
            let at_lock = qty as i128 * lock_price as i128 * m.qls as i128;
            let fee_at_lock = maker_fee_floor(&m, at_lock);
            addu(&mut o.base_free, qty as i128 * m.bls as i128)?;
            addu(&mut o.quote_free, rebate + (at_lock - quote) + (fee_at_lock - fee))?;
            addu(&mut o.locked_maker_fees, -fee_at_lock)?;
            addi(&mut o.bids_base_lots, -(qty as i128))?;
            addi(&mut o.bids_quote_lots, -(qty as i128 * lock_price as i128))?;
        } else {
            addu(&mut o.quote_free, quote + rebate - fee)?;
            addi(&mut o.asks_base_lots, -(qty as i128))?;
        }
        o.maker_volume += quote as u128;
        addu(&mut o.referrer_rebates, fee)?;
        if maker_out {
            match o.slots.get_mut(maker_slot as usize) {
                Some(s) if s.used => *s = Slot::default(),
                _ => return Err(Unsure("entry is not in use")),
            }
        }
        let o = o.clone();
        let sm = &mut self.e.s.m;
        addu(&mut sm.referrer_rebates_accrued, fee)?;
        sm.maker_volume += quote as u128;
        sm.fees_accrued += fee as u128;
        let taker_fee = if quote > 0 && !own { u(fee_ceil(quote, m.taker_fee))? } else { 0 };
        self.e.logs.push(
            Log::new("FillLog")
                .k(&o.market)
                .b(taker_side)
                .b(maker_slot)
                .b(maker_out as u8)
                .u(ts)
                .u(seq)
                .k(&maker)
                .u(maker_client)
                .u(fee as u64)
                .u(maker_ts)
                .k(&taker)
                .u(taker_client)
                .u(taker_fee)
                .i(price)
                .i(qty)
                .done(),
        );
        self.e.logs.push(position_log(&o));
        if bid && peg_limit != -1 && peg_limit > price {
            self.tag("peg-refund");
        }
        if own {
            self.tag("self-fill");
        }
        if peg_limit != -1 {
            self.tag("peg-event");
        }
        if fee > 0 {
            self.tag("makerfee");
        }
        if rebate > 0 {
            self.tag("rebate");
        }
        Ok(())
    }

    fn push(&mut self, ev: Event) -> R<()> {
        if self.e.s.heap.events.len() >= layout::MAX_EVENTS {
            self.tag("queue-full");
            return Err(Fail("event queue full"));
        }
        self.e.s.heap.events.push((u16::MAX, ev));
        self.e.s.heap.seq += 1;
        self.tag("heap-push");
        Ok(())
    }

    fn removed(&mut self, side: u8, leaf: &Leaf, taker: Option<&Pubkey>, rem: &[Pubkey]) -> R<()> {
        if taker == Some(&leaf.owner) {
            self.tag("own-removed");
            return self.cancel_on(&leaf.owner, leaf.slot, leaf.qty);
        }
        if rem.contains(&leaf.owner) {
            self.tag("inline");
            return self.cancel_on(&leaf.owner, leaf.slot, leaf.qty);
        }
        let ev = Event::Out {
            side,
            slot: leaf.slot,
            ts: self.now,
            seq: self.e.s.heap.seq,
            owner: leaf.owner,
            qty: leaf.qty,
        };
        self.push(ev)
    }

    fn walk(&self, side: u8, oracle: Option<i64>) -> Vec<(usize, Leaf, i64, bool)> {
        let s = self.e.s.side(side);
        let live: Vec<(usize, Leaf)> = (0..2).flat_map(|t| s.trees[t].iter().map(move |l| (t, l.clone()))).collect();
        naive_walk(&live, side as usize, self.now, oracle)
    }

    fn delete(&mut self, side: u8, tree: usize, key: u128) {
        self.e.s.side_mut(side).take(tree, key);
    }

    // ------------------------------------------------------------ matching

    #[allow(clippy::too_many_arguments)]
    fn new_order(&mut self, req: &Req, max_base: i64, max_quote: i64, tif: u16, account: Option<Pubkey>, owner: Pubkey, oracle: Option<i64>, rem: &[Pubkey]) -> R<Amounts> {
        let m0 = self.e.s.m.clone();
        let side = req.side;
        let other = 1 - side;
        let post_only = req.otype == 2 || req.otype == 4;
        let pegged = matches!(req.price, Price::Pegged { .. });
        let mut post = matches!(req.otype, 0 | 2 | 4);

        // price
        let mut price: i128 = match req.price {
            Price::Fixed(_) if req.otype == 3 => {
                if side == 0 {
                    i64::MAX as i128
                } else {
                    1
                }
            }
            Price::Fixed(p) => p as i128,
            Price::Pegged { offset, .. } => {
                let o = match oracle {
                    Some(o) => o,
                    None => {
                        self.tag("no-oracle");
                        return Err(Fail("no oracle price"));
                    }
                };
                let p = o as i128 + offset as i128;
                if i64::try_from(p).is_err() {
                    return Err(Fail("pegged price not representable"));
                }
                p
            }
        };
        if req.otype == 4 {
            if let Some(best) = self.walk(other, oracle).iter().find(|x| x.3).map(|x| x.2 as i128) {
                let lim = if side == 0 { best - 1 } else { best + 1 };
                i(lim)?;
                let slid = if side == 0 { price.min(lim) } else { price.max(lim) };
                if slid != price {
                    self.tag("slide");
                }
                price = slid;
            }
        }
        if price < 1 {
            return Err(Fail("price below one lot"));
        }
        let price = i(price)?;
        let price_data = if pegged {
            let d = price as i128 - oracle.unwrap() as i128;
            (i(d)? as u64) ^ (1 << 63)
        } else {
            price as u64
        };
        self.e.s.m.seq_num += 1;
        let id = order_key(side, price_data, self.e.s.m.seq_num);

        let budget: i128 = if side == 0 && !post_only {
            max_quote as i128 * SCALE / (SCALE + m0.taker_fee as i128)
        } else {
            max_quote as i128
        };
        if max_base as i128 > (i64::MAX / m0.bls) as i128 || budget > (i64::MAX / m0.qls) as i128 {
            return Err(Fail("size out of range"));
        }

        let mut rem_base = max_base as i128;
        let mut rem_quote = budget;
        let mut self_quote = 0i128;
        let mut rebates = 0i128;
        let mut limit = req.limit;
        let mut dropped = 0;
        let mut inline_fills = 0;
        for (tree, leaf, best, valid) in self.walk(other, oracle) {
            if rem_base == 0 || rem_quote == 0 {
                break;
            }
            if leaf.tif > 0 {
                self.tag("tif-met");
            }
            if tree == 1 {
                self.tag("peg-met");
            }
            if !valid {
                if dropped < DROP_LIMIT {
                    dropped += 1;
                    if leaf.expired(self.now) {
                        self.tag("expired-drop");
                    } else {
                        self.tag("peg-drop");
                    }
                    self.removed(other, &leaf, account.as_ref(), rem)?;
                    self.delete(other, tree, leaf.key);
                } else {
                    self.tag("drop-limit");
                }
                continue;
            }
            let crosses = if side == 0 { best <= price } else { best >= price };
            if !crosses {
                self.tag("limit-price");
                break;
            }
            if post_only {
                self.tag("post-only-refused");
                post = false;
                break;
            }
            if limit == 0 {
                self.tag("match-limit");
                post = false;
                break;
            }
            let by_quote = rem_quote / best as i128;
            if by_quote == 0 {
                self.tag("quote-hit");
                post = false;
                break;
            }
            let qty = rem_base.min(leaf.qty as i128).min(by_quote);
            let quote = qty * best as i128;
            let own = account == Some(leaf.owner);
            if own {
                self.tag("self");
                match req.stb {
                    0 => {
                        self.tag("self-decrement");
                        self_quote += quote;
                    }
                    1 => {
                        self.tag("self-cancel");
                        self.cancel_on(&leaf.owner, leaf.slot, leaf.qty)?;
                        self.delete(other, tree, leaf.key);
                        continue;
                    }
                    _ => {
                        self.tag("self-abort");
                        return Err(Fail("would self-trade"));
                    }
                }
            } else {
                rebates += rebate_floor(&m0, quote * m0.qls as i128);
            }
            rem_base -= qty;
            rem_quote -= quote;
            let left = leaf.qty as i128 - qty;
            self.e.trades.push(Trade {
                maker: leaf.owner,
                id: leaf.key,
                price: best,
                qty: qty as i64,
                own,
            });
            self.tag("match");
            if tree == 1 {
                self.tag("peg-fill");
            }
            if left == 0 {
                self.delete(other, tree, leaf.key);
            } else {
                self.tag("partial-maker");
                for l in self.e.s.side_mut(other).trees[tree].iter_mut() {
                    if l.key == leaf.key {
                        l.qty = left as i64;
                    }
                }
            }
            let ev = Event::Fill {
                taker_side: side,
                maker_out: left == 0,
                maker_slot: leaf.slot,
                ts: self.now,
                seq: self.e.s.m.seq_num,
                maker: leaf.owner,
                maker_ts: leaf.ts,
                taker: owner,
                taker_client: req.client,
                price: best,
                peg_limit: leaf.peg_limit,
                qty: qty as i64,
                maker_client: leaf.client,
            };
            let log = Log::new("TakerSignatureLog").k(&self.mk.key).u(self.e.s.m.seq_num).done();
            self.e.logs.push(log);
            if rem.contains(&leaf.owner) && inline_fills < INLINE_LIMIT {
                if own {
                    return Err(Fail("own account supplied twice"));
                }
                inline_fills += 1;
                self.tag("inline");
                self.fill_maker(&ev)?;
            } else {
                if rem.contains(&leaf.owner) {
                    self.tag("inline-limit");
                }
                self.push(ev)?;
            }
            limit -= 1;
        }

        let m0 = self.e.s.m.clone();
        let quote_lots = budget - rem_quote;
        let base_lots = max_base as i128 - rem_base;
        let base = base_lots * m0.bls as i128;
        let quote = quote_lots * m0.qls as i128;
        let mut taker_fee = 0i128;
        let mut referrer = 0i128;
        if quote_lots > 0 || base_lots > 0 {
            let foreign = (quote_lots - self_quote) * m0.qls as i128;
            if foreign > 0 {
                taker_fee = fee_ceil(foreign, m0.taker_fee);
                referrer = taker_fee - rebates;
                if referrer < 0 {
                    return Err(Unsure("rebates above fees"));
                }
                self.e.s.m.fees_accrued += referrer as u128;
                if taker_fee > 0 {
                    self.tag("fee");
                }
            }
            if let Some(a) = account {
                let o = self.oo(&a)?;
                if side == 0 {
                    addu(&mut o.base_free, base)?;
                } else {
                    addu(&mut o.quote_free, quote - taker_fee)?;
                }
                o.taker_volume += quote as u128;
                addu(&mut o.referrer_rebates, referrer)?;
                let log = position_log(o);
                self.e.logs.push(log);
                addu(&mut self.e.s.m.referrer_rebates_accrued, referrer)?;
            } else {
                self.e.s.m.taker_volume_wo_oo += quote as u128;
            }
            let (paid, got) = if side == 0 { (quote + taker_fee, base) } else { (base, quote - taker_fee) };
            self.e.logs.push(
                Log::new("TotalOrderFillEvent")
                    .b(side)
                    .k(&owner)
                    .u(u(paid)?)
                    .u(u(got)?)
                    .u(u(taker_fee)?)
                    .done(),
            );
        }

        // remainder
        let fee_lots = (taker_fee + m0.qls as i128 - 1) / m0.qls as i128;
        let mut left_quote = max_quote as i128 - quote_lots - fee_lots;
        left_quote -= maker_fee_ceil(&m0, left_quote);
        let (peg_limit, lock_price) = match req.price {
            Price::Pegged { limit, .. } => (limit, if side == 0 { limit } else { price }),
            _ => (-1, price),
        };
        let qty = rem_base.min(left_quote / lock_price as i128);
        if qty <= 0 {
            post = false;
        }
        if pegged && (if side == 0 { price > peg_limit } else { price < peg_limit }) {
            self.tag("beyond-peg-limit");
            post = false;
        }
        if req.otype == 5 {
            if rem_base > 0 {
                self.tag("fok-kill");
                return Err(Fail("fill-or-kill not filled"));
            }
            self.tag("fok");
        }
        let mut a = Amounts {
            id: None,
            posted_base: 0,
            posted_quote: 0,
            base,
            quote,
            taker_fee,
            maker_fee: 0,
            referrer,
        };
        if !post {
            return Ok(a);
        }
        let acc = match account {
            Some(a) => a,
            None => return Err(Unsure("posting without an account")),
        };
        if qty * lock_price as i128 > (i64::MAX / m0.qls) as i128 {
            return Err(Fail("posted amount out of range"));
        }
        let qty = i(qty)?;
        a.posted_base = qty as i128 * m0.bls as i128;
        a.posted_quote = qty as i128 * lock_price as i128 * m0.qls as i128;
        if side == 0 {
            a.maker_fee = maker_fee_ceil(&m0, a.posted_quote);
            addu(&mut self.oo(&acc)?.locked_maker_fees, a.maker_fee)?;
        }
        let target = pegged as usize;
        for t in [target, 1 - target] {
            let v = &self.e.s.side(side).trees[t];
            let first = v.iter().filter(|l| l.tif > 0).map(|l| (l.expiry(), l.key)).min();
            if let Some((exp, key)) = first {
                if exp < self.now {
                    let leaf = v.iter().find(|l| l.key == key).unwrap().clone();
                    self.delete(side, t, key);
                    self.tag("own-side-expired");
                    self.removed(side, &leaf, Some(&acc), rem)?;
                    break;
                }
            }
        }
        if self.e.s.side(side).nearly_full() {
            self.tag("nearly-full");
        }
        if self.e.s.side(side).full() {
            self.tag("full");
            let (t, n, wp) = match worst(self.e.s.side(side), side, oracle) {
                Some(x) => x,
                None => return Err(Fail("no order can be ranked")),
            };
            if !(if side == 0 { price > wp } else { price < wp }) {
                self.tag("full-refuse");
                return Err(Fail("book full of better orders"));
            }
            let leaf = self.e.s.side(side).trees[t][n].clone();
            self.delete(side, t, leaf.key);
            self.tag("evict");
            if !self.e.s.side(side).room(target) {
                // the last order of one tree gives back one place, the other tree needs two
                return Err(Unsure("no room after the eviction"));
            }
            self.removed(side, &leaf, Some(&acc), rem)?;
        }
        let o = self.oo(&acc)?;
        let slot = match o.slots.iter().position(|s| !s.used) {
            Some(s) => s,
            None => {
                self.tag("table-full");
                return Err(Fail("open order table full"));
            }
        };
        o.slots[slot] = Slot {
            id,
            client: req.client,
            locked_price: lock_price,
            used: true,
            side_tree: side + 2 * target as u8,
        };
        if side == 0 {
            addi(&mut o.bids_base_lots, qty as i128)?;
            addi(&mut o.bids_quote_lots, qty as i128 * lock_price as i128)?;
        } else {
            addi(&mut o.asks_base_lots, qty as i128)?;
        }
        let leaf = Leaf {
            key: id,
            owner: acc,
            slot: slot as u8,
            tif,
            qty,
            ts: self.now,
            peg_limit,
            client: req.client,
        };
        self.e.s.side_mut(side).put(target, leaf);
        self.tag("post");
        if pegged {
            self.tag("peg-post");
        }
        if tif > 0 {
            self.tag("expiring-post");
        }
        a.id = Some(id);
        Ok(a)
    }

    fn tif(&self, expiry: u64) -> Option<u16> {
        if expiry == 0 {
            return Some(0);
        }
        let t = expiry.saturating_sub(self.now).min(65535);
        if t == 0 {
            None
        } else {
            Some(t as u16)
        }
    }

    /// argument checks made before anything else; Ok(None): order already expired
    fn check_req(&mut self, req: &Req) -> R<Option<u16>> {
        match req.price {
            Price::Fixed(p) => {
                if p < 1 {
                    return Err(Fail("price below one"));
                }
            }
            Price::Pegged { limit, .. } => {
                if self.e.s.m.oracle_a.is_none() {
                    return Err(Fail("market without oracle"));
                }
                if limit <= 0 {
                    return Err(Fail("peg limit"));
                }
            }
        }
        let t = self.tif(req.expiry);
        if t.is_none() {
            self.tag("already-expired");
        } else if req.expiry > self.now + 65535 {
            self.tag("expiry-clamped");
        }
        if t.is_some() && matches!(req.price, Price::Pegged { .. }) && !matches!(req.otype, 0 | 2 | 4) {
            return Err(Fail("pegged order must be able to rest"));
        }
        Ok(t)
    }

    fn place(&mut self, oo: Pubkey, signer: Pubkey, wallet: Pubkey, req: &Req, max_base: i64, tif: u16, rem: &[Pubkey]) -> R<Option<u128>> {
        if max_base < 0 || req.max_quote < 0 {
            return Err(Fail("negative size"));
        }
        if self.expired() {
            self.tag("market-expired");
            return Err(Fail("market expired"));
        }
        let before = self.e.s.heap.events.len();
        let oracle = oracle_lots(self.w, &self.e.s.m)?;
        let a = self.new_order(req, max_base, req.max_quote, tif, Some(oo), oo, oracle, rem)?;
        let longer = self.e.s.heap.events.len() > before;
        let (need, vault) = if req.side == 0 {
            (a.quote + a.posted_quote + a.taker_fee + a.maker_fee, self.mk.quote_vault)
        } else {
            (a.base + a.posted_base, self.mk.base_vault)
        };
        let o = self.oo(&oo)?;
        let free = if req.side == 0 { &mut o.quote_free } else { &mut o.base_free };
        let from_free = need.min(*free as i128);
        addu(free, -from_free)?;
        if longer {
            o.penalty += 1;
        }
        let rest = need - from_free;
        if req.side == 0 {
            addu(&mut self.e.s.m.quote_total, rest)?;
        } else {
            addu(&mut self.e.s.m.base_total, rest)?;
        }
        if from_free > 0 {
            self.tag("from-free");
        }
        if rest > 0 {
            self.tag("from-wallet");
        }
        if longer {
            self.tag("penalty");
        }
        self.pay(wallet, vault, &signer, rest)?;
        Ok(a.id)
    }

    fn cancel_many(&mut self, oo: &Pubkey, mut limit: u8, side: Option<u8>, client: Option<u64>) -> R<i128> {
        let mut total = 0i128;
        for n in 0..layout::MAX_OO {
            let sl = self.oo(oo)?.slots[n].clone();
            if !sl.used || side.map(|s| s != sl.side_tree % 2).unwrap_or(false) || client.map(|c| c != sl.client).unwrap_or(false) {
                continue;
            }
            if limit == 0 {
                self.tag("cancel-limit");
                break;
            }
            let (s, t) = (sl.side_tree % 2, (sl.side_tree / 2) as usize);
            let found = self.e.s.side(s).trees[t].iter().find(|l| l.key == sl.id).cloned();
            match found {
                Some(l) => {
                    self.delete(s, t, l.key);
                    self.cancel_on(oo, l.slot, l.qty)?;
                    total += l.qty as i128;
                    self.tag("cancelled");
                }
                None => self.tag("already-gone"),
            }
            limit -= 1;
        }
        i(total)?;
        Ok(total)
    }

    fn settle(&mut self, oo: &Pubkey, payer: Pubkey, base: Pubkey, quote: Pubkey, referrer: Option<Pubkey>) -> R<()> {
        let m = self.e.s.m.clone();
        let o = self.oo(oo)?;
        let mut rebate = o.referrer_rebates as i128;
        if m.maker_fee > 0 && o.bids_base_lots == 0 {
            rebate += o.locked_maker_fees as i128;
            if o.locked_maker_fees > 0 {
                self.e.tags.insert("roundoff");
            }
            let o = self.oo(oo)?;
            o.locked_maker_fees = 0;
        }
        let o = self.oo(oo)?;
        let (b, q, r, pen) = (o.base_free, o.quote_free, o.referrer_rebates, o.penalty);
        o.base_free = 0;
        o.quote_free = 0;
        o.referrer_rebates = 0;
        o.penalty = 0;
        let sm = &mut self.e.s.m;
        if referrer.is_some() {
            sm.fees_to_referrers += rebate as u128;
            addu(&mut sm.quote_total, -rebate)?;
        } else {
            addu(&mut sm.fees_available, rebate)?;
        }
        addu(&mut sm.base_total, -(b as i128))?;
        addu(&mut sm.quote_total, -(q as i128))?;
        addu(&mut sm.referrer_rebates_accrued, -(r as i128))?;
        if pen > 0 {
            self.tag("penalty-paid");
            self.pay_lamports(payer, self.mk.key, pen * PENALTY)?;
        }
        let auth = self.mk.authority;
        if let Some(rf) = referrer {
            if rebate > 0 {
                self.tag("referrer-paid");
            }
            self.pay(self.mk.quote_vault, rf, &auth, rebate)?;
        } else if rebate > 0 {
            self.tag("rebate-to-fees");
        }
        if b > 0 || q > 0 {
            self.tag("paid-out");
        }
        self.pay(self.mk.base_vault, base, &auth, b as i128)?;
        self.pay(self.mk.quote_vault, quote, &auth, q as i128)?;
        self.e.logs.push(
            Log::new("SettleFundsLog")
                .k(oo)
                .u(b)
                .u(q)
                .u(u(rebate)?)
                .opt(referrer)
                .done(),
        );
        Ok(())
    }

    fn ret_id(&mut self, id: Option<u128>) {
        let mut v = vec![];
        push_opt(&mut v, id);
        self.e.ret = Some(v);
    }

    pub fn run(&mut self, op: &Op) -> R<()> {
        match op {
            Op::Place { oo, signer, wallet, req, rem } => {
                self.may_act(oo, signer)?;
                let tif = match self.check_req(req)? {
                    Some(t) => t,
                    None => {
                        self.ret_id(None);
                        return Ok(());
                    }
                };
                let id = self.place(*oo, *signer, *wallet, req, req.max_base, tif, rem)?;
                self.ret_id(id);
            }
            Op::Edit { oo, signer, wallet, cancel, expected, req, rem } => {
                self.may_act(oo, signer)?;
                let tif = match self.check_req(req)? {
                    Some(t) => t,
                    None => {
                        self.ret_id(None);
                        return Ok(());
                    }
                };
                if *expected < 0 {
                    return Err(Fail("negative expected size"));
                }
                let got = self.cancel_many(oo, u8::MAX, None, Some(*cancel))?;
                let filled = *expected as i128 - got;
                i(filled)?;
                let mut id = None;
                if filled >= 0 && req.max_base as i128 > filled {
                    self.tag(if filled == 0 { "edit-unfilled" } else { "edit-filled" });
                    id = self.place(*oo, *signer, *wallet, req, i(req.max_base as i128 - filled)?, tif, rem)?;
                } else {
                    self.tag("edit-cancel-only");
                }
                self.ret_id(id);
            }
            Op::Batch { oo, signer, base, quote, cancel, otype, bids, asks, limit, rem } => {
                self.may_act(oo, signer)?;
                let mut orders = vec![];
                for (n, o) in bids.iter().chain(asks).enumerate() {
                    if o.price < 1 {
                        return Err(Fail("price below one"));
                    }
                    match self.tif(o.expiry) {
                        Some(t) => {
                            if o.expiry > self.now + 65535 {
                                self.tag("expiry-clamped");
                            }
                            orders.push((n, (n >= bids.len()) as u8, o.clone(), t))
                        }
                        None => {
                            self.tag("already-expired");
                        }
                    }
                }
                if self.expired() {
                    self.tag("market-expired");
                    return Err(Fail("market expired"));
                }
                let before = self.e.s.heap.events.len();
                let oracle = oracle_lots(self.w, &self.e.s.m)?;
                if *cancel {
                    self.cancel_many(oo, u8::MAX, None, None)?;
                }
                let m = self.e.s.m.clone();
                let (mut need_base, mut need_quote) = (0i128, 0i128);
                let have_base = *self.e.s.tok.get(base).ok_or(Unsure("unknown wallet"))? as i128;
                let have_quote = *self.e.s.tok.get(quote).ok_or(Unsure("unknown wallet"))? as i128;
                let mut ids = vec![];
                for (n, side, o, tif) in orders {
                    if o.max_quote < 0 {
                        return Err(Fail("negative size"));
                    }
                    let mut max_base = i64::MAX / m.bls;
                    let mut max_quote = o.max_quote;
                    let acc = self.oo(oo)?.clone();
                    if side == 1 {
                        let avail = u(u(have_base + acc.base_free as i128)? as i128 - need_base)? / m.bls as u64;
                        if (max_base as u64) > avail {
                            self.tag("capped");
                            max_base = avail as i64;
                        }
                    } else {
                        let avail = u(u(have_quote + acc.quote_free as i128)? as i128 - need_quote)? / m.qls as u64;
                        if (max_quote as u64) > avail {
                            self.tag("capped");
                            max_quote = avail as i64;
                        }
                    }
                    let req = Req {
                        side,
                        price: Price::Fixed(o.price),
                        max_base,
                        max_quote,
                        client: n as u64,
                        otype: *otype,
                        expiry: o.expiry,
                        stb: 1,
                        limit: *limit,
                    };
                    let a = self.new_order(&req, max_base, max_quote, tif, Some(*oo), *oo, oracle, rem)?;
                    if side == 0 {
                        need_quote += a.quote + a.posted_quote + a.taker_fee + a.maker_fee;
                        u(need_quote)?;
                    } else {
                        need_base += a.base + a.posted_base;
                        u(need_base)?;
                    }
                    ids.push(a.id);
                }
                let longer = self.e.s.heap.events.len() > before;
                let acc = self.oo(oo)?;
                let fb = need_base.min(acc.base_free as i128);
                let fq = need_quote.min(acc.quote_free as i128);
                addu(&mut acc.base_free, -fb)?;
                addu(&mut acc.quote_free, -fq)?;
                if longer {
                    acc.penalty += 1;
                    self.tag("penalty");
                }
                addu(&mut self.e.s.m.base_total, need_base - fb)?;
                addu(&mut self.e.s.m.quote_total, need_quote - fq)?;
                if fb + fq > 0 {
                    self.tag("from-free");
                }
                if need_base - fb + need_quote - fq > 0 {
                    self.tag("from-wallet");
                }
                self.pay(*quote, self.mk.quote_vault, signer, need_quote - fq)?;
                self.pay(*base, self.mk.base_vault, signer, need_base - fb)?;
                let mut v = (ids.len() as u32).to_le_bytes().to_vec();
                for id in ids {
                    push_opt(&mut v, id);
                }
                self.e.ret = Some(v);
            }
            Op::Take { signer, payer, base, quote, req, rem } => {
                if let Price::Fixed(p) = req.price {
                    if p < 1 {
                        return Err(Fail("price below one"));
                    }
                }
                if !matches!(req.otype, 1 | 3 | 5) {
                    return Err(Fail("order type"));
                }
                if req.max_base < 0 || req.max_quote < 0 {
                    return Err(Fail("negative size"));
                }
                if self.expired() {
                    self.tag("market-expired");
                    return Err(Fail("market expired"));
                }
                let before = self.e.s.heap.events.len();
                let oracle = oracle_lots(self.w, &self.e.s.m)?;
                let mut rq = req.clone();
                rq.client = 0;
                let a = self.new_order(&rq, req.max_base, req.max_quote, 0, None, *signer, oracle, rem)?;
                let rebates = a.taker_fee - a.referrer;
                let auth = self.mk.authority;
                if self.e.s.heap.events.len() > before {
                    self.tag("penalty");
                    self.pay_lamports(*payer, self.mk.key, PENALTY)?;
                }
                if req.side == 0 {
                    addu(&mut self.e.s.m.base_total, -a.base)?;
                    addu(&mut self.e.s.m.quote_total, a.quote + rebates)?;
                    self.pay(*quote, self.mk.quote_vault, signer, a.quote + rebates)?;
                    self.pay(self.mk.base_vault, *base, &auth, a.base)?;
                } else {
                    addu(&mut self.e.s.m.base_total, a.base)?;
                    addu(&mut self.e.s.m.quote_total, -(a.quote - rebates))?;
                    self.pay(*base, self.mk.base_vault, signer, a.base)?;
                    self.pay(self.mk.quote_vault, *quote, &auth, a.quote - rebates)?;
                }
            }
            Op::CancelId { oo, signer, id } => {
                self.may_act(oo, signer)?;
                let sl = self.oo(oo)?.slots.iter().find(|s| s.used && s.id == *id && *id > 0).cloned();
                let sl = sl.ok_or(Fail("no such order"))?;
                let (s, t) = (sl.side_tree % 2, (sl.side_tree / 2) as usize);
                let leaf = self.e.s.side(s).trees[t].iter().find(|l| l.key == *id).cloned();
                let leaf = match leaf {
                    Some(l) => l,
                    None => {
                        self.tag("already-gone");
                        return Err(Fail("order not on the book"));
                    }
                };
                if leaf.owner != *oo {
                    return Err(Fail("order of someone else"));
                }
                self.delete(s, t, leaf.key);
                self.cancel_on(oo, leaf.slot, leaf.qty)?;
                self.tag("cancelled");
            }
            Op::CancelClient { oo, signer, client } => {
                self.may_act(oo, signer)?;
                let t = self.cancel_many(oo, u8::MAX, None, Some(*client))?;
                self.e.ret = Some(i(t)?.to_le_bytes().to_vec());
            }
            Op::CancelAll { oo, signer, side, limit } => {
                self.may_act(oo, signer)?;
                self.cancel_many(oo, *limit, *side, None)?;
            }
            Op::Prune { oo, limit } => {
                if self.mk.cm_admin.is_none() {
                    return Err(Fail("no closing admin"));
                }
                if !self.expired() {
                    return Err(Fail("market not expired"));
                }
                self.cancel_many(oo, *limit, None, None)?;
            }
            Op::Consume { limit, given, rem } => {
                let mut limit = *limit;
                let mut want: Vec<u16> = vec![];
                if let Some(g) = given {
                    if g.iter().any(|s| *s >= layout::MAX_EVENTS as u64) {
                        return Err(Fail("slot out of range"));
                    }
                    limit = g.len() as u64;
                    for s in g {
                        if self.e.s.heap.events.iter().any(|(n, _)| *n as u64 == *s) && !want.contains(&(*s as u16)) {
                            want.push(*s as u16);
                        }
                    }
                }
                for (n, _) in &self.e.s.heap.events {
                    if !want.contains(n) {
                        want.push(*n);
                    }
                }
                want.truncate(limit.min(8) as usize);
                for n in want {
                    let at = self.e.s.heap.events.iter().position(|(x, _)| *x == n).unwrap();
                    let ev = self.e.s.heap.events[at].1.clone();
                    if !rem.contains(&ev.account()) {
                        self.tag("event-skipped");
                        continue;
                    }
                    match &ev {
                        Event::Fill { .. } => {
                            self.tag("event-fill");
                            self.fill_maker(&ev)?
                        }
                        Event::Out { owner, slot, qty, .. } => {
                            self.tag("event-out");
                            self.cancel_on(owner, *slot, *qty)?
                        }
                        Event::Unknown(_) => return Err(Unsure("unknown event")),
                    }
                    self.e.s.heap.events.remove(at);
                }
            }
            Op::Deposit { oo, payer, base_acc, quote_acc, base, quote, refill } => {
                let o = self.oo(oo)?.clone();
                let (mut b, mut q) = (*base, *quote);
                if *refill {
                    b = b.saturating_sub(o.base_free);
                    q = q.saturating_sub(o.quote_free);
                    if b > 0 && b < *base || q > 0 && q < *quote {
                        self.tag("refill-part");
                    }
                }
                if self.expired() {
                    self.tag("market-expired");
                    return Err(Fail("market expired"));
                }
                self.pay(*base_acc, self.mk.base_vault, payer, b as i128)?;
                self.pay(*quote_acc, self.mk.quote_vault, payer, q as i128)?;
                let o = self.oo(oo)?;
                addu(&mut o.base_free, b as i128)?;
                addu(&mut o.quote_free, q as i128)?;
                addu(&mut self.e.s.m.base_total, b as i128)?;
                addu(&mut self.e.s.m.quote_total, q as i128)?;
                if b > 0 || q > 0 {
                    self.tag("deposited");
                    self.e.logs.push(Log::new("DepositLog").k(oo).k(payer).u(b).u(q).done());
                }
            }
            Op::Settle { oo, signer, payer, base, quote, referrer, expired } => {
                let o = self.oo(oo)?.clone();
                let owners = [token_owner(self.w, base), token_owner(self.w, quote)];
                if *expired {
                    if self.mk.cm_admin.is_none() {
                        return Err(Fail("no closing admin"));
                    }
                    if owners.iter().any(|x| *x != o.owner) {
                        return Err(Fail("receiver is not the owner"));
                    }
                    if !self.expired() {
                        return Err(Fail("market not expired"));
                    }
                } else {
                    self.may_act(oo, signer)?;
                    if o.delegate == Some(*signer) {
                        self.tag("by-delegate");
                        if owners.iter().any(|x| *x != o.owner) {
                            return Err(Fail("receiver is not the owner"));
                        }
                    }
                }
                self.settle(oo, *payer, *base, *quote, *referrer)?;
            }
            Op::Sweep { receiver } => {
                let amount = self.e.s.m.fees_available;
                self.e.s.m.fees_available = 0;
                addu(&mut self.e.s.m.quote_total, -(amount as i128))?;
                if amount > 0 {
                    self.tag("swept");
                }
                let auth = self.mk.authority;
                self.pay(self.mk.quote_vault, *receiver, &auth, amount as i128)?;
                self.e.logs.push(Log::new("SweepFeesLog").k(&self.mk.key).u(amount).k(receiver).done());
            }
            Op::SetExpired => {
                if self.mk.cm_admin.is_none() {
                    return Err(Fail("no closing admin"));
                }
                if self.expired() {
                    return Err(Fail("already expired"));
                }
                self.e.s.m.time_expiry = -1;
                self.tag("forced-expiry");
            }
            Op::SetDelegate { oo, owner, delegate } => {
                let o = self.oo(oo)?;
                if o.owner != *owner {
                    return Err(Fail("not the owner"));
                }
                o.delegate = delegate.filter(|d| *d != Pubkey::default());
                let d = o.delegate;
                self.e.logs.push(Log::new("SetDelegateLog").k(oo).opt(d).done());
                self.tag("delegate-set");
            }
        }
        Ok(())
    }
}

fn push_opt(v: &mut Vec<u8>, id: Option<u128>) {
    match id {
        None => v.push(0),
        Some(i) => {
            v.push(1);
            v.extend_from_slice(&i.to_le_bytes());
        }
    }
}
