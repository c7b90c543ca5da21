//! Altered instruction bytes, account lists and account contents. Whatever comes of it: no memory
//! outside the accounts is touched, nobody who did not sign loses anything, the books stay sound.

use crate::auth::Aux;
use crate::hist::*;
use crate::layout;
use crate::report::Case;
use crate::rng::{hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::BTreeSet;

const NAMES: [&str; 29] = [
    "create_market",
    "close_market",
    "create_open_orders_indexer",
    "close_open_orders_indexer",
    "create_open_orders_account",
    "close_open_orders_account",
    "place_order",
    "edit_order",
    "edit_order_pegged",
    "place_orders",
    "cancel_all_and_place_orders",
    "place_order_pegged",
    "place_take_order",
    "consume_events",
    "consume_given_events",
    "cancel_order",
    "cancel_order_by_client_order_id",
    "cancel_all_orders",
    "deposit",
    "refill",
    "settle_funds",
    "settle_funds_expired",
    "sweep_fees",
    "set_delegate",
    "set_market_expired",
    "prune_orders",
    "stub_oracle_create",
    "stub_oracle_close",
    "stub_oracle_set",
];

fn name_of(data: &[u8]) -> &'static str {
    NAMES.iter().find(|n| data.get(..8) == Some(&disc("global", n))).copied().unwrap_or("unknown")
}

fn extreme(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => i64::MAX as u64,
        3 => i64::MIN as u64,
        4 => 1 << r.below(64),
        5 => (i64::MAX as u64) / (1 + r.below(1000)),
        6 => u64::MAX - r.below(1000),
        _ => r.u64(),
    }
}

fn alter_data(r: &mut Rng, d: &mut Vec<u8>) -> &'static str {
    match r.below(9) {
        0 => {
            d.truncate(r.idx(d.len() + 1));
            "cut data"
        }
        1 => {
            for _ in 0..1 + r.idx(40) {
                d.push(r.u64() as u8);
            }
            "more data"
        }
        2 if !d.is_empty() => {
            let i = r.idx(d.len());
            d[i] ^= 1 << r.below(8);
            "flipped bit"
        }
        3 | 4 if d.len() >= 16 => {
            let i = 8 + r.idx(d.len() - 15);
            d[i..i + 8].copy_from_slice(&extreme(r).to_le_bytes());
            "extreme number"
        }
        5 if d.len() >= 8 => {
            d[..8].copy_from_slice(&disc("global", NAMES[r.idx(NAMES.len())]));
            "another instruction"
        }
        6 if d.len() >= 8 => {
            let n = r.idx(80);
            d.truncate(8);
            for _ in 0..n {
                let small = r.chance(1, 2);
                d.push(if small { r.below(3) as u8 } else { r.u64() as u8 });
            }
            "random arguments"
        }
        7 => {
            d.clear();
            if r.chance(1, 3) {
                d.extend_from_slice(&0x0a69e9a778bcf440u64.to_le_bytes());
            }
            for _ in 0..r.idx(60) {
                d.push(r.u64() as u8);
            }
            "random data"
        }
        _ => {
            if d.len() > 8 {
                let i = 8 + r.idx(d.len() - 8);
                d[i] = r.u64() as u8;
            }
            "random byte"
        }
    }
}

fn alter_accounts(r: &mut Rng, m: &mut Vec<Meta>, pool: &[Pubkey], can_sign: &BTreeSet<Pubkey>) -> &'static str {
    if m.is_empty() {
        return "no accounts";
    }
    let i = r.idx(m.len());
    match r.below(11) {
        0 => {
            m.remove(i);
            "account left out"
        }
        1 => {
            let k = *r.pick(pool);
            m.insert(i, Meta { key: k, signer: can_sign.contains(&k), writable: r.chance(1, 2) });
            "account inserted"
        }
        2 => {
            let j = r.idx(m.len());
            let k = m[j].key;
            m[i].key = k;
            m[i].signer &= can_sign.contains(&k);
            "account used twice"
        }
        3 => {
            let j = r.idx(m.len());
            let (a, b) = (m[i].key, m[j].key);
            m[i].key = b;
            m[j].key = a;
            for x in [i, j] {
                m[x].signer &= can_sign.contains(&m[x].key);
            }
            "accounts swapped"
        }
        4 | 5 | 6 => {
            let k = *r.pick(pool);
            m[i].key = k;
            m[i].signer &= can_sign.contains(&k);
            "account replaced"
        }
        7 => {
            let k = m[i].key;
            for x in m.iter_mut().filter(|x| x.key == k) {
                x.writable = false;
            }
            "account read-only"
        }
        8 => {
            m[i].writable = true;
            m[i].signer |= can_sign.contains(&m[i].key);
            "account writable"
        }
        9 => {
            let k = m[i].key;
            for x in m.iter_mut().filter(|x| x.key == k) {
                x.signer = false;
            }
            "signature left out"
        }
        _ => {
            m.truncate(i);
            "accounts cut"
        }
    }
}

/// Contents no history leads to; cycles are left out because only the compute limit ends those.
fn corrupt(r: &mut Rng, a: &mut Account) -> &'static str {
    let n = a.data.len();
    if n < 16 {
        return "small account";
    }
    let tag = a.data[..8].to_vec();
    let is = |s: &str| tag == disc("account", s);
    match r.below(6) {
        0 => {
            a.data.truncate(r.idx(n));
            return "truncated account";
        }
        1 => {
            let k = r.idx(64);
            for _ in 0..k {
                a.data.push(r.u64() as u8);
            }
            return "longer account";
        }
        2 => {
            let x = r.idx(8);
            a.data[x] ^= 1 << r.below(8);
            return "wrong tag";
        }
        _ => {}
    }
    let w16 = |d: &mut [u8], o: usize, v: u16| d[o..o + 2].copy_from_slice(&v.to_le_bytes());
    let w32 = |d: &mut [u8], o: usize, v: u32| d[o..o + 4].copy_from_slice(&v.to_le_bytes());
    if is("BookSide") && n == layout::SIDE_LEN {
        let nodes = n - 1024 * 88;
        let far = *r.pick(&[1024u32, 1025, 2048, u32::MAX, u32::MAX - 1, 1 << 31, 48_000_000]);
        let near = r.below(1100) as u32;
        match r.below(7) {
            0 => w32(&mut a.data, 8 + 8 * r.idx(2), far),
            1 => w32(&mut a.data, 12 + 8 * r.idx(2), if r.chance(1, 2) { far } else { near }),
            2 => {
                let i = nodes + 88 * r.idx(8);
                a.data[i] = if r.chance(1, 2) { r.below(6) as u8 } else { r.u64() as u8 };
            }
            // kind of side, number of handed out places, free places
            3 => a.data[nodes - 528] = r.u64() as u8,
            4 => w32(&mut a.data, nodes - 524, far),
            5 => {
                w32(&mut a.data, nodes - 520, near);
                w32(&mut a.data, nodes - 516, far);
            }
            _ => {
                // the first inner node's children
                for i in 0..64 {
                    let o = nodes + 88 * i;
                    if a.data[o] == 1 {
                        w32(&mut a.data, o + 24 + 4 * r.idx(2), far);
                        break;
                    }
                }
            }
        }
        return "damaged side";
    }
    if is("EventHeap") && n == layout::HEAP_LEN {
        let far = *r.pick(&[600u16, 601, 1000, 4096, u16::MAX, u16::MAX - 1, 32768]);
        match r.below(5) {
            0 => w16(&mut a.data, 8, far),
            1 => w16(&mut a.data, 10, far),
            2 => w16(&mut a.data, 12, if r.chance(1, 2) { far } else { r.below(600) as u16 }),
            3 => {
                let o = 24 + 152 * r.idx(8) + 2 * r.idx(2);
                w16(&mut a.data, o, far);
            }
            _ => {
                let o = 24 + 152 * r.idx(8) + 8 + r.idx(144);
                a.data[o] = r.u64() as u8;
            }
        }
        return "damaged queue";
    }
    for _ in 0..1 + r.idx(4) {
        let o = 8 + r.idx(n - 8);
        if r.chance(1, 2) && o + 8 <= n {
            let v = extreme(r);
            a.data[o..o + 8].copy_from_slice(&v.to_le_bytes());
        } else {
            a.data[o] = r.u64() as u8;
        }
    }
    "damaged account"
}

/// lifecycle instructions to start from
fn other_ix(r: &mut Rng, h: &Hist, aux: &Aux) -> Ix {
    let w = &h.w;
    let u = r.pick(&w.users).clone();
    match r.below(9) {
        0 => create_indexer_ix(w.payer, aux.stranger).ix,
        1 => close_indexer_ix(u.key, u.key).ix,
        2 => create_oo_ix(w.payer, u.key, None, u.counter + 1, w.mk.key, "more").ix,
        3 | 4 => close_oo_ix(u.key, *r.pick(&u.oos), u.key).ix,
        5 => w.mk.close_ix(w.payer).ix,
        6 => aux.other.close_ix(w.payer).ix,
        7 => {
            let mut x = create_market_ix(w.payer, &aux.other, &w.params).ix;
            x.metas.truncate(30);
            x
        }
        _ => {
            let o = w.mk.oracle_a.unwrap_or(aux.stub);
            let mut data = disc("global", "stub_oracle_set").to_vec();
            data.extend_from_slice(&1e9f64.to_le_bytes());
            Ix { metas: vec![Meta { key: aux.stranger, signer: true, writable: false }, Meta { key: o, signer: false, writable: true }], data }
        }
    }
}

fn owner_field(d: &[u8]) -> Pubkey {
    Pubkey::try_from(&d[32..64]).unwrap()
}

/// What the change of one account means for those who did not sign.
fn theft(w: &World, aux: &Aux, signed: &BTreeSet<Pubkey>, k: &Pubkey, old: &Account, new: Option<&Account>) -> Option<String> {
    let admin = |m: &Mk| m.cm_admin.map(|a| signed.contains(&a)).unwrap_or(false);
    let any_admin = admin(&w.mk) || admin(&aux.other);
    let lam = new.map(|a| a.lamports).unwrap_or(0);
    let data: &[u8] = new.map(|a| &a.data[..]).unwrap_or(&[]);
    if old.lamports == 0 && old.data.is_empty() {
        return None;
    }
    // anyone may be given lamports
    if data == &old.data[..] && lam >= old.lamports && new.map(|a| a.owner == old.owner).unwrap_or(false) {
        return None;
    }
    if old.owner == spl_token::ID && old.data.len() == 165 {
        let o = owner_field(&old.data);
        if o == w.mk.authority || o == aux.other.authority {
            return None;
        }
        if signed.contains(&o) {
            return None;
        }
        let amount = |d: &[u8]| d.get(64..72).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
        if data.len() != 165 || data[..64] != old.data[..64] || data[72..] != old.data[72..] || amount(data) < amount(&old.data) {
            return Some(format!("token account {k} of {o}, who did not sign, went from {} to {}", amount(&old.data), amount(data)));
        }
        return None;
    }
    if old.owner == system_program::ID {
        if lam < old.lamports && !signed.contains(k) {
            return Some(format!("{k} did not sign and lost {} lamports", old.lamports - lam));
        }
        return None;
    }
    if old.owner != openbook_v2::ID {
        return Some(format!("account {k} of another program changed"));
    }
    let tag = &old.data[..8];
    let is = |s: &str| tag == disc("account", s);
    if is("OpenOrdersAccount") {
        let o = layout::open_orders(&old.data);
        if signed.contains(&o.owner) {
            return None;
        }
        if data.len() != old.data.len() || lam < old.lamports {
            return Some(format!("open orders account {k} closed or drained without its owner"));
        }
        let n = layout::open_orders(data);
        if (o.owner, o.market, &o.name, o.delegate, o.account_num) != (n.owner, n.market, &n.name, n.delegate, n.account_num) {
            return Some(format!("identity of open orders account {k} changed without its owner"));
        }
        if o.delegate.map(|d| signed.contains(&d)).unwrap_or(false) || any_admin {
            return None;
        }
        if n.base_free < o.base_free || n.quote_free < o.quote_free {
            return Some(format!("open orders account {k} lost {}/{} to {}/{} though nobody entitled signed", o.base_free, o.quote_free, n.base_free, n.quote_free));
        }
        return None;
    }
    if is("OpenOrdersIndexer") {
        if !signed.iter().any(|s| indexer_address(s) == *k) {
            return Some(format!("index {k} changed without its owner"));
        }
        return None;
    }
    if is("Market") {
        if any_admin {
            return None;
        }
        if data.len() != old.data.len() || lam < old.lamports {
            return Some(format!("market {k} closed or drained without its admin"));
        }
        let (a, b) = (layout::market(&old.data), layout::market(data));
        let fixed = [8..464usize, 472..496, 576..672, 680..712];
        if fixed.into_iter().any(|x| data[x.clone()] != old.data[x]) {
            return Some(format!("parameters of market {k} changed"));
        }
        if b.fees_available < a.fees_available && !signed.contains(&a.collect_fee_admin) {
            return Some(format!("fees of market {k} taken without its admin"));
        }
        return None;
    }
    if is("BookSide") || is("EventHeap") {
        if !any_admin && (data.len() != old.data.len() || lam < old.lamports || data[..8] != old.data[..8]) {
            return Some(format!("account {k} closed or drained without the market's admin"));
        }
        return None;
    }
    if is("StubOracle") && !signed.contains(&Pubkey::try_from(&old.data[8..40]).unwrap()) {
        return Some(format!("stub oracle {k} changed without its owner"));
    }
    None
}

fn restore(w: &mut World, out: &Outcome) {
    for (k, a) in &out.changed {
        if a.lamports == 0 && a.data.is_empty() {
            w.bank.accounts.remove(k);
        } else {
            w.bank.accounts.insert(*k, a.clone());
        }
    }
}

/// find accounts created or closed by altered instructions
fn rescan(w: &mut World) {
    let found: Vec<(Pubkey, Pubkey, Pubkey)> = w
        .bank
        .accounts
        .iter()
        .filter(|(_, a)| a.owner == openbook_v2::ID && a.data.len() == layout::OO_LEN && a.data[..8] == disc("account", "OpenOrdersAccount"))
        .map(|(k, a)| {
            let o = layout::open_orders(&a.data);
            (*k, o.owner, o.market)
        })
        .collect();
    for u in w.users.iter_mut() {
        u.oos.clear();
    }
    for (k, o, m) in found {
        if m == w.mk.key {
            match w.users.iter_mut().find(|u| u.key == o) {
                Some(u) => u.oos.push(k),
                None => w.users[0].oos.push(k),
            }
        }
    }
    for u in w.users.iter_mut() {
        u.oos.sort();
    }
}

pub fn hostile(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 25;
    p.wind_down = false;
    p.w[15] = 1;
    p.w[16] = 2;
    if c.seed % 3 == 0 {
        p.expires = Some(60);
        p.admins = true;
    }
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    h.w.bank.guard_gaps = true;
    let aux = match Aux::new(c, &mut h.w) {
        Some(a) => a,
        None => return,
    };
    if h.run(c).is_none() {
        return;
    }
    let mut r = Rng::new(mix(c.seed ^ 0x57ea));
    let tries = if c.thorough { 300 } else { 120 };
    for n in 0..tries {
        c.step = 1000 + n;
        let s = match h.w.snap() {
            Ok(s) => s,
            Err((what, e)) => {
                c.violate("decode", format!("{what}: {e}"));
                return;
            }
        };
        let mut ix = if r.chance(1, 6) && h.w.users.iter().all(|u| !u.oos.is_empty()) {
            other_ix(&mut r, &h, &aux)
        } else if h.w.users.iter().all(|u| !u.oos.is_empty()) {
            match h.gen(&s) {
                Some(op) => h.w.mk.build(&op).ix,
                None => {
                    continue;
                }
            }
        } else {
            break;
        };
        let mut can_sign: BTreeSet<Pubkey> = ix.metas.iter().filter(|m| m.signer).map(|m| m.key).collect();
        can_sign.insert(aux.stranger);
        let mut pool: Vec<Pubkey> = h.w.bank.accounts.keys().copied().collect();
        pool.sort();
        pool.extend([openbook_v2::ID, system_program::ID, spl_token::ID, Pubkey::new_from_array([7; 32])]);
        let mut how = vec![];
        let mut over: Vec<(Pubkey, Account)> = vec![];
        let damaged = r.chance(1, 4);
        if damaged {
            for _ in 0..1 + r.idx(2) {
                let k = r.pick(&ix.metas).key;
                if over.iter().any(|x| x.0 == k) {
                    continue;
                }
                if let Some(a) = h.w.bank.get(&k) {
                    if a.owner == openbook_v2::ID || (a.owner == spl_token::ID && r.chance(1, 4)) {
                        let mut b = a.clone();
                        how.push(corrupt(&mut r, &mut b));
                        over.push((k, b));
                    }
                }
            }
        }
        let alters = if damaged { r.below(2) } else { 1 + r.below(3) };
        for _ in 0..alters {
            how.push(if r.chance(1, 3) { alter_data(&mut r, &mut ix.data) } else { alter_accounts(&mut r, &mut ix.metas, &pool, &can_sign) });
        }
        let mut originals = vec![];
        for (k, a) in over {
            if let Some(x) = h.w.bank.accounts.insert(k, a) {
                originals.push((k, x));
            }
        }
        let lamports = h.w.bank.total_lamports();
        let out = h.w.bank.exec(&ix);
        let name = name_of(&ix.data);
        // calls that the runtime would not let through: refused like any other failure
        let out = match &out.result {
            Err(ExecErr::Runtime(e)) if e == "invalid signer seeds" || e == "call names an unknown account" => Outcome {
                result: Err(ExecErr::Program(solana_program::program_error::ProgramError::InvalidArgument)),
                ..out
            },
            _ => out,
        };
        c.eval();
        c.trace(|| format!("{name} with {how:?}: {}", match &out.result { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}").chars().take(100).collect() }));
        for x in &how {
            c.count(&format!("altered: {x}"));
        }
        let outcome = match &out.result {
            Ok(()) => "succeeded",
            Err(ExecErr::Panic(_)) => "panicked",
            Err(ExecErr::Program(_)) => "refused",
            Err(ExecErr::Runtime(_)) => "runtime",
        };
        c.count(&format!("altered instruction {outcome}"));
        c.nontrivial(mix(hash_str(&format!("{name}{how:?}{:?}", out.code())) ^ hash_str(outcome)));
        if let Err(ExecErr::Runtime(e)) = &out.result {
            c.violate("runtime", format!("{name} with {how:?}: {e}"));
            return;
        }
        if out.ok() {
            c.count(&format!("altered {name} succeeded"));
            if h.w.bank.total_lamports() != lamports {
                c.violate("lamports", format!("{name} with {how:?}: total lamports changed"));
                return;
            }
        }
        if !originals.is_empty() {
            c.count(&format!("damaged accounts, {outcome}"));
            restore(&mut h.w, &out);
            for (k, a) in originals {
                h.w.bank.accounts.insert(k, a);
            }
            continue;
        }
        if !out.ok() {
            continue;
        }
        let signed: BTreeSet<Pubkey> = ix.metas.iter().filter(|m| m.signer).map(|m| m.key).collect();
        for (k, old) in &out.changed {
            c.eval();
            if let Some(t) = theft(&h.w, &aux, &signed, k, old, h.w.bank.get(k)) {
                c.violate("theft", format!("{name} with {how:?}: {t}"));
                return;
            }
        }
        let whole = [h.w.mk.key, h.w.mk.bids, h.w.mk.asks, h.w.mk.heap, aux.other.key].iter().all(|k| h.w.bank.get(k).is_some());
        if !whole {
            c.count("market closed by its admin");
            restore(&mut h.w, &out);
            continue;
        }
        rescan(&mut h.w);
        let post = match h.w.snap() {
            Ok(s) => s,
            Err((what, e)) => {
                c.violate("decode", format!("after {name} with {how:?}: {what}: {e}"));
                return;
            }
        };
        // who pays a vault directly gets nothing for it
        let vaults = [(h.w.mk.base_vault, post.m.base_total), (h.w.mk.quote_vault, post.m.quote_total)];
        for (i, (k, total)) in vaults.iter().enumerate() {
            let have = h.w.bank.token_amount(k);
            if have > total.saturating_add(h.donated[i]) {
                h.donated[i] = have - total;
                c.count("vault paid without credit");
            }
        }
        let om = layout::market(h.w.bank.data(&aux.other.key));
        for (k, total) in [(aux.other.base_vault, om.base_total), (aux.other.quote_vault, om.quote_total)] {
            if h.w.bank.token_amount(&k) < total {
                c.violate("solvency", format!("{name} with {how:?}: the other market is short of funds"));
                return;
            }
        }
        let mut v = vec![];
        invariants(&mut v, &post, &h.w.mk, &h.donated);
        if let Some(x) = v.first() {
            c.violate("unsound", format!("{name} with {how:?}: {}: {}", x.facet, x.text));
            return;
        }
        if r.chance(1, 2) {
            restore(&mut h.w, &out);
            rescan(&mut h.w);
            let s = match h.w.snap() {
                Ok(s) => s,
                Err(_) => return,
            };
            for (i, (k, total)) in [(h.w.mk.base_vault, s.m.base_total), (h.w.mk.quote_vault, s.m.quote_total)].iter().enumerate() {
                h.donated[i] = h.w.bank.token_amount(k) - total;
            }
        }
    }
}
