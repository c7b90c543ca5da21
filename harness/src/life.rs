//! Markets, indexes, accounts and stub oracles from creation to closing.

use crate::auth::{attempt, Mutant};
use crate::hist::*;
use crate::layout;
use crate::report::Case;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use anchor_lang::InstructionData;
use openbook_v2::instruction as ixs;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_program;
use std::collections::BTreeMap;

fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}

fn lam(bank: &Bank) -> BTreeMap<Pubkey, u64> {
    bank.accounts.iter().map(|(k, a)| (*k, a.lamports)).filter(|x| x.1 > 0).collect()
}

/// expected lamports after adding the given differences
fn lam_plus(mut m: BTreeMap<Pubkey, u64>, d: &[(Pubkey, i128)]) -> BTreeMap<Pubkey, u64> {
    for (k, x) in d {
        let v = m.entry(*k).or_default();
        *v = (*v as i128 + x) as u64;
    }
    m.retain(|_, v| *v > 0);
    m
}

fn gone(bank: &Bank, k: &Pubkey) -> bool {
    match bank.get(k) {
        None => true,
        Some(a) => a.lamports == 0 || (a.data.is_empty() && a.owner == system_program::ID),
    }
}

/// one altered instruction for every signature and several for every account
fn simple_mutants(kind: &str, b: &Built, stranger: Pubkey, bank: &Bank, swaps: &[(usize, &str, Pubkey)]) -> Vec<Mutant> {
    let mut v = vec![];
    for (i, m) in b.ix.metas.iter().enumerate() {
        if m.signer {
            let mut ix = b.ix.clone();
            for x in ix.metas.iter_mut().filter(|x| x.key == m.key) {
                x.signer = false;
            }
            v.push(Mutant {
                name: format!("{kind}/{:?}/unsigned", b.roles[i]),
                ix,
                over: vec![],
            });
        }
        // state under control of another program
        if matches!(b.roles[i], Role::OpenOrders | Role::Market | Role::Bids | Role::Asks | Role::Heap | Role::Other) {
            if let Some(a) = bank.get(&m.key).filter(|a| a.owner == openbook_v2::ID) {
                let mut a = a.clone();
                a.owner = stranger;
                v.push(Mutant {
                    name: format!("{kind}/{:?}/foreign program", b.roles[i]),
                    ix: b.ix.clone(),
                    over: vec![(m.key, a)],
                });
            }
        }
    }
    for (i, n, k) in swaps {
        if b.ix.metas[*i].key == *k {
            continue;
        }
        let mut ix = b.ix.clone();
        ix.metas[*i].key = *k;
        v.push(Mutant {
            name: format!("{kind}/{:?}/{n}", b.roles[*i]),
            ix,
            over: vec![],
        });
    }
    v
}

struct Own {
    key: Pubkey,
    /// counter and listed accounts while the index exists
    index: Option<(u32, Vec<Pubkey>)>,
    counters_seen: u32,
}

fn expected_oo(owner: &Pubkey, market: &Pubkey, name: &str, delegate: Option<Pubkey>, num: u32) -> Vec<u8> {
    let mut d = vec![0u8; layout::OO_LEN];
    d[..8].copy_from_slice(&disc("account", "OpenOrdersAccount"));
    d[8..40].copy_from_slice(owner.as_ref());
    d[40..72].copy_from_slice(market.as_ref());
    d[72..72 + name.len()].copy_from_slice(name.as_bytes());
    d[104..136].copy_from_slice(delegate.unwrap_or_default().as_ref());
    d[136..140].copy_from_slice(&num.to_le_bytes());
    d[140] = Pubkey::find_program_address(&[b"OpenOrders", owner.as_ref(), &num.to_le_bytes()], &openbook_v2::ID).1;
    d[141] = 1;
    for i in 0..layout::MAX_OO {
        d[304 + 40 * i + 32] = 1;
    }
    d
}

fn expected_index(owner: &Pubkey, counter: u32, list: &[Pubkey]) -> Vec<u8> {
    let mut d = disc("account", "OpenOrdersIndexer").to_vec();
    d.push(Pubkey::find_program_address(&[b"OpenOrdersIndexer", owner.as_ref()], &openbook_v2::ID).1);
    d.extend_from_slice(&counter.to_le_bytes());
    d.extend_from_slice(&(list.len() as u32).to_le_bytes());
    for k in list {
        d.extend_from_slice(k.as_ref());
    }
    d
}

fn rand_name(r: &mut Rng, max: usize) -> String {
    let n = match r.below(16) {
        0 => 0,
        1..=3 => max,
        4 => max + 1,
        5 => max + 1 + r.idx(20),
        _ => r.idx(max + 1),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = *r.pick(&['a', 'Z', '0', '-', 'é', ' ', '\u{1F600}', '\0']);
        s.push(if s.len() + c.len_utf8() <= n { c } else { 'x' });
    }
    s
}

/// Creating and closing indexes and accounts of several owners on two markets.
pub fn accounts(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let params = rand_params(&mut r);
    let mut w = match World::new(params.clone(), 1, 1 << 40, 1 << 40) {
        Ok(w) => w,
        Err(e) => {
            c.violate("setup", e);
            return;
        }
    };
    let (bm, qm) = (w.mk.base_mint, w.mk.quote_mint);
    let mut p2 = params.clone();
    p2.expiry = 0;
    let other = w.new_market_keys(bm, qm, &p2);
    if !w.bank.exec(&create_market_ix(w.payer, &other, &p2).ix).ok() {
        c.violate("setup", "creating the market failed".into());
        return;
    }
    let stranger = w.key();
    w.bank.fund(stranger, 10_000_000_000);
    let many = c.seed % 24 == 0;
    let mut owners: Vec<Own> = (0..if many { 1 } else { 3 })
        .map(|_| Own {
            key: w.key(),
            index: None,
            counters_seen: 0,
        })
        .collect();
    for o in &owners {
        w.bank.fund(o.key, 5_000_000_000);
    }
    let dests: Vec<Pubkey> = (0..2).map(|_| w.key()).collect();
    // accounts in existence: owner, expected bytes, free tokens put there
    let mut oos: BTreeMap<Pubkey, (usize, Vec<u8>)> = BTreeMap::new();
    let mut ever: std::collections::BTreeSet<Pubkey> = Default::default();
    let steps = if many { 300 } else { 60 };
    for step in 0..steps {
        c.step = step;
        let i = r.idx(owners.len());
        let okey = owners[i].key;
        let before = lam(&w.bank);
        let kind = if many && step < 262 {
            if step == 0 {
                0
            } else {
                2
            }
        } else {
            r.weighted(&[8, 5, 40, 30, 12, 10])
        };
        let dest = if r.chance(1, 4) { okey } else { *r.pick(&dests) };
        match kind {
            0 => {
                let payer = if r.chance(1, 2) { okey } else { w.payer };
                let b = create_indexer_ix(payer, okey);
                // lamports sent to the address beforehand do not prevent creation
                let gift = if r.chance(1, 6) && owners[i].index.is_none() { r.below(3_000_000) } else { 0 };
                let before = if gift > 0 {
                    w.bank.fund(indexer_address(&okey), gift);
                    lam(&w.bank)
                } else {
                    before
                };
                if owners[i].index.is_none() && c.property == "C17" {
                    let o2 = owners[(i + 1) % owners.len()].key;
                    for m in simple_mutants("create_indexer", &b, stranger, &w.bank, &[(1, "stranger", stranger), (2, "other owner's", indexer_address(&o2)), (3, "token program", spl_token::ID)]) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                c.trace(|| format!("create index of owner {i}: {:?}", o.result));
                let want = owners[i].index.is_none();
                if o.ok() != want {
                    c.violate("create-index", format!("creating an index while {}: {:?}", if want { "none exists" } else { "one exists" }, o.result));
                    return;
                }
                if want {
                    owners[i].index = Some((0, vec![]));
                    owners[i].counters_seen = 0;
                    let have = w.bank.lamports(&indexer_address(&okey));
                    let pay = rent(17).saturating_sub(gift);
                    let exp = lam_plus(before, &[(payer, -(pay as i128)), (indexer_address(&okey), pay as i128)]);
                    if lam(&w.bank) != exp {
                        c.violate("rent", format!("lamports after creating an index (which holds {have})"));
                    }
                    c.count("index created");
                }
            }
            1 => {
                let b = close_indexer_ix(okey, dest);
                let want = matches!(&owners[i].index, Some((_, l)) if l.is_empty());
                if want && c.property == "C17" {
                    let o2 = owners[(i + 1) % owners.len()].key;
                    for m in simple_mutants("close_indexer", &b, stranger, &w.bank, &[(0, "stranger", stranger), (0, "other trader", o2), (1, "other owner's", indexer_address(&o2)), (3, "system program", system_program::ID)]) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                c.trace(|| format!("close index of owner {i}: {:?}", o.result));
                if o.ok() != want {
                    c.violate("close-index", format!("closing an index with {:?}: {:?}", owners[i].index.as_ref().map(|x| x.1.len()), o.result));
                    return;
                }
                if want {
                    owners[i].index = None;
                    let ik = indexer_address(&okey);
                    let l = before.get(&ik).copied().unwrap_or(0) as i128;
                    let exp = lam_plus(before, &[(ik, -l), (dest, l)]);
                    if lam(&w.bank) != exp || !gone(&w.bank, &ik) {
                        c.violate("rent", "closing an index does not return its lamports".into());
                    }
                    c.count("index closed");
                } else if owners[i].index.is_some() {
                    c.count("refused: closing a used index");
                }
            }
            2 => {
                let delegate = match r.below(4) {
                    0 => Some(stranger),
                    1 => Some(owners[r.idx(owners.len())].key),
                    // the all-zero key means none
                    2 if r.chance(1, 3) => Some(Pubkey::default()),
                    _ => None,
                };
                let name = if many { "n".into() } else { rand_name(&mut r, 32) };
                let market = if r.chance(1, 4) { other.key } else { w.mk.key };
                let payer = if r.chance(1, 3) && !many { okey } else { w.payer };
                let next = owners[i].index.as_ref().map(|x| x.0 + 1).unwrap_or(1);
                let mut b = create_oo_ix(payer, okey, delegate, next, market, &name);
                let mut want = matches!(&owners[i].index, Some((_, l)) if l.len() < 256) && name.len() <= 32;
                let full = matches!(&owners[i].index, Some((_, l)) if l.len() >= 256);
                // sometimes ask for another number
                if want && !(many && step < 262) && r.chance(1, 8) {
                    let n = match r.below(4) {
                        0 => next - 1,
                        1 => next + 1,
                        2 => 0,
                        _ => r.u64() as u32,
                    };
                    if n != next {
                        b.ix.metas[4].key = oo_address(&okey, n);
                        want = false;
                        c.count("refused: account with another number");
                    }
                }
                let k = b.ix.metas[4].key;
                let gift = if want && r.chance(1, 8) && !oos.contains_key(&k) { r.below(20_000_000) } else { 0 };
                let before = if gift > 0 {
                    w.bank.fund(k, gift);
                    lam(&w.bank)
                } else {
                    before
                };
                // the payer may not afford it
                let ilen = owners[i].index.as_ref().map(|x| x.1.len()).unwrap_or(0);
                let cur = w.bank.lamports(&indexer_address(&okey));
                let grow = rent(17 + 32 * (ilen + 1)).saturating_sub(cur);
                let cost = rent(layout::OO_LEN).saturating_sub(gift) + grow;
                if want && w.bank.lamports(&payer) < cost {
                    want = false;
                }
                if want && c.property == "C17" && r.chance(1, 3) {
                    let o2 = owners[(i + 1) % owners.len()].key;
                    let mut sw = vec![
                        (1, "stranger", stranger),
                        (3, "stranger's index", indexer_address(&stranger)),
                        (4, "other address", oo_address(&stranger, next)),
                        (5, "bids", w.mk.bids),
                        (5, "missing", stranger),
                        (6, "token program", spl_token::ID),
                    ];
                    if o2 != okey {
                        sw.push((1, "other trader", o2));
                        sw.push((3, "other owner's index", indexer_address(&o2)));
                    }
                    for m in simple_mutants("create_account", &b, stranger, &w.bank, &sw) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                if !many || step > 255 {
                    c.trace(|| format!("create account {next} of owner {i}, name of {} bytes: {:?}", name.len(), o.result));
                }
                if o.ok() != want {
                    c.violate("create-account", format!("creating account {next} with {ilen} listed and a name of {} bytes, expected {}: {:?}", name.len(), want, o.result));
                    return;
                }
                if want {
                    let (ctr, list) = owners[i].index.as_mut().unwrap();
                    *ctr += 1;
                    list.push(k);
                    let d = expected_oo(&okey, &market, &name, delegate.filter(|d| *d != Pubkey::default()), next);
                    if w.bank.data(&k) != d.as_slice() {
                        c.violate("new-account", format!("a new account holds other data than asked: first difference at {:?}", w.bank.data(&k).iter().zip(&d).position(|(a, b)| a != b)));
                        return;
                    }
                    if !ever.insert(k) && ctr.to_owned() > owners[i].counters_seen {
                        // only an index created anew may lead to an address used before
                        c.count("address used again after a new index");
                    }
                    oos.insert(k, (i, d));
                    let ik = indexer_address(&okey);
                    let exp = lam_plus(before, &[(payer, -(cost as i128)), (k, (cost - grow) as i128), (ik, grow as i128)]);
                    if lam(&w.bank) != exp {
                        c.violate("rent", "lamports after creating an account".into());
                        return;
                    }
                    c.count("account created");
                    c.nontrivial(mix(hash_str(&name) ^ next as u64 ^ ((ilen as u64) << 40)));
                } else if full {
                    c.count("refused: 257th account");
                } else if name.len() > 32 {
                    c.count("refused: name too long");
                }
            }
            3 => {
                let k = match oos.iter().nth(r.idx(oos.len().max(1))) {
                    Some((k, _)) => *k,
                    None => continue,
                };
                let (oi, _) = oos[&k];
                let okey = owners[oi].key;
                let b = close_oo_ix(okey, k, dest);
                let d = w.bank.data(&k).to_vec();
                let p = layout::open_orders(&d);
                let empty = p.base_free == 0
                    && p.quote_free == 0
                    && p.bids_base_lots == 0
                    && p.asks_base_lots == 0
                    && p.bids_quote_lots == 0
                    && p.locked_maker_fees == 0
                    && p.referrer_rebates == 0
                    && p.penalty == 0;
                if empty && c.property == "C17" && r.chance(1, 2) {
                    let j = (oi + 1) % owners.len();
                    let o2 = owners[j].key;
                    let mut sw = vec![(0, "stranger", stranger), (1, "stranger's index", indexer_address(&stranger)), (2, "market", w.mk.key), (4, "token program", spl_token::ID)];
                    if o2 != okey {
                        sw.push((0, "other trader", o2));
                        sw.push((1, "other owner's index", indexer_address(&o2)));
                        if let Some((k2, _)) = oos.iter().find(|(_, x)| x.0 == j) {
                            sw.push((2, "other trader's", *k2));
                        }
                    }
                    if let Some(dl) = p.delegate.filter(|x| *x != okey) {
                        sw.push((0, "delegate", dl));
                    }
                    for m in simple_mutants("close_account", &b, stranger, &w.bank, &sw) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                c.trace(|| format!("close account {} of owner {oi}: {:?}", p.account_num, o.result));
                if o.ok() != empty {
                    c.violate("close-account", format!("closing an account that is {}: {:?}; {:?}", if empty { "empty" } else { "not empty" }, o.result, p));
                    return;
                }
                if empty {
                    let (_, list) = owners[oi].index.as_mut().unwrap();
                    let ik = indexer_address(&okey);
                    let at = list.iter().position(|x| *x == k).unwrap();
                    let n = list.len();
                    if at + 1 < n {
                        c.count("closed an account in the middle of the list");
                    }
                    list.remove(at);
                    oos.remove(&k);
                    let a = before.get(&k).copied().unwrap_or(0) as i128;
                    // the index gives back what it no longer needs
                    let give = before[&ik] as i128 - rent(17 + 32 * (n - 1)) as i128;
                    let exp = lam_plus(before, &[(k, -a), (dest, a + give), (ik, -give)]);
                    if lam(&w.bank) != exp {
                        c.violate("rent", "closing an account does not return its rent to the receiver".into());
                        return;
                    }
                    if !gone(&w.bank, &k) {
                        c.violate("close-account", "a closed account still exists".into());
                        return;
                    }
                    c.count("account closed");
                } else {
                    c.count("refused: closing an account that is not empty");
                    if p.base_free == 0 && p.quote_free == 0 {
                        c.count("refused: closing an account holding only orders or debts");
                    }
                }
            }
            4 => {
                // put something into an account, or take it out again, field by field
                let k = match oos.iter().nth(r.idx(oos.len().max(1))) {
                    Some((k, _)) => *k,
                    None => continue,
                };
                let off: usize = *r.pick(&[144, 152, 160, 168, 176, 184, 192, 232]);
                let a = w.bank.accounts.get_mut(&k).unwrap();
                let zero = a.data[off..off + 8] == [0; 8] && r.chance(2, 3);
                let v: u64 = if zero { *r.pick(&[1u64, 1, 255, 256, 1 << 32, 1 << 56]) } else { 0 };
                a.data[off..off + 8].copy_from_slice(&v.to_le_bytes());
                let d = a.data.clone();
                oos.get_mut(&k).unwrap().1 = d;
            }
            _ => {
                let k = match oos.iter().nth(r.idx(oos.len().max(1))) {
                    Some((k, _)) => *k,
                    None => continue,
                };
                let oi = oos[&k].0;
                let dl = match r.below(4) {
                    0 => None,
                    1 => Some(Pubkey::default()),
                    2 => Some(owners[r.idx(owners.len())].key),
                    _ => Some(stranger),
                };
                let b = w.mk.build(&Op::SetDelegate {
                    oo: k,
                    owner: owners[oi].key,
                    delegate: dl,
                });
                let o = w.bank.exec(&b.ix);
                c.eval();
                if !o.ok() {
                    c.violate("set-delegate", format!("the owner cannot set a delegate: {:?}", o.result));
                    return;
                }
                oos.get_mut(&k).unwrap().1[104..136].copy_from_slice(dl.unwrap_or_default().as_ref());
            }
        }
        // everything that exists is listed, and holds what it should
        for o in &owners {
            let ik = indexer_address(&o.key);
            match &o.index {
                Some((ctr, list)) => {
                    let d = expected_index(&o.key, *ctr, list);
                    if w.bank.data(&ik) != d.as_slice() {
                        c.violate("index", format!("the index lists other accounts than exist, or its counter is not {ctr} ({} listed)", list.len()));
                        return;
                    }
                }
                None => {
                    if !gone(&w.bank, &ik) {
                        c.violate("index", "an index exists that was closed or never created".into());
                        return;
                    }
                }
            }
        }
        for (k, (_, d)) in &oos {
            if w.bank.data(k) != d.as_slice() {
                c.violate("account-data", "an account changed its data without reason".into());
                return;
            }
        }
        if c.failed() {
            return;
        }
    }
    c.count_n("accounts alive at the end", oos.len() as u64);
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Stub,
    Pyth,
    Swb1,
    Swb2,
    Raydium,
    Unknown,
}

fn fixture(name: &str) -> Option<Vec<u8>> {
    std::fs::read(format!("/repo/programs/openbook-v2/resources/test/{name}.bin")).ok()
}

fn key(s: &str) -> Pubkey {
    s.parse().unwrap()
}

/// an account of the given kind as far as its type is concerned
fn oracle_account(r: &mut Rng, kind: Kind) -> Account {
    let (data, owner) = match kind {
        Kind::Stub => (stub_bytes(Pubkey::default(), Pubkey::default(), 1.0, 0, 0, 0.0), openbook_v2::ID),
        Kind::Pyth => {
            let mut d = vec![0u8; 3312];
            d[..4].copy_from_slice(&0xa1b2c3d4u32.to_le_bytes());
            (d, key("FsJ3A3u2vn5cTVofAjvy6y5kwABJAqYWpe4975bi2epH"))
        }
        Kind::Swb2 => {
            let mut d = vec![0u8; 3851];
            d[..8].copy_from_slice(&[217, 230, 65, 101, 201, 162, 27, 125]);
            (d, key("SW1TCH7qEPTdLsDHRgPuMQjbQxKdH2aBStViMFnt64f"))
        }
        Kind::Swb1 => {
            let mut d = vec![0u8; 1000];
            r.fill(&mut d[..8]);
            (d, key("7azgmy1pFXHikv36q1zZASvFq5vFa39TT9NweVugKKTU"))
        }
        Kind::Raydium => {
            let mut d = vec![0u8; 1544];
            r.fill(&mut d[..8]);
            (d, key("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK"))
        }
        Kind::Unknown => {
            let mut d = vec![0u8; 500];
            r.fill(&mut d[..8]);
            (d, Pubkey::new_from_array([77; 32]))
        }
    };
    Account {
        lamports: 1_000_000_000,
        data,
        owner,
        executable: false,
    }
}

/// Market creation with valid and invalid parameters.
pub fn markets(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let mut w = match World::new(rand_params(&mut r), 1, 1 << 30, 1 << 30) {
        Ok(w) => w,
        Err(e) => {
            c.violate("setup", e);
            return;
        }
    };
    for step in 0..8 {
        c.step = step;
        let mut p = rand_params(&mut r);
        p.name = rand_name(&mut r, 16);
        let mut bad: Option<&'static str> = if p.name.len() > 16 { Some("name too long") } else { None };
        let (bm, qm) = (w.key(), w.key());
        w.bank.add_mint(bm, p.base_decimals);
        w.bank.add_mint(qm, p.quote_decimals);
        p.conf_filter = *r.pick(&[0.0, 0.1, 1.0, -1.0, f32::MAX, 1e-9]);
        p.staleness = *r.pick(&[None, Some(0), Some(1), Some(u32::MAX), Some(1000)]);
        p.expiry = match r.below(6) {
            0 => w.bank.ts + 1,
            1 => w.bank.ts + r.range(1, 1 << 40),
            2 => i64::MAX,
            _ => 0,
        };
        let mut mk = w.new_market_keys(bm, qm, &p);
        let mut fb = |b: &'static str, on: bool| {
            if on && bad.is_none() {
                bad = Some(b)
            }
        };
        // fees at the edges
        if r.chance(1, 3) {
            p.taker_fee = *r.pick(&[0i64, 1, 999_999, 1_000_000, 1_000_001, -1, i64::MIN, i64::MAX, 500_000]);
            p.maker_fee = match r.below(8) {
                0 => p.taker_fee.wrapping_neg(),
                1 => p.taker_fee.wrapping_neg().wrapping_sub(1),
                2 => p.taker_fee.wrapping_neg().wrapping_add(1),
                3 => 1_000_000,
                4 => 1_000_001,
                5 => -1_000_000,
                6 => *r.pick(&[i64::MIN, i64::MAX, -1_000_001]),
                _ => 0,
            };
        }
        let fees_ok = p.taker_fee >= 0
            && p.taker_fee <= 1_000_000
            && (p.maker_fee as i128).abs() <= 1_000_000
            && (p.maker_fee >= 0 || -(p.maker_fee as i128) <= p.taker_fee as i128);
        fb("fees", !fees_ok);
        match r.below(12) {
            0 => {
                let x = *r.pick(&[0i64, -1, i64::MIN]);
                if r.chance(1, 2) {
                    p.qls = x
                } else {
                    p.bls = x
                }
                fb("lots", true);
            }
            1 => {
                p.expiry = *r.pick(&[w.bank.ts, w.bank.ts - 1, 1, -1, i64::MIN]);
                fb("expiry passed", true);
            }
            2 => {
                p.qls = i64::MAX;
                p.bls = *r.pick(&[1, i64::MAX]);
            }
            3 => {
                mk.quote_mint = mk.base_mint;
                mk.quote_vault = mk.base_vault;
                fb("one mint", true);
            }
            _ => {}
        }
        // oracles
        let kinds = [Kind::Stub, Kind::Pyth, Kind::Swb1, Kind::Swb2, Kind::Raydium, Kind::Unknown];
        mk.oracle_a = None;
        mk.oracle_b = None;
        let mut put = |w: &mut World, r: &mut Rng, k: Kind| -> Pubkey {
            let a = oracle_account(r, k);
            let key = w.key();
            w.bank.accounts.insert(key, a);
            key
        };
        match r.below(6) {
            0 => {}
            1 => {
                let k = *r.pick(&kinds);
                mk.oracle_a = Some(put(&mut w, &mut r, k));
                fb("oracle of unknown kind", k == Kind::Unknown);
            }
            2 => {
                let k = *r.pick(&kinds);
                mk.oracle_b = Some(put(&mut w, &mut r, k));
                fb("second oracle alone", true);
            }
            3 => {
                let k = *r.pick(&kinds);
                let a = put(&mut w, &mut r, k);
                mk.oracle_a = Some(a);
                mk.oracle_b = Some(a);
                fb("the same oracle twice", true);
            }
            n => {
                let (k, l) = if n == 4 { (*r.pick(&kinds), *r.pick(&kinds)) } else { let k = *r.pick(&kinds); (k, k) };
                mk.oracle_a = Some(put(&mut w, &mut r, k));
                mk.oracle_b = Some(put(&mut w, &mut r, l));
                fb("oracle of unknown kind", k == Kind::Unknown || l == Kind::Unknown);
                fb("oracles of two kinds", k != l);
                if bad.is_none() {
                    c.count(&format!("two oracles of kind {k:?}"));
                }
            }
        }
        let mut fb = |b: &'static str, on: bool| {
            if on && bad.is_none() {
                bad = Some(b)
            }
        };
        // accounts that are not fresh
        match r.below(24) {
            0 => {
                mk.asks = mk.bids;
                fb("one account for both sides", true);
            }
            1 => {
                let k = *r.pick(&[mk.bids, mk.asks, mk.heap]);
                w.bank.accounts.get_mut(&k).unwrap().data[r.idx(8)] = 1 + r.below(255) as u8;
                fb("account already initialised", true);
            }
            2 => {
                let k = *r.pick(&[mk.bids, mk.asks, mk.heap]);
                w.bank.accounts.get_mut(&k).unwrap().owner = Pubkey::new_from_array([5; 32]);
                fb("account of another program", true);
            }
            3 => {
                match r.below(3) {
                    0 => mk.bids = w.mk.bids,
                    1 => mk.asks = w.mk.asks,
                    _ => mk.heap = w.mk.heap,
                }
                fb("account of another market", true);
            }
            4 => {
                mk.key = w.mk.key;
                mk.authority = w.mk.authority;
                mk.base_vault = ata_address(&mk.authority, &mk.base_mint);
                mk.quote_vault = ata_address(&mk.authority, &mk.quote_mint);
                fb("market exists", true);
            }
            5 => {
                let k = *r.pick(&[mk.bids, mk.asks, mk.heap]);
                let a = w.bank.accounts.get_mut(&k).unwrap();
                let n = a.data.len();
                a.data.truncate(n - 1 - r.idx(100));
                fb("account too small", true);
            }
            6 => {
                mk.authority = authority_address(&mk.bids);
                mk.base_vault = ata_address(&mk.authority, &mk.base_mint);
                mk.quote_vault = ata_address(&mk.authority, &mk.quote_mint);
                fb("foreign authority", true);
            }
            _ => {}
        }
        // an admin of zero is no admin
        for k in [&mut mk.oo_admin, &mut mk.ce_admin, &mut mk.cm_admin] {
            if r.chance(1, 12) {
                *k = Some(Pubkey::default());
            }
        }
        let before = lam(&w.bank);
        let b = create_market_ix(w.payer, &mk, &p);
        if bad.is_none() && c.property == "C17" {
            let stranger = w.key();
            for m in simple_mutants("create_market", &b, stranger, &w.bank, &[(6, "base vault exchanged", mk.quote_vault), (8, "base mint exchanged", w.mk.base_mint), (10, "token program", spl_token::ID), (11, "system program", system_program::ID), (12, "token program", spl_token::ID)]) {
                if m.name.contains("Other/foreign program") {
                    continue;
                }
                if !attempt(c, &mut w, &m) {
                    return;
                }
            }
        }
        let o = w.bank.exec(&b.ix);
        c.eval();
        c.trace(|| format!("create market, expected {:?}: {:?} ({:?})", bad, o.result, p));
        if o.ok() != bad.is_none() {
            c.violate("create-market", format!("creating a market ({}) gave {:?}; {:?}", bad.unwrap_or("valid"), o.result, p));
            return;
        }
        match bad {
            Some(b) => {
                c.count(&format!("refused: {b}"));
                if lam(&w.bank) != before {
                    c.violate("create-market", "a refused creation moved lamports".into());
                }
                continue;
            }
            None => c.count("market created"),
        }
        let nz = |k: Option<Pubkey>| k.filter(|k| *k != Pubkey::default());
        let m = layout::market(w.bank.data(&mk.key));
        let mut name = [0u8; 16];
        name[..p.name.len()].copy_from_slice(p.name.as_bytes());
        let want = layout::Market {
            bump: Pubkey::find_program_address(&[b"Market", mk.key.as_ref()], &openbook_v2::ID).1,
            base_decimals: p.base_decimals,
            quote_decimals: p.quote_decimals,
            authority: mk.authority,
            time_expiry: p.expiry,
            collect_fee_admin: mk.collect_admin,
            open_orders_admin: nz(mk.oo_admin),
            consume_events_admin: nz(mk.ce_admin),
            close_market_admin: nz(mk.cm_admin),
            name,
            bids: mk.bids,
            asks: mk.asks,
            event_heap: mk.heap,
            oracle_a: mk.oracle_a,
            oracle_b: mk.oracle_b,
            conf_filter: p.conf_filter as f64,
            max_staleness: p.staleness.map(|x| x as i64).unwrap_or(-1),
            qls: p.qls,
            bls: p.bls,
            seq_num: 0,
            registration_time: w.bank.ts,
            maker_fee: p.maker_fee,
            taker_fee: p.taker_fee,
            fees_accrued: 0,
            fees_to_referrers: 0,
            referrer_rebates_accrued: 0,
            fees_available: 0,
            maker_volume: 0,
            taker_volume_wo_oo: 0,
            base_mint: bm,
            quote_mint: qm,
            base_vault: mk.base_vault,
            base_total: 0,
            quote_vault: mk.quote_vault,
            quote_total: 0,
        };
        if m != want {
            c.violate("market-data", format!("a new market records {m:?} instead of {want:?}"));
            return;
        }
        c.nontrivial(hash_bytes(7, w.bank.data(&mk.key)[480..496].as_ref()) ^ hash_str(&p.name));
        // everything else of the account is zero
        let d = w.bank.data(&mk.key);
        if d.len() != layout::MARKET_LEN || d[376..448].iter().any(|x| *x != 0) || d[720..].iter().any(|x| *x != 0) || d[11..16].iter().any(|x| *x != 0) {
            c.violate("market-data", "reserved bytes of a new market are not zero".into());
            return;
        }
        for (k, n) in [(mk.bids, "bids"), (mk.asks, "asks")] {
            match layout::side(w.bank.data(&k), true) {
                Ok(s) if s.len() == 0 && !s.full() => {}
                x => {
                    c.violate("book", format!("new {n} are not empty: {:?}", x.err()));
                    return;
                }
            }
        }
        match layout::heap(w.bank.data(&mk.heap), true) {
            Ok(h) if h.events.is_empty() && h.seq == 0 => {}
            x => {
                c.violate("queue", format!("the new event queue is not empty: {:?}", x.err()));
                return;
            }
        }
        for (v, mint) in [(mk.base_vault, bm), (mk.quote_vault, qm)] {
            let d = w.bank.data(&v);
            if d.len() != 165 || layout::key_(d, 0) != mint || layout::key_(d, 32) != mk.authority || layout::u64_(d, 64) != 0 {
                c.violate("vault", "a new vault is not an empty token account of the market's authority".into());
                return;
            }
        }
        let cost = rent(layout::MARKET_LEN) + 2 * rent(165);
        let exp = lam_plus(
            before,
            &[
                (w.payer, -(cost as i128)),
                (mk.key, rent(layout::MARKET_LEN) as i128),
                (mk.base_vault, rent(165) as i128),
                (mk.quote_vault, rent(165) as i128),
            ],
        );
        if lam(&w.bank) != exp {
            c.violate("rent", "lamports after creating a market".into());
            return;
        }
        // the announcement of the market
        let ev: Vec<&Vec<u8>> = o
            .obs
            .calls
            .iter()
            .filter_map(|x| match x {
                Call::SelfEvent(d) => Some(d),
                _ => None,
            })
            .collect();
        let mut e = 0x1d9acb512ea545e4u64.to_le_bytes().to_vec();
        e.extend_from_slice(&disc("event", "MarketMetaDataLog"));
        e.extend_from_slice(mk.key.as_ref());
        e.extend_from_slice(&(p.name.len() as u32).to_le_bytes());
        e.extend_from_slice(p.name.as_bytes());
        e.extend_from_slice(bm.as_ref());
        e.extend_from_slice(qm.as_ref());
        e.push(p.base_decimals);
        e.push(p.quote_decimals);
        e.extend_from_slice(&p.bls.to_le_bytes());
        e.extend_from_slice(&p.qls.to_le_bytes());
        if ev.len() != 1 || ev[0].get(8..) != Some(&e[8..]) {
            c.violate("announcement", format!("the market was announced as {:?} instead of {:?}", ev, e));
            return;
        }
        let _ = w.bank.ts;
        w.bank.ts += r.range(0, 1000);
    }
}

/// Closing markets at every stage of their life.
pub fn closing(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 45;
    p.w = [20, 3, 3, 3, 4, 16, 8, 6, 24, 8, 3, 1, 2, 0, 0, 2, 5];
    p.spread = 3;
    p.users = 2;
    p.oos = 2;
    p.admins = c.seed % 2 == 0;
    if c.seed % 3 == 0 {
        p.expires = Some(400);
    }
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let stranger = h.w.key();
    h.w.bank.fund(stranger, 1_000_000_000);
    let (bm, qm) = (h.w.mk.base_mint, h.w.mk.quote_mint);
    let mut p2 = h.w.params.clone();
    p2.expiry = 0;
    p2.admins.2 = true;
    let other = h.w.new_market_keys(bm, qm, &p2);
    if !h.w.bank.exec(&create_market_ix(h.w.payer, &other, &p2).ix).ok() {
        c.violate("setup", "creating the market failed".into());
        return;
    }
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    let quiet = h.r.chance(1, 4);
    let mut wound = false;
    // states of the book and the queue that were not empty
    let mut residue: BTreeMap<&'static str, (Pubkey, Vec<u8>)> = BTreeMap::new();
    for step in 0..h.p.steps * 2 {
        c.step = step;
        if !quiet || step > 30 {
            if let Some(op) = h.gen(&s) {
                if !(wound && op.kind() != "set_expired" && h.r.chance(2, 3)) {
                    s = match h.step(c, &op, &s) {
                        Some(s) => s,
                        None => return,
                    };
                }
            } else {
                s = match h.start(c) {
                    Some(s) => s,
                    None => return,
                };
            }
        }
        if !wound && h.r.chance(1, 25) {
            s = match h.wind_down(c, s) {
                Some(s) => s,
                None => return,
            };
            wound = true;
        }
        if wound && s.m.time_expiry == 0 && h.r.chance(1, 6) && h.w.mk.cm_admin.is_some() {
            s = match h.step(c, &Op::SetExpired, &s) {
                Some(s) => s,
                None => return,
            };
        }
        for (x, k, names) in [(&s.bids, h.w.mk.bids, ["a fixed bid", "a pegged bid", "bids"]), (&s.asks, h.w.mk.asks, ["a fixed ask", "a pegged ask", "asks"])] {
            let name = match (x.trees[0].is_empty(), x.trees[1].is_empty()) {
                (false, true) => names[0],
                (true, false) => names[1],
                (false, false) => names[2],
                _ => continue,
            };
            residue.entry(name).or_insert_with(|| (k, h.w.bank.data(&k).to_vec()));
        }
        if !s.heap.events.is_empty() {
            let k = h.w.mk.heap;
            residue.entry("events").or_insert_with(|| (k, h.w.bank.data(&k).to_vec()));
        }
        // single residues that forbid closing
        let expired = s.m.time_expiry != 0 && s.m.time_expiry < h.w.bank.ts;
        let reason = if h.w.mk.cm_admin.is_none() {
            Some("no closing admin")
        } else if !expired {
            Some("not expired")
        } else if s.m.base_total + s.m.quote_total != 0 {
            Some("tokens owed")
        } else if s.m.fees_available != 0 {
            Some("fees not collected")
        } else if s.m.referrer_rebates_accrued != 0 {
            Some("rebates not paid")
        } else if s.bids.len() + s.asks.len() != 0 {
            Some("orders on the book")
        } else if !s.heap.events.is_empty() {
            Some("events queued")
        } else {
            None
        };
        let dest = if h.r.chance(1, 3) { h.w.payer } else { h.w.key() };
        let b = h.w.mk.close_ix(dest);
        if reason.is_none() {
            // one thing too many each time
            let mk = h.w.mk.clone();
            for (off, n) in [(672usize, "base owed"), (712, "quote owed"), (528, "rebates owed"), (536, "fees owed")] {
                let a = h.w.bank.accounts.get_mut(&mk.key).unwrap();
                let v: u64 = *h.r.pick(&[1, 1 << 8, 1 << 40, u64::MAX]);
                a.data[off..off + 8].copy_from_slice(&v.to_le_bytes());
                let ok = h.w.bank.exec(&b.ix).ok();
                if ok {
                    c.violate("closed-too-early", format!("a market with {n} ({v}) was closed"));
                    return;
                }
                h.w.bank.accounts.get_mut(&mk.key).unwrap().data[off..off + 8].copy_from_slice(&[0; 8]);
                c.eval();
                c.count(&format!("refused: {n}"));
            }
            for (n, (k, d)) in &residue {
                let keep = std::mem::replace(&mut h.w.bank.accounts.get_mut(k).unwrap().data, d.clone());
                if h.w.bank.exec(&b.ix).ok() {
                    c.violate("closed-too-early", format!("a market with {n} left was closed"));
                    return;
                }
                h.w.bank.accounts.get_mut(k).unwrap().data = keep;
                c.eval();
                c.count(&format!("refused: {n} left"));
            }
            // expiring right now is not yet expired
            let keep = h.w.bank.data(&mk.key)[48..56].to_vec();
            for t in [h.w.bank.ts, h.w.bank.ts + 1, 0] {
                h.w.bank.accounts.get_mut(&mk.key).unwrap().data[48..56].copy_from_slice(&t.to_le_bytes());
                if h.w.bank.exec(&b.ix).ok() {
                    c.violate("closed-too-early", format!("a market expiring at {t} was closed at {}", h.w.bank.ts));
                    return;
                }
                c.eval();
                c.count("refused: expiring at this second");
            }
            h.w.bank.accounts.get_mut(&mk.key).unwrap().data[48..56].copy_from_slice(&keep);
            if c.property == "C17" {
                let mut sw = vec![
                    (0, "stranger", stranger),
                    (0, "collector", mk.collect_admin),
                    (0, "other market's admin", other.cm_admin.unwrap_or_default()),
                    (1, "other market", other.key),
                    (2, "other market's", other.bids),
                    (3, "other market's", other.asks),
                    (4, "other market's", other.heap),
                    (2, "exchanged", mk.asks),
                    (3, "exchanged", mk.bids),
                    (6, "system program", system_program::ID),
                ];
                if let Some(k) = mk.oo_admin {
                    sw.push((0, "orders admin", k));
                }
                for m in simple_mutants("close_market", &b, stranger, &h.w.bank, &sw) {
                    if !attempt(c, &mut h.w, &m) {
                        return;
                    }
                }
            }
        }
        let before = lam(&h.w.bank);
        let o = h.w.bank.exec(&b.ix);
        c.eval();
        c.trace(|| format!("close market, {reason:?}: {:?}", o.result));
        if o.ok() != reason.is_none() {
            c.violate("close-market", format!("closing the market ({}): {:?}", reason.unwrap_or("expired and empty"), o.result));
            return;
        }
        match reason {
            Some(x) => {
                c.count(&format!("refused closing: {x}"));
                c.nontrivial(mix(hash_str(x) ^ ((s.bids.len() + s.asks.len()) as u64) << 8 ^ s.heap.events.len() as u64));
            }
            None => {
                let mk = &h.w.mk;
                let all: Vec<Pubkey> = vec![mk.key, mk.bids, mk.asks, mk.heap];
                let sum: i128 = all.iter().map(|k| before[k] as i128).sum();
                let mut dl: Vec<(Pubkey, i128)> = all.iter().map(|k| (*k, -(before[k] as i128))).collect();
                dl.push((dest, sum));
                if lam(&h.w.bank) != lam_plus(before, &dl) || all.iter().any(|k| !gone(&h.w.bank, k)) {
                    c.violate("close-market", "closing does not return all rent, or leaves accounts behind".into());
                    return;
                }
                c.count("market closed");
                // nothing works with a closed market
                let oo = h.w.users[0].oos[0];
                for op in [
                    Op::Settle {
                        oo,
                        signer: h.w.users[0].key,
                        payer: h.w.users[0].key,
                        base: h.w.users[0].base,
                        quote: h.w.users[0].quote,
                        referrer: None,
                        expired: false,
                    },
                    Op::SetExpired,
                    Op::Sweep { receiver: h.w.fee_receiver },
                ] {
                    let ix = h.w.mk.build(&op).ix;
                    if h.w.bank.exec(&ix).ok() {
                        c.violate("closed-market-used", format!("{} succeeded on a closed market", op.kind()));
                        return;
                    }
                    c.eval();
                }
                return;
            }
        }
    }
}

fn stub_key(owner: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"StubOracle", owner.as_ref(), mint.as_ref()], &openbook_v2::ID)
}

/// Stub oracles are made, set and closed by their owners only.
pub fn stubs(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let mut w = match World::new(rand_params(&mut r), 2, 1 << 30, 1 << 30) {
        Ok(w) => w,
        Err(e) => {
            c.violate("setup", e);
            return;
        }
    };
    let stranger = w.key();
    w.bank.fund(stranger, 1_000_000_000);
    let mut live: BTreeMap<Pubkey, Vec<u8>> = BTreeMap::new();
    let meta = |key, signer, writable| Meta { key, signer, writable };
    use Role::*;
    for step in 0..40 {
        c.step = step;
        let u = w.users[r.idx(2)].key;
        let mint = *r.pick(&[w.mk.base_mint, w.mk.quote_mint]);
        let (k, _) = stub_key(&u, &mint);
        let price = *r.pick(&[0.0, 1.5, -3.0, f64::MAX, 1e-30, f64::INFINITY, 123.456]);
        let before = lam(&w.bank);
        let exists = live.contains_key(&k);
        match r.below(3) {
            0 => {
                let b = Built {
                    ix: Ix {
                        metas: vec![meta(w.payer, true, true), meta(u, true, false), meta(k, false, true), meta(mint, false, false), meta(system_program::ID, false, false)],
                        data: ixs::StubOracleCreate { price }.data(),
                    },
                    roles: vec![Payer, Signer, Oracle, Other, SystemProgram],
                };
                if !exists && c.property == "C17" {
                    for m in simple_mutants("stub_create", &b, stranger, &w.bank, &[(1, "stranger", stranger), (3, "other mint", if mint == w.mk.base_mint { w.mk.quote_mint } else { w.mk.base_mint }), (2, "other address", stranger)]) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                c.trace(|| format!("create stub: {:?}", o.result));
                if o.ok() == exists {
                    c.violate("stub-create", format!("creating a stub oracle, exists: {exists}: {:?}", o.result));
                    return;
                }
                if !exists {
                    live.insert(k, stub_bytes(u, mint, price, w.bank.ts, w.bank.slot, 0.0));
                    let n = layout::STUB_LEN;
                    if lam(&w.bank) != lam_plus(before, &[(w.payer, -(rent(n) as i128)), (k, rent(n) as i128)]) {
                        c.violate("rent", "lamports after creating a stub oracle".into());
                        return;
                    }
                    c.count("stub created");
                }
            }
            1 => {
                let b = Built {
                    ix: Ix {
                        metas: vec![meta(u, true, false), meta(k, false, true)],
                        data: ixs::StubOracleSet { price }.data(),
                    },
                    roles: vec![Signer, Oracle],
                };
                if exists && c.property == "C17" {
                    let u2 = w.users.iter().find(|x| x.key != u).unwrap().key;
                    for m in simple_mutants("stub_set", &b, stranger, &w.bank, &[(0, "stranger", stranger), (0, "other trader", u2), (1, "market", w.mk.key)]) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                c.trace(|| format!("set stub: {:?}", o.result));
                if o.ok() != exists {
                    c.violate("stub-set", format!("setting a stub oracle, exists: {exists}: {:?}", o.result));
                    return;
                }
                if exists {
                    live.insert(k, stub_bytes(u, mint, price, w.bank.ts, w.bank.slot, 0.0));
                    c.count("stub set");
                    c.nontrivial(mix(price.to_bits() ^ w.bank.slot));
                }
            }
            _ => {
                let b = Built {
                    ix: Ix {
                        metas: vec![meta(u, true, false), meta(k, false, true), meta(stranger, false, true), meta(spl_token::ID, false, false)],
                        data: ixs::StubOracleClose {}.data(),
                    },
                    roles: vec![Signer, Oracle, Other, TokenProgram],
                };
                if exists && c.property == "C17" {
                    let u2 = w.users.iter().find(|x| x.key != u).unwrap().key;
                    for m in simple_mutants("stub_close", &b, w.payer, &w.bank, &[(0, "stranger", stranger), (0, "other trader", u2), (1, "market", w.mk.key), (3, "system program", system_program::ID)]) {
                        if !attempt(c, &mut w, &m) {
                            return;
                        }
                    }
                }
                let o = w.bank.exec(&b.ix);
                c.eval();
                c.trace(|| format!("close stub: {:?}", o.result));
                if o.ok() != exists {
                    c.violate("stub-close", format!("closing a stub oracle, exists: {exists}: {:?}", o.result));
                    return;
                }
                if exists {
                    live.remove(&k);
                    let l = before[&k] as i128;
                    if lam(&w.bank) != lam_plus(before, &[(k, -l), (stranger, l)]) || !gone(&w.bank, &k) {
                        c.violate("rent", "closing a stub oracle does not return its lamports".into());
                        return;
                    }
                    c.count("stub closed");
                }
            }
        }
        for (k, d) in &live {
            if w.bank.data(k) != d.as_slice() {
                c.violate("stub-data", "a stub oracle holds other data than its owner published".into());
                return;
            }
        }
        w.bank.ts += r.range(0, 100);
        w.bank.slot += r.below(100);
    }
    let _ = fixture;
}
