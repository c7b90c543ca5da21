//! Substituted accounts and missing signatures: legitimate instructions of random histories are
//! altered in one respect that takes away their legitimacy; every altered one must fail without effect.

use crate::hist::*;
use crate::layout::{self, Snap};
use crate::model::*;
use crate::report::Case;
use crate::rng::{hash_str, mix};
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

pub struct Aux {
    /// another market with the same tokens
    pub other: Mk,
    /// an account of each user on the other market
    pub other_oos: Vec<Pubkey>,
    pub stranger: Pubkey,
    /// tokens of the stranger
    pub base: Pubkey,
    pub quote: Pubkey,
    pub evil_program: Pubkey,
    pub stub: Pubkey,
}

pub struct Mutant {
    pub name: String,
    pub ix: Ix,
    /// accounts whose state is replaced while the instruction runs
    pub over: Vec<(Pubkey, Account)>,
}

impl Aux {
    pub fn new(c: &mut Case, w: &mut World) -> Option<Aux> {
        let mut p = w.params.clone();
        p.admins = (w.mk.oo_admin.is_some(), w.mk.ce_admin.is_some(), true);
        p.oracles = w.params.oracles;
        p.expiry = 0;
        let (bm, qm) = (w.mk.base_mint, w.mk.quote_mint);
        let other = w.new_market_keys(bm, qm, &p);
        let o = w.bank.exec(&create_market_ix(w.payer, &other, &p).ix);
        if !o.ok() {
            c.violate("setup", format!("creating the market failed: {:?}", o.result));
            return None;
        }
        let mut other_oos = vec![];
        for i in 0..w.users.len() {
            let u = w.users[i].clone();
            let b = create_oo_ix(w.payer, u.key, None, u.counter + 1, other.key, "other");
            if !w.bank.exec(&b.ix).ok() {
                c.violate("setup", "creating an account on a second market failed".into());
                return None;
            }
            w.users[i].counter += 1;
            other_oos.push(oo_address(&u.key, u.counter + 1));
        }
        let (stranger, base, quote, evil_program, stub) = (w.key(), w.key(), w.key(), w.key(), w.key());
        w.bank.fund(stranger, 1_000_000_000);
        w.bank.add_token(base, bm, stranger, u64::MAX / 64);
        w.bank.add_token(quote, qm, stranger, u64::MAX / 64);
        w.set_stub(stub, bm, 1.0, 0.0);
        Some(Aux {
            other,
            other_oos,
            stranger,
            base,
            quote,
            evil_program,
            stub,
        })
    }
}

/// All ways to make the instruction illegitimate.
pub fn mutants(w: &World, a: &Aux, s: &Snap, op: &Op, b: &Built, exp: &Exp) -> Vec<Mutant> {
    use Role::*;
    let kind = op.kind();
    let mut v: Vec<Mutant> = vec![];
    let put = |v: &mut Vec<Mutant>, i: usize, name: &str, key: Pubkey, over: Vec<(Pubkey, Account)>| {
        if b.ix.metas[i].key == key && over.is_empty() {
            return;
        }
        let mut ix = b.ix.clone();
        ix.metas[i].key = key;
        v.push(Mutant {
            name: format!("{kind}/{:?}/{name}", b.roles[i]),
            ix,
            over,
        });
    };
    let user_of = |k: &Pubkey| w.users.iter().find(|u| u.key == *k);
    for i in 0..b.roles.len() {
        let m = b.ix.metas[i];
        let role = b.roles[i];
        // no signature
        if m.signer && m.key != NONE {
            let mut ix = b.ix.clone();
            for x in ix.metas.iter_mut() {
                if x.key == m.key {
                    x.signer = false;
                }
            }
            v.push(Mutant {
                name: format!("{kind}/{role:?}/unsigned"),
                ix,
                over: vec![],
            });
        }
        // the same account under control of another program
        let foreign = |k: &Pubkey| -> Vec<(Pubkey, Account)> {
            match w.bank.get(k) {
                Some(x) => {
                    let mut y = x.clone();
                    y.owner = a.evil_program;
                    vec![(*k, y)]
                }
                None => vec![],
            }
        };
        // a copy elsewhere, under control of another program
        let copy = |k: &Pubkey| -> (Pubkey, Vec<(Pubkey, Account)>) {
            let mut n = k.to_bytes();
            n[3] ^= 0x5a;
            n[17] ^= 0xa5;
            let n = Pubkey::new_from_array(n);
            let mut o = foreign(k);
            if let Some(x) = o.first_mut() {
                x.0 = n;
            }
            (n, o)
        };
        let retag = |k: &Pubkey, name: &str| -> Vec<(Pubkey, Account)> {
            match w.bank.get(k) {
                Some(x) if x.data.len() >= 8 => {
                    let mut y = x.clone();
                    y.data[..8].copy_from_slice(&disc("account", name));
                    vec![(*k, y)]
                }
                _ => vec![],
            }
        };
        match role {
            Signer => {
                let needs_owner = !matches!(op, Op::Deposit { .. } | Op::Take { .. }) && kind != "settle_expired";
                let moves = exp.moves.iter().any(|x| Some(x.0) == wallet_moved(op, x));
                if needs_owner || moves {
                    put(&mut v, i, "stranger", a.stranger, vec![]);
                    // another trader of the market
                    let allowed: Vec<Pubkey> = op
                        .oo()
                        .and_then(|o| s.oos.get(&o))
                        .map(|o| {
                            let mut x = vec![o.owner];
                            if kind != "set_delegate" {
                                x.extend(o.delegate);
                            }
                            x
                        })
                        .unwrap_or_else(|| vec![m.key]);
                    if let Some(u) = w.users.iter().find(|u| !allowed.contains(&u.key) && u.key != m.key) {
                        put(&mut v, i, "other trader", u.key, vec![]);
                    }
                    if kind == "set_delegate" {
                        if let Some(d) = op.oo().and_then(|o| s.oos[&o].delegate).filter(|d| *d != m.key) {
                            put(&mut v, i, "delegate", d, vec![]);
                        }
                    }
                }
            }
            Admin => {
                put(&mut v, i, "stranger", a.stranger, vec![]);
                for (n, k) in [
                    ("other market's admin", a.other.cm_admin),
                    ("other market's collector", Some(a.other.collect_admin)),
                    ("collector", Some(w.mk.collect_admin)),
                    ("closing admin", w.mk.cm_admin),
                    ("orders admin", w.mk.oo_admin),
                    ("consume admin", w.mk.ce_admin),
                ] {
                    if let Some(k) = k {
                        put(&mut v, i, n, k, vec![]);
                    }
                }
                // the all-zero key must not pass as an unset admin
                put(&mut v, i, "zero key", Pubkey::default(), vec![]);
            }
            OptAdmin => {
                if m.key == NONE {
                    let mut ix = b.ix.clone();
                    ix.metas[i] = Meta {
                        key: a.stranger,
                        signer: true,
                        writable: false,
                    };
                    v.push(Mutant {
                        name: format!("{kind}/OptAdmin/unasked"),
                        ix,
                        over: vec![],
                    });
                } else {
                    put(&mut v, i, "stranger", a.stranger, vec![]);
                    put(&mut v, i, "left out", NONE, vec![]);
                    put(&mut v, i, "zero key", Pubkey::default(), vec![]);
                    put(&mut v, i, "owner", b.ix.metas[0].key, vec![]);
                    for k in [a.other.oo_admin, a.other.ce_admin, w.mk.cm_admin].into_iter().flatten() {
                        put(&mut v, i, "another admin", k, vec![]);
                    }
                }
            }
            OpenOrders => {
                let me = &s.oos[&m.key];
                let signer = match op {
                    Op::SetDelegate { owner, .. } => *owner,
                    _ => b.ix.metas.iter().zip(&b.roles).find(|(_, r)| **r == Signer).map(|x| x.0.key).unwrap_or_default(),
                };
                if !matches!(op, Op::Deposit { .. } | Op::Prune { .. }) {
                    if let Some((k, _)) = s.oos.iter().find(|(_, o)| o.owner != me.owner && o.owner != signer && o.delegate != Some(signer)) {
                        put(&mut v, i, "other trader's", *k, vec![]);
                    }
                }
                if kind != "set_delegate" {
                    if let Some(n) = w.users.iter().position(|u| u.key == me.owner) {
                        if let Some(k) = a.other_oos.get(n) {
                            put(&mut v, i, "other market's", *k, vec![]);
                        }
                    }
                }
                let (k, o) = copy(&m.key);
                put(&mut v, i, "forged", k, o);
                put(&mut v, i, "foreign program", m.key, foreign(&m.key));
                put(&mut v, i, "wrong type", w.mk.key, vec![]);
                put(&mut v, i, "wrong tag", m.key, retag(&m.key, "Market"));
                put(&mut v, i, "missing", Pubkey::new_from_array([9; 32]), vec![]);
            }
            Market => {
                put(&mut v, i, "other market", a.other.key, vec![]);
                let (k, mut o) = copy(&m.key);
                put(&mut v, i, "forged", k, o.clone());
                // a forgery that names the caller as every admin
                if let Some(x) = o.first_mut() {
                    let real = layout::market(&x.1.data);
                    for k in [Some(w.mk.collect_admin), w.mk.cm_admin, w.mk.oo_admin, w.mk.ce_admin].into_iter().flatten() {
                        for p in 0..x.1.data.len() - 31 {
                            if x.1.data[p..p + 32] == k.to_bytes() {
                                x.1.data[p..p + 32].copy_from_slice(a.stranger.as_ref());
                            }
                        }
                    }
                    let _ = real;
                }
                let mut ix = b.ix.clone();
                ix.metas[i].key = k;
                for (j, r) in b.roles.iter().enumerate() {
                    if matches!(r, Admin) {
                        ix.metas[j].key = a.stranger;
                    }
                }
                v.push(Mutant {
                    name: format!("{kind}/Market/forged for a stranger"),
                    ix,
                    over: o,
                });
                put(&mut v, i, "foreign program", m.key, foreign(&m.key));
                put(&mut v, i, "wrong type", w.mk.bids, vec![]);
                put(&mut v, i, "wrong tag", m.key, retag(&m.key, "BookSide"));
            }
            Bids | Asks | Heap => {
                let (mine, other, swap) = match role {
                    Bids => (w.mk.bids, a.other.bids, w.mk.asks),
                    Asks => (w.mk.asks, a.other.asks, w.mk.bids),
                    _ => (w.mk.heap, a.other.heap, w.mk.bids),
                };
                put(&mut v, i, "other market's", other, vec![]);
                put(&mut v, i, "exchanged", swap, vec![]);
                put(&mut v, i, "foreign program", mine, foreign(&mine));
                let (k, o) = copy(&mine);
                put(&mut v, i, "forged", k, o);
                put(&mut v, i, "wrong tag", mine, retag(&mine, if role == Heap { "BookSide" } else { "EventHeap" }));
                if role == Bids {
                    if let Some(j) = b.roles.iter().position(|r| *r == Asks) {
                        let mut ix = b.ix.clone();
                        ix.metas[i].key = w.mk.asks;
                        ix.metas[j].key = w.mk.bids;
                        v.push(Mutant {
                            name: format!("{kind}/Bids/swapped with asks"),
                            ix,
                            over: vec![],
                        });
                    }
                }
            }
            Vault => {
                let is_base = m.key == w.mk.base_vault;
                put(&mut v, i, "other market's", if is_base { a.other.base_vault } else { a.other.quote_vault }, vec![]);
                put(&mut v, i, "other token's", if is_base { w.mk.quote_vault } else { w.mk.base_vault }, vec![]);
                put(&mut v, i, "a stranger's", if is_base { a.base } else { a.quote }, vec![]);
                if let Some(u) = user_of(&b.ix.metas[0].key) {
                    put(&mut v, i, "the caller's", if is_base { u.base2 } else { u.quote2 }, vec![]);
                }
                put(&mut v, i, "foreign program", m.key, foreign(&m.key));
            }
            Authority => {
                put(&mut v, i, "stranger", a.stranger, vec![]);
                put(&mut v, i, "other market's", a.other.authority, vec![]);
            }
            Oracle => {
                put(&mut v, i, "another", a.stub, vec![]);
                if m.key != NONE {
                    put(&mut v, i, "left out", NONE, vec![]);
                    if let (Some(x), Some(y)) = (w.mk.oracle_a, w.mk.oracle_b) {
                        put(&mut v, i, "exchanged", if m.key == x { y } else { x }, vec![]);
                    }
                }
            }
            TokenProgram => {
                put(&mut v, i, "system program", system_program::ID, vec![]);
                put(&mut v, i, "foreign program", a.evil_program, vec![]);
            }
            SystemProgram => {
                put(&mut v, i, "token program", spl_token::ID, vec![]);
                put(&mut v, i, "foreign program", a.evil_program, vec![]);
            }
            TokenFrom | TokenTo | Referrer => {
                if m.key == NONE {
                    continue;
                }
                put(&mut v, i, "foreign program", m.key, foreign(&m.key));
                let mint = layout::key_(w.bank.data(&m.key), 0);
                let owner = layout::key_(w.bank.data(&m.key), 32);
                if let Some(u) = user_of(&owner) {
                    put(&mut v, i, "other mint", if mint == w.mk.base_mint { u.quote2 } else { u.base2 }, vec![]);
                }
                put(&mut v, i, "stranger's of the other mint", if mint == w.mk.base_mint { a.quote } else { a.base }, vec![]);
                put(&mut v, i, "mint", mint, vec![]);
                let base_side = mint == w.mk.base_mint;
                if role == TokenFrom && exp.moves.iter().any(|x| x.0 == m.key) {
                    put(&mut v, i, "a stranger's", if base_side { a.base } else { a.quote }, vec![]);
                    if let Some(u) = w.users.iter().find(|u| u.key != owner) {
                        put(&mut v, i, "other trader's", if base_side { u.base } else { u.quote }, vec![]);
                    }
                }
                if role == TokenTo && kind.starts_with("settle") {
                    let oo = op.oo().unwrap();
                    let signer = match op {
                        Op::Settle { signer, .. } => *signer,
                        _ => Pubkey::default(),
                    };
                    if kind == "settle_expired" || signer != s.oos[&oo].owner {
                        put(&mut v, i, "a stranger's", if base_side { a.base } else { a.quote }, vec![]);
                    }
                }
            }
            Payer | Remaining | Other => {}
        }
    }
    v
}

/// the wallet a movement comes from, if the operation draws on a wallet
fn wallet_moved(op: &Op, m: &(Pubkey, Pubkey, u64)) -> Option<Pubkey> {
    if m.2 == 0 {
        return None;
    }
    match op {
        Op::Deposit { base_acc, quote_acc, .. } => [*base_acc, *quote_acc].into_iter().find(|k| *k == m.0),
        Op::Take { base, quote, .. } => [*base, *quote].into_iter().find(|k| *k == m.0),
        Op::Place { wallet, .. } | Op::Edit { wallet, .. } => Some(*wallet).filter(|k| *k == m.0),
        Op::Batch { base, quote, .. } => [*base, *quote].into_iter().find(|k| *k == m.0),
        _ => None,
    }
}

/// Run one altered instruction; it must fail and leave no trace.
pub fn attempt(c: &mut Case, w: &mut World, m: &Mutant) -> bool {
    let mut saved: Vec<(Pubkey, Option<Account>)> = vec![];
    for (k, x) in &m.over {
        saved.push((*k, w.bank.accounts.insert(*k, x.clone())));
    }
    let o = w.bank.exec(&m.ix);
    c.eval();
    let accepted = o.ok();
    if !accepted {
        c.nontrivial(mix(hash_str(&m.name) ^ hash_str(&format!("{:?}", o.code()))));
    }
    for (k, x) in saved.into_iter().rev() {
        match x {
            Some(x) => w.bank.accounts.insert(k, x),
            None => w.bank.accounts.remove(&k),
        };
    }
    let mut part = m.name.split('/');
    let (kind, role, what) = (part.next().unwrap_or(""), part.next().unwrap_or(""), part.next().unwrap_or(""));
    c.count(&format!("refused {role} {what}"));
    c.count(&format!("altered {kind}"));
    if accepted {
        c.violate(&m.name, format!("accepted with altered account: {} ({:?} changed)", m.name, o.changed.keys().collect::<Vec<_>>()));
        return false;
    }
    true
}

fn run_auth(c: &mut Case, p: Profile, tries: usize) {
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let a = match Aux::new(c, &mut h.w) {
        Some(a) => a,
        None => return,
    };
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    let mut done = 0;
    for _ in 0..h.p.steps * 3 {
        if done >= h.p.steps {
            break;
        }
        let op = match h.gen(&s) {
            Some(op) => op,
            None => {
                s = match h.start(c) {
                    Some(s) => s,
                    None => return,
                };
                continue;
            }
        };
        c.step = done;
        done += 1;
        let mut ctx = Ctx::new(&h.w, &h.w.mk, &s);
        if ctx.run(&op).is_ok() {
            let exp = ctx.e;
            let b = h.w.mk.build(&op);
            let mut v = mutants(&h.w, &a, &s, &op, &b, &exp);
            h.r.shuffle(&mut v);
            for m in v.iter().take(tries) {
                c.trace(|| format!("altered {} of {:?}", m.name, op));
                if !attempt(c, &mut h.w, m) {
                    return;
                }
            }
            if !v.is_empty() {
                match h.w.snap() {
                    Ok(x) if x == s => {}
                    _ => {
                        c.violate("failed-but-changed", format!("refused variants of {op:?} changed the market"));
                        return;
                    }
                }
            }
        }
        // the unaltered instruction is judged as in every history
        s = match h.step(c, &op, &s) {
            Some(s) => s,
            None => return,
        };
    }
}

pub fn auth(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 50;
    p.w = [26, 6, 6, 8, 10, 12, 10, 6, 10, 4, 5, 2, 2, 0, 0, 0, 0];
    p.spread = 4;
    p.oracle = (c.seed % 2) as u8;
    p.admins = c.seed % 3 != 0;
    run_auth(c, p, 6)
}

/// also after the market's end, where the closing admin acts
pub fn auth_ending(c: &mut Case) {
    let mut p = base_profile();
    p.steps = 60;
    p.w = [14, 3, 3, 3, 4, 12, 8, 4, 24, 6, 3, 1, 2, 0, 0, 2, 14];
    p.spread = 4;
    p.admins = true;
    p.expired_settles = true;
    run_auth(c, p, 6)
}
