//! The TypeScript client: run by node over the accounts of a history, what it reads compared with
//! the accounts, and the instructions it builds executed next to the ones built here.

use crate::hist::*;
use crate::layout::*;
use crate::report::{verif_dir, Case};
use crate::rng::{hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use openbook_v2::state::{BookSide, EventHeap};
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---- the process running the client

struct Node {
    _child: Child,
    to: BufWriter<ChildStdin>,
    from: BufReader<ChildStdout>,
    /// what the process was told
    told: BTreeMap<Pubkey, Account>,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = RefCell::new(None);
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex from the client")).collect()
}
fn kx(k: &Pubkey) -> String {
    hex(k.as_ref())
}
fn unkey(s: &str) -> Pubkey {
    Pubkey::new_from_array(unhex(s).try_into().expect("key from the client"))
}

impl Node {
    fn start() -> Node {
        let repo = std::env::var("OBV_REPO").unwrap_or_else(|_| "/repo".into());
        let mut child = Command::new("node")
            .arg(format!("{}/ts/driver.js", verif_dir()))
            .arg(repo)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node cannot be started");
        let to = BufWriter::with_capacity(1 << 20, child.stdin.take().unwrap());
        let mut from = BufReader::new(child.stdout.take().unwrap());
        let mut l = String::new();
        from.read_line(&mut l).expect("node went away");
        if l.trim() != "ready" {
            panic!("the client cannot be loaded: {l}");
        }
        Node {
            _child: child,
            to,
            from,
            told: BTreeMap::new(),
        }
    }
}

pub type Lines = Vec<Vec<String>>;

fn reset(seed: u64) {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(Node::start);
        n.told.clear();
        writeln!(n.to, "reset {seed}").expect("node went away");
    })
}

/// tell the client's side about every account that changed
fn tell(bank: &Bank) {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut().unwrap();
        let gone: Vec<Pubkey> = n.told.keys().filter(|k| !bank.accounts.contains_key(k)).copied().collect();
        for k in gone {
            n.told.remove(&k);
            writeln!(n.to, "gone {}", kx(&k)).expect("node went away");
        }
        for (k, a) in &bank.accounts {
            if n.told.get(k) != Some(a) {
                let data = if a.data.is_empty() { "-".to_string() } else { hex(&a.data) };
                writeln!(n.to, "acct {} {} {} {data}", kx(k), kx(&a.owner), a.lamports).expect("node went away");
                n.told.insert(*k, a.clone());
            }
        }
    })
}

fn ask(j: J) -> Result<Lines, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut().unwrap();
        let mut req = j.0;
        req.push('}');
        writeln!(n.to, "do {req}").and_then(|_| n.to.flush()).expect("node went away");
        let mut v = vec![];
        let mut err = None;
        loop {
            let mut l = String::new();
            if n.from.read_line(&mut l).expect("node went away") == 0 {
                panic!("node went away during {req}");
            }
            let l = l.trim_end();
            if l == "." {
                break;
            }
            if l.starts_with("missing ") || l.starts_with("broken ") {
                panic!("the stand-ins cannot run the client: {l} (request {req})");
            }
            if let Some(e) = l.strip_prefix("error ") {
                err = err.or(Some(e.to_string()));
            }
            v.push(l.split(' ').map(|x| x.to_string()).collect());
        }
        match err {
            Some(e) => Err(e),
            None => Ok(v),
        }
    })
}

/// a request
struct J(String);
impl J {
    fn new(what: &str) -> J {
        J(format!("{{\"do\":\"{what}\""))
    }
    fn build(what: &str) -> J {
        J::new("build").s("what", what)
    }
    fn raw(mut self, name: &str, v: impl std::fmt::Display) -> J {
        self.0 += &format!(",\"{name}\":{v}");
        self
    }
    fn s(self, name: &str, v: impl std::fmt::Display) -> J {
        let v = crate::report::jstr(&v.to_string());
        self.raw(name, v)
    }
    fn k(self, name: &str, k: &Pubkey) -> J {
        self.s(name, kx(k))
    }
    fn ok(self, name: &str, k: Option<Pubkey>) -> J {
        match k {
            Some(k) => self.k(name, &k),
            None => self,
        }
    }
    fn ks(self, name: &str, v: &[Pubkey]) -> J {
        let l: Vec<String> = v.iter().map(|k| format!("\"{}\"", kx(k))).collect();
        self.raw(name, format!("[{}]", l.join(",")))
    }
    fn ss<T: std::fmt::Display>(self, name: &str, v: &[T]) -> J {
        let l: Vec<String> = v.iter().map(|k| format!("\"{k}\"")).collect();
        self.raw(name, format!("[{}]", l.join(",")))
    }
}

// ---- comparing answers

fn group(v: &Lines, tag: &str) -> Lines {
    v.iter().filter(|l| l[0] == tag).map(|l| l[1..].to_vec()).collect()
}

/// `~` marks numbers of display, which need only be close
fn same_field(got: &str, want: &str) -> bool {
    match want.strip_prefix('~') {
        None => got == want,
        Some(w) => match (got.parse::<f64>(), w.parse::<f64>()) {
            (Ok(g), Ok(w)) => (g - w).abs() <= 1e-6 * w.abs().max(1e-300) || g == w,
            _ => false,
        },
    }
}

fn same(c: &mut Case, what: &str, tag: &str, got: &Lines, want: &Lines) {
    c.eval();
    let got = group(got, tag);
    let differ = got.len() != want.len()
        || got.iter().zip(want).any(|(g, w)| g.len() != w.len() || g.iter().zip(w).any(|(a, b)| !same_field(a, b)));
    if differ {
        let at = got
            .iter()
            .zip(want)
            .position(|(g, w)| g.len() != w.len() || g.iter().zip(w).any(|(a, b)| !same_field(a, b)))
            .unwrap_or(got.len().min(want.len()));
        c.violate(
            &format!("{what}/{tag}"),
            format!(
                "{what}: the client tells {} lines of {tag}, must tell {}; line {at} is {:?}, must be {:?}",
                got.len(),
                want.len(),
                got.get(at),
                want.get(at)
            ),
        );
    }
}

fn f(x: f64) -> String {
    format!("~{x:e}")
}
fn opt(k: &Option<Pubkey>) -> String {
    kx(&k.unwrap_or_default())
}

struct Units {
    base_lot: f64,
    quote_lot: f64,
    tick: f64,
    base: f64,
    quote: f64,
}
fn units(m: &Market) -> Units {
    let base = 10f64.powi(-(m.base_decimals as i32));
    let quote = 10f64.powi(-(m.quote_decimals as i32));
    Units {
        base_lot: m.bls as f64 * base,
        quote_lot: m.qls as f64 * quote,
        tick: (m.qls as f64 * quote) / (m.bls as f64 * base),
        base,
        quote,
    }
}

fn market_lines(m: &Market) -> Lines {
    let end = m.name.iter().position(|b| *b == 0).unwrap_or(16);
    let name = String::from_utf8_lossy(&m.name[..end]).replace(' ', "_");
    vec![vec![
        m.base_decimals.to_string(),
        m.quote_decimals.to_string(),
        kx(&m.authority),
        m.time_expiry.to_string(),
        kx(&m.collect_fee_admin),
        opt(&m.open_orders_admin),
        opt(&m.consume_events_admin),
        opt(&m.close_market_admin),
        name,
        kx(&m.bids),
        kx(&m.asks),
        kx(&m.event_heap),
        opt(&m.oracle_a),
        opt(&m.oracle_b),
        m.qls.to_string(),
        m.bls.to_string(),
        m.seq_num.to_string(),
        m.registration_time.to_string(),
        m.maker_fee.to_string(),
        m.taker_fee.to_string(),
        m.fees_accrued.to_string(),
        m.fees_to_referrers.to_string(),
        m.referrer_rebates_accrued.to_string(),
        m.fees_available.to_string(),
        m.maker_volume.to_string(),
        m.taker_volume_wo_oo.to_string(),
        kx(&m.base_mint),
        kx(&m.quote_mint),
        kx(&m.base_vault),
        m.base_total.to_string(),
        kx(&m.quote_vault),
        m.quote_total.to_string(),
    ]]
}

/// the fixed orders of a side, best first
fn best_first(s: &Snap, side: u8) -> Vec<&Leaf> {
    let v = s.side(side).trees[0].iter();
    if side == 0 {
        v.rev().collect()
    } else {
        v.collect()
    }
}

fn check_book(c: &mut Case, what: &str, got: &Lines, s: &Snap, now: u64, no_pegged: bool, depths: &[usize]) {
    let u = units(&s.m);
    for side in 0..2u8 {
        let tag = ["bids", "asks"][side as usize];
        let orders = best_first(s, side);
        let mut want = vec![];
        for l in &orders {
            let seq = if side == 0 { !(l.key as u64) } else { l.key as u64 };
            if l.expired(now) {
                c.count("expired orders read");
                if l.expiry() == now {
                    c.count("orders read at their last second");
                }
            }
            want.push(vec![
                l.key.to_string(),
                l.price_data().to_string(),
                seq.to_string(),
                l.qty.to_string(),
                kx(&l.owner),
                (l.expired(now) as u8).to_string(),
                l.client.to_string(),
                l.tif.to_string(),
                l.ts.to_string(),
                l.slot.to_string(),
                side.to_string(),
                f(l.price_data() as f64 * u.tick),
                f(l.qty as f64 * u.base_lot),
            ]);
        }
        c.count_n("orders read", orders.len() as u64);
        same(c, what, &format!("{tag}.fixed"), got, &want);
        if !no_pegged {
            continue;
        }
        same(c, what, &format!("{tag}.item"), got, &orders.iter().map(|l| vec![l.key.to_string()]).collect());
        same(c, what, &format!("{tag}.best"), got, &vec![vec![orders.first().map(|l| l.key.to_string()).unwrap_or("-".into())]]);
        // whether a level counts orders that have run out is left open
        if orders.iter().any(|l| l.expired(now)) {
            continue;
        }
        let mut levels: Vec<(u64, i128)> = vec![];
        for l in &orders {
            match levels.last_mut() {
                Some(x) if x.0 == l.price_data() => x.1 += l.qty as i128,
                _ => levels.push((l.price_data(), l.qty as i128)),
            }
        }
        for d in depths {
            let want: Lines = levels
                .iter()
                .take(*d)
                .map(|(p, q)| vec![p.to_string(), q.to_string(), f(*p as f64 * u.tick), f(*q as f64 * u.base_lot)])
                .collect();
            if levels.len() > *d {
                c.count("levels cut at the depth");
            }
            same(c, what, &format!("{tag}.l2.{d}"), got, &want);
        }
    }
}

fn event_line(e: &Event) -> Vec<String> {
    match e {
        Event::Fill {
            taker_side,
            maker_out,
            maker_slot,
            ts,
            seq,
            maker,
            maker_ts,
            taker,
            taker_client,
            price,
            peg_limit,
            qty,
            maker_client,
        } => vec![
            "fill".into(),
            taker_side.to_string(),
            (*maker_out as u8).to_string(),
            maker_slot.to_string(),
            ts.to_string(),
            seq.to_string(),
            kx(maker),
            maker_ts.to_string(),
            kx(taker),
            taker_client.to_string(),
            price.to_string(),
            peg_limit.to_string(),
            qty.to_string(),
            maker_client.to_string(),
        ],
        Event::Out { side, slot, ts, seq, owner, qty } => {
            vec!["out".into(), side.to_string(), slot.to_string(), ts.to_string(), seq.to_string(), kx(owner), qty.to_string()]
        }
        Event::Unknown(_) => vec!["unknown".into()],
    }
}

/// The account balances once every queued event has been handled.
fn after_crank(w: &World) -> Option<Snap> {
    let mut w = w.clone();
    for _ in 0..200 {
        let s = w.snap().ok()?;
        if s.heap.events.is_empty() {
            return Some(s);
        }
        let mut rem: Vec<Pubkey> = vec![];
        for (_, e) in s.heap.events.iter().take(8) {
            if !rem.contains(&e.account()) {
                rem.push(e.account());
            }
        }
        let b = w.mk.build(&Op::Consume { limit: 8, given: None, rem });
        if !w.bank.exec(&b.ix).ok() {
            return None;
        }
        if w.snap().ok()?.heap.events.len() == s.heap.events.len() {
            return None;
        }
    }
    None
}

fn check_oos(c: &mut Case, what: &str, got: &Lines, w: &World, s: &Snap, oos: &[Pubkey], no_pegged: bool) {
    let u = units(&s.m);
    let later = after_crank(w);
    let (mut main, mut items, mut bal, mut held) = (vec![], vec![], vec![], vec![]);
    for k in oos {
        let o = &s.oos[k];
        main.push(vec![
            kx(k),
            kx(&o.owner),
            kx(&o.market),
            opt(&o.delegate),
            o.account_num.to_string(),
            o.bids_base_lots.to_string(),
            o.asks_base_lots.to_string(),
            o.base_free.to_string(),
            o.quote_free.to_string(),
            o.locked_maker_fees.to_string(),
            o.referrer_rebates.to_string(),
            o.penalty.to_string(),
            o.maker_volume.to_string(),
            o.taker_volume.to_string(),
            o.bids_quote_lots.to_string(),
        ]);
        if no_pegged {
            for sl in o.slots.iter().filter(|x| x.used) {
                if s.side(sl.side_tree % 2).trees[0].iter().any(|l| l.key == sl.id) {
                    items.push(vec![kx(k), sl.id.to_string()]);
                }
            }
        }
        let base = |o: &OpenOrders| o.asks_base_lots as i128 * s.m.bls as i128 + o.base_free as i128;
        let quote = |o: &OpenOrders| o.bids_quote_lots as i128 * s.m.qls as i128 + o.quote_free as i128 + o.locked_maker_fees as i128;
        held.push(vec![kx(k), base(o).to_string(), quote(o).to_string(), f(base(o) as f64 * u.base), f(quote(o) as f64 * u.quote)]);
        if let Some(l) = later.as_ref().and_then(|l| l.oos.get(k)) {
            bal.push(vec![kx(k), base(l).to_string(), quote(l).to_string()]);
            let pending = s.heap.events.iter().filter(|(_, e)| e.account() == *k && matches!(e, Event::Fill { .. })).count();
            c.count_n("balances told with fills waiting", (pending > 0) as u64);
            if pending > 0 {
                c.nontrivial(mix(hash_str(what) ^ mix(base(l) as u64) ^ quote(l) as u64));
            }
        }
    }
    c.count_n("accounts read", oos.len() as u64);
    same(c, what, "oo", got, &main);
    same(c, what, "oo.held", got, &held);
    if no_pegged {
        same(c, what, "oo.item", got, &items);
    }
    if bal.len() == oos.len() {
        same(c, what, "oo.balance", got, &bal);
    }
}

fn check_queue(c: &mut Case, what: &str, got: &Lines, s: &Snap) {
    let want: Lines = s.heap.events.iter().map(|x| event_line(&x.1)).collect();
    c.count_n("events read", want.len() as u64);
    same(c, what, "event", got, &want);
}

/// the accounts and places to be named when handling events
fn check_consume(c: &mut Case, got: &Lines, s: &Snap, oos: &[Pubkey]) {
    c.eval();
    let named = group(got, "toConsume").first().cloned().unwrap_or_default();
    let all: BTreeSet<String> = s.heap.events.iter().map(|x| kx(&x.1.account())).collect();
    let set: BTreeSet<String> = named.iter().cloned().collect();
    if set.len() != named.len() {
        c.violate("toConsume/twice", format!("the client names {} accounts for {} different ones", named.len(), set.len()));
    } else if !set.is_subset(&all) {
        c.violate("toConsume/stranger", format!("the client names {:?} which no event waits for", set.difference(&all).next()));
    } else if set.len() < all.len().min(20) {
        c.violate("toConsume/lacks", format!("events wait for {} accounts, the client names {}", all.len(), set.len()));
    }
    let slots = group(got, "slots");
    for k in oos {
        let want: BTreeSet<String> = s.heap.events.iter().filter(|x| x.1.account() == *k).map(|x| x.0.to_string()).collect();
        let line = slots.iter().find(|l| l[0] == kx(k)).map(|l| l[1..].to_vec()).unwrap_or_default();
        let got: BTreeSet<String> = line.iter().cloned().collect();
        c.eval();
        if !want.is_empty() {
            c.count("accounts with events waiting");
        }
        if got != want || line.len() != want.len() {
            c.violate("slots", format!("events of {k} wait in {want:?}, the client names {line:?}"));
        }
    }
}

fn profile(r: &mut Rng, no_pegged: bool) -> Profile {
    let mut p = base_profile();
    p.wind_down = false;
    p.users = 2 + r.idx(4);
    p.oos = p.users + r.idx(6);
    p.supply = if r.chance(1, 2) { 0 } else { 1 };
    p.expiring = (1, 3);
    if no_pegged {
        p.w[1] = 0;
        p.w[2] = 0;
    } else {
        p.oracle = 1;
        p.w[1] = 20;
    }
    p.w[6] = *r.pick(&[0, 3, 10]);
    p
}

fn wallet_of(h: &Hist) -> Pubkey {
    h.w.users[0].key
}

fn open_accounts(s: &Snap, r: &mut Rng, n: usize) -> Vec<Pubkey> {
    let mut v: Vec<Pubkey> = s.oos.keys().copied().collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}

fn read_request(h: &Hist, what: &str, now: u64, no_pegged: bool, depths: &[usize], oos: &[Pubkey]) -> J {
    J::new(what)
        .k("wallet", &wallet_of(h))
        .k("market", &h.w.mk.key)
        .s("now", now)
        .raw("noPegged", no_pegged)
        .raw("depths", format!("{depths:?}"))
        .ks("oos", oos)
}

fn look(c: &mut Case, h: &mut Hist, s: &Snap, what: &str, no_pegged: bool, oos: &[Pubkey]) {
    // now and then the moment at which some order runs out
    let all: Vec<&Leaf> = [&s.bids, &s.asks].iter().flat_map(|x| x.trees[0].iter()).filter(|l| l.tif > 0).collect();
    let mut now = h.w.bank.ts as u64;
    if !all.is_empty() && h.r.chance(1, 2) {
        now = (h.r.pick(&all).expiry() as i64 + h.r.range(-1, 1)) as u64;
    }
    if h.r.chance(1, 4) {
        now = 0;
    }
    let depths = [0usize, 1, 2, 3, 1000];
    let depths = &depths[1..];
    match ask(read_request(h, what, now, no_pegged, depths, oos)) {
        Err(e) => c.violate(&format!("{what}/fails"), format!("{what}: the client fails: {e}")),
        Ok(v) => {
            if what != "reloaded" {
                let u = units(&s.m);
                same(c, what, "m", &v, &market_lines(&s.m));
                same(c, what, "units", &v, &vec![vec![f(u.base_lot), f(u.tick)]]);
                check_queue(c, what, &v, s);
            }
            check_book(c, what, &v, s, now, no_pegged, depths);
            check_oos(c, what, &v, &h.w, s, oos, no_pegged);
            if what == "read" {
                check_consume(c, &v, s, oos);
            }
            let shape = (what, s.bids.len(), s.asks.len(), s.heap.events.len(), no_pegged);
            c.nontrivial(hash_str(&format!("{shape:?}")));
            c.count(what);
        }
    }
}

/// Histories looked at through the client: fresh, watched and reloaded.
pub fn reads(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0x7531));
    let no_pegged = !r.chance(1, 4);
    let p = profile(&mut r, no_pegged);
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    reset(c.seed);
    let (mut watched, mut oos): (Option<usize>, Vec<Pubkey>) = (None, vec![]);
    let mut stale: Option<usize> = None;
    let steps = r.range(20, 70) as usize;
    for i in 0..steps {
        c.step = i;
        if let Some(op) = h.gen(&s) {
            s = match h.step(c, &op, &s) {
                Some(s) => s,
                None => return,
            };
        } else {
            s = match h.w.snap() {
                Ok(s) => s,
                Err(_) => return,
            };
        }
        if let Some(at) = watched {
            // subscriptions see every change
            tell(&h.w.bank);
            if i - at > 12 && r.chance(1, 6) || i + 1 == steps {
                look(c, &mut h, &s, "watched", no_pegged, &oos);
                if c.failed() {
                    return;
                }
                if r.chance(1, 3) {
                    match ask(J::new("unwatch").k("wallet", &wallet_of(&h)).k("market", &h.w.mk.key)) {
                        Ok(v) => same(c, "unwatch", "left", &v, &vec![vec!["0".into()]]),
                        Err(e) => c.violate("unwatch/fails", format!("the client fails: {e}")),
                    }
                    watched = None;
                    stale = Some(i);
                }
            }
        } else if let Some(at) = stale {
            // nothing is told for a while, then the accounts are fetched again
            if i - at >= 4 && r.chance(1, 4) || i + 1 == steps {
                tell(&h.w.bank);
                look(c, &mut h, &s, "reloaded", no_pegged, &oos);
                c.count_n("reloaded after changes", (i > at) as u64);
                stale = None;
            }
        } else if r.chance(1, 18) || i + 1 == steps {
            tell(&h.w.bank);
            oos = open_accounts(&s, &mut r, 6);
            look(c, &mut h, &s, "read", no_pegged, &oos);
            if !c.failed() && r.chance(1, 2) {
                match ask(read_request(&h, "watch", 0, no_pegged, &[1], &oos)) {
                    Ok(_) => watched = Some(i),
                    Err(e) => c.violate("watch/fails", format!("the client fails: {e}")),
                }
            }
        }
        if c.failed() {
            return;
        }
    }
}

/// Full queues and sides, far prices and any values, through the program's own containers.
pub fn crowded(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0x51DE));
    let no_pegged = r.chance(1, 2);
    let p = profile(&mut r, true);
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let owners: Vec<Pubkey> = (0..*r.pick(&[1usize, 3, 19, 20, 21, 60])).map(|_| h.w.key()).collect();
    for (side, k) in [h.w.mk.bids, h.w.mk.asks].into_iter().enumerate() {
        let n = *r.pick(&[1usize, 2, 30, 300, 512, 1024]);
        let top = *r.pick(&[3u64, 1000, 1 << 33, 1 << 62]);
        let mut mem = crate::containers::load(&h.w.bank, &k);
        let mut live: Vec<(usize, u128)> = vec![];
        let mut seq = *r.pick(&[0u64, 1 << 40, 1 << 63]);
        for _ in 0..n {
            seq += 1 + r.below(3);
            let t = (!no_pegged && r.chance(1, 4)) as usize;
            let data = if t == 0 { 1 + r.below(top) } else { (1 << 63) + r.below(100) };
            let key = (data as u128) << 64 | if side == 0 { !seq } else { seq } as u128;
            let l = Leaf {
                key,
                owner: *r.pick(&owners),
                slot: r.below(24) as u8,
                tif: if r.chance(1, 5) { r.below(65536) as u16 } else { 0 },
                qty: r.range(1, *r.clone().pick(&[5i64, 1 << 33, 1 << 50])),
                ts: h.w.bank.ts as u64 - r.below(100),
                peg_limit: -1,
                client: r.u64(),
            };
            match guarded(|| mem.get_mut::<BookSide>().insert_leaf(crate::containers::comp(t), &crate::containers::make(&l)).is_ok()) {
                Ok(true) => live.push((t, key)),
                _ => break,
            }
            if r.chance(1, 12) {
                let (t, key) = live.swap_remove(r.idx(live.len()));
                let _ = guarded(|| mem.get_mut::<BookSide>().remove_by_key(crate::containers::comp(t), key).is_some());
            }
        }
        h.w.bank.accounts.get_mut(&k).unwrap().data.copy_from_slice(mem.bytes());
        c.count_n("crowded sides read", (live.len() > 400) as u64);
        c.count_n("orders beyond 32 bits of price", (top > 1 << 32) as u64);
    }
    let mut mem = crate::containers::load(&h.w.bank, &h.w.mk.heap);
    let n = *r.pick(&[0usize, 1, 30, 300, 599, 600, 600]);
    let mut used = 0;
    while used < n {
        let mut b = [0u8; 144];
        r.fill(&mut b);
        b[0] = r.below(2) as u8;
        b[1] &= 1;
        if b[0] == 0 {
            b[2] &= 1;
        }
        b[24..56].copy_from_slice(r.pick(&owners).as_ref());
        if guarded(|| mem.get_mut::<EventHeap>().push_back(bytemuck::cast(b))).is_err() {
            return c.count("setup failed");
        }
        used += 1;
        if r.chance(1, 9) {
            let slot = r.idx(600);
            used -= matches!(guarded(|| mem.get_mut::<EventHeap>().delete_slot(slot).is_ok()), Ok(true)) as usize;
        }
    }
    h.w.bank.accounts.get_mut(&h.w.mk.heap).unwrap().data.copy_from_slice(mem.bytes());
    c.count_n("full queues read", (n == 600) as u64);
    let s = match h.w.snap() {
        Ok(s) => s,
        Err(_) => return c.count("setup failed"),
    };
    reset(c.seed);
    tell(&h.w.bank);
    look(c, &mut h, &s, "read", no_pegged, &owners[..0]);
    // the places of the events of every one of these
    let v = match ask(J::new("slots").k("wallet", &wallet_of(&h)).k("market", &h.w.mk.key).ks("oos", &owners)) {
        Ok(v) => v,
        Err(e) => return c.violate("slots/fails", format!("finding the events of accounts fails: {e}")),
    };
    check_consume(c, &v, &s, &owners);
}

fn indexer(bank: &Bank, k: &Pubkey) -> Option<(u32, Vec<Pubkey>)> {
    let d = bank.get(k)?;
    if d.data.len() < 17 || d.owner != openbook_v2::ID {
        return None;
    }
    let d = &d.data;
    let created = u32_(d, 9);
    let n = u32_(d, 13) as usize;
    Some((created, (0..n).map(|i| key_(d, 17 + 32 * i)).collect()))
}

/// Looking accounts and markets up.
pub fn lookups(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0x1357));
    let p = profile(&mut r, true);
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    for i in 0..r.range(0, 25) as usize {
        c.step = i;
        if let Some(op) = h.gen(&s) {
            s = match h.step(c, &op, &s) {
                Some(s) => s,
                None => return,
            };
        } else {
            s = match h.w.snap() {
                Ok(s) => s,
                Err(_) => return,
            };
        }
    }
    // more markets, with other or the same mints, in the other order
    let (bm, qm) = (h.w.mk.base_mint, h.w.mk.quote_mint);
    let other = h.w.key();
    h.w.bank.add_mint(other, 3);
    let mut mks: Vec<Mk> = vec![h.w.mk.clone()];
    let mut created: Vec<(Pubkey, Pubkey, Pubkey, String, String)> = vec![];
    let many = match r.below(4) {
        0 => 48 + r.idx(6),
        1 => 95 + r.idx(30),
        _ => 1 + r.idx(4),
    };
    for i in 0..many {
        let mut p = rand_params(&mut r);
        p.expiry = 0;
        p.name = format!("M{i}-{}", r.below(1000));
        let (b, q) = *r.pick(&[(bm, qm), (qm, bm), (other, qm), (bm, other)]);
        let mk = h.w.new_market_keys(b, q, &p);
        let o = h.w.bank.exec(&create_market_ix(h.w.payer, &mk, &p).ix);
        if !o.ok() {
            c.count("setup failed");
            return;
        }
        let data = o.obs.calls.iter().find_map(|x| match x {
            Call::SelfEvent(d) => Some(d.clone()),
            _ => None,
        });
        match data {
            Some(d) => created.push((mk.key, b, q, p.name.clone(), hex(&d))),
            None => {
                c.count("setup failed");
                return;
            }
        }
        // only a few of them keep their books, to save time
        if mks.len() < 4 {
            mks.push(mk);
        } else {
            for k in [mk.bids, mk.asks, mk.heap] {
                h.w.bank.accounts.remove(&k);
            }
            if r.chance(1, 2) {
                h.w.bank.accounts.remove(&mk.key);
            }
        }
    }
    // accounts of the same traders on several markets, some of them closed again
    for i in 0..h.w.users.len() {
        for _ in 0..r.idx(4) {
            let mk = r.pick(&mks).clone();
            let u = h.w.users[i].clone();
            let num = u.counter + 1;
            let o = h.w.bank.exec(&create_oo_ix(h.w.payer, u.key, None, num, mk.key, "more").ix);
            if !o.ok() {
                c.count("setup failed");
                return;
            }
            h.w.users[i].counter = num;
            if r.chance(1, 3) {
                h.w.bank.exec(&close_oo_ix(u.key, oo_address(&u.key, num), u.key).ix);
            }
        }
    }
    // orders of theirs on any of the markets
    for i in 0..h.w.users.len() {
        let u = h.w.users[i].clone();
        for num in 1..=u.counter {
            let oo = oo_address(&u.key, num);
            let d = h.w.bank.data(&oo);
            if d.len() != OO_LEN || r.chance(1, 4) {
                continue;
            }
            let at = open_orders(d).market;
            let mk = match mks.iter().skip(1).find(|m| m.key == at) {
                Some(m) => m.clone(),
                None => continue,
            };
            for _ in 0..r.idx(4) {
                let side = r.below(2) as u8;
                let mint = if side == 0 { mk.quote_mint } else { mk.base_mint };
                let wallet = match mint {
                    m if m == bm => u.base,
                    m if m == qm => u.quote,
                    _ => continue,
                };
                let req = Req {
                    side,
                    price: Price::Fixed(if side == 0 { r.range(1, 5) } else { r.range(6, 10) }),
                    max_base: r.range(1, 3),
                    max_quote: 1000,
                    client: r.below(9),
                    otype: 2,
                    expiry: 0,
                    stb: 0,
                    limit: 5,
                };
                let o = h.w.bank.exec(&mk.build(&Op::Place { oo, signer: u.key, wallet, req, rem: vec![] }).ix);
                c.count_n("orders on another market", o.ok() as u64);
            }
        }
    }
    let nobody = h.w.key();
    reset(c.seed);
    tell(&h.w.bank);
    let mut owners: Vec<Pubkey> = h.w.users.iter().map(|u| u.key).collect();
    owners.push(nobody);
    let all_oos: BTreeMap<Pubkey, OpenOrders> = h
        .w
        .bank
        .accounts
        .iter()
        .filter(|(_, a)| a.owner == openbook_v2::ID && a.data.len() == OO_LEN)
        .map(|(k, a)| (*k, open_orders(&a.data)))
        .collect();
    for owner in &owners {
        let mk = r.pick(&mks).clone();
        let numbers = [1u32, 2, 255, 256, 65_537, u32::MAX];
        let v = match ask(J::new("accounts").k("wallet", owner).k("owner", owner).k("market", &mk.key).ss("numbers", &numbers).raw("noPegged", true)) {
            Ok(v) => v,
            Err(e) => {
                c.violate("accounts/fails", format!("looking up accounts of {owner} fails: {e}"));
                return;
            }
        };
        let ik = indexer_address(owner);
        let ix = indexer(&h.w.bank, &ik);
        let list: Vec<Pubkey> = ix.as_ref().map(|x| x.1.clone()).unwrap_or_default();
        let line = |v: Vec<Pubkey>| vec![v.iter().map(kx).collect::<Vec<_>>()];
        same(c, "accounts", "indexer", &v, &vec![vec![kx(&ik)]]);
        same(c, "accounts", "all", &v, &line(list.clone()));
        let here: Vec<Pubkey> = list.iter().filter(|k| all_oos.get(k).map(|o| o.market) == Some(mk.key)).copied().collect();
        same(c, "accounts", "market", &v, &line(here.clone()));
        same(c, "accounts", "address", &v, &numbers.iter().map(|n| vec![n.to_string(), kx(&oo_address(owner, *n))]).collect());
        same(c, "accounts", "first", &v, &vec![vec![here.first().map(kx).unwrap_or("-".into())]]);
        match &ix {
            None => same(c, "accounts", "loaded", &v, &vec![vec!["none".into()]]),
            Some((n, l)) => {
                let mut row = vec![kx(&ik), n.to_string()];
                row.extend(l.iter().map(kx));
                same(c, "accounts", "loaded", &v, &vec![row]);
                let mut want = vec![];
                let mut items = vec![];
                for k in l {
                    let o = &all_oos[k];
                    let m = market(h.w.bank.data(&o.market));
                    want.push(vec![kx(k), kx(&o.market), kx(&m.bids), kx(&m.asks), o.base_free.to_string()]);
                    for sl in o.slots.iter().filter(|x| x.used) {
                        let book = side(h.w.bank.data(if sl.side_tree % 2 == 0 { &m.bids } else { &m.asks }), true);
                        if book.map(|b| b.trees[0].iter().any(|x| x.key == sl.id)).unwrap_or(false) {
                            items.push(vec![kx(k), sl.id.to_string()]);
                        }
                    }
                }
                same(c, "accounts", "opened", &v, &want);
                same(c, "accounts", "opened.item", &v, &items);
            }
        }
        c.count("owners looked up");
        c.nontrivial(hash_str(&format!("{} {} {}", list.len(), here.len(), ix.is_some())));
    }
    for (b, q) in [(bm, qm), (qm, bm), (other, qm), (bm, other), (other, bm)] {
        match ask(J::new("mints").k("wallet", &owners[0]).k("base", &b).k("quote", &q)) {
            Err(e) => c.violate("mints/fails", format!("looking up markets by mints fails: {e}")),
            Ok(v) => {
                let want: Lines = h
                    .w
                    .bank
                    .accounts
                    .iter()
                    .filter(|(_, a)| a.owner == openbook_v2::ID && a.data.len() == MARKET_LEN)
                    .filter(|(_, a)| {
                        let m = market(&a.data);
                        m.base_mint == b && m.quote_mint == q
                    })
                    .map(|(k, _)| vec![kx(k), MARKET_LEN.to_string()])
                    .collect();
                let mut got = group(&v, "found");
                got.sort();
                let mut want = want;
                want.sort();
                c.eval();
                c.count_n("markets found by mints", want.len() as u64);
                if got != want {
                    c.violate("mints", format!("{} markets have these mints, the client finds {}", want.len(), got.len()));
                }
            }
        }
        if c.failed() {
            return;
        }
    }
    let raw: Vec<&String> = created.iter().map(|x| &x.4).collect();
    match ask(J::new("markets").k("wallet", &owners[0]).ss("created", &raw)) {
        Err(e) => c.violate("markets/fails", format!("listing the markets fails: {e}")),
        Ok(v) => {
            c.eval();
            let want: BTreeSet<Vec<String>> = created.iter().map(|(m, b, q, n, _)| vec![m.to_string(), b.to_string(), q.to_string(), n.replace(' ', "_")]).collect();
            let lines = group(&v, "created");
            let got: BTreeSet<Vec<String>> = lines.iter().map(|l| l[..4].to_vec()).collect();
            c.count_n("markets listed", want.len() as u64);
            if want.len() > 50 {
                c.count("long lists of markets");
            }
            if got != want || lines.len() != want.len() {
                let lacks = want.difference(&got).next();
                c.violate("markets", format!("{} markets were created, the client lists {} ({} different); lacks {lacks:?}", want.len(), lines.len(), got.len()));
            }
        }
    }
}

/// Can a number of display still tell lots apart? `whole` are the smallest units in a lot that the
/// client rounds to, `unit` is one lot on display, itself known to twenty decimals.
fn tells_apart(lots: i64, whole: f64, unit: f64) -> bool {
    let v = lots as f64 * whole;
    v < (1u64 << 50) as f64 && v * (1e-20 / unit) < 0.1
}
fn price_whole(m: &Market) -> f64 {
    10f64.powi(m.base_decimals as i32) * m.qls as f64
}

/// Converting between lots and units of display.
pub fn conversions(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0x2468));
    let mut p = rand_params(&mut r);
    p.base_decimals = *r.pick(&[0u8, 2, 5, 6, 8, 9]);
    p.quote_decimals = *r.pick(&[0u8, 2, 6, 9]);
    p.bls = *r.pick(&[1i64, 10, 100, 1_000, 1_000_000, 100_000_000, 7, 12345]);
    p.qls = *r.pick(&[1i64, 1, 10, 100, 1_000, 3, 77]);
    let w = match World::new(p, 1, 0, 0) {
        Ok(w) => w,
        Err(e) => return c.violate("setup", e),
    };
    let m = market(w.bank.data(&w.mk.key));
    let u = units(&m);
    reset(c.seed);
    tell(&w.bank);
    let mut some = |whole: f64, unit: f64| -> Vec<i64> {
        let mut v = vec![0i64, 1, 2];
        for _ in 0..12 {
            let top = *r.pick(&[10i64, 1000, 1_000_000, 10_000_000_000, 50_000_000_000_000]);
            v.push(r.range(1, top));
        }
        v.retain(|x| tells_apart(*x, whole, unit));
        v
    };
    let (lots, price) = (some(1.0, 1.0), some(price_whole(&m), u.tick));
    let (base, quote) = (some(m.bls as f64, u.base_lot), some(m.qls as f64, u.quote_lot));
    let req = J::new("convert").k("wallet", &w.users[0].key).k("market", &w.mk.key).ss("lots", &lots).ss("price", &price).ss("base", &base).ss("quote", &quote);
    let v = match ask(req) {
        Ok(v) => v,
        Err(e) => return c.violate("convert/fails", format!("converting fails: {e}")),
    };
    let n = |x: &i64, k: f64| f(*x as f64 * k);
    same(
        c,
        "convert",
        "ui",
        &v,
        &lots.iter().map(|x| vec![x.to_string(), n(x, u.tick), n(x, u.base_lot), n(x, u.quote_lot), n(x, u.base), n(x, u.quote)]).collect(),
    );
    same(c, "convert", "uif", &v, &lots.iter().map(|x| vec![x.to_string(), n(x, u.tick), n(x, u.base_lot), n(x, u.quote_lot)]).collect());
    let fee = |x: &i64| (*x as i128 * m.maker_fee as i128 / 1_000_000).to_string();
    same(c, "convert", "fee", &v, &lots.iter().map(|x| vec![x.to_string(), fee(x)]).collect());
    // and back again
    for (tag, list) in [("price", &price), ("base", &base), ("quote", &quote)] {
        let g = group(&v, tag);
        c.eval();
        for (x, l) in list.iter().zip(&g) {
            c.count("values converted back");
            for (which, y) in l[1..3].iter().enumerate() {
                let y: i128 = y.parse().unwrap_or(-1);
                if y != *x as i128 {
                    let name = ["method", "function"][which];
                    c.violate(&format!("convert/{tag}/{name}"), format!("{x} lots of {tag} shown and read back by the {name} give {y} (base {} quote {} lots {} {})", m.base_decimals, m.quote_decimals, m.bls, m.qls));
                }
            }
        }
        if g.len() != list.len() {
            c.violate("convert", format!("{} answers for {} values", g.len(), list.len()));
        }
    }
    c.nontrivial(hash_str(&format!("{} {} {} {}", m.base_decimals, m.quote_decimals, m.bls, m.qls)));
}

// ---- instructions

#[derive(Debug)]
struct TopIx {
    program: Pubkey,
    ix: Ix,
}

struct Made {
    ixs: Vec<TopIx>,
    /// keys that signed or are to sign besides the wallet
    signers: Vec<Pubkey>,
    sent: bool,
    payer: Option<Pubkey>,
    lines: Lines,
}

fn made(v: Lines) -> Made {
    let mut m = Made {
        ixs: vec![],
        signers: vec![],
        sent: false,
        payer: None,
        lines: vec![],
    };
    for l in &v {
        match l[0].as_str() {
            "ix" => m.ixs.push(TopIx {
                program: unkey(&l[1]),
                ix: Ix {
                    data: if l[2] == "-" { vec![] } else { unhex(&l[2]) },
                    metas: l[3..]
                        .iter()
                        .map(|x| {
                            let (k, f) = x.split_once(':').expect("meta");
                            Meta {
                                key: unkey(k),
                                signer: &f[..1] == "1",
                                writable: &f[1..] == "1",
                            }
                        })
                        .collect(),
                },
            }),
            "signers" => m.signers = l[1..].iter().map(|x| unkey(x)).collect(),
            "tx" => {
                m.sent = true;
                m.payer = Some(unkey(&l[1]));
                m.signers = l[2..].iter().map(|x| unkey(x)).collect();
            }
            _ => {}
        }
    }
    m.lines = v;
    m
}

const COMPUTE_BUDGET: Pubkey = solana_program::pubkey!("ComputeBudget111111111111111111111111111111");

/// One transaction: everything or nothing.
fn run_all(bank: &mut Bank, ixs: &[TopIx]) -> Result<(), String> {
    let before = bank.clone();
    let r = (|| {
        for t in ixs {
            if t.program == openbook_v2::ID {
                let o = bank.exec(&t.ix);
                if let Err(e) = &o.result {
                    return Err(match o.code() {
                        Some(c) => format!("code {c}"),
                        None => match e {
                            ExecErr::Panic(_) => "panic".into(),
                            e => format!("{e:?}"),
                        },
                    });
                }
            } else if t.program == COMPUTE_BUDGET {
            } else if t.program == system_program::ID {
                system(bank, &t.ix)?;
            } else if t.program == ATA_PROGRAM {
                make_ata(bank, &t.ix)?;
            } else if t.program == spl_token::ID {
                token(bank, &t.ix)?;
            } else {
                panic!("an instruction for {} cannot be executed here", t.program);
            }
        }
        Ok(())
    })();
    if r.is_err() {
        *bank = before;
    }
    r
}

fn move_lamports(bank: &mut Bank, from: &Pubkey, to: &Pubkey, n: u64) -> Result<(), String> {
    let a = bank.accounts.get_mut(from).ok_or("no funds")?;
    if a.lamports < n {
        return Err("no funds".into());
    }
    a.lamports -= n;
    bank.fund(*to, n);
    Ok(())
}

/// creation of an account, the only request to the system program in use
fn system(bank: &mut Bank, ix: &Ix) -> Result<(), String> {
    let d = &ix.data;
    if d.len() != 52 || u32_(d, 0) != 0 {
        panic!("unexpected request to the system program");
    }
    let (lamports, space, owner) = (u64_(d, 4), u64_(d, 12) as usize, key_(d, 20));
    let (from, new) = (ix.metas[0], ix.metas[1]);
    if !from.signer || !new.signer || !from.writable || !new.writable {
        return Err("missing signature".into());
    }
    if bank.lamports(&new.key) != 0 || !bank.data(&new.key).is_empty() {
        return Err("account exists".into());
    }
    move_lamports(bank, &from.key, &new.key, lamports)?;
    let a = bank.accounts.get_mut(&new.key).unwrap();
    a.data = vec![0; space];
    a.owner = owner;
    if lamports < solana_program::rent::Rent::default().minimum_balance(space) {
        return Err("not rent exempt".into());
    }
    Ok(())
}

/// opening and closing a token account, the only requests to the token program in use
fn token(bank: &mut Bank, ix: &Ix) -> Result<(), String> {
    let k = ix.metas[0];
    if !k.writable {
        return Err("token account not writable".into());
    }
    match bank.get(&k.key) {
        Some(a) if a.owner == spl_token::ID && a.data.len() == 165 => {}
        _ => return Err("not a token account".into()),
    }
    let fresh = bank.data(&k.key).iter().all(|x| *x == 0);
    match (ix.data.first(), ix.data.len()) {
        (Some(18), 33) => {
            let (mint, owner) = (ix.metas[1].key, key_(&ix.data, 1));
            if !fresh || bank.get(&mint).map(|m| m.owner != spl_token::ID || m.data.len() != 82).unwrap_or(true) {
                return Err("bad token account request".into());
            }
            let lamports = bank.lamports(&k.key);
            let rent = solana_program::rent::Rent::default().minimum_balance(165);
            let native = mint == spl_token::native_mint::ID;
            bank.add_token(k.key, mint, owner, if native { lamports - rent } else { 0 });
            bank.accounts.get_mut(&k.key).unwrap().lamports = lamports;
        }
        (Some(9), 1) => {
            let (to, authority) = (ix.metas[1], ix.metas[2]);
            let d = bank.data(&k.key).to_vec();
            if fresh || !authority.signer || !to.writable || key_(&d, 32) != authority.key || (d[109] != 1 && bank.token_amount(&k.key) != 0) {
                return Err("bad closing of a token account".into());
            }
            let n = bank.lamports(&k.key);
            bank.accounts.remove(&k.key);
            bank.fund(to.key, n);
        }
        _ => panic!("unexpected request to the token program"),
    }
    Ok(())
}

fn make_ata(bank: &mut Bank, ix: &Ix) -> Result<(), String> {
    let (payer, ata, owner, mint) = (ix.metas[0], ix.metas[1], ix.metas[2].key, ix.metas[3].key);
    if ix.data.as_slice() != [1] || !payer.signer || !payer.writable || !ata.writable {
        return Err("bad token account request".into());
    }
    if ata.key != ata_address(&owner, &mint) {
        return Err("wrong token account address".into());
    }
    ensure_ata(bank, &payer.key, &owner, &mint)
}

fn ensure_ata(bank: &mut Bank, payer: &Pubkey, owner: &Pubkey, mint: &Pubkey) -> Result<(), String> {
    let k = ata_address(owner, mint);
    if !bank.data(&k).is_empty() {
        return Ok(());
    }
    let rent = solana_program::rent::Rent::default().minimum_balance(165);
    move_lamports(bank, payer, &k, rent)?;
    bank.add_token(k, *mint, *owner, 0);
    Ok(())
}

/// What the client must ask for, and what it then made of it.
struct Pair {
    what: &'static str,
    req: J,
    wallet: Pubkey,
    /// keys whose owners the caller has at hand
    hands: Vec<Pubkey>,
    want: Vec<TopIx>,
}

fn own(b: Built) -> TopIx {
    TopIx {
        program: openbook_v2::ID,
        ix: b.ix,
    }
}

/// Compare the effect of what the client built with the effect of what was asked for.
fn judge(c: &mut Case, bank: &Bank, p: Pair) {
    let what = p.what;
    let asked = p.req.0.clone();
    c.eval();
    let m = match ask(p.req) {
        Ok(v) => made(v),
        Err(e) => return c.violate(&format!("{what}/fails"), format!("{what}: the client fails: {e} (asked {asked})")),
    };
    // signatures
    let mut hands: BTreeSet<Pubkey> = p.hands.iter().copied().collect();
    hands.insert(p.wallet);
    hands.extend(m.signers.iter().copied());
    if let Some(payer) = m.payer {
        if payer != p.wallet {
            c.violate(&format!("{what}/payer"), format!("{what}: sent at the expense of {payer}"));
        }
    }
    let mut needed = BTreeSet::new();
    for t in &m.ixs {
        for x in t.ix.metas.iter().filter(|x| x.signer) {
            needed.insert(x.key);
            if !hands.contains(&x.key) {
                c.violate(&format!("{what}/signer"), format!("{what}: wants a signature of {} which nobody concerned can give (asked {asked})", x.key));
            }
        }
    }
    if !m.sent {
        for k in &m.signers {
            if !needed.contains(k) && *k != p.wallet {
                c.violate(&format!("{what}/signers"), format!("{what}: hands out {k} to sign, which the instruction does not name as signer (asked {asked})"));
            }
        }
    }
    if c.failed() {
        return;
    }
    let mut a = bank.clone();
    let mut b = bank.clone();
    let ra = run_all(&mut a, &p.want);
    let rb = run_all(&mut b, &m.ixs);
    c.count(what);
    c.count(if ra.is_ok() { "built and accepted" } else { "built and refused" });
    if ra.is_ok() {
        c.count(&format!("accepted:{what}"));
    }
    if ra != rb {
        return c.violate(&format!("{what}/verdict"), format!("{what}: the client's instruction gives {rb:?}, what was asked gives {ra:?} (asked {asked})"));
    }
    let keys: BTreeSet<Pubkey> = a.accounts.keys().chain(b.accounts.keys()).copied().collect();
    for k in keys {
        let (x, y) = (a.get(&k), b.get(&k));
        let empty = |x: Option<&Account>| x.map(|x| x.lamports == 0 && x.data.is_empty()).unwrap_or(true);
        if x != y && !(empty(x) && empty(y)) {
            return c.violate(
                &format!("{what}/effect"),
                format!("{what}: account {k} is left otherwise than asked (lamports {} and {}, {} and {} bytes) (asked {asked})", a.lamports(&k), b.lamports(&k), a.data(&k).len(), b.data(&k).len()),
            );
        }
    }
    c.nontrivial(hash_str(&format!("{what} {ra:?} {}", asked.len())));
}

fn args(j: J, q: &Req) -> J {
    let j = match q.price {
        Price::Fixed(p) => j.s("price", p),
        Price::Pegged { offset, limit } => j.s("price", 0).s("offset", offset).s("pegLimit", limit),
    };
    j.raw("side", q.side)
        .s("maxBase", q.max_base)
        .s("maxQuote", q.max_quote)
        .s("client", q.client)
        .raw("otype", q.otype)
        .s("expiry", q.expiry)
        .raw("stb", q.stb)
        .raw("limit", q.limit)
}

fn multis(v: &[Multi]) -> String {
    let l: Vec<String> = v.iter().map(|m| format!("{{\"price\":\"{}\",\"maxQuote\":\"{}\",\"expiry\":\"{}\"}}", m.price, m.max_quote, m.expiry)).collect();
    format!("[{}]", l.join(","))
}

/// The client's way of asking for an operation, if it has one.
fn translate(h: &Hist, s: &Snap, op: &Op) -> Option<Pair> {
    let mk = &h.w.mk;
    let mut op = op.clone();
    // who holds the wallet and who is passed as delegate
    let who = |oo: &Pubkey, signer: &Pubkey| -> Option<(Pubkey, Option<Pubkey>)> {
        let o = s.oos.get(oo)?;
        if o.owner == *signer {
            Some((*signer, None))
        } else {
            Some((o.owner, Some(*signer)))
        }
    };
    let mut hands = vec![];
    hands.extend(mk.oo_admin);
    hands.extend(mk.ce_admin);
    let (what, wallet, req): (&'static str, Pubkey, J) = match &mut op {
        Op::Place { oo, signer, wallet, req, rem } => {
            let (w, d) = who(oo, signer)?;
            let pegged = matches!(req.price, Price::Pegged { .. });
            if pegged && rem.len() > 20 {
                return None;
            }
            let name = if pegged { "placePegged" } else { "place" };
            let j = J::build(name).k("oo", oo).k("from", wallet).ks("rem", rem).ok("delegate", d).ok("admin", mk.oo_admin);
            (name, w, args(j, req))
        }
        Op::Take { signer, payer, base, quote, req, rem } => {
            let d = if signer == payer { None } else { Some(*signer) };
            let j = J::build("take").k("base", base).k("quote", quote).ks("rem", rem).ok("delegate", d).ok("admin", mk.oo_admin);
            req.client = 0;
            req.stb = 0;
            req.expiry = 0;
            ("take", *payer, args(j, req))
        }
        Op::Batch { oo, signer, base, quote, cancel, otype, bids, asks, limit, rem } => {
            let (w, d) = who(oo, signer)?;
            rem.clear();
            let j = J::build("batch")
                .k("oo", oo)
                .k("base", base)
                .k("quote", quote)
                .ok("delegate", d)
                .ok("admin", mk.oo_admin)
                .raw("cancel", *cancel)
                .raw("otype", *otype)
                .raw("bids", multis(bids))
                .raw("asks", multis(asks))
                .raw("limit", *limit);
            (if *cancel { "cancelAndBatch" } else { "batch" }, w, j)
        }
        Op::CancelId { oo, signer, id } => {
            let (w, d) = who(oo, signer)?;
            ("cancelId", w, J::build("cancelId").k("oo", oo).s("id", id).ok("delegate", d))
        }
        Op::CancelClient { oo, signer, client } => {
            let (w, d) = who(oo, signer)?;
            ("cancelClient", w, J::build("cancelClient").k("oo", oo).s("id", client).ok("delegate", d))
        }
        Op::CancelAll { oo, signer, side, limit } => {
            let (w, d) = who(oo, signer)?;
            let j = J::build("cancelAll").k("oo", oo).raw("limit", *limit).ok("delegate", d);
            let j = match side {
                Some(x) => j.raw("side", x),
                None => j,
            };
            ("cancelAll", w, j)
        }
        Op::Consume { limit, given, rem } => match given {
            None => ("consume", h.w.payer, J::build("consume").s("limit", limit).ks("rem", rem)),
            Some(g) => ("consumeGiven", h.w.payer, J::build("consumeGiven").ss("slots", g).ks("rem", rem)),
        },
        Op::Deposit { oo, payer, base_acc, quote_acc, base, quote, refill: false } => {
            if s.oos.get(oo)?.owner != *payer {
                return None;
            }
            ("deposit", *payer, J::build("deposit").k("oo", oo).k("base", base_acc).k("quote", quote_acc).s("baseAmount", base).s("quoteAmount", quote))
        }
        Op::Settle { oo, signer, payer, base, quote, referrer, expired: false } => {
            let (w, d) = who(oo, signer)?;
            hands.push(*payer);
            (
                "settle",
                w,
                J::build("settle").k("oo", oo).k("base", base).k("quote", quote).ok("referrer", *referrer).k("payer", payer).ok("delegate", d),
            )
        }
        Op::Prune { oo, limit } => {
            let a = mk.cm_admin?;
            ("prune", h.w.payer, J::build("prune").k("oo", oo).raw("limit", *limit).k("closer", &a))
        }
        _ => return None,
    };
    Some(Pair {
        what,
        req: req.k("wallet", &wallet).k("market", &mk.key),
        wallet,
        hands,
        want: vec![own(mk.build(&op))],
    })
}

/// Instructions for whatever a history asks.
pub fn building(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0xACE1));
    let no_pegged = r.chance(1, 2);
    let mut p = profile(&mut r, no_pegged);
    p.w[5] = 20;
    p.w[7] = 10;
    p.w[8] = 12;
    p.w[10] = 5;
    p.w[6] = 12;
    if r.chance(1, 3) {
        p.expires = Some(60);
        p.w[16] = 15;
    }
    let deep = no_pegged && r.chance(1, 4);
    if r.chance(1, 4) {
        p.admins = true;
    }
    if deep {
        p.admins = false;
        p.oos = 1;
        p.users = 1 + r.idx(2);
        p.w[10] = 8;
    }
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    if deep && h.prefill(c, [*r.pick(&[0, 20, 24]), 24], 0, 0).is_none() {
        return;
    }
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    reset(c.seed);
    let steps = r.range(20, 60) as usize;
    for i in 0..steps {
        c.step = i;
        let op = match h.gen(&s) {
            Some(op) => op,
            None => {
                s = match h.w.snap() {
                    Ok(s) => s,
                    Err(_) => return,
                };
                continue;
            }
        };
        if r.chance(1, 2) {
            if let Some(p) = translate(&h, &s, &op) {
                tell(&h.w.bank);
                judge(c, &h.w.bank, p);
                if c.failed() {
                    return;
                }
            }
        }
        if r.chance(1, if deep { 4 } else { 12 }) {
            tell(&h.w.bank);
            other(c, &mut h, &s, &mut r, no_pegged, deep);
            if c.failed() {
                return;
            }
        }
        s = match h.step(c, &op, &s) {
            Some(s) => s,
            None => return,
        };
    }
}

/// The calls that have no counterpart among the operations of a history.
fn other(c: &mut Case, h: &mut Hist, s: &Snap, r: &mut Rng, no_pegged: bool, deep: bool) {
    let mk = h.w.mk.clone();
    let market = mk.key;
    let accounts: Vec<Pubkey> = s.oos.keys().copied().collect();
    let mut oo = *r.pick(&accounts);
    let mut kind = r.below(if no_pegged { 12 } else { 8 });
    if deep && r.chance(1, 2) {
        kind = *r.pick(&[8, 11]);
    }
    if kind == 11 {
        // rather one with rebates or many orders, and a delegate
        let worth = |o: &OpenOrders| (o.delegate.is_some(), o.referrer_rebates > 0, o.slots.iter().filter(|x| x.used).count());
        let other = *r.pick(&accounts);
        if worth(&s.oos[&other]) > worth(&s.oos[&oo]) {
            oo = other;
        }
    }
    let owner = s.oos[&oo].owner;
    match kind {
        0 => {
            // someone new, or a trader with accounts already
            let mut bank = h.w.bank.clone();
            let user = if r.chance(1, 2) { owner } else { h.w.key() };
            bank.fund(user, 1_000_000_000);
            let payer = if r.chance(1, 2) { user } else { h.w.payer };
            let delegate = if r.chance(1, 2) { Some(h.w.users[0].key) } else { None };
            if r.chance(1, 2) {
                // accounts opened and closed before still count
                let num = indexer(&bank, &indexer_address(&user)).map(|x| x.0 + 1).unwrap_or(1);
                if num > 1 && bank.exec(&create_oo_ix(h.w.payer, user, None, num, market, "old").ix).ok() {
                    let o = bank.exec(&close_oo_ix(user, oo_address(&user, num), user).ix);
                    c.count_n("accounts opened after one was closed", o.ok() as u64);
                }
            }
            let num = indexer(&bank, &indexer_address(&user)).map(|x| x.0);
            let name = *r.pick(&["", "acc", "Ünïcödé ✓", "a name as long as is possible: 32"]);
            let name: String = name.chars().take(20).collect();
            let mut want = vec![];
            if num.is_none() {
                want.push(own(create_indexer_ix(payer, user)));
            }
            want.push(own(create_oo_ix(payer, user, delegate, num.unwrap_or(0) + 1, market, &name)));
            tell(&bank);
            let direct = r.chance(1, 2);
            let what = if direct { "sendCreateOo" } else { "createOo" };
            // the one who pays need not be the one who runs the client
            let wallet = if direct && r.chance(1, 2) { h.w.payer } else { payer };
            let mut j = J::build(what).k("wallet", &wallet).k("market", &market).s("name", &name).ok("newDelegate", delegate);
            if direct {
                j = j.k("oo", &oo).k("payer", &payer);
                if payer != user {
                    j = j.k("owner", &user);
                }
                if wallet != payer {
                    c.count("accounts opened at the expense of another than the wallet");
                }
            } else {
                j = j.k("owner", &user);
            }
            if direct && num.is_none() && r.chance(1, 3) {
                c.count("accounts opened by newcomers");
            }
            judge(c, &bank, Pair { what, req: j, wallet, hands: vec![user, payer], want });
        }
        1 if h.w.params.native == 1 && r.chance(2, 3) => {
            // lamports straight into the market
            let mut bank = h.w.bank.clone();
            let u = match h.w.users.iter().find(|u| u.key == owner) {
                Some(u) => u.clone(),
                None => return,
            };
            bank.fund(owner, 1 << 40);
            let (base, quote) = (*r.pick(&[0, 1, 1_000_000, 1 << 38, 1 << 41]), r.below(bank.token_amount(&u.quote).min(1 << 40) + 2));
            let tmp = h.w.key();
            let meta = |key: Pubkey, signer: bool, writable: bool| Meta { key, signer, writable };
            let mut create = vec![0u8; 52];
            create[4..12].copy_from_slice(&(base + 10_000_000u64).to_le_bytes());
            create[12] = 165;
            create[20..].copy_from_slice(spl_token::ID.as_ref());
            let mut init = vec![18u8];
            init.extend_from_slice(owner.as_ref());
            let op = Op::Deposit { oo, payer: owner, base_acc: tmp, quote_acc: u.quote, base, quote, refill: false };
            let want = vec![
                TopIx { program: system_program::ID, ix: Ix { metas: vec![meta(owner, true, true), meta(tmp, true, true)], data: create } },
                TopIx { program: spl_token::ID, ix: Ix { metas: vec![meta(tmp, false, true), meta(mk.base_mint, false, false)], data: init } },
                own(mk.build(&op)),
                TopIx { program: spl_token::ID, ix: Ix { metas: vec![meta(tmp, false, true), meta(owner, false, true), meta(owner, true, false)], data: vec![9] } },
            ];
            tell(&bank);
            let j = J::build("depositNative").k("wallet", &owner).k("market", &market).k("oo", &oo).k("base", &u.base).k("quote", &u.quote).s("baseAmount", base).s("quoteAmount", quote);
            judge(c, &bank, Pair { what: "depositNative", req: j, wallet: owner, hands: vec![], want });
        }
        1 => {
            if r.chance(1, 3) {
                let user = h.w.key();
                let mut bank = h.w.bank.clone();
                bank.fund(user, 1_000_000_000);
                tell(&bank);
                let want = vec![own(create_indexer_ix(user, user))];
                let j = J::build("sendCreateIndexer").k("wallet", &user);
                return judge(c, &bank, Pair { what: "sendCreateIndexer", req: j, wallet: user, hands: vec![], want });
            }
            let user = h.w.key();
            let payer = h.w.payer;
            let want = vec![own(create_indexer_ix(payer, user))];
            let j = J::build("createIndexer").k("wallet", &payer).k("market", &market).k("owner", &user);
            judge(c, &h.w.bank, Pair { what: "createIndexer", req: j, wallet: payer, hands: vec![user], want });
        }
        2 => {
            let to = *r.pick(&[owner, h.w.payer]);
            let want = vec![own(close_oo_ix(owner, oo, to))];
            // an account that holds nothing can be closed
            let mut bank = h.w.bank.clone();
            if r.chance(2, 3) {
                let a = bank.accounts.get_mut(&oo).unwrap();
                let fresh = World::new(h.w.params.clone(), 1, 0, 0);
                if let Ok(fw) = fresh {
                    let d = fw.bank.data(&fw.users[0].oos[0]);
                    let keep = a.data[..8 + 32 + 32 + 32 + 32 + 4 + 4].to_vec();
                    a.data = d.to_vec();
                    a.data[..keep.len()].copy_from_slice(&keep);
                }
            }
            tell(&bank);
            let j = J::build("closeOo").k("wallet", &h.w.payer).k("market", &market).k("owner", &owner).k("oo", &oo).k("to", &to);
            judge(c, &bank, Pair { what: "closeOo", req: j, wallet: h.w.payer, hands: vec![], want });
        }
        3 => {
            let mut bank = h.w.bank.clone();
            let user = if r.chance(1, 3) { owner } else { h.w.key() };
            bank.fund(user, 1_000_000_000);
            bank.exec(&create_indexer_ix(h.w.payer, user).ix);
            let want = vec![own(close_indexer_ix(user, user))];
            tell(&bank);
            let j = J::build("closeIndexer").k("wallet", &user).k("market", &market).k("owner", &user);
            judge(c, &bank, Pair { what: "closeIndexer", req: j, wallet: user, hands: vec![], want });
        }
        4 | 5 => {
            // handling the events of one account
            let n = s.heap.events.iter().filter(|x| x.1.account() == oo).count();
            let j = J::build("consumeFor").k("wallet", &h.w.payer).k("market", &market).k("oo", &oo);
            c.eval();
            if n > 8 || n == 0 {
                return;
            }
            let m = match ask(j) {
                Ok(v) => made(v),
                Err(e) => return c.violate("consumeFor/fails", format!("consumeFor: the client fails: {e}")),
            };
            let allowed: Vec<Pubkey> = mk.ce_admin.into_iter().chain([h.w.payer]).collect();
            for t in &m.ixs {
                for x in t.ix.metas.iter().filter(|x| x.signer) {
                    if !allowed.contains(&x.key) {
                        return c.violate("consumeFor/signer", format!("consumeFor: wants a signature of {} which nobody concerned can give", x.key));
                    }
                }
            }
            let mut w = h.w.clone();
            let res = run_all(&mut w.bank, &m.ixs);
            c.count("consumeFor");
            let left = match w.snap() {
                Ok(s) => s.heap.events.iter().filter(|x| x.1.account() == oo).count(),
                Err(_) => return,
            };
            if let Err(e) = res {
                return c.violate("consumeFor/verdict", format!("handling the {n} events of {oo} gives {e}"));
            }
            if left != 0 {
                c.violate("consumeFor/effect", format!("of {n} events of {oo} {left} are left"));
            }
            c.nontrivial(hash_str(&format!("consumeFor {n}")));
        }
        6 => {
            // a new market
            let mut p = rand_params(r);
            p.name = (*r.pick(&["SOL-USDC", "A", "Ünï", ""])).into();
            p.staleness = if r.chance(1, 2) { Some(r.below(1000) as u32) } else { None };
            p.conf_filter = *r.pick(&[0.1f32, 0.5, 0.25]);
            p.expiry = if r.chance(1, 4) { h.w.bank.ts + 100 } else { 0 };
            let mut w = h.w.clone();
            let (bm, qm) = (mk.base_mint, mk.quote_mint);
            let (mut p, pre) = (p, w.bank.clone());
            p.base_decimals = h.w.params.base_decimals;
            p.quote_decimals = h.w.params.quote_decimals;
            let mut nk = w.new_market_keys(bm, qm, &p);
            // the oracles stay, the book accounts are made by the client
            let mut bank = w.bank.clone();
            for k in [nk.bids, nk.asks, nk.heap] {
                bank.accounts.remove(&k);
            }
            let _ = pre;
            let payer = h.w.payer;
            let collect = if r.chance(1, 2) { Some(nk.collect_admin) } else { None };
            nk.collect_admin = collect.unwrap_or(payer);
            tell(&bank);
            let nul = |j: J, n: &str, k: Option<Pubkey>| j.ok(n, k);
            let mut j = J::build("createMarket")
                .k("wallet", &payer)
                .k("payer", &payer)
                .s("name", &p.name)
                .k("quoteMint", &qm)
                .k("baseMint", &bm)
                .s("qls", p.qls)
                .s("bls", p.bls)
                .s("makerFee", p.maker_fee)
                .s("takerFee", p.taker_fee)
                .s("expiry", p.expiry)
                .raw("confFilter", p.conf_filter)
                .raw("staleness", p.staleness.map(|x| x.to_string()).unwrap_or("null".into()))
                .k("newMarket", &nk.key);
            for (n, k) in [("oracleA", nk.oracle_a), ("oracleB", nk.oracle_b), ("ooAdmin", nk.oo_admin), ("ceAdmin", nk.ce_admin), ("cmAdmin", nk.cm_admin), ("collectAdmin", collect)] {
                j = nul(j, n, k);
            }
            create_market(c, &bank, j, payer, nk, &p);
        }
        7 => {
            // closing the market: refused while it is in use, so wind it down at times
            let mut bank = h.w.bank.clone();
            let a = match mk.cm_admin {
                Some(a) => a,
                None => return,
            };
            if r.chance(2, 3) {
                let mut p = h.w.params.clone();
                p.expiry = h.w.bank.ts + 1;
                let mut w = h.w.clone();
                let nk = w.new_market_keys(mk.base_mint, mk.quote_mint, &p);
                w.bank.exec(&create_market_ix(w.payer, &nk, &p).ix);
                let closer = match nk.cm_admin {
                    Some(k) => k,
                    None => return,
                };
                w.bank.ts += 5;
                tell(&w.bank);
                let want = vec![own(nk.close_ix(h.w.payer))];
                let j = J::build("closeMarket").k("wallet", &h.w.payer).k("market", &nk.key).k("to", &h.w.payer).k("closer", &closer);
                judge(c, &w.bank, Pair { what: "closeMarket", req: j, wallet: h.w.payer, hands: vec![], want });
                return;
            }
            bank.fund(a, 1);
            tell(&bank);
            let want = vec![own(mk.close_ix(h.w.payer))];
            let j = J::build("closeMarket").k("wallet", &h.w.payer).k("market", &market).k("to", &h.w.payer).k("closer", &a);
            judge(c, &bank, Pair { what: "closeMarket", req: j, wallet: h.w.payer, hands: vec![], want });
        }
        // ---- the calls that also send
        8 => {
            // placing with the numbers of display
            let mut bank = h.w.bank.clone();
            let u = units(&s.m);
            let side = r.below(2) as u8;
            let otype = *r.pick(&[0u8, 1, 2, 3, 4, 5]);
            let mut through = false;
            let (mut price, mut size) = (h.centre.saturating_add(r.range(-5, 5)).max(1), r.range(1, 40));
            if deep && r.chance(2, 3) {
                // through everything
                price = if side == 0 { h.centre * 2 + 50 } else { 1 };
                size = r.range(60, 400);
                through = true;
            }
            if !tells_apart(price, price_whole(&s.m), u.tick) || !tells_apart(size, s.m.bls as f64, u.base_lot) {
                return c.count("not expressible in units of display");
            }
            let delegate = s.oos[&oo].delegate.filter(|_| r.chance(1, 2));
            let signer = delegate.unwrap_or(owner);
            let mint = if side == 0 { mk.quote_mint } else { mk.base_mint };
            let from = ata_address(&owner, &mint);
            bank.add_token(from, mint, if r.chance(4, 5) { owner } else { signer }, if side == 0 { s.m.qls as u64 * 4_000_000 } else { s.m.bls as u64 * 1000 });
            let book = r.chance(2, 3);
            let mut rem: Vec<Pubkey> = vec![];
            if book && otype != 2 && otype != 4 {
                for l in best_first(s, 1 - side) {
                    // the account itself is there already
                    if l.owner == oo {
                        c.count("own orders on the other side");
                    } else if !rem.contains(&l.owner) {
                        rem.push(l.owner);
                        if rem.len() >= 3 {
                            break;
                        }
                    }
                }
            }
            let limit = if through { 17 + r.below(60) } else { 1 + r.below(30) } as u8;
            let expiry = if r.chance(1, 3) { h.w.bank.ts as u64 + r.below(40) } else { 0 };
            let stb = r.below(3) as u8;
            let client = r.below(1000) * r.below(4).min(1);
            let quote_limit = match r.below(12) {
                0 => Some(0),
                1..=4 => Some((price as i128 * size as i128 * 2).min(1 << 40) as i64),
                _ => None,
            };
            c.count(if quote_limit.is_none() && s.m.qls > 1 { "placed without a quote limit, lots of several" } else { "placed" });
            let req = Req {
                side,
                price: Price::Fixed(price),
                max_base: size,
                // without a limit, as much as a market takes
                max_quote: quote_limit.unwrap_or(i64::MAX / s.m.qls),
                client,
                otype,
                expiry,
                stb,
                limit,
            };
            let want = vec![own(mk.build(&Op::Place { oo, signer, wallet: from, req, rem }))];
            tell(&bank);
            let mut j = J::build("sendPlace")
                .k("wallet", &owner)
                .k("market", &market)
                .k("oo", &oo)
                .ok("delegate", delegate)
                .raw("book", book)
                .raw("side", side)
                .s("price", price)
                .s("maxBase", size)
                .raw("client", client)
                .raw("otype", otype)
                .raw("expiry", expiry)
                .raw("stb", stb)
                .raw("limit", limit);
            if let Some(q) = quote_limit {
                j = j.raw("quoteLimit", q);
            }
            if r.chance(1, 3) {
                j = j.raw("fee", 1000);
            }
            let hands = mk.oo_admin.into_iter().collect();
            c.count_n("placed against more than 16 orders", (limit > 16 && through && s.side(1 - side).trees[0].len() > 16) as u64);
            if mk.oo_admin.is_some() {
                // the sending calls have no way to pass the admin's signature
                return;
            }
            judge(c, &bank, Pair { what: "sendPlace", req: j, wallet: owner, hands, want });
        }
        9 | 10 => {
            let mine: Vec<Slot> = s.oos[&oo].slots.iter().filter(|x| x.used && s.side(x.side_tree % 2).trees[0].iter().any(|l| l.key == x.id)).cloned().collect();
            if mine.is_empty() {
                return;
            }
            let sl = r.pick(&mine).clone();
            let delegate = s.oos[&oo].delegate.filter(|_| r.chance(1, 2));
            let signer = delegate.unwrap_or(owner);
            let j = |w: &str| J::build(w).k("wallet", &owner).k("market", &market).k("oo", &oo).ok("delegate", delegate).raw("book", true);
            let pair = if kind == 9 {
                Pair {
                    what: "sendCancel",
                    req: j("sendCancel").s("id", sl.id),
                    wallet: owner,
                    hands: vec![],
                    want: vec![own(mk.build(&Op::CancelId { oo, signer, id: sl.id }))],
                }
            } else {
                if sl.client >= 1 << 53 {
                    return;
                }
                Pair {
                    what: "sendCancelClient",
                    req: j("sendCancelClient").raw("client", sl.client),
                    wallet: owner,
                    hands: vec![],
                    want: vec![own(mk.build(&Op::CancelClient { oo, signer, client: sl.client }))],
                }
            };
            judge(c, &h.w.bank, pair);
        }
        _ => {
            let mut bank = h.w.bank.clone();
            let delegate = s.oos[&oo].delegate.filter(|_| r.chance(1, 2));
            let signer = delegate.unwrap_or(owner);
            bank.fund(signer, 1_000_000_000);
            let (b, q) = (ata_address(&owner, &mk.base_mint), ata_address(&owner, &mk.quote_mint));
            if r.chance(1, 2) {
                bank.add_token(b, mk.base_mint, owner, 5);
            }
            if r.chance(1, 2) {
                bank.add_token(q, mk.quote_mint, owner, 5);
            }
            let friend = if r.chance(1, 2) { Some(h.w.key()) } else { None };
            let side = *r.pick(&[None, Some(0u8), Some(1)]);
            let o = &s.oos[&oo];
            c.count_n("all of a full account cancelled", (side.is_none() && o.slots.iter().all(|x| x.used)) as u64);
            c.count_n("settled by the delegate for a referrer", (delegate.is_some() && friend.is_some() && o.referrer_rebates > 0) as u64);
            tell(&bank);
            let mut j = J::build("sendCancelAll").k("wallet", &owner).k("market", &market).k("oo", &oo).ok("delegate", delegate).ok("referrerWallet", friend);
            if let Some(x) = side {
                j = j.raw("side", x);
            }
            let ata = |who: &Pubkey, mint: &Pubkey| TopIx {
                program: ATA_PROGRAM,
                ix: Ix {
                    data: vec![1],
                    metas: vec![
                        Meta { key: signer, signer: true, writable: true },
                        Meta { key: ata_address(who, mint), signer: false, writable: true },
                        Meta { key: *who, signer: false, writable: false },
                        Meta { key: *mint, signer: false, writable: false },
                    ],
                },
            };
            let mut want = vec![own(mk.build(&Op::CancelAll { oo, signer, side, limit: 24 })), ata(&owner, &mk.base_mint), ata(&owner, &mk.quote_mint)];
            if let Some(k) = &friend {
                want.push(ata(k, &mk.quote_mint));
            }
            want.push(own(mk.build(&Op::Settle {
                oo,
                signer,
                payer: signer,
                base: b,
                quote: q,
                referrer: friend.map(|k| ata_address(&k, &mk.quote_mint)),
                expired: false,
            })));
            judge(c, &bank, Pair { what: "sendCancelAll", req: j, wallet: owner, hands: vec![], want });
        }
    }
}

/// The client chooses the book accounts, so what was asked is executed with the same ones.
fn create_market(c: &mut Case, bank: &Bank, j: J, payer: Pubkey, mut nk: Mk, p: &Params) {
    c.eval();
    let asked = j.0.clone();
    let m = match ask(j) {
        Ok(v) => made(v),
        Err(e) => return c.violate("createMarket/fails", format!("createMarket: the client fails: {e} (asked {asked})")),
    };
    let mut hands: BTreeSet<Pubkey> = m.signers.iter().copied().collect();
    hands.insert(payer);
    for t in &m.ixs {
        for x in t.ix.metas.iter().filter(|x| x.signer) {
            if !hands.contains(&x.key) {
                return c.violate("createMarket/signer", format!("createMarket: wants a signature of {} which nobody concerned can give", x.key));
            }
        }
    }
    let mut b = bank.clone();
    let rb = run_all(&mut b, &m.ixs);
    // which accounts became the book
    let d = b.data(&nk.key);
    if d.len() == MARKET_LEN {
        let got = market(d);
        nk.bids = got.bids;
        nk.asks = got.asks;
        nk.heap = got.event_heap;
    } else {
        // refused: any fresh accounts will do to learn whether that was right
        nk.bids = Pubkey::new_unique();
        nk.asks = Pubkey::new_unique();
        nk.heap = Pubkey::new_unique();
    }
    let mut a = bank.clone();
    let rent = solana_program::rent::Rent::default();
    for (k, len) in [(nk.bids, SIDE_LEN), (nk.asks, SIDE_LEN), (nk.heap, HEAP_LEN)] {
        if move_lamports(&mut a, &payer, &k, rent.minimum_balance(len)).is_err() {
            return;
        }
        a.add_program_account(k, len);
    }
    let ra = run_all(&mut a, &[own(create_market_ix(payer, &nk, p))]);
    c.count("createMarket");
    if ra.is_ok() {
        c.count("accepted:createMarket");
    }
    if ra != rb {
        return c.violate("createMarket/verdict", format!("createMarket: the client's instructions give {rb:?}, what was asked gives {ra:?} (asked {asked})"));
    }
    if ra.is_ok() {
        let keys: BTreeSet<Pubkey> = a.accounts.keys().chain(b.accounts.keys()).copied().collect();
        for k in keys {
            if a.get(&k) != b.get(&k) {
                return c.violate("createMarket/effect", format!("createMarket: account {k} is left otherwise than asked (asked {asked})"));
            }
        }
    }
    c.nontrivial(hash_str(&format!("createMarket {ra:?} {}", asked.len())));
}

// ---- sending

/// What reaches the node, and what the caller is told, for transactions handed to the client.
pub fn sending(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0x5E4D));
    reset(c.seed);
    for step in 0..r.range(10, 40) as usize {
        c.step = step;
        one_sent(c, &mut r);
        if c.failed() {
            return;
        }
    }
}

fn one_sent(c: &mut Case, r: &mut Rng) {
    let wallet = r.pubkey();
    let others: Vec<Pubkey> = (0..r.idx(4)).map(|_| r.pubkey()).collect();
    let strangers: Vec<Pubkey> = (0..5).map(|_| r.pubkey()).collect();
    let absent = (!others.is_empty() && r.chance(1, 8)).then(|| *r.pick(&others));
    let mut demanded: BTreeSet<Pubkey> = BTreeSet::new();
    let mut ixs: Vec<(Pubkey, Vec<u8>, Vec<(Pubkey, bool, bool)>)> = vec![];
    for i in 0..1 + r.idx(5) {
        let mut data = vec![0u8; *r.pick(&[0usize, 1, 8, 40, 300])];
        r.fill(&mut data);
        let mut keys = vec![];
        for _ in 0..r.idx(5) {
            keys.push((*r.pick(&strangers), false, r.chance(1, 2)));
        }
        for o in &others {
            // every other signer is demanded somewhere
            if i == 0 || r.chance(1, 3) {
                keys.push((*o, true, r.chance(1, 2)));
                demanded.insert(*o);
            }
        }
        if r.chance(1, 2) {
            keys.push((wallet, true, true));
        }
        ixs.push((r.pubkey(), data, keys));
    }
    let mut additional: Vec<Pubkey> = others.iter().filter(|o| Some(**o) != absent).copied().collect();
    if r.chance(1, 6) {
        additional.push(wallet);
    }
    let levels = ["processed", "confirmed", "finalized"];
    let mut level = |r: &mut Rng| r.chance(1, 2).then(|| *r.pick(&levels));
    let (pro_commit, pro_pre, cl_commit, op_commit, op_pre) = (level(r), level(r), level(r), level(r), level(r));
    let direct = r.chance(1, 3);
    let node_wallet = r.chance(1, 4);
    let bare = others.is_empty() && r.chance(1, 5);
    let fee = |r: &mut Rng| *r.pick(&[None, Some(0u64), Some(1), Some(5000), Some(1 << 32), Some((1 << 53) - 1)]);
    let (cl_fee, op_fee) = (fee(r), fee(r));
    let null_fee = op_fee.is_none() && r.chance(1, 3);
    let unset = op_fee.is_none() && !null_fee && (direct || cl_fee.unwrap_or(0) == 0) && r.chance(1, 2);
    let callback = *r.pick(&["", "ok", "throws"]);
    let given = r.chance(1, 3);
    let with_height = r.chance(2, 3);
    let (newest, old) = (format!("N{}", r.below(1000)), format!("G{}", r.below(1000)));
    let (height, old_height) = (1 + r.below(1 << 40), 1 + r.below(1 << 40));
    let tables: Vec<String> = (0..r.idx(3)).map(|i| format!("t{i}x{}", r.below(99))).collect();
    let mut fail = *r.pick(&["", "", "", "", "hash", "send", "confirm", "wallet"]);
    if (fail == "wallet" && node_wallet) || (fail == "hash" && given && !bare) {
        fail = "";
    }
    let verdict = *r.pick(&["null", "null", "null", "\"\"", "{\"InstructionError\":[0,{\"Custom\":6000}]}", "\"AccountNotFound\""]);

    let text = |v: &[(&str, Option<String>)]| {
        let l: Vec<String> = v.iter().filter_map(|(k, x)| x.as_ref().map(|x| format!("\"{k}\":{x}"))).collect();
        format!("{{{}}}", l.join(","))
    };
    let q = |x: Option<&str>| x.map(|x| format!("\"{x}\""));
    let list: Vec<String> = ixs
        .iter()
        .map(|(p, d, k)| {
            let keys: Vec<String> = k.iter().map(|(k, s, w)| format!("[\"{}\",{},{}]", kx(k), *s as u8, *w as u8)).collect();
            format!("{{\"program\":\"{}\",\"data\":\"{}\",\"keys\":[{}]}}", kx(p), hex(d), keys.join(","))
        })
        .collect();
    let opts = text(&[
        ("prioritizationFee", if null_fee { Some("null".into()) } else { op_fee.map(|f| f.to_string()) }),
        ("txConfirmationCommitment", q(op_commit)),
        ("preflightCommitment", q(op_pre)),
        ("latestBlockhash", given.then(|| if with_height { format!("{{\"blockhash\":\"{old}\",\"lastValidBlockHeight\":{old_height}}}") } else { format!("{{\"blockhash\":\"{old}\"}}") })),
    ]);
    let mut j = J::new("send")
        .k("wallet", &wallet)
        .s("walletKind", if node_wallet { "node" } else { "function" })
        .raw("direct", direct)
        .raw("bare", bare)
        .raw("unset", unset)
        .raw("ixs", format!("[{}]", list.join(",")))
        .raw("opts", opts)
        .raw("client", text(&[("prioritizationFee", cl_fee.map(|f| f.to_string())), ("txConfirmationCommitment", q(cl_commit))]))
        .raw("provider", text(&[("commitment", q(pro_commit)), ("preflightCommitment", q(pro_pre))]))
        .s("callback", callback)
        .s("fail", fail)
        .raw("verdict", verdict)
        .s("newest", &newest)
        .raw("height", height)
        .ss("tables", &tables);
    if !additional.is_empty() {
        j = j.ks("additional", &additional);
    }
    let got = match ask(j) {
        Ok(v) => v,
        Err(e) => return c.violate("send/fails", format!("sending fails: {e}")),
    };

    // what ought to happen
    let given = given && !bare;
    let op = |x: Option<&'static str>| if bare { None } else { x };
    let micro = match (direct, bare) {
        (true, true) => 0,
        (true, false) => op_fee.unwrap_or(0),
        (false, true) => cl_fee.unwrap_or(0),
        (false, false) if null_fee || unset => 0,
        (false, false) => op_fee.or(cl_fee).unwrap_or(0),
    };
    let mut want: Lines = vec![];
    let line = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let mut threw = None;
    let hash = if given { &old } else { &newest };
    if !given {
        want.push(line(&["hash", op(op_pre).or(pro_pre).unwrap_or("finalized")]));
        if fail == "hash" {
            threw = Some("-".to_string());
        }
    }
    if threw.is_none() && (fail == "wallet" || absent.map_or(false, |a| demanded.contains(&a))) {
        threw = Some("-".to_string());
        c.count("not signed");
    }
    let called = !callback.is_empty() && !(direct && bare);
    if threw.is_none() {
        let mut signers: Vec<String> = demanded.iter().map(kx).collect();
        signers.push(kx(&wallet));
        signers.sort();
        let tables_ = if !direct && bare { "-".to_string() } else { tables.join("+") };
        let mut t = line(&["tx", &kx(&wallet), hash, if tables_.is_empty() { "-" } else { &tables_ }]);
        t.extend(signers);
        want.push(t);
        if micro > 0 {
            let mut d = vec![3u8];
            d.extend(micro.to_le_bytes());
            want.push(line(&["ix", &kx(&COMPUTE_BUDGET), &hex(&d)]));
            c.count("sent with a priority fee");
        }
        for (p, d, k) in &ixs {
            let mut l = line(&["ix", &kx(p)]);
            l.push(if d.is_empty() { "-".into() } else { hex(d) });
            l.extend(k.iter().map(|(k, s, w)| format!("{}:{}{}", kx(k), *s as u8, *w as u8)));
            want.push(l);
        }
        if fail == "send" {
            threw = Some("-".to_string());
            c.count("refused by the node");
        } else {
            if called {
                want.push(line(&["callback", "signature0"]));
                c.count(if callback == "throws" { "callback failed" } else { "callback told" });
            }
            let commit = op(op_commit).or(if direct { None } else { cl_commit.or(pro_commit) }).unwrap_or("processed");
            let height = if given { old_height } else { height }.to_string();
            want.push(if given && !with_height { line(&["confirm", "signature0", "-", "-", commit]) } else { line(&["confirm", "signature0", hash, &height, commit]) });
            if fail == "confirm" {
                threw = Some("-".to_string());
                c.count("never confirmed");
            } else if verdict != "null" && verdict != "\"\"" {
                threw = Some("signature0".to_string());
                c.count("failed on chain");
            }
        }
    }
    match &threw {
        Some(t) => want.push(line(&["threw", t])),
        None => want.push(line(&["result", "signature0"])),
    }
    want.push(line(&["given", "same"]));
    let got: Lines = got
        .into_iter()
        .map(|mut l| {
            if l[0] == "threw" {
                l.truncate(2);
                // only a transaction that failed on chain has an id to tell
                if threw.as_deref() == Some("-") {
                    l[1] = "-".into();
                }
            }
            if l[0] == "tx" {
                l[4..].sort();
            }
            l
        })
        .collect();
    c.eval();
    c.count(if threw.is_some() { "told as an error" } else { "sent and confirmed" });
    c.count_n("given blockhash used", given as u64);
    c.count_n("sent without options", bare as u64);
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let none = vec![];
        c.violate(&format!("send/{}", want.get(i).or(got.get(i)).map_or("", |l| l[0].as_str())), format!("sending: {:?} where {:?} was to happen", got.get(i).unwrap_or(&none), want.get(i).unwrap_or(&none)));
    }
    c.nontrivial(hash_str(&format!("{direct} {bare} {micro} {} {} {fail} {verdict} {callback} {given} {with_height} {node_wallet} {:?}", ixs.len(), others.len(), (op_commit, op_pre, cl_commit, pro_commit, pro_pre))));
}
