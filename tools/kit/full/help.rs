//! Short forms for the scenarios below.
use crate::layout::{self, OpenOrders};
use crate::svm::{install, Outcome};
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub fn params(maker_fee: i64, taker_fee: i64) -> Params {
    Params {
        name: "SOL-USDC".into(),
        qls: 10,
        bls: 100,
        maker_fee,
        taker_fee,
        expiry: 0,
        conf_filter: 0.1,
        staleness: None,
        base_decimals: 6,
        quote_decimals: 6,
        oracles: 1,
        admins: (false, false, true),
    }
}

pub fn start(p: Params, users: usize) -> World {
    install();
    let mut w = World::new(p, users, 1_000_000_000_000, 1_000_000_000_000).unwrap();
    w.bank.ts = w.bank.ts.max(1_000_000);
    w
}

/// a limit order
pub fn req(side: u8, price: i64, base: i64) -> Req {
    Req { side, price: Price::Fixed(price), max_base: base, max_quote: base * price * 3 + 1000, client: 1, otype: 0, expiry: 0, stb: 0, limit: 30 }
}

pub fn acc(w: &World, u: usize) -> Pubkey {
    w.users[u].oos[0]
}

pub fn makers(w: &World, m: &[usize]) -> Vec<Pubkey> {
    m.iter().map(|u| acc(w, *u)).collect()
}

pub fn exec(w: &mut World, op: &Op) -> Outcome {
    let b = w.mk.build(op);
    w.bank.exec(&b.ix)
}

pub fn place(w: &mut World, u: usize, req: Req, m: &[usize]) -> Outcome {
    let wallet = if req.side == 0 { w.users[u].quote } else { w.users[u].base };
    let op = Op::Place { oo: acc(w, u), signer: w.users[u].key, wallet, req, rem: makers(w, m) };
    exec(w, &op)
}

pub fn take(w: &mut World, u: usize, mut req: Req, m: &[usize]) -> Outcome {
    req.otype = if req.otype == 0 { 1 } else { req.otype };
    let k = w.users[u].clone();
    let op = Op::Take { signer: k.key, payer: k.key, base: k.base, quote: k.quote, req, rem: makers(w, m) };
    exec(w, &op)
}

pub fn crank(w: &mut World, m: &[usize]) -> Outcome {
    let op = Op::Consume { limit: 8, given: None, rem: makers(w, m) };
    exec(w, &op)
}

pub fn settle(w: &mut World, u: usize, referrer: Option<Pubkey>) -> Outcome {
    let k = w.users[u].clone();
    let op = Op::Settle { oo: acc(w, u), signer: k.key, payer: k.key, base: k.base, quote: k.quote, referrer, expired: false };
    exec(w, &op)
}

pub fn cancel_all(w: &mut World, u: usize, side: Option<u8>, limit: u8) -> Outcome {
    let op = Op::CancelAll { oo: acc(w, u), signer: w.users[u].key, side, limit };
    exec(w, &op)
}

pub fn oo(w: &World, u: usize) -> OpenOrders {
    layout::open_orders(w.bank.data(&acc(w, u)))
}

pub fn market(w: &World) -> layout::Market {
    layout::market(w.bank.data(&w.mk.key))
}

pub fn heap(w: &World) -> layout::Heap {
    layout::heap(w.bank.data(&w.mk.heap), true).unwrap()
}

pub fn side(w: &World, s: u8) -> layout::Side {
    layout::side(w.bank.data(if s == 0 { &w.mk.bids } else { &w.mk.asks }), true).unwrap()
}
