//! A market with traders, and the instructions that can be sent to it.

use crate::layout::{self, Snap};
use crate::rng::Rng;
use crate::svm::*;
use anchor_lang::InstructionData;
use openbook_v2::instruction as ixs;
use openbook_v2::state::*;
use openbook_v2::{PlaceMultipleOrdersArgs, PlaceOrderArgs, PlaceOrderPeggedArgs, PlaceTakeOrderArgs};
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::BTreeMap;

pub const NONE: Pubkey = solana_program::pubkey!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");

pub fn disc(kind: &str, name: &str) -> [u8; 8] {
    let h = solana_program::hash::hashv(&[kind.as_bytes(), b":", name.as_bytes()]);
    h.to_bytes()[..8].try_into().unwrap()
}

#[derive(Clone, Debug)]
pub struct User {
    pub key: Pubkey,
    pub base: Pubkey,
    pub quote: Pubkey,
    pub indexer: Pubkey,
    /// open orders accounts on this market
    pub oos: Vec<Pubkey>,
    pub counter: u32,
    /// a second pair of token accounts
    pub base2: Pubkey,
    pub quote2: Pubkey,
}

#[derive(Clone, Debug, Default)]
pub struct Mk {
    pub key: Pubkey,
    pub authority: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub heap: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub oracle_a: Option<Pubkey>,
    pub oracle_b: Option<Pubkey>,
    pub collect_admin: Pubkey,
    pub oo_admin: Option<Pubkey>,
    pub ce_admin: Option<Pubkey>,
    pub cm_admin: Option<Pubkey>,
}

#[derive(Clone, Debug)]
pub struct Params {
    pub name: String,
    pub qls: i64,
    pub bls: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub expiry: i64,
    pub conf_filter: f32,
    pub staleness: Option<u32>,
    pub base_decimals: u8,
    pub quote_decimals: u8,
    pub oracles: u8,
    pub admins: (bool, bool, bool),
    /// 1 or 2 when base or quote is wrapped SOL
    pub native: u8,
}

#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    pub users: Vec<User>,
    pub mk: Mk,
    pub params: Params,
    pub payer: Pubkey,
    pub keyno: u64,
    /// token accounts that may receive referrer rebates
    pub referrers: Vec<Pubkey>,
    pub fee_receiver: Pubkey,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Price {
    Fixed(i64),
    Pegged { offset: i64, limit: i64 },
}

/// order types: 0 limit, 1 immediate-or-cancel, 2 post-only, 3 market, 4 post-only-slide, 5 fill-or-kill
#[derive(Clone, Debug)]
pub struct Req {
    pub side: u8,
    pub price: Price,
    pub max_base: i64,
    pub max_quote: i64,
    pub client: u64,
    pub otype: u8,
    pub expiry: u64,
    pub stb: u8,
    pub limit: u8,
}

#[derive(Clone, Debug)]
pub struct Multi {
    pub price: i64,
    pub max_quote: i64,
    pub expiry: u64,
}

#[derive(Clone, Debug)]
pub enum Op {
    Place { oo: Pubkey, signer: Pubkey, wallet: Pubkey, req: Req, rem: Vec<Pubkey> },
    Edit { oo: Pubkey, signer: Pubkey, wallet: Pubkey, cancel: u64, expected: i64, req: Req, rem: Vec<Pubkey> },
    Batch { oo: Pubkey, signer: Pubkey, base: Pubkey, quote: Pubkey, cancel: bool, otype: u8, bids: Vec<Multi>, asks: Vec<Multi>, limit: u8, rem: Vec<Pubkey> },
    Take { signer: Pubkey, payer: Pubkey, base: Pubkey, quote: Pubkey, req: Req, rem: Vec<Pubkey> },
    CancelId { oo: Pubkey, signer: Pubkey, id: u128 },
    CancelClient { oo: Pubkey, signer: Pubkey, client: u64 },
    CancelAll { oo: Pubkey, signer: Pubkey, side: Option<u8>, limit: u8 },
    Consume { limit: u64, given: Option<Vec<u64>>, rem: Vec<Pubkey> },
    Deposit { oo: Pubkey, payer: Pubkey, base_acc: Pubkey, quote_acc: Pubkey, base: u64, quote: u64, refill: bool },
    Settle { oo: Pubkey, signer: Pubkey, payer: Pubkey, base: Pubkey, quote: Pubkey, referrer: Option<Pubkey>, expired: bool },
    Sweep { receiver: Pubkey },
    SetExpired,
    Prune { oo: Pubkey, limit: u8 },
    SetDelegate { oo: Pubkey, owner: Pubkey, delegate: Option<Pubkey> },
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Place { req, .. } => match req.price {
                Price::Fixed(_) => "place",
                _ => "place_pegged",
            },
            Op::Edit { req, .. } => match req.price {
                Price::Fixed(_) => "edit",
                _ => "edit_pegged",
            },
            Op::Batch { cancel: false, .. } => "batch",
            Op::Batch { .. } => "cancel_and_batch",
            Op::Take { .. } => "take",
            Op::CancelId { .. } => "cancel_id",
            Op::CancelClient { .. } => "cancel_client",
            Op::CancelAll { .. } => "cancel_all",
            Op::Consume { given: None, .. } => "consume",
            Op::Consume { .. } => "consume_given",
            Op::Deposit { refill: false, .. } => "deposit",
            Op::Deposit { .. } => "refill",
            Op::Settle { expired: false, .. } => "settle",
            Op::Settle { .. } => "settle_expired",
            Op::Sweep { .. } => "sweep",
            Op::SetExpired => "set_expired",
            Op::Prune { .. } => "prune",
            Op::SetDelegate { .. } => "set_delegate",
        }
    }
    /// the open orders account the operation acts for
    pub fn oo(&self) -> Option<Pubkey> {
        match self {
            Op::Place { oo, .. }
            | Op::Edit { oo, .. }
            | Op::Batch { oo, .. }
            | Op::CancelId { oo, .. }
            | Op::CancelClient { oo, .. }
            | Op::CancelAll { oo, .. }
            | Op::Deposit { oo, .. }
            | Op::Settle { oo, .. }
            | Op::Prune { oo, .. }
            | Op::SetDelegate { oo, .. } => Some(*oo),
            _ => None,
        }
    }
    pub fn is_order(&self) -> bool {
        matches!(self, Op::Place { .. } | Op::Edit { .. } | Op::Batch { .. } | Op::Take { .. })
    }
}

pub fn side_of(s: u8) -> Side {
    if s == 0 {
        Side::Bid
    } else {
        Side::Ask
    }
}
pub fn otype_of(t: u8) -> PlaceOrderType {
    match t {
        0 => PlaceOrderType::Limit,
        1 => PlaceOrderType::ImmediateOrCancel,
        2 => PlaceOrderType::PostOnly,
        3 => PlaceOrderType::Market,
        4 => PlaceOrderType::PostOnlySlide,
        _ => PlaceOrderType::FillOrKill,
    }
}
pub fn stb_of(t: u8) -> SelfTradeBehavior {
    match t {
        0 => SelfTradeBehavior::DecrementTake,
        1 => SelfTradeBehavior::CancelProvide,
        _ => SelfTradeBehavior::AbortTransaction,
    }
}

/// What an account position is for; used to know which substitutes are legitimate.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    Signer,
    OpenOrders,
    OptAdmin,
    TokenFrom,
    TokenTo,
    Market,
    Bids,
    Asks,
    Heap,
    Vault,
    Authority,
    Oracle,
    TokenProgram,
    SystemProgram,
    Payer,
    Referrer,
    Admin,
    Remaining,
    Other,
}

pub struct Built {
    pub ix: Ix,
    pub roles: Vec<Role>,
}

struct B {
    metas: Vec<Meta>,
    roles: Vec<Role>,
}
impl B {
    fn new() -> Self {
        B { metas: vec![], roles: vec![] }
    }
    fn a(mut self, r: Role, key: Pubkey, signer: bool, writable: bool) -> Self {
        self.metas.push(Meta { key, signer, writable });
        self.roles.push(r);
        self
    }
    fn r(self, r: Role, key: Pubkey) -> Self {
        self.a(r, key, false, false)
    }
    fn w(self, r: Role, key: Pubkey) -> Self {
        self.a(r, key, false, true)
    }
    fn opt(self, r: Role, key: Option<Pubkey>, signer: bool, writable: bool) -> Self {
        match key {
            Some(k) => self.a(r, k, signer, writable),
            None => self.a(r, NONE, false, false),
        }
    }
    fn rem(mut self, v: &[Pubkey]) -> Self {
        for k in v {
            self = self.w(Role::Remaining, *k);
        }
        self
    }
    fn done(self, data: Vec<u8>) -> Built {
        Built { ix: Ix { metas: self.metas, data }, roles: self.roles }
    }
}

fn place_args(r: &Req) -> PlaceOrderArgs {
    PlaceOrderArgs {
        side: side_of(r.side),
        price_lots: match r.price {
            Price::Fixed(p) => p,
            _ => 0,
        },
        max_base_lots: r.max_base,
        max_quote_lots_including_fees: r.max_quote,
        client_order_id: r.client,
        order_type: otype_of(r.otype),
        expiry_timestamp: r.expiry,
        self_trade_behavior: stb_of(r.stb),
        limit: r.limit,
    }
}
fn pegged_args(r: &Req) -> PlaceOrderPeggedArgs {
    let (offset, limit) = match r.price {
        Price::Pegged { offset, limit } => (offset, limit),
        _ => (0, 0),
    };
    PlaceOrderPeggedArgs {
        side: side_of(r.side),
        price_offset_lots: offset,
        peg_limit: limit,
        max_base_lots: r.max_base,
        max_quote_lots_including_fees: r.max_quote,
        client_order_id: r.client,
        order_type: otype_of(r.otype),
        expiry_timestamp: r.expiry,
        self_trade_behavior: stb_of(r.stb),
        limit: r.limit,
    }
}
fn multi_args(v: &[Multi]) -> Vec<PlaceMultipleOrdersArgs> {
    v.iter()
        .map(|m| PlaceMultipleOrdersArgs {
            price_lots: m.price,
            max_quote_lots_including_fees: m.max_quote,
            expiry_timestamp: m.expiry,
        })
        .collect()
}

impl Mk {
    pub fn vault(&self, side: u8) -> Pubkey {
        if side == 0 {
            self.quote_vault
        } else {
            self.base_vault
        }
    }

    fn place_metas(&self, signer: Pubkey, oo: Pubkey, wallet: Pubkey, side: u8, rem: &[Pubkey]) -> B {
        use Role::*;
        B::new()
            .a(Signer, signer, true, false)
            .w(OpenOrders, oo)
            .opt(OptAdmin, self.oo_admin, true, false)
            .w(TokenFrom, wallet)
            .w(Market, self.key)
            .w(Bids, self.bids)
            .w(Asks, self.asks)
            .w(Heap, self.heap)
            .w(Vault, self.vault(side))
            .opt(Oracle, self.oracle_a, false, false)
            .opt(Oracle, self.oracle_b, false, false)
            .r(TokenProgram, spl_token::ID)
            .rem(rem)
    }

    pub fn build(&self, op: &Op) -> Built {
        use Role::*;
        match op {
            Op::Place { oo, signer, wallet, req, rem } => {
                let b = self.place_metas(*signer, *oo, *wallet, req.side, rem);
                let data = match req.price {
                    Price::Fixed(_) => ixs::PlaceOrder { args: place_args(req) }.data(),
                    _ => ixs::PlaceOrderPegged { args: pegged_args(req) }.data(),
                };
                b.done(data)
            }
            Op::Edit { oo, signer, wallet, cancel, expected, req, rem } => {
                let b = self.place_metas(*signer, *oo, *wallet, req.side, rem);
                let data = match req.price {
                    Price::Fixed(_) => ixs::EditOrder {
                        client_order_id: *cancel,
                        expected_cancel_size: *expected,
                        place_order: place_args(req),
                    }
                    .data(),
                    _ => ixs::EditOrderPegged {
                        client_order_id: *cancel,
                        expected_cancel_size: *expected,
                        place_order: pegged_args(req),
                    }
                    .data(),
                };
                b.done(data)
            }
            Op::Batch { oo, signer, base, quote, cancel, otype, bids, asks, limit, rem } => {
                let b = B::new()
                    .a(Signer, *signer, true, false)
                    .w(OpenOrders, *oo)
                    .opt(OptAdmin, self.oo_admin, true, false)
                    .w(TokenFrom, *quote)
                    .w(TokenFrom, *base)
                    .w(Market, self.key)
                    .w(Bids, self.bids)
                    .w(Asks, self.asks)
                    .w(Heap, self.heap)
                    .w(Vault, self.quote_vault)
                    .w(Vault, self.base_vault)
                    .opt(Oracle, self.oracle_a, false, false)
                    .opt(Oracle, self.oracle_b, false, false)
                    .r(TokenProgram, spl_token::ID)
                    .rem(rem);
                let (orders_type, bids, asks, limit) = (otype_of(*otype), multi_args(bids), multi_args(asks), *limit);
                b.done(if *cancel {
                    ixs::CancelAllAndPlaceOrders { orders_type, bids, asks, limit }.data()
                } else {
                    ixs::PlaceOrders { orders_type, bids, asks, limit }.data()
                })
            }
            Op::Take { signer, payer, base, quote, req, rem } => B::new()
                .a(Signer, *signer, true, true)
                .a(Payer, *payer, true, true)
                .w(Market, self.key)
                .r(Authority, self.authority)
                .w(Bids, self.bids)
                .w(Asks, self.asks)
                .w(Vault, self.base_vault)
                .w(Vault, self.quote_vault)
                .w(Heap, self.heap)
                .w(if req.side == 0 { TokenTo } else { TokenFrom }, *base)
                .w(if req.side == 0 { TokenFrom } else { TokenTo }, *quote)
                .opt(Oracle, self.oracle_a, false, false)
                .opt(Oracle, self.oracle_b, false, false)
                .r(TokenProgram, spl_token::ID)
                .r(SystemProgram, system_program::ID)
                .opt(OptAdmin, self.oo_admin, true, false)
                .rem(rem)
                .done(
                    ixs::PlaceTakeOrder {
                        args: PlaceTakeOrderArgs {
                            side: side_of(req.side),
                            price_lots: match req.price {
                                Price::Fixed(p) => p,
                                _ => 0,
                            },
                            max_base_lots: req.max_base,
                            max_quote_lots_including_fees: req.max_quote,
                            order_type: otype_of(req.otype),
                            limit: req.limit,
                        },
                    }
                    .data(),
                ),
            Op::CancelId { oo, signer, id } => {
                self.cancel_metas(*signer, *oo).done(ixs::CancelOrder { order_id: *id }.data())
            }
            Op::CancelClient { oo, signer, client } => self
                .cancel_metas(*signer, *oo)
                .done(ixs::CancelOrderByClientOrderId { client_order_id: *client }.data()),
            Op::CancelAll { oo, signer, side, limit } => self.cancel_metas(*signer, *oo).done(
                ixs::CancelAllOrders {
                    side_option: side.map(side_of),
                    limit: *limit,
                }
                .data(),
            ),
            Op::Consume { limit, given, rem } => B::new()
                .opt(OptAdmin, self.ce_admin, true, false)
                .w(Market, self.key)
                .w(Heap, self.heap)
                .rem(rem)
                .done(match given {
                    None => ixs::ConsumeEvents { limit: *limit as usize }.data(),
                    Some(s) => ixs::ConsumeGivenEvents {
                        slots: s.iter().map(|x| *x as usize).collect(),
                    }
                    .data(),
                }),
            Op::Deposit { oo, payer, base_acc, quote_acc, base, quote, refill } => B::new()
                .a(Signer, *payer, true, false)
                .w(TokenFrom, *base_acc)
                .w(TokenFrom, *quote_acc)
                .w(OpenOrders, *oo)
                .w(Market, self.key)
                .w(Vault, self.base_vault)
                .w(Vault, self.quote_vault)
                .r(TokenProgram, spl_token::ID)
                .done(if *refill {
                    ixs::Refill { base_amount: *base, quote_amount: *quote }.data()
                } else {
                    ixs::Deposit { base_amount: *base, quote_amount: *quote }.data()
                }),
            Op::Settle { oo, signer, payer, base, quote, referrer, expired } => {
                let b = if *expired {
                    B::new()
                        .a(Admin, self.cm_admin.unwrap_or(NONE), true, false)
                        .a(Signer, *signer, true, true)
                } else {
                    B::new().a(Signer, *signer, true, false)
                };
                b.a(Payer, *payer, true, true)
                    .w(OpenOrders, *oo)
                    .w(Market, self.key)
                    .r(Authority, self.authority)
                    .w(Vault, self.base_vault)
                    .w(Vault, self.quote_vault)
                    .w(TokenTo, *base)
                    .w(TokenTo, *quote)
                    .opt(Referrer, *referrer, false, true)
                    .r(TokenProgram, spl_token::ID)
                    .r(SystemProgram, system_program::ID)
                    .done(if *expired {
                        ixs::SettleFundsExpired {}.data()
                    } else {
                        ixs::SettleFunds {}.data()
                    })
            }
            Op::Sweep { receiver } => B::new()
                .a(Admin, self.collect_admin, true, false)
                .w(Market, self.key)
                .r(Authority, self.authority)
                .w(Vault, self.quote_vault)
                .w(Referrer, *receiver)
                .r(TokenProgram, spl_token::ID)
                .done(ixs::SweepFees {}.data()),
            Op::SetExpired => B::new()
                .a(Admin, self.cm_admin.unwrap_or(NONE), true, false)
                .w(Market, self.key)
                .done(ixs::SetMarketExpired {}.data()),
            Op::Prune { oo, limit } => B::new()
                .a(Admin, self.cm_admin.unwrap_or(NONE), true, false)
                .w(OpenOrders, *oo)
                .r(Market, self.key)
                .w(Bids, self.bids)
                .w(Asks, self.asks)
                .done(ixs::PruneOrders { limit: *limit }.data()),
            Op::SetDelegate { oo, owner, delegate } => B::new()
                .a(Signer, *owner, true, true)
                .w(OpenOrders, *oo)
                .opt(Other, *delegate, false, false)
                .done(ixs::SetDelegate {}.data()),
        }
    }

    fn cancel_metas(&self, signer: Pubkey, oo: Pubkey) -> B {
        use Role::*;
        B::new()
            .a(Signer, signer, true, false)
            .w(OpenOrders, oo)
            .r(Market, self.key)
            .w(Bids, self.bids)
            .w(Asks, self.asks)
    }

    pub fn close_ix(&self, dest: Pubkey) -> Built {
        use Role::*;
        B::new()
            .a(Admin, self.cm_admin.unwrap_or(NONE), true, false)
            .w(Market, self.key)
            .w(Bids, self.bids)
            .w(Asks, self.asks)
            .w(Heap, self.heap)
            .w(Other, dest)
            .r(TokenProgram, spl_token::ID)
            .done(ixs::CloseMarket {}.data())
    }
}

pub fn indexer_address(owner: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"OpenOrdersIndexer", owner.as_ref()], &openbook_v2::ID).0
}
pub fn oo_address(owner: &Pubkey, num: u32) -> Pubkey {
    Pubkey::find_program_address(
        &[b"OpenOrders", owner.as_ref(), &num.to_le_bytes()],
        &openbook_v2::ID,
    )
    .0
}
pub fn authority_address(market: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"Market", market.as_ref()], &openbook_v2::ID).0
}

pub fn create_indexer_ix(payer: Pubkey, owner: Pubkey) -> Built {
    use Role::*;
    B::new()
        .a(Payer, payer, true, true)
        .a(Signer, owner, true, false)
        .w(Other, indexer_address(&owner))
        .r(SystemProgram, system_program::ID)
        .done(ixs::CreateOpenOrdersIndexer {}.data())
}
pub fn close_indexer_ix(owner: Pubkey, dest: Pubkey) -> Built {
    use Role::*;
    B::new()
        .a(Signer, owner, true, false)
        .w(Other, indexer_address(&owner))
        .w(Other, dest)
        .r(TokenProgram, spl_token::ID)
        .done(ixs::CloseOpenOrdersIndexer {}.data())
}
pub fn create_oo_ix(payer: Pubkey, owner: Pubkey, delegate: Option<Pubkey>, num: u32, market: Pubkey, name: &str) -> Built {
    use Role::*;
    B::new()
        .a(Payer, payer, true, true)
        .a(Signer, owner, true, false)
        .opt(Other, delegate, false, false)
        .w(Other, indexer_address(&owner))
        .w(OpenOrders, oo_address(&owner, num))
        .r(Market, market)
        .r(SystemProgram, system_program::ID)
        .done(ixs::CreateOpenOrdersAccount { name: name.to_string() }.data())
}
pub fn close_oo_ix(owner: Pubkey, oo: Pubkey, dest: Pubkey) -> Built {
    use Role::*;
    B::new()
        .a(Signer, owner, true, true)
        .w(Other, indexer_address(&owner))
        .w(OpenOrders, oo)
        .w(Other, dest)
        .r(SystemProgram, system_program::ID)
        .done(ixs::CloseOpenOrdersAccount {}.data())
}

pub fn create_market_ix(payer: Pubkey, mk: &Mk, p: &Params) -> Built {
    use Role::*;
    let event_authority = Pubkey::find_program_address(&[b"__event_authority"], &openbook_v2::ID).0;
    B::new()
        .a(Market, mk.key, true, true)
        .r(Authority, mk.authority)
        .w(Bids, mk.bids)
        .w(Asks, mk.asks)
        .w(Heap, mk.heap)
        .a(Payer, payer, true, true)
        .w(Vault, mk.base_vault)
        .w(Vault, mk.quote_vault)
        .r(Other, mk.base_mint)
        .r(Other, mk.quote_mint)
        .r(SystemProgram, system_program::ID)
        .r(TokenProgram, spl_token::ID)
        .r(Other, ATA_PROGRAM)
        .opt(Oracle, mk.oracle_a, false, false)
        .opt(Oracle, mk.oracle_b, false, false)
        .r(Other, mk.collect_admin)
        .opt(Other, mk.oo_admin, false, false)
        .opt(Other, mk.ce_admin, false, false)
        .opt(Other, mk.cm_admin, false, false)
        .r(Other, event_authority)
        .r(Other, openbook_v2::ID)
        .done(
            ixs::CreateMarket {
                name: p.name.clone(),
                oracle_config: OracleConfigParams {
                    conf_filter: p.conf_filter,
                    max_staleness_slots: p.staleness,
                },
                quote_lot_size: p.qls,
                base_lot_size: p.bls,
                maker_fee: p.maker_fee,
                taker_fee: p.taker_fee,
                time_expiry: p.expiry,
            }
            .data(),
        )
}

/// bytes of a stub oracle account
pub fn stub_bytes(owner: Pubkey, mint: Pubkey, price: f64, ts: i64, slot: u64, deviation: f64) -> Vec<u8> {
    let mut d = vec![0u8; layout::STUB_LEN];
    d[..8].copy_from_slice(&disc("account", "StubOracle"));
    d[8..40].copy_from_slice(owner.as_ref());
    d[40..72].copy_from_slice(mint.as_ref());
    d[72..80].copy_from_slice(&price.to_le_bytes());
    d[80..88].copy_from_slice(&ts.to_le_bytes());
    d[88..96].copy_from_slice(&slot.to_le_bytes());
    d[96..104].copy_from_slice(&deviation.to_le_bytes());
    d
}

impl World {
    pub fn key(&mut self) -> Pubkey {
        self.keyno += 1;
        let mut b = [0u8; 32];
        b[0] = 0x11;
        b[1..9].copy_from_slice(&crate::rng::mix(self.keyno).to_le_bytes());
        b[24..32].copy_from_slice(&self.keyno.to_le_bytes());
        Pubkey::new_from_array(b)
    }

    pub fn new(p: Params, n_users: usize, base_wallet: u64, quote_wallet: u64) -> Result<World, String> {
        let mut w = World {
            bank: Bank::new(),
            users: vec![],
            mk: Mk::default(),
            params: p.clone(),
            payer: Pubkey::default(),
            keyno: 0,
            referrers: vec![],
            fee_receiver: Pubkey::default(),
        };
        w.payer = w.key();
        let payer = w.payer;
        w.bank.fund(payer, 1_000_000_000_000_000);
        let (mut bm, mut qm) = (w.key(), w.key());
        match p.native {
            1 => bm = spl_token::native_mint::ID,
            2 => qm = spl_token::native_mint::ID,
            _ => {}
        }
        w.bank.add_mint(bm, p.base_decimals);
        w.bank.add_mint(qm, p.quote_decimals);
        w.mk = w.new_market_keys(bm, qm, &p);
        let b = create_market_ix(w.payer, &w.mk, &p);
        let o = w.bank.exec(&b.ix);
        if !o.ok() {
            return Err(format!("creating the market failed: {:?}", o.result));
        }
        for i in 0..n_users {
            w.add_user(base_wallet, quote_wallet)?;
            let _ = i;
        }
        for _ in 0..2 {
            let (k, o) = (w.key(), w.key());
            w.bank.add_token(k, qm, o, 0);
            w.referrers.push(k);
        }
        let (k, o) = (w.key(), w.key());
        w.bank.add_token(k, qm, o, 0);
        w.fee_receiver = k;
        Ok(w)
    }

    /// fresh keys, allocated book accounts, oracles and admins for one more market
    pub fn new_market_keys(&mut self, bm: Pubkey, qm: Pubkey, p: &Params) -> Mk {
        let mut mk = Mk {
            key: self.key(),
            bids: self.key(),
            asks: self.key(),
            heap: self.key(),
            base_mint: bm,
            quote_mint: qm,
            collect_admin: self.key(),
            ..Default::default()
        };
        self.bank.add_program_account(mk.bids, layout::SIDE_LEN);
        self.bank.add_program_account(mk.asks, layout::SIDE_LEN);
        self.bank.add_program_account(mk.heap, layout::HEAP_LEN);
        mk.authority = authority_address(&mk.key);
        mk.base_vault = ata_address(&mk.authority, &bm);
        mk.quote_vault = ata_address(&mk.authority, &qm);
        if p.oracles >= 1 {
            let k = self.key();
            self.set_stub(k, bm, 1.0, 0.0);
            mk.oracle_a = Some(k);
        }
        if p.oracles >= 2 {
            let k = self.key();
            self.set_stub(k, qm, 1.0, 0.0);
            mk.oracle_b = Some(k);
        }
        for k in [mk.collect_admin] {
            self.bank.fund(k, 1_000_000_000);
        }
        if p.admins.0 {
            mk.oo_admin = Some(self.key());
        }
        if p.admins.1 {
            mk.ce_admin = Some(self.key());
        }
        if p.admins.2 {
            mk.cm_admin = Some(self.key());
        }
        mk
    }

    pub fn set_stub(&mut self, k: Pubkey, mint: Pubkey, price: f64, deviation: f64) {
        let d = stub_bytes(self.payer, mint, price, self.bank.ts, self.bank.slot, deviation);
        self.bank.accounts.insert(
            k,
            Account {
                lamports: 1_000_000_000,
                data: d,
                owner: openbook_v2::ID,
                executable: false,
            },
        );
    }

    pub fn add_user(&mut self, base: u64, quote: u64) -> Result<usize, String> {
        let key = self.key();
        self.add_user_as(key, base, quote)
    }

    pub fn add_user_as(&mut self, key: Pubkey, base: u64, quote: u64) -> Result<usize, String> {
        self.bank.fund(key, 1_000_000_000);
        let (b, q, b2, q2) = (self.key(), self.key(), self.key(), self.key());
        self.bank.add_token(b, self.mk.base_mint, key, base);
        self.bank.add_token(q, self.mk.quote_mint, key, quote);
        self.bank.add_token(b2, self.mk.base_mint, key, base / 16);
        self.bank.add_token(q2, self.mk.quote_mint, key, quote / 16);
        let o = self.bank.exec(&create_indexer_ix(self.payer, key).ix);
        if !o.ok() {
            return Err(format!("creating an indexer failed: {:?}", o.result));
        }
        self.users.push(User {
            key,
            base: b,
            quote: q,
            base2: b2,
            quote2: q2,
            indexer: indexer_address(&key),
            oos: vec![],
            counter: 0,
        });
        let i = self.users.len() - 1;
        self.add_oo(i, None)?;
        Ok(i)
    }

    pub fn add_oo(&mut self, user: usize, delegate: Option<Pubkey>) -> Result<Pubkey, String> {
        let u = self.users[user].clone();
        let num = u.counter + 1;
        let b = create_oo_ix(self.payer, u.key, delegate, num, self.mk.key, "acc");
        let o = self.bank.exec(&b.ix);
        if !o.ok() {
            return Err(format!("creating an account failed: {:?}", o.result));
        }
        let k = oo_address(&u.key, num);
        self.users[user].counter = num;
        self.users[user].oos.push(k);
        Ok(k)
    }

    pub fn owner_of(&self, oo: &Pubkey) -> usize {
        self.users.iter().position(|u| u.oos.contains(oo)).unwrap_or(0)
    }

    pub fn snap(&self) -> Result<Snap, (&'static str, String)> {
        let d = self.bank.data(&self.mk.key);
        if d.len() != layout::MARKET_LEN {
            return Err(("market", format!("market account has {} bytes", d.len())));
        }
        let mut s = Snap {
            m: layout::market(d),
            bids: layout::side(self.bank.data(&self.mk.bids), true).map_err(|e| ("tree", format!("bids: {e}")))?,
            asks: layout::side(self.bank.data(&self.mk.asks), true).map_err(|e| ("tree", format!("asks: {e}")))?,
            heap: layout::heap(self.bank.data(&self.mk.heap), true).map_err(|e| ("queue", e))?,
            ..Default::default()
        };
        let mut tok = |k: &Pubkey| {
            s.tok.insert(*k, self.bank.token_amount(k));
        };
        tok(&self.mk.base_vault);
        tok(&self.mk.quote_vault);
        for u in &self.users {
            tok(&u.base);
            tok(&u.quote);
            tok(&u.base2);
            tok(&u.quote2);
        }
        for k in &self.referrers {
            tok(k);
        }
        tok(&self.fee_receiver);
        let mut lam = BTreeMap::new();
        for u in &self.users {
            lam.insert(u.key, self.bank.lamports(&u.key));
        }
        lam.insert(self.mk.key, self.bank.lamports(&self.mk.key));
        lam.insert(self.payer, self.bank.lamports(&self.payer));
        s.lam = lam;
        for u in &self.users {
            for k in &u.oos {
                let d = self.bank.data(k);
                if d.len() == layout::OO_LEN {
                    s.oos.insert(*k, layout::open_orders(d));
                }
            }
        }
        Ok(s)
    }
}

/// Typical market parameters.
pub fn rand_params(r: &mut Rng) -> Params {
    let lot = |r: &mut Rng| {
        if r.chance(1, 5) {
            *r.pick(&[1_000_000i64, 123_457, 1_000_000_000])
        } else {
            *r.pick(&[1i64, 1, 2, 10, 100, 1000, 7])
        }
    };
    let taker = *r.pick(&[0i64, 1, 100, 400, 1000, 2000, 50_000, 400_000]);
    let maker = match r.below(5) {
        0 => 0,
        1 => -taker,
        2 => -r.range(0, taker),
        3 => r.range(0, 2000),
        _ => *r.pick(&[1i64, 200, 1000, 30_000, 500_000]),
    };
    let (mut base_decimals, mut quote_decimals) = (*r.pick(&[9u8, 6, 6, 0, 8]), *r.pick(&[6u8, 6, 9, 0]));
    let native = *r.pick(&[0u8, 0, 0, 0, 0, 0, 1, 2]);
    match native {
        1 => base_decimals = 9,
        2 => quote_decimals = 9,
        _ => {}
    }
    Params {
        native,
        name: "SOL-USDC".into(),
        qls: lot(r),
        bls: lot(r),
        maker_fee: maker,
        taker_fee: taker,
        expiry: 0,
        conf_filter: 0.1,
        staleness: if r.chance(1, 3) { Some(100) } else { None },
        base_decimals,
        quote_decimals,
        oracles: *r.pick(&[0u8, 1, 1, 2]),
        admins: (r.chance(1, 5), r.chance(1, 5), r.chance(4, 5)),
    }
}
