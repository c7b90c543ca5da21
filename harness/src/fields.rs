//! Structures, enumerations and errors of the program against the interface description.

use crate::idl::*;
use crate::report::Case;
use crate::rng::{hash_str, mix, Rng};
use anchor_lang::error::Error;
use anchor_lang::{AnchorDeserialize, AnchorSerialize};
use anchor_lang::prelude::error;
use openbook_v2::error::{Contextable, IsAnchorErrorWithCode, OpenBookError};
use openbook_v2::pubkey_option::NonZeroPubkeyOption;
use openbook_v2::state::*;
use openbook_v2::{error_msg, error_msg_typed};
use solana_program::program_error::ProgramError;

fn camel(s: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for ch in s.chars() {
        if ch == '_' {
            up = true;
        } else if up {
            o.push(ch.to_ascii_uppercase());
            up = false;
        } else {
            o.push(ch);
        }
    }
    o
}

fn filled<T: Copy>(r: &mut Rng) -> Box<T> {
    let mut v: Box<std::mem::MaybeUninit<T>> = Box::new(std::mem::MaybeUninit::zeroed());
    let p = v.as_mut_ptr() as *mut u8;
    // only used with types for which every bit pattern is valid
    unsafe {
        for i in 0..std::mem::size_of::<T>() {
            *p.add(i) = r.u64() as u8;
        }
        Box::from_raw(Box::into_raw(v) as *mut T)
    }
}

fn raw<T>(x: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }
}

/// Every named field of random instances must lie where the description puts it.
macro_rules! record {
    ($c:expr, $r:expr, $idl:expr, $t:ty, $name:literal, [$($f:ident),*]) => {{
        let f = match ($idl.accounts.get($name), $idl.types.get($name)) {
            (Some(f), _) => f.clone(),
            (_, Some(Def::Struct(f))) => f.clone(),
            _ => {
                $c.violate("interface-type", format!("{} is not published", $name));
                return;
            }
        };
        let size = $idl.fields_size(&f).unwrap_or(0);
        let _at = $idl.offsets(&f);
        let x: Box<$t> = filled::<$t>($r);
        $c.eval();
        if size != std::mem::size_of::<$t>() {
            $c.violate("interface-size", format!("{} has {} bytes, published are {size}", $name, std::mem::size_of::<$t>()));
            return;
        }
        let _b = raw(&*x);
        #[allow(unused_mut)]
        let mut named = 0;
        $(
            $c.eval();
            let n = camel(stringify!($f)).replace("marketSeqNum", "seqNum");
            let fb = raw(&x.$f);
            match _at.get(&n) {
                Some((o, s)) if *s == fb.len() && &_b[*o..*o + *s] == fb => {
                    $c.count("fields compared");
                    $c.nontrivial(mix(hash_str(&format!("{}{}", $name, n))));
                    named += *s;
                }
                x => {
                    $c.violate("interface-field", format!("{}.{n} is not where the interface puts it: {x:?}", $name));
                    return;
                }
            }
        )*
        // what is not compared by name can only be filling
        let filling: usize = f.iter().filter(|x| x.0.starts_with("pad") || x.0.starts_with("reserved")).map(|x| $idl.size(&x.1).unwrap_or(0)).sum();
        if named != 0 && $name != "EventNode" && $name != "AnyNode" && named + filling != size {
            $c.violate("interface-field", format!("{} has published fields the program does not have", $name));
            return;
        }
    }};
}

macro_rules! choices {
    ($c:expr, $idl:expr, $t:ident, [$($v:ident),*]) => {{
        let v = match $idl.types.get(stringify!($t)) {
            Some(Def::Enum(v)) => v.clone(),
            _ => {
                $c.violate("interface-type", format!("{} is not published", stringify!($t)));
                return;
            }
        };
        let mine = [$((stringify!($v), $t::$v as u8)),*];
        $c.eval();
        $c.count("enumerations compared");
        $c.nontrivial(mix(hash_str(stringify!($t))));
        let same = v.len() == mine.len() && v.iter().zip(mine.iter()).enumerate().all(|(i, (a, b))| a.0 == b.0 && b.1 as usize == i);
        if !same {
            $c.violate("interface-enum", format!("{}: the program has {mine:?}, published are {v:?}", stringify!($t)));
            return;
        }
    }};
}

macro_rules! encoded {
    ($c:expr, $idl:expr, $t:ident, [$($v:ident),*]) => {{
        $(
            let mut mine = vec![];
            let _ = AnchorSerialize::serialize(&$t::$v, &mut mine);
            let mut theirs = vec![];
            let r = $idl.encode(&Ty::Def(stringify!($t).into()), &Val::E(stringify!($v).into()), &mut theirs);
            $c.eval();
            let back = <$t as AnchorDeserialize>::try_from_slice(&theirs).map(|x| x as u8).ok();
            if r.is_err() || mine != theirs || back != Some($t::$v as u8) {
                $c.violate("interface-enum", format!("{}::{} is encoded as {mine:?} by the program, {theirs:?} by the interface, read back as {back:?}", stringify!($t), stringify!($v)));
                return;
            }
        )*
    }};
}

pub fn fields(c: &mut Case) {
    let mut rng = Rng::new(c.seed);
    let r = &mut rng;
    let idl = match idl() {
        Some(i) => i,
        None => {
            c.count("interface unreadable");
            return;
        }
    };
    record!(c, r, idl, NonZeroPubkeyOption, "NonZeroPubkeyOption", []);
    record!(c, r, idl, Position, "Position", [
        bids_base_lots, asks_base_lots, base_free_native, quote_free_native, locked_maker_fees, referrer_rebates_available, penalty_heap_count, maker_volume, taker_volume,
        bids_quote_lots
    ]);
    record!(c, r, idl, OpenOrder, "OpenOrder", [id, client_id, locked_price, is_free, side_and_tree]);
    record!(c, r, idl, OracleConfig, "OracleConfig", [conf_filter, max_staleness_slots]);
    record!(c, r, idl, EventHeapHeader, "EventHeapHeader", []);
    record!(c, r, idl, EventNode, "EventNode", [event]);
    record!(c, r, idl, AnyEvent, "AnyEvent", [event_type]);
    record!(c, r, idl, FillEvent, "FillEvent", [
        event_type, taker_side, maker_out, maker_slot, timestamp, market_seq_num, maker, maker_timestamp, taker, taker_client_order_id, price, peg_limit, quantity, maker_client_order_id
    ]);
    record!(c, r, idl, OutEvent, "OutEvent", [event_type, side, owner_slot, timestamp, seq_num, owner, quantity]);
    record!(c, r, idl, InnerNode, "InnerNode", [tag, prefix_len, key, children, child_earliest_expiry]);
    record!(c, r, idl, LeafNode, "LeafNode", [tag, owner_slot, time_in_force, key, owner, quantity, timestamp, peg_limit, client_order_id]);
    record!(c, r, idl, AnyNode, "AnyNode", [tag]);
    record!(c, r, idl, OrderTreeRoot, "OrderTreeRoot", [maybe_node, leaf_count]);
    record!(c, r, idl, Market, "Market", [
        bump, base_decimals, quote_decimals, market_authority, time_expiry, collect_fee_admin, open_orders_admin, consume_events_admin, close_market_admin, name, bids, asks,
        event_heap, oracle_a, oracle_b, oracle_config, quote_lot_size, base_lot_size, seq_num, registration_time, maker_fee, taker_fee, fees_accrued, fees_to_referrers,
        referrer_rebates_accrued, fees_available, maker_volume, taker_volume_wo_oo, base_mint, quote_mint, market_base_vault, base_deposit_total, market_quote_vault,
        quote_deposit_total
    ]);
    record!(c, r, idl, OpenOrdersAccount, "OpenOrdersAccount", [owner, market, name, delegate, account_num, bump, version, position, open_orders]);
    record!(c, r, idl, StubOracle, "StubOracle", [owner, mint, price, last_update_ts, last_update_slot, deviation]);
    choices!(c, idl, BookSideOrderTree, [Fixed, OraclePegged]);
    choices!(c, idl, EventType, [Fill, Out]);
    choices!(c, idl, NodeTag, [Uninitialized, InnerNode, LeafNode, FreeNode, LastFreeNode]);
    choices!(c, idl, PlaceOrderType, [Limit, ImmediateOrCancel, PostOnly, Market, PostOnlySlide, FillOrKill]);
    choices!(c, idl, SelfTradeBehavior, [DecrementTake, CancelProvide, AbortTransaction]);
    choices!(c, idl, Side, [Bid, Ask]);
    choices!(c, idl, SideAndOrderTree, [BidFixed, AskFixed, BidOraclePegged, AskOraclePegged]);
    encoded!(c, idl, PlaceOrderType, [Limit, ImmediateOrCancel, PostOnly, Market, PostOnlySlide, FillOrKill]);
    encoded!(c, idl, PostOrderType, [Limit, PostOnly, PostOnlySlide]);
    encoded!(c, idl, SelfTradeBehavior, [DecrementTake, CancelProvide, AbortTransaction]);
    encoded!(c, idl, Side, [Bid, Ask]);
    // sizes with which the accounts are created
    use anchor_lang::Discriminator;
    for (n, got, tag) in [
        ("Market", std::mem::size_of::<Market>(), Market::DISCRIMINATOR),
        ("BookSide", std::mem::size_of::<BookSide>(), BookSide::DISCRIMINATOR),
        ("EventHeap", std::mem::size_of::<EventHeap>(), EventHeap::DISCRIMINATOR),
        ("OpenOrdersAccount", std::mem::size_of::<OpenOrdersAccount>(), OpenOrdersAccount::DISCRIMINATOR),
        ("StubOracle", std::mem::size_of::<StubOracle>(), StubOracle::DISCRIMINATOR),
    ] {
        c.eval();
        if idl.fields_size(&idl.accounts[n]) != Some(got) || tag != crate::world::disc("account", n) {
            c.violate("interface-size", format!("{n} has {got} bytes and tag {tag:?}"));
            return;
        }
    }
    c.count("structures compared");
}

macro_rules! all_errors {
    ($($v:ident),* $(,)?) => { vec![$((stringify!($v), OpenBookError::$v)),*] };
}

fn parts(e: &Error) -> Option<(u32, String, String)> {
    match e {
        Error::AnchorError(a) => Some((a.error_code_number, a.error_name.clone(), a.error_msg.clone())),
        _ => None,
    }
}

pub fn errors(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let idl = match idl() {
        Some(i) => i,
        None => return,
    };
    let all = all_errors![
        SomeError, InvalidInputNameLength, InvalidInputMarketExpired, InvalidInputMarketFees, InvalidInputLots, InvalidInputLotsSize, InvalidInputOrdersAmounts, InvalidInputCancelSize,
        InvalidInputPriceLots, InvalidInputPegLimit, InvalidInputOrderType, InvalidInputOrderId, InvalidInputHeapSlots, InvalidOracleTypes, InvalidSecondOracle, NoCloseMarketAdmin,
        InvalidCloseMarketAdmin, InvalidOpenOrdersAdmin, InvalidConsumeEventsAdmin, InvalidMarketVault, IndexerActiveOO, OraclePegInvalidOracleState, UnknownOracleType, OracleConfidence,
        OracleStale, OrderIdNotFound, EventHeapContainsElements, InvalidOrderPostIOC, InvalidOrderPostMarket, WouldSelfTrade, MarketHasExpired, InvalidPriceLots, InvalidOraclePrice,
        MarketHasNotExpired, NoOwnerOrDelegate, NoOwner, OpenOrdersFull, BookContainsElements, OpenOrdersOrderNotFound, InvalidPostAmount, DisabledOraclePeg, NonEmptyMarket,
        NonEmptyOpenOrdersPosition, WouldExecutePartially,
    ];
    c.eval();
    if all.len() != idl.errors.len() {
        c.violate("interface-errors", format!("{} errors are published, {} known", idl.errors.len(), all.len()));
        return;
    }
    for (name, err) in all {
        let (num, _, msg) = match idl.errors.iter().find(|e| e.1 == name) {
            Some(e) => e.clone(),
            None => {
                c.violate("interface-errors", format!("{name} is not published"));
                return;
            }
        };
        let want = (num, name.to_string(), msg.clone());
        let ctx: String = (0..r.idx(12)).map(|_| (b'a' + r.idx(26) as u8) as char).collect();
        let other: String = (0..r.idx(5)).map(|_| (b'A' + r.idx(26) as u8) as char).collect();
        let joined = |m: &str, x: &str| if m.is_empty() { x.to_string() } else { format!("{m}; {x}") };
        let one = joined(&msg, &ctx);
        let two = joined(&one, &other);
        let mut check = |what: &str, got: String, want: String| {
            c.eval();
            c.count("errors compared");
            if got != want && !c.failed() {
                c.violate("interface-errors", format!("{name}, {what}: {got}, must be {want}"));
            }
        };
        check("parts", format!("{:?}", parts(&Error::from(err))), format!("{:?}", Some(want.clone())));
        check("through error!", format!("{:?}", parts(&error!(err))), format!("{:?}", Some(want.clone())));
        check("number", format!("{}", err.error_code()), format!("{num}"));
        check("program error", format!("{:?}", ProgramError::from(err)), format!("{:?}", ProgramError::Custom(num)));
        let with = |m: &str| format!("{:?}", Some((num, name.to_string(), m.to_string())));
        let show = |e: &Error| format!("{:?}", parts(e));
        let res = |x: anchor_lang::Result<u64>| match x {
            Ok(v) => format!("ok {v}"),
            Err(e) => show(&e),
        };
        let value = r.u64();
        check("context", show(&Error::from(err).context(&ctx)), with(&one));
        check("lazy context", show(&Error::from(err).with_context(|| &ctx)), with(&one));
        check("context twice", show(&Error::from(err).context(&ctx).context(&other)), with(&two));
        check("context of a result", res(anchor_lang::Result::<u64>::Err(error!(err)).context(&ctx)), with(&one));
        check("lazy context of a result", res(anchor_lang::Result::<u64>::Err(error!(err)).with_context(|| &ctx)), with(&one));
        check("context of a success", res(anchor_lang::Result::<u64>::Ok(value).context(&ctx)), format!("ok {value}"));
        let mut asked = 0;
        let ok = anchor_lang::Result::<u64>::Ok(value).with_context(|| {
            asked += 1;
            &ctx
        });
        check("lazy context of a success", format!("{} {asked}", res(ok)), format!("ok {value} 0"));
        check("code seen with context", format!("{:?}", ProgramError::from(Error::from(err).context(&ctx))), format!("{:?}", ProgramError::Custom(num)));
        check("typed message", show(&error_msg_typed!(err, "{} {}", ctx, value)), with(&joined(&msg, &format!("{ctx} {value}"))));
        check("plain message", show(&error_msg!("{} {}", ctx, value)), format!("{:?}", Some((6000u32, "SomeError".to_string(), format!("{ctx} {value}")))));
        let e: anchor_lang::Result<u64> = Err(error!(err));
        let probe = 5990 + r.below(60) as u32;
        check("asked for its code", format!("{} {}", e.is_anchor_error_with_code(num), e.is_anchor_error_with_code(probe)), format!("true {}", probe == num));
        let pe: anchor_lang::Result<u64> = Err(Error::from(ProgramError::Custom(num)));
        check("another kind of error asked for the code", format!("{} {}", pe.is_anchor_error_with_code(num), anchor_lang::Result::<u64>::Ok(value).is_anchor_error_with_code(num)), "false false".into());
        let plain = Error::from(ProgramError::Custom(probe)).context(&ctx);
        check("context of another kind of error", format!("{:?}", ProgramError::from(plain)), format!("{:?}", ProgramError::Custom(probe)));
        c.nontrivial(mix(hash_str(name)));
    }
}
