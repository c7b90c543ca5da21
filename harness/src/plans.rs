//! Which workloads decide which property.

use crate::auth;
use crate::containers;
use crate::direct;
use crate::hist;
use crate::hostile;
use crate::life;
use crate::report::{Plan, Work};
use crate::ts;

pub fn plans() -> Vec<Plan> {
    #[allow(unused_mut)]
    let mut v = program_plans();
    #[cfg(feature = "extra")]
    v.extend(extra_plans());
    #[cfg(feature = "rustclient")]
    v.extend(client_plans());
    v
}

#[cfg(feature = "rustclient")]
fn client_plans() -> Vec<Plan> {
    use crate::{confirm, rclient};
    vec![
        Plan {
            property: "C38",
            rule: "distinct (commitment, kind of transaction, sequence of requests and answers) of sends and distinct fill levels of queues",
            assumptions: &["the crates the library imports for its network connection and its channels are stood in for by /verif/shims"],
            need: &["confirmed", "confirmed after waiting", "waited for a durable nonce", "failed on chain", "node refused", "blockhash ran out", "newest blockhash ran out", "larger accounts read", "accounts read", "other accounts refused", "queued", "dropped when full", "refused after the end", "errors wrapped"],
            works: vec![w("confirming", confirm::confirming, 16), w("helpers", confirm::helpers, 4000)],
        },
        Plan {
            property: "C35",
            rule: "distinct (call, verdict, bytes of the instruction) and distinct (name, accounts, accounts with the name, counter) of accounts asked for",
            assumptions: &["the crates the library imports for its network connection are stood in for by /verif/shims"],
            need: &["extreme requests", "node down", "owners with keys much alike", "owners of many accounts", "accepted:place", "accepted:place_pegged", "accepted:cancel_and_batch", "accepted:cancel_id", "accepted:cancel_all", "accepted:deposit", "accepted:settle", "accepted:consume", "accepted:indexer", "accepted:account", "accepted:market", "refused", "signature out of reach", "failure told with its messages", "sent by anyone", "orders where the admin signs", "accounts found", "existing account returned", "account created when none had the name", "first account created", "account created after one was closed", "clients for existing accounts", "strangers turned away"],
            works: vec![w("sending", rclient::sending, 5000)],
        },
        Plan {
            property: "C36",
            rule: "distinct (case, fetches so far, accounts told, moment) of answered fetches and distinct (case, versions, slots) of update streams",
            assumptions: &["the crates the library imports for its network connection are stood in for by /verif/shims"],
            need: &["fetched", "told from the cache", "joined a fetch under way", "fetched after a failure", "failed fetches told", "lists told", "cache emptied", "read from the node", "missing at the node", "listed by the node", "listed from the cache", "roots told", "confirmations told", "account messages", "account messages that cannot be decoded", "snapshots", "refreshed through the node", "refresh refused", "accounts decoded", "not an open orders account", "tables from the cache", "tables from the node", "newest slot of signatures", "data new enough", "waited for newer data"],
            works: vec![w("cached", rclient::cached, 40000), w("fetching", rclient::fetching, 5000)],
        },
    ]
}

#[cfg(feature = "extra")]
fn extra_plans() -> Vec<Plan> {
    use crate::{client, fields, idl};
    vec![
        h("C28", &["sent createMarket", "sent closeMarket", "sent stubOracleClose", "sent settleFundsExpired", "sent pruneOrders", "log FillLog decoded", "return data decoded", "error WouldSelfTrade", "error NoOwnerOrDelegate", "errors compared", "fields compared", "account lists compared"], vec![
            w("published_accounts", idl::accounts, 1500), w("account_lists", idl::builders, 20), w("fields", fields::fields, 300), w("errors", fields::errors, 300), w("general", hist::general, 2500), w("ending", hist::ending, 1500),
        ]),
        Plan {
            property: "C26",
            rule: "distinct (market, amounts quoted, length of the account list) with something to take",
            assumptions: &[],
            need: &["quote equals execution", "nothing to take", "invalid orders on the book", "pegged orders on the book", "with rebates", "enough liquidity", "more fills than can be processed at once", "more orders than one order takes, some invalid"],
            works: vec![w("quotes", client::quotes, 6000)],
        },
        Plan {
            property: "C27",
            rule: "distinct (visible write, newest slot, length of the chain, moment) where the visible write was not the last one told",
            assumptions: &["a slot is told rooted only when it is on the leading chain and the slots between it and the previous root have been told; nothing is told about slots before the root"],
            need: &["rooted", "slot told before its parent", "slot told after its successor", "newer write on another fork ignored", "several writes in a slot", "an older write came last", "rpc from the future"],
            works: vec![w("cache", client::cache, 150000)],
        },
    ]
}

fn program_plans() -> Vec<Plan> {
    vec![
        Plan {
            property: "C33",
            rule: "distinct (kind of reading, orders on either side, events waiting), balances with fills waiting, account lists and units of display",
            assumptions: &["the packages the client imports are stood in for by /verif/ts; pegged orders are outside because the client declares them not implemented"],
            need: &["read", "watched", "reloaded", "orders read", "expired orders read", "orders read at their last second", "levels cut at the depth", "events read", "accounts read", "balances told with fills waiting", "accounts with events waiting", "owners looked up", "markets found by mints", "markets listed", "long lists of markets", "values converted back", "reloaded after changes", "crowded sides read", "full queues read", "orders beyond 32 bits of price", "orders on another market"],
            works: vec![w("ts_reads", ts::reads, 800), w("ts_crowded", ts::crowded, 120), w("ts_lookups", ts::lookups, 100), w("ts_conversions", ts::conversions, 1500)],
        },
        Plan {
            property: "C34",
            rule: "distinct (call, verdict, length of the request) of instructions built by the client",
            assumptions: &["the packages the client imports are stood in for by /verif/ts"],
            need: &["accepted:place", "accepted:placePegged", "accepted:take", "accepted:batch", "accepted:cancelAndBatch", "accepted:cancelId", "accepted:cancelClient", "accepted:cancelAll", "accepted:consume", "accepted:consumeGiven", "consumeFor", "accepted:deposit", "accepted:settle", "accepted:prune", "accepted:createOo", "accepted:sendCreateOo", "accepted:createIndexer", "accepted:closeIndexer", "accepted:closeOo", "accepted:closeMarket", "accepted:createMarket", "accepted:sendPlace", "accepted:sendCancel", "accepted:sendCancelClient", "accepted:sendCancelAll", "accounts opened after one was closed", "all of a full account cancelled", "settled by the delegate for a referrer", "placed against more than 16 orders"],
            works: vec![w("ts_building", ts::building, 1500)],
        },
        Plan {
            property: "C37",
            rule: "distinct (options, numbers of instructions and signers, fault, verdict) of transactions handed to the client",
            assumptions: &["the packages the client imports are stood in for by /verif/ts"],
            need: &["sent and confirmed", "told as an error", "sent with a priority fee", "sent without options", "given blockhash used", "callback told", "callback failed", "failed on chain", "never confirmed", "refused by the node", "not signed"],
            works: vec![w("ts_sending", ts::sending, 1500)],
        },
        Plan {
            property: "C09",
            rule: "distinct (length, slots of the first six events) with at least two events queued",
            assumptions: &[],
            need: &["full", "empty", "removed middle", "removed back", "refused: push to a full queue", "refused: removal of nothing"],
            works: vec![Work { name: "heap_ops", f: containers::heap_ops, quick: 500, thorough: 6000 }],
        },
        Plan {
            property: "C10",
            rule: "distinct (roots, counts, first eight nodes) with more than two orders",
            assumptions: &[],
            need: &["full", "insert", "remove", "remove missing", "expired order removed", "refused: insert without room", "refused: insert with one place left"],
            works: vec![Work { name: "tree_ops", f: containers::tree_ops, quick: 3000, thorough: 25000 }],
        },
        Plan {
            property: "C11",
            rule: "distinct walk results containing fixed and pegged orders",
            assumptions: &[],
            need: &["both kinds walked", "invalid orders present", "pegged orders out of range present", "price ties between kinds", "deep trees", "more than 64 invalid orders before a valid one"],
            works: vec![Work { name: "walk", f: containers::walk, quick: 30000, thorough: 200000 }],
        },
        Plan {
            property: "C12",
            rule: "distinct (side, valid orders, query) with at least two valid orders",
            assumptions: &[],
            need: &["depth over several orders", "depth with invalid orders present", "few valid orders among many", "deep trees"],
            works: vec![Work { name: "depth", f: containers::depth, quick: 20000, thorough: 150000 }],
        },
        h("C01", &["fills", "wound down", "tag:event-fill", "tag:referrer-paid", "tag:swept"], vec![
            w("general", hist::general, 5000), w("fees", hist::fees, 2500), w("settling", hist::settling, 2500), w("pegged", hist::pegged, 2500), w("wild", hist::wild, 1500), w("sweeping", hist::sweeping, 800),
        ]),
        h("C02", &["fills", "tag:partial-maker", "tag:peg-fill", "tag:limit-price"], vec![
            w("crossing", hist::crossing, 4000), w("ties", hist::ties, 5000), w("general", hist::general, 3000), w("pegged", hist::pegged, 2000), w("sweeping", hist::sweeping, 1500), w("full_crossing", hist::full_crossing, 400),
        ]),
        h("C03", &["tag:quote-hit", "tag:match-limit", "tag:from-free", "tag:from-wallet", "tag:limit-price", "refused:wallet too poor"], vec![
            w("general", hist::general, 4000), w("poor", hist::poor, 3000), w("edits", hist::edits, 2000), w("fees", hist::fees, 2000), w("wild", hist::wild, 3000), w("sweeping", hist::sweeping, 800),
        ]),
        h("C04", &["tag:post", "tag:slide", "tag:post-only-refused", "tag:fok", "refused:fill-or-kill not filled"], vec![
            w("general", hist::general, 5000), w("ties", hist::ties, 3000), w("pegged", hist::pegged, 2500), w("crossing", hist::crossing, 1500), w("sweeping", hist::sweeping, 800),
        ]),
        h("C05", &["tag:self-decrement", "tag:self-cancel", "tag:self-fill", "refused:would self-trade", "alone: round trips with trades"], vec![
            w("self_trade", hist::self_trade, 6000), w("alone", hist::alone, 5000), w("general", hist::general, 1500),
        ]),
        h("C06", &["tag:fee", "tag:makerfee", "tag:rebate", "tag:roundoff", "tag:referrer-paid", "tag:rebate-to-fees"], vec![
            w("fees", hist::fees, 5000), w("general", hist::general, 3000), w("pegged", hist::pegged, 2000), w("wild", hist::wild, 2000), w("self_trade", hist::self_trade, 1500), w("sweeping", hist::sweeping, 800),
        ]),
        h("C07", &["tag:cancelled", "tag:already-gone", "tag:peg-cancel", "tag:cancel-limit", "refused:no such order"], vec![
            w("cancels", hist::cancels, 6000), w("general", hist::general, 2500), w("edits", hist::edits, 1500), w("ending", hist::ending, 1500), w("full_tables", hist::full_tables, 1500),
        ]),
        h("C08", &["tag:event-fill", "tag:event-out", "tag:event-skipped", "tag:inline", "queues cranked in several orders"], vec![
            w("crossing", hist::crossing, 3000), w("crank_orders", hist::crank_orders, 2500), w("general", hist::general, 2500), w("full_queue", hist::full_queue, 40), w("sweeping", hist::sweeping, 1000),
        ]),
        h("C13", &["tag:expired-drop", "tag:own-side-expired", "tag:already-expired", "tag:expiry-clamped", "tag:expiring-post"], vec![
            w("expiries", hist::expiries, 8000), w("general", hist::general, 1500), w("full_book", hist::full_book, 40),
        ]),
        h("C14", &["tag:peg-fill", "tag:peg-post", "tag:peg-refund", "tag:peg-drop", "tag:beyond-peg-limit", "refused:no oracle price"], vec![
            w("pegged", hist::pegged, 8000), w("ties", hist::ties, 1500), w("wild", hist::wild, 1500),
        ]),
        h("C15", &["tag:full", "tag:evict", "refused-tag:full-refuse"], vec![w("full_book", hist::full_book, 1500)]),
        h("C16", &["tag:paid-out", "tag:referrer-paid", "tag:swept", "tag:by-delegate", "refused:receiver is not the owner", "wound down"], vec![
            w("settling", hist::settling, 6000), w("general", hist::general, 2500), w("ending", hist::ending, 2500),
        ]),
        h("C17", &["refused Signer unsigned", "refused Signer stranger", "refused Admin stranger", "refused OptAdmin left out", "refused OpenOrders forged", "refused Market forged for a stranger", "refused Bids swapped with asks", "refused Vault other market's", "refused Oracle left out", "refused TokenFrom other mint", "altered sweep", "altered settle_expired", "altered prune", "altered set_expired", "altered set_delegate"], vec![
            w("auth", auth::auth, 2500), w("auth_ending", auth::auth_ending, 2500),
            w("accounts", life::accounts, 1200), w("markets", life::markets, 400), w("closing", life::closing, 1500), w("stubs", life::stubs, 300),
        ]),
        h("C18", &["market created", "market closed", "refused: fees", "refused: lots", "refused: expiry passed", "refused: one mint", "refused: second oracle alone", "refused: the same oracle twice", "refused: oracles of two kinds", "refused: oracle of unknown kind", "refused: account already initialised", "refused closing: not expired", "refused closing: tokens owed", "refused closing: no closing admin", "refused: base owed", "refused: a fixed bid left", "refused: a pegged ask left", "refused: a pegged bid left", "refused: events left", "refused: expiring at this second", "refused-tag:market-expired"], vec![
            w("markets", life::markets, 3000), w("closing", life::closing, 3000), w("ending", hist::ending, 3000),
        ]),
        h("C19", &["index created", "index closed", "account created", "account closed", "closed an account in the middle of the list", "refused: closing a used index", "refused: closing an account that is not empty", "refused: closing an account holding only orders or debts", "refused: 257th account", "refused: name too long", "refused: account with another number"], vec![
            w("accounts", life::accounts, 5000), w("general", hist::general, 1500),
        ]),
        h("C20", &["tag:post", "tag:cancelled", "tag:event-out", "tag:event-fill"], vec![
            w("cancels", hist::cancels, 3000), w("crossing", hist::crossing, 2500), w("expiries", hist::expiries, 2000), w("general", hist::general, 2000), w("full_book", hist::full_book, 40), w("sweeping", hist::sweeping, 600), w("full_tables", hist::full_tables, 800),
        ]),
        h("C22", &["one Stub used", "one Pyth used", "one Swb1 used", "one Swb2 used", "one Raydium used", "two Pyth used", "two Raydium used", "one Pyth not used", "one Swb1 not used", "one Swb2 not used", "used in its last slot", "not used one slot later", "deviation at the limit", "unknown kind of account", "traded at the price of Pyth", "traded at the price of Raydium", "pegged order refused without a price"], vec![
            w("oracle_reading", direct::oracle_reading, 25000), w("oracle_trading", direct::oracle_trading, 8000), w("pegged", hist::pegged, 1500),
        ]),
        Plan {
            property: "C24",
            rule: "distinct (key held, key compared with) among set values",
            assumptions: &[],
            need: &["unset against the zero key", "unset against a key", "set and equal", "set and different", "zero key given", "key with a single bit"],
            works: vec![w("option_keys", direct::option_keys, 50000)],
        },
        Plan {
            property: "C25",
            rule: "distinct (type, byte written, value) among accepted views",
            assumptions: &[],
            need: &["refused only for wrong owner", "refused only for wrong tag", "refused only for too short", "while viewed for reading", "while viewed for writing", "while read", "while opened for writing", "market accepted", "book side accepted", "event queue accepted", "open orders accepted", "stub oracle accepted"],
            works: vec![w("typed", direct::typed, 50000)],
        },
        h("C23", &["fills", "tag:event-fill", "tag:deposited", "tag:delegate-set", "tag:swept"], vec![
            w("general", hist::general, 5000), w("crossing", hist::crossing, 3000), w("settling", hist::settling, 2500), w("sweeping", hist::sweeping, 800), w("log_bytes", direct::log_bytes, 1000),
        ]),
        h("C30", &["tag:deposited", "fills", "nothing to move", "transfer", "signed transfer", "lamport transfer", "more than there is", "without the authority", "tag:from-wallet", "tag:penalty-paid"], vec![
            w("movements", direct::movements, 2000), w("deposits", hist::deposits, 4000), w("general", hist::general, 3000), w("settling", hist::settling, 3000), w("poor", hist::poor, 1500),
        ]),
        h("C31", &["fixed price recovered", "price below one refused", "ids generated", "tag:post", "tag:peg-post", "fills"], vec![
            w("ids", direct::ids, 3000), w("general", hist::general, 3000), w("ties", hist::ties, 4000), w("pegged", hist::pegged, 2000),
        ]),
        h("C29", &["tag:edit-unfilled", "tag:edit-filled", "tag:edit-cancel-only", "tag:capped", "cancel_and_batch"], vec![
            w("edits", hist::edits, 8000), w("poor", hist::poor, 2500),
        ]),
        h("C21", &["altered instruction succeeded", "altered instruction refused", "altered instruction panicked", "damaged accounts, refused", "damaged accounts, panicked", "altered: account replaced", "altered: damaged side", "altered: damaged queue", "altered: truncated account"], vec![
            w("hostile", hostile::hostile, 4000), w("wild", hist::wild, 2500), w("full_book", hist::full_book, 24), w("full_queue", hist::full_queue, 24),
        ]),
        h("C32", &["tag:penalty", "tag:penalty-paid", "take"], vec![w("settling", hist::settling, 4000), w("general", hist::general, 4000), w("crossing", hist::crossing, 2000), w("sweeping", hist::sweeping, 2000)]),
    ]
}

const RULE: &str = "distinct (instruction, situations the model met, trades, sizes of book and queue) among the steps that concern the property";

fn w(name: &'static str, f: fn(&mut crate::report::Case), quick: u64) -> Work {
    Work { name, f, quick, thorough: quick * 10 }
}

fn h(property: &'static str, need: &'static [&'static str], works: Vec<Work>) -> Plan {
    Plan { property, rule: RULE, assumptions: &[], need, works }
}
