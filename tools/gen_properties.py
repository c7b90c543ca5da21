#!/usr/bin/env python3
# Writes /verif/properties.jsonl; edit the table here, not the output.
import json, os
P = "programs/openbook-v2/src/"
B = P + "state/orderbook/"
out = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Vaults always hold exactly what the market owes",
  "After every instruction, the market's recorded deposit totals equal the sum of all traders' free balances, the collateral behind their resting orders (including reserved maker fees), matched-but-unapplied trades, and unpaid rebates and fees, in both tokens. Each vault holds at least those totals, and exactly those totals when nobody donated tokens to it from outside. No sequence of instructions creates, destroys or strands tokens.",
  ["histories", "inputs", "configurations"],
  "every sequence of instructions by any number of traders on markets with any lot sizes and fee configuration, with events applied inline, later, in any order or never",
  "The fixed scenarios of the program tests check a few balances after a handful of steps with one fee setting; conservation is a statement about all histories, and those tests cannot even be run without the Solana test runtime.",
  [B+"book.rs", P+"state/open_orders_account.rs", P+"instructions/place_order.rs", P+"instructions/place_take_order.rs", P+"instructions/settle_funds.rs", P+"instructions/deposit.rs", P+"instructions/sweep_fees.rs", P+"token_utils.rs"],
  [("deposit totals updated with every transfer", P+"instructions/*.rs"), ("execute_maker / execute_taker / cancel_order bookkeeping", P+"state/open_orders_account.rs")],
  [("base_deposit_total, quote_deposit_total", "what the market believes it holds", P+"state/market.rs")],
  ["account bytes and token balances before and after every instruction"])
p("C02", "Matching follows price-time priority at the maker's price",
  "An incoming order trades only with live orders of the opposite side, always taking the best effective price first and, at equal price, the order placed earliest, skipping none and going no further than its own size. Every trade executes at the resting order's effective price, and each resting order is reduced by exactly what it traded and removed when nothing is left.",
  ["histories", "inputs", "configurations"],
  "every book content reachable by any history (fixed and oracle-pegged orders mixed, both sides, any prices and sizes), every incoming order",
  "Existing tests match against one to three resting orders; ordering bugs need ties, mixed order kinds, deletions in between or large books.",
  [B+"book.rs", B+"bookside_iterator.rs", B+"ordertree_iterator.rs", B+"ordertree.rs", B+"nodes.rs", B+"order_type.rs"],
  [("new_order matching loop", B+"book.rs"), ("rank_orders merge of the two trees", B+"bookside_iterator.rs"), ("key = price then sequence", B+"nodes.rs")],
  observe=["fill events and logs, book contents before/after"])
p("C03", "An order never exceeds its price, size, budget or match limit",
  "An order never trades at a price worse than its limit, never buys or sells more base than its maximum, never spends (or for a sale receives) more quote than its maximum including fees, and never takes part in more matches than its limit. The tokens debited from the trader's wallet and free balance together equal exactly what was traded plus what was locked for the resting remainder plus fees, and free balance is used before the wallet.",
  ["inputs", "histories", "configurations"],
  "every order size, budget, price, fee rate, lot size and book",
  "The rounding interplay of lots, taker fee and maker fee only shows at specific remainders; tests use round numbers.",
  [B+"book.rs", B+"order.rs", P+"state/market.rs", P+"instructions/place_order.rs", P+"instructions/place_take_order.rs", P+"instructions/cancel_all_and_place_orders.rs"],
  [("remaining_base_lots / remaining_quote_lots", B+"book.rs"), ("subtract_taker_fees", P+"state/market.rs")],
  observe=["wallet balances, positions, fills per instruction"])
p("C04", "Each order type rests, takes or aborts exactly as defined",
  "Market and immediate-or-cancel orders never rest; fill-or-kill orders either execute their whole size or fail with no effect; post-only orders never take and are dropped if they would; sliding post-only orders rest at the closest price that does not cross; limit orders rest their untraded, affordable remainder at their own price. An instruction reports an order id exactly when an order was put on the book, and that order is then found there with the requested side, price, owner, client id, expiry and remaining size.",
  ["inputs", "histories"],
  "every order type, side, price, size and self-trade mode against every reachable book, time and oracle price",
  "Each type is tested on at most one book; the interactions (match limit reached, budget exhausted, expired opposite orders, oracle unavailable) are not.",
  [B+"order.rs", B+"order_type.rs", B+"book.rs", P+"lib.rs"],
  [("post_target, is_post_only, is_fill_or_kill, price", B+"order.rs"), ("PlaceOrderType to PostOrderType mapping", B+"order_type.rs")],
  observe=["return data, book contents, instruction result"])
p("C05", "Self-trades follow the trader's chosen mode and carry no fees",
  "When an order meets a resting order of the same account, the chosen mode is followed: both sides are reduced without any fee or rebate to anyone, or the resting order is cancelled with full refund and matching goes on, or the whole instruction fails. After a self-trade and settlement the trader has exactly the tokens they had before, up to the rounding of a reserved maker fee that is split over several trades.",
  ["inputs", "histories", "configurations"],
  "every mix of own and foreign resting orders, every mode, side, order kind and fee configuration",
  "One test covers three asks with a zero maker fee; bids with reserved maker fees, pegged orders and mixed matching are not reached.",
  [B+"book.rs", P+"state/open_orders_account.rs", B+"order_type.rs"],
  [("self-trade branch of the matching loop", B+"book.rs"), ("is_self_trade in execute_maker", P+"state/open_orders_account.rs")],
  observe=["positions, book, wallet balances"])
p("C06", "Fees, rebates and volumes are charged exactly at configured rates",
  "A taker pays the configured rate rounded up on the quote they trade with others; a maker pays or receives the configured rate rounded down per fill; what the taker paid and makers did not receive becomes the referrer rebate. Accrued fees, rebates outstanding, referrer payouts and traded volumes in the market and positions move by exactly these amounts, and a rebate is never larger than the fee that funds it.",
  ["inputs", "configurations", "histories"],
  "every fee pair allowed at market creation, every trade size, inline or deferred maker processing",
  "Only one or two fee settings are tested and rounding at single-unit level is not.",
  [P+"state/market.rs", P+"state/open_orders_account.rs", B+"book.rs"],
  [("taker_fees_ceil, maker_fees_floor/ceil, maker_rebate_floor", P+"state/market.rs")],
  observe=["market and position fee fields, logs"])
p("C07", "Cancelling removes only the chosen orders and refunds their collateral",
  "Cancelling by order id, by client id, or in bulk with side filter and limit removes exactly the caller's matching resting orders that are still on the book and returns to the free balance exactly the tokens locked for their remaining size, including reserved fees. Orders of other traders, other orders of the caller and already matched quantities are untouched, and cancelling an order that is no longer on the book refunds nothing.",
  ["inputs", "histories"],
  "every book and open-order table (partially filled, filled but unapplied, expired, pegged, duplicate client ids), every id, side filter and limit",
  "Tests cancel a fresh order; partially filled, pegged and already-matched orders and limits are not covered.",
  [B+"book.rs", P+"state/open_orders_account.rs", P+"instructions/cancel_order.rs", P+"instructions/cancel_all_orders.rs", P+"instructions/cancel_order_by_client_order_id.rs", P+"instructions/prune_orders.rs"],
  [("Orderbook::cancel_order / cancel_all_orders", B+"book.rs"), ("OpenOrdersAccount::cancel_order", P+"state/open_orders_account.rs")],
  observe=["book, positions, return data"])
p("C08", "Every matched maker is settled exactly once, whenever and however",
  "Each fill or removal affecting a maker is applied to that maker's account exactly once: immediately if the account was supplied, otherwise later from the event queue when a crank supplies it, and never before or twice. The final balances do not depend on when or in which order events are applied; a crank applies at most eight, skips events whose account is missing without losing them, and leaves all other queued events in their order.",
  ["schedules", "histories", "inputs"],
  "every interleaving of orders, cranks with any subset of accounts and any requested slots, cancels and settlements",
  "The order in which cranks run and which accounts they carry is a schedule; tests use one.",
  [P+"instructions/consume_events.rs", B+"book.rs", B+"heap.rs", P+"state/open_orders_account.rs"],
  [("process_fill_event / process_out_event", B+"book.rs"), ("delete_slot after applying", P+"instructions/consume_events.rs")],
  observe=["event queue contents and maker positions before/after each instruction"])
p("C09", "The event queue is a lossless FIFO with removal at any position",
  "Whatever sequence of pushes, pops and removals by slot is performed, the queue holds exactly the events pushed and not removed, unchanged and in insertion order; its length, emptiness, fullness, front, iteration and slot lookup agree with that, its sequence number counts pushes, and all 600 places remain usable for ever. Pushing to a full queue and removing an unused slot are refused without any change.",
  ["inputs", "histories"],
  "every sequence of push, pop and removal operations, including full and empty queues",
  "Unit tests run short hand-written sequences of a few operations.",
  [B+"heap.rs"],
  [("free list and circular used list", B+"heap.rs")],
  [("header.free_head/used_head/count, nodes[].next/prev", "linked lists", B+"heap.rs")],
  ["public queue API", "raw account bytes"])
p("C10", "An order tree is a faithful sorted map with correct expiry tracking",
  "Whatever sequence of insertions and removals is performed on a side's two order trees, each contains exactly the orders inserted and not removed with their contents intact, iterates them in strict price-time order, finds its best and worst order and any order by key, and knows the order that expires first. Storage is never leaked or shared: removed places are reused, the capacity of the side stays constant, and inserting into a full side is refused without change.",
  ["inputs", "histories"],
  "every sequence of insert, remove by key, remove worst and remove expired on both trees sharing one node pool, any keys and expiries, up to full capacity",
  "Unit tests use tens of random keys and check a few internal facts; long churn with both trees at capacity is not reached.",
  [B+"ordertree.rs", B+"ordertree_iterator.rs", B+"nodes.rs", B+"bookside.rs"],
  [("crit-bit insert/remove", B+"ordertree.rs"), ("free list", B+"ordertree.rs"), ("child_earliest_expiry", B+"nodes.rs")],
  [("roots, nodes, bump_index, free_list", "tree storage", B+"ordertree.rs")],
  ["public tree API", "raw account bytes"])
p("C11", "Walking a book side yields every live order once, in matching order",
  "Walking one side of the book at a given time and oracle price yields each resting fixed order exactly once and each oracle-pegged order whose current price is representable exactly once, ordered by effective price and then placement order, each with its correct effective price and validity. Expired orders and pegged orders beyond their peg limit are marked invalid, and without an oracle price pegged orders are absent; the valid-only walk yields exactly the valid ones.",
  ["inputs", "histories"],
  "every book side content, time and oracle price, including offsets that push prices out of range",
  "One unit test with a handful of orders at three oracle prices; runs of unrepresentable pegged orders followed by good ones are not covered.",
  [B+"bookside_iterator.rs", B+"bookside.rs", B+"ordertree_iterator.rs", B+"nodes.rs"],
  [("BookSideIter, rank_orders, oracle_pegged_price", B+"bookside_iterator.rs")],
  observe=["iter_valid / iter_all_including_invalid output"])
p("C12", "Book depth queries report what the live orders imply",
  "Best price, quantity available at a limit price, and the price reached after consuming a quantity equal what a naive computation over the currently valid orders gives, at any time and oracle price. They never count expired or out-of-limit orders and never change the book.",
  ["inputs"],
  "every book side content, time, oracle price, limit price and quantity",
  "Unit tests evaluate a single small book.",
  [B+"bookside.rs", B+"bookside_iterator.rs"],
  [("best_price, quantity_at_price, impact_price", B+"bookside.rs")],
  observe=["query results"])
p("C13", "Expired orders never trade and always refund",
  "An order whose expiry time has been reached is never matched from that second on, and before that second it is never treated as expired; expiry zero means never, an already passed expiry means the order is not placed, and expiries further away than 65535 seconds are shortened to that. An expired order taken off the book returns its full remaining collateral to its owner exactly once.",
  ["inputs", "histories", "schedules"],
  "every expiry, clock step and interleaving of takers, placements, cancels and cranks around the expiry second",
  "Tests place one expiring order and jump far past it; the boundary second, the per-order drop limits and the expiry index are not settled.",
  [B+"nodes.rs", B+"order.rs", B+"book.rs", B+"ordertree.rs", B+"bookside_iterator.rs", B+"bookside.rs"],
  [("LeafNode::is_expired/expiry", B+"nodes.rs"), ("tif_from_expiry", B+"order.rs"), ("remove_one_expired, DROP_EXPIRED_ORDER_LIMIT", B+"bookside.rs")],
  observe=["book, events, positions around expiry"])
p("C14", "Oracle-pegged orders float with the oracle and respect their limit",
  "A pegged order's effective price is always the current oracle price plus its offset; it trades only at that price, only while that price is not better for the taker than its peg limit and is representable, and never while no valid oracle price is available. A pegged bid always has locked enough quote to pay at its limit, and on a fill at a lower price the difference including reserved fees becomes free.",
  ["inputs", "histories", "configurations"],
  "every offset, peg limit, oracle path (moves, goes stale, loses confidence) and interleaving with fixed orders",
  "Tests move the oracle to two or three values with one order resting.",
  [B+"bookside_iterator.rs", B+"nodes.rs", B+"order.rs", B+"book.rs", P+"state/open_orders_account.rs"],
  [("oracle_pegged_price", B+"bookside_iterator.rs"), ("oracle_pegged_price_data/offset", B+"nodes.rs"), ("locked_amount_above_fill_price", P+"state/open_orders_account.rs")],
  observe=["fills, book and positions while the oracle moves"])
p("C15", "A full book only ever evicts its worst order for a better one",
  "When a side of the book is full, a new resting order is accepted only if an expired order could be dropped or its price is strictly better than the worst resting order, in which case exactly that worst order is removed and its owner is refunded in full; otherwise the instruction fails and nothing changes.",
  ["histories", "inputs"],
  "every full or nearly full book of fixed and pegged orders, every new order",
  "No existing test runs the instruction against a full book with pegged and fixed orders.",
  [B+"book.rs", B+"bookside.rs", B+"ordertree.rs", B+"bookside_iterator.rs"],
  [("remove_one_expired then remove_worst", B+"book.rs"), ("BookSide::remove_worst", B+"bookside.rs")],
  observe=["book, events and result of placements on full books"])
p("C16", "Settlement pays out exactly the free balance to allowed receivers",
  "Settling transfers exactly the account's free base and quote to the given token accounts and resets them to zero, once; the owner may choose any receiver, a delegate only accounts belonging to the owner, and nobody else may settle. Outstanding rebates go to the named referrer or, if none is named, to the market's collectable fees, and the fee collector can withdraw exactly those and nothing else.",
  ["inputs", "histories", "configurations"],
  "every position (open orders, pending events, rebates), caller role, receiver and referrer, before and after market expiry",
  "Tests settle a few positions as the owner.",
  [P+"instructions/settle_funds.rs", P+"instructions/settle_funds_expired.rs", P+"instructions/sweep_fees.rs", P+"accounts_ix/settle_funds.rs", P+"accounts_ix/settle_funds_expired.rs", P+"state/open_orders_account.rs", P+"token_utils.rs"],
  [("is_settle_destination_allowed", P+"state/open_orders_account.rs"), ("settle_funds", P+"instructions/settle_funds.rs")],
  observe=["token balances and positions"])
p("C17", "No privileged effect without the required signature",
  "Orders can be placed, changed, cancelled or settled for an account only with the signature of its owner or current delegate; delegates can be set and accounts closed only by the owner; pruning an expired market's orders and settling them out is reserved to the closing admin; admins configured on a market must have signed the operations reserved for them, and tokens leave a wallet only with its authority's signature. Supplying foreign, swapped, wrong-typed or unrelated accounts in any position makes the instruction fail without effect.",
  ["inputs", "configurations", "histories"],
  "every instruction with every account position replaced or its signature withheld, on markets with every combination of admins",
  "Account substitution is a large input space; tests cover a few wrong signers.",
  [P+"accounts_ix/*.rs", P+"state/open_orders_account.rs", P+"pubkey_option.rs"],
  [("has_one / constraint attributes", P+"accounts_ix/*.rs"), ("is_owner_or_delegate", P+"state/open_orders_account.rs")],
  observe=["instruction result for mutated account lists, changed accounts"])
p("C18", "Markets open, expire and close only under their lifecycle rules",
  "A market is created only with positive lot sizes, distinct mints, fees within range where the taker fee covers any maker rebate, a future or no expiry, and usable oracles, and then records exactly the given parameters with an empty book and queue. After expiry no order, deposit or take is accepted while cancelling, cranking and settling still work; forced expiry and pruning need the closing admin, and closing succeeds only for an expired, completely empty market, returning all rent.",
  ["inputs", "histories", "configurations"],
  "every creation parameter set and every sequence of trading, expiry, pruning, settlement and closing",
  "Tests walk one happy path and a few rejected ones.",
  [P+"instructions/create_market.rs", P+"instructions/close_market.rs", P+"instructions/set_market_expired.rs", P+"instructions/prune_orders.rs", P+"accounts_ix/create_market.rs", P+"state/market.rs", P+"util.rs"],
  [("require! checks in create_market", P+"instructions/create_market.rs"), ("is_expired / is_empty", P+"state/market.rs")],
  observe=["results and account bytes through whole market lives"])
p("C19", "A trader's accounts are indexed, unique and only closed when empty",
  "For every owner the index lists exactly that owner's existing open-orders accounts in creation order, its creation counter never decreases while the index exists, and every account gets a number and address fresh for that index. An account starts empty with the given market, owner, delegate and name, can be closed only when it holds no funds, orders or debts, and the index only when it lists nothing; closing returns the rent to the chosen receiver.",
  ["histories", "inputs"],
  "every sequence of creating and closing index and accounts by several owners, up to the limit of 256, with any names",
  "Tests create a handful of accounts and close them in order.",
  [P+"instructions/create_open_orders_account.rs", P+"instructions/close_open_orders_account.rs", P+"instructions/create_open_orders_indexer.rs", P+"instructions/close_open_orders_indexer.rs", P+"accounts_ix/create_open_orders_account.rs", P+"accounts_ix/close_open_orders_account.rs", P+"accounts_ix/create_open_orders_indexer.rs", P+"accounts_ix/close_open_orders_indexer.rs", P+"state/open_orders_indexer.rs", P+"util.rs"],
  [("created_counter in the address seeds", P+"accounts_ix/create_open_orders_account.rs"), ("addresses list with realloc", P+"state/open_orders_indexer.rs"), ("fill_from_str", P+"util.rs")],
  observe=["index and account bytes, lamports"])
p("C20", "A trader's open-order table always agrees with the book",
  "Every resting order belongs to exactly one used entry of its owner's open-order table with the same id, client id, side and kind, and every used entry is either on the book or has exactly one queued event that will release it. The position's base and quote lots in bids and asks equal the sum over its resting orders plus queued, unapplied quantities. What the account reports about its own table - entries in use, whether there are any, the next free entry, the entry of an id or client id - agrees with the table.",
  ["histories"],
  "every reachable state under any instruction sequence",
  "It relates three accounts over whole histories; tests compare single counters after scripted steps.",
  [P+"state/open_orders_account.rs", B+"book.rs", B+"order_type.rs", B+"nodes.rs"],
  [("add_order / remove_order / owner_slot", P+"state/open_orders_account.rs"), ("SideAndOrderTree encoding", B+"order_type.rs")],
  observe=["decoded book, queue and open-order tables after every instruction"])
p("C21", "Hostile inputs are refused without effect or memory error",
  "For any instruction bytes, account list and account contents, the program either succeeds with a permitted effect or fails; when it fails no account changes, and it never reads or writes outside the accounts it was given, never modifies read-only or foreign accounts, and never creates lamports. Numeric extremes in arguments lead to rejection, never to wrapped or truncated amounts.",
  ["inputs", "histories"],
  "arbitrary instruction data, extreme arguments, truncated, corrupted, aliased and foreign accounts",
  "Memory safety and absence of effects must hold for every input; tests only send well-formed instructions.",
  [P+"lib.rs", P+"instructions/*.rs", P+"state/*.rs", P+"accounts_zerocopy.rs"],
  [("Anchor account validation, checked arithmetic, zero-copy casts", P+"**")],
  observe=["AddressSanitizer, bounds of account buffers, account bytes before/after"])
p("C22", "Oracle prices are read correctly and unusable ones are ignored",
  "The price used for pegged orders equals the price published by the configured oracle account (stub, Pyth, Switchboard, Raydium pool) or the ratio of the two configured oracles, converted with the tokens' decimals and the market's lot sizes. A price that is older than the configured staleness, less certain than the configured confidence filter, published as negative by a price feed, or of unknown origin is never used.",
  ["inputs", "configurations"],
  "every oracle kind, account content, exponent, confidence, publish slot, decimals, lot sizes and configuration",
  "Tests decode one fixture per oracle kind and use the stub oracle elsewhere.",
  [P+"state/oracle.rs", P+"state/market.rs", P+"state/raydium_internal.rs", P+"accounts_zerocopy.rs"],
  [("oracle_state_unchecked, is_stale, has_valid_confidence, has_valid_combined_confidence", P+"state/oracle.rs"), ("oracle_price / native_price_to_lot", P+"state/market.rs")],
  observe=["price functions' results and effective prices of pegged fills"])
p("C23", "Published logs tell exactly what happened",
  "Every instruction's event logs list exactly the fills, taker totals, deposits, settlements, fee sweeps, delegate changes and positions that it effected, with the true amounts, parties, prices, fees, sequence numbers and times, and nothing else. Logs decode with the published interface.",
  ["inputs", "histories"],
  "every instruction sequence",
  "No existing test reads the logs.",
  [P+"logs.rs", P+"state/open_orders_account.rs", B+"book.rs", P+"instructions/*.rs"],
  [("emit_stack", P+"logs.rs")],
  observe=["sol_log_data output compared with state changes"])
p("C24", "An unset optional key never authorises or matches anyone",
  "An optional account key is either unset or exactly one key: storing and reading back gives the same key, the all-zero key counts as unset, and an unset value compares unequal to every key, including the all-zero one, in both directions. Two optional keys are equal exactly when both are unset or both hold the same key.",
  ["inputs"],
  "every key value, in particular zero, nearly zero and equal keys",
  "Three hand-picked values are tested.",
  [P+"pubkey_option.rs", P+"state/market.rs", P+"state/open_orders_account.rs"],
  [("PartialEq / From implementations", P+"pubkey_option.rs")],
  observe=["API results", "admin and delegate checks"])
p("C25", "Typed account access rejects foreign data and shows exact bytes",
  "Reading an account as a given type succeeds only if the account belongs to the program that owns that type, is long enough and carries the type's tag; the view then shows exactly the bytes after the tag, and writes through a mutable view change exactly those bytes. An account already borrowed for writing cannot be read or written through another view; such a request ends in an error, never in an empty answer.",
  ["inputs", "schedules"],
  "every owner, tag, length and content, every combination of simultaneous borrows",
  "There are no tests of the loaders.",
  [P+"accounts_zerocopy.rs"],
  [("LoadZeroCopy, LoadMutZeroCopy, LoadZeroCopyRef, LoadMutZeroCopyRef", P+"accounts_zerocopy.rs")],
  observe=["loader results on crafted accounts"])
p("C26", "Client-side book quotes predict on-chain execution",
  "The base, quote and maker-rebate amounts that the client library's book functions (lib/client/src/book.rs) compute for a taker order from a book snapshot equal what executing that order against the same book does, and every maker whose fill that execution can process is in the library's account list. Invalid and expired orders are never counted in a quoted amount.",
  ["inputs", "configurations"],
  "every book, side, size, fee setting, time and oracle price",
  "The client library has no tests of its quoting code.",
  ["lib/client/src/book.rs", B+"bookside.rs"],
  [("amounts_from_book, iterate_book, remaining_accounts_to_crank", "lib/client/src/book.rs")],
  observe=["quote versus execution of the same order"])
p("C27", "The client account cache returns the newest write on the live chain",
  "Whatever order slot and account updates arrive in, reading an account from the client's chain cache returns the write with the highest slot, the latest received among equal slots, of those on the chain ending at the newest processed slot (rooted writes count as on the chain), and never a write from an abandoned fork. Pruning never removes a write that can still become visible. Slots behind the root are settled: what arrives about them later does not change the chain.",
  ["schedules", "inputs"],
  "every interleaving of slot status and account updates over forking chains, with duplicates and out-of-order delivery",
  "The unit test feeds one scripted sequence.",
  ["lib/client/src/chain_data.rs"],
  [("update_slot, update_account, is_account_write_live", "lib/client/src/chain_data.rs")],
  observe=["cache reads after every update"])
p("C28", "Accounts, arguments and errors conform to the published interface",
  "Account data written by the program decodes with the layouts of the published interface description, field by field, instructions built from it are understood as intended, published logs and return values decode with it, and errors carry the published numbers, names and messages, also after context has been added to them. Account sizes and layouts do not change.",
  ["inputs", "histories"],
  "every account the program writes in any history, every instruction and error in the interface description",
  "Size assertions exist, but no test compares field positions, enum numbers or error codes with the interface file.",
  ["idl/openbook_v2.json", P+"state/*.rs", P+"error.rs", P+"lib.rs", P+"logs.rs"],
  [("zero-copy struct definitions", P+"state/*.rs"), ("error enum order", P+"error.rs")],
  observe=["raw account bytes, instruction discriminators, error codes"])
p("C29", "Editing and batch placement equal their step-by-step counterparts",
  "Editing an order has the same effect as cancelling the named order and placing the replacement reduced by the part that had already been filled. Placing a batch has the same effect as placing its orders one by one, bids first, each capped by what the trader can still fund and with expired ones skipped; the cancelling variant first cancels all of the account's orders. Returned ids correspond to the placed orders in sequence.",
  ["inputs", "histories"],
  "every open-order table, replacement order, batch composition, free balance and wallet",
  "One edit scenario and one batch scenario are tested.",
  [P+"instructions/edit_order.rs", P+"instructions/cancel_all_and_place_orders.rs", P+"lib.rs"],
  [("edit_order", P+"instructions/edit_order.rs"), ("cancel_all_and_place_orders", P+"instructions/cancel_all_and_place_orders.rs")],
  observe=["states after batch versus reference"])
p("C30", "Deposits and token movements are exact and correctly directed",
  "A deposit moves exactly the stated base and quote amounts from the payer's accounts into the market's vaults and credits the same amounts to the named account; a refill moves only what is missing to reach the stated amounts. Every other instruction moves tokens and lamports only between the accounts and in the direction and amount its rules state; zero amounts move nothing.",
  ["inputs", "histories"],
  "every amount, balance, payer and instruction",
  "Tests deposit fixed amounts once.",
  [P+"instructions/deposit.rs", P+"lib.rs", P+"token_utils.rs", P+"accounts_ix/deposit.rs"],
  [("token_transfer, token_transfer_signed, system_program_transfer", P+"token_utils.rs")],
  observe=["token program and system program calls with their arguments"])
p("C31", "Order ids are never reused and encode side, price and age",
  "The market's order counter grows with every accepted order attempt, so no two orders of a market ever have the same id, and at equal price a later order always ranks behind an earlier one. The price or peg offset and the counter can be recovered exactly from the id for every representable price.",
  ["inputs", "histories"],
  "every price, offset, side and counter value; every history",
  "Unit tests encode a few values.",
  [B+"nodes.rs", P+"state/market.rs", B+"order.rs"],
  [("gen_order_id, new_node_key, fixed_price_data, oracle_pegged_price_data", B+"nodes.rs")],
  observe=["ids returned, ids on the book, key functions"])
p("C32", "Leaving work on the event queue costs exactly the fixed penalty",
  "An order instruction that makes the event queue longer costs its sender exactly 500 lamports, paid to the market immediately by account-less takers and owed by the account until its next settlement otherwise; instructions that do not lengthen the queue cost nothing. Settlement collects exactly the owed penalties from the named payer, once.",
  ["histories", "inputs"],
  "every instruction sequence with any subset of maker accounts supplied",
  "One test covers a single penalised take.",
  [P+"instructions/place_order.rs", P+"instructions/place_take_order.rs", P+"instructions/cancel_all_and_place_orders.rs", P+"instructions/settle_funds.rs", P+"token_utils.rs"],
  [("penalty_heap_count, PENALTY_EVENT_HEAP", P+"instructions/place_order.rs")],
  observe=["lamports and penalty counters"])
TS = "ts/client/src/"
p("C33", "The TypeScript client reads markets, books, queues and accounts as they are",
  "What the TypeScript client reports equals what the accounts hold: the orders of a side best first with price, size, owner, sequence number and whether they have expired; best prices and levels; waiting events in queue order; an account's open orders and its balances, counting fills that still wait on the queue as they will be credited; the accounts and slots a crank has to name; an owner's accounts; and all markets, or those of given mints. Reloading or watching an account gives the same as reading it afresh. Converting prices and quantities between lots and display units and back gives the original value.",
  ["inputs", "histories"],
  "every market, book of fixed-price orders, queue, account table, clock and set of markets; every value exactly representable in display units",
  "No test of the repository runs the TypeScript client offline.",
  [TS+"accounts/bookSide.ts", TS+"accounts/eventHeap.ts", TS+"accounts/market.ts", TS+"accounts/openOrders.ts", TS+"accounts/openOrdersIndexer.ts", TS+"market.ts", TS+"structs/order.ts", TS+"utils/watcher.ts"],
  [("BookSide.fixedItems, getL2, best", TS+"accounts/bookSide.ts"), ("EventHeap.items, parsedEvents", TS+"accounts/eventHeap.ts"), ("OpenOrders.getBalance", TS+"accounts/openOrders.ts"), ("findAllMarkets, findAccountsByMints", TS+"market.ts")],
  observe=["objects returned by the client for accounts written by the real program"])
p("C34", "Instructions built by the TypeScript client do what was asked",
  "An instruction built by the TypeScript client from a request has exactly the effect of that request: same acceptance or refusal and the same state of every account afterwards as the corresponding instruction built by hand. It demands signatures only of parties whose keys the caller supplied or owns, and every signer the client hands back is one the instruction demands.",
  ["inputs", "histories"],
  "every request a caller can express through the client: markets, accounts, orders of every kind, batches, cancellations, deposits, settlements, cranks, with and without delegate and referrer",
  "No test of the repository runs the TypeScript client offline.",
  [TS+"client.ts", TS+"accounts/openOrders.ts", TS+"accounts/market.ts", TS+"utils/utils.ts"],
  [("placeOrderIx and the other *Ix builders", TS+"client.ts"), ("OpenOrders.placeOrder, cancelOrder", TS+"accounts/openOrders.ts")],
  observe=["verdict and account bytes after executing the built instruction with the real program"])
LC = "lib/client/src/"
p("C35", "The Rust client sends exactly what was asked, signed by the right keys",
  "Every call of the Rust client library that creates an indexer, account or market, places or cancels orders, deposits, settles or consumes events sends one transaction whose effect, acceptance or refusal equals that of the corresponding instruction built by hand. It is paid by the fee payer, signed by exactly the keys it needs among those given, and carries the configured priority fee, if any, and nothing else. A refusal is told to the caller as an error, with the program's messages when the node reports them. Looking for an account returns the owner's account of that name, and opens it under the number the program expects when there is none, also for new owners and after accounts were closed.",
  ["inputs", "histories"],
  "every request expressible through the library on every reachable state, with and without admins, oracles, referrers, priority fees, separate fee payers and nodes that fail",
  "No test of the repository runs the client library, and it needs a validator.",
  [LC+"client.rs", LC+"gpa.rs"],
  [("OpenBookClient::place_order and the other calls", LC+"client.rs"), ("find_or_create_account", LC+"client.rs"), ("TransactionBuilder", LC+"client.rs"), ("fetch_openbook_accounts, fetch_open_orders_indexer", LC+"gpa.rs")],
  observe=["transactions received by the node, state after executing them with the real program, results told to the caller"])
p("C36", "Client-side fetchers return what the node or stream last told",
  "Fetching an account through the client library returns the bytes the source holds, and an error when it holds none. The caching fetcher answers with the newest value it fetched since it was last emptied, asks only for what it does not have, never fetches the same thing twice at the same time, gives everyone waiting the same answer, and forgets failures so that the next call tries again. Update messages reach the account cache with their account, slot, parent and status unchanged, refreshed accounts are stored with the node's slot, and lists contain exactly the accounts of the program and kind asked for.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of tasks asking for the same accounts while values change, fetches fail and the cache is emptied; every stream of update messages",
  "No test of the repository runs the fetchers; joining and failing fetches depend on the order in which tasks run.",
  [LC+"account_fetcher.rs", LC+"chain_data_fetcher.rs", LC+"account_update_stream.rs"],
  [("CachedAccountFetcher, CoalescedAsyncJob", LC+"account_fetcher.rs"), ("AccountFetcher over ChainData", LC+"chain_data_fetcher.rs"), ("Message::update_chain_data", LC+"account_update_stream.rs")],
  observe=["answers of the fetchers, requests reaching the source behind them"])
p("C37", "The TypeScript client sends transactions as asked and tells the outcome",
  "Sending through the TypeScript client sends exactly one transaction with the given instructions unchanged and in order, preceded by one priority fee instruction if and only if a fee other than zero is given or configured. It is paid by the wallet, signed by the wallet and the given signers the instructions demand, uses the blockhash given or else the newest at the commitment asked for, and the given lookup tables. Once it is sent a given callback is told its id once, and a failure of the callback changes nothing. Confirmation is awaited at the commitment asked for; the signature is returned only if the transaction succeeded. A transaction that could not be signed, sent or confirmed, or failed on chain, is told as an error, in the last case with its id. The caller's list of instructions stays as it was. Connections that carry a test bank are outside the domain.",
  ["inputs", "configurations", "fault_sequences"],
  "every list of instructions, signers, tables, fees, commitments and options set on provider, client and call; nodes and wallets that fail at any step",
  "No test of the repository runs the TypeScript client offline.",
  [TS+"utils/rpc.ts", TS+"client.ts"],
  [("sendTransaction", TS+"utils/rpc.ts"), ("sendAndConfirmTransaction", TS+"client.ts")],
  observe=["requests reaching the connection, in order, with the transaction sent; what the caller gets back"])
p("C38", "Client helpers tell truthfully what became of a transaction",
  "Sending and confirming a transaction through the Rust library's helper sends it once and unchanged. Its signature and slot are returned only after the node reported it at the client's commitment without an error, and with the slot the node reported; an error reported at that commitment is returned as that error. As long as it is not reported, the helper goes on asking while its blockhash (for a durable nonce the newest one) is valid in the newest slots, and ends with an error after that. Errors of the node are passed on. The reading helper reads a zero-copy account larger than its type like one of exact size and refuses one that is too short or of another kind. A message for a full channel is dropped without an error; for a closed one it is given back as an error.",
  ["fault_sequences", "inputs"],
  "every sequence of answers and failures of the node, every commitment, with and without durable nonce; every account size; every sequence of sending, receiving and closing",
  "No test of the repository runs these helpers.",
  [LC+"util.rs"],
  [("send_and_confirm_transaction, ZeroCopyDeserialize, AsyncChannelSendUnlessFull", LC+"util.rs")],
  observe=["requests reaching the node in order; what the caller gets back; messages received"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
print(len(out))
