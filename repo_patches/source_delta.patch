From 7a9c9bab5e42104eb6d69fac2fdcc2702d96f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:14 +0000
Subject: [PATCH 01/28] fix: do not lose a pegged order after skipping
 unrepresentable ones

When walking a book side, pegged orders whose price is not representable at
the current oracle price are skipped. The skip loop advanced the iterator and
then looked at the element it had just consumed, so the order after the skipped
ones was returned without being consumed and its successor was dropped. Advance
first and then peek at the next element.
---
 programs/openbook-v2/src/state/orderbook/bookside_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
index 587b60c..7a7992f 100644
--- a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
+++ b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for BookSideIter<'a> {
                 if oracle_pegged_price(oracle_price_lots, o_node, side).0 != OrderState::Skipped {
                     break;
                 }
-                o_peek = self.oracle_pegged_iter.next()
+                self.oracle_pegged_iter.next();
+                o_peek = self.oracle_pegged_iter.peek();
             }
             o_peek
         } else {
-- 
2.43.0


From 3e1d51dd9075d0d65c390072f032b80c626f0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:06 +0000
Subject: [PATCH 02/28] fix: release the maker fee reserved for a bid filled by
 its own account

---
 programs/openbook-v2/src/state/open_orders_account.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/openbook-v2/src/state/open_orders_account.rs b/programs/openbook-v2/src/state/open_orders_account.rs
index 81ad493..80b773a 100644
--- a/programs/openbook-v2/src/state/open_orders_account.rs
+++ b/programs/openbook-v2/src/state/open_orders_account.rs
@@ -162,6 +162,11 @@ impl OpenOrdersAccount {
             locked_amount_above_fill_price = quote_to_free + maker_fees_to_free;
             fill.peg_limit
         } else {
+            if side == Side::Bid {
+                // a self trade is not charged, so the fees reserved for it are free again
+                locked_maker_fees = market.maker_fees_floor(quote_native);
+                locked_amount_above_fill_price = locked_maker_fees - maker_fees;
+            }
             fill.price
         };
 
-- 
2.43.0


From 2b46d819079deb0c3aa0d318ca42c9cf51a5631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:06 +0000
Subject: [PATCH 03/28] fix: place the replacement when the edited order is
 still unfilled

---
 programs/openbook-v2/src/instructions/edit_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/instructions/edit_order.rs b/programs/openbook-v2/src/instructions/edit_order.rs
index ebfea5a..a627a78 100644
--- a/programs/openbook-v2/src/instructions/edit_order.rs
+++ b/programs/openbook-v2/src/instructions/edit_order.rs
@@ -28,7 +28,7 @@ pub fn edit_order<'c: 'info, 'info>(
 
     let filled_amount = expected_cancel_size - leaf_node_quantity;
     // note that order.max_base_lots is checked to be > 0 inside `place_order`
-    if filled_amount > 0 && order.max_base_lots > filled_amount {
+    if filled_amount >= 0 && order.max_base_lots > filled_amount {
         // Do not reduce max_quote_lots_including_fees as implicitly it's limited by max_base_lots.
         order.max_base_lots -= filled_amount;
         return crate::instructions::place_order(ctx, order, limit);
-- 
2.43.0


From df3efa01b8a14e8e7540ac10a75a73f89762d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:39 +0000
Subject: [PATCH 04/28] fix: refresh the best chain when a slot is announced
 after its child

ChainData recomputed which slots are on the best chain only when the
chain's head moved or a known slot got a new parent. A slot that becomes
known only after one of its children left the chain broken at that slot,
so writes made in it stayed invisible until the head moved again.
---
 lib/client/src/chain_data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 4db62c5..9678f71 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -76,10 +76,13 @@ impl ChainData {
         }
 
         let mut parent_update = false;
+        let mut late_slot = false;
 
         use std::collections::hash_map::Entry;
         match self.slots.entry(new_slot.slot) {
             Entry::Vacant(v) => {
+                // a slot can be announced after its children
+                late_slot = new_slot.slot < self.best_chain_slot;
                 v.insert(new_slot);
             }
             Entry::Occupied(o) => {
@@ -92,7 +95,7 @@ impl ChainData {
             }
         };
 
-        if new_best_chain || parent_update {
+        if new_best_chain || parent_update || late_slot {
             // update the "chain" field down to the first rooted slot
             let mut slot = self.best_chain_slot;
             loop {
-- 
2.43.0


From 7754d06a922dd813ccc8403613b3857f0896c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 05/28] fix: look up markets by the mints' actual position

findAccountsByMints compared the mints with bytes behind the mint fields
of the market account, so it never found a market.
---
 ts/client/src/market.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index d9ea16d..7d8b77c 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -31,13 +31,13 @@ export async function findAccountsByMints(
   const filters = [
     {
       memcmp: {
-        offset: 792,
+        offset: 576,
         bytes: baseMintAddress.toBase58(),
       },
     },
     {
       memcmp: {
-        offset: 824,
+        offset: 608,
         bytes: quoteMintAddress.toBase58(),
       },
     },
-- 
2.43.0


From e11f6a9eb9210ca50eae4e0acdcbdeac5124e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 06/28] fix: list markets beyond the first fifty signatures

Every batch of signatures was a copy of the first one, so with more than
fifty signatures findAllMarkets repeated the first markets and left out
the others.
---
 ts/client/src/market.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 7d8b77c..38adbcf 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -72,7 +72,7 @@ export async function findAllMarkets(
   ).map((x) => x.signature);
   const batchSignatures: [string[]] = [[]];
   for (let i = 0; i < signatures.length; i += BATCH_TX_SIZE) {
-    batchSignatures.push(signatures.slice(0, BATCH_TX_SIZE));
+    batchSignatures.push(signatures.slice(i, i + BATCH_TX_SIZE));
   }
   for (const batch of batchSignatures) {
     const allTxs = await connection.getTransactions(batch, {
-- 
2.43.0


From a3684f2e9a2c24eaf2528b3e0dd6d615e6dbe42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 07/28] fix: keep small prices when converting to lots

uiPriceToLots rounded the price to whole native quote units before
scaling it by the base lot size, so small prices became zero or were off
by lots. Scale before rounding, as Market.priceUiToLots does.
---
 ts/client/src/market.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 38adbcf..df6fe8f 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -143,9 +143,10 @@ function quoteLotsToUiConverter(market: MarketAccount): number {
 }
 
 export function uiPriceToLots(market: MarketAccount, price: number): BN {
-  return toNative(price, market.quoteDecimals)
-    .mul(market.baseLotSize)
-    .div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
+  return toNative(
+    price * Number(market.baseLotSize.toString()),
+    market.quoteDecimals,
+  ).div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
 }
 
 export function uiBaseToLots(market: MarketAccount, quantity: number): BN {
-- 
2.43.0


From 9ffa9e347430df532620bfeeac5968c417f92421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 08/28] fix: show orders as expired from their last second on

The program no longer matches an order when the clock reaches its expiry,
while the client still showed it as valid for that second.
---
 ts/client/src/accounts/bookSide.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/bookSide.ts b/ts/client/src/accounts/bookSide.ts
index 8103849..9b91a07 100644
--- a/ts/client/src/accounts/bookSide.ts
+++ b/ts/client/src/accounts/bookSide.ts
@@ -128,7 +128,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
         );
       }
     }
@@ -157,7 +157,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
           true,
         );
       }
-- 
2.43.0


From 5b1f6aa1ce0e59803eec893143629be6c6c9bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 09/28] fix: count waiting fills of the account in its balance

Events name the open orders account as maker, but getBalanceNative
compared them with the owner's wallet, so waiting fills were never
counted.
---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 20ad2e8..88d76a0 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -148,7 +148,7 @@ export class OpenOrders {
         switch (event.eventType) {
           case EventType.Fill: {
             const { maker, quantity, price, takerSide } = event as FillEvent;
-            if (maker.equals(this.account.owner)) {
+            if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
               const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
-- 
2.43.0


From de5dfcdb117e42a536f2b37c2a2bccea28fc7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 10/28] fix: charge no maker fee for waiting self trades

The program charges no fees when an account trades with itself, so the
balance that counts waiting fills must not deduct them either.
---
 ts/client/src/accounts/openOrders.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 88d76a0..2644f02 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -147,11 +147,15 @@ export class OpenOrders {
       for (const event of this.market.eventHeap.parsedEvents()) {
         switch (event.eventType) {
           case EventType.Fill: {
-            const { maker, quantity, price, takerSide } = event as FillEvent;
+            const { maker, taker, quantity, price, takerSide } =
+              event as FillEvent;
             if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
-              const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
+              // self trades are free of fees
+              const quoteFeesNative = maker.equals(taker)
+                ? new BN(0)
+                : this.market.makerFeeFloor(quoteNative);
               if (takerSide === 1) {
                 // buy
                 base.iadd(baseNative);
-- 
2.43.0


From fcbbff4621d29c68c7d7bcc2897e175cd88a7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 11/28] fix: name accounts and slots of waiting events only

getAccountsToConsume and getSlotsToConsume walked over all places of the
event heap including free ones and compared keys by identity, so they
listed strangers and duplicates and never found a slot. Walk over the
used places and compare the keys.
---
 ts/client/src/client.ts | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index f28d1ab..26db203 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1093,14 +1093,17 @@ export class OpenBookV2Client {
     let accounts: PublicKey[] = new Array<PublicKey>();
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const node of eventHeap.nodes) {
+      let slot = eventHeap.header.usedHead;
+      for (let i = 0; i < eventHeap.header.count; ++i) {
+        const node = eventHeap.nodes[slot];
+        slot = node.next;
         if (node.event.eventType === 0) {
           const fillEvent: FillEvent = this.program.coder.types.decode(
             'FillEvent',
             Buffer.from([0, ...node.event.padding]),
           );
           accounts = accounts
-            .filter((a) => a !== fillEvent.maker)
+            .filter((a) => !a.equals(fillEvent.maker))
             .concat([fillEvent.maker]);
         } else {
           const outEvent: OutEvent = this.program.coder.types.decode(
@@ -1108,7 +1111,7 @@ export class OpenBookV2Client {
             Buffer.from([0, ...node.event.padding]),
           );
           accounts = accounts
-            .filter((a) => a !== outEvent.owner)
+            .filter((a) => !a.equals(outEvent.owner))
             .concat([outEvent.owner]);
         }
         // Tx would be too big, do not add more accounts
@@ -1126,20 +1129,23 @@ export class OpenBookV2Client {
 
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const [i, node] of eventHeap.nodes.entries()) {
+      let slot = eventHeap.header.usedHead;
+      for (let i = 0; i < eventHeap.header.count; ++i) {
+        const node = eventHeap.nodes[slot];
         if (node.event.eventType === 0) {
           const fillEvent: FillEvent = this.program.coder.types.decode(
             'FillEvent',
             Buffer.from([0, ...node.event.padding]),
           );
-          if (key === fillEvent.maker) slots.push(new BN(i));
+          if (key.equals(fillEvent.maker)) slots.push(new BN(slot));
         } else {
           const outEvent: OutEvent = this.program.coder.types.decode(
             'OutEvent',
             Buffer.from([0, ...node.event.padding]),
           );
-          if (key === outEvent.owner) slots.push(new BN(i));
+          if (key.equals(outEvent.owner)) slots.push(new BN(slot));
         }
+        slot = node.next;
       }
     }
     return slots;
-- 
2.43.0


From 21ef99937e248a62b06981080c231364c19e0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 12/28] fix: let the delegate sign cancellations

The cancelling instructions named the owner as signer even when a
delegate was passed and returned for signing.
---
 ts/client/src/client.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 26db203..7fed712 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -817,7 +817,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrder(orderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -841,7 +841,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrderByClientOrderId(clientOrderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -866,7 +866,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelAllOrders(side, limit)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
-- 
2.43.0


From cba1e43dd69d5a8f054769b259384c457e989e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 13/28] fix: consume given events of markets without an admin

Without a consume events admin the default key was passed as signer,
which nobody can sign for. Leave the optional account out, as
consumeEventsIx does.
---
 ts/client/src/client.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 7fed712..ed5f39d 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1024,12 +1024,18 @@ export class OpenBookV2Client {
       isWritable: true,
     }));
 
+    const eventAdminBs58 = market.consumeEventsAdmin.key.toBase58();
+    const consumeEventsAdmin =
+      eventAdminBs58 === PublicKey.default.toBase58()
+        ? null
+        : market.consumeEventsAdmin.key;
+
     const ix = await this.program.methods
       .consumeGivenEvents(slots)
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin,
       })
       .remainingAccounts(accountsMeta)
       .instruction();
@@ -1048,12 +1054,18 @@ export class OpenBookV2Client {
       isSigner: false,
       isWritable: true,
     }));
+    const eventAdminBs58 = market.consumeEventsAdmin.key.toBase58();
+    const consumeEventsAdmin =
+      eventAdminBs58 === PublicKey.default.toBase58()
+        ? null
+        : market.consumeEventsAdmin.key;
+
     const ix = await this.program.methods
       .consumeGivenEvents(slots)
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin,
       })
       .remainingAccounts(accountsMeta)
       .instruction();
-- 
2.43.0


From 396efa4590caed2430dfe2acf33928d8c2fd4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 14/28] fix: close the indexer itself

closeOpenOrdersIndexerIx passed the asks and bids of a market as indexer
and receiver of the lamports, so the instruction always failed.
---
 ts/client/src/client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index ed5f39d..3f752b4 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -893,8 +893,8 @@ export class OpenBookV2Client {
         .closeOpenOrdersIndexer()
         .accounts({
           owner: owner.publicKey,
-          openOrdersIndexer: market.asks,
-          solDestination: market.bids,
+          openOrdersIndexer,
+          solDestination: owner.publicKey,
           tokenProgram: TOKEN_PROGRAM_ID,
         })
         .instruction();
-- 
2.43.0


From 57d3ce76616b94e1d041d1fe2e8546955cc2a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:51 +0000
Subject: [PATCH 15/28] fix: decode watched open orders accounts

The watcher asked for an account type that does not exist, so every
change of a watched open orders account failed.
---
 ts/client/src/utils/watcher.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/utils/watcher.ts b/ts/client/src/utils/watcher.ts
index dcec4eb..8313dcb 100644
--- a/ts/client/src/utils/watcher.ts
+++ b/ts/client/src/utils/watcher.ts
@@ -62,7 +62,7 @@ export class Watcher {
       pubkey,
       (ai) => {
         openOrders.account = market.client.program.coder.accounts.decode(
-          'OpenOrders',
+          'openOrdersAccount',
           ai.data,
         );
       },
-- 
2.43.0


From 85e26ddc2d7f695835428438c09b95aa455a04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:47 +0000
Subject: [PATCH 16/28] fix: tell whether an open orders account has orders

has_no_orders counted all slots of the table instead of those in use,
so it was false for every account.
---
 programs/openbook-v2/src/state/open_orders_account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/open_orders_account.rs b/programs/openbook-v2/src/state/open_orders_account.rs
index 80b773a..05292a1 100644
--- a/programs/openbook-v2/src/state/open_orders_account.rs
+++ b/programs/openbook-v2/src/state/open_orders_account.rs
@@ -101,7 +101,7 @@ impl OpenOrdersAccount {
     }
 
     pub fn has_no_orders(&self) -> bool {
-        self.open_orders.iter().count() == 0
+        self.all_orders_in_use().next().is_none()
     }
 
     pub fn all_orders_in_use(&self) -> impl Iterator<Item = &OpenOrder> {
-- 
2.43.0


From 32d119bfac5d40d603cfe3cabc8656947c989d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:47 +0000
Subject: [PATCH 17/28] fix: let the given payer pay for new open orders
 accounts

createOpenOrders took a payer but always named the wallet as payer, so
the wallet was charged, or the transaction could not be signed when the
owner was given as well.
---
 ts/client/src/client.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 3f752b4..8eac391 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -365,13 +365,14 @@ export class OpenBookV2Client {
   public async createOpenOrdersIndexerIx(
     openOrdersIndexer: PublicKey,
     owner: PublicKey = this.walletPk,
+    payer: PublicKey = this.walletPk,
   ): Promise<TransactionInstruction> {
     return await this.program.methods
       .createOpenOrdersIndexer()
       .accounts({
         openOrdersIndexer,
         owner,
-        payer: this.walletPk,
+        payer,
       })
       .instruction();
   }
@@ -427,6 +428,7 @@ export class OpenBookV2Client {
     owner: PublicKey = this.walletPk,
     delegateAccount: PublicKey | null,
     openOrdersIndexer?: PublicKey | null,
+    payer: PublicKey = this.walletPk,
   ): Promise<[TransactionInstruction[], PublicKey]> {
     const ixs: TransactionInstruction[] = [];
     let accountIndex = new BN(1);
@@ -440,13 +442,15 @@ export class OpenBookV2Client {
       );
       if (storedIndexer == null) {
         ixs.push(
-          await this.createOpenOrdersIndexerIx(openOrdersIndexer, owner),
+          await this.createOpenOrdersIndexerIx(openOrdersIndexer, owner, payer),
         );
       } else {
         accountIndex = new BN(storedIndexer.createdCounter + 1);
       }
     } catch {
-      ixs.push(await this.createOpenOrdersIndexerIx(openOrdersIndexer, owner));
+      ixs.push(
+        await this.createOpenOrdersIndexerIx(openOrdersIndexer, owner, payer),
+      );
     }
 
     const openOrdersAccount = this.findOpenOrderAtIndex(owner, accountIndex);
@@ -460,7 +464,7 @@ export class OpenBookV2Client {
           market,
           owner,
           delegateAccount,
-          payer: this.walletPk,
+          payer,
           // systemProgram: SystemProgram.programId,
         })
         .instruction(),
@@ -481,6 +485,8 @@ export class OpenBookV2Client {
       name,
       owner.publicKey,
       delegateAccount,
+      null,
+      payer.publicKey,
     );
     const additionalSigners = [payer];
     if (owner !== payer) {
-- 
2.43.0


From 68153bfad2de13c88174030c4c234c12be03c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:47 +0000
Subject: [PATCH 18/28] fix: deposit SOL from the account it was wrapped into

depositNativeIx wrapped lamports into a temporary account but deposited
from the account of the user, which need not exist or hold anything.
---
 ts/client/src/client.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 8eac391..b2d62b7 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -571,7 +571,9 @@ export class OpenBookV2Client {
         owner: openOrdersAccount.owner,
         market: openOrdersAccount.market,
         openOrdersAccount: openOrdersPublicKey,
-        userBaseAccount,
+        userBaseAccount: market.baseMint.equals(NATIVE_MINT)
+          ? wrappedSolAccount.publicKey
+          : userBaseAccount,
         userQuoteAccount,
         marketBaseVault: market.marketBaseVault,
         marketQuoteVault: market.marketQuoteVault,
-- 
2.43.0


From 13a05b3eafe40d26983b3a0b0922cc6bcd97f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:04:28 +0000
Subject: [PATCH 19/28] fix: place orders with a client order id of zero

A client order id of zero was taken for a missing one and replaced by the
current time, so the order could not be found under the id it was given.
---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 2644f02..594aefd 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -435,7 +435,7 @@ export class OpenOrders {
     const maxQuoteLotsIncludingFees = order.quoteLimit
       ? new BN(order.quoteLimit)
       : I64_MAX_BN;
-    const clientOrderId = new BN(order.clientOrderId || Date.now());
+    const clientOrderId = new BN(order.clientOrderId ?? Date.now());
     const orderType = order.orderType ?? PlaceOrderTypeUtils.Limit;
     const expiryTimestamp = new BN(order.expiryTimestamp ?? 0);
     const selfTradeBehavior =
-- 
2.43.0


From 30e727cee235b18787175b6f8ad3bc7a98f3619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:04:28 +0000
Subject: [PATCH 20/28] fix: keep orders without quote limit within the
 market's limit

The program refuses more quote lots than fit into 64 bits in native units.
Orders without quote limit asked for more than that on every market whose
quote lot size is not one, and were refused.
---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 594aefd..bddd790 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -434,7 +434,7 @@ export class OpenOrders {
     const maxBaseLots = this.market.baseUiToLots(order.size);
     const maxQuoteLotsIncludingFees = order.quoteLimit
       ? new BN(order.quoteLimit)
-      : I64_MAX_BN;
+      : I64_MAX_BN.div(this.market.account.quoteLotSize);
     const clientOrderId = new BN(order.clientOrderId ?? Date.now());
     const orderType = order.orderType ?? PlaceOrderTypeUtils.Limit;
     const expiryTimestamp = new BN(order.expiryTimestamp ?? 0);
-- 
2.43.0


From dcca04acd9de1a297f3aa4c82049806540d607c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:05:37 +0000
Subject: [PATCH 21/28] fix: respect a quote limit of zero

A quote limit of zero was taken for a missing one, so the order could spend
without limit.
---
 ts/client/src/accounts/openOrders.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index bddd790..62a89de 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -432,9 +432,10 @@ export class OpenOrders {
   ): Promise<[TransactionInstruction, Signer[]]> {
     const priceLots = this.market.priceUiToLots(order.price);
     const maxBaseLots = this.market.baseUiToLots(order.size);
-    const maxQuoteLotsIncludingFees = order.quoteLimit
-      ? new BN(order.quoteLimit)
-      : I64_MAX_BN.div(this.market.account.quoteLotSize);
+    const maxQuoteLotsIncludingFees =
+      order.quoteLimit != null
+        ? new BN(order.quoteLimit)
+        : I64_MAX_BN.div(this.market.account.quoteLotSize);
     const clientOrderId = new BN(order.clientOrderId ?? Date.now());
     const orderType = order.orderType ?? PlaceOrderTypeUtils.Limit;
     const expiryTimestamp = new BN(order.expiryTimestamp ?? 0);
-- 
2.43.0


From 1303dcbcae658d3a62c493c8ebdadc5a7c70304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:57 +0000
Subject: [PATCH 22/28] fix: leave the own account out of the makers of an
 order

An account with orders on the other side was passed twice, and the program
refused the order because it could not load the account again.
---
 ts/client/src/accounts/openOrders.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 62a89de..84d114c 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -204,6 +204,8 @@ export class OpenOrders {
       !order.orderType?.postOnlySlide
     ) {
       for (const order of bookSide.items()) {
+        // passed as the open orders account already
+        if (order.leafNode.owner.equals(this.pubkey)) continue;
         remainingAccounts.add(order.leafNode.owner.toBase58());
         if (remainingAccounts.size >= 3) break;
       }
-- 
2.43.0


From 1677a1bab5a38d7434576db364407cb7993391dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:47 +0000
Subject: [PATCH 23/28] fix: name the open orders admin when placing orders

The Rust client left the admin out of single and pegged orders, so the
program refused them on every market with an admin, even when the client
held the admin's key. Batches of orders already name it.
---
 lib/client/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 0e7c45a..145dd42 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -399,7 +399,7 @@ impl OpenBookClient {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::PlaceOrder {
                         open_orders_account: self.open_orders_account,
-                        open_orders_admin: None,
+                        open_orders_admin: market.open_orders_admin.into(),
                         signer: self.owner(),
                         market: market_address,
                         bids: market.bids,
@@ -455,7 +455,7 @@ impl OpenBookClient {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::PlaceOrder {
                         open_orders_account: self.open_orders_account,
-                        open_orders_admin: None,
+                        open_orders_admin: market.open_orders_admin.into(),
                         signer: self.owner(),
                         market: market_address,
                         bids: market.bids,
-- 
2.43.0


From db6bc524b75b98f7840eadb50a9c0a1bcaf508b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:47 +0000
Subject: [PATCH 24/28] fix: sign cranks only with the keys they need

Consuming events does not need the owner's signature unless the owner is
the market's consume events admin. The Rust client signed with the owner
anyway, and building the transaction failed with too many signers whenever
the fee payer was another key.
---
 lib/client/src/client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 145dd42..1805272 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -689,7 +689,12 @@ impl OpenBookClient {
                 limit,
             }),
         };
-        self.send_and_confirm_owner_tx(vec![ix]).await
+        // Signatures nobody asks for make the transaction invalid
+        if market.consume_events_admin == self.owner() {
+            self.send_and_confirm_owner_tx(vec![ix]).await
+        } else {
+            self.send_and_confirm_permissionless_tx(vec![ix]).await
+        }
     }
 
     pub async fn send_and_confirm_owner_tx(
-- 
2.43.0


From f53f3fdc1ccc2b5a72a5731e1e9604ac9ca957ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:47 +0000
Subject: [PATCH 25/28] fix: sign the creation of a market with the market's
 key

The program creates the market account, which therefore has to sign. The
Rust client took only the address and building the transaction always
failed with not enough signers.
---
 lib/client/src/client.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 1805272..9e801ac 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -303,7 +303,7 @@ impl OpenBookClient {
     #[allow(clippy::too_many_arguments)]
     pub async fn create_market(
         &self,
-        market: Pubkey,
+        market: &Keypair,
         market_authority: Pubkey,
         bids: Pubkey,
         asks: Pubkey,
@@ -330,7 +330,7 @@ impl OpenBookClient {
             accounts: {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::CreateMarket {
-                        market,
+                        market: market.pubkey(),
                         market_authority,
                         bids,
                         asks,
@@ -373,7 +373,15 @@ impl OpenBookClient {
                 time_expiry,
             }),
         };
-        self.send_and_confirm_owner_tx(vec![ix]).await
+        TransactionBuilder {
+            instructions: vec![ix],
+            address_lookup_tables: vec![],
+            payer: self.client.fee_payer.pubkey(),
+            signers: vec![&*self.owner, &*self.client.fee_payer, market],
+            config: self.client.transaction_builder_config,
+        }
+        .send_and_confirm(&self.client)
+        .await
     }
 
     #[allow(clippy::too_many_arguments)]
-- 
2.43.0


From 711c0929370eb604811e6e791f8901d2f3425a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:47 +0000
Subject: [PATCH 26/28] fix: number new accounts as the program does

When no account had the name asked for, the Rust client counted from zero
and from the accounts still open. The program counts from one, never uses a
number again, and needs the owner's indexer. Opening the first account, or
one after the newest was closed, therefore always failed. The client now
takes the number from the indexer and creates it when it is missing.
---
 lib/client/src/client.rs | 18 ++++++++++--------
 lib/client/src/gpa.rs    | 20 +++++++++++++++++++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 9e801ac..e027db6 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -26,7 +26,7 @@ use solana_sdk::signer::keypair;
 use solana_sdk::transaction::TransactionError;
 
 use crate::account_fetcher::*;
-use crate::gpa::{fetch_anchor_account, fetch_openbook_accounts};
+use crate::gpa::{fetch_anchor_account, fetch_open_orders_indexer, fetch_openbook_accounts};
 
 use anyhow::Context;
 use solana_sdk::instruction::Instruction;
@@ -119,18 +119,20 @@ impl OpenBookClient {
         let rpc = client.rpc_async();
         let program = openbook_v2::ID;
 
-        let mut openbook_account_tuples =
+        let openbook_account_tuples =
             fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
         let openbook_account_opt = openbook_account_tuples
             .iter()
             .find(|(_, account)| account.name() == openbook_account_name);
         if openbook_account_opt.is_none() {
-            openbook_account_tuples
-                .sort_by(|a, b| a.1.account_num.partial_cmp(&b.1.account_num).unwrap());
-            let account_num = match openbook_account_tuples.last() {
-                Some(tuple) => tuple.1.account_num + 1,
-                None => 0u32,
-            };
+            let indexer = fetch_open_orders_indexer(&rpc, program, owner.pubkey()).await?;
+            if indexer.is_none() {
+                Self::create_open_orders_indexer(client, owner, payer)
+                    .await
+                    .context("Failed to create indexer...")?;
+            }
+            // The numbers of closed accounts are not used again
+            let account_num = indexer.map_or(0, |indexer| indexer.created_counter) + 1;
             Self::create_open_orders_account(
                 client,
                 market,
diff --git a/lib/client/src/gpa.rs b/lib/client/src/gpa.rs
index 2709b07..4d3d493 100644
--- a/lib/client/src/gpa.rs
+++ b/lib/client/src/gpa.rs
@@ -1,6 +1,6 @@
 use anchor_lang::{AccountDeserialize, Discriminator};
 
-use openbook_v2::state::OpenOrdersAccount;
+use openbook_v2::state::{OpenOrdersAccount, OpenOrdersIndexer};
 
 use solana_account_decoder::UiAccountEncoding;
 use solana_client::nonblocking::rpc_client::RpcClient as RpcClientAsync;
@@ -39,6 +39,24 @@ pub async fn fetch_openbook_accounts(
         .collect()
 }
 
+pub async fn fetch_open_orders_indexer(
+    rpc: &RpcClientAsync,
+    program: Pubkey,
+    owner: Pubkey,
+) -> anyhow::Result<Option<OpenOrdersIndexer>> {
+    let address =
+        Pubkey::find_program_address(&[b"OpenOrdersIndexer", owner.as_ref()], &program).0;
+    rpc.get_account_with_commitment(&address, rpc.commitment())
+        .await?
+        .value
+        .map(|account| {
+            Ok(OpenOrdersIndexer::try_deserialize(
+                &mut (&account.data as &[u8]),
+            )?)
+        })
+        .transpose()
+}
+
 pub async fn fetch_anchor_account<T: AccountDeserialize>(
     rpc: &RpcClientAsync,
     address: &Pubkey,
-- 
2.43.0


From 6a6e46408b97c2910fe29e0cf1328578d35fabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:02 +0000
Subject: [PATCH 27/28] fix: use the last free place of a book side

A side shares its nodes between fixed and pegged orders. It called itself
full with two nodes left when one of them had never been used, although an
order needs two nodes at most. New orders were then refused, or evicted
another one, with room still there.
---
 programs/openbook-v2/src/state/orderbook/ordertree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/ordertree.rs b/programs/openbook-v2/src/state/orderbook/ordertree.rs
index c2df482..32ceb30 100644
--- a/programs/openbook-v2/src/state/orderbook/ordertree.rs
+++ b/programs/openbook-v2/src/state/orderbook/ordertree.rs
@@ -397,7 +397,8 @@ impl OrderTreeNodes {
     }
 
     pub fn is_full(&self) -> bool {
-        self.free_list_len <= 1 && (self.bump_index as usize) >= self.nodes.len() - 1
+        // an order may need two nodes
+        self.free_list_len as usize + self.nodes.len() - (self.bump_index as usize) <= 1
     }
 
     /// When a node changes, the parents' child_earliest_expiry may need to be updated.
-- 
2.43.0


From 57d5b556ab8690c2c7a3641a81c0d5ef7302859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:24 +0000
Subject: [PATCH 28/28] fix: send transactions without a priority fee when none
 is named

---
 ts/client/src/utils/rpc.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ts/client/src/utils/rpc.ts b/ts/client/src/utils/rpc.ts
index d9dc699..3b4a769 100644
--- a/ts/client/src/utils/rpc.ts
+++ b/ts/client/src/utils/rpc.ts
@@ -47,7 +47,11 @@ export async function sendTransaction(
 
   const payer = provider.wallet;
 
-  if (opts?.prioritizationFee !== null && opts.prioritizationFee !== 0) {
+  if (
+    opts?.prioritizationFee !== undefined &&
+    opts.prioritizationFee !== null &&
+    opts.prioritizationFee !== 0
+  ) {
     ixs = [createComputeBudgetIx(opts.prioritizationFee), ...ixs];
   }
 
-- 
2.43.0

