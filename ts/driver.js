'use strict';
// Runs the TypeScript client of the repository over accounts told line by line on standard input.
//   reset <seed>                            forget everything
//   acct <key> <owner> <lamports> <data>    an account (hex)
//   gone <key>                              an account that no longer exists
//   do <json>                               one request; answered by lines ending with "."
// Answers begin with "error" when the client threw, with "missing" when a stand-in lacks something.

const fs = require('fs');
const path = require('path');
const readline = require('readline');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const BN = require('./bn');
const web3 = require('./web3');
const spl = require('./spl');
const anchor = require('./anchor');
const { Missing } = require('./missing');
const { PublicKey, Keypair } = web3;

const ROOT = path.join(process.argv[2], 'ts/client/src');

// ---- loading the client

const builtin = {
  '@solana/web3.js': web3,
  '@solana/spl-token': spl,
  '@coral-xyz/anchor': anchor,
  '@coral-xyz/anchor/dist/cjs/utils/bytes': anchor.__bytes,
  '@coral-xyz/anchor/dist/cjs/utils/bytes/index.js': anchor.__bytes,
  '@coral-xyz/anchor/dist/cjs/nodewallet': { default: anchor.__NodeWallet, __esModule: true },
  'bn.js': BN,
  'big.js': require('./big'),
};
const modules = new Map();
function load(file) {
  if (modules.has(file)) return modules.get(file).exports;
  const m = { exports: {} };
  modules.set(file, m);
  const js = ts.transpileModule(fs.readFileSync(file, 'utf8'), {
    compilerOptions: { module: 'commonjs', target: 'es2022', esModuleInterop: true },
    fileName: file,
  }).outputText;
  const req = (name) => {
    if (name.startsWith('.')) {
      const p = path.resolve(path.dirname(file), name);
      for (const f of [p, p + '.ts', path.join(p, 'index.ts'), p.replace(/\.js$/, '.ts')]) if (fs.existsSync(f) && fs.statSync(f).isFile()) return load(f);
      throw new Missing(`cannot find ${name} from ${file}`);
    }
    if (builtin[name]) return builtin[name];
    if (['crypto', 'buffer', 'fs', 'path', 'util', 'assert'].includes(name.replace(/^node:/, ''))) return require(name);
    throw new Missing(`package ${name} is not available here`);
  };
  new Function('require', 'module', 'exports', '__filename', '__dirname', js)(req, m, m.exports, file, path.dirname(file));
  return m.exports;
}

// ---- the chain as told

const key = (hex) => new PublicKey(Buffer.from(hex, 'hex'));
const hex = (pk) => new PublicKey(pk).toBuffer().toString('hex');
let accounts = new Map();
let subs = new Map();
let nextSub = 1;
let sent = [];
let history = [];

const info = (pk) => {
  const a = accounts.get(hex(pk));
  return a === undefined ? null : { data: Buffer.from(a.data), owner: a.owner, lamports: a.lamports, executable: false };
};
const { guard } = require('./missing');
const connection = guard(
  {
    commitment: 'processed',
    banksClient: undefined,
    async getAccountInfo(pk) {
      return info(pk);
    },
    async getMultipleAccountsInfo(pks) {
      return pks.map(info);
    },
    async getMinimumBalanceForRentExemption(size) {
      return (size + 128) * 6960;
    },
    onAccountChange(pk, f) {
      subs.set(nextSub, [hex(pk), f]);
      return nextSub++;
    },
    async removeAccountChangeListener(id) {
      subs.delete(id);
    },
    async getSignaturesForAddress() {
      return history.map((h) => ({ signature: h.signature }));
    },
    async getTransactions(list) {
      return list.map((s) => history.find((h) => h.signature === s)?.tx ?? null);
    },
    async _rpcRequest(method, [program, opts]) {
      if (method !== 'getProgramAccounts') throw new Missing(`rpc ${method} is not available here`);
      const result = [];
      for (const [k, a] of accounts) {
        if (a.owner.toBase58() !== program) continue;
        const fits = (opts.filters || []).every((f) => {
          if (f.dataSize !== undefined) return a.data.length === f.dataSize;
          const want = web3.__bs58.decode(f.memcmp.bytes);
          return a.data.subarray(f.memcmp.offset, f.memcmp.offset + want.length).equals(want);
        });
        if (fits)
          result.push({
            pubkey: key(k).toBase58(),
            account: { data: [a.data.toString('base64'), 'base64'], executable: false, owner: a.owner.toBase58(), lamports: a.lamports },
          });
      }
      return { error: null, result };
    },
    async getLatestBlockhash() {
      return { blockhash: 'B'.repeat(32), lastValidBlockHeight: 1000 };
    },
    async sendRawTransaction(tx) {
      sent.push(tx);
      return 'signature' + sent.length;
    },
    async confirmTransaction() {
      return { value: { err: null } };
    },
  },
  'connection',
);

function wallet(pk) {
  const w = { publicKey: pk };
  w.signTransaction = async (vtx) => {
    vtx.sign([{ publicKey: pk }]);
    return vtx;
  };
  return w;
}

let out = [];
const say = (...x) => out.push(x.join(' '));
const pair = (hexkey) => new Keypair({ publicKey: key(hexkey), secretKey: new Uint8Array(64) });
const optKey = (h) => (h ? key(h) : null);

function sayIx(ix) {
  say('ix', hex(ix.programId), Buffer.from(ix.data).toString('hex') || '-', ...ix.keys.map((k) => `${hex(k.pubkey)}:${k.isSigner ? 1 : 0}${k.isWritable ? 1 : 0}`));
}
function sayBuilt(ixs, signers) {
  for (const ix of Array.isArray(ixs) ? ixs : [ixs]) sayIx(ix);
  say('signers', ...(signers || []).map((s) => hex(s.publicKey)));
}
function saySent() {
  for (const tx of sent) {
    say('tx', hex(tx.payer), ...[...tx.signedBy].map((k) => hex(k)));
    for (const ix of tx.instructions) sayIx(ix);
  }
  sent = [];
}

const SIDES = (c) => [c.SideUtils.Bid, c.SideUtils.Ask];
const TYPES = (c) => {
  const t = c.PlaceOrderTypeUtils;
  return [t.Limit, t.ImmediateOrCancel, t.PostOnly, t.Market, t.PostOnlySlide, t.FillOrKill];
};
const STB = (c) => {
  const t = c.SelfTradeBehaviorUtils;
  return [t.DecrementTake, t.CancelProvide, t.AbortTransaction];
};

let lib;
let kept = new Map();
function client(r) {
  const provider = new anchor.AnchorProvider(connection, wallet(key(r.wallet)), { commitment: 'processed' });
  const opts = {};
  if (r.referrerWallet) opts.referrerWallet = key(r.referrerWallet);
  if (r.fee) opts.prioritizationFee = r.fee;
  return new lib.OpenBookV2Client(provider, undefined, opts);
}

function args(r) {
  const a = {
    side: SIDES(lib)[r.side],
    priceLots: new BN(r.price),
    maxBaseLots: new BN(r.maxBase),
    maxQuoteLotsIncludingFees: new BN(r.maxQuote),
    clientOrderId: new BN(r.client),
    orderType: TYPES(lib)[r.otype],
    expiryTimestamp: new BN(r.expiry),
    selfTradeBehavior: STB(lib)[r.stb],
    limit: r.limit,
  };
  if (r.offset !== undefined) {
    delete a.priceLots;
    a.priceOffsetLots = new BN(r.offset);
    a.pegLimit = new BN(r.pegLimit);
  }
  return a;
}
const multi = (list) =>
  list.map((m) => ({ priceLots: new BN(m.price), maxQuoteLotsIncludingFees: new BN(m.maxQuote), expiryTimestamp: new BN(m.expiry) }));

const bn = (x) => x.toString();
const flag = (b) => (b ? 1 : 0);
function sayOrder(tag, o) {
  const l = o.leafNode;
  say(tag, bn(l.key), bn(o.priceLots), bn(o.seqNum), bn(o.sizeLots), hex(l.owner), flag(o.isExpired), bn(l.clientOrderId), l.timeInForce, bn(l.timestamp), l.ownerSlot, o.side.bid ? 0 : 1, o.price, o.size);
}
function sayBook(tag, b, now, r) {
  b.clusterTime = new BN(now);
  let n = 0;
  for (const o of b.fixedItems()) {
    sayOrder(tag + '.fixed', o);
    n++;
  }
  if (r.noPegged) {
    for (const o of b.items()) say(tag + '.item', bn(o.leafNode.key));
    const best = b.best();
    say(tag + '.best', best === undefined ? '-' : bn(best.leafNode.key));
    for (const depth of r.depths) for (const [up, us, p, s] of b.getL2(depth)) say(`${tag}.l2.${depth}`, bn(p), bn(s), up, us);
  }
  return n;
}
function sayEvents(h) {
  for (const e of h.parsedEvents()) {
    if (e.eventType === 0)
      say('event', 'fill', e.takerSide, e.makerOut, e.makerSlot, bn(e.timestamp), bn(e.seqNum), hex(e.maker), bn(e.makerTimestamp), hex(e.taker), bn(e.takerClientOrderId), bn(e.price), bn(e.pegLimit), bn(e.quantity), bn(e.makerClientOrderId));
    else say('event', 'out', e.side, e.ownerSlot, bn(e.timestamp), bn(e.seqNum), hex(e.owner), bn(e.quantity));
  }
}
function sayMarket(m) {
  const a = m.account;
  say('m', a.baseDecimals, a.quoteDecimals, hex(a.marketAuthority), bn(a.timeExpiry), hex(a.collectFeeAdmin), hex(a.openOrdersAdmin.key), hex(a.consumeEventsAdmin.key), hex(a.closeMarketAdmin.key), lib.nameToString(a.name).replace(/ /g, '_'), hex(a.bids), hex(a.asks), hex(a.eventHeap), hex(a.oracleA.key), hex(a.oracleB.key), bn(a.quoteLotSize), bn(a.baseLotSize), bn(a.seqNum), bn(a.registrationTime), bn(a.makerFee), bn(a.takerFee), bn(a.feesAccrued), bn(a.feesToReferrers), bn(a.referrerRebatesAccrued), bn(a.feesAvailable), bn(a.makerVolume), bn(a.takerVolumeWoOo), hex(a.baseMint), hex(a.quoteMint), hex(a.marketBaseVault), bn(a.baseDepositTotal), hex(a.marketQuoteVault), bn(a.quoteDepositTotal));
  say('units', m.minOrderSize.toNumber(), m.tickSize.toNumber());
}
function sayOo(o, r) {
  const a = o.account;
  const p = a.position;
  const k = hex(o.pubkey);
  say('oo', k, hex(a.owner), hex(a.market), hex(a.delegate.key), a.accountNum, bn(p.bidsBaseLots), bn(p.asksBaseLots), bn(p.baseFreeNative), bn(p.quoteFreeNative), bn(p.lockedMakerFees), bn(p.referrerRebatesAvailable), bn(p.penaltyHeapCount), bn(p.makerVolume), bn(p.takerVolume), bn(p.bidsQuoteLots));
  if (r.noPegged) {
    for (const x of o.items()) say('oo.item', k, bn(x.leafNode.key));
    o.toPrettyString();
  }
  const [b, q] = o.getBalanceNative();
  say('oo.balance', k, bn(b), bn(q));
  say('oo.held', k, bn(o.getBaseBalanceNative()), bn(o.getQuoteBalanceNative()), o.getBaseBalanceUi(), o.getQuoteBalanceUi());
}

const requests = {
  // everything the client can tell about a market
  async read(r) {
    const c = client(r);
    const m = await lib.Market.load(c, key(r.market));
    await m.loadOrderBook();
    await m.loadEventHeap();
    sayMarket(m);
    sayBook('bids', m.bids, r.now, r);
    sayBook('asks', m.asks, r.now, r);
    sayEvents(m.eventHeap);
    if (r.noPegged) m.toPrettyString();
    for (const k of r.oos) {
      const o = await lib.OpenOrders.load(key(k), m);
      sayOo(o, r);
      m.eventHeap = m.eventHeap ?? (await m.loadEventHeap());
    }
    const heap = m.account;
    say('toConsume', ...(await c.getAccountsToConsume(heap)).map(hex));
    for (const k of r.oos) say('slots', k, ...(await c.getSlotsToConsume(key(k), heap)).map(bn));
  },
  async slots(r) {
    const c = client(r);
    const m = await lib.Market.load(c, key(r.market));
    say('toConsume', ...(await c.getAccountsToConsume(m.account)).map(hex));
    for (const k of r.oos) say('slots', k, ...(await c.getSlotsToConsume(key(k), m.account)).map(bn));
  },
  // books kept up to date by subscriptions, and accounts reloaded
  async watch(r) {
    const c = client(r);
    const m = await lib.Market.load(c, key(r.market));
    await m.loadOrderBook();
    await m.loadEventHeap();
    const w = new lib.Watcher(connection);
    w.addMarket(m);
    const oos = [];
    for (const k of r.oos) {
      const o = await lib.OpenOrders.load(key(k), m);
      w.addOpenOrders(o);
      oos.push(o);
    }
    kept.set(r.market, { m, oos, w });
  },
  async watched(r) {
    const { m, oos } = kept.get(r.market);
    sayMarket(m);
    sayBook('bids', m.bids, r.now, r);
    sayBook('asks', m.asks, r.now, r);
    sayEvents(m.eventHeap);
    for (const o of oos) sayOo(o, r);
  },
  async reloaded(r) {
    const { m, oos } = kept.get(r.market);
    // reloading an account leaves the event queue to the market
    await m.loadEventHeap();
    for (const o of oos) {
      await o.reload();
      sayOo(o, r);
    }
    sayBook('bids', m.bids, r.now, r);
    sayBook('asks', m.asks, r.now, r);
  },
  async unwatch(r) {
    kept.get(r.market).w.clear();
    say('left', subs.size);
  },
  async accounts(r) {
    const c = client(r);
    const owner = key(r.owner);
    say('indexer', hex(c.findOpenOrdersIndexer(owner)));
    say('all', ...(await c.findAllOpenOrders(owner)).map(hex));
    say('market', ...(await c.findOpenOrdersForMarket(owner, key(r.market))).map(hex));
    for (const n of r.numbers) say('address', n, hex(c.findOpenOrderAtIndex(owner, new BN(n))));
    const m = await lib.Market.load(c, key(r.market));
    const o = await lib.OpenOrders.loadNullableForMarketAndOwner(m, owner);
    say('first', o === null ? '-' : hex(o.pubkey));
    const ix = await lib.OpenOrdersIndexer.loadNullable(c, owner);
    if (ix === null) say('loaded', 'none');
    else {
      say('loaded', hex(ix.pubkey), ix.account.createdCounter, ...ix.account.addresses.map(hex));
      for (const x of await ix.loadAllOpenOrders()) {
        say('opened', hex(x.pubkey), hex(x.market.pubkey), hex(x.market.bids.pubkey), hex(x.market.asks.pubkey), bn(x.account.position.baseFreeNative));
        if (r.noPegged) for (const i of x.items()) say('opened.item', hex(x.pubkey), bn(i.leafNode.key));
      }
    }
  },
  async mints(r) {
    const c = client(r);
    const v = await lib.findAccountsByMints(connection, key(r.base), key(r.quote), c.programId);
    for (const x of v) say('found', hex(x.publicKey), x.accountInfo.data.length);
  },
  async markets(r) {
    const c = client(r);
    history = r.created.map((d, i) => ({
      signature: 'sig' + i,
      tx: {
        blockTime: 1000 + i,
        transaction: {
          message: {
            staticAccountKeys: [c.programId, PublicKey.findProgramAddressSync([Buffer.from('__event_authority')], c.programId)[0]],
          },
        },
        meta: {
          innerInstructions: [
            {
              instructions: [
                ...new Array(11).fill(0).map(() => ({ accounts: [], programIdIndex: 5, data: '' })),
                { accounts: [1], programIdIndex: 0, data: web3.__bs58.encode(Buffer.from(d, 'hex')) },
              ],
            },
          ],
        },
      },
    }));
    for (const m of await lib.findAllMarkets(connection, c.programId, c.provider)) say('created', m.market, m.baseMint, m.quoteMint, m.name.replace(/ /g, '_'), m.timestamp);
  },
  // conversions between lots and units of display
  async convert(r) {
    const c = client(r);
    const m = await lib.Market.load(c, key(r.market));
    const a = m.account;
    for (const x of r.lots) {
      const v = new BN(x);
      say('ui', x, m.priceLotsToUi(v), m.baseLotsToUi(v), m.quoteLotsToUi(v), m.baseNativeToUi(v), m.quoteNativeToUi(v));
      say('uif', x, lib.priceLotsToUi(a, v), lib.baseLotsToUi(a, v), lib.quoteLotsToUi(a, v));
      say('fee', x, bn(m.makerFeeFloor(v)));
    }
    for (const x of r.price) {
      const ui = m.priceLotsToUi(new BN(x));
      say('price', x, bn(m.priceUiToLots(ui)), bn(lib.uiPriceToLots(a, ui)));
    }
    for (const x of r.base) {
      const ui = m.baseLotsToUi(new BN(x));
      say('base', x, bn(m.baseUiToLots(ui)), bn(lib.uiBaseToLots(a, ui)), lib.quantityToUiBase(a, new BN(x), a.baseDecimals));
    }
    for (const x of r.quote) {
      const ui = m.quoteLotsToUi(new BN(x));
      say('quote', x, bn(m.quoteUiToLots(ui)), bn(lib.uiQuoteToLots(a, ui)));
    }
  },

  // ---- sending: what reaches the node and what the caller is told
  async send(r) {
    let n = 0;
    const node = guard(
      {
        commitment: 'processed',
        banksClient: undefined,
        async getLatestBlockhash(level) {
          say('hash', level ?? '-');
          if (r.fail === 'hash') throw new Error('node is down');
          return { blockhash: r.newest, lastValidBlockHeight: r.height };
        },
        async sendRawTransaction(tx) {
          say('tx', hex(tx.payer), tx.blockhash, tx.tables.map((t) => t.key).join('+') || '-', ...[...tx.signedBy].map((k) => hex(k)));
          for (const ix of tx.instructions) sayIx(ix);
          if (r.fail === 'send') throw new Error('node is down');
          return 'signature' + n++;
        },
        async confirmTransaction(what, level) {
          if (typeof what === 'string') say('confirm', what, '-', '-', level ?? '-');
          else say('confirm', what.signature, what.blockhash, what.lastValidBlockHeight, level ?? '-');
          if (r.fail === 'confirm') throw new Error('block height exceeded');
          return { context: { slot: 1 }, value: { err: r.verdict } };
        },
      },
      'connection',
    );
    let w;
    if (r.walletKind === 'node') w = new anchor.__NodeWallet(pair(r.wallet));
    else {
      w = wallet(key(r.wallet));
      const sign = w.signTransaction;
      w.signTransaction = async (vtx) => {
        if (r.fail === 'wallet') throw new Error('user rejected the request');
        return await sign(vtx);
      };
    }
    const provider = new anchor.AnchorProvider(node, w, r.provider);
    const ixs = r.ixs.map((x) => new web3.TransactionInstruction({ programId: key(x.program), data: Buffer.from(x.data, 'hex'), keys: x.keys.map(([k, s, wr]) => ({ pubkey: key(k), isSigner: !!s, isWritable: !!wr })) }));
    const count = ixs.length;
    const opts = { ...r.opts };
    if (r.unset) opts.prioritizationFee = undefined;
    if (r.additional) opts.additionalSigners = r.additional.map(pair);
    const tables = r.tables.map((k) => ({ key: k, state: { addresses: [] } }));
    const call = (info) => {
      say('callback', info.txid);
      if (r.callback === 'throws') throw new Error('callback failed');
    };
    const file = path.join(ROOT, 'utils/rpc.ts');
    const rpc = r.direct && fs.existsSync(file) ? load(file) : {};
    if (r.direct && typeof rpc.sendTransaction !== 'function') throw new Missing('sendTransaction is not where it was');
    const warn = console.warn;
    console.warn = () => {};
    try {
      let got;
      if (r.direct) {
        if (r.callback) opts.postSendTxCallback = call;
        const { sendTransaction } = rpc;
        got = r.bare ? await sendTransaction(provider, ixs, tables) : await sendTransaction(provider, ixs, tables, opts);
      } else {
        const o = { ...r.client };
        if (r.callback) o.postSendTxCallback = call;
        if (r.tables.length) opts.alts = tables;
        const c = new lib.OpenBookV2Client(provider, undefined, o);
        got = r.bare ? await c.sendAndConfirmTransaction(ixs) : await c.sendAndConfirmTransaction(ixs, opts);
      }
      say('result', got);
    } catch (e) {
      if (e instanceof Missing) throw e;
      say('threw', e && Object.prototype.hasOwnProperty.call(e, 'txid') ? e.txid : '-', String(e && e.message).replace(/\s/g, '_'));
    } finally {
      console.warn = warn;
    }
    say('given', count === ixs.length ? 'same' : 'changed');
  },

  // ---- instructions
  async build(r) {
    const c = client(r);
    const delegate = r.delegate ? pair(r.delegate) : undefined;
    const ma = r.market ? await c.program.account.market.fetch(key(r.market)) : undefined;
    const oa = r.oo ? await c.program.account.openOrdersAccount.fetch(key(r.oo)) : undefined;
    const rem = (r.rem || []).map(key);
    const admin = optKey(r.admin);
    switch (r.what) {
      case 'place':
        return sayBuilt(...(await c.placeOrderIx(key(r.oo), key(r.market), ma, key(r.from), args(r), rem, delegate)));
      case 'placePegged':
        return sayBuilt(...(await c.placeOrderPeggedIx(key(r.oo), key(r.market), ma, key(r.from), admin, args(r), rem, delegate)));
      case 'take':
        return sayBuilt(...(await c.placeTakeOrderIx(key(r.market), ma, key(r.base), key(r.quote), admin, args(r), rem, delegate)));
      case 'batch': {
        const f = r.cancel ? c.cancelAllAndPlaceOrdersIx : c.placeOrdersIx;
        return sayBuilt(...(await f.call(c, key(r.oo), key(r.market), ma, key(r.base), key(r.quote), admin, TYPES(lib)[r.otype], multi(r.bids), multi(r.asks), r.limit, delegate)));
      }
      case 'cancelId':
        return sayBuilt(...(await c.cancelOrderByIdIx(key(r.oo), oa, ma, new BN(r.id), delegate)));
      case 'cancelClient':
        return sayBuilt(...(await c.cancelOrderByClientIdIx(key(r.oo), oa, ma, new BN(r.id), delegate)));
      case 'cancelAll':
        return sayBuilt(...(await c.cancelAllOrdersIx(key(r.oo), oa, ma, r.limit, r.side === undefined ? null : SIDES(lib)[r.side], delegate)));
      case 'settle':
        return sayBuilt(...(await c.settleFundsIx(key(r.oo), oa, key(r.market), ma, key(r.base), key(r.quote), optKey(r.referrer), key(r.payer), delegate)));
      case 'deposit':
        return sayBuilt(await c.depositIx(key(r.oo), oa, ma, key(r.base), key(r.quote), new BN(r.baseAmount), new BN(r.quoteAmount)));
      case 'depositNative':
        return sayBuilt(...(await c.depositNativeIx(key(r.oo), oa, ma, key(r.base), key(r.quote), new BN(r.baseAmount), new BN(r.quoteAmount))));
      case 'consume':
        return sayBuilt(await c.consumeEventsIx(key(r.market), ma, new BN(r.limit), rem));
      case 'consumeGiven':
        return sayBuilt(await c.consumeGivenEventsIx(key(r.market), ma, r.slots.map((s) => new BN(s)), rem));
      case 'consumeFor':
        return sayBuilt(await c.consumeEventsForAccountIx(key(r.market), ma, key(r.oo)));
      case 'prune':
        return sayBuilt(...(await c.pruneOrdersIx(key(r.market), ma, key(r.oo), r.limit, pair(r.closer))));
      case 'closeMarket':
        return sayBuilt(...(await c.closeMarketIx(key(r.market), ma, key(r.to), pair(r.closer))));
      case 'closeOo':
        return sayBuilt(...(await c.closeOpenOrdersAccountIx(pair(r.owner), key(r.oo), key(r.to))));
      case 'closeIndexer':
        return sayBuilt(...(await c.closeOpenOrdersIndexerIx(pair(r.owner), ma)));
      case 'createIndexer':
        return sayBuilt(await c.createOpenOrdersIndexerIx(c.findOpenOrdersIndexer(key(r.owner)), key(r.owner)));
      case 'createOo': {
        const [ixs, k] = await c.createOpenOrdersIx(key(r.market), r.name, key(r.owner), optKey(r.newDelegate));
        sayBuilt(ixs);
        return say('address', hex(k));
      }
      case 'createMarket': {
        const [ixs, signers] = await c.createMarketIx(
          key(r.payer), r.name, key(r.quoteMint), key(r.baseMint), new BN(r.qls), new BN(r.bls), new BN(r.makerFee), new BN(r.takerFee), new BN(r.expiry),
          optKey(r.oracleA), optKey(r.oracleB), optKey(r.ooAdmin), optKey(r.ceAdmin), optKey(r.cmAdmin),
          { confFilter: r.confFilter, maxStalenessSlots: r.staleness === null ? null : r.staleness },
          pair(r.newMarket), r.collectAdmin ? key(r.collectAdmin) : undefined,
        );
        return sayBuilt(ixs, signers);
      }
    }
    // the calls that also send
    if (r.what === 'sendCreateIndexer') {
      await c.createOpenOrdersIndexer(c.findOpenOrdersIndexer());
      return saySent();
    }
    const m = await lib.Market.load(c, key(r.market));
    if (r.book) await m.loadOrderBook();
    const o = await lib.OpenOrders.load(key(r.oo), m);
    if (delegate) o.setDelegate(delegate);
    switch (r.what) {
      case 'sendPlace':
        await o.placeOrder({
          side: SIDES(lib)[r.side],
          price: m.priceLotsToUi(new BN(r.price)),
          size: m.baseLotsToUi(new BN(r.maxBase)),
          quoteLimit: r.quoteLimit ?? undefined,
          clientOrderId: r.client,
          orderType: TYPES(lib)[r.otype],
          expiryTimestamp: r.expiry,
          selfTradeBehavior: STB(lib)[r.stb],
          matchLoopLimit: r.limit,
        });
        break;
      case 'sendCancel': {
        const order = [...o.items()].find((x) => bn(x.leafNode.key) === r.id);
        await o.cancelOrder(order);
        break;
      }
      case 'sendCancelClient':
        await o.cancelOrder({ clientOrderId: r.client });
        break;
      case 'sendCancelAll':
        await o.cancelAllOrders(r.side === undefined ? null : SIDES(lib)[r.side]);
        break;
      case 'sendCreateOo':
        say('address', hex(await c.createOpenOrders(pair(r.payer ?? r.wallet), key(r.market), r.name, r.owner ? pair(r.owner) : undefined, optKey(r.newDelegate))));
        break;
      default:
        throw new Missing(`request ${r.what}`);
    }
    saySent();
  },
};

async function main() {
  lib = load(path.join(ROOT, 'index.ts'));
  process.stdout.write('ready\n');
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const sp = line.indexOf(' ');
    const cmd = sp < 0 ? line : line.slice(0, sp);
    const rest = sp < 0 ? '' : line.slice(sp + 1);
    if (cmd === 'reset') {
      accounts = new Map();
      subs = new Map();
      kept = new Map();
      history = [];
      sent = [];
      web3.__reseed(rest);
      continue;
    }
    out = [];
    try {
      if (cmd === 'acct') {
        const [k, owner, lamports, data] = rest.split(' ');
        const a = { owner: key(owner), lamports: Number(lamports), data: Buffer.from(data === '-' ? '' : data, 'hex') };
        accounts.set(k, a);
        for (const [pk, f] of [...subs.values()]) if (pk === k) f({ data: Buffer.from(a.data), owner: a.owner, lamports: a.lamports, executable: false }, { slot: 0 });
        continue;
      } else if (cmd === 'gone') {
        accounts.delete(rest);
        continue;
      }
      const r = JSON.parse(rest);
      await requests[r.do](r);
    } catch (e) {
      sent = [];
      const missing = e instanceof Missing;
      out = [`${missing ? 'missing' : 'error'} ${String(e && e.message).replace(/\n/g, ' ')} ${missing ? '' : String(e && e.stack).split('\n').filter((l) => l.includes('at ')).slice(0, 3).map((l) => l.trim()).join(' | ')}`];
      if (cmd === 'acct') {
        failedUpdate = out[0];
        continue;
      }
    }
    if (failedUpdate) {
      out.unshift(failedUpdate);
      failedUpdate = null;
    }
    process.stdout.write(out.join('\n') + (out.length ? '\n' : '') + '.\n');
  }
}
let failedUpdate = null;
main().catch((e) => {
  process.stdout.write(`broken ${String(e && e.stack).replace(/\n/g, ' | ')}\n`);
  process.exit(3);
});
