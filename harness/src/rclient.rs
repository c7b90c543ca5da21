//! The calls of the client library that go to a node: what it sends and what it makes of the answers.
//! The files of the library are compiled in as they are; the node behind them executes transactions on the bank.

use crate::account_fetcher::{AccountFetcher, CachedAccountFetcher, RpcAccountFetcher};
use crate::account_update_stream::{AccountUpdate, Message};
use crate::chain_data::*;
use crate::hist::*;
use crate::library::*;
use crate::report::Case;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use openbook_v2::state::{Market, OpenOrdersAccount, OracleConfigParams};
use openbook_v2::PlaceMultipleOrdersArgs;
use solana_client::client_error::{ClientError, ClientErrorKind};
use solana_client::rpc_request::{RpcError, RpcResponseErrorData};
use solana_client::rpc_response::{Response, RpcKeyedAccount, RpcResponseContext, RpcSimulateTransactionResult, SlotUpdate};
use solana_client::{set_node, Node};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_sdk::account::{Account as SdkAccount, AccountSharedData, ReadableAccount};
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::hash::Hash;
use solana_sdk::instruction::InstructionError;
use solana_sdk::signature::{keypair_from_seed, Keypair, Signature};
use solana_sdk::signer::Signer;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, RwLock};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &TABLE)
    }
    fn nothing(_: *const ()) {}
    static TABLE: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &TABLE)) }
}

fn wait<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..10_000_000u64 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("a call to the client library never ended");
}

/// A call of the library; a panic is an answer like any other error.
fn answer<T>(f: impl Future<Output = anyhow::Result<T>>) -> anyhow::Result<T> {
    match guarded(|| wait(f)) {
        Ok(x) => x,
        Err(e) => Err(anyhow::anyhow!("the library panicked: {e}")),
    }
}

/// What the node has seen and how it answered.
#[derive(Default)]
struct State {
    bank: Bank,
    sent: Vec<(VersionedTransaction, bool)>,
    /// verdict of the last instruction executed for the program
    last: Option<Result<(), ExecErr>>,
    failure: Option<(TransactionError, Vec<String>)>,
    refuse: bool,
    refuse_sending: bool,
    blockhash: Hash,
    read: Vec<(Pubkey, CommitmentConfig)>,
    statuses: BTreeMap<Signature, u64>,
    /// the slot reported for account data goes up by this much each time
    pace: u64,
}

struct TestNode(Rc<RefCell<State>>);

fn sdk(a: &Account) -> SdkAccount {
    SdkAccount { lamports: a.lamports, data: a.data.clone(), owner: a.owner, executable: a.executable, rent_epoch: 0 }
}

fn down() -> ClientError {
    ClientErrorKind::Custom("node is down".to_string()).into()
}

impl Node for TestNode {
    fn account(&mut self, key: &Pubkey, commitment: CommitmentConfig) -> Result<(u64, Option<SdkAccount>), ClientError> {
        let mut s = self.0.borrow_mut();
        s.read.push((*key, commitment));
        if s.refuse {
            return Err(down());
        }
        s.bank.slot += s.pace;
        Ok((s.bank.slot, s.bank.get(key).filter(|a| a.lamports > 0).map(sdk)))
    }
    fn program_accounts(&mut self, program: &Pubkey, config: &solana_client::rpc_config::RpcProgramAccountsConfig) -> Result<Vec<(Pubkey, SdkAccount)>, ClientError> {
        let s = self.0.borrow();
        if s.refuse {
            return Err(down());
        }
        let mut v = vec![];
        for (k, a) in &s.bank.accounts {
            if a.owner == *program && a.lamports > 0 && config.filters.iter().flatten().all(|f| f.allows(&a.data)) {
                let mut a = sdk(a);
                if let Some(d) = config.account_config.data_slice {
                    let lo = d.offset.min(a.data.len());
                    a.data = a.data[lo..(lo + d.length).min(a.data.len())].to_vec();
                }
                v.push((*k, a));
            }
        }
        Ok(v)
    }
    fn blockhash(&mut self) -> Result<Hash, ClientError> {
        let s = self.0.borrow();
        if s.refuse {
            return Err(down());
        }
        Ok(s.blockhash)
    }
    fn send(&mut self, tx: &VersionedTransaction, confirm: bool) -> Result<Signature, ClientError> {
        let mut s = self.0.borrow_mut();
        s.sent.push((tx.clone(), confirm));
        if s.refuse_sending {
            return Err(down());
        }
        let before = s.bank.clone();
        for (i, ix) in instructions(tx).into_iter().enumerate() {
            if ix.0 != openbook_v2::ID {
                continue;
            }
            let o = s.bank.exec(&ix.1);
            s.last = Some(o.result.clone());
            if let Err(e) = o.result {
                s.bank = before;
                let e = match e {
                    ExecErr::Program(ProgramError::Custom(c)) => InstructionError::Custom(c),
                    ExecErr::Program(_) => InstructionError::InvalidArgument,
                    _ => InstructionError::ProgramFailedToComplete,
                };
                let err = TransactionError::InstructionError(i as u8, e);
                let said = ["Program log: AnchorError occurred", "Allocate: account Address already in use", "Blockhash not found", "This transaction has already been processed"];
                let logs = vec![format!("instruction {i}"), format!("failed: {err}"), said[s.blockhash.as_ref()[0] as usize % 4].to_string()];
                s.failure = Some((err.clone(), logs.clone()));
                return Err(ClientErrorKind::RpcError(RpcError::RpcResponseError {
                    code: -32002,
                    message: "Transaction simulation failed".to_string(),
                    data: RpcResponseErrorData::SendTransactionPreflightFailure(RpcSimulateTransactionResult { err: Some(err), logs: Some(logs) }),
                })
                .into());
            }
        }
        Ok(tx.signatures[0])
    }
    fn statuses(&mut self, signatures: &[Signature]) -> Result<Vec<Option<u64>>, ClientError> {
        let s = self.0.borrow();
        if s.refuse {
            return Err(down());
        }
        Ok(signatures.iter().map(|x| s.statuses.get(x).copied()).collect())
    }
}

/// The instructions of a transaction with the privileges the chain gives their accounts.
fn instructions(tx: &VersionedTransaction) -> Vec<(Pubkey, Ix)> {
    let keys = tx.message.static_account_keys();
    tx.message
        .instructions()
        .iter()
        .map(|i| {
            let metas = i
                .accounts
                .iter()
                .map(|a| Meta { key: keys[*a as usize], signer: tx.message.is_signer(*a as usize), writable: tx.message.is_maybe_writable(*a as usize) })
                .collect();
            (keys[i.program_id_index as usize], Ix { metas, data: i.data.clone() })
        })
        .collect()
}

fn keypair(r: &mut Rng) -> Keypair {
    let mut b = [0u8; 32];
    r.fill(&mut b);
    keypair_from_seed(&b).unwrap()
}

fn copy(k: &Keypair) -> Arc<Keypair> {
    Arc::new(Keypair::from_bytes(&k.to_bytes()).unwrap())
}

fn market_of(bank: &Bank, k: &Pubkey) -> Market {
    bytemuck::pod_read_unaligned(&bank.data(k)[8..8 + std::mem::size_of::<Market>()])
}

fn multi(v: &[Multi]) -> Vec<PlaceMultipleOrdersArgs> {
    v.iter().map(|m| PlaceMultipleOrdersArgs { price_lots: m.price, max_quote_lots_including_fees: m.max_quote, expiry_timestamp: m.expiry }).collect()
}

struct Users {
    owners: Vec<Arc<Keypair>>,
    payer: Arc<Keypair>,
    prio: Option<u64>,
}

impl Users {
    fn client(&self) -> Client {
        Client::new(
            anchor_client::Cluster::Localnet,
            CommitmentConfig::confirmed(),
            self.payer.clone(),
            None,
            TransactionBuilderConfig { prioritization_micro_lamports: self.prio },
        )
    }
    fn of(&self, k: &Pubkey) -> Option<&Arc<Keypair>> {
        self.owners.iter().find(|o| o.pubkey() == *k)
    }
}

fn node_for(bank: &Bank, r: &mut Rng) -> Rc<RefCell<State>> {
    let mut h = [0u8; 32];
    r.fill(&mut h);
    let s = Rc::new(RefCell::new(State { bank: bank.clone(), blockhash: Hash::new_from_array(h), ..Default::default() }));
    set_node(Some(Box::new(TestNode(s.clone()))));
    s
}

/// Whether what was sent does what the instructions built by hand do, signed by the right keys.
fn judge(c: &mut Case, what: &str, u: &Users, signers: &[Pubkey], fee_payer: Pubkey, before: &Bank, node: &Rc<RefCell<State>>, got: &anyhow::Result<Signature>, want: &Ix) {
    c.eval();
    let s = node.borrow();
    if let Some(m) = want.metas.iter().find(|m| m.signer && !signers.contains(&m.key)) {
        c.count("signature out of reach");
        if got.is_ok() || s.bank.accounts != before.accounts {
            c.violate("unsigned", format!("{what}: {} must sign and cannot, yet the answer is {got:?}", m.key));
        }
        return;
    }
    if s.sent.len() != 1 {
        return c.violate("sent", format!("{what}: {} transactions were sent, answer {got:?}", s.sent.len()));
    }
    let (tx, confirm) = &s.sent[0];
    if !confirm {
        c.violate("confirm", format!("{what}: sent without waiting for confirmation"));
    }
    let keys = tx.message.static_account_keys();
    let n = tx.message.header().num_required_signatures as usize;
    if keys[0] != fee_payer {
        c.violate("fee payer", format!("{what}: {} pays the fee instead of {fee_payer}", keys[0]));
    }
    if let Some(k) = keys[..n].iter().find(|k| !signers.contains(k)) {
        c.violate("signer", format!("{what}: demands the signature of {k}"));
    }
    if tx.verify_with_results().iter().any(|ok| !ok) || tx.signatures.len() != n {
        c.violate("signature", format!("{what}: signatures do not verify"));
    }
    if *tx.message.recent_blockhash() != s.blockhash {
        c.violate("blockhash", format!("{what}: another blockhash than the node told"));
    }
    let ixs = instructions(tx);
    let own = ixs.iter().filter(|i| i.0 == openbook_v2::ID).count();
    let price = u.prio.map(|p| {
        let mut d = vec![3u8];
        d.extend_from_slice(&p.to_le_bytes());
        (solana_sdk::compute_budget::ID, d)
    });
    let others: Vec<(Pubkey, Vec<u8>)> = ixs.iter().filter(|i| i.0 != openbook_v2::ID).map(|i| (i.0, i.1.data.clone())).collect();
    if others != price.into_iter().collect::<Vec<_>>() || own != 1 || (u.prio.is_some() && ixs[0].0 == openbook_v2::ID) {
        c.violate("instructions", format!("{what}: sent {} instructions to the program and {others:?}, price set to {:?}", own, u.prio));
    }
    let mut b = before.clone();
    let o = b.exec(want);
    let verdict = s.last.clone();
    c.count(if o.ok() { "accepted" } else { "refused" });
    if o.ok() {
        c.count(&format!("accepted:{what}"));
    }
    c.nontrivial(hash_str(&format!("{what} {:?} {}", o.code(), want.data.len())) ^ hash_bytes(7, &want.data));
    if format!("{:?}", verdict) != format!("{:?}", Some(&o.result)) && !(matches!(verdict, Some(Err(ExecErr::Panic(_)))) && matches!(o.result, Err(ExecErr::Panic(_)))) {
        c.violate("verdict", format!("{what}: {verdict:?}, the instruction built by hand {:?}", o.result));
        return;
    }
    if b.accounts != s.bank.accounts {
        let k = b.accounts.keys().chain(s.bank.accounts.keys()).find(|k| b.accounts.get(k) != s.bank.accounts.get(k)).unwrap();
        c.violate("effect", format!("{what}: account {k} ends differently than with the instruction built by hand"));
    }
    match (got, &s.failure) {
        (Ok(sig), None) => {
            if *sig != tx.signatures[0] {
                c.violate("answer", format!("{what}: answered with another signature"));
            }
        }
        (Err(e), Some((err, logs))) => match e.downcast_ref::<OpenBookClientError>() {
            Some(OpenBookClientError::SendTransactionPreflightFailure { err: Some(e), logs: l }) if e == err && l == logs => c.count("failure told with its messages"),
            _ => c.violate("failure", format!("{what}: the node told {err:?} {logs:?}, the caller {e:?}")),
        },
        (g, f) => c.violate("answer", format!("{what}: answered {g:?} after {f:?}")),
    }
}

fn fits(h: &Hist, op: &Op) -> bool {
    match op {
        Op::Place { rem, .. } | Op::Consume { given: None, rem, .. } => {
            let _ = rem;
            true
        }
        Op::Batch { cancel: true, .. } | Op::CancelId { .. } | Op::CancelAll { .. } => true,
        Op::Deposit { refill: false, payer, oo, .. } => h.w.users[h.w.owner_of(oo)].key == *payer,
        Op::Settle { expired: false, signer, payer, oo, .. } => signer == payer || h.w.users[h.w.owner_of(oo)].key == *payer,
        _ => false,
    }
}

/// Changes a request into one nobody sends every day.
fn extreme(op: &mut Op, now: u64, r: &mut Rng) {
    let times = [u64::MAX, now + (1 << 32), now + 65_536, now + 65_535, now, 1 << 63];
    let amounts = [i64::MAX, i64::MIN, -1, 0, 1 << 33, 1 << 62];
    match op {
        Op::Place { req, .. } => match r.idx(6) {
            0 | 1 => req.expiry = *r.pick(&times),
            2 => req.max_quote = *r.pick(&amounts),
            3 => req.max_base = *r.pick(&amounts),
            4 => req.client = *r.pick(&[u64::MAX, 0, 1 << 63, 1 << 32]),
            _ => req.limit = *r.pick(&[0, 1, 45, 255]),
        },
        Op::Batch { bids, asks, limit, .. } => {
            *limit = *r.pick(&[0, 1, 24, 255]);
            for m in bids.iter_mut().chain(asks) {
                if r.chance(1, 2) {
                    m.expiry = *r.pick(&times);
                }
            }
        }
        Op::CancelId { id, .. } => *id = (*id).rotate_left(r.idx(3) as u32 * 64),
        Op::CancelAll { limit, .. } => *limit = *r.pick(&[0, 1, 24, 25, 255]),
        Op::Deposit { base, quote, .. } => *(if r.chance(1, 2) { base } else { quote }) = *r.pick(&[0, 1, 1 << 33, u64::MAX]),
        Op::Settle { base, quote, referrer, .. } => *referrer = *r.pick(&[Some(*base), Some(*quote), None]),
        Op::Consume { limit, .. } => *limit = *r.pick(&[0, 1, 8, 9, u64::MAX]),
        _ => {}
    }
}

/// Sends what a history asks through the library.
fn ask(c: &mut Case, h: &Hist, u: &Users, op: &Op, r: &mut Rng) {
    if !fits(h, op) {
        return;
    }
    let mut op = op.clone();
    let signer = match &mut op {
        Op::Place { signer, rem, .. } | Op::Batch { signer, rem, .. } => {
            rem.clear();
            *signer
        }
        Op::CancelId { signer, .. } | Op::CancelAll { signer, .. } => *signer,
        Op::Deposit { payer, .. } => *payer,
        Op::Settle { signer, payer, .. } => {
            *payer = *signer;
            *signer
        }
        Op::Consume { rem, .. } => {
            rem.clear();
            r.pick(&u.owners).pubkey()
        }
        _ => return,
    };
    let owner = match u.of(&signer) {
        Some(o) => o.clone(),
        None => return,
    };
    if r.chance(1, 5) {
        extreme(&mut op, h.w.bank.ts as u64, r);
        c.count("extreme requests");
    }
    let mk = &h.w.mk;
    let market = market_of(&h.w.bank, &mk.key);
    let oo = op.oo().unwrap_or(h.w.users.iter().find(|x| x.key == signer).unwrap().oos[0]);
    let fetcher = Arc::new(CachedAccountFetcher::new(Arc::new(RpcAccountFetcher { rpc: u.client().rpc_async() })));
    let cl = match OpenBookClient::new_detail(u.client(), oo, owner.clone(), fetcher) {
        Ok(x) => x,
        Err(e) => return c.violate("client", format!("no client: {e:?}")),
    };
    let before = h.w.bank.clone();
    let node = node_for(&before, r);
    let built = mk.build(&op).ix;
    let down = r.chance(1, 25);
    node.borrow_mut().refuse_sending = down;
    let mut signers = vec![signer, u.payer.pubkey()];
    let got = match &op {
        Op::Place { wallet, req, .. } => {
            let (side, otype, stb) = (side_of(req.side), otype_of(req.otype), stb_of(req.stb));
            match req.price {
                Price::Fixed(p) => answer(cl.place_order(market, mk.key, side, p, req.max_base, req.max_quote, req.client, otype, req.expiry, req.limit, *wallet, mk.vault(req.side), stb)),
                Price::Pegged { offset, limit } => {
                    answer(cl.place_order_pegged(market, mk.key, side, offset, limit, req.max_base, req.max_quote, req.client, otype, req.expiry, req.limit, *wallet, mk.vault(req.side), stb))
                }
                _ => return,
            }
        }
        Op::Batch { base, quote, otype, bids, asks, limit, .. } => {
            answer(cl.cancel_all_and_place_orders(market, mk.key, *base, *quote, otype_of(*otype), multi(bids), multi(asks), *limit))
        }
        Op::CancelId { id, .. } => answer(cl.cancel_order(market, mk.key, *id)),
        Op::CancelAll { side, limit, .. } => answer(cl.cancel_all_orders(market, mk.key, side.map(side_of), *limit)),
        Op::Deposit { base_acc, quote_acc, base, quote, .. } => answer(cl.deposit(mk.key, *base, *quote, *base_acc, *quote_acc, mk.base_vault, mk.quote_vault)),
        Op::Settle { base, quote, referrer, .. } => answer(cl.settle_funds(market, mk.key, *base, *quote, mk.base_vault, mk.quote_vault, *referrer)),
        Op::Consume { limit, .. } => {
            if r.chance(1, 4) {
                signers = vec![u.payer.pubkey()];
                let ix = solana_sdk::instruction::Instruction {
                    program_id: openbook_v2::ID,
                    accounts: built.metas.iter().map(|m| solana_sdk::instruction::AccountMeta { pubkey: m.key, is_signer: m.signer, is_writable: m.writable }).collect(),
                    data: built.data.clone(),
                };
                c.count("sent by anyone");
                answer(cl.send_and_confirm_permissionless_tx(vec![ix]))
            } else {
                answer(cl.consume_events(market, mk.key, *limit as usize))
            }
        }
        _ => return,
    };
    set_node(None);
    if down {
        c.count("node down");
        c.eval();
        if got.is_ok() {
            c.violate("down", format!("{}: answered {got:?} although nothing was accepted", op.kind()));
        }
        return;
    }
    if mk.oo_admin.map_or(false, |a| signers.contains(&a)) && op.is_order() {
        c.count("orders where the admin signs");
    }
    judge(c, op.kind(), u, &signers, u.payer.pubkey(), &before, &node, &got, &built);
}

fn accounts_of(bank: &Bank, owner: &Pubkey) -> BTreeMap<Pubkey, Vec<u8>> {
    let d = disc("account", "OpenOrdersAccount");
    bank.accounts
        .iter()
        .filter(|(_, a)| a.owner == openbook_v2::ID && a.lamports > 0 && a.data.len() > 40 && a.data[..8] == d && a.data[8..40] == owner.to_bytes())
        .map(|(k, a)| (*k, a.data.clone()))
        .collect()
}

fn name_of(data: &[u8]) -> String {
    let a: OpenOrdersAccount = bytemuck::pod_read_unaligned(&data[8..8 + std::mem::size_of::<OpenOrdersAccount>()]);
    String::from_utf8_lossy(&a.name).trim_end_matches('\0').to_string()
}

/// Opening, finding and reading accounts.
fn accounts(c: &mut Case, h: &mut Hist, u: &Users, r: &mut Rng) {
    let client = u.client();
    let owner = if r.chance(1, 2) { Arc::new(keypair(r)) } else { r.pick(&u.owners).clone() };
    let key = owner.pubkey();
    let payer = if r.chance(1, 3) { owner.clone() } else { u.payer.clone() };
    let mk = h.w.mk.clone();
    let mut bank = h.w.bank.clone();
    bank.fund(key, 1_000_000_000);
    if bank.get(&indexer_address(&key)).is_none() && r.chance(1, 2) {
        let before = bank.clone();
        let node = node_for(&before, r);
        let got = answer(OpenBookClient::create_open_orders_indexer(&client, &owner, &payer));
        set_node(None);
        let want = create_indexer_ix(payer.pubkey(), key).ix;
        if let Ok((a, _)) = &got {
            if *a != indexer_address(&key) {
                c.violate("address", format!("told indexer {a}"));
            }
        }
        judge(c, "indexer", u, &[key, payer.pubkey()], payer.pubkey(), &before, &node, &got.map(|x| x.1), &want);
        bank = node.borrow().bank.clone();
    }
    // owners whose keys begin or end like this one
    if let Some(d) = accounts_of(&bank, &h.w.users[0].key).values().next() {
        for _ in 0..r.idx(3) {
            let mut near = key.to_bytes();
            near[*r.pick(&[0usize, 7, 8, 16, 31])] ^= 1 << r.idx(8);
            let mut data = d.clone();
            data[8..40].copy_from_slice(&near);
            // somebody's delegate
            if r.chance(1, 2) {
                data[104..136].copy_from_slice(key.as_ref());
            }
            bank.accounts.insert(r.pubkey(), Account { lamports: 1 << 30, data, owner: openbook_v2::ID, executable: false });
            c.count("owners with keys much alike");
        }
    }
    if let (Some(d), true) = (accounts_of(&bank, &h.w.users[0].key).values().next(), r.chance(1, 12)) {
        for i in 0..r.range(20, 150) {
            let mut data = d.clone();
            data[8..40].copy_from_slice(key.as_ref());
            data[72..104].fill(0);
            let name = format!("one of many {i}");
            data[72..72 + name.len()].copy_from_slice(name.as_bytes());
            bank.accounts.insert(r.pubkey(), Account { lamports: 1 << 30, data, owner: openbook_v2::ID, executable: false });
        }
        c.count("owners of many accounts");
    }
    let names = ["acc", "", "ac", "a name of exactly 32 characters!", "third"];
    for _ in 0..1 + r.idx(4) {
        let counter = |b: &Bank| b.get(&indexer_address(&key)).map(|a| u32::from_le_bytes(a.data[9..13].try_into().unwrap()));
        let n = if r.chance(1, 6) { 5 } else { 3 };
        let name = names[r.idx(n)];
        match r.idx(5) {
            0 => {
                let num = counter(&bank).unwrap_or(0) + if r.chance(1, 5) { r.below(3) as u32 } else { 1 };
                let delegate = if r.chance(1, 2) { Some(r.pubkey()) } else { None };
                let before = bank.clone();
                let node = node_for(&before, r);
                let got = answer(OpenBookClient::create_open_orders_account(&client, mk.key, &owner, &payer, delegate, num, name));
                set_node(None);
                if let Ok((a, _)) = &got {
                    if *a != oo_address(&key, num) {
                        c.violate("address", format!("told account {a}"));
                    }
                }
                judge(c, "account", u, &[key, payer.pubkey()], payer.pubkey(), &before, &node, &got.map(|x| x.1), &create_oo_ix(payer.pubkey(), key, delegate, num, mk.key, name).ix);
                bank = node.borrow().bank.clone();
            }
            1 => {
                // an account is closed, usually the newest
                let mine: Vec<Pubkey> = accounts_of(&bank, &key).keys().copied().collect();
                if !mine.is_empty() {
                    let k = *r.pick(&mine);
                    if bank.exec(&close_oo_ix(key, k, key).ix).ok() {
                        c.count("accounts closed in between");
                    }
                }
            }
            2 => {
                let node = node_for(&bank, r);
                let got = answer(OpenBookClient::find_accounts(&client, &owner));
                set_node(None);
                drop(node);
                c.eval();
                c.count("accounts found");
                let want = accounts_of(&bank, &key);
                match got {
                    Err(e) => c.violate("find", format!("finding accounts: {e:?}")),
                    Ok(v) => {
                        let n = v.len();
                        let got: BTreeMap<Pubkey, Vec<u8>> = v.iter().map(|(k, a)| (*k, bytemuck::bytes_of(a).to_vec())).collect();
                        let want: BTreeMap<Pubkey, Vec<u8>> = want.into_iter().map(|(k, d)| (k, d[8..].to_vec())).collect();
                        if got != want || n != want.len() {
                            c.violate("find", format!("found {n} accounts of {key}, there are {}", want.len()));
                        }
                    }
                }
            }
            _ => {
                let before = accounts_of(&bank, &key);
                let had: BTreeSet<Pubkey> = before.iter().filter(|x| name_of(x.1) == name).map(|x| *x.0).collect();
                let indexer = counter(&bank);
                let full = before.len() >= 256;
                let node = node_for(&bank, r);
                // an account is found by its name whatever its market
                let on = if !had.is_empty() && r.chance(1, 2) { r.pubkey() } else { mk.key };
                let got = answer(OpenBookClient::find_or_create_account(&client, &owner, &payer, on, name));
                set_node(None);
                let s = node.borrow();
                c.eval();
                c.nontrivial(hash_str(&format!("{name} {} {} {indexer:?}", before.len(), had.len())));
                let after = accounts_of(&s.bank, &key);
                match &got {
                    Ok(a) if !had.is_empty() => {
                        c.count("existing account returned");
                        if !had.contains(a) || !s.sent.is_empty() || after != before {
                            c.violate("existing", format!("there were {} accounts named {name:?}, told {a}, {} transactions sent", had.len(), s.sent.len()));
                        }
                    }
                    Ok(a) => {
                        c.count("account created when none had the name");
                        if indexer.is_none() {
                            c.count("first account created");
                        }
                        if indexer.map_or(false, |n| n as usize > before.len()) {
                            c.count("account created after one was closed");
                        }
                        let new: Vec<&Pubkey> = after.keys().filter(|k| !before.contains_key(k)).collect();
                        let ok = new == vec![a] && name_of(&after[a]) == name && {
                            let x: OpenOrdersAccount = bytemuck::pod_read_unaligned(&after[a][8..8 + std::mem::size_of::<OpenOrdersAccount>()]);
                            x.market == mk.key && x.owner == key
                        };
                        if !ok {
                            c.violate("created", format!("asked for {name:?}, told {a}, new accounts {new:?}"));
                        }
                        for (tx, _) in &s.sent {
                            let n = tx.message.header().num_required_signatures as usize;
                            let keys = tx.message.static_account_keys();
                            if keys[0] != payer.pubkey() || keys[..n].iter().any(|k| *k != key && *k != payer.pubkey()) {
                                c.violate("signer", format!("opening an account: signers {:?}", &keys[..n]));
                            }
                        }
                    }
                    Err(e) => {
                        if !full {
                            c.violate("not created", format!("asked for {name:?} with {} accounts and counter {indexer:?}: {e:?}", before.len()));
                        }
                    }
                }
                bank = s.bank.clone();
            }
        }
        if c.failed() {
            return;
        }
    }
    // a client for one of the accounts
    let mine = accounts_of(&bank, &key);
    if let Some((k, d)) = mine.iter().next() {
        let node = node_for(&bank, r);
        let stranger = r.chance(1, 3);
        let who = if stranger { Arc::new(keypair(r)) } else { owner.clone() };
        let got = answer(OpenBookClient::new_for_existing_account(u.client(), *k, who));
        c.eval();
        match got {
            Ok(cl) => {
                if stranger {
                    c.violate("owner", "a client was made for an account of somebody else".to_string());
                } else {
                    c.count("clients for existing accounts");
                    match answer(cl.openorders_account()) {
                        Ok(a) if bytemuck::bytes_of(&a) == &d[8..] && cl.open_orders_account == *k && cl.owner() == key => {}
                        _ => c.violate("existing", format!("the client of {k} reads another account")),
                    }
                }
            }
            Err(e) => {
                if !stranger {
                    c.violate("existing", format!("no client for {k}: {e:?}"));
                } else {
                    c.count("strangers turned away");
                }
            }
        }
        set_node(None);
        drop(node);
    }
}

/// A market created through the library.
fn market(c: &mut Case, h: &mut Hist, u: &Users, r: &mut Rng) {
    let owner = r.pick(&u.owners).clone();
    let mut w = h.w.clone();
    let new = Arc::new(keypair(r));
    let mut p = rand_params(r);
    p.name = (*r.pick(&["M", "BASE-QUOTE", ""])).to_string();
    let (bm, qm) = (w.mk.base_mint, w.mk.quote_mint);
    let mut mk = w.new_market_keys(bm, qm, &p);
    mk.key = new.pubkey();
    mk.authority = authority_address(&mk.key);
    mk.base_vault = ata_address(&mk.authority, &mk.base_mint);
    mk.quote_vault = ata_address(&mk.authority, &mk.quote_mint);
    let before = w.bank.clone();
    let node = node_for(&before, r);
    let fetcher = Arc::new(RpcAccountFetcher { rpc: u.client().rpc_async() });
    let cl = match OpenBookClient::new_detail(u.client(), Pubkey::default(), owner.clone(), fetcher) {
        Ok(x) => x,
        Err(e) => return c.violate("client", format!("no client: {e:?}")),
    };
    let event_authority = Pubkey::find_program_address(&[b"__event_authority"], &openbook_v2::ID).0;
    let got = answer(cl.create_market(
        &new, mk.authority, mk.bids, mk.asks, mk.heap, mk.base_mint, mk.quote_mint, mk.oracle_a, mk.oracle_b, mk.collect_admin, mk.oo_admin, mk.ce_admin,
        mk.cm_admin, event_authority, p.name.clone(), OracleConfigParams { conf_filter: p.conf_filter, max_staleness_slots: p.staleness }, p.bls, p.qls,
        p.maker_fee, p.taker_fee, p.expiry,
    ));
    set_node(None);
    judge(c, "market", u, &[owner.pubkey(), u.payer.pubkey(), new.pubkey()], u.payer.pubkey(), &before, &node, &got, &create_market_ix(owner.pubkey(), &mk, &p).ix);
}

/// Whatever a history asks, asked through the library.
pub fn sending(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0xC11E27));
    let mut p = base_profile();
    p.wind_down = false;
    p.users = 1;
    p.oos = 1 + r.idx(2);
    p.expiring = (1, 3);
    p.w[5] = 20;
    p.w[7] = 10;
    p.w[8] = 12;
    p.w[6] = 12;
    if r.chance(1, 2) {
        p.oracle = 1;
        p.w[1] = 20;
    }
    p.admins = r.chance(1, 3);
    let mut h = match Hist::new(c, p) {
        Some(h) => h,
        None => return,
    };
    let owners: Vec<Arc<Keypair>> = (0..2 + r.idx(2)).map(|_| Arc::new(keypair(&mut r))).collect();
    let payer = if r.chance(1, 3) { owners[0].clone() } else { Arc::new(keypair(&mut r)) };
    h.w.bank.fund(payer.pubkey(), 1_000_000_000);
    let (b, q) = (h.w.bank.token_amount(&h.w.users[0].base), h.w.bank.token_amount(&h.w.users[0].quote));
    for o in &owners {
        if let Err(e) = h.w.add_user_as(o.pubkey(), b, q) {
            panic!("{e}");
        }
    }
    let u = Users { owners, payer, prio: if r.chance(1, 2) { Some(r.u64() >> r.idx(60)) } else { None } };
    // admins whose keys the library has, or has not
    {
        let pick = |r: &mut Rng| match r.idx(3) {
            0 => Some(u.payer.pubkey()),
            1 => Some(u.owners[0].pubkey()),
            _ => None,
        };
        let (a, e) = (pick(&mut r), pick(&mut r));
        let k = h.w.mk.key;
        let d = &mut h.w.bank.accounts.get_mut(&k).unwrap().data;
        let m: &mut Market = bytemuck::from_bytes_mut(&mut d[8..8 + std::mem::size_of::<Market>()]);
        if let (Some(a), true) = (a, h.w.mk.oo_admin.is_some()) {
            m.open_orders_admin = Some(a).into();
            h.w.mk.oo_admin = Some(a);
        }
        if let (Some(e), true) = (e, h.w.mk.ce_admin.is_some()) {
            m.consume_events_admin = Some(e).into();
            h.w.mk.ce_admin = Some(e);
        }
    }
    let mut s = match h.start(c) {
        Some(s) => s,
        None => return,
    };
    for i in 0..r.range(15, 45) as usize {
        c.step = i;
        let op = match h.gen(&s) {
            Some(op) => op,
            None => {
                s = match h.w.snap() {
                    Ok(s) => s,
                    Err(_) => return,
                };
                continue;
            }
        };
        ask(c, &h, &u, &op, &mut r);
        if !c.failed() && r.chance(1, 14) {
            accounts(c, &mut h, &u, &mut r);
        }
        if !c.failed() && r.chance(1, 20) {
            market(c, &mut h, &u, &mut r);
        }
        if c.failed() {
            return;
        }
        s = match h.step(c, &op, &s) {
            Some(s) => s,
            None => return,
        };
    }
}

/// One fetch the cache made, as seen by the fetcher behind it.
struct Fetch {
    key: Pubkey,
    /// for lists: the program asked for
    list: bool,
    ended: Option<u64>,
    ok: bool,
    answer: Vec<(Pubkey, AccountSharedData)>,
}

#[derive(Default)]
struct Behind {
    now: u64,
    seed: u64,
    fetches: Vec<Fetch>,
    data: BTreeMap<Pubkey, u64>,
    fail: u64,
    slow: u64,
}

/// A fetcher that takes its time and fails now and then.
struct Slow(Arc<std::sync::Mutex<Behind>>);

fn value(k: &Pubkey, version: u64) -> AccountSharedData {
    let mut d = vec![0u8; 24];
    d[..8].copy_from_slice(&version.to_le_bytes());
    AccountSharedData::from(SdkAccount { lamports: 1 + version, data: d, owner: *k, executable: false, rent_epoch: 0 })
}

/// stands for one kind of accounts of one program
fn list_of(program: &Pubkey, kind: &[u8; 8]) -> Pubkey {
    let mut b = program.to_bytes();
    b[..8].iter_mut().zip(kind).for_each(|(x, y)| *x ^= y);
    Pubkey::new_from_array(b)
}

fn of_kind(k: &Pubkey, kind: &[u8; 8]) -> bool {
    (k.to_bytes()[0] ^ kind[7]) & 1 == 0 || kind[0] == 9
}

impl Slow {
    async fn run(&self, key: Pubkey, kind: Option<[u8; 8]>) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        let list = kind.is_some();
        let (i, mut turns, fails) = {
            let mut b = self.0.lock().unwrap();
            b.seed = mix(b.seed.wrapping_add(0x9E37));
            let s = b.seed;
            b.fetches.push(Fetch { key, list, ended: None, ok: false, answer: vec![] });
            (b.fetches.len() - 1, (s >> 8) % (b.slow + 1), (s >> 32) % 100 < b.fail)
        };
        std::future::poll_fn(|_| {
            if turns == 0 {
                Poll::Ready(())
            } else {
                turns -= 1;
                Poll::Pending
            }
        })
        .await;
        let mut b = self.0.lock().unwrap();
        b.now += 1;
        let now = b.now;
        let answer: Vec<(Pubkey, AccountSharedData)> = if let Some(kind) = kind { b.data.iter().filter(|(k, _)| of_kind(k, &kind)).map(|(k, v)| (*k, value(k, *v))).collect() } else { b.data.get(&key).map(|v| (key, value(&key, *v))).into_iter().collect() };
        let f = &mut b.fetches[i];
        f.ended = Some(now);
        if fails || (!list && answer.is_empty()) {
            anyhow::bail!("no answer");
        }
        f.ok = true;
        f.answer = answer.clone();
        Ok(answer)
    }
}

#[async_trait::async_trait]
impl AccountFetcher for Slow {
    async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
        Ok(self.run(*address, None).await?.remove(0).1)
    }
    async fn fetch_program_accounts(&self, program: &Pubkey, discriminator: [u8; 8]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        self.run(list_of(program, &discriminator), Some(discriminator)).await
    }
}

type Answer = anyhow::Result<Vec<(Pubkey, AccountSharedData)>>;

struct Task {
    key: Pubkey,
    list: bool,
    began: Option<u64>,
    /// fetches known when the task began, and the last time the cache was emptied before that
    known: usize,
    cleared: u64,
    /// had the cache to answer without asking
    warm: Option<u64>,
    fut: Pin<Box<dyn Future<Output = Answer>>>,
}

/// Tasks asking the cached fetcher for the same few accounts at once.
pub fn cached(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0xCAC4ED));
    let keys: Vec<Pubkey> = (0..1 + r.idx(4)).map(|_| r.pubkey()).collect();
    let programs: Vec<Pubkey> = (0..1 + r.idx(2)).map(|_| r.pubkey()).collect();
    let behind = Arc::new(std::sync::Mutex::new(Behind { seed: c.seed, fail: *r.pick(&[0, 20, 60]), slow: *r.pick(&[0, 1, 5]), ..Default::default() }));
    for k in &keys {
        if r.chance(4, 5) {
            behind.lock().unwrap().data.insert(*k, 0);
        }
    }
    let cache = CachedAccountFetcher::new(Arc::new(Slow(behind.clone())));
    let mut tasks: Vec<Task> = vec![];
    let mut cleared = 0u64;
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let steps = r.range(20, 120);
    let mut left = steps;
    while left > 0 || !tasks.is_empty() {
        left -= 1;
        if left < -100_000 {
            return c.violate("stuck", format!("{} fetches never ended", tasks.len()));
        }
        let roll = r.idx(100);
        if left > 0 && roll < 25 {
            let list = r.chance(1, 4);
            let mut key = *r.pick(if list { &programs } else { &keys });
            let (program, kind) = (key, *r.pick(&[[7u8; 8], [7, 7, 7, 7, 7, 7, 7, 6], [9, 7, 7, 7, 7, 7, 7, 7]]));
            if list {
                key = list_of(&program, &kind);
            }
            let cl = cache.clone();
            tasks.push(Task {
                key,
                list,
                began: None,
                known: 0,
                cleared: 0,
                warm: None,
                fut: Box::pin(async move {
                    if list {
                        cl.fetch_program_accounts(&program, kind).await
                    } else {
                        cl.fetch_raw_account(&key).await.map(|a| vec![(key, a)])
                    }
                }),
            });
        } else if left > 0 && roll < 30 {
            cache.clear_cache();
            let mut b = behind.lock().unwrap();
            b.now += 1;
            cleared = b.now;
            c.count("cache emptied");
        } else if left > 0 && roll < 45 {
            let k = *r.pick(&keys);
            let mut b = behind.lock().unwrap();
            *b.data.entry(k).or_default() += 1;
        } else if !tasks.is_empty() {
            let i = r.idx(tasks.len());
            let t = &mut tasks[i];
            if t.began.is_none() {
                let mut b = behind.lock().unwrap();
                b.now += 1;
                t.began = Some(b.now);
                t.known = b.fetches.len();
                t.cleared = cleared;
                // the newest good answer since the cache was emptied
                t.warm = b.fetches.iter().filter(|f| f.ok && f.ended.map_or(false, |e| e > cleared) && if t.list { f.list && f.key == t.key } else { f.answer.iter().any(|a| a.0 == t.key) }).filter_map(|f| f.ended).max();
            }
            let p = t.fut.as_mut().poll(&mut cx);
            let b = behind.lock().unwrap();
            for f in &b.fetches {
                if f.ended.is_none() && b.fetches.iter().filter(|g| g.ended.is_none() && g.key == f.key && g.list == f.list).count() > 1 {
                    drop(b);
                    return c.violate("twice", "the same account is being fetched twice at once".to_string());
                }
            }
            let ans = match p {
                Poll::Pending => {
                    if t.warm.is_some() {
                        drop(b);
                        return c.violate("cached", "an account in the cache was not returned at once".to_string());
                    }
                    continue;
                }
                Poll::Ready(a) => a,
            };
            let t = tasks.swap_remove(i);
            c.eval();
            let mine = |f: &&Fetch| f.ended.map_or(false, |e| e > t.cleared) && f.list == t.list && f.key == t.key;
            match ans {
                Err(_) => {
                    c.count("failed fetches told");
                    // some fetch this task waited for has failed
                    if t.warm.is_some() || !b.fetches.iter().filter(mine).any(|f| !f.ok && f.ended.unwrap() > t.began.unwrap()) {
                        drop(b);
                        return c.violate("error", "an error no fetch has met".to_string());
                    }
                }
                Ok(v) => {
                    let since = t.cleared;
                    for (k, a) in &v {
                        // the latest answer when the task began, or a later one
                        let from = b
                            .fetches
                            .iter()
                            .filter(|f| f.ok && f.ended.unwrap() > since && f.answer.iter().any(|x| x.0 == *k && x.1 == *a))
                            .filter_map(|f| f.ended)
                            .max();
                        let latest = b.fetches.iter().filter(|f| f.ok && f.ended.map_or(false, |e| e > since && e < t.began.unwrap()) && f.answer.iter().any(|x| x.0 == *k)).filter_map(|f| f.ended).max();
                        let ok = match (from, latest) {
                            (None, _) => false,
                            (Some(f), Some(l)) => f >= l || b.fetches.iter().any(|x| x.ended == Some(l) && x.answer.iter().any(|y| y.0 == *k && y.1 == *a)),
                            _ => true,
                        };
                        if !ok {
                            drop(b);
                            return c.violate("value", format!("account {k} is not what was fetched last"));
                        }
                    }
                    if t.list {
                        c.count("lists told");
                        let set: Vec<Pubkey> = v.iter().map(|x| x.0).collect();
                        if !b.fetches.iter().filter(mine).any(|f| f.ok && f.answer.iter().map(|x| x.0).collect::<Vec<_>>() == set) {
                            drop(b);
                            return c.violate("list", "a list no fetch has returned".to_string());
                        }
                    }
                    if t.warm.is_some() {
                        c.count("told from the cache");
                        if b.fetches.len() > t.known {
                            drop(b);
                            return c.violate("cached", "fetched again although in the cache".to_string());
                        }
                    } else {
                        c.count("fetched");
                        if b.fetches.iter().take(t.known).any(|f| f.key == t.key && f.list == t.list && f.ended.map_or(false, |e| e > t.began.unwrap())) {
                            c.count("joined a fetch under way");
                        }
                        if b.fetches.iter().any(|f| f.key == t.key && f.list == t.list && !f.ok && f.ended.map_or(false, |e| e < t.began.unwrap())) {
                            c.count("fetched after a failure");
                        }
                    }
                    c.nontrivial(hash_str(&format!("{:?} {} {} {}", t.warm, b.fetches.len(), v.len(), t.began.unwrap())) ^ c.seed);
                }
            }
        }
    }
}

/// The fetchers that ask a node or the account cache, and the stream of updates into it.
pub fn fetching(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0xFE7C4));
    let mut bank = Bank::new();
    bank.slot = 100 + r.below(1000);
    let d = disc("account", "OpenOrdersAccount");
    let other = disc("account", "Market");
    let mut keys = vec![];
    for _ in 0..2 + r.idx(8) {
        let k = r.pubkey();
        let full = 8 + std::mem::size_of::<OpenOrdersAccount>();
        let mut data = vec![0u8; *r.pick(&[0, 4, 8, 40, full, full, full])];
        r.fill(&mut data);
        if data.len() >= 8 && r.chance(3, 4) {
            let account = data.len() == full && r.chance(2, 3);
            data[..8].copy_from_slice(if account { &d } else { &other });
        }
        let owner = if r.chance(3, 4) { openbook_v2::ID } else { r.pubkey() };
        bank.accounts.insert(k, Account { lamports: 1 + r.below(1 << 40), data, owner, executable: false });
        keys.push(k);
    }
    let missing = r.pubkey();
    keys.push(missing);
    let node = node_for(&bank, &mut r);
    let level = *r.pick(&[CommitmentConfig::confirmed(), CommitmentConfig::finalized(), CommitmentConfig::processed()]);
    let rpc = || solana_client::nonblocking::rpc_client::RpcClient::new_with_commitment("http://127.0.0.1:1".to_string(), level);
    let want = |k: &Pubkey| bank.get(k).map(|a| AccountSharedData::from(sdk(a)));
    let listed = |p: &Pubkey, x: &[u8; 8]| -> BTreeMap<Pubkey, AccountSharedData> {
        bank.accounts.iter().filter(|(_, a)| a.owner == *p && a.data.len() >= 8 && a.data[..8] == x[..]).map(|(k, a)| (*k, AccountSharedData::from(sdk(a)))).collect()
    };

    // asking the node
    let direct = RpcAccountFetcher { rpc: rpc() };
    for k in &keys {
        node.borrow_mut().read.clear();
        let lookup = r.chance(1, 3);
        let got = if lookup { wait(direct.fetch_raw_account_lookup_table(k)) } else { wait(direct.fetch_raw_account(k)) };
        c.eval();
        match (got, want(k)) {
            (Ok(a), Some(b)) if a == b => c.count("read from the node"),
            (Err(_), None) => c.count("missing at the node"),
            (g, _) => c.violate("node", format!("account {k} read as {g:?}")),
        }
        if node.borrow().read != vec![(*k, level)] {
            c.violate("node", format!("reading {k} asked {:?}", node.borrow().read));
        }
    }
    for x in [d, other] {
        c.eval();
        match wait(direct.fetch_program_accounts(&openbook_v2::ID, x)) {
            Ok(v) if v.len() == listed(&openbook_v2::ID, &x).len() && v.iter().cloned().collect::<BTreeMap<_, _>>() == listed(&openbook_v2::ID, &x) => c.count("listed by the node"),
            _ => c.violate("node", "accounts of a kind listed wrongly".to_string()),
        }
    }

    // the account cache fed by messages, next to one fed directly
    let mut twin = ChainData::new();
    let shared = Arc::new(RwLock::new(ChainData::new()));
    let fetcher = crate::chain_data_fetcher::AccountFetcher { chain_data: shared.clone(), rpc: rpc() };
    let mut head = bank.slot - 50;
    let tell = |twin: &mut ChainData, slot: u64, parent: Option<u64>, status: SlotStatus| twin.update_slot(SlotData { slot, parent, status, chain: 0 });
    let mut version = 1u64;
    for step in 0..r.range(5, 40) {
        c.step = step as usize;
        let data = |r: &mut Rng, version: &mut u64| {
            let k = *r.pick(&keys);
            let mut a = want(&k).map(SdkAccount::from).unwrap_or(SdkAccount { lamports: 5, data: vec![1; 20], owner: openbook_v2::ID, executable: false, rent_epoch: 0 });
            *version += 1;
            a.lamports = *version;
            (k, AccountSharedData::from(a))
        };
        match r.idx(8) {
            0 | 1 => {
                let parent = head;
                head += 1 + r.below(2);
                Message::Slot(Arc::new(SlotUpdate::CreatedBank { slot: head, parent, timestamp: 0 })).update_chain_data(&mut shared.write().unwrap());
                tell(&mut twin, head, Some(parent), SlotStatus::Processed);
            }
            2 => {
                let root = r.chance(1, 2);
                let slot = head;
                let m = if root { SlotUpdate::Root { slot, timestamp: 0 } } else { SlotUpdate::OptimisticConfirmation { slot, timestamp: 0 } };
                Message::Slot(Arc::new(m)).update_chain_data(&mut shared.write().unwrap());
                tell(&mut twin, slot, None, if root { SlotStatus::Rooted } else { SlotStatus::Confirmed });
                c.count(if root { "roots told" } else { "confirmations told" });
            }
            3 => {
                let slot = head + 1 + r.below(3);
                let m = match r.idx(3) {
                    0 => SlotUpdate::FirstShredReceived { slot, timestamp: 0 },
                    1 => SlotUpdate::Completed { slot, timestamp: 0 },
                    _ => SlotUpdate::Dead { slot, timestamp: 0, err: String::new() },
                };
                Message::Slot(Arc::new(m)).update_chain_data(&mut shared.write().unwrap());
                c.count("slot messages without meaning");
            }
            4 | 5 => {
                let (k, a) = data(&mut r, &mut version);
                let slot = if r.chance(1, 15) { 0 } else { head - r.below(3).min(head) };
                let m = RpcKeyedAccount { pubkey: k.to_string(), account: solana_account_decoder::UiAccount(if r.chance(9, 10) { Some(a.clone()) } else { None }) };
                let good = m.account.0.is_some();
                c.eval();
                match AccountUpdate::from_rpc(Response { context: RpcResponseContext { slot }, value: m }) {
                    Ok(up) if good && up.pubkey == k && up.slot == slot && up.account == a => {
                        Message::Account(up).update_chain_data(&mut shared.write().unwrap());
                        twin.update_account(k, AccountAndSlot { slot, account: a });
                        c.count("account messages");
                    }
                    Err(_) if !good => c.count("account messages that cannot be decoded"),
                    _ => c.violate("message", "an account message was misread".to_string()),
                }
            }
            6 => {
                let ups: Vec<AccountUpdate> = (0..r.idx(5))
                    .map(|_| {
                        let (k, a) = data(&mut r, &mut version);
                        AccountUpdate { pubkey: k, slot: head - r.below(3).min(head), account: a }
                    })
                    .collect();
                for u in &ups {
                    twin.update_account(u.pubkey, AccountAndSlot { slot: u.slot, account: u.account.clone() });
                }
                Message::Snapshot(ups).update_chain_data(&mut shared.write().unwrap());
                c.count("snapshots");
            }
            _ => {
                let k = *r.pick(&keys);
                let refused = r.chance(1, 6);
                node.borrow_mut().refuse = refused;
                node.borrow_mut().bank.slot = head + r.below(3);
                let slot = node.borrow().bank.slot;
                let got = wait(fetcher.refresh_account_via_rpc(&k));
                node.borrow_mut().refuse = false;
                c.eval();
                match (got, want(&k)) {
                    (Ok(s), Some(a)) if !refused && s == slot => {
                        twin.update_from_rpc(&k, AccountAndSlot { slot, account: a });
                        c.count("refreshed through the node");
                    }
                    (Err(_), w) if refused || w.is_none() => c.count("refresh refused"),
                    (g, _) => c.violate("refresh", format!("refreshing {k}: {g:?}")),
                }
            }
        }
        for k in &keys {
            c.eval();
            let got = fetcher.fetch_raw(k);
            let through = wait(AccountFetcher::fetch_raw_account(&fetcher, k));
            match (got, through, twin.account(k)) {
                (Ok(a), Ok(b), Ok(w)) if a == *w && b == *w => {}
                (Err(_), Err(_), Err(_)) => {}
                _ => c.violate("fetch", format!("account {k} differs from what was told")),
            }
            let got = fetcher.fetch_openbook_account(k);
            let w = twin.account(k).ok().filter(|a| a.data().len() >= 8 + std::mem::size_of::<OpenOrdersAccount>() && a.data()[..8] == d);
            match (got, w) {
                (Ok(a), Some(w)) if bytemuck::bytes_of(&a) == &w.data()[8..8 + std::mem::size_of::<OpenOrdersAccount>()] => c.count("accounts decoded"),
                (Err(_), None) => c.count("not an open orders account"),
                _ => c.violate("decode", format!("account {k} decoded wrongly")),
            }
        }
        if c.failed() {
            set_node(None);
            return;
        }
    }
    for x in [d, other] {
        c.eval();
        let w: BTreeMap<Pubkey, AccountSharedData> = twin
            .iter_accounts()
            .filter(|(_, a)| *a.account.owner() == openbook_v2::ID && a.account.data().len() >= 8 && a.account.data()[..8] == x)
            .map(|(k, a)| (*k, a.account.clone()))
            .collect();
        match wait(AccountFetcher::fetch_program_accounts(&fetcher, &openbook_v2::ID, x)) {
            Ok(v) if v.len() == w.len() && v.iter().cloned().collect::<BTreeMap<_, _>>() == w => c.count("listed from the cache"),
            _ => c.violate("list", "accounts of a kind listed wrongly from the cache".to_string()),
        }
    }
    // lookup tables come from the node when the cache has none
    for k in &keys {
        node.borrow_mut().read.clear();
        let had = fetcher.fetch_raw(k).ok();
        let got = wait(fetcher.fetch_raw_account_lookup_table(k));
        let asked = node.borrow().read.len();
        c.eval();
        match (had, got) {
            (Some(a), Ok(b)) if a == b && asked == 0 => c.count("tables from the cache"),
            (None, Ok(b)) if want(k) == Some(b.clone()) && asked == 1 => c.count("tables from the node"),
            (None, Err(_)) if want(k).is_none() || asked == 1 => c.count("tables nobody has"),
            _ => c.violate("table", format!("lookup table {k} read wrongly")),
        }
    }
    // the newest slot of some signatures
    let sigs: Vec<Signature> = (0..r.idx(6))
        .map(|_| {
            let mut b = [0u8; 64];
            r.fill(&mut b);
            Signature::from(b)
        })
        .collect();
    let mut top = 0;
    for s in &sigs {
        if r.chance(2, 3) {
            let slot = r.below(1 << 30);
            top = top.max(slot);
            node.borrow_mut().statuses.insert(*s, slot);
        }
    }
    c.eval();
    match wait(fetcher.transaction_max_slot(&sigs)) {
        Ok(s) if s == top => c.count("newest slot of signatures"),
        g => c.violate("slots", format!("newest slot told {g:?}, is {top}")),
    }
    // waiting until the data is new enough; the node gets ahead with each answer
    let have: Vec<Pubkey> = keys.iter().copied().filter(|k| want(k).is_some()).take(3).collect();
    let slot = node.borrow().bank.slot;
    node.borrow_mut().pace = 1;
    node.borrow_mut().read.clear();
    let retries = if r.chance(1, 40) { 1 } else { 0 };
    let min = slot + 1 + retries;
    c.eval();
    match wait(fetcher.refresh_accounts_via_rpc_until_slot(&have, min, std::time::Duration::from_secs(60))) {
        Ok(()) => {
            c.count(if retries > 0 { "waited for newer data" } else { "data new enough" });
            let asked: Vec<Pubkey> = node.borrow().read.iter().map(|x| x.0).collect();
            if have.iter().any(|k| !asked.contains(k)) || asked.len() as u64 != have.len() as u64 + retries {
                c.violate("until", format!("waiting for slot {min} from {slot} asked {} times for {} accounts", asked.len(), have.len()));
            }
        }
        Err(e) => c.violate("until", format!("waiting for slot {min}: {e:?}")),
    }
    c.nontrivial(hash_str(&format!("{} {} {}", version, head, sigs.len())) ^ c.seed);
    set_node(None);
}
