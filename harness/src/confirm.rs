//! The helpers of the client library: sending and confirming over a node with a script, reading accounts
//! larger than their type, and channels that may be full.

use crate::report::Case;
use crate::rng::{hash_bytes, mix, Rng};
use crate::svm::guarded;
use crate::world::disc;
use crate::util::*;
use anchor_lang::{AccountDeserialize, ZeroCopy};
use openbook_v2::state::{BookSide, EventHeap, Market, OpenOrdersAccount, StubOracle};
use solana_client::client_error::{ClientError, ClientErrorKind};
use solana_client::rpc_client::RpcClient;
use solana_client::rpc_response::{TransactionConfirmationStatus as Level, TransactionStatus};
use solana_client::Confirmer;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::hash::Hash;
use solana_sdk::instruction::{AccountMeta, Instruction, InstructionError};
use solana_sdk::signature::{keypair_from_seed, Signature};
use solana_sdk::signer::Signer;
use solana_sdk::transaction::{Transaction, TransactionError};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Told {
    Unknown,
    Seen(u64, Level, Option<TransactionError>),
    Down(String),
}

#[derive(Clone, Debug, PartialEq)]
enum Event {
    Sent,
    /// a transaction other than the one given
    SentOther,
    Refused(String),
    /// a status below the commitment, or none
    Pending,
    Final(u64, Option<TransactionError>),
    AskedOther,
    Newest,
    /// whether the hash that counts is valid in the newest slots
    Valid(bool),
    /// validity of another hash
    OtherHash(bool),
}

struct Script {
    tx: Transaction,
    nonce: bool,
    commitment: CommitmentConfig,
    told: Vec<Told>,
    /// status requests after which the hash that counts is no longer valid
    expires: usize,
    /// a hash too new to be known at the deeper commitments
    young: bool,
    sending_fails: bool,
    validity_fails: Option<usize>,
    newest_fails: bool,
    newest: Hash,
    older: Hash,
    asked: usize,
    log: Arc<Mutex<Vec<Event>>>,
}

fn meets(level: &Level, c: CommitmentConfig) -> bool {
    match level {
        Level::Finalized => true,
        Level::Confirmed => c != CommitmentConfig::finalized(),
        Level::Processed => c == CommitmentConfig::processed(),
    }
}

impl Script {
    fn note(&self, e: Event) {
        self.log.lock().unwrap().push(e)
    }
    fn fail<T>(&self, what: String) -> Result<T, ClientError> {
        self.note(Event::Refused(what.clone()));
        Err(ClientErrorKind::Custom(what).into())
    }
}

impl Confirmer for Script {
    fn send(&mut self, tx: &Transaction) -> Result<Signature, ClientError> {
        self.note(if *tx == self.tx { Event::Sent } else { Event::SentOther });
        if self.sending_fails {
            return self.fail("sending failed".to_string());
        }
        Ok(tx.signatures[0])
    }
    fn blockhash(&mut self, commitment: CommitmentConfig) -> Result<Hash, ClientError> {
        self.note(Event::Newest);
        if self.newest_fails {
            return self.fail("no blockhash".to_string());
        }
        Ok(if commitment == CommitmentConfig::processed() { self.newest } else { self.older })
    }
    fn valid(&mut self, hash: &Hash, commitment: CommitmentConfig) -> Result<bool, ClientError> {
        if self.validity_fails.map_or(false, |n| self.asked > n) {
            return self.fail("validity unknown".to_string());
        }
        let counts = if self.nonce { self.newest } else { self.tx.message.recent_blockhash };
        let lives = self.asked <= self.expires;
        let known = commitment == CommitmentConfig::processed() || !self.young;
        if *hash == counts {
            self.note(Event::Valid(lives));
            Ok(lives && known)
        } else {
            // an older hash ends sooner, a nonce is no blockhash
            let lives = *hash == self.older && self.asked <= self.expires / 2;
            self.note(Event::OtherHash(lives));
            Ok(lives)
        }
    }
    fn statuses(&mut self, signatures: &[Signature]) -> Result<Vec<Option<TransactionStatus>>, ClientError> {
        if self.asked > self.told.len() + 6 {
            panic!("keeps asking though the blockhash is no longer valid");
        }
        let t = self.told[self.asked.min(self.told.len() - 1)].clone();
        self.asked += 1;
        if signatures != [self.tx.signatures[0]] {
            self.note(Event::AskedOther);
            return Ok(vec![None; signatures.len()]);
        }
        match t {
            Told::Unknown => {
                self.note(Event::Pending);
                Ok(vec![None])
            }
            Told::Down(e) => self.fail(e),
            Told::Seen(slot, level, err) => {
                self.note(if meets(&level, self.commitment) { Event::Final(slot, err.clone()) } else { Event::Pending });
                Ok(vec![Some(TransactionStatus::new(slot, err, level))])
            }
        }
    }
}

fn transaction(r: &mut Rng, nonce: bool) -> Transaction {
    let mut seed = [0u8; 32];
    r.fill(&mut seed);
    let payer = keypair_from_seed(&seed).unwrap();
    let mut ixs = vec![];
    for _ in 0..1 + r.idx(3) {
        let mut data = vec![0u8; r.idx(40)];
        r.fill(&mut data);
        let metas = (0..r.idx(4)).map(|_| AccountMeta::new(r.pubkey(), false)).collect();
        ixs.push(Instruction { program_id: openbook_v2::ID, accounts: metas, data });
    }
    let advance = solana_sdk::system_instruction::advance_nonce_account(&r.pubkey(), &payer.pubkey());
    if nonce {
        ixs.insert(0, advance);
    } else if r.chance(1, 8) {
        // an advance that is not the first instruction makes no durable nonce
        ixs.push(advance);
    }
    let mut h = [0u8; 32];
    r.fill(&mut h);
    Transaction::new_signed_with_payer(&ixs, Some(&payer.pubkey()), &[&payer], Hash::new_from_array(h))
}

fn hash(r: &mut Rng) -> Hash {
    let mut h = [0u8; 32];
    r.fill(&mut h);
    Hash::new_from_array(h)
}

/// Sends one transaction; what was seen, the counters to raise and the complaint if there is one.
fn send_one(r: &mut Rng) -> (Vec<&'static str>, u64, String, Option<(&'static str, String)>) {
    let nonce = r.chance(1, 4);
    let tx = transaction(r, nonce);
    let commitment = *r.pick(&[CommitmentConfig::processed(), CommitmentConfig::confirmed(), CommitmentConfig::finalized()]);
    let waits = *r.pick(&[0usize, 0, 1, 1, 2, 3]);
    let errs = [
        TransactionError::AccountNotFound,
        TransactionError::InsufficientFundsForFee,
        TransactionError::InstructionError(r.below(4) as u8, InstructionError::Custom(6000 + r.below(60) as u32)),
        TransactionError::InstructionError(0, InstructionError::ProgramFailedToComplete),
    ];
    let fate = if r.chance(2, 5) { Some(r.pick(&errs).clone()) } else { None };
    let slot = r.below(1 << 40);
    let mut told = vec![];
    for i in 0..waits {
        // seen on a fork, seen below the commitment or not seen; the slot may still change
        let low = match r.below(3) {
            0 => Some(Level::Processed),
            1 => Some(Level::Confirmed),
            _ => None,
        };
        told.push(match low {
            Some(l) if !meets(&l, commitment) => Told::Seen(slot.saturating_sub(1 + i as u64), l, if r.chance(1, 2) { fate.clone() } else { None }),
            _ => Told::Unknown,
        });
    }
    let level = match r.below(3) {
        0 if meets(&Level::Processed, commitment) => Level::Processed,
        1 if meets(&Level::Confirmed, commitment) => Level::Confirmed,
        _ => Level::Finalized,
    };
    let mut expires = 100;
    match r.below(6) {
        0 => {
            told.push(Told::Unknown);
            expires = r.idx(waits + 1);
        }
        1 => told.push(Told::Down("status unknown".to_string())),
        n => {
            told.push(Told::Seen(slot, level, fate.clone()));
            if n == 2 {
                // the outcome is told although the hash has just run out
                expires = waits;
            }
        }
    }
    let log = Arc::new(Mutex::new(vec![]));
    let mut script = Script {
        nonce,
        commitment,
        told,
        expires,
        young: r.chance(1, 2),
        sending_fails: r.chance(1, 16),
        validity_fails: if r.chance(1, 12) { Some(r.idx(3)) } else { None },
        newest_fails: r.chance(1, 12),
        newest: hash(r),
        older: hash(r),
        asked: 0,
        log: log.clone(),
        tx: tx.clone(),
    };
    if r.chance(1, 8) {
        script.older = script.newest;
    }
    let client = RpcClient::over(Box::new(script), commitment);
    let got = guarded(|| send_and_confirm_transaction(&client, &tx));
    let seen = log.lock().unwrap().clone();
    let text = format!("commitment {:?}, durable nonce {nonce}, seen {seen:?}, answered {got:?}", commitment.commitment);
    let mut counters = vec![];
    let sig = hash_bytes(seen.len() as u64, format!("{:?}{nonce}{:?}", commitment.commitment, seen).as_bytes());
    let mut bad = None;
    let mut complain = |k: &'static str, m: &str| {
        if bad.is_none() {
            bad = Some((k, format!("{m}: {text}")));
        }
    };
    // a node that failed before may have kept it from being sent
    let sent = seen.iter().filter(|e| **e == Event::Sent).count();
    let least = usize::from(!seen.iter().any(|e| matches!(e, Event::Refused(_))));
    if sent > 1 || sent < least || seen.contains(&Event::SentOther) {
        complain("confirm-sent", "the transaction must be sent once and unchanged");
    }
    if seen.contains(&Event::AskedOther) {
        complain("confirm-asked", "the status of another transaction was asked for");
    }
    let finals: Vec<usize> = (0..seen.len()).filter(|i| matches!(seen[*i], Event::Final(..))).collect();
    if finals.first().map_or(false, |i| seen[i + 1..].iter().any(|e| matches!(e, Event::Final(..) | Event::Pending | Event::Sent))) {
        complain("confirm-end", "went on after the outcome was told");
    }
    let refused = seen.iter().find_map(|e| if let Event::Refused(x) = e { Some(x.clone()) } else { None });
    let outcome = finals.first().map(|i| seen[*i].clone());
    match (&got, &outcome, &refused) {
        (Err(e), ..) => complain("confirm-panic", &format!("the helper panicked ({e})")),
        (Ok(Ok((s, at))), Some(Event::Final(slot, None)), None) => {
            counters.push("confirmed");
            if seen.contains(&Event::Pending) {
                counters.push("confirmed after waiting");
            }
            if nonce && seen.contains(&Event::Pending) {
                counters.push("waited for a durable nonce");
            }
            if *s != tx.signatures[0] || at != slot {
                complain("confirm-answer", "another signature or slot was returned");
            }
        }
        (Ok(Ok(_)), ..) => complain("confirm-ok", "success was told though the node did not report it"),
        (Ok(Err(e)), Some(Event::Final(_, Some(want))), None) => {
            counters.push("failed on chain");
            if !matches!(e.kind(), ClientErrorKind::TransactionError(x) if x == want) {
                complain("confirm-error", "the error reported by the node is not the one told");
            }
        }
        (Ok(Err(e)), _, Some(want)) => {
            counters.push("node refused");
            if !matches!(e.kind(), ClientErrorKind::Custom(x) if x == want) {
                complain("confirm-node", "the node's own error was not passed on");
            }
        }
        (Ok(Err(_)), Some(_), None) => complain("confirm-lost", "an error was told though the node reported success"),
        (Ok(Err(_)), None, None) => {
            if seen.contains(&Event::Valid(false)) {
                counters.push("blockhash ran out");
                if nonce {
                    counters.push("newest blockhash ran out");
                }
            } else {
                complain("confirm-early", "gave up while the transaction could still be processed");
            }
        }
    }
    (counters, sig, text, bad)
}

pub fn confirming(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0xC0F1));
    // the helper sleeps between its questions: many at once
    let seeds: Vec<u64> = (0..48).map(|_| r.u64()).collect();
    let mut handles = vec![];
    for s in seeds {
        let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let mut r = Rng::new(s);
            (0..8).map(|_| send_one(&mut r)).collect::<Vec<_>>()
        });
        handles.push(t.expect("a thread"));
    }
    for h in handles {
        for (counters, sig, text, bad) in h.join().expect("a thread of the workload") {
            c.eval();
            for k in counters {
                c.count(k);
            }
            c.nontrivial(sig);
            c.trace(|| text);
            if let Some((k, m)) = bad {
                c.violate(k, m);
            }
        }
    }
}

fn read<T: AccountDeserialize + ZeroCopy + bytemuck::Pod>(c: &mut Case, r: &mut Rng, name: &str) {
    let full = 8 + std::mem::size_of::<T>();
    let mut data = vec![0u8; full + *r.pick(&[0usize, 0, 1, 7, 8, 64, 1000])];
    r.fill(&mut data);
    data[..8].copy_from_slice(&disc("account", name));
    let other = r.chance(1, 4);
    if other {
        let i = r.idx(8);
        data[i] ^= 1 << r.idx(8);
    }
    let short = r.chance(1, 6);
    if short {
        data.truncate(*r.pick(&[0, 4, 8, full / 2, full - 1]));
    }
    let got = guarded(|| Box::new(T::try_deserialize_from_slice(&mut &data[..])));
    let value = match &got {
        Ok(b) => b.as_ref().as_ref().ok(),
        Err(_) => None,
    };
    c.eval();
    match (value, other || short) {
        (Some(v), false) => {
            c.count(if data.len() > full { "larger accounts read" } else { "accounts read" });
            if bytemuck::bytes_of(v) != &data[8..full] {
                c.violate("read-bytes", format!("{name} of {} bytes read differently from its bytes", data.len()));
            }
        }
        (None, true) => c.count("other accounts refused"),
        (Some(_), true) => c.violate("read-other", format!("{} bytes that are no {name} were read as one", data.len())),
        (None, false) => c.violate("read-refused", format!("a {name} of {} bytes (its type has {full}) was refused", data.len())),
    }
}

pub fn helpers(c: &mut Case) {
    let mut r = Rng::new(mix(c.seed ^ 0x4E1F));
    read::<Market>(c, &mut r, "Market");
    read::<OpenOrdersAccount>(c, &mut r, "OpenOrdersAccount");
    read::<StubOracle>(c, &mut r, "StubOracle");
    if r.chance(1, 4) {
        read::<BookSide>(c, &mut r, "BookSide");
        read::<EventHeap>(c, &mut r, "EventHeap");
    }

    // a queue that refuses nothing but what comes after its end
    let room = 1 + r.idx(5);
    let (tx, rx) = async_channel::bounded::<u64>(room);
    let mut model = VecDeque::new();
    let mut closed = false;
    let mut sum = room as u64;
    for _ in 0..20 {
        match r.below(8) {
            0..=4 => {
                let m = r.u64();
                let got = guarded(|| tx.send_unless_full(m));
                let want = if closed {
                    c.count("refused after the end");
                    Err(async_channel::SendError(m))
                } else {
                    if model.len() < room {
                        c.count("queued");
                        model.push_back(m);
                    } else {
                        c.count("dropped when full");
                    }
                    Ok(())
                };
                c.eval();
                if got != Ok(want) {
                    c.violate("queue-answer", format!("message {m} with {} of {room} places taken, closed {closed}: {got:?}", model.len()));
                }
                sum = mix(sum ^ model.len() as u64);
            }
            5 | 6 => {
                let (got, want) = (rx.try_recv(), model.pop_front());
                if got != want {
                    c.violate("queue-order", format!("received {got:?}, expected {want:?}"));
                }
            }
            _ => {
                if r.chance(1, 8) {
                    closed = true;
                    rx.close();
                }
            }
        }
    }
    c.nontrivial(sum);

    let n = r.u64();
    let ok: Result<u64, String> = Ok(n);
    let err: Result<u64, String> = Err(format!("error {n}"));
    c.eval();
    if ok.map_err_anyhow().ok() != Some(n) || !err.map_err_anyhow().map_or_else(|e| e.to_string(), |_| String::new()).contains(&format!("error {n}")) {
        c.violate("wrap", format!("value or error {n} changed when wrapped"));
    }
    c.count("errors wrapped");
}
