//! A small native stand-in for the Solana runtime: loads accounts into the loader's input
//! format, calls the program's real entry point, services its syscalls and applies the
//! runtime's rules (privileges, ownership, lamport conservation, rollback).

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE};
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use solana_program::system_program;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

/// One call the program made into another program.
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    TokenTransfer { from: Pubkey, to: Pubkey, authority: Pubkey, amount: u64 },
    SystemTransfer { from: Pubkey, to: Pubkey, lamports: u64 },
    SystemCreate { payer: Pubkey, new: Pubkey, space: u64, owner: Pubkey },
    AtaCreate { ata: Pubkey, owner: Pubkey, mint: Pubkey },
    SelfEvent(Vec<u8>),
    Other(Pubkey, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum ExecErr {
    /// error returned by the program
    Program(ProgramError),
    /// the program aborted (panic)
    Panic(String),
    /// the runtime would have rejected what the program did
    Runtime(String),
}

#[derive(Default, Debug, Clone)]
pub struct Observed {
    pub events: Vec<Vec<u8>>,
    pub calls: Vec<Call>,
    pub return_data: Option<Vec<u8>>,
    pub messages: Vec<String>,
}

pub struct Outcome {
    pub result: Result<(), ExecErr>,
    pub obs: Observed,
    /// accounts whose lamports, data or owner changed (committed), with their state before
    pub changed: BTreeMap<Pubkey, Account>,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn code(&self) -> Option<u32> {
        match &self.result {
            Err(ExecErr::Program(ProgramError::Custom(c))) => Some(*c),
            _ => None,
        }
    }
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accounts: BTreeMap<Pubkey, Account>,
    pub ts: i64,
    pub slot: u64,
    /// check the gaps between accounts of the input buffer for stray writes
    pub guard_gaps: bool,
}

struct Frame {
    ts: i64,
    slot: u64,
    obs: Observed,
    runtime_error: Option<String>,
    /// state of accounts not owned by the program at the last synchronisation point
    foreign: Vec<(Pubkey, Vec<u8>)>,
    lamports: Vec<(Pubkey, u64, bool)>,
    keep_messages: bool,
    /// pointers to the live account infos of the running instruction
    infos: *const AccountInfo<'static>,
    n_infos: usize,
}

thread_local! {
    static FRAME: RefCell<Option<Frame>> = RefCell::new(None);
    static BUF: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static CLOCK: RefCell<(i64, u64)> = RefCell::new((0, 0));
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

struct Stubs;

fn with_frame<R>(f: impl FnOnce(&mut Frame) -> R) -> Option<R> {
    FRAME.with(|c| c.borrow_mut().as_mut().map(f))
}

/// Set the clock seen by code called outside of an instruction.
pub fn set_free_clock(ts: i64, slot: u64) {
    CLOCK.with(|c| *c.borrow_mut() = (ts, slot));
}

/// Collects the messages logged by code called outside of an instruction.
pub fn free_frame(ts: i64, slot: u64) {
    FRAME.with(|c| {
        *c.borrow_mut() = Some(Frame {
            ts,
            slot,
            obs: Observed::default(),
            runtime_error: None,
            foreign: vec![],
            lamports: vec![],
            keep_messages: false,
            infos: std::ptr::NonNull::dangling().as_ptr(),
            n_infos: 0,
        })
    });
}
pub fn take_free_frame() -> Observed {
    FRAME.with(|c| c.borrow_mut().take().map(|f| f.obs).unwrap_or_default())
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        with_frame(|f| {
            if f.keep_messages {
                f.obs.messages.push(message.to_string())
            }
        });
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        let mut v = vec![];
        for x in fields {
            v.extend_from_slice(x);
        }
        with_frame(|f| f.obs.events.push(v));
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        with_frame(|f| f.obs.return_data = Some(data.to_vec()));
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let (ts, slot) =
            with_frame(|f| (f.ts, f.slot)).unwrap_or_else(|| CLOCK.with(|c| *c.borrow()));
        unsafe {
            *(var_addr as *mut Clock) = Clock {
                slot,
                unix_timestamp: ts,
                ..Clock::default()
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        invoke(instruction, account_infos, signers_seeds)
    }
}

fn runtime_error(msg: String) -> ProgramError {
    with_frame(|f| {
        if f.runtime_error.is_none() {
            f.runtime_error = Some(msg)
        }
    });
    ProgramError::InvalidArgument
}

pub const ATA_PROGRAM: Pubkey = anchor_spl::associated_token::ID;

/// Checks what the program itself did to accounts since the last synchronisation point.
fn check_program_writes() -> Result<(), String> {
    with_frame(|f| {
        let infos = unsafe { std::slice::from_raw_parts(f.infos, f.n_infos) };
        let me = openbook_v2::ID;
        for (k, old) in &f.foreign {
            if let Some(ai) = infos.iter().find(|a| a.key == k) {
                let d = ai.try_borrow_data().map(|d| d.to_vec());
                match d {
                    Ok(d) if &d != old => {
                        return Err(format!("program changed data of foreign account {k}"))
                    }
                    _ => {}
                }
            }
        }
        for (k, old, mine) in &f.lamports {
            if let Some(ai) = infos.iter().find(|a| a.key == k) {
                if let Ok(l) = ai.try_borrow_lamports() {
                    if **l < *old && !*mine {
                        return Err(format!("program took lamports from foreign account {k}"));
                    }
                }
            }
        }
        let _ = me;
        Ok(())
    })
    .unwrap_or(Ok(()))
}

fn resync() {
    with_frame(|f| {
        let infos = unsafe { std::slice::from_raw_parts(f.infos, f.n_infos) };
        f.foreign = snapshot_foreign(infos);
        f.lamports = infos
            .iter()
            .map(|a| (*a.key, a.lamports(), a.owner == &openbook_v2::ID))
            .collect();
    });
}

fn snapshot_foreign(infos: &[AccountInfo]) -> Vec<(Pubkey, Vec<u8>)> {
    infos
        .iter()
        .filter(|a| a.owner != &openbook_v2::ID && !a.executable)
        .filter_map(|a| a.try_borrow_data().ok().map(|d| (*a.key, d.to_vec())))
        .collect()
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    if let Err(e) = check_program_writes() {
        return Err(runtime_error(e));
    }
    let mut pda: Vec<Pubkey> = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &openbook_v2::ID) {
            Ok(k) => pda.push(k),
            Err(_) => return Err(runtime_error("invalid signer seeds".into())),
        }
    }
    let mut accs: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let ai = match infos.iter().find(|a| a.key == &m.pubkey) {
            Some(a) => a,
            None => return Err(runtime_error("call names an unknown account".into())),
        };
        if m.is_writable && !ai.is_writable {
            return Err(ProgramError::Custom(0xE5C0));
        }
        if m.is_signer && !ai.is_signer && !pda.contains(ai.key) {
            return Err(ProgramError::Custom(0xE5C1));
        }
        let mut c = ai.clone();
        c.is_signer = m.is_signer;
        c.is_writable = m.is_writable;
        accs.push(c);
    }
    // the runtime refuses calls while the caller still holds a borrow of a passed account
    for a in &accs {
        let free = if a.is_writable {
            a.try_borrow_mut_data().is_ok()
        } else {
            a.try_borrow_data().is_ok()
        };
        if !free {
            return Err(ProgramError::AccountBorrowFailed);
        }
    }
    let r = if ix.program_id == spl_token::ID {
        let call = match spl_token::instruction::TokenInstruction::unpack(&ix.data) {
            Ok(spl_token::instruction::TokenInstruction::Transfer { amount }) if accs.len() >= 3 => {
                Call::TokenTransfer {
                    from: *accs[0].key,
                    to: *accs[1].key,
                    authority: *accs[2].key,
                    amount,
                }
            }
            _ => Call::Other(ix.program_id, ix.data.clone()),
        };
        let r = spl_token::processor::Processor::process(&spl_token::ID, &accs, &ix.data);
        if r.is_ok() {
            with_frame(|f| f.obs.calls.push(call));
        }
        r
    } else if ix.program_id == system_program::ID {
        system(&accs, &ix.data)
    } else if ix.program_id == ATA_PROGRAM {
        ata_create(&accs)
    } else if ix.program_id == openbook_v2::ID {
        with_frame(|f| f.obs.calls.push(Call::SelfEvent(ix.data.clone())));
        Ok(())
    } else {
        with_frame(|f| f.obs.calls.push(Call::Other(ix.program_id, ix.data.clone())));
        Err(ProgramError::IncorrectProgramId)
    };
    resync();
    r
}

fn system(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction =
        bincode_sys(data).ok_or(ProgramError::InvalidInstructionData)?;
    let need = |i: usize| accs.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (from, to) = (need(0)?, need(1)?);
            if !from.is_signer || !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.lamports() > 0 || to.owner != &system_program::ID || !to.data_is_empty() {
                return Err(ProgramError::Custom(0));
            }
            sys_move(from, to, lamports)?;
            to.realloc(space as usize, true)?;
            to.assign(&owner);
            with_frame(|f| {
                f.obs.calls.push(Call::SystemCreate {
                    payer: *from.key,
                    new: *to.key,
                    space,
                    owner,
                })
            });
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => {
            let (from, to) = (need(0)?, need(1)?);
            if !from.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            sys_move(from, to, lamports)?;
            with_frame(|f| {
                f.obs.calls.push(Call::SystemTransfer {
                    from: *from.key,
                    to: *to.key,
                    lamports,
                })
            });
            Ok(())
        }
        SystemInstruction::Allocate { space } => {
            let a = need(0)?;
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if a.owner != &system_program::ID || !a.data_is_empty() {
                return Err(ProgramError::Custom(0));
            }
            a.realloc(space as usize, true)
        }
        SystemInstruction::Assign { owner } => {
            let a = need(0)?;
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if a.owner != &system_program::ID {
                return Err(ProgramError::Custom(0));
            }
            a.assign(&owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// The few system instructions used here, in their wire format.
fn bincode_sys(d: &[u8]) -> Option<SystemInstruction> {
    let tag = u32::from_le_bytes(d.get(0..4)?.try_into().ok()?);
    let u = |o: usize| -> Option<u64> { Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?)) };
    let k = |o: usize| -> Option<Pubkey> { Pubkey::try_from(d.get(o..o + 32)?).ok() };
    Some(match tag {
        0 => SystemInstruction::CreateAccount { lamports: u(4)?, space: u(12)?, owner: k(20)? },
        1 => SystemInstruction::Assign { owner: k(4)? },
        2 => SystemInstruction::Transfer { lamports: u(4)? },
        8 => SystemInstruction::Allocate { space: u(4)? },
        _ => return None,
    })
}

fn sys_move(from: &AccountInfo, to: &AccountInfo, lamports: u64) -> ProgramResult {
    if from.owner != &system_program::ID || !from.data_is_empty() {
        return Err(ProgramError::InvalidArgument);
    }
    if from.lamports() < lamports {
        return Err(ProgramError::Custom(1));
    }
    **from.try_borrow_mut_lamports()? -= lamports;
    **to.try_borrow_mut_lamports()? += lamports;
    Ok(())
}

fn ata_create(accs: &[AccountInfo]) -> ProgramResult {
    if accs.len() < 6 {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    let (payer, ata, owner, mint) = (&accs[0], &accs[1], &accs[2], &accs[3]);
    if *ata.key != ata_address(owner.key, mint.key) {
        return Err(ProgramError::InvalidSeeds);
    }
    if ata.owner != &system_program::ID || !payer.is_signer {
        return Err(ProgramError::IllegalOwner);
    }
    let rent = Rent::default().minimum_balance(165);
    let need = rent.saturating_sub(ata.lamports());
    sys_move(payer, ata, need)?;
    ata.realloc(165, true)?;
    ata.assign(&spl_token::ID);
    let ix = spl_token::instruction::initialize_account3(&spl_token::ID, ata.key, mint.key, owner.key)?;
    spl_token::processor::Processor::process(
        &spl_token::ID,
        &[ata.clone(), mint.clone()],
        &ix.data,
    )?;
    with_frame(|f| {
        f.obs.calls.push(Call::AtaCreate {
            ata: *ata.key,
            owner: *owner.key,
            mint: *mint.key,
        })
    });
    Ok(())
}

pub fn ata_address(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(
        &[owner.as_ref(), spl_token::ID.as_ref(), mint.as_ref()],
        &ATA_PROGRAM,
    )
    .0
}

/// Install the syscalls and a panic hook that keeps program aborts quiet.
pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info);
        }
    }));
}

/// Run `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = before);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[cfg(asan)]
extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
}
#[cfg(asan)]
fn poison(p: *const u8, n: usize) {
    unsafe { __asan_poison_memory_region(p, n) }
}
#[cfg(asan)]
fn unpoison(p: *const u8, n: usize) {
    unsafe { __asan_unpoison_memory_region(p, n) }
}
#[cfg(not(asan))]
fn poison(_: *const u8, _: usize) {}
#[cfg(not(asan))]
fn unpoison(_: *const u8, _: usize) {}

const GAP: u8 = 0xA7;

impl Bank {
    pub fn new() -> Self {
        let mut b = Bank {
            ts: 1_000_000,
            slot: 5_000,
            ..Default::default()
        };
        for p in [
            system_program::ID,
            spl_token::ID,
            ATA_PROGRAM,
            openbook_v2::ID,
        ] {
            b.accounts.insert(
                p,
                Account {
                    lamports: 1,
                    data: vec![],
                    owner: solana_program::bpf_loader::ID,
                    executable: true,
                },
            );
        }
        b
    }

    pub fn get(&self, k: &Pubkey) -> Option<&Account> {
        self.accounts.get(k)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accounts.get(k).map(|a| a.data.as_slice()).unwrap_or(&[])
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn token_amount(&self, k: &Pubkey) -> u64 {
        let d = self.data(k);
        if d.len() == 165 {
            u64::from_le_bytes(d[64..72].try_into().unwrap())
        } else {
            0
        }
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        self.accounts.entry(k).or_insert_with(|| Account {
            owner: system_program::ID,
            ..Default::default()
        });
        self.accounts.get_mut(&k).unwrap().lamports += lamports;
    }
    pub fn add_mint(&mut self, k: Pubkey, decimals: u8) {
        let mut d = vec![0u8; 82];
        d[44] = decimals;
        d[45] = 1;
        self.accounts.insert(
            k,
            Account {
                lamports: Rent::default().minimum_balance(82),
                data: d,
                owner: spl_token::ID,
                executable: false,
            },
        );
    }
    pub fn add_token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut d = vec![0u8; 165];
        d[0..32].copy_from_slice(mint.as_ref());
        d[32..64].copy_from_slice(owner.as_ref());
        d[64..72].copy_from_slice(&amount.to_le_bytes());
        d[108] = 1;
        let rent = Rent::default().minimum_balance(165);
        let mut lamports = rent;
        if mint == spl_token::native_mint::ID {
            // wrapped lamports
            d[109] = 1;
            d[113..121].copy_from_slice(&rent.to_le_bytes());
            lamports += amount;
        }
        self.accounts.insert(
            k,
            Account {
                lamports,
                data: d,
                owner: spl_token::ID,
                executable: false,
            },
        );
    }
    pub fn set_token_amount(&mut self, k: &Pubkey, amount: u64) {
        if let Some(a) = self.accounts.get_mut(k) {
            if a.data[109] == 1 {
                let had = u64::from_le_bytes(a.data[64..72].try_into().unwrap());
                a.lamports = a.lamports - had + amount;
            }
            a.data[64..72].copy_from_slice(&amount.to_le_bytes());
        }
    }
    pub fn add_program_account(&mut self, k: Pubkey, len: usize) {
        self.accounts.insert(
            k,
            Account {
                lamports: Rent::default().minimum_balance(len),
                data: vec![0; len],
                owner: openbook_v2::ID,
                executable: false,
            },
        );
    }

    /// Execute one instruction atomically.
    pub fn exec(&mut self, ix: &Ix) -> Outcome {
        self.exec_opts(ix, false)
    }

    pub fn exec_opts(&mut self, ix: &Ix, keep_messages: bool) -> Outcome {
        let default_acc = Account {
            owner: system_program::ID,
            ..Default::default()
        };
        // unique accounts with merged flags
        let mut uniq: Vec<Meta> = vec![];
        for m in &ix.metas {
            if let Some(u) = uniq.iter_mut().find(|u| u.key == m.key) {
                u.signer |= m.signer;
                u.writable |= m.writable;
            } else {
                uniq.push(*m);
            }
        }
        for u in uniq.iter_mut() {
            // executable accounts are never writable
            if self.accounts.get(&u.key).map(|a| a.executable).unwrap_or(false) {
                u.writable = false;
            }
        }
        let mut total = 8 + ix.data.len() + 8 + 32 + 64;
        for m in &ix.metas {
            total += 128 + 16 + MAX_PERMITTED_DATA_INCREASE + self.data(&m.key).len();
        }
        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        buf.resize(total / 8 + 8, 0);
        let base = buf.as_mut_ptr() as *mut u8;
        let bytes = unsafe { std::slice::from_raw_parts_mut(base, buf.len() * 8) };
        let mut o = 0usize;
        fn put(bytes: &mut [u8], o: &mut usize, d: &[u8]) {
            bytes[*o..*o + d.len()].copy_from_slice(d);
            *o += d.len();
        }
        put(bytes, &mut o, &(ix.metas.len() as u64).to_le_bytes());
        let mut first: Vec<(Pubkey, usize)> = vec![];
        let mut places: Vec<(usize, usize, usize)> = vec![]; // uniq index, data offset, gap offset
        for (i, m) in ix.metas.iter().enumerate() {
            if let Some((_, idx)) = first.iter().find(|(k, _)| *k == m.key) {
                let idx = *idx as u8;
                put(bytes, &mut o, &[idx, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            first.push((m.key, i));
            let ui = uniq.iter().position(|u| u.key == m.key).unwrap();
            let u = uniq[ui];
            let a = self.accounts.get(&m.key).unwrap_or(&default_acc);
            put(
                bytes,
                &mut o,
                &[0xff, u.signer as u8, u.writable as u8, a.executable as u8, 0, 0, 0, 0],
            );
            put(bytes, &mut o, m.key.as_ref());
            put(bytes, &mut o, a.owner.as_ref());
            put(bytes, &mut o, &a.lamports.to_le_bytes());
            put(bytes, &mut o, &(a.data.len() as u64).to_le_bytes());
            let data_off = o;
            put(bytes, &mut o, &a.data);
            let gap_off = o;
            let mut end = o + MAX_PERMITTED_DATA_INCREASE;
            end = (end + 7) & !7;
            if self.guard_gaps && fixed_size(a) {
                bytes[gap_off..end].fill(GAP);
            }
            o = end;
            put(bytes, &mut o, &0u64.to_le_bytes());
            places.push((ui, data_off, gap_off));
        }
        put(bytes, &mut o, &(ix.data.len() as u64).to_le_bytes());
        put(bytes, &mut o, &ix.data);
        put(bytes, &mut o, openbook_v2::ID.as_ref());

        let (pid, infos, data) =
            unsafe { solana_program::entrypoint::deserialize(base) };
        let infos_box: *mut Vec<AccountInfo<'static>> =
            unsafe { std::mem::transmute(Box::into_raw(Box::new(infos))) };
        let infos: &'static Vec<AccountInfo<'static>> = unsafe { &*infos_box };
        let data: &'static [u8] = unsafe { std::mem::transmute(data) };
        let pid: &'static Pubkey = unsafe { std::mem::transmute(pid) };

        let mut poisoned = vec![];
        if cfg!(asan) {
            for (ui, _, gap) in &places {
                let a = self.accounts.get(&uniq[*ui].key).unwrap_or(&default_acc);
                if fixed_size(a) {
                    let p = unsafe { base.add(*gap) } as usize;
                    let p8 = (p + 7) & !7;
                    poison(p8 as *const u8, MAX_PERMITTED_DATA_INCREASE - 16);
                    poisoned.push((p8, MAX_PERMITTED_DATA_INCREASE - 16));
                }
            }
        }

        FRAME.with(|c| {
            *c.borrow_mut() = Some(Frame {
                ts: self.ts,
                slot: self.slot,
                obs: Observed::default(),
                runtime_error: None,
                foreign: snapshot_foreign(infos),
                lamports: infos
                    .iter()
                    .map(|a| (*a.key, a.lamports(), a.owner == &openbook_v2::ID))
                    .collect(),
                keep_messages,
                infos: infos.as_ptr(),
                n_infos: infos.len(),
            })
        });
        let run: Result<ProgramResult, String> =
            guarded(|| openbook_v2::entry(pid, &infos[..], data));
        for (p, n) in &poisoned {
            unpoison(*p as *const u8, *n);
        }
        let tail = check_program_writes();
        let frame = FRAME.with(|c| c.borrow_mut().take()).unwrap();

        let mut result = match run {
            Err(p) => Err(ExecErr::Panic(p)),
            Ok(Err(e)) => Err(ExecErr::Program(e)),
            Ok(Ok(())) => Ok(()),
        };
        if let Some(e) = frame.runtime_error {
            result = Err(ExecErr::Runtime(e));
        } else if result.is_ok() {
            if let Err(e) = tail {
                result = Err(ExecErr::Runtime(e));
            }
        }
        // gaps must be untouched unless the account was legitimately resized
        if self.guard_gaps {
            for (ui, data_off, gap) in &places {
                let a = self.accounts.get(&uniq[*ui].key).unwrap_or(&default_acc);
                if fixed_size(a) {
                    let len = u64::from_le_bytes(bytes[data_off - 8..*data_off].try_into().unwrap());
                    if len as usize <= a.data.len()
                        && bytes[*gap..*gap + MAX_PERMITTED_DATA_INCREASE].iter().any(|b| *b != GAP)
                    {
                        result = Err(ExecErr::Runtime(format!(
                            "write outside account {}",
                            uniq[*ui].key
                        )));
                    }
                }
            }
        }
        // collect the new states
        let mut changed: BTreeMap<Pubkey, Account> = BTreeMap::new();
        let mut news: Vec<(Pubkey, Account)> = vec![];
        let mut before_sum: u128 = 0;
        let mut after_sum: u128 = 0;
        let mut why: Option<String> = None;
        for (ui, data_off, _) in &places {
            let u = uniq[*ui];
            let old = self.accounts.get(&u.key).unwrap_or(&default_acc);
            let hdr = data_off - 8 - 8 - 32;
            let owner = Pubkey::try_from(&bytes[hdr..hdr + 32]).unwrap();
            let lamports = u64::from_le_bytes(bytes[hdr + 32..hdr + 40].try_into().unwrap());
            let len = u64::from_le_bytes(bytes[hdr + 40..hdr + 48].try_into().unwrap()) as usize;
            if len > old.data.len() + MAX_PERMITTED_DATA_INCREASE {
                why.get_or_insert(format!("account {} grew too much", u.key));
                continue;
            }
            before_sum += old.lamports as u128;
            after_sum += lamports as u128;
            let d = &bytes[*data_off..*data_off + len];
            if owner != old.owner || lamports != old.lamports || d != &old.data[..] {
                if !u.writable {
                    why.get_or_insert(format!("read-only account {} changed", u.key));
                }
                changed.insert(u.key, old.clone());
                news.push((
                    u.key,
                    Account {
                        lamports,
                        data: d.to_vec(),
                        owner,
                        executable: old.executable,
                    },
                ));
            }
        }
        if before_sum != after_sum {
            why.get_or_insert("lamports not conserved".to_string());
        }
        if let (Ok(()), Some(w)) = (&result, why) {
            result = Err(ExecErr::Runtime(w));
        }
        // release the leaked account infos (their boxes point into the buffer)
        unsafe { drop(Box::from_raw(infos_box)) };
        BUF.with(|b| *b.borrow_mut() = buf);
        if result.is_ok() {
            for (k, a) in news {
                if a.lamports == 0 {
                    self.accounts.remove(&k);
                } else {
                    self.accounts.insert(k, a);
                }
            }
        } else {
            changed.clear();
        }
        Outcome {
            result,
            obs: frame.obs,
            changed,
        }
    }

    pub fn total_lamports(&self) -> u128 {
        self.accounts.values().map(|a| a.lamports as u128).sum()
    }
}

/// accounts that no instruction makes larger: the bytes behind them belong to nobody
fn fixed_size(a: &Account) -> bool {
    a.owner == openbook_v2::ID && a.data.len() > 512 && a.data[..8] != crate::world::disc("account", "OpenOrdersIndexer")
}

/// Keys used in a metas list, for account-substitution workloads.
pub fn keys_of(ix: &Ix) -> HashSet<Pubkey> {
    ix.metas.iter().map(|m| m.key).collect()
}
