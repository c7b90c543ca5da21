//! Direct workloads on small parts of the program: optional keys, typed account access, order ids,
//! token movements, logs and oracle readings.

use crate::containers::Mem;
use crate::layout;
use crate::report::Case;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::{AccountInfo, AnchorDeserialize, AnchorSerialize};
use anchor_lang::{Discriminator, Owner, ZeroCopy};
use openbook_v2::accounts_zerocopy::*;
use openbook_v2::pubkey_option::{NonZeroKey, NonZeroPubkeyOption};
use openbook_v2::state::*;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- optional keys

fn some_key(r: &mut Rng) -> Pubkey {
    let mut b = [0u8; 32];
    match r.below(8) {
        0 => {}
        7 => {
            let known = [openbook_v2::ID, spl_token::ID, solana_program::system_program::ID, solana_program::sysvar::rent::ID, spl_token::native_mint::ID, crate::svm::ATA_PROGRAM];
            return *r.pick(&known);
        }
        1 => b[r.idx(32)] = 1 << r.below(8),
        2 => b = [255; 32],
        3 => {
            b = [255; 32];
            b[r.idx(32)] ^= 1 << r.below(8);
        }
        4 => {
            let i = r.idx(32);
            let j = r.idx(32);
            b[i] = 1 + r.below(255) as u8;
            b[j] = 1 + r.below(255) as u8;
        }
        5 => r.fill(&mut b[..16]),
        _ => r.fill(&mut b),
    }
    Pubkey::new_from_array(b)
}

fn near(r: &mut Rng, k: Pubkey) -> Pubkey {
    let mut b = k.to_bytes();
    b[r.idx(32)] ^= 1 << r.below(8);
    Pubkey::new_from_array(b)
}

/// Optional keys compared with a plain option.
pub fn option_keys(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    for step in 0..200 {
        c.step = step;
        let k = some_key(&mut r);
        let given = if r.chance(1, 5) { None } else { Some(k) };
        let truth = given.filter(|k| *k != Pubkey::default());
        let x: NonZeroPubkeyOption = given.into();
        let l = match r.below(4) {
            0 => k,
            1 => near(&mut r, k),
            2 => Pubkey::default(),
            _ => some_key(&mut r),
        };
        let lo = if r.chance(1, 4) { None } else { Some(l) };
        let y: NonZeroPubkeyOption = lo.into();
        let lt = lo.filter(|k| *k != Pubkey::default());
        c.eval();
        c.trace(|| format!("option of {given:?} against {l} and {lo:?}"));
        let bad = |c: &mut Case, what: &str| c.violate(what, format!("{what}: {given:?} against {l} / {lo:?}"));
        if x.is_some() != truth.is_some() || x.is_none() == truth.is_some() {
            bad(c, "is-set");
        }
        if Option::<Pubkey>::from(x) != truth {
            bad(c, "read-back");
        }
        // an unset value equals nobody
        if (x == l) != (truth == Some(l)) {
            bad(c, "equals-key");
        }
        if (l == x) != (truth == Some(l)) {
            bad(c, "key-equals");
        }
        if (x != l) == (truth == Some(l)) || (l != x) == (truth == Some(l)) {
            bad(c, "not-equals");
        }
        if (x == y) != (truth == lt) || (y == x) != (truth == lt) || (x != y) == (truth == lt) {
            bad(c, "equals-option");
        }
        // through an account of that key
        let by_trait = given.non_zero_key();
        if Option::<Pubkey>::from(by_trait) != truth || by_trait != x {
            bad(c, "from-account");
        }
        // stored form: the 32 bytes of the key, zero when unset
        let raw = truth.unwrap_or_default();
        if bytemuck::bytes_of(&x) != raw.as_ref() {
            bad(c, "stored-bytes");
        }
        let back: NonZeroPubkeyOption = *bytemuck::from_bytes(raw.as_ref());
        if back != x || Option::<Pubkey>::from(back) != truth {
            bad(c, "loaded-bytes");
        }
        let mut ser = vec![];
        if x.serialize(&mut ser).is_err() || ser != raw.as_ref() {
            bad(c, "serialised");
        }
        match NonZeroPubkeyOption::deserialize(&mut &ser[..]) {
            Ok(z) if z == x => {}
            _ => bad(c, "deserialised"),
        }
        if NonZeroPubkeyOption::default().is_some() || Option::<Pubkey>::from(NonZeroPubkeyOption::default()).is_some() {
            bad(c, "default");
        }
        c.count(match (truth.is_some(), truth == Some(l)) {
            (false, _) if l == Pubkey::default() => "unset against the zero key",
            (false, _) => "unset against a key",
            (true, true) => "set and equal",
            (true, false) => "set and different",
        });
        if given == Some(Pubkey::default()) {
            c.count("zero key given");
        }
        if let Some(t) = truth {
            if t.to_bytes().iter().map(|b| b.count_ones()).sum::<u32>() == 1 {
                c.count("key with a single bit");
            }
            c.nontrivial(hash_bytes(1, t.as_ref()) ^ hash_bytes(2, l.as_ref()));
        }
        if c.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- typed account access

trait Typed: ZeroCopy + Owner + Discriminator + bytemuck::Pod {}
impl<T: ZeroCopy + Owner + Discriminator + bytemuck::Pod> Typed for T {}

struct Spot {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    mem: Mem,
}

/// All ways to view one account as one type, under all conditions.
fn views<T: Typed>(c: &mut Case, r: &mut Rng, name: &'static str, others: &[[u8; 8]]) {
    let size = std::mem::size_of::<T>();
    let len = match r.below(8) {
        0 => r.idx(9),
        1 => 8 + r.idx(size),
        2 => 8 + size - 1,
        3 => 8 + size + 1 + r.idx(64),
        4 => 8,
        _ => 8 + size,
    };
    let mut s = Spot {
        key: r.pubkey(),
        owner: T::owner(),
        lamports: 5,
        mem: Mem::new(len),
    };
    // contents
    {
        let b = s.mem.bytes_mut();
        for _ in 0..40 {
            if len > 0 {
                let i = r.idx(len);
                b[i] = r.u64() as u8;
            }
        }
        let n = len.min(8);
        b[..n].copy_from_slice(&T::discriminator()[..n]);
    }
    let mut tag_ok = len >= 8;
    match r.below(8) {
        0 => {
            let n = len.min(8);
            let o = *r.pick(others);
            s.mem.bytes_mut()[..n].copy_from_slice(&o[..n]);
            tag_ok = len >= 8 && o == T::discriminator();
        }
        1 if len > 0 => {
            let i = r.idx(len.min(8));
            s.mem.bytes_mut()[i] ^= 1 << r.below(8);
            tag_ok = false;
        }
        2 => {
            let n = len.min(8);
            s.mem.bytes_mut()[..n].fill(0);
            tag_ok = len >= 8 && T::discriminator() == [0; 8];
        }
        _ => {}
    }
    let mut owner_ok = true;
    match r.below(8) {
        0 => {
            s.owner = near(r, s.owner);
            owner_ok = false;
        }
        1 => {
            s.owner = *r.pick(&[Pubkey::default(), spl_token::ID, s.key]);
            owner_ok = s.owner == T::owner();
        }
        _ => {}
    }
    let fits = len >= 8 + size;
    let want = owner_ok && tag_ok && fits;
    let image = s.mem.bytes().to_vec();
    let (pos, byte) = (r.idx(size), r.u64() as u8);
    c.trace(|| format!("{name}: {len} bytes, owner ok {owner_ok}, tag ok {tag_ok}, expected {want}"));
    c.count(&format!("{name} {}", if want { "accepted" } else { "refused" }));
    for (n, b) in [("wrong owner", owner_ok), ("wrong tag", tag_ok), ("too short", fits)] {
        if !b && [owner_ok, tag_ok, fits].iter().filter(|x| !**x).count() == 1 {
            c.count(&format!("refused only for {n}"));
        }
    }
    let Spot { key, owner, lamports, mem } = &mut s;
    let info = AccountInfo {
        key,
        lamports: Rc::new(RefCell::new(lamports)),
        data: Rc::new(RefCell::new(mem.bytes_mut())),
        owner,
        rent_epoch: 0,
        is_signer: false,
        is_writable: true,
        executable: false,
    };
    let body: Option<&[u8]> = image.get(8..8 + size);
    let mut bad: Vec<String> = vec![];
    let mut judge = |how: &str, want: bool, got: Result<Option<Vec<u8>>, String>, expect: Option<&[u8]>| {
        match got {
            Ok(Some(v)) => {
                if !want {
                    bad.push(format!("{name} through {how} was accepted (owner ok {owner_ok}, tag ok {tag_ok}, {len} bytes)"));
                } else if Some(v.as_slice()) != expect {
                    bad.push(format!("{name} through {how} shows other bytes than the account holds"));
                }
            }
            _ if want => bad.push(format!("{name} through {how} was refused although owner, tag and size are right")),
            _ => {}
        }
    };
    let show = |t: &T| bytemuck::bytes_of(t).to_vec();
    macro_rules! via {
        ($how:expr, $want:expr, $e:expr) => {{
            c.eval();
            let got = guarded(|| $e);
            judge($how, $want, got, body);
        }};
    }
    via!("load", want, LoadZeroCopyRef::load::<T>(&info).ok().map(|x| show(&x)));
    via!("load_mut", want, LoadMutZeroCopyRef::load_mut::<T>(&info).ok().map(|x| show(&x)));
    via!("load_fully_unchecked", fits, LoadZeroCopyRef::load_fully_unchecked::<T>(&info).ok().map(|x| show(&x)));
    via!("load_mut_fully_unchecked", fits, LoadMutZeroCopyRef::load_mut_fully_unchecked::<T>(&info).ok().map(|x| show(&x)));
    via!("reader load", want, AccountInfoRef::borrow(&info).ok().and_then(|a| a.load::<T>().ok().map(show)));
    via!("reader load_fully_unchecked", fits, AccountInfoRef::borrow(&info).ok().and_then(|a| a.load_fully_unchecked::<T>().ok().map(show)));
    via!("mutable reader load", want, AccountInfoRefMut::borrow(&info).ok().and_then(|a| LoadZeroCopy::load::<T>(&a).ok().map(show)));
    via!("mutable reader load_mut", want, AccountInfoRefMut::borrow(&info).ok().and_then(|mut a| a.load_mut::<T>().ok().map(|x| show(x))));
    via!("mutable reader load_mut_fully_unchecked", fits, AccountInfoRefMut::borrow(&info).ok().and_then(|mut a| a.load_mut_fully_unchecked::<T>().ok().map(|x| show(x))));
    // what the readers say about the account
    c.eval();
    {
        let a = AccountInfoRef::borrow(&info);
        match a {
            Ok(a) => {
                if KeyedAccountReader::key(&a) != info.key || AccountReader::owner(&a) != info.owner || AccountReader::data(&a) != image.as_slice() {
                    bad.push("a reader shows another key, owner or other data".into());
                }
            }
            Err(_) => bad.push("an account that is not borrowed cannot be read".into()),
        }
        match AccountInfoRefMut::borrow(&info) {
            Ok(a) => {
                if KeyedAccountReader::key(&a) != info.key || AccountReader::owner(&a) != info.owner || AccountReader::data(&a) != image.as_slice() {
                    bad.push("a mutable reader shows another key, owner or other data".into());
                }
            }
            Err(_) => bad.push("an account that is not borrowed cannot be opened for writing".into()),
        }
    }
    // reading changed nothing
    if info.data.borrow().as_ref() as &[u8] != image.as_slice() {
        bad.push("reading changed the account".into());
    }
    // the reference lives as long as the account it is made from
    let maybe = anchor_lang::prelude::UncheckedAccount::try_from(unsafe { &*(&info as *const AccountInfo) });
    // two views at the same time
    macro_rules! conflict {
        ($hold:expr, $text:expr, $shared:expr) => {{
            let held = guarded(|| $hold);
            if let Ok(Ok(_h)) = held {
                c.eval();
                c.count($text);
                let read = guarded(|| LoadZeroCopyRef::load::<T>(&info).is_ok()).unwrap_or(false);
                let read2 = guarded(|| LoadZeroCopyRef::load_fully_unchecked::<T>(&info).is_ok()).unwrap_or(false);
                let read3 = guarded(|| AccountInfoRef::borrow(&info).is_ok()).unwrap_or(false);
                // None: refused
                let some = guarded(|| AccountInfoRef::borrow_some(Some(&maybe)).ok().map(|x| x.is_some())).unwrap_or(None);
                let slice = guarded(|| AccountInfoRef::borrow_slice(std::slice::from_ref(&info)).ok().map(|x| x.len())).unwrap_or(None);
                if some != $shared.then_some(true) || slice != $shared.then_some(1) {
                    bad.push(format!("{}: reading an optional account or a list answers {some:?} {slice:?}", $text));
                }
                let write = guarded(|| LoadMutZeroCopyRef::load_mut::<T>(&info).is_ok()).unwrap_or(false);
                let write2 = guarded(|| LoadMutZeroCopyRef::load_mut_fully_unchecked::<T>(&info).is_ok()).unwrap_or(false);
                let write3 = guarded(|| AccountInfoRefMut::borrow(&info).is_ok()).unwrap_or(false);
                if write || write2 || write3 {
                    bad.push(format!("{}: a second view for writing was granted", $text));
                }
                if $shared {
                    if read != want || read2 != fits || !read3 {
                        bad.push(format!("{}: a second reader was refused", $text));
                    }
                } else if read || read2 || read3 {
                    bad.push(format!("{}: a reader was granted", $text));
                }
            }
        }};
    }
    conflict!(LoadZeroCopyRef::load::<T>(&info), "while viewed for reading", true);
    conflict!(LoadMutZeroCopyRef::load_mut::<T>(&info), "while viewed for writing", false);
    conflict!(LoadMutZeroCopyRef::load_mut_fully_unchecked::<T>(&info), "while viewed for writing unchecked", false);
    conflict!(AccountInfoRef::borrow(&info), "while read", true);
    conflict!(AccountInfoRefMut::borrow(&info), "while opened for writing", false);
    // a slice of accounts is opened together or not at all
    {
        let both = [info.clone(), info.clone()];
        let ok = AccountInfoRef::borrow_slice(&both).map(|v| v.len() == 2 && v.iter().all(|a| AccountReader::data(a) == image.as_slice())).unwrap_or(false);
        if !ok {
            bad.push("two readers of one account were refused".into());
        }
        if AccountInfoRefMut::borrow_slice(&both).is_ok() {
            bad.push("one account was opened twice for writing".into());
        }
        if !matches!(AccountInfoRef::borrow_some(None), Ok(None)) {
            bad.push("no account was read as one".into());
        }
        c.eval();
    }
    // writing through each mutable view
    if want {
        let mut image = image.clone();
        for way in 0..4 {
            c.eval();
            let (pos, byte) = ((pos + way * 7) % size, byte.wrapping_add(way as u8 * 31));
            let r = guarded(|| match way {
                0 => LoadMutZeroCopyRef::load_mut::<T>(&info).map(|mut t| bytemuck::bytes_of_mut(&mut *t)[pos] = byte).is_ok(),
                1 => LoadMutZeroCopyRef::load_mut_fully_unchecked::<T>(&info).map(|mut t| bytemuck::bytes_of_mut(&mut *t)[pos] = byte).is_ok(),
                2 => AccountInfoRefMut::borrow(&info)
                    .and_then(|mut a| a.load_mut::<T>().map(|t| bytemuck::bytes_of_mut(t)[pos] = byte))
                    .is_ok(),
                _ => AccountInfoRefMut::borrow(&info)
                    .and_then(|mut a| a.load_mut_fully_unchecked::<T>().map(|t| bytemuck::bytes_of_mut(t)[pos] = byte))
                    .is_ok(),
            });
            image[8 + pos] = byte;
            if r != Ok(true) || info.data.borrow().as_ref() as &[u8] != image.as_slice() {
                bad.push(format!("{name}: writing byte {pos} in way {way} changed other bytes, or not that one"));
                break;
            }
        }
        c.nontrivial(mix(hash_str(name) ^ (pos as u64) << 8 ^ byte as u64));
    }
    // the same through accounts held by a client
    {
        use solana_sdk::account::{Account as SdkAccount, AccountSharedData};
        let acc = SdkAccount {
            lamports: 1,
            data: image.clone(),
            owner: *info.owner,
            executable: false,
            rent_epoch: 0,
        };
        let ka = KeyedAccount { key: *info.key, account: acc.clone() };
        let ks = KeyedAccountSharedData::new(*info.key, AccountSharedData::from(acc.clone()));
        c.eval();
        let a = guarded(|| LoadZeroCopy::load::<T>(&ka).ok().map(show));
        let b = guarded(|| LoadZeroCopy::load::<T>(&ks).ok().map(show));
        let d = guarded(|| LoadZeroCopy::load::<T>(&acc).ok().map(show));
        // heap memory of a client is sufficiently aligned in practice only for the shared forms tried here
        for (how, got) in [("client account", a), ("shared client account", b), ("plain client account", d)] {
            match got {
                Ok(Some(v)) => {
                    if !want {
                        bad.push(format!("{name} through {how} was accepted"));
                    } else if Some(v.as_slice()) != body {
                        bad.push(format!("{name} through {how} shows other bytes"));
                    }
                }
                _ if want => bad.push(format!("{name} through {how} was refused")),
                _ => {}
            }
        }
        if KeyedAccountReader::key(&ka) != info.key || AccountReader::owner(&ka) != info.owner || AccountReader::data(&ka) != image.as_slice() {
            bad.push("a client account shows another key, owner or other data".into());
        }
        if KeyedAccountReader::key(&ks) != info.key || AccountReader::owner(&ks) != info.owner || AccountReader::data(&ks) != image.as_slice() {
            bad.push("a shared client account shows another key, owner or other data".into());
        }
    }
    for b in bad {
        c.violate("typed-access", b);
    }
}

pub fn typed(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let tags = [
        BookSide::discriminator(),
        EventHeap::discriminator(),
        Market::discriminator(),
        OpenOrdersAccount::discriminator(),
        StubOracle::discriminator(),
        disc("account", "OpenOrdersIndexer"),
    ];
    for step in 0..12 {
        c.step = step;
        match r.below(9) {
            0 => views::<BookSide>(c, &mut r, "book side", &tags),
            1 => views::<EventHeap>(c, &mut r, "event queue", &tags),
            2 | 3 => views::<Market>(c, &mut r, "market", &tags),
            4 | 5 => views::<OpenOrdersAccount>(c, &mut r, "open orders", &tags),
            _ => views::<StubOracle>(c, &mut r, "stub oracle", &tags),
        }
        if c.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- order ids

/// Ids for every kind of price, offset and counter.
pub fn ids(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    for step in 0..200 {
        c.step = step;
        c.eval();
        let p = if r.chance(1, 2) { r.wild_i64() } else { r.range(-5, 2000) };
        let o = r.wild_i64();
        let o2 = if r.chance(1, 2) { o.wrapping_add(r.range(-2, 2)) } else { r.wild_i64() };
        let seq = r.wild_u64();
        let seq2 = if r.chance(1, 2) { seq.wrapping_add(1) } else { r.wild_u64() };
        c.trace(|| format!("price {p}, offsets {o} {o2}, counters {seq} {seq2}"));
        // fixed prices
        let fp = guarded(|| fixed_price_data(p).ok());
        match (&fp, p >= 1) {
            (Ok(Some(d)), true) => {
                if guarded(|| fixed_price_lots(*d)) != Ok(p) {
                    c.violate("fixed-price", format!("price {p} is not recovered from its id"));
                }
                c.count("fixed price recovered");
            }
            (Ok(Some(_)), false) => c.violate("fixed-price", format!("price {p} was accepted")),
            (_, true) => c.violate("fixed-price", format!("price {p} was refused")),
            (_, false) => c.count("price below one refused"),
        }
        // offsets
        let (d, d2) = match guarded(|| (oracle_pegged_price_data(o), oracle_pegged_price_data(o2))) {
            Ok(x) => x,
            Err(e) => {
                c.violate("offset", format!("offset {o} or {o2} has no id: {e}"));
                return;
            }
        };
        if guarded(|| oracle_pegged_price_offset(d)) != Ok(o) {
            c.violate("offset", format!("offset {o} is not recovered from its id"));
        }
        if (o.cmp(&o2)) != d.cmp(&d2) {
            c.violate("offset-order", format!("offsets {o} and {o2} are ordered otherwise in their ids"));
        }
        // ids
        for side in [Side::Bid, Side::Ask] {
            for data in [d, fp.clone().ok().flatten().unwrap_or(7)] {
                let k = new_node_key(side, data, seq);
                let k2 = new_node_key(side, data, seq2);
                let n = k as u64;
                let got = if side == Side::Bid { !n } else { n };
                if (k >> 64) as u64 != data || got != seq {
                    c.violate("id", format!("id {k:x} does not encode {data:x} and counter {seq}"));
                }
                let leaf = LeafNode::new(3, k, Pubkey::default(), 1, 2, 0, -1, 0);
                if leaf.price_data() != data {
                    c.violate("id", format!("an order does not tell its price data {data:x}"));
                }
                // the earlier order comes first: highest id for bids, lowest for asks
                let first = if side == Side::Bid { k > k2 } else { k < k2 };
                if seq != seq2 && first != (seq < seq2) || seq == seq2 && k != k2 {
                    c.violate("age", format!("{side:?} with counters {seq} and {seq2} rank wrongly"));
                }
                // the better price comes first whatever the age
                let other = if r.chance(1, 2) { data ^ (1 << r.below(64)) } else { r.u64() };
                let k3 = new_node_key(side, other, seq2);
                if other != data && (k3 > k) != (other > data) {
                    c.violate("price-rank", format!("price data {data:x} and {other:x} rank wrongly"));
                }
            }
        }
        c.nontrivial(mix(p as u64 ^ (o as u64).rotate_left(20) ^ seq.rotate_left(41)));
        // the market's counter
        let mut m = Mem::new(layout::MARKET_LEN);
        let start = if r.chance(1, 2) { r.below(1 << 40) } else { seq & (u64::MAX >> 1) };
        m.bytes_mut()[464..472].copy_from_slice(&start.to_le_bytes());
        let side = if r.chance(1, 2) { Side::Bid } else { Side::Ask };
        let mut seen = vec![];
        for i in 1..=3u64 {
            let id = m.get_mut::<Market>().gen_order_id(side, d);
            let n = if side == Side::Bid { !(id as u64) } else { id as u64 };
            if (id >> 64) as u64 != d || n <= start || seen.contains(&id) || layout::u64_(m.bytes(), 464) < n || (i > 1 && n <= seen.last().map(|x: &u128| if side == Side::Bid { !(*x as u64) } else { *x as u64 }).unwrap_or(0)) {
                c.violate("counter", format!("order {i} after counter {start} got id {id:x}"));
            }
            seen.push(id);
        }
        c.count("ids generated");
        if c.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- token movements

struct Raw {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
    signer: bool,
    exec: bool,
}

fn token_data(mint: Pubkey, owner: Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}

/// The helpers behind every movement of tokens and lamports.
pub fn movements(c: &mut Case) {
    use openbook_v2::token_utils::*;
    let mut r = Rng::new(c.seed);
    for step in 0..40 {
        c.step = step;
        let mint = r.pubkey();
        let seed = r.u64().to_le_bytes();
        let (pda, bump) = Pubkey::find_program_address(&[b"Market", &seed], &openbook_v2::ID);
        let kind = r.below(3);
        let human = r.pubkey();
        let authority = if kind == 1 { pda } else { human };
        let have = *r.pick(&[0u64, 1, 1000, u64::MAX / 2, u64::MAX]);
        let there = *r.pick(&[0u64, 5, 1000]);
        let amount = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => have,
            3 => have.saturating_add(1),
            _ => r.below(have.max(1).saturating_add(2)),
        };
        // a transfer without legitimacy
        let forged = r.chance(1, 6);
        let signed = !forged;
        let (ka, kb, kp) = (r.pubkey(), r.pubkey(), if kind == 2 { solana_program::system_program::ID } else { spl_token::ID });
        let mut raws = vec![
            Raw { key: kp, owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![], signer: false, exec: true },
            if kind == 2 {
                Raw { key: ka, owner: solana_program::system_program::ID, lamports: have, data: vec![], signer: signed, exec: false }
            } else {
                Raw { key: ka, owner: spl_token::ID, lamports: 77, data: token_data(mint, authority, have), signer: false, exec: false }
            },
            if kind == 2 {
                Raw { key: kb, owner: openbook_v2::ID, lamports: there, data: vec![1; 8], signer: false, exec: false }
            } else {
                Raw { key: kb, owner: spl_token::ID, lamports: 77, data: token_data(mint, r.pubkey(), there), signer: false, exec: false }
            },
            Raw { key: authority, owner: solana_program::system_program::ID, lamports: 9, data: vec![], signer: signed && kind == 0, exec: false },
        ];
        let wrong_seed = [seed.as_slice(), &[1]].concat();
        let out = {
            let infos: Vec<AccountInfo> = raws
                .iter_mut()
                .map(|x| AccountInfo {
                    key: &x.key,
                    lamports: Rc::new(RefCell::new(&mut x.lamports)),
                    data: Rc::new(RefCell::new(&mut x.data[..])),
                    owner: &x.owner,
                    rent_epoch: 0,
                    is_signer: x.signer,
                    is_writable: true,
                    executable: x.exec,
                })
                .collect();
            free_frame(0, 0);
            let b = [bump];
            let seeds: [&[u8]; 3] = [b"Market", if forged { &wrong_seed } else { &seed }, &b];
            let g = guarded(|| match kind {
                0 => token_transfer(amount, &infos[0], &infos[1], &infos[2], &infos[3]).is_ok(),
                1 => token_transfer_signed(amount, &infos[0], &infos[1], &infos[2], &infos[3], &seeds).is_ok(),
                _ => system_program_transfer(amount, &infos[0], &infos[1], &infos[2]).is_ok(),
            });
            let obs = take_free_frame();
            (g.unwrap_or(false), obs.calls)
        };
        c.eval();
        let name = ["transfer", "signed transfer", "lamport transfer"][kind as usize];
        c.trace(|| format!("{name} of {amount} from {have} to {there}, legitimate {signed}: {}", out.0));
        let can = amount == 0 || (signed && amount <= have && there.checked_add(amount).is_some());
        let read = |x: &Raw| if kind == 2 { x.lamports } else { layout::u64_(&x.data, 64) };
        let moved = if can { amount } else { 0 };
        if out.0 != can {
            c.violate("movement", format!("{name} of {amount} with {have} there, legitimate {signed}, gave {}", out.0));
        }
        if can && (read(&raws[1]) != have - moved || read(&raws[2]) != there + moved) {
            c.violate("movement", format!("{name} of {amount} moved {} -> {} and {} -> {}", have, read(&raws[1]), there, read(&raws[2])));
        }
        let want = if amount == 0 || !can {
            vec![]
        } else if kind == 2 {
            vec![Call::SystemTransfer { from: ka, to: kb, lamports: amount }]
        } else {
            vec![Call::TokenTransfer { from: ka, to: kb, authority, amount }]
        };
        if out.1 != want {
            c.violate("movement-call", format!("{name} of {amount} made the calls {:?}", out.1));
        }
        c.count(if amount == 0 {
            "nothing to move"
        } else if can {
            name
        } else if signed {
            "more than there is"
        } else {
            "without the authority"
        });
        if can && amount > 0 {
            c.nontrivial(mix(kind ^ amount.rotate_left(13) ^ have.rotate_left(31)));
        }
        if c.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- logs

/// Every kind of log with any contents is published completely.
pub fn log_bytes(c: &mut Case) {
    use openbook_v2::logs::*;
    let mut r = Rng::new(c.seed);
    for step in 0..60 {
        c.step = step;
        c.eval();
        let (k1, k2, k3, k4) = (r.pubkey(), r.pubkey(), r.pubkey(), r.pubkey());
        let mut u = || r.wild_u64();
        let v: Vec<u64> = (0..10).map(|_| u()).collect();
        let b: Vec<u8> = v.iter().map(|x| *x as u8).collect();
        let mut e: Vec<u8> = vec![];
        let put = |e: &mut Vec<u8>, x: &[u8]| e.extend_from_slice(x);
        let which = r.below(9);
        free_frame(0, 0);
        let name;
        match which {
            0 => {
                name = "DepositLog";
                put(&mut e, k1.as_ref());
                put(&mut e, k2.as_ref());
                put(&mut e, &v[0].to_le_bytes());
                put(&mut e, &v[1].to_le_bytes());
                let _ = guarded(|| emit_stack(DepositLog { open_orders_account: k1, signer: k2, base_amount: v[0], quote_amount: v[1] }));
            }
            1 => {
                name = "FillLog";
                put(&mut e, k1.as_ref());
                put(&mut e, &[b[0], b[1], b[2] & 1]);
                put(&mut e, &v[0].to_le_bytes());
                put(&mut e, &v[1].to_le_bytes());
                put(&mut e, k2.as_ref());
                for x in &v[2..5] {
                    put(&mut e, &x.to_le_bytes());
                }
                put(&mut e, k3.as_ref());
                for x in &v[5..9] {
                    put(&mut e, &x.to_le_bytes());
                }
                let _ = guarded(|| {
                    emit_stack(FillLog {
                        market: k1,
                        taker_side: b[0],
                        maker_slot: b[1],
                        maker_out: b[2] & 1 == 1,
                        timestamp: v[0],
                        seq_num: v[1],
                        maker: k2,
                        maker_client_order_id: v[2],
                        maker_fee: v[3],
                        maker_timestamp: v[4],
                        taker: k3,
                        taker_client_order_id: v[5],
                        taker_fee_ceil: v[6],
                        price: v[7] as i64,
                        quantity: v[8] as i64,
                    })
                });
            }
            2 => {
                name = "TotalOrderFillEvent";
                put(&mut e, &[b[0]]);
                put(&mut e, k1.as_ref());
                for x in &v[1..4] {
                    put(&mut e, &x.to_le_bytes());
                }
                let _ = guarded(|| {
                    emit_stack(TotalOrderFillEvent {
                        side: b[0],
                        taker: k1,
                        total_quantity_paid: v[1],
                        total_quantity_received: v[2],
                        fees: v[3],
                    })
                });
            }
            3 => {
                name = "SetDelegateLog";
                let d = if v[0] % 2 == 0 { Some(k2) } else { None };
                put(&mut e, k1.as_ref());
                match d {
                    Some(k) => {
                        put(&mut e, &[1]);
                        put(&mut e, k.as_ref());
                    }
                    None => put(&mut e, &[0]),
                }
                let _ = guarded(|| emit_stack(SetDelegateLog { open_orders_account: k1, delegate: d }));
            }
            4 => {
                name = "SettleFundsLog";
                let d = if v[9] % 2 == 0 { Some(k2) } else { None };
                put(&mut e, k1.as_ref());
                for x in &v[..3] {
                    put(&mut e, &x.to_le_bytes());
                }
                match d {
                    Some(k) => {
                        put(&mut e, &[1]);
                        put(&mut e, k.as_ref());
                    }
                    None => put(&mut e, &[0]),
                }
                let _ = guarded(|| {
                    emit_stack(SettleFundsLog {
                        open_orders_account: k1,
                        base_native: v[0],
                        quote_native: v[1],
                        referrer_rebate: v[2],
                        referrer: d,
                    })
                });
            }
            5 => {
                name = "SweepFeesLog";
                put(&mut e, k1.as_ref());
                put(&mut e, &v[0].to_le_bytes());
                put(&mut e, k2.as_ref());
                let _ = guarded(|| emit_stack(SweepFeesLog { market: k1, amount: v[0], receiver: k2 }));
            }
            6 => {
                name = "OpenOrdersPositionLog";
                put(&mut e, k1.as_ref());
                put(&mut e, &(v[0] as u32).to_le_bytes());
                put(&mut e, k2.as_ref());
                for x in &v[1..8] {
                    put(&mut e, &x.to_le_bytes());
                }
                let (m, t) = ((v[8] as u128) << 64 | v[9] as u128, (v[9] as u128) << 64 | v[0] as u128);
                put(&mut e, &m.to_le_bytes());
                put(&mut e, &t.to_le_bytes());
                let _ = guarded(|| {
                    emit_stack(OpenOrdersPositionLog {
                        owner: k1,
                        open_orders_account_num: v[0] as u32,
                        market: k2,
                        bids_base_lots: v[1] as i64,
                        bids_quote_lots: v[2] as i64,
                        asks_base_lots: v[3] as i64,
                        base_free_native: v[4],
                        quote_free_native: v[5],
                        locked_maker_fees: v[6],
                        referrer_rebates_available: v[7],
                        maker_volume: m,
                        taker_volume: t,
                    })
                });
            }
            _ => {
                name = "MarketMetaDataLog";
                let n = *r.pick(&[0usize, 1, 16, 100, 1000, 2800]);
                let s: String = "x".repeat(n);
                put(&mut e, k1.as_ref());
                put(&mut e, &(n as u32).to_le_bytes());
                put(&mut e, s.as_bytes());
                put(&mut e, k3.as_ref());
                put(&mut e, k4.as_ref());
                put(&mut e, &[b[0], b[1]]);
                put(&mut e, &v[0].to_le_bytes());
                put(&mut e, &v[1].to_le_bytes());
                let _ = guarded(|| {
                    emit_stack(MarketMetaDataLog {
                        market: k1,
                        name: s,
                        base_mint: k3,
                        quote_mint: k4,
                        base_decimals: b[0],
                        quote_decimals: b[1],
                        base_lot_size: v[0] as i64,
                        quote_lot_size: v[1] as i64,
                    })
                });
            }
        }
        let obs = take_free_frame();
        let mut want = disc("event", name).to_vec();
        want.extend_from_slice(&e);
        if obs.events != vec![want.clone()] {
            c.violate("log-bytes", format!("{name} was published as {:?} instead of {:?}", obs.events, want));
            return;
        }
        c.count(&format!("published {name}"));
        c.nontrivial(hash_bytes(3, &want));
    }
}

// ---------------------------------------------------------------- oracles

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Feed {
    Stub,
    Pyth,
    Swb1,
    Swb2,
    Raydium,
}

pub struct Quote {
    /// None: must never be used
    pub price: Option<f64>,
    pub deviation: f64,
    pub slot: u64,
    pub account: Account,
    pub what: String,
}

fn fixture(name: &str) -> Option<Vec<u8>> {
    std::fs::read(format!("/repo/programs/openbook-v2/resources/test/{name}.bin")).ok()
}

pub fn raydium_id() -> Pubkey {
    "CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK".parse().unwrap()
}

/// A price account as its publisher would write it.
pub fn quote(r: &mut Rng, feed: Feed, now: u64, target: f64, hostile: bool) -> Quote {
    let slot = match r.below(6) {
        0 => now,
        1 => now.saturating_sub(r.below(5)),
        2 => now.saturating_sub(100 + r.below(3)),
        3 => now.saturating_sub(99),
        4 => now + r.below(10),
        _ => now.saturating_sub(r.below(300)),
    }
    .max(1);
    let rel = *r.pick(&[0.0, 0.0, 0.001, 0.05, 0.0999, 0.2, 0.5, 2.0]);
    let neg = hostile && r.chance(1, 8);
    let acc = |data: Vec<u8>, owner: Pubkey| Account {
        lamports: 1_000_000_000,
        data,
        owner,
        executable: false,
    };
    match feed {
        Feed::Stub => {
            let p = if hostile && r.chance(1, 25) { 0.0 } else { target };
            let d = p * rel;
            let zero = r.chance(1, 10);
            Quote {
                price: Some(p),
                deviation: d,
                slot: if zero { u64::MAX } else { slot },
                account: acc(stub_bytes(Pubkey::default(), Pubkey::default(), p, 0, if zero { 0 } else { slot }, d), openbook_v2::ID),
                what: format!("stub {p} ± {d} at {slot}"),
            }
        }
        Feed::Pyth => {
            let mut d = fixture("J83w4HKfqxwcq3BEMMkPFSppX3gqekLyLJBexebFVkix").unwrap_or_else(|| {
                let mut d = vec![0u8; 3312];
                d[..4].copy_from_slice(&0xa1b2c3d4u32.to_le_bytes());
                d[4..8].copy_from_slice(&2u32.to_le_bytes());
                d[8..12].copy_from_slice(&3u32.to_le_bytes());
                d
            });
            // as many digits as fit
            let mut expo = -*r.pick(&[0i32, 1, 2, 5, 6, 8, 8, 9, 10, 12]);
            if r.chance(1, 12) {
                expo = *r.pick(&[1i32, 3]);
            }
            let scale = 10f64.powi(-expo);
            let n = (target * scale).round().max(1.0).min(9e17) as i64;
            let c = (target * rel * scale).round().max(0.0).min(9e17) as u64;
            let n = if neg { -n } else { n };
            d[20..24].copy_from_slice(&expo.to_le_bytes());
            let trading = r.chance(2, 3);
            let st: u8 = if trading { 1 } else { *r.pick(&[0u8, 2, 3, 4]) };
            // the unused of the two prices differs
            let (a, p) = ((n, c, slot), (n.wrapping_mul(3) / 2 + 11, c + 17, slot.saturating_sub(1000).max(1)));
            let (agg, prev) = if trading { (a, p) } else { (p, a) };
            d[176..184].copy_from_slice(&prev.2.to_le_bytes());
            d[184..192].copy_from_slice(&prev.0.to_le_bytes());
            d[192..200].copy_from_slice(&prev.1.to_le_bytes());
            d[208..216].copy_from_slice(&agg.0.to_le_bytes());
            d[216..224].copy_from_slice(&agg.1.to_le_bytes());
            d[224] = st;
            d[232..240].copy_from_slice(&agg.2.to_le_bytes());
            Quote {
                price: Some(n as f64 / scale).filter(|_| !neg),
                deviation: c as f64 / scale,
                slot,
                account: acc(d, r.pubkey()),
                what: format!("pyth {n}e{expo} ± {c} at {slot}, trading {trading}"),
            }
        }
        Feed::Swb1 => {
            let mut d = fixture("8k7F9Xb36oFJsjpCKpsXvg4cgBRoZtwNTc3EzG5Ttd2o").unwrap_or_else(|| vec![0u8; 1000]);
            let p = if neg { -target } else { target };
            let (lo, hi) = (target * (1.0 - rel / 2.0), target * (1.0 + rel / 2.0));
            d[41..49].copy_from_slice(&p.to_le_bytes());
            d[49..57].copy_from_slice(&slot.to_le_bytes());
            d[65..73].copy_from_slice(&lo.to_le_bytes());
            d[73..81].copy_from_slice(&hi.to_le_bytes());
            let owner = if r.chance(1, 2) { "7azgmy1pFXHikv36q1zZASvFq5vFa39TT9NweVugKKTU" } else { "DtmE9D2CSB4L5D6A15mraeEjrGMm6auWVzgaD8hK2tZM" };
            Quote {
                price: Some(p).filter(|_| !neg),
                deviation: hi - lo,
                slot,
                account: acc(d, owner.parse().unwrap()),
                what: format!("switchboard 1 {p} between {lo} and {hi} at {slot}"),
            }
        }
        Feed::Swb2 => {
            let mut d = fixture("GvDMxPzN1sCj7L26YDK2HnMRXEQmQ2aemov8YBtPS7vR").unwrap_or_else(|| {
                let mut d = vec![0u8; 3851];
                d[..8].copy_from_slice(&[217, 230, 65, 101, 201, 162, 27, 125]);
                d
            });
            let mut scale = *r.pick(&[0u32, 2, 6, 9, 12]);
            if target > 1e12 {
                scale = 2;
            }
            let f = 10f64.powi(scale as i32);
            let n = (target * f).round().max(1.0) as i128;
            let c = (target * rel * f).round() as i128;
            let n = if neg { -n } else { n };
            let o = 8 + 333;
            d[o..o + 4].copy_from_slice(&9u32.to_le_bytes());
            d[8 + 228..8 + 232].copy_from_slice(&(1 + r.below(9) as u32).to_le_bytes());
            // too few oracles answered
            let few = hostile && r.chance(1, 8);
            if few {
                d[8 + 228..8 + 232].copy_from_slice(&10u32.to_le_bytes());
            }
            d[8 + 3704] = 0;
            d[o + 9..o + 17].copy_from_slice(&slot.to_le_bytes());
            d[o + 25..o + 41].copy_from_slice(&n.to_le_bytes());
            d[o + 41..o + 45].copy_from_slice(&scale.to_le_bytes());
            d[o + 45..o + 61].copy_from_slice(&c.to_le_bytes());
            d[o + 61..o + 65].copy_from_slice(&scale.to_le_bytes());
            Quote {
                price: Some(n as f64 / f).filter(|_| !neg && !few),
                deviation: c as f64 / f,
                slot,
                account: acc(d, r.pubkey()),
                what: format!("switchboard 2 {n}/{f} ± {c} at {slot}, too few {few}"),
            }
        }
        Feed::Raydium => {
            let mut d = fixture("2QdhepnKRTLjjSqPL1PtKNwqrUkoLee5Gqs8bvZhRdMv").unwrap_or_else(|| vec![0u8; 1544]);
            let (d0, d1) = (r.below(10) as u8, r.below(10) as u8);
            let raw = target / 10f64.powi(d0 as i32 - d1 as i32);
            let sq = (raw.sqrt() * 2f64.powi(64)).min(2f64.powi(95)) as u128;
            // after the tag: bump, seven keys, then decimals, spacing, liquidity and the price
            let o = 8 + 1 + 7 * 32;
            d[o] = d0;
            d[o + 1] = d1;
            d[o + 20..o + 36].copy_from_slice(&sq.to_le_bytes());
            // the square has 64 fractional bits
            let x = sq as f64 / 2f64.powi(64);
            let p = ((x * x) * 2f64.powi(64)).floor() / 2f64.powi(64) * 10f64.powi(d0 as i32 - d1 as i32);
            Quote {
                price: Some(p),
                deviation: 0.0,
                slot: u64::MAX,
                account: acc(d, raydium_id()),
                what: format!("raydium {p} with {d0} and {d1} decimals"),
            }
        }
    }
}

pub struct Expect {
    /// lowest and highest acceptable lots; None: no price may be used
    pub lots: Option<(i64, i64)>,
    /// too close to a threshold to say
    pub unsure: bool,
}

/// What the price in lots must be.
pub fn expect(a: &Quote, b: Option<&Quote>, conf: f64, stale: i64, now: u64, bd: u8, qd: u8, bls: i64, qls: i64) -> Expect {
    let no = Expect { lots: None, unsure: false };
    let unsure = Expect { lots: None, unsure: true };
    let too_old = |q: &Quote| stale >= 0 && (q.slot as u128 + stale as u128) < now as u128;
    let pa = match a.price {
        Some(p) => p,
        None => return no,
    };
    let (price, dev, limit) = match b {
        None => (pa, a.deviation, conf * pa),
        Some(b) => {
            let pb = match b.price {
                Some(p) => p,
                None => return no,
            };
            // no ratio with nothing
            if pb == 0.0 {
                return no;
            }
            if pa == 0.0 {
                return unsure;
            }
            let var = (a.deviation / pa).powi(2) + (b.deviation / pb).powi(2);
            (pa / pb, var, conf * conf)
        }
    };
    if too_old(a) || b.map(too_old).unwrap_or(false) {
        return no;
    }
    // exactly representable cases may sit on the threshold itself
    let exact = dev == limit && (dev == 0.0 || (b.is_none() && a.what.starts_with("stub") && (conf == 0.5 || conf == 1.0)));
    if !exact && (dev - limit).abs() <= 1e-9 * limit.abs().max(dev.abs()) {
        return unsure;
    }
    if dev > limit {
        return no;
    }
    let native = price * 10f64.powi(qd as i32 - bd as i32);
    let lots = native * bls as f64 / qls as f64;
    if !native.is_finite() || native > 2f64.powi(70) || lots > 2f64.powi(60) {
        return unsure;
    }
    let tol = 2f64.powi(-46) * (1.0 + bls as f64 / qls as f64) + lots * 1e-12;
    Expect {
        lots: Some(((lots - tol).floor().max(0.0) as i64, (lots + tol).floor() as i64)),
        unsure: false,
    }
}

fn feeds(r: &mut Rng) -> (Feed, Option<Feed>) {
    let all = [Feed::Stub, Feed::Pyth, Feed::Swb1, Feed::Swb2, Feed::Raydium];
    let f = *r.pick(&all);
    (f, if r.chance(2, 5) { Some(f) } else { None })
}

/// The market's reading of price accounts of all kinds.
pub fn oracle_reading(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    for step in 0..40 {
        c.step = step;
        let (fa, fb) = feeds(&mut r);
        let now = 10_000 + r.below(1 << 30);
        let (bd, qd) = (r.below(10) as u8, r.below(10) as u8);
        let lot = [1i64, 2, 10, 100, 1000, 7, 1_000_000];
        let (bls, qls) = (*r.pick(&lot), *r.pick(&lot));
        // a price giving a reasonable number of lots
        let lots = match r.below(4) {
            0 => r.below(20) as f64 + 0.5,
            1 => r.below(1 << 30) as f64 + r.below(1000) as f64 / 1000.0,
            _ => r.below(100_000) as f64 + r.below(1000) as f64 / 1000.0,
        };
        let ui = (lots * qls as f64 / bls as f64 / 10f64.powi(qd as i32 - bd as i32)).max(1e-7).min(1e9);
        let pb = *r.pick(&[1.0, 0.5, 4.0, 0.031, 777.0]);
        let a = quote(&mut r, fa, now, if fb.is_some() { ui * pb } else { ui }, true);
        let b = fb.map(|f| quote(&mut r, f, now, pb, true));
        let conf = *r.pick(&[0.1, 0.1, 0.0, 0.05, 1.0, 0.5]);
        let stale = *r.pick(&[-1i64, -1, 0, 1, 100, 100, 100, i64::MAX, 4_000_000_000]);
        let (ka, kb) = (r.pubkey(), r.pubkey());
        let mut m = Mem::new(layout::MARKET_LEN);
        {
            let d = m.bytes_mut();
            d[9] = bd;
            d[10] = qd;
            d[296..328].copy_from_slice(ka.as_ref());
            if b.is_some() {
                d[328..360].copy_from_slice(kb.as_ref());
            }
            d[360..368].copy_from_slice(&f64::to_le_bytes(conf));
            d[368..376].copy_from_slice(&stale.to_le_bytes());
            d[448..456].copy_from_slice(&qls.to_le_bytes());
            d[456..464].copy_from_slice(&bls.to_le_bytes());
        }
        let mut unusable = false;
        let mut acc = a.account.clone();
        let mut accb = b.as_ref().map(|b| b.account.clone());
        // of unknown origin, or not the configured account
        let mut keys = (ka, kb);
        if r.chance(1, 10) {
            let w = if accb.is_some() && r.chance(1, 2) { accb.as_mut().unwrap() } else { &mut acc };
            match r.below(3) {
                0 => {
                    w.data[..8].fill(0x33);
                    w.owner = r.pubkey();
                    c.count("unknown kind of account");
                }
                1 => {
                    keys.0 = r.pubkey();
                    c.count("another account");
                }
                _ if fa == Feed::Stub => {
                    w.owner = r.pubkey();
                    c.count("stub of a foreign program");
                }
                _ => {
                    w.data.truncate(30);
                    c.count("truncated account");
                }
            }
            unusable = true;
        }
        let info = |k: Pubkey, a: &Account| KeyedAccount {
            key: k,
            account: solana_sdk::account::Account {
                lamports: a.lamports,
                data: a.data.clone(),
                owner: a.owner,
                executable: false,
                rent_epoch: 0,
            },
        };
        let (ia, ib) = (info(keys.0, &acc), accb.as_ref().map(|b| info(keys.1, b)));
        c.eval();
        free_frame(0, now);
        let got = guarded(|| m.get::<Market>().oracle_price_lots(Some(&ia), ib.as_ref(), now));
        take_free_frame();
        let e = expect(&a, b.as_ref(), conf, stale, now, bd, qd, bls, qls);
        let used = match &got {
            Ok(Ok(x)) => *x,
            _ => None,
        };
        c.trace(|| format!("{} / {:?}; conf {conf}, staleness {stale}, now {now}, decimals {bd} {qd}, lots {bls} {qls}: {used:?}, acceptable {:?}", a.what, b.as_ref().map(|b| &b.what), e.lots));
        if e.unsure && !unusable {
            c.count("too close to a threshold");
            continue;
        }
        let want = if unusable { None } else { e.lots };
        match (want, used) {
            (None, Some(x)) => {
                c.violate("unusable-price", format!("an unusable price was used as {x} lots: {} / {:?}; conf {conf}, staleness {stale}, now {now}", a.what, b.as_ref().map(|b| &b.what)));
            }
            (Some(_), None) => {
                c.violate("price-ignored", format!("a good price was not used: {} / {:?}; conf {conf}, staleness {stale}, now {now}: {:?}", a.what, b.as_ref().map(|b| &b.what), got));
            }
            (Some((lo, hi)), Some(x)) if x < lo || x > hi => {
                c.violate("price", format!("price read as {x} lots, must be {lo}..{hi}: {} / {:?}; decimals {bd} {qd}, lots {bls} {qls}", a.what, b.as_ref().map(|b| &b.what)));
            }
            _ => {}
        }
        let what = if fb.is_some() { "two" } else { "one" };
        c.count(&format!("{what} {fa:?} {}", if want.is_some() { "used" } else { "not used" }));
        if want.is_some() && b.is_none() && a.deviation == conf * a.price.unwrap_or(-1.0) {
            c.count("deviation at the limit");
        }
        if want.is_some() && stale >= 0 && a.slot != u64::MAX && a.slot as u128 + stale as u128 == now as u128 {
            c.count("used in its last slot");
        }
        if want.is_none() && !unusable && stale >= 0 && a.slot as u128 + stale as u128 + 1 == now as u128 {
            c.count("not used one slot later");
        }
        if let Some(x) = used {
            c.nontrivial(mix(x as u64 ^ hash_str(&format!("{fa:?}{fb:?}"))));
        }
        if c.failed() {
            return;
        }
    }
}

/// Pegged orders trade at the price published by price accounts of all kinds.
pub fn oracle_trading(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let (fa, fb) = feeds(&mut r);
    let mut p = rand_params(&mut r);
    p.maker_fee = 0;
    p.taker_fee = 0;
    p.oracles = if fb.is_some() { 2 } else { 1 };
    p.staleness = *r.pick(&[None, Some(100), Some(100), Some(0)]);
    p.conf_filter = *r.pick(&[0.125f32, 0.5, 0.0]);
    p.admins.0 = false;
    let mut w = match World::new(p.clone(), 2, u64::MAX / 64, u64::MAX / 64) {
        Ok(w) => w,
        Err(e) => {
            c.violate("setup", e);
            return;
        }
    };
    for step in 0..12 {
        c.step = step;
        w.bank.slot = 10_000 + r.below(1 << 24);
        let lots = 3.0 + r.below(50_000) as f64 + (1 + r.below(998)) as f64 / 1000.0;
        let ui = (lots * p.qls as f64 / p.bls as f64 / 10f64.powi(p.quote_decimals as i32 - p.base_decimals as i32)).min(1e15);
        let pb = *r.pick(&[1.0, 0.5, 4.0, 777.0]);
        let a = quote(&mut r, fa, w.bank.slot, if fb.is_some() { ui * pb } else { ui }, true);
        let b = fb.map(|f| quote(&mut r, f, w.bank.slot, pb, true));
        w.bank.accounts.insert(w.mk.oracle_a.unwrap(), a.account.clone());
        if let (Some(k), Some(b)) = (w.mk.oracle_b, &b) {
            w.bank.accounts.insert(k, b.account.clone());
        }
        let e = expect(&a, b.as_ref(), p.conf_filter as f64, p.staleness.map(|x| x as i64).unwrap_or(-1), w.bank.slot, p.base_decimals, p.quote_decimals, p.bls, p.qls);
        if e.unsure || matches!(e.lots, Some((l, h)) if l != h || l < 3 || l > 1 << 34) {
            c.count("too close to a threshold");
            continue;
        }
        let side = r.idx(2) as u8;
        let off = r.range(-2, 2);
        let (maker, taker) = (w.users[0].clone(), w.users[1].clone());
        let limit = match (e.lots, side) {
            (Some((l, _)), 0) => l + off + r.range(0, 3),
            (Some((l, _)), _) => (l + off - r.range(0, 3)).max(1),
            _ => 1000,
        };
        let op = Op::Place {
            oo: maker.oos[0],
            signer: maker.key,
            wallet: if side == 0 { maker.quote } else { maker.base },
            req: Req {
                side,
                price: Price::Pegged { offset: off, limit },
                max_base: 1,
                max_quote: limit.max(1 << 36).min(i64::MAX / p.qls),
                client: step as u64,
                otype: 0,
                expiry: 0,
                stb: 0,
                limit: 10,
            },
            rem: vec![],
        };
        let o = w.bank.exec(&w.mk.build(&op).ix);
        c.eval();
        c.trace(|| format!("pegged order at {off:+} with {} / {:?}, acceptable {:?}: {:?}", a.what, b.as_ref().map(|b| &b.what), e.lots, o.result));
        match (e.lots, o.ok()) {
            (None, true) => {
                c.violate("unusable-price", format!("a pegged order was placed with an unusable price: {} / {:?}", a.what, b.as_ref().map(|b| &b.what)));
                return;
            }
            (Some(_), false) => {
                c.violate("price-ignored", format!("a pegged order was refused with a good price: {} / {:?}: {:?}", a.what, b.as_ref().map(|b| &b.what), o.result));
                return;
            }
            (None, false) => {
                c.count("pegged order refused without a price");
                continue;
            }
            _ => {}
        }
        // another trader takes it: the price shows in what they pay or get
        let price = e.lots.unwrap().0 + off;
        let before = (w.bank.token_amount(&taker.quote), w.bank.token_amount(&taker.base));
        let op = Op::Take {
            signer: taker.key,
            payer: taker.key,
            base: taker.base,
            quote: taker.quote,
            req: Req {
                side: 1 - side,
                price: Price::Fixed(if side == 0 { 1 } else { 1 << 40 }),
                max_base: 1,
                max_quote: (1i64 << 40).min(i64::MAX / p.qls),
                client: 0,
                otype: 1,
                expiry: 0,
                stb: 0,
                limit: 10,
            },
            rem: vec![maker.oos[0]],
        };
        let o = w.bank.exec(&w.mk.build(&op).ix);
        c.eval();
        let after = (w.bank.token_amount(&taker.quote), w.bank.token_amount(&taker.base));
        let want = (price * p.qls) as i128;
        let dq = after.0 as i128 - before.0 as i128;
        let db = after.1 as i128 - before.1 as i128;
        let (eq, eb) = if side == 0 { (want, -(p.bls as i128)) } else { (-want, p.bls as i128) };
        if !o.ok() || dq != eq || db != eb {
            c.violate("trade-price", format!("taking a pegged order at {off:+} of {:?} lots moved {dq} quote and {db} base instead of {eq} and {eb}: {:?}; {} / {:?}", e.lots, o.result, a.what, b.as_ref().map(|b| &b.what)));
            return;
        }
        c.count(&format!("traded at the price of {fa:?}"));
        c.nontrivial(mix(price as u64 ^ hash_str(&a.what)));
    }
}
