//! The published interface description: reading it, and building and decoding with it.

use crate::report::Case;
use crate::rng::{hash_str, mix, Rng};
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    fn yes(&self) -> bool {
        *self == J::Bool(true)
    }
}

struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.0.get(self.1).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.peek() != c {
            return Err(format!("expected {} at {}", c as char, self.1));
        }
        self.1 += 1;
        Ok(())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out = vec![];
        loop {
            let c = self.peek();
            self.1 += 1;
            match c {
                0 => return Err("end in string".into()),
                b'"' => break,
                b'\\' => {
                    let e = self.peek();
                    self.1 += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.0[self.1..self.1 + 4]).map_err(|e| e.to_string())?;
                            let n = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            self.1 += 4;
                            let mut b = [0; 4];
                            out.extend_from_slice(char::from_u32(n).unwrap_or('?').encode_utf8(&mut b).as_bytes());
                        }
                        x => out.push(x),
                    }
                }
                x => out.push(x),
            }
        }
        String::from_utf8(out).map_err(|e| e.to_string())
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.1 += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.1 += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    self.ws();
                    match self.peek() {
                        b',' => self.1 += 1,
                        _ => break,
                    }
                }
                self.eat(b'}')?;
                Ok(J::Obj(v))
            }
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.1 += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.1 += 1,
                        _ => break,
                    }
                }
                self.eat(b']')?;
                Ok(J::Arr(v))
            }
            b'"' => Ok(J::Str(self.string()?)),
            _ => {
                let s = self.1;
                while self.1 < self.0.len() && !b",]} \n\r\t".contains(&self.peek()) {
                    self.1 += 1;
                }
                let t = std::str::from_utf8(&self.0[s..self.1]).map_err(|e| e.to_string())?;
                Ok(match t {
                    "null" => J::Null,
                    "true" => J::Bool(true),
                    "false" => J::Bool(false),
                    x => J::Num(x.parse::<f64>().map_err(|e| format!("{x}: {e}"))?),
                })
            }
        }
    }
}

pub fn parse(t: &str) -> Result<J, String> {
    let mut p = P(t.as_bytes(), 0);
    p.value()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(usize, bool),
    Float(usize),
    Bool,
    Key,
    Str,
    Vec(Box<Ty>),
    Opt(Box<Ty>),
    Arr(Box<Ty>, usize),
    Def(String),
}

fn ty(j: &J) -> Result<Ty, String> {
    Ok(match j {
        J::Str(s) => match s.as_str() {
            "bool" => Ty::Bool,
            "publicKey" => Ty::Key,
            "string" => Ty::Str,
            "f32" => Ty::Float(4),
            "f64" => Ty::Float(8),
            x if x.starts_with('u') || x.starts_with('i') => {
                let bits: usize = x[1..].parse().map_err(|_| format!("type {x}"))?;
                Ty::Int(bits / 8, x.starts_with('i'))
            }
            x => return Err(format!("type {x}")),
        },
        o => {
            if *o.get("vec") != J::Null {
                Ty::Vec(Box::new(ty(o.get("vec"))?))
            } else if *o.get("option") != J::Null {
                Ty::Opt(Box::new(ty(o.get("option"))?))
            } else if *o.get("defined") != J::Null {
                Ty::Def(o.get("defined").str().to_string())
            } else if let [t, J::Num(n)] = o.get("array").arr() {
                Ty::Arr(Box::new(ty(t)?), *n as usize)
            } else {
                return Err(format!("type {o:?}"));
            }
        }
    })
}

pub type Fields = Vec<(String, Ty)>;

#[derive(Clone, Debug)]
pub enum Def {
    Struct(Fields),
    Enum(Vec<(String, Fields)>),
}

#[derive(Clone, Debug)]
pub struct IxDef {
    pub name: String,
    /// name, writable, signer, optional
    pub accounts: Vec<(String, bool, bool, bool)>,
    pub args: Fields,
    pub returns: Option<Ty>,
}

pub struct Idl {
    pub ixs: BTreeMap<String, IxDef>,
    pub accounts: BTreeMap<String, Fields>,
    pub types: BTreeMap<String, Def>,
    pub events: BTreeMap<String, Fields>,
    /// code, name, message
    pub errors: Vec<(u32, String, String)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u128),
    I(i128),
    F(f64),
    B(bool),
    Key(Pubkey),
    S(String),
    L(Vec<Val>),
    O(Option<Box<Val>>),
    R(Vec<(String, Val)>),
    /// name of a variant of an enumeration without fields
    E(String),
}

impl Val {
    pub fn at(&self, name: &str) -> &Val {
        match self {
            Val::R(v) => v.iter().find(|x| x.0 == name).map(|x| &x.1).unwrap_or(&Val::B(false)),
            _ => &Val::B(false),
        }
    }
    pub fn nth(&self, i: usize) -> &Val {
        match self {
            Val::L(v) => v.get(i).unwrap_or(&Val::B(false)),
            _ => &Val::B(false),
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            Val::U(x) => *x as i128,
            Val::I(x) => *x,
            _ => i128::MIN,
        }
    }
}

pub fn snake(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_uppercase() {
            o.push('_');
        }
        o.push(c.to_ascii_lowercase());
    }
    o
}

impl Idl {
    pub fn read(text: &str) -> Result<Idl, String> {
        let j = parse(text)?;
        let fields = |a: &J| -> Result<Fields, String> { a.arr().iter().map(|f| Ok((f.get("name").str().to_string(), ty(f.get("type"))?))).collect() };
        let def = |t: &J| -> Result<Def, String> {
            let k = t.get("type");
            if k.get("kind").str() == "enum" {
                let v: Result<Vec<_>, String> = k.get("variants").arr().iter().map(|v| Ok((v.get("name").str().to_string(), fields(v.get("fields")).unwrap_or_default()))).collect();
                Ok(Def::Enum(v?))
            } else {
                Ok(Def::Struct(fields(k.get("fields"))?))
            }
        };
        let mut i = Idl {
            ixs: BTreeMap::new(),
            accounts: BTreeMap::new(),
            types: BTreeMap::new(),
            events: BTreeMap::new(),
            errors: vec![],
        };
        for x in j.get("instructions").arr() {
            let d = IxDef {
                name: x.get("name").str().to_string(),
                accounts: x
                    .get("accounts")
                    .arr()
                    .iter()
                    .map(|a| (a.get("name").str().to_string(), a.get("isMut").yes(), a.get("isSigner").yes(), a.get("isOptional").yes()))
                    .collect(),
                args: fields(x.get("args"))?,
                returns: if *x.get("returns") == J::Null { None } else { Some(ty(x.get("returns"))?) },
            };
            i.ixs.insert(d.name.clone(), d);
        }
        for x in j.get("accounts").arr() {
            if let Def::Struct(f) = def(x)? {
                i.accounts.insert(x.get("name").str().to_string(), f);
            }
        }
        for x in j.get("types").arr() {
            i.types.insert(x.get("name").str().to_string(), def(x)?);
        }
        for x in j.get("events").arr() {
            i.events.insert(x.get("name").str().to_string(), fields(x.get("fields"))?);
        }
        for x in j.get("errors").arr() {
            if let J::Num(n) = x.get("code") {
                i.errors.push((*n as u32, x.get("name").str().to_string(), x.get("msg").str().to_string()));
            }
        }
        if i.ixs.is_empty() || i.accounts.is_empty() || i.errors.is_empty() {
            return Err("nothing in the interface description".into());
        }
        Ok(i)
    }

    /// size of a type without variable parts
    pub fn size(&self, t: &Ty) -> Option<usize> {
        Some(match t {
            Ty::Int(n, _) | Ty::Float(n) => *n,
            Ty::Bool => 1,
            Ty::Key => 32,
            Ty::Arr(t, n) => self.size(t)? * n,
            Ty::Def(d) => match self.types.get(d)? {
                Def::Struct(f) => f.iter().map(|x| self.size(&x.1)).sum::<Option<usize>>()?,
                Def::Enum(_) => 1,
            },
            _ => return None,
        })
    }
    pub fn fields_size(&self, f: &Fields) -> Option<usize> {
        f.iter().map(|x| self.size(&x.1)).sum()
    }
    /// position and size of every field
    pub fn offsets(&self, f: &Fields) -> BTreeMap<String, (usize, usize)> {
        let mut o = 0;
        let mut m = BTreeMap::new();
        for (n, t) in f {
            let s = self.size(t).unwrap_or(0);
            m.insert(n.clone(), (o, s));
            o += s;
        }
        m
    }

    pub fn decode(&self, t: &Ty, d: &[u8], o: &mut usize) -> Result<Val, String> {
        let mut take = |n: usize| -> Result<&[u8], String> {
            let s = d.get(*o..*o + n).ok_or_else(|| format!("{n} bytes missing at {o}"))?;
            *o += n;
            Ok(s)
        };
        Ok(match t {
            Ty::Int(n, signed) => {
                let b = take(*n)?;
                let mut x = [0u8; 16];
                x[..*n].copy_from_slice(b);
                if *signed {
                    if b[*n - 1] & 0x80 != 0 {
                        x[*n..].fill(0xff);
                    }
                    Val::I(i128::from_le_bytes(x))
                } else {
                    Val::U(u128::from_le_bytes(x))
                }
            }
            Ty::Float(4) => Val::F(f32::from_le_bytes(take(4)?.try_into().unwrap()) as f64),
            Ty::Float(_) => Val::F(f64::from_le_bytes(take(8)?.try_into().unwrap())),
            Ty::Bool => match take(1)?[0] {
                0 => Val::B(false),
                1 => Val::B(true),
                x => return Err(format!("{x} as a truth value")),
            },
            Ty::Key => Val::Key(Pubkey::new_from_array(take(32)?.try_into().unwrap())),
            Ty::Str => {
                let n = u32::from_le_bytes(take(4)?.try_into().unwrap()) as usize;
                Val::S(String::from_utf8(take(n)?.to_vec()).map_err(|e| e.to_string())?)
            }
            Ty::Vec(t) => {
                let n = u32::from_le_bytes(take(4)?.try_into().unwrap()) as usize;
                if n > d.len() {
                    return Err("list too long".into());
                }
                Val::L((0..n).map(|_| self.decode(t, d, o)).collect::<Result<_, _>>()?)
            }
            Ty::Opt(t) => match take(1)?[0] {
                0 => Val::O(None),
                1 => Val::O(Some(Box::new(self.decode(t, d, o)?))),
                x => return Err(format!("{x} as option")),
            },
            Ty::Arr(t, n) => Val::L((0..*n).map(|_| self.decode(t, d, o)).collect::<Result<_, _>>()?),
            Ty::Def(k) => match self.types.get(k).ok_or_else(|| format!("type {k} is not published"))? {
                Def::Struct(f) => self.decode_fields(f, d, o)?,
                Def::Enum(v) => {
                    let x = take(1)?[0] as usize;
                    let (n, f) = v.get(x).ok_or_else(|| format!("{x} as {k}"))?;
                    if !f.is_empty() {
                        self.decode_fields(f, d, o)?;
                    }
                    Val::E(n.clone())
                }
            },
        })
    }
    pub fn decode_fields(&self, f: &Fields, d: &[u8], o: &mut usize) -> Result<Val, String> {
        Ok(Val::R(f.iter().map(|(n, t)| Ok((n.clone(), self.decode(t, d, o)?))).collect::<Result<_, String>>()?))
    }
    pub fn decode_def(&self, name: &str, d: &[u8]) -> Result<Val, String> {
        let mut o = 0;
        let v = self.decode(&Ty::Def(name.into()), d, &mut o)?;
        if o != d.len() {
            return Err(format!("{name} is {o} bytes, {} are there", d.len()));
        }
        Ok(v)
    }
    /// a whole account: tag, fields, nothing else
    pub fn account(&self, name: &str, d: &[u8], slack: bool) -> Result<Val, String> {
        let f = self.accounts.get(name).ok_or_else(|| format!("account {name} is not published"))?;
        if d.get(..8) != Some(&disc("account", name)) {
            return Err(format!("the tag is not that of {name}"));
        }
        let mut o = 8;
        let v = self.decode_fields(f, d, &mut o)?;
        if o != d.len() && !slack {
            return Err(format!("{name} has {} bytes, published are {o}", d.len()));
        }
        Ok(v)
    }
    /// None for a kind of log that is not published
    pub fn event(&self, d: &[u8]) -> Result<Option<(String, Val)>, String> {
        for (n, f) in &self.events {
            if d.get(..8) == Some(&disc("event", n)) {
                let mut o = 8;
                let v = self.decode_fields(f, d, &mut o)?;
                if o != d.len() {
                    return Err(format!("log {n} has {} bytes, published are {o}", d.len()));
                }
                return Ok(Some((n.clone(), v)));
            }
        }
        Ok(None)
    }

    pub fn encode(&self, t: &Ty, v: &Val, out: &mut Vec<u8>) -> Result<(), String> {
        match (t, v) {
            (Ty::Int(n, _), Val::U(x)) => out.extend_from_slice(&x.to_le_bytes()[..*n]),
            (Ty::Int(n, _), Val::I(x)) => out.extend_from_slice(&x.to_le_bytes()[..*n]),
            (Ty::Float(4), Val::F(x)) => out.extend_from_slice(&(*x as f32).to_le_bytes()),
            (Ty::Float(_), Val::F(x)) => out.extend_from_slice(&x.to_le_bytes()),
            (Ty::Bool, Val::B(b)) => out.push(*b as u8),
            (Ty::Key, Val::Key(k)) => out.extend_from_slice(k.as_ref()),
            (Ty::Str, Val::S(s)) => {
                out.extend_from_slice(&(s.len() as u32).to_le_bytes());
                out.extend_from_slice(s.as_bytes());
            }
            (Ty::Vec(t), Val::L(l)) => {
                out.extend_from_slice(&(l.len() as u32).to_le_bytes());
                for x in l {
                    self.encode(t, x, out)?;
                }
            }
            (Ty::Opt(t), Val::O(o)) => match o {
                None => out.push(0),
                Some(x) => {
                    out.push(1);
                    self.encode(t, x, out)?;
                }
            },
            (Ty::Def(k), v) => match (self.types.get(k).ok_or_else(|| format!("type {k} is not published"))?, v) {
                (Def::Struct(f), Val::R(r)) => self.encode_fields(f, r, out)?,
                (Def::Enum(e), Val::E(n)) => {
                    let i = e.iter().position(|x| x.0 == *n).ok_or_else(|| format!("{k} has no {n}"))?;
                    out.push(i as u8);
                }
                _ => return Err(format!("{k} from {v:?}")),
            },
            (t, v) => return Err(format!("{t:?} from {v:?}")),
        }
        Ok(())
    }
    fn encode_fields(&self, f: &Fields, r: &[(String, Val)], out: &mut Vec<u8>) -> Result<(), String> {
        if f.len() != r.len() {
            return Err(format!("{} fields published, {} expected", f.len(), r.len()));
        }
        for (n, t) in f {
            let v = r.iter().find(|x| x.0 == *n).ok_or_else(|| format!("field {n} is unknown"))?;
            self.encode(t, &v.1, out)?;
        }
        Ok(())
    }

    /// The instruction as a client would build it from the description alone.
    pub fn instruction(&self, name: &str, metas: &[Meta], args: &[(String, Val)]) -> Result<Ix, String> {
        let d = self.ixs.get(name).ok_or_else(|| format!("instruction {name} is not published"))?;
        let mut data = disc("global", &snake(name)).to_vec();
        self.encode_fields(&d.args, args, &mut data)?;
        if metas.len() < d.accounts.len() {
            return Err(format!("{name} takes {} accounts, {} expected", d.accounts.len(), metas.len()));
        }
        let mut m = metas.to_vec();
        // write access as published, or as the program's own builder asks for it
        let own = own_flags(name).filter(|f| metas.iter().flat_map(|m| m.key.to_bytes()).chain(data.iter().copied()).fold(7u64, |h, b| mix(h ^ b as u64)) & 1 == 0 && f.len() == d.accounts.len());
        for (i, (an, w, s, opt)) in d.accounts.iter().enumerate() {
            if m[i].key == openbook_v2::ID && an != "program" {
                if !opt {
                    // a missing account that is not optional: leave it to the program to refuse
                }
                m[i].writable = false;
                m[i].signer = false;
                continue;
            }
            m[i].writable = own.map_or(*w, |f| f[i]);
            // withheld signatures stay withheld
            m[i].signer = *s && m[i].signer;
        }
        Ok(Ix { metas: m, data })
    }
}

pub fn idl() -> Option<&'static Idl> {
    static I: OnceLock<Option<Idl>> = OnceLock::new();
    I.get_or_init(|| {
        let t = std::fs::read_to_string("/repo/idl/openbook_v2.json").ok()?;
        match Idl::read(&t) {
            Ok(i) => Some(i),
            Err(e) => {
                eprintln!("interface description unreadable: {e}");
                None
            }
        }
    })
    .as_ref()
}

// ---------------------------------------------------------------- operations in published terms

fn f(n: &str, v: Val) -> (String, Val) {
    (n.to_string(), v)
}
fn u(n: &str, v: u64) -> (String, Val) {
    f(n, Val::U(v as u128))
}
fn i(n: &str, v: i64) -> (String, Val) {
    f(n, Val::I(v as i128))
}
fn e(n: &str) -> Val {
    Val::E(n.to_string())
}
pub fn side_name(s: u8) -> Val {
    e(["Bid", "Ask"][s as usize & 1])
}
fn otype_name(s: u8) -> Val {
    e(["Limit", "ImmediateOrCancel", "PostOnly", "Market", "PostOnlySlide", "FillOrKill"][s as usize % 6])
}
fn stb_name(s: u8) -> Val {
    e(["DecrementTake", "CancelProvide", "AbortTransaction"][s as usize % 3])
}
fn req(r: &Req) -> (bool, Val) {
    let rest = vec![
        f("side", side_name(r.side)),
        i("maxBaseLots", r.max_base),
        i("maxQuoteLotsIncludingFees", r.max_quote),
        u("clientOrderId", r.client),
        f("orderType", otype_name(r.otype)),
        u("expiryTimestamp", r.expiry),
        f("selfTradeBehavior", stb_name(r.stb)),
        u("limit", r.limit as u64),
    ];
    match r.price {
        Price::Fixed(p) => (false, Val::R([rest, vec![i("priceLots", p)]].concat())),
        Price::Pegged { offset, limit } => (true, Val::R([rest, vec![i("priceOffsetLots", offset), i("pegLimit", limit)]].concat())),
    }
}

pub fn published(op: &Op) -> (&'static str, Vec<(String, Val)>) {
    let multi = |v: &[Multi]| Val::L(v.iter().map(|m| Val::R(vec![i("priceLots", m.price), i("maxQuoteLotsIncludingFees", m.max_quote), u("expiryTimestamp", m.expiry)])).collect());
    match op {
        Op::Place { req: r, .. } => {
            let (peg, v) = req(r);
            (if peg { "placeOrderPegged" } else { "placeOrder" }, vec![f("args", v)])
        }
        Op::Edit { req: r, cancel, expected, .. } => {
            let (peg, v) = req(r);
            (if peg { "editOrderPegged" } else { "editOrder" }, vec![u("clientOrderId", *cancel), i("expectedCancelSize", *expected), f("placeOrder", v)])
        }
        Op::Batch { cancel, otype, bids, asks, limit, .. } => (
            if *cancel { "cancelAllAndPlaceOrders" } else { "placeOrders" },
            vec![f("ordersType", otype_name(*otype)), f("bids", multi(bids)), f("asks", multi(asks)), u("limit", *limit as u64)],
        ),
        Op::Take { req: r, .. } => (
            "placeTakeOrder",
            vec![f(
                "args",
                Val::R(vec![
                    f("side", side_name(r.side)),
                    i("priceLots", if let Price::Fixed(p) = r.price { p } else { 0 }),
                    i("maxBaseLots", r.max_base),
                    i("maxQuoteLotsIncludingFees", r.max_quote),
                    f("orderType", otype_name(r.otype)),
                    u("limit", r.limit as u64),
                ]),
            )],
        ),
        Op::CancelId { id, .. } => ("cancelOrder", vec![f("orderId", Val::U(*id))]),
        Op::CancelClient { client, .. } => ("cancelOrderByClientOrderId", vec![u("clientOrderId", *client)]),
        Op::CancelAll { side, limit, .. } => ("cancelAllOrders", vec![f("sideOption", Val::O(side.map(|s| Box::new(side_name(s))))), u("limit", *limit as u64)]),
        Op::Consume { limit, given: None, .. } => ("consumeEvents", vec![u("limit", *limit)]),
        Op::Consume { given: Some(g), .. } => ("consumeGivenEvents", vec![f("slots", Val::L(g.iter().map(|x| Val::U(*x as u128)).collect()))]),
        Op::Deposit { base, quote, refill, .. } => (if *refill { "refill" } else { "deposit" }, vec![u("baseAmount", *base), u("quoteAmount", *quote)]),
        Op::Settle { expired, .. } => (if *expired { "settleFundsExpired" } else { "settleFunds" }, vec![]),
        Op::Sweep { .. } => ("sweepFees", vec![]),
        Op::SetExpired => ("setMarketExpired", vec![]),
        Op::Prune { limit, .. } => ("pruneOrders", vec![u("limit", *limit as u64)]),
        Op::SetDelegate { .. } => ("setDelegate", vec![]),
    }
}

/// The same instruction built from the description; complaints when the program's own encoding differs.
pub fn rebuild(b: &Ix, name: &str, args: &[(String, Val)]) -> Result<Ix, String> {
    let idl = idl().ok_or("no interface description")?;
    let ix = idl.instruction(name, &b.metas, args)?;
    if ix.data != b.data {
        return Err(format!("{name} is encoded as {:?} by the interface and {:?} by the program", ix.data, b.data));
    }
    Ok(ix)
}

/// Errors, logs and return data of an execution in published terms.
pub fn judge(c: &mut Case, name: &str, out: &Outcome) -> Vec<String> {
    let mut bad = vec![];
    let idl = match idl() {
        Some(i) => i,
        None => return bad,
    };
    for ev in &out.obs.events {
        c.eval();
        match idl.event(ev) {
            Ok(Some((n, _))) => c.count(&format!("log {n} decoded")),
            Ok(None) => c.count("logs of unpublished kinds"),
            Err(e) => bad.push(e),
        }
    }
    if out.ok() {
        if let Some(t) = idl.ixs.get(name).and_then(|d| d.returns.as_ref()) {
            c.eval();
            let d = out.obs.return_data.clone().unwrap_or_default();
            let mut o = 0;
            match idl.decode(t, &d, &mut o) {
                Ok(_) if o == d.len() => c.count("return data decoded"),
                x => bad.push(format!("{name} returned {d:?}, which is not {t:?}: {x:?}")),
            }
        }
    }
    for m in &out.obs.messages {
        // Error Code: X. Error Number: N. Error Message: M.
        if let Some(p) = m.find("Error Code: ") {
            let t = &m[p + 12..];
            let parts = (t.find(". Error Number: "), t.find(". Error Message: "));
            if let (Some(a), Some(b)) = parts {
                let (en, num, msg) = (&t[..a], t[a + 16..b].parse::<u32>().unwrap_or(0), &t[b + 17..]);
                c.eval();
                // the message may carry more context behind it
                if num >= 6000 || idl.errors.iter().any(|e| e.1 == en) {
                    let ok = idl.errors.iter().any(|e| e.0 == num && e.1 == en && (msg.starts_with(&e.2) || e.2.is_empty()));
                    if !ok {
                        bad.push(format!("error {en} with number {num} and message {msg} is not published like this"));
                    }
                    if out.code() != Some(num) {
                        bad.push(format!("error {en} with number {num} was returned as {:?}", out.result));
                    }
                    c.count(&format!("error {en}"));
                    c.nontrivial(mix(hash_str(en) ^ hash_str(name)));
                }
            }
        }
    }
    if let Some(code) = out.code() {
        if code >= 6000 && !idl.errors.iter().any(|e| e.0 == code) {
            bad.push(format!("error {code} is not published"));
        }
    }
    bad
}

/// expected fields; the rest of the record must be zero
pub fn same(bad: &mut Vec<String>, what: &str, v: &Val, want: &[(&str, Val)]) {
    for (n, w) in want {
        let g = v.at(n);
        let eq = match (g, w) {
            (Val::F(a), Val::F(b)) => a == b,
            (Val::R(r), Val::Key(k)) => r.len() == 1 && r[0].1 == Val::Key(*k),
            (Val::U(_) | Val::I(_), Val::U(_) | Val::I(_)) => g.int() == w.int(),
            (a, b) => a == b,
        };
        if !eq {
            bad.push(format!("{what}: {n} decodes as {}, must be {}", short(g), short(w)));
        }
    }
    if let Val::R(r) = v {
        for (n, g) in r {
            if !want.iter().any(|w| w.0 == n) && !zero(g) {
                bad.push(format!("{what}: {n} decodes as {}, must be zero", short(g)));
            }
        }
    }
}

fn short(v: &Val) -> String {
    format!("{v:?}").chars().take(300).collect()
}

pub fn zero(v: &Val) -> bool {
    match v {
        Val::U(x) => *x == 0,
        Val::I(x) => *x == 0,
        Val::F(x) => *x == 0.0,
        Val::Key(k) => *k == Pubkey::default(),
        Val::L(l) => l.iter().all(zero),
        Val::R(r) => r.iter().all(|x| zero(&x.1)),
        Val::B(b) => !b,
        Val::O(o) => o.is_none(),
        _ => false,
    }
}

fn bytes(s: &str, n: usize) -> Val {
    let mut b = s.as_bytes().to_vec();
    b.resize(n, 0);
    Val::L(b.into_iter().map(|x| Val::U(x as u128)).collect())
}

/// A scripted life of a market in which every published field takes a known value.
pub fn accounts(c: &mut Case) {
    let mut r = Rng::new(c.seed);
    let idl = match idl() {
        Some(i) => i,
        None => return,
    };
    let mut p = rand_params(&mut r);
    p.qls = p.qls.min(1000);
    p.bls = p.bls.min(1000);
    p.maker_fee = r.range(-50, 300);
    p.taker_fee = 100 + r.below(1000) as i64;
    p.oracles = 1 + r.below(2) as u8;
    p.expiry = if r.chance(1, 2) { 0 } else { 4_000_000_000 };
    p.name = ["SOL-USDC", "A", "ABCDEFGHIJKLMNOP", ""][r.idx(4)].to_string();
    p.staleness = if r.chance(1, 2) { None } else { Some(100 + r.below(1000) as u32) };
    p.conf_filter = *r.pick(&[0.1f32, 0.5, 0.25]);
    p.admins = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    let big = u64::MAX / 64;
    let mut bad: Vec<String> = vec![];
    // the market itself, created through the description
    let mut w = match World::new(p.clone(), 3, big, big) {
        Ok(w) => w,
        Err(e) => {
            c.violate("setup", e);
            return;
        }
    };
    let mk2 = w.new_market_keys(w.mk.base_mint, w.mk.quote_mint, &p);
    let args = vec![
        f("name", Val::S(p.name.clone())),
        f(
            "oracleConfig",
            Val::R(vec![
                f("confFilter", Val::F(p.conf_filter as f64)),
                f("maxStalenessSlots", Val::O(p.staleness.map(|x| Box::new(Val::U(x as u128))))),
            ]),
        ),
        i("quoteLotSize", p.qls),
        i("baseLotSize", p.bls),
        i("makerFee", p.maker_fee),
        i("takerFee", p.taker_fee),
        i("timeExpiry", p.expiry),
    ];
    let b = create_market_ix(w.payer, &mk2, &p);
    macro_rules! send {
        ($b:expr, $name:expr, $args:expr) => {{
            let b = $b;
            c.eval();
            match rebuild(&b.ix, $name, &$args) {
                Err(e) => {
                    c.violate("interface-arguments", e);
                    return;
                }
                Ok(ix) => {
                    let o = w.bank.exec_opts(&ix, true);
                    bad.extend(judge(c, $name, &o));
                    c.trace(|| format!("{} from the interface: {:?}", $name, o.result));
                    if !o.ok() {
                        c.violate("interface-refused", format!("{} built from the interface was refused: {:?}", $name, o.result));
                        return;
                    }
                    c.count(&format!("sent {}", $name));
                }
            }
        }};
    }
    send!(b, "createMarket", args);
    w.mk = mk2;
    // traders
    let mut us = vec![];
    for n in 0..2u64 {
        let k = w.key();
        w.bank.fund(k, 1 << 40);
        let (bk, qk) = (w.key(), w.key());
        w.bank.add_token(bk, w.mk.base_mint, k, big);
        w.bank.add_token(qk, w.mk.quote_mint, k, big);
        send!(create_indexer_ix(w.payer, k), "createOpenOrdersIndexer", vec![]);
        let del = if n == 0 { Some(r.pubkey()) } else { None };
        let name = ["first", "", "exactly thirty-two bytes long..!"][r.idx(3)];
        let oo = oo_address(&k, 1);
        send!(create_oo_ix(w.payer, k, del, 1, w.mk.key, name), "createOpenOrdersAccount", vec![f("name", Val::S(name.into()))]);
        // a second one that is closed again
        let oo2 = oo_address(&k, 2);
        send!(create_oo_ix(w.payer, k, None, 2, w.mk.key, "x"), "createOpenOrdersAccount", vec![f("name", Val::S("x".into()))]);
        c.eval();
        match idl.account("OpenOrdersIndexer", w.bank.data(&indexer_address(&k)), true) {
            Ok(v) => same(
                &mut bad,
                "index",
                &v,
                &[
                    ("bump", Val::U(Pubkey::find_program_address(&[b"OpenOrdersIndexer", k.as_ref()], &openbook_v2::ID).1 as u128)),
                    ("createdCounter", Val::U(2)),
                    ("addresses", Val::L(vec![Val::Key(oo), Val::Key(oo2)])),
                ],
            ),
            Err(e) => bad.push(e),
        }
        send!(close_oo_ix(k, oo2, k), "closeOpenOrdersAccount", vec![]);
        us.push((k, bk, qk, oo, name, del));
    }
    let bump = |s: &[&[u8]]| Val::U(Pubkey::find_program_address(s, &openbook_v2::ID).1 as u128);
    let t0 = w.bank.ts;
    // deposits
    let (db, dq) = (p.bls as u64 * 1000 + r.below(1000), p.qls as u64 * 50_000_000 + r.below(1000));
    let a = us[0].clone();
    let t = us[1].clone();
    let op = Op::Deposit { oo: a.3, payer: a.0, base_acc: a.1, quote_acc: a.2, base: db, quote: dq, refill: false };
    send!(w.mk.build(&op), "deposit", published(&op).1);
    macro_rules! send_op {
        ($op:expr) => {{
            let op = $op;
            let (n, args) = published(&op);
            send!(w.mk.build(&op), n, args);
        }};
    }
    // two bids with different lifetimes and a pegged ask
    w.bank.ts += 5;
    let t1 = w.bank.ts as u64;
    w.set_stub(w.mk.oracle_a.unwrap(), w.mk.base_mint, 1.0, 0.0);
    if let Some(k) = w.mk.oracle_b {
        w.set_stub(k, w.mk.quote_mint, 1.0, 0.0);
    }
    let (p1, p2) = (50 + r.below(20) as i64, 20 + r.below(20) as i64);
    let (q1, q2) = (2 + r.below(9) as i64, 1 + r.below(9) as i64);
    let (e1, e2) = (100 + r.below(1000), 2000 + r.below(1000));
    let (c1, c2) = (r.u64(), r.u64());
    let place = |oo: Pubkey, signer: Pubkey, wallet: Pubkey, side: u8, price: i64, base: i64, client: u64, expiry: u64, otype: u8, rem: Vec<Pubkey>| Op::Place {
        oo,
        signer,
        wallet,
        req: Req { side, price: Price::Fixed(price), max_base: base, max_quote: 1 << 30, client, otype, expiry, stb: 0, limit: 20 },
        rem,
    };
    send_op!(place(a.3, a.0, a.2, 0, p1, q1, c1, t1 + e1, 2, vec![]));
    send_op!(place(a.3, a.0, a.2, 0, p2, q2, c2, t1 + e2, 0, vec![]));
    c.step = 1;
    let fee = |q: i64| if p.maker_fee > 0 { ((q * p.qls) as i128 * p.maker_fee as i128 + 999_999) / 1_000_000 } else { 0 };
    let id = |price: i64, seq: u64| Val::U((price as u128) << 64 | !seq as u128);
    // the market after all this
    c.eval();
    match idl.account("Market", w.bank.data(&w.mk.key), false) {
        Err(e) => bad.push(e),
        Ok(v) => {
            let none = Pubkey::default();
            let opt = |k: Option<Pubkey>| Val::Key(k.unwrap_or(none));
            let stored = (p.conf_filter as f64, p.staleness.map(|x| x as i128).unwrap_or(-1));
            same(&mut bad, "oracle configuration", v.at("oracleConfig"), &[("confFilter", Val::F(stored.0)), ("maxStalenessSlots", Val::I(stored.1))]);
            same(
                &mut bad,
                "market",
                &v,
                &[
                    ("bump", bump(&[b"Market", w.mk.key.as_ref()])),
                    ("baseDecimals", Val::U(p.base_decimals as u128)),
                    ("quoteDecimals", Val::U(p.quote_decimals as u128)),
                    ("marketAuthority", Val::Key(w.mk.authority)),
                    ("timeExpiry", Val::I(p.expiry as i128)),
                    ("collectFeeAdmin", Val::Key(w.mk.collect_admin)),
                    ("openOrdersAdmin", opt(w.mk.oo_admin)),
                    ("consumeEventsAdmin", opt(w.mk.ce_admin)),
                    ("closeMarketAdmin", opt(w.mk.cm_admin)),
                    ("name", bytes(&p.name, 16)),
                    ("bids", Val::Key(w.mk.bids)),
                    ("asks", Val::Key(w.mk.asks)),
                    ("eventHeap", Val::Key(w.mk.heap)),
                    ("oracleA", opt(w.mk.oracle_a)),
                    ("oracleB", opt(w.mk.oracle_b)),
                    ("oracleConfig", v.at("oracleConfig").clone()),
                    ("quoteLotSize", Val::I(p.qls as i128)),
                    ("baseLotSize", Val::I(p.bls as i128)),
                    ("seqNum", Val::U(2)),
                    ("registrationTime", Val::I(t0 as i128)),
                    ("makerFee", Val::I(p.maker_fee as i128)),
                    ("takerFee", Val::I(p.taker_fee as i128)),
                    ("baseMint", Val::Key(w.mk.base_mint)),
                    ("quoteMint", Val::Key(w.mk.quote_mint)),
                    ("marketBaseVault", Val::Key(w.mk.base_vault)),
                    ("marketQuoteVault", Val::Key(w.mk.quote_vault)),
                    ("baseDepositTotal", Val::U(db as u128)),
                    ("quoteDepositTotal", Val::U(dq as u128)),
                ],
            );
        }
    }
    c.eval();
    match idl.account("OpenOrdersAccount", w.bank.data(&a.3), false) {
        Err(e) => bad.push(e),
        Ok(v) => {
            let locked = fee(p1 * q1) + fee(p2 * q2);
            same(
                &mut bad,
                "position",
                v.at("position"),
                &[
                    ("bidsBaseLots", Val::I((q1 + q2) as i128)),
                    ("bidsQuoteLots", Val::I((p1 * q1 + p2 * q2) as i128)),
                    ("baseFreeNative", Val::U(db as u128)),
                    ("quoteFreeNative", Val::I(dq as i128 - ((p1 * q1 + p2 * q2) * p.qls) as i128 - locked)),
                    ("lockedMakerFees", Val::I(locked)),
                ],
            );
            for (n, price, client, seq) in [(0usize, p1, c1, 1u64), (1, p2, c2, 2)] {
                let o = v.at("openOrders").nth(n);
                same(&mut bad, "open order", o, &[("id", id(price, seq)), ("clientId", Val::U(client as u128)), ("lockedPrice", Val::I(price as i128)), ("isFree", Val::U(0)), ("sideAndTree", Val::U(0))]);
            }
            for n in 2..24 {
                if v.at("openOrders").nth(n).at("isFree").int() != 1 {
                    bad.push(format!("entry {n} of the open orders is not free"));
                }
            }
            same(
                &mut bad,
                "open orders",
                &v,
                &[
                    ("owner", Val::Key(a.0)),
                    ("market", Val::Key(w.mk.key)),
                    ("name", bytes(a.4, 32)),
                    ("delegate", Val::Key(a.5.unwrap_or_default())),
                    ("accountNum", Val::U(1)),
                    ("bump", bump(&[b"OpenOrders", a.0.as_ref(), &1u32.to_le_bytes()])),
                    ("version", v.at("version").clone()),
                    ("position", v.at("position").clone()),
                    ("openOrders", v.at("openOrders").clone()),
                ],
            );
        }
    }
    // the side of the book
    let node = |v: &Val, ix: i128| -> Vec<u8> {
        let n = v.at("nodes").at("nodes").nth(ix as usize);
        let mut b = vec![n.at("tag").int() as u8];
        if let Val::L(l) = n.at("data") {
            b.extend(l.iter().map(|x| x.int() as u8));
        }
        b
    };
    let tag = |n: &str| match idl.types.get("NodeTag") {
        Some(Def::Enum(v)) => v.iter().position(|x| x.0 == n).map(|x| x as i128).unwrap_or(-1),
        _ => -1,
    };
    let leaf = |bad: &mut Vec<String>, what: &str, d: &[u8], want: &[(&str, Val)]| match idl.decode_def("LeafNode", d) {
        Err(e) => bad.push(format!("{what}: {e}")),
        Ok(v) => same(bad, what, &v, &[&[("tag", Val::I(tag("LeafNode")))], want].concat()),
    };
    c.eval();
    match idl.account("BookSide", w.bank.data(&w.mk.bids), false) {
        Err(e) => bad.push(e),
        Ok(v) => {
            let root = v.at("roots").nth(0);
            if root.at("leafCount").int() != 2 || v.at("roots").nth(1).at("leafCount").int() != 0 {
                bad.push("the bids are not counted as two fixed and no pegged orders".into());
            }
            if v.at("nodes").at("orderTreeType").int() != 0 || !zero(v.at("reserved")) || !zero(v.at("reservedRoots")) || !zero(v.at("nodes").at("reserved")) {
                bad.push("the side is not told as bids, or reserved parts are used".into());
            }
            match idl.decode_def("InnerNode", &node(&v, root.at("maybeNode").int())) {
                Err(e) => bad.push(e),
                Ok(n) => {
                    // ascending: the lower price is the left child
                    let (lo, hi) = ((p2 as u128) << 64, (p1 as u128) << 64);
                    let plen = ((lo | (!2u64) as u128) ^ (hi | (!1u64) as u128)).leading_zeros();
                    same(
                        &mut bad,
                        "inner node",
                        &n,
                        &[
                            ("tag", Val::I(tag("InnerNode"))),
                            ("prefixLen", Val::U(plen as u128)),
                            ("key", n.at("key").clone()),
                            ("children", n.at("children").clone()),
                            ("childEarliestExpiry", Val::L(vec![Val::U((t1 + e2) as u128), Val::U((t1 + e1) as u128)])),
                        ],
                    );
                    let k = n.at("key").int() as u128;
                    if (k ^ (hi | (!1u64) as u128)) >> (128 - plen) != 0 {
                        bad.push("the inner node does not hold the common prefix".into());
                    }
                    for (child, price, seq, q, client, tif) in [(0usize, p2, 2u64, q2, c2, e2), (1, p1, 1, q1, c1, e1)] {
                        let d = node(&v, n.at("children").nth(child).int());
                        leaf(
                            &mut bad,
                            "bid",
                            &d,
                            &[
                                ("ownerSlot", Val::U((seq - 1) as u128)),
                                ("timeInForce", Val::U(tif as u128)),
                                ("key", id(price, seq)),
                                ("owner", Val::Key(a.3)),
                                ("quantity", Val::I(q as i128)),
                                ("timestamp", Val::U(t1 as u128)),
                                ("pegLimit", Val::I(-1)),
                                ("clientOrderId", Val::U(client as u128)),
                            ],
                        );
                    }
                }
            }
        }
    }
    // a pegged ask far away
    let (off, lim, q3, c3) = (r.range(1_000_000, 2_000_000), r.range(3, 90_000), 1 + r.below(5) as i64, r.u64());
    send_op!(Op::Place {
        oo: a.3,
        signer: a.0,
        wallet: a.1,
        req: Req { side: 1, price: Price::Pegged { offset: off, limit: lim }, max_base: q3, max_quote: i64::MAX / p.qls / 2, client: c3, otype: 0, expiry: 0, stb: 0, limit: 20 },
        rem: vec![],
    });
    c.eval();
    match idl.account("BookSide", w.bank.data(&w.mk.asks), false) {
        Err(e) => bad.push(e),
        Ok(v) => {
            let root = v.at("roots").nth(1);
            if root.at("leafCount").int() != 1 || v.at("nodes").at("orderTreeType").int() != 1 {
                bad.push("the pegged ask is not counted as such".into());
            } else {
                leaf(
                    &mut bad,
                    "pegged ask",
                    &node(&v, root.at("maybeNode").int()),
                    &[
                        ("ownerSlot", Val::U(2)),
                        ("key", Val::U(((off as u64).wrapping_add(1 << 63) as u128) << 64 | 3)),
                        ("owner", Val::Key(a.3)),
                        ("quantity", Val::I(q3 as i128)),
                        ("timestamp", Val::U(t1 as u128)),
                        ("pegLimit", Val::I(lim as i128)),
                        ("clientOrderId", Val::U(c3 as u128)),
                    ],
                );
            }
        }
    }
    if let Ok(v) = idl.account("OpenOrdersAccount", w.bank.data(&a.3), false) {
        let o = v.at("openOrders").nth(2);
        let n = match idl.types.get("SideAndOrderTree") {
            Some(Def::Enum(v)) => v.iter().position(|x| x.0 == "AskOraclePegged").unwrap_or(99),
            _ => 99,
        };
        same(&mut bad, "pegged open order", o, &[("id", o.at("id").clone()), ("clientId", Val::U(c3 as u128)), ("lockedPrice", o.at("lockedPrice").clone()), ("isFree", Val::U(0)), ("sideAndTree", Val::U(n as u128))]);
    }
    // part of the best bid is hit, nothing is processed at once
    w.bank.ts += 7;
    let t2 = w.bank.ts as u64;
    let c4 = r.u64();
    send_op!(place(t.3, t.0, t.1, 1, p1, q1 - 1, c4, 0, 1, vec![]));
    // the best bid runs out and is dropped by the next order
    w.bank.ts = (t1 + e1) as i64;
    let t3 = w.bank.ts as u64;
    send_op!(place(t.3, t.0, t.1, 1, p1, 1, 5, 0, 1, vec![]));
    c.eval();
    match idl.account("EventHeap", w.bank.data(&w.mk.heap), false) {
        Err(e) => bad.push(e),
        Ok(v) => {
            let h = v.at("header");
            if h.at("count").int() != 2 || h.at("seqNum").int() != 2 || !zero(v.at("reserved")) || !zero(h.at("padd")) {
                bad.push(format!("the queue's header decodes as {}", short(h)));
            }
            let ev = |ix: i128| -> (Vec<u8>, i128) {
                let n = v.at("nodes").nth(ix as usize);
                let mut b = vec![n.at("event").at("eventType").int() as u8];
                if let Val::L(l) = n.at("event").at("padding") {
                    b.extend(l.iter().map(|x| x.int() as u8));
                }
                (b, n.at("next").int())
            };
            let (d1, next) = ev(h.at("usedHead").int());
            let (d2, last) = ev(next);
            if last != h.at("usedHead").int() || v.at("nodes").nth(h.at("usedHead").int() as usize).at("prev").int() != next {
                bad.push("the two events are not linked".into());
            }
            let kind = |n: &str| match idl.types.get("EventType") {
                Some(Def::Enum(v)) => Val::I(v.iter().position(|x| x.0 == n).map(|x| x as i128).unwrap_or(-1)),
                _ => Val::I(-1),
            };
            match idl.decode_def("FillEvent", &d1) {
                Err(e) => bad.push(e),
                Ok(v) => same(
                    &mut bad,
                    "fill event",
                    &v,
                    &[
                        ("eventType", kind("Fill")),
                        ("takerSide", Val::U(1)),
                        ("timestamp", Val::U(t2 as u128)),
                        ("maker", Val::Key(a.3)),
                        ("makerTimestamp", Val::U(t1 as u128)),
                        ("taker", Val::Key(t.3)),
                        ("takerClientOrderId", Val::U(c4 as u128)),
                        ("price", Val::I(p1 as i128)),
                        ("pegLimit", Val::I(-1)),
                        ("quantity", Val::I((q1 - 1) as i128)),
                        ("makerClientOrderId", Val::U(c1 as u128)),
                        // number of the order that traded: two bids and the pegged ask came before
                        ("seqNum", Val::U(4)),
                    ],
                ),
            }
            match idl.decode_def("OutEvent", &d2) {
                Err(e) => bad.push(e),
                Ok(v) => same(
                    &mut bad,
                    "out event",
                    &v,
                    &[("eventType", kind("Out")), ("side", Val::U(0)), ("ownerSlot", Val::U(0)), ("timestamp", Val::U(t3 as u128)), ("seqNum", Val::U(1)), ("owner", Val::Key(a.3)), ("quantity", Val::I(1))],
                ),
            }
        }
    }
    send_op!(Op::Consume { limit: 8, given: None, rem: vec![a.3] });
    let quote = (p1 * (q1 - 1) * p.qls) as i128;
    for (k, name) in [(a.3, "makerVolume"), (t.3, "takerVolume")] {
        c.eval();
        if let Ok(v) = idl.account("OpenOrdersAccount", w.bank.data(&k), false) {
            let pos = v.at("position");
            if pos.at(name).int() != quote {
                bad.push(format!("{name} decodes as {}, must be {quote}", short(pos.at(name))));
            }
            if name == "takerVolume" {
                let fee = (quote * p.taker_fee as i128 + 999_999) / 1_000_000;
                let rebate = if p.maker_fee < 0 { quote * (-p.maker_fee) as i128 / 1_000_000 } else { 0 };
                if pos.at("referrerRebatesAvailable").int() != fee - rebate || pos.at("quoteFreeNative").int() != quote - fee {
                    bad.push(format!("taker's position decodes as {}", short(pos)));
                }
            } else if pos.at("asksBaseLots").int() != q3 as i128 {
                bad.push(format!("maker's asks decode as {}", short(pos.at("asksBaseLots"))));
            }
        }
    }
    if let Ok(v) = idl.account("Market", w.bank.data(&w.mk.key), false) {
        if v.at("makerVolume").int() != quote {
            bad.push(format!("the market's maker volume decodes as {}", short(v.at("makerVolume"))));
        }
    }
    // the remaining instructions
    send_op!(Op::Settle { oo: t.3, signer: t.0, payer: t.0, base: t.1, quote: t.2, referrer: None, expired: false });
    send_op!(Op::SetDelegate { oo: a.3, owner: a.0, delegate: None });
    send_op!(Op::Sweep { receiver: w.fee_receiver });
    let (o, s) = (w.key(), r.range(1, 1000) as f64);
    w.bank.fund(o, 1 << 40);
    let mint = w.mk.base_mint;
    let sk = Pubkey::find_program_address(&[b"StubOracle", o.as_ref(), mint.as_ref()], &openbook_v2::ID).0;
    let metas = |v: &[(Pubkey, bool, bool)]| v.iter().map(|x| Meta { key: x.0, signer: x.1, writable: x.2 }).collect::<Vec<_>>();
    let raw = |name: &str, m: Vec<Meta>, args: &[(String, Val)]| idl.instruction(name, &m, args).map(|ix| Built { ix, roles: vec![] });
    let sys = solana_program::system_program::ID;
    let steps: Vec<(&str, Vec<Meta>, Vec<(String, Val)>)> = vec![
        ("stubOracleCreate", metas(&[(w.payer, true, true), (o, true, false), (sk, false, true), (mint, false, false), (sys, false, false)]), vec![f("price", Val::F(s))]),
        ("stubOracleSet", metas(&[(o, true, false), (sk, false, true)]), vec![f("price", Val::F(s + 1.0))]),
    ];
    for (n, m, args) in steps {
        match raw(n, m, &args) {
            Ok(b) => send!(b, n, args),
            Err(e) => bad.push(e),
        }
    }
    c.eval();
    match idl.account("StubOracle", w.bank.data(&sk), false) {
        Err(e) => bad.push(e),
        Ok(v) => same(
            &mut bad,
            "stub oracle",
            &v,
            &[("owner", Val::Key(o)), ("mint", Val::Key(mint)), ("price", Val::F(s + 1.0)), ("lastUpdateTs", Val::I(w.bank.ts as i128)), ("lastUpdateSlot", Val::U(w.bank.slot as u128))],
        ),
    }
    match raw("stubOracleClose", metas(&[(o, true, false), (sk, false, true), (o, false, true), (spl_token::ID, false, false)]), &[]) {
        Ok(b) => send!(b, "stubOracleClose", vec![]),
        Err(e) => bad.push(e),
    }
    if w.mk.cm_admin.is_some() {
        send_op!(Op::SetExpired);
        w.bank.ts += 1;
        send_op!(Op::Prune { oo: a.3, limit: 10 });
        send_op!(Op::Settle { oo: a.3, signer: a.0, payer: a.0, base: a.1, quote: a.2, referrer: None, expired: true });
        if w.fee_receiver != Pubkey::default() {
            send_op!(Op::Sweep { receiver: w.fee_receiver });
        }
        send!(w.mk.close_ix(w.payer), "closeMarket", vec![]);
    }
    // close what is left of the traders
    let k = w.key();
    w.bank.fund(k, 1 << 40);
    send!(create_indexer_ix(w.payer, k), "createOpenOrdersIndexer", vec![]);
    send!(close_indexer_ix(k, k), "closeOpenOrdersIndexer", vec![]);
    c.nontrivial(mix(hash_str(&format!("{p:?}{p1}{p2}{q1}{q2}{off}{lim}"))));
    for b in bad {
        c.violate("interface", b);
    }
}

/// The account lists that the program's own builders produce.
fn lists(k: &dyn Fn(&str) -> Pubkey, o: &dyn Fn(&str) -> Option<Pubkey>) -> Vec<(&'static str, Vec<anchor_lang::prelude::AccountMeta>)> {
    use anchor_lang::ToAccountMetas;
    vec![
        ("createMarket", openbook_v2::accounts::CreateMarket { market: k("market"), market_authority: k("marketAuthority"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), payer: k("payer"), market_base_vault: k("marketBaseVault"), market_quote_vault: k("marketQuoteVault"), base_mint: k("baseMint"), quote_mint: k("quoteMint"), system_program: k("systemProgram"), token_program: k("tokenProgram"), associated_token_program: k("associatedTokenProgram"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), collect_fee_admin: k("collectFeeAdmin"), open_orders_admin: o("openOrdersAdmin"), consume_events_admin: o("consumeEventsAdmin"), close_market_admin: o("closeMarketAdmin"), event_authority: k("eventAuthority"), program: k("program") }.to_account_metas(None)),
        ("closeMarket", openbook_v2::accounts::CloseMarket { close_market_admin: k("closeMarketAdmin"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), sol_destination: k("solDestination"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("createOpenOrdersIndexer", openbook_v2::accounts::CreateOpenOrdersIndexer { payer: k("payer"), owner: k("owner"), open_orders_indexer: k("openOrdersIndexer"), system_program: k("systemProgram") }.to_account_metas(None)),
        ("closeOpenOrdersIndexer", openbook_v2::accounts::CloseOpenOrdersIndexer { owner: k("owner"), open_orders_indexer: k("openOrdersIndexer"), sol_destination: k("solDestination"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("createOpenOrdersAccount", openbook_v2::accounts::CreateOpenOrdersAccount { payer: k("payer"), owner: k("owner"), delegate_account: o("delegateAccount"), open_orders_indexer: k("openOrdersIndexer"), open_orders_account: k("openOrdersAccount"), market: k("market"), system_program: k("systemProgram") }.to_account_metas(None)),
        ("closeOpenOrdersAccount", openbook_v2::accounts::CloseOpenOrdersAccount { owner: k("owner"), open_orders_indexer: k("openOrdersIndexer"), open_orders_account: k("openOrdersAccount"), sol_destination: k("solDestination"), system_program: k("systemProgram") }.to_account_metas(None)),
        ("placeOrder", openbook_v2::accounts::PlaceOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), open_orders_admin: o("openOrdersAdmin"), user_token_account: k("userTokenAccount"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), market_vault: k("marketVault"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("editOrder", openbook_v2::accounts::PlaceOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), open_orders_admin: o("openOrdersAdmin"), user_token_account: k("userTokenAccount"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), market_vault: k("marketVault"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("editOrderPegged", openbook_v2::accounts::PlaceOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), open_orders_admin: o("openOrdersAdmin"), user_token_account: k("userTokenAccount"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), market_vault: k("marketVault"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("placeOrders", openbook_v2::accounts::CancelAllAndPlaceOrders { signer: k("signer"), open_orders_account: k("openOrdersAccount"), open_orders_admin: o("openOrdersAdmin"), user_quote_account: k("userQuoteAccount"), user_base_account: k("userBaseAccount"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), market_quote_vault: k("marketQuoteVault"), market_base_vault: k("marketBaseVault"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("cancelAllAndPlaceOrders", openbook_v2::accounts::CancelAllAndPlaceOrders { signer: k("signer"), open_orders_account: k("openOrdersAccount"), open_orders_admin: o("openOrdersAdmin"), user_quote_account: k("userQuoteAccount"), user_base_account: k("userBaseAccount"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), market_quote_vault: k("marketQuoteVault"), market_base_vault: k("marketBaseVault"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("placeOrderPegged", openbook_v2::accounts::PlaceOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), open_orders_admin: o("openOrdersAdmin"), user_token_account: k("userTokenAccount"), market: k("market"), bids: k("bids"), asks: k("asks"), event_heap: k("eventHeap"), market_vault: k("marketVault"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("placeTakeOrder", openbook_v2::accounts::PlaceTakeOrder { signer: k("signer"), penalty_payer: k("penaltyPayer"), market: k("market"), market_authority: k("marketAuthority"), bids: k("bids"), asks: k("asks"), market_base_vault: k("marketBaseVault"), market_quote_vault: k("marketQuoteVault"), event_heap: k("eventHeap"), user_base_account: k("userBaseAccount"), user_quote_account: k("userQuoteAccount"), oracle_a: o("oracleA"), oracle_b: o("oracleB"), token_program: k("tokenProgram"), system_program: k("systemProgram"), open_orders_admin: o("openOrdersAdmin") }.to_account_metas(None)),
        ("consumeEvents", openbook_v2::accounts::ConsumeEvents { consume_events_admin: o("consumeEventsAdmin"), market: k("market"), event_heap: k("eventHeap") }.to_account_metas(None)),
        ("consumeGivenEvents", openbook_v2::accounts::ConsumeEvents { consume_events_admin: o("consumeEventsAdmin"), market: k("market"), event_heap: k("eventHeap") }.to_account_metas(None)),
        ("cancelOrder", openbook_v2::accounts::CancelOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), market: k("market"), bids: k("bids"), asks: k("asks") }.to_account_metas(None)),
        ("cancelOrderByClientOrderId", openbook_v2::accounts::CancelOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), market: k("market"), bids: k("bids"), asks: k("asks") }.to_account_metas(None)),
        ("cancelAllOrders", openbook_v2::accounts::CancelOrder { signer: k("signer"), open_orders_account: k("openOrdersAccount"), market: k("market"), bids: k("bids"), asks: k("asks") }.to_account_metas(None)),
        ("deposit", openbook_v2::accounts::Deposit { owner: k("owner"), user_base_account: k("userBaseAccount"), user_quote_account: k("userQuoteAccount"), open_orders_account: k("openOrdersAccount"), market: k("market"), market_base_vault: k("marketBaseVault"), market_quote_vault: k("marketQuoteVault"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("refill", openbook_v2::accounts::Deposit { owner: k("owner"), user_base_account: k("userBaseAccount"), user_quote_account: k("userQuoteAccount"), open_orders_account: k("openOrdersAccount"), market: k("market"), market_base_vault: k("marketBaseVault"), market_quote_vault: k("marketQuoteVault"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("settleFunds", openbook_v2::accounts::SettleFunds { owner: k("owner"), penalty_payer: k("penaltyPayer"), open_orders_account: k("openOrdersAccount"), market: k("market"), market_authority: k("marketAuthority"), market_base_vault: k("marketBaseVault"), market_quote_vault: k("marketQuoteVault"), user_base_account: k("userBaseAccount"), user_quote_account: k("userQuoteAccount"), referrer_account: o("referrerAccount"), token_program: k("tokenProgram"), system_program: k("systemProgram") }.to_account_metas(None)),
        ("settleFundsExpired", openbook_v2::accounts::SettleFundsExpired { close_market_admin: k("closeMarketAdmin"), owner: k("owner"), penalty_payer: k("penaltyPayer"), open_orders_account: k("openOrdersAccount"), market: k("market"), market_authority: k("marketAuthority"), market_base_vault: k("marketBaseVault"), market_quote_vault: k("marketQuoteVault"), user_base_account: k("userBaseAccount"), user_quote_account: k("userQuoteAccount"), referrer_account: o("referrerAccount"), token_program: k("tokenProgram"), system_program: k("systemProgram") }.to_account_metas(None)),
        ("sweepFees", openbook_v2::accounts::SweepFees { collect_fee_admin: k("collectFeeAdmin"), market: k("market"), market_authority: k("marketAuthority"), market_quote_vault: k("marketQuoteVault"), token_receiver_account: k("tokenReceiverAccount"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("setDelegate", openbook_v2::accounts::SetDelegate { owner: k("owner"), open_orders_account: k("openOrdersAccount"), delegate_account: o("delegateAccount") }.to_account_metas(None)),
        ("setMarketExpired", openbook_v2::accounts::SetMarketExpired { close_market_admin: k("closeMarketAdmin"), market: k("market") }.to_account_metas(None)),
        ("pruneOrders", openbook_v2::accounts::PruneOrders { close_market_admin: k("closeMarketAdmin"), open_orders_account: k("openOrdersAccount"), market: k("market"), bids: k("bids"), asks: k("asks") }.to_account_metas(None)),
        ("stubOracleCreate", openbook_v2::accounts::StubOracleCreate { payer: k("payer"), owner: k("owner"), oracle: k("oracle"), mint: k("mint"), system_program: k("systemProgram") }.to_account_metas(None)),
        ("stubOracleClose", openbook_v2::accounts::StubOracleClose { owner: k("owner"), oracle: k("oracle"), sol_destination: k("solDestination"), token_program: k("tokenProgram") }.to_account_metas(None)),
        ("stubOracleSet", openbook_v2::accounts::StubOracleSet { owner: k("owner"), oracle: k("oracle") }.to_account_metas(None)),
    ]
}

/// Whether the program's own builder asks for write access to an account.
fn own_flags(name: &str) -> Option<&'static Vec<bool>> {
    static F: OnceLock<BTreeMap<&'static str, Vec<bool>>> = OnceLock::new();
    F.get_or_init(|| lists(&|_| Pubkey::default(), &|_| Some(Pubkey::default())).into_iter().map(|(n, m)| (n, m.iter().map(|x| x.is_writable).collect())).collect()).get(name)
}

/// The account lists of the program's own builders against the published ones: order and signers,
/// with the optional accounts present and absent. Write access may be asked for where it is not
/// needed; that enough is asked for shows when the instructions are executed.
pub fn builders(c: &mut Case) {
    let idl = match idl() {
        Some(i) => i,
        None => return,
    };
    let seed = c.seed;
    let key = |n: &str| Pubkey::from(solana_program::hash::hashv(&[&seed.to_le_bytes(), n.as_bytes()]).to_bytes());
    let mut bad: Vec<String> = vec![];
    let mut seen = 0u64;
    for all in [true, false] {
        for (name, metas) in lists(&key, &|n| all.then(|| key(n))) {
            c.eval();
            seen += 1;
            let d = match idl.ixs.get(name) {
                Some(d) => d,
                None => {
                    bad.push(format!("instruction {name} is not published"));
                    continue;
                }
            };
            if metas.len() != d.accounts.len() {
                bad.push(format!("{name} takes {} accounts, {} are published", metas.len(), d.accounts.len()));
            }
            for (i, (m, (n, _, s, o))) in metas.iter().zip(&d.accounts).enumerate() {
                let (k, s) = if *o && !all { (openbook_v2::ID, false) } else { (key(n), *s) };
                if m.pubkey != k || m.is_signer != s {
                    bad.push(format!(
                        "account {i} of {name} is published as {n} (signer {s}), the program's builder gives {} (signer {})",
                        if m.pubkey == k { "the same" } else { "another" },
                        m.is_signer
                    ));
                }
            }
        }
    }
    c.count_n("account lists compared", seen);
    c.nontrivial(mix(hash_str(&format!("lists {seen} {}", key("")))));
    for b in bad {
        c.violate("interface", b);
    }
}
