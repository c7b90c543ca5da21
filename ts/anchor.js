'use strict';
// The part of @coral-xyz/anchor 0.29 the client uses: encoding by the interface description,
// account lists, decoding of accounts, types and events.

const crypto = require('crypto');
const BN = require('./bn');
const web3 = require('./web3');
const spl = require('./spl');
const { guard, Missing } = require('./missing');
const { PublicKey, TransactionInstruction } = web3;

const sha8 = (s) => crypto.createHash('sha256').update(s).digest().subarray(0, 8);
const snake = (s) => s.replace(/([A-Z])/g, (c) => '_' + c.toLowerCase()).replace(/^_/, '');
const camel = (s) => s.replace(/_+([a-zA-Z0-9])/g, (_, c) => c.toUpperCase()).replace(/^[A-Z]/, (c) => c.toLowerCase());
const pascal = (s) => s[0].toUpperCase() + camel(s).slice(1);

const INTS = { u8: [1], i8: [1, true], u16: [2], i16: [2, true], u32: [4], i32: [4, true] };
const BIGS = { u64: [8], i64: [8, true], u128: [16], i128: [16, true] };

class Types {
  constructor(idl) {
    this.defs = new Map();
    for (const t of [...(idl.types || []), ...(idl.accounts || [])]) this.defs.set(t.name, t.type);
  }
  type(name) {
    const d = this.defs.get(name);
    if (!d) throw new Error(`Unknown type: ${name}`);
    return d;
  }
  decode(t, c) {
    if (typeof t === 'string') {
      if (INTS[t]) {
        const [n, s] = INTS[t];
        const v = s ? c.buf.readIntLE(c.at, n) : c.buf.readUIntLE(c.at, n);
        c.at += n;
        return v;
      }
      if (BIGS[t]) {
        const [n, s] = BIGS[t];
        if (c.at + n > c.buf.length) throw new RangeError('out of range');
        let v = 0n;
        for (let i = n - 8; i >= 0; i -= 8) v = (v << 64n) | c.buf.readBigUInt64LE(c.at + i);
        c.at += n;
        return new BN(s ? BigInt.asIntN(8 * n, v) : v);
      }
      switch (t) {
        case 'bool':
          return c.buf.readUInt8(c.at++) === 1;
        case 'f32':
          c.at += 4;
          return c.buf.readFloatLE(c.at - 4);
        case 'f64':
          c.at += 8;
          return c.buf.readDoubleLE(c.at - 8);
        case 'publicKey':
          c.at += 32;
          if (c.at > c.buf.length) throw new RangeError('out of range');
          return new PublicKey(Buffer.from(c.buf.subarray(c.at - 32, c.at)));
        case 'string': {
          const n = c.buf.readUInt32LE(c.at);
          c.at += 4 + n;
          return c.buf.subarray(c.at - n, c.at).toString('utf8');
        }
        case 'bytes': {
          const n = c.buf.readUInt32LE(c.at);
          c.at += 4 + n;
          return Buffer.from(c.buf.subarray(c.at - n, c.at));
        }
      }
      throw new Missing(`type ${t} is not available here`);
    }
    if (t.array) {
      const [el, n] = t.array;
      const out = new Array(n);
      if (el === 'u8') {
        if (c.at + n > c.buf.length) throw new RangeError('out of range');
        for (let i = 0; i < n; i++) out[i] = c.buf[c.at + i];
        c.at += n;
      } else for (let i = 0; i < n; i++) out[i] = this.decode(el, c);
      return out;
    }
    if (t.vec) {
      const n = c.buf.readUInt32LE(c.at);
      c.at += 4;
      const out = [];
      for (let i = 0; i < n; i++) out.push(this.decode(t.vec, c));
      return out;
    }
    if (t.option) return c.buf.readUInt8(c.at++) === 0 ? null : this.decode(t.option, c);
    if (t.defined) return this.decode(this.type(t.defined), c);
    if (t.kind === 'struct') {
      const out = {};
      for (const f of t.fields) out[f.name] = this.decode(f.type, c);
      return out;
    }
    if (t.kind === 'enum') {
      const v = t.variants[c.buf.readUInt8(c.at++)];
      if (!v) throw new Error('unknown variant');
      const inner = {};
      for (const f of v.fields || []) inner[f.name] = this.decode(f.type, c);
      return { [camel(v.name)]: inner };
    }
    throw new Missing(`type ${JSON.stringify(t)} is not available here`);
  }
  encode(t, v) {
    if (typeof t === 'string') {
      if (INTS[t]) {
        const [n, s] = INTS[t];
        const b = Buffer.alloc(n);
        if (typeof v !== 'number') throw new TypeError(`a number is needed, got ${typeof v}`);
        if (s) b.writeIntLE(v, 0, n);
        else b.writeUIntLE(v, 0, n);
        return b;
      }
      if (BIGS[t]) {
        const [n, s] = BIGS[t];
        if (!BN.isBN(v)) throw new TypeError('src.toTwos is not a function');
        return (s ? v.toTwos(8 * n) : v).toArrayLike(Buffer, 'le', n);
      }
      const b8 = Buffer.alloc(8);
      switch (t) {
        case 'bool':
          return Buffer.from([v ? 1 : 0]);
        case 'f32':
          b8.writeFloatLE(v, 0);
          return b8.subarray(0, 4);
        case 'f64':
          b8.writeDoubleLE(v, 0);
          return b8;
        case 'publicKey':
          return v.toBuffer();
        case 'string':
        case 'bytes': {
          const d = Buffer.from(v);
          const n = Buffer.alloc(4);
          n.writeUInt32LE(d.length, 0);
          return Buffer.concat([n, d]);
        }
      }
      throw new Missing(`type ${t} is not available here`);
    }
    if (t.array) {
      if (v.length !== t.array[1]) throw new RangeError('wrong length');
      return Buffer.concat(v.map((x) => this.encode(t.array[0], x)));
    }
    if (t.vec) {
      const n = Buffer.alloc(4);
      n.writeUInt32LE(v.length, 0);
      return Buffer.concat([n, ...v.map((x) => this.encode(t.vec, x))]);
    }
    if (t.option) return v === null || v === undefined ? Buffer.from([0]) : Buffer.concat([Buffer.from([1]), this.encode(t.option, v)]);
    if (t.defined) return this.encode(this.type(t.defined), v);
    if (t.kind === 'struct') {
      return Buffer.concat(
        t.fields.map((f) => {
          if (v[f.name] === undefined && !(f.type && f.type.option)) throw new TypeError(`field ${f.name} is missing`);
          return this.encode(f.type, v[f.name]);
        }),
      );
    }
    if (t.kind === 'enum') {
      const name = Object.keys(v).find((k) => v[k] !== undefined);
      const i = t.variants.findIndex((x) => camel(x.name) === name);
      if (i < 0) throw new Error('unable to infer src variant');
      const fields = t.variants[i].fields || [];
      return Buffer.concat([Buffer.from([i]), ...fields.map((f) => this.encode(f.type, v[name][f.name]))]);
    }
    throw new Missing(`type ${JSON.stringify(t)} is not available here`);
  }
}

class Coder {
  constructor(idl) {
    const types = new Types(idl);
    const read = (t, data, at = 0) => types.decode(t, { buf: Buffer.isBuffer(data) ? data : Buffer.from(data), at });
    const accounts = new Map((idl.accounts || []).map((a) => [a.name, a]));
    const account = (name) => {
      const a = accounts.get(name);
      if (!a) throw new Error(`Unknown account: ${name}`);
      return a;
    };
    const layout = (name) => ({ decode: (b) => read({ defined: name }, b), encode: (v) => types.encode({ defined: name }, v) });
    this.types = guard(
      {
        typeLayouts: new Map((idl.types || []).map((t) => [t.name, layout(t.name)])),
        decode: (name, data) => read({ defined: name }, data),
        encode: (name, v) => types.encode({ defined: name }, v),
      },
      'coder.types',
    );
    this.accounts = guard(
      {
        decode: (name, data) => {
          const a = account(name);
          if (!sha8('account:' + pascal(name)).equals(data.subarray(0, 8))) throw new Error('Invalid account discriminator');
          return read(a.type, data, 8);
        },
        decodeUnchecked: (name, data) => read(account(name).type, data, 8),
      },
      'coder.accounts',
    );
    this.events = guard(
      {
        decode: (text) => {
          const d = Buffer.from(text, 'base64');
          const e = (idl.events || []).find((x) => sha8('event:' + x.name).equals(d.subarray(0, 8)));
          if (!e) return null;
          return { name: e.name, data: read({ kind: 'struct', fields: e.fields }, d, 8) };
        },
      },
      'coder.events',
    );
    this.instruction = guard(
      {
        encode: (name, args) => {
          const ix = idl.instructions.find((i) => i.name === name);
          return Buffer.concat([sha8('global:' + snake(name)), ...ix.args.map((a) => types.encode(a.type, args[a.name]))]);
        },
      },
      'coder.instruction',
    );
  }
}
guard(Coder.prototype, 'coder');

const WELL_KNOWN = {
  associatedTokenProgram: spl.ASSOCIATED_TOKEN_PROGRAM_ID,
  rent: web3.SYSVAR_RENT_PUBKEY,
  systemProgram: web3.SystemProgram.programId,
  tokenProgram: spl.TOKEN_PROGRAM_ID,
};

class Methods {
  constructor(program, ix, args) {
    this.p = program;
    this.ix = ix;
    this.args = args;
    this.given = {};
    this.rest = [];
  }
  accounts(a) {
    const put = (k, v) => {
      if (v === undefined) return;
      const desc = this.ix.accounts.find((x) => x.name === k);
      if (v !== null) this.given[k] = new PublicKey(v);
      else if (desc && desc.isOptional) this.given[k] = this.p.programId;
    };
    for (const [k, v] of Object.entries(a)) put(k, v);
    return this;
  }
  accountsStrict(a) {
    return this.accounts(a);
  }
  accountsPartial(a) {
    return this.accounts(a);
  }
  remainingAccounts(list) {
    this.rest.push(...list);
    return this;
  }
  async instruction() {
    if (this.args.length !== this.ix.args.length) throw new Error(`provided incorrect number of args to instruction ${this.ix.name}`);
    const args = {};
    this.ix.args.forEach((a, i) => (args[a.name] = this.args[i]));
    for (const a of this.ix.accounts) {
      if (this.given[a.name]) continue;
      if (a.isSigner) this.given[a.name] = this.p.provider.wallet.publicKey;
      if (WELL_KNOWN[a.name]) this.given[a.name] = WELL_KNOWN[a.name];
      if (a.name === 'eventAuthority') this.given[a.name] = PublicKey.findProgramAddressSync([Buffer.from('__event_authority')], this.p.programId)[0];
      if (a.name === 'program') this.given[a.name] = this.p.programId;
    }
    const keys = this.ix.accounts.map((a) => {
      const k = this.given[a.name];
      if (!k) throw new Error(`Invalid arguments: ${a.name} not provided.`);
      const absent = a.isOptional && k.equals(this.p.programId);
      return { pubkey: k, isWritable: a.isMut && !absent, isSigner: a.isSigner && !absent };
    });
    return new TransactionInstruction({
      keys: [...keys, ...this.rest],
      programId: this.p.programId,
      data: this.p.coder.instruction.encode(this.ix.name, args),
    });
  }
}
guard(Methods.prototype, 'methods');

class AccountClient {
  constructor(program, name) {
    this.program = program;
    this.name = name;
  }
  async fetchNullable(address) {
    const info = await this.program.provider.connection.getAccountInfo(new PublicKey(address));
    if (info === null) return null;
    return this.program.coder.accounts.decode(this.name, info.data);
  }
  async fetch(address) {
    const a = await this.fetchNullable(address);
    if (a === null) throw new Error(`Account does not exist or has no data ${new PublicKey(address).toBase58()}`);
    return a;
  }
  async fetchMultiple(addresses) {
    return await Promise.all(addresses.map((a) => this.fetchNullable(a)));
  }
}
guard(AccountClient.prototype, 'account');

class Program {
  constructor(idl, programId, provider) {
    this.idl = idl;
    this.programId = new PublicKey(programId);
    this.provider = provider || module.exports.getProvider();
    this.coder = new Coder(idl);
    this._coder = this.coder;
    this.methods = {};
    for (const ix of idl.instructions) this.methods[ix.name] = (...args) => new Methods(this, ix, args);
    this.account = {};
    for (const a of idl.accounts) this.account[camel(a.name)] = new AccountClient(this, a.name);
  }
}
guard(Program.prototype, 'program');

class AnchorProvider {
  constructor(connection, wallet, opts) {
    this.connection = connection;
    this.wallet = wallet;
    this.publicKey = wallet.publicKey;
    this.opts = opts || {};
  }
}
guard(AnchorProvider.prototype, 'provider');

const utf8 = { encode: (s) => new TextEncoder().encode(s), decode: (b) => new TextDecoder('utf-8').decode(b) };
const bytes = guard(
  {
    utf8,
    bs58: { encode: (b) => web3.__bs58.encode(b), decode: (s) => web3.__bs58.decode(s) },
    base64: { encode: (b) => Buffer.from(b).toString('base64'), decode: (s) => Buffer.from(s, 'base64') },
  },
  'utils.bytes',
);

class NodeWallet {
  constructor(payer) {
    this.payer = payer;
  }
  get publicKey() {
    return this.payer.publicKey;
  }
  async signTransaction(tx) {
    tx.sign([this.payer]);
    return tx;
  }
}

module.exports = guard(
  {
    BN,
    Program,
    AnchorProvider,
    web3,
    utils: guard({ bytes }, 'utils'),
    getProvider() {
      throw new Missing('no provider was set');
    },
  },
  'anchor',
);
module.exports.__bytes = bytes;
module.exports.__NodeWallet = NodeWallet;
