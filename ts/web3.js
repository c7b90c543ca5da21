'use strict';
// The part of @solana/web3.js the client uses.

const crypto = require('crypto');
const BN = require('./bn');
const { guard } = require('./missing');

const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const bs58 = {
  encode(bytes) {
    let v = 0n;
    for (const b of bytes) v = v * 256n + BigInt(b);
    let s = '';
    while (v > 0n) {
      s = ALPHABET[Number(v % 58n)] + s;
      v /= 58n;
    }
    for (const b of bytes) {
      if (b !== 0) break;
      s = '1' + s;
    }
    return s;
  },
  decode(s) {
    let v = 0n;
    for (const c of s) {
      const d = ALPHABET.indexOf(c);
      if (d < 0) throw new Error('Non-base58 character');
      v = v * 58n + BigInt(d);
    }
    const out = [];
    while (v > 0n) {
      out.unshift(Number(v & 255n));
      v >>= 8n;
    }
    for (const c of s) {
      if (c !== '1') break;
      out.unshift(0);
    }
    return Buffer.from(out);
  },
};

const P = (1n << 255n) - 19n;
function power(b, e) {
  let r = 1n;
  b %= P;
  while (e > 0n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
    e >>= 1n;
  }
  return r;
}
const D = ((P - 121665n) * power(121666n, P - 2n)) % P;
function onCurve(bytes) {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 0x7f : bytes[i]);
  const y2 = (y * y) % P;
  const u = (y2 - 1n + P) % P;
  const v = (D * y2 + 1n) % P;
  // x^2 = u / v has a solution
  const x2 = (u * power(v, P - 2n)) % P;
  if (x2 === 0n) return (bytes[31] & 0x80) === 0;
  return power(x2, (P - 1n) / 2n) === 1n;
}

const found = new Map();

class PublicKey {
  constructor(value) {
    if (value instanceof PublicKey) this.raw = value.raw;
    else if (typeof value === 'string') {
      const d = bs58.decode(value);
      if (d.length !== 32) throw new Error('Invalid public key input');
      this.raw = d;
    } else if (BN.isBN(value)) this.raw = value.toArrayLike(Buffer, 'be', 32);
    else if (typeof value === 'number') this.raw = new BN(value).toArrayLike(Buffer, 'be', 32);
    else {
      if (value == null || value.length > 32) throw new Error('Invalid public key input');
      this.raw = Buffer.alloc(32);
      Buffer.from(value).copy(this.raw, 32 - value.length);
    }
  }
  equals(o) {
    return this.raw.equals(o.raw);
  }
  toBase58() {
    return bs58.encode(this.raw);
  }
  toString() {
    return this.toBase58();
  }
  toJSON() {
    return this.toBase58();
  }
  toBytes() {
    return new Uint8Array(this.raw);
  }
  toBuffer() {
    return Buffer.from(this.raw);
  }
  encode() {
    return this.toBuffer();
  }
  static isOnCurve(k) {
    return onCurve(new PublicKey(k).raw);
  }
  static createProgramAddressSync(seeds, programId) {
    const h = crypto.createHash('sha256');
    for (const s of seeds) {
      if (s.length > 32) throw new TypeError('Max seed length exceeded');
      h.update(s);
    }
    h.update(programId.raw);
    h.update('ProgramDerivedAddress');
    const d = h.digest();
    if (onCurve(d)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(d);
  }
  static async createProgramAddress(seeds, programId) {
    return PublicKey.createProgramAddressSync(seeds, programId);
  }
  static findProgramAddressSync(seeds, programId) {
    const id = seeds.map((s) => Buffer.from(s).toString('hex')).join('/') + '@' + programId.raw.toString('hex');
    let r = found.get(id);
    for (let nonce = 255; r === undefined && nonce > 0; nonce--) {
      try {
        r = [PublicKey.createProgramAddressSync([...seeds, Buffer.from([nonce])], programId).raw, nonce];
      } catch (e) {
        if (e instanceof TypeError) throw e;
      }
    }
    if (r === undefined) throw new Error('Unable to find a viable program address nonce');
    if (found.size > 20000) found.clear();
    found.set(id, r);
    return [new PublicKey(r[0]), r[1]];
  }
  static async findProgramAddress(seeds, programId) {
    return PublicKey.findProgramAddressSync(seeds, programId);
  }
  [Symbol.for('nodejs.util.inspect.custom')]() {
    return `PublicKey(${this.toBase58()})`;
  }
}
PublicKey.default = new PublicKey(Buffer.alloc(32));
guard(PublicKey.prototype, 'PublicKey');

let entropy = 0n;
class Keypair {
  constructor(pair) {
    if (pair) {
      this.publicKey = pair.publicKey;
      this.secretKey = pair.secretKey;
      return;
    }
    const d = crypto.createHash('sha256').update('key' + entropy++).digest();
    this.publicKey = new PublicKey(d);
    this.secretKey = new Uint8Array(64);
  }
  static generate() {
    return new Keypair();
  }
}
guard(Keypair.prototype, 'Keypair');

class TransactionInstruction {
  constructor({ keys, programId, data }) {
    this.keys = keys;
    this.programId = programId;
    this.data = data || Buffer.alloc(0);
  }
}
guard(TransactionInstruction.prototype, 'TransactionInstruction');

const SystemProgram = guard(
  {
    programId: new PublicKey(Buffer.alloc(32)),
    createAccount({ fromPubkey, newAccountPubkey, lamports, space, programId }) {
      const data = Buffer.alloc(52);
      data.writeUInt32LE(0, 0);
      data.writeBigUInt64LE(BigInt(lamports), 4);
      data.writeBigUInt64LE(BigInt(space), 12);
      programId.raw.copy(data, 20);
      return new TransactionInstruction({
        keys: [
          { pubkey: fromPubkey, isSigner: true, isWritable: true },
          { pubkey: newAccountPubkey, isSigner: true, isWritable: true },
        ],
        programId: SystemProgram.programId,
        data,
      });
    },
  },
  'SystemProgram',
);

const required = (payer, instructions) => {
  const s = new Set([payer.toBase58()]);
  for (const ix of instructions) for (const k of ix.keys) if (k.isSigner) s.add(k.pubkey.toBase58());
  return s;
};

// A transaction before it is sent: which instructions it holds and who signed it.
class Transaction {
  constructor() {
    this.instructions = [];
    this.signedBy = new Set();
    this.feePayer = undefined;
    this.recentBlockhash = undefined;
  }
  add(...items) {
    for (const i of items) {
      if (i instanceof Transaction) this.instructions.push(...i.instructions);
      else this.instructions.push(i);
    }
    return this;
  }
  partialSign(...signers) {
    const need = required(this.feePayer, this.instructions);
    for (const s of signers) {
      if (!need.has(s.publicKey.toBase58())) throw new Error(`unknown signer: ${s.publicKey.toString()}`);
      this.signedBy.add(s.publicKey.toBase58());
    }
  }
}
guard(Transaction.prototype, 'Transaction');

class MessageV0 {
  constructor(payerKey, instructions, recentBlockhash, tables) {
    this.payerKey = payerKey;
    this.instructions = instructions;
    this.recentBlockhash = recentBlockhash;
    this.tables = tables || [];
  }
  static compile({ payerKey, instructions, recentBlockhash, addressLookupTableAccounts }) {
    return new MessageV0(payerKey, [...instructions], recentBlockhash, addressLookupTableAccounts);
  }
}
guard(MessageV0.prototype, 'MessageV0');

class TransactionMessage {
  constructor({ payerKey, instructions, recentBlockhash }) {
    this.payerKey = payerKey;
    this.instructions = instructions;
    this.recentBlockhash = recentBlockhash;
  }
  compileToV0Message(addressLookupTableAccounts) {
    return MessageV0.compile({ ...this, addressLookupTableAccounts });
  }
}
guard(TransactionMessage.prototype, 'TransactionMessage');

class VersionedTransaction {
  constructor(message) {
    this.message = message;
    this.signedBy = new Set();
  }
  sign(signers) {
    const need = required(this.message.payerKey, this.message.instructions);
    for (const s of signers) {
      const k = s.publicKey.toBase58();
      if (!need.has(k)) throw new Error(`Cannot sign with non signer key ${k}`);
      this.signedBy.add(k);
    }
  }
  serialize() {
    const need = required(this.message.payerKey, this.message.instructions);
    for (const k of need) if (!this.signedBy.has(k)) throw new Error(`Signature verification failed: missing signature for ${k}`);
    return { payer: this.message.payerKey, instructions: this.message.instructions, signedBy: this.signedBy, blockhash: this.message.recentBlockhash, tables: this.message.tables };
  }
}
guard(VersionedTransaction.prototype, 'VersionedTransaction');

const ComputeBudgetProgram = guard(
  {
    programId: new PublicKey('ComputeBudget111111111111111111111111111111'),
    setComputeUnitPrice({ microLamports }) {
      const data = Buffer.alloc(9);
      data[0] = 3;
      data.writeBigUInt64LE(BigInt(microLamports), 1);
      return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId, data });
    },
  },
  'ComputeBudgetProgram',
);

class Connection {}

module.exports = guard(
  {
    PublicKey,
    Keypair,
    SystemProgram,
    TransactionInstruction,
    Transaction,
    MessageV0,
    TransactionMessage,
    VersionedTransaction,
    ComputeBudgetProgram,
    Connection,
    SYSVAR_RENT_PUBKEY: new PublicKey('SysvarRent111111111111111111111111111111111'),
  },
  'web3.js',
);
module.exports.__bs58 = bs58;
module.exports.__reseed = (n) => {
  entropy = BigInt(n) << 32n;
};
