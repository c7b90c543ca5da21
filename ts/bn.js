'use strict';
// Arbitrary precision integers with the interface of bn.js (the package itself is not installed here).

const { guard } = require('./missing');

function parse(x, base, endian) {
  if (BN.isBN(x)) return x.v;
  if (typeof x === 'bigint') return x;
  if (typeof x === 'number') {
    // bn.js refuses numbers it cannot represent exactly and drops fractions
    if (!(Math.abs(x) < 0x20000000000000)) throw new Error('Assertion failed');
    return BigInt(Math.trunc(x));
  }
  if (typeof x === 'string') {
    let s = x.replace(/\s+/g, '');
    let neg = false;
    if (s[0] === '-') {
      neg = true;
      s = s.slice(1);
    }
    if (base === 'hex') base = 16;
    base = base || 10;
    if (base === 'le' || base === 'be') base = 10;
    let v = 0n;
    for (const c of s) {
      const d = parseInt(c, 36);
      if (!(d < base)) throw new Error('Invalid character');
      v = v * BigInt(base) + BigInt(d);
    }
    return neg ? -v : v;
  }
  if (x != null && typeof x === 'object' && typeof x.length === 'number') {
    const e = base === 'le' || base === 'be' ? base : endian || 'be';
    let v = 0n;
    const n = x.length;
    for (let i = 0; i < n; i++) v = (v << 8n) | BigInt(e === 'le' ? x[n - 1 - i] : x[i]);
    return v;
  }
  if (x == null) return 0n;
  throw new Error('Assertion failed');
}

const abs = (v) => (v < 0n ? -v : v);

class BN {
  constructor(x, base, endian) {
    this.v = parse(x, base, endian);
  }
  static isBN(x) {
    return x != null && typeof x === 'object' && typeof x.v === 'bigint';
  }
  static max(a, b) {
    return a.cmp(b) > 0 ? a : b;
  }
  static min(a, b) {
    return a.cmp(b) < 0 ? a : b;
  }
  get negative() {
    return this.v < 0n ? 1 : 0;
  }
  clone() {
    return new BN(this.v);
  }
  cmp(o) {
    return this.v < o.v ? -1 : this.v > o.v ? 1 : 0;
  }
  ucmp(o) {
    return abs(this.v) < abs(o.v) ? -1 : abs(this.v) > abs(o.v) ? 1 : 0;
  }
  isZero() {
    return this.v === 0n;
  }
  isNeg() {
    return this.v < 0n;
  }
  isOdd() {
    return (this.v & 1n) === 1n;
  }
  isEven() {
    return (this.v & 1n) === 0n;
  }
  neg() {
    return new BN(-this.v);
  }
  ineg() {
    this.v = -this.v;
    return this;
  }
  abs() {
    return new BN(abs(this.v));
  }
  iabs() {
    this.v = abs(this.v);
    return this;
  }
  sqr() {
    return new BN(this.v * this.v);
  }
  pow(o) {
    return new BN(this.v ** o.v);
  }
  divmod(o) {
    return { div: this.div(o), mod: this.mod(o) };
  }
  divRound(o) {
    const q = this.v / o.v;
    const r = this.v % o.v;
    if (r === 0n) return new BN(q);
    if (2n * abs(r) < abs(o.v)) return new BN(q);
    return new BN(q + (this.v < 0n !== o.v < 0n ? -1n : 1n));
  }
  umod(o) {
    const r = this.v % o.v;
    return new BN(r < 0n ? r + abs(o.v) : r);
  }
  imaskn(n) {
    this.v = BigInt.asUintN(n, this.v);
    return this;
  }
  maskn(n) {
    return this.clone().imaskn(n);
  }
  testn(n) {
    return ((abs(this.v) >> BigInt(n)) & 1n) === 1n;
  }
  setn(n, bit) {
    const m = 1n << BigInt(n);
    this.v = bit ? this.v | m : this.v & ~m;
    return this;
  }
  bitLength() {
    return this.v === 0n ? 0 : abs(this.v).toString(2).length;
  }
  byteLength() {
    return Math.ceil(this.bitLength() / 8);
  }
  toTwos(width) {
    return this.v < 0n ? new BN((1n << BigInt(width)) + this.v) : this.clone();
  }
  fromTwos(width) {
    return this.testn(width - 1) ? new BN(this.v - (1n << BigInt(width))) : this.clone();
  }
  toNumber() {
    if (abs(this.v) >= 1n << 53n) throw new Error('Number can only safely store up to 53 bits');
    return Number(this.v);
  }
  toString(base, padding) {
    if (base === 'hex') base = 16;
    let s = abs(this.v).toString(base || 10);
    if (padding) while (s.length % padding !== 0) s = '0' + s;
    return (this.v < 0n ? '-' : '') + s;
  }
  toJSON() {
    return this.toString(16, 2);
  }
  toBigInt() {
    return this.v;
  }
  toArrayLike(Type, endian, length) {
    const n = Math.max(length || 0, this.byteLength(), length ? 0 : 1);
    if (length && this.byteLength() > length) throw new Error('byte array longer than desired length');
    const out = Type.allocUnsafe ? Type.alloc(n) : new Type(n).fill(0);
    let v = abs(this.v);
    for (let i = 0; i < n; i++) {
      out[endian === 'le' ? i : n - 1 - i] = Number(v & 255n);
      v >>= 8n;
    }
    return out;
  }
  toArray(endian, length) {
    return this.toArrayLike(Array, endian, length);
  }
  toBuffer(endian, length) {
    return this.toArrayLike(Buffer, endian, length);
  }
  [Symbol.for('nodejs.util.inspect.custom')]() {
    return `<BN: ${this.toString(16)}>`;
  }
}

const ops = {
  add: (a, b) => a + b,
  sub: (a, b) => a - b,
  mul: (a, b) => a * b,
  div: (a, b) => {
    if (b === 0n) throw new Error('Assertion failed');
    return a / b;
  },
  mod: (a, b) => {
    if (b === 0n) throw new Error('Assertion failed');
    return a % b;
  },
  and: (a, b) => a & b,
  or: (a, b) => a | b,
  xor: (a, b) => a ^ b,
};
for (const [name, f] of Object.entries(ops)) {
  BN.prototype[name] = function (o) {
    return new BN(f(this.v, o.v));
  };
  BN.prototype['i' + name] = function (o) {
    this.v = f(this.v, o.v);
    return this;
  };
  BN.prototype[name + 'n'] = function (n) {
    return new BN(f(this.v, BigInt(n)));
  };
  BN.prototype['i' + name + 'n'] = function (n) {
    this.v = f(this.v, BigInt(n));
    return this;
  };
}
for (const [name, f] of Object.entries({ shl: (a, n) => a << n, shr: (a, n) => a >> n })) {
  for (const u of ['', 'u']) {
    BN.prototype[u + name + 'n'] = function (n) {
      return new BN(f(this.v, BigInt(n)));
    };
    BN.prototype['i' + u + name + 'n'] = function (n) {
      this.v = f(this.v, BigInt(n));
      return this;
    };
  }
}
for (const [name, f] of Object.entries({
  eq: (c) => c === 0,
  gt: (c) => c > 0,
  gte: (c) => c >= 0,
  lt: (c) => c < 0,
  lte: (c) => c <= 0,
})) {
  BN.prototype[name] = function (o) {
    return f(this.cmp(o));
  };
  BN.prototype[name + 'n'] = function (n) {
    return f(this.cmp(new BN(n)));
  };
}
BN.prototype.cmpn = function (n) {
  return this.cmp(new BN(n));
};
BN.BN = BN;
BN.default = BN;
guard(BN.prototype, 'BN');
module.exports = BN;
