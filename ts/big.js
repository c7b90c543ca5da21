'use strict';
// Decimal numbers with the interface of big.js: v * 10^-s.

const { guard } = require('./missing');

const pow10 = (n) => 10n ** BigInt(n);
const DP = 20;

function parse(x) {
  if (x instanceof Big) return [x.c, x.s];
  let t = typeof x === 'number' ? String(x) : x != null && typeof x.toString === 'function' ? x.toString() : String(x);
  const m = /^([+-]?)(\d*)(?:\.(\d*))?(?:e([+-]?\d+))?$/i.exec(t);
  if (!m || (m[2] === '' && (m[3] === undefined || m[3] === ''))) throw new Error('[big.js] Invalid number');
  const frac = m[3] || '';
  let v = BigInt(m[2] + frac || '0');
  let s = frac.length - Number(m[4] || 0);
  if (s < 0) {
    v *= pow10(-s);
    s = 0;
  }
  return [m[1] === '-' ? -v : v, s];
}

function norm(v, s) {
  while (s > 0 && v % 10n === 0n) {
    v /= 10n;
    s--;
  }
  return [v, s];
}

// round half away from zero, as big.js does by default
function roundTo(v, s, dp) {
  if (s <= dp) return [v, s];
  const d = pow10(s - dp);
  const neg = v < 0n;
  const a = neg ? -v : v;
  let q = a / d;
  if (2n * (a % d) >= d) q += 1n;
  return [neg ? -q : q, dp];
}

function Big(x) {
  if (!(this instanceof Big)) return new Big(x);
  [this.c, this.s] = norm(...parse(x));
}
function make(v, s) {
  const b = Object.create(Big.prototype);
  [b.c, b.s] = norm(v, s);
  return b;
}
function align(a, b) {
  const s = Math.max(a.s, b.s);
  return [a.c * pow10(s - a.s), b.c * pow10(s - b.s), s];
}
const methods = {
  plus(o) {
    const [a, b, s] = align(this, new Big(o));
    return make(a + b, s);
  },
  minus(o) {
    const [a, b, s] = align(this, new Big(o));
    return make(a - b, s);
  },
  times(o) {
    o = new Big(o);
    return make(this.c * o.c, this.s + o.s);
  },
  div(o) {
    o = new Big(o);
    if (o.c === 0n) throw new Error('[big.js] Division by zero');
    // twenty places after the point
    const extra = DP + 1 + o.s;
    const n = this.c * pow10(extra);
    const neg = n < 0n !== o.c < 0n;
    const an = n < 0n ? -n : n;
    const ad = o.c < 0n ? -o.c : o.c;
    let q = an / ad;
    // value = q * 10^-(this.s + extra - o.s), with sticky digit for the rounding
    if (an % ad !== 0n) q = q * 10n + 1n;
    else q = q * 10n;
    const [v, s] = roundTo(neg ? -q : q, this.s + extra - o.s + 1, DP);
    return make(v, s);
  },
  mod(o) {
    const [a, b, s] = align(this, new Big(o));
    return make(a % b, s);
  },
  pow(n) {
    if (n !== Math.trunc(n)) throw new Error('[big.js] Invalid exponent');
    const a = Math.abs(n);
    const p = make(this.c ** BigInt(a), this.s * a);
    return n < 0 ? new Big(1).div(p) : p;
  },
  abs() {
    return make(this.c < 0n ? -this.c : this.c, this.s);
  },
  neg() {
    return make(-this.c, this.s);
  },
  cmp(o) {
    const [a, b] = align(this, new Big(o));
    return a < b ? -1 : a > b ? 1 : 0;
  },
  eq(o) {
    return this.cmp(o) === 0;
  },
  gt(o) {
    return this.cmp(o) > 0;
  },
  gte(o) {
    return this.cmp(o) >= 0;
  },
  lt(o) {
    return this.cmp(o) < 0;
  },
  lte(o) {
    return this.cmp(o) <= 0;
  },
  round(dp = 0, rm = 1) {
    if (rm === 1) return make(...roundTo(this.c, this.s, dp));
    if (this.s <= dp) return make(this.c, this.s);
    const d = pow10(this.s - dp);
    let q = this.c / d;
    if (rm === 3 && this.c % d !== 0n) q += this.c < 0n ? -1n : 1n;
    if (rm !== 0 && rm !== 3) throw new Error('[big.js] rounding mode not available here');
    return make(q, dp);
  },
  toFixed(dp) {
    const [v, s] = dp === undefined ? [this.c, this.s] : roundTo(this.c, this.s, dp);
    const want = dp === undefined ? s : dp;
    const neg = v < 0n;
    let t = ((neg ? -v : v) * pow10(want - s)).toString().padStart(want + 1, '0');
    if (want > 0) t = t.slice(0, -want) + '.' + t.slice(-want);
    return (neg ? '-' : '') + t;
  },
  toString() {
    // plain digits where big.js would use an exponent as well: the value is the same
    return this.toFixed();
  },
  toJSON() {
    return this.toFixed();
  },
  valueOf() {
    return this.toFixed();
  },
  toNumber() {
    return Number(this.toFixed());
  },
};
Object.assign(Big.prototype, methods);
Big.prototype.add = methods.plus;
Big.prototype.sub = methods.minus;
Big.prototype.mul = methods.times;
Big.DP = DP;
Big.RM = 1;
Big.roundDown = 0;
Big.roundHalfUp = 1;
Big.roundHalfEven = 2;
Big.roundUp = 3;
Big.Big = Big;
Big.default = Big;
guard(Big.prototype, 'Big');
module.exports = Big;
