//! Offline stand-in for the two types of the `fixed` crate that openbook-v2 uses.
//!
//! Semantics follow the crate: multiplication rounds towards negative infinity, division rounds
//! towards zero, conversion to integers floors, conversion from floats rounds to nearest (ties to
//! even), and the plain operators panic on overflow (`debug-assert-in-release`).

/// Signed 256-bit magnitude helpers (sign handled by the callers).
fn mul_wide(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = u64::MAX as u128;
    let (a1, a0) = (a >> 64, a & M);
    let (b1, b0) = (b >> 64, b & M);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & M) + (p10 & M);
    let lo = (p00 & M) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}

/// (hi:lo) / d, None if the quotient does not fit 128 bits. Returns quotient and remainder.
fn div_wide(hi: u128, lo: u128, d: u128) -> Option<(u128, u128)> {
    if d == 0 || hi >= d {
        return None;
    }
    let mut rem = hi;
    let mut quo = 0u128;
    for i in (0..128).rev() {
        let carry = rem >> 127;
        rem = (rem << 1) | ((lo >> i) & 1);
        quo <<= 1;
        if carry == 1 || rem >= d {
            rem = rem.wrapping_sub(d);
            quo |= 1;
        }
    }
    Some((quo, rem))
}

fn signed(neg: bool, mag: u128) -> Option<i128> {
    if neg {
        if mag <= 1u128 << 127 {
            Some((mag as i128).wrapping_neg())
        } else {
            None
        }
    } else {
        i128::try_from(mag).ok()
    }
}

/// Round `v * 2^frac` to an integer, nearest ties to even. None when not finite or too large.
fn float_to_bits(v: f64, frac: i32) -> Option<(bool, u128)> {
    if !v.is_finite() {
        return None;
    }
    let raw = v.to_bits();
    let neg = raw >> 63 == 1;
    let exp = ((raw >> 52) & 0x7ff) as i32;
    let man = raw & ((1u64 << 52) - 1);
    let (man, exp) = if exp == 0 {
        (man, -1074)
    } else {
        (man | 1 << 52, exp - 1075)
    };
    let shift = exp + frac;
    let man = man as u128;
    let mag = if man == 0 {
        0
    } else if shift >= 0 {
        if shift as u32 > man.leading_zeros() {
            return None;
        }
        man << shift
    } else {
        let s = (-shift) as u32;
        if s > 64 {
            0
        } else {
            let floor = man >> s;
            let rest = man & ((1u128 << s) - 1);
            let half = 1u128 << (s - 1);
            if rest > half || (rest == half && floor & 1 == 1) {
                floor + 1
            } else {
                floor
            }
        }
    };
    Some((neg, mag))
}

pub mod types {
    use super::*;

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct I80F48(i128);

    const FRAC: u32 = 48;

    pub trait ToI80F48 {
        fn conv(self) -> Option<I80F48>;
    }
    pub trait FromI80F48: Sized {
        fn conv(v: I80F48) -> Option<Self>;
    }
    macro_rules! ints {
        ($($t:ty),*) => {$(
            impl ToI80F48 for $t {
                fn conv(self) -> Option<I80F48> {
                    let v = i128::try_from(self).ok()?;
                    v.checked_mul(1 << FRAC).map(I80F48)
                }
            }
            impl FromI80F48 for $t {
                fn conv(v: I80F48) -> Option<Self> {
                    <$t>::try_from(v.0 >> FRAC).ok()
                }
            }
        )*};
    }
    ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, usize, isize);
    impl ToI80F48 for f64 {
        fn conv(self) -> Option<I80F48> {
            let (neg, mag) = float_to_bits(self, FRAC as i32)?;
            signed(neg, mag).map(I80F48)
        }
    }
    impl FromI80F48 for f64 {
        fn conv(v: I80F48) -> Option<Self> {
            Some(v.0 as f64 / (1u64 << FRAC) as f64)
        }
    }

    impl I80F48 {
        pub const ZERO: Self = Self(0);
        pub const ONE: Self = Self(1 << FRAC);
        pub const fn from_bits(bits: i128) -> Self {
            Self(bits)
        }
        pub const fn to_bits(self) -> i128 {
            self.0
        }
        pub fn from_num<T: ToI80F48>(v: T) -> Self {
            v.conv().expect("overflow")
        }
        pub fn checked_from_num<T: ToI80F48>(v: T) -> Option<Self> {
            v.conv()
        }
        pub fn to_num<T: FromI80F48>(self) -> T {
            T::conv(self).expect("overflow")
        }
        pub fn checked_to_num<T: FromI80F48>(self) -> Option<T> {
            T::conv(self)
        }
        pub fn checked_mul(self, o: Self) -> Option<Self> {
            let neg = (self.0 < 0) != (o.0 < 0);
            let (hi, lo) = mul_wide(self.0.unsigned_abs(), o.0.unsigned_abs());
            if hi >> FRAC != 0 {
                return None;
            }
            let mut mag = (hi << (128 - FRAC)) | (lo >> FRAC);
            if neg && lo & ((1 << FRAC) - 1) != 0 {
                mag = mag.checked_add(1)?;
            }
            signed(neg, mag).map(Self)
        }
        pub fn checked_div(self, o: Self) -> Option<Self> {
            if o.0 == 0 {
                return None;
            }
            let neg = (self.0 < 0) != (o.0 < 0);
            let n = self.0.unsigned_abs();
            let (q, _) = div_wide(n >> (128 - FRAC), n << FRAC, o.0.unsigned_abs())?;
            signed(neg, q).map(Self)
        }
    }
    impl std::ops::Mul for I80F48 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            self.checked_mul(o).expect("overflow")
        }
    }
    impl std::ops::Div for I80F48 {
        type Output = Self;
        fn div(self, o: Self) -> Self {
            self.checked_div(o).expect("overflow")
        }
    }
    impl std::ops::Add for I80F48 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Self(self.0.checked_add(o.0).expect("overflow"))
        }
    }
    impl std::ops::Sub for I80F48 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            Self(self.0.checked_sub(o.0).expect("overflow"))
        }
    }
    impl std::fmt::Display for I80F48 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.to_num::<f64>())
        }
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct U64F64(u128);
    pub trait FromU64F64 {
        fn conv(v: U64F64) -> Self;
    }
    impl FromU64F64 for f64 {
        fn conv(v: U64F64) -> f64 {
            v.0 as f64 / 18446744073709551616.0
        }
    }
    impl U64F64 {
        pub const fn from_bits(bits: u128) -> Self {
            Self(bits)
        }
        pub fn to_num<T: FromU64F64>(self) -> T {
            T::conv(self)
        }
    }
    impl std::ops::Mul for U64F64 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (hi, lo) = mul_wide(self.0, o.0);
            assert!(hi >> 64 == 0, "overflow");
            Self((hi << 64) | (lo >> 64))
        }
    }
}
