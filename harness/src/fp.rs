//! A prime field whose modulus is chosen at run time (per thread): lets the real compiler and
//! interpreter work over fields small enough to be enumerated.
use num_bigint::BigUint;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, One, ToPrimitive, Zero};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt;
use std::io::{Read, Write};
use std::ops::{Add, Div, Mul, Sub};
use zokrates_field::{Field, FieldParseError, Pow};

thread_local! { static P: Cell<u128> = const { Cell::new(17) }; }
pub fn set_modulus(p: u128) {
    assert!(p < 1u128 << 126);
    P.with(|c| c.set(p))
}
pub fn modulus() -> u128 {
    P.with(|c| c.get())
}

#[derive(PartialEq, PartialOrd, Clone, Copy, Eq, Ord, Hash, Default)]
pub struct Fp(pub u128);

fn red(x: u128) -> Fp {
    Fp(x % modulus())
}

fn mulmod(a: u128, b: u128) -> u128 {
    let p = modulus();
    if p >> 64 == 0 {
        return a * b % p;
    }
    let (mut r, mut a, mut b) = (0u128, a, b);
    while b > 0 {
        if b & 1 == 1 {
            r = (r + a) % p;
        }
        a = (a << 1) % p;
        b >>= 1;
    }
    r
}

impl Field for Fp {
    fn read<R: Read>(mut r: R) -> std::io::Result<Self> {
        let mut b = [0u8; 16];
        r.read_exact(&mut b)?;
        Ok(Fp(u128::from_le_bytes(b)))
    }
    fn write<W: Write>(&self, mut w: W) -> std::io::Result<()> {
        w.write_all(&self.0.to_le_bytes())
    }
    fn to_byte_vector(&self) -> Vec<u8> {
        self.0.to_le_bytes().to_vec()
    }
    fn from_byte_vector(b: Vec<u8>) -> Self {
        let mut a = [0u8; 16];
        a.copy_from_slice(&b[..16]);
        red(u128::from_le_bytes(a))
    }
    fn to_dec_string(&self) -> String {
        self.0.to_string()
    }
    fn inverse_mul(&self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            let (mut r, mut b, mut e) = (1u128, self.0, modulus() - 2);
            while e > 0 {
                if e & 1 == 1 {
                    r = mulmod(r, b);
                }
                b = mulmod(b, b);
                e >>= 1;
            }
            Some(Fp(r))
        }
    }
    fn min_value() -> Self {
        Fp(0)
    }
    fn max_value() -> Self {
        Fp(modulus() - 1)
    }
    fn max_unique_value() -> Self {
        Fp((1u128 << (Self::get_required_bits() - 1)) - 1)
    }
    fn to_bits_be(&self) -> Vec<bool> {
        let n = Self::get_required_bits();
        (0..n).rev().map(|i| (self.0 >> i) & 1 == 1).collect()
    }
    fn get_required_bits() -> usize {
        (128 - modulus().leading_zeros()) as usize
    }
    fn try_from_dec_str(s: &str) -> Result<Self, FieldParseError> {
        Self::try_from_str(s, 10)
    }
    fn try_from_str(s: &str, radix: u32) -> Result<Self, FieldParseError> {
        let x = BigUint::parse_bytes(s.as_bytes(), radix).ok_or(FieldParseError)?;
        Fp::try_from(x).map_err(|_| FieldParseError)
    }
    fn to_compact_dec_string(&self) -> String {
        if self.0 <= (modulus() - 1) / 2 {
            format!("{}", self.0)
        } else {
            format!("(-{})", modulus() - self.0)
        }
    }
    fn id() -> [u8; 4] {
        let b = modulus().to_le_bytes();
        [b[0] ^ b[8], b[1] ^ b[9], b[2], b[3]]
    }
    fn name() -> &'static str {
        "fp"
    }
    fn bits(&self) -> u32 {
        std::cmp::max(128 - self.0.leading_zeros(), 1)
    }
    fn to_biguint(&self) -> BigUint {
        BigUint::from(self.0)
    }
}
impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
macro_rules! from_uint { ($($t:ty),*) => { $(impl From<$t> for Fp { fn from(x: $t) -> Self { red(x as u128) } })* } }
from_uint!(u128, u64, u32, u16, u8, usize, bool);
impl From<i32> for Fp {
    fn from(x: i32) -> Self {
        if x < 0 {
            Fp(0) - red((-(x as i64)) as u128)
        } else {
            red(x as u128)
        }
    }
}
impl TryFrom<BigUint> for Fp {
    type Error = ();
    fn try_from(v: BigUint) -> Result<Self, ()> {
        if v < BigUint::from(modulus()) {
            Ok(Fp(v.to_u128().unwrap()))
        } else {
            Err(())
        }
    }
}
impl Zero for Fp {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Self {
        Fp(1)
    }
}
macro_rules! op { ($tr:ident, $m:ident, |$a:ident, $b:ident| $e:expr) => {
    impl $tr<Fp> for Fp { type Output = Fp; fn $m(self, o: Fp) -> Fp { let $a = self.0; let $b = o.0; red($e) } }
    impl<'a> $tr<&'a Fp> for Fp { type Output = Fp; fn $m(self, o: &'a Fp) -> Fp { let $a = self.0; let $b = o.0; red($e) } }
} }
op!(Add, add, |a, b| a + b);
op!(Sub, sub, |a, b| a + modulus() - b);
op!(Mul, mul, |a, b| mulmod(a, b));
impl CheckedDiv for Fp {
    fn checked_div(&self, o: &Fp) -> Option<Fp> {
        o.inverse_mul().map(|i| *self * i)
    }
}
impl Div<Fp> for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        self.checked_div(&o).unwrap()
    }
}
impl<'a> Div<&'a Fp> for Fp {
    type Output = Fp;
    fn div(self, o: &'a Fp) -> Fp {
        self.checked_div(o).unwrap()
    }
}
impl Pow<usize> for Fp {
    type Output = Fp;
    fn pow(self, e: usize) -> Fp {
        let (mut r, mut b, mut e) = (red(1), self, e);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl CheckedAdd for Fp {
    fn checked_add(&self, o: &Self) -> Option<Self> {
        let m = Self::max_unique_value();
        assert!(*self <= m && *o <= m);
        let r = self.0 + o.0;
        if r > m.0 {
            None
        } else {
            Some(Fp(r))
        }
    }
}
impl CheckedMul for Fp {
    fn checked_mul(&self, o: &Self) -> Option<Self> {
        let m = Self::max_unique_value();
        assert!(*self <= m && *o <= m);
        let r = self.to_biguint() * o.to_biguint();
        if r > m.to_biguint() {
            None
        } else {
            Some(Fp(r.to_u128().unwrap()))
        }
    }
}
impl Serialize for Fp {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0.to_le_bytes())
    }
}
impl<'de> Deserialize<'de> for Fp {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Fp(u128::deserialize(d)?))
    }
}
