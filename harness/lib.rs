// Entry points that the symbolic executor runs (LLVM IR of this crate plus
// rustc_apfloat) and that the replay program calls natively.
// `build.py` appends one `w!` line per requested entry point.
#![allow(dead_code, unused_imports, unused_macros)]
pub use core::cmp::Ordering;
pub use rustc_apfloat::ieee::*;
pub use rustc_apfloat::ppc::DoubleDouble;
pub use rustc_apfloat::*;

#[repr(C)]
#[derive(Default, Clone, Copy, Debug)]
pub struct O {
    pub v: u128,
    pub w: u128,
    pub e: i32,
    pub st: u8,
    pub f: u8,
}

/// 6-bit and 7-bit user formats: `Semantics` is a public trait, so the generic
/// code has to be right for them as well.
pub struct T6S;
pub type T6 = IeeeFloat<T6S>;
impl Semantics for T6S {
    const BITS: usize = 6;
    const EXP_BITS: usize = 3;
}
pub struct T7S;
pub type T7 = IeeeFloat<T7S>;
impl Semantics for T7S {
    const BITS: usize = 7;
    const EXP_BITS: usize = 3;
}
pub struct N6S;
pub type N6 = IeeeFloat<N6S>;
impl Semantics for N6S {
    const BITS: usize = 6;
    const EXP_BITS: usize = 3;
    const NONFINITE_BEHAVIOR: NonfiniteBehavior = NonfiniteBehavior::NanOnly;
}

#[inline(always)]
pub fn rm(r: u8) -> Round {
    match r {
        0 => Round::NearestTiesToEven,
        1 => Round::TowardPositive,
        2 => Round::TowardNegative,
        3 => Round::TowardZero,
        _ => Round::NearestTiesToAway,
    }
}

#[inline(always)]
fn set<F: Float>(o: &mut O, x: StatusAnd<F>) {
    o.v = x.value.to_bits();
    o.st = x.status.bits();
}
#[inline(always)]
fn fb<F: Float>(a: u128) -> F {
    F::from_bits(a)
}
#[inline(always)]
fn ord(o: Option<Ordering>) -> u8 {
    match o {
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 4,
        None => 8,
    }
}

pub fn add<F: Float>(a: u128, b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, fb::<F>(a).add_r(fb(b), rm(r)));
}
pub fn sub<F: Float>(a: u128, b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, fb::<F>(a).sub_r(fb(b), rm(r)));
}
pub fn mul<F: Float>(a: u128, b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, fb::<F>(a).mul_r(fb(b), rm(r)));
}
pub fn div<F: Float>(a: u128, b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, fb::<F>(a).div_r(fb(b), rm(r)));
}
pub fn fma<F: Float>(a: u128, b: u128, c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, fb::<F>(a).mul_add_r(fb(b), fb(c), rm(r)));
}
pub fn irem<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, fb::<F>(a).ieee_rem(fb(b)));
}
pub fn fmod<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, fb::<F>(a).c_fmod(fb(b)));
}
pub fn rint<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, fb::<F>(a).round_to_integral(rm(r)));
}
pub fn isint<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.f = fb::<F>(a).is_integer() as u8;
}
pub fn nextup<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, fb::<F>(a).next_up());
}
pub fn nextdown<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, fb::<F>(a).next_down());
}
pub fn cvt<F: FloatConvert<G>, G: Float>(a: u128, _b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    let mut l = false;
    let x: StatusAnd<G> = fb::<F>(a).convert_r(rm(r), &mut l);
    set(o, x);
    o.f = l as u8;
}
pub fn fromu<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, F::from_u128_r(a, rm(r)));
}
pub fn fromi<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    set(o, F::from_i128_r(a as i128, rm(r)));
}
pub fn tou<F: Float>(a: u128, _b: u128, _c: u128, k: i32, r: u8, o: &mut O) {
    let mut ex = k & 0x1000 != 0;
    let x = fb::<F>(a).to_u128_r((k & 0xfff) as usize, rm(r), &mut ex);
    o.v = x.value;
    o.st = x.status.bits();
    o.f = ex as u8;
}
pub fn toi<F: Float>(a: u128, _b: u128, _c: u128, k: i32, r: u8, o: &mut O) {
    let mut ex = k & 0x1000 != 0;
    let x = fb::<F>(a).to_i128_r((k & 0xfff) as usize, rm(r), &mut ex);
    o.v = x.value as u128;
    o.st = x.status.bits();
    o.f = ex as u8;
}
pub fn cmp<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let (x, y) = (fb::<F>(a), fb::<F>(b));
    o.st = ord(x.partial_cmp(&y));
    o.f = (x == y) as u8 | ((x != y) as u8) << 1 | ((x < y) as u8) << 2 | ((x <= y) as u8) << 3
        | ((x > y) as u8) << 4 | ((x >= y) as u8) << 5;
}
pub fn biteq<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.f = fb::<F>(a).bitwise_eq(fb(b)) as u8;
}
/// only called on two finite non-zero values
pub fn cmpabs<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.st = ord(Some(fb::<F>(a).cmp_abs_normal(fb(b))));
}
pub fn min<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).min(fb(b)).to_bits();
}
pub fn max<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).max(fb(b)).to_bits();
}
pub fn minimum<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).minimum(fb(b)).to_bits();
}
pub fn maximum<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).maximum(fb(b)).to_bits();
}
pub fn rtrip<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).to_bits();
}
pub fn neg<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = (-fb::<F>(a)).to_bits();
}
pub fn abs<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).abs().to_bits();
}
pub fn copysign<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).copy_sign(fb(b)).to_bits();
}
/// every predicate, one bit each
pub fn class<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let x = fb::<F>(a);
    let mut v = 0u128;
    let mut i = 0;
    let mut p = |b: bool| {
        v |= (b as u128) << i;
        i += 1;
    };
    p(x.is_negative());
    p(x.is_normal());
    p(x.is_finite());
    p(x.is_zero());
    p(x.is_denormal());
    p(x.is_infinite());
    p(x.is_nan());
    p(x.is_signaling());
    p(x.is_non_zero());
    p(x.is_finite_non_zero());
    p(x.is_pos_zero());
    p(x.is_neg_zero());
    p(x.is_pos_infinity());
    p(x.is_neg_infinity());
    p(x.is_smallest());
    p(x.is_smallest_normalized());
    p(x.is_largest());
    p(x.category() == Category::Infinity);
    p(x.category() == Category::NaN);
    p(x.category() == Category::Normal);
    p(x.category() == Category::Zero);
    o.v = v;
}
/// constants, selected by k
pub fn konst<F: Float>(a: u128, _b: u128, _c: u128, k: i32, _r: u8, o: &mut O) {
    o.v = match k {
        0 => F::ZERO.to_bits(),
        1 => F::INFINITY.to_bits(),
        2 => F::NAN.to_bits(),
        3 => F::largest().to_bits(),
        4 => F::SMALLEST.to_bits(),
        5 => F::smallest_normalized().to_bits(),
        6 => F::default().to_bits(),
        7 => F::qnan(None).to_bits(),
        8 => F::snan(None).to_bits(),
        9 => F::qnan(Some(a)).to_bits(),
        10 => F::snan(Some(a)).to_bits(),
        11 => F::BITS as u128,
        12 => F::PRECISION as u128,
        13 => F::MAX_EXP as u128,
        14 => F::MIN_EXP as u128,
        _ => 0,
    };
}
pub fn scalbn<F: Float>(a: u128, _b: u128, _c: u128, k: i32, r: u8, o: &mut O) {
    o.v = fb::<F>(a).scalbn_r(k, rm(r)).to_bits();
}
pub fn frexp<F: Float>(a: u128, _b: u128, _c: u128, k: i32, r: u8, o: &mut O) {
    let mut e = k;
    o.v = fb::<F>(a).frexp_r(&mut e, rm(r)).to_bits();
    o.e = e;
}
pub fn ilogb<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    o.e = fb::<F>(a).ilogb();
}
pub fn inv<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    match fb::<F>(a).get_exact_inverse() {
        None => o.f = 0,
        Some(x) => {
            o.f = 1;
            o.v = x.to_bits();
        }
    }
}
/// default-rounding entry points and operators: v/st from the operator, w from the assigning form
pub fn opadd<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let (mut x, y) = (fb::<F>(a), fb::<F>(b));
    set(o, x + y);
    x += y;
    o.w = x.to_bits();
}
pub fn opsub<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let (mut x, y) = (fb::<F>(a), fb::<F>(b));
    set(o, x - y);
    x -= y;
    o.w = x.to_bits();
}
pub fn opmul<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let (mut x, y) = (fb::<F>(a), fb::<F>(b));
    set(o, x * y);
    x *= y;
    o.w = x.to_bits();
}
pub fn opdiv<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let (mut x, y) = (fb::<F>(a), fb::<F>(b));
    set(o, x / y);
    x /= y;
    o.w = x.to_bits();
}
pub fn oprem<F: Float>(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let (mut x, y) = (fb::<F>(a), fb::<F>(b));
    set(o, x % y);
    x %= y;
    o.w = x.to_bits();
}
pub fn opfma<F: Float>(a: u128, b: u128, c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, fb::<F>(a).mul_add(fb(b), fb(c)));
}
pub fn opcvt<F: FloatConvert<G>, G: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    let mut l = false;
    let x: StatusAnd<G> = fb::<F>(a).convert(&mut l);
    set(o, x);
    o.f = l as u8;
}
pub fn opfromu<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, F::from_u128(a));
}
pub fn opfromi<F: Float>(a: u128, _b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    set(o, F::from_i128(a as i128));
}
pub fn optou<F: Float>(a: u128, _b: u128, _c: u128, k: i32, _r: u8, o: &mut O) {
    let x = fb::<F>(a).to_u128(k as usize);
    o.v = x.value;
    o.st = x.status.bits();
}
pub fn optoi<F: Float>(a: u128, _b: u128, _c: u128, k: i32, _r: u8, o: &mut O) {
    let x = fb::<F>(a).to_i128(k as usize);
    o.v = x.value as u128;
    o.st = x.status.bits();
}
pub fn opscalbn<F: Float>(a: u128, _b: u128, _c: u128, k: i32, _r: u8, o: &mut O) {
    o.v = fb::<F>(a).scalbn(k).to_bits();
}
pub fn opfrexp<F: Float>(a: u128, _b: u128, _c: u128, k: i32, _r: u8, o: &mut O) {
    let mut e = k;
    o.v = fb::<F>(a).frexp(&mut e).to_bits();
    o.e = e;
}
pub fn stops(a: u128, b: u128, _c: u128, _k: i32, _r: u8, o: &mut O) {
    // Status is the set of flags that callers accumulate
    let (x, y) = (Status::from_bits_truncate(a as u8), Status::from_bits_truncate(b as u8));
    o.st = (x | y).bits();
    o.f = (x - y).bits();
    let s = x.and(y.bits()).map(|v| v ^ 0xff);
    o.v = s.value as u128 | (s.status.bits() as u128) << 8;
}
pub fn negr(_a: u128, _b: u128, _c: u128, _k: i32, r: u8, o: &mut O) {
    o.st = match -rm(r) {
        Round::NearestTiesToEven => 0,
        Round::TowardPositive => 1,
        Round::TowardNegative => 2,
        Round::TowardZero => 3,
        Round::NearestTiesToAway => 4,
    };
}
/// string entry points; the bytes are ASCII by construction of the harness
pub fn parse<F: Float>(s: &[u8], r: u8, o: &mut O) {
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    match F::from_str_r(s, rm(r)) {
        Ok(x) => set(o, x),
        Err(_) => o.f = 1,
    }
}
pub struct Sink<'a>(pub &'a mut [u8], pub usize);
impl<'a> core::fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &b in s.as_bytes() {
            if self.1 >= self.0.len() {
                return Err(core::fmt::Error);
            }
            self.0[self.1] = b;
            self.1 += 1;
        }
        Ok(())
    }
}
macro_rules! w {
    ($n:ident, $g:expr) => {
        #[no_mangle]
        pub fn $n(a: u128, b: u128, c: u128, k: i32, r: u8, o: &mut O) {
            $g(a, b, c, k, r, o)
        }
    };
}
macro_rules! wp {
    ($n:ident, $F:ty) => {
        #[no_mangle]
        pub fn $n(s: &[u8], r: u8, o: &mut O) {
            parse::<$F>(s, r, o)
        }
    };
}
macro_rules! ws {
    ($n:ident, $F:ty, $t:literal $(, $x:expr)*) => {
        #[no_mangle]
        pub fn $n(a: u128, buf: &mut [u8], o: &mut O) {
            use core::fmt::Write;
            let mut s = Sink(buf, 0);
            let r = write!(s, $t, fb::<$F>(a) $(, $x)*);
            o.e = s.1 as i32;
            o.f = r.is_err() as u8;
        }
    };
}
