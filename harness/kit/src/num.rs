//! Reference numerics: type descriptions, exact conversions, double-double arithmetic, glibc.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { F32, F64, Int, Fx }

/// Description of a scalar type; words are bit patterns for floats, values for integers and
/// underlying integers for fixed point (u128 words wrap into the i128).
#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub name: &'static str,
    pub kind: Kind,
    pub bits: u32,
    pub frac: u32,
    pub signed: bool,
}

impl Info {
    pub fn is_float(&self) -> bool { matches!(self.kind, Kind::F32 | Kind::F64) }
    pub fn min(&self) -> i128 {
        if self.signed { if self.bits == 128 { i128::MIN } else { -(1i128 << (self.bits - 1)) } } else { 0 }
    }
    /// Largest word as a mathematical value (u128 is capped at i128::MAX).
    pub fn max(&self) -> i128 {
        if self.bits == 128 { i128::MAX } else if self.signed { (1i128 << (self.bits - 1)) - 1 } else { (1i128 << self.bits) - 1 }
    }
    pub fn one(&self) -> i128 { 1i128 << self.frac }
    pub fn ulp(&self) -> f64 { exp2i(-(self.frac as i32)) }
    /// Value of a word.
    pub fn f(&self, w: i128) -> f64 {
        match self.kind {
            Kind::F32 => f32::from_bits(w as u32) as f64,
            Kind::F64 => f64::from_bits(w as u64),
            Kind::Int => if self.bits == 128 && !self.signed { w as u128 as f64 } else { w as f64 },
            Kind::Fx => w as f64 * self.ulp(),
        }
    }
    pub fn maxf(&self) -> f64 { self.f(self.max()) }
    /// Nearest fixed/int word of a value.
    pub fn w(&self, v: f64) -> i128 {
        match self.kind {
            Kind::F32 => (v as f32).to_bits() as i128,
            Kind::F64 => v.to_bits() as i128,
            _ => ((v * exp2i(self.frac as i32)).round_ties_even() as i128).clamp(self.min(), self.max()),
        }
    }
    pub fn fits(&self, w: i128) -> bool { self.min() <= w && w <= self.max() }
    pub fn show(&self, w: i128) -> String {
        match self.kind {
            Kind::F32 => format!("{:?}f32", f32::from_bits(w as u32)),
            Kind::F64 => format!("{:?}f64", f64::from_bits(w as u64)),
            Kind::Int => if self.bits == 128 && !self.signed { format!("{}", w as u128) } else { format!("{w}") },
            Kind::Fx => format!("{}[bits {}]", self.f(w), w),
        }
    }
}

pub fn exp2i(e: i32) -> f64 {
    if e >= -1022 && e <= 1023 { f64::from_bits(((e + 1023) as u64) << 52) } else { (e as f64).exp2() }
}

pub const PI: f64 = std::f64::consts::PI;
/// pi - PI, so that PI + PI_LO is pi to about 107 bits.
pub const PI_LO: f64 = 1.2246467991473532e-16;

/// Unit in the last place of the binade of `x`.
pub fn ulp64(x: f64) -> f64 {
    let x = x.abs();
    if !x.is_finite() { return f64::NAN; }
    if x < f64::MIN_POSITIVE * 2.0 { return f64::from_bits(1); }
    let e = ((x.to_bits() >> 52) as i32) - 1023;
    exp2i((e - 52).max(-1074))
}
pub fn ulp32(x: f64) -> f64 {
    let x = x.abs();
    if x < f32::MIN_POSITIVE as f64 { return f32::from_bits(1) as f64; }
    let e = ((x.to_bits() >> 52) as i32) - 1023;
    exp2i((e - 23).max(-149))
}

/// Same float up to NaN payload: signed zeros differ.
pub fn same64(a: f64, b: f64) -> bool { (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() }
pub fn same32(a: f32, b: f32) -> bool { (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() }

/// Same word of a type up to NaN payload.
pub fn same(i: &Info, a: i128, b: i128) -> bool {
    match i.kind {
        Kind::F32 => same32(f32::from_bits(a as u32), f32::from_bits(b as u32)),
        Kind::F64 => same64(f64::from_bits(a as u64), f64::from_bits(b as u64)),
        _ => a == b,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct DD { pub hi: f64, pub lo: f64 }
impl DD {
    pub fn new(x: f64) -> DD { DD { hi: x, lo: 0.0 } }
    pub fn prod(a: f64, b: f64) -> DD { let p = a * b; DD { hi: p, lo: a.mul_add(b, -p) } }
    pub fn sum(a: f64, b: f64) -> DD { let s = a + b; let t = s - a; DD { hi: s, lo: (a - (s - t)) + (b - t) } }
    pub fn add(self, o: DD) -> DD {
        let s = DD::sum(self.hi, o.hi);
        let lo = s.lo + self.lo + o.lo;
        let r = DD::sum(s.hi, lo);
        r
    }
    pub fn neg(self) -> DD { DD { hi: -self.hi, lo: -self.lo } }
    pub fn sub(self, o: DD) -> DD { self.add(o.neg()) }
    pub fn mul(self, o: DD) -> DD {
        let p = DD::prod(self.hi, o.hi);
        let lo = p.lo + self.hi * o.lo + self.lo * o.hi;
        DD::sum(p.hi, lo)
    }
    pub fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        let r = self.sub(o.mul(DD::new(q1)));
        let q2 = r.hi / o.hi;
        let r = r.sub(o.mul(DD::new(q2)));
        let q3 = r.hi / o.hi;
        DD::sum(q1, q2).add(DD::new(q3))
    }
    pub fn f(self) -> f64 { self.hi + self.lo }
    /// |self - x| as f64
    pub fn err(self, x: f64) -> f64 { self.sub(DD::new(x)).f().abs() }
    pub fn from_i128(v: i128) -> DD {
        let hi = v as f64;
        // v as f64 may round up to 2^127, where the difference still fits.
        let lo = if hi >= 1.7014118346046923e38 { (v.wrapping_sub(i128::MAX) as f64) - 1.0 } else { (v - hi as i128) as f64 };
        DD::sum(hi, lo)
    }
    pub fn scale(self, e: i32) -> DD { DD { hi: self.hi * exp2i(e), lo: self.lo * exp2i(e) } }
    pub fn powi(self, n: u32) -> DD {
        let (mut r, mut b, mut n) = (DD::new(1.0), self, n);
        while n > 0 {
            if n & 1 == 1 { r = r.mul(b); }
            n >>= 1;
            if n > 0 { b = b.mul(b); }
        }
        r
    }
}


pub const PI_DD: DD = DD { hi: PI, lo: PI_LO };
pub const HALF_PI_DD: DD = DD { hi: PI / 2.0, lo: PI_LO / 2.0 };
pub const LN2_DD: DD = DD { hi: std::f64::consts::LN_2, lo: 2.3190468138462996e-17 };

impl DD {
    pub fn times(self, k: f64) -> DD { self.mul(DD::new(k)) }
    pub fn abs(self) -> DD { if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) { self.neg() } else { self } }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 { return DD::new(0.0); }
        let s = self.hi.sqrt();
        let r = self.sub(DD::prod(s, s));
        DD::sum(s, r.f() / (2.0 * s))
    }
    /// Sine and cosine, to about 100 bits for moderate arguments.
    pub fn sin_cos(self) -> (DD, DD) {
        // Beyond that, no fixed-point type resolves the angle.
        if self.hi.abs() > 1e15 { return (DD::new(0.0), DD::new(1.0)); }
        let k = (self.hi / (PI / 2.0)).round();
        let r = self.sub(HALF_PI_DD.times(k));
        let r2 = r.mul(r);
        let (mut s, mut c) = (DD::new(0.0), DD::new(0.0));
        for n in (0..14).rev() {
            let n = n as f64;
            // 1 - r2/((2n+2)(2n+3)) * ... and 1 - r2/((2n+1)(2n+2)) * ...
            s = DD::new(1.0).sub(r2.mul(s).div(DD::new((2.0 * n + 2.0) * (2.0 * n + 3.0))));
            c = DD::new(1.0).sub(r2.mul(c).div(DD::new((2.0 * n + 1.0) * (2.0 * n + 2.0))));
        }
        let s = s.mul(r);
        match k.rem_euclid(4.0) as i32 {
            0 => (s, c),
            1 => (c, s.neg()),
            2 => (s.neg(), c.neg()),
            _ => (c.neg(), s),
        }
    }
    pub fn sin(self) -> DD { self.sin_cos().0 }
    pub fn cos(self) -> DD { self.sin_cos().1 }
    pub fn exp(self) -> DD {
        if self.hi < -700.0 { return DD::new(0.0); }
        let k = (self.hi / LN2_DD.hi).round();
        let r = self.sub(LN2_DD.times(k));
        let mut e = DD::new(0.0);
        for n in (1..30).rev() { e = DD::new(1.0).add(r.mul(e).div(DD::new(n as f64))); }
        e.scale(k as i32)
    }
    /// Angle of the point (x, y); not for (0, 0).
    pub fn atan2(y: DD, x: DD) -> DD {
        let a = DD::new(y.hi.atan2(x.hi));
        let (s, c) = a.sin_cos();
        // One Newton step on the angle: sin(true - a) / cos(true - a).
        let num = y.mul(c).sub(x.mul(s));
        let den = x.mul(c).add(y.mul(s));
        let d = num.div(den);
        let d3 = d.mul(d).mul(d).div(DD::new(3.0));
        a.add(d).sub(d3)
    }
    pub fn acos(self) -> DD {
        let one = DD::new(1.0);
        DD::atan2(one.sub(self).mul(one.add(self)).sqrt(), self)
    }
}
impl Info {
    /// Exact value of an integer or fixed-point word.
    pub fn dd(&self, w: i128) -> DD { DD::from_i128(w).scale(-(self.frac as i32)) }
    /// Distance of a word from a reference value, in units of the type's resolution.
    pub fn ulps(&self, w: i128, want: DD) -> f64 { self.dd(w).sub(want).f().abs() * exp2i(self.frac as i32) }
}

/// glibc, for the functions std computes by less accurate formulas or lacks.
pub mod c {
    extern "C" {
        pub fn pthread_self() -> usize;
        pub fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
        pub fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
        pub fn acosh(x: f64) -> f64;
        pub fn asinh(x: f64) -> f64;
        pub fn atanh(x: f64) -> f64;
        pub fn exp10(x: f64) -> f64;
        pub fn sinh(x: f64) -> f64;
        pub fn cosh(x: f64) -> f64;
        pub fn tanh(x: f64) -> f64;
        pub fn sin(x: f64) -> f64;
        pub fn cos(x: f64) -> f64;
        pub fn tan(x: f64) -> f64;
        pub fn asin(x: f64) -> f64;
        pub fn acos(x: f64) -> f64;
        pub fn atan(x: f64) -> f64;
        pub fn atan2(y: f64, x: f64) -> f64;
        pub fn exp(x: f64) -> f64;
        pub fn exp2(x: f64) -> f64;
        pub fn pow(x: f64, y: f64) -> f64;
        pub fn log(x: f64) -> f64;
        pub fn log2(x: f64) -> f64;
        pub fn log10(x: f64) -> f64;
        pub fn cbrt(x: f64) -> f64;
        pub fn powf(x: f32, y: f32) -> f32;
    }
}

// ---- exact conversions of fixed-point words ----

/// Nearest fixed-point word of a float, None when it does not fit.
pub fn float_to_fx(v: f64, t: &Info) -> Option<i128> {
    if !v.is_finite() || v.abs() > 1e30 { return None; }
    let s = (v * exp2i(t.frac as i32)).round_ties_even();
    if s.abs() > 1e37 { return None; }
    let w = s as i128;
    if t.fits(w) { Some(w) } else { None }
}
/// The two fixed-point words around a float.
pub fn fx_neighbours(v: f64, t: &Info) -> (i128, i128) {
    let s = v * exp2i(t.frac as i32);
    (s.floor() as i128, s.ceil() as i128)
}
pub fn int_to_fx(v: i128, unsigned128: bool, t: &Info) -> Option<i128> {
    if unsigned128 && v < 0 { return None; }
    if v.unsigned_abs() >> 64 != 0 { return None; }
    let w = v << t.frac;
    if t.fits(w) { Some(w) } else { None }
}
pub fn fx_to_int(w: i128, from: &Info, to: &Info) -> Option<i128> {
    let v = w >> from.frac;
    if to.fits(v) { Some(v) } else { None }
}
pub fn fx_to_f64(w: i128, from: &Info) -> f64 {
    (if from.signed { w as i64 as f64 } else { w as u64 as f64 }) * exp2i(-(from.frac as i32))
}
pub fn fx_to_f32(w: i128, from: &Info) -> f32 {
    (if from.signed { w as i64 as f32 } else { w as u64 as f32 }) * exp2i(-(from.frac as i32)) as f32
}
