//! C21: decibel conversions.
use props::*;

#[derive(Clone, Copy)]
struct F {
    /// To decibel and back, one after the other, and the decibel value of the square as a power.
    to: fn(i128) -> [i128; 3],
    back: fn(i128) -> [i128; 2],
    k: f64,
}
fn mag_to<T: Sc + DbMag + DbPow + MixedOps>(w: i128) -> [i128; 3] {
    let x = T::v(w);
    let d = x.mixed_mag2db();
    [d.w(), d.mixed_db2mag().w(), (x * x).mixed_pow2db().w()]
}
fn pow_to<T: Sc + DbMag + DbPow + MixedOps>(w: i128) -> [i128; 3] {
    let x = T::v(w);
    let d = x.mixed_pow2db();
    [d.w(), d.mixed_db2pow().w(), d.w()]
}
fn mag_back<T: Sc + DbMag + DbPow>(w: i128) -> [i128; 2] {
    let x = T::v(w).mixed_db2mag();
    [x.w(), x.mixed_mag2db().w()]
}
fn pow_back<T: Sc + DbMag + DbPow>(w: i128) -> [i128; 2] {
    let x = T::v(w).mixed_db2pow();
    [x.w(), x.mixed_pow2db().w()]
}
fn ulp(i: &Info, x: f64) -> f64 { if i.kind == Kind::F32 { ulp32(x) } else { ulp64(x) } }
const LN10: f64 = std::f64::consts::LN_10;

fn check_to(i: Info, f: F, c: &[i128]) -> Verdict {
    let x = i.f(c[0]);
    let r = (f.to)(c[0]);
    if !(x > 0.0) {
        // The logarithm's own values.
        let d = i.f(r[0]);
        if x == 0.0 && d != f64::NEG_INFINITY || x != 0.0 && !d.is_nan() { fail!("{} gives {d:?} dB", i.show(c[0])) }
        return pass(false, "not positive");
    }
    let (d, back, sq) = (i.f(r[0]), i.f(r[1]), i.f(r[2]));
    let want = f.k * unsafe { libc::log10(x) };
    if x.is_infinite() {
        if d != x || back != x || sq != x { fail!("of infinity: {d}, back {back}, power of the square {sq}") }
        return pass(false, "infinite");
    }
    let e = (d - want).abs() / ulp(&i, want);
    if !(e <= 4.0) { fail!("{} gives {d:?} dB, should be {want:?}: {e:.2} units in the last place off", i.show(c[0])) }
    let sub = x < tiny(&i) / eps(&i);
    // Rounding of the decibel value and of its twentieth or tenth, seen through the exponential.
    let tol = (eps(&i) * (6.0 + LN10 / f.k * 4.0 * d.abs())) * x + if sub { ulp(&i, x) } else { 0.0 };
    let top = if i.kind == Kind::F32 { f32::MAX as f64 } else { f64::MAX };
    let eb = if back.is_infinite() { if back > 0.0 && x * (1.0 - eps(&i) * (6.0 + LN10 / f.k * 4.0 * d.abs())) < top && x > top * (1.0 - 1e-4) { 0.0 } else { f64::NAN } } else { (back - x).abs() };
    if !(eb <= tol) { fail!("{} gives {d:?} dB and back {back:?}: {eb:e} off, allowed {tol:e}", i.show(c[0])) }
    let x2 = x * x;
    if x2 < top / 2.0 && x2 > tiny(&i) / eps(&i) * 4.0 {
        let t = 8.0 * ulp(&i, d) + 10.0 / LN10 * eps(&i);
        if !((sq - d).abs() <= t) { fail!("{} gives {d:?} dB, its square as a power {sq:?} dB", i.show(c[0])) }
    }
    pass_r(d != 0.0, if d < 0.0 { "below 0 dB" } else { "above 0 dB" }, (e / 4.0).max(eb / tol))
}

fn check_back(i: Info, f: F, c: &[i128]) -> Verdict {
    let d = i.f(c[0]);
    let r = (f.back)(c[0]);
    let (x, back) = (i.f(r[0]), i.f(r[1]));
    if d.is_nan() { return if x.is_nan() { pass(false, "not a number") } else { Verdict::Fail(format!("of NaN: {x}")) } }
    // 10^(d/k) with the remainder of the quotient.
    let q = DD::new(d.clamp(-1e5, 1e5)).div(DD::new(f.k));
    let want = unsafe { libc::exp10(q.hi) } * (1.0 + q.lo * LN10);
    let top = if i.kind == Kind::F32 { f32::MAX as f64 } else { f64::MAX };
    let rel = (eps(&i) * (8.0 + LN10 * (d / f.k).abs())).min(0.1);
    if d.is_infinite() {
        if x != want { fail!("of {d}: {x}") }
        return pass(false, "infinite");
    }
    if want > top * (1.0 - rel) {
        if !(x >= top * (1.0 - 2.0 * rel)) { fail!("{} gives {x:?}, should be {want:?}", i.show(c[0])) }
        return pass(false, "overflow");
    }
    let tol = rel * want + if want < tiny(&i) / eps(&i) { 2.0 * ulp(&i, want) } else { 0.0 };
    let e = (x - want).abs();
    if !(e <= tol) { fail!("{} dB gives {x:?}, should be {want:?}: {e:e} off, allowed {tol:e}", i.show(c[0])) }
    if x > 2.0 * tiny(&i) / eps(&i) {
        let t = f.k / LN10 * (tol / want) + 4.0 * ulp(&i, d);
        if !((back - d).abs() <= t) { fail!("{} dB gives {x:?} and back {back:?} dB, allowed {t:e} off", i.show(c[0])) }
    }
    pass_r(d != 0.0 && want > 0.0, if d < 0.0 { "below 0 dB" } else { "above 0 dB" }, e / tol)
}

fn reg(i: Info, name: &str, f: F, subs: &mut Vec<Sub>) {
    // All words, negative ones included.
    let cover = move |k, c: &mut Case| c.push(if i.kind == Kind::F32 { floatfn::cover32(k) } else { floatfn::cover64(k) });
    let positive = move || {
        let a = gen::any_word(&i).prop_map(move |w| if i.kind == Kind::F32 { w & 0x7fff_ffff } else { w & i64::MAX as i128 }).boxed();
        let near = gen::float_range(&i, 0.5, 2.0, vec![1.0]);
        gen::words(vec![mix(3, a, 1, near)])
    };
    let db = move || {
        let (lo, hi) = if i.kind == Kind::F32 { (-950.0, 790.0) } else { (-6600.0, 6300.0) };
        let tens = (-60i32..60, 0usize..3).prop_map(move |(k, s)| i.w(k as f64 * [1.0, 10.0, 20.0][s])).boxed();
        gen::words(vec![mix(2, mix(1, gen::float_range(&i, lo, hi, vec![]), 1, gen::float_range(&i, -40.0, 40.0, vec![])), 1, mix(1, gen::any_word(&i), 1, tens))])
    };
    subs.push(Sub::new(format!("{name} to decibel {}", i.name), move |c| check_to(i, f, c)).show(show_words(i)).gen(100_000, 300_000 * DEEP, positive).sweep(1 << 24, cover).deep(1 << 28));
    subs.push(Sub::new(format!("{name} from decibel {}", i.name), move |c| check_back(i, f, c)).show(show_words(i)).gen(100_000, 300_000 * DEEP, db).sweep(1 << 24, cover).deep(1 << 28));
}

fn main() {
    let mut subs = vec![];
    macro_rules! r { ($t:ty) => {
        reg(<$t as Sc>::I, "magnitude", F { to: mag_to::<$t>, back: mag_back::<$t>, k: 20.0 }, &mut subs);
        reg(<$t as Sc>::I, "power", F { to: pow_to::<$t>, back: pow_back::<$t>, k: 10.0 }, &mut subs);
    } }
    r!(f32);
    r!(f64);
    kit::main(Property {
        id: "C21",
        rule: "decibel value other than 0",
        assumptions: &["reference: glibc log10 and exp10 in double precision, itself within a unit in the last place"],
        subs,
        findings: vec![],
    })
}
