//! C15: constants and limits.
use props::*;

/// Constants: zero, one, maximum, minimum, and pi and tau where they do not panic.
struct K { zero: i128, one: i128, max: i128, min: i128, pi: Option<i128>, tau: Option<i128> }
type F = fn() -> K;
fn constants<T: Sc + MixedReal + MixedZero + MixedOne>() -> K {
    K { zero: T::mixed_zero().w(), one: T::mixed_one().w(), max: T::mixed_max_value().w(), min: T::mixed_min_value().w(), pi: None, tau: None }
}
fn with_pi<T: Sc + MixedReal + MixedConsts>() -> K {
    K { pi: guard(|| T::mixed_pi().w()).ok(), tau: guard(|| T::mixed_tau().w()).ok(), ..constants::<T>() }
}
/// x+0, 0+x, x-0, x*1, 1*x, x/1.
type G = fn(i128) -> [i128; 6];
fn identities<T: Sc + MixedReal + MixedOps + MixedZero + MixedOne>(w: i128) -> [i128; 6] {
    let (x, o, e) = (T::v(w), T::mixed_zero(), T::mixed_one());
    [(x + o).w(), (o + x).w(), (x - o).w(), (x * e).w(), (e * x).w(), (x / e).w()]
}
const LAWS: [&str; 6] = ["x+0", "0+x", "x-0", "x*1", "1*x", "x/1"];
type P = (i128, i128);
type C = fn(P) -> ([P; 6], P);
fn complex<T: Arith>(z: P) -> ([P; 6], P) {
    let c = cv::<T>(z.0, z.1);
    let p = pv::<T>(z.0, z.1);
    let (o, e) = (Cartesian::<T>::mixed_zero(), Cartesian::<T>::mixed_one());
    let pe = Polar::<T>::mixed_one();
    ([cw(c + o), cw(o + c), cw(c - o), cw(c * e), cw(e * c), pw(pe * p)], pw(Polar::<T>::mixed_zero() * p))
}
const CLAWS: [&str; 6] = ["z+0", "0+z", "z-0", "z*1", "1*z", "1*p in polar form"];

fn value_same(i: &Info, a: i128, b: i128) -> bool { same(i, a, b) || (i.is_float() && i.f(a) == i.f(b)) }
fn check_constants(i: Info, f: F, has_pi: bool) -> Verdict {
    let k = match guard(f) { Ok(k) => k, Err(e) => fail!("panics: {e}") };
    let (max, min) = match i.kind {
        Kind::F32 => (f32::MAX.w(), f32::MIN.w()),
        Kind::F64 => (f64::MAX.w(), f64::MIN.w()),
        _ => (if i.bits == 128 && !i.signed { -1 } else { i.max() }, i.min()),
    };
    let one = match i.kind { Kind::F32 => 1f32.w(), Kind::F64 => 1f64.w(), _ => i.one() };
    for (n, got, want) in [("zero", k.zero, 0), ("one", k.one, one), ("maximum", k.max, max), ("minimum", k.min, min)] {
        if got != want { fail!("{n} is {}, expected {}", i.show(got), i.show(want)) }
    }
    if !has_pi { return pass(true, "constants") }
    for (n, got, want) in [("pi", k.pi, PI_DD), ("tau", k.tau, PI_DD.times(2.0))] {
        let room = if i.is_float() { huge(&i) } else { i.maxf() };
        if want.f() >= room { continue }
        let Some(w) = got else { fail!("{n} panics") };
        // Half a resolution step, and half a unit of double precision where that is coarser.
        let tol = if i.kind == Kind::F32 { 0.5 * ulp32(want.f()) } else if i.kind == Kind::F64 { 0.5 * ulp64(want.f()) } else { 0.5 * i.ulp() + 0.5 * ulp64(want.f()) };
        let e = off(&i, w, want);
        if !(e <= tol * 1.0001) { fail!("{n} is {}, {e:.3e} off, allowed {tol:.3e}", i.show(w)) }
    }
    pass(true, "constants with pi")
}
fn check_identities(i: Info, g: G, c: &[i128]) -> Verdict {
    if i.f(c[0]).is_nan() { return Verdict::Skip("NaN") }
    let r = match guard(|| g(c[0])) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    for k in 0..6 { if !value_same(&i, r[k], c[0]) { fail!("{} is {}", LAWS[k], i.show(r[k])) } }
    pass(c[0] != 0, "real identities")
}
fn check_complex(i: Info, f: C, c: &[i128]) -> Verdict {
    let z = (c[0], c[1]);
    if !i.f(z.0).is_finite() || !i.f(z.1).is_finite() { return Verdict::Skip("not finite") }
    let (r, zero) = match guard(|| f(z)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    for k in 0..6 {
        let want = if k == 5 && i.f(z.0) == 0.0 { (0, 0) } else { z };
        if !value_same(&i, r[k].0, want.0) || !value_same(&i, r[k].1, want.1) { fail!("{} is {} for {}", CLAWS[k], show2(&i, r[k]), show2(&i, z)) }
    }
    if i.f(zero.0) != 0.0 || i.f(zero.1) != 0.0 { fail!("polar zero times {} is {}", show2(&i, z), show2(&i, zero)) }
    pass(i.f(z.0) != 0.0 && i.f(z.1) != 0.0, "complex identities")
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, g: G, c: Option<C>, has_pi: bool, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 3_000 } else { 50_000 };
        out.push(Sub::new(format!("constants {}", i.name), move |_| check_constants(i, f, has_pi)).fixed(vec![vec![0]]));
        let s = Sub::new(format!("identities {}", i.name), move |c| check_identities(i, g, c)).show(show_words(i));
        out.push(if i.bits <= 8 { s.sweep(1 << i.bits, move |k, c| c.push(i.min() + k as i128)) } else { s.gen(n, n * DEEP, move || gen::words(vec![gen::any_word(&i)])) });
        if let Some(f) = c {
            let s = Sub::new(format!("complex identities {}", i.name), move |c| check_complex(i, f, c)).show(show_words(i));
            // The unit must not take the products out of the type: x*1 fits whenever x does.
            out.push(s.gen(n, n * DEEP, move || gen::words(vec![gen::any_word(&i), gen::any_word(&i)])));
        }
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, with_pi::<$t>, identities::<$t>, Some(complex::<$t>), true, &mut subs) } }
    signed_reals!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, with_pi::<$t>, identities::<$t>, None, true, &mut subs) } }
    unsigned_fixed!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, constants::<$t>, identities::<$t>, Some(complex::<$t>), false, &mut subs) } }
    signed_int!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, constants::<$t>, identities::<$t>, None, false, &mut subs) } }
    unsigned_int!(reg);
    kit::main(Property {
        id: "C15",
        rule: "a constant, or a non-zero operand of an identity",
        assumptions: &["pi and tau only where the type can hold them", "signed zeros count as equal"],
        subs,
        findings: vec![],
    })
}
