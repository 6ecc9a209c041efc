//! C31: one generic program over every signed real type.
use props::*;

const INPUTS: usize = 4;
const OPS: [&str; 25] = ["add", "sub", "mul", "div", "neg", "abs", "sign", "wrap", "sin", "cos", "atan2", "sqrt", "complex product", "magnitude", "argument",
    "through f64", "exp", "to cartesian", "sincos", "asin", "acos", "square", "polynomial sin", "polynomial atan2", "complex quotient"];
/// An operation word: code, two register numbers.
fn op(w: i128, n: usize) -> (usize, usize, usize) {
    let w = w as usize;
    (w % OPS.len(), w / 32 % n, w / 1024 % n)
}
fn input(w: i128) -> f64 { w as f64 / 4096.0 }

/// The program as a user writes it, once for all types.
fn program<T: Sgn>(c: &[i128], steps: usize) -> Vec<i128> {
    let mut r: Vec<T> = c[..INPUTS].iter().map(|w| T::mixed_from_num(input(*w))).collect();
    for w in &c[INPUTS..INPUTS + steps] {
        let (k, i, j) = op(*w, r.len());
        let (a, b) = (r[i], r[j]);
        let z = Cartesian::new(a, b);
        match k {
            0 => r.push(a + b),
            1 => r.push(a - b),
            2 => r.push(a * b),
            3 => r.push(a / b),
            4 => r.push(-a),
            5 => r.push(a.mixed_abs()),
            6 => r.push(a.mixed_sign()),
            7 => r.push(a.mixed_wrap_phase()),
            8 => r.push(a.mixed_sin()),
            9 => r.push(a.mixed_cos()),
            10 => r.push(a.mixed_atan2(b)),
            11 => r.push(a.mixed_abs().mixed_sqrt()),
            12 => { let p = z * Cartesian::new(r[(i + 1) % r.len()], r[(j + 2) % r.len()]); r.push(p.re); r.push(p.im) }
            13 => r.push(z.mag()),
            14 => r.push(z.arg()),
            15 => { let x: f64 = a.mixed_to_num(); r.push(T::mixed_from_num(x)) }
            16 => r.push(a.mixed_exp()),
            17 => { let p = Polar::new(a, b).to_cartesian(); r.push(p.re); r.push(p.im) }
            18 => { let (s, c) = a.mixed_sincos(); r.push(s); r.push(c) }
            19 => r.push(a.mixed_asin()),
            20 => r.push(a.mixed_acos()),
            21 => r.push(a.mixed_powi(2)),
            22 => r.push(trigonometry::sin(a.mixed_wrap_phase())),
            23 => r.push(a.mixed_atan2_poly(b)),
            _ => { let p = z / Cartesian::new(r[(i + 1) % r.len()], r[(j + 2) % r.len()]); r.push(p.re); r.push(p.im) }
        }
    }
    r.into_iter().map(|x| x.w()).collect()
}

/// An exact value and the error a type may have accumulated in it.
#[derive(Clone, Copy, Debug)]
struct X { v: DD, e: f64 }
fn x(v: DD, e: f64) -> X { X { v, e } }

fn add(i: &Info, a: X, b: X) -> X { let v = a.v.add(b.v); x(v, a.e + b.e + if i.is_float() { res(i, v.hi) } else { 0.0 }) }
fn neg(a: X) -> X { x(a.v.neg(), a.e) }
fn mul(i: &Info, a: X, b: X) -> Option<X> {
    let v = a.v.mul(b.v);
    fits(i, x(v, a.v.hi.abs() * b.e + b.v.hi.abs() * a.e + a.e * b.e + res(i, v.hi)))
}
fn div(i: &Info, a: X, b: X) -> Option<X> {
    if b.v.hi.abs() < 4.0 * b.e || b.v.hi.abs() < 0.05 { return None }
    let v = a.v.div(b.v);
    fits(i, x(v, (a.e + v.hi.abs() * b.e) / (b.v.hi.abs() - b.e) + 2.0 * res(i, v.hi)))
}
fn fits(i: &Info, a: X) -> Option<X> {
    if a.v.hi.abs() + a.e < 0.45 * top(i).min(1e30) && a.e < 0.25 { Some(a) } else { None }
}
fn sqrt(i: &Info, a: X) -> Option<X> {
    let s = a.v.abs().sqrt();
    let lo = (s.hi * s.hi - a.e).max(0.0).sqrt();
    let hi = (s.hi * s.hi + a.e).sqrt();
    // The type's root of a neighbouring argument.
    let f = |m2: f64| if m2 == 0.0 { 0.0 } else { mag_err(i, m2) };
    fits(i, x(s, (hi - s.hi).max(s.hi - lo) * 1.0001 + f(hi * hi).max(f(lo * lo)) + res(i, hi)))
}
fn sin(i: &Info, a: X) -> (X, X) {
    let (s, c) = a.v.sin_cos();
    let h = (a.v.hi.abs() / PI).floor() + 1.0;
    let e = if i.is_float() { a.e + 4.0 * eps(i) } else { a.e + (sincos_tol(i) + if h > 1.0 { h } else { 0.0 }) * i.ulp() };
    (x(s, e), x(c, e))
}
fn wrap(i: &Info, a: X) -> Option<X> {
    let k = ((a.v.hi + PI) / (2.0 * PI)).floor();
    let e = a.e + k.abs() * 2.0 * if i.is_float() { 2.0 * eps(i) } else { i.ulp().max(1.3e-16) } + if i.is_float() { res(i, a.v.hi) } else { 0.0 };
    let v = a.v.sub(PI_DD.times(2.0 * k));
    // The cut is exact only for the type's own pi.
    if PI - v.hi.abs() < 2.0 * e + 2.0 * res(i, PI) { return None }
    fits(i, x(v, e))
}
fn angle(i: &Info, y: X, xx: X, own: f64) -> Option<X> {
    let r = y.v.hi.hypot(xx.v.hi);
    let e = y.e + xx.e;
    if r < 8.0 * e || r == 0.0 { return None }
    if xx.v.hi < 2.0 * xx.e && y.v.hi.abs() <= 2.0 * y.e { return None }
    fits(i, x(DD::atan2(y.v, xx.v), 1.2 * e / (r - e) + own))
}
fn cmul(i: &Info, a: (X, X), b: (X, X)) -> Option<(X, X)> {
    let (p, q, r, s) = (mul(i, a.0, b.0)?, mul(i, a.1, b.1)?, mul(i, a.0, b.1)?, mul(i, a.1, b.0)?);
    Some((fits(i, add(i, p, neg(q)))?, fits(i, add(i, r, s))?))
}

/// The reference run; ends before the first step that some type may not be able to take.
fn reference(i: &Info, c: &[i128]) -> (Vec<X>, usize, u32) {
    let mut r: Vec<X> = c[..INPUTS].iter().map(|w| { let v = input(*w); x(DD::new(v), if i.is_float() { eps(i) * v.abs() } else { 0.5 * i.ulp() }) }).collect();
    let mut functions = 0;
    for (n, w) in c[INPUTS..].iter().enumerate() {
        let (k, ia, ib) = op(*w, r.len());
        let (a, b) = (r[ia], r[ib]);
        let other = (r[(ia + 1) % r.len()], r[(ib + 2) % r.len()]);
        let fixed = !i.is_float();
        let one = |v: Option<X>| v.map(|v| vec![v]);
        let two = |v: Option<(X, X)>| v.map(|v| vec![v.0, v.1]);
        let poly_ulps = |u: f64| u * res(i, 1.0);
        let step = || -> Option<Vec<X>> { match k {
            0 => one(fits(i, add(i, a, b))),
            1 => one(fits(i, add(i, a, neg(b)))),
            2 => one(mul(i, a, b)),
            3 => one(div(i, a, b)),
            4 => one(Some(neg(a))),
            5 => one(Some(x(a.v.abs(), a.e))),
            6 => if a.v.hi.abs() <= a.e { None } else { one(Some(x(DD::new(a.v.hi.signum()), 0.0))) },
            7 => one(wrap(i, a)),
            8 => one(fits(i, sin(i, a).0)),
            9 => one(fits(i, sin(i, a).1)),
            10 => one(angle(i, a, b, arg_err(i))),
            11 => one(sqrt(i, a)),
            12 => two(cmul(i, (a, b), other)),
            13 => { let s = fits(i, add(i, mul(i, a, a)?, mul(i, b, b)?))?; one(sqrt(i, s)) }
            14 => one(angle(i, b, a, arg_err(i))),
            15 => one(Some(x(a.v, a.e + if fixed { i.ulp() * dbl(i) + 1.2e-16 * (a.v.hi.abs() + a.e) } else { 0.0 }))),
            16 => {
                if a.v.hi + a.e > 3.0 || a.e > 0.05 { return None }
                let v = a.v.exp();
                one(fits(i, x(v, v.hi * 1.1 * a.e + if fixed { 1.1 * exp_tol(i, a.v.hi + a.e, v.hi) * i.ulp() } else { 4.0 * eps(i) * v.hi + tiny(i) })))
            }
            17 => {
                let w = wrap(i, b)?;
                let (s, c) = sin(i, w);
                two(Some((mul(i, a, c)?, mul(i, a, s)?)))
            }
            18 => { let (s, c) = sin(i, a); two(Some((fits(i, s)?, fits(i, c)?))) }
            19 | 20 => {
                let m = a.v.hi.abs() + a.e;
                if m > 0.98 { return None }
                let v = a.v.acos();
                let v = if k == 20 { v } else { HALF_PI_DD.sub(v) };
                one(fits(i, x(v, a.e / (1.0 - m * m).sqrt() + if fixed { (acos_tol(i) + 1.0) * i.ulp() } else { 4.0 * eps(i) * 2.0 })))
            }
            21 => one(mul(i, a, a)),
            22 => { let w = wrap(i, a)?; one(fits(i, x(w.v.sin(), w.e + 4e-6 + poly_ulps(8.0)))) }
            23 => { if fixed && (a.v.hi.abs() < 8.0 * a.e || b.v.hi.abs() < 8.0 * b.e) { return None } one(angle(i, a, b, 0.29 * PI / 180.0 + poly_ulps(4.0))) }
            _ => {
                let (p, q) = other;
                let n = fits(i, add(i, mul(i, p, p)?, mul(i, q, q)?))?;
                let s = cmul(i, (a, b), (p, neg(q)))?;
                two(Some((div(i, s.0, n)?, div(i, s.1, n)?)))
            }
        } };
        match step() {
            Some(v) => r.extend(v),
            None => return (r, n, functions),
        }
        if (7..=11).contains(&k) || k >= 13 && k != 15 { functions += 1 }
    }
    (r, c.len() - INPUTS, functions)
}

fn check(i: Info, f: fn(&[i128], usize) -> Vec<i128>, c: &[i128]) -> Verdict {
    let (want, steps, functions) = reference(&i, c);
    let got = match guard(|| f(c, steps)) { Ok(r) => r, Err(e) => fail!("step {steps} or earlier panics: {e}") };
    let mut worst = 0.0f64;
    for (n, (g, w)) in got.iter().zip(&want).enumerate() {
        let e = off(&i, *g, w.v);
        // The reference is good to about 100 bits of moderate values.
        let tol = w.e * 1.05 + 1e-25;
        if !(e <= tol) { fail!("register {n} is {}, exact {}: {e:e} off, allowed {tol:e}", i.show(*g), w.v.f()) }
        worst = worst.max(e / tol);
    }
    pass_r(steps >= 2 && functions >= 1, match steps { 0 | 1 => "short", 2..=5 => "2 to 5 steps", 6..=9 => "6 to 9 steps", _ => "10 steps and more" }, worst)
}
fn show(i: Info, c: &[i128]) -> String {
    let mut n = INPUTS;
    let mut s = format!("{}: {}", i.name, c[..INPUTS].iter().map(|w| format!("{}", input(*w))).collect::<Vec<_>>().join(", "));
    for w in &c[INPUTS..] {
        let (k, a, b) = op(*w, n);
        s += &format!("; {} r{a} r{b}", OPS[k]);
        n += if [12, 17, 18, 24].contains(&k) { 2 } else { 1 };
    }
    s
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: fn(&[i128], usize) -> Vec<i128>, out: &mut Vec<Sub>) {
        if !i.is_float() && (i.frac < 6 || i.bits - i.frac < 4) { return }
        let n = if i.is_float() { 60_000 } else { 6_000 };
        out.push(Sub::new(i.name, move |c| check(i, f, c)).show(move |c| show(i, c)).gen(n, n * DEEP, || {
            let inp = || mix(3, gen::int(-4 * 4096, 4 * 4096), 1, (-8i128..=8).prop_map(|k| k * 2048).boxed());
            (gen::words(vec![inp(), inp(), inp(), inp()]), kit::vec_of((0i128..25, 0i128..32, 0i128..32).prop_map(|(k, a, b)| k_word(k, a, b)), 1, 14))
                .prop_map(|(mut v, o)| { v.extend(o); v }).boxed()
        }));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, program::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C31",
        rule: "at least two steps, one of them a function",
        assumptions: &["reference: double-double arithmetic with a running error bound per type, built from the accuracies of C22 to C28", "a program ends before a step whose result may not be representable or hangs on a rounding"],
        subs,
        findings: vec![],
    })
}
/// A word with the given code modulo 25 and register numbers.
fn k_word(k: i128, a: i128, b: i128) -> i128 {
    let base = a * 32 + b * 1024;
    base + (k - base % 25).rem_euclid(25)
}
