//! C30: complex and numeric code over exact user-supplied scalars.
use props::user::*;
use props::*;

type Z<T> = (T, T);
fn z<T: Exact>(p: Z<T>) -> Cartesian<T> { Cartesian { re: p.0, im: p.1 } }
fn nz<T: Exact>(p: Z<T>) -> num::Complex<T> { num::Complex { re: p.0, im: p.1 } }
fn p<T: Exact>(c: Cartesian<T>) -> Z<T> { (c.re, c.im) }
fn add<T: Exact>(a: Z<T>, b: Z<T>) -> Z<T> { (a.0 + b.0, a.1 + b.1) }
fn sub<T: Exact>(a: Z<T>, b: Z<T>) -> Z<T> { (a.0 - b.0, a.1 - b.1) }
fn mul<T: Exact>(a: Z<T>, b: Z<T>) -> Z<T> { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn norm<T: Exact>(a: Z<T>) -> T { a.0 * a.0 + a.1 * a.1 }

/// The failed comparison, if any.
fn run<T: Exact>(c: &[i128]) -> Option<String> {
    let m = |k: usize| T::make(c[k]);
    let (a, b, d, s, n) = ((m(0), m(1)), (m(2), m(3)), (m(4), m(5)), m(6), c[7] as usize);
    let zero = T::mixed_zero();
    macro_rules! same { ($name:expr, $got:expr, $want:expr) => { let (g, w) = ($got, $want); if g != w { return Some(format!("{} gives {g:?}, exact {w:?}", $name)) } } }
    macro_rules! forms { ($name:expr, $op:tt, $asg:tt, $want:expr) => {
        let w = $want;
        same!(concat!($name, " by value"), p(z(a) $op z(b)), w);
        same!(concat!($name, " by reference"), p(z(a) $op &z(b)), w);
        same!(concat!($name, " by mutable reference"), p(z(a) $op &mut z(b)), w);
    } }
    macro_rules! nforms { ($name:expr, $op:tt, $asg:tt, $want:expr) => {
        let w = $want;
        same!(concat!($name, " of num::Complex"), p(z(a) $op nz(b)), w);
        same!(concat!($name, " of num::Complex by reference"), p(z(a) $op &nz(b)), w);
        same!(concat!($name, " of num::Complex by mutable reference"), p(z(a) $op &mut nz(b)), w);
        macro_rules! asg { ($r:expr) => { { let mut x = z(a); x $asg $r; p(x) } } }
        same!(concat!($name, " assignment"), asg!(z(b)), w);
        same!(concat!($name, " assignment by reference"), asg!(&z(b)), w);
        same!(concat!($name, " assignment by mutable reference"), asg!(&mut z(b)), w);
        same!(concat!($name, " assignment of num::Complex"), asg!(nz(b)), w);
        same!(concat!($name, " assignment of num::Complex by reference"), asg!(&nz(b)), w);
    } }
    forms!("sum", +, +=, add(a, b));
    nforms!("sum", +, +=, add(a, b));
    same!("free sum", p(complex::add(z(a), z(b))), add(a, b));
    forms!("difference", -, -=, sub(a, b));
    nforms!("difference", -, -=, sub(a, b));
    same!("free difference", p(complex::sub(z(a), z(b))), sub(a, b));
    forms!("product", *, *=, mul(a, b));
    same!("free product", p(mul_cartesian(z(a), z(b))), mul(a, b));
    if norm(b) != zero {
        let r = norm(b);
        let q = (( a.0 * b.0 + a.1 * b.1) / r, (a.1 * b.0 - a.0 * b.1) / r);
        forms!("quotient", /, /=, q);
        nforms!("quotient", /, /=, q);
        same!("free quotient", p(div_cartesian(z(a), z(b))), q);
        same!("(a/b)*b", p(z(a) / z(b) * z(b)), a);
        same!("(a*b)/b", p(z(a) * z(b) / z(b)), a);
        same!("(a+d)/b", p((z(a) + z(d)) / z(b)), p(z(a) / z(b) + z(d) / z(b)));
    }
    same!("a*(b+d)", p(z(a) * (z(b) + z(d))), p(z(a) * z(b) + z(a) * z(d)));
    same!("(a*b)*d", p(z(a) * z(b) * z(d)), p(z(a) * (z(b) * z(d))));
    same!("a-b+b", p(z(a) - z(b) + z(b)), a);
    let conj = |x: Z<T>| -> Cartesian<T> { z(x).conj() };
    same!("conjugate", p(conj(a)), (a.0, -a.1));
    same!("conjugate of a product", p(conj(p(z(a) * z(b)))), p(conj(a) * conj(b)));
    same!("a times its conjugate", p(z(a) * conj(a)), (norm(a), zero));
    let pc: Polar<T> = Polar { mag: a.0, ang: a.1 }.conj();
    same!("polar conjugate", (pc.mag, pc.ang), (a.0, -a.1));
    same!("a + s", p(z(a) + s), (a.0 + s, a.1));
    same!("a - s", p(z(a) - s), (a.0 - s, a.1));
    same!("a * s", p(z(a) * s), (a.0 * s, a.1 * s));
    let mut x = z(a); x += s;
    same!("a += s", p(x), (a.0 + s, a.1));
    let mut x = z(a); x -= s;
    same!("a -= s", p(x), (a.0 - s, a.1));
    let want = if s == zero { (T::mixed_max_value(), T::mixed_max_value()) } else { (a.0 / s, a.1 / s) };
    same!("a / s", p(z(a) / s), want);
    same!("free a / s", p(div_scalar_cartesian(z(a), s)), want);
    let mut x = z(a); x /= s;
    same!("a /= s", p(x), want);
    // Polar numbers.
    let (pa, pb) = (Polar { mag: a.0, ang: a.1 }, Polar { mag: b.0, ang: b.1 });
    let want = if a.0 == zero || b.0 == zero { (zero, zero) } else { (a.0 * b.0, a.1 + b.1) };
    let r = pa * pb;
    same!("polar product", (r.mag, r.ang), want);
    let r = mul_polar(pa, pb);
    same!("free polar product", (r.mag, r.ang), want);
    let r = pa * s;
    same!("polar * s", (r.mag, r.ang), (a.0 * s, a.1));
    let r = pa / s;
    same!("polar / s", (r.mag, r.ang), (if s == zero { T::mixed_max_value() } else { a.0 / s }, a.1));
    // Conversions use the scalar's own functions.
    let polar = (norm(a).mixed_sqrt(), a.1.mixed_atan2(a.0));
    let r = z(a).to_polar();
    same!("polar form", (r.mag, r.ang), polar);
    same!("magnitude and argument", (z(a).mag(), z(a).arg()), polar);
    same!("free magnitude", complex::abs(z(a)), polar.0);
    let cart = (a.0 * a.1.mixed_cos(), a.0 * a.1.mixed_sin());
    same!("cartesian form", p(pa.to_cartesian()), cart);
    same!("product with a polar number", p(z(b) * pa), mul(b, cart));
    let mut x = z(b); x *= pa;
    same!("product assignment of a polar number", p(x), mul(b, cart));
    let mut x = z(b); x *= &pa;
    same!("product assignment of a polar number by reference", p(x), mul(b, cart));
    let bp = z(b).to_polar();
    let r = pa * z(b);
    same!("polar times cartesian", (r.mag, r.ang), if a.0 == zero || bp.mag == zero { (zero, zero) } else { (a.0 * bp.mag, a.1 + bp.ang) });
    let e = a.0.mixed_exp();
    same!("exponential", p(z(a).mixed_exp()), (e * a.1.mixed_cos(), e * a.1.mixed_sin()));
    // Integer powers.
    let mut w = T::mixed_one();
    for _ in 0..n { w = w * s }
    same!("integer power", trigonometry::powi(s, n), w);
    None
}

fn check(f: fn(&[i128]) -> Option<String>, c: &[i128]) -> Verdict {
    match guard(|| f(c)) {
        Ok(None) => pass(c[2..4].iter().any(|w| *w != 0) && c[..2].iter().any(|w| *w != 0), if c[6] == 0 { "scalar zero" } else { "scalar other than zero" }),
        Ok(Some(e)) => Verdict::Fail(e),
        Err(e) if e.starts_with(BIG) => Verdict::Skip("too large for the rationals"),
        Err(e) => Verdict::Fail(format!("panics: {e}")),
    }
}

fn main() {
    let mut subs = vec![];
    for (name, f, lo, hi, big, long) in [("prime field", run::<Gf> as fn(&[i128]) -> Option<String>, 0, P as i128 - 1, 40, 3000), ("rationals", run::<Q>, 0, 0xfff, 8, 1000)] {
        let w = move || mix(4, gen::range(lo, hi, vec![]), 1, gen::int(0, 2));
        subs.push(Sub::new(name, move |c| check(f, c)).show(move |c| format!("{name}: words {c:?}")).gen(150_000, 150_000 * DEEP, move || gen::words(vec![w(), w(), w(), w(), w(), w(), w(), mix(12, gen::int(0, big), 1, gen::int(0, long))])));
    }
    kit::main(Property {
        id: "C30",
        rule: "both operands non-zero",
        assumptions: &["two exact user scalars, the field of 2^31 - 1 elements and the rationals, stand for all", "the scalars' own functions are arbitrary affine ones"],
        subs,
        findings: vec![],
    })
}
