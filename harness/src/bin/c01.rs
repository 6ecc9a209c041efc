//! C01: sums, differences and products of cartesian numbers, every form.
use props::*;

type P = (i128, i128);
struct Ops {
    i: Info,
    add: fn(&[i128]) -> Vec<P>,
    sub: fn(&[i128]) -> Vec<P>,
    mul: fn(&[i128]) -> Vec<P>,
    /// The scalar's own a+b, a-b.
    nadd: fn(i128, i128) -> i128,
    nsub: fn(i128, i128) -> i128,
}
const ADD_FORMS: &[&str] = &["a+b", "a+&b", "a+&mut b", "a+num::Complex", "a+&num::Complex", "a+&mut num::Complex", "add(a,b)"];
const SUB_FORMS: &[&str] = &["a-b", "a-&b", "a-&mut b", "a-num::Complex", "a-&num::Complex", "a-&mut num::Complex", "sub(a,b)"];
const MUL_FORMS: &[&str] = &["a*b", "a*&b", "a*&mut b", "mul_cartesian(a,b)"];

fn adds<T: Arith>(c: &[i128]) -> Vec<P> {
    let (a, mut b) = (cv::<T>(c[0], c[1]), cv::<T>(c[2], c[3]));
    let mut n = num::Complex { re: b.re, im: b.im };
    let f = [a + b, a + &b, a + &mut b, a + n, a + &n, a + &mut n, add(a, b)];
    f.iter().map(|z| cw(*z)).collect()
}
fn subs<T: Arith>(c: &[i128]) -> Vec<P> {
    let (a, mut b) = (cv::<T>(c[0], c[1]), cv::<T>(c[2], c[3]));
    let mut n = num::Complex { re: b.re, im: b.im };
    let f = [a - b, a - &b, a - &mut b, a - n, a - &n, a - &mut n, sub(a, b)];
    f.iter().map(|z| cw(*z)).collect()
}
fn muls<T: Arith>(c: &[i128]) -> Vec<P> {
    let (a, mut b) = (cv::<T>(c[0], c[1]), cv::<T>(c[2], c[3]));
    let f = [a * b, a * &b, a * &mut b, mul_cartesian(a, b)];
    f.iter().map(|z| cw(*z)).collect()
}
/// Unsigned parts: only the free function adds them.
fn adds_unsigned<T: Sc + MixedNum + MixedOps>(c: &[i128]) -> Vec<P> { vec![cw(add(cv::<T>(c[0], c[1]), cv::<T>(c[2], c[3])))] }
impl Ops {
    fn of<T: Arith>() -> Ops {
        Ops {
            i: T::I,
            add: adds::<T>,
            sub: subs::<T>,
            mul: muls::<T>,
            nadd: |a, b| (T::v(a) + T::v(b)).w(),
            nsub: |a, b| (T::v(a) - T::v(b)).w(),
        }
    }
}

fn agree(i: &Info, forms: &[&str], r: &[P]) -> Option<String> {
    for k in 1..r.len() {
        if !same2(i, r[0], r[k]) {
            return Some(format!("{} gives {} but {} gives {}", forms[0], show2(i, r[0]), forms[k], show2(i, r[k])));
        }
    }
    None
}

fn check_sum(i: Info, c: &[i128], minus: bool, f: fn(&[i128]) -> Vec<P>, n: fn(i128, i128) -> i128) -> Verdict {
    let forms = if minus { SUB_FORMS } else { ADD_FORMS };
    let want;
    if i.is_float() {
        want = (n(c[0], c[2]), n(c[1], c[3]));
    } else {
        let s = if minus { -1 } else { 1 };
        let (Some(x), Some(y)) = (c[2].checked_mul(s).and_then(|v| v.checked_add(c[0])), c[3].checked_mul(s).and_then(|v| v.checked_add(c[1]))) else {
            return Verdict::Skip("sum not representable");
        };
        want = (x, y);
        if !i.fits(want.0) || !i.fits(want.1) { return Verdict::Skip("sum not representable"); }
    }
    let r = f(c);
    if let Some(m) = agree(&i, forms, &r) { fail!("{m}") }
    if !same2(&i, r[0], want) {
        fail!("{} gives {}, exact componentwise result is {}", forms[0], show2(&i, r[0]), show2(&i, want))
    }
    let nt = c[1] != c[0] && c[2] != c[3] && c.iter().all(|w| *w != 0);
    pass(nt, if minus { "difference" } else { "sum" })
}

fn check_mul(i: Info, c: &[i128], f: fn(&[i128]) -> Vec<P>) -> Verdict {
    let nt = c.iter().all(|w| i.f(*w) != 0.0) && c[0] != c[1] && c[2] != c[3];
    if i.is_float() {
        let r = f(c);
        if let Some(m) = agree(&i, MUL_FORMS, &r) { fail!("{m}") }
        let v: Vec<f64> = c.iter().map(|w| i.f(*w)).collect();
        let mut worst = 0.0f64;
        for (part, (p, q, minus)) in [((v[0], v[2]), (v[1], v[3]), true), ((v[0], v[3]), (v[1], v[2]), false)].iter().enumerate() {
            let m = (p.0 * p.1).abs() + (q.0 * q.1).abs();
            if !(m < huge(&i) / 2.0) { return Verdict::Skip("product not representable"); }
            if i.kind == Kind::F64 && m != 0.0 && m < 1e-280 { return Verdict::Skip("reference underflows"); }
            let a = DD::prod(p.0, p.1);
            let b = DD::prod(q.0, q.1);
            let want = if *minus { a.sub(b) } else { a.add(b) };
            let got = i.f(if part == 0 { r[0].0 } else { r[0].1 });
            let tol = 1.01 * eps(&i) * m + 4.0 * tiny(&i);
            let err = want.err(got);
            if !(err <= tol) { fail!("part {part} of {} is {got:?}, exact {:?} (error {err:e}, allowed {tol:e})", show2(&i, r[0]), want.f()) }
            worst = worst.max(err / tol);
        }
        return pass_r(nt, "product, float", worst);
    }
    // Integer and fixed point: the result lies between the floors and ceilings of the exact partial products.
    let mut lim = [(0i128, 0i128); 2];
    for (k, (p, q, minus)) in [((0, 2), (1, 3), true), ((0, 3), (1, 2), false)].iter().enumerate() {
        let (Some(x), Some(y)) = (c[p.0].checked_mul(c[p.1]), c[q.0].checked_mul(c[q.1])) else { return Verdict::Skip("product not representable") };
        let (xl, xh, yl, yh) = (fl(x, i.frac), cl(x, i.frac), fl(y, i.frac), cl(y, i.frac));
        if ![xl, xh, yl, yh].iter().all(|w| i.fits(*w)) { return Verdict::Skip("product not representable"); }
        let (Some(lo), Some(hi)) = (if *minus { (xl.checked_sub(yh), xh.checked_sub(yl)) } else { (xl.checked_add(yl), xh.checked_add(yh)) }) else {
            return Verdict::Skip("product not representable");
        };
        if !i.fits(lo) || !i.fits(hi) { return Verdict::Skip("product not representable"); }
        lim[k] = (lo, hi);
    }
    let r = f(c);
    if let Some(m) = agree(&i, MUL_FORMS, &r) { fail!("{m}") }
    for (part, got) in [(0, r[0].0), (1, r[0].1)] {
        if got < lim[part].0 || got > lim[part].1 {
            fail!("part {part} of {} outside the exact range {} ..= {}", show2(&i, r[0]), i.show(lim[part].0), i.show(lim[part].1))
        }
    }
    pass(nt, if i.kind == Kind::Int { "product, integer" } else { "product, fixed" })
}

fn register(o: Ops, out: &mut Vec<Sub>) {
    let i = o.i;
    let n = if i.kind == Kind::Fx { 12_000 } else { 100_000 };
    let (a, na) = (o.add, o.nadd);
    let any4 = move || gen::related(&i, &[0, 1, 2, 3], gen::words((0..4).map(|_| mix(2, factor(&i), 1, gen::any_word(&i))).collect()));
    out.push(Sub::new(format!("add {}", i.name), move |c| check_sum(i, c, false, a, na)).gen(n, n * DEEP, any4).show(show_words(i)));
    let (s, ns) = (o.sub, o.nsub);
    out.push(Sub::new(format!("sub {}", i.name), move |c| check_sum(i, c, true, s, ns)).gen(n, n * DEEP, any4).show(show_words(i)));
    let m = o.mul;
    out.push(
        Sub::new(format!("mul {}", i.name), move |c| check_mul(i, c, m))
            .gen(2 * n, 2 * n * DEEP, move || gen::related(&i, &[0, 1, 2, 3], gen::words((0..4).map(|_| factor(&i)).collect())))
            .show(show_words(i)),
    );
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { register(Ops::of::<$t>(), &mut subs) } }
    signed_reals!(reg);
    signed_int!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => {{
        let i = <$t as Sc>::I;
        // Words above i128::MAX do not add here.
        if i.bits < 128 {
            subs.push(Sub::new(format!("add {}", i.name), move |c| check_sum(i, c, false, adds_unsigned::<$t>, |a, b| (<$t>::v(a) + <$t>::v(b)).w()))
                .gen(4_000, 4_000 * DEEP, move || gen::words((0..4).map(|_| mix(2, factor(&i), 1, gen::any_word(&i))).collect())).show(show_words(i)));
        }
    }} }
    unsigned_fixed!(reg);
    unsigned_int!(reg);
    kit::main(Property {
        id: "C01",
        rule: "sum/difference/product representable, all four components non-zero, real and imaginary part of each operand different",
        assumptions: &["float products are compared with the exact product in double-double arithmetic; operands of magnitude 2^-200..2^200 (f32: 2^-30..2^30)"],
        subs,
        findings: vec![],
    })
}
