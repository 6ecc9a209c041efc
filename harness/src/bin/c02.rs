//! C02: complex division, every form.
use props::*;

type P = (i128, i128);
const FORMS: &[&str] = &["a/b", "a/&b", "a/&mut b", "a/num::Complex", "a/&num::Complex", "a/&mut num::Complex", "div_cartesian(a,b)",
    "a/=b", "a/=&b", "a/=&mut b", "a/=num::Complex", "a/=&num::Complex", "a/=&mut num::Complex"];

fn divs<T: Arith>(c: &[i128]) -> Vec<P> {
    let (a, mut b) = (cv::<T>(c[0], c[1]), cv::<T>(c[2], c[3]));
    let mut n = num::Complex { re: b.re, im: b.im };
    let mut f = vec![a / b, a / &b, a / &mut b, a / n, a / &n, a / &mut n, div_cartesian(a, b)];
    let mut z = a; z /= b; f.push(z);
    let mut z = a; z /= &b; f.push(z);
    let mut z = a; z /= &mut b; f.push(z);
    let mut z = a; z /= n; f.push(z);
    let mut z = a; z /= &n; f.push(z);
    let mut z = a; z /= &mut n; f.push(z);
    f.iter().map(|z| cw(*z)).collect()
}

fn check(i: Info, c: &[i128], f: fn(&[i128]) -> Vec<P>) -> Verdict {
    let nt = c.iter().all(|w| i.f(*w) != 0.0) && c[2] != c[3];
    let mut lim = [(0f64, 0f64); 2];
    let mut want = [0f64; 2];
    let mut whole = [None, None];
    if i.is_float() {
        let v: Vec<f64> = c.iter().map(|w| i.f(*w)).collect();
        let n = DD::prod(v[2], v[2]).add(DD::prod(v[3], v[3]));
        if !(n.f() > tiny(&i) / eps(&i) * 4.0 && n.f() < huge(&i)) { return Verdict::Skip("squared norm not representable"); }
        let num = [DD::prod(v[0], v[2]).add(DD::prod(v[1], v[3])), DD::prod(v[1], v[2]).sub(DD::prod(v[0], v[3]))];
        let m = [(v[0] * v[2]).abs() + (v[1] * v[3]).abs(), (v[1] * v[2]).abs() + (v[0] * v[3]).abs()];
        for k in 0..2 {
            if !(m[k] < huge(&i) / 2.0) || !(m[k] / n.f() < huge(&i) / 2.0) { return Verdict::Skip("quotient not representable"); }
            want[k] = num[k].div(n).f();
            let tol = 1.1 * eps(&i) * m[k] / n.f() + 4.0 * eps(&i) * want[k].abs() + 4.0 * tiny(&i) + 4.0 * tiny(&i) / n.f();
            lim[k] = (want[k] - tol, want[k] + tol);
        }
    } else {
        // Bounds of every intermediate value, in words.
        let pr = |x: usize, y: usize| c[c_idx(x)].checked_mul(c[c_idx(y)]).map(|p| (fl(p, i.frac), cl(p, i.frac)));
        let (Some(ac), Some(bd), Some(bc), Some(ad), Some(cc), Some(dd)) = (pr(0, 2), pr(1, 3), pr(1, 2), pr(0, 3), pr(2, 2), pr(3, 3)) else {
            return Verdict::Skip("product not representable");
        };
        for p in [ac, bd, bc, ad, cc, dd] { if !i.fits(p.0) || !i.fits(p.1) { return Verdict::Skip("product not representable"); } }
        let sat = |x: Option<i128>| x.unwrap_or(i128::MAX);
        let n = (sat(cc.0.checked_add(dd.0)), sat(cc.1.checked_add(dd.1)));
        if n.0 <= 0 || !i.fits(n.1) || n.1 == i128::MAX { return Verdict::Skip("squared norm not representable"); }
        let s = |x: Option<i128>| x.filter(|v| i.fits(*v));
        let (Some(rl), Some(rh), Some(il), Some(ih)) = (s(ac.0.checked_add(bd.0)), s(ac.1.checked_add(bd.1)), s(bc.0.checked_sub(ad.1)), s(bc.1.checked_sub(ad.0))) else {
            return Verdict::Skip("numerator not representable");
        };
        for (k, (l, h)) in [(0, (rl, rh)), (1, (il, ih))] {
            if i.kind == Kind::Int {
                let q = l / n.0;
                whole[k] = Some(q);
            } else {
                let q = [(l, n.0), (l, n.1), (h, n.0), (h, n.1)].map(|(x, d)| (div_fl(x << i.frac, d), div_cl(x << i.frac, d)));
                let lo = q.iter().map(|q| q.0).min().unwrap();
                let hi = q.iter().map(|q| q.1).max().unwrap();
                if !i.fits(lo - 1) || !i.fits(hi + 1) { return Verdict::Skip("quotient not representable"); }
                lim[k] = (i.f(lo - 1), i.f(hi + 1));
                want[k] = (i.f(lo) + i.f(hi)) / 2.0;
                whole[k] = None;
                exact_lim(&mut lim[k], lo - 1, hi + 1, &i);
            }
        }
    }
    let r = f(c);
    for k in 1..r.len() {
        if !same2(&i, r[0], r[k]) { fail!("{} gives {} but {} gives {}", FORMS[0], show2(&i, r[0]), FORMS[k], show2(&i, r[k])) }
    }
    for (k, w) in [(0, r[0].0), (1, r[0].1)] {
        if let Some(q) = whole[k] {
            if w != q { fail!("part {k} is {w}, truncated exact quotient {q}") }
            continue;
        }
        let g = i.f(w);
        if !(lim[k].0 <= g && g <= lim[k].1) {
            fail!("part {k} of {} is {g:?}, expected about {:?}, within {:?} ..= {:?}", show2(&i, r[0]), want[k], lim[k].0, lim[k].1)
        }
    }
    pass(nt, if i.is_float() { "float" } else if i.kind == Kind::Int { "integer" } else { "fixed" })
}
fn c_idx(k: usize) -> usize { k }
/// f64 limits widened so that rounding of 64-bit words to f64 cannot exclude them.
fn exact_lim(l: &mut (f64, f64), lo: i128, hi: i128, i: &Info) {
    if lo.unsigned_abs().max(hi.unsigned_abs()) >> 53 != 0 {
        l.0 -= ulp64(i.f(lo));
        l.1 += ulp64(i.f(hi));
    }
}

fn register(i: Info, f: fn(&[i128]) -> Vec<P>, out: &mut Vec<Sub>) {
    let n = if i.kind == Kind::Fx { 25_000 } else { 100_000 };
    let (small, big) = (i, i);
    out.push(
        Sub::new(format!("div {}", i.name), move |c| check(i, c, f))
            .gen(n, n * DEEP, move || {
                gen::related(&big, &[0, 1, 2, 3], gen::words((0..4).map(|_| factor(&big)).collect()))
            })
            .show(show_words(i)),
    );
    // Operands near one and above, where fixed-point quotients are well conditioned.
    if i.kind != Kind::F32 && i.kind != Kind::F64 {
        let one = i.one().min(i.max());
        let top = (2 * one).min(i.max());
        out.push(
            Sub::new(format!("div near one {}", i.name), move |c| check(small, c, f))
                .gen(n / 2, n / 2 * DEEP, move || gen::related(&small, &[0, 1, 2, 3], gen::words((0..4).map(|_| gen::fx_range(&small, -top, top)).collect())))
                .show(show_words(i)),
        );
    } else {
        out.push(
            Sub::new(format!("div near one {}", i.name), move |c| check(small, c, f))
                .gen(n, n * DEEP, move || gen::related(&small, &[0, 1, 2, 3], gen::words((0..4).map(|_| gen::float_mid(&small, 2)).collect())))
                .show(show_words(i)),
        );
    }
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { register(<$t as Sc>::I, divs::<$t>, &mut subs) } }
    signed_reals!(reg);
    signed_int!(reg);
    kit::main(Property {
        id: "C02",
        rule: "products, squared norm and quotient representable, all components non-zero, divisor's real and imaginary part different",
        assumptions: &["fixed-point divisors whose squared norm rounds to zero are outside the domain"],
        subs,
        findings: vec![],
    })
}
