//! C33: complex numbers are plain pairs of scalars.
use props::*;
use std::cmp::Ordering;

/// What a pair of values shows: the parts after each way of making and copying it, and the comparisons with another pair.
struct View { parts: Vec<(&'static str, (i128, i128))>, layout: [bool; 2], eq: [bool; 4], cmp: [Option<Ordering>; 2], rel: [[bool; 4]; 2], default: [(i128, i128); 2], one: [bool; 2], partial: [Option<Ordering>; 2] }
type F = fn(&[i128]) -> View;

/// The parts of a value as they lie in memory, if it is two scalars in a row and nothing else.
fn memory<T: Sc, Z: Copy>(z: Z) -> Option<(i128, i128)> {
    if std::mem::size_of::<Z>() != 2 * std::mem::size_of::<T>() || std::mem::align_of::<Z>() != std::mem::align_of::<T>() { return None }
    let p = &z as *const Z as *const T;
    // SAFETY: size and alignment are those of two scalars, and every scalar is plain data.
    unsafe { Some((p.read().w(), p.add(1).read().w())) }
}
fn view<T: Sc + Default>(c: &[i128]) -> View {
    let (a, b, p, q) = (T::v(c[0]), T::v(c[1]), T::v(c[2]), T::v(c[3]));
    let (z, w, r, s) = (Cartesian::new(a, b), Cartesian::new(p, q), Polar::new(a, b), Polar::new(p, q));
    let mut m = z;
    m.re = a;
    let zc = std::hint::black_box(&z).clone();
    let rc = std::hint::black_box(&r).clone();
    let (d, e): (Cartesian<T>, Polar<T>) = Default::default();
    let o = |x: i128, y: i128| T::v(x).partial_cmp(&T::v(y));
    let (lz, lr) = (memory::<T, _>(z), memory::<T, _>(r));
    View {
        parts: vec![("Cartesian::new", cw(z)), ("Cartesian literal", cw(Cartesian { re: a, im: b })), ("Cartesian copy", cw(zc)), ("Cartesian assigned", cw(m)), ("Polar::new", pw(r)),
            ("Polar literal", pw(Polar { mag: a, ang: b })), ("Polar copy", pw(rc)), ("Cartesian in memory", lz.unwrap_or_default()), ("Polar in memory", lr.unwrap_or_default())],
        layout: [lz.is_some(), lr.is_some()],
        eq: [z == w, r == s, z != w, r != s],
        cmp: [z.partial_cmp(&w), r.partial_cmp(&s)],
        rel: [[z < w, z <= w, z > w, z >= w], [r < s, r <= s, r > s, r >= s]],
        default: [cw(d), pw(e)],
        one: [a == p, b == q],
        partial: [o(c[0], c[2]), o(c[1], c[3])],
    }
}
/// The named constructors of signed types.
fn named<T: Arith>(c: &[i128]) -> [(&'static str, (i128, i128)); 2] {
    let (a, b) = (T::v(c[0]), T::v(c[1]));
    [("Cartesian::new_from_cartesian", cw(<Cartesian<T> as NewFromCartesian<T>>::new_from_cartesian(a, b))), ("to_cartesian", cw(Cartesian::new(a, b).to_cartesian()))]
}
fn named_real<T: Sgn>(c: &[i128]) -> [(&'static str, (i128, i128)); 2] {
    let (a, b) = (T::v(c[0]), T::v(c[1]));
    [("Polar::new_from_polar", pw(<Polar<T> as NewFromPolar<T>>::new_from_polar(a, b))), ("to_polar", pw(Polar::new(a, b).to_polar()))]
}
type G = fn(&[i128]) -> [(&'static str, (i128, i128)); 2];

fn check(i: Info, f: F, gs: [Option<G>; 2], c: &[i128]) -> Verdict {
    let (v, more) = match guard(|| (f(c), gs.iter().flatten().flat_map(|g| g(c)).collect::<Vec<_>>())) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    // NaN payloads travel too: nothing may happen to the bits.
    for (name, p) in v.parts.iter().chain(&more) { if *p != (c[0], c[1]) { fail!("{name}: words {p:?} of parts {:?}", (c[0], c[1])) } }
    if v.layout != [true; 2] { fail!("cartesian or polar are not two scalars in a row: {:?}", v.layout) }
    let eq = v.one[0] && v.one[1];
    if v.eq != [eq, eq, !eq, !eq] { fail!("parts equal: {:?}, but ==, == (polar), !=, != (polar) are {:?}", v.one, v.eq) }
    let order = match v.partial[0] { Some(Ordering::Equal) => v.partial[1], o => o };
    let rel = [order == Some(Ordering::Less), matches!(order, Some(Ordering::Less | Ordering::Equal)), order == Some(Ordering::Greater), matches!(order, Some(Ordering::Greater | Ordering::Equal))];
    if v.cmp != [order; 2] || v.rel != [rel; 2] { fail!("order should be {order:?}, is {:?}, and <, <=, >, >= are {:?}", v.cmp, v.rel) }
    if v.default.iter().any(|(x, y)| i.f(*x) != 0.0 || i.f(*y) != 0.0) { fail!("default is {:?}", v.default) }
    pass(c[0] != c[1], if order.is_none() { "unordered" } else if eq { "equal" } else if v.one[0] { "ordered by the second part" } else { "ordered by the first part" })
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, gs: [Option<G>; 2], out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 3_000 } else { 40_000 };
        out.push(Sub::new(format!("pairs {}", i.name), move |c| check(i, f, gs, c)).show(show_words(i))
            .gen(n, n * DEEP, move || { let w = || gen::any_word(&i); gen::related(&i, &[0, 1, 2, 3], gen::words(vec![w(), w(), w(), w()])) }));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, view::<$t>, [Some(named::<$t> as G), Some(named_real::<$t> as G)], &mut subs) } }
    signed_reals!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, view::<$t>, [Some(named::<$t> as G), None], &mut subs) } }
    signed_int!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, view::<$t>, [None, None], &mut subs) } }
    unsigned_int!(reg);
    unsigned_fixed!(reg);
    kit::main(Property {
        id: "C33",
        rule: "parts different",
        assumptions: &["the scalar's own comparisons are right"],
        subs,
        findings: vec![],
    })
}
