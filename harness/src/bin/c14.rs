//! C14: conversions into, out of and between complex types.
use props::*;

type P = (i128, i128);
/// Between component types, in both spellings: from a cartesian number of a primitive type, and into one.
type F = fn(P) -> P;
struct Conv { cart_from: [F; 14], cart_to: [F; 14], polar_from: [F; 14], polar_to: [F; 14], into_complex: fn(i128) -> [P; 2] }
fn cart_from<T: Sc + MixedNumSigned + MixedNum + MixedNumConversion<Q>, Q: Sc + MixedNum>(z: P) -> P { cw(Cartesian::<T>::mixed_from_num(cv::<Q>(z.0, z.1))) }
fn cart_to<T: Sc + MixedNumSigned + MixedNum + MixedNumConversion<Q>, Q: Sc + MixedNum>(z: P) -> P {
    let r: Cartesian<Q> = cv::<T>(z.0, z.1).mixed_to_num();
    cw(r)
}
fn polar_from<T: Sc + MixedNum + MixedZero + MixedNumConversion<Q>, Q: Sc + MixedNum>(z: P) -> P { pw(Polar::<T>::mixed_from_num(Q::v(z.0))) }
fn polar_to<T: Sc + MixedNum + MixedZero + MixedNumConversion<Q>, Q: Sc + MixedNum>(z: P) -> P {
    let r: Q = pv::<T>(z.0, z.1).mixed_to_num();
    (r.w(), 0)
}
fn into_complex<T: Sc + MixedNum + MixedZero>(w: i128) -> [P; 2] {
    [cw(Cartesian::<T>::mixed_to_complex(T::v(w))), pw(Polar::<T>::mixed_to_complex(T::v(w)))]
}
/// A real from a cartesian number, and a real into one.
struct Real { from: [F; 14], to: [F; 14] }
fn real_from<T: Sc + MixedNumConversion<Cartesian<Q>>, Q: Sc>(z: P) -> P { (T::mixed_from_num(cv::<Q>(z.0, z.1)).w(), 0) }
fn real_to<T: Sc + MixedNumConversion<Cartesian<Q>>, Q: Sc>(z: P) -> P {
    let r: Cartesian<Q> = T::v(z.0).mixed_to_num();
    cw(r)
}

const WAYS: [&str; 8] = ["cartesian from cartesian", "cartesian to cartesian", "polar from real", "polar to real", "real to complex", "real to polar", "real from cartesian", "real to cartesian"];

fn check(i: Info, f: &Conv, r: Option<&Real>, c: &[i128]) -> Verdict {
    let (way, k, z) = (c[0] as usize, c[1] as usize, (c[2], c[3]));
    let p = PRIMS[k];
    let no = Verdict::Skip("not representable in fixed point or in the integer");
    let (a, b) = if way % 2 == 0 { (p, i) } else { (i, p) };
    let cv = |w| convert(&a, &b, w);
    let zero = 0; // The word of zero is 0 in every type.
    // Type of the result and the expected words.
    let (t, want, got) = match way {
        0 | 1 => {
            let (Some(x), Some(y)) = (cv(z.0), cv(z.1)) else { return no };
            (b, (x, y), guard(|| if way == 0 { f.cart_from[k](z) } else { f.cart_to[k](z) }))
        }
        2 => { let Some(x) = cv(z.0) else { return no }; (b, (x, zero), guard(|| f.polar_from[k](z))) }
        3 => { let Some(x) = cv(z.0) else { return no }; (b, (x, zero), guard(|| f.polar_to[k](z))) }
        4 | 5 => (i, (z.0, zero), guard(|| (f.into_complex)(z.0)[way - 4])),
        _ => {
            let Some(r) = r else { return Verdict::Skip("integers do not convert to cartesian numbers") };
            let Some(x) = cv(z.0) else { return no };
            (b, (x, zero), guard(|| if way == 6 { r.from[k](z) } else { r.to[k](z) }))
        }
    };
    let got = match got { Ok(g) => g, Err(e) => fail!("{} panics: {e}", WAYS[way]) };
    if !same2(&t, got, want) { fail!("{} gives {}, expected {}", WAYS[way], show2(&t, got), show2(&t, want)) }
    // There and back gives the start wherever the other type holds the value exactly.
    if way == 6 || way == 7 {
        let r = r.unwrap();
        if let Some(back) = convert(&b, &a, want.0) {
            if same(&a, back, z.0) {
                let g = match guard(|| if way == 7 { r.from[k](got) } else { r.to[k]((got.0, 0)) }) { Ok(g) => g, Err(e) => fail!("converting back panics: {e}") };
                if !same(&a, g.0, z.0) { fail!("{} and back gives {}", WAYS[way], a.show(g.0)) }
            }
        }
    }
    pass(want.0 != 0 && z.1 != 0 && z.0 != z.1, WAYS[way])
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: Conv, r: Option<Real>, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 16_000 } else { 100_000 };
        let s = Sub::new(format!("complex {}", i.name), move |c| check(i, &f, r.as_ref(), c))
            .show(move |c| {
                let p = PRIMS[c[1] as usize];
                let a = if c[0] % 2 == 0 && c[0] != 4 { p } else { i };
                format!("{}, {} and {}: {}", WAYS[c[0] as usize], i.name, p.name, show2(&a, (c[2], c[3])))
            });
        // Unsigned types do not convert as parts of cartesian numbers, integers not into them.
        let top = if i.kind == Kind::Int { 6 } else { 8 };
        let least = if i.signed { 0 } else { 2 };
        out.push(s.gen(n, n * DEEP, move || {
            let mut v = vec![];
            for (k, p) in PRIMS.iter().enumerate() {
                for into in [true, false] {
                    let ways: Vec<i128> = if into { vec![0, 2, 6] } else { vec![1, 3, 4, 5, 7] };
                    let w = if into { near(*p, i) } else if i.is_float() { near(i, *p) } else { gen::any_word(&i) };
                    v.push((1, gen::words(vec![gen::pick(ways.into_iter().filter(|w| *w < top && *w >= least).collect()), gen::just(k as i128), w.clone(), w])));
                }
            }
            kit::union(v)
        }));
    }
    fn conv<T: Sc + Conversions + MixedNumSigned + MixedNum + MixedZero>() -> Conv {
        Conv { cart_from: prims!(cart_from, T), cart_to: prims!(cart_to, T), polar_from: prims!(polar_from, T), polar_to: prims!(polar_to, T), into_complex: into_complex::<T> }
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, conv::<$t>(), Some(Real { from: prims!(real_from, $t), to: prims!(real_to, $t) }), &mut subs); } }
    signed_reals!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, conv::<$t>(), None, &mut subs); } }
    signed_int!(reg);
    fn none(_: P) -> P { unreachable!() }
    fn unsigned<T: Sc + Conversions + MixedNum + MixedZero>() -> Conv {
        Conv { cart_from: [none; 14], cart_to: [none; 14], polar_from: prims!(polar_from, T), polar_to: prims!(polar_to, T), into_complex: into_complex::<T> }
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, unsigned::<$t>(), Some(Real { from: prims!(real_from, $t), to: prims!(real_to, $t) }), &mut subs); } }
    unsigned_fixed!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, unsigned::<$t>(), None, &mut subs); } }
    unsigned_int!(reg);
    kit::main(Property {
        id: "C14",
        rule: "parts different and non-zero",
        assumptions: &["the conversion of the parts is the one C13 decides", "values outside the range of a fixed-point target, or of the integer target of a fixed-point source, are outside the domain"],
        subs,
        findings: vec![],
    })
}
