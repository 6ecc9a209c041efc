//! C04: complex with real scalar: the scalar is converted and acts componentwise.
use props::*;

type P = (i128, i128);
/// code = op * types + type; the complex operation, and the same on the components.
type Op = fn(i128, P, i128) -> Option<P>;

struct Ops {
    i: Info,
    types: &'static [&'static str],
    complex: Op,
    parts: Op,
}

const SIX: &[&str] = &["i32", "i64", "f32", "f64", "u32", "u64"];
const ALL: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "u8", "u16", "u32", "u64", "u128", "usize"];

/// Scalar bounds for any signed or unsigned real of the library.
trait Any: Sc + MixedReal + MixedOps + MixedZero {}
impl<T: Sc + MixedReal + MixedOps + MixedZero> Any for T {}

fn val_i(v: i128) -> i128 { v }
fn val_f(v: i128) -> f64 { f64::from_bits(v as u64) }

macro_rules! complex_op {
    ($op:expr, $z:expr, $x:expr, signed) => {{ let x = $x; match $op { 0 => $z + x, 1 => $z - x, 2 => $z * x, _ => $z / x } }};
    ($op:expr, $z:expr, $x:expr, unsigned) => {{ let x = $x; match $op { 0 => $z + x, 1 => $z - x, 2 => $z * x, _ => return None } }};
}
fn parts_op<T: Any>(op: i128, z: Cartesian<T>, x: T) -> Option<Cartesian<T>> {
    Some(match op {
        0 => Cartesian { re: z.re + x, im: z.im },
        1 => Cartesian { re: z.re - x, im: z.im },
        2 => Cartesian { re: z.re * x, im: z.im * x },
        _ => {
            if x == T::mixed_zero() { return None; }
            Cartesian { re: z.re / x, im: z.im / x }
        }
    })
}

fn complex6<T: Any>(code: i128, z: P, v: i128) -> Option<P> {
    let z = cv::<T>(z.0, z.1);
    let op = code / 6;
    Some(cw(match code % 6 {
        0 => complex_op!(op, z, val_i(v) as i32, signed),
        1 => complex_op!(op, z, val_i(v) as i64, signed),
        2 => complex_op!(op, z, val_f(v) as f32, signed),
        3 => complex_op!(op, z, val_f(v), signed),
        4 => complex_op!(op, z, val_i(v) as u32, unsigned),
        _ => complex_op!(op, z, val_i(v) as u64, unsigned),
    }))
}
fn parts6<T: Any>(code: i128, z: P, v: i128) -> Option<P> {
    let z = cv::<T>(z.0, z.1);
    let x = match code % 6 {
        0 => T::mixed_from_num(val_i(v) as i32),
        1 => T::mixed_from_num(val_i(v) as i64),
        2 => T::mixed_from_num(val_f(v) as f32),
        3 => T::mixed_from_num(val_f(v)),
        4 => T::mixed_from_num(val_i(v) as u32),
        _ => T::mixed_from_num(val_i(v) as u64),
    };
    parts_op(code / 6, z, x).map(cw)
}
/// All primitive scalar types, for some component types.
macro_rules! all_types {
    ($t:ty) => {
        Ops {
            i: <$t as Sc>::I,
            types: ALL,
            complex: |code, z, v| {
                let z = cv::<$t>(z.0, z.1);
                let op = code / 14;
                Some(cw(match code % 14 {
                    0 => complex_op!(op, z, v as i8, signed),
                    1 => complex_op!(op, z, v as i16, signed),
                    2 => complex_op!(op, z, v as i32, signed),
                    3 => complex_op!(op, z, v as i64, signed),
                    4 => complex_op!(op, z, v as i128, signed),
                    5 => complex_op!(op, z, v as isize, signed),
                    6 => complex_op!(op, z, val_f(v) as f32, signed),
                    7 => complex_op!(op, z, val_f(v), signed),
                    8 => complex_op!(op, z, v as u8, unsigned),
                    9 => complex_op!(op, z, v as u16, unsigned),
                    10 => complex_op!(op, z, v as u32, unsigned),
                    11 => complex_op!(op, z, v as u64, unsigned),
                    12 => complex_op!(op, z, v as u128, unsigned),
                    _ => complex_op!(op, z, v as usize, unsigned),
                }))
            },
            parts: |code, z, v| {
                let z = cv::<$t>(z.0, z.1);
                let x = match code % 14 {
                    0 => <$t>::mixed_from_num(v as i8),
                    1 => <$t>::mixed_from_num(v as i16),
                    2 => <$t>::mixed_from_num(v as i32),
                    3 => <$t>::mixed_from_num(v as i64),
                    4 => <$t>::mixed_from_num(v as i128),
                    5 => <$t>::mixed_from_num(v as isize),
                    6 => <$t>::mixed_from_num(val_f(v) as f32),
                    7 => <$t>::mixed_from_num(val_f(v)),
                    8 => <$t>::mixed_from_num(v as u8),
                    9 => <$t>::mixed_from_num(v as u16),
                    10 => <$t>::mixed_from_num(v as u32),
                    11 => <$t>::mixed_from_num(v as u64),
                    12 => <$t>::mixed_from_num(v as u128),
                    _ => <$t>::mixed_from_num(v as usize),
                };
                parts_op(code / 14, z, x).map(cw)
            },
        }
    };
}

fn is_f(t: &str) -> bool { t == "f32" || t == "f64" }

fn check(i: Info, types: &'static [&'static str], complex: Op, parts: Op, c: &[i128]) -> Verdict {
    let t = types[(c[0] % types.len() as i128) as usize];
    let op = c[0] / types.len() as i128;
    let v = if is_f(t) { c[4] } else { c[3] };
    if op == 3 {
        if t.starts_with('u') { return Verdict::Skip("division by unsigned scalars is not offered"); }
        let zero = match t { "f32" => val_f(v) as f32 == 0.0, "f64" => val_f(v) == 0.0, "i8" => v as i8 == 0, "i16" => v as i16 == 0, "i32" => v as i32 == 0, "i64" | "isize" => v as i64 == 0, _ => v == 0 };
        if zero { return Verdict::Skip("zero divisor (see C05)"); }
    }
    let want = match guard(|| parts(c[0], (c[1], c[2]), v)) {
        Err(_) => return Verdict::Skip("conversion or result not representable"),
        Ok(None) => return Verdict::Skip("divisor converts to zero"),
        Ok(Some(w)) => w,
    };
    let got = complex(c[0], (c[1], c[2]), v).unwrap();
    if !same2(&i, got, want) {
        fail!("({}) {} ({t} scalar) gives {}, componentwise with the converted scalar {}", show2(&i, (c[1], c[2])), ["+", "-", "*", "/"][op as usize], show2(&i, got), show2(&i, want))
    }
    let changed = got != (c[1], c[2]);
    pass(changed && c[1] != c[2], ["addition", "subtraction", "multiplication", "division"][op as usize])
}

fn register(o: Ops, n: u64, out: &mut Vec<Sub>) {
    let i = o.i;
    let (types, complex, parts) = (o.types, o.complex, o.parts);
    out.push(
        Sub::new(format!("scalar {} x {}", i.name, if types.len() == 6 { "six types" } else { "all types" }), move |c| check(i, types, complex, parts, c))
            .gen(n, n * DEEP, move || {
                let w = if i.is_float() { mix(3, gen::float_mid(&i, 30), 1, gen::any_word(&i)) } else { mix(2, factor(&i), 1, gen::any_word(&i)) };
                // Scalars that the component type can often hold.
                let m = if i.is_float() { 1000 } else { (i.max() >> i.frac).max(1) };
                let s = gen::range(if i.signed { -m } else { 0 }, m, vec![1, 2, 3]);
                let s = mix(4, s, 1, kit::words_i64());
                let top = i.f(i.max()).min(1000.0);
                let f = gen::float_range(&F64, if i.signed { -top } else { 0.0 }, top, vec![0.5, 0.25, 1.5]);
                let f = if i.is_float() { mix(4, f, 1, gen::f64_any()) } else { f };
                let top = 4 * types.len() as i128 - 1;
                gen::related(&i, &[1, 2], gen::words(vec![gen::int(0, top), w.clone(), w, s, f]))
            })
            .show(move |c| {
                let t = types[(c[0] % types.len() as i128) as usize];
                format!("{} {} {} {t} {}", i.name, show2(&i, (c[1], c[2])), ["+", "-", "*", "/"][(c[0] / types.len() as i128) as usize],
                    if is_f(t) { format!("{:?}", val_f(c[4])) } else { c[3].to_string() })
            }),
    );
}
const F64: Info = <f64 as Sc>::I;

fn main() {
    let mut subs = vec![];
    macro_rules! reg {
        ($t:ty, $($r:tt)*) => { register(Ops { i: <$t as Sc>::I, types: SIX, complex: complex6::<$t>, parts: parts6::<$t> }, 12_000, &mut subs) };
    }
    signed_reals!(reg);
    unsigned_fixed!(reg);
    signed_int!(reg);
    unsigned_int!(reg);
    use fixed::types::extra::*;
    macro_rules! all { ($($t:ty),*) => { $( register(all_types!($t), 60_000, &mut subs); )* } }
    all!(f32, f64, i16, i64, fixed::FixedI32<U16>, fixed::FixedI16<U5>, fixed::FixedI64<U40>, fixed::FixedI8<U2>, fixed::FixedU32<U8>, fixed::FixedI32<U28>, fixed::FixedU16<U4>);
    kit::main(Property {
        id: "C04",
        rule: "conversion and result representable, the operation changes the number, real and imaginary part differ",
        assumptions: &["the expected value uses the component type's own operator and conversion; conversions are decided by C13"],
        subs,
        findings: vec![],
    })
}
