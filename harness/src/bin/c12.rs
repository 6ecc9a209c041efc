//! C12: text of complex numbers in every format.
use props::*;
use std::fmt::*;

/// One value in the formats its type has.
#[derive(Clone, Copy)]
struct V<'a> { d: &'a dyn Display, e: Option<(&'a dyn LowerExp, &'a dyn UpperExp)>, x: Option<(&'a dyn LowerHex, &'a dyn UpperHex, &'a dyn Octal, &'a dyn Binary)> }
const KINDS: [(&str, &str); 7] = [("", ""), ("e", ""), ("E", ""), ("x", "0x"), ("X", "0x"), ("o", "0o"), ("b", "0b")];

macro_rules! lits {
    ($v:expr, $plus:expr, $alt:expr, $prec:expr, $t:literal) => {
        match ($plus, $alt, $prec) {
            (false, false, None) => format!(concat!("{:", $t, "}"), $v),
            (true, false, None) => format!(concat!("{:+", $t, "}"), $v),
            (false, true, None) => format!(concat!("{:#", $t, "}"), $v),
            (true, true, None) => format!(concat!("{:+#", $t, "}"), $v),
            (false, false, Some(p)) => format!(concat!("{:.1$", $t, "}"), $v, p),
            (true, false, Some(p)) => format!(concat!("{:+.1$", $t, "}"), $v, p),
            (false, true, Some(p)) => format!(concat!("{:#.1$", $t, "}"), $v, p),
            (true, true, Some(p)) => format!(concat!("{:+#.1$", $t, "}"), $v, p),
        }
    };
}
fn render(v: V, kind: usize, plus: bool, alt: bool, prec: Option<usize>) -> Option<String> {
    Some(match kind {
        0 => lits!(v.d, plus, alt, prec, ""),
        1 => lits!(v.e?.0, plus, alt, prec, "e"),
        2 => lits!(v.e?.1, plus, alt, prec, "E"),
        3 => lits!(v.x?.0, plus, alt, prec, "x"),
        4 => lits!(v.x?.1, plus, alt, prec, "X"),
        5 => lits!(v.x?.2, plus, alt, prec, "o"),
        _ => lits!(v.x?.3, plus, alt, prec, "b"),
    })
}

/// Hands over the complex number, num's complex number, the absolute values of the parts, and the polar text.
type F = fn(i128, i128, i128, i128, &mut dyn FnMut(V, Option<V>, V, V));
type G = fn(i128, i128) -> [(String, String); 8];
macro_rules! float { ($f:ident, $t:ty) => {
    fn $f(re: i128, im: i128, ar: i128, ai: i128, k: &mut dyn FnMut(V, Option<V>, V, V)) {
        let (z, n) = (cv::<$t>(re, im), num::Complex { re: <$t>::v(re), im: <$t>::v(im) });
        let (a, b) = (<$t>::v(ar), <$t>::v(ai));
        k(V { d: &z, e: Some((&z, &z)), x: None }, Some(V { d: &n, e: Some((&n, &n)), x: None }), V { d: &a, e: Some((&a, &a)), x: None }, V { d: &b, e: Some((&b, &b)), x: None })
    }
} }
float!(f32s, f32);
float!(f64s, f64);
trait All: Sc + Display + LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary + MixedZero + MixedNum + std::ops::Sub<Output = Self> {}
impl<T> All for T where T: Sc + Display + LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary + MixedZero + MixedNum + std::ops::Sub<Output = T> {}
fn of<T: All>(t: &T) -> V<'_> { V { d: t, e: Some((t, t)), x: Some((t, t, t, t)) } }
fn ints<T: All + num::Num>(re: i128, im: i128, ar: i128, ai: i128, k: &mut dyn FnMut(V, Option<V>, V, V)) {
    let (z, n) = (cv::<T>(re, im), num::Complex { re: T::v(re), im: T::v(im) });
    let (a, b) = (T::v(ar), T::v(ai));
    k(V { d: &z, e: Some((&z, &z)), x: Some((&z, &z, &z, &z)) }, Some(V { d: &n, e: Some((&n, &n)), x: Some((&n, &n, &n, &n)) }), of(&a), of(&b))
}
fn fixeds<T: All>(re: i128, im: i128, ar: i128, ai: i128, k: &mut dyn FnMut(V, Option<V>, V, V)) {
    let z = cv::<T>(re, im);
    let (a, b) = (T::v(ar), T::v(ai));
    k(V { d: &z, e: Some((&z, &z)), x: Some((&z, &z, &z, &z)) }, None, of(&a), of(&b))
}
/// The text of a polar number, and that of its parts put together, with and without flags.
fn polar<T: Sc + Display>(m: i128, a: i128) -> [(String, String); 8] {
    let (z, m, a) = (pv::<T>(m, a), T::v(m), T::v(a));
    macro_rules! f { ($l:literal) => { (format!(concat!("{:", $l, "}"), z), guard(|| format!(concat!("{:", $l, "}\u{2220}{:", $l, "}"), m, a)).unwrap_or_default()) } }
    // The fixed crate itself fails on some precisions, in debug builds.
    [f!(""), f!("+"), f!("#"), f!(".2"), f!("+.0"), f!("14"), f!("<9.1"), f!("012")]
}

fn negative(i: &Info, w: i128) -> bool { if i.bits == 128 && !i.signed { false } else { i.f(w) < 0.0 } }
fn abs(i: &Info, w: i128) -> i128 {
    if !negative(i, w) { return w }
    match i.kind { Kind::F32 => w ^ (1 << 31), Kind::F64 => w ^ (1 << 63), _ => -w }
}
fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let (re, im, kind, plus, alt, prec) = (c[0], c[1], c[2] as usize, c[3] & 1 == 1, c[3] & 2 == 2, if c[4] < 0 { None } else { Some(c[4] as usize) });
    if !i.is_float() && i.signed && (re == i.min() || im == i.min()) { return Verdict::Skip("absolute value not representable") }
    let mut v = Verdict::Skip("the type has no such format");
    f(re, im, abs(&i, re), abs(&i, im), &mut |z, n, a, b| {
        // The fixed crate itself fails on some precisions, in debug builds.
        let Ok((a, b)) = guard(|| (render(a, kind, false, false, prec), render(b, kind, false, false, prec))) else { v = Verdict::Skip("the scalar's own formatting panics"); return };
        let got = match guard(|| render(z, kind, plus, alt, prec)) {
            Ok(None) => return,
            Ok(Some(s)) => s,
            Err(e) => { v = Verdict::Fail(format!("panics: {e}")); return }
        };
        let (a, b) = (a.unwrap(), b.unwrap());
        let prefix = if alt { KINDS[kind].1 } else { "" };
        let sign = if negative(&i, re) { "-" } else if plus { "+" } else { "" };
        let want = [sign, prefix, &a, if negative(&i, im) { "-" } else { "+" }, prefix, &b, "i"].concat();
        if got != want {
            v = Verdict::Fail(format!("{{:{}{}{}}} gives {got:?}, expected {want:?}", if plus { "+" } else { "" }, if alt { "#" } else { "" }, KINDS[kind].0));
            return;
        }
        if let Some(n) = n.and_then(|n| render(n, kind, plus, alt, prec)) {
            if got != n { v = Verdict::Fail(format!("gives {got:?}, num::Complex gives {n:?}")); return }
        }
        let nt = i.f(re) != 0.0 && i.f(im) != 0.0;
        v = pass(nt, match (kind, plus || alt || prec.is_some()) { (0, false) => "{}", (0, _) => "{} with flags", (1 | 2, _) => "exponent", (3 | 4, _) => "hexadecimal", (5, _) => "octal", _ => "binary" });
    });
    v
}
fn check_polar(i: Info, g: G, c: &[i128]) -> Verdict {
    let r = match guard(|| g(c[0], c[1])) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let plain = &r[0].1;
    if r[0].0 != *plain { fail!("polar number prints as {:?}, its parts as {plain:?}", r[0].0) }
    // Flags may be left aside or handed on to both parts.
    let bare = |s: &str| s.replace(' ', "");
    for (s, parts) in &r[1..] {
        if bare(s) != *plain && bare(s) != bare(parts) { fail!("polar number with flags prints as {s:?}, its parts as {parts:?}, without flags as {plain:?}") }
    }
    pass(i.f(c[0]) != 0.0 && i.f(c[1]) != 0.0, "polar")
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, g: G, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 4_000 } else { 40_000 };
        let kinds = if i.is_float() { 2 } else { 6 };
        let s = Sub::new(format!("cartesian {}", i.name), move |c| check(i, f, c))
            .show(move |c| format!("{}: {} in format {:?}, flags {}, precision {}", i.name, show2(&i, (c[0], c[1])), KINDS[c[2] as usize].0, c[3], c[4]));
        out.push(s.gen(n, n * DEEP, move || gen::words(vec![gen::any_word(&i), gen::any_word(&i), gen::int(0, kinds), gen::int(0, 3), mix(1, gen::just(-1), 1, mix(3, gen::int(0, 12), 1, gen::int(0, 60)))])));
        let s = Sub::new(format!("polar {}", i.name), move |c| check_polar(i, g, c)).show(show_words(i));
        out.push(s.gen(n / 8, n / 8 * DEEP, move || gen::words(vec![gen::any_word(&i), gen::any_word(&i)])));
    }
    reg2(f32::I, f32s, polar::<f32>, &mut subs);
    reg2(f64::I, f64s, polar::<f64>, &mut subs);
    macro_rules! int { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, ints::<$t>, polar::<$t>, &mut subs); } }
    signed_int!(int);
    unsigned_int!(int);
    macro_rules! fx { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, fixeds::<$t>, polar::<$t>, &mut subs); } }
    signed_fixed!(fx);
    unsigned_fixed!(fx);
    kit::main(Property {
        id: "C12",
        rule: "both parts non-zero",
        assumptions: &["the scalar's own formatting of the absolute value is right", "parts whose absolute value is not representable are outside the domain", "width is decided by C32"],
        subs,
        findings: vec![],
    })
}
