//! C32: the library with and without its `std` feature.
//!
//! The program is built twice. The build without the feature runs the cases; every thread keeps a process of the
//! other build, which answers each case with its transcript of results.
use props::*;
use std::cell::RefCell;
use std::fmt::*;
use std::io::{BufRead, BufReader, Write as _};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

const WITH_STD: bool = cfg!(feature = "std");

/// Results, one after the other; a panic is a result too.
struct Log(String);
impl Log {
    fn sep(&mut self, name: &str) { if !self.0.is_empty() { self.0.push(';') } self.0 += name; self.0.push('=') }
    fn one<T: Sc>(&mut self, name: &str, f: impl FnOnce() -> T) {
        self.sep(name);
        match guard(f) { Ok(x) => self.word::<T>(x), Err(_) => self.0 += "panic" }
    }
    fn two<T: Sc>(&mut self, name: &str, f: impl FnOnce() -> (T, T)) {
        self.sep(name);
        match guard(f) { Ok((a, b)) => { self.word::<T>(a); self.0.push(','); self.word::<T>(b) } Err(_) => self.0 += "panic" }
    }
    fn word<T: Sc>(&mut self, x: T) { if T::I.is_float() && T::I.f(x.w()).is_nan() { self.0 += "NaN" } else { let _ = write!(self.0, "{}", x.w()); } }
    fn text(&mut self, name: &str, f: impl FnOnce() -> String) {
        self.sep(name);
        match guard(f) { Ok(s) => self.0 += &s, Err(_) => self.0 += "panic" }
    }
}
fn c2<T>(z: Cartesian<T>) -> (T, T) { (z.re, z.im) }
fn p2<T>(z: Polar<T>) -> (T, T) { (z.mag, z.ang) }

fn arith<T: Arith>(l: &mut Log, c: &[i128]) {
    let (a, b, p, q) = (T::v(c[0]), T::v(c[1]), T::v(c[2]), T::v(c[3]));
    let n = c[4] as i32;
    let x = f64::from_bits(c[5] as u64);
    let (z, w) = (Cartesian { re: a, im: b }, Cartesian { re: p, im: q });
    l.one("sign", || a.mixed_sign());
    l.one("abs", || a.mixed_abs());
    l.one("powi", || a.mixed_powi(n));
    l.one("free powi", || trigonometry::powi(a, n.unsigned_abs() as usize % 5));
    l.two("add", || c2(z + w));
    l.two("sub", || c2(z - w));
    l.two("mul", || c2(z * w));
    l.two("div", || c2(z / w));
    l.two("conj", || c2(z.conj()));
    l.two("scale", || c2(z * x));
    l.two("part", || c2(z / x));
    l.two("add assign", || { let mut z = z; z += w; c2(z) });
    l.two("sub assign", || { let mut z = z; z -= w; c2(z) });
    l.two("div assign", || { let mut z = z; z /= w; c2(z) });
    l.two("over i32", || c2(z / n));
    l.two("times f64", || c2(z * (n as f64)));
}
fn real<T: Sgn + Conversions>(l: &mut Log, c: &[i128]) {
    arith::<T>(l, c);
    let (a, b, p, q) = (T::v(c[0]), T::v(c[1]), T::v(c[2]), T::v(c[3]));
    let z = Cartesian { re: a, im: b };
    l.one("sin", || a.mixed_sin());
    l.one("cos", || a.mixed_cos());
    l.two("sincos", || a.mixed_sincos());
    l.one("asin", || a.mixed_asin());
    l.one("acos", || a.mixed_acos());
    l.one("atan", || a.mixed_atan());
    l.one("atan2", || a.mixed_atan2(b));
    l.one("atan2_poly", || a.mixed_atan2_poly(b));
    l.one("wrap", || a.mixed_wrap_phase());
    l.one("sqrt", || a.mixed_sqrt());
    l.one("niirf", || a.mixed_niirf());
    l.one("exp", || a.mixed_exp());
    l.one("sin series", || trigonometry::sin(a.mixed_wrap_phase()));
    l.one("cos series", || trigonometry::cos(a.mixed_wrap_phase()));
    l.one("mag", || z.mag());
    l.one("arg", || z.arg());
    l.two("polar", || p2(z.to_polar()));
    l.two("cartesian", || c2(Polar { mag: a, ang: b }.to_cartesian()));
    l.two("complex exp", || c2(z.mixed_exp()));
    l.two("polar product", || p2(Polar { mag: a, ang: b } * Polar { mag: p, ang: q }));
    l.two("polar quotient", || p2(Polar { mag: a, ang: b } / p));
    conversions::<T>(l, c);
}
fn conversions<T: Sc + Conversions>(l: &mut Log, c: &[i128]) {
    let a = T::v(c[0]);
    let x = f64::from_bits(c[5] as u64);
    l.one("to f32", || -> f32 { a.mixed_to_num() });
    l.one("to f64", || -> f64 { a.mixed_to_num() });
    l.one("to i32", || -> i32 { a.mixed_to_num() });
    l.one("to u128", || -> u128 { a.mixed_to_num() });
    l.one("from f64", || T::mixed_from_num(x));
    l.one("from f32", || T::mixed_from_num(x as f32));
    l.one("from i64", || T::mixed_from_num(x as i64));
}
fn int<T: Arith + Conversions>(l: &mut Log, c: &[i128]) { arith::<T>(l, c); conversions::<T>(l, c) }
fn unsigned<T: Sc + Conversions + MixedReal + MixedNum>(l: &mut Log, c: &[i128]) {
    let a = T::v(c[0]);
    l.one("sign", || a.mixed_sign());
    l.one("max", || T::mixed_max_value());
    l.one("min", || T::mixed_min_value());
    conversions::<T>(l, c);
}
macro_rules! float { ($f:ident, $t:ty) => {
    fn $f(l: &mut Log, c: &[i128]) {
        real::<$t>(l, c);
        let (a, b) = (<$t>::v(c[0]), <$t>::v(c[1]));
        l.one("tan", || a.mixed_tan());
        l.one("tanh", || a.mixed_tanh());
        l.one("atanh", || a.mixed_atanh());
        l.one("sinh", || a.mixed_sinh());
        l.one("asinh", || a.mixed_asinh());
        l.one("cosh", || a.mixed_cosh());
        l.one("acosh", || a.mixed_acosh());
        l.one("cbrt", || a.mixed_cbrt());
        l.one("exp2", || a.mixed_exp2());
        l.one("exp10", || a.mixed_exp10());
        l.one("log", || a.mixed_log());
        l.one("log2", || a.mixed_log2());
        l.one("log10", || a.mixed_log10());
        l.one("pow", || a.mixed_pow(b));
        l.one("mag2db", || a.mixed_mag2db());
        l.one("db2mag", || a.mixed_db2mag());
        l.one("pow2db", || a.mixed_pow2db());
        l.one("db2pow", || a.mixed_db2pow());
        l.one("ceil", || a.mixed_ceil());
        l.one("floor", || a.mixed_floor());
    }
} }
float!(real32, f32);
float!(real64, f64);

const KINDS: [&str; 7] = ["", "e", "E", "x", "X", "o", "b"];
/// A rendering without a width and, with one, in the default alignment and in others, which change nothing.
macro_rules! lits {
    ($v:expr, $plus:expr, $alt:expr, $prec:expr, $w:expr, $t:literal) => {{
        let (v, w) = ($v, $w);
        match ($plus, $alt, $prec) {
            (false, false, None) => vec![format!(concat!("{:", $t, "}"), v), format!(concat!("{:1$", $t, "}"), v, w), format!(concat!("{:>1$", $t, "}"), v, w), format!(concat!("{:01$", $t, "}"), v, w), format!(concat!("{:*<1$", $t, "}"), v, w), format!(concat!("{:-1$", $t, "}"), v, w)],
            (true, false, None) => vec![format!(concat!("{:+", $t, "}"), v), format!(concat!("{:+1$", $t, "}"), v, w), format!(concat!("{:>+1$", $t, "}"), v, w)],
            (false, true, None) => vec![format!(concat!("{:#", $t, "}"), v), format!(concat!("{:#1$", $t, "}"), v, w), format!(concat!("{:>#1$", $t, "}"), v, w)],
            (true, true, None) => vec![format!(concat!("{:+#", $t, "}"), v), format!(concat!("{:+#1$", $t, "}"), v, w), format!(concat!("{:>+#1$", $t, "}"), v, w)],
            (false, false, Some(p)) => vec![format!(concat!("{:.1$", $t, "}"), v, p), format!(concat!("{:1$.2$", $t, "}"), v, w, p), format!(concat!("{:>1$.2$", $t, "}"), v, w, p)],
            (true, false, Some(p)) => vec![format!(concat!("{:+.1$", $t, "}"), v, p), format!(concat!("{:+1$.2$", $t, "}"), v, w, p), format!(concat!("{:>+1$.2$", $t, "}"), v, w, p)],
            (false, true, Some(p)) => vec![format!(concat!("{:#.1$", $t, "}"), v, p), format!(concat!("{:#1$.2$", $t, "}"), v, w, p), format!(concat!("{:>#1$.2$", $t, "}"), v, w, p)],
            (true, true, Some(p)) => vec![format!(concat!("{:+#.1$", $t, "}"), v, p), format!(concat!("{:+#1$.2$", $t, "}"), v, w, p), format!(concat!("{:>+#1$.2$", $t, "}"), v, w, p), format!(concat!("{:^+#01$.2$", $t, "}"), v, w, p)],
        }
    }};
}
/// Words: real, imaginary, format, flags, precision, width, ending.
fn texts(l: &mut Log, c: &[i128], r: impl FnOnce(bool, bool, Option<usize>, usize) -> Vec<String>) {
    let p = if c[4] < 0 { None } else { Some(c[4] as usize) };
    l.text("text", || r(c[3] & 1 == 1, c[3] & 2 == 2, p, c[5] as usize).join("\u{1}"));
}
fn text_float<T: Sc + MixedNum + MixedZero + Display + LowerExp + UpperExp + std::ops::Sub<Output = T>>(l: &mut Log, c: &[i128]) {
    let z = cv::<T>(c[0], c[1]);
    texts(l, c, |plus, alt, p, w| match c[2] { 0 => lits!(&z, plus, alt, p, w, ""), 1 => lits!(&z, plus, alt, p, w, "e"), _ => lits!(&z, plus, alt, p, w, "E") });
    l.text("polar", || pv::<T>(c[0], c[1]).to_string());
}
trait All: Sc + Display + LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary + MixedZero + MixedNum + std::ops::Sub<Output = Self> {}
impl<T> All for T where T: Sc + Display + LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary + MixedZero + MixedNum + std::ops::Sub<Output = T> {}
fn text_all<T: All>(l: &mut Log, c: &[i128]) {
    let z = cv::<T>(c[0], c[1]);
    texts(l, c, |plus, alt, p, w| match c[2] {
        0 => lits!(&z, plus, alt, p, w, ""), 1 => lits!(&z, plus, alt, p, w, "e"), 2 => lits!(&z, plus, alt, p, w, "E"), 3 => lits!(&z, plus, alt, p, w, "x"),
        4 => lits!(&z, plus, alt, p, w, "X"), 5 => lits!(&z, plus, alt, p, w, "o"), _ => lits!(&z, plus, alt, p, w, "b"),
    });
    l.text("polar", || pv::<T>(c[0], c[1]).to_string());
}

type Run = fn(&mut Log, &[i128]);
struct Entry { i: Info, results: Run, text: Run }
fn entries() -> Vec<Entry> {
    let mut v = vec![Entry { i: <f32 as Sc>::I, results: real32, text: text_float::<f32> }, Entry { i: <f64 as Sc>::I, results: real64, text: text_float::<f64> }];
    macro_rules! sf { ($t:ty, $($r:tt)*) => { v.push(Entry { i: <$t as Sc>::I, results: real::<$t>, text: text_all::<$t> }) } }
    signed_fixed!(sf);
    macro_rules! si { ($t:ty, $($r:tt)*) => { v.push(Entry { i: <$t as Sc>::I, results: int::<$t>, text: text_all::<$t> }) } }
    signed_int!(si);
    macro_rules! ui { ($t:ty, $($r:tt)*) => { v.push(Entry { i: <$t as Sc>::I, results: unsigned::<$t>, text: text_all::<$t> }) } }
    unsigned_int!(ui);
    unsigned_fixed!(ui);
    v
}
fn run(f: Run, c: &[i128]) -> String {
    let mut l = Log(String::new());
    f(&mut l, c);
    l.0
}

/// Answers cases from standard input: number of the type, 0 for results or 1 for texts, words.
fn serve() -> ! {
    kit::install_hook();
    let all = entries();
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let c: Vec<i128> = line.split(' ').map(|w| w.parse().expect("word")).collect();
        let e = &all[c[0] as usize];
        let r = run(if c[1] == 0 { e.results } else { e.text }, &c[2..]);
        out.write_all((r + "\n").as_bytes()).and_then(|_| out.flush()).expect("answer");
    }
    std::process::exit(0)
}

static OTHER: OnceLock<String> = OnceLock::new();
struct Peer { _child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
thread_local! { static PEER: RefCell<Option<Peer>> = RefCell::new(None); }
/// The transcript of the build with `std`; an error when that build ended instead of answering.
fn ask(n: usize, kind: i128, c: &[i128]) -> std::result::Result<String, String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let peer = p.get_or_insert_with(|| {
            let mut child = Command::new(OTHER.get().expect("--other")).arg("--serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("other build");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Peer { _child: child, to, from }
        });
        let mut line = format!("{n} {kind}");
        for w in c { let _ = write!(line, " {w}"); }
        line.push('\n');
        let mut answer = String::new();
        let ok = peer.to.write_all(line.as_bytes()).and_then(|_| peer.to.flush()).and_then(|_| peer.from.read_line(&mut answer));
        if ok.is_err() || !answer.ends_with('\n') { *p = None; return Err("the build with std ended without an answer".into()) }
        answer.pop();
        Ok(answer)
    })
}

fn check_results(n: usize, f: Run, c: &[i128]) -> Verdict {
    let a = run(f, c);
    let b = match ask(n, 0, c) { Ok(s) => s, Err(e) => fail!("{e}") };
    if a != b {
        let d = a.split(';').zip(b.split(';')).find(|(x, y)| x != y);
        fail!("without std {}, with std {}", d.map_or(&a[..], |d| d.0), d.map_or(&b[..], |d| d.1))
    }
    pass(c[0] != 0 && c[1] != 0 && a.matches("panic").count() * 2 < a.matches(';').count(), "operations")
}
fn check_text(n: usize, f: Run, c: &[i128]) -> Verdict {
    let a = run(f, c);
    let b = match ask(n, 1, c) { Ok(s) => s, Err(e) => fail!("{e}") };
    let (ta, pa) = a["text=".len()..].split_once(";polar=").expect("two texts");
    let Some((tb, pb)) = b.strip_prefix("text=").and_then(|b| b.split_once(";polar=")) else { fail!("with std the answer is {b:?}") };
    if pa != pb { fail!("polar: without std {pa:?}, with std {pb:?}") }
    let (x, y): (Vec<&str>, Vec<&str>) = (ta.split('\u{1}').collect(), tb.split('\u{1}').collect());
    if x[0] != y[0] { fail!("{{:{}}}: without std {:?}, with std {:?}", KINDS[c[2] as usize], x[0], y[0]) }
    if ta == "panic" { return Verdict::Skip("the scalar's own formatting panics") }
    let plain = x[0];
    let padded = format!("{plain:>w$}", w = c[5] as usize);
    if y.len() != x.len() { fail!("with std the answer is {y:?}") }
    for k in 1..x.len() {
        if x[k] != plain { fail!("without std a width of {} gives {:?}, not {plain:?}", c[5], x[k]) }
        if y[k] != padded { fail!("with std a width of {} gives {:?}, not {padded:?}", c[5], y[k]) }
    }
    pass(padded != plain, if padded != plain { "padded" } else { "width within the text" })
}

fn main() {
    if std::env::args().any(|a| a == "--serve") { serve() }
    assert!(!WITH_STD, "the cases run in the build without std");
    let a = kit::args();
    let other = a.extra.iter().position(|x| x == "--other").and_then(|k| a.extra.get(k + 1)).expect("--other PROGRAM");
    OTHER.set(other.clone()).unwrap();
    let mut subs = vec![];
    for (n, e) in entries().into_iter().enumerate() {
        let i = e.i;
        let q = if i.kind == Kind::Fx { if i.signed { 1_500 } else { 300 } } else if i.signed { 20_000 } else { 1_000 };
        let f = e.results;
        subs.push(Sub::new(format!("results {}", i.name), move |c| check_results(n, f, c))
            .show(move |c| format!("{}: {}, exponent {}, {:?}", i.name, c[..4].iter().map(|w| i.show(*w)).collect::<Vec<_>>().join(", "), c[4], f64::from_bits(c[5] as u64)))
            .gen(q, q * 40, move || {
                let w = || mix(1, gen::any_word(&i), 1, factor(&i));
                gen::words(vec![w(), w(), w(), w(), gen::int(-12, 12), gen::f64_any()])
            }));
        let f = e.text;
        let kinds = if i.is_float() { 2 } else { 6 };
        let q = if i.kind == Kind::Fx { 500 } else { 5_000 };
        subs.push(Sub::new(format!("text {}", i.name), move |c| check_text(n, f, c))
            .show(move |c| format!("{}: {} in format {:?}, flags {}, precision {}, width {}", i.name, show2(&i, (c[0], c[1])), KINDS[c[2] as usize], c[3], c[4], c[5]))
            .gen(q, q * 40, move || gen::words(vec![gen::any_word(&i), gen::any_word(&i), gen::int(0, kinds), gen::int(0, 3),
                mix(1, gen::just(-1), 1, mix(3, gen::int(0, 12), 1, gen::int(0, 60))), mix(4, gen::int(1, 60), 1, gen::int(0, 400))])));
    }
    kit::main(Property {
        id: "C32",
        rule: "operations: both parts of the first operand non-zero and most results defined; texts: the width pads",
        assumptions: &["NaNs of any payload count as one", "texts: alignment, fill and the zero flag change nothing"],
        subs,
        findings: vec![],
    })
}
