//! C13: conversions between real types.
use props::*;

type F = fn(i128) -> i128;
struct Conv { from: [F; 14], to: [F; 14] }
fn from<T: Sc + MixedNumConversion<P>, P: Sc>(w: i128) -> i128 { T::mixed_from_num(P::v(w)).w() }
fn to<T: Sc + MixedNumConversion<P>, P: Sc>(w: i128) -> i128 { let p: P = T::v(w).mixed_to_num(); p.w() }

fn check(i: Info, f: &Conv, c: &[i128]) -> Verdict {
    let (k, into, w) = (c[0] as usize, c[1] == 1, c[2]);
    let p = PRIMS[k];
    let (a, b) = if into { (p, i) } else { (i, p) };
    let Some(want) = convert(&a, &b, w) else { return Verdict::Skip("not representable in fixed point or in the integer") };
    let r = match guard(|| if into { f.from[k](w) } else { f.to[k](w) }) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    if !same(&b, r, want) { fail!("{} to {} gives {}, expected {}", a.show(w), b.name, b.show(r), b.show(want)) }
    let kind = |i: &Info| match i.kind { Kind::Fx => "fixed", Kind::Int => "integer", _ => "float" };
    pass(want != 0 && b.f(want) != 1.0, match (kind(&a), kind(&b)) {
        ("fixed", "integer") => "fixed to integer", ("fixed", _) => "fixed to float", ("integer", "fixed") => "integer to fixed", ("float", "fixed") => "float to fixed",
        ("integer", "integer") => "integer to integer", ("integer", _) => "integer to float", ("float", "integer") => "float to integer", _ => "float to float" })
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: Conv, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 12_000 } else { 200_000 };
        let s = Sub::new(format!("conversion {}", i.name), move |c| check(i, &f, c))
            .show(move |c| { let p = PRIMS[c[0] as usize]; if c[1] == 1 { format!("{} from {} {}", i.name, p.name, p.show(c[2])) } else { format!("{} {} to {}", i.name, i.show(c[2]), p.name) } });
        out.push(s.gen(n, n * DEEP, move || {
            let mut v = vec![];
            for (k, p) in PRIMS.iter().enumerate() {
                v.push((1, gen::words(vec![gen::just(k as i128), gen::just(1), near(*p, i)])));
                v.push((1, gen::words(vec![gen::just(k as i128), gen::just(0), if i.is_float() { near(i, *p) } else { gen::any_word(&i) }])));
            }
            kit::union(v)
        }));
    }
    fn reg8(i: Info, f: Conv, out: &mut Vec<Sub>) {
        let s = Sub::new(format!("words {}", i.name), move |c| check(i, &f, c))
            .show(move |c| { let p = PRIMS[c[0] as usize]; if c[1] == 1 { format!("{} from {} {}", i.name, p.name, p.show(c[2])) } else { format!("{} {} to {}", i.name, i.show(c[2]), p.name) } });
        let per = 1u64 << i.bits;
        out.push(s.sweep(14 * per, move |k, c| c.extend([(k / per) as i128, 0, i.min() + (k % per) as i128])));
    }
    fn conv<T: Sc + Conversions>() -> Conv { Conv { from: prims!(from, T), to: prims!(to, T) } }
    macro_rules! reg { ($t:ty, $($r:tt)*) => {
        reg2(<$t as Sc>::I, conv::<$t>(), &mut subs);
        if <$t as Sc>::I.bits <= 16 { reg8(<$t as Sc>::I, conv::<$t>(), &mut subs) }
    } }
    signed_reals!(reg);
    unsigned_fixed!(reg);
    signed_int!(reg);
    unsigned_int!(reg);
    kit::main(Property {
        id: "C13",
        rule: "result neither zero nor one",
        assumptions: &["values outside the range of a fixed-point target, or of the integer target of a fixed-point source, are outside the domain"],
        subs,
        findings: vec![],
    })
}
