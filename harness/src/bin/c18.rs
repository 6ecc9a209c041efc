//! C18: phase wrapping.
use props::*;

/// mixed_wrap_phase, wrap_phase, pi.
type F = fn(i128) -> (i128, i128, i128);
fn f<T: Sgn>(w: i128) -> (i128, i128, i128) { (T::v(w).mixed_wrap_phase().w(), trigonometry::wrap_phase(T::v(w)).w(), T::mixed_pi().w()) }

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let w = c[0];
    let (r, s, p) = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    if !same(&i, r, s) { fail!("mixed_wrap_phase gives {}, wrap_phase {}", i.show(r), i.show(s)) }
    if !i.is_float() {
        let want = (w + p).rem_euclid(2 * p) - p;
        if r != want { fail!("wrapped to {}, expected {}", i.show(r), i.show(want)) }
        return pass(r != w, if r == w { "in range" } else if w.abs() < 3 * p { "one turn" } else { "several turns" });
    }
    let (x, y, pi) = (i.f(w), i.f(r), i.f(p));
    if !(-pi <= y && y < pi) { fail!("wrapped to {}, outside -pi <= x < pi", i.show(r)) }
    if -pi <= x && x < pi {
        if y != x { fail!("in range, wrapped to {}", i.show(r)) }
        return pass(false, "in range");
    }
    let k = ((x - y) / (2.0 * pi)).round();
    let off = |k: f64| DD::new(x).sub(DD::prod(k, 2.0 * pi)).sub(DD::new(y)).f().abs();
    let e = off(k).min(off(k - 1.0)).min(off(k + 1.0));
    let tol = eps(&i) * (x.abs() + 4.0);
    if !(e <= tol) { fail!("wrapped to {}, {e:.3e} from a whole number of turns away, allowed {tol:.3e}", i.show(r)) }
    if tol > 1.0 { return pass(false, "beyond the resolution of a turn") }
    pass_r(true, if x.abs() < 3.0 * pi { "one turn" } else { "several turns" }, e / tol)
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => {{
        let i = <$t as Sc>::I;
        if !i.is_float() { unary_fixed("wrap", i, f::<$t> as F, check, None, 15_000, &mut subs) }
    }} }
    signed_reals!(reg);
    fn reg2(i: Info, f: F, out: &mut Vec<Sub>) {
        let finite = move || gen::any_word(&i).prop_filter("finite", move |w| i.f(*w).is_finite()).boxed();
        // Neighbours of multiples of a half-turn, angles of a few turns, any finite float.
        let f32t = i.kind == Kind::F32;
        let near = move || (mix(1, gen::int(-40, 40), 1, gen::int(-3000, 3000)), -3i32..=3).prop_map(move |(k, d)| {
            let x = if f32t { (k as f32 * std::f32::consts::PI) as f64 } else { k as f64 * PI };
            if x == 0.0 { return 0 }
            if f32t { (x as f32).to_bits() as i128 + d as i128 } else { x.to_bits() as i128 + d as i128 }
        }).boxed();
        let s = Sub::new(format!("wrap {}", i.name), move |c| check(i, f, c)).show(show_words(i));
        out.push(s.gen(1_000_000, 1_000_000 * DEEP, move || gen::words(vec![mix(1, near(), 2, mix(1, gen::float_range(&i, -1e3, 1e3, vec![]), 1, finite()))])));
    }
    reg2(f32::I, f::<f32>, &mut subs);
    reg2(f64::I, f::<f64>, &mut subs);
    // Every 61st float word.
    subs.push(Sub::new("sweep f32", |c| if f32::v(c[0]).is_finite() { check(f32::I, f::<f32>, c) } else { Verdict::Skip("not finite") }).show(show_words(f32::I)).sweep((1u64 << 32) / 61, |k, c| c.push((k * 61) as i128)));
    kit::main(Property {
        id: "C18",
        rule: "the angle is outside the range and below the magnitude where a unit in the last place exceeds a turn",
        assumptions: &["turns are those of the type's own pi"],
        subs,
        findings: vec![],
    })
}
