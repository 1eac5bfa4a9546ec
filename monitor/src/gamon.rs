//! Monitors for the geometric algebra (C18-C23, C29), judged against a multivector product on basis
//! blades written as bit masks (e1 = 1, e2 = 2, e3 = 4).
use crate::cx::{CaseResult, Cx, Stop};
use crate::rng::Rng;
use crate::Prop;
use kami::geometry::line::Line;
use kami::math::bivector::Bivector3;
use kami::math::blade::{number_of_basis_blades, total_number_of_basis_blades};
use kami::math::rotor::Rotor3;
use kami::math::space::{Contraction, Exterior, Norm};
use kami::math::trivector::Trivector3;
use kami::math::vector::Vector3;
use num_traits::{One, Zero};
use std::fmt::Debug;
use std::ops::*;

/// A multivector of the oracle, by blade mask.
type M = [f64; 8];

fn sign(a: usize, b: usize) -> f64 {
    let mut swaps = 0;
    let mut x = a >> 1;
    while x != 0 {
        swaps += (x & b).count_ones();
        x >>= 1;
    }
    if swaps % 2 == 0 {
        1.0
    } else {
        -1.0
    }
}

fn gp(a: &M, b: &M) -> M {
    let mut c = [0.0; 8];
    for i in 0..8 {
        for j in 0..8 {
            c[i ^ j] += sign(i, j) * a[i] * b[j];
        }
    }
    c
}

/// Sum of absolute terms, for rounding bounds.
fn gp_abs(a: &M, b: &M) -> M {
    let mut c = [0.0; 8];
    for i in 0..8 {
        for j in 0..8 {
            c[i ^ j] += (a[i] * b[j]).abs();
        }
    }
    c
}

fn grade(a: &M, g: u32) -> M {
    let mut c = [0.0; 8];
    for i in 0..8usize {
        if i.count_ones() == g {
            c[i] = a[i];
        }
    }
    c
}

/// What the monitors need of a component type.
trait Num:
    Copy + Debug + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + One + Zero + 'static
{
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    const EPS: f64;
    const NAME: &'static str;
}

impl Num for i64 {
    fn of(x: f64) -> i64 {
        x as i64
    }
    fn f(self) -> f64 {
        self as f64
    }
    const EPS: f64 = 0.0;
    const NAME: &'static str = "i64";
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
}

fn mv<T: Num>(v: Vector3<T>) -> M {
    [0.0, v.a1.f(), v.a2.f(), 0.0, v.a3.f(), 0.0, 0.0, 0.0]
}
fn mb<T: Num>(b: Bivector3<T>) -> M {
    [0.0, 0.0, 0.0, b.b1.f(), 0.0, b.b2.f(), b.b3.f(), 0.0]
}
fn mr<T: Num>(r: Rotor3<T>) -> M {
    let mut m = mb(r.bivector);
    m[0] = r.scalar.f();
    m
}
/// The component of a trivector is private; dividing nothing, it is read back from its product with
/// the unit trivector: (t I)(-I) = t.
fn mt<T: Num>(t: Trivector3<T>) -> M {
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, parse_t(&format!("{:?}", t))]
}
fn parse_t(s: &str) -> f64 {
    // "Trivector3 { t1: -2.0 }"; any single number in the Debug text
    let t: String = s.chars().skip_while(|c| *c != '{' && *c != '(').collect();
    let t: String = match t.find(':') {
        Some(i) => t[i + 1..].to_string(),
        None => t.trim_start_matches('(').to_string(),
    };
    t.trim().trim_end_matches(|c| c == '}' || c == ')' || c == ' ' || c == ',').parse().unwrap_or(f64::NAN)
}
fn ms(x: f64) -> M {
    [x, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]
}
fn vec3<T: Num>(c: [f64; 3]) -> Vector3<T> {
    Vector3::new(T::of(c[0]), T::of(c[1]), T::of(c[2]))
}
fn biv3<T: Num>(c: [f64; 3]) -> Bivector3<T> {
    Bivector3::new(T::of(c[0]), T::of(c[1]), T::of(c[2]))
}
fn add(a: &M, b: &M) -> M {
    let mut c = *a;
    for i in 0..8 {
        c[i] += b[i];
    }
    c
}
fn scale(a: &M, s: f64) -> M {
    let mut c = *a;
    for x in c.iter_mut() {
        *x *= s;
    }
    c
}
fn absm(a: &M) -> M {
    let mut c = *a;
    for x in c.iter_mut() {
        *x = x.abs();
    }
    c
}

struct Judge {
    eps: f64,
    name: &'static str,
    input: String,
    products: u64,
}

impl Judge {
    fn same(&mut self, what: &str, got: M, want: M, bound: M) -> Result<(), Stop> {
        self.products += 1;
        for i in 0..8 {
            let d = (got[i] - want[i]).abs();
            let tol = 8.0 * self.eps * bound[i];
            if !(d <= tol) {
                return Err(Stop::Violation(format!(
                    "{} ({}): coefficient of blade {:03b} is {} but has to be {} (tolerance {:e}); {}",
                    what, self.name, i, got[i], want[i], tol, self.input
                )));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

fn algebra<T: Num>(cx: &mut Cx, r: &mut Rng, integers: bool) -> CaseResult {
    // f32 holds the sum of four products of 2000s exactly
    let most = match r.below(4) {
        0 => {
            if T::NAME == "f32" {
                2000
            } else {
                1_000_000
            }
        }
        1 => 3,
        _ => 40,
    };
    let spread = *r.pick(&[1e3, 10.0, 1e6]);
    let sparse = if r.chance(0.15) { 0.6 } else { 0.15 };
    let mut num = |r: &mut Rng| -> f64 {
        if r.chance(if integers { sparse } else { sparse - 0.13 }) {
            0.0
        } else if integers {
            r.int(-most, most) as f64
        } else {
            T::of(r.signed_log(1.0 / spread, spread)).f()
        }
    };
    let mut trip = |r: &mut Rng| {
        let mut t = [num(r), num(r), num(r)];
        if r.chance(0.05) {
            t[r.below(3)] = t[0];
        }
        t
    };
    let (u, mut v) = (vec3::<T>(trip(r)), vec3::<T>(trip(r)));
    let (a, mut b) = (biv3::<T>(trip(r)), biv3::<T>(trip(r)));
    match r.below(40) {
        0 => {
            v = u;
            b = a;
        }
        1 => {
            v = -u;
            b = -a;
        }
        2 => {
            // the same coefficients in a vector and in a bivector
            b = biv3(c3(u));
        }
        _ => {}
    }
    let [tx, ty, s0] = trip(r);
    let (t, w) = (Trivector3::new(T::of(tx)), Trivector3::new(T::of(ty)));
    let s = T::of(s0);
    let [p0, q0, _] = trip(r);
    let (p, q) = (Rotor3::new(T::of(p0), biv3::<T>(trip(r))), Rotor3::new(T::of(q0), biv3::<T>(trip(r))));
    let input = format!("u {:?} v {:?} A {:?} B {:?} T {:?} W {:?} R {:?} Q {:?} s {:?}", u, v, a, b, t, w, p, q, s);
    cx.note(&input);
    let mut j = Judge { eps: if integers { 0.0 } else { T::EPS }, name: T::NAME, input, products: 0 };
    let (xu, xv, xa, xb, xt, xw, xp, xq, xs) = (mv(u), mv(v), mb(a), mb(b), mt(t), mt(w), mr(p), mr(q), ms(s.f()));
    if xt[7].is_nan() || xw[7].is_nan() {
        return Err(Stop::Internal(format!("cannot read a trivector's component from {:?}", t)));
    }
    let z = [0.0; 8];
    // the component of a trivector read back without Debug
    j.same("T*I", ms((t * Trivector3::new(T::one())).f()), ms(-tx), absm(&ms(tx)))?;
    // geometric products
    j.same("u*v", mr(u * v), gp(&xu, &xv), gp_abs(&xu, &xv))?;
    let (g1, g3) = u * a;
    j.same("u*A", add(&mv(g1), &mt(g3)), gp(&xu, &xa), gp_abs(&xu, &xa))?;
    j.same("A*B", mr(a * b), gp(&xa, &xb), gp_abs(&xa, &xb))?;
    j.same("T*W", ms((t * w).f()), gp(&xt, &xw), gp_abs(&xt, &xw))?;
    j.same("R*Q", mr(p * q), gp(&xp, &xq), gp_abs(&xp, &xq))?;
    let (g1, g3) = p * u;
    j.same("R*u", add(&mv(g1), &mt(g3)), gp(&xp, &xu), gp_abs(&xp, &xu))?;
    // inner and outer products
    j.same("u.v", ms(u.dot(v).f()), grade(&gp(&xu, &xv), 0), gp_abs(&xu, &xv))?;
    j.same("u^v", mb(u.wedge(v)), grade(&gp(&xu, &xv), 2), gp_abs(&xu, &xv))?;
    j.same("A.B", ms(a.dot(b).f()), grade(&gp(&xa, &xb), 0), gp_abs(&xa, &xb))?;
    j.same("A^B", mb(Exterior::<Bivector3<T>>::wedge(a, b)), grade(&gp(&xa, &xb), 2), gp_abs(&xa, &xb))?;
    j.same("A^u", mt(Exterior::<Vector3<T>>::wedge(a, u)), grade(&gp(&xa, &xu), 3), gp_abs(&xa, &xu))?;
    j.same("T.W", ms(t.dot(w).f()), grade(&gp(&xt, &xw), 0), gp_abs(&xt, &xw))?;
    j.same("T^W", ms(t.wedge(w).f()), z, z)?;
    j.same("R.Q", ms(p.dot(q).f()), grade(&gp(&xp, &xq), 0), gp_abs(&xp, &xq))?;
    // linear operations and their compound forms
    macro_rules! linear {
        ($name:expr, $m:ident, $x:expr, $y:expr, $mx:expr, $my:expr) => {{
            let (x, y, mx, my) = ($x, $y, $mx, $my);
            let ab = add(&absm(&mx), &absm(&my));
            j.same(concat!($name, " +"), $m(x + y), add(&mx, &my), ab)?;
            j.same(concat!($name, " -"), $m(x - y), add(&mx, &scale(&my, -1.0)), ab)?;
            j.same(concat!($name, " neg"), $m(-x), scale(&mx, -1.0), z)?;
            let mut k = x;
            k += y;
            j.same(concat!($name, " +="), $m(k), $m(x + y), z)?;
            let mut k = x;
            k -= y;
            j.same(concat!($name, " -="), $m(k), $m(x - y), z)?;
            let mut k = x;
            k *= s;
            j.same(concat!($name, " *= scalar"), $m(k), scale(&mx, xs[0]), absm(&scale(&mx, xs[0])))?;
        }};
    }
    linear!("vector", mv, u, v, xu, xv);
    linear!("bivector", mb, a, b, xa, xb);
    linear!("trivector", mt, t, w, xt, xw);
    linear!("rotor", mr, p, q, xp, xq);
    j.same("vector * scalar", mv(u * s), scale(&xu, xs[0]), absm(&scale(&xu, xs[0])))?;
    j.same("bivector * scalar", mb(a * s), scale(&xa, xs[0]), absm(&scale(&xa, xs[0])))?;
    j.same("rotor * scalar", mr(p * s), scale(&xp, xs[0]), absm(&scale(&xp, xs[0])))?;
    if s.f() != 0.0 {
        // dividing a multiple is exact on integers
        let (u2, a2, p2, t2) = if integers {
            (u * s, a * s, p * s, Trivector3::new(T::of(tx * s0)))
        } else {
            (u, a, p, t)
        };
        let inv = |m: &M| {
            let mut c = *m;
            for x in c.iter_mut() {
                *x /= xs[0];
            }
            c
        };
        macro_rules! div {
            ($name:expr, $m:ident, $x:expr) => {{
                let want = inv(&$m($x));
                j.same(concat!($name, " / scalar"), $m($x / s), want, absm(&want))?;
                let mut k = $x;
                k /= s;
                j.same(concat!($name, " /="), $m(k), $m($x / s), absm(&want))?;
            }};
        }
        div!("vector", mv, u2);
        div!("bivector", mb, a2);
        div!("rotor", mr, p2);
        div!("trivector", mt, t2);
        cx.count("divisions");
    }
    // distinguished values
    let e = |i: usize| {
        let mut m = [0.0; 8];
        m[i] = 1.0;
        m
    };
    j.same("unit_x", mv(Vector3::<T>::unit_x()), e(1), z)?;
    j.same("unit_y", mv(Vector3::<T>::unit_y()), e(2), z)?;
    j.same("unit_z", mv(Vector3::<T>::unit_z()), e(4), z)?;
    j.same("unit_xy", mb(Bivector3::<T>::unit_xy()), e(3), z)?;
    j.same("unit_xz", mb(Bivector3::<T>::unit_xz()), e(5), z)?;
    j.same("unit_yz", mb(Bivector3::<T>::unit_yz()), e(6), z)?;
    j.same("unit_xyz", mt(Trivector3::<T>::unit_xyz()), e(7), z)?;
    j.same("identity", mr(Rotor3::<T>::identity()), e(0), z)?;
    j.same("identity*R", mr(Rotor3::<T>::identity() * p), xp, z)?;
    j.same("R*identity", mr(p * Rotor3::<T>::identity()), xp, z)?;
    j.same("zero + u", mv(Vector3::<T>::zero() + u), xu, z)?;
    j.same("zero + A", mb(Bivector3::<T>::zero() + a), xa, z)?;
    j.same("zero + T", mt(Trivector3::<T>::zero() + t), xt, z)?;
    cx.add("products_judged", j.products);
    cx.evaluations += j.products;
    cx.count(match (T::NAME, integers) {
        ("i64", _) => "i64_rounds",
        ("f32", true) => "f32_exact_rounds",
        ("f32", false) => "f32_rounded_rounds",
        (_, true) => "f64_exact_rounds",
        _ => "f64_rounded_rounds",
    });
    Ok(())
}

fn products(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    algebra::<i64>(cx, &mut r, true)?;
    algebra::<f32>(cx, &mut r, true)?;
    algebra::<f64>(cx, &mut r, true)?;
    algebra::<f32>(cx, &mut r, false)?;
    algebra::<f64>(cx, &mut r, false)?;
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

// ---------------------------------------------------------------- C19-C21 in f32 and f64

fn dot3(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len3(a: [f64; 3]) -> f64 {
    dot3(a, a).sqrt()
}
fn mul3(a: [f64; 3], s: f64) -> [f64; 3] {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn add3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    add3(a, mul3(b, -1.0))
}
fn cross3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn c3<T: Num>(v: Vector3<T>) -> [f64; 3] {
    [v.a1.f(), v.a2.f(), v.a3.f()]
}
fn cb<T: Num>(v: Bivector3<T>) -> [f64; 3] {
    [v.b1.f(), v.b2.f(), v.b3.f()]
}

/// Components with zeros, equal magnitudes and mixed magnitudes.
fn comps(r: &mut Rng, lo: f64, hi: f64) -> [f64; 3] {
    loop {
        let base = r.signed_log(lo, hi).abs();
        let mixed = r.chance(0.3);
        let mut c = [0.0; 3];
        for x in c.iter_mut() {
            *x = if r.chance(0.15) {
                0.0
            } else if mixed {
                r.signed_log(lo, hi)
            } else {
                base * r.range(-1.0, 1.0)
            };
        }
        if c.iter().any(|x| x.abs() >= lo) {
            for x in c.iter_mut() {
                if x.abs() < lo {
                    *x = 0.0;
                }
            }
            return c;
        }
    }
}

fn unit3(r: &mut Rng) -> [f64; 3] {
    loop {
        let v = [r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0)];
        let l = len3(v);
        if l > 0.1 && l < 1.0 {
            return match r.below(6) {
                0 => [1.0, 0.0, 0.0],
                1 => [0.0, if r.chance(0.5) { 1.0 } else { -1.0 }, 0.0],
                2 => [0.0, 0.0, 1.0],
                _ => mul3(v, 1.0 / l),
            };
        }
    }
}

/// A unit vector perpendicular to the unit vector p.
fn perp3(r: &mut Rng, p: [f64; 3]) -> [f64; 3] {
    loop {
        let w = unit3(r);
        let q = sub3(w, mul3(p, dot3(p, w)));
        if len3(q) > 0.2 {
            return mul3(q, 1.0 / len3(q));
        }
    }
}

macro_rules! float_monitors {
    ($module:ident, $t:ident, $lo:expr, $hi:expr) => {
        mod $module {
            use super::*;
            type T = $t;
            const E: f64 = <T as Num>::EPS;

            pub fn norms(cx: &mut Cx, r: &mut Rng) -> CaseResult {
                let c = comps(r, $lo, $hi);
                let (v, b) = (vec3::<T>(c), biv3::<T>(c));
                let x = c3(v);
                let n2 = dot3(x, x);
                let n = n2.sqrt();
                cx.note(&format!("{} {:?}", stringify!($t), x));
                let text = format!("{:?} in {}", x, stringify!($t));
                let rel = |what: &str, got: T, want: f64, k: f64| -> CaseResult {
                    let g = got as f64;
                    ensure!((g - want).abs() <= k * E * want.abs() && (want == 0.0 || g.is_finite()), "{} is {} but has to be {} for {}", what, g, want, text);
                    Ok(())
                };
                let comp = |what: &str, got: [f64; 3], want: [f64; 3], bound: f64| -> CaseResult {
                    for i in 0..3 {
                        ensure!((got[i] - want[i]).abs() <= bound, "{} is {:?} but has to be {:?} for {}", what, got, want, text);
                    }
                    Ok(())
                };
                rel("vector norm_squared", v.norm_squared(), n2, 8.0)?;
                rel("vector norm", v.norm(), n, 8.0)?;
                comp("normalised vector", c3(v.normalize()), mul3(x, 1.0 / n), 8.0 * E)?;
                rel("bivector norm_squared", b.norm_squared(), n2, 8.0)?;
                rel("bivector norm", b.norm(), n, 8.0)?;
                comp("normalised bivector", cb(b.normalize()), mul3(x, 1.0 / n), 8.0 * E)?;
                let one = |what: &str, m: M| -> CaseResult {
                    for i in 0..8 {
                        let want = if i == 0 { 1.0 } else { 0.0 };
                        ensure!((m[i] - want).abs() <= 16.0 * E, "{} is not one (blade {:03b}: {}) for {}", what, i, m[i], text);
                    }
                    Ok(())
                };
                one("vector times its inverse", mr(v * v.inverse()))?;
                one("inverse times vector", mr(v.inverse() * v))?;
                one("bivector times its inverse", mr(b * b.inverse()))?;
                one("inverse times bivector", mr(b.inverse() * b))?;
                // the same products by the oracle, in f64
                one("vector times its inverse (oracle product)", gp(&mv(v), &mv(v.inverse())))?;
                one("bivector times its inverse (oracle product)", gp(&mb(b), &mb(b.inverse())))?;
                // trivector
                let t0 = r.signed_log($lo, $hi) as T;
                let t = Trivector3::new(t0);
                let tf = t0 as f64;
                rel("trivector norm_squared", t.norm_squared(), tf * tf, 8.0)?;
                rel("trivector norm", t.norm(), tf.abs(), 8.0)?;
                let nt = mt(t.normalize())[7];
                ensure!((nt - tf.signum()).abs() <= 8.0 * E, "normalised trivector {} is {}", tf, nt);
                let (l, rr) = ((t * t.inverse()) as f64, (t.inverse() * t) as f64);
                ensure!((l - 1.0).abs() <= 16.0 * E && (rr - 1.0).abs() <= 16.0 * E, "trivector {} times its inverse is {} / {}", tf, l, rr);
                // rotor
                let s = if r.chance(0.15) { 0.0 } else { r.signed_log($lo, $hi) };
                let q = Rotor3::new(s as T, b);
                let sf = q.scalar as f64;
                let n2 = n2 + sf * sf;
                let n = n2.sqrt();
                rel("rotor norm_squared", q.norm_squared(), n2, 8.0)?;
                rel("rotor norm", q.norm(), n, 8.0)?;
                let u = q.normalize();
                comp("normalised rotor's bivector", cb(u.bivector), mul3(x, 1.0 / n), 8.0 * E)?;
                ensure!((u.scalar as f64 - sf / n).abs() <= 8.0 * E, "normalised rotor's scalar is {} but has to be {} for {} + {}", u.scalar, sf / n, sf, text);
                one("unit rotor times its inverse", mr(u * u.inverse()))?;
                one("inverse times unit rotor", mr(u.inverse() * u))?;
                one("unit rotor times its inverse (oracle product)", gp(&mr(u), &mr(u.inverse())))?;
                cx.count(concat!(stringify!($t), "_values"));
                cx.evaluations += 20;
                Ok(())
            }

            fn sandwich(q: Rotor3<T>, x: [f64; 3]) -> M {
                let m = mr(q);
                let mut rev = m;
                for i in [3, 5, 6].iter() {
                    rev[*i] = -rev[*i];
                }
                gp(&gp(&m, &[0.0, x[0], x[1], 0.0, x[2], 0.0, 0.0, 0.0]), &rev)
            }

            pub fn rotors(cx: &mut Cx, r: &mut Rng) -> CaseResult {
                let near = |what: &str, got: [f64; 3], want: [f64; 3], tol: f64, text: &str| -> CaseResult {
                    let d = len3(sub3(got, want));
                    ensure!(d <= tol, "{}: {:?} instead of {:?} ({:e} off, tolerance {:e}); {} {}", what, got, want, d, tol, stringify!($t), text);
                    Ok(())
                };
                // a general unit rotor
                let mut rot = |r: &mut Rng| -> Rotor3<T> {
                    loop {
                        let c = [r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0)];
                        let l = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3]).sqrt();
                        if l > 0.2 {
                            return Rotor3::new((c[0] / l) as T, biv3::<T>([c[1] / l, c[2] / l, c[3] / l]));
                        }
                    }
                };
                let (q1, q2) = (rot(r), rot(r));
                let most = *r.pick(&[1e2, 1e2, 1.5, 1e6]);
                let (mut v, w, z) = (vec3::<T>(comps(r, 1.0 / most, most)), vec3::<T>(comps(r, 1.0 / most, most)), vec3::<T>(comps(r, 1.0 / most, most)));
                if r.chance(0.01) {
                    v = Vector3::zero();
                }
                let (x, y, zz) = (c3(v), c3(w), c3(z));
                let text = format!("R {:?} Q {:?} v {:?} w {:?} z {:?}", q1, q2, v, w, z);
                cx.note(&text);
                let (lx, ly, lz) = (len3(x), len3(y), len3(zz));
                let m = sandwich(q1, x);
                near("rotate", c3(q1.rotate(v)), [m[1], m[2], m[4]], 32.0 * E * lx, &text)?;
                let (a, b, c) = (c3(q1.rotate(v)), c3(q1.rotate(w)), c3(q1.rotate(z)));
                ensure!((len3(a) - lx).abs() <= 32.0 * E * lx, "rotate changed a length from {} to {}; {}", lx, len3(a), text);
                ensure!((dot3(a, b) - dot3(x, y)).abs() <= 64.0 * E * lx * ly, "rotate changed a scalar product from {} to {}; {}", dot3(x, y), dot3(a, b), text);
                let (d0, d1) = (dot3(cross3(x, y), zz), dot3(cross3(a, b), c));
                ensure!((d0 - d1).abs() <= 128.0 * E * lx * ly * lz, "rotate changed an oriented volume from {} to {}; {}", d0, d1, text);
                near("(RQ) rotates like Q, then R", c3((q1 * q2).rotate(v)), c3(q1.rotate(q2.rotate(v))), 96.0 * E * lx, &text)?;
                near("the inverse rotor undoes a rotation", c3(q1.inverse().rotate(q1.rotate(v))), x, 96.0 * E * lx, &text)?;
                // from two vectors
                let u = unit3(r);
                let n = perp3(r, u);
                let ang = match r.below(6) {
                    0 => 0.0,
                    1 => r.range(0.0, 1e-3),
                    2 => r.range(2.8, if E < 1e-10 { 3.1414 } else { 3.1 }),
                    3 => std::f64::consts::FRAC_PI_2 * *r.pick(&[1.0, 0.5, 1.5, 1.0 / 3.0, 2.0 / 3.0, 4.0 / 3.0]),
                    _ => r.range(0.0, 3.0),
                };
                let far = *r.pick(&[1e4, 1e2, 1.5, if E < 1e-10 { 1e60 } else { 1e8 }]);
                let (l1, l2) = if r.chance(0.3) { (1.0, 1.0) } else { (r.signed_log(1.0 / far, far).abs(), r.signed_log(1.0 / far, far).abs()) };
                let dst = add3(mul3(u, ang.cos()), mul3(n, ang.sin()));
                let (fu, fv) = (vec3::<T>(mul3(u, l1)), vec3::<T>(mul3(dst, l2)));
                let text = format!("from_vectors({:?}, {:?})", fu, fv);
                cx.note(&text);
                let tol = 64.0 * E / (1.0 + ang.cos());
                let q = match cx.call("from_vectors", true, || Rotor3::from_vectors(fu, fv))? {
                    Some(q) => q,
                    None => return Ok(()),
                };
                let want = mul3(c3(fv), len3(c3(fu)) / len3(c3(fv)));
                near("the first vector's direction", c3(q.rotate(fu)), want, tol * l1, &text)?;
                let axis = cross3(u, n);
                let k = vec3::<T>(axis);
                if ang > 0.05 || ang == 0.0 {
                    near("a vector perpendicular to both", c3(q.rotate(k)), c3(k), tol * if ang > 0.0 { 1.0 / ang.sin() } else { 1.0 }, &text)?;
                    cx.count("rotors_from_clearly_different_vectors");
                }
                cx.count(if l1 == 1.0 && l2 == 1.0 { "rotors_from_unit_vectors" } else { "rotors_from_other_vectors" });
                // from an angle and a plane
                let ang = match r.below(4) {
                    0 => *r.pick(&[0.0, 0.5, 1.0, -0.5, 1.5, 2.0]) * std::f64::consts::PI,
                    1 if r.chance(0.2) => r.signed_log(50.0, 1e4),
                    1 => r.range(-60.0, 60.0),
                    2 => r.range(-1e-3, 1e-3),
                    _ => r.range(-7.0, 7.0),
                };
                let at = ang as T;
                let ang = at as f64;
                let cr = cross3(u, n);
                // u^n in the basis xy, xz, yz
                let plane = biv3::<T>([cr[2], -cr[1], cr[0]]);
                let text = format!("from_angle_plane({:?}, {:?})", at, plane);
                cx.note(&text);
                let q = match cx.call("from_angle_plane", true, || Rotor3::from_angle_plane(at, plane))? {
                    Some(q) => q,
                    None => return Ok(()),
                };
                let tol = 64.0 * E * (1.0 + ang.abs());
                let turn = |p: [f64; 3], q: [f64; 3]| add3(mul3(p, ang.cos()), mul3(q, ang.sin()));
                near("the plane's first axis", c3(q.rotate(vec3::<T>(u))), turn(u, n), tol, &text)?;
                near("the plane's second axis", c3(q.rotate(vec3::<T>(n))), turn(n, mul3(u, -1.0)), tol, &text)?;
                near("the plane's normal", c3(q.rotate(vec3::<T>(axis))), axis, tol, &text)?;
                let (ex, ey, ez) = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]);
                for (name, q, p1, p2, p3) in [
                    ("from_xy_rotation", Rotor3::from_xy_rotation(at), ex, ey, ez),
                    ("from_xz_rotation", Rotor3::from_xz_rotation(at), ex, ez, ey),
                    ("from_yz_rotation", Rotor3::from_yz_rotation(at), ey, ez, ex),
                ] {
                    let text = format!("{}({:?})", name, at);
                    near("the first axis", c3(q.rotate(vec3::<T>(p1))), turn(p1, p2), tol, &text)?;
                    near("the second axis", c3(q.rotate(vec3::<T>(p2))), turn(p2, mul3(p1, -1.0)), tol, &text)?;
                    near("the third axis", c3(q.rotate(vec3::<T>(p3))), p3, tol, &text)?;
                }
                cx.count("rotors_from_angles");
                cx.count(concat!(stringify!($t), "_rounds"));
                cx.evaluations += 20;
                Ok(())
            }

            pub fn vectors(cx: &mut Cx, r: &mut Rng) -> CaseResult {
                let most = *r.pick(&[1e3, 1e3, 1.5, 1e5, if E < 1e-10 { 1e60 } else { 1e8 }]);
                let u = vec3::<T>(comps(r, 1.0 / most, most));
                let kind = r.below(5);
                let v = match kind {
                    0 => u * (r.signed_log(0.01, 100.0).abs() as T),
                    1 => u * (-(r.signed_log(0.01, 100.0).abs()) as T),
                    2 => {
                        // nearly parallel or antiparallel
                        let x = c3(u);
                        let d = comps(r, 1e-3, 1e3);
                        let s = r.signed_log(0.1, 10.0);
                        vec3::<T>(add3(mul3(x, s), mul3(d, 1e-5 * len3(x) / len3(d))))
                    }
                    _ => vec3::<T>(comps(r, 1.0 / most, most)),
                };
                let (x, y) = (c3(u), c3(v));
                let (lx, ly) = (len3(x), len3(y));
                let text = format!("u {:?} v {:?}", u, v);
                cx.note(&text);
                let cos = (dot3(x, y) / (lx * ly)).max(-1.0).min(1.0);
                let pi = std::f64::consts::PI;
                let mut ang = |what: &str, a: Vector3<T>, b: Vector3<T>| -> Result<f64, Stop> {
                    let t = cx.call("angle", true, || a.angle(b))?.unwrap_or(0.0 as T) as f64;
                    ensure!(t >= 0.0 && t <= pi * (1.0 + 4.0 * E), "{} is {}, which is not in [0, pi]; {}", what, t, text);
                    ensure!((t.cos() - cos).abs() <= 16.0 * E, "the cosine of {} is {} but has to be {}; {}", what, t.cos(), cos, text);
                    Ok(t)
                };
                let t0 = ang("the angle", u, v)?;
                ang("the reversed angle", v, u)?;
                ang("the angle of rescaled vectors", u * (0.25 as T), v * (8.0 as T))?;
                let fuzzy = 8.0 * E.sqrt();
                let t1 = cx.call("angle", true, || u.angle(u))?.unwrap_or(0.0 as T) as f64;
                ensure!(t1.abs() <= fuzzy, "the angle of a vector with itself is {}; {}", t1, text);
                let t2 = cx.call("angle", true, || u.angle(-u))?.unwrap_or(0.0 as T) as f64;
                ensure!((t2 - pi).abs() <= fuzzy, "the angle of a vector with its opposite is {}; {}", t2, text);
                match kind {
                    0 => {
                        ensure!(t0 <= fuzzy, "the angle of parallel vectors is {}; {}", t0, text);
                        cx.count("parallel_pairs");
                    }
                    1 => {
                        ensure!(pi - t0 <= fuzzy, "the angle of antiparallel vectors is {}; {}", t0, text);
                        cx.count("antiparallel_pairs");
                    }
                    _ => cx.count("other_pairs"),
                }
                // projection
                let par = mul3(y, dot3(x, y) / (ly * ly));
                let near = |what: &str, got: [f64; 3], want: [f64; 3]| -> CaseResult {
                    let d = len3(sub3(got, want));
                    ensure!(d <= 32.0 * E * lx, "{} is {:?} but has to be {:?} ({:e} off); {}", what, got, want, d, text);
                    Ok(())
                };
                let p = u.project(v);
                near("the projection", c3(p), par)?;
                near("the projection of the projection", c3(p.project(v)), c3(p))?;
                let m = sub3(mul3(par, 2.0), x);
                let q = u.reflect(v);
                near("the reflection", c3(q), m)?;
                near("the reflection of the reflection", c3(q.reflect(v)), x)?;
                ensure!((len3(c3(q)) - lx).abs() <= 32.0 * E * lx, "reflection changed the length from {} to {}; {}", lx, len3(c3(q)), text);
                cx.count(concat!(stringify!($t), "_rounds"));
                cx.evaluations += 9;
                Ok(())
            }

            fn special(r: &mut Rng) -> T {
                match r.below(12) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => $t::NAN,
                    3 => $t::INFINITY,
                    4 => -$t::INFINITY,
                    5 => $t::MIN_POSITIVE,
                    6 => $t::MAX,
                    7 => 1.0,
                    _ => r.signed_log(1e-3, 1e3) as T,
                }
            }

            fn close(r: &mut Rng, x: T) -> T {
                match r.below(7) {
                    0 => x,
                    1 => $t::from_bits(x.to_bits().wrapping_add(r.int(1, 6) as _)),
                    2 => $t::from_bits(x.to_bits().wrapping_sub(r.int(1, 6) as _)),
                    3 => x * (1.0 + r.range(-4.0, 4.0) as T * $t::EPSILON),
                    4 => x + r.range(-1.0, 1.0) as T * 0.01,
                    5 => -x,
                    _ => special(r),
                }
            }

            pub fn comparisons(cx: &mut Cx, r: &mut Rng) -> CaseResult {
                use approx::{AbsDiffEq, RelativeEq, UlpsEq};
                let plain = r.chance(0.7);
                let mut a = [0.0 as T; 4];
                for x in a.iter_mut() {
                    *x = if plain { r.signed_log(1e-2, 1e2) as T } else { special(r) };
                }
                let mut b = a;
                if r.chance(0.75) {
                    // a difference in a single component
                    let k = r.below(4);
                    b[k] = close(r, a[k]);
                } else {
                    for k in 0..4 {
                        b[k] = close(r, a[k]);
                    }
                }
                let eps = *r.pick(&[0.0 as T, $t::EPSILON, 1e-6, 0.005, 1.0]);
                let rel = *r.pick(&[0.0 as T, $t::EPSILON, 1e-6, 0.005]);
                let ulps = *r.pick(&[0u32, 1, 4, 100]);
                let text = format!("{} {:?} and {:?}, epsilon {:?}, max_relative {:?}, max_ulps {}", stringify!($t), a, b, eps, rel, ulps);
                cx.note(&text);
                let ab: Vec<bool> = (0..4).map(|k| a[k].abs_diff_eq(&b[k], eps)).collect();
                let re: Vec<bool> = (0..4).map(|k| a[k].relative_eq(&b[k], eps, rel)).collect();
                let ul: Vec<bool> = (0..4).map(|k| a[k].ulps_eq(&b[k], eps, ulps)).collect();
                let eq: Vec<bool> = (0..4).map(|k| a[k] == b[k]).collect();
                let mut n = 0;
                macro_rules! judge {
                    ($name:expr, $x:expr, $y:expr, $idx:expr) => {{
                        let (x, y) = ($x, $y);
                        let all = |f: &Vec<bool>| $idx.iter().all(|k: &usize| f[*k]);
                        for (what, fwd, bwd, neg, want) in [
                            ("abs_diff_eq", x.abs_diff_eq(&y, eps), y.abs_diff_eq(&x, eps), x.abs_diff_ne(&y, eps), all(&ab)),
                            ("relative_eq", x.relative_eq(&y, eps, rel), y.relative_eq(&x, eps, rel), x.relative_ne(&y, eps, rel), all(&re)),
                            ("ulps_eq", x.ulps_eq(&y, eps, ulps), y.ulps_eq(&x, eps, ulps), x.ulps_ne(&y, eps, ulps), all(&ul)),
                            ("==", x == y, y == x, x != y, all(&eq)),
                        ] {
                            ensure!(fwd == want, "{} {} is {} but its components say {}; {}", $name, what, fwd, want, text);
                            ensure!(bwd == want, "{} {} is not symmetric; {}", $name, what, text);
                            ensure!(neg == !want, "{} {} and its negation agree; {}", $name, what, text);
                            n += 1;
                            if want { cx.count("equal_answers"); } else { cx.count("unequal_answers"); }
                        }
                        // the tolerances used when none are given
                        let (e0, r0, u0) = (<T as AbsDiffEq>::default_epsilon(), <T as RelativeEq>::default_max_relative(), <T as UlpsEq>::default_max_ulps());
                        fn defaults<V: AbsDiffEq + RelativeEq + UlpsEq>(_: &V) -> (V::Epsilon, V::Epsilon, u32) {
                            (V::default_epsilon(), V::default_max_relative(), V::default_max_ulps())
                        }
                        ensure!(defaults(&x) == (e0, r0, u0), "{}: the default tolerances are {:?}, those of its components {:?}", $name, defaults(&x), (e0, r0, u0));
                        let finite = $idx.iter().all(|k: &usize| a[*k].is_finite());
                        if finite {
                            ensure!(x.abs_diff_eq(&x, 0.0) && x.relative_eq(&x, 0.0, 0.0) && x.ulps_eq(&x, 0.0, 0), "{} does not equal itself; {}", $name, text);
                        }
                    }};
                }
                judge!("vector", Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]), [0usize, 1, 2]);
                judge!("bivector", Bivector3::new(a[0], a[1], a[2]), Bivector3::new(b[0], b[1], b[2]), [0usize, 1, 2]);
                judge!("trivector", Trivector3::new(a[3]), Trivector3::new(b[3]), [3usize]);
                judge!("rotor", Rotor3::new(a[3], Bivector3::new(a[0], a[1], a[2])), Rotor3::new(b[3], Bivector3::new(b[0], b[1], b[2])), [0usize, 1, 2, 3]);
                // is_zero
                let mut z = [0.0 as T; 4];
                for k in 0..4 {
                    z[k] = match r.below(5) {
                        0 => special(r),
                        1 => -0.0,
                        2 => $t::from_bits(1),
                        _ => 0.0,
                    };
                }
                let w = |k: usize| z[k] == 0.0;
                ensure!(Vector3::new(z[0], z[1], z[2]).is_zero() == (w(0) && w(1) && w(2)), "is_zero of the vector {:?} is wrong", &z[..3]);
                ensure!(Bivector3::new(z[0], z[1], z[2]).is_zero() == (w(0) && w(1) && w(2)), "is_zero of the bivector {:?} is wrong", &z[..3]);
                ensure!(Trivector3::new(z[3]).is_zero() == w(3), "is_zero of the trivector {:?} is wrong", z[3]);
                ensure!(Vector3::<T>::zero().is_zero() && Bivector3::<T>::zero().is_zero() && Trivector3::<T>::zero().is_zero(), "zero() is not zero");
                if w(0) && w(1) && w(2) { cx.count("zero_values"); } else { cx.count("nonzero_values"); }
                cx.evaluations += n + 3;
                Ok(())
            }
        }
    };
}

float_monitors!(single, f32, 1e-14, 1e14);
float_monitors!(double, f64, 1e-100, 1e100);

macro_rules! both {
    ($name:ident, $f:ident, $n:expr) => {
        fn $name(cx: &mut Cx) -> CaseResult {
            let mut r = cx.rng.clone();
            for _ in 0..$n {
                single::$f(cx, &mut r)?;
                double::$f(cx, &mut r)?;
            }
            let key = cx.trace.clone();
            cx.nontrivial(key.as_bytes());
            cx.sample(|| key);
            Ok(())
        }
    };
}
both!(norms, norms, 3);
both!(rotors, rotors, 2);
both!(vectors, vectors, 3);
both!(comparisons, comparisons, 6);

// ---------------------------------------------------------------- C22

const F32E: f64 = f32::EPSILON as f64;

fn lines(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    for _ in 0..6 {
        let unit = if r.chance(0.5) { 1.0 } else { 2f64.powi(r.int(-20, 20) as i32) };
        let flat = r.chance(0.15);
        let far = *r.pick(&[60, 60, 60, 5000, 4_000_000]);
        let mut p = [r.int(-far, far), r.int(-far, far), r.int(-far, far)];
        let mut d = [r.int(-12, 12), r.int(-12, 12), r.int(-12, 12)];
        match r.below(6) {
            0 => {
                let k = r.below(3);
                d = [0; 3];
                d[k] = r.int(1, 12);
            }
            1 => d[r.below(3)] = 0,
            _ => {}
        }
        if flat {
            p[2] = 0;
            d[2] = 0;
        }
        if d == [0, 0, 0] {
            continue;
        }
        let f = |c: [i64; 3]| Vector3::new((c[0] as f64 * unit) as f32, (c[1] as f64 * unit) as f32, (c[2] as f64 * unit) as f32);
        let at = |t: i64| [p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2]];
        // the same line in several descriptions
        let s = r.int(-9, 9);
        let k = *r.pick(&[1i64, -1, 2, -3, 5]);
        let h = if r.chance(0.7) { *r.pick(&[1.0f32, 0.5, -4.0, -0.25]) } else { 2f32.powi(r.int(-18, 18) as i32) };
        let kd = [k * d[0], k * d[1], k * d[2]];
        let descr = [("given", Line::new(&f(p), &f(d))), ("other base point", Line::new(&f(at(s)), &f(d))), ("rescaled direction", Line::new(&f(p), &(f(d) * h))), ("both", Line::new(&f(at(s)), &f(kd)))];
        let text = format!("line through {:?} along {:?} times {}", p, d, unit);
        cx.note(&text);
        for _ in 0..5 {
            let t = if r.chance(0.1) { r.int(-4000, 4000) } else { r.int(-30, 30) };
            let x = at(t);
            for (name, l) in descr.iter() {
                let g = cx.call("contains", true, || l.contains(&f(x)))?;
                ensure!(g == Some(true), "{:?} is not on the {} ({}), though it is the base point plus {} times the direction", x, text, name, t);
                cx.count("points_on_lines");
            }
            // off the line in a single coordinate, or anywhere
            let mut y = x;
            if r.chance(0.6) {
                y[r.below(3)] += *r.pick(&[1, -1, 2, 7, -20]);
            } else {
                for c in y.iter_mut() {
                    *c += r.int(-20, 20);
                }
            }
            let e = [y[0] - p[0], y[1] - p[1], y[2] - p[2]];
            let on = e[0] * d[1] == e[1] * d[0] && e[0] * d[2] == e[2] * d[0] && e[1] * d[2] == e[2] * d[1];
            // clearly off: by more than rounding could move a point
            let (ef, df) = (e.map(|c| c as f64), d.map(|c| c as f64));
            let largest = p.iter().chain(y.iter()).map(|c| c.abs()).max().unwrap() as f64;
            if !on && len3(cross3(ef, df)) / len3(df) < 40.0 * F32E * largest {
                cx.count("points_too_close_to_judge");
                continue;
            }
            for (name, l) in descr.iter() {
                let g = cx.call("contains", true, || l.contains(&f(y)))?;
                ensure!(g == Some(on), "contains is {:?} for {:?} and the {} ({})", g, y, text, name);
            }
            cx.count(if on { "points_on_lines" } else { "points_off_lines" });
            cx.evaluations += 8;
        }
        cx.evaluations += 1;
        // float lines: points reached from the base point, at any scale, and points off the line
        {
            let (sp, sd) = (r.signed_log(1e-5, 1e5).abs(), r.signed_log(1e-5, 1e5).abs());
            let mut q = vec3::<f32>([r.range(-sp, sp), r.range(-sp, sp), r.range(-sp, sp)]);
            if r.chance(0.1) {
                q = Vector3::new(0.0, 0.0, 0.0);
            }
            let mut u = [r.range(-sd, sd), r.range(-sd, sd), r.range(-sd, sd)];
            match r.below(5) {
                0 => u[r.below(3)] = 0.0,
                1 => {
                    let k = r.below(3);
                    u[k] = 0.0;
                    u[(k + 1) % 3] = 0.0;
                }
                _ => {}
            }
            let u = vec3::<f32>(u);
            let (a, dir) = (c3(q), c3(u));
            let dl = len3(dir);
            if dl > 1e-3 * sd {
                let reach = (sp + dl) / dl;
                for _ in 0..4 {
                    let t = if r.chance(0.5) { r.range(-5.0, 5.0) } else { r.range(-reach, reach) } as f32;
                    let x = q + u * t;
                    let text = format!("line through {:?} along {:?}", q, u);
                    let g = cx.call("contains", true, || Line::new(&q, &u).contains(&x))?;
                    ensure!(g == Some(true), "{:?} is not on the {}, though it is the base point plus {:?} times the direction", x, text, t);
                    let g = cx.call("contains", true, || Line::new(&q, &-u).contains(&x))?;
                    ensure!(g == Some(true), "{:?} is on the {}, but not after reversing the direction", x, text);
                    let largest = c3(x).iter().chain(a.iter()).fold(0.0f64, |m, c| m.max(c.abs()));
                    let n = perp3(&mut r, mul3(dir, 1.0 / dl));
                    let off = largest * r.signed_log(60.0 * F32E, 3.0);
                    let y = vec3::<f32>(add3(c3(x), mul3(n, off)));
                    let g = cx.call("contains", true, || Line::new(&q, &u).contains(&y))?;
                    ensure!(g == Some(false), "{:?} is {:e} away from the {}, yet contained", y, off.abs(), text);
                    cx.count("float_points_judged");
                    cx.evaluations += 3;
                }
            }
        }
        let (fp, fd) = (vec3::<f32>(comps(&mut r, 1e-1, 1e2)), vec3::<f32>(comps(&mut r, 1e-1, 1e1)));
        let (a, dir) = (c3(fp), c3(fd));
        let dl = len3(dir);
        let n = perp3(&mut r, mul3(dir, 1.0 / dl));
        let t = r.range(-5.0, 5.0);
        let dist = r.signed_log(0.05, 10.0) * (1.0 + 0.01 * len3(a));
        let x = vec3::<f32>(add3(add3(a, mul3(dir, t)), mul3(n, dist)));
        let g = cx.call("contains", true, || Line::new(&fp, &fd).contains(&x))?;
        ensure!(g == Some(false), "{:?} is {} away from the line through {:?} along {:?}, yet contained", x, dist, fp, fd);
        ensure!(Line::new(&fp, &fd).contains(&fp), "the line through {:?} along {:?} does not contain its base point", fp, fd);
    }
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

// ---------------------------------------------------------------- C23

fn binomial(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let k = k.min(n - k);
    let mut c: u128 = 1;
    for i in 0..k {
        c = c.checked_mul(n - i)? / (i + 1);
        if c > u64::MAX as u128 {
            return None;
        }
    }
    Some(c)
}

fn blades(cx: &mut Cx) -> CaseResult {
    let mut r = cx.rng.clone();
    let limit = usize::MAX as u128;
    let mut ask = |cx: &mut Cx, n: usize, k: usize| -> Result<Option<usize>, Stop> {
        let want = match binomial(n as u128, k as u128) {
            Some(w) => w,
            None => return Ok(None),
        };
        if want > limit {
            return Ok(None);
        }
        if want > 1 << 58 {
            cx.count("answers_close_to_the_largest_integer");
        }
        cx.note(&format!("number_of_basis_blades({}, {})", n, k));
        let g = cx.call(&format!("number_of_basis_blades({}, {})", n, k), true, || number_of_basis_blades(n, k))?;
        if let Some(g) = g {
            ensure!(g as u128 == want, "number_of_basis_blades({}, {}) is {} but has to be {}", n, k, g, want);
        }
        cx.count("queries_judged");
        cx.evaluations += 1;
        Ok(g)
    };
    // small dimensions completely
    let n = (cx.index % 64) as usize;
    let mut sum: Option<u128> = Some(0);
    for k in 0..=n {
        let a = ask(cx, n, k)?;
        let b = ask(cx, n, n - k)?;
        if let (Some(a), Some(b)) = (a, b) {
            ensure!(a == b, "number_of_basis_blades({}, {}) and ({}, {}) differ", n, k, n, n - k);
        }
        sum = match (sum, a) {
            (Some(s), Some(a)) => Some(s + a as u128),
            _ => None,
        };
    }
    for k in [n + 1, n + 2, n + 3, 2 * n + 7, n + 60] {
        ask(cx, n, k)?;
        cx.count("grades_above_the_dimension");
    }
    let t = cx.call(&format!("total_number_of_basis_blades({})", n), true, || total_number_of_basis_blades(n))?;
    ensure!(t == Some(1usize << n), "total_number_of_basis_blades({}) is {:?}", n, t);
    if let Some(s) = sum {
        ensure!(Some(s as usize) == t, "the blades of dimension {} add up to {} but the total is {:?}", n, s, t);
        cx.count("complete_dimensions");
    }
    // large dimensions, small or complementary grades
    for _ in 0..6 {
        let n = if r.chance(0.15) { usize::MAX - r.below(100) } else { r.signed_log(64.0, if r.chance(0.3) { 1e19 } else { 3e9 }).abs() as usize };
        let k = r.below(8);
        ask(cx, n, k)?;
        if n < 5000 {
            ask(cx, n, n - k)?;
        }
        cx.count("large_dimensions");
    }
    let key = cx.trace.clone();
    cx.nontrivial(key.as_bytes());
    cx.sample(|| key);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18", case: products, quick: 480_000, thorough: 14_400_000, floor: 500,
            required: &["i64_rounds", "f32_exact_rounds", "f64_exact_rounds", "f32_rounded_rounds", "f64_rounded_rounds", "divisions"],
            rule: "A case draws two vectors, bivectors, trivectors, rotors and a scalar, in i64, integer-valued f32 and f64 (judged exactly) and rounded f32 and f64, and judges every operator against a multivector product over basis-blade bit masks; distinct by operands. Evaluations are operator results.",
            assumptions: &["a trivector's component is read from its Debug output and from its product with the unit trivector"],
        },
        Prop {
            id: "C19", case: norms, quick: 960_000, thorough: 57_600_000, floor: 500, required: &["f32_values", "f64_values"],
            rule: "A case draws three values per type and precision (zeros, equal and mixed magnitudes, up to 1e14 or 1e100 and down to the reciprocal); distinct by components.",
            assumptions: &["tolerance 8-16 rounding units"],
        },
        Prop {
            id: "C20", case: rotors, quick: 1_200_000, thorough: 36_000_000, floor: 500,
            required: &["rotors_from_unit_vectors", "rotors_from_other_vectors", "rotors_from_clearly_different_vectors", "rotors_from_angles", "f32_rounds", "f64_rounds"],
            rule: "A case draws, twice in f32 and f64, two unit rotors and three vectors, a rotor from two vectors at 0 to 175 degrees, and rotors from an angle and a plane; distinct by operands.",
            assumptions: &["tolerances of 32 to 128 rounding units, scaled by the conditioning near opposite vectors", "lengths for from_vectors from 1e-8 to 1e8 in f32 and 1e-60 to 1e60 in f64"],
        },
        Prop {
            id: "C21", case: vectors, quick: 1_500_000, thorough: 36_000_000, floor: 500, required: &["parallel_pairs", "antiparallel_pairs", "other_pairs", "f32_rounds", "f64_rounds"],
            rule: "A case draws three vector pairs in f32 and f64 (parallel, antiparallel, nearly so, general); distinct by components.",
            assumptions: &["angles are judged through their cosine, within 16 rounding units"],
        },
        Prop {
            id: "C22", case: lines, quick: 800_000, thorough: 24_000_000, floor: 500, required: &["points_on_lines", "points_off_lines", "float_points_judged"],
            rule: "A case draws six lines with exactly representable coordinates, in four descriptions each, five points on and five mostly off each, a float line with a point clearly off, and a float line at a scale of 1e-5 to 1e5 with four points reached from its base point and four off it; distinct by lines.",
            assumptions: &["clearly off: by more than 40 units in the last place of the largest coordinate"],
        },
        Prop {
            id: "C23", case: blades, quick: 300_000, thorough: 12_000_000, floor: 200, required: &["queries_judged", "grades_above_the_dimension", "complete_dimensions", "large_dimensions"],
            rule: "A case judges one dimension below 64 completely (all grades, some above, the sum) and six random dimensions up to 3e9 with small or complementary grades, against exact 128-bit binomials; distinct by queries.",
            assumptions: &["queries whose answer does not fit 64 bits are not judged"],
        },
        Prop {
            id: "C29", case: comparisons, quick: 1_200_000, thorough: 28_800_000, floor: 500, required: &["equal_answers", "unequal_answers", "zero_values", "nonzero_values"],
            rule: "A case draws six value pairs in f32 and f64 that mostly differ in one component (a few ulps, a little, a sign, special values) and judges four comparisons in both directions against the scalar comparisons; distinct by components and tolerances.",
            assumptions: &["the approx crate's scalar comparisons are the reference"],
        },
    ]
}
