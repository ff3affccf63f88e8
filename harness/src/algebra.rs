//! A01..A09: geometric algebra of 3-space.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use kami::math::bivector::Bivector3;
use kami::math::blade::{number_of_basis_blades, total_number_of_basis_blades};
use kami::math::rotor::Rotor3;
use kami::math::space::{Contraction, Exterior, Norm};
use kami::math::trivector::Trivector3;
use kami::math::vector::Vector3;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------- reference: multivectors of Cl(3,0), component index = bit mask of basis vectors ----------

type Mv = [f64; 8];

/// Sign of reordering the product of two basis blades (each generator squares to +1).
fn sign(a: usize, b: usize) -> f64 {
    let mut swaps = 0;
    let mut x = a >> 1;
    while x > 0 {
        swaps += (x & b).count_ones();
        x >>= 1;
    }
    if swaps % 2 == 0 {
        1.0
    } else {
        -1.0
    }
}
fn gp(a: &Mv, b: &Mv) -> Mv {
    let mut r = [0.0; 8];
    for i in 0..8 {
        for j in 0..8 {
            r[i ^ j] += sign(i, j) * a[i] * b[j];
        }
    }
    r
}
/// Sum of absolute terms per component: the scale of rounding errors.
fn gp_abs(a: &Mv, b: &Mv) -> Mv {
    let mut r = [0.0; 8];
    for i in 0..8 {
        for j in 0..8 {
            r[i ^ j] += (a[i] * b[j]).abs();
        }
    }
    r
}
fn reverse(a: &Mv) -> Mv {
    let mut r = *a;
    for i in 0..8usize {
        if i.count_ones() >= 2 {
            r[i] = -r[i];
        }
    }
    r
}
const E1: usize = 1;
const E2: usize = 2;
const E3: usize = 4;
const E12: usize = 3;
const E13: usize = 5;
const E23: usize = 6;
const E123: usize = 7;

fn mv_v(v: [f64; 3]) -> Mv {
    let mut r = [0.0; 8];
    r[E1] = v[0];
    r[E2] = v[1];
    r[E3] = v[2];
    r
}
fn mv_b(b: [f64; 3]) -> Mv {
    let mut r = [0.0; 8];
    r[E12] = b[0];
    r[E13] = b[1];
    r[E23] = b[2];
    r
}
fn mv_t(t: f64) -> Mv {
    let mut r = [0.0; 8];
    r[E123] = t;
    r
}
fn mv_r(s: f64, b: [f64; 3]) -> Mv {
    let mut r = mv_b(b);
    r[0] = s;
    r
}
fn vpart(m: &Mv) -> [f64; 3] {
    [m[E1], m[E2], m[E3]]
}
fn bpart(m: &Mv) -> [f64; 3] {
    [m[E12], m[E13], m[E23]]
}
fn dot3(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn add3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn mul3(a: [f64; 3], s: f64) -> [f64; 3] {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn len3(a: [f64; 3]) -> f64 {
    a[0].hypot(a[1]).hypot(a[2])
}
fn dist3(a: [f64; 3], b: [f64; 3]) -> f64 {
    len3(add3(a, mul3(b, -1.0)))
}
fn near3(what: &str, got: [f64; 3], want: [f64; 3], tol: f64) -> Res {
    ensure!(dist3(got, want) <= tol, "{}: {:?} expected {:?} (tolerance {:e})", what, got, want, tol);
    Ok(())
}
fn near1(what: &str, got: f64, want: f64, tol: f64) -> Res {
    ensure!((got - want).abs() <= tol, "{}: {:?} expected {:?} (tolerance {:e})", what, got, want, tol);
    Ok(())
}

/// The scalar types the checks run with.
pub trait Sc: Copy + PartialEq + std::fmt::Debug + num_traits::NumCast + 'static {
    /// relative rounding error of one operation (0 = exact)
    const U: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    /// The value this type gets for a generated number: the number itself, rounded if need be. References are computed from it.
    fn q(x: D) -> D {
        D(Self::of(x.0).f())
    }
    fn q3(x: &[D; 3]) -> [D; 3] {
        [Self::q(x[0]), Self::q(x[1]), Self::q(x[2])]
    }
}
impl Sc for f32 {
    const U: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl Sc for f64 {
    const U: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Sc for i64 {
    const U: f64 = 0.0;
    fn of(x: f64) -> i64 {
        x as i64
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl Sc for i32 {
    const U: f64 = 0.0;
    fn of(x: f64) -> i32 {
        x as i32
    }
    fn f(self) -> f64 {
        self as f64
    }
}

fn vec_of<T: Sc>(v: [f64; 3]) -> Vector3<T> {
    Vector3::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}
fn biv_of<T: Sc>(v: [f64; 3]) -> Bivector3<T> {
    Bivector3::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}
fn rot_of<T: Sc>(s: f64, v: [f64; 3]) -> Rotor3<T> {
    Rotor3::new(T::of(s), biv_of(v))
}
fn v3<T: Sc>(v: &Vector3<T>) -> [f64; 3] {
    [v.a1.f(), v.a2.f(), v.a3.f()]
}
fn b3<T: Sc>(v: &Bivector3<T>) -> [f64; 3] {
    [v.b1.f(), v.b2.f(), v.b3.f()]
}
fn r4<T: Sc>(r: &Rotor3<T>) -> Mv {
    mv_r(r.scalar.f(), b3(&r.bivector))
}

/// Trivector components are private: compare by equality when exact, else by closeness of the difference to zero.
trait TriCmp: Sc {
    fn tri_near(t: &Trivector3<Self>, want: f64, tol: f64) -> bool;
}
macro_rules! tri_exact {
    ($t:ty) => {
        impl TriCmp for $t {
            fn tri_near(t: &Trivector3<$t>, want: f64, _tol: f64) -> bool {
                *t == Trivector3::new(want as $t)
            }
        }
    };
}
macro_rules! tri_float {
    ($t:ty) => {
        impl TriCmp for $t {
            fn tri_near(t: &Trivector3<$t>, want: f64, tol: f64) -> bool {
                *t == Trivector3::new(want as $t) || t.abs_diff_eq(&Trivector3::new(want as $t), (tol + want.abs() * <$t as Sc>::U) as $t)
            }
        }
    };
}
tri_exact!(i64);
tri_exact!(i32);
tri_float!(f32);
tri_float!(f64);

fn tri<T: TriCmp>(what: &str, t: &Trivector3<T>, want: f64, tol: f64) -> Res {
    ensure!(T::tri_near(t, want, tol), "{}: {:?} expected {:?} (tolerance {:e})", what, t, want, tol);
    Ok(())
}

// ---------- cases ----------

/// Components for two vectors, two bivectors, two trivectors, two rotors.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comps {
    c: Vec<D>,
    /// all components are small integers: results are exact in every type
    int: bool,
}
const NC: usize = 22;
fn g3(c: &Comps, i: usize) -> [f64; 3] {
    [c.c[i].0, c.c[i + 1].0, c.c[i + 2].0]
}

fn comp_int(r: i64) -> impl Strategy<Value = D> {
    prop_oneof![1 => Just(0.0), 1 => Just(1.0), 6 => (-r..=r).prop_map(|x| x as f64)].prop_map(D)
}
fn signed_pow(lo: f64, hi: f64) -> impl Strategy<Value = f64> {
    (lo..hi, any::<bool>()).prop_map(|(e, s)| if s { -2f64.powf(e) } else { 2f64.powf(e) })
}
fn comp_float(emin: f64, emax: f64) -> impl Strategy<Value = D> {
    prop_oneof![1 => Just(0.0), 1 => Just(1.0), 2 => signed_pow(emin, emax).prop_map(|x| x as f32 as f64), 6 => signed_pow(emin, emax)].prop_map(D)
}
fn comps(int_range: i64) -> impl Strategy<Value = Comps> {
    prop_oneof![
        1 => proptest::collection::vec(comp_int(3), NC).prop_map(|c| Comps { c, int: true }),
        2 => proptest::collection::vec(comp_int(int_range), NC).prop_map(|c| Comps { c, int: true }),
        3 => (proptest::collection::vec(comp_float(-6.0, 6.0), NC), prop_oneof![3 => -12i32..12, 1 => -48i32..48]).prop_map(|(c, e)| {
            let s = 2f64.powi(e);
            Comps { c: c.into_iter().map(|x| D(x.0 * s)).collect(), int: false }
        }),
    ]
}
fn comps_wide() -> impl Strategy<Value = Comps> {
    prop_oneof![
        1 => comps(1000),
        1 => proptest::collection::vec(comp_float(-20.0, 20.0), NC).prop_map(|c| Comps { c, int: false }),
    ]
}
fn comps_nontrivial(c: &Comps) -> bool {
    c.c.iter().filter(|x| x.0 != 0.0 && x.0.abs() != 1.0).count() >= NC / 2
}

// ---------- A01 ----------

macro_rules! products {
    ($name:ident, $t:ty) => {
        fn $name(c: &Comps) -> Res {
            type T = $t;
            let c = &Comps { c: c.c.iter().map(|x| T::q(*x)).collect(), int: c.int };
            let u = <T as Sc>::U * 8.0;
            let (a, b) = (g3(c, 0), g3(c, 3));
            let (ba, bb) = (g3(c, 6), g3(c, 9));
            let (ta, tb) = (c.c[12].0, c.c[13].0);
            let (ra, rb) = ((c.c[14].0, g3(c, 15)), (c.c[18].0, g3(c, 19)));
            let (va, vb): (Vector3<T>, Vector3<T>) = (vec_of(a), vec_of(b));
            let (bva, bvb): (Bivector3<T>, Bivector3<T>) = (biv_of(ba), biv_of(bb));
            let (tva, tvb): (Trivector3<T>, Trivector3<T>) = (Trivector3::new(T::of(ta)), Trivector3::new(T::of(tb)));
            let (rva, rvb): (Rotor3<T>, Rotor3<T>) = (rot_of(ra.0, ra.1), rot_of(rb.0, rb.1));
            let tol3 = |m: &Mv| u * len3(vpart(m)) + 1e-40;
            let tolb = |m: &Mv| u * len3(bpart(m)) + 1e-40;
            let tol0 = |m: &Mv| u * m[0] + 1e-40;
            let tolt = |m: &Mv| u * m[E123] + 1e-40;

            // vector, vector
            let (p, q) = (gp(&mv_v(a), &mv_v(b)), gp_abs(&mv_v(a), &mv_v(b)));
            near1("vector . vector", va.dot(vb).f(), p[0], tol0(&q))?;
            near3("vector ^ vector", b3(&va.wedge(vb)), bpart(&p), tolb(&q))?;
            let r: Rotor3<T> = va * vb;
            near1("vector vector, scalar part", r.scalar.f(), p[0], tol0(&q))?;
            near3("vector vector, bivector part", b3(&r.bivector), bpart(&p), tolb(&q))?;
            // vector, scalar
            let s: T = T::of(tb);
            near3("vector scalar", v3(&(va * s)), mul3(a, tb), u * len3(a) * tb.abs())?;
            near3("bivector scalar", b3(&(bva * s)), mul3(ba, tb), u * len3(ba) * tb.abs())?;
            let r: Rotor3<T> = rva * s;
            near1("rotor scalar, scalar part", r.scalar.f(), ra.0 * tb, u * (ra.0 * tb).abs())?;
            near3("rotor scalar, bivector part", b3(&r.bivector), mul3(ra.1, tb), u * len3(ra.1) * tb.abs())?;
            // vector, bivector
            let (p, q) = (gp(&mv_v(a), &mv_b(bb)), gp_abs(&mv_v(a), &mv_b(bb)));
            let (v, t): (Vector3<T>, Trivector3<T>) = va * bvb;
            near3("vector bivector, vector part", v3(&v), vpart(&p), tol3(&q))?;
            tri("vector bivector, trivector part", &t, p[E123], tolt(&q))?;
            // bivector, vector
            let (p, q) = (gp(&mv_b(ba), &mv_v(b)), gp_abs(&mv_b(ba), &mv_v(b)));
            tri("bivector ^ vector", &bva.wedge(vb), p[E123], tolt(&q))?;
            // bivector, bivector
            let (p, q) = (gp(&mv_b(ba), &mv_b(bb)), gp_abs(&mv_b(ba), &mv_b(bb)));
            near1("bivector . bivector", bva.dot(bvb).f(), p[0], tol0(&q))?;
            near3("bivector ^ bivector", b3(&<Bivector3<T> as Exterior>::wedge(bva, bvb)), bpart(&p), tolb(&q))?;
            let r: Rotor3<T> = bva * bvb;
            near1("bivector bivector, scalar part", r.scalar.f(), p[0], tol0(&q))?;
            near3("bivector bivector, bivector part", b3(&r.bivector), bpart(&p), tolb(&q))?;
            // trivector, trivector
            let (p, q) = (gp(&mv_t(ta), &mv_t(tb)), gp_abs(&mv_t(ta), &mv_t(tb)));
            near1("trivector . trivector", tva.dot(tvb).f(), p[0], tol0(&q))?;
            near1("trivector trivector", (tva * tvb).f(), p[0], tol0(&q))?;
            near1("trivector ^ trivector", tva.wedge(tvb).f(), 0.0, 0.0)?;
            // rotor, rotor
            let (ma, mb) = (mv_r(ra.0, ra.1), mv_r(rb.0, rb.1));
            let (p, q) = (gp(&ma, &mb), gp_abs(&ma, &mb));
            near1("rotor . rotor", rva.dot(rvb).f(), p[0], tol0(&q))?;
            let r: Rotor3<T> = rva * rvb;
            near1("rotor rotor, scalar part", r.scalar.f(), p[0], tol0(&q))?;
            near3("rotor rotor, bivector part", b3(&r.bivector), bpart(&p), tolb(&q))?;
            // rotor, vector
            let (p, q) = (gp(&ma, &mv_v(b)), gp_abs(&ma, &mv_v(b)));
            let (v, t): (Vector3<T>, Trivector3<T>) = rva * vb;
            near3("rotor vector, vector part", v3(&v), vpart(&p), tol3(&q))?;
            tri("rotor vector, trivector part", &t, p[E123], tolt(&q))?;
            Ok(())
        }
    };
}
products!(products_i64, i64);
products!(products_i32, i32);
products!(products_f32, f32);
products!(products_f64, f64);

fn check_products(c: &Comps, o: &mut Obs) -> Res {
    o.label(if c.int { "integer components" } else { "float components" });
    o.nontrivial_if(comps_nontrivial(c));
    if c.int {
        products_i64(c).map_err(|e| format!("i64: {}", e))?;
        products_i32(c).map_err(|e| format!("i32: {}", e))?;
    }
    products_f32(c).map_err(|e| format!("f32: {}", e))?;
    products_f64(c).map_err(|e| format!("f64: {}", e))
}

// ---------- A02 ----------

macro_rules! vector_space {
    ($name:ident, $t:ty, $int:expr) => {
        fn $name(c: &Comps) -> Res {
            type T = $t;
            let c = &Comps { c: c.c.iter().map(|x| T::q(*x)).collect(), int: c.int };
            let u = <T as Sc>::U * 2.0;
            // component-wise closeness
            let cw = |what: &str, got: &[f64], want: &[f64]| -> Res {
                for i in 0..got.len() {
                    ensure!((got[i] - want[i]).abs() <= u * want[i].abs() + if $int { 0.0 } else { 1e-44 }, "{}: component {} is {:?}, expected {:?}", what, i, got[i], want[i]);
                }
                Ok(())
            };
            let (a, b) = (g3(c, 0), g3(c, 3));
            let k = c.c[12].0;
            // sums are rounded once: the exact f64 sum of two f32 values may need more bits, hence the tolerance u
            let sum = |x: [f64; 3], y: [f64; 3]| add3(x, y);
            let dif = |x: [f64; 3], y: [f64; 3]| add3(x, mul3(y, -1.0));
            let div = |x: [f64; 3]| if $int { [(x[0] as i64 / k as i64) as f64, (x[1] as i64 / k as i64) as f64, (x[2] as i64 / k as i64) as f64] } else { [x[0] / k, x[1] / k, x[2] / k] };
            let kt = T::of(k);
            let z: T = T::of(0.0);

            // vectors
            let (va, vb): (Vector3<T>, Vector3<T>) = (vec_of(a), vec_of(b));
            cw("vector + vector", &v3(&(va + vb)), &sum(a, b))?;
            cw("vector - vector", &v3(&(va - vb)), &dif(a, b))?;
            cw("- vector", &v3(&-va), &mul3(a, -1.0))?;
            cw("vector * scalar", &v3(&(va * kt)), &mul3(a, k))?;
            let mut w = va;
            w += vb;
            cw("vector += vector", &v3(&w), &sum(a, b))?;
            let mut w = va;
            w -= vb;
            cw("vector -= vector", &v3(&w), &dif(a, b))?;
            let mut w = va;
            w *= kt;
            cw("vector *= scalar", &v3(&w), &mul3(a, k))?;
            if k != 0.0 {
                cw("vector / scalar", &v3(&(va / kt)), &div(a))?;
                let mut w = va;
                w /= kt;
                cw("vector /= scalar", &v3(&w), &div(a))?;
            }
            cw("vector + zero", &v3(&(va + Vector3::zero())), &a)?;
            cw("zero vector", &v3(&Vector3::<T>::zero()), &[0.0; 3])?;
            cw("unit vector x", &v3(&Vector3::<T>::unit_x()), &[1.0, 0.0, 0.0])?;
            cw("unit vector y", &v3(&Vector3::<T>::unit_y()), &[0.0, 1.0, 0.0])?;
            cw("unit vector z", &v3(&Vector3::<T>::unit_z()), &[0.0, 0.0, 1.0])?;
            // bivectors
            let (ba, bb): (Bivector3<T>, Bivector3<T>) = (biv_of(a), biv_of(b));
            cw("bivector + bivector", &b3(&(ba + bb)), &sum(a, b))?;
            cw("bivector - bivector", &b3(&(ba - bb)), &dif(a, b))?;
            cw("- bivector", &b3(&-ba), &mul3(a, -1.0))?;
            cw("bivector * scalar", &b3(&(ba * kt)), &mul3(a, k))?;
            let mut w = ba;
            w += bb;
            cw("bivector += bivector", &b3(&w), &sum(a, b))?;
            let mut w = ba;
            w -= bb;
            cw("bivector -= bivector", &b3(&w), &dif(a, b))?;
            let mut w = ba;
            w *= kt;
            cw("bivector *= scalar", &b3(&w), &mul3(a, k))?;
            if k != 0.0 {
                cw("bivector / scalar", &b3(&(ba / kt)), &div(a))?;
                let mut w = ba;
                w /= kt;
                cw("bivector /= scalar", &b3(&w), &div(a))?;
            }
            cw("bivector + zero", &b3(&(ba + Bivector3::zero())), &a)?;
            cw("zero bivector", &b3(&Bivector3::<T>::zero()), &[0.0; 3])?;
            cw("unit bivector xy", &b3(&Bivector3::<T>::unit_xy()), &[1.0, 0.0, 0.0])?;
            cw("unit bivector xz", &b3(&Bivector3::<T>::unit_xz()), &[0.0, 1.0, 0.0])?;
            cw("unit bivector yz", &b3(&Bivector3::<T>::unit_yz()), &[0.0, 0.0, 1.0])?;
            // trivectors
            let (x, y) = (a[0], b[0]);
            let t = |x: f64| Trivector3::<T>::new(T::of(x));
            let te = |what: &str, got: Trivector3<T>, want: f64| tri(what, &got, want, u * want.abs());
            te("trivector + trivector", t(x) + t(y), x + y)?;
            te("trivector - trivector", t(x) - t(y), x - y)?;
            te("- trivector", -t(x), -x)?;
            let mut w = t(x);
            w += t(y);
            te("trivector += trivector", w, x + y)?;
            let mut w = t(x);
            w -= t(y);
            te("trivector -= trivector", w, x - y)?;
            let mut w = t(x);
            w *= kt;
            te("trivector *= scalar", w, x * k)?;
            if k != 0.0 {
                te("trivector / scalar", t(x) / kt, div(a)[0])?;
                let mut w = t(x);
                w /= kt;
                te("trivector /= scalar", w, div(a)[0])?;
            }
            te("zero trivector", Trivector3::zero(), 0.0)?;
            te("trivector + zero", t(x) + Trivector3::zero(), x)?;
            te("unit trivector", Trivector3::unit_xyz(), 1.0)?;
            // rotors
            let (s1, s2) = (c.c[6].0, c.c[7].0);
            let (ra, rb): (Rotor3<T>, Rotor3<T>) = (rot_of(s1, a), rot_of(s2, b));
            let rw = |what: &str, got: Rotor3<T>, s: f64, b: [f64; 3]| -> Res {
                cw(what, &[got.scalar.f()], &[s])?;
                cw(what, &b3(&got.bivector), &b)
            };
            rw("rotor + rotor", ra + rb, s1 + s2, sum(a, b))?;
            rw("rotor - rotor", ra - rb, s1 - s2, dif(a, b))?;
            rw("- rotor", -ra, -s1, mul3(a, -1.0))?;
            rw("rotor * scalar", ra * kt, s1 * k, mul3(a, k))?;
            let mut w = ra;
            w += rb;
            rw("rotor += rotor", w, s1 + s2, sum(a, b))?;
            let mut w = ra;
            w -= rb;
            rw("rotor -= rotor", w, s1 - s2, dif(a, b))?;
            let mut w = ra;
            w *= kt;
            rw("rotor *= scalar", w, s1 * k, mul3(a, k))?;
            if k != 0.0 {
                let sd = div([s1, 0.0, 0.0])[0];
                rw("rotor / scalar", ra / kt, sd, div(a))?;
                let mut w = ra;
                w /= kt;
                rw("rotor /= scalar", w, sd, div(a))?;
            }
            rw("identity rotor", Rotor3::<T>::identity(), 1.0, [0.0; 3])?;
            // zero tests
            for m in 0..8u32 {
                let p = |i: u32| if m >> i & 1 == 1 { if c.c[i as usize].0 != 0.0 { T::of(c.c[i as usize].0) } else { T::of(1.0) } } else { z };
                let want = m == 0;
                let v = Vector3::new(p(0), p(1), p(2));
                ensure!(v.is_zero() == want, "{:?}.is_zero() should be {}", v, want);
                let v = Bivector3::new(p(0), p(1), p(2));
                ensure!(v.is_zero() == want, "{:?}.is_zero() should be {}", v, want);
                let v = Trivector3::new(p(0));
                ensure!(v.is_zero() == (m & 1 == 0), "{:?}.is_zero() is wrong", v);
            }
            Ok(())
        }
    };
}
vector_space!(vs_i64, i64, true);
vector_space!(vs_i32, i32, true);
vector_space!(vs_f32, f32, false);
vector_space!(vs_f64, f64, false);

fn check_vector_space(c: &Comps, o: &mut Obs) -> Res {
    o.label(if c.int { "integer components" } else { "float components" });
    o.nontrivial_if(comps_nontrivial(c));
    if c.int {
        vs_i64(c).map_err(|e| format!("i64: {}", e))?;
        vs_i32(c).map_err(|e| format!("i32: {}", e))?;
    }
    vs_f32(c).map_err(|e| format!("f32: {}", e))?;
    vs_f64(c).map_err(|e| format!("f64: {}", e))
}

// ---------- A03 ----------

macro_rules! norms {
    ($name:ident, $t:ty) => {
        fn $name(c: &Comps, o: &mut Obs) -> Res {
            type T = $t;
            let c = &Comps { c: c.c.iter().map(|x| T::q(*x)).collect(), int: c.int };
            let u = <T as Sc>::U * 16.0;
            let k = c.c[12].0;
            // the squares of the scaled components have to be representable in f32
            let size = c.c.iter().map(|x| x.0.abs()).fold(0.0, f64::max).max(2f64.powi(-48));
            let kk = if k == 0.0 || (k * size).abs() > 2f64.powi(56) || (k * size).abs() < 2f64.powi(-50) { 1.0 } else { k };
            let a = g3(c, 0);
            let one = mv_r(1.0, [0.0; 3]);
            let n = len3(a);
            let ok = |x: f64| x > 2f64.powi(-58) && x < 2f64.powi(58);
            // vectors
            {
                let v: Vector3<T> = vec_of(a);
                near1("norm of a vector", v.norm().f(), n, u * n)?;
                near1("squared norm of a vector", v.norm_squared().f(), n * n, u * n * n + 1e-40)?;
                near1("norm of a scaled vector", (v * T::of(kk)).norm().f(), n * kk.abs(), u * n * kk.abs())?;
                if ok(n) {
                    o.label("non-zero");
                    near3("normalised vector", v3(&v.normalize()), mul3(a, 1.0 / n), u)?;
                    near1("norm of a normalised vector", v.normalize().norm().f(), 1.0, u)?;
                    let i = v.inverse();
                    for (what, r) in [("v v^-1", gp(&mv_v(a), &mv_v(v3(&i)))), ("v^-1 v", gp(&mv_v(v3(&i)), &mv_v(a)))] {
                        for s in 0..8 {
                            near1(what, r[s], one[s], u)?;
                        }
                    }
                }
            }
            // bivectors
            {
                let v: Bivector3<T> = biv_of(a);
                near1("norm of a bivector", v.norm().f(), n, u * n)?;
                near1("squared norm of a bivector", v.norm_squared().f(), n * n, u * n * n + 1e-40)?;
                near1("norm of a scaled bivector", (v * T::of(kk)).norm().f(), n * kk.abs(), u * n * kk.abs())?;
                if ok(n) {
                    near3("normalised bivector", b3(&v.normalize()), mul3(a, 1.0 / n), u)?;
                    near1("norm of a normalised bivector", v.normalize().norm().f(), 1.0, u)?;
                    let i = v.inverse();
                    for (what, r) in [("B B^-1", gp(&mv_b(a), &mv_b(b3(&i)))), ("B^-1 B", gp(&mv_b(b3(&i)), &mv_b(a)))] {
                        for s in 0..8 {
                            near1(what, r[s], one[s], u)?;
                        }
                    }
                }
            }
            // trivectors
            {
                let x = a[0];
                let v: Trivector3<T> = Trivector3::new(T::of(x));
                near1("norm of a trivector", v.norm().f(), x.abs(), u * x.abs())?;
                near1("squared norm of a trivector", v.norm_squared().f(), x * x, u * x * x + 1e-40)?;
                if ok(x.abs()) {
                    tri("normalised trivector", &v.normalize(), x.signum(), u)?;
                    near1("norm of a normalised trivector", v.normalize().norm().f(), 1.0, u)?;
                    tri("inverse of a trivector", &v.inverse(), -1.0 / x, u / x.abs())?;
                    near1("T T^-1", (v * v.inverse()).f(), 1.0, u)?;
                    near1("T^-1 T", (v.inverse() * v).f(), 1.0, u)?;
                }
            }
            // rotors
            {
                let s = c.c[6].0;
                let m = n.hypot(s);
                let v: Rotor3<T> = rot_of(s, a);
                near1("norm of a rotor", v.norm().f(), m, u * m)?;
                near1("squared norm of a rotor", v.norm_squared().f(), m * m, u * m * m + 1e-40)?;
                near1("norm of a scaled rotor", (v * T::of(kk)).norm().f(), m * kk.abs(), u * m * kk.abs())?;
                if ok(m) {
                    let w = v.normalize();
                    near1("normalised rotor, scalar part", w.scalar.f(), s / m, u)?;
                    near3("normalised rotor, bivector part", b3(&w.bivector), mul3(a, 1.0 / m), u)?;
                    near1("norm of a normalised rotor", w.norm().f(), 1.0, u)?;
                    // unit rotor given by its components
                    let w: Rotor3<T> = rot_of(s / m, mul3(a, 1.0 / m));
                    let (mw, mi) = (r4(&w), r4(&w.inverse()));
                    for (what, r) in [("R R^-1", gp(&mw, &mi)), ("R^-1 R", gp(&mi, &mw))] {
                        for s in 0..8 {
                            near1(what, r[s], one[s], u)?;
                        }
                    }
                }
            }
            Ok(())
        }
    };
}
norms!(norms_f32, f32);
norms!(norms_f64, f64);

fn check_norms(c: &Comps, o: &mut Obs) -> Res {
    o.nontrivial_if(comps_nontrivial(c));
    norms_f32(c, o).map_err(|e| format!("f32: {}", e))?;
    norms_f64(c, o).map_err(|e| format!("f64: {}", e))
}

// ---------- A04..A06 ----------

/// Orthonormal frame from three angles (f64).
fn ortho(yaw: f64, pitch: f64, roll: f64) -> [[f64; 3]; 3] {
    let rot = |v: [f64; 3], i: usize, j: usize, t: f64| {
        let mut r = v;
        r[i] = v[i] * t.cos() - v[j] * t.sin();
        r[j] = v[i] * t.sin() + v[j] * t.cos();
        r
    };
    let mut f = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    for v in f.iter_mut() {
        *v = rot(rot(rot(*v, 0, 1, yaw), 0, 2, pitch), 1, 2, roll);
    }
    f
}
fn wedge3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    bpart(&gp(&mv_v(a), &mv_v(b)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rot {
    frame: [D; 3],
    angle: D,
    x: [D; 3],
    y: [D; 3],
}
fn angle() -> impl Strategy<Value = D> {
    use std::f64::consts::PI;
    prop_oneof![
        6 => -7.0f64..7.0,
        1 => prop::sample::select(vec![0.0, PI / 2.0, -PI / 2.0, PI, -PI, 2.0 * PI, -2.0 * PI, 1e-4, -1e-4, PI / 4.0]),
        1 => -100.0f64..100.0,
        1 => -1e5f64..1e5,
        1 => signed_pow(-40.0, 0.0),
    ]
    .prop_map(D)
}
fn unit_angle() -> impl Strategy<Value = D> {
    prop_oneof![1 => Just(0.0), 1 => Just(std::f64::consts::FRAC_PI_2), 6 => -3.2f64..3.2].prop_map(D)
}
fn comp3() -> impl Strategy<Value = [D; 3]> {
    (prop_oneof![1 => [comp_int(3), comp_int(3), comp_int(3)].boxed(), 3 => [comp_float(-4.0, 4.0), comp_float(-4.0, 4.0), comp_float(-4.0, 4.0)].boxed()], -3i32..3).prop_map(|(v, e)| {
        let s = 2f64.powi(4 * e);
        [D(v[0].0 * s), D(v[1].0 * s), D(v[2].0 * s)]
    })
}
fn d3(x: &[D; 3]) -> [f64; 3] {
    [x[0].0, x[1].0, x[2].0]
}
fn rot() -> impl Strategy<Value = Rot> {
    ([unit_angle(), unit_angle(), unit_angle()], angle(), comp3(), comp3()).prop_map(|(frame, angle, x, y)| Rot { frame, angle, x, y })
}
/// Rotation by t in the plane from e to f (orthonormal).
fn rotated(x: [f64; 3], e: [f64; 3], f: [f64; 3], t: f64) -> [f64; 3] {
    let (p, q) = (dot3(x, e), dot3(x, f));
    let rest = add3(x, mul3(add3(mul3(e, p), mul3(f, q)), -1.0));
    add3(rest, add3(mul3(e, p * t.cos() - q * t.sin()), mul3(f, p * t.sin() + q * t.cos())))
}

macro_rules! angle_plane {
    ($name:ident, $t:ty) => {
        fn $name(c: &Rot) -> Res {
            type T = $t;
            let c = &Rot { frame: c.frame, angle: T::q(c.angle), x: T::q3(&c.x), y: T::q3(&c.y) };
            let u = <T as Sc>::U * 24.0;
            let f = ortho(c.frame[0].0, c.frame[1].0, c.frame[2].0);
            let t = c.angle.0;
            let (x, y) = (d3(&c.x), d3(&c.y));
            let (vx, vy): (Vector3<T>, Vector3<T>) = (vec_of(x), vec_of(y));
            let plane: Bivector3<T> = biv_of(wedge3(f[0], f[1]));
            let r = Rotor3::from_angle_plane(T::of(t), plane);
            near1("norm of the rotor", len3(b3(&r.bivector)).hypot(r.scalar.f()), 1.0, u)?;
            let (gx, gy) = (v3(&r.rotate(vx)), v3(&r.rotate(vy)));
            near3(&format!("{:?} rotated by {} in the plane {:?}", x, t, plane), gx, rotated(x, f[0], f[1], t), u * len3(x))?;
            near3("second vector", gy, rotated(y, f[0], f[1], t), u * len3(y))?;
            near1("length after rotation", len3(gx), len3(x), u * len3(x))?;
            near1("dot product after rotation", dot3(gx, gy), dot3(x, y), 3.0 * u * len3(x) * len3(y))?;
            // perpendicular part
            let z: Vector3<T> = vec_of(f[2]);
            near3("normal of the plane", v3(&r.rotate(z)), f[2], u)?;
            // handedness
            let g: Vec<[f64; 3]> = f.iter().map(|v| v3(&r.rotate(vec_of(*v)))).collect();
            let det = |m: &[[f64; 3]]| gp(&gp(&mv_v(m[0]), &mv_v(m[1])), &mv_v(m[2]))[E123];
            near1("handedness", det(&g), det(&f), 4.0 * u)?;
            // named planes
            let ax = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
            for (what, r, e, f) in [
                ("xy", Rotor3::<T>::from_xy_rotation(T::of(t)), ax[0], ax[1]),
                ("xz", Rotor3::<T>::from_xz_rotation(T::of(t)), ax[0], ax[2]),
                ("yz", Rotor3::<T>::from_yz_rotation(T::of(t)), ax[1], ax[2]),
            ] {
                near3(what, v3(&r.rotate(vx)), rotated(x, e, f, t), u * len3(x))?;
            }
            near3("identity rotor", v3(&Rotor3::<T>::identity().rotate(vx)), x, u * len3(x))?;
            Ok(())
        }
    };
}
angle_plane!(angle_plane_f32, f32);
angle_plane!(angle_plane_f64, f64);

fn check_angle_plane(c: &Rot, o: &mut Obs) -> Res {
    let t = c.angle.0.abs();
    o.label(if t > std::f64::consts::PI { "more than half a turn" } else { "at most half a turn" });
    o.nontrivial_if(t > 0.0 && len3(d3(&c.x)) > 0.0 && c.frame.iter().any(|a| a.0 != 0.0));
    angle_plane_f32(c).map_err(|e| format!("f32: {}", e))?;
    angle_plane_f64(c).map_err(|e| format!("f64: {}", e))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comp {
    /// three rotors as 4 components each; normalised by the check when `unit`
    r: [[D; 4]; 3],
    x: [D; 3],
    unit: bool,
}
fn comp() -> impl Strategy<Value = Comp> {
    let c4 = || [comp_int(9), comp_int(9), comp_int(9), comp_int(9)];
    let f4 = || [comp_float(-5.0, 2.0), comp_float(-5.0, 2.0), comp_float(-5.0, 2.0), comp_float(-5.0, 2.0)];
    prop_oneof![
        1 => ([c4(), c4(), c4()], [comp_int(9), comp_int(9), comp_int(9)]).prop_map(|(r, x)| Comp { r, x, unit: false }),
        3 => ([f4(), f4(), f4()], comp3()).prop_map(|(r, x)| Comp { r, x, unit: true }),
    ]
}

macro_rules! compose {
    ($name:ident, $t:ty) => {
        fn $name(c: &Comp) -> Res {
            type T = $t;
            let c = &Comp { r: c.r, x: T::q3(&c.x), unit: c.unit };
            let u = <T as Sc>::U * 48.0;
            let mut rs: Vec<Rotor3<T>> = vec![];
            for q in &c.r {
                let n = (q[0].0 * q[0].0 + q[1].0 * q[1].0 + q[2].0 * q[2].0 + q[3].0 * q[3].0).sqrt();
                if n == 0.0 {
                    return Ok(());
                }
                let k = if c.unit { 1.0 / n } else { 1.0 };
                rs.push(rot_of(q[0].0 * k, [q[1].0 * k, q[2].0 * k, q[3].0 * k]));
            }
            let x = d3(&c.x);
            let vx: Vector3<T> = vec_of(x);
            let nr: Vec<f64> = rs.iter().map(|r| r4(r).iter().map(|z| z * z).sum::<f64>().sqrt()).collect();
            // exact for the integer cases: products stay below 2^24
            let exact = !c.unit;
            let tol = |s: f64| if exact { 0.0 } else { u * s };
            let (a, b, d) = (rs[0], rs[1], rs[2]);
            let lx = len3(x);
            // two-sided product
            for r in [a, b] {
                let m = r4(&r);
                let n2 = m.iter().map(|z| z * z).sum::<f64>();
                let want = gp(&gp(&m, &mv_v(x)), &reverse(&m));
                near1("two-sided product keeps the grade", want[E123], 0.0, 1e-9 * (1.0 + n2 * lx))?;
                near3("rotate(x) = R x R^-1", v3(&r.rotate(vx)), vpart(&want), tol(n2 * lx))?;
                near3("(-R).rotate(x)", v3(&(-r).rotate(vx)), vpart(&want), tol(n2 * lx))?;
                // through the crate's own products
                let (v, t) = r * vx;
                let i = r.inverse();
                let full = gp(&{ let mut q = mv_v(v3(&v)); q[E123] = gp(&m, &mv_v(x))[E123]; q }, &r4(&i));
                near3("(R x) R^-1", vpart(&full), vpart(&want), tol(n2 * lx))?;
                tri("trivector part of R x", &t, gp(&m, &mv_v(x))[E123], tol(n2.sqrt() * lx))?;
                near3("R^-1 undoes R", v3(&i.rotate(r.rotate(vx))), mul3(x, n2 * n2), tol(n2 * n2 * lx))?;
                near3("R undoes R^-1", v3(&r.rotate(i.rotate(vx))), mul3(x, n2 * n2), tol(n2 * n2 * lx))?;
            }
            let p = a * b;
            let want = gp(&r4(&a), &r4(&b));
            for s in 0..8 {
                near1("product of two rotors", r4(&p)[s], want[s], tol(nr[0] * nr[1]))?;
            }
            let np = r4(&p).iter().map(|z| z * z).sum::<f64>().sqrt();
            near1("norm of a product", np, nr[0] * nr[1], if exact { 1e-9 * np } else { tol(1.0) })?;
            let k = nr[0] * nr[0] * nr[1] * nr[1];
            near3("(AB).rotate(x) = A.rotate(B.rotate(x))", v3(&p.rotate(vx)), v3(&a.rotate(b.rotate(vx))), if exact { 0.0 } else { u * k * lx })?;
            let (l, r) = ((a * b) * d, a * (b * d));
            for s in 0..8 {
                near1("associativity", r4(&l)[s], r4(&r)[s], tol(nr[0] * nr[1] * nr[2]))?;
            }
            Ok(())
        }
    };
}
compose!(compose_f32, f32);
compose!(compose_f64, f64);

fn check_compose(c: &Comp, o: &mut Obs) -> Res {
    o.label(if c.unit { "unit rotors" } else { "integer rotors (exact)" });
    o.nontrivial_if(len3(d3(&c.x)) > 0.0 && c.r.iter().all(|r| r.iter().filter(|z| z.0 != 0.0).count() >= 2));
    if c.unit {
        compose_f32(c).map_err(|e| format!("f32: {}", e))?;
    }
    compose_f64(c).map_err(|e| format!("f64: {}", e))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Between {
    frame: [D; 3],
    angle: D,
    lens: [D; 2],
    x: [D; 3],
}
fn between() -> impl Strategy<Value = Between> {
    let ang = prop_oneof![5 => 0.0f64..3.1, 1 => (1e-3f64..0.1).prop_map(|d| std::f64::consts::PI - d), 1 => Just(0.0), 1 => Just(std::f64::consts::FRAC_PI_2), 1 => (-20.0f64..0.0).prop_map(|e| 2f64.powf(e))];
    let len = || prop_oneof![2 => Just(1.0f64), 1 => 0.999f64..1.001, 4 => (-10.0f64..10.0).prop_map(|e| 2f64.powf(e)), 1 => (-50.0f64..50.0).prop_map(|e| 2f64.powf(e))].prop_map(D);
    ([unit_angle(), unit_angle(), unit_angle()], ang.prop_map(D), [len(), len()], comp3()).prop_map(|(frame, angle, lens, x)| Between { frame, angle, lens, x })
}
macro_rules! from_vectors {
    ($name:ident, $t:ty) => {
        fn $name(c: &Between) -> Res {
            type T = $t;
            let c = &Between { frame: c.frame, angle: c.angle, lens: c.lens, x: T::q3(&c.x) };
            let f = ortho(c.frame[0].0, c.frame[1].0, c.frame[2].0);
            let (u, v) = (mul3(f[0], c.lens[0].0), mul3(add3(mul3(f[0], c.angle.0.cos()), mul3(f[1], c.angle.0.sin())), c.lens[1].0));
            let (tu, tv): (Vector3<T>, Vector3<T>) = (vec_of(u), vec_of(v));
            // what the code actually got
            let (u, v) = (v3(&tu), v3(&tv));
            let (du, dv) = (mul3(u, 1.0 / len3(u)), mul3(v, 1.0 / len3(v)));
            let half = len3(add3(du, dv)) / 2.0; // cos of half the angle
            let tol = <T as Sc>::U * 32.0 / half;
            let r = Rotor3::from_vectors(tu, tv);
            near1("norm", r4(&r).iter().map(|z| z * z).sum::<f64>().sqrt(), 1.0, tol)?;
            near3("from u", v3(&r.rotate(vec_of(du))), dv, tol)?;
            near1("cosine of half the angle", r.scalar.f(), half, tol)?;
            // fixed direction
            let n = f[2];
            near3("normal of the plane", v3(&r.rotate(vec_of(n))), n, tol)?;
            // any vector: rotated in the plane spanned by u and v
            let x = d3(&c.x);
            let w = add3(dv, mul3(du, -dot3(du, dv)));
            let s = len3(w);
            if s > 1e-3 {
                let e2 = mul3(w, 1.0 / s);
                let th = s.atan2(dot3(du, dv));
                near3("any vector", v3(&r.rotate(vec_of(x))), rotated(x, du, e2, th), 4.0 * tol * len3(x) / s.min(1.0))?;
            }
            let b = Rotor3::from_vectors(tv, tu);
            near1("swapped, scalar part", b.scalar.f(), r.inverse().scalar.f(), tol)?;
            near3("swapped, bivector part", b3(&b.bivector), b3(&r.inverse().bivector), tol)?;
            // lengths do not matter
            for k in [0.5, 3.0, 64.0] {
                let q = Rotor3::from_vectors(tu * T::of(k), tv * T::of(1.0 / k));
                near1("other lengths, scalar part", q.scalar.f(), r.scalar.f(), tol)?;
                near3("other lengths, bivector part", b3(&q.bivector), b3(&r.bivector), tol)?;
            }
            Ok(())
        }
    };
}
from_vectors!(from_vectors_f32, f32);
from_vectors!(from_vectors_f64, f64);
fn check_from_vectors(c: &Between, o: &mut Obs) -> Res {
    o.label(if c.lens[0].0 == 1.0 && c.lens[1].0 == 1.0 { "unit vectors" } else { "other lengths" });
    o.nontrivial_if(c.angle.0 > 0.0 && (c.lens[0].0 != 1.0 || c.lens[1].0 != 1.0));
    from_vectors_f32(c).map_err(|e| format!("f32: {}", e))?;
    from_vectors_f64(c).map_err(|e| format!("f64: {}", e))
}

// ---------- A07 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    u: [D; 3],
    v: [D; 3],
}
fn two() -> impl Strategy<Value = Two> {
    let rel = prop_oneof![4 => Just(None), 1 => Just(Some(1.0)), 1 => Just(Some(-1.0)), 2 => prop_oneof![signed_pow(-4.0, 4.0), (-9i32..9).prop_map(|x| x as f64)].prop_map(Some)];
    let scale = || prop_oneof![3 => Just(0i32), 1 => -40i32..40];
    let perp = prop_oneof![6 => Just(false), 1 => Just(true)];
    (comp3(), comp3(), rel, scale(), scale(), perp).prop_map(|(u, v, rel, su, sv, perp)| {
        let v = match rel {
            Some(k) if k != 0.0 => [D(u[0].0 * k), D(u[1].0 * k), D(u[2].0 * k)],
            // exactly perpendicular (one component of v swapped and negated)
            _ if perp => [D(-u[1].0), u[0], D(0.0)],
            _ => v,
        };
        let s = |w: [D; 3], e: i32| [D(w[0].0 * 2f64.powi(e)), D(w[1].0 * 2f64.powi(e)), D(w[2].0 * 2f64.powi(e))];
        Two { u: s(u, su), v: s(v, sv) }
    })
}
macro_rules! euclid {
    ($name:ident, $t:ty) => {
        fn $name(c: &Two) -> Res {
            type T = $t;
            let c = &Two { u: T::q3(&c.u), v: T::q3(&c.v) };
            let e = <T as Sc>::U * 16.0;
            let (u, v) = (d3(&c.u), d3(&c.v));
            let (tu, tv): (Vector3<T>, Vector3<T>) = (vec_of(u), vec_of(v));
            let (lu, lv) = (len3(u), len3(v));
            if lv < 2f64.powi(-58) {
                return Ok(());
            }
            let dv = mul3(v, 1.0 / lv);
            let along = mul3(dv, dot3(u, dv));
            near3("projection", v3(&tu.project(tv)), along, e * lu)?;
            let want = add3(mul3(along, 2.0), mul3(u, -1.0));
            near3("reflection", v3(&tu.reflect(tv)), want, 2.0 * e * lu)?;
            near3("reflected twice", v3(&tu.reflect(tv).reflect(tv)), u, 4.0 * e * lu)?;
            if lu < 2f64.powi(-58) {
                return Ok(());
            }
            let cosine = dot3(mul3(u, 1.0 / lu), dv);
            let a = |x: Vector3<T>, y: Vector3<T>| x.angle(y).f();
            for (what, g) in [("angle", a(tu, tv)), ("angle, swapped", a(tv, tu)), ("angle, first scaled", a(tu * T::of(3.0), tv)), ("angle, second scaled", a(tu, tv * T::of(0.125)))] {
                ensure!(g >= 0.0 && g <= std::f64::consts::PI * (1.0 + <T as Sc>::U), "{} of {:?} and {:?} is {}", what, u, v, g);
                near1(what, g.cos(), cosine, e)?;
            }
            let g = a(tu, tu);
            ensure!(g.cos() >= 1.0 - e, "angle of {:?} with itself is {}", u, g);
            let g = a(tu, -tu);
            ensure!(g.cos() <= -1.0 + e, "angle of {:?} with its opposite is {}", u, g);
            Ok(())
        }
    };
}
euclid!(euclid_f32, f32);
euclid!(euclid_f64, f64);
fn check_euclid(c: &Two, o: &mut Obs) -> Res {
    let (u, v) = (d3(&c.u), d3(&c.v));
    let s = len3(wedge3(u, v));
    o.label(if s <= 1e-6 * len3(u) * len3(v) { "parallel or zero" } else { "general" });
    o.nontrivial_if(len3(u) > 0.0 && len3(v) > 0.0 && u.iter().filter(|z| **z != 0.0).count() >= 2);
    euclid_f32(c).map_err(|e| format!("f32: {}", e))?;
    euclid_f64(c).map_err(|e| format!("f64: {}", e))
}

// ---------- A08 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Appr {
    a: [D; 4],
    /// per component: difference in ulps (of f32 or f64), and an absolute difference in multiples of the absolute tolerance
    ulps: [i8; 4],
    abs: [D; 4],
    eps: D,
    rel: D,
    max_ulps: u32,
}
fn appr() -> impl Strategy<Value = Appr> {
    let comp = prop_oneof![1 => Just(0.0f64), 1 => Just(1.0), 1 => Just(-0.0), 4 => signed_pow(-12.0, 12.0), 1 => signed_pow(-60.0, 60.0)].prop_map(D);
    let ul = || prop_oneof![6 => Just(0i8), 2 => -3i8..=3, 2 => -20i8..=20];
    let ab = || prop_oneof![6 => Just(0.0f64), 2 => -2.0f64..2.0, 1 => -1000.0f64..1000.0].prop_map(D);
    let tol = || prop_oneof![1 => Just(0.0f64), 1 => Just(f32::EPSILON as f64), 1 => Just(f64::EPSILON), 1 => Just(1e-3), 3 => (-40.0f64..4.0).prop_map(|e| 2f64.powf(e))].prop_map(D);
    // often only one component differs
    let ulps = prop_oneof![1 => [ul(), ul(), ul(), ul()], 1 => (0usize..4, -20i8..=20).prop_map(|(i, k)| { let mut r = [0; 4]; r[i] = k; r })];
    let abs = prop_oneof![1 => [ab(), ab(), ab(), ab()], 1 => Just([D(0.0); 4]), 1 => (0usize..4, ab()).prop_map(|(i, k)| { let mut r = [D(0.0); 4]; r[i] = k; r })];
    ([comp.clone(), comp.clone(), comp.clone(), comp], ulps, abs, tol(), tol(), prop_oneof![1 => Just(0u32), 1 => Just(4u32), 1 => 0u32..24]).prop_map(|(a, ulps, abs, eps, rel, max_ulps)| Appr { a, ulps, abs, eps, rel, max_ulps })
}
macro_rules! approx_cmp {
    ($name:ident, $t:ty, $bits:ty) => {
        fn $name(c: &Appr, o: &mut Obs) -> Res {
            type T = $t;
            let (eps, rel, mu) = (T::of(c.eps.0), T::of(c.rel.0), c.max_ulps);
            let mut a = [0.0 as T; 4];
            let mut b = [0.0 as T; 4];
            for i in 0..4 {
                a[i] = T::of(c.a[i].0);
                let mut x = a[i];
                if x != 0.0 {
                    x = T::from_bits((x.to_bits() as i64).wrapping_add(c.ulps[i] as i64) as $bits);
                }
                if c.abs[i].0 != 0.0 {
                    x += T::of(c.abs[i].0) * eps;
                }
                b[i] = x;
            }
            if a.iter().chain(&b).any(|x| !x.is_finite()) {
                return Ok(());
            }
            // what every pair of components says
            let each = |f: &dyn Fn(&T, &T) -> bool, n: usize| (0..n).all(|i| f(&a[i], &b[i]));
            let ad = |x: &T, y: &T| T::abs_diff_eq(x, y, eps);
            let re = |x: &T, y: &T| T::relative_eq(x, y, eps, rel);
            let ul = |x: &T, y: &T| T::ulps_eq(x, y, eps, mu);
            let some_differ = |n: usize| (0..n).filter(|i| a[*i] != b[*i]).count();
            if some_differ(4) == 1 {
                o.label("one component differs");
            }
            if some_differ(3) >= 1 {
                o.nontrivial();
            }
            macro_rules! judge {
                ($what:expr, $ty:ty, $x:expr, $y:expr, $n:expr) => {
                    let (x, y) = ($x, $y);
                    let w = each(&|x: &T, y: &T| x == y, $n);
                    ensure!((x == y) == w && (y == x) == w && (x != y) != w, "{} {:?} == {:?} should be {}", $what, x, y, w);
                    ensure!(x == x && y == y, "{} {:?} should equal itself", $what, x);
                    let w = each(&ad, $n);
                    ensure!(x.abs_diff_eq(&y, eps) == w, "{} abs_diff_eq({:?}, {:?}, {:?}) should be {}", $what, x, y, eps, w);
                    ensure!(y.abs_diff_eq(&x, eps) == w, "{} abs_diff_eq is not symmetric: {:?} {:?} {:?}", $what, x, y, eps);
                    ensure!(x.abs_diff_ne(&y, eps) != w, "{} abs_diff_ne is not the complement: {:?} {:?} {:?}", $what, x, y, eps);
                    ensure!(x.abs_diff_eq(&x, eps), "{} abs_diff_eq is not reflexive: {:?} {:?}", $what, x, eps);
                    let w = each(&re, $n);
                    ensure!(x.relative_eq(&y, eps, rel) == w, "{} relative_eq({:?}, {:?}, {:?}, {:?}) should be {}", $what, x, y, eps, rel, w);
                    ensure!(y.relative_eq(&x, eps, rel) == w, "{} relative_eq is not symmetric: {:?} {:?}", $what, x, y);
                    ensure!(x.relative_ne(&y, eps, rel) != w, "{} relative_ne is not the complement: {:?} {:?}", $what, x, y);
                    ensure!(x.relative_eq(&x, eps, rel), "{} relative_eq is not reflexive: {:?}", $what, x);
                    let w = each(&ul, $n);
                    ensure!(x.ulps_eq(&y, eps, mu) == w, "{} ulps_eq({:?}, {:?}, {:?}, {}) should be {}", $what, x, y, eps, mu, w);
                    ensure!(y.ulps_eq(&x, eps, mu) == w, "{} ulps_eq is not symmetric: {:?} {:?}", $what, x, y);
                    ensure!(x.ulps_ne(&y, eps, mu) != w, "{} ulps_ne is not the complement: {:?} {:?}", $what, x, y);
                    ensure!(x.ulps_eq(&x, eps, mu), "{} ulps_eq is not reflexive: {:?}", $what, x);
                    ensure!(<$ty>::default_epsilon() == T::default_epsilon(), "{} default_epsilon", $what);
                    ensure!(<$ty>::default_max_relative() == T::default_max_relative(), "{} default_max_relative", $what);
                    ensure!(<$ty>::default_max_ulps() == T::default_max_ulps(), "{} default_max_ulps", $what);
                };
            }
            judge!("vector", Vector3<T>, Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]), 3);
            judge!("bivector", Bivector3<T>, Bivector3::new(a[0], a[1], a[2]), Bivector3::new(b[0], b[1], b[2]), 3);
            judge!("trivector", Trivector3<T>, Trivector3::new(a[0]), Trivector3::new(b[0]), 1);
            judge!("rotor", Rotor3<T>, Rotor3::new(a[3], Bivector3::new(a[0], a[1], a[2])), Rotor3::new(b[3], Bivector3::new(b[0], b[1], b[2])), 4);
            Ok(())
        }
    };
}
approx_cmp!(approx_f32, f32, u32);
approx_cmp!(approx_f64, f64, u64);
fn check_approx(c: &Appr, o: &mut Obs) -> Res {
    approx_f32(c, o).map_err(|e| format!("f32: {}", e))?;
    approx_f64(c, o).map_err(|e| format!("f64: {}", e))
}

// ---------- A09 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nk {
    n: u64,
    k: u64,
}
fn nk() -> impl Strategy<Value = Nk> {
    let any_k = || prop_oneof![6 => 0u64..=45, 1 => 0u64..2000, 2 => (0u32..=60, 0u64..3).prop_map(|(e, d)| (1u64 << e) - 1 + d)];
    let small = (prop_oneof![6 => 0u64..=30, 2 => 31u64..=63], any_k()).prop_map(|(n, k)| Nk { n, k });
    // grades next to one end of a large space
    let wide = (prop_oneof![3 => 31u64..=70, 2 => 64u64..5000, 2 => (12u32..=60, 0u64..3).prop_map(|(e, d)| (1u64 << e) - 1 + d)], prop_oneof![4 => 0u64..=4, 2 => 0u64..=31], 0u8..3)
        .prop_map(|(n, k, side)| Nk { n, k: match side { 0 => k, 1 => n.saturating_sub(k), _ => n.saturating_add(k) } });
    prop_oneof![2 => small, 1 => wide]
}
/// n choose k, unless it (times the larger of the factors that appear on the way) is beyond 62 bits
fn choose(n: u64, k: u64) -> Option<u64> {
    if k > n {
        return Some(0);
    }
    let k = k.min(n - k);
    let mut c = 1u128;
    for i in 0..k {
        c = c * (n - i) as u128;
        if c >> 62 != 0 {
            return None;
        }
        c /= (i + 1) as u128;
    }
    Some(c as u64)
}
fn check_binomial(c: &Nk, o: &mut Obs) -> Res {
    let (n, k) = (c.n as usize, c.k as usize);
    let want = choose(c.n, c.k);
    if let Some(want) = want {
        o.label(if k > n {
            "k > n"
        } else if k == 0 {
            "k = 0"
        } else if n <= 30 {
            "0 < k <= n <= 30"
        } else if k > n / 2 {
            "n > 30, upper half"
        } else {
            "n > 30, lower half"
        });
        o.nontrivial_if(k != 1);
        let got = number_of_basis_blades(n, k) as u64;
        ensure!(got == want, "number_of_basis_blades({}, {}) = {} expected {}", n, k, got, want);
        if k <= n {
            let other = number_of_basis_blades(n, n - k) as u64;
            ensure!(other == want, "number_of_basis_blades({}, {}) = {} expected {}", n, n - k, other, want);
        }
    } else {
        o.label("beyond 62 bits: skipped");
    }
    if n < 64 {
        let total = total_number_of_basis_blades(n) as u64;
        ensure!(total == 1u64 << n, "total_number_of_basis_blades({}) = {}", n, total);
        if (0..=c.n).all(|j| choose(c.n, j).is_some()) {
            let sum: u64 = (0..=n).map(|j| number_of_basis_blades(n, j) as u64).sum();
            ensure!(sum == total, "the blades of {} dimensions sum up to {} instead of {}", n, sum, total);
            // Pascal's rule
            for j in 1..n {
                let (l, r) = (number_of_basis_blades(n - 1, j - 1), number_of_basis_blades(n - 1, j));
                ensure!(l + r == number_of_basis_blades(n, j), "the blades of {} dimensions do not obey Pascal's rule at {}", n, j);
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const TOL: &[&str] = &["float results are compared with an f64 reference within a small multiple of epsilon times the sum of the absolute terms"];
    vec![
        Prop {
            id: "A01",
            subs: vec![sub("products", "at least half of the components are neither 0 nor 1 in absolute value", (200_000, 4_000_000), |_| comps(1000), check_products)],
            assumptions: TOL,
        },
        Prop {
            id: "A02",
            subs: vec![sub("vector-space", "at least half of the components are neither 0 nor 1 in absolute value", (200_000, 4_000_000), |_| comps_wide(), check_vector_space)],
            assumptions: TOL,
        },
        Prop {
            id: "A03",
            subs: vec![sub("norms", "at least half of the components are neither 0 nor 1 in absolute value", (200_000, 4_000_000), |_| comps_wide(), check_norms)],
            assumptions: TOL,
        },
        Prop {
            id: "A04",
            subs: vec![sub("angle-plane", "a non-zero vector, a non-zero angle and a tilted plane", (200_000, 4_000_000), |_| rot(), check_angle_plane)],
            assumptions: TOL,
        },
        Prop {
            id: "A05",
            subs: vec![sub("compose", "a non-zero vector and three rotors with at least two components each", (200_000, 4_000_000), |_| comp(), check_compose)],
            assumptions: TOL,
        },
        Prop {
            id: "A06",
            subs: vec![sub("from-vectors", "a non-zero angle and lengths other than one", (200_000, 4_000_000), |_| between(), check_from_vectors)],
            assumptions: &["the two vectors are at most 3.1 radians apart; the tolerance grows with 1/cos of half the angle"],
        },
        Prop {
            id: "A07",
            subs: vec![sub("euclid", "two non-zero vectors, the first with at least two components; a third of the pairs are (anti)parallel", (200_000, 4_000_000), |_| two(), check_euclid)],
            assumptions: TOL,
        },
        Prop {
            id: "A08",
            subs: vec![sub("approx", "at least one component differs", (200_000, 4_000_000), |_| appr(), check_approx)],
            assumptions: &["the comparison of single floats by the approx crate is the reference for each component"],
        },
        Prop {
            id: "A09",
            subs: vec![sub("binomial", "k other than 1, and a result of at most 64 bits (with its last factor)", (500_000, 8_000_000), |_| nk(), check_binomial)],
            assumptions: &["results whose product with min(k, n - k) exceeds 64 bits are not judged"],
        },
    ]
}
