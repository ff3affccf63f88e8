//! U01..U08: points, segments, lines, triangles.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use kami::geometry::line::Line;
use kami::geometry::utils::*;
use kami::glm::Vec2;
use kami::math::vector::Vector3;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type FP = (F, F);
fn v(p: &FP) -> Vec2 {
    Vec2::new(p.0 .0, p.1 .0)
}
fn p(q: &FP) -> P {
    P(q.0 .0 as f64, q.1 .0 as f64)
}
fn fp(q: P) -> FP {
    (F(q.0 as f32), F(q.1 as f32))
}
fn mag(ps: &[P]) -> f64 {
    ps.iter().map(|q| q.mag()).fold(0.0, f64::max)
}

/// The eight ways to write the same pair of segments.
fn orders(s: [FP; 4]) -> [[FP; 4]; 8] {
    let [a, b, c, d] = s;
    [[a, b, c, d], [b, a, c, d], [a, b, d, c], [b, a, d, c], [c, d, a, b], [d, c, a, b], [c, d, b, a], [d, c, b, a]]
}

fn ip(r: i64) -> impl Strategy<Value = IP> + Clone {
    (-r..=r, -r..=r)
}
fn exp() -> impl Strategy<Value = i32> {
    prop_oneof![6 => Just(0), 2 => -10i32..10, 1 => -24i32..24]
}
fn sc(q: IP, e: i32) -> FP {
    let s = 2f32.powi(e);
    (F(q.0 as f32 * s), F(q.1 as f32 * s))
}

/// Generic float points at very different scales and offsets: (offset, size) frame.
fn frame() -> impl Strategy<Value = (P, f64)> {
    (
        prop_oneof![2 => Just(P(0.0, 0.0)), 2 => (-1.0f64..1.0, -1.0f64..1.0).prop_map(|(x, y)| P(x, y)), 2 => (-300.0f64..300.0, -300.0f64..300.0).prop_map(|(x, y)| P(x, y))],
        prop_oneof![4 => Just(1.0), 4 => (-8.0f64..12.0).prop_map(|e| 2f64.powf(e)), 1 => (-24.0f64..18.0).prop_map(|e| 2f64.powf(e))],
    )
}
fn upoint() -> impl Strategy<Value = P> + Clone {
    (-1.0f64..1.0, -1.0f64..1.0).prop_map(|(x, y)| P(x, y))
}

// ---------------- U01 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntSegs {
    p: [IP; 4],
    exp: i32,
}

/// Two segments in every relative position; exactly representable.
fn int_segs() -> impl Strategy<Value = IntSegs> {
    let q = prop_oneof![
        2 => [ip(3), ip(3), ip(3), ip(3)],
        2 => [ip(12), ip(12), ip(12), ip(12)],
        2 => [ip(900), ip(900), ip(900), ip(900)],
        // c on the line ab (often an endpoint), d anywhere
        4 => (ip(60), ip(20), prop_oneof![1 => Just(1i64), 2 => 1i64..9], -2i64..11, ip(300), ip(1), 0u8..4).prop_map(|(a, d, s, t, z, e, nudge)| {
            let f = |k: i64| (a.0 + k * d.0, a.1 + k * d.1);
            let c = f(t);
            [a, f(s), if nudge == 0 { (c.0 + e.0, c.1 + e.1) } else { c }, z]
        }),
        // crossing at a chosen lattice point
        2 => (ip(60), ip(15), ip(15), -6i64..6, -6i64..6, -6i64..6, -6i64..6).prop_map(|(x, d, e, s, t, u, w)| {
            let f = |d: IP, k: i64| (x.0 + k * d.0, x.1 + k * d.1);
            [f(d, s), f(d, t), f(e, u), f(e, w)]
        }),
        // parallel
        2 => (ip(60), ip(20), ip(60), -5i64..6, 1i64..5).prop_map(|(a, d, c, k, m)| [a, (a.0 + m * d.0, a.1 + m * d.1), c, (c.0 + k * d.0, c.1 + k * d.1)]),
    ];
    (q, exp()).prop_map(|(p, exp)| IntSegs { p, exp })
}

fn check_seg_int(c: &IntSegs, o: &mut Obs) -> Res {
    let [a, b, d, e] = c.p;
    if a == b || d == e {
        o.label("degenerate segment: skipped");
        return Ok(());
    }
    let fs = [sc(a, c.exp), sc(b, c.exp), sc(d, c.exp), sc(e, c.exp)];
    let par = (b.0 - a.0) * (e.1 - d.1) - (b.1 - a.1) * (e.0 - d.0) == 0;
    if par {
        if cross_i(a, b, d) == 0 {
            o.label("collinear: unspecified");
            return Ok(());
        }
        o.label("distinct parallel lines");
    }
    let meet = !par && seg_meet_i(a, b, d, e);
    let touch = meet && !seg_proper_i(a, b, d, e);
    if touch {
        o.label("touching at an endpoint");
    } else if meet {
        o.label("crossing");
    }
    o.nontrivial_if(meet || par);
    for s in orders(fs) {
        let (a, b, d, e) = (v(&s[0]), v(&s[1]), v(&s[2]), v(&s[3]));
        let got = calculate_line_segment_intersection(&a, &b, &d, &e);
        match got {
            None => ensure!(!meet, "no intersection reported for {:?}", s),
            Some(q) => {
                ensure!(meet, "intersection {:?} reported for {:?}", q, s);
                let (pa, pb, pc, pd) = (P::of(&a), P::of(&b), P::of(&d), P::of(&e));
                let (_, _, h) = line_hit(pa, pb, pc, pd).unwrap();
                let tol = seg_tol(pa, pb, pc, pd);
                ensure!(P::of(&q).dist(h) <= tol, "intersection of {:?} is {:?}, expected {:?}", s, q, h);
            }
        }
    }
    Ok(())
}

fn err_param(a: P, b: P, c: P, d: P) -> f64 {
    let den = b.sub(a).cross(d.sub(c)).abs();
    let l = a.dist(b).max(c.dist(d)).max(a.dist(c)).max(a.dist(d)).max(b.dist(c)).max(b.dist(d));
    8.0 * EPS * l * l / den
}
fn seg_tol(a: P, b: P, c: P, d: P) -> f64 {
    let l = a.dist(b).max(c.dist(d));
    err_param(a, b, c, d) * l * 2.0 + 4.0 * EPS * mag(&[a, b, c, d])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Segs {
    p: [FP; 4],
}
fn float_segs() -> impl Strategy<Value = Segs> {
    let rel = prop_oneof![
        3 => [upoint(), upoint(), upoint(), upoint()],
        // crossing at known parameters
        3 => (upoint(), upoint(), upoint(), -0.5f64..1.5, -1.0f64..1.0).prop_map(|(a, b, c, t, k)| {
            let x = a.add(b.sub(a).mul(t));
            [a, b, c, x.add(x.sub(c).mul(k))]
        }),
        // almost parallel
        1 => (upoint(), upoint(), upoint(), -2.0f64..2.0, -0.05f64..0.05).prop_map(|(a, b, c, k, e)| {
            let d = b.sub(a);
            [a, b, c, c.add(d.mul(k)).add(P(-d.1, d.0).mul(e))]
        }),
    ];
    (rel, frame()).prop_map(|(q, (o, s))| {
        let mut r = [(F(0.0), F(0.0)); 4];
        for i in 0..4 {
            r[i] = fp(q[i].add(o).mul(s));
        }
        Segs { p: r }
    })
}

fn check_seg_float(c: &Segs, o: &mut Obs) -> Res {
    let q: Vec<P> = c.p.iter().map(p).collect();
    let (a, b, d, e) = (q[0], q[1], q[2], q[3]);
    let m = mag(&q);
    if a.dist(b) < 1e-3 * m || d.dist(e) < 1e-3 * m || sin_between(a, b, d, e) < 1e-4 {
        o.label("short or nearly parallel: skipped");
        return Ok(());
    }
    let (t, u, h) = line_hit(a, b, d, e).unwrap();
    let err = err_param(a, b, d, e) * 4.0;
    let inside = |x: f64| x > err && x < 1.0 - err;
    let outside = |x: f64| x < -err || x > 1.0 + err;
    let want = if inside(t) && inside(u) {
        Some(true)
    } else if outside(t) || outside(u) {
        Some(false)
    } else {
        None
    };
    o.label(match want {
        Some(true) => "crossing",
        Some(false) => "apart",
        None => "within rounding of an endpoint",
    });
    o.nontrivial_if(want == Some(true));
    for s in orders(c.p) {
        let got = calculate_line_segment_intersection(&v(&s[0]), &v(&s[1]), &v(&s[2]), &v(&s[3]));
        match got {
            Some(g) => {
                ensure!(want != Some(false), "intersection {:?} reported for {:?} (parameters {} {})", g, s, t, u);
                let tol = seg_tol(a, b, d, e);
                ensure!(P::of(&g).dist(h) <= tol, "intersection of {:?} is {:?}, expected {:?} within {}", s, g, h, tol);
            }
            None => ensure!(want != Some(true), "no intersection reported for {:?} (parameters {} {})", s, t, u),
        }
    }
    Ok(())
}

// ---------------- U02 ----------------

fn check_line_float(c: &Segs, o: &mut Obs) -> Res {
    let q: Vec<P> = c.p.iter().map(p).collect();
    let (a, b, d, e) = (q[0], q[1], q[2], q[3]);
    let m = mag(&q);
    if a.dist(b) < 1e-3 * m || d.dist(e) < 1e-3 * m || sin_between(a, b, d, e) < 1e-3 {
        o.label("short or nearly parallel: skipped");
        return Ok(());
    }
    let (t, u, h) = line_hit(a, b, d, e).unwrap();
    let outside = t < 0.0 || t > 1.0 || u < 0.0 || u > 1.0;
    o.label(if outside { "meeting outside a segment" } else { "meeting inside both" });
    o.nontrivial_if(outside);
    for s in orders(c.p) {
        line_hit_ok(&s, h)?;
    }
    Ok(())
}

fn line_hit_ok(s: &[FP; 4], h: P) -> Res {
    let (a, b, c, d) = (p(&s[0]), p(&s[1]), p(&s[2]), p(&s[3]));
    let g = match calculate_line_intersection(&v(&s[0]), &v(&s[1]), &v(&s[2]), &v(&s[3])) {
        Some(g) => g,
        None => return Err(format!("lines {:?} meet at {:?}, nothing reported", s, h)),
    };
    let sin = sin_between(a, b, c, d);
    let far = [a, b, c, d].iter().map(|x| x.dist(h)).fold(0.0, f64::max);
    let span = a.dist(c).max(a.dist(d)).max(b.dist(c)).max(b.dist(d)).max(a.dist(b)).max(c.dist(d));
    let tol = 16.0 * EPS * (far + span) / sin + 4.0 * EPS * (mag(&[a, b, c, d]) + h.mag());
    ensure!(P::of(&g).dist(h) <= tol, "lines {:?} meet at {:?}, reported {:?} (tolerance {})", s, h, g, tol);
    Ok(())
}

fn check_line_int(c: &IntSegs, o: &mut Obs) -> Res {
    let [a, b, d, e] = c.p;
    if a == b || d == e {
        o.label("degenerate segment: skipped");
        return Ok(());
    }
    let fs = [sc(a, c.exp), sc(b, c.exp), sc(d, c.exp), sc(e, c.exp)];
    let q: Vec<P> = fs.iter().map(p).collect();
    let par = (b.0 - a.0) * (e.1 - d.1) - (b.1 - a.1) * (e.0 - d.0) == 0;
    if par {
        o.label("parallel");
        o.nontrivial();
        for s in orders(fs) {
            let g = calculate_line_intersection(&v(&s[0]), &v(&s[1]), &v(&s[2]), &v(&s[3]));
            ensure!(g.is_none(), "parallel lines {:?} meet at {:?}", s, g);
        }
        return Ok(());
    }
    if sin_between(q[0], q[1], q[2], q[3]) < 1e-3 {
        o.label("nearly parallel: skipped");
        return Ok(());
    }
    let (t, u, h) = line_hit(q[0], q[1], q[2], q[3]).unwrap();
    o.nontrivial_if(t < 0.0 || t > 1.0 || u < 0.0 || u > 1.0);
    for s in orders(fs) {
        line_hit_ok(&s, h)?;
    }
    Ok(())
}

// ---------------- U03 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Perp {
    a: FP,
    b: FP,
    p: FP,
    off: F,
}

fn perp() -> impl Strategy<Value = Perp> {
    let dir = prop_oneof![
        3 => upoint(),
        1 => (-1.0f64..1.0).prop_map(|x| P(x, 0.0)),
        1 => (-1.0f64..1.0).prop_map(|y| P(0.0, y)),
        1 => (-1.0f64..1.0, -1e-3f64..1e-3).prop_map(|(x, e)| P(x, e)),
        1 => (-1.0f64..1.0, -1e-3f64..1e-3).prop_map(|(x, e)| P(e, x)),
    ];
    let small = (ip(9), ip(9), ip(9), 0i64..20).prop_map(|(a, b, p, o)| Perp { a: sc(a, 0), b: sc(b, 0), p: sc(p, 0), off: F(o as f32) });
    let gen = (upoint(), dir, upoint(), frame(), prop_oneof![1 => Just(0.0f64), 5 => 0.0f64..3.0]).prop_map(|(a, d, p, (o, s), off)| {
        // the direction is added after rounding so that exactly horizontal/vertical segments stay so
        let a2 = a.add(o).mul(s);
        let b2 = a2.add(d.mul(s));
        let (fa, mut fb) = (fp(a2), fp(b2));
        if d.0 == 0.0 {
            fb.0 = fa.0;
        }
        if d.1 == 0.0 {
            fb.1 = fa.1;
        }
        Perp { a: fa, b: fb, p: fp(p.mul(3.0).add(o).mul(s)), off: F((off * s) as f32) }
    });
    prop_oneof![1 => small, 5 => gen]
}

fn check_perp(c: &Perp, o: &mut Obs) -> Res {
    let (a, b, q) = (p(&c.a), p(&c.b), p(&c.p));
    let m = mag(&[a, b]);
    // midpoint
    let mid = P::of(&calculate_midpoint(&v(&c.a), &v(&c.b)));
    let want = P((a.0 + b.0) * 0.5, (a.1 + b.1) * 0.5);
    ensure!(mid.dist(want) <= 2.0 * EPS * m + 1e-40, "midpoint of {:?} {:?} is {:?}", c.a, c.b, mid);
    let l = a.dist(b);
    if l < 1e-3 * m || l == 0.0 {
        o.label("short segment: only the midpoint is judged");
        return Ok(());
    }
    o.label(if c.a.0 == c.b.0 {
        "vertical"
    } else if c.a.1 == c.b.1 {
        "horizontal"
    } else {
        "slanted"
    });
    o.nontrivial_if(c.off.0 > 0.0);
    // foot of the perpendicular
    for (x, y) in [(&c.a, &c.b), (&c.b, &c.a)] {
        let foot = P::of(&calculate_perpendicular_point(&v(x), &v(y), &v(&c.p)));
        let d = b.sub(a);
        let t = q.sub(a).dot(d) / d.dot(d);
        let w = a.add(d.mul(t));
        let tol = 16.0 * EPS * (q.dist(a).max(q.dist(b)) + l) + 4.0 * EPS * mag(&[a, b, q, w]);
        ensure!(foot.dist(w) <= tol, "foot of {:?} on {:?} {:?} is {:?}, expected {:?}", c.p, x, y, foot, w);
    }
    // bisector
    for (x, y) in [(&c.a, &c.b), (&c.b, &c.a)] {
        let (m1, s) = calculate_perpendicular_bisector(&v(x), &v(y), c.off.0);
        let (m1, s) = (P::of(&m1), P::of(&s));
        let off = c.off.0 as f64;
        ensure!(m1.dist(want) <= 2.0 * EPS * m + 1e-40, "bisector of {:?} {:?}: midpoint {:?}", x, y, m1);
        ensure!(s.finite(), "bisector of {:?} {:?} offset {}: point {:?}", x, y, off, s);
        let tol = 16.0 * EPS * (m + off);
        let h = line_dist(a, b, s);
        ensure!((h - off).abs() <= tol, "bisector of {:?} {:?}: point {:?} is {} away instead of {}", x, y, s, h, off);
        let (da, db) = (s.dist(a), s.dist(b));
        ensure!((da - db).abs() <= 2.0 * tol, "bisector of {:?} {:?}: point {:?} is {} and {} from the ends", x, y, s, da, db);
    }
    Ok(())
}

// ---------------- U04 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OnSeg {
    a: FP,
    b: FP,
    p: FP,
}

fn on_seg() -> impl Strategy<Value = OnSeg> {
    let dir = prop_oneof![4 => upoint(), 1 => (-1.0f64..1.0).prop_map(|x| P(x, 0.0)), 1 => (-1.0f64..1.0).prop_map(|y| P(0.0, y))];
    // along: parameter; side: perpendicular offset as a multiple of the segment length
    let along = prop_oneof![
        4 => 0.0f64..1.0,
        1 => Just(0.0),
        1 => Just(1.0),
        1 => Just(0.5),
        1 => (-14.0f64..0.0).prop_map(|e| 2f64.powf(e)),
        1 => (-14.0f64..0.0).prop_map(|e| 1.0 - 2f64.powf(e)),
        1 => (-14.0f64..2.0).prop_map(|e| -2f64.powf(e)),
        1 => (-14.0f64..2.0).prop_map(|e| 1.0 + 2f64.powf(e)),
    ];
    let side = prop_oneof![
        5 => Just(0.0f64),
        2 => (-14.0f64..2.0, any::<bool>()).prop_map(|(e, s)| if s { -2f64.powf(e) } else { 2f64.powf(e) }),
    ];
    let gen = (upoint(), dir, along, side, frame()).prop_map(|(a, d, t, h, (o, s))| {
        let a2 = a.add(o).mul(s);
        let (fa, fb) = (fp(a2), fp(a2.add(d.mul(s))));
        let (ra, rb) = (p(&fa), p(&fb));
        let r = rb.sub(ra);
        let x = ra.add(r.mul(t)).add(P(-r.1, r.0).mul(h));
        let fx = if h == 0.0 && t == 0.0 {
            fa
        } else if h == 0.0 && t == 1.0 {
            fb
        } else {
            fp(x)
        };
        OnSeg { a: fa, b: fb, p: fx }
    });
    let ints = (ip(60), ip(20), 1i64..9, -3i64..12, ip(1), 0u8..3, exp()).prop_map(|(a, d, s, t, e, nudge, x)| {
        let f = |k: i64| (a.0 + k * d.0, a.1 + k * d.1);
        let c = f(t);
        OnSeg { a: sc(a, x), b: sc(f(s), x), p: sc(if nudge == 0 { (c.0 + e.0, c.1 + e.1) } else { c }, x) }
    });
    prop_oneof![3 => gen, 2 => ints]
}

fn check_on_seg(c: &OnSeg, o: &mut Obs) -> Res {
    let (a, b, q) = (p(&c.a), p(&c.b), p(&c.p));
    let m = mag(&[a, b]);
    let l = a.dist(b);
    if l < 1024.0 * EPS * m || l == 0.0 {
        o.label("short segment: skipped");
        return Ok(());
    }
    let m = m.max(l);
    let clear = 256.0 * EPS * m;
    let d = b.sub(a);
    let t = q.sub(a).dot(d) / (l * l);
    let on = seg_dist(a, b, q);
    let exact = d.cross(q.sub(a)) == 0.0;
    // as close as f32 can represent: half an ulp in each coordinate
    let nearest = exact || on <= 0.75 * EPS * q.mag();
    let judge = |x: &FP, y: &FP, inc: bool| is_on_line_segment(&v(x), &v(y), &v(&c.p), inc);
    for (x, y) in [(&c.a, &c.b), (&c.b, &c.a)] {
        for inc in [false, true] {
            let got = judge(x, y, inc);
            if c.p == *x || c.p == *y {
                o.label("end point");
                o.nontrivial();
                ensure!(got == inc, "end point {:?} of {:?} {:?}: {} with include_endpoints = {}", c.p, x, y, got, inc);
            } else if nearest && t > 0.0 && t < 1.0 && q.dist(a) > clear && q.dist(b) > clear {
                o.label("inner point");
                o.nontrivial();
                ensure!(got, "inner point {:?} of {:?} {:?} (t = {}): not on the segment (include_endpoints = {})", c.p, x, y, t, inc);
            } else if on > clear {
                o.label(if t < 0.0 || t > 1.0 { "beyond an end" } else { "to the side" });
                ensure!(!got, "{:?} is {} away from {:?} {:?} but reported on it (include_endpoints = {})", c.p, on, x, y, inc);
            } else {
                o.label("within rounding of on/off: not judged");
            }
        }
    }
    Ok(())
}

// ---------------- U05 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tri {
    p: [FP; 3],
}
fn tri_float() -> impl Strategy<Value = Tri> {
    let base = prop_oneof![
        3 => [upoint(), upoint(), upoint()],
        // thin
        2 => (upoint(), upoint(), -0.5f64..1.5, -5.0f64..0.0).prop_map(|(a, b, t, e)| {
            let d = b.sub(a);
            [a, b, a.add(d.mul(t)).add(P(-d.1, d.0).mul(2f64.powf(e)))]
        }),
    ];
    (base, frame()).prop_map(|(q, (o, s))| Tri { p: [fp(q[0].add(o).mul(s)), fp(q[1].add(o).mul(s)), fp(q[2].add(o).mul(s))] })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TriInt {
    p: [IP; 3],
    exp: i32,
}
fn tri_flat() -> impl Strategy<Value = TriInt> {
    let q = prop_oneof![
        3 => (ip(100), ip(25), -9i64..9, -9i64..9).prop_map(|(a, d, s, t)| [a, (a.0 + s * d.0, a.1 + s * d.1), (a.0 + t * d.0, a.1 + t * d.1)]),
        1 => (ip(800), ip(800)).prop_map(|(a, b)| [a, b, b]),
        1 => ip(800).prop_map(|a| [a, a, a]),
        2 => [ip(20), ip(20), ip(20)],
    ];
    (q, exp(), 0usize..3).prop_map(|(mut p, exp, r)| {
        p.rotate_left(r);
        TriInt { p, exp }
    })
}
const PERMS: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];

fn check_tri_int(c: &TriInt, o: &mut Obs) -> Res {
    let f = [sc(c.p[0], c.exp), sc(c.p[1], c.exp), sc(c.p[2], c.exp)];
    if cross_i(c.p[0], c.p[1], c.p[2]) != 0 {
        o.label("proper triangle");
        return check_tri(&Tri { p: f }, o);
    }
    o.label(if c.p[0] == c.p[1] || c.p[1] == c.p[2] || c.p[0] == c.p[2] { "coincident corners" } else { "collinear corners" });
    o.nontrivial();
    for k in PERMS {
        let (a, b, d) = (v(&f[k[0]]), v(&f[k[1]]), v(&f[k[2]]));
        ensure!(is_degenerate_triangle(&a, &b, &d), "{:?} {:?} {:?} not reported degenerate", a, b, d);
        let g = calculate_triangle_incenter(&a, &b, &d);
        ensure!(g.is_none(), "{:?} {:?} {:?} has incenter {:?}", a, b, d, g);
    }
    Ok(())
}

fn check_tri(c: &Tri, o: &mut Obs) -> Res {
    let q: Vec<P> = c.p.iter().map(p).collect();
    let m = mag(&q);
    let (la, lb, lc) = (q[1].dist(q[2]), q[0].dist(q[2]), q[0].dist(q[1]));
    let l = la.max(lb).max(lc);
    let cr = q[1].sub(q[0]).cross(q[2].sub(q[0])).abs();
    let h = cr / l;
    if h < 1e-2 * l || h < 1e3 * EPS * m || la.min(lb).min(lc) < 1e-3 * l {
        o.label("thin or small: skipped");
        return Ok(());
    }
    o.nontrivial();
    let per = la + lb + lc;
    let want = P((la * q[0].0 + lb * q[1].0 + lc * q[2].0) / per, (la * q[0].1 + lb * q[1].1 + lc * q[2].1) / per);
    let r = cr / per;
    for k in PERMS {
        let (a, b, d) = (v(&c.p[k[0]]), v(&c.p[k[1]]), v(&c.p[k[2]]));
        ensure!(!is_degenerate_triangle(&a, &b, &d), "{:?} {:?} {:?} reported degenerate", a, b, d);
        let (i, ri) = match calculate_triangle_incenter(&a, &b, &d) {
            Some(x) => x,
            None => return Err(format!("{:?} {:?} {:?} has no incenter", a, b, d)),
        };
        let i = P::of(&i);
        let tol = 16.0 * EPS * (m + l);
        ensure!(i.dist(want) <= tol, "incenter of {:?} is {:?}, expected {:?}", c.p, i, want);
        for s in 0..3 {
            let x = line_dist(q[s], q[(s + 1) % 3], i);
            ensure!((x - r).abs() <= 2.0 * tol, "incenter {:?} of {:?} is {} from side {} (inradius {})", i, c.p, x, s, r);
        }
        // Heron's formula loses about (l/h)^2 of its precision in a thin triangle
        let rtol = 16.0 * EPS * r * (l / h) * (l / h) + 1e-37;
        ensure!((ri as f64 - r).abs() <= rtol, "inradius of {:?} is {}, expected {}", c.p, ri, r);
    }
    Ok(())
}

// ---------------- U06 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near {
    t: FP,
    ps: Vec<FP>,
    exact: bool,
}
fn near() -> impl Strategy<Value = Near> {
    let ints = (ip(12), vec(ip(12), 1..20), 0i32..3).prop_map(|(t, ps, e)| Near { t: sc(t, e), ps: ps.iter().map(|q| sc(*q, e)).collect(), exact: true });
    let fl = (upoint(), vec(upoint(), 1..20), frame()).prop_map(|(t, ps, (o, s))| {
        let f = |q: P| fp(q.add(o).mul(s));
        Near { t: f(t), ps: ps.into_iter().map(f).collect(), exact: false }
    });
    let far = (ip(200), vec(ip(200), 1..8), 20i32..50).prop_map(|(t, ps, e)| Near { t: sc(t, e), ps: ps.iter().map(|q| sc(*q, e)).collect(), exact: true });
    prop_oneof![3 => ints, 3 => fl, 1 => far]
}
/// Long lists, where the nearest point (or the first of several nearest) can be anywhere.
fn near_many(max: usize) -> impl Strategy<Value = Near> {
    let ints = (ip(400), vec(ip(400), 20..max), vec((any::<u16>(), 0u8..8), 0..4), 0i32..3).prop_map(|(t, mut ps, nearest, e)| {
        // plant some nearest points, all equally far, from the end to the front
        for (at, side) in nearest {
            let (dx, dy) = [(1, 2), (2, 1), (-1, 2), (2, -1), (1, -2), (-2, 1), (-1, -2), (-2, -1)][side as usize];
            let k = at as usize % ps.len();
            ps[k] = (t.0 + dx, t.1 + dy);
        }
        Near { t: sc(t, e), ps: ps.iter().map(|q| sc(*q, e)).collect(), exact: true }
    });
    let fl = (upoint(), vec(upoint(), 20..max), frame()).prop_map(|(t, ps, (o, s))| {
        let f = |q: P| fp(q.add(o).mul(s));
        Near { t: f(t), ps: ps.into_iter().map(f).collect(), exact: false }
    });
    prop_oneof![ints, fl]
}
fn check_near(c: &Near, o: &mut Obs) -> Res {
    let ps: Vec<Vec2> = c.ps.iter().map(v).collect();
    let (i, d) = find_closest_to(&v(&c.t), &ps);
    ensure!(i < ps.len(), "index {} of {} points", i, ps.len());
    let dist: Vec<f64> = c.ps.iter().map(|q| p(q).dist(p(&c.t))).collect();
    let min = dist.iter().cloned().fold(f64::MAX, f64::min);
    let tol = 4.0 * EPS * min + 1e-37;
    ensure!((d as f64 - dist[i]).abs() <= 4.0 * EPS * dist[i] + 1e-37, "distance {} reported for {:?}, it is {}", d, c.ps[i], dist[i]);
    if c.exact {
        let first = dist.iter().position(|x| *x == min).unwrap();
        o.nontrivial_if(dist.iter().filter(|x| **x == min).count() > 1);
        if dist.iter().filter(|x| **x == min).count() > 1 {
            o.label("several nearest points");
        }
        ensure!(i == first, "index {} reported, the first nearest point is {} (distances {:?})", i, first, dist);
    } else {
        o.nontrivial_if(ps.len() > 2);
        ensure!(dist[i] <= min + tol, "point {} at {} reported, the nearest is at {}", i, dist[i], min);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clusters {
    ps: Vec<FP>,
    /// cluster of each point
    cl: Vec<u16>,
}
/// Points in well separated clusters; members of a cluster differ by at most a quarter epsilon.
fn clusters() -> impl Strategy<Value = Clusters> {
    (vec((0u16..7, -1i8..=1, -1i8..=1), 0..14), any::<bool>()).prop_map(|(v, near0)| {
        let mut ps = vec![];
        let mut cl = vec![];
        for (k, dx, dy) in v {
            // around the origin f32 resolves differences far below epsilon
            let (bx, by) = if near0 { (k as f32 * 4.0 * f32::EPSILON, -(k as f32) * 8.0 * f32::EPSILON) } else { (k as f32 * 1.5, 2.0 - (k % 3) as f32) };
            let j = f32::EPSILON / 4.0;
            ps.push((F(bx + dx as f32 * j), F(by + dy as f32 * j)));
            cl.push(k);
        }
        Clusters { ps, cl }
    })
}
/// As above, with up to 600 clusters in a long list.
fn clusters_many(max: usize) -> impl Strategy<Value = Clusters> {
    (vec((0u16..600, -1i8..=1, -1i8..=1), 1..max), 2u16..=600).prop_map(|(v, k)| {
        let j = f32::EPSILON / 4.0;
        let mut ps = vec![];
        let mut cl = vec![];
        for (c, dx, dy) in v {
            let c = c % k;
            // a grid around the origin, spaced by 4 and 8 epsilon
            let (bx, by) = (((c % 25) as f32 - 12.0) * 4.0 * f32::EPSILON, ((c / 25) as f32 - 12.0) * 8.0 * f32::EPSILON);
            ps.push((F(bx + dx as f32 * j), F(by + dy as f32 * j)));
            cl.push(c);
        }
        Clusters { ps, cl }
    })
}
fn check_unique(c: &Clusters, o: &mut Obs) -> Res {
    let ps: Vec<Vec2> = c.ps.iter().map(v).collect();
    let u = unique_points_among(&ps);
    let distinct: std::collections::BTreeSet<u16> = c.cl.iter().cloned().collect();
    o.nontrivial_if(distinct.len() < c.cl.len() && distinct.len() > 1);
    if distinct.len() < c.cl.len() {
        o.label("has coinciding points");
    }
    // a subsequence of the input
    let mut pos = 0;
    let mut seen = vec![];
    for q in &u {
        while pos < ps.len() && bits(&ps[pos]) != bits(q) {
            pos += 1;
        }
        ensure!(pos < ps.len(), "{:?} is not a subsequence of {:?}", u, ps);
        seen.push(c.cl[pos]);
        pos += 1;
    }
    let kept: std::collections::BTreeSet<u16> = seen.iter().cloned().collect();
    ensure!(kept.len() == seen.len(), "two of the kept points coincide: {:?} of {:?}", u, ps);
    ensure!(kept == distinct, "{} clusters of points, {} kept: {:?} of {:?}", distinct.len(), kept.len(), u, ps);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Close {
    a: FP,
    b: FP,
}
fn close() -> impl Strategy<Value = Close> {
    let e = f32::EPSILON;
    // differences of k/16 epsilon around the origin: exact
    let axis = (-40i32..40, -40i32..40, any::<bool>()).prop_map(move |(x, d, h)| {
        let (x0, x1) = (x as f32 * e / 16.0, (x + d) as f32 * e / 16.0);
        if h {
            Close { a: (F(x0), F(e)), b: (F(x1), F(e)) }
        } else {
            Close { a: (F(-e), F(x0)), b: (F(-e), F(x1)) }
        }
    });
    let any2 = (upoint(), upoint(), -3.0f64..3.0).prop_map(move |(a, b, k)| {
        let s = e as f64 * 2f64.powf(k);
        Close { a: fp(a.mul(s)), b: fp(b.mul(s)) }
    });
    let far = (upoint(), upoint(), frame()).prop_map(|(a, b, (o, s))| Close { a: fp(a.add(o).mul(s)), b: fp(b.add(o).mul(s)) });
    let same = (upoint(), frame()).prop_map(|(a, (o, s))| Close { a: fp(a.add(o).mul(s)), b: fp(a.add(o).mul(s)) });
    prop_oneof![3 => axis, 3 => any2, 1 => far, 1 => same]
}
fn check_close(c: &Close, o: &mut Obs) -> Res {
    let d = p(&c.a).dist(p(&c.b));
    let axis = c.a.0 == c.b.0 || c.a.1 == c.b.1;
    if !axis && (d / EPS - 1.0).abs() < 1e-5 {
        o.label("within rounding of the limit: skipped");
        return Ok(());
    }
    let want = d <= EPS;
    o.nontrivial_if(d > 0.0 && d < 4.0 * EPS);
    o.label(if want { "close" } else { "not close" });
    for (x, y) in [(&c.a, &c.b), (&c.b, &c.a)] {
        ensure!(close_to(&v(x), &v(y)) == want, "close_to({:?}, {:?}) should be {} (distance {:e})", x, y, want, d);
    }
    Ok(())
}

// ---------------- U07 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    p: [FP; 4],
    exact: bool,
}
fn par() -> impl Strategy<Value = Par> {
    let k = || prop_oneof![1 => Just(1i64), 1 => Just(-1i64), 3 => -300i64..300];
    let exact = (ip(1000), ip(1000), k(), k(), ip(1_000_000), ip(1_000_000), exp(), 0i32..4).prop_map(|(d, small, k, m, a, c, e, shrink)| {
        // a direction, its multiples, anchored anywhere: all sums are exact in f32 (below 2^24)
        let d = if shrink == 0 { (small.0 % 4, small.1 % 4) } else { d };
        let (k, m) = (if k == 0 { 1 } else { k }, if m == 0 { 2 } else { m });
        Par { p: [sc(a, e), sc((a.0 + k * d.0, a.1 + k * d.1), e), sc(c, e), sc((c.0 + m * d.0, c.1 + m * d.1), e)], exact: true }
    });
    let rot = prop_oneof![3 => -180.0f64..180.0, 2 => (-10.0f64..6.0, any::<bool>()).prop_map(|(e, s)| if s { -2f64.powf(e) } else { 2f64.powf(e) }), 1 => (0.0f64..1.0).prop_map(|x| 180.0 + x)];
    let gen = (upoint(), upoint(), upoint(), rot, 0.1f64..10.0, frame()).prop_map(|(a, d, c, deg, k, (o, s))| {
        let th = deg.to_radians();
        let e = P(d.0 * th.cos() - d.1 * th.sin(), d.0 * th.sin() + d.1 * th.cos()).mul(k);
        let f = |q: P| fp(q.add(o).mul(s));
        Par { p: [f(a), f(a.add(d)), f(c), f(c.add(e))], exact: false }
    });
    prop_oneof![1 => exact, 1 => gen]
}
fn check_par(c: &Par, o: &mut Obs) -> Res {
    let q: Vec<P> = c.p.iter().map(p).collect();
    let (r, s) = (q[1].sub(q[0]), q[3].sub(q[2]));
    if r.len() == 0.0 || s.len() == 0.0 || r.len().max(s.len()) > 1e9 || r.len().min(s.len()) < 1e-9 {
        o.label("degenerate: skipped");
        return Ok(());
    }
    // f64 arithmetic on the differences of f32 values is exact enough to tell exact parallelism of the generated integers
    let exact = c.exact && r.cross(s) == 0.0;
    let sin = (r.cross(s) / (r.len() * s.len())).abs();
    let want = if exact {
        Some(true)
    } else if sin > 0.1f64.to_radians().sin() * 1.0001 {
        Some(false)
    } else {
        None
    };
    o.label(match want {
        Some(true) => "exactly parallel",
        Some(false) if sin < 0.1 => "a tenth of a degree to six degrees apart",
        Some(false) => "clearly not parallel",
        None => "nearly parallel: not judged",
    });
    o.nontrivial_if(want.is_some() && sin < 0.1);
    if let Some(w) = want {
        for s in orders(c.p) {
            ensure!(parallel(&v(&s[0]), &v(&s[1]), &v(&s[2]), &v(&s[3])) == w, "parallel({:?}) should be {} (sine {:e})", s, w, sin);
        }
    }
    Ok(())
}

// ---------------- U08 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OnLine {
    p: [i32; 3],
    d: [i32; 3],
    /// x = p + k/2 * d + off
    k: i32,
    off: [i32; 3],
    exp: i32,
}
fn on_line() -> impl Strategy<Value = OnLine> {
    let i3 = |r: i32| [-r..=r, -r..=r, -r..=r];
    let d = prop_oneof![3 => i3(9), 3 => i3(60), 1 => (0usize..3, -40i32..40).prop_map(|(i, x)| { let mut d = [0; 3]; d[i] = x; d }), 1 => (0usize..3, i3(40)).prop_map(|(i, mut d)| { d[i] = 0; d })];
    let off = prop_oneof![
        3 => Just([0, 0, 0]),
        2 => (0usize..3, prop_oneof![Just(1), Just(-1), -50i32..50]).prop_map(|(i, x)| { let mut d = [0; 3]; d[i] = x; d }),
        1 => i3(20),
    ];
    (i3(100), d, -40i32..40, off, -6i32..8).prop_map(|(p, d, k, off, exp)| OnLine { p, d, k, off, exp })
}
fn check_on_line(c: &OnLine, o: &mut Obs) -> Res {
    if c.d == [0, 0, 0] {
        o.label("zero direction: skipped");
        return Ok(());
    }
    let s = 2f32.powi(c.exp);
    let f = |q: [i32; 3]| Vector3::new(q[0] as f32 * s, q[1] as f32 * s, q[2] as f32 * s);
    // everything doubled, so that half steps along the direction are integers
    let p2 = [2 * c.p[0], 2 * c.p[1], 2 * c.p[2]];
    let x = [p2[0] + c.k * c.d[0] + c.off[0], p2[1] + c.k * c.d[1] + c.off[1], p2[2] + c.k * c.d[2] + c.off[2]];
    let w = [x[0] - p2[0], x[1] - p2[1], x[2] - p2[2]];
    let cr = [w[1] * c.d[2] - w[2] * c.d[1], w[2] * c.d[0] - w[0] * c.d[2], w[0] * c.d[1] - w[1] * c.d[0]];
    let want = cr == [0, 0, 0];
    let parts = cr.iter().filter(|z| **z != 0).count();
    o.label(if want {
        if c.k == 0 { "base point" } else { "on the line" }
    } else if parts == 1 {
        "off the line, one plane only"
    } else {
        "off the line"
    });
    o.nontrivial_if(want && c.k != 0 || parts == 1);
    for m in [1, -1, 2, -3] {
        let line = Line::new(&f(p2), &f([c.d[0] * m, c.d[1] * m, c.d[2] * m]));
        ensure!(line.contains(&f(x)) == want, "line through {:?} along {:?}: contains({:?}) should be {}", f(p2), f([c.d[0] * m, c.d[1] * m, c.d[2] * m]), f(x), want);
        ensure!(line.contains(&f(p2)), "line through {:?} does not contain that point", f(p2));
    }
    // the same line from another of its points
    let other = [p2[0] + 2 * c.d[0], p2[1] + 2 * c.d[1], p2[2] + 2 * c.d[2]];
    let line = Line::new(&f(other), &f(c.d));
    ensure!(line.contains(&f(x)) == want, "line through {:?} along {:?}: contains({:?}) should be {}", other, c.d, x, want);
    Ok(())
}

/// Points that f32 can only represent roughly: x is the point at parameter t along the line, moved sideways by h.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NearLine {
    p: [f32; 3],
    d: [f32; 3],
    t: f32,
    /// sideways offset as a power of two times the largest coordinate (none: on the line)
    h: Option<f32>,
    /// the direction to go sideways (its part along the line is removed)
    side: [f32; 3],
}
fn near_line() -> impl Strategy<Value = NearLine> {
    let f3 = || [-1.0f32..1.0, -1.0f32..1.0, -1.0f32..1.0];
    let dir = prop_oneof![4 => f3(), 1 => (0usize..3, -1.0f32..1.0).prop_map(|(i, x)| { let mut d = [0.0; 3]; d[i] = x; d }), 2 => (0usize..3, f3()).prop_map(|(i, mut d)| { d[i] = 0.0; d }), 1 => (0usize..3, f3(), 1e-3f32..0.02).prop_map(|(i, mut d, e)| { d[i] *= e; d })];
    let t = prop_oneof![4 => -4.0f32..4.0, 2 => (-10.0f32..9.0, any::<bool>()).prop_map(|(e, s)| if s { 2f32.powf(e) } else { -2f32.powf(e) }), 1 => Just(0.0f32), 1 => Just(1.0f32), 1 => (-20i32..20).prop_map(|k| k as f32 * 0.5)];
    let h = prop_oneof![3 => Just(None), 2 => (-16.0f32..1.0).prop_map(Some), 1 => (-15.0f32..-11.0).prop_map(Some)];
    let off = prop_oneof![3 => f3(), 1 => Just([0.0f32; 3]), 1 => (f3(), 1.0f32..300.0).prop_map(|(q, s)| [q[0] * s, q[1] * s, q[2] * s])];
    (off, dir, t, h, f3(), -7i32..14, -12i32..12).prop_map(|(p, d, t, h, side, e, f)| {
        let (s, r) = (2f32.powi(e), 2f32.powi(e + f));
        // the direction's length is unrelated to the line's position
        NearLine { p: p.map(|x| x * s), d: d.map(|x| x * r), t: t * 2f32.powi(-f), h, side }
    })
}
fn check_near_line(c: &NearLine, o: &mut Obs) -> Res {
    let v = |q: [f32; 3]| [q[0] as f64, q[1] as f64, q[2] as f64];
    let dot = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    let (p, d, side) = (v(c.p), v(c.d), v(c.side));
    let len = dot(d, d).sqrt();
    if !(len > 0.0) {
        o.label("zero direction: skipped");
        return Ok(());
    }
    let on = [0, 1, 2].map(|i| p[i] + c.t as f64 * d[i]);
    let big = |q: [f64; 3]| q.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let m = big(p).max(big(on));
    let x = match c.h {
        None => on,
        Some(e) => {
            let k = dot(side, d) / (len * len);
            let s = [0, 1, 2].map(|i| side[i] - k * d[i]);
            let l = dot(s, s).sqrt();
            if l < 1e-3 {
                o.label("sideways along the line: skipped");
                return Ok(());
            }
            [0, 1, 2].map(|i| on[i] + s[i] / l * 2f64.powf(e as f64) * m)
        }
    };
    let f = |q: [f64; 3]| Vector3::new(q[0] as f32, q[1] as f32, q[2] as f32);
    let (fp, fx) = (f(p), f(x));
    // the distance of the point that f32 really holds
    let w = [0, 1, 2].map(|i| ([fx.a1, fx.a2, fx.a3][i]) as f64 - p[i]);
    let cr = [w[1] * d[2] - w[2] * d[1], w[2] * d[0] - w[0] * d[2], w[0] * d[1] - w[1] * d[0]];
    let dist = dot(cr, cr).sqrt() / len;
    let m = m.max(big(x));
    let want = if c.h.is_none() {
        true
    } else if dist > 256.0 * EPS * m {
        false
    } else {
        o.label("within 256 epsilon of the line: skipped");
        return Ok(());
    };
    o.label(if want { "on the line" } else if dist < 1e-3 * m { "off the line, close" } else { "off the line" });
    o.nontrivial_if(c.t != 0.0);
    let unit = [0, 1, 2].map(|i| d[i] / len);
    for q in [d, [-d[0], -d[1], -d[2]], [3.0 * d[0], 3.0 * d[1], 3.0 * d[2]], unit] {
        let line = Line::new(&fp, &f(q));
        ensure!(line.contains(&fx) == want, "line through {:?} along {:?}: contains({:?}) should be {} (distance {:e})", fp, f(q), fx, want, dist);
        ensure!(line.contains(&fp), "line through {:?} along {:?} does not contain that point", fp, f(q));
    }
    if want && c.t != 0.0 {
        // from the other point: rounded itself, so within a rounding of the line through it
        let line = Line::new(&fx, &f(d));
        ensure!(line.contains(&fp), "line through {:?} along {:?} does not contain {:?}", fx, f(d), fp);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const TOL: &[&str] = &["float cases are judged only where f32 rounding (bounded from the operands' magnitudes) cannot change the answer"];
    vec![
        Prop {
            id: "U01",
            subs: vec![
                sub("exact", "integer segments that meet, touch at an endpoint, or lie on distinct parallel lines; all 8 orders compared", (400_000, 8_000_000), |_| int_segs(), check_seg_int),
                sub("float", "f32 segments that cross beyond rounding", (300_000, 6_000_000), |_| float_segs(), check_seg_float),
            ],
            assumptions: TOL,
        },
        Prop {
            id: "U02",
            subs: vec![
                sub("exact", "integer lines that are parallel or meet outside a segment", (300_000, 6_000_000), |_| int_segs(), check_line_int),
                sub("float", "f32 lines meeting outside at least one of the segments", (300_000, 6_000_000), |_| float_segs(), check_line_float),
            ],
            assumptions: &["directions at least a thousandth of a radian apart", "point tolerance proportional to epsilon, the distances involved and 1/sin of the angle"],
        },
        Prop {
            id: "U03",
            subs: vec![sub("perpendicular", "a segment with a positive bisector offset (slanted, horizontal, vertical, steep)", (400_000, 8_000_000), |_| perp(), check_perp)],
            assumptions: TOL,
        },
        Prop {
            id: "U04",
            subs: vec![sub("on-segment", "an end point, or an inner point as exact as f32 can represent it", (400_000, 8_000_000), |_| on_seg(), check_on_seg)],
            assumptions: &["points between one rounding and 256 epsilon away from the segment, or within 256 epsilon of an end, are not judged"],
        },
        Prop {
            id: "U05",
            subs: vec![
                sub("exact", "integer triangles, most with collinear or coincident corners", (300_000, 6_000_000), |_| tri_flat(), check_tri_int),
                sub("float", "a triangle at least 1% as high as long", (300_000, 6_000_000), |_| tri_float(), check_tri),
            ],
            assumptions: TOL,
        },
        Prop {
            id: "U06",
            subs: vec![
                sub("nearest", "several equally near points, or more than two f32 points", (200_000, 4_000_000), |_| near(), check_near),
                sub("unique", "at least two clusters, at least one with several coinciding points", (200_000, 4_000_000), |_| clusters(), check_unique),
                sub("close", "two different points at most four epsilon apart", (200_000, 4_000_000), |_| close(), check_close),
                sub("nearest-of-many", "as above, lists of 20 to 700 (thorough 5000) points", (12_000, 120_000), |t: Tier| near_many(t.pick(700, 5000)), check_near),
                sub("unique-of-many", "as above, lists of up to 700 (thorough 2500) points in up to 600 places", (6_000, 40_000), |t: Tier| clusters_many(t.pick(700, 2500)), check_unique),
            ],
            assumptions: &["clusters are separated by more than epsilon and their members coincide pairwise"],
        },
        Prop {
            id: "U07",
            subs: vec![sub("parallel", "exactly parallel segments, or directions between 0.1 and 6 degrees apart", (400_000, 8_000_000), |_| par(), check_par)],
            assumptions: &["directions less than a tenth of a degree apart but not exactly parallel are not judged"],
        },
        Prop {
            id: "U08",
            subs: vec![
                sub("contains", "a point other than the base point on the line, or off it in a single coordinate plane", (400_000, 8_000_000), |_| on_line(), check_on_line),
                sub("float", "a point on the line up to one rounding, or more than 256 epsilon off, and not beside the base point", (400_000, 8_000_000), |_| near_line(), check_near_line),
            ],
            assumptions: &["points between one rounding and 256 epsilon (of the largest coordinate) off the line are not judged"],
        },
    ]
}
