//! Generators of simple polygons with exactly known (integer) coordinates.
use crate::common::*;
use kami::glm::Vec2;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// A simple polygon: integer vertices times 2^exp. |coordinate| <= 1024 before scaling, so every f32
/// orientation test on it is exact whatever the order of evaluation.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Poly {
    pub pts: Vec<IP>,
    pub exp: i32,
}

impl Poly {
    pub fn scale(&self) -> f64 {
        2f64.powi(self.exp)
    }
    pub fn verts(&self) -> Vec<Vec2> {
        let s = self.scale() as f32;
        self.pts.iter().map(|p| Vec2::new(p.0 as f32 * s, p.1 as f32 * s)).collect()
    }
    pub fn n(&self) -> usize {
        self.pts.len()
    }
    pub fn rotated(&self, k: usize) -> Poly {
        let mut p = self.clone();
        let n = p.pts.len();
        p.pts.rotate_left(k % n);
        p
    }
    pub fn reversed(&self) -> Poly {
        let mut p = self.clone();
        p.pts.reverse();
        p
    }
    /// Sum of the absolute terms any reasonable area formula adds up (unscaled, doubled area).
    pub fn area_terms(&self) -> f64 {
        area_terms(&self.pts.iter().map(|p| P(p.0 as f64, p.1 as f64)).collect::<Vec<_>>())
    }
    /// Is the sign of the area beyond doubt in f32?
    pub fn orientation_certain(&self) -> bool {
        let t = self.area_terms();
        let tol = if t < 8_000_000.0 { 0.0 } else { EPS * (self.n() as f64 + 4.0) * t };
        (area2_i(&self.pts).abs() as f64) > tol
    }
}

pub fn area_terms(p: &[P]) -> f64 {
    let n = p.len();
    let shoe: f64 = (0..n)
        .map(|i| {
            let (a, b) = (p[i], p[(i + 1) % n]);
            (a.0 * b.1).abs() + (a.1 * b.0).abs()
        })
        .sum();
    let fan: f64 = (1..n - 1)
        .map(|i| {
            let (u, v) = (p[i].sub(p[0]), p[i + 1].sub(p[0]));
            (u.0 * v.1).abs() + (u.1 * v.0).abs()
        })
        .sum();
    shoe.max(fan)
}

pub fn area2_f(p: &[P]) -> f64 {
    let n = p.len();
    (1..n - 1).map(|i| p[i].sub(p[0]).cross(p[i + 1].sub(p[0]))).sum()
}

/// Exact simplicity: distinct vertices, consecutive edges share only their common vertex, others nothing.
pub fn is_simple(p: &[IP]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (p[j], p[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                // adjacent: the far ends must not lie on the other edge
                let (far1, far2) = if j == i + 1 { (a, d) } else { (b, c) };
                if n == 3 {
                    continue;
                }
                if on_seg_i(c, d, far1) || on_seg_i(a, b, far2) {
                    return false;
                }
            } else if seg_meet_i(a, b, c, d) {
                return false;
            }
        }
    }
    area2_i(p) != 0
}

/// Would replacing edge k by the two edges through q keep the polygon simple?
fn can_insert(p: &[IP], k: usize, q: IP) -> bool {
    let n = p.len();
    let (a, b) = (p[k], p[(k + 1) % n]);
    if p.contains(&q) {
        return false;
    }
    for j in 0..n {
        if j == k {
            continue;
        }
        let (c, d) = (p[j], p[(j + 1) % n]);
        // new edges a-q and q-b
        for (u, shared) in [(a, a), (b, b)] {
            if c == shared || d == shared {
                let far = if c == shared { d } else { c };
                if on_seg_i(c, d, q) || on_seg_i(u, q, far) {
                    return false;
                }
            } else if seg_meet_i(u, q, c, d) {
                return false;
            }
        }
    }
    // the two new edges themselves must not fold back on each other
    if on_seg_i(a, q, b) || on_seg_i(q, b, a) {
        return false;
    }
    true
}

fn grow(start: Vec<IP>, ops: &[(u16, IP)]) -> Vec<IP> {
    let mut p = start;
    for (e, q) in ops {
        let n = p.len();
        for t in 0..n.min(6) {
            let k = (*e as usize + t) % n;
            if can_insert(&p, k, *q) {
                p.insert(k + 1, *q);
                break;
            }
        }
    }
    p
}

fn pt(r: i64) -> impl Strategy<Value = IP> {
    (-r..=r, -r..=r)
}

fn tri_or(p: Vec<IP>) -> Vec<IP> {
    if is_simple(&p) {
        p
    } else {
        vec![(0, 0), (3, 0), (1, 2)]
    }
}

fn grown(r: i64, max_ops: usize) -> BoxedStrategy<Vec<IP>> {
    (vec(pt(r), 3), vec((any::<u16>(), pt(r)), 0..max_ops)).prop_map(move |(t, ops)| grow(tri_or(t), &ops)).boxed()
}

fn star(r: i64, max: usize) -> BoxedStrategy<Vec<IP>> {
    vec(pt(r), 3..max)
        .prop_map(|mut v| {
            v.retain(|p| *p != (0, 0));
            let half = |p: &IP| if p.1 > 0 || (p.1 == 0 && p.0 > 0) { 0 } else { 1 };
            v.sort_by(|a, b| half(a).cmp(&half(b)).then_with(|| 0.cmp(&(a.0 * b.1 - a.1 * b.0))));
            let mut out: Vec<IP> = vec![];
            for p in v {
                if let Some(l) = out.last() {
                    if half(l) == half(&p) && l.0 * p.1 - l.1 * p.0 == 0 {
                        continue;
                    }
                }
                out.push(p);
            }
            tri_or(out)
        })
        .boxed()
}

/// Histogram: columns of given widths and heights on a common base line (right-angled, optional flat vertices).
fn histogram(max: usize) -> BoxedStrategy<Vec<IP>> {
    (vec((1i64..5, 1i64..9), 1..max), any::<bool>())
        .prop_map(|(cols, flat)| {
            let mut p: Vec<IP> = vec![(0, 0)];
            let mut x = 0;
            let mut top: Vec<IP> = vec![];
            for (w, h) in &cols {
                top.push((x, *h));
                x += w;
                top.push((x, *h));
                if flat {
                    p.push((x, 0));
                }
            }
            if !flat {
                p.push((x, 0));
            }
            top.reverse();
            for q in top {
                let l = p.len();
                if p[l - 1] == q {
                    continue;
                }
                if !flat && l >= 2 && cross_i(p[l - 2], p[l - 1], q) == 0 {
                    p.pop();
                }
                p.push(q);
            }
            tri_or(p)
        })
        .boxed()
}

/// Comb with slanted teeth (alternating deep notches).
fn comb(max: usize) -> BoxedStrategy<Vec<IP>> {
    (vec((1i64..4, 2i64..12, -1i64..=1), 1..max), 0i64..3)
        .prop_map(|(teeth, thick)| {
            let mut lower = vec![];
            let mut upper = vec![];
            let mut x = 0;
            for (w, h, d) in &teeth {
                upper.push((x, 1));
                upper.push((x + w + d, 1 + h));
                x += 2 * w + 1;
            }
            upper.push((x, 1));
            lower.push((0, -thick));
            lower.push((x, -thick));
            upper.reverse();
            lower.extend(upper);
            tri_or(lower)
        })
        .boxed()
}

/// Rectangular spiral corridor with `k` turns.
fn spiral(max_turns: usize) -> BoxedStrategy<Vec<IP>> {
    (2usize..max_turns, 1i64..4)
        .prop_map(|(k, w)| {
            // centre line: lengths 2w*(1,1,2,2,3,3,...)
            let step = 2 * w + 1;
            let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            let mut c: Vec<IP> = vec![(0, 0)];
            for i in 0..k {
                let l = step * (i as i64 / 2 + 1);
                let d = dirs[i % 4];
                let q = c[c.len() - 1];
                c.push((q.0 + d.0 * l, q.1 + d.1 * l));
            }
            // left side = the centre line, right side = offset by w outwards (turning left => right side is outside)
            let mut right: Vec<IP> = vec![];
            for i in 0..c.len() {
                let mut o = (0, 0);
                if i > 0 {
                    let d = dirs[(i - 1) % 4];
                    o = (d.1 * w, -d.0 * w);
                }
                if i < k {
                    let d = dirs[i % 4];
                    let o2 = (d.1 * w, -d.0 * w);
                    if i > 0 {
                        o = (o.0 + o2.0, o.1 + o2.1);
                    } else {
                        o = o2;
                    }
                }
                right.push((c[i].0 + o.0, c[i].1 + o.1));
            }
            right.reverse();
            c.extend(right);
            tri_or(c)
        })
        .boxed()
}

/// Zigzag band, large n.
fn zigzag(max: usize) -> BoxedStrategy<Vec<IP>> {
    (vec(1i64..7, 2..max), 1i64..5)
        .prop_map(|(hs, thick)| {
            let lower: Vec<IP> = hs.iter().enumerate().map(|(i, h)| (i as i64, if i % 2 == 0 { *h } else { -*h })).collect();
            let mut upper: Vec<IP> = lower.iter().map(|p| (p.0, p.1 + thick)).collect();
            upper.reverse();
            let mut p = lower;
            p.extend(upper);
            tri_or(p)
        })
        .boxed()
}

#[derive(Clone, Copy, Debug)]
struct Post {
    mirror: bool,
    quarter: u8,
    shear: i64,
    flat: u32,
    rot: usize,
    rev: bool,
    tr: IP,
    exp: i32,
    regrow: bool,
}

fn post() -> impl Strategy<Value = Post> {
    (
        any::<bool>(),
        0u8..4,
        prop_oneof![4 => Just(0i64), 1 => -2i64..=2],
        prop_oneof![3 => Just(0u32), 1 => any::<u32>()],
        0usize..64,
        any::<bool>(),
        prop_oneof![2 => Just((0i64, 0i64)), 2 => pt(20), 1 => pt(500)],
        prop_oneof![6 => Just(0i32), 2 => -8i32..8, 1 => -30i32..24],
        any::<bool>(),
    )
        .prop_map(|(mirror, quarter, shear, flat, rot, rev, tr, exp, regrow)| Post { mirror, quarter, shear, flat, rot, rev, tr, exp, regrow })
}

fn max_abs(p: &[IP]) -> i64 {
    p.iter().map(|q| q.0.abs().max(q.1.abs())).max().unwrap()
}

fn apply(mut p: Vec<IP>, o: Post, extra: &[(u16, IP)]) -> Poly {
    let fits = |q: &Vec<IP>| max_abs(q) <= 1024;
    if o.regrow && !extra.is_empty() {
        p = grow(p, extra);
    }
    if o.flat != 0 {
        let q: Vec<IP> = p.iter().map(|a| (2 * a.0, 2 * a.1)).collect();
        let n = q.len();
        let mut r = vec![];
        for i in 0..n {
            r.push(q[i]);
            if o.flat >> (i % 32) & 1 == 1 {
                let b = q[(i + 1) % n];
                r.push(((q[i].0 + b.0) / 2, (q[i].1 + b.1) / 2));
            }
        }
        if fits(&r) {
            p = r;
        }
    }
    let mut q = p.clone();
    for v in q.iter_mut() {
        v.0 += o.shear * v.1;
        if o.mirror {
            v.0 = -v.0;
        }
        for _ in 0..o.quarter {
            *v = (-v.1, v.0);
        }
    }
    if fits(&q) {
        p = q;
    }
    let q: Vec<IP> = p.iter().map(|v| (v.0 + o.tr.0, v.1 + o.tr.1)).collect();
    if fits(&q) {
        p = q;
    }
    if o.rev {
        p.reverse();
    }
    let n = p.len();
    p.rotate_left(o.rot % n);
    debug_assert!(fits(&p));
    Poly { pts: p, exp: o.exp }
}

/// Simple polygons with roughly at most `nmax` vertices.
pub fn poly(nmax: usize) -> BoxedStrategy<Poly> {
    let k = nmax;
    let base = prop_oneof![
        3 => grown(3, k + 4),
        3 => grown(6, k + 4),
        3 => grown(15, k),
        2 => grown(100, k),
        2 => grown(500, k),
        2 => star(5, k + 8),
        2 => star(60, k),
        1 => star(500, k),
        2 => histogram((k / 3).max(3)),
        2 => comb((k / 2).max(3)),
        1 => spiral((k / 2).max(3).min(20)),
        1 => zigzag((k / 2).max(4)),
    ];
    (base, post(), vec((any::<u16>(), pt(20)), 0..6)).prop_map(move |(b, o, x)| apply(b, o, &x)).boxed()
}

// ---- exact reference for diagonals ----

pub fn is_diagonal(p: &[IP], i: usize, j: usize) -> bool {
    let n = p.len();
    if i == j || (i + 1) % n == j || (j + 1) % n == i {
        return false;
    }
    let (a, b) = (p[i], p[j]);
    for k in 0..n {
        if k != i && k != j && on_seg_i(a, b, p[k]) {
            return false;
        }
        let m = (k + 1) % n;
        if k != i && k != j && m != i && m != j && seg_meet_i(a, b, p[k], p[m]) {
            return false;
        }
    }
    let dbl: Vec<IP> = p.iter().map(|v| (2 * v.0, 2 * v.1)).collect();
    inside_i(&dbl, (a.0 + b.0, a.1 + b.1)) == Some(true)
}

// ---- float polygons in general position ----

/// An integer polygon rotated, scaled and shifted into generic f32 coordinates.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FPoly {
    pub pts: Vec<(F, F)>,
}
impl FPoly {
    pub fn verts(&self) -> Vec<Vec2> {
        self.pts.iter().map(|p| Vec2::new(p.0 .0, p.1 .0)).collect()
    }
    pub fn ps(&self) -> Vec<P> {
        self.pts.iter().map(|p| P(p.0 .0 as f64, p.1 .0 as f64)).collect()
    }
    pub fn mag(&self) -> f64 {
        self.ps().iter().map(|p| p.mag()).fold(0.0, f64::max)
    }
    /// Every orientation test between three vertices has a sign that f32 rounding cannot change.
    pub fn general_position(&self) -> bool {
        let p = self.ps();
        let n = p.len();
        let tol = 32.0 * EPS * self.mag() * self.mag();
        for i in 0..n {
            for j in i + 1..n {
                for k in j + 1..n {
                    if p[j].sub(p[i]).cross(p[k].sub(p[i])).abs() <= tol {
                        return false;
                    }
                }
            }
        }
        true
    }
}

pub fn fpoly(nmax: usize) -> BoxedStrategy<FPoly> {
    let base = prop_oneof![
        3 => grown(100, nmax),
        2 => grown(900, nmax),
        2 => star(300, nmax),
        1 => star(900, nmax),
    ];
    let sc = prop_oneof![2 => Just(1.0f64), 2 => -12.0f64..12.0, 1 => -30.0f64..24.0].prop_map(|e| if e == 1.0 { 1.0 } else { 2f64.powf(e) });
    (base, 0.0f64..6.3, sc, (-1.0f64..1.0, -1.0f64..1.0), any::<bool>(), 0usize..32)
        .prop_map(|(b, th, s, t, rev, rot)| {
            let (c, si) = (th.cos() * s, th.sin() * s);
            let m = max_abs(&b) as f64 * s;
            let mut pts: Vec<(F, F)> = b
                .iter()
                .map(|p| {
                    let (x, y) = (p.0 as f64, p.1 as f64);
                    (F((c * x - si * y + t.0 * m) as f32), F((si * x + c * y + t.1 * m) as f32))
                })
                .collect();
            if rev {
                pts.reverse();
            }
            let n = pts.len();
            pts.rotate_left(rot % n);
            FPoly { pts }
        })
        .boxed()
}

// ---- polygons with very many vertices, described by a few numbers ----

/// An x-monotone band: two chains of vertices, one above and one below the line y = 0, both from the first corner (0, 0)
/// to the last. Such a polygon is always simple.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Band {
    pub lower: u32,
    pub upper: u32,
    pub seed: u64,
    /// 0 free, 1 every vertex of a chain at one height, 2 sawtooth, 3 lower chain flat
    pub style: u8,
    pub quarter: u8,
    pub rev: bool,
    pub rot: u32,
    /// shift, as a fraction (1/4 steps) of the length
    pub tr: (i8, i8),
    pub exp: i32,
}
impl Band {
    pub fn poly(&self) -> Poly {
        let mut s = self.seed | 1;
        let mut rnd = move |k: i64| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((s >> 33) as i64) % k
        };
        let n = (self.lower + self.upper + 2) as i64;
        let h = (3_000_000 / (n * n / 2)).clamp(2, 60);
        let mut chain = |k: u32, len: i64, style: u8| -> Vec<IP> {
            // k different abscissas strictly between 0 and len, as evenly as randomness allows
            let mut x = 0;
            (0..k as i64)
                .map(|i| {
                    let room = (len - 1 - x) - (k as i64 - 1 - i);
                    x += 1 + if room > 1 { rnd(room.min(3)) } else { 0 };
                    let y = match style {
                        1 => h,
                        2 => {
                            if i % 2 == 0 {
                                h
                            } else {
                                1
                            }
                        }
                        _ => 1 + rnd(h),
                    };
                    (x, y)
                })
                .collect()
        };
        let len = self.lower.max(self.upper) as i64 * 3 / 2 + 3;
        let lower = chain(self.lower, len, if self.style == 3 { 1 } else { self.style });
        let upper = chain(self.upper, len, self.style);
        let mut p = vec![(0, 0)];
        p.extend(lower.iter().map(|q| (q.0, -q.1)));
        p.push((len, 0));
        p.extend(upper.iter().rev());
        for v in p.iter_mut() {
            v.0 += self.tr.0 as i64 * len / 4;
            v.1 += self.tr.1 as i64 * h / 4;
            for _ in 0..self.quarter % 4 {
                *v = (-v.1, v.0);
            }
        }
        if self.rev {
            p.reverse();
        }
        let n = p.len();
        p.rotate_left(self.rot as usize % n);
        Poly { pts: p, exp: self.exp }
    }
}
pub fn band(lo: u32, hi: u32) -> impl Strategy<Value = Band> {
    (
        (prop_oneof![3 => (lo..hi), 1 => 120u32..140, 1 => 250u32..262, 1 => 505u32..520], 1u32..8),
        any::<u64>(),
        0u8..4,
        0u8..4,
        any::<bool>(),
        prop_oneof![1 => Just(0u32), 2 => any::<u32>()],
        prop_oneof![1 => Just((-2i8, 0i8)), 1 => Just((0, 0)), 1 => (-6i8..6, -6i8..6)],
        prop_oneof![3 => Just(0i32), 1 => -20i32..16],
    )
        .prop_map(|((n, part), seed, style, quarter, rev, rot, tr, exp)| {
            let lower = (n * part / 8).max(1);
            Band { lower, upper: (n - n.min(lower)).max(1), seed, style, quarter, rev, rot, tr, exp }
        })
}
