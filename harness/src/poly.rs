//! P01..P09: polygons and orientation predicates.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::polygen::*;
use kami::geometry::polygon::*;
use kami::glm::Vec2;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

fn new(v: &[Vec2]) -> Result<Polygon, String> {
    Polygon::new(&v.to_vec()).map_err(|_| format!("Polygon::new refused {} vertices", v.len()))
}

/// Are `a` and `b` the same cyclic sequence?
fn same_cycle(a: &[Vec2], b: &[Vec2]) -> bool {
    let n = a.len();
    n == b.len() && (0..n).any(|k| (0..n).all(|i| bits(&a[i]) == bits(&b[(i + k) % n])))
}

fn shape_labels(p: &Poly, o: &mut Obs) {
    let n = p.n();
    o.label(match n {
        3 => "n=3",
        4..=6 => "n=4..6",
        7..=15 => "n=7..15",
        16..=40 => "n=16..40",
        41..=128 => "n=41..128",
        129..=256 => "n=129..256",
        _ => "n>256",
    });
    let mut c = p.pts.clone();
    if area2_i(&c) < 0 {
        c.reverse();
        o.label("given clockwise");
    }
    let mut reflex = 0;
    let mut flat = 0;
    for i in 0..n {
        let x = cross_i(c[(i + n - 1) % n], c[i], c[(i + 1) % n]);
        if x < 0 {
            reflex += 1;
        } else if x == 0 {
            flat += 1;
        }
    }
    if reflex > 0 {
        o.label("has reflex vertex");
    }
    if flat > 0 {
        o.label("has flat vertex");
    }
    o.nontrivial_if(n >= 4 && reflex + flat > 0);
}

// ---------------- P01 ----------------

fn check_new(p: &Poly, o: &mut Obs) -> Res {
    shape_labels(p, o);
    if !p.orientation_certain() {
        o.label("orientation within rounding: skipped");
        return Ok(());
    }
    let v = p.verts();
    let keep = v.clone();
    let q = new(&v)?;
    ensure!(v.iter().zip(&keep).all(|(a, b)| bits(a) == bits(b)), "the caller's list changed");
    let s = q.get_vertices();
    let mut want = v.clone();
    if area2_i(&p.pts) < 0 {
        want.reverse();
    }
    ensure!(s.len() == v.len(), "{} vertices stored of {}", s.len(), v.len());
    ensure!(same_cycle(s, &want), "stored cycle {:?} expected {:?}", s, want);
    // a copy of the stored list is stable
    let r = new(&s.to_vec())?;
    ensure!(same_cycle(r.get_vertices(), s), "rebuilding from stored vertices changed the polygon");
    Ok(())
}

fn check_new_f(p: &FPoly, o: &mut Obs) -> Res {
    let ps = p.ps();
    let a2 = area2_f(&ps);
    if a2.abs() <= EPS * (ps.len() as f64 + 4.0) * 2.0 * area_terms(&ps) {
        o.label("orientation within rounding: skipped");
        return Ok(());
    }
    o.nontrivial_if(ps.len() > 3);
    let v = p.verts();
    let q = new(&v)?;
    let mut want = v.clone();
    if a2 < 0.0 {
        want.reverse();
        o.label("given clockwise");
    }
    ensure!(same_cycle(q.get_vertices(), &want), "stored cycle {:?} expected {:?}", q.get_vertices(), want);
    Ok(())
}

fn check_few(p: &Vec<(F, F)>, o: &mut Obs) -> Res {
    o.nontrivial();
    let v: Vec<Vec2> = p.iter().map(|a| Vec2::new(a.0 .0, a.1 .0)).collect();
    ensure!(Polygon::new(&v).is_err(), "{} vertices accepted", v.len());
    Ok(())
}

// ---------------- P02 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AreaCase {
    poly: Poly,
    cut: (u16, u16),
}

fn area_tol(p: &Poly) -> f64 {
    0.5 * p.scale() * p.scale() * EPS * (p.n() as f64 + 4.0) * p.area_terms()
}

fn area_is(p: &Poly, what: &str) -> Result<f64, String> {
    let q = new(&p.verts())?;
    let a = q.area() as f64;
    let want = 0.5 * area2_i(&p.pts).abs() as f64 * p.scale() * p.scale();
    // exact when every partial sum fits f32
    let tol = if p.area_terms() < 8_000_000.0 { 0.0 } else { area_tol(p) };
    ensure!(a.is_finite() && a >= 0.0, "{}: area {}", what, a);
    ensure!((a - want).abs() <= tol, "{}: area {} expected {}", what, a, want);
    Ok(a)
}

fn check_area(c: &AreaCase, o: &mut Obs) -> Res {
    let p = &c.poly;
    shape_labels(p, o);
    area_is(p, "as given")?;
    area_is(&p.reversed(), "reversed")?;
    let n = p.n();
    let ks: Vec<usize> = if n <= 10 { (1..n).collect() } else { vec![1, n / 3, n / 2, n - 1] };
    for k in ks {
        area_is(&p.rotated(k), "other starting vertex")?;
    }
    if n > 3 {
        // cut along a diagonal
        let (mut i, j) = (c.cut.0 as usize % n, c.cut.1 as usize % n);
        for _ in 0..n {
            for d in 0..n {
                let jj = (j + d) % n;
                if is_diagonal(&p.pts, i, jj) {
                    let (lo, hi) = (i.min(jj), i.max(jj));
                    let one = Poly { pts: p.pts[lo..=hi].to_vec(), exp: p.exp };
                    let mut two = p.pts[hi..].to_vec();
                    two.extend_from_slice(&p.pts[..=lo]);
                    let two = Poly { pts: two, exp: p.exp };
                    let (a, b) = (area_is(&one, "first part")?, area_is(&two, "second part")?);
                    let whole = area_is(p, "whole")?;
                    ensure!((a + b - whole).abs() <= 3.0 * area_tol(p), "parts {} + {} differ from whole {}", a, b, whole);
                    o.label("cut along a diagonal");
                    return Ok(());
                }
            }
            i = (i + 1) % n;
        }
        return Err("harness: no diagonal found by the reference".into());
    }
    Ok(())
}

fn check_area_f(p: &FPoly, o: &mut Obs) -> Res {
    let ps = p.ps();
    let n = ps.len();
    o.nontrivial_if(n > 3);
    let want = area2_f(&ps).abs() * 0.5;
    let tol = 0.5 * EPS * (n as f64 + 6.0) * 2.0 * area_terms(&ps) + 1e-37;
    for k in 0..n.min(6) {
        for rev in [false, true] {
            let mut v = p.verts();
            v.rotate_left(k);
            if rev {
                v.reverse();
            }
            let a = new(&v)?.area() as f64;
            ensure!(a >= 0.0 && (a - want).abs() <= tol, "area {} expected {} (start {}, reversed {})", a, want, k, rev);
        }
    }
    Ok(())
}

// ---------------- P03 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum T {
    Scale(F),
    Move(F, F),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TransCase {
    start: FPoly,
    ops: Vec<T>,
}

fn check_transform(c: &TransCase, o: &mut Obs) -> Res {
    let mut q = new(&c.start.verts())?;
    let n = c.start.pts.len();
    o.nontrivial_if(c.ops.len() >= 2);
    let ps = |q: &Polygon| q.get_vertices().iter().map(P::of).collect::<Vec<_>>();
    let mag = |v: &[P]| v.iter().map(|p| p.mag()).fold(0.0, f64::max);
    let check_center = |q: &Polygon| -> Res {
        let v = ps(q);
        let m = mag(&v);
        let c = P::of(&q.center());
        let mut s = P(0.0, 0.0);
        for p in &v {
            s = s.add(*p);
        }
        s = s.mul(1.0 / n as f64);
        ensure!(c.dist(s) <= EPS * (n as f64 + 4.0) * m + 1e-37, "center {:?} expected {:?}", c, s);
        Ok(())
    };
    check_center(&q)?;
    for op in &c.ops {
        let before = ps(&q);
        let m = mag(&before);
        let area0 = area2_f(&before) * 0.5;
        let want: Vec<P> = match op {
            T::Scale(s) => before.iter().map(|p| p.mul(s.0 as f64)).collect(),
            T::Move(x, y) => before.iter().map(|p| P(p.0 + x.0 as f64, p.1 + y.0 as f64)).collect(),
        };
        let wm = mag(&want).max(m);
        let nothing = matches!(op, T::Scale(s) if s.0 == 0.0);
        if wm > 1e15 || mag(&want) < 1e-15 && !nothing {
            break;
        }
        if nothing {
            o.label("scaled to a point");
        }
        let area_reported0 = q.area() as f64;
        match op {
            T::Scale(s) => {
                q.uniform_scale(s.0);
                o.label(if s.0 < 0.0 { "negative scale" } else { "scale" });
            }
            T::Move(x, y) => {
                q.translate(&Vec2::new(x.0, y.0));
                o.label("translate");
            }
        }
        let after = ps(&q);
        ensure!(after.len() == n, "vertex count changed from {} to {}", n, after.len());
        for i in 0..n {
            let tx = 2.0 * EPS * want[i].0.abs() + 1e-40;
            let ty = 2.0 * EPS * want[i].1.abs() + 1e-40;
            ensure!(
                (after[i].0 - want[i].0).abs() <= tx && (after[i].1 - want[i].1).abs() <= ty,
                "{:?}: vertex {} became {:?}, expected {:?}",
                op, i, after[i], want[i]
            );
        }
        // reported area: times s^2, or unchanged
        let f = match op {
            T::Scale(s) => (s.0 as f64).powi(2),
            _ => 1.0,
        };
        let terms = area_terms(&after).max(f * area_terms(&before));
        let perim: f64 = (0..n).map(|i| after[i].dist(after[(i + 1) % n])).sum();
        let tol = EPS * (n as f64 + 8.0) * 2.0 * terms + 4.0 * EPS * mag(&after) * perim + 1e-37;
        let a = q.area() as f64;
        ensure!((a - f * area_reported0).abs() <= 2.0 * tol, "{:?}: area {} -> {} (factor {})", op, area_reported0, a, f);
        ensure!((a - f * area0.abs()).abs() <= 2.0 * tol, "{:?}: area {} expected {}", op, a, f * area0.abs());
        check_center(&q)?;
    }
    Ok(())
}

// ---------------- P04 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RegCase {
    n: usize,
    r: F,
    c: (F, F),
}

fn check_regular(c: &RegCase, o: &mut Obs) -> Res {
    let (n, r) = (c.n, c.r.0 as f64);
    let ctr = P(c.c.0 .0 as f64, c.c.1 .0 as f64);
    o.nontrivial_if(n > 3 && ctr.mag() > 0.0);
    let q = Polygon::regular(n, c.r.0, &Vec2::new(c.c.0 .0, c.c.1 .0));
    let v: Vec<P> = q.get_vertices().iter().map(P::of).collect();
    ensure!(v.len() == n, "{} vertices instead of {}", v.len(), n);
    let tol = 16.0 * EPS * r + 2.0 * EPS * ctr.mag();
    // If rounding makes the polygon thinner than its rounding error, nothing is promised.
    let sep = 2.0 * r * (std::f64::consts::PI / n as f64).sin();
    if sep < 64.0 * tol {
        o.label("sides within rounding: skipped");
        return Ok(());
    }
    let area = 0.5 * n as f64 * r * r * (2.0 * std::f64::consts::PI / n as f64).sin();
    // (a sum of cross products around any reference point, the origin included, as in P02)
    let m = r + ctr.mag();
    let at = 8.0 * r * tol + EPS * (n as f64 + 6.0) * (4.0 * r * r + 2.0 * n as f64 * m * m);
    let reversed = area < 4.0 * at && {
        // Far from the origin such a sum may have any sign, and the vertices are then put in the other order.
        o.label("orientation within rounding: either order");
        n > 2 && v[0].dist(P(ctr.0 + r, ctr.1)) > tol
    };
    for i in 0..n {
        let k = if reversed { n - 1 - i } else { i };
        let th = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
        let w = P(ctr.0 + r * th.cos(), ctr.1 + r * th.sin());
        ensure!(v[i].dist(w) <= tol, "vertex {} is {:?}, expected {:?}", i, v[i], w);
    }
    ensure!((q.area() as f64 - area).abs() <= at, "area {} expected {}", q.area(), area);
    let g = P::of(&q.center());
    ensure!(g.dist(ctr) <= tol + EPS * (n as f64 + 4.0) * (r + ctr.mag()), "center {:?} expected {:?}", g, ctr);
    Ok(())
}

// ---------------- P05 ----------------

fn check_diagonal(p: &Poly, o: &mut Obs) -> Res {
    shape_labels(p, o);
    if !p.orientation_certain() {
        o.label("orientation within rounding: skipped");
        return Ok(());
    }
    let q = new(&p.verts())?;
    // work on what is stored
    let inv = 1.0 / p.scale();
    let st: Vec<IP> = q.get_vertices().iter().map(|v| ((v.x as f64 * inv) as i64, (v.y as f64 * inv) as i64)).collect();
    let n = st.len();
    ensure!(n == p.n(), "vertex count changed");
    let mut count = 0;
    for i in 0..n {
        for j in 0..n {
            let want = is_diagonal(&st, i, j);
            count += want as u64;
            let got = q.diagonal(i, j);
            ensure!(got == want, "diagonal({},{}) = {} expected {} in {:?}", i, j, got, want, st);
        }
    }
    o.add("internal diagonals (ordered pairs)", count);
    o.add("pairs rejected", (n * n) as u64 - count);
    Ok(())
}

fn fpoly_simple(ps: &[P]) -> bool {
    let n = ps.len();
    for i in 0..n {
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if seg_cross_f(ps[i], ps[(i + 1) % n], ps[j], ps[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}
fn seg_cross_f(a: P, b: P, c: P, d: P) -> bool {
    let s = |p: P, q: P, r: P| q.sub(p).cross(r.sub(p)) > 0.0;
    s(a, b, c) != s(a, b, d) && s(c, d, a) != s(c, d, b)
}
fn is_diagonal_f(ps: &[P], i: usize, j: usize) -> bool {
    let n = ps.len();
    if i == j || (i + 1) % n == j || (j + 1) % n == i {
        return false;
    }
    for k in 0..n {
        let m = (k + 1) % n;
        if k != i && k != j && m != i && m != j && seg_cross_f(ps[i], ps[j], ps[k], ps[m]) {
            return false;
        }
    }
    // which side of the vertex: polygon is counter-clockwise
    let (a, a0, a1, b) = (ps[i], ps[(i + n - 1) % n], ps[(i + 1) % n], ps[j]);
    let l = |p: P, q: P, r: P| q.sub(p).cross(r.sub(p)) > 0.0;
    if l(a0, a, a1) {
        l(a, a1, b) && l(a0, a, b)
    } else {
        l(a, a1, b) || l(a0, a, b)
    }
}

/// None if the case is not usable (rounding could change a predicate).
fn fpoly_ready(p: &FPoly) -> Option<(Polygon, Vec<P>)> {
    if !p.general_position() || !fpoly_simple(&p.ps()) {
        return None;
    }
    let ps = p.ps();
    if area2_f(&ps).abs() <= EPS * (ps.len() as f64 + 4.0) * 2.0 * area_terms(&ps) {
        return None;
    }
    let q = Polygon::new(&p.verts()).ok()?;
    let st: Vec<P> = q.get_vertices().iter().map(P::of).collect();
    Some((q, st))
}

fn check_diagonal_f(p: &FPoly, o: &mut Obs) -> Res {
    let (q, st) = match fpoly_ready(p) {
        Some(x) => x,
        None => {
            o.label("not in general position: skipped");
            return Ok(());
        }
    };
    let n = st.len();
    o.nontrivial_if(n > 4);
    for i in 0..n {
        for j in 0..n {
            let want = is_diagonal_f(&st, i, j);
            ensure!(q.diagonal(i, j) == want, "diagonal({},{}) should be {} in {:?}", i, j, want, st);
        }
    }
    Ok(())
}

// ---------------- P06 ----------------

/// Triangles as index triples into the stored polygon, with the combinatorial conditions checked.
fn triangles(q: &Polygon) -> Result<Vec<[usize; 3]>, String> {
    let before: Vec<_> = q.get_vertices().iter().map(bits).collect();
    let tris = q.triangulate();
    let after: Vec<_> = q.get_vertices().iter().map(bits).collect();
    ensure!(before == after, "triangulate modified the polygon");
    let n = before.len();
    let idx: HashMap<(u32, u32), usize> = before.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    ensure!(idx.len() == n, "harness: coincident vertices");
    ensure!(tris.len() == n - 2, "{} triangles for {} vertices", tris.len(), n);
    let mut out = vec![];
    let mut edges: HashMap<(usize, usize), u32> = HashMap::new();
    for t in &tris {
        let v = t.get_vertices();
        ensure!(v.len() == 3, "a part has {} vertices", v.len());
        let mut k = [0; 3];
        for i in 0..3 {
            k[i] = *idx.get(&bits(&v[i])).ok_or_else(|| format!("corner {:?} is not a vertex", v[i]))?;
        }
        for i in 0..3 {
            *edges.entry((k[i], k[(i + 1) % 3])).or_insert(0) += 1;
        }
        out.push(k);
    }
    for i in 0..n {
        let e = (i, (i + 1) % n);
        ensure!(edges.get(&e) == Some(&1), "polygon edge {:?} is in {:?} triangles", e, edges.get(&e).unwrap_or(&0));
        ensure!(!edges.contains_key(&(e.1, e.0)), "a triangle lies outside polygon edge {:?}", e);
    }
    for (&(a, b), &c) in &edges {
        ensure!(c == 1, "edge {:?} used {} times in one direction", (a, b), c);
        let boundary = (a + 1) % n == b;
        ensure!(boundary || edges.get(&(b, a)) == Some(&1), "inner edge {:?} is not shared by two triangles", (a, b));
    }
    Ok(out)
}

fn check_triangulate(p: &Poly, o: &mut Obs) -> Res {
    shape_labels(p, o);
    if !p.orientation_certain() {
        o.label("orientation within rounding: skipped");
        return Ok(());
    }
    let q = new(&p.verts())?;
    let inv = 1.0 / p.scale();
    let st: Vec<IP> = q.get_vertices().iter().map(|v| ((v.x as f64 * inv) as i64, (v.y as f64 * inv) as i64)).collect();
    let tris = triangles(&q)?;
    let mut sum = 0;
    for t in &tris {
        let a = cross_i(st[t[0]], st[t[1]], st[t[2]]);
        ensure!(a > 0, "triangle {:?} has doubled area {} in {:?}", t, a, st);
        sum += a;
    }
    ensure!(sum == area2_i(&st), "areas add up to {}, polygon has {}", sum, area2_i(&st));
    o.add("triangles", tris.len() as u64);
    Ok(())
}

fn check_triangulate_f(p: &FPoly, o: &mut Obs) -> Res {
    let (q, st) = match fpoly_ready(p) {
        Some(x) => x,
        None => {
            o.label("not in general position: skipped");
            return Ok(());
        }
    };
    o.nontrivial_if(st.len() > 4);
    let tris = triangles(&q)?;
    let mut sum = 0.0;
    for t in &tris {
        let a = st[t[1]].sub(st[t[0]]).cross(st[t[2]].sub(st[t[0]]));
        ensure!(a > 0.0, "triangle {:?} has doubled area {} in {:?}", t, a, st);
        sum += a;
    }
    let w = area2_f(&st);
    ensure!((sum - w).abs() <= 1e-9 * area_terms(&st), "areas add up to {}, polygon has {}", sum, w);
    Ok(())
}

// ---------------- P09 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// factor (not zero) times a power of two
    Scale(i8, i8),
    /// in units of the current grid
    Move(i16, i16),
    Copy,
    /// continue with another copy
    Switch(u8),
    Replace(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LifeCase {
    poly: Poly,
    /// each with: which questions to ask afterwards
    acts: Vec<(Act, u8)>,
}

/// Everything a polygon can be asked, against the exact integer model of its current vertices.
fn answers(q: &Polygon, m: &Poly, ask: u8) -> Res {
    let v = q.get_vertices();
    let n = m.n();
    ensure!(v.len() == n, "{} vertices, expected {}", v.len(), n);
    for (a, b) in v.iter().zip(m.verts()) {
        ensure!(*a == b, "vertices {:?}, expected {:?}", v, m.verts());
    }
    if ask & 1 != 0 {
        let want = 0.5 * area2_i(&m.pts) as f64 * m.scale() * m.scale();
        let tol = if m.area_terms() < 8_000_000.0 { 0.0 } else { area_tol(m) };
        ensure!((q.area() as f64 - want).abs() <= tol, "area {} expected {}", q.area(), want);
    }
    if ask & 2 != 0 {
        let (mut sx, mut sy, mut big) = (0i64, 0i64, 0i64);
        for p in &m.pts {
            sx += p.0;
            sy += p.1;
            big = big.max(p.0.abs()).max(p.1.abs());
        }
        let k = m.scale() / n as f64;
        let want = P(sx as f64 * k, sy as f64 * k);
        let got = P::of(&q.center());
        ensure!(got.dist(want) <= EPS * (n as f64 + 4.0) * 1.5 * big as f64 * m.scale(), "center {:?} expected {:?}", got, want);
    }
    if ask & 4 != 0 {
        // of many vertices only a sample
        let step = if n > 100 { n / 25 } else { 1 };
        for i in (0..n).step_by(step) {
            for j in (0..n).step_by(step).chain([(i + 2) % n, (2 * n - i) % n]) {
                let want = is_diagonal(&m.pts, i, j);
                ensure!(q.diagonal(i, j) == want, "diagonal({},{}) should be {} in {:?}", i, j, want, m.verts());
            }
        }
    }
    if ask & 8 != 0 {
        let mut sum = 0;
        for t in triangles(q)? {
            let a = cross_i(m.pts[t[0]], m.pts[t[1]], m.pts[t[2]]);
            ensure!(a > 0, "triangle {:?} has doubled area {} in {:?}", t, a, m.verts());
            sum += a;
        }
        ensure!(sum == area2_i(&m.pts), "areas add up to {}, polygon has {}", sum, area2_i(&m.pts));
    }
    Ok(())
}

fn check_life(c: &LifeCase, o: &mut Obs) -> Res {
    const LIMIT: i64 = 1400;
    if !c.poly.orientation_certain() || c.poly.pts.iter().any(|p| p.0.abs().max(p.1.abs()) > LIMIT) {
        o.label("coordinates too large for exact arithmetic: skipped");
        return Ok(());
    }
    let q = new(&c.poly.verts())?;
    let inv = 1.0 / c.poly.scale();
    let pts: Vec<IP> = q.get_vertices().iter().map(|v| ((v.x as f64 * inv) as i64, (v.y as f64 * inv) as i64)).collect();
    let mut all: Vec<(Polygon, Poly)> = vec![(q, Poly { pts, exp: c.poly.exp })];
    ensure!(area2_i(&all[0].1.pts) > 0, "stored clockwise");
    let mut cur = 0;
    let mut done = 0;
    for (act, ask) in &c.acts {
        match act {
            Act::Scale(k, e) => {
                let k = if *k == 0 { 1i64 } else { *k as i64 };
                let (q, m) = &mut all[cur];
                let (e, mut pts) = (*e as i32, m.pts.clone());
                for p in pts.iter_mut() {
                    *p = (p.0 * k, p.1 * k);
                }
                if pts.iter().any(|p| p.0.abs().max(p.1.abs()) > LIMIT) || (m.exp + e).abs() > 28 {
                    continue;
                }
                q.uniform_scale(k as f32 * 2f32.powi(e));
                m.pts = pts;
                m.exp += e;
                o.label(if k < 0 { "negative scale" } else { "scale" });
                done += 1;
            }
            Act::Move(x, y) => {
                let (q, m) = &mut all[cur];
                let mut pts = m.pts.clone();
                for p in pts.iter_mut() {
                    *p = (p.0 + *x as i64, p.1 + *y as i64);
                }
                if pts.iter().any(|p| p.0.abs().max(p.1.abs()) > LIMIT) {
                    continue;
                }
                let s = 2f32.powi(m.exp);
                q.translate(&Vec2::new(*x as f32 * s, *y as f32 * s));
                m.pts = pts;
                o.label("translate");
                done += 1;
            }
            Act::Copy => {
                if all.len() < 4 {
                    let (q, m) = &all[cur];
                    let copy = (q.clone(), m.clone());
                    all.push(copy);
                    cur = all.len() - 1;
                    o.label("copied");
                }
            }
            Act::Switch(k) => cur = *k as usize % all.len(),
            Act::Replace(k) => {
                // clone_from onto an existing polygon
                let k = *k as usize % all.len();
                if k != cur {
                    let (q, m) = (all[cur].0.clone(), all[cur].1.clone());
                    all[k].0.clone_from(&q);
                    all[k].1 = m;
                    o.label("overwritten by a copy");
                }
            }
        }
        answers(&all[cur].0, &all[cur].1, *ask).map_err(|e| format!("after {:?}: {}", act, e))?;
    }
    o.nontrivial_if(done >= 2 && c.poly.n() > 3);
    for (i, (q, m)) in all.iter().enumerate() {
        answers(q, m, 15).map_err(|e| format!("copy {} at the end: {}", i, e))?;
        // and like one newly made from the same vertices
        let f = new(q.get_vertices())?;
        answers(&f, m, 15).map_err(|e| format!("copy {} rebuilt: {}", i, e))?;
    }
    Ok(())
}
fn life(nmax: usize) -> impl Strategy<Value = LifeCase> {
    (poly(nmax), acts(10)).prop_map(|(poly, acts)| LifeCase { poly, acts })
}
fn acts(max: usize) -> impl Strategy<Value = Vec<(Act, u8)>> {
    let scale = (prop_oneof![3 => Just(1i8), 2 => Just(-1i8), 2 => -3i8..=3], prop_oneof![2 => Just(0i8), 1 => -6i8..=6]).prop_map(|(k, e)| Act::Scale(k, e));
    let shift = prop_oneof![2 => (-40i16..=40, -40i16..=40), 1 => (-600i16..=600, -600i16..=600), 1 => (-40i16..=40).prop_map(|x| (x, 0)), 1 => (-40i16..=40).prop_map(|y| (0, y))].prop_map(|(x, y)| Act::Move(x, y));
    let act = prop_oneof![4 => scale, 4 => shift, 1 => Just(Act::Copy), 1 => any::<u8>().prop_map(Act::Switch), 1 => any::<u8>().prop_map(Act::Replace)];
    vec((act, prop_oneof![1 => Just(0u8), 2 => 0u8..16, 1 => Just(15u8)]), 0..max)
}

// ---------------- P07 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Three {
    p: [IP; 3],
    shift: IP,
    exp: i32,
}

fn check_orient(c: &Three, o: &mut Obs) -> Res {
    let s = 2f32.powi(c.exp);
    let f = |p: IP| Vec2::new((p.0 + c.shift.0) as f32 * s, (p.1 + c.shift.1) as f32 * s);
    let s2 = s as f64 * s as f64;
    let x = cross_i(c.p[0], c.p[1], c.p[2]);
    o.label(match x.signum() {
        0 => "collinear",
        1 => "counter-clockwise",
        _ => "clockwise",
    });
    if c.shift != (0, 0) {
        o.label("translated");
    }
    o.nontrivial_if(c.p[0] != c.p[1] && c.p[1] != c.p[2] && c.p[0] != c.p[2]);
    for (perm, sign) in [([0, 1, 2], 1), ([1, 2, 0], 1), ([2, 0, 1], 1), ([1, 0, 2], -1), ([0, 2, 1], -1), ([2, 1, 0], -1)] {
        let (a, b, d) = (f(c.p[perm[0]]), f(c.p[perm[1]]), f(c.p[perm[2]]));
        let w = x * sign;
        let got = area2(&a, &b, &d);
        ensure!(got as f64 == w as f64 * s2, "area2({:?},{:?},{:?}) = {} expected {}", a, b, d, got, w as f64 * s2);
        ensure!(left(&a, &b, &d) == (w > 0), "left({:?},{:?},{:?}) should be {}", a, b, d, w > 0);
        ensure!(left_on(&a, &b, &d) == (w >= 0), "left_on({:?},{:?},{:?}) should be {}", a, b, d, w >= 0);
        ensure!(collinear(&a, &b, &d) == (w == 0), "collinear({:?},{:?},{:?}) should be {}", a, b, d, w == 0);
    }
    Ok(())
}

fn check_orient_f(c: &[(F, F); 3], o: &mut Obs) -> Res {
    let v: Vec<Vec2> = c.iter().map(|p| Vec2::new(p.0 .0, p.1 .0)).collect();
    let p: Vec<P> = v.iter().map(P::of).collect();
    for perm in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]] {
        let (a, b, d) = (p[perm[0]], p[perm[1]], p[perm[2]]);
        let w = b.sub(a).cross(d.sub(a));
        // rounding of the differences and products, in any formulation relative to one of the points
        let m = p.iter().map(|q| q.mag()).fold(0.0, f64::max);
        let l = p[0].dist(p[1]).max(p[1].dist(p[2])).max(p[0].dist(p[2]));
        let tol = 8.0 * EPS * l * (l + m) + 1e-37;
        let (a, b, d) = (&v[perm[0]], &v[perm[1]], &v[perm[2]]);
        let got = area2(a, b, d) as f64;
        ensure!((got - w).abs() <= tol, "area2({:?},{:?},{:?}) = {} expected {}", a, b, d, got, w);
        if w.abs() > tol {
            o.nontrivial();
            ensure!(left(a, b, d) == (w > 0.0), "left({:?},{:?},{:?}) should be {}", a, b, d, w > 0.0);
            ensure!(left_on(a, b, d) == (w > 0.0), "left_on({:?},{:?},{:?}) should be {}", a, b, d, w > 0.0);
            ensure!(!collinear(a, b, d), "collinear({:?},{:?},{:?})", a, b, d);
        } else {
            o.label("within rounding of collinear");
        }
    }
    Ok(())
}

// ---------------- P08 ----------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Four {
    p: [IP; 4],
    exp: i32,
}

fn check_meet(c: &Four, o: &mut Obs) -> Res {
    let s = 2f32.powi(c.exp);
    let f = |p: IP| Vec2::new(p.0 as f32 * s, p.1 as f32 * s);
    let [a, b, p, q] = c.p;
    if a == b || p == q {
        o.label("degenerate segment: skipped");
        return Ok(());
    }
    let (meet, prop) = (seg_meet_i(a, b, p, q), seg_proper_i(a, b, p, q));
    let col = cross_i(a, b, p) == 0 && cross_i(a, b, q) == 0;
    o.label(match (meet, prop, col) {
        (_, true, _) => "proper crossing",
        (true, _, true) => "collinear, overlapping or touching",
        (true, _, false) => "touching",
        (false, _, true) => "collinear, apart",
        (false, ..) => "apart",
    });
    o.nontrivial_if(meet || col);
    for (w, x, y, z) in [(a, b, p, q), (b, a, p, q), (a, b, q, p), (b, a, q, p), (p, q, a, b), (q, p, a, b), (p, q, b, a), (q, p, b, a)] {
        let (w, x, y, z) = (f(w), f(x), f(y), f(z));
        ensure!(intersect(&w, &x, &y, &z) == meet, "intersect({:?},{:?},{:?},{:?}) should be {}", w, x, y, z, meet);
        ensure!(intersect_prop(&w, &x, &y, &z) == prop, "intersect_prop({:?},{:?},{:?},{:?}) should be {}", w, x, y, z, prop);
    }
    for (u, v, w) in [(a, b, p), (a, b, q), (p, q, a), (p, q, b), (a, b, a), (a, b, b)] {
        let want = on_seg_i(u, v, w);
        ensure!(between(&f(u), &f(v), &f(w)) == want, "between({:?},{:?},{:?}) should be {}", u, v, w, want);
        ensure!(between(&f(v), &f(u), &f(w)) == want, "between({:?},{:?},{:?}) should be {}", v, u, w, want);
    }
    Ok(())
}

// ---------------- very many vertices ----------------

fn check_many_new(b: &Band, o: &mut Obs) -> Res {
    check_new(&b.poly(), o)
}
fn check_many_area(b: &Band, o: &mut Obs) -> Res {
    check_area(&AreaCase { poly: b.poly(), cut: (b.seed as u16, (b.seed >> 16) as u16) }, o)
}
fn check_many_transform(c: &(Band, Vec<T>), o: &mut Obs) -> Res {
    let pts = c.0.poly().verts().iter().map(|v| (F(v.x), F(v.y))).collect();
    o.nontrivial_if(c.0.lower + c.0.upper > 254);
    check_transform(&TransCase { start: FPoly { pts }, ops: c.1.clone() }, o)
}
/// Diagonals of a polygon with many vertices: pairs spread over all distances.
fn check_many_diagonal(c: &(Band, Vec<(u32, u32)>), o: &mut Obs) -> Res {
    let p = c.0.poly();
    shape_labels(&p, o);
    if !p.orientation_certain() {
        o.label("orientation within rounding: skipped");
        return Ok(());
    }
    let q = new(&p.verts())?;
    let inv = 1.0 / p.scale();
    let st: Vec<IP> = q.get_vertices().iter().map(|v| ((v.x as f64 * inv) as i64, (v.y as f64 * inv) as i64)).collect();
    let n = st.len();
    ensure!(n == p.n(), "vertex count changed");
    for (a, d) in &c.1 {
        let i = *a as usize % n;
        // near neighbours, vertices across the band, anything
        for j in [i + 2, i + 3, n - i, n + 1 - i, 2 * n - 1 - i, i + *d as usize % n, n + i - 2] {
            let j = j % n;
            let want = is_diagonal(&st, i, j);
            o.add(if want { "internal diagonals (ordered pairs)" } else { "pairs rejected" }, 2);
            for (i, j) in [(i, j), (j, i)] {
                ensure!(q.diagonal(i, j) == want, "diagonal({},{}) of {} vertices should be {}", i, j, n, want);
            }
        }
    }
    Ok(())
}
fn check_many_triangulate(b: &Band, o: &mut Obs) -> Res {
    check_triangulate(&b.poly(), o)
}
fn check_many_life(c: &(Band, Vec<(Act, u8)>), o: &mut Obs) -> Res {
    check_life(&LifeCase { poly: c.0.poly(), acts: c.1.clone() }, o)
}
fn transforms(max: usize) -> impl Strategy<Value = Vec<T>> {
    let op = prop_oneof![
        2 => fl(-4.0..4.0).prop_map(T::Scale),
        1 => fl(-12.0..12.0).prop_map(T::Scale),
        1 => (-3i32..9).prop_map(|k| T::Scale(F(k as f32))),
        1 => (-1e-3f32..1e-3).prop_map(|e| T::Scale(F(1.0 + e))),
        2 => fpoint().prop_map(|(x, y)| T::Move(x, y)),
        1 => (special(), special()).prop_map(|(x, y)| T::Move(x, y)),
    ];
    vec(op, 0..max)
}

// ---------------- strategies ----------------

fn ip(r: i64) -> impl Strategy<Value = IP> + Clone {
    (-r..=r, -r..=r)
}
fn exp() -> impl Strategy<Value = i32> {
    prop_oneof![3 => Just(0), 1 => -30i32..30]
}
/// Three points, often exactly collinear.
fn three(max_shift: i64) -> impl Strategy<Value = Three> {
    let pts = prop_oneof![
        2 => [ip(3), ip(3), ip(3)],
        2 => [ip(30), ip(30), ip(30)],
        2 => [ip(1000), ip(1000), ip(1000)],
        3 => (ip(100), ip(30), -10i64..10, -10i64..10, ip(1)).prop_map(|(a, d, s, t, e)| {
            [a, (a.0 + s * d.0, a.1 + s * d.1), (a.0 + t * d.0 + e.0, a.1 + t * d.1 + e.1)]
        }),
    ];
    (pts, prop_oneof![1 => Just((0, 0)), 1 => ip(max_shift)], exp()).prop_map(|(p, shift, exp)| Three { p, shift, exp })
}
/// Two segments in every relative position: generic, small grid, collinear, touching.
fn four() -> impl Strategy<Value = Four> {
    let q = prop_oneof![
        3 => [ip(2), ip(2), ip(2), ip(2)],
        3 => [ip(5), ip(5), ip(5), ip(5)],
        2 => [ip(500), ip(500), ip(500), ip(500)],
        // on one line (parameters s), possibly nudged off it
        3 => (ip(50), ip(12), [-9i64..9, -9i64..9, -9i64..9, -9i64..9], prop_oneof![3 => Just((0i64, 0i64)), 1 => ip(1)]).prop_map(|(a, d, s, e)| {
            let f = |k: i64| (a.0 + k * d.0, a.1 + k * d.1);
            [f(s[0]), f(s[1]), f(s[2]), (f(s[3]).0 + e.0, f(s[3]).1 + e.1)]
        }),
        // third point on the first segment's line, fourth anywhere (end-on touching and near misses)
        3 => (ip(50), ip(12), -9i64..9, -9i64..9, ip(200), ip(1), any::<bool>()).prop_map(|(a, d, s, t, z, e, nudge)| {
            let f = |k: i64| (a.0 + k * d.0, a.1 + k * d.1);
            let c = f(t);
            [a, f(s), if nudge { (c.0 + e.0, c.1 + e.1) } else { c }, z]
        }),
        // parallel, shifted
        1 => (ip(50), ip(50), ip(50), -3i64..3).prop_map(|(a, d, c, k)| [a, (a.0 + d.0, a.1 + d.1), c, (c.0 + k * d.0, c.1 + k * d.1)]),
    ];
    (q, exp()).prop_map(|(p, exp)| Four { p, exp })
}
fn fl(mag: std::ops::Range<f32>) -> impl Strategy<Value = F> {
    (mag, any::<bool>()).prop_map(|(e, s)| F(if s { -(2f32.powf(e)) } else { 2f32.powf(e) }))
}
/// Exact zeros, whole numbers of either sign, tiny and large values.
fn special() -> impl Strategy<Value = F> + Clone {
    prop_oneof![3 => Just(F(0.0)), 1 => Just(F(-0.0)), 2 => (-9i32..9).prop_map(|k| F(k as f32)), 1 => (-2000i32..2000).prop_map(|k| F(k as f32 / 16.0)), 1 => (-1e-4f32..1e-4).prop_map(F), 1 => (-1e6f32..1e6).prop_map(F)]
}
fn fpoint() -> impl Strategy<Value = (F, F)> {
    prop_oneof![
        2 => (-1000.0f32..1000.0, -1000.0f32..1000.0).prop_map(|(x, y)| (F(x), F(y))),
        2 => (-1.0f32..1.0, -1.0f32..1.0).prop_map(|(x, y)| (F(x), F(y))),
        1 => (fl(-20.0..20.0), fl(-20.0..20.0)),
        1 => (special(), special()),
        1 => (special(), -1000.0f32..1000.0).prop_map(|(x, y)| (x, F(y))),
    ]
}

const MANY: &str = "a polygon of 100 to 1500 (thorough 4000) vertices with a reflex or flat vertex (P03: more than 256 vertices)";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            subs: vec![
                sub("exact", "a simple integer polygon (times a power of two) with a reflex or flat vertex", (60_000, 1_500_000), |t| poly(t.pick(24, 60)), check_new),
                sub("float", "a simple polygon with generic f32 coordinates and more than 3 vertices", (30_000, 600_000), |t| fpoly(t.pick(16, 30)), check_new_f),
                sub("large", "a simple integer polygon of up to 150 (thorough 260) vertices with a reflex or flat vertex", (200, 3_000), |t| poly(t.pick(150, 260)), check_new),
                sub("many", MANY, (600, 10_000), |t| band(100, t.pick(1500, 4000)), check_many_new),
                sub("few", "every list of fewer than 3 points", (2_000, 20_000), |_| vec(fpoint(), 0..3), check_few),
            ],
            assumptions: &["orientation is only judged where the f32 rounding error of summing the area cannot change its sign"],
        },
        Prop {
            id: "P02",
            subs: vec![
                sub("exact", "a simple integer polygon with a reflex or flat vertex; area compared for several starts, both orientations and the two parts of a cut",
                    (40_000, 800_000), |t| (poly(t.pick(20, 60)), any::<(u16, u16)>()).prop_map(|(poly, cut)| AreaCase { poly, cut }), check_area),
                sub("float", "a generic f32 polygon with more than 3 vertices", (30_000, 600_000), |t| fpoly(t.pick(16, 30)), check_area_f),
                sub("large", "a simple integer polygon of up to 150 (thorough 260) vertices with a reflex or flat vertex", (200, 3_000), |t| (poly(t.pick(150, 260)), any::<(u16, u16)>()).prop_map(|(poly, cut)| AreaCase { poly, cut }), check_area),
                sub("many", MANY, (200, 3_000), |t| band(100, t.pick(1500, 4000)), check_many_area),
            ],
            assumptions: &["tolerance: f32 epsilon times the number of vertices times the sum of the absolute area terms; zero where every partial sum is an exact f32"],
        },
        Prop {
            id: "P03",
            subs: vec![sub(
                "history",
                "at least two scale/translate operations in a row",
                (40_000, 800_000),
                |t| (fpoly(t.pick(12, 30)), transforms(t.pick(6, 12))).prop_map(|(start, ops)| TransCase { start, ops }),
                check_transform,
            ),
            sub("many", MANY, (400, 8_000), |t| (band(100, t.pick(1500, 4000)), transforms(4)), check_many_transform)],
            assumptions: &["each operation is compared in f64 with the state before it, within two roundings per coordinate"],
        },
        Prop {
            id: "P04",
            subs: vec![sub(
                "regular",
                "more than 3 sides and a center away from the origin",
                (40_000, 800_000),
                |t| {
                    let n = prop_oneof![3 => 3usize..20, 1 => 20usize..t.pick(200, 1000), 1 => (5.0f32..t.pick(11.0, 14.0)).prop_map(|e| 2f32.powf(e) as usize)];
                    let c = prop_oneof![1 => Just((F(0.0), F(0.0))), 4 => fpoint()];
                    (n, (-8.0f32..10.0), c).prop_map(|(n, r, c)| RegCase { n, r: F(2f32.powf(r)), c })
                },
                check_regular,
            )],
            assumptions: &["side length at least 64 times the coordinate rounding error"],
        },
        Prop {
            id: "P05",
            subs: vec![
                sub("exact", "a simple integer polygon with a reflex or flat vertex; every ordered pair of vertices is compared with the exact reference",
                    (40_000, 800_000), |t| poly(t.pick(18, 50)), check_diagonal),
                sub("float", "an f32 polygon in general position with more than 4 vertices", (20_000, 400_000), |t| fpoly(t.pick(12, 24)), check_diagonal_f),
                sub("large", "a simple integer polygon of up to 150 (thorough 260) vertices with a reflex or flat vertex", (40, 800), |t| poly(t.pick(110, 200)), check_diagonal),
                sub("many", MANY, (100, 2_000), |t| (band(100, t.pick(1500, 4000)), vec(any::<(u32, u32)>(), 40)), check_many_diagonal),
            ],
            assumptions: &["f32 polygons are only judged where every orientation test between three vertices is beyond rounding"],
        },
        Prop {
            id: "P06",
            subs: vec![
                sub("exact", "a simple integer polygon with a reflex or flat vertex", (40_000, 600_000), |t| poly(t.pick(24, 70)), check_triangulate).must_terminate(),
                sub("float", "an f32 polygon in general position with more than 4 vertices", (20_000, 400_000), |t| fpoly(t.pick(14, 24)), check_triangulate_f).must_terminate(),
                sub("large", "a simple integer polygon of up to 150 (thorough 260) vertices with a reflex or flat vertex", (60, 1_000), |t| poly(t.pick(140, 260)), check_triangulate).must_terminate(),
                sub("many", MANY, (40, 600), |t| band(100, t.pick(600, 1500)), check_many_triangulate).must_terminate(),
            ],
            assumptions: &["positive triangles whose directed edges cancel except along the polygon's boundary form a partition (winding-number argument)"],
        },
        Prop {
            id: "P07",
            subs: vec![
                sub("exact", "three different points with exactly representable coordinates, a third of them collinear or one unit off", (400_000, 8_000_000), |_| three(1_000_000), check_orient),
                sub("float", "three f32 points whose orientation is beyond rounding", (200_000, 4_000_000), |_| [fpoint(), fpoint(), fpoint()], check_orient_f),
            ],
            assumptions: &[],
        },
        Prop {
            id: "P08",
            subs: vec![sub("exact", "segments that meet or lie on one line", (400_000, 8_000_000), |_| four(), check_meet)],
            assumptions: &["coordinates are integers (up to about 1000) times a power of two, so the exact answer is representable"],
        },
        Prop {
            id: "P09",
            subs: vec![sub("life", "a polygon of more than 3 vertices, scaled or moved at least twice", (15_000, 250_000), |t| life(t.pick(12, 24)), check_life).must_terminate(),
                sub("many", MANY, (60, 1_000), |t| (band(100, t.pick(700, 1500)), acts(4)), check_many_life).must_terminate()],
            assumptions: &["integer coordinates up to 1400 times a power of two, so that every step is exact in f32"],
        },
    ]
}
