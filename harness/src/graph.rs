//! G01-G11: planar graph histories against an f64 reference arrangement.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use kami::glm::Vec2;
use kami::graph::planar_graph::{PlanarGraph, PlanarGraphError};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

thread_local! { static SEEN: RefCell<Vec<u32>> = RefCell::new(vec![]); }

/// Node/edge data. Its Debug implementation records the value, which is how node data (which has
/// no accessor) is read back, whatever the derived Debug output looks like.
#[derive(Copy, Clone, Default, PartialEq, Eq)]
pub struct Tag(pub u32);
impl std::fmt::Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        SEEN.with(|s| s.borrow_mut().push(self.0));
        write!(f, "T{}", self.0)
    }
}
type G = PlanarGraph<Tag, Tag>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Node(u16, u16),
    NodeOnEdge(u16, u8),
    NodeAgain(u16),
    Edge(u16, u16),
    Seg(u16, u16, u16, u16),
    From(u16, u16, u16),
    Through(u16, u16, u8),
    Extend(u16, u8, bool),
    RmEdge(u16),
    RmNode(u16),
    RmLast,
    SelfLoop(u16),
    EdgeAgain(u16, bool),
    BadEdge(u16, u8, bool),
    BadRmNode(u8),
    BadRmEdge(u8),
    /// removes one after the other (which ones: see `drain_step`) until next to nothing is left, unless the graph is large
    Drain(u8),
    /// draws again what was removed before: a whole segment or one end
    Recall(u16, u8),
}

/// What to remove next from a graph of n nodes and m edges: Some((is it an edge, index)).
fn drain_step(kind: u8, n: usize, m: usize) -> Option<(bool, usize)> {
    if n > 60 {
        return None;
    }
    let keep = [0, 0, 1, 2][(kind >> 4) as usize % 4];
    let at = |k: usize| [0, k - 1, k / 2][kind as usize % 3];
    let edges = kind >> 2 & 1 == 1;
    if edges && m > keep {
        Some((true, at(m)))
    } else if (kind >> 3 & 1 == 1 || !edges) && n > keep {
        Some((false, at(n)))
    } else {
        None
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    mode: u8,
    ops: Vec<Op>,
}

const MODES: u8 = 19;
fn place(mode: u8, x: u16, y: u16) -> Vec2 {
    let grid = |n: u16, off: f32, s: f32| Vec2::new(((x % n) as f32 + off) * s, ((y % n) as f32 + off) * s);
    let fl = |lo: f32, hi: f32| Vec2::new(lo + (hi - lo) * (x as f32 / 65536.0), lo + (hi - lo) * (y as f32 / 65536.0));
    match mode % MODES {
        0 => grid(4, 0.0, 1.0),
        1 => grid(6, -2.0, 1.0),
        2 => grid(9, 0.0, 1.0),
        3 => grid(17, -8.0, 1.0),
        4 => grid(101, 0.0, 5.0),
        5 => fl(0.0, 1.0),
        6 => fl(0.0, 500.0),
        7 => fl(-1.0, 1.0),
        8 => fl(-1.0e4, 1.0e4),
        9 => fl(0.0, 0.037),
        10 => grid(7, -3.0, 0.1),
        11 => grid(5, 0.0, 33.333),
        // wide and flat, far from the origin, tiny, huge, box pleats, mixed scales
        12 => Vec2::new((x % 31) as f32, (y % 3) as f32),
        13 => fl(1000.0, 1010.0),
        14 => grid(5, -2.0, 1.0 / 1024.0),
        15 => grid(9, -4.0, 262144.0),
        16 => Vec2::new(100.0 * (x as f32 / 65536.0), 0.5 * (y as f32 / 65536.0)),
        17 => grid(9, 0.0, 0.125),
        _ => {
            let s = if x & 1 == 0 { 1.0 } else { 100.0 };
            Vec2::new((((x >> 1) % 7) as f32 - 3.0) * s, ((y % 7) as f32 - 3.0) * s)
        }
    }
}

#[derive(Clone, PartialEq)]
struct Snap {
    pos: Vec<Vec2>,
    data: Vec<u32>,
    edges: Vec<(usize, usize, u32)>,
    labels: Vec<String>,
}
impl Snap {
    fn of(g: &G) -> Snap {
        let mut data = vec![];
        for n in g.get_nodes() {
            SEEN.with(|s| s.borrow_mut().clear());
            let _ = format!("{:?}", n);
            data.push(SEEN.with(|s| s.borrow().last().copied().unwrap_or(u32::MAX)));
        }
        Snap {
            pos: g.get_nodes().iter().map(|n| *n.get_position()).collect(),
            data,
            edges: g
                .get_edges()
                .iter()
                .map(|e| {
                    let (a, b) = e.get_node_indices();
                    (a, b, e.get_data().0)
                })
                .collect(),
            labels: g.get_edges().iter().map(|e| e.get_label().to_string()).collect(),
        }
    }
    fn p(&self, i: usize) -> P {
        P::of(&self.pos[i])
    }
    fn key(e: &(usize, usize, u32)) -> (usize, usize) {
        (e.0.min(e.1), e.0.max(e.1))
    }
    fn valid(&self) -> Res {
        for (i, e) in self.edges.iter().enumerate() {
            ensure!(e.0 < self.pos.len() && e.1 < self.pos.len(), "edge {} = {:?} refers to a missing node ({} nodes)", i, e, self.pos.len());
        }
        Ok(())
    }
    /// Edge by geometry: positions of the endpoints (unordered) and data.
    fn geo(&self, i: usize) -> ((u32, u32), (u32, u32), u32) {
        let e = self.edges[i];
        let (a, b) = (bits(&self.pos[e.0]), bits(&self.pos[e.1]));
        (a.min(b), a.max(b), e.2)
    }
    fn show(&self) -> String {
        let n: Vec<String> = self.pos.iter().map(|p| format!("({:?},{:?})", p.x, p.y)).collect();
        format!("nodes [{}] edges {:?}", n.join(" "), self.edges)
    }
    fn global_mag(&self) -> f64 {
        self.pos.iter().map(|p| P::of(p).mag()).fold(0.0, f64::max)
    }
}

fn on_tol(pts: &[P]) -> f64 {
    6.0 * EPS * pts.iter().map(|p| p.mag()).fold(0.0, f64::max)
}
fn sep(m: f64) -> f64 {
    (256.0 * EPS * m).max(4.0 * EPS)
}

enum NodePlan {
    Existing(usize),
    New(Vec<usize>),
    Skip,
}
fn plan_node(s: &Snap, p: P) -> NodePlan {
    let sp = sep(s.global_mag().max(p.mag()));
    let mut near = 0;
    let mut exact = None;
    for i in 0..s.pos.len() {
        let d = s.p(i).dist(p);
        if d == 0.0 {
            exact = Some(i);
        } else if d < sp {
            near += 1;
        }
    }
    if let Some(i) = exact {
        return NodePlan::Existing(i);
    }
    if near > 0 {
        return NodePlan::Skip;
    }
    let mut on = vec![];
    for (k, e) in s.edges.iter().enumerate() {
        let (a, b) = (s.p(e.0), s.p(e.1));
        let d = seg_dist(a, b, p);
        if d <= on_tol(&[a, b, p]) {
            on.push(k);
        } else if d < sp {
            return NodePlan::Skip;
        }
    }
    // a node (within rounding) on two edges that meet at a narrow angle would make them coincide
    for (x, k) in on.iter().enumerate() {
        for l in &on[x + 1..] {
            let (e, f) = (s.edges[*k], s.edges[*l]);
            if e.0 == f.0 || e.0 == f.1 || e.1 == f.0 || e.1 == f.1 {
                return NodePlan::Skip;
            }
        }
    }
    NodePlan::New(on)
}

struct Cross {
    edge: usize,
    t: f64,
    at: P,
    sin: f64,
}
enum EdgePlan {
    Skip,
    New { on: Vec<(f64, usize)>, cross: Vec<Cross> },
}
/// The reference plan for drawing node i - node j (i != j, not adjacent) into a planar state.
fn plan_edge(s: &Snap, i: usize, j: usize) -> EdgePlan {
    let (a, b) = (s.p(i), s.p(j));
    let sp = sep(s.global_mag());
    if a.dist(b) < sp {
        return EdgePlan::Skip;
    }
    let dir = b.sub(a);
    let l2 = dir.dot(dir);
    let mut is_on = vec![false; s.pos.len()];
    is_on[i] = true;
    is_on[j] = true;
    let mut on = vec![];
    for k in 0..s.pos.len() {
        if k == i || k == j {
            continue;
        }
        let p = s.p(k);
        let d = seg_dist(a, b, p);
        if d <= on_tol(&[a, b, p]) {
            if p.dist(a) < sp || p.dist(b) < sp {
                return EdgePlan::Skip;
            }
            is_on[k] = true;
            on.push((p.sub(a).dot(dir) / l2, k));
        } else if d < sp {
            return EdgePlan::Skip;
        }
    }
    let mut cross = vec![];
    for (k, e) in s.edges.iter().enumerate() {
        let (c, d) = (s.p(e.0), s.p(e.1));
        for (n, q) in [(i, a), (j, b)] {
            if n != e.0 && n != e.1 && seg_dist(c, d, q) < sp {
                return EdgePlan::Skip;
            }
        }
        if is_on[e.0] || is_on[e.1] {
            continue;
        }
        if let Some((t, u, at)) = line_hit(a, b, c, d) {
            if t > 0.0 && t < 1.0 && u > 0.0 && u < 1.0 {
                let sin = sin_between(a, b, c, d);
                if sin < 1e-3 {
                    return EdgePlan::Skip;
                }
                cross.push(Cross { edge: k, t, at, sin });
            }
        }
    }
    // every crossing must be clear of every other feature
    for (x, c) in cross.iter().enumerate() {
        let se = sp / c.sin;
        for n in 0..s.pos.len() {
            if s.p(n).dist(c.at) < se {
                return EdgePlan::Skip;
            }
        }
        for (k, e) in s.edges.iter().enumerate() {
            if k != c.edge && seg_dist(s.p(e.0), s.p(e.1), c.at) < se {
                return EdgePlan::Skip;
            }
        }
        for o in cross.iter().skip(x + 1) {
            if o.at.dist(c.at) < se.max(sp / o.sin) {
                return EdgePlan::Skip;
            }
        }
    }
    on.sort_by(|p, q| p.0.partial_cmp(&q.0).unwrap());
    for w in on.windows(2) {
        if s.p(w[0].1).dist(s.p(w[1].1)) < sp {
            return EdgePlan::Skip;
        }
    }
    EdgePlan::New { on, cross }
}

/// Direct planarity predicate on a stored graph; only pairs involving an edge in `touched`
/// (or a node in `new_nodes`) are examined.
fn planar(s: &Snap, touched: &[usize], new_nodes: &[usize]) -> Res {
    let ps: Vec<P> = (0..s.pos.len()).map(|i| s.p(i)).collect();
    // bounding boxes, widened by far more than the tolerances below, to skip most of the pairs
    let boxes: Vec<[f64; 4]> = s
        .edges
        .iter()
        .map(|e| {
            let (a, b) = (ps[e.0], ps[e.1]);
            let w = 1e-4 * a.mag().max(b.mag());
            [a.0.min(b.0) - w, a.1.min(b.1) - w, a.0.max(b.0) + w, a.1.max(b.1) + w]
        })
        .collect();
    let node_on = |k: usize, n: usize| -> Res {
        let e = &s.edges[k];
        let (p, bx) = (ps[n], &boxes[k]);
        if n == e.0 || n == e.1 || p.0 < bx[0] || p.1 < bx[1] || p.0 > bx[2] || p.1 > bx[3] {
            return Ok(());
        }
        let (a, b) = (ps[e.0], ps[e.1]);
        let m = a.mag().max(b.mag()).max(p.mag());
        if seg_dist(a, b, p) <= 2.0 * EPS * m && p.dist(a) > 64.0 * EPS * m && p.dist(b) > 64.0 * EPS * m {
            return Err(format!("node {} lies in the interior of edge {} {:?}: {}", n, k, (e.0, e.1), s.show()));
        }
        Ok(())
    };
    let is_touched: HashSet<usize> = touched.iter().cloned().collect();
    for &k in touched {
        let e = &s.edges[k];
        for n in 0..ps.len() {
            node_on(k, n)?;
        }
        let (a, b) = (ps[e.0], ps[e.1]);
        for (l, f) in s.edges.iter().enumerate() {
            let (x, y) = (&boxes[k], &boxes[l]);
            if l == k || x[0] > y[2] || y[0] > x[2] || x[1] > y[3] || y[1] > x[3] {
                continue;
            }
            if Snap::key(e) == Snap::key(f) {
                return Err(format!("edges {} and {} coincide: {}", k, l, s.show()));
            }
            if e.0 == f.0 || e.0 == f.1 || e.1 == f.0 || e.1 == f.1 {
                continue;
            }
            let (c, d) = (ps[f.0], ps[f.1]);
            let m = a.mag().max(b.mag()).max(c.mag()).max(d.mag());
            let tol = 64.0 * EPS * m;
            if let Some((t, u, _)) = line_hit(a, b, c, d) {
                if t > 0.0
                    && t < 1.0
                    && u > 0.0
                    && u < 1.0
                    && line_dist(a, b, c) > tol
                    && line_dist(a, b, d) > tol
                    && line_dist(c, d, a) > tol
                    && line_dist(c, d, b) > tol
                {
                    return Err(format!("edges {} and {} cross away from any shared node: {}", k, l, s.show()));
                }
            }
        }
    }
    for &n in new_nodes {
        for k in (0..s.edges.len()).filter(|k| !is_touched.contains(k)) {
            node_on(k, n)?;
        }
    }
    Ok(())
}

const G01: u32 = 1;
const G02: u32 = 2;
const G03: u32 = 4;
const G04: u32 = 8;
const G05: u32 = 16;
const G06: u32 = 32;
const G07: u32 = 64;
const G08: u32 = 128;
const G09: u32 = 256;

#[derive(Default)]
struct Tally {
    nodes: u64,
    node_splits: u64,
    node_existing: u64,
    edges: u64,
    crossings: u64,
    passes: u64,
    overlaps: u64,
    multi: u64,
    skips: u64,
    rm_edge: u64,
    rm_edge_last: u64,
    rm_edge_stray: u64,
    rm_edge_mid: u64,
    rm_node: u64,
    rm_node_isolated: u64,
    rm_node_stray: u64,
    rm_node_mid: u64,
    refused: u64,
    emptied: u64,
    last_edges: u64,
    redrawn: u64,
}

struct Run<'a> {
    g: G,
    mask: u32,
    tally: Tally,
    next: u32,
    guard: bool,
    /// set once an operation was performed although features are within rounding of each other
    wild: bool,
    /// ends of the edges (or the positions of the lone nodes) removed so far
    past: Vec<(Vec2, Vec2)>,
    _obs: &'a (),
}

fn set(v: &[usize]) -> BTreeSet<usize> {
    v.iter().copied().collect()
}

impl<'a> Run<'a> {
    fn wants(&self, m: u32) -> bool {
        self.mask & m != 0
    }

    fn structural(&self, s: &Snap) -> Res {
        s.valid()?;
        let mut seen = HashSet::new();
        for (i, e) in s.edges.iter().enumerate() {
            ensure!(e.0 != e.1, "edge {} joins node {} to itself", i, e.0);
            let fresh = seen.insert(Snap::key(e));
            ensure!(fresh || self.wild, "two edges join nodes {:?}: {}", Snap::key(e), s.show());
        }
        let mut ps = HashSet::new();
        for (i, p) in s.pos.iter().enumerate() {
            ensure!(ps.insert(bits(p)), "two nodes share the position of node {} {:?}", i, (p.x, p.y));
        }
        Ok(())
    }

    fn queries(&self, s: &Snap) -> Res {
        let g = &self.g;
        let (n, m) = (s.pos.len(), s.edges.len());
        ensure!(g.node_count() == n, "node_count {} but {} nodes", g.node_count(), n);
        ensure!(g.edge_count() == m, "edge_count {} but {} edges", g.edge_count(), m);
        let mut adj = HashSet::new();
        let mut deg = vec![0usize; n];
        for e in &s.edges {
            adj.insert(Snap::key(e));
            deg[e.0] += 1;
            if e.1 != e.0 {
                deg[e.1] += 1;
            }
        }
        let far = [n, n + 1, n + 7, usize::MAX, usize::MAX - 1];
        for i in (0..n).chain(far) {
            let exp = i < n;
            ensure!(g.has_node_at_index(i) == exp, "has_node_at_index({}) = {} with {} nodes", i, !exp, n);
            let v = g.get_vertex(i);
            ensure!(v.is_some() == exp, "get_vertex({}) present = {} with {} nodes", i, v.is_some(), n);
            if let Some(v) = v {
                ensure!(bits(v.get_position()) == bits(&s.pos[i]), "get_vertex({}) returns another node", i);
            }
            let c = g.number_of_edges_incident_to(i);
            let ce = if exp { Some(deg[i]) } else { None };
            ensure!(c == ce, "number_of_edges_incident_to({}) = {:?}, expected {:?}: {}", i, c, ce, s.show());
        }
        for i in (0..m).chain([m, m + 1, m + 9, usize::MAX]) {
            let exp = i < m;
            ensure!(g.has_edge_at_index(i) == exp, "has_edge_at_index({}) = {} with {} edges", i, !exp, m);
            let e = g.get_edge(i);
            ensure!(e.is_some() == exp, "get_edge({}) present = {} with {} edges", i, e.is_some(), m);
            if let Some(e) = e {
                let (a, b) = e.get_node_indices();
                ensure!((a, b, e.get_data().0) == s.edges[i], "get_edge({}) returns another edge", i);
                for k in (0..n).chain([n, n + 3]) {
                    ensure!(e.includes(k) == (a == k || b == k), "edge {:?} includes({}) is wrong", (a, b), k);
                }
            }
        }
        // (all pairs in small graphs, a changing sample of some hundred pairs in large ones)
        let stride = 1 + n * n / 600;
        for a in 0..n + 2 {
            for b in (0..n + 2).filter(|b| stride <= 2 || (a * (n + 2) + b + m) % stride == 0) {
                let exp = adj.contains(&(a.min(b), a.max(b)));
                ensure!(g.has_edge_between_nodes(a, b) == exp, "has_edge_between_nodes({}, {}) = {}: {}", a, b, !exp, s.show());
            }
        }
        Ok(())
    }

    fn after_any(&self, s: &Snap) -> Res {
        s.valid()?;
        if self.wants(G04) {
            self.structural(s)?;
        }
        if self.wants(G08) {
            self.queries(s)?;
        }
        Ok(())
    }

    fn untouched(&self, before: &Snap, after: &Snap, what: &str) -> Res {
        ensure!(before == after, "{} changed the graph: {} -> {}", what, before.show(), after.show());
        Ok(())
    }

    fn fresh_tag(&mut self) -> Tag {
        self.next += 1;
        Tag(self.next)
    }

    /// Adds a node; returns its index if the call was made.
    fn add_node(&mut self, p: Vec2) -> Result<Option<usize>, String> {
        let before = Snap::of(&self.g);
        let plan = plan_node(&before, P::of(&p));
        if self.guard && matches!(plan, NodePlan::Skip) {
            self.tally.skips += 1;
            return Ok(None);
        }
        let tag = self.fresh_tag();
        let (idx, changed) = self.g.add_node(&p, tag);
        let after = Snap::of(&self.g);
        let what = format!("adding a node at ({:?}, {:?})", p.x, p.y);
        self.after_any(&after).map_err(|e| format!("after {}: {}", what, e))?;
        ensure!(idx < after.pos.len(), "{} returned missing index {}", what, idx);
        match plan {
            NodePlan::Skip => {
                self.wild = true;
                self.tally.nodes += 1;
            }
            NodePlan::Existing(k) => {
                self.tally.node_existing += 1;
                self.tally.refused += 1;
                if self.wants(G09 | G04) {
                    ensure!(idx == k || bits(&before.pos[idx]) == bits(&before.pos[k]), "{} where node {} is returned {}", what, k, idx);
                    ensure!(after.pos.len() == before.pos.len(), "{} where node {} is created another node", what, k);
                }
                if self.wants(G09) {
                    ensure!(changed.is_empty(), "{} where node {} is reports changed edges {:?}", what, k, changed);
                    self.untouched(&before, &after, &what)?;
                }
            }
            NodePlan::New(on) => {
                self.tally.nodes += 1;
                if self.wild {
                    return Ok(Some(idx));
                }
                if !on.is_empty() {
                    self.tally.node_splits += 1;
                }
                let n = before.pos.len();
                if self.wants(G02 | G03 | G07) {
                    ensure!(after.pos.len() == n + 1, "{}: {} nodes became {}", what, n, after.pos.len());
                    ensure!(idx == n && bits(&after.pos[n]) == bits(&p), "{} returned index {} but the node is not there: {}", what, idx, after.show());
                }
                if self.wants(G03) {
                    self.prefix_kept(&before, &after, &what)?;
                    ensure!(after.data[n] == tag.0, "{}: data {} stored instead of {}", what, after.data[n], tag.0);
                }
                let mut exp: BTreeMap<(usize, usize), u32> = BTreeMap::new();
                for (k, e) in before.edges.iter().enumerate() {
                    if on.contains(&k) {
                        exp.insert((e.0.min(n), e.0.max(n)), e.2);
                        exp.insert((e.1.min(n), e.1.max(n)), e.2);
                    } else {
                        exp.insert(Snap::key(e), e.2);
                    }
                }
                self.edges_as_expected(&before, &after, &exp, &what)?;
                self.check_report(&before, &after, &[], &changed, &what)?;
                self.check_planar(&before, &after, &what)?;
            }
        }
        Ok(Some(idx))
    }

    fn prefix_kept(&self, before: &Snap, after: &Snap, what: &str) -> Res {
        for i in 0..before.pos.len() {
            ensure!(
                i < after.pos.len() && bits(&before.pos[i]) == bits(&after.pos[i]) && before.data[i] == after.data[i],
                "{} altered node {}: {} -> {}",
                what,
                i,
                before.show(),
                after.show()
            );
        }
        Ok(())
    }

    fn edges_as_expected(&self, before: &Snap, after: &Snap, exp: &BTreeMap<(usize, usize), u32>, what: &str) -> Res {
        if self.wants(G02) {
            let want: BTreeSet<_> = exp.keys().copied().collect();
            let got: BTreeSet<_> = after.edges.iter().map(Snap::key).collect();
            let lost: Vec<_> = want.difference(&got).collect();
            let extra: Vec<_> = got.difference(&want).collect();
            ensure!(
                lost.is_empty() && extra.is_empty(),
                "{}: missing edges {:?}, unexpected edges {:?}: {} -> {}",
                what,
                lost,
                extra,
                before.show(),
                after.show()
            );
        }
        if self.wants(G03) {
            for e in &after.edges {
                if let Some(d) = exp.get(&Snap::key(e)) {
                    ensure!(e.2 == *d, "{}: edge {:?} carries data {} instead of {}: {} -> {}", what, Snap::key(e), e.2, d, before.show(), after.show());
                }
            }
            // every datum that must still be drawn is
            let want: BTreeSet<u32> = exp.values().copied().collect();
            let got: BTreeSet<u32> = after.edges.iter().map(|e| e.2).collect();
            ensure!(want == got, "{}: edge data {:?} instead of {:?}", what, got, want);
        }
        Ok(())
    }

    fn check_report(&self, before: &Snap, after: &Snap, nodes: &[usize], edges: &[usize], what: &str) -> Res {
        if !self.wants(G07) {
            return Ok(());
        }
        let new_nodes: BTreeSet<usize> = (before.pos.len()..after.pos.len()).collect();
        let is_add_node = what.starts_with("adding a node");
        if !is_add_node {
            ensure!(set(nodes) == new_nodes, "{}: reported nodes {:?}, new nodes {:?}", what, nodes, new_nodes);
        }
        let mut changed = BTreeSet::new();
        for k in 0..after.edges.len().max(before.edges.len()) {
            let b = before.edges.get(k).map(|e| (Snap::key(e), e.2));
            let a = after.edges.get(k).map(|e| (Snap::key(e), e.2));
            if a != b {
                changed.insert(k);
            }
        }
        ensure!(
            set(edges) == changed,
            "{}: reported edge slots {:?}, changed slots {:?}: {} -> {}",
            what,
            edges,
            changed,
            before.show(),
            after.show()
        );
        for i in 0..before.pos.len() {
            ensure!(bits(&before.pos[i]) == bits(&after.pos[i]), "{}: unreported change of node {}", what, i);
        }
        Ok(())
    }

    fn check_planar(&self, before: &Snap, after: &Snap, what: &str) -> Res {
        if !self.wants(G01) {
            return Ok(());
        }
        let touched: Vec<usize> = (0..after.edges.len()).filter(|k| before.edges.get(*k) != after.edges.get(*k)).collect();
        let new_nodes: Vec<usize> = (before.pos.len()..after.pos.len()).collect();
        planar(after, &touched, &new_nodes).map_err(|e| format!("after {}: {} (before: {})", what, e, before.show()))
    }

    fn add_edge(&mut self, i: usize, j: usize) -> Result<(), String> {
        let before = Snap::of(&self.g);
        let n = before.pos.len();
        let exists = i < n && j < n && i != j;
        let adjacent = before.edges.iter().any(|e| Snap::key(e) == (i.min(j), i.max(j)));
        let plan = if exists && !adjacent { Some(plan_edge(&before, i, j)) } else { None };
        if self.guard && matches!(plan, Some(EdgePlan::Skip)) {
            self.tally.skips += 1;
            return Ok(());
        }
        let tag = self.fresh_tag();
        let res = self.g.add_edge(i, j, tag);
        let after = Snap::of(&self.g);
        let what = format!("adding edge {}-{}", i, j);
        self.after_any(&after).map_err(|e| format!("after {}: {}", what, e))?;
        if i >= n || j >= n {
            self.tally.refused += 1;
            if self.wants(G09) {
                ensure!(matches!(res, Err(PlanarGraphError::NoSuchVertex)), "{} with {} nodes did not fail with the no-such-vertex error", what, n);
                self.untouched(&before, &after, &what)?;
            }
            return Ok(());
        }
        if adjacent || i == j {
            self.tally.refused += 1;
            if self.wants(G09) {
                match &res {
                    Ok((a, b)) => ensure!(a.is_empty() && b.is_empty(), "{} (redundant) reports changes {:?} {:?}", what, a, b),
                    Err(_) => return Err(format!("{} (redundant) fails", what)),
                }
                self.untouched(&before, &after, &what)?;
            }
            return Ok(());
        }
        let (rn, re) = match res {
            Ok(r) => r,
            Err(_) => return Err(format!("{} between existing nodes fails", what)),
        };
        self.tally.edges += 1;
        let (on, cross) = match plan {
            Some(EdgePlan::New { on, cross }) if !self.wild => (on, cross),
            _ => {
                self.wild = true;
                return Ok(());
            }
        };
        self.tally.crossings += cross.len() as u64;
        self.tally.passes += on.len() as u64;
        if cross.len() + on.len() > 1 {
            self.tally.multi += 1;
        }
        // Identify the crossing nodes.
        let mut chain: Vec<(f64, usize)> = vec![(-1.0, i), (2.0, j)];
        chain.extend(on.iter().copied());
        let mut piece_of: HashMap<usize, usize> = HashMap::new();
        let structural_ok = after.pos.len() == n + cross.len();
        if self.wants(G02 | G03) {
            ensure!(
                structural_ok,
                "{}: {} crossing points expected but {} nodes were created: {} -> {}",
                what,
                cross.len(),
                after.pos.len() as i64 - n as i64,
                before.show(),
                after.show()
            );
            let sp = sep(before.global_mag());
            for c in &cross {
                let e = before.edges[c.edge];
                let (a, b, p, q) = (before.p(i), before.p(j), before.p(e.0), before.p(e.1));
                let m = a.mag().max(b.mag()).max(p.mag()).max(q.mag());
                let found: Vec<usize> = (n..after.pos.len()).filter(|k| after.p(*k).dist(c.at) <= 0.5 * sp / c.sin).collect();
                ensure!(found.len() == 1, "{}: no (unique) node at the crossing {:?} with edge {:?}: {} -> {}", what, c.at, (e.0, e.1), before.show(), after.show());
                let x = after.p(found[0]);
                ensure!(
                    line_dist(a, b, x) <= 48.0 * EPS * m && line_dist(p, q, x) <= 48.0 * EPS * m,
                    "{}: node {} for the crossing with {:?} is off the crossing lines: {} -> {}",
                    what,
                    found[0],
                    (e.0, e.1),
                    before.show(),
                    after.show()
                );
                piece_of.insert(c.edge, found[0]);
                chain.push((c.t, found[0]));
            }
            if self.wants(G03) {
                self.prefix_kept(&before, &after, &what)?;
                for k in n..after.pos.len() {
                    ensure!(after.data[k] == 0, "{}: crossing node {} carries data {} instead of the default", what, k, after.data[k]);
                }
            }
            chain.sort_by(|p, q| p.0.partial_cmp(&q.0).unwrap());
            let mut exp: BTreeMap<(usize, usize), u32> = BTreeMap::new();
            for (k, e) in before.edges.iter().enumerate() {
                if let Some(&x) = piece_of.get(&k) {
                    exp.insert((e.0.min(x), e.0.max(x)), e.2);
                    exp.insert((e.1.min(x), e.1.max(x)), e.2);
                } else {
                    exp.insert(Snap::key(e), e.2);
                }
            }
            for w in chain.windows(2) {
                let k = (w[0].1.min(w[1].1), w[0].1.max(w[1].1));
                if exp.contains_key(&k) {
                    self.tally.overlaps += 1;
                } else {
                    exp.insert(k, tag.0);
                }
            }
            self.edges_as_expected(&before, &after, &exp, &what)?;
        }
        self.check_report(&before, &after, &rn, &re, &what)?;
        self.check_planar(&before, &after, &what)?;
        Ok(())
    }

    fn removal_report(&self, before: &Snap, after: &Snap, nodes: &[usize], edges: &[usize], what: &str) -> Res {
        if !self.wants(G07) {
            return Ok(());
        }
        let (rn, re) = (set(nodes), set(edges));
        for k in 0..before.pos.len() {
            let same = k < after.pos.len() && bits(&before.pos[k]) == bits(&after.pos[k]) && before.data[k] == after.data[k];
            ensure!(same || rn.contains(&k), "{}: node slot {} changed but only {:?} are reported: {} -> {}", what, k, nodes, before.show(), after.show());
        }
        for k in 0..before.edges.len() {
            let same = k < after.edges.len() && before.geo(k) == after.geo(k);
            ensure!(same || re.contains(&k), "{}: edge slot {} changed but only {:?} are reported: {} -> {}", what, k, edges, before.show(), after.show());
        }
        for k in rn {
            ensure!(k < before.pos.len(), "{}: reported node slot {} never existed", what, k);
        }
        for k in re {
            ensure!(k < before.edges.len(), "{}: reported edge slot {} never existed", what, k);
        }
        Ok(())
    }

    fn remove_edge(&mut self, id: usize) -> Res {
        let before = Snap::of(&self.g);
        let m = before.edges.len();
        let what = format!("removing edge {} of {}", id, m);
        let (rn, re) = self.g.remove_edge(id);
        let after = Snap::of(&self.g);
        self.after_any(&after).map_err(|e| format!("after {}: {}", what, e))?;
        if id >= m {
            self.tally.refused += 1;
            if self.wants(G09) {
                ensure!(rn.is_empty() && re.is_empty(), "{} (missing) reports {:?} {:?}", what, rn, re);
                self.untouched(&before, &after, &what)?;
            }
            return Ok(());
        }
        if self.wild {
            return Ok(());
        }
        let e = before.edges[id];
        self.remember(&before, &[e]);
        let deg = |n: usize| before.edges.iter().filter(|f| f.0 == n || f.1 == n).count();
        let dead: BTreeSet<usize> = [e.0, e.1].iter().copied().filter(|n| deg(*n) == 1).collect();
        self.tally.rm_edge += 1;
        if id + 1 == m {
            self.tally.rm_edge_last += 1;
        }
        if dead.is_empty() {
            self.tally.rm_edge_mid += 1;
        } else {
            self.tally.rm_edge_stray += 1;
        }
        if self.wants(G05 | G03) {
            let gone: BTreeSet<usize> = [id].iter().copied().collect();
            self.compare_removed(&before, &after, &dead, &gone, false, &what)?;
        }
        self.removal_report(&before, &after, &rn, &re, &what)
    }

    fn remember(&mut self, before: &Snap, lost: &[(usize, usize, u32)]) {
        for e in lost {
            if self.past.len() < 64 {
                self.past.push((before.pos[e.0], before.pos[e.1]));
            }
        }
        if before.edges.len() == lost.len() && before.edges.len() > 1 {
            self.tally.last_edges += 1;
        }
    }

    fn remove_node(&mut self, id: usize) -> Res {
        let before = Snap::of(&self.g);
        let n = before.pos.len();
        let what = format!("removing node {} of {}", id, n);
        let (rn, re) = self.g.remove_node(id);
        let after = Snap::of(&self.g);
        self.after_any(&after).map_err(|e| format!("after {}: {}", what, e))?;
        if id >= n {
            self.tally.refused += 1;
            if self.wants(G09) {
                ensure!(rn.is_empty() && re.is_empty(), "{} (missing) reports {:?} {:?}", what, rn, re);
                self.untouched(&before, &after, &what)?;
            }
            return Ok(());
        }
        if self.wild {
            return Ok(());
        }
        let deg = |n: usize| before.edges.iter().filter(|f| f.0 == n || f.1 == n).count();
        let gone: BTreeSet<usize> = (0..before.edges.len()).filter(|k| before.edges[*k].0 == id || before.edges[*k].1 == id).collect();
        let mut dead: BTreeSet<usize> = [id].iter().copied().collect();
        let mut lost: Vec<_> = gone.iter().map(|k| before.edges[*k]).collect();
        if lost.is_empty() {
            lost.push((id, id, 0));
        }
        self.remember(&before, &lost);
        for k in &gone {
            let e = before.edges[*k];
            let o = if e.0 == id { e.1 } else { e.0 };
            if deg(o) == 1 {
                dead.insert(o);
            }
        }
        self.tally.rm_node += 1;
        if gone.is_empty() {
            self.tally.rm_node_isolated += 1;
        }
        if dead.len() > 1 {
            self.tally.rm_node_stray += 1;
        }
        if gone.len() > 1 && dead.len() < n {
            self.tally.rm_node_mid += 1;
        }
        if self.wants(G06 | G03) {
            self.compare_removed(&before, &after, &dead, &gone, self.wants(G06), &what)?;
        }
        self.removal_report(&before, &after, &rn, &re, &what)
    }

    fn compare_removed(&self, before: &Snap, after: &Snap, dead: &BTreeSet<usize>, gone: &BTreeSet<usize>, ordered: bool, what: &str) -> Res {
        let mut en: Vec<_> = (0..before.pos.len()).filter(|k| !dead.contains(k)).map(|k| (bits(&before.pos[k]), before.data[k])).collect();
        let mut an: Vec<_> = (0..after.pos.len()).map(|k| (bits(&after.pos[k]), after.data[k])).collect();
        let mut ee: Vec<_> = (0..before.edges.len()).filter(|k| !gone.contains(k)).map(|k| before.geo(k)).collect();
        let mut ae: Vec<_> = (0..after.edges.len()).map(|k| after.geo(k)).collect();
        if !ordered {
            en.sort();
            an.sort();
            ee.sort();
            ae.sort();
        }
        ensure!(en == an, "{}: wrong nodes left: {} -> {}", what, before.show(), after.show());
        ensure!(ee == ae, "{}: wrong edges left: {} -> {}", what, before.show(), after.show());
        Ok(())
    }

    fn op(&mut self, mode: u8, op: &Op) -> Res {
        let n = self.g.node_count();
        let m = self.g.edge_count();
        let pick = |s: u16, k: usize| s as usize % k.max(1);
        let at = |g: &G, i: usize| -> Vec2 { *g.get_nodes()[i].get_position() };
        match *op {
            Op::Node(x, y) => {
                self.add_node(place(mode, x, y))?;
            }
            Op::NodeOnEdge(s, f) if m > 0 => {
                let (a, b) = self.g.get_edges()[pick(s, m)].get_node_indices();
                let (a, b) = (P::of(&at(&self.g, a)), P::of(&at(&self.g, b)));
                let t = (f as f64 + 1.0) / 257.0;
                let t = if f % 3 == 0 { 0.5 } else { t };
                self.add_node(a.add(b.sub(a).mul(t)).v())?;
            }
            Op::NodeAgain(s) if n > 0 => {
                let p = at(&self.g, pick(s, n));
                self.add_node(p)?;
            }
            Op::Edge(s, t) if n > 0 => self.add_edge(pick(s, n), pick(t, n))?,
            Op::Seg(x, y, z, w) => {
                let i = self.add_node(place(mode, x, y))?;
                let j = self.add_node(place(mode, z, w))?;
                if let (Some(i), Some(j)) = (i, j) {
                    self.add_edge(i, j)?;
                }
            }
            Op::From(s, x, y) if n > 0 => {
                let i = pick(s, n);
                if let Some(j) = self.add_node(place(mode, x, y))? {
                    self.add_edge(i, j)?;
                }
            }
            Op::Through(s, t, f) if n > 1 => {
                let (i, k) = (pick(s, n), pick(t, n));
                let (a, b) = (P::of(&at(&self.g, i)), P::of(&at(&self.g, k)));
                let q = b.add(b.sub(a).mul([1.0, 0.5, 2.0, 1.0 / 3.0][f as usize % 4]));
                if let Some(j) = self.add_node(q.v())? {
                    if f % 2 == 0 {
                        self.add_edge(i, j)?;
                    } else {
                        self.add_edge(j, i)?;
                    }
                }
            }
            Op::Extend(s, f, dir) if m > 0 => {
                let (a, b) = self.g.get_edges()[pick(s, m)].get_node_indices();
                let (a, b) = if dir { (a, b) } else { (b, a) };
                let (p, q) = (P::of(&at(&self.g, a)), P::of(&at(&self.g, b)));
                let r = q.add(q.sub(p).mul([1.0, 0.5, 2.0, 0.25][f as usize % 4]));
                if let Some(j) = self.add_node(r.v())? {
                    if f % 8 < 4 {
                        self.add_edge(a, j)?;
                    } else {
                        self.add_edge(j, a)?;
                    }
                }
            }
            Op::RmEdge(s) if m > 0 => self.remove_edge(pick(s, m))?,
            Op::RmNode(s) if n > 0 => self.remove_node(pick(s, n))?,
            Op::RmLast if m > 0 => self.remove_edge(m - 1)?,
            Op::SelfLoop(s) if n > 0 => {
                let i = pick(s, n);
                self.add_edge(i, i)?
            }
            Op::EdgeAgain(s, f) if m > 0 => {
                let (a, b) = self.g.get_edges()[pick(s, m)].get_node_indices();
                if f {
                    self.add_edge(b, a)?
                } else {
                    self.add_edge(a, b)?
                }
            }
            Op::BadEdge(s, o, f) => {
                let bad = if o == 255 { usize::MAX } else { n + o as usize % 5 };
                let good = pick(s, n + 1);
                if f {
                    self.add_edge(good, bad)?
                } else {
                    self.add_edge(bad, good)?
                }
            }
            Op::BadRmNode(o) => self.remove_node(if o == 255 { usize::MAX } else { n + o as usize % 5 })?,
            Op::BadRmEdge(o) => self.remove_edge(if o == 255 { usize::MAX } else { m + o as usize % 5 })?,
            Op::Drain(kind) => {
                for _ in 0..60 {
                    match drain_step(kind, self.g.node_count(), self.g.edge_count()) {
                        Some((true, i)) => self.remove_edge(i)?,
                        Some((false, i)) => self.remove_node(i)?,
                        None => break,
                    }
                }
                if n > 2 && self.g.node_count() == 0 {
                    self.tally.emptied += 1;
                }
            }
            Op::Recall(s, f) if self.past.len() > 0 => {
                let (p, q) = self.past[pick(s, self.past.len())];
                let (p, q) = if f & 1 == 1 { (p, q) } else { (q, p) };
                let i = self.add_node(p)?;
                if f & 2 == 0 && bits(&p) != bits(&q) {
                    let j = self.add_node(q)?;
                    if let (Some(i), Some(j)) = (i, j) {
                        self.add_edge(i, j)?;
                        self.tally.redrawn += 1;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

fn run_history(h: &History, mask: u32, guard: bool, place_wild: bool, obs: &mut Obs) -> Result<Tally, String> {
    let mut r = Run { g: G::new(), mask, tally: Tally::default(), next: 0, guard, wild: false, past: vec![], _obs: &() };
    for (k, op) in h.ops.iter().enumerate() {
        let res = if place_wild {
            let op = op.clone();
            guarded(|| r.op(100, &op))
        } else {
            guarded(|| r.op(h.mode, op))
        };
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return Err(format!("step {} {:?}: {}", k, op, e)),
        }
    }
    let t = r.tally;
    obs.add("primitive: node added", t.nodes);
    obs.add("primitive: node splits edge", t.node_splits);
    obs.add("primitive: node exists", t.node_existing);
    obs.add("primitive: edge added", t.edges);
    obs.add("crossings", t.crossings);
    obs.add("existing nodes on new edge", t.passes);
    obs.add("overlapping stretches", t.overlaps);
    obs.add("edges with 2+ splits", t.multi);
    obs.add("skipped: near-degenerate", t.skips);
    obs.add("primitive: edge removed", t.rm_edge);
    obs.add("edge removed: last slot", t.rm_edge_last);
    obs.add("edge removed: with stray node", t.rm_edge_stray);
    obs.add("edge removed: no stray", t.rm_edge_mid);
    obs.add("primitive: node removed", t.rm_node);
    obs.add("node removed: isolated", t.rm_node_isolated);
    obs.add("node removed: strands neighbours", t.rm_node_stray);
    obs.add("node removed: degree >= 2", t.rm_node_mid);
    obs.add("primitive: refused or redundant", t.refused);
    obs.add("emptied by removals", t.emptied);
    obs.add("all of several edges removed at once", t.last_edges);
    obs.add("removed segment drawn again", t.redrawn);
    Ok(t)
}

#[derive(Clone, Copy)]
struct Weights {
    build: u32,
    rm: u32,
    bad: u32,
}

fn op_strategy(w: Weights) -> BoxedStrategy<Op> {
    let s = any::<u16>;
    let b = w.build;
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (4 * b, (s(), s(), s(), s()).prop_map(|(a, b, c, d)| Op::Seg(a, b, c, d)).boxed()),
        (2 * b, (s(), s()).prop_map(|(a, b)| Op::Node(a, b)).boxed()),
        (5 * b, (s(), s()).prop_map(|(a, b)| Op::Edge(a, b)).boxed()),
        (3 * b, (s(), s(), s()).prop_map(|(a, b, c)| Op::From(a, b, c)).boxed()),
        (2 * b, (s(), any::<u8>()).prop_map(|(a, b)| Op::NodeOnEdge(a, b)).boxed()),
        (2 * b, (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Op::Through(a, b, c)).boxed()),
        (1 * b, (s(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Op::Extend(a, b, c)).boxed()),
    ];
    if w.rm > 0 {
        v.push((3 * w.rm, s().prop_map(Op::RmEdge).boxed()));
        v.push((3 * w.rm, s().prop_map(Op::RmNode).boxed()));
        v.push((w.rm, Just(Op::RmLast).boxed()));
        v.push((1, any::<u8>().prop_map(Op::Drain).boxed()));
        v.push((w.rm, (s(), any::<u8>()).prop_map(|(a, b)| Op::Recall(a, b)).boxed()));
    }
    if w.bad > 0 {
        v.push((w.bad, s().prop_map(Op::NodeAgain).boxed()));
        v.push((w.bad, s().prop_map(Op::SelfLoop).boxed()));
        v.push((w.bad, (s(), any::<bool>()).prop_map(|(a, b)| Op::EdgeAgain(a, b)).boxed()));
        v.push((w.bad, (s(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Op::BadEdge(a, b, c)).boxed()));
        v.push((w.bad, any::<u8>().prop_map(Op::BadRmNode).boxed()));
        v.push((w.bad, any::<u8>().prop_map(Op::BadRmEdge).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn history(w: Weights, max: usize) -> impl Strategy<Value = History> {
    (0u8..MODES, vec(op_strategy(w), 1..=max)).prop_map(|(mode, ops)| History { mode, ops })
}

const BUILD: Weights = Weights { build: 10, rm: 4, bad: 1 };
const REMOVE: Weights = Weights { build: 10, rm: 10, bad: 1 };
const REFUSE: Weights = Weights { build: 10, rm: 4, bad: 8 };

const RULE_INS: &str = "random operation histories on integer grids and float frames (12 frames), operations whose features come within 256 machine epsilons of each other without coinciding are skipped; non-trivial = at least one insertion that splits an edge, passes through a node or overlaps an edge";

fn hist_sub(name: &'static str, rule: &'static str, cases: (u64, u64), w: Weights, len: (usize, usize), mask: u32, nt: fn(&Tally) -> bool) -> Sub {
    sub(name, rule, cases, move |t: Tier| history(w, t.pick(len.0, len.1)), move |h: &History, obs: &mut Obs| {
        let t = run_history(h, mask, true, false, obs)?;
        obs.nontrivial_if(nt(&t));
        Ok(())
    })
}
fn splits(t: &Tally) -> bool {
    t.crossings + t.passes + t.overlaps + t.node_splits > 0
}
fn many_splits(t: &Tally) -> bool {
    t.multi > 0
}

// ---------- G04: wild floats ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
enum WOp {
    Node(F, F),
    Edge(u16, u16),
    RmNode(u16),
    RmEdge(u16),
    BadRm(u16),
    NodeNear(u16, i8, i8),
}
fn wild_float() -> BoxedStrategy<F> {
    prop_oneof![
        4 => (-4i32..=4).prop_map(|x| F(x as f32)),
        3 => any::<u32>().prop_map(|b| { let f = f32::from_bits(b); F(if f.is_finite() { f } else { 0.5 }) }),
        2 => (-1000.0f32..1000.0).prop_map(F),
        1 => prop::sample::select(vec![0.0f32, -0.0, f32::MIN_POSITIVE, f32::EPSILON, 1e-7, 1e30, -1e30, f32::MAX, 1e-38, 1e20]).prop_map(F),
    ]
    .boxed()
}
fn wild_sub() -> Sub {
    sub(
        "wild",
        "operation histories on arbitrary finite f32 positions (huge, tiny, nearly coincident, overlapping), nothing skipped; checked: no panic, valid indices, no self loop, no two nodes at one position; non-trivial = at least 2 edges and 1 removal",
        (60_000, 1_500_000),
        |t: Tier| {
            let s = any::<u16>;
            vec(
                prop_oneof![
                    5 => (wild_float(), wild_float()).prop_map(|(a, b)| WOp::Node(a, b)),
                    6 => (s(), s()).prop_map(|(a, b)| WOp::Edge(a, b)),
                    1 => s().prop_map(WOp::RmNode),
                    1 => s().prop_map(WOp::RmEdge),
                    1 => s().prop_map(WOp::BadRm),
                    2 => (s(), any::<i8>(), any::<i8>()).prop_map(|(a, b, c)| WOp::NodeNear(a, b, c)),
                ],
                1..=t.pick(24usize, 40usize),
            )
        },
        |ops: &Vec<WOp>, obs: &mut Obs| {
            let mut g: G = G::new();
            let (mut ne, mut nr) = (0, 0);
            for (k, op) in ops.iter().enumerate() {
                let r = guarded(|| -> Res {
                    let (n, m) = (g.node_count(), g.edge_count());
                    match *op {
                        WOp::Node(x, y) => {
                            let (i, _) = g.add_node(&Vec2::new(x.0, y.0), Tag(k as u32));
                            ensure!(i < g.node_count(), "add_node returned {} of {}", i, g.node_count());
                        }
                        WOp::NodeNear(s, dx, dy) if n > 0 => {
                            let p = *g.get_nodes()[s as usize % n].get_position();
                            let bump = |v: f32, d: i8| {
                                let w = f32::from_bits((v.to_bits() as i64 + d as i64 / 16).max(0).min(u32::MAX as i64) as u32);
                                if w.is_finite() { w } else { v }
                            };
                            g.add_node(&Vec2::new(bump(p.x, dx), bump(p.y, dy)), Tag(k as u32));
                        }
                        WOp::Edge(a, b) if n > 0 => {
                            let r = g.add_edge(a as usize % n, b as usize % n, Tag(k as u32));
                            ensure!(r.is_ok(), "add_edge between existing nodes fails");
                            ne += 1;
                        }
                        WOp::RmNode(s) if n > 0 => {
                            g.remove_node(s as usize % n);
                            nr += 1;
                        }
                        WOp::RmEdge(s) if m > 0 => {
                            g.remove_edge(s as usize % m);
                            nr += 1;
                        }
                        WOp::BadRm(s) => {
                            g.remove_node(n + s as usize % 3);
                            g.remove_edge(m + s as usize % 3);
                        }
                        _ => {}
                    }
                    let s = Snap::of(&g);
                    s.valid()?;
                    for e in &s.edges {
                        ensure!(e.0 != e.1, "edge joins node {} to itself", e.0);
                    }
                    let mut ps = HashSet::new();
                    for p in &s.pos {
                        ensure!(ps.insert(bits(p)), "two nodes share position {:?}", (p.x, p.y));
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) | Err(e) => return Err(format!("step {} {:?}: {}", k, op, e)),
                }
            }
            obs.nontrivial_if(ne >= 2 && nr >= 1);
            Ok(())
        },
    )
}

// ---------- G10 ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Drawing {
    mode: u8,
    segs: Vec<(u16, u16, u16, u16)>,
    keys: Vec<u16>,
    flips: u32,
    transform: u8,
    late_nodes: bool,
}

struct Arr {
    pts: Vec<P>,
    edges: BTreeSet<(usize, usize)>,
    min_sep: f64,
    shared: usize,
    crossings: usize,
}
/// Reference arrangement of segments in f64. None if features come too close.
fn arrangement(segs: &[(P, P)]) -> Option<Arr> {
    let m = segs.iter().map(|s| s.0.mag().max(s.1.mag())).fold(0.0, f64::max);
    if m == 0.0 {
        return None;
    }
    let same = 1e-10 * m;
    let mut pts: Vec<P> = vec![];
    fn put(pts: &mut Vec<P>, p: P, same: f64) -> usize {
        if let Some(i) = pts.iter().position(|q| q.dist(p) <= same) {
            i
        } else {
            pts.push(p);
            pts.len() - 1
        }
    }
    for s in segs {
        put(&mut pts, s.0, same);
        put(&mut pts, s.1, same);
    }
    let ends = pts.len();
    let mut min_sin: f64 = 1.0;
    for i in 0..segs.len() {
        for j in i + 1..segs.len() {
            let (a, b) = segs[i];
            let (c, d) = segs[j];
            if a == b || c == d {
                continue;
            }
            let s = sin_between(a, b, c, d);
            if s < 1e-12 {
                continue;
            }
            if let Some((t, u, p)) = line_hit(a, b, c, d) {
                let (et, eu) = (1e-9, 1e-9);
                if t >= -et && t <= 1.0 + et && u >= -eu && u <= 1.0 + eu {
                    min_sin = min_sin.min(s);
                    put(&mut pts, p, same);
                }
            }
        }
    }
    let need = (1e-4 * m).max(256.0 * EPS * m / min_sin).max(8.0 * EPS);
    let mut min_sep = f64::INFINITY;
    for i in 0..pts.len() {
        for j in i + 1..pts.len() {
            min_sep = min_sep.min(pts[i].dist(pts[j]));
        }
    }
    if min_sep < need {
        return None;
    }
    let mut edges = BTreeSet::new();
    let mut shared = 0;
    for s in segs {
        if s.0 == s.1 {
            continue;
        }
        let dir = s.1.sub(s.0);
        let mut on: Vec<(f64, usize)> = vec![];
        for (k, p) in pts.iter().enumerate() {
            let d = seg_dist(s.0, s.1, *p);
            if d <= same {
                on.push((p.sub(s.0).dot(dir), k));
            } else if d < need {
                return None;
            }
        }
        on.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for w in on.windows(2) {
            if !edges.insert((w[0].1.min(w[1].1), w[0].1.max(w[1].1))) {
                shared += 1;
            }
        }
    }
    let crossings = pts.len() - ends;
    Some(Arr { pts, edges, min_sep, shared, crossings })
}

fn transform(mode: u8, t: u8, v: Vec2) -> Vec2 {
    let v = match t % 8 {
        0 => v,
        1 => Vec2::new(-v.x, v.y),
        2 => Vec2::new(v.x, -v.y),
        3 => Vec2::new(-v.x, -v.y),
        4 => Vec2::new(v.y, v.x),
        5 => Vec2::new(-v.y, v.x),
        6 => Vec2::new(v.y, -v.x),
        _ => Vec2::new(-v.y, -v.x),
    };
    // shifts only where they are exact
    if mode % MODES <= 4 {
        let k = ((t / 8) % 4) as f32;
        Vec2::new(v.x + 16.0 * k, v.y - 8.0 * k)
    } else {
        v
    }
}

fn draw(segs: &[(Vec2, Vec2)], late_nodes: bool) -> Result<Snap, String> {
    let mut g: G = G::new();
    let r = guarded(|| {
        if late_nodes {
            for s in segs {
                g.add_node(&s.0, Tag(1));
                g.add_node(&s.1, Tag(1));
            }
        }
        for s in segs {
            let i = g.add_node(&s.0, Tag(1)).0;
            let j = g.add_node(&s.1, Tag(1)).0;
            if g.add_edge(i, j, Tag(2)).is_err() {
                return Err(format!("add_edge({}, {}) fails", i, j));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {
            let s = Snap::of(&g);
            s.valid()?;
            Ok(s)
        }
        Ok(Err(e)) | Err(e) => Err(e),
    }
}

fn same_arrangement(s: &Snap, a: &Arr, what: &str) -> Res {
    let mut map = vec![usize::MAX; s.pos.len()];
    let mut used = vec![false; a.pts.len()];
    for i in 0..s.pos.len() {
        let p = s.p(i);
        let k = (0..a.pts.len()).min_by(|x, y| a.pts[*x].dist(p).partial_cmp(&a.pts[*y].dist(p)).unwrap()).unwrap();
        ensure!(a.pts[k].dist(p) < a.min_sep * 0.25, "{}: node {} at {:?} is no point of the drawing: {}", what, i, p, s.show());
        ensure!(!used[k], "{}: two nodes at {:?}: {}", what, a.pts[k], s.show());
        used[k] = true;
        map[i] = k;
    }
    if let Some(k) = used.iter().position(|u| !u) {
        return Err(format!("{}: no node at {:?}: {}", what, a.pts[k], s.show()));
    }
    let got: BTreeSet<_> = s.edges.iter().map(|e| (map[e.0].min(map[e.1]), map[e.0].max(map[e.1]))).collect();
    ensure!(got.len() == s.edges.len(), "{}: duplicate edges: {}", what, s.show());
    if got != a.edges {
        let lost: Vec<_> = a.edges.difference(&got).map(|e| (a.pts[e.0], a.pts[e.1])).collect();
        let extra: Vec<_> = got.difference(&a.edges).map(|e| (a.pts[e.0], a.pts[e.1])).collect();
        return Err(format!("{}: missing {:?}, unexpected {:?}: {}", what, lost, extra, s.show()));
    }
    Ok(())
}

fn drawing_sub(name: &'static str, cases: (u64, u64), maxseg: (usize, usize), float: bool) -> Sub {
    sub(
        name,
        "random segment sets (integer grids with concurrency, T-junctions and overlaps; float frames), drawn in the given order and in a random order, direction and rigid grid motion, both compared with a reference arrangement; sets with features closer than 1e-4 of the extent are skipped; non-trivial = at least 2 crossings or a shared stretch",
        cases,
        move |t: Tier| {
            let n = t.pick(maxseg.0, maxseg.1);
            let modes: Vec<u8> = if float { vec![5, 6, 7, 8, 9, 4, 13, 16] } else { vec![0, 1, 2, 2, 3, 10, 11, 12, 14, 15, 17, 18] };
            (
                prop::sample::select(modes),
                vec((any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()), 1..=n),
                vec(any::<u16>(), n),
                any::<u32>(),
                any::<u8>(),
                any::<bool>(),
            )
                .prop_map(|(mode, segs, keys, flips, transform, late_nodes)| Drawing { mode, segs, keys, flips, transform, late_nodes })
        },
        |c: &Drawing, obs: &mut Obs| {
            let segs: Vec<(Vec2, Vec2)> = c.segs.iter().map(|s| (place(c.mode, s.0, s.1), place(c.mode, s.2, s.3))).collect();
            let ref1: Vec<(P, P)> = segs.iter().map(|s| (P::of(&s.0), P::of(&s.1))).collect();
            let arr = match arrangement(&ref1) {
                Some(a) => a,
                None => {
                    obs.label("skipped: features too close");
                    return Ok(());
                }
            };
            let mut order: Vec<usize> = (0..segs.len()).collect();
            order.sort_by_key(|i| (c.keys[*i % c.keys.len().max(1)], *i));
            let moved: Vec<(Vec2, Vec2)> = order
                .iter()
                .map(|&i| {
                    let (a, b) = (transform(c.mode, c.transform, segs[i].0), transform(c.mode, c.transform, segs[i].1));
                    if c.flips >> (i % 32) & 1 == 1 { (b, a) } else { (a, b) }
                })
                .collect();
            let ref2: Vec<(P, P)> = moved.iter().map(|s| (P::of(&s.0), P::of(&s.1))).collect();
            let arr2 = match arrangement(&ref2) {
                Some(a) => a,
                None => {
                    obs.label("skipped: features too close");
                    return Ok(());
                }
            };
            if arr.pts.len() != arr2.pts.len() || arr.edges.len() != arr2.edges.len() {
                obs.label("skipped: reference not motion-invariant");
                return Ok(());
            }
            let s1 = draw(&segs, false)?;
            same_arrangement(&s1, &arr, "drawn in order")?;
            let s2 = draw(&moved, c.late_nodes)?;
            same_arrangement(&s2, &arr2, "drawn in another order")?;
            obs.nontrivial_if(arr.crossings >= 2 || arr.shared > 0);
            if arr.shared > 0 {
                obs.label("overlapping segments");
            }
            Ok(())
        },
    )
}

/// Operations in a long history (quick, thorough).
const LONG: (usize, usize) = (160, 320);

// ---------- G11 ----------

/// Data types to store in a graph.
trait Dat: Copy + Default {
    fn make(k: u32) -> Self;
    fn same(&self, k: u32) -> bool;
}
impl Dat for () {
    fn make(_: u32) {}
    fn same(&self, _: u32) -> bool {
        true
    }
}
impl Dat for u8 {
    fn make(k: u32) -> u8 {
        k as u8
    }
    fn same(&self, k: u32) -> bool {
        *self == k as u8
    }
}
impl Dat for [u64; 3] {
    fn make(k: u32) -> Self {
        [k as u64, 2 * k as u64, !(k as u64) * (k != 0) as u64]
    }
    fn same(&self, k: u32) -> bool {
        *self == Self::make(k)
    }
}
impl Dat for Tag {
    fn make(k: u32) -> Tag {
        Tag(k)
    }
    fn same(&self, k: u32) -> bool {
        self.0 == k
    }
}

/// What the calls made for one step returned: per call an index or error and the two lists (as sets).
type Report = Vec<(Option<usize>, BTreeSet<usize>, BTreeSet<usize>)>;

/// Performs one step without judging it (in particular without skipping anything).
fn drive<T: Dat, U: Dat>(g: &mut PlanarGraph<T, U>, mode: u8, op: &Op, k: u32) -> Report {
    let (n, m) = (g.node_count(), g.edge_count());
    let pick = |s: u16, k: usize| s as usize % k.max(1);
    let mut out: Report = vec![];
    let pos = |g: &PlanarGraph<T, U>, i: usize| P::of(g.get_nodes()[i].get_position());
    let ends = |g: &PlanarGraph<T, U>, s: u16| g.get_edges()[pick(s, m)].get_node_indices();
    fn node<T: Dat, U: Dat>(g: &mut PlanarGraph<T, U>, p: Vec2, k: u32, out: &mut Report) -> usize {
        if !(p.x.abs() < 1e9 && p.y.abs() < 1e9) {
            return 0;
        }
        let (i, e) = g.add_node(&p, T::make(k));
        out.push((Some(i), BTreeSet::new(), set(&e)));
        i
    }
    fn edge<T: Dat, U: Dat>(g: &mut PlanarGraph<T, U>, a: usize, b: usize, k: u32, out: &mut Report) {
        match g.add_edge(a, b, U::make(k)) {
            Ok((v, e)) => out.push((Some(0), set(&v), set(&e))),
            Err(_) => out.push((None, BTreeSet::new(), BTreeSet::new())),
        }
    }
    match *op {
        Op::Node(x, y) => {
            node(g, place(mode, x, y), k, &mut out);
        }
        Op::NodeOnEdge(s, f) if m > 0 => {
            let (a, b) = ends(g, s);
            let (a, b) = (pos(g, a), pos(g, b));
            node(g, a.add(b.sub(a).mul((f as f64 + 1.0) / 257.0)).v(), k, &mut out);
        }
        Op::NodeAgain(s) if n > 0 => {
            let p = pos(g, pick(s, n)).v();
            node(g, p, k, &mut out);
        }
        Op::Edge(s, t) if n > 0 => edge(g, pick(s, n), pick(t, n), k, &mut out),
        Op::Seg(x, y, z, w) => {
            let i = node(g, place(mode, x, y), k, &mut out);
            let j = node(g, place(mode, z, w), k, &mut out);
            edge(g, i, j, k, &mut out);
        }
        Op::From(s, x, y) if n > 0 => {
            let j = node(g, place(mode, x, y), k, &mut out);
            edge(g, pick(s, n), j, k, &mut out);
        }
        Op::Through(s, t, f) if n > 1 => {
            let (i, l) = (pick(s, n), pick(t, n));
            let (a, b) = (pos(g, i), pos(g, l));
            let j = node(g, b.add(b.sub(a).mul([1.0, 0.5, 2.0, 0.25][f as usize % 4])).v(), k, &mut out);
            edge(g, i, j, k, &mut out);
        }
        Op::Extend(s, f, dir) if m > 0 => {
            let (a, b) = ends(g, s);
            let (a, b) = if dir { (a, b) } else { (b, a) };
            let (p, q) = (pos(g, a), pos(g, b));
            let j = node(g, q.add(q.sub(p).mul([1.0, 0.5, 2.0, 0.25][f as usize % 4])).v(), k, &mut out);
            edge(g, j, a, k, &mut out);
        }
        Op::EdgeAgain(s, f) if m > 0 => {
            let (a, b) = ends(g, s);
            if f {
                edge(g, b, a, k, &mut out)
            } else {
                edge(g, a, b, k, &mut out)
            }
        }
        Op::SelfLoop(s) if n > 0 => edge(g, pick(s, n), pick(s, n), k, &mut out),
        Op::BadEdge(s, o, f) => {
            let (a, b) = (pick(s, n), n + o as usize % 4);
            if f {
                edge(g, b, a, k, &mut out)
            } else {
                edge(g, a, b, k, &mut out)
            }
        }
        Op::RmEdge(s) if m > 0 => {
            let (v, e) = g.remove_edge(pick(s, m));
            out.push((None, set(&v), set(&e)));
        }
        Op::RmLast if m > 0 => {
            let (v, e) = g.remove_edge(m - 1);
            out.push((None, set(&v), set(&e)));
        }
        Op::RmNode(s) if n > 0 => {
            let (v, e) = g.remove_node(pick(s, n));
            out.push((None, set(&v), set(&e)));
        }
        Op::BadRmNode(o) => {
            let (v, e) = g.remove_node(n + o as usize % 5);
            out.push((None, set(&v), set(&e)));
        }
        Op::BadRmEdge(o) => {
            let (v, e) = g.remove_edge(m + o as usize % 5);
            out.push((None, set(&v), set(&e)));
        }
        Op::Drain(kind) => {
            for _ in 0..60 {
                let (v, e) = match drain_step(kind, g.node_count(), g.edge_count()) {
                    Some((true, i)) => g.remove_edge(i),
                    Some((false, i)) => g.remove_node(i),
                    None => break,
                };
                out.push((None, set(&v), set(&e)));
            }
        }
        _ => {}
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twins {
    mode: u8,
    prefix: Vec<Op>,
    /// continues the original and the copy
    a: Vec<Op>,
    b: Vec<Op>,
    /// goes on in an unrelated graph in between
    other: Vec<Op>,
    /// how the copy is made
    over: bool,
}

/// The lookups, against the stored lists.
fn lookups(g: &G, s: &Snap, what: &str) -> Res {
    let n = s.pos.len();
    ensure!(g.node_count() == n && g.edge_count() == s.edges.len(), "{}: counts {} and {}: {}", what, g.node_count(), g.edge_count(), s.show());
    let mut deg = vec![0; n];
    for e in &s.edges {
        deg[e.0] += 1;
        deg[e.1] += 1;
        ensure!(g.has_edge_between_nodes(e.0, e.1) && g.has_edge_between_nodes(e.1, e.0), "{}: edge {:?} is not found: {}", what, e, s.show());
    }
    for i in 0..n {
        ensure!(g.number_of_edges_incident_to(i) == Some(deg[i]), "{}: node {} has {:?} edges: {}", what, i, g.number_of_edges_incident_to(i), s.show());
        let j = (i * 7 + 3) % n;
        let joined = s.edges.iter().any(|e| Snap::key(e) == (i.min(j), i.max(j)));
        ensure!(g.has_edge_between_nodes(i, j) == joined, "{}: nodes {} and {} joined: {}: {}", what, i, j, !joined, s.show());
    }
    Ok(())
}

fn check_twins(c: &Twins, o: &mut Obs) -> Res {
    let mut g: G = G::new();
    let mut u: G = G::new();
    let mut k = 0;
    let mut reports: [Vec<Report>; 2] = [vec![], vec![]];
    for op in &c.prefix {
        k += 1;
        reports[0].push(drive(&mut g, c.mode, op, k));
        if let Some(op) = c.other.get(k as usize % (c.other.len() + 3)) {
            drive(&mut u, c.mode.wrapping_add(1), op, 7000 + k);
        }
    }
    reports[1] = reports[0].clone();
    let at_copy = Snap::of(&g);
    let mut h = if c.over {
        let mut h = u.clone();
        h.clone_from(&g);
        h
    } else {
        g.clone()
    };
    ensure!(Snap::of(&h) == at_copy, "the copy differs: {} from {}", Snap::of(&h).show(), at_copy.show());
    lookups(&h, &at_copy, "copy")?;
    // the two go separate ways
    let k0 = k;
    for i in 0..c.a.len().max(c.b.len()) {
        if let Some(op) = c.a.get(i) {
            let before = if i < 2 { Some(Snap::of(&h)) } else { None };
            reports[0].push(drive(&mut g, c.mode, op, k0 + 1 + i as u32));
            if let Some(b) = before {
                ensure!(Snap::of(&h) == b, "{:?} on the original changed the copy from {} to {}", op, b.show(), Snap::of(&h).show());
            }
        }
        if let Some(op) = c.other.get(i) {
            drive(&mut u, c.mode, op, 8000);
        }
        if i % 3 == 1 {
            lookups(&g, &Snap::of(&g), "original")?;
            lookups(&h, &Snap::of(&h), "copy")?;
        }
        if let Some(op) = c.b.get(i) {
            let before = if i < 2 { Some(Snap::of(&g)) } else { None };
            reports[1].push(drive(&mut h, c.mode, op, k0 + 1 + i as u32));
            if let Some(b) = before {
                ensure!(Snap::of(&g) == b, "{:?} on the copy changed the original from {} to {}", op, b.show(), Snap::of(&g).show());
            }
        }
    }
    let ends = [Snap::of(&g), Snap::of(&h)];
    lookups(&h, &ends[1], "copy")?;
    lookups(&g, &ends[0], "original")?;
    o.nontrivial_if(at_copy.edges.len() >= 3 && ends[0] != at_copy && ends[1] != at_copy && ends[0] != ends[1]);
    o.label(if c.over { "copied over another graph" } else { "copied" });
    // each is what its own history gives, alone and with other data
    for (which, tail) in [&c.a, &c.b].iter().enumerate() {
        let want = &ends[which];
        let what = if which == 0 { "original" } else { "copy" };
        let ops: Vec<&Op> = c.prefix.iter().chain(tail.iter()).collect();
        let mut r: G = G::new();
        replay(&mut r, c.mode, &ops, &reports[which], want, what)?;
        let s = Snap::of(&r);
        ensure!(s == *want, "{} is {} but its history gives {}", what, want.show(), s.show());
        if which == 0 {
            replay(&mut PlanarGraph::<(), ()>::new(), c.mode, &ops, &reports[which], want, "graph with other data")?;
            replay(&mut PlanarGraph::<u8, [u64; 3]>::new(), c.mode, &ops, &reports[which], want, "graph with other data")?;
        }
    }
    Ok(())
}
fn replay<T: Dat, U: Dat>(r: &mut PlanarGraph<T, U>, mode: u8, ops: &[&Op], reports: &[Report], want: &Snap, what: &str) -> Res {
    for (i, op) in ops.iter().enumerate() {
        let rep = drive(r, mode, op, i as u32 + 1);
        ensure!(rep == reports[i], "{}: step {} {:?} reported {:?} once and {:?} another time", what, i, op, reports[i], rep);
    }
    ensure!(r.node_count() == want.pos.len() && r.edge_count() == want.edges.len(), "{}: {} nodes and {} edges once, {} and {} another time", what, want.pos.len(), want.edges.len(), r.node_count(), r.edge_count());
    for (i, n) in r.get_nodes().iter().enumerate() {
        ensure!(bits(n.get_position()) == bits(&want.pos[i]), "{}: node {} at {:?} once and {:?} another time", what, i, want.pos[i], n.get_position());
    }
    for (i, e) in r.get_edges().iter().enumerate() {
        let w = want.edges[i];
        ensure!(e.get_node_indices() == (w.0, w.1) && e.get_data().same(w.2), "{}: edge {} joins {:?} and should join {:?} with data {}", what, i, e.get_node_indices(), (w.0, w.1), w.2);
    }
    Ok(())
}
fn twins(max: usize) -> impl Strategy<Value = Twins> {
    let w = Weights { build: 10, rm: 5, bad: 2 };
    (0u8..MODES, vec(op_strategy(w), 1..=max), vec(op_strategy(w), 0..=max / 2), vec(op_strategy(w), 0..=max / 2), vec(op_strategy(BUILD), 0..=max / 2), any::<bool>())
        .prop_map(|(mode, prefix, a, b, other, over)| Twins { mode, prefix, a, b, other, over })
}

// ---------- nodes with hundreds of edges ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum HubOp {
    /// Removes hub k (0 or 1).
    RmHub(bool),
    RmLeaf(u16),
    RmSpoke(bool, u16),
    /// Another leaf (between two leaves, or outside) and its spoke.
    Spoke(bool, u16),
    /// A row across the spokes, at this height, or through the leaves.
    Row(u8),
    Again(bool, u16),
    Other(Op),
}
/// Two hubs facing each other across a line of leaves: each leaf is joined to the first, the
/// second or both.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hubs {
    leaves: u16,
    /// leaf i (in insertion order) is leaf (i * stride) mod leaves on the line
    stride: u16,
    /// which leaves are joined: to the first hub when i % per.0 == 0 (0: none), likewise the second
    per: (u8, u8),
    /// the hubs are added before all leaves, among them, or after
    when: u8,
    flip: bool,
    ops: Vec<HubOp>,
}
fn hubs(max: u16, ops: usize, rows: u32) -> impl Strategy<Value = Hubs> {
    let s = any::<u16>;
    let f = any::<bool>;
    let op = prop_oneof![
        3 => f().prop_map(HubOp::RmHub),
        3 => s().prop_map(HubOp::RmLeaf),
        4 => (f(), s()).prop_map(|(a, b)| HubOp::RmSpoke(a, b)),
        4 => (f(), s()).prop_map(|(a, b)| HubOp::Spoke(a, b)),
        rows => (0u8..3).prop_map(HubOp::Row),
        2 => (f(), s()).prop_map(|(a, b)| HubOp::Again(a, b)),
        3 => op_strategy(Weights { build: 2, rm: 8, bad: 1 }).prop_map(HubOp::Other),
    ];
    (prop_oneof![1 => 1..=max, 1 => max / 2..=max], any::<u16>(), (0u8..5, 1u8..3), 0u8..3, f(), vec(op, 1..=ops)).prop_map(|(leaves, stride, per, when, flip, ops)| Hubs { leaves, stride, per: if flip { (per.1, per.0) } else { per }, when, flip, ops })
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn check_hubs(c: &Hubs, mask: u32, obs: &mut Obs) -> Res {
    let mut r = Run { g: G::new(), mask, tally: Tally::default(), next: 0, guard: true, wild: false, past: vec![], _obs: &() };
    let n = c.leaves as usize;
    let mut stride = 1 + c.stride as usize % n;
    while gcd(stride, n) != 1 {
        stride += 1;
    }
    let at = |x: f32, y: f32| if c.flip { Vec2::new(y, x) } else { Vec2::new(x, y) };
    let hub_at = [at(0.0, 0.0), at(1.0, 128.0)];
    let leaf_x = |i: usize| ((i * stride) % n) as f32 - (n / 2) as f32;
    let mut hub = [usize::MAX; 2];
    // Building is not what is looked at here, except for its last steps.
    let mut todo: Vec<(usize, usize)> = vec![];
    let place_hubs = match c.when {
        0 => 0,
        1 => n / 2,
        _ => n,
    };
    let mut leaf = vec![];
    for i in 0..=n {
        if i == place_hubs {
            for k in 0..2 {
                let t = r.fresh_tag();
                hub[k] = r.g.add_node(&hub_at[k], t).0;
            }
        }
        if i < n {
            let t = r.fresh_tag();
            leaf.push(r.g.add_node(&at(leaf_x(i), 64.0), t).0);
        }
    }
    for i in 0..n {
        for (k, per) in [c.per.0, c.per.1].into_iter().enumerate() {
            if per > 0 && i % per as usize == 0 {
                todo.push((hub[k], leaf[i]));
            }
        }
    }
    let checked = todo.len().saturating_sub(3);
    for (k, (a, b)) in todo.into_iter().enumerate() {
        let (a, b) = if k % 3 == 1 { (b, a) } else { (a, b) };
        if k < checked {
            let t = r.fresh_tag();
            let _ = r.g.add_edge(a, b, t);
        } else {
            r.add_edge(a, b)?;
        }
    }
    let mut busy = 0;
    for (k, op) in c.ops.iter().enumerate() {
        // the hubs and leaves may have moved to other slots
        let s = Snap::of(&r.g);
        let find = |h: bool| (0..s.pos.len()).find(|i| bits(&s.pos[*i]) == bits(&hub_at[h as usize]));
        let spokes = |h: bool| -> Vec<usize> { find(h).map_or(vec![], |h| (0..s.edges.len()).filter(|e| s.edges[*e].0 == h || s.edges[*e].1 == h).collect()) };
        let leaves: Vec<usize> = (0..s.pos.len()).filter(|i| if c.flip { s.pos[*i].x == 64.0 } else { s.pos[*i].y == 64.0 }).collect();
        let deg = spokes(false).len().max(spokes(true).len());
        let res = match op {
            HubOp::RmHub(h) => find(*h).map_or(Ok(()), |h| {
                busy += (deg >= 64) as usize;
                r.remove_node(h)
            }),
            HubOp::RmLeaf(i) if !leaves.is_empty() => {
                busy += (deg >= 64) as usize;
                r.remove_node(leaves[*i as usize % leaves.len()])
            }
            HubOp::RmSpoke(h, i) => {
                let e = spokes(*h);
                if e.is_empty() {
                    Ok(())
                } else {
                    busy += (e.len() >= 64) as usize;
                    r.remove_edge(e[*i as usize % e.len()])
                }
            }
            HubOp::Spoke(h, i) => match find(*h) {
                None => Ok(()),
                Some(h) => {
                    let x = (*i as usize % (n + 20)) as f32 - (n / 2) as f32 - 10.5;
                    busy += (deg >= 64) as usize;
                    r.add_node(at(x, 64.0)).and_then(|j| j.map_or(Ok(()), |j| r.add_edge(h, j)))
                }
            },
            HubOp::Row(y) => {
                let y = [64.0, 48.0, 80.0][*y as usize % 3];
                let x = n as f32 + 32.0;
                busy += (deg >= 64) as usize;
                r.add_node(at(-x, y)).and_then(|i| Ok((i, r.add_node(at(x, y))?))).and_then(|p| if let (Some(i), Some(j)) = p { r.add_edge(i, j) } else { Ok(()) })
            }
            HubOp::Again(h, i) => {
                let e = spokes(*h);
                if e.is_empty() {
                    Ok(())
                } else {
                    let (a, b, _) = s.edges[e[*i as usize % e.len()]];
                    busy += (e.len() >= 64) as usize;
                    r.add_edge(b, a)
                }
            }
            HubOp::Other(op) => r.op(4, op),
            _ => Ok(()),
        };
        res.map_err(|e| format!("step {} {:?}: {}", k, op, e))?;
        let s = Snap::of(&r.g);
        let most = s.edges.iter().fold(vec![0; s.pos.len()], |mut d, e| {
            d[e.0] += 1;
            d[e.1] += 1;
            d
        });
        if most.iter().any(|d| *d >= 256) {
            obs.label("a node of degree 256 or more after a step");
        }
        if mask & (G04 | G08) != 0 {
            lookups(&r.g, &s, &format!("after step {} {:?}", k, op))?;
        }
    }
    obs.add("checked steps at a node of degree 64 or more", busy as u64);
    obs.add("crossings", r.tally.crossings);
    obs.add("existing nodes on new edge", r.tally.passes);
    obs.add("skipped: near-degenerate", r.tally.skips);
    obs.add("removals that strand neighbours", r.tally.rm_node_stray);
    obs.nontrivial_if(busy > 0);
    Ok(())
}
fn hub_sub(mask: u32, cases: (u64, u64), rows: u32) -> Sub {
    sub(
        "hubs",
        "two nodes with up to 300 (thorough 500) edges each to a shared line of leaves, then up to 6 (thorough 10) steps around them, checked one by one; non-trivial = at least one checked step while a hub has 64 edges or more",
        cases,
        move |t: Tier| hubs(t.pick(300, 500), t.pick(6, 10), rows),
        move |c: &Hubs, o: &mut Obs| guarded(|| check_hubs(c, mask, o)).unwrap_or_else(Err),
    )
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &[
        "positions are finite; insertions whose features come within 256 f32 epsilons (times the coordinate magnitude) of each other without coinciding are out of scope and skipped",
        "node data is observed through the derived Debug output of a node",
    ];
    let mk = |id: &'static str, subs: Vec<Sub>| Prop { id, subs, assumptions: A };
    const RULE_RM: &str = "random operation histories rich in removals; non-trivial = at least one removal of an edge with no stray endpoint or of a node of degree two or more";
    vec![
        mk("G01", vec![
            hist_sub("histories", RULE_INS, (60_000, 1_200_000), BUILD, (26, 60), G01, splits),
            hist_sub("insertions", RULE_INS, (30_000, 600_000), Weights { build: 1, rm: 0, bad: 0 }, (40, 90), G01, many_splits),
            hist_sub("long", RULE_INS, (1_000, 10_000), BUILD, LONG, G01, splits),
            hub_sub(G01, (900, 6_000), 2),
        ]),
        mk("G02", vec![
            hist_sub("histories", RULE_INS, (60_000, 1_200_000), BUILD, (26, 60), G02, splits),
            hist_sub("insertions", RULE_INS, (30_000, 600_000), Weights { build: 1, rm: 0, bad: 0 }, (40, 90), G02, many_splits),
            hist_sub("long", RULE_INS, (1_000, 10_000), BUILD, LONG, G02, splits),
            hub_sub(G02, (900, 6_000), 2),
        ]),
        mk("G03", vec![
            hist_sub("histories", RULE_INS, (60_000, 1_200_000), BUILD, (26, 60), G03, splits),
            hist_sub("removals", RULE_RM, (40_000, 800_000), REMOVE, (40, 80), G03, |t| t.rm_edge_mid + t.rm_node_mid > 0),
            hist_sub("long", RULE_INS, (1_000, 10_000), BUILD, LONG, G03, splits),
            hub_sub(G03, (900, 6_000), 2),
        ]),
        mk("G04", vec![
            hist_sub("histories", "random operation histories with valid and invalid requests; non-trivial = at least one split and one removal", (60_000, 1_200_000), Weights { build: 10, rm: 6, bad: 4 }, (30, 70), G04, |t| splits(t) && t.rm_edge + t.rm_node > 0),
            hist_sub("long", RULE_INS, (1_000, 10_000), Weights { build: 10, rm: 6, bad: 4 }, LONG, G04, |t| splits(t) && t.rm_edge + t.rm_node > 0),
            hub_sub(G04, (900, 6_000), 2),
            wild_sub(),
        ]),
        mk("G05", vec![hist_sub("histories", RULE_RM, (90_000, 1_500_000), REMOVE, (36, 80), G05, |t| t.rm_edge_mid > 0), hist_sub("long", RULE_RM, (1_000, 10_000), REMOVE, LONG, G05, |t| t.rm_edge_mid > 0), hub_sub(G05, (1200, 8_000), 1)]),
        mk("G06", vec![hist_sub("histories", RULE_RM, (90_000, 1_500_000), REMOVE, (36, 80), G06, |t| t.rm_node_mid > 0), hist_sub("long", RULE_RM, (1_000, 10_000), REMOVE, LONG, G06, |t| t.rm_node_mid > 0), hub_sub(G06, (1200, 8_000), 1)]),
        mk("G07", vec![
            hist_sub("histories", RULE_INS, (60_000, 1_000_000), BUILD, (26, 60), G07, splits),
            hist_sub("removals", RULE_RM, (60_000, 1_000_000), REMOVE, (36, 80), G07, |t| t.rm_edge_mid + t.rm_node_mid > 0),
            hist_sub("long", RULE_RM, (1_000, 10_000), REMOVE, LONG, G07, |t| t.rm_edge_mid + t.rm_node_mid > 0),
            hub_sub(G07, (900, 6_000), 2),
        ]),
        mk("G08", vec![hist_sub("histories", "random operation histories, every lookup compared with the stored lists after every step; non-trivial = at least one removal and one split", (30_000, 500_000), BUILD, (24, 50), G08, |t| splits(t) && t.rm_edge + t.rm_node > 0), hist_sub("long", RULE_INS, (300, 2_000), BUILD, LONG, G08, |t| splits(t) && t.rm_edge + t.rm_node > 0), hub_sub(G08, (600, 4_000), 1)]),
        mk("G09", vec![hist_sub("histories", "random operation histories rich in refused and redundant requests; non-trivial = at least three such requests", (100_000, 1_500_000), REFUSE, (30, 70), G09, |t| t.refused >= 3), hist_sub("long", RULE_INS, (1_000, 10_000), REFUSE, LONG, G09, |t| t.refused >= 3), hub_sub(G09, (900, 6_000), 1)]),
        mk("G10", vec![
            drawing_sub("grid", (80_000, 1_500_000), (9, 14), false),
            drawing_sub("float", (30_000, 600_000), (12, 24), true),
            drawing_sub("many", (1_500, 30_000), (36, 60), false),
        ]),
        Prop {
            id: "G11",
            subs: vec![
                sub("twins", "three or more edges at the time of the copy, and original and copy both change and end up different", (20_000, 400_000), |t: Tier| twins(t.pick(20, 40)), |c: &Twins, o: &mut Obs| guarded(|| check_twins(c, o)).unwrap_or_else(Err)),
                sub("long", "as above, with up to 100 (thorough 200) steps before the copy", (300, 3_000), |t: Tier| twins(t.pick(100, 200)), |c: &Twins, o: &mut Obs| guarded(|| check_twins(c, o)).unwrap_or_else(Err)),
            ],
            assumptions: &["reported lists are compared as sets; graphs are compared slot by slot", "node data is observed through the derived Debug output of a node"],
        },
    ]
}
