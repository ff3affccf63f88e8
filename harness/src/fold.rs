//! F01..F03: FOLD files.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use kami::fold::fold::Fold;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::path::{Path, PathBuf};

// ---------- model ----------

/// The value of one key.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Val {
    Num(D),
    Str(String),
    Strs(Vec<String>),
    Reals(Vec<F>),
    RealLists(Vec<Vec<F>>),
    IntLists(Vec<Vec<i32>>),
    Triples(Vec<[i32; 3]>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Num,
    Str,
    Strs,
    Reals,
    RealLists,
    IntLists,
    Triples,
}

/// Key names of the FOLD format (version 1 names, as the crate supports them) and their types.
const KEYS: [(&str, Kind); 24] = [
    ("file_spec", Kind::Num),
    ("file_creator", Kind::Str),
    ("file_author", Kind::Str),
    ("file_title", Kind::Str),
    ("file_description", Kind::Str),
    ("file_classes", Kind::Strs),
    ("frame_author", Kind::Str),
    ("frame_title", Kind::Str),
    ("frame_description", Kind::Str),
    ("frame_classes", Kind::Strs),
    ("frame_attributes", Kind::Strs),
    ("frame_unit", Kind::Str),
    ("vertices_coords", Kind::RealLists),
    ("vertices_vertices", Kind::IntLists),
    ("vertices_faces", Kind::IntLists),
    ("edges_vertices", Kind::IntLists),
    ("edges_faces", Kind::IntLists),
    ("edges_assignment", Kind::Strs),
    ("edges_foldAngles", Kind::Reals),
    ("edges_length", Kind::Reals),
    ("faces_vertices", Kind::IntLists),
    ("faces_edges", Kind::IntLists),
    ("faceOrders", Kind::Triples),
    ("edgeOrders", Kind::Triples),
];

/// Other names of keys: the specification changed one from plural to singular, and kami used to write the other.
const ALIASES: [(&str, &str); 2] = [("edges_foldAngle", "edges_foldAngles"), ("edges_lengths", "edges_length")];

fn empty(k: Kind) -> Val {
    match k {
        Kind::Num => Val::Num(D(0.0)),
        Kind::Str => Val::Str(String::new()),
        Kind::Strs => Val::Strs(vec![]),
        Kind::Reals => Val::Reals(vec![]),
        Kind::RealLists => Val::RealLists(vec![]),
        Kind::IntLists => Val::IntLists(vec![]),
        Kind::Triples => Val::Triples(vec![]),
    }
}

// The fields are accessed without relying on the exact integer, float and list types behind them.
fn num<A: num_traits::NumCast, B: num_traits::NumCast>(x: A) -> B {
    B::from(x).expect("the field's type can represent the value")
}
fn il<T: num_traits::NumCast + Copy>(x: &Vec<Vec<T>>) -> Val {
    Val::IntLists(x.iter().map(|l| l.iter().map(|y| num(*y)).collect()).collect())
}
fn re<T: num_traits::NumCast + Copy>(x: &Vec<T>) -> Val {
    Val::Reals(x.iter().map(|y| F(num(*y))).collect())
}
fn ints_to<T: num_traits::NumCast>(x: Vec<Vec<i32>>) -> Vec<Vec<T>> {
    x.into_iter().map(|l| l.into_iter().map(num).collect()).collect()
}
fn triples_of<L: AsRef<[T]>, T: num_traits::NumCast + Copy>(x: &Vec<L>) -> Val {
    let v: Vec<Vec<i32>> = x.iter().map(|t| t.as_ref().iter().map(|y| num(*y)).collect()).collect();
    if v.iter().all(|t| t.len() == 3) {
        Val::Triples(v.iter().map(|t| [t[0], t[1], t[2]]).collect())
    } else {
        Val::IntLists(v)
    }
}
fn triples_to<L: for<'a> TryFrom<&'a [i32]>>(x: Vec<[i32; 3]>) -> Vec<L> {
    x.iter().map(|t| L::try_from(&t[..]).ok().expect("the field can hold triples")).collect()
}

fn get(f: &Fold, key: &str) -> Val {
    let s = |x: &String| Val::Str(x.clone());
    let ss = |x: &Vec<String>| Val::Strs(x.clone());
    match key {
        "file_spec" => Val::Num(D(f.file_spec as f64)),
        "file_creator" => s(&f.file_creator),
        "file_author" => s(&f.file_author),
        "file_title" => s(&f.file_title),
        "file_description" => s(&f.file_description),
        "file_classes" => ss(&f.file_classes),
        "frame_author" => s(&f.frame_author),
        "frame_title" => s(&f.frame_title),
        "frame_description" => s(&f.frame_description),
        "frame_classes" => ss(&f.frame_classes),
        "frame_attributes" => ss(&f.frame_attributes),
        "frame_unit" => s(&f.frame_unit),
        "vertices_coords" => Val::RealLists(f.vertices_coords.iter().map(|l| l.iter().map(|y| F(num(*y))).collect()).collect()),
        "vertices_vertices" => il(&f.vertices_vertices),
        "vertices_faces" => il(&f.vertices_faces),
        "edges_vertices" => il(&f.edges_vertices),
        "edges_faces" => il(&f.edges_faces),
        "edges_assignment" => ss(&f.edges_assignment),
        "edges_foldAngles" => re(&f.edges_foldangles),
        "edges_length" => re(&f.edges_lengths),
        "faces_vertices" => il(&f.faces_vertices),
        "faces_edges" => il(&f.faces_edges),
        "faceOrders" => triples_of(&f.faceorders),
        "edgeOrders" => triples_of(&f.edgeorders),
        _ => unreachable!(),
    }
}

fn set(f: &mut Fold, key: &str, v: &Val) {
    match (key, v.clone()) {
        ("file_spec", Val::Num(x)) => f.file_spec = x.0 as _,
        ("file_creator", Val::Str(x)) => f.file_creator = x,
        ("file_author", Val::Str(x)) => f.file_author = x,
        ("file_title", Val::Str(x)) => f.file_title = x,
        ("file_description", Val::Str(x)) => f.file_description = x,
        ("file_classes", Val::Strs(x)) => f.file_classes = x,
        ("frame_author", Val::Str(x)) => f.frame_author = x,
        ("frame_title", Val::Str(x)) => f.frame_title = x,
        ("frame_description", Val::Str(x)) => f.frame_description = x,
        ("frame_classes", Val::Strs(x)) => f.frame_classes = x,
        ("frame_attributes", Val::Strs(x)) => f.frame_attributes = x,
        ("frame_unit", Val::Str(x)) => f.frame_unit = x,
        ("vertices_coords", Val::RealLists(x)) => f.vertices_coords = x.into_iter().map(|l| l.into_iter().map(|y| num(y.0)).collect()).collect(),
        ("vertices_vertices", Val::IntLists(x)) => f.vertices_vertices = ints_to(x),
        ("vertices_faces", Val::IntLists(x)) => f.vertices_faces = ints_to(x),
        ("edges_vertices", Val::IntLists(x)) => f.edges_vertices = ints_to(x),
        ("edges_faces", Val::IntLists(x)) => f.edges_faces = ints_to(x),
        ("edges_assignment", Val::Strs(x)) => f.edges_assignment = x,
        ("edges_foldAngles", Val::Reals(x)) => f.edges_foldangles = x.into_iter().map(|y| num(y.0)).collect(),
        ("edges_length", Val::Reals(x)) => f.edges_lengths = x.into_iter().map(|y| num(y.0)).collect(),
        ("faces_vertices", Val::IntLists(x)) => f.faces_vertices = ints_to(x),
        ("faces_edges", Val::IntLists(x)) => f.faces_edges = ints_to(x),
        ("faceOrders", Val::Triples(x)) => f.faceorders = triples_to(x),
        ("edgeOrders", Val::Triples(x)) => f.edgeorders = triples_to(x),
        _ => unreachable!(),
    }
}

/// Equality with reals compared up to a relative error (0 = exactly, +0 = -0).
fn same(a: &Val, b: &Val, rel: f64) -> bool {
    let r = |x: &F, y: &F| x.0 == y.0 || (x.0 as f64 - y.0 as f64).abs() <= rel * (y.0.abs() as f64) + if rel > 0.0 { 1e-44 } else { 0.0 };
    let rs = |x: &Vec<F>, y: &Vec<F>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| r(p, q));
    match (a, b) {
        (Val::Reals(x), Val::Reals(y)) => rs(x, y),
        (Val::RealLists(x), Val::RealLists(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| rs(p, q)),
        (Val::Num(x), Val::Num(y)) => (x.0 - y.0).abs() <= 1e-6 * y.0.abs(),
        _ => a == b,
    }
}

type Doc = Vec<(String, Val)>;

fn compare(f: &Fold, doc: &Doc, rel: f64, what: &str) -> Res {
    for (k, kind) in KEYS.iter() {
        let want = doc.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone()).unwrap_or_else(|| empty(*kind));
        let got = get(f, k);
        ensure!(same(&got, &want, rel), "{}: {} is {:?}, expected {:?}", what, k, got, want);
    }
    Ok(())
}

// ---------- scratch files ----------

thread_local! {
    static DIR: RefCell<Option<Scratch>> = RefCell::new(None);
}
fn scratch_file(name: &str) -> PathBuf {
    DIR.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            // memory-backed when available
            let s = Scratch::new("fold");
            *d = Some(s);
        }
        d.as_ref().unwrap().0.join(name)
    })
}
fn load(bytes: &[u8]) -> Result<std::io::Result<Fold>, String> {
    let f = scratch_file("case.fold");
    std::fs::write(&f, bytes).expect("write scratch file");
    let r = guarded(|| Fold::from_file(&f));
    let after = std::fs::read(&f).expect("read scratch file");
    ensure!(after == bytes, "loading changed the file");
    r
}

// ---------- strategies ----------

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => prop::sample::select(vec!["M", "V", "B", "F", "U", "creasePattern", "2D", "kami", "unit"]).prop_map(|s| s.to_string()),
        3 => vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect()),
        2 => vec(prop::sample::select(vec!['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{0}', '\u{1f}', '\u{7f}', 'é', '\u{2028}', '折', '\u{1F600}', '\u{FFFF}', '{', '}', '[', ']', ',', ':', ' ', 'a']), 0..10).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}
fn real() -> BoxedStrategy<F> {
    prop_oneof![
        2 => (-20i32..20).prop_map(|x| F(x as f32)),
        2 => (-1000i32..1000).prop_map(|x| F(x as f32 / 16.0)),
        3 => (-1.0f32..1.0).prop_map(F),
        1 => prop::sample::select(vec![0.0f32, -0.0, 180.0, -180.0, 0.1, 1.0 / 3.0, 0.70710677, 16777216.0, 1e-10, 1e10]).prop_map(F),
        1 => (-60.0f32..60.0, any::<bool>()).prop_map(|(e, s)| F(if s { -(2f32.powf(e)) } else { 2f32.powf(e) })),
    ]
    .boxed()
}
fn wild_real() -> BoxedStrategy<F> {
    prop_oneof![
        3 => real(),
        1 => any::<u32>().prop_map(|b| { let x = f32::from_bits(b); F(if x.is_finite() { x } else { 1.5 }) }),
        1 => prop::sample::select(vec![f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45]).prop_map(F),
    ]
    .boxed()
}
fn index() -> BoxedStrategy<i32> {
    prop_oneof![6 => 0i32..20, 1 => -1i32..=1, 1 => any::<i32>(), 1 => prop::sample::select(vec![i32::MAX, i32::MIN])].boxed()
}
fn val(k: Kind, wild: bool) -> BoxedStrategy<Val> {
    let r = move || if wild { wild_real() } else { real() };
    match k {
        Kind::Num => prop_oneof![(0i32..5).prop_map(|x| x as f64), (0i32..40).prop_map(|x| x as f64 / 10.0), (0i32..1000).prop_map(|x| x as f64 / 100.0)].prop_map(|x| Val::Num(D(x))).boxed(),
        Kind::Str => text().prop_map(Val::Str).boxed(),
        Kind::Strs => vec(text(), 0..5).prop_map(Val::Strs).boxed(),
        Kind::Reals => vec(r(), 0..6).prop_map(Val::Reals).boxed(),
        Kind::RealLists => vec(vec(r(), 0..4), 0..6).prop_map(Val::RealLists).boxed(),
        Kind::IntLists => vec(vec(index(), 0..5), 0..6).prop_map(Val::IntLists).boxed(),
        Kind::Triples => vec([index(), index(), (-1i32..=1).boxed()], 0..4).prop_map(Val::Triples).boxed(),
    }
}
fn kind_of(key: &str) -> Kind {
    KEYS.iter().find(|x| x.0 == key).unwrap().1
}
fn long_text() -> BoxedStrategy<String> {
    prop_oneof![
        vec(any::<char>(), 20..400).prop_map(|v| v.into_iter().collect()),
        (text(), 1usize..2000).prop_map(|(t, n)| t.chars().cycle().take(if t.is_empty() { 0 } else { n }).collect()),
    ]
    .boxed()
}
/// Long lists and texts.
fn big_val(k: Kind, wild: bool) -> BoxedStrategy<Val> {
    let r = move || if wild { wild_real() } else { real() };
    match k {
        Kind::Num => val(k, wild),
        Kind::Str => long_text().prop_map(Val::Str).boxed(),
        Kind::Strs => prop_oneof![vec(text(), 8..400), vec(long_text(), 1..4)].prop_map(Val::Strs).boxed(),
        Kind::Reals => vec(r(), 8..700).prop_map(Val::Reals).boxed(),
        Kind::RealLists => prop_oneof![vec(vec(r(), 2..4), 8..400), vec(vec(r(), 8..200), 1..4)].prop_map(Val::RealLists).boxed(),
        Kind::IntLists => prop_oneof![vec(vec(index(), 0..5), 8..300), vec(vec(0i32..5000, 8..300), 1..4)].prop_map(Val::IntLists).boxed(),
        Kind::Triples => vec([(0i32..3000).boxed(), (0i32..3000).boxed(), (-1i32..=1).boxed()], 8..400).prop_map(Val::Triples).boxed(),
    }
}
/// A document with a few long fields.
fn big_doc(wild: bool) -> BoxedStrategy<Doc> {
    let one = (0..KEYS.len()).prop_flat_map(move |i| big_val(KEYS[i].1, wild).prop_map(move |v| (KEYS[i].0.to_string(), v)));
    (small_doc(wild), vec(one, 1..3))
        .prop_map(|(mut d, big)| {
            for (k, v) in big {
                match d.iter_mut().find(|e| e.0 == k) {
                    Some(e) => e.1 = v,
                    None => d.push((k, v)),
                }
            }
            d
        })
        .boxed()
}
/// A document whose lists fit together, as other programs write them: a crease pattern with valid
/// indices, matching list lengths, fold angles that agree with the assignments, and so on. Any of
/// the keys may be left out.
fn coherent_doc() -> BoxedStrategy<Doc> {
    let verts = prop_oneof![
        vec((real(), real()), 3..14),
        vec((0i32..5, 0i32..5), 3..14).prop_map(|v| v.into_iter().map(|(x, y)| (F(x as f32), F(y as f32))).collect::<Vec<_>>()),
    ];
    (verts, vec((any::<u16>(), any::<u16>(), 0u8..5), 1..24), vec((any::<u16>(), any::<u16>(), any::<u16>()), 0..8), any::<u32>(), any::<u32>(), any::<u8>())
        .prop_map(|(verts, edges, faces, mask, shuffle, flags)| {
            let n = verts.len();
            let mut ev: Vec<[usize; 2]> = vec![];
            let mut ea = vec![];
            for (a, b, k) in edges {
                let (a, b) = (a as usize % n, b as usize % n);
                if a != b {
                    ev.push([a, b]);
                    ea.push(["M", "V", "B", "F", "U"][k as usize]);
                }
            }
            let fv: Vec<Vec<usize>> = faces
                .iter()
                .map(|f| vec![f.0 as usize % n, f.1 as usize % n, f.2 as usize % n])
                .filter(|f| f[0] != f[1] && f[1] != f[2] && f[2] != f[0])
                .collect();
            let ints = |v: Vec<Vec<usize>>| Val::IntLists(v.into_iter().map(|l| l.into_iter().map(|x| x as i32).collect()).collect());
            let strs = |v: Vec<&str>| Val::Strs(v.into_iter().map(|x| x.to_string()).collect());
            let has = |f: &Vec<usize>, e: &[usize; 2]| f.contains(&e[0]) && f.contains(&e[1]);
            let three = flags & 1 == 1;
            let mut d: Doc = vec![];
            let mut put = |k: &str, v: Val| d.push((k.to_string(), v));
            put("file_spec", Val::Num(D([1.0, 1.1, 1.2, 2.0][flags as usize >> 1 & 3])));
            put("file_creator", Val::Str("kami".into()));
            put("file_author", Val::Str("A. Folder".into()));
            put("file_title", Val::Str("Crane".into()));
            put("file_classes", strs(vec!["singleModel"]));
            put("frame_title", Val::Str("frame".into()));
            put("frame_classes", strs(vec![if three { "foldedForm" } else { "creasePattern" }]));
            put("frame_attributes", strs(vec![if three { "3D" } else { "2D" }, "nonSelfTouching"]));
            put("frame_unit", Val::Str(["unit", "mm", "in", "pt"][flags as usize >> 3 & 3].into()));
            put("vertices_coords", Val::RealLists(verts.iter().map(|p| if three { vec![p.0, p.1, F(0.0)] } else { vec![p.0, p.1] }).collect()));
            put("vertices_vertices", ints((0..n).map(|i| ev.iter().filter(|e| e.contains(&i)).map(|e| e[0] + e[1] - i).collect()).collect()));
            put("vertices_faces", ints((0..n).map(|i| (0..fv.len()).filter(|f| fv[*f].contains(&i)).collect()).collect()));
            put("edges_vertices", ints(ev.iter().map(|e| e.to_vec()).collect()));
            put("edges_faces", ints(ev.iter().map(|e| (0..fv.len()).filter(|f| has(&fv[*f], e)).collect()).collect()));
            put("edges_assignment", strs(ea.clone()));
            put("edges_foldAngles", Val::Reals(ea.iter().map(|a| F(match *a { "M" => -180.0, "V" => 180.0, _ => 0.0 })).collect()));
            put("edges_length", Val::Reals(ev.iter().map(|e| { let (p, q) = (verts[e[0]], verts[e[1]]); F(((p.0 .0 - q.0 .0).powi(2) + (p.1 .0 - q.1 .0).powi(2)).sqrt()) }).collect()));
            put("faces_vertices", ints(fv.clone()));
            put("faces_edges", ints(fv.iter().map(|f| (0..ev.len()).filter(|e| has(f, &ev[*e])).collect()).collect()));
            put("faceOrders", Val::Triples((1..fv.len()).map(|f| [f as i32 - 1, f as i32, [1, -1, 0][f % 3]]).collect()));
            put("edgeOrders", Val::Triples((1..ev.len()).map(|e| [e as i32 - 1, e as i32, [1, -1, 0][e % 3]]).collect()));
            // leave out some (a zero mask keeps all of them), in some order
            let mut d: Vec<_> = d.into_iter().enumerate().filter(|(i, _)| mask & 3 != 3 || mask >> (i % 29 + 2) & 1 == 0).collect();
            let mul = (shuffle | 1) as usize;
            if shuffle & 6 != 0 {
                d.sort_by_key(|(i, _)| (i * 40503).wrapping_mul(mul) % 65521);
            }
            d.into_iter().map(|x| x.1).filter(|(k, v)| flags & 128 == 0 || *v != empty(kind_of(k))).collect()
        })
        .boxed()
}
fn doc(wild: bool) -> BoxedStrategy<Doc> {
    prop_oneof![8 => small_doc(wild), 4 => coherent_doc(), 1 => big_doc(wild)].boxed()
}
/// A document: a subset of the keys, in any order.
fn small_doc(wild: bool) -> BoxedStrategy<Doc> {
    let mut all: Vec<BoxedStrategy<(u32, Option<(String, Val)>)>> = vec![];
    for (k, kind) in KEYS.iter() {
        let v = val(*kind, wild);
        all.push((any::<u32>(), prop_oneof![1 => Just(None), 1 => v.prop_map(move |v| Some((k.to_string(), v)))]).boxed());
    }
    all.prop_map(|v| {
        let mut v: Vec<_> = v.into_iter().filter_map(|(o, e)| e.map(|e| (o, e))).collect();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()
    })
    .boxed()
}

// ---------- F01 ----------

fn val_to_json(v: &Val) -> Value {
    let r = |x: &F| serde_json::json!(x.0);
    match v {
        Val::Num(x) => serde_json::json!(x.0),
        Val::Str(s) => serde_json::json!(s),
        Val::Strs(s) => serde_json::json!(s),
        Val::Reals(x) => Value::Array(x.iter().map(r).collect()),
        Val::RealLists(x) => Value::Array(x.iter().map(|l| Value::Array(l.iter().map(r).collect())).collect()),
        Val::IntLists(x) => serde_json::json!(x),
        Val::Triples(x) => serde_json::json!(x),
    }
}
fn json_same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x as f32 == y as f32 || (x - y).abs() <= 1e-6 * y.abs()
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_same(p, q)),
        _ => a == b,
    }
}

fn check_round_trip(d: &Doc, o: &mut Obs) -> Res {
    o.nontrivial_if(d.iter().filter(|(k, v)| *v != empty(KEYS.iter().find(|x| x.0 == k).unwrap().1)).count() >= 4);
    let mut f: Fold = serde_json::from_str("{}").map_err(|e| format!("empty document refused: {}", e))?;
    for (k, v) in d {
        set(&mut f, k, v);
        o.label(KEYS.iter().find(|x| x.0 == k).unwrap().0);
    }
    compare(&f, d, 0.0, "harness: as assigned")?;
    let s = serde_json::to_string(&f).map_err(|e| format!("cannot serialise: {}", e))?;
    // key names and values of the serialised form
    let js: Value = serde_json::from_str(&s).map_err(|e| format!("serialised form is not JSON: {}", e))?;
    let obj = js.as_object().ok_or("serialised form is not an object")?;
    for (k, v) in d {
        let kind = KEYS.iter().find(|x| x.0 == k).unwrap().1;
        match obj.get(k) {
            Some(j) => ensure!(json_same(j, &val_to_json(v)), "serialised {} is {}, expected {}", k, j, val_to_json(v)),
            None => ensure!(*v == empty(kind), "key {} is missing from the serialised form {:?}", k, obj.keys().collect::<Vec<_>>()),
        }
    }
    // back from text
    let g: Fold = serde_json::from_str(&s).map_err(|e| format!("written text is refused: {}", e))?;
    compare(&g, d, 0.0, "read back from text")?;
    // pretty printed
    let p = serde_json::to_string_pretty(&g).map_err(|e| e.to_string())?;
    let g: Fold = serde_json::from_str(&p).map_err(|e| format!("pretty text is refused: {}", e))?;
    compare(&g, d, 0.0, "read back from pretty text")?;
    // back from a file
    let h = load(s.as_bytes())?.map_err(|e| format!("written file is refused: {}", e))?;
    compare(&h, d, 0.0, "read back from a file")
}

// ---------- F02 ----------

/// How to write things: a stream of arbitrary choices.
struct Style<'a> {
    c: &'a [u8],
    i: usize,
}
impl<'a> Style<'a> {
    fn next(&mut self, n: u8) -> u8 {
        if self.c.is_empty() {
            return 0;
        }
        let v = self.c[self.i % self.c.len()].wrapping_add((self.i / self.c.len()) as u8);
        self.i += 1;
        v % n
    }
    fn ws(&mut self, out: &mut String) {
        match self.next(8) {
            0..=3 => {}
            4 => out.push(' '),
            5 => out.push_str("\n  "),
            6 => out.push_str("\r\n\t"),
            _ => out.push_str("   \n"),
        }
    }
    fn string(&mut self, s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            let must = c == '"' || c == '\\' || (c as u32) < 0x20;
            let mode = self.next(6);
            if must || mode == 0 {
                let short = match c {
                    '"' => Some('"'),
                    '\\' => Some('\\'),
                    '/' => Some('/'),
                    '\n' => Some('n'),
                    '\r' => Some('r'),
                    '\t' => Some('t'),
                    '\u{8}' => Some('b'),
                    '\u{c}' => Some('f'),
                    _ => None,
                };
                match short {
                    Some(x) if self.next(2) == 0 => {
                        out.push('\\');
                        out.push(x);
                    }
                    _ => {
                        let mut b = [0u16; 2];
                        for u in c.encode_utf16(&mut b) {
                            if self.next(2) == 0 {
                                out.push_str(&format!("\\u{:04x}", u));
                            } else {
                                out.push_str(&format!("\\u{:04X}", u));
                            }
                        }
                    }
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
    }
    /// A real number in some legal JSON notation.
    fn real(&mut self, x: f64, out: &mut String) {
        let m = self.next(6);
        let integral = x == x.trunc() && x.abs() < 1e9;
        let s = match m {
            0 if integral => format!("{}", x as i64),
            1 if integral => format!("{}.0", x as i64),
            1 => format!("{:?}00", x).replace("e", "E"), // may be fixed up below
            2 => format!("{:e}", x),
            3 => format!("{:E}", x),
            4 => {
                let t = format!("{:e}", x);
                if t.contains("e-") {
                    t
                } else {
                    t.replace("e", "e+")
                }
            }
            5 if x != 0.0 && x.abs() < 1e6 && x.abs() > 1e-3 => {
                // shift the decimal point: 12.5 -> 0.125e2
                format!("{:?}e2", x / 100.0)
            }
            _ => format!("{:?}", x),
        };
        // {:?} may itself produce an exponent; "1e-700" style accidents are re-written plainly
        let ok = s.parse::<f64>().map_or(false, |y| (y - x).abs() <= 1e-12 * x.abs());
        out.push_str(&if ok { s } else { format!("{:e}", x) });
    }
    fn list<T>(&mut self, v: &[T], out: &mut String, f: &mut dyn FnMut(&mut Self, &T, &mut String)) {
        out.push('[');
        self.ws(out);
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                out.push(',');
                self.ws(out);
            }
            f(self, x, out);
            self.ws(out);
        }
        out.push(']');
    }
    fn val(&mut self, v: &Val, out: &mut String) {
        match v {
            Val::Num(x) => self.real(x.0, out),
            Val::Str(s) => self.string(s, out),
            Val::Strs(v) => self.list(v, out, &mut |t, s, o| t.string(s, o)),
            Val::Reals(v) => self.list(v, out, &mut |t, x, o| t.real(x.0 as f64, o)),
            Val::RealLists(v) => self.list(v, out, &mut |t, l, o| t.list(l, o, &mut |t, x, o| t.real(x.0 as f64, o))),
            Val::IntLists(v) => self.list(v, out, &mut |t, l, o| t.list(l, o, &mut |_, x, o| o.push_str(&x.to_string()))),
            Val::Triples(v) => self.list(v, out, &mut |t, l, o| t.list(&l[..], o, &mut |_, x, o| o.push_str(&x.to_string()))),
        }
    }
}

const EXTRA: [(&str, &str); 12] = [
    ("kami:custom", "{\"a\": [1, 2.5e3, {\"b\": null}], \"c\": \"x\"}"),
    ("faces_faceOrders", "[]"),
    ("", "0"),
    ("file_frames", "[]"),
    ("frame_parent", "0"),
    ("edges_crossing", "[true, false, null]"),
    ("edges_foldangles", "[9, 9]"),
    ("faceorders", "[[9, 9, 9]]"),
    ("VERTICES_COORDS", "[[7, 7]]"),
    ("vertices_coords ", "\"not the same key\""),
    ("rabbit_ear:x", "-1.5E-3"),
    ("\\u0066oo", "\"\\ud83d\\ude00\""),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    doc: Doc,
    /// (position, which) of unknown keys
    extra: Vec<(u8, u8)>,
    style: Vec<u8>,
}
fn file_case(wild: bool) -> impl Strategy<Value = FileCase> {
    (doc(wild), vec((any::<u8>(), 0u8..EXTRA.len() as u8), 0..3), vec(any::<u8>(), 0..40)).prop_map(|(doc, extra, style)| FileCase { doc, extra, style })
}
fn render(c: &FileCase) -> String {
    let mut st = Style { c: &c.style, i: 0 };
    let mut items: Vec<(Option<&(String, Val)>, usize)> = c.doc.iter().map(|x| (Some(x), 0)).collect();
    let mut used = vec![];
    for (p, w) in &c.extra {
        let w = *w as usize % EXTRA.len();
        if !used.contains(&w) {
            used.push(w);
            let p = *p as usize % (items.len() + 1);
            items.insert(p, (None, w));
        }
    }
    let mut out = String::new();
    st.ws(&mut out);
    out.push('{');
    st.ws(&mut out);
    for (i, (it, w)) in items.iter().enumerate() {
        if i > 0 {
            out.push(',');
            st.ws(&mut out);
        }
        match it {
            Some((k, v)) => {
                let name = match ALIASES.iter().find(|a| a.1 == k) {
                    Some(a) if st.next(3) == 1 => a.0,
                    _ => k,
                };
                st.string(name, &mut out);
                st.ws(&mut out);
                out.push(':');
                st.ws(&mut out);
                st.val(v, &mut out);
            }
            None => {
                out.push_str(&format!("\"{}\"", EXTRA[*w].0));
                st.ws(&mut out);
                out.push(':');
                st.ws(&mut out);
                out.push_str(EXTRA[*w].1);
            }
        }
        st.ws(&mut out);
    }
    out.push('}');
    st.ws(&mut out);
    out
}
fn check_load(c: &FileCase, o: &mut Obs) -> Res {
    let text = render(c);
    o.nontrivial_if(c.doc.len() >= 4 && !c.style.is_empty());
    if !c.extra.is_empty() {
        o.label("unknown keys");
    }
    if c.doc.iter().any(|(_, v)| matches!(v, Val::Num(x) if x.0.fract() != 0.0)) {
        o.label("fractional spec version");
    }
    if c.style.is_empty() {
        o.label("plain style");
    }
    let f = load(text.as_bytes())?.map_err(|e| format!("valid file refused: {}: {:?}", e, text))?;
    compare(&f, &c.doc, 2.0 * EPS, "loaded").map_err(|e| format!("{} from {:?}", e, text))
}

// ---------- F03 ----------

/// An independent reader: strict JSON (RFC 8259) and the types of the FOLD keys.
#[derive(Debug, PartialEq)]
enum Verdict {
    Valid,
    Invalid(String),
    /// outside what the property speaks about (duplicate keys, numbers out of range, lone surrogates, ...)
    Unspecified,
}
enum J {
    Null,
    Bool,
    Num { int: Option<i128>, big: bool },
    Str,
    Arr(Vec<J>),
    Obj,
}
struct Reader<'a> {
    b: &'a [u8],
    i: usize,
    unspecified: bool,
    depth: usize,
}
impl<'a> Reader<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut units: Vec<u16> = vec![];
        loop {
            if self.i >= self.b.len() {
                return Err("unterminated string".into());
            }
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    break;
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b'"' | b'\\' | b'/' => units.push(c as u16),
                        b'b' => units.push(8),
                        b'f' => units.push(12),
                        b'n' => units.push(10),
                        b'r' => units.push(13),
                        b't' => units.push(9),
                        b'u' => {
                            if self.i + 4 > self.b.len() {
                                return Err("short escape".into());
                            }
                            let h = &self.b[self.i..self.i + 4];
                            if !h.iter().all(|x| x.is_ascii_hexdigit()) {
                                return Err("bad escape".into());
                            }
                            units.push(u16::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap());
                            self.i += 4;
                        }
                        _ => return Err("bad escape".into()),
                    }
                }
                c if c < 0x20 => return Err("control character in string".into()),
                _ => {
                    let n = match self.b[self.i] {
                        0..=0x7F => 1,
                        0..=0xDF => 2,
                        0..=0xEF => 3,
                        _ => 4,
                    };
                    let s = std::str::from_utf8(&self.b[self.i..self.i + n]).unwrap();
                    let ch = s.chars().next().unwrap();
                    let mut buf = [0; 2];
                    units.extend_from_slice(ch.encode_utf16(&mut buf));
                    self.i += ch.len_utf8();
                }
            }
        }
        match String::from_utf16(&units) {
            Ok(s) => Ok(s),
            Err(_) => {
                self.unspecified = true;
                Ok(String::new())
            }
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        match self.peek() {
            b'0' => self.i += 1,
            b'1'..=b'9' => {
                while self.peek().is_ascii_digit() {
                    self.i += 1;
                }
            }
            _ => return Err(format!("bad number at {}", s)),
        }
        let mut int = true;
        if self.peek() == b'.' {
            int = false;
            self.i += 1;
            if !self.peek().is_ascii_digit() {
                return Err("bad fraction".into());
            }
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            int = false;
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if !self.peek().is_ascii_digit() {
                return Err("bad exponent".into());
            }
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        }
        let t = std::str::from_utf8(&self.b[s..self.i]).unwrap();
        let x: f64 = t.parse().unwrap_or(f64::INFINITY);
        Ok(J::Num { int: if int { t.parse::<i128>().ok() } else { None }, big: !(x.abs() < 1e38) })
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 100 {
            self.unspecified = true;
            return Err("deep".into());
        }
        self.ws();
        let r = match self.peek() {
            b'"' => self.string().map(|_| J::Str)?,
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                } else {
                    loop {
                        v.push(self.value()?);
                        self.ws();
                        if self.peek() == b',' {
                            self.i += 1;
                        } else {
                            self.eat(b']')?;
                            break;
                        }
                    }
                }
                J::Arr(v)
            }
            b'{' => {
                self.object()?;
                J::Obj
            }
            b't' => self.word("true", J::Bool)?,
            b'f' => self.word("false", J::Bool)?,
            b'n' => self.word("null", J::Null)?,
            _ => {
                let n = self.number()?;
                if let J::Num { big: true, .. } = n {
                    self.unspecified = true;
                }
                n
            }
        };
        self.depth -= 1;
        Ok(r)
    }
    fn word(&mut self, w: &str, j: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(j)
        } else {
            Err(format!("bad word at {}", self.i))
        }
    }
    fn object(&mut self) -> Result<Vec<(String, J)>, String> {
        self.eat(b'{')?;
        let mut v = vec![];
        self.ws();
        if self.peek() == b'}' && self.i < self.b.len() {
            self.i += 1;
            return Ok(v);
        }
        loop {
            self.ws();
            let k = self.string()?;
            self.ws();
            self.eat(b':')?;
            let x = self.value()?;
            v.push((k, x));
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
            } else {
                self.eat(b'}')?;
                return Ok(v);
            }
        }
    }
}
/// Some(true) fits, Some(false) does not, None unspecified.
fn fits(kind: Kind, j: &J) -> Option<bool> {
    fn all(j: &J, f: &dyn Fn(&J) -> Option<bool>) -> Option<bool> {
        match j {
            J::Arr(v) => {
                let mut unspec = false;
                for x in v {
                    match f(x) {
                        Some(false) => return Some(false),
                        None => unspec = true,
                        _ => {}
                    }
                }
                if unspec {
                    None
                } else {
                    Some(true)
                }
            }
            _ => Some(false),
        }
    }
    let num = |j: &J| Some(matches!(j, J::Num { .. }));
    let st = |j: &J| Some(matches!(j, J::Str));
    // 1.0 where an integer is required: a matter of taste, left open; out-of-range integers are refused
    let int = |j: &J| match j {
        J::Num { int: Some(i), .. } => Some(*i >= i32::MIN as i128 && *i <= i32::MAX as i128),
        J::Num { int: None, .. } => None,
        _ => Some(false),
    };
    match kind {
        Kind::Num => num(j),
        Kind::Str => st(j),
        Kind::Strs => all(j, &st),
        Kind::Reals => all(j, &num),
        Kind::RealLists => all(j, &|x| all(x, &num)),
        Kind::IntLists => all(j, &|x| all(x, &int)),
        Kind::Triples => all(j, &|x| match x {
            J::Arr(v) if v.len() == 3 => all(x, &int),
            _ => Some(false),
        }),
    }
}
fn verdict(bytes: &[u8]) -> Verdict {
    if std::str::from_utf8(bytes).is_err() {
        return Verdict::Invalid("not UTF-8".into());
    }
    if bytes.starts_with(&[0xEF, 0xBB, 0xBF]) {
        return Verdict::Unspecified;
    }
    let mut r = Reader { b: bytes, i: 0, unspecified: false, depth: 0 };
    r.ws();
    let is_obj = r.peek() == b'{';
    if !is_obj {
        return Verdict::Invalid("not an object".into());
    }
    let o = match r.object() {
        Ok(o) => o,
        Err(_) if r.unspecified => return Verdict::Unspecified,
        Err(e) => return Verdict::Invalid(e),
    };
    r.ws();
    if r.i != bytes.len() {
        return Verdict::Invalid("trailing characters".into());
    }
    let mut unspec = r.unspecified;
    let mut seen: Vec<&str> = vec![];
    for (k, j) in &o {
        let k = ALIASES.iter().find(|a| a.0 == k).map_or(k.as_str(), |a| a.1);
        if seen.contains(&k) {
            unspec = true;
        }
        seen.push(k);
        if let Some((_, kind)) = KEYS.iter().find(|x| x.0 == k) {
            match fits(*kind, j) {
                Some(true) => {}
                // (a lone surrogate elsewhere does not make a wrongly typed document right)
                Some(false) if !unspec => return Verdict::Invalid(format!("wrong type for {}", k)),
                _ => unspec = true,
            }
        }
    }
    if unspec {
        Verdict::Unspecified
    } else {
        Verdict::Valid
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    /// keep only a part (fraction of the length in 1/65536)
    Truncate(u16),
    /// overwrite, insert or delete bytes
    Bytes(Vec<(u16, u8, u8)>),
    /// replace the value of a key by a value of another type
    WrongType(u8, u8),
    /// put something after the document
    Trail(u8),
    /// the document is not an object
    NotObject(u8),
    /// insert a byte sequence that is not UTF-8
    NotUtf8(u16, u8),
    /// arbitrary content
    Raw(Vec<u8>),
    /// change a structural character
    Structure(u16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    base: FileCase,
    damage: Damage,
}
fn damage() -> impl Strategy<Value = Damage> {
    prop_oneof![
        3 => any::<u16>().prop_map(Damage::Truncate),
        4 => vec((any::<u16>(), 0u8..3, prop_oneof![3 => any::<u8>(), 3 => prop::sample::select(b"{}[]\",:0123456789.eE+-tfn \\/u\n".to_vec())]), 1..5).prop_map(Damage::Bytes),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Damage::WrongType(a, b)),
        1 => any::<u8>().prop_map(Damage::Trail),
        1 => any::<u8>().prop_map(Damage::NotObject),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::NotUtf8(a, b)),
        1 => vec(any::<u8>(), 0..40).prop_map(Damage::Raw),
        1 => vec(prop::sample::select(b"{}[]\",:01.e-truefalsn \\".to_vec()), 0..12).prop_map(Damage::Raw),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Structure(a, b)),
    ]
}
const WRONG: [&str; 24] = [
    "null", "true", "\"x\"", "1", "1.5", "{}", "[]", "[null]", "[\"a\"]", "[1]", "[1.5]", "[[1]]", "[[\"a\"]]", "[[null, 1]]", "[[1, 2]]", "[[1, 2, 3, 4]]", "[[1, 2, 3]]",
    "[[2147483648]]", "[[[1]]]", "{\"a\": 1}", "[{}]", "[[1,2,\"x\"]]", "[true]", "-5",
];
fn damaged(c: &BadCase) -> (Vec<u8>, &'static str) {
    let text = render(&c.base);
    let b = text.into_bytes();
    let at = |f: u16, n: usize| (f as usize * n) / 65536;
    match &c.damage {
        Damage::Truncate(f) => (b[..at(*f, b.len())].to_vec(), "truncated"),
        Damage::Bytes(ops) => {
            let mut b = b;
            for (p, op, x) in ops {
                let p = at(*p, b.len());
                if p >= b.len() {
                    b.push(*x);
                    continue;
                }
                match op {
                    0 => b[p] = *x,
                    1 => b.insert(p, *x),
                    _ => {
                        b.remove(p);
                    }
                }
            }
            (b, "bytes changed")
        }
        Damage::WrongType(k, w) => {
            let k = KEYS[*k as usize % KEYS.len()].0;
            let w = WRONG[*w as usize % WRONG.len()];
            let mut base = c.base.clone();
            base.doc.retain(|x| x.0 != k);
            let t = render(&base);
            // insert as the first member
            let p = t.find('{').unwrap() + 1;
            let rest = &t[p..];
            let comma = if rest.trim_start().starts_with('}') { "" } else { "," };
            (format!("{}\"{}\": {}{}{}", &t[..p], k, w, comma, rest).into_bytes(), "value replaced")
        }
        Damage::Trail(x) => {
            let t: &[&str] = &["}", "{}", "x", ",", "null", "\u{0}", "]", "// comment"];
            let mut b = b;
            b.extend_from_slice(t[*x as usize % t.len()].as_bytes());
            (b, "something after the document")
        }
        Damage::NotObject(x) => {
            let t: &[&str] = &["", " ", "null", "[]", "[1]", "[{}]", "\"fold\"", "12", "true", "[1,\"a\",\"b\",\"c\",\"d\",[]]", "nul", "{", "[1.1]"];
            (t[*x as usize % t.len()].as_bytes().to_vec(), "not an object")
        }
        Damage::NotUtf8(p, x) => {
            let t: &[&[u8]] = &[&[0xFF], &[0xC0, 0x80], &[0x80], &[0xED, 0xA0, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0xE2, 0x82]];
            let mut b = b;
            let p = at(*p, b.len() + 1);
            for (i, y) in t[*x as usize % t.len()].iter().enumerate() {
                b.insert(p + i, *y);
            }
            (b, "not UTF-8")
        }
        Damage::Raw(v) => (v.clone(), "arbitrary bytes"),
        Damage::Structure(p, x) => {
            let mut b = b;
            let at_all: Vec<usize> = (0..b.len()).filter(|i| b"{}[],:\"".contains(&b[*i])).collect();
            let p = at_all[at(*p, at_all.len())];
            let t = b"{}[],:\" x";
            b[p] = t[*x as usize % t.len()];
            (b, "structure changed")
        }
    }
}
fn check_bad(c: &BadCase, o: &mut Obs) -> Res {
    let (b, what) = damaged(c);
    check_bytes(&b, what, o)
}
fn check_bytes(b: &[u8], what: &'static str, o: &mut Obs) -> Res {
    o.label(what);
    let v = verdict(b);
    let r = load(b).map_err(|e| format!("{} ({}): {:?}", e, what, String::from_utf8_lossy(b)))?;
    match v {
        Verdict::Unspecified => o.label("validity unspecified: only the absence of a crash is judged"),
        Verdict::Valid => {
            o.label("still valid");
            ensure!(r.is_ok(), "valid document refused ({:?}): {:?}", r.err(), String::from_utf8_lossy(b));
        }
        Verdict::Invalid(e) => {
            o.nontrivial_if(b.len() > 2);
            ensure!(r.is_err(), "accepted although {}: {:?}", e, String::from_utf8_lossy(b));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PathCase {
    kind: u8,
    name: String,
    #[serde(default)]
    place: Option<Place>,
}
fn check_path(c: &PathCase, o: &mut Obs) -> Res {
    o.nontrivial();
    let base = scratch_file("");
    let p: PathBuf = match c.kind {
        0 => {
            o.label("missing file");
            base.join("missing").join(&c.name)
        }
        1 => {
            o.label("directory");
            base.clone()
        }
        2 => {
            o.label("empty path");
            PathBuf::from("")
        }
        3 => {
            o.label("file used as a directory");
            let f = base.join("plain.fold");
            std::fs::write(&f, b"{}").unwrap();
            f.join(&c.name)
        }
        4 => {
            o.label("dangling link");
            let l = base.join("dangling");
            let _ = std::os::unix::fs::symlink(base.join("nowhere"), &l);
            l
        }
        6 | 7 => {
            // a file (missing, or with the start of a document only), or a directory, of an unusual name
            let root = base.join("places");
            let _ = std::fs::remove_dir_all(&root);
            let (file, path) = c.place.as_ref().map_or((root.join("x"), root.join("x")), |p| at_place(&root, p));
            if c.kind == 7 {
                o.label("truncated document in an unusual place");
                let _ = std::fs::write(&file, &br#"{"file_spec": 1"#[..1 + c.name.len()]);
            } else if c.name.len() > 3 {
                o.label("directory in an unusual place");
                let _ = std::fs::create_dir_all(&file);
            } else {
                o.label("missing in an unusual place");
            }
            path
        }
        _ => {
            o.label("path with a NUL byte");
            Path::new(&format!("{}\0x", base.display())).to_path_buf()
        }
    };
    match guarded(|| Fold::from_file(&p)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{:?} was loaded", p)),
        Err(e) => Err(format!("{:?}: {}", p, e)),
    }
}

// ---------- several files, in unusual places ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Place {
    /// bytes of the file's and its directories' names ('/' and NUL are replaced)
    names: Vec<Vec<u8>>,
    via: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum FileOp {
    Load(u8),
    /// Rewrites file i with document j.
    Write(u8, u8),
    /// Writes document j next to file i and renames it over the file.
    Replace(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Places {
    places: Vec<Place>,
    docs: Vec<FileCase>,
    /// all files have the same length (white space at the end)
    #[serde(default)]
    same_length: bool,
    ops: Vec<FileOp>,
}
fn name() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => prop::sample::select(vec!["crane.fold", "a b.fold", "CRANE.FOLD", "crane.json", "crane", ".fold", "crane.fold.bak", "kran\u{e9}.fold", "\u{6298}\u{308a}.fold", "-", "~", "%2e", "$HOME", "*", "x\\y.fold", " ", "...", "a\nb", "http:", "#1?.fold"]).prop_map(|s| s.as_bytes().to_vec()),
        2 => prop::sample::select(vec![&b"\xff.fold"[..], b"caf\xe9.fold", b"\xc3\x28", b"\xed\xa0\x80"]).prop_map(|s| s.to_vec()),
        1 => vec(any::<u8>(), 1..12),
        1 => (any::<u8>(), 100usize..240).prop_map(|(b, n)| vec![b; n]),
    ]
    .boxed()
}
fn place() -> impl Strategy<Value = Place> {
    (vec(name(), 1..4), 0u8..6).prop_map(|(names, via)| Place { names, via })
}
fn places() -> impl Strategy<Value = Places> {
    let op = prop_oneof![5 => any::<u8>().prop_map(FileOp::Load), 2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| FileOp::Write(a, b)), 1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| FileOp::Replace(a, b))];
    (vec(place(), 1..4), vec(small_case(), 1..4), any::<bool>(), vec(op, 1..8)).prop_map(|(places, docs, same_length, ops)| Places { places, docs, same_length, ops })
}
fn small_case() -> impl Strategy<Value = FileCase> {
    (small_doc(false), vec((any::<u8>(), 0u8..EXTRA.len() as u8), 0..2), prop_oneof![Just(vec![]), vec(any::<u8>(), 1..20)]).prop_map(|(doc, extra, style)| FileCase { doc, extra, style })
}
fn os_name(b: &[u8]) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b: Vec<u8> = b.iter().map(|x| if *x == b'/' || *x == 0 { b'_' } else { *x }).collect();
    if b.is_empty() || b == b"." || b == b".." {
        b.push(b'f');
    }
    std::ffi::OsString::from_vec(b)
}
/// The file at a place below dir (its directories are made) and a path that leads to it.
fn at_place(dir: &Path, p: &Place) -> (PathBuf, PathBuf) {
    let mut f = dir.to_path_buf();
    for n in &p.names {
        std::fs::create_dir_all(&f).expect("scratch directory");
        f.push(os_name(n));
    }
    let up = |f: &Path| PathBuf::from("../".repeat(std::env::current_dir().map_or(0, |d| d.components().count()))).join(f.strip_prefix("/").unwrap_or(f));
    let parent = f.parent().unwrap().to_path_buf();
    let path = match p.via {
        1 => {
            let l = dir.join("link to a file");
            let _ = std::os::unix::fs::symlink(&f, &l);
            l
        }
        2 => {
            let l = dir.join("link to a directory");
            let _ = std::os::unix::fs::symlink(&parent, &l);
            l.join(f.file_name().unwrap())
        }
        3 => parent.join("..").join(parent.file_name().unwrap()).join(".").join(f.file_name().unwrap()),
        4 => up(&f),
        _ => f.clone(),
    };
    (f, path)
}
fn check_places(c: &Places, o: &mut Obs) -> Res {
    let root = scratch_file("places");
    let _ = std::fs::remove_dir_all(&root);
    let mut texts: Vec<String> = c.docs.iter().map(render).collect();
    if c.same_length {
        let n = texts.iter().map(|t| t.len()).max().unwrap();
        for t in texts.iter_mut() {
            *t += &" ".repeat(n - t.len());
        }
    }
    let mut at = vec![];
    let mut holds = vec![];
    for (i, p) in c.places.iter().enumerate() {
        let (file, path) = at_place(&root.join(format!("{}", i)), p);
        std::fs::write(&file, &texts[i % texts.len()]).expect("write scratch file");
        if path.to_str().is_none() {
            o.label("a path that is not UTF-8");
        }
        if path.is_relative() {
            o.label("a relative path");
        }
        at.push((file, path));
        holds.push(i % texts.len());
    }
    let mut loads = 0;
    let mut writes = 0;
    for op in c.ops.iter().chain([&FileOp::Load(0)]) {
        match op {
            FileOp::Load(i) => {
                let i = *i as usize % at.len();
                let text = &texts[holds[i]];
                loads += 1;
                let f = guarded(|| Fold::from_file(&at[i].1)).map_err(|e| format!("loading {:?}: {}", at[i].1, e))?;
                let f = f.map_err(|e| format!("valid file {:?} refused: {}: {:?}", at[i].1, e, text))?;
                compare(&f, &c.docs[holds[i]].doc, 2.0 * EPS, "loaded").map_err(|e| format!("{} from {:?}: {:?}", e, at[i].1, text))?;
                ensure!(std::fs::read(&at[i].0).ok().as_deref() == Some(text.as_bytes()), "loading changed the file {:?}", at[i].0);
            }
            FileOp::Write(i, j) | FileOp::Replace(i, j) => {
                let (i, j) = (*i as usize % at.len(), *j as usize % texts.len());
                writes += 1;
                if matches!(op, FileOp::Write(..)) {
                    std::fs::write(&at[i].0, &texts[j]).expect("write scratch file");
                } else {
                    let t = root.join("new");
                    std::fs::write(&t, &texts[j]).expect("write scratch file");
                    std::fs::rename(&t, &at[i].0).expect("rename scratch file");
                }
                holds[i] = j;
            }
        }
    }
    if writes > 0 {
        o.label("rewritten between loads");
    }
    o.nontrivial_if(c.docs.iter().any(|d| d.doc.len() >= 2) && (loads > 1 || c.places[0].via > 0 || c.places[0].names.len() > 1));
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

// ---------- files of up to a few megabytes ----------

/// A document some of whose fields are repeated up to many thousand entries.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    base: FileCase,
    grow: Vec<(u8, Val, u32)>,
    damage: Option<Damage>,
}
fn huge(wild: bool) -> impl Strategy<Value = Huge> {
    let n = || prop_oneof![1 => 1u32..2000, 2 => 2000u32..40_000, 1 => (8u32..17).prop_map(|e| 1 << e)];
    let one = (0..KEYS.len(), n()).prop_flat_map(move |(i, n)| val(KEYS[i].1, wild).prop_map(move |v| (i as u8, v, n)));
    let tail = prop_oneof![
        2 => (60_000u16..=65_535).prop_map(Damage::Truncate),
        1 => any::<u16>().prop_map(Damage::Truncate),
        2 => any::<u8>().prop_map(Damage::Trail),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Structure(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::NotUtf8(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Damage::WrongType(a, b)),
    ];
    let base = (small_doc(wild), vec((any::<u8>(), 0u8..EXTRA.len() as u8), 0..2), prop_oneof![Just(vec![]), vec(any::<u8>(), 1..30)]).prop_map(|(doc, extra, style)| FileCase { doc, extra, style });
    (base, vec(one, 1..4), tail).prop_map(|(base, grow, t)| Huge { base, grow, damage: Some(t) })
}
fn cycle<T: Clone>(v: &[T], n: u32) -> Vec<T> {
    v.iter().cycle().take(if v.is_empty() { 0 } else { n as usize }).cloned().collect()
}
fn grown(c: &Huge) -> FileCase {
    let mut f = c.base.clone();
    for (k, v, n) in &c.grow {
        let key = KEYS[*k as usize % KEYS.len()].0;
        let v = match v {
            Val::Num(x) => Val::Num(*x),
            Val::Str(s) => Val::Str(s.chars().cycle().take(if s.is_empty() { 0 } else { *n as usize }).collect()),
            Val::Strs(v) => Val::Strs(cycle(v, *n)),
            Val::Reals(v) => Val::Reals(cycle(v, *n)),
            Val::RealLists(v) => Val::RealLists(cycle(v, *n)),
            Val::IntLists(v) => Val::IntLists(cycle(v, *n)),
            Val::Triples(v) => Val::Triples(cycle(v, *n)),
        };
        match f.doc.iter_mut().find(|e| e.0 == key) {
            Some(e) => e.1 = v,
            None => f.doc.push((key.to_string(), v)),
        }
    }
    f
}
fn size_label(n: usize, o: &mut Obs) {
    o.nontrivial_if(n > 1 << 16);
    o.label(match n {
        0..=65_536 => "up to 64 KiB",
        65_537..=262_144 => "up to 256 KiB",
        262_145..=1_048_576 => "up to 1 MiB",
        _ => "more than 1 MiB",
    });
}
fn short(e: String) -> String {
    if e.chars().count() <= 600 {
        return e;
    }
    e.chars().take(600).chain(" [...]".chars()).collect()
}
fn check_huge_round_trip(c: &Huge, o: &mut Obs) -> Res {
    let d = grown(c).doc;
    let mut none = Obs::default();
    check_round_trip(&d, &mut none).map_err(short)?;
    size_label(serde_json::to_string(&d).map_or(0, |s| s.len()), o);
    Ok(())
}
fn check_huge_load(c: &Huge, o: &mut Obs) -> Res {
    let f = grown(c);
    let text = render(&f);
    size_label(text.len(), o);
    let got = load(text.as_bytes()).map_err(short)?.map_err(|e| short(format!("valid file of {} bytes refused: {}", text.len(), e)))?;
    compare(&got, &f.doc, 2.0 * EPS, "loaded").map_err(short)
}
fn check_huge_bad(c: &Huge, o: &mut Obs) -> Res {
    let b = BadCase { base: grown(c), damage: c.damage.clone().unwrap_or(Damage::Trail(0)) };
    let (bytes, what) = damaged(&b);
    let mut none = Obs::default();
    check_bytes(&bytes, what, &mut none).map_err(short)?;
    size_label(bytes.len(), o);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "F01",
            subs: vec![sub("round-trip", "a document with at least four non-empty fields", (40_000, 600_000), |_| doc(true), check_round_trip), sub("huge", "a document of more than 64 KiB", (160, 3_000), |_| huge(true), check_huge_round_trip)],
            assumptions: &["numbers are finite (JSON has no others)", "+0 and -0 are the same value"],
        },
        Prop {
            id: "F02",
            subs: vec![sub("load", "a file with at least four keys in a non-canonical style", (40_000, 600_000), |_| file_case(false), check_load), sub("huge", "a file of more than 64 KiB", (300, 6_000), |_| huge(false), check_huge_load), sub("places", "a document with at least two keys in a directory, behind a link or loaded repeatedly", (3_000, 60_000), |_| places(), check_places)],
            assumptions: &["integer-valued keys are written without fraction or exponent", "numbers agree within one f32 rounding step each for writing and reading"],
        },
        Prop {
            id: "F03",
            subs: vec![
                sub("content", "a damaged document that an independent strict reader refuses", (60_000, 1_000_000), |_| (file_case(false), damage()).prop_map(|(base, damage)| BadCase { base, damage }), check_bad),
                sub("huge", "a damaged file of more than 64 KiB", (240, 5_000), |_| huge(false), check_huge_bad),
                sub("path", "every path that cannot be read", (2_000, 20_000), |_| (0u8..12, "[a-z]{1,6}", place()).prop_map(|(kind, name, place)| PathCase { kind: if kind > 7 { 6 + kind % 2 } else { kind }, name, place: Some(place) }), check_path),
            ],
            assumptions: &["duplicate keys, lone surrogates, numbers beyond f32 and 1.0 for an integer are left open (only a crash is a violation there)"],
        },
    ]
}
