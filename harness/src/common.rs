//! Shared pieces: exactly serialised floats, exact integer geometry, f64 reference geometry.
#![allow(dead_code)]
use kami::glm::Vec2;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub const EPS: f64 = f32::EPSILON as f64;

/// f32 that survives JSON exactly.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F(pub f32);
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}
/// f64 that survives JSON exactly.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D(pub f64);
impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for D {
    fn deserialize<De: Deserializer<'de>>(d: De) -> Result<D, De::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(D).map_err(serde::de::Error::custom)
    }
}

// ---------- exact integer geometry ----------
pub type IP = (i64, i64);

pub fn cross_i(a: IP, b: IP, c: IP) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
/// Is c on the closed segment ab (exact)?
pub fn on_seg_i(a: IP, b: IP, c: IP) -> bool {
    cross_i(a, b, c) == 0 && c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0) && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1)
}
/// Do the closed segments share a point (exact)?
pub fn seg_meet_i(a: IP, b: IP, c: IP, d: IP) -> bool {
    if seg_proper_i(a, b, c, d) {
        return true;
    }
    on_seg_i(a, b, c) || on_seg_i(a, b, d) || on_seg_i(c, d, a) || on_seg_i(c, d, b)
}
/// Do the segments cross at one point interior to both (exact)?
pub fn seg_proper_i(a: IP, b: IP, c: IP, d: IP) -> bool {
    let (x, y) = (cross_i(a, b, c).signum(), cross_i(a, b, d).signum());
    let (z, w) = (cross_i(c, d, a).signum(), cross_i(c, d, b).signum());
    x * y < 0 && z * w < 0
}
pub fn area2_i(p: &[IP]) -> i64 {
    let n = p.len();
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum()
}
/// Strict interior test with all coordinates doubled-or-not as the caller likes; boundary => None.
pub fn inside_i(p: &[IP], q: IP) -> Option<bool> {
    let n = p.len();
    let mut wn = 0;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_seg_i(a, b, q) {
            return None;
        }
        if a.1 <= q.1 {
            if b.1 > q.1 && cross_i(a, b, q) > 0 {
                wn += 1;
            }
        } else if b.1 <= q.1 && cross_i(a, b, q) < 0 {
            wn -= 1;
        }
    }
    Some(wn != 0)
}

// ---------- f64 reference geometry ----------
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P(pub f64, pub f64);
impl P {
    pub fn of(v: &Vec2) -> P {
        P(v.x as f64, v.y as f64)
    }
    pub fn sub(self, o: P) -> P {
        P(self.0 - o.0, self.1 - o.1)
    }
    pub fn add(self, o: P) -> P {
        P(self.0 + o.0, self.1 + o.1)
    }
    pub fn mul(self, s: f64) -> P {
        P(self.0 * s, self.1 * s)
    }
    pub fn dot(self, o: P) -> f64 {
        self.0 * o.0 + self.1 * o.1
    }
    pub fn cross(self, o: P) -> f64 {
        self.0 * o.1 - self.1 * o.0
    }
    pub fn len(self) -> f64 {
        self.0.hypot(self.1)
    }
    pub fn dist(self, o: P) -> f64 {
        self.sub(o).len()
    }
    pub fn mag(self) -> f64 {
        self.0.abs().max(self.1.abs())
    }
    pub fn finite(self) -> bool {
        self.0.is_finite() && self.1.is_finite()
    }
    pub fn v(self) -> Vec2 {
        Vec2::new(self.0 as f32, self.1 as f32)
    }
}
/// Distance from p to the closed segment ab.
pub fn seg_dist(a: P, b: P, p: P) -> f64 {
    let d = b.sub(a);
    let l2 = d.dot(d);
    if l2 == 0.0 {
        return p.dist(a);
    }
    let t = (p.sub(a).dot(d) / l2).max(0.0).min(1.0);
    p.dist(a.add(d.mul(t)))
}
/// Distance from p to the infinite line ab.
pub fn line_dist(a: P, b: P, p: P) -> f64 {
    let d = b.sub(a);
    (d.cross(p.sub(a)) / d.len()).abs()
}
/// Intersection of the lines ab and cd: (t on ab, u on cd, point).
pub fn line_hit(a: P, b: P, c: P, d: P) -> Option<(f64, f64, P)> {
    let r = b.sub(a);
    let s = d.sub(c);
    let den = r.cross(s);
    if den == 0.0 {
        return None;
    }
    let t = c.sub(a).cross(s) / den;
    let u = c.sub(a).cross(r) / den;
    Some((t, u, a.add(r.mul(t))))
}
pub fn sin_between(a: P, b: P, c: P, d: P) -> f64 {
    let r = b.sub(a);
    let s = d.sub(c);
    (r.cross(s) / (r.len() * s.len())).abs()
}

pub fn v2(p: (f32, f32)) -> Vec2 {
    Vec2::new(p.0, p.1)
}
pub fn vi(p: IP) -> Vec2 {
    Vec2::new(p.0 as f32, p.1 as f32)
}
pub fn bits(v: &Vec2) -> (u32, u32) {
    // +0 and -0 are the same position
    ((v.x + 0.0).to_bits(), (v.y + 0.0).to_bits())
}
