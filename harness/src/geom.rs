//! Geometry the monitors use, independent of the crate under test.

use crate::world::{dist, Attrs, Curve, Obs, P};

pub fn dot(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}

pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}

pub fn len(a: P) -> f64 {
    dot(a, a).sqrt()
}

/// Corners of the vehicle's footprint.
pub fn rect(o: &Obs, a: &Attrs) -> [P; 4] {
    let (hl, hw) = (0.5 * a.length, 0.5 * a.width);
    let d = o.dir;
    let n = (-d.1, d.0);
    [(hl, hw), (hl, -hw), (-hl, -hw), (-hl, hw)]
        .map(|(l, w)| (o.xy.0 + l * d.0 + w * n.0, o.xy.1 + l * d.1 + w * n.1))
}

/// Penetration depth of two rectangles; negative if they are apart.
pub fn penetration(a: &[P; 4], b: &[P; 4]) -> f64 {
    let mut best = f64::INFINITY;
    for r in [a, b] {
        for i in 0..2 {
            let e = sub(r[i + 1], r[i]);
            let l = len(e);
            let n = (-e.1 / l, e.0 / l);
            let span = |r: &[P; 4]| {
                r.iter().map(|p| dot(*p, n)).fold((f64::INFINITY, f64::NEG_INFINITY), |m, v| {
                    (m.0.min(v), m.1.max(v))
                })
            };
            let (x, y) = (span(a), span(b));
            best = best.min(x.1.min(y.1) - x.0.max(y.0));
        }
    }
    best
}

/// A dense polyline of a true curve, for projections and arc lengths.
#[derive(Clone)]
pub struct Poly {
    pub pts: Vec<P>,
    pub cum: Vec<f64>,
}

impl Poly {
    pub fn new(c: &Curve, n: usize) -> Self {
        let pts: Vec<P> = (0..=n).map(|i| c.eval(i as f64 / n as f64)).collect();
        let mut cum = vec![0.0];
        for w in pts.windows(2) {
            cum.push(cum.last().unwrap() + dist(w[0], w[1]));
        }
        Poly { pts, cum }
    }

    pub fn length(&self) -> f64 {
        *self.cum.last().unwrap()
    }

    /// (arc length of the foot point, signed lateral offset [left positive], distance).
    /// Extends the end segments tangentially.
    pub fn project(&self, p: P) -> (f64, f64, f64) {
        let mut best = (0.0, 0.0, f64::INFINITY);
        let m = self.pts.len() - 2;
        for i in 0..=m {
            let (a, b) = (self.pts[i], self.pts[i + 1]);
            let e = sub(b, a);
            let l = len(e);
            if l == 0.0 {
                continue;
            }
            let u = (e.0 / l, e.1 / l);
            let mut s = dot(sub(p, a), u);
            if i > 0 {
                s = s.max(0.0);
            }
            if i < m {
                s = s.min(l);
            }
            let foot = (a.0 + s * u.0, a.1 + s * u.1);
            let d = dist(foot, p);
            if d < best.2 {
                let lat = dot(sub(p, foot), (-u.1, u.0));
                best = (self.cum[i] + s, lat, d);
            }
        }
        best
    }

    /// The point at arc length `s`.
    pub fn at(&self, s: f64) -> P {
        let i = match self.cum.partition_point(|c| *c <= s) {
            0 => 0,
            i => (i - 1).min(self.pts.len() - 2),
        };
        let (a, b) = (self.pts[i], self.pts[i + 1]);
        let l = self.cum[i + 1] - self.cum[i];
        let t = if l > 0.0 { (s - self.cum[i]) / l } else { 0.0 };
        (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))
    }

    /// Unit tangent at arc length `s`.
    pub fn tangent(&self, s: f64) -> P {
        let h = 0.05;
        let (a, b) = (self.at(s - h), self.at(s + h));
        let e = sub(b, a);
        let l = len(e);
        (e.0 / l, e.1 / l)
    }
}
