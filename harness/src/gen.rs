//! Generators of road networks and workloads.

use crate::rng::Rng;
use crate::world::*;
use std::f64::consts::{FRAC_PI_2, PI};

/// Draws tangent-continuous curves.
#[derive(Clone, Copy, Debug)]
pub struct Turtle {
    pub p: P,
    pub h: f64,
}

impl Turtle {
    pub fn new(p: P, h: f64) -> Self {
        Turtle { p, h }
    }
    pub fn ahead(&self, d: f64) -> P {
        (self.p.0 + d * self.h.cos(), self.p.1 + d * self.h.sin())
    }
    pub fn left(&self, d: f64) -> P {
        let h = self.h + FRAC_PI_2;
        (self.p.0 + d * h.cos(), self.p.1 + d * h.sin())
    }
    pub fn line(&mut self, len: f64) -> Curve {
        let q = self.ahead(len);
        let c = Curve::Line(self.p, q);
        self.p = q;
        c
    }
    /// Positive sweep turns left.
    pub fn arc(&mut self, r: f64, sweep: f64) -> Curve {
        let s = sweep.signum();
        let centre = self.left(s * r);
        let a0 = self.h - s * FRAC_PI_2;
        let arc = Arc { centre, r, a0, sweep };
        self.h += sweep;
        self.p = (centre.0 + r * (a0 + sweep).cos(), centre.1 + r * (a0 + sweep).sin());
        Curve::Arc(arc)
    }
    /// A cubic bezier of roughly length `len` turning by `turn`.
    pub fn cubic(&mut self, len: f64, turn: f64) -> Curve {
        let p0 = self.p;
        let p1 = self.ahead(len / 3.0);
        let mid = self.h + 0.5 * turn;
        let p3 = (p0.0 + len * mid.cos(), p0.1 + len * mid.sin());
        let h3 = self.h + turn;
        let p2 = (p3.0 - len / 3.0 * h3.cos(), p3.1 - len / 3.0 * h3.sin());
        self.p = p3;
        self.h = h3;
        Curve::Cubic([p0, p1, p2, p3])
    }
    pub fn quad(&mut self, len: f64, turn: f64) -> Curve {
        let p0 = self.p;
        let p1 = self.ahead(0.5 * len);
        let h = self.h + turn;
        let p2 = (p1.0 + 0.5 * len * h.cos(), p1.1 + 0.5 * len * h.sin());
        self.p = p2;
        self.h = h;
        Curve::Quad([p0, p1, p2])
    }
    /// A random gentle piece of road of about `len` metres.
    pub fn random(&mut self, rng: &mut Rng, len: f64) -> Curve {
        match rng.i(0, 4) {
            0 | 1 => self.line(len),
            2 => {
                let r = rng.f(20.0, 120.0);
                let sweep = (len / r).min(2.0);
                let r = len / sweep;
                let s = if rng.chance(0.5) { 1.0 } else { -1.0 };
                self.arc(r, s * sweep)
            }
            3 => {
                let t = rng.f(-0.9, 0.9) * (len / 40.0).min(1.0);
                self.cubic(len, t)
            }
            _ => {
                let t = rng.f(-0.7, 0.7) * (len / 40.0).min(1.0);
                self.quad(len, t)
            }
        }
    }
}

pub fn random_attrs(rng: &mut Rng) -> Attrs {
    if rng.chance(0.2) {
        // Truck or bus
        Attrs {
            width: rng.f(2.2, 2.6),
            length: rng.f(7.0, 14.0),
            wheel_base: rng.f(2.0, 4.0),
            headway: rng.f(1.4, 2.2),
            max_acc: rng.f(0.9, 1.6),
            comf_dec: rng.f(1.8, 2.6),
        }
    } else {
        Attrs {
            width: rng.f(1.6, 2.1),
            length: rng.f(3.5, 5.5),
            wheel_base: rng.f(1.0, 2.0),
            headway: rng.f(1.1, 2.0),
            max_acc: rng.f(1.2, 3.0),
            comf_dec: rng.f(1.8, 3.0),
        }
    }
}

/// A chain of tangent-continuous links.
pub fn chain(rng: &mut Rng, n: usize, len: (f64, f64), limit: (f64, f64)) -> Net {
    let mut t = Turtle::new((rng.f(-500.0, 500.0), rng.f(-500.0, 500.0)), rng.f(-PI, PI));
    let mut net = Net::default();
    for i in 0..n {
        let l = rng.f(len.0, len.1);
        let curve = t.random(rng, l);
        net.links.push(LinkSpec { curve, limit: rng.f(limit.0, limit.1) });
        if i > 0 {
            net.conns.push((i - 1, i));
        }
    }
    net
}

/// A four-arm junction. Link layout is returned for the workload generator.
#[derive(Clone, Debug, Default)]
pub struct Junction {
    pub net: Net,
    /// Approach link of each arm.
    pub approach: Vec<usize>,
    /// Exit link of each arm.
    pub exit: Vec<usize>,
    /// (from arm, to arm, link)
    pub moves: Vec<(usize, usize, usize)>,
}

/// Left-hand traffic or right-hand traffic does not matter to the crate; this uses right-hand.
pub fn junction(rng: &mut Rng, arms: usize, box_half: f64, turns: bool) -> Junction {
    let mut j = Junction::default();
    let limit = rng.f(9.0, 17.0);
    let (app, exl) = (rng.f(80.0, 160.0), rng.f(60.0, 120.0));
    let off = 1.9;
    let mut apps = vec![];
    let mut exits = vec![];
    for a in 0..arms {
        // Arm `a` lies in direction `ang` from the centre; vehicles approach heading `ang + PI`.
        let ang = a as f64 * FRAC_PI_2;
        let h = ang + PI;
        let base = Turtle::new((box_half * ang.cos(), box_half * ang.sin()), h);
        // Drive on the right of the heading
        let stop = base.left(-off);
        let start = Turtle::new(stop, h).ahead(-app);
        apps.push((start, stop, h));
        let out_base = Turtle::new((box_half * ang.cos(), box_half * ang.sin()), ang);
        let es = out_base.left(-off);
        let ee = Turtle::new(es, ang).ahead(exl);
        exits.push((es, ee, ang));
    }
    for (s, e, _) in &apps {
        j.approach.push(j.net.links.len());
        j.net.links.push(LinkSpec { curve: Curve::Line(*s, *e), limit });
    }
    for (s, e, _) in &exits {
        j.exit.push(j.net.links.len());
        j.net.links.push(LinkSpec { curve: Curve::Line(*s, *e), limit });
    }
    for a in 0..arms {
        for b in 0..arms {
            if a == b {
                continue;
            }
            let straight = (a + 2) % 4 == b;
            if !straight && !turns {
                continue;
            }
            let (_, s, h) = apps[a];
            let (e, _, g) = exits[b];
            let d = dist(s, e);
            let curve = if straight {
                Curve::Line(s, e)
            } else {
                let k = 0.40 * d;
                Curve::Cubic([
                    s,
                    (s.0 + k * h.cos(), s.1 + k * h.sin()),
                    (e.0 - k * g.cos(), e.1 - k * g.sin()),
                    e,
                ])
            };
            let l = j.net.links.len();
            let lim = if straight { limit } else { rng.f(6.0, 8.0) };
            j.net.links.push(LinkSpec { curve, limit: lim });
            j.net.conns.push((j.approach[a], l));
            j.net.conns.push((l, j.exit[b]));
            j.moves.push((a, b, l));
        }
    }
    j
}
