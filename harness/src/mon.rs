//! Monitors: each watches the observations of a `World` and reports the first which breaks
//! the rule it knows.

use crate::core::{Out, Res};
use crate::drive::{lane_moves, Act};
use crate::ensure;
use crate::geom::*;
use crate::world::*;

/// How a vehicle got from its previous observation to the current one.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Move {
    Stay,
    /// Drove onto the next link.
    Next,
    /// Changed to the given lane (and then maybe drove onto the next link).
    Lane(usize, bool),
    Illegal,
}

pub struct Topology {
    pub lc: Vec<Vec<usize>>,
}

impl Topology {
    pub fn new(net: &Net) -> Self {
        Topology { lc: lane_moves(net) }
    }

    pub fn classify(&self, w: &World, a: &Obs, b: &Obs) -> Move {
        if a.link == b.link && b.pos >= a.pos - 1.0 {
            // A loop back onto the same link is not something the sites have
            return Move::Stay;
        }
        if w.outs[a.link].contains(&b.link) {
            return Move::Next;
        }
        for l in &self.lc[a.link] {
            if *l == b.link {
                return Move::Lane(*l, false);
            }
            if w.outs[*l].contains(&b.link) {
                return Move::Lane(*l, true);
            }
        }
        Move::Illegal
    }
}

/// The position on the link whose sample is nearest to the point, searched around a guess.
pub fn foot(w: &World, link: usize, guess: f64, p: P) -> f64 {
    let curve = w.sim.get_link(w.links[link]).curve();
    let d = |s: f64| {
        let q = curve.sample_centre(s.max(0.0)).pos;
        dist((q.x, q.y), p)
    };
    let (mut lo, mut hi) = (guess - 4.0, guess + 4.0);
    for _ in 0..60 {
        let (a, b) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
        if d(a) < d(b) {
            hi = b;
        } else {
            lo = a;
        }
    }
    0.5 * (lo + hi)
}

/// Speeds, accelerations and distances of one step.
pub fn kinematics(w: &World, topo: &Topology, polys: &[Poly], dt: f64, out: &mut Out) -> Res {
    for k in 0..w.now.len() {
        let (Some(a), Some(b)) = (w.prev[k], w.now[k]) else { continue };
        let at = &w.vehs[k].attrs;
        let ctx = || format!("vehicle {k} at t={:.3}", w.time);
        ensure!(b.vel.is_finite() && b.pos.is_finite(), "{}: speed {} at {}", ctx(), b.vel, b.pos);
        ensure!(b.vel >= 0.0, "{}: drives backwards at {}", ctx(), b.vel);
        let acc = (b.vel - a.vel) / dt;
        ensure!(acc <= at.max_acc + 1e-6, "{}: accelerates at {acc}, limit {}", ctx(), at.max_acc);
        ensure!(acc >= -6.0 - 1e-6, "{}: decelerates at {acc}", ctx());
        let travel = 0.5 * (a.vel + b.vel) * dt;
        let eps = 1e-6;
        match topo.classify(w, &a, &b) {
            Move::Stay => {
                let d = b.pos - a.pos;
                ensure!((d - travel).abs() < eps, "{}: moved {d} m, expected {travel}", ctx());
                out.hit("steps on one link");
                if travel == 0.0 {
                    ensure!(b.pos == a.pos && dist(a.xy, b.xy) < 2e-3 && dist(a.dir, b.dir) < 1e-3, "{}: moved {} m and turned {} while stopped", ctx(), dist(a.xy, b.xy), dist(a.dir, b.dir));
                    out.hit("steps at a standstill");
                }
            }
            Move::Next => {
                let d = b.pos + w.lengths[a.link] - a.pos;
                ensure!((d - travel).abs() < eps, "{}: moved {d} m onto the next link, expected {travel}", ctx());
                out.hit("steps across a link boundary");
            }
            Move::Lane(l, next) => {
                let p = foot(w, l, polys[l].project(a.xy).0, a.xy);
                let d = if next { b.pos + w.lengths[l] - p } else { b.pos - p };
                ensure!((d - travel).abs() < 0.01, "{}: moved {d} m while changing lanes, expected {travel}", ctx());
                out.max("lane change distance error", (d - travel).abs());
                out.hit("steps with a lane change");
            }
            Move::Illegal => return Err(format!("{}: jumped from link {} to {}", ctx(), a.link, b.link)),
        }
    }
    Ok(())
}

/// Vehicles appear, move between links and disappear only as the network allows.
pub struct Accounting {
    topo: Topology,
    live: Vec<bool>,
    /// Time before which an exit at the old destination is still possible.
    pub grace: Vec<(f64, Option<usize>)>,
}

impl Accounting {
    pub fn new(w: &World) -> Self {
        Accounting { topo: Topology::new(&w.net), live: vec![], grace: vec![] }
    }

    pub fn check(&mut self, w: &World, acts: &[Act], dt: f64, out: &mut Out) -> Res {
        for a in acts {
            match a {
                Act::Spawn(k) => {
                    self.live.resize(*k + 1, false);
                    self.live[*k] = true;
                    if w.vehs[*k].removed {
                        continue;
                    }
                    let o = w.prev[*k].ok_or("a vehicle which was added is not listed")?;
                    ensure!(o.pos == 0.0 && o.vel == 0.0 && o.link == w.vehs[*k].spawn_link,
                        "vehicle {k} was added at {} on link {} with speed {}", o.pos, o.link, o.vel);
                }
                Act::Remove(k) => self.live[*k] = false,
                _ => {}
            }
        }
        ensure!(w.strangers == 0, "t={:.3}: {} vehicles nobody added, or listed twice", w.time, w.strangers);
        ensure!(w.sim.frame() == w.frame, "frame count {} after {} steps", w.sim.frame(), w.frame);
        for k in 0..w.now.len() {
            let info = &w.vehs[k];
            match (w.prev[k], w.now[k]) {
                (_, Some(_)) if !self.live[k] => {
                    return Err(format!("t={:.3}: vehicle {k} is listed after it left", w.time));
                }
                (Some(a), Some(b)) => {
                    ensure!(info.id == w.sim.get_vehicle(info.id).id(), "vehicle {k}: lookup by id is wrong");
                    let v = w.sim.get_vehicle(info.id);
                    ensure!(v.width() == info.attrs.width && v.length() == info.attrs.length,
                        "vehicle {k} changed its dimensions");
                    ensure!(v.pos_mid() == b.pos && (v.pos_front() - b.pos - 0.5 * info.attrs.length).abs() < 1e-9
                        && (b.pos - v.pos_rear() - 0.5 * info.attrs.length).abs() < 1e-9, "vehicle {k}: front/rear positions");
                    ensure!(v.has_stopped() == (b.vel < 0.1), "vehicle {k}: stopped flag at speed {}", b.vel);
                    let reach = a.pos + (a.vel + 0.5 * info.attrs.max_acc * dt) * dt + 1e-6;
                    let m = self.topo.classify(w, &a, &b);
                    match m {
                        Move::Stay => {}
                        Move::Next => {
                            ensure!(reach >= w.lengths[a.link], "t={:.3}: vehicle {k} left link {} at {} of {}", w.time, a.link, a.pos, w.lengths[a.link]);
                            out.hit("links entered");
                        }
                        Move::Lane(..) => out.hit("lane changes"),
                        Move::Illegal => return Err(format!("t={:.3}: vehicle {k} went from link {} to {}, which it does not lead to", w.time, a.link, b.link)),
                    }
                    ensure!(b.pos <= w.lengths[b.link] + 1e-6 && b.pos > -6.0,
                        "t={:.3}: vehicle {k} is at {} on link {} of length {}", w.time, b.pos, b.link, w.lengths[b.link]);
                }
                (Some(a), None) if self.live[k] => {
                    // It left: only possible at the end of its destination
                    self.live[k] = false;
                    let reach = a.pos + (a.vel + 0.5 * info.attrs.max_acc * dt) * dt + 1e-6;
                    let dst = info.dst;
                    ensure!(Some(a.link) == dst, "t={:.3}: vehicle {k} vanished from link {} (destination {dst:?})", w.time, a.link);
                    ensure!(reach >= w.lengths[a.link], "t={:.3}: vehicle {k} vanished {} m before the end", w.time, w.lengths[a.link] - a.pos);
                    out.hit("exits");
                }
                _ => {}
            }
        }
        let n = w.sim.iter_vehicles().count();
        let m = self.live.iter().filter(|x| **x).count();
        ensure!(n == m, "t={:.3}: {n} vehicles listed, {m} expected", w.time);
        out.add("vehicle steps", n as u64);
        Ok(())
    }
}

/// World coordinates against link coordinates.
pub struct Pose {
    topo: Topology,
    polys: Vec<Poly>,
    /// Distance left until any lane change has finished.
    lateral: Vec<f64>,
    /// Distance driven along straight centre line since anything disturbed the heading.
    straight: Vec<f64>,
}

impl Pose {
    pub fn new(w: &World, polys: &[Poly]) -> Self {
        Pose { topo: Topology::new(&w.net), polys: polys.to_vec(), lateral: vec![], straight: vec![] }
    }

    pub fn check(&mut self, w: &World, acts: &[Act], dt: f64, out: &mut Out) -> Res {
        self.lateral.resize(w.now.len(), 0.0);
        self.straight.resize(w.now.len(), 0.0);
        for a in acts {
            if let Act::LaneChange { key, dist, .. } = a {
                self.lateral[*key] = *dist;
            }
        }
        for k in 0..w.now.len() {
            let Some(b) = w.now[k] else { continue };
            let at = &w.vehs[k].attrs;
            let id = || format!("vehicle {k} at t={:.3}", w.time);
            let finite = [b.xy.0, b.xy.1, b.dir.0, b.dir.1, b.rear[0].0, b.rear[0].1, b.rear[1].0, b.rear[1].1];
            ensure!(finite.iter().all(|x| x.is_finite()), "{}: coordinates are not finite: {finite:?}", id());
            ensure!((len(b.dir) - 1.0).abs() < 1e-9, "{}: heading has length {}", id(), len(b.dir));

            let mut travel = 0.0;
            if let Some(a) = w.prev[k] {
                travel = 0.5 * (a.vel + b.vel) * dt;
                if let Move::Lane(..) = self.topo.classify(w, &a, &b) {
                    self.lateral[k] = 30.0;
                    out.hit("automatic lane changes");
                }
                self.lateral[k] -= travel;
                // The centre moves by the distance travelled, apart from the sideways part
                let d = dist(a.xy, b.xy);
                let slack = if self.lateral[k] > -1.0 { 0.3 + 0.35 * travel } else { 0.03 + 0.05 * travel };
                ensure!(d <= travel + slack, "{}: jumped {d} m while travelling {travel}", id());
                ensure!(a.link != b.link || d >= 0.9 * travel - 0.05, "{}: moved {d} m while travelling {travel}", id());
                // The rear axle is pulled along: the new heading points from where it was
                let ax = (a.xy.0 - at.wheel_base * a.dir.0, a.xy.1 - at.wheel_base * a.dir.1);
                let v = sub(b.xy, ax);
                let e = (v.0 / len(v) - b.dir.0, v.1 / len(v) - b.dir.1);
                ensure!(len(e) < 1e-6, "{}: heading is off by {}", id(), len(e));
                out.hit("headings compared");
            }

            let link = w.sim.get_link(w.links[b.link]);
            let c = link.curve().sample_centre(b.pos);
            let (cp, tan) = ((c.pos.x, c.pos.y), (c.tan.x, c.tan.y));
            let perp = (-tan.1, tan.0);
            let rel = sub(b.xy, cp);
            let (lon, lat) = (dot(rel, tan), dot(rel, perp));
            ensure!(lon.abs() < 1e-6, "{}: centre is {lon} m away from its link position", id());
            if self.lateral[k] < -1e-6 {
                ensure!(lat.abs() < 1e-6, "{}: centre is {lat} m beside the lane", id());
                // Against the true curve, not the crate's approximation of it
                let poly = &self.polys[b.link];
                let (s, l, _) = poly.project(b.xy);
                ensure!(l.abs() < 0.02, "{}: centre is {l} m off the true centre line", id());
                let tol = 0.02 + 0.012 * b.pos.abs();
                ensure!((s - b.pos).abs() < tol, "{}: is {s} m along the true curve but reports {}", id(), b.pos);
                out.hit("centres compared with the true curve");
                if matches!(w.net.links[b.link].curve, Curve::Line(..)) && travel > 0.0 {
                    self.straight[k] += travel;
                } else if travel > 0.0 {
                    self.straight[k] = 0.0;
                }
                if w.prev[k].map(|a| a.link) != Some(b.link) {
                    self.straight[k] = 0.0;
                }
                if self.straight[k] > 12.0 * at.wheel_base {
                    ensure!(dot(b.dir, tan) > 0.99995, "{}: heading is not along the straight lane", id());
                    out.hit("headings on straights");
                }
            } else {
                self.straight[k] = 0.0;
                out.hit("poses during lane changes");
            }
            // The line behind the vehicle which followers use
            for r in &b.rear {
                let behind = dot(sub(*r, cp), tan);
                ensure!((behind + 0.5 * at.length).abs() < 1e-6, "{}: rear line is {behind} m from the centre", id());
            }
            let (r0, r1) = (dot(sub(b.rear[0], cp), perp), dot(sub(b.rear[1], cp), perp));
            let body = [lat - 0.5 * at.width, lat + 0.5 * at.width];
            // It covers the vehicle's own tail
            let tail = lat - dot(b.dir, perp) * 0.5 * at.length;
            ensure!(r0 <= tail - 0.5 * at.width + 1e-6 && r1 >= tail + 0.5 * at.width - 1e-6,
                "{}: rear line {r0}..{r1} does not cover the tail at {tail}", id());
            ensure!(r1 - r0 <= at.width + lat.abs() + 0.5 * at.length * dot(b.dir, perp).abs() + 1e-6,
                "{}: rear line {r0}..{r1} is too wide for {body:?}", id());
        }
        Ok(())
    }
}

/// The deepest overlap of any two vehicles' footprints.
pub fn worst_overlap(w: &World) -> Option<(f64, Key, Key)> {
    let ks = w.live_keys();
    let rects: Vec<_> = ks.iter().map(|k| rect(&w.now[*k].unwrap(), &w.vehs[*k].attrs)).collect();
    let mut best: Option<(f64, Key, Key)> = None;
    for i in 0..ks.len() {
        for j in 0..i {
            let (a, b) = (w.now[ks[i]].unwrap(), w.now[ks[j]].unwrap());
            if dist(a.xy, b.xy) < 20.0 {
                let p = penetration(&rects[i], &rects[j]);
                if best.map_or(true, |x| p > x.0) {
                    best = Some((p, ks[i], ks[j]));
                }
            }
        }
    }
    best
}
