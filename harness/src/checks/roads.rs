//! The centre lines of links, and predictions made along them.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::geom::{dot, len, sub, Poly};
use crate::rng::Rng;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::math::{ParametricCurve2d, Point2d, Vector2d};
use traffic_sim::{LinkAttributes, Simulation};

fn xy(p: Point2d) -> P {
    (p.x, p.y)
}

fn v(p: Vector2d) -> P {
    (p.x, p.y)
}

/// A user's own curve which only says where it is, not how it bends, and runs over odd bounds.
struct Odd {
    curve: Curve,
    from: f64,
    to: f64,
}

impl ParametricCurve2d for Odd {
    fn sample(&self, t: f64) -> Point2d {
        pt(self.curve.eval((t - self.from) / (self.to - self.from)))
    }
    fn bounds(&self) -> traffic_sim::Interval<f64> {
        traffic_sim::Interval::new(self.from, self.to)
    }
}

fn centre_line(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let mut t = Turtle::new((rng.f(-900.0, 900.0), rng.f(-900.0, 900.0)), rng.f(-PI, PI));
    // Lengths of any fraction of the pitch the curve is built with, down to a few of them
    let want = if rng.chance(0.15) { rng.f(0.6, 6.0) } else { rng.f(6.0, 250.0) };
    let curve = if want < 6.0 {
        if rng.chance(0.5) { t.line(want) } else { let a = rng.f(-0.3, 0.3); t.arc(want / a.abs(), a) }
    } else {
        t.random(rng, want)
    };
    out.sample = format!("{curve:?}").chars().take(120).collect();
    let mut sim = Simulation::new();
    let (limit, odd) = (rng.f(3.0, 30.0), rng.chance(0.3));
    let id = if odd {
        let from = rng.f(-10.0, 10.0);
        let c = Odd { curve: curve.clone(), from, to: from + rng.f(0.2, 50.0) };
        sim.add_link(&LinkAttributes { curve: &c, speed_limit: limit })
    } else {
        sim.add_link(&LinkAttributes { curve: &*curve.boxed(), speed_limit: limit })
    };
    let link = sim.get_link(id);
    let c = link.curve();
    let l = link.length();
    let poly = Poly::new(&curve, 1500);
    let straight = matches!(curve, Curve::Line(..));

    ensure!(l == c.length(), "the link is {l} m long, its curve {}", c.length());
    let err = (l - poly.length()).abs();
    // The points along the curve are spaced to within one per cent
    ensure!(err < 0.0105 * poly.length() + 0.002, "a road of {} m has become a link of {l} m", poly.length());
    if straight {
        ensure!(err < 1e-6 * l + 2e-3, "a straight of {} m has become a link of {l} m", poly.length());
    }
    out.max("relative error of length", err / l);
    ensure!(dist(xy(c.sample_centre(0.0).pos), curve.eval(0.0)) < 1e-6, "a link does not start where its road does");
    let end = dist(xy(c.sample_centre(l).pos), curve.eval(1.0));
    ensure!(end < 0.02, "a link ends {end} m from where its road does");
    out.max("distance at the end", end);

    let mut last: Option<(f64, P)> = None;
    let n = (l / 0.37).ceil() as usize;
    for i in 0..=n {
        let pos = l * i as f64 / n as f64;
        let s = c.sample_centre(pos);
        let (p, tan) = (xy(s.pos), v(s.tan));
        let (arc, _, d) = poly.project(p);
        ensure!(d < 0.03, "at {pos} m a link is {d} m beside its road");
        out.max("distance from the road", d);
        ensure!((arc - pos).abs() < 0.0105 * pos + 0.03, "at {pos} m a link is {arc} m along its road");
        ensure!((len(tan) - 1.0).abs() < 1e-9, "a tangent has length {}", len(tan));
        let true_tan = poly.tangent(arc.clamp(0.06, (poly.length() - 0.06).max(0.06)));
        let cos = dot(tan, true_tan);
        ensure!(cos > 0.998, "at {pos} m of {l} the direction of a link differs from its road's: {cos}");
        if let Some((q, o)) = last {
            let moved = dist(p, o);
            ensure!((moved - (pos - q)).abs() < 0.03 * (pos - q) + 1e-6, "{} m along a link are {moved} m", pos - q);
        }
        last = Some((pos, p));
        // Beside the centre line, left is positive
        let off = rng.f(-6.0, 6.0);
        let o = c.sample(pos, off);
        let normal = (-tan.1, tan.0);
        let expect = (p.0 + off * normal.0, p.1 + off * normal.1);
        ensure!(dist(xy(o.pos), expect) < 1e-9 * (1.0 + len(p)), "{off} m beside a link at {pos} is {:?}", o.pos);
        ensure!(dist(v(o.tan), tan) < 1e-12, "the direction beside a link is another");
        ensure!(dist(xy(s.lat_offset(off)), expect) < 1e-9 * (1.0 + len(p)), "{off} m to the side of a sample is {:?}", s.lat_offset(off));
        let ahead = (p.0 + off * tan.0, p.1 + off * tan.1);
        ensure!(dist(xy(s.long_offset(off)), ahead) < 1e-9 * (1.0 + len(p)), "{off} m ahead of a sample is {:?}", s.long_offset(off));
        ensure!(dist(xy(ParametricCurve2d::sample(c, pos)), p) < 1e-12, "the same curve sampled in two ways differs");
        let dt = v(c.sample_dt(pos));
        ensure!((len(dt) - 1.0).abs() < 0.06, "the speed along a link is {}", len(dt));
        out.hit("points compared");
    }
    ensure!(c.bounds().min == 0.0 && c.bounds().max == l, "the bounds of a link's curve are {:?}", c.bounds());

    // Back from a point beside the link to its position
    if l > 6.0 {
        for _ in 0..6 {
            let pos = rng.f(0.8, l - 0.8);
            let off = rng.f(-4.0, 4.0);
            let ang = rng.f(-0.6, 0.6);
            let s = c.sample(pos, off);
            let tan = v(s.tan);
            let dir = Vector2d::new(tan.0 * ang.cos() - tan.1 * ang.sin(), tan.0 * ang.sin() + tan.1 * ang.cos());
            let Some((p, o, slope)) = c.inverse_sample(s.pos, dir) else {
                return Err(format!("a point {off} m beside a link at {pos} is not found again"));
            };
            let back = xy(c.sample(p, o).pos);
            ensure!(dist(back, xy(s.pos)) < 0.01, "a point {off} m beside a link at {pos} is found at {o} m beside {p}");
            ensure!((p - pos).abs() < 0.2 && (o - off).abs() < 0.05, "a point {off} m beside a link at {pos} is found at {o} m beside {p}");
            // Moving along the offset curve with that slope is moving in that direction
            let h = 0.3;
            let (a, b) = (xy(c.sample(p - h, o - h * slope).pos), xy(c.sample(p + h, o + h * slope).pos));
            let m = sub(b, a);
            let cos = dot(m, v(dir)) / len(m);
            if straight {
                ensure!((slope - ang.tan()).abs() < 1e-3, "heading off a straight at an angle of {ang} is a slope of {slope}");
            }
            ensure!(cos > 0.995, "a slope of {slope} is found for a heading of {ang} at {pos}, {off} m beside the link: {cos}");
            out.hit("points found again");
        }
    }
    out.nontrivial = true;
    out.sig = crate::core::hash(&[l.to_bits(), limit.to_bits()]);
    Ok(())
}

/// How long a vehicle needs at least, against a numerical integration.
fn arrival(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let mut net = Net::default();
    let limit = rng.f(6.0, 30.0);
    net.links.push(LinkSpec { curve: Curve::Line((0.0, 0.0), (600.0, 0.0)), limit });
    let mut w = World::new(net);
    let attrs = random_attrs(rng);
    let k = w.spawn(attrs, 0, Some(0));
    let dt = rng.pick(&DTS);
    out.sample = format!("max_acc={:.2} limit={limit:.1}", attrs.max_acc);
    let id = w.vehs[k].id;
    let steps = rng.i(0, (25.0 / dt) as usize);
    for i in 0..=steps {
        if i > 0 {
            w.step(dt);
        }
        let Some(o) = w.now[k] else { break };
        if i != steps && !rng.chance(0.05) {
            continue;
        }
        for _ in 0..4 {
            let d = if rng.chance(0.1) { rng.f(-50.0, 0.0) } else { rng.f(0.0, 300.0) };
            // From the speed it has upwards
            let max_vel = if rng.chance(0.1) { f64::max(o.vel, 0.5) } else { f64::max(o.vel, 0.5) + rng.f(0.0, 40.0) };
            let got = w.sim.get_vehicle(id).min_reach_time(o.pos + d, max_vel);
            // Accelerating at the maximum rate up to that speed and then keeping it
            let (mut t, mut x, mut vel) = (0.0, 0.0, o.vel);
            let h = 0.002;
            while x < d {
                let nv = f64::min(vel + h * attrs.max_acc, max_vel);
                let dx = 0.5 * (vel + nv) * h;
                if x + dx >= d {
                    t += h * (d - x) / dx;
                    break;
                }
                t += h;
                x += dx;
                vel = nv;
            }
            ensure!((got - t).abs() < 0.01 + 0.001 * t, "{d} m at {} m/s, at most {max_vel} m/s and {} m/s², are said to take {got} s, they take {t} s", o.vel, attrs.max_acc);
            out.hit(if d <= 0.0 { "places already reached" } else if vel < max_vel { "arrivals while accelerating" } else { "arrivals at full speed" });
        }
    }
    out.nontrivial = true;
    out.sig = w.sig ^ limit.to_bits();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C16",
            rule: "A random road of 0.6 to 250 m, given as a line, arc, quadratic or cubic curve or a user's own curve with arbitrary parameterisation, is made a link and compared with the road at every 0.37 m. Every case is non-trivial.",
            cases: [18_000, 750_000],
            need: &[("points compared", 500_000), ("points found again", 20_000)],
            run: centre_line, post: no_post,
        },
        Check {
            id: "C20",
            rule: "A vehicle driving on a straight is asked at random moments for its earliest arrival at random places and top speeds; compared with a numerical integration. Every case is non-trivial.",
            cases: [12_000, 500_000],
            need: &[("arrivals while accelerating", 5_000), ("arrivals at full speed", 5_000), ("places already reached", 1_000)],
            run: arrival, post: no_post,
        },
    ]
}
