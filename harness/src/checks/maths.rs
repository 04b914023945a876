//! The mathematical building blocks, which are public, against independent calculations.

use crate::core::{hash, no_post, Check, Out, Res};
use crate::ensure;
use crate::gen::Turtle;
use crate::rng::Rng;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::math::*;
use traffic_sim::Interval;

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

fn near(a: Point2d, b: P, tol: f64) -> bool {
    dist((a.x, a.y), b) <= tol
}

fn any_point(rng: &mut Rng, s: f64) -> P {
    (rng.f(-s, s), rng.f(-s, s))
}

fn cubic_fn(rng: &mut Rng, out: &mut Out) -> Res {
    let (x1, y1, d1) = (rng.f(-100.0, 100.0), rng.f(-10.0, 10.0), rng.f(-2.0, 2.0));
    let w = rng.f(0.5, 80.0) * if rng.chance(0.2) { -1.0 } else { 1.0 };
    let (x2, y2, d2) = (x1 + w, rng.f(-10.0, 10.0), rng.f(-2.0, 2.0));
    let f = CubicFn::fit(x1, y1, d1, x2, y2, d2);
    // Hermite basis
    let h = |x: f64| {
        let t = (x - x1) / w;
        let (t2, t3) = (t * t, t * t * t);
        (2.0 * t3 - 3.0 * t2 + 1.0) * y1
            + (t3 - 2.0 * t2 + t) * w * d1
            + (-2.0 * t3 + 3.0 * t2) * y2
            + (t3 - t2) * w * d2
    };
    let hd = |x: f64| {
        let t = (x - x1) / w;
        let t2 = t * t;
        (6.0 * t2 - 6.0 * t) * y1 / w + (3.0 * t2 - 4.0 * t + 1.0) * d1 + (-6.0 * t2 + 6.0 * t) * y2 / w + (3.0 * t2 - 2.0 * t) * d2
    };
    let shift = rng.f(-50.0, 50.0);
    let (g, y) = (f.translate_x(shift), rng.f(-50.0, 50.0));
    let k = CubicFn::constant(y);
    let scale = 1.0 + y1.abs() + y2.abs() + w.abs() * (d1.abs() + d2.abs());
    for _ in 0..8 {
        let x = x1 + w * rng.f(-0.3, 1.3);
        ensure!(close(f.y(x), h(x), 1e-7 * scale), "a fitted cubic is {} at {x}, {} is right", f.y(x), h(x));
        ensure!(close(f.dy(x), hd(x), 1e-6 * scale), "the slope of a fitted cubic is {} at {x}, {} is right", f.dy(x), hd(x));
        let (a, b) = f.y_and_dy(x);
        ensure!(a == f.y(x) && b == f.dy(x), "value and slope differ depending on how they are asked for");
        // Translated to the left: g(x) = f(x + shift)
        let z = x - shift;
        ensure!(close(g.y(z), h(x), 1e-7 * scale) && close(g.dy(z), hd(x), 1e-6 * scale), "a translated cubic is {} at {z}, {} is right", g.y(z), h(x));
        let g2 = g.translate_x(-shift);
        ensure!(close(g2.y(x), h(x), 1e-7 * scale), "translating there and back gives {} instead of {}", g2.y(x), h(x));
        ensure!(k.y(x) == y && k.dy(x) == 0.0, "a constant is {} with slope {}", k.y(x), k.dy(x));
        out.hit("values of cubics");
    }
    Ok(())
}

fn beziers(rng: &mut Rng, out: &mut Out) -> Res {
    let s = rng.f(1.0, 200.0);
    let p = [0; 4].map(|_| any_point(rng, s));
    let c4 = CubicBezier2d::new(&p.map(pt));
    let c3 = QuadraticBezier2d::new(&[p[0], p[1], p[2]].map(pt));
    let l4 = CubicBezier2d::line(pt(p[0]), pt(p[1]));
    let q4 = CubicBezier2d::quadratic(&[p[0], p[1], p[2]].map(pt));
    let ls = LineSegment2d::from_ends(pt(p[0]), pt(p[1]));
    let mut rev = c4;
    rev.reverse();
    let at = rng.f(0.0, 1.0);
    let [a, b] = c4.subdivide(at);
    let (e4, e3, e2) = (Curve::Cubic(p), Curve::Quad([p[0], p[1], p[2]]), Curve::Line(p[0], p[1]));
    let tol = 1e-9 * s;
    ensure!(near(ls.start(), p[0], tol) && near(ls.end(), p[1], tol), "a line segment from {:?} to {:?}", ls.start(), ls.end());
    ensure!(c4.bounds() == Interval::new(0.0, 1.0) && c3.bounds() == Interval::new(0.0, 1.0), "the bounds of a bezier curve are not 0 and 1");
    ensure!(ls.bounds().min == 0.0 && close(ls.bounds().max, dist(p[0], p[1]), tol), "the bounds of a line are {:?}", ls.bounds());
    for i in 0..6 {
        let t = if i < 2 { i as f64 } else { rng.f(0.0, 1.0) };
        ensure!(near(c4.sample(t), e4.eval(t), tol), "a cubic curve at {t} is {:?}, really {:?}", c4.sample(t), e4.eval(t));
        ensure!(near(c3.sample(t), e3.eval(t), tol), "a quadratic curve at {t} is {:?}, really {:?}", c3.sample(t), e3.eval(t));
        ensure!(near(l4.sample(t), e2.eval(t), tol), "a straight cubic at {t} is {:?}, really {:?}", l4.sample(t), e2.eval(t));
        ensure!(near(q4.sample(t), e3.eval(t), tol), "a quadratic as cubic at {t} is {:?}, really {:?}", q4.sample(t), e3.eval(t));
        ensure!(near(ls.sample(t * ls.bounds().max), e2.eval(t), tol), "a line at {t} is {:?}", ls.sample(t));
        ensure!(near(rev.sample(t), e4.eval(1.0 - t), tol), "a reversed curve at {t} is {:?}", rev.sample(t));
        ensure!(near(a.sample(t), e4.eval(at * t), tol), "the first part of a divided curve at {t} is {:?}", a.sample(t));
        ensure!(near(b.sample(t), e4.eval(at + (1.0 - at) * t), tol), "the second part of a divided curve at {t} is {:?}", b.sample(t));
        // Derivatives by central differences, exact enough for polynomials of low degree
        let h = 1e-4;
        let num = |f: &dyn Fn(f64) -> P| {
            let (x, y) = (f(t + h), f(t - h));
            ((x.0 - y.0) / (2.0 * h), (x.1 - y.1) / (2.0 * h))
        };
        let d4 = c4.sample_dt(t);
        let d3 = c3.sample_dt(t);
        ensure!(near(Point2d::new(d4.x, d4.y), num(&|t| e4.eval(t)), 1e-5 * s), "the derivative of a cubic curve at {t} is {d4:?}");
        ensure!(near(Point2d::new(d3.x, d3.y), num(&|t| e3.eval(t)), 1e-5 * s), "the derivative of a quadratic curve at {t} is {d3:?}");
        let dd3 = c3.sample_dt2(t);
        let want = (2.0 * (p[0].0 - 2.0 * p[1].0 + p[2].0), 2.0 * (p[0].1 - 2.0 * p[1].1 + p[2].1));
        ensure!(near(Point2d::new(dd3.x, dd3.y), want, 1e-8 * s), "the second derivative of a quadratic curve is {dd3:?}, {want:?} is right");
        // The generic second derivative is a forward difference
        let dd4 = c4.sample_dt2(t);
        let six = |a: f64, b: f64, c: f64, d: f64| 6.0 * ((1.0 - t) * (a - 2.0 * b + c) + t * (b - 2.0 * c + d));
        let want = (six(p[0].0, p[1].0, p[2].0, p[3].0), six(p[0].1, p[1].1, p[2].1, p[3].1));
        ensure!(near(Point2d::new(dd4.x, dd4.y), want, 1e-2 * s), "the second derivative of a cubic curve is {dd4:?}, {want:?} is right");
        let dl = ls.sample_dt(t);
        ensure!(close(dl.x * dl.x + dl.y * dl.y, 1.0, 1e-9), "the derivative of a line has the wrong length");
        out.hit("points of curves");
    }
    Ok(())
}

/// A road-like curve, bending by less than a quarter circle.
fn road(rng: &mut Rng) -> Curve {
    let start = any_point(rng, 300.0);
    let mut t = Turtle::new(start, rng.f(-PI, PI));
    let len = rng.f(5.0, 150.0);
    match rng.i(0, 3) {
        0 => t.line(len),
        1 => { let a = rng.f(-1.4, 1.4); t.quad(len, a) }
        2 => { let a = rng.f(-1.4, 1.4); t.cubic(len, a) }
        _ => {
            let sweep = rng.f(0.05, 1.5) * if rng.chance(0.5) { 1.0 } else { -1.0 };
            t.arc(len / sweep.abs(), sweep)
        }
    }
}

fn sampled(curve: &Curve, n: usize) -> Vec<P> {
    (0..=n).map(|i| curve.eval(i as f64 / n as f64)).collect()
}

fn seg_dist(p: P, a: P, b: P) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let t = if l2 > 0.0 { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l2).clamp(0.0, 1.0) } else { 0.0 };
    dist(p, (a.0 + t * dx, a.1 + t * dy))
}

fn poly_dist(p: P, poly: &[P]) -> f64 {
    poly.windows(2).map(|w| seg_dist(p, w[0], w[1])).fold(f64::INFINITY, f64::min)
}

fn sampling(rng: &mut Rng, out: &mut Out) -> Res {
    let curve = road(rng);
    let real = curve.boxed();
    let real = &*real;
    let poly = sampled(&curve, 600);
    let len = curve.true_length_fast();

    // Evenly spaced points
    let step = rng.f(0.3, 4.0).min(len / 5.0);
    let (points, total) = equidistant_points_along_curve(&real, step);
    ensure!(close(total, len, 0.015 * len + 1e-6), "a curve {len} m long is found to be {total} m long");
    ensure!(near(points[0], curve.eval(0.0), 1e-6), "the first of the evenly spaced points is not the start");
    let n = points.len();
    for (i, w) in points.windows(2).enumerate() {
        let d = dist((w[0].x, w[0].y), (w[1].x, w[1].y));
        ensure!(close(d, step, 0.0101 * step), "evenly spaced points are {d} apart at {i} of {n}, not {step}");
    }
    for p in &points[..n - 1] {
        ensure!(poly_dist((p.x, p.y), &poly) < 1e-3 * len, "an evenly spaced point is off the curve");
    }
    // The last point lies beyond the end, or on it, in the direction of the end
    let (q, end) = (points[n - 1], curve.eval(1.0));
    ensure!(n == 1 || seg_dist(end, (points[n - 2].x, points[n - 2].y), (q.x, q.y)) < 0.01 * step + 1e-6, "the evenly spaced points do not reach the end");
    out.hit("curves evenly divided");

    // Subdivision
    let max = rng.f(0.2, 30.0);
    let subs: Vec<(f64, Point2d)> = subdivided_samples_along_curve(&real, max).collect();
    let pts = subdivided_points_along_curve(&real, max);
    let b = real.bounds();
    ensure!(subs.len() == pts.len() && subs.iter().zip(&pts).all(|(a, b)| a.1 == *b), "the two ways to subdivide a curve differ");
    ensure!(subs[0].0 == b.min && subs[subs.len() - 1].0 == b.max, "a subdivided curve runs from {} to {}", subs[0].0, subs[subs.len() - 1].0);
    for (t, p) in &subs {
        let u = (t - b.min) / (b.max - b.min);
        ensure!(near(*p, curve.eval(u), 1e-6), "a subdivided curve is at {p:?} at {t}");
    }
    for w in subs.windows(2) {
        ensure!(w[0].0 < w[1].0, "the points of a subdivided curve are out of order");
        let d = dist((w[0].1.x, w[0].1.y), (w[1].1.x, w[1].1.y));
        ensure!(d <= max + 1e-9, "the points of a subdivided curve are {d} apart, more than {max}");
    }
    out.hit("curves subdivided");

    // Projection: from a point beside the curve back onto it
    let (u, side) = (rng.f(0.02, 0.98), rng.f(-1.0, 1.0));
    let (p, q) = (curve.eval(u - 1e-5), curve.eval(u + 1e-5));
    let d = dist(p, q);
    // Stay well within the radius of the bend
    let off = side * 0.25 * (len / 1.5).min(20.0);
    let c = curve.eval(u);
    let x = (c.0 - off * (q.1 - p.1) / d, c.1 + off * (q.0 - p.0) / d);
    let t0 = rng.chance(0.5).then(|| b.min + (b.max - b.min) * (u + rng.f(-0.1, 0.1)).clamp(0.0, 1.0));
    let err = rng.pick(&[0.1, 0.01, 0.001]);
    if let Some(t) = project_point_onto_curve(&real, pt(x), err, t0) {
        let got = real.sample(t);
        let best = poly_dist(x, &poly);
        let have = dist(x, (got.x, got.y));
        ensure!(t > b.min - 0.02 * (b.max - b.min) && t < b.max + 0.02 * (b.max - b.min), "a point beside the curve is projected to {t} outside of {b:?}");
        ensure!(have < best + 0.01 + 2.0 * err, "the projection of a point is {have} m away, the curve only {best} m (offset {off})");
        out.hit("points projected");
    } else {
        return Err(format!("no projection of a point {off} m beside a curve"));
    }
    Ok(())
}

/// Projections on every kind of curve, including those with an uneven speed.
fn crossing(rng: &mut Rng, out: &mut Out) -> Res {
    // Two curves which cross once at a known place, or not at all
    let cross = rng.chance(0.6);
    let at = any_point(rng, 50.0);
    let h = rng.f(-PI, PI);
    let ang = rng.f(0.5, PI - 0.5) * if rng.chance(0.5) { 1.0 } else { -1.0 };
    let (la, lb) = ((rng.f(3.0, 60.0), rng.f(3.0, 60.0)), (rng.f(3.0, 60.0), rng.f(3.0, 60.0)));
    let dir = |a: f64, d: f64| (at.0 + d * f64::cos(a), at.1 + d * f64::sin(a));
    let a = Curve::Line(dir(h, -la.0), dir(h, la.1));
    let bend = rng.chance(0.5);
    let g = h + ang;
    let b = if cross {
        if bend {
            // Bends away from the line it crosses, after the crossing
            let (s, e) = (dir(g, -lb.0), dir(g, lb.1));
            let k = rng.f(-1.0, 1.0) * 0.12;
            let m = ((s.0 + e.0) / 2.0, (s.1 + e.1) / 2.0);
            Curve::Quad([s, (m.0 - k * (e.1 - s.1), m.1 + k * (e.0 - s.0)), e])
        } else {
            Curve::Line(dir(g, -lb.0), dir(g, lb.1))
        }
    } else {
        // Ends before it gets there
        let gap = rng.f(0.5, 10.0);
        Curve::Line(dir(g, gap + lb.1), dir(g, gap))
    };
    let (ra, rb) = (a.boxed(), b.boxed());
    // In either order
    let swap = rng.chance(0.5);
    let got = if swap { intersect_curves(&&*rb, &&*ra).map(|(t, s)| (s, t)) } else { intersect_curves(&&*ra, &&*rb) };
    // Independently: do the dense polylines cross?
    let (pa, pb) = (sampled(&a, 1), sampled(&b, 400));
    let mut truth = None;
    for w in pb.windows(2) {
        if let Some(p) = seg_cross(pa[0], pa[1], w[0], w[1]) {
            truth = Some(p);
        }
    }
    // Only decide where the answer is clear
    let margin = truth.map(|p: P| {
        [pa[0], pa[1], pb[0], pb[pb.len() - 1]].iter().map(|e| dist(*e, p)).fold(f64::INFINITY, f64::min)
    });
    let apart = pb.iter().map(|p| seg_dist(*p, pa[0], pa[1])).fold(f64::INFINITY, f64::min);
    match (truth, margin, got) {
        (Some(p), Some(m), Some((s, t))) if m > 0.5 => {
            let (x, y) = (ra.sample(s), rb.sample(t));
            ensure!(near(x, p, 0.05) && near(y, p, 0.05), "curves crossing at {p:?} are said to cross at {x:?} and {y:?}");
            out.hit("crossings found");
        }
        (Some(p), Some(m), None) if m > 0.5 => return Err(format!("curves cross at {p:?}, but no crossing is found: {a:?} and {b:?}")),
        (None, _, Some((s, t))) if apart > 0.1 => {
            return Err(format!("curves {apart} m apart are said to cross at {s} and {t}"));
        }
        (None, _, None) => out.hit("curves which don't cross"),
        _ => {}
    }
    Ok(())
}

fn seg_cross(a: P, b: P, c: P, d: P) -> Option<P> {
    let (r, s) = ((b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1));
    let den = r.0 * s.1 - r.1 * s.0;
    if den.abs() < 1e-12 {
        return None;
    }
    let t = ((c.0 - a.0) * s.1 - (c.1 - a.1) * s.0) / den;
    let u = ((c.0 - a.0) * r.1 - (c.1 - a.1) * r.0) / den;
    ((0.0..=1.0).contains(&t) && (0.0..=1.0).contains(&u)).then(|| (a.0 + t * r.0, a.1 + t * r.1))
}

fn small(rng: &mut Rng, out: &mut Out) -> Res {
    // Intervals; small whole numbers make coincidences likely
    let num = |rng: &mut Rng| if rng.chance(0.5) { rng.i(0, 12) as f64 - 6.0 } else { rng.f(-6.0, 6.0) };
    let mut iv = || {
        let (a, b) = (num(rng), num(rng));
        Interval::new(f64::min(a, b), f64::max(a, b))
    };
    let (a, b) = (iv(), iv());
    let (x, t) = (num(rng), rng.f(-0.5, 1.5));
    let lo = f64::max(a.min, b.min);
    let hi = f64::min(a.max, b.max);
    if a.length() > 0.0 && b.length() > 0.0 {
        ensure!(a.overlaps(&b) == (lo < hi), "{a:?} and {b:?} overlap: {}", a.overlaps(&b));
    }
    ensure!(a.overlaps(&b) == b.overlaps(&a), "{a:?} overlaps {b:?} but not the other way round");
    ensure!(a.contains(x) == (a.min <= x && x <= a.max), "{a:?} contains {x}: {}", a.contains(x));
    let gap = a.clearance_with(&b);
    ensure!(if lo > hi { close(gap, lo - hi, 1e-12) } else if lo < hi { gap < 0.0 } else { gap <= 0.0 }, "the clearance between {a:?} and {b:?} is {}", a.clearance_with(&b));
    let d = if x > a.max { x - a.max } else if x < a.min { a.min - x } else { -f64::min(x - a.min, a.max - x) };
    ensure!(close(a.distance(x), d, 1e-12), "the distance of {x} from {a:?} is {}", a.distance(x));
    ensure!(close(a.length(), a.max - a.min, 1e-12) && a.as_array() == [a.min, a.max], "the extents of {a:?}");
    ensure!(close(a.midpoint(), (a.min + a.max) / 2.0, 1e-12), "the middle of {a:?} is {}", a.midpoint());
    ensure!(close(a.lerp(t), a.min * (1.0 - t) + a.max * t, 1e-9), "{t} along {a:?} is {}", a.lerp(t));
    if a.length() > 0.1 {
        ensure!(close(a.inv_lerp(a.lerp(t)), t, 1e-9), "{a:?} does not map back to {t}");
    }
    let r = rng.f(0.0, 5.0);
    let disc = Interval::disc(x, r);
    ensure!(close(disc.min, x - r, 1e-12) && close(disc.max, x + r, 1e-12), "a disc of {r} around {x} is {disc:?}");
    let (p, m) = (a + x, a - x);
    ensure!(p.min == a.min + x && p.max == a.max + x && m.min == a.min - x && m.max == a.max - x, "{a:?} moved by {x}");
    out.hit("intervals");

    // Lookup tables
    let (min, len, step) = (rng.f(-50.0, 50.0), rng.f(0.5, 60.0), rng.f(0.1, 5.0));
    let lut = LookupTable::from_samples(Interval::new(min, min + len), step, |x| x);
    for _ in 0..6 {
        let x = rng.f(min - 5.0, min + len + 5.0);
        let v = *lut.sample(x);
        let cells = (len / step).ceil();
        let cell = ((x - min) / step).floor().clamp(0.0, cells - 1.0);
        let want = min + (cell + 0.5) * step;
        // Close to the boundary of two cells either is right
        let frac = ((x - min) / step).rem_euclid(1.0);
        if frac > 1e-6 && frac < 1.0 - 1e-6 {
            ensure!(close(v, want, 1e-9), "a table of step {step} from {min} gives {v} at {x}, the middle of its cell is {want}");
        }
        out.hit("table lookups");
    }

    // Vectors
    let (o, q) = (any_point(rng, 20.0), any_point(rng, 20.0));
    let ang = rng.f(-PI, PI);
    let (ex, ey) = (Vector2d::new(ang.cos(), ang.sin()), Vector2d::new(-ang.sin(), ang.cos()));
    let l = project_local(pt(q), pt(o), ex, ey);
    ensure!(close(o.0 + l.x * ex.x + l.y * ey.x, q.0, 1e-9) && close(o.1 + l.x * ex.y + l.y * ey.y, q.1, 1e-9), "local coordinates {l:?} do not lead back to {q:?}");
    let rot = rot90(ex);
    ensure!(rot.x == -ex.y && rot.y == ex.x, "{ex:?} turned by 90 degrees is {rot:?}");
    let (v, dv) = (Vector2d::new(rng.f(0.5, 5.0), rng.f(-5.0, 5.0)), Vector2d::new(rng.f(-5.0, 5.0), rng.f(-5.0, 5.0)));
    let (s, ds) = normalize_with_derivative(v, dv);
    let unit = |h: f64| {
        let (x, y) = (v.x + h * dv.x, v.y + h * dv.y);
        let m = (x * x + y * y).sqrt();
        (x / m, y / m)
    };
    let (u, a, b) = (unit(0.0), unit(1e-5), unit(-1e-5));
    let num = ((a.0 - b.0) / 2e-5, (a.1 - b.1) / 2e-5);
    ensure!(close(s.x, u.0, 1e-12) && close(s.y, u.1, 1e-12), "{v:?} normalised is {s:?}");
    ensure!(close(ds.x, num.0, 1e-4) && close(ds.y, num.1, 1e-4), "the derivative of a normalised vector is {ds:?}, numerically {num:?}");
    out.hit("vectors");
    Ok(())
}

/// A curve of which only the points are given.
struct Plain {
    curve: Curve,
    bounds: Interval<f64>,
}

impl ParametricCurve2d for Plain {
    fn sample(&self, t: f64) -> Point2d {
        pt(self.curve.eval((t - self.bounds.min) / (self.bounds.max - self.bounds.min)))
    }
    fn bounds(&self) -> Interval<f64> {
        Interval::new(self.bounds.min, self.bounds.max)
    }
}

/// The derivatives a curve has if it does not provide any.
fn derivatives(rng: &mut Rng, out: &mut Out) -> Res {
    let mut t = Turtle::new(any_point(rng, 300.0), rng.f(-PI, PI));
    let (len, turn) = (rng.f(10.0, 150.0), rng.f(-1.4, 1.4));
    let curve = if rng.chance(0.5) { t.cubic(len, turn) } else { t.quad(len, turn) };
    let (lo, span) = (rng.f(-50.0, 50.0), rng.f(0.2, 200.0));
    let c = Plain { curve, bounds: Interval::new(lo, lo + span) };
    for _ in 0..10 {
        let u = rng.f(0.02, 0.98);
        let e = |x: f64| c.curve.eval(x);
        let h = 1e-4;
        let (a, b, m) = (e(u - h), e(u + h), e(u));
        let d = ((b.0 - a.0) / (2.0 * h * span), (b.1 - a.1) / (2.0 * h * span));
        let dd = ((b.0 - 2.0 * m.0 + a.0) / (h * span).powi(2), (b.1 - 2.0 * m.1 + a.1) / (h * span).powi(2));
        let at = lo + u * span;
        for (what, got) in [("itself", c.sample_dt(at)), ("a reference to it", (&&c).sample_dt(at))] {
            let err = dist((got.x, got.y), d) / d.0.hypot(d.1);
            ensure!(err < 1e-3, "the derivative of a curve ({what}) is {got:?}, expected {d:?}");
        }
        let got = c.sample_dt2(at);
        let scale = len / (span * span);
        ensure!(dist((got.x, got.y), dd) < 0.01 * dd.0.hypot(dd.1) + 0.01 * scale, "the second derivative of a curve is {got:?}, expected {dd:?}");
        out.hit("derivatives by default");
    }
    out.nontrivial = true;
    Ok(())
}

fn maths(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let tag = rng.next();
    out.sig = hash(&[idx as u64, tag]);
    out.nontrivial = true;
    let (name, f): (_, fn(&mut Rng, &mut Out) -> Res) = match idx % 6 {
        0 => ("cubic functions", cubic_fn),
        1 => ("bezier curves", beziers),
        2 => ("sampling and projection", sampling),
        3 => ("crossings", crossing),
        4 => ("derivatives", derivatives),
        _ => ("intervals, tables and vectors", small),
    };
    out.sample = name.into();
    f(rng, out)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        rule: "Random arguments of every public function of the mathematical library, compared with independent calculations. Every case is non-trivial.",
        cases: [120_000, 5_000_000],
        need: &[("values of cubics", 40_000), ("points of curves", 40_000), ("curves evenly divided", 6_000), ("curves subdivided", 6_000), ("points projected", 6_000), ("crossings found", 3_000), ("curves which don't cross", 1_500), ("intervals", 6_000), ("table lookups", 40_000), ("vectors", 6_000), ("derivatives by default", 6_000)],
        run: maths,
        post: no_post,
    }]
}
