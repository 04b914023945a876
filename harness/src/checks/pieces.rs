//! Roads built of few long or of many short links.

use crate::core::{Check, Counts, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;

/// Parts of a road with their limits, each made of one or more pieces.
type Parts = Vec<(Vec<f64>, f64)>;

/// What happens on a road.
#[derive(Clone)]
struct Plan {
    dt: f64,
    /// When each vehicle comes, and from which of the roads
    cars: Vec<(f64, usize, Attrs)>,
    /// A part before which a line is closed, when and for how long
    line: Option<(usize, f64, f64)>,
}

type Log = Vec<Vec<Option<(f64, f64)>>>;

fn cut(rng: &mut Rng, len: f64, least: f64) -> Vec<f64> {
    let (mut left, mut v) = (len, vec![]);
    while left > 3.0 * least {
        let l = least * rng.f(1.0, 2.0);
        v.push(l);
        left -= l;
    }
    v.push(left);
    v
}

/// Lays out a road, returns the first links of its parts.
fn lay(net: &mut Net, t: &mut Turtle, parts: &Parts, at: &mut Vec<f64>) -> Vec<usize> {
    let mut firsts = vec![];
    let start = net.links.len();
    let mut along = 0.0;
    for (pieces, limit) in parts {
        firsts.push(net.links.len());
        for l in pieces {
            let i = net.links.len();
            net.links.push(LinkSpec { curve: t.line(*l), limit: *limit });
            at.push(along);
            along += l;
            if i > start {
                net.conns.push((i - 1, i));
            }
        }
    }
    firsts
}

/// Drives along and logs where on their roads the vehicles are.
fn drive(net: &Net, at: &[f64], ends: &[(usize, usize)], line: Option<usize>, plan: &Plan, sig: &mut u64) -> Log {
    let mut w = World::new(net.clone());
    let mut log = vec![];
    let mut keys: Vec<Option<Key>> = vec![None; plan.cars.len()];
    let mut shut = false;
    while w.time < 300.0 && (w.time < 30.0 || !w.live_keys().is_empty()) {
        for (i, c) in plan.cars.iter().enumerate() {
            let (from, to) = ends[c.1];
            if keys[i].is_none() && w.time >= c.0 && w.entry_room(from) > 8.0 {
                keys[i] = Some(w.spawn(c.2, from, Some(to)));
            }
        }
        if let (Some(l), Some((_, from, secs))) = (line, plan.line) {
            let now = w.time >= from && w.time < from + secs;
            if now != shut {
                w.control(l, if now { Ctl::Closed } else { Ctl::Open });
                shut = now;
            }
        }
        w.step(plan.dt);
        log.push(keys.iter().map(|k| k.and_then(|k| w.now[k]).map(|o| (at[o.link] + o.pos, o.vel))).collect());
    }
    *sig = w.sig;
    log
}

/// The largest distance between the same vehicle on both roads.
fn apart(a: &Log, b: &Log) -> (f64, String) {
    let mut worst = (0.0, String::new());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        for (k, (x, y)) in x.iter().zip(y).enumerate() {
            if let (Some(x), Some(y)) = (x, y) {
                let d = (x.0 - y.0).abs();
                if d > worst.0 {
                    worst = (d, format!("in step {i} vehicle {k} is at {} m at {} m/s, but at {} m at {} m/s on the road in pieces", x.0, x.1, y.0, y.1));
                }
            }
        }
    }
    // Nobody may be left behind
    let gone = |l: &Log| l.last().map_or(true, |x| x.iter().all(|v| v.is_none()));
    if gone(a) != gone(b) {
        worst = (f64::INFINITY, "vehicles arrive on one of the roads only".into());
    }
    worst
}

/// Compares two ways of building the same roads. Where a decision was close (a line closed just before
/// somebody, a gap just long enough), a slightly different moment gives the other one.
fn compare(one: &dyn Fn(&Plan, &mut u64) -> Log, pieces: &dyn Fn(&Plan, &mut u64) -> Log, plan: &Plan, limit: f64, out: &mut Out) -> Res {
    let b = pieces(plan, &mut out.sig);
    let mut best = apart(&one(plan, &mut out.sig), &b);
    out.max("distance between vehicles on both roads, m", best.0.min(100.0));
    if best.0 > limit {
        out.hit("close decisions");
        for shift in [-0.6, -0.4, -0.2, 0.2, 0.4, 0.6] {
            // The line, or the vehicles on one of the roads
            for which in 0..3 {
                let mut p = plan.clone();
                match which {
                    2 => p.line = p.line.map(|l| (l.0, l.1 + shift, l.2)),
                    _ => p.cars.iter_mut().filter(|c| c.1 == which).for_each(|c| c.0 += shift),
                }
                let x = apart(&one(&p, &mut out.sig), &b);
                if x.0 < best.0 {
                    best = x;
                }
            }
        }
    }
    if best.0 > 0.01 && plan.cars.len() == 1 {
        out.hit("lone vehicles a centimetre apart");
    }
    ensure!(best.0 < limit + 0.6 * 26.0, "{}", best.1);
    if best.0 > 0.5 {
        out.hit("roads on which vehicles were half a metre apart");
    }
    out.hit("roads in pieces");
    out.nontrivial = true;
    Ok(())
}

/// One road of a few sections with their own limits.
pub fn sections(rng: &mut Rng, out: &mut Out, vehicles: usize, close: bool) -> Res {
    let n = rng.i(1, 4);
    let whole: Vec<(f64, f64)> = (0..n).map(|_| (rng.f(60.0, 450.0), rng.f(6.0, 25.0))).collect();
    let top = whole.iter().fold(0.0f64, |m, w| m.max(w.1));
    let least = rng.f(0.8, 2.0) * top;
    // They begin on the same first link
    let entry = (vec![rng.f(70.0, 150.0)], whole[0].1);
    let (mut one, mut many) = (vec![entry.clone()], vec![entry]);
    for (len, limit) in &whole {
        one.push((vec![*len], *limit));
        many.push((cut(rng, *len, least), *limit));
    }
    let mut t = 0.0;
    let cars = (0..vehicles).map(|_| {
        t += rng.f(2.0, 8.0);
        (t, 0, random_attrs(rng))
    }).collect();
    let line = if close { Some((rng.i(1, n), rng.f(0.0, 40.0), rng.f(1.0, 40.0))) } else { None };
    let plan = Plan { dt: rng.pick(&DTS), cars, line };
    out.sample = format!("{n} sections in {} links, {vehicles} vehicles, line {line:?}, dt={}", many.iter().map(|c| c.0.len()).sum::<usize>(), plan.dt);
    let go = |parts: &Parts, plan: &Plan, sig: &mut u64| {
        let (mut net, mut at) = (Net::default(), vec![]);
        let firsts = lay(&mut net, &mut Turtle::new((0.0, 0.0), 0.0), parts, &mut at);
        let last = net.links.len() - 1;
        drive(&net, &at, &[(0, last)], line.map(|l| firsts[l.0]), plan, sig)
    };
    compare(&|p, s| go(&one, p, s), &|p, s| go(&many, p, s), &plan, if vehicles > 1 { 6.0 } else { 3.0 }, out)
}

/// Two roads which cross, one of which gives way to the other.
fn crossing(rng: &mut Rng, out: &mut Out) -> Res {
    let limit = rng.f(8.0, 17.0);
    let least = rng.f(1.5, 2.5) * limit;
    let angle = rng.f(1.0, 2.1) * rng.pick(&[-1.0, 1.0]);
    let must_stop = rng.chance(0.3);
    let ctl = Ctl::Yield { distance: rng.f(10.0, 20.0), must_stop, priority: 0 };
    let mut roads: Vec<(Parts, Parts, f64)> = vec![];
    for _ in 0..2 {
        // Vehicles giving way ask for longer gaps on a longer last link, so that one stays as it is
        let last = rng.f(1.0, 2.0) * least;
        let lens = [rng.f(60.0, 120.0), rng.f(60.0, 250.0), last, rng.f(18.0, 26.0), rng.f(60.0, 250.0)];
        let one: Parts = lens.iter().map(|l| (vec![*l], limit)).collect();
        let many: Parts = (0..5).map(|i| (if i == 1 || i == 4 || i == 2 && roads.is_empty() { cut(rng, lens[i], least) } else { vec![lens[i]] }, limit)).collect();
        roads.push((one, many, lens[0] + lens[1] + lens[2] + 0.5 * lens[3]));
    }
    let mut cars = vec![];
    // They get there at about the same time
    for (i, r) in roads.iter().enumerate() {
        for k in 0..if i == 0 { 1 } else { rng.i(1, 2) } {
            cars.push(((400.0 - r.2) / limit + 5.0 * k as f64 + rng.f(-4.0, 4.0), i, random_attrs(rng)));
        }
    }
    let plan = Plan { dt: rng.pick(&DTS), cars, line: None };
    out.sample = format!("crossing at {angle:.2}, {ctl:?}, limit {limit:.1}, dt={}", plan.dt);
    out.hit("crossings in pieces");
    let go = |many, p: &Plan, s: &mut u64| cross(&roads, many, angle, ctl, p, s);
    compare(&|p, s| go(false, p, s), &|p, s| go(true, p, s), &plan, 3.0, out)
}

/// The known finding: the same crossing with the last link before the line of the road which gives way in
/// one piece, and in several.
fn last_link(out: &mut Out) {
    let parts = |approach: &[f64]| -> Parts { [&[80.0], approach, &[20.0], &[100.0]].iter().map(|l| (l.to_vec(), 12.0)).collect() };
    let roads: Vec<_> = (0..2).map(|_| (parts(&[200.0]), parts(&[40.0; 5]), 290.0)).collect();
    let plan = Plan { dt: 0.1, cars: vec![(8.0, 0, Attrs::car()), (0.0, 1, Attrs::car())], line: None };
    let ctl = Ctl::Yield { distance: 15.0, must_stop: false, priority: 0 };
    let [a, b] = [false, true].map(|many| cross(&roads, many, 1.57, ctl, &plan, &mut out.sig));
    if apart(&a, &b).0 > 20.0 {
        out.hit("known:a vehicle giving way asks for a gap longer by the time to drive along the whole link it waits on (the length of that link is added twice)");
    }
}

/// Drives on two roads which cross in the last but one of their parts.
fn cross(roads: &[(Parts, Parts, f64)], many: bool, angle: f64, ctl: Ctl, plan: &Plan, sig: &mut u64) -> Log {
    let (mut net, mut at, mut ends, mut boxes) = (Net::default(), vec![], vec![], vec![]);
    for (i, r) in roads.iter().enumerate() {
        let from = net.links.len();
        let h = i as f64 * angle;
        let mut t = Turtle::new(Turtle::new((0.0, 0.0), h).ahead(-r.2), h);
        let firsts = lay(&mut net, &mut t, if many { &r.1 } else { &r.0 }, &mut at);
        boxes.push(firsts[firsts.len() - 2]);
        ends.push((from, net.links.len() - 1));
    }
    net.conflicts.push((boxes[0], boxes[1]));
    net.controls.push((boxes[1], ctl));
    drive(&net, &at, &ends, None, plan, sig)
}

fn pieces(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    if idx == 0 {
        last_link(out);
    }
    match idx % 6 {
        0 => sections(rng, out, 1, false),
        1 => sections(rng, out, 1, true),
        2 => {
            let n = rng.i(2, 6);
            sections(rng, out, n, false)
        }
        3 => {
            let n = rng.i(2, 6);
            sections(rng, out, n, true)
        }
        _ => crossing(rng, out),
    }
}

fn mostly_alike(c: &Counts) -> Res {
    let get = |k: &str| c.get(k).copied().unwrap_or(0) as f64;
    let n = get("roads in pieces");
    let (a, b) = (get("roads on which vehicles were half a metre apart"), get("close decisions"));
    ensure!(n < 1000.0 || a < 0.04 * n, "on {a} of {n} roads vehicles drive differently when they are in pieces");
    let lone = get("lone vehicles a centimetre apart");
    ensure!(n < 1000.0 || lone < 0.005 * n, "{lone} vehicles on {n} roads drive differently when they are in pieces, though alone");
    ensure!(n < 1000.0 || b < 0.004 * n, "on {b} of {n} roads decisions are different when they are in pieces");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        rule: "The same vehicles, closed lines and crossings on roads built of few links and of many. Non-trivial: the motions were compared.",
        cases: [12_000, 300_000],
        need: &[("roads in pieces", 5_000), ("crossings in pieces", 1_000)],
        run: pieces,
        post: mostly_alike,
    }]
}
