//! Closed links and traffic lights.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;
use std::collections::HashMap;
use traffic_sim::{LightState, LinkId, TrafficControl, TrafficLight};

/// Distance of the vehicle's front from the end of its link.
fn to_line(w: &World, k: Key, o: &Obs) -> f64 {
    w.lengths[o.link] - o.pos - 0.5 * w.vehs[k].attrs.length
}

/// Watches vehicles which can comfortably stop before a closed link.
#[derive(Default)]
struct Stops {
    /// Vehicles which have to stop at the end of the given link.
    bound: HashMap<Key, usize>,
    /// Vehicles which were too close to stop while the way was open, and may carry on.
    committed: HashMap<Key, usize>,
    /// How long a vehicle has stood first in line.
    stood: HashMap<Key, f64>,
    /// How long a vehicle has stood on the line.
    over: HashMap<Key, f64>,
}

impl Stops {
    /// `next(k)` is the link vehicle `k` will take after its current one.
    fn check(&mut self, w: &World, dt: f64, next: &dyn Fn(Key, usize) -> Option<usize>, out: &mut Out) -> Res {
        let tau = 0.1 + 2.0 * dt;
        for k in 0..w.now.len() {
            let Some(o) = w.now[k] else {
                if let (Some(l), Some(p)) = (self.bound.remove(&k), w.prev[k]) {
                    ensure!(p.link != l, "t={:.2}: vehicle {k} left through a closed link", w.time);
                }
                continue;
            };
            let at = &w.vehs[k].attrs;
            if let Some(l) = self.bound.get(&k).copied() {
                ensure!(o.link == l && to_line(w, k, &o) >= 0.0,
                    "t={:.2}: vehicle {k} crossed a closed line at {} m/s, which it could stop for", w.time, o.vel);
                out.hit("steps held back");
            }
            let v = o.vel + at.max_acc * tau;
            let need = v * v / (2.0 * at.comf_dec) + 7.5 + v * tau + 1.0;
            let near = to_line(w, k, &o) <= need;
            match next(k, o.link) {
                Some(n) if w.ctl[n] == Ctl::Closed => {
                    let free = self.committed.get(&k) != Some(&o.link);
                    if !near && free && self.bound.insert(k, o.link).is_none() {
                        out.hit("approaches to a closed line");
                    }
                }
                _ => {
                    if near {
                        self.committed.insert(k, o.link);
                    }
                    if self.bound.remove(&k).is_some() {
                        out.hit("reopened");
                    }
                }
            }
            // The first in line waits at the line
            let first = !w.now.iter().any(|x| x.map_or(false, |x| if x.link == o.link { x.pos > o.pos } else { dist(x.xy, o.xy) < 25.0 }));
            let t = self.stood.entry(k).or_insert(0.0);
            *t = if first && o.vel < 1e-3 && self.bound.contains_key(&k) && !w.vehs[k].frozen { *t + dt } else { 0.0 };
            // Nobody stops on the line
            let over = first && o.vel < 1e-3 && to_line(w, k, &o) < -0.1 && !w.vehs[k].frozen && next(k, o.link).map_or(false, |n| w.ctl[n] == Ctl::Closed);
            let u = self.over.entry(k).or_insert(0.0);
            *u = if over { *u + dt } else { 0.0 };
            ensure!(*u < 3.0, "t={:.2}: vehicle {k} stands {} m past a closed line", w.time, -to_line(w, k, &o));
            if *t > 20.0 {
                let d = to_line(w, k, &o);
                out.max("waiting distance", d);
                ensure!(d < 4.0, "t={:.2}: vehicle {k} waits {d} m before the line", w.time);
                out.hit("waits at the line");
            }
        }
        Ok(())
    }
}

fn closed(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    match idx % 6 {
        0 | 1 => closed_chain(rng, out),
        2 => closed_lights(rng, out),
        3 => closed_branch(rng, out),
        4 => closed_turn(rng, out),
        _ => closed_platoon(rng, out),
    }
}

/// A line closed in front of a fast, dense platoon, of which some can still stop.
fn closed_platoon(rng: &mut Rng, out: &mut Out) -> Res {
    let mut t = Turtle::new((0.0, 0.0), rng.f(-3.0, 3.0));
    let mut net = Net::default();
    let limit = rng.f(12.0, 26.0);
    let lens = [rng.f(400.0, 900.0), rng.f(5.0, 150.0), rng.f(40.0, 200.0)];
    let n = rng.i(2, 3);
    for (i, len) in lens[..n].iter().enumerate() {
        net.links.push(LinkSpec { curve: t.line(*len), limit });
        if i > 0 {
            net.conns.push((i - 1, i));
        }
    }
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let close = rng.i(1, n - 1);
    out.sample = format!("platoon of up to 8 at {limit:.1} m/s, dt={dt}");
    let count = rng.i(2, 8);
    let mut stops = Stops::default();
    let mut left = count;
    // The moment of closing is given by how far somebody is from the point of no return
    let mut who = rng.i(0, 2);
    let slack = rng.f(-0.3, 1.0);
    let mut reopen = f64::INFINITY;
    while w.time < 150.0 {
        if left > 0 && w.entry_room(0) > 8.0 {
            let headway = rng.f(0.6, 1.4);
            let max_acc = if left == count { rng.f(0.8, 1.5) } else { rng.f(1.5, 3.0) };
            w.spawn(Attrs { headway, max_acc, comf_dec: rng.f(2.0, 4.0), ..Attrs::car() }, 0, Some(n - 1));
            left -= 1;
        }
        if reopen.is_infinite() && w.now.len() > who {
            if let Some(o) = w.now[who].filter(|o| o.link < close) {
                let need = o.vel * o.vel / (2.0 * w.vehs[who].attrs.comf_dec);
                let d: f64 = w.lengths[o.link..close].iter().sum::<f64>() - o.pos - 2.5;
                if o.vel > 0.6 * limit && d < need * (1.0 + slack) {
                    w.control(close, Ctl::Closed);
                    reopen = w.time + rng.f(10.0, 40.0);
                    out.hit("platoons cut in two");
                }
            }
        } else if w.time > reopen {
            w.control(close, Ctl::Open);
            reopen = f64::INFINITY;
            who += rng.i(1, 3);
        }
        w.step(dt);
        stops.check(&w, dt, &|_, l| if l + 1 < n { Some(l + 1) } else { None }, out)?;
    }
    out.nontrivial = out.counts.contains_key("steps held back");
    out.sig = w.sig;
    Ok(())
}

/// A fork of which some branches are closed and others give way, where vehicles change their mind
/// while they can still stop. Having been let into one branch says nothing about the others.
fn closed_turn(rng: &mut Rng, out: &mut Out) -> Res {
    let mut t = Turtle::new((0.0, 0.0), rng.f(-3.0, 3.0));
    let mut net = Net::default();
    let limit = rng.f(8.0, 20.0);
    let lens = [rng.f(150.0, 300.0), rng.f(15.0, 40.0)];
    // The line may be on the next link or on the one after it
    let n = rng.i(1, 2);
    for (i, len) in lens[..n].iter().enumerate() {
        net.links.push(LinkSpec { curve: t.line(*len), limit });
        if i > 0 {
            net.conns.push((i - 1, i));
        }
    }
    let branches = rng.i(2, 4);
    for i in 0..branches {
        let mut b = t;
        let (len, turn) = (rng.f(40.0, 100.0), 0.3 * (i as f64 - 1.0));
        net.links.push(LinkSpec { curve: b.cubic(len, turn), limit });
        net.conns.push((n - 1, n + i));
    }
    let shut = n + rng.i(0, branches - 1);
    for l in n..n + branches {
        let c = match rng.i(0, 2) {
            _ if l == shut => Ctl::Closed,
            0 => Ctl::Open,
            _ => Ctl::Yield { distance: rng.f(10.0, 120.0), must_stop: false, priority: 0 },
        };
        net.controls.push((l, c));
    }
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let first = n + (shut - n + rng.i(1, branches - 1)) % branches;
    let attrs = random_attrs(rng);
    let k = w.spawn(attrs, 0, Some(first));
    let at = rng.f(0.0, 60.0);
    out.sample = format!("fork of {branches} after {n} links, vehicle to {first} sent to {shut}, which is closed, dt={dt}");
    let mut sent = false;
    while w.time < 120.0 {
        if let Some(o) = w.now[k].filter(|o| o.link < n && !sent) {
            let line = w.lengths[o.link..n].iter().sum::<f64>() - o.pos - 0.5 * attrs.length;
            let need = o.vel * o.vel / (2.0 * attrs.comf_dec);
            if line < 1.3 * need + 0.7 * o.vel + 8.0 + at {
                w.set_dst(k, shut);
                sent = true;
                out.hit("changes of mind before a closed line");
            }
        }
        w.step(dt);
        if sent {
            let o = w.now[k].ok_or("a vehicle sent to a closed branch left")?;
            ensure!(o.link < n, "t={:.2}: a vehicle which changed its mind in time entered link {}, {shut} is closed", w.time, o.link);
        }
    }
    let o = w.now[k].ok_or("the vehicle left")?;
    ensure!(o.vel < 0.05 && o.link == n - 1 && w.lengths[n - 1] - o.pos < 0.5 * attrs.length + 4.0, "the vehicle stands at {} on link {}", o.pos, o.link);
    w.control(shut, Ctl::Open);
    for _ in 0..(90.0 / dt) as usize {
        w.step(dt);
    }
    ensure!(!w.alive(k), "the vehicle did not carry on once the link opened");
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

fn closed_chain(rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(2, 5);
    let net = chain(rng, n, (60.0, 200.0), (7.0, 18.0));
    let mut w = World::new(net.clone());
    let site = Site { name: format!("chain of {n} with links closed at random"), net, od: vec![(0, vec![n - 1])] };
    let dt = rng.pick(&DTS);
    let mix = Mix { spawn: 0.5, room: 12.0, toggle: rng.f(0.05, 0.25), freeze: 0.02, adjust: 0.03, ..Default::default() };
    out.sample = format!("{}, dt={dt}", site.name);
    let mut stops = Stops::default();
    let res = run(rng, &mut w, &site, &mix, dt, 120.0, &mut |w, _| {
        stops.check(w, dt, &|_, l| if l + 1 < n { Some(l + 1) } else { None }, out)
    });
    out.nontrivial = out.counts.contains_key("steps held back");
    out.sig = w.sig;
    res
}

fn closed_lights(rng: &mut Rng, out: &mut Out) -> Res {
    let site = if rng.chance(0.5) { cross_site(rng, Rule::Lights) } else { skew_site(rng, Rule::Lights) };
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let mix = Mix { spawn: 0.8, room: 12.0, ..Default::default() };
    out.sample = format!("{}, dt={dt}", site.name);
    let mut stops = Stops::default();
    let res = run(rng, &mut w, &site, &mix, dt, 120.0, &mut |w, _| {
        let outs = &w.outs;
        stops.check(w, dt, &|_, l| outs[l].first().copied(), out)
    });
    out.nontrivial = out.counts.contains_key("steps held back");
    out.sig = w.sig;
    res
}

/// A fork of which one branch is closed: it holds back only the vehicles which want to go there.
fn closed_branch(rng: &mut Rng, out: &mut Out) -> Res {
    let mut t = Turtle::new((0.0, 0.0), rng.f(-3.0, 3.0));
    let mut net = Net::default();
    let limit = rng.f(8.0, 17.0);
    let mut add = |curve| net.links.push(LinkSpec { curve, limit });
    let len = rng.f(80.0, 200.0);
    add(t.line(len));
    let branches = rng.i(2, 4);
    for i in 0..branches {
        let mut b = t;
        let turn = 0.3 * (i as f64 - 1.0);
        let len = rng.f(40.0, 100.0);
        add(b.cubic(len, turn));
    }
    net.conns = (1..=branches).map(|b| (0, b)).collect();
    let shut = rng.i(1, branches);
    net.controls.push((shut, Ctl::Closed));
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let dst = if rng.chance(0.5) { shut } else { rng.i(1, branches) };
    let attrs = random_attrs(rng);
    let k = w.spawn(attrs, 0, Some(dst));
    out.sample = format!("fork of {branches}, {shut} closed, vehicle to {dst}, dt={dt}");
    let mut stops = Stops::default();
    let mut slowed = false;
    for _ in 0..(90.0 / dt) as usize {
        w.step(dt);
        stops.check(&w, dt, &|_, l| if l == 0 { Some(dst) } else { None }, out)?;
        if let (Some(a), Some(b)) = (w.prev[k], w.now[k]) {
            slowed |= b.vel < a.vel - 1e-9 && b.link == 0;
        }
    }
    if dst == shut {
        let o = w.now[k].ok_or("the vehicle passed a link which is always closed")?;
        ensure!(o.link == 0 && o.vel < 0.05, "the vehicle is on link {} at {} m/s", o.link, o.vel);
        // Once opened it carries on
        w.control(shut, Ctl::Open);
        for _ in 0..(90.0 / dt) as usize {
            w.step(dt);
        }
        ensure!(!w.alive(k), "the vehicle did not carry on once the link opened");
        out.hit("released");
    } else {
        ensure!(!w.alive(k) && !slowed, "the vehicle was held up by a closed branch it doesn't take");
        out.hit("other branches unaffected");
    }
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

/// Timing and safety of one traffic light, observed only through its reported states.
/// Tracks the set of phases the light may be in, given the timing slack.
struct LightMonitor {
    spec: LightSpec,
    state: Vec<LightState>,
    /// Time since each movement entered its state.
    since: Vec<f64>,
    /// The phases which explain what has been observed, and for how long each would have been going on.
    phases: Vec<(usize, f64)>,
    slack: f64,
}

impl LightMonitor {
    fn new(spec: &LightSpec, dt_max: f64) -> Self {
        let n = spec.movements.len();
        LightMonitor {
            spec: spec.clone(),
            state: vec![LightState::Red; n],
            since: vec![0.0; n],
            phases: vec![(0, 0.0)],
            slack: 2.0 * dt_max + 1e-6,
        }
    }

    fn step(&mut self, now: &[LightState], dt: f64, t: f64, out: &mut Out) -> Res {
        use LightState::*;
        let n = self.spec.movements.len();
        let slack = self.slack;
        ensure!(now.len() == n, "{} states for {n} movements", now.len());
        // Rules which don't depend on the phase
        for m in 0..n {
            let mv = &self.spec.movements[m];
            let since = self.since[m];
            match (self.state[m], now[m]) {
                (Green, Red) | (Red, Amber) => {
                    return Err(format!("t={t:.2}: movement {m} went from {:?} to {:?}", self.state[m], now[m]));
                }
                (Amber, Red) => {
                    ensure!(since >= mv.amber - slack, "t={t:.2}: movement {m} was amber for {since} s of {}", mv.amber);
                    out.hit("ambers timed");
                }
                (Amber, Amber) => {
                    ensure!(since <= mv.amber + slack, "t={t:.2}: movement {m} still amber after {since} s of {}", mv.amber);
                }
                (Red, Green) => {
                    for (c, cm) in self.spec.movements.iter().enumerate() {
                        if cm.conflict >> m & 1 == 0 || c == m {
                            continue;
                        }
                        ensure!(now[c] == Red && self.state[c] == Red, "t={t:.2}: movement {m} turned green against {c}");
                        ensure!(self.since[c] >= cm.red - slack, "t={t:.2}: movement {m} turned green {} s after {c} turned red, needs {}", self.since[c], cm.red);
                        out.hit("clearances checked");
                    }
                }
                _ => {}
            }
            if self.state[m] != now[m] {
                out.hit("state changes");
            }
        }
        for a in 0..n {
            for b in 0..n {
                if self.spec.movements[a].conflict >> b & 1 == 1 && a != b {
                    ensure!(now[a] == Red || now[b] == Red, "t={t:.2}: conflicting movements {a} and {b} are {:?} and {:?}", now[a], now[b]);
                }
            }
        }
        // Which phases explain this step?
        let count = self.spec.phases.len();
        if count == 0 {
            ensure!(now.iter().all(|s| *s == Red), "t={t:.2}: a light without phases is not red");
        } else {
            let mut next: Vec<(usize, f64)> = vec![];
            for (p, going) in &self.phases {
                let (mask, dur) = self.spec.phases[*p];
                let green = (0..n).filter(|m| mask >> m & 1 == 1).all(|m| self.state[m] == Green);
                let held = (0..n).filter(|m| mask >> m & 1 == 1).map(|m| self.since[m]).fold(*going, f64::min);
                let may = green && held >= dur - slack;
                let must = green && held >= dur + slack;
                if !must && self.explains(*p, now) {
                    next.push((*p, going + dt));
                }
                let q = (*p + 1) % count;
                if may && self.explains(q, now) {
                    if !next.iter().any(|x| x.0 == q && (x.1 - dt).abs() < 1e-9) {
                        next.push((q, dt));
                    }
                    out.add("phase changes", (q != *p) as u64);
                    out.add("phase changes without a new green", (q != *p && self.spec.phases[q].0 & !mask == 0) as u64);
                }
            }
            ensure!(!next.is_empty(), "t={t:.2}: no phase explains {now:?} after {:?} held for {:?} (was in phase {:?} of {:?})", self.state, self.since, self.phases, self.spec.phases);
            self.phases = next;
        }
        for m in 0..n {
            self.since[m] = if now[m] == self.state[m] { self.since[m] + dt } else { dt };
        }
        self.state = now.to_vec();
        Ok(())
    }

    fn explains(&self, phase: usize, now: &[LightState]) -> bool {
        use LightState::*;
        let mask = self.spec.phases[phase].0;
        (0..now.len()).all(|m| {
            let active = mask >> m & 1 == 1;
            match (active, self.state[m], now[m]) {
                (true, Green, s) | (true, Amber, s) => s == Green,
                (false, Green, s) => s == Amber,
                (false, _, s) => s != Green,
                (true, Red, Green) => true,
                (true, Red, _) => self.spec.movements.iter().enumerate().any(|(c, cm)| {
                    // Something may still be in its way
                    c != m && cm.conflict >> m & 1 == 1
                        && !(self.state[c] == Red && self.since[c] > cm.red + self.slack)
                }),
            }
        })
    }
}

fn random_light(rng: &mut Rng, links: usize) -> LightSpec {
    let n = if rng.chance(0.15) { rng.i(9, 64) } else { rng.i(1, 8) };
    // A conflict graph, and phases made of non-conflicting sets
    let density = if n > 8 { rng.f(0.02, 0.45) } else { 0.45 };
    let mut conflict = vec![0u64; n];
    for a in 0..n {
        for b in 0..a {
            if rng.chance(density) {
                conflict[a] |= 1 << b;
                conflict[b] |= 1 << a;
            }
        }
    }
    let mut phases = vec![];
    let mut prev = u64::MAX;
    for _ in 0..rng.i(0, 5) {
        let mut mask = 0u64;
        // Sometimes nothing is green
        for _ in 0..if rng.chance(0.1) { 0 } else { n } {
            let m = rng.i(0, n - 1);
            if conflict[m] & mask == 0 {
                mask |= 1 << m;
            }
        }
        if !phases.is_empty() && rng.chance(0.2) {
            // Some of what was green stays so
            mask = prev & rng.next();
        }
        // Neighbouring phases differ, so that their change can be seen
        if mask != prev {
            phases.push((mask, rng.f(1.0, 12.0)));
            prev = mask;
        }
    }
    while phases.len() > 1 && phases[0].0 == phases[phases.len() - 1].0 {
        phases.pop();
    }
    let of: Vec<usize> = (0..links).map(|l| if n > 8 { rng.i(0, n - 1) } else { l % n }).collect();
    let movements = (0..n)
        .map(|m| MovementSpec {
            conflict: conflict[m],
            amber: rng.f(0.0, 4.0),
            red: rng.f(0.0, 4.0),
            links: (0..links).filter(|l| of[*l] == m).collect(),
        })
        .collect();
    LightSpec { movements, phases }
}

/// Traffic on roads which have nothing to do with each other but the lights they share.
fn lit_roads(rng: &mut Rng, out: &mut Out) -> Res {
    let (count, roads) = (rng.i(1, 3), rng.i(2, 6));
    let n = count * roads;
    let mut net = Net::default();
    // The controlled links come first, then the roads leading to them
    let lens: Vec<f64> = (0..n).map(|_| rng.f(80.0, 150.0)).collect();
    let limits: Vec<f64> = (0..n).map(|_| rng.f(8.0, 17.0)).collect();
    for i in 0..2 * n {
        let y = 30.0 * (i % n) as f64;
        let (a, b) = if i < n { (0.0, 60.0) } else { (-lens[i - n], 0.0) };
        net.links.push(LinkSpec { curve: Curve::Line((a, y), (b, y)), limit: limits[i % n] });
    }
    net.conns.extend((0..n).map(|i| (i + n, i)));
    for i in 0..count {
        let mut spec = random_light(rng, roads);
        spec.movements.iter_mut().for_each(|m| m.links.iter_mut().for_each(|l| *l += i * roads));
        net.lights.push(spec);
    }
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    out.sample = format!("{n} roads at {count} lights, dt={dt}");
    let mut stops = Stops::default();
    let mut open = vec![0.0; n];
    while w.time < 120.0 {
        for i in 0..n {
            if rng.chance(0.15 * dt) && w.entry_room(n + i) > 8.0 {
                w.spawn(Attrs::car(), n + i, Some(i));
            }
        }
        w.step(dt);
        for i in 0..n {
            open[i] = if w.ctl[i] == Ctl::Open { open[i] + dt } else { 0.0 };
            let first = w.live_keys().into_iter().filter(|k| w.now[*k].unwrap().link == n + i).min();
            if let Some((k, o)) = first.map(|k| (k, w.now[k].unwrap())) {
                if open[i] > 1.5 && to_line(&w, k, &o) < 5.0 {
                    ensure!(o.vel > 0.1, "t={:.2}: vehicle {k} waits at a green light, {} m before the line", w.time, to_line(&w, k, &o));
                    out.hit("steps at a green light");
                }
            }
        }
        stops.check(&w, dt, &|_, l| l.checked_sub(n), out)?;
    }
    out.nontrivial = out.counts.get("steps held back").copied().unwrap_or(0) > 100;
    out.sig = w.sig;
    Ok(())
}

fn lights(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    if idx % 5 == 4 {
        return lit_roads(rng, out);
    }
    const LINKS: usize = 12;
    let count = rng.i(1, 3);
    let mut net = Net::default();
    for i in 0..count * LINKS {
        let y = 10.0 * i as f64;
        net.links.push(LinkSpec { curve: Curve::Line((0.0, y), (50.0, y)), limit: 10.0 });
    }
    for i in 0..count {
        let mut spec = random_light(rng, LINKS);
        spec.movements.iter_mut().for_each(|m| m.links.iter_mut().for_each(|l| *l += i * LINKS));
        net.lights.push(spec);
    }
    let specs = net.lights.clone();
    out.sample = format!("{:?} movements, phases {:?}", specs.iter().map(|s| s.movements.len()).collect::<Vec<_>>(), specs[0].phases);
    let mut w = World::new(net);
    let ids: Vec<LinkId> = w.links.clone();
    let mut lights: Vec<TrafficLight> = specs.iter().map(|s| make_light(s, &ids)).collect();
    let fixed = idx % 3 != 0;
    let dt0 = rng.pick(&[0.02, 0.0625, 0.1, 0.125, 0.2]);
    let mut mons: Vec<LightMonitor> = specs.iter().map(|s| LightMonitor::new(s, dt0)).collect();
    let mut t = 0.0;
    let mut sig = 0;
    while t < 120.0 {
        let dt = if fixed { dt0 } else { dt0 * rng.f(0.5, 1.0) };
        w.step(dt);
        t += dt;
        let in_sim: Vec<TrafficLight> = w.sim.iter_lights().map(|l| l.1.clone()).collect();
        ensure!(in_sim.len() == count, "{} lights are listed of {count}", in_sim.len());
        for (i, light) in lights.iter_mut().enumerate() {
            light.step(dt);
            let states: Vec<(usize, LightState)> = light.state().collect();
            ensure!(states.iter().enumerate().all(|(i, s)| i == s.0), "movements are listed as {states:?}");
            let s: Vec<LightState> = states.iter().map(|s| s.1).collect();
            mons[i].step(&s, dt, t, out)?;
            ensure!(in_sim[i].state().map(|s| s.1).eq(s.iter().copied()), "t={t:.2}: the light in the simulation differs from one stepped by hand");
            let mut seen = vec![0; count * LINKS];
            for (id, c) in light.get_states() {
                let l = ids.iter().position(|x| *x == id).ok_or("an unknown link is controlled")?;
                seen[l] += 1;
                let m = specs[i].movements.iter().position(|m| m.links.contains(&l)).ok_or("a link of another light is controlled")?;
                let open = matches!(c, TrafficControl::Open);
                let shut = matches!(c, TrafficControl::Closed);
                ensure!(if s[m] == LightState::Green { open } else { shut }, "t={t:.2}: link {l} is {c:?} while its light is {:?}", s[m]);
            }
            ensure!(seen.iter().enumerate().all(|(l, c)| *c == (l / LINKS == i) as usize), "links are controlled {seen:?} times");
            out.hit("light steps");
            sig = crate::core::hash(&[sig, s.iter().fold(0u64, |h, x| h.wrapping_mul(3).wrapping_add(*x as u64))]);
        }
    }
    out.nontrivial = out.counts.get("state changes").copied().unwrap_or(0) > 4;
    out.sig = sig;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { 
            id: "C07",
            rule: "Random sites whose links are closed and reopened while traffic drives, forks with closed branches, and links closed at random moments. Non-trivial: a vehicle was held back by a closed link (or, at a fork, watched past it).",
            cases: [12_000, 300_000],
            need: &[("approaches to a closed line", 5_000), ("steps held back", 500_000), ("reopened", 2_000), ("other branches unaffected", 50), ("released", 100), ("platoons cut in two", 300), ("changes of mind before a closed line", 300), ("waits at the line", 10_000)], run: closed, post: no_post },
        Check { 
            id: "C10",
            rule: "One to three random traffic lights of up to 64 movements stepped through their phases, including phases in which nothing is or turns green; and traffic on roads with such lights. Non-trivial: more than four colour changes, or 100 steps of waiting vehicles, were seen.",
            cases: [12_000, 300_000],
            need: &[("ambers timed", 2_000), ("clearances checked", 2_000), ("state changes", 10_000), ("phase changes without a new green", 2_000), ("steps held back", 50_000), ("steps at a green light", 5_000)], run: lights, post: no_post },
    ]
}
