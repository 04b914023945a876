//! How traffic in one simulation relates to traffic in another.

use crate::core::{no_post, Check, Counts, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::rng::Rng;
use crate::script::*;
use crate::world::*;
use std::f64::consts::PI;

const MIX: Mix = Mix {
    spawn: 0.6,
    room: 9.0,
    beside: false,
    no_dst: 0.03,
    freeze: 0.12,
    remove: 0.04,
    retarget: 0.08,
    toggle: 0.08,
    lane_change: 0.12,
    adjust: 0.0,
};

/// Places in a queue between roads of equal priority may depend on the order in which vehicles are stored.
fn queues(site: &Site) -> bool {
    let yields = |l: usize| site.net.controls.iter().find_map(|c| match c.1 {
        Ctl::Yield { priority, .. } if c.0 == l => Some(priority),
        _ => None,
    });
    site.net.conflicts.iter().any(|(a, b)| yields(*a).is_some() && yields(*a) == yields(*b))
}

fn site_without_queues(rng: &mut Rng) -> Site {
    loop {
        let s = any_site(rng);
        if !queues(&s) {
            return s;
        }
    }
}

/// Sites where every trip has just one way.
fn plain_site(rng: &mut Rng) -> Site {
    loop {
        let s = site_without_queues(rng);
        if s.net.groups.is_empty() && !s.name.contains("grid") {
            return s;
        }
    }
}

/// Compares what is seen of the script's vehicles bit by bit.
fn same(w: &World, frame: &Frame, step: usize, link: &[usize], keys: &[Key], what: &str) -> Res {
    for (k, o) in frame.vehs.iter().enumerate() {
        let Some(key) = keys.get(k) else { continue };
        let want = o.map(|o| Obs { link: link[o.link], ..o });
        ensure!(w.now[*key] == want, "{what}: after step {step} vehicle {k} is {:?} instead of {want:?}", w.now[*key]);
    }
    for (l, c) in frame.ctl.iter().enumerate() {
        ensure!(w.ctl[link[l]] == *c, "{what}: after step {step} link {l} is {:?} instead of {c:?}", w.ctl[link[l]]);
    }
    ensure!(w.strangers == 0, "{what}: vehicles are listed twice or were never added");
    Ok(())
}

fn shift_net(net: &Net, by: usize, d: P) -> Net {
    let mut n = net.clone();
    let f = |p: P| (p.0 + d.0, p.1 + d.1);
    for l in &mut n.links {
        l.curve = match &l.curve {
            Curve::Line(a, b) => Curve::Line(f(*a), f(*b)),
            Curve::Quad(p) => Curve::Quad(p.map(f)),
            Curve::Cubic(p) => Curve::Cubic(p.map(f)),
            Curve::Arc(a) => Curve::Arc(Arc { centre: f(a.centre), ..*a }),
        };
    }
    let all = (0..net.links.len()).map(|l| l + by).collect::<Vec<_>>();
    relabel(&mut n, &all);
    n
}

/// Replaces the names of the links, but not their order.
fn relabel(n: &mut Net, link: &[usize]) {
    for c in n.conns.iter_mut().chain(&mut n.conflicts) {
        *c = (link[c.0], link[c.1]);
    }
    for g in &mut n.groups {
        g.0.iter_mut().for_each(|l| *l = link[*l]);
    }
    for c in &mut n.controls {
        c.0 = link[c.0];
    }
    for m in n.lights.iter_mut().flat_map(|l| &mut l.movements) {
        m.links.iter_mut().for_each(|l| *l = link[*l]);
    }
}

/// Puts one network after another. Lights keep their order.
fn join(a: &Net, b: &Net) -> Net {
    let mut n = a.clone();
    n.links.extend(b.links.iter().cloned());
    n.conns.extend(&b.conns);
    n.groups.extend(b.groups.iter().cloned());
    n.conflicts.extend(&b.conflicts);
    n.controls.extend(&b.controls);
    n.lights.extend(b.lights.iter().cloned());
    n
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.i(0, i));
    }
}

fn independence(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let dt = rng.pick(&DTS);
    let secs = 45.0;
    let id = |n: usize| (0..n).collect::<Vec<_>>();
    let moved = |s: &Script| s.events > 300;
    match idx % 6 {
        // The same calls again
        0 | 1 => {
            let site = any_site(rng);
            out.sample = format!("again, {}, dt={dt}", site.name);
            let s = record(rng, &site, &MIX, dt, secs);
            let mut w = World::new(site.net.clone());
            let mut keys = vec![];
            let extra = idx % 6 == 1;
            let all = id(w.links.len());
            for (i, ops) in s.ops.iter().enumerate() {
                replay(&mut w, ops, &all, &mut keys);
                if extra {
                    nothing(rng, &mut w, &site, out);
                }
                w.step(dt);
                same(&w, &s.frames[i], i, &all, &keys, if extra { "with calls which change nothing" } else { "the same calls again" })?;
            }
            out.hit(if extra { "histories with calls which change nothing" } else { "histories repeated" });
            out.add("observations compared", s.events);
            out.nontrivial = moved(&s);
            out.sig = s.sig;
        }
        // Beside another network, or on top of it
        2 | 3 => {
            let (a, b) = (site_without_queues(rng), any_site(rng));
            let far = rng.chance(0.5);
            let d = if far { (4000.0, rng.f(-500.0, 500.0)) } else { (rng.f(-30.0, 30.0), rng.f(-30.0, 30.0)) };
            out.sample = format!("{} beside {}, dt={dt}", a.name, b.name);
            let sa = record(rng, &a, &MIX, dt, secs);
            let sb = record(rng, &b, &Mix { spawn: 1.0, ..MIX }, dt, secs);
            let first = rng.chance(0.5);
            let (na, nb) = (a.net.links.len(), b.net.links.len());
            let (oa, ob) = if first { (0, na) } else { (nb, 0) };
            let (xa, xb) = (shift_net(&a.net, oa, (0.0, 0.0)), shift_net(&b.net, ob, d));
            let mut net = if first { join(&xa, &xb) } else { join(&xb, &xa) };
            if far {
                // Roads this far apart have no influence on each other even if they are declared to converge
                for _ in 0..rng.i(0, 6) {
                    net.conflicts.push((oa + rng.i(0, na - 1), ob + rng.i(0, nb - 1)));
                }
            }
            // Nor do roads which would meet if they were longer
            let mut stubs = vec![];
            for _ in 0..rng.i(0, 4) {
                let l = rng.i(0, na - 1);
                let c = &a.net.links[l].curve;
                let (p, q) = if rng.chance(0.5) { (c.eval(1.0), c.eval(0.98)) } else { (c.eval(0.0), c.eval(0.02)) };
                let t = crate::gen::Turtle::new(p, (p.1 - q.1).atan2(p.0 - q.0));
                let gap = rng.f(30.0, 400.0);
                let (x, y) = (t.ahead(gap), t.ahead(gap + rng.f(30.0, 120.0)));
                stubs.push(net.links.len());
                net.conflicts.push((oa + l, net.links.len()));
                let curve = if rng.chance(0.5) { Curve::Line(x, y) } else { Curve::Line(y, x) };
                net.links.push(LinkSpec { curve, limit: 10.0 });
            }
            // Unless they would pass another part of the network
            let polys: Vec<Vec<P>> = net.links.iter().map(|l| (0..=40).map(|i| l.curve.eval(i as f64 / 40.0)).collect()).collect();
            let apart = |x: &usize, y: &usize| polys[*x].iter().all(|p| polys[*y].iter().all(|q| dist(*p, *q) > 20.0));
            let near: Vec<usize> = stubs.iter().copied().filter(|s| !net.conflicts.iter().filter(|c| c.1 == *s).all(|c| apart(&c.0, s))).collect();
            net.conflicts.retain(|c| !near.contains(&c.1));
            // Nor do empty roads, wherever they come from or lead to
            if rng.chance(0.5) {
                for _ in 0..rng.i(1, 3) {
                    let l = rng.i(0, na - 1);
                    for _ in 0..rng.i(1, 8) {
                        let (n, joins, c) = (net.links.len(), rng.chance(0.7), &a.net.links[l].curve);
                        let p = c.eval(if joins { 0.0 } else { 1.0 });
                        let q = crate::gen::Turtle::new(p, rng.f(0.0, std::f64::consts::TAU)).ahead(rng.f(20.0, 150.0));
                        if joins {
                            net.conns.insert(0, (n, oa + l));
                            net.links.push(LinkSpec { curve: Curve::Line(q, p), limit: rng.f(6.0, 25.0) });
                            out.hit("empty roads which join");
                        } else if !a.name.contains("grid") {
                            net.conns.insert(0, (oa + l, n));
                            net.links.push(LinkSpec { curve: Curve::Line(p, q), limit: rng.f(6.0, 25.0) });
                            out.hit("empty roads which turn off");
                        } else {
                            continue;
                        }
                        if rng.chance(0.3) {
                            net.conflicts.push((oa + rng.i(0, na - 1), n));
                        }
                    }
                }
            }
            // A crowd elsewhere, which wants to do the same at the same time
            let mut crowd = vec![];
            if rng.chance(0.2) {
                for i in 0..rng.i(10, 50) {
                    let (n, y) = (net.links.len(), 9000.0 + 30.0 * i as f64);
                    for (x, y) in [((0.0, 250.0), y), ((0.0, 250.0), y - 3.6), ((250.0, 300.0), y - 3.6)] {
                        net.links.push(LinkSpec { curve: Curve::Line((x.0, y), (x.1, y)), limit: 14.0 });
                    }
                    net.conns.push((n + 1, n + 2));
                    net.groups.push((vec![n, n + 1], 0b0110));
                    crowd.push(n);
                }
                out.hit("networks beside a crowd");
            }
            let mut w = World::new(net);
            let (la, lb) = ((oa..oa + na).collect::<Vec<_>>(), (ob..ob + nb).collect::<Vec<_>>());
            let (mut ka, mut kb) = (vec![], vec![]);
            for i in 0..sa.ops.len() {
                if sa.ops[i].iter().any(|o| matches!(o, Op::Spawn(..))) {
                    for c in &crowd {
                        if w.entry_room(*c) > 10.0 {
                            w.spawn(Attrs::car(), *c, Some(*c + 2));
                        }
                    }
                }
                if rng.chance(0.5) {
                    replay(&mut w, &sa.ops[i], &la, &mut ka);
                    replay(&mut w, &sb.ops[i], &lb, &mut kb);
                } else {
                    replay(&mut w, &sb.ops[i], &lb, &mut kb);
                    replay(&mut w, &sa.ops[i], &la, &mut ka);
                }
                if !stubs.is_empty() && rng.chance(0.3 * dt) {
                    let (s, attrs) = (rng.pick(&stubs), crate::gen::random_attrs(rng));
                    if w.entry_room(s) > 15.0 {
                        w.spawn(attrs, s, None);
                        out.hit("vehicles in line with other roads");
                    }
                }
                w.step(dt);
                same(&w, &sa.frames[i], i, &la, &ka, "beside another network")?;
            }
            out.hit(if far { "networks far apart" } else { "networks on top of each other" });
            out.add("observations compared", sa.events);
            out.nontrivial = moved(&sa);
            out.sig = sa.sig;
        }
        // The network built in another order
        4 => {
            let site = plain_site(rng);
            out.sample = format!("reordered, {}, dt={dt}", site.name);
            let s = record(rng, &site, &MIX, dt, secs);
            let n = site.net.links.len();
            let mut order = id(n);
            shuffle(rng, &mut order);
            // order[i] is the link added as i-th
            let mut link = vec![0; n];
            for (i, l) in order.iter().enumerate() {
                link[*l] = i;
            }
            let mut net = site.net.clone();
            net.links = order.iter().map(|l| site.net.links[*l].clone()).collect();
            relabel(&mut net, &link);
            shuffle(rng, &mut net.conns);
            shuffle(rng, &mut net.controls);
            let mut w = World::new(net);
            let mut keys = vec![];
            for (i, ops) in s.ops.iter().enumerate() {
                replay(&mut w, ops, &link, &mut keys);
                w.step(dt);
                same(&w, &s.frames[i], i, &link, &keys, "built in another order")?;
            }
            out.hit("networks built in another order");
            out.add("observations compared", s.events);
            out.nontrivial = moved(&s);
            out.sig = s.sig;
        }
        // Without those who came last
        _ => {
            let site = chain_site(rng);
            out.sample = format!("without the last vehicles, {}, dt={dt}", site.name);
            let s = record(rng, &site, &Mix { retarget: 0.0, no_dst: 0.0, ..MIX }, dt, secs);
            let total = s.frames.last().unwrap().vehs.len();
            if total < 2 {
                return Ok(());
            }
            let keep = rng.i(1, total - 1);
            let mut w = World::new(site.net.clone());
            let all = id(w.links.len());
            let (mut keys, mut seen) = (vec![], 0);
            for (i, ops) in s.ops.iter().enumerate() {
                let mine = |k: &Key| *k < keep;
                let ops: Vec<Op> = ops.iter().filter(|o| match o {
                    Op::Spawn(..) => {
                        seen += 1;
                        seen <= keep
                    }
                    Op::Freeze(k, _) | Op::Remove(k) | Op::Retarget(k, _) | Op::LaneChange(k, ..) => mine(k),
                    Op::Control(..) => true,
                }).cloned().collect();
                replay(&mut w, &ops, &all, &mut keys);
                w.step(dt);
                same(&w, &s.frames[i], i, &all, &keys, "without those who came last")?;
            }
            out.hit("queues without their last vehicles");
            out.add("observations compared", w.events);
            out.nontrivial = w.events > 200;
            out.sig = s.sig;
        }
    }
    Ok(())
}

/// Calls which don't change anything.
fn nothing(rng: &mut Rng, w: &mut World, site: &Site, out: &mut Out) {
    let lit: Vec<usize> = w.net.lights.iter().flat_map(|l| l.movements.iter().flat_map(|m| m.links.clone())).collect();
    for _ in 0..2 {
        match rng.i(0, 4) {
            0 => {
                let l = rng.i(0, w.links.len() - 1);
                if !lit.contains(&l) {
                    let c = w.ctl[l];
                    w.sim.set_link_control(w.links[l], Ctl::Closed.real());
                    w.sim.set_link_control(w.links[l], c.real());
                }
            }
            1 => {
                // A vehicle which is gone before the next step
                let (l, a) = (rng.i(0, w.links.len() - 1), crate::gen::random_attrs(rng));
                let id = w.sim.add_vehicle(&a.real(), w.links[l]);
                if rng.chance(0.3) {
                    w.sim.set_vehicle_destination(id, w.links[rng.i(0, w.links.len() - 1)]);
                }
                if rng.chance(0.3) {
                    w.sim.set_vehicle_frozen(id, true);
                }
                w.sim.remove_vehicle(id);
                w.sim.remove_vehicle(id);
            }
            2 => {
                for k in w.live_keys() {
                    let f = w.vehs[k].frozen;
                    w.sim.set_vehicle_frozen(w.vehs[k].id, !f);
                    w.sim.set_vehicle_frozen(w.vehs[k].id, f);
                    w.sim.set_vehicle_frozen(w.vehs[k].id, f);
                }
            }
            3 => {
                // A road which nothing leads to
                if w.sim.iter_links().count() < w.links.len() + 4 {
                    let l = crate::gen::Turtle::new((rng.f(-50.0, 50.0), 0.0), rng.f(-PI, PI)).line(rng.f(5.0, 60.0));
                    w.sim.add_link(&traffic_sim::LinkAttributes { curve: &*l.boxed(), speed_limit: 9.0 });
                }
            }
            _ => {
                let n = w.sim.all_routes().count() + w.sim.iter_vehicles().count();
                let _ = (n, w.sim.frame(), site);
            }
        }
        out.hit("calls which change nothing");
    }
}

/// A rigid motion, possibly with a reflection.
#[derive(Clone, Copy, Debug)]
struct Motion {
    turn: f64,
    shift: P,
    mirror: bool,
}

impl Motion {
    fn vec(&self, p: P) -> P {
        let p = if self.mirror { (p.0, -p.1) } else { p };
        let (s, c) = self.turn.sin_cos();
        (c * p.0 - s * p.1, s * p.0 + c * p.1)
    }
    fn point(&self, p: P) -> P {
        let v = self.vec(p);
        (v.0 + self.shift.0, v.1 + self.shift.1)
    }
    fn net(&self, net: &Net) -> Net {
        let mut n = net.clone();
        for l in &mut n.links {
            let f = |p: P| self.point(p);
            l.curve = match &l.curve {
                Curve::Line(a, b) => Curve::Line(f(*a), f(*b)),
                Curve::Quad(p) => Curve::Quad(p.map(f)),
                Curve::Cubic(p) => Curve::Cubic(p.map(f)),
                Curve::Arc(a) => {
                    let s = if self.mirror { -1.0 } else { 1.0 };
                    Curve::Arc(Arc { centre: f(a.centre), r: a.r, a0: s * a.a0 + self.turn, sweep: s * a.sweep })
                }
            };
        }
        if self.mirror {
            for (row, bits) in &mut n.groups {
                let k = row.len();
                let mut b = 0;
                for i in 0..k {
                    let (left, right) = (*bits >> (2 * i) & 1, *bits >> (2 * i + 1) & 1);
                    b |= right << (2 * (k - 1 - i)) | left << (2 * (k - 1 - i) + 1);
                }
                row.reverse();
                *bits = b;
            }
        }
        n
    }
}

fn diverges(site: &Site, s: &Script, m: Motion, dt: f64, out: &mut Out) -> Option<String> {
    let mut w = World::new(m.net(&site.net));
    let all: Vec<usize> = (0..w.links.len()).collect();
    let mut keys = vec![];
    for (i, ops) in s.ops.iter().enumerate() {
        replay(&mut w, ops, &all, &mut keys);
        w.step(dt);
        for (k, o) in s.frames[i].vehs.iter().enumerate() {
            let n = w.now[keys[k]];
            let (o, n) = match (o, n) {
                (None, None) => continue,
                (Some(o), Some(n)) => (o, n),
                _ => return Some(format!("after step {i} vehicle {k} is {n:?} instead of {o:?}")),
            };
            let near = |a: P, b: P| dist(a, b) < 1e-4;
            let rear = if m.mirror { [o.rear[1], o.rear[0]] } else { o.rear };
            let ok = o.link == n.link
                && (o.pos - n.pos).abs() < 1e-4
                && (o.vel - n.vel).abs() < 1e-4
                && near(m.point(o.xy), n.xy)
                && near(m.vec(o.dir), n.dir)
                && near(m.point(rear[0]), n.rear[0])
                && near(m.point(rear[1]), n.rear[1]);
            if !ok {
                return Some(format!("after step {i} vehicle {k} is {n:?} instead of {o:?}"));
            }
            out.add("observations compared", 1);
            out.add("of them in a mirror", m.mirror as u64);
        }
    }
    None
}

fn motions(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let site = any_site(rng);
    let dt = rng.pick(&DTS);
    let s = record(rng, &site, &Mix { room: 15.0, beside: true, ..MIX }, dt, 45.0);
    let mirror = rng.chance(0.6);
    let m = Motion { turn: rng.f(-PI, PI), shift: (rng.f(-500.0, 500.0), rng.f(-500.0, 500.0)), mirror };
    out.sample = format!("{}, {m:?}, dt={dt}", site.name);
    out.nontrivial = s.events > 300;
    out.sig = s.sig;
    if let Some(e) = diverges(&site, &s, m, dt, out) {
        // Where a decision is on the brink, rounding decides it; then it does so as well
        // when the network is moved by next to nothing, before or after the motion
        let mut nudge = |m: Motion| Motion {
            turn: m.turn + rng.f(-1e-8, 1e-8),
            shift: (m.shift.0 + rng.f(-1e-6, 1e-6), m.shift.1 + rng.f(-1e-6, 1e-6)),
            ..m
        };
        let still = Motion { turn: 0.0, shift: (0.0, 0.0), mirror: false };
        let before = (0..12).filter(|_| diverges(&site, &s, nudge(still), dt, &mut Out::default()).is_none()).count();
        let after = (0..12).filter(|_| diverges(&site, &s, nudge(m), dt, &mut Out::default()).is_none()).count();
        if before < 12 || after > 0 {
            out.hit("histories on the brink");
            out.nontrivial = false;
            return Ok(());
        }
        return Err(format!("{} {m:?}: {e}", site.name));
    }
    out.hit(if m.mirror { "networks mirrored" } else { "networks moved" });
    Ok(())
}

/// Only few histories may depend on rounding.
fn few_on_the_brink(c: &Counts) -> Res {
    let get = |k: &str| *c.get(k).unwrap_or(&0);
    let (brink, fine) = (get("histories on the brink"), get("networks mirrored") + get("networks moved"));
    ensure!(brink * 50 < fine + brink, "{brink} of {} histories depend on the slightest motion", fine + brink);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            rule: "A recorded random history on a random site is repeated: as it was, with calls in between which change nothing, beside or on top of another network with its own traffic and with empty roads connected to it, on the same network built in another order, or without the vehicles which came last; all observations must be bit-identical. Non-trivial: at least 300 (200 without the last vehicles) observations.",
            cases: [18_000, 500_000],
            need: &[("histories repeated", 300), ("histories with calls which change nothing", 300), ("networks far apart", 300), ("networks on top of each other", 300), ("networks built in another order", 300), ("vehicles in line with other roads", 1000), ("empty roads which join", 1000), ("empty roads which turn off", 500), ("queues without their last vehicles", 300), ("observations compared", 1_000_000)],
            run: independence, post: no_post,
        },
        Check {
            id: "C21",
            rule: "A recorded random history on a random site is repeated on the same network turned, moved and possibly mirrored. Non-trivial: at least 300 observations.",
            cases: [12_000, 400_000],
            need: &[("networks mirrored", 500), ("networks moved", 500), ("observations compared", 1_000_000)],
            run: motions, post: few_on_the_brink,
        },
    ]
}
