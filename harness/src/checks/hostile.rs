//! Use of the interface at its limits: nothing but the documented preconditions is respected.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::{LinkAttributes, TrafficLight};

/// Roads with short links, sharp corners, rings and arbitrary controls.
fn odd_net(rng: &mut Rng) -> Net {
    let mut net = Net::default();
    let small = cfg!(miri);
    match rng.i(0, 3) {
        // A ring
        0 => {
            let n = rng.i(2, 6);
            let r = if small { rng.f(6.0, 10.0) } else { rng.f(6.0, 60.0) };
            for i in 0..n {
                let sweep = 2.0 * PI / n as f64;
                let arc = Arc { centre: (3.0, 4.0), r, a0: i as f64 * sweep, sweep };
                net.links.push(LinkSpec { curve: Curve::Arc(arc), limit: rng.f(2.0, 30.0) });
                net.conns.push((i, (i + 1) % n));
            }
        }
        // A chain of very short links
        1 => {
            let n = rng.i(2, if small { 5 } else { 14 });
            net = chain(rng, n, (0.4, 9.0), (3.0, 33.0));
        }
        // Links between random points, meeting at any angle
        2 => {
            let n = rng.i(2, if small { 4 } else { 9 });
            let ext = if small { 15.0 } else { rng.f(10.0, 120.0) };
            let pts: Vec<P> = (0..n).map(|_| (rng.f(-ext, ext), rng.f(-ext, ext))).collect();
            let mut ends = vec![];
            for _ in 0..rng.i(2, 2 * n) {
                let (a, b) = (rng.i(0, n - 1), rng.i(0, n - 1));
                if a == b || dist(pts[a], pts[b]) < 1.0 {
                    continue;
                }
                let (p, q) = (pts[a], pts[b]);
                let mut c = || (rng.f(-ext, ext), rng.f(-ext, ext));
                let (c1, c2) = (c(), c());
                let curve = match rng.i(0, 2) {
                    0 => Curve::Line(p, q),
                    1 => Curve::Quad([p, c1, q]),
                    _ => Curve::Cubic([p, c1, c2, q]),
                };
                ends.push((a, b));
                net.links.push(LinkSpec { curve, limit: rng.f(2.0, 30.0) });
            }
            for (j, b) in ends.iter().enumerate() {
                for (i, a) in ends.iter().enumerate() {
                    // No more than four roads lead to a place
                    let ins = net.conns.iter().filter(|c| c.1 == j).count();
                    if a.1 == b.0 && ins < 4 {
                        net.conns.push((i, j));
                    }
                }
            }
        }
        // Parallel lanes at any spacing
        _ => {
            let s = rng.f(0.5, 6.0);
            net = lanes_net(rng, Mask::Random, s).0;
            if small {
                let keep = net.groups[0].0.len();
                net.links.truncate(keep);
                net.groups.truncate(1);
                net.conns.clear();
            }
        }
    }
    let n = net.links.len();
    if n == 0 {
        return odd_net(rng);
    }
    for _ in 0..rng.i(0, 4) {
        let (a, b) = (rng.i(0, n - 1), rng.i(0, n - 1));
        net.conflicts.push((a, b));
    }
    for _ in 0..rng.i(0, 3) {
        net.controls.push((rng.i(0, n - 1), any_ctl(rng)));
    }
    if rng.chance(0.4) {
        net.lights.push(odd_light(rng, n));
    }
    net
}

fn any_ctl(rng: &mut Rng) -> Ctl {
    match rng.i(0, 3) {
        0 => Ctl::Open,
        1 => Ctl::Closed,
        _ => Ctl::Yield {
            distance: rng.f(0.0, 40.0),
            must_stop: rng.chance(0.5),
            priority: rng.i(0, 255) as u8 as i8,
        },
    }
}

fn odd_light(rng: &mut Rng, n: usize) -> LightSpec {
    let m = rng.i(0, 5);
    LightSpec {
        movements: (0..m)
            .map(|_| MovementSpec {
                conflict: rng.next(),
                amber: rng.f(0.0, 5.0),
                red: rng.f(0.0, 5.0),
                links: (0..rng.i(0, 2)).map(|_| rng.i(0, n - 1)).collect(),
            })
            .collect(),
        phases: (0..rng.i(0, 4)).map(|_| (rng.next(), rng.f(0.0, 9.0))).collect(),
    }
}

fn odd_attrs(rng: &mut Rng) -> Attrs {
    if rng.chance(0.4) {
        return random_attrs(rng);
    }
    Attrs {
        width: rng.f(0.3, 4.0),
        length: rng.f(0.5, 26.0),
        wheel_base: rng.f(0.1, 10.0),
        headway: rng.f(0.0, 5.0),
        max_acc: rng.f(0.2, 9.0),
        comf_dec: rng.f(0.3, 9.0),
    }
}

/// Reads everything that can be read.
fn probe(w: &World, out: &mut Out) -> Res {
    let fin = |x: f64| x.is_finite();
    let mut n = 0;
    for v in w.sim.iter_vehicles() {
        let (p, d, r) = (v.position(), v.direction(), v.rear_coords());
        let nums = [
            v.pos_mid(), v.pos_front(), v.pos_rear(), v.vel(), v.width(), v.length(),
            p.x, p.y, d.x, d.y, r[0].x, r[0].y, r[1].x, r[1].y,
        ];
        ensure!(nums.iter().all(|x| fin(*x)), "vehicle {:?} reports {nums:?} at t={:.3}", v.id(), w.time);
        ensure!(v.link_id().is_some(), "a listed vehicle is on no link");
        let t = v.min_reach_time(v.pos_mid() + 30.0, f64::max(v.vel(), 1.0));
        ensure!(fin(t) && t >= 0.0, "a vehicle at {} m/s needs {t} s for 30 m", v.vel());
        let _ = (v.has_stopped(), v.destination());
        n += 1;
    }
    out.add("vehicle states", n);
    Ok(())
}

fn probe_links(w: &World, rng: &mut Rng, out: &mut Out) -> Res {
    for l in w.sim.iter_links() {
        ensure!(l.length().is_finite() && l.length() > 0.0, "a link of length {}", l.length());
        // Anywhere near the link, also before its start and beyond its end
        let c = l.curve();
        for _ in 0..4 {
            let pos = rng.f(-20.0, l.length() + 20.0);
            let s = c.sample(pos, rng.f(-5.0, 5.0));
            ensure!(s.pos.x.is_finite() && s.pos.y.is_finite(), "a curve sampled at {pos} gives {:?}", s.pos);
        }
        let _ = (l.links_in(), l.links_out(), l.lane_changes(), l.reachable_lanes(), l.reachable_from_lanes(), l.cost());
        out.hit("links probed");
    }
    for (_, l) in w.sim.iter_lights() {
        let _ = l.state().count();
    }
    out.add("routes listed", w.sim.all_routes().take(200).count() as u64);
    Ok(())
}

fn hostile(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let mini = cfg!(miri);
    let net = if mini || rng.chance(0.6) { odd_net(rng) } else { any_site(rng).net };
    let n = net.links.len();
    out.sample = format!("{n} links, {} connections, {} groups, {} conflicts", net.conns.len(), net.groups.len(), net.conflicts.len());
    let mut w = World::new(net);
    let base_dt = rng.pick(&[0.0, 0.001, 0.02, 0.1, 0.1, 0.3, 0.7, 1.0]);
    let steps = if mini { 30 } else { rng.i(50, 400) };
    let cap = if mini { 4 } else { 40 };
    probe_links(&w, rng, out)?;
    for step in 0..steps {
        let live = w.live_keys();
        for _ in 0..rng.i(0, 2) {
            match rng.i(0, 11) {
                0..=3 if live.len() < cap => {
                    // On top of whatever is there
                    let (link, attrs) = (rng.i(0, w.links.len() - 1), odd_attrs(rng));
                    let dst = rng.chance(0.8).then(|| rng.i(0, w.links.len() - 1));
                    w.spawn(attrs, link, dst);
                    out.hit("vehicles added");
                }
                4 if !live.is_empty() => {
                    let k = rng.pick(&live);
                    w.remove(k);
                    if rng.chance(0.5) {
                        w.remove(k);
                    }
                    out.hit("vehicles removed");
                }
                5 if !w.vehs.is_empty() => {
                    // Possibly one that is gone
                    let k = rng.i(0, w.vehs.len() - 1);
                    let on = rng.chance(0.5);
                    w.freeze(k, on);
                    let id = w.vehs[k].id;
                    let _ = w.sim.get_vehicle_frozen(id);
                }
                6 => {
                    let l = rng.i(0, w.links.len() - 1);
                    let c = any_ctl(rng);
                    w.control(l, c);
                    out.hit("controls set");
                }
                7 | 8 if !live.is_empty() => {
                    let k = rng.pick(&live);
                    if w.alive(k) {
                        let d = rng.i(0, w.links.len() - 1);
                        w.set_dst(k, d);
                        out.hit("destinations set");
                    }
                }
                9 | 10 if !live.is_empty() => {
                    let k = rng.pick(&live);
                    let Some(o) = w.now[k] else { continue };
                    let row = w.net.groups.iter().find(|g| g.0.contains(&o.link)).map(|g| g.0.clone());
                    if let Some(row) = row {
                        let to = rng.pick(&row);
                        let d = rng.f(0.5, 150.0);
                        w.lane_change(k, to, d);
                        out.hit("lane changes");
                    }
                }
                11 => match rng.i(0, 4) {
                    0 => w.sim.randomise_velocity_adjusts(rng.f(0.0, 2.0)),
                    1 if w.links.len() < 60 => {
                        // Extend the network while it is in use
                        let from = rng.i(0, w.links.len() - 1);
                        let c = Curve::Line((rng.f(-50.0, 50.0), 0.0), (rng.f(-50.0, 50.0), rng.f(1.0, 90.0)));
                        let curve = c.boxed();
                        let id = w.sim.add_link(&LinkAttributes { curve: &*curve, speed_limit: rng.f(2.0, 30.0) });
                        w.sim.add_link_connection(w.links[from], id);
                        w.net.links.push(LinkSpec { curve: c, limit: 10.0 });
                        w.link_idx.insert(id, w.links.len());
                        w.links.push(id);
                        w.ctl.push(Ctl::Open);
                        w.lengths.push(w.sim.get_link(id).length());
                        out.hit("links added on the fly");
                    }
                    2 => {
                        let mut l = TrafficLight::new();
                        let link = w.links[rng.i(0, w.links.len() - 1)];
                        l.add_movement(rng.next(), rng.f(0.0, 4.0), rng.f(0.0, 4.0), [link].into_iter());
                        if rng.chance(0.7) {
                            l.add_phase(rng.next(), rng.f(0.0, 10.0));
                        }
                        if w.light_ids.len() < 5 {
                            w.sim.add_traffic_light(l);
                        }
                    }
                    _ => {
                        let (a, b) = (rng.i(0, w.links.len() - 1), rng.i(0, w.links.len() - 1));
                        w.sim.add_link_convergance(w.links[a], w.links[b]);
                    }
                },
                _ => {}
            }
        }
        let dt = if rng.chance(0.3) { rng.f(0.0, 1.0) } else { base_dt };
        w.step(dt);
        probe(&w, out)?;
        ensure!(w.sim.frame() == step + 1, "frame {} after {} steps", w.sim.frame(), step + 1);
    }
    probe_links(&w, rng, out)?;
    out.hit("histories");
    out.nontrivial = w.events > 100;
    out.sig = w.sig;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C01",
        rule: "Random networks (rings, chains of tiny links, tangled curves, narrow lanes, ordinary sites) under random calls in any order and steps of 0 to 1 s; everything readable is read after every step. Non-trivial: more than 100 vehicle states observed.",
        cases: [18_000, 500_000],
        need: &[("vehicle states", 1_000_000), ("lane changes", 5_000), ("vehicles removed", 10_000), ("destinations set", 20_000), ("controls set", 10_000), ("links added on the fly", 1_000)],
        run: hostile,
        post: no_post,
    }]
}
