//! Car following, freezing and speed limits on single lanes.

use crate::core::{no_post, Check, Counts, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;

/// Position along a chain of links, counted from the start of its first link.
pub fn chain_pos(w: &World, o: &Obs) -> f64 {
    w.lengths[..o.link].iter().sum::<f64>() + o.pos
}

/// The vehicles of a chain, front to back.
pub fn platoon(w: &World) -> Vec<Key> {
    let mut ks = w.live_keys();
    ks.sort_by(|a, b| {
        let p = |k: &Key| chain_pos(w, &w.now[*k].unwrap());
        p(b).partial_cmp(&p(a)).unwrap()
    });
    ks
}

pub fn gap(w: &World, follower: Key, leader: Key) -> f64 {
    let (f, l) = (w.now[follower].unwrap(), w.now[leader].unwrap());
    chain_pos(w, &l) - 0.5 * w.vehs[leader].attrs.length
        - chain_pos(w, &f) - 0.5 * w.vehs[follower].attrs.length
}

fn following(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(1, 5);
    let short = idx % 4 == 3;
    let len = if short { (20.0, 60.0) } else { (70.0, 220.0) };
    let net = chain(rng, n, len, (7.0, 18.0));
    let last = net.links.len() - 1;
    let mut w = World::new(net.clone());
    let site = Site { name: format!("chain of {n}"), net, od: vec![(0, vec![last])] };
    let dt = rng.pick(&DTS);
    let mix = Mix {
        spawn: 0.7,
        room: 12.0,
        freeze: rng.pick(&[0.0, 0.05, 0.2]),
        remove: 0.02,
        toggle: rng.pick(&[0.0, 0.1]),
        adjust: 0.05,
        ..Default::default()
    };
    out.sample = format!("{}, dt={dt}, {mix:?}", site.name);
    // How long each vehicle has been too close to one which is not faster
    let mut close: Vec<(f64, Key)> = vec![];
    let mut order: Vec<Key> = vec![];
    let mut still: Vec<f64> = vec![];
    let mut pair: Vec<Key> = vec![];
    let mut worst = f64::INFINITY;
    let res = run(rng, &mut w, &site, &mix, dt, 110.0, &mut |w, acts| {
        close.resize(w.now.len(), (0.0, 0));
        still.resize(w.now.len(), 0.0);
        pair.resize(w.now.len(), usize::MAX);
        for a in acts {
            if let Act::Spawn(k) = a {
                order.push(*k);
            }
        }
        order.retain(|k| w.alive(*k));
        let p = platoon(w);
        ensure!(p == order, "t={:.2}: vehicles overtook on a single lane: {p:?}, expected {order:?}", w.time);
        for x in p.windows(2) {
            let (l, f) = (x[0], x[1]);
            let g = gap(w, f, l);
            worst = worst.min(g);
            ensure!(g > 0.0, "t={:.2}: vehicle {f} ran {} m into vehicle {l}", w.time, -g);
            out.hit("gaps");
            let (lo, fo) = (w.now[l].unwrap(), w.now[f].unwrap());
            let want = 2.0 + w.vehs[f].attrs.headway * fo.vel;
            if !short && close[f].0 > 0.1 + 2.0 * dt + 1e-9 && close[f].1 == l {
                let v0 = w.prev[f].unwrap().vel;
                ensure!(fo.vel <= v0 + 1e-9, "t={:.2}: vehicle {f} sped up from {v0} to {} with a gap of {g}, wants {want}", w.time, fo.vel);
                out.hit("close followers held back");
            }
            if g < want && lo.vel <= fo.vel {
                close[f] = if close[f].1 == l { (close[f].0 + dt, l) } else { (0.0, l) };
            } else {
                close[f] = (0.0, l);
            }
            // A queue at rest closes up to the standstill gap
            let rest = lo.vel == 0.0 && fo.vel < 1e-3 && !w.vehs[f].frozen && lo.link == fo.link;
            still[f] = if rest && pair[f] == l { still[f] + dt } else { 0.0 };
            pair[f] = l;
            if still[f] > 25.0 {
                out.max("standstill gap", g);
                ensure!(g > 1.0 && g < 3.0, "t={:.2}: standstill gap {g}", w.time);
                out.hit("standstill gaps");
            }
        }
        Ok(())
    });
    out.nontrivial = worst < 20.0;
    out.max("closeness", if worst.is_finite() { 10.0 - worst } else { 0.0 });
    out.sig = w.sig;
    res
}

/// Freezing on any site.
fn freezing(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    if idx % 4 == 0 {
        return freeze_alone(rng, out);
    }
    let site = any_site(rng);
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let mix = Mix {
        spawn: 0.4,
        room: 12.0,
        freeze: 0.5,
        remove: 0.03,
        toggle: 0.05,
        retarget: 0.05,
        lane_change: 0.1,
        adjust: 0.05,
        ..Default::default()
    };
    out.sample = format!("{}, dt={dt}", site.name);
    let mut since: Vec<Option<f64>> = vec![];
    let res = run(rng, &mut w, &site, &mix, dt, 80.0, &mut |w, acts| {
        since.resize(w.now.len(), None);
        for a in acts {
            if let Act::Freeze(k, on) = a {
                since[*k] = match (on, since[*k]) {
                    (true, s) => s.or(Some(0.0)),
                    (false, _) => None,
                };
            }
        }
        for k in 0..w.now.len() {
            let (Some(a), Some(b)) = (w.prev[k], w.now[k]) else { continue };
            let id = w.vehs[k].id;
            ensure!(w.sim.get_vehicle_frozen(id) == since[k].is_some(), "t={:.2}: vehicle {k} reports frozen={}", w.time, since[k].is_none());
            let Some(s) = since[k].as_mut() else { continue };
            // Accelerations are updated at least every 0.1 s
            if *s > 0.1 + dt + 1e-9 {
                let want = (a.vel - 6.0 * dt).max(0.0);
                ensure!((b.vel - want).abs() < 1e-9, "t={:.2}: frozen vehicle {k} went from {} to {} m/s, expected {want}", w.time, a.vel, b.vel);
                out.hit("frozen steps");
                if a.vel > 0.0 {
                    out.hit("braking steps");
                } else if a.link == b.link {
                    ensure!((a.pos - b.pos).abs() < 1e-9, "t={:.2}: frozen vehicle {k} moved", w.time);
                }
            }
            *s += dt;
        }
        Ok(())
    });
    out.nontrivial = out.counts.get("braking steps").copied().unwrap_or(0) > 0;
    out.sig = w.sig;
    res
}

/// A lone vehicle: freezing stops it, releasing it sets it off again.
fn freeze_alone(rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(1, 3);
    let net = chain(rng, n, (150.0, 300.0), (8.0, 18.0));
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let attrs = random_attrs(rng);
    let k = w.spawn(attrs, 0, Some(n - 1));
    let id = w.vehs[k].id;
    // A removed vehicle's freeze must not carry over to another
    let ghost = w.spawn(attrs, 0, Some(n - 1));
    w.freeze(ghost, true);
    w.remove(ghost);
    let other = {
        let id = w.sim.add_vehicle(&attrs.real(), w.links[0]);
        let f = w.sim.get_vehicle_frozen(id);
        w.sim.remove_vehicle(id);
        f
    };
    ensure!(!other, "a new vehicle starts frozen");
    out.sample = format!("lone vehicle on a chain of {n}, dt={dt}");
    let steps = |s: f64| (s / dt).ceil() as usize;
    for _ in 0..rng.i(1, 3) {
        for _ in 0..steps(rng.f(0.5, 5.0)) {
            w.step(dt);
        }
        let Some(o) = w.now[k] else { break };
        for _ in 0..rng.i(1, 3) {
            w.freeze(k, true);
        }
        let limit = o.vel / 6.0 + 0.1 + 3.0 * dt + 0.1;
        for _ in 0..steps(limit) {
            w.step(dt);
        }
        let Some(p) = w.now[k] else { break };
        ensure!(p.vel == 0.0, "frozen at {} m/s, still moving at {} after {limit} s", o.vel, p.vel);
        for _ in 0..steps(rng.f(1.0, 20.0)) {
            w.step(dt);
        }
        ensure!(w.now[k] .map(|q| q.pos) == Some(p.pos), "a frozen vehicle moved");
        ensure!(w.sim.get_vehicle_frozen(id), "a frozen vehicle reports it isn't");
        w.freeze(k, false);
        ensure!(!w.sim.get_vehicle_frozen(id), "a released vehicle reports it is frozen");
        for _ in 0..steps(0.5) + 2 {
            w.step(dt);
        }
        if let Some(q) = w.now[k] {
            ensure!(q.vel > 0.2 * attrs.max_acc, "released, but its speed is {} after half a second", q.vel);
        }
        out.hit("freeze cycles");
        out.hit("frozen steps");
    }
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

/// Speed limits on a chain.
fn limits(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    if idx % 5 == 4 {
        return free_speed(rng, out);
    }
    let n = rng.i(1, 5);
    let net = chain(rng, n, (90.0, 300.0), (6.0, 20.0));
    let mut w = World::new(net.clone());
    let dt = rng.pick(&DTS);
    let adjusted = idx % 2 == 1;
    let site = Site { name: format!("chain of {n}"), net, od: vec![(0, vec![n - 1])] };
    let mix = Mix {
        spawn: rng.pick(&[0.05, 0.3]),
        room: 15.0,
        adjust: if adjusted { 0.2 } else { 0.0 },
        ..Default::default()
    };
    out.sample = format!("{}, dt={dt}, adjusted={adjusted}", site.name);
    let factor = if adjusted { 1.25 } else { 1.0 };
    let mut over: Vec<f64> = vec![];
    let res = run(rng, &mut w, &site, &mix, dt, 120.0, &mut |w, _| {
        over.resize(w.now.len(), 0.0);
        for k in 0..w.now.len() {
            let (Some(a), Some(b)) = (w.prev[k], w.now[k]) else { continue };
            let v_max = factor * w.net.links[b.link].limit;
            if a.link != b.link {
                out.max("entry excess", b.vel - v_max);
                ensure!(b.vel <= v_max + 1.5, "t={:.2}: vehicle {k} drove onto link {} at {} m/s, limit {v_max}", w.time, b.link, b.vel);
                if a.vel > 1.1 * v_max {
                    out.hit("slower links entered above the limit");
                }
                if w.net.links[a.link].limit > 1.2 * w.net.links[b.link].limit {
                    out.hit("slower links entered");
                }
                over[k] = 0.0;
            }
            if b.vel > v_max {
                over[k] += dt;
                if over[k] > 0.1 + 2.0 * dt + 1e-9 {
                    ensure!(b.vel <= a.vel + 1e-9, "t={:.2}: vehicle {k} sped up to {} over the limit of {v_max}", w.time, b.vel);
                    out.hit("steps above the limit");
                }
            } else {
                if over[k] == 0.0 {
                    out.hit("steps within the limit");
                }
                over[k] = 0.0;
            }
            if over[k] > 0.0 {
                out.max("time over", over[k]);
                out.max("excess", b.vel - v_max);
            }
        }
        Ok(())
    });
    out.nontrivial = true;
    out.sig = w.sig;
    res
}

/// The factors drawn average one.
fn fair_factors(c: &Counts) -> Res {
    let get = |k: &str| c.get(k).copied().unwrap_or(0) as f64;
    let n = get("factors drawn");
    let mean = 1e-6 * get("factors drawn, sum of parts per million") / n;
    ensure!(n < 1000.0 || (mean - 1.0).abs() < 0.003 + 6.0 * 0.25 / n.sqrt(), "the mean of {n} settled speeds is {mean} of the limit");
    Ok(())
}

/// What speed vehicles settle at with nothing in their way, each on a road of its own.
fn free_speed(rng: &mut Rng, out: &mut Out) -> Res {
    let mut net = Net::default();
    let count = 60;
    let mut ahead = vec![];
    for i in 0..count {
        let mut t = Turtle::new((0.0, 10.0 * i as f64), rng.f(-0.5, 0.5));
        let limit = rng.f(6.0, 20.0);
        net.links.push(LinkSpec { curve: t.line(100.0 * limit), limit });
        ahead.push(LinkSpec { curve: t.line(2000.0), limit: rng.f(5.0, 20.0) });
        net.conns.push((i, count + i));
    }
    net.links.extend(ahead);
    let mut w = World::new(net);
    let dt = rng.pick(&[0.1, 0.15, 0.2]);
    for i in 0..count {
        let attrs = random_attrs(rng);
        w.spawn(attrs, i, Some(count + i));
    }
    let sd = rng.pick(&[0.0, 0.05, 0.1, 0.2, 5.0]);
    let call = sd > 0.0 || rng.chance(0.5);
    if call {
        w.sim.randomise_velocity_adjusts(sd);
    }
    out.sample = format!("{count} lone vehicles, dt={dt}, adjustment deviation {sd}");
    let (mut t, mut top) = (0.0, vec![0.0f64; count]);
    while t < 60.0 {
        w.step(dt);
        t += dt;
        for k in 0..count {
            let (a, b) = (w.prev[k].unwrap(), w.now[k].ok_or("a vehicle vanished")?);
            ensure!(b.vel >= a.vel - 1e-9 || b.vel > 0.99 * top[k], "vehicle {k} slowed down to {} on an empty road", b.vel);
            top[k] = top[k].max(b.vel);
        }
    }
    let f: Vec<f64> = (0..count).map(|k| w.now[k].unwrap().vel / w.net.links[k].limit).collect();
    let (lo, hi) = f.iter().fold((f64::MAX, 0.0f64), |m, x| (m.0.min(*x), m.1.max(*x)));
    if sd == 0.0 {
        ensure!(lo > 0.99 && hi < 1.001, "settled speeds are {lo}..{hi} of the limit");
    } else {
        ensure!(lo > 0.75 * 0.99 && hi < 1.25 * 1.001, "settled speeds are {lo}..{hi} of the limit");
        ensure!(hi - lo > 0.2 * sd.min(0.25), "settled speeds are all {lo}..{hi} of the limit");
        let mean = f.iter().sum::<f64>() / count as f64;
        ensure!((mean - 1.0).abs() < 0.02 + sd.min(0.25) * 8.0 / (count as f64).sqrt(), "mean settled speed is {mean} of the limit");
        out.add("factors drawn", count as u64);
        out.add("factors drawn, sum of parts per million", (1e6 * mean) as u64 * count as u64);
    }
    out.add("settled speeds", count as u64);
    // They keep their factor on the next link, and brake in time for it if it is slower
    while t < 160.0 {
        w.step(dt);
        t += dt;
        for k in 0..count {
            let (Some(a), Some(b)) = (w.prev[k], w.now[k]) else { continue };
            let want = f[k] * w.net.links[b.link].limit;
            if b.link == k {
                // No sooner than comfortable braking requires
                let then = f[k] * w.net.links[count + k].limit;
                let need = (b.vel * b.vel - then * then).max(0.0) / (2.0 * w.vehs[k].attrs.comf_dec);
                if w.lengths[k] - b.pos > 1.1 * need + 2.0 + 0.5 * b.vel + 0.5 * w.vehs[k].attrs.length {
                    ensure!(b.vel > 0.985 * want, "a vehicle which drives at {want} slowed down to {} for a link {} m ahead, where it wants to drive at {then}", b.vel, w.lengths[k] - b.pos);
                    out.hit("steps before braking");
                }
            }
            if a.link != b.link && want < a.vel {
                out.max("excess over the speed wanted, m/s", b.vel - want);
                ensure!(b.vel < 1.02 * want + 1.0, "a vehicle which drives at {} of the limit came onto a link with a limit of {} at {}", f[k], want / f[k], b.vel);
                out.hit("slower links entered alone");
            }
        }
    }
    for k in 0..count {
        let Some(o) = w.now[k].filter(|o| o.link == count + k && o.pos > 700.0) else { continue };
        let g = o.vel / w.net.links[o.link].limit;
        ensure!((g - f[k]).abs() < 0.01, "a vehicle drives at {} of one limit and {g} of the next", f[k]);
        out.hit("factors compared");
    }
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
    Check { 
            id: "C11",
            rule: "Random sites with vehicles frozen and released at random moments, and lone vehicles frozen at a random speed. Non-trivial: a frozen vehicle was seen braking.",
            cases: [12_000, 300_000],
            need: &[("braking steps", 20_000), ("freeze cycles", 500), ("frozen steps", 50_000)], run: freezing, post: no_post },
    Check { 
            id: "C09",
            rule: "Lone vehicles and traffic on chains of links with random limits, with and without individual speed adjustment. Every case is non-trivial.",
            cases: [12_000, 300_000],
            need: &[("settled speeds", 5_000), ("factors compared", 2_000), ("steps before braking", 100_000), ("slower links entered alone", 1_000), ("slower links entered", 1_000), ("steps within the limit", 1_000_000)], run: limits, post: fair_factors },
    Check {
        
            id: "C05",
            rule: "Chains of random curves with queues, sudden stops, closures and mixed vehicles; every consecutive pair is watched at every step. Non-trivial: two vehicles came within 20 m of each other.",
            cases: [12_000, 300_000],
            need: &[("gaps", 1_000_000), ("close followers held back", 100_000), ("standstill gaps", 5_000)],
        run: following, post: no_post,
    }]
}
