//! Where vehicles go.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;

/// The least total cost of the links driven to get from the start of each link to `dst`,
/// not counting `dst` itself. Bellman-Ford on the harness' own model of the network.
fn least_costs(w: &World, dst: usize) -> Vec<Option<usize>> {
    let n = w.links.len();
    let mut best = vec![None; n];
    best[dst] = Some(0);
    for _ in 0..n {
        for (a, b) in &w.net.conns {
            if let Some(c) = best[*b] {
                let c = c + w.sim.get_link(w.links[*a]).cost();
                if *a != dst && best[*a].map_or(true, |x| c < x) {
                    best[*a] = Some(c);
                }
            }
        }
    }
    best
}

/// Lone vehicles on a street grid with a choice of routes.
fn shortest(rng: &mut Rng, out: &mut Out) -> Res {
    let (gw, gh) = (rng.i(2, 5), rng.i(2, 5));
    let net = grid_net(rng, gw, gh);
    if net.links.len() < 3 {
        return Ok(());
    }
    let n = net.links.len();
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let src = rng.i(0, n - 1);
    let reach = reachable(&w.net, src);
    let dsts: Vec<usize> = (0..n).filter(|l| reach[*l]).collect();
    // Often a far one
    let pick = |rng: &mut Rng, w: &World, from: usize, dsts: &[usize]| {
        let tries = [rng.pick(dsts), rng.pick(dsts), rng.pick(dsts)];
        if rng.chance(0.3) {
            return tries[0];
        }
        *tries.iter().max_by_key(|d| least_costs(w, **d)[from]).unwrap()
    };
    let mut dst = pick(rng, &w, src, &dsts);
    let attrs = random_attrs(rng);
    let k = w.spawn(attrs, src, Some(dst));
    out.sample = format!("{gw}x{gh} grid, from {src} to {dst}, dt={dt}");
    let id = w.vehs[k].id;
    let mut turns = rng.i(0, 2);
    let mut path = vec![src];
    let mut start = 0;
    let secs = 40.0 + 30.0 * n as f64;
    while w.time < secs && w.alive(k) {
        ensure!(w.sim.get_vehicle(id).destination() == w.links[dst], "the destination is not the one set");
        w.step(dt);
        let Some(o) = w.now[k] else { break };
        if o.link != *path.last().unwrap() {
            path.push(o.link);
        }
        // Change the destination on the way, with time to act on it
        let room = 20.0 + 2.0 * o.vel + o.vel * o.vel / 3.0;
        if turns > 0 && rng.chance(0.1 * dt) && o.pos + room < w.lengths[o.link] {
            let reach = reachable(&w.net, o.link);
            let dsts: Vec<usize> = (0..n).filter(|l| reach[*l]).collect();
            dst = pick(rng, &w, o.link, &dsts);
            w.set_dst(k, dst);
            turns -= 1;
            start = path.len() - 1;
            out.hit("destinations changed");
        }
    }
    ensure!(!w.alive(k), "the vehicle is still on {path:?} after {secs} s, destination {dst}");
    ensure!(*path.last().unwrap() == dst, "the vehicle left at the end of {:?}, destination {dst}", path.last());
    let best = least_costs(&w, dst)[path[start]].unwrap();
    let cost: usize = path[start..path.len() - 1].iter().map(|l| w.sim.get_link(w.links[*l]).cost()).sum();
    ensure!(cost == best, "drove {:?} at a cost of {cost}, the cheapest way costs {best}", &path[start..]);
    out.hit("routes compared");
    if path.len() - start > 3 {
        out.hit("routes over several links");
    }
    out.nontrivial = path.len() > 2;
    out.sig = w.sig;
    Ok(())
}

/// Vehicles which have nowhere to go, or cannot get there.
fn nowhere(rng: &mut Rng, out: &mut Out) -> Res {
    let (gw, gh) = (rng.i(2, 4), rng.i(2, 4));
    let net = if rng.chance(0.3) { let n = rng.i(1, 4); chain(rng, n, (40.0, 150.0), (8.0, 16.0)) } else { grid_net(rng, gw, gh) };
    let n = net.links.len();
    if n == 0 {
        return Ok(());
    }
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let src = rng.i(0, n - 1);
    let reach = reachable(&w.net, src);
    let bad: Vec<usize> = (0..n).filter(|l| !reach[*l]).collect();
    let dst = if bad.is_empty() || rng.chance(0.4) { None } else { Some(rng.pick(&bad)) };
    let attrs = random_attrs(rng);
    // Sometimes it sets out for a place which it could reach
    let first: Vec<usize> = (0..n).filter(|l| reach[*l] && *l != src).collect();
    let mut misled = dst.is_some() && !first.is_empty() && rng.chance(0.5);
    let k = w.spawn(attrs, src, if misled { Some(rng.pick(&first)) } else { dst });
    let (was_misled, when) = (misled, rng.f(0.0, 12.0));
    out.sample = format!("{n} links, from {src} to {dst:?}, dt={dt}");
    while w.time < if was_misled { 300.0 } else { 150.0 } {
        if let (true, Some(o)) = (misled, w.now[k]) {
            let room = 20.0 + 2.0 * o.vel + o.vel * o.vel / 3.0;
            if w.time > when && o.pos + room < w.lengths[o.link] {
                let reach = reachable(&w.net, o.link);
                let bad: Vec<usize> = (0..n).filter(|l| !reach[*l]).collect();
                w.set_dst(k, rng.pick(&bad));
                misled = false;
                out.hit("sent to where there is no way");
            }
        }
        w.step(dt);
        if misled && w.now[k].is_none() {
            // It got there before
            return Ok(());
        }
        let Some(o) = w.now[k] else {
            return Err(format!("a vehicle without a reachable destination left at t={:.2}", w.time));
        };
        ensure!(o.pos + 0.5 * attrs.length <= w.lengths[o.link] || o.link != src || was_misled,
            "a vehicle without a reachable destination drove past the end of its link");
    }
    let o = w.now[k].unwrap();
    ensure!(o.vel < 0.05, "a vehicle without a reachable destination still drives at {} m/s", o.vel);
    let d = w.lengths[o.link] - o.pos - 0.5 * attrs.length;
    ensure!(d > 0.0 && d < 4.0, "a vehicle with nowhere to go waits {d} m before the end of its link");
    out.hit("dead ends");
    // Given somewhere to go, it goes there
    let given = w.vehs[k].dst.filter(|_| rng.chance(0.5));
    let to = if let Some(to) = given {
        // A way to where it wanted to go is made, and it is told to go there once more
        let ways: Vec<usize> = (0..n).filter(|l| *l != o.link && reachable(&w.net, *l)[to]).collect();
        w.connect(o.link, rng.pick(&ways));
        out.hit("sent once more");
        to
    } else {
        let reach = reachable(&w.net, o.link);
        let ways: Vec<usize> = (0..n).filter(|l| reach[*l]).collect();
        rng.pick(&ways)
    };
    w.set_dst(k, to);
    let secs = w.time + 40.0 + 30.0 * n as f64;
    let mut at = o.link;
    while w.time < secs && w.alive(k) {
        w.step(dt);
        if let Some(o) = w.now[k] {
            at = o.link;
        }
    }
    ensure!(!w.alive(k) && at == to, "a vehicle told to go to {to} after waiting is on {at}");
    out.hit("sent on from a dead end");
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

/// Traffic on a street grid, every vehicle on its own way.
fn busy(rng: &mut Rng, out: &mut Out) -> Res {
    let (gw, gh) = (rng.i(2, 4), rng.i(2, 4));
    let net = grid_net(rng, gw, gh);
    let n = net.links.len();
    if n < 3 {
        return Ok(());
    }
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    out.sample = format!("{gw}x{gh} grid with traffic, dt={dt}");
    let mut paths: Vec<Vec<usize>> = vec![];
    let rate = rng.f(0.1, 0.6);
    while w.time < 60.0 {
        if rng.chance(rate * dt) {
            let src = rng.i(0, n - 1);
            if w.entry_room(src) > 10.0 {
                let reach = reachable(&w.net, src);
                let dsts: Vec<usize> = (0..n).filter(|l| reach[*l]).collect();
                let (attrs, dst) = (random_attrs(rng), rng.pick(&dsts));
                w.spawn(attrs, src, Some(dst));
                paths.push(vec![src]);
            }
        }
        w.step(dt);
        for k in 0..w.now.len() {
            if let Some(o) = w.now[k] {
                if *paths[k].last().unwrap() != o.link {
                    paths[k].push(o.link);
                }
            } else if w.prev[k].is_some() {
                let dst = w.vehs[k].dst.unwrap();
                let path = &paths[k];
                ensure!(*path.last().unwrap() == dst, "vehicle {k} left at the end of {path:?}, destination {dst}");
                let best = least_costs(&w, dst)[path[0]].unwrap();
                let cost: usize = path[..path.len() - 1].iter().map(|l| w.sim.get_link(w.links[*l]).cost()).sum();
                ensure!(cost == best, "vehicle {k} drove {path:?} at a cost of {cost}, the cheapest way costs {best}");
                out.hit("routes compared");
            }
        }
    }
    out.nontrivial = out.counts.contains_key("routes compared");
    out.sig = w.sig;
    Ok(())
}

/// A vehicle which may have to change lanes on its way.
fn lanes(rng: &mut Rng, out: &mut Out) -> Res {
    // Vehicles look for another lane within the last 200 m, which is enough for five changes
    let wide = rng.chance(0.2);
    let (net, rows) = if wide {
        lanes_net_of(rng, Mask::All, 3.5, (5, 6), (1, 2), (450.0, 800.0))
    } else {
        lanes_net(rng, Mask::Random, 3.5)
    };
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let (r0, r1) = (0, rng.i(0, rows.len() - 1));
    let (src, dst) = if wide && rng.chance(0.5) {
        // From one side to the other
        let (a, b) = (rows[r0][0], *rows[r1].last().unwrap());
        let (c, d) = (*rows[r0].last().unwrap(), rows[r1][0]);
        rng.pick(&[(a, b), (c, d)])
    } else {
        (rng.pick(&rows[r0]), rng.pick(&rows[r1]))
    };
    let ok = reachable(&w.net, src)[dst];
    let attrs = random_attrs(rng);
    let k = w.spawn(attrs, src, Some(dst));
    out.sample = format!("{} sections of {} lanes, from {src} to {dst}, dt={dt}", rows.len(), rows[0].len());
    let mut path = vec![src];
    let secs = if wide { 400.0 } else { 180.0 };
    while w.time < secs && w.alive(k) {
        w.step(dt);
        if let Some(o) = w.now[k] {
            if o.link != *path.last().unwrap() {
                path.push(o.link);
            }
        }
    }
    if ok {
        ensure!(!w.alive(k) && *path.last().unwrap() == dst, "a vehicle which could get to {dst} drove {path:?} (left: {})", !w.alive(k));
        let changes = path.windows(2).filter(|p| !w.outs[p[0]].contains(&p[1])).count();
        // No detours over lanes: at most the changes which are needed
        let lane = |l: usize| rows.iter().find_map(|r| r.iter().position(|x| *x == l)).unwrap();
        let need = lane(src).abs_diff(lane(dst));
        ensure!(changes == need, "changed lanes {changes} times where {need} are needed: {path:?}");
        out.hit("lane routes");
        if need > 3 {
            out.hit("lane routes with many lane changes");
        }
        if need > 0 {
            out.hit("lane routes with lane changes");
        }
    } else {
        ensure!(w.alive(k), "a vehicle which could not get to {dst} left from {path:?}");
        out.hit("lane routes which don't exist");
    }
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

/// A vehicle moved by the user to a lane it would not have taken itself.
fn moved(rng: &mut Rng, out: &mut Out) -> Res {
    let mut net = Net::default();
    let lanes = rng.i(2, 4);
    let mut add = |net: &mut Net, c: Curve, limit: f64| {
        net.links.push(LinkSpec { curve: c, limit });
        net.links.len() - 1
    };
    let len = rng.f(350.0, 600.0);
    let y = |i: usize| -3.5 * i as f64;
    let limit = rng.f(8.0, 17.0);
    let row: Vec<usize> = (0..lanes).map(|i| add(&mut net, Curve::Line((0.0, y(i)), (len, y(i))), limit)).collect();
    let mut mask = 0;
    let marked = rng.chance(0.4);
    for i in 0..lanes {
        for (bit, ok) in [(2 * i, i > 0), (2 * i + 1, i + 1 < lanes)] {
            if marked && ok && rng.chance(0.4) {
                mask |= 1 << bit;
            }
        }
    }
    net.groups.push((row.clone(), mask));
    // Some lanes lead to the common end, some to an end of their own
    let end = add(&mut net, Curve::Line((len + 80.0, 0.0), (len + 200.0, 0.0)), limit);
    let mut linked = vec![];
    for i in 0..lanes {
        if rng.chance(0.75) {
            let mut x = len;
            let mut last = row[i];
            for _ in 0..rng.i(0, 2) {
                let m = add(&mut net, Curve::Line((x, y(i)), (x + 25.0, y(i))), rng.f(8.0, 17.0));
                net.conns.push((last, m));
                (last, x) = (m, x + 25.0);
            }
            let m = add(&mut net, Curve::Line((x, y(i)), (len + 80.0, 0.0)), rng.f(8.0, 17.0));
            net.conns.push((last, m));
            net.conns.push((m, end));
            linked.push(i);
        } else if rng.chance(0.5) {
            let m = add(&mut net, Curve::Line((len, y(i)), (len + 60.0, y(i))), limit);
            net.conns.push((row[i], m));
        }
    }
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let attrs = random_attrs(rng);
    let from = rng.i(0, lanes - 1);
    let k = w.spawn(attrs, row[from], Some(end));
    let before = rng.f(0.0, 80.0);
    let to = row[if from == 0 || (from + 1 < lanes && rng.chance(0.5)) { from + 1 } else { from - 1 }];
    let mut done = false;
    let mut at = row[from];
    out.sample = format!("moved from lane {from} of {lanes}, {linked:?} lead on, dt={dt}");
    while w.time < 300.0 && w.alive(k) {
        let o = w.now[k];
        if let (false, Some(o)) = (done, o) {
            if o.link != row[from] {
                return Ok(()); // Has already changed lanes itself
            }
            if o.pos > before {
                w.lane_change(k, to, rng.f(20.0, 40.0));
                done = true;
            }
        }
        w.step(dt);
        if let Some(o) = w.now[k] {
            at = o.link;
        }
    }
    if reachable(&w.net, to)[end] {
        ensure!(!w.alive(k) && at == end, "a vehicle moved to {to}, which leads to its destination, is on {at}");
        out.hit("found a way from another lane");
    } else {
        ensure!(w.alive(k), "a vehicle moved to {to} without a way to its destination left at {at}");
        out.hit("no way from another lane");
    }
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

fn routing(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    match idx % 5 {
        0 => shortest(rng, out),
        1 => nowhere(rng, out),
        2 => busy(rng, out),
        3 => lanes(rng, out),
        _ => moved(rng, out),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C04",
        rule: "Routes in random grids, random small graphs and multi-lane roads, alone and in traffic, compared with an independent shortest-path search. Non-trivial: a route was compared (over more than two links in the grid cases).",
        cases: [12_000, 300_000],
        need: &[("routes compared", 1_500), ("routes over several links", 30), ("dead ends", 100), ("sent on from a dead end", 100), ("sent once more", 100), ("sent to where there is no way", 60), ("lane routes", 80), ("lane routes with lane changes", 40), ("lane routes with many lane changes", 20), ("destinations changed", 40), ("found a way from another lane", 100), ("no way from another lane", 30)],
        run: routing,
        post: no_post,
    }]
}
