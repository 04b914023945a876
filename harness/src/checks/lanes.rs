//! Lane changes, and vehicles in lanes next to each other.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::geom::*;
use crate::mon;
use crate::rng::Rng;
use crate::world::*;
use std::f64::consts::PI;

/// Parallel lanes of a single section, lane 0 leftmost. Radius 0 means straight.
fn section(rng: &mut Rng, n: usize, len: f64, radius: f64, spacing: f64, limit: f64) -> Net {
    let mut net = Net::default();
    let t0 = Turtle::new((rng.f(-90.0, 90.0), rng.f(-90.0, 90.0)), rng.f(-PI, PI));
    for k in 0..n {
        let off = -(k as f64) * spacing;
        let mut t = Turtle::new(t0.left(off), t0.h);
        let curve = if radius == 0.0 {
            t.line(len)
        } else {
            let r = if radius > 0.0 { radius - off } else { -radius + off };
            t.arc(r, radius.signum() * len / radius.abs())
        };
        net.links.push(LinkSpec { curve, limit });
    }
    net.groups.push(((0..n).collect(), !0));
    net
}

/// Lateral and longitudinal place of the vehicle's centre relative to its link.
fn offset(w: &World, o: &Obs) -> (f64, f64, P) {
    let c = w.sim.get_link(w.links[o.link]).curve().sample_centre(o.pos);
    let (p, tan) = ((c.pos.x, c.pos.y), (c.tan.x, c.tan.y));
    let rel = sub(o.xy, p);
    (dot(rel, (-tan.1, tan.0)), dot(rel, tan), tan)
}

/// A lane change asked for by the user.
fn asked(rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(2, 5);
    let spacing = rng.f(2.8, 4.0);
    let straight = rng.chance(0.5);
    let radius = if straight { 0.0 } else { rng.f(80.0, 250.0) * if rng.chance(0.5) { 1.0 } else { -1.0 } };
    let limit = rng.f(7.0, 18.0);
    let net = section(rng, n, 350.0, radius, spacing, limit);
    let mut w = World::new(net.clone());
    let mut twin = World::new(net);
    let dt = rng.pick(&DTS);
    let attrs = random_attrs(rng);
    let from = rng.i(0, n - 1);
    let k = w.spawn(attrs, from, None);
    twin.spawn(attrs, from, None);
    let id = w.vehs[k].id;
    out.sample = format!("{n} lanes {spacing:.2} m apart, radius {radius:.0}, dt={dt}");
    let mut lane = from;
    let start = rng.f(20.0, 60.0);
    let mut changes = rng.i(1, 3);
    let mut within = false;
    while w.now[k].unwrap().pos < start {
        w.step(dt);
        twin.step(dt);
    }
    while changes > 0 {
        changes -= 1;
        let to = if lane == 0 || (lane + 1 < n && rng.chance(0.5)) { lane + 1 } else { lane - 1 };
        let dist_lc = rng.f(15.0, 60.0);
        let a = w.now[k].unwrap();
        if a.pos + dist_lc + 60.0 > w.lengths[lane].min(w.lengths[to]) {
            break;
        }
        w.lane_change(k, to, dist_lc);
        let b = w.now[k].ok_or("a vehicle which changed lanes is gone")?;
        ensure!(b.link == to, "changed to lane {to}, but is on {}", b.link);
        ensure!(b.xy == a.xy && b.dir == a.dir && b.vel == a.vel, "asking for a lane change moved the vehicle by {} m", dist(a.xy, b.xy));
        let foot = mon::foot(&w, to, b.pos, a.xy);
        ensure!((foot - b.pos).abs() < 0.01, "is at {} on the new lane, but beside {foot}", b.pos);
        // The lateral profile: a cubic which starts with the vehicle's offset and slope
        let (y0, _, tan) = offset(&w, &b);
        if !within {
            ensure!((y0.abs() - spacing).abs() < 0.05 , "starts {y0} m beside the new lane, which is {spacing} m away");
            ensure!((y0 > 0.0) == (to > lane), "starts on the wrong side of the new lane");
        }
        // Another may be asked for during this one
        let until = if rng.chance(0.3) { rng.f(0.1, 0.9) } else { 1.0 };
        within = false;
        let kappa = if radius == 0.0 { 0.0 } else {
            let r = if radius > 0.0 { radius + to as f64 * spacing } else { -radius - to as f64 * spacing };
            radius.signum() / r
        };
        let slope = dot(a.dir, (-tan.1, tan.0)) / dot(a.dir, tan) * (1.0 - kappa * y0);
        let s0 = b.pos;
        let (mut last, mut prev_dir) = (y0, b.dir);
        loop {
            w.step(dt);
            twin.step(dt);
            let o = w.now[k].ok_or("vanished during a lane change")?;
            ensure!(o.link == to, "went to lane {} during a lane change to {to}", o.link);
            ensure!(w.sim.get_vehicle(id).link_id() == Some(w.links[to]), "link id");
            let s = (o.pos - s0) / dist_lc;
            let (y, lon, _) = offset(&w, &o);
            ensure!(lon.abs() < 1e-6, "is {lon} m away from its position");
            // Turning by more than its path does in one step would be a jump
            let turn = (prev_dir.0 * o.dir.1 - prev_dir.1 * o.dir.0).asin().abs();
            let travel = dist(w.prev[k].unwrap().xy, o.xy);
            ensure!(turn < 0.02 + travel / attrs.wheel_base * 0.35, "heading jumped by {turn} rad over {travel} m");
            prev_dir = o.dir;
            if s >= 1.0 {
                ensure!(y.abs() < 1e-6, "still {y} m beside the lane after {} m of {dist_lc}", o.pos - s0);
                out.hit("completed");
                break;
            }
            let (h00, h10) = (2.0 * s * s * s - 3.0 * s * s + 1.0, s * s * s - 2.0 * s * s + s);
            let want = h00 * y0 + h10 * dist_lc * slope;
            out.max("deviation from the profile, m", (y - want).abs());
            ensure!((y - want).abs() < 0.005, "is {y} m beside the new lane after {} m of {dist_lc}, expected {want}", o.pos - s0);
            let rate = (y - last).abs() / (travel + 1e-9);
            ensure!(travel < 1e-3 || rate < 1.6 * y0.abs() / dist_lc + 1.5 * slope.abs() + 0.02, "moved sideways by {} m over {travel} m", (y - last).abs());
            last = y;
            out.hit("profile points");
            if s > until {
                within = true;
                out.hit("lane changes within another");
                break;
            }
        }
        lane = to;
        if straight {
            // It is not slowed down by changing lanes
            let (o, q) = (w.now[k].unwrap(), twin.now[0].unwrap());
            ensure!((o.vel - q.vel).abs() < 1e-6 && (o.pos - q.pos).abs() < 0.05, "is at {} with {} m/s, without the lane change {} with {}", o.pos, o.vel, q.pos, q.vel);
            out.hit("compared with a twin");
        }
        for _ in 0..if within { 0 } else { rng.i(0, 20) } {
            w.step(dt);
            twin.step(dt);
        }
    }
    out.nontrivial = out.counts.contains_key("completed");
    out.sig = w.sig;
    Ok(())
}

/// Lane changes the vehicles decide on themselves.
fn automatic(rng: &mut Rng, out: &mut Out) -> Res {
    let mask = if rng.chance(0.5) { Mask::All } else { Mask::Random };
    let (net, rows) = lanes_net(rng, mask, 3.5);
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let topo = mon::Topology::new(&w.net);
    let last = rows.last().unwrap();
    out.sample = format!("{} sections of {} lanes, dt={dt}", rows.len(), rows[0].len());
    // Metres since each vehicle's last lane change, and where it is sideways
    let mut since: Vec<f64> = vec![];
    let rate = rng.f(0.05, 0.4);
    while w.time < 90.0 {
        if rng.chance(rate * dt) {
            let src = rng.pick(&rows[0]);
            let ok = reachable(&w.net, src);
            let dsts: Vec<usize> = last.iter().copied().filter(|l| ok[*l]).collect();
            if w.entry_room(src) > 12.0 && !dsts.is_empty() {
                let (attrs, dst) = (random_attrs(rng), rng.pick(&dsts));
                w.spawn(attrs, src, Some(dst));
                since.push(f64::INFINITY);
            }
        }
        w.step(dt);
        for k in 0..w.now.len() {
            let (Some(a), Some(b)) = (w.prev[k], w.now[k]) else { continue };
            let travel = 0.5 * (a.vel + b.vel) * dt;
            match topo.classify(&w, &a, &b) {
                mon::Move::Lane(l, _) => {
                    ensure!(since[k] >= 30.0 - 1e-3, "t={:.2}: vehicle {k} changed lanes again after {} m", w.time, since[k]);
                    since[k] = 0.0;
                    out.hit("automatic lane changes");
                    // Towards the destination
                    let row = rows.iter().position(|r| r.contains(&l)).unwrap();
                    let lane = |x: usize| rows.iter().find_map(|r| r.iter().position(|y| *y == x)).unwrap();
                    let goal = lane(w.vehs[k].dst.unwrap());
                    ensure!(lane(l).abs_diff(goal) < lane(a.link).abs_diff(goal), "t={:.2}: vehicle {k} moved away from its lane in section {row}", w.time);
                }
                mon::Move::Illegal => return Err(format!("t={:.2}: vehicle {k} went from {} to {}, which is not permitted", w.time, a.link, b.link)),
                _ => {}
            }
            since[k] += travel;
            let (y, lon, _) = offset(&w, &b);
            ensure!(lon.abs() < 1e-6, "vehicle {k} is {lon} m from its position");
            if since[k] > 30.0 + 1e-3 {
                ensure!(y.abs() < 1e-6, "t={:.2}: vehicle {k} is {y} m beside its lane {} m after changing to it", w.time, since[k]);
            } else {
                ensure!(y.abs() < 3.9, "t={:.2}: vehicle {k} is {y} m beside its lane", w.time);
            }
        }
    }
    out.nontrivial = out.counts.contains_key("automatic lane changes");
    out.sig = w.sig;
    Ok(())
}

/// A vehicle changes to a lane with another beside it. Whose middle is ahead drives as if alone.
fn cut_in(rng: &mut Rng, out: &mut Out) -> Res {
    let spacing = rng.f(3.6, 4.2);
    let limit = rng.f(7.0, 18.0);
    let mut net = section(rng, 2, 500.0, 0.0, spacing, limit);
    net.groups[0].1 = 0;
    let dt = rng.pick(&DTS);
    let attrs = [random_attrs(rng), random_attrs(rng)];
    let reach = 0.5 * (attrs[0].length + attrs[1].length) + 5.0;
    let apart = rng.f(-reach, reach);
    let (from, length) = (rng.i(0, 1), rng.f(15.0, 60.0));
    out.sample = format!("lanes {spacing:.2} m apart, dt={dt}");
    // Both are brought to a standstill, and then set off
    let place = [rng.f(60.0, 80.0), 0.0];
    let place = [place[0], place[0] + apart];
    let go = [rng.f(0.0, 3.0), rng.f(0.0, 3.0)];
    let ask = rng.f(3.0, 8.0);
    let mut ahead = None;
    let run = |which: &[usize], ahead: &mut Option<usize>| {
        let mut w = World::new(net.clone());
        let keys: Vec<Key> = which.iter().map(|i| {
            let lane = if *i == 0 { from } else { 1 - from };
            w.spawn(attrs[*i], lane, None)
        }).collect();
        let mut trace = vec![];
        let (mut start, mut asked) = (None, false);
        for _ in 0..(90.0 / dt) as usize {
            for (i, k) in which.iter().zip(&keys) {
                let Some(o) = w.now[*k] else { continue };
                let stop = start.map_or(o.pos + o.vel * o.vel / 12.0 >= place[*i], |t| w.time < t + go[*i]);
                if w.vehs[*k].frozen != stop && (stop || start.is_some()) {
                    w.freeze(*k, stop);
                }
            }
            // Timing must not depend on who else is there
            if start.is_none() && w.time > 40.0 {
                start = Some(w.time);
            }
            if start.map_or(false, |t| w.time > t + ask) && !asked {
                asked = true;
                if which.contains(&0) {
                    w.lane_change(keys[0], 1 - from, length);
                }
                if let ([0, 1], [Some(a), Some(b)]) = (which, &w.now[..]) {
                    if a.pos != b.pos {
                        *ahead = Some((b.pos > a.pos) as usize);
                    }
                }
            }
            w.step(dt);
            trace.push(keys.iter().map(|k| w.now[*k].map(|o| (o.link, o.pos, o.vel, o.xy))).collect::<Vec<_>>());
        }
        (trace, w.sig)
    };
    let (both, sig) = run(&[0, 1], &mut ahead);
    let Some(first) = ahead else { return Ok(()) };
    let (alone, _) = run(&[first], &mut ahead);
    for (i, (x, y)) in both.iter().zip(&alone).enumerate() {
        ensure!(x[first] == y[0], "t={:.2}: a vehicle is at {:?}, but without one behind it {} lanes {:?}", i as f64 * dt, x[first],
            if first == 0 { "as it changes" } else { "which changes" }, y[0]);
    }
    out.add("steps beside a lane change", both.len() as u64);
    out.nontrivial = true;
    out.sig = sig;
    Ok(())
}

fn changes(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    match idx % 5 {
        0 | 1 => asked(rng, out),
        2 => cut_in(rng, out),
        _ => automatic(rng, out),
    }
}

/// Traffic in a lane drives the same whatever happens in the lanes beside it.
fn apart(rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(2, 4);
    let spacing = rng.f(3.5, 4.5);
    let radius = if rng.chance(0.5) { 0.0 } else { rng.f(150.0, 400.0) * if rng.chance(0.5) { 1.0 } else { -1.0 } };
    let limit = rng.f(8.0, 17.0);
    let mut net = section(rng, n, 250.0, radius, spacing, limit);
    net.groups[0].1 = 0;
    let dt = rng.pick(&DTS);
    let keep = rng.i(0, n - 1);
    let mut list = vec![];
    let mut t = 0.0;
    while t < 60.0 {
        t += rng.f(0.2, 3.0);
        let lane = rng.i(0, n - 1);
        // Vehicles in the other lanes get frozen now and then
        let freeze = (rng.chance(0.4) && lane != keep).then(|| rng.f(3.0, 20.0));
        list.push((t, lane, random_attrs(rng), freeze));
    }
    let mut traces = vec![];
    for all in [false, true] {
        let mut w = World::new(net.clone());
        let (mut next, mut trace) = (0, vec![]);
        let mut due: Vec<(f64, Key)> = vec![];
        let mut mine = vec![];
        while w.time < 80.0 {
            while next < list.len() && list[next].0 <= w.time {
                let (_, lane, attrs, freeze) = list[next];
                if (all || lane == keep) && w.entry_room(lane) > 10.0 {
                    let k = w.spawn(attrs, lane, Some(lane));
                    if lane == keep {
                        mine.push(k);
                    }
                    if let Some(f) = freeze {
                        due.push((w.time + f, k));
                    }
                }
                next += 1;
            }
            for (t, k) in &due {
                if *t <= w.time && w.alive(*k) && !w.vehs[*k].frozen {
                    w.freeze(*k, true);
                }
            }
            w.step(dt);
            trace.push(mine.iter().map(|k| w.now[*k].map(|o| (o.pos, o.vel, o.xy))).collect::<Vec<_>>());
        }
        out.sig = w.sig;
        traces.push((trace, mine));
    }
    let (a, b) = (&traces[0], &traces[1]);
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        ensure!(x == y, "t={:.2}: traffic in lane {keep} differs with vehicles in lanes {spacing} m away: {:?} and {:?}", i as f64 * dt,
            x.iter().zip(y).find(|(p, q)| p != q).map(|p| p.0), x.iter().zip(y).find(|(p, q)| p != q).map(|p| p.1));
        out.add("vehicle steps compared", x.iter().flatten().count() as u64);
    }
    out.sample = format!("{n} lanes {spacing:.2} m apart, radius {radius:.0}, dt={dt}");
    out.nontrivial = true;
    Ok(())
}

/// A vehicle stopped between two lanes holds back the traffic in both.
fn between(rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(2, 4);
    let spacing = rng.f(3.0, 3.8);
    let radius = if rng.chance(0.5) { 0.0 } else { rng.f(100.0, 300.0) * if rng.chance(0.5) { 1.0 } else { -1.0 } };
    let limit = rng.f(8.0, 17.0);
    let mut net = section(rng, n, 320.0, radius, spacing, limit);
    net.groups[0].1 = 0;
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let from = rng.i(0, n - 1);
    let to = if from == 0 || (from + 1 < n && rng.chance(0.5)) { from + 1 } else { from - 1 };
    let attrs = random_attrs(rng);
    let v = w.spawn(attrs, from, Some(to));
    let (start, length) = (rng.f(60.0, 140.0), rng.f(25.0, 60.0));
    let part = rng.f(0.35, 0.65);
    out.sample = format!("{n} lanes {spacing:.2} m apart, radius {radius:.0}, {part:.2} of the way from {from} to {to}, dt={dt}");
    while w.now[v].unwrap().pos < start {
        w.step(dt);
    }
    w.lane_change(v, to, length);
    let s0 = w.now[v].unwrap().pos;
    loop {
        // Where it will have stopped
        let o = w.now[v].unwrap();
        let s = (o.pos - s0 + o.vel * o.vel / 12.0 + 0.1 * o.vel) / length;
        if s >= 1.0 || 2.0 * s * s * s - 3.0 * s * s + 1.0 < part {
            break;
        }
        w.step(dt);
    }
    w.freeze(v, true);
    for _ in 0..(4.0 / dt) as usize {
        w.step(dt);
    }
    let o = w.now[v].unwrap();
    let y = offset(&w, &o).0.abs();
    ensure!(o.vel == 0.0, "frozen but moving");
    // Only if it still covers enough of both lanes
    if y < 0.3 * spacing || y > 0.7 * spacing {
        out.sig = w.sig;
        return Ok(());
    }
    let mut ks = vec![];
    for lane in [from, to] {
        let a = random_attrs(rng);
        ks.push(w.spawn(a, lane, Some(lane)));
    }
    let third = (0..n).find(|l| *l != from && *l != to);
    let free = third.map(|l| {
        let a = random_attrs(rng);
        (l, w.spawn(a, l, Some(l)))
    });
    let t0 = w.time;
    while w.time < t0 + 70.0 {
        w.step(dt);
        if let Some((p, a, b)) = mon::worst_overlap(&w) {
            ensure!(p <= 0.0, "t={:.2}: vehicles {a} and {b} overlap by {p} m beside a vehicle stopped between lanes", w.time);
        }
    }
    for (i, k) in ks.iter().enumerate() {
        // In the lane it came from it may stand far enough aside to be passed
        let aside = spacing - y - 0.5 * (attrs.width + w.vehs[*k].attrs.width);
        if i == 0 && aside > 0.3 {
            continue;
        }
        let q = w.now[*k].ok_or("a vehicle got past one which is stopped between lanes")?;
        ensure!(q.vel < 0.05, "a vehicle behind one stopped between lanes drives at {}", q.vel);
        let rel = sub(o.xy, q.xy);
        let ahead = dot(rel, q.dir) - 0.5 * attrs.length - 0.5 * w.vehs[*k].attrs.length;
        out.max("gap kept, m", ahead);
        ensure!(ahead > 0.5 && ahead < 30.0, "a vehicle stopped {ahead} m behind one between lanes");
        out.hit("held behind a vehicle between lanes");
    }
    if let Some((l, k)) = free {
        // Three lanes over it is not in the way; one lane over it may be
        let d = l.abs_diff(from).min(l.abs_diff(to));
        if d >= 2 {
            ensure!(!w.alive(k), "a vehicle two lanes away was held up");
        }
    }
    w.freeze(v, false);
    let t0 = w.time;
    while w.time < t0 + 120.0 {
        w.step(dt);
    }
    ensure!(w.live_keys().is_empty(), "vehicles didn't carry on after the one between lanes did");
    out.hit("released");
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

/// Whether a vehicle can pass one standing in the next lane depends on the clearance.
fn clearance(rng: &mut Rng, out: &mut Out) -> Res {
    let spacing = rng.f(1.9, 3.6);
    let radius = if rng.chance(0.6) { 0.0 } else { rng.f(200.0, 500.0) * if rng.chance(0.5) { 1.0 } else { -1.0 } };
    let limit = rng.f(8.0, 17.0);
    let n = rng.i(2, 3);
    let mut net = section(rng, n, 300.0, radius, spacing, limit);
    net.groups[0].1 = 0;
    let dt = rng.pick(&DTS);
    let (a, b) = (random_attrs(rng), random_attrs(rng));
    let gap = spacing - 0.5 * (a.width + b.width);
    let margin = if radius == 0.0 { 0.05 } else { 0.15 };
    if (gap - 0.5).abs() < margin {
        return Ok(());
    }
    let passes = gap > 0.5;
    let la = rng.i(0, n - 1);
    let lb = if la == 0 || (la + 1 < n && rng.chance(0.5)) { la + 1 } else { la - 1 };
    let at = rng.f(80.0, 200.0);
    out.sample = format!("lanes {spacing:.2} m apart, clearance {gap:.2} m, radius {radius:.0}, dt={dt}");
    let mut traces = vec![];
    for both in [true, false] {
        let mut w = World::new(net.clone());
        let k0 = w.spawn(a, la, None);
        while w.now[k0].unwrap().pos < at {
            w.step(dt);
        }
        w.freeze(k0, true);
        for _ in 0..(5.0 / dt) as usize {
            w.step(dt);
        }
        let o = w.now[k0].unwrap();
        if !both {
            w.remove(k0);
        }
        let k = w.spawn(b, lb, Some(lb));
        let mut trace = vec![];
        let t0 = w.time;
        while w.time < t0 + 70.0 {
            w.step(dt);
            trace.push(w.now[k].map(|o| (o.pos, o.vel)));
            if both {
                if let Some((p, ..)) = mon::worst_overlap(&w) {
                    ensure!(p <= 0.0, "t={:.2}: overlaps a vehicle standing in the next lane by {p} m", w.time);
                }
            }
        }
        if both && !passes {
            let q = w.now[k].ok_or_else(|| format!("a vehicle passed another with {gap} m between them"))?;
            let rel = sub(o.xy, q.xy);
            let ahead = dot(rel, q.dir) - 0.5 * (a.length + b.length);
            ensure!(q.vel < 0.05 && ahead > 0.5, "a vehicle drives at {} m/s with one {ahead} m ahead and {gap} m aside", q.vel);
            out.hit("stopped behind");
        }
        out.sig = w.sig;
        traces.push(trace);
    }
    if passes {
        ensure!(traces[0] == traces[1], "a vehicle was held up by one standing {gap} m beside its way");
        out.hit("passed");
    }
    out.nontrivial = true;
    Ok(())
}

/// A vehicle pulls out from behind one standing in its lane, in time or too late.
fn pull_out(rng: &mut Rng, out: &mut Out) -> Res {
    let n = rng.i(2, 3);
    let spacing = rng.f(3.2, 3.8);
    let radius = if rng.chance(0.5) { 0.0 } else { rng.f(150.0, 500.0) * if rng.chance(0.5) { 1.0 } else { -1.0 } };
    let limit = rng.f(8.0, 17.0);
    let mut net = section(rng, n, 400.0, radius, spacing, limit);
    net.groups[0].1 = 0;
    let mut w = World::new(net);
    let dt = rng.pick(&DTS);
    let from = rng.i(0, n - 1);
    let to = if from == 0 || (from + 1 < n && rng.chance(0.5)) { from + 1 } else { from - 1 };
    let (a, b) = (random_attrs(rng), random_attrs(rng));
    let at = rng.f(120.0, 220.0);
    let k0 = w.spawn(a, from, Some(from));
    while w.now[k0].unwrap().pos < at {
        w.step(dt);
    }
    w.freeze(k0, true);
    for _ in 0..(5.0 / dt) as usize {
        w.step(dt);
    }
    let rear = w.now[k0].unwrap().pos - 0.5 * a.length;
    let k = w.spawn(b, from, Some(to));
    let length = rng.f(12.0, 60.0);
    // Where its front will be, relative to the rear of the other, when the change is complete
    let spare = rng.f(-0.9 * length, 30.0);
    let begin = rear - spare - length - 0.5 * b.length;
    out.sample = format!("{n} lanes {spacing:.2} m apart, radius {radius:.0}, change over {length:.0} m, done {spare:.1} m before the other, dt={dt}");
    let t0 = w.time;
    let (mut begun, mut since) = (false, 0.0);
    while w.time < t0 + 80.0 && w.alive(k) {
        let o = w.now[k].unwrap();
        // It can't get closer than its own gap
        if !begun && (o.pos >= begin || (o.vel < 0.01 && w.time > t0 + 30.0)) {
            w.lane_change(k, to, length);
            begun = true;
        }
        w.step(dt);
        if let Some((p, ..)) = mon::worst_overlap(&w) {
            ensure!(p <= 0.0, "t={:.2}: overlaps a vehicle it pulls out from behind by {p} m", w.time);
        }
        if let (true, Some(q)) = (begun, w.now[k]) {
            since += dt;
            if spare > 5.0 && since > 0.1 + 2.0 * dt {
                // From here on nothing is in its way
                ensure!(q.vel >= o.vel - 1e-9, "a vehicle slowed down from {} to {} m/s behind one it has room to pull out from behind, {spare} m to spare", o.vel, q.vel);
                out.hit("steps with room to pull out");
            }
        }
    }
    if w.alive(k) {
        let o = w.now[k].unwrap();
        ensure!(o.vel < 0.05, "a vehicle which pulled out late drives at {} m/s", o.vel);
        ensure!(spare < 5.0, "a vehicle which pulled out {spare} m before another standing in its lane is still there");
        out.hit("pulled out too late");
        w.freeze(k0, false);
        let t0 = w.time;
        while w.time < t0 + 120.0 {
            w.step(dt);
        }
        ensure!(w.live_keys().is_empty(), "a vehicle which waited while changing lanes did not carry on");
    } else {
        out.hit("pulled out in time");
    }
    out.nontrivial = true;
    out.sig = w.sig;
    Ok(())
}

/// Traffic on two lanes in which one changes to the other lane: those ahead of it drive as if nobody was behind.
fn nothing_behind(rng: &mut Rng, out: &mut Out) -> Res {
    let spacing = rng.f(3.2, 4.0);
    let limit = rng.f(8.0, 20.0);
    let mut net = section(rng, 2, 700.0, 0.0, spacing, limit);
    net.groups[0].1 = 0;
    let dt = rng.pick(&DTS);
    // Where they wait before they all set off, by lane
    let mut cars = vec![];
    for lane in 0..2 {
        let mut at = rng.f(150.0, 250.0);
        for j in 0..rng.i(1, 4) {
            let a = random_attrs(rng);
            cars.push((lane, at, 6.0 * j as f64, rng.f(0.0, 3.0), a));
            at -= rng.f(14.0, 30.0);
        }
    }
    let who = rng.i(0, cars.len() - 1);
    let (ask, length) = (rng.f(2.0, 8.0), rng.f(15.0, 60.0));
    out.sample = format!("{} vehicles on lanes {spacing:.2} m apart, dt={dt}", cars.len());
    type Trace = Vec<Vec<Option<(usize, f64, f64, (f64, f64))>>>;
    let run = |which: &[usize], at_ask: &mut Vec<usize>| -> (Trace, u64) {
        let mut w = World::new(net.clone());
        let mut keys = vec![None; cars.len()];
        let (mut trace, mut asked): (Trace, bool) = (vec![], false);
        for _ in 0..(100.0 / dt) as usize {
            for i in which {
                let (lane, place, from, go, a) = cars[*i];
                match keys[*i] {
                    None if w.time >= from => keys[*i] = Some(w.spawn(a, lane, None)),
                    None => {}
                    Some(k) => {
                        let Some(o) = w.now[k] else { continue };
                        let stop = if w.time < 60.0 { o.pos + o.vel * o.vel / 12.0 >= place } else { w.time < 60.0 + go };
                        if w.vehs[k].frozen != stop && (stop || w.time >= 60.0) {
                            w.freeze(k, stop);
                        }
                    }
                }
            }
            if w.time > 60.0 + ask && !asked {
                asked = true;
                if let Some(x) = keys[who].and_then(|k| w.now[k]) {
                    w.lane_change(keys[who].unwrap(), 1 - cars[who].0, length);
                    *at_ask = (0..cars.len()).filter(|i| keys[*i].and_then(|k| w.now[k]).map_or(false, |o| o.pos > x.pos)).collect();
                }
            }
            w.step(dt);
            trace.push(keys.iter().map(|k| k.and_then(|k| w.now[k]).map(|o| (o.link, o.pos, o.vel, o.xy))).collect());
        }
        (trace, w.sig)
    };
    let all: Vec<usize> = (0..cars.len()).collect();
    let mut ahead = vec![];
    let (full, sig) = run(&all, &mut ahead);
    if ahead.is_empty() {
        return Ok(());
    }
    let (some, _) = run(&ahead, &mut vec![]);
    for (i, (x, y)) in full.iter().zip(&some).enumerate() {
        let passed = |k: usize| match (x[who], x[k]) {
            (Some(a), Some(b)) => b.1 <= a.1,
            _ => false,
        };
        if i as f64 * dt > 60.0 + ask + 1.0 && ahead.iter().any(|k| passed(*k)) {
            break;
        }
        for k in &ahead {
            ensure!(x[*k] == y[*k], "t={:.2}: vehicle {k} is at {:?}, but without those behind it at {:?}", i as f64 * dt, x[*k], y[*k]);
        }
        if i as f64 * dt > 60.0 + ask {
            out.add("steps ahead of a lane change", ahead.len() as u64);
        }
    }
    out.nontrivial = true;
    out.sig = sig;
    Ok(())
}

fn beside(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    match idx % 5 {
        0 => apart(rng, out),
        1 => between(rng, out),
        2 => clearance(rng, out),
        3 => nothing_behind(rng, out),
        _ => pull_out(rng, out),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { 
            id: "C12",
            rule: "Lane changes asked for at random positions and distances on straight and curved roads, automatic ones on the way to a random lane in traffic, and ones beside another vehicle, of which the one ahead is compared with itself alone. Non-trivial: a lane change was observed.",
            cases: [12_000, 300_000],
            need: &[("completed", 500), ("automatic lane changes", 1_000), ("compared with a twin", 200), ("profile points", 20_000), ("lane changes within another", 500), ("steps beside a lane change", 100_000)], run: changes, post: no_post },
        Check { 
            id: "C14",
            rule: "Traffic in adjacent lanes compared with the same lane alone; vehicles frozen between lanes; vehicles beside a standing one with a random clearance. Non-trivial: the comparison was made.",
            cases: [12_000, 300_000],
            need: &[("vehicle steps compared", 500_000), ("held behind a vehicle between lanes", 500), ("passed", 200), ("stopped behind", 100), ("released", 300), ("pulled out too late", 100), ("pulled out in time", 100), ("steps with room to pull out", 5_000), ("steps ahead of a lane change", 100_000)], run: beside, post: no_post },
    ]
}
