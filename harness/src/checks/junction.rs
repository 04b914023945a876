//! Crossings and merges.

use crate::core::{no_post, Check, Counts, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::mon;
use crate::rng::Rng;
use crate::world::*;

fn overlap(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let rule = any_rule(rng);
    // In half of the cases traffic is made to stop on the junction. A vehicle counts as being where
    // its middle is, so the links of the junction then have to be half a vehicle longer.
    let stops = idx % 2 == 0;
    let (cross, skew) = if stops { ((11.5, 14.0), (12.0, 15.0)) } else { ((8.0, 12.0), (9.0, 14.0)) };
    let mut site = match idx % 8 {
        0 | 3 => cross_site_of(rng, rule, cross),
        1 | 4 => skew_site_of(rng, rule, skew),
        2 | 5 => merge_site(rng, rule),
        _ => bend_site(rng, rule),
    };
    let gates = if stops { gates(rng, &mut site, (3.0, 25.0)) } else { vec![] };
    let mut acts = Rng::derive(&[rng.next()]);
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let mix = Mix { spawn: rng.f(0.2, 0.9), room: 18.0, adjust: 0.02, ..Default::default() };
    out.sample = format!("{}, dt={dt}", site.name);
    let mut worst = f64::NEG_INFINITY;
    let res = run(rng, &mut w, &site, &mix, dt, 150.0, &mut |w, _| {
        for g in &gates {
            if acts.chance(0.08 * dt) {
                let c = if w.ctl[*g] == Ctl::Closed { Ctl::Open } else { Ctl::Closed };
                w.control(*g, c);
                out.hit("exits closed or opened");
            }
        }
        if let Some((p, a, b)) = mon::worst_overlap(w) {
            worst = worst.max(p);
            ensure!(p <= 0.0, "t={:.2}: vehicles {a} and {b} overlap by {p} m on links {:?}", w.time, (w.now[a].unwrap().link, w.now[b].unwrap().link));
            out.hit("encounters");
        }
        Ok(())
    });
    out.max("closeness", 10.0 + worst);
    out.nontrivial = worst > -6.0;
    out.sig = w.sig;
    res
}

/// A schedule of arrivals which can be replayed on different worlds.
#[derive(Clone, Debug)]
struct Arrival {
    time: f64,
    entry: usize,
    dst: usize,
    attrs: Attrs,
}

fn arrivals(rng: &mut Rng, site: &Site, secs: f64, headway: (f64, f64)) -> Vec<Arrival> {
    let mut v = vec![];
    for (entry, ds) in &site.od {
        let mut t = rng.f(0.0, headway.1);
        while t < secs {
            v.push(Arrival { time: t, entry: *entry, dst: rng.pick(ds), attrs: random_attrs(rng) });
            t += rng.f(headway.0, headway.1);
        }
    }
    v.sort_by(|a, b| a.time.partial_cmp(&b.time).unwrap());
    v
}

fn exits(net: &Net, list: &[Arrival], dt: f64, secs: f64, use_it: &dyn Fn(&Arrival) -> bool, sig: &mut u64) -> Vec<Option<f64>> {
    let mut w = World::new(net.clone());
    let mut key = vec![None; list.len()];
    let mut exit = vec![None; list.len()];
    let mut next = 0;
    while w.time < secs {
        while next < list.len() && list[next].time <= w.time {
            let a = &list[next];
            if use_it(a) {
                key[next] = Some(w.spawn(a.attrs, a.entry, Some(a.dst)));
            }
            next += 1;
        }
        w.step(dt);
        for i in 0..next {
            if let (Some(k), None) = (key[i], exit[i]) {
                if !w.alive(k) {
                    exit[i] = Some(w.time);
                }
            }
        }
    }
    *sig = w.sig;
    exit
}

/// A skew crossing where some of the traffic on the major road turns off just before it.
fn exit_site(rng: &mut Rng, rule: Rule) -> Site {
    let mut site = skew_site(rng, rule);
    let Curve::Line(a, b) = site.net.links[0].curve else { unreachable!() };
    let mut t = Turtle::new(b, (b.1 - a.1).atan2(b.0 - a.0));
    let (len, turn) = (rng.f(40.0, 80.0), rng.f(-0.6, 0.6));
    let limit = site.net.links[0].limit * rng.pick(&[0.6, 1.0]);
    site.net.links.push(LinkSpec { curve: t.cubic(len, turn), limit });
    let l = site.net.links.len() - 1;
    site.net.conns.push((0, l));
    // Others end their trip right there
    site.od[0].1.extend([l, 0]);
    site.name = format!("{}, with an exit before it", site.name);
    site
}

/// How much the traffic which has to give way delays the traffic with priority.
fn priority(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let kind = idx % 4;
    let must_stop = rng.chance(0.3);
    let rule = Rule::Minor { must_stop };
    let mut site = match kind {
        0 => cross_site(rng, rule),
        1 => skew_site(rng, rule),
        2 => merge_site(rng, rule),
        _ => exit_site(rng, rule),
    };
    if kind != 0 && rng.chance(0.4) {
        let joins = rng.i(0, 2);
        chop(rng, &mut site, 0, (20.0, 60.0), joins);
        out.hit("priority roads in pieces");
    }
    let minor: Vec<usize> = site.net.controls.iter().map(|c| c.0).collect();
    let major: Vec<usize> = site.net.conflicts.iter().flat_map(|c| [c.0, c.1]).filter(|l| !minor.contains(l)).collect();
    let ranked = rng.chance(0.3);
    if ranked {
        // Both have to yield, one with a higher priority
        let top = rng.i(0, 3) as i8;
        let low = top - rng.i(1, 4) as i8;
        for c in &mut site.net.controls {
            if let Ctl::Yield { priority, .. } = &mut c.1 {
                *priority = low;
            }
        }
        let mut seen = vec![];
        for l in major {
            if !seen.contains(&l) {
                seen.push(l);
                site.net.controls.push((l, Ctl::Yield { distance: rng.f(15.0, 25.0), must_stop: false, priority: top }));
            }
        }
    }
    let dt = rng.pick(&DTS);
    let minor_entries: Vec<usize> = site.net.conns.iter().filter(|c| minor.contains(&c.1)).map(|c| c.0).collect();
    let list = arrivals(rng, &site, 80.0, if kind == 3 { (6.0, 10.0) } else { (5.0, 20.0) });
    let is_major = |a: &Arrival| !minor_entries.contains(&a.entry);
    out.sample = format!("{}, ranked={ranked}, {} trips, dt={dt}", site.name, list.len());
    let alone = exits(&site.net, &list, dt, 240.0, &is_major, &mut out.sig);
    let both = exits(&site.net, &list, dt, 240.0, &|_| true, &mut out.sig);
    for (i, a) in list.iter().enumerate() {
        if is_major(a) {
            let x = alone[i].ok_or("a vehicle with priority never got through an empty junction")?;
            let y = both[i].ok_or("a vehicle with priority never got through")?;
            out.hit("priority trips");
            out.max("delay of traffic with priority, s", y - x);
            ensure!(y - x < 15.0, "a vehicle with priority was held up for {} s by traffic which has to give way", y - x);
            if y - x > 0.5 {
                out.hit("priority trips delayed by 0.5 s");
            }
            if y - x > 2.0 {
                out.hit("priority trips delayed by 2 s");
            }
        } else {
            ensure!(both[i].is_some(), "a vehicle which has to give way never got through");
            out.hit("yielding trips");
        }
    }
    out.nontrivial = true;
    Ok(())
}

/// The least time to cover `d` metres at speed `v`, accelerating at `a` up to `top`.
fn reach(d: f64, v: f64, a: f64, top: f64) -> f64 {
    let top = top.max(v);
    let d1 = (top * top - v * v) / (2.0 * a);
    if d <= 0.0 {
        0.0
    } else if d < d1 {
        ((v * v + 2.0 * a * d).sqrt() - v) / a
    } else {
        (top - v) / a + (d - d1) / top
    }
}

/// Nobody who has to give way crosses the line when one with priority can be at the crossing first.
fn gaps(rng: &mut Rng, out: &mut Out) -> Res {
    let rule = Rule::Minor { must_stop: rng.chance(0.3) };
    let mut site = if rng.chance(0.3) { skew_site(rng, rule) } else { exit_site(rng, rule) };
    // Far enough for everybody to be at full speed and noticed in time
    if let Curve::Line(a, b) = &mut site.net.links[0].curve {
        let f = 350.0 / dist(*a, *b);
        *a = (b.0 + f * (a.0 - b.0), b.1 + f * (a.1 - b.1));
    }
    // In one piece, in several, or with other roads joining it
    let pieces = if rng.chance(0.5) {
        let joins = rng.i(0, 2);
        chop(rng, &mut site, 0, (20.0, 60.0), joins)
    } else {
        vec![0]
    };
    let mut w = World::new(site.net.clone());
    // How far it is from the start of each link to the crossing
    let mut far = vec![None; w.links.len()];
    let mut top: Vec<f64> = site.net.links.iter().map(|l| l.limit).collect();
    far[1] = Some(0.5 * w.lengths[1]);
    for _ in 0..w.links.len() {
        for c in &site.net.conns {
            if c.1 < 2 || pieces.contains(&c.1) {
                far[c.0] = far[c.1].map(|d: f64| d + w.lengths[c.0]);
                top[c.0] = top[c.0].max(top[c.1]);
            }
        }
    }
    let dt = rng.pick(&DTS);
    let mix = Mix { spawn: rng.f(0.2, 1.0), room: rng.f(6.0, 60.0), ..Default::default() };
    out.sample = format!("{}, dt={dt}", site.name);
    let limit = site.net.links[0].limit;
    let res = run(rng, &mut w, &site, &mix, dt, 120.0, &mut |w, _| {
        for k in 0..w.now.len() {
            let (Some(p), Some(o)) = (w.prev[k], w.now[k]) else { continue };
            let a = w.vehs[k].attrs;
            let d = |o: &Obs| w.lengths[3] - o.pos - 0.5 * a.length;
            if p.link != 3 || o.link != 3 || d(&p) < 0.0 || d(&o) >= 0.0 {
                continue;
            }
            // It is at the line, with nobody close in front
            let blocked = (0..w.now.len()).any(|j| j != k && w.now[j].map_or(false, |x| x.link > 3 && x.link < 6 && dist(x.xy, o.xy) < 35.0));
            if blocked {
                continue;
            }
            let own = reach(w.lengths[3] - o.pos + 0.5 * w.lengths[4], o.vel, a.max_acc, limit);
            for j in 0..w.now.len() {
                let Some(x) = w.now[j] else { continue };
                if far[x.link].is_none() || w.vehs[j].dst != Some(2) {
                    continue;
                }
                let b = w.vehs[j].attrs;
                let to = far[x.link].unwrap() - x.pos;
                if to + 0.5 * b.length < 0.0 || x.vel < 3.0 {
                    continue; // Has passed it, or is held up
                }
                let other = reach(to - 0.5 * b.length, x.vel, b.max_acc, top[x.link]);
                out.max("gap, 10 s less", 10.0 - (other - own).max(-10.0));
                ensure!(other - own > 2.5, "t={:.2}: vehicle {k} crossed its line with {own} s to go to the crossing, where one with priority may be in {other} s", w.time);
                out.hit(if x.link > 1 { "gaps judged to traffic on several links" } else { "gaps judged" });
            }
        }
        Ok(())
    });
    out.nontrivial = out.counts.keys().any(|k| k.starts_with("gaps judged"));
    out.sig = w.sig;
    res
}

/// Every vehicle stops before a stop line it has to stop at.
fn stop_signs(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let rule = if rng.chance(0.5) { Rule::Minor { must_stop: true } } else { Rule::AllWay { must_stop: true } };
    let site = match idx % 3 {
        0 => cross_site(rng, rule),
        1 => skew_site(rng, rule),
        _ => merge_site(rng, rule),
    };
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let mix = Mix { spawn: rng.f(0.05, 0.6), room: 12.0, adjust: 0.02, freeze: rng.pick(&[0.0, 0.05]), ..Default::default() };
    out.sample = format!("{}, dt={dt}", site.name);
    let mut stopped: Vec<bool> = vec![];
    let res = run(rng, &mut w, &site, &mix, dt, 120.0, &mut |w, _| {
        stopped.resize(w.now.len(), false);
        for k in 0..w.now.len() {
            let Some(o) = w.now[k] else { continue };
            let half = 0.5 * w.vehs[k].attrs.length;
            // The controlled link ahead of the vehicle
            let next = w.outs[o.link].first().copied();
            if let Some(Ctl::Yield { distance, must_stop: true, .. }) = next.map(|n| w.ctl[n]) {
                let d = w.lengths[o.link] - o.pos - half;
                if o.vel < 0.1 && d < distance + 1e-6 {
                    stopped[k] = true;
                }
                if d < 0.0 {
                    ensure!(stopped[k], "t={:.2}: vehicle {k} crossed a stop line at {} m/s without stopping within {distance} m of it", w.time, o.vel);
                    out.hit("steps past a stop line");
                }
            }
            if let (Some(p), Ctl::Yield { must_stop: true, .. }) = (w.prev[k], w.ctl[o.link]) {
                if p.link != o.link {
                    ensure!(stopped[k], "t={:.2}: vehicle {k} drove past a stop line without stopping", w.time);
                    out.hit("stop lines passed");
                }
            }
        }
        Ok(())
    });
    out.nontrivial = out.counts.contains_key("stop lines passed");
    out.sig = w.sig;
    res
}

/// One stop sign after another, some after a fork where vehicles change their mind.
fn stop_rows(rng: &mut Rng, out: &mut Out) -> Res {
    let mut net = Net::default();
    let limit = rng.f(8.0, 17.0);
    let mut t = Turtle::new((0.0, 0.0), rng.f(-3.0, 3.0));
    let mut ends = vec![];
    let len = rng.f(100.0, 220.0);
    net.links.push(LinkSpec { curve: t.line(len), limit });
    let random_yield = |rng: &mut Rng| {
        let must_stop = rng.chance(0.6);
        let distance = if must_stop { rng.f(5.0, 20.0) } else { rng.f(15.0, 45.0) };
        Ctl::Yield { distance, must_stop, priority: rng.i(0, 3) as i8 - 2 }
    };
    let branches = rng.i(1, 3);
    let mut firsts = vec![];
    for b in 0..branches {
        let mut t = t;
        let mut last = 0;
        for i in 0..2 * rng.i(1, 3) {
            let (len, turn) = if i % 2 == 0 { (rng.f(18.0, 26.0), if i == 0 { 0.5 * b as f64 } else { 0.0 }) } else { (rng.f(60.0, 150.0), 0.0) };
            net.links.push(LinkSpec { curve: t.cubic(len, turn), limit });
            let l = net.links.len() - 1;
            net.conns.push((last, l));
            if i == 0 {
                firsts.push((l, t.ahead(-0.5 * len), t.h));
            }
            if i % 2 == 0 && rng.chance(0.85) {
                net.controls.push((l, random_yield(rng)));
            }
            last = l;
        }
        ends.push(last);
    }
    // Somebody to wait for
    let mut od = vec![(0, ends.clone())];
    for (l, at, h) in firsts {
        if rng.chance(0.6) {
            let mut x = Turtle::new(at, h + 1.6);
            x = Turtle::new(x.ahead(-200.0), x.h);
            let first = net.links.len();
            for len in [188.0, 24.0, 80.0] {
                net.links.push(LinkSpec { curve: x.line(len), limit: rng.f(8.0, 17.0) });
            }
            net.conns.push((first, first + 1));
            net.conns.push((first + 1, first + 2));
            net.conflicts.push((l, first + 1));
            od.push((first, vec![first + 2]));
        }
    }
    let crossing = od.len() - 1;
    let dt = rng.pick(&DTS);
    let mut w = World::new(net);
    out.sample = format!("{branches} rows of stop signs, {crossing} crossing roads, dt={dt}");
    let rates: Vec<f64> = od.iter().map(|_| rng.f(0.05, 0.4)).collect();
    let fickle = rng.f(0.0, 0.3);
    // How far from the end of its link each vehicle last stood
    let mut stood: Vec<f64> = vec![];
    while w.time < 120.0 {
        for (i, (e, ds)) in od.iter().enumerate() {
            if rng.chance(rates[i] * dt) && w.entry_room(*e) > 15.0 {
                let (a, d) = (random_attrs(rng), rng.pick(ds));
                w.spawn(a, *e, Some(d));
                stood.push(f64::INFINITY);
            }
        }
        for k in w.live_keys() {
            let o = w.now[k].unwrap();
            let a = w.vehs[k].attrs;
            let d = w.lengths[o.link] - o.pos - 0.5 * a.length;
            if o.link == 0 && rng.chance(fickle * dt) && d > o.vel * o.vel / (2.0 * a.comf_dec) + 1.0 * o.vel + 8.0 {
                w.set_dst(k, rng.pick(&ends));
                out.hit("changes of mind before a junction");
            }
        }
        w.step(dt);
        for k in 0..w.now.len() {
            let Some(o) = w.now[k] else { continue };
            let half = 0.5 * w.vehs[k].attrs.length;
            let p = w.prev[k].unwrap_or(o);
            if p.link != o.link {
                if let Ctl::Yield { must_stop: true, distance, .. } = w.ctl[o.link] {
                    ensure!(stood[k] < distance + 1e-6, "t={:.2}: vehicle {k} drove past a stop line onto link {}, but last stood {} m before it", w.time, o.link, stood[k]);
                    out.hit("stop lines passed in a row");
                }
                stood[k] = f64::INFINITY;
            }
            if o.vel < 0.1 {
                stood[k] = w.lengths[o.link] - o.pos - half;
            }
        }
    }
    out.nontrivial = out.counts.contains_key("stop lines passed in a row");
    out.sig = w.sig;
    Ok(())
}

/// Vehicles with the same priority go in the order in which they got to the line.
fn turns(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let must_stop = rng.chance(0.5);
    let rule = Rule::AllWay { must_stop };
    let mut site = if idx % 2 == 0 { cross_site(rng, rule) } else { skew_site(rng, rule) };
    let distance = rng.f(5.0, 15.0);
    let level = rng.i(0, 6) as i8 - 3;
    for c in &mut site.net.controls {
        c.1 = Ctl::Yield { distance, must_stop, priority: level };
    }
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    out.sample = format!("{}, distance {distance:.1}, dt={dt}", site.name);
    let rate = rng.f(0.1, 0.8);
    let secs = 120.0;
    // When each vehicle may have got, and certainly had got, its place in the order
    let mut early: Vec<Option<f64>> = vec![];
    let mut late: Vec<Option<f64>> = vec![];
    let mut settled: Vec<f64> = vec![];
    let mut crossed: Vec<Option<f64>> = vec![];
    let mut ahead: Vec<Option<Key>> = vec![];
    let entry: Vec<usize> = site.od.iter().map(|o| o.0).collect();
    let mut last = vec![None; w.links.len()];
    while w.time < secs {
        if rng.chance(rate * dt) && w.time < 0.7 * secs {
            let i = rng.i(0, entry.len() - 1);
            if w.entry_room(entry[i]) > 15.0 {
                let k = w.spawn(Attrs::car(), entry[i], Some(site.od[i].1[0]));
                ahead.push(last[entry[i]]);
                last[entry[i]] = Some(k);
                early.push(None);
                late.push(None);
                settled.push(0.0);
                crossed.push(None);
            }
        }
        w.step(dt);
        for k in 0..w.now.len() {
            if crossed[k].is_some() {
                continue;
            }
            let Some(o) = w.now[k] else { continue };
            let d = w.lengths[o.link] - o.pos - 2.5;
            let close = d < distance && (!must_stop || o.vel < 0.1);
            if close && early[k].is_none() {
                early[k] = Some(w.time);
            }
            let clear = ahead[k].map_or(true, |a| crossed[a].is_some());
            settled[k] = if close && clear { settled[k] + dt } else { 0.0 };
            if settled[k] > 0.1 + 2.0 * dt && late[k].is_none() {
                late[k] = Some(w.time);
            }
            if d < 0.0 || !entry.contains(&o.link) {
                crossed[k] = Some(w.time);
                // Nobody on a crossing road who got here earlier may still be waiting
                for j in 0..w.now.len() {
                    let Some(p) = w.now[j] else { continue };
                    let (a, b) = (w.vehs[k].spawn_link, w.vehs[j].spawn_link);
                    let (na, nb) = (w.outs[a][0], w.outs[b][0]);
                    let crosses = w.net.conflicts.iter().any(|c| *c == (na, nb) || *c == (nb, na));
                    let opposite = w.net.links.len() > 8 && {
                        let (x, y) = (w.now[k].unwrap().dir, p.dir);
                        (x.0 * y.0 + x.1 * y.1).abs() > 0.7
                    };
                    if a == b || !crosses || opposite || crossed[j].is_some() {
                        continue;
                    }
                    if let (Some(lj), Some(ek)) = (late[j], early[k]) {
                        ensure!(lj + 0.6 > ek, "t={:.2}: vehicle {k} from link {a} went at {ek:.2} before vehicle {j} from link {b}, who was there at {lj:.2}, {}", w.time, w.lengths[p.link] - p.pos);
                        out.hit("orders compared");
                    }
                }
            }
        }
    }
    // Somebody is always the next to go
    let latest = crossed.iter().flatten().fold(0.0f64, |m, t| m.max(*t));
    let waiting = (0..w.now.len()).filter(|k| crossed[*k].is_none()).filter_map(|k| late[k]).fold(f64::INFINITY, f64::min);
    out.max("time nobody went though some were waiting, s", (secs - waiting.max(latest)).max(0.0));
    ensure!(waiting.max(latest) > secs - 40.0, "from {:.2} to {secs} nobody went, though vehicles were waiting at their lines", waiting.max(latest));
    out.nontrivial = out.counts.contains_key("orders compared");
    out.sig = w.sig;
    Ok(())
}

/// A vehicle which has to give way on an empty road, or to traffic which is held at a closed line.
fn no_reason(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let must_stop = rng.chance(0.3);
    let rule = Rule::Minor { must_stop };
    let mut site = match idx % 3 {
        0 => cross_site(rng, rule),
        1 => skew_site(rng, rule),
        _ => merge_site(rng, rule),
    };
    let minor: Vec<usize> = site.net.controls.iter().map(|c| c.0).collect();
    let held = rng.chance(0.5);
    let lower = rng.chance(0.3);
    let mut majors: Vec<usize> = site.net.conflicts.iter().flat_map(|c| [c.0, c.1]).filter(|l| !minor.contains(l)).collect();
    majors.sort();
    majors.dedup();
    for l in &majors {
        if held {
            site.net.controls.push((*l, Ctl::Closed));
        } else if lower {
            site.net.controls.push((*l, Ctl::Yield { distance: 10.0, must_stop: false, priority: -3 }));
        }
    }
    let dt = rng.pick(&DTS);
    let entry = site.net.conns.iter().find(|c| minor.contains(&c.1)).unwrap().0;
    let dst = site.od.iter().find(|o| o.0 == entry).unwrap().1[0];
    let attrs = random_attrs(rng);
    let mut open = site.net.clone();
    open.controls.clear();
    let mut time = |net: &Net, others: bool| -> (Option<f64>, f64) {
        let mut w = World::new(net.clone());
        if others {
            for (e, d) in &site.od {
                if *e != entry && net.conns.iter().any(|c| c.0 == *e && majors.contains(&c.1)) {
                    w.spawn(Attrs::car(), *e, Some(d[0]));
                }
            }
            while w.time < 60.0 {
                w.step(dt);
            }
        }
        let t0 = w.time;
        let k = w.spawn(attrs, entry, Some(dst));
        let mut slowest = f64::INFINITY;
        while w.time < t0 + 120.0 {
            w.step(dt);
            match w.now[k] {
                Some(o) if o.link != entry || o.pos > 0.5 * w.lengths[entry] => slowest = slowest.min(o.vel),
                Some(_) => {}
                None => {
                    out.sig = w.sig;
                    return (Some(w.time - t0), slowest);
                }
            }
        }
        (None, slowest)
    };
    let (free, _) = time(&open, false);
    let (got, slowest) = time(&site.net, held);
    out.sample = format!("{}, held={held}, lower={lower}, dt={dt}", site.name);
    let free = free.ok_or("a lone vehicle never got through")?;
    let got = got.ok_or_else(|| format!("a vehicle waited for nobody for two minutes (held={held}, must_stop={must_stop})"))?;
    let bound = if must_stop { 20.0 } else { 12.0 };
    ensure!(got - free < bound, "a vehicle which had to give way to nobody lost {} s", got - free);
    ensure!(must_stop || slowest > 0.5, "a vehicle slowed down to {slowest} m/s to give way to nobody");
    out.max(if must_stop { "time lost at an empty stop sign, s" } else { "time lost giving way to nobody, s" }, got - free);
    out.hit(if held { "passed held traffic" } else { "passed an empty junction" });
    out.nontrivial = true;
    Ok(())
}

/// Traffic with priority which has passed the crossing and waits behind it, on the same link or the
/// next, is no reason to wait.
fn passed(rng: &mut Rng, out: &mut Out) -> Res {
    let must_stop = rng.chance(0.3);
    let rule = if rng.chance(0.7) { Rule::Minor { must_stop } } else { Rule::AllWay { must_stop } };
    let mut site = skew_site(rng, rule);
    // The link across reaches well beyond the crossing, the one after it is closed
    let Curve::Line(a, b) = site.net.links[1].curve else { unreachable!() };
    let c = site.net.links[2].curve.eval(1.0);
    let cross = 0.5 * dist(a, b);
    let far = rng.f(25.0, 100.0) / cross;
    let b = (a.0 + (1.0 + far) * 0.5 * (b.0 - a.0), a.1 + (1.0 + far) * 0.5 * (b.1 - a.1));
    let c = (b.0 + c.0 - a.0, b.1 + c.1 - a.1);
    site.net.links[1].curve = Curve::Line(a, b);
    site.net.links[2].curve = Curve::Line(b, c);
    site.net.controls.push((2, Ctl::Closed));
    let dt = rng.pick(&DTS);
    let cars: Vec<Attrs> = (0..rng.i(1, 4)).map(|_| random_attrs(rng)).collect();
    let attrs = random_attrs(rng);
    out.sample = format!("{}, {} vehicles behind it, dt={dt}", site.name, cars.len());
    let mut time = |others: bool| -> Option<f64> {
        let mut w = World::new(site.net.clone());
        let mut next = 0;
        while others && w.time < 90.0 {
            if next < cars.len() && w.entry_room(0) > 10.0 {
                w.spawn(cars[next], 0, Some(2));
                next += 1;
            }
            w.step(dt);
        }
        // All of them have to be clear of the crossing
        for k in w.live_keys() {
            let o = w.now[k].unwrap();
            if o.link == 0 || o.vel > 0.01 || o.pos - 0.5 * w.vehs[k].attrs.length < cross + 8.0 {
                return None;
            }
        }
        let t0 = w.time;
        let k = w.spawn(attrs, 3, Some(5));
        while w.time < t0 + 120.0 && w.alive(k) {
            w.step(dt);
        }
        out.sig = w.sig;
        Some(w.time - t0)
    };
    let alone = time(false).unwrap();
    let Some(got) = time(true) else { return Ok(()) };
    ensure!((got - alone).abs() < 0.3, "a vehicle takes {got} s instead of {alone} because of vehicles which have passed the crossing");
    out.hit("passed behind others");
    out.nontrivial = true;
    Ok(())
}

fn yielding(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    match idx % 6 {
        0 => priority(idx / 6, rng, out),
        1 => stop_signs(idx / 6, rng, out),
        2 => turns(idx / 6, rng, out),
        3 if idx % 12 == 3 => passed(rng, out),
        3 => no_reason(idx / 6, rng, out),
        4 => gaps(rng, out),
        _ => stop_rows(rng, out),
    }
}

/// Traffic with priority may meet a vehicle which misjudged a gap now and then, but not regularly.
fn rarely_delayed(c: &Counts) -> Res {
    let get = |k: &str| c.get(k).copied().unwrap_or(0) as f64;
    let n = get("priority trips");
    let (a, b) = (get("priority trips delayed by 0.5 s"), get("priority trips delayed by 2 s"));
    if n > 1000.0 {
        ensure!(a < 0.003 * n + 5.0, "{a} of {n} trips with priority were held up by more than 0.5 s");
        ensure!(b < 0.0008 * n + 4.0, "{b} of {n} trips with priority were held up by more than 2 s");
    }
    Ok(())
}

/// A vehicle coming from one road behind one from the other, compared with the same pair on one road.
fn follow_in(rng: &mut Rng, out: &mut Out) -> Res {
    let site = merge_site(rng, Rule::Open);
    let dt = rng.pick(&DTS);
    // Similar vehicles, so that they don't drift apart or together on the way
    let (a, b) = (random_attrs(rng), random_attrs(rng));
    let first = rng.pick(&[0usize, 3]);
    let second = 3 - first;
    let wait = rng.f(2.5, 7.0);
    // When the second one gets to the merge, if it is alone
    let arrival = |attrs: Attrs, entry: usize| {
        let mut w = World::new(site.net.clone());
        let k = w.spawn(attrs, entry, Some(2));
        while w.time < 60.0 && w.now[k].map_or(false, |o| o.link == entry) {
            w.step(dt);
        }
        w.time
    };
    let (ta, tb) = (arrival(a, first), arrival(b, second));
    // The first one arrives `wait` seconds before the second, on its own road or on the same one
    let pass = |entry: usize, ta: f64, sig: &mut u64| -> Option<(f64, f64, f64)> {
        let mut w = World::new(site.net.clone());
        let start = ta + wait - tb;
        let (mut ka, mut kb) = (None, None);
        let (mut slowest, mut led) = (f64::INFINITY, f64::INFINITY);
        while w.time < 150.0 {
            if ka.is_none() && w.time >= -start {
                ka = Some(w.spawn(a, entry, Some(2)));
            }
            if kb.is_none() && w.time >= start {
                if w.entry_room(second) < 8.0 {
                    return None;
                }
                kb = Some(w.spawn(b, second, Some(2)));
            }
            w.step(dt);
            if let Some(o) = kb.and_then(|k| w.now[k]) {
                if o.link != second || o.pos > w.lengths[second] - 20.0 {
                    slowest = slowest.min(o.vel);
                }
                if let Some(p) = ka.and_then(|k| w.now[k]) {
                    if p.link != entry {
                        led = led.min(p.vel);
                    }
                }
            }
            *sig = w.sig;
            if let (Some(x), Some(y)) = (ka, kb) {
                if !w.alive(x) && !w.alive(y) {
                    return Some((slowest, w.time - start.max(0.0), led));
                }
            }
        }
        None
    };
    out.sample = format!("{}, {wait:.1} s behind one from the other road, dt={dt}", site.name);
    let merged = pass(first, ta, &mut out.sig);
    let lined = pass(second, arrival(a, second), &mut out.sig);
    let (Some(m), Some(l)) = (merged, lined) else { return Ok(()) };
    let share = m.0 / l.0.min(m.2);
    out.max("time lost compared with one lane, s", m.1 - l.1);
    out.max("part of the speed lost", 1.0 - share);
    out.hit("pairs compared");
    ensure!(share > 0.6, "a vehicle {wait} s behind one from the other road slowed down to {} m/s, on one lane to {}", m.0, l.0);
    ensure!(m.1 - l.1 < 5.5, "a vehicle {wait} s behind one from the other road lost {} s compared with one lane", m.1 - l.1);
    out.nontrivial = true;
    Ok(())
}

/// Two long queues merging, compared with all of them on one road.
fn zip(rng: &mut Rng, out: &mut Out) -> Res {
    let mut site = if rng.chance(0.5) { merge_site(rng, Rule::Open) } else { meeting_site(rng) };
    let dt = rng.pick(&DTS);
    // Either they come as fast as the roads let them, or all wait until the roads are opened
    let held = rng.chance(0.5);
    if held {
        for l in [0, 3] {
            let Curve::Line(a, b) = site.net.links[l].curve.clone() else { continue };
            let u = 420.0 / dist(a, b);
            site.net.links[l].curve = Curve::Line((b.0 + u * (a.0 - b.0), b.1 + u * (a.1 - b.1)), b);
        }
    }
    let n = rng.i(8, 24);
    let cars: Vec<Attrs> = (0..n).map(|_| random_attrs(rng)).collect();
    let time = |both: bool, sig: &mut u64| -> Option<f64> {
        let mut w = World::new(site.net.clone());
        let set = |w: &mut World, c: Ctl| for l in [1, 4] { w.control(l, c) };
        if held {
            set(&mut w, Ctl::Closed);
        }
        let (mut next, mut from, mut rest) = (0, if held { None } else { Some(0.0) }, 0.0);
        while w.time < 900.0 {
            for e in [0, 3] {
                let e = if both { e } else { 0 };
                if next < n && w.entry_room(e) > 8.0 {
                    w.spawn(cars[next], e, Some(2));
                    next += 1;
                }
            }
            w.step(dt);
            if from.is_none() {
                let moving = next < n || w.live_keys().iter().any(|k| w.now[*k].map_or(false, |o| o.vel > 0.05));
                rest = if moving { 0.0 } else { rest + dt };
                if rest > 2.0 {
                    from = Some(w.time);
                    set(&mut w, Ctl::Open);
                }
            }
            *sig = w.sig;
            if next == n && w.live_keys().is_empty() {
                return from.map(|t| w.time - t);
            }
        }
        None
    };
    out.sample = format!("{}, {n} vehicles, dt={dt}, held {held}", site.name);
    let one = time(false, &mut out.sig).ok_or("a queue on one road never cleared")?;
    let two = time(true, &mut out.sig).ok_or("two merging queues never cleared")?;
    let (what, limit) = if held { ("time two waiting queues take, of one", 1.5) } else { ("time two queues take, of one", 1.15) };
    out.max(what, two / one);
    ensure!(two < limit * one, "{n} vehicles from two roads take {two} s to merge, on one road they take {one} s");
    out.hit(if held { "waiting queues compared" } else { "queues compared" });
    out.add(if held { "waiting queues, sum of parts per 1000" } else { "queues, sum of parts per 1000" }, (1000.0 * two / one) as u64);
    out.nontrivial = true;
    Ok(())
}

/// On average, two queues take no longer than one.
fn merge_well(c: &Counts) -> Res {
    let get = |k: &str| c.get(k).copied().unwrap_or(0) as f64;
    for (n, sum, limit) in [("waiting queues compared", "waiting queues, sum of parts per 1000", 1.185), ("queues compared", "queues, sum of parts per 1000", 0.9)] {
        let (n, mean) = (get(n), 0.001 * get(sum) / get(n));
        ensure!(n < 500.0 || mean < limit, "{n} pairs of merging queues take {mean} of the time of single ones on average");
    }
    Ok(())
}

fn merging(idx: usize, rng: &mut Rng, out: &mut Out) -> Res {
    if idx % 2 == 0 { follow_in(rng, out) } else { zip(rng, out) }
}

pub fn checks() -> Vec<Check> {
    vec![
    Check {
            id: "C22",
            rule: "Pairs and queues of vehicles from two roads which merge without a rule, at random angles, limits and distances, compared with the same vehicles on one road. Non-trivial: the comparison was made.",
            cases: [12_000, 300_000],
            need: &[("pairs compared", 500), ("queues compared", 500), ("waiting queues compared", 500)], run: merging, post: merge_well },
    Check { 
            id: "C08",
            rule: "Random junctions with give-way, stop and ranked controls and random timetables of trips, compared with the same trips alone. Non-trivial: trips were compared or stop lines passed.",
            cases: [30_000, 300_000],
            need: &[("priority trips", 1_000), ("gaps judged", 500), ("gaps judged to traffic on several links", 500), ("priority roads in pieces", 100), ("yielding trips", 1_000), ("stop lines passed", 1_000), ("stop lines passed in a row", 1_000), ("changes of mind before a junction", 100), ("orders compared", 500), ("passed an empty junction", 50), ("passed held traffic", 50), ("passed behind others", 100)], run: yielding, post: rarely_delayed },
    Check { 
            id: "C06",
            rule: "Random crossings, skew crossings and merges under every kind of control, with traffic; all pairs of vehicle rectangles are compared at every step. Non-trivial: two vehicles came within 6 m of each other.",
            cases: [12_000, 300_000],
            need: &[("encounters", 500_000)], run: overlap, post: no_post }]
}
