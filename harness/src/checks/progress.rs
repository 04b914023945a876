//! Traffic which can move does move.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::geom::{dot, sub};
use crate::rng::Rng;
use crate::world::*;

/// A junction of four two-way roads with turns in all directions.
fn turning_site(rng: &mut Rng) -> Site {
    let half = rng.f(11.0, 15.0);
    let mut j = junction(rng, 4, half, true);
    for (i, x) in j.moves.iter().enumerate() {
        for y in &j.moves[i + 1..] {
            // Those from the same road part, all others may cross or converge
            if x.0 != y.0 {
                j.net.conflicts.push((x.2, y.2));
            }
        }
    }
    let (must_stop, distance) = (rng.chance(0.5), rng.f(5.0, 15.0));
    let rule = if rng.chance(0.5) { "all-way stop" } else { "priority road" };
    for m in &j.moves {
        let major = m.0 % 2 == 0;
        let turn = (m.0 + 2) % 4 != m.1;
        let priority = if rule == "all-way stop" { 0 } else { 2 * major as i8 - turn as i8 };
        if rule == "all-way stop" || !major || turn {
            j.net.controls.push((m.2, Ctl::Yield { distance, must_stop: must_stop && !major, priority }));
        }
    }
    let od = (0..4).map(|a| (j.approach[a], (0..4).filter(|b| *b != a).map(|b| j.exit[b]).collect())).collect();
    Site { name: format!("turning, {rule}"), net: j.net, od }
}

fn site(rng: &mut Rng) -> Site {
    match rng.i(0, 8) {
        0 => chain_site(rng),
        1 => {
            // With all four roads open nobody gives way and they can block each other for good
            let r = match any_rule(rng) {
                Rule::Open => Rule::AllWay { must_stop: false },
                r => r,
            };
            cross_site(rng, r)
        }
        2 => {
            let r = any_rule(rng);
            skew_site(rng, r)
        }
        3 => {
            let r = any_rule(rng);
            merge_site(rng, r)
        }
        4 => grid_site(rng),
        5 | 6 => lanes_site(rng, Mask::All),
        _ => turning_site(rng),
    }
}

/// Whether there is anything a vehicle at a standstill may be waiting for.
fn has_reason(w: &World, k: Key, o: &Obs, conflicts: &[Vec<usize>]) -> bool {
    if w.vehs[k].frozen {
        return true;
    }
    let front = 0.5 * w.vehs[k].attrs.length;
    for j in w.live_keys().into_iter().filter(|j| *j != k) {
        // Somebody close ahead
        let p = w.now[j].unwrap();
        let d = sub(p.xy, o.xy);
        // The road may turn sharply right ahead, and others may have come from the side
        let room = dot(d, d).sqrt() - front - 0.5 * w.vehs[j].attrs.length;
        if room < 0.5 || room < 8.0 && (dot(d, o.dir) > 0.0 || w.outs[o.link].contains(&p.link)) {
            return true;
        }
        if p.link == o.link && p.pos > o.pos && p.pos - o.pos - front - 0.5 * w.vehs[j].attrs.length < 6.0 {
            return true;
        }
    }
    // A line ahead which is closed, or where others have to be given way to
    let mut stack = vec![(o.link, w.lengths[o.link] - o.pos - front)];
    while let Some((l, d)) = stack.pop() {
        if d > 8.0 {
            continue;
        }
        for n in &w.outs[l] {
            if w.ctl[*n] == Ctl::Closed {
                return true;
            }
            if !conflicts[*n].is_empty() {
                let busy = |c: usize| {
                    w.live_keys().into_iter().filter(|j| *j != k).any(|j| {
                        let q = w.now[j].unwrap();
                        q.link == c || w.outs[q.link].contains(&c) || w.ins[q.link].contains(&c)
                    })
                };
                if conflicts[*n].iter().any(|c| busy(*c)) {
                    return true;
                }
            }
            stack.push((*n, d + w.lengths[*n]));
        }
    }
    // Vehicles on the junction itself
    conflicts[o.link].iter().any(|c| {
        w.live_keys().into_iter().any(|j| {
            let q = w.now[j].unwrap();
            q.link == *c || w.outs[q.link].contains(c) || w.ins[q.link].contains(c)
        })
    })
}

fn progress(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let site = site(rng);
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    out.sample = format!("{}, dt={dt}", site.name);
    let mut conflicts = vec![vec![]; w.links.len()];
    for (a, b) in &site.net.conflicts {
        conflicts[*a].push(*b);
        conflicts[*b].push(*a);
    }
    let lanes = !site.net.groups.is_empty();
    // Vehicles held up on a crossing, or behind it, can block each other for good
    let jam = site.name.contains("crossing") || site.name.contains("turning");
    let mix = Mix {
        spawn: rng.f(0.1, 0.9),
        room: 10.0,
        beside: true,
        freeze: if jam { 0.0 } else { 0.1 },
        remove: 0.03,
        retarget: if lanes || jam { 0.0 } else { 0.05 },
        toggle: if jam { 0.0 } else { 0.06 },
        ..Default::default()
    };
    let mut standing: Vec<f64> = vec![];
    let mut watch = |w: &World, out: &mut Out| -> Res {
        standing.resize(w.now.len(), 0.0);
        for k in 0..w.now.len() {
            let Some(o) = w.now[k] else { continue };
            // Where lanes end is not known here, so only stops elsewhere are judged
            // and where roads meet without a rule vehicles may end up inside each other
            let meet = w.ins[o.link].len() > 1 && conflicts.iter().all(|c| c.is_empty()) && o.pos < 25.0;
            if o.vel > 0.05 || lanes || meet || has_reason(w, k, &o, &conflicts) {
                standing[k] = 0.0;
                continue;
            }
            standing[k] += dt;
            out.max("standstill without an apparent reason, s", standing[k]);
            ensure!(standing[k] < 3.0, "t={:.2}: vehicle {k} stands at {:.2} m of link {} ({:.2} m) for no reason", w.time, o.pos, o.link, w.lengths[o.link]);
        }
        Ok(())
    };
    let secs = rng.f(20.0, 70.0);
    while w.time < secs {
        act(rng, &mut w, &site, &mix, dt);
        if jam && rng.chance(0.1 * dt) {
            // Before it they only hold up those behind them
            let ks: Vec<Key> = w.live_keys().into_iter().filter(|k| {
                let o = w.now[*k].unwrap();
                w.ins[o.link].is_empty() && o.pos + 15.0 + o.vel * o.vel / 3.0 < w.lengths[o.link]
            }).collect();
            if !ks.is_empty() {
                let k = rng.pick(&ks);
                w.freeze(k, !w.vehs[k].frozen);
                out.hit("held up before a junction");
            }
        }
        w.step(dt);
        watch(&w, out)?;
    }
    // Everything which was put in the way is removed
    for k in w.live_keys() {
        w.freeze(k, false);
    }
    let lit: Vec<usize> = w.net.lights.iter().flat_map(|l| l.movements.iter().flat_map(|m| m.links.clone())).collect();
    for l in 0..w.links.len() {
        if !lit.contains(&l) {
            let c = site.net.controls.iter().find(|c| c.0 == l).map(|c| c.1).unwrap_or(Ctl::Open);
            w.control(l, c);
        }
    }
    let n = w.live_keys().len();
    let start = w.time;
    let bound = 90.0 + 8.0 * n as f64 + 2.0 * w.lengths.iter().zip(&site.net.links).map(|(l, s)| l / s.limit).sum::<f64>();
    while !w.live_keys().is_empty() {
        w.step(dt);
        watch(&w, out)?;
        if w.time - start >= bound {
            let left: Vec<String> = w.live_keys().iter().map(|k| {
                let o = w.now[*k].unwrap();
                format!("{k}: link {} at {:.2} of {:.2}, {:.2} m/s, to {:?}", o.link, o.pos, w.lengths[o.link], o.vel, w.vehs[*k].dst)
            }).collect();
            return Err(format!("{} of {n} vehicles have not got to their destinations after {bound:.0} s: {left:?}", left.len()));
        }
    }
    out.max("part of the time allowed", (w.time - start) / bound);
    out.add("vehicles which had to leave", n as u64);
    if lanes {
        out.add("of them on parallel lanes", n as u64);
    }
    if site.name.contains("turning") {
        out.add("of them turning", n as u64);
    }
    out.hit("networks emptied");
    out.nontrivial = n >= 3;
    out.sig = w.sig;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C17",
        rule: "Traffic on a random site is disturbed by freezing and removing vehicles and closing links for up to 70 s, then all of that is undone and the network has to empty within a bounded time. Non-trivial: at least three vehicles were left by then.",
        cases: [18_000, 500_000],
        need: &[("networks emptied", 2_000), ("vehicles which had to leave", 10_000), ("of them on parallel lanes", 1_000), ("of them turning", 1_000)],
        run: progress,
        post: no_post,
    }]
}
