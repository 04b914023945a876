//! What the network says about itself.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;
use std::collections::HashSet;
use traffic_sim::LinkId;

fn set(ids: &[LinkId]) -> HashSet<LinkId> {
    ids.iter().copied().collect()
}

/// A random directed graph with lane groups. The geometry is arbitrary but short.
fn graph(rng: &mut Rng) -> Net {
    let mut net = Net::default();
    let n = rng.i(1, 24);
    let mut i = 0;
    while i < n {
        let most = if rng.chance(0.1) { 16 } else { 7 };
        let lanes = if rng.chance(0.5) { rng.i(2, most) } else { 1 };
        let (x, y, len, limit) = (rng.f(-99.0, 99.0), rng.f(-99.0, 99.0), rng.f(3.0, 60.0), rng.f(2.0, 30.0));
        let mut t = Turtle::new((x, y), rng.f(-3.0, 3.0));
        for k in 0..lanes {
            let mut tt = Turtle::new(t.left(-3.3 * k as f64), t.h);
            net.links.push(LinkSpec { curve: tt.line(len), limit });
        }
        if lanes > 1 {
            net.groups.push(((i..i + lanes).collect(), rng.next() as u32));
        }
        let _ = t.line(1.0);
        i += lanes;
    }
    let n = net.links.len();
    let density = rng.f(0.3, 2.0);
    // Sometimes many roads meet in one
    let hub = rng.chance(0.2).then(|| rng.i(0, n - 1));
    for _ in 0..(density * n as f64) as usize {
        let mut c = (rng.i(0, n - 1), rng.i(0, n - 1));
        match hub.filter(|_| rng.chance(0.5)) {
            Some(h) if rng.chance(0.5) => c.0 = h,
            Some(h) => c.1 = h,
            None => {}
        }
        if c.0 != c.1 && !net.conns.contains(&c) {
            net.conns.push(c);
        }
    }
    net
}

fn queries(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let net = if rng.chance(0.75) { graph(rng) } else { any_site(rng).net };
    let w = World::new(net);
    let n = w.links.len();
    let net = &w.net;
    out.sample = format!("{n} links, {} connections, {} groups", net.conns.len(), net.groups.len());
    let (lc, outs) = (lane_moves(net), succ(net));
    let ids = |v: Vec<usize>| v.iter().map(|l| w.links[*l]).collect::<HashSet<_>>();

    ensure!(w.sim.iter_links().count() == n, "{} links are listed of {n}", w.sim.iter_links().count());
    ensure!(set(&w.sim.iter_links().map(|l| l.id()).collect::<Vec<_>>()) == ids((0..n).collect()), "the links listed are not those added");
    for i in 0..n {
        let l = w.sim.get_link(w.links[i]);
        ensure!(l.id() == w.links[i], "link {i} has another identity");
        ensure!(l.speed_limit() == net.links[i].limit, "link {i} has a limit of {}, {} was set", l.speed_limit(), net.links[i].limit);
        // The travel time in tenths of a second, which may fall on either side of a whole number
        let t = 10.0 * l.length() / net.links[i].limit;
        ensure!((l.cost() as f64) <= t + 1e-9 && l.cost() as f64 > t - 1.0 - 1e-9, "link {i} costs {}, its travel time is {t} tenths of a second", l.cost());
        let true_len = net.links[i].curve.true_length_fast();
        ensure!((l.length() - true_len).abs() < 0.02 * true_len + 0.02, "link {i} is {} m long, really {true_len}", l.length());
        let want_out: Vec<LinkId> = outs[i].iter().map(|j| w.links[*j]).collect();
        ensure!(set(l.links_out()) == set(&want_out) && l.links_out().len() == want_out.len(), "link {i} leads to {:?}", l.links_out());
        let want_in = net.conns.iter().filter(|c| c.1 == i).map(|c| c.0).collect::<Vec<_>>();
        ensure!(l.links_in().len() == want_in.len() && set(l.links_in()) == ids(want_in), "link {i} is reached from {:?}", l.links_in());
        ensure!(l.lane_changes().len() == lc[i].len() && set(l.lane_changes()) == ids(lc[i].clone()), "from lane {i} one may change to {:?}", l.lane_changes());
        // Closure over lane changes, in both directions
        let close = |step: &dyn Fn(usize) -> Vec<usize>| {
            let (mut seen, mut stack) = (vec![], vec![i]);
            while let Some(x) = stack.pop() {
                if !seen.contains(&x) {
                    seen.push(x);
                    stack.extend(step(x));
                }
            }
            seen
        };
        let to = close(&|x| lc[x].clone());
        let from = close(&|x| (0..n).filter(|y| lc[*y].contains(&x)).collect());
        ensure!(l.reachable_lanes().len() == to.len() && set(l.reachable_lanes()) == ids(to.clone()), "from lane {i} lanes {:?} can be reached, really {to:?}", l.reachable_lanes());
        ensure!(l.reachable_from_lanes().len() == from.len() && set(l.reachable_from_lanes()) == ids(from.clone()), "lane {i} can be reached from {:?}, really {from:?}", l.reachable_from_lanes());
        out.hit("links compared");
        out.add("lanes with changes", (to.len() > 1) as u64);
    }
    // Every pair of an entry and an exit connected by some way, once
    let mut want = HashSet::new();
    for s in (0..n).filter(|s| net.conns.iter().all(|c| c.1 != *s)) {
        let r = reachable(net, s);
        want.extend((0..n).filter(|d| r[*d] && outs[*d].is_empty()).map(|d| (w.links[s], w.links[d])));
    }
    let got: Vec<_> = w.sim.all_routes().collect();
    let gs: HashSet<_> = got.iter().copied().collect();
    ensure!(gs.len() == got.len(), "a route is listed twice: {got:?}");
    ensure!(gs == want, "{} routes are listed, there are {}", gs.len(), want.len());
    out.add("routes compared", want.len() as u64);
    out.nontrivial = n > 2;
    out.sig = crate::core::hash(&[n as u64, net.conns.len() as u64, want.len() as u64, net.links[0].limit.to_bits()]);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C18",
        rule: "Random graphs with lane groups and lane markings, and the sites of the other checks; every query of every link is compared with the specification the network was built from. Non-trivial: more than two links.",
        cases: [24_000, 1_000_000],
        need: &[("links compared", 50_000), ("lanes with changes", 10_000), ("routes compared", 10_000)],
        run: queries,
        post: no_post,
    }]
}
