//! Sites (networks with their origins and destinations) and the workload which drives them.

use crate::core::Res;
use crate::gen::*;
use crate::rng::Rng;
use crate::world::*;
use std::f64::consts::PI;

/// A network together with the trips which can be made on it.
#[derive(Clone, Debug)]
pub struct Site {
    pub name: String,
    pub net: Net,
    /// Entry links and the destinations which can be reached from each.
    pub od: Vec<(usize, Vec<usize>)>,
}

pub fn chain_site(rng: &mut Rng) -> Site {
    let n = rng.i(1, 6);
    let net = chain(rng, n, (25.0, 200.0), (8.0, 18.0));
    Site { name: format!("chain of {n}"), net, od: vec![(0, vec![n - 1])] }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rule {
    Open,
    /// One road yields to the other.
    Minor { must_stop: bool },
    /// Both roads yield with the same priority.
    AllWay { must_stop: bool },
    Lights,
}

pub fn any_rule(rng: &mut Rng) -> Rule {
    match rng.i(0, 5) {
        0 => Rule::Open,
        1 => Rule::Minor { must_stop: false },
        2 => Rule::Minor { must_stop: true },
        3 => Rule::AllWay { must_stop: false },
        4 => Rule::AllWay { must_stop: true },
        _ => Rule::Lights,
    }
}

pub fn two_phase(rng: &mut Rng, a: Vec<usize>, b: Vec<usize>) -> LightSpec {
    let m = |conflict, links, rng: &mut Rng| MovementSpec {
        conflict,
        amber: rng.f(2.0, 4.0),
        red: rng.f(2.5, 4.0),
        links,
    };
    LightSpec {
        movements: vec![m(0b10, a, rng), m(0b01, b, rng)],
        phases: vec![(0b01, rng.f(6.0, 18.0)), (0b10, rng.f(6.0, 18.0))],
    }
}

/// Applies the rule to the junction links `major` and `minor`.
pub fn apply_rule(rng: &mut Rng, net: &mut Net, rule: Rule, major: &[usize], minor: &[usize]) {
    match rule {
        Rule::Open => {}
        Rule::Minor { must_stop } => {
            for l in minor {
                let distance = rng.f(5.0, 20.0);
                net.controls.push((*l, Ctl::Yield { distance, must_stop, priority: -1 }));
            }
        }
        Rule::AllWay { must_stop } => {
            for l in major.iter().chain(minor) {
                let distance = rng.f(5.0, 20.0);
                net.controls.push((*l, Ctl::Yield { distance, must_stop, priority: 0 }));
            }
        }
        Rule::Lights => {
            let spec = two_phase(rng, major.to_vec(), minor.to_vec());
            net.lights.push(spec);
        }
    }
}

/// Two-way roads crossing at right angles, through traffic only.
pub fn cross_site(rng: &mut Rng, rule: Rule) -> Site {
    cross_site_of(rng, rule, (8.0, 12.0))
}

pub fn cross_site_of(rng: &mut Rng, rule: Rule, half: (f64, f64)) -> Site {
    let box_half = rng.f(half.0, half.1);
    let mut j = junction(rng, 4, box_half, false);
    for x in &j.moves {
        for y in &j.moves {
            if x.0 < y.0 {
                j.net.conflicts.push((x.2, y.2));
            }
        }
    }
    let major: Vec<_> = j.moves.iter().filter(|m| m.0 % 2 == 0).map(|m| m.2).collect();
    let minor: Vec<_> = j.moves.iter().filter(|m| m.0 % 2 == 1).map(|m| m.2).collect();
    apply_rule(rng, &mut j.net, rule, &major, &minor);
    let od = j.moves.iter().map(|m| (j.approach[m.0], vec![j.exit[m.1]])).collect();
    Site { name: format!("crossing {rule:?}"), net: j.net, od }
}

/// Two one-way roads crossing at an arbitrary angle.
pub fn skew_site(rng: &mut Rng, rule: Rule) -> Site {
    skew_site_of(rng, rule, (9.0, 14.0))
}

pub fn skew_site_of(rng: &mut Rng, rule: Rule, half: (f64, f64)) -> Site {
    let mut net = Net::default();
    let a0 = rng.f(-PI, PI);
    let sign = if rng.chance(0.5) { 1.0 } else { -1.0 };
    let angles = [a0, a0 + sign * rng.f(0.9, PI - 0.9)];
    let limit = rng.f(8.0, 17.0);
    let mut od = vec![];
    let mut boxes = vec![];
    for a in angles {
        let (app, half, out) = (rng.f(70.0, 150.0), rng.f(half.0, half.1), rng.f(60.0, 120.0));
        let c = Turtle::new((10.0, -5.0), a);
        let pts = [-half - app, -half, half, half + out].map(|d| c.ahead(d));
        let base = net.links.len();
        for i in 0..3 {
            net.links.push(LinkSpec { curve: Curve::Line(pts[i], pts[i + 1]), limit });
        }
        net.conns.push((base, base + 1));
        net.conns.push((base + 1, base + 2));
        od.push((base, vec![base + 2]));
        boxes.push(base + 1);
    }
    net.conflicts.push((boxes[0], boxes[1]));
    apply_rule(rng, &mut net, rule, &[boxes[0]], &[boxes[1]]);
    Site { name: format!("skew crossing {rule:?}"), net, od }
}

/// Cuts the straight entry link of a site in pieces, where others may join, too.
/// Returns the pieces in order.
pub fn chop(rng: &mut Rng, site: &mut Site, entry: usize, piece: (f64, f64), joins: usize) -> Vec<usize> {
    let net = &mut site.net;
    let Curve::Line(a, b) = net.links[entry].curve else { panic!("not a line") };
    let limit = net.links[entry].limit;
    let mixed = rng.chance(0.5);
    let mut pieces = vec![entry];
    let mut t = Turtle::new(a, (b.1 - a.1).atan2(b.0 - a.0));
    let mut left = dist(a, b);
    let mut cut = |rng: &mut Rng| {
        let l = if left < piece.0 + piece.1 { left } else { rng.f(piece.0, piece.1) };
        left -= l;
        (l, left > 0.0)
    };
    let (l, mut more) = cut(rng);
    net.links[entry].curve = t.line(l);
    while more {
        let (l, m) = cut(rng);
        pieces.push(net.links.len());
        let limit = limit * if mixed { rng.f(0.9, 1.5) } else { 1.0 };
        net.links.push(LinkSpec { curve: t.line(l), limit });
        more = m;
    }
    let last = *pieces.last().unwrap();
    for c in &mut net.conns {
        if c.0 == entry {
            c.0 = last;
        }
    }
    for o in &mut site.od {
        for d in &mut o.1 {
            if *d == entry {
                *d = last;
            }
        }
    }
    let mut more: Vec<(usize, usize)> = pieces.windows(2).map(|p| (p[0], p[1])).collect();
    for _ in 0..joins {
        if pieces.len() < 2 {
            break;
        }
        let into = pieces[rng.i(1, pieces.len() - 1)];
        let Curve::Line(a, b) = net.links[into].curve else { unreachable!() };
        let h = (b.1 - a.1).atan2(b.0 - a.0) + rng.f(0.2, 1.0) * rng.pick(&[-1.0, 1.0]);
        let from = Turtle::new(a, h).ahead(-rng.f(100.0, 200.0));
        let l = net.links.len();
        net.links.push(LinkSpec { curve: Curve::Line(from, a), limit });
        let at = rng.i(0, more.len());
        more.insert(at, (l, into));
        let ds = site.od.iter().find(|o| o.0 == entry).unwrap().1.clone();
        site.od.push((l, ds));
    }
    net.conns.extend(more);
    site.name = format!("{}, road in {} pieces, {joins} join it", site.name, pieces.len());
    pieces
}

/// Links: 0 main approach, 1 main merge, 2 exit, 3 ramp approach, 4 ramp merge.
pub fn merge_site(rng: &mut Rng, rule: Rule) -> Site {
    let mut net = Net::default();
    let limit = rng.f(9.0, 17.0);
    let ml = rng.f(20.0, 50.0);
    let (al, bl, ol) = (rng.f(80.0, 150.0), rng.f(80.0, 150.0), rng.f(80.0, 150.0));
    let line = |a, b| LinkSpec { curve: Curve::Line(a, b), limit };
    net.links.push(line((-al - ml, 0.0), (-ml, 0.0)));
    net.links.push(line((-ml, 0.0), (0.0, 0.0)));
    net.links.push(line((0.0, 0.0), (ol, 0.0)));
    let ang = rng.f(0.25, 1.2);
    let side = if rng.chance(0.5) { 1.0 } else { -1.0 };
    let mut t = Turtle::new((0.0, 0.0), PI);
    let ramp = match t.arc(ml / ang, side * ang) {
        Curve::Arc(a) => {
            Curve::Arc(Arc { a0: a.a0 + a.sweep, sweep: -a.sweep, ..a })
        }
        c => c,
    };
    net.links.push(line(t.ahead(bl), t.p));
    let ramp_limit = if ang > 0.9 { limit.min(9.0) } else { limit };
    net.links.push(LinkSpec { curve: ramp, limit: ramp_limit });
    net.conns = vec![(0, 1), (1, 2), (3, 4), (4, 2)];
    net.conflicts = vec![(1, 4)];
    apply_rule(rng, &mut net, rule, &[1], &[4]);
    Site { name: format!("merge {rule:?}"), net, od: vec![(0, vec![2]), (3, vec![2])] }
}

/// Two bends which turn their backs to each other and cross or touch in the middle, or one which does
/// so with a straight road. Each road is an approach, the bend and an exit.
pub fn bend_site(rng: &mut Rng, rule: Rule) -> Site {
    let mut net = Net::default();
    let base = Turtle::new((5.0, 15.0), rng.f(-PI, PI));
    let apart = rng.f(-2.5, 2.5);
    let limit = rng.f(8.0, 12.0);
    let bent = [true, rng.chance(0.6)];
    let mut od = vec![];
    for (i, up) in [1.0, -1.0].into_iter().enumerate() {
        let back = rng.chance(0.5);
        let h = base.h + if back { PI } else { 0.0 };
        let turn = if back { -up } else { up };
        let mid = Turtle::new(base.left(up * 0.5 * apart), base.h).ahead(rng.f(-4.0, 4.0));
        let (app, out, r) = (rng.f(70.0, 150.0), rng.f(60.0, 120.0), rng.f(45.0, 90.0));
        // Far enough for the ends of the bend to be clear of the other road
        let half = f64::acos(1.0 - 12.0 / r);
        let mut t = Turtle::new(mid, h + PI);
        if bent[i] {
            t.arc(r, -turn * half);
        } else {
            t.line(rng.f(38.0, 50.0));
        }
        let mut t = Turtle::new(t.p, t.h + PI);
        let links = [
            Curve::Line(t.ahead(-app), t.p),
            if bent[i] { t.arc(r, 2.0 * turn * half) } else { t.line(88.0) },
            t.line(out),
        ];
        let n = net.links.len();
        net.links.extend(links.map(|curve| LinkSpec { curve, limit }));
        net.conns.extend([(n, n + 1), (n + 1, n + 2)]);
        od.push((n, vec![n + 2]));
    }
    net.conflicts.push((1, 4));
    apply_rule(rng, &mut net, rule, &[1], &[4]);
    Site { name: format!("bends {apart:.2} m apart {rule:?}"), net, od }
}

/// Two straight roads which meet at an angle and carry on as one, without a rule.
pub fn meeting_site(rng: &mut Rng) -> Site {
    let mut net = Net::default();
    let limit = rng.f(9.0, 17.0);
    let (al, bl, ol) = (rng.f(80.0, 150.0), rng.f(80.0, 150.0), rng.f(80.0, 150.0));
    let (ma, mb) = (rng.f(20.0, 50.0), rng.f(20.0, 50.0));
    let ang = rng.f(0.15, 1.1);
    let side = if rng.chance(0.5) { 1.0 } else { -1.0 };
    let at = |r: f64, a: f64| (-r * f64::cos(a), -r * f64::sin(a));
    let line = |a, b| LinkSpec { curve: Curve::Line(a, b), limit };
    net.links.push(line(at(al + ma, 0.0), at(ma, 0.0)));
    net.links.push(line(at(ma, 0.0), (0.0, 0.0)));
    net.links.push(line((0.0, 0.0), (ol, 0.0)));
    net.links.push(line(at(bl + mb, side * ang), at(mb, side * ang)));
    net.links.push(line(at(mb, side * ang), (0.0, 0.0)));
    net.conns = vec![(0, 1), (1, 2), (3, 4), (4, 2)];
    net.conflicts = vec![(1, 4)];
    Site { name: format!("roads meeting at {ang:.2}"), net, od: vec![(0, vec![2]), (3, vec![2])] }
}

/// Splits each exit shortly after the junction, so that it can be closed there to make traffic
/// stop on the junction. Returns the links to close.
pub fn gates(rng: &mut Rng, site: &mut Site, at: (f64, f64)) -> Vec<usize> {
    let net = &mut site.net;
    let mut gates = vec![];
    for l in 0..net.links.len() {
        let (Curve::Line(a, b), limit) = (net.links[l].curve.clone(), net.links[l].limit) else { continue };
        if net.conns.iter().any(|c| c.0 == l) {
            continue;
        }
        let u = rng.f(at.0, at.1) / dist(a, b);
        let m = (a.0 + u * (b.0 - a.0), a.1 + u * (b.1 - a.1));
        net.links[l].curve = Curve::Line(a, m);
        let gate = net.links.len();
        net.links.push(LinkSpec { curve: Curve::Line(m, b), limit });
        net.conns.push((l, gate));
        for (_, ds) in &mut site.od {
            for d in ds.iter_mut().filter(|d| **d == l) {
                *d = gate;
            }
        }
        gates.push(gate);
    }
    gates
}

/// Sections of parallel lanes. `mask` picks the lane change permissions.
pub fn lanes_net(rng: &mut Rng, mask: Mask, spacing: f64) -> (Net, Vec<Vec<usize>>) {
    lanes_net_of(rng, mask, spacing, (2, 4), (1, 4), (80.0, 200.0))
}

/// As above, with the given numbers of lanes and sections and length of each section.
pub fn lanes_net_of(
    rng: &mut Rng,
    mask: Mask,
    spacing: f64,
    lanes: (usize, usize),
    secs: (usize, usize),
    len: (f64, f64),
) -> (Net, Vec<Vec<usize>>) {
    let mut net = Net::default();
    let (n, secs) = (rng.i(lanes.0, lanes.1), rng.i(secs.0, secs.1));
    let limit = rng.f(9.0, 17.0);
    let mut t = Turtle::new((rng.f(-90.0, 90.0), rng.f(-90.0, 90.0)), rng.f(-PI, PI));
    let mut rows: Vec<Vec<usize>> = vec![];
    for s in 0..secs {
        let len = rng.f(len.0, len.1);
        let curved = rng.chance(0.5);
        let rad = rng.f(60.0, 150.0).max(len / 4.0) * if rng.chance(0.5) { 1.0 } else { -1.0 };
        let t0 = t;
        let mut row = vec![];
        for k in 0..n {
            // Lane 0 is the leftmost
            let off = -(k as f64) * spacing;
            let mut tt = Turtle::new(t0.left(off), t0.h);
            let curve = if curved {
                let r = if rad > 0.0 { rad - off } else { -rad + off };
                tt.arc(r, rad.signum() * len / rad.abs())
            } else {
                tt.line(len)
            };
            if k == 0 {
                t = tt;
            }
            let l = net.links.len();
            net.links.push(LinkSpec { curve, limit });
            if s > 0 {
                net.conns.push((rows[s - 1][k], l));
            }
            row.push(l);
        }
        let bits: u32 = match mask {
            Mask::None => 0,
            Mask::All => !0,
            Mask::Random => rng.next() as u32,
        };
        net.groups.push((row.clone(), bits));
        rows.push(row);
    }
    (net, rows)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mask {
    None,
    All,
    Random,
}

pub fn lanes_site(rng: &mut Rng, mask: Mask) -> Site {
    let (net, rows) = lanes_net(rng, mask, 3.5);
    let last = rows.last().unwrap().clone();
    // Which lanes of the last row can be reached from each entry, by the harness' own search
    let od = rows[0]
        .iter()
        .map(|e| {
            let r = reachable(&net, *e);
            (*e, last.iter().copied().filter(|l| r[*l]).collect::<Vec<_>>())
        })
        .filter(|(_, d)| !d.is_empty())
        .collect();
    Site { name: format!("{} sections of {} lanes, {mask:?} lane changes", rows.len(), rows[0].len()), net, od }
}

/// Permitted lane changes by the documented meaning of the mask.
pub fn lane_moves(net: &Net) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]; net.links.len()];
    for (row, bits) in &net.groups {
        for (i, l) in row.iter().enumerate() {
            if i > 0 && bits >> (2 * i) & 1 == 1 {
                out[*l].push(row[i - 1]);
            }
            if i + 1 < row.len() && bits >> (2 * i + 1) & 1 == 1 {
                out[*l].push(row[i + 1]);
            }
        }
    }
    out
}

pub fn succ(net: &Net) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]; net.links.len()];
    for (a, b) in &net.conns {
        out[*a].push(*b);
    }
    out
}

pub fn reachable(net: &Net, src: usize) -> Vec<bool> {
    let (lc, outs) = (lane_moves(net), succ(net));
    let mut seen = vec![false; net.links.len()];
    let mut stack = vec![src];
    while let Some(l) = stack.pop() {
        if !seen[l] {
            seen[l] = true;
            stack.extend(lc[l].iter().chain(&outs[l]));
        }
    }
    seen
}

/// A grid of one-way streets with route choice; every link is simple and uncontrolled.
pub fn grid_net(rng: &mut Rng, w: usize, h: usize) -> Net {
    let mut net = Net::default();
    let pitch = rng.f(50.0, 110.0);
    let node = |x: usize, y: usize, rng: &mut Rng| {
        (x as f64 * pitch + rng.f(-15.0, 15.0), y as f64 * pitch + rng.f(-15.0, 15.0))
    };
    let pts: Vec<Vec<P>> = (0..w).map(|x| (0..h).map(|y| node(x, y, rng)).collect()).collect();
    let mut ends: Vec<((usize, usize), (usize, usize))> = vec![];
    let mut add = |net: &mut Net, a: (usize, usize), b: (usize, usize), rng: &mut Rng| {
        let (p, q) = (pts[a.0][a.1], pts[b.0][b.1]);
        let curve = if rng.chance(0.6) {
            Curve::Line(p, q)
        } else {
            let (dx, dy) = (q.0 - p.0, q.1 - p.1);
            let k = rng.f(-0.25, 0.25);
            Curve::Quad([p, (p.0 + 0.5 * dx - k * dy, p.1 + 0.5 * dy + k * dx), q])
        };
        ends.push((a, b));
        net.links.push(LinkSpec { curve, limit: rng.f(7.0, 18.0) });
    };
    for x in 0..w {
        for y in 0..h {
            if x + 1 < w && rng.chance(0.85) {
                add(&mut net, (x, y), (x + 1, y), rng);
            }
            if x > 0 && rng.chance(0.35) {
                add(&mut net, (x, y), (x - 1, y), rng);
            }
            if y + 1 < h && rng.chance(0.85) {
                add(&mut net, (x, y), (x, y + 1), rng);
            }
            if y > 0 && rng.chance(0.35) {
                add(&mut net, (x, y), (x, y - 1), rng);
            }
        }
    }
    for (i, (a0, a1)) in ends.iter().enumerate() {
        for (j, (b0, b1)) in ends.iter().enumerate() {
            // No U-turns
            if a1 == b0 && a0 != b1 {
                net.conns.push((i, j));
            }
        }
    }
    if net.links.is_empty() {
        return grid_net(rng, w, h);
    }
    net
}

pub fn grid_site(rng: &mut Rng) -> Site {
    let (w, h) = (rng.i(2, 4), rng.i(2, 4));
    let net = grid_net(rng, w, h);
    let n = net.links.len();
    let mut od = vec![];
    for _ in 0..4 {
        let e = rng.i(0, n - 1);
        let r = reachable(&net, e);
        let d = (0..n).filter(|i| r[*i]).collect::<Vec<_>>();
        od.push((e, d));
    }
    Site { name: format!("{w}x{h} grid"), net, od }
}

pub fn any_site(rng: &mut Rng) -> Site {
    match rng.i(0, 7) {
        0 => chain_site(rng),
        1 => {
            let r = any_rule(rng);
            cross_site(rng, r)
        }
        2 => {
            let r = any_rule(rng);
            skew_site(rng, r)
        }
        3 => {
            let r = any_rule(rng);
            merge_site(rng, r)
        }
        4 => grid_site(rng),
        5 => lanes_site(rng, Mask::Random),
        _ => lanes_site(rng, Mask::All),
    }
}

/// Rates (per simulated second) of the things a user of the simulation does while it runs.
#[derive(Clone, Copy, Debug, Default)]
pub struct Mix {
    pub spawn: f64,
    /// Room needed on the entry link for a vehicle to be added.
    pub room: f64,
    /// Whether that room is needed on the lanes beside it as well.
    pub beside: bool,
    pub no_dst: f64,
    pub freeze: f64,
    pub remove: f64,
    pub retarget: f64,
    pub toggle: f64,
    pub lane_change: f64,
    pub adjust: f64,
}

/// What a workload step did, for monitors which need to know.
#[derive(Clone, Debug)]
pub enum Act {
    Spawn(Key),
    Freeze(Key, bool),
    Remove(Key),
    Retarget(Key),
    Control(usize),
    LaneChange { key: Key, from: usize, dist: f64 },
    Adjust,
}

/// Performs random actions for one step of `dt` seconds.
pub fn act(rng: &mut Rng, w: &mut World, site: &Site, mix: &Mix, dt: f64) -> Vec<Act> {
    let mut acts = vec![];
    if rng.chance(mix.spawn * dt) && !site.od.is_empty() {
        let (e, ds) = &site.od[rng.i(0, site.od.len() - 1)];
        let mut room = w.entry_room(*e);
        if mix.beside {
            let row = w.net.groups.iter().filter(|g| g.0.contains(e)).flat_map(|g| &g.0);
            room = row.map(|l| w.entry_room(*l)).fold(room, f64::min);
            // Nor right in front of those coming from behind
            let coming = |k: &Key| {
                let o = w.now[*k].unwrap();
                w.ins[*e].contains(&o.link) && o.pos + 60.0 > w.lengths[o.link]
            };
            if w.live_keys().iter().any(coming) {
                room = 0.0;
            }
        }
        if room > mix.room && !ds.is_empty() {
            let dst = if rng.chance(mix.no_dst) { None } else { Some(rng.pick(ds)) };
            let attrs = random_attrs(rng);
            acts.push(Act::Spawn(w.spawn(attrs, *e, dst)));
        }
    }
    let live = w.live_keys();
    if live.is_empty() {
        return acts;
    }
    if rng.chance(mix.freeze * dt) {
        let k = rng.pick(&live);
        let on = rng.chance(0.45);
        w.freeze(k, on);
        acts.push(Act::Freeze(k, on));
    }
    if rng.chance(mix.freeze * dt) {
        for k in &live {
            w.freeze(*k, false);
            acts.push(Act::Freeze(*k, false));
        }
    }
    if rng.chance(mix.retarget * dt) {
        let k = rng.pick(&live);
        let o = w.now[k].unwrap();
        let r = reachable(&w.net, o.link);
        let ds: Vec<usize> = (0..r.len()).filter(|i| r[*i]).collect();
        let d = rng.pick(&ds);
        // Leave time to act on it, which it only does once it has completed a lane change
        let lanes = if w.net.groups.iter().any(|g| g.0.contains(&o.link)) { 75.0 } else { 0.0 };
        if o.pos + 15.0 + lanes + o.vel + o.vel * o.vel / 3.0 < w.lengths[o.link] {
            w.set_dst(k, d);
            acts.push(Act::Retarget(k));
        }
    }
    if rng.chance(mix.toggle * dt) {
        // Only links which aren't controlled by a light
        let lit: Vec<usize> =
            w.net.lights.iter().flat_map(|l| l.movements.iter().flat_map(|m| m.links.clone())).collect();
        let free: Vec<usize> = (0..w.links.len()).filter(|l| !lit.contains(l)).collect();
        if !free.is_empty() {
            let l = rng.pick(&free);
            let orig = w.net.controls.iter().find(|c| c.0 == l).map(|c| c.1).unwrap_or(Ctl::Open);
            let c = if w.ctl[l] == Ctl::Closed { orig } else { Ctl::Closed };
            w.control(l, c);
            acts.push(Act::Control(l));
        }
    }
    if rng.chance(mix.lane_change * dt) {
        let k = rng.pick(&live);
        let o = w.now[k].unwrap();
        let row = w.net.groups.iter().find(|g| g.0.contains(&o.link)).map(|g| g.0.clone());
        if let Some(row) = row {
            let i = row.iter().position(|l| *l == o.link).unwrap();
            let j = if i == 0 || (i + 1 < row.len() && rng.chance(0.5)) { i + 1 } else { i - 1 };
            let dist = rng.f(12.0, 60.0);
            // Leave room to stop at the end of the new lane, as it may not lead anywhere
            let room = 30.0 + o.vel * o.vel / 3.0;
            if o.pos > 3.0 && o.pos + room < w.lengths[o.link].min(w.lengths[row[j]]) {
                w.lane_change(k, row[j], dist);
                acts.push(Act::LaneChange { key: k, from: o.link, dist });
            }
        }
    }
    if rng.chance(mix.remove * dt) {
        let k = rng.pick(&live);
        w.remove(k);
        acts.push(Act::Remove(k));
    }
    if rng.chance(mix.adjust * dt) {
        let sd = rng.f(0.0, 0.3);
        w.sim.randomise_velocity_adjusts(sd);
        acts.push(Act::Adjust);
    }
    acts
}

pub const DTS: [f64; 6] = [0.02, 0.05, 0.1, 0.1, 0.15, 0.2];

/// Runs a workload, calling the monitor after each step.
pub fn run(
    rng: &mut Rng,
    w: &mut World,
    site: &Site,
    mix: &Mix,
    dt: f64,
    secs: f64,
    mon: &mut dyn FnMut(&mut World, &[Act]) -> Res,
) -> Res {
    let steps = (secs / dt) as usize;
    for i in 0..steps {
        // Stop adding traffic for the last third
        let mut m = *mix;
        if i * 3 > steps * 2 {
            m.spawn = 0.0;
        }
        let acts = act(rng, w, site, &m, dt);
        w.step(dt);
        mon(w, &acts)?;
    }
    Ok(())
}
