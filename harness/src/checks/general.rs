//! Guarantees which hold for every vehicle at every step, whatever the network and the workload.

use crate::core::{no_post, Check, Out, Res};
use crate::drive::*;
use crate::geom::Poly;
use crate::mon;
use crate::rng::Rng;
use crate::world::World;

fn polys(w: &World) -> Vec<Poly> {
    w.net.links.iter().map(|l| Poly::new(&l.curve, 400)).collect()
}

const BUSY: Mix = Mix {
    spawn: 0.6,
    room: 8.0,
    beside: false,
    no_dst: 0.05,
    freeze: 0.12,
    remove: 0.03,
    retarget: 0.08,
    toggle: 0.08,
    lane_change: 0.15,
    adjust: 0.02,
};

pub fn kinematics(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let site = any_site(rng);
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let topo = mon::Topology::new(&w.net);
    let polys = polys(&w);
    out.sample = format!("{}, dt={dt}", site.name);
    let res = run(rng, &mut w, &site, &BUSY, dt, 70.0, &mut |w, _| {
        mon::kinematics(w, &topo, &polys, dt, out)
    });
    out.nontrivial = w.events > 500;
    out.sig = w.sig;
    res
}

pub fn accounting(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let site = any_site(rng);
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let mut acc = mon::Accounting::new(&w);
    out.sample = format!("{}, dt={dt}", site.name);
    // No driver drives faster than allowed, so that all of them can stop where they have to
    let mix = Mix { remove: 0.06, adjust: 0.0, ..BUSY };
    let res = run(rng, &mut w, &site, &mix, dt, 120.0, &mut |w, acts| acc.check(w, acts, dt, out));
    out.nontrivial = w.events > 500;
    out.sig = w.sig;
    res
}

pub fn pose(_: usize, rng: &mut Rng, out: &mut Out) -> Res {
    let site = any_site(rng);
    let mut w = World::new(site.net.clone());
    let dt = rng.pick(&DTS);
    let polys = polys(&w);
    let mut pose = mon::Pose::new(&w, &polys);
    out.sample = format!("{}, dt={dt}", site.name);
    let res = run(rng, &mut w, &site, &BUSY, dt, 70.0, &mut |w, acts| pose.check(w, acts, dt, out));
    out.nontrivial = w.events > 500;
    out.sig = w.sig;
    res
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C02",
            rule: "Random site and workload; every vehicle is watched at every step. Non-trivial: more than 500 vehicle steps observed.",
            cases: [12_000, 300_000],
            need: &[("steps on one link", 100_000), ("steps across a link boundary", 500), ("steps with a lane change", 50), ("steps at a standstill", 500)],
            run: kinematics, post: no_post,
        },
        Check {
            id: "C03",
            rule: "Random site and workload with vehicles added, removed, frozen and re-routed; every vehicle is accounted for at every step. Non-trivial: more than 500 vehicle steps observed.",
            cases: [12_000, 300_000],
            need: &[("vehicle steps", 100_000), ("links entered", 500), ("lane changes", 50), ("exits", 200)],
            run: accounting, post: no_post,
        },
        Check {
            id: "C13",
            rule: "Random site and workload; the pose of every vehicle is compared with the true curves at every step. Non-trivial: more than 500 vehicle steps observed.",
            cases: [6_000, 150_000],
            need: &[("headings compared", 100_000), ("centres compared with the true curve", 50_000), ("poses during lane changes", 2_000), ("headings on straights", 5_000)],
            run: pose, post: no_post,
        },
    ]
}
