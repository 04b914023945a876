//! Recording what a workload did, so that it can be done again under other circumstances.

use crate::drive::*;
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Debug)]
pub enum Op {
    Spawn(Attrs, usize, Option<usize>),
    Freeze(Key, bool),
    Remove(Key),
    Retarget(Key, usize),
    Control(usize, Ctl),
    LaneChange(Key, usize, f64),
}

/// What is seen of every vehicle after a step, and of every link's control.
#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub vehs: Vec<Option<Obs>>,
    pub ctl: Vec<Ctl>,
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    /// The operations before each step.
    pub ops: Vec<Vec<Op>>,
    pub frames: Vec<Frame>,
    pub events: u64,
    pub sig: u64,
}

/// The operation behind an action, which has just been performed.
fn op_of(w: &World, act: &Act) -> Op {
    match act {
        Act::Spawn(k) => Op::Spawn(w.vehs[*k].attrs, w.vehs[*k].spawn_link, w.vehs[*k].dst),
        Act::Freeze(k, on) => Op::Freeze(*k, *on),
        Act::Remove(k) => Op::Remove(*k),
        Act::Retarget(k) => Op::Retarget(*k, w.vehs[*k].dst.unwrap()),
        Act::Control(l) => Op::Control(*l, w.ctl[*l]),
        Act::LaneChange { key, dist, .. } => Op::LaneChange(*key, w.now[*key].unwrap().link, *dist),
        Act::Adjust => unreachable!("adjustments can't be repeated"),
    }
}

/// Drives the site at random and records it.
pub fn record(rng: &mut Rng, site: &Site, mix: &Mix, dt: f64, secs: f64) -> Script {
    let mut w = World::new(site.net.clone());
    let mut s = Script::default();
    for _ in 0..(secs / dt) as usize {
        let mut ops = vec![];
        for a in act(rng, &mut w, site, mix, dt) {
            // A vehicle may be removed right after something else was done to it
            match &a {
                Act::LaneChange { key, .. } if w.now[*key].is_none() => {
                    ops.push(Op::LaneChange(*key, usize::MAX, 0.0));
                }
                _ => ops.push(op_of(&w, &a)),
            }
        }
        // Doing something only to remove the vehicle is left out
        ops.retain(|o| !matches!(o, Op::LaneChange(_, usize::MAX, _)));
        s.ops.push(ops);
        w.step(dt);
        s.frames.push(Frame { vehs: w.now.clone(), ctl: w.ctl.clone() });
    }
    s.events = w.events;
    s.sig = w.sig;
    s
}

/// Performs the operations of a step in another world, where link `l` is `link[l]`,
/// and the script's vehicle `k` is `keys[k]`.
pub fn replay(w: &mut World, ops: &[Op], link: &[usize], keys: &mut Vec<Key>) {
    for op in ops {
        // Something which was done to a vehicle can only be repeated if it is where it was then;
        // whether it should be is for the caller to find out
        match op {
            Op::Freeze(k, _) | Op::Remove(k) | Op::Retarget(k, _) if w.now[keys[*k]].is_none() => continue,
            Op::LaneChange(k, l, _) => {
                let Some(o) = w.now[keys[*k]] else { continue };
                if !w.net.groups.iter().any(|g| g.0.contains(&o.link) && g.0.contains(&link[*l])) {
                    continue;
                }
            }
            _ => {}
        }
        match op {
            Op::Spawn(a, l, d) => {
                let k = w.spawn(*a, link[*l], d.map(|d| link[d]));
                keys.push(k);
            }
            Op::Freeze(k, on) => w.freeze(keys[*k], *on),
            Op::Remove(k) => w.remove(keys[*k]),
            Op::Retarget(k, d) => w.set_dst(keys[*k], link[*d]),
            Op::Control(l, c) => w.control(link[*l], *c),
            Op::LaneChange(k, l, d) => w.lane_change(keys[*k], link[*l], *d),
        }
    }
}
