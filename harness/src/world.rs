//! Scenario descriptions, and the `World` wrapper which drives the real `Simulation`
//! through its public API while recording what is observable at that boundary.

use std::collections::HashMap;
use traffic_sim::math::{
    CubicBezier2d, LineSegment2d, ParametricCurve2d, Point2d, QuadraticBezier2d, Vector2d,
};
use traffic_sim::{
    Interval, LightState, LinkAttributes, LinkId, Simulation, TrafficControl, TrafficLight,
    TrafficLightId, VehicleAttributes, VehicleId,
};

pub type P = (f64, f64);

pub fn pt(p: P) -> Point2d {
    Point2d::new(p.0, p.1)
}

/// A circular arc, parameterised by arc length.
#[derive(Clone, Copy, Debug)]
pub struct Arc {
    pub centre: P,
    pub r: f64,
    pub a0: f64,
    /// Signed sweep angle.
    pub sweep: f64,
}

impl ParametricCurve2d for Arc {
    fn sample(&self, t: f64) -> Point2d {
        let a = self.a0 + self.sweep.signum() * t / self.r;
        Point2d::new(self.centre.0 + self.r * a.cos(), self.centre.1 + self.r * a.sin())
    }
    fn bounds(&self) -> Interval<f64> {
        Interval::new(0.0, self.r * self.sweep.abs())
    }
    fn sample_dt(&self, t: f64) -> Vector2d {
        let a = self.a0 + self.sweep.signum() * t / self.r;
        self.sweep.signum() * Vector2d::new(-a.sin(), a.cos())
    }
}

#[derive(Clone, Debug)]
pub enum Curve {
    Line(P, P),
    Quad([P; 3]),
    Cubic([P; 4]),
    Arc(Arc),
}

impl Curve {
    pub fn boxed(&self) -> Box<dyn ParametricCurve2d> {
        match self {
            Curve::Line(a, b) => Box::new(LineSegment2d::from_ends(pt(*a), pt(*b))),
            Curve::Quad(p) => Box::new(QuadraticBezier2d::new(&p.map(pt))),
            Curve::Cubic(p) => Box::new(CubicBezier2d::new(&p.map(pt))),
            Curve::Arc(a) => Box::new(*a),
        }
    }

    /// Evaluates the true curve at fraction `u` in [0,1] (not using the crate's own formulas).
    pub fn eval(&self, u: f64) -> P {
        let lerp = |a: P, b: P| (a.0 + (b.0 - a.0) * u, a.1 + (b.1 - a.1) * u);
        match self {
            Curve::Line(a, b) => lerp(*a, *b),
            Curve::Quad([a, b, c]) => lerp(lerp(*a, *b), lerp(*b, *c)),
            Curve::Cubic([a, b, c, d]) => {
                let (ab, bc, cd) = (lerp(*a, *b), lerp(*b, *c), lerp(*c, *d));
                lerp(lerp(ab, bc), lerp(bc, cd))
            }
            Curve::Arc(arc) => {
                let a = arc.a0 + arc.sweep * u;
                (arc.centre.0 + arc.r * a.cos(), arc.centre.1 + arc.r * a.sin())
            }
        }
    }

    /// True arc length by dense polyline.
    pub fn true_length(&self) -> f64 {
        self.length_by(20000)
    }

    pub fn true_length_fast(&self) -> f64 {
        self.length_by(400)
    }

    fn length_by(&self, n: usize) -> f64 {
        let mut len = 0.0;
        let mut last = self.eval(0.0);
        for i in 1..=n {
            let p = self.eval(i as f64 / n as f64);
            len += dist(last, p);
            last = p;
        }
        len
    }
}

pub fn dist(a: P, b: P) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}

#[derive(Clone, Debug)]
pub struct LinkSpec {
    pub curve: Curve,
    pub limit: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctl {
    Open,
    Yield { distance: f64, must_stop: bool, priority: i8 },
    Closed,
}

impl Ctl {
    pub fn real(self) -> TrafficControl {
        match self {
            Ctl::Open => TrafficControl::Open,
            Ctl::Closed => TrafficControl::Closed,
            Ctl::Yield { distance, must_stop, priority } => {
                TrafficControl::Yield { distance, must_stop, priority }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct MovementSpec {
    pub conflict: u64,
    pub amber: f64,
    pub red: f64,
    pub links: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct LightSpec {
    pub movements: Vec<MovementSpec>,
    pub phases: Vec<(u64, f64)>,
}

#[derive(Clone, Debug, Default)]
pub struct Net {
    pub links: Vec<LinkSpec>,
    pub conns: Vec<(usize, usize)>,
    pub groups: Vec<(Vec<usize>, u32)>,
    pub conflicts: Vec<(usize, usize)>,
    pub controls: Vec<(usize, Ctl)>,
    pub lights: Vec<LightSpec>,
}

#[derive(Clone, Copy, Debug)]
pub struct Attrs {
    pub width: f64,
    pub length: f64,
    pub wheel_base: f64,
    pub headway: f64,
    pub max_acc: f64,
    pub comf_dec: f64,
}

impl Attrs {
    pub fn car() -> Self {
        Attrs { width: 2.0, length: 5.0, wheel_base: 1.5, headway: 1.5, max_acc: 2.0, comf_dec: 2.0 }
    }
    pub fn real(&self) -> VehicleAttributes {
        VehicleAttributes {
            width: self.width,
            length: self.length,
            wheel_base: self.wheel_base,
            headway: self.headway,
            max_acc: self.max_acc,
            comf_dec: self.comf_dec,
        }
    }
}

/// One vehicle as observed through the public API.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Obs {
    pub link: usize,
    pub pos: f64,
    pub vel: f64,
    pub xy: P,
    pub dir: P,
    pub rear: [P; 2],
}

/// Everything the monitors remember about a vehicle they inserted.
#[derive(Clone, Debug)]
pub struct VehInfo {
    pub id: VehicleId,
    pub attrs: Attrs,
    pub spawn_link: usize,
    pub dst: Option<usize>,
    pub frozen: bool,
    pub removed: bool,
}

/// Vehicle keys are dense indices in insertion order.
pub type Key = usize;

pub struct World {
    pub sim: Simulation,
    pub net: Net,
    pub links: Vec<LinkId>,
    pub link_idx: HashMap<LinkId, usize>,
    pub lengths: Vec<f64>,
    pub outs: Vec<Vec<usize>>,
    pub ins: Vec<Vec<usize>>,
    pub ctl: Vec<Ctl>,
    pub light_ids: Vec<TrafficLightId>,
    pub vehs: Vec<VehInfo>,
    pub veh_idx: HashMap<VehicleId, Key>,
    pub now: Vec<Option<Obs>>,
    pub prev: Vec<Option<Obs>>,
    pub time: f64,
    pub frame: usize,
    /// Number of vehicle observations recorded.
    pub events: u64,
    /// Vehicles reported by the simulation which were never added, or are listed twice.
    pub strangers: usize,
    /// A running hash of the observations.
    pub sig: u64,
}

impl World {
    pub fn new(net: Net) -> Self {
        let mut sim = Simulation::new();
        let mut links = vec![];
        let mut link_idx = HashMap::new();
        let mut lengths = vec![];
        for l in &net.links {
            let curve = l.curve.boxed();
            let id = sim.add_link(&LinkAttributes { curve: &*curve, speed_limit: l.limit });
            link_idx.insert(id, links.len());
            links.push(id);
            lengths.push(sim.get_link(id).length());
        }
        let n = links.len();
        let (mut outs, mut ins) = (vec![vec![]; n], vec![vec![]; n]);
        for (a, b) in &net.conns {
            sim.add_link_connection(links[*a], links[*b]);
            outs[*a].push(*b);
            ins[*b].push(*a);
        }
        for (g, mask) in &net.groups {
            let ids = g.iter().map(|i| links[*i]).collect::<Vec<_>>();
            sim.add_link_group(&ids, *mask);
        }
        for (a, b) in &net.conflicts {
            sim.add_link_convergance(links[*a], links[*b]);
        }
        let mut ctl = vec![Ctl::Open; n];
        for (l, c) in &net.controls {
            sim.set_link_control(links[*l], c.real());
            ctl[*l] = *c;
        }
        let mut light_ids = vec![];
        for spec in &net.lights {
            light_ids.push(sim.add_traffic_light(make_light(spec, &links)));
        }
        World {
            sim,
            net,
            links,
            link_idx,
            lengths,
            outs,
            ins,
            ctl,
            light_ids,
            vehs: vec![],
            veh_idx: HashMap::new(),
            now: vec![],
            prev: vec![],
            time: 0.0,
            frame: 0,
            events: 0,
            strangers: 0,
            sig: 0,
        }
    }

    pub fn spawn(&mut self, attrs: Attrs, link: usize, dst: Option<usize>) -> Key {
        let id = self.sim.add_vehicle(&attrs.real(), self.links[link]);
        if let Some(d) = dst {
            self.sim.set_vehicle_destination(id, self.links[d]);
        }
        let key = self.vehs.len();
        self.vehs.push(VehInfo { id, attrs, spawn_link: link, dst, frozen: false, removed: false });
        self.veh_idx.insert(id, key);
        self.now.push(None);
        self.prev.push(None);
        self.now[key] = self.observe(key);
        key
    }

    /// The rearmost extent on `link` of any vehicle, or infinity.
    pub fn entry_room(&self, link: usize) -> f64 {
        self.now
            .iter()
            .enumerate()
            .filter_map(|(k, o)| o.filter(|o| o.link == link).map(|o| (k, o)))
            .map(|(k, o)| o.pos - 0.5 * self.vehs[k].attrs.length)
            .fold(f64::INFINITY, f64::min)
    }

    /// Connects two links of a network already in use.
    pub fn connect(&mut self, from: usize, to: usize) {
        self.sim.add_link_connection(self.links[from], self.links[to]);
        self.net.conns.push((from, to));
        self.outs[from].push(to);
        self.ins[to].push(from);
    }

    pub fn set_dst(&mut self, key: Key, dst: usize) {
        self.sim.set_vehicle_destination(self.vehs[key].id, self.links[dst]);
        self.vehs[key].dst = Some(dst);
    }

    pub fn freeze(&mut self, key: Key, frozen: bool) {
        self.sim.set_vehicle_frozen(self.vehs[key].id, frozen);
        self.vehs[key].frozen = frozen;
    }

    pub fn remove(&mut self, key: Key) {
        self.sim.remove_vehicle(self.vehs[key].id);
        self.vehs[key].removed = true;
        self.now[key] = None;
    }

    pub fn control(&mut self, link: usize, c: Ctl) {
        self.sim.set_link_control(self.links[link], c.real());
        self.ctl[link] = c;
    }

    /// Asks for a lane change, and records the vehicle's state right after the call.
    pub fn lane_change(&mut self, key: Key, link: usize, distance: f64) {
        self.sim.do_lane_change(self.vehs[key].id, self.links[link], distance);
        self.now[key] = self.observe(key);
    }

    pub fn alive(&self, key: Key) -> bool {
        self.now[key].is_some()
    }

    pub fn live_keys(&self) -> Vec<Key> {
        (0..self.now.len()).filter(|k| self.now[*k].is_some()).collect()
    }

    /// Looks a vehicle up through the iterator, so a missing one does not panic.
    fn observe(&self, key: Key) -> Option<Obs> {
        let id = self.vehs[key].id;
        let v = self.sim.iter_vehicles().find(|v| v.id() == id)?;
        self.obs_of(v)
    }

    fn obs_of(&self, v: &traffic_sim::Vehicle) -> Option<Obs> {
        let link = self.link_idx[&v.link_id()?];
        let (p, d, r) = (v.position(), v.direction(), v.rear_coords());
        Some(Obs {
            link,
            pos: v.pos_mid(),
            vel: v.vel(),
            xy: (p.x, p.y),
            dir: (d.x, d.y),
            rear: [(r[0].x, r[0].y), (r[1].x, r[1].y)],
        })
    }

    /// Advances the simulation and records the resulting observation of every vehicle.
    pub fn step(&mut self, dt: f64) {
        self.prev.clone_from(&self.now);
        self.sim.step(dt);
        self.refresh();
        self.time += dt;
        self.frame += 1;
        for (i, id) in self.light_ids.iter().enumerate() {
            let (_, light) = self.sim.iter_lights().find(|(l, _)| l == id).unwrap();
            for (m, st) in light.state() {
                for l in &self.net.lights[i].movements[m].links {
                    self.ctl[*l] = if st == LightState::Green { Ctl::Open } else { Ctl::Closed };
                }
            }
        }
    }

    pub fn refresh(&mut self) {
        for o in &mut self.now {
            *o = None;
        }
        let mut upd = vec![];
        for v in self.sim.iter_vehicles() {
            match self.veh_idx.get(&v.id()) {
                Some(k) => upd.push((*k, self.obs_of(v))),
                None => self.strangers += 1,
            }
        }
        self.events += upd.len() as u64;
        for (k, o) in upd {
            if self.now[k].is_some() {
                self.strangers += 1;
            }
            if let Some(o) = &o {
                self.sig = crate::core::hash(&[self.sig, k as u64, o.pos.to_bits(), o.vel.to_bits()]);
            }
            self.now[k] = o;
        }
    }
}

pub fn make_light(spec: &LightSpec, links: &[LinkId]) -> TrafficLight {
    let mut light = TrafficLight::new();
    for m in &spec.movements {
        light.add_movement(m.conflict, m.amber, m.red, m.links.iter().map(|l| links[*l]));
    }
    for (mask, dur) in &spec.phases {
        light.add_phase(*mask, *dur);
    }
    light
}
