use crate::core::Check;

mod follow;
mod general;
mod hostile;
mod junction;
mod lanes;
mod maths;
mod network;
mod pieces;
mod progress;
mod relations;
mod roads;
mod routes;
mod signals;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(hostile::checks());
    v.extend(general::checks());
    v.extend(junction::checks());
    v.extend(signals::checks());
    v.extend(follow::checks());
    v.extend(routes::checks());
    v.extend(lanes::checks());
    v.extend(network::checks());
    v.extend(maths::checks());
    v.extend(progress::checks());
    v.extend(roads::checks());
    v.extend(relations::checks());
    v.extend(pieces::checks());
    v
}
