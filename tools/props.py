#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after editing; both files are committed."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, title
    return dict(prop=dict(id=id, title=title, statement=statement,
                quantifier={"over": over, "text": quant}, why_tests_cant=why, anchors=anchors),
                technique=technique, note=note)

S, L, V, A = "src/simulation.rs", "src/link.rs", "src/vehicle.rs", "src/vehicle/acceleration.rs"
PF, C, CU, G, LI = "src/vehicle/pathfinding.rs", "src/conflict.rs", "src/link/curve.rs", "src/group.rs", "src/light.rs"
ALG, BEZ, CUB, LUT, UT, MU = ("src/math/curve/algorithms.rs", "src/math/curve/bezier.rs", "src/math/cubic.rs",
                         "src/math/lut.rs", "src/util.rs", "src/math/util.rs")
ONE = "The only behavioural test drives one vehicle along one straight link"

ALL = [
P("C01", "No panic, hang, undefined behaviour or non-finite value in any use of the API",
  "Any sequence of calls that respects the documented preconditions (existing links and vehicles, lanes of one group for a lane change, time steps of at most one second) returns: nothing panics, aborts, hangs, reads or writes out of bounds, or overflows. This holds with vehicles added on top of each other, removed repeatedly, frozen, re-routed and moved between lanes at any moment. Every position, heading, speed and length reported afterwards is finite.",
  ["histories", "inputs", "configurations"],
  "All networks, all histories of calls and all time steps up to one second.",
  ONE + "; no test adds a second vehicle, changes a control, a lane or a destination, or removes anything.",
  [S, L, V, C, CU, G, ALG], [("unchecked indexing of curve segments", CU), ("index arithmetic while walking vehicles along routes", L), ("bookkeeping of entered links", V), ("projection of a vehicle onto another lane", S)],
  "hostile API fuzzing under debug assertions, overflow checks, AddressSanitizer and Miri",
  "Random hostile histories; the same cases run in a checked build, a sample of them under AddressSanitizer and a few under Miri."),
P("C02", "Vehicles move exactly as their speeds and acceleration limits allow",
  "In every step a vehicle covers the mean of its speeds before and after the step times the step, along its link and across link boundaries and lane changes, and it never drives backwards. Its speed never rises faster than its maximum acceleration and never falls faster than 6 m/s². A vehicle which stands still keeps its position and heading.",
  ["histories", "inputs", "configurations"],
  "Every vehicle in every step of every history, on every network and for every step size.",
  ONE + " and compares one position; no test crosses a link boundary or changes lanes.",
  [V, A, S], [("integration of speed and position", V), ("limits of the acceleration model", A), ("advancing to the next link", V)],
  "runtime monitor over all vehicle steps of random traffic",
  "Exact kinematic relations between consecutive observations of every vehicle, on random sites with every kind of intervention."),
P("C03", "Every vehicle is accounted for and moves only where the network leads",
  "A vehicle is listed from when it is added (at the start of its link, standing) until it is removed or reaches the end of its destination link, exactly once and under the same identity, and never afterwards. It goes from one link only to a link that follows it, on reaching the end, or to an adjacent lane to which changing is permitted there. Its reported link, position and dimensions agree with this at all times, and the step counter counts the steps.",
  ["histories", "configurations"],
  "All histories of adding, removing, freezing, re-routing and lane changing, on all networks.",
  ONE + "; none removes a vehicle, lets one leave, or has two of them.",
  [S, L, V, PF], [("moving vehicles between links", S), ("vehicles leaving at the end of their path", V), ("lists of vehicles per link", L)],
  "runtime accounting monitor over all vehicle steps of random traffic",
  "A model of which vehicles exist and where they may go is kept beside the simulation and compared after every step."),
P("C04", "Vehicles take a cheapest route to their destination or wait if there is none",
  "A vehicle drives a route of least total cost (each link costs the whole tenths of a second needed at its speed limit) from where it is to its destination and leaves at the end of that link, also when the destination changes on the way or traffic is dense. On parallel lanes with room for them it makes the fewest permitted lane changes. Without a reachable destination it never leaves: it stops just before the end of a link, and carries on when given one that can be reached.",
  ["inputs", "configurations", "histories"],
  "All networks and lane markings, all pairs of origin and destination, all moments at which the destination changes.",
  "No test builds a network of more than one link or sets a destination.",
  [PF, V, S, L], [("search from the destination", PF), ("choice among paths", V), ("link costs", L), ("stopping at the end of a path", L)],
  "runtime monitor comparing driven routes with an independent shortest-path search",
  "Routes driven in random grids, graphs and lane layouts are compared with a reference search over the network as it was specified."),
P("C05", "Vehicles on one lane keep their order and never touch",
  "Vehicles following each other along a lane, within a link and across links, never overlap and never overtake. A vehicle closer behind another than the gap it wants at its speed does not speed up. A queue which has come to rest stands with a gap of about two metres between vehicles.",
  ["histories", "inputs", "configurations"],
  "All chains of links, vehicle attributes, speeds and moments at which leaders stop, are frozen or are released.",
  "No test has two vehicles.",
  [L, A, V, S], [("search for the vehicle ahead", L), ("car-following model", A), ("order of vehicles on a link", L)],
  "runtime monitor over all consecutive pairs of vehicles in random traffic",
  "Gaps between every consecutive pair at every step; hostile leaders stop at the maximum rate."),
P("C06", "Vehicles never collide where links cross or merge",
  "Where two links cross or merge, and under every kind of control (uncontrolled, give way, stop, all-way stop, ranked, lights), the rectangles occupied by vehicles never overlap. This holds for every angle of crossing, mix of vehicles and pattern of arrivals of vehicles added with room to spare on links of sufficient length.",
  ["histories", "inputs", "configurations"],
  "All geometries of crossing and merging links, controls, vehicle dimensions and arrival patterns.",
  "No test has two links.",
  [C, L, V, G], [("where two links conflict", C), ("giving way at conflicts", C), ("blocking of vehicles projected onto other links", L)],
  "runtime monitor comparing vehicle rectangles at every step",
  "All pairs of rectangles (from reported position, heading and dimensions) at every step in random junctions under every control."),
P("C07", "No vehicle enters a closed link and the wait ends when it opens",
  "From when a link is closed until it opens, no vehicle enters it, except one that was so close and fast that it could not have stopped comfortably. Vehicles wanting to enter stop within a few metres of its start without passing it. They carry on when it opens, and vehicles bound elsewhere are not held up.",
  ["histories", "schedules", "configurations"],
  "All moments at which links are closed and opened relative to the approaching traffic, on all networks.",
  "No test closes a link.",
  [L, V, A, S], [("stop lines", L), ("commitment to enter a link", V), ("stopping at a line", A)],
  "runtime monitor at every closed stop line in random traffic",
  "Every vehicle approaching a closed line is tracked; those able to stop comfortably when it closed must stop."),
P("C08", "Traffic gives way by rank, stops at stop signs and goes in order of arrival",
  "Vehicles with priority drive as if those who have to give way to them were not there (all but rarely, and never for long), and the latter get through in the end. At a stop sign every vehicle stops within the given distance of the line before it crosses; where ranks are equal, vehicles go in the order in which they stopped. A vehicle which has nobody to give way to loses no more time than the control requires.",
  ["schedules", "histories", "configurations"],
  "All arrival patterns, ranks, distances and geometries of two conflicting streams.",
  "No test has two links or a control.",
  [C, L, V], [("comparison of ranks at a conflict", C), ("queueing at a stop line", L), ("order of arrival", V)],
  "runtime monitor comparing trips with and without the other stream, and orders of arrival",
  "The same timetable is run with and without the traffic that has to give way; stops and orders at stop signs are watched."),
P("C09", "Vehicles keep to the speed limit, brake for lower ones and reach it when free",
  "A vehicle on a free road settles at the speed limit of its link times its own adjustment factor, whose mean is one. It never speeds up above that, and slows down in time, but no sooner than comfortable braking requires, to enter a slower link at no more than a little above its limit. Links keep their individual limits.",
  ["inputs", "configurations"],
  "All sequences of speed limits and link lengths with room to brake, all vehicles and adjustment factors.",
  ONE + " of one limit, for ten frames.",
  [A, L, V, S], [("speed limit of the current link", A), ("approaching a lower limit", A), ("looking ahead along the route", L), ("random adjustment", S)],
  "runtime monitor over speeds of lone vehicles and traffic on random chains",
  "Speeds relative to the limits in force at every step, entry speeds at every drop, and settled speeds."),
P("C10", "Traffic lights follow their phases and never show green to conflicting movements",
  "A light steps through its phases in order, holding each for its duration; a movement which ends shows amber for its amber time and then red. A movement only turns green once everything conflicting with it has been red for its clearance time, so conflicting movements are never both green or amber. Each link is open exactly while its movement is green.",
  ["configurations", "schedules"],
  "All light programs (movements, conflicts, phases, times) and step sizes.",
  "No test has a traffic light.",
  [LI, S, L], [("phase timing and changes of state", LI), ("control of links by lights", S)],
  "runtime safety and timing monitor over random light programs",
  "Colours of every movement at every step against the timing rules, in isolation and inside a simulation."),
P("C11", "A frozen vehicle brakes at the maximum rate, stays put and resumes when released",
  "From when a vehicle is frozen it slows down by 6 m/s² until it stands, and stays where it is until it is released, whatever else happens. The frozen state can be queried, is off for new vehicles and affects nobody else. Once released it carries on as other vehicles do.",
  ["histories", "schedules"],
  "All moments of freezing and releasing, repeated or on several vehicles at once, in any traffic.",
  "No test freezes a vehicle.",
  [S, A], [("list of frozen vehicles", S), ("emergency stop", A)],
  "runtime monitor over frozen vehicles in random traffic",
  "The speed of every frozen vehicle at every step against the braking law; release is followed by acceleration."),
P("C12", "A lane change is a smooth, continuous move to the adjacent lane",
  "A lane change starts where the vehicle is, without moving or turning it, and takes it along a smooth curve onto the centre of the new lane after exactly the distance given (30 m when the vehicle decides itself), at the speed it would have anyway and without slowing vehicles ahead of it. Vehicles change lanes by themselves only where permitted, one lane at a time, towards the lanes leading to their destination, and not during another lane change.",
  ["inputs", "histories", "configurations"],
  "All lane geometries, positions, distances and lane markings.",
  "No test has two lanes.",
  [S, V, CU, CUB, G], [("projection onto the new lane", CU), ("lateral profile", CUB), ("decision to change lanes", V)],
  "runtime monitor over the lateral motion of vehicles changing lanes",
  "The lateral offset from the new lane against an independent cubic through the initial offset and slope, and a twin vehicle which does not change lanes."),
P("C13", "World coordinates agree with link, position and heading",
  "A vehicle's world position lies on the centre line of its link at its position along it (or at its lateral offset during a lane change), also on curves and just after entering a link. Its heading is a unit vector which follows the path of its rear axle continuously, and the line reported behind it lies at its rear and spans its width. Moving by some distance along the link moves it by that distance in the world.",
  ["inputs", "histories", "configurations"],
  "All curves, vehicle dimensions, wheel bases and steps in all traffic.",
  ONE + "; its coordinates are not looked at beyond one position.",
  [V, "src/vehicle/dynamics.rs", CU], [("world coordinates of a vehicle", V), ("sampling of link curves", CU)],
  "runtime monitor comparing poses with the true curves at every step",
  "Positions, headings and rear lines of every vehicle at every step against the specified curves and an independent rear-axle model."),
P("C14", "Vehicles in adjacent lanes matter exactly when they are in the way",
  "Traffic in a lane drives exactly as if the lanes beside it were empty, as long as vehicles there stay clear of it by half a metre. A vehicle stopped partly in a lane, between two lanes or closer than that, holds up those behind it in that lane (and both lanes when between two), and nobody else, without a collision, and they carry on when it does.",
  ["configurations", "histories", "inputs"],
  "All lane spacings, vehicle widths, curvatures and degrees of completion of a lane change.",
  "No test has two lanes or two vehicles.",
  [G, L, V], [("projection of vehicles onto adjacent lanes", G), ("lateral clearance", V), ("obstacles from other lanes", L)],
  "runtime differential monitor of lane traffic with and without neighbours",
  "Traces of a lane with and without traffic beside it must be identical; vehicles standing at a random lateral position must hold up exactly those they are in the way of."),
P("C15", "The same calls give the same result, whatever else is in the simulation",
  "Repeating a history of calls on the same network (without random speed adjustments) gives identical results to the last bit. This also holds when calls are made in between which change nothing (reading, repeating settings, stepping by zero time), when unrelated links and vehicles are in the same simulation, near, far or on top of those looked at, and when the links are added in another order. Vehicles at the back of a queue make no difference to those in front of them.",
  ["histories", "configurations", "schedules"],
  "All histories and networks, all calls without effect, all bystanders and orders of construction.",
  "No test runs anything twice or has two vehicles, and none has more than one link.",
  [S, L, V, C, G, LI], [("order of updates within a step", S), ("search for conflicting traffic", L), ("where two links conflict", C), ("clock of the lights", LI)],
  "runtime differential monitor of repeated histories (metamorphic relations)",
  "A recorded history is replayed on a varied simulation and every observation is compared bit for bit."),
P("C16", "A link follows the road it was made from, measured in metres along it",
  "A link made from any smooth road keeps to it within a few centimetres from its start to its end, has its length, and a position along it means metres along the road. Directions are unit vectors along the road, and points given by a lateral offset lie at that distance to its side. A point beside a link is found again at the position, offset and slope it has.",
  ["inputs"],
  "All lines, arcs, quadratic and cubic curves and user-defined curves from under one metre to hundreds of metres, with any parameterisation, and all positions along and beside them.",
  "One test compares distances along one curve; nothing compares a link with the road it was made from.",
  [CU, ALG, BEZ], [("approximation of a curve by evenly spaced points", CU), ("even spacing of points", ALG), ("projection of a point onto a link", CU)],
  "runtime monitor comparing links with a dense reference of their roads",
  "Every 0.37 m of every link against a fine polyline of the road computed independently."),
P("C17", "Traffic never stays stuck: nobody stands for no reason and networks empty",
  "Once everything put in the way of traffic has been removed, all vehicles with a reachable destination get there and leave within a time proportional to their number, also where they give way to each other at junctions with turning traffic and where they have to change lanes. Meanwhile no vehicle stands for seconds without another vehicle close by, a closed line ahead, traffic it has to give way to, or being frozen.",
  ["histories", "schedules", "configurations"],
  "All sites (chains, crossings, merges, turning junctions, grids, parallel lanes), controls and disturbances of at most a minute or so, except that vehicles are not stopped on a crossing itself.",
  "No test has two vehicles, a junction, or runs long enough for a vehicle to leave.",
  [L, V, C, S, PF], [("giving way at a stop line", L), ("order of arrival", V), ("leaving at the end of a path", V), ("giving way inside a junction", C)],
  "runtime liveness monitor with bounded waiting times in simulated time",
  "Random disturbed traffic must drain within a bound (at most about half of it is used), and every standstill must have a visible reason."),
P("C18", "Queries about the network agree with how it was built",
  "Every link reports the identity, speed limit, length and cost it was given, and exactly the links before and after it. The lanes to which one may change, and those which can be reached by changing lanes once or more (in either direction), follow from the lane markings. The list of all routes from a link contains each possible route exactly once.",
  ["configurations", "inputs"],
  "All networks, lane groups and lane markings.",
  "No test queries a network.",
  [S, L, G], [("lane markings of a group", G), ("lists of neighbouring links", L), ("enumeration of routes", S)],
  "runtime monitor comparing all queries with the specification of random networks",
  "All queries of all links of random networks against the specification they were built from."),
P("C19", "The mathematical library computes what its functions are named after",
  "Polynomials, Bezier curves, line segments, intervals, lookup tables and vector helpers give the values, derivatives, parts and extents that mathematics gives them. Dividing a curve yields points on it, in order, evenly spaced or no further apart than asked, from its start to its end. Projecting a point onto a curve finds a nearest point on it, and intersecting two curves finds where they cross and nothing where they do not.",
  ["inputs"],
  "All finite arguments of ordinary size of every public function of the library.",
  "A few tests evaluate cubics, one curve and one table at single arguments.",
  [ALG, BEZ, CUB, LUT, MU, UT], [("even division of curves", ALG), ("projection onto curves", ALG), ("intersection of curves", ALG), ("evaluation of curves", BEZ)],
  "runtime monitor comparing results with independent calculations on random inputs",
  "Results for random arguments against independent evaluation, numerical derivatives and dense search."),
P("C20", "The earliest arrival of a vehicle is the time it really needs at full power",
  "Asked for the earliest time at which it can reach a place ahead with a given top speed, a vehicle answers with the time needed when accelerating at its maximum rate up to that speed and then keeping it. For places already reached the answer is zero.",
  ["inputs", "histories"],
  "All distances, speeds up to the top speed, top speeds and maximum accelerations.",
  "No test asks for it; it only matters where vehicles give way.",
  [V, L], [("earliest arrival", V)],
  "runtime monitor comparing answers with a numerical integration",
  "Answers of driving vehicles at random moments against a step-by-step integration of the motion."),
P("C21", "Turning, moving or mirroring a network does not change how traffic drives",
  "On a network rotated, shifted or mirrored (with left and right lanes exchanged) the same history of calls gives the same motion: every vehicle is on the same link at the same position and speed, and its world position, heading and rear are those of the original turned, shifted or mirrored likewise, up to rounding.",
  ["configurations", "histories"],
  "All networks, motions of the plane and histories, save the rare ones where the slightest rounding decides.",
  "No test compares two networks, and the one road driven on is straight.",
  [CU, G, V, C, ALG], [("side of a lane change", G), ("lateral offsets and clearance", V), ("projection between lanes", CU), ("where two links conflict", C)],
  "runtime differential monitor of histories on transformed networks (metamorphic relations)",
  "A recorded history is replayed on the transformed network; differences count when they persist under tiny variations of the transformation."),
P("C22", "Vehicles from merging roads fall in behind each other as on one lane",
  "Where two roads merge without a rule, a vehicle which gets there a few seconds behind one from the other road falls in behind it much as if both had come along the same road: it does not stop, nor slow down or lose time much beyond that. Two queues merging take hardly longer than one queue of as many vehicles.",
  ["configurations", "schedules"],
  "All angles, lengths, limits, mixes of vehicles and gaps between arrivals of at least a few seconds.",
  "No test has two roads, let alone two vehicles meeting where they merge.",
  [C, L, V], [("vehicles with a common stretch of road ahead", C), ("whether links run in the same direction", C), ("following an obstacle", V)],
  "runtime differential monitor: merging traffic against the same vehicles on one road",
  "Speeds and times of pairs and queues which merge are compared with those of the same vehicles on one road."),
P("C23", "Cutting a road into pieces makes no difference to how traffic drives on it",
  "A road built of many short links is driven on like the same road built of a few long ones: lone vehicles and platoons are at the same places at the same times, before slower stretches and closed lines as well as on free roads. Where roads cross, the same vehicles go first. Links must not be so short that eight of them are driven along within the five seconds vehicles look ahead.",
  ["configurations", "inputs", "schedules"],
  "All divisions of roads into links longer than 0.8 s of driving, all limits, vehicles, step sizes, closures and moments of arrival.",
  ONE + "; no test has two links.",
  [L, V, PF], [("looking back along the links before an obstacle", L), ("gaps in traffic on the links before a crossing", L), ("how far ahead paths are planned", PF), ("advancing to the next link", V)],
  "runtime differential monitor: the same traffic on the same roads built of few and of many links",
  "Positions of all vehicles in all steps are compared between roads of few and of many links; close decisions are repeated at slightly different moments. One known finding: the length of the link before a line where vehicles give way matters."),
]
READY = [p["prop"]["id"] for p in ALL if p["prop"]["id"] not in set(os.environ.get("SKIP", "").split(","))]

NA = []

def main():
    ps = [p for p in ALL if p["prop"]["id"] in READY]
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in ps:
            f.write(json.dumps(p["prop"]) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "none", "enable": "The checks use only the public API; there are no hooks.", "source_commits": []},
        "checks": [{
            "property": p["prop"]["id"],
            "quick_cmd": f"bash check.sh {p['prop']['id']}",
            "thorough_cmd": f"bash check.sh {p['prop']['id']}",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in ps],
        "not_applicable": NA,
        "notes": "One binary (harness/) drives the crate in /repo through its public API and watches it with monitors; check.sh rebuilds it from /repo's working tree. VERIF_TIER selects the number of cases, VERIF_SEED all random choices. See DESIGN.md.",
    }
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
