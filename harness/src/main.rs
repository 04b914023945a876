//! Runtime monitors for the traffic-sim crate.
//!
//! `tsmon check <id> --tier <t> --seed <n> --evidence <file> --replay <file>`
//! spawns worker processes which run the cases of one check against the real crate,
//! gathers what their monitors observed, and decides.

mod checks;
mod core;
mod drive;
mod gen;
mod geom;
mod mon;
mod rng;
mod script;
mod world;

use crate::core::{Check, Out};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

/// CPU seconds one case may use before it counts as "did not return".
const CASE_CPU_LIMIT: f64 = 120.0;

const HARNESS: &str = "harness panic";

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str| {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        Some("work") => {
            let check = find(&args[1]);
            let (k, n): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
            let cases = get("--cases").map(|s| s.parse().unwrap()).unwrap_or(cases(&check, &tier));
            let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(f64::INFINITY);
            work(&check, seed, k, n, cases, budget);
        }
        Some("case") => {
            // Re-runs a single case, printing its outcome: the replay of a witness.
            let check = find(&args[1]);
            let idx: usize = args[2].parse().unwrap();
            let (out, res) = run_case(&check, seed, idx);
            println!("{}", out.sample);
            println!("{:?}", out.counts);
            match res {
                Ok(()) => println!("held"),
                Err(e) => {
                    println!("VIOLATED: {e}");
                    std::process::exit(1);
                }
            }
        }
        Some("check") => std::process::exit(check_main(&find(&args[1]), seed, &tier, &get)),
        _ => {
            eprintln!("usage: tsmon check|case|list ...");
            std::process::exit(2);
        }
    }
}

fn find(id: &str) -> Check {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    })
}

fn cases(check: &Check, tier: &str) -> usize {
    check.cases[(tier == "thorough") as usize]
}

fn run_case(check: &Check, seed: u64, idx: usize) -> (Out, Result<(), String>) {
    let label = check.id.bytes().fold(0u64, |h, b| h * 256 + b as u64);
    let mut rng = Rng::derive(&[seed, label, idx as u64]);
    let mut out = Out::default();
    let res = catch_unwind(AssertUnwindSafe(|| (check.run)(idx, &mut rng, &mut out)));
    let res = match res {
        Ok(r) => r,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let at = last_panic();
            // A vehicle the monitors were watching is missing: that is an observation.
            // Any other panic of the harness says nothing about the code under test.
            let missing = msg.contains("`Option::unwrap()` on a `None`") && at.contains("at src/checks/");
            let own = at.starts_with("at src/") && !missing;
            Err(format!("{}: {msg} {at}", if own { HARNESS } else { "panic" }))
        }
    };
    (out, res)
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = Default::default());

fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn work(check: &Check, seed: u64, k: usize, n: usize, cases: usize, budget: f64) {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("at {}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = loc.unwrap_or_default());
    }));
    if !cfg!(miri) {
        std::thread::spawn(watchdog);
    }
    let start = Instant::now();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = HashSet::new();
    let (mut run, mut nontrivial) = (0u64, 0u64);
    let mut samples = vec![];
    for idx in (k..cases).step_by(n) {
        if start.elapsed().as_secs_f64() > budget {
            break;
        }
        say(&format!("S {idx}"));
        CASE.store(idx as u64, Ordering::SeqCst);
        let (out, res) = run_case(check, seed, idx);
        CASE.store(u64::MAX, Ordering::SeqCst);
        run += 1;
        nontrivial += out.nontrivial as u64;
        for (name, v) in out.counts {
            let e = counts.entry(name.clone()).or_insert(0);
            *e = if name.starts_with("max:") { (*e).max(v) } else { *e + v };
        }
        if out.nontrivial {
            distinct.insert(out.sig);
        }
        if samples.len() < 2 && out.nontrivial {
            samples.push(format!("case {idx}: {}", out.sample));
        }
        if let Err(e) = res {
            let tag = if e.starts_with(HARNESS) { "H" } else { "V" };
            say(&format!("{tag} {idx} {}", e.replace('\n', " ")));
        }
    }
    let json = serde_json::json!({
        "counts": counts, "run": run, "nontrivial": nontrivial, "samples": samples,
        "distinct": distinct.into_iter().collect::<Vec<_>>(),
    });
    say(&format!("R {json}"));
}

fn say(line: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "{line}");
    let _ = out.flush();
}

/// Reports a case which burns CPU without returning. Uses CPU time, not wall-clock time,
/// so that a loaded machine cannot trigger it.
fn watchdog() {
    let cpu = || -> f64 {
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let rest = s.rsplit(')').next().unwrap_or("");
        let f: Vec<&str> = rest.split_whitespace().collect();
        let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
        u / 100.0
    };
    let (mut last, mut since) = (u64::MAX, 0.0);
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = CASE.load(Ordering::SeqCst);
        if now != last || now == u64::MAX {
            last = now;
            since = cpu();
        } else if cpu() - since > CASE_CPU_LIMIT {
            say(&format!("V {now} a call into the simulation did not return within {CASE_CPU_LIMIT} CPU seconds"));
            std::process::exit(77);
        }
    }
}

#[derive(Default)]
struct Total {
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    run: u64,
    nontrivial: u64,
    samples: Vec<String>,
    violations: Vec<(u64, String)>,
    dead: Vec<String>,
}

impl Total {
    /// Runs worker processes and adds up what they report.
    fn gather(&mut self, commands: Vec<Command>, label: &str) {
        let handles: Vec<_> = commands
            .into_iter()
            .map(|mut command| {
                let mut child = command
                    .stdin(Stdio::null())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::piped())
                    .spawn()
                    .expect("cannot spawn worker");
                std::thread::spawn(move || {
                    let err = child.stderr.take().unwrap();
                    let err = std::thread::spawn(move || {
                        let mut tail: Vec<String> = vec![];
                        for line in BufReader::new(err).lines().map_while(Result::ok) {
                            // The reports of the sanitizers matter, what cargo says does not
                            if line.contains("AddressSanitizer") || line.contains("Undefined Behavior") {
                                tail.clear();
                            }
                            if tail.len() < 60 {
                                tail.push(line);
                            }
                        }
                        tail
                    });
                    let mut started = None;
                    let mut vs = vec![];
                    let mut broken = vec![];
                    let mut result = None;
                    for line in BufReader::new(child.stdout.take().unwrap()).lines().map_while(Result::ok) {
                        let (tag, rest) = line.split_once(' ').unwrap_or((&line, ""));
                        match tag {
                            "H" => broken.push(rest.to_string()),
                            "S" => started = rest.parse::<u64>().ok(),
                            "V" => {
                                let (i, m) = rest.split_once(' ').unwrap_or((rest, ""));
                                vs.push((i.parse().unwrap_or(0), m.to_string()));
                            }
                            "R" => result = serde_json::from_str::<serde_json::Value>(rest).ok(),
                            _ => {}
                        }
                    }
                    let status = child.wait().unwrap();
                    (started, vs, broken, result, status, err.join().unwrap())
                })
            })
            .collect();
        for h in handles {
            let (started, vs, broken, result, status, err) = h.join().unwrap();
            let had_violation = !vs.is_empty();
            self.violations.extend(vs.into_iter().map(|(i, m)| (i, format!("{label}{m}"))));
            self.dead.extend(broken);
            if let Some(r) = result {
                self.run += r["run"].as_u64().unwrap_or(0);
                self.nontrivial += r["nontrivial"].as_u64().unwrap_or(0);
                for (k, v) in r["counts"].as_object().unwrap() {
                    let v = v.as_u64().unwrap_or(0);
                    let e = self.counts.entry(k.clone()).or_insert(0);
                    *e = if k.starts_with("max:") { (*e).max(v) } else { *e + v };
                }
                self.distinct.extend(r["distinct"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
                self.samples.extend(r["samples"].as_array().unwrap().iter().filter_map(|x| x.as_str().map(String::from)));
            } else if !had_violation || status.code() != Some(77) {
                use std::os::unix::process::ExitStatusExt;
                // SIGKILL is the out-of-memory killer or the harness, and says nothing about the code.
                let fatal = matches!(status.signal(), Some(s) if s != 9 && s != 15)
                    || err.iter().any(|l| l.contains("ERROR: AddressSanitizer") || l.contains("error: Undefined Behavior"));
                let why = err.iter().filter(|l| !l.trim().is_empty()).take(12).cloned().collect::<Vec<_>>().join(" | ");
                match (fatal, started) {
                    (true, Some(i)) => self.violations.push((i, format!("{label}process died ({status}): {why}"))),
                    _ => self.dead.push(format!("{label}worker ended with {status} in case {started:?}: {why}")),
                }
            }
        }
    }
}

fn check_main(
    check: &Check,
    seed: u64,
    tier: &str,
    get: &dyn Fn(&str) -> Option<String>,
) -> i32 {
    let start = Instant::now();
    let exe = get("--worker").unwrap_or_else(|| {
        std::env::current_exe().unwrap().to_string_lossy().into_owned()
    });
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let cases = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(cases(check, tier));
    let budget = get("--budget").unwrap_or_else(|| {
        if tier == "thorough" { "5400".into() } else { "420".into() }
    });

    let work_for = |exe: &str, k: usize, n: usize, cases: usize, budget: &str| {
        let mut c = Command::new(exe);
        c.args(["work", check.id, &k.to_string(), &n.to_string()])
            .args(["--tier", tier, "--seed", &seed.to_string()])
            .args(["--cases", &cases.to_string(), "--budget", budget]);
        c
    };
    let work = |exe: &str, k: usize, n: usize, cases: usize| work_for(exe, k, n, cases, &budget);
    let mut t = Total::default();
    t.gather((0..n).map(|k| work(&exe, k, n, cases)).collect(), "");

    // The same cases again, under instrumentation
    let mut stages = vec![];
    if let Some(asan) = get("--asan") {
        let cases = if tier == "thorough" { cases / 4 } else { cases / 2 };
        let before = t.run;
        t.gather((0..n).map(|k| work(&asan, k, n, cases)).collect(), "AddressSanitizer: ");
        stages.push(format!("AddressSanitizer: {} cases", t.run - before));
    }
    if let Some(dir) = get("--miri") {
        // Small cases of their own, as the interpreter is slow
        let cases = if tier == "thorough" { 40 * n } else { 4 * n };
        let miri = |k: usize| {
            let mut c = Command::new("cargo");
            c.current_dir(&dir).args(["+nightly", "miri", "run", "--offline", "--"]);
            c.args(work_for("", k, n, cases, if tier == "thorough" { "1200" } else { "120" }).get_args());
            c.env("CARGO_TARGET_DIR", get("--miri-target").unwrap_or_default());
            c
        };
        let before = t.run;
        t.gather((0..n).map(miri).collect(), "Miri: ");
        stages.push(format!("Miri: {} cases", t.run - before));
    }
    if let Some(note) = get("--stage-note") {
        stages.push(note);
    }

    t.violations.sort();
    t.samples.sort();
    t.samples.truncate(4);

    let short: Vec<String> = check
        .need
        .iter()
        .filter(|(k, n)| cases >= check.cases[0] && t.counts.get(*k).copied().unwrap_or(0) < *n)
        .map(|(k, n)| format!("{k}: {} of {n}", t.counts.get(*k).copied().unwrap_or(0)))
        .collect();

    if let Err(e) = (check.post)(&t.counts) {
        t.violations.push((u64::MAX, format!("over all cases: {e}")));
    }

    let wall = start.elapsed().as_secs_f64();
    if let Some(path) = get("--evidence") {
        let mut monitors = serde_json::Map::new();
        for (k, v) in &t.counts {
            match k.strip_prefix("max:") {
                Some(k) => monitors.insert(format!("max {k}"), serde_json::json!(*v as f64 / 1e6)),
                None => monitors.insert(k.clone(), serde_json::json!(v)),
            };
        }
        let build = get("--build").unwrap_or_else(|| "debug assertions, overflow checks, std UB checks".into());
        let json = serde_json::json!({
            "property": check.id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": t.run,
                "distinct_nontrivial": t.distinct.len(),
                "nontrivial_cases": t.nontrivial,
                "rule": check.rule,
                "samples": t.samples,
                "observed": monitors,
                "workers": n,
                "build": build,
                "instrumented": stages,
                "inconclusive": t.dead.iter().chain(&short).collect::<Vec<_>>(),
            },
            "assumptions": [
                "Held on the executions described here; nothing is claimed about inputs the workload did not produce."
            ],
            "wall_s": wall,
            "violations": t.violations.len(),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json).unwrap() + "\n");
    }

    if !t.violations.is_empty() {
        let replay = get("--replay").unwrap_or_else(|| format!("/tmp/replay-{}.txt", check.id));
        let mut text = String::new();
        for (i, m) in t.violations.iter().take(200) {
            text += &format!("{} seed={seed} case={i}: {m}\n", check.id);
        }
        text += &format!("replay: {exe} case {} {} --seed {seed}\n", check.id, t.violations[0].0);
        let _ = std::fs::write(&replay, &text);
        for (i, m) in t.violations.iter().take(3) {
            println!("case {i}: {m}");
        }
        println!("{} violating cases of {}", t.violations.len(), t.run);
        println!("VIOLATION property={} replay={replay}", check.id);
        return 1;
    }
    for text in t.counts.keys().filter_map(|k| k.strip_prefix("known:")) {
        println!("KNOWN-FINDING: property={} {text}", check.id);
    }
    if !t.dead.is_empty() || !short.is_empty() {
        println!("INCONCLUSIVE property={}: {:?} {:?}", check.id, t.dead, short);
        return 3;
    }
    println!(
        "held: property={} cases={} nontrivial={} distinct={} in {wall:.1}s {:?}",
        check.id, t.run, t.nontrivial, t.distinct.len(), t.counts
    );
    0
}
