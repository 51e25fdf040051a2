//! `yv run <ID>`: decide one property; `yv replay <FILE>`: re-run one recorded case.
mod alloc;
mod clock;
mod cmds;
mod data;
mod dict;
mod e2e;
mod engine;
mod exec;
mod gen;
mod grammar;
mod io;
mod memory;
mod misc;
mod obs;
mod queue;
mod ready;
mod same;
mod work;
mod session;
mod vast;

use engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Instant;

pub const IDS: [&str; 41] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33",
    "C34", "C35", "C36", "C37", "C38", "C39", "C40", "C41",
];

fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    let mut v = data::subs(id);
    v.extend(memory::subs(id));
    v.extend(cmds::subs(id));
    v.extend(misc::subs(id));
    v.extend(same::subs(id));
    v.extend(work::subs(id));
    v.extend(session::subs(id));
    v.extend(queue::subs(id));
    v.extend(e2e::subs(id));
    v
}

/// Failures, ends of input and crashes are enumerated at every point of each generated history.
fn level(id: &str) -> &'static str {
    match id {
        "C24" | "C25" | "C33" | "C39" => "fault_enumeration",
        _ => "exploration",
    }
}

/// Cases are cheap for some properties and dear for others: every quick check takes 20 to 60 s.
fn quick_factor(id: &str) -> f64 {
    match id {
        "C15" | "C16" | "C28" | "C30" => 40.0,
        "C12" | "C17" | "C29" => 25.0,
        "C06" | "C08" | "C09" | "C11" | "C13" | "C31" | "C40" => 15.0,
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C10" | "C14" | "C34" => 10.0,
        "C32" | "C35" => 8.0,
        "C27" => 6.0,
        "C24" | "C33" | "C39" => 4.0,
        "C23" | "C25" | "C36" | "C37" | "C38" => 2.0,
        _ => 1.0,
    }
}

fn verif() -> PathBuf {
    std::env::var_os("YV_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Known {
    sub: String,
    case: Value,
    what: String,
}

/// Lines `known: property=<id> sub=<sub> case=<json> # <what fails>`; `fixed:` lines suppress nothing.
fn known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, l) = l.split_once(" sub=")?;
            let (sub, l) = l.split_once(" case=")?;
            let (case, what) = l.split_once(" # ")?;
            (p == id).then(|| Known { sub: sub.into(), case: serde_json::from_str(case).unwrap(), what: what.into() })
        })
        .collect()
}

fn write_replay(id: &str, f: &Failure) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": id, "sub": f.sub, "case": f.case, "debug": f.debug, "message": f.msg});
    let h = mix(0, &[&f.case.to_string()], 0);
    let p = dir.join(format!("{id}-{}-{:02x}{:02x}{:02x}{:02x}.json", f.sub.replace(' ', "_"), h[0], h[1], h[2], h[3]));
    std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    p
}

fn violation(id: &str, sub: &str, debug: &str, msg: &str, path: &Path) {
    println!("property {id}, sub-check {sub}: {msg}");
    let mut d = debug.to_string();
    if d.len() > 3000 {
        let mut e = 3000;
        while !d.is_char_boundary(e) {
            e -= 1;
        }
        d.truncate(e);
        d.push_str("...");
    }
    println!("case: {d}");
    println!("VIOLATION property={id} replay={}", path.display());
}

fn regressions(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(verif().join("regressions").join(id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn replay_file(p: &Path) -> Result<(String, String, Result<(), String>, Value), String> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(p).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let id = v["property"].as_str().ok_or("no property")?.to_string();
    let sub = v["sub"].as_str().ok_or("no sub")?.to_string();
    let s = subs(&id).into_iter().find(|s| s.name() == sub).ok_or(format!("no sub-check {sub} of {id}"))?;
    let r = s.replay(&v["case"])?;
    Ok((id, sub, r, v["case"].clone()))
}

fn worker(id: &'static str, env: Env) -> i32 {
    let t = Instant::now();
    install_panic_hook();
    limit_memory();
    start_watchdog(|slot| {
        if let Some(j) = std::env::var_os("YV_JOURNAL") {
            let _ = std::fs::write(PathBuf::from(j).join("hung"), slot.to_string());
        }
        HUNG
    });
    let ks = known(id);
    let mut violations = 0;
    let mut regs = 0u64;
    let mut known_hit = vec![];
    for k in &ks {
        // a listed finding is reported only while it still fails
        if let Some(s) = subs(id).into_iter().find(|s| s.name() == k.sub) {
            if let Ok(Err(_)) = watched(|| s.replay(&k.case)) {
                println!("KNOWN-FINDING: property={id} {}", k.what);
                known_hit.push(k.what.clone());
            }
        }
    }
    for p in regressions(id) {
        if let Some(j) = &env.journal {
            let _ = std::fs::copy(&p, j.join(format!("{SHARDS}.json")));
        }
        match watched(|| replay_file(&p)) {
            Ok((_, _, Ok(()), _)) => regs += 1,
            Ok((_, sub, Err(m), case)) => {
                if !ks.iter().any(|k| k.sub == sub && k.case == case) {
                    violations += 1;
                    violation(id, &sub, &case.to_string(), &m, &p);
                }
            }
            Err(e) => {
                eprintln!("error: regression {}: {e}", p.display());
                return 2;
            }
        }
    }
    let mut all = Report::default();
    let mut per = BTreeMap::new();
    let mut rules = vec![];
    let only = std::env::var("YV_SUB").ok();
    for s in subs(id) {
        if violations > 0 {
            break;
        }
        if only.as_deref().is_some_and(|o| o != s.name()) {
            continue;
        }
        let r = s.run(&env);
        let distinct = if s.exhaustive() { r.nontrivial } else { r.distinct.len() as u64 };
        per.insert(
            s.name(),
            json!({"evaluations": r.evaluations, "nontrivial": r.nontrivial, "distinct_nontrivial": distinct,
                   "oracle_left_open": r.skipped, "exhaustive_small_scope": s.exhaustive(),
                   "wall_s": (r.wall * 100.0).round() / 100.0, "labels": r.labels}),
        );
        if std::env::var_os("YV_VERBOSE").is_some() {
            eprintln!("{id}/{}: {}", s.name(), per[s.name()]);
        }
        rules.push(format!("{}: {}", s.name(), s.rule()));
        all.evaluations += r.evaluations;
        all.nontrivial += distinct;
        for v in r.samples.into_iter().take(2) {
            if all.samples.len() < 10 {
                all.samples.push(json!({"sub": s.name(), "case": v}));
            }
        }
        if let Some(f) = r.failure {
            if ks.iter().any(|k| k.sub == f.sub && k.case == f.case) {
                continue;
            }
            violations += 1;
            let p = write_replay(id, &f);
            violation(id, f.sub, &f.debug, &f.msg, &p);
        }
    }
    let ev = json!({
        "property": id,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": level(id),
        "coverage": {
            "evaluations": all.evaluations,
            "distinct_nontrivial": all.nontrivial,
            "rule": rules.join(" | "),
            "samples": all.samples,
            "sub_checks": per,
            "regressions_replayed": regs,
            "known_findings_reproduced": known_hit,
            "constants_of_the_code": { "ints": dict::summary().0, "words": dict::summary().1, "unknown_ints": dict::summary().2, "unknown_words": dict::summary().3 },
        },
        "wall_s": t.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s",
        all.evaluations,
        all.nontrivial,
        violations,
        t.elapsed().as_secs_f64()
    );
    i32::from(violations > 0)
}

/// Runs the worker in a child process, so that an abort or a fault in the code under test is
/// turned into a violation with the case that caused it, and nothing else is.
fn parent(id: &'static str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let run = |journal: Option<&Path>| {
        let mut c = std::process::Command::new(&exe);
        c.arg("worker").arg(id);
        if let Some(j) = journal {
            c.env("YV_JOURNAL", j);
        }
        c.status().unwrap()
    };
    let st = run(None);
    let what = match (st.code(), st.signal()) {
        (Some(HUNG), _) => "a case that does not terminate".to_string(),
        (Some(c), _) => return c,
        // SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP: a crash
        (_, Some(s)) if [4, 5, 6, 7, 8, 11].contains(&s) => format!("signal {s}"),
        // anything else came from outside
        (_, s) => {
            eprintln!("error: worker ended by signal {s:?}: inconclusive");
            return 2;
        }
    };
    let dir = verif().join("replays").join(format!("journal-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let st = run(Some(&dir));
    let code = blame(id, &dir, st, &what, &exe);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Finds the case that ended a worker abnormally, after a second run that noted each case.
fn blame(id: &'static str, dir: &Path, st: std::process::ExitStatus, what: &str, exe: &Path) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let report = |f: &Path, msg: String| {
        let Some(v) = std::fs::read_to_string(f).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
            return false;
        };
        let Some(sub) = subs(id).into_iter().find(|s| Some(s.name()) == v["sub"].as_str()).map(|s| s.name()) else {
            return false;
        };
        let fl = Failure { sub, case: v["case"].clone(), debug: v["case"].to_string(), msg };
        let p = write_replay(id, &fl);
        violation(id, sub, &fl.debug, &fl.msg, &p);
        true
    };
    match st.code() {
        Some(HUNG) => {
            let slot = std::fs::read_to_string(dir.join("hung")).unwrap_or_default();
            if report(&dir.join(format!("{slot}.json")), "this case does not terminate".into()) {
                return 1;
            }
            eprintln!("error: a case that does not terminate was not identified: inconclusive");
            return 2;
        }
        Some(1) => return 1,
        Some(_) => {
            eprintln!("error: worker ended by {what} once but not when repeated: inconclusive");
            return 2;
        }
        None => {}
    }
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let st = std::process::Command::new(exe).arg("replay").arg(&f).stdout(std::process::Stdio::null()).status().unwrap();
        if st.code().is_none() {
            let sig = st.signal().unwrap_or(0);
            if report(&f, format!("the process was killed by signal {sig} while running this case")) {
                return 1;
            }
        }
    }
    eprintln!("error: worker ended by {what} but no single case reproduces it: inconclusive");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = |i: usize| -> &'static str {
        IDS.iter().copied().find(|x| Some(*x) == a.get(i).map(|s| s.as_str())).unwrap_or_else(|| {
            eprintln!("error: unknown property");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => parent(id(2)),
        Some("dict") => {
            println!("{}", dict::dump());
            0
        }
        Some("worker") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let id = id(2);
            let scale = std::env::var("YV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let journal = std::env::var_os("YV_JOURNAL").map(PathBuf::from);
            worker(id, Env { id, tier, seed, scale, factor: quick_factor(id), journal })
        }
        Some("replay") => {
            install_panic_hook();
            limit_memory();
            match replay_file(Path::new(&a[2])) {
                Ok((id, sub, Ok(()), _)) => {
                    println!("{id}/{sub}: holds on this case");
                    0
                }
                Ok((id, sub, Err(m), case)) => {
                    violation(&id, &sub, &case.to_string(), &m, Path::new(&a[2]));
                    1
                }
                Err(e) => {
                    eprintln!("error: {e}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: yv run <ID> | yv replay <FILE>");
            2
        }
    };
    std::process::exit(code);
}
