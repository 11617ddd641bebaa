// where #[derive(MergeRight)] looks for the trait
mod core {
    pub mod merge_right {
        pub use tailcall::core::merge_right::MergeRight;
    }
}
mod engine;
mod gen;
mod props;
mod rt;
mod sched;
mod serve;

use std::collections::HashSet;
use std::time::Instant;

use engine::{Ctx, Known, Tier, Violation};
use serde_json::{json, Value};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "--list" {
        for p in props::ALL {
            println!("{}", p.id);
        }
        return;
    }
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let tier = match opt("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if !props::ALL.iter().any(|p| p.id == prop) {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    }
    if let Some(cur) = opt("--child") {
        let w = opt("--worker").unwrap_or("0/1".into());
        let (k, n) = w.split_once('/').unwrap();
        return child(prop, tier, seed, &cur, opt("--replay"), opt("--only"), (k.parse().unwrap(), n.parse().unwrap()));
    }
    // The exploration runs in children, so that a crash of the code under test
    // (stack overflow, abort) is attributed to the execution that caused it.
    let dir = std::env::temp_dir().join(format!("vpmc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let started = Instant::now();
    let replay = args.iter().any(|a| a == "--replay");
    let n: u64 = if replay { 1 } else { std::env::var("VP_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8) };
    let mut kids: Vec<_> = (0..n)
        .map(|k| {
            let cur = dir.join(format!("{k}"));
            let child = std::process::Command::new(std::env::current_exe().unwrap())
                .args(&args[1..])
                .args(["--child", cur.to_str().unwrap(), "--worker", &format!("{k}/{n}"), "--tier", if tier == Tier::Quick { "quick" } else { "thorough" }])
                .spawn()
                .unwrap();
            (child, cur)
        })
        .collect();
    let mut report = engine::Report::default();
    let mut error = 0;
    for (child, cur) in kids.iter_mut() {
        let status = child.wait().unwrap();
        use std::os::unix::process::ExitStatusExt;
        match (status.code(), status.signal()) {
            (Some(0), _) => {
                let r = std::fs::read(cur.with_extension("json")).unwrap();
                report.merge(serde_json::from_slice(&r).unwrap());
            }
            (None, Some(sig)) if sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT => {
                let (s, c) = engine::parse_current(&std::fs::read(&cur).unwrap_or_default());
                report.violations.push((s, c, "crash".into(), format!("the process was ended by signal {sig}")));
            }
            (c, _) => error = c.unwrap_or(4),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if error != 0 && report.violations.is_empty() {
        std::process::exit(error);
    }
    let p = props::ALL.iter().find(|p| p.id == prop).unwrap();
    let only = opt("--only").is_some();
    // a run that covered nothing decides nothing
    for s in &report.sections {
        if !replay && report.violations.is_empty() && (s.executions == 0 || !s.complete) {
            engine::engine_error(&format!("section {} is incomplete", s.name));
        }
    }
    if report.sections.is_empty() && report.violations.is_empty() {
        engine::engine_error("nothing was explored");
    }
    if !replay && !only {
        write_evidence(&report, p, tier, seed, started);
    }
    if std::env::var("VP_VERBOSE").is_ok() {
        for s in &report.sections {
            eprintln!("  {}: executions={} steps={} states={} outcomes={} nontrivial={} depth={}", s.name, s.executions, s.steps, s.states.len(), s.observations.len(), s.nontrivial, s.max_depth);
        }
    }
    let known = load_known(&prop);
    let mut printed = HashSet::new();
    for (k, n) in &report.known_hit {
        let what = &known.iter().find(|x| &x.key == k).unwrap().what;
        if printed.insert(what.clone()) {
            println!("KNOWN-FINDING: property={prop} {what} (e.g. {k}, {n} executions)");
        }
    }
    report.violations.sort_by_key(|v| (v.0.clone(), v.1.len(), v.1.clone()));
    let mut keys = HashSet::new();
    for (s, c, key, msg) in report.violations.iter().filter(|v| keys.insert(v.2.clone())).take(if std::env::var("VP_VERBOSE").is_ok() { 100 } else { 5 }) {
        let v = Violation { key: key.clone(), msg: msg.clone() };
        let path = engine::write_replay(&prop, s, c, &v);
        println!("VIOLATION property={prop} replay={path}");
        println!("  section {s}, key {}: {}", v.key, v.msg);
    }
    let ex: u64 = report.sections.iter().map(|s| s.executions).sum();
    println!("{prop}: {} sections, {ex} executions, {} violations, {:.1} s", report.sections.len(), report.violations.len(), started.elapsed().as_secs_f64());
    std::process::exit(if report.violations.is_empty() { 0 } else { 1 });
}

fn load_known(prop: &str) -> Vec<Known> {
    let path = format!("{}/known-findings.json", engine::verif_dir());
    let Ok(s) = std::fs::read_to_string(&path) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["known"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|k| k["property"] == prop)
        .flat_map(|k| {
            let what = k["what"].as_str().unwrap_or_default().to_string();
            k["keys"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(|x| x.as_str())
                .map(|x| Known { key: x.to_string(), what: what.clone() })
                .collect::<Vec<_>>()
        })
        .collect()
}

fn child(prop: String, tier: Tier, seed: u64, cur: &str, replay: Option<String>, only: Option<String>, worker: (u64, u64)) {
    engine::install_panic_hook();
    // threads that take turns do so faster on one processor
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(worker.0 as usize % libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
    engine::attach_current(cur);
    engine::start_watchdog(prop.clone(), tier, seed);
    let replay = replay.map(|p| {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        let c = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        (v["section"].as_str().unwrap().to_string(), c)
    });
    let mut ctx = Ctx {
        prop: prop.clone(), tier, seed, replay, only, sections: vec![], violations: vec![], worker,
        known: load_known(&prop), known_hit: Default::default(), started: Instant::now(),
    };
    let p = props::ALL.iter().find(|p| p.id == prop).unwrap();
    (p.run)(&mut ctx);
    let report = engine::Report {
        sections: ctx.sections,
        violations: ctx.violations.into_iter().map(|(s, c, v)| (s, c, v.key, v.msg)).collect(),
        known_hit: ctx.known_hit,
    };
    std::fs::write(format!("{cur}.json"), serde_json::to_vec(&report).unwrap()).unwrap();
    // threads parked in an abandoned execution must not hold the exit
    unsafe { libc::_exit(0) }
}

fn write_evidence(r: &engine::Report, p: &props::Prop, tier: Tier, seed: u64, started: Instant) {
    let ss = &r.sections;
    let samples: Vec<String> = ss.iter().flat_map(|s| s.samples.iter().take(3).map(move |x| format!("{}: {x}", s.name))).take(60).collect();
    let sum = |f: &dyn Fn(&engine::Section) -> u64| ss.iter().map(f).sum::<u64>();
    let detail: Vec<Value> = ss
        .iter()
        .map(|s| {
            json!({"section": s.name, "bound": s.bound, "executions": s.executions, "operations": s.steps, "choice_points": s.choice_points,
                "distinct_states": s.states.len(), "distinct_outcomes": s.observations.len(), "nontrivial": s.nontrivial,
                "max_choices": s.max_depth, "exhausted": s.complete, "determinism_reruns": s.reruns})
        })
        .collect();
    let cov = if p.level == "model_checking" {
        json!({
            "states": sum(&|s| s.states.len() as u64),
            "transitions": sum(&|s| s.steps),
            "traces_validated_against_impl": sum(&|s| s.executions),
            "exhaustive": ss.iter().all(|s| s.complete),
            "samples": samples,
            "sections": detail,
        })
    } else {
        json!({
            "evaluations": sum(&|s| s.executions),
            "distinct_nontrivial": sum(&|s| s.nontrivial),
            "rule": p.rule,
            "exhaustive": ss.iter().all(|s| s.complete),
            "samples": samples,
            "sections": detail,
        })
    };
    let ev = json!({
        "property": p.id, "tier": if tier == Tier::Thorough {"thorough"} else {"quick"}, "seed": seed, "level": p.level,
        "coverage": cov, "wall_s": started.elapsed().as_secs_f64(), "violations": r.violations.len(),
        "assumptions": p.assumptions,
    });
    let dir = format!("{}/evidence", engine::verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
}
