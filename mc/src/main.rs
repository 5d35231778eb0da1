mod engine;
mod gen;
mod hist;
mod props;
mod report;
mod view;

use std::collections::HashSet;
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

use engine::*;
use report::*;

#[global_allocator]
static ALLOC: Guard = Guard;

const OUT: &str = "/verif/out";

fn tier_arg(args: &[String]) -> Tier {
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    for (i, a) in args.iter().enumerate() {
        if a == "--tier" {
            match args.get(i + 1).map(String::as_str) {
                Some("thorough") => tier = Tier::Thorough,
                Some("quick") => tier = Tier::Quick,
                _ => {}
            }
        }
    }
    tier
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("list") => {
            for p in props::all() {
                println!("{}\t{}\t{}", p.id, p.level, p.technique);
            }
            0
        }
        Some("check") => check(&args[1], tier_arg(&args)),
        Some("child") => child(&args[1], tier_arg(&args), &args[2], &args[3]),
        Some("one") => one(&args[1], tier_arg(&args), &args[2], &args[3]),
        Some("replay") => replay(&args[1]),
        Some("probe") => props::probe(&args[1..]),
        _ => {
            eprintln!("usage: ndmc check PROP [--tier quick|thorough] | replay FILE | list");
            2
        }
    };
    ExitCode::from(code as u8)
}

fn options(prop: &str) -> Options {
    Options {
        threads: SLOTS.min(
            std::env::var("NDMC_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(SLOTS),
        ),
        case_cpu: 6,
        all: std::env::var_os("NDMC_ALL").is_some(),
        known: known_findings()
            .into_iter()
            .filter(|k| k.property == prop)
            .map(|k| k.case)
            .collect(),
    }
}

/// Explore every space in this process and write the outcome to `out`.
fn child(id: &str, tier: Tier, slots: &str, out: &str) -> i32 {
    let Some(prop) = props::find(id) else {
        return 2;
    };
    install_slots(Slots::open(slots).expect("slots"));
    install_panic_hook();
    let opts = options(id);
    let only = std::env::var("NDMC_SPACE").ok();

    let mut result = ChildResult::default();
    let mut stats = Stats::default();

    for (index, space) in (prop.spaces)(tier).iter().enumerate() {
        if only.as_ref().is_some_and(|o| !space.name.contains(o.as_str())) {
            continue;
        }
        let start = Instant::now();
        let o = explore(index, space, &opts);
        let mut s = SpaceReport {
            name: space.name.clone(),
            max_deviations: space.max_dev,
            evaluations: o.stats.evaluations,
            transitions: o.stats.transitions,
            states: o.stats.states.len() as u64,
            distinct_nontrivial: o.stats.nontrivial.len() as u64,
            exhausted: !o.capped,
            seconds: 0.0,
        };
        s.seconds = start.elapsed().as_secs_f64();
        result.spaces.push(s);
        for (n, f) in o.failures {
            result.failures.push(FailureReport {
                count: n,
                space: f.space,
                space_index: f.space_index,
                choices: f.choices,
                what: f.fail.what,
                case: f.fail.case,
                detail: f.fail.detail,
            });
        }
        result.errors.extend(o.errors);
        stats.merge(o.stats);
        let stop = !opts.all
            && result
                .failures
                .iter()
                .any(|f| !opts.known.contains(&f.case));
        if stop || !result.errors.is_empty() {
            break;
        }
    }

    result.evaluations = stats.evaluations;
    result.transitions = stats.transitions;
    result.validated = stats.validated;
    result.states = stats.states.len() as u64;
    result.distinct_nontrivial = stats.nontrivial.len() as u64;
    result.outcomes = stats.outcomes;
    result.counters = stats
        .counters
        .into_iter()
        .map(|(k, v)| (k.to_owned(), v))
        .collect();
    // Spread the samples over the run.
    let n = stats.samples.len();
    result.samples = stats
        .samples
        .into_iter()
        .enumerate()
        .filter(|(i, _)| n <= 24 || i % (n / 24 + 1) == 0)
        .map(|(_, s)| clip(&s, 400))
        .collect();

    std::fs::write(out, serde_json::to_vec(&result).expect("json")).expect("write");
    0
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}…")
    }
}

fn one(id: &str, tier: Tier, space: &str, choices: &str) -> i32 {
    let Some(prop) = props::find(id) else {
        return 2;
    };
    install_panic_hook();
    VERBOSE.store(true, std::sync::atomic::Ordering::Relaxed);
    let index: usize = space.parse().expect("space");
    let choices: Vec<u32> = choices
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("choice"))
        .collect();
    let spaces = (prop.spaces)(tier);
    let Some(space) = spaces.get(index) else {
        eprintln!("no such space");
        return 2;
    };
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 12,
            rlim_max: 15,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
    let r = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn({
            let name = space.name.clone();
            let spaces = (prop.spaces)(tier);
            move || {
                println!("space {name}, choices {choices:?}");
                run_one(&spaces[index], &choices).0
            }
        })
        .expect("spawn")
        .join();
    match r {
        Ok(Ok(())) => {
            println!("holds");
            0
        }
        Ok(Err(f)) => {
            println!("FAILS {}\n  case: {}\n  {}", f.what, f.case, f.detail);
            1
        }
        Err(_) => 2,
    }
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value =
        serde_json::from_slice(&std::fs::read(path).expect("read")).expect("json");
    let prop = v["property"].as_str().unwrap_or_default().to_owned();
    if let Some(a) = v["probe"].as_array() {
        let a: Vec<String> = a
            .iter()
            .filter_map(|s| s.as_str().map(str::to_owned))
            .collect();
        return props::probe(&a);
    }
    let tier = if v["tier"] == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let choices: Vec<String> = v["choices"]
        .as_array()
        .map(|a| a.iter().map(|c| c.to_string()).collect())
        .unwrap_or_default();
    one(
        &prop,
        tier,
        &v["space_index"].to_string(),
        &choices.join(","),
    )
}

/// Run one case in a process of its own; what is wrong with it, if anything.
fn rerun(
    exe: &std::path::Path,
    id: &str,
    tier: Tier,
    space: usize,
    choices: &[u32],
) -> Option<(String, String)> {
    use std::os::unix::process::ExitStatusExt;
    let list: Vec<String> = choices.iter().map(u32::to_string).collect();
    let out = Command::new(exe)
        .args(["one", id, &space.to_string(), &list.join(",")])
        .args(["--tier", tier.name()])
        .stderr(std::process::Stdio::null())
        .output()
        .expect("spawn");
    let text = String::from_utf8_lossy(&out.stdout);
    let case = text
        .lines()
        .rev()
        .find_map(|l| l.trim_start().strip_prefix("case: "))
        .unwrap_or_default()
        .to_owned();
    let detail = match (out.status.code(), out.status.signal()) {
        (Some(0), _) => return None,
        (Some(1), _) => "fails".to_owned(),
        (Some(EXIT_MEMORY), _) => "allocates without bound".to_owned(),
        (_, Some(libc::SIGXCPU | libc::SIGKILL)) => {
            "does not terminate within 12 s of CPU".to_owned()
        }
        (_, Some(n)) => format!("kills the process with signal {n} (stack overflow or abort)"),
        (c, _) => format!("ends the process with {c:?}"),
    };
    Some((case, detail))
}

fn check(id: &str, tier: Tier) -> i32 {
    let Some(prop) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let start = Instant::now();
    std::fs::create_dir_all(OUT).expect("out");
    std::fs::create_dir_all("/verif/evidence").expect("evidence");
    let exe = std::env::current_exe().expect("exe");
    let slots_path = format!("{OUT}/{id}.{}.slots", std::process::id());
    let out_path = format!("{OUT}/{id}.{}.json", std::process::id());
    let _ = std::fs::remove_file(&slots_path);
    let _ = std::fs::remove_file(&out_path);

    let slots = Slots::open(&slots_path).expect("slots");
    let mut c = Command::new(&exe)
        .args(["child", id, &slots_path, &out_path, "--tier", tier.name()])
        .spawn()
        .expect("spawn");
    let limit = Duration::from_secs(tier.sel(600, 6 * 3600));
    let status = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            break Some(s);
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };

    let mut result: ChildResult = std::fs::read(&out_path)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_default();
    let finished = status.is_some_and(|s| s.success()) && !result.spaces.is_empty();
    let busy = slots.busy();
    drop(slots);
    let _ = std::fs::remove_file(&slots_path);
    let _ = std::fs::remove_file(&out_path);

    if !finished {
        eprintln!("exploration ended abnormally: {status:?}; re-running the busy cases");
        if status.is_none() {
            eprintln!("out of time");
            return 2;
        }
        if status.and_then(|s| s.code()) == Some(INTERNAL) {
            eprintln!("the checker is wrong about its own cases");
            return 2;
        }
        let spaces = (prop.spaces)(tier);
        // The one the watchdog or the allocation guard pointed at first.
        let mut busy = busy;
        busy.sort_by_key(|b| b.2 == 0);
        let results: Vec<_> = std::thread::scope(|scope| {
            let handles: Vec<_> = busy
                .iter()
                .map(|(space, choices, _)| {
                    let exe = &exe;
                    scope.spawn(move || rerun(exe, id, tier, *space, choices))
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("rerun")).collect()
        });
        for ((space, choices, flag), r) in busy.into_iter().zip(results) {
            let Some((case, detail)) = r else { continue };
            result.failures.push(FailureReport {
                count: 1,
                space: spaces.get(space).map(|s| s.name.clone()).unwrap_or_default(),
                space_index: space,
                choices,
                what: match flag {
                    1 => "hang".into(),
                    2 => "memory".into(),
                    _ => "crash".into(),
                },
                case,
                detail,
            });
        }
        if result.failures.is_empty() {
            eprintln!("no busy case reproduces the abnormal end: error of the check");
            return 2;
        }
    }

    for e in &result.errors {
        eprintln!("error: {e}");
    }
    if !result.errors.is_empty() && result.failures.is_empty() {
        return 2;
    }

    // Probes run in processes of their own.
    for p in prop.probes {
        let o = Command::new(&exe)
            .arg("probe")
            .args(p.args)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("spawn");
        result.evaluations += 1;
        if !o.success() {
            result.failures.push(FailureReport {
                count: 1,
                space: "probe".into(),
                space_index: usize::MAX,
                choices: Vec::new(),
                what: "probe".into(),
                case: p.args.join(" "),
                detail: format!("{}: {o}", p.what),
            });
        }
    }

    let known = known_findings();
    let mut new = Vec::new();
    let mut seen = HashSet::new();
    for f in &result.failures {
        match known
            .iter()
            .find(|k| k.property == id && k.case == f.case && !f.case.is_empty())
        {
            Some(k) => {
                if seen.insert(k.case.clone()) {
                    println!("KNOWN-FINDING: property={id} {}", k.what);
                }
            }
            None => new.push(f),
        }
    }

    let wall = start.elapsed().as_secs_f64();
    write_evidence(prop, tier, &result, new.len(), seen.len(), wall);

    eprintln!(
        "{id} {}: {} runs, {} transitions, {} states, {} non-trivial in {:.1} s",
        tier.name(),
        result.evaluations,
        result.transitions,
        result.states,
        result.distinct_nontrivial,
        wall
    );
    for s in &result.spaces {
        eprintln!(
            "  {:<28} runs {:>10} transitions {:>9} states {:>8} nontrivial {:>9} {:.1}s{}",
            s.name,
            s.evaluations,
            s.transitions,
            s.states,
            s.distinct_nontrivial,
            s.seconds,
            if s.exhausted { "" } else { " (stopped)" }
        );
    }
    if std::env::var_os("NDMC_OUTCOMES").is_some() {
        for (k, v) in &result.outcomes {
            eprintln!("  {k}: {v}");
        }
        for (k, v) in &result.counters {
            eprintln!("  #{k}: {v}");
        }
        for s in &result.samples {
            eprintln!("  ~ {s}");
        }
    }

    for (n, f) in new.iter().enumerate() {
        let path = format!("{OUT}/{id}-{}-{n}.replay.json", f.what.replace([' ', '/'], "_"));
        let mut v = serde_json::json!({
            "property": id,
            "tier": tier.name(),
            "space": f.space,
            "space_index": f.space_index,
            "choices": f.choices,
            "what": f.what,
            "case": f.case,
            "detail": f.detail,
            "occurrences": f.count,
            "replay": format!("/verif/mc/target/release/ndmc replay {path}"),
        });
        if f.what == "probe" {
            v["probe"] = f.case.split(' ').collect::<Vec<_>>().into();
        }
        std::fs::write(&path, serde_json::to_vec_pretty(&v).expect("json")).expect("write");
        println!("VIOLATION property={id} replay={path}");
        println!(
            "  [{}] {} ({} times)\n    case: {}\n    {}",
            f.space, f.what, f.count, f.case, f.detail
        );
    }

    if new.is_empty() {
        0
    } else {
        1
    }
}
