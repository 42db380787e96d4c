//! `harness check <ID> [--tier quick|thorough] [--seed N] [--scale F]`, `harness replay <file>`
mod engine;
mod dict;
mod gen;
mod model;
mod props;
mod schemas;
mod steps;

use engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("replay") => replay_file(&args[1]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("distribution") => distribution(&args[1..]),
        Some("one") => one(&args[1..]),
        Some("fixed") => fixed_only(&args[1]),
        _ => {
            eprintln!("usage: harness check <ID> [--tier T] [--seed N] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn find(id: &str) -> Option<&'static Property> {
    props::all().iter().find(|p| p.id == id)
}

/// The listed findings of a property that still fail, and the first failing input that is not listed
fn probe(id: &str) -> (Vec<String>, Option<String>) {
    let list = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let (mut known, mut new) = (vec![], None);
    for (p, key, f) in props::probes() {
        if *p != id {
            continue;
        }
        if let Some(what) = guarded(f).unwrap_or_else(Some) {
            let head = format!("known: property={} {} ", id, key);
            match list.lines().find(|l| l.starts_with(&head)) {
                Some(l) => known.push(l.trim_start_matches("known: ").to_string()),
                None => new = new.or(Some(what)),
            }
        }
    }
    (known, new)
}

fn check(args: &[String]) -> i32 {
    let id = args[0].clone();
    let p = match find(&id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            return 2;
        }
    };
    let tier = opt(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = opt(args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let scale: f64 = opt(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let thorough = tier == "thorough";
    // The search runs in a child, so that even a crash that cannot be caught (stack overflow, abort)
    // in the code under test leads to a verdict with a reproducible case.
    if std::env::var_os("HARNESS_CHILD").is_none() {
        return parent(p, args, seed);
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    limit_memory((12 << 30) + threads as u64 * (512 << 20));
    let t0 = Instant::now();
    let mut fixed_n = 0;
    let mut violation: Option<Value> = None;
    if let Some(f) = p.fixed {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let _ = tx.send(guarded(f));
            })
            .unwrap();
        match rx.recv_timeout(Duration::from_secs(120)) {
            Ok(Ok(Ok(n))) => fixed_n = n,
            Ok(Ok(Err(msg))) | Ok(Err(msg)) => {
                violation = Some(json!({"property": id, "fixed": true, "message": msg}));
            }
            Err(_) => {
                eprintln!("the fixed examples do not end");
                std::process::exit(HANG_FIXED);
            }
        }
    }
    let (known_lines, new) = probe(&id);
    if let (None, Some(msg)) = (&violation, new) {
        violation = Some(json!({"property": id, "fixed": true, "message": msg}));
    }
    let mut res = None;
    if violation.is_none() {
        let r = run(p, seed, thorough, scale);
        if let Some(f) = &r.failure {
            write_found(f);
            let sub = &p.subs[f.sub];
            let fun = sub.f;
            let tape = f.tape.clone();
            let progress = std::sync::Arc::new(std::sync::Mutex::new(tape.clone()));
            let prog = progress.clone();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let t = shrink(fun, &tape, Duration::from_secs(25), &prog);
                    let (r, s) = replay(fun, &t);
                    let _ = tx.send((t, r, s));
                })
                .unwrap();
            let (tape, msg, sample) = match rx.recv_timeout(Duration::from_secs(60)) {
                Ok((t, Err(m), s)) => (t, m, s),
                Ok(_) => (f.tape.clone(), f.msg.clone(), None),
                // some smaller case does not end
                Err(_) => (progress.lock().unwrap().clone(), f.msg.clone(), None),
            };
            violation = Some(json!({
                "property": id, "sub": sub.name, "seed": seed, "case": f.case, "tape": tape,
                "message": msg, "original_message": f.msg, "case_text": sample,
            }));
        }
        res = Some(r);
    }
    let wall = t0.elapsed().as_secs_f64();
    let dir = verif_dir();
    let (ev, inner, distinct, labels, samples, known) = match res {
        Some(r) => (r.evaluations, r.inner, r.distinct, r.labels, r.samples, r.known),
        None => Default::default(),
    };
    let samples: Vec<String> = if samples.is_empty() { vec!["(none: stopped early)".into()] } else { samples };
    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev + fixed_n,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "generated_cases": ev,
            "fixed_and_enumerated_cases": fixed_n,
            "oracle_comparisons_inside_cases": inner,
            "labels": labels,
            "known_finding_hits": known,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    std::fs::write(dir.join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap())
        .expect("write evidence");
    for l in known_lines {
        println!("KNOWN-FINDING: {}", l);
    }
    if let Some(v) = violation {
        report(&id, seed, &v);
        return 1;
    }
    println!(
        "ok property={} tier={} seed={} cases={} distinct_nontrivial={} comparisons={} wall={:.1}s",
        id,
        tier,
        seed,
        ev + fixed_n,
        distinct,
        inner,
        wall
    );
    0
}

fn report(id: &str, seed: u64, v: &Value) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", id, seed));
    std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).expect("write replay");
    println!("VIOLATION property={} replay={}", id, path.display());
    println!("  {}", v["message"].as_str().unwrap_or(""));
    if let Some(s) = v["case_text"].as_str() {
        println!("  case: {}", s);
    }
}

fn parent(p: &'static Property, args: &[String], seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let jdir = std::env::temp_dir().join(format!("harness-journal-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&jdir);
    let run_child = |journal: bool, patience: u64| {
        let mut c = std::process::Command::new(&exe);
        c.arg("check").args(args).env("HARNESS_CHILD", "1").env("HARNESS_JDIR", &jdir);
        c.env("HARNESS_PATIENCE", patience.to_string());
        if journal {
            c.env("HARNESS_JOURNAL", &jdir);
        }
        c.status()
    };
    // run something that does not end normally by itself, with a limit on the processor time
    let alone = |args: &[&str]| {
        std::process::Command::new(&exe)
            .args(args)
            .env("HARNESS_ALONE", "1")
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .ok()
            .and_then(|s| s.signal())
            .filter(|s| matches!(s, 4 | 6 | 7 | 11 | 24))
            .map(|s| match s {
                24 => "a single case did not end within a minute of processor time".to_string(),
                _ => format!("the process died from signal {} (stack overflow, endless allocation or abort)", s),
            })
    };
    let crashed = |sub: usize, case: u64, msg: &str| {
        let v = json!({
            "property": p.id, "sub": p.subs[sub].name, "seed": seed, "case": case, "crash": true, "message": msg,
        });
        stub_evidence(p, seed);
        report(p.id, seed, &v);
    };
    let found = || -> bool {
        let v: Value = match std::fs::read_to_string(jdir.join("found")).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => v,
            None => return false,
        };
        let sub = v["sub"].as_u64().unwrap() as usize;
        let v = json!({
            "property": p.id, "sub": p.subs[sub].name, "seed": seed, "case": v["case"], "tape": v["tape"],
            "message": v["message"],
        });
        stub_evidence(p, seed);
        report(p.id, seed, &v);
        true
    };
    let cases = |file: &Path| -> Vec<(usize, u64)> {
        std::fs::read_to_string(file)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let v: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                (v.len() == 2).then(|| (v[0] as usize, v[1]))
            })
            .collect()
    };
    let judge = || -> i32 {
        let mut journal = false;
        for round in 0..2 {
            let patience = if round == 0 { 30_000 } else { 300_000 };
            let st = match run_child(journal, patience) {
                Ok(s) => s,
                Err(e) => {
                    eprintln!("cannot start: {}", e);
                    return 2;
                }
            };
            match (st.code(), st.signal()) {
                (Some(HANG_FIXED), _) => {}
                (Some(HANG), _) => {
                    for (sub, case) in cases(&jdir.join("hang")) {
                        if let Some(m) = alone(&["one", p.id, &sub.to_string(), &case.to_string(), &seed.to_string()]) {
                            crashed(sub, case, &m);
                            return 1;
                        }
                    }
                }
                (Some(c), _) => return c,
                (None, Some(4 | 6 | 7 | 11)) => {
                    eprintln!("the search died from signal {:?}", st.signal());
                    if journal {
                        let mut cand = vec![];
                        for f in std::fs::read_dir(&jdir).into_iter().flatten().flatten() {
                            if f.file_name().to_str().map_or(false, |n| n.parse::<u32>().is_ok()) {
                                cand.extend(cases(&f.path()));
                            }
                        }
                        cand.sort();
                        for (sub, case) in cand {
                            if let Some(m) = alone(&["one", p.id, &sub.to_string(), &case.to_string(), &seed.to_string()]) {
                                crashed(sub, case, &m);
                                return 1;
                            }
                        }
                    }
                    journal = true;
                }
                // 9 is the memory guard or an outside kill: inconclusive
                _ => {
                    eprintln!("the search was ended by signal {:?}", st.signal());
                    return 3;
                }
            }
            if found() {
                return 1;
            }
            if p.fixed.is_some() {
                if let Some(m) = alone(&["fixed", p.id]) {
                    let v = json!({"property": p.id, "fixed": true, "crash": true, "message": format!("fixed examples: {}", m)});
                    stub_evidence(p, seed);
                    report(p.id, seed, &v);
                    return 1;
                }
            }
        }
        eprintln!("could not isolate the case");
        3
    };
    let code = judge();
    let _ = std::fs::remove_dir_all(&jdir);
    code
}

/// The evidence of a search that did not come to its end
fn stub_evidence(p: &Property, seed: u64) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": p.id, "tier": "quick", "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": ["(none: the search was ended)"]},
        "assumptions": p.assumptions, "wall_s": 0.0, "violations": 1,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), v.to_string());
}

/// A case that is known not to end, or to crash, is run with limits
fn limits() {
    limit_memory(8 << 30);
    limit_cpu(60);
}

/// the fixed examples alone
fn fixed_only(id: &str) -> i32 {
    limits();
    let f = find(id).expect("property").fixed.expect("fixed examples");
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || guarded(f)).unwrap();
    let r = h.join().unwrap();
    println!("{:?}", r);
    matches!(r, Ok(Ok(_))) as i32 ^ 1
}

/// run one generated case in this process
fn one(args: &[String]) -> i32 {
    if std::env::var_os("HARNESS_ALONE").is_some() {
        limits();
    }
    let p = find(&args[0]).expect("property");
    let n: Vec<u64> = args[1..].iter().map(|a| a.parse().expect("number")).collect();
    let sub = &p.subs[n[0] as usize];
    let src = case_src(p.id, n[2], n[0] as usize, n[1]);
    let f = sub.f;
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut src = src;
            let mut cx = Cx { want_sample: true, ..Cx::default() };
            let r = guarded(|| f(&mut src, &mut cx)).unwrap_or_else(Err);
            println!("{:?}\n{}", r, cx.sample.unwrap_or_default());
            r.is_err()
        })
        .unwrap();
    h.join().map(|b| b as i32).unwrap_or(2)
}

fn replay_file(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
    let p = find(v["property"].as_str().unwrap()).expect("property");
    if v["fixed"].as_bool() == Some(true) {
        return fixed_only(p.id);
    }
    let si = p.subs.iter().position(|s| Some(s.name) == v["sub"].as_str()).expect("sub");
    if v["crash"].as_bool() == Some(true) {
        limits();
        return one(&[p.id.into(), si.to_string(), v["case"].to_string(), v["seed"].to_string()]);
    }
    let f = p.subs[si].f;
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || replay(f, &tape)).unwrap();
    let (r, s) = h.join().unwrap();
    if let Some(s) = s {
        println!("case: {}", s);
    }
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("VIOLATION property={} replay={}\n  {}", p.id, path, m);
            1
        }
    }
}

/// print label counts
fn distribution(args: &[String]) -> i32 {
    let p = find(&args[0]).expect("property");
    let seed = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let t0 = Instant::now();
    let r = run(p, seed, false, scale);
    println!("{} cases, {} inner, {} distinct non-trivial, {:?}", r.evaluations, r.inner, r.distinct, t0.elapsed());
    for (k, v) in &r.labels {
        println!("{:8}  {}", v, k);
    }
    for (k, v) in &r.known {
        println!("{:8}  known {}", v, k);
    }
    for s in &r.samples {
        println!("  {}", s);
    }
    if let Some(f) = r.failure {
        println!("FAIL sub {} case {}: {}", p.subs[f.sub].name, f.case, f.msg);
    }
    0
}
