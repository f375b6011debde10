//! `mc check <ID>`: supervisor; `mc worker <ID> <slots> <out>`: exploration;
//! `mc one <ID> <space> <choices>`: one execution; `mc replay <file>`: replay an artefact.
mod engine;
mod doc;
mod props;
mod util;

use engine::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: Counting = Counting;

fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| {
        let p = std::path::Path::new(env!("CARGO_MANIFEST_DIR"));
        p.parent().unwrap().to_string_lossy().into_owned()
    })
}
fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}
fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// `KNOWN-FINDING: property=<id> case=<json string> <what fails>` lines of known_findings.txt
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif())) else { return v };
    for l in s.lines() {
        let pre = format!("KNOWN-FINDING: property={id} case=");
        if let Some(rest) = l.strip_prefix(&pre) {
            let mut de = serde_json::Deserializer::from_str(rest).into_iter::<String>();
            if let Some(Ok(case)) = de.next() {
                let what = rest[de.byte_offset()..].trim().to_string();
                v.push((case, what));
            }
        }
    }
    v
}

fn budget() -> Duration {
    Duration::from_secs(match std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None if tier() == "thorough" => 840,
        None => 540,
    })
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, NSLOT)
}

fn hex(v: &[u8]) -> String {
    v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(".")
}
fn unhex(s: &str) -> Vec<u8> {
    s.split('.').filter(|s| !s.is_empty()).map(|c| c.parse().unwrap()).collect()
}

fn worker(id: &str, slots: &str, out: &str) -> i32 {
    quiet_panics();
    let p = props::get(id).expect("unknown property");
    let thorough = tier() == "thorough";
    let spaces = (p.spaces)(thorough);
    let k: HashSet<String> = known(id).into_iter().map(|k| k.0).collect();
    let rep = explore(&spaces, &k, &Slots::open(slots), budget(), threads());
    let sp: Vec<Value> = rep
        .per_space
        .iter()
        .map(|(n, w, t, s, full)| {
            json!({"space": n, "enumerated": w, "executions": t.executions, "choice_transitions": t.transitions,
                "validated_on_implementation": t.validated, "outcomes": t.outcomes, "wall_s": s, "completed": full, "samples": t.samples})
        })
        .collect();
    let fails: Vec<Value> = rep
        .fails
        .iter()
        .map(|(s, c, f)| json!({"space": spaces[*s].name, "choices": hex(c), "case": f.case, "msg": f.msg}))
        .collect();
    let j = json!({"spaces": sp, "states": rep.states, "capped": rep.capped, "fails": fails, "known": rep.known_hits});
    std::fs::write(out, j.to_string()).unwrap();
    0
}

fn one(id: &str, space: &str, choices: &str, dry: bool) -> i32 {
    quiet_panics();
    if !dry {
        unsafe {
            let l = libc::rlimit { rlim_cur: CONFIRM_CPU, rlim_max: CONFIRM_CPU + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
    }
    let p = props::get(id).expect("unknown property");
    for thorough in [false, true] {
        let spaces = (p.spaces)(thorough);
        if let Some(sp) = spaces.into_iter().find(|s| s.name == space) {
            let seq = unhex(choices);
            let (case, r) = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let (ch, r) = execute(&sp, &seq, None, None, dry, true);
                    (ch.case.clone(), r)
                })
                .unwrap()
                .join()
                .unwrap();
            if dry {
                println!("{case}");
                return 0;
            }
            return match r {
                Ok(()) => {
                    println!("holds: {case}");
                    0
                }
                Err(m) => {
                    println!("fails: {case}\n{m}");
                    1
                }
            };
        }
    }
    eprintln!("no such space {space}");
    2
}

fn sub(args: &[&str]) -> std::process::Output {
    Command::new(std::env::current_exe().unwrap()).args(args).output().expect("spawn")
}

/// Re-run a suspect in its own process: a verdict only if it fails there as well.
fn confirm(id: &str, space: &str, choices: &str) -> Option<(String, String)> {
    let o = sub(&["one", id, space, choices]);
    let case = String::from_utf8_lossy(&sub(&["describe", id, space, choices]).stdout).trim_end().to_string();
    use std::os::unix::process::ExitStatusExt;
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => None,
        (Some(1), _) => Some((case, String::from_utf8_lossy(&o.stdout).into_owned())),
        (Some(EXIT_MEM), _) => Some((case, format!("keeps allocating: more than {MEM_CAP} bytes live"))),
        (_, Some(s)) if s == libc::SIGXCPU || s == libc::SIGKILL => {
            Some((case, format!("does not terminate: {CONFIRM_CPU} s of CPU time on one execution")))
        }
        (_, Some(s)) => Some((
            case,
            format!("process died with signal {s}: {}", String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" ")),
        )),
        _ => None,
    }
}

fn write_replay(id: &str, space: &str, choices: &str, case: &str, msg: &str) -> String {
    let dir = format!("{}/replay", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{:016x}.json", hash_of(&(space, choices)));
    let j = json!({"property": id, "space": space, "choices": choices, "case": case, "what": msg,
        "how": format!("/verif/check.sh replay {path}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::get(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tmp = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let slots = tmp.join("slots").to_string_lossy().into_owned();
    let out = tmp.join("out.json").to_string_lossy().into_owned();
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &slots, &out])
        .stdin(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .and_then(|c| c.wait_with_output())
        .expect("worker");
    let spaces = (p.spaces)(tier() == "thorough");
    let mut violations: Vec<(String, String, String, String)> = vec![]; // space, choices, case, msg
    let mut rep = json!({"spaces": [], "states": 0, "capped": true, "fails": [], "known": []});
    let mut infra: Option<String> = None;
    if st.status.success() && std::path::Path::new(&out).exists() {
        rep = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
        for f in rep["fails"].as_array().unwrap() {
            let g = |k: &str| f[k].as_str().unwrap_or("").to_string();
            if g("msg").contains("explorer: divergence") || g("msg").contains("panic at src/engine.rs") {
                infra = Some(format!("nondeterminism not owned: {}", f));
            } else {
                violations.push((g("space"), g("choices"), g("case"), g("msg")));
            }
        }
    } else {
        let err = String::from_utf8_lossy(&st.stderr).into_owned();
        let act = Slots::open(&slots).active();
        let found: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = act
                .iter()
                .map(|(s, c)| {
                    let name = spaces[*s].name.clone();
                    sc.spawn(move || confirm(id, &name, &hex(c)).map(|(case, msg)| (name, hex(c), case, msg)))
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
        });
        violations.extend(found);
        violations.sort_by_key(|v| (v.2.len(), v.2.clone()));
        if violations.is_empty() {
            infra = Some(format!("worker ended with {} and no execution reproduces it; stderr: {err}", st.status));
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);

    let kn = known(id);
    let hits: Vec<String> =
        rep["known"].as_array().unwrap().iter().filter_map(|s| s.as_str().map(str::to_string)).collect();
    for (case, what) in &kn {
        if hits.contains(case) {
            println!("KNOWN-FINDING: property={id} case={} {what}", serde_json::to_string(case).unwrap());
        }
    }
    let sum = |k: &str| -> u64 { rep["spaces"].as_array().unwrap().iter().map(|s| s[k].as_u64().unwrap_or(0)).sum() };
    let mut samples: Vec<Value> = vec![];
    for s in rep["spaces"].as_array().unwrap() {
        for x in s["samples"].as_array().unwrap().iter().take(2) {
            samples.push(json!({"space": s["space"], "case": x}));
        }
    }
    let capped = rep["capped"].as_bool().unwrap_or(true);
    let complete = !capped && infra.is_none() && violations.is_empty();
    let ev = json!({
        "property": id, "tier": tier(), "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": rep["states"], "transitions": sum("choice_transitions"),
            "traces_validated_against_impl": sum("validated_on_implementation"),
            "executions": sum("executions"),
            "exhaustive": complete,
            "samples": samples,
            "explanation": p.oracle,
            "spaces": rep["spaces"],
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
        "known_findings_hit": hits.len(),
    });
    let evd = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(format!("{evd}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    for s in rep["spaces"].as_array().unwrap() {
        println!(
            "{id} {:<28} executions={} transitions={} outcomes={} {:.1}s{}",
            s["space"].as_str().unwrap(), s["executions"], s["choice_transitions"], s["outcomes"],
            s["wall_s"].as_f64().unwrap(), if s["completed"] == true { "" } else { " (not completed)" }
        );
    }
    println!(
        "{id} tier={} states={} executions={} exhaustive={} wall={:.1}s",
        tier(), rep["states"], sum("executions"), complete, t0.elapsed().as_secs_f64()
    );
    for (s, c, case, msg) in violations.iter().take(8) {
        let r = write_replay(id, s, c, case, msg);
        println!("--- {s}: {case}\n{msg}");
        println!("VIOLATION property={id} replay={r}");
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(i) = infra {
        eprintln!("{i}");
        return 2;
    }
    if capped {
        println!("{id}: wall budget reached; the evidence says which spaces were completed");
    }
    0
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let rc = match s.as_slice() {
        ["check", id] => check(id),
        ["worker", id, slots, out] => worker(id, slots, out),
        ["one", id, sp, c] => one(id, sp, c, false),
        ["describe", id, sp, c] => one(id, sp, c, true),
        ["replay", f] => {
            let j: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
            let g = |k: &str| j[k].as_str().unwrap_or("").to_string();
            match confirm(&g("property"), &g("space"), &g("choices")) {
                Some((case, msg)) => {
                    println!("{case}\n{msg}\nVIOLATION property={} replay={f}", g("property"));
                    1
                }
                None => {
                    println!("no longer fails");
                    0
                }
            }
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        // the bounds of both tiers, for DESIGN.md
        ["describe"] => {
            let of = |p: &props::Prop, t| (p.spaces)(t).into_iter().map(|s| (s.name, s.what, s.devs)).collect::<Vec<_>>();
            for p in props::all() {
                println!("{}", serde_json::json!({"id": p.id, "oracle": p.oracle, "assumptions": p.assumptions, "quick": of(&p, false), "thorough": of(&p, true)}));
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | replay FILE | list | describe");
            2
        }
    };
    flush();
    ExitCode::from(rc as u8)
}
