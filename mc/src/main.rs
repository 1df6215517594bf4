//! mc check <property> [quick|thorough]   explore, print verdict, write evidence
//! mc replay <file>                        run one recorded execution again
mod engine;
mod model;
mod props;
mod samples;
mod util;

use engine::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("pair") => {
            // development aid: records of two files compared
            let rd = |p: &str| {
                let r = rinex::prelude::Rinex::from_file(p).expect("parse");
                let n: usize = r.record.as_obs().unwrap().values().map(|v| v.signals.len()).sum();
                println!("{p}: {} epochs, {n} signals", r.record.as_obs().unwrap().len());
                model::obs::observed(&r)
            };
            let (a, b) = (rd(&args[2]), rd(&args[3]));
            match (a, b) {
                (Ok(a), Ok(b)) => println!("{:?}", model::obs::diff(&a, &b, 1e-6)),
                (a, b) => println!("{:?} {:?}", a.err(), b.err()),
            }
            0
        },
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.level);
            }
            0
        },
        Some("check") => check(&args[2], tier(args.get(3))),
        Some("worker") => worker(&args[2], tier(args.get(3)), &args[4]),
        Some("one") => one(&args[2], tier(args.get(3)), &args[4], &args[5]),
        Some("replay") => replay(&args[2]),
        _ => {
            eprintln!("usage: mc check <property> [quick|thorough] | mc replay <file>");
            2
        },
    };
    std::process::exit(code);
}

fn tier(s: Option<&String>) -> Tier {
    let s = s
        .cloned()
        .unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_default());
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn prop(id: &str) -> &'static props::Prop {
    props::ALL
        .iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| panic!("unknown property {id}"))
}

/// The exploring process; its verdict goes to the file `out`.
fn worker(id: &str, tier: Tier, out: &str) -> i32 {
    install_panic_hook();
    let mut ctx = Ctx::new(tier);
    ctx.status = std::fs::File::create(format!("{out}.status")).ok();
    std::env::set_var("MC_HANG_FILE", format!("{out}.hang"));
    // names of the scopes, for a parent that has to find out what died
    let p = prop(id);
    std::fs::write(format!("{out}.scopes"), "").unwrap();
    (p.run)(&mut ctx);
    let stats: Vec<Value> = ctx
        .stats
        .iter()
        .map(|s| {
            json!({"scope": s.name, "rule": s.rule, "executions": s.execs, "evaluations": s.evals,
        "distinct_outcomes": s.outcomes, "trivial": s.trivial, "states": s.states,
        "transitions": s.transitions, "traces": s.traces, "max_choices": s.max_depth,
        "wall_s": s.wall, "failed": s.failed, "samples": s.samples})
        })
        .collect();
    let fails: Vec<Value> = ctx
        .failures
        .iter()
        .map(|f| {
            json!({"scope": f.scope, "choices": f.choices, "key": f.key,
        "msg": f.msg, "notes": f.notes})
        })
        .collect();
    std::fs::write(out, json!({"stats": stats, "failures": fails}).to_string()).unwrap();
    0
}

/// Runs exactly one execution (exit 0 holds, 1 fails, signal = crash).
fn one(id: &str, tier: Tier, scope: &str, choices: &str) -> i32 {
    install_panic_hook();
    let mut ctx = Ctx::new(tier);
    let c: Vec<u32> = serde_json::from_str(choices).unwrap();
    ctx.only = Some((scope.into(), c));
    (prop(id).run)(&mut ctx);
    if !ctx.scope_names.iter().any(|s| s == scope) {
        eprintln!("no scope {scope}");
        return 2;
    }
    i32::from(!ctx.failures.is_empty())
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let t = if v["tier"] == "thorough" { "thorough" } else { "quick" };
    let st = Command::new(std::env::current_exe().unwrap())
        .args([
            "one",
            v["property"].as_str().unwrap(),
            t,
            v["scope"].as_str().unwrap(),
            &v["choices"].to_string(),
        ])
        .stdout(Stdio::null())
        .status()
        .unwrap();
    eprintln!("{st}");
    st.code().unwrap_or(1)
}

struct Known {
    prop: String,
    key: String,
    text: String,
}
/// known-findings.txt: `known property=<id> key=<key> :: <text>` (and `fixed:` lines, which suppress nothing)
fn known() -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root().join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
    {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (id, r) = r.split_once(" key=").expect("known-findings");
            let (key, text) = r.split_once(" :: ").expect("known-findings");
            v.push(Known {
                prop: id.trim().into(),
                key: key.trim().into(),
                text: text.into(),
            });
        }
    }
    v
}

fn check(id: &str, tier: Tier) -> i32 {
    let t0 = std::time::Instant::now();
    let p = prop(id);
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = root().join("build").join("run");
    std::fs::create_dir_all(&dir).unwrap();
    let out = dir.join(format!("{id}-{}.json", std::process::id()));
    let outs = out.to_str().unwrap().to_string();
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tname, &outs])
        .stdout(Stdio::null())
        .status()
        .expect("spawn");
    let mut failures: Vec<Value> = vec![];
    let mut stats: Vec<Value> = vec![];
    if st.code() == Some(0) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
        failures = v["failures"].as_array().unwrap().clone();
        stats = v["stats"].as_array().unwrap().clone();
    } else if st.code() == Some(77) {
        let h: Value =
            serde_json::from_str(&std::fs::read_to_string(format!("{outs}.hang")).unwrap())
                .unwrap();
        failures.push(json!({"scope": h["scope"], "choices": h["choices"], "key": "hang",
            "msg": "the call does not return (no result within 45 s)", "notes": []}));
    } else if let Some(sig) = st.signal() {
        // the library took the process down (stack overflow, abort, out of
        // memory): find the execution and see it die again on its own
        let names = props::scopes(p, tier);
        let b = std::fs::read(format!("{outs}.status")).unwrap_or_default();
        for s in b.chunks(256) {
            if s.len() < 248 {
                continue;
            }
            let u = |i: usize| u32::from_le_bytes(s[i..i + 4].try_into().unwrap());
            let (sid, n) = (u(0) as usize, u(4) as usize);
            let ch: Vec<u32> = (0..n.min(60)).map(|i| u(8 + 4 * i)).collect();
            let Some(name) = names.get(sid) else { continue };
            let r = Command::new(std::env::current_exe().unwrap())
                .args(["one", id, tname, name, &json!(ch).to_string()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .unwrap();
            if let Some(s2) = r.signal() {
                if s2 != 9 {
                    failures.push(json!({"scope": name, "choices": ch, "key": format!("crash"),
                    "msg": format!("the process is killed by signal {s2} while running this execution"), "notes": []}));
                    break;
                }
            }
        }
        if failures.is_empty() {
            eprintln!("engine: worker died (signal {sig}) and no single execution reproduces it");
            return 2;
        }
    } else {
        eprintln!("engine: worker ended with {st}");
        return 2;
    }
    for suf in ["", ".status", ".hang", ".scopes"] {
        let _ = std::fs::remove_file(format!("{outs}{suf}"));
    }

    let kn = known();
    let mut new = vec![];
    let mut hit: Vec<&Known> = vec![];
    for f in &failures {
        let key = f["key"].as_str().unwrap_or("");
        if let Some(k) = kn.iter().find(|k| k.prop == id && !key.is_empty() && k.key == key) {
            if !hit.iter().any(|h| h.key == k.key) {
                hit.push(k);
            }
        } else {
            new.push(f.clone());
        }
    }
    let sum = |k: &str| stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let samples: Vec<Value> = stats
        .iter()
        .flat_map(|s| s["samples"].as_array().cloned().unwrap_or_default())
        .collect();
    let mut cov = json!({
        "evaluations": sum("evaluations"),
        "distinct_nontrivial": sum("distinct_outcomes"),
        "rule": format!("{} Every sequence of choices of every scope below is executed exactly once; an execution is non-trivial unless the scope marks it trivial, and distinct when the observed outcome (hash of what the library returned) differs.", p.about),
        "samples": samples,
        "executions": sum("executions"),
        "exhaustive": failures.is_empty() || !new.is_empty(),
        "scopes": stats.iter().map(|s| { let mut s = s.clone(); s.as_object_mut().unwrap().remove("samples"); s }).collect::<Vec<_>>(),
    });
    cov["exhaustive"] = json!(sum("failed") < 400);
    if p.level == "model_checking" {
        cov["states"] = json!(sum("states"));
        cov["transitions"] = json!(sum("transitions"));
        cov["traces_validated_against_impl"] = json!(sum("traces"));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ev = json!({
        "property": id, "tier": tname, "seed": seed, "level": p.level,
        "coverage": cov,
        "assumptions": p.assumes,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    let evd = root().join("evidence");
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(
        evd.join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();

    for k in &hit {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    println!(
        "{id} {tname}: {} executions, {} evaluations, {} distinct outcomes, {} states, {} transitions, {:.1}s",
        sum("executions"), sum("evaluations"), sum("distinct_outcomes"), sum("states"), sum("transitions"),
        t0.elapsed().as_secs_f64()
    );
    if new.is_empty() {
        return 0;
    }
    let rdir = evd.join("replay");
    std::fs::create_dir_all(&rdir).unwrap();
    for (i, f) in new.iter().enumerate() {
        if i >= 12 {
            println!("... {} further finding(s)", new.len() - i);
            break;
        }
        let path = rdir.join(format!("{id}-{i}.json"));
        let mut r = f.clone();
        r["property"] = json!(id);
        r["tier"] = json!(tname);
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  scope {} key {}: {}", f["scope"], f["key"], f["msg"].as_str().unwrap_or(""));
        for n in f["notes"].as_array().into_iter().flatten().take(6) {
            println!("    {}", n.as_str().unwrap_or("").replace('\n', "\n    "));
        }
    }
    1
}
