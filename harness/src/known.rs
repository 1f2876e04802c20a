//! Known findings: genuine defects that were recorded instead of repaired.
//! Each names one exact input, which is run again in a process of its own.

use serde_json::Value;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

fn file() -> Vec<Value> {
    let p = std::path::PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("known_findings.json");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("known_findings.json")).expect("known_findings.json");
    v["findings"].as_array().cloned().unwrap_or_default()
}

/// The `KNOWN-FINDING` lines of a property: those that still fail.
pub fn run(id: &str) -> Vec<String> {
    let mut lines = Vec::new();
    for f in file() {
        if f["property"] != id {
            continue;
        }
        let name = f["input"].as_str().unwrap();
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["known", name])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .unwrap();
        if st.signal().is_some() || st.code() == Some(3) {
            lines.push(format!("KNOWN-FINDING: property={id} {}", f["what_fails"].as_str().unwrap()));
        }
    }
    lines
}

/// Runs one finding's input; exit code 3 (or death by a signal) when it still fails.
pub fn one(name: &str) -> i32 {
    let name = name.to_string();
    crate::runner::on_stack(move || {
        let fails = match name.as_str() {
            // Dropping a tree recurses once per level.
            "deep-drop" => {
                let n = 1_000_000;
                let t = format!("{}{}", "[".repeat(n), "]".repeat(n));
                let y = yam_core::prelude::Yaml::load_from(t.as_str());
                std::hint::black_box(&y);
                drop(y);
                false
            }
            "deep-serde" => {
                let n = 1_000_000;
                let t = format!("{}{}", "[".repeat(n), "]".repeat(n));
                let v = yam_serde::from_str::<serde_json::Value>(&t);
                std::hint::black_box(&v);
                std::mem::forget(v);
                false
            }
            "deep-flow-keys" => crate::props::cost::grows(&|n| format!("{}{}", "{[".repeat(n / 7), "]: b}".repeat(n / 7))),
            // A plain scalar in a flow collection takes the indentation back to that of the block around.
            "flow-behind-plain" => crate::ev::parse("a: [x,\n\"b\"]\n").is_ok_and(|p| p.ok()),
            _ => {
                eprintln!("unknown finding {name}");
                return 2;
            }
        };
        if fails { 3 } else { 0 }
    })
}
