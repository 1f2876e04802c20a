mod engine;
mod ev;
mod huge;
mod known;
mod model;
mod peer;
mod props;
mod regress;
mod render;
mod runner;
mod schema;
mod text;
use engine::*;
use std::path::Path;
use yam_core::prelude::*;

#[global_allocator]
static ALLOC: props::cost::Counting = props::cost::Counting;

fn prop(id: &str) -> &'static runner::Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn stdin() -> String {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    text
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    ev::install_panic_hook();
    let a = |i: usize| args.get(i).map_or("", String::as_str);
    let n = |i: usize| a(i).parse::<u64>().unwrap();
    let env = |k: &str| std::env::var(k).ok();
    match a(1) {
        "check" => {
            let tier = if env("VERIF_TIER").as_deref() == Some("thorough") || a(3) == "thorough" { "thorough" } else { "quick" };
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(runner::check(prop(a(2)), tier, seed));
        }
        "worker" => runner::worker(prop(a(2)), n(3), n(4), n(5), n(6), n(7), Path::new(a(8))),
        "one" => std::process::exit(runner::one(prop(a(2)), Path::new(a(3)))),
        "log" => runner::log_case(prop(a(2)), n(3), n(4), Path::new(a(5))),
        "desc" => runner::desc(prop(a(2)), Path::new(a(3))),
        "gen" => runner::gen_cases(prop(a(2)), n(3), n(4)),
        "fixed" => runner::fixed(prop(a(2))),
        "serve" => {
            runner::limits();
            runner::on_stack(peer::serve);
        }
        "known" => std::process::exit(known::one(a(2))),
        "replay" => std::process::exit(runner::replay(props::PROPS, Path::new(a(2)))),
        "errors" => {
            for (e, k) in props::reject::errors(n(2)) {
                println!("{k:8} {e}");
            }
        }
        "got" => print!("{}", stdin().split('\u{1}').map(regress::got).collect::<Vec<_>>().join("\u{1}")),
        "dump" => {
            for chunk in stdin().split('\u{1}') {
                println!("INPUT {chunk:?}");
                match ev::parse(chunk) {
                    Ok(p) => {
                        println!("  EV {}", ev::show(&p.evs));
                        if args.len() > 2 {
                            for (e, s) in p.evs.iter().zip(&p.spans) {
                                println!("   {} {:?}..{:?}", ev::show_ev(e), (s.start.pos, s.start.line, s.start.col), (s.end.pos, s.end.line, s.end.col));
                            }
                        }
                        if let Some(e) = p.err {
                            println!("  ERR {e:?}");
                        }
                    }
                    Err(e) => println!("  !! {e}"),
                }
                match ev::guarded(chunk.len(), || Yaml::load_from(chunk).map(|v| format!("{v:?}")).map_err(|e| format!("{e:?}"))) {
                    Ok(x) => println!("  LOAD {x:?}"),
                    Err(e) => println!("  LOAD!! {e}"),
                }
            }
        }
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
    let _ = hash_bytes(b"");
}
