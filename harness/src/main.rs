// built for one check only, most of it is not used
#![cfg_attr(feature = "one", allow(dead_code, unused_imports))]
mod alloc;
mod bridge;
#[cfg(feature = "broker")]
mod broker;
mod codec;
mod cost;
mod engine;
#[cfg(feature = "broker")]
mod fair;
#[cfg(feature = "broker")]
mod form;
mod gen;
#[cfg(feature = "broker")]
mod hist;
#[cfg(feature = "broker")]
mod net;
mod refcodec;
#[cfg(feature = "broker")]
mod rest;
#[cfg(feature = "broker")]
mod topics;
#[cfg(feature = "broker")]
mod tools;

use engine::{Check, Settings};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn check(id: &str) -> Option<Check> {
    Some(match id {
        #[cfg(any(not(feature = "one"), feature = "C01"))]
        "C01" => codec::c01(),
        #[cfg(any(not(feature = "one"), feature = "C02"))]
        "C02" => codec::c02(),
        #[cfg(any(not(feature = "one"), feature = "C03"))]
        "C03" => codec::c03(),
        #[cfg(any(not(feature = "one"), feature = "C04"))]
        "C04" => codec::c04(),
        #[cfg(any(not(feature = "one"), feature = "C05"))]
        "C05" => codec::c05(),
        #[cfg(any(not(feature = "one"), feature = "C06"))]
        "C06" => codec::c06(),
        #[cfg(any(not(feature = "one"), feature = "C07"))]
        "C07" => codec::c07(),
        #[cfg(any(not(feature = "one"), feature = "C08"))]
        "C08" => codec::c08(),
        #[cfg(any(not(feature = "one"), feature = "C09"))]
        "C09" => codec::c09(),
        #[cfg(any(not(feature = "one"), feature = "C10"))]
        "C10" => codec::c10(),
        #[cfg(any(not(feature = "one"), feature = "C11"))]
        "C11" => codec::c11(),
        #[cfg(any(not(feature = "one"), feature = "C12"))]
        "C12" => codec::c12(),
        #[cfg(any(not(feature = "one"), feature = "C13"))]
        "C13" => cost::c13(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "T01")))]
        "T01" => topics::t01(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "T02")))]
        "T02" => topics::t02(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "T03")))]
        "T03" => topics::t03(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "T04")))]
        "T04" => topics::t04(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "T05")))]
        "T05" => cost::t05(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "T06")))]
        "T06" => cost::t06(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B01")))]
        "B01" => broker::b01(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B02")))]
        "B02" => broker::b02(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B03")))]
        "B03" => broker::b03(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B04")))]
        "B04" => broker::b04(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B05")))]
        "B05" => broker::b05(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B06")))]
        "B06" => broker::b06(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B07")))]
        "B07" => broker::b07(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B08")))]
        "B08" => broker::b08(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B09")))]
        "B09" => broker::b09(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B10")))]
        "B10" => broker::b10(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B11")))]
        "B11" => broker::b11(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B12")))]
        "B12" => broker::b12(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B13")))]
        "B13" => broker::b13(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B14")))]
        "B14" => broker::b14(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B15")))]
        "B15" => broker::b15(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B18")))]
        "B18" => broker::b18(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B19")))]
        "B19" => rest::b19(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B20")))]
        "B20" => rest::b20(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B21")))]
        "B21" => rest::b21(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B23")))]
        "B23" => fair::b23(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B22")))]
        "B22" => cost::b22(),
        #[cfg(all(all(feature = "broker", not(feature = "noise")), any(not(feature = "one"), feature = "B16")))]
        "B16" => broker::b16(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "B17")))]
        "B17" => broker::b17(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "S01")))]
        "S01" => tools::s01(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "S02")))]
        "S02" => rest::s02(),
        #[cfg(all(feature = "broker", any(not(feature = "one"), feature = "M01")))]
        "M01" => tools::m01(),
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mut replay = None;
    let mut only = None;
    let mut scale = 1.0;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                replay = args.get(i + 1).cloned();
                i += 1;
            }
            "--only" => {
                only = args.get(i + 1).cloned();
                i += 1;
            }
            "--scale" => {
                scale = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(1.0);
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let settings = Settings {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
        replay,
        scale,
        only,
    };
    #[cfg(feature = "broker")]
    if id.starts_with('S') && std::env::var_os("HARNESS_CHILD").is_some() {
        net::own_user_namespace();
    }
    let code = match check(&id) {
        Some(_) if std::env::var_os("HARNESS_CHILD").is_none() => engine::supervise(&id, &settings),
        Some(c) => engine::run_check(c, &settings),
        None => {
            println!("ERROR unknown check {}", id);
            2
        }
    };
    std::process::exit(code);
}
