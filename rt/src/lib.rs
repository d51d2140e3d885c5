//! Runtime linked with the generated code of one world: simulator, reference model, oracles.
#![allow(clippy::all)]
pub mod alloc;
pub mod case;
pub mod json;
pub mod model;
pub mod peer;
pub mod prng;
pub mod props;
pub mod shrink;
pub mod sim;
pub mod stream;
pub mod value;

pub use value::Value;
use json::J;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{self, BufRead, Write};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

#[derive(Clone, Copy)]
pub struct Codec {
    pub ver: usize,
    pub ty: usize,
    pub enc: fn(&Value, &mut dyn Write, u8) -> io::Result<()>,
    pub size: fn(&Value) -> (usize, usize),
    pub dec: fn(&mut dyn BufRead, u8) -> io::Result<Value>,
    pub local: fn(&Value) -> Value,
}

pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// Arguments: --dir D --peer peer.js --prop P --seed S --runs N [--known A,B] [--trace FILE] [--case FILE] [--log FILE]
pub fn main(codecs: Vec<Codec>) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.starts_with("harness:") { eprintln!("{} at {:?}", m, i.location()); }
    }));
    // Liveness guard: a single case takes microseconds; if none finishes for 20 s the code under test hangs.
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            if n == last.0 { last.1 += 1; } else { last = (n, 0); }
            if last.1 >= 40 && n > 0 { std::process::exit(9); }
        }
    });
    let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || work(codecs)).unwrap();
    match h.join() {
        Ok(code) => std::process::exit(code),
        Err(e) => { eprintln!("harness: worker panicked: {:?}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))); std::process::exit(3) }
    }
}

fn work(codecs: Vec<Codec>) -> i32 {
    let dir = arg("--dir").unwrap();
    let w = value::WorldD::from_json(&J::parse(&std::fs::read_to_string(format!("{}/world.json", dir)).unwrap()));
    let mut ctx = props::Ctx {
        w,
        codecs: codecs.iter().map(|c| ((c.ver, c.ty), *c)).collect::<HashMap<_, _>>(),
        peer: Some(peer::Peer::start(&dir, &arg("--peer").unwrap())),
        known: arg("--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<HashSet<_>>(),
        stats: BTreeMap::new(),
        seen: HashSet::new(),
    };
    if let Some(f) = arg("--case") {
        let c = case::Case::from_json(&J::parse(&std::fs::read_to_string(f).unwrap()));
        return match ctx.exec(&c) {
            props::Out::Viol(k, m) => {
                println!("{}", J::Obj(vec![("class".into(), J::s(k)), ("msg".into(), J::s(m))]).text());
                1
            }
            props::Out::Known(k) => { println!("{}", J::Obj(vec![("known".into(), J::s(k))]).text()); 0 }
            props::Out::Skip(k) => { println!("{}", J::Obj(vec![("skip".into(), J::s(k))]).text()); 0 }
            props::Out::Ok => { println!("{}", J::Obj(vec![("ok".into(), J::Bool(true))]).text()); 0 }
        };
    }
    let prop = arg("--prop").unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let runs: u64 = arg("--runs").unwrap().parse().unwrap();
    let tracef = arg("--trace");
    let mut logf = arg("--log").map(|f| std::fs::File::create(f).unwrap());
    let mut viols: Vec<J> = vec![];
    let mut classes: HashSet<String> = HashSet::new();
    let mut samples: Vec<J> = vec![];
    for run in 0..runs {
        ctx.stats.remove("sim_ms_last");
        ctx.count("runs", 1);
        sim::run(&mut ctx, &prop, prng::mix(seed, run), |ctx, c| {
            if let Some(t) = &tracef { std::fs::write(t, c.to_json().text()).unwrap(); }
            ctx.count("evaluations", 1);
            let fp = sim::fingerprint(&c);
            ctx.seen.insert(fp);
            let o = ctx.exec(&c);
            if samples.is_empty() && run == runs / 2 { samples.push(c.to_json()); }
            if let Some(l) = &mut logf {
                let s = match &o { props::Out::Ok => "ok".to_string(), props::Out::Skip(s) => format!("skip {}", s), props::Out::Known(k) => format!("known {}", k), props::Out::Viol(k, _) => format!("viol {}", k) };
                writeln!(l, "{} {:016x} {}", c.time, fp, s).unwrap();
            }
            match o {
                props::Out::Ok => { ctx.count("decided", 1); }
                props::Out::Skip(s) => ctx.count(&format!("skipped_{}", s), 1),
                props::Out::Known(k) => ctx.count(&format!("known_{}", k), 1),
                props::Out::Viol(k, m) => {
                    ctx.count("violations", 1);
                    if classes.insert(k.clone()) && viols.len() < 3 {
                        let keep = ctx.stats.clone();
                        let (best, msg) = shrink::shrink(ctx, &c, &k, &m, 1500);
                        ctx.stats = keep;
                        viols.push(J::Obj(vec![
                            ("class".into(), J::s(&k)), ("msg".into(), J::s(msg)), ("run".into(), J::n(run)),
                            ("case".into(), best.to_json()), ("original".into(), c.to_json()),
                        ]));
                    }
                    if viols.len() >= 3 { return false; }
                }
            }
            true
        });
        if viols.len() >= 3 { break; }
    }
    ctx.stats.remove("sim_ms_last");
    let pc = ctx.peer.as_ref().map_or(0, |p| p.calls);
    ctx.count("typescript_calls", pc as usize);
    let st = ctx.stats.iter().map(|(k, v)| (k.clone(), J::n(v))).collect();
    println!("{}", J::Obj(vec![
        ("stats".into(), J::Obj(st)), ("distinct".into(), J::n(ctx.seen.len())),
        ("violations".into(), J::Arr(viols)), ("samples".into(), J::Arr(samples)),
    ]).text());
    0
}
