//! The simulated cluster: nodes at (version, language), a network, durable storage, rolling upgrades.
//! One seed decides everything; the output is a sequence of cases in event order.
use crate::case::*;
use crate::model;
use crate::prng::*;
use crate::props::*;
use crate::stream::*;
use crate::value::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

struct Node { ver: usize, lang: u8, up: bool }

#[derive(Clone)]
struct Batch { frames: Vec<Frame>, sver: usize, slang: u8, src: usize, dst: usize, sent: u64 }

enum Ev { Send, Deliver(Batch), Upgrade(usize, usize), Crash(usize), Restart(usize), ReadStored(usize) }

struct Cfg {
    nodes: usize, sends: usize, drop: usize, dup: usize, store: usize, max_delay: usize, upgrades: usize,
    frames: usize, seg: usize, intr: bool, fintr: bool, chain: usize, big: bool, budget: isize, one_lang: Option<u8>, bom: bool, noise: usize,
}

fn adjacent(a: usize, b: usize) -> bool { a.abs_diff(b) <= 1 }

pub fn segs(r: &mut Rng, style: usize) -> Vec<usize> {
    match style {
        0 => vec![],
        1 => vec![1],
        2 => (0..r.range(1, 6)).map(|_| r.range(1, 3)).collect(),
        3 => (0..r.range(1, 5)).map(|_| r.range(1, 40)).collect(),
        4 => (0..r.range(2, 5)).map(|_| *r.pick(&[0, 1, 2, 7, 8, 9, 64, 4096])).collect(),
        _ => vec![*r.pick(&[2, 3, 5, 7, 8, 9, 16])],
    }
}

fn some_calls(r: &mut Rng, max: usize) -> Vec<usize> {
    let n = r.range(1, 4);
    let mut v: Vec<usize> = (0..n).map(|_| r.below(max)).collect();
    v.sort();
    v.dedup();
    v
}

pub fn run(ctx: &mut Ctx, prop: &str, seed: u64, mut emit: impl FnMut(&mut Ctx, Case) -> bool) {
    let mut r = Rng::new(seed);
    let nver = ctx.w.versions.len();
    let roots: Vec<usize> = ctx.w.roots.clone();
    let cfg = Cfg {
        nodes: r.range(2, 5),
        sends: r.range(12, 40),
        drop: *r.pick(&[0, 0, 5, 20]),
        dup: *r.pick(&[0, 0, 10, 30]),
        store: *r.pick(&[0, 10, 40]),
        max_delay: *r.pick(&[1, 50, 2000]),
        upgrades: r.range(2, 10),
        frames: if matches!(prop, "W01" | "W02" | "W04" | "W05" | "W08") { *r.pick(&[1, 2, 3, 5]) } else { 1 },
        seg: r.below(6),
        intr: r.chance(40),
        fintr: prop == "W01" && r.chance(8),
        chain: *r.pick(&[0, 1, 3, 8, 40]),
        big: r.chance(15),
        budget: *r.pick(&[20, 60, 200, 600]),
        one_lang: match prop {
            "W01" | "W02" => Some(u8::from(r.chance(40))),
            "W07" | "W11" => Some(0),
            _ => None,
        },
        bom: prop == "W11" || prop == "W07" || prop == "W08",
        noise: *r.pick(&[0, 30, 60]),
    };
    let same_ver = matches!(prop, "W01" | "W03" | "W06" | "W07" | "W11");
    let rolling = matches!(prop, "W04" | "W02" | "W08" | "W09");
    let base = r.below(nver);
    let mut nodes: Vec<Node> = (0..cfg.nodes).map(|i| Node {
        ver: if same_ver { base } else if rolling { (base + r.below(2)).min(nver - 1) } else { r.below(nver) },
        lang: cfg.one_lang.unwrap_or(if i < 2 { i as u8 } else { u8::from(r.chance(50)) }),
        up: true,
    }).collect();
    let mut q: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut evs: std::collections::HashMap<u64, Ev> = std::collections::HashMap::new();
    let mut seq = 0u64;
    let mut push = |q: &mut BinaryHeap<Reverse<(u64, u64)>>, evs: &mut std::collections::HashMap<u64, Ev>, at: u64, e: Ev| {
        seq += 1;
        evs.insert(seq, e);
        q.push(Reverse((at, seq)));
    };
    for _ in 0..cfg.sends { let at = r.below(10_000) as u64; push(&mut q, &mut evs, at, Ev::Send); }
    if !same_ver && nver > 1 {
        for _ in 0..cfg.upgrades {
            let (n, v, at) = (r.below(cfg.nodes), r.below(nver), r.below(10_000) as u64);
            push(&mut q, &mut evs, at, Ev::Upgrade(n, v));
        }
    }
    for _ in 0..r.below(3) {
        let (n, at) = (r.below(cfg.nodes), r.below(10_000) as u64);
        push(&mut q, &mut evs, at, Ev::Crash(n));
    }
    let mut stored: Vec<Batch> = vec![];
    let mut log: Vec<String> = vec![];
    let mut steps = 0;
    while let Some(Reverse((now, id))) = q.pop() {
        steps += 1;
        if steps > 2000 { break; }
        match evs.remove(&id).expect("harness: event") {
            Ev::Send => {
                let src = r.below(cfg.nodes);
                let mut dst = r.below(cfg.nodes);
                if prop == "W06" { dst = match (0..cfg.nodes).find(|d| nodes[*d].lang != nodes[src].lang) { Some(d) => d, None => continue }; }
                if !nodes[src].up { ctx.count("sends_by_crashed_node", 1); continue; }
                let (sver, slang) = (nodes[src].ver, nodes[src].lang);
                let n = r.range(1, cfg.frames);
                let mut frames = vec![];
                for _ in 0..n {
                    let mut ty = *r.pick(&roots);
                    if prop == "W05" && !ctx.w.has_choice(sver, ty) {
                        let cs: Vec<usize> = roots.iter().copied().filter(|t| ctx.w.has_choice(sver, *t)).collect();
                        if cs.is_empty() { continue; }
                        ty = *r.pick(&cs);
                    }
                    let ts_involved = slang == 1 || nodes.iter().any(|n| n.lang == 1);
                    let mut g = Gen { budget: cfg.budget, chain: cfg.chain, big: cfg.big, bom: cfg.bom && !ts_involved };
                    let w = &ctx.w;
                    let val = gen_msg(&mut r, w, sver, ty, &mut g);
                    frames.push(Frame { ty, val });
                }
                if frames.is_empty() { continue; }
                ctx.count("messages_sent", frames.len());
                let b = Batch { frames, sver, slang, src, dst, sent: now };
                if r.chance(cfg.store) {
                    ctx.count("messages_stored", b.frames.len());
                    stored.push(b);
                    let k = stored.len() - 1;
                    for _ in 0..r.range(1, 2) {
                        let at = now + r.below(50_000) as u64;
                        push(&mut q, &mut evs, at, Ev::ReadStored(k));
                    }
                    continue;
                }
                if r.chance(cfg.drop) { ctx.count("fault_message_dropped", 1); continue; }
                let at = now + r.range(1, cfg.max_delay) as u64;
                if r.chance(cfg.dup) {
                    ctx.count("fault_message_duplicated", 1);
                    let at2 = now + r.range(1, cfg.max_delay * 2) as u64;
                    push(&mut q, &mut evs, at2, Ev::Deliver(b.clone()));
                }
                if cfg.max_delay > 1 { ctx.count("fault_message_delayed", 1); }
                push(&mut q, &mut evs, at, Ev::Deliver(b));
            }
            Ev::Upgrade(n, v) => {
                if rolling {
                    // One step at a time, and never more than one version apart from the rest of the fleet.
                    let cur = nodes[n].ver;
                    let to = if v > cur { cur + 1 } else if v < cur { cur - 1 } else { continue };
                    if (0..cfg.nodes).any(|m| m != n && !adjacent(nodes[m].ver, to)) { continue; }
                    nodes[n].ver = to;
                } else {
                    nodes[n].ver = v;
                }
                ctx.count("upgrades_and_rollbacks", 1);
                log.push(format!("t={} node {} now at version {}", now, n, nodes[n].ver));
            }
            Ev::Crash(n) => {
                nodes[n].up = false;
                ctx.count("fault_node_crash", 1);
                log.push(format!("t={} node {} crashes", now, n));
                let at = now + r.range(1, 3000) as u64;
                push(&mut q, &mut evs, at, Ev::Restart(n));
            }
            Ev::Restart(n) => {
                nodes[n].up = true;
                log.push(format!("t={} node {} restarts", now, n));
            }
            Ev::ReadStored(k) => {
                let b = stored[k].clone();
                let dst = r.below(cfg.nodes);
                let mut b = b;
                b.dst = dst;
                if prop == "W06" && nodes[dst].lang == b.slang { continue; }
                ctx.count("stored_batches_read", 1);
                push(&mut q, &mut evs, now, Ev::Deliver(b));
            }
            Ev::Deliver(b) => {
                if !nodes[b.dst].up {
                    let at = now + r.range(100, 4000) as u64;
                    ctx.count("redelivered_after_crash", 1);
                    push(&mut q, &mut evs, at, Ev::Deliver(b));
                    continue;
                }
                let (rver, rlang) = (nodes[b.dst].ver, nodes[b.dst].lang);
                if prop == "W04" && !adjacent(b.sver, rver) { ctx.count("not_adjacent_by_delivery_time", 1); continue; }
                let mut c = Case {
                    prop: prop.to_string(), frames: b.frames.clone(), sver: b.sver, slang: b.slang, emode: r.below(3) as u8,
                    w: WPlan::default(), rver, rlang, dmode: r.below(3) as u8, r: RPlan::default(), r2: RPlan::default(),
                    raw: None, cut: None, pre: vec![], post: vec![], time: now, trace: vec![],
                };
                c.trace = log.iter().rev().take(12).rev().cloned().collect();
                c.trace.push(format!("t={} node {} (version {}, {}) sends {} frame(s)", b.sent, b.src, b.sver, if b.slang == 0 { "Rust" } else { "TypeScript" }, b.frames.len()));
                c.trace.push(format!("t={} node {} (version {}, {}) receives them", now, b.dst, rver, if rlang == 0 { "Rust" } else { "TypeScript" }));
                c.w.chunks = segs(&mut r, cfg.seg);
                let rs = r.below(6);
                let rs = if r.chance(50) { cfg.seg } else { rs };
                c.r.chunks = segs(&mut r, rs);
                if cfg.intr {
                    if r.chance(60) { c.w.intr = some_calls(&mut r, 30); }
                    if r.chance(60) { c.r.rintr = some_calls(&mut r, 40); }
                }
                if cfg.fintr { c.r.fintr = some_calls(&mut r, 20); }
                if rlang == 1 || prop == "W09" || prop == "W10" {
                    let n = r.below(12);
                    c.pre = (0..n).map(|_| r.u64() as u8).collect();
                    if matches!(prop, "W09" | "W10") && r.chance(85) { c.post = vec![]; } else {
                        let n = r.below(24);
                        c.post = (0..n).map(|_| r.u64() as u8).collect();
                    }
                }
                let go = faults(ctx, &mut r, &cfg, c, &mut emit);
                if !go { return; }
            }
        }
        ctx.stats.insert("sim_ms_last".into(), now);
    }
    let t = *ctx.stats.get("sim_ms_last").unwrap_or(&0);
    ctx.count("sim_ms", t as usize);
    ctx.count("events", steps);
}

fn pick_at(r: &mut Rng, len: usize) -> usize {
    match r.below(8) { 0 => 0, 1 => len, 2 => len.saturating_sub(1), _ => r.below(len + 1) }
}

/// Add the property's own faults to a delivery.
fn faults(ctx: &mut Ctx, r: &mut Rng, cfg: &Cfg, mut c: Case, emit: &mut impl FnMut(&mut Ctx, Case) -> bool) -> bool {
    let f = c.frames[0].clone();
    let whole = |ctx: &Ctx, c: &Case| -> usize { c.frames.iter().map(|f| model::encode(&ctx.w, c.sver, f.ty, &f.val).len()).sum() };
    match c.prop.as_str() {
        "W03" => {
            if r.chance(50) {
                c.raw = Some(model::encode_any(r, &ctx.w, c.sver, f.ty, &f.val, cfg.noise));
                c.trace.push("the sender is a foreign peer written from the document".into());
            }
            emit(ctx, c)
        }
        "W07" => {
            let len = whole(ctx, &c);
            let n = if len <= 12 { len + 2 } else { 8 };
            for i in 0..n {
                let mut d = c.clone();
                let at = if len <= 12 { i } else { pick_at(r, len) };
                if !r.chance(5) {
                    d.w.fault = Some(WFault { at, kind: r.below(KINDS.len()), zero: r.chance(25), sticky: r.chance(50) });
                }
                if !emit(ctx, d) { return false; }
            }
            true
        }
        "W08" => {
            c.rlang = 0;
            let len = whole(ctx, &c);
            let n = if len <= 12 { len + 2 } else { 8 };
            for i in 0..n {
                let mut d = c.clone();
                d.emode = 0;
                let at = if len <= 12 { i } else { pick_at(r, len) };
                d.r.fault = Some(RFault { at, kind: r.below(KINDS.len()), sticky: r.chance(50) });
                if !emit(ctx, d) { return false; }
            }
            true
        }
        "W09" => {
            let len = whole(ctx, &c);
            let n = if len <= 24 { len + 1 } else { 16 };
            for i in 0..n {
                let mut d = c.clone();
                d.cut = Some(if len <= 24 { i } else { pick_at(r, len) });
                if !emit(ctx, d) { return false; }
            }
            true
        }
        "W10" => {
            for _ in 0..6 {
                let mut d = c.clone();
                let noise = if r.chance(50) { 0 } else { cfg.noise };
                let mut b = model::encode_any(r, &ctx.w, c.sver, f.ty, &f.val, noise);
                let k = r.range(1, 3);
                for _ in 0..k { corrupt(ctx, r, &c, &mut b, &mut d.trace); }
                d.raw = Some(b);
                let s2 = r.below(6);
                d.r2.chunks = segs(r, s2);
                d.r.rintr.clear();
                d.emode = 0;
                if !emit(ctx, d) { return false; }
            }
            true
        }
        "W11" => {
            c.rlang = 0;
            c.r.fintr.clear();
            emit(ctx, c)
        }
        _ => emit(ctx, c),
    }
}

fn corrupt(ctx: &mut Ctx, r: &mut Rng, c: &Case, b: &mut Vec<u8>, tr: &mut Vec<String>) {
    let n = b.len();
    let op = r.below(12);
    let what = match op {
        0 | 1 if n > 0 => { let (i, k) = (r.below(n), r.below(8)); b[i] ^= 1 << k; format!("bit {} of byte {} flips", k, i) }
        2 if n > 0 => { let (i, x) = (r.below(n), *r.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff, 5, 7, 9])); b[i] = x; format!("byte {} becomes {}", i, x) }
        3 if n > 0 => { let (i, l) = (r.below(n), r.range(1, 9)); let e = (i + l).min(n); b.drain(i..e); format!("bytes {}..{} are lost", i, e) }
        4 if n > 0 => { let (i, l) = (r.below(n), r.range(1, 16)); let e = (i + l).min(n); let x = b[i..e].to_vec(); let p = r.below(n + 1); b.splice(p..p, x); format!("bytes {}..{} are duplicated at {}", i, e, p) }
        5 if n > 0 => { let (i, l) = (r.below(n), r.range(1, 64)); let e = (i + l).min(n); for x in &mut b[i..e] { *x = 0; } format!("bytes {}..{} are zeroed", i, e) }
        6 if n > 0 => { let k = r.below(n); b.truncate(k); format!("the tail from {} is lost", k) }
        7 => { let k = r.range(1, 24); for _ in 0..k { let x = r.u64() as u8; b.push(x); } format!("{} garbage bytes follow", k) }
        8 => {
            let ty = *r.pick(&ctx.w.roots.clone());
            let mut g = Gen { budget: 30, chain: 2, big: false, bom: false };
            let ver = c.rver;
            let v = gen_msg(r, &ctx.w, ver, ty, &mut g);
            let o = model::encode(&ctx.w, ver, ty, &v);
            let (p, s) = (r.below(n + 1), r.below(o.len() + 1));
            b.truncate(p);
            b.extend_from_slice(&o[s..]);
            format!("spliced at {} with another message from its byte {}", p, s)
        }
        9 => {
            // A header of a known field, with an arbitrary size mode and announced size.
            let t = ctx.w.ty(c.rver, c.frames[0].ty);
            let idx = if t.fields.is_empty() || r.chance(20) { r.below(70) as u64 } else { r.pick(&t.fields).idx };
            let mut h = vec![];
            let mode = r.below(4) as u64;
            model::varint((idx << 2) | mode, &mut h);
            if mode == 3 { let s = if r.chance(70) { r.below(40) as u64 } else { gen_u(r) }; model::varint(s, &mut h); }
            let k = r.below(10);
            for _ in 0..k { let x = r.u64() as u8; h.push(x); }
            let p = if r.chance(50) { 0 } else { r.below(n + 1) };
            let hl = h.len();
            b.splice(p..p, h);
            format!("{} bytes of a forged field appear at {}", hl, p)
        }
        10 => { let k = r.below(40); *b = (0..k).map(|_| r.u64() as u8).collect(); format!("{} random bytes replace the message", k) }
        _ => { let p = r.below(n + 1); let mut h = vec![]; let x = gen_u(r); model::varint(x, &mut h); let hl = h.len(); let e = (p + hl).min(n); b.splice(p..e, h); format!("a varint for {} overwrites byte {}", x, p) }
    };
    ctx.count(["fault_bit_flip", "fault_bit_flip", "fault_byte_set", "fault_bytes_lost", "fault_bytes_duplicated", "fault_zeroed_block", "fault_torn_message", "fault_trailing_garbage", "fault_splice", "fault_forged_header", "fault_random_bytes", "fault_forged_varint"][op], 1);
    tr.push(what);
}

/// A coarse fingerprint of a delivery, for the distinct-interleavings measure.
pub fn fingerprint(c: &Case) -> u64 {
    let mut h = mix(c.prop.len() as u64, c.sver as u64 | (c.slang as u64) << 8 | (c.rver as u64) << 16 | (c.rlang as u64) << 24 | (c.emode as u64) << 32 | (c.dmode as u64) << 40);
    for f in &c.frames { h = f.val.shape(mix(h, f.ty as u64)); }
    let cls = |v: &Vec<usize>| if v.is_empty() { 0 } else { mix(v.len() as u64, v[0] as u64) };
    h = mix(h, cls(&c.w.chunks));
    h = mix(h, cls(&c.r.chunks));
    h = mix(h, (c.w.intr.len() + 10 * c.r.rintr.len() + 100 * c.r.fintr.len()) as u64);
    if let Some(f) = &c.w.fault { h = mix(h, f.at as u64 * 64 + f.kind as u64 * 4 + u64::from(f.zero) * 2 + u64::from(f.sticky)); }
    if let Some(f) = &c.r.fault { h = mix(h, f.at as u64 * 64 + f.kind as u64 * 4 + u64::from(f.sticky)); }
    if let Some(k) = c.cut { h = mix(h, k as u64); }
    if let Some(b) = &c.raw { for x in b { h = mix(h, u64::from(*x)); } }
    h
}
