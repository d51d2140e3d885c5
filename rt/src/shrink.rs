//! Greedy minimisation of a failing case.
use crate::case::*;
use crate::props::*;
use crate::value::*;

fn shrink_val(w: &WorldD, ver: usize, t: &Ty, v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match (t, v) {
        (_, Value::N(x)) if *x > 0 => { out.push(Value::N(0)); if *x > 1 { out.push(Value::N(1)); out.push(Value::N(x / 2)); } }
        (_, Value::S(x)) if *x != 0 => { out.push(Value::S(0)); if x.unsigned_abs() > 1 { out.push(Value::S(x / 2)); } }
        (_, Value::F(x)) if *x != 0 => { out.push(Value::F(0)); if *x != 1f64.to_bits() { out.push(Value::F(1f64.to_bits())); } }
        (_, Value::B(true)) => out.push(Value::B(false)),
        (_, Value::Y(x)) if !x.is_empty() => { out.push(Value::Y(vec![])); out.push(Value::Y(x[..x.len() / 2].to_vec())); out.push(Value::Y(x[..x.len() - 1].to_vec())); if x.iter().any(|b| *b != 0) { out.push(Value::Y(vec![0; x.len()])); } }
        (_, Value::T(x)) if !x.is_empty() => {
            out.push(Value::T(String::new()));
            let cs: Vec<char> = x.chars().collect();
            out.push(Value::T(cs[..cs.len() / 2].iter().collect()));
            out.push(Value::T(cs[..cs.len() - 1].iter().collect()));
            if x.bytes().any(|b| b != b'a') { out.push(Value::T("a".repeat(x.len()))); }
        }
        (Ty::A(e), Value::A(x)) => {
            if !x.is_empty() {
                out.push(Value::A(vec![]));
                out.push(Value::A(x[..x.len() / 2].to_vec()));
                if x.len() <= 24 {
                    for k in 0..x.len() { let mut y = x.clone(); y.remove(k); out.push(Value::A(y)); }
                    for k in 0..x.len() { for s in shrink_val(w, ver, e, &x[k]).into_iter().take(4) { let mut y = x.clone(); y[k] = s; out.push(Value::A(y)); } }
                } else {
                    out.push(Value::A(x[..x.len() - 1].to_vec()));
                }
            }
        }
        (Ty::C(i), _) => return shrink_msg(w, ver, *i, v),
        _ => {}
    }
    out
}

fn shrink_msg(w: &WorldD, ver: usize, id: usize, v: &Value) -> Vec<Value> {
    let t = w.ty(ver, id);
    let mut out = vec![];
    match v {
        Value::St(x) => {
            for k in 0..x.len() {
                let f = t.field(x[k].0).expect("harness: field");
                if f.rule == Rule::Opt { let mut y = x.clone(); y.remove(k); out.push(Value::St(y)); }
            }
            for k in 0..x.len() {
                let f = t.field(x[k].0).expect("harness: field");
                for s in shrink_val(w, ver, &f.ty, &x[k].1) { let mut y = x.clone(); y[k].1 = s; out.push(Value::St(y)); }
            }
        }
        Value::C(i, p, f) => {
            if let Some(f) = f {
                out.push((**f).clone());
                for s in shrink_msg(w, ver, id, f) { out.push(Value::C(*i, p.clone(), Some(Box::new(s)))); }
            }
            let fd = t.field(*i).expect("harness: case");
            for s in shrink_val(w, ver, &fd.ty, p) { out.push(Value::C(*i, Box::new(s), f.clone())); }
        }
        _ => {}
    }
    out
}

fn candidates(ctx: &Ctx, c: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let mut add = |f: &dyn Fn(&mut Case)| { let mut d = c.clone(); f(&mut d); out.push(d); };
    if c.frames.len() > 1 { for k in 0..c.frames.len() { add(&|d| { d.frames.remove(k); }); } }
    if !c.w.chunks.is_empty() { add(&|d| d.w.chunks.clear()); }
    if c.w.chunks.len() > 1 { for k in 0..c.w.chunks.len() { add(&|d| { d.w.chunks.remove(k); }); } }
    if !c.w.intr.is_empty() { add(&|d| d.w.intr.clear()); }
    for k in 0..c.w.intr.len() { add(&|d| { d.w.intr.remove(k); }); }
    if !c.r.chunks.is_empty() { add(&|d| d.r.chunks.clear()); }
    if c.r.chunks.len() > 1 { for k in 0..c.r.chunks.len() { add(&|d| { d.r.chunks.remove(k); }); } }
    if !c.r2.chunks.is_empty() { add(&|d| d.r2.chunks.clear()); }
    if !c.r.rintr.is_empty() { add(&|d| d.r.rintr.clear()); }
    for k in 0..c.r.rintr.len() { add(&|d| { d.r.rintr.remove(k); }); }
    if !c.r.fintr.is_empty() { add(&|d| d.r.fintr.clear()); }
    if let Some(f) = &c.w.fault {
        if f.at > 0 { add(&|d| d.w.fault.as_mut().unwrap().at = 0); add(&|d| d.w.fault.as_mut().unwrap().at = f.at / 2); add(&|d| d.w.fault.as_mut().unwrap().at = f.at - 1); }
        if f.kind > 0 { add(&|d| d.w.fault.as_mut().unwrap().kind = 0); }
    }
    if let Some(f) = &c.r.fault {
        if f.at > 0 { add(&|d| d.r.fault.as_mut().unwrap().at = 0); add(&|d| d.r.fault.as_mut().unwrap().at = f.at / 2); add(&|d| d.r.fault.as_mut().unwrap().at = f.at - 1); }
        if f.kind > 0 { add(&|d| d.r.fault.as_mut().unwrap().kind = 0); }
    }
    if let Some(k) = c.cut { if k > 0 { add(&|d| d.cut = Some(k / 2)); add(&|d| d.cut = Some(k - 1)); } }
    if !c.pre.is_empty() { add(&|d| d.pre.clear()); }
    if !c.post.is_empty() { add(&|d| d.post.clear()); }
    if c.emode > 0 { add(&|d| d.emode = 0); }
    if c.dmode > 0 { add(&|d| d.dmode = 0); }
    match &c.raw {
        Some(b) if c.prop == "W10" => {
            let n = b.len();
            let mut step = n / 2;
            while step > 0 {
                let mut i = 0;
                while i < n { let e = (i + step).min(n); add(&|d| { d.raw.as_mut().unwrap().drain(i..e); }); i += step; }
                if step == 1 { break; }
                step /= 2;
                if n > 64 && step < n / 32 { break; }
            }
            for i in 0..n.min(48) { if b[i] != 0 { add(&|d| d.raw.as_mut().unwrap()[i] = 0); } }
        }
        Some(_) => {}
        None => {
            for k in 0..c.frames.len() {
                let vs = shrink_msg(&ctx.w, c.sver, c.frames[k].ty, &c.frames[k].val);
                for v in vs { add(&|d| d.frames[k].val = v.clone()); }
            }
        }
    }
    out
}

/// Returns the smallest case found, with its message. `budget` bounds the number of executions.
pub fn shrink(ctx: &mut Ctx, c: &Case, class: &str, msg: &str, mut budget: usize) -> (Case, String) {
    let (mut best, mut bmsg) = (c.clone(), msg.to_string());
    loop {
        let mut better = false;
        for d in candidates(ctx, &best) {
            if budget == 0 { return (best, bmsg); }
            budget -= 1;
            if let Out::Viol(k, m) = ctx.exec(&d) {
                if k == class { best = d; bmsg = m; better = true; break; }
            }
        }
        if !better { return (best, bmsg); }
    }
}

