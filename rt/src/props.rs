//! Execution of one case against the real generated code, and the oracles.
use crate::alloc;
use crate::case::*;
use crate::model;
use crate::peer::*;
use crate::stream::*;
use crate::value::*;
use crate::Codec;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{ErrorKind, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Out {
    Ok,
    /// Nothing to decide (the case falls outside the property).
    Skip(&'static str),
    /// A recorded finding, recognised by its predicate.
    Known(&'static str),
    Viol(String, String),
}

pub struct Ctx {
    pub w: WorldD,
    pub codecs: HashMap<(usize, usize), Codec>,
    pub peer: Option<Peer>,
    pub known: HashSet<String>,
    pub stats: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
}

type V<T> = Result<T, Out>;
fn viol<T>(class: &str, msg: String) -> V<T> { Err(Out::Viol(class.to_string(), msg)) }

/// A panic inside the code under test, as text.
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("harness:") { std::panic::resume_unwind(e); }
            Err(m)
        }
    }
}

/// NaNs count as one value.
pub fn norm(v: &Value) -> Value {
    match v {
        Value::F(x) if f64::from_bits(*x).is_nan() => Value::F(f64::NAN.to_bits()),
        Value::A(x) => Value::A(x.iter().map(norm).collect()),
        Value::St(x) => Value::St(x.iter().map(|(i, p)| (*i, norm(p))).collect()),
        Value::C(i, p, f) => Value::C(*i, Box::new(norm(p)), f.as_ref().map(|f| Box::new(norm(f)))),
        _ => v.clone(),
    }
}

pub fn same(a: &Value, b: &Value) -> bool { a == b || norm(a) == norm(b) }

fn brief(v: &Value) -> String {
    let s = v.to_json().text();
    if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1; } format!("{}…", &s[..k]) } else { s }
}

#[derive(Debug, PartialEq, Clone)]
enum Got { Val(Value), Err(ErrorKind, String) }

impl Ctx {
    pub fn count(&mut self, k: &str, n: usize) {
        if n > 0 { *self.stats.entry(k.to_string()).or_insert(0) += n as u64; }
    }
    fn codec(&self, ver: usize, ty: usize) -> Codec { *self.codecs.get(&(ver, ty)).expect("harness: codec") }

    /// Encode one message on an ideal writer.
    pub fn plain(&mut self, lang: u8, ver: usize, ty: usize, mode: u8, v: &Value) -> V<(usize, Vec<u8>)> {
        if lang == 1 {
            return match self.peer.as_mut().expect("harness: peer").encode(ver, ty, mode, v) {
                Ok(x) => Ok(x),
                Err(m) => viol("encode/ts", format!("TypeScript serialization failed: {}", m)),
            };
        }
        let c = self.codec(ver, ty);
        let mut out: Vec<u8> = vec![];
        let r = guard(|| (c.enc)(v, &mut out, mode).map(|()| (c.size)(v)));
        match r {
            Ok(Ok((a, b))) => {
                if a != b { return viol("size/atlas", format!("size() is {} but atlas().size() is {}", a, b)); }
                Ok((a, out))
            }
            Ok(Err(e)) => viol("encode/error", format!("serialization to a healthy writer failed: {:?}", e)),
            Err(m) => viol("encode/panic", format!("serialization panicked: {}", m)),
        }
    }

    /// Send all frames over one connection. Returns per frame (announced size, bytes).
    fn send(&mut self, c: &Case) -> V<Vec<(usize, Vec<u8>)>> {
        let mut out = vec![];
        if c.slang == 1 {
            for f in &c.frames { out.push(self.plain(1, c.sver, f.ty, c.emode, &f.val)?); }
            return Ok(out);
        }
        let mut w = SimWriter::new(&c.w);
        for f in &c.frames {
            let k = self.codec(c.sver, f.ty);
            let start = w.out.len();
            match guard(|| (k.enc)(&f.val, &mut w, c.emode)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return viol("encode/error", format!("serialization to a writer that only chunks and interrupts failed: {:?}", e)),
                Err(m) => return viol("encode/panic", format!("serialization panicked: {}", m)),
            }
            let (a, b) = guard(|| (k.size)(&f.val)).map_err(|m| Out::Viol("encode/panic".into(), m))?;
            if a != b { return viol("size/atlas", format!("size() is {} but atlas().size() is {}", a, b)); }
            out.push((a, w.out[start..].to_vec()));
        }
        self.count("write_calls", w.calls);
        self.count("fault_write_interrupted", w.intrs);
        if !c.w.chunks.is_empty() { self.count("fault_short_writes_stream", 1); }
        Ok(out)
    }

    fn tally_reader(&mut self, r: &SimReader) {
        let (calls, ri, fi, fired, ch) = (r.calls, r.rintrs, r.fintrs, r.fired, !r.plan.chunks.is_empty());
        self.count("read_calls", calls);
        self.count("fault_read_interrupted", ri);
        self.count("fault_fill_buf_interrupted", fi);
        self.count("fault_read_error", fired);
        if ch { self.count("fault_segmented_stream", 1); }
    }

    fn ts_decode(&mut self, ver: usize, ty: usize, mode: u8, pre: &[u8], b: &[u8], post: &[u8]) -> V<Got> {
        match self.peer.as_mut().expect("harness: peer").decode(ver, ty, mode, pre, b, post) {
            Reply::Value(v) => Ok(Got::Val(v)),
            Reply::Error(m) => Ok(Got::Err(ErrorKind::Other, m)),
            Reply::Threw(m) => viol("ts/threw", format!("deserialize threw instead of returning an error: {}", m)),
            Reply::Bad(m) => viol("ts/shape", format!("deserialize returned a malformed message: {}", m)),
        }
    }

    fn rs_decode(&mut self, ver: usize, ty: usize, mode: u8, r: &mut dyn std::io::BufRead) -> V<Got> {
        let k = self.codec(ver, ty);
        match guard(|| (k.dec)(r, mode)) {
            Ok(Ok(v)) => Ok(Got::Val(v)),
            Ok(Err(e)) => Ok(Got::Err(e.kind(), e.to_string())),
            Err(m) if m == LIVELOCK => viol("decode/livelock", "deserialization polls the end of the stream forever".into()),
            Err(m) => viol("decode/panic", format!("deserialization panicked: {}", m)),
        }
    }

    /// Receive frames from one connection; `sizes` are the announced ones. Each frame's outcome, and
    /// whether the frame was consumed exactly.
    fn recv(&mut self, c: &Case, frames: &[(usize, usize, Vec<u8>)]) -> V<Vec<Got>> {
        let mut out = vec![];
        if c.rlang == 1 {
            for (i, (ty, _, b)) in frames.iter().enumerate() {
                let pre: Vec<u8> = if i > 0 { frames[i - 1].2.clone() } else { c.pre.clone() };
                let post: Vec<u8> = if i + 1 < frames.len() { frames[i + 1].2.clone() } else { c.post.clone() };
                out.push(self.ts_decode(c.rver, *ty, c.dmode, &pre, b, &post)?);
            }
            return Ok(out);
        }
        let all: Vec<u8> = frames.iter().flat_map(|f| f.2.clone()).collect();
        let mut r = SimReader::new(&all, &c.r);
        if frames.len() == 1 {
            let g = self.rs_decode(c.rver, frames[0].0, c.dmode, &mut r)?;
            if let Got::Val(_) = g {
                if r.pos != all.len() { return viol("consume", format!("a successful decode consumed {} of {} bytes", r.pos, all.len())); }
            }
            out.push(g);
        } else {
            let mut start = 0;
            for (ty, size, _) in frames {
                let mut t = Read::take(&mut r, *size as u64);
                let g = self.rs_decode(c.rver, *ty, c.dmode, &mut t)?;
                let left = t.limit();
                let ok = matches!(g, Got::Val(_));
                out.push(g);
                if ok && left != 0 { return viol("consume", format!("a successful decode left {} bytes of its frame of {} unread", left, size)); }
                start += size;
                // The application drops what is left of a frame it could not decode.
                if !ok { let _ = std::io::copy(&mut t, &mut std::io::sink()); }
                if r.pos != start { return viol("consume", format!("a successful decode ended at byte {} of the connection, its frame at {}", r.pos, start)); }
            }
        }
        self.tally_reader(&r);
        Ok(out)
    }

    fn expect(&self, c: &Case, f: &Frame) -> Result<Value, String> {
        if c.sver == c.rver { return Ok(model::to_in(&self.w, c.sver, f.ty, &f.val)); }
        let b = model::encode(&self.w, c.sver, f.ty, &f.val);
        model::decode(&self.w, c.rver, f.ty, &b)
    }

    fn probes(&mut self, b: &[u8]) {
        if let Ok(ps) = model::split(b) {
            for p in ps {
                let k = match (p.head.len(), p.body.len()) { (_, 0) => "probe_size0_field", (_, 8) => "probe_size8_field", _ => "probe_other_field" };
                self.count(k, 1);
                if p.idx >= 32 { self.count("probe_two_byte_tag", 1); }
                if p.body.len() >= 128 { self.count("probe_two_byte_size", 1); }
            }
        }
    }

    pub fn exec(&mut self, c: &Case) -> Out {
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let r = match c.prop.as_str() {
            "W07" => self.w07(c),
            "W08" => self.w08(c),
            "W09" => self.w09(c),
            "W10" => self.w10(c),
            "W11" => self.w11(c),
            _ => self.deliver(c),
        };
        match r {
            Ok(()) => Out::Ok,
            Err(o) => o,
        }
    }

    /// W01..W06: one batch of frames over one connection.
    fn deliver(&mut self, c: &Case) -> V<()> {
        let p = c.prop.as_str();
        let mut wire: Vec<(usize, usize, Vec<u8>)> = vec![];
        if let Some(raw) = &c.raw {
            // A foreign peer, written from the document, sent this.
            wire.push((c.frames[0].ty, raw.len(), raw.clone()));
            self.count("foreign_messages", 1);
        } else {
            let sent = self.send(c)?;
            for (f, (n, b)) in c.frames.iter().zip(&sent) {
                self.probes(b);
                if p == "W02" && *n != b.len() { return viol("size/announced", format!("announced {} bytes but wrote {}", n, b.len())); }
                if p == "W01" {
                    let mode = if c.slang == 1 { 0 } else { 2 };
                    let (_, again) = self.plain(c.slang, c.sver, f.ty, mode, &f.val)?;
                    if again != *b { return viol("repeat", format!("serializing again gave {} instead of {}", hex(&again), hex(b))); }
                }
                if p == "W03" {
                    model::verify(&self.w, c.sver, f.ty, &f.val, b).or_else(|m| viol("format", format!("not the documented encoding: {} (wire {})", m, hex(&b[..b.len().min(200)]))))?;
                }
                if p == "W06" {
                    let (n2, _) = self.plain(1 - c.slang, c.sver, f.ty, 0, &f.val)?;
                    if n2 != *n { return viol("size/languages", format!("announced sizes differ between the languages: {} and {}", n, n2)); }
                }
                // A frame is as long as the sender announced: that is what the length prefix says.
                wire.push((f.ty, if p == "W02" { *n } else { b.len() }, b.clone()));
            }
        }
        let got = self.recv(c, &wire)?;
        for (i, f) in c.frames.iter().enumerate() {
            let want = self.expect(c, f);
            let g = match got.get(i) { Some(g) => g, None => break };
            match (&want, g) {
                (Ok(x), Got::Val(v)) => {
                    if !same(x, v) { return viol("value", format!("frame {}: received {} instead of {}", i, brief(v), brief(x))); }
                }
                (Ok(_), Got::Err(ErrorKind::Interrupted, _)) if c.rlang == 0 && !c.r.fintr.is_empty() => {
                    // KF7: an interruption of fill_buf surfaces. Delivering again must work.
                    let mut c2 = c.clone();
                    c2.r.fintr.clear();
                    let again = self.recv(&c2, &wire)?;
                    if let Some(Got::Val(v)) = again.get(i) {
                        if same(want.as_ref().unwrap(), v) && self.known.contains("KF7") { return Err(Out::Known("KF7")); }
                    }
                    return viol("interrupted", "an interruption of the reader surfaced as an error".into());
                }
                (Ok(x), Got::Err(k, m)) => return viol("rejected", format!("frame {}: {:?} {} instead of {}", i, k, m, brief(x))),
                (Err(m), g) => {
                    // The document assigns no value (no recognized case, missing required field).
                    if p == "W04" { return viol("harness", format!("the model rejects an adjacent version's message: {}", m)); }
                    if let Got::Val(v) = g {
                        return viol("value", format!("frame {}: received {} where the document assigns no value ({})", i, brief(v), m));
                    }
                    self.count("undecodable_by_design", 1);
                }
            }
        }
        Ok(())
    }

    fn w07(&mut self, c: &Case) -> V<()> {
        let f = &c.frames[0];
        let k = self.codec(c.sver, f.ty);
        let (_, good) = self.plain(0, c.sver, f.ty, 0, &f.val)?;
        let mut w = SimWriter::new(&c.w);
        let r = guard(|| (k.enc)(&f.val, &mut w, c.emode)).map_err(|m| Out::Viol("encode/panic".into(), format!("serialization panicked: {}", m)))?;
        self.count("write_calls", w.calls);
        self.count("fault_write_interrupted", w.intrs);
        let ft = c.w.fault.clone().unwrap_or(WFault { at: usize::MAX, kind: 0, zero: false, sticky: true });
        if w.fired > 0 { self.count(if ft.zero { "fault_write_zero" } else { "fault_write_error" }, w.fired); }
        if !good.starts_with(&w.out) { return viol("prefix", format!("the writer accepted {} which is no prefix of {}", hex(&w.out), hex(&good))); }
        match r {
            Ok(()) => {
                if w.fired > 0 { return viol("swallowed", format!("serialization reported success although the writer {} after {} of {} bytes", if ft.zero { "stopped accepting" } else { "failed" }, ft.at, good.len())); }
                if w.out.len() != good.len() { return viol("short", format!("serialization reported success after {} of {} bytes", w.out.len(), good.len())); }
            }
            Err(e) => {
                if w.fired == 0 { return viol("invented", format!("serialization failed with {:?} although the writer did not", e)); }
                let want = if ft.zero { ErrorKind::WriteZero } else { KINDS[ft.kind].1 };
                if e.kind() != want { return viol("kind", format!("the writer failed with {:?} but serialization with {:?}", want, e.kind())); }
            }
        }
        let (_, again) = self.plain(0, c.sver, f.ty, c.emode, &f.val)?;
        if again != good { return viol("retry", "serializing again to a healthy writer gave a different message".into()); }
        Ok(())
    }

    fn w08(&mut self, c: &Case) -> V<()> {
        let mut wire = vec![];
        for f in &c.frames {
            let (n, b) = self.plain(c.slang, c.sver, f.ty, 0, &f.val)?;
            wire.push((f.ty, n, b));
        }
        let all: Vec<u8> = wire.iter().flat_map(|f| f.2.clone()).collect();
        let kind = c.r.fault.as_ref().map_or(ErrorKind::Other, |f| KINDS[f.kind].1);
        let mut r = SimReader::new(&all, &c.r);
        for (i, (ty, n, _)) in wire.iter().enumerate() {
            let g = if wire.len() == 1 { self.rs_decode(c.rver, *ty, c.dmode, &mut r)? } else {
                let mut t = Read::take(&mut r, *n as u64);
                self.rs_decode(c.rver, *ty, c.dmode, &mut t)?
            };
            let want = self.expect(c, &c.frames[i]);
            match g {
                Got::Val(v) => {
                    if r.fired > 0 { return viol("swallowed", format!("deserialization returned {} although the reader failed with {:?} after {} bytes", brief(&v), kind, c.r.fault.as_ref().unwrap().at)); }
                    match want {
                        Ok(x) if same(&x, &v) => {}
                        Ok(x) => return viol("value", format!("received {} instead of {}", brief(&v), brief(&x))),
                        Err(m) => return viol("value", format!("received {} where no value is assigned ({})", brief(&v), m)),
                    }
                }
                Got::Err(k, m) => {
                    if r.fired == 0 {
                        if want.is_err() { break; }
                        return viol("invented", format!("deserialization failed with {:?} {} although the reader did not", k, m));
                    }
                    if k != kind { return viol("kind", format!("the reader failed with {:?} but deserialization with {:?} {}", kind, k, m)); }
                    // The same message from a healthy reader.
                    let mut r2 = SimReader::new(&wire[i].2, &RPlan::default());
                    match (self.rs_decode(c.rver, *ty, c.dmode, &mut r2)?, want) {
                        (Got::Val(v), Ok(x)) if same(&x, &v) => {}
                        (Got::Err(..), Err(_)) => {}
                        (g, _) => return viol("retry", format!("a healthy reader then gave {:?}", g)),
                    }
                    break;
                }
            }
        }
        self.tally_reader(&r);
        Ok(())
    }

    fn w09(&mut self, c: &Case) -> V<()> {
        let f = &c.frames[0];
        let (_, full) = self.plain(c.slang, c.sver, f.ty, 0, &f.val)?;
        let want = match self.expect(c, f) { Ok(x) => x, Err(_) => return Err(Out::Skip("undecodable_by_design")) };
        let cut = c.cut.unwrap_or(0).min(full.len());
        let b = &full[..cut];
        self.count("fault_torn_message", 1);
        let pr = model::probe(&self.w, c.rver, f.ty, b);
        if c.rlang == 0 && pr.skip_past_eof && self.known.contains("KF4") { return Err(Out::Known("KF4")); }
        let over = c.rlang == 1 && !c.post.is_empty() && c.dmode != 0 && model::ts_probe(&self.w, c.rver, f.ty, b).0;
        if over && self.w.has_unit_array(c.rver, f.ty) && self.known.contains("KF12") { return Err(Out::Known("KF12")); }
        let g = if c.rlang == 1 {
            self.ts_decode(c.rver, f.ty, c.dmode, &c.pre, b, &c.post)
        } else {
            let mut r = SimReader::new(b, &c.r);
            let g = self.rs_decode(c.rver, f.ty, c.dmode, &mut r);
            self.tally_reader(&r);
            g
        };
        let g = g?;
        match g {
            Got::Err(..) => { self.count("torn_rejected", 1); Ok(()) }
            Got::Val(v) => {
                self.count("torn_accepted", 1);
                match model::prefix(&self.w, c.rver, f.ty, &norm(&v), &norm(&want)) {
                    Ok(()) => Ok(()),
                    Err(_) if over && self.known.contains("KF12") => Err(Out::Known("KF12")),
                    Err(m) => viol("torn", format!("the first {} of {} bytes decoded to {}: {}", cut, full.len(), brief(&v), m)),
                }
            }
        }
    }

    fn w10(&mut self, c: &Case) -> V<()> {
        let f = &c.frames[0];
        let b = c.raw.as_ref().expect("harness: raw").clone();
        let pr = model::probe(&self.w, c.rver, f.ty, &b);
        if pr.units > 1 << 16 { return Err(Out::Skip("unit_array")); }
        if pr.chain > 3000 && self.known.contains("KF6") { return Err(Out::Known("KF6")); }
        if c.rlang == 0 && pr.skip_past_eof && self.known.contains("KF4") { return Err(Out::Known("KF4")); }
        if c.rlang == 1 {
            let (over, units) = model::ts_probe(&self.w, c.rver, f.ty, &b);
            if units > 1 << 16 { return Err(Out::Skip("unit_array")); }
            let a = self.ts_decode(c.rver, f.ty, 0, &[], &b, &[])?;
            for mode in [1u8, 2] {
                if over && !c.post.is_empty() && self.known.contains("KF12") { return Err(Out::Known("KF12")); }
                let d = self.ts_decode(c.rver, f.ty, mode, &c.pre, &b, &c.post)?;
                let ok = match (&a, &d) { (Got::Val(x), Got::Val(y)) => same(x, y), (Got::Err(..), Got::Err(..)) => true, _ => false };
                if !ok {
                    return viol("ts/view", format!("decoding a view of a larger buffer gave {:?}, decoding the bytes alone {:?}", d, a));
                }
            }
            self.count(if matches!(a, Got::Val(_)) { "corrupt_accepted" } else { "corrupt_rejected" }, 1);
            return Ok(());
        }
        if pr.reserve >= 1 << 27 && self.known.contains("KF5") { return Err(Out::Known("KF5")); }
        let mut outs = vec![];
        for plan in [&c.r, &c.r2] {
            let mut r = SimReader::new(&b, plan);
            let base = alloc::mark();
            let g = self.rs_decode(c.rver, f.ty, c.dmode, &mut r);
            let peak = alloc::peak_since(base);
            self.tally_reader(&r);
            let g = g?;
            let bound = (1 << 20) + b.len() * 24576 + 4 * (pr.reserve_sum as usize);
            if peak > bound { return viol("memory", format!("{} bytes of memory for {} bytes of input (bound {})", peak, b.len(), bound)); }
            let steps = 2000 + 60 * b.len();
            if r.calls > steps { return viol("work", format!("{} reader calls for {} bytes of input (bound {})", r.calls, b.len(), steps)); }
            outs.push(g);
        }
        let ok = match (&outs[0], &outs[1]) { (Got::Val(x), Got::Val(y)) => same(x, y), (Got::Err(a, _), Got::Err(b, _)) => a == b, _ => false };
        if !ok { return viol("portions", format!("the outcome depends on how the stream is portioned: {:?} or {:?}", outs[0], outs[1])); }
        self.count(if matches!(outs[0], Got::Val(_)) { "corrupt_accepted" } else { "corrupt_rejected" }, 1);
        Ok(())
    }

    fn w11(&mut self, c: &Case) -> V<()> {
        let f = &c.frames[0];
        let k = self.codec(c.sver, f.ty);
        let local = guard(|| (k.local)(&f.val)).map_err(|m| Out::Viol("local/panic".into(), format!("the in-memory conversion panicked: {}", m)))?;
        let sent = self.send(c)?;
        let wire: Vec<(usize, usize, Vec<u8>)> = c.frames.iter().zip(sent).map(|(f, (_, b))| (f.ty, b.len(), b)).collect();
        let got = self.recv(c, &wire)?;
        let want = model::to_in(&self.w, c.sver, f.ty, &f.val);
        match &got[0] {
            Got::Val(v) => {
                if !same(v, &local) { return viol("local", format!("in memory {} but over the wire {}", brief(&local), brief(v))); }
                if !same(&local, &want) { return viol("local/model", format!("in memory {} instead of {}", brief(&local), brief(&want))); }
                Ok(())
            }
            Got::Err(k, m) => viol("rejected", format!("over the wire {:?} {} but in memory {}", k, m, brief(&local))),
        }
    }
}
