//! A case: one delivery with everything the simulator decided about it. This is what replay files hold.
use crate::json::J;
use crate::stream::*;
use crate::value::*;

#[derive(Clone, Debug)]
pub struct Frame { pub ty: usize, pub val: Value }

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub frames: Vec<Frame>,
    pub sver: usize,
    /// 0 Rust, 1 TypeScript.
    pub slang: u8,
    pub emode: u8,
    pub w: WPlan,
    pub rver: usize,
    pub rlang: u8,
    pub dmode: u8,
    pub r: RPlan,
    /// A second delivery of the same bytes (W10).
    pub r2: RPlan,
    /// Bytes on the wire instead of what the sender wrote: a foreign peer (W03), corruption (W10).
    pub raw: Option<Vec<u8>>,
    /// The message is cut short here (W09).
    pub cut: Option<usize>,
    /// Neighbouring bytes in the receiver's buffer (TypeScript).
    pub pre: Vec<u8>,
    pub post: Vec<u8>,
    /// Simulated time of the delivery, and the events that led to it.
    pub time: u64,
    pub trace: Vec<String>,
}

fn ns(x: &[usize]) -> J { J::Arr(x.iter().map(J::n).collect()) }
fn un(j: &J) -> Vec<usize> { j.arr().iter().map(|x| x.us()).collect() }

impl Case {
    pub fn to_json(&self) -> J {
        let o = |v: Vec<(&str, J)>| J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        let rp = |r: &RPlan| o(vec![
            ("chunks", ns(&r.chunks)), ("rintr", ns(&r.rintr)), ("fintr", ns(&r.fintr)),
            ("fault", r.fault.as_ref().map_or(J::Null, |f| o(vec![("at", J::n(f.at)), ("kind", J::s(KINDS[f.kind].0)), ("sticky", J::Bool(f.sticky))]))),
        ]);
        o(vec![
            ("prop", J::s(&self.prop)),
            ("frames", J::Arr(self.frames.iter().map(|f| o(vec![("ty", J::n(f.ty)), ("val", f.val.to_json())])).collect())),
            ("sver", J::n(self.sver)), ("slang", J::n(self.slang)), ("emode", J::n(self.emode)),
            ("w", o(vec![
                ("chunks", ns(&self.w.chunks)), ("intr", ns(&self.w.intr)),
                ("fault", self.w.fault.as_ref().map_or(J::Null, |f| o(vec![("at", J::n(f.at)), ("kind", J::s(KINDS[f.kind].0)), ("zero", J::Bool(f.zero)), ("sticky", J::Bool(f.sticky))]))),
            ])),
            ("rver", J::n(self.rver)), ("rlang", J::n(self.rlang)), ("dmode", J::n(self.dmode)),
            ("r", rp(&self.r)), ("r2", rp(&self.r2)),
            ("raw", self.raw.as_ref().map_or(J::Null, |b| J::s(hex(b)))),
            ("cut", self.cut.map_or(J::Null, J::n)),
            ("pre", J::s(hex(&self.pre))), ("post", J::s(hex(&self.post))),
            ("time_ms", J::n(self.time)),
            ("trace", J::Arr(self.trace.iter().map(J::s).collect())),
        ])
    }
    pub fn from_json(j: &J) -> Case {
        let kind = |f: &J| KINDS.iter().position(|k| k.0 == f.get("kind").str()).unwrap_or(0);
        let rp = |r: &J| RPlan {
            chunks: un(r.get("chunks")), rintr: un(r.get("rintr")), fintr: un(r.get("fintr")),
            fault: if *r.get("fault") == J::Null { None } else {
                let f = r.get("fault");
                Some(RFault { at: f.get("at").us(), kind: kind(f), sticky: f.get("sticky").b() })
            },
        };
        let w = j.get("w");
        Case {
            prop: j.get("prop").str().into(),
            frames: j.get("frames").arr().iter().map(|f| Frame { ty: f.get("ty").us(), val: Value::from_json(f.get("val")) }).collect(),
            sver: j.get("sver").us(), slang: j.get("slang").u() as u8, emode: j.get("emode").u() as u8,
            w: WPlan {
                chunks: un(w.get("chunks")), intr: un(w.get("intr")),
                fault: if *w.get("fault") == J::Null { None } else {
                    let f = w.get("fault");
                    Some(WFault { at: f.get("at").us(), kind: kind(f), zero: f.get("zero").b(), sticky: f.get("sticky").b() })
                },
            },
            rver: j.get("rver").us(), rlang: j.get("rlang").u() as u8, dmode: j.get("dmode").u() as u8,
            r: rp(j.get("r")), r2: rp(j.get("r2")),
            raw: if *j.get("raw") == J::Null { None } else { Some(unhex(j.get("raw").str())) },
            cut: if *j.get("cut") == J::Null { None } else { Some(j.get("cut").us()) },
            pre: unhex(j.get("pre").str()), post: unhex(j.get("post").str()),
            time: j.get("time_ms").u(),
            trace: j.get("trace").arr().iter().map(|x| x.str().to_string()).collect(),
        }
    }
}
