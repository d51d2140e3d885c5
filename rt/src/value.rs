//! Dynamic message values, world descriptors, and the value generator.
use crate::json::J;
use crate::prng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Unit,
    F(u64),
    N(u64),
    S(i64),
    B(bool),
    Y(Vec<u8>),
    T(String),
    A(Vec<Value>),
    /// Present fields, sorted by index.
    St(Vec<(u64, Value)>),
    /// Case, payload, fallback.
    C(u64, Box<Value>, Option<Box<Value>>),
}

impl Value {
    pub fn f(&self) -> f64 { if let Value::F(x) = self { f64::from_bits(*x) } else { panic!("harness: F") } }
    pub fn n(&self) -> u64 { if let Value::N(x) = self { *x } else { panic!("harness: N") } }
    pub fn s(&self) -> i64 { if let Value::S(x) = self { *x } else { panic!("harness: S") } }
    pub fn b(&self) -> bool { if let Value::B(x) = self { *x } else { panic!("harness: B") } }
    pub fn y(&self) -> &[u8] { if let Value::Y(x) = self { x } else { panic!("harness: Y") } }
    pub fn t(&self) -> &str { if let Value::T(x) = self { x } else { panic!("harness: T") } }
    pub fn a(&self) -> &[Value] { if let Value::A(x) = self { x } else { panic!("harness: A") } }
    pub fn fields(&self) -> &[(u64, Value)] { if let Value::St(x) = self { x } else { panic!("harness: St") } }
    pub fn opt(&self, idx: u64) -> Option<&Value> { self.fields().iter().find(|(i, _)| *i == idx).map(|(_, v)| v) }
    pub fn req(&self, idx: u64) -> &Value { self.opt(idx).expect("harness: missing field") }
    pub fn case(&self) -> u64 { if let Value::C(i, _, _) = self { *i } else { panic!("harness: C") } }
    pub fn payload(&self) -> &Value { if let Value::C(_, p, _) = self { p } else { panic!("harness: C") } }
    pub fn fallback(&self) -> &Value {
        if let Value::C(_, _, Some(f)) = self { f } else { panic!("harness: fallback") }
    }
    pub fn st(mut r: Vec<(u64, Value)>) -> Value {
        r.sort_by_key(|x| x.0);
        Value::St(r)
    }

    pub fn to_json(&self) -> J {
        let o = |k: &str, v: J| J::Obj(vec![(k.to_string(), v)]);
        match self {
            Value::Unit => J::s("U"),
            Value::F(x) => o("F", J::s(format!("{:016x}", x))),
            Value::N(x) => o("N", J::s(x)),
            Value::S(x) => o("S", J::s(x)),
            Value::B(x) => J::Bool(*x),
            Value::Y(x) => o("Y", J::s(hex(x))),
            Value::T(x) => o("T", J::s(x)),
            Value::A(x) => J::Arr(x.iter().map(|e| e.to_json()).collect()),
            Value::St(x) => o("St", J::Arr(x.iter().map(|(i, v)| J::Arr(vec![J::n(i), v.to_json()])).collect())),
            Value::C(i, p, f) => o("C", J::Arr(vec![J::n(i), p.to_json(), f.as_ref().map_or(J::Null, |f| f.to_json())])),
        }
    }
    pub fn from_json(j: &J) -> Value {
        match j {
            J::Bool(b) => Value::B(*b),
            J::Arr(a) => Value::A(a.iter().map(Value::from_json).collect()),
            J::Obj(o) => {
                let (k, v) = &o[0];
                match k.as_str() {
                    "F" => Value::F(u64::from_str_radix(v.str(), 16).unwrap()),
                    "N" => Value::N(v.str().parse().unwrap()),
                    "S" => Value::S(v.str().parse().unwrap()),
                    "Y" => Value::Y(unhex(v.str())),
                    "T" => Value::T(v.str().to_string()),
                    "St" => Value::St(v.arr().iter().map(|p| (p.arr()[0].u(), Value::from_json(&p.arr()[1]))).collect()),
                    _ => {
                        let a = v.arr();
                        Value::C(
                            a[0].u(),
                            Box::new(Value::from_json(&a[1])),
                            if a[2] == J::Null { None } else { Some(Box::new(Value::from_json(&a[2]))) },
                        )
                    }
                }
            }
            _ => Value::Unit,
        }
    }

    /// Binary form for the TypeScript peer.
    pub fn put(&self, o: &mut Vec<u8>) {
        match self {
            Value::Unit => o.push(0),
            Value::F(x) => { o.push(1); o.extend_from_slice(&x.to_le_bytes()); }
            Value::N(x) => { o.push(2); o.extend_from_slice(&x.to_le_bytes()); }
            Value::S(x) => { o.push(3); o.extend_from_slice(&x.to_le_bytes()); }
            Value::B(x) => { o.push(4); o.push(u8::from(*x)); }
            Value::Y(x) => { o.push(5); o.extend_from_slice(&(x.len() as u32).to_le_bytes()); o.extend_from_slice(x); }
            Value::T(x) => {
                // Strings travel as UTF-16 so that the peer does not depend on a text decoder.
                let u: Vec<u16> = x.encode_utf16().collect();
                o.push(6);
                o.extend_from_slice(&(u.len() as u32).to_le_bytes());
                for c in u { o.extend_from_slice(&c.to_le_bytes()); }
            }
            Value::A(x) => {
                o.push(7);
                o.extend_from_slice(&(x.len() as u32).to_le_bytes());
                for e in x { e.put(o); }
            }
            Value::St(x) => {
                o.push(8);
                o.extend_from_slice(&(x.len() as u32).to_le_bytes());
                for (i, e) in x {
                    o.extend_from_slice(&i.to_le_bytes());
                    e.put(o);
                }
            }
            Value::C(i, p, f) => {
                o.push(9);
                o.extend_from_slice(&i.to_le_bytes());
                p.put(o);
                match f {
                    Some(f) => { o.push(1); f.put(o); }
                    None => o.push(0),
                }
            }
        }
    }
    pub fn take(b: &[u8], p: &mut usize) -> Value {
        fn u32_(b: &[u8], p: &mut usize) -> usize {
            let x = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap());
            *p += 4;
            x as usize
        }
        fn u64_(b: &[u8], p: &mut usize) -> u64 {
            let x = u64::from_le_bytes(b[*p..*p + 8].try_into().unwrap());
            *p += 8;
            x
        }
        let t = b[*p];
        *p += 1;
        match t {
            0 => Value::Unit,
            1 => Value::F(u64_(b, p)),
            2 => Value::N(u64_(b, p)),
            3 => Value::S(u64_(b, p) as i64),
            4 => { *p += 1; Value::B(b[*p - 1] != 0) }
            5 => { let n = u32_(b, p); *p += n; Value::Y(b[*p - n..*p].to_vec()) }
            6 => {
                let n = u32_(b, p);
                let mut u = Vec::with_capacity(n);
                for k in 0..n { u.push(u16::from_le_bytes([b[*p + 2 * k], b[*p + 2 * k + 1]])); }
                *p += 2 * n;
                Value::T(String::from_utf16_lossy(&u))
            }
            7 => { let n = u32_(b, p); Value::A((0..n).map(|_| Value::take(b, p)).collect()) }
            8 => {
                let n = u32_(b, p);
                Value::st((0..n).map(|_| { let i = u64_(b, p); (i, Value::take(b, p)) }).collect())
            }
            _ => {
                let i = u64_(b, p);
                let v = Value::take(b, p);
                let has = b[*p];
                *p += 1;
                let f = if has == 1 { Some(Box::new(Value::take(b, p))) } else { None };
                Value::C(i, Box::new(v), f)
            }
        }
    }
    /// A coarse fingerprint of the shape of a value (for the distinct-states measure).
    pub fn shape(&self, h: u64) -> u64 {
        use crate::prng::mix;
        let cls = |n: usize| -> u64 {
            match n { 0 => 0, 1 => 1, 2..=6 => 2, 7 => 3, 8 => 4, 9..=127 => 5, 128..=16511 => 6, _ => 7 }
        };
        match self {
            Value::Unit => mix(h, 1),
            Value::F(x) => mix(h, if *x == 0 { 2 } else if f64::from_bits(*x).is_nan() { 3 } else { 4 }),
            Value::N(x) => mix(h, 100 + crate::model::varint_len(*x) as u64 * 2 + u64::from(*x == 0)),
            Value::S(x) => mix(h, 200 + crate::model::varint_len(crate::model::zz(*x)) as u64 * 2 + u64::from(*x == 0)),
            Value::B(x) => mix(h, 300 + u64::from(*x)),
            Value::Y(x) => mix(h, 400 + cls(x.len())),
            Value::T(x) => mix(h, 500 + cls(x.len())),
            Value::A(x) => { let mut h = mix(h, 600 + cls(x.len())); for e in x.iter().take(3) { h = e.shape(h); } h }
            Value::St(x) => { let mut h = mix(h, 700); for (i, e) in x { h = mix(e.shape(h), *i); } h }
            Value::C(i, p, f) => { let h = mix(p.shape(h), 800 + i); f.as_ref().map_or(h, |f| f.shape(h)) }
        }
    }
}

pub fn hex(x: &[u8]) -> String { x.iter().map(|b| format!("{:02x}", b)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { U, F, N, S, B, Y, T, A(Box<Ty>), C(usize) }

impl Ty {
    pub fn from_json(j: &J) -> Ty {
        match j {
            J::Str(s) => match s.as_str() { "U" => Ty::U, "F" => Ty::F, "N" => Ty::N, "S" => Ty::S, "B" => Ty::B, "Y" => Ty::Y, _ => Ty::T },
            _ => if *j.get("a") != J::Null { Ty::A(Box::new(Ty::from_json(j.get("a")))) } else { Ty::C(j.get("c").us()) },
        }
    }
    /// Whether field values of this type use the integer size mode.
    pub fn int(&self) -> bool {
        matches!(self, Ty::N | Ty::S | Ty::B)
    }
    pub fn unit_array(&self) -> bool { matches!(self, Ty::A(t) if **t == Ty::U) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rule { Req, Opt, Asym }

#[derive(Clone, Debug)]
pub struct FieldD { pub idx: u64, pub rule: Rule, pub ty: Ty, pub name: String }

#[derive(Clone, Debug)]
pub struct TypeD { pub id: usize, pub choice: bool, pub never: bool, pub name: String, pub fields: Vec<FieldD> }

impl TypeD {
    pub fn field(&self, idx: u64) -> Option<&FieldD> { self.fields.iter().find(|f| f.idx == idx) }
}

#[derive(Clone, Debug)]
pub struct WorldD { pub versions: Vec<Vec<TypeD>>, pub roots: Vec<usize> }

impl WorldD {
    pub fn from_json(j: &J) -> WorldD {
        WorldD {
            versions: j.get("versions").arr().iter().map(|v| {
                v.get("types").arr().iter().map(|t| TypeD {
                    id: t.get("id").us(),
                    choice: t.get("kind").str() == "choice",
                    never: t.get("never").b(),
                    name: t.get("name").str().to_string(),
                    fields: t.get("fields").arr().iter().map(|f| FieldD {
                        idx: f.get("idx").u(),
                        rule: match f.get("rule").str() { "r" => Rule::Req, "o" => Rule::Opt, _ => Rule::Asym },
                        ty: Ty::from_json(f.get("ty")),
                        name: f.get("name").str().to_string(),
                    }).collect(),
                }).collect()
            }).collect(),
            roots: j.get("roots").arr().iter().map(|r| r.us()).collect(),
        }
    }
    pub fn ty(&self, ver: usize, id: usize) -> &TypeD {
        self.versions[ver].iter().find(|t| t.id == id).expect("harness: type")
    }
    /// Whether a type can contain a choice (itself included), under a version.
    pub fn has_choice(&self, ver: usize, id: usize) -> bool {
        let t = self.ty(ver, id);
        t.choice || t.fields.iter().any(|f| self.ty_has(ver, &f.ty, &|w, v, i| w.has_choice(v, i)))
    }
    pub fn has_unit_array(&self, ver: usize, id: usize) -> bool {
        fn ua(w: &WorldD, ver: usize, t: &Ty) -> bool {
            match t {
                Ty::A(e) => **e == Ty::U || ua(w, ver, e),
                Ty::C(i) => w.has_unit_array(ver, *i),
                _ => false,
            }
        }
        self.ty(ver, id).fields.iter().any(|f| ua(self, ver, &f.ty))
    }
    fn ty_has(&self, ver: usize, t: &Ty, p: &dyn Fn(&WorldD, usize, usize) -> bool) -> bool {
        match t { Ty::A(e) => self.ty_has(ver, e, p), Ty::C(i) => p(self, ver, *i), _ => false }
    }
}

// ---- value generation -----------------------------------------------------------------------------------

pub const BOUNDS: &[u64] = &[
    0, 1, 2, 127, 128, 129, 255, 256, 16511, 16512, 16513, 65535, 65536, 2113663, 2113664, 2113665, 270549119,
    270549120, 270549121, 4294967295, 4294967296, 34630287487, 34630287488, 34630287489, 4432676798591, 4432676798592,
    4432676798593, 9007199254740991, 9007199254740992, 9007199254740993, 567382630219903, 567382630219904,
    567382630219905, 72624976668147839, 72624976668147840, 72624976668147841, 9223372036854775807,
    9223372036854775808, 9223372036854775809, 18446744073709551614, 18446744073709551615,
];

#[derive(Clone, Debug)]
pub struct Gen {
    /// Remaining budget of nodes; keeps values bounded.
    pub budget: isize,
    pub chain: usize,
    pub big: bool,
    pub bom: bool,
}

pub fn gen_len(r: &mut Rng, big: bool) -> usize {
    match r.below(20) {
        0..=3 => 0,
        4..=6 => 1,
        7..=10 => r.range(2, 6),
        11 => 7,
        12 | 13 => 8,
        14 => 9,
        15 => r.range(10, 40),
        16 => *r.pick(&[63, 64, 126, 127, 128, 129]),
        17 => if big { *r.pick(&[16510, 16511, 16512, 16513, 4096, 8192, 8193]) } else { r.range(1, 16) },
        _ => r.range(1, 12),
    }
}

pub fn gen_u(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=5 => *r.pick(BOUNDS),
        6 => r.below(300) as u64,
        7 => 1u64 << r.below(64),
        _ => r.u64() >> r.below(64),
    }
}

pub fn gen_prim(r: &mut Rng, t: &Ty, g: &Gen) -> Value {
    match t {
        Ty::U => Value::Unit,
        Ty::B => Value::B(r.chance(50)),
        Ty::N => Value::N(gen_u(r)),
        Ty::S => {
            let u = gen_u(r);
            Value::S(match r.below(4) { 0 => u as i64, 1 => (u as i64).wrapping_neg(), 2 => *r.pick(&[i64::MIN, i64::MAX, -1, 0, 1, i64::MIN + 1, -64, -65, 63, 64]), _ => crate::model::unzz(u) })
        }
        Ty::F => Value::F(match r.below(12) {
            0 | 1 => 0,
            2 => 0x8000_0000_0000_0000,
            3 => f64::INFINITY.to_bits(),
            4 => f64::NEG_INFINITY.to_bits(),
            5 => f64::NAN.to_bits(),
            6 => 1,
            7 => (r.below(100) as f64).to_bits(),
            8 => 0x7fef_ffff_ffff_ffff,
            9 => std::f64::consts::PI.to_bits(),
            _ => { let x = r.u64(); if f64::from_bits(x).is_nan() { f64::NAN.to_bits() } else { x } }
        }),
        Ty::Y => {
            let n = gen_len(r, g.big);
            let m = r.below(4);
            Value::Y((0..n).map(|i| match m { 0 => r.u64() as u8, 1 => 0, 2 => 0xff, _ => i as u8 }).collect())
        }
        Ty::T => {
            let n = gen_len(r, g.big);
            let m = r.below(5);
            let mut s = String::new();
            if g.bom && r.chance(4) { s.push('\u{feff}'); }
            while s.len() < n {
                let c = match m {
                    0 | 1 => (b'a' + r.below(26) as u8) as char,
                    2 => *r.pick(&['é', 'ß', '名', '😀', 'a', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'Z', '\u{301}']),
                    3 => *r.pick(&['0', ' ', '\n', '"', '\\', '\'', '$']),
                    _ => if s.is_empty() { 'x' } else { *r.pick(&['\u{feff}', 'y', '\u{200d}']) },
                };
                // Hit the intended byte length exactly where possible.
                if s.len() + c.len_utf8() > n { s.push('q') } else { s.push(c) }
            }
            Value::T(s)
        }
        _ => panic!("harness: prim"),
    }
}

pub fn gen_ty(r: &mut Rng, w: &WorldD, ver: usize, t: &Ty, g: &mut Gen) -> Value {
    g.budget -= 1;
    match t {
        Ty::A(e) => {
            let mut n = gen_len(r, g.big);
            if **e == Ty::U {
                return Value::A(vec![Value::Unit; n.min(20000)]);
            }
            let scalar = matches!(**e, Ty::N | Ty::S | Ty::B | Ty::F);
            n = n.min(if g.budget <= 0 { 0 } else if scalar { 20000 } else { (g.budget as usize / 4).min(140) });
            if g.budget <= 0 { n = 0; }
            if let Ty::C(i) = **e { if w.ty(ver, i).never { n = 0; } }
            Value::A((0..n).map(|_| gen_ty(r, w, ver, e, g)).collect())
        }
        Ty::C(i) => gen_msg(r, w, ver, *i, g),
        p => gen_prim(r, p, g),
    }
}

fn ty_never(w: &WorldD, ver: usize, t: &Ty) -> bool {
    if let Ty::C(i) = t { w.ty(ver, *i).never } else { false }
}

pub fn gen_msg(r: &mut Rng, w: &WorldD, ver: usize, id: usize, g: &mut Gen) -> Value {
    let t = w.ty(ver, id).clone();
    if !t.choice {
        let density = if g.budget <= 0 { 0 } else { *r.pick(&[0, 30, 60, 100]) };
        let mut out = vec![];
        for f in &t.fields {
            if f.rule == Rule::Opt && (ty_never(w, ver, &f.ty) || !r.chance(density)) { continue; }
            out.push((f.idx, gen_ty(r, w, ver, &f.ty, g)));
        }
        Value::st(out)
    } else {
        let req: Vec<&FieldD> = t.fields.iter().filter(|f| f.rule == Rule::Req && !ty_never(w, ver, &f.ty)).collect();
        let all: Vec<&FieldD> = t.fields.iter().filter(|f| !ty_never(w, ver, &f.ty)).collect();
        let mut chain = vec![];
        for _ in 0..g.chain {
            let f = *r.pick(&all);
            if f.rule == Rule::Req || g.budget <= 0 { break; }
            chain.push(f);
        }
        let last = *r.pick(&req);
        let mut v = Value::C(last.idx, Box::new(gen_ty(r, w, ver, &last.ty, g)), None);
        for f in chain.into_iter().rev() {
            v = Value::C(f.idx, Box::new(gen_ty(r, w, ver, &f.ty, g)), Some(Box::new(v)));
        }
        v
    }
}
