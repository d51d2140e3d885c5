//! The reference model of the wire format, written from the "Binary encoding" section of the README alone,
//! plus the resource predicate used to recognise the recorded findings.
use crate::prng::Rng;
use crate::value::*;

pub fn zz(n: i64) -> u64 { ((n >> 63) ^ (n << 1)) as u64 }
pub fn unzz(n: u64) -> i64 { ((n >> 1) as i64) ^ -((n & 1) as i64) }

/// Lower bounds of the length classes.
const LOW: [u64; 9] = [0, 128, 16512, 2113664, 270549120, 34630287488, 4432676798592, 567382630219904, 72624976668147840];
pub const FIXED8: u64 = 567382630219904;

pub fn varint_len(n: u64) -> usize {
    let mut k = 9;
    while k > 1 && n < LOW[k - 1] { k -= 1; }
    k
}

pub fn varint(n: u64, out: &mut Vec<u8>) {
    let k = varint_len(n);
    let x = n - LOW[k - 1];
    if k == 9 {
        out.push(0);
        out.extend_from_slice(&x.to_le_bytes());
        return;
    }
    // k bytes hold (the k-1 zero bits, a one bit, then 7k bits of x), least significant first.
    let w: u128 = ((x as u128) << k) | (1u128 << (k - 1));
    out.extend_from_slice(&w.to_le_bytes()[..k]);
}

/// Returns (value, bytes used), or None when the input is too short.
pub fn unvarint(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()?;
    let k = first.trailing_zeros() as usize + 1;
    if b.len() < k { return None; }
    if k == 9 {
        return Some((u64::from_le_bytes(b[1..9].try_into().unwrap()).wrapping_add(LOW[8]), 9));
    }
    let mut w = [0u8; 16];
    w[..k].copy_from_slice(&b[..k]);
    Some((((u128::from_le_bytes(w) >> k) as u64) + LOW[k - 1], k))
}

fn as_u(t: &Ty, v: &Value) -> u64 {
    match (t, v) {
        (Ty::N, Value::N(x)) => *x,
        (Ty::S, Value::S(x)) => zz(*x),
        (Ty::B, Value::B(x)) => u64::from(*x),
        (Ty::A(_), Value::A(x)) => x.len() as u64,
        _ => panic!("harness: as_u"),
    }
}

pub fn header(idx: u64, size: usize, int: bool, out: &mut Vec<u8>) {
    match size {
        0 => varint(idx << 2, out),
        8 => varint((idx << 2) | 1, out),
        _ if int => varint((idx << 2) | 2, out),
        _ => { varint((idx << 2) | 3, out); varint(size as u64, out); }
    }
}

/// The encoding of a value of type `t`, as a field value or not.
pub fn payload(w: &WorldD, ver: usize, t: &Ty, v: &Value, field: bool, out: &mut Vec<u8>) {
    match t {
        Ty::U => {}
        Ty::N | Ty::S | Ty::B => put_u(as_u(t, v), field, out),
        Ty::F => { let b = v.f().to_bits(); if !(field && b == 0) { out.extend_from_slice(&b.to_le_bytes()); } }
        Ty::Y => out.extend_from_slice(v.y()),
        Ty::T => out.extend_from_slice(v.t().as_bytes()),
        Ty::C(i) => out.extend_from_slice(&encode(w, ver, *i, v)),
        Ty::A(e) => match **e {
            Ty::U => put_u(as_u(t, v), field, out),
            Ty::N | Ty::S | Ty::B | Ty::F => for x in v.a() { payload(w, ver, e, x, false, out); },
            _ => for x in v.a() {
                let mut b = vec![];
                payload(w, ver, e, x, false, &mut b);
                varint(b.len() as u64, out);
                out.extend_from_slice(&b);
            },
        },
    }
}

fn put_u(n: u64, field: bool, out: &mut Vec<u8>) {
    if field && n == 0 { return; }
    if field && n >= FIXED8 { out.extend_from_slice(&n.to_le_bytes()); return; }
    varint(n, out);
}

fn put_field(w: &WorldD, ver: usize, f: &FieldD, v: &Value, out: &mut Vec<u8>) {
    let mut b = vec![];
    payload(w, ver, &f.ty, v, true, &mut b);
    header(f.idx, b.len(), f.ty.int(), out);
    out.extend_from_slice(&b);
}

/// Canonical encoding with fields in index order.
pub fn encode(w: &WorldD, ver: usize, id: usize, v: &Value) -> Vec<u8> {
    let t = w.ty(ver, id);
    let mut out = vec![];
    if t.choice {
        let mut c = Some(v);
        while let Some(Value::C(i, p, f)) = c {
            put_field(w, ver, t.field(*i).expect("harness: case"), p, &mut out);
            c = f.as_deref();
        }
    } else {
        for (i, p) in v.fields() { put_field(w, ver, t.field(*i).expect("harness: field"), p, &mut out); }
    }
    out
}

/// Any legal encoding: fields in any order, interleaved with fields the reader does not know.
pub fn encode_any(r: &mut Rng, w: &WorldD, ver: usize, id: usize, v: &Value, noise: usize) -> Vec<u8> {
    let t = w.ty(ver, id);
    let mut parts: Vec<Vec<u8>> = vec![];
    let one = |r: &mut Rng, f: &FieldD, p: &Value| {
        let mut b = vec![];
        payload_any(r, w, ver, &f.ty, p, true, &mut b, noise);
        let mut o = vec![];
        let int = f.ty.int() || (f.ty.unit_array() && r.chance(50));
        header(f.idx, b.len(), int, &mut o);
        o.extend_from_slice(&b);
        o
    };
    if t.choice {
        let mut c = Some(v);
        while let Some(Value::C(i, p, f)) = c {
            parts.push(one(r, t.field(*i).expect("harness: case"), p));
            c = f.as_deref();
        }
    } else {
        for (i, p) in v.fields() { parts.push(one(r, t.field(*i).expect("harness: field"), p)); }
        r.shuffle(&mut parts);
    }
    let mut out = vec![];
    for p in parts {
        while r.chance(noise) { unknown_field(r, t, &mut out); }
        out.extend_from_slice(&p);
    }
    // Whatever follows the field a choice reader stops at is part of the same message; so is anything
    // after the last known field of a struct.
    while r.chance(noise) { unknown_field(r, t, &mut out); }
    out
}

fn unknown_field(r: &mut Rng, t: &TypeD, out: &mut Vec<u8>) {
    let idx = loop {
        let i = match r.below(6) {
            0 => r.below(64) as u64,
            1 => r.below(9000) as u64,
            2 => (1 << 62) - 1,
            3 => r.u64() >> (2 + r.below(60)),
            _ => (t.fields.len() + r.below(40)) as u64,
        };
        if i < (1 << 62) && t.field(i).is_none() { break i; }
    };
    match r.below(4) {
        0 => varint(idx << 2, out),
        1 => { varint((idx << 2) | 1, out); out.extend_from_slice(&r.u64().to_le_bytes()); }
        2 => {
            // A varint value whose own size is neither 0 nor 8 bytes.
            let n = loop { let n = gen_u(r); if varint_len(n) < 8 { break n; } };
            varint((idx << 2) | 2, out);
            varint(n, out);
        }
        _ => {
            let n = loop { let n = gen_len(r, false); if n != 0 && n != 8 { break n; } };
            varint((idx << 2) | 3, out);
            varint(n as u64, out);
            for _ in 0..n { out.push(r.u64() as u8); }
        }
    }
}

fn payload_any(r: &mut Rng, w: &WorldD, ver: usize, t: &Ty, v: &Value, field: bool, out: &mut Vec<u8>, noise: usize) {
    match t {
        Ty::C(i) => out.extend_from_slice(&encode_any(r, w, ver, *i, v, noise)),
        Ty::A(e) if !matches!(**e, Ty::U | Ty::N | Ty::S | Ty::B | Ty::F) => for x in v.a() {
            let mut b = vec![];
            payload_any(r, w, ver, e, x, false, &mut b, noise);
            varint(b.len() as u64, out);
            out.extend_from_slice(&b);
        },
        _ => payload(w, ver, t, v, field, out),
    }
}

// ---- strict reading --------------------------------------------------------------------------------------

pub type R<T> = Result<T, String>;

pub struct Pair<'a> { pub idx: u64, pub head: &'a [u8], pub body: &'a [u8] }

/// Split a message into (header, value) pairs.
pub fn split(b: &[u8]) -> R<Vec<Pair<'_>>> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let st = p;
        let (tag, k) = unvarint(&b[p..]).ok_or("truncated tag")?;
        p += k;
        let size = match tag & 3 {
            0 => 0,
            1 => 8,
            2 => (*b.get(p).ok_or("truncated value")?).trailing_zeros() as usize + 1,
            _ => { let (s, k) = unvarint(&b[p..]).ok_or("truncated size")?; p += k; s as usize }
        };
        let head = &b[st..p];
        if size > b.len() - p { return Err("truncated value".into()); }
        out.push(Pair { idx: tag >> 2, head, body: &b[p..p + size] });
        p += size;
    }
    Ok(out)
}

/// Check that `b` is a canonical encoding of the outgoing message `v` (struct fields in any order).
pub fn verify(w: &WorldD, ver: usize, id: usize, v: &Value, b: &[u8]) -> R<()> {
    let t = w.ty(ver, id);
    let ps = split(b)?;
    let mut want: Vec<(u64, &Value)> = vec![];
    if t.choice {
        let mut c = Some(v);
        while let Some(Value::C(i, p, f)) = c { want.push((*i, p)); c = f.as_deref(); }
    } else {
        want = v.fields().iter().map(|(i, p)| (*i, p)).collect();
    }
    let mut got: Vec<&Pair> = ps.iter().collect();
    if !t.choice { got.sort_by_key(|p| p.idx); }
    if got.iter().map(|p| p.idx).collect::<Vec<_>>() != want.iter().map(|p| p.0).collect::<Vec<_>>() {
        return Err(format!("{}: fields on the wire {:?}, expected {:?}", t.name, got.iter().map(|p| p.idx).collect::<Vec<_>>(), want.iter().map(|p| p.0).collect::<Vec<_>>()));
    }
    for (p, (i, x)) in got.iter().zip(&want) {
        let f = t.field(*i).unwrap();
        let mut h = vec![];
        header(*i, p.body.len(), f.ty.int(), &mut h);
        // The document can be read both ways for arrays of units (see DESIGN.md).
        let mut h2 = vec![];
        header(*i, p.body.len(), f.ty.int() || f.ty.unit_array(), &mut h2);
        if p.head != &h[..] && p.head != &h2[..] { return Err(format!("{}.{}: header {} expected {}", t.name, f.name, hex(p.head), hex(&h))); }
        verify_payload(w, ver, &f.ty, x, true, p.body).map_err(|e| format!("{}.{}: {}", t.name, f.name, e))?;
    }
    Ok(())
}

fn verify_payload(w: &WorldD, ver: usize, t: &Ty, v: &Value, field: bool, b: &[u8]) -> R<()> {
    match t {
        Ty::C(i) => verify(w, ver, *i, v, b),
        Ty::A(e) if !matches!(**e, Ty::U | Ty::N | Ty::S | Ty::B | Ty::F) => {
            let mut p = 0;
            for x in v.a() {
                let (n, k) = unvarint(&b[p..]).ok_or("truncated element size")?;
                if varint_len(n) != k || n > (b.len() - p - k) as u64 { return Err("bad element size".into()); }
                p += k;
                verify_payload(w, ver, e, x, false, &b[p..p + n as usize])?;
                p += n as usize;
            }
            if p != b.len() { return Err("trailing elements".into()); }
            Ok(())
        }
        _ => {
            let mut want = vec![];
            payload(w, ver, t, v, field, &mut want);
            if want == b { Ok(()) } else { Err(format!("value {} expected {}", hex(&b[..b.len().min(40)]), hex(&want[..want.len().min(40)]))) }
        }
    }
}

/// Decode a well-formed message the way the document says a reader of `ver` does.
pub fn decode(w: &WorldD, ver: usize, id: usize, b: &[u8]) -> R<Value> {
    let t = w.ty(ver, id);
    let ps = split(b)?;
    if t.choice { return decode_choice(w, ver, t, &ps); }
    let mut out: Vec<(u64, Value)> = vec![];
    for p in &ps {
        if let Some(f) = t.field(p.idx) {
            if out.iter().any(|(i, _)| *i == p.idx) { return Err("repeated field".into()); }
            out.push((p.idx, decode_payload(w, ver, &f.ty, p.body, true)?));
        }
    }
    for f in &t.fields {
        if f.rule == Rule::Req && !out.iter().any(|(i, _)| *i == f.idx) { return Err("missing required field".into()); }
    }
    Ok(Value::st(out))
}

fn decode_choice(w: &WorldD, ver: usize, t: &TypeD, ps: &[Pair]) -> R<Value> {
    for (k, p) in ps.iter().enumerate() {
        if let Some(f) = t.field(p.idx) {
            let v = decode_payload(w, ver, &f.ty, p.body, true)?;
            let fb = if f.rule == Rule::Opt { Some(Box::new(decode_choice(w, ver, t, &ps[k + 1..])?)) } else { None };
            return Ok(Value::C(p.idx, Box::new(v), fb));
        }
    }
    Err("no recognized case".into())
}

fn get_u(b: &[u8], field: bool) -> R<u64> {
    if field && b.is_empty() { return Ok(0); }
    if field && b.len() == 8 { return Ok(u64::from_le_bytes(b.try_into().unwrap())); }
    let (n, k) = unvarint(b).ok_or("truncated integer")?;
    if k != b.len() { return Err("trailing bytes after integer".into()); }
    Ok(n)
}

fn decode_payload(w: &WorldD, ver: usize, t: &Ty, b: &[u8], field: bool) -> R<Value> {
    Ok(match t {
        Ty::U => Value::Unit,
        Ty::N => Value::N(get_u(b, field)?),
        Ty::S => Value::S(unzz(get_u(b, field)?)),
        Ty::B => Value::B(get_u(b, field)? != 0),
        Ty::F => if field && b.is_empty() { Value::F(0) } else { Value::F(u64::from_le_bytes(b.try_into().map_err(|_| "bad F64 size")?)) },
        Ty::Y => Value::Y(b.to_vec()),
        Ty::T => Value::T(String::from_utf8(b.to_vec()).map_err(|_| "bad UTF-8")?),
        Ty::C(i) => decode(w, ver, *i, b)?,
        Ty::A(e) => match **e {
            Ty::U => Value::A(vec![Value::Unit; get_u(b, field)? as usize]),
            Ty::F => {
                if b.len() % 8 != 0 { return Err("bad F64 array".into()); }
                Value::A(b.chunks(8).map(|c| Value::F(u64::from_le_bytes(c.try_into().unwrap()))).collect())
            }
            Ty::N | Ty::S | Ty::B => {
                let (mut p, mut out) = (0, vec![]);
                while p < b.len() {
                    let (_, k) = unvarint(&b[p..]).ok_or("truncated element")?;
                    out.push(decode_payload(w, ver, e, &b[p..p + k], false)?);
                    p += k;
                }
                Value::A(out)
            }
            _ => {
                let (mut p, mut out) = (0, vec![]);
                while p < b.len() {
                    let (n, k) = unvarint(&b[p..]).ok_or("truncated element size")?;
                    p += k;
                    if n > (b.len() - p) as u64 { return Err("truncated element".into()); }
                    out.push(decode_payload(w, ver, e, &b[p..p + n as usize], false)?);
                    p += n as usize;
                }
                Value::A(out)
            }
        },
    })
}

/// What a same-version receiver gets: asymmetric cases of choices lose their fallback.
pub fn to_in(w: &WorldD, ver: usize, id: usize, v: &Value) -> Value {
    let t = w.ty(ver, id);
    match v {
        Value::C(i, p, f) => {
            let fd = t.field(*i).expect("harness: case");
            let p2 = to_in_ty(w, ver, &fd.ty, p);
            let f2 = if fd.rule == Rule::Opt { f.as_ref().map(|f| Box::new(to_in(w, ver, id, f))) } else { None };
            Value::C(*i, Box::new(p2), f2)
        }
        Value::St(x) => Value::St(x.iter().map(|(i, p)| (*i, to_in_ty(w, ver, &t.field(*i).expect("harness: field").ty, p))).collect()),
        _ => panic!("harness: to_in"),
    }
}

fn to_in_ty(w: &WorldD, ver: usize, t: &Ty, v: &Value) -> Value {
    match t {
        Ty::C(i) => to_in(w, ver, *i, v),
        Ty::A(e) => Value::A(v.a().iter().map(|x| to_in_ty(w, ver, e, x)).collect()),
        _ => v.clone(),
    }
}

/// The truncation relation: everything in `g` (got) is what `x` (expected) says, up to a missing tail.
pub fn prefix(w: &WorldD, ver: usize, id: usize, g: &Value, x: &Value) -> R<()> {
    let t = w.ty(ver, id);
    match (g, x) {
        (Value::C(i, p, f), Value::C(j, q, h)) => {
            if i != j { return Err(format!("{}: case {} instead of {}", t.name, i, j)); }
            prefix_ty(w, ver, &t.field(*i).expect("harness: case").ty, p, q)?;
            match (f, h) {
                (None, None) => Ok(()),
                (Some(f), Some(h)) => prefix(w, ver, id, f, h),
                _ => Err(format!("{}: fallback appeared or vanished", t.name)),
            }
        }
        (Value::St(a), Value::St(_)) => {
            for (i, p) in a {
                let f = t.field(*i).expect("harness: field");
                let q = x.opt(*i).ok_or_else(|| format!("{}.{}: value from nowhere", t.name, f.name))?;
                prefix_ty(w, ver, &f.ty, p, q).map_err(|e| format!("{}.{}: {}", t.name, f.name, e))?;
            }
            for f in &t.fields {
                if f.rule == Rule::Req && g.opt(f.idx).is_none() { return Err(format!("{}.{}: required field missing", t.name, f.name)); }
            }
            Ok(())
        }
        _ => Err("kind".into()),
    }
}

fn prefix_ty(w: &WorldD, ver: usize, t: &Ty, g: &Value, x: &Value) -> R<()> {
    match (t, g, x) {
        (Ty::C(i), _, _) => prefix(w, ver, *i, g, x),
        (Ty::A(e), Value::A(a), Value::A(b)) => {
            if a.len() > b.len() { return Err("array grew".into()); }
            if **e == Ty::U && a.len() != b.len() { return Err("unit array count".into()); }
            for (k, p) in a.iter().enumerate() {
                if k + 1 < a.len() {
                    if p != &b[k] { return Err(format!("element {} differs", k)); }
                } else {
                    prefix_ty(w, ver, e, p, &b[k])?;
                }
            }
            Ok(())
        }
        (_, Value::T(a), Value::T(b)) => if b.starts_with(a.as_str()) { Ok(()) } else { Err("string is no prefix".into()) },
        (_, Value::Y(a), Value::Y(b)) => if b.starts_with(a) { Ok(()) } else { Err("bytes are no prefix".into()) },
        _ => if g == x { Ok(()) } else { Err(format!("{:?} instead of {:?}", g, x)) },
    }
}

// ---- resource predicate ----------------------------------------------------------------------------------

/// What a reader of arbitrary bytes meets on its way; used only to recognise the recorded findings.
#[derive(Default, Clone, Debug)]
pub struct Probe {
    /// An unknown field announces more bytes than the stream still has.
    pub skip_past_eof: bool,
    /// Largest announced size of a String, Bytes or [F64] value.
    pub reserve: u64,
    /// Largest announced number of elements of an array of units.
    pub units: u64,
    /// Deepest chain of optional cases.
    pub chain: usize,
    pub steps: usize,
    /// Sum of the announced sizes of String, Bytes and [F64] values.
    pub reserve_sum: u64,
}

enum E { Eof, Other }
type P<T> = Result<T, E>;

struct Cur<'a> { b: &'a [u8], p: usize }

impl<'a> Cur<'a> {
    fn left(&self, lim: u128) -> usize { ((self.b.len() as u128).min(lim)).saturating_sub(self.p as u128) as usize }
    fn varint(&mut self, lim: u128) -> P<u64> {
        let n = self.left(lim);
        match unvarint(&self.b[self.p..self.p + n]) {
            Some((v, k)) => { self.p += k; Ok(v) }
            None => { self.p += n; Err(E::Eof) }
        }
    }
    fn bytes(&mut self, k: usize, lim: u128) -> P<()> {
        let n = self.left(lim);
        if n < k { self.p += n; Err(E::Eof) } else { self.p += k; Ok(()) }
    }
}

pub fn probe(w: &WorldD, ver: usize, id: usize, b: &[u8]) -> Probe {
    let mut pr = Probe::default();
    let mut c = Cur { b, p: 0 };
    let _ = probe_msg(w, ver, id, &mut c, b.len() as u128, &mut pr, 1);
    pr
}

/// Whether the TypeScript reader, given these bytes as a view of a larger buffer, creates a view that reaches
/// beyond them (finding KF12): sizes are checked against the underlying buffer only. Follows the generated
/// reader: an integer, a float or an array advances by what was read rather than by the announced size.
/// Also gives the largest announced number of elements of an array of units it meets.
pub fn ts_probe(w: &WorldD, ver: usize, id: usize, b: &[u8]) -> (bool, u64) {
    let mut units = 0;
    let over = ts_msg(w, ver, id, b, 0, b.len(), &mut units).is_err_and(|over| over);
    (over, units)
}

/// One varint within `lo..hi` of `b`.
fn ts_varint(b: &[u8], lo: usize, hi: usize) -> Option<(u64, usize)> {
    if lo >= hi { return None; }
    unvarint(&b[lo..hi]).map(|(v, k)| (v, lo + k))
}

/// `Err(true)`: a view beyond the end of `b`; `Err(false)`: an exception.
fn ts_msg(w: &WorldD, ver: usize, id: usize, b: &[u8], lo: usize, hi: usize, units: &mut u64) -> Result<(), bool> {
    let t = w.ty(ver, id);
    let mut p = lo;
    loop {
        let head = ts_varint(b, p, hi).and_then(|(tag, q)| match tag & 3 {
            0 => Some((tag >> 2, 0, q)),
            1 => Some((tag >> 2, 8, q)),
            2 => if q < hi { Some((tag >> 2, u64::from(b[q].trailing_zeros()) + 1, q)) } else { None },
            _ => ts_varint(b, q, hi).map(|(n, q)| (tag >> 2, n, q)),
        });
        let Some((idx, size, q)) = head else { return if t.choice { Err(false) } else { Ok(()) } };
        let Some(f) = t.field(idx) else {
            p = q.saturating_add(size as usize);
            continue;
        };
        if size > (b.len() - q) as u64 { return Err(true); }
        p = ts_ty(w, ver, &f.ty, b, q, q + size as usize, true, units)?;
        if t.choice {
            if f.rule != Rule::Opt { return Ok(()); }
            if p > hi { return Err(false); }
        }
    }
}

/// Reads a value within `lo..hi`; gives the offset at which the reader carries on.
fn ts_ty(w: &WorldD, ver: usize, t: &Ty, b: &[u8], lo: usize, hi: usize, field: bool, units: &mut u64) -> Result<usize, bool> {
    let int = || -> Option<(u64, usize)> {
        if field && hi == lo { return Some((0, lo)); }
        if field && hi - lo == 8 { return Some((u64::from_le_bytes(b[lo..hi].try_into().unwrap()), hi)); }
        ts_varint(b, lo, hi)
    };
    match t {
        Ty::U => Ok(lo),
        Ty::N | Ty::S | Ty::B => int().map(|x| x.1).ok_or(false),
        Ty::F => if field && hi == lo { Ok(lo) } else if hi - lo >= 8 { Ok(lo + 8) } else { Err(false) },
        Ty::Y | Ty::T => Ok(hi),
        Ty::C(i) => ts_msg(w, ver, *i, b, lo, hi, units).map(|()| hi),
        Ty::A(e) => match **e {
            Ty::U => {
                let (n, p) = int().ok_or(false)?;
                *units = n.max(*units);
                Ok(p)
            }
            Ty::F => Ok(lo + (hi - lo) / 8 * 8),
            Ty::N | Ty::S | Ty::B => {
                let mut p = lo;
                while let Some((_, q)) = ts_varint(b, p, hi) { p = q; }
                Ok(p)
            }
            _ => {
                let mut p = lo;
                while let Some((n, q)) = ts_varint(b, p, hi) {
                    if n > (b.len() - q) as u64 { return Err(true); }
                    p = ts_ty(w, ver, e, b, q, q + n as usize, false, units)?;
                }
                Ok(p)
            }
        },
    }
}

fn probe_msg(w: &WorldD, ver: usize, id: usize, c: &mut Cur, lim: u128, pr: &mut Probe, chain: usize) -> P<()> {
    let t = w.ty(ver, id);
    pr.chain = pr.chain.max(chain);
    let mut seen: Vec<u64> = vec![];
    loop {
        pr.steps += 1;
        let hd = (|| -> P<(u64, u64)> {
            let tag = c.varint(lim)?;
            let size = match tag & 3 {
                0 => 0,
                1 => 8,
                2 => { if c.left(lim) == 0 { return Err(E::Eof); } u64::from(c.b[c.p].trailing_zeros()) + 1 }
                _ => c.varint(lim)?,
            };
            Ok((tag >> 2, size))
        })();
        let (idx, size) = match hd {
            Ok(x) => x,
            Err(e) => {
                if t.choice { return Err(e); }
                if let E::Eof = e { break; }
                return Err(e);
            }
        };
        let sub = lim.min(c.p as u128 + size as u128);
        match t.field(idx) {
            Some(f) => {
                seen.push(idx);
                probe_ty(w, ver, &f.ty, c, sub, size, true, pr)?;
                if t.choice {
                    if f.rule == Rule::Opt { return probe_msg(w, ver, id, c, lim, pr, chain + 1); }
                    c.p += c.left(lim);
                    return Ok(());
                }
            }
            None => {
                let left = c.left(sub);
                if (left as u64) < size { pr.skip_past_eof = true; return Err(E::Other); }
                c.p += left;
            }
        }
    }
    for f in &t.fields {
        if f.rule == Rule::Req && !seen.contains(&f.idx) { return Err(E::Other); }
    }
    Ok(())
}

fn probe_u(c: &mut Cur, lim: u128, size: u64, field: bool) -> P<u64> {
    if field && size == 0 { return Ok(0); }
    if field && size == 8 {
        let p = c.p;
        c.bytes(8, lim)?;
        return Ok(u64::from_le_bytes(c.b[p..p + 8].try_into().unwrap()));
    }
    c.varint(lim)
}

fn probe_ty(w: &WorldD, ver: usize, t: &Ty, c: &mut Cur, lim: u128, size: u64, field: bool, pr: &mut Probe) -> P<()> {
    pr.steps += 1;
    match t {
        Ty::U => Ok(()),
        Ty::N | Ty::S | Ty::B => probe_u(c, lim, size, field).map(|_| ()),
        Ty::F => if field && size == 0 { Ok(()) } else { c.bytes(8, lim) },
        Ty::Y => { pr.reserve = pr.reserve.max(size); pr.reserve_sum = pr.reserve_sum.saturating_add(size); c.p += c.left(lim); Ok(()) }
        Ty::T => {
            pr.reserve = pr.reserve.max(size);
            pr.reserve_sum = pr.reserve_sum.saturating_add(size);
            let n = c.left(lim);
            let ok = std::str::from_utf8(&c.b[c.p..c.p + n]).is_ok();
            c.p += n;
            if ok { Ok(()) } else { Err(E::Other) }
        }
        Ty::C(i) => probe_msg(w, ver, *i, c, lim, pr, 1),
        Ty::A(e) => match **e {
            Ty::U => { let n = probe_u(c, lim, size, field)?; pr.units = pr.units.max(n); Ok(()) }
            Ty::N | Ty::S | Ty::B | Ty::F => {
                if **e == Ty::F { pr.reserve = pr.reserve.max(size.saturating_mul(8)); pr.reserve_sum = pr.reserve_sum.saturating_add(size.saturating_mul(8)); }
                loop {
                    match probe_ty(w, ver, e, c, lim, 0, false, pr) {
                        Ok(()) => {}
                        Err(E::Eof) => return Ok(()),
                        Err(x) => return Err(x),
                    }
                }
            }
            _ => loop {
                let n = match c.varint(lim) { Ok(n) => n, Err(E::Eof) => return Ok(()), Err(x) => return Err(x) };
                let sub = lim.min(c.p as u128 + n as u128);
                probe_ty(w, ver, e, c, sub, n, false, pr)?;
            },
        },
    }
}
