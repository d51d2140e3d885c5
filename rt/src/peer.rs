//! Synchronous calls into the generated TypeScript, which runs in a `node` subprocess. From the
//! simulator's point of view each call is a pure function: the peer owns no time, I/O or scheduling.
use crate::value::Value;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub enum Reply { Value(Value), Error(String), Threw(String), Bad(String) }

pub struct Peer { child: Child, i: ChildStdin, o: ChildStdout, pub calls: u64 }

impl Peer {
    pub fn start(dir: &str, peer_js: &str) -> Peer {
        let mut child = Command::new("node")
            .arg("--stack-size=900").arg(peer_js).arg(dir)
            .env_remove("NODE_OPTIONS")
            .stdin(Stdio::piped()).stdout(Stdio::piped())
            .spawn().expect("harness: node");
        let i = child.stdin.take().unwrap();
        let o = child.stdout.take().unwrap();
        Peer { child, i, o, calls: 0 }
    }
    fn call(&mut self, req: &[u8]) -> Vec<u8> {
        self.calls += 1;
        self.i.write_all(&(req.len() as u32).to_le_bytes()).expect("harness: peer write");
        self.i.write_all(req).expect("harness: peer write");
        let mut l = [0u8; 4];
        self.o.read_exact(&mut l).expect("harness: peer read");
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        self.o.read_exact(&mut b).expect("harness: peer read");
        b
    }
    fn head(op: u8, ver: usize, ty: usize, mode: u8) -> Vec<u8> {
        let mut r = vec![op, ver as u8, mode];
        r.extend_from_slice(&(ty as u16).to_le_bytes());
        r
    }
    /// Returns (announced size, bytes) or a complaint.
    pub fn encode(&mut self, ver: usize, ty: usize, mode: u8, v: &Value) -> Result<(usize, Vec<u8>), String> {
        let mut r = Peer::head(0, ver, ty, mode);
        v.put(&mut r);
        let b = self.call(&r);
        if b[0] == 0 {
            let n = u32::from_le_bytes(b[1..5].try_into().unwrap()) as usize;
            Ok((n, b[5..].to_vec()))
        } else {
            Err(String::from_utf8_lossy(&b[1..]).to_string())
        }
    }
    /// `pre` and `post` are neighbouring bytes in the same buffer.
    pub fn decode(&mut self, ver: usize, ty: usize, mode: u8, pre: &[u8], b: &[u8], post: &[u8]) -> Reply {
        let mut r = Peer::head(1, ver, ty, mode);
        r.extend_from_slice(&(pre.len() as u32).to_le_bytes());
        r.extend_from_slice(&(post.len() as u32).to_le_bytes());
        r.extend_from_slice(pre);
        r.extend_from_slice(b);
        r.extend_from_slice(post);
        let b = self.call(&r);
        let msg = || String::from_utf8_lossy(&b[1..]).to_string();
        match b[0] {
            0 => { let mut p = 1; Reply::Value(Value::take(&b, &mut p)) }
            1 => Reply::Error(msg()),
            2 => Reply::Threw(msg()),
            _ => Reply::Bad(msg()),
        }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
