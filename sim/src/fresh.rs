//! What a brand-new generator in a brand-new process returns: a helper process that has never
//! called the library forks once per question.
use crate::oracle::{bad, Bad};
use crate::plan::SettingsSpec;
use crate::world::ty;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd};

pub struct Fresh {
    to: std::fs::File,
    from: std::fs::File,
    pid: i32,
    cache: BTreeMap<String, Option<Value>>,
}

pub fn pipe() -> (OwnedFd, OwnedFd) {
    let mut fds = [0i32; 2];
    let r = unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
    assert_eq!(r, 0, "pipe");
    unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) }
}

fn compute(spec: &SettingsSpec, mode: &str, kind: u8, target: u8) -> Value {
    let mut g = spec.build().into_generator();
    let t = ty(kind, target);
    crate::ctx::with(|c| c.cap = crate::plan::COST_CAP * 20 + 1000);
    match mode {
        "sub" => {
            let s = (t.sub)(&mut g);
            json!({"schema": s.as_value(), "defs": g.definitions()})
        }
        "root" => json!({"schema": (t.root)(&mut g).as_value()}),
        _ => json!({"schema": (t.into_root)(g).as_value()}),
    }
}

impl Fresh {
    /// Must be called before the library is used in this process.
    pub fn start() -> Fresh {
        let (qr, qw) = pipe();
        let (ar, aw) = pipe();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            drop(qw);
            drop(ar);
            let mut q = std::fs::File::from(qr);
            let mut a = std::fs::File::from(aw);
            loop {
                let mut len = [0u8; 4];
                if q.read_exact(&mut len).is_err() {
                    unsafe { libc::_exit(0) };
                }
                let mut buf = vec![0; u32::from_le_bytes(len) as usize];
                if q.read_exact(&mut buf).is_err() {
                    unsafe { libc::_exit(0) };
                }
                let c = unsafe { libc::fork() };
                if c == 0 {
                    let r = std::panic::catch_unwind(|| {
                        let v: Value = serde_json::from_slice(&buf).expect("question");
                        let spec: SettingsSpec = serde_json::from_value(v["s"].clone()).expect("settings");
                        compute(&spec, v["m"].as_str().unwrap_or(""), v["k"].as_u64().unwrap_or(0) as u8, v["t"].as_u64().unwrap_or(0) as u8)
                    });
                    if let Ok(v) = r {
                        let b = serde_json::to_vec(&v).unwrap_or_default();
                        let _ = a.write_all(&(b.len() as u32).to_le_bytes());
                        let _ = a.write_all(&b);
                        unsafe { libc::_exit(0) };
                    }
                    unsafe { libc::_exit(3) };
                }
                let mut st = 0;
                unsafe { libc::waitpid(c, &mut st, 0) };
                if st != 0 {
                    let _ = a.write_all(&u32::MAX.to_le_bytes());
                }
            }
        }
        Fresh { to: std::fs::File::from(qw), from: std::fs::File::from(ar), pid, cache: BTreeMap::new() }
    }

    /// None: the brand-new generator itself did not return.
    pub fn get(&mut self, spec: &SettingsSpec, mode: &str, kind: u8, target: u8) -> Result<Option<Value>, Bad> {
        let q = json!({"s": spec, "m": mode, "k": kind, "t": target}).to_string();
        if let Some(v) = self.cache.get(&q) {
            return Ok(v.clone());
        }
        let io = |_| ("harness".to_owned(), "fresh-generator helper failed".to_owned());
        self.to.write_all(&(q.len() as u32).to_le_bytes()).map_err(io)?;
        self.to.write_all(q.as_bytes()).map_err(io)?;
        let mut len = [0u8; 4];
        self.from.read_exact(&mut len).map_err(io)?;
        let len = u32::from_le_bytes(len);
        let v = if len == u32::MAX {
            None
        } else {
            let mut b = vec![0; len as usize];
            self.from.read_exact(&mut b).map_err(io)?;
            match serde_json::from_slice(&b) {
                Ok(v) => Some(v),
                Err(e) => return bad("harness", format!("fresh-generator helper: {e}")),
            }
        };
        self.cache.insert(q, v.clone());
        Ok(v)
    }

    pub fn stop(self) {
        let pid = self.pid;
        drop(self.to);
        drop(self.from);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
    }
}
