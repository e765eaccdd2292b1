//! An in-memory store: the library's generic hierarchy code over a plain map.
//! Every interaction passes the calling thread's hook, like a system call.
use crate::sys::{soft, Kind};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Error, Read, Result, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::{EntryPointMetadata, Hierarchy};

type Map = BTreeMap<String, Vec<u8>>;

#[derive(Clone)]
pub struct Mem {
    pub map: Arc<Mutex<Map>>,
    pub keys: Arc<Mutex<Vec<String>>>,
    meta: EntryPointMetadata,
    /// How the answers of a listing are ordered.
    pub order: Arc<AtomicUsize>,
    /// Publish a value only when the closure succeeds (a store with atomic
    /// puts) instead of writing through.
    pub atomic: bool,
    /// Stores are told apart by their URIs.
    pub id: u64,
}

pub fn entry_point(suffix: &str) -> Value {
    json!({
        "zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": suffix, "extensions": [],
    })
}

impl Mem {
    pub fn new() -> Mem {
        Mem::with_suffix(".json")
    }
    pub fn with_suffix(s: &str) -> Mem {
        static STORES: AtomicUsize = AtomicUsize::new(0);
        Mem {
            id: STORES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as u64,
            map: Default::default(),
            keys: Default::default(),
            meta: serde_json::from_value(entry_point(s)).expect("entry point"),
            order: Default::default(),
            atomic: false,
        }
    }
    pub fn atomic() -> Mem {
        Mem { atomic: true, ..Mem::new() }
    }
    pub fn snap(&self) -> Map {
        self.map.lock().unwrap().clone()
    }
    pub fn bytes(&self, key: &str) -> Option<Vec<u8>> {
        self.map.lock().unwrap().get(key.trim_start_matches('/')).cloned()
    }
    pub fn put(&self, key: &str, b: &[u8]) {
        self.map
            .lock()
            .unwrap()
            .insert(key.trim_start_matches('/').into(), b.to_vec());
    }
    fn norm(&self, key: &str) -> String {
        let mut k = self.keys.lock().unwrap();
        if k.len() < 10_000 {
            k.push(key.to_string());
        }
        key.trim_start_matches('/').to_string()
    }
    pub fn take_keys(&self) -> Vec<String> {
        std::mem::take(&mut *self.keys.lock().unwrap())
    }
}

impl Hierarchy for Mem {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata {
        &self.meta
    }
}

pub struct MemReader {
    key: String,
    data: Vec<u8>,
    pos: usize,
}
impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let (key, data, pos) = (&self.key, &self.data, &mut self.pos);
        soft(
            Kind::Read,
            key,
            buf.len(),
            0,
            |n| {
                let n = n.min(buf.len()).min(data.len() - *pos);
                buf[..n].copy_from_slice(&data[*pos..*pos + n]);
                *pos += n;
                Ok(n)
            },
            |n| *n as i64,
        )
    }
}

pub struct MemWriter {
    key: String,
    /// Bytes written so far, shared with the store.
    out: Arc<Mutex<Vec<u8>>>,
    map: Option<Arc<Mutex<Map>>>,
}
impl Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let (out, map, key) = (&self.out, &self.map, &self.key);
        soft(
            Kind::Write,
            key,
            buf.len(),
            0,
            |n| {
                let n = n.min(buf.len());
                match map {
                    Some(m) => m
                        .lock()
                        .unwrap()
                        .entry(key.clone())
                        .or_default()
                        .extend_from_slice(&buf[..n]),
                    None => out.lock().unwrap().extend_from_slice(&buf[..n]),
                }
                Ok(n)
            },
            |n| *n as i64,
        )
    }
    fn flush(&mut self) -> Result<()> {
        soft(Kind::Sync, &self.key, 0, 0, |_| Ok(()), |_| 0)
    }
}

impl ReadableStore for Mem {
    type GetReader = MemReader;
    fn exists(&self, key: &str) -> Result<bool> {
        let key = self.norm(key);
        soft(
            Kind::Stat,
            &key,
            0,
            0,
            |_| Ok(self.map.lock().unwrap().contains_key(&key)),
            |b| *b as i64,
        )
    }
    fn get(&self, key: &str) -> Result<Option<MemReader>> {
        let key = self.norm(key);
        soft(
            Kind::Open,
            &key,
            0,
            0,
            |_| {
                Ok(self.map.lock().unwrap().get(&key).map(|v| MemReader {
                    key: key.clone(),
                    data: v.clone(),
                    pos: 0,
                }))
            },
            |r| r.is_some() as i64,
        )
    }
    fn uri(&self, key: &str) -> Result<String> {
        Ok(format!("mem://{}/{}", self.id, self.norm(key)))
    }
}

impl WriteableStore for Mem {
    type SetWriter = MemWriter;
    fn set<F: FnOnce(MemWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
        let key = self.norm(key);
        let out = Arc::new(Mutex::new(vec![]));
        // (bytes that nobody sees yet have a name of their own)
        let at = if self.atomic {
            format!("{}~{}", key, self.order.fetch_add(1 << 32, Relaxed) >> 32)
        } else {
            key.clone()
        };
        soft(
            Kind::Open,
            &at,
            0,
            libc::O_CREAT,
            |_| {
                if !self.atomic {
                    self.map.lock().unwrap().insert(key.clone(), vec![]);
                }
                Ok(())
            },
            |_| 0,
        )?;
        value(MemWriter {
            key: at.clone(),
            out: out.clone(),
            map: if self.atomic { None } else { Some(self.map.clone()) },
        })?;
        if self.atomic {
            let v = out.lock().unwrap().clone();
            soft(
                Kind::Rename,
                &key,
                0,
                0,
                |_| {
                    self.map.lock().unwrap().insert(key.clone(), v);
                    Ok(())
                },
                |_| 0,
            )?;
        }
        Ok(())
    }
    fn erase(&self, key: &str) -> Result<bool> {
        let key = self.norm(key);
        soft(
            Kind::Unlink,
            &key,
            0,
            0,
            |_| {
                self.map.lock().unwrap().remove(&key);
                Ok(true)
            },
            |_| 0,
        )
    }
    fn erase_prefix(&self, prefix: &str) -> Result<bool> {
        let key = self.norm(prefix);
        let p = format!("{}/", key.trim_end_matches('/'));
        soft(
            Kind::Unlink,
            &key,
            0,
            0,
            |_| {
                let mut m = self.map.lock().unwrap();
                m.retain(|k, _| p != "/" && !k.starts_with(&p));
                if p == "/" {
                    m.clear();
                }
                Ok(true)
            },
            |_| 0,
        )
    }
}

impl ListableStore for Mem {
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>)> {
        let p = self.norm(prefix);
        let p = p.trim_end_matches('/');
        let p = if p.is_empty() { String::new() } else { format!("{}/", p) };
        let shown = if prefix.is_empty() || prefix.ends_with('/') {
            prefix.to_string()
        } else {
            format!("{}/", prefix)
        };
        soft(
            Kind::Opendir,
            &p,
            0,
            0,
            |_| {
                let mut keys = BTreeSet::new();
                let mut subs = BTreeSet::new();
                for k in self.map.lock().unwrap().keys() {
                    if let Some(r) = k.strip_prefix(&p) {
                        match r.find('/') {
                            Some(i) => subs.insert(format!("{}{}", shown, &r[..i + 1])),
                            None => keys.insert(format!("{}{}", shown, r)),
                        };
                    }
                }
                Ok((
                    self.shuffle(keys.into_iter().collect()),
                    self.shuffle(subs.into_iter().collect()),
                ))
            },
            |_| 0,
        )
        .map_err(|e: Error| e)
    }
}

impl Mem {
    fn shuffle(&self, mut v: Vec<String>) -> Vec<String> {
        let k = self.order.load(Relaxed) & 0xffff_ffff;
        permute(&mut v, k);
        v
    }
}

/// The `k`-th permutation of a list (k modulo the number of permutations).
pub fn permute<T>(v: &mut [T], mut k: usize) {
    let n = v.len();
    for i in (1..n).rev() {
        let j = k % (i + 1);
        k /= i + 1;
        v.swap(i, i - j);
    }
}
