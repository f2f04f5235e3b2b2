//! Files in the formats of the file interface, written and read independently of it.
use std::{
    fs,
    path::{Path as FsPath, PathBuf},
    sync::atomic::{AtomicU64, Ordering::SeqCst},
};

use mbqc_scheduling::interface::Path;
use serde_json::Value;

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A directory that is removed in the end.
pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new(base: &FsPath, tag: &str) -> Self {
        let path = base.join(format!("{tag}-{}-{}", std::process::id(), NEXT.fetch_add(1, SeqCst)));
        fs::create_dir_all(&path).unwrap();
        Self { path }
    }
    pub fn name(&self) -> String {
        self.path.file_name().unwrap().to_string_lossy().into_owned()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.path).ok();
    }
}

pub trait Encode {
    fn json(&self) -> Value;
    /// bincode's default encoding: little-endian 64-bit integers, sequences with length.
    fn bincode(&self, out: &mut Vec<u8>);
}

impl Encode for usize {
    fn json(&self) -> Value {
        Value::from(*self)
    }
    fn bincode(&self, out: &mut Vec<u8>) {
        out.extend((*self as u64).to_le_bytes());
    }
}

impl<A: Encode, B: Encode> Encode for (A, B) {
    fn json(&self) -> Value {
        Value::Array(vec![self.0.json(), self.1.json()])
    }
    fn bincode(&self, out: &mut Vec<u8>) {
        self.0.bincode(out);
        self.1.bincode(out);
    }
}

impl<T: Encode> Encode for Vec<T> {
    fn json(&self) -> Value {
        Value::Array(self.iter().map(|x| x.json()).collect())
    }
    fn bincode(&self, out: &mut Vec<u8>) {
        self.len().bincode(out);
        self.iter().for_each(|x| x.bincode(out));
    }
}

pub fn bytes(value: &impl Encode, format: &str, pretty: bool) -> Vec<u8> {
    match format {
        "serde_json" if pretty => serde_json::to_vec_pretty(&value.json()).unwrap(),
        "serde_json" => serde_json::to_vec(&value.json()).unwrap(),
        "bincode" => {
            let mut out = Vec::new();
            value.bincode(&mut out);
            out
        },
        _ => panic!("no such format"),
    }
}

pub fn write(path: &FsPath, value: &impl Encode, format: &str, pretty: bool) {
    fs::write(path, bytes(value, format, pretty)).unwrap();
}

pub type Tuple = (usize, usize, Vec<Vec<usize>>);

pub fn tuples(paths: &[Path]) -> Vec<Tuple> {
    paths.iter().map(|p| (p.time, p.space, p.steps.clone())).collect()
}

/// Decode an output file strictly.
pub fn decode_paths(bytes: &[u8], format: &str) -> Result<Vec<Tuple>, String> {
    match format {
        "serde_json" => {
            let v: Value = serde_json::from_slice(bytes).map_err(|e| e.to_string())?;
            let mut out = Vec::new();
            for p in v.as_array().ok_or("not an array")? {
                let o = p.as_object().ok_or("not an object")?;
                let mut keys: Vec<&str> = o.keys().map(|k| k.as_str()).collect();
                keys.sort();
                if keys != ["space", "steps", "time"] {
                    return Err(format!("an object with {keys:?}"));
                }
                let num = |k: &str| o[k].as_u64().map(|x| x as usize).ok_or(format!("{k} is {}", o[k]));
                let steps = serde_json::from_value(o["steps"].clone()).map_err(|e| e.to_string())?;
                out.push((num("time")?, num("space")?, steps));
            }
            Ok(out)
        },
        _ => {
            let mut at = 0;
            let mut word = || -> Result<usize, String> {
                let w = bytes.get(at..at + 8).ok_or("too short")?;
                at += 8;
                Ok(u64::from_le_bytes(w.try_into().unwrap()) as usize)
            };
            let mut out = Vec::new();
            for _ in 0..word()? {
                let (time, space) = (word()?, word()?);
                let mut steps = Vec::new();
                for _ in 0..word()? {
                    let mut step = Vec::new();
                    for _ in 0..word()? {
                        step.push(word()?);
                    }
                    steps.push(step);
                }
                out.push((time, space, steps));
            }
            if at != bytes.len() {
                return Err(format!("{} bytes too many", bytes.len() - at));
            }
            Ok(out)
        },
    }
}
