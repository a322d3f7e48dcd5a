//! The kinds of reader a file is presented through.
use serde_json::Value as J;
use std::io::{Read, Result, Seek, SeekFrom};

/// A file is a list of ["h", hex] and ["f", count, byte] segments.
#[derive(Debug, Clone)]
pub enum Seg {
    Bytes(Vec<u8>),
    Fill(u64, u8),
}
impl Seg {
    fn len(&self) -> u64 {
        match self {
            Seg::Bytes(b) => b.len() as u64,
            Seg::Fill(n, _) => *n,
        }
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("harness: bad hex"),
    };
    b.chunks(2).map(|p| v(p[0]) * 16 + v(p[1])).collect()
}
pub fn segs(j: &J) -> Vec<Seg> {
    j.as_array()
        .expect("file")
        .iter()
        .map(|s| match s[0].as_str().unwrap() {
            "h" => Seg::Bytes(unhex(s[1].as_str().unwrap())),
            "f" => Seg::Fill(s[1].as_u64().unwrap(), s[2].as_u64().unwrap() as u8),
            _ => panic!("harness: bad segment"),
        })
        .collect()
}
pub fn flat(segs: &[Seg]) -> Vec<u8> {
    let mut v = vec![];
    for s in segs {
        match s {
            Seg::Bytes(b) => v.extend_from_slice(b),
            Seg::Fill(n, b) => v.resize(v.len() + *n as usize, *b),
        }
    }
    v
}

/// A seekable in-memory source that delivers at most `chunks[i]` bytes per read,
/// never materialises fill segments, and can therefore stand for huge files.
#[derive(Debug, Clone)]
pub struct Sparse {
    segs: Vec<Seg>,
    pos: u64,
    len: u64,
    chunks: Vec<usize>,
    turn: usize,
}
impl Sparse {
    pub fn new(segs: Vec<Seg>, chunks: Vec<usize>) -> Self {
        let len = segs.iter().map(|s| s.len()).sum();
        Sparse {
            segs,
            pos: 0,
            len,
            chunks,
            turn: 0,
        }
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.pos >= self.len || buf.is_empty() {
            return Ok(0);
        }
        let cap = if self.chunks.is_empty() {
            buf.len()
        } else {
            let c = self.chunks[self.turn % self.chunks.len()];
            self.turn += 1;
            if c == 0 {
                // the Read contract allows it at any time; callers have to try again
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            c.min(buf.len())
        };
        let mut base = 0u64;
        for s in &self.segs {
            let l = s.len();
            if self.pos < base + l {
                let off = self.pos - base;
                let n = ((l - off).min(cap as u64)) as usize;
                match s {
                    Seg::Bytes(b) => {
                        buf[..n].copy_from_slice(&b[off as usize..off as usize + n])
                    }
                    Seg::Fill(_, b) => buf[..n].fill(*b),
                }
                self.pos += n as u64;
                return Ok(n);
            }
            base += l;
        }
        Ok(0)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let t = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if t < 0 || t > i64::MAX as i128 {
            return Err(std::io::Error::new(
                std::io::ErrorKind::InvalidInput,
                "invalid seek",
            ));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

/// A scratch file, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(data: &[u8]) -> Self {
        let mut n = 0u32;
        loop {
            let dir = std::env::var("FVH_TMP").unwrap_or_else(|_| "/tmp".into());
            let p = std::path::PathBuf::from(format!("{dir}/fvh-{}-{n}", std::process::id()));
            match std::fs::OpenOptions::new()
                .write(true)
                .create_new(true)
                .open(&p)
            {
                Ok(mut f) => {
                    use std::io::Write;
                    f.write_all(data).expect("scratch");
                    return Scratch(p);
                }
                Err(_) => n += 1,
            }
            assert!(n < 1000, "harness: no scratch file");
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
