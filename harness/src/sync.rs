//! Histories of calls on the synchronous API.
use crate::obs::*;
use crate::readers::*;
use crate::Obs;
use fitsrs::fits::HDU as H;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as TilePixels;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::header::extension::asciitable::TFormAsciiTable;
use fitsrs::hdu::header::extension::bintable::BinTable;
use fitsrs::hdu::header::extension::image::Image;
use fitsrs::{DataValue, Fits, Pixels, TableData, HDU};
use serde_json::{json, Value as J};
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Rdr: Read + Seek + Debug + Sized + 'static {
    fn img_raw(_: &mut Fits<Self>, _: &H<Image>) -> Option<Vec<u8>> {
        None
    }
    fn tab_raw(_: &TableData<&mut Self>) -> Option<Vec<u8>> {
        None
    }
    fn dup(_: &Fits<Self>) -> Option<Fits<Self>> {
        None
    }
}
impl Rdr for Cursor<Vec<u8>> {
    fn img_raw(f: &mut Fits<Self>, h: &H<Image>) -> Option<Vec<u8>> {
        Some(f.get_data(h).raw_bytes().to_vec())
    }
    fn tab_raw(t: &TableData<&mut Self>) -> Option<Vec<u8>> {
        Some(t.raw_bytes().to_vec())
    }
    fn dup(f: &Fits<Self>) -> Option<Fits<Self>> {
        Some(f.clone())
    }
}
impl Rdr for BufReader<std::fs::File> {}
impl Rdr for std::fs::File {}
impl Rdr for Sparse {
    fn dup(f: &Fits<Self>) -> Option<Fits<Self>> {
        Some(f.clone())
    }
}
impl Rdr for BufReader<Sparse> {}
impl Rdr for fitsrs::gz::GzReader<BufReader<std::fs::File>> {}

pub fn hdu_obs(h: &HDU) -> J {
    let (kind, bitpix, naxis, ncols, rows) = match h {
        HDU::Primary(i) | HDU::XImage(i) => {
            let x = i.get_header().get_xtension();
            (
                if matches!(h, HDU::Primary(_)) { "prim" } else { "image" },
                x.get_bitpix() as i8 as i64,
                x.get_naxis().iter().map(|n| big(*n)).collect::<Vec<_>>(),
                0,
                0,
            )
        }
        HDU::XBinaryTable(t) => {
            let x = t.get_header().get_xtension();
            ("bintable", 0, vec![], x.get_num_cols(), x.get_num_rows())
        }
        HDU::XASCIITable(t) => {
            let x = t.get_header().get_xtension();
            (
                "ascii",
                0,
                vec![big(x.get_naxis1()), big(x.get_naxis2())],
                x.get_num_cols(),
                x.get_num_rows(),
            )
        }
    };
    json!({"t": "hdu", "kind": kind, "off": big(h.get_data_unit_byte_offset()),
           "size": big(h.get_data_unit_byte_size()), "bitpix": bitpix, "naxis": naxis,
           "ncols": ncols, "rows": big(rows as u64)})
}

macro_rules! img_session {
    ($it:expr, $sub:expr) => {{
        let mut it = $it;
        let mut out: Vec<J> = vec![];
        for s in $sub {
            match s["k"].as_str().unwrap() {
                "it" => {
                    let n = s["n"].as_u64().unwrap();
                    let mut b = vec![];
                    let mut ended = false;
                    for _ in 0..n {
                        match it.next() {
                            Some(v) => b.push(bytes(&v.to_be_bytes())),
                            None => {
                                ended = true;
                                break;
                            }
                        }
                    }
                    out.push(json!({"t": "items", "b": b, "ended": ended}));
                }
                "skip" => {
                    let n = s["n"].as_u64().unwrap();
                    let ended = (0..n).any(|_| it.next().is_none());
                    out.push(json!({"t": "skipped", "b": [], "ended": ended}));
                }
                "rv" => match it.read_value(s["n"].as_u64().unwrap() as usize) {
                    Ok(v) => {
                        out.push(json!({"t": "val", "b": [bytes(&v.to_be_bytes())], "ended": false}))
                    }
                    Err(_) => out.push(json!({"t": "err", "b": [], "ended": false})),
                },
                k => panic!("harness: image op {k}"),
            }
        }
        out
    }};
}

pub fn data_value(v: &DataValue) -> J {
    let col = |c: &ColumnId| match c {
        ColumnId::Index(i) => *i as i64,
        ColumnId::Name(_) => -2,
    };
    let mk = |y: &str, c: i64, i: usize, b: Vec<u8>| json!({"y": y, "c": c, "i": i, "b": b});
    match v {
        DataValue::Logical { value, column, idx } => mk("L", col(column), *idx, vec![*value as u8]),
        DataValue::Bit {
            byte,
            bit_idx,
            column,
            idx,
        } => mk("X", col(column), *idx, vec![*byte, *bit_idx]),
        DataValue::UnsignedByte { value, column, idx } => mk("B", col(column), *idx, vec![*value]),
        DataValue::Short { value, column, idx } => {
            mk("I", col(column), *idx, value.to_be_bytes().to_vec())
        }
        DataValue::Integer { value, column, idx } => {
            mk("J", col(column), *idx, value.to_be_bytes().to_vec())
        }
        DataValue::Long { value, column, idx } => {
            mk("K", col(column), *idx, value.to_be_bytes().to_vec())
        }
        DataValue::Character { value, column, idx } => {
            let c = *value as u32;
            if c < 256 {
                mk("A", col(column), *idx, vec![c as u8])
            } else {
                json!({"y": "A", "c": col(column), "i": idx, "b": [c]})
            }
        }
        DataValue::Float { value, column, idx } => {
            mk("E", col(column), *idx, value.to_be_bytes().to_vec())
        }
        DataValue::Double { value, column, idx } => {
            mk("D", col(column), *idx, value.to_be_bytes().to_vec())
        }
        DataValue::ComplexFloat {
            real,
            imag,
            column,
            idx,
        } => {
            let mut b = real.to_be_bytes().to_vec();
            b.extend(imag.to_be_bytes());
            mk("C", col(column), *idx, b)
        }
        DataValue::ComplexDouble {
            real,
            imag,
            column,
            idx,
        } => {
            let mut b = real.to_be_bytes().to_vec();
            b.extend(imag.to_be_bytes());
            mk("M", col(column), *idx, b)
        }
        DataValue::VariableLengthArray32 {
            num_elems,
            offset_byte,
        } => {
            let mut b = num_elems.to_be_bytes().to_vec();
            b.extend(offset_byte.to_be_bytes());
            mk("P", -1, 0, b)
        }
        DataValue::VariableLengthArray64 {
            num_elems,
            offset_byte,
        } => {
            let mut b = num_elems.to_be_bytes().to_vec();
            b.extend(offset_byte.to_be_bytes());
            mk("Q", -1, 0, b)
        }
    }
}

fn f32_bytes(v: f32) -> J {
    if v.is_nan() {
        json!([127, 192, 0, 0])
    } else {
        bytes(&v.to_be_bytes())
    }
}

pub fn read_upto<R: Read>(r: &mut R, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = vec![0u8; n.clamp(1, 4096)];
    while v.len() < n {
        let want = (n - v.len()).min(buf.len());
        match r.read(&mut buf[..want]) {
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Ok(0) | Err(_) => break,
            Ok(k) => v.extend_from_slice(&buf[..k]),
        }
    }
    v
}

fn table_session<R: Rdr>(data: BinaryTableData<&mut R>, sub: &[J], out: &mut Vec<J>) {
    if let Some("pix") = sub.first().and_then(|s| s["k"].as_str()) {
        fn take<T>(mut it: impl Iterator<Item = T>, s: &J, f: impl Fn(T) -> J) -> (Vec<J>, bool) {
            for _ in 0..s["from"].as_u64().unwrap() {
                if it.next().is_none() {
                    return (vec![], true);
                }
            }
            let mut b = vec![];
            for _ in 0..s["n"].as_u64().unwrap() {
                match it.next() {
                    Some(v) => b.push(f(v)),
                    None => return (b, true),
                }
            }
            (b, false)
        }
        let s = &sub[0];
        let (ty, (b, ended)) = match data {
            BinaryTableData::Table(_) => ("table", (vec![], false)),
            BinaryTableData::TileCompressed(p) => match p {
                TilePixels::U8(it) => ("u8", take(it, s, |v| bytes(&v.to_be_bytes()))),
                TilePixels::I16(it) => ("i16", take(it, s, |v| bytes(&v.to_be_bytes()))),
                TilePixels::I32(it) => ("i32", take(it, s, |v| bytes(&v.to_be_bytes()))),
                TilePixels::F32(it) => ("f32", take(it, s, f32_bytes)),
                TilePixels::F64(it) => ("f64", take(it, s, f32_bytes)),
            },
        };
        out.push(json!({"t": "pix", "ty": ty, "b": b, "ended": ended}));
        return;
    }
    let mut sub = sub;
    let mut t = if let Some("rows0") = sub.first().and_then(|s| s["k"].as_str()) {
        // BinaryTableData::row_iter, without going through table_data
        let n = sub[0]["n"].as_u64().unwrap();
        let mut it = data.row_iter();
        rows(&mut it, n, out);
        sub = &sub[1..];
        it.table_data()
    } else {
        data.table_data()
    };
    for s in sub {
        match s["k"].as_str().unwrap() {
            "sel" => {
                let cols: Vec<ColumnId> = s["c"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| match c {
                        J::String(n) => ColumnId::Name(Box::leak(n.clone().into_boxed_str())),
                        n => ColumnId::Index(n.as_u64().unwrap() as usize),
                    })
                    .collect();
                t.select_fields(&cols);
                out.push(json!({"t": "sel", "v": [], "ended": false}));
            }
            "seek" => {
                let r = t.seek_to_row(s["n"].as_u64().unwrap() as usize);
                out.push(json!({"t": if r.is_ok() {"ok"} else {"err"}, "v": [], "ended": false}));
            }
            "it" => {
                let n = s["n"].as_u64().unwrap();
                let mut v = vec![];
                let mut ended = false;
                for _ in 0..n {
                    match t.next() {
                        Some(x) => v.push(data_value(&x)),
                        None => {
                            ended = true;
                            break;
                        }
                    }
                }
                out.push(json!({"t": "items", "v": v, "ended": ended}));
            }
            "raw" => {
                let b = R::tab_raw(&t).unwrap_or_default();
                out.push(json!({"t": "raw", "b": b}));
            }
            "rows" => {
                let mut it = t.row_iter();
                rows(&mut it, s["n"].as_u64().unwrap(), out);
                t = it.table_data();
            }
            "bytes" => {
                let mut b = t.bytes();
                let v = read_upto(&mut b, s["n"].as_u64().unwrap() as usize);
                out.push(json!({"t": "bytes", "b": v}));
                return;
            }
            k => panic!("harness: table op {k}"),
        }
    }
}

fn rows<R: Read + Seek + Debug>(it: &mut fitsrs::TableRowData<R>, n: u64, out: &mut Vec<J>) {
    let mut r = vec![];
    let mut ended = false;
    for _ in 0..n {
        match it.next() {
            Some(row) => r.push(json!(row.iter().map(data_value).collect::<Vec<_>>())),
            None => {
                ended = true;
                break;
            }
        }
    }
    out.push(json!({"t": "rows", "r": r, "ended": ended, "at": it.get_row_idx()}));
}

/// what a table says about its columns
fn meta(cur: &Option<HDU>, op: &J) -> J {
    match cur {
        Some(HDU::XBinaryTable(h)) => {
            let x = h.get_header().get_xtension();
            let find: Vec<i64> = op["names"]
                .as_array()
                .unwrap()
                .iter()
                .map(|n| x.find_field_by_ttype(n.as_str().unwrap()).map_or(-1, |i| i as i64))
                .collect();
            let z = match x.get_z_image() {
                None => json!({"has": false, "bitpix": 0, "naxis": []}),
                Some(z) => json!({"has": true, "bitpix": z.z_bitpix as i8 as i64,
                    "naxis": z.z_naxisn.iter().map(|n| big(*n)).collect::<Vec<_>>()}),
            };
            json!({"t": "meta", "kind": "bintable", "ncols": x.get_num_cols(), "nrows": big(x.get_num_rows() as u64),
                   "find": find, "z": z, "fields": [], "axes": []})
        }
        Some(HDU::XASCIITable(h)) => {
            let x = h.get_header().get_xtension();
            assert_eq!(x.get_tbcols().len(), x.get_tforms().len());
            let fields: Vec<J> = x
                .get_tbcols()
                .iter()
                .zip(x.get_tforms())
                .map(|(at, f)| {
                    let (y, w, d) = match f {
                        TFormAsciiTable::Character { w } => ("A", w, &0),
                        TFormAsciiTable::DecimalInteger { w } => ("I", w, &0),
                        TFormAsciiTable::FloatingPointFixed { w, d } => ("F", w, d),
                        TFormAsciiTable::EFloatingPointExp { w, d } => ("E", w, d),
                        TFormAsciiTable::DFloatingPointExp { w, d } => ("D", w, d),
                    };
                    json!({"at": big(*at), "y": y, "w": big(*w as u64), "d": big(*d as u64)})
                })
                .collect();
            json!({"t": "meta", "kind": "ascii", "ncols": x.get_tfields(), "nrows": big(x.get_num_rows() as u64),
                   "find": [], "z": {"has": false, "bitpix": 0, "naxis": []}, "fields": fields,
                   "axes": [big(x.get_naxis1()), big(x.get_naxis2())]})
        }
        _ => json!({"t": "na"}),
    }
}

fn step<R: Rdr>(fits: &mut Fits<R>, cur: &mut Option<HDU>, op: &J) -> J {
    let empty = vec![];
    let sub = op["sub"].as_array().unwrap_or(&empty);
    match op["op"].as_str().unwrap() {
        "next" | "gznext" => match fits.next() {
            None => json!({"t": "none"}),
            Some(Err(_)) => json!({"t": "err"}),
            Some(Ok(h)) => {
                let o = hdu_obs(&h);
                *cur = Some(h);
                o
            }
        },
        "pos" => json!({"t": "pos", "off": big(fits.get_position_data_unit() as u64)}),
        "img" => match cur {
            Some(HDU::Primary(h)) | Some(HDU::XImage(h)) => {
                let (ty, r) = match fits.get_data(h).pixels() {
                    Pixels::U8(it) => ("u8", img_session!(it, sub)),
                    Pixels::I16(it) => ("i16", img_session!(it, sub)),
                    Pixels::I32(it) => ("i32", img_session!(it, sub)),
                    Pixels::I64(it) => ("i64", img_session!(it, sub)),
                    Pixels::F32(it) => ("f32", img_session!(it, sub)),
                    Pixels::F64(it) => ("f64", img_session!(it, sub)),
                };
                json!({"t": "img", "ty": ty, "r": r})
            }
            _ => json!({"t": "na"}),
        },
        "imgraw" => match cur {
            Some(HDU::Primary(h)) | Some(HDU::XImage(h)) => match R::img_raw(fits, h) {
                Some(b) => json!({"t": "raw", "b": b}),
                None => json!({"t": "na"}),
            },
            _ => json!({"t": "na"}),
        },
        "tab" => match cur {
            Some(HDU::XBinaryTable(h)) => {
                let h: &H<BinTable> = h;
                let data = fits.get_data(h);
                let mut out = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| table_session(data, sub, &mut out)));
                match r {
                    Ok(()) => json!({"t": "tab", "r": out}),
                    Err(_) => json!({"t": "panic", "at": take_panic(), "r": out}),
                }
            }
            _ => json!({"t": "na"}),
        },
        "asc" => match cur {
            Some(HDU::XASCIITable(h)) => {
                let mut d = fits.get_data(h);
                let b = read_upto(&mut d, op["n"].as_u64().unwrap() as usize);
                json!({"t": "bytes", "b": b})
            }
            _ => json!({"t": "na"}),
        },
        "hdr" => match cur {
            None => json!({"t": "na"}),
            Some(HDU::Primary(h)) | Some(HDU::XImage(h)) => crate::header::header(h.get_header(), op),
            Some(HDU::XBinaryTable(h)) => crate::header::header(h.get_header(), op),
            Some(HDU::XASCIITable(h)) => crate::header::header(h.get_header(), op),
        },
        "meta" => meta(cur, op),
        "read" => {
            let b = read_upto(fits, op["n"].as_u64().unwrap() as usize);
            json!({"t": "bytes", "b": b})
        }
        k => panic!("harness: op {k}"),
    }
}

/// run the history; returns whether every op was executed
pub fn history<R: Rdr>(mut fits: Fits<R>, ops: &[J], obs: &mut Obs) {
    let mut cur: Option<HDU> = None;
    for op in ops {
        let o = if op["op"] == "clone" {
            match R::dup(&fits) {
                None => json!({"t": "na"}),
                Some(d) => {
                    let mut old = std::mem::replace(&mut fits, d);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        for _ in 0..op["burn"].as_u64().unwrap() {
                            if old.next().is_none() {
                                break;
                            }
                        }
                    }));
                    match r {
                        Ok(()) => json!({"t": "cloned"}),
                        Err(_) => json!({"t": "panic", "at": take_panic()}),
                    }
                }
            }
        } else {
            match catch_unwind(AssertUnwindSafe(|| step(&mut fits, &mut cur, op))) {
                Ok(o) => o,
                Err(_) => json!({"t": "panic", "at": take_panic()}),
            }
        };
        let stop = o["t"] == "panic";
        obs.push(o);
        if stop {
            return;
        }
    }
}

pub fn run(c: &J, obs: &mut Obs) {
    let segs = segs(&c["file"]);
    let ops = c["ops"].as_array().expect("ops");
    let chunks: Vec<usize> = c["chunks"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
        .unwrap_or_default();
    match c["rd"].as_str().unwrap_or("cursor") {
        "cursor" => history(Fits::from_reader(Cursor::new(flat(&segs))), ops, obs),
        "sparse" => history(Fits::from_reader(Sparse::new(segs, chunks)), ops, obs),
        "bufsparse" => {
            let cap = c["cap"].as_u64().unwrap_or(8192) as usize;
            history(
                Fits::from_reader(BufReader::with_capacity(cap.max(1), Sparse::new(segs, chunks))),
                ops,
                obs,
            )
        }
        "file" => {
            let s = Scratch::new(&flat(&segs));
            history(Fits::from_reader(std::fs::File::open(&s.0).unwrap()), ops, obs)
        }
        "buffile" => {
            let s = Scratch::new(&flat(&segs));
            history(
                Fits::from_reader(BufReader::new(std::fs::File::open(&s.0).unwrap())),
                ops,
                obs,
            )
        }
        "open" => {
            // FITSFile::open on a file with exactly these bytes (plain or gzip)
            let s = Scratch::new(&match c["disk"].as_str() {
                Some(h) => unhex(h),
                None => flat(&segs),
            });
            // the call itself may be a step of the history
            let said = ops.first().is_some_and(|o| o["op"] == "open");
            let rest = if said { &ops[1..] } else { ops };
            match fitsrs::FITSFile::open(&s.0) {
                Ok(f) => {
                    if said {
                        obs.push(json!({"t": "open"}));
                    }
                    history(f, rest, obs)
                }
                Err(_) => {
                    obs.push(json!({"t": "openerr"}));
                    obs.extend(rest.iter().map(|_| json!({"t": "closed"})));
                }
            }
        }
        r => panic!("harness: reader {r}"),
    }
}
