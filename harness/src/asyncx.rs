//! Histories of calls on the asynchronous API, under a schedule of arrivals.
//!
//! The schedule is a cycled list: 0 is a poll that is not ready, n > 0 a read
//! of at most n bytes.
use crate::obs::*;
use crate::readers::*;
use crate::Obs;
use fitsrs::hdu::data::DataStream;
use fitsrs::hdu::header::extension::Xtension;
use fitsrs::hdu::AsyncHDU;
use fitsrs::AsyncFits;
use futures::io::{AsyncRead, BufReader};
use futures::task::noop_waker;
use futures::Stream;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct Arrivals {
    src: Sparse,
    plan: Vec<usize>,
    turn: usize,
    /// has the source itself been not ready since the caller last looked
    pending: Rc<Cell<bool>>,
}
impl AsyncRead for Arrivals {
    fn poll_read(
        mut self: Pin<&mut Self>,
        _cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<std::io::Result<usize>> {
        let n = if self.plan.is_empty() {
            usize::MAX
        } else {
            let n = self.plan[self.turn % self.plan.len()];
            self.turn += 1;
            n
        };
        if n == 0 {
            self.pending.set(true);
            return Poll::Pending;
        }
        let k = n.min(buf.len());
        Poll::Ready(self.src.read(&mut buf[..k]))
    }
}

type Fits = AsyncFits<BufReader<Arrivals>>;

/// Poll until ready. A poll that says "not ready" while the source was never
/// not ready would leave the task asleep for ever: reported as `Err`.
fn drive<S: Stream + Unpin>(s: &mut S, pending: &Cell<bool>) -> Result<Option<S::Item>, ()> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    loop {
        pending.set(false);
        match Pin::new(&mut *s).poll_next(&mut cx) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending if pending.get() => {}
            Poll::Pending => return Err(()),
        }
    }
}
/// one poll only
fn poke<S: Stream + Unpin>(s: &mut S) -> bool {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    Pin::new(s).poll_next(&mut cx).is_pending()
}

fn hdu_obs(h: &AsyncHDU) -> J {
    let (kind, size, bitpix, naxis, ncols, rows) = match h {
        AsyncHDU::Primary(i) | AsyncHDU::XImage(i) => {
            let x = i.get_header().get_xtension();
            (
                if matches!(h, AsyncHDU::Primary(_)) { "prim" } else { "image" },
                x.get_num_bytes_data_block(),
                x.get_bitpix() as i8 as i64,
                x.get_naxis().iter().map(|n| big(*n)).collect::<Vec<_>>(),
                0,
                0,
            )
        }
        AsyncHDU::XBinaryTable(t) => {
            let x = t.get_header().get_xtension();
            ("bintable", x.get_num_bytes_data_block(), 0, vec![], x.get_num_cols(), x.get_num_rows())
        }
        AsyncHDU::XASCIITable(t) => {
            let x = t.get_header().get_xtension();
            (
                "ascii",
                x.get_num_bytes_data_block(),
                0,
                vec![big(x.get_naxis1()), big(x.get_naxis2())],
                x.get_num_cols(),
                x.get_num_rows(),
            )
        }
    };
    // the asynchronous reader does not say where the data unit starts
    json!({"t": "hdu", "kind": kind, "off": [], "size": big(size), "bitpix": bitpix, "naxis": naxis,
           "ncols": ncols, "rows": big(rows as u64)})
}

macro_rules! values {
    ($ty:expr, $st:expr, $op:expr, $pending:expr) => {{
        let mut st = $st;
        let n = $op["n"].as_u64().unwrap();
        // values passed over unseen
        let mut skip = $op["skip"].as_u64().unwrap_or(0);
        let mut b = vec![];
        let mut end = "more";
        while skip > 0 || (b.len() as u64) < n {
            match drive(&mut st, $pending) {
                Err(()) => {
                    end = "asleep";
                    break;
                }
                Ok(Some(Ok(_))) if skip > 0 => skip -= 1,
                Ok(Some(Ok(v))) => b.push(bytes(&v[0].to_be_bytes())),
                Ok(Some(Err(_))) => {
                    // nothing may follow an error
                    end = match drive(&mut st, $pending) {
                        Ok(None) => "err",
                        _ => "after",
                    };
                    break;
                }
                Ok(None) => {
                    end = match drive(&mut st, $pending) {
                        Ok(None) => "none",
                        _ => "after",
                    };
                    break;
                }
            }
        }
        // a further value asked for and given up while it was arriving
        if end == "more" && $op["poke"].as_bool().unwrap_or(false) {
            poke(&mut st);
        }
        json!({"t": "vals", "ty": $ty, "b": b, "end": end})
    }};
}

fn step(fits: &mut Fits, cur: &mut Option<AsyncHDU>, op: &J, pending: &Cell<bool>) -> J {
    match op["op"].as_str().unwrap() {
        "anext" => {
            // polls given up before the one that is waited for
            for _ in 0..op["poke"].as_u64().unwrap_or(0) {
                let w = noop_waker();
                let mut cx = Context::from_waker(&w);
                match Pin::new(&mut *fits).poll_next(&mut cx) {
                    Poll::Pending => {}
                    Poll::Ready(r) => return next_obs(r, cur),
                }
            }
            match drive(fits, pending) {
                Err(()) => json!({"t": "asleep"}),
                Ok(r) => next_obs(r, cur),
            }
        }
        "hdr" => match cur {
            None => json!({"t": "na"}),
            Some(AsyncHDU::Primary(h)) | Some(AsyncHDU::XImage(h)) => crate::header::header(h.get_header(), op),
            Some(AsyncHDU::XBinaryTable(h)) => crate::header::header(h.get_header(), op),
            Some(AsyncHDU::XASCIITable(h)) => crate::header::header(h.get_header(), op),
        },
        "avals" => match cur {
            None => json!({"t": "na"}),
            Some(AsyncHDU::Primary(h)) | Some(AsyncHDU::XImage(h)) => match fits.get_data(h) {
                DataStream::U8(s) => values!("u8", s, op, pending),
                DataStream::I16(s) => values!("i16", s, op, pending),
                DataStream::I32(s) => values!("i32", s, op, pending),
                DataStream::I64(s) => values!("i64", s, op, pending),
                DataStream::F32(s) => values!("f32", s, op, pending),
                DataStream::F64(s) => values!("f64", s, op, pending),
            },
            Some(AsyncHDU::XBinaryTable(h)) => values!("u8", fits.get_data(h), op, pending),
            Some(AsyncHDU::XASCIITable(h)) => values!("u8", fits.get_data(h), op, pending),
        },
        k => panic!("harness: async op {k}"),
    }
}

fn next_obs(r: Option<Result<AsyncHDU, fitsrs::error::Error>>, cur: &mut Option<AsyncHDU>) -> J {
    match r {
        None => json!({"t": "none"}),
        Some(Err(_)) => json!({"t": "err"}),
        Some(Ok(h)) => {
            let o = hdu_obs(&h);
            *cur = Some(h);
            o
        }
    }
}

pub fn run(c: &J, obs: &mut Obs) {
    let plan: Vec<usize> = c["plan"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
        .unwrap_or_default();
    let pending = Rc::new(Cell::new(false));
    let src = Arrivals {
        src: Sparse::new(segs(&c["file"]), vec![]),
        plan,
        turn: 0,
        pending: pending.clone(),
    };
    let cap = c["cap"].as_u64().unwrap_or(8192).max(1) as usize;
    let mut fits = AsyncFits::from_reader(BufReader::with_capacity(cap, src));
    let mut cur = None;
    for op in c["ops"].as_array().expect("ops") {
        match catch_unwind(AssertUnwindSafe(|| step(&mut fits, &mut cur, op, &pending))) {
            Ok(o) => obs.push(o),
            Err(_) => {
                obs.push(json!({"t": "panic", "at": take_panic()}));
                return;
            }
        }
    }
}
