//! The image-crate integration and the command-line tool.
use crate::obs::*;
use crate::readers::*;
use crate::Obs;
use image::metadata::Orientation;
use image::{ColorType, DynamicImage, ImageDecoder, ImageReader};
use serde_json::{json, Value as J};
use std::io::Cursor;
use std::process::{Command, Stdio};

fn samples(img: &DynamicImage) -> Vec<Vec<u8>> {
    match img.color() {
        ColorType::L8 | ColorType::Rgb8 => img.as_bytes().iter().map(|b| vec![*b]).collect(),
        ColorType::L16 | ColorType::Rgb16 => img
            .as_bytes()
            .chunks(2)
            .map(|c| u16::from_ne_bytes(c.try_into().unwrap()).to_be_bytes().to_vec())
            .collect(),
        _ => img
            .as_bytes()
            .chunks(4)
            .map(|c| {
                let v = f32::from_ne_bytes(c.try_into().unwrap());
                if v.is_nan() { vec![127, 192, 0, 0] } else { v.to_be_bytes().to_vec() }
            })
            .collect(),
    }
}

fn open(c: &J, data: &[u8], named: &Option<Named>) -> Option<(DynamicImage, bool)> {
    fitsrs::image_integration::register_fits_decoding_hook();
    let flip = |o: Orientation| o == Orientation::FlipVertical;
    match named {
        Some(p) => {
            let o = ImageReader::open(&p.0).ok()?.into_decoder().ok()?.orientation().ok()?;
            Some((image::open(&p.0).ok()?, flip(o)))
        }
        None => {
            let rd = || ImageReader::new(Cursor::new(data)).with_guessed_format().ok();
            let o = rd()?.into_decoder().ok()?.orientation().ok()?;
            let _ = c;
            Some((rd()?.decode().ok()?, flip(o)))
        }
    }
}

struct Named(std::path::PathBuf);
impl Drop for Named {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub fn run(c: &J, obs: &mut Obs) {
    let data = flat(&segs(&c["file"]));
    let named = c["ext"].as_str().map(|e| {
        let dir = std::env::var("FVH_TMP").expect("FVH_TMP");
        let p = std::path::Path::new(&dir).join(format!("h{}.{e}", std::process::id()));
        std::fs::write(&p, &data).unwrap();
        Named(p)
    });
    obs.push(match open(c, &data, &named) {
        None => json!({"t": "err"}),
        Some((img, flip)) => json!({"t": "image", "w": img.width(), "h": img.height(), "flip": flip,
            "color": format!("{:?}", img.color()),
            "b": samples(&img).iter().map(|b| bytes(b)).collect::<Vec<_>>()}),
    });
}

pub fn run_cli(c: &J, obs: &mut Obs) {
    let s = Scratch::new(&flat(&segs(&c["file"])));
    let exe = std::env::current_exe().unwrap().with_file_name("fits");
    let path = if c["ops"][0]["absent"].as_bool().unwrap_or(false) { s.0.with_extension("none") } else { s.0.clone() };
    let out = Command::new(exe)
        .arg("struct")
        .arg(path)
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("harness: fits");
    let lines: Vec<Vec<u8>> = out.stdout.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    obs.push(json!({"t": "cli", "ok": out.status.success(), "crash": out.status.code().is_none() || out.status.code() == Some(101),
                    "lines": lines}));
}
