#![allow(dead_code)]
//! Small FITS writer for the demonstrations.
pub fn card(kw: &str, v: &str) -> Vec<u8> {
    let mut b = format!("{kw:<8}= {v:>20}").into_bytes();
    b.resize(80, b' ');
    b
}
pub fn text(kw: &str, v: &str) -> Vec<u8> {
    let mut b = format!("{kw:<8}= '{v:<8}'").into_bytes();
    b.resize(80, b' ');
    b
}
pub fn raw(s: &str) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    b.resize(80, b' ');
    b
}
pub fn header(cards: &[Vec<u8>]) -> Vec<u8> {
    let mut b: Vec<u8> = cards.concat();
    b.extend(raw("END"));
    while b.len() % 2880 != 0 {
        b.push(b' ');
    }
    b
}
pub fn pad(mut d: Vec<u8>) -> Vec<u8> {
    while d.len() % 2880 != 0 {
        d.push(0);
    }
    d
}
pub fn image(bitpix: i32, naxis: &[u64], ext: bool, extra: &[Vec<u8>]) -> Vec<u8> {
    let mut c = vec![if ext { text("XTENSION", "IMAGE") } else { card("SIMPLE", "T") }];
    c.push(card("BITPIX", &bitpix.to_string()));
    c.push(card("NAXIS", &naxis.len().to_string()));
    for (i, n) in naxis.iter().enumerate() {
        c.push(card(&format!("NAXIS{}", i + 1), &n.to_string()));
    }
    if ext {
        c.push(card("PCOUNT", "0"));
        c.push(card("GCOUNT", "1"));
    }
    c.extend_from_slice(extra);
    header(&c)
}
pub fn empty() -> Vec<u8> {
    image(8, &[], false, &[])
}
pub fn bintable(tforms: &[&str], width: u64, rows: u64, pcount: u64, extra: &[Vec<u8>]) -> Vec<u8> {
    let mut c = vec![text("XTENSION", "BINTABLE"), card("BITPIX", "8"), card("NAXIS", "2")];
    c.push(card("NAXIS1", &width.to_string()));
    c.push(card("NAXIS2", &rows.to_string()));
    c.push(card("PCOUNT", &pcount.to_string()));
    c.push(card("GCOUNT", "1"));
    c.push(card("TFIELDS", &tforms.len().to_string()));
    for (i, t) in tforms.iter().enumerate() {
        c.push(text(&format!("TFORM{}", i + 1), t));
    }
    c.extend_from_slice(extra);
    header(&c)
}
