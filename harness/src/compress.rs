//! Compresses data the way a TIFF writer would. Used to prepare cases; no code of the repository.

use std::io::Write;
use std::os::raw::c_void;

use serde_json::{json, Value};

use crate::j;

fn zlib(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// One zstd stream: a frame, or from variant 20 on several frames one after the other.
fn zstds(b: &[u8], v: u64) -> Option<Vec<u8>> {
    let level = (v % 20) as i32;
    if v < 20 || b.len() < 2 {
        return zstd::encode_all(b, level).ok();
    }
    let mut out = vec![];
    for c in b.chunks(b.len().div_ceil(2 + (v as usize % 3))) {
        out.extend(zstd::encode_all(c, level).ok()?);
    }
    Some(out)
}

fn xz(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = lzma_rust2::XzWriter::new(vec![], lzma_rust2::XzOptions::with_preset(level)).unwrap();
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

fn lerc_of(b: &[u8], fmt: u64, bits: u64, w: usize, h: usize, spp: usize) -> Option<Vec<u8>> {
    macro_rules! enc {
        ($t:ty) => {{
            let n = std::mem::size_of::<$t>();
            let v: Vec<$t> = b.chunks_exact(n).map(|c| <$t>::from_le_bytes(c.try_into().unwrap())).collect();
            lerc::encode(&v, None, w, h, spp, 1, 0, 0.0).ok()
        }};
    }
    match (fmt, bits) {
        (2, 8) => enc!(i8),
        (1, 8) => enc!(u8),
        (2, 16) => enc!(i16),
        (1, 16) => enc!(u16),
        (2, 32) => enc!(i32),
        (1, 32) => enc!(u32),
        (3, 32) => enc!(f32),
        (3, 64) => enc!(f64),
        _ => None,
    }
}

struct Out {
    b: Vec<u8>,
    at: usize,
}
unsafe extern "C" fn jw(p: *mut c_void, n: usize, u: *mut c_void) -> usize {
    let o = &mut *(u as *mut Out);
    let s = std::slice::from_raw_parts(p as *const u8, n);
    if o.b.len() < o.at + n {
        o.b.resize(o.at + n, 0);
    }
    o.b[o.at..o.at + n].copy_from_slice(s);
    o.at += n;
    n
}
unsafe extern "C" fn jskip(n: i64, u: *mut c_void) -> i64 {
    let o = &mut *(u as *mut Out);
    o.at += n as usize;
    n
}
unsafe extern "C" fn jseek(n: i64, u: *mut c_void) -> i32 {
    (*(u as *mut Out)).at = n as usize;
    1
}

/// Lossless JPEG 2000 of interleaved unsigned samples (8 bit, or 16 bit least significant first).
fn j2k(b: &[u8], bits: u64, w: u32, h: u32, spp: usize, jp2: bool) -> Option<Vec<u8>> {
    use openjpeg_sys as o;
    unsafe {
        let mut parms: Vec<o::opj_image_cmptparm_t> = (0..spp)
            .map(|_| {
                let mut p: o::opj_image_cmptparm_t = std::mem::zeroed();
                (p.dx, p.dy, p.w, p.h, p.prec, p.bpp) = (1, 1, w, h, bits as u32, bits as u32);
                p
            })
            .collect();
        let space = if spp < 3 { o::COLOR_SPACE::OPJ_CLRSPC_GRAY } else { o::COLOR_SPACE::OPJ_CLRSPC_SRGB };
        let img = o::opj_image_create(spp as u32, parms.as_mut_ptr(), space);
        if img.is_null() {
            return None;
        }
        ((*img).x0, (*img).y0, (*img).x1, (*img).y1) = (0, 0, w, h);
        let comps = std::slice::from_raw_parts_mut((*img).comps, spp);
        let n = bits as usize / 8;
        for (c, comp) in comps.iter_mut().enumerate() {
            if spp == 4 && c == 3 || spp == 2 && c == 1 {
                comp.alpha = 1;
            }
            for i in 0..(w * h) as usize {
                let at = (i * spp + c) * n;
                *comp.data.add(i) = if n == 1 { b[at] as i32 } else { u16::from_le_bytes([b[at], b[at + 1]]) as i32 };
            }
        }
        let mut p: o::opj_cparameters_t = std::mem::zeroed();
        o::opj_set_default_encoder_parameters(&mut p);
        p.tcp_numlayers = 1;
        p.cp_disto_alloc = 1;
        p.tcp_rates[0] = 0.0;
        p.numresolution = 1 + (w.min(h).ilog2() as i32).min(2);
        p.tcp_mct = 0;
        let codec = o::opj_create_compress(if jp2 { o::CODEC_FORMAT::OPJ_CODEC_JP2 } else { o::CODEC_FORMAT::OPJ_CODEC_J2K });
        let mut out = Out { b: vec![], at: 0 };
        let s = o::opj_stream_create(1 << 16, 0);
        o::opj_stream_set_write_function(s, Some(jw));
        o::opj_stream_set_skip_function(s, Some(jskip));
        o::opj_stream_set_seek_function(s, Some(jseek));
        o::opj_stream_set_user_data(s, &mut out as *mut Out as *mut c_void, None);
        let ok = o::opj_setup_encoder(codec, &mut p, img) == 1
            && o::opj_start_compress(codec, img, s) == 1
            && o::opj_encode(codec, s) == 1
            && o::opj_end_compress(codec, s) == 1;
        o::opj_stream_destroy(s);
        o::opj_destroy_codec(codec);
        o::opj_image_destroy(img);
        ok.then_some(out.b)
    }
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(1 << 30);
    let b = j::bytes(&case["b"]);
    let n = |k: &str| case.get(k).map(|v| v.as_u64().unwrap()).unwrap_or(0);
    let (w, h, spp, bits, fmt, v) = (n("w"), n("h"), n("spp"), n("bits"), n("fmt"), n("v"));
    let out = match n("m") {
        1 => Some(b),
        8 | 32946 => Some(zlib(&b, v as u32 % 10)),
        50000 => zstds(&b, v),
        5 => weezl::encode::Encoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8).encode(&b).ok(),
        34925 => Some(xz(&b, v as u32 % 4)),
        // variant: 0 plain, 1 wrapped in deflate, 2 wrapped in zstd
        34887 => lerc_of(&b, fmt, bits, w as usize, h as usize, spp as usize).map(|l| match v {
            1 => zlib(&l, 6),
            2 => zstd::encode_all(&l[..], 3).unwrap(),
            _ => l,
        }),
        50001 => match spp {
            3 => Some(webp::Encoder::from_rgb(&b, w as u32, h as u32).encode_lossless().to_vec()),
            4 => {
                // the colours of transparent pixels are kept, too
                let mut config = webp::WebPConfig::new().unwrap();
                config.lossless = 1;
                config.exact = 1;
                webp::Encoder::from_rgba(&b, w as u32, h as u32).encode_advanced(&config).ok().map(|m| m.to_vec())
            }
            _ => None,
        },
        34712 => j2k(&b, bits, w as u32, h as u32, spp as usize, v == 1),
        _ => None,
    };
    json!({"id": case["id"], "ok": out.is_some() as u8, "b": j::blob(&out.unwrap_or_default())})
}
