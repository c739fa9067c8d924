//! Reading metadata: header, directories, fields.

use std::collections::HashMap;

use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, MetadataFetch, TiffMetadataReader};
use async_tiff::reader::Endianness;
use async_tiff::{ImageFileDirectory, TagValue};
use serde_json::{json, Value};

use crate::j;
use crate::source::{drive, Sparse};

pub fn tag_value(v: &TagValue) -> Value {
    let (t, b): (&str, Vec<u8>) = match v {
        TagValue::Byte(x) => ("Byte", x.to_be_bytes().to_vec()),
        TagValue::Short(x) => ("Short", x.to_be_bytes().to_vec()),
        TagValue::SignedByte(x) => ("SignedByte", x.to_be_bytes().to_vec()),
        TagValue::SignedShort(x) => ("SignedShort", x.to_be_bytes().to_vec()),
        TagValue::Signed(x) => ("Signed", x.to_be_bytes().to_vec()),
        TagValue::SignedBig(x) => ("SignedBig", x.to_be_bytes().to_vec()),
        TagValue::Unsigned(x) => ("Unsigned", x.to_be_bytes().to_vec()),
        TagValue::UnsignedBig(x) => ("UnsignedBig", x.to_be_bytes().to_vec()),
        TagValue::Float(x) => ("Float", x.to_bits().to_be_bytes().to_vec()),
        TagValue::Double(x) => ("Double", x.to_bits().to_be_bytes().to_vec()),
        TagValue::List(l) => {
            return json!({"t": "List", "v": [], "l": l.iter().map(tag_value).collect::<Vec<_>>()})
        }
        TagValue::Rational(n, d) => ("Rational", [n.to_be_bytes(), d.to_be_bytes()].concat()),
        TagValue::RationalBig(n, d) => ("RationalBig", [n.to_be_bytes(), d.to_be_bytes()].concat()),
        TagValue::SRational(n, d) => ("SRational", [n.to_be_bytes(), d.to_be_bytes()].concat()),
        TagValue::SRationalBig(n, d) => {
            ("SRationalBig", [n.to_be_bytes(), d.to_be_bytes()].concat())
        }
        TagValue::Ascii(s) => ("Ascii", s.as_bytes().to_vec()),
        TagValue::Ifd(x) => ("Ifd", x.to_be_bytes().to_vec()),
        TagValue::IfdBig(x) => ("IfdBig", x.to_be_bytes().to_vec()),
        _ => ("?", vec![]),
    };
    json!({"t": t, "v": b, "l": []})
}

fn u16s(v: &[u16]) -> Option<Vec<Value>> {
    Some(v.iter().map(|x| json!(x.to_be_bytes())).collect())
}
fn u16o(v: Option<u16>) -> Value {
    j::opt(v.and_then(|x| u16s(&[x])))
}
fn u32o(v: Option<u32>) -> Value {
    j::opt(v.map(|x| vec![json!(x.to_be_bytes())]))
}
fn u64s(v: Option<&[u64]>) -> Value {
    j::opt(v.map(|v| v.iter().map(|x| json!(x.to_be_bytes())).collect()))
}
fn f64s(v: Option<&[f64]>) -> Value {
    j::opt(v.map(|v| v.iter().map(|x| json!(x.to_bits().to_be_bytes())).collect()))
}
fn f64o(v: Option<f64>) -> Value {
    j::opt(v.map(|x| vec![json!(x.to_bits().to_be_bytes())]))
}
fn texto(v: Option<&str>) -> Value {
    j::opt(v.map(|s| vec![j::blob(s.as_bytes())]))
}
/// Resolutions in units of 1/1024.
fn ratio(v: Option<f64>) -> Value {
    j::opt(v.map(|x| {
        let n = x * 1024.0;
        if n.is_finite() && n.fract() == 0.0 && (0.0..1e15).contains(&n) {
            vec![j::w8(n as u64)]
        } else {
            vec![]
        }
    }))
}

pub fn dir(ifd: &ImageFileDirectory) -> Value {
    let f = j::obj(vec![
        ("new_subfile_type", u32o(ifd.new_subfile_type())),
        ("image_width", u32o(Some(ifd.image_width()))),
        ("image_height", u32o(Some(ifd.image_height()))),
        ("bits_per_sample", j::opt(u16s(ifd.bits_per_sample()))),
        ("compression", u16o(Some(ifd.compression().to_u16()))),
        (
            "photometric_interpretation",
            u16o(Some(ifd.photometric_interpretation().to_u16())),
        ),
        ("document_name", texto(ifd.document_name())),
        ("image_description", texto(ifd.image_description())),
        ("strip_offsets", u64s(ifd.strip_offsets())),
        ("orientation", u16o(ifd.orientation())),
        ("samples_per_pixel", u16o(Some(ifd.samples_per_pixel()))),
        ("rows_per_strip", u32o(ifd.rows_per_strip())),
        ("strip_byte_counts", u64s(ifd.strip_byte_counts())),
        ("min_sample_value", j::opt(ifd.min_sample_value().and_then(u16s))),
        ("max_sample_value", j::opt(ifd.max_sample_value().and_then(u16s))),
        ("x_resolution", ratio(ifd.x_resolution())),
        ("y_resolution", ratio(ifd.y_resolution())),
        (
            "planar_configuration",
            u16o(Some(ifd.planar_configuration().to_u16())),
        ),
        ("resolution_unit", u16o(ifd.resolution_unit().map(|u| u.to_u16()))),
        ("software", texto(ifd.software())),
        ("date_time", texto(ifd.date_time())),
        ("artist", texto(ifd.artist())),
        ("host_computer", texto(ifd.host_computer())),
        ("predictor", u16o(ifd.predictor().map(|p| p.to_u16()))),
        ("colormap", j::opt(ifd.colormap().and_then(|c| u16s(c)))),
        ("tile_width", u32o(ifd.tile_width())),
        ("tile_height", u32o(ifd.tile_height())),
        ("tile_offsets", u64s(ifd.tile_offsets())),
        ("tile_byte_counts", u64s(ifd.tile_byte_counts())),
        (
            "extra_samples",
            j::opt(
                ifd.extra_samples()
                    .map(|v| v.iter().map(|x| json!(x.to_u16().to_be_bytes())).collect()),
            ),
        ),
        (
            "sample_format",
            j::opt(Some(
                ifd.sample_format()
                    .iter()
                    .map(|x| json!(x.to_u16().to_be_bytes()))
                    .collect(),
            )),
        ),
        (
            "jpeg_tables",
            j::opt(ifd.jpeg_tables().map(|v| v.iter().map(|x| json!([x])).collect())),
        ),
        ("copyright", texto(ifd.copyright())),
        ("model_pixel_scale", f64s(ifd.model_pixel_scale())),
        ("model_tiepoint", f64s(ifd.model_tiepoint())),
        ("model_transformation", f64s(ifd.model_transformation())),
        ("gdal_metadata", texto(ifd.gdal_metadata())),
        ("gdal_nodata", texto(ifd.gdal_nodata())),
        (
            "lerc_parameters",
            j::opt(
                ifd.lerc_parameters()
                    .map(|v| v.iter().map(|x| json!(x.to_be_bytes())).collect()),
            ),
        ),
    ]);
    let mut others: Vec<_> = ifd
        .other_tags()
        .iter()
        .map(|(t, v)| (t.to_u16(), tag_value(v)))
        .collect();
    others.sort_by_key(|(t, _)| *t);
    let o: Vec<Value> = others
        .into_iter()
        .map(|(t, v)| json!({"tag": t, "val": v}))
        .collect();
    let g = match ifd.geo_key_directory() {
        None => json!({"p": 0, "e": j::opt(None)}),
        Some(g) => {
            macro_rules! keys {
                ($($conv:ident: $($name:ident)*;)*) => {
                    j::obj(vec![$($((stringify!($name), $conv(g.$name.clone())),)*)*])
                };
            }
            fn s(v: Option<String>) -> Value {
                texto(v.as_deref())
            }
            let f = keys! {
                u16o: model_type raster_type geographic_type geog_geodetic_datum
                    geog_prime_meridian geog_linear_units geog_angular_units geog_ellipsoid
                    geog_azimuth_units projected_type projection proj_coord_trans
                    proj_linear_units vertical vertical_datum vertical_units;
                s: citation geog_citation proj_citation vertical_citation;
                f64o: geog_linear_unit_size geog_angular_unit_size geog_semi_major_axis
                    geog_semi_minor_axis geog_inv_flattening geog_prime_meridian_long
                    proj_linear_unit_size proj_std_parallel1 proj_std_parallel2
                    proj_nat_origin_long proj_nat_origin_lat proj_false_easting
                    proj_false_northing proj_false_origin_long proj_false_origin_lat
                    proj_false_origin_easting proj_false_origin_northing proj_center_long
                    proj_center_lat proj_center_easting proj_center_northing
                    proj_scale_at_nat_origin proj_scale_at_center proj_azimuth_angle
                    proj_straight_vert_pole_long;
            };
            json!({"p": 1, "f": f, "e": u16o(g.epsg_code())})
        }
    };
    json!({"f": f, "o": o, "g": g})
}

pub fn next_of(r: &TiffMetadataReader) -> Value {
    // has_next_ifd and next_ifd_offset have to agree
    match (r.has_next_ifd(), r.next_ifd_offset()) {
        (true, Some(o)) => json!({"p": 1, "w": j::w8(o)}),
        (false, None) => json!({"p": 0, "w": []}),
        _ => json!({"p": 2, "w": []}),
    }
}

/// Open and read all directories, one by one and at once.
fn report<F: MetadataFetch>(fetch: &F, spent: impl Fn() -> bool) -> (Value, Value, Value) {
    let kind = |r: &str| json!({"r": if spent() { "hang" } else { r }, "ds": []});
    let opened = j::guard(|| drive(TiffMetadataReader::try_open(fetch)));
    let mut reader = match opened {
        None => return (json!({"r": "panic"}), json!([]), kind("panic")),
        Some(None) => return (json!({"r": "hang"}), json!([]), kind("hang")),
        Some(Some(Err(_))) => {
            let r = if spent() { "hang" } else { "err" };
            return (json!({"r": r}), json!([]), kind("err"));
        }
        Some(Some(Ok(r))) => r,
    };
    let open = json!({
        "r": "ok",
        "le": reader.endianness() == Endianness::LittleEndian,
        "big": reader.bigtiff(),
        "next": next_of(&reader),
    });
    let mut steps = vec![];
    let mut extra = 2;
    while extra > 0 && steps.len() < 40 {
        let r = j::guard(|| drive(reader.read_next_ifd(fetch)));
        let (r, d) = match r {
            None => ("panic", None),
            Some(None) => ("hang", None),
            Some(Some(Err(_))) => (if spent() { "hang" } else { "err" }, None),
            Some(Some(Ok(None))) => ("none", None),
            Some(Some(Ok(Some(ifd)))) => ("ok", Some(dir(&ifd))),
        };
        let mut step = json!({"r": r, "next": next_of(&reader)});
        match d {
            Some(d) => step["d"] = d,
            None => extra -= 1,
        }
        steps.push(step);
        if r == "panic" || r == "hang" {
            break;
        }
    }
    let all = j::guard(|| {
        drive(async {
            let mut reader = TiffMetadataReader::try_open(fetch).await?;
            let e = reader.endianness();
            let tiff = reader.read(fetch).await?;
            // the collected file has to agree with the reader
            if tiff.endianness() != e || reader.has_next_ifd() {
                return Ok(vec![]);
            }
            Ok::<_, async_tiff::error::AsyncTiffError>(tiff.ifds().to_vec())
        })
    });
    let all = match all {
        None => kind("panic"),
        Some(None) => kind("hang"),
        Some(Some(Err(_))) => kind("err"),
        Some(Some(Ok(ifds))) => {
            json!({"r": "ok", "ds": ifds.iter().map(dir).collect::<Vec<_>>()})
        }
    };
    (open, json!(steps), all)
}

/// Tile ranges of every directory must be computable without a crash.
fn touch_tiles<F: MetadataFetch>(fetch: &F) -> &'static str {
    let r = j::guard(|| {
        let Some(Ok(mut reader)) = drive(TiffMetadataReader::try_open(fetch)) else {
            return;
        };
        for _ in 0..40 {
            let Some(Ok(Some(ifd))) = drive(reader.read_next_ifd(fetch)) else {
                return;
            };
            let (nx, ny) = ifd.tile_count().unwrap_or((0, 0));
            let big = usize::MAX;
            for (x, y) in [
                (0, 0),
                (nx, 0),
                (0, ny),
                (nx.wrapping_sub(1), ny.wrapping_sub(1)),
                (big, 0),
                (0, big),
                (big, big),
            ] {
                let _ = ifd.tile_byte_range(x, y);
                let _ = ifd.tiles_byte_ranges(&[(x, y), (0, 0)]);
            }
        }
    });
    if r.is_some() {
        "ok"
    } else {
        "panic"
    }
}

/// The first directory through the low-level reader: every entry by index, last first; the
/// directory built from them; the directory as a whole; the offset of the next.
fn low<F: MetadataFetch>(fetch: &F, source: &Sparse) -> Value {
    let Some(Some(Ok(reader))) = j::guard(|| drive(TiffMetadataReader::try_open(fetch))) else {
        return j::opt(None);
    };
    let (e, big) = (reader.endianness(), reader.bigtiff());
    let Some(at) = reader.next_ifd_offset() else {
        return j::opt(None);
    };
    // the number of entries, from the bytes of the file
    let n = if at == 0 { None } else { source.peek(at, if big { 8 } else { 2 }) };
    let Some(n) = n else { return j::opt(None) };
    let n = n.iter().enumerate().fold(0u64, |a, (i, b)| {
        let k = if e == Endianness::LittleEndian { i } else { n.len() - 1 - i };
        a | (*b as u64) << (8 * k)
    });
    if n > 60 {
        return j::opt(None);
    }
    fn said<T>(r: &Option<Option<AsyncTiffResult<T>>>) -> &'static str {
        match r {
            None => "panic",
            Some(None) => "hang",
            Some(Some(Err(_))) => "err",
            Some(Some(Ok(_))) => "ok",
        }
    }
    let opened = j::guard(|| drive(ImageFileDirectoryReader::open(fetch, at, big, e)));
    let r = said(&opened);
    let Some(Some(Ok(ifd))) = opened else {
        return json!({"p": 1, "r": r, "at": j::w8(at), "ts": [], "from": {"r": "none"},
            "read": {"r": "none"}, "fin": {"r": "none"}});
    };
    let mut tags = HashMap::new();
    let mut read_all = true;
    let mut ts: Vec<Value> = vec![];
    for i in (0..n).rev() {
        let t = j::guard(|| drive(ifd.read_tag(fetch, i)));
        ts.push(match &t {
            Some(Some(Ok((t, v)))) => json!({"r": "ok", "tag": t.to_u16(), "val": tag_value(v)}),
            t => json!({"r": said(t)}),
        });
        match t {
            Some(Some(Ok((t, v)))) => {
                tags.entry(t).or_insert(v);
            }
            _ => read_all = false,
        }
    }
    ts.reverse();
    let from = if !read_all {
        json!({"r": "none"})
    } else {
        match j::guard(|| ImageFileDirectory::from_tags(tags, e)) {
            None => json!({"r": "panic"}),
            Some(Err(_)) => json!({"r": "err"}),
            Some(Ok(d)) => json!({"r": "ok", "d": dir(&d)}),
        }
    };
    let whole = j::guard(|| drive(ifd.read(fetch)));
    let read = match &whole {
        Some(Some(Ok(d))) => json!({"r": "ok", "d": dir(d)}),
        x => json!({"r": said(x)}),
    };
    let fin = j::guard(|| drive(ifd.finish(fetch)));
    let fin = match &fin {
        Some(Some(Ok(Some(o)))) => json!({"r": "ok", "next": {"p": 1, "w": j::w8(*o)}}),
        Some(Some(Ok(None))) => json!({"r": "ok", "next": {"p": 0, "w": []}}),
        x => json!({"r": said(x)}),
    };
    json!({"p": 1, "r": r, "at": j::w8(at), "ts": ts, "from": from, "read": read, "fin": fin})
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(case.get("cap").map(j::int).unwrap_or(1 << 26));
    let strict = j::text(&case["mode"]) == "strict";
    let source = Sparse::from_json(&case["file"], strict);
    if let Some(n) = case.get("fuel") {
        source.0.lock().unwrap().fuel = j::int(n);
    }
    let spent = || source.exhausted();
    let cache = &case["cache"];
    let (open, steps, all);
    let touch;
    let wants_low = case["low"] == 1;
    let mut lo = j::opt(None);
    if cache["p"] == 1 {
        let fetch = ReadaheadMetadataCache::new(source.clone())
            .with_initial_size(j::num(&cache["init"]))
            .with_multiplier(cache["m8"].as_u64().unwrap() as f64 / 8.0);
        (open, steps, all) = report(&fetch, spent);
        touch = touch_tiles(&fetch);
        if wants_low {
            lo = low(&fetch, &source);
        }
    } else {
        (open, steps, all) = report(&source, spent);
        touch = touch_tiles(&source);
        if wants_low {
            lo = low(&source, &source);
        }
    }
    json!({
        "id": case["id"], "file": case["file"],
        "open": open, "steps": steps, "all": all, "touch": touch, "low": lo,
    })
}
