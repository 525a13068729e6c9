//! ROOT record compression: sequence of blocks, each with a 9 byte header.
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Algo {
    None,
    Zlib(u8),
    Lzma(u8),
    Lz4(u8),
}

pub fn xxh64(data: &[u8], seed: u64) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let rd64 = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
    let round = |acc: u64, inp: u64| {
        acc.wrapping_add(inp.wrapping_mul(P2))
            .rotate_left(31)
            .wrapping_mul(P1)
    };
    let merge = |acc: u64, v: u64| (acc ^ round(0, v)).wrapping_mul(P1).wrapping_add(P4);
    let mut p = data;
    let mut h;
    if data.len() >= 32 {
        let mut v = [
            seed.wrapping_add(P1).wrapping_add(P2),
            seed.wrapping_add(P2),
            seed,
            seed.wrapping_sub(P1),
        ];
        while p.len() >= 32 {
            for i in 0..4 {
                v[i] = round(v[i], rd64(&p[8 * i..]));
            }
            p = &p[32..];
        }
        h = v[0]
            .rotate_left(1)
            .wrapping_add(v[1].rotate_left(7))
            .wrapping_add(v[2].rotate_left(12))
            .wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = merge(h, x);
        }
    } else {
        h = seed.wrapping_add(P5);
    }
    h = h.wrapping_add(data.len() as u64);
    while p.len() >= 8 {
        h ^= round(0, rd64(p));
        h = h.rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        p = &p[8..];
    }
    if p.len() >= 4 {
        h ^= (u32::from_le_bytes(p[..4].try_into().unwrap()) as u64).wrapping_mul(P1);
        h = h.rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        p = &p[4..];
    }
    for b in p {
        h ^= (*b as u64).wrapping_mul(P5);
        h = h.rotate_left(11).wrapping_mul(P1);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}

fn header(tag: &[u8; 2], method: u8, csize: usize, usize_: usize) -> Vec<u8> {
    let mut h = vec![tag[0], tag[1], method];
    h.extend_from_slice(&(csize as u32).to_le_bytes()[..3]);
    h.extend_from_slice(&(usize_ as u32).to_le_bytes()[..3]);
    h
}

/// Compress `data` into blocks of at most `block` uncompressed bytes (ROOT uses 0xffffff).
/// Returns None when a block does not shrink (ROOT then stores the whole record raw).
pub fn compress(data: &[u8], algo: Algo, block: usize) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    for chunk in data.chunks(block.clamp(1, 0xff_ffff)) {
        match algo {
            Algo::None => return None,
            Algo::Zlib(l) => {
                let mut e = flate2::write::ZlibEncoder::new(
                    Vec::new(),
                    flate2::Compression::new(l.clamp(1, 9) as u32),
                );
                e.write_all(chunk).unwrap();
                let c = e.finish().unwrap();
                out.extend(header(b"ZL", 8, c.len(), chunk.len()));
                out.extend(c);
            }
            Algo::Lzma(l) => {
                let mut e = xz2::write::XzEncoder::new(Vec::new(), l.clamp(1, 6) as u32);
                e.write_all(chunk).unwrap();
                let c = e.finish().unwrap();
                out.extend(header(b"XZ", 0, c.len(), chunk.len()));
                out.extend(c);
            }
            Algo::Lz4(l) => {
                let mode = if l >= 4 {
                    lz4::block::CompressionMode::HIGHCOMPRESSION(l as i32)
                } else {
                    lz4::block::CompressionMode::DEFAULT
                };
                let c = lz4::block::compress(chunk, Some(mode), false).unwrap();
                out.extend(header(b"L4", 1, c.len() + 8, chunk.len()));
                out.extend(xxh64(&c, 0).to_be_bytes());
                out.extend(c);
            }
        }
    }
    Some(out)
}

pub fn decompress(mut src: &[u8], objlen: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    while out.len() < objlen {
        if src.len() < 9 {
            return Err("truncated compression block".into());
        }
        let le3 = |b: &[u8]| b[0] as usize | (b[1] as usize) << 8 | (b[2] as usize) << 16;
        let (c, u) = (le3(&src[3..]), le3(&src[6..]));
        if src.len() < 9 + c {
            return Err("compression block exceeds record".into());
        }
        let body = &src[9..9 + c];
        let mut o = Vec::new();
        match &src[..2] {
            b"ZL" => {
                flate2::read::ZlibDecoder::new(body)
                    .read_to_end(&mut o)
                    .map_err(|e| e.to_string())?;
            }
            b"XZ" => {
                xz2::read::XzDecoder::new(body)
                    .read_to_end(&mut o)
                    .map_err(|e| e.to_string())?;
            }
            b"L4" => {
                if c < 8 || xxh64(&body[8..], 0).to_be_bytes() != body[..8] {
                    return Err("bad lz4 checksum".into());
                }
                o = lz4::block::decompress(&body[8..], Some(u as i32)).map_err(|e| e.to_string())?;
            }
            t => return Err(format!("unknown compression tag {t:?}")),
        }
        if o.len() != u {
            return Err(format!("block inflates to {} instead of {u}", o.len()));
        }
        out.extend(o);
        src = &src[9 + c..];
    }
    if !src.is_empty() || out.len() != objlen {
        return Err("trailing compressed data".into());
    }
    Ok(out)
}
