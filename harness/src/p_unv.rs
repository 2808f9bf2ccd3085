//! V01: unversioned headers and two-byte name headers.
use crate::ar::Ar;
use crate::rng::Rng;
use crate::Case;
use bitvec::prelude::*;
use std::io::Write;
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::types::SerializedNameHeader;
use unreal_asset_base::unversioned::header::{UnversionedHeader, UnversionedHeaderFragment};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn v01() -> Vec<Case> {
    vec![("fragment", fragment), ("header", header), ("name_header", name_header), ("truncated", truncated)]
}
fn ar(r: &mut Rng) -> Ar {
    let mut a = Ar::new(r.pick(&[EngineVersion::VER_UE4_25, EngineVersion::VER_UE4_27, EngineVersion::VER_UE5_1]));
    a.unversioned = true;
    a
}
fn fragment(r: &mut Rng) -> Result<(), String> {
    let w = r.u32() as u16;
    let f = UnversionedHeaderFragment::from(w);
    need!(f.skip_num as u16 == w % 128 && f.has_zeros == (w / 128 % 2 == 1) && f.is_last == (w / 256 % 2 == 1) && f.value_num as u16 == w / 512, "{w:#x} became {f:?}");
    let mut a = ar(r);
    f.write(&mut a).map_err(|e| e.to_string())?;
    need!(a.bytes() == w.to_le_bytes(), "{w:#x} written as {:x?}", a.bytes());
    let mut b = a.like(a.bytes());
    let g = UnversionedHeaderFragment::read(&mut b).map_err(|e| e.to_string())?;
    need!(f == g && b.at() == 2, "{f:?} read back as {g:?}");
    need!(f.get_last_num() == if f.value_num == 0 { None } else { Some(f.value_num as u32 - 1) }, "last of {f:?}: {:?}", f.get_last_num());
    Ok(())
}
/// fragments as (skip, keep, zeros), and the stored form built by hand
fn build(r: &mut Rng) -> (Vec<(u8, u8, bool)>, Vec<bool>, Vec<u8>) {
    let n = 1 + match r.below(4) { 0 => 0, 1 => r.us(3), 2 => r.us(20), _ => r.us(6) };
    let big = r.chance(1, 3);
    let fr: Vec<(u8, u8, bool)> = (0..n).map(|_| (
        match r.below(3) { 0 => 0, 1 => 127, _ => r.below(128) as u8 },
        if big { r.below(128) as u8 } else { r.below(6) as u8 }, r.chance(1, 2))).collect();
    let bits: usize = fr.iter().filter(|f| f.2).map(|f| f.1 as usize).sum();
    let dense = r.below(3);
    let mut mask: Vec<bool> = (0..bits).map(|_| match dense { 0 => true, 1 => r.chance(9, 10), _ => r.bool() }).collect();
    let mut bytes = vec![];
    for (i, f) in fr.iter().enumerate() {
        let w = f.0 as u16 + if f.2 { 128 } else { 0 } + if i + 1 == n { 256 } else { 0 } + f.1 as u16 * 512;
        bytes.extend(w.to_le_bytes());
    }
    if bits > 0 {
        let width = if bits <= 8 { 8 } else if bits <= 16 { 16 } else { (bits + 31) / 32 * 32 };
        let pad = r.chance(1, 2);
        mask.extend((bits..width).map(|_| pad && r.bool()));
        for c in mask.chunks(8) { bytes.push(c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()); }
    }
    (fr, mask, bytes)
}
fn header(r: &mut Rng) -> Result<(), String> {
    let (fr, mask, bytes) = build(r);
    let mut file = bytes.clone();
    let tail = r.us(5);
    file.extend(r.bytes(tail));
    let a = ar(r);
    let mut b = a.like(file);
    let h = UnversionedHeader::new(&mut b).map_err(|e| format!("{fr:?}: {e:?}"))?.ok_or("no header")?;
    need!(b.at() == bytes.len() as u64, "{fr:?}: {} of {} bytes read", b.at(), bytes.len());
    need!(h.fragments.len() == fr.len(), "{fr:?}: {} fragments", h.fragments.len());
    let (mut total, mut plain, mut masked) = (0u32, 0, 0);
    for (i, (g, f)) in h.fragments.iter().zip(&fr).enumerate() {
        need!((g.skip_num, g.value_num, g.has_zeros, g.is_last) == (f.0, f.1, f.2, i + 1 == fr.len()), "fragment {i} of {fr:?}: {g:?}");
        need!(g.first_num == total + f.0 as u32, "fragment {i} of {fr:?} starts at {}, should be {}", g.first_num, total + f.0 as u32);
        total += f.0 as u32 + f.1 as u32;
        need!(g.get_last_num() == if f.1 == 0 { None } else { Some(total - 1) }, "fragment {i} of {fr:?} ends at {:?}", g.get_last_num());
        if f.2 { masked += f.1 as usize } else { plain += f.1 as usize }
    }
    need!(h.zero_mask.iter().map(|b| *b).collect::<Vec<_>>() == mask, "{fr:?}: mask {:?}, should be {mask:?}", h.zero_mask);
    need!(h.has_non_zero_values == (plain > 0 || mask[..masked].iter().any(|b| !b)), "{fr:?} {mask:?}: has_non_zero_values {}", h.has_non_zero_values);
    need!(h.unversioned_property_index == fr[0].0 as usize && h.current_fragment_index == 0 && h.zero_mask_index == 0, "{fr:?}: starts at {h:?}");
    let mut w = a.like(vec![]);
    h.write(&mut w).map_err(|e| e.to_string())?;
    need!(w.bytes() == bytes, "{fr:?} {mask:?}: written as {:x?}, was {bytes:x?}", w.bytes());
    // a header whose mask has just the bits its fragments need
    if masked > 0 {
        let mut g = h.clone();
        g.zero_mask = mask[..masked].iter().copied().collect::<BitVec<u8, Lsb0>>();
        let mut w = a.like(vec![]);
        g.write(&mut w).map_err(|e| e.to_string())?;
        need!(w.bytes().len() == bytes.len(), "{fr:?}: mask of {masked} bits written in {} bytes, should be {}", w.bytes().len(), bytes.len());
        let mut b = a.like(w.bytes());
        let k = UnversionedHeader::new(&mut b).map_err(|e| e.to_string())?.ok_or("no header")?;
        need!(k.fragments == g.fragments && k.zero_mask[..masked] == g.zero_mask[..] && k.zero_mask[masked..].not_any(), "{fr:?}: {:?} read back as {:?}", g.zero_mask, k.zero_mask);
    }
    // archives without unversioned properties have no header at all
    let mut v = a.like(bytes);
    v.unversioned = false;
    need!(matches!(UnversionedHeader::new(&mut v), Ok(None)) && v.at() == 0, "header read from a tagged archive");
    h.write(&mut v).map_err(|e| e.to_string())?;
    need!(v.at() == 0, "header written to a tagged archive");
    Ok(())
}
fn truncated(r: &mut Rng) -> Result<(), String> {
    let (fr, _, bytes) = build(r);
    let n = r.us(bytes.len());
    let a = ar(r);
    need!(UnversionedHeader::new(&mut a.like(bytes[..n].to_vec())).is_err(), "{fr:?}: read from {n} of {} bytes", bytes.len());
    Ok(())
}
fn name_header(r: &mut Rng) -> Result<(), String> {
    let mut a = ar(r);
    let h = SerializedNameHeader { is_wide: r.bool(), len: match r.below(3) { 0 => r.pick(&[0, 1, 127, 128, 255, 256, 32767, 32512]), _ => r.below(32768) as i32 } };
    let t = h.len as u16 + if h.is_wide { 32768 } else { 0 };
    h.write(&mut a).map_err(|e| e.to_string())?;
    need!(a.bytes() == t.to_be_bytes(), "{h:?} written as {:x?}", a.bytes());
    a.write_all(&[1]).unwrap();
    let mut b = a.like(a.bytes());
    let g = SerializedNameHeader::read(&mut b).map_err(|e| e.to_string())?;
    need!(g.is_wide == h.is_wide && g.len == h.len && b.at() == 2, "{h:?} read back as {g:?}");
    need!(SerializedNameHeader::read(&mut a.like(vec![1])).is_err(), "read from one byte");
    Ok(())
}
