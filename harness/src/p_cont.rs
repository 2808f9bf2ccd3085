//! C01 (indexed map) and C02 (chained stream).
use crate::rng::Rng;
use crate::Case;
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset_base::containers::indexed_map::entry::Entry;
use unreal_asset_base::containers::{Chain, IndexedMap};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn c02() -> Vec<Case> {
    vec![("ops", chain_ops), ("seam", chain_seam), ("exact", chain_exact), ("single", chain_single), ("short_parts", chain_short), ("whole", chain_whole)]
}
pub fn c01() -> Vec<Case> {
    vec![("history", map_history), ("few_keys", map_few), ("removals", map_removals), ("entries", map_entries), ("bulk", map_bulk), ("equality", map_equality), ("ends", map_ends)]
}

fn seek_arg(r: &mut Rng, len: usize) -> SeekFrom {
    let near = |r: &mut Rng| r.us(len + 4) as i64;
    match r.below(7) {
        0 | 1 => SeekFrom::Start(near(r) as u64),
        2 => SeekFrom::End(-near(r)),
        3 => SeekFrom::End(r.us(4) as i64),
        4 => SeekFrom::Current(-near(r)),
        5 => SeekFrom::Current(near(r)),
        _ => SeekFrom::Current(0),
    }
}
fn drive<C: Read + Seek>(r: &mut Rng, chain: &mut C, whole: &mut Cursor<Vec<u8>>, steps: usize) -> Result<(), String> {
    let len = whole.get_ref().len();
    for i in 0..steps {
        if r.chance(3, 5) {
            let n = match r.below(4) { 0 => r.us(3), 1 => r.us(len + 3), _ => r.us(9) };
            let mut a = vec![0xA5u8; n];
            let mut b = vec![0xA5u8; n];
            let at = whole.position();
            let x = chain.read(&mut a).map_err(|e| format!("step {i}: read of {n} at {at}: {e:?}"))?;
            let y = whole.read(&mut b).unwrap();
            need!(x == y, "step {i}: read of {n} at {at} of {len} returned {x}, the concatenation gives {y}");
            need!(a == b, "step {i}: read of {n} at {at} gave {a:?}, the concatenation has {b:?}");
        } else {
            let s = seek_arg(r, len);
            let at = whole.position();
            let x = chain.seek(s);
            let y = whole.seek(s);
            need!(x.is_ok() == y.is_ok(), "step {i}: {s:?} at {at} of {len} gave {x:?}, the concatenation {y:?}");
            if let (Ok(x), Ok(y)) = (&x, &y) { need!(x == y, "step {i}: {s:?} at {at} of {len} gave {x}, the concatenation {y}"); }
        }
        let p = chain.stream_position().map_err(|e| format!("step {i}: {e:?}"))?;
        need!(p == whole.position(), "step {i}: position {p}, the concatenation is at {}", whole.position());
    }
    Ok(())
}
fn two(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    let (x, y) = (if r.chance(1, 8) { 0 } else { r.us(max) }, if r.chance(1, 8) { 0 } else { r.us(max) });
    ((0..x).map(|i| i as u8).collect(), (0..y).map(|i| 0x80 ^ i as u8).collect())
}
fn chain_ops(r: &mut Rng) -> Result<(), String> {
    let (a, b) = two(r, 30);
    let mut c = Chain::new(Cursor::new(a.clone()), Some(Cursor::new(b.clone())));
    let n = 3 + r.us(30);
    drive(r, &mut c, &mut Cursor::new([a, b].concat()), n)
}
fn chain_whole(r: &mut Rng) -> Result<(), String> {
    let (a, b) = two(r, 3000);
    // the parts' own positions before chaining do not matter
    let (mut x, mut y) = (Cursor::new(a.clone()), Cursor::new(b.clone()));
    x.set_position(r.us(a.len() + 1) as u64);
    y.set_position(r.us(b.len() + 1) as u64);
    let mut c = Chain::new(x, Some(y));
    let mut v = vec![];
    c.read_to_end(&mut v).map_err(|e| format!("{e:?}"))?;
    need!(v == [a.clone(), b.clone()].concat(), "reading {}+{} bytes to the end gave {} bytes", a.len(), b.len(), v.len());
    c.rewind().map_err(|e| format!("{e:?}"))?;
    drive(r, &mut c, &mut Cursor::new([a, b].concat()), 5)
}
fn chain_seam(r: &mut Rng) -> Result<(), String> {
    let (a, b) = (vec![1u8, 2, 3], vec![9u8, 8, 7, 6]);
    let mut c = Chain::new(Cursor::new(a.clone()), Some(Cursor::new(b.clone())));
    let mut w = Cursor::new([a, b].concat());
    for _ in 0..6 {
        let s = SeekFrom::Start(r.below(8));
        need!(c.seek(s).ok() == w.seek(s).ok(), "{s:?}");
        drive(r, &mut c, &mut w, 2)?;
    }
    Ok(())
}
fn chain_exact(r: &mut Rng) -> Result<(), String> {
    let (a, b) = two(r, 40);
    let mut c = Chain::new(Cursor::new(a.clone()), Some(Cursor::new(b.clone())));
    let mut w = Cursor::new([a, b].concat());
    let len = w.get_ref().len();
    for _ in 0..8 {
        let s = SeekFrom::Start(r.us(len + 2) as u64);
        need!(c.seek(s).ok() == w.seek(s).ok(), "{s:?}");
        let n = r.us(12);
        let (mut p, mut q) = (vec![0u8; n], vec![0u8; n]);
        let (x, y) = (c.read_exact(&mut p).is_ok(), w.read_exact(&mut q).is_ok());
        need!(x == y, "read_exact of {n} after {s:?} of {len}: {x}, the concatenation {y}");
        if x { need!(p == q, "read_exact of {n} after {s:?}: {p:?}, the concatenation {q:?}"); }
    }
    Ok(())
}
fn chain_single(r: &mut Rng) -> Result<(), String> {
    let (a, _) = two(r, 30);
    let mut c = Chain::new(Cursor::new(a.clone()), None);
    drive(r, &mut c, &mut Cursor::new(a), 20)
}
/// a part that hands out a few bytes at a time
struct Drip(Cursor<Vec<u8>>, usize);
impl Read for Drip {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { let n = buf.len().min(self.1); self.0.read(&mut buf[..n]) }
}
impl Seek for Drip { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn chain_short(r: &mut Rng) -> Result<(), String> {
    let (a, b) = two(r, 30);
    let k = 1 + r.us(4);
    let mut c = Chain::new(Drip(Cursor::new(a.clone()), k), Some(Drip(Cursor::new(b.clone()), k)));
    let w = [a, b].concat();
    let mut at = 0usize;
    for i in 0..20 {
        if r.chance(1, 3) {
            at = r.us(w.len() + 2);
            let p = c.seek(SeekFrom::Start(at as u64)).map_err(|e| format!("{e:?}"))?;
            need!(p as usize == at, "step {i}: seek to {at} gave {p}");
        }
        let n = r.us(12);
        let mut v = vec![0xA5u8; n];
        let g = c.read(&mut v).map_err(|e| format!("step {i}: {e:?}"))?;
        need!(g <= n && at + g <= w.len().max(at), "step {i}: read of {n} at {at} returned {g}");
        need!(g > 0 || n == 0 || at >= w.len(), "step {i}: read of {n} at {at} of {} returned nothing", w.len());
        need!(g == 0 || v[..g] == w[at..at + g], "step {i}: read of {n} at {at}: {v:?}");
        at += g;
        need!(c.stream_position().ok() == Some(at as u64), "step {i}: position is not {at}");
    }
    Ok(())
}

// ---- the indexed map against a plain list of (index, key, value) ----
#[derive(Clone, Default, Debug)]
struct Model { v: Vec<(usize, String, i64)> }
impl Model {
    fn pos(&self, k: &str) -> Option<usize> { self.v.iter().position(|e| e.1 == k) }
}
/// everything the map can be asked, against the list; an entry's index is learned when it appears and must not change
fn agree(m: &mut IndexedMap<String, i64>, w: &mut Model) -> Result<(), String> {
    need!(m.len() == w.v.len() && m.is_empty() == w.v.is_empty(), "length {} of {:?}", m.len(), w.v);
    let it: Vec<(usize, String, i64)> = m.iter().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    need!(it == w.v, "iteration gives {it:?}, the history {:?}", w.v);
    need!(m.iter().len() == w.v.len(), "iterator length");
    let back: Vec<(usize, String, i64)> = m.iter().rev().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    let mut rev = w.v.clone();
    rev.reverse();
    need!(back == rev, "iteration from the back gives {back:?}, the history {:?}", w.v);
    let mt: Vec<(usize, String, i64)> = m.iter_mut().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    need!(mt == w.v, "mutable iteration gives {mt:?}, the history {:?}", w.v);
    let mtb: Vec<(usize, String, i64)> = m.iter_mut().rev().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    need!(mtb == rev, "mutable iteration from the back gives {mtb:?}, the history {:?}", w.v);
    let rf: Vec<(usize, String, i64)> = (&*m).into_iter().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    need!(rf == w.v, "by-reference iteration gives {rf:?}, the history {:?}", w.v);
    need!(m.keys().cloned().collect::<Vec<_>>() == w.v.iter().map(|e| e.1.clone()).collect::<Vec<_>>() && m.keys().len() == w.v.len(), "keys");
    need!(m.keys().rev().cloned().collect::<Vec<_>>() == rev.iter().map(|e| e.1.clone()).collect::<Vec<_>>(), "keys from the back");
    need!(m.values().copied().collect::<Vec<_>>() == w.v.iter().map(|e| e.2).collect::<Vec<_>>() && m.values().len() == w.v.len(), "values");
    need!(m.values().rev().copied().collect::<Vec<_>>() == rev.iter().map(|e| e.2).collect::<Vec<_>>(), "values from the back");
    need!(m.values_mut().map(|v| *v).collect::<Vec<_>>() == w.v.iter().map(|e| e.2).collect::<Vec<_>>(), "mutable values");
    need!(m.values_mut().rev().map(|v| *v).collect::<Vec<_>>() == rev.iter().map(|e| e.2).collect::<Vec<_>>(), "mutable values from the back");
    let mut ks: Vec<(usize, String, i64)> = m.iter_key().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    ks.sort();
    let mut km: Vec<(usize, String, i64)> = m.iter_key_mut().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    km.sort();
    let mut srt = w.v.clone();
    srt.sort();
    need!(ks == srt && km == srt, "iteration by key gives {ks:?} / {km:?}, the history {:?}", w.v);
    need!(m.iter_key().len() == w.v.len(), "key iterator length");
    let mut idx: Vec<usize> = w.v.iter().map(|e| e.0).collect();
    idx.sort();
    need!(idx.windows(2).all(|p| p[0] != p[1]), "two entries share an index: {:?}", w.v);
    for (i, k, v) in &w.v {
        need!(m.get_by_key(k.as_str()) == Some(v) && m.get_by_key(k) == Some(v), "lookup of {k:?} gives {:?}, not {v}", m.get_by_key(k));
        need!(m.get_by_index(*i) == Some(v), "lookup of index {i} gives {:?}, not {v}", m.get_by_index(*i));
        need!(m.get_by_key_mut(k).copied() == Some(*v) && m.get_by_index_mut(*i).copied() == Some(*v), "mutable lookup of {k:?}/{i}");
        need!(m.contains_key(k) && m.contains_index(*i), "{k:?}/{i} is not contained");
    }
    for i in 0..w.v.len() + 6 {
        let has = w.v.iter().any(|e| e.0 == i);
        need!(m.contains_index(i) == has && m.get_by_index(i).is_some() == has && m.get_by_index_mut(i).is_some() == has, "index {i} present: {}, expected {has}", m.contains_index(i));
    }
    need!(m.get_by_key("absent").is_none() && !m.contains_key(&"absent".to_string()), "an absent key is found");
    Ok(())
}
fn learn(m: &IndexedMap<String, i64>, k: &str) -> Result<usize, String> {
    m.iter_key().find(|e| e.1 == k).map(|e| e.0).ok_or_else(|| format!("{k:?} is missing right after its insertion"))
}
fn put(m: &mut IndexedMap<String, i64>, w: &mut Model, k: &str, v: i64) -> Result<(), String> {
    m.insert(k.to_string(), v);
    note(m, w, k, v)
}
fn note(m: &IndexedMap<String, i64>, w: &mut Model, k: &str, v: i64) -> Result<(), String> {
    match w.pos(k) {
        Some(p) => w.v[p].2 = v,
        None => { let i = learn(m, k)?; w.v.push((i, k.to_string(), v)); }
    }
    Ok(())
}
fn removed(got: Option<(usize, String, i64)>, want: Option<(usize, String, i64)>) -> Result<(), String> {
    need!(got == want, "removal returned {got:?}, expected {want:?}");
    Ok(())
}
fn step(r: &mut Rng, m: &mut IndexedMap<String, i64>, w: &mut Model, keys: u64, rm: u64) -> Result<(), String> {
    let k = format!("k{}", r.below(keys));
    let v = r.below(1000) as i64;
    if r.chance(rm, 10) {
        if r.bool() || w.v.is_empty() {
            let want = w.pos(&k).map(|p| w.v.remove(p));
            return removed(m.remove_by_key(k.as_str()), want);
        }
        let i = if r.chance(1, 8) { r.us(20) } else { w.v[r.us(w.v.len())].0 };
        let want = w.v.iter().position(|e| e.0 == i).map(|p| w.v.remove(p));
        return removed(m.remove_by_index(i), want);
    }
    match r.below(9) {
        0..=2 => put(m, w, &k, v)?,
        3 => { let had = w.pos(&k).map(|p| w.v[p].2); let got = *m.entry(k.clone()).or_insert(v); need!(got == had.unwrap_or(v), "or_insert({k:?}) gives {got}"); note(m, w, &k, got)?; }
        4 => {
            let had = w.pos(&k).map(|p| w.v[p].2);
            let e = m.entry(k.clone());
            need!(e.key() == &k, "entry key");
            let x = e.or_insert_with_key(|q| q.len() as i64);
            *x += 1;
            let x = *x;
            need!(x == had.unwrap_or(k.len() as i64) + 1, "or_insert_with_key({k:?}) gives {x}");
            note(m, w, &k, x)?;
        }
        5 => match m.entry(k.clone()) {
            Entry::Occupied(mut o) => {
                let p = w.pos(&k).ok_or("an absent key has an occupied entry")?;
                need!(o.key() == &k && *o.get() == w.v[p].2, "occupied entry of {k:?} holds {:?}/{}", o.key(), o.get());
                if r.bool() { *o.get_mut() = v; w.v[p].2 = v; } else if r.bool() { let e = w.v.remove(p); removed(Some(o.remove_entry()), Some(e))?; } else { let e = w.v.remove(p); let g = o.remove(); need!(g == e.2, "remove gives {g}"); }
            }
            Entry::Vacant(e) => {
                need!(w.pos(&k).is_none() && e.key() == &k, "vacant entry of {k:?}");
                if r.bool() { *e.insert(v) += 1; note(m, w, &k, v + 1)?; } else { need!(e.into_key() == k, "into_key"); }
            }
        },
        6 => if let Some(x) = m.get_by_key_mut(k.as_str()) { *x = v; let p = w.pos(&k).ok_or("an absent key is found")?; w.v[p].2 = v; },
        7 => if !w.v.is_empty() { let p = r.us(w.v.len()); let i = w.v[p].0; *m.get_by_index_mut(i).ok_or("a present index is not found")? = v; w.v[p].2 = v; },
        _ => match r.below(3) {
            0 => { for (n, (i, _, x)) in m.iter_mut().enumerate() { need!(i == w.v[n].0, "mutable iteration index"); *x += n as i64; } for (n, e) in w.v.iter_mut().enumerate() { e.2 += n as i64; } }
            1 => { for x in m.values_mut() { *x ^= 1; } for e in w.v.iter_mut() { e.2 ^= 1; } }
            _ => { *m = m.clone(); }
        },
    }
    Ok(())
}
fn hist(r: &mut Rng, keys: u64, rm: u64, n: usize) -> Result<(), String> {
    let mut m = if r.bool() { IndexedMap::new() } else { IndexedMap::with_capacity(r.us(9)) };
    let mut w = Model::default();
    for i in 0..n {
        step(r, &mut m, &mut w, keys, rm).map_err(|e| format!("step {i}: {e}"))?;
        agree(&mut m, &mut w).map_err(|e| format!("after step {i}: {e}"))?;
    }
    let c = m.clone();
    need!(c == m, "a clone differs");
    let own: Vec<(usize, String, i64)> = if r.bool() { m.into_iter().collect() } else { let mut v: Vec<_> = m.into_iter().rev().collect(); v.reverse(); v };
    need!(own == w.v, "owned iteration gives {own:?}, the history {:?}", w.v);
    let mut c = c;
    agree(&mut c, &mut w).map_err(|e| format!("clone: {e}"))?;
    for _ in 0..4 { step(r, &mut c, &mut w, keys, 5)?; agree(&mut c, &mut w).map_err(|e| format!("clone, edited: {e}"))?; }
    Ok(())
}
fn map_history(r: &mut Rng) -> Result<(), String> { let n = 2 + r.us(40); hist(r, 30, 2, n) }
fn map_few(r: &mut Rng) -> Result<(), String> { let n = 2 + r.us(30); hist(r, 4, 4, n) }
fn map_removals(r: &mut Rng) -> Result<(), String> { let n = 10 + r.us(40); hist(r, 12, 5, n) }
fn map_entries(r: &mut Rng) -> Result<(), String> { let n = r.us(12); hist(r, 3, 3, n) }
fn map_bulk(r: &mut Rng) -> Result<(), String> {
    let n = r.us(12);
    let kv: Vec<(String, i64)> = (0..n).map(|i| (format!("k{}", r.below(8)), i as i64)).collect();
    let mut m: IndexedMap<String, i64> = if r.bool() { kv.iter().cloned().collect() } else { let mut m = IndexedMap::default(); m.extend(kv.iter().cloned()); m };
    let mut w = Model::default();
    for (k, v) in &kv {
        match w.pos(k) { Some(p) => w.v[p].2 = *v, None => w.v.push((learn(&m, k)?, k.clone(), *v)) }
    }
    agree(&mut m, &mut w)?;
    let a = IndexedMap::from([("a".to_string(), 1i64), ("b".to_string(), 2), ("a".to_string(), 3)]);
    need!(a.len() == 2 && a.get_by_key("a") == Some(&3) && a.values().copied().collect::<Vec<_>>() == [3, 2], "a map built from an array");
    for _ in 0..6 { step(r, &mut m, &mut w, 8, 4)?; agree(&mut m, &mut w)?; }
    Ok(())
}
fn map_equality(r: &mut Rng) -> Result<(), String> {
    let n = 1 + r.us(8);
    let kv: Vec<(String, i64)> = (0..n).map(|i| (format!("k{i}"), r.below(3) as i64)).collect();
    let a: IndexedMap<String, i64> = kv.iter().cloned().collect();
    let mut b = a.clone();
    need!(a == b, "equal maps are unequal");
    let p = r.us(n);
    match r.below(3) {
        0 => { b.insert(kv[p].0.clone(), kv[p].1 + 1); need!(a != b, "maps that differ in the value of {:?} are equal", kv[p].0); }
        1 => { b.insert("new".into(), 0); need!(a != b, "maps that differ in a key are equal"); }
        _ => { b.remove_by_key(kv[p].0.as_str()); need!(a != b, "maps that differ in a key are equal"); }
    }
    let c: IndexedMap<String, i64> = kv.iter().cloned().collect();
    need!(a == c, "maps built alike are unequal");
    Ok(())
}
/// taking from both ends visits every entry once
fn map_ends(r: &mut Rng) -> Result<(), String> {
    let mut m = IndexedMap::new();
    let mut w = Model::default();
    for _ in 0..r.us(12) { step(r, &mut m, &mut w, 9, 3)?; }
    let mut seen = vec![];
    let mut want: std::collections::VecDeque<_> = w.v.clone().into();
    let mut it = m.iter();
    loop {
        let f = r.bool();
        let x = if f { it.next() } else { it.next_back() }.map(|(i, k, v)| (i, k.clone(), *v));
        let y = if f { want.pop_front() } else { want.pop_back() };
        need!(x == y, "taking from the {}: {x:?}, expected {y:?}", if f { "front" } else { "back" });
        if x.is_none() { break; }
        seen.push(x);
    }
    need!(it.next().is_none() && it.next_back().is_none(), "an exhausted iterator yields");
    let mut want: std::collections::VecDeque<_> = w.v.clone().into();
    let mut it = m.into_iter();
    while !want.is_empty() {
        need!(it.len() == want.len(), "remaining length");
        let f = r.bool();
        let x = if f { it.next() } else { it.next_back() };
        let y = if f { want.pop_front() } else { want.pop_back() };
        need!(x == y, "taking owned from the {}: {x:?}, expected {y:?}", if f { "front" } else { "back" });
    }
    need!(it.next().is_none(), "an exhausted iterator yields");
    Ok(())
}
