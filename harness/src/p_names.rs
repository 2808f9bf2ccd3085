//! N01: the name table.
use crate::rng::Rng;
use crate::Case;
use unreal_asset_base::containers::{NameMap, SharedResource};
use unreal_asset_base::types::fname::{EMappedNameType, FName};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn n01() -> Vec<Case> {
    vec![("history", history), ("batch", batch), ("range", range), ("fnames", fnames), ("clones", clones)]
}

pub fn word(r: &mut Rng) -> String {
    match r.below(6) {
        0 => ["None", "", "Package", "IntProperty", "/Script/CoreUObject", "none", "A", "a"][r.us(8)].to_string(),
        1 => format!("n{}", r.below(6)),
        2 => r.string(6),
        _ => format!("{}{}", ["Foo", "Bar", "x"][r.us(3)], r.below(20)),
    }
}

fn same(m: &SharedResource<NameMap>, want: &[String], what: &str) -> Result<(), String> {
    let m = m.get_ref();
    need!(m.get_name_map_index_list() == want, "{what}: table {:?}, should be {want:?}", m.get_name_map_index_list());
    need!(m.is_empty() == want.is_empty(), "{what}: is_empty");
    for (i, w) in want.iter().enumerate() {
        need!(m.get_name_reference(i as i32) == w, "{what}: index {i} gives {:?}, should be {w:?}", m.get_name_reference(i as i32));
        need!(m.get_owned_name(i as i32) == *w, "{what}: owned index {i}");
        match m.search_name_reference(w) {
            Some(j) => need!(j >= 0 && (j as usize) < want.len() && want[j as usize] == *w, "{what}: search of {w:?} gives {j}"),
            None => return Err(format!("{what}: {w:?} not found")),
        }
    }
    Ok(())
}

fn add(r: &mut Rng, m: &mut SharedResource<NameMap>, model: &mut Vec<String>) -> Result<(), String> {
    let w = word(r);
    let had = model.contains(&w);
    need!(m.get_ref().search_name_reference(&w).is_some() == had, "search of {w:?} in {model:?}: {:?}", m.get_ref().search_name_reference(&w));
    let force = r.chance(1, 4);
    let i = match r.below(3) {
        0 if !force => {
            let n = r.i32();
            let f = m.get_mut().add_fname_with_number(&w, n);
            need!(f.get_number() == n && f.get_owned_content() == w, "add_fname_with_number({w:?}, {n}) gives {f:?}");
            match f { FName::Backed { index, ty, .. } => { need!(ty == EMappedNameType::Package, "type {ty:?}"); index } _ => return Err("not backed".into()) }
        }
        1 if !force => {
            let f = m.get_mut().add_fname(&w);
            need!(f.get_number() == 0 && f.get_owned_content() == w && f == *w.as_str() && f.eq_content(&FName::from_slice(&w)), "add_fname({w:?}) gives {f:?}");
            match f { FName::Backed { index, .. } => index, _ => return Err("not backed".into()) }
        }
        _ => m.get_mut().add_name_reference(w.clone(), force),
    };
    if had && !force {
        need!(i >= 0 && model.get(i as usize) == Some(&w), "adding {w:?} again gave index {i} of {model:?}");
    } else {
        need!(i as usize == model.len(), "adding {w:?} to {} names gave index {i}", model.len());
        model.push(w);
    }
    Ok(())
}

fn history(r: &mut Rng) -> Result<(), String> {
    let mut m = NameMap::new();
    let mut model: Vec<String> = vec![];
    same(&m, &model, "new")?;
    for _ in 0..r.us(30) {
        add(r, &mut m, &mut model)?;
    }
    same(&m, &model, "after the history")
}

fn batch(r: &mut Rng) -> Result<(), String> {
    let names: Vec<String> = (0..r.us(12)).map(|_| word(r)).collect();
    let mut m = NameMap::from_name_batch(&names);
    same(&m, &names, "batch")?;
    let mut model = names;
    for _ in 0..r.us(5) {
        add(r, &mut m, &mut model)?;
    }
    same(&m, &model, "batch, then additions")
}

fn range(r: &mut Rng) -> Result<(), String> {
    let names: Vec<String> = (0..r.cnt(4)).map(|i| format!("n{i}")).collect();
    let m = NameMap::from_name_batch(&names);
    for _ in 0..4 {
        let i = match r.below(4) { 0 => r.i32(), 1 => -1, 2 => names.len() as i32, _ => [i32::MIN, i32::MAX][r.us(2)] };
        let f = m.get_ref().create_fname(i, 3);
        let (a, b, c) = (m.get_ref().get_name_reference(i).to_string(), m.get_ref().get_owned_name(i), f.get_owned_content());
        need!(a == b && b == c, "index {i}: {a:?}, {b:?} and {c:?}");
        if i >= 0 && (i as usize) < names.len() { need!(a == names[i as usize], "index {i}: {a:?}"); }
        let _ = format!("{f:?}");
        let _ = f.ends_with("x");
    }
    Ok(())
}

fn fnames(r: &mut Rng) -> Result<(), String> {
    let mut m = NameMap::new();
    let mut made: Vec<(FName, String, i32)> = vec![];
    let mut model = vec![];
    for _ in 0..r.us(14) {
        add(r, &mut m, &mut model)?;
        let w = word(r);
        let n = r.i32();
        let f = m.get_mut().add_fname_with_number(&w, n);
        if !model.contains(&w) { model.push(w.clone()); }
        made.push((f, w, n));
    }
    for (f, w, n) in &made {
        need!(f.get_owned_content() == *w && f.get_number() == *n, "{f:?} was made as {w:?}, {n}");
        need!(f.get_content(|c| c == w), "{f:?}: content");
        let tail = w.chars().last().map(|c| c.to_string()).unwrap_or_default();
        need!(f.ends_with(&tail), "{f:?} ends with {tail:?}");
        for (g, v, k) in &made {
            need!(f.eq_content(g) == (w == v), "eq_content of {f:?} and {g:?}");
            if w == v && k == n {
                // one index unless a duplicate was forced in between
                let fi = if let FName::Backed { index, .. } = f { *index } else { -1 };
                let gi = if let FName::Backed { index, .. } = g { *index } else { -1 };
                need!((f == g) == (fi == gi), "equality of {f:?} and {g:?}");
            } else { need!(f != g, "{f:?} equals {g:?}"); }
        }
    }
    same(&m, &model, "fnames")
}

fn clones(r: &mut Rng) -> Result<(), String> {
    let mut m = NameMap::new();
    let mut model = vec![];
    for _ in 0..r.us(6) { add(r, &mut m, &mut model)?; }
    let mut c = m.clone_resource();
    need!(*m.get_ref() == *c.get_ref(), "a clone differs from its original");
    let mut cm = model.clone();
    for _ in 0..r.us(8) {
        if r.chance(1, 2) { add(r, &mut m, &mut model)?; } else { add(r, &mut c, &mut cm)?; }
    }
    same(&m, &model, "original")?;
    same(&c, &cm, "clone")?;
    drop(m);
    // names of the clone belong to the clone
    let f = c.get_mut().add_fname("own");
    need!(f.get_owned_content() == "own", "{f:?}");
    Ok(())
}
