#![allow(warnings)]
use vstd::prelude::*;
verus! {
// Type mappings: property types, properties and schemas against their stored form; lookups through a class's chain of ancestors.
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
pub struct Guid(pub [u8; 16]);
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
//@ include prelude/archx.rs
/// stored form of a name: its place in the file's name table (names there are distinct)
pub uninterp spec fn pnm(n: Seq<char>) -> Seq<Pat>;
pub trait UReader: ArchiveReaderX {
    fn read_name(&mut self) -> (r: Result<String, Error>) ensures r is Ok ==> rd(old(self), final(self), pnm(r->Ok_0@));
}
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len};

//@ rewrite <R: ArchiveReader<PackageIndex>> ==> <R: UReader>
//@ rewrite UsmapReader<'_, '_, R> ==> R
//@ rewrite (Usmap\w+PropertyData)::new\(asset\)\?\.into\(\) ==> UsmapPropertyData::\1(\1::new(asset)?)
//@ rewrite (Usmap\w+PropertyData) (\{[^}]*\})\s*\.into\(\) ==> UsmapPropertyData::\1(\1 \2)
//@ rewrite IndexedMap<UsmapPropertyKey, UsmapProperty> ==> Props
//@ rewrite IndexedMap<String, UsmapSchema> ==> Schemas
//@ rewrite IndexedMap::with_capacity\(.*?\) ==> Props::new()
//@ rewrite property\.clone\(\) ==> vx_clone(&property)
//@ rewrite (\w+)\.name\.clone\(\) ==> vx_str(&\1.name)
//@ rewrite schema\.super_type\.clone\(\) ==> vx_str(&schema.super_type)
//@ rewrite property\.schema_index \+= j as u16 ==> property.schema_index = vx_add16(property.schema_index, j as u16)
//@ rewrite global_index \+= (.*?) as u32; ==> global_index = vx_add32(global_index, \1 as u32);
//@ rewrite \.get_by_key\(&\((\w+)\.to_string\(\), (\w+)\)\) ==> .get(\1, \2)
//@ rewrite ancestry\.get_parent\(\)\.map\(\|(\w+)\| \1\.get_owned_content\(\)\) ==> vx_owned(ancestry.get_parent())
//@ rewrite property_name\.get_content\(\|(\w+)\| schema\.get_property\(\1, (\w+)\)\) ==> schema.get_property(vx_content(property_name), \2)
//@ rewrite let _ = property_name\.get_content\(\|\w+\| \w+\.parse::<u32>\(\)\); ==>
//@ rewrite self\.schemas\.get_by_key\((&?)schema_name\) ==> self.schemas.get(\1schema_name)
//@ rewrite \.map\(\|\((\w+), _\)\| \1\) ==> .vx_first()

/// additions that overflow do not return (they are refused by the build's overflow checks)
#[verifier::external_body]
pub fn vx_add16(a: u16, b: u16) -> (r: u16) ensures r == a + b { a + b }
#[verifier::external_body]
pub fn vx_add32(a: u32, b: u32) -> (r: u32) ensures r == a + b { a + b }
#[verifier::external_body]
pub fn vx_clone(p: &UsmapProperty) -> (r: UsmapProperty) ensures r == *p { unimplemented!() }
#[verifier::external_body]
pub fn vx_str(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }

//@ enumnum unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs EPropertyType
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/array_property.rs UsmapArrayPropertyData
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/set_property.rs UsmapSetPropertyData
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/map_property.rs UsmapMapPropertyData
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/struct_property.rs UsmapStructPropertyData
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/enum_property.rs UsmapEnumPropertyData
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/shallow_property.rs UsmapShallowPropertyData
//@ variants unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs UsmapPropertyData UsmapEnumPropertyData UsmapStructPropertyData UsmapSetPropertyData UsmapArrayPropertyData UsmapMapPropertyData UsmapShallowPropertyData
pub enum UsmapPropertyData {
    UsmapEnumPropertyData(UsmapEnumPropertyData), UsmapStructPropertyData(UsmapStructPropertyData), UsmapSetPropertyData(UsmapSetPropertyData),
    UsmapArrayPropertyData(UsmapArrayPropertyData), UsmapMapPropertyData(UsmapMapPropertyData), UsmapShallowPropertyData(UsmapShallowPropertyData),
}
//@ struct unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs UsmapProperty

/// stored form of a property's type
pub open spec fn s_ty(d: UsmapPropertyData) -> Seq<Pat> decreases d {
    match d {
        UsmapPropertyData::UsmapArrayPropertyData(x) => p8(8) + s_ty(*x.inner_type),
        UsmapPropertyData::UsmapSetPropertyData(x) => p8(25) + s_ty(*x.inner_type),
        UsmapPropertyData::UsmapMapPropertyData(x) => p8(24) + (s_ty(*x.inner_type) + s_ty(*x.value_type)),
        UsmapPropertyData::UsmapStructPropertyData(x) => p8(9) + pnm(x.struct_type@),
        UsmapPropertyData::UsmapEnumPropertyData(x) => p8(26) + (s_ty(*x.inner_property) + pnm(x.name@)),
        UsmapPropertyData::UsmapShallowPropertyData(x) => p8(EPropertyType_n(x.property_type)),
    }
}
/// a type without parameters is not one of the types that have some
pub open spec fn plain(t: EPropertyType) -> bool { let n = EPropertyType_n(t); n != 8 && n != 9 && n != 24 && n != 25 && n != 26 }
pub open spec fn ty_ok(d: UsmapPropertyData) -> bool decreases d {
    match d {
        UsmapPropertyData::UsmapArrayPropertyData(x) => ty_ok(*x.inner_type),
        UsmapPropertyData::UsmapSetPropertyData(x) => ty_ok(*x.inner_type),
        UsmapPropertyData::UsmapMapPropertyData(x) => ty_ok(*x.inner_type) && ty_ok(*x.value_type),
        UsmapPropertyData::UsmapStructPropertyData(x) => true,
        UsmapPropertyData::UsmapEnumPropertyData(x) => ty_ok(*x.inner_property),
        UsmapPropertyData::UsmapShallowPropertyData(x) => plain(x.property_type),
    }
}
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/array_property.rs UsmapArrayPropertyData new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), s_ty(*r->Ok_0.inner_type)) && ty_ok(*r->Ok_0.inner_type),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/set_property.rs UsmapSetPropertyData new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), s_ty(*r->Ok_0.inner_type)) && ty_ok(*r->Ok_0.inner_type),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/map_property.rs UsmapMapPropertyData new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), s_ty(*r->Ok_0.inner_type) + s_ty(*r->Ok_0.value_type)) && ty_ok(*r->Ok_0.inner_type) && ty_ok(*r->Ok_0.value_type),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/struct_property.rs UsmapStructPropertyData new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pnm(r->Ok_0.struct_type@)),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/enum_property.rs UsmapEnumPropertyData new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), s_ty(*r->Ok_0.inner_property) + pnm(r->Ok_0.name@)) && ty_ok(*r->Ok_0.inner_property),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs UsmapPropertyData new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), s_ty(r->Ok_0)) && ty_ok(r->Ok_0),
//@ end
pub open spec fn f_prop() -> spec_fn(UsmapProperty) -> Seq<Pat> { |p: UsmapProperty| ((p16(p.schema_index) + p8(p.array_size)) + pnm(p.name@)) + s_ty(p.property_data) }
//@ fn unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs UsmapProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), f_prop()(r->Ok_0)) && ty_ok(r->Ok_0.property_data) && r->Ok_0.array_index == 0,
//@ end

// ---- schemas: every property of array size n stands for n entries, keyed by name and position in the array ----
pub type Key = (Seq<char>, u32);
pub struct Entry { pub k: Key, pub v: UsmapProperty }
#[verifier::external_body]
pub struct Props { x: u8 }
impl Props {
    /// what looking a key up gives
    pub uninterp spec fn m(&self) -> Map<Key, UsmapProperty>;
    /// the entries inserted, in order
    pub uninterp spec fn ins(&self) -> Seq<Entry>;
    #[verifier::external_body]
    pub fn new() -> (r: Props) ensures r.m() == Map::<Key, UsmapProperty>::empty(), r.ins() == Seq::<Entry>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (String, u32), v: UsmapProperty)
        ensures final(self).m() == old(self).m().insert((k.0@, k.1), v), final(self).ins() == old(self).ins().push(Entry { k: (k.0@, k.1), v }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.m().dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, n: &str, d: u32) -> (r: Option<&UsmapProperty>)
        ensures r is Some == self.m().dom().contains((n@, d)), r is Some ==> *r->0 == self.m()[(n@, d)] { unimplemented!() }
}
pub open spec fn elem(p: UsmapProperty, j: int) -> Entry {
    Entry { k: (p.name@, j as u32), v: UsmapProperty { name: p.name, schema_index: (p.schema_index + j) as u16, array_size: p.array_size, array_index: j as u16, property_data: p.property_data } }
}
pub open spec fn elems(p: UsmapProperty, n: nat) -> Seq<Entry> decreases n { if n == 0 { Seq::empty() } else { elems(p, (n - 1) as nat).push(elem(p, n - 1)) } }
pub open spec fn expand(s: Seq<UsmapProperty>, n: nat) -> Seq<Entry> decreases n { if n == 0 { Seq::empty() } else { expand(s, (n - 1) as nat) + elems(s[n - 1], s[n - 1].array_size as nat) } }
pub proof fn expand_same(s: Seq<UsmapProperty>, t: Seq<UsmapProperty>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i]
    ensures expand(s, n) == expand(t, n) decreases n
{ if n > 0 { expand_same(s, t, (n - 1) as nat); } }
/// names compare by their text: the name held by a copied property is the one read
pub open spec fn fits_in(p: UsmapProperty) -> bool { p.array_size == 0 || p.schema_index + p.array_size <= 65536 }
//@ struct unreal_asset/unreal_asset_base/src/unversioned/mod.rs UsmapSchema
pub open spec fn s_schema(v: UsmapSchema, raw: Seq<UsmapProperty>) -> Seq<Pat> {
    (((pnm(v.name@) + pnm(v.super_type@)) + p16(v.prop_count)) + p16(raw.len() as u16)) + pseq(raw, raw.len(), f_prop())
}
pub open spec fn schema_ok(v: UsmapSchema, raw: Seq<UsmapProperty>) -> bool {
    &&& v.properties.ins() == expand(raw, raw.len()) && v.module_path is None && raw.len() <= 0xffff
    &&& forall|i: int| 0 <= i < raw.len() ==> ty_ok((#[trigger] raw[i]).property_data) && raw[i].array_index == 0 && fits_in(raw[i])
}
pub open spec fn rd_schema<S: Archive + ?Sized>(a: &S, b: &S, v: UsmapSchema) -> bool { exists|raw: Seq<UsmapProperty>| #[trigger] schema_ok(v, raw) && rd(a, b, s_schema(v, raw)) }
//@ fn unreal_asset/unreal_asset_base/src/unversioned/mod.rs UsmapSchema read params=reader attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_schema(old(reader), final(reader), r->Ok_0),
//@ rw! Ok\((UsmapSchema \{[^}]*\})\) ==> let vx_r = \1; proof { assert(schema_ok(vx_r, raw)); assert(rd(old(reader), reader, s_schema(vx_r, raw))); assert(rd_schema(old(reader), reader, vx_r)); } Ok(vx_r)
//@ rw! (let property = UsmapProperty::new\(reader\)\?;) ==> \1 let ghost vx_p = property;
//@ at pre-loop 0
    let ghost mut raw: Seq<UsmapProperty> = Seq::empty();
    let ghost a0 = *reader;
    proof { rd_nil(reader); }
//@ loop 0 it=it
    invariant raw.len() == it.index(), properties.ins() == expand(raw, raw.len()), rd(&a0, reader, pseq(raw, raw.len(), f_prop())),
        forall|i: int| 0 <= i < raw.len() ==> ty_ok((#[trigger] raw[i]).property_data) && raw[i].array_index == 0 && fits_in(raw[i]),
//@ at loop-start 0
    let ghost a1 = *reader;
    let ghost e0 = properties.ins();
//@ loop 1 it=jt
    invariant properties.ins() == e0 + elems(vx_p, jt.index() as nat), jt.index() > 0 ==> vx_p.schema_index + jt.index() <= 65536,
//@ at loop-end 1
    proof {
        let j = jt.index() as int;
        assert(properties.ins().last().v == elem(vx_p, j).v);
        assert(properties.ins() =~= e0 + elems(vx_p, (j + 1) as nat));
    }
//@ at loop-end 0
    proof {
        let raw1 = raw.push(vx_p);
        expand_same(raw, raw1, raw.len());
        assert(rd(&a1, reader, f_prop()(vx_p)));
        pseq_push(Seq::empty(), raw, vx_p, f_prop());
        raw = raw1;
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/mod.rs UsmapSchema get_property params=name,duplication_index
    ensures r is Some == self.properties.m().dom().contains((name@, duplication_index)), r is Some ==> *r->0 == self.properties.m()[(name@, duplication_index)],
//@ end

// ---- lookups ----
#[verifier::external_body]
pub struct Schemas { x: u8 }
impl Schemas {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, UsmapSchema>;
    #[verifier::external_body]
    pub fn get(&self, n: &str) -> (r: Option<&UsmapSchema>) ensures r is Some == self.m().dom().contains(n@), r is Some ==> *r->0 == self.m()[n@] { unimplemented!() }
}
pub uninterp spec fn text(n: FName) -> Seq<char>;
#[verifier::external_body]
pub fn vx_content(n: &FName) -> (r: &str) ensures r@ == text(*n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_owned(n: Option<&FName>) -> (r: Option<String>) ensures r is Some == n is Some, r is Some ==> r->0@ == text(*n->0) { unimplemented!() }
//@ struct unreal_asset/unreal_asset_base/src/unversioned/ancestry.rs Ancestry
#[verifier::external_body]
pub fn vx_clone_a(a: &Ancestry) -> (r: Ancestry) ensures r.ancestry@ == a.ancestry@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_last(v: &Vec<FName>) -> (r: Option<&FName>) ensures r is Some == (v@.len() > 0), r is Some ==> *r->0 == v@.last() { v.last() }
//@ fn unreal_asset/unreal_asset_base/src/unversioned/ancestry.rs Ancestry new params=parent
    ensures r.ancestry@ == seq![parent],
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/ancestry.rs Ancestry get_parent
    ensures r is Some == (self.ancestry@.len() > 0), r is Some ==> *r->0 == self.ancestry@.last(),
//@ rw self\.ancestry\.last\(\) ==> vx_last(&self.ancestry)
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/ancestry.rs Ancestry with_parent params=parent
    ensures r.ancestry@ == self.ancestry@.push(parent),
//@ rw self\.clone\(\) ==> vx_clone_a(self)
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/ancestry.rs Ancestry without_parent
    ensures r.ancestry@ == (if self.ancestry@.len() > 0 { self.ancestry@.drop_last() } else { self.ancestry@ }),
//@ rw self\.clone\(\) ==> vx_clone_a(self)
//@ end
pub type Sch = Map<Seq<char>, UsmapSchema>;
/// the class n steps up from c
pub open spec fn up(s: Sch, c: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { c } else { s[up(s, c, (n - 1) as nat)].super_type@ } }
/// all of the first n classes from c up are known and none declares the property
pub open spec fn passed(s: Sch, c: Seq<char>, k: Key, n: nat) -> bool decreases n {
    if n == 0 { true } else { passed(s, c, k, (n - 1) as nat) && s.dom().contains(up(s, c, (n - 1) as nat)) && !s[up(s, c, (n - 1) as nat)].properties.m().dom().contains(k) }
}
/// properties of the first n classes
pub open spec fn before(s: Sch, c: Seq<char>, n: nat) -> int decreases n { if n == 0 { 0 } else { before(s, c, (n - 1) as nat) + s[up(s, c, (n - 1) as nat)].prop_count } }
pub open spec fn hit(s: Sch, c: Seq<char>, k: Key, n: nat, p: UsmapProperty, at: u32) -> bool {
    passed(s, c, k, n) && s.dom().contains(up(s, c, n)) && s[up(s, c, n)].properties.m().dom().contains(k)
        && p == s[up(s, c, n)].properties.m()[k] && at == before(s, c, n) + p.schema_index
}
pub open spec fn missed(s: Sch, c: Seq<char>, k: Key, n: nat) -> bool { passed(s, c, k, n) && !s.dom().contains(up(s, c, n)) }
/// r is what the lookup of a name inside these ancestors gives
pub open spec fn looks_up(s: Sch, anc: Seq<FName>, name: Seq<char>, d: u32, r: Option<(UsmapProperty, u32)>) -> bool decreases anc.len() {
    if anc.len() == 0 { r is None } else {
        let c = text(anc.last());
        if exists|n: nat| #[trigger] missed(s, c, (name, d), n) { looks_up(s, anc.drop_last(), c, d, r) }
        else { r is Some && exists|n: nat| #[trigger] hit(s, c, (name, d), n, (r->0).0, (r->0).1) }
    }
}
pub open spec fn val(r: Option<(&UsmapProperty, u32)>) -> Option<(UsmapProperty, u32)> { match r { Some(x) => Some((*x.0, x.1)), None => None } }
pub proof fn passed_up_to(s: Sch, c: Seq<char>, k: Key, m: nat, n: nat)
    requires passed(s, c, k, n), m < n
    ensures passed(s, c, k, m), s.dom().contains(up(s, c, m)), !s[up(s, c, m)].properties.m().dom().contains(k)
    decreases n
{ if m + 1 < n { passed_up_to(s, c, k, m, (n - 1) as nat); } }
/// a name that is found is not missed
pub proof fn found_once(s: Sch, c: Seq<char>, k: Key, n: nat, p: UsmapProperty, at: u32)
    requires hit(s, c, k, n, p, at)
    ensures !(exists|m: nat| #[trigger] missed(s, c, k, m))
{
    if exists|m: nat| #[trigger] missed(s, c, k, m) {
        let m = choose|m: nat| missed(s, c, k, m);
        if m < n { passed_up_to(s, c, k, m, n); } else if n < m { passed_up_to(s, c, k, n, m); }
    }
}
pub struct Usmap { pub schemas: Schemas }
//@ fn unreal_asset/unreal_asset_base/src/unversioned/mod.rs Usmap get_property_with_duplication_index params=property_name,ancestry,duplication_index attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures looks_up(self.schemas.m(), ancestry.ancestry@, text(*property_name), duplication_index, val(r)),
//@ at pre-loop 0
    let ghost s = self.schemas.m();
    let ghost k = (text(*property_name), duplication_index);
    let ghost mut n: nat = 0;
    let ghost c = if ancestry.ancestry@.len() > 0 { text(ancestry.ancestry@.last()) } else { Seq::empty() };
//@ loop 0
    invariant_except_break (optional_schema_name is Some) == (ancestry.ancestry@.len() > 0), optional_schema_name is Some ==> optional_schema_name->0@ == up(s, c, n), passed(s, c, k, n), global_index == before(s, c, n),
    invariant s == self.schemas.m(), k == (text(*property_name), duplication_index), ancestry.ancestry@.len() > 0 ==> c == text(ancestry.ancestry@.last()),
    ensures ancestry.ancestry@.len() > 0 ==> missed(s, c, k, n),
//@ at loop-end 0
    proof { n = n + 1; }
//@ rw return Some\(\((\w+), global_index\)\); ==> proof { assert(hit(s, c, k, n, *\1, global_index)); found_once(s, c, k, n, *\1, global_index); let rr = Some((*\1, global_index)); assert(hit(s, c, (text(*property_name), duplication_index), n, (rr->0).0, (rr->0).1)); assert(looks_up(s, ancestry.ancestry@, text(*property_name), duplication_index, rr)); assert(val(Some((\1, global_index))) == rr); } return Some((\1, global_index));
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/mod.rs Usmap get_property params=property_name,ancestry
    ensures exists|x: u32| looks_up(self.schemas.m(), ancestry.ancestry@, text(*property_name), 0, #[trigger] with(r, x)),
//@ rw (self\.get_property_with_duplication_index\(property_name, ancestry, 0\))\s*\.map\(\|\((\w+), _\)\| \2\) ==> let vx_r = \1; assert(with(match vx_r { Some(p) => Some(p.0), None => None }, match vx_r { Some(p) => p.1, None => 0 }) == val(vx_r)); match vx_r { Some(p) => Some(p.0), None => None }
//@ end
/// the properties of the first n classes from c up, nearest first
pub open spec fn all_of(s: Sch, c: Seq<char>, n: nat) -> Seq<UsmapProperty> decreases n { if n == 0 { Seq::empty() } else { all_of(s, c, (n - 1) as nat) + s[up(s, c, (n - 1) as nat)].properties.vals() } }
pub open spec fn known(s: Sch, c: Seq<char>, n: nat) -> bool { forall|i: nat| i < n ==> s.dom().contains(#[trigger] up(s, c, i)) }
pub open spec fn derefs(v: Seq<&UsmapProperty>) -> Seq<UsmapProperty> { Seq::new(v.len(), |i: int| *v[i]) }
impl Props { pub uninterp spec fn vals(&self) -> Seq<UsmapProperty>; }
#[verifier::external_body]
pub fn vx_extend<'a>(v: &mut Vec<&'a UsmapProperty>, p: &'a Props) ensures derefs(final(v)@) == derefs(old(v)@) + p.vals() { unimplemented!() }
pub open spec fn ends(s: Sch, c: Seq<char>, n: nat) -> bool { known(s, c, n) && !s.dom().contains(up(s, c, n)) }
//@ fn unreal_asset/unreal_asset_base/src/unversioned/mod.rs Usmap get_all_properties params=schema_name attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures exists|n: nat| #[trigger] ends(self.schemas.m(), schema_name@, n) && derefs(r@) == all_of(self.schemas.m(), schema_name@, n),
//@ rw (\w+)\.extend\((\w+)\.properties\.values\(\)\); ==> vx_extend(&mut \1, &\2.properties);
//@ rw while let Some\((\w+)\) = (self\.schemas\.get_by_key\(schema_name\)) \{ ==> loop { let vx_o = \2; if vx_o.is_none() { break; } let \1 = vx_o.unwrap();
//@ at pre-loop 0
    let ghost c = schema_name@;
    let ghost s = self.schemas.m();
    let ghost mut n: nat = 0;
    proof { assert(derefs(properties@) =~= Seq::empty()); }
//@ loop 0
    invariant_except_break known(s, c, n),
    invariant s == self.schemas.m(), schema_name@ == up(s, c, n), derefs(properties@) == all_of(s, c, n),
    ensures ends(s, c, n),
//@ at loop-end 0
    proof { n = n + 1; }
//@ end
pub open spec fn with(r: Option<&UsmapProperty>, x: u32) -> Option<(UsmapProperty, u32)> { match r { Some(p) => Some((*p, x)), None => None } }
} // verus!
fn main() {}
