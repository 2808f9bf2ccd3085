use vstd::prelude::*;
verus! {
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/io.rs
//@ include prelude/seqs.rs
}
use base::*;
global size_of usize == 8;
broadcast use {group_bytes, group_cancel};
pub enum Error { Io(io::Error), Other }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: io::Error) -> Error { Error::Io(e) }
}
impl From<io::Error> for Error { fn from(e: io::Error) -> (r: Self) { Error::Io(e) } }
/// ArchiveReader / ArchiveWriter: a stream and the one flag these functions ask for
pub trait ArchiveReader: Read + Seek {
    spec fn unversioned(&self) -> bool;
    fn has_unversioned_properties(&self) -> (r: bool) ensures r == self.unversioned();
}
pub trait ArchiveWriter: Write + Seek {
    spec fn unversioned(&self) -> bool;
    fn has_unversioned_properties(&self) -> (r: bool) ensures r == self.unversioned();
}
// ---- bitvec::BitVec<u8, Lsb0>: assumed contract ----
pub open spec fn bit(raw: Seq<u8>, i: int) -> bool { (raw[i / 8] >> ((i % 8) as u8)) & 1 == 1 }
#[verifier::external_body]
pub struct Bits { x: Vec<u8> }
impl Bits {
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    pub uninterp spec fn bits(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bits() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<u8>) -> (r: Self) ensures r.raw() == v@, r.bits() == 8 * v@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bits(), r < 0x1000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, b: bool)
        ensures final(self).bits() == n, final(self).raw().len() == (n + 7) / 8,
            n == old(self).bits() ==> final(self).raw() == old(self).raw(),
            forall|i: int| 0 <= i < n ==> #[trigger] bit(final(self).raw(), i) == (if i < old(self).bits() { bit(old(self).raw(), i) } else { b }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw_slice(&self) -> (r: &[u8]) ensures r@ == self.raw() { unimplemented!() }
    /// iter().take(n).any(|e| !*e)
    #[verifier::external_body]
    pub fn vx_any_zero(&self, n: usize) -> (r: bool) ensures r == exists|i: int| 0 <= i < n && i < self.bits() && !bit(self.raw(), i) { unimplemented!() }
}
impl Clone for Bits {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec1(a: &[u8; 1]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
#[verifier::external_body]
pub fn vx_vec2(a: &[u8; 2]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
#[verifier::external_body]
pub fn vx_clone(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
pub trait VxOwned { fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vx_bytes(); spec fn vx_bytes(&self) -> Seq<u8>; }
impl VxOwned for [u8; 1] { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
impl VxOwned for [u8; 2] { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
impl VxOwned for Vec<u8> { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
//@ rewrite data\.to_vec\(\) ==> data.vx_to_vec()
//@ rewrite BitVec<u8, Lsb0> ==> Bits
//@ rewrite BitVec:: ==> Bits::
//@ rewrite mask\.iter\(\)\.take\(zero_mask_num as usize\)\.any\(\|e\| !\*e\) ==> mask.vx_any_zero(zero_mask_num as usize)
//@ rewrite ArchiveReader<impl PackageIndexTrait>( \+ \?Sized)? ==> ArchiveReader
//@ rewrite ArchiveWriter<impl PackageIndexTrait> ==> ArchiveWriter
//@ rewrite UnversionedHeaderFragment::from\( ==> fragment_from(
//@ struct unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment derive=Copy,Clone
//@ const unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment::SKIP_NUM_MASK
//@ const unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment::HAS_ZEROS_MASK
//@ const unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment::VALUE_NUM_SHIFT
//@ const unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment::IS_LAST_MASK
//@ struct unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeader
//@ struct unreal_asset/unreal_asset_base/src/types/mod.rs SerializedNameHeader

// ---- the packed form: 7 bits skip, zero flag, last flag, 7 bits keep ----
type Fr = UnversionedHeaderFragment;
pub open spec fn fits(f: Fr) -> bool { f.skip_num < 128 && f.value_num < 128 }
pub open spec fn code(skip: u8, value: u8, last: bool, zeros: bool) -> int {
    skip + (if zeros { 128int } else { 0 }) + (if last { 256int } else { 0 }) + value * 512
}
pub open spec fn word(f: Fr) -> u16 { code(f.skip_num, f.value_num, f.is_last, f.has_zeros) as u16 }
pub proof fn word_inj(a: Fr, b: Fr)
    requires fits(a), fits(b), word(a) == word(b),
    ensures a.skip_num == b.skip_num, a.value_num == b.value_num, a.is_last == b.is_last, a.has_zeros == b.has_zeros,
{}
pub open spec fn words(f: Seq<Fr>) -> Seq<u8>
    decreases f.len()
{ if f.len() == 0 { Seq::empty() } else { words(f.drop_last()) + le16(word(f.last())) } }
pub open spec fn total(f: Seq<Fr>) -> int
    decreases f.len()
{ if f.len() == 0 { 0 } else { total(f.drop_last()) + f.last().skip_num + f.last().value_num } }
pub open spec fn masked(f: Seq<Fr>) -> int
    decreases f.len()
{ if f.len() == 0 { 0 } else { masked(f.drop_last()) + (if f.last().has_zeros { f.last().value_num as int } else { 0 }) } }
pub open spec fn unmasked(f: Seq<Fr>) -> int
    decreases f.len()
{ if f.len() == 0 { 0 } else { unmasked(f.drop_last()) + (if f.last().has_zeros { 0 } else { f.last().value_num as int }) } }
pub proof fn bounds(f: Seq<Fr>)
    requires forall|i: int| 0 <= i < f.len() ==> fits(#[trigger] f[i]),
    ensures 0 <= total(f) <= 254 * f.len(), 0 <= masked(f) <= 127 * f.len(), 0 <= unmasked(f) <= 127 * f.len(), words(f).len() == 2 * f.len(),
    decreases f.len(),
{ if f.len() > 0 { assert(forall|i: int| 0 <= i < f.len() - 1 ==> f.drop_last()[i] == f[i]); bounds(f.drop_last()); } }
/// all but the last fragment announce another one; each starts where the running total puts it
pub open spec fn chain_ok(f: Seq<Fr>) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> fits(#[trigger] f[i])
    &&& forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).first_num == total(f.take(i)) + f[i].skip_num
}
pub open spec fn closed_chain(f: Seq<Fr>) -> bool {
    f.len() > 0 && f.last().is_last && forall|i: int| 0 <= i < f.len() - 1 ==> !(#[trigger] f[i]).is_last
}
/// width of a zero mask in bits, as stored
pub open spec fn width(n: int) -> int { if n <= 8 { 8 } else if n <= 16 { 16 } else { (n + 31) / 32 * 32 } }
pub open spec fn header_ok(h: UnversionedHeader) -> bool {
    &&& chain_ok(h.fragments@)
    &&& closed_chain(h.fragments@)
    &&& h.zero_mask.bits() == (if masked(h.fragments@) > 0 { width(masked(h.fragments@)) } else { 0 })
    &&& h.zero_mask.bits() > 0 ==> h.zero_mask.raw().len() * 8 == h.zero_mask.bits()
}
/// the stored form of a header that was read
pub open spec fn stored(h: UnversionedHeader) -> Seq<u8> {
    if h.zero_mask.bits() > 0 { words(h.fragments@) + blob(h.zero_mask.raw()) } else { words(h.fragments@) }
}
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs "From<u16> for UnversionedHeaderFragment" from mode=free as=fragment_from params=value
    ensures fits(r), word(r) == value, r.first_num == 0,
//@ at body-start
    proof {
        assert(forall|v: u16| (#[trigger] (v & 0x7fu16)) < 128 && (v >> 9u16) < 128
            && v as int == (v & 0x7f) + (if v & 0x80 != 0 { 128int } else { 0 }) + (if v & 0x100 != 0 { 256int } else { 0 }) + (v >> 9u16) * 512) by {
            assert forall|v: u16| (#[trigger] (v & 0x7fu16)) < 128 && (v >> 9u16) < 128
                && v as int == (v & 0x7f) + (if v & 0x80 != 0 { 128int } else { 0 }) + (if v & 0x100 != 0 { 256int } else { 0 }) + (v >> 9u16) * 512 by { split(v); }
        }
        assert((value & 0x7fu16) < 128);
    }
//@ end
proof fn split(v: u16)
    ensures v & 0x7fu16 < 128, (v >> 9u16) < 128,
        v as int == (v & 0x7fu16) + (if v & 0x80u16 != 0 { 128int } else { 0 }) + (if v & 0x100u16 != 0 { 256int } else { 0 }) + (v >> 9u16) * 512,
{
    assert(v & 0x7fu16 < 128 && (v >> 9u16) < 128
        && v == add(add(v & 0x7fu16, add(if v & 0x80u16 != 0 { 128u16 } else { 0u16 }, if v & 0x100u16 != 0 { 256u16 } else { 0u16 })), mul(v >> 9u16, 512u16))) by (bit_vector);
}
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment get_last_num
    requires self.first_num <= u32::MAX - 256,
    ensures r == (if self.value_num == 0 { None } else { Some((self.first_num + self.value_num - 1) as u32) }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment read params=asset
    ensures
        r is Ok ==> got(old(asset), final(asset), le16(word(r->Ok_0))) && fits(r->Ok_0) && r->Ok_0.first_num == 0,
        r is Err ==> kept(old(asset), final(asset)),
        old(asset).sound() && old(asset).post().len() >= 2 ==> r is Ok,
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeaderFragment write params=asset
    requires fits(*self),
    ensures r is Ok ==> put(old(asset), final(asset), le16(word(*self))), old(asset).sound() ==> r is Ok,
//@ at body-start
    proof { packed(self.skip_num, self.value_num, self.is_last, self.has_zeros); }
//@ end
proof fn packed(s: u8, v: u8, l: bool, z: bool)
    requires s < 128, v < 128,
    ensures (s as u16 | (if z { 0x80u16 } else { 0u16 }) | ((v as u16) << 9u16) | (if l { 0x100u16 } else { 0u16 })) == code(s, v, l, z) as u16,
{
    let x = s as u16; let y = v as u16;
    assert((x | (if z { 0x80u16 } else { 0u16 }) | (y << 9u16) | (if l { 0x100u16 } else { 0u16 })) == add(add(x, add(if z { 128u16 } else { 0u16 }, if l { 256u16 } else { 0u16 })), mul(y, 512u16))) by (bit_vector)
        requires x < 128, y < 128;
}
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeader load_zero_mask_data params=asset,num_bits
    requires num_bits <= 0x7fff_ffff,
    ensures
        r is Ok ==> r->Ok_0.bits() == width(num_bits as int) && r->Ok_0.raw().len() * 8 == r->Ok_0.bits() && got(old(asset), final(asset), blob(r->Ok_0.raw())),
        old(asset).sound() && old(asset).post().len() >= width(num_bits as int) / 8 ==> r is Ok,
//@ loop 0 it=it
    invariant num_bytes == width(num_bits as int) / 8, num_bytes % 4 == 0,
        data@.len() == it.index(), got(old(asset), asset, blob(data@)),
        old(asset).sound() ==> asset.sound(),
//@ at pre-loop 0
    proof { reveal(blob); assert(old(asset).pre() + Seq::<u8>::empty() =~= old(asset).pre()); assert(Seq::<u8>::empty() + old(asset).post() =~= old(asset).post()); }
//@ at loop-start 0
    let ghost d0 = data@; let ghost a0 = *asset;
//@ at loop-end 0
    proof {
        let b = data@.last();
        got_trans(old(asset), &a0, asset, blob(d0), seq![b]);
        reveal(blob);
        assert(data@ =~= d0 + seq![b]);
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeader new params=asset
    requires old(asset).post().len() < 0x1000_000,
    ensures
        !old(asset).unversioned() ==> r is Ok && r->Ok_0 is None && *final(asset) == *old(asset),
        old(asset).unversioned() && r is Ok ==> r->Ok_0 is Some,
        old(asset).unversioned() && r is Ok ==> ({
            let h = r->Ok_0->0;
            &&& header_ok(h)
            &&& got(old(asset), final(asset), stored(h))
            &&& h.unversioned_property_index == h.fragments@[0].skip_num && h.current_fragment_index == 0 && h.zero_mask_index == 0
            // something is stored unless every value is marked zero
            &&& h.has_non_zero_values == (unmasked(h.fragments@) > 0 || exists|i: int| 0 <= i < masked(h.fragments@) && !bit(h.zero_mask.raw(), i))
        }),
//@ loop 0
    invariant_except_break
        forall|i: int| 0 <= i < fragments@.len() ==> !(#[trigger] fragments@[i]).is_last,
    invariant
        old(asset).post().len() < 0x1000_000, old(asset).unversioned(),
        chain_ok(fragments@), first_num == total(fragments@), zero_mask_num == masked(fragments@), unmasked_num == unmasked(fragments@),
        got(old(asset), asset, words(fragments@)),
        words(fragments@).len() == 2 * fragments@.len(),
    ensures closed_chain(fragments@),
    decreases asset.post().len(),
//@ at pre-loop 0
    proof {
        assert(old(asset).pre() + Seq::<u8>::empty() =~= old(asset).pre()); assert(Seq::<u8>::empty() + old(asset).post() =~= old(asset).post());
    }
//@ at loop-start 0
    proof { bounds(fragments@); assert(fragments@.len() < 0x800_000); }
    let ghost f0 = fragments@; let ghost a0 = *asset;
//@ at loop-end 0
    proof { step(f0, fragments@, old(asset), &a0, asset); }
//@ rw let mut fragments = Vec::new\(\) ==> let mut fragments: Vec<UnversionedHeaderFragment> = Vec::new()
//@ rw if fragment\.is_last \{\s*break; ==> if fragment.is_last { proof { step(f0, fragments@, old(asset), &a0, asset); } break;
//@ rw (let \(zero_mask, has_non_zero_values\)) ==> proof { bounds(fragments@); assert(fragments@.take(0) =~= Seq::<Fr>::empty()); assert(fragments@.len() < 0x800_000); } let ghost a1 = *asset; \1
//@ rw (let unversioned_property_index) ==> proof { if zero_mask.bits() > 0 { got_trans(old(asset), &a1, asset, words(fragments@), blob(zero_mask.raw())); } } \1
//@ end
proof fn step<S: Stream>(f0: Seq<Fr>, f1: Seq<Fr>, o: &S, a0: &S, a: &S)
    requires chain_ok(f0), got(o, a0, words(f0)), f1.len() == f0.len() + 1, f1.drop_last() =~= f0, fits(f1.last()),
        f1.last().first_num == total(f0) + f1.last().skip_num, got(a0, a, le16(word(f1.last()))),
    ensures f1.drop_last() == f0, chain_ok(f1), got(o, a, words(f1)), forall|i: int| 0 <= i < f0.len() ==> f1[i] == f0[i],
        words(f1).len() == words(f0).len() + 2,
{
    got_trans(o, a0, a, words(f0), le16(word(f1.last())));
    assert forall|i: int| 0 <= i < f1.len() implies (#[trigger] f1[i]).first_num == total(f1.take(i)) + f1[i].skip_num by {
        if i < f0.len() { assert(f1[i] == f1.drop_last()[i]); assert(f1.take(i) =~= f0.take(i)); } else { assert(f1.take(i) =~= f0); }
    }
    assert forall|i: int| 0 <= i < f1.len() implies fits(#[trigger] f1[i]) by { if i < f0.len() { assert(f1[i] == f0[i]); } }
}
//@ fn unreal_asset/unreal_asset_base/src/unversioned/header.rs UnversionedHeader write params=asset
    requires forall|i: int| 0 <= i < self.fragments@.len() ==> fits(#[trigger] self.fragments@[i]),
    ensures
        !old(asset).unversioned() ==> r is Ok && *final(asset) == *old(asset),
        old(asset).unversioned() && r is Ok ==> exists|m: Seq<u8>| #[trigger] put(old(asset), final(asset), words(self.fragments@) + blob(m)) && mask_bytes(m, *self),
        // what was read is written back byte for byte
        old(asset).unversioned() && r is Ok && header_ok(*self) ==> put(old(asset), final(asset), stored(*self)),
        old(asset).sound() ==> r is Ok,
//@ loop 0 it=it
    invariant
        forall|i: int| 0 <= i < self.fragments@.len() ==> fits(#[trigger] self.fragments@[i]), old(asset).unversioned(),
        it.seq().len() == self.fragments@.len(), forall|i: int| 0 <= i < self.fragments@.len() ==> *#[trigger] it.seq()[i] == self.fragments@[i],
        put(old(asset), asset, words(self.fragments@.take(it.index() as int))), old(asset).sound() ==> asset.sound(),
//@ at pre-loop 0
    proof { assert(self.fragments@.take(0) =~= Seq::<Fr>::empty()); assert(words(Seq::<Fr>::empty()) =~= Seq::<u8>::empty()); assert(old(asset).post().len() == 0 ==> old(asset).post() =~= Seq::<u8>::empty()); assert(old(asset).pre() + Seq::<u8>::empty() =~= old(asset).pre()); assert(old(asset).post().skip(0) =~= old(asset).post()); }
//@ at loop-start 0
    let ghost a0 = *asset;
    proof {
        let n = it.index() as int;
        assert(self.fragments@.take(n + 1).drop_last() =~= self.fragments@.take(n));
        assert(self.fragments@.take(n + 1).last() == *fragment);
    }
//@ at loop-end 0
    proof { put_trans(old(asset), &a0, asset, words(self.fragments@.take(it.index() as int)), le16(word(*fragment))); }
//@ at post-loop 0
    let ghost a1 = *asset;
    proof {
        assert(self.fragments@.take(self.fragments@.len() as int) =~= self.fragments@);
        reveal(blob); assert(words(self.fragments@) + Seq::<u8>::empty() =~= words(self.fragments@));
        assert(self.zero_mask.bits() == 0 ==> mask_bytes(Seq::<u8>::empty(), *self) && put(old(asset), asset, words(self.fragments@) + blob(Seq::<u8>::empty())));
    }
//@ rw (asset\.write_all\(([\w.]+)\.as_raw_slice\(\)\)\?;) ==> \1 proof { put_trans(old(asset), &a1, asset, words(self.fragments@), blob(\2.raw())); assert(mask_bytes(\2.raw(), *self)); }
//@ end
/// the mask's bits, padded with zeros to the width it is read with
pub open spec fn mask_bytes(m: Seq<u8>, h: UnversionedHeader) -> bool {
    if h.zero_mask.bits() == 0 { m.len() == 0 } else {
        &&& m.len() * 8 == width(h.zero_mask.bits() as int)
        &&& forall|i: int| 0 <= i < m.len() * 8 ==> #[trigger] bit(m, i) == (i < h.zero_mask.bits() && bit(h.zero_mask.raw(), i))
    }
}
// ---- what is stored determines what is read ----
pub open spec fn same(a: Fr, b: Fr) -> bool { a.skip_num == b.skip_num && a.value_num == b.value_num && a.is_last == b.is_last && a.has_zeros == b.has_zeros && a.first_num == b.first_num }
pub proof fn words_first(f: Seq<Fr>)
    requires f.len() > 0,
    ensures words(f) == le16(word(f[0])) + words(f.skip(1)),
    decreases f.len(),
{
    if f.len() == 1 {
        assert(f.skip(1) =~= Seq::<Fr>::empty()); assert(f.drop_last() =~= Seq::<Fr>::empty());
        assert(le16(word(f[0])) + Seq::<u8>::empty() =~= le16(word(f[0]))); assert(Seq::<u8>::empty() + le16(word(f[0])) =~= le16(word(f[0])));
    } else {
        words_first(f.drop_last());
        assert(f.drop_last().skip(1) =~= f.skip(1).drop_last());
        assoc(le16(word(f[0])), words(f.skip(1).drop_last()), le16(word(f.last())));
    }
}
pub proof fn words_prefix(a: Seq<Fr>, b: Seq<Fr>, x: Seq<u8>, y: Seq<u8>)
    requires closed_chain(a), closed_chain(b), forall|i: int| 0 <= i < a.len() ==> fits(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> fits(#[trigger] b[i]),
        words(a) + x == words(b) + y,
    ensures a.len() == b.len(), x == y, forall|i: int| 0 <= i < a.len() ==> word(#[trigger] a[i]) == word(b[i]),
    decreases a.len(),
{
    words_first(a); words_first(b);
    assoc(le16(word(a[0])), words(a.skip(1)), x); assoc(le16(word(b[0])), words(b.skip(1)), y);
    cancel16(word(a[0]), words(a.skip(1)) + x, word(b[0]), words(b.skip(1)) + y);
    word_inj(a[0], b[0]);
    if a.len() == 1 {
        assert(b.len() == 1);
        assert(a.skip(1) =~= Seq::<Fr>::empty()); assert(b.skip(1) =~= Seq::<Fr>::empty());
        assert(words(a.skip(1)) + x =~= x); assert(words(b.skip(1)) + y =~= y);
    } else {
        assert(b.len() > 1);
        assert(forall|i: int| 0 <= i < a.len() - 1 ==> a.skip(1)[i] == a[i + 1]); assert(forall|i: int| 0 <= i < b.len() - 1 ==> b.skip(1)[i] == b[i + 1]);
        assert(a.skip(1).last() == a.last()); assert(b.skip(1).last() == b.last());
        words_prefix(a.skip(1), b.skip(1), x, y);
        assert forall|i: int| 0 <= i < a.len() implies word(#[trigger] a[i]) == word(b[i]) by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); assert(b[i] == b.skip(1)[i - 1]); } }
    }
}
pub proof fn totals_agree(a: Seq<Fr>, b: Seq<Fr>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> fits(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> fits(#[trigger] b[i]),
        forall|i: int| 0 <= i < a.len() ==> word(#[trigger] a[i]) == word(b[i]),
    ensures total(a) == total(b), masked(a) == masked(b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(word(a[a.len() - 1]) == word(b[a.len() - 1]));
        word_inj(a.last(), b.last());
        assert forall|i: int| 0 <= i < a.len() - 1 implies word(#[trigger] a.drop_last()[i]) == word(b.drop_last()[i]) by { assert(word(a[i]) == word(b[i])); }
        assert forall|i: int| 0 <= i < a.len() - 1 implies fits(#[trigger] a.drop_last()[i]) by { assert(fits(a[i])); }
        assert forall|i: int| 0 <= i < a.len() - 1 implies fits(#[trigger] b.drop_last()[i]) by { assert(fits(b[i])); }
        totals_agree(a.drop_last(), b.drop_last());
    }
}
/// reading a stream that starts with the stored form of h gives h's fragments, positions and mask
pub proof fn reading_is_unique(h: UnversionedHeader, g: UnversionedHeader, x: Seq<u8>, y: Seq<u8>)
    requires header_ok(h), header_ok(g), stored(h) + x == stored(g) + y,
    ensures h.fragments@.len() == g.fragments@.len(), forall|i: int| 0 <= i < h.fragments@.len() ==> same(#[trigger] h.fragments@[i], g.fragments@[i]),
        h.zero_mask.bits() == g.zero_mask.bits(), h.zero_mask.bits() > 0 ==> h.zero_mask.raw() == g.zero_mask.raw(), x == y,
{
    let a = h.fragments@; let b = g.fragments@;
    let p = if h.zero_mask.bits() > 0 { blob(h.zero_mask.raw()) + x } else { x };
    let q = if g.zero_mask.bits() > 0 { blob(g.zero_mask.raw()) + y } else { y };
    assoc(words(a), blob(h.zero_mask.raw()), x); assoc(words(b), blob(g.zero_mask.raw()), y);
    words_prefix(a, b, p, q);
    totals_agree(a, b);
    assert forall|i: int| 0 <= i < a.len() implies same(#[trigger] a[i], b[i]) by {
        assert(word(a[i]) == word(b[i]));
        word_inj(a[i], b[i]);
        assert forall|j: int| 0 <= j < i implies word(#[trigger] a.take(i)[j]) == word(b.take(i)[j]) by { assert(word(a[j]) == word(b[j])); }
        assert forall|j: int| 0 <= j < i implies fits(#[trigger] a.take(i)[j]) by { assert(fits(a[j])); }
        assert forall|j: int| 0 <= j < i implies fits(#[trigger] b.take(i)[j]) by { assert(fits(b[j])); }
        totals_agree(a.take(i), b.take(i));
        assert(a[i].first_num == total(a.take(i)) + a[i].skip_num); assert(b[i].first_num == total(b.take(i)) + b[i].skip_num);
    }
    if h.zero_mask.bits() > 0 { cancelblob(h.zero_mask.raw(), x, g.zero_mask.raw(), y); }
}
// ---- two-byte name headers ----
pub open spec fn name_head(wide: bool, len: int) -> Seq<u8> { seq![(len / 256 + (if wide { 128int } else { 0 })) as u8, (len % 256) as u8] }
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs SerializedNameHeader read params=reader
    ensures
        r is Ok ==> 0 <= r->Ok_0.len < 32768 && got(old(reader), final(reader), name_head(r->Ok_0.is_wide, r->Ok_0.len as int)),
        old(reader).sound() && old(reader).post().len() >= 2 ==> r is Ok,
//@ at body-start
    broadcast use {got_trans, put_trans};
    proof {
        assert(forall|a: u8| #[trigger] (a & 0x7fu8) == (if a >= 128 { sub(a, 128) } else { a })) by (bit_vector);
        assert(forall|a: u8| (#[trigger] (a & 0x80u8) > 0) == (a >= 128)) by (bit_vector);
        assert(forall|x: i32| 0 <= x < 128 ==> #[trigger] (x << 8i32) == mul(x, 256i32)) by (bit_vector);
    }
//@ rw (Ok\(SerializedNameHeader \{) ==> proof { assert(seq![first_byte] + seq![second_byte] =~= seq![first_byte, second_byte]); } \1
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs SerializedNameHeader write params=writer
    requires 0 <= self.len < 32768,
    ensures r is Ok ==> put(old(writer), final(writer), name_head(self.is_wide, self.len as int)), old(writer).sound() ==> r is Ok,
//@ at body-start
    broadcast use {got_trans, put_trans};
    proof { pack_head(self.len, 0); pack_head(self.len, 1); assert(seq![(self.len / 256 + (if self.is_wide { 128int } else { 0 })) as u8] + seq![(self.len % 256) as u8] =~= name_head(self.is_wide, self.len as int)); }
//@ end
proof fn pack_head(n: i32, w: u8)
    requires 0 <= n < 32768, w <= 1,
    ensures (w << 7u8 | (n >> 8i32) as u8) == (n / 256 + w * 128) as u8, n as u8 == n % 256,
{
    assert((w << 7u8 | (n >> 8i32) as u8) == add(mul(w, 128u8), (n / 256i32) as u8) && n as u8 == (n % 256i32) as u8 && n / 256i32 < 128 && n / 256i32 >= 0) by (bit_vector) requires 0 <= n < 32768, w <= 1;
}
pub proof fn name_head_unique(w: bool, n: int, v: bool, m: int)
    requires 0 <= n < 32768, 0 <= m < 32768, name_head(w, n) == name_head(v, m),
    ensures w == v, n == m,
{ assert(name_head(w, n)[0] == name_head(v, m)[0]); assert(name_head(w, n)[1] == name_head(v, m)[1]); }
} // verus!
fn main() {}
