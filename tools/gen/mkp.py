import re,sys
sys.path.insert(0,'/tmp/w')
from vx.rustsrc import RustFile, FnParts, expand
R='unreal_asset/unreal_asset_properties/src/'
B='unreal_asset/unreal_asset_base/src/'
MAC='simple_property_write optional_guid optional_guid_write defs='+R+'lib.rs'
out=[]
def e(s): out.append(s)
head=open('/verif/units/reg.vrs').read()
e('''#![allow(warnings)]
use vstd::prelude::*;
verus! {
// Leaf property values: every reader and writer against one stored form per property kind and package version.
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
#[derive(Copy, Clone)]
pub struct Guid(pub [u8; 16]);
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n''')
a=head.index('macro_rules! cmp_as'); b=head.index('cmp_as!(ObjectVersion, on);')
e(head[a:b]+'''cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
//@ include prelude/archx.rs
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len, casts::cnt_cast, pf_len};
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
/// stored form of a single precision number kept in double precision (its bits, unless it is a NaN)
pub mod fl { use vstd::prelude::*; use super::*;
#[verifier::opaque]
pub open spec fn pnarrow(v: F64, c: Ctx) -> Seq<Pat> { if nan(v) && !c.exact { anyb(4) } else { p32(narrow_(v).bits) } }
pub broadcast proof fn pf_len(v: F64, c: Ctx) ensures #[trigger] pnarrow(v, c).len() == 4 { reveal(pnarrow); p32_len(narrow_(v).bits); }
}
use fl::*;
// ---- machine integers ----
pub mod casts { use vstd::prelude::*;
pub broadcast proof fn cnt_cast(n: usize) ensures #[trigger] ((n as i32) as u32) == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); } }
pub proof fn cap(n: i32) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
pub proof fn cap64(n: i64) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
/// only returns when that much can be allocated
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), n <= isize::MAX { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, n <= isize::MAX { vec![0u8; n] }
pub proof fn pseq_len<T>(s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>, k: nat)
    requires forall|v: T| (#[trigger] f(v)).len() == k
    ensures pseq(s, n, f).len() == n * k decreases n
{ if n > 0 { pseq_len(s, (n - 1) as nat, f, k); assert((n - 1) * k + k == n * k) by (nonlinear_arith) requires n > 0; } }

// ---- what surrounds the lifted code ----
//@ rewrite <\\s*impl PackageIndexTrait\\s*> ==>
//@ rewrite where\\s+T: Debug \\+ Clone \\+ PartialEq \\+ Eq \\+ Hash,? ==>
//@ rewrite \\bArchiveReader\\b ==> ArchiveReaderX
//@ rewrite \\bArchiveWriter\\b ==> ArchiveWriterX
//@ rewrite \\.ok_or_else\\(\\s*(\\|\\|)?\\s*\\{?\\s*(PropertyError|Error)::\\w+(\\((?:[^()]|\\([^()]*\\))*\\))?\\s*\\}?\\s*\\)\\? ==> .ok_or(Error::Any)?
//@ rewrite Err\\(Error::\\w+\\((?:[^()]|\\((?:[^()]|\\([^()]*\\))*\\))*\\)\\) ==> Err(Error::Any)
//@ rewrite (self(?:\\.\\w+)+|\\be)\\.as_deref\\(\\) ==> vx_deref(&\\1)
//@ rewrite \\b(name|new_ancestry|ancestry)\\.clone\\(\\) ==> vx_dup(&\\1)
//@ rewrite \\bVec::with_capacity\\( ==> vx_with_capacity(
//@ rewrite vec!\\[0u8; ([^\\]]*)\\] ==> vx_zeros(\\1)
//@ rewrite asset\\.(read|write)_property_guid\\( ==> \\1_property_guid(asset, 
//@ rewrite let version(?:: CustomVersion)? = asset\\.get_custom_version::<(\\w+)>\\(\\); ==> let version = VxVer { version: asset.vx_cv::<\\1>() };
//@ rewrite asset\\s*\\.get_custom_version::<(\\w+)>\\(\\)\\s*\\.version ==> asset.vx_cv::<\\1>()
//@ rewrite (F\\w+Version)::(\\w+)\\s+as i32 ==> \\1_\\2
// f32 kept as f64: the conversions, and the stored form of their result
//@ rewrite asset\\.read_f32::<LE>\\(\\)\\? as f64 ==> vx_read_wide(asset)?
//@ rewrite asset\\.write_f32::<LE>\\((self[\\w.]+) as f32\\)\\? ==> vx_write_narrow(asset, \\1)?
//@ rewrite size_of::<(?:i32|u32|f32)>\\(\\) ==> 4usize
//@ rewrite size_of::<(?:i64|u64|f64)>\\(\\) ==> 8usize
//@ rewrite size_of::<(?:i16|u16)>\\(\\) ==> 2usize
//@ rewrite size_of::<(?:i8|u8|bool)>\\(\\) ==> 1usize
//@ rewrite \\bf32\\b ==> F32
//@ rewrite \\bf64\\b ==> F64
// a value that is read and dropped
//@ rewrite ;\\s*asset\\.read_(i32|u32)::<LE>\\(\\)\\?; ==> ; let ghost vx_q = *asset; let vx_d = asset.read_\\1::<LE>()?; proof { rd_any32(&vx_q, asset, vx_d as u32); }
//@ rewrite asset\\.write_(i8|u8)\\((self\\.\\w+|history_type)(?:\\.into\\(\\)| as \\w+)\\) ==> asset.write_\\1(\\2.to_\\1())
//@ rewrite (\\w+)\\.to_vec\\(\\) ==> vx_to_vec(&\\1)
#[verifier::external_body]
pub fn vx_to_vec<const N: usize>(x: &[u8; N]) -> (r: Vec<u8>) ensures r@ == x@ { x.to_vec() }
pub fn vx_deref<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures dv(r) == sv(*s) { match s { Some(x) => Some(x.as_str()), None => None } }
#[verifier::external_body]
pub fn vx_dup<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[derive(Copy, Clone)]
pub struct OrderedFloat<T>(pub T);
#[verifier::external_body]
pub struct Ancestry { x: u8 }
impl Ancestry { #[verifier::external_body] pub fn with_parent(&self, p: FName) -> Ancestry { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct PackageIndex { pub index: i32 }
impl PackageIndex { pub fn new(index: i32) -> (r: PackageIndex) ensures r.index == index { PackageIndex { index } } }
pub open spec fn lwc(c: Ctx) -> bool { o5n(c.o5) >= o5n(ObjectVersionUE5::LARGE_WORLD_COORDINATES) }
pub open spec fn pf(v: OrderedFloat<F64>, c: Ctx) -> Seq<Pat> { if lwc(c) { p64(v.0.bits) } else { pnarrow(v.0, c) } }
pub fn vx_read_wide<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<F64, Error>)
    ensures r is Ok ==> rd(old(asset), final(asset), pnarrow(r->Ok_0, rc(old(asset)))),
{
    let v = asset.read_f32::<LE>()?;
    let w = widen(v);
    proof { reveal(pnarrow); narrow_widen(v); rd_any32(old(asset), asset, v.bits); }
    Ok(w)
}
pub fn vx_write_narrow<S: ArchiveWriterX>(asset: &mut S, v: F64) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pnarrow(v, wc(old(asset)))),
{ proof { reveal(pnarrow); } asset.write_f32::<LE>(narrow(v)) }
/// four bytes the reader ignores, stored as zero
pub open spec fn pskip(c: Ctx) -> Seq<Pat> { if c.exact { p32(0) } else { anyb(4) } }
/// the flag words the writer stores
pub open spec fn flag(b: bool) -> i32 { if b { 1 } else { 0 } }

// ---- the guid of a property tag ----
#[verifier::opaque]
pub open spec fn pguid(g: Option<Guid>, c: Ctx) -> Seq<Pat> {
    if on(c.ov) >= on(ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG) { match g { Some(x) => pbool(true, c) + pblob(x.0@), None => pbool(false, c) } } else { Seq::empty() }
}
pub open spec fn hdr(b: bool, g: Option<Guid>, c: Ctx) -> Seq<Pat> { if b { pguid(g, c) } else { Seq::empty() } }
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_property_guid mode=free self=S igen="<S: ArchiveReaderX>"
    ensures r is Ok ==> rd(old(this), final(this), pguid(r->Ok_0, rc(old(this)))),
//@ at body-start
    proof { reveal(pguid); rd_nil(this); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_writer.rs "trait ArchiveWriter" write_property_guid mode=free self=S igen="<S: ArchiveWriterX>" params=guid
    ensures r is Ok ==> wr(old(this), final(this), pguid(match guid { Some(x) => Some(*x), None => None }, wc(old(this)))),
//@ at body-start
    proof { reveal(pguid); wr_nil(this); }
//@ end
''')
VER={'FAnimPhysObjectVersion':['RemoveUIDFromSmartNameSerialize','SmartNameRefactorForDeterministicCooking'],
 'FEditorObjectVersion':['AddedFontFaceAssets','CultureInvariantTextSerializationKeyStability'],
 'FFortniteMainBranchObjectVersion':['WorldCompositionTile3DOffset']}
for k,v in VER.items():
    e(f'pub struct {k};'); e(f'//@ vernum {B}custom_version.rs {k} '+' '.join(v))
V=B+'types/vector.rs'
for t,f in (('Vector','x,y,z'),('Vector2','x,y'),('Vector4','x,y,z,w'),('Plane','x,y,z,w'),('Color','r,g,b,a')):
    e(f'//@ struct {V} {t}')
    ff=f.split(',')
    e(f'//@ fn {V} {t}<T> new params={f} ret=vx_v')
    e('    ensures '+', '.join(f'vx_v.{x} == {x}' for x in ff)+',')
    e('//@ end')
e(f'''pub open spec fn s_argb(c: Color<u8>) -> u32 {{ ((c.r as u32) << 24) | ((c.g as u32) << 16) | ((c.b as u32) << 8) | (c.a as u32) }}
//@ fn {V} Color<u8> from_argb params=argb_
    ensures s_argb(r) == argb_ as u32,
//@ at before-tail
    proof {{ let n = argb_; assert((((((n >> 24) & 0xff) as u8) as u32) << 24) | (((((n >> 16) & 0xff) as u8) as u32) << 16) | (((((n >> 8) & 0xff) as u8) as u32) << 8) | (((n & 0xff) as u8) as u32) == n as u32) by (bit_vector); }}
//@ end
//@ fn {V} Color<u8> to_argb
    ensures r as u32 == s_argb(*self),
//@ at before-tail
    proof {{ let (a, b, c, d) = (self.r, self.g, self.b, self.a); assert((((a as i32) << 24) | ((b as i32) << 16) | ((c as i32) << 8) | (d as i32)) as u32 == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) by (bit_vector); }}
//@ end''')
files={}
def src(f):
    if f not in files:
        s=RustFile('/repo/'+f)
        d=RustFile('/repo/'+R+'lib.rs')
        macs='simple_property_write optional_guid optional_guid_write impl_int_property impl_multicast impl_soft_path_property'.split()
        files[f]=RustFile(s.path,expand(s.src,macs,s.path,[d]))
        extra=[m for m in macs[3:] if 'macro_rules! '+m in s.src]
        e(f'//@ macros {f} {MAC} '+' '.join(extra))
    return files[f]
def chain(pieces,start='h'):
    """-> text of a spec body"""
    txt=[];cur=start;n=0
    def go(ps,cur):
        nonlocal n
        for p in ps:
            if isinstance(p,str):
                cur=f'({cur} + {p})'
            else:
                _,cond,a,*b=p
                n+=1;x=f'x{n}'
                txt.append(f'    let {x} = {cur};')
                A=go2(a,x);Bt=go2(b[0],x) if b else x
                n+=1;y=f'x{n}'
                txt.append(f'    let {y} = if {cond} {{ {A} }} else {{ {Bt} }};')
                cur=y
        return cur
    def go2(ps,x):
        for p in ps:
            if isinstance(p,str): x=f'({x} + {p})'
            else:
                _,cond,a,*b=p
                x=f'{{ let y = {x}; if {cond} {{ {go2(a,"y")} }} else {{ {go2(b[0],"y") if b else "y"} }} }}'
        return x
    r=go(pieces,cur)
    return '\n'.join(txt+['    '+r])
def params(f,owner,name):
    it,_=src(f).find_fn(owner,name)
    return [re.sub(r'\bmut\b','',a).strip() for a,_ in FnParts(src(f),it).params if a!='self']
def loopread(k,arr,fn,pre,post=''):
    return f'''//@ at pre-loop {k}
    proof {{ {post} }}
'''
def lr(k,cnt,arr,fn,pre,usz=False):
    """read loop k: count variable, list variable, element form, prefix"""
    return [f'//@ at pre-loop {k}',f'    proof {{ cap({cnt}); }}' if not usz else f'    proof {{ cap({usz}); }}', f'    let ghost vx_p{k} = {pre} + p32({arr_n(cnt,usz)});',
     f'//@ loop {k} it=it',f'    invariant {arr}@.len() == it.index(), rd(old(asset), asset, vx_p{k} + pseq({arr}@, {arr}@.len(), {fn})),',
     f'//@ at loop-start {k}',f'    let ghost (a1, r1) = (*asset, {arr}@);',
     f'//@ at loop-end {k}',f'    proof {{ assert(rd(&a1, asset, {fn}({arr}@.last()))); pseq_push(vx_p{k}, r1, {arr}@.last(), {fn}); }}']
def arr_n(cnt,usz): return f'{usz or cnt} as u32'
def lw(k,lst,fn,pre,klen=None):
    o=[f'//@ at pre-loop {k}',f'    let ghost vx_p{k} = {pre} + p32({lst}.len() as u32);',
     f'//@ loop {k} it=it',f'    invariant it.seq() == refs_of({lst}@), wr(old(asset), asset, vx_p{k} + pseq({lst}@, it.index() as nat, {fn})),',
     f'//@ at loop-start {k}',f'    let ghost a1 = *asset;',
     f'//@ at loop-end {k}',f'    proof {{ assert(wr(&a1, asset, {fn}({lst}@[it.index() as int]))); pseq_step(vx_p{k}, {lst}@, it.index() as nat, {fn}); }}']
    if klen is not None: o+=[f'//@ at post-loop {k}',f'    proof {{ pseq_len({lst}@, {lst}@.len(), {fn}, {klen}); }}']
    return o
H='hdr(include_header, property_guid, rc(old(asset)))'
HW='hdr(include_header, self.property_guid, wc(old(asset)))'
def struct(f,t): e(f'//@ struct {f} {t}')
def rec(file,T,pieces,new='new',ok=None,pre='',rpre='',rextra=(),wextra=(),sized=False,w=None,isstruct=True,size=True,attr='',wreq=''):
    """a record without a tag; w: ghost flag word"""
    f=file; src(f)
    if isstruct: struct(f,T)
    wp=', w: i32' if w else ''
    e(f'pub open spec fn pr_{T}(v: {T}{wp}, c: Ctx) -> Seq<Pat> {{\n{chain(pieces,"Seq::<Pat>::empty()")}\n}}')
    if w:
        e(f'pub open spec fn ok_{T}(v: {T}, w: i32, c: Ctx) -> bool {{ {w[0]} }}')
        e(f'pub open spec fn rd_{T}<S: Archive + ?Sized>(a: &S, b: &S, v: {T}) -> bool {{ exists|w: i32| #[trigger] ok_{T}(v, w, rc(a)) && rd(a, b, pr_{T}(v, w, rc(a))) }}')
        con=f'rd_{T}(old(asset), final(asset), r->Ok_0)'
    else: con=f'rd(old(asset), final(asset), pr_{T}(r->Ok_0, rc(old(asset))))'
    if ok: con+=f' && ({ok})'
    e(f'//@ fn {f} {T} {new} params={",".join(params(f,T,new))}'+attr)
    if rpre: e(f'    requires {rpre},')
    e(f'    ensures r is Ok ==> {con},')
    for x in rextra: e(x)
    e('//@ end')
    cw=f', {w[1]}' if w else ''
    e(f'//@ fn {f} {T} write params={",".join(params(f,T,"write"))}'+attr)
    if wreq: e(f'    requires {wreq},')
    e(f'    ensures r is Ok ==> wr(old(asset), final(asset), pr_{T}(*self{cw}, wc(old(asset))))'+(f' && r->Ok_0 == pr_{T}(*self{cw}, wc(old(asset))).len()' if sized else '')+',')
    for x in wextra: e(x)
    e('//@ end')
def boolprop():
    f=I; T='BoolProperty'
    struct(f,T)
    e('pub open spec fn pv_BoolProperty(b: bool, v: BoolProperty, c: Ctx) -> Seq<Pat> { pbool(v.value, c) + hdr(b, v.property_guid, c) }')
    e(f'//@ fn {f} {T} new params={",".join(params(f,T,"new"))}')
    e('    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_BoolProperty(include_header, v, rc(old(asset)))) }),')
    e('//@ end')
    e(f'//@ fn {f} "PropertyTrait for {T}" write params=asset,include_header')
    e('    ensures r is Ok ==> wr(old(asset), final(asset), pv_BoolProperty(include_header, *self, wc(old(asset)))) && r->Ok_0 == 0,')
    e('//@ end')
def prop(file,T,pieces,rextra=(),wextra=(),req='',wreq='',rens='',w=None,order=None,struct_=True,attr='',szx=None,hpre='',rreq=''):
    f=file; src(f)
    if struct_: struct(f,T)
    wp=', w: i32' if w else ''
    e(f'pub open spec fn pv_{T}(h: Seq<Pat>, v: {T}{wp}, c: Ctx) -> Seq<Pat> {{\n{chain(pieces)}\n}}')
    hd=order or 'hdr(include_header, VALUE.property_guid, CTX)'
    rh=hd.replace('VALUE','v').replace('CTX','rc(a)')
    if w:
        e(f'pub open spec fn ok_{T}(v: {T}, w: i32, c: Ctx) -> bool {{ {w[0]} }}')
        e(f'pub open spec fn rd_{T}<S: Archive + ?Sized>(a: &S, b: &S, include_header: bool, v: {T}) -> bool {{ exists|w: i32| #[trigger] ok_{T}(v, w, rc(a)) && rd(a, b, pv_{T}({rh}, v, w, rc(a))) }}')
        con=f'rd_{T}(old(asset), final(asset), include_header, v)'
    else:
        con=f'rd(old(asset), final(asset), pv_{T}({hd.replace("VALUE","v").replace("CTX","rc(old(asset))")}, v, rc(old(asset))))'
    e(f'//@ fn {f} {T} new params={",".join(params(f,T,"new"))}'+attr)
    if rreq: e(f'    requires {rreq},')
    e(f'    ensures r is Ok ==> ({{ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && {con} }}){rens},')
    for x in rextra: e(x)
    e('//@ end')
    cw=f', {w[1]}' if w else ''
    hw=hd.replace('VALUE','self').replace('CTX','wc(old(asset))')
    sz=szx or f'pv_{T}(Seq::empty(), *self{cw}, wc(old(asset))).len()'
    e(f'//@ fn {f} "PropertyTrait for {T}" write params={",".join(params(f,"PropertyTrait for "+T,"write"))}'+attr)
    if wreq: e(f'    requires {wreq},')
    e(f'    ensures r is Ok ==> wr(old(asset), final(asset), pv_{T}({hw}, *self{cw}, wc(old(asset)))) && r->Ok_0 == {sz},')
    for x in wextra: e(x)
    e('//@ end')
LI=' attr="#[verifier::loop_isolation(false)]"'
exec(open('/tmp/w/fam.py').read())
exec(open('/tmp/w/fam2.py').read())
exec(open('/tmp/w/fam3.py').read())
e('fn main() {}')
e('}')
open('/tmp/w/units/props.vrs','w').write('\n'.join(out)+'\n')
