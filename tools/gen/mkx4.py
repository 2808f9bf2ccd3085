# ---------------------------------------------------------------- StructExport and its descendants (executed by mkx.py)
e("""// ---- positions: the bytes before and behind them together are the stream ----
pub open spec fn whole<S: Archive + ?Sized>(s: &S) -> Seq<u8> { s.pre() + s.post() }
pub open spec fn kin<S: Archive + ?Sized>(a: &S, b: &S) -> bool { whole(a) == whole(b) && a.ov() == b.ov() && a.o5() == b.o5() && a.cv() == b.cv() }
pub open spec fn view<S: Archive + ?Sized>(a: &S, b: &S) -> bool { a.pre() == b.pre() && a.post() == b.post() && a.ov() == b.ov() && a.o5() == b.o5() && a.cv() == b.cv() }
/// b is a moved to p; nothing can be read behind the end
pub open spec fn at<S: Archive + ?Sized>(a: &S, b: &S, p: u64) -> bool {
    &&& a.ov() == b.ov() && a.o5() == b.o5() && a.cv() == b.cv()
    &&& if p <= whole(a).len() { whole(a) == whole(b) && b.pre().len() == p } else { b.post().len() == 0 }
}
/// streams are shorter than 2^63 bytes
#[verifier::external_body]
pub fn vx_pos<S: Archive>(asset: &mut S) -> (r: u64) ensures r == old(asset).pre().len(), r <= i64::MAX, *final(asset) == *old(asset) { unimplemented!() }
#[verifier::external_body]
pub fn vx_seek<S: Archive>(asset: &mut S, p: u64) -> (r: Result<u64, Error>) ensures r is Ok ==> at(old(asset), final(asset), p) { unimplemented!() }
pub proof fn rd_kin<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>)
    requires rd(a, b, p) ensures kin(a, b), b.pre().len() == a.pre().len() + p.len(), p.len() <= a.post().len()
{ reveal(rd); let n = p.len() as int; assert(a.post() =~= a.post().take(n) + a.post().skip(n)); assert(whole(a) =~= whole(b)); }
/// moving back to where a was
pub proof fn back<S: Archive + ?Sized>(a: &S, m: &S, b: &S)
    requires kin(a, m), at(m, b, a.pre().len() as u64), a.pre().len() <= u64::MAX ensures view(a, b)
{
    assert(whole(a).len() == a.pre().len() + a.post().len());
    assert(a.pre() =~= whole(a).take(a.pre().len() as int)); assert(b.pre() =~= whole(b).take(b.pre().len() as int));
    assert(a.post() =~= whole(a).skip(a.pre().len() as int)); assert(b.post() =~= whole(b).skip(b.pre().len() as int));
}
pub proof fn rd_view<S: Archive + ?Sized>(a: &S, b: &S, c: &S, p: Seq<Pat>) requires rd(a, b, p), view(b, c) ensures rd(a, c, p) { reveal(rd); }
pub proof fn view_rd<S: Archive + ?Sized>(a: &S, b: &S, c: &S, p: Seq<Pat>) requires rd(a, b, p), view(a, c) ensures rd(c, b, p) { reveal(rd); }
pub mod pos { use vstd::prelude::*; use super::*;
pub proof fn moved<S: Archive + ?Sized>(a: &S, b: &S, p: u64)
    requires at(a, b, p), p <= whole(a).len() ensures b.pre() == whole(a).take(p as int), b.post() == whole(a).skip(p as int)
{ assert(b.pre() =~= whole(b).take(p as int)); assert(b.post() =~= whole(b).skip(p as int)); }
/// writing inside: the bytes there are replaced, the others stay
pub proof fn over<S: Archive + ?Sized>(m: &S, a: &S, b: &S, q: Seq<Pat>, p: u64)
    requires at(m, a, p), wr(a, b, q), p + q.len() <= whole(m).len()
    ensures fit(b.pre().skip(p as int), q), b.pre() == whole(m).take(p as int) + b.pre().skip(p as int), b.post() == whole(m).skip(p + q.len()), whole(b).len() == whole(m).len(), b.pre().len() == p + q.len(),
        forall|z: int| 0 <= z < whole(m).len() && !(p <= z < p + q.len()) ==> #[trigger] whole(b)[z] == whole(m)[z],
        forall|z: int| p <= z < p + q.len() ==> fits(#[trigger] whole(b)[z], q[z - p]),
{
    reveal(wr); moved(m, a, p);
    let n = p as int;
    assert(b.pre() =~= b.pre().take(n) + b.pre().skip(n));
    assert(a.post().len() == whole(m).len() - n);
    if a.post().len() <= q.len() { assert(b.post() =~= whole(m).skip(n + q.len())); } else { assert(b.post() =~= whole(m).skip(n + q.len())); }
    assert forall|z: int| 0 <= z < whole(m).len() && !(p <= z < p + q.len()) implies #[trigger] whole(b)[z] == whole(m)[z] by { if z < p { assert(b.pre().take(n)[z] == b.pre()[z]); } }
    assert forall|z: int| p <= z < p + q.len() implies fits(#[trigger] whole(b)[z], q[z - p]) by { assert(b.pre().skip(n)[z - p] == whole(b)[z]); }
}
/// the two sizes filled in after what follows them
pub proof fn patched<S: Archive + ?Sized>(o: &S, m: &S, s1: &S, s2: &S, s3: &S, s4: &S, s5: &S, a: Seq<Pat>, x: u32, y: u32, t: Seq<Pat>, p1: u64, p2: u64, p3: u64)
    requires wr(o, m, ((a + p32(0)) + p32(0)) + t), p1 == o.pre().len() + a.len(), p2 == p1 + 4, p3 == m.pre().len(),
        at(m, s1, p1), wr(s1, s2, p32(x)), at(s2, s3, p2), wr(s3, s4, p32(y)), at(s4, s5, p3),
    ensures wr(o, s5, ((a + p32(x)) + p32(y)) + t),
{
    p32_len(x); p32_len(y); p32_len(0);
    let q = ((a + p32(x)) + p32(y)) + t;
    let q0 = ((a + p32(0)) + p32(0)) + t;
    assert(q.len() == q0.len() && q.len() == a.len() + 8 + t.len());
    let n = o.pre().len() as int;
    assert(m.pre().len() == n + q0.len() && m.pre().take(n) == o.pre() && fit(m.pre().skip(n), q0) && m.post() == (if o.post().len() <= q.len() { Seq::empty() } else { o.post().skip(q.len() as int) }) && m.ov() == o.ov() && m.o5() == o.o5() && m.cv() == o.cv()) by { reveal(wr); }
    over(m, s1, s2, p32(x), p1);
    over(s2, s3, s4, p32(y), p2);
    moved(s4, s5, p3);
    let w = whole(s4);
    assert(s5.ov() == o.ov() && s5.o5() == o.o5() && s5.cv() == o.cv()) by { reveal(wr); }
    assert(s5.post() =~= m.post()) by { assert forall|z: int| 0 <= z < m.post().len() implies s5.post()[z] == m.post()[z] by { assert(w[p3 + z] == whole(s2)[p3 + z]); assert(whole(s2)[p3 + z] == whole(m)[p3 + z]); } }
    assert(s5.pre().take(n) =~= o.pre()) by { assert forall|z: int| 0 <= z < n implies s5.pre()[z] == o.pre()[z] by { assert(w[z] == whole(s2)[z]); assert(whole(s2)[z] == whole(m)[z]); assert(m.pre().take(n)[z] == m.pre()[z]); } }
    let b = s5.pre().skip(n);
    assert forall|z: int| 0 <= z < b.len() implies fits(#[trigger] b[z], q[z]) by {
        let g = n + z;
        assert(b[z] == w[g]);
        if p2 <= g < p2 + 4 { assert(q[z] == p32(y)[g - p2]); }
        else {
            assert(w[g] == whole(s2)[g]);
            if p1 <= g < p2 { assert(q[z] == p32(x)[g - p1]); }
            else { assert(whole(s2)[g] == whole(m)[g]); assert(m.pre().skip(n)[z] == whole(m)[g]); assert(q[z] == q0[z]); assert(fits(m.pre().skip(n)[z], q0[z])); }
        }
    }
    assert(wr(o, s5, q)) by { reveal(wr); }
}
}
use pos::*;
// ---- bytecode (K01) ----
#[verifier::external_body]
pub struct KismetExpression { x: u8 }
pub uninterp spec fn pk(v: KismetExpression) -> Seq<Pat>;
pub uninterp spec fn ksz(v: KismetExpression) -> nat;
pub open spec fn fk() -> spec_fn(KismetExpression) -> Seq<Pat> { |v: KismetExpression| pk(v) }
pub open spec fn ksum(s: Seq<KismetExpression>, n: nat) -> nat decreases n { if n == 0 { 0 } else { ksum(s, (n - 1) as nat) + ksz(s[n - 1]) } }
impl KismetExpression {
    #[verifier::external_body]
    pub fn new<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<KismetExpression, Error>) ensures kin(old(asset), final(asset)), r is Ok ==> rd(old(asset), final(asset), pk(r->Ok_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(e: &KismetExpression, asset: &mut S) -> (r: Result<usize, Error>) ensures r is Ok ==> wr(old(asset), final(asset), pk(*e)) && r->Ok_0 == ksz(*e) { unimplemented!() }
}
/// expressions in memory are smaller than the address space
#[verifier::external_body]
pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
/// whether the package is recent enough for its bytecode to be taken apart; either way of keeping it is covered
#[verifier::external_body]
pub fn vx_engine<S: Archive>(asset: &S) -> bool { unimplemented!() }
""")
SE=X+'struct_export.rs'
e("""pub open spec fn ffp(c: Ctx) -> spec_fn(FProperty) -> Seq<Pat> { |v: FProperty| pfp(v, c) }
pub open spec fn pfprops(s: Seq<FProperty>, c: Ctx) -> Seq<Pat> { if cvn::<FCoreObjectVersion>(c.cv) >= FCoreObjectVersion_FProperties { plist(s, ffp(c)) } else { Seq::empty() } }
pub open spec fn pstruct_a(v: StructExport, c: Ctx) -> Seq<Pat> {
    ((((pnormal(v.normal_export, c) + pskip(c)) + pfield(v.field, c)) + pidx(v.super_struct)) + plist(v.children@, fidx())) + pfprops(v.loaded_properties@, c)
}
/// the script: its size in memory, its size here, its expressions; the size in memory is computed again on writing
pub open spec fn pscript(v: StructExport, c: Ctx) -> Seq<Pat> {
    match v.script_bytecode {
        Some(k) => (p32(if c.exact { ksum(k@, k@.len()) as u32 } else { v.script_bytecode_size as u32 }) + p32(pseq(k@, k@.len(), fk()).len() as u32)) + pseq(k@, k@.len(), fk()),
        None => (p32(v.script_bytecode_size as u32) + p32(v.script_bytecode_raw->0@.len() as u32)) + pblob(v.script_bytecode_raw->0@),
    }
}
pub open spec fn pstruct(v: StructExport, c: Ctx) -> Seq<Pat> { pstruct_a(v, c) + pscript(v, c) }
pub open spec fn ok_struct(v: StructExport, c: Ctx) -> bool {
    &&& ok_field(v.field, c) && (v.script_bytecode is None) == (v.script_bytecode_raw is Some)
    &&& cvn::<FCoreObjectVersion>(c.cv) < FCoreObjectVersion_FProperties ==> v.loaded_properties@.len() == 0
    &&& forall|i: int| 0 <= i < v.loaded_properties@.len() ==> ok_fp(#[trigger] v.loaded_properties@[i])
}
pub proof fn i32_u64(n: i32) ensures (n as u64) as u32 == n as u32, n >= 0 ==> n as u64 == n, n < 0 ==> n as u64 >= 0xffff_ffff_8000_0000u64 { assert((n as u64) as u32 == n as u32) by (bit_vector); assert(n < 0 ==> n as u64 >= 0xffff_ffff_8000_0000u64) by (bit_vector); assert(n >= 0 ==> n as u64 == n as u32) by (bit_vector); }
""")
e(f"""//@ fn {SE} StructExport read_bytecode params=asset,start_offset,storage_size attr="#[verifier::loop_isolation(false)];#[verifier::exec_allows_no_decreases_clause]"
    requires start_offset == old(asset).pre().len(),
    ensures kin(old(asset), final(asset)), r is Ok ==> rd(old(asset), final(asset), pseq(r->Ok_0@, r->Ok_0@.len(), fk())) && pseq(r->Ok_0@, r->Ok_0@.len(), fk()).len() == storage_size as u64,
//@ at pre-loop 0
    proof {{ rd_nil(asset); }}
//@ loop 0
    invariant rd(old(asset), asset, pseq(code@, code@.len(), fk())), kin(old(asset), asset), asset.pre().len() == old(asset).pre().len() + pseq(code@, code@.len(), fk()).len(),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, code@);
//@ at loop-end 0
    proof {{ assert(rd(&a1, asset, fk()(code@.last()))); pseq_push(Seq::empty(), r1, code@.last(), fk()); rd_kin(old(asset), asset, pseq(code@, code@.len(), fk())); }}
//@ end""")
CNT='//@ rw! let (num_\\w+) = asset\\.read_i32::<LE>\\(\\)\\?; ==> let \\1 = asset.read_i32::<LE>()?;'
def lrx(k,cnt,arr,fn,pre,extra=''):
    return f"""//@ at pre-loop {k}
    proof {{ cap({cnt}); }}
    let ghost vx_p{k} = ({pre}) + p32({cnt} as u32);
//@ loop {k} it=it
    invariant {arr}@.len() == it.index(), rd(old(asset), asset, vx_p{k} + pseq({arr}@, {arr}@.len(), {fn})){extra},
//@ at loop-start {k}
    let ghost (a1, r1) = (*asset, {arr}@);
//@ at loop-end {k}
    proof {{ assert(rd(&a1, asset, {fn}({arr}@.last()))); pseq_push(vx_p{k}, r1, {arr}@.last(), {fn}); }}
//@ at post-loop {k}
    proof {{ pat_assoc({pre}, p32({cnt} as u32), pseq({arr}@, {arr}@.len(), {fn})); assert({arr}@.len() as u32 == {cnt} as u32); }}"""
SP=f'(((pnormal(normal_export, {C}) + pskip({C})) + pfield(field, {C})) + pidx(super_struct))'
SPW=f'(((pnormal(self.normal_export, {W}) + pskip({W})) + pfield(self.field, {W})) + pidx(self.super_struct))'
export(SE,'StructExport','pstruct',rok=f' && ok_struct(r->Ok_0, {C})',
 rx=lrx(0,'num_index_entries','children','fidx()',SP)+'\n'+lrx(1,'num_props','props',f'ffp({C})',f'{SP} + plist(children@, fidx())',extra=', forall|i: int| 0 <= i < props@.len() ==> ok_fp(#[trigger] props@[i])')+f"""
//@ rw! asset\\.get_engine_version\\(\\) >= EngineVersion::VER_UE4_16 ==> vx_engine(asset)
//@ rw! let start_offset = ==> proof {{ assert(rd(old(asset), asset, ((({SP} + plist(children@, fidx())) + pfprops(loaded_properties@, {C})) + p32(script_bytecode_size as u32)) + p32(script_storage_size as u32))); i32_u64(script_storage_size); }} let ghost b0 = *asset; let start_offset =
//@ rw! StructExport::(?:<Index>::)?read_bytecode ==> StructExport::read_bytecode
//@ rw! (asset\\.seek\\(SeekFrom::Start\\(start_offset\\)\\)\\?;) ==> let ghost b1 = *asset; \\1 proof {{ back(&b0, &b1, asset); rd_view(old(asset), &b0, asset, ((({SP} + plist(children@, fidx())) + pfprops(loaded_properties@, {C})) + p32(script_bytecode_size as u32)) + p32(script_storage_size as u32)); }} let ghost b2 = *asset;
//@ rw! Some\\(data\\)\\s*\\}} ==> proof {{ cap(script_storage_size); }} Some(data) }}
//@ at before-tail
    proof {{
        let v = StructExport {{ normal_export, field, super_struct, children, loaded_properties, script_bytecode, script_bytecode_size, script_bytecode_raw }};
        let a = pstruct_a(v, {C}); let (x, y) = (p32(script_bytecode_size as u32), p32(script_storage_size as u32));
        pat_assoc(a, x, y);
        let z = if script_bytecode is Some {{ pseq(script_bytecode->0@, script_bytecode->0@.len(), fk()) }} else {{ pblob(script_bytecode_raw->0@) }};
        pat_assoc(a, x + y, z); assert(rd(old(asset), asset, ((a + x) + y) + z));
        assert(rd(old(asset), asset, a + pscript(v, {C})));
    }}""",
 wx=lst(0,'self.children','fidx()',SPW)+'\n'+lst(1,'self.loaded_properties',f'ffp({W})',f'{SPW} + plist(self.children@, fidx())')+f"""
//@ rw! total_offset \\+= KismetExpression::write\\(expression, asset\\)\\?; ==> let vx_s = KismetExpression::write(expression, asset)?; total_offset = vx_add(total_offset, vx_s);
//@ rw! let len_offset_1 = ==> proof {{ assert(wr(old(asset), asset, pstruct_a(*self, {W}))); }} let ghost vx_a = pstruct_a(*self, {W}); let len_offset_1 =
//@ loop 2 it=it
    invariant it.seq() == refs_of(bytecode@), wr(old(asset), asset, ((vx_a + p32(0)) + p32(0)) + pseq(bytecode@, it.index() as nat, fk())), total_offset == ksum(bytecode@, it.index() as nat),
//@ at loop-start 2
    let ghost a1 = *asset;
//@ at loop-end 2
    proof {{ assert(wr(&a1, asset, fk()(bytecode@[it.index() as int]))); pseq_step((vx_a + p32(0)) + p32(0), bytecode@, it.index() as nat, fk()); }}
//@ at post-loop 2
    proof {{ pseq_pos(bytecode@, bytecode@.len(), fk()); }} let ghost m0 = *asset;
//@ rw! (asset\\.seek\\(SeekFrom::Start\\(len_offset_1\\)\\)\\?;) ==> \\1 let ghost m1 = *asset;
//@ rw! (asset\\.seek\\(SeekFrom::Start\\(len_offset_2\\)\\)\\?;) ==> let ghost m2 = *asset; \\1 let ghost m3 = *asset;
//@ rw! (asset\\.seek\\(SeekFrom::Start\\(end\\)\\)\\?;) ==> let ghost m4 = *asset; \\1 proof {{ let (x, y, z) = (total_offset as u32, total_len as u32, pseq(bytecode@, bytecode@.len(), fk())); usz_cast(total_offset); u64_cast(total_len); patched(old(asset), &m0, &m1, &m2, &m3, &m4, asset, vx_a, x, y, z, len_offset_1, len_offset_2, end); pat_assoc(vx_a, p32(x), p32(y)); pat_assoc(vx_a, p32(x) + p32(y), z); assert(wr(old(asset), asset, vx_a + pscript(*self, {W}))); }}
//@ rw! (asset\\.write_all\\(raw_bytecode\\)\\?;) ==> \\1 proof {{ let (a, x, y, z) = (pstruct_a(*self, {W}), p32(self.script_bytecode_size as u32), p32(raw_bytecode@.len() as u32), pblob(raw_bytecode@)); pat_assoc(a, x, y); pat_assoc(a, x + y, z); assert(wr(old(asset), asset, ((a + x) + y) + z)); }}""")
e("""pub proof fn usz_cast(n: usize) ensures (n as i32) as u32 == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); }
pub proof fn u64_cast(n: u64) ensures (n as i32) as u32 == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); }
pub proof fn pseq_pos<T>(s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>) ensures pseq(s, n, f).len() >= 0 {}
""")
