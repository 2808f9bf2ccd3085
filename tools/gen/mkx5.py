# ---------------------------------------------------------------- descendants of StructExport (executed by mkx.py)
e('pub open spec fn pfunc(v: FunctionExport, c: Ctx) -> Seq<Pat> { pstruct(v.struct_export, c) + p32(v.function_flags.b) }')
SB='struct_export.normal_export.base_export'
OKS=f' && ok_struct(r->Ok_0.struct_export, {C})'
export(X+'function_export.rs','FunctionExport','pfunc',bname=SB,rok=OKS)
e('pub open spec fn puds(v: UserDefinedStructExport, c: Ctx) -> Seq<Pat> { (pstruct(v.struct_export, c) + p32(v.flags.b)) + pprops(v.default_struct_instance@, c) }')
LC=' attr="#[verifier::loop_isolation(false)];#[verifier::allow_complex_invariants];#[verifier::exec_allows_no_decreases_clause]"'
export(X+'user_defined_struct_export.rs','UserDefinedStructExport','puds',bname=SB,rok=OKS,rattr=LC,
 rx=proploop('default_struct_instance',f'pstruct(struct_export, {C}) + p32(flags.b)'),
 wx=lwx(0,'self.default_struct_instance',f'fprop({W})',f'pstruct(self.struct_export, {W}) + p32(self.flags.b)')+f"""
//@ at post-loop 0
    proof {{ pat_assoc(pstruct(self.struct_export, {W}) + p32(self.flags.b), pseq(self.default_struct_instance@, self.default_struct_instance@.len(), fprop({W})), ptn("None"@)); }}""")
CE=X+'class_export.rs'
e(f"""//@ struct {CE} SerializedInterfaceReference
//@ fn {CE} SerializedInterfaceReference new params=class,pointer_offset,implemented_by_k2
    ensures r.class == class && r.pointer_offset == pointer_offset && r.implemented_by_k2 == implemented_by_k2,
//@ end
pub open spec fn notplaceable() -> u32 {{ np_() }}
pub uninterp spec fn np_() -> u32;
#[verifier::external_body]
pub fn vx_not_placeable() -> (r: EClassFlags) ensures r.b == notplaceable() {{ unimplemented!() }}
impl EClassFlags {{ pub fn vx_xor(self, o: EClassFlags) -> (r: EClassFlags) ensures r.b == self.b ^ o.b {{ EClassFlags {{ b: self.b ^ o.b }} }} }}
pub proof fn xor2(a: u32, k: u32) ensures (a ^ k) ^ k == a {{ assert((a ^ k) ^ k == a) by (bit_vector); }}
pub open spec fn fif(c: Ctx) -> spec_fn(SerializedInterfaceReference) -> Seq<Pat> {{ |v: SerializedInterfaceReference| (pidx(v.class) + p32(v.pointer_offset as u32)) + pflag1(v.implemented_by_k2, c) }}
pub proof fn fif_len(c: Ctx) ensures forall|v: SerializedInterfaceReference| (#[trigger] fif(c)(v)).len() == 12 {{ p32_len(1); p32_len(0); }}
pub open spec fn pcflags(v: EClassFlags, c: Ctx) -> Seq<Pat> {{ p32(if on(c.ov) < on(ObjectVersion::VER_UE4_CLASS_NOTPLACEABLE_ADDED) {{ v.b ^ notplaceable() }} else {{ v.b }}) }}
/// interfaces are stored before or behind the class's generator
pub open spec fn early(c: Ctx) -> bool {{ on(c.ov) < on(ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING) }}
pub open spec fn pgen(i: Seq<SerializedInterfaceReference>, g: PackageIndex, c: Ctx) -> Seq<Pat> {{ if early(c) {{ plist(i, fif(c)) + pidx(g) }} else {{ pidx(g) + plist(i, fif(c)) }} }}
/// the name None; the reader ignores it
pub open spec fn pnone(c: Ctx) -> Seq<Pat> {{ if c.exact {{ ptn("None"@) }} else {{ anyb(8) }} }}
pub proof fn rd_any64<S: Archive + ?Sized>(a: &S, b: &S, v: u64) requires rd(a, b, p64(v)) ensures rd(a, b, anyb(8)) {{ reveal(rd); p64_len(v); }}
pub open spec fn pcooked(v: Option<bool>, c: Ctx) -> Seq<Pat> {{ if on(c.ov) >= on(ObjectVersion::VER_UE4_ADD_COOKED_TO_UCLASS) {{ pflag1(v->0, c) }} else {{ Seq::empty() }} }}
/// the sum or product, where it fits
#[verifier::external_body]
pub fn vx_sum(a: u64, b: u64) -> (r: u64) ensures a + b <= u64::MAX ==> r == a + b {{ a.wrapping_add(b) }}
#[verifier::external_body]
pub fn vx_mul(a: u64, b: u64) -> (r: u64) ensures a * b <= u64::MAX ==> r == a * b {{ a.wrapping_mul(b) }}
pub proof fn i32_same(a: i32, b: i32) requires a as u32 == b as u32 ensures a == b {{ assert(a as u32 == b as u32 ==> a == b) by (bit_vector); }}
pub proof fn num_inj<S: Archive + ?Sized>(a: &S, x: &S, b: &S, y: &S, m: u32, n: u32)
    requires rd(a, x, p32(m)), rd(b, y, p32(n)), view(a, b) ensures m == n
{{
    reveal(rd); reveal(p32); le32_len(m); le32_len(n);
    let t = a.post().take(4);
    assert(t.len() == 4 && lit(le32(m)).len() == 4 && lit(le32(n)).len() == 4);
    assert(fit(t, lit(le32(m)))); assert(fit(t, lit(le32(n))));
    assert forall|i: int| 0 <= i < 4 implies le32(m)[i] == le32(n)[i] by {{ assert(fits(t[i], lit(le32(m))[i])); assert(fits(t[i], lit(le32(n))[i])); }}
    assert(le32(m) =~= le32(n)); le32_inj(m, n);
}}
/// what was read behind a list, then the list, then past both
pub proof fn skipped<S: Archive + ?Sized>(s0: &S, k0: &S, s1: &S, s2: &S, s3: &S, s4: &S, s5: &S, i: Seq<Pat>, g: Seq<Pat>)
    requires kin(s0, k0), at(k0, s1, (s0.pre().len() + i.len()) as u64), s0.pre().len() + i.len() + g.len() <= u64::MAX, rd(s1, s2, g), g.len() > 0,
        view(s0, s3), rd(s3, s4, i), at(s4, s5, s2.pre().len() as u64),
    ensures rd(s0, s5, i + g),
{{
    rd_kin(s1, s2, g); rd_kin(s3, s4, i);
    let p = (s0.pre().len() + i.len()) as u64;
    let w = whole(s0);
    assert(p <= w.len());
    moved(k0, s1, p);
    assert(kin(s1, s2));
    assert(whole(s1) == w);
    assert(s2.pre().len() == p + g.len());
    assert(w.len() == s0.pre().len() + s0.post().len());
    assert(whole(s2).len() == s2.pre().len() + s2.post().len());
    moved(s4, s5, s2.pre().len() as u64);
    reveal(rd);
    let (a, n, m) = (s0.pre().len() as int, i.len() as int, g.len() as int);
    assert(s5.pre() =~= s0.pre() + s0.post().take(n + m));
    assert(s5.post() =~= s0.post().skip(n + m));
    let t = s0.post().take(n + m);
    assert forall|z: int| 0 <= z < t.len() implies fits(#[trigger] t[z], (i + g)[z]) by {{
        if z < n {{ assert(s3.post().take(n)[z] == t[z]); }} else {{ assert(s1.post().take(m)[z - n] == w[a + z]); assert(s1.post().take(m)[z - n] == t[z]); }}
    }}
}}
//@ struct {CE} ClassExport
pub open spec fn pclass_a(v: ClassExport, t: Ent<FName, PackageIndex>, c: Ctx) -> Seq<Pat> {{ (((pstruct(v.struct_export, c) + pent(t, ffe())) + pcflags(v.class_flags, c)) + pidx(v.class_within)) + pname(v.class_config_name) }}
pub open spec fn pclass(v: ClassExport, t: Ent<FName, PackageIndex>, c: Ctx) -> Seq<Pat> {{
    ((((pclass_a(v, t, c) + pgen(v.interfaces@, v.class_generated_by, c)) + pflag1(v.deprecated_force_script_order, c)) + pnone(c)) + pcooked(v.cooked, c)) + pidx(v.class_default_object)
}}
pub open spec fn pclass_w(v: ClassExport, c: Ctx) -> Seq<Pat> {{ pclass(v, ent_w(v.func_map.e()), c) }}
pub open spec fn rd_class<S: Archive + ?Sized>(a: &S, b: &S, v: ClassExport) -> bool {{ exists|t: Ent<FName, PackageIndex>| #[trigger] ent_ok(t, v.func_map.e()) && rd(a, b, pclass(v, t, rc(a))) }}
//@ fn {CE} ClassExport serialize_interfaces params=asset{LI}
    ensures r is Ok ==> wr(old(asset), final(asset), plist(self.interfaces@, fif({W}))),
{lwx(0,'self.interfaces',f'fif({W})','p32(self.interfaces.len() as u32)')}
//@ end
""")
IS1='//@ rw! asset\\.read_i32::<LE>\\(\\)\\? == 1 ==> vx_is1(asset)?'
export(CE,'ClassExport','pclass_w',own=1,bname=SB,rok=OKS+f' && (r->Ok_0.cooked is Some) == (on({C}.ov) >= on(ObjectVersion::VER_UE4_ADD_COOKED_TO_UCLASS))',rdspec='rd_class(old(asset), final(asset), r->Ok_0)',
 rattr=' attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"',wattr=' attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"',
 rx=f"""{IS1}
//@ rw! let num_func_index_entries = asset\\.read_i32::<LE>\\(\\)\\? as usize; ==> let vx_n = asset.read_i32::<LE>()?; let num_func_index_entries = vx_n as usize;
//@ rw! let function_export = (.*?); ==> let function_export = \\1; let ghost kv = (name, function_export);
//@ rw! class_flags \\^= EClassFlags::CLASS_NOT_PLACEABLE ==> proof {{ xor2(class_flags.b, notplaceable()); }} class_flags = class_flags.vx_xor(vx_not_placeable());
//@ rw! let num_interfaces = asset\\.read_i32::<LE>\\(\\)\\?; ==> let num_interfaces = asset.read_i32::<LE>()?; proof {{ k0 = *asset; m0 = num_interfaces; rd_kin(&s0, &k0, p32(m0 as u32)); }}
//@ rw! interfaces_start\\.unwrap\\(\\)\\s*\\+ size_of::<i32>\\(\\) as u64\\s*\\+ num_interfaces as u64 \\* \\(size_of::<i32>\\(\\) as u64 \\* 3\\), ==> {{ let vx_w = size_of::<i32>() as u64 * 3; let vx_t = vx_sum(vx_sum(interfaces_start.unwrap(), size_of::<i32>() as u64), vx_mul(num_interfaces as u64, vx_w)); proof {{ t0 = vx_t; i32_u64(m0); if m0 >= 0 {{ assert((m0 as u64) * (vx_w as int) == 12 * m0) by (nonlinear_arith) requires vx_w == 12, m0 as u64 == m0; assert(t0 == s0.pre().len() + 4 + 12 * m0); }} }} vx_t }}
//@ rw! let mut interfaces_start = ==> let ghost vx_a = (((pstruct(struct_export, {C}) + pent(s, ffe())) + pcflags(class_flags, {C})) + pidx(class_within)) + pname(class_config_name); let ghost s0 = *asset; let ghost mut k0 = *asset; let ghost mut m0 = 0i32; let ghost mut t0 = 0u64; proof {{ assert(rd(old(asset), asset, vx_a)); }} let mut interfaces_start =
//@ rw! let class_generated_by = ==> let ghost s1 = *asset; let class_generated_by =
//@ rw! let current_offset = ==> let ghost s2 = *asset; let current_offset =
//@ rw! let num_interfaces = asset\\.read_i32::<LE>\\(\\)\\? as usize; ==> let ghost s3 = *asset; proof {{ if early({C}) {{ rd_kin(&s1, &s2, pidx(class_generated_by)); assert(kin(&s0, &s2)); back(&s0, &s2, &s3); }} }} let vx_m = asset.read_i32::<LE>()?; let num_interfaces = vx_m as usize; proof {{ if early({C}) {{ num_inj(&s0, &k0, &s3, asset, m0 as u32, vx_m as u32); i32_same(m0, vx_m); }} }}
//@ rw! asset\\.seek\\(SeekFrom::Start\\(current_offset\\)\\)\\?; ==> let ghost s4 = *asset; asset.seek(SeekFrom::Start(current_offset))?; proof {{ fif_len({C}); pseq_len(interfaces@, interfaces@.len(), fif({C}), 12); assert(t0 == s0.pre().len() + plist(interfaces@, fif({C})).len()); skipped(&s0, &k0, &s1, &s2, &s3, &s4, asset, plist(interfaces@, fif({C})), pidx(class_generated_by)); }}
//@ rw! let deprecated_force_script_order = ==> proof {{ if !early({C}) {{ rd_trans(&s0, &s2, asset, pidx(class_generated_by), plist(interfaces@, fif({C}))); }} assert(rd(&s0, asset, pgen(interfaces@, class_generated_by, {C}))); assert(rd(old(asset), asset, vx_a + pgen(interfaces@, class_generated_by, {C}))); }} let deprecated_force_script_order =
//@ rw! (asset\\.read_i64::<LE>\\(\\)\\?;) ==> let ghost q = *asset; let vx_d = \\1 proof {{ rd_any64(&q, asset, vx_d as u64); }}
//@ at pre-loop 1
    proof {{ cap(vx_m); }}
//@ at before-tail
    proof {{
        let v = ClassExport {{ struct_export, func_map, class_flags, class_within, class_config_name, interfaces, class_generated_by, deprecated_force_script_order, cooked, class_default_object }};
        assert(rd(old(asset), asset, pclass(v, s, {C}))); assert(ent_ok(s, v.func_map.e())); assert(rd_class(old(asset), asset, v));
    }}
//@ at pre-loop 0
    let ghost mut t: Seq<(FName, PackageIndex)> = Seq::empty();
    let ghost vx_p = pstruct(struct_export, {C}) + p32(vx_n as u32);
    proof {{ cap(vx_n); }}
//@ loop 0 it=it
    invariant t.len() == it.index(), kept(t) == func_map.e(), rd(old(asset), asset, vx_p + pseq(t, t.len(), ffe())),
//@ at loop-start 0
    let ghost a0 = *asset;
//@ at loop-end 0
    proof {{ let t1 = t.push(kv); kept_same(t, t1, t.len()); assert(rd(&a0, asset, ffe()(kv))); pseq_push(vx_p, t, kv, ffe()); t = t1; }}
//@ at post-loop 0
    let ghost s = Ent {{ n: vx_n as u32, t: t }};
    proof {{ pat_assoc(pstruct(struct_export, {C}), p32(vx_n as u32), pseq(t, t.len(), ffe())); assert(rd(old(asset), asset, pstruct(struct_export, {C}) + pent(s, ffe()))); assert(ent_ok(s, func_map.e())); }}
//@ loop 1 it=it
    invariant interfaces@.len() == it.index(), rd(&s3, asset, p32(vx_m as u32) + pseq(interfaces@, interfaces@.len(), fif({C}))),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, interfaces@);
//@ at loop-end 1
    proof {{ assert(rd(&a1, asset, fif({C})(interfaces@.last()))); pseq_push(p32(vx_m as u32), r1, interfaces@.last(), fif({C})); }}
//@ end-x""".replace('\n//@ end-x',''),
 wx=f"""//@ rw! self\\.class_flags \\^ EClassFlags::CLASS_NOT_PLACEABLE ==> self.class_flags.vx_xor(vx_not_placeable())
//@ at pre-loop 0
    let ghost (vx_p, vx_t) = (pstruct(self.struct_export, {W}), self.func_map.e());
//@ loop 0 it=it
    invariant it.seq().len() == vx_t.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).1 == vx_t[i].0 && *it.seq()[i].2 == vx_t[i].1, wr(old(asset), asset, (vx_p + p32(vx_t.len() as u32)) + pseq(vx_t, it.index() as nat, ffe())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof {{ assert(wr(&a1, asset, ffe()(vx_t[it.index() as int]))); pseq_step(vx_p + p32(vx_t.len() as u32), vx_t, it.index() as nat, ffe()); }}
//@ at post-loop 0
    proof {{ pat_assoc(vx_p, p32(vx_t.len() as u32), pseq(vx_t, vx_t.len(), ffe())); assert(wr(old(asset), asset, vx_p + pent(ent_w(vx_t), ffe()))); }}
//@ rw! asset\\.write_i32::<LE>\\(match self\\.deprecated_force_script_order ==> proof {{ let (a, i, g) = (pclass_a(*self, ent_w(vx_t), {W}), plist(self.interfaces@, fif({W})), pidx(self.class_generated_by)); pat_assoc(a, i, g); pat_assoc(a, g, i); assert(wr(old(asset), asset, a + pgen(self.interfaces@, self.class_generated_by, {W}))); }} asset.write_i32::<LE>(match self.deprecated_force_script_order""")
