# ---------------------------------------------------------------- exports (executed by mkx.py)
AR=B+'reader/archive_reader.rs'
e(f'''
//@ rewrite : Index,\\n ==> : PackageIndex,\\n
//@ rewrite \\b(base)\\.clone\\(\\) ==> vx_dup(\\1)
//@ rewrite asset\\s*\\.read_array\\(\\|asset\\| Ok\\(PackageIndex::new\\(asset\\.read_i32::<LE>\\(\\)\\?\\)\\)\\) ==> read_array(asset, IdxG)
//@ rewrite asset\\s*\\.read_array\\(\\|asset\\| asset\\.read_fstring\\(\\)\\) ==> read_array(asset, StrG)
//@ rewrite asset\\.has_unversioned_properties\\(\\) ==> vx_unversioned(asset)
//@ rewrite asset\\.position\\(\\) ==> vx_pos(asset)
//@ rewrite asset\\.seek\\(SeekFrom::Start\\( ==> vx_seek(asset, (
//@ rewrite asset\\.read_exact\\(&mut (\\w+)\\) ==> asset.read_exact_vec(&mut \\1)
// ---- lists ----
pub trait Getter<S: ArchiveReaderX, T> {{
    spec fn enc(v: T) -> Seq<Pat>;
    fn go(&self, s: &mut S) -> (r: Result<T, Error>) ensures r is Ok ==> rd(old(s), final(s), Self::enc(r->Ok_0));
}}
pub struct IdxG;
impl<S: ArchiveReaderX> Getter<S, PackageIndex> for IdxG {{
    open spec fn enc(v: PackageIndex) -> Seq<Pat> {{ pidx(v) }}
    fn go(&self, asset: &mut S) -> (r: Result<PackageIndex, Error>) {{ Ok(PackageIndex::new(asset.read_i32::<LE>()?)) }}
}}
pub struct StrG;
impl<S: ArchiveReaderX> Getter<S, Option<String>> for StrG {{
    open spec fn enc(v: Option<String>) -> Seq<Pat> {{ pstr(sv(v)) }}
    fn go(&self, asset: &mut S) -> (r: Result<Option<String>, Error>) {{ asset.read_fstring() }}
}}
//@ fn {AR} "trait ArchiveReader" read_array_with_length mode=free self=S igen="<S: ArchiveReaderX>" gen="<T, G: Getter<S, T>>" params=length,getter attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> r->Ok_0@.len() == length && rd(old(this), final(this), pseq(r->Ok_0@, length as nat, |v: T| G::enc(v))),
//@ rw impl Fn\\(&mut Self\\) -> Result<T, Error> ==> G
//@ rw getter\\(self\\) ==> getter.go(self)
//@ at pre-loop 0
    proof {{ cap(length); rd_nil(this); }}
//@ loop 0 it=it
    invariant array@.len() == it.index(), rd(old(this), this, pseq(array@, array@.len(), |v: T| G::enc(v))),
//@ at loop-start 0
    let ghost a0 = array@;
//@ at loop-end 0
    proof {{ let f = |v: T| G::enc(v); pseq_push(Seq::empty(), a0, array@.last(), f); }}
//@ end
//@ fn {AR} "trait ArchiveReader" read_array mode=free self=S igen="<S: ArchiveReaderX>" gen="<T, G: Getter<S, T>>" params=getter
    ensures r is Ok ==> rd(old(this), final(this), plist(r->Ok_0@, |v: T| G::enc(v))),
//@ rw impl Fn\\(&mut Self\\) -> Result<T, Error> ==> G
//@ rw self\\.read_array_with_length\\( ==> read_array_with_length(self, 
//@ end
pub open spec fn plist<T>(s: Seq<T>, f: spec_fn(T) -> Seq<Pat>) -> Seq<Pat> {{ p32(s.len() as u32) + pseq(s, s.len(), f) }}
pub open spec fn pidx(v: PackageIndex) -> Seq<Pat> {{ p32(v.index as u32) }}
pub open spec fn fidx() -> spec_fn(PackageIndex) -> Seq<Pat> {{ |v: PackageIndex| pidx(v) }}
pub open spec fn fstr() -> spec_fn(Option<String>) -> Seq<Pat> {{ |v: Option<String>| pstr(sv(v)) }}
pub proof fn getters<S: ArchiveReaderX>() ensures
    (|v: PackageIndex| <IdxG as Getter<S, PackageIndex>>::enc(v)) == fidx(),
    (|v: Option<String>| <StrG as Getter<S, Option<String>>>::enc(v)) == fstr(),
{{
    assert((|v: PackageIndex| <IdxG as Getter<S, PackageIndex>>::enc(v)) =~= fidx());
    assert((|v: Option<String>| <StrG as Getter<S, Option<String>>>::enc(v)) =~= fstr());
}}
// ---- tagged properties (T01), of packages with tagged properties ----
#[verifier::external_body]
pub struct Property {{ x: u8 }}
/// stored form of one tagged property
pub uninterp spec fn pprop(v: Property, c: Ctx) -> Seq<Pat>;
pub open spec fn fprop(c: Ctx) -> spec_fn(Property) -> Seq<Pat> {{ |v: Property| pprop(v, c) }}
#[verifier::external_body]
pub struct UnversionedHeader {{ x: u8 }}
impl UnversionedHeader {{
    #[verifier::external_body]
    pub fn new<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<Option<UnversionedHeader>, Error>) ensures r is Ok ==> r->Ok_0 is None && *final(asset) == *old(asset) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(&self, asset: &mut S) -> (r: Result<(), Error>) {{ unimplemented!() }}
}}
#[verifier::external_body]
pub fn generate_unversioned_header<S: ArchiveWriterX>(asset: &S, p: &[Property], n: &FName) -> (r: Result<Option<(UnversionedHeader, Vec<Property>)>, Error>) ensures r is Ok ==> r->Ok_0 is None {{ unimplemented!() }}
#[verifier::external_body]
pub fn vx_unversioned<S: Archive>(asset: &S) -> (r: bool) ensures !r {{ unimplemented!() }}
impl Ancestry {{ #[verifier::external_body] pub fn new(p: FName) -> Ancestry {{ unimplemented!() }} }}
impl Property {{
    /// with a tag: a property, or the name that ends the list
    #[verifier::external_body]
    pub fn vx_new<S: ArchiveReaderX>(asset: &mut S, a: Ancestry, include_header: bool) -> (r: Result<Option<Property>, Error>)
        ensures r is Ok && include_header ==> rd(old(asset), final(asset), match r->Ok_0 {{ Some(p) => pprop(p, rc(old(asset))), None => ptn("None"@) }}) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(p: &Property, asset: &mut S, include_header: bool) -> (r: Result<usize, Error>)
        ensures r is Ok && include_header ==> wr(old(asset), final(asset), pprop(*p, wc(old(asset)))) {{ unimplemented!() }}
}}
pub open spec fn pprops(s: Seq<Property>, c: Ctx) -> Seq<Pat> {{ pseq(s, s.len(), fprop(c)) + ptn("None"@) }}
//@ struct {X}base_export.rs BaseExport
impl BaseExport {{ #[verifier::external_body] pub fn get_class_type_for_ancestry<S: Archive>(&self, asset: &S) -> FName {{ unimplemented!() }} }}
//@ struct {X}normal_export.rs NormalExport
pub open spec fn pnormal(v: NormalExport, c: Ctx) -> Seq<Pat> {{ pprops(v.properties@, c) }}
''')
def proploop(arr,pre,k=0):
    return f'''//@ rw! while let Some\\(e\\) =\\s*Property::new\\(asset, ancestry\\.clone\\(\\), unversioned_header\\.as_mut\\(\\), (\\w+)\\)\\?\\s*\\{{ ==> loop {{ let e = match Property::vx_new(asset, vx_dup(&ancestry), \\1)? {{ Some(x) => x, None => break }};
//@ at pre-loop {k}
    let ghost vx_p = {pre};
    proof {{ rd_nil(asset); }}
//@ loop {k}
    invariant_except_break rd(old(asset), asset, vx_p + pseq({arr}@, {arr}@.len(), fprop(rc(old(asset))))), rc(asset) == rc(old(asset)),
    ensures rd(old(asset), asset, vx_p + pprops({arr}@, rc(old(asset)))),
//@ at loop-start {k}
    let ghost (a1, r1) = (*asset, {arr}@);
    proof {{ pat_assoc(vx_p, pseq(r1, r1.len(), fprop(rc(old(asset)))), ptn("None"@)); }}
//@ at loop-end {k}
    proof {{ let f = fprop(rc(old(asset))); assert(rd(&a1, asset, f({arr}@.last()))); pseq_push(vx_p, r1, {arr}@.last(), f); }}'''
def lwx(k,lst,fn,pre,asset='asset'):
    return f'''//@ at pre-loop {k}
    let ghost vx_p{k} = {pre};
//@ loop {k} it=it
    invariant it.seq() == refs_of({lst}@), wr(old({asset}), {asset}, vx_p{k} + pseq({lst}@, it.index() as nat, {fn})),
//@ at loop-start {k}
    let ghost a1 = *{asset};
//@ at loop-end {k}
    proof {{ assert(wr(&a1, {asset}, {fn}({lst}@[it.index() as int]))); pseq_step(vx_p{k}, {lst}@, it.index() as nat, {fn}); }}'''
C='rc(old(asset))'; W='wc(old(asset))'
NE=X+'normal_export.rs'
e(f'''//@ fn {NE} NormalExport from_base params=base,asset attr="#[verifier::loop_isolation(false)];#[verifier::allow_complex_invariants];#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pnormal(r->Ok_0, {C})) && r->Ok_0.base_export == *base,
{proploop('properties','Seq::<Pat>::empty()')}
//@ end
//@ fn {NE} "ExportTrait for NormalExport" write params=asset{LI}
    ensures r is Ok ==> wr(old(asset), final(asset), pnormal(*self, {W})),
{lwx(0,'self.properties',f'fprop({W})','Seq::<Pat>::empty()')}
//@ at body-start
    proof {{ wr_nil(asset); }}
//@ end''')
def export(f,T,spec,own=None,rx='',wx='',base='base',rok='',wreq='',rattr=LI,wattr=LI,head='normal_export',rdspec=None,bname=None,star='*'):
    if own is None: e(f'//@ struct {f} {T}')
    e(f'//@ fn {f} {T} from_base params={base},asset{rattr}')
    con=rdspec or f'rd(old(asset), final(asset), {spec}(r->Ok_0, {C}))'
    e(f'    ensures r is Ok ==> {con} && r->Ok_0.{bname or head+".base_export"} == {star}{base}{rok},')
    if rx: e(rx)
    e('//@ end')
    e(f'//@ fn {f} "ExportTrait for {T}" write params=asset{wattr}')
    if wreq: e(f'    requires {wreq},')
    e(f'    ensures r is Ok ==> wr(old(asset), final(asset), {spec}(*self, {W})),')
    if wx: e(wx)
    e('//@ end')
G='//@ at body-start\n    proof { getters::<Reader>(); }'
e('''pub open spec fn pworld(v: WorldExport, c: Ctx) -> Seq<Pat> {
    ((((pnormal(v.normal_export, c) + pskip(c)) + pidx(v.persistent_level)) + plist(v.extra_objects@, fidx())) + plist(v.streaming_levels@, fidx()))
}''')
def lst(k,l,fn,pre):
    """a written list whose form is plist: count first"""
    return lwx(k,l,fn,f'({pre}) + p32({l}.len() as u32)')+f'''
//@ at post-loop {k}
    proof {{ pat_assoc({pre}, p32({l}.len() as u32), pseq({l}@, {l}@.len(), {fn})); }}'''
P0=f'((pnormal(self.normal_export, {W}) + pskip({W})) + pidx(self.persistent_level))'
export(X+'world_export.rs','WorldExport','pworld',rx=G,
 wx=lst(0,'self.extra_objects','fidx()',P0)+'\n'+lst(1,'self.streaming_levels','fidx()',f'{P0} + plist(self.extra_objects@, fidx())'))
e(f'//@ struct {X}level_export.rs URL')
e('''pub open spec fn purl(v: URL) -> Seq<Pat> { ((((((pstr(sv(v.protocol)) + pstr(sv(v.host))) + pstr(sv(v.map))) + pstr(sv(v.portal))) + plist(v.options@, fstr())) + p32(v.port as u32)) + p32(v.valid as u32)) }
pub open spec fn plevel_a(v: LevelExport, c: Ctx) -> Seq<Pat> { ((pnormal(v.normal_export, c) + pskip(c)) + plist(v.actors@, fidx())) }
pub open spec fn plevel_b(v: LevelExport, c: Ctx) -> Seq<Pat> { (((((plevel_a(v, c) + pstr(sv(v.url.protocol))) + pstr(sv(v.url.host))) + pstr(sv(v.url.map))) + pstr(sv(v.url.portal))) + plist(v.url.options@, fstr())) }
pub open spec fn plevel(v: LevelExport, c: Ctx) -> Seq<Pat> {
    (((((((plevel_b(v, c) + p32(v.url.port as u32)) + p32(v.url.valid as u32)) + pidx(v.model)) + plist(v.model_components@, fidx())) + pidx(v.level_script)) + pidx(v.nav_list_start)) + pidx(v.nav_list_end))
}''')
P1=f'(pnormal(self.normal_export, {W}) + pskip({W}))'
P2=f'((((plevel_a(*self, {W}) + pstr(sv(self.url.protocol))) + pstr(sv(self.url.host))) + pstr(sv(self.url.map))) + pstr(sv(self.url.portal)))'
P3=f'(((plevel_b(*self, {W}) + p32(self.url.port as u32)) + p32(self.url.valid as u32)) + pidx(self.model))'
export(X+'level_export.rs','LevelExport','plevel',base='unk',rx=G,
 wx=lst(0,'self.actors','fidx()',P1)+'\n'+lst(1,'self.url.options','fstr()',P2)+'\n'+lst(2,'self.model_components','fidx()',P3)+'\n//@ rw! option\\.as_deref\\(\\) ==> vx_deref(option)')
e('''#[verifier::external_body]
pub fn vx_class_type<S: Archive>(asset: &S, i: PackageIndex) -> (r: Option<FName>) { unimplemented!() }
pub open spec fn pprope(v: PropertyExport, c: Ctx) -> Seq<Pat> { ((pnormal(v.normal_export, c) + pskip(c)) + pu(v.property, c)) }''')
export(X+'property_export.rs','PropertyExport','pprope',rx='//@ rw! asset\\s*\\.get_export_class_type\\( ==> vx_class_type(asset, ')
e('pub open spec fn praw(v: RawExport, c: Ctx) -> Seq<Pat> { pblob(v.data@) }')
export(X+'raw_export.rs','RawExport','praw',bname='base_export',star='')

# ---- enums: a negative count reads as an empty list; anything but 1 reads as not namespaced ----
EE=X+'enum_export.rs'
e(f"""//@ rewrite false => asset\\.read_u8\\(\\)\\?\\.try_into\\(\\)\\? ==> false => ECppForm::try_from(asset.read_u8()?)?
//@ enumnum {EE} ECppForm
//@ struct {EE} UEnum
pub open spec fn ppacked(c: Ctx) -> bool {{ on(c.ov) >= on(ObjectVersion::VER_UE4_TIGHTLY_PACKED_ENUMS) }}
pub open spec fn penumv(v: (FName, i64), c: Ctx) -> Seq<Pat> {{
    if !ppacked(c) {{ pname(v.0) }}
    else if cvn::<FCoreObjectVersion>(c.cv) < FCoreObjectVersion_EnumProperties {{ pname(v.0) + p8(v.1 as u8) }}
    else {{ pname(v.0) + p64(v.1 as u64) }}
}}
pub open spec fn fenum(c: Ctx) -> spec_fn((FName, i64)) -> Seq<Pat> {{ |v: (FName, i64)| penumv(v, c) }}
pub open spec fn pflag1(b: bool, c: Ctx) -> Seq<Pat> {{ if b {{ p32(1) }} else if c.exact {{ p32(0) }} else {{ anyb(4) }} }}
pub open spec fn pform(v: ECppForm, c: Ctx) -> Seq<Pat> {{
    if on(c.ov) < on(ObjectVersion::VER_UE4_ENUM_CLASS_SUPPORT) {{ pflag1(v == ECppForm::Namespaced, c) }} else {{ p8(ECppForm_n(v)) }}
}}
pub open spec fn puenum(v: UEnum, n: u32, c: Ctx) -> Seq<Pat> {{ (p32(n) + pseq(v.names@, v.names@.len(), fenum(c))) + pform(v.cpp_form, c) }}
/// a stored count: negative ones read as none
pub open spec fn cnt_ok(n: u32, len: nat) -> bool {{ n == len || (len == 0 && n >= 0x8000_0000u32) }}
/// the values an old package can store: the position of each name, or a byte
pub open spec fn ok_uenum(v: UEnum, c: Ctx) -> bool {{
    &&& !ppacked(c) ==> forall|i: int| 0 <= i < v.names@.len() ==> (#[trigger] v.names@[i]).1 == i
    &&& v.names@.len() <= i32::MAX
    &&& on(c.ov) < on(ObjectVersion::VER_UE4_ENUM_CLASS_SUPPORT) ==> v.cpp_form != ECppForm::EnumClass
}}
pub open spec fn rd_uenum<S: Archive + ?Sized>(a: &S, b: &S, v: UEnum) -> bool {{ exists|n: u32| #[trigger] cnt_ok(n, v.names@.len()) && rd(a, b, puenum(v, n, rc(a))) }}
pub proof fn neg(n: i32) ensures n < 0 ==> (n as u32) >= 0x8000_0000u32, n >= 0 ==> n as u32 == n {{ assert(n < 0 ==> (n as u32) >= 0x8000_0000u32) by (bit_vector); }}
""")
def en(k,extra=''):
    return f"""//@ at pre-loop {k}
    proof {{ neg(num_entries); }}
    let ghost n{k} = num_entries as u32; proof {{ vx_n = num_entries as u32; }}
//@ loop {k} it=it
    invariant names@.len() == it.index(), rd(old(asset), asset, p32(n{k}) + pseq(names@, names@.len(), fenum({C}))){extra},
//@ at loop-start {k}
    let ghost (a1, r1) = (*asset, names@);
//@ at loop-end {k}
    proof {{ assert(rd(&a1, asset, fenum({C})(names@.last()))); pseq_push(p32(n{k}), r1, names@.last(), fenum({C})); }}"""
e(f"""//@ fn {EE} UEnum new params=asset{LI}
    ensures r is Ok ==> rd_uenum(old(asset), final(asset), r->Ok_0) && ok_uenum(r->Ok_0, {C}),
//@ rw let custom_version = asset\\.get_custom_version::<(\\w+)>\\(\\); ==> let custom_version = VxVer {{ version: asset.vx_cv::<\\1>() }};
//@ rw! asset\\.read_i32::<LE>\\(\\)\\? == 1; ==> vx_is1(asset)?;
{en(0,', forall|j: int| 0 <= j < names@.len() ==> (#[trigger] names@[j]).1 == j')}
{en(1)}
{en(2)}
//@ at body-start
    let ghost mut vx_n: u32 = 0;
    proof {{ let f = fenum({C}); rd_nil(asset); u8_cast(); }}
//@ at before-tail
    proof {{ let v = UEnum {{ names: names, cpp_form: cpp_form }}; assert(cnt_ok(vx_n, v.names@.len())); assert(rd(old(asset), asset, puenum(v, vx_n, {C}))); assert(rd_uenum(old(asset), asset, v)); }}
//@ end
pub struct VxVer {{ pub version: i32 }}
pub proof fn u8_cast() ensures forall|b: u8| #[trigger] ((b as i64) as u8) == b {{ assert forall|b: u8| #[trigger] ((b as i64) as u8) == b by {{ assert(((b as i64) as u8) == b) by (bit_vector); }} }}
/// read_i32()? == 1
pub fn vx_is1<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<bool, Error>)
    ensures r is Ok ==> rd(old(asset), final(asset), pflag1(r->Ok_0, {C})),
{{ let v = asset.read_i32::<LE>()?; proof {{ rd_any32(old(asset), asset, v as u32); }} Ok(v == 1) }}
//@ fn {EE} UEnum write params=asset{LI}
    requires ok_uenum(*self, {W}),
    ensures r is Ok ==> wr(old(asset), final(asset), puenum(*self, self.names@.len() as u32, {W})),
//@ rw! name\\.clone\\(\\) ==> vx_dup(name)
//@ rw! match self\\.cpp_form == ECppForm::Namespaced \\{{ ==> match vx_namespaced(self.cpp_form) {{
//@ rw! HashMap::with_capacity\\( ==> std::collections::HashMap::<i64, FName>::with_capacity(
//@ at body-start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_q = p32(self.names.len() as u32);
    let ghost f = fenum({W});
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.names@), forall|j: i64| #[trigger] names_map@.contains_key(j) <==> 0 <= j < it.index(), forall|j: int| 0 <= j < it.index() ==> #[trigger] names_map@[j as i64] == self.names@[j].0, names_map@.len() == it.index(), names_map@.dom().finite(),
//@ loop 1 it=it
    invariant wr(old(asset), asset, vx_q + pseq(self.names@, it.index() as nat, f)),
//@ at loop-start 1
    let ghost a1 = *asset;
    proof {{ assert(names_map@.contains_key(i as i64)); assert(names_map@[(i as int) as i64] == self.names@[i as int].0); }}
//@ at loop-end 1
    proof {{ assert(wr(&a1, asset, f(self.names@[it.index() as int]))); pseq_step(vx_q, self.names@, it.index() as nat, f); }}
{lwx(2,'self.names','f','vx_q')}
{lwx(3,'self.names','f','vx_q')}
//@ end
pub fn vx_namespaced(v: ECppForm) -> (r: bool) ensures r == (v == ECppForm::Namespaced) {{ match v {{ ECppForm::Namespaced => true, _ => false }} }}
pub open spec fn penume(v: EnumExport, n: u32, c: Ctx) -> Seq<Pat> {{ (pnormal(v.normal_export, c) + pskip(c)) + puenum(v.value, n, c) }}
pub open spec fn penume_w(v: EnumExport, c: Ctx) -> Seq<Pat> {{ penume(v, v.value.names@.len() as u32, c) }}
pub open spec fn rd_enume<S: Archive + ?Sized>(a: &S, b: &S, v: EnumExport) -> bool {{ exists|n: u32| #[trigger] cnt_ok(n, v.value.names@.len()) && rd(a, b, penume(v, n, rc(a))) }}
""")
export(EE,'EnumExport','penume_w',rdspec='rd_enume(old(asset), final(asset), r->Ok_0)',rok=f' && ok_uenum(r->Ok_0.value, {C})',wreq=f'ok_uenum(self.value, {W})',
 rx=f"""//@ rw! let value = ==> let ghost a1 = *asset; let value =
//@ at before-tail
    proof {{
        let n = choose|n: u32| #[trigger] cnt_ok(n, value.names@.len()) && rd(&a1, asset, puenum(value, n, rc(&a1)));
        let v = EnumExport {{ normal_export: normal_export, value: value }};
        assert(rd(old(asset), asset, penume(v, n, {C}))); assert(cnt_ok(n, v.value.names@.len())); assert(rd_enume(old(asset), asset, v));
    }}""")

# ---- ordered maps (C01): the entries in iteration order ----
e("""pub open spec fn has<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub uninterp spec fn replaced<K, V>(s: Seq<(K, V)>, t: (K, V)) -> Seq<(K, V)>;
pub open spec fn ins<K, V>(s: Seq<(K, V)>, t: (K, V)) -> Seq<(K, V)> { if has(s, t.0) { replaced(s, t) } else { s.push(t) } }
/// what is kept of a stored list: a repeated key replaces its entry
pub open spec fn kept_<K, V>(s: Seq<(K, V)>, n: nat) -> Seq<(K, V)> decreases n { if n == 0 { Seq::empty() } else { ins(kept_(s, (n - 1) as nat), s[n - 1]) } }
pub open spec fn kept<K, V>(s: Seq<(K, V)>) -> Seq<(K, V)> { kept_(s, s.len()) }
pub proof fn kept_same<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i]
    ensures kept_(s, n) == kept_(t, n) decreases n
{ if n > 0 { kept_same(s, t, (n - 1) as nat); } }
/// a list without repeated keys is kept as it is
pub proof fn kept_distinct<K, V>(s: Seq<(K, V)>, n: nat)
    requires n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures kept_(s, n) == s.take(n as int) decreases n
{
    if n > 0 {
        kept_distinct(s, (n - 1) as nat);
        let t = s.take(n - 1);
        if has(t, s[n - 1].0) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == s[n - 1].0; assert(s[i].0 == s[n - 1].0); }
        assert(s.take(n as int) =~= t.push(s[n - 1]));
    } else { assert(s.take(0) =~= Seq::empty()); }
}
macro_rules! omap { ($t:ident, $k:ty, $v:ty, $ks:ty, $vs:ty, $en:ident, $kf:ident, $vf:ident) => { verus! {
    #[verifier::external_body]
    pub struct $t { x: u8 }
    impl $t {
        pub uninterp spec fn e(&self) -> Seq<($ks, $vs)>;
        #[verifier::external_body]
        pub fn new() -> (r: $t) ensures r.e() == Seq::<($ks, $vs)>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: $t) ensures r.e() == Seq::<($ks, $vs)>::empty(), n <= isize::MAX { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: $k, v: $v) ensures final(self).e() == ins(old(self).e(), ($kf(k), $vf(v))) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn $en<'a>(t: &'a $t) -> (r: Vec<(usize, &'a $k, &'a $v)>)
        ensures r@.len() == t.e().len(), forall|i: int| 0 <= i < r@.len() ==> $kf(*(#[trigger] r@[i]).1) == t.e()[i].0 && $vf(*r@[i].2) == t.e()[i].1
    { unimplemented!() }
} } }
pub open spec fn strv(s: String) -> Seq<char> { s@ }
pub open spec fn same<T>(s: T) -> T { s }
omap!(StrMap, String, String, Seq<char>, Seq<char>, vx_str_entries, strv, strv);
omap!(FuncMap, FName, PackageIndex, FName, PackageIndex, vx_func_entries, same, same);
//@ rewrite IndexedMap<String, String> ==> StrMap
//@ rewrite IndexedMap<FName, PackageIndex> ==> FuncMap
//@ rewrite IndexedMap::new ==> StrMap::new
//@ rewrite IndexedMap::with_capacity ==> FuncMap::with_capacity
//@ rewrite in &self\\.table\\b ==> in &vx_str_entries(&self.table)
//@ rewrite in &self\\.func_map\\b ==> in &vx_func_entries(&self.func_map)
pub open spec fn fse() -> spec_fn((Seq<char>, Seq<char>)) -> Seq<Pat> { |v: (Seq<char>, Seq<char>)| pstr(Some(v.0)) + pstr(Some(v.1)) }
pub open spec fn ffe() -> spec_fn((FName, PackageIndex)) -> Seq<Pat> { |v: (FName, PackageIndex)| pname(v.0) + pidx(v.1) }
/// a stored list of entries, of which k are kept
pub struct Ent<K, V> { pub n: u32, pub t: Seq<(K, V)> }
pub open spec fn pent<K, V>(s: Ent<K, V>, f: spec_fn((K, V)) -> Seq<Pat>) -> Seq<Pat> { p32(s.n) + pseq(s.t, s.t.len(), f) }
pub open spec fn ent_ok<K, V>(s: Ent<K, V>, k: Seq<(K, V)>) -> bool { cnt_ok(s.n, s.t.len()) && kept(s.t) == k }
pub open spec fn ent_w<K, V>(k: Seq<(K, V)>) -> Ent<K, V> { Ent { n: k.len() as u32, t: k } }
""")
ST=X+'string_table_export.rs'
e("""pub open spec fn pst(v: StringTableExport, t: Ent<Seq<char>, Seq<char>>, c: Ctx) -> Seq<Pat> { ((pnormal(v.normal_export, c) + pskip(c)) + pstr(sv(v.namespace))) + pent(t, fse()) }
pub open spec fn pst_w(v: StringTableExport, c: Ctx) -> Seq<Pat> { pst(v, ent_w(v.table.e()), c) }
pub open spec fn rd_st<S: Archive + ?Sized>(a: &S, b: &S, v: StringTableExport) -> bool { exists|t: Ent<Seq<char>, Seq<char>>| #[trigger] ent_ok(t, v.table.e()) && rd(a, b, pst(v, t, rc(a))) }""")
export(ST,'StringTableExport','pst_w',rdspec='rd_st(old(asset), final(asset), r->Ok_0)',
 rx=f"""//@ rw! table\\.insert\\(\\s*(asset\\s*\\.read_fstring\\(\\)\\?\\s*\\.ok_or_else.*?\\)\\?),\\s*(asset\\s*\\.read_fstring\\(\\)\\?\\s*\\.ok_or_else.*?\\)\\?),\\s*\\); ==> let vx_k = \\1; let vx_v = \\2; let ghost kv = (vx_k@, vx_v@); table.insert(vx_k, vx_v);
//@ at pre-loop 0
    let ghost mut t: Seq<(Seq<char>, Seq<char>)> = Seq::empty();
    let ghost vx_p = ((pnormal(normal_export, {C}) + pskip({C})) + pstr(sv(namespace))) + p32(num_entries as u32);
    proof {{ neg(num_entries); }}
//@ loop 0 it=it
    invariant t.len() == it.index(), kept(t) == table.e(), rd(old(asset), asset, vx_p + pseq(t, t.len(), fse())),
//@ at loop-start 0
    let ghost a0 = *asset;
//@ at loop-end 0
    proof {{
        let t1 = t.push(kv);
        kept_same(t, t1, t.len());
        assert(rd(&a0, asset, fse()(kv)));
        pseq_push(vx_p, t, kv, fse());
        t = t1;
    }}
//@ at before-tail
    proof {{
        let v = StringTableExport {{ normal_export: normal_export, namespace: namespace, table: table }};
        let s = Ent {{ n: num_entries as u32, t: t }};
        pat_assoc(((pnormal(normal_export, {C}) + pskip({C})) + pstr(sv(namespace))), p32(s.n), pseq(t, t.len(), fse()));
        assert(rd(old(asset), asset, pst(v, s, {C}))); assert(ent_ok(s, v.table.e())); assert(rd_st(old(asset), asset, v));
    }}""",
 wx=f"""//@ rw! Some\\((key|value)\\) ==> Some(\\1.as_str())
//@ at pre-loop 0
    let ghost vx_p = ((pnormal(self.normal_export, {W}) + pskip({W})) + pstr(sv(self.namespace)));
//@ loop 0 it=it
    invariant it.seq().len() == self.table.e().len(), forall|i: int| 0 <= i < it.seq().len() ==> strv(*(#[trigger] it.seq()[i]).1) == self.table.e()[i].0 && strv(*it.seq()[i].2) == self.table.e()[i].1, wr(old(asset), asset, (vx_p + p32(self.table.e().len() as u32)) + pseq(self.table.e(), it.index() as nat, fse())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof {{ assert(wr(&a1, asset, fse()(self.table.e()[it.index() as int]))); pseq_step(vx_p + p32(self.table.e().len() as u32), self.table.e(), it.index() as nat, fse()); }}
//@ at post-loop 0
    proof {{ pat_assoc(vx_p, p32(self.table.e().len() as u32), pseq(self.table.e(), self.table.e().len(), fse())); }}""")
