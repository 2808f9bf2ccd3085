// Every archive operation also extends a ghost record of the stored form so far (vx_p, from the state vx_0 on):
// the call sites are rewritten mechanically, archive.op(..) to vx_op(archive, Ghost(vx_0), &mut vx_p, ..), and the bodies are verified.
pub fn vx_read_i32<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<i32, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p32(r->Ok_0 as u32) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_i32::<LE>(); proof { if r is Ok { let x = p32(r->Ok_0 as u32); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_u32<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<u32, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p32(r->Ok_0) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_u32::<LE>(); proof { if r is Ok { let x = p32(r->Ok_0); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_i64<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<i64, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p64(r->Ok_0 as u64) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_i64::<LE>(); proof { if r is Ok { let x = p64(r->Ok_0 as u64); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_u16<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<u16, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p16(r->Ok_0) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_u16::<LE>(); proof { if r is Ok { let x = p16(r->Ok_0); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_guid<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<Guid, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pblob(r->Ok_0.0@) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_guid(); proof { if r is Ok { let x = pblob(r->Ok_0.0@); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_fstring<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<Option<String>, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pstr(sv(r->Ok_0)) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_fstring(); proof { if r is Ok { let x = pstr(sv(r->Ok_0)); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_fname<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<FName, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pname(r->Ok_0) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.read_fname(); proof { if r is Ok { let x = pname(r->Ok_0); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_flag<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<bool, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pflag(r->Ok_0, false) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = vx_flag(s); proof { if r is Ok { let x = pflag(r->Ok_0, false); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_skip4<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<(), Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + anyb(4) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = vx_skip4(s); proof { if r is Ok { let x = anyb(4); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_engine<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<FEngineVersion, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pengine(r->Ok_0) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = FEngineVersion::read(s); proof { if r is Ok { let x = pengine(r->Ok_0); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_entry<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<UAssetExportMapEntry, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pentry_r(r->Ok_0, old(s).ov(), old(s).o5()) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = UAssetExportMapEntry::read(s); proof { if r is Ok { let x = pentry_r(r->Ok_0, old(s).ov(), old(s).o5()); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_read_be<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<u32, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pbe(r->Ok_0) && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = vx_be(s); proof { if r is Ok { let x = pbe(r->Ok_0); rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); } } r }
pub fn vx_write_i32<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: i32) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p32(v as u32) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_i32::<LE>(v); proof { if r is Ok { let x = p32(v as u32); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_u32<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: u32) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p32(v) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_u32::<LE>(v); proof { if r is Ok { let x = p32(v); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_i64<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: i64) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p64(v as u64) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_i64::<LE>(v); proof { if r is Ok { let x = p64(v as u64); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_u16<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: u16) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p16(v) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_u16::<LE>(v); proof { if r is Ok { let x = p16(v); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_guid<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: &Guid) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pblob(v.0@) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_guid(v); proof { if r is Ok { let x = pblob(v.0@); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_fstring<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: Option<&str>) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pstr(dv(v)) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_fstring(v); proof { if r is Ok { let x = pstr(dv(v)); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } match r { Ok(_) => Ok(()), Err(e) => Err(e) } }
pub fn vx_write_fname<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: &FName) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pname(*v) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_fname(v); proof { if r is Ok { let x = pname(*v); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_engine<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: &FEngineVersion) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pengine(*v) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = v.write(s); proof { if r is Ok { let x = pengine(*v); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_be<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: u32) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pbe(v) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = vx_put_be(s, v); proof { if r is Ok { let x = pbe(v); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_flag<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: bool) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pflag(v, true) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = vx_put_flag(s, v); proof { if r is Ok { let x = pflag(v, true); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
pub fn vx_write_all<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: &[u8]) -> (r: Result<(), Error>)
    requires wr(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + pblob(v@) && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),
{ let ghost q = *s; let ghost p0 = p@; let r = s.write_all(v); proof { if r is Ok { let x = pblob(v@); wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); } } r }
