# prepares the accumulator wrappers of units/asset.vrs
R = [("i32","i32","p32(r->Ok_0 as u32)"),("u32","u32","p32(r->Ok_0)"),("i64","i64","p64(r->Ok_0 as u64)"),("u16","u16","p16(r->Ok_0)")]
W = [("i32","i32","p32(v as u32)"),("u32","u32","p32(v)"),("i64","i64","p64(v as u64)"),("u16","u16","p16(v)")]
o = ["// Every archive operation also extends a ghost record of the stored form so far (vx_p, from the state vx_0 on):",
"// the call sites are rewritten mechanically, archive.op(..) to vx_op(archive, Ghost(vx_0), &mut vx_p, ..), and the bodies are verified."]
def rdf(n, t, pat, call, gen=""):
    o.append(f"pub fn vx_read_{n}<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>) -> (r: Result<{t}, Error>)\n    requires rd(&a@, old(s), old(p)@),\n    ensures r is Ok ==> final(p)@ == old(p)@ + {pat} && rd(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),\n{{ let ghost q = *s; let ghost p0 = p@; let r = {call}; proof {{ if r is Ok {{ let x = {pat}; rd_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); rd_ctx(&q, s, x); }} }} r }}")
def wrf(n, t, pat, call):
    o.append(f"pub fn vx_write_{n}<S: ArchiveWriterX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, v: {t}) -> (r: Result<(), Error>)\n    requires wr(&a@, old(s), old(p)@),\n    ensures r is Ok ==> final(p)@ == old(p)@ + {pat} && wr(&a@, final(s), final(p)@) && final(s).ov() == old(s).ov() && final(s).o5() == old(s).o5() && final(s).cv() == old(s).cv(),\n{{ let ghost q = *s; let ghost p0 = p@; let r = {call}; proof {{ if r is Ok {{ let x = {pat}; wr_trans(&a@, &q, s, p0, x); *p = Ghost(p0 + x); wr_ctx(&q, s, x); }} }} {'match r { Ok(_) => Ok(()), Err(e) => Err(e) }' if n=='fstring' else 'r'} }}")
for n,t,p in R: rdf(n,t,p,f"s.read_{n}::<LE>()")
rdf("guid","Guid","pblob(r->Ok_0.0@)","s.read_guid()")
rdf("fstring","Option<String>","pstr(sv(r->Ok_0))","s.read_fstring()")
rdf("fname","FName","pname(r->Ok_0)","s.read_fname()")
rdf("flag","bool","pflag(r->Ok_0, false)","vx_flag(s)")
rdf("skip4","()","anyb(4)","vx_skip4(s)")
rdf("engine","FEngineVersion","pengine(r->Ok_0)","FEngineVersion::read(s)")
rdf("entry","UAssetExportMapEntry","pentry_r(r->Ok_0, old(s).ov(), old(s).o5())","UAssetExportMapEntry::read(s)")
rdf("be","u32","pbe(r->Ok_0)","vx_be(s)")
for n,t,p in W: wrf(n,t,p,f"s.write_{n}::<LE>(v)")
wrf("guid","&Guid","pblob(v.0@)","s.write_guid(v)")
wrf("fstring","Option<&str>","pstr(dv(v))","s.write_fstring(v)")
wrf("fname","&FName","pname(*v)","s.write_fname(v)")
wrf("engine","&FEngineVersion","pengine(*v)","v.write(s)")
wrf("be","u32","pbe(v)","vx_put_be(s, v)")
wrf("flag","bool","pflag(v, true)","vx_put_flag(s, v)")
wrf("all","&[u8]","pblob(v@)","s.write_all(v)")
open('/tmp/w/v/units/prelude/acc.rs','w').write("\n".join(o)+"\n")
