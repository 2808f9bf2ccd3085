// ---- further archive operations, as assumed contracts in the style of arch.rs ----
/// stored form of an optional string as the archive writer stores it; proved for RawReader/RawWriter's own codec by unit strs (H01)
pub uninterp spec fn pstr(s: Option<Seq<char>>) -> Seq<Pat>;
pub open spec fn sv(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn dv(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub trait ArchiveReaderX: ArchiveReader {
    fn read_fstring(&mut self) -> (r: Result<Option<String>, Error>) ensures r is Ok ==> rd(old(self), final(self), pstr(sv(r->Ok_0)));
    fn read_guid(&mut self) -> (r: Result<Guid, Error>) ensures r is Ok ==> rd(old(self), final(self), pblob(r->Ok_0.0@));
    fn read_exact_vec(&mut self, b: &mut Vec<u8>) -> (r: Result<(), Error>) ensures final(b)@.len() == old(b)@.len(), r is Ok ==> rd(old(self), final(self), pblob(final(b)@));
    fn read_exact<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: Result<(), Error>) ensures r is Ok ==> rd(old(self), final(self), pblob(final(b)@));
}
pub trait ArchiveWriterX: ArchiveWriter {
    fn write_fstring(&mut self, s: Option<&str>) -> (r: Result<usize, Error>) ensures r is Ok ==> wr(old(self), final(self), pstr(dv(s))) && r->Ok_0 == pstr(dv(s)).len();
    fn write_guid(&mut self, g: &Guid) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(self), final(self), pblob(g.0@));
}
// ---- lists of records ----
pub open spec fn pseq<T>(s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>) -> Seq<Pat> decreases n {
    if n == 0 { Seq::empty() } else { pseq(s, (n - 1) as nat, f) + f(s[n - 1]) }
}
pub proof fn pseq_same<T>(s: Seq<T>, t: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i]
    ensures pseq(s, n, f) == pseq(t, n, f) decreases n
{ if n > 0 { pseq_same(s, t, (n - 1) as nat, f); } }
/// one more record behind a prefix
pub proof fn pseq_push<T>(p: Seq<Pat>, s: Seq<T>, v: T, f: spec_fn(T) -> Seq<Pat>)
    ensures (p + pseq(s, s.len(), f)) + f(v) == p + pseq(s.push(v), s.len() + 1, f)
{ pseq_same(s, s.push(v), s.len(), f); pat_assoc(p, pseq(s, s.len(), f), f(v)); }
pub proof fn pseq_step<T>(p: Seq<Pat>, s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>)
    ensures (p + pseq(s, n, f)) + f(s[n as int]) == p + pseq(s, n + 1, f)
{ pat_assoc(p, pseq(s, n, f), f(s[n as int])); }
