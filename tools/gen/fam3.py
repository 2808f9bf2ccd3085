# movies
MV=R+'movies/'; BM=B+'types/movie.rs'
src(BM)
e(f'//@ enumnum {BM} ERangeBoundTypes')
for T,f in (('FrameNumber','value'),('FrameRate','numerator,denominator')):
    e(f'//@ struct {BM} {T}')
    e(f'//@ fn {BM} {T} new params={f}\n    ensures '+', '.join(f'r.{x} == {x}' for x in f.split(','))+',\n//@ end')
rec(BM,'FFrameNumberRangeBound',['p8(ERangeBoundTypes_n(v.ty) as u8)','p32(v.value.value as u32)'])
rec(BM,'FFrameNumberRange',['pr_FFrameNumberRangeBound(v.lower_bound, c)','pr_FFrameNumberRangeBound(v.upper_bound, c)'])
F=MV+'movie_scene_frame_range_property.rs'
rec(F,'Int32RangeBound',['p8(ERangeBoundTypes_n(v.ty) as u8)','p32(v.value as u32)'])
prop(F,'MovieSceneFrameRangeProperty',['pr_Int32RangeBound(v.lower_bound, c)','pr_Int32RangeBound(v.upper_bound, c)'])
F=MV+'mod.rs'
rec(F,'MovieSceneTangentData',[f'p32(v.{x}.0.bits)' for x in 'arrive_tangent leave_tangent arrive_tangent_weight leave_tangent_weight'.split()]+['p8(RichCurveTangentWeightMode_n(v.tangent_weight_mode) as u8)'],
  rpre='!clang_win64',ok='!r->Ok_0.clang_win64',wreq='!self.clang_win64',rextra=['//@ rw! asset\\.read_exact\\(&mut \\[0u8; 3\\]\\)\\?; ==> let mut vx_z = [0u8; 3]; asset.read_exact(&mut vx_z)?;'])
F=MV+'movie_scene_float_value_property.rs'
rec(F,'MovieSceneFloatValue',['p32(v.value.0.bits)','pr_MovieSceneTangentData(v.tangent, c)','p8(RichCurveInterpMode_n(v.interp_mode) as u8)','p8(RichCurveTangentMode_n(v.tangent_mode) as u8)'],
  rpre='!clang_win64',ok='!r->Ok_0.tangent.clang_win64',wreq='!self.tangent.clang_win64')
prop(F,'MovieSceneFloatValueProperty',['pr_MovieSceneFloatValue(v.value, c)'],rens=' && !r->Ok_0.value.tangent.clang_win64',wreq='!self.value.tangent.clang_win64')
F=MV+'movie_scene_float_channel_property.rs'
e('pub open spec fn f_frame() -> spec_fn(FrameNumber) -> Seq<Pat> { |v: FrameNumber| p32(v.value as u32) }')
e('pub open spec fn f_fval(c: Ctx) -> spec_fn(MovieSceneFloatValue) -> Seq<Pat> { |v: MovieSceneFloatValue| pr_MovieSceneFloatValue(v, c) }')
e('/// a private field that is false in every value the crate makes\npub open spec fn plain(s: Seq<MovieSceneFloatValue>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).tangent.clang_win64 }')
P0='((p8(RichCurveExtrapolation_n(pre_infinity_extrap)) + p8(RichCurveExtrapolation_n(post_infinity_extrap))) + p32(times_struct_length as u32))'
P1='(vx_p0 + pseq(times@, times@.len(), f_frame())) + p32(values_struct_length as u32)'
W0=re.sub(r'\b(pre_inf|post_inf|times_struct)',r'self.\1',P0); W1=P1.replace('times@','self.times@').replace('values_struct','self.values_struct')
rr=lr(0,'times_length','times','f_frame()',P0)+[x.replace('invariant','invariant plain(values@),') for x in lr(1,'values_length','values','f_fval(rc(old(asset)))',P1)]
ww=lw(0,'self.times','f_frame()',W0)+lw(1,'self.values','f_fval(wc(old(asset)))',W1)
rec(F,'MovieSceneFloatChannel',['p8(RichCurveExtrapolation_n(v.pre_infinity_extrap))','p8(RichCurveExtrapolation_n(v.post_infinity_extrap))','p32(v.times_struct_length as u32)','p32(v.times@.len() as u32)','pseq(v.times@, v.times@.len(), f_frame())','p32(v.values_struct_length as u32)','p32(v.values@.len() as u32)','pseq(v.values@, v.values@.len(), f_fval(c))','p32(v.default_value.0.bits)','p32(w as u32)','p32(v.tick_resolution.numerator as u32)','p32(v.tick_resolution.denominator as u32)'],
  w=('v.has_default_value == (w == 1)','flag(self.has_default_value)'),attr=LI,ok='plain(r->Ok_0.values@)',wreq='plain(self.values@)',
  rextra=rr+FL+[okr('MovieSceneFloatChannel',inc=False)],wextra=ww)
prop(F,'MovieSceneFloatChannelProperty',['pr_MovieSceneFloatChannel(v.value, w, c)'],w=('ok_MovieSceneFloatChannel(v.value, w, c)','flag(self.value.has_default_value)'),rens=' && plain(r->Ok_0.value.values@)',wreq='plain(self.value.values@)',
  rextra=['//@ rw! let value = MovieSceneFloatChannel::new\\(asset\\)\\?; ==> let ghost vx_b = *asset; let value = MovieSceneFloatChannel::new(asset)?; let ghost vx_w: i32 = choose|w: i32| ok_MovieSceneFloatChannel(value, w, rc(&vx_b)) && rd(&vx_b, asset, pr_MovieSceneFloatChannel(value, w, rc(&vx_b)));','//@ at body-start','    proof { rd_nil(asset); }',okr('MovieSceneFloatChannelProperty')])
for x,T in (('sequence_id','SequenceId'),('track_identifier','TrackIdentifier')):
    F=MV+f'movie_scene_{x}_property.rs'
    rec(F,'MovieScene'+T,['p32(v.value)'])
    prop(F,f'MovieScene{T}Property',[f'pr_MovieScene{T}(v.value, c)'])
F=MV+'movie_scene_evaluation_key_property.rs'
rec(F,'MovieSceneEvaluationKey',['pr_MovieSceneSequenceId(v.sequence_id, c)','pr_MovieSceneTrackIdentifier(v.track_identifier, c)','p32(v.section_index)'])
prop(F,'MovieSceneEvaluationKeyProperty',['pr_MovieSceneEvaluationKey(v.value, c)'])
F=MV+'movie_scene_event_parameters_property.rs'
rec(F,'MovieSceneEventParameters',['pr_SoftObjectPath(v.struct_type, c)','p32(v.struct_bytes@.len() as u32)','pblob(v.struct_bytes@)'],
  rextra=['//@ rw! asset\\.read_exact\\(&mut struct_bytes\\) ==> asset.read_exact_vec(&mut struct_bytes)','//@ rw! (let mut struct_bytes = vec!\\[0u8; struct_bytes_length as usize\\];) ==> \\1 proof { cap(struct_bytes_length); }'])
prop(F,'MovieSceneEventParametersProperty',['pr_MovieSceneEventParameters(v.value, c)'])
# evaluation trees
F=MV+'movie_scene_evaluation.rs'
rec(F,'FEntry',[f'p32(v.{x} as u32)' for x in ('start_index','size','capacity')])
rec(F,'EvaluationTreeEntryHandle',['p32(v.entry_index as u32)'])
rec(F,'MovieSceneEvaluationTreeNodeHandle',['pr_EvaluationTreeEntryHandle(v.children_handle, c)','p32(v.index as u32)'])
rec(F,'MovieSceneEvaluationTreeNode',['pr_FFrameNumberRange(v.range, c)','pr_MovieSceneEvaluationTreeNodeHandle(v.parent, c)','pr_EvaluationTreeEntryHandle(v.children_id, c)','pr_EvaluationTreeEntryHandle(v.data_id, c)'])
rec(F,'FEntityAndMetaDataIndex',['p32(v.entity_index as u32)','p32(v.meta_data_index as u32)'])
e('''// the function pointers a tree takes for its items become values of these traits; the closures given for them become the structs below (mechanically, on every run)
pub trait VxGet<T> {
    spec fn form(v: T, c: Ctx) -> Seq<Pat>;
    fn get<S: ArchiveReaderX>(&self, asset: &mut S) -> (r: Result<T, Error>)
        ensures r is Ok ==> rd(old(asset), final(asset), Self::form(r->Ok_0, rc(old(asset))));
}
pub trait VxPut<T> {
    spec fn form(v: T, c: Ctx) -> Seq<Pat>;
    fn put<S: ArchiveWriterX>(&self, asset: &mut S, v: &T) -> (r: Result<(), Error>)
        ensures r is Ok ==> wr(old(asset), final(asset), Self::form(*v, wc(old(asset))));
}
pub open spec fn f_get<T, G: VxGet<T>>(c: Ctx) -> spec_fn(T) -> Seq<Pat> { |v: T| G::form(v, c) }
pub open spec fn f_put<T, G: VxPut<T>>(c: Ctx) -> spec_fn(T) -> Seq<Pat> { |v: T| G::form(v, c) }
pub open spec fn f_entry(c: Ctx) -> spec_fn(FEntry) -> Seq<Pat> { |v: FEntry| pr_FEntry(v, c) }
pub open spec fn pcont<T>(v: TEvaluationTreeEntryContainer<T>, f: spec_fn(T) -> Seq<Pat>, c: Ctx) -> Seq<Pat> {
    ((p32(v.entries@.len() as u32) + pseq(v.entries@, v.entries@.len(), f_entry(c))) + p32(v.items@.len() as u32)) + pseq(v.items@, v.items@.len(), f)
}
pub open spec fn ptree<T>(v: TMovieSceneEvaluationTree<T>, f: spec_fn(T) -> Seq<Pat>, c: Ctx) -> Seq<Pat> {
    (pr_MovieSceneEvaluationTreeNode(v.root_node, c) + pcont(v.child_nodes, f_get::<MovieSceneEvaluationTreeNode, IoNode>(c), c)) + pcont(v.data, f, c)
}''')
def io(n,T):
    e(f'''pub struct {n};
impl VxGet<{T}> for {n} {{
    open spec fn form(v: {T}, c: Ctx) -> Seq<Pat> {{ pr_{T}(v, c) }}
    fn get<S: ArchiveReaderX>(&self, reader: &mut S) -> Result<{T}, Error> {{ {T}::new(reader) }}
}}
impl VxPut<{T}> for {n} {{
    open spec fn form(v: {T}, c: Ctx) -> Seq<Pat> {{ pr_{T}(v, c) }}
    fn put<S: ArchiveWriterX>(&self, writer: &mut S, node: &{T}) -> Result<(), Error> {{ node.write(writer)?; Ok(()) }}
}}''')
io('IoNode','MovieSceneEvaluationTreeNode'); io('IoEntity','FEntityAndMetaDataIndex')
for T in ('TEvaluationTreeEntryContainer','TMovieSceneEvaluationTree'): e(f'//@ struct {F} {T}')
FG='f_get::<T, VxG>(rc(old(asset)))'; FP='f_put::<T, VxP>(wc(old(asset)))'
RDC=lambda n,T:f'//@ rw! \\|reader\\|\\s*\\{{?\\s*{T}::new\\(reader\\)\\s*\\}}? ==> {n}'
WRC=lambda n:f'//@ rw! \\|writer, node\\| \\{{\\s*node\\.write\\(writer\\)\\?;\\s*Ok\\(\\(\\)\\)\\s*\\}} ==> {n}'
e(f'''//@ fn {F} TEvaluationTreeEntryContainer<T> read params=asset,item_reader gen="<Reader: ArchiveReaderX, VxG: VxGet<T>>"{LI}
    ensures r is Ok ==> rd(old(asset), final(asset), pcont(r->Ok_0, f_get::<T, VxG>(rc(old(asset))), rc(old(asset)))),
//@ rw fn\\(&mut Reader\\) -> Result<T, Error> ==> VxG
//@ rw! item_reader\\(asset\\) ==> item_reader.get(asset)
'''+'\n'.join(lr(0,'entries_amount','entries','f_entry(rc(old(asset)))','Seq::<Pat>::empty()')+lr(1,'items_amount','items',FG,'vx_p0 + pseq(entries@, entries@.len(), f_entry(rc(old(asset))))'))+f'''
//@ end
//@ fn {F} TEvaluationTreeEntryContainer<T> write params=asset,node_writer gen="<Writer: ArchiveWriterX, VxP: VxPut<T>>"{LI}
    ensures r is Ok ==> wr(old(asset), final(asset), pcont(*self, f_put::<T, VxP>(wc(old(asset))), wc(old(asset)))),
//@ rw fn\\(&mut Writer, &T\\) -> Result<\\(\\), Error> ==> VxP
//@ rw! node_writer\\(asset, item\\) ==> node_writer.put(asset, item)
'''+'\n'.join(lw(0,'self.entries','f_entry(wc(old(asset)))','Seq::<Pat>::empty()')+lw(1,'self.items',FP,'vx_p0 + pseq(self.entries@, self.entries@.len(), f_entry(wc(old(asset))))'))+f'''
//@ end
//@ fn {F} TMovieSceneEvaluationTree<T> read params=asset,data_node_reader gen="<Reader: ArchiveReaderX, VxG: VxGet<T>>"
    ensures r is Ok ==> rd(old(asset), final(asset), ptree(r->Ok_0, f_get::<T, VxG>(rc(old(asset))), rc(old(asset)))),
//@ rw fn\\(&mut Reader\\) -> Result<T, Error> ==> VxG
{RDC('IoNode','MovieSceneEvaluationTreeNode')}
//@ end
//@ fn {F} TMovieSceneEvaluationTree<T> write params=asset,data_node_writer gen="<Writer: ArchiveWriterX, VxP: VxPut<T>>"
    ensures r is Ok ==> wr(old(asset), final(asset), ptree(*self, f_put::<T, VxP>(wc(old(asset))), wc(old(asset)))),
//@ rw fn\\(&mut Writer, &T\\) -> Result<\\(\\), Error> ==> VxP
{WRC('IoNode')}
//@ at body-start
    proof {{ assert(f_put::<MovieSceneEvaluationTreeNode, IoNode>(wc(asset)) =~= f_get::<MovieSceneEvaluationTreeNode, IoNode>(wc(asset))); }}
//@ end''')
def tree(F,T,fld,n,IT):
    rec(F,T,[f'ptree(v.{fld}, f_get::<{IT}, {n}>(c), c)'],rextra=[RDC(n,IT)],wextra=[WRC(n),'//@ at body-start',f'    proof {{ assert(f_put::<{IT}, {n}>(wc(asset)) =~= f_get::<{IT}, {n}>(wc(asset))); }}'])
tree(F,'MovieSceneEvaluationFieldEntityTree','serialized_data','IoEntity','FEntityAndMetaDataIndex')
prop(MV+'movie_scene_evaluation_field_entity_tree_property.rs','MovieSceneEvaluationFieldEntityTreeProperty',['pr_MovieSceneEvaluationFieldEntityTree(v.value, c)'])
F=MV+'movie_scene_sub_sequence_tree_property.rs'
e(f'//@ enumnum {MV}enums.rs ESectionEvaluationFlags')
rec(F,'MovieSceneSubSequenceTreeEntry',['pr_MovieSceneSequenceId(v.sequence_id, c)','p8(ESectionEvaluationFlags_n(v.flags))'])
io('IoSub','MovieSceneSubSequenceTreeEntry')
tree(F,'MovieSceneSubSequenceTree','data','IoSub','MovieSceneSubSequenceTreeEntry')
prop(F,'MovieSceneSubSequenceTreeProperty',['pr_MovieSceneSubSequenceTree(v.value, c)'])
F=MV+'movie_scene_track_field_data_property.rs'
io('IoTrack','MovieSceneTrackIdentifier')
tree(F,'MovieSceneTrackFieldData','field','IoTrack','MovieSceneTrackIdentifier')
prop(F,'MovieSceneTrackFieldDataProperty',['pr_MovieSceneTrackFieldData(v.value, c)'])
# cloth
F=R+'cloth_lod_property.rs'
src(F)
struct(F,'MeshToMeshVertData')
V4='pv_Vector4Property(Seq::empty(), v.{}_bary_coords_and_dist, c)'
e(f'''pub open spec fn f_u16() -> spec_fn(u16) -> Seq<Pat> {{ |v: u16| p16(v) }}
pub open spec fn pr_MeshToMeshVertData(v: MeshToMeshVertData, c: Ctx) -> Seq<Pat> {{
{chain([V4.format(x) for x in ('position','normal','tangent')]+['pseq(v.source_mesh_vert_indices@, 4, f_u16())','p32(v.weight.0.bits)','pskip(c)'],'Seq::<Pat>::empty()')}
}}
//@ fn {F} MeshToMeshVertData new params=asset{LI}
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MeshToMeshVertData(r->Ok_0, rc(old(asset)))) && r->Ok_0.source_mesh_vert_indices@.len() == 4,
//@ rw! FName::from_slice\\("\\w+"\\) ==> vx_any::<FName>()
//@ rw! Ancestry::default\\(\\) ==> vx_any::<Ancestry>()
//@ at pre-loop 0
    let ghost vx_p0 = (pv_Vector4Property(Seq::empty(), position_bary_coords_and_dist, rc(asset)) + pv_Vector4Property(Seq::empty(), normal_bary_coords_and_dist, rc(asset))) + pv_Vector4Property(Seq::empty(), tangent_bary_coords_and_dist, rc(asset));
//@ loop 0 it=it
    invariant source_mesh_vert_indices@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(source_mesh_vert_indices@, source_mesh_vert_indices@.len(), f_u16())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, source_mesh_vert_indices@);
//@ at loop-end 0
    proof {{ assert(rd(&a1, asset, f_u16()(source_mesh_vert_indices@.last()))); pseq_push(vx_p0, r1, source_mesh_vert_indices@.last(), f_u16()); }}
//@ end
//@ fn {F} MeshToMeshVertData write params=asset{LI}
    requires self.source_mesh_vert_indices@.len() >= 4,
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MeshToMeshVertData(*self, wc(old(asset)))) && r->Ok_0 == pr_MeshToMeshVertData(*self, wc(old(asset))).len(),
//@ rw! let mut size = 0; ==> let mut size: usize = 0;
//@ at pre-loop 0
    let ghost s0 = size; let ghost vx_p0 = (pv_Vector4Property(Seq::empty(), self.position_bary_coords_and_dist, wc(asset)) + pv_Vector4Property(Seq::empty(), self.normal_bary_coords_and_dist, wc(asset))) + pv_Vector4Property(Seq::empty(), self.tangent_bary_coords_and_dist, wc(asset));
//@ loop 0 it=it
    invariant wr(old(asset), asset, vx_p0 + pseq(self.source_mesh_vert_indices@, it.index() as nat, f_u16())), size == s0 + 2 * it.index(), s0 <= 96,
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof {{ assert(wr(&a1, asset, f_u16()(self.source_mesh_vert_indices@[it.index() as int]))); pseq_step(vx_p0, self.source_mesh_vert_indices@, it.index() as nat, f_u16()); }}
//@ at post-loop 0
    proof {{ pseq_len(self.source_mesh_vert_indices@, 4, f_u16(), 2); }}
//@ end''')
