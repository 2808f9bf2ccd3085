# world tile
F=R+'world_tile_property.rs'
cvf='cvn::<FFortniteMainBranchObjectVersion>(c.cv) < FFortniteMainBranchObjectVersion_WorldCompositionTile3DOffset'
e('pub open spec fn f_lod(c: Ctx) -> spec_fn(FWorldTileLODInfo) -> Seq<Pat> { |v: FWorldTileLODInfo| pr_FWorldTileLODInfo(v, c) }')
struct(F,'FWorldTileInfo')
e('pub open spec fn plods(v: Seq<FWorldTileLODInfo>, c: Ctx) -> Seq<Pat> { p32(v.len() as u32) + pseq(v, v.len(), f_lod(c)) }')
LODV='VER_UE4_WORLD_LEVEL_INFO_LOD_LIST'; ZV='VER_UE4_WORLD_LEVEL_INFO_ZORDER'
e(f'''pub open spec fn pr_FWorldTileInfo(v: FWorldTileInfo, wl: i32, wh: i32, c: Ctx) -> Seq<Pat> {{
{chain(['p32(v.position.x as u32)','p32(v.position.y as u32)',('if','!('+cvf+')',['p32(v.position.z as u32)']),'pv_BoxProperty(Seq::empty(), v.bounds, c)','pr_FWorldTileLayer(v.layer, wl, c)',
 ('if',OV.format('>=',WL),['p32(wh as u32)','pstr(sv(v.parent_tile_package_name))']),
 ('if',OV.format('>=',LODV),['plods((v.lod_list->0)@, c)']),
 ('if',OV.format('>=',ZV),['p32(v.z_order->0 as u32)'])],'Seq::<Pat>::empty()')}
}}
pub open spec fn ok_FWorldTileInfo(v: FWorldTileInfo, wl: i32, wh: i32, c: Ctx) -> bool {{
    ok_FWorldTileLayer(v.layer, wl, c) && ({cvf} ==> v.position.z == 0)
    && (v.hide_in_tile_view is Some) == ({OV.format('>=',WL)}) && (v.hide_in_tile_view is Some ==> v.hide_in_tile_view->0 == (wh == 1))
    && (v.lod_list is Some) == ({OV.format('>=',LODV)}) && (v.z_order is Some) == ({OV.format('>=',ZV)})
}}
pub open spec fn rd_FWorldTileInfo<S: Archive + ?Sized>(a: &S, b: &S, v: FWorldTileInfo) -> bool {{ exists|wl: i32, wh: i32| #[trigger] ok_FWorldTileInfo(v, wl, wh, rc(a)) && rd(a, b, pr_FWorldTileInfo(v, wl, wh, rc(a))) }}
//@ fn {F} FWorldTileInfo new params=asset{LI}
    ensures r is Ok ==> rd_FWorldTileInfo(old(asset), final(asset), r->Ok_0),
{ANC}
{DEF}
//@ rw! let layer = FWorldTileLayer::new\\(asset\\)\\?; ==> let ghost vx_b = *asset; let layer = FWorldTileLayer::new(asset)?; let ghost vx_l: i32 = choose|w: i32| ok_FWorldTileLayer(layer, w, rc(&vx_b)) && rd(&vx_b, asset, pr_FWorldTileLayer(layer, w, rc(&vx_b)));
'''+'\n'.join(FL)+f'''
//@ rw! let num_entries = asset\\.read_i32::<LE>\\(\\)\\? as usize; ==> let ghost vx_s0 = *asset; let vx_n = asset.read_i32::<LE>()?; let num_entries = vx_n as usize;
//@ at pre-loop 0
    proof {{ cap(vx_n); }} let ghost vx_p0 = p32(vx_n as u32);
//@ loop 0 it=it
    invariant list@.len() == it.index(), rd(&vx_s0, asset, vx_p0 + pseq(list@, list@.len(), f_lod(rc(old(asset))))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, list@);
//@ at loop-end 0
    proof {{ assert(rd(&a1, asset, f_lod(rc(old(asset)))(list@.last()))); pseq_push(vx_p0, r1, list@.last(), f_lod(rc(old(asset)))); }}
//@ at post-loop 0
    proof {{ assert(rd(&vx_s0, asset, plods(list@, rc(old(asset))))); }}
//@ rw! Ok\\((FWorldTileInfo \\{{[^}}]*\\}})\\) ==> let vx_r = \\1; proof {{ assert(ok_FWorldTileInfo(vx_r, vx_l, vx_w, rc(old(asset)))); assert(rd(old(asset), asset, pr_FWorldTileInfo(vx_r, vx_l, vx_w, rc(old(asset))))); assert(rd_FWorldTileInfo(old(asset), asset, vx_r)); }} Ok(vx_r)
//@ end
//@ fn {F} FWorldTileInfo write params=asset{LI}
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FWorldTileInfo(*self, flag(self.layer.distance_streaming_enabled->0), flag(self.hide_in_tile_view->0), wc(old(asset)))),
//@ rw! asset\\.write_i32::<LE>\\(lod_list\\.len\\(\\) as i32\\)\\?; ==> let ghost vx_s0 = *asset; asset.write_i32::<LE>(lod_list.len() as i32)?;
//@ at pre-loop 0
    let ghost vx_p0 = p32(lod_list@.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(lod_list@), wr(&vx_s0, asset, vx_p0 + pseq(lod_list@, it.index() as nat, f_lod(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof {{ assert(wr(&a1, asset, f_lod(wc(old(asset)))(lod_list@[it.index() as int]))); pseq_step(vx_p0, lod_list@, it.index() as nat, f_lod(wc(old(asset)))); }}
//@ at post-loop 0
    proof {{ assert(wr(&vx_s0, asset, plods(lod_list@, wc(old(asset))))); }}
//@ end''')
