//! K01: script bytecode. One generator makes an expression together with its bytes and its size in the virtual machine,
//! from a table of layouts that does not look at the code under test.
use crate::ar::Ar;
use crate::rng::Rng;
use crate::Case;
use ordered_float::OrderedFloat as F;
use std::io::{Read, Seek, SeekFrom};
use unreal_asset_base::engine_version::EngineVersion as V;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::types::vector::{Transform, Vector, Vector4};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_kismet::*;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn k01() -> Vec<Case> {
    vec![("tree", tree), ("each", each), ("garbage", garbage), ("lists", lists)]
}

pub struct G<'a> { pub r: &'a mut Rng, pub b: Vec<u8>, pub n: usize, pub left: usize, pub ar: &'a Ar, ptr_new: bool, lwc: bool, setarr: bool, pub names: Vec<FName> }

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, ar: &'a Ar, names: Vec<FName>) -> Self {
        let left = 1 + r.us(40);
        G { r, b: vec![], n: 0, left, ar, ptr_new: ar.object >= ObjectVersion::VER_UE4_ADDED_PACKAGE_OWNER,
            lwc: ar.object5 >= ObjectVersionUE5::LARGE_WORLD_COORDINATES, setarr: ar.object >= ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE, names }
    }
    fn put(&mut self, b: &[u8]) { self.b.extend_from_slice(b); }
    fn val(&mut self, b: &[u8]) { self.b.extend_from_slice(b); self.n += b.len(); }
    fn u8(&mut self) -> u8 { let v = self.r.u8(); self.val(&[v]); v }
    fn u16(&mut self) -> u16 { let v = self.r.u32() as u16; self.val(&v.to_le_bytes()); v }
    fn u32(&mut self) -> u32 { let v = self.r.i32() as u32; self.val(&v.to_le_bytes()); v }
    fn i32(&mut self) -> i32 { let v = self.r.i32(); self.val(&v.to_le_bytes()); v }
    fn i64(&mut self) -> i64 { let v = self.r.i64(); self.val(&v.to_le_bytes()); v }
    fn u64(&mut self) -> u64 { let v = self.r.i64() as u64; self.val(&v.to_le_bytes()); v }
    fn b(&mut self) -> bool { let v = self.r.bool(); self.val(&[v as u8]); v }
    fn f32(&mut self) -> F<f32> { let v = self.r.f32(); self.val(&v.to_le_bytes()); F(v) }
    fn f64(&mut self) -> F<f64> { let v = self.r.f64(); self.val(&v.to_le_bytes()); F(v) }
    fn fl(&mut self) -> F<f64> { if self.lwc { self.f64() } else { F(self.f32().0 as f64) } }
    fn name(&mut self) -> FName {
        let mut f = self.r.pick(&self.names);
        let k = if self.r.chance(1, 2) { 0 } else { self.r.i32() };
        if let FName::Backed { index, number, .. } = &mut f { *number = k; self.b.extend_from_slice(&index.to_le_bytes()); }
        self.put(&k.to_le_bytes());
        f
    }
    fn nm(&mut self) -> FName { self.n += 12; self.name() }
    fn o(&mut self) -> PackageIndex { let v = self.r.i32(); self.put(&v.to_le_bytes()); self.n += 8; PackageIndex { index: v } }
    fn p(&mut self) -> KismetPropertyPointer {
        self.n += 8;
        if self.ptr_new {
            let k = self.r.cnt(4);
            self.put(&(k as i32).to_le_bytes());
            let path = (0..k).map(|_| self.name()).collect();
            let v = self.r.i32();
            self.put(&v.to_le_bytes());
            KismetPropertyPointer { old: None, new: Some(FieldPath { path, resolved_owner: PackageIndex { index: v } }) }
        } else {
            let v = self.r.i32();
            self.put(&v.to_le_bytes());
            KismetPropertyPointer { old: Some(PackageIndex { index: v }), new: None }
        }
    }
    fn e(&mut self) -> Box<KismetExpression> { Box::new(self.expr()) }
    /// expressions up to the end token, which must not be one of them
    fn items(&mut self, end: u8, k: usize) -> Vec<KismetExpression> {
        let mut v = vec![];
        while v.len() < k {
            let (at, n) = (self.b.len(), self.n);
            let e = self.expr();
            if self.b[at] == end { self.b.truncate(at); self.n = n; } else { v.push(e); }
        }
        self.val(&[end]);
        v
    }
    fn l(&mut self, end: u8) -> Vec<KismetExpression> { let k = self.r.us(4); self.items(end, k) }
    fn cl(&mut self, end: u8) -> Vec<KismetExpression> { let k = self.r.us(4); self.val(&(k as i32).to_le_bytes()); self.items(end, k) }
    fn cm(&mut self, end: u8) -> Vec<KismetExpression> { let k = self.r.us(3); self.val(&(k as i32).to_le_bytes()); self.items(end, 2 * k) }
    fn text(&mut self) -> String { self.r.string(12).chars().filter(|c| *c != '\0').collect() }

    pub fn expr(&mut self) -> KismetExpression {
        if self.left == 0 {
            let k = self.r.pick(&[0x0B, 0x17, 0x25, 0x26, 0x27, 0x28, 0x2A, 0x2D, 0x24, 0x1D]);
            return self.make(k).unwrap();
        }
        self.left -= 1;
        loop {
            let k = self.r.below(0x6E) as u8;
            if let Some(e) = self.make(k) { return e; }
        }
    }

    pub fn make(&mut self, k: u8) -> Option<KismetExpression> {
        macro_rules! table {
            ($($code:literal $name:ident { $($f:ident : $how:ident $(($arg:expr))?),* };)*) => {
                match k {
                    $($code => {
                        self.val(&[$code]);
                        $(let $f = self.$how($($arg)?);)*
                        Some(KismetExpression::$name($name { token: EExprToken::$name, $($f),* }))
                    })*
                    _ => self.odd(k),
                }
            };
        }
        table! {
            0x00 ExLocalVariable { variable: p };
            0x01 ExInstanceVariable { variable: p };
            0x02 ExDefaultVariable { variable: p };
            0x04 ExReturn { return_expression: e };
            0x06 ExJump { code_offset: u32 };
            0x07 ExJumpIfNot { code_offset: u32, boolean_expression: e };
            0x09 ExAssert { line_number: u16, debug_mode: b, assert_expression: e };
            0x0B ExNothing {};
            0x0F ExLet { value: p, variable: e, expression: e };
            0x12 ExClassContext { object_expression: e, offset: u32, r_value_pointer: p, context_expression: e };
            0x13 ExMetaCast { class_ptr: o, target_expression: e };
            0x14 ExLetBool { variable_expression: e, assignment_expression: e };
            0x15 ExEndParmValue {};
            0x16 ExEndFunctionParms {};
            0x17 ExSelf {};
            0x18 ExSkip { code_offset: u32, skip_expression: e };
            0x19 ExContext { object_expression: e, offset: u32, r_value_pointer: p, context_expression: e };
            0x1A ExContextFailSilent { object_expression: e, offset: u32, r_value_pointer: p, context_expression: e };
            0x1B ExVirtualFunction { virtual_function_name: nm, parameters: l(0x16) };
            0x1C ExFinalFunction { stack_node: o, parameters: l(0x16) };
            0x1D ExIntConst { value: i32 };
            0x1E ExFloatConst { value: f32 };
            0x20 ExObjectConst { value: o };
            0x21 ExNameConst { value: nm };
            0x24 ExByteConst { value: u8 };
            0x25 ExIntZero {};
            0x26 ExIntOne {};
            0x27 ExTrue {};
            0x28 ExFalse {};
            0x2A ExNoObject {};
            0x2C ExIntConstByte { value: u8 };
            0x2D ExNoInterface {};
            0x2E ExDynamicCast { class_ptr: o, target_expression: e };
            0x2F ExStructConst { struct_value: o, struct_size: i32, value: l(0x30) };
            0x30 ExEndStructConst {};
            0x32 ExEndArray {};
            0x33 ExPropertyConst { property: p };
            0x35 ExInt64Const { value: i64 };
            0x36 ExUInt64Const { value: u64 };
            0x37 ExDoubleConst { value: f64 };
            0x39 ExSetSet { set_property: e, elements: cl(0x3A) };
            0x3A ExEndSet {};
            0x3B ExSetMap { map_property: e, elements: cm(0x3C) };
            0x3C ExEndMap {};
            0x3D ExSetConst { inner_property: p, elements: cl(0x3E) };
            0x3E ExEndSetConst {};
            0x3F ExMapConst { key_property: p, value_property: p, elements: cm(0x40) };
            0x40 ExEndMapConst {};
            0x42 ExStructMemberContext { struct_member_expression: p, struct_expression: e };
            0x43 ExLetMulticastDelegate { variable_expression: e, assignment_expression: e };
            0x44 ExLetDelegate { variable_expression: e, assignment_expression: e };
            0x45 ExLocalVirtualFunction { virtual_function_name: nm, parameters: l(0x16) };
            0x46 ExLocalFinalFunction { stack_node: o, parameters: l(0x16) };
            0x48 ExLocalOutVariable { variable: p };
            0x4A ExDeprecatedOp4A {};
            0x4B ExInstanceDelegate { function_name: nm };
            0x4C ExPushExecutionFlow { pushing_address: u32 };
            0x4D ExPopExecutionFlow {};
            0x4E ExComputedJump { code_offset_expression: e };
            0x4F ExPopExecutionFlowIfNot { boolean_expression: e };
            0x50 ExBreakpoint {};
            0x51 ExInterfaceContext { interface_value: e };
            0x52 ExObjToInterfaceCast { class_ptr: o, target: e };
            0x53 ExEndOfScript {};
            0x54 ExCrossInterfaceCast { class_ptr: o, target: e };
            0x55 ExInterfaceToObjCast { class_ptr: o, target: e };
            0x5A ExWireTracepoint {};
            0x5B ExSkipOffsetConst { value: u32 };
            0x5C ExAddMulticastDelegate { delegate: e, delegate_to_add: e };
            0x5D ExClearMulticastDelegate { delegate_to_clear: e };
            0x5E ExTracepoint {};
            0x5F ExLetObj { variable_expression: e, assignment_expression: e };
            0x60 ExLetWeakObjPtr { variable_expression: e, assignment_expression: e };
            0x61 ExBindDelegate { function_name: nm, delegate: e, object_term: e };
            0x62 ExRemoveMulticastDelegate { delegate: e, delegate_to_add: e };
            0x63 ExCallMulticastDelegate { stack_node: o, delegate: e, parameters: l(0x16) };
            0x64 ExLetValueOnPersistentFrame { destination_property: p, assignment_expression: e };
            0x65 ExArrayConst { inner_property: p, elements: cl(0x66) };
            0x66 ExEndArrayConst {};
            0x67 ExSoftObjectConst { value: e };
            0x68 ExCallMath { stack_node: o, parameters: l(0x16) };
            0x6B ExArrayGetByRef { array_variable: e, array_index: e };
            0x6C ExClassSparseDataVariable { variable: p };
            0x6D ExFieldPathConst { value: e };
        }
    }

    /// the layouts that are not a plain row of operands
    fn odd(&mut self, k: u8) -> Option<KismetExpression> {
        if !matches!(k, 0x1F | 0x22 | 0x23 | 0x29 | 0x2B | 0x31 | 0x34 | 0x38 | 0x69 | 0x6A) { return None; }
        self.val(&[k]);
        Some(match k {
            0x1F => {
                let s = self.text();
                self.val(s.as_bytes());
                self.val(&[0]);
                ExStringConst { token: EExprToken::ExStringConst, value: s }.into()
            }
            0x34 => {
                let s = self.text();
                for u in s.encode_utf16() { self.val(&u.to_le_bytes()); }
                self.val(&[0, 0]);
                ExUnicodeStringConst { token: EExprToken::ExUnicodeStringConst, value: s }.into()
            }
            0x22 => { let (x, y, z) = (self.fl(), self.fl(), self.fl()); ExRotationConst { token: EExprToken::ExRotationConst, rotator: Vector { x, y, z } }.into() }
            0x23 => { let (x, y, z) = (self.fl(), self.fl(), self.fl()); ExVectorConst { token: EExprToken::ExVectorConst, value: Vector { x, y, z } }.into() }
            0x2B => {
                let (x, y, z, w) = (self.fl(), self.fl(), self.fl(), self.fl());
                let rotation = Vector4 { x, y, z, w };
                let (x, y, z) = (self.fl(), self.fl(), self.fl());
                let translation = Vector { x, y, z };
                let (x, y, z) = (self.fl(), self.fl(), self.fl());
                ExTransformConst { token: EExprToken::ExTransformConst, value: Transform { rotation, translation, scale: Vector { x, y, z } } }.into()
            }
            0x29 => {
                let t = self.r.below(5) as u8;
                self.val(&[t]);
                let mut x = FScriptText { text_literal_type: EBlueprintTextLiteralType::Empty, localized_source: None, localized_key: None, localized_namespace: None,
                    invariant_literal_string: None, literal_string: None, string_table_asset: None, string_table_id: None, string_table_key: None };
                match t {
                    0 => {}
                    1 => {
                        x.text_literal_type = EBlueprintTextLiteralType::LocalizedText;
                        x.localized_source = Some(self.expr());
                        x.localized_key = Some(self.expr());
                        x.localized_namespace = Some(self.expr());
                    }
                    2 => { x.text_literal_type = EBlueprintTextLiteralType::InvariantText; x.invariant_literal_string = Some(self.expr()); }
                    3 => { x.text_literal_type = EBlueprintTextLiteralType::LiteralString; x.literal_string = Some(self.expr()); }
                    _ => {
                        x.text_literal_type = EBlueprintTextLiteralType::StringTableEntry;
                        x.string_table_asset = Some(self.o());
                        x.string_table_id = Some(self.expr());
                        x.string_table_key = Some(self.expr());
                    }
                }
                ExTextConst { token: EExprToken::ExTextConst, value: Box::new(x) }.into()
            }
            0x31 => {
                let (a, i) = if self.setarr { (Some(self.e()), None) } else { (None, Some(self.o())) };
                let elements = self.l(0x32);
                ExSetArray { token: EExprToken::ExSetArray, assigning_property: a, array_inner_prop: i, elements }.into()
            }
            0x38 => {
                use NewCastToken as N;
                use OldCastToken as O;
                let conversion_type = if self.lwc {
                    let all = [(0u8, N::ObjectToInterface), (1, N::ObjectToBool), (2, N::InterfaceToBool), (3, N::DoubleToFloat), (4, N::DoubleToFloatArray), (5, N::DoubleToFloatSet),
                        (6, N::FloatToDouble), (7, N::FloatToDoubleArray), (8, N::FloatToDoubleSet), (9, N::VectorToVector3f), (10, N::Vector3fToVector), (11, N::FloatToDoubleKeysMap),
                        (12, N::DoubleToFloatKeysMap), (13, N::FloatToDoubleValuesMap), (14, N::DoubleToFloatValuesMap), (15, N::FloatToDoubleKeysFloatToDoubleValuesMap),
                        (16, N::DoubleToFloatKeysFloatToDoubleValuesMap), (17, N::DoubleToFloatKeysDoubleToFloatValuesMap), (18, N::FloatToDoubleKeysDoubleToFloatValuesMap), (255, N::Max)];
                    let (b, t) = self.r.pick(&all);
                    self.val(&[b]);
                    CastToken::New(t)
                } else {
                    let (b, t) = self.r.pick(&[(0x46u8, O::ObjectToInterface), (0x47, O::ObjectToBool), (0x49, O::InterfaceToBool), (0xFF, O::Max)]);
                    self.val(&[b]);
                    CastToken::Old(t)
                };
                let target = self.e();
                ExPrimitiveCast { token: EExprToken::ExPrimitiveCast, conversion_type, target }.into()
            }
            0x69 => {
                let k = if self.left < 2 { self.r.cnt(4) * (1 + self.r.us(3)) } else { self.r.us(4) };
                self.val(&(k as u16).to_le_bytes());
                let end_goto_offset = self.u32();
                let index_term = self.e();
                let cases = (0..k).map(|_| { let a = self.expr(); let b = self.u32(); let c = self.expr(); KismetSwitchCase::new(a, b, c) }).collect();
                let default_term = self.e();
                ExSwitchValue { token: EExprToken::ExSwitchValue, end_goto_offset, index_term, default_term, cases }.into()
            }
            _ => {
                use EScriptInstrumentationType as T;
                let all = [T::Class, T::ClassScope, T::Instance, T::Event, T::InlineEvent, T::ResumeEvent, T::PureNodeEntry, T::NodeDebugSite, T::NodeEntry, T::NodeExit,
                    T::PushState, T::RestoreState, T::ResetState, T::SuspendState, T::PopState, T::TunnelEndOfThread, T::Stop];
                let t = if self.r.chance(1, 3) { 4 } else { self.r.us(all.len()) };
                self.val(&[t as u8]);
                let event_name = if t == 4 { Some(self.nm()) } else { None };
                ExInstrumentationEvent { token: EExprToken::ExInstrumentationEvent, event_type: all[t], event_name }.into()
            }
        })
    }
}

pub fn archive(r: &mut Rng) -> (Ar, Vec<FName>) {
    let e = r.pick(&[V::VER_UE4_0, V::VER_UE4_4, V::VER_UE4_14, V::VER_UE4_18, V::VER_UE4_23, V::VER_UE4_24, V::VER_UE4_25, V::VER_UE4_26, V::VER_UE4_27, V::VER_UE5_0, V::VER_UE5_1]);
    let ar = Ar::new(e);
    let names = (0..1 + r.us(5)).map(|i| ar.names.clone().get_mut().add_fname(&format!("Name{i}"))).collect();
    (ar, names)
}

/// the first difference between two texts, for the report
fn diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| { let f = s.char_indices().map(|c| c.0).filter(|p| *p <= i.saturating_sub(60)).last().unwrap_or(0); s[f..].chars().take(160).collect::<String>() };
    format!("...{} instead of ...{}", cut(a), cut(b))
}

fn check(ar: &Ar, e: &KismetExpression, bytes: &[u8], size: usize) -> Result<(), String> {
    let mut w = ar.like(vec![]);
    let n = KismetExpression::write(e, &mut w).map_err(|x| format!("writing {e:?}: {x:?}"))?;
    need!(&w.c.get_ref()[..] == bytes, "{e:?} is written as {:?}, should be {bytes:?}", w.c.get_ref());
    need!(n == size, "{e:?} reports size {n}, should be {size}");
    let mut rd = ar.like([bytes, &[0x77, 0x77, 0x77]].concat());
    let back = KismetExpression::new(&mut rd).map_err(|x| format!("reading {e:?}: {x:?}"))?;
    need!(rd.at() as usize == bytes.len(), "reading {e:?} took {} of {} bytes", rd.at(), bytes.len());
    need!(&back == e, "read back changed: {}", diff(&format!("{back:?}"), &format!("{e:?}")));
    let mut w2 = ar.like(vec![]);
    let n2 = KismetExpression::write(&back, &mut w2).map_err(|x| format!("writing again: {x:?}"))?;
    need!(&w2.c.get_ref()[..] == bytes && n2 == size, "{e:?} written again differs");
    Ok(())
}

fn tree(r: &mut Rng) -> Result<(), String> {
    let (ar, names) = archive(r);
    let mut g = G::new(r, &ar, names);
    let e = g.expr();
    let (b, n) = (std::mem::take(&mut g.b), g.n);
    check(&ar, &e, &b, n)
}
fn each(r: &mut Rng) -> Result<(), String> {
    let (ar, names) = archive(r);
    for k in 0..0x6E {
        let mut g = G::new(r, &ar, names.clone());
        g.left = g.r.us(4);
        if let Some(e) = g.make(k) {
            let (b, n) = (std::mem::take(&mut g.b), g.n);
            check(&ar, &e, &b, n)?;
        }
    }
    Ok(())
}
/// lists with their terminators, read in the middle of a stream
fn lists(r: &mut Rng) -> Result<(), String> {
    let (ar, names) = archive(r);
    let (end, code) = r.pick(&[(EExprToken::ExEndFunctionParms, 0x16u8), (EExprToken::ExEndStructConst, 0x30), (EExprToken::ExEndArray, 0x32), (EExprToken::ExEndSet, 0x3A),
        (EExprToken::ExEndMap, 0x3C), (EExprToken::ExEndSetConst, 0x3E), (EExprToken::ExEndMapConst, 0x40), (EExprToken::ExEndArrayConst, 0x66), (EExprToken::ExEndOfScript, 0x53)]);
    let k = r.cnt(9);
    let skip = r.us(4);
    let mut g = G::new(r, &ar, names);
    g.b = vec![0xEE; skip];
    let v = g.items(code, k);
    let b = std::mem::take(&mut g.b);
    let mut rd = ar.like([&b[..], &[code, 0]].concat());
    rd.seek(SeekFrom::Start(skip as u64)).map_err(|e| e.to_string())?;
    let back = KismetExpression::read_arr(&mut rd, end).map_err(|x| format!("list: {x:?}"))?;
    need!(back == v, "list read back changed: {back:?} instead of {v:?}");
    need!(rd.at() as usize == b.len(), "list of {} bytes took {}", b.len() - skip, rd.at() as usize - skip);
    Ok(())
}
/// broken bytes: an error or an expression, and what was read before the break is not read twice
fn garbage(r: &mut Rng) -> Result<(), String> {
    let (ar, names) = archive(r);
    let mut g = G::new(r, &ar, names);
    let _ = g.expr();
    let mut b = std::mem::take(&mut g.b);
    let cut = r.us(b.len() + 1);
    b.truncate(cut);
    // a count in a property path is not damaged here: see the known limits of the design
    let mut rd = ar.like(b.clone());
    if let Ok(e) = KismetExpression::new(&mut rd) {
        let used = rd.at() as usize;
        need!(used <= b.len(), "read past the end");
        let mut w = ar.like(vec![]);
        let _ = KismetExpression::write(&e, &mut w);
        need!(w.c.get_ref().first() == b.first(), "token changed");
    }
    let mut rest = vec![];
    rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
    Ok(())
}
