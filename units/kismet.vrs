#![allow(warnings)]
use vstd::prelude::*;
verus! {
// generated by tools/gen_kismet.py
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};

//@ macros unreal_asset/unreal_asset_kismet/src/lib.rs declare_expression implement_expression implement_value_expression

//@ rewrite <\s*impl PackageIndexTrait\s*> ==>
//@ rewrite let (\w+): (\w+) = asset\.read_u8\(\)\?\.try_into\(\)\? ==> let \1: \2 = \2::try_from(asset.read_u8()?)?
//@ rewrite CastToken::(New|Old)\(asset\.read_u8\(\)\?\.try_into\(\)\?\) ==> CastToken::\1(\1CastToken::try_from(asset.read_u8()?)?)
//@ rewrite Ok\((\w+)::new\(asset\)\?\.into\(\)\) ==> Ok(KismetExpression::\1(\1::new(asset)?))
//@ rewrite &(\w+)::default\(\)\.into\(\) ==> &KismetExpression::\1(\1::default())
//@ rewrite (text_literal_type|get_token\(\)|\btoken)\.into\(\) ==> \1.to_u8()
//@ rewrite self\.event_type as u8 ==> self.event_type.to_u8()
//@ rewrite Err\(KismetError::expression\(format!\(.*?\)\)\s*\.into\(\)\) ==> Err(Error::Any)
//@ rewrite \.ok_or_else\(\s*\|\|\s*\{\s*Error::no_data\(\s*".*?"\s*\.to_string\(\),?\s*\)\s*\}\s*,?\s*\) ==> .ok_or(Error::Any)
//@ rewrite self\.(\w+)\.map\(\|(\w+)\| \2\.index\) ==> vx_index(self.\1)
//@ rewrite KismetExpression::write\(\s*([\w.]+)\.as_ref\(\)\s*,\s*asset\s*\) ==> KismetExpression::write(&*\1, asset)
//@ rewrite expr\.write\(asset\) ==> expr.write_d(asset)
//@ rewrite size_of::<(u8|i8|bool)>\(\) ==> 1usize
//@ rewrite size_of::<(u16|i16)>\(\) ==> 2usize
//@ rewrite size_of::<(u32|i32|f32)>\(\) ==> 4usize
//@ rewrite size_of::<(u64|i64|f64|usize)>\(\) ==> 8usize
//@ rewrite OrderedFloat<f64> ==> OrderedFloat<F64>
//@ rewrite OrderedFloat<f32> ==> OrderedFloat<F32>
//@ rewrite (asset\.read_f32::<\w+>\(\)\?|\b\w+) as f64 ==> widen(\1)
//@ rewrite ((?:\w+\.)+0) as f32 ==> narrow(\1)
//@ rewrite String::from_utf8\((\w+)\)\? ==> vx_from_utf8(\1)?
//@ rewrite String::from_utf16\(&(\w+)\)\? ==> vx_from_utf16(&\1)?
//@ rewrite (\w+)\.as_bytes\(\) ==> vx_as_bytes(\1)
//@ rewrite (\w+)\.encode_utf16\(\)\.collect::<Vec<_>>\(\) ==> vx_utf16(\1)
//@ rewrite let \(_, (\w+), _\) = unsafe \{ (\w+)\.align_to::<u8>\(\) \}; ==> let \1 = vx_u16_bytes(&\2);
//@ rewrite &\[0u8; (\d)\] ==> vstd::array::array_as_slice(&[0u8; \1])
//@ rewrite token: &EExprToken ==> token: &EExprToken
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body]
pub fn vx_utf16(s: &str) -> (r: Vec<u16>) ensures r@ == utf16(s@) { s.encode_utf16().collect() }
#[verifier::external_body]
pub fn vx_u16_bytes(v: &Vec<u16>) -> (r: &[u8]) ensures r@ == le16s(v@) { unsafe { v.align_to::<u8>() }.1 }
#[verifier::external_body]
pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, Error>) ensures r is Ok ==> utf8(r->Ok_0@) == b@ { String::from_utf8(b).map_err(|_| Error::Any) }
#[verifier::external_body]
pub fn vx_from_utf16(b: &Vec<u16>) -> (r: Result<String, Error>) ensures r is Ok ==> utf16(r->Ok_0@) == b@ { String::from_utf16(b).map_err(|_| Error::Any) }
pub fn vx_index(o: Option<PackageIndex>) -> (r: Option<i32>) ensures o is Some ==> r == Some(o->0.index), o is None ==> r is None { match o { Some(p) => Some(p.index), None => None } }
pub struct OrderedFloat<T>(pub T);

//@ struct unreal_asset/unreal_asset_base/src/types/mod.rs PackageIndex derive=Copy,Clone,PartialEq,Eq
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs PackageIndex new params=index
    ensures r.index == index,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Vector
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Vector new params=x,y,z
    ensures r.x == x, r.y == y, r.z == z,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Vector4
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Vector4 new params=x,y,z,w
    ensures r.x == x, r.y == y, r.z == z, r.w == w,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Transform
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Transform new params=rotation,translation,scale
    ensures r.rotation == rotation, r.translation == translation, r.scale == scale,
//@ end
//@ enumnum unreal_asset/unreal_asset_kismet/src/lib.rs EExprToken
//@ enumnum unreal_asset/unreal_asset_kismet/src/lib.rs OldCastToken
//@ enumnum unreal_asset/unreal_asset_kismet/src/lib.rs NewCastToken
//@ enumnum unreal_asset/unreal_asset_kismet/src/lib.rs EScriptInstrumentationType
//@ enumnum unreal_asset/unreal_asset_kismet/src/lib.rs EBlueprintTextLiteralType
#[derive(Copy, Clone)]
pub enum CastToken { Old(OldCastToken), New(NewCastToken) }
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs FieldPath
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs KismetPropertyPointer
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs FScriptText
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs KismetSwitchCase
//@ const unreal_asset/unreal_asset_kismet/src/lib.rs KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalVariable
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExInstanceVariable
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExDefaultVariable
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExReturn
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExJump
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExJumpIfNot
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExAssert
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExNothing
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLet
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExClassContext
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExMetaCast
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLetBool
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndParmValue
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndFunctionParms
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSelf
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSkip
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExContext
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExContextFailSilent
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExVirtualFunction
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExFinalFunction
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExIntConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExFloatConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExStringConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExObjectConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExNameConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExRotationConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExVectorConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExByteConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExIntZero
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExIntOne
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExTrue
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExFalse
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExTextConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExNoObject
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExTransformConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExIntConstByte
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExNoInterface
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExDynamicCast
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExStructConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndStructConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSetArray
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndArray
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExPropertyConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExUnicodeStringConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExInt64Const
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExUInt64Const
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExDoubleConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExPrimitiveCast
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSetSet
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndSet
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSetMap
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndMap
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSetConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndSetConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExMapConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndMapConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExStructMemberContext
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLetMulticastDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLetDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalVirtualFunction
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalFinalFunction
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalOutVariable
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExDeprecatedOp4A
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExInstanceDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExPushExecutionFlow
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExPopExecutionFlow
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExComputedJump
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExPopExecutionFlowIfNot
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExBreakpoint
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExInterfaceContext
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExObjToInterfaceCast
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndOfScript
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExCrossInterfaceCast
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExInterfaceToObjCast
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExWireTracepoint
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSkipOffsetConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExAddMulticastDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExClearMulticastDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExTracepoint
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLetObj
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLetWeakObjPtr
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExBindDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExRemoveMulticastDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExCallMulticastDelegate
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExLetValueOnPersistentFrame
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExArrayConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExEndArrayConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSoftObjectConst
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExCallMath
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExSwitchValue
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExInstrumentationEvent
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExArrayGetByRef
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExClassSparseDataVariable
//@ struct unreal_asset/unreal_asset_kismet/src/lib.rs ExFieldPathConst
pub enum KismetExpression { ExLocalVariable(ExLocalVariable), ExInstanceVariable(ExInstanceVariable), ExDefaultVariable(ExDefaultVariable), ExReturn(ExReturn), ExJump(ExJump), ExJumpIfNot(ExJumpIfNot), ExAssert(ExAssert), ExNothing(ExNothing), ExLet(ExLet), ExClassContext(ExClassContext), ExMetaCast(ExMetaCast), ExLetBool(ExLetBool), ExEndParmValue(ExEndParmValue), ExEndFunctionParms(ExEndFunctionParms), ExSelf(ExSelf), ExSkip(ExSkip), ExContext(ExContext), ExContextFailSilent(ExContextFailSilent), ExVirtualFunction(ExVirtualFunction), ExFinalFunction(ExFinalFunction), ExIntConst(ExIntConst), ExFloatConst(ExFloatConst), ExStringConst(ExStringConst), ExObjectConst(ExObjectConst), ExNameConst(ExNameConst), ExRotationConst(ExRotationConst), ExVectorConst(ExVectorConst), ExByteConst(ExByteConst), ExIntZero(ExIntZero), ExIntOne(ExIntOne), ExTrue(ExTrue), ExFalse(ExFalse), ExTextConst(ExTextConst), ExNoObject(ExNoObject), ExTransformConst(ExTransformConst), ExIntConstByte(ExIntConstByte), ExNoInterface(ExNoInterface), ExDynamicCast(ExDynamicCast), ExStructConst(ExStructConst), ExEndStructConst(ExEndStructConst), ExSetArray(ExSetArray), ExEndArray(ExEndArray), ExPropertyConst(ExPropertyConst), ExUnicodeStringConst(ExUnicodeStringConst), ExInt64Const(ExInt64Const), ExUInt64Const(ExUInt64Const), ExDoubleConst(ExDoubleConst), ExPrimitiveCast(ExPrimitiveCast), ExSetSet(ExSetSet), ExEndSet(ExEndSet), ExSetMap(ExSetMap), ExEndMap(ExEndMap), ExSetConst(ExSetConst), ExEndSetConst(ExEndSetConst), ExMapConst(ExMapConst), ExEndMapConst(ExEndMapConst), ExStructMemberContext(ExStructMemberContext), ExLetMulticastDelegate(ExLetMulticastDelegate), ExLetDelegate(ExLetDelegate), ExLocalVirtualFunction(ExLocalVirtualFunction), ExLocalFinalFunction(ExLocalFinalFunction), ExLocalOutVariable(ExLocalOutVariable), ExDeprecatedOp4A(ExDeprecatedOp4A), ExInstanceDelegate(ExInstanceDelegate), ExPushExecutionFlow(ExPushExecutionFlow), ExPopExecutionFlow(ExPopExecutionFlow), ExComputedJump(ExComputedJump), ExPopExecutionFlowIfNot(ExPopExecutionFlowIfNot), ExBreakpoint(ExBreakpoint), ExInterfaceContext(ExInterfaceContext), ExObjToInterfaceCast(ExObjToInterfaceCast), ExEndOfScript(ExEndOfScript), ExCrossInterfaceCast(ExCrossInterfaceCast), ExInterfaceToObjCast(ExInterfaceToObjCast), ExWireTracepoint(ExWireTracepoint), ExSkipOffsetConst(ExSkipOffsetConst), ExAddMulticastDelegate(ExAddMulticastDelegate), ExClearMulticastDelegate(ExClearMulticastDelegate), ExTracepoint(ExTracepoint), ExLetObj(ExLetObj), ExLetWeakObjPtr(ExLetWeakObjPtr), ExBindDelegate(ExBindDelegate), ExRemoveMulticastDelegate(ExRemoveMulticastDelegate), ExCallMulticastDelegate(ExCallMulticastDelegate), ExLetValueOnPersistentFrame(ExLetValueOnPersistentFrame), ExArrayConst(ExArrayConst), ExEndArrayConst(ExEndArrayConst), ExSoftObjectConst(ExSoftObjectConst), ExCallMath(ExCallMath), ExSwitchValue(ExSwitchValue), ExInstrumentationEvent(ExInstrumentationEvent), ExArrayGetByRef(ExArrayGetByRef), ExClassSparseDataVariable(ExClassSparseDataVariable), ExFieldPathConst(ExFieldPathConst) }
//@ variants unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression ExLocalVariable ExInstanceVariable ExDefaultVariable ExReturn ExJump ExJumpIfNot ExAssert ExNothing ExLet ExClassContext ExMetaCast ExLetBool ExEndParmValue ExEndFunctionParms ExSelf ExSkip ExContext ExContextFailSilent ExVirtualFunction ExFinalFunction ExIntConst ExFloatConst ExStringConst ExObjectConst ExNameConst ExRotationConst ExVectorConst ExByteConst ExIntZero ExIntOne ExTrue ExFalse ExTextConst ExNoObject ExTransformConst ExIntConstByte ExNoInterface ExDynamicCast ExStructConst ExEndStructConst ExSetArray ExEndArray ExPropertyConst ExUnicodeStringConst ExInt64Const ExUInt64Const ExDoubleConst ExPrimitiveCast ExSetSet ExEndSet ExSetMap ExEndMap ExSetConst ExEndSetConst ExMapConst ExEndMapConst ExStructMemberContext ExLetMulticastDelegate ExLetDelegate ExLocalVirtualFunction ExLocalFinalFunction ExLocalOutVariable ExDeprecatedOp4A ExInstanceDelegate ExPushExecutionFlow ExPopExecutionFlow ExComputedJump ExPopExecutionFlowIfNot ExBreakpoint ExInterfaceContext ExObjToInterfaceCast ExEndOfScript ExCrossInterfaceCast ExInterfaceToObjCast ExWireTracepoint ExSkipOffsetConst ExAddMulticastDelegate ExClearMulticastDelegate ExTracepoint ExLetObj ExLetWeakObjPtr ExBindDelegate ExRemoveMulticastDelegate ExCallMulticastDelegate ExLetValueOnPersistentFrame ExArrayConst ExEndArrayConst ExSoftObjectConst ExCallMath ExSwitchValue ExInstrumentationEvent ExArrayGetByRef ExClassSparseDataVariable ExFieldPathConst

// ---------------------------------------------------------------- the stored form
pub open spec fn newpp(c: Ctx) -> bool { on(c.ov) >= on(ObjectVersion::VER_UE4_ADDED_PACKAGE_OWNER) }
pub open spec fn newset(c: Ctx) -> bool { on(c.ov) >= on(ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE) }
pub open spec fn lwc(c: Ctx) -> bool { o5n(c.o5) >= o5n(ObjectVersionUE5::LARGE_WORLD_COORDINATES) }
pub open spec fn fsz(c: Ctx) -> nat { if lwc(c) { 8 } else { 4 } }
pub open spec fn pf(v: F64, c: Ctx) -> Seq<Pat> { if lwc(c) { p64(v.bits) } else if !c.exact && nan(v) { anyb(4) } else { p32(narrow_(v).bits) } }
pub open spec fn enc_names(v: Vec<FName>, n: nat) -> Seq<Pat> decreases n { if n == 0 { Seq::empty() } else { enc_names(v, (n - 1) as nat) + pname(v[n - 1]) } }
pub open spec fn opi(o: Option<PackageIndex>) -> Seq<Pat> { match o { Some(p) => p32(p.index as u32), None => Seq::empty() } }
pub open spec fn enc_pp(x: KismetPropertyPointer, c: Ctx) -> Seq<Pat> {
    if newpp(c) { match x.new { Some(f) => (p32(f.path.len() as i32 as u32) + enc_names(f.path, f.path.len() as nat)) + p32(f.resolved_owner.index as u32), None => Seq::empty() } } else { opi(x.old) }
}
pub open spec fn oenc(o: Option<KismetExpression>, c: Ctx) -> Seq<Pat> decreases o, 0int { match o { Some(e) => enc(e, c), None => Seq::empty() } }
pub open spec fn oesz(o: Option<KismetExpression>, c: Ctx) -> nat decreases o, 0int { match o { Some(e) => esz(e, c), None => 0 } }
pub open spec fn oencb(o: Option<Box<KismetExpression>>, c: Ctx) -> Seq<Pat> decreases o, 0int { match o { Some(e) => enc(*e, c), None => Seq::empty() } }
pub open spec fn oeszb(o: Option<Box<KismetExpression>>, c: Ctx) -> nat decreases o, 0int { match o { Some(e) => esz(*e, c), None => 0 } }
pub open spec fn oname(o: Option<FName>) -> Seq<Pat> { match o { Some(n) => pname(n), None => Seq::empty() } }
pub open spec fn enc_st(x: FScriptText, c: Ctx) -> Seq<Pat> decreases x, 0int {
    let t = p8(EBlueprintTextLiteralType_n(x.text_literal_type));
    match x.text_literal_type {
        EBlueprintTextLiteralType::Empty => t,
        EBlueprintTextLiteralType::LocalizedText => ((t + oenc(x.localized_source, c)) + oenc(x.localized_key, c)) + oenc(x.localized_namespace, c),
        EBlueprintTextLiteralType::InvariantText => t + oenc(x.invariant_literal_string, c),
        EBlueprintTextLiteralType::LiteralString => t + oenc(x.literal_string, c),
        EBlueprintTextLiteralType::StringTableEntry => ((t + opi(x.string_table_asset)) + oenc(x.string_table_id, c)) + oenc(x.string_table_key, c),
    }
}
pub open spec fn sz_st(x: FScriptText, c: Ctx) -> nat decreases x, 0int {
    match x.text_literal_type {
        EBlueprintTextLiteralType::Empty => 1,
        EBlueprintTextLiteralType::LocalizedText => 1 + oesz(x.localized_source, c) + oesz(x.localized_key, c) + oesz(x.localized_namespace, c),
        EBlueprintTextLiteralType::InvariantText => 1 + oesz(x.invariant_literal_string, c),
        EBlueprintTextLiteralType::LiteralString => 1 + oesz(x.literal_string, c),
        EBlueprintTextLiteralType::StringTableEntry => 9 + oesz(x.string_table_id, c) + oesz(x.string_table_key, c),
    }
}
pub open spec fn encv(v: Vec<KismetExpression>, n: nat, c: Ctx) -> Seq<Pat> decreases v, n when n <= v.len() via encv_d { if n == 0 { Seq::empty() } else { encv(v, (n - 1) as nat, c) + enc(v[n - 1], c) } }
#[via_fn]
proof fn encv_d(v: Vec<KismetExpression>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn szv(v: Vec<KismetExpression>, n: nat, c: Ctx) -> nat decreases v, n when n <= v.len() via szv_d { if n == 0 { 0 } else { szv(v, (n - 1) as nat, c) + esz(v[n - 1], c) } }
#[via_fn]
proof fn szv_d(v: Vec<KismetExpression>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn enc_cases(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) -> Seq<Pat> decreases v, n when n <= v.len() via enc_cases_d {
    if n == 0 { Seq::empty() } else { ((enc_cases(v, (n - 1) as nat, c) + enc(v[n - 1].case_index_value_term, c)) + p32(v[n - 1].next_offset)) + enc(v[n - 1].case_term, c) }
}
#[via_fn]
proof fn enc_cases_d(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn sz_cases(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) -> nat decreases v, n when n <= v.len() via sz_cases_d {
    if n == 0 { 0 } else { sz_cases(v, (n - 1) as nat, c) + esz(v[n - 1].case_index_value_term, c) + 4 + esz(v[n - 1].case_term, c) }
}
#[via_fn]
proof fn sz_cases_d(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
#[verifier::opaque]
pub open spec fn enc_ExSwitchValue(x: ExSwitchValue, c: Ctx) -> Seq<Pat> decreases x, 0int {
    (((p16(x.cases.len() as u16) + p32(x.end_goto_offset)) + enc(*x.index_term, c)) + enc_cases(x.cases, x.cases.len() as nat, c)) + enc(*x.default_term, c)
}
#[verifier::opaque]
pub open spec fn sz_ExSwitchValue(x: ExSwitchValue, c: Ctx) -> nat decreases x, 0int { 6 + esz(*x.index_term, c) + sz_cases(x.cases, x.cases.len() as nat, c) + esz(*x.default_term, c) }
#[verifier::opaque]
pub open spec fn enc_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) -> Seq<Pat> {
    let t = p8(EScriptInstrumentationType_n(x.event_type));
    if x.event_type == EScriptInstrumentationType::InlineEvent { t + oname(x.event_name) } else { t }
}
#[verifier::opaque]
pub open spec fn sz_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) -> nat { if x.event_type == EScriptInstrumentationType::InlineEvent { 13 } else { 1 } }

#[verifier::opaque]
pub open spec fn enc_ExLocalVariable(x: ExLocalVariable, c: Ctx) -> Seq<Pat> { enc_pp(x.variable, c) }
#[verifier::opaque]
pub open spec fn sz_ExLocalVariable(x: ExLocalVariable, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExInstanceVariable(x: ExInstanceVariable, c: Ctx) -> Seq<Pat> { enc_pp(x.variable, c) }
#[verifier::opaque]
pub open spec fn sz_ExInstanceVariable(x: ExInstanceVariable, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExDefaultVariable(x: ExDefaultVariable, c: Ctx) -> Seq<Pat> { enc_pp(x.variable, c) }
#[verifier::opaque]
pub open spec fn sz_ExDefaultVariable(x: ExDefaultVariable, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExReturn(x: ExReturn, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.return_expression, c) }
#[verifier::opaque]
pub open spec fn sz_ExReturn(x: ExReturn, c: Ctx) -> nat decreases x, 0int { esz(*x.return_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExJump(x: ExJump, c: Ctx) -> Seq<Pat> { p32(x.code_offset) }
#[verifier::opaque]
pub open spec fn sz_ExJump(x: ExJump, c: Ctx) -> nat { 4 }
#[verifier::opaque]
pub open spec fn enc_ExJumpIfNot(x: ExJumpIfNot, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.code_offset) + enc(*x.boolean_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExJumpIfNot(x: ExJumpIfNot, c: Ctx) -> nat decreases x, 0int { 4 + esz(*x.boolean_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExAssert(x: ExAssert, c: Ctx) -> Seq<Pat> decreases x, 0int { ((p16(x.line_number) + pbool(x.debug_mode, c)) + enc(*x.assert_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExAssert(x: ExAssert, c: Ctx) -> nat decreases x, 0int { 2 + 1 + esz(*x.assert_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExNothing(x: ExNothing, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExNothing(x: ExNothing, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExLet(x: ExLet, c: Ctx) -> Seq<Pat> decreases x, 0int { ((enc_pp(x.value, c) + enc(*x.variable, c)) + enc(*x.expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLet(x: ExLet, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.variable, c) + esz(*x.expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExClassContext(x: ExClassContext, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc(*x.object_expression, c) + p32(x.offset)) + enc_pp(x.r_value_pointer, c)) + enc(*x.context_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExClassContext(x: ExClassContext, c: Ctx) -> nat decreases x, 0int { esz(*x.object_expression, c) + 4 + 8 + esz(*x.context_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExMetaCast(x: ExMetaCast, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.class_ptr.index as u32) + enc(*x.target_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExMetaCast(x: ExMetaCast, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.target_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExLetBool(x: ExLetBool, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.variable_expression, c) + enc(*x.assignment_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLetBool(x: ExLetBool, c: Ctx) -> nat decreases x, 0int { esz(*x.variable_expression, c) + esz(*x.assignment_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExEndParmValue(x: ExEndParmValue, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndParmValue(x: ExEndParmValue, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExEndFunctionParms(x: ExEndFunctionParms, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndFunctionParms(x: ExEndFunctionParms, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSelf(x: ExSelf, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExSelf(x: ExSelf, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSkip(x: ExSkip, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.code_offset) + enc(*x.skip_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExSkip(x: ExSkip, c: Ctx) -> nat decreases x, 0int { 4 + esz(*x.skip_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExContext(x: ExContext, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc(*x.object_expression, c) + p32(x.offset)) + enc_pp(x.r_value_pointer, c)) + enc(*x.context_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExContext(x: ExContext, c: Ctx) -> nat decreases x, 0int { esz(*x.object_expression, c) + 4 + 8 + esz(*x.context_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExContextFailSilent(x: ExContextFailSilent, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc(*x.object_expression, c) + p32(x.offset)) + enc_pp(x.r_value_pointer, c)) + enc(*x.context_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExContextFailSilent(x: ExContextFailSilent, c: Ctx) -> nat decreases x, 0int { esz(*x.object_expression, c) + 4 + 8 + esz(*x.context_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExVirtualFunction(x: ExVirtualFunction, c: Ctx) -> Seq<Pat> decreases x, 0int { ((pname(x.virtual_function_name) + encv(x.parameters, x.parameters.len() as nat, c)) + p8(22u8)) }
#[verifier::opaque]
pub open spec fn sz_ExVirtualFunction(x: ExVirtualFunction, c: Ctx) -> nat decreases x, 0int { 12 + szv(x.parameters, x.parameters.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExFinalFunction(x: ExFinalFunction, c: Ctx) -> Seq<Pat> decreases x, 0int { ((p32(x.stack_node.index as u32) + encv(x.parameters, x.parameters.len() as nat, c)) + p8(22u8)) }
#[verifier::opaque]
pub open spec fn sz_ExFinalFunction(x: ExFinalFunction, c: Ctx) -> nat decreases x, 0int { 8 + szv(x.parameters, x.parameters.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExIntConst(x: ExIntConst, c: Ctx) -> Seq<Pat> { p32(x.value as u32) }
#[verifier::opaque]
pub open spec fn sz_ExIntConst(x: ExIntConst, c: Ctx) -> nat { 4 }
#[verifier::opaque]
pub open spec fn enc_ExFloatConst(x: ExFloatConst, c: Ctx) -> Seq<Pat> { p32(x.value.0.bits) }
#[verifier::opaque]
pub open spec fn sz_ExFloatConst(x: ExFloatConst, c: Ctx) -> nat { 4 }
#[verifier::opaque]
pub open spec fn enc_ExStringConst(x: ExStringConst, c: Ctx) -> Seq<Pat> { (pblob(utf8(x.value@)) + p8(0)) }
#[verifier::opaque]
pub open spec fn sz_ExStringConst(x: ExStringConst, c: Ctx) -> nat { (utf8(x.value@).len() + 1) }
#[verifier::opaque]
pub open spec fn enc_ExObjectConst(x: ExObjectConst, c: Ctx) -> Seq<Pat> { p32(x.value.index as u32) }
#[verifier::opaque]
pub open spec fn sz_ExObjectConst(x: ExObjectConst, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExNameConst(x: ExNameConst, c: Ctx) -> Seq<Pat> { pname(x.value) }
#[verifier::opaque]
pub open spec fn sz_ExNameConst(x: ExNameConst, c: Ctx) -> nat { 12 }
#[verifier::opaque]
pub open spec fn enc_ExRotationConst(x: ExRotationConst, c: Ctx) -> Seq<Pat> { ((pf(x.rotator.x.0, c) + pf(x.rotator.y.0, c)) + pf(x.rotator.z.0, c)) }
#[verifier::opaque]
pub open spec fn sz_ExRotationConst(x: ExRotationConst, c: Ctx) -> nat { 3 * fsz(c) }
#[verifier::opaque]
pub open spec fn enc_ExVectorConst(x: ExVectorConst, c: Ctx) -> Seq<Pat> { ((pf(x.value.x.0, c) + pf(x.value.y.0, c)) + pf(x.value.z.0, c)) }
#[verifier::opaque]
pub open spec fn sz_ExVectorConst(x: ExVectorConst, c: Ctx) -> nat { 3 * fsz(c) }
#[verifier::opaque]
pub open spec fn enc_ExByteConst(x: ExByteConst, c: Ctx) -> Seq<Pat> { p8(x.value) }
#[verifier::opaque]
pub open spec fn sz_ExByteConst(x: ExByteConst, c: Ctx) -> nat { 1 }
#[verifier::opaque]
pub open spec fn enc_ExIntZero(x: ExIntZero, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExIntZero(x: ExIntZero, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExIntOne(x: ExIntOne, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExIntOne(x: ExIntOne, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExTrue(x: ExTrue, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExTrue(x: ExTrue, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExFalse(x: ExFalse, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExFalse(x: ExFalse, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExTextConst(x: ExTextConst, c: Ctx) -> Seq<Pat> decreases x, 0int { enc_st(*x.value, c) }
#[verifier::opaque]
pub open spec fn sz_ExTextConst(x: ExTextConst, c: Ctx) -> nat decreases x, 0int { sz_st(*x.value, c) }
#[verifier::opaque]
pub open spec fn enc_ExNoObject(x: ExNoObject, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExNoObject(x: ExNoObject, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExTransformConst(x: ExTransformConst, c: Ctx) -> Seq<Pat> { (((((((((pf(x.value.rotation.x.0, c) + pf(x.value.rotation.y.0, c)) + pf(x.value.rotation.z.0, c)) + pf(x.value.rotation.w.0, c)) + pf(x.value.translation.x.0, c)) + pf(x.value.translation.y.0, c)) + pf(x.value.translation.z.0, c)) + pf(x.value.scale.x.0, c)) + pf(x.value.scale.y.0, c)) + pf(x.value.scale.z.0, c)) }
#[verifier::opaque]
pub open spec fn sz_ExTransformConst(x: ExTransformConst, c: Ctx) -> nat { 10 * fsz(c) }
#[verifier::opaque]
pub open spec fn enc_ExIntConstByte(x: ExIntConstByte, c: Ctx) -> Seq<Pat> { p8(x.value) }
#[verifier::opaque]
pub open spec fn sz_ExIntConstByte(x: ExIntConstByte, c: Ctx) -> nat { 1 }
#[verifier::opaque]
pub open spec fn enc_ExNoInterface(x: ExNoInterface, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExNoInterface(x: ExNoInterface, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExDynamicCast(x: ExDynamicCast, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.class_ptr.index as u32) + enc(*x.target_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExDynamicCast(x: ExDynamicCast, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.target_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExStructConst(x: ExStructConst, c: Ctx) -> Seq<Pat> decreases x, 0int { (((p32(x.struct_value.index as u32) + p32(x.struct_size as u32)) + encv(x.value, x.value.len() as nat, c)) + p8(48u8)) }
#[verifier::opaque]
pub open spec fn sz_ExStructConst(x: ExStructConst, c: Ctx) -> nat decreases x, 0int { 8 + 4 + szv(x.value, x.value.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndStructConst(x: ExEndStructConst, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndStructConst(x: ExEndStructConst, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSetArray(x: ExSetArray, c: Ctx) -> Seq<Pat> decreases x, 0int { (((if newset(c) { oencb(x.assigning_property, c) } else { opi(x.array_inner_prop) }) + encv(x.elements, x.elements.len() as nat, c)) + p8(50u8)) }
#[verifier::opaque]
pub open spec fn sz_ExSetArray(x: ExSetArray, c: Ctx) -> nat decreases x, 0int { (if newset(c) { oeszb(x.assigning_property, c) } else { 8 }) + szv(x.elements, x.elements.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndArray(x: ExEndArray, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndArray(x: ExEndArray, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExPropertyConst(x: ExPropertyConst, c: Ctx) -> Seq<Pat> { enc_pp(x.property, c) }
#[verifier::opaque]
pub open spec fn sz_ExPropertyConst(x: ExPropertyConst, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExUnicodeStringConst(x: ExUnicodeStringConst, c: Ctx) -> Seq<Pat> { ((pblob(le16s(utf16(x.value@))) + p8(0)) + p8(0)) }
#[verifier::opaque]
pub open spec fn sz_ExUnicodeStringConst(x: ExUnicodeStringConst, c: Ctx) -> nat { (2 * utf16(x.value@).len() + 2) }
#[verifier::opaque]
pub open spec fn enc_ExInt64Const(x: ExInt64Const, c: Ctx) -> Seq<Pat> { p64(x.value as u64) }
#[verifier::opaque]
pub open spec fn sz_ExInt64Const(x: ExInt64Const, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExUInt64Const(x: ExUInt64Const, c: Ctx) -> Seq<Pat> { p64(x.value) }
#[verifier::opaque]
pub open spec fn sz_ExUInt64Const(x: ExUInt64Const, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExDoubleConst(x: ExDoubleConst, c: Ctx) -> Seq<Pat> { p64(x.value.0.bits) }
#[verifier::opaque]
pub open spec fn sz_ExDoubleConst(x: ExDoubleConst, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExPrimitiveCast(x: ExPrimitiveCast, c: Ctx) -> Seq<Pat> decreases x, 0int { (p8(match x.conversion_type { CastToken::Old(t) => OldCastToken_n(t), CastToken::New(t) => NewCastToken_n(t) }) + enc(*x.target, c)) }
#[verifier::opaque]
pub open spec fn sz_ExPrimitiveCast(x: ExPrimitiveCast, c: Ctx) -> nat decreases x, 0int { 1 + esz(*x.target, c) }
#[verifier::opaque]
pub open spec fn enc_ExSetSet(x: ExSetSet, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc(*x.set_property, c) + pcount(x.elements.len() as i32, c)) + encv(x.elements, x.elements.len() as nat, c)) + p8(58u8)) }
#[verifier::opaque]
pub open spec fn sz_ExSetSet(x: ExSetSet, c: Ctx) -> nat decreases x, 0int { esz(*x.set_property, c) + 4 + szv(x.elements, x.elements.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndSet(x: ExEndSet, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndSet(x: ExEndSet, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSetMap(x: ExSetMap, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc(*x.map_property, c) + pcount((x.elements.len() / 2) as i32, c)) + encv(x.elements, x.elements.len() as nat, c)) + p8(60u8)) }
#[verifier::opaque]
pub open spec fn sz_ExSetMap(x: ExSetMap, c: Ctx) -> nat decreases x, 0int { esz(*x.map_property, c) + 4 + szv(x.elements, x.elements.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndMap(x: ExEndMap, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndMap(x: ExEndMap, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSetConst(x: ExSetConst, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc_pp(x.inner_property, c) + pcount(x.elements.len() as i32, c)) + encv(x.elements, x.elements.len() as nat, c)) + p8(62u8)) }
#[verifier::opaque]
pub open spec fn sz_ExSetConst(x: ExSetConst, c: Ctx) -> nat decreases x, 0int { 8 + 4 + szv(x.elements, x.elements.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndSetConst(x: ExEndSetConst, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndSetConst(x: ExEndSetConst, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExMapConst(x: ExMapConst, c: Ctx) -> Seq<Pat> decreases x, 0int { ((((enc_pp(x.key_property, c) + enc_pp(x.value_property, c)) + pcount((x.elements.len() / 2) as i32, c)) + encv(x.elements, x.elements.len() as nat, c)) + p8(64u8)) }
#[verifier::opaque]
pub open spec fn sz_ExMapConst(x: ExMapConst, c: Ctx) -> nat decreases x, 0int { 8 + 8 + 4 + szv(x.elements, x.elements.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndMapConst(x: ExEndMapConst, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndMapConst(x: ExEndMapConst, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExStructMemberContext(x: ExStructMemberContext, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc_pp(x.struct_member_expression, c) + enc(*x.struct_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExStructMemberContext(x: ExStructMemberContext, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.struct_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExLetMulticastDelegate(x: ExLetMulticastDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.variable_expression, c) + enc(*x.assignment_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLetMulticastDelegate(x: ExLetMulticastDelegate, c: Ctx) -> nat decreases x, 0int { esz(*x.variable_expression, c) + esz(*x.assignment_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExLetDelegate(x: ExLetDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.variable_expression, c) + enc(*x.assignment_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLetDelegate(x: ExLetDelegate, c: Ctx) -> nat decreases x, 0int { esz(*x.variable_expression, c) + esz(*x.assignment_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExLocalVirtualFunction(x: ExLocalVirtualFunction, c: Ctx) -> Seq<Pat> decreases x, 0int { ((pname(x.virtual_function_name) + encv(x.parameters, x.parameters.len() as nat, c)) + p8(22u8)) }
#[verifier::opaque]
pub open spec fn sz_ExLocalVirtualFunction(x: ExLocalVirtualFunction, c: Ctx) -> nat decreases x, 0int { 12 + szv(x.parameters, x.parameters.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExLocalFinalFunction(x: ExLocalFinalFunction, c: Ctx) -> Seq<Pat> decreases x, 0int { ((p32(x.stack_node.index as u32) + encv(x.parameters, x.parameters.len() as nat, c)) + p8(22u8)) }
#[verifier::opaque]
pub open spec fn sz_ExLocalFinalFunction(x: ExLocalFinalFunction, c: Ctx) -> nat decreases x, 0int { 8 + szv(x.parameters, x.parameters.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExLocalOutVariable(x: ExLocalOutVariable, c: Ctx) -> Seq<Pat> { enc_pp(x.variable, c) }
#[verifier::opaque]
pub open spec fn sz_ExLocalOutVariable(x: ExLocalOutVariable, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExDeprecatedOp4A(x: ExDeprecatedOp4A, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExDeprecatedOp4A(x: ExDeprecatedOp4A, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExInstanceDelegate(x: ExInstanceDelegate, c: Ctx) -> Seq<Pat> { pname(x.function_name) }
#[verifier::opaque]
pub open spec fn sz_ExInstanceDelegate(x: ExInstanceDelegate, c: Ctx) -> nat { 12 }
#[verifier::opaque]
pub open spec fn enc_ExPushExecutionFlow(x: ExPushExecutionFlow, c: Ctx) -> Seq<Pat> { p32(x.pushing_address) }
#[verifier::opaque]
pub open spec fn sz_ExPushExecutionFlow(x: ExPushExecutionFlow, c: Ctx) -> nat { 4 }
#[verifier::opaque]
pub open spec fn enc_ExPopExecutionFlow(x: ExPopExecutionFlow, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExPopExecutionFlow(x: ExPopExecutionFlow, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExComputedJump(x: ExComputedJump, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.code_offset_expression, c) }
#[verifier::opaque]
pub open spec fn sz_ExComputedJump(x: ExComputedJump, c: Ctx) -> nat decreases x, 0int { esz(*x.code_offset_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExPopExecutionFlowIfNot(x: ExPopExecutionFlowIfNot, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.boolean_expression, c) }
#[verifier::opaque]
pub open spec fn sz_ExPopExecutionFlowIfNot(x: ExPopExecutionFlowIfNot, c: Ctx) -> nat decreases x, 0int { esz(*x.boolean_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExBreakpoint(x: ExBreakpoint, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExBreakpoint(x: ExBreakpoint, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExInterfaceContext(x: ExInterfaceContext, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.interface_value, c) }
#[verifier::opaque]
pub open spec fn sz_ExInterfaceContext(x: ExInterfaceContext, c: Ctx) -> nat decreases x, 0int { esz(*x.interface_value, c) }
#[verifier::opaque]
pub open spec fn enc_ExObjToInterfaceCast(x: ExObjToInterfaceCast, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.class_ptr.index as u32) + enc(*x.target, c)) }
#[verifier::opaque]
pub open spec fn sz_ExObjToInterfaceCast(x: ExObjToInterfaceCast, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.target, c) }
#[verifier::opaque]
pub open spec fn enc_ExEndOfScript(x: ExEndOfScript, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndOfScript(x: ExEndOfScript, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExCrossInterfaceCast(x: ExCrossInterfaceCast, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.class_ptr.index as u32) + enc(*x.target, c)) }
#[verifier::opaque]
pub open spec fn sz_ExCrossInterfaceCast(x: ExCrossInterfaceCast, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.target, c) }
#[verifier::opaque]
pub open spec fn enc_ExInterfaceToObjCast(x: ExInterfaceToObjCast, c: Ctx) -> Seq<Pat> decreases x, 0int { (p32(x.class_ptr.index as u32) + enc(*x.target, c)) }
#[verifier::opaque]
pub open spec fn sz_ExInterfaceToObjCast(x: ExInterfaceToObjCast, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.target, c) }
#[verifier::opaque]
pub open spec fn enc_ExWireTracepoint(x: ExWireTracepoint, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExWireTracepoint(x: ExWireTracepoint, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSkipOffsetConst(x: ExSkipOffsetConst, c: Ctx) -> Seq<Pat> { p32(x.value) }
#[verifier::opaque]
pub open spec fn sz_ExSkipOffsetConst(x: ExSkipOffsetConst, c: Ctx) -> nat { 4 }
#[verifier::opaque]
pub open spec fn enc_ExAddMulticastDelegate(x: ExAddMulticastDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.delegate, c) + enc(*x.delegate_to_add, c)) }
#[verifier::opaque]
pub open spec fn sz_ExAddMulticastDelegate(x: ExAddMulticastDelegate, c: Ctx) -> nat decreases x, 0int { esz(*x.delegate, c) + esz(*x.delegate_to_add, c) }
#[verifier::opaque]
pub open spec fn enc_ExClearMulticastDelegate(x: ExClearMulticastDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.delegate_to_clear, c) }
#[verifier::opaque]
pub open spec fn sz_ExClearMulticastDelegate(x: ExClearMulticastDelegate, c: Ctx) -> nat decreases x, 0int { esz(*x.delegate_to_clear, c) }
#[verifier::opaque]
pub open spec fn enc_ExTracepoint(x: ExTracepoint, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExTracepoint(x: ExTracepoint, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExLetObj(x: ExLetObj, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.variable_expression, c) + enc(*x.assignment_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLetObj(x: ExLetObj, c: Ctx) -> nat decreases x, 0int { esz(*x.variable_expression, c) + esz(*x.assignment_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExLetWeakObjPtr(x: ExLetWeakObjPtr, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.variable_expression, c) + enc(*x.assignment_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLetWeakObjPtr(x: ExLetWeakObjPtr, c: Ctx) -> nat decreases x, 0int { esz(*x.variable_expression, c) + esz(*x.assignment_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExBindDelegate(x: ExBindDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { ((pname(x.function_name) + enc(*x.delegate, c)) + enc(*x.object_term, c)) }
#[verifier::opaque]
pub open spec fn sz_ExBindDelegate(x: ExBindDelegate, c: Ctx) -> nat decreases x, 0int { 12 + esz(*x.delegate, c) + esz(*x.object_term, c) }
#[verifier::opaque]
pub open spec fn enc_ExRemoveMulticastDelegate(x: ExRemoveMulticastDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.delegate, c) + enc(*x.delegate_to_add, c)) }
#[verifier::opaque]
pub open spec fn sz_ExRemoveMulticastDelegate(x: ExRemoveMulticastDelegate, c: Ctx) -> nat decreases x, 0int { esz(*x.delegate, c) + esz(*x.delegate_to_add, c) }
#[verifier::opaque]
pub open spec fn enc_ExCallMulticastDelegate(x: ExCallMulticastDelegate, c: Ctx) -> Seq<Pat> decreases x, 0int { (((p32(x.stack_node.index as u32) + enc(*x.delegate, c)) + encv(x.parameters, x.parameters.len() as nat, c)) + p8(22u8)) }
#[verifier::opaque]
pub open spec fn sz_ExCallMulticastDelegate(x: ExCallMulticastDelegate, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.delegate, c) + szv(x.parameters, x.parameters.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExLetValueOnPersistentFrame(x: ExLetValueOnPersistentFrame, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc_pp(x.destination_property, c) + enc(*x.assignment_expression, c)) }
#[verifier::opaque]
pub open spec fn sz_ExLetValueOnPersistentFrame(x: ExLetValueOnPersistentFrame, c: Ctx) -> nat decreases x, 0int { 8 + esz(*x.assignment_expression, c) }
#[verifier::opaque]
pub open spec fn enc_ExArrayConst(x: ExArrayConst, c: Ctx) -> Seq<Pat> decreases x, 0int { (((enc_pp(x.inner_property, c) + pcount(x.elements.len() as i32, c)) + encv(x.elements, x.elements.len() as nat, c)) + p8(102u8)) }
#[verifier::opaque]
pub open spec fn sz_ExArrayConst(x: ExArrayConst, c: Ctx) -> nat decreases x, 0int { 8 + 4 + szv(x.elements, x.elements.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExEndArrayConst(x: ExEndArrayConst, c: Ctx) -> Seq<Pat> { Seq::empty() }
#[verifier::opaque]
pub open spec fn sz_ExEndArrayConst(x: ExEndArrayConst, c: Ctx) -> nat { 0 }
#[verifier::opaque]
pub open spec fn enc_ExSoftObjectConst(x: ExSoftObjectConst, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.value, c) }
#[verifier::opaque]
pub open spec fn sz_ExSoftObjectConst(x: ExSoftObjectConst, c: Ctx) -> nat decreases x, 0int { esz(*x.value, c) }
#[verifier::opaque]
pub open spec fn enc_ExCallMath(x: ExCallMath, c: Ctx) -> Seq<Pat> decreases x, 0int { ((p32(x.stack_node.index as u32) + encv(x.parameters, x.parameters.len() as nat, c)) + p8(22u8)) }
#[verifier::opaque]
pub open spec fn sz_ExCallMath(x: ExCallMath, c: Ctx) -> nat decreases x, 0int { 8 + szv(x.parameters, x.parameters.len() as nat, c) + 1 }
#[verifier::opaque]
pub open spec fn enc_ExArrayGetByRef(x: ExArrayGetByRef, c: Ctx) -> Seq<Pat> decreases x, 0int { (enc(*x.array_variable, c) + enc(*x.array_index, c)) }
#[verifier::opaque]
pub open spec fn sz_ExArrayGetByRef(x: ExArrayGetByRef, c: Ctx) -> nat decreases x, 0int { esz(*x.array_variable, c) + esz(*x.array_index, c) }
#[verifier::opaque]
pub open spec fn enc_ExClassSparseDataVariable(x: ExClassSparseDataVariable, c: Ctx) -> Seq<Pat> { enc_pp(x.variable, c) }
#[verifier::opaque]
pub open spec fn sz_ExClassSparseDataVariable(x: ExClassSparseDataVariable, c: Ctx) -> nat { 8 }
#[verifier::opaque]
pub open spec fn enc_ExFieldPathConst(x: ExFieldPathConst, c: Ctx) -> Seq<Pat> decreases x, 0int { enc(*x.value, c) }
#[verifier::opaque]
pub open spec fn sz_ExFieldPathConst(x: ExFieldPathConst, c: Ctx) -> nat decreases x, 0int { esz(*x.value, c) }
pub open spec fn token_of(e: KismetExpression) -> EExprToken { match e { KismetExpression::ExLocalVariable(x) => x.token, KismetExpression::ExInstanceVariable(x) => x.token, KismetExpression::ExDefaultVariable(x) => x.token, KismetExpression::ExReturn(x) => x.token, KismetExpression::ExJump(x) => x.token, KismetExpression::ExJumpIfNot(x) => x.token, KismetExpression::ExAssert(x) => x.token, KismetExpression::ExNothing(x) => x.token, KismetExpression::ExLet(x) => x.token, KismetExpression::ExClassContext(x) => x.token, KismetExpression::ExMetaCast(x) => x.token, KismetExpression::ExLetBool(x) => x.token, KismetExpression::ExEndParmValue(x) => x.token, KismetExpression::ExEndFunctionParms(x) => x.token, KismetExpression::ExSelf(x) => x.token, KismetExpression::ExSkip(x) => x.token, KismetExpression::ExContext(x) => x.token, KismetExpression::ExContextFailSilent(x) => x.token, KismetExpression::ExVirtualFunction(x) => x.token, KismetExpression::ExFinalFunction(x) => x.token, KismetExpression::ExIntConst(x) => x.token, KismetExpression::ExFloatConst(x) => x.token, KismetExpression::ExStringConst(x) => x.token, KismetExpression::ExObjectConst(x) => x.token, KismetExpression::ExNameConst(x) => x.token, KismetExpression::ExRotationConst(x) => x.token, KismetExpression::ExVectorConst(x) => x.token, KismetExpression::ExByteConst(x) => x.token, KismetExpression::ExIntZero(x) => x.token, KismetExpression::ExIntOne(x) => x.token, KismetExpression::ExTrue(x) => x.token, KismetExpression::ExFalse(x) => x.token, KismetExpression::ExTextConst(x) => x.token, KismetExpression::ExNoObject(x) => x.token, KismetExpression::ExTransformConst(x) => x.token, KismetExpression::ExIntConstByte(x) => x.token, KismetExpression::ExNoInterface(x) => x.token, KismetExpression::ExDynamicCast(x) => x.token, KismetExpression::ExStructConst(x) => x.token, KismetExpression::ExEndStructConst(x) => x.token, KismetExpression::ExSetArray(x) => x.token, KismetExpression::ExEndArray(x) => x.token, KismetExpression::ExPropertyConst(x) => x.token, KismetExpression::ExUnicodeStringConst(x) => x.token, KismetExpression::ExInt64Const(x) => x.token, KismetExpression::ExUInt64Const(x) => x.token, KismetExpression::ExDoubleConst(x) => x.token, KismetExpression::ExPrimitiveCast(x) => x.token, KismetExpression::ExSetSet(x) => x.token, KismetExpression::ExEndSet(x) => x.token, KismetExpression::ExSetMap(x) => x.token, KismetExpression::ExEndMap(x) => x.token, KismetExpression::ExSetConst(x) => x.token, KismetExpression::ExEndSetConst(x) => x.token, KismetExpression::ExMapConst(x) => x.token, KismetExpression::ExEndMapConst(x) => x.token, KismetExpression::ExStructMemberContext(x) => x.token, KismetExpression::ExLetMulticastDelegate(x) => x.token, KismetExpression::ExLetDelegate(x) => x.token, KismetExpression::ExLocalVirtualFunction(x) => x.token, KismetExpression::ExLocalFinalFunction(x) => x.token, KismetExpression::ExLocalOutVariable(x) => x.token, KismetExpression::ExDeprecatedOp4A(x) => x.token, KismetExpression::ExInstanceDelegate(x) => x.token, KismetExpression::ExPushExecutionFlow(x) => x.token, KismetExpression::ExPopExecutionFlow(x) => x.token, KismetExpression::ExComputedJump(x) => x.token, KismetExpression::ExPopExecutionFlowIfNot(x) => x.token, KismetExpression::ExBreakpoint(x) => x.token, KismetExpression::ExInterfaceContext(x) => x.token, KismetExpression::ExObjToInterfaceCast(x) => x.token, KismetExpression::ExEndOfScript(x) => x.token, KismetExpression::ExCrossInterfaceCast(x) => x.token, KismetExpression::ExInterfaceToObjCast(x) => x.token, KismetExpression::ExWireTracepoint(x) => x.token, KismetExpression::ExSkipOffsetConst(x) => x.token, KismetExpression::ExAddMulticastDelegate(x) => x.token, KismetExpression::ExClearMulticastDelegate(x) => x.token, KismetExpression::ExTracepoint(x) => x.token, KismetExpression::ExLetObj(x) => x.token, KismetExpression::ExLetWeakObjPtr(x) => x.token, KismetExpression::ExBindDelegate(x) => x.token, KismetExpression::ExRemoveMulticastDelegate(x) => x.token, KismetExpression::ExCallMulticastDelegate(x) => x.token, KismetExpression::ExLetValueOnPersistentFrame(x) => x.token, KismetExpression::ExArrayConst(x) => x.token, KismetExpression::ExEndArrayConst(x) => x.token, KismetExpression::ExSoftObjectConst(x) => x.token, KismetExpression::ExCallMath(x) => x.token, KismetExpression::ExSwitchValue(x) => x.token, KismetExpression::ExInstrumentationEvent(x) => x.token, KismetExpression::ExArrayGetByRef(x) => x.token, KismetExpression::ExClassSparseDataVariable(x) => x.token, KismetExpression::ExFieldPathConst(x) => x.token } }
pub open spec fn kidx(e: KismetExpression) -> int { match e { KismetExpression::ExLocalVariable(x) => 0, KismetExpression::ExInstanceVariable(x) => 1, KismetExpression::ExDefaultVariable(x) => 2, KismetExpression::ExReturn(x) => 3, KismetExpression::ExJump(x) => 4, KismetExpression::ExJumpIfNot(x) => 5, KismetExpression::ExAssert(x) => 6, KismetExpression::ExNothing(x) => 7, KismetExpression::ExLet(x) => 8, KismetExpression::ExClassContext(x) => 9, KismetExpression::ExMetaCast(x) => 10, KismetExpression::ExLetBool(x) => 11, KismetExpression::ExEndParmValue(x) => 12, KismetExpression::ExEndFunctionParms(x) => 13, KismetExpression::ExSelf(x) => 14, KismetExpression::ExSkip(x) => 15, KismetExpression::ExContext(x) => 16, KismetExpression::ExContextFailSilent(x) => 17, KismetExpression::ExVirtualFunction(x) => 18, KismetExpression::ExFinalFunction(x) => 19, KismetExpression::ExIntConst(x) => 20, KismetExpression::ExFloatConst(x) => 21, KismetExpression::ExStringConst(x) => 22, KismetExpression::ExObjectConst(x) => 23, KismetExpression::ExNameConst(x) => 24, KismetExpression::ExRotationConst(x) => 25, KismetExpression::ExVectorConst(x) => 26, KismetExpression::ExByteConst(x) => 27, KismetExpression::ExIntZero(x) => 28, KismetExpression::ExIntOne(x) => 29, KismetExpression::ExTrue(x) => 30, KismetExpression::ExFalse(x) => 31, KismetExpression::ExTextConst(x) => 32, KismetExpression::ExNoObject(x) => 33, KismetExpression::ExTransformConst(x) => 34, KismetExpression::ExIntConstByte(x) => 35, KismetExpression::ExNoInterface(x) => 36, KismetExpression::ExDynamicCast(x) => 37, KismetExpression::ExStructConst(x) => 38, KismetExpression::ExEndStructConst(x) => 39, KismetExpression::ExSetArray(x) => 40, KismetExpression::ExEndArray(x) => 41, KismetExpression::ExPropertyConst(x) => 42, KismetExpression::ExUnicodeStringConst(x) => 43, KismetExpression::ExInt64Const(x) => 44, KismetExpression::ExUInt64Const(x) => 45, KismetExpression::ExDoubleConst(x) => 46, KismetExpression::ExPrimitiveCast(x) => 47, KismetExpression::ExSetSet(x) => 48, KismetExpression::ExEndSet(x) => 49, KismetExpression::ExSetMap(x) => 50, KismetExpression::ExEndMap(x) => 51, KismetExpression::ExSetConst(x) => 52, KismetExpression::ExEndSetConst(x) => 53, KismetExpression::ExMapConst(x) => 54, KismetExpression::ExEndMapConst(x) => 55, KismetExpression::ExStructMemberContext(x) => 56, KismetExpression::ExLetMulticastDelegate(x) => 57, KismetExpression::ExLetDelegate(x) => 58, KismetExpression::ExLocalVirtualFunction(x) => 59, KismetExpression::ExLocalFinalFunction(x) => 60, KismetExpression::ExLocalOutVariable(x) => 61, KismetExpression::ExDeprecatedOp4A(x) => 62, KismetExpression::ExInstanceDelegate(x) => 63, KismetExpression::ExPushExecutionFlow(x) => 64, KismetExpression::ExPopExecutionFlow(x) => 65, KismetExpression::ExComputedJump(x) => 66, KismetExpression::ExPopExecutionFlowIfNot(x) => 67, KismetExpression::ExBreakpoint(x) => 68, KismetExpression::ExInterfaceContext(x) => 69, KismetExpression::ExObjToInterfaceCast(x) => 70, KismetExpression::ExEndOfScript(x) => 71, KismetExpression::ExCrossInterfaceCast(x) => 72, KismetExpression::ExInterfaceToObjCast(x) => 73, KismetExpression::ExWireTracepoint(x) => 74, KismetExpression::ExSkipOffsetConst(x) => 75, KismetExpression::ExAddMulticastDelegate(x) => 76, KismetExpression::ExClearMulticastDelegate(x) => 77, KismetExpression::ExTracepoint(x) => 78, KismetExpression::ExLetObj(x) => 79, KismetExpression::ExLetWeakObjPtr(x) => 80, KismetExpression::ExBindDelegate(x) => 81, KismetExpression::ExRemoveMulticastDelegate(x) => 82, KismetExpression::ExCallMulticastDelegate(x) => 83, KismetExpression::ExLetValueOnPersistentFrame(x) => 84, KismetExpression::ExArrayConst(x) => 85, KismetExpression::ExEndArrayConst(x) => 86, KismetExpression::ExSoftObjectConst(x) => 87, KismetExpression::ExCallMath(x) => 88, KismetExpression::ExSwitchValue(x) => 89, KismetExpression::ExInstrumentationEvent(x) => 90, KismetExpression::ExArrayGetByRef(x) => 91, KismetExpression::ExClassSparseDataVariable(x) => 92, KismetExpression::ExFieldPathConst(x) => 93 } }
/// the value is of the kind its token names
pub open spec fn kind(e: KismetExpression) -> EExprToken { match e { KismetExpression::ExLocalVariable(x) => EExprToken::ExLocalVariable, KismetExpression::ExInstanceVariable(x) => EExprToken::ExInstanceVariable, KismetExpression::ExDefaultVariable(x) => EExprToken::ExDefaultVariable, KismetExpression::ExReturn(x) => EExprToken::ExReturn, KismetExpression::ExJump(x) => EExprToken::ExJump, KismetExpression::ExJumpIfNot(x) => EExprToken::ExJumpIfNot, KismetExpression::ExAssert(x) => EExprToken::ExAssert, KismetExpression::ExNothing(x) => EExprToken::ExNothing, KismetExpression::ExLet(x) => EExprToken::ExLet, KismetExpression::ExClassContext(x) => EExprToken::ExClassContext, KismetExpression::ExMetaCast(x) => EExprToken::ExMetaCast, KismetExpression::ExLetBool(x) => EExprToken::ExLetBool, KismetExpression::ExEndParmValue(x) => EExprToken::ExEndParmValue, KismetExpression::ExEndFunctionParms(x) => EExprToken::ExEndFunctionParms, KismetExpression::ExSelf(x) => EExprToken::ExSelf, KismetExpression::ExSkip(x) => EExprToken::ExSkip, KismetExpression::ExContext(x) => EExprToken::ExContext, KismetExpression::ExContextFailSilent(x) => EExprToken::ExContextFailSilent, KismetExpression::ExVirtualFunction(x) => EExprToken::ExVirtualFunction, KismetExpression::ExFinalFunction(x) => EExprToken::ExFinalFunction, KismetExpression::ExIntConst(x) => EExprToken::ExIntConst, KismetExpression::ExFloatConst(x) => EExprToken::ExFloatConst, KismetExpression::ExStringConst(x) => EExprToken::ExStringConst, KismetExpression::ExObjectConst(x) => EExprToken::ExObjectConst, KismetExpression::ExNameConst(x) => EExprToken::ExNameConst, KismetExpression::ExRotationConst(x) => EExprToken::ExRotationConst, KismetExpression::ExVectorConst(x) => EExprToken::ExVectorConst, KismetExpression::ExByteConst(x) => EExprToken::ExByteConst, KismetExpression::ExIntZero(x) => EExprToken::ExIntZero, KismetExpression::ExIntOne(x) => EExprToken::ExIntOne, KismetExpression::ExTrue(x) => EExprToken::ExTrue, KismetExpression::ExFalse(x) => EExprToken::ExFalse, KismetExpression::ExTextConst(x) => EExprToken::ExTextConst, KismetExpression::ExNoObject(x) => EExprToken::ExNoObject, KismetExpression::ExTransformConst(x) => EExprToken::ExTransformConst, KismetExpression::ExIntConstByte(x) => EExprToken::ExIntConstByte, KismetExpression::ExNoInterface(x) => EExprToken::ExNoInterface, KismetExpression::ExDynamicCast(x) => EExprToken::ExDynamicCast, KismetExpression::ExStructConst(x) => EExprToken::ExStructConst, KismetExpression::ExEndStructConst(x) => EExprToken::ExEndStructConst, KismetExpression::ExSetArray(x) => EExprToken::ExSetArray, KismetExpression::ExEndArray(x) => EExprToken::ExEndArray, KismetExpression::ExPropertyConst(x) => EExprToken::ExPropertyConst, KismetExpression::ExUnicodeStringConst(x) => EExprToken::ExUnicodeStringConst, KismetExpression::ExInt64Const(x) => EExprToken::ExInt64Const, KismetExpression::ExUInt64Const(x) => EExprToken::ExUInt64Const, KismetExpression::ExDoubleConst(x) => EExprToken::ExDoubleConst, KismetExpression::ExPrimitiveCast(x) => EExprToken::ExPrimitiveCast, KismetExpression::ExSetSet(x) => EExprToken::ExSetSet, KismetExpression::ExEndSet(x) => EExprToken::ExEndSet, KismetExpression::ExSetMap(x) => EExprToken::ExSetMap, KismetExpression::ExEndMap(x) => EExprToken::ExEndMap, KismetExpression::ExSetConst(x) => EExprToken::ExSetConst, KismetExpression::ExEndSetConst(x) => EExprToken::ExEndSetConst, KismetExpression::ExMapConst(x) => EExprToken::ExMapConst, KismetExpression::ExEndMapConst(x) => EExprToken::ExEndMapConst, KismetExpression::ExStructMemberContext(x) => EExprToken::ExStructMemberContext, KismetExpression::ExLetMulticastDelegate(x) => EExprToken::ExLetMulticastDelegate, KismetExpression::ExLetDelegate(x) => EExprToken::ExLetDelegate, KismetExpression::ExLocalVirtualFunction(x) => EExprToken::ExLocalVirtualFunction, KismetExpression::ExLocalFinalFunction(x) => EExprToken::ExLocalFinalFunction, KismetExpression::ExLocalOutVariable(x) => EExprToken::ExLocalOutVariable, KismetExpression::ExDeprecatedOp4A(x) => EExprToken::ExDeprecatedOp4A, KismetExpression::ExInstanceDelegate(x) => EExprToken::ExInstanceDelegate, KismetExpression::ExPushExecutionFlow(x) => EExprToken::ExPushExecutionFlow, KismetExpression::ExPopExecutionFlow(x) => EExprToken::ExPopExecutionFlow, KismetExpression::ExComputedJump(x) => EExprToken::ExComputedJump, KismetExpression::ExPopExecutionFlowIfNot(x) => EExprToken::ExPopExecutionFlowIfNot, KismetExpression::ExBreakpoint(x) => EExprToken::ExBreakpoint, KismetExpression::ExInterfaceContext(x) => EExprToken::ExInterfaceContext, KismetExpression::ExObjToInterfaceCast(x) => EExprToken::ExObjToInterfaceCast, KismetExpression::ExEndOfScript(x) => EExprToken::ExEndOfScript, KismetExpression::ExCrossInterfaceCast(x) => EExprToken::ExCrossInterfaceCast, KismetExpression::ExInterfaceToObjCast(x) => EExprToken::ExInterfaceToObjCast, KismetExpression::ExWireTracepoint(x) => EExprToken::ExWireTracepoint, KismetExpression::ExSkipOffsetConst(x) => EExprToken::ExSkipOffsetConst, KismetExpression::ExAddMulticastDelegate(x) => EExprToken::ExAddMulticastDelegate, KismetExpression::ExClearMulticastDelegate(x) => EExprToken::ExClearMulticastDelegate, KismetExpression::ExTracepoint(x) => EExprToken::ExTracepoint, KismetExpression::ExLetObj(x) => EExprToken::ExLetObj, KismetExpression::ExLetWeakObjPtr(x) => EExprToken::ExLetWeakObjPtr, KismetExpression::ExBindDelegate(x) => EExprToken::ExBindDelegate, KismetExpression::ExRemoveMulticastDelegate(x) => EExprToken::ExRemoveMulticastDelegate, KismetExpression::ExCallMulticastDelegate(x) => EExprToken::ExCallMulticastDelegate, KismetExpression::ExLetValueOnPersistentFrame(x) => EExprToken::ExLetValueOnPersistentFrame, KismetExpression::ExArrayConst(x) => EExprToken::ExArrayConst, KismetExpression::ExEndArrayConst(x) => EExprToken::ExEndArrayConst, KismetExpression::ExSoftObjectConst(x) => EExprToken::ExSoftObjectConst, KismetExpression::ExCallMath(x) => EExprToken::ExCallMath, KismetExpression::ExSwitchValue(x) => EExprToken::ExSwitchValue, KismetExpression::ExInstrumentationEvent(x) => EExprToken::ExInstrumentationEvent, KismetExpression::ExArrayGetByRef(x) => EExprToken::ExArrayGetByRef, KismetExpression::ExClassSparseDataVariable(x) => EExprToken::ExClassSparseDataVariable, KismetExpression::ExFieldPathConst(x) => EExprToken::ExFieldPathConst } }
#[verifier::opaque]
pub open spec fn body(e: KismetExpression, c: Ctx) -> Seq<Pat> decreases e, 0int { match e { KismetExpression::ExLocalVariable(x) => enc_ExLocalVariable(x, c), KismetExpression::ExInstanceVariable(x) => enc_ExInstanceVariable(x, c), KismetExpression::ExDefaultVariable(x) => enc_ExDefaultVariable(x, c), KismetExpression::ExReturn(x) => enc_ExReturn(x, c), KismetExpression::ExJump(x) => enc_ExJump(x, c), KismetExpression::ExJumpIfNot(x) => enc_ExJumpIfNot(x, c), KismetExpression::ExAssert(x) => enc_ExAssert(x, c), KismetExpression::ExNothing(x) => enc_ExNothing(x, c), KismetExpression::ExLet(x) => enc_ExLet(x, c), KismetExpression::ExClassContext(x) => enc_ExClassContext(x, c), KismetExpression::ExMetaCast(x) => enc_ExMetaCast(x, c), KismetExpression::ExLetBool(x) => enc_ExLetBool(x, c), KismetExpression::ExEndParmValue(x) => enc_ExEndParmValue(x, c), KismetExpression::ExEndFunctionParms(x) => enc_ExEndFunctionParms(x, c), KismetExpression::ExSelf(x) => enc_ExSelf(x, c), KismetExpression::ExSkip(x) => enc_ExSkip(x, c), KismetExpression::ExContext(x) => enc_ExContext(x, c), KismetExpression::ExContextFailSilent(x) => enc_ExContextFailSilent(x, c), KismetExpression::ExVirtualFunction(x) => enc_ExVirtualFunction(x, c), KismetExpression::ExFinalFunction(x) => enc_ExFinalFunction(x, c), KismetExpression::ExIntConst(x) => enc_ExIntConst(x, c), KismetExpression::ExFloatConst(x) => enc_ExFloatConst(x, c), KismetExpression::ExStringConst(x) => enc_ExStringConst(x, c), KismetExpression::ExObjectConst(x) => enc_ExObjectConst(x, c), KismetExpression::ExNameConst(x) => enc_ExNameConst(x, c), KismetExpression::ExRotationConst(x) => enc_ExRotationConst(x, c), KismetExpression::ExVectorConst(x) => enc_ExVectorConst(x, c), KismetExpression::ExByteConst(x) => enc_ExByteConst(x, c), KismetExpression::ExIntZero(x) => enc_ExIntZero(x, c), KismetExpression::ExIntOne(x) => enc_ExIntOne(x, c), KismetExpression::ExTrue(x) => enc_ExTrue(x, c), KismetExpression::ExFalse(x) => enc_ExFalse(x, c), KismetExpression::ExTextConst(x) => enc_ExTextConst(x, c), KismetExpression::ExNoObject(x) => enc_ExNoObject(x, c), KismetExpression::ExTransformConst(x) => enc_ExTransformConst(x, c), KismetExpression::ExIntConstByte(x) => enc_ExIntConstByte(x, c), KismetExpression::ExNoInterface(x) => enc_ExNoInterface(x, c), KismetExpression::ExDynamicCast(x) => enc_ExDynamicCast(x, c), KismetExpression::ExStructConst(x) => enc_ExStructConst(x, c), KismetExpression::ExEndStructConst(x) => enc_ExEndStructConst(x, c), KismetExpression::ExSetArray(x) => enc_ExSetArray(x, c), KismetExpression::ExEndArray(x) => enc_ExEndArray(x, c), KismetExpression::ExPropertyConst(x) => enc_ExPropertyConst(x, c), KismetExpression::ExUnicodeStringConst(x) => enc_ExUnicodeStringConst(x, c), KismetExpression::ExInt64Const(x) => enc_ExInt64Const(x, c), KismetExpression::ExUInt64Const(x) => enc_ExUInt64Const(x, c), KismetExpression::ExDoubleConst(x) => enc_ExDoubleConst(x, c), KismetExpression::ExPrimitiveCast(x) => enc_ExPrimitiveCast(x, c), KismetExpression::ExSetSet(x) => enc_ExSetSet(x, c), KismetExpression::ExEndSet(x) => enc_ExEndSet(x, c), KismetExpression::ExSetMap(x) => enc_ExSetMap(x, c), KismetExpression::ExEndMap(x) => enc_ExEndMap(x, c), KismetExpression::ExSetConst(x) => enc_ExSetConst(x, c), KismetExpression::ExEndSetConst(x) => enc_ExEndSetConst(x, c), KismetExpression::ExMapConst(x) => enc_ExMapConst(x, c), KismetExpression::ExEndMapConst(x) => enc_ExEndMapConst(x, c), KismetExpression::ExStructMemberContext(x) => enc_ExStructMemberContext(x, c), KismetExpression::ExLetMulticastDelegate(x) => enc_ExLetMulticastDelegate(x, c), KismetExpression::ExLetDelegate(x) => enc_ExLetDelegate(x, c), KismetExpression::ExLocalVirtualFunction(x) => enc_ExLocalVirtualFunction(x, c), KismetExpression::ExLocalFinalFunction(x) => enc_ExLocalFinalFunction(x, c), KismetExpression::ExLocalOutVariable(x) => enc_ExLocalOutVariable(x, c), KismetExpression::ExDeprecatedOp4A(x) => enc_ExDeprecatedOp4A(x, c), KismetExpression::ExInstanceDelegate(x) => enc_ExInstanceDelegate(x, c), KismetExpression::ExPushExecutionFlow(x) => enc_ExPushExecutionFlow(x, c), KismetExpression::ExPopExecutionFlow(x) => enc_ExPopExecutionFlow(x, c), KismetExpression::ExComputedJump(x) => enc_ExComputedJump(x, c), KismetExpression::ExPopExecutionFlowIfNot(x) => enc_ExPopExecutionFlowIfNot(x, c), KismetExpression::ExBreakpoint(x) => enc_ExBreakpoint(x, c), KismetExpression::ExInterfaceContext(x) => enc_ExInterfaceContext(x, c), KismetExpression::ExObjToInterfaceCast(x) => enc_ExObjToInterfaceCast(x, c), KismetExpression::ExEndOfScript(x) => enc_ExEndOfScript(x, c), KismetExpression::ExCrossInterfaceCast(x) => enc_ExCrossInterfaceCast(x, c), KismetExpression::ExInterfaceToObjCast(x) => enc_ExInterfaceToObjCast(x, c), KismetExpression::ExWireTracepoint(x) => enc_ExWireTracepoint(x, c), KismetExpression::ExSkipOffsetConst(x) => enc_ExSkipOffsetConst(x, c), KismetExpression::ExAddMulticastDelegate(x) => enc_ExAddMulticastDelegate(x, c), KismetExpression::ExClearMulticastDelegate(x) => enc_ExClearMulticastDelegate(x, c), KismetExpression::ExTracepoint(x) => enc_ExTracepoint(x, c), KismetExpression::ExLetObj(x) => enc_ExLetObj(x, c), KismetExpression::ExLetWeakObjPtr(x) => enc_ExLetWeakObjPtr(x, c), KismetExpression::ExBindDelegate(x) => enc_ExBindDelegate(x, c), KismetExpression::ExRemoveMulticastDelegate(x) => enc_ExRemoveMulticastDelegate(x, c), KismetExpression::ExCallMulticastDelegate(x) => enc_ExCallMulticastDelegate(x, c), KismetExpression::ExLetValueOnPersistentFrame(x) => enc_ExLetValueOnPersistentFrame(x, c), KismetExpression::ExArrayConst(x) => enc_ExArrayConst(x, c), KismetExpression::ExEndArrayConst(x) => enc_ExEndArrayConst(x, c), KismetExpression::ExSoftObjectConst(x) => enc_ExSoftObjectConst(x, c), KismetExpression::ExCallMath(x) => enc_ExCallMath(x, c), KismetExpression::ExSwitchValue(x) => enc_ExSwitchValue(x, c), KismetExpression::ExInstrumentationEvent(x) => enc_ExInstrumentationEvent(x, c), KismetExpression::ExArrayGetByRef(x) => enc_ExArrayGetByRef(x, c), KismetExpression::ExClassSparseDataVariable(x) => enc_ExClassSparseDataVariable(x, c), KismetExpression::ExFieldPathConst(x) => enc_ExFieldPathConst(x, c) } }
#[verifier::opaque]
pub open spec fn bsz(e: KismetExpression, c: Ctx) -> nat decreases e, 0int { match e { KismetExpression::ExLocalVariable(x) => sz_ExLocalVariable(x, c), KismetExpression::ExInstanceVariable(x) => sz_ExInstanceVariable(x, c), KismetExpression::ExDefaultVariable(x) => sz_ExDefaultVariable(x, c), KismetExpression::ExReturn(x) => sz_ExReturn(x, c), KismetExpression::ExJump(x) => sz_ExJump(x, c), KismetExpression::ExJumpIfNot(x) => sz_ExJumpIfNot(x, c), KismetExpression::ExAssert(x) => sz_ExAssert(x, c), KismetExpression::ExNothing(x) => sz_ExNothing(x, c), KismetExpression::ExLet(x) => sz_ExLet(x, c), KismetExpression::ExClassContext(x) => sz_ExClassContext(x, c), KismetExpression::ExMetaCast(x) => sz_ExMetaCast(x, c), KismetExpression::ExLetBool(x) => sz_ExLetBool(x, c), KismetExpression::ExEndParmValue(x) => sz_ExEndParmValue(x, c), KismetExpression::ExEndFunctionParms(x) => sz_ExEndFunctionParms(x, c), KismetExpression::ExSelf(x) => sz_ExSelf(x, c), KismetExpression::ExSkip(x) => sz_ExSkip(x, c), KismetExpression::ExContext(x) => sz_ExContext(x, c), KismetExpression::ExContextFailSilent(x) => sz_ExContextFailSilent(x, c), KismetExpression::ExVirtualFunction(x) => sz_ExVirtualFunction(x, c), KismetExpression::ExFinalFunction(x) => sz_ExFinalFunction(x, c), KismetExpression::ExIntConst(x) => sz_ExIntConst(x, c), KismetExpression::ExFloatConst(x) => sz_ExFloatConst(x, c), KismetExpression::ExStringConst(x) => sz_ExStringConst(x, c), KismetExpression::ExObjectConst(x) => sz_ExObjectConst(x, c), KismetExpression::ExNameConst(x) => sz_ExNameConst(x, c), KismetExpression::ExRotationConst(x) => sz_ExRotationConst(x, c), KismetExpression::ExVectorConst(x) => sz_ExVectorConst(x, c), KismetExpression::ExByteConst(x) => sz_ExByteConst(x, c), KismetExpression::ExIntZero(x) => sz_ExIntZero(x, c), KismetExpression::ExIntOne(x) => sz_ExIntOne(x, c), KismetExpression::ExTrue(x) => sz_ExTrue(x, c), KismetExpression::ExFalse(x) => sz_ExFalse(x, c), KismetExpression::ExTextConst(x) => sz_ExTextConst(x, c), KismetExpression::ExNoObject(x) => sz_ExNoObject(x, c), KismetExpression::ExTransformConst(x) => sz_ExTransformConst(x, c), KismetExpression::ExIntConstByte(x) => sz_ExIntConstByte(x, c), KismetExpression::ExNoInterface(x) => sz_ExNoInterface(x, c), KismetExpression::ExDynamicCast(x) => sz_ExDynamicCast(x, c), KismetExpression::ExStructConst(x) => sz_ExStructConst(x, c), KismetExpression::ExEndStructConst(x) => sz_ExEndStructConst(x, c), KismetExpression::ExSetArray(x) => sz_ExSetArray(x, c), KismetExpression::ExEndArray(x) => sz_ExEndArray(x, c), KismetExpression::ExPropertyConst(x) => sz_ExPropertyConst(x, c), KismetExpression::ExUnicodeStringConst(x) => sz_ExUnicodeStringConst(x, c), KismetExpression::ExInt64Const(x) => sz_ExInt64Const(x, c), KismetExpression::ExUInt64Const(x) => sz_ExUInt64Const(x, c), KismetExpression::ExDoubleConst(x) => sz_ExDoubleConst(x, c), KismetExpression::ExPrimitiveCast(x) => sz_ExPrimitiveCast(x, c), KismetExpression::ExSetSet(x) => sz_ExSetSet(x, c), KismetExpression::ExEndSet(x) => sz_ExEndSet(x, c), KismetExpression::ExSetMap(x) => sz_ExSetMap(x, c), KismetExpression::ExEndMap(x) => sz_ExEndMap(x, c), KismetExpression::ExSetConst(x) => sz_ExSetConst(x, c), KismetExpression::ExEndSetConst(x) => sz_ExEndSetConst(x, c), KismetExpression::ExMapConst(x) => sz_ExMapConst(x, c), KismetExpression::ExEndMapConst(x) => sz_ExEndMapConst(x, c), KismetExpression::ExStructMemberContext(x) => sz_ExStructMemberContext(x, c), KismetExpression::ExLetMulticastDelegate(x) => sz_ExLetMulticastDelegate(x, c), KismetExpression::ExLetDelegate(x) => sz_ExLetDelegate(x, c), KismetExpression::ExLocalVirtualFunction(x) => sz_ExLocalVirtualFunction(x, c), KismetExpression::ExLocalFinalFunction(x) => sz_ExLocalFinalFunction(x, c), KismetExpression::ExLocalOutVariable(x) => sz_ExLocalOutVariable(x, c), KismetExpression::ExDeprecatedOp4A(x) => sz_ExDeprecatedOp4A(x, c), KismetExpression::ExInstanceDelegate(x) => sz_ExInstanceDelegate(x, c), KismetExpression::ExPushExecutionFlow(x) => sz_ExPushExecutionFlow(x, c), KismetExpression::ExPopExecutionFlow(x) => sz_ExPopExecutionFlow(x, c), KismetExpression::ExComputedJump(x) => sz_ExComputedJump(x, c), KismetExpression::ExPopExecutionFlowIfNot(x) => sz_ExPopExecutionFlowIfNot(x, c), KismetExpression::ExBreakpoint(x) => sz_ExBreakpoint(x, c), KismetExpression::ExInterfaceContext(x) => sz_ExInterfaceContext(x, c), KismetExpression::ExObjToInterfaceCast(x) => sz_ExObjToInterfaceCast(x, c), KismetExpression::ExEndOfScript(x) => sz_ExEndOfScript(x, c), KismetExpression::ExCrossInterfaceCast(x) => sz_ExCrossInterfaceCast(x, c), KismetExpression::ExInterfaceToObjCast(x) => sz_ExInterfaceToObjCast(x, c), KismetExpression::ExWireTracepoint(x) => sz_ExWireTracepoint(x, c), KismetExpression::ExSkipOffsetConst(x) => sz_ExSkipOffsetConst(x, c), KismetExpression::ExAddMulticastDelegate(x) => sz_ExAddMulticastDelegate(x, c), KismetExpression::ExClearMulticastDelegate(x) => sz_ExClearMulticastDelegate(x, c), KismetExpression::ExTracepoint(x) => sz_ExTracepoint(x, c), KismetExpression::ExLetObj(x) => sz_ExLetObj(x, c), KismetExpression::ExLetWeakObjPtr(x) => sz_ExLetWeakObjPtr(x, c), KismetExpression::ExBindDelegate(x) => sz_ExBindDelegate(x, c), KismetExpression::ExRemoveMulticastDelegate(x) => sz_ExRemoveMulticastDelegate(x, c), KismetExpression::ExCallMulticastDelegate(x) => sz_ExCallMulticastDelegate(x, c), KismetExpression::ExLetValueOnPersistentFrame(x) => sz_ExLetValueOnPersistentFrame(x, c), KismetExpression::ExArrayConst(x) => sz_ExArrayConst(x, c), KismetExpression::ExEndArrayConst(x) => sz_ExEndArrayConst(x, c), KismetExpression::ExSoftObjectConst(x) => sz_ExSoftObjectConst(x, c), KismetExpression::ExCallMath(x) => sz_ExCallMath(x, c), KismetExpression::ExSwitchValue(x) => sz_ExSwitchValue(x, c), KismetExpression::ExInstrumentationEvent(x) => sz_ExInstrumentationEvent(x, c), KismetExpression::ExArrayGetByRef(x) => sz_ExArrayGetByRef(x, c), KismetExpression::ExClassSparseDataVariable(x) => sz_ExClassSparseDataVariable(x, c), KismetExpression::ExFieldPathConst(x) => sz_ExFieldPathConst(x, c) } }
pub open spec fn enc(e: KismetExpression, c: Ctx) -> Seq<Pat> decreases e, 1int { p8(EExprToken_n(token_of(e))) + body(e, c) }
pub open spec fn esz(e: KismetExpression, c: Ctx) -> nat decreases e, 1int { 1 + bsz(e, c) }
pub mod arms {
use super::*;
pub proof fn enc_body(e: KismetExpression, c: Ctx) ensures enc(e, c) == p8(EExprToken_n(token_of(e))) + body(e, c), esz(e, c) == 1 + bsz(e, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn b_ExLocalVariable(x: ExLocalVariable, c: Ctx) ensures #[trigger] body(KismetExpression::ExLocalVariable(x), c) == enc_ExLocalVariable(x, c) { reveal(body); }
pub broadcast proof fn e_ExLocalVariable(x: ExLocalVariable, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLocalVariable(x), c) == p8(EExprToken_n(x.token)) + enc_ExLocalVariable(x, c), esz(KismetExpression::ExLocalVariable(x), c) == 1 + sz_ExLocalVariable(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLocalVariable(x: ExLocalVariable, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLocalVariable(x), c) == 1 + sz_ExLocalVariable(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLocalVariable(x: ExLocalVariable, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLocalVariable(x), c) == sz_ExLocalVariable(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExInstanceVariable(x: ExInstanceVariable, c: Ctx) ensures #[trigger] body(KismetExpression::ExInstanceVariable(x), c) == enc_ExInstanceVariable(x, c) { reveal(body); }
pub broadcast proof fn e_ExInstanceVariable(x: ExInstanceVariable, c: Ctx) ensures #[trigger] enc(KismetExpression::ExInstanceVariable(x), c) == p8(EExprToken_n(x.token)) + enc_ExInstanceVariable(x, c), esz(KismetExpression::ExInstanceVariable(x), c) == 1 + sz_ExInstanceVariable(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExInstanceVariable(x: ExInstanceVariable, c: Ctx) ensures #[trigger] esz(KismetExpression::ExInstanceVariable(x), c) == 1 + sz_ExInstanceVariable(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExInstanceVariable(x: ExInstanceVariable, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExInstanceVariable(x), c) == sz_ExInstanceVariable(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExDefaultVariable(x: ExDefaultVariable, c: Ctx) ensures #[trigger] body(KismetExpression::ExDefaultVariable(x), c) == enc_ExDefaultVariable(x, c) { reveal(body); }
pub broadcast proof fn e_ExDefaultVariable(x: ExDefaultVariable, c: Ctx) ensures #[trigger] enc(KismetExpression::ExDefaultVariable(x), c) == p8(EExprToken_n(x.token)) + enc_ExDefaultVariable(x, c), esz(KismetExpression::ExDefaultVariable(x), c) == 1 + sz_ExDefaultVariable(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExDefaultVariable(x: ExDefaultVariable, c: Ctx) ensures #[trigger] esz(KismetExpression::ExDefaultVariable(x), c) == 1 + sz_ExDefaultVariable(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExDefaultVariable(x: ExDefaultVariable, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExDefaultVariable(x), c) == sz_ExDefaultVariable(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExReturn(x: ExReturn, c: Ctx) ensures #[trigger] body(KismetExpression::ExReturn(x), c) == enc_ExReturn(x, c) { reveal(body); }
pub broadcast proof fn e_ExReturn(x: ExReturn, c: Ctx) ensures #[trigger] enc(KismetExpression::ExReturn(x), c) == p8(EExprToken_n(x.token)) + enc_ExReturn(x, c), esz(KismetExpression::ExReturn(x), c) == 1 + sz_ExReturn(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExReturn(x: ExReturn, c: Ctx) ensures #[trigger] esz(KismetExpression::ExReturn(x), c) == 1 + sz_ExReturn(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExReturn(x: ExReturn, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExReturn(x), c) == sz_ExReturn(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExJump(x: ExJump, c: Ctx) ensures #[trigger] body(KismetExpression::ExJump(x), c) == enc_ExJump(x, c) { reveal(body); }
pub broadcast proof fn e_ExJump(x: ExJump, c: Ctx) ensures #[trigger] enc(KismetExpression::ExJump(x), c) == p8(EExprToken_n(x.token)) + enc_ExJump(x, c), esz(KismetExpression::ExJump(x), c) == 1 + sz_ExJump(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExJump(x: ExJump, c: Ctx) ensures #[trigger] esz(KismetExpression::ExJump(x), c) == 1 + sz_ExJump(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExJump(x: ExJump, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExJump(x), c) == sz_ExJump(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExJumpIfNot(x: ExJumpIfNot, c: Ctx) ensures #[trigger] body(KismetExpression::ExJumpIfNot(x), c) == enc_ExJumpIfNot(x, c) { reveal(body); }
pub broadcast proof fn e_ExJumpIfNot(x: ExJumpIfNot, c: Ctx) ensures #[trigger] enc(KismetExpression::ExJumpIfNot(x), c) == p8(EExprToken_n(x.token)) + enc_ExJumpIfNot(x, c), esz(KismetExpression::ExJumpIfNot(x), c) == 1 + sz_ExJumpIfNot(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExJumpIfNot(x: ExJumpIfNot, c: Ctx) ensures #[trigger] esz(KismetExpression::ExJumpIfNot(x), c) == 1 + sz_ExJumpIfNot(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExJumpIfNot(x: ExJumpIfNot, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExJumpIfNot(x), c) == sz_ExJumpIfNot(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExAssert(x: ExAssert, c: Ctx) ensures #[trigger] body(KismetExpression::ExAssert(x), c) == enc_ExAssert(x, c) { reveal(body); }
pub broadcast proof fn e_ExAssert(x: ExAssert, c: Ctx) ensures #[trigger] enc(KismetExpression::ExAssert(x), c) == p8(EExprToken_n(x.token)) + enc_ExAssert(x, c), esz(KismetExpression::ExAssert(x), c) == 1 + sz_ExAssert(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExAssert(x: ExAssert, c: Ctx) ensures #[trigger] esz(KismetExpression::ExAssert(x), c) == 1 + sz_ExAssert(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExAssert(x: ExAssert, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExAssert(x), c) == sz_ExAssert(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExNothing(x: ExNothing, c: Ctx) ensures #[trigger] body(KismetExpression::ExNothing(x), c) == enc_ExNothing(x, c) { reveal(body); }
pub broadcast proof fn e_ExNothing(x: ExNothing, c: Ctx) ensures #[trigger] enc(KismetExpression::ExNothing(x), c) == p8(EExprToken_n(x.token)) + enc_ExNothing(x, c), esz(KismetExpression::ExNothing(x), c) == 1 + sz_ExNothing(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExNothing(x: ExNothing, c: Ctx) ensures #[trigger] esz(KismetExpression::ExNothing(x), c) == 1 + sz_ExNothing(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExNothing(x: ExNothing, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExNothing(x), c) == sz_ExNothing(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLet(x: ExLet, c: Ctx) ensures #[trigger] body(KismetExpression::ExLet(x), c) == enc_ExLet(x, c) { reveal(body); }
pub broadcast proof fn e_ExLet(x: ExLet, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLet(x), c) == p8(EExprToken_n(x.token)) + enc_ExLet(x, c), esz(KismetExpression::ExLet(x), c) == 1 + sz_ExLet(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLet(x: ExLet, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLet(x), c) == 1 + sz_ExLet(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLet(x: ExLet, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLet(x), c) == sz_ExLet(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExClassContext(x: ExClassContext, c: Ctx) ensures #[trigger] body(KismetExpression::ExClassContext(x), c) == enc_ExClassContext(x, c) { reveal(body); }
pub broadcast proof fn e_ExClassContext(x: ExClassContext, c: Ctx) ensures #[trigger] enc(KismetExpression::ExClassContext(x), c) == p8(EExprToken_n(x.token)) + enc_ExClassContext(x, c), esz(KismetExpression::ExClassContext(x), c) == 1 + sz_ExClassContext(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExClassContext(x: ExClassContext, c: Ctx) ensures #[trigger] esz(KismetExpression::ExClassContext(x), c) == 1 + sz_ExClassContext(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExClassContext(x: ExClassContext, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExClassContext(x), c) == sz_ExClassContext(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExMetaCast(x: ExMetaCast, c: Ctx) ensures #[trigger] body(KismetExpression::ExMetaCast(x), c) == enc_ExMetaCast(x, c) { reveal(body); }
pub broadcast proof fn e_ExMetaCast(x: ExMetaCast, c: Ctx) ensures #[trigger] enc(KismetExpression::ExMetaCast(x), c) == p8(EExprToken_n(x.token)) + enc_ExMetaCast(x, c), esz(KismetExpression::ExMetaCast(x), c) == 1 + sz_ExMetaCast(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExMetaCast(x: ExMetaCast, c: Ctx) ensures #[trigger] esz(KismetExpression::ExMetaCast(x), c) == 1 + sz_ExMetaCast(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExMetaCast(x: ExMetaCast, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExMetaCast(x), c) == sz_ExMetaCast(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLetBool(x: ExLetBool, c: Ctx) ensures #[trigger] body(KismetExpression::ExLetBool(x), c) == enc_ExLetBool(x, c) { reveal(body); }
pub broadcast proof fn e_ExLetBool(x: ExLetBool, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLetBool(x), c) == p8(EExprToken_n(x.token)) + enc_ExLetBool(x, c), esz(KismetExpression::ExLetBool(x), c) == 1 + sz_ExLetBool(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLetBool(x: ExLetBool, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLetBool(x), c) == 1 + sz_ExLetBool(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLetBool(x: ExLetBool, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLetBool(x), c) == sz_ExLetBool(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndParmValue(x: ExEndParmValue, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndParmValue(x), c) == enc_ExEndParmValue(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndParmValue(x: ExEndParmValue, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndParmValue(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndParmValue(x, c), esz(KismetExpression::ExEndParmValue(x), c) == 1 + sz_ExEndParmValue(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndParmValue(x: ExEndParmValue, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndParmValue(x), c) == 1 + sz_ExEndParmValue(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndParmValue(x: ExEndParmValue, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndParmValue(x), c) == sz_ExEndParmValue(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndFunctionParms(x: ExEndFunctionParms, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndFunctionParms(x), c) == enc_ExEndFunctionParms(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndFunctionParms(x: ExEndFunctionParms, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndFunctionParms(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndFunctionParms(x, c), esz(KismetExpression::ExEndFunctionParms(x), c) == 1 + sz_ExEndFunctionParms(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndFunctionParms(x: ExEndFunctionParms, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndFunctionParms(x), c) == 1 + sz_ExEndFunctionParms(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndFunctionParms(x: ExEndFunctionParms, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndFunctionParms(x), c) == sz_ExEndFunctionParms(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSelf(x: ExSelf, c: Ctx) ensures #[trigger] body(KismetExpression::ExSelf(x), c) == enc_ExSelf(x, c) { reveal(body); }
pub broadcast proof fn e_ExSelf(x: ExSelf, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSelf(x), c) == p8(EExprToken_n(x.token)) + enc_ExSelf(x, c), esz(KismetExpression::ExSelf(x), c) == 1 + sz_ExSelf(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSelf(x: ExSelf, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSelf(x), c) == 1 + sz_ExSelf(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSelf(x: ExSelf, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSelf(x), c) == sz_ExSelf(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSkip(x: ExSkip, c: Ctx) ensures #[trigger] body(KismetExpression::ExSkip(x), c) == enc_ExSkip(x, c) { reveal(body); }
pub broadcast proof fn e_ExSkip(x: ExSkip, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSkip(x), c) == p8(EExprToken_n(x.token)) + enc_ExSkip(x, c), esz(KismetExpression::ExSkip(x), c) == 1 + sz_ExSkip(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSkip(x: ExSkip, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSkip(x), c) == 1 + sz_ExSkip(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSkip(x: ExSkip, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSkip(x), c) == sz_ExSkip(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExContext(x: ExContext, c: Ctx) ensures #[trigger] body(KismetExpression::ExContext(x), c) == enc_ExContext(x, c) { reveal(body); }
pub broadcast proof fn e_ExContext(x: ExContext, c: Ctx) ensures #[trigger] enc(KismetExpression::ExContext(x), c) == p8(EExprToken_n(x.token)) + enc_ExContext(x, c), esz(KismetExpression::ExContext(x), c) == 1 + sz_ExContext(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExContext(x: ExContext, c: Ctx) ensures #[trigger] esz(KismetExpression::ExContext(x), c) == 1 + sz_ExContext(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExContext(x: ExContext, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExContext(x), c) == sz_ExContext(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExContextFailSilent(x: ExContextFailSilent, c: Ctx) ensures #[trigger] body(KismetExpression::ExContextFailSilent(x), c) == enc_ExContextFailSilent(x, c) { reveal(body); }
pub broadcast proof fn e_ExContextFailSilent(x: ExContextFailSilent, c: Ctx) ensures #[trigger] enc(KismetExpression::ExContextFailSilent(x), c) == p8(EExprToken_n(x.token)) + enc_ExContextFailSilent(x, c), esz(KismetExpression::ExContextFailSilent(x), c) == 1 + sz_ExContextFailSilent(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExContextFailSilent(x: ExContextFailSilent, c: Ctx) ensures #[trigger] esz(KismetExpression::ExContextFailSilent(x), c) == 1 + sz_ExContextFailSilent(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExContextFailSilent(x: ExContextFailSilent, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExContextFailSilent(x), c) == sz_ExContextFailSilent(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExVirtualFunction(x: ExVirtualFunction, c: Ctx) ensures #[trigger] body(KismetExpression::ExVirtualFunction(x), c) == enc_ExVirtualFunction(x, c) { reveal(body); }
pub broadcast proof fn e_ExVirtualFunction(x: ExVirtualFunction, c: Ctx) ensures #[trigger] enc(KismetExpression::ExVirtualFunction(x), c) == p8(EExprToken_n(x.token)) + enc_ExVirtualFunction(x, c), esz(KismetExpression::ExVirtualFunction(x), c) == 1 + sz_ExVirtualFunction(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExVirtualFunction(x: ExVirtualFunction, c: Ctx) ensures #[trigger] esz(KismetExpression::ExVirtualFunction(x), c) == 1 + sz_ExVirtualFunction(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExVirtualFunction(x: ExVirtualFunction, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExVirtualFunction(x), c) == sz_ExVirtualFunction(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExFinalFunction(x: ExFinalFunction, c: Ctx) ensures #[trigger] body(KismetExpression::ExFinalFunction(x), c) == enc_ExFinalFunction(x, c) { reveal(body); }
pub broadcast proof fn e_ExFinalFunction(x: ExFinalFunction, c: Ctx) ensures #[trigger] enc(KismetExpression::ExFinalFunction(x), c) == p8(EExprToken_n(x.token)) + enc_ExFinalFunction(x, c), esz(KismetExpression::ExFinalFunction(x), c) == 1 + sz_ExFinalFunction(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExFinalFunction(x: ExFinalFunction, c: Ctx) ensures #[trigger] esz(KismetExpression::ExFinalFunction(x), c) == 1 + sz_ExFinalFunction(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExFinalFunction(x: ExFinalFunction, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExFinalFunction(x), c) == sz_ExFinalFunction(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExIntConst(x: ExIntConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExIntConst(x), c) == enc_ExIntConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExIntConst(x: ExIntConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExIntConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExIntConst(x, c), esz(KismetExpression::ExIntConst(x), c) == 1 + sz_ExIntConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExIntConst(x: ExIntConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExIntConst(x), c) == 1 + sz_ExIntConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExIntConst(x: ExIntConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExIntConst(x), c) == sz_ExIntConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExFloatConst(x: ExFloatConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExFloatConst(x), c) == enc_ExFloatConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExFloatConst(x: ExFloatConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExFloatConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExFloatConst(x, c), esz(KismetExpression::ExFloatConst(x), c) == 1 + sz_ExFloatConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExFloatConst(x: ExFloatConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExFloatConst(x), c) == 1 + sz_ExFloatConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExFloatConst(x: ExFloatConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExFloatConst(x), c) == sz_ExFloatConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExStringConst(x: ExStringConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExStringConst(x), c) == enc_ExStringConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExStringConst(x: ExStringConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExStringConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExStringConst(x, c), esz(KismetExpression::ExStringConst(x), c) == 1 + sz_ExStringConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExStringConst(x: ExStringConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExStringConst(x), c) == 1 + sz_ExStringConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExStringConst(x: ExStringConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExStringConst(x), c) == sz_ExStringConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExObjectConst(x: ExObjectConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExObjectConst(x), c) == enc_ExObjectConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExObjectConst(x: ExObjectConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExObjectConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExObjectConst(x, c), esz(KismetExpression::ExObjectConst(x), c) == 1 + sz_ExObjectConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExObjectConst(x: ExObjectConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExObjectConst(x), c) == 1 + sz_ExObjectConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExObjectConst(x: ExObjectConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExObjectConst(x), c) == sz_ExObjectConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExNameConst(x: ExNameConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExNameConst(x), c) == enc_ExNameConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExNameConst(x: ExNameConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExNameConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExNameConst(x, c), esz(KismetExpression::ExNameConst(x), c) == 1 + sz_ExNameConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExNameConst(x: ExNameConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExNameConst(x), c) == 1 + sz_ExNameConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExNameConst(x: ExNameConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExNameConst(x), c) == sz_ExNameConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExRotationConst(x: ExRotationConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExRotationConst(x), c) == enc_ExRotationConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExRotationConst(x: ExRotationConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExRotationConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExRotationConst(x, c), esz(KismetExpression::ExRotationConst(x), c) == 1 + sz_ExRotationConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExRotationConst(x: ExRotationConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExRotationConst(x), c) == 1 + sz_ExRotationConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExRotationConst(x: ExRotationConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExRotationConst(x), c) == sz_ExRotationConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExVectorConst(x: ExVectorConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExVectorConst(x), c) == enc_ExVectorConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExVectorConst(x: ExVectorConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExVectorConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExVectorConst(x, c), esz(KismetExpression::ExVectorConst(x), c) == 1 + sz_ExVectorConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExVectorConst(x: ExVectorConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExVectorConst(x), c) == 1 + sz_ExVectorConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExVectorConst(x: ExVectorConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExVectorConst(x), c) == sz_ExVectorConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExByteConst(x: ExByteConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExByteConst(x), c) == enc_ExByteConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExByteConst(x: ExByteConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExByteConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExByteConst(x, c), esz(KismetExpression::ExByteConst(x), c) == 1 + sz_ExByteConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExByteConst(x: ExByteConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExByteConst(x), c) == 1 + sz_ExByteConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExByteConst(x: ExByteConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExByteConst(x), c) == sz_ExByteConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExIntZero(x: ExIntZero, c: Ctx) ensures #[trigger] body(KismetExpression::ExIntZero(x), c) == enc_ExIntZero(x, c) { reveal(body); }
pub broadcast proof fn e_ExIntZero(x: ExIntZero, c: Ctx) ensures #[trigger] enc(KismetExpression::ExIntZero(x), c) == p8(EExprToken_n(x.token)) + enc_ExIntZero(x, c), esz(KismetExpression::ExIntZero(x), c) == 1 + sz_ExIntZero(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExIntZero(x: ExIntZero, c: Ctx) ensures #[trigger] esz(KismetExpression::ExIntZero(x), c) == 1 + sz_ExIntZero(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExIntZero(x: ExIntZero, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExIntZero(x), c) == sz_ExIntZero(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExIntOne(x: ExIntOne, c: Ctx) ensures #[trigger] body(KismetExpression::ExIntOne(x), c) == enc_ExIntOne(x, c) { reveal(body); }
pub broadcast proof fn e_ExIntOne(x: ExIntOne, c: Ctx) ensures #[trigger] enc(KismetExpression::ExIntOne(x), c) == p8(EExprToken_n(x.token)) + enc_ExIntOne(x, c), esz(KismetExpression::ExIntOne(x), c) == 1 + sz_ExIntOne(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExIntOne(x: ExIntOne, c: Ctx) ensures #[trigger] esz(KismetExpression::ExIntOne(x), c) == 1 + sz_ExIntOne(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExIntOne(x: ExIntOne, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExIntOne(x), c) == sz_ExIntOne(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExTrue(x: ExTrue, c: Ctx) ensures #[trigger] body(KismetExpression::ExTrue(x), c) == enc_ExTrue(x, c) { reveal(body); }
pub broadcast proof fn e_ExTrue(x: ExTrue, c: Ctx) ensures #[trigger] enc(KismetExpression::ExTrue(x), c) == p8(EExprToken_n(x.token)) + enc_ExTrue(x, c), esz(KismetExpression::ExTrue(x), c) == 1 + sz_ExTrue(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExTrue(x: ExTrue, c: Ctx) ensures #[trigger] esz(KismetExpression::ExTrue(x), c) == 1 + sz_ExTrue(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExTrue(x: ExTrue, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExTrue(x), c) == sz_ExTrue(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExFalse(x: ExFalse, c: Ctx) ensures #[trigger] body(KismetExpression::ExFalse(x), c) == enc_ExFalse(x, c) { reveal(body); }
pub broadcast proof fn e_ExFalse(x: ExFalse, c: Ctx) ensures #[trigger] enc(KismetExpression::ExFalse(x), c) == p8(EExprToken_n(x.token)) + enc_ExFalse(x, c), esz(KismetExpression::ExFalse(x), c) == 1 + sz_ExFalse(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExFalse(x: ExFalse, c: Ctx) ensures #[trigger] esz(KismetExpression::ExFalse(x), c) == 1 + sz_ExFalse(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExFalse(x: ExFalse, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExFalse(x), c) == sz_ExFalse(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExTextConst(x: ExTextConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExTextConst(x), c) == enc_ExTextConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExTextConst(x: ExTextConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExTextConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExTextConst(x, c), esz(KismetExpression::ExTextConst(x), c) == 1 + sz_ExTextConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExTextConst(x: ExTextConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExTextConst(x), c) == 1 + sz_ExTextConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExTextConst(x: ExTextConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExTextConst(x), c) == sz_ExTextConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExNoObject(x: ExNoObject, c: Ctx) ensures #[trigger] body(KismetExpression::ExNoObject(x), c) == enc_ExNoObject(x, c) { reveal(body); }
pub broadcast proof fn e_ExNoObject(x: ExNoObject, c: Ctx) ensures #[trigger] enc(KismetExpression::ExNoObject(x), c) == p8(EExprToken_n(x.token)) + enc_ExNoObject(x, c), esz(KismetExpression::ExNoObject(x), c) == 1 + sz_ExNoObject(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExNoObject(x: ExNoObject, c: Ctx) ensures #[trigger] esz(KismetExpression::ExNoObject(x), c) == 1 + sz_ExNoObject(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExNoObject(x: ExNoObject, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExNoObject(x), c) == sz_ExNoObject(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExTransformConst(x: ExTransformConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExTransformConst(x), c) == enc_ExTransformConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExTransformConst(x: ExTransformConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExTransformConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExTransformConst(x, c), esz(KismetExpression::ExTransformConst(x), c) == 1 + sz_ExTransformConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExTransformConst(x: ExTransformConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExTransformConst(x), c) == 1 + sz_ExTransformConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExTransformConst(x: ExTransformConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExTransformConst(x), c) == sz_ExTransformConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExIntConstByte(x: ExIntConstByte, c: Ctx) ensures #[trigger] body(KismetExpression::ExIntConstByte(x), c) == enc_ExIntConstByte(x, c) { reveal(body); }
pub broadcast proof fn e_ExIntConstByte(x: ExIntConstByte, c: Ctx) ensures #[trigger] enc(KismetExpression::ExIntConstByte(x), c) == p8(EExprToken_n(x.token)) + enc_ExIntConstByte(x, c), esz(KismetExpression::ExIntConstByte(x), c) == 1 + sz_ExIntConstByte(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExIntConstByte(x: ExIntConstByte, c: Ctx) ensures #[trigger] esz(KismetExpression::ExIntConstByte(x), c) == 1 + sz_ExIntConstByte(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExIntConstByte(x: ExIntConstByte, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExIntConstByte(x), c) == sz_ExIntConstByte(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExNoInterface(x: ExNoInterface, c: Ctx) ensures #[trigger] body(KismetExpression::ExNoInterface(x), c) == enc_ExNoInterface(x, c) { reveal(body); }
pub broadcast proof fn e_ExNoInterface(x: ExNoInterface, c: Ctx) ensures #[trigger] enc(KismetExpression::ExNoInterface(x), c) == p8(EExprToken_n(x.token)) + enc_ExNoInterface(x, c), esz(KismetExpression::ExNoInterface(x), c) == 1 + sz_ExNoInterface(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExNoInterface(x: ExNoInterface, c: Ctx) ensures #[trigger] esz(KismetExpression::ExNoInterface(x), c) == 1 + sz_ExNoInterface(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExNoInterface(x: ExNoInterface, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExNoInterface(x), c) == sz_ExNoInterface(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExDynamicCast(x: ExDynamicCast, c: Ctx) ensures #[trigger] body(KismetExpression::ExDynamicCast(x), c) == enc_ExDynamicCast(x, c) { reveal(body); }
pub broadcast proof fn e_ExDynamicCast(x: ExDynamicCast, c: Ctx) ensures #[trigger] enc(KismetExpression::ExDynamicCast(x), c) == p8(EExprToken_n(x.token)) + enc_ExDynamicCast(x, c), esz(KismetExpression::ExDynamicCast(x), c) == 1 + sz_ExDynamicCast(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExDynamicCast(x: ExDynamicCast, c: Ctx) ensures #[trigger] esz(KismetExpression::ExDynamicCast(x), c) == 1 + sz_ExDynamicCast(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExDynamicCast(x: ExDynamicCast, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExDynamicCast(x), c) == sz_ExDynamicCast(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExStructConst(x: ExStructConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExStructConst(x), c) == enc_ExStructConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExStructConst(x: ExStructConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExStructConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExStructConst(x, c), esz(KismetExpression::ExStructConst(x), c) == 1 + sz_ExStructConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExStructConst(x: ExStructConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExStructConst(x), c) == 1 + sz_ExStructConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExStructConst(x: ExStructConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExStructConst(x), c) == sz_ExStructConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndStructConst(x: ExEndStructConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndStructConst(x), c) == enc_ExEndStructConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndStructConst(x: ExEndStructConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndStructConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndStructConst(x, c), esz(KismetExpression::ExEndStructConst(x), c) == 1 + sz_ExEndStructConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndStructConst(x: ExEndStructConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndStructConst(x), c) == 1 + sz_ExEndStructConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndStructConst(x: ExEndStructConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndStructConst(x), c) == sz_ExEndStructConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSetArray(x: ExSetArray, c: Ctx) ensures #[trigger] body(KismetExpression::ExSetArray(x), c) == enc_ExSetArray(x, c) { reveal(body); }
pub broadcast proof fn e_ExSetArray(x: ExSetArray, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSetArray(x), c) == p8(EExprToken_n(x.token)) + enc_ExSetArray(x, c), esz(KismetExpression::ExSetArray(x), c) == 1 + sz_ExSetArray(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSetArray(x: ExSetArray, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSetArray(x), c) == 1 + sz_ExSetArray(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSetArray(x: ExSetArray, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSetArray(x), c) == sz_ExSetArray(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndArray(x: ExEndArray, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndArray(x), c) == enc_ExEndArray(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndArray(x: ExEndArray, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndArray(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndArray(x, c), esz(KismetExpression::ExEndArray(x), c) == 1 + sz_ExEndArray(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndArray(x: ExEndArray, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndArray(x), c) == 1 + sz_ExEndArray(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndArray(x: ExEndArray, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndArray(x), c) == sz_ExEndArray(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExPropertyConst(x: ExPropertyConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExPropertyConst(x), c) == enc_ExPropertyConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExPropertyConst(x: ExPropertyConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExPropertyConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExPropertyConst(x, c), esz(KismetExpression::ExPropertyConst(x), c) == 1 + sz_ExPropertyConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExPropertyConst(x: ExPropertyConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExPropertyConst(x), c) == 1 + sz_ExPropertyConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExPropertyConst(x: ExPropertyConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExPropertyConst(x), c) == sz_ExPropertyConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExUnicodeStringConst(x: ExUnicodeStringConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExUnicodeStringConst(x), c) == enc_ExUnicodeStringConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExUnicodeStringConst(x: ExUnicodeStringConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExUnicodeStringConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExUnicodeStringConst(x, c), esz(KismetExpression::ExUnicodeStringConst(x), c) == 1 + sz_ExUnicodeStringConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExUnicodeStringConst(x: ExUnicodeStringConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExUnicodeStringConst(x), c) == 1 + sz_ExUnicodeStringConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExUnicodeStringConst(x: ExUnicodeStringConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExUnicodeStringConst(x), c) == sz_ExUnicodeStringConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExInt64Const(x: ExInt64Const, c: Ctx) ensures #[trigger] body(KismetExpression::ExInt64Const(x), c) == enc_ExInt64Const(x, c) { reveal(body); }
pub broadcast proof fn e_ExInt64Const(x: ExInt64Const, c: Ctx) ensures #[trigger] enc(KismetExpression::ExInt64Const(x), c) == p8(EExprToken_n(x.token)) + enc_ExInt64Const(x, c), esz(KismetExpression::ExInt64Const(x), c) == 1 + sz_ExInt64Const(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExInt64Const(x: ExInt64Const, c: Ctx) ensures #[trigger] esz(KismetExpression::ExInt64Const(x), c) == 1 + sz_ExInt64Const(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExInt64Const(x: ExInt64Const, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExInt64Const(x), c) == sz_ExInt64Const(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExUInt64Const(x: ExUInt64Const, c: Ctx) ensures #[trigger] body(KismetExpression::ExUInt64Const(x), c) == enc_ExUInt64Const(x, c) { reveal(body); }
pub broadcast proof fn e_ExUInt64Const(x: ExUInt64Const, c: Ctx) ensures #[trigger] enc(KismetExpression::ExUInt64Const(x), c) == p8(EExprToken_n(x.token)) + enc_ExUInt64Const(x, c), esz(KismetExpression::ExUInt64Const(x), c) == 1 + sz_ExUInt64Const(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExUInt64Const(x: ExUInt64Const, c: Ctx) ensures #[trigger] esz(KismetExpression::ExUInt64Const(x), c) == 1 + sz_ExUInt64Const(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExUInt64Const(x: ExUInt64Const, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExUInt64Const(x), c) == sz_ExUInt64Const(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExDoubleConst(x: ExDoubleConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExDoubleConst(x), c) == enc_ExDoubleConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExDoubleConst(x: ExDoubleConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExDoubleConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExDoubleConst(x, c), esz(KismetExpression::ExDoubleConst(x), c) == 1 + sz_ExDoubleConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExDoubleConst(x: ExDoubleConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExDoubleConst(x), c) == 1 + sz_ExDoubleConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExDoubleConst(x: ExDoubleConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExDoubleConst(x), c) == sz_ExDoubleConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExPrimitiveCast(x: ExPrimitiveCast, c: Ctx) ensures #[trigger] body(KismetExpression::ExPrimitiveCast(x), c) == enc_ExPrimitiveCast(x, c) { reveal(body); }
pub broadcast proof fn e_ExPrimitiveCast(x: ExPrimitiveCast, c: Ctx) ensures #[trigger] enc(KismetExpression::ExPrimitiveCast(x), c) == p8(EExprToken_n(x.token)) + enc_ExPrimitiveCast(x, c), esz(KismetExpression::ExPrimitiveCast(x), c) == 1 + sz_ExPrimitiveCast(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExPrimitiveCast(x: ExPrimitiveCast, c: Ctx) ensures #[trigger] esz(KismetExpression::ExPrimitiveCast(x), c) == 1 + sz_ExPrimitiveCast(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExPrimitiveCast(x: ExPrimitiveCast, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExPrimitiveCast(x), c) == sz_ExPrimitiveCast(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSetSet(x: ExSetSet, c: Ctx) ensures #[trigger] body(KismetExpression::ExSetSet(x), c) == enc_ExSetSet(x, c) { reveal(body); }
pub broadcast proof fn e_ExSetSet(x: ExSetSet, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSetSet(x), c) == p8(EExprToken_n(x.token)) + enc_ExSetSet(x, c), esz(KismetExpression::ExSetSet(x), c) == 1 + sz_ExSetSet(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSetSet(x: ExSetSet, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSetSet(x), c) == 1 + sz_ExSetSet(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSetSet(x: ExSetSet, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSetSet(x), c) == sz_ExSetSet(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndSet(x: ExEndSet, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndSet(x), c) == enc_ExEndSet(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndSet(x: ExEndSet, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndSet(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndSet(x, c), esz(KismetExpression::ExEndSet(x), c) == 1 + sz_ExEndSet(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndSet(x: ExEndSet, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndSet(x), c) == 1 + sz_ExEndSet(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndSet(x: ExEndSet, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndSet(x), c) == sz_ExEndSet(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSetMap(x: ExSetMap, c: Ctx) ensures #[trigger] body(KismetExpression::ExSetMap(x), c) == enc_ExSetMap(x, c) { reveal(body); }
pub broadcast proof fn e_ExSetMap(x: ExSetMap, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSetMap(x), c) == p8(EExprToken_n(x.token)) + enc_ExSetMap(x, c), esz(KismetExpression::ExSetMap(x), c) == 1 + sz_ExSetMap(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSetMap(x: ExSetMap, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSetMap(x), c) == 1 + sz_ExSetMap(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSetMap(x: ExSetMap, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSetMap(x), c) == sz_ExSetMap(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndMap(x: ExEndMap, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndMap(x), c) == enc_ExEndMap(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndMap(x: ExEndMap, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndMap(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndMap(x, c), esz(KismetExpression::ExEndMap(x), c) == 1 + sz_ExEndMap(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndMap(x: ExEndMap, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndMap(x), c) == 1 + sz_ExEndMap(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndMap(x: ExEndMap, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndMap(x), c) == sz_ExEndMap(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSetConst(x: ExSetConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExSetConst(x), c) == enc_ExSetConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExSetConst(x: ExSetConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSetConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExSetConst(x, c), esz(KismetExpression::ExSetConst(x), c) == 1 + sz_ExSetConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSetConst(x: ExSetConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSetConst(x), c) == 1 + sz_ExSetConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSetConst(x: ExSetConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSetConst(x), c) == sz_ExSetConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndSetConst(x: ExEndSetConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndSetConst(x), c) == enc_ExEndSetConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndSetConst(x: ExEndSetConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndSetConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndSetConst(x, c), esz(KismetExpression::ExEndSetConst(x), c) == 1 + sz_ExEndSetConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndSetConst(x: ExEndSetConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndSetConst(x), c) == 1 + sz_ExEndSetConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndSetConst(x: ExEndSetConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndSetConst(x), c) == sz_ExEndSetConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExMapConst(x: ExMapConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExMapConst(x), c) == enc_ExMapConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExMapConst(x: ExMapConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExMapConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExMapConst(x, c), esz(KismetExpression::ExMapConst(x), c) == 1 + sz_ExMapConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExMapConst(x: ExMapConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExMapConst(x), c) == 1 + sz_ExMapConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExMapConst(x: ExMapConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExMapConst(x), c) == sz_ExMapConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndMapConst(x: ExEndMapConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndMapConst(x), c) == enc_ExEndMapConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndMapConst(x: ExEndMapConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndMapConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndMapConst(x, c), esz(KismetExpression::ExEndMapConst(x), c) == 1 + sz_ExEndMapConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndMapConst(x: ExEndMapConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndMapConst(x), c) == 1 + sz_ExEndMapConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndMapConst(x: ExEndMapConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndMapConst(x), c) == sz_ExEndMapConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExStructMemberContext(x: ExStructMemberContext, c: Ctx) ensures #[trigger] body(KismetExpression::ExStructMemberContext(x), c) == enc_ExStructMemberContext(x, c) { reveal(body); }
pub broadcast proof fn e_ExStructMemberContext(x: ExStructMemberContext, c: Ctx) ensures #[trigger] enc(KismetExpression::ExStructMemberContext(x), c) == p8(EExprToken_n(x.token)) + enc_ExStructMemberContext(x, c), esz(KismetExpression::ExStructMemberContext(x), c) == 1 + sz_ExStructMemberContext(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExStructMemberContext(x: ExStructMemberContext, c: Ctx) ensures #[trigger] esz(KismetExpression::ExStructMemberContext(x), c) == 1 + sz_ExStructMemberContext(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExStructMemberContext(x: ExStructMemberContext, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExStructMemberContext(x), c) == sz_ExStructMemberContext(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLetMulticastDelegate(x: ExLetMulticastDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExLetMulticastDelegate(x), c) == enc_ExLetMulticastDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExLetMulticastDelegate(x: ExLetMulticastDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLetMulticastDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExLetMulticastDelegate(x, c), esz(KismetExpression::ExLetMulticastDelegate(x), c) == 1 + sz_ExLetMulticastDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLetMulticastDelegate(x: ExLetMulticastDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLetMulticastDelegate(x), c) == 1 + sz_ExLetMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLetMulticastDelegate(x: ExLetMulticastDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLetMulticastDelegate(x), c) == sz_ExLetMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLetDelegate(x: ExLetDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExLetDelegate(x), c) == enc_ExLetDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExLetDelegate(x: ExLetDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLetDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExLetDelegate(x, c), esz(KismetExpression::ExLetDelegate(x), c) == 1 + sz_ExLetDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLetDelegate(x: ExLetDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLetDelegate(x), c) == 1 + sz_ExLetDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLetDelegate(x: ExLetDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLetDelegate(x), c) == sz_ExLetDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLocalVirtualFunction(x: ExLocalVirtualFunction, c: Ctx) ensures #[trigger] body(KismetExpression::ExLocalVirtualFunction(x), c) == enc_ExLocalVirtualFunction(x, c) { reveal(body); }
pub broadcast proof fn e_ExLocalVirtualFunction(x: ExLocalVirtualFunction, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLocalVirtualFunction(x), c) == p8(EExprToken_n(x.token)) + enc_ExLocalVirtualFunction(x, c), esz(KismetExpression::ExLocalVirtualFunction(x), c) == 1 + sz_ExLocalVirtualFunction(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLocalVirtualFunction(x: ExLocalVirtualFunction, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLocalVirtualFunction(x), c) == 1 + sz_ExLocalVirtualFunction(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLocalVirtualFunction(x: ExLocalVirtualFunction, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLocalVirtualFunction(x), c) == sz_ExLocalVirtualFunction(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLocalFinalFunction(x: ExLocalFinalFunction, c: Ctx) ensures #[trigger] body(KismetExpression::ExLocalFinalFunction(x), c) == enc_ExLocalFinalFunction(x, c) { reveal(body); }
pub broadcast proof fn e_ExLocalFinalFunction(x: ExLocalFinalFunction, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLocalFinalFunction(x), c) == p8(EExprToken_n(x.token)) + enc_ExLocalFinalFunction(x, c), esz(KismetExpression::ExLocalFinalFunction(x), c) == 1 + sz_ExLocalFinalFunction(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLocalFinalFunction(x: ExLocalFinalFunction, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLocalFinalFunction(x), c) == 1 + sz_ExLocalFinalFunction(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLocalFinalFunction(x: ExLocalFinalFunction, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLocalFinalFunction(x), c) == sz_ExLocalFinalFunction(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLocalOutVariable(x: ExLocalOutVariable, c: Ctx) ensures #[trigger] body(KismetExpression::ExLocalOutVariable(x), c) == enc_ExLocalOutVariable(x, c) { reveal(body); }
pub broadcast proof fn e_ExLocalOutVariable(x: ExLocalOutVariable, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLocalOutVariable(x), c) == p8(EExprToken_n(x.token)) + enc_ExLocalOutVariable(x, c), esz(KismetExpression::ExLocalOutVariable(x), c) == 1 + sz_ExLocalOutVariable(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLocalOutVariable(x: ExLocalOutVariable, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLocalOutVariable(x), c) == 1 + sz_ExLocalOutVariable(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLocalOutVariable(x: ExLocalOutVariable, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLocalOutVariable(x), c) == sz_ExLocalOutVariable(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExDeprecatedOp4A(x: ExDeprecatedOp4A, c: Ctx) ensures #[trigger] body(KismetExpression::ExDeprecatedOp4A(x), c) == enc_ExDeprecatedOp4A(x, c) { reveal(body); }
pub broadcast proof fn e_ExDeprecatedOp4A(x: ExDeprecatedOp4A, c: Ctx) ensures #[trigger] enc(KismetExpression::ExDeprecatedOp4A(x), c) == p8(EExprToken_n(x.token)) + enc_ExDeprecatedOp4A(x, c), esz(KismetExpression::ExDeprecatedOp4A(x), c) == 1 + sz_ExDeprecatedOp4A(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExDeprecatedOp4A(x: ExDeprecatedOp4A, c: Ctx) ensures #[trigger] esz(KismetExpression::ExDeprecatedOp4A(x), c) == 1 + sz_ExDeprecatedOp4A(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExDeprecatedOp4A(x: ExDeprecatedOp4A, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExDeprecatedOp4A(x), c) == sz_ExDeprecatedOp4A(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExInstanceDelegate(x: ExInstanceDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExInstanceDelegate(x), c) == enc_ExInstanceDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExInstanceDelegate(x: ExInstanceDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExInstanceDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExInstanceDelegate(x, c), esz(KismetExpression::ExInstanceDelegate(x), c) == 1 + sz_ExInstanceDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExInstanceDelegate(x: ExInstanceDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExInstanceDelegate(x), c) == 1 + sz_ExInstanceDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExInstanceDelegate(x: ExInstanceDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExInstanceDelegate(x), c) == sz_ExInstanceDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExPushExecutionFlow(x: ExPushExecutionFlow, c: Ctx) ensures #[trigger] body(KismetExpression::ExPushExecutionFlow(x), c) == enc_ExPushExecutionFlow(x, c) { reveal(body); }
pub broadcast proof fn e_ExPushExecutionFlow(x: ExPushExecutionFlow, c: Ctx) ensures #[trigger] enc(KismetExpression::ExPushExecutionFlow(x), c) == p8(EExprToken_n(x.token)) + enc_ExPushExecutionFlow(x, c), esz(KismetExpression::ExPushExecutionFlow(x), c) == 1 + sz_ExPushExecutionFlow(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExPushExecutionFlow(x: ExPushExecutionFlow, c: Ctx) ensures #[trigger] esz(KismetExpression::ExPushExecutionFlow(x), c) == 1 + sz_ExPushExecutionFlow(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExPushExecutionFlow(x: ExPushExecutionFlow, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExPushExecutionFlow(x), c) == sz_ExPushExecutionFlow(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExPopExecutionFlow(x: ExPopExecutionFlow, c: Ctx) ensures #[trigger] body(KismetExpression::ExPopExecutionFlow(x), c) == enc_ExPopExecutionFlow(x, c) { reveal(body); }
pub broadcast proof fn e_ExPopExecutionFlow(x: ExPopExecutionFlow, c: Ctx) ensures #[trigger] enc(KismetExpression::ExPopExecutionFlow(x), c) == p8(EExprToken_n(x.token)) + enc_ExPopExecutionFlow(x, c), esz(KismetExpression::ExPopExecutionFlow(x), c) == 1 + sz_ExPopExecutionFlow(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExPopExecutionFlow(x: ExPopExecutionFlow, c: Ctx) ensures #[trigger] esz(KismetExpression::ExPopExecutionFlow(x), c) == 1 + sz_ExPopExecutionFlow(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExPopExecutionFlow(x: ExPopExecutionFlow, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExPopExecutionFlow(x), c) == sz_ExPopExecutionFlow(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExComputedJump(x: ExComputedJump, c: Ctx) ensures #[trigger] body(KismetExpression::ExComputedJump(x), c) == enc_ExComputedJump(x, c) { reveal(body); }
pub broadcast proof fn e_ExComputedJump(x: ExComputedJump, c: Ctx) ensures #[trigger] enc(KismetExpression::ExComputedJump(x), c) == p8(EExprToken_n(x.token)) + enc_ExComputedJump(x, c), esz(KismetExpression::ExComputedJump(x), c) == 1 + sz_ExComputedJump(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExComputedJump(x: ExComputedJump, c: Ctx) ensures #[trigger] esz(KismetExpression::ExComputedJump(x), c) == 1 + sz_ExComputedJump(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExComputedJump(x: ExComputedJump, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExComputedJump(x), c) == sz_ExComputedJump(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExPopExecutionFlowIfNot(x: ExPopExecutionFlowIfNot, c: Ctx) ensures #[trigger] body(KismetExpression::ExPopExecutionFlowIfNot(x), c) == enc_ExPopExecutionFlowIfNot(x, c) { reveal(body); }
pub broadcast proof fn e_ExPopExecutionFlowIfNot(x: ExPopExecutionFlowIfNot, c: Ctx) ensures #[trigger] enc(KismetExpression::ExPopExecutionFlowIfNot(x), c) == p8(EExprToken_n(x.token)) + enc_ExPopExecutionFlowIfNot(x, c), esz(KismetExpression::ExPopExecutionFlowIfNot(x), c) == 1 + sz_ExPopExecutionFlowIfNot(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExPopExecutionFlowIfNot(x: ExPopExecutionFlowIfNot, c: Ctx) ensures #[trigger] esz(KismetExpression::ExPopExecutionFlowIfNot(x), c) == 1 + sz_ExPopExecutionFlowIfNot(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExPopExecutionFlowIfNot(x: ExPopExecutionFlowIfNot, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExPopExecutionFlowIfNot(x), c) == sz_ExPopExecutionFlowIfNot(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExBreakpoint(x: ExBreakpoint, c: Ctx) ensures #[trigger] body(KismetExpression::ExBreakpoint(x), c) == enc_ExBreakpoint(x, c) { reveal(body); }
pub broadcast proof fn e_ExBreakpoint(x: ExBreakpoint, c: Ctx) ensures #[trigger] enc(KismetExpression::ExBreakpoint(x), c) == p8(EExprToken_n(x.token)) + enc_ExBreakpoint(x, c), esz(KismetExpression::ExBreakpoint(x), c) == 1 + sz_ExBreakpoint(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExBreakpoint(x: ExBreakpoint, c: Ctx) ensures #[trigger] esz(KismetExpression::ExBreakpoint(x), c) == 1 + sz_ExBreakpoint(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExBreakpoint(x: ExBreakpoint, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExBreakpoint(x), c) == sz_ExBreakpoint(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExInterfaceContext(x: ExInterfaceContext, c: Ctx) ensures #[trigger] body(KismetExpression::ExInterfaceContext(x), c) == enc_ExInterfaceContext(x, c) { reveal(body); }
pub broadcast proof fn e_ExInterfaceContext(x: ExInterfaceContext, c: Ctx) ensures #[trigger] enc(KismetExpression::ExInterfaceContext(x), c) == p8(EExprToken_n(x.token)) + enc_ExInterfaceContext(x, c), esz(KismetExpression::ExInterfaceContext(x), c) == 1 + sz_ExInterfaceContext(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExInterfaceContext(x: ExInterfaceContext, c: Ctx) ensures #[trigger] esz(KismetExpression::ExInterfaceContext(x), c) == 1 + sz_ExInterfaceContext(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExInterfaceContext(x: ExInterfaceContext, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExInterfaceContext(x), c) == sz_ExInterfaceContext(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExObjToInterfaceCast(x: ExObjToInterfaceCast, c: Ctx) ensures #[trigger] body(KismetExpression::ExObjToInterfaceCast(x), c) == enc_ExObjToInterfaceCast(x, c) { reveal(body); }
pub broadcast proof fn e_ExObjToInterfaceCast(x: ExObjToInterfaceCast, c: Ctx) ensures #[trigger] enc(KismetExpression::ExObjToInterfaceCast(x), c) == p8(EExprToken_n(x.token)) + enc_ExObjToInterfaceCast(x, c), esz(KismetExpression::ExObjToInterfaceCast(x), c) == 1 + sz_ExObjToInterfaceCast(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExObjToInterfaceCast(x: ExObjToInterfaceCast, c: Ctx) ensures #[trigger] esz(KismetExpression::ExObjToInterfaceCast(x), c) == 1 + sz_ExObjToInterfaceCast(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExObjToInterfaceCast(x: ExObjToInterfaceCast, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExObjToInterfaceCast(x), c) == sz_ExObjToInterfaceCast(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndOfScript(x: ExEndOfScript, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndOfScript(x), c) == enc_ExEndOfScript(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndOfScript(x: ExEndOfScript, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndOfScript(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndOfScript(x, c), esz(KismetExpression::ExEndOfScript(x), c) == 1 + sz_ExEndOfScript(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndOfScript(x: ExEndOfScript, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndOfScript(x), c) == 1 + sz_ExEndOfScript(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndOfScript(x: ExEndOfScript, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndOfScript(x), c) == sz_ExEndOfScript(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExCrossInterfaceCast(x: ExCrossInterfaceCast, c: Ctx) ensures #[trigger] body(KismetExpression::ExCrossInterfaceCast(x), c) == enc_ExCrossInterfaceCast(x, c) { reveal(body); }
pub broadcast proof fn e_ExCrossInterfaceCast(x: ExCrossInterfaceCast, c: Ctx) ensures #[trigger] enc(KismetExpression::ExCrossInterfaceCast(x), c) == p8(EExprToken_n(x.token)) + enc_ExCrossInterfaceCast(x, c), esz(KismetExpression::ExCrossInterfaceCast(x), c) == 1 + sz_ExCrossInterfaceCast(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExCrossInterfaceCast(x: ExCrossInterfaceCast, c: Ctx) ensures #[trigger] esz(KismetExpression::ExCrossInterfaceCast(x), c) == 1 + sz_ExCrossInterfaceCast(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExCrossInterfaceCast(x: ExCrossInterfaceCast, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExCrossInterfaceCast(x), c) == sz_ExCrossInterfaceCast(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExInterfaceToObjCast(x: ExInterfaceToObjCast, c: Ctx) ensures #[trigger] body(KismetExpression::ExInterfaceToObjCast(x), c) == enc_ExInterfaceToObjCast(x, c) { reveal(body); }
pub broadcast proof fn e_ExInterfaceToObjCast(x: ExInterfaceToObjCast, c: Ctx) ensures #[trigger] enc(KismetExpression::ExInterfaceToObjCast(x), c) == p8(EExprToken_n(x.token)) + enc_ExInterfaceToObjCast(x, c), esz(KismetExpression::ExInterfaceToObjCast(x), c) == 1 + sz_ExInterfaceToObjCast(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExInterfaceToObjCast(x: ExInterfaceToObjCast, c: Ctx) ensures #[trigger] esz(KismetExpression::ExInterfaceToObjCast(x), c) == 1 + sz_ExInterfaceToObjCast(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExInterfaceToObjCast(x: ExInterfaceToObjCast, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExInterfaceToObjCast(x), c) == sz_ExInterfaceToObjCast(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExWireTracepoint(x: ExWireTracepoint, c: Ctx) ensures #[trigger] body(KismetExpression::ExWireTracepoint(x), c) == enc_ExWireTracepoint(x, c) { reveal(body); }
pub broadcast proof fn e_ExWireTracepoint(x: ExWireTracepoint, c: Ctx) ensures #[trigger] enc(KismetExpression::ExWireTracepoint(x), c) == p8(EExprToken_n(x.token)) + enc_ExWireTracepoint(x, c), esz(KismetExpression::ExWireTracepoint(x), c) == 1 + sz_ExWireTracepoint(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExWireTracepoint(x: ExWireTracepoint, c: Ctx) ensures #[trigger] esz(KismetExpression::ExWireTracepoint(x), c) == 1 + sz_ExWireTracepoint(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExWireTracepoint(x: ExWireTracepoint, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExWireTracepoint(x), c) == sz_ExWireTracepoint(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSkipOffsetConst(x: ExSkipOffsetConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExSkipOffsetConst(x), c) == enc_ExSkipOffsetConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExSkipOffsetConst(x: ExSkipOffsetConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSkipOffsetConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExSkipOffsetConst(x, c), esz(KismetExpression::ExSkipOffsetConst(x), c) == 1 + sz_ExSkipOffsetConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSkipOffsetConst(x: ExSkipOffsetConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSkipOffsetConst(x), c) == 1 + sz_ExSkipOffsetConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSkipOffsetConst(x: ExSkipOffsetConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSkipOffsetConst(x), c) == sz_ExSkipOffsetConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExAddMulticastDelegate(x: ExAddMulticastDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExAddMulticastDelegate(x), c) == enc_ExAddMulticastDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExAddMulticastDelegate(x: ExAddMulticastDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExAddMulticastDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExAddMulticastDelegate(x, c), esz(KismetExpression::ExAddMulticastDelegate(x), c) == 1 + sz_ExAddMulticastDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExAddMulticastDelegate(x: ExAddMulticastDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExAddMulticastDelegate(x), c) == 1 + sz_ExAddMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExAddMulticastDelegate(x: ExAddMulticastDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExAddMulticastDelegate(x), c) == sz_ExAddMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExClearMulticastDelegate(x: ExClearMulticastDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExClearMulticastDelegate(x), c) == enc_ExClearMulticastDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExClearMulticastDelegate(x: ExClearMulticastDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExClearMulticastDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExClearMulticastDelegate(x, c), esz(KismetExpression::ExClearMulticastDelegate(x), c) == 1 + sz_ExClearMulticastDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExClearMulticastDelegate(x: ExClearMulticastDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExClearMulticastDelegate(x), c) == 1 + sz_ExClearMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExClearMulticastDelegate(x: ExClearMulticastDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExClearMulticastDelegate(x), c) == sz_ExClearMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExTracepoint(x: ExTracepoint, c: Ctx) ensures #[trigger] body(KismetExpression::ExTracepoint(x), c) == enc_ExTracepoint(x, c) { reveal(body); }
pub broadcast proof fn e_ExTracepoint(x: ExTracepoint, c: Ctx) ensures #[trigger] enc(KismetExpression::ExTracepoint(x), c) == p8(EExprToken_n(x.token)) + enc_ExTracepoint(x, c), esz(KismetExpression::ExTracepoint(x), c) == 1 + sz_ExTracepoint(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExTracepoint(x: ExTracepoint, c: Ctx) ensures #[trigger] esz(KismetExpression::ExTracepoint(x), c) == 1 + sz_ExTracepoint(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExTracepoint(x: ExTracepoint, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExTracepoint(x), c) == sz_ExTracepoint(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLetObj(x: ExLetObj, c: Ctx) ensures #[trigger] body(KismetExpression::ExLetObj(x), c) == enc_ExLetObj(x, c) { reveal(body); }
pub broadcast proof fn e_ExLetObj(x: ExLetObj, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLetObj(x), c) == p8(EExprToken_n(x.token)) + enc_ExLetObj(x, c), esz(KismetExpression::ExLetObj(x), c) == 1 + sz_ExLetObj(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLetObj(x: ExLetObj, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLetObj(x), c) == 1 + sz_ExLetObj(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLetObj(x: ExLetObj, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLetObj(x), c) == sz_ExLetObj(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLetWeakObjPtr(x: ExLetWeakObjPtr, c: Ctx) ensures #[trigger] body(KismetExpression::ExLetWeakObjPtr(x), c) == enc_ExLetWeakObjPtr(x, c) { reveal(body); }
pub broadcast proof fn e_ExLetWeakObjPtr(x: ExLetWeakObjPtr, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLetWeakObjPtr(x), c) == p8(EExprToken_n(x.token)) + enc_ExLetWeakObjPtr(x, c), esz(KismetExpression::ExLetWeakObjPtr(x), c) == 1 + sz_ExLetWeakObjPtr(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLetWeakObjPtr(x: ExLetWeakObjPtr, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLetWeakObjPtr(x), c) == 1 + sz_ExLetWeakObjPtr(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLetWeakObjPtr(x: ExLetWeakObjPtr, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLetWeakObjPtr(x), c) == sz_ExLetWeakObjPtr(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExBindDelegate(x: ExBindDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExBindDelegate(x), c) == enc_ExBindDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExBindDelegate(x: ExBindDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExBindDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExBindDelegate(x, c), esz(KismetExpression::ExBindDelegate(x), c) == 1 + sz_ExBindDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExBindDelegate(x: ExBindDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExBindDelegate(x), c) == 1 + sz_ExBindDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExBindDelegate(x: ExBindDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExBindDelegate(x), c) == sz_ExBindDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExRemoveMulticastDelegate(x: ExRemoveMulticastDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExRemoveMulticastDelegate(x), c) == enc_ExRemoveMulticastDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExRemoveMulticastDelegate(x: ExRemoveMulticastDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExRemoveMulticastDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExRemoveMulticastDelegate(x, c), esz(KismetExpression::ExRemoveMulticastDelegate(x), c) == 1 + sz_ExRemoveMulticastDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExRemoveMulticastDelegate(x: ExRemoveMulticastDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExRemoveMulticastDelegate(x), c) == 1 + sz_ExRemoveMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExRemoveMulticastDelegate(x: ExRemoveMulticastDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExRemoveMulticastDelegate(x), c) == sz_ExRemoveMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExCallMulticastDelegate(x: ExCallMulticastDelegate, c: Ctx) ensures #[trigger] body(KismetExpression::ExCallMulticastDelegate(x), c) == enc_ExCallMulticastDelegate(x, c) { reveal(body); }
pub broadcast proof fn e_ExCallMulticastDelegate(x: ExCallMulticastDelegate, c: Ctx) ensures #[trigger] enc(KismetExpression::ExCallMulticastDelegate(x), c) == p8(EExprToken_n(x.token)) + enc_ExCallMulticastDelegate(x, c), esz(KismetExpression::ExCallMulticastDelegate(x), c) == 1 + sz_ExCallMulticastDelegate(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExCallMulticastDelegate(x: ExCallMulticastDelegate, c: Ctx) ensures #[trigger] esz(KismetExpression::ExCallMulticastDelegate(x), c) == 1 + sz_ExCallMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExCallMulticastDelegate(x: ExCallMulticastDelegate, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExCallMulticastDelegate(x), c) == sz_ExCallMulticastDelegate(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExLetValueOnPersistentFrame(x: ExLetValueOnPersistentFrame, c: Ctx) ensures #[trigger] body(KismetExpression::ExLetValueOnPersistentFrame(x), c) == enc_ExLetValueOnPersistentFrame(x, c) { reveal(body); }
pub broadcast proof fn e_ExLetValueOnPersistentFrame(x: ExLetValueOnPersistentFrame, c: Ctx) ensures #[trigger] enc(KismetExpression::ExLetValueOnPersistentFrame(x), c) == p8(EExprToken_n(x.token)) + enc_ExLetValueOnPersistentFrame(x, c), esz(KismetExpression::ExLetValueOnPersistentFrame(x), c) == 1 + sz_ExLetValueOnPersistentFrame(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExLetValueOnPersistentFrame(x: ExLetValueOnPersistentFrame, c: Ctx) ensures #[trigger] esz(KismetExpression::ExLetValueOnPersistentFrame(x), c) == 1 + sz_ExLetValueOnPersistentFrame(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExLetValueOnPersistentFrame(x: ExLetValueOnPersistentFrame, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExLetValueOnPersistentFrame(x), c) == sz_ExLetValueOnPersistentFrame(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExArrayConst(x: ExArrayConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExArrayConst(x), c) == enc_ExArrayConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExArrayConst(x: ExArrayConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExArrayConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExArrayConst(x, c), esz(KismetExpression::ExArrayConst(x), c) == 1 + sz_ExArrayConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExArrayConst(x: ExArrayConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExArrayConst(x), c) == 1 + sz_ExArrayConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExArrayConst(x: ExArrayConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExArrayConst(x), c) == sz_ExArrayConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExEndArrayConst(x: ExEndArrayConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExEndArrayConst(x), c) == enc_ExEndArrayConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExEndArrayConst(x: ExEndArrayConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExEndArrayConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExEndArrayConst(x, c), esz(KismetExpression::ExEndArrayConst(x), c) == 1 + sz_ExEndArrayConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExEndArrayConst(x: ExEndArrayConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExEndArrayConst(x), c) == 1 + sz_ExEndArrayConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExEndArrayConst(x: ExEndArrayConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExEndArrayConst(x), c) == sz_ExEndArrayConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSoftObjectConst(x: ExSoftObjectConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExSoftObjectConst(x), c) == enc_ExSoftObjectConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExSoftObjectConst(x: ExSoftObjectConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSoftObjectConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExSoftObjectConst(x, c), esz(KismetExpression::ExSoftObjectConst(x), c) == 1 + sz_ExSoftObjectConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSoftObjectConst(x: ExSoftObjectConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSoftObjectConst(x), c) == 1 + sz_ExSoftObjectConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSoftObjectConst(x: ExSoftObjectConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSoftObjectConst(x), c) == sz_ExSoftObjectConst(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExCallMath(x: ExCallMath, c: Ctx) ensures #[trigger] body(KismetExpression::ExCallMath(x), c) == enc_ExCallMath(x, c) { reveal(body); }
pub broadcast proof fn e_ExCallMath(x: ExCallMath, c: Ctx) ensures #[trigger] enc(KismetExpression::ExCallMath(x), c) == p8(EExprToken_n(x.token)) + enc_ExCallMath(x, c), esz(KismetExpression::ExCallMath(x), c) == 1 + sz_ExCallMath(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExCallMath(x: ExCallMath, c: Ctx) ensures #[trigger] esz(KismetExpression::ExCallMath(x), c) == 1 + sz_ExCallMath(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExCallMath(x: ExCallMath, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExCallMath(x), c) == sz_ExCallMath(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExSwitchValue(x: ExSwitchValue, c: Ctx) ensures #[trigger] body(KismetExpression::ExSwitchValue(x), c) == enc_ExSwitchValue(x, c) { reveal(body); }
pub broadcast proof fn e_ExSwitchValue(x: ExSwitchValue, c: Ctx) ensures #[trigger] enc(KismetExpression::ExSwitchValue(x), c) == p8(EExprToken_n(x.token)) + enc_ExSwitchValue(x, c), esz(KismetExpression::ExSwitchValue(x), c) == 1 + sz_ExSwitchValue(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExSwitchValue(x: ExSwitchValue, c: Ctx) ensures #[trigger] esz(KismetExpression::ExSwitchValue(x), c) == 1 + sz_ExSwitchValue(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExSwitchValue(x: ExSwitchValue, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExSwitchValue(x), c) == sz_ExSwitchValue(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) ensures #[trigger] body(KismetExpression::ExInstrumentationEvent(x), c) == enc_ExInstrumentationEvent(x, c) { reveal(body); }
pub broadcast proof fn e_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) ensures #[trigger] enc(KismetExpression::ExInstrumentationEvent(x), c) == p8(EExprToken_n(x.token)) + enc_ExInstrumentationEvent(x, c), esz(KismetExpression::ExInstrumentationEvent(x), c) == 1 + sz_ExInstrumentationEvent(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) ensures #[trigger] esz(KismetExpression::ExInstrumentationEvent(x), c) == 1 + sz_ExInstrumentationEvent(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExInstrumentationEvent(x), c) == sz_ExInstrumentationEvent(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExArrayGetByRef(x: ExArrayGetByRef, c: Ctx) ensures #[trigger] body(KismetExpression::ExArrayGetByRef(x), c) == enc_ExArrayGetByRef(x, c) { reveal(body); }
pub broadcast proof fn e_ExArrayGetByRef(x: ExArrayGetByRef, c: Ctx) ensures #[trigger] enc(KismetExpression::ExArrayGetByRef(x), c) == p8(EExprToken_n(x.token)) + enc_ExArrayGetByRef(x, c), esz(KismetExpression::ExArrayGetByRef(x), c) == 1 + sz_ExArrayGetByRef(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExArrayGetByRef(x: ExArrayGetByRef, c: Ctx) ensures #[trigger] esz(KismetExpression::ExArrayGetByRef(x), c) == 1 + sz_ExArrayGetByRef(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExArrayGetByRef(x: ExArrayGetByRef, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExArrayGetByRef(x), c) == sz_ExArrayGetByRef(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExClassSparseDataVariable(x: ExClassSparseDataVariable, c: Ctx) ensures #[trigger] body(KismetExpression::ExClassSparseDataVariable(x), c) == enc_ExClassSparseDataVariable(x, c) { reveal(body); }
pub broadcast proof fn e_ExClassSparseDataVariable(x: ExClassSparseDataVariable, c: Ctx) ensures #[trigger] enc(KismetExpression::ExClassSparseDataVariable(x), c) == p8(EExprToken_n(x.token)) + enc_ExClassSparseDataVariable(x, c), esz(KismetExpression::ExClassSparseDataVariable(x), c) == 1 + sz_ExClassSparseDataVariable(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExClassSparseDataVariable(x: ExClassSparseDataVariable, c: Ctx) ensures #[trigger] esz(KismetExpression::ExClassSparseDataVariable(x), c) == 1 + sz_ExClassSparseDataVariable(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExClassSparseDataVariable(x: ExClassSparseDataVariable, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExClassSparseDataVariable(x), c) == sz_ExClassSparseDataVariable(x, c) { reveal(bsz); }
pub broadcast proof fn b_ExFieldPathConst(x: ExFieldPathConst, c: Ctx) ensures #[trigger] body(KismetExpression::ExFieldPathConst(x), c) == enc_ExFieldPathConst(x, c) { reveal(body); }
pub broadcast proof fn e_ExFieldPathConst(x: ExFieldPathConst, c: Ctx) ensures #[trigger] enc(KismetExpression::ExFieldPathConst(x), c) == p8(EExprToken_n(x.token)) + enc_ExFieldPathConst(x, c), esz(KismetExpression::ExFieldPathConst(x), c) == 1 + sz_ExFieldPathConst(x, c) { reveal(body); reveal(bsz); }
pub broadcast proof fn z_ExFieldPathConst(x: ExFieldPathConst, c: Ctx) ensures #[trigger] esz(KismetExpression::ExFieldPathConst(x), c) == 1 + sz_ExFieldPathConst(x, c) { reveal(bsz); }
pub broadcast proof fn s_ExFieldPathConst(x: ExFieldPathConst, c: Ctx) ensures #[trigger] bsz(KismetExpression::ExFieldPathConst(x), c) == sz_ExFieldPathConst(x, c) { reveal(bsz); }
pub broadcast group group_arms { e_ExLocalVariable, e_ExInstanceVariable, e_ExDefaultVariable, e_ExReturn, e_ExJump, e_ExJumpIfNot, e_ExAssert, e_ExNothing, e_ExLet, e_ExClassContext, e_ExMetaCast, e_ExLetBool, e_ExEndParmValue, e_ExEndFunctionParms, e_ExSelf, e_ExSkip, e_ExContext, e_ExContextFailSilent, e_ExVirtualFunction, e_ExFinalFunction, e_ExIntConst, e_ExFloatConst, e_ExStringConst, e_ExObjectConst, e_ExNameConst, e_ExRotationConst, e_ExVectorConst, e_ExByteConst, e_ExIntZero, e_ExIntOne, e_ExTrue, e_ExFalse, e_ExTextConst, e_ExNoObject, e_ExTransformConst, e_ExIntConstByte, e_ExNoInterface, e_ExDynamicCast, e_ExStructConst, e_ExEndStructConst, e_ExSetArray, e_ExEndArray, e_ExPropertyConst, e_ExUnicodeStringConst, e_ExInt64Const, e_ExUInt64Const, e_ExDoubleConst, e_ExPrimitiveCast, e_ExSetSet, e_ExEndSet, e_ExSetMap, e_ExEndMap, e_ExSetConst, e_ExEndSetConst, e_ExMapConst, e_ExEndMapConst, e_ExStructMemberContext, e_ExLetMulticastDelegate, e_ExLetDelegate, e_ExLocalVirtualFunction, e_ExLocalFinalFunction, e_ExLocalOutVariable, e_ExDeprecatedOp4A, e_ExInstanceDelegate, e_ExPushExecutionFlow, e_ExPopExecutionFlow, e_ExComputedJump, e_ExPopExecutionFlowIfNot, e_ExBreakpoint, e_ExInterfaceContext, e_ExObjToInterfaceCast, e_ExEndOfScript, e_ExCrossInterfaceCast, e_ExInterfaceToObjCast, e_ExWireTracepoint, e_ExSkipOffsetConst, e_ExAddMulticastDelegate, e_ExClearMulticastDelegate, e_ExTracepoint, e_ExLetObj, e_ExLetWeakObjPtr, e_ExBindDelegate, e_ExRemoveMulticastDelegate, e_ExCallMulticastDelegate, e_ExLetValueOnPersistentFrame, e_ExArrayConst, e_ExEndArrayConst, e_ExSoftObjectConst, e_ExCallMath, e_ExSwitchValue, e_ExInstrumentationEvent, e_ExArrayGetByRef, e_ExClassSparseDataVariable, e_ExFieldPathConst }
}
// ---- the numbers of the format ----
proof fn tokens0() ensures EExprToken_n(EExprToken::ExLocalVariable) == 0, EExprToken_n(EExprToken::ExInstanceVariable) == 1, EExprToken_n(EExprToken::ExDefaultVariable) == 2, EExprToken_n(EExprToken::ExReturn) == 4, EExprToken_n(EExprToken::ExJump) == 6, EExprToken_n(EExprToken::ExJumpIfNot) == 7, EExprToken_n(EExprToken::ExAssert) == 9, EExprToken_n(EExprToken::ExNothing) == 11, EExprToken_n(EExprToken::ExLet) == 15, EExprToken_n(EExprToken::ExClassContext) == 18 {}
proof fn tokens1() ensures EExprToken_n(EExprToken::ExMetaCast) == 19, EExprToken_n(EExprToken::ExLetBool) == 20, EExprToken_n(EExprToken::ExEndParmValue) == 21, EExprToken_n(EExprToken::ExEndFunctionParms) == 22, EExprToken_n(EExprToken::ExSelf) == 23, EExprToken_n(EExprToken::ExSkip) == 24, EExprToken_n(EExprToken::ExContext) == 25, EExprToken_n(EExprToken::ExContextFailSilent) == 26, EExprToken_n(EExprToken::ExVirtualFunction) == 27, EExprToken_n(EExprToken::ExFinalFunction) == 28 {}
proof fn tokens2() ensures EExprToken_n(EExprToken::ExIntConst) == 29, EExprToken_n(EExprToken::ExFloatConst) == 30, EExprToken_n(EExprToken::ExStringConst) == 31, EExprToken_n(EExprToken::ExObjectConst) == 32, EExprToken_n(EExprToken::ExNameConst) == 33, EExprToken_n(EExprToken::ExRotationConst) == 34, EExprToken_n(EExprToken::ExVectorConst) == 35, EExprToken_n(EExprToken::ExByteConst) == 36, EExprToken_n(EExprToken::ExIntZero) == 37, EExprToken_n(EExprToken::ExIntOne) == 38 {}
proof fn tokens3() ensures EExprToken_n(EExprToken::ExTrue) == 39, EExprToken_n(EExprToken::ExFalse) == 40, EExprToken_n(EExprToken::ExTextConst) == 41, EExprToken_n(EExprToken::ExNoObject) == 42, EExprToken_n(EExprToken::ExTransformConst) == 43, EExprToken_n(EExprToken::ExIntConstByte) == 44, EExprToken_n(EExprToken::ExNoInterface) == 45, EExprToken_n(EExprToken::ExDynamicCast) == 46, EExprToken_n(EExprToken::ExStructConst) == 47, EExprToken_n(EExprToken::ExEndStructConst) == 48 {}
proof fn tokens4() ensures EExprToken_n(EExprToken::ExSetArray) == 49, EExprToken_n(EExprToken::ExEndArray) == 50, EExprToken_n(EExprToken::ExPropertyConst) == 51, EExprToken_n(EExprToken::ExUnicodeStringConst) == 52, EExprToken_n(EExprToken::ExInt64Const) == 53, EExprToken_n(EExprToken::ExUInt64Const) == 54, EExprToken_n(EExprToken::ExDoubleConst) == 55, EExprToken_n(EExprToken::ExPrimitiveCast) == 56, EExprToken_n(EExprToken::ExSetSet) == 57, EExprToken_n(EExprToken::ExEndSet) == 58 {}
proof fn tokens5() ensures EExprToken_n(EExprToken::ExSetMap) == 59, EExprToken_n(EExprToken::ExEndMap) == 60, EExprToken_n(EExprToken::ExSetConst) == 61, EExprToken_n(EExprToken::ExEndSetConst) == 62, EExprToken_n(EExprToken::ExMapConst) == 63, EExprToken_n(EExprToken::ExEndMapConst) == 64, EExprToken_n(EExprToken::ExStructMemberContext) == 66, EExprToken_n(EExprToken::ExLetMulticastDelegate) == 67, EExprToken_n(EExprToken::ExLetDelegate) == 68, EExprToken_n(EExprToken::ExLocalVirtualFunction) == 69 {}
proof fn tokens6() ensures EExprToken_n(EExprToken::ExLocalFinalFunction) == 70, EExprToken_n(EExprToken::ExLocalOutVariable) == 72, EExprToken_n(EExprToken::ExDeprecatedOp4A) == 74, EExprToken_n(EExprToken::ExInstanceDelegate) == 75, EExprToken_n(EExprToken::ExPushExecutionFlow) == 76, EExprToken_n(EExprToken::ExPopExecutionFlow) == 77, EExprToken_n(EExprToken::ExComputedJump) == 78, EExprToken_n(EExprToken::ExPopExecutionFlowIfNot) == 79, EExprToken_n(EExprToken::ExBreakpoint) == 80, EExprToken_n(EExprToken::ExInterfaceContext) == 81 {}
proof fn tokens7() ensures EExprToken_n(EExprToken::ExObjToInterfaceCast) == 82, EExprToken_n(EExprToken::ExEndOfScript) == 83, EExprToken_n(EExprToken::ExCrossInterfaceCast) == 84, EExprToken_n(EExprToken::ExInterfaceToObjCast) == 85, EExprToken_n(EExprToken::ExWireTracepoint) == 90, EExprToken_n(EExprToken::ExSkipOffsetConst) == 91, EExprToken_n(EExprToken::ExAddMulticastDelegate) == 92, EExprToken_n(EExprToken::ExClearMulticastDelegate) == 93, EExprToken_n(EExprToken::ExTracepoint) == 94, EExprToken_n(EExprToken::ExLetObj) == 95 {}
proof fn tokens8() ensures EExprToken_n(EExprToken::ExLetWeakObjPtr) == 96, EExprToken_n(EExprToken::ExBindDelegate) == 97, EExprToken_n(EExprToken::ExRemoveMulticastDelegate) == 98, EExprToken_n(EExprToken::ExCallMulticastDelegate) == 99, EExprToken_n(EExprToken::ExLetValueOnPersistentFrame) == 100, EExprToken_n(EExprToken::ExArrayConst) == 101, EExprToken_n(EExprToken::ExEndArrayConst) == 102, EExprToken_n(EExprToken::ExSoftObjectConst) == 103, EExprToken_n(EExprToken::ExCallMath) == 104, EExprToken_n(EExprToken::ExSwitchValue) == 105 {}
proof fn tokens9() ensures EExprToken_n(EExprToken::ExInstrumentationEvent) == 106, EExprToken_n(EExprToken::ExArrayGetByRef) == 107, EExprToken_n(EExprToken::ExClassSparseDataVariable) == 108, EExprToken_n(EExprToken::ExFieldPathConst) == 109 {}
proof fn numbers_OldCastToken() ensures OldCastToken_n(OldCastToken::ObjectToInterface) == 70, OldCastToken_n(OldCastToken::ObjectToBool) == 71, OldCastToken_n(OldCastToken::InterfaceToBool) == 73, OldCastToken_n(OldCastToken::Max) == 255 {}
proof fn numbers_NewCastToken() ensures NewCastToken_n(NewCastToken::ObjectToInterface) == 0, NewCastToken_n(NewCastToken::ObjectToBool) == 1, NewCastToken_n(NewCastToken::InterfaceToBool) == 2, NewCastToken_n(NewCastToken::DoubleToFloat) == 3, NewCastToken_n(NewCastToken::DoubleToFloatArray) == 4, NewCastToken_n(NewCastToken::DoubleToFloatSet) == 5, NewCastToken_n(NewCastToken::FloatToDouble) == 6, NewCastToken_n(NewCastToken::FloatToDoubleArray) == 7, NewCastToken_n(NewCastToken::FloatToDoubleSet) == 8, NewCastToken_n(NewCastToken::VectorToVector3f) == 9, NewCastToken_n(NewCastToken::Vector3fToVector) == 10, NewCastToken_n(NewCastToken::FloatToDoubleKeysMap) == 11, NewCastToken_n(NewCastToken::DoubleToFloatKeysMap) == 12, NewCastToken_n(NewCastToken::FloatToDoubleValuesMap) == 13, NewCastToken_n(NewCastToken::DoubleToFloatValuesMap) == 14, NewCastToken_n(NewCastToken::FloatToDoubleKeysFloatToDoubleValuesMap) == 15, NewCastToken_n(NewCastToken::DoubleToFloatKeysFloatToDoubleValuesMap) == 16, NewCastToken_n(NewCastToken::DoubleToFloatKeysDoubleToFloatValuesMap) == 17, NewCastToken_n(NewCastToken::FloatToDoubleKeysDoubleToFloatValuesMap) == 18, NewCastToken_n(NewCastToken::Max) == 255 {}
proof fn numbers_EScriptInstrumentationType() ensures EScriptInstrumentationType_n(EScriptInstrumentationType::Class) == 0, EScriptInstrumentationType_n(EScriptInstrumentationType::ClassScope) == 1, EScriptInstrumentationType_n(EScriptInstrumentationType::Instance) == 2, EScriptInstrumentationType_n(EScriptInstrumentationType::Event) == 3, EScriptInstrumentationType_n(EScriptInstrumentationType::InlineEvent) == 4, EScriptInstrumentationType_n(EScriptInstrumentationType::ResumeEvent) == 5, EScriptInstrumentationType_n(EScriptInstrumentationType::PureNodeEntry) == 6, EScriptInstrumentationType_n(EScriptInstrumentationType::NodeDebugSite) == 7, EScriptInstrumentationType_n(EScriptInstrumentationType::NodeEntry) == 8, EScriptInstrumentationType_n(EScriptInstrumentationType::NodeExit) == 9, EScriptInstrumentationType_n(EScriptInstrumentationType::PushState) == 10, EScriptInstrumentationType_n(EScriptInstrumentationType::RestoreState) == 11, EScriptInstrumentationType_n(EScriptInstrumentationType::ResetState) == 12, EScriptInstrumentationType_n(EScriptInstrumentationType::SuspendState) == 13, EScriptInstrumentationType_n(EScriptInstrumentationType::PopState) == 14, EScriptInstrumentationType_n(EScriptInstrumentationType::TunnelEndOfThread) == 15, EScriptInstrumentationType_n(EScriptInstrumentationType::Stop) == 16 {}
proof fn numbers_EBlueprintTextLiteralType() ensures EBlueprintTextLiteralType_n(EBlueprintTextLiteralType::Empty) == 0, EBlueprintTextLiteralType_n(EBlueprintTextLiteralType::LocalizedText) == 1, EBlueprintTextLiteralType_n(EBlueprintTextLiteralType::InvariantText) == 2, EBlueprintTextLiteralType_n(EBlueprintTextLiteralType::LiteralString) == 3, EBlueprintTextLiteralType_n(EBlueprintTextLiteralType::StringTableEntry) == 4 {}

pub open spec fn is_end(t: EExprToken) -> bool { t == EExprToken::ExNothing || t == EExprToken::ExEndParmValue || t == EExprToken::ExEndFunctionParms || t == EExprToken::ExSelf || t == EExprToken::ExIntZero || t == EExprToken::ExIntOne || t == EExprToken::ExTrue || t == EExprToken::ExFalse || t == EExprToken::ExNoObject || t == EExprToken::ExNoInterface || t == EExprToken::ExEndStructConst || t == EExprToken::ExEndArray || t == EExprToken::ExEndSet || t == EExprToken::ExEndMap || t == EExprToken::ExEndSetConst || t == EExprToken::ExEndMapConst || t == EExprToken::ExDeprecatedOp4A || t == EExprToken::ExPopExecutionFlow || t == EExprToken::ExBreakpoint || t == EExprToken::ExEndOfScript || t == EExprToken::ExWireTracepoint || t == EExprToken::ExTracepoint || t == EExprToken::ExEndArrayConst }
proof fn end_enc(e: KismetExpression, c: Ctx)
    requires is_end(token_of(e)), kind(e) == token_of(e),
    ensures enc(e, c) == p8(EExprToken_n(token_of(e))),
{ reveal(body); reveal(enc_ExNothing); reveal(enc_ExEndParmValue); reveal(enc_ExEndFunctionParms); reveal(enc_ExSelf); reveal(enc_ExIntZero); reveal(enc_ExIntOne); reveal(enc_ExTrue); reveal(enc_ExFalse); reveal(enc_ExNoObject); reveal(enc_ExNoInterface); reveal(enc_ExEndStructConst); reveal(enc_ExEndArray); reveal(enc_ExEndSet); reveal(enc_ExEndMap); reveal(enc_ExEndSetConst); reveal(enc_ExEndMapConst); reveal(enc_ExDeprecatedOp4A); reveal(enc_ExPopExecutionFlow); reveal(enc_ExBreakpoint); reveal(enc_ExEndOfScript); reveal(enc_ExWireTracepoint); reveal(enc_ExTracepoint); reveal(enc_ExEndArrayConst); assert(body(e, c) == Seq::<Pat>::empty()); }
proof fn encv_same(a: Vec<KismetExpression>, b: Vec<KismetExpression>, n: nat, c: Ctx)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures encv(a, n, c) == encv(b, n, c),
    decreases n,
{ if n > 0 { encv_same(a, b, (n - 1) as nat, c); } }
proof fn cases_same(a: Vec<KismetSwitchCase>, b: Vec<KismetSwitchCase>, n: nat, c: Ctx)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures enc_cases(a, n, c) == enc_cases(b, n, c),
    decreases n,
{ if n > 0 { cases_same(a, b, (n - 1) as nat, c); } }
proof fn names_same(a: Vec<FName>, b: Vec<FName>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures enc_names(a, n) == enc_names(b, n),
    decreases n,
{ if n > 0 { names_same(a, b, (n - 1) as nat); } }
proof fn szv_mono(v: Vec<KismetExpression>, m: nat, n: nat, c: Ctx)
    requires m <= n <= v.len(),
    ensures szv(v, m, c) <= szv(v, n, c),
    decreases n,
{ if m < n { szv_mono(v, m, (n - 1) as nat, c); } }
proof fn cases_mono(v: Vec<KismetSwitchCase>, m: nat, n: nat, c: Ctx)
    requires m <= n <= v.len(),
    ensures sz_cases(v, m, c) <= sz_cases(v, n, c),
    decreases n,
{ if m < n { cases_mono(v, m, (n - 1) as nat, c); } }
// ---------------------------------------------------------------- the code

//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetPropertyPointer from_old params=old
    ensures r.old == Some(old), r.new is None,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetPropertyPointer from_new params=new
    ensures r.new == Some(new), r.old is None,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs FieldPath new params=path,resolved_owner
    ensures r.path == path, r.resolved_owner == resolved_owner,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetSwitchCase new params=case_index_value_term,next_offset,case_term
    ensures r.case_index_value_term == case_index_value_term, r.next_offset == next_offset, r.case_term == case_term,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs - read_kismet_string params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pblob(utf8(r->Ok_0@)) + p8(0)),
//@ at pre-loop 0
    proof { rdc_nil(asset); assert(pblob(data@) =~= Seq::empty()) by { reveal(pblob); } }
//@ loop 0
    invariant_except_break rdc(old(asset), asset, pblob(data@)),
    ensures rd(old(asset), asset, pblob(data@) + p8(0)),
//@ at loop-start 0
    let ghost d0 = data@;
//@ at loop-end 0
    proof { assert(pblob(d0) + p8(read) =~= pblob(data@)) by { reveal(pblob); reveal(p8); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs - write_kismet_string params=string,asset
    requires utf8(string@).len() + 1 <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pblob(utf8(string@)) + p8(0)) && r->Ok_0 == utf8(string@).len() + 1,
//@ at body-start
    proof { assert forall|s: Seq<u8>| s.len() == 1 && s[0] == 0 implies #[trigger] pblob(s) == p8(0) by { reveal(pblob); reveal(p8); assert(s =~= seq![0u8]); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs - read_kismet_unicode_string params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), (pblob(le16s(utf16(r->Ok_0@))) + p8(0)) + p8(0)),
//@ at pre-loop 0
    proof { rdc_nil(asset); assert(pblob(le16s(data@)) =~= Seq::empty()) by { reveal(pblob); } }
//@ loop 0
    invariant_except_break rdc(old(asset), asset, pblob(le16s(data@))),
    ensures rd(old(asset), asset, (pblob(le16s(data@)) + p8(0)) + p8(0)),
//@ at loop-start 0
    let ghost d0 = data@;
//@ at loop-end 0
    ;
    proof {
        let v = ((b2 as u16) << 8) | b1 as u16;
        assert((v & 0xff) as u8 == b1 && ((v >> 8) & 0xff) as u8 == b2) by (bit_vector) requires v == ((b2 as u16) << 8) | b1 as u16;
        assert((pblob(le16s(d0)) + p8(b1)) + p8(b2) =~= pblob(le16s(data@))) by {
            reveal(pblob); reveal(p8);
            assert(data@ == d0.push(v));
            assert forall|i: int| 0 <= i < 2 * d0.len() implies le16s(data@)[i] == le16s(d0)[i] by { assert(data@[i / 2] == d0[i / 2]); }
        }
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs - write_kismet_unicode_string params=string,asset
    requires 2 * utf16(string@).len() + 2 <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), (pblob(le16s(utf16(string@))) + p8(0)) + p8(0)) && r->Ok_0 == 2 * utf16(string@).len() + 2,
//@ at body-start
    proof {
        assert forall|s: Seq<u8>| s.len() == 2 && s[0] == 0 && s[1] == 0 implies #[trigger] pblob(s) == p8(0) + p8(0) by { reveal(pblob); reveal(p8); assert(lit(s) =~= lit(seq![0u8]) + lit(seq![0u8])); }
        pat_assoc(pblob(le16s(utf16(string@))), p8(0), p8(0));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetPropertyPointer new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_pp(r->Ok_0, rc(old(asset)))),
//@ at pre-loop 0
    let ghost cnt = num_entries;
    proof { assert((num_entries as usize) as i32 == num_entries) by (bit_vector); }
//@ loop 0 it=it
    invariant names.len() == it.index(), it.seq().len() == num_entries as usize, (num_entries as usize) as i32 == num_entries,
        rd(old(asset), asset, p32(num_entries as u32) + enc_names(names, names.len() as nat)),
//@ at loop-start 0
    let ghost n0 = names;
//@ at loop-end 0
    proof {
        names_same(n0, names, n0.len() as nat);
        pat_assoc(p32(num_entries as u32), enc_names(n0, n0.len() as nat), pname(names[n0.len() as int]));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetPropertyPointer write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), enc_pp(*self, wc(old(asset)))) && r->Ok_0 == 8,
//@ loop 0 it=it
    invariant newpp(wc(old(asset))), self.new == Some(*new), it.seq() == refs_of(new.path@),
        wr(old(asset), asset, p32(new.path.len() as i32 as u32) + enc_names(new.path, it.index() as nat)),
//@ at loop-end 0
    proof { pat_assoc(p32(new.path.len() as i32 as u32), enc_names(new.path, it.index() as nat), pname(new.path[it.index() as int])); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs FScriptText new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_st(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs FScriptText write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_st(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_st(*self, wc(old(asset)))) && r->Ok_0 == sz_st(*self, wc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression read_arr params=asset,end_token attr="#[verifier::exec_allows_no_decreases_clause]"
    requires is_end(end_token),
    ensures r is Ok ==> rd(old(asset), final(asset), encv(r->Ok_0, r->Ok_0.len() as nat, rc(old(asset))) + p8(EExprToken_n(end_token))),
//@ at pre-loop 0
    proof { rdc_nil(asset); }
//@ loop 0
    invariant_except_break rdc(old(asset), asset, encv(data, data.len() as nat, rc(old(asset)))),
    invariant is_end(end_token),
    ensures rd(old(asset), asset, encv(data, data.len() as nat, rc(old(asset))) + p8(EExprToken_n(end_token))),
//@ at loop-start 0
    let ghost d0 = data;
    proof {
        assert forall|e: KismetExpression| kind(e) == token_of(e) && token_of(e) == end_token implies #[trigger] enc(e, rc(old(asset))) == p8(EExprToken_n(end_token)) by { end_enc(e, rc(old(asset))); }
    }
//@ at loop-end 0
    proof { encv_same(d0, data, d0.len() as nat, rc(old(asset))); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression write params=expr,asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires esz(*expr, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc(*expr, wc(old(asset)))) && r->Ok_0 == esz(*expr, wc(old(asset))),
//@ at body-start
    proof { arms::enc_body(*expr, wc(asset)); }
//@ end
// what enum_dispatch generates for the expression traits
impl KismetExpression { pub fn get_token(&self) -> (r: EExprToken) ensures r == token_of(*self) { match self { KismetExpression::ExLocalVariable(x) => x.get_token(), KismetExpression::ExInstanceVariable(x) => x.get_token(), KismetExpression::ExDefaultVariable(x) => x.get_token(), KismetExpression::ExReturn(x) => x.get_token(), KismetExpression::ExJump(x) => x.get_token(), KismetExpression::ExJumpIfNot(x) => x.get_token(), KismetExpression::ExAssert(x) => x.get_token(), KismetExpression::ExNothing(x) => x.get_token(), KismetExpression::ExLet(x) => x.get_token(), KismetExpression::ExClassContext(x) => x.get_token(), KismetExpression::ExMetaCast(x) => x.get_token(), KismetExpression::ExLetBool(x) => x.get_token(), _ => self.get_token1() } }
    pub fn enum_eq(&self, token: &EExprToken) -> (r: bool) ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExLocalVariable(x) => x.enum_eq(token), KismetExpression::ExInstanceVariable(x) => x.enum_eq(token), KismetExpression::ExDefaultVariable(x) => x.enum_eq(token), KismetExpression::ExReturn(x) => x.enum_eq(token), KismetExpression::ExJump(x) => x.enum_eq(token), KismetExpression::ExJumpIfNot(x) => x.enum_eq(token), KismetExpression::ExAssert(x) => x.enum_eq(token), KismetExpression::ExNothing(x) => x.enum_eq(token), KismetExpression::ExLet(x) => x.enum_eq(token), KismetExpression::ExClassContext(x) => x.enum_eq(token), KismetExpression::ExMetaCast(x) => x.enum_eq(token), KismetExpression::ExLetBool(x) => x.enum_eq(token), _ => self.enum_eq1(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExLocalVariable(x) => { proof { arms::b_ExLocalVariable(*x, c); arms::s_ExLocalVariable(*x, c); } x.write(asset) }, KismetExpression::ExInstanceVariable(x) => { proof { arms::b_ExInstanceVariable(*x, c); arms::s_ExInstanceVariable(*x, c); } x.write(asset) }, KismetExpression::ExDefaultVariable(x) => { proof { arms::b_ExDefaultVariable(*x, c); arms::s_ExDefaultVariable(*x, c); } x.write(asset) }, KismetExpression::ExReturn(x) => { proof { arms::b_ExReturn(*x, c); arms::s_ExReturn(*x, c); } x.write(asset) }, KismetExpression::ExJump(x) => { proof { arms::b_ExJump(*x, c); arms::s_ExJump(*x, c); } x.write(asset) }, KismetExpression::ExJumpIfNot(x) => { proof { arms::b_ExJumpIfNot(*x, c); arms::s_ExJumpIfNot(*x, c); } x.write(asset) }, KismetExpression::ExAssert(x) => { proof { arms::b_ExAssert(*x, c); arms::s_ExAssert(*x, c); } x.write(asset) }, KismetExpression::ExNothing(x) => { proof { arms::b_ExNothing(*x, c); arms::s_ExNothing(*x, c); } x.write(asset) }, KismetExpression::ExLet(x) => { proof { arms::b_ExLet(*x, c); arms::s_ExLet(*x, c); } x.write(asset) }, KismetExpression::ExClassContext(x) => { proof { arms::b_ExClassContext(*x, c); arms::s_ExClassContext(*x, c); } x.write(asset) }, KismetExpression::ExMetaCast(x) => { proof { arms::b_ExMetaCast(*x, c); arms::s_ExMetaCast(*x, c); } x.write(asset) }, KismetExpression::ExLetBool(x) => { proof { arms::b_ExLetBool(*x, c); arms::s_ExLetBool(*x, c); } x.write(asset) }, _ => self.write_d1(asset) } }
}
impl KismetExpression { pub fn get_token1(&self) -> (r: EExprToken) requires kidx(*self) >= 12, ensures r == token_of(*self) { match self { KismetExpression::ExEndParmValue(x) => x.get_token(), KismetExpression::ExEndFunctionParms(x) => x.get_token(), KismetExpression::ExSelf(x) => x.get_token(), KismetExpression::ExSkip(x) => x.get_token(), KismetExpression::ExContext(x) => x.get_token(), KismetExpression::ExContextFailSilent(x) => x.get_token(), KismetExpression::ExVirtualFunction(x) => x.get_token(), KismetExpression::ExFinalFunction(x) => x.get_token(), KismetExpression::ExIntConst(x) => x.get_token(), KismetExpression::ExFloatConst(x) => x.get_token(), KismetExpression::ExStringConst(x) => x.get_token(), KismetExpression::ExObjectConst(x) => x.get_token(), _ => self.get_token2() } }
    pub fn enum_eq1(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 12, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExEndParmValue(x) => x.enum_eq(token), KismetExpression::ExEndFunctionParms(x) => x.enum_eq(token), KismetExpression::ExSelf(x) => x.enum_eq(token), KismetExpression::ExSkip(x) => x.enum_eq(token), KismetExpression::ExContext(x) => x.enum_eq(token), KismetExpression::ExContextFailSilent(x) => x.enum_eq(token), KismetExpression::ExVirtualFunction(x) => x.enum_eq(token), KismetExpression::ExFinalFunction(x) => x.enum_eq(token), KismetExpression::ExIntConst(x) => x.enum_eq(token), KismetExpression::ExFloatConst(x) => x.enum_eq(token), KismetExpression::ExStringConst(x) => x.enum_eq(token), KismetExpression::ExObjectConst(x) => x.enum_eq(token), _ => self.enum_eq2(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d1<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExEndParmValue(x) => { proof { arms::b_ExEndParmValue(*x, c); arms::s_ExEndParmValue(*x, c); } x.write(asset) }, KismetExpression::ExEndFunctionParms(x) => { proof { arms::b_ExEndFunctionParms(*x, c); arms::s_ExEndFunctionParms(*x, c); } x.write(asset) }, KismetExpression::ExSelf(x) => { proof { arms::b_ExSelf(*x, c); arms::s_ExSelf(*x, c); } x.write(asset) }, KismetExpression::ExSkip(x) => { proof { arms::b_ExSkip(*x, c); arms::s_ExSkip(*x, c); } x.write(asset) }, KismetExpression::ExContext(x) => { proof { arms::b_ExContext(*x, c); arms::s_ExContext(*x, c); } x.write(asset) }, KismetExpression::ExContextFailSilent(x) => { proof { arms::b_ExContextFailSilent(*x, c); arms::s_ExContextFailSilent(*x, c); } x.write(asset) }, KismetExpression::ExVirtualFunction(x) => { proof { arms::b_ExVirtualFunction(*x, c); arms::s_ExVirtualFunction(*x, c); } x.write(asset) }, KismetExpression::ExFinalFunction(x) => { proof { arms::b_ExFinalFunction(*x, c); arms::s_ExFinalFunction(*x, c); } x.write(asset) }, KismetExpression::ExIntConst(x) => { proof { arms::b_ExIntConst(*x, c); arms::s_ExIntConst(*x, c); } x.write(asset) }, KismetExpression::ExFloatConst(x) => { proof { arms::b_ExFloatConst(*x, c); arms::s_ExFloatConst(*x, c); } x.write(asset) }, KismetExpression::ExStringConst(x) => { proof { arms::b_ExStringConst(*x, c); arms::s_ExStringConst(*x, c); } x.write(asset) }, KismetExpression::ExObjectConst(x) => { proof { arms::b_ExObjectConst(*x, c); arms::s_ExObjectConst(*x, c); } x.write(asset) }, _ => self.write_d2(asset) } }
}
impl KismetExpression { pub fn get_token2(&self) -> (r: EExprToken) requires kidx(*self) >= 24, ensures r == token_of(*self) { match self { KismetExpression::ExNameConst(x) => x.get_token(), KismetExpression::ExRotationConst(x) => x.get_token(), KismetExpression::ExVectorConst(x) => x.get_token(), KismetExpression::ExByteConst(x) => x.get_token(), KismetExpression::ExIntZero(x) => x.get_token(), KismetExpression::ExIntOne(x) => x.get_token(), KismetExpression::ExTrue(x) => x.get_token(), KismetExpression::ExFalse(x) => x.get_token(), KismetExpression::ExTextConst(x) => x.get_token(), KismetExpression::ExNoObject(x) => x.get_token(), KismetExpression::ExTransformConst(x) => x.get_token(), KismetExpression::ExIntConstByte(x) => x.get_token(), _ => self.get_token3() } }
    pub fn enum_eq2(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 24, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExNameConst(x) => x.enum_eq(token), KismetExpression::ExRotationConst(x) => x.enum_eq(token), KismetExpression::ExVectorConst(x) => x.enum_eq(token), KismetExpression::ExByteConst(x) => x.enum_eq(token), KismetExpression::ExIntZero(x) => x.enum_eq(token), KismetExpression::ExIntOne(x) => x.enum_eq(token), KismetExpression::ExTrue(x) => x.enum_eq(token), KismetExpression::ExFalse(x) => x.enum_eq(token), KismetExpression::ExTextConst(x) => x.enum_eq(token), KismetExpression::ExNoObject(x) => x.enum_eq(token), KismetExpression::ExTransformConst(x) => x.enum_eq(token), KismetExpression::ExIntConstByte(x) => x.enum_eq(token), _ => self.enum_eq3(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d2<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExNameConst(x) => { proof { arms::b_ExNameConst(*x, c); arms::s_ExNameConst(*x, c); } x.write(asset) }, KismetExpression::ExRotationConst(x) => { proof { arms::b_ExRotationConst(*x, c); arms::s_ExRotationConst(*x, c); } x.write(asset) }, KismetExpression::ExVectorConst(x) => { proof { arms::b_ExVectorConst(*x, c); arms::s_ExVectorConst(*x, c); } x.write(asset) }, KismetExpression::ExByteConst(x) => { proof { arms::b_ExByteConst(*x, c); arms::s_ExByteConst(*x, c); } x.write(asset) }, KismetExpression::ExIntZero(x) => { proof { arms::b_ExIntZero(*x, c); arms::s_ExIntZero(*x, c); } x.write(asset) }, KismetExpression::ExIntOne(x) => { proof { arms::b_ExIntOne(*x, c); arms::s_ExIntOne(*x, c); } x.write(asset) }, KismetExpression::ExTrue(x) => { proof { arms::b_ExTrue(*x, c); arms::s_ExTrue(*x, c); } x.write(asset) }, KismetExpression::ExFalse(x) => { proof { arms::b_ExFalse(*x, c); arms::s_ExFalse(*x, c); } x.write(asset) }, KismetExpression::ExTextConst(x) => { proof { arms::b_ExTextConst(*x, c); arms::s_ExTextConst(*x, c); } x.write(asset) }, KismetExpression::ExNoObject(x) => { proof { arms::b_ExNoObject(*x, c); arms::s_ExNoObject(*x, c); } x.write(asset) }, KismetExpression::ExTransformConst(x) => { proof { arms::b_ExTransformConst(*x, c); arms::s_ExTransformConst(*x, c); } x.write(asset) }, KismetExpression::ExIntConstByte(x) => { proof { arms::b_ExIntConstByte(*x, c); arms::s_ExIntConstByte(*x, c); } x.write(asset) }, _ => self.write_d3(asset) } }
}
impl KismetExpression { pub fn get_token3(&self) -> (r: EExprToken) requires kidx(*self) >= 36, ensures r == token_of(*self) { match self { KismetExpression::ExNoInterface(x) => x.get_token(), KismetExpression::ExDynamicCast(x) => x.get_token(), KismetExpression::ExStructConst(x) => x.get_token(), KismetExpression::ExEndStructConst(x) => x.get_token(), KismetExpression::ExSetArray(x) => x.get_token(), KismetExpression::ExEndArray(x) => x.get_token(), KismetExpression::ExPropertyConst(x) => x.get_token(), KismetExpression::ExUnicodeStringConst(x) => x.get_token(), KismetExpression::ExInt64Const(x) => x.get_token(), KismetExpression::ExUInt64Const(x) => x.get_token(), KismetExpression::ExDoubleConst(x) => x.get_token(), KismetExpression::ExPrimitiveCast(x) => x.get_token(), _ => self.get_token4() } }
    pub fn enum_eq3(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 36, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExNoInterface(x) => x.enum_eq(token), KismetExpression::ExDynamicCast(x) => x.enum_eq(token), KismetExpression::ExStructConst(x) => x.enum_eq(token), KismetExpression::ExEndStructConst(x) => x.enum_eq(token), KismetExpression::ExSetArray(x) => x.enum_eq(token), KismetExpression::ExEndArray(x) => x.enum_eq(token), KismetExpression::ExPropertyConst(x) => x.enum_eq(token), KismetExpression::ExUnicodeStringConst(x) => x.enum_eq(token), KismetExpression::ExInt64Const(x) => x.enum_eq(token), KismetExpression::ExUInt64Const(x) => x.enum_eq(token), KismetExpression::ExDoubleConst(x) => x.enum_eq(token), KismetExpression::ExPrimitiveCast(x) => x.enum_eq(token), _ => self.enum_eq4(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d3<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExNoInterface(x) => { proof { arms::b_ExNoInterface(*x, c); arms::s_ExNoInterface(*x, c); } x.write(asset) }, KismetExpression::ExDynamicCast(x) => { proof { arms::b_ExDynamicCast(*x, c); arms::s_ExDynamicCast(*x, c); } x.write(asset) }, KismetExpression::ExStructConst(x) => { proof { arms::b_ExStructConst(*x, c); arms::s_ExStructConst(*x, c); } x.write(asset) }, KismetExpression::ExEndStructConst(x) => { proof { arms::b_ExEndStructConst(*x, c); arms::s_ExEndStructConst(*x, c); } x.write(asset) }, KismetExpression::ExSetArray(x) => { proof { arms::b_ExSetArray(*x, c); arms::s_ExSetArray(*x, c); } x.write(asset) }, KismetExpression::ExEndArray(x) => { proof { arms::b_ExEndArray(*x, c); arms::s_ExEndArray(*x, c); } x.write(asset) }, KismetExpression::ExPropertyConst(x) => { proof { arms::b_ExPropertyConst(*x, c); arms::s_ExPropertyConst(*x, c); } x.write(asset) }, KismetExpression::ExUnicodeStringConst(x) => { proof { arms::b_ExUnicodeStringConst(*x, c); arms::s_ExUnicodeStringConst(*x, c); } x.write(asset) }, KismetExpression::ExInt64Const(x) => { proof { arms::b_ExInt64Const(*x, c); arms::s_ExInt64Const(*x, c); } x.write(asset) }, KismetExpression::ExUInt64Const(x) => { proof { arms::b_ExUInt64Const(*x, c); arms::s_ExUInt64Const(*x, c); } x.write(asset) }, KismetExpression::ExDoubleConst(x) => { proof { arms::b_ExDoubleConst(*x, c); arms::s_ExDoubleConst(*x, c); } x.write(asset) }, KismetExpression::ExPrimitiveCast(x) => { proof { arms::b_ExPrimitiveCast(*x, c); arms::s_ExPrimitiveCast(*x, c); } x.write(asset) }, _ => self.write_d4(asset) } }
}
impl KismetExpression { pub fn get_token4(&self) -> (r: EExprToken) requires kidx(*self) >= 48, ensures r == token_of(*self) { match self { KismetExpression::ExSetSet(x) => x.get_token(), KismetExpression::ExEndSet(x) => x.get_token(), KismetExpression::ExSetMap(x) => x.get_token(), KismetExpression::ExEndMap(x) => x.get_token(), KismetExpression::ExSetConst(x) => x.get_token(), KismetExpression::ExEndSetConst(x) => x.get_token(), KismetExpression::ExMapConst(x) => x.get_token(), KismetExpression::ExEndMapConst(x) => x.get_token(), KismetExpression::ExStructMemberContext(x) => x.get_token(), KismetExpression::ExLetMulticastDelegate(x) => x.get_token(), KismetExpression::ExLetDelegate(x) => x.get_token(), KismetExpression::ExLocalVirtualFunction(x) => x.get_token(), _ => self.get_token5() } }
    pub fn enum_eq4(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 48, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExSetSet(x) => x.enum_eq(token), KismetExpression::ExEndSet(x) => x.enum_eq(token), KismetExpression::ExSetMap(x) => x.enum_eq(token), KismetExpression::ExEndMap(x) => x.enum_eq(token), KismetExpression::ExSetConst(x) => x.enum_eq(token), KismetExpression::ExEndSetConst(x) => x.enum_eq(token), KismetExpression::ExMapConst(x) => x.enum_eq(token), KismetExpression::ExEndMapConst(x) => x.enum_eq(token), KismetExpression::ExStructMemberContext(x) => x.enum_eq(token), KismetExpression::ExLetMulticastDelegate(x) => x.enum_eq(token), KismetExpression::ExLetDelegate(x) => x.enum_eq(token), KismetExpression::ExLocalVirtualFunction(x) => x.enum_eq(token), _ => self.enum_eq5(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d4<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExSetSet(x) => { proof { arms::b_ExSetSet(*x, c); arms::s_ExSetSet(*x, c); } x.write(asset) }, KismetExpression::ExEndSet(x) => { proof { arms::b_ExEndSet(*x, c); arms::s_ExEndSet(*x, c); } x.write(asset) }, KismetExpression::ExSetMap(x) => { proof { arms::b_ExSetMap(*x, c); arms::s_ExSetMap(*x, c); } x.write(asset) }, KismetExpression::ExEndMap(x) => { proof { arms::b_ExEndMap(*x, c); arms::s_ExEndMap(*x, c); } x.write(asset) }, KismetExpression::ExSetConst(x) => { proof { arms::b_ExSetConst(*x, c); arms::s_ExSetConst(*x, c); } x.write(asset) }, KismetExpression::ExEndSetConst(x) => { proof { arms::b_ExEndSetConst(*x, c); arms::s_ExEndSetConst(*x, c); } x.write(asset) }, KismetExpression::ExMapConst(x) => { proof { arms::b_ExMapConst(*x, c); arms::s_ExMapConst(*x, c); } x.write(asset) }, KismetExpression::ExEndMapConst(x) => { proof { arms::b_ExEndMapConst(*x, c); arms::s_ExEndMapConst(*x, c); } x.write(asset) }, KismetExpression::ExStructMemberContext(x) => { proof { arms::b_ExStructMemberContext(*x, c); arms::s_ExStructMemberContext(*x, c); } x.write(asset) }, KismetExpression::ExLetMulticastDelegate(x) => { proof { arms::b_ExLetMulticastDelegate(*x, c); arms::s_ExLetMulticastDelegate(*x, c); } x.write(asset) }, KismetExpression::ExLetDelegate(x) => { proof { arms::b_ExLetDelegate(*x, c); arms::s_ExLetDelegate(*x, c); } x.write(asset) }, KismetExpression::ExLocalVirtualFunction(x) => { proof { arms::b_ExLocalVirtualFunction(*x, c); arms::s_ExLocalVirtualFunction(*x, c); } x.write(asset) }, _ => self.write_d5(asset) } }
}
impl KismetExpression { pub fn get_token5(&self) -> (r: EExprToken) requires kidx(*self) >= 60, ensures r == token_of(*self) { match self { KismetExpression::ExLocalFinalFunction(x) => x.get_token(), KismetExpression::ExLocalOutVariable(x) => x.get_token(), KismetExpression::ExDeprecatedOp4A(x) => x.get_token(), KismetExpression::ExInstanceDelegate(x) => x.get_token(), KismetExpression::ExPushExecutionFlow(x) => x.get_token(), KismetExpression::ExPopExecutionFlow(x) => x.get_token(), KismetExpression::ExComputedJump(x) => x.get_token(), KismetExpression::ExPopExecutionFlowIfNot(x) => x.get_token(), KismetExpression::ExBreakpoint(x) => x.get_token(), KismetExpression::ExInterfaceContext(x) => x.get_token(), KismetExpression::ExObjToInterfaceCast(x) => x.get_token(), KismetExpression::ExEndOfScript(x) => x.get_token(), _ => self.get_token6() } }
    pub fn enum_eq5(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 60, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExLocalFinalFunction(x) => x.enum_eq(token), KismetExpression::ExLocalOutVariable(x) => x.enum_eq(token), KismetExpression::ExDeprecatedOp4A(x) => x.enum_eq(token), KismetExpression::ExInstanceDelegate(x) => x.enum_eq(token), KismetExpression::ExPushExecutionFlow(x) => x.enum_eq(token), KismetExpression::ExPopExecutionFlow(x) => x.enum_eq(token), KismetExpression::ExComputedJump(x) => x.enum_eq(token), KismetExpression::ExPopExecutionFlowIfNot(x) => x.enum_eq(token), KismetExpression::ExBreakpoint(x) => x.enum_eq(token), KismetExpression::ExInterfaceContext(x) => x.enum_eq(token), KismetExpression::ExObjToInterfaceCast(x) => x.enum_eq(token), KismetExpression::ExEndOfScript(x) => x.enum_eq(token), _ => self.enum_eq6(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d5<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExLocalFinalFunction(x) => { proof { arms::b_ExLocalFinalFunction(*x, c); arms::s_ExLocalFinalFunction(*x, c); } x.write(asset) }, KismetExpression::ExLocalOutVariable(x) => { proof { arms::b_ExLocalOutVariable(*x, c); arms::s_ExLocalOutVariable(*x, c); } x.write(asset) }, KismetExpression::ExDeprecatedOp4A(x) => { proof { arms::b_ExDeprecatedOp4A(*x, c); arms::s_ExDeprecatedOp4A(*x, c); } x.write(asset) }, KismetExpression::ExInstanceDelegate(x) => { proof { arms::b_ExInstanceDelegate(*x, c); arms::s_ExInstanceDelegate(*x, c); } x.write(asset) }, KismetExpression::ExPushExecutionFlow(x) => { proof { arms::b_ExPushExecutionFlow(*x, c); arms::s_ExPushExecutionFlow(*x, c); } x.write(asset) }, KismetExpression::ExPopExecutionFlow(x) => { proof { arms::b_ExPopExecutionFlow(*x, c); arms::s_ExPopExecutionFlow(*x, c); } x.write(asset) }, KismetExpression::ExComputedJump(x) => { proof { arms::b_ExComputedJump(*x, c); arms::s_ExComputedJump(*x, c); } x.write(asset) }, KismetExpression::ExPopExecutionFlowIfNot(x) => { proof { arms::b_ExPopExecutionFlowIfNot(*x, c); arms::s_ExPopExecutionFlowIfNot(*x, c); } x.write(asset) }, KismetExpression::ExBreakpoint(x) => { proof { arms::b_ExBreakpoint(*x, c); arms::s_ExBreakpoint(*x, c); } x.write(asset) }, KismetExpression::ExInterfaceContext(x) => { proof { arms::b_ExInterfaceContext(*x, c); arms::s_ExInterfaceContext(*x, c); } x.write(asset) }, KismetExpression::ExObjToInterfaceCast(x) => { proof { arms::b_ExObjToInterfaceCast(*x, c); arms::s_ExObjToInterfaceCast(*x, c); } x.write(asset) }, KismetExpression::ExEndOfScript(x) => { proof { arms::b_ExEndOfScript(*x, c); arms::s_ExEndOfScript(*x, c); } x.write(asset) }, _ => self.write_d6(asset) } }
}
impl KismetExpression { pub fn get_token6(&self) -> (r: EExprToken) requires kidx(*self) >= 72, ensures r == token_of(*self) { match self { KismetExpression::ExCrossInterfaceCast(x) => x.get_token(), KismetExpression::ExInterfaceToObjCast(x) => x.get_token(), KismetExpression::ExWireTracepoint(x) => x.get_token(), KismetExpression::ExSkipOffsetConst(x) => x.get_token(), KismetExpression::ExAddMulticastDelegate(x) => x.get_token(), KismetExpression::ExClearMulticastDelegate(x) => x.get_token(), KismetExpression::ExTracepoint(x) => x.get_token(), KismetExpression::ExLetObj(x) => x.get_token(), KismetExpression::ExLetWeakObjPtr(x) => x.get_token(), KismetExpression::ExBindDelegate(x) => x.get_token(), KismetExpression::ExRemoveMulticastDelegate(x) => x.get_token(), KismetExpression::ExCallMulticastDelegate(x) => x.get_token(), _ => self.get_token7() } }
    pub fn enum_eq6(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 72, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExCrossInterfaceCast(x) => x.enum_eq(token), KismetExpression::ExInterfaceToObjCast(x) => x.enum_eq(token), KismetExpression::ExWireTracepoint(x) => x.enum_eq(token), KismetExpression::ExSkipOffsetConst(x) => x.enum_eq(token), KismetExpression::ExAddMulticastDelegate(x) => x.enum_eq(token), KismetExpression::ExClearMulticastDelegate(x) => x.enum_eq(token), KismetExpression::ExTracepoint(x) => x.enum_eq(token), KismetExpression::ExLetObj(x) => x.enum_eq(token), KismetExpression::ExLetWeakObjPtr(x) => x.enum_eq(token), KismetExpression::ExBindDelegate(x) => x.enum_eq(token), KismetExpression::ExRemoveMulticastDelegate(x) => x.enum_eq(token), KismetExpression::ExCallMulticastDelegate(x) => x.enum_eq(token), _ => self.enum_eq7(token) } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d6<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExCrossInterfaceCast(x) => { proof { arms::b_ExCrossInterfaceCast(*x, c); arms::s_ExCrossInterfaceCast(*x, c); } x.write(asset) }, KismetExpression::ExInterfaceToObjCast(x) => { proof { arms::b_ExInterfaceToObjCast(*x, c); arms::s_ExInterfaceToObjCast(*x, c); } x.write(asset) }, KismetExpression::ExWireTracepoint(x) => { proof { arms::b_ExWireTracepoint(*x, c); arms::s_ExWireTracepoint(*x, c); } x.write(asset) }, KismetExpression::ExSkipOffsetConst(x) => { proof { arms::b_ExSkipOffsetConst(*x, c); arms::s_ExSkipOffsetConst(*x, c); } x.write(asset) }, KismetExpression::ExAddMulticastDelegate(x) => { proof { arms::b_ExAddMulticastDelegate(*x, c); arms::s_ExAddMulticastDelegate(*x, c); } x.write(asset) }, KismetExpression::ExClearMulticastDelegate(x) => { proof { arms::b_ExClearMulticastDelegate(*x, c); arms::s_ExClearMulticastDelegate(*x, c); } x.write(asset) }, KismetExpression::ExTracepoint(x) => { proof { arms::b_ExTracepoint(*x, c); arms::s_ExTracepoint(*x, c); } x.write(asset) }, KismetExpression::ExLetObj(x) => { proof { arms::b_ExLetObj(*x, c); arms::s_ExLetObj(*x, c); } x.write(asset) }, KismetExpression::ExLetWeakObjPtr(x) => { proof { arms::b_ExLetWeakObjPtr(*x, c); arms::s_ExLetWeakObjPtr(*x, c); } x.write(asset) }, KismetExpression::ExBindDelegate(x) => { proof { arms::b_ExBindDelegate(*x, c); arms::s_ExBindDelegate(*x, c); } x.write(asset) }, KismetExpression::ExRemoveMulticastDelegate(x) => { proof { arms::b_ExRemoveMulticastDelegate(*x, c); arms::s_ExRemoveMulticastDelegate(*x, c); } x.write(asset) }, KismetExpression::ExCallMulticastDelegate(x) => { proof { arms::b_ExCallMulticastDelegate(*x, c); arms::s_ExCallMulticastDelegate(*x, c); } x.write(asset) }, _ => self.write_d7(asset) } }
}
impl KismetExpression { pub fn get_token7(&self) -> (r: EExprToken) requires kidx(*self) >= 84, ensures r == token_of(*self) { match self { KismetExpression::ExLetValueOnPersistentFrame(x) => x.get_token(), KismetExpression::ExArrayConst(x) => x.get_token(), KismetExpression::ExEndArrayConst(x) => x.get_token(), KismetExpression::ExSoftObjectConst(x) => x.get_token(), KismetExpression::ExCallMath(x) => x.get_token(), KismetExpression::ExSwitchValue(x) => x.get_token(), KismetExpression::ExInstrumentationEvent(x) => x.get_token(), KismetExpression::ExArrayGetByRef(x) => x.get_token(), KismetExpression::ExClassSparseDataVariable(x) => x.get_token(), KismetExpression::ExFieldPathConst(x) => x.get_token(), _ => EExprToken::ExMax } }
    pub fn enum_eq7(&self, token: &EExprToken) -> (r: bool) requires kidx(*self) >= 84, ensures r == (token_of(*self) == *token) { match self { KismetExpression::ExLetValueOnPersistentFrame(x) => x.enum_eq(token), KismetExpression::ExArrayConst(x) => x.enum_eq(token), KismetExpression::ExEndArrayConst(x) => x.enum_eq(token), KismetExpression::ExSoftObjectConst(x) => x.enum_eq(token), KismetExpression::ExCallMath(x) => x.enum_eq(token), KismetExpression::ExSwitchValue(x) => x.enum_eq(token), KismetExpression::ExInstrumentationEvent(x) => x.enum_eq(token), KismetExpression::ExArrayGetByRef(x) => x.enum_eq(token), KismetExpression::ExClassSparseDataVariable(x) => x.enum_eq(token), KismetExpression::ExFieldPathConst(x) => x.enum_eq(token), _ => false } } }
impl KismetExpression {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn write_d7<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)
        requires bsz(*self, wc(old(asset))) <= usize::MAX,
        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),
    { let ghost c = wc(asset); match self { KismetExpression::ExLetValueOnPersistentFrame(x) => { proof { arms::b_ExLetValueOnPersistentFrame(*x, c); arms::s_ExLetValueOnPersistentFrame(*x, c); } x.write(asset) }, KismetExpression::ExArrayConst(x) => { proof { arms::b_ExArrayConst(*x, c); arms::s_ExArrayConst(*x, c); } x.write(asset) }, KismetExpression::ExEndArrayConst(x) => { proof { arms::b_ExEndArrayConst(*x, c); arms::s_ExEndArrayConst(*x, c); } x.write(asset) }, KismetExpression::ExSoftObjectConst(x) => { proof { arms::b_ExSoftObjectConst(*x, c); arms::s_ExSoftObjectConst(*x, c); } x.write(asset) }, KismetExpression::ExCallMath(x) => { proof { arms::b_ExCallMath(*x, c); arms::s_ExCallMath(*x, c); } x.write(asset) }, KismetExpression::ExSwitchValue(x) => { proof { arms::b_ExSwitchValue(*x, c); arms::s_ExSwitchValue(*x, c); } x.write(asset) }, KismetExpression::ExInstrumentationEvent(x) => { proof { arms::b_ExInstrumentationEvent(*x, c); arms::s_ExInstrumentationEvent(*x, c); } x.write(asset) }, KismetExpression::ExArrayGetByRef(x) => { proof { arms::b_ExArrayGetByRef(*x, c); arms::s_ExArrayGetByRef(*x, c); } x.write(asset) }, KismetExpression::ExClassSparseDataVariable(x) => { proof { arms::b_ExClassSparseDataVariable(*x, c); arms::s_ExClassSparseDataVariable(*x, c); } x.write(asset) }, KismetExpression::ExFieldPathConst(x) => { proof { arms::b_ExFieldPathConst(*x, c); arms::s_ExFieldPathConst(*x, c); } x.write(asset) }, _ => Err(Error::Any) } }
}
pub open spec fn grp(v: u8) -> int { if v < 110 { v as int / 5 } else { 22 } }
proof fn grp_all(v: u8) ensures 0 <= grp(v) < 23 {}
impl KismetExpression { #[verifier::external_body]
pub fn new<Reader: ArchiveReader>(asset: &mut Reader) -> (r: Result<Self, Error>) ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0) { unimplemented!() } }
pub mod g0 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g0 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 0,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g1 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g1 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 1,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g2 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g2 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 2,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g3 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g3 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 3,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g4 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g4 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 4,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g5 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g5 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 5,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g6 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g6 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 6,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g7 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g7 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 7,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g8 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g8 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 8,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g9 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g9 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 9,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g10 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g10 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 10,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g11 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g11 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 11,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g12 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g12 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 12,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g13 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g13 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 13,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g14 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g14 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 14,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g15 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g15 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 15,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g16 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g16 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 16,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g17 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g17 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 17,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g18 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g18 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 18,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g19 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g19 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 19,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g20 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g20 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 20,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g21 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g21 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 21,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub mod g22 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs KismetExpression new params=asset as=new_g22 attr="#[verifier::exec_allows_no_decreases_clause]"
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == 22,
    ensures r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0),
//@ at body-start
    broadcast use {arms::group_arms, rd_first};
//@ end
}
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

pub mod m0 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLocalVariable" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLocalVariable" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalVariable new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLocalVariable(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLocalVariable,
//@ at body-start
    proof { reveal(enc_ExLocalVariable); reveal(sz_ExLocalVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLocalVariable" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLocalVariable(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLocalVariable(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLocalVariable(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLocalVariable); reveal(sz_ExLocalVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExInstanceVariable" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExInstanceVariable" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExInstanceVariable new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExInstanceVariable(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExInstanceVariable,
//@ at body-start
    proof { reveal(enc_ExInstanceVariable); reveal(sz_ExInstanceVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExInstanceVariable" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExInstanceVariable(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExInstanceVariable(*self, wc(old(asset)))) && r->Ok_0 == sz_ExInstanceVariable(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExInstanceVariable); reveal(sz_ExInstanceVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExDefaultVariable" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExDefaultVariable" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExDefaultVariable new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExDefaultVariable(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExDefaultVariable,
//@ at body-start
    proof { reveal(enc_ExDefaultVariable); reveal(sz_ExDefaultVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExDefaultVariable" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExDefaultVariable(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExDefaultVariable(*self, wc(old(asset)))) && r->Ok_0 == sz_ExDefaultVariable(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExDefaultVariable); reveal(sz_ExDefaultVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExReturn" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExReturn" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExReturn new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExReturn(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExReturn,
//@ at body-start
    proof { reveal(enc_ExReturn); reveal(sz_ExReturn); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExReturn" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExReturn(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExReturn(*self, wc(old(asset)))) && r->Ok_0 == sz_ExReturn(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExReturn); reveal(sz_ExReturn); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExJump" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExJump" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExJump new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExJump(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExJump,
//@ at body-start
    proof { reveal(enc_ExJump); reveal(sz_ExJump); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExJump" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExJump(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExJump(*self, wc(old(asset)))) && r->Ok_0 == sz_ExJump(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExJump); reveal(sz_ExJump); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExJumpIfNot" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExJumpIfNot" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExJumpIfNot new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExJumpIfNot(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExJumpIfNot,
//@ at body-start
    proof { reveal(enc_ExJumpIfNot); reveal(sz_ExJumpIfNot); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExJumpIfNot" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExJumpIfNot(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExJumpIfNot(*self, wc(old(asset)))) && r->Ok_0 == sz_ExJumpIfNot(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExJumpIfNot); reveal(sz_ExJumpIfNot); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExAssert" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExAssert" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExAssert new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExAssert(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExAssert,
//@ at body-start
    proof { reveal(enc_ExAssert); reveal(sz_ExAssert); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExAssert" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExAssert(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExAssert(*self, wc(old(asset)))) && r->Ok_0 == sz_ExAssert(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExAssert); reveal(sz_ExAssert); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExNothing" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExNothing" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExNothing" default
    ensures r.token == EExprToken::ExNothing,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExNothing new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExNothing(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExNothing,
//@ at body-start
    proof { reveal(enc_ExNothing); reveal(sz_ExNothing); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExNothing" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExNothing(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExNothing(*self, wc(old(asset)))) && r->Ok_0 == sz_ExNothing(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExNothing); reveal(sz_ExNothing); }
    proof { wr_nil(asset); }
//@ end
}
pub mod m1 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLet" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLet" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLet new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLet(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLet,
//@ at body-start
    proof { reveal(enc_ExLet); reveal(sz_ExLet); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLet" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLet(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLet(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLet(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLet); reveal(sz_ExLet); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExClassContext" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExClassContext" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExClassContext new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExClassContext(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExClassContext,
//@ at body-start
    proof { reveal(enc_ExClassContext); reveal(sz_ExClassContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExClassContext" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExClassContext(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExClassContext(*self, wc(old(asset)))) && r->Ok_0 == sz_ExClassContext(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExClassContext); reveal(sz_ExClassContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExMetaCast" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExMetaCast" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExMetaCast new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExMetaCast(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExMetaCast,
//@ at body-start
    proof { reveal(enc_ExMetaCast); reveal(sz_ExMetaCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExMetaCast" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExMetaCast(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExMetaCast(*self, wc(old(asset)))) && r->Ok_0 == sz_ExMetaCast(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExMetaCast); reveal(sz_ExMetaCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLetBool" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLetBool" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLetBool new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLetBool(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLetBool,
//@ at body-start
    proof { reveal(enc_ExLetBool); reveal(sz_ExLetBool); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLetBool" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLetBool(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLetBool(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLetBool(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLetBool); reveal(sz_ExLetBool); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndParmValue" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndParmValue" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndParmValue" default
    ensures r.token == EExprToken::ExEndParmValue,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndParmValue new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndParmValue(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndParmValue,
//@ at body-start
    proof { reveal(enc_ExEndParmValue); reveal(sz_ExEndParmValue); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndParmValue" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndParmValue(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndParmValue(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndParmValue(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndParmValue); reveal(sz_ExEndParmValue); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndFunctionParms" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndFunctionParms" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndFunctionParms" default
    ensures r.token == EExprToken::ExEndFunctionParms,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndFunctionParms new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndFunctionParms(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndFunctionParms,
//@ at body-start
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndFunctionParms" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndFunctionParms(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndFunctionParms(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndFunctionParms(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSelf" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSelf" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExSelf" default
    ensures r.token == EExprToken::ExSelf,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSelf new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSelf(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSelf,
//@ at body-start
    proof { reveal(enc_ExSelf); reveal(sz_ExSelf); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSelf" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSelf(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSelf(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSelf(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSelf); reveal(sz_ExSelf); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSkip" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSkip" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSkip new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSkip(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSkip,
//@ at body-start
    proof { reveal(enc_ExSkip); reveal(sz_ExSkip); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSkip" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSkip(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSkip(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSkip(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSkip); reveal(sz_ExSkip); }
//@ end
}
pub mod m2 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExContext" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExContext" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExContext new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExContext(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExContext,
//@ at body-start
    proof { reveal(enc_ExContext); reveal(sz_ExContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExContext" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExContext(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExContext(*self, wc(old(asset)))) && r->Ok_0 == sz_ExContext(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExContext); reveal(sz_ExContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExContextFailSilent" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExContextFailSilent" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExContextFailSilent new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExContextFailSilent(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExContextFailSilent,
//@ at body-start
    proof { reveal(enc_ExContextFailSilent); reveal(sz_ExContextFailSilent); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExContextFailSilent" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExContextFailSilent(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExContextFailSilent(*self, wc(old(asset)))) && r->Ok_0 == sz_ExContextFailSilent(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExContextFailSilent); reveal(sz_ExContextFailSilent); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExVirtualFunction" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExVirtualFunction" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExVirtualFunction new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExVirtualFunction(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExVirtualFunction,
//@ at body-start
    proof { reveal(enc_ExVirtualFunction); reveal(sz_ExVirtualFunction); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExVirtualFunction" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExVirtualFunction(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExVirtualFunction(*self, wc(old(asset)))) && r->Ok_0 == sz_ExVirtualFunction(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExVirtualFunction); reveal(sz_ExVirtualFunction); }
    broadcast use {arms::e_ExEndFunctionParms, arms::z_ExEndFunctionParms};
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
//@ at pre-loop 0
    let ghost h = pname(self.virtual_function_name);
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.parameters@), sz_ExVirtualFunction(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.parameters, it.index() as nat, wc(old(asset)))),
        offset == 12 + szv(self.parameters, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExVirtualFunction);
        szv_mono(self.parameters, (it.index() + 1) as nat, self.parameters.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.parameters, it.index() as nat, wc(old(asset))), enc(self.parameters[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExFinalFunction" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExFinalFunction" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExFinalFunction new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExFinalFunction(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExFinalFunction,
//@ at body-start
    proof { reveal(enc_ExFinalFunction); reveal(sz_ExFinalFunction); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExFinalFunction" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExFinalFunction(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExFinalFunction(*self, wc(old(asset)))) && r->Ok_0 == sz_ExFinalFunction(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExFinalFunction); reveal(sz_ExFinalFunction); }
    broadcast use {arms::e_ExEndFunctionParms, arms::z_ExEndFunctionParms};
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
//@ at pre-loop 0
    let ghost h = p32(self.stack_node.index as u32);
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.parameters@), sz_ExFinalFunction(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.parameters, it.index() as nat, wc(old(asset)))),
        offset == 8 + szv(self.parameters, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExFinalFunction);
        szv_mono(self.parameters, (it.index() + 1) as nat, self.parameters.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.parameters, it.index() as nat, wc(old(asset))), enc(self.parameters[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExIntConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExIntConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExIntConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExIntConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExIntConst,
//@ at body-start
    proof { reveal(enc_ExIntConst); reveal(sz_ExIntConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExIntConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExIntConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExIntConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExIntConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExIntConst); reveal(sz_ExIntConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExFloatConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExFloatConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExFloatConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExFloatConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExFloatConst,
//@ at body-start
    proof { reveal(enc_ExFloatConst); reveal(sz_ExFloatConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExFloatConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExFloatConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExFloatConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExFloatConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExFloatConst); reveal(sz_ExFloatConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExStringConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExStringConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExStringConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExStringConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExStringConst,
//@ at body-start
    proof { reveal(enc_ExStringConst); reveal(sz_ExStringConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExStringConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExStringConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExStringConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExStringConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExStringConst); reveal(sz_ExStringConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExObjectConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExObjectConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExObjectConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExObjectConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExObjectConst,
//@ at body-start
    proof { reveal(enc_ExObjectConst); reveal(sz_ExObjectConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExObjectConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExObjectConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExObjectConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExObjectConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExObjectConst); reveal(sz_ExObjectConst); }
//@ end
}
pub mod m3 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExNameConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExNameConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExNameConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExNameConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExNameConst,
//@ at body-start
    proof { reveal(enc_ExNameConst); reveal(sz_ExNameConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExNameConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExNameConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExNameConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExNameConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExNameConst); reveal(sz_ExNameConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExRotationConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExRotationConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExRotationConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExRotationConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExRotationConst,
//@ at body-start
    proof { reveal(enc_ExRotationConst); reveal(sz_ExRotationConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExRotationConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExRotationConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExRotationConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExRotationConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExRotationConst); reveal(sz_ExRotationConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExVectorConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExVectorConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExVectorConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExVectorConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExVectorConst,
//@ at body-start
    proof { reveal(enc_ExVectorConst); reveal(sz_ExVectorConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExVectorConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExVectorConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExVectorConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExVectorConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExVectorConst); reveal(sz_ExVectorConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExByteConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExByteConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExByteConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExByteConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExByteConst,
//@ at body-start
    proof { reveal(enc_ExByteConst); reveal(sz_ExByteConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExByteConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExByteConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExByteConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExByteConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExByteConst); reveal(sz_ExByteConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExIntZero" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExIntZero" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExIntZero" default
    ensures r.token == EExprToken::ExIntZero,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExIntZero new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExIntZero(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExIntZero,
//@ at body-start
    proof { reveal(enc_ExIntZero); reveal(sz_ExIntZero); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExIntZero" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExIntZero(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExIntZero(*self, wc(old(asset)))) && r->Ok_0 == sz_ExIntZero(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExIntZero); reveal(sz_ExIntZero); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExIntOne" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExIntOne" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExIntOne" default
    ensures r.token == EExprToken::ExIntOne,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExIntOne new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExIntOne(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExIntOne,
//@ at body-start
    proof { reveal(enc_ExIntOne); reveal(sz_ExIntOne); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExIntOne" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExIntOne(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExIntOne(*self, wc(old(asset)))) && r->Ok_0 == sz_ExIntOne(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExIntOne); reveal(sz_ExIntOne); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExTrue" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExTrue" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExTrue" default
    ensures r.token == EExprToken::ExTrue,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExTrue new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExTrue(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExTrue,
//@ at body-start
    proof { reveal(enc_ExTrue); reveal(sz_ExTrue); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExTrue" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExTrue(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExTrue(*self, wc(old(asset)))) && r->Ok_0 == sz_ExTrue(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExTrue); reveal(sz_ExTrue); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExFalse" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExFalse" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExFalse" default
    ensures r.token == EExprToken::ExFalse,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExFalse new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExFalse(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExFalse,
//@ at body-start
    proof { reveal(enc_ExFalse); reveal(sz_ExFalse); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExFalse" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExFalse(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExFalse(*self, wc(old(asset)))) && r->Ok_0 == sz_ExFalse(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExFalse); reveal(sz_ExFalse); }
    proof { wr_nil(asset); }
//@ end
}
pub mod m4 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExTextConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExTextConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExTextConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExTextConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExTextConst,
//@ at body-start
    proof { reveal(enc_ExTextConst); reveal(sz_ExTextConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExTextConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExTextConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExTextConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExTextConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExTextConst); reveal(sz_ExTextConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExNoObject" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExNoObject" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExNoObject" default
    ensures r.token == EExprToken::ExNoObject,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExNoObject new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExNoObject(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExNoObject,
//@ at body-start
    proof { reveal(enc_ExNoObject); reveal(sz_ExNoObject); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExNoObject" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExNoObject(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExNoObject(*self, wc(old(asset)))) && r->Ok_0 == sz_ExNoObject(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExNoObject); reveal(sz_ExNoObject); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExTransformConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExTransformConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExTransformConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExTransformConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExTransformConst,
//@ at body-start
    proof { reveal(enc_ExTransformConst); reveal(sz_ExTransformConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExTransformConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExTransformConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExTransformConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExTransformConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExTransformConst); reveal(sz_ExTransformConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExIntConstByte" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExIntConstByte" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExIntConstByte new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExIntConstByte(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExIntConstByte,
//@ at body-start
    proof { reveal(enc_ExIntConstByte); reveal(sz_ExIntConstByte); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExIntConstByte" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExIntConstByte(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExIntConstByte(*self, wc(old(asset)))) && r->Ok_0 == sz_ExIntConstByte(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExIntConstByte); reveal(sz_ExIntConstByte); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExNoInterface" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExNoInterface" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExNoInterface" default
    ensures r.token == EExprToken::ExNoInterface,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExNoInterface new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExNoInterface(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExNoInterface,
//@ at body-start
    proof { reveal(enc_ExNoInterface); reveal(sz_ExNoInterface); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExNoInterface" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExNoInterface(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExNoInterface(*self, wc(old(asset)))) && r->Ok_0 == sz_ExNoInterface(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExNoInterface); reveal(sz_ExNoInterface); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExDynamicCast" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExDynamicCast" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExDynamicCast new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExDynamicCast(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExDynamicCast,
//@ at body-start
    proof { reveal(enc_ExDynamicCast); reveal(sz_ExDynamicCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExDynamicCast" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExDynamicCast(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExDynamicCast(*self, wc(old(asset)))) && r->Ok_0 == sz_ExDynamicCast(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExDynamicCast); reveal(sz_ExDynamicCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExStructConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExStructConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExStructConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExStructConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExStructConst,
//@ at body-start
    proof { reveal(enc_ExStructConst); reveal(sz_ExStructConst); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExStructConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExStructConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExStructConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExStructConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExStructConst); reveal(sz_ExStructConst); }
    broadcast use {arms::e_ExEndStructConst, arms::z_ExEndStructConst};
    proof { reveal(enc_ExEndStructConst); reveal(sz_ExEndStructConst); }
//@ at pre-loop 0
    let ghost h = (p32(self.struct_value.index as u32) + p32(self.struct_size as u32));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), sz_ExStructConst(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.value, it.index() as nat, wc(old(asset)))),
        offset == 8 + 4 + szv(self.value, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExStructConst);
        szv_mono(self.value, (it.index() + 1) as nat, self.value.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.value, it.index() as nat, wc(old(asset))), enc(self.value[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndStructConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndStructConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndStructConst" default
    ensures r.token == EExprToken::ExEndStructConst,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndStructConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndStructConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndStructConst,
//@ at body-start
    proof { reveal(enc_ExEndStructConst); reveal(sz_ExEndStructConst); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndStructConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndStructConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndStructConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndStructConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndStructConst); reveal(sz_ExEndStructConst); }
    proof { wr_nil(asset); }
//@ end
}
pub mod m5 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSetArray" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSetArray" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSetArray new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSetArray(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSetArray,
//@ at body-start
    proof { reveal(enc_ExSetArray); reveal(sz_ExSetArray); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSetArray" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSetArray(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSetArray(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSetArray(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSetArray); reveal(sz_ExSetArray); }
    broadcast use {arms::e_ExEndArray, arms::z_ExEndArray};
    proof { reveal(enc_ExEndArray); reveal(sz_ExEndArray); }
//@ at pre-loop 0
    let ghost h = (if newset(wc(old(asset))) { oencb(self.assigning_property, wc(old(asset))) } else { opi(self.array_inner_prop) });
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.elements@), sz_ExSetArray(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.elements, it.index() as nat, wc(old(asset)))),
        offset == (if newset(wc(old(asset))) { oeszb(self.assigning_property, wc(old(asset))) } else { 8 }) + szv(self.elements, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExSetArray);
        szv_mono(self.elements, (it.index() + 1) as nat, self.elements.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.elements, it.index() as nat, wc(old(asset))), enc(self.elements[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndArray" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndArray" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndArray" default
    ensures r.token == EExprToken::ExEndArray,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndArray new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndArray(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndArray,
//@ at body-start
    proof { reveal(enc_ExEndArray); reveal(sz_ExEndArray); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndArray" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndArray(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndArray(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndArray(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndArray); reveal(sz_ExEndArray); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExPropertyConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExPropertyConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExPropertyConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExPropertyConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExPropertyConst,
//@ at body-start
    proof { reveal(enc_ExPropertyConst); reveal(sz_ExPropertyConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExPropertyConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExPropertyConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExPropertyConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExPropertyConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExPropertyConst); reveal(sz_ExPropertyConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExUnicodeStringConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExUnicodeStringConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExUnicodeStringConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExUnicodeStringConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExUnicodeStringConst,
//@ at body-start
    proof { reveal(enc_ExUnicodeStringConst); reveal(sz_ExUnicodeStringConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExUnicodeStringConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExUnicodeStringConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExUnicodeStringConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExUnicodeStringConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExUnicodeStringConst); reveal(sz_ExUnicodeStringConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExInt64Const" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExInt64Const" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExInt64Const new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExInt64Const(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExInt64Const,
//@ at body-start
    proof { reveal(enc_ExInt64Const); reveal(sz_ExInt64Const); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExInt64Const" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExInt64Const(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExInt64Const(*self, wc(old(asset)))) && r->Ok_0 == sz_ExInt64Const(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExInt64Const); reveal(sz_ExInt64Const); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExUInt64Const" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExUInt64Const" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExUInt64Const new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExUInt64Const(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExUInt64Const,
//@ at body-start
    proof { reveal(enc_ExUInt64Const); reveal(sz_ExUInt64Const); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExUInt64Const" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExUInt64Const(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExUInt64Const(*self, wc(old(asset)))) && r->Ok_0 == sz_ExUInt64Const(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExUInt64Const); reveal(sz_ExUInt64Const); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExDoubleConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExDoubleConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExDoubleConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExDoubleConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExDoubleConst,
//@ at body-start
    proof { reveal(enc_ExDoubleConst); reveal(sz_ExDoubleConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExDoubleConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExDoubleConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExDoubleConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExDoubleConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExDoubleConst); reveal(sz_ExDoubleConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExPrimitiveCast" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExPrimitiveCast" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExPrimitiveCast new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExPrimitiveCast(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExPrimitiveCast,
//@ at body-start
    proof { reveal(enc_ExPrimitiveCast); reveal(sz_ExPrimitiveCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExPrimitiveCast" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExPrimitiveCast(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExPrimitiveCast(*self, wc(old(asset)))) && r->Ok_0 == sz_ExPrimitiveCast(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExPrimitiveCast); reveal(sz_ExPrimitiveCast); }
//@ end
}
pub mod m6 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSetSet" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSetSet" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSetSet new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSetSet(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSetSet,
//@ at body-start
    proof { reveal(enc_ExSetSet); reveal(sz_ExSetSet); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSetSet" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSetSet(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSetSet(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSetSet(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSetSet); reveal(sz_ExSetSet); }
    broadcast use {arms::e_ExEndSet, arms::z_ExEndSet};
    proof { reveal(enc_ExEndSet); reveal(sz_ExEndSet); }
//@ at pre-loop 0
    let ghost h = (enc(*self.set_property, wc(old(asset))) + pcount(self.elements.len() as i32, wc(old(asset))));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.elements@), sz_ExSetSet(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.elements, it.index() as nat, wc(old(asset)))),
        offset == esz(*self.set_property, wc(old(asset))) + 4 + szv(self.elements, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExSetSet);
        szv_mono(self.elements, (it.index() + 1) as nat, self.elements.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.elements, it.index() as nat, wc(old(asset))), enc(self.elements[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndSet" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndSet" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndSet" default
    ensures r.token == EExprToken::ExEndSet,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndSet new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndSet(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndSet,
//@ at body-start
    proof { reveal(enc_ExEndSet); reveal(sz_ExEndSet); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndSet" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndSet(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndSet(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndSet(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndSet); reveal(sz_ExEndSet); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSetMap" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSetMap" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSetMap new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSetMap(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSetMap,
//@ at body-start
    proof { reveal(enc_ExSetMap); reveal(sz_ExSetMap); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSetMap" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSetMap(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSetMap(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSetMap(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSetMap); reveal(sz_ExSetMap); }
    broadcast use {arms::e_ExEndMap, arms::z_ExEndMap};
    proof { reveal(enc_ExEndMap); reveal(sz_ExEndMap); }
//@ at pre-loop 0
    let ghost h = (enc(*self.map_property, wc(old(asset))) + pcount((self.elements.len() / 2) as i32, wc(old(asset))));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.elements@), sz_ExSetMap(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.elements, it.index() as nat, wc(old(asset)))),
        offset == esz(*self.map_property, wc(old(asset))) + 4 + szv(self.elements, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExSetMap);
        szv_mono(self.elements, (it.index() + 1) as nat, self.elements.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.elements, it.index() as nat, wc(old(asset))), enc(self.elements[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndMap" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndMap" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndMap" default
    ensures r.token == EExprToken::ExEndMap,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndMap new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndMap(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndMap,
//@ at body-start
    proof { reveal(enc_ExEndMap); reveal(sz_ExEndMap); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndMap" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndMap(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndMap(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndMap(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndMap); reveal(sz_ExEndMap); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSetConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSetConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSetConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSetConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSetConst,
//@ at body-start
    proof { reveal(enc_ExSetConst); reveal(sz_ExSetConst); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSetConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSetConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSetConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSetConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSetConst); reveal(sz_ExSetConst); }
    broadcast use {arms::e_ExEndSetConst, arms::z_ExEndSetConst};
    proof { reveal(enc_ExEndSetConst); reveal(sz_ExEndSetConst); }
//@ at pre-loop 0
    let ghost h = (enc_pp(self.inner_property, wc(old(asset))) + pcount(self.elements.len() as i32, wc(old(asset))));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.elements@), sz_ExSetConst(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.elements, it.index() as nat, wc(old(asset)))),
        offset == 8 + 4 + szv(self.elements, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExSetConst);
        szv_mono(self.elements, (it.index() + 1) as nat, self.elements.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.elements, it.index() as nat, wc(old(asset))), enc(self.elements[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndSetConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndSetConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndSetConst" default
    ensures r.token == EExprToken::ExEndSetConst,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndSetConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndSetConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndSetConst,
//@ at body-start
    proof { reveal(enc_ExEndSetConst); reveal(sz_ExEndSetConst); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndSetConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndSetConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndSetConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndSetConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndSetConst); reveal(sz_ExEndSetConst); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExMapConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExMapConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExMapConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExMapConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExMapConst,
//@ at body-start
    proof { reveal(enc_ExMapConst); reveal(sz_ExMapConst); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExMapConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExMapConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExMapConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExMapConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExMapConst); reveal(sz_ExMapConst); }
    broadcast use {arms::e_ExEndMapConst, arms::z_ExEndMapConst};
    proof { reveal(enc_ExEndMapConst); reveal(sz_ExEndMapConst); }
//@ at pre-loop 0
    let ghost h = ((enc_pp(self.key_property, wc(old(asset))) + enc_pp(self.value_property, wc(old(asset)))) + pcount((self.elements.len() / 2) as i32, wc(old(asset))));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.elements@), sz_ExMapConst(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.elements, it.index() as nat, wc(old(asset)))),
        offset == 8 + 8 + 4 + szv(self.elements, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExMapConst);
        szv_mono(self.elements, (it.index() + 1) as nat, self.elements.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.elements, it.index() as nat, wc(old(asset))), enc(self.elements[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndMapConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndMapConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndMapConst" default
    ensures r.token == EExprToken::ExEndMapConst,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndMapConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndMapConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndMapConst,
//@ at body-start
    proof { reveal(enc_ExEndMapConst); reveal(sz_ExEndMapConst); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndMapConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndMapConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndMapConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndMapConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndMapConst); reveal(sz_ExEndMapConst); }
    proof { wr_nil(asset); }
//@ end
}
pub mod m7 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExStructMemberContext" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExStructMemberContext" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExStructMemberContext new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExStructMemberContext(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExStructMemberContext,
//@ at body-start
    proof { reveal(enc_ExStructMemberContext); reveal(sz_ExStructMemberContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExStructMemberContext" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExStructMemberContext(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExStructMemberContext(*self, wc(old(asset)))) && r->Ok_0 == sz_ExStructMemberContext(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExStructMemberContext); reveal(sz_ExStructMemberContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLetMulticastDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLetMulticastDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLetMulticastDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLetMulticastDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLetMulticastDelegate,
//@ at body-start
    proof { reveal(enc_ExLetMulticastDelegate); reveal(sz_ExLetMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLetMulticastDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLetMulticastDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLetMulticastDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLetMulticastDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLetMulticastDelegate); reveal(sz_ExLetMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLetDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLetDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLetDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLetDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLetDelegate,
//@ at body-start
    proof { reveal(enc_ExLetDelegate); reveal(sz_ExLetDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLetDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLetDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLetDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLetDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLetDelegate); reveal(sz_ExLetDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLocalVirtualFunction" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLocalVirtualFunction" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalVirtualFunction new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLocalVirtualFunction(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLocalVirtualFunction,
//@ at body-start
    proof { reveal(enc_ExLocalVirtualFunction); reveal(sz_ExLocalVirtualFunction); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLocalVirtualFunction" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLocalVirtualFunction(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLocalVirtualFunction(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLocalVirtualFunction(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLocalVirtualFunction); reveal(sz_ExLocalVirtualFunction); }
    broadcast use {arms::e_ExEndFunctionParms, arms::z_ExEndFunctionParms};
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
//@ at pre-loop 0
    let ghost h = pname(self.virtual_function_name);
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.parameters@), sz_ExLocalVirtualFunction(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.parameters, it.index() as nat, wc(old(asset)))),
        offset == 12 + szv(self.parameters, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExLocalVirtualFunction);
        szv_mono(self.parameters, (it.index() + 1) as nat, self.parameters.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.parameters, it.index() as nat, wc(old(asset))), enc(self.parameters[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLocalFinalFunction" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLocalFinalFunction" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalFinalFunction new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLocalFinalFunction(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLocalFinalFunction,
//@ at body-start
    proof { reveal(enc_ExLocalFinalFunction); reveal(sz_ExLocalFinalFunction); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLocalFinalFunction" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLocalFinalFunction(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLocalFinalFunction(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLocalFinalFunction(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLocalFinalFunction); reveal(sz_ExLocalFinalFunction); }
    broadcast use {arms::e_ExEndFunctionParms, arms::z_ExEndFunctionParms};
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
//@ at pre-loop 0
    let ghost h = p32(self.stack_node.index as u32);
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.parameters@), sz_ExLocalFinalFunction(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.parameters, it.index() as nat, wc(old(asset)))),
        offset == 8 + szv(self.parameters, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExLocalFinalFunction);
        szv_mono(self.parameters, (it.index() + 1) as nat, self.parameters.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.parameters, it.index() as nat, wc(old(asset))), enc(self.parameters[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLocalOutVariable" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLocalOutVariable" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLocalOutVariable new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLocalOutVariable(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLocalOutVariable,
//@ at body-start
    proof { reveal(enc_ExLocalOutVariable); reveal(sz_ExLocalOutVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLocalOutVariable" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLocalOutVariable(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLocalOutVariable(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLocalOutVariable(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLocalOutVariable); reveal(sz_ExLocalOutVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExDeprecatedOp4A" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExDeprecatedOp4A" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExDeprecatedOp4A" default
    ensures r.token == EExprToken::ExDeprecatedOp4A,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExDeprecatedOp4A new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExDeprecatedOp4A(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExDeprecatedOp4A,
//@ at body-start
    proof { reveal(enc_ExDeprecatedOp4A); reveal(sz_ExDeprecatedOp4A); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExDeprecatedOp4A" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExDeprecatedOp4A(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExDeprecatedOp4A(*self, wc(old(asset)))) && r->Ok_0 == sz_ExDeprecatedOp4A(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExDeprecatedOp4A); reveal(sz_ExDeprecatedOp4A); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExInstanceDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExInstanceDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExInstanceDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExInstanceDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExInstanceDelegate,
//@ at body-start
    proof { reveal(enc_ExInstanceDelegate); reveal(sz_ExInstanceDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExInstanceDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExInstanceDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExInstanceDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExInstanceDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExInstanceDelegate); reveal(sz_ExInstanceDelegate); }
//@ end
}
pub mod m8 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExPushExecutionFlow" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExPushExecutionFlow" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExPushExecutionFlow new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExPushExecutionFlow(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExPushExecutionFlow,
//@ at body-start
    proof { reveal(enc_ExPushExecutionFlow); reveal(sz_ExPushExecutionFlow); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExPushExecutionFlow" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExPushExecutionFlow(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExPushExecutionFlow(*self, wc(old(asset)))) && r->Ok_0 == sz_ExPushExecutionFlow(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExPushExecutionFlow); reveal(sz_ExPushExecutionFlow); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExPopExecutionFlow" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExPopExecutionFlow" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExPopExecutionFlow" default
    ensures r.token == EExprToken::ExPopExecutionFlow,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExPopExecutionFlow new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExPopExecutionFlow(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExPopExecutionFlow,
//@ at body-start
    proof { reveal(enc_ExPopExecutionFlow); reveal(sz_ExPopExecutionFlow); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExPopExecutionFlow" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExPopExecutionFlow(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExPopExecutionFlow(*self, wc(old(asset)))) && r->Ok_0 == sz_ExPopExecutionFlow(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExPopExecutionFlow); reveal(sz_ExPopExecutionFlow); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExComputedJump" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExComputedJump" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExComputedJump new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExComputedJump(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExComputedJump,
//@ at body-start
    proof { reveal(enc_ExComputedJump); reveal(sz_ExComputedJump); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExComputedJump" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExComputedJump(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExComputedJump(*self, wc(old(asset)))) && r->Ok_0 == sz_ExComputedJump(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExComputedJump); reveal(sz_ExComputedJump); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExPopExecutionFlowIfNot" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExPopExecutionFlowIfNot" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExPopExecutionFlowIfNot new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExPopExecutionFlowIfNot(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExPopExecutionFlowIfNot,
//@ at body-start
    proof { reveal(enc_ExPopExecutionFlowIfNot); reveal(sz_ExPopExecutionFlowIfNot); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExPopExecutionFlowIfNot" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExPopExecutionFlowIfNot(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExPopExecutionFlowIfNot(*self, wc(old(asset)))) && r->Ok_0 == sz_ExPopExecutionFlowIfNot(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExPopExecutionFlowIfNot); reveal(sz_ExPopExecutionFlowIfNot); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExBreakpoint" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExBreakpoint" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExBreakpoint" default
    ensures r.token == EExprToken::ExBreakpoint,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExBreakpoint new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExBreakpoint(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExBreakpoint,
//@ at body-start
    proof { reveal(enc_ExBreakpoint); reveal(sz_ExBreakpoint); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExBreakpoint" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExBreakpoint(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExBreakpoint(*self, wc(old(asset)))) && r->Ok_0 == sz_ExBreakpoint(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExBreakpoint); reveal(sz_ExBreakpoint); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExInterfaceContext" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExInterfaceContext" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExInterfaceContext new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExInterfaceContext(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExInterfaceContext,
//@ at body-start
    proof { reveal(enc_ExInterfaceContext); reveal(sz_ExInterfaceContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExInterfaceContext" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExInterfaceContext(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExInterfaceContext(*self, wc(old(asset)))) && r->Ok_0 == sz_ExInterfaceContext(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExInterfaceContext); reveal(sz_ExInterfaceContext); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExObjToInterfaceCast" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExObjToInterfaceCast" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExObjToInterfaceCast new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExObjToInterfaceCast(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExObjToInterfaceCast,
//@ at body-start
    proof { reveal(enc_ExObjToInterfaceCast); reveal(sz_ExObjToInterfaceCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExObjToInterfaceCast" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExObjToInterfaceCast(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExObjToInterfaceCast(*self, wc(old(asset)))) && r->Ok_0 == sz_ExObjToInterfaceCast(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExObjToInterfaceCast); reveal(sz_ExObjToInterfaceCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndOfScript" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndOfScript" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndOfScript" default
    ensures r.token == EExprToken::ExEndOfScript,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndOfScript new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndOfScript(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndOfScript,
//@ at body-start
    proof { reveal(enc_ExEndOfScript); reveal(sz_ExEndOfScript); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndOfScript" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndOfScript(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndOfScript(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndOfScript(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndOfScript); reveal(sz_ExEndOfScript); }
    proof { wr_nil(asset); }
//@ end
}
pub mod m9 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExCrossInterfaceCast" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExCrossInterfaceCast" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExCrossInterfaceCast new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExCrossInterfaceCast(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExCrossInterfaceCast,
//@ at body-start
    proof { reveal(enc_ExCrossInterfaceCast); reveal(sz_ExCrossInterfaceCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExCrossInterfaceCast" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExCrossInterfaceCast(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExCrossInterfaceCast(*self, wc(old(asset)))) && r->Ok_0 == sz_ExCrossInterfaceCast(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExCrossInterfaceCast); reveal(sz_ExCrossInterfaceCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExInterfaceToObjCast" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExInterfaceToObjCast" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExInterfaceToObjCast new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExInterfaceToObjCast(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExInterfaceToObjCast,
//@ at body-start
    proof { reveal(enc_ExInterfaceToObjCast); reveal(sz_ExInterfaceToObjCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExInterfaceToObjCast" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExInterfaceToObjCast(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExInterfaceToObjCast(*self, wc(old(asset)))) && r->Ok_0 == sz_ExInterfaceToObjCast(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExInterfaceToObjCast); reveal(sz_ExInterfaceToObjCast); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExWireTracepoint" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExWireTracepoint" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExWireTracepoint" default
    ensures r.token == EExprToken::ExWireTracepoint,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExWireTracepoint new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExWireTracepoint(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExWireTracepoint,
//@ at body-start
    proof { reveal(enc_ExWireTracepoint); reveal(sz_ExWireTracepoint); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExWireTracepoint" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExWireTracepoint(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExWireTracepoint(*self, wc(old(asset)))) && r->Ok_0 == sz_ExWireTracepoint(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExWireTracepoint); reveal(sz_ExWireTracepoint); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSkipOffsetConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSkipOffsetConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSkipOffsetConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSkipOffsetConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSkipOffsetConst,
//@ at body-start
    proof { reveal(enc_ExSkipOffsetConst); reveal(sz_ExSkipOffsetConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSkipOffsetConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSkipOffsetConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSkipOffsetConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSkipOffsetConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSkipOffsetConst); reveal(sz_ExSkipOffsetConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExAddMulticastDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExAddMulticastDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExAddMulticastDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExAddMulticastDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExAddMulticastDelegate,
//@ at body-start
    proof { reveal(enc_ExAddMulticastDelegate); reveal(sz_ExAddMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExAddMulticastDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExAddMulticastDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExAddMulticastDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExAddMulticastDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExAddMulticastDelegate); reveal(sz_ExAddMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExClearMulticastDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExClearMulticastDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExClearMulticastDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExClearMulticastDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExClearMulticastDelegate,
//@ at body-start
    proof { reveal(enc_ExClearMulticastDelegate); reveal(sz_ExClearMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExClearMulticastDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExClearMulticastDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExClearMulticastDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExClearMulticastDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExClearMulticastDelegate); reveal(sz_ExClearMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExTracepoint" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExTracepoint" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExTracepoint" default
    ensures r.token == EExprToken::ExTracepoint,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExTracepoint new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExTracepoint(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExTracepoint,
//@ at body-start
    proof { reveal(enc_ExTracepoint); reveal(sz_ExTracepoint); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExTracepoint" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExTracepoint(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExTracepoint(*self, wc(old(asset)))) && r->Ok_0 == sz_ExTracepoint(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExTracepoint); reveal(sz_ExTracepoint); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLetObj" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLetObj" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLetObj new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLetObj(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLetObj,
//@ at body-start
    proof { reveal(enc_ExLetObj); reveal(sz_ExLetObj); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLetObj" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLetObj(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLetObj(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLetObj(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLetObj); reveal(sz_ExLetObj); }
//@ end
}
pub mod m10 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLetWeakObjPtr" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLetWeakObjPtr" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLetWeakObjPtr new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLetWeakObjPtr(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLetWeakObjPtr,
//@ at body-start
    proof { reveal(enc_ExLetWeakObjPtr); reveal(sz_ExLetWeakObjPtr); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLetWeakObjPtr" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLetWeakObjPtr(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLetWeakObjPtr(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLetWeakObjPtr(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLetWeakObjPtr); reveal(sz_ExLetWeakObjPtr); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExBindDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExBindDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExBindDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExBindDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExBindDelegate,
//@ at body-start
    proof { reveal(enc_ExBindDelegate); reveal(sz_ExBindDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExBindDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExBindDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExBindDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExBindDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExBindDelegate); reveal(sz_ExBindDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExRemoveMulticastDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExRemoveMulticastDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExRemoveMulticastDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExRemoveMulticastDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExRemoveMulticastDelegate,
//@ at body-start
    proof { reveal(enc_ExRemoveMulticastDelegate); reveal(sz_ExRemoveMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExRemoveMulticastDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExRemoveMulticastDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExRemoveMulticastDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExRemoveMulticastDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExRemoveMulticastDelegate); reveal(sz_ExRemoveMulticastDelegate); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExCallMulticastDelegate" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExCallMulticastDelegate" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExCallMulticastDelegate new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExCallMulticastDelegate(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExCallMulticastDelegate,
//@ at body-start
    proof { reveal(enc_ExCallMulticastDelegate); reveal(sz_ExCallMulticastDelegate); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExCallMulticastDelegate" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExCallMulticastDelegate(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExCallMulticastDelegate(*self, wc(old(asset)))) && r->Ok_0 == sz_ExCallMulticastDelegate(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExCallMulticastDelegate); reveal(sz_ExCallMulticastDelegate); }
    broadcast use {arms::e_ExEndFunctionParms, arms::z_ExEndFunctionParms};
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
//@ at pre-loop 0
    let ghost h = (p32(self.stack_node.index as u32) + enc(*self.delegate, wc(old(asset))));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.parameters@), sz_ExCallMulticastDelegate(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.parameters, it.index() as nat, wc(old(asset)))),
        offset == 8 + esz(*self.delegate, wc(old(asset))) + szv(self.parameters, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExCallMulticastDelegate);
        szv_mono(self.parameters, (it.index() + 1) as nat, self.parameters.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.parameters, it.index() as nat, wc(old(asset))), enc(self.parameters[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExLetValueOnPersistentFrame" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExLetValueOnPersistentFrame" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExLetValueOnPersistentFrame new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExLetValueOnPersistentFrame(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExLetValueOnPersistentFrame,
//@ at body-start
    proof { reveal(enc_ExLetValueOnPersistentFrame); reveal(sz_ExLetValueOnPersistentFrame); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExLetValueOnPersistentFrame" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExLetValueOnPersistentFrame(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExLetValueOnPersistentFrame(*self, wc(old(asset)))) && r->Ok_0 == sz_ExLetValueOnPersistentFrame(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExLetValueOnPersistentFrame); reveal(sz_ExLetValueOnPersistentFrame); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExArrayConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExArrayConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExArrayConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExArrayConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExArrayConst,
//@ at body-start
    proof { reveal(enc_ExArrayConst); reveal(sz_ExArrayConst); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExArrayConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExArrayConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExArrayConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExArrayConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExArrayConst); reveal(sz_ExArrayConst); }
    broadcast use {arms::e_ExEndArrayConst, arms::z_ExEndArrayConst};
    proof { reveal(enc_ExEndArrayConst); reveal(sz_ExEndArrayConst); }
//@ at pre-loop 0
    let ghost h = (enc_pp(self.inner_property, wc(old(asset))) + pcount(self.elements.len() as i32, wc(old(asset))));
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.elements@), sz_ExArrayConst(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.elements, it.index() as nat, wc(old(asset)))),
        offset == 8 + 4 + szv(self.elements, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExArrayConst);
        szv_mono(self.elements, (it.index() + 1) as nat, self.elements.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.elements, it.index() as nat, wc(old(asset))), enc(self.elements[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExEndArrayConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExEndArrayConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "Default for ExEndArrayConst" default
    ensures r.token == EExprToken::ExEndArrayConst,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExEndArrayConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExEndArrayConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExEndArrayConst,
//@ at body-start
    proof { reveal(enc_ExEndArrayConst); reveal(sz_ExEndArrayConst); }
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExEndArrayConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExEndArrayConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExEndArrayConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExEndArrayConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExEndArrayConst); reveal(sz_ExEndArrayConst); }
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSoftObjectConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSoftObjectConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSoftObjectConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSoftObjectConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSoftObjectConst,
//@ at body-start
    proof { reveal(enc_ExSoftObjectConst); reveal(sz_ExSoftObjectConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSoftObjectConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSoftObjectConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSoftObjectConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSoftObjectConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSoftObjectConst); reveal(sz_ExSoftObjectConst); }
//@ end
}
pub mod m11 { use super::*; broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExCallMath" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExCallMath" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExCallMath new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExCallMath(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExCallMath,
//@ at body-start
    proof { reveal(enc_ExCallMath); reveal(sz_ExCallMath); }
    proof { assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by { pat_assoc(a, b, d); } }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExCallMath" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExCallMath(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExCallMath(*self, wc(old(asset)))) && r->Ok_0 == sz_ExCallMath(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExCallMath); reveal(sz_ExCallMath); }
    broadcast use {arms::e_ExEndFunctionParms, arms::z_ExEndFunctionParms};
    proof { reveal(enc_ExEndFunctionParms); reveal(sz_ExEndFunctionParms); }
//@ at pre-loop 0
    let ghost h = p32(self.stack_node.index as u32);
    proof { pat_assoc(h, Seq::empty(), Seq::empty()); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.parameters@), sz_ExCallMath(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.parameters, it.index() as nat, wc(old(asset)))),
        offset == 8 + szv(self.parameters, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(sz_ExCallMath);
        szv_mono(self.parameters, (it.index() + 1) as nat, self.parameters.len() as nat, wc(old(asset)));
        pat_assoc(h, encv(self.parameters, it.index() as nat, wc(old(asset))), enc(self.parameters[it.index() as int], wc(old(asset))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExSwitchValue" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExSwitchValue" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExSwitchValue new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExSwitchValue(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExSwitchValue,
//@ at body-start
    proof { reveal(enc_ExSwitchValue); reveal(sz_ExSwitchValue); }
//@ at pre-loop 0
    let ghost h = (p16(num_cases) + p32(end_goto_offset)) + enc(*index_term, rc(old(asset)));
//@ loop 0 it=it
    invariant cases.len() == it.index(), it.seq().len() == num_cases,
        rd(old(asset), asset, h + enc_cases(cases, cases.len() as nat, rc(old(asset)))),
//@ at loop-start 0
    let ghost c0 = cases;
//@ at loop-end 0
    proof {
        let c = rc(old(asset));
        cases_same(c0, cases, c0.len() as nat, c);
        let last = cases[c0.len() as int];
        let e = enc_cases(c0, c0.len() as nat, c);
        pat_assoc(h, e, enc(last.case_index_value_term, c));
        pat_assoc(h, e + enc(last.case_index_value_term, c), p32(last.next_offset));
        pat_assoc(h, (e + enc(last.case_index_value_term, c)) + p32(last.next_offset), enc(last.case_term, c));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExSwitchValue" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExSwitchValue(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExSwitchValue(*self, wc(old(asset)))) && r->Ok_0 == sz_ExSwitchValue(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExSwitchValue); reveal(sz_ExSwitchValue); }
//@ at pre-loop 0
    let ghost h = (p16(self.cases.len() as u16) + p32(self.end_goto_offset)) + enc(*self.index_term, wc(old(asset)));
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.cases@), sz_ExSwitchValue(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + enc_cases(self.cases, it.index() as nat, wc(old(asset)))),
        offset == 6 + esz(*self.index_term, wc(old(asset))) + sz_cases(self.cases, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(enc_ExSwitchValue); reveal(sz_ExSwitchValue);
        let c = wc(old(asset));
        cases_mono(self.cases, (it.index() + 1) as nat, self.cases.len() as nat, c);
        let last = self.cases[it.index() as int];
        let e = enc_cases(self.cases, it.index() as nat, c);
        pat_assoc(h, e, enc(last.case_index_value_term, c));
        pat_assoc(h, e + enc(last.case_index_value_term, c), p32(last.next_offset));
        pat_assoc(h, (e + enc(last.case_index_value_term, c)) + p32(last.next_offset), enc(last.case_term, c));
    }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExInstrumentationEvent" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExInstrumentationEvent" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExInstrumentationEvent new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExInstrumentationEvent(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExInstrumentationEvent,
//@ at body-start
    proof { reveal(enc_ExInstrumentationEvent); reveal(sz_ExInstrumentationEvent); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExInstrumentationEvent" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExInstrumentationEvent(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExInstrumentationEvent(*self, wc(old(asset)))) && r->Ok_0 == sz_ExInstrumentationEvent(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExInstrumentationEvent); reveal(sz_ExInstrumentationEvent); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExArrayGetByRef" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExArrayGetByRef" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExArrayGetByRef new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExArrayGetByRef(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExArrayGetByRef,
//@ at body-start
    proof { reveal(enc_ExArrayGetByRef); reveal(sz_ExArrayGetByRef); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExArrayGetByRef" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExArrayGetByRef(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExArrayGetByRef(*self, wc(old(asset)))) && r->Ok_0 == sz_ExArrayGetByRef(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExArrayGetByRef); reveal(sz_ExArrayGetByRef); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExClassSparseDataVariable" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExClassSparseDataVariable" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExClassSparseDataVariable new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExClassSparseDataVariable(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExClassSparseDataVariable,
//@ at body-start
    proof { reveal(enc_ExClassSparseDataVariable); reveal(sz_ExClassSparseDataVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExClassSparseDataVariable" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExClassSparseDataVariable(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExClassSparseDataVariable(*self, wc(old(asset)))) && r->Ok_0 == sz_ExClassSparseDataVariable(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExClassSparseDataVariable); reveal(sz_ExClassSparseDataVariable); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionEnumEqTrait for ExFieldPathConst" enum_eq params=token
    ensures r == (self.token == *token),
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionDataTrait for ExFieldPathConst" get_token
    ensures r == self.token,
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs ExFieldPathConst new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), enc_ExFieldPathConst(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::ExFieldPathConst,
//@ at body-start
    proof { reveal(enc_ExFieldPathConst); reveal(sz_ExFieldPathConst); }
//@ end
//@ fn unreal_asset/unreal_asset_kismet/src/lib.rs "KismetExpressionTrait for ExFieldPathConst" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    requires sz_ExFieldPathConst(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_ExFieldPathConst(*self, wc(old(asset)))) && r->Ok_0 == sz_ExFieldPathConst(*self, wc(old(asset))),
//@ at body-start
    proof { reveal(enc_ExFieldPathConst); reveal(sz_ExFieldPathConst); }
//@ end
}
}
fn main() {}
