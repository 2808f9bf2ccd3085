"""Writes units/kismet.vrs from the byte layout of Kismet bytecode (FKismetBytecode in the engine's
ScriptSerialization.h), kept here independently of the library's code."""
import os
import re

LAYOUT = """
ExLocalVariable 00 K:variable
ExInstanceVariable 01 K:variable
ExDefaultVariable 02 K:variable
ExReturn 04 E:return_expression
ExJump 06 u32:code_offset
ExJumpIfNot 07 u32:code_offset E:boolean_expression
ExAssert 09 u16:line_number bool:debug_mode E:assert_expression
ExNothing 0B
ExLet 0F K:value E:variable E:expression
ExClassContext 12 E:object_expression u32:offset K:r_value_pointer E:context_expression
ExMetaCast 13 P:class_ptr E:target_expression
ExLetBool 14 E:variable_expression E:assignment_expression
ExEndParmValue 15
ExEndFunctionParms 16
ExSelf 17
ExSkip 18 u32:code_offset E:skip_expression
ExContext 19 E:object_expression u32:offset K:r_value_pointer E:context_expression
ExContextFailSilent 1A E:object_expression u32:offset K:r_value_pointer E:context_expression
ExVirtualFunction 1B N:virtual_function_name L:parameters:ExEndFunctionParms
ExFinalFunction 1C P:stack_node L:parameters:ExEndFunctionParms
ExIntConst 1D i32:value
ExFloatConst 1E f32:value
ExStringConst 1F S8:value
ExObjectConst 20 P:value
ExNameConst 21 N:value
ExRotationConst 22 V:rotator
ExVectorConst 23 V:value
ExByteConst 24 u8:value
ExIntZero 25
ExIntOne 26
ExTrue 27
ExFalse 28
ExTextConst 29 T:value
ExNoObject 2A
ExTransformConst 2B X:value
ExIntConstByte 2C u8:value
ExNoInterface 2D
ExDynamicCast 2E P:class_ptr E:target_expression
ExStructConst 2F P:struct_value i32:struct_size L:value:ExEndStructConst
ExEndStructConst 30
ExSetArray 31 A:_ L:elements:ExEndArray
ExEndArray 32
ExPropertyConst 33 K:property
ExUnicodeStringConst 34 S16:value
ExInt64Const 35 i64:value
ExUInt64Const 36 u64:value
ExDoubleConst 37 f64:value
ExPrimitiveCast 38 cast:conversion_type E:target
ExSetSet 39 E:set_property cnt:elements L:elements:ExEndSet
ExEndSet 3A
ExSetMap 3B E:map_property cnt2:elements L:elements:ExEndMap
ExEndMap 3C
ExSetConst 3D K:inner_property cnt:elements L:elements:ExEndSetConst
ExEndSetConst 3E
ExMapConst 3F K:key_property K:value_property cnt2:elements L:elements:ExEndMapConst
ExEndMapConst 40
ExStructMemberContext 42 K:struct_member_expression E:struct_expression
ExLetMulticastDelegate 43 E:variable_expression E:assignment_expression
ExLetDelegate 44 E:variable_expression E:assignment_expression
ExLocalVirtualFunction 45 N:virtual_function_name L:parameters:ExEndFunctionParms
ExLocalFinalFunction 46 P:stack_node L:parameters:ExEndFunctionParms
ExLocalOutVariable 48 K:variable
ExDeprecatedOp4A 4A
ExInstanceDelegate 4B N:function_name
ExPushExecutionFlow 4C u32:pushing_address
ExPopExecutionFlow 4D
ExComputedJump 4E E:code_offset_expression
ExPopExecutionFlowIfNot 4F E:boolean_expression
ExBreakpoint 50
ExInterfaceContext 51 E:interface_value
ExObjToInterfaceCast 52 P:class_ptr E:target
ExEndOfScript 53
ExCrossInterfaceCast 54 P:class_ptr E:target
ExInterfaceToObjCast 55 P:class_ptr E:target
ExWireTracepoint 5A
ExSkipOffsetConst 5B u32:value
ExAddMulticastDelegate 5C E:delegate E:delegate_to_add
ExClearMulticastDelegate 5D E:delegate_to_clear
ExTracepoint 5E
ExLetObj 5F E:variable_expression E:assignment_expression
ExLetWeakObjPtr 60 E:variable_expression E:assignment_expression
ExBindDelegate 61 N:function_name E:delegate E:object_term
ExRemoveMulticastDelegate 62 E:delegate E:delegate_to_add
ExCallMulticastDelegate 63 P:stack_node E:delegate L:parameters:ExEndFunctionParms
ExLetValueOnPersistentFrame 64 K:destination_property E:assignment_expression
ExArrayConst 65 K:inner_property cnt:elements L:elements:ExEndArrayConst
ExEndArrayConst 66
ExSoftObjectConst 67 E:value
ExCallMath 68 P:stack_node L:parameters:ExEndFunctionParms
ExSwitchValue 69 W:_
ExInstrumentationEvent 6A I:_
ExArrayGetByRef 6B E:array_variable E:array_index
ExClassSparseDataVariable 6C K:variable
ExFieldPathConst 6D E:value
"""
OTHER = {
    "OldCastToken": "ObjectToInterface 46 ObjectToBool 47 InterfaceToBool 49 Max FF",
    "NewCastToken": "ObjectToInterface 00 ObjectToBool 01 InterfaceToBool 02 DoubleToFloat 03 DoubleToFloatArray 04 DoubleToFloatSet 05 "
                    "FloatToDouble 06 FloatToDoubleArray 07 FloatToDoubleSet 08 VectorToVector3f 09 Vector3fToVector 0A FloatToDoubleKeysMap 0B "
                    "DoubleToFloatKeysMap 0C FloatToDoubleValuesMap 0D DoubleToFloatValuesMap 0E FloatToDoubleKeysFloatToDoubleValuesMap 0F "
                    "DoubleToFloatKeysFloatToDoubleValuesMap 10 DoubleToFloatKeysDoubleToFloatValuesMap 11 FloatToDoubleKeysDoubleToFloatValuesMap 12 Max FF",
    "EScriptInstrumentationType": "Class 00 ClassScope 01 Instance 02 Event 03 InlineEvent 04 ResumeEvent 05 PureNodeEntry 06 NodeDebugSite 07 "
                                  "NodeEntry 08 NodeExit 09 PushState 0A RestoreState 0B ResetState 0C SuspendState 0D PopState 0E TunnelEndOfThread 0F Stop 10",
    "EBlueprintTextLiteralType": "Empty 00 LocalizedText 01 InvariantText 02 LiteralString 03 StringTableEntry 04",
}
F = "unreal_asset/unreal_asset_kismet/src/lib.rs"
rows = [(p[0], int(p[1], 16), [x.split(":") for x in p[2:]]) for p in (l.split() for l in LAYOUT.strip().split("\n"))]
NUM = {"u8": ("p8(x.{f})", 1), "u16": ("p16(x.{f})", 2), "u32": ("p32(x.{f})", 4), "i32": ("p32(x.{f} as u32)", 4),
       "u64": ("p64(x.{f})", 8), "i64": ("p64(x.{f} as u64)", 8), "f32": ("p32(x.{f}.0.bits)", 4), "f64": ("p64(x.{f}.0.bits)", 8)}


def part(p):
    """(pattern terms, size term) of one layout element of x"""
    k, f = p[0], p[1]
    if k in NUM:
        return [NUM[k][0].format(f=f)], str(NUM[k][1])
    if k == "E":
        return [f"enc(*x.{f}, c)"], f"esz(*x.{f}, c)"
    if k == "N":
        return [f"pname(x.{f})"], "12"
    if k == "P":
        return [f"p32(x.{f}.index as u32)"], "8"
    if k == "K":
        return [f"enc_pp(x.{f}, c)"], "8"
    if k == "bool":
        return [f"pbool(x.{f}, c)"], "1"
    if k == "cnt":
        return [f"pcount(x.{f}.len() as i32, c)"], "4"
    if k == "cnt2":
        return [f"pcount((x.{f}.len() / 2) as i32, c)"], "4"
    if k == "L":
        return [f"encv(x.{f}, x.{f}.len() as nat, c)", f"p8({tok[p[2]]}u8)"], f"szv(x.{f}, x.{f}.len() as nat, c) + 1"
    if k == "S8":
        return [f"pblob(utf8(x.{f}@))", "p8(0)"], f"(utf8(x.{f}@).len() + 1)"
    if k == "S16":
        return [f"pblob(le16s(utf16(x.{f}@)))", "p8(0)", "p8(0)"], f"(2 * utf16(x.{f}@).len() + 2)"
    if k == "V":
        return [f"pf(x.{f}.{a}.0, c)" for a in "xyz"], "3 * fsz(c)"
    if k == "X":
        return [f"pf(x.{f}.{a}.0, c)" for a in ("rotation.x rotation.y rotation.z rotation.w translation.x translation.y translation.z "
                                               "scale.x scale.y scale.z").split()], "10 * fsz(c)"
    if k == "T":
        return [f"enc_st(*x.{f}, c)"], f"sz_st(*x.{f}, c)"
    if k == "cast":
        return [f"p8(match x.{f} {{ CastToken::Old(t) => OldCastToken_n(t), CastToken::New(t) => NewCastToken_n(t) }})"], "1"
    if k == "A":
        return ["(if newset(c) { oencb(x.assigning_property, c) } else { opi(x.array_inner_prop) })"], \
               "(if newset(c) { oeszb(x.assigning_property, c) } else { 8 })"
    raise KeyError(k)


tok = {n: t for n, t, _ in rows}
out = []
w = out.append
w("""#![allow(warnings)]
use vstd::prelude::*;
verus! {
// generated by tools/gen_kismet.py
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};
""")
w(f"//@ macros {F} declare_expression implement_expression implement_value_expression")
w(r"""
//@ rewrite <\s*impl PackageIndexTrait\s*> ==>
//@ rewrite let (\w+): (\w+) = asset\.read_u8\(\)\?\.try_into\(\)\? ==> let \1: \2 = \2::try_from(asset.read_u8()?)?
//@ rewrite CastToken::(New|Old)\(asset\.read_u8\(\)\?\.try_into\(\)\?\) ==> CastToken::\1(\1CastToken::try_from(asset.read_u8()?)?)
//@ rewrite Ok\((\w+)::new\(asset\)\?\.into\(\)\) ==> Ok(KismetExpression::\1(\1::new(asset)?))
//@ rewrite &(\w+)::default\(\)\.into\(\) ==> &KismetExpression::\1(\1::default())
//@ rewrite (text_literal_type|get_token\(\)|\btoken)\.into\(\) ==> \1.to_u8()
//@ rewrite self\.event_type as u8 ==> self.event_type.to_u8()
//@ rewrite Err\(KismetError::expression\(format!\(.*?\)\)\s*\.into\(\)\) ==> Err(Error::Any)
//@ rewrite \.ok_or_else\(\s*\|\|\s*\{\s*Error::no_data\(\s*".*?"\s*\.to_string\(\),?\s*\)\s*\}\s*,?\s*\) ==> .ok_or(Error::Any)
//@ rewrite self\.(\w+)\.map\(\|(\w+)\| \2\.index\) ==> vx_index(self.\1)
//@ rewrite KismetExpression::write\(\s*([\w.]+)\.as_ref\(\)\s*,\s*asset\s*\) ==> KismetExpression::write(&*\1, asset)
//@ rewrite expr\.write\(asset\) ==> expr.write_d(asset)
//@ rewrite size_of::<(u8|i8|bool)>\(\) ==> 1usize
//@ rewrite size_of::<(u16|i16)>\(\) ==> 2usize
//@ rewrite size_of::<(u32|i32|f32)>\(\) ==> 4usize
//@ rewrite size_of::<(u64|i64|f64|usize)>\(\) ==> 8usize
//@ rewrite OrderedFloat<f64> ==> OrderedFloat<F64>
//@ rewrite OrderedFloat<f32> ==> OrderedFloat<F32>
//@ rewrite (asset\.read_f32::<\w+>\(\)\?|\b\w+) as f64 ==> widen(\1)
//@ rewrite ((?:\w+\.)+0) as f32 ==> narrow(\1)
//@ rewrite String::from_utf8\((\w+)\)\? ==> vx_from_utf8(\1)?
//@ rewrite String::from_utf16\(&(\w+)\)\? ==> vx_from_utf16(&\1)?
//@ rewrite (\w+)\.as_bytes\(\) ==> vx_as_bytes(\1)
//@ rewrite (\w+)\.encode_utf16\(\)\.collect::<Vec<_>>\(\) ==> vx_utf16(\1)
//@ rewrite let \(_, (\w+), _\) = unsafe \{ (\w+)\.align_to::<u8>\(\) \}; ==> let \1 = vx_u16_bytes(&\2);
//@ rewrite &\[0u8; (\d)\] ==> vstd::array::array_as_slice(&[0u8; \1])
//@ rewrite token: &EExprToken ==> token: &EExprToken
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body]
pub fn vx_utf16(s: &str) -> (r: Vec<u16>) ensures r@ == utf16(s@) { s.encode_utf16().collect() }
#[verifier::external_body]
pub fn vx_u16_bytes(v: &Vec<u16>) -> (r: &[u8]) ensures r@ == le16s(v@) { unsafe { v.align_to::<u8>() }.1 }
#[verifier::external_body]
pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, Error>) ensures r is Ok ==> utf8(r->Ok_0@) == b@ { String::from_utf8(b).map_err(|_| Error::Any) }
#[verifier::external_body]
pub fn vx_from_utf16(b: &Vec<u16>) -> (r: Result<String, Error>) ensures r is Ok ==> utf16(r->Ok_0@) == b@ { String::from_utf16(b).map_err(|_| Error::Any) }
pub fn vx_index(o: Option<PackageIndex>) -> (r: Option<i32>) ensures o is Some ==> r == Some(o->0.index), o is None ==> r is None { match o { Some(p) => Some(p.index), None => None } }
pub struct OrderedFloat<T>(pub T);
""")
B = "unreal_asset/unreal_asset_base/src"
w(f"//@ struct {B}/types/mod.rs PackageIndex derive=Copy,Clone,PartialEq,Eq")
w(f"//@ fn {B}/types/mod.rs PackageIndex new params=index\n    ensures r.index == index,\n//@ end")
for s, ps in (("Vector", "x,y,z"), ("Vector4", "x,y,z,w"), ("Transform", "rotation,translation,scale")):
    w(f"//@ struct {B}/types/vector.rs {s}")
    w(f"//@ fn {B}/types/vector.rs {s} new params={ps}\n    ensures " + ", ".join(f"r.{a} == {a}" for a in ps.split(",")) + ",\n//@ end")
for e in ("EExprToken", *OTHER):
    w(f"//@ enumnum {F} {e}")
w("#[derive(Copy, Clone)]\npub enum CastToken { Old(OldCastToken), New(NewCastToken) }")
for s in ("FieldPath", "KismetPropertyPointer", "FScriptText", "KismetSwitchCase"):
    w(f"//@ struct {F} {s}")
w(f"//@ const {F} KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION")
for n, _, _ in rows:
    w(f"//@ struct {F} {n}")
w("pub enum KismetExpression { " + ", ".join(f"{n}({n})" for n, _, _ in rows) + " }")
w(f"//@ variants {F} KismetExpression " + " ".join(n for n, _, _ in rows))
w("""
// ---------------------------------------------------------------- the stored form
pub open spec fn newpp(c: Ctx) -> bool { on(c.ov) >= on(ObjectVersion::VER_UE4_ADDED_PACKAGE_OWNER) }
pub open spec fn newset(c: Ctx) -> bool { on(c.ov) >= on(ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE) }
pub open spec fn lwc(c: Ctx) -> bool { o5n(c.o5) >= o5n(ObjectVersionUE5::LARGE_WORLD_COORDINATES) }
pub open spec fn fsz(c: Ctx) -> nat { if lwc(c) { 8 } else { 4 } }
pub open spec fn pf(v: F64, c: Ctx) -> Seq<Pat> { if lwc(c) { p64(v.bits) } else if !c.exact && nan(v) { anyb(4) } else { p32(narrow_(v).bits) } }
pub open spec fn enc_names(v: Vec<FName>, n: nat) -> Seq<Pat> decreases n { if n == 0 { Seq::empty() } else { enc_names(v, (n - 1) as nat) + pname(v[n - 1]) } }
pub open spec fn opi(o: Option<PackageIndex>) -> Seq<Pat> { match o { Some(p) => p32(p.index as u32), None => Seq::empty() } }
pub open spec fn enc_pp(x: KismetPropertyPointer, c: Ctx) -> Seq<Pat> {
    if newpp(c) { match x.new { Some(f) => (p32(f.path.len() as i32 as u32) + enc_names(f.path, f.path.len() as nat)) + p32(f.resolved_owner.index as u32), None => Seq::empty() } } else { opi(x.old) }
}
pub open spec fn oenc(o: Option<KismetExpression>, c: Ctx) -> Seq<Pat> decreases o, 0int { match o { Some(e) => enc(e, c), None => Seq::empty() } }
pub open spec fn oesz(o: Option<KismetExpression>, c: Ctx) -> nat decreases o, 0int { match o { Some(e) => esz(e, c), None => 0 } }
pub open spec fn oencb(o: Option<Box<KismetExpression>>, c: Ctx) -> Seq<Pat> decreases o, 0int { match o { Some(e) => enc(*e, c), None => Seq::empty() } }
pub open spec fn oeszb(o: Option<Box<KismetExpression>>, c: Ctx) -> nat decreases o, 0int { match o { Some(e) => esz(*e, c), None => 0 } }
pub open spec fn oname(o: Option<FName>) -> Seq<Pat> { match o { Some(n) => pname(n), None => Seq::empty() } }
pub open spec fn enc_st(x: FScriptText, c: Ctx) -> Seq<Pat> decreases x, 0int {
    let t = p8(EBlueprintTextLiteralType_n(x.text_literal_type));
    match x.text_literal_type {
        EBlueprintTextLiteralType::Empty => t,
        EBlueprintTextLiteralType::LocalizedText => ((t + oenc(x.localized_source, c)) + oenc(x.localized_key, c)) + oenc(x.localized_namespace, c),
        EBlueprintTextLiteralType::InvariantText => t + oenc(x.invariant_literal_string, c),
        EBlueprintTextLiteralType::LiteralString => t + oenc(x.literal_string, c),
        EBlueprintTextLiteralType::StringTableEntry => ((t + opi(x.string_table_asset)) + oenc(x.string_table_id, c)) + oenc(x.string_table_key, c),
    }
}
pub open spec fn sz_st(x: FScriptText, c: Ctx) -> nat decreases x, 0int {
    match x.text_literal_type {
        EBlueprintTextLiteralType::Empty => 1,
        EBlueprintTextLiteralType::LocalizedText => 1 + oesz(x.localized_source, c) + oesz(x.localized_key, c) + oesz(x.localized_namespace, c),
        EBlueprintTextLiteralType::InvariantText => 1 + oesz(x.invariant_literal_string, c),
        EBlueprintTextLiteralType::LiteralString => 1 + oesz(x.literal_string, c),
        EBlueprintTextLiteralType::StringTableEntry => 9 + oesz(x.string_table_id, c) + oesz(x.string_table_key, c),
    }
}
pub open spec fn encv(v: Vec<KismetExpression>, n: nat, c: Ctx) -> Seq<Pat> decreases v, n when n <= v.len() via encv_d { if n == 0 { Seq::empty() } else { encv(v, (n - 1) as nat, c) + enc(v[n - 1], c) } }
#[via_fn]
proof fn encv_d(v: Vec<KismetExpression>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn szv(v: Vec<KismetExpression>, n: nat, c: Ctx) -> nat decreases v, n when n <= v.len() via szv_d { if n == 0 { 0 } else { szv(v, (n - 1) as nat, c) + esz(v[n - 1], c) } }
#[via_fn]
proof fn szv_d(v: Vec<KismetExpression>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn enc_cases(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) -> Seq<Pat> decreases v, n when n <= v.len() via enc_cases_d {
    if n == 0 { Seq::empty() } else { ((enc_cases(v, (n - 1) as nat, c) + enc(v[n - 1].case_index_value_term, c)) + p32(v[n - 1].next_offset)) + enc(v[n - 1].case_term, c) }
}
#[via_fn]
proof fn enc_cases_d(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn sz_cases(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) -> nat decreases v, n when n <= v.len() via sz_cases_d {
    if n == 0 { 0 } else { sz_cases(v, (n - 1) as nat, c) + esz(v[n - 1].case_index_value_term, c) + 4 + esz(v[n - 1].case_term, c) }
}
#[via_fn]
proof fn sz_cases_d(v: Vec<KismetSwitchCase>, n: nat, c: Ctx) { if n > 0 { assert(decreases_to!(v => v[n - 1])); } }
#[verifier::opaque]
pub open spec fn enc_ExSwitchValue(x: ExSwitchValue, c: Ctx) -> Seq<Pat> decreases x, 0int {
    (((p16(x.cases.len() as u16) + p32(x.end_goto_offset)) + enc(*x.index_term, c)) + enc_cases(x.cases, x.cases.len() as nat, c)) + enc(*x.default_term, c)
}
#[verifier::opaque]
pub open spec fn sz_ExSwitchValue(x: ExSwitchValue, c: Ctx) -> nat decreases x, 0int { 6 + esz(*x.index_term, c) + sz_cases(x.cases, x.cases.len() as nat, c) + esz(*x.default_term, c) }
#[verifier::opaque]
pub open spec fn enc_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) -> Seq<Pat> {
    let t = p8(EScriptInstrumentationType_n(x.event_type));
    if x.event_type == EScriptInstrumentationType::InlineEvent { t + oname(x.event_name) } else { t }
}
#[verifier::opaque]
pub open spec fn sz_ExInstrumentationEvent(x: ExInstrumentationEvent, c: Ctx) -> nat { if x.event_type == EScriptInstrumentationType::InlineEvent { 13 } else { 1 } }
""")


def nest(ts):
    if not ts:
        return "Seq::empty()"
    r = ts[0]
    for t in ts[1:]:
        r = f"({r} + {t})"
    return r


REC = {"E", "L", "T", "A"}
for n, t, ps in rows:
    if n in ("ExSwitchValue", "ExInstrumentationEvent"):
        continue
    terms, sizes = [], []
    for p in ps:
        a, b = part(p)
        terms += a
        sizes.append(b)
    dec = " decreases x, 0int" if any(p[0] in REC for p in ps) else ""
    w(f"#[verifier::opaque]\npub open spec fn enc_{n}(x: {n}, c: Ctx) -> Seq<Pat>{dec} {{ {nest(terms)} }}")
    w(f"#[verifier::opaque]\npub open spec fn sz_{n}(x: {n}, c: Ctx) -> nat{dec} {{ {' + '.join(sizes) or '0'} }}")
KE = "KismetExpression"
w(f"pub open spec fn token_of(e: {KE}) -> EExprToken {{ match e {{ " + ", ".join(f"{KE}::{n}(x) => x.token" for n, _, _ in rows) + " } }")
w(f"pub open spec fn kidx(e: {KE}) -> int {{ match e {{ " + ", ".join(f"{KE}::{n}(x) => {i}" for i, (n, _, _) in enumerate(rows)) + " } }")
w(f"/// the value is of the kind its token names")
w(f"pub open spec fn kind(e: {KE}) -> EExprToken {{ match e {{ " + ", ".join(f"{KE}::{n}(x) => EExprToken::{n}" for n, _, _ in rows) + " } }")
w(f"#[verifier::opaque]\npub open spec fn body(e: {KE}, c: Ctx) -> Seq<Pat> decreases e, 0int {{ match e {{ " + ", ".join(f"{KE}::{n}(x) => enc_{n}(x, c)" for n, _, _ in rows) + " } }")
w(f"#[verifier::opaque]\npub open spec fn bsz(e: {KE}, c: Ctx) -> nat decreases e, 0int {{ match e {{ " + ", ".join(f"{KE}::{n}(x) => sz_{n}(x, c)" for n, _, _ in rows) + " } }")
w(f"pub open spec fn enc(e: {KE}, c: Ctx) -> Seq<Pat> decreases e, 1int {{ p8(EExprToken_n(token_of(e))) + body(e, c) }}")
w(f"pub open spec fn esz(e: {KE}, c: Ctx) -> nat decreases e, 1int {{ 1 + bsz(e, c) }}")
w("pub mod arms {\nuse super::*;\npub proof fn enc_body(e: KismetExpression, c: Ctx) ensures enc(e, c) == p8(EExprToken_n(token_of(e))) + body(e, c), esz(e, c) == 1 + bsz(e, c) { reveal(body); reveal(bsz); }")
for n, _, _ in rows:
    w(f"pub broadcast proof fn b_{n}(x: {n}, c: Ctx) ensures #[trigger] body({KE}::{n}(x), c) == enc_{n}(x, c) {{ reveal(body); }}")
    w(f"pub broadcast proof fn e_{n}(x: {n}, c: Ctx) ensures #[trigger] enc({KE}::{n}(x), c) == p8(EExprToken_n(x.token)) + enc_{n}(x, c), esz({KE}::{n}(x), c) == 1 + sz_{n}(x, c) {{ reveal(body); reveal(bsz); }}")
    w(f"pub broadcast proof fn z_{n}(x: {n}, c: Ctx) ensures #[trigger] esz({KE}::{n}(x), c) == 1 + sz_{n}(x, c) {{ reveal(bsz); }}")
    w(f"pub broadcast proof fn s_{n}(x: {n}, c: Ctx) ensures #[trigger] bsz({KE}::{n}(x), c) == sz_{n}(x, c) {{ reveal(bsz); }}")
w("pub broadcast group group_arms { " + ", ".join(f"e_{n}" for n, _, _ in rows) + " }\n}")
w("// ---- the numbers of the format ----")
for k in range(0, len(rows), 10):
    w(f"proof fn tokens{k // 10}() ensures " + ", ".join(f"EExprToken_n(EExprToken::{n}) == {t}" for n, t, _ in rows[k:k + 10]) + " {}")
for e, l in OTHER.items():
    q = l.split()
    w(f"proof fn numbers_{e}() ensures " + ", ".join(f"{e}_n({e}::{a}) == {int(b, 16)}" for a, b in zip(q[::2], q[1::2])) + " {}")
w("""
pub open spec fn is_end(t: EExprToken) -> bool { """ + " || ".join(f"t == EExprToken::{n}" for n, _, ps in rows if not ps) + """ }
proof fn end_enc(e: KismetExpression, c: Ctx)
    requires is_end(token_of(e)), kind(e) == token_of(e),
    ensures enc(e, c) == p8(EExprToken_n(token_of(e))),
{ reveal(body); """ + " ".join(f"reveal(enc_{n});" for n, _, ps in rows if not ps) + """ assert(body(e, c) == Seq::<Pat>::empty()); }
proof fn encv_same(a: Vec<KismetExpression>, b: Vec<KismetExpression>, n: nat, c: Ctx)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures encv(a, n, c) == encv(b, n, c),
    decreases n,
{ if n > 0 { encv_same(a, b, (n - 1) as nat, c); } }
proof fn cases_same(a: Vec<KismetSwitchCase>, b: Vec<KismetSwitchCase>, n: nat, c: Ctx)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures enc_cases(a, n, c) == enc_cases(b, n, c),
    decreases n,
{ if n > 0 { cases_same(a, b, (n - 1) as nat, c); } }
proof fn names_same(a: Vec<FName>, b: Vec<FName>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures enc_names(a, n) == enc_names(b, n),
    decreases n,
{ if n > 0 { names_same(a, b, (n - 1) as nat); } }
proof fn szv_mono(v: Vec<KismetExpression>, m: nat, n: nat, c: Ctx)
    requires m <= n <= v.len(),
    ensures szv(v, m, c) <= szv(v, n, c),
    decreases n,
{ if m < n { szv_mono(v, m, (n - 1) as nat, c); } }
proof fn cases_mono(v: Vec<KismetSwitchCase>, m: nat, n: nat, c: Ctx)
    requires m <= n <= v.len(),
    ensures sz_cases(v, m, c) <= sz_cases(v, n, c),
    decreases n,
{ if m < n { cases_mono(v, m, (n - 1) as nat, c); } }
// ---------------------------------------------------------------- the code
""")
ND = 'attr="#[verifier::exec_allows_no_decreases_clause]"'
for fn, con in (("from_old", "r.old == Some(old), r.new is None"), ("from_new", "r.new == Some(new), r.old is None")):
    w(f"//@ fn {F} KismetPropertyPointer {fn} params={fn[5:]}\n    ensures {con},\n//@ end")
w(f"//@ fn {F} FieldPath new params=path,resolved_owner\n    ensures r.path == path, r.resolved_owner == resolved_owner,\n//@ end")
w(f"//@ fn {F} KismetSwitchCase new params=case_index_value_term,next_offset,case_term\n    ensures r.case_index_value_term == case_index_value_term, r.next_offset == next_offset, r.case_term == case_term,\n//@ end")
w(f"""//@ fn {F} - read_kismet_string params=asset {ND}
    ensures r is Ok ==> rd(old(asset), final(asset), pblob(utf8(r->Ok_0@)) + p8(0)),
//@ at pre-loop 0
    proof {{ rdc_nil(asset); assert(pblob(data@) =~= Seq::empty()) by {{ reveal(pblob); }} }}
//@ loop 0
    invariant_except_break rdc(old(asset), asset, pblob(data@)),
    ensures rd(old(asset), asset, pblob(data@) + p8(0)),
//@ at loop-start 0
    let ghost d0 = data@;
//@ at loop-end 0
    proof {{ assert(pblob(d0) + p8(read) =~= pblob(data@)) by {{ reveal(pblob); reveal(p8); }} }}
//@ end
//@ fn {F} - write_kismet_string params=string,asset
    requires utf8(string@).len() + 1 <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pblob(utf8(string@)) + p8(0)) && r->Ok_0 == utf8(string@).len() + 1,
//@ at body-start
    proof {{ assert forall|s: Seq<u8>| s.len() == 1 && s[0] == 0 implies #[trigger] pblob(s) == p8(0) by {{ reveal(pblob); reveal(p8); assert(s =~= seq![0u8]); }} }}
//@ end
//@ fn {F} - read_kismet_unicode_string params=asset {ND}
    ensures r is Ok ==> rd(old(asset), final(asset), (pblob(le16s(utf16(r->Ok_0@))) + p8(0)) + p8(0)),
//@ at pre-loop 0
    proof {{ rdc_nil(asset); assert(pblob(le16s(data@)) =~= Seq::empty()) by {{ reveal(pblob); }} }}
//@ loop 0
    invariant_except_break rdc(old(asset), asset, pblob(le16s(data@))),
    ensures rd(old(asset), asset, (pblob(le16s(data@)) + p8(0)) + p8(0)),
//@ at loop-start 0
    let ghost d0 = data@;
//@ at loop-end 0
    ;
    proof {{
        let v = ((b2 as u16) << 8) | b1 as u16;
        assert((v & 0xff) as u8 == b1 && ((v >> 8) & 0xff) as u8 == b2) by (bit_vector) requires v == ((b2 as u16) << 8) | b1 as u16;
        assert((pblob(le16s(d0)) + p8(b1)) + p8(b2) =~= pblob(le16s(data@))) by {{
            reveal(pblob); reveal(p8);
            assert(data@ == d0.push(v));
            assert forall|i: int| 0 <= i < 2 * d0.len() implies le16s(data@)[i] == le16s(d0)[i] by {{ assert(data@[i / 2] == d0[i / 2]); }}
        }}
    }}
//@ end
//@ fn {F} - write_kismet_unicode_string params=string,asset
    requires 2 * utf16(string@).len() + 2 <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), (pblob(le16s(utf16(string@))) + p8(0)) + p8(0)) && r->Ok_0 == 2 * utf16(string@).len() + 2,
//@ at body-start
    proof {{
        assert forall|s: Seq<u8>| s.len() == 2 && s[0] == 0 && s[1] == 0 implies #[trigger] pblob(s) == p8(0) + p8(0) by {{ reveal(pblob); reveal(p8); assert(lit(s) =~= lit(seq![0u8]) + lit(seq![0u8])); }}
        pat_assoc(pblob(le16s(utf16(string@))), p8(0), p8(0));
    }}
//@ end
//@ fn {F} KismetPropertyPointer new params=asset {ND}
    ensures r is Ok ==> rd(old(asset), final(asset), enc_pp(r->Ok_0, rc(old(asset)))),
//@ at pre-loop 0
    let ghost cnt = num_entries;
    proof {{ assert((num_entries as usize) as i32 == num_entries) by (bit_vector); }}
//@ loop 0 it=it
    invariant names.len() == it.index(), it.seq().len() == num_entries as usize, (num_entries as usize) as i32 == num_entries,
        rd(old(asset), asset, p32(num_entries as u32) + enc_names(names, names.len() as nat)),
//@ at loop-start 0
    let ghost n0 = names;
//@ at loop-end 0
    proof {{
        names_same(n0, names, n0.len() as nat);
        pat_assoc(p32(num_entries as u32), enc_names(n0, n0.len() as nat), pname(names[n0.len() as int]));
    }}
//@ end
//@ fn {F} KismetPropertyPointer write params=asset {ND}
    ensures r is Ok ==> wr(old(asset), final(asset), enc_pp(*self, wc(old(asset)))) && r->Ok_0 == 8,
//@ loop 0 it=it
    invariant newpp(wc(old(asset))), self.new == Some(*new), it.seq() == refs_of(new.path@),
        wr(old(asset), asset, p32(new.path.len() as i32 as u32) + enc_names(new.path, it.index() as nat)),
//@ at loop-end 0
    proof {{ pat_assoc(p32(new.path.len() as i32 as u32), enc_names(new.path, it.index() as nat), pname(new.path[it.index() as int])); }}
//@ end
//@ fn {F} FScriptText new params=asset {ND}
    ensures r is Ok ==> rd(old(asset), final(asset), enc_st(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn {F} FScriptText write params=asset {ND}
    requires sz_st(*self, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc_st(*self, wc(old(asset)))) && r->Ok_0 == sz_st(*self, wc(old(asset))),
//@ end
//@ fn {F} {KE} read_arr params=asset,end_token {ND}
    requires is_end(end_token),
    ensures r is Ok ==> rd(old(asset), final(asset), encv(r->Ok_0, r->Ok_0.len() as nat, rc(old(asset))) + p8(EExprToken_n(end_token))),
//@ at pre-loop 0
    proof {{ rdc_nil(asset); }}
//@ loop 0
    invariant_except_break rdc(old(asset), asset, encv(data, data.len() as nat, rc(old(asset)))),
    invariant is_end(end_token),
    ensures rd(old(asset), asset, encv(data, data.len() as nat, rc(old(asset))) + p8(EExprToken_n(end_token))),
//@ at loop-start 0
    let ghost d0 = data;
    proof {{
        assert forall|e: KismetExpression| kind(e) == token_of(e) && token_of(e) == end_token implies #[trigger] enc(e, rc(old(asset))) == p8(EExprToken_n(end_token)) by {{ end_enc(e, rc(old(asset))); }}
    }}
//@ at loop-end 0
    proof {{ encv_same(d0, data, d0.len() as nat, rc(old(asset))); }}
//@ end
//@ fn {F} {KE} write params=expr,asset {ND}
    requires esz(*expr, wc(old(asset))) <= usize::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), enc(*expr, wc(old(asset)))) && r->Ok_0 == esz(*expr, wc(old(asset))),
//@ at body-start
    proof {{ arms::enc_body(*expr, wc(asset)); }}
//@ end
// what enum_dispatch generates for the expression traits""")
CH = 12
for k in range(0, len(rows), CH):
    nm = "write_d" + (str(k // CH) if k else "")
    rest = f", _ => self.write_d{k // CH + 1}(asset)" if k + CH < len(rows) else ", _ => Err(Error::Any)"
    sfx = str(k // CH) if k else ""
    rq = f"requires kidx(*self) >= {k}, " if k else ""
    r1 = [f", _ => self.{m}{k // CH + 1}({a})" if k + CH < len(rows) else ", _ => " + z for m, a, z in (("get_token", "", "EExprToken::ExMax"), ("enum_eq", "token", "false"))]
    w(f"impl {KE} {{ pub fn get_token{sfx}(&self) -> (r: EExprToken) {rq}ensures r == token_of(*self) {{ match self {{ " + ", ".join(f"{KE}::{n}(x) => x.get_token()" for n, _, _ in rows[k:k + CH]) + r1[0] + " } }")
    w(f"    pub fn enum_eq{sfx}(&self, token: &EExprToken) -> (r: bool) {rq}ensures r == (token_of(*self) == *token) {{ match self {{ " + ", ".join(f"{KE}::{n}(x) => x.enum_eq(token)" for n, _, _ in rows[k:k + CH]) + r1[1] + " } } }")
    w(f"impl {KE} {{\n    #[verifier::exec_allows_no_decreases_clause]\n    pub fn {nm}<Writer: ArchiveWriter>(&self, asset: &mut Writer) -> (r: Result<usize, Error>)\n        requires bsz(*self, wc(old(asset))) <= usize::MAX,\n"
      f"        ensures r is Ok ==> wr(old(asset), final(asset), body(*self, wc(old(asset)))) && r->Ok_0 == bsz(*self, wc(old(asset))),\n    {{ let ghost c = wc(asset); match self {{ "
      + ", ".join(f"{KE}::{n}(x) => {{ proof {{ arms::b_{n}(*x, c); arms::s_{n}(*x, c); }} x.write(asset) }}" for n, _, _ in rows[k:k + CH]) + rest + " } }\n}")
BU = "broadcast use {group_arch, group_plen, pname_len, narrow_widen, rd_any32};"
# one function with 90 arms: checked once per group of first bytes (the groups cover all bytes)
GROUPS = 23
w(f"pub open spec fn grp(v: u8) -> int {{ if v < 110 {{ v as int / 5 }} else {{ 22 }} }}\nproof fn grp_all(v: u8) ensures 0 <= grp(v) < {GROUPS} {{}}")
ens = "r is Ok ==> rd(old(asset), final(asset), enc(r->Ok_0, rc(old(asset)))) && kind(r->Ok_0) == token_of(r->Ok_0)"
w(f"impl {KE} {{ #[verifier::external_body]\npub fn new<Reader: ArchiveReader>(asset: &mut Reader) -> (r: Result<Self, Error>) ensures {ens} {{ unimplemented!() }} }}")
for k in range(GROUPS):
    w(f"pub mod g{k} {{ use super::*; {BU}")
    w(f"""//@ fn {F} {KE} new params=asset as=new_g{k} {ND}
    requires old(asset).post().len() > 0 ==> grp(old(asset).post()[0]) == {k},
    ensures {ens},
//@ at body-start
    broadcast use {{arms::group_arms, rd_first}};
//@ end
}}""")
w("pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }")
for i, (n, t, ps) in enumerate(rows):
    if i % 8 == 0:
        w(("}" if i else "") + f"\npub mod m{i // 8} {{ use super::*; {BU}")
    nd = f" {ND}"
    hints, loopr, loopw = [], [], []
    w(f'//@ fn {F} "KismetExpressionEnumEqTrait for {n}" enum_eq params=token\n    ensures r == (self.token == *token),\n//@ end')
    w(f'//@ fn {F} "KismetExpressionDataTrait for {n}" get_token\n    ensures r == self.token,\n//@ end')
    if not ps:
        w(f'//@ fn {F} "Default for {n}" default\n    ensures r.token == EExprToken::{n},\n//@ end')
    w(f"//@ fn {F} {n} new params=asset{nd}\n    ensures r is Ok ==> rd(old(asset), final(asset), enc_{n}(r->Ok_0, rc(old(asset)))) && r->Ok_0.token == EExprToken::{n},")
    w(f"//@ at body-start\n    proof {{ reveal(enc_{n}); reveal(sz_{n}); }}" + ("\n    proof { rd_nil(asset); }" if not ps else ""))
    lists = [p for p in ps if p[0] == "L"]
    if lists:
        # (head + encv) + end == head + (encv + end)
        head = []
        for p in ps:
            if p[0] != "L":
                head += part(p)[0]
        h = nest([a.replace("x.", "y.") for a in head]).replace(", c)", ", rc(old(asset)))").replace("(c)", "(rc(old(asset)))")
        f = lists[0][1]
        w(f"    proof {{ assert forall|a: Seq<Pat>, b: Seq<Pat>, d: Seq<Pat>| #[trigger] (a + (b + d)) == (a + b) + d by {{ pat_assoc(a, b, d); }} }}")
    if n == "ExSwitchValue":
        w("""//@ at pre-loop 0
    let ghost h = (p16(num_cases) + p32(end_goto_offset)) + enc(*index_term, rc(old(asset)));
//@ loop 0 it=it
    invariant cases.len() == it.index(), it.seq().len() == num_cases,
        rd(old(asset), asset, h + enc_cases(cases, cases.len() as nat, rc(old(asset)))),
//@ at loop-start 0
    let ghost c0 = cases;
//@ at loop-end 0
    proof {
        let c = rc(old(asset));
        cases_same(c0, cases, c0.len() as nat, c);
        let last = cases[c0.len() as int];
        let e = enc_cases(c0, c0.len() as nat, c);
        pat_assoc(h, e, enc(last.case_index_value_term, c));
        pat_assoc(h, e + enc(last.case_index_value_term, c), p32(last.next_offset));
        pat_assoc(h, (e + enc(last.case_index_value_term, c)) + p32(last.next_offset), enc(last.case_term, c));
    }""")
    w("//@ end")
    w(f'//@ fn {F} "KismetExpressionTrait for {n}" write params=asset{nd}\n    requires sz_{n}(*self, wc(old(asset))) <= usize::MAX,\n'
      f"    ensures r is Ok ==> wr(old(asset), final(asset), enc_{n}(*self, wc(old(asset)))) && r->Ok_0 == sz_{n}(*self, wc(old(asset))),")
    w(f"//@ at body-start\n    proof {{ reveal(enc_{n}); reveal(sz_{n}); }}" + ("\n    proof { wr_nil(asset); }" if not ps else ""))
    lists = [p for p in ps if p[0] == "L"]
    if lists:
        q = lists[0][2]
        w(f"    broadcast use {{arms::e_{q}, arms::z_{q}}};\n    proof {{ reveal(enc_{q}); reveal(sz_{q}); }}")
    if n == "ExSwitchValue":
        w("""//@ at pre-loop 0
    let ghost h = (p16(self.cases.len() as u16) + p32(self.end_goto_offset)) + enc(*self.index_term, wc(old(asset)));
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.cases@), sz_ExSwitchValue(*self, wc(old(asset))) <= usize::MAX,
        wr(old(asset), asset, h + enc_cases(self.cases, it.index() as nat, wc(old(asset)))),
        offset == 6 + esz(*self.index_term, wc(old(asset))) + sz_cases(self.cases, it.index() as nat, wc(old(asset))),
//@ at loop-start 0
    proof {
        reveal(enc_ExSwitchValue); reveal(sz_ExSwitchValue);
        let c = wc(old(asset));
        cases_mono(self.cases, (it.index() + 1) as nat, self.cases.len() as nat, c);
        let last = self.cases[it.index() as int];
        let e = enc_cases(self.cases, it.index() as nat, c);
        pat_assoc(h, e, enc(last.case_index_value_term, c));
        pat_assoc(h, e + enc(last.case_index_value_term, c), p32(last.next_offset));
        pat_assoc(h, (e + enc(last.case_index_value_term, c)) + p32(last.next_offset), enc(last.case_term, c));
    }""")
    elif lists:
        head, sizes = [], []
        for p in ps:
            if p[0] != "L":
                a, b = part(p)
                head += a
                sizes.append(b)
        f = lists[0][1]

        def sub(s):
            s = re.sub(r"\bx\.", "self.", s)
            return re.sub(r"\bc\)", "wc(old(asset)))", s)
        h = sub(nest(head))
        c = "wc(old(asset))"
        w(f"""//@ at pre-loop 0
    let ghost h = {h};
    proof {{ pat_assoc(h, Seq::empty(), Seq::empty()); }}
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.{f}@), sz_{n}(*self, {c}) <= usize::MAX,
        wr(old(asset), asset, h + encv(self.{f}, it.index() as nat, {c})),
        offset == {sub(' + '.join(sizes))} + szv(self.{f}, it.index() as nat, {c}),
//@ at loop-start 0
    proof {{
        reveal(sz_{n});
        szv_mono(self.{f}, (it.index() + 1) as nat, self.{f}.len() as nat, {c});
        pat_assoc(h, encv(self.{f}, it.index() as nat, {c}), enc(self.{f}[it.index() as int], {c}));
    }}""")
    w("//@ end")
w("}\n}\nfn main() {}")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units/kismet.vrs")
open(p, "w").write("\n".join(out) + "\n")
