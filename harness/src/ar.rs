//! One archive for tests: a cursor with every version knob the archive traits ask about.
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use unreal_asset_base::containers::{IndexedMap, NameMap, SharedResource};
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait};
use unreal_asset_base::engine_version::{get_object_versions, EngineVersion};
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::{ArchiveReader, ArchiveTrait, ArchiveType, ArchiveWriter};
use unreal_asset_base::types::fname::FName;
use unreal_asset_base::types::{PackageIndex, SerializedNameHeader};
use unreal_asset_base::unversioned::Usmap;
use unreal_asset_base::Error;
use unreal_helpers::{read_ext::read_fstring_len, Guid, UnrealReadExt, UnrealWriteExt};

pub struct Ar {
    pub c: Cursor<Vec<u8>>,
    pub engine: EngineVersion,
    pub object: ObjectVersion,
    pub object5: ObjectVersionUE5,
    pub custom: Vec<CustomVersion>,
    pub unversioned: bool,
    pub edl: bool,
    pub names: SharedResource<NameMap>,
    pub mappings: Option<Usmap>,
    pub array_over: IndexedMap<String, String>,
    pub key_over: IndexedMap<String, String>,
    pub value_over: IndexedMap<String, String>,
    pub parent: Option<FName>,
    pub objects: Vec<FName>,
}
#[allow(dead_code)]
impl Ar {
    pub fn new(engine: EngineVersion) -> Self {
        let (object, object5) = get_object_versions(engine);
        Ar {
            c: Cursor::new(vec![]), engine, object, object5,
            custom: CustomVersion::get_default_custom_version_container(engine),
            unversioned: false, edl: false, names: NameMap::new(), mappings: None,
            array_over: IndexedMap::new(), key_over: IndexedMap::new(), value_over: IndexedMap::new(), parent: None, objects: vec![],
        }
    }
    pub fn like(&self, bytes: Vec<u8>) -> Self {
        Ar {
            c: Cursor::new(bytes), engine: self.engine, object: self.object, object5: self.object5, custom: self.custom.clone(),
            unversioned: self.unversioned, edl: self.edl, names: self.names.clone(), mappings: self.mappings.clone(),
            array_over: self.array_over.clone(), key_over: self.key_over.clone(), value_over: self.value_over.clone(),
            parent: self.parent.clone(), objects: self.objects.clone(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> { self.c.get_ref().clone() }
    pub fn bytes_(&self) -> Vec<u8> { self.c.get_ref().clone() }
    pub fn at(&self) -> u64 { self.c.position() }
}
impl ArchiveTrait<PackageIndex> for Ar {
    fn get_archive_type(&self) -> ArchiveType { ArchiveType::UAsset }
    fn get_custom_version<T>(&self) -> CustomVersion where T: CustomVersionTrait + Into<i32> {
        self.custom.iter().find(|c| c.guid == T::GUID).cloned().unwrap_or_else(|| CustomVersion::new(T::GUID, 0))
    }
    fn has_unversioned_properties(&self) -> bool { self.unversioned }
    fn use_event_driven_loader(&self) -> bool { self.edl }
    fn position(&mut self) -> u64 { self.c.position() }
    fn get_name_map(&self) -> SharedResource<NameMap> { self.names.clone() }
    fn get_array_struct_type_override(&self) -> &IndexedMap<String, String> { &self.array_over }
    fn get_map_key_override(&self) -> &IndexedMap<String, String> { &self.key_over }
    fn get_map_value_override(&self) -> &IndexedMap<String, String> { &self.value_over }
    fn get_engine_version(&self) -> EngineVersion { self.engine }
    fn get_object_version(&self) -> ObjectVersion { self.object }
    fn get_object_version_ue5(&self) -> ObjectVersionUE5 { self.object5 }
    fn get_mappings(&self) -> Option<&Usmap> { self.mappings.as_ref() }
    fn get_parent_class_export_name(&self) -> Option<FName> { self.parent.clone() }
    fn get_object_name(&self, i: PackageIndex) -> Option<FName> { self.get_object_name_packageindex(i) }
    fn get_object_name_packageindex(&self, i: PackageIndex) -> Option<FName> {
        if i.index < 0 { self.objects.get((-(i.index as i64) - 1) as usize).cloned() } else { None }
    }
}
impl ArchiveReader<PackageIndex> for Ar {
    fn read_fstring(&mut self) -> Result<Option<String>, Error> { Ok(self.c.read_fstring()?) }
    fn read_fstring_name_header(&mut self, h: SerializedNameHeader) -> Result<Option<String>, Error> {
        if h.len == 0 { return Ok(None); }
        Ok(read_fstring_len(&mut self.c, h.len, h.is_wide)?)
    }
    fn read_guid(&mut self) -> io::Result<Guid> { self.c.read_guid() }
    fn read_bool(&mut self) -> io::Result<bool> { self.c.read_bool() }
}
impl ArchiveWriter<PackageIndex> for Ar {
    fn write_fstring(&mut self, v: Option<&str>) -> Result<usize, Error> { Ok(self.c.write_fstring(v)?) }
    fn write_guid(&mut self, g: &Guid) -> io::Result<()> { self.c.write_guid(g) }
    fn write_bool(&mut self, v: bool) -> io::Result<()> { self.c.write_bool(v) }
}
impl Read for Ar { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.c.read(b) } }
impl Write for Ar {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.c.write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for Ar { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.c.seek(p) } }
