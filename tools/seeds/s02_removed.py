property = "S02"
needs = "a map property that removes a key and also holds it"
breaks = "removed keys that the map holds as well are lost when the map is written"
edits = [("unreal_asset/unreal_asset_properties/src/map_property.rs",
"""        asset.write_i32::<LE>(match self.keys_to_remove {
            Some(ref e) => e.len(),
            None => 0,
        } as i32)?;

        if let Some(ref keys_to_remove) = self.keys_to_remove {
            for key in keys_to_remove {
                key.write(asset, false)?;
            }
        }
""",
"""        let keys_to_remove = match self.keys_to_remove {
            Some(ref e) => e
                .iter()
                .filter(|e| !self.value.contains_key(*e))
                .collect::<Vec<_>>(),
            None => Vec::new(),
        };
        asset.write_i32::<LE>(keys_to_remove.len() as i32)?;

        for key in keys_to_remove {
            key.write(asset, false)?;
        }
""")]
deps = ["unreal_asset_base", "unreal_asset_properties", "unreal_helpers", "byteorder", "ordered-float"]
demo = "mod ar {\n" + open("/verif/harness/src/ar.rs").read() + r'''
}
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::reader::ArchiveWriter;
use unreal_asset_base::unversioned::Ancestry;
use unreal_asset_properties::Property;
use std::io::Write;
fn main() {
    let mut a = ar::Ar::new(EngineVersion::VER_UE4_25);
    let names: Vec<_> = ["Map", "MapProperty", "IntProperty", "StrProperty", "None"].iter().map(|n| a.names.get_mut().add_fname(n)).collect();
    let mut body: Vec<u8> = vec![];
    body.extend(1i32.to_le_bytes());
    body.extend(7i32.to_le_bytes());
    body.extend(1i32.to_le_bytes());
    body.extend(7i32.to_le_bytes());
    body.extend([3, 0, 0, 0, b'h', b'i', 0]);
    a.write_fname(&names[0]).unwrap();
    a.write_fname(&names[1]).unwrap();
    a.write_all(&(body.len() as i32).to_le_bytes()).unwrap();
    a.write_all(&0i32.to_le_bytes()).unwrap();
    a.write_fname(&names[2]).unwrap();
    a.write_fname(&names[3]).unwrap();
    a.write_all(&[0]).unwrap();
    a.write_all(&body).unwrap();
    let bytes = a.bytes();
    let mut r = a.like(bytes.clone());
    let p = Property::new(&mut r, Ancestry::default(), None, true).unwrap().unwrap();
    assert_eq!(r.at() as usize, bytes.len());
    let mut w = a.like(vec![]);
    Property::write(&p, &mut w, true).unwrap();
    assert_eq!(w.bytes(), bytes);
}
'''
