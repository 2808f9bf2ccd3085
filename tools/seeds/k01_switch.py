property = "K01"
needs = "a switch expression with other than one case"
breaks = "the in-memory size of a switch counts the offsets of its cases once, so every code offset behind it is wrong"
edits = [("unreal_asset/unreal_asset_kismet/src/lib.rs",
"""            offset += size_of::<u32>();
            asset.write_u32::<LE>(case.next_offset)?;
            offset += KismetExpression::write(&case.case_term, asset)?;
        }
        offset += KismetExpression::write(self.default_term.as_ref(), asset)?;
        Ok(offset)
""",
"""            asset.write_u32::<LE>(case.next_offset)?;
            offset += KismetExpression::write(&case.case_term, asset)?;
        }
        offset += self.cases.len().min(255) * size_of::<u32>();
        offset += KismetExpression::write(self.default_term.as_ref(), asset)?;
        Ok(offset)
""")]
needs = "a switch expression with more than 255 cases"
breaks = "the in-memory size of a large switch is too small, so every code offset behind it is wrong"
deps = ["unreal_asset_base", "unreal_asset_kismet", "unreal_helpers", "byteorder"]
demo = "mod ar {\n" + open("/verif/harness/src/ar.rs").read() + r'''
}
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_kismet::{EExprToken, ExSwitchValue, ExTrue, KismetExpression, KismetSwitchCase};
fn t() -> KismetExpression { ExTrue::default().into() }
fn main() {
    for n in [0usize, 1, 2, 255, 256, 300] {
        let mut a = ar::Ar::new(EngineVersion::VER_UE4_25);
        let s = ExSwitchValue {
            token: EExprToken::ExSwitchValue,
            end_goto_offset: 7,
            index_term: Box::new(t()),
            default_term: Box::new(t()),
            cases: (0..n).map(|i| KismetSwitchCase::new(t(), i as u32, t())).collect(),
        };
        let size = KismetExpression::write(&s.into(), &mut a).unwrap();
        assert_eq!(size, 1 + 2 + 4 + 1 + n * 6 + 1, "{n} cases");
    }
}
'''
