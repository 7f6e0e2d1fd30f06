//! C29: published constants and their values in lcms2 2.13. Generated by tools/gen_consts.py.
#![allow(deprecated)]
use lcms2::types::signatures;
use lcms2::types::Signature;
/// (group, [(name, the library's value, lcms2's value)])
pub fn table() -> Vec<(&'static str, Vec<(&'static str, Signature, u32)>)> {
    vec![
        ("signatures::tag_type", vec![
            ("CHROMATICITY", signatures::tag_type::CHROMATICITY, 0x6368726d),
            ("COLORANT_ORDER", signatures::tag_type::COLORANT_ORDER, 0x636c726f),
            ("COLORANT_TABLE", signatures::tag_type::COLORANT_TABLE, 0x636c7274),
            ("CRD_INFO", signatures::tag_type::CRD_INFO, 0x63726469),
            ("CURVE", signatures::tag_type::CURVE, 0x63757276),
            ("DATA", signatures::tag_type::DATA, 0x64617461),
            ("DICT", signatures::tag_type::DICT, 0x64696374),
            ("DATE_TIME", signatures::tag_type::DATE_TIME, 0x6474696d),
            ("DEVICE_SETTINGS", signatures::tag_type::DEVICE_SETTINGS, 0x64657673),
            ("LUT16", signatures::tag_type::LUT16, 0x6d667432),
            ("LUT8", signatures::tag_type::LUT8, 0x6d667431),
            ("LUTA_TO_B", signatures::tag_type::LUTA_TO_B, 0x6d414220),
            ("LUTB_TO_A", signatures::tag_type::LUTB_TO_A, 0x6d424120),
            ("MEASUREMENT", signatures::tag_type::MEASUREMENT, 0x6d656173),
            ("MULTI_LOCALIZED_UNICODE", signatures::tag_type::MULTI_LOCALIZED_UNICODE, 0x6d6c7563),
            ("MULTI_PROCESS_ELEMENT", signatures::tag_type::MULTI_PROCESS_ELEMENT, 0x6d706574),
            ("NAMED_COLOR", signatures::tag_type::NAMED_COLOR, 0x6e636f6c),
            ("NAMED_COLOR2", signatures::tag_type::NAMED_COLOR2, 0x6e636c32),
            ("PARAMETRIC_CURVE", signatures::tag_type::PARAMETRIC_CURVE, 0x70617261),
            ("PROFILE_SEQUENCE_DESC", signatures::tag_type::PROFILE_SEQUENCE_DESC, 0x70736571),
            ("PROFILE_SEQUENCE_ID", signatures::tag_type::PROFILE_SEQUENCE_ID, 0x70736964),
            ("RESPONSE_CURVE_SET16", signatures::tag_type::RESPONSE_CURVE_SET16, 0x72637332),
            ("S15_FIXED16_ARRAY", signatures::tag_type::S15_FIXED16_ARRAY, 0x73663332),
            ("SCREENING", signatures::tag_type::SCREENING, 0x7363726e),
            ("SIGNATURE", signatures::tag_type::SIGNATURE, 0x73696720),
            ("TEXT", signatures::tag_type::TEXT, 0x74657874),
            ("TEXT_DESCRIPTION", signatures::tag_type::TEXT_DESCRIPTION, 0x64657363),
            ("U16_FIXED16_ARRAY", signatures::tag_type::U16_FIXED16_ARRAY, 0x75663332),
            ("UCR_BG", signatures::tag_type::UCR_BG, 0x62666420),
            ("UINT16_ARRAY", signatures::tag_type::UINT16_ARRAY, 0x75693136),
            ("UINT32_ARRAY", signatures::tag_type::UINT32_ARRAY, 0x75693332),
            ("UINT64_ARRAY", signatures::tag_type::UINT64_ARRAY, 0x75693634),
            ("UINT8_ARRAY", signatures::tag_type::UINT8_ARRAY, 0x75693038),
            ("VCGT", signatures::tag_type::VCGT, 0x76636774),
            ("VIEWING_CONDITIONS", signatures::tag_type::VIEWING_CONDITIONS, 0x76696577),
            ("XYZ", signatures::tag_type::XYZ, 0x58595a20),
        ]),
        ("signatures::tag", vec![
            ("A_TO_B0", signatures::tag::A_TO_B0, 0x41324230),
            ("A_TO_B1", signatures::tag::A_TO_B1, 0x41324231),
            ("A_TO_B2", signatures::tag::A_TO_B2, 0x41324232),
            ("BLUE_COLORANT", signatures::tag::BLUE_COLORANT, 0x6258595a),
            ("BLUE_MATRIX_COLUMN", signatures::tag::BLUE_MATRIX_COLUMN, 0x6258595a),
            ("BLUE_TRC", signatures::tag::BLUE_TRC, 0x62545243),
            ("B_TO_A0", signatures::tag::B_TO_A0, 0x42324130),
            ("B_TO_A1", signatures::tag::B_TO_A1, 0x42324131),
            ("B_TO_A2", signatures::tag::B_TO_A2, 0x42324132),
            ("CALIBRATION_DATE_TIME", signatures::tag::CALIBRATION_DATE_TIME, 0x63616c74),
            ("CHAR_TARGET", signatures::tag::CHAR_TARGET, 0x74617267),
            ("CHROMATIC_ADAPTATION", signatures::tag::CHROMATIC_ADAPTATION, 0x63686164),
            ("CHROMATICITY", signatures::tag::CHROMATICITY, 0x6368726d),
            ("COLORANT_ORDER", signatures::tag::COLORANT_ORDER, 0x636c726f),
            ("COLORANT_TABLE", signatures::tag::COLORANT_TABLE, 0x636c7274),
            ("COLORANT_TABLE_OUT", signatures::tag::COLORANT_TABLE_OUT, 0x636c6f74),
            ("COLORIMETRIC_INTENT_IMAGE_STATE", signatures::tag::COLORIMETRIC_INTENT_IMAGE_STATE, 0x63696973),
            ("COPYRIGHT", signatures::tag::COPYRIGHT, 0x63707274),
            ("CRD_INFO", signatures::tag::CRD_INFO, 0x63726469),
            ("DATA", signatures::tag::DATA, 0x64617461),
            ("DATE_TIME", signatures::tag::DATE_TIME, 0x6474696d),
            ("DEVICE_MFG_DESC", signatures::tag::DEVICE_MFG_DESC, 0x646d6e64),
            ("DEVICE_MODEL_DESC", signatures::tag::DEVICE_MODEL_DESC, 0x646d6464),
            ("DEVICE_SETTINGS", signatures::tag::DEVICE_SETTINGS, 0x64657673),
            ("D_TO_B0", signatures::tag::D_TO_B0, 0x44324230),
            ("D_TO_B1", signatures::tag::D_TO_B1, 0x44324231),
            ("D_TO_B2", signatures::tag::D_TO_B2, 0x44324232),
            ("D_TO_B3", signatures::tag::D_TO_B3, 0x44324233),
            ("B_TO_D0", signatures::tag::B_TO_D0, 0x42324430),
            ("B_TO_D1", signatures::tag::B_TO_D1, 0x42324431),
            ("B_TO_D2", signatures::tag::B_TO_D2, 0x42324432),
            ("B_TO_D3", signatures::tag::B_TO_D3, 0x42324433),
            ("GAMUT", signatures::tag::GAMUT, 0x67616d74),
            ("GRAY_TRC", signatures::tag::GRAY_TRC, 0x6b545243),
            ("GREEN_COLORANT", signatures::tag::GREEN_COLORANT, 0x6758595a),
            ("GREEN_MATRIX_COLUMN", signatures::tag::GREEN_MATRIX_COLUMN, 0x6758595a),
            ("GREEN_TRC", signatures::tag::GREEN_TRC, 0x67545243),
            ("LUMINANCE", signatures::tag::LUMINANCE, 0x6c756d69),
            ("MEASUREMENT", signatures::tag::MEASUREMENT, 0x6d656173),
            ("MEDIA_BLACK_POINT", signatures::tag::MEDIA_BLACK_POINT, 0x626b7074),
            ("MEDIA_WHITE_POINT", signatures::tag::MEDIA_WHITE_POINT, 0x77747074),
            ("NAMED_COLOR", signatures::tag::NAMED_COLOR, 0x6e636f6c),
            ("NAMED_COLOR2", signatures::tag::NAMED_COLOR2, 0x6e636c32),
            ("OUTPUT_RESPONSE", signatures::tag::OUTPUT_RESPONSE, 0x72657370),
            ("PERCEPTUAL_RENDERING_INTENT_GAMUT", signatures::tag::PERCEPTUAL_RENDERING_INTENT_GAMUT, 0x72696730),
            ("PREVIEW0", signatures::tag::PREVIEW0, 0x70726530),
            ("PREVIEW1", signatures::tag::PREVIEW1, 0x70726531),
            ("PREVIEW2", signatures::tag::PREVIEW2, 0x70726532),
            ("PROFILE_DESCRIPTION", signatures::tag::PROFILE_DESCRIPTION, 0x64657363),
            ("PROFILE_DESCRIPTION_ML", signatures::tag::PROFILE_DESCRIPTION_ML, 0x6473636d),
            ("PROFILE_SEQUENCE_DESC", signatures::tag::PROFILE_SEQUENCE_DESC, 0x70736571),
            ("PROFILE_SEQUENCE_ID", signatures::tag::PROFILE_SEQUENCE_ID, 0x70736964),
            ("PS2_CRD0", signatures::tag::PS2_CRD0, 0x70736430),
            ("PS2_CRD1", signatures::tag::PS2_CRD1, 0x70736431),
            ("PS2_CRD2", signatures::tag::PS2_CRD2, 0x70736432),
            ("PS2_CRD3", signatures::tag::PS2_CRD3, 0x70736433),
            ("PS2_CSA", signatures::tag::PS2_CSA, 0x70733273),
            ("PS2_RENDERING_INTENT", signatures::tag::PS2_RENDERING_INTENT, 0x70733269),
            ("RED_COLORANT", signatures::tag::RED_COLORANT, 0x7258595a),
            ("RED_MATRIX_COLUMN", signatures::tag::RED_MATRIX_COLUMN, 0x7258595a),
            ("RED_TRC", signatures::tag::RED_TRC, 0x72545243),
            ("SATURATION_RENDERING_INTENT_GAMUT", signatures::tag::SATURATION_RENDERING_INTENT_GAMUT, 0x72696732),
            ("SCREENING_DESC", signatures::tag::SCREENING_DESC, 0x73637264),
            ("SCREENING", signatures::tag::SCREENING, 0x7363726e),
            ("TECHNOLOGY", signatures::tag::TECHNOLOGY, 0x74656368),
            ("UCR_BG", signatures::tag::UCR_BG, 0x62666420),
            ("VIEWING_COND_DESC", signatures::tag::VIEWING_COND_DESC, 0x76756564),
            ("VIEWING_CONDITIONS", signatures::tag::VIEWING_CONDITIONS, 0x76696577),
            ("VCGT", signatures::tag::VCGT, 0x76636774),
            ("META", signatures::tag::META, 0x6d657461),
            ("ARGYLL_ARTS", signatures::tag::ARGYLL_ARTS, 0x61727473),
        ]),
        ("signatures::color_space", vec![
            ("XYZ", signatures::color_space::XYZ, 0x58595a20),
            ("LAB", signatures::color_space::LAB, 0x4c616220),
            ("LUV", signatures::color_space::LUV, 0x4c757620),
            ("YCBCR", signatures::color_space::YCBCR, 0x59436272),
            ("YXY", signatures::color_space::YXY, 0x59787920),
            ("RGB", signatures::color_space::RGB, 0x52474220),
            ("GRAY", signatures::color_space::GRAY, 0x47524159),
            ("HSV", signatures::color_space::HSV, 0x48535620),
            ("HLS", signatures::color_space::HLS, 0x484c5320),
            ("CMYK", signatures::color_space::CMYK, 0x434d594b),
            ("CMY", signatures::color_space::CMY, 0x434d5920),
            ("MCH1", signatures::color_space::MCH1, 0x4d434831),
            ("MCH2", signatures::color_space::MCH2, 0x4d434832),
            ("MCH3", signatures::color_space::MCH3, 0x4d434833),
            ("MCH4", signatures::color_space::MCH4, 0x4d434834),
            ("MCH5", signatures::color_space::MCH5, 0x4d434835),
            ("MCH6", signatures::color_space::MCH6, 0x4d434836),
            ("MCH7", signatures::color_space::MCH7, 0x4d434837),
            ("MCH8", signatures::color_space::MCH8, 0x4d434838),
            ("MCH9", signatures::color_space::MCH9, 0x4d434839),
            ("MCHA", signatures::color_space::MCHA, 0x4d434841),
            ("MCHB", signatures::color_space::MCHB, 0x4d434842),
            ("MCHC", signatures::color_space::MCHC, 0x4d434843),
            ("MCHD", signatures::color_space::MCHD, 0x4d434844),
            ("MCHE", signatures::color_space::MCHE, 0x4d434845),
            ("MCHF", signatures::color_space::MCHF, 0x4d434846),
            ("NAMED", signatures::color_space::NAMED, 0x6e6d636c),
            ("COLOR1", signatures::color_space::COLOR1, 0x31434c52),
            ("COLOR2", signatures::color_space::COLOR2, 0x32434c52),
            ("COLOR3", signatures::color_space::COLOR3, 0x33434c52),
            ("COLOR4", signatures::color_space::COLOR4, 0x34434c52),
            ("COLOR5", signatures::color_space::COLOR5, 0x35434c52),
            ("COLOR6", signatures::color_space::COLOR6, 0x36434c52),
            ("COLOR7", signatures::color_space::COLOR7, 0x37434c52),
            ("COLOR8", signatures::color_space::COLOR8, 0x38434c52),
            ("COLOR9", signatures::color_space::COLOR9, 0x39434c52),
            ("COLOR10", signatures::color_space::COLOR10, 0x41434c52),
            ("COLOR11", signatures::color_space::COLOR11, 0x42434c52),
            ("COLOR12", signatures::color_space::COLOR12, 0x43434c52),
            ("COLOR13", signatures::color_space::COLOR13, 0x44434c52),
            ("COLOR14", signatures::color_space::COLOR14, 0x45434c52),
            ("COLOR15", signatures::color_space::COLOR15, 0x46434c52),
            ("LUVK", signatures::color_space::LUVK, 0x4c75764b),
        ]),
        ("signatures::profile_class", vec![
            ("INPUT", signatures::profile_class::INPUT, 0x73636e72),
            ("DISPLAY", signatures::profile_class::DISPLAY, 0x6d6e7472),
            ("OUTPUT", signatures::profile_class::OUTPUT, 0x70727472),
            ("LINK", signatures::profile_class::LINK, 0x6c696e6b),
            ("ABSTRACT", signatures::profile_class::ABSTRACT, 0x61627374),
            ("COLOR_SPACE", signatures::profile_class::COLOR_SPACE, 0x73706163),
            ("NAMED_COLOR", signatures::profile_class::NAMED_COLOR, 0x6e6d636c),
        ]),
        ("signatures::platform", vec![
            ("MACINTOSH", signatures::platform::MACINTOSH, 0x4150504c),
            ("MICROSOFT", signatures::platform::MICROSOFT, 0x4d534654),
            ("SOLARIS", signatures::platform::SOLARIS, 0x53554e57),
            ("SGI", signatures::platform::SGI, 0x53474920),
            ("TALIGENT", signatures::platform::TALIGENT, 0x54474e54),
            ("UNICES", signatures::platform::UNICES, 0x2a6e6978),
        ]),
        ("signatures::technology", vec![
            ("DIGITAL_CAMERA", signatures::technology::DIGITAL_CAMERA, 0x6463616d),
            ("FILM_SCANNER", signatures::technology::FILM_SCANNER, 0x6673636e),
            ("REFLECTIVE_SCANNER", signatures::technology::REFLECTIVE_SCANNER, 0x7273636e),
            ("INKJET_PRINTER", signatures::technology::INKJET_PRINTER, 0x696a6574),
            ("THERMAL_WAX_PRINTER", signatures::technology::THERMAL_WAX_PRINTER, 0x74776178),
            ("ELECTROPHOTOGRAPHIC_PRINTER", signatures::technology::ELECTROPHOTOGRAPHIC_PRINTER, 0x6570686f),
            ("ELECTROSTATIC_PRINTER", signatures::technology::ELECTROSTATIC_PRINTER, 0x65737461),
            ("DYE_SUBLIMATION_PRINTER", signatures::technology::DYE_SUBLIMATION_PRINTER, 0x64737562),
            ("PHOTOGRAPHIC_PAPER_PRINTER", signatures::technology::PHOTOGRAPHIC_PAPER_PRINTER, 0x7270686f),
            ("FILM_WRITER", signatures::technology::FILM_WRITER, 0x6670726e),
            ("VIDEO_MONITOR", signatures::technology::VIDEO_MONITOR, 0x7669646d),
            ("VIDEO_CAMERA", signatures::technology::VIDEO_CAMERA, 0x76696463),
            ("PROJECTION_TELEVISION", signatures::technology::PROJECTION_TELEVISION, 0x706a7476),
            ("CRT_DISPLAY", signatures::technology::CRT_DISPLAY, 0x43525420),
            ("PM_DISPLAY", signatures::technology::PM_DISPLAY, 0x504d4420),
            ("AM_DISPLAY", signatures::technology::AM_DISPLAY, 0x414d4420),
            ("PHOTO_CD", signatures::technology::PHOTO_CD, 0x4b504344),
            ("PHOTO_IMAGE_SETTER", signatures::technology::PHOTO_IMAGE_SETTER, 0x696d6773),
            ("GRAVURE", signatures::technology::GRAVURE, 0x67726176),
            ("OFFSET_LITHOGRAPHY", signatures::technology::OFFSET_LITHOGRAPHY, 0x6f666673),
            ("SILKSCREEN", signatures::technology::SILKSCREEN, 0x73696c6b),
            ("FLEXOGRAPHY", signatures::technology::FLEXOGRAPHY, 0x666c6578),
            ("MOTION_PICTURE_FILM_SCANNER", signatures::technology::MOTION_PICTURE_FILM_SCANNER, 0x6d706673),
            ("MOTION_PICTURE_FILM_RECORDER", signatures::technology::MOTION_PICTURE_FILM_RECORDER, 0x6d706672),
            ("DIGITAL_MOTION_PICTURE_CAMERA", signatures::technology::DIGITAL_MOTION_PICTURE_CAMERA, 0x646d7063),
            ("DIGITAL_CINEMA_PROJECTOR", signatures::technology::DIGITAL_CINEMA_PROJECTOR, 0x64636a70),
        ]),
        ("signatures::stage", vec![
            ("CURVE_SET_ELEM_TYPE", signatures::stage::CURVE_SET_ELEM_TYPE, 0x63767374),
            ("MATRIX_ELEM_TYPE", signatures::stage::MATRIX_ELEM_TYPE, 0x6d617466),
            ("C_LUT_ELEM_TYPE", signatures::stage::C_LUT_ELEM_TYPE, 0x636c7574),
            ("B_ACS_ELEM_TYPE", signatures::stage::B_ACS_ELEM_TYPE, 0x62414353),
            ("E_ACS_ELEM_TYPE", signatures::stage::E_ACS_ELEM_TYPE, 0x65414353),
            ("XYZ_TO_LAB_ELEM_TYPE", signatures::stage::XYZ_TO_LAB_ELEM_TYPE, 0x6c327820),
            ("LAB_TO_XYZ_ELEM_TYPE", signatures::stage::LAB_TO_XYZ_ELEM_TYPE, 0x78326c20),
            ("NAMED_COLOR_ELEM_TYPE", signatures::stage::NAMED_COLOR_ELEM_TYPE, 0x6e636c20),
            ("LAB_V2_TO_V4", signatures::stage::LAB_V2_TO_V4, 0x32203420),
            ("LAB_V4_TO_V2", signatures::stage::LAB_V4_TO_V2, 0x34203220),
            ("IDENTITY_ELEM_TYPE", signatures::stage::IDENTITY_ELEM_TYPE, 0x69646e20),
            ("LAB_TO_FLOAT_PCS", signatures::stage::LAB_TO_FLOAT_PCS, 0x64326c20),
            ("FLOAT_PCS_TO_LAB", signatures::stage::FLOAT_PCS_TO_LAB, 0x6c326420),
            ("XYZ_TO_FLOAT_PCS", signatures::stage::XYZ_TO_FLOAT_PCS, 0x64327820),
            ("FLOAT_PCS_TO_XYZ", signatures::stage::FLOAT_PCS_TO_XYZ, 0x78326420),
            ("CLIP_NEGATIVES_ELEM_TYPE", signatures::stage::CLIP_NEGATIVES_ELEM_TYPE, 0x636c7020),
        ]),
        ("signatures::plugin_type", vec![
            ("MAGIC", signatures::plugin_type::MAGIC, 0x61637070),
            ("TRANSFORM", signatures::plugin_type::TRANSFORM, 0x7a666d48),
            ("INTERPOLATION", signatures::plugin_type::INTERPOLATION, 0x696e7048),
            ("TAG_TYPE", signatures::plugin_type::TAG_TYPE, 0x74797048),
            ("TAG", signatures::plugin_type::TAG, 0x74616748),
            ("FORMATTERS", signatures::plugin_type::FORMATTERS, 0x66726d48),
            ("RENDERING_INTENT", signatures::plugin_type::RENDERING_INTENT, 0x696e7448),
            ("PARAMETRIC_CURVE", signatures::plugin_type::PARAMETRIC_CURVE, 0x70617248),
            ("MULTI_PROCESS_ELEMENT", signatures::plugin_type::MULTI_PROCESS_ELEMENT, 0x6d706548),
            ("OPTIMIZATION", signatures::plugin_type::OPTIMIZATION, 0x6f707448),
        ]),
        ("signatures::curve_segment", vec![
            ("FORMULA", signatures::curve_segment::FORMULA, 0x70617266),
            ("SAMPLED", signatures::curve_segment::SAMPLED, 0x73616d66),
            ("SEGMENTED", signatures::curve_segment::SEGMENTED, 0x63757266),
        ]),
        ("signatures", vec![
            ("MAGIC_NUMBER", signatures::MAGIC_NUMBER, 0x61637370),
            ("LCMS_SIGNATURE", signatures::LCMS_SIGNATURE, 0x6c636d73),
            ("PERCEPTUAL_REFERENCE_MEDIUM_GAMUT", signatures::PERCEPTUAL_REFERENCE_MEDIUM_GAMUT, 0x70726d67),
            ("SCENE_COLORIMETRY_ESTIMATES", signatures::SCENE_COLORIMETRY_ESTIMATES, 0x73636f65),
            ("SCENE_APPEARANCE_ESTIMATES", signatures::SCENE_APPEARANCE_ESTIMATES, 0x73617065),
            ("FOCAL_PLANE_COLORIMETRY_ESTIMATES", signatures::FOCAL_PLANE_COLORIMETRY_ESTIMATES, 0x66706365),
            ("REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY", signatures::REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY, 0x72686f63),
            ("REFLECTION_PRINT_OUTPUT_COLORIMETRY", signatures::REFLECTION_PRINT_OUTPUT_COLORIMETRY, 0x72706f63),
            ("STATUS_A", signatures::STATUS_A, 0x53746141),
            ("STATUS_E", signatures::STATUS_E, 0x53746145),
            ("STATUS_I", signatures::STATUS_I, 0x53746149),
            ("STATUS_T", signatures::STATUS_T, 0x53746154),
            ("STATUS_M", signatures::STATUS_M, 0x5374614d),
            ("DN", signatures::DN, 0x444e2020),
            ("DNP", signatures::DNP, 0x444e2050),
            ("DNN", signatures::DNN, 0x444e4e20),
            ("DNNP", signatures::DNNP, 0x444e4e50),
        ]),
    ]
}
