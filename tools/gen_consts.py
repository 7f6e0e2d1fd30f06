#!/usr/bin/env python3
"""Writes harness/src/consts.rs (C29): every published constant of the library next to the value that lcms2 2.13 gives to
the constant of the same meaning. Values come from the C headers: the ones bindgen turned into tests/include/bindings.rs,
and the ones that are macros there (written out below from lcms2.h and lcms2_plugin.h). The output is committed; the
check itself does not run this script."""
import re, os, sys
repo = "/repo"
b = open(f"{repo}/tests/include/bindings.rs").read()
C = {}
for m in re.finditer(r"pub const (cms\w+?)_cms(\w+?)\s*:\s*\w+\s*=\s*(-?\d+)", b):
    C[(m[1], m[2])] = int(m[3])
def norm(s): return re.sub(r"[^A-Z0-9]", "", s.upper())
src = lambda p: [m[1] for m in re.finditer(r"pub const (\w+): Signature", open(f"{repo}/src/types/{p}.rs").read())]
groups = []
def auto(path, rust, group, strip, special={}):
    have = {}
    for (g, n), v in C.items():
        if g == group:
            n = re.sub(r"^Sig", "", n)
            for t in strip:
                if n.endswith(t) and n != t: n = n[: -len(t)]
            have[norm(n)] = v
    out = []
    for name in src(path):
        v = special.get(name, have.get(norm(name)))
        if v is None:
            sys.exit(f"no value for {rust}::{name} among {sorted(have)}")
        if isinstance(v, str): v = int.from_bytes(v.encode(), "big")
        out.append((name, v))
    groups.append((rust, out))
auto("signatures/tag_type", "signatures::tag_type", "cmsTagTypeSignature", ["Type"], {"LUTA_TO_B": 0x6D414220, "LUTB_TO_A": 0x6D424120})
auto("signatures/tag", "signatures::tag", "cmsTagSignature", ["Tag"], {})
auto("signatures/color_space", "signatures::color_space", "cmsColorSpaceSignature", ["Data"], {"COLOR%d" % i: C[("cmsColorSpaceSignature", "Sig%dcolorData" % i)] for i in range(1, 16)})
auto("signatures/profile_class", "signatures::profile_class", "cmsProfileClassSignature", ["Class"])
auto("signatures/platform", "signatures::platform", "cmsPlatformSignature", [])
auto("signatures/technology", "signatures::technology", "cmsTechnologySignature", [])
auto("signatures/stage", "signatures::stage", "cmsStageSignature", ["ElemType"], {
    n: C[("cmsStageSignature", v)] for n, v in {"CURVE_SET_ELEM_TYPE": "SigCurveSetElemType", "MATRIX_ELEM_TYPE": "SigMatrixElemType",
    "C_LUT_ELEM_TYPE": "SigCLutElemType", "B_ACS_ELEM_TYPE": "SigBAcsElemType", "E_ACS_ELEM_TYPE": "SigEAcsElemType", "XYZ_TO_LAB_ELEM_TYPE": "SigXYZ2LabElemType",
    "LAB_TO_XYZ_ELEM_TYPE": "SigLab2XYZElemType", "NAMED_COLOR_ELEM_TYPE": "SigNamedColorElemType", "LAB_V2_TO_V4": "SigLabV2toV4", "LAB_V4_TO_V2": "SigLabV4toV2",
    "IDENTITY_ELEM_TYPE": "SigIdentityElemType", "LAB_TO_FLOAT_PCS": "SigLab2FloatPCS", "FLOAT_PCS_TO_LAB": "SigFloatPCS2Lab", "XYZ_TO_FLOAT_PCS": "SigXYZ2FloatPCS",
    "FLOAT_PCS_TO_XYZ": "SigFloatPCS2XYZ", "CLIP_NEGATIVES_ELEM_TYPE": "SigClipNegativesElemType"}.items()})
auto("signatures/plugin_type", "signatures::plugin_type", "none", [], {
    "MAGIC": 0x61637070, "TRANSFORM": 0x7A666D48, "INTERPOLATION": 0x696E7048, "TAG_TYPE": 0x74797048, "TAG": 0x74616748, "FORMATTERS": 0x66726D48,
    "RENDERING_INTENT": 0x696E7448, "PARAMETRIC_CURVE": 0x70617248, "MULTI_PROCESS_ELEMENT": 0x6D706548, "OPTIMIZATION": 0x6F707448})
groups.append(("signatures::curve_segment", [("FORMULA", C[("cmsCurveSegSignature", "SigFormulaCurveSeg")]), ("SAMPLED", C[("cmsCurveSegSignature", "SigSampledCurveSeg")]), ("SEGMENTED", C[("cmsCurveSegSignature", "SigSegmentedCurve")])]))
groups.append(("signatures", [("MAGIC_NUMBER", 0x61637370), ("LCMS_SIGNATURE", 0x6C636D73),
    ("PERCEPTUAL_REFERENCE_MEDIUM_GAMUT", 0x70726D67), ("SCENE_COLORIMETRY_ESTIMATES", 0x73636F65), ("SCENE_APPEARANCE_ESTIMATES", 0x73617065),
    ("FOCAL_PLANE_COLORIMETRY_ESTIMATES", 0x66706365), ("REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY", 0x72686F63), ("REFLECTION_PRINT_OUTPUT_COLORIMETRY", 0x72706F63),
    ("STATUS_A", 0x53746141), ("STATUS_E", 0x53746145), ("STATUS_I", 0x53746149), ("STATUS_T", 0x53746154), ("STATUS_M", 0x5374614D),
    ("DN", 0x444E2020), ("DNP", 0x444E2050), ("DNN", 0x444E4E20), ("DNNP", 0x444E4E50)]))
o = ["//! C29: published constants and their values in lcms2 2.13. Generated by tools/gen_consts.py.", "#![allow(deprecated)]",
     "use lcms2::types::signatures;", "use lcms2::types::Signature;", "/// (group, [(name, the library's value, lcms2's value)])",
     "pub fn table() -> Vec<(&'static str, Vec<(&'static str, Signature, u32)>)> {", "    vec!["]
n = 0
for g, cs in groups:
    o.append(f'        ("{g}", vec![')
    for name, v in cs:
        o.append(f'            ("{name}", {g}::{name}, {v:#010x}),'); n += 1
    o.append("        ]),")
o += ["    ]", "}"]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "consts_table.rs"), "w").write("\n".join(o) + "\n")
print(n, "constants")
