#!/usr/bin/env python3
"""Writes harness/src/types.rs: every scalar type the library supports."""
import os
here = os.path.dirname(os.path.abspath(__file__))
top = {8: 5, 16: 13, 32: 29, 64: 61}
out = ["// Generated by tools/gen_types.py: every scalar type the library supports.", ""]
def table(name, sign):
    out.append("#[macro_export]\nmacro_rules! %s {\n    ($m:ident) => {" % name)
    for b in top:
        for f in range(top[b] + 1):
            out.append("        $m!(fixed::Fixed%s%d<fixed::types::extra::U%d>, \"Fixed%s%d<U%d>\", %d, %d, %s);" % (sign, b, f, sign, b, f, b, f, "true" if sign == "I" else "false"))
    out.append("    };\n}")
table("signed_fixed", "I")
table("unsigned_fixed", "U")
def ints(name, ts):
    out.append("#[macro_export]\nmacro_rules! %s {\n    ($m:ident) => {" % name)
    for t, b, s in ts:
        out.append("        $m!(%s, \"%s\", %d, %s);" % (t, t, b, s))
    out.append("    };\n}")
ints("signed_int", [("i8", 8, "true"), ("i16", 16, "true"), ("i32", 32, "true"), ("i64", 64, "true"), ("i128", 128, "true"), ("isize", 64, "true")])
ints("unsigned_int", [("u8", 8, "false"), ("u16", 16, "false"), ("u32", 32, "false"), ("u64", 64, "false"), ("u128", 128, "false"), ("usize", 64, "false")])
for name, kind in (("widenings", "I"), ("unsigned_widenings", "U")):
    out.append("/// Pairs of fixed-point types of the same resolution, the second of the next width.\n#[macro_export]\nmacro_rules! %s {\n    ($m:ident) => {" % name)
    for b in (8, 16, 32):
        for f in range(top[b] + 1):
            out.append("        $m!(fixed::Fixed%s%d<fixed::types::extra::U%d>, fixed::Fixed%s%d<fixed::types::extra::U%d>);" % (kind, b, f, kind, 2 * b, f))
    out.append("    };\n}")
open(os.path.join(here, "../harness/src/types.rs"), "w").write("\n".join(out) + "\n")
