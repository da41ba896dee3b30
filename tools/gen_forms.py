#!/usr/bin/env python3
"""Writes rust/mca/src/forms.rs: one line per instruction form the assembler accepts (run by hand when forms are added)."""
import re
out = []
for l in open("/repo/xten0/src/asm/inst.rs"):
    m = re.match(r"impl<W: io::Write \+ \?Sized> WriteInst<W> for ([A-Za-z0-9]+)(?:<(.*)>)? \{", l)
    if m:
        name = m[1].lower()
        ops = [o.strip() for o in m[2].split(",")] if m[2] else []
        meth = {"in": "r#in"}.get(name, name)
        out.append(f'    form!(f, {meth}, "{name}"{"".join(", " + o for o in ops)});')
N = 100
with open("/verif/rust/mca/src/forms.rs", "w") as fh:
    fh.write("//! Generated by tools/gen_forms.py from the assembler's instruction forms.\nuse super::*;\n\n")
    k = 0
    for i in range(0, len(out), N):
        fh.write(f"fn part{k}(f: &mut F) {{\n" + "\n".join(out[i:i+N]) + "\n}\n\n")
        k += 1
    fh.write("pub fn all(f: &mut F) {\n" + "".join(f"    part{j}(f);\n" for j in range(k)) + "}\n")
print(len(out))
