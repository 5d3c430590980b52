#!/usr/bin/env python3
"""verus/tables.rs from the golden tables of harness/src/spec.rs."""
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{ROOT}/harness/src/spec.rs").read()
rows = re.findall(r'\((UR20_\w+), "(\w+)", (None|Some\((\w+)\)), (\d+), (\w+)\)', s)
sup = re.findall(r"\((UR20_\w+), (\d+)\)", s[s.index("SUPPORTED"):s.index("];", s.index("SUPPORTED"))])
assert len(rows) == 63 and len(sup) == 18
o = ["// Golden tables, generated by tools/tables.py from harness/src/spec.rs.", "verus! {", "",
     "/// the type a module id stands for", "#[verifier::opaque]",
     "pub open spec fn known(id: u32) -> Option<ModuleType> {"]
o += [f"    {'' if k == 0 else 'else '}if id == {r[3]} {{ Some(ModuleType::{r[0]}) }}" for k, r in enumerate(x for x in rows if x[3])]
o += ["    else { None }", "}", "impl ModuleType {", "    #[verifier::opaque]", "    pub open spec fn channels(self) -> nat {", "        match self {"]
o += [f"            ModuleType::{r[0]} => {r[4]}," for r in rows]
o += ["        }", "    }", "    #[verifier::opaque]", "    pub open spec fn category(self) -> ModuleCategory {", "        match self {"]
o += [f"            ModuleType::{r[0]} => ModuleCategory::{r[5]}," for r in rows]
o += ["        }", "    }", "    /// size of the parameter block of a supported type", "    #[verifier::opaque]",
      "    pub open spec fn block(self) -> Option<u16> {", "        match self {"]
o += [f"            ModuleType::{t} => Some({n})," for t, n in sup]
o += ["            _ => None,", "        }", "    }", "}", "", "} // verus!", ""]
open(f"{ROOT}/verus/tables.rs", "w").write("\n".join(o))

cats = re.findall(r'\((\w+), "(\w+)"\)', s[s.index("CATEGORIES"):s.index("];", s.index("CATEGORIES"))])
assert len(cats) == 11


def facts(names, at):
    return [f'    assert("{n}"@.len() == {len(n)}' + "".join(f" && \"{n}\"@[{i}] == '{c}'" for i, c in enumerate(n) if i >= at) + ");" for n in names]


o = ["// Names, generated by tools/tables.py from harness/src/spec.rs.", "verus! {", ""]
for ty, rows2, at in (("ModuleType", [(r[0], r[1]) for r in rows], 5), ("ModuleCategory", cats, 0)):
    o += [f"impl {ty} {{", "pub open spec fn name(self) -> Seq<char> {", "    match self {"]
    o += [f'        {ty}::{v} => "{n}"@,' for v, n in rows2]
    o += ["    }", "}", f"pub proof fn distinct(a: {ty}, b: {ty}) requires a.name() == b.name() ensures a == b {{"]
    o += [f'    reveal_strlit("{n}");' for _, n in rows2]
    o += facts([n for _, n in rows2], at)
    o += ["}", "pub proof fn named() ensures"]
    o += [f"    {ty}::{v}.name() == \"{n}\"@," for v, n in rows2] + ["{ }", "}"]
o += ["", "} // verus!", ""]
open(f"{ROOT}/verus/names_table.rs", "w").write("\n".join(o))
