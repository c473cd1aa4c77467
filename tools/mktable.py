"""Regenerate harness/table.rs from the harness modules present."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ""
for n in sorted(os.listdir(V + "/harness")):
    m = n[:-3]
    if n.endswith(".rs") and m not in ("mod", "sym", "gen", "model", "table", "vfs"):
        out += '#[cfg(vh = "%s")]\npub mod %s;\n#[cfg(vh = "%s")]\nuse %s::HARNESSES;\n' % (m, m, m, m)
open(V + "/harness/table.rs", "w").write(out)
