"""Lay out a crate that compiles /repo's acorn sources together with /verif/harness as one binary.

The crate is regenerated from /repo's working tree: sources are symlinked, only the crate root is
generated (lib.rs without the two modules that cannot build offline, plus `mod verif`).
"""
import os, re, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)

def write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)

def make(dest):
    os.makedirs(dest + "/src", exist_ok=True)
    t = open(REPO + "/Cargo.toml").read()
    t = re.sub(r"^default-run = .*\n", "", t, flags=re.M)
    t = re.sub(r'^\[\[bin\]\]\nname = "[^"]*"\n(?:[^\[\n].*\n)*', "", t, flags=re.M)
    t = t.replace("[package]\n", "[package]\nbuild = false\nautobins = false\nautolib = false\n", 1)
    # keep [package] and [dependencies] (and target dependencies); drop everything else
    out, keep = [], True
    for part in re.split(r"(?m)^(?=\[)", t):
        head = part.split("\n", 1)[0].strip()
        if head in ("[package]", "[dependencies]") or (
            head.startswith("[target.") and head.endswith("dependencies]")
        ):
            out.append(part)
    t = "".join(out) + """
[features]
default = []
validate = []
[[bin]]
name = "vh"
path = "src/main.rs"
[profile.release]
lto = false
panic = "abort"
opt-level = 1
codegen-units = 16
overflow-checks = true
debug-assertions = true
debug = 0
[workspace]
"""
    write(dest + "/Cargo.toml", t)
    write(dest + "/Cargo.lock", open(REPO + "/Cargo.lock").read())
    names = set()
    for n in sorted(os.listdir(REPO + "/src")):
        if n in ("lib.rs", "bin", "main.rs"):
            continue
        names.add(n)
        link(REPO + "/src/" + n, dest + "/src/" + n)
    link(VERIF + "/harness", dest + "/src/verif")
    names |= {"main.rs", "verif"}
    for n in os.listdir(dest + "/src"):
        if n not in names:
            os.unlink(dest + "/src/" + n)
    for n in ("files", "docs"):
        if os.path.exists(REPO + "/" + n):
            link(REPO + "/" + n, dest + "/" + n)
    l = open(REPO + "/src/lib.rs").read()
    l = re.sub(r"^(?:pub )?mod (?:packaged_acornlib|server);\n", "", l, flags=re.M)
    l = "#![allow(dead_code, unused_imports, unused_variables, unexpected_cfgs)]\n" + l
    # one self-contained file of the server module
    if os.path.exists(REPO + "/src/server/live_document.rs"):
        l += '\n#[path = "server/live_document.rs"]\nmod live_document;\n'
    l += "\nmod verif;\nfn main() { verif::main(); }\n"
    write(dest + "/src/main.rs", l)

if __name__ == "__main__":
    make(sys.argv[1])
