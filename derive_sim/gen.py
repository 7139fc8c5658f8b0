#!/usr/bin/env python3
"""gen.py SRC DST: makes an ordinary library out of the derive crate SRC, for use inside one process.

The seam is the compiler: `proc_macro` becomes `proc_macro2` (whose fallback implementation works
anywhere), the two entry points lose their `#[proc_macro_derive]` and get a name of ours. Everything
else is the code as it is in SRC.
"""
import os, re, shutil, sys

src, dst = sys.argv[1:3]
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target", "tests", "Cargo.lock"))

toml = open(os.path.join(dst, "Cargo.toml")).read()
toml = toml.replace("proc-macro = true", "doctest = false")
toml = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml)
toml = re.sub(r"(?m)^readme.*\n", "", toml)
open(os.path.join(dst, "Cargo.toml"), "w").write(toml)

for root, _, files in os.walk(os.path.join(dst, "src")):
    for f in files:
        if not f.endswith(".rs"):
            continue
        path = os.path.join(root, f)
        text = open(path).read()
        text = re.sub(r"\bextern crate proc_macro;", "extern crate proc_macro2 as proc_macro;", text)
        text = re.sub(r"\bsyn::parse\(", "syn::parse2(", text)
        text = re.sub(r"\bsyn::parse::<", "syn::parse2::<", text)
        entries = []

        def entry(m):
            entries.append((m.group(1), m.group(3)))
            return m.group(2)

        text = re.sub(
            r"#\[proc_macro_derive\(\s*(\w+)[^\]]*\]((?:\s|#\[[^\]]*\]|//[^\n]*)*(?:pub\s+)?fn\s+(\w+))", entry, text)
        for name, fn in entries:
            text += f"\npub fn entry_{name}(input: proc_macro2::TokenStream) -> proc_macro2::TokenStream {{ {fn}(input) }}\n"
        if f == "lib.rs" and root.endswith("src"):
            shim = """
#[allow(unused_macros)]
macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => { match syn::parse2::<$t>($i) { Ok(d) => d, Err(e) => return e.to_compile_error() } };
    ($i:ident) => { match syn::parse2($i) { Ok(d) => d, Err(e) => return e.to_compile_error() } };
}
"""
            # after the last inner attribute
            at = 0
            for m in re.finditer(r"(?m)^#!\[", text):
                depth, i = 0, m.end() - 1
                while True:
                    depth += {"[": 1, "]": -1}.get(text[i], 0)
                    i += 1
                    if depth == 0:
                        break
                at = max(at, i)
            text = text[:at] + "\n" + shim + text[at:]
        open(path, "w").write(text)
