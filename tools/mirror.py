"""Copies /repo's crate into a build folder from which the harness crates compile it.

core: without what needs the missing crate "spacemath" (mesher, file, main, conversions), so that these
      monitors depend on nothing but /repo.
full: every source file byte for byte, beside a stand-in for "spacemath" (harness/spacemath).
"""
import os, re, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
LEFT_OUT = ("src/main.rs", "src/cli.yml", "src/file/", "src/mesher/")


def _without_spacemath_impls(text):
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if re.match(r"impl\b.*\bspacemath::.*\{$", lines[i]):
            end = next((j for j in range(i + 1, len(lines)) if lines[j] and not lines[j][0].isspace()), None)
            if end is not None and lines[end] == "}":
                lines[i : end + 1] = [""] * (end + 1 - i)
                i = end
        i += 1
    return "\n".join(lines)


def wanted(mode):
    out = {}
    for top, _, names in os.walk(f"{REPO}/src"):
        for n in sorted(names):
            path = os.path.join(top, n)
            rel = os.path.relpath(path, REPO)
            data = open(path, "rb").read()
            if mode == "core":
                if rel.startswith(LEFT_OUT):
                    continue
                if rel.endswith(".rs"):
                    text = data.decode("utf-8", "surrogateescape")
                    if rel == "src/lib.rs":
                        text = re.sub(r"(?m)^(pub )?mod (file|mesher);$", "", text)
                    data = _without_spacemath_impls(text).encode("utf-8", "surrogateescape")
            out[rel] = data
    manifest = open(f"{REPO}/Cargo.toml").read()
    if mode == "core":
        manifest = re.sub(r"(?m)^spacemath *=.*$", "", manifest)
    out["Cargo.toml"] = manifest.encode()
    return out


def mirror(mode, dest):
    files = wanted(mode)
    for rel, data in files.items():
        path = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path, "rb").read() != data:
            with open(path, "wb") as f:
                f.write(data)
    for top, _, names in os.walk(f"{dest}/src"):
        for n in names:
            path = os.path.join(top, n)
            if os.path.relpath(path, dest) not in files:
                os.remove(path)


def copy_tree(src, dst):
    """Copies a small committed source tree, touching only files that changed."""
    for top, dirs, names in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", "__pycache__")]
        for n in names:
            a = os.path.join(top, n)
            b = os.path.join(dst, os.path.relpath(a, src))
            os.makedirs(os.path.dirname(b), exist_ok=True)
            data = open(a, "rb").read()
            if not os.path.exists(b) or open(b, "rb").read() != data:
                with open(b, "wb") as f:
                    f.write(data)
