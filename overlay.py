"""Makes /verif/build/overlay: a copy of /repo's crate sources whose Cargo.toml
leaves out the two git dependencies (they cannot be fetched offline, and cargo
cannot resolve the manifest without them).  Files are compared by content and
only rewritten when they differ, so cargo rebuilds exactly when the code in
/repo changed, whatever the file times in /repo look like."""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "build", "overlay")
ROOT_FILES = ["build.rs", "README.md", "LICENSE"]
ROOT_DIRS = ["src", "db"]


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def main():
    text = open(f"{REPO}/Cargo.toml").read()
    for name in re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M):
        n = re.escape(name)
        text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
        text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
    # benches and dev-dependencies are of no use to the harness
    text = re.sub(r"^\[\[bench\]\]\n(?:[^\[\n][^\n]*\n|\n)*", "", text, flags=re.M)
    text = re.sub(r"^\[dev-dependencies\]\n(?:[^\[\n][^\n]*\n|\n)*", "", text, flags=re.M)
    want = set()
    changed = 0
    changed += put(f"{OUT}/Cargo.toml", text.encode())
    want.add("Cargo.toml")
    for f in ROOT_FILES:
        if os.path.exists(f"{REPO}/{f}"):
            changed += put(f"{OUT}/{f}", open(f"{REPO}/{f}", "rb").read())
            want.add(f)
    for d in ROOT_DIRS:
        for base, dirs, files in os.walk(f"{REPO}/{d}"):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                rel = os.path.relpath(p, REPO)
                changed += put(f"{OUT}/{rel}", open(p, "rb").read())
                want.add(rel)
    for base, dirs, files in os.walk(OUT):
        for f in files:
            rel = os.path.relpath(os.path.join(base, f), OUT)
            if rel not in want and not rel.startswith("target"):
                os.unlink(os.path.join(base, f))
                changed += 1
    return changed


if __name__ == "__main__":
    n = main()
    if "-v" in sys.argv:
        print(f"overlay: {n} file(s) refreshed")
