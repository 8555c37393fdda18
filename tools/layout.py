"""Lays out the crate under test from /repo's working tree, without network.

  python3 tools/layout.py scope DEST   the part that needs neither gribberish nor readap
  python3 tools/layout.py full  DEST   everything, with the two git dependencies replaced by
                                       the stub crates in /verif/stubs

Sources are copied byte for byte and only written when they differ from what is already
in DEST, so cargo's mtime check sees exactly the files whose contents changed. In "scope"
the only rewritten files are Cargo.toml (two dependencies dropped) and the lib.rs/mod.rs
files ("mod" lines of the left-out modules dropped); in "full" only Cargo.toml."""

import os
import re
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = ("gribberish", "readap")
# Modules that use one of DEPS, or that use such a module.
LEFT_OUT = {
    "src/model",
    "src/tools/dap.rs",
    "src/buoy_station.rs",
    "src/data/gfs_wave_grib_point_data_record.rs",
    "src/data/latest_obs_data_record.rs",
    "src/data/meteorological_data_record.rs",
    "src/data/swden_wave_data_record.rs",
}


def left_out(rel):
    return any(rel == x or rel.startswith(x + "/") for x in LEFT_OUT)


def put(dest, rel, data):
    path = os.path.join(dest, rel)
    if os.path.isfile(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".new%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def main():
    mode, dest = sys.argv[1], os.path.abspath(sys.argv[2])
    wanted = set()
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:
            rel = os.path.relpath(os.path.join(base, name), REPO)
            if mode == "scope" and left_out(rel):
                continue
            with open(os.path.join(REPO, rel), "rb") as f:
                data = f.read()
            if mode == "scope" and name in ("lib.rs", "mod.rs"):
                def keep(m, rel=rel):
                    stem = os.path.join(os.path.dirname(rel), m.group(2))
                    return "\n" if left_out(stem) or left_out(stem + ".rs") else m.group(0)

                data = re.sub(
                    r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?",
                    keep, data.decode("utf-8"), flags=re.M).encode("utf-8")
            wanted.add(rel)
            put(dest, rel, data)
    for base, _, names in os.walk(os.path.join(dest, "src")):
        for name in names:
            path = os.path.join(base, name)
            if os.path.relpath(path, dest) not in wanted:
                os.remove(path)
    with open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8") as f:
        toml = f.read()
    if mode == "scope":
        toml = re.sub(r"^(?:%s)[ \t]*=.*\n?" % "|".join(DEPS), "", toml, flags=re.M)
    else:
        for d in DEPS:
            toml = re.sub(r"^%s[ \t]*=.*$" % d,
                          '%s = { path = "%s" }' % (d, os.path.join(HERE, "stubs", d)), toml, flags=re.M)
    # No test targets are built here: drop the dev-dependencies.
    toml = re.sub(r"^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml, flags=re.M | re.S)
    put(dest, "Cargo.toml", toml.encode("utf-8"))


main()
