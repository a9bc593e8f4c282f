"""Builds the simulator inside the module of /repo by means of a build overlay.

The harness sources are overlaid as the package /repo/verifsim. Sources of /repo which import
the clock or the global random number generator are overlaid with copies which import the
simulated ones instead, so these are decided by the simulator too. /repo is left untouched.
"""
import json, os, re, shutil, subprocess, sys, tempfile

here, out = sys.argv[1], os.path.abspath(sys.argv[2])
repo = os.environ.get("VERIF_DEV_REPO", "/repo")  # the checks always use /repo, copies are for trying planted bugs
mod = re.search(r"^module\s+(\S+)", open(repo + "/go.mod").read(), re.M).group(1)
tmp = tempfile.mkdtemp(prefix="verifbuild.")
try:
    shutil.copy(repo + "/go.mod", tmp + "/go.mod")
    shutil.copy(repo + "/go.sum", tmp + "/go.sum")
    replace = {}
    for root, _, files in os.walk(here + "/sim"):
        for f in files:
            if f.endswith((".go", ".s")):
                p = os.path.join(root, f)
                replace[repo + "/verifsim/" + os.path.relpath(p, here + "/sim")] = p
    swapped = {}
    files = []
    for root, dirs, names in os.walk(repo):
        dirs[:] = [d for d in dirs if d not in (".git", "node_modules")]
        files += [os.path.relpath(os.path.join(root, f), repo) for f in names if f.endswith(".go")]
    files.sort()
    for n, f in enumerate(files):
        if f.endswith("_test.go") or f.startswith(("testapp/app", "pkg/spfcli", "cmd/")):
            continue
        try:
            src = open(os.path.join(repo, f)).read()
        except (OSError, UnicodeDecodeError):
            continue
        new = src
        for path, shim in (("time", "simtime"), ("math/rand", "simrand")):
            new = re.sub(r'^(\s*(?:import\s+)?)(\w+\s+)?"%s"' % re.escape(path),
                         lambda m: '%s%s"%s/verifsim/%s"' % (m.group(1), m.group(2) or path.split("/")[-1] + " ", mod, shim),
                         new, flags=re.M)
        if new != src:
            dst = "%s/swap%d.go" % (tmp, n)
            open(dst, "w").write(new)
            swapped[os.path.join(repo, f)] = dst

    # points between all statements at which threads can be switched
    pointed, args = {}, []
    for n, f in enumerate(files):
        if f.endswith(("_test.go", ".pb.go", "_verif.go")) or not f.startswith(("runtime/", "core/", "x/", "pkg/", "testdata/testmodule")) or f.startswith("pkg/spfcli"):
            continue
        p = os.path.join(repo, f)
        src = swapped.get(p, p)
        try:
            if "// Code generated" in open(src).read(400):
                continue
        except (OSError, UnicodeDecodeError):
            continue
        pointed[p] = "%s/point%d.go" % (tmp, n)
        args += [src, pointed[p]]
    env = dict(os.environ, GOFLAGS="", GO111MODULE="off")
    r = subprocess.run(["go", "run", here + "/tools/points/main.go", mod + "/verifsim/simpoint"] + args, cwd=tmp, env=env, stdout=sys.stderr)
    if r.returncode:
        print("build: no points between statements", file=sys.stderr)
        pointed = {}

    def build(overlay):
        json.dump({"Replace": overlay}, open(tmp + "/overlay.json", "w"))
        return subprocess.run(["go", "build", "-overlay", tmp + "/overlay.json", "-modfile", tmp + "/go.mod",
                               "-ldflags=-checklinkname=0", "-tags", "verif", "-o", out, "./verifsim"], cwd=repo, stdout=sys.stderr)

    r = build({**replace, **swapped, **pointed})
    if r.returncode and pointed:
        print("build: falling back to points at storage operations only", file=sys.stderr)
        r = build({**replace, **swapped})
    if r.returncode and swapped:
        # the simulated packages do not offer everything these sources use: leave the real ones
        print("build: falling back to the real clock and random number generator", file=sys.stderr)
        r = build(replace)
    sys.exit(2 if r.returncode else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
