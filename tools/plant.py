"""plant.py SPEC.py: create seeded/<id> from a spec (dict PLANT) after confirming that the patched tree builds, passes the
tests and fails the demonstration, and that the unchanged tree passes it.  Then run the property's check on the patched tree."""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
CPP = """#!/bin/bash
# exit 0 iff the library behaves as specified
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for cfg in %(cfgs)s; do
  X=""; A=""
  if [ $cfg = x8664 ]; then X="-DUSE_X8664_ASM_IMPL"; A="cpp/AsmX8664.s"; fi
  g++ -std=c++11 -O1 %(flags)s $X -I cpp "$D/demo.cpp" cpp/Base58Check.cpp cpp/CurvePoint.cpp cpp/Ecdsa.cpp cpp/ExtendedPrivateKey.cpp cpp/FieldInt.cpp cpp/Keccak256.cpp cpp/Ripemd160.cpp cpp/Sha256.cpp cpp/Sha256Hash.cpp cpp/Sha512.cpp cpp/Uint256.cpp cpp/Utils.cpp $A -o "$T/demo" 2>"$T/err" || { cat "$T/err"; exit 3; }
  (cd "$T" && timeout 250 ./demo) || exit 1
done
exit 0
"""
JAVA = """#!/bin/bash
# exit 0 iff the library behaves as specified
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src/io/nayuki/bitcoin/crypto" "$T/out"
cp java/io/nayuki/bitcoin/crypto/*.java "$T/src/io/nayuki/bitcoin/crypto/" && rm -f "$T"/src/io/nayuki/bitcoin/crypto/*Test.java
cp "$D/Demo.java" "$T/src/io/nayuki/bitcoin/crypto/"
javac -nowarn -d "$T/out" "$T"/src/io/nayuki/bitcoin/crypto/*.java 2>"$T/err" || { cat "$T/err"; exit 3; }
(cd "$T" && timeout 250 java %(flags)s -cp "$T/out" io.nayuki.bitcoin.crypto.Demo) || exit 1
exit 0
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def add(p):
    d = os.path.join(H, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    try:
        for f, a, b in p["edits"]:
            fn = os.path.join(R, f)
            s = open(fn).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(fn, "w").write(s.replace(a, b))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        if "cpp" in p:
            open(os.path.join(d, "demo.cpp"), "w").write(p["cpp"])
            open(os.path.join(d, "demo.sh"), "w").write(CPP % dict(cfgs=p.get("cfgs", "pure-cpp x8664"), flags=p.get("flags", "")))
        elif "java" in p:
            open(os.path.join(d, "Demo.java"), "w").write(p["java"])
            open(os.path.join(d, "demo.sh"), "w").write(JAVA % dict(flags=p.get("flags", "-ea")))
        else:
            open(os.path.join(d, "demo.sh"), "w").write(p["sh"])
            for n, t in p.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = True
        caught = []
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(b.stdout[-1500:])
            ok = False
        if ok and not os.environ.get("NOTEST"):
            t = sh("bash /opt/vp/test.sh /tmp/plant.json")
            o = json.load(open("/tmp/plant.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
            print("tests:", t.stdout.strip().splitlines()[-1:])
            if " 0 failed" not in t.stdout:
                ok = False
        r = sh("bash %s/demo.sh" % d, cwd=R)
        print("demo patched:", r.returncode, r.stdout.strip()[-200:])
        if r.returncode == 0 or r.returncode == 3:
            ok = False
        for pid in p.get("checks", [p["property"]]):
            c = sh("python3 check.py %s" % pid, cwd=H)
            if c.returncode == 1 and "VIOLATION property=%s " % pid in c.stdout:
                caught.append(pid)
            print("check %s: exit %d  %s" % (pid, c.returncode, " | ".join(l.strip()[:160] for l in c.stdout.strip().splitlines()[:3])))
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd=R)
    print("demo clean:", r.returncode, r.stdout.strip()[-200:])
    if r.returncode:
        ok = False
    m = json.load(open(d + "/meta.json"))
    m["caught_by"] = caught
    json.dump(m, open(d + "/meta.json", "w"), indent=1)
    print(p["id"], "OK" if ok else "*** NOT VALID ***")
    if not ok:
        shutil.rmtree(d)


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for p in ns["PLANTS"]:
    if not only or p["id"] in only:
        print("==", p["id"])
        add(p)
