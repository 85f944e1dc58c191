#!/usr/bin/env python3
"""Tries planted bugs: seed.py [-c] [-p PROP,..] [id...]
For each one, in a private mount namespace where copies stand in for /repo and
/verif: the demo passes on the unchanged tree; with the patch the repository
builds, its tests pass and the demo fails; and (with -c) the property's check
reports it. -p runs these checks instead; -j N runs N at a time."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"


def one(i, checks, props):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(d + "/meta.json"))
    with tempfile.TemporaryDirectory(prefix="seed.") as t:
        os.mkdir(t + "/s")
        subprocess.check_call("cp -a /repo %s/repo; cp -a %s %s/bug; mkdir %s/verif; cd /verif; cp -a $(ls -A | grep -vxE 'seeded|build|.git|replays|evidence') %s/verif/; mkdir %s/verif/build; cp -a build/. %s/verif/build/" %
                              (t, d, t, t, t, t, t), shell=True)
        sc = """
mount --bind {t}/repo /repo; mount --bind {t}/verif /verif
cd /repo
bash /opt/vp/build.sh >{t}/o 2>&1
bash {t}/bug/demo.sh >{t}/demo0 2>&1; echo demo0 $?
git apply {t}/bug/patch.diff || echo noapply
bash /opt/vp/test.sh {t}/res.json >{t}/test 2>&1; echo tests $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('{t}/res.json'))
b=b['stable']
p=set(r['passed'])
print(len([x for x in b if x not in p]))")
bash {t}/bug/demo.sh >{t}/demo1 2>&1; echo demo1 $?
""".format(t=t)
        for p in (props or [meta["property"]]) if checks else []:
            sc += "python3 /verif/run.py %s quick >%s/check.%s 2>&1; echo check %s $?\n" % (p, t, p, p)
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip().replace("\n", "; ")
        ok = "demo0 0" in out and "tests 0" in out and "demo1 " in out and "demo1 0" not in out and "noapply" not in out
        res = "%-28s %s %s" % (i, "valid" if ok else "INVALID", out)
        for p in (props or [meta["property"]]) if checks else []:
            f = "%s/check.%s" % (t, p)
            if os.path.exists(f):
                keep = [x for x in open(f, errors="replace").read().splitlines() if "VIOLATION" in x or "NO ANSWER" in x or x.startswith("  ") and not x.startswith("   ")]
                res += "\n      " + "\n      ".join(x[:240] for x in keep[:4])
        if not ok:
            for f in ("demo0", "demo1"):
                if os.path.exists(t + "/" + f):
                    res += "\n    %s: %s" % (f, open(t + "/" + f, errors="replace").read()[-900:])
            if "tests 0" not in out and os.path.exists(t + "/test"):
                res += "\n    " + "\n    ".join(x for x in open(t + "/test", errors="replace").read().splitlines() if "Failed" in x or "error:" in x)[:1200]
        return res


def main():
    a = sys.argv[1:]
    checks = "-c" in a
    props, j, ids = None, 2, []
    it = iter([x for x in a if x != "-c"])
    for x in it:
        if x == "-p":
            props, checks = next(it).split(","), True
        elif x == "-j":
            j = int(next(it))
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: one(i, checks, props), ids):
            print(r, flush=True)


main()
