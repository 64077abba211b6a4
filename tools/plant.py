"""plant.py ID [CHECK...]: confirms the planted change seeded/ID in a scratch copy
of /repo (/tmp/sr, kept for the next run) and runs checks against it there.
plant.py --new ID PROPERTY FILE: takes over the uncommitted changes of the scratch copy
as patch.diff (demo.sh and meta.json are written by hand)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sr"
BASE = os.environ.get("PLANT_BASE", "/repo")   # or a clone with commits to come


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def prepare():
    head = sh("git -C %s rev-parse HEAD" % BASE).stdout.strip()
    if not os.path.isdir(S) or sh("git -C %s rev-parse HEAD" % S).stdout.strip() != head:
        sh("rm -rf /tmp/sr; git clone -q %s /tmp/sr" % BASE)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp/build.sh", "/tmp/sr.build.sh")
            open("/tmp/sr." + f, "w").write(t)
    sh("git -C %s checkout -q -- ." % S)


def build():
    r = sh("bash /tmp/sr.build.sh")
    return r.returncode == 0, r.stdout[-2000:]


def tests():
    sh("bash /tmp/sr.test.sh /tmp/sr.out.json")
    d = json.load(open("/tmp/sr.out.json"))
    return len(d["passed"]), d["failed"]


def demo(d):
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=S, timeout=300)
    return r.returncode, r.stdout[-600:]


def main():
    ident, checks = sys.argv[1], sys.argv[2:]
    d = os.path.join(V, "seeded", ident)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prepare()
    if "--checks-only" not in checks:
        ok, o = build()
        assert ok, o
        rc, o = demo(d)
        print("%s demo on unchanged tree: %d %s" % (ident, rc, o if rc else ""))
        if rc:
            return 1
    r = sh("git -C %s apply %s" % (S, os.path.join(d, "patch.diff")))
    if r.returncode:
        print(ident, "does not apply", r.stdout)
        return 1
    if "--checks-only" not in checks:
        ok, o = build()
        if not ok:
            print(ident, "does not build", o)
            return 1
        n, failed = tests()
        print("%s tests passed: %d failed: %s" % (ident, n, failed))
        rc, o = demo(d)
        print("%s demo on changed tree: %d %s" % (ident, rc, o.strip()[-200:]))
        if rc == 0 or n != 36:
            print(ident, "INVALID")
            return 1
    for c in ([c for c in checks if c[0] != "-"] or [meta["property"]]):
        env = dict(os.environ, REPO=S)
        r = subprocess.run(["python3", "check.py", c], cwd=V, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        print("%s by %s: %s" % (ident, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")),
              " / ".join(l for l in r.stdout.split("\n") if l.startswith("  trace"))[:200],
              r.stdout[-500:] if r.returncode not in (0, 1) else "")
    sh("git -C %s checkout -q -- ." % S)


if __name__ == "__main__":
    sys.exit(main() or 0)
