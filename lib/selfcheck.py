"""Set-up: parses the specification and checks that the tools are present."""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import core
for tool in ("java", "g++", "cmake", "ninja"):
    if subprocess.run(["which", tool], stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing: " + tool)
w = core.Work()
try:
    d = core.copy_spec(w.path("spec"))
    cp = core.TLA + "/tla2tools.jar:" + core.TLA + "/CommunityModules-deps.jar"
    for m in sorted(glob.glob(d + "/*.tla")):
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", cp, "tla2sany.SANY", m], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        if p.returncode or "*** Errors" in out or "Fatal" in out:
            sys.exit(os.path.basename(m) + " does not parse:\n" + out[-2000:])
finally:
    w.close()
print("specification parses")
