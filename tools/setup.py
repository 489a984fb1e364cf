"""setup_cmd: check that the tools are there and every specification parses."""
import glob, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for t in (["java", "-version"], ["/root/.cargo/bin/cargo", "--version"]):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
with tempfile.TemporaryDirectory() as d:
    for f in glob.glob(ROOT + "/spec/*.tla"):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    mods = sorted(os.path.basename(f) for f in glob.glob(ROOT + "/spec/*.tla"))
    p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", *mods], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(p.stdout.decode()[-3000:])
        sys.exit(2)
print("setup: %d specification modules parse" % len(mods))
