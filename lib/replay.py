"""replay.py CFG MODE SEED IDX: redo one monitored case by hand."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
cfg, mode, seed, idx = sys.argv[1:5]
exe = vbuild.build_mon(cfg)
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, VERIF_CLI=os.path.join(vbuild.build_lib(cfg), "cloog"), VERIF_DATA=os.path.join(vbuild.VERIF, "data"),
               ASAN_OPTIONS="detect_leaks=0:exitcode=66:allocator_may_return_null=1", LC_ALL="C")
    sys.exit(subprocess.run([exe, "one", mode, seed, idx, d, vbuild.REPO], env=env).returncode)
