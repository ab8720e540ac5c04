"""which error branches are guarded by the checks: replaces one raise statement after the other by pass (in a copy of
the package under /tmp) and runs the given checks;  python3 tools/mutraise.py P07,P09,P10,P11 [file-substring]"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys

props = sys.argv[1].split(",")
sub = sys.argv[2] if len(sys.argv) > 2 else ""
root = "/tmp/mutraise_%d" % os.getpid()
shutil.copytree("/repo/datafold", root + "/datafold", ignore=shutil.ignore_patterns("tests", "__pycache__"))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    for d, _, fs in sorted(os.walk(root + "/datafold")):
        for fn in sorted(fs):
            path = os.path.join(d, fn)
            if not fn.endswith(".py") or sub not in path:
                continue
            src = open(path).read()
            tree = ast.parse(src)
            lines = src.split("\n")
            funcs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
            for n in ast.walk(tree):
                isc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(
                    r"(check_scalar|_?check_\w+|is_\w+|\w*validate\w*|\w*\.(assert_|check_|_?validate)\w*)$", ast.unparse(n.value.func))
                if not (isinstance(n, ast.Raise) or isc):
                    continue
                fname = [f.name for f in funcs if f.lineno <= n.lineno <= f.end_lineno]
                ind = re.match(r"\s*", lines[n.lineno - 1]).group()
                new = lines[:n.lineno - 1] + [ind + "pass"] + [""] * (n.end_lineno - n.lineno) + lines[n.end_lineno:]
                open(path, "w").write("\n".join(new))
                hit = []
                for p in props:
                    r = subprocess.run([sys.executable, here + "/check.py", "--property", p, "--tier", "quick", "--repo", root],
                                       capture_output=True, text=True)
                    if r.returncode:
                        hit.append(p)
                print(json.dumps([os.path.relpath(path, root), n.lineno, fname[-1] if fname else "", ast.unparse(n)[:90], hit]), flush=True)
            open(path, "w").write(src)
finally:
    shutil.rmtree(root)
