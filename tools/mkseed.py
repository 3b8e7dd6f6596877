#!/usr/bin/env python3
"""tools/mkseed.py: makes seeded/<id>/ from a description file: id, property, needs, what_it_breaks, file, old, new (replacement in
/repo's HEAD), repo_sources for the demo, and the demo's C++ body. Works on a scratch copy."""
import json, os, subprocess, sys, shutil
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not. Runs in the root of the source tree.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
OMPI_CXX=g++ mpicxx -std=c++14 -O0 -w -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY \\
  -include /opt/vp/plato/compat.hpp -I"$PWD/src" -I/usr/include/trilinos "$here/demo.cpp" %(src)s -o "$t/demo" %(libs)s || exit 3
cd "$t" && OMP_NUM_THREADS=1 ./demo
'''
PRE = '''#include <Kokkos_Core.hpp>
#include <cstdio>
#include <cmath>
#include <cstdlib>
static int bad = 0;
#define WANT(got, want) do { double g_ = (got), w_ = (want); if(!(std::fabs(g_ - w_) <= 1e-9 * (1 + std::fabs(w_)))) { std::printf("line %%d: got %%.15g, want %%.15g\\n", __LINE__, g_, w_); bad = 1; } } while(0)
#define TRUE(c) do { if(!(c)) { std::printf("line %%d: %%s is false\\n", __LINE__, #c); bad = 1; } } while(0)
%(inc)s
static void demo()
{
%(body)s
}
int main()
{
    Kokkos::initialize();
    try { demo(); } catch(const std::exception& e) { std::printf("exception: %%s\\n", e.what()); bad = 1; }
    std::printf(bad ? "property broken\\n" : "property holds\\n"); std::fflush(stdout);
    std::_Exit(bad);
}
'''
libs = " ".join("-l" + l for l in json.load(open(V + "/checks.json"))["common"]["libs"])
def seed(id, property, needs, breaks, edits, inc, body, src=()):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    W = "/tmp/mkseed"
    if not os.path.isdir(W): subprocess.check_call(["git", "clone", "-q", "/repo", W])
    subprocess.check_call("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % W, shell=True)
    for f, old, new in edits:
        s = open(W + "/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(W + "/" + f, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % dict(src=" ".join('"$PWD/%s"' % s for s in src), libs=libs)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(PRE % dict(inc="\n".join('#include "%s"' % i for i in inc), body=body))
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", "."])
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
