"""Re-runs the concrete search of a property with a given seed: ccv.replay PROP SEED BUDGET"""
import os, subprocess, sys
from .props import PROPS
from .harness import Harness, CXX


def main():
    prop, seed, budget = sys.argv[1], sys.argv[2], sys.argv[3]
    H = Harness(PROPS[prop], prop, 'quick', 1)
    H.start_build()
    for s, p in H.procs:
        o = p.communicate()[0]
        if p.returncode:
            print(o.decode())
            sys.exit(2)
    exe = H.dir + '/h'
    subprocess.check_call(CXX + H.objs + ['-lgf_complete', '-o', exe])
    r = subprocess.run([exe, prop, seed, budget], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1'))
    import shutil
    shutil.rmtree(H.dir, ignore_errors=True)
    sys.exit(1 if r.returncode else 0)


if __name__ == '__main__':
    main()
