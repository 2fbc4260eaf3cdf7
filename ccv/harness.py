"""Building and running the concrete search (replay/<name>.cc) against the real code."""
import glob, os, shutil, subprocess, tempfile, time
from .run import VERIF, REPO

CXX = ['g++', '-std=c++11', '-g1', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']


class Harness:
    def __init__(self, P, prop, tier, seed):
        self.P, self.prop, self.tier, self.seed = P, prop, tier, seed
        self.name = P['harness']
        self.procs = []

    def start_build(self):
        self.dir = tempfile.mkdtemp(prefix='ccvh')
        srcs = [VERIF + '/replay/%s.cc' % self.name] + sorted(glob.glob(REPO + '/netcode/detail/*.cc'))
        if self.P.get('harness_c'):
            srcs += sorted(glob.glob(REPO + '/netcode/c/*.cc'))
        self.objs = []
        for i, s in enumerate(srcs):
            o = '%s/%d.o' % (self.dir, i)
            self.objs.append(o)
            self.procs.append((s, subprocess.Popen(CXX + ['-I' + REPO, '-I' + VERIF + '/replay', '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))

    def run(self, budget):
        out = dict(lines=[], failed=None, error='', count=0, bound='', rerun='')
        try:
            for s, p in self.procs:
                o = p.communicate(timeout=400)[0]
                if p.returncode:
                    out['error'] = 'build of %s failed: %s' % (s, o.decode(errors='replace')[-1500:])
                    return out
            exe = self.dir + '/h'
            l = subprocess.run(CXX + self.objs + ['-lgf_complete', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if l.returncode:
                out['error'] = 'link failed: ' + l.stdout.decode(errors='replace')[-1500:]
                return out
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
            n = max(1, min(8, os.cpu_count() or 1))
            ps = []
            for k in range(n):
                f = open('%s/out.%d' % (self.dir, k), 'wb')
                ps.append((k, subprocess.Popen([exe, self.prop, str(self.seed * 1000 + k), str(budget)], stdout=f, stderr=subprocess.STDOUT, env=env, cwd=self.dir)))
            for k, p in ps:
                try:
                    rc = p.wait(timeout=budget * 3 + 120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = -99
                txt = open('%s/out.%d' % (self.dir, k), 'rb').read().decode(errors='replace')
                for line in txt.splitlines():
                    if line.startswith('COUNT '):
                        out['count'] += int(line.split()[1])
                    if line.startswith('BOUND '):
                        out['bound'] = line[6:]
                if rc == 0:
                    continue
                lines = [l for l in txt.splitlines() if l.strip()]
                desc = '\n'.join(lines[:60])
                if rc == -99 and 'FAIL' not in txt:
                    # a hang of the code under test on a bounded input: the step that was running is the failing input
                    desc = 'does not terminate: ' + '\n'.join(lines[-10:])
                if not out['failed']:
                    out['failed'] = desc
                    out['rerun'] = 'cd %s && python3-vt -m ccv.replay %s %d %s' % (VERIF, self.prop, self.seed * 1000 + k, budget)
                    out['lines'].append('failing input on the real code: ' + next((l for l in lines if l.startswith('FAIL') or 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate called' in l), lines[0] if lines else 'exit %d' % rc)[:300])
            return out
        except Exception as e:
            out['error'] = repr(e)
            return out
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
