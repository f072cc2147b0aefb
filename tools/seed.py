#!/usr/bin/env python3
"""Development helper: turns the planted bugs of tools/seeds_src.py into seeded/<id>/ after confirming each one.
   seed.py [id ...]   (re)create and confirm;   --check also runs the property's quick check against it"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds_src
R = '/repo'
HEAD = '#include "logic/logic.hh"\n#include "logic/array.hh"\n#include "logic/struct.hh"\n#include "logic/union.hh"\n#include <cstdio>\n#include <string>\n' \
       'namespace L = ::logic;\nstatic int bad = 0;\n#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("failed: %s\\n", #c); } } while (0)\n'
DEMO = '''#!/bin/bash
# cwd is /repo; exits 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++20 -include cstdint -O1 -w -Iinclude "$d/demo.cc" src/util.cc -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    docheck = '--check' in sys.argv
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
    summary = []
    for s in seeds_src.S:
        if args and s['id'] not in args:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        edits = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])]
        msg = None
        try:
            for f, old, new in edits:
                p = os.path.join(R, f)
                t = open(p).read()
                if t.count(old) != 1:
                    msg = 'old text occurs %d times in %s: %r' % (t.count(old), f, old[:60])
                    break
                open(p, 'w').write(t.replace(old, new))
            if not msg:
                patch = sh('git -C %s diff' % R).stdout
                # only lines of the original commit may change
                for h in re.finditer(r'^@@ -(\d+)', patch, re.M):
                    pass
                for f in {e[0] for e in edits}:
                    bl = sh('git -C %s blame -s %s HEAD -- %s' % (R, '', f)).stdout.splitlines()
                    d0 = sh('git -C %s diff -U0 -- %s' % (R, f)).stdout
                    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d0, re.M):
                        a, n = int(m.group(1)), int(m.group(2) or 1)
                        for k in range(a, a + n):
                            if not bl[k - 1].startswith('^446598c'):
                                msg = 'changes a line of a later commit: ' + bl[k - 1]
                open(os.path.join(d, 'patch.diff'), 'w').write(patch)
                open(os.path.join(d, 'demo.cc'), 'w').write(HEAD + 'int main() {\n' + s['demo'] + '\nreturn bad;\n}\n')
                open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            if not msg:
                r = sh('bash /opt/vp/test.sh /tmp/seed.json; bash %s/demo.sh' % d, cwd=R)
                rc = r.returncode
                tests = re.findall(r'(\d+) passed, (\d+) failed', r.stdout)
                if not tests or tests[-1] != ('57', '0'):
                    msg = 'tests: %s %s' % (tests, r.stdout[-1500:])
                elif rc == 0 or rc == 3:
                    msg = 'demo exits %d with the patch' % rc
            caught = ''
            if not msg and docheck:
                c = sh('python3 check.py %s --tier quick --brief' % s['prop'], cwd=V, env=dict(os.environ, VERIF_EVIDENCE='/tmp/ev', VERIF_SEED='1'))
                caught = 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s' % s['prop'] in c.stdout else 'MISSED rc=%d' % c.returncode
                caught += ' | ' + ' '.join(x for x in c.stdout.splitlines() if 'violating' in x)[:150] + ' inc=%d' % c.stdout.count('INCONCLUSIVE')
        finally:
            sh('git -C %s checkout -- .' % R)
        if not msg:
            r = sh('bash %s/demo.sh' % d, cwd=R)
            if r.returncode:
                msg = 'demo fails on the unchanged tree: ' + r.stdout[-500:]
        if msg:
            sh('rm -r %s' % d)
        line = '%s %s %s' % (s['id'], s['prop'], ('REJECTED ' + msg) if msg else 'ok ' + caught)
        print(line, flush=True)
        summary.append(line)
    sh('bash /opt/vp/build.sh')


main()
