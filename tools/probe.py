#!/usr/bin/env python3
"""Is anything proved only because the assumptions contradict one another?

Weaves the sources with a claim before every statement and in every arm that the place cannot be reached
(PROBE=1, see weaver/src/transform.rs) and has Verus look at each. The claim must fail everywhere but at the
places listed at the end of this file. A tool for whoever changes contracts or stubs (about ten minutes); no check runs it."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from plan import MODULES  # noqa: E402
from check import build_weaver, shell, module_of, REPO  # noqa: E402

# Places that no run reaches: panics that are proved not to happen, and what the assumptions exclude.
EXPECTED = ('v_panic', 'Paste unimplemented', 'Stored numerator', 'Stored denominat', 'not compatible with executable version')


def main():
    place = '/tmp/bcalc-probe-%d' % os.getpid()
    os.makedirs(place)
    try:
        shell('PROBE=1 %s %s/src %s/contracts %s %s' % (build_weaver(), REPO, VERIF, place, ','.join(MODULES)), 60)
        table = [f for f in json.load(open(place + '/map.json'))['functions'] if not f.get('lemmas')]
        lines = {n: open(os.path.join(place, n)).read().split('\n') for n in {f['out'] for f in table}}

        def probes(f):
            return [i for i in range(f['from'], f['to'] + 1) if 'vstd_model :: probed' in lines[f['out']][i - 1]]

        def ask(job):
            f, some, limit = job
            text = list(lines[f['out']])
            module = module_of(f['out'])
            name = f['fn'].split('::', 1)[1]
            where = place
            if some is not None:  # only these
                where = '%s/%s-%d' % (place, module, some[0])
                shutil.copytree(place, where, ignore=lambda d, n: [x for x in n if not x.endswith(('.rs', '.json'))])
                for i in probes(f):
                    if i not in some:
                        text[i - 1] = ''
                open(os.path.join(where, f['out']), 'w').write('\n'.join(text))
            sel = '--verify-root' if module == 'main' else '--verify-only-module ' + module
            code, out = shell("cd %s && verus --crate-type=lib lib.rs --triggers-mode silent --rlimit %d --multiple-errors 2000 %s --verify-function '%s'"
                              % (where, limit, sel, re.sub(r'<.*>', '', name)), 1500)
            failed = {int(m[1]) for m in re.finditer(r'^error: assertion failed\n\s*-->\s*\S+?:(\d+):', out, re.M)}
            return f, [i for i in (some or probes(f)) if i not in failed], out

        total = sum(len(probes(f)) for f in table)
        code, out = shell('cd %s && verus --crate-type=lib lib.rs --triggers-mode silent --rlimit 8 --num-threads 8 --multiple-errors 2000' % place, 1500)
        failed = {(m[1], int(m[2])) for m in re.finditer(r'^error: assertion failed\n\s*-->\s*(\S+?):(\d+):', out, re.M)}
        # Where the solver gave up, function by function.
        jobs = [(f, None, 600) for f in table if any((f['out'], i) not in failed for i in probes(f))]
        left = 0
        with ThreadPoolExecutor(8) as pool:
            for f, missed, out in pool.map(ask, jobs):
                rest = []
                for i in missed:
                    around = ' '.join(lines[f['out']][i - 1:i + 6])
                    if not any(e in around for e in EXPECTED):
                        rest.append(i)
                if rest:  # one at a time: with many claims at once the solver may give up on some
                    rest = [i for i in rest if ask((f, [i], 1000))[1]]
                for i in rest:
                    left += 1
                    print('%s line %d: shown unreachable, or not settled: %s' % (f['fn'], i, ' '.join(lines[f['out']][i + 1:i + 4])[:200]))
        print('%d places, %d unexpectedly not reached' % (total, left))
        sys.exit(1 if left else 0)
    finally:
        shutil.rmtree(place, ignore_errors=True)


main()
