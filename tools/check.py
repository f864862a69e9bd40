#!/usr/bin/env python3
"""One check per property:  check.py C01   |   check.py setup   |   check.py replay FILE

A check (1) weaves the contracts of /verif/contracts into the functions of /repo/src as they are now and
has Verus discharge every obligation, and (2) runs the real code of /repo against an independent oracle on
generated inputs, which supplies concrete failing inputs and stands in, as a bounded check, where no
obligation decides. See DESIGN.md for what each outcome leads to."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BCALC_REPO', '/repo')
BUILD = os.environ.get('BCALC_BUILD', os.path.join(VERIF, '.build'))
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from plan import PLAN, MODULES, RULES  # noqa: E402

JOBS = 8
SECONDS = {'quick': 25, 'thorough': 300}[TIER]
RLIMIT = {'quick': 30, 'thorough': 120}[TIER]


def log(*words):
    print('[%6.1f]' % (time.time() - T0), *words, flush=True)


T0 = time.time()


def shell(command, timeout, env=None, cwd=None):
    """Runs a command in a process group of its own. Gives its exit code (None: it took too long) and output."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(['bash', '-c', command], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace')


# ---------------------------------------------------------------- the real code, built with the hook

def target_dir():
    """A target directory of our own that starts out with the dependencies that are already built."""
    target = os.path.join(BUILD, 'target')
    if not os.path.isdir(target):
        os.makedirs(BUILD, exist_ok=True)
        ready = os.path.join(REPO, 'target')
        if os.path.isdir(ready):
            shell('cp -a %s %s.tmp && mv %s.tmp %s' % (ready, target, target, target), 120)
    return target


def build_real(hooked):
    """The path of a program built from /repo's working tree, or None and why."""
    target = target_dir()
    out = os.path.join(BUILD, 'harness' if hooked else 'plain')
    flags = '--cfg bcalc_verif' if hooked else ''
    env = {'BCALC_VERIF_DIR': os.path.join(VERIF, 'harness'), 'BCALC_VERIF_HARNESS': os.path.join(VERIF, 'harness/main.rs')}
    # The hooked build and the plain one have the same name: the stamp makes sure that neither is taken for the other.
    command = ('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s; cd %s; rm -f %s/debug/bcalc; '
               'cargo rustc --offline --locked --bin bcalc -- %s && cp %s/debug/bcalc %s'
               % (target, REPO, target, flags, target, out))
    if os.path.exists(out):
        os.remove(out)
    code, text = shell(command, 600, env)
    if code == 0 and os.path.exists(out):
        return out, text
    return None, text


def scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else BUILD
    return os.path.join(base, 'bcalc-verif-%d' % os.getpid())


def search_command(prop, program, seconds, first, step):
    if prop == 'C15':
        return ['python3', os.path.join(VERIF, 'harness/pty_check.py'), 'search', program, str(SEED), str(seconds),
                str(10 ** 9), str(first), str(step)]
    return [program, 'search', prop, str(SEED), str(seconds), str(10 ** 9), str(first), str(step)]


def replay_command(prop, program, seed, index):
    if prop == 'C15':
        return ['python3', os.path.join(VERIF, 'harness/pty_check.py'), 'replay', program, str(seed), str(index)]
    return [program, 'replay', prop, str(seed), str(index)]


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def last_json(text):
    for line in reversed(text.splitlines()):
        if line.startswith('{'):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return None


def run_replay(prop, program, seed, index):
    """Does this case fail again? Its description and what fails, or None."""
    place = scratch()
    os.makedirs(place, exist_ok=True)
    note = os.path.join(place, 'note')
    env = dict(os.environ, BCALC_VERIF_SCRATCH=place, BCALC_VERIF_NOTE=note)
    try:
        p = subprocess.run(replay_command(prop, program, seed, index), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env, timeout=300, preexec_fn=limits, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return None
    finally:
        text = open(note).read() if os.path.exists(note) else ''
        shutil.rmtree(place, ignore_errors=True)
    if p.returncode < 0 and -p.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGFPE):
        out = p.stdout.decode('utf-8', 'replace')
        if 'memory allocation' in out:
            return None
        return text, 'the process died of signal %d: %s' % (-p.returncode, out[-400:])
    result = last_json(p.stdout.decode('utf-8', 'replace'))
    v = (result or {}).get('violation')
    return (v['case'], v['what']) if v else None


class Search:
    """The bounded search for a failing input, over all processors."""

    def __init__(self, prop, seconds):
        self.prop, self.seconds = prop, seconds
        self.built, self.why = False, ''
        self.evaluations = self.distinct = 0
        self.samples, self.found, self.unconfirmed = [], None, []
        self.program = None
        self.started = None

    def run(self):
        try:
            self.program, self.why = build_real(self.prop != 'C15')
            if not self.program:
                return
            self.built = True
            log('the program under test is built')
            self.search()
        except Exception as e:  # never let the search decide by falling over
            self.why = 'the search failed: %r' % (e,)

    def search(self):
        place = scratch()
        self.started = time.time()
        workers = []
        for i in range(JOBS):
            here = os.path.join(place, str(i))
            os.makedirs(here, exist_ok=True)
            env = dict(os.environ, BCALC_VERIF_SCRATCH=here, BCALC_VERIF_INDEX=os.path.join(here, 'index'))
            out = open(os.path.join(here, 'out'), 'wb')
            p = subprocess.Popen(search_command(self.prop, self.program, self.seconds, i, JOBS), stdout=out,
                                 stderr=subprocess.STDOUT, env=env, preexec_fn=limits, stdin=subprocess.DEVNULL)
            workers.append((p, here, i))
        deadline = time.time() + self.seconds + 150
        candidates = []
        for p, here, i in workers:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            text = open(os.path.join(here, 'out'), errors='replace').read()
            r = last_json(text)
            if r:
                self.evaluations += r.get('evaluations', 0)
                self.distinct += r.get('distinct_nontrivial', 0)
                self.samples += r.get('samples', [])[:1]
                if r.get('violation'):
                    v = r['violation']
                    candidates.append((v['index'], v['case'], v['what']))
            elif p.returncode and p.returncode < 0:
                try:
                    candidates.append((int(open(os.path.join(here, 'index')).read()), '', 'the process died of signal %d' % -p.returncode))
                except (OSError, ValueError):
                    pass
        shutil.rmtree(place, ignore_errors=True)
        for index, case, what in sorted(candidates, key=lambda c: (len(c[1]), c[0])):
            again = run_replay(self.prop, self.program, SEED, index)
            if again:
                self.found = {'index': index, 'case': again[0] or case, 'what': again[1]}
                break
            self.unconfirmed.append({'index': index, 'case': case, 'what': what})


# ---------------------------------------------------------------- contracts and the verifier

class Proof:
    def __init__(self, prop):
        self.prop = prop
        self.modules = PLAN[prop]['modules']
        self.state = 'none'          # discharged, failed, unsettled, none
        self.why = ''
        self.failed = []             # named obligations that the verifier refutes or cannot show
        self.obligations = self.discharged = 0
        self.contracts, self.lemmas, self.trusted = [], [], []
        self.solver_ms = 0
        self.command = ''
        self.output = ''
        try:
            self.shapes = json.load(open(os.path.join(VERIF, 'contracts/shapes.json')))
        except (OSError, ValueError):
            self.shapes = {}

    def run(self):
        try:
            self.go()
        except Exception as e:
            self.state, self.why = 'unsettled', 'the proof could not be run: %r' % (e,)

    def go(self):
        if not self.modules:
            return
        weaver = build_weaver()
        if not weaver:
            self.state, self.why = 'unsettled', 'the weaver does not build'
            return
        woven = os.path.join(BUILD, 'woven-' + self.prop)
        shutil.rmtree(woven, ignore_errors=True)
        os.makedirs(woven)
        code, out = shell('%s %s/src %s/contracts %s %s' % (weaver, REPO, VERIF, woven, ','.join(MODULES)), 60)
        if code != 0:
            self.state, self.why = 'unsettled', 'the sources cannot be woven: ' + out[-2000:]
            return
        table = json.load(open(os.path.join(woven, 'map.json')))
        table['functions'] = [f for f in table['functions'] if not f.get('lemmas')]
        log('contracts woven into %d functions' % len(table['functions']))
        mine = set(self.modules)
        doubts = []
        for f in table['functions']:
            if module_of(f['out']) in mine and self.concerns(f) and f['lost']:
                doubts.append('%s: %s' % (f['fn'], '; '.join(map(str, f['lost']))))
        for key in ('uncontracted', 'problems', 'unused'):
            for item in table.get(key, []):
                module = str(item).split('::')[0].split(':')[0].strip()
                if module in mine or module not in MODULES:
                    doubts.append('%s: %s' % (key, item))
        self.trusted = trusted_base(woven, table)
        verify = ' '.join('--verify-root' if m == 'main' else '--verify-module ' + m for m in self.needed())
        self.command = ('verus --crate-type=lib lib.rs %s --triggers-mode silent --rlimit %d --num-threads %d --output-json '
                        '--time-expanded --error-format=json' % (verify, RLIMIT, JOBS))
        code, out = shell('cd %s && %s' % (woven, self.command), 600 if TIER == 'quick' else 3000)
        if code is None:
            self.state, self.why = 'unsettled', 'the verifier took too long'
            return
        self.read(out, table, doubts, woven)

    def needed(self):
        return sorted(set(self.modules) | {'specs', 'num', 'vstd_model'} | ({'rusqlite'} if 'saved_data' in self.modules else set()))

    def reshaped(self, f):
        """Whether the proof steps in this function may have lost their place: it has some, and its loops or its
        variables are not those they were written for. Then a failure does not tell a mistake from a rewriting."""
        return bool(f.get('hints')) and self.shapes.get(f['fn']) != shape(f['body'])

    def concerns(self, f):
        props = f['props'].replace(',', ' ').split()
        return not props or self.prop in props

    def read(self, out, table, doubts, woven):
        diagnostics, summary = [], None
        for line in out.splitlines():
            if line.startswith('{"$message_type"'):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting'):
                    diagnostics.append(d)
        at = out.find('\n{\n')
        if out.startswith('{\n'):
            at = -1
        if at >= -1:
            try:
                summary = json.JSONDecoder().raw_decode(out[at + 1:])[0]
            except ValueError:
                summary = None
        if summary is None or 'verification-results' not in summary:
            self.state, self.why = 'unsettled', 'the verifier gave no result: ' + out[-2000:]
            return
        results = summary['verification-results']
        if results.get('encountered-vir-error') or (results['verified'] == 0 and results['errors'] == 0):
            text = '\n'.join(d.get('rendered', d['message']) for d in diagnostics)
            self.state, self.why = 'unsettled', 'the woven sources are not accepted: ' + text[:2000]
            return
        where = {}
        for f in table['functions']:
            where.setdefault(f['out'], []).append(f)
        # Which functions carry this property: those of its modules that name it or no property at all.
        foreign = []
        for d in diagnostics:
            owner = None
            for s in d.get('spans', []):
                for f in where.get(s['file_name'], []):
                    if f['from'] <= s['line_start'] <= f['to']:
                        owner = owner or f
            spans = [s for s in d.get('spans', []) if s.get('is_primary')] or d.get('spans', [])
            module = module_of(os.path.basename(spans[0]['file_name'])) if spans else '?'
            name = owner['fn'] if owner else module + ' (lemma)'
            if owner and (module_of(owner['out']) not in self.modules or not self.concerns(owner)):
                foreign.append(name)
                continue
            limit = 'rlimit' in d['message'].lower() or 'resource limit' in d['message'].lower()
            clause = '; '.join(t['text'].strip() for s in spans[:2] for t in s.get('text', [])[:2])
            self.failed.append({'obligation': name, 'what': d['message'], 'clause': clause, 'limit': limit,
                                'hint': d['message'].startswith('assertion failed') or bool(owner and self.reshaped(owner)),
                                'lemma': owner is None,
                                'output': d.get('rendered', '')[:3000]})
        bad = {f['obligation'] for f in self.failed}
        for m in summary['times-ms']['smt']['smt-run-module-times']:
            for f in m.get('function-breakdown', []):
                kind = f.get('mode:', '')
                name = f['function'].replace('lib::', '', 1)
                module = m['module'] or 'main'
                if module == 'main':
                    name = 'main::' + name
                if module in self.modules:
                    if not self.carries(name, module, table):
                        continue
                    self.solver_ms += f['time']
                    self.obligations += 1
                    if f['success']:
                        self.discharged += 1
                    if kind == 'exec':
                        self.contracts.append(name)
                    else:
                        self.lemmas.append(name)
        self.foreign = foreign
        if doubts:
            self.state = 'unsettled'
            self.why = 'the contracts do not fit the sources any more: ' + ' | '.join(doubts[:8])
        elif not self.failed:
            if foreign:
                self.state, self.why = 'unsettled', 'the argument rests on contracts that are not discharged: ' + ', '.join(sorted(set(foreign)))
            elif self.obligations and self.discharged == self.obligations:
                self.state = 'discharged'
            else:
                self.state, self.why = 'unsettled', 'not every obligation has been looked at'
        elif all(f['limit'] for f in self.failed):
            self.state, self.why = 'unsettled', 'the solver gave up: ' + ', '.join(sorted(bad))
        elif all(f['limit'] or f['hint'] or f['lemma'] for f in self.failed):
            # A step of the argument, not a contract, no longer goes through.
            self.state, self.why = 'unsettled', 'the argument needs to be redone for ' + ', '.join(sorted(bad))
        else:
            self.state = 'failed'
            self.why = 'not discharged: ' + ', '.join(sorted(bad))

    def carries(self, name, module, table):
        short = name.split('::')[-1]
        own = [f for f in table['functions'] if module_of(f['out']) == module and f['fn'].split('::')[-1].split('<')[0] == short]
        if not own:
            return True
        return any(self.concerns(f) for f in own)


def shape(body):
    """The loops of a function, in order, and the names of its variables."""
    body = re.sub(r'"(?:\\.|[^"\\])*"', '""', body)
    return ' '.join(re.findall(r'\b(?:loop|while|for)\b', body) + sorted(re.findall(r'\blet (?:mut )?\(?(\w+)', body)))


def module_of(file):
    """The module a woven file holds: src/main.rs becomes the root of the woven crate."""
    return 'main' if file == 'lib.rs' else file[:-3]


def build_weaver():
    target = os.path.join(BUILD, 'weaver')
    code, out = shell('. /opt/vp/env.sh; unset CARGO_PROFILE_DEV_DEBUG; cd %s/weaver && CARGO_TARGET_DIR=%s cargo build --offline --locked'
                      % (VERIF, target), 300)
    program = os.path.join(target, 'debug/weaver')
    if code == 0 and os.path.exists(program):
        return program
    log('weaver: ' + out[-1500:])
    return None


def trusted_base(woven, table):
    """Everything in the woven text that is believed without proof, found in the text itself."""
    found = []
    for name in sorted(os.listdir(woven)):
        if not name.endswith('.rs'):
            continue
        text = open(os.path.join(woven, name)).read()
        text = re.sub(r'//[^\n]*', '', text)
        for m in re.finditer(r'external_body\s*\]|assume_specification|\badmit\s*\(|\bassume\s*\(|broadcast\s+axiom|\baxiom\s+fn|external\s*\]', text):
            tail = ' '.join(text[m.start():m.start() + 400].split())
            what = re.search(r'\b(?:fn|struct|enum)\s+(\w+)', tail)
            kind = m.group(0).strip(' ](')
            if kind == 'assume_specification':
                w = re.search(r'\[\s*([^\]]+?)\s*\]\s*\(', tail)
                found.append('%s: assumed contract of %s' % (module_of(name), w.group(1).replace(' ', '') if w else '?'))
            elif what:
                found.append('%s: %s %s' % (module_of(name), {'external_body': 'trusted', 'external': 'not looked at:'}.get(kind, 'axiom'), what.group(1)))
            else:
                found.append('%s: %s' % (module_of(name), kind))
    out = []
    for f in found:
        if f not in out:
            out.append(f)
    return out


# ---------------------------------------------------------------- outcome

def known_findings():
    """KNOWN-FINDING lines of the file: `property=<id> case=<text of the case> : <what fails>`."""
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) case=(.*?) :: (.*)', line.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def write_replay(prop, content):
    place = os.path.join(VERIF, 'replays')
    os.makedirs(place, exist_ok=True)
    path = os.path.join(place, '%s-%d.json' % (prop, SEED))
    with open(path, 'w') as f:
        json.dump(content, f, indent=1)
    return path


def main(prop):
    plan = PLAN[prop]
    os.makedirs(BUILD, exist_ok=True)
    search, proof = Search(prop, SECONDS), Proof(prop)
    a, b = threading.Thread(target=search.run), threading.Thread(target=proof.run)
    a.start()
    b.start()
    b.join()
    log('proof: %s, %d of %d obligations. %s' % (proof.state, proof.discharged, proof.obligations, proof.why))
    a.join()
    if proof.state in ('failed', 'unsettled') and search.built and not search.found:
        # The proof does not decide: look harder for an input.
        more = Search(prop, 60 if TIER == 'quick' else 600)
        more.program, more.built = search.program, True
        global SEED
        SEED += 1000
        try:
            more.search()
        except Exception as e:
            more.why = repr(e)
        for n in ('evaluations', 'distinct'):
            setattr(search, n, getattr(search, n) + getattr(more, n))
        search.found = more.found
        if not search.found:
            SEED -= 1000
    log('search: %s cases, %s' % (search.evaluations, 'a failing one' if search.found else 'none fails')
        if search.built else 'search: not possible: ' + search.why[-1500:])
    for u in search.unconfirmed:
        log('not reproduced, so not reported: %s' % json.dumps(u))
    seed = SEED
    for known_prop, case, what in known_findings():
        if known_prop == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    violation = None
    if search.found:
        path = write_replay(prop, {'property': prop, 'seed': seed, 'index': search.found['index'], 'case': search.found['case'],
                                   'what': search.found['what'], 'obligations_not_discharged': proof.failed,
                                   'replay': 'python3 tools/check.py replay <this file>'})
        print('the case: %s\nwhat fails: %s' % (search.found['case'], search.found['what']))
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif proof.state == 'failed':
        path = write_replay(prop, {'property': prop, 'seed': seed, 'obligations_not_discharged': proof.failed,
                                   'verifier': proof.command})
        for f in proof.failed:
            print('not discharged: %s: %s: %s' % (f['obligation'], f['what'], f['clause']))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    evidence(prop, plan, search, proof, seed, violation)
    if violation:
        print(violation, flush=True)
        sys.exit(1)
    print('%s holds: %s' % (prop, 'every obligation is discharged' if proof.state == 'discharged' else
                            'no counterexample within the bounds of the search'), flush=True)
    sys.exit(0)


def evidence(prop, plan, search, proof, seed, violation):
    level = plan['level']
    if level == 'proof' and proof.state != 'discharged':
        level = 'exploration'
    coverage = {
        'evaluations': search.evaluations, 'distinct_nontrivial': search.distinct, 'rule': RULES[prop],
        'samples': (search.samples or ['(none)'])[:8],
        'bounded_check': 'bounded: the inputs generated in %d s from seed %d, compared with an independent oracle; never counted as proved'
                         % (SECONDS, SEED),
    }
    if proof.modules:
        coverage.update({
            'obligations': proof.obligations, 'discharged': proof.discharged,
            'checker_cmd': proof.command, 'back_end': 'Verus 0.2026.09.13 with Z3 4.12',
            'functions_under_contract': sorted(set(proof.contracts)), 'lemmas_and_specifications': len(set(proof.lemmas)),
            'solver_ms': proof.solver_ms, 'proof_state': proof.state, 'proof_note': proof.why[:1500],
            'trusted_base': proof.trusted or ['(see contracts/stubs)'],
            'obligations_not_discharged': [f['obligation'] + ': ' + f['what'] for f in proof.failed],
        })
    data = {'property': prop, 'tier': TIER, 'seed': seed, 'level': level, 'coverage': coverage,
            'assumptions': plan['assumptions'], 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(path + '.tmp', path)


def replay(path):
    r = json.load(open(path))
    if 'index' not in r:
        print(json.dumps(r, indent=1))
        return
    program, why = build_real(r['property'] != 'C15')
    if not program:
        print(why[-2000:])
        sys.exit(2)
    print('case: %s' % r['case'])
    got = run_replay(r['property'], program, r['seed'], r['index'])
    print('fails: %s' % got[1] if got else 'does not fail')
    sys.exit(1 if got else 0)


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        os.makedirs(BUILD, exist_ok=True)
        ok = build_weaver() is not None
        log('weaver: %s' % ('ready' if ok else 'does not build'))
        sys.exit(0)
    if sys.argv[1] == 'shapes':  # for whoever writes contracts: what the proof steps fit now
        woven = os.path.join(BUILD, 'woven-shapes')
        shell('%s %s/src %s/contracts %s %s' % (build_weaver(), REPO, VERIF, woven, ','.join(MODULES)), 60)
        functions = json.load(open(os.path.join(woven, 'map.json')))['functions']
        with open(os.path.join(VERIF, 'contracts/shapes.json'), 'w') as f:
            json.dump({x['fn']: shape(x['body']) for x in functions if x.get('hints')}, f, indent=1, sort_keys=True)
            f.write('\n')
        sys.exit(0)
    if sys.argv[1] == 'replay':
        replay(sys.argv[2])
    else:
        main(sys.argv[1])
