#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property with Kani/CBMC on /repo's current tree.

Exit 0: every harness of the property verified.  Exit 1 with a VIOLATION line: a counterexample
reproduced against the real code.  Exit 2: no answer (build failure, timeout, bound or model limit
reached, counterexample that does not reproduce).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from props import PROPS  # noqa: E402

MIR = ('-Zmir-opt-level=2 -Zinline-mir=yes -Zinline-mir-threshold=3000 -Zinline-mir-hint-threshold=3000 '
       '-Zmir-enable-passes=-RemoveStorageMarkers,-GVN,-DestinationPropagation,-ReferencePropagation,'
       '-DataflowConstProp')
KANI = ['-Z', 'mem-predicates', '-Z', 'unstable-options', '-Z', 'stubbing', '--no-memory-safety-checks',
        '--no-assertion-reach-checks']


class NoAnswer(Exception):
    pass


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.p = pid, tier, PROPS[pid]
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid.lower())
        self.crate = os.path.join(VERIF, 'harness', self.p.get('crate', 'kani'))
        self.budget = 840 if tier == 'quick' else 6 * 3600
        self.evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(self.evdir, exist_ok=True)

    def left(self):
        return max(10, self.budget - (time.time() - self.t0))

    def env(self, kani=True):
        e = dict(os.environ)
        e['BINATE_VERIF'] = os.path.join(VERIF, 'harness', 'src', 'hooks.rs')
        e['CARGO_NET_OFFLINE'] = 'true'
        e.pop('RUSTC_WRAPPER', None)
        flags = '--cfg binate_verif'
        if kani:
            flags += ' ' + self.p.get('mir', MIR)
            if self.tier == 'thorough':
                flags += ' --cfg thorough'
        if self.p.get('release'):
            flags += ' -Cdebug-assertions=off'
            if not kani:
                flags += ' -Coverflow-checks=off'
        e['RUSTFLAGS'] = flags
        e['CARGO_TARGET_DIR'] = ''
        del e['CARGO_TARGET_DIR']
        return e

    # ---- the solver run ---------------------------------------------------------------------
    def kani(self, harnesses, extra=(), timeout=None, exact=False):
        out = os.path.join(self.scratch, 'out%d.json' % time.time_ns())
        cmd = ['cargo', 'kani', '--target-dir', os.path.join(self.scratch, 'kt')] + KANI + self.p.get('flags', [])
        cmd += ['--harness-timeout', '%ds' % (timeout or self.p.get('timeout', 400)), '-j', '8',
                '--output-into-files', '--export-json', out, '--output-format', 'terse']
        for h in harnesses:
            cmd += ['--harness', h]
        if exact:
            cmd += ['--exact']
        cmd += list(extra) + self.cbmc()
        r = run(cmd, self.crate, self.env(), self.left())
        if not os.path.exists(out):
            tail = '\n'.join(r.splitlines()[-40:])
            raise NoAnswer('cargo kani gave no result\n' + tail)
        return json.load(open(out))

    def cbmc(self):
        return ['--cbmc-args'] + self.p['cbmc'] if self.p.get('cbmc') else []

    def results(self, j):
        stats = {c['harness_id']: (c.get('cbmc_stats') or {}) for c in j['cbmc']}
        res = {}
        for r in j['verification_results']['results']:
            res[r['harness_id']] = dict(status=r.get('status'), checks=r.get('checks') or [],
                                        ms=r.get('duration_ms') or 0, stats=stats.get(r['harness_id'], {}))
        return res

    def verdict(self, name, r):
        """'ok', 'fail' (a counterexample to replay) or 'open' with a reason."""
        bad = [c for c in r['checks'] if c['status'].lower() == 'failure']
        und = [c for c in r['checks'] if c['status'].lower() not in ('success', 'failure', 'unreachable', 'satisfied',
                                                                     'undetermined')]
        if name.endswith('_refused') and bad and not und:
            # The refusal itself (a panic of the code under test) is what is wanted.
            own = [c for c in bad if '/src/' in loc(c) and loc(c).startswith('../src/')]
            if not own and not any('unwinding' in c['description'] for c in bad):
                return 'ok', ''
            bad = own
        if r['status'] == 'Success':
            return 'ok', ''
        limit = [c for c in bad if 'MODEL-LIMIT' in c['description'] or 'unwinding assertion' in c['description']
                 or 'is not currently supported' in c['description'] or 'unsupported' in c['description'].lower()
                 or 'recursion' in c['description']]
        if bad and len(limit) < len(bad):
            return 'fail', '; '.join(sorted({c['description'] for c in bad if c not in limit}))
        if limit:
            return 'open', 'bound or model limit: ' + limit[0]['description'] + ' at ' + loc(limit[0])
        return 'open', 'no verdict (%s)' % r['status']

    # ---- replay of a counterexample -----------------------------------------------------------
    def counterexamples(self, name):
        """Concrete inputs, as lists of byte lists, from a second solver run with emits on."""
        cmd = ['cargo', 'kani', '--target-dir', os.path.join(self.scratch, 'kt')] + KANI + self.p.get('flags', [])
        cmd += ['--features', 'emit', '-Z', 'concrete-playback', '--concrete-playback=print',
                '--harness-timeout', '%ds' % self.p.get('timeout', 400), '--harness', name, '--exact']
        text = run(cmd + self.cbmc(), self.crate, self.env(), self.left())
        if 'let concrete_vals' not in text and 'unwinding assertion' in text and self.left() > 60:
            cmd += ['--unwind', str(self.p.get('unwind2', 70))]
            text = run(cmd + self.cbmc(), self.crate, self.env(), self.left())
        with open(os.path.join(self.scratch, 'playback.log'), 'w') as f:
            f.write(text)
        out = []
        for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', text, re.S):
            vals = []
            for v in re.findall(r'^\s*vec!\[([0-9, ]*)\]', m.group(1), re.M):
                vals.append([int(x) for x in v.replace(' ', '').split(',') if x])
            if vals not in out:
                out.append(vals)
        return out

    def replay(self, name, why):
        cex = self.counterexamples(name)
        if not cex:
            print('the solver printed no counterexample of %s' % name)
            return None
        d = os.path.join(self.evdir, 'replay-%s-%s' % (self.pid, name.replace('::', '-')))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'src'))
        with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "replay"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n'
                    '[dependencies]\nharness = { path = "%s/harness/%s" }\n'
                    '[profile.dev]\ndebug = false\n' % (VERIF, self.p.get('native', 'native')))
        with open(os.path.join(d, 'src', 'main.rs'), 'w') as f:
            f.write('fn main() {\n    harness::rt::main(harness::%s)\n}\n' % name)
        shutil.copy(os.path.join(VERIF, 'harness', self.p.get('native', 'native'), 'Cargo.lock'), d)
        files = []
        for k, vals in enumerate(cex[:6]):
            path = os.path.join(d, 'input%d.txt' % k)
            with open(path, 'w') as f:
                for v in vals:
                    w = int.from_bytes(bytes(v), 'little')
                    if len(v) == 16 and w >> 112 == 0xB17E:
                        f.write('B %d %d %d\n' % (w >> 96 & 0xFFFF, w >> 16 & (1 << 80) - 1, w & 0xFF))
                    elif len(v) == 16 and w >> 112 == 0xB17F:
                        continue
                    else:
                        f.write('V %s\n' % bytes(v).hex())
            files.append(path)
        env = self.env(kani=False)
        with open(os.path.join(d, 'run.sh'), 'w') as f:
            f.write('#!/bin/sh\n# Replays the counterexample against /repo: exit 1 = the property fails.\n'
                    'cd "$(dirname "$0")" && BINATE_VERIF=%s RUSTFLAGS="%s" cargo run -q --offline --target-dir '
                    '"${TMPDIR:-/tmp}/replay-target" -- "${1:-input0.txt}"\n' % (env['BINATE_VERIF'], env['RUSTFLAGS']))
        target = os.path.join(self.scratch, 'nt')
        log = ''
        profiles = [[]] if self.p.get('release') else [[], ['--release']]
        for prof in profiles:
            b = run(['cargo', 'build', '-q', '--offline', '--target-dir', target] + prof, d, env, 300)
            exe = os.path.join(target, 'release' if prof else 'debug', 'replay')
            if not os.path.exists(exe):
                print('replay does not build:\n' + b[-3000:])
                return None
            for path in files:
                tries = self.p.get('replays', 1)
                for _ in range(tries):
                    try:
                        r = subprocess.run([exe, path], capture_output=True, text=True, timeout=60, cwd=self.scratch)
                        o, rc = r.stdout + r.stderr, r.returncode
                    except subprocess.TimeoutExpired:
                        o, rc = 'the code under test does not return within 60 s', 1
                    log += '== %s %s: %d\n%s\n' % (os.path.basename(path), ' '.join(prof), rc, o[-2000:])
                    if rc == 1 or rc < 0 or rc == 101 or rc == 134:
                        with open(os.path.join(d, 'README'), 'w') as f:
                            f.write('%s: harness %s\nsolver: %s\nreplayed (%s, %s):\n%s\n' %
                                    (self.pid, name, why, os.path.basename(path), ' '.join(prof) or 'dev profile', o))
                        shutil.rmtree(os.path.join(d, 'target'), ignore_errors=True)
                        return d
        with open(os.path.join(d, 'README'), 'w') as f:
            f.write('NOT REPRODUCED\n' + log)
        print('counterexample of %s does not reproduce natively:\n%s' % (name, log[-1500:]))
        return None

    # ---- everything ---------------------------------------------------------------------------
    def main(self):
        j = self.kani(self.p['harnesses'] + (self.p.get('thorough', []) if self.tier == 'thorough' else []))
        self.lines = program_lines(os.path.join(self.scratch, 'kt'))
        res = self.results(j)
        if len(res) < self.p.get('expect', 1):
            raise NoAnswer('only %d harnesses found' % len(res))
        v = {n: self.verdict(n, r) for n, r in res.items()}
        # A loop that got longer: try once more with a larger bound.
        again = [n for n in v if v[n][0] == 'open' and 'unwinding' in v[n][1]]
        if again and self.left() > 120:
            j2 = self.results(self.kani(again, ['--unwind', str(self.p.get('unwind2', 70))], exact=True))
            for n, r in j2.items():
                res[n], v[n] = r, self.verdict(n, r)
        # Harnesses that found something: replay, quickest first.
        viol, replayed = [], []
        for n in sorted((n for n in v if v[n][0] == 'fail'), key=lambda n: res[n]['ms'])[:8]:
            print('%s: %s' % (n, v[n][1]))
            if self.left() < 30:
                break
            d = self.replay(n, v[n][1])
            replayed.append((n, bool(d)))
            if d:
                known = self.known(n, d)
                if known:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, known))
                    v[n] = ('known', known)
                    continue
                viol.append((n, d))
                break
        self.evidence(res, v, viol, replayed)
        for n, d in viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, d))
        if viol:
            return 1
        open_ = {n: s for n, s in v.items() if s[0] not in ('ok', 'known')}
        for n, s in open_.items():
            print('NO ANSWER %s: %s' % (n, s[1]))
        return 2 if open_ else 0

    def known(self, name, d):
        path = os.path.join(VERIF, 'known_findings.txt')
        why = open(os.path.join(d, 'README')).read()
        for l in open(path):
            m = re.match(r'finding: property=(\S+) harness=(\S+) shows="([^"]*)" (.*)', l)
            if m and m.group(1) == self.pid and m.group(2) == name and m.group(3) in why:
                return m.group(4).strip()
        return None

    def evidence(self, res, v, viol, replayed):
        checks = [c for r in res.values() for c in r['checks']]
        funcs = encoded(self.lines)
        tot = lambda k: sum(float(r['stats'].get(k) or 0) for r in res.values())  # noqa: E731
        ok = [n for n in v if v[n][0] == 'ok']
        slow = sorted(res, key=lambda n: -res[n]['ms'])[:5]
        cov = {
            'explanation': self.p['covers'],
            'technique': 'symbolic execution of the compiled code (Kani %s, CBMC) to SAT/SMT queries' % kani_version(),
            'bounds': self.p['bounds'],
            'harnesses': len(res),
            'harnesses_verified': len(ok),
            'harness_verdicts': {n: v[n][0] + (': ' + v[n][1] if v[n][1] else '') for n in sorted(v)},
            'obligations': len(checks),
            'discharged': sum(c['status'].lower() in ('success', 'unreachable', 'satisfied') for c in checks),
            'verification_conditions_generated': int(tot('vccs_generated')),
            'solver_queries_after_simplification': int(tot('vccs_remaining')),
            'program_steps_encoded': int(tot('size_program_expression')),
            'symbolic_execution_s': round(tot('runtime_symex_s'), 1),
            'solver_s': round(tot('runtime_solver_s'), 1),
            'slowest': {n: res[n]['ms'] / 1000 for n in slow},
            'functions_encoded': funcs,
            'source_lines_encoded': sum(len(x) for x in self.lines.values()),
            'counterexamples_replayed': [dict(harness=n, reproduced=b) for n, b in replayed],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1),
              'level': 'other', 'coverage': cov, 'assumptions': self.p['assumes'],
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(viol)}
        path = os.path.join(self.evdir, self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)


def program_lines(kt):
    """Source lines of /repo present in the programs given to the solver (inlined code included)."""
    import concurrent.futures
    import glob
    outs = [f for f in glob.glob(os.path.join(kt, '**', '*.out'), recursive=True) if '.symtab.' not in f]
    outs.sort(key=lambda f: -os.path.getsize(f))
    tool = shutil.which('goto-instrument') or '/root/.kani/kani-%s/bin/goto-instrument' % kani_version()

    def one(f):
        try:
            t = subprocess.run([tool, '--show-goto-functions', f], capture_output=True, timeout=60).stdout
        except (OSError, subprocess.TimeoutExpired):
            return set()
        return set(re.findall(rb'file \S*?(binate/src/\S+?\.rs) line (\d+)', t))
    lines = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s in ex.map(one, outs[:80]):
            for f, l in s:
                lines.setdefault(f.decode(), set()).add(int(l))
    return lines


def encoded(lines):
    """The functions these lines belong to."""
    out = set()
    for f, ls in lines.items():
        try:
            text = open(os.path.join(REPO, f), errors='replace').read().splitlines()
        except OSError:
            continue
        starts, ctx = [], ''
        for n, t in enumerate(text, 1):
            m = re.match(r'(?:pub(?:\([^)]*\))? )?(?:impl|trait)\b(?:<[^>]*>)?\s*(.*?)\s*(?:\{|where|$)', t)
            if m:
                ctx = m.group(1)
            elif re.match(r'\S.*\bfn \w', t):
                ctx = ''
            m = re.search(r'\bfn (\w+)', t)
            if m:
                starts.append((n, (ctx + '::' if ctx and t[:1] == ' ' else '') + m.group(1)))
        for l in ls:
            here = [name for n, name in starts if n <= l]
            if here:
                out.add('%s: %s' % (f, here[-1]))
    return sorted(out)


def loc(c):
    l = c.get('location') or {}
    return '%s:%s' % (l.get('file'), l.get('line'))


def kani_version():
    try:
        return subprocess.run(['cargo', 'kani', '--version'], capture_output=True, text=True,
                              timeout=60).stdout.split()[3]
    except Exception:
        return '?'


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, errors='replace')
    try:
        return p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out = p.communicate()[0]
        return out + '\n[timed out]'


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(pid, tier)
    try:
        rc = c.main()
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        rc = 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
