"""Type-checks small programs against /repo's aoc_parse (nothing is run)."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor


class Fail(Exception):
    pass


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS'):
        e.pop(k, None)
    return e


class Checker:
    """Builds aoc_parse's metadata once; then checks programs with rustc alone."""

    def __init__(self, ctx, repo, tag):
        self.dir = os.path.join(ctx['build'], 'types-' + tag)
        src = os.path.join(self.dir, 'src')
        os.makedirs(src, exist_ok=True)
        self.src = src
        with open(os.path.join(self.dir, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "types"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                    'aoc-parse = { path = "%s" }\nnum-bigint = "0.4"\n' % repo)
        with open(os.path.join(src, 'lib.rs'), 'w') as f:
            f.write('')
        with open(os.path.join(ctx['verif'], 'witness', 'Cargo.lock')) as f:
            lock = f.read().replace('name = "witness"', 'name = "types"')
        with open(os.path.join(self.dir, 'Cargo.lock'), 'w') as f:
            f.write(lock)
        target = os.path.join(self.dir, 'target')
        subprocess.run('rm -rf "%s"/debug/.fingerprint/aoc-parse-* "%s"/debug/build/aoc-parse' % (target, target), shell=True)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=self.dir, env=dict(env(), CARGO_TARGET_DIR=target),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.ext = {}
        self.deps = []
        for l in r.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('reason') == 'compiler-artifact':
                for x in d['filenames']:
                    if os.path.dirname(x) not in self.deps:
                        self.deps.append(os.path.dirname(x))
                    if x.endswith('.rmeta'):
                        self.ext[d['target']['name'].replace('-', '_')] = x
        if r.returncode != 0 or 'aoc_parse' not in self.ext:
            raise Fail('aoc_parse does not build: ' + r.stderr[-800:])

    def check(self, name, text):
        for i in range(3):
            r = self.check1(name, text)
            if r[0] or r[1]:
                return r
        raise Fail('rustc fails without a message')

    def check1(self, name, text):
        """Type-checks a library; the errors as (message, lines of the program, rendered)."""
        p = os.path.join(self.src, name + '.rs')
        with open(p, 'w') as f:
            f.write(text)
        cmd = ['rustc', '+nightly', '--edition=2021', '--crate-type=lib', '--crate-name', name, '--emit=metadata', '-Awarnings',
               '-o', os.path.join(self.dir, name + '.rmeta'), '--error-format=json']
        for x in self.deps:
            cmd += ['-L', 'dependency=' + x]
        for k in ('aoc_parse', 'num_bigint'):
            if k in self.ext:
                cmd += ['--extern', '%s=%s' % (k, self.ext[k])]
        r = subprocess.run(cmd + [p], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        out = []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                if 'panicked' in l or 'internal compiler error' in l:
                    raise Fail('rustc: ' + l)
                continue
            if d.get('level') != 'error' or d['message'].startswith('aborting due') or d['message'].startswith('could not compile'):
                continue
            lines = set()
            for s in d.get('spans', []) + [s for c in d.get('children', []) for s in c.get('spans', [])]:
                while s:
                    if s['file_name'] == p:
                        lines |= set(range(s['line_start'], s['line_end'] + 1))
                    s = (s.get('expansion') or {}).get('span')
            out.append((d['message'], sorted(lines), d.get('rendered') or ''))
        if r.returncode not in (0, 1):
            raise Fail('rustc exits with %d' % r.returncode)
        return r.returncode == 0, out

    def many(self, jobs):
        """[(name, text)] -> [(ok, errors)]"""
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: self.check(*j), jobs))
