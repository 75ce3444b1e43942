#!/usr/bin/env python3
"""Mechanical changes to /repo's sources, to find out what the checks do not notice.

usage: mutate.py SLOTS COUNT SEED OUT [PATH-PREFIX...]

Each mutant is applied in a scratch copy below /tmp/mu, has to compile and to pass the existing tests, and is then given to
the simulators (built from a copy of /verif's sources against that scratch copy). OUT gets one JSON line per mutant.
"""
import json, os, random, re, shutil, subprocess, sys, threading

MU = '/tmp/mu'
RT = ['C%02d' % k for k in range(1, 15)]
GEN = ['C%02d' % k for k in range(20, 30)]
OPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), (' * ', ' + '), (' / ', ' * '), (' << ', ' >> '), (' >> ', ' << '),
       (' & ', ' | '), (' | ', ' & '), (' && ', ' || '), (' || ', ' && '), ('true', 'false'), ('false', 'true'), ('.to_le', '.to_be'), ('from_le', 'from_be'), ('write_all(', 'write('), ('read_exact(', 'read('), (' += ', ' = '),
       ('.min(', '.max('), ('.max(', '.min('), ('is_none()', 'is_some()'), ('is_some()', 'is_none()'), ('u64', 'u32'), ('u32', 'u16'), ('u16', 'u8'), ('usize', 'u32'), ('0..', '1..'), ('8', '7'), ('rposition', 'position'), ('.rev()', ''), ('continue', 'break'), ('break', 'continue'),
       ('saturating_', 'wrapping_'), ('..=', '..')]


def mutants(root, prefixes):
    out = []
    for base in ('runtime/src', 'compiler/src'):
        for d, _, fs in os.walk(os.path.join(root, base)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), root)
                if not f.endswith(('.rs', '.template')) or '/swift' in p or (prefixes and not any(p.startswith(x) for x in prefixes)):
                    continue
                lines = open(os.path.join(root, p)).read().split('\n')
                for n, l in enumerate(lines):
                    s = l.strip()
                    if 'mod tests' in s or '#[cfg(test)]' in s:
                        break
                    if not s or s.startswith(('//', '#', '*', 'use ', 'pub use', 'mod ', 'pub mod')):
                        continue
                    for a, b in OPS:
                        at = -1
                        while True:
                            at = l.find(a, at + 1)
                            if at < 0:
                                break
                            if a[0].isalnum() and at > 0 and (l[at - 1].isalnum() or l[at - 1] == '_') or a[-1].isalnum() and at + len(a) < len(l) and (l[at + len(a)].isalnum() or l[at + len(a)] == '_') and a[0] != '.':
                                continue
                            out.append((p, n, l[:at] + b + l[at + len(a):]))
                    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
                        for v in (int(m.group(1)) + 1, int(m.group(1)) - 1):
                            if v >= 0:
                                out.append((p, n, l[:m.start()] + str(v) + l[m.end():]))
                    m = re.match(r'(\s*)(?!let |return|use |pub |const |static )(.*);$', l)
                    if m and f.endswith('.rs') and l.count('(') == l.count(')') and l.count('{') == l.count('}'):
                        out.append((p, n, m.group(1)))
                        if m.group(2).endswith('?'):
                            out.append((p, n, m.group(1) + 'let _ = ' + m.group(2)[:-1] + ';'))
                    m = re.match(r'(\s*(?:\} else )?if )(?!let )(.*) \{$', l)
                    if m:
                        for c in ('!(%s)' % m.group(2), 'true', 'false'):
                            out.append((p, n, m.group(1) + c + ' {'))
    return out


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, 'timeout'


def prepare(k):
    s = '%s/%d' % (MU, k)
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s + '/verif')
    subprocess.run(['cp', '-a', '/repo', s + '/repo'], check=True)
    subprocess.run('git checkout -q -- . && git clean -fdq -e target', shell=True, cwd=s + '/repo', check=True)
    subprocess.run(['cp', '-a', '/verif/sim', s + '/verif/sim'], check=True)
    for t in ('core', 'rt', 'gen'):
        c = '%s/verif/sim/%s/Cargo.toml' % (s, t)
        x = open(c).read().replace('"/repo/', '"%s/repo/' % s).replace('"/repo"', '"%s/repo"' % s)
        open(c, 'w').write(x)
    for f in ('rt/build.rs', 'gen/build.rs'):
        c = '%s/verif/sim/%s' % (s, f)
        if os.path.exists(c):
            x = open(c).read().replace('"/repo', '"%s/repo' % s)
            open(c, 'w').write(x)
    return s


def judge(s, m, text):
    p, n, new = m
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='2')
    env.pop('CARGO_TARGET_DIR', None)
    r, out = run(['cargo', 'test', '--workspace', '--offline', '--no-fail-fast', '-q'], s + '/repo', env, 240)
    if r != 0:
        return 'nocompile' if 'could not compile' in out or 'panicked at' in out and 'build.rs' in out else 'tests', ''
    senv = dict(env, CARGO_TARGET_DIR=s + '/target', RUSTFLAGS='-Awarnings', SIM_SCHEMA_SEED='1')
    suites = ['gen', 'rt'] if p.startswith('compiler') else ['rt']
    for suite in suites:
        r, out = run(['cargo', 'build', '--offline'], '%s/verif/sim/%s' % (s, suite), senv, 900)
        if r != 0:
            return 'caught', 'build ' + suite
        b = '%s/target/debug/%ssim' % (s, suite)
        for c in (RT if suite == 'rt' else GEN):
            r, out = run([b, 'run', c, '--seed', '1', '--worker', '0', '--workers', '1', '--runs', '100000000', '--time', '6000', '--out', s], s, env, 150)
            if r != 0:
                # A worker that is killed leaves its scratch directory.
                return ('caught' if r != 2 else 'harness'), '%s %s' % (c, ' '.join(re.findall(r'"class": "([^"]*)"', out)[:1]) or str(r))
    return 'SURVIVED', ''


def main():
    slots, count, seed, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rng = random.Random(seed)
    all_ = mutants('/repo', sys.argv[5:])
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    rng.shuffle(all_)
    todo = [m for m in all_ if (m[0], m[1] + 1, m[2]) not in done][:count]
    print('%d mutants in all, %d to do' % (len(all_), len(todo)), flush=True)
    lock = threading.Lock()

    def work(k):
        s = prepare(k)
        while True:
            with lock:
                if not todo:
                    break
                m = todo.pop()
            f = '%s/repo/%s' % (s, m[0])
            old = open(f).read()
            lines = old.split('\n')
            was = lines[m[1]]
            lines[m[1]] = m[2]
            open(f, 'w').write('\n'.join(lines))
            try:
                res, by = judge(s, m, old)
            except Exception as e:
                res, by = 'error', repr(e)
            open(f, 'w').write(old)
            with lock:
                with open(outp, 'a') as o:
                    o.write(json.dumps({'file': m[0], 'line': m[1] + 1, 'old': was, 'new': m[2], 'result': res, 'by': by}) + '\n')
        shutil.rmtree(s, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
