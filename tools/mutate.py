#!/usr/bin/env python3
"""Mutation survey (development aid, not a check).

python3 tools/mutate.py OUT.jsonl [-w WORKERS] [-f FILE_SUBSTRING] [-n MAX] [-s STRIDE:OFFSET] [--redo SURVIVORS.jsonl]

Makes small syntactic changes to /repo's sources, one at a time, on scratch clones under /tmp/mut.
A mutant that does not build or fails a stable test is dropped; for each of the others the checks of
the properties anchored in that file are run, until one reports a violation. One JSON line per mutant:
verdict 'nobuild', 'tests', 'killed' (by which check), 'survived'.
"""
import sys, os, re, json, subprocess, threading, queue, shutil, argparse, hashlib

ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-w', type=int, default=4); ap.add_argument('-f', default='')
ap.add_argument('-n', type=int, default=0); ap.add_argument('-s', default='1:0'); ap.add_argument('--list', action='store_true')
ap.add_argument('--redo')
A = ap.parse_args()

CHECKS = {
    'numerics.rs': 'C17 C02 C04 C05 C12 C08 C13',
    'strings.rs': 'C09 C10',
    'err.rs': 'C09 C08',
    'macros.rs': 'C01 C02 C06 C14 C11 C05',
    'terms.rs': 'C07 C09 C10 C17 C08',
    'binomial.rs': 'C07 C08 C01 C02 C06 C04 C05 C10 C11 C12 C15',
    'trinomial.rs': 'C07 C08 C01 C02 C06 C04 C05 C10 C11 C12 C15',
    'monomial.rs': 'C07 C08 C01 C02 C06 C04 C05 C10 C11 C12 C15 C17',
    'polynomial.rs': 'C07 C08 C01 C02 C03 C06 C04 C05 C10 C11 C13 C15 C17',
    'sparsepolynomial.rs': 'C07 C08 C01 C02 C03 C06 C04 C05 C10 C11 C13 C15 C16 C17',
    'integral.rs': 'C05 C10',
    'derivative.rs': 'C05 C14',
    'find_roots.rs': 'C13 C12',
    'poly_math.rs': 'C14',
    'array_polynomial.rs': 'C16',
    'traits.rs': 'C07 C08 C14 C05',
}

def code_end(lines):
    for i, l in enumerate(lines):
        if re.match(r'\s*#\[cfg\(test\)\]', l):
            return i
    return len(lines)

RULES = [
    (r'(?<![<=>!-])<(?![<=])(?= )', ['<=']), (r' <= ', [' < ']), (r'(?<= )>(?= )', ['>=']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r'(?<=[\w\)\]]) \+ (?=[\w\(&\*\-])', [' - ']), (r'(?<=[\w\)\]]) - (?=[\w\(&\*])', [' + ']),
    (r'(?<=[\w\)\]]) \* (?=[\w\(&\*])', [' + ']), (r'(?<=[\w\)\]]) / (?=[\w\(&\*])', [' * ']),
    (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' = ']), (r' /= ', [' *= ']), (r' % ', [' / ']),
    (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['2', '0']), (r'(?<![\w.])2(?![\w.])', ['3', '1']), (r'(?<![\w.])[3-9](?![\w.])', ['2']),
    (r'(?<![\w.])0\.0\b', ['1.0']), (r'(?<![\w.])1\.0\b', ['2.0']), (r'(?<![\w.])2\.0\b', ['3.0']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(])', ['']), (r'\.rev\(\)', ['']),
    (r'\.is_zero\(\)', ['.is_one()']), (r'\bzero\(\)', ['one()']), (r'\bone\(\)', ['zero()']),
    (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bSome\((\w+)\)(?= =>)', []), (r'\breturn [^;]*;', ['']),
    (r'\bbreak;', ['', 'continue;']), (r'\bcontinue;', ['', 'break;']), (r'>> 1', ['>> 2']), (r'& 1\b', ['& 3']),
    (r'\.\.=', ['..']), (r'\.skip\((\w+)\)', ['']), (r'(?<=\w)\?;', ['.ok();']), (r'wrapping_(\w+)', []), (r'-(?=self\b|[a-z]\w*\b)', ['']),
    (r"'\+'", ["'-'"]), (r"'-'", ["'+'"]), (r"'x'", ["'X'"]), (r'"x\^"', ['"x"']), (r'\bDegree::NegInf', ['Degree::Num(0)']),
]

def sites(path):
    src = open(path).read().split('\n')
    end = code_end(src)
    depth_skip = False
    for i in range(end):
        l = src[i]
        st = l.strip()
        if not st or st.startswith('//') or st.startswith('#') or st.startswith('use ') or st.startswith('pub use') or st.startswith('impl') or st.startswith('pub trait') or st.startswith('where') or st.startswith('$macro!') or 'write!(f' in st:
            continue
        code = l.split('//')[0]
        if re.match(r'^\s*(N|T|B|A|U|Self)\s*:', code):
            continue
        for rx, reps in RULES:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2 == 1 and not rx.startswith('"'):
                    continue
                for r in reps:
                    new = l[:m.start()] + r + l[m.end():]
                    if new != l:
                        yield i, new
        # delete a whole statement
        if st.endswith(';') and not re.match(r'(let|return|break|continue|use|type|pub|const|fn|})', st) and st.count('(') == st.count(')'):
            yield i, ''
    return

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

base = json.load(open('/opt/vp/BASELINE.json'))['stable']
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def setup(k):
    d = f'/tmp/mut/w{k}'
    os.makedirs(d, exist_ok=True)
    sh(f'rm -rf {d}/repo {d}/verif; git clone -q /repo {d}/repo; cp /repo/Cargo.lock {d}/repo/ 2>/dev/null; mkdir -p {d}/verif; cp -r {VER}/harness {VER}/harness_nightly {VER}/run_check.sh {VER}/known-findings.txt {d}/verif/')
    for h in ('harness', 'harness_nightly'):
        p = f'{d}/verif/{h}/Cargo.toml'
        s = open(p).read().replace('"/repo"', f'"{d}/repo"')
        open(p, 'w').write(s)
    return d

def test(d):
    L = d + '/logs'
    shutil.rmtree(L, ignore_errors=True); os.makedirs(L)
    r = sh(f'. /opt/vp/env.sh; cd {d}/repo && CARGO_TARGET_DIR={d}/tt RUSTUP_TOOLCHAIN=$STABLE timeout 120 cargo test --lib --workspace --no-fail-fast --offline -- --test-threads 4 > {L}/pre.log 2>&1')
    t = open(L + '/pre.log').read()
    if 'error: could not compile' in t:
        return 'nobuild'
    if 'test result: ok' not in t:
        return 'tests'
    sh(f'. /opt/vp/env.sh; cd {d}/repo && export CARGO_TARGET_DIR={d}/tt && RUSTUP_TOOLCHAIN=$STABLE timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > {L}/default.log 2>&1; CARGO_TARGET_DIR={d}/tn RUSTUP_TOOLCHAIN=$NIGHTLY timeout 300 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4 > {L}/features.log 2>&1; rm -f {L}/pre.log; python3 /opt/vp/results.py {d}/out.json "cargo:{L}/*.log"')
    try:
        o = json.load(open(d + '/out.json'))
    except Exception:
        return 'nobuild'
    return 'tests' if any(t not in o['passed'] for t in base) else ''

lock = threading.Lock()
def run(d, m):
    rel, i, new = m
    p = f'{d}/repo/{rel}'
    sh(f'git -C {d}/repo checkout -q -- .')
    src = open(p).read().split('\n')
    old = src[i]
    src[i] = new
    open(p, 'w').write('\n'.join(src))
    rec = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip())
    v = test(d)
    if v:
        rec['verdict'] = v
    else:
        rec['verdict'] = 'survived'
        for c in CHECKS.get(os.path.basename(rel), ' '.join('C%02d' % k for k in range(1, 18))).split():
            r = sh(f'VERIF_TARGET_DIR={d}/vt timeout 600 bash {d}/verif/run_check.sh {c}')
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                rec['verdict'] = 'killed'; rec['by'] = c
                break
            if r.returncode != 0:
                rec.setdefault('odd', []).append((c, r.returncode, r.stdout[-300:]))
    with lock:
        open(A.out, 'a').write(json.dumps(rec) + '\n')
    sh(f'git -C {d}/repo checkout -q -- .')

jobs = []
if A.redo:
    for l in open(A.redo):
        r = json.loads(l)
        if r['verdict'] == 'survived':
            lines = open('/repo/' + r['file']).read().split('\n')
            for i, new in sites('/repo/' + r['file']):
                if i + 1 == r['line'] and new.strip() == r['new'] and lines[i].strip() == r['old']:
                    jobs.append((r['file'], i, new)); break
else:
    for root, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if 'benchmarks' in p or f in ('lib.rs', 'mod.rs') or A.f not in p:
                continue
            seen = set()
            for i, new in sites(p):
                if (i, new) not in seen:
                    seen.add((i, new)); jobs.append((os.path.relpath(p, '/repo'), i, new))
    st, of = map(int, A.s.split(':'))
    import random
    random.Random(7).shuffle(jobs)
    jobs = jobs[of::st]
    if A.n:
        jobs = jobs[:A.n]
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        r = json.loads(l); done.add((r['file'], r['line'], r['new']))
jobs = [j for j in jobs if (j[0], j[1] + 1, j[2].strip()) not in done]
print(len(jobs), 'mutants', flush=True)
if A.list:
    from collections import Counter
    print(Counter(j[0] for j in jobs)); sys.exit()
q = queue.Queue()
for j in jobs:
    q.put(j)
def work(k):
    d = setup(k)
    while True:
        try:
            j = q.get_nowait()
        except queue.Empty:
            return
        try:
            run(d, j)
        except Exception as e:
            print('error', j, repr(e), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(A.w)]
[t.start() for t in ts]; [t.join() for t in ts]
