#!/usr/bin/env python3
"""Mutation campaign (development aid, not part of any check): which small changes that pass the
repository's tests do the checks miss?

mutate.py gen OUT.json            list mutants of /repo's sources
mutate.py tests OUT.json N        run the repository's tests on each (N workers), marks survivors
mutate.py checks OUT.json N       run the mapped quick checks on each survivor, each in a mount namespace of its
                                  own where /repo and /verif are scratch copies
mutate.py report OUT.json
"""
import sys, os, re, json, subprocess, random, threading, shutil
W = os.environ.get('MUTW', '/tmp/mutw')
A='bitcoin-cash/src/'; B='bitcoin-cash-base/src/'; M='bitcoin-cash-script-macro/src/'; E='bitcoin-cash-ecc/src/'
PROPS = {
 B+'byte_array.rs': ['C07','C09','C25','C18'], B+'data_type.rs': ['C05','C06','C07','C23','C09','C21'],
 B+'encoding_utils.rs': ['C07','C05','C06'], B+'integer.rs': ['C07','C08','C25'], B+'op.rs': ['C05','C06','C17','C21'],
 B+'opcode.rs': ['C23','C21','C22'],
 'bitcoin-cash-code/src/lib.rs': ['C04','C01'],
 E+'c_ecc.rs': ['C20','C15'], E+'rust_ecc.rs': ['C20'], E+'polyfill.rs': ['C20'], E+'lib.rs': ['C20'],
 M+'gen_source.rs': ['C21','C22'], M+'generate.rs': ['C21','C22'], M+'ir.rs': ['C21','C22'], M+'lib.rs': ['C21','C22'], M+'parse.rs': ['C21','C22'], M+'state.rs': ['C22','C21'],
 'bitcoin-cash-slp/src/lib.rs': ['C19'],
 A+'address.rs': ['C11','C10','C12','C25'], A+'bitcoin_code.rs': ['C03','C02','C01','C04'], A+'deserializer.rs': ['C03','C02','C01','C06','C05'],
 A+'destination.rs': ['C12','C24'], A+'ecc.rs': ['C20'], A+'error.rs': ['C02','C11'], A+'hash.rs': ['C18','C25','C01','C03'], A+'ops.rs': ['C05','C21','C26'],
 A+'pubkey.rs': ['C20','C25','C10','C12'], A+'script.rs': ['C05','C06','C24','C12','C02','C25'], A+'scripts.rs': ['C26','C12','C20'], A+'sequence.rs': ['C01','C26'],
 A+'serialize_json.rs': ['C17'], A+'serializer.rs': ['C03','C01'], A+'tagged_op.rs': ['C21','C17'], A+'tx.rs': ['C01','C16','C13','C25','C02'],
 A+'tx_builder.rs': ['C14','C15','C26','C13'], A+'tx_preimage.rs': ['C13','C26','C24'],
}
LIMIT = {B+'opcode.rs': 60, B+'integer.rs': 120}
RULES = [(r' < ', [' <= ',' >= ']), (r' <= ', [' < ']), (r' > ', [' >= ',' <= ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' \^ ', [' | ']),
 (r' \+= ', [' -= ',' = ']), (r' -= ', [' += ']), (r' \|= ', [' = ']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'\.rev\(\)', ['']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'to_le_bytes', ['to_be_bytes']), (r'from_le_bytes', ['from_be_bytes']), (r'to_be_bytes', ['to_le_bytes']),
 (r'\.\.=', ['..']), (r'(?<![.\w])if !', ['if ']), (r'\bif (?!let|!)([^{]+?) \{', [r'if !(\1) {']), (r'\.skip\(1\)', ['']), (r'\bfirst\b', ['last']), (r'\blast\b', ['first']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
 (r'(?<![\w.#])(\d+)(?![\w.]|x)', ['+1','-1']), (r'(?<![\w])0x([0-9a-f]{1,8})\b', ['hex']), (r'\.filter\(.*?\)$', ['']), (r'\bSome\(([a-z_]+)\)(?! *(=>|=))', ['None']), (r'\.unwrap_or\(0\)', ['.unwrap_or(1)']), (r'\.saturating_sub\(', ['.wrapping_sub(']), (r'\.pop\(\)', ['.first().cloned()']), (r'\.sort_by_key\(', ['.sort_by_cached_key(']) ]
def gen(out):
    ms = []
    for f, props in PROPS.items():
        lines = open('/repo/' + f).read().split('\n')
        cand = []
        for n, l in enumerate(lines):
            if l.strip().startswith('#[cfg(test)]'): break
            s = l.strip()
            if s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('"'): continue
            for rx, reps in RULES:
                for m in re.finditer(rx, l):
                    for r in reps:
                        if r in ('+1', '-1'):
                            v = int(m.group(1)); r2 = str(v + (1 if r == '+1' else -1))
                            if int(r2) < 0 or v > 2**40: continue
                        elif r == 'hex': r2 = hex(int(m.group(1), 16) ^ 1)
                        else: r2 = m.expand(r)
                        cand.append((n, l[:m.start()] + r2 + l[m.end():]))
            if re.match(r'^\s+[^/#]*;$', l) and not re.match(r'^\s+(let|return|use|pub|fn|const|static|type|break|continue|mod)\b', l) and l.count('(') == l.count(')') and l.count('{') == l.count('}') and not s.startswith(('}', ')', '.', '?')):
                cand.append((n, ''))
                if s.endswith('?;'): cand.append((n, l.replace(s, 'let _ = ' + s[:-2] + ';')))
            if re.match(r'^\s+(return\b.*;|continue;|break;)$', l): cand.append((n, ''))
            if re.match(r'^\s*[^=]+=> .*,$', l) and n + 1 < len(lines) and re.match(r'^\s*[^=]+=> .*,$', lines[n + 1]):
                a, b = l.split('=> ', 1), lines[n + 1].split('=> ', 1)
                if a[1] != b[1] : cand.append((n, (a[0] + '=> ' + b[1], b[0] + '=> ' + a[1])))
        cand = [c for i, c in enumerate(cand) if c not in cand[:i]]
        k = LIMIT.get(f)
        if k and len(cand) > k: cand = random.Random(7).sample(cand, k)
        for n, new in cand:
            ms.append({'file': f, 'line': n, 'old': lines[n], 'new': new})
    json.dump(ms, open(out, 'w'), indent=0)
    from collections import Counter
    for f, k in Counter(m['file'] for m in ms).items(): print(k, f)
    print(len(ms))
def run(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, 'TIMEOUT'
def apply(wt, m):
    for f, old, new in m.get('edits', []):
        s = open(f'{wt}/{f}').read()
        assert s.count(old) == 1, m
        open(f'{wt}/{f}', 'w').write(s.replace(old, new))
    if 'edits' in m: return
    p = f"{wt}/{m['file']}"
    lines = open(p).read().split('\n')
    assert lines[m['line']] == m['old'], m
    if isinstance(m['new'], str): lines[m['line']] = m['new']
    else: lines[m['line']], lines[m['line'] + 1] = m['new']
    open(p, 'w').write('\n'.join(lines))
def desc(m):
    if 'edits' in m: return ' '.join(m['props']) + ''.join(f'\n  {f}\n  - {o}\n  + {n}' for f, o, n in m['edits']) + '\n '
    return f"{m['file']}:{m['line']+1}\n  - {m['old'].strip()}\n  + {m['new']}\n "
lock = threading.Lock()
def save(out, ms):
    with lock: json.dump(ms, open(out + '.tmp', 'w'), indent=0); os.replace(out + '.tmp', out)
def pool(n, todo, work):
    it = iter(todo)
    def loop(k):
        while True:
            with lock: m = next(it, None)
            if m is None: return
            work(k, m)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
def tests(out, n):
    ms = json.load(open(out))
    for k in range(n):
        d = f'{W}/t{k}'; os.makedirs(d, exist_ok=True)
        if not os.path.isdir(d + '/repo'): run(f'git clone -q /repo {d}/repo', '/')
        run('git checkout -q -- . && git pull -q', d + '/repo')
    def work(k, m):
        wt = f'{W}/t{k}/repo'
        apply(wt, m)
        rc, o = run(f'. /opt/vp/env.sh; ulimit -v 16000000; CARGO_BUILD_JOBS=3 CARGO_TARGET_DIR={W}/t{k}/target timeout 300 cargo test --workspace --offline -- --test-threads 2 2>&1', wt, 400)
        m['tests'] = 'nobuild' if 'could not compile' in o and 'test result' not in o else 'survived' if rc == 0 else 'killed'
        run('git checkout -q -- .', wt)
        save(out, ms)
    pool(n, [m for m in ms if 'tests' not in m], work)
NS = '''
set -e
mount --bind %(d)s/repo /repo
mount --bind %(d)s/verif /verif
cd /verif
exec %(cmd)s
'''
def checks(out, n, only=None):
    ms = json.load(open(out))
    for k in range(n):
        d = f'{W}/c{k}'; os.makedirs(d, exist_ok=True)
        run(f'rm -rf {d}/repo && git clone -q /repo {d}/repo && mkdir -p {d}/verif && cp -a --update /verif/. {d}/verif/', '/')
    def work(k, m):
        d = f'{W}/c{k}'
        wt = d + '/repo'
        apply(wt, m)
        m['missed'] = []
        for p in m.get('props') or PROPS[m['file']]:
            open(f'{d}/ns.sh', 'w').write(NS % {'d': d, 'cmd': f'timeout 1500 ./check.sh {p} quick'})
            rc, o = run(f'unshare -Urm bash {d}/ns.sh', '/', 1600)
            if rc == 1 and 'VIOLATION property=' in o: m['caught'] = p; break
            m['missed'].append([p, rc])
            if rc not in (0, 1):
                m['note'] = o[-600:]
                if 'does not build' in o: m['tests'] = 'nobuild'; m.pop('missed'); break
        run('git checkout -q -- .', wt)
        save(out, ms)
        print(desc(m), m.get('caught', 'MISSED'), m.get('missed'), flush=True)
    todo = [m for m in ms if m.get('tests') in ('survived', 'unknown') and 'missed' not in m and (not only or only in str(m.get('file')))]
    pool(n, todo, work)
def report(out):
    ms = json.load(open(out))
    from collections import Counter
    print(Counter(m.get('tests') for m in ms), Counter(('caught' if 'caught' in m else 'missed') for m in ms if 'missed' in m))
    for m in ms:
        if 'missed' in m and 'caught' not in m: print(desc(m), m['missed'])
a = sys.argv
if a[1] == 'gen': gen(a[2])
elif a[1] == 'tests': tests(a[2], int(a[3]))
elif a[1] == 'checks': checks(a[2], int(a[3]), a[4] if len(a) > 4 else None)
else: report(a[2])
