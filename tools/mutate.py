#!/usr/bin/env python3
"""Mutation campaign: how sensitive are the checks? Not a registered check.

mutate.py WORKERS SECONDS OUT.jsonl [SEED [FILE-SUBSTRING]]

Copies /repo and the harness to /tmp/mw<i>, plants one small syntactic change at a time in the copy, rebuilds the
harness against it and runs all checks at reduced case counts until one reports a violation. Survivors are those no
check reports; they are also run against the repository's own tests.
"""
import json, os, random, re, subprocess, sys, threading, time, shutil, glob

W, SECS, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
SUB = sys.argv[5] if len(sys.argv) > 5 else ''
SKIP = ('error.rs', 'version.rs', 'constants/insn', 'target_types', 'test', 'gen_stack_map', 'macro_support', 'build.rs', 'examples', 'benches')

def files():
    fs = subprocess.check_output(['git', '-C', '/repo', 'ls-files'], text=True).split()
    return [f for f in fs if f.endswith('.rs') and not any(s in f for s in SKIP) and SUB in f]

OPS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' <= ', ' < '), (r' < ', ' <= '), (r' >= ', ' > '), (r' > ', ' >= '),
    (r' < ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '),
    (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif !', 'if '), (r'\.rev\(\)', ''),
    (r'\bas u16\b', 'as u8 as u16'), (r'\bas i16\b', 'as i8 as i16'), (r'\bas u32\b', 'as u16 as u32'), (r'\bas i32\b', 'as i16 as i32'),
    (r'\bas u8\b', 'as i8 as u8 & 0x7f'), (r'\bas i8\b', 'as u8 as i8'), (r'\bas usize\b', 'as u8 as usize'),
    (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r' << ', ' >> '), (r' & ', ' | '), (r' \| ', ' & '),
    (r'\.\.=', '..'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.len() == 1'),
    (r'\bu16\b', 'i16'), (r'\bi16\b', 'u16'), (r'\bi32\b', 'u32'), (r'\bu32\b', 'i32'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
    (r'\.is_ok\(\)', '.is_err()'), (r'Ordering::Less', 'Ordering::Greater'), (r'\bSome\(', 'None.or(Some('),
]

def mutants():
    out = []
    for f in files():
        lines = open('/repo/' + f).read().split('\n')
        intest = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(test)]'):
                intest = True
            if intest or not s or s.startswith(('//', '#', 'use ', 'pub use', '///', 'mod ', 'pub mod')):
                continue
            code = l.split(' //')[0]
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    if rep.startswith('None.or'):
                        continue
                    new = l[:m.start()] + rep + l[m.end():]
                    out.append((f, i, 1, [new], f'{pat} -> {rep}'))
            for m in re.finditer(r'(?<![\w.#])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
                t = m.group(1)
                v = int(t, 16) if t.startswith('0x') else int(t)
                for nv in {v + 1, v - 1 if v > 0 else v + 2}:
                    out.append((f, i, 1, [l[:m.start()] + (hex(nv) if t.startswith('0x') else str(nv)) + l[m.end():]], f'{t} -> {nv}'))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'type ', 'const ', '}', ')')) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                out.append((f, i, 1, [''], 'statement removed'))
            a = re.match(r'^(\s*)([^=]+?) => (.+),$', l)
            if a and i + 1 < len(lines):
                b = re.match(r'^(\s*)([^=]+?) => (.+),$', lines[i + 1])
                if b:
                    out.append((f, i, 2, [f'{a[1]}{a[2]} => {b[3]},', f'{b[1]}{b[2]} => {a[3]},'], 'arms swapped'))
                out.append((f, i, 1, [''], 'arm removed'))
            if s.endswith(',') and i + 1 < len(lines) and lines[i + 1].strip().endswith(',') and '=>' not in l + lines[i + 1]:
                if not re.match(r'\s*(pub )?\w+(: .*|\(.*\))?,$', l):
                    out.append((f, i, 2, [lines[i + 1], l], 'lines swapped'))
    # the same text twice is the same mutant
    seen, res = set(), []
    for m in out:
        k = (m[0], m[1], m[2], tuple(m[3]))
        if k not in seen:
            seen.add(k)
            res.append(m)
    random.Random(SEED).shuffle(res)
    return res

QUICK = {}
for p in glob.glob('/verif/harness/src/checks/*.rs'):
    for m in re.finditer(r'id: "(C\d+)",\s*quick: ([\d_]+)', open(p).read()):
        QUICK[m[1]] = int(m[2].replace('_', ''))
IDS = sorted(QUICK)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l)
        done.add((r['file'], r['line'], tuple(r['new'])))
todo = [m for m in mutants() if (m[0], m[1] + 1, tuple(m[3])) not in done]
print(len(todo), 'mutants to do', flush=True)
lock = threading.Lock()
end = time.time() + SECS

def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -9, 'timeout'

def work(w):
    d = f'/tmp/mw{w}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/out')
    sh(['cp', '-a', '/repo', d + '/repo'], '/')
    os.makedirs(d + '/harness')
    for x in ('src', 'Cargo.toml', 'Cargo.lock'):
        sh(['cp', '-a', '/verif/harness/' + x, d + '/harness/'], '/')
    p = d + '/harness/Cargo.toml'
    s = open(p).read().replace('"/repo', f'"{d}/repo').replace('opt-level = 2', 'opt-level = 1').replace('incremental = false', 'incremental = true').replace('codegen-units = 16', 'codegen-units = 64')
    open(p, 'w').write(s)
    env = {'CARGO_TARGET_DIR': d + '/target', 'VERIF_ROOT': d + '/out', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}
    while time.time() < end:
        with lock:
            if not todo:
                break
            f, i, n, new, op = todo.pop()
        path = f'{d}/repo/{f}'
        orig = open(path).read()
        lines = orig.split('\n')
        old = lines[i:i + n]
        lines[i:i + n] = new
        open(path, 'w').write('\n'.join(lines))
        rec = {'file': f, 'line': i + 1, 'old': old, 'new': new, 'op': op}
        rc, o = sh(['cargo', 'check', '--offline', '-q'], d + '/repo', {'CARGO_TARGET_DIR': d + '/ctarget'})
        if rc == 0:
            rc, o = sh(['cargo', 'build', '--release', '--offline', '--locked'], d + '/harness', env)
        if rc != 0:
            rec['result'] = 'no build'
        else:
            rec['result'] = 'SURVIVED'
            for frac in (300, 20, 5):
                for c in IDS:
                    rc, o = sh([d + '/target/release/check', c], d, dict(env, VERIF_CASES=str(max(20, QUICK[c] // frac))), 300)
                    if rc != 0:
                        rec['result'] = c if rc == 1 and 'VIOLATION' in o else f'{c} rc={rc}'
                        rec['message'] = o[-400:]
                        break
                if rec['result'] != 'SURVIVED':
                    break
            if rec['result'] == 'SURVIVED':
                rc, o = sh(['cargo', 'test', '--workspace', '--offline', '-q'], d + '/repo', {'CARGO_TARGET_DIR': d + '/ttarget'}, 300)
                rec['tests'] = rc
        open(path, 'w').write(orig)
        with lock:
            open(OUT, 'a').write(json.dumps(rec) + '\n')
    shutil.rmtree(d, ignore_errors=True)

ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
