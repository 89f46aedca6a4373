#!/usr/bin/env python3
"""Mutation campaign over the crate under test, in a scratch copy (exploration aid, no registered check uses it).

  mutate.py list REPO > muts.jsonl          every candidate mutant of REPO's non-test sources
  mutate.py run DIR muts.jsonl OUT i n      run every n-th (offset i) mutant in DIR/{repo,verif}, append results to OUT
"""
import json, os, re, subprocess, sys, random, time

OPS = [
    (r'(?<= )==(?= )', ['!=']), (r'(?<= )!=(?= )', ['==']),
    (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )<=(?= )', ['<']), (r'(?<= )>(?= )', ['>=', '<']), (r'(?<= )>=(?= )', ['>']),
    (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['+']), (r'(?<= )\+=(?= )', ['-=']), (r'(?<= )-=(?= )', ['+=']),
    (r'(?<= )<<(?= )', ['>>']), (r'(?<= )>>(?= )', ['<<']), (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&']), (r'(?<= )/(?= )', ['*']), (r'(?<= )%(?= )', ['/']),
    (r'&&', ['||']), (r'(?<= )\|\|(?= )', ['&&']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.\.=', ['..']), (r'(?<=[\w\)])\.\.(?=[\w\(])', ['..=']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'\bis_some\b', ['is_none']), (r'\bis_none\b', ['is_some']), (r'\bis_ok\b', ['is_err']), (r'\bis_err\b', ['is_ok']),
    (r'\bto_be_bytes\b', ['to_le_bytes']), (r'\bto_le_bytes\b', ['to_be_bytes']), (r'\bfrom_be_bytes\b', ['from_le_bytes']), (r'\bfrom_le_bytes\b', ['from_be_bytes']),
    (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
    (r'\bany\(', ['all(']), (r'\ball\(', ['any(']),
    (r'(?<=[ (=])!(?=[\w(])', ['']),
    (r'\?;', ['.ok();']),
    (r'\bunwrap_or\(', ['map_or(']),
]
NUM = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d+)(?=(?:u8|u16|u32|u64|usize)?\b)(?!\.\d)')
STR = re.compile(r'(b?)"((?:[^"\\]|\\.)+)"')
CHR = re.compile(r"b'([^'\\])'")

def skip(line):
    s = line.strip()
    return (not s or s.startswith('//') or s.startswith('#[') or s.startswith('#!') or s.startswith('use ') or s.startswith('pub use ')
            or re.match(r'(trace|warn|debug|info|error)!\(', s) or s.startswith('assert') or 'compile_error' in s or s.startswith('const _') or 'fmt::' in s)

def mutants_of(path, root):
    src = open(os.path.join(root, path)).read().split('\n')
    out = []
    intest = False
    for i, line in enumerate(src):
        if '#[cfg(test)]' in line or re.match(r'\s*mod tests? \{', line): intest = True
        if intest: continue
        if skip(line): continue
        code = line.split('//')[0].rstrip() if '"' not in line else line.rstrip()
        ln = line
        def add(new, op):
            if new != line: out.append(dict(file=path, line=i, old=line, new=new, op=op))
        for rx, subs in OPS:
            for m in re.finditer(rx, code):
                for sub in subs:
                    add(code[:m.start()] + sub + code[m.end():], rx)
        for m in NUM.finditer(code):
            t = m.group(1)
            v = int(t.replace('_', ''), 0)
            for nv in ([v + 1] if v == 0 else [v + 1, v - 1]):
                add(code[:m.start()] + (hex(nv) if t.startswith('0x') else str(nv)) + code[m.end():], 'num')
        for m in STR.finditer(code):
            t = m.group(2)
            if t[-1].isalnum() or t[-1] in ';:,+-=':
                add(code[:m.start()] + m.group(1) + '"' + t[:-1] + ('#' if not t[-1].isalnum() else chr(ord(t[-1]) ^ 1)) + '"' + code[m.end():], 'str')
        for m in CHR.finditer(code):
            add(code[:m.start()] + "b'" + chr(ord(m.group(1)) ^ 1 if chr(ord(m.group(1)) ^ 1) not in "'\\" else ord(m.group(1)) ^ 2) + "'" + code[m.end():], 'chr')
        s = code.strip()
        if s.endswith(';') and not re.match(r'(let|return|break|continue|const|static|pub|type|mod|fn|\}|\)|\.)', s):
            # a whole statement in one line
            if s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                add(code[:len(code) - len(code.lstrip())] + '/* deleted */', 'del')
        m = re.match(r'(\s*)(.+?)( if .+)? => (.*)$', code)
        if m and not m.group(3) and not m.group(2).startswith('_') and '=>' not in m.group(2) and not code.strip().startswith('('):
            add(f'{m.group(1)}{m.group(2)} if false => {m.group(4)}', 'arm')
        m = re.match(r'(\s*(?:\} else )?if )(?!let )(.+)( \{)$', code)
        if m and '&&' not in m.group(2): add(f'{m.group(1)}!({m.group(2)}){m.group(3)}', 'negate')
    return out

def main():
    if sys.argv[1] == 'list':
        root = sys.argv[2]
        fs = subprocess.check_output(['find', 'src', 'gdbstub_arch/src', '-name', '*.rs'], cwd=root, text=True).split()
        r = random.Random(1)
        al = []
        for f in sorted(fs):
            ms = mutants_of(f, root)
            # one mutant of each kind per line is plenty
            seen = {}
            r.shuffle(ms)
            keep = []
            for m in ms:
                k = (m['line'], m['op'])
                if seen.get(k, 0) >= 1: continue
                seen[k] = seen.get(k, 0) + 1
                keep.append(m)
            cap = 60 if 'signal.rs' in f else 400
            al += keep[:cap]
        r.shuffle(al)
        for n, m in enumerate(al): m['id'] = n; print(json.dumps(m))
        return
    d, muts, out, i, n = sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
    muts = [json.loads(l) for l in open(muts)]
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    env = dict(os.environ, CARGO_TARGET_DIR=f'{d}/verif/target', VERIF_DIR=f'{d}/verif', VERIF_JOBS='4', VERIF_NOSHRINK='1')
    binp = f'{d}/verif/target/debug/vcheckbin'
    ids = [l.split()[0] for l in subprocess.check_output([binp, '--list'], env=env, text=True).splitlines()]
    order = ['P18', 'P02'] + [x for x in ids if x not in ('P18', 'P02')]
    for m in muts[i::n]:
        if m['id'] in done: continue
        p = os.path.join(d, 'repo', m['file'])
        orig = open(p).read()
        lines = orig.split('\n')
        assert lines[m['line']] == m['old'], m
        lines[m['line']] = m['new']
        open(p, 'w').write('\n'.join(lines))
        t = time.time()
        res = dict(m)
        try:
            b = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=f'{d}/verif/harness', env=env, capture_output=True, text=True, timeout=300)
            if b.returncode != 0: res['result'] = 'nobuild'
            else:
                res['result'] = 'SURVIVED'
                for scale in ('6', '40'):
                    for pid in order:
                        try:
                            c = subprocess.run([binp, pid], env=dict(env, VERIF_SCALE=scale, VERIF_SEED='1'), capture_output=True, text=True, timeout=200)
                        except subprocess.TimeoutExpired:
                            res['result'] = 'timeout ' + pid; break
                        if c.returncode != 0:
                            res['result'] = f'killed {pid} rc={c.returncode} scale={scale}'
                            if c.returncode != 1: res['err'] = (c.stderr or c.stdout)[-500:]
                            break
                    if res['result'] != 'SURVIVED':
                        # try likely killers first
                        pid = res['result'].split()[1]; order.remove(pid); order.insert(0, pid)
                        break
        except subprocess.TimeoutExpired:
            res['result'] = 'build-timeout'
        finally:
            open(p, 'w').write(orig)
        res['t'] = round(time.time() - t, 1)
        with open(out, 'a') as f: f.write(json.dumps(res) + '\n')

main()
