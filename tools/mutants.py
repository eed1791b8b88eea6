#!/usr/bin/env python3
"""mutants.py LANES HOURS [SEED]: small syntactic mutants of /repo's library, in scratch copies, against the quick
checks with a short time cap. Prints what each mutant did; those no check catches are worth a look: equivalent,
or a gap. Writes /tmp/mu only."""
import re, os, sys, random, subprocess, shutil, threading, time, json
LANES, HOURS = int(sys.argv[1]), float(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
ROOT = '/tmp/mu'
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
FIRST = {'coalesce': 'P01 P02', 'error': 'P27 P04 P05 P23', 'figment': 'P29 P13 P08 P07 P02 P05 P03', 'jail': 'P18', 'metadata': 'P23 P29', 'profile': 'P25 P02',
 'data': 'P12 P11 P16', 'env': 'P10 P09 P23', 'serialized': 'P29 P06', 'util': 'P20 P22 P07', 'de': 'P28 P06 P04 P03 P14', 'magic': 'P16 P17', 'parse': 'P09 P24', 'escape': 'P09',
 'ser': 'P06 P26', 'tag': 'P03 P21', 'value': 'P26 P14 P15 P07', 'provider': 'P29', 'yaml': 'P11', 'lib': 'P01'}
ALL = ['P%02d' % i for i in range(1, 31) if i not in (19, 21)]
SUBS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '), (r'&&', '||'), (r'\|\|(?! *\w+[.(]| *\{|\|)', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'), (r'\bis_ok\(\)', 'is_err()'), (r'\bis_err\(\)', 'is_ok()'), (r'(\w[\w.]*)\.is_empty\(\)', r'!\1.is_empty()'), (r'!(\w[\w.]*\()', r'\1'),
 (r'\.trim\(\)', ''), (r'\.trim\(\)', '.trim_start()'), (r'\.trim_start\(\)', ''), (r'\.to_ascii_lowercase\(\)', '.to_string()'), (r'\.rev\(\)', ''), (r'\.clone\(\)', '.clone().into()'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\+ 1\b', ''), (r'\+', '-'), (r' - ', ' + '),
 (r'\bDefault\b', 'Global'), (r'\bGlobal\b', 'Default'), (r'Order::(Join|Merge|Adjoin|Admerge)', 'Order::Join'), (r'Order::(Join|Merge|Adjoin|Admerge)', 'Order::Merge'), (r'Order::(Join|Merge|Adjoin|Admerge)', 'Order::Adjoin'), (r'Order::(Join|Merge|Adjoin|Admerge)', 'Order::Admerge'),
 (r'\b(\w+)\.merge\((\w+)\)', r'\2.merge(\1)'), (r'\.filter\((\w+|\|[^|]*\| [^()]*)\)', ''), (r"split\('(.)'\)", r"splitn(2, '\1')"), (r'Some\(([\w.]+)\)$', 'None'), (r'Some\(([\w.()]+)\),$', 'None,'), (r'\.or_else\(', '.and_then('), (r'\.next\(\)', '.last()'), (r'\.next\(\)', '.nth(1)'),
 (r'\.prefixed\(\w+\)', ''), (r'\.prefixed\([^()]*(\([^()]*\))?\)', ''), (r'\.retagged\([^()]*(\([^()]*\))?\)', ''), (r'\.resolved\([^()]*\)', ''), (r'\.nested_in\(path\)', ''), (r'\.without_parent\([^()]*\)', ''), (r'to_string_lossy\(\)', 'to_str().unwrap_or_default()'),
 (r'\.unwrap_or_default\(\)', '.unwrap()'), (r'i64', 'i32'), (r'u64', 'u32'), (r'u128', 'u64'), (r'i128', 'i64'), (r'f64', 'f32'), (r'usize', 'u8'), (r'isize', 'i8'), (r'\bu32\b', 'u16'), (r'is_alphanumeric', 'is_alphabetic'), (r'is_ascii_alphanumeric', 'is_alphanumeric'), (r'\ba\b', 'b'), (r'\bb\b', 'a'),
 (r'is_file\(\)', 'exists()'), (r'is_absolute\(\)', 'is_relative()'), (r'is_relative\(\)', 'is_absolute()'), (r'uncased::eq\(([^,]+), ([^)]+)\)', r'\1 == \2'), (r'\.starts_with\(', '.ends_with('), (r'\?$', '.unwrap_or_default()'), (r'\.chars\(\)', '.chars().rev()'), (r'len_utf8\(\)', 'len_utf16()'), (r'break', 'continue'), (r'return None', ''), (r'continue', 'break'),
 (r'Empty::None', 'Empty::Unit'), (r'Empty::Unit', 'Empty::None'), (r'\.insert\(0, ', '.insert(self.path.len(), '), (r'\.extend\((\w+)\)', r'.append(&mut \1.into_iter().collect())'), (r'visit_some\(self\)', 'visit_unit()'), (r'visit_newtype_struct\(self\)', 'visit_some(self)'), (r'Ok\(None\)', 'Ok(Some(Default::default()))'),
 (r'self\.profile\.clone\(\)', 'Profile::Default'), (r'self\.metadata\.clone\(\)', 'Default::default()'), (r'Tag::Default', 'Tag::Global'), (r'\.take\(\)', '.clone()'), (r'saturating_sub', 'wrapping_sub'), (r'checked_(add|sub|mul)', r'checked_\1')]
STR = r'"([^"\\{}]{1,12})"'

def body(text):
    """Line numbers of code: no comments, no tests, no attributes."""
    out = []
    for i, l in enumerate(text.split('\n')):
        s = l.strip()
        if s.startswith('#[cfg(test)]') or s.startswith('mod tests'): break
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use'): continue
        out.append(i)
    return out

def candidates(repo):
    out = []
    for d, _, fs in os.walk(repo + '/src'):
        for f in fs:
            if not f.endswith('.rs'): continue
            p = os.path.join(d, f); text = open(p).read(); lines = text.split('\n')
            for i in body(text):
                l = lines[i]
                code = l.split(' // ')[0]
                for a, b in SUBS:
                    for m in re.finditer(a, code):
                        n = code[:m.start()] + m.expand(b) + code[m.end():]
                        if n != code: out.append((p[len(repo) + 1:], i, n))
                s = code.strip()
                if s.endswith(';') and not re.match(r'(let|use|return|type|const|static|pub|fn|struct|trait|\})', s) and s.count('(') == s.count(')'): out.append((p[len(repo) + 1:], i, ''))
                if '=>' in s and s.endswith(',') and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith('('): out.append((p[len(repo) + 1:], i, ''))
                for m in re.finditer(STR, code): out.append((p[len(repo) + 1:], i, code[:m.start(1)] + m.group(1) + 'x' + code[m.end(1):]))
                for m in re.finditer(r"'([^'\\])'", code): out.append((p[len(repo) + 1:], i, code[:m.start(1)] + ('.' if m.group(1) != '.' else '/') + code[m.end(1):]))
    seen, res = set(), []
    for c in out:
        if c not in seen: seen.add(c); res.append(c)
    return res

def sh(cmd, t, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ''

lock = threading.Lock()
def say(s):
    with lock: print(s, flush=True)

def lane(j, todo, end):
    L = f'{ROOT}/l{j}'
    shutil.rmtree(L, ignore_errors=True); os.makedirs(L + '/h')
    subprocess.run(['git', 'clone', '-q', '/repo', L + '/repo'], check=True)
    shutil.copy('/repo/Cargo.lock', L + '/repo/')
    shutil.copytree(V + '/harness/src', L + '/h/src'); shutil.copy(V + '/harness/Cargo.lock', L + '/h/')
    t = open(V + '/harness/Cargo.toml').read().replace('path = "/repo"', f'path = "{L}/repo"'); assert L in t, t
    open(L + '/h/Cargo.toml', 'w').write(t)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', VH_KNOWN=V + '/known_findings.txt', RUSTFLAGS='-Awarnings')
    build = ['cargo', 'build', '-q', '--release', '--offline', '-j', str(max(2, 8 // LANES))]
    vh = L + '/h/target/release/vh'
    sh(build, 900, cwd=L + '/h', env=env)
    while time.time() < end:
        with lock:
            if not todo: return
            f, i, n = todo.pop()
        p = f'{L}/repo/{f}'
        old = open(p).read(); ls = old.split('\n'); was = ls[i]; ls[i] = n
        open(p, 'w').write('\n'.join(ls))
        try:
            rc, o = sh(['cargo', 'check', '-q', '--offline', '--all-features'], 120, cwd=L + '/repo', env=dict(env, CARGO_TARGET_DIR=L + '/ct'))
            if rc != 0: say(f'nocompile {f}:{i+1}'); continue
            rc, o = sh(build, 600, cwd=L + '/h', env=env)
            if rc != 0: say(f'nobuild {f}:{i+1}'); continue
            name = os.path.basename(f)[:-3]
            order = FIRST.get(name, '').split(); order += [x for x in ALL if x not in order]
            by = None
            for pid in order:
                rc, o = sh([vh, 'run', pid, '--seed', '1', '--tier', 'quick', '--cap', '6', '--workers', str(max(2, 8 // LANES)), '--evidence', L + '/ev', '--replays', L + '/rp'], 45, env=env)
                if rc != 0: by = f'{pid}({rc})'; break
            say(f"{'killed' if by else 'SURVIVED'} {by or ''} {f}:{i+1}\n    - {was.strip()}\n    + {n.strip()}")
        finally:
            open(p, 'w').write(old)

if __name__ == '__main__':
    os.makedirs(ROOT, exist_ok=True)
    c = candidates('/repo'); random.Random(SEED).shuffle(c)
    # At most one mutant per line and round, so that lines are covered evenly.
    rounds, count = {}, {}
    for x in c: k = (x[0], x[1]); count[k] = count.get(k, 0) + 1; rounds.setdefault(count[k], []).append(x)
    todo = [x for r in sorted(rounds, reverse=True) for x in rounds[r]]
    say(f'{len(c)} candidates on {len(count)} lines')
    ts = [threading.Thread(target=lane, args=(j, todo, time.time() + HOURS * 3600)) for j in range(LANES)]
    [t.start() for t in ts]; [t.join() for t in ts]
