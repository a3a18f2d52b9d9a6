#!/usr/bin/env python3
"""mutate.py HEADER CHECK[,CHECK...] [max] [runs]: sensitivity measurement.
Makes small changes to one header (in scratch copies of /repo/src below /tmp/mut),
builds the harness of each check against each and searches; prints survivors.
Development tool: no registered check uses it."""
import os, re, random, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hdr = sys.argv[1]; checks = sys.argv[2].split(',')
mx = int(sys.argv[3]) if len(sys.argv) > 3 else 10**6
runs = sys.argv[4] if len(sys.argv) > 4 else '15000'
src = open('/repo/src/' + hdr).read()
start = src.find('namespace sharemind')
if start < 0: start = src.find('#include')

def blank(s):  # comments, strings and preprocessor lines blanked, same length
    def r(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|^[ \t]*#(?:[^\n]*\\\n)*[^\n]*', r, s, flags=re.S | re.M)
B = blank(src)
muts = []
def add(a, b, new, what):
    if a < start: return
    if src[a:b] == new: return
    line = src.count('\n', 0, a) + 1
    muts.append((line, what, src[:a] + new + src[b:]))

# statements
depth = 0; prev = start
for i in range(start, len(B)):
    c = B[i]
    if c in '([': depth += 1
    elif c in ')]': depth -= 1
    elif depth == 0 and c in ';{}':
        if c == ';':
            st = B[prev:i + 1]
            t = st.strip()
            lead = len(st) - len(st.lstrip())
            if len(t) > 1 and not re.match(r'(using|typedef|template|class|struct|friend|static_assert|assert|enum|extern|namespace|public|private|protected|inline|static|constexpr|return\s+\w)', t):
                a = prev + lead
                m = re.match(r'(if|while|for|else|do)\b', t)
                if not m:
                    add(a, i + 1, ';', 'delete: ' + re.sub(r'\s+', ' ', t)[:90])
                elif m.group(1) != 'else':
                    add(a, i + 1, ';', 'delete: ' + re.sub(r'\s+', ' ', t)[:90])
        prev = i + 1
def each(pat, f, what):
    for m in re.finditer(pat, B):
        n = f(m)
        for new in (n if isinstance(n, list) else [n]):
            ctx = re.sub(r'\s+', ' ', src[max(src.rfind('\n', 0, m.start()), 0):src.find('\n', m.end())]).strip()[:80]
            add(m.start(), m.end(), new, '%s -> %s in: %s' % (m.group(0).strip(), new.strip(), ctx))
each(r'memory_order_(acquire|release|acq_rel|seq_cst)', lambda m: 'memory_order_relaxed' if m.group(1) != 'acq_rel' else ['memory_order_acquire', 'memory_order_release'], '')
each(r'(?<=\s)(==|!=|<=|>=|<|>)(?=\s)', lambda m: {'==': '!=', '!=': '==', '<=': '<', '>=': '>', '<': '<=', '>': '>='}[m.group(1)], '')
each(r'(?<=\s)(&&|\|\|)(?=\s)', lambda m: '||' if m.group(1) == '&&' else '&&', '')
each(r'(?<=[\s(])!(?=[\w(])', lambda m: '', '')
each(r'\+\+|--', lambda m: '--' if m.group(0) == '++' else '++', '')
each(r'(?<=\s)[+-](?=\s)', lambda m: '-' if m.group(0) == '+' else '+', '')
each(r'\+=|-=', lambda m: '-=' if m.group(0) == '+=' else '+=', '')
each(r'\btrue\b', lambda m: 'false', '')
each(r'\bfalse\b', lambda m: 'true', '')
each(r'\bnullptr\b(?=\s*[,;)])', lambda m: 'decltype(nullptr)(nullptr)' if 0 else m.group(0), '')
each(r'notify_all', lambda m: 'notify_one', '')
each(r'\bnotify_one', lambda m: 'notify_all', '')
each(r'(?<![\w.])1u?(?![\w.])', lambda m: ['0u', '2u'], '')
each(r'(?<![\w.x])0u?(?![\w.x])', lambda m: '1u', '')
each(r'\bwhile\b(?=\s*\((?!true))', lambda m: 'if', '')
each(r'\bif\b(?=\s*\()', lambda m: ['if (true) if', 'if (false) if'][1:], '')
each(r'\bstd::move(?=\()', lambda m: '', '')
each(r'\bcompare_exchange_weak\b', lambda m: 'compare_exchange_strong', '')
def ifs():
    for m in re.finditer(r'\bif\s*(?=\()', B):
        j = m.end(); d = 0
        while True:
            if B[j] == '(': d += 1
            elif B[j] == ')':
                d -= 1
                if d == 0: break
            j += 1
        add(m.end(), j + 1, '(true)', 'if (true) for: ' + re.sub(r'\s+', ' ', src[m.start():j + 1])[:80])
ifs()
random.seed(7); 
if len(muts) > mx: muts = random.sample(muts, mx)
muts.sort(key=lambda m: m[0])
print('%s: %d mutants' % (hdr, len(muts)), flush=True)
def one(k):
    line, what, text = muts[k]
    d = '/tmp/mut/%s.%d' % (hdr, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo/src', d + '/src', symlinks=True)
    open(d + '/src/' + hdr, 'w').write(text)
    os.makedirs(d + '/b/obj')
    for o in ('rt', 'kernel', 'main'): shutil.copy('%s/build/obj/%s.o' % (V, o), d + '/b/obj/')
    res = 'SURVIVED'
    env = dict(os.environ, VERIF_REPO=d)
    for c in checks:
        try:
            p = subprocess.run([V + '/tools/build.sh', c, d + '/b'], env=env, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired: res = 'TIMEOUT build'; break
        if p.returncode: res = 'nocompile'; break
        try:
            p = subprocess.run(['timeout', '-k', '5', '200', d + '/b/' + c, 'run', '--seed', '1', '--runs', runs, '--workers', '1', '--minimise', '0', '--budget', '60', '--out', d + '/o.json', '--replays', d], capture_output=True, text=True)
            if p.returncode == 1:
                j = json.load(open(d + '/o.json')); res = 'killed %s %s after %d' % (c, j.get('violation_class'), j.get('runs', 0)); break
            if p.returncode != 0: res = 'ERROR %s rc %d %s' % (c, p.returncode, (p.stdout + p.stderr)[-200:].replace('\n', ' | '))
        except Exception as e: res = 'ERROR ' + str(e)
    shutil.rmtree(d, ignore_errors=True)
    return k, res
cnt = {}
with ThreadPoolExecutor(8) as ex:
    for k, res in ex.map(one, range(len(muts))):
        w = res.split()[0]; cnt[w] = cnt.get(w, 0) + 1
        if w != 'nocompile' or '-v' in sys.argv: print('%s:%d [%s] %s' % (hdr, muts[k][0], res, muts[k][1]), flush=True)
print(hdr, cnt)
