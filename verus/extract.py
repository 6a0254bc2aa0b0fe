"""Mechanical extraction of functions of /repo into a Verus file.

A template (*.vrs) is Verus text with directives

    /*@extract FILE | IMPL HEADER or - | FN [| key=value ...]
    requires ...            contract clauses, inserted between the signature and the body
    ensures ...
    @start                  proof text put at the start of the body
    @loop N                 invariant/decreases clauses of the N-th loop of the body (0-based, in text order)
    @loopstart N            proof text at the start of the body of loop N
    @loopend N              proof text at the end of the body of loop N
    @afterloop N            proof text right after loop N
    @cutloop N => SIG       only loop N of the function, as a function with this signature
    @callloop N => TEXT     the call of such a function instead of loop N (numbers as in the source, for both)
    @unfold N VAR           loop N over an iterator chain becomes a loop over indices: see `unfold`
    @sub /REGEX/ => TEXT    mechanical rewrite of the body (each must match at least once, or with @sub? any number)
    @sig /REGEX/ => TEXT    the same on the signature
    @*/

The executable text of the function is copied from the current source on every run; what is dropped or
rewritten is exactly: attributes and doc comments, `pub(..)` visibility, and the listed @sub/@sig rewrites.
Raises Lost (anchor lost) when the item cannot be found or a rewrite no longer matches.
"""
import re, os, sys

class Lost(Exception):
    pass

def mask(src):
    """Same-length text with comments, strings and char literals blanked."""
    out = list(src)
    i, n = 0, len(src)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            blank(i, j); i = j
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            blank(i, j); i = j
        elif c == '"' or (c in 'rb' and re.match(r'(?:b?r#*"|b")', src[i:]) and (i == 0 or not (src[i-1].isalnum() or src[i-1] == '_'))):
            m = re.match(r'b?r(#*)"', src[i:])
            if m:
                end = '"' + m.group(1)
                j = src.find(end, i + m.end()) + len(end)
            else:
                j = src.index('"', i) + 1
                while src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            blank(i + 1, j - 1); i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                blank(i + 1, i + m.end() - 1); i += m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)

PAIR = {'{': '}', '(': ')', '[': ']'}
def match_close(m, i):
    d = 0
    o, c = m[i], PAIR[m[i]]
    for k in range(i, len(m)):
        if m[k] == o: d += 1
        elif m[k] == c:
            d -= 1
            if d == 0: return k
    raise Lost('unbalanced')

def find_block_brace(m, i, stop=';'):
    """Index of the first `{` at paren depth 0 from i (or Lost at `;`)."""
    d = 0
    for k in range(i, len(m)):
        ch = m[k]
        if ch in '([': d += 1
        elif ch in ')]': d -= 1
        elif d == 0 and ch == '{': return k
        elif d == 0 and ch in stop: raise Lost('no body')
    raise Lost('no body')

def norm(s):
    return re.sub(r'\s+', ' ', s).strip()

class Src:
    cache = {}
    def __init__(self, path):
        if not os.path.exists(path):
            raise Lost(f'file {path} is gone')
        self.path = path
        self.text = open(path).read()
        self.m = mask(self.text)
        # drop #[cfg(test)] mod
        for t in re.finditer(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{', self.m):
            e = match_close(self.m, t.end() - 1)
            self.m = self.m[:t.start()] + re.sub(r'[^\n]', ' ', self.m[t.start():e+1]) + self.m[e+1:]

    @classmethod
    def get(cls, path):
        if path not in cls.cache: cls.cache[path] = cls(path)
        return cls.cache[path]

    def impl_ranges(self, header):
        """Ranges (open, close) of blocks `header {` (several impls may have the same header)."""
        r = []
        for t in re.finditer(r'(?m)^[ \t]*(?:pub(?:\([^)]*\))?\s+)?(?:unsafe\s+)?(impl|trait|mod)\b', self.m):
            try:
                b = find_block_brace(self.m, t.start())
            except Lost:
                continue
            if norm(header) in (norm(self.m[t.start():b]), norm(re.split(r'\bwhere\b', self.m[t.start():b])[0])):
                r.append((b, match_close(self.m, b)))
        if not r:
            raise Lost(f'{self.path}: no `{header}`')
        return r

    def fn(self, header, name):
        ranges = [(-1, len(self.m))] if header == '-' else self.impl_ranges(header)
        base = 0 if header == '-' else 1
        for (a, b) in ranges:
            for t in re.finditer(r'(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+' + re.escape(name) + r'\b', self.m[a+1:b]):
                s = a + 1 + t.start()
                inner = self.m[a+1:s]
                if inner.count('{') != inner.count('}'):
                    continue
                br = find_block_brace(self.m, s)
                e = match_close(self.m, br)
                return self.text[s:br], self.text[br:e+1], self.m[s:br], self.m[br:e+1]
        raise Lost(f'{self.path}: no fn {name} in `{header}`')

def strip_comments(txt):
    m = mask(txt)
    # remove comments only: keep string contents
    out, i, n = [], 0, len(txt)
    while i < n:
        if txt.startswith('//', i) and m[i] == ' ':
            j = txt.find('\n', i); j = n if j < 0 else j
            i = j
        elif txt.startswith('/*', i) and m[i] == ' ':
            d, j = 1, i + 2
            while j < n and d:
                if txt.startswith('/*', j): d += 1; j += 2
                elif txt.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
        else:
            out.append(txt[i]); i += 1
    return re.sub(r'\n\s*\n+', '\n', ''.join(out))

def loops(m):
    """(start, body open, body close) of each loop in text order."""
    r = []
    for t in re.finditer(r"\b(while|for|loop)\b", m):
        if t.group(1) == 'for' and re.match(r'for\s*<', m[t.start():]): continue
        b = find_block_brace(m, t.end())
        r.append((t.start(), b, match_close(m, b)))
    return r

def unfold(body, n, var):
    """Desugar loop n: `for PAT in BASE CHAIN { .. }` => `let VAR_s = BASE; for VAR in VAR_it: 0..VAR_s.len() { [filter] let PAT = ITEM; .. }`.

    CHAIN: `.iter()` or a leading `&`, `.iter_mut()`/`&mut` (BASE is indexed in place), `.copied()`, `.enumerate()`, and one of the
    filters `.filter(|e| COND)`, `.flatten()`, `.filter_map(|e| *e)`, `.filter_map(|(i, e)| e.map(|e| (i, e)))`, `.filter(|e| e.is_some())` of options.
    """
    m = mask(body)
    s, b, e = loops(m)[n]
    t = re.match(r'for\s+(.*?)\s+in\s+(.*)$', body[s:b].strip(), flags=re.S)
    if not t: raise Lost(f'loop {n} is not a for loop')
    pat, expr = t.group(1), norm(t.group(2))
    expr = re.sub(r'\s*\.\s*(?=[a-z_]+\()', '.', expr)
    steps = []
    while True:
        k = re.search(r'\.(iter|iter_mut|copied|cloned|enumerate|flatten)\(\)$|\.(filter_map|filter)\(\|([^|]*)\| ?((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)$', expr)
        if not k: break
        steps.append(k.group(1) or (k.group(2), norm(k.group(3)), norm(k.group(4))))
        expr = expr[:k.start()]
    steps.reverse()
    mut = bare = False
    if steps and steps[0] in ('iter', 'iter_mut'):
        mut = steps.pop(0) == 'iter_mut'
    elif expr.startswith('&mut '):
        mut, expr = True, expr[5:]
    elif expr.startswith('&'):
        expr = expr[1:]
    elif re.fullmatch(r'\w+', expr):
        bare = True
    else:
        raise Lost(f'loop {n}: `{expr}` is not an iterator over a sequence')
    # item = (reference, number the item carries, is the item wrapped in an option that must be Some)
    count, opt, deref = None, False, False
    for i, st in enumerate(steps):
        if st in ('copied', 'cloned') : deref = True
        elif st == 'enumerate' and not opt: count = var
        elif st == 'flatten' and count is None: opt = True
        elif isinstance(st, tuple) and st[0] == 'filter_map' and count is None and re.fullmatch(r'\*(\w+)|(\w+)\.as_ref\(\)', st[2]): opt, deref = True, st[2].startswith('*')
        elif isinstance(st, tuple) and st[0] == 'filter_map' and count is not None and re.fullmatch(r'\(\w+, &?(\w+)\)', st[1]) and re.fullmatch(r'\w+\.map\(\|(\w+)\| \(\w+, \1\)\)', st[2]): opt, deref = True, True
        elif isinstance(st, tuple) and st[0] == 'filter' and re.fullmatch(r'\w+\.is_some\(\)', st[2]): opt = 'is_some'
        elif isinstance(st, tuple) and st[0] == 'filter' and re.fullmatch(r'\w+', st[1]) and opt is False: opt = st
        else: raise Lost(f'loop {n}: iterator step {st}')
    src = expr if mut else f'{var}_s'
    item = f'{src}[{var}]'
    ref = '&mut ' if mut else '&'
    pat = norm(pat)
    if count:
        q = re.fullmatch(r'\((\w+), (.*)\)', pat)
        if not q: raise Lost(f'loop {n}: pattern {pat}')
        pre = f'let {q.group(1)} = {var};' if q.group(1) != var else ''
        pat = q.group(2)
    else:
        pre = ''
    if pat.startswith('&'):
        pat, deref = pat[1:], True
    def bind(p, value):
        q = re.fullmatch(r'&?\((\w+), &?(\w+)\)', p)
        if q:
            return ''.join(f'let {x} = {value}.{i}; ' for i, x in enumerate(q.groups()) if not x.startswith('_'))
        return f'let {p} = {value};'
    open_, close = '', ''
    if opt is True:
        inner = f'{var}_x'
        if deref or not mut:
            open_, close = f'if let Some({inner}) = {item} {{ ' + bind(pat, inner if deref else f'&{inner}'), ' }'
        else:
            open_, close = f'if let Some({inner}) = &mut {item} {{ ' + bind(pat, inner), ' }'
    elif opt == 'is_some':
        open_, close = f'if {item}.is_some() {{ ' + bind(pat, ref + item), ' }'
    elif isinstance(opt, tuple):
        open_, close = f'if {{ let {opt[1]} = &{item}; {opt[2]} }} {{ ' + bind(pat, ref + item), ' }'
    else:
        q = re.fullmatch(r'\((\w+), (\w+)\)', pat)
        open_ = bind(pat, item if deref or q else ref + item)
    head = '' if mut else f'let {var}_s = {"" if re.search(r"[.]at[(][^()]*[)]$", expr) or bare else "&"}{expr};\n'
    return body[:s] + f'{head}for {var} in {var}_it: 0..{src}.len() {{ {pre} {open_} ' + body[b+1:e] + close + body[e:]

def parse_directive(txt):
    lines = txt.split('\n')
    head = [x.strip() for x in lines[0].split('|')]
    d = {'file': head[0], 'impl': head[1], 'fn': head[2], 'opt': dict(x.split('=', 1) for x in head[3:]),
         'contract': '', 'start': '', 'loop': {}, 'loopstart': {}, 'loopend': {}, 'afterloop': {}, 'sub': [], 'sig': [], 'unfold': [], 'cut': [], 'call': []}
    cur = ('contract', None)
    for l in lines[1:]:
        s = l.strip()
        m = re.match(r'@(loop|loopstart|loopend|afterloop)\s+(\d+)$', s)
        if m:
            cur = (m.group(1), int(m.group(2))); d[cur[0]].setdefault(cur[1], ''); continue
        if s == '@start':
            cur = ('start', None); continue
        m = re.match(r'@(cut|call)loop\s+(\d+) => (.*)$', s)
        if m:
            d[m.group(1)].append((int(m.group(2)), m.group(3))); continue
        m = re.match(r'@unfold\s+(\d+)\s+(\w+)$', s)
        if m:
            d['unfold'].append((int(m.group(1)), m.group(2))); continue
        m = re.match(r'@(sub\??|sig\??|post\??)\s+/(.*)/ => ?(.*)$', s)
        if m:
            k = m.group(1)
            d.setdefault(k.rstrip('?'), []).append((m.group(2), m.group(3).replace('\\n', '\n'), k.endswith('?'))); continue
        if s.startswith('@') and not s.startswith('@*'):
            raise SystemExit(f'bad directive {s}')
        if cur[1] is None: d[cur[0]] += l + '\n'
        else: d[cur[0]][cur[1]] += l + '\n'
    return d

def render(d, repo, log):
    src = Src.get(os.path.join(repo, d['file']))
    sig, body, _, _ = src.fn(d['impl'], d['fn'])
    sig, body = strip_comments(sig), strip_comments(body)
    sig = re.sub(r'^pub(?:\([^)]*\))?\s+', '', sig.strip())
    sig = re.sub(r'\bSelf::Output\b', 'Self', sig)
    # cfg(debug_assertions) statements and lint attributes are dropped
    body = re.sub(r'#\[allow\([^\]]*\)\]\s*', '', body)
    for n, text in sorted(d['call'], reverse=True) + d['cut']:
        ls = loops(mask(body))
        if n >= len(ls): raise Lost(f"{d['fn']}: no loop {n}")
        a, _, e = ls[n]
        lab = re.search(r"'\w+:\s*$", body[:a])
        if lab: a = lab.start()
        if (n, text) in d['cut']: sig, body = text, '{\n' + body[a:e+1] + '\n}'
        else: body = body[:a] + text + body[e+1:]
    for rx, rep, opt in d['sub']:
        body, k = re.subn(rx, rep, body, flags=re.S)
        if k == 0 and not opt: raise Lost(f"{d['fn']}: rewrite /{rx}/ does not match")
    for rx, rep, opt in d['sig']:
        sig, k = re.subn(rx, rep, sig, flags=re.S)
        if k == 0 and not opt: raise Lost(f"{d['fn']}: signature rewrite /{rx}/ does not match")
    for n, var in sorted(d['unfold'], reverse=True):
        if n >= len(loops(mask(body))): raise Lost(f"{d['fn']}: no loop {n}")
        body = unfold(body, n, var)
    ret = d['opt'].get('ret')
    if ret:
        if '->' not in mask(sig): raise Lost(f"{d['fn']}: no return type")
        sig = re.sub(r'->\s*(.*?)(\s*(?:where\b.*)?)$', lambda m: f'-> ({ret}: {m.group(1).strip()}){m.group(2)}', sig, flags=re.S)
    m = mask(body)
    ls = loops(m)
    want = set(d['loop']) | set(d['loopstart']) | set(d['loopend']) | set(d['afterloop'])
    if want and max(want) >= len(ls) or ('loops' in d['opt'] and int(d['opt']['loops']) != len(ls)):
        raise Lost(f"{d['fn']}: the loop structure changed ({len(ls)} loops)")
    ins = []
    for i, (s, b, e) in enumerate(ls):
        if i in d['loop']: ins.append((b, '\n' + d['loop'][i]))
        if i in d['loopstart']: ins.append((b + 1, '\n' + d['loopstart'][i]))
        if i in d['loopend']: ins.append((e, '\n' + d['loopend'][i]))
        if i in d['afterloop']: ins.append((e + 1, '\n' + d['afterloop'][i]))
    if d['start']: ins.append((1, '\n' + d['start']))
    for p, t in sorted(ins, key=lambda x: -x[0]):
        body = body[:p] + t + body[p:]
    for rx, rep, opt in d.get('post', []):
        body, k = re.subn(rx, rep, body, flags=re.S)
        if k == 0 and not opt: raise Lost(f"{d['fn']}: rewrite /{rx}/ does not match")
    vis = d['opt'].get('vis', '')
    log.append({'function': f"{d['impl']}::{d['fn']}" if d['impl'] != '-' else d['fn'], 'file': d['file'],
                'rewrites': [r[0] + ' => ' + r[1] for r in d['sub'] + d['sig'] + d.get('post', [])] + [f'loop {n} over an iterator as a loop over indices' for n, _ in d['unfold']] + [f'loop {n} called as a function' for n, _ in d['call']] + [f'only loop {n}' for n, _ in d['cut']]})
    return f"{vis}{sig}\n{d['contract']}{body}\n"

def const(repo, file, name):
    src = Src.get(os.path.join(repo, file))
    t = re.search(r'(?:pub(?:\([^)]*\))?\s+)?const\s+' + re.escape(name) + r'\s*:[^;]*;', src.m)
    if not t: raise Lost(f'{file}: no const {name}')
    return src.text[t.start():t.end()]

def struct(repo, file, name, kw='struct'):
    src = Src.get(os.path.join(repo, file))
    t = re.search(r'(?:pub(?:\([^)]*\))?\s+)?' + kw + r'\s+' + re.escape(name) + r'\b', src.m)
    if not t: raise Lost(f'{file}: no struct {name}')
    b = find_block_brace(src.m, t.start())
    e = match_close(src.m, b)
    txt = strip_comments(src.text[t.start():e+1])
    txt = re.sub(r'#\[[^\]]*\]', '', txt)
    return re.sub(r'pub(?:\([^)]*\))\s', 'pub ', txt)

def expand(template, repo):
    log = []
    txt = open(template).read()
    txt = re.sub(r'/\*@include (\S+) @\*/', lambda m: open(os.path.join(os.path.dirname(os.path.abspath(template)), m.group(1))).read(), txt)
    def rep(m):
        return render(parse_directive(m.group(1)), repo, log)
    txt = re.sub(r'/\*@extract (.*?)@\*/', rep, txt, flags=re.S)
    def rc(m):
        s = const(repo, m.group(1).strip(), m.group(2).strip())
        log.append({'const': m.group(2).strip(), 'file': m.group(1).strip()})
        return s
    txt = re.sub(r'/\*@const ([^|]*)\|([^@]*)@\*/', rc, txt)
    def rs(m):
        parts = [x.strip() for x in m.group(2).split('|')]
        s = struct(repo, parts[0], parts[1], m.group(1))
        for x in parts[2:]:
            rx, r = re.match(r'/(.*)/ => ?(.*)$', x).groups()
            s, k = re.subn(rx, r, s)
            if k == 0: raise Lost(f'struct {parts[1]}: /{rx}/ does not match')
        log.append({'struct': parts[1], 'file': parts[0]})
        return s
    txt = re.sub(r'/\*@(struct|enum) (.*?)@\*/', rs, txt, flags=re.S)
    return txt, log

if __name__ == '__main__':
    t, log = expand(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo')
    print(t)
