"""Mechanical extraction of the time loop of the simulation driver (class Problem of driver.h), redone on every run.

Taken verbatim:
  loop.inc     from Problem::run: every statement before the time loop that mentions the time step `dt`, the plain
               declarations directly before the loop, helper lambdas the loop uses, and the loop with its whole body
  init.inc     from Problem::run: the statement which initialises the solutions of the history
  restart.inc  from the constructor which restarts a run: its body, except for statements on the finite element
  free.inc     functions and classes of the namespace around Problem in driver.h that the extracted text uses
  members.inc  data members of Problem of arithmetic or container type, Problem::serialize, and the member functions
               the extracted text calls, other than those given by the specification
Dropped: everything else of Problem (its constructor, set-up of mesh, operators, solvers and preconditioners, output);
the names the extracted text takes from there are given by the specification as ghost objects."""
import os
import re

FILE = 'applications/sintering/include/pf-applications/sintering/driver.h'
KEEP_OUT = {'run', 'create_grid', 'initialize', 'output_result', 'print_mesh_info', 'print_mesh_levels', 'create_fe', 'Problem',
            'execute_coarsening_and_refinement', 'run_grain_tracker', 'impose_boundary_conditions', 'initialize_solution',
            'initialize_grain_tracker'}

PROVIDED = {'system_has_changed', 'save_op_gradients', 'save_all_blocks', 'timer', 'statistics', 'solution'}


def clean(s):
    """same length, comments and literals blanked"""
    def blank(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|^[ \t]*#[^\n]*', blank, s, flags=re.S | re.M)


def match(c, i):
    """position after the bracket closing the one at i"""
    pairs = {'{': '}', '(': ')', '[': ']'}
    st = []
    while i < len(c):
        ch = c[i]
        if ch in pairs:
            st.append(pairs[ch])
        elif ch in '})]':
            if not st or st.pop() != ch:
                raise ValueError('unbalanced')
            if not st:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def statements(c, a, b, in_class=False):
    """top level statements of c[a:b]"""
    out = []
    i = a
    while i < b:
        while i < b and c[i].isspace():
            i += 1
        if i >= b:
            break
        s = i
        if in_class:
            m = re.match(r'(public|private|protected)\s*:', c[i:b])
            if m:
                i += m.end()
                continue
        kw = re.match(r'(if|for|while|switch|do|try|else)\b|\{', c[i:b])
        block = bool(kw)
        while True:
            if i >= b:
                out.append((s, b))
                break
            ch = c[i]
            if ch in '([':
                i = match(c, i)
                continue
            if ch == '{':
                before = c[s:i].rstrip()
                i = match(c, i)
                function = in_class and re.search(r'\)\s*(const|noexcept|override|final|\s)*(:.*)?$', before, re.S)
                if block or function:
                    n = re.match(r'\s*(else|catch|while)\b', c[i:b])
                    if block and n and (n.group(1) != 'while' or (kw.group(0) == 'do')):
                        i += n.end()
                        continue
                    out.append((s, i))
                    break
                continue
            i += 1
            if ch == ';':
                n = re.match(r'\s*else\b', c[i:b])
                if block and n:
                    i += n.end()
                    continue
                out.append((s, i))
                break
    return out


def extract(repo, dst):
    src = open(os.path.join(repo, FILE)).read()
    c = clean(src)
    m = re.search(r'\bclass\s+Problem\b[^;{]*\{', c)
    a = m.end()
    z = match(c, a - 1) - 1
    members = statements(c, a, z, True)
    functions, data = {}, []
    run = None
    for s, e in members:
        t = c[s:e]
        p = t.find('(')
        if t.rstrip().endswith('}') and p >= 0 and re.search(r'\w\s*$', t[:p]):
            name = re.search(r'([A-Za-z_]\w*)\s*$', t[:p]).group(1)
            functions.setdefault(name, []).append((s, e))
            if name == 'run':
                run = (s, e)
        elif p < 0 and re.match(r'(const\s+)?(double|bool|int|unsigned int|long|std::map|std::pair|std::string|std::vector<(double|unsigned int|bool)>)', t):
            data.append((s, e))
    s, e = run
    o = s + c[s:e].rstrip().rfind('}')
    # the body is the last top level brace block of the definition
    i = s + c[s:e].index('(')
    i = match(c, i)
    i = c.index('{', i)
    body = statements(c, i + 1, match(c, i) - 1)
    loop = [k for k, (u, v) in enumerate(body)
            if re.search(r'\bwhile\s*\(', c[u:v]) and 'time_end' in c[u:v] and re.match(r'while\b|\{|do\b|for\b', c[u:v])][-1]
    first = loop
    while first > 0:
        t = c[body[first - 1][0]:body[first - 1][1]]
        n = re.match(r'(?:const\s+)?auto\s+(\w+)\s*=\s*\[', t)
        if n and n.group(1) not in KEEP_OUT and re.search(r'\b%s\b' % n.group(1), c[body[loop][0]:body[loop][1]]):
            first -= 1
            continue
        if not (re.match(r'(const\s+|constexpr\s+|static\s+)*(auto|bool|double|int|unsigned|Number|std::\w+)\b', t) and '=' in t and t.rstrip().endswith(';')
                and not re.search(r'=\s*\[|additional_output|\bnew\b|make_', t)):
            break
        first -= 1
    take = set(range(first, loop + 1))
    for k in range(first):
        t = c[body[k][0]:body[k][1]]
        if re.search(r'\bdt\b', t) and not re.search(r'=\s*\[', t):
            take.add(k)
    # plain values declared further up
    for k in range(first):
        t = c[body[k][0]:body[k][1]]
        n = re.match(r'(?:const\s+|constexpr\s+|static\s+)*(?:auto|bool|double|int|unsigned int|unsigned|Number)\s+(\w+)\s*=\s*([\w.\s+*/()-]*);$', t.rstrip())
        if n and n.group(1) not in PROVIDED and re.search(r'\b%s\b' % n.group(1), c[body[loop][0]:body[loop][1]]) and \
                all(re.fullmatch(r'true|false|[\d.]+(e-?\d*)?|params\.[\w.]*|std|[-+*/()\s]*', w) for w in re.findall(r'[\w.]+', n.group(2))):
            take.add(k)
    lambdas = {}
    for k in range(first):
        t = c[body[k][0]:body[k][1]]
        n = re.match(r'(?:const\s+)?auto\s+(\w+)\s*=\s*\[', t)
        if n and n.group(1) not in KEEP_OUT:
            lambdas[n.group(1)] = k
    funs = {'serialize'} if 'serialize' in functions else set()
    while True:
        text = ''.join(c[body[k][0]:body[k][1]] for k in take) + ''.join(c[u:v] for f in funs for u, v in functions[f])
        more = {k for n, k in lambdas.items() if k not in take and re.search(r'\b%s\b' % n, text)}
        mf = {f for f in functions if f not in funs and f not in KEEP_OUT and re.search(r'(?<![.>\w:])(this->)?%s\s*\(' % f, text)}
        if not more and not mf:
            break
        take |= more
        funs |= mf
    free = []
    space = [n for n in re.finditer(r'\bnamespace\s+[\w:]+\s*\{', c[:m.start()])]
    if space:
        o = space[-1].end()
        others = [x for x in statements(c, o, match(c, o - 1) - 1, True)
                  if not x[0] <= m.start() < x[1] and not re.match(r'using\b', c[x[0]:x[1]])]
        while True:
            text += ''.join(c[u:v] for u, v in free)
            more = []
            for x in others:
                t = c[x[0]:x[1]]
                n = re.search(r'(\w+)\s*\(', t) if not re.search(r'\b(class|struct|enum)\s+\w+[^;(]*\{', t) else re.search(r'\b(?:class|struct|enum)\s+(?:class\s+)?(\w+)[^;(]*\{', t)
                n = n or re.search(r'(\w+)\s*=', t)
                if n and x not in free and re.search(r'\b%s\b' % n.group(1), text):
                    more.append(x)
            if not more:
                break
            free = sorted(free + more)
    os.makedirs(dst, exist_ok=True)

    def put(name, parts):
        with open(os.path.join(dst, name), 'w') as f:
            for u, v in parts:
                f.write('#line %d "%s"\n' % (src.count('\n', 0, u) + 1, os.path.join(repo, FILE)))
                f.write(src[u:v] + '\n')
    put('loop.inc', [body[k] for k in sorted(take)])
    put('free.inc', free)
    put('init.inc', [x for x in body[:first] if re.match(r'initialize_solution\s*\(', c[x[0]:x[1]])])
    restart = []
    for s, e in members:
        h = re.match(r'(explicit\s+)?Problem\s*\(', c[s:e])
        if h:
            i = match(c, s + h.end() - 1)
            if 'restart_path' not in c[s + h.end():i]:
                continue
            # the body is the last brace block
            o = [k for k in range(i, e) if c[k] == '{' and match(c, k) >= e - 1 - len(c[s:e]) + len(c[s:e].rstrip())][0]
            restart = [x for x in statements(c, o + 1, match(c, o) - 1) if not re.match(r'(this->)?fe\s*=|MyScope', c[x[0]:x[1]])]
    put('restart.inc', restart)
    put('members.inc', data + [p for f in sorted(funs) for p in functions[f]])
    return dst


if __name__ == '__main__':
    import sys
    extract(sys.argv[1], sys.argv[2])
