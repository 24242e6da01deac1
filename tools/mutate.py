"""mutate.py list|run [--files re] [--sample N] [--seed S] [--workers W] OUT : small random changes of the code against the checks
(development: finds what the checks miss; survivors are read by hand). Works in scratch clones of /repo."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'sensor/_sensor_rise_glf.py': 'C16 C13', 'sensor/_sensor_interface.py': 'C10 C12', 'barrier_function_multi_glf': 'C16', 'barrier_function_glf': 'C16',
 'sensor_peak_gaussian': 'C11', 'sensor_peak_lorentzian': 'C11', 'sensor_scan_sensor_generic': 'C12 C13 C15 C17 C14',
 'deformation': 'C17', '_sensor_generic.py': 'C10 C11 C25', '_pixel_volt': 'C23', '_linear_algebra': 'C23', '_signed_dist': 'C23',
 '_generalized_logistic': 'C16', '_fermi_filter1d': 'C24', '_rotate_points': 'C23', '_cumulative': 'C24', '_parameter_sampling': 'C18',
 '_reset_offset': 'C25', 'config_sampler': 'C26', '_simulation.py': 'C01 C02 C03 C04', '_random_telegraph': 'C20', '_pink': 'C19', '_white': 'C19',
 '_transition_blurring': 'C22', '_dot_jumps': 'C21', '_ideal_csd_geometric_class': 'C05 C06', '_tct_bezier': 'C08', '_ideal_csd_geometric.py': 'C05 C07',
 '_get_electron_occupation': 'C06', '_calculate_all_bezier': 'C09', '_initialize_tct': 'C08', '_generate_lead': 'C07', '_default_configs': 'C26',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}
SWAP = [('g1', 'g2'), ('_x', '_y'), ('x_', 'y_'), ('row', 'col'), ('min', 'max'), ('minimum', 'maximum'), ('left', 'right'), ('barrier1', 'barrier2'), ('bar1', 'bar2'), ('argmin', 'argmax'), ('zeros', 'ones'), ('sin', 'cos')]

def props_of(f):
    for k, v in MAP.items():
        if k in f:
            return v.split()
    return None

def mutants(path, rel):
    src = open(path, newline='').read().replace('\r\n', '\n')
    lines = src.split('\n'); offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    tree = ast.parse(src)
    out = []
    skip = set()
    for n in ast.walk(tree):       # no mutation in signatures, decorators, docstrings, raise messages, reprs
        if isinstance(n, (ast.FunctionDef,)):
            for x in [*n.decorator_list, n.args, n.returns]:
                if x is not None:
                    skip.update(id(y) for y in ast.walk(x))
            if n.name in ('__repr__', '__str__'):
                skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr, ast.AnnAssign)):
            skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith('warnings'):
            skip.update(id(y) for y in ast.walk(n))
    def add(n, new, kind, sp=None):
        s, t = sp or span(n)
        old = b[s:t].decode()
        if old != new:
            out.append(dict(file=rel, line=n.lineno, s=s, t=t, old=old, new=new, kind=kind))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                add(n, f"({ast.unparse(n.left)} {o} {ast.unparse(n.comparators[0])})", 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"(({ast.unparse(n.left)}) {BIN[type(n.op)]} ({ast.unparse(n.right)}))", 'bin')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(n, f"({ast.unparse(n.operand)})", 'unary')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(f"({ast.unparse(v)})" for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join(f"({ast.unparse(v)})" for j, v in enumerate(n.values) if j != i) + ')', 'dropcond')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            add(n, {0: '1', 1: '0', 2: '1'}.get(n.value, f'({n.value!r} + 1)') if isinstance(n.value, int) else f'({n.value!r} * 1.5)', 'const')
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            for a, c in SWAP:
                new = None
                if a in nm and c not in nm: new = nm.replace(a, c)
                elif c in nm and a not in nm: new = nm.replace(c, a)
                if new and new != nm and re.search(r'\b' + re.escape(new) + r'\b', src):
                    add(n, new if isinstance(n, ast.Name) else ast.unparse(n.value) + '.' + new, 'swap')
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ('deepcopy', 'copy.deepcopy', 'np.copy', 'copy.copy', 'np.abs', 'abs', 'np.sort', 'sorted', 'float', 'int', 'np.unique', 'np.round') and n.args:
                add(n, f"({ast.unparse(n.args[0])})", 'dropcall')
            elif f.endswith('.copy') and not n.args:
                add(n, ast.unparse(n.func.value), 'dropcall')
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Constant):
                    m = ast.Call(n.func, n.args, [x for x in n.keywords if x is not k]); add(n, ast.unparse(m), 'dropkw')
        elif isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('cmd'); ap.add_argument('--files', default='.'); ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--workers', type=int, default=2); ap.add_argument('out', nargs='?'); ap.add_argument('--props'); ap.add_argument('--kinds', default='.')
    a = ap.parse_args()
    ms = []
    for d, _, fs in os.walk('/repo/simcats'):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), '/repo')
            if f.endswith('.py') and f != '__init__.py' and props_of(rel) and re.search(a.files, rel):
                ms += [m for m in mutants(os.path.join(d, f), rel) if re.search(a.kinds, m['kind'])]
    print(len(ms), 'mutants')
    if a.cmd == 'list':
        from collections import Counter
        for k, v in sorted(Counter(m['file'] for m in ms).items()): print(v, k)
        return
    random.Random(a.seed).shuffle(ms)
    if a.sample: ms = ms[:a.sample]
    done = set()
    if os.path.exists(a.out):
        done = {(r['file'], r['s'], r['new']) for r in map(json.loads, open(a.out))}
    q = Queue()
    for w in range(a.workers):
        r = tempfile.mkdtemp(prefix='mut_', dir='/tmp'); subprocess.run(['git', 'clone', '-q', '/repo', r + '/repo'], check=True); os.makedirs(r + '/ev'); q.put(r)
    def one(m):
        if (m['file'], m['s'], m['new']) in done: return
        r = q.get()
        try:
            p = f"{r}/repo/{m['file']}"; raw = open(p, 'rb').read(); crlf = b'\r\n' in raw; src = raw.replace(b'\r\n', b'\n')
            new = src[:m['s']] + m['new'].encode() + src[m['t']:]
            try: compile(new, p, 'exec')
            except SyntaxError: return
            open(p, 'wb').write(new)
            res = {}; caught = None
            for pid in (a.props.split() if a.props else props_of(m['file'])):
                env = dict(os.environ, DEV_FAST='1', DEV_REPO=r + '/repo', DEV_EVIDENCE=r + '/ev')
                try:
                    c = subprocess.run(['timeout', '600', 'bash', f'{H}/check.sh', pid, '--jobs', '4'], env=env, capture_output=True, text=True)
                    res[pid] = c.returncode
                    if c.returncode == 1 and 'VIOLATION' in c.stdout: caught = pid; break
                    if c.returncode != 0: res[pid] = [c.returncode, (c.stdout + c.stderr)[-300:]]
                    elif 'UNDECIDED' in c.stdout: res[pid] = [0, 'undecided']
                except Exception as e: res[pid] = repr(e)
            open(p, 'wb').write(raw)
            m = dict(m, caught=caught, res=res)
            with open(a.out, 'a') as f: f.write(json.dumps(m) + '\n')
        finally:
            q.put(r)
    with ThreadPoolExecutor(a.workers) as ex: list(ex.map(one, ms))
    while not q.empty(): shutil.rmtree(q.get(), ignore_errors=True)
main()
