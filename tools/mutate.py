"""mutate.py FILE N SEED OUT [FIRST LAST]: random small mutants of one file of pywasm, each run against the checks of the
properties its region belongs to.  Prints the mutants no check reports; a survivor is either equivalent or a gap."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|', ast.LShift: '>>', ast.RShift: '<<', ast.Mod: '+', ast.FloorDiv: '*'}
NAMES = {'into_i32': 'into_u32', 'into_u32': 'into_i32', 'into_i64': 'into_u64', 'into_u64': 'into_i64', 'from_i32': 'from_i64', 'into_f32': 'into_i32',
         'i8': 'u8', 'u8': 'i8', 'i16': 'u16', 'u16': 'i16', 'i32': 'u32', 'u32': 'i32', 'i64': 'u64', 'u64': 'i64', 'from_u32': 'from_i32', 'from_u64': 'from_i64',
         'sat': 'fit', 'min': 'max', 'max': 'min', 'get_u32': 'get_u64', 'put_u32': 'put_u16', 'put_u64': 'put_u32', 'put_u8': 'put_u16', 'put_u16': 'put_u8',
         'host_fd': 'wasm_fd', 'wasm_rights_base': 'wasm_rights_root', 'wasm_name': 'host_name', 'host_name': 'wasm_name'}


def mutants(src):
    t = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []
    for fn in ast.walk(t):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ('__repr__', 'into_disasm', 'into_single', '__hash__'):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                s = raw[a:b].decode()
                m = re.search(r'[<>=!]=?', s)
                if m:
                    out.append((fn, n, a, b, s[:m.start()] + CMP[type(n.ops[0])] + s[m.end():], 'cmp'))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = span(n.left)[1], span(n.right)[0]
                s = raw[a:b].decode()
                m = re.search(r'<<|>>|//|[-+*&|^%]', s)
                if m:
                    out.append((fn, n, a, b, s[:m.start()] + BIN[type(n.op)] + s[m.end():], 'bin'))
            elif isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                s = raw[a:b].decode()
                w = 'and' if isinstance(n.op, ast.And) else 'or'
                if w in s:
                    out.append((fn, n, a, b, s.replace(w, 'or' if w == 'and' else 'and', 1), 'bool'))
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                a, b = span(n)
                out.append((fn, n, a, b, str(n.value + 1), 'const'))
            elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                b = span(n)[1]
                out.append((fn, n, b - len(n.attr), b, NAMES[n.attr], 'name'))
            elif isinstance(n, ast.Name) and n.id in ('min', 'max'):
                a, b = span(n)
                out.append((fn, n, a, b, NAMES[n.id], 'name'))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, b = span(n)[0], span(n.operand)[0]
                out.append((fn, n, a, b, '', 'unary'))
            elif isinstance(n, (ast.Assert, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
                if 'debugln' in ast.unparse(n):
                    continue
                a, b = span(n)
                out.append((fn, n, a, b, 'pass', 'del'))
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in (0, 1):
                pass
    return raw, out


def props_core(fn, line, lines, cls):
    if fn == 'evaluate':
        for k in range(line, 0, -1):
            m = re.match(r'\s+case pywasm\.opcode\.(\w+)', lines[k - 1])
            if m:
                op = m.group(1)
                break
        else:
            return ['C09']
        if re.search(r'load|store', op) and op != 'x':
            return ['C05']
        if re.match(r'memory|data', op):
            return ['C06']
        if re.match(r'table|elem|ref', op):
            return ['C07']
        if re.match(r'local|global|drop|select', op):
            return ['C08']
        if re.match(r'call|return', op):
            return ['C10', 'C09']
        if op in ('unreachable', 'nop', 'block', 'loop', 'if_then', 'else_fi', 'end', 'br', 'br_if', 'br_table'):
            return ['C09']
        if re.search(r'trunc|convert|promote|demote|reinterpret|f.._const', op) and not re.match(r'f(32|64)(x\d)?_trunc$', op):
            return ['C04', 'C02', 'C03']
        if re.match(r'f32|f64', op):
            return ['C03', 'C02']
        if re.match(r'v128|i8x16|i16x8|i32x4|i64x2', op):
            return ['C02']
        return ['C01']
    if cls in ('Bype', 'Inst'):
        return ['C12']
    if cls == 'ValInst':
        return ['C16', 'C02', 'C03', 'C01', 'C07', 'C04']
    if fn == 'suit':
        return ['C14']
    if cls in ('MemInst',):
        return ['C18', 'C06', 'C15', 'C05']
    if cls in ('TableInst',):
        return ['C07', 'C15', 'C14']
    if cls in ('Machine',):
        return {'allocate': ['C15'], 'instance': ['C15', 'C14', 'C17'], 'invocate': ['C10', 'C17', 'C16'], 'evaluate_br': ['C09'], 'evaluate_bype': ['C09'],
                'evaluate_call': ['C10'], 'evaluate_mem_load': ['C05'], 'evaluate_mem_save': ['C05']}.get(fn, ['C17', 'C15'])
    if cls == 'Store':
        return ['C15']
    if cls == 'Runtime':
        return ['C16', 'C17', 'C15', 'C14']
    if fn == 'from_reader' or fn.startswith('from_reader'):
        return ['C13', 'C12']
    if cls == 'FuncType':
        return ['C13', 'C14', 'C10']
    return ['C13', 'C15', 'C10', 'C09', 'C14']


def props_wasi(fn):
    base = ['C18', 'C19']
    if fn.startswith('path') or fn == 'help_escp':
        base = ['C20', 'C19', 'C18']
    if fn in ('args_get', 'environ_get', 'args_sizes_get', 'environ_sizes_get'):
        return ['C22', 'C18']
    if fn in ('fd_read', 'fd_pread', 'fd_write', 'fd_pwrite', 'sock_recv', 'sock_send'):
        return ['C18', 'C19', 'C23']
    if fn in ('path_open', 'fd_renumber', 'fd_close', 'sock_accept', 'main', 'fd_fdstat_set_rights'):
        return ['C24', 'C21'] + base + ['C25']
    return ['C25'] + base + ['C24', 'C21']


def run(job):
    k, raw, (fn, n, a, b, new, kind), file, ps, cls, out = job
    w = f'/tmp/mut/{out}.{k}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree('/repo/pywasm', w + '/pywasm', ignore=shutil.ignore_patterns('__pycache__'))
    txt = raw[:a] + new.encode() + raw[b:]
    open(f'{w}/pywasm/{file}', 'wb').write(txt)
    line = raw[:a].count(b'\n')
    rec = dict(k=k, fn=f'{cls}.{fn.name}', line=line + 1, kind=kind, old=raw.split(b'\n')[line].decode().strip(), new=txt.split(b'\n')[line].decode().strip(), caught=None)
    try:
        compile(txt, file, 'exec')
    except SyntaxError:
        rec['caught'] = 'syntax'
        shutil.rmtree(w)
        return rec
    for p in ps:
        try:
            r = subprocess.run(['python3-vt', '-m', 'pydv.check', p], cwd=w, capture_output=True, text=True, timeout=800,
                               env={**os.environ, 'PYDV_REPO': w, 'PYTHONPATH': w + ':/verif', 'PYDV_EVID': w + '/ev', 'PYDV_FIRST': '1', 'PYDV_JOBS': '2'})
        except subprocess.TimeoutExpired:
            rec['caught'] = p + ' TIMEOUT'
            break
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            rec['caught'] = p + (' nofail' if all('no-failing-input' in l for l in r.stdout.split('\n') if l.startswith('VIOLATION')) else '')
            break
        if r.returncode != 0:
            rec['caught'] = p + f' EXIT {r.returncode}'
            break
    rec['props'] = ps
    shutil.rmtree(w)
    return rec


def main():
    file, n, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    src = open('/repo/pywasm/' + file).read()
    raw, ms = mutants(src)
    if len(sys.argv) > 6:
        ms = [m for m in ms if int(sys.argv[5]) <= raw[:m[2]].count(b'\n') + 1 <= int(sys.argv[6])]
    random.Random(seed).shuffle(ms)
    lines = src.split('\n')
    jobs = []
    cl = [c for c in ast.walk(ast.parse(src)) if isinstance(c, ast.ClassDef)]
    for k, m in enumerate(ms[:n]):
        line = raw[:m[2]].count(b'\n') + 1
        cs = [c.name for c in cl if c.lineno <= line <= c.end_lineno]
        cls = cs[0] if cs else ''
        if file == 'core.py':
            ps = props_core(m[0].name, line, lines, cls)
        elif file == 'wasi.py':
            ps = props_wasi(m[0].name)
        elif file == 'arith.py':
            ps = ['C01', 'C02'] if cls in 'IU' else ['C03', 'C04']
        else:
            ps = ['C11']
        jobs.append((k, raw, m, file, ps, cls, out))
    print(len(ms), 'mutants,', len(jobs), 'run', flush=True)
    recs = []
    with ThreadPoolExecutor(int(os.environ.get('MUTJOBS', '5'))) as ex:
        for r in ex.map(run, jobs):
            recs.append(r)
            if r['caught'] is None or 'TIMEOUT' in r['caught'] or 'EXIT' in r['caught'] or 'nofail' in r['caught']:
                print('SURVIVOR' if r['caught'] is None else r['caught'], r['fn'], r['line'], r['kind'], '|', r['old'], '->', r['new'], flush=True)
            json.dump(recs, open(f'/tmp/mut/{out}.json', 'w'))
    print('caught', sum(1 for r in recs if r['caught']), 'of', len(recs))


main()
