#!/usr/bin/env python3
"""Measure detection by mutation: change one expression or statement of the code a property is
anchored in, drop mutants the package's own tests notice, run the check on the rest.

mutate.py PROP N SEED [--list] [--only I] [main args]     (run with python 3.9 or newer)
Mutants live in the scratch copy /tmp/mut.PROP (made anew).  Not used by any check.
"""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import time
import warnings

warnings.simplefilter('ignore')

IO = 'geotecha/inputoutput/inputoutput.py'
TARGETS = {
    'C01': [(IO, r'^(next_output_stem|save_.*|InputFileLoaderCheckerSaver\.(_save|_deter|save).*)')],
    'C02': [(IO, r'^(save_.*|make_array_into.*|string_of_.*|_string.*|object_members|.*Prefix.*|'
                 r'InputFileLoaderCheckerSaver\.(_save|save|_deter).*)')],
    'C03': [(IO, r'^(GenericInputFileArgParser\..*|working_directory.*|.*_copy.*)')],
    'C04': [(IO, r'^(working_dir.*|.*Prefix.*)'), ('geotecha/plotting/one_d.py', r'.*markevery.*'),
            ('geotecha/mathematics/mp_laplace.py', r'.*'),
            ('geotecha/mathematics/laplace.py', r'.*')],
    'C05': [('geotecha/inputoutput/timeout.py', r'.*')],
    'C06': [('geotecha/beam_on_foundation/specbeam.py',
             r'^SpecBeam\.(load_defl|runme|saveme)')],
    'C07': [('geotecha/constitutive_models/epus.py', r'.*')],
    'C08': [('geotecha/speccon/speccon1d_vr.py', r'.*'), ('geotecha/speccon/speccon1d_vrw.py', r'.*'),
            ('geotecha/speccon/speccon1d_vrc.py', r'.*'), ('geotecha/speccon/speccon1d.py', r'^Spec.*'),
            ('geotecha/consolidation/schiffmanandstein1970.py', r'^Sch.*'),
            ('geotecha/consolidation/nogamiandli2003.py', r'^Nog.*')],
    'C09': [('geotecha/speccon/integrals.py', r'.*'),
            ('geotecha/constitutive_models/epus.py', r'.*'),
            ('geotecha/piecewise/piecewise_linear_1d.py', r'.*')],
    'C11': [('geotecha/mathematics/%s.py' % m, r'.*') for m in
            ('root_finding', 'quadrature', 'laplace', 'hankel', 'fourier', 'mp_laplace')],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def functions(tree):
    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + c.name
                if isinstance(c, ast.FunctionDef):
                    yield q, c
                else:
                    yield from walk(c, q + '.')
    yield from walk(tree, '')


def mutants_of(src, pattern):
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []

    def add(node, new, what):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what))

    def un(n):
        return ast.unparse(ast.fix_missing_locations(n))

    for q, fn in functions(tree):
        if not re.search(pattern, q) or q.split('.')[-1].startswith('test'):
            continue
        body = fn.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if not body:
            continue
        for top in body:
            for n in ast.walk(top):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                    m = ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)
                    add(n, '(' + un(m) + ')', q + ' cmp')
                elif isinstance(n, ast.BoolOp):
                    m = ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
                    add(n, '(' + un(m) + ')', q + ' bool')
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                    add(n, '(' + un(n.operand) + ')', q + ' not')
                elif isinstance(n, ast.Constant) and type(n.value) is int:
                    add(n, repr(n.value + 1), q + ' int')
                elif isinstance(n, ast.Constant) and type(n.value) is bool:
                    add(n, repr(not n.value), q + ' flag')
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    m = ast.BinOp(n.left, BIN[type(n.op)](), n.right)
                    add(n, '(' + un(m) + ')', q + ' bin')
                elif isinstance(n, ast.Call) and n.keywords:
                    for i in range(len(n.keywords)):
                        m = ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])
                        add(n, un(m), q + ' kw %s' % n.keywords[i].arg)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('copy', 'deepcopy') :
                    add(n, '(' + (un(n.args[0]) if n.args else un(n.func.value)) + ')',
                        q + ' nocopy')
                if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue,
                                  ast.Break)) and not (
                        isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    add(n, 'pass', q + ' drop')
                if isinstance(n, ast.If):
                    add(n.test, '(True or (%s))' % un(n.test), q + ' if1')
                    add(n.test, '(False and (%s))' % un(n.test), q + ' if0')
                if isinstance(n, ast.Try) and n.finalbody:
                    a, b = n.finalbody[0], n.finalbody[-1]
                    out.append((a.lineno, a.col_offset, b.end_lineno, b.end_col_offset, 'pass',
                                q + ' nofinally'))
                if isinstance(n, ast.ExceptHandler) and n.type is not None:
                    add(n.type, 'ZeroDivisionError', q + ' except')
                if isinstance(n, ast.Return) and n.value is not None:
                    pass
    return out


def apply(src, m):
    l1, c1, l2, c2, new, _ = m
    lines = src.split('\n')
    # offsets are in utf-8 bytes
    b = [x.encode() for x in lines]
    head = b[l1 - 1][:c1]
    tail = b[l2 - 1][c2:]
    b[l1 - 1:l2] = [head + new.encode() + tail]
    return '\n'.join(x.decode() for x in b)


def passed(top, pkg):
    import xml.etree.ElementTree as ET
    out = '/tmp/mut.%d.xml' % os.getpid()
    if os.path.exists(out):
        os.remove(out)
    subprocess.run(
        ['timeout', '150', 'python', '-W', 'ignore', '-m', 'nose', 'geotecha.' + pkg,
         '--with-doctest', '--doctest-options=+ELLIPSIS',
         '--doctest-options=+IGNORE_EXCEPTION_DETAIL', '--with-xunit', '--xunit-file=' + out],
        cwd=top, env=dict(os.environ, PYTHONPATH=top, MPLCONFIGDIR='/opt/vp/cache/mpl'),
        stdin=subprocess.DEVNULL,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        tree = ET.parse(out)
    except Exception:
        return set()
    return {(c.get('classname'), c.get('name')) for c in tree.iter('testcase')
            if not [x for x in c if x.tag in ('failure', 'error', 'skipped')]}


BASE = {}


def baseline(top, pkg):
    if pkg not in BASE:
        BASE[pkg] = passed('/repo', pkg)
    return BASE[pkg]


def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rest = sys.argv[4:]
    only = None
    if '--only' in rest:
        i = rest.index('--only')
        only = [int(x) for x in rest[i + 1].split(',')]
        del rest[i:i + 2]
    listing = '--list' in rest
    if listing:
        rest.remove('--list')
    allm = []
    for f, pat in TARGETS[prop]:
        src = open('/repo/' + f).read()
        allm += [(f, m) for m in mutants_of(src, pat)]
    rng = random.Random(seed)
    rng.shuffle(allm)
    print('%d sites' % len(allm), flush=True)
    top = '/tmp/mut.' + prop
    if not listing:
        shutil.rmtree(top, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', top])
    env = dict(os.environ, SIM_REPO=top, PYTHONPATH='/verif:' + top)
    done = 0
    counts = {}
    for i, (f, m) in enumerate(allm):
        if done >= n:
            break
        if only is not None and i not in only:
            continue
        src = open('/repo/' + f).read()
        new = apply(src, m)
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            continue
        old = '\n'.join(src.split('\n')[m[0] - 1:m[2]]).strip()[:150]
        tag = '#%d %s:%d [%s] %r -> %r' % (i, os.path.basename(f), m[0], m[5], old, m[4][:120])
        if listing:
            print(tag)
            done += 1
            continue
        open(os.path.join(top, f), 'w').write(new)
        pkg = f.split('/')[1]
        t0 = time.time()
        try:
            if not baseline(top, pkg) <= passed(top, pkg):
                counts['tests'] = counts.get('tests', 0) + 1
                continue
            r = subprocess.run(['timeout', '900', 'python', '-W', 'ignore', '-m', 'sim.main', prop]
                               + rest, env=env, cwd='/verif', stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        finally:
            open(os.path.join(top, f), 'w').write(src)
        done += 1
        res = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d' % r.returncode)
        counts[res] = counts.get(res, 0) + 1
        print('%s %s (%.0f s)' % (res, tag, time.time() - t0), flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout.decode(errors='replace')[-600:])
    print(counts)
    if not listing:
        shutil.rmtree(top, ignore_errors=True)


main()
