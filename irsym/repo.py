"""Build the program under test from /repo: LLVM IR for the executor, a native
shared library for replay, and API metadata read from the public headers."""
import os, re, subprocess, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = REPO + '/ta-lib-rt/c'
INC = ['-I' + ROOT + '/include', '-I' + ROOT + '/src/ta_common', '-I' + ROOT + '/src/ta_func',
       '-I' + ROOT + '/src/ta_abstract', '-I' + ROOT + '/src/ta_abstract/frames']
SKIP = {'excel_glue.c', 'ta_java_defs.c'}


def sources():
    out = []
    for d in ('ta_func', 'ta_common', 'ta_abstract', 'ta_abstract/tables', 'ta_abstract/frames'):
        p = ROOT + '/src/' + d
        for f in sorted(os.listdir(p)):
            if f.endswith('.c') and f not in SKIP:
                out.append(p + '/' + f)
    return out


def build_ir(outdir, only=None, extra=()):
    os.makedirs(outdir, exist_ok=True)
    srcs = [s for s in sources() if only is None or only(s)] + list(extra)

    def one(s):
        o = os.path.join(outdir, os.path.basename(s)[:-2] + '.ll')
        cmd = ['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-g0', '-w',
               '-fno-builtin'] + INC + [s, '-o', o + '.0']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return s, r.stderr
        r = subprocess.run(['opt', '-S', '-passes=mem2reg,simplifycfg', o + '.0', '-o', o], capture_output=True, text=True)
        os.unlink(o + '.0')
        if r.returncode:
            return s, r.stderr
        return s, o
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    ok = []
    for s, o in res:
        if s in extra and (not o.endswith('.ll') or '\n' in o):
            continue            # accessor does not fit this tree: its checks are left open
        if not o.endswith('.ll') or '\n' in o:
            raise RuntimeError('cannot compile %s: %s' % (s, o[:2000]))
        ok.append((os.path.basename(o)[:-3], o))
    return ok


def build_so(outdir, flags=('-O2',), name='libta.so', extra=()):
    """native shared library of the same sources (gcc), for replay"""
    os.makedirs(outdir, exist_ok=True)
    srcs = sources() + list(extra)
    so = os.path.join(outdir, name)

    def one(s):
        o = os.path.join(outdir, os.path.basename(s)[:-2] + '.o')
        r = subprocess.run(['gcc', '-c', '-fPIC', '-w', '-g'] + list(flags) + INC + [s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[:2000])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    r = subprocess.run(['gcc', '-shared', '-o', so] + list(flags) + objs + ['-lm'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:2000])
    for o in objs:
        os.unlink(o)
    return so
