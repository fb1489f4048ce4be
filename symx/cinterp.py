"""Symbolic interpreter for the C sources of the two extension modules.

The .c files of the current tree are preprocessed (gcc -E, stub system
headers) and parsed with pycparser on every run; the AST is executed over
symbolic reals with bounds-checked memory objects.  GSL, libm and the CPython/NumPy
C-API calls are modelled (see BUILTINS); everything else is executed as written.
"""
import os
import sys
import math
import shutil
import subprocess
import tempfile
import weakref
import numpy as np
from . import core, arr
import z3
from .core import Sym, SymB, is_sym, EngineLimit
from pycparser import c_parser, c_ast

INCLUDES = ['stdio.h', 'stdlib.h', 'math.h', 'string.h', 'unistd.h', 'float.h', 'stddef.h', 'stdbool.h', 'Python.h',
            'limits.h', 'assert.h', 'stdint.h',
            'numpy/arrayobject.h', 'gsl/gsl_linalg.h', 'gsl/gsl_cblas.h', 'gsl/gsl_blas.h', 'gsl/gsl_eigen.h',
            'gsl/gsl_matrix.h', 'gsl/gsl_vector.h', 'gsl/gsl_math.h', 'gsl/gsl_permutation.h']
PRELUDE = '''
#define PY_MAJOR_VERSION 3
#define PyObject_HEAD int ob_base;
#define PyVarObject_HEAD_INIT(a,b) 0,
#define PyModuleDef_HEAD_INIT 0
#define NPY_DOUBLE 12
#define NPY_FLOAT64 12
#define NULL 0
#define METH_NOARGS 1
#define METH_VARARGS 2
#define Py_TPFLAGS_DEFAULT 0
#define Py_TPFLAGS_BASETYPE 0
#define PyMODINIT_FUNC PyObject *
#define M_PI 3.14159265358979323846
#define M_SQRT2 1.41421356237309504880
#define M_SQRT1_2 0.70710678118654752440
#define true 1
#define false 0
typedef int PyObject; typedef int PyArrayObject; typedef long npy_intp; typedef long npy_int64; typedef long Py_ssize_t;
typedef unsigned long size_t; typedef int PyMethodDef; typedef int PyTypeObject; typedef int destructor; typedef int reprfunc;
typedef int initproc; typedef int PyCFunction; typedef int bool; typedef double npy_double; typedef double npy_float64;
struct PyModuleDef {int a;};
typedef int gsl_matrix; typedef int gsl_vector; typedef int gsl_permutation; typedef int gsl_matrix_view;
typedef int gsl_vector_view; typedef int gsl_eigen_symm_workspace; typedef int gsl_eigen_symmv_workspace;
typedef int gsl_matrix_const_view; typedef int gsl_vector_const_view;
typedef int gsl_eigen_symm_workspace_; typedef int CBLAS_TRANSPOSE_t;
'''


class CError(Exception):
    """undefined behaviour met while interpreting the C code"""


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Uninit(object):
    def __repr__(self):
        return '<uninitialised>'


UNINIT = Uninit()


class Block(object):
    """memory object with bounds"""
    def __init__(self, cells, ty='double'):
        self.cells = cells
        self.ty = ty
        self.freed = False

    def get(self, i):
        self._ck(i)
        v = self.cells[i]
        if v is UNINIT:
            raise CError('read of uninitialised memory')
        return v

    def set(self, i, v):
        self._ck(i)
        self.cells[i] = v

    def _ck(self, i):
        if self.freed:
            raise CError('use after free')
        if not 0 <= i < len(self.cells):
            raise CError('access out of bounds: element %d of %d' % (i, len(self.cells)))


class ArrBlock(Block):
    """the memory behind a NumPy array (held weakly, like the C code does)"""
    def __init__(self, a):
        owner = a
        while isinstance(owner.base, np.ndarray):
            owner = owner.base
        self.ref = weakref.ref(owner)
        self.ty = 'double'
        self.freed = False
        self.n = owner.size
        self.start = (a.__array_interface__['data'][0] - owner.__array_interface__['data'][0]) // owner.itemsize

    @property
    def cells(self):
        o = self.ref()
        if o is None:
            raise CError('use of a released array')
        f = np.asarray(o).ravel(order='K')
        if f.size and not np.shares_memory(f, o):
            raise EngineLimit('array memory is not contiguous')
        return f

    def get(self, i):
        i = i + self.start
        c = self.cells
        if not 0 <= i < len(c):
            raise CError('array access out of bounds: element %d of %d' % (i, len(c)))
        v = c[i]
        return v if is_sym(v) else float(v)

    def set(self, i, v):
        i = i + self.start
        c = self.cells
        if not 0 <= i < len(c):
            raise CError('array access out of bounds: element %d of %d' % (i, len(c)))
        c[i] = v


class Cell(object):
    """a variable"""
    def __init__(self, v, ty):
        self.v = v
        self.ty = ty

    def get(self, i=0):
        if i != 0:
            raise CError('pointer to a scalar used out of bounds')
        if self.v is UNINIT:
            raise CError('read of an uninitialised variable')
        return self.v

    def set(self, i, v):
        if i != 0:
            raise CError('pointer to a scalar used out of bounds')
        self.v = conv(v, self.ty)


class Ptr(object):
    def __init__(self, blk, off=0):
        self.blk, self.off = blk, off

    def add(self, k):
        return Ptr(self.blk, self.off + k)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.blk is self.blk and o.off == self.off

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return True
    __hash__ = None


class Struct(object):
    def __init__(self, name, fields):
        self.name = name
        self.f = {n: Cell(UNINIT, t) for n, t in fields}


class PyObj(object):
    """PyObject* holding a Python value"""
    def __init__(self, v):
        self.v = v


def is_real(v):
    if isinstance(v, Sym):
        return not v.e.is_int()
    return isinstance(v, float) or isinstance(v, np.floating)


def conv(v, ty):
    if v is UNINIT or ty is None:
        return v
    if isinstance(v, SymB):
        v = core.ite(v, 1, 0)
    if isinstance(v, bool):
        v = int(v)
    if ty in ('double', 'float'):
        if isinstance(v, int):
            return float(v)
        if isinstance(v, Sym) and v.e.is_int():
            return core.cast(v, 'f8')
        return v
    if ty in ('int', 'long', 'unsigned', 'char', 'short', 'size_t'):
        if is_real(v):
            if isinstance(v, Sym):
                return core.concretize_int(core.trunc_sym(v))
            if math.isnan(v) or math.isinf(v):
                raise CError('conversion of a non-finite double to an integer')
            return int(v)
    return v


def strip_comments_parse(path, incdirs):
    tmp = tempfile.mkdtemp(prefix='verif_c_')
    try:
        for i in INCLUDES:
            p = os.path.join(tmp, i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').close()
        pre = os.path.join(tmp, 'prelude.h')
        with open(pre, 'w') as f:
            f.write(PRELUDE)
        cmd = ['gcc', '-E', '-P', '-nostdinc', '-undef', '-I', tmp, '-include', pre]
        for d in incdirs:
            cmd += ['-I', d]
        r = subprocess.run(cmd + [path], capture_output=True, text=True)
        if r.returncode:
            raise EngineLimit('preprocessing failed: ' + r.stderr[-800:])
        src = r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return src


class Program(object):
    def __init__(self, srcdir, builtins=None):
        self.funcs = {}
        self.structs = {}
        self.builtins = dict(BUILTINS)
        self.builtins.update(builtins or {})
        self.globals = {}
        self.steps = 0
        self.called = set()
        self.err = None
        for f in sorted(os.listdir(srcdir)):
            if f.endswith('.c'):
                self.load(os.path.join(srcdir, f), srcdir)

    def load(self, path, srcdir):
        src = strip_comments_parse(path, [srcdir])
        src = src.replace('__attribute__((unused))', '').replace('__inline', 'inline').replace('__restrict', '')
        ast = c_parser.CParser().parse(src, path)
        for d in ast.ext:
            if isinstance(d, c_ast.FuncDef):
                self.funcs[d.decl.name] = d
            elif isinstance(d, c_ast.Decl):
                if isinstance(d.type, c_ast.Struct):
                    self._struct(d.type)
                elif isinstance(d.type, c_ast.TypeDecl) and d.init is not None and not isinstance(d.init, c_ast.InitList):
                    try:
                        self.globals[d.name] = Cell(conv(self.ev(d.init, {}), self.tyname(d.type)), self.tyname(d.type))
                    except (EngineLimit, CError):
                        pass
                elif isinstance(d.type, c_ast.ArrayDecl) and isinstance(d.init, c_ast.InitList):
                    try:
                        self.globals[d.name] = Ptr(Block([conv(self.ev(x, {}), self.tyname(d.type.type)) for x in d.init.exprs]))
                    except (EngineLimit, CError, KeyError):
                        pass
            elif isinstance(d, c_ast.Typedef) and isinstance(d.type, c_ast.TypeDecl) and isinstance(d.type.type, c_ast.Struct):
                self._struct(d.type.type, alias=d.name)

    def _struct(self, s, alias=None):
        if s.decls:
            fields = [(x.name, self.tyname(x.type)) for x in s.decls]
            if s.name:
                self.structs[s.name] = fields
            if alias:
                self.structs[alias] = fields

    def tyname(self, t):
        """scalar type name, 'ptr' or ('struct', name)"""
        if isinstance(t, c_ast.PtrDecl):
            return 'ptr'
        if isinstance(t, c_ast.ArrayDecl):
            return 'array'
        if isinstance(t, c_ast.TypeDecl):
            return self.tyname(t.type)
        if isinstance(t, c_ast.Typename):
            return self.tyname(t.type)
        if isinstance(t, c_ast.Struct):
            self._struct(t)
            return ('struct', t.name)
        if isinstance(t, c_ast.IdentifierType):
            n = t.names
            if 'double' in n or 'float' in n or n[-1] in ('npy_double', 'npy_float64'):
                return 'double'
            if n[-1] in ('int', 'long', 'short', 'char', 'unsigned', 'size_t', 'npy_intp', 'npy_int64', 'Py_ssize_t', 'bool'):
                return 'int'
            if n[-1] in self.structs:
                return ('struct', n[-1])
            if n[-1] == 'void':
                return None
            return 'opaque'
        return None

    # ---- calls
    def call(self, name, args):
        self.called.add(name)
        if name in self.funcs:
            fd = self.funcs[name]
            env = {}
            ps = fd.decl.type.args.params if fd.decl.type.args else []
            ps = [p for p in ps if getattr(p, 'name', None)]
            if len(ps) != len(args):
                raise CError('call of %s with %d arguments' % (name, len(args)))
            for p, a in zip(ps, args):
                ty = self.tyname(p.type)
                env[p.name] = Cell(conv(a, ty if isinstance(ty, str) else None), ty)
            try:
                self.block(fd.body, [env])
            except _Return as r:
                return conv(r.v, self.tyname(fd.decl.type.type)) if r.v is not None else None
            return None
        b = self.builtins.get(name)
        if b is None:
            raise EngineLimit('C function %s is not modelled' % name)
        return b(self, *args)

    # ---- statements
    def block(self, node, env):
        env = env + [{}]
        for s in node.block_items or []:
            self.st(s, env)

    def st(self, s, env):
        self.steps += 1
        if self.steps > 2000000:
            raise EngineLimit('C step limit')
        t = type(s)
        if t is c_ast.Compound:
            self.block(s, env)
        elif t is c_ast.Decl:
            self.decl(s, env)
        elif t is c_ast.DeclList:
            for d in s.decls:
                self.decl(d, env)
        elif t is c_ast.If:
            if self.truth(self.ev(s.cond, env)):
                self.st(s.iftrue, env + [{}])
            elif s.iffalse is not None:
                self.st(s.iffalse, env + [{}])
        elif t is c_ast.For:
            env = env + [{}]
            if s.init is not None:
                self.st(s.init, env)
            n = 0
            while s.cond is None or self.truth(self.ev(s.cond, env)):
                n += 1
                if n > 5000:
                    raise EngineLimit('C loop limit')
                try:
                    self.st(s.stmt, env)
                except _Break:
                    break
                except _Continue:
                    pass
                if s.next is not None:
                    self.ev(s.next, env)
        elif t is c_ast.While or t is c_ast.DoWhile:
            first = t is c_ast.DoWhile
            n = 0
            while first or self.truth(self.ev(s.cond, env)):
                first = False
                n += 1
                if n > 5000:
                    raise EngineLimit('C loop limit')
                try:
                    self.st(s.stmt, env)
                except _Break:
                    break
                except _Continue:
                    pass
        elif t is c_ast.Switch:
            self.switch(s, env)
        elif t is c_ast.Return:
            raise _Return(None if s.expr is None else self.ev(s.expr, env))
        elif t is c_ast.Break:
            raise _Break()
        elif t is c_ast.Continue:
            raise _Continue()
        elif t is c_ast.EmptyStatement:
            pass
        else:
            self.ev(s, env)

    def switch(self, s, env):
        v = self.ev(s.cond, env)
        if is_sym(v):
            v = core.concretize_int(v)
        items = s.stmt.block_items if isinstance(s.stmt, c_ast.Compound) else [s.stmt]
        start = None
        for i, c in enumerate(items):
            if isinstance(c, c_ast.Case) and self.ev(c.expr, env) == v:
                start = i
                break
        if start is None:
            for i, c in enumerate(items):
                if isinstance(c, c_ast.Default):
                    start = i
        if start is None:
            return
        env = env + [{}]
        try:
            for c in items[start:]:
                for x in (c.stmts if isinstance(c, (c_ast.Case, c_ast.Default)) else [c]):
                    self.st(x, env)
        except _Break:
            pass

    def decl(self, d, env):
        ty = self.tyname(d.type)
        if ty == 'array':
            ety = self.tyname(d.type.type)
            dims = []
            t = d.type
            while isinstance(t, c_ast.ArrayDecl):
                if t.dim is None:
                    dims.append(None)
                else:
                    dims.append(self.ev(t.dim, env))
                t = t.type
            if len(dims) != 1:
                raise EngineLimit('multi-dimensional C array')
            init = d.init.exprs if isinstance(d.init, c_ast.InitList) else []
            n = dims[0] if dims[0] is not None else len(init)
            if is_sym(n):
                n = core.concretize_int(n)
            cells = [UNINIT] * n
            if d.init is not None and isinstance(d.init, c_ast.InitList):
                cells = [conv(0, ety if isinstance(ety, str) else None)] * n
                for i, x in enumerate(init):
                    cells[i] = conv(self.ev(x, env), ety)
            env[-1][d.name] = Ptr(Block(cells, ety))
            return
        if isinstance(ty, tuple):
            env[-1][d.name] = Struct(ty[1], self.structs.get(ty[1], []))
            return
        v = UNINIT
        if d.init is not None:
            v = conv(self.ev(d.init, env), ty)
        elif ty == 'opaque':
            v = UNINIT
        env[-1][d.name] = Cell(v, ty)

    # ---- expressions
    def look(self, name, env):
        for e in reversed(env):
            if name in e:
                return e[name]
        if name in self.globals:
            return self.globals[name]
        if name in CONSTS:
            return CONSTS[name]
        raise EngineLimit('unknown C identifier ' + name)

    def truth(self, v):
        if v is None:
            raise CError('void value used')
        if isinstance(v, Sym):
            return bool(v != 0)
        if isinstance(v, (int, float)):
            return v != 0
        return bool(v)

    def lval(self, x, env):
        """(container, index)"""
        t = type(x)
        if t is c_ast.ID:
            v = self.look(x.name, env)
            if isinstance(v, Cell):
                return v, 0
            raise EngineLimit('assignment to ' + x.name)
        if t is c_ast.ArrayRef:
            p = self.ev(x.name, env)
            i = self.ev(x.subscript, env)
            return self.deref(p, i)
        if t is c_ast.UnaryOp and x.op == '*':
            return self.deref(self.ev(x.expr, env), 0)
        if t is c_ast.StructRef:
            base = self.ev(x.name, env) if x.type == '->' else self.structval(x.name, env)
            if isinstance(base, Ptr):
                base = base.blk.get(base.off)
            if isinstance(base, Struct):
                if x.field.name not in base.f:
                    raise EngineLimit('unknown field ' + x.field.name)
                return base.f[x.field.name], 0
            if isinstance(base, GObj):
                return GField(base, x.field.name), 0
            raise EngineLimit('struct access')
        if t is c_ast.Cast:
            return self.lval(x.expr, env)
        raise EngineLimit('lvalue %s' % t.__name__)

    def structval(self, x, env):
        if isinstance(x, c_ast.ID):
            v = self.look(x.name, env)
            if isinstance(v, Struct):
                return v
            if isinstance(v, Cell):
                return v.get()
            return v
        return self.ev(x, env)

    def deref(self, p, i):
        if is_sym(i):
            i = core.concretize_int(i)
        if isinstance(i, bool):
            i = int(i)
        if p is UNINIT or p == 0 and not isinstance(p, Ptr):
            raise CError('null or uninitialised pointer dereferenced')
        if not isinstance(p, Ptr):
            raise EngineLimit('dereference of a non-pointer')
        return p.blk, p.off + i

    def ev(self, x, env):
        t = type(x)
        if t is c_ast.Constant:
            if x.type == 'string':
                return x.value[1:-1]
            if x.type == 'char':
                return ord(eval(x.value))
            v = x.value.rstrip('uUlLfF') if not x.value.lower().startswith('0x') else x.value.rstrip('uUlL')
            if x.type in ('int', 'long int', 'unsigned int', 'long', 'long long int', 'unsigned long int'):
                return int(v, 0) if not (len(v) > 1 and v[0] == '0' and v[1].isdigit()) else int(v, 8)
            return float(v)
        if t is c_ast.ID:
            v = self.look(x.name, env)
            return v.get() if isinstance(v, Cell) else v
        if t is c_ast.BinaryOp:
            return self.binop(x, env)
        if t is c_ast.UnaryOp:
            return self.unop(x, env)
        if t is c_ast.Assignment:
            b, i = self.lval(x.lvalue, env)
            if x.op == '=':
                v = self.ev(x.rvalue, env)
            else:
                v = arith(x.op[:-1], b.get(i), self.ev(x.rvalue, env))
            if isinstance(b, Block):
                v = conv(v, b.ty if isinstance(b.ty, str) else None)
            b.set(i, v)
            return b.get(i) if not isinstance(v, Struct) else v
        if t is c_ast.FuncCall:
            args = [self.ev(a, env) for a in (x.args.exprs if x.args else [])]
            if not isinstance(x.name, c_ast.ID):
                raise EngineLimit('indirect call')
            return self.call(x.name.name, args)
        if t in (c_ast.ArrayRef, c_ast.StructRef):
            b, i = self.lval(x, env)
            return b.get(i)
        if t is c_ast.Cast:
            ty = self.tyname(x.to_type)
            v = self.ev(x.expr, env)
            return conv(v, ty) if isinstance(ty, str) else v
        if t is c_ast.TernaryOp:
            return self.ev(x.iftrue if self.truth(self.ev(x.cond, env)) else x.iffalse, env)
        if t is c_ast.ExprList:
            r = None
            for e in x.exprs:
                r = self.ev(e, env)
            return r
        raise EngineLimit('C expression %s' % t.__name__)

    def unop(self, x, env):
        op = x.op
        if op == 'sizeof':
            if isinstance(x.expr, (c_ast.Typename,)):
                ty = self.tyname(x.expr)
                return SizeOf(ty) if isinstance(ty, tuple) else (8 if ty in ('double', 'ptr') else 4)
            return 8
        if op == '&':
            if isinstance(x.expr, c_ast.ID):
                v = self.look(x.expr.name, env)
                if isinstance(v, Struct):
                    return Ptr(Block([v], 'struct'))
                if isinstance(v, Ptr):
                    return v
                return Ptr(v)
            if isinstance(x.expr, c_ast.StructRef) and x.expr.field.name in ('matrix', 'vector'):
                return self.ev(x.expr.name, env)
            b, i = self.lval(x.expr, env)
            return Ptr(b, i)
        if op in ('p++', '++', 'p--', '--'):
            b, i = self.lval(x.expr, env)
            old = b.get(i)
            new = arith('+' if '+' in op else '-', old, 1)
            b.set(i, new)
            return old if op[0] == 'p' else new
        if op == '*':
            b, i = self.deref(self.ev(x.expr, env), 0)
            return b.get(i)
        v = self.ev(x.expr, env)
        if op == '-':
            return -v
        if op == '+':
            return v
        if op == '!':
            if isinstance(v, SymB):
                return ~v
            return int(not self.truth(v))
        raise EngineLimit('C operator ' + op)

    def binop(self, x, env):
        op = x.op
        if op == '&&':
            return int(self.truth(self.ev(x.left, env)) and self.truth(self.ev(x.right, env)))
        if op == '||':
            return int(self.truth(self.ev(x.left, env)) or self.truth(self.ev(x.right, env)))
        return arith(op, self.ev(x.left, env), self.ev(x.right, env))


class SizeOf(object):
    def __init__(self, ty):
        self.ty = ty


class NBytes(object):
    """n * sizeof(double) keeps the element count"""


def arith(op, a, b):
    if isinstance(a, SymB):
        a = core.ite(a, 1, 0)
    if isinstance(b, SymB):
        b = core.ite(b, 1, 0)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, (PyObj, GObj)) or isinstance(b, (PyObj, GObj)):
        if op == '+':
            return a.add(b) if isinstance(a, Ptr) else b.add(a)
        if op == '-' and not isinstance(b, Ptr):
            return a.add(-b)
        if op == '==':
            return int(a is b or (isinstance(a, Ptr) and a == b))
        if op == '!=':
            return int(not (a is b or (isinstance(a, Ptr) and a == b)))
        raise EngineLimit('pointer operator ' + op)
    if isinstance(a, SizeOf) or isinstance(b, SizeOf):
        return a if isinstance(a, SizeOf) else b
    ra, rb = is_real(a), is_real(b)
    if op in ('+', '-', '*', '/'):
        if ra != rb:
            a, b = conv(a, 'double'), conv(b, 'double')
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if ra or rb:
            return core.div(a, b) if hasattr(core, 'div') else fdiv(a, b)
        if is_sym(a) or is_sym(b):
            a = core.concretize_int(a) if is_sym(a) else a
            b = core.concretize_int(b) if is_sym(b) else b
        if b == 0:
            raise CError('integer division by zero')
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if op == '%':
        a = core.concretize_int(a) if is_sym(a) else a
        b = core.concretize_int(b) if is_sym(b) else b
        return int(math.fmod(a, b))
    if op in ('<', '>', '<=', '>=', '==', '!='):
        r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
             '==': lambda: a == b, '!=': lambda: a != b}[op]()
        return r if isinstance(r, SymB) else int(bool(r))
    if op in ('&', '|', '^', '<<', '>>') and isinstance(a, int) and isinstance(b, int):
        return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b >= 0 else 0, '>>': a >> b if b >= 0 else 0}[op]
    raise EngineLimit('C operator %s' % op)


def fdiv(a, b):
    if is_sym(a) or is_sym(b):
        return a / b if is_sym(a) else core.Sym(core.z3real(a)) / b
    if b == 0:
        if a == 0 or math.isnan(a):
            return float('nan')
        return math.copysign(float('inf'), a)
    return a / b


# --------------------------------------------------------------------------
# libm, stdlib
def _fin(p, x):
    return 1 if is_sym(x) else int(math.isfinite(x))


def _u(name, fn):
    def f(p, x):
        if is_sym(x):
            return arr.UF[name](x)
        try:
            return fn(float(x))
        except (ValueError, OverflowError):
            return {'log': float('-inf') if x == 0 else float('nan'), 'sqrt': float('nan'), 'exp': float('inf')}.get(name, float('nan'))
    return f


def _pow(p, a, b):
    if is_sym(a) or is_sym(b):
        if not is_sym(b) and float(b) == int(b) and 0 <= b <= 8:
            r = 1.0
            for _ in range(int(b)):
                r = r * a
            return r
        return core.power(a, b)
    try:
        return float(a) ** float(b)
    except ZeroDivisionError:
        return float('inf')


def _alloc(zero):
    def f(p, n, size=None):
        z = size if size is not None else n
        if isinstance(z, SizeOf) or isinstance(n, SizeOf):
            s = z if isinstance(z, SizeOf) else n
            st = Struct(s.ty[1], p.structs[s.ty[1]])
            if zero:
                for c in st.f.values():
                    c.v = 0.0 if c.ty == 'double' else 0
            return Ptr(Block([st], 'struct'))
        cnt = n if size is not None else n // 8
        return Ptr(Block([0.0 if zero else UNINIT] * cnt, 'double'))
    return f


def _memcpy(p, d, s, n):
    cnt = n // 8
    vals = [s.blk.get(s.off + i) for i in range(cnt)]
    for i, v in enumerate(vals):
        d.blk.set(d.off + i, v)
    return d


def _memset(p, d, v, n):
    for i in range(n // 8):
        d.blk.set(d.off + i, 0.0)
    return d


def _free(p, x):
    if isinstance(x, Ptr):
        if x.blk.freed:
            raise CError('double free')
        x.blk.freed = True
    return None


def _fmax(p, a, b):
    return core.max2(a, b)


def _fmin(p, a, b):
    return core.min2(a, b)


def _fabs(p, x):
    return abs(x)


# --------------------------------------------------------------------------
# GSL
class GObj(object):
    pass


class GField(object):
    def __init__(self, o, n):
        self.o, self.n = o, n

    def get(self, i=0):
        return getattr(self.o, self.n)


class GMat(GObj):
    def __init__(self, n1, n2, ptr=None):
        self.size1, self.size2 = n1, n2
        self.ptr = ptr if ptr is not None else Ptr(Block([UNINIT] * (n1 * n2)))
        self.lu = None
        self.freed = False

    def g(self, i, j):
        self.ck(i, j)
        return self.ptr.blk.get(self.ptr.off + i * self.size2 + j)

    def s(self, i, j, v):
        self.ck(i, j)
        self.ptr.blk.set(self.ptr.off + i * self.size2 + j, v)

    def ck(self, i, j):
        if self.freed:
            raise CError('use of a freed matrix')
        if not (0 <= i < self.size1 and 0 <= j < self.size2):
            raise CError('matrix index out of range')


class GVec(GObj):
    def __init__(self, n, cells=None):
        self.size = n
        self.cells = cells
        self.v = [UNINIT] * n if cells is None else None
        self.freed = False

    def g(self, i):
        if self.freed or not 0 <= i < self.size:
            raise CError('vector index out of range or freed')
        if self.cells is not None:
            return self.cells[0](i)
        v = self.v[i]
        if v is UNINIT:
            raise CError('read of an uninitialised vector')
        return v

    def s(self, i, x):
        if self.freed or not 0 <= i < self.size:
            raise CError('vector index out of range or freed')
        if self.cells is not None:
            return self.cells[1](i, x)
        self.v[i] = x


class GPerm(GObj):
    def __init__(self, n):
        self.size = n
        self.freed = False


class GWork(GObj):
    freed = False


def gfree(p, o):
    if o is UNINIT or o == 0:
        return None
    if o.freed:
        raise CError('double free')
    o.freed = True


def set_identity(p, m):
    for i in range(m.size1):
        for j in range(m.size2):
            m.s(i, j, 1.0 if i == j else 0.0)


def set_zero(p, m):
    for i in range(m.size1):
        for j in range(m.size2):
            m.s(i, j, 0.0)


def set_all(p, m, v):
    for i in range(m.size1):
        for j in range(m.size2):
            m.s(i, j, v)


NOTRANS, TRANS = 111, 112


def _at(m, tr, i, j):
    return m.g(j, i) if tr == TRANS else m.g(i, j)


def dgemm(p, ta, tb, alpha, A, B, beta, C):
    n = A.size2 if ta == TRANS else A.size1
    k = A.size1 if ta == TRANS else A.size2
    m = B.size1 if tb == TRANS else B.size2
    kb = B.size2 if tb == TRANS else B.size1
    if k != kb or C.size1 != n or C.size2 != m:
        raise CError('gsl: invalid length')
    out = {}
    for i in range(n):
        for j in range(m):
            s = 0.0
            for q in range(k):
                s = s + _at(A, ta, i, q) * _at(B, tb, q, j)
            out[i, j] = alpha * s
    for (i, j), v in out.items():
        C.s(i, j, v + beta * C.g(i, j) if beta != 0 else v)
    return 0


def dgemv(p, ta, alpha, A, x, beta, y):
    n = A.size2 if ta == TRANS else A.size1
    k = A.size1 if ta == TRANS else A.size2
    if x.size != k or y.size != n:
        raise CError('gsl: invalid length')
    out = []
    for i in range(n):
        s = 0.0
        for q in range(k):
            s = s + _at(A, ta, i, q) * x.g(q)
        out.append(alpha * s)
    for i, v in enumerate(out):
        y.s(i, v + beta * y.g(i) if beta != 0 else v)
    return 0


def ddot(p, x, y, res):
    if x.size != y.size:
        raise CError('gsl: invalid length')
    s = 0.0
    for i in range(x.size):
        s = s + x.g(i) * y.g(i)
    res.blk.set(res.off, s)
    return 0


def mat_add(sign):
    def f(p, a, b):
        if a.size1 != b.size1 or a.size2 != b.size2:
            raise CError('gsl: matrices must have same dimensions')
        for i in range(a.size1):
            for j in range(a.size2):
                a.s(i, j, a.g(i, j) + b.g(i, j) if sign > 0 else a.g(i, j) - b.g(i, j))
        return 0
    return f


def mat_memcpy(p, d, s):
    if d.size1 != s.size1 or d.size2 != s.size2:
        raise CError('gsl: matrix sizes are different')
    for i in range(d.size1):
        for j in range(d.size2):
            d.s(i, j, s.g(i, j))
    return 0


def vec_memcpy(p, d, s):
    if d.size != s.size:
        raise CError('gsl: vector lengths are not equal')
    for i in range(d.size):
        d.s(i, s.g(i))
    return 0


def det(M):
    n = len(M)
    if n == 0:
        return 1.0
    if n == 1:
        return M[0][0]
    s = 0.0
    for j in range(n):
        t = M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
        s = s + t if j % 2 == 0 else s - t
    return s


def as_list(m):
    return [[m.g(i, j) for j in range(m.size2)] for i in range(m.size1)]


def som(x):
    return Sym(z3.simplify(x.e, som=True)) if isinstance(x, Sym) else x


def lu_decomp(p, m, pp, s):
    """the factors are only consumed by LU_invert / LU_det / LU_solve: the original matrix is kept with the object's memory"""
    M = as_list(m)
    d = som(det(M))
    if bool(d == 0):
        raise EngineLimit('singular matrix')
    p.lu[(id(m.ptr.blk), m.ptr.off)] = (M, d)
    for i in range(m.size1):
        for j in range(m.size2):
            m.s(i, j, UNINIT)
    s.blk.set(s.off, 1)
    return 0


def lu_get(p, m):
    k = (id(m.ptr.blk), m.ptr.off)
    if k not in p.lu:
        raise EngineLimit('LU factors of an unknown matrix')
    return p.lu[k]


def lu_invert(p, m, pp, inv):
    M, d = lu_get(p, m)
    n = len(M)
    for i in range(n):
        for j in range(n):
            c = det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j])
            c = c if (i + j) % 2 == 0 else -c
            inv.s(i, j, fdiv(c, d))
    return 0


def lu_det(p, m, s):
    M, d = lu_get(p, m)
    return d


def lu_lndet(p, m):
    M, d = lu_get(p, m)
    return _u('log', math.log)(p, abs(d))


def lu_solve(p, m, pp, b, x):
    M, d = lu_get(p, m)
    n = len(M)
    bb = [b.g(i) for i in range(n)]
    for j in range(n):
        Mj = [[bb[i] if k == j else M[i][k] for k in range(n)] for i in range(n)]
        x.s(j, fdiv(det(Mj), d))
    return 0


def lu_svx(p, m, pp, x):
    return lu_solve(p, m, pp, x, x)


def eigen_symm(p, m, ev, w):
    """eigenvalues of a symmetric matrix: fresh reals with the right elementary symmetric functions (n <= 3).
    Like GSL, only the diagonal and lower triangle are read."""
    M = as_list(m)
    n = len(M)
    for i in range(n):
        for j in range(i + 1, n):
            M[i][j] = M[j][i]
    e = core.eng()
    if n == 1:
        ev.s(0, M[0][0])
        return 0
    if n > 3:
        raise EngineLimit('eigenvalues of a %d x %d matrix' % (n, n))
    if all(not is_sym(x) for r in M for x in r):
        for i, x in enumerate(np.linalg.eigvalsh(np.array(M, dtype='f8'))):
            ev.s(i, float(x))
        return 0
    vs = [Sym(e.newvar('eig!%d!%d' % (p.neig, i))) for i in range(n)]
    p.neig += 1
    R = core.z3real
    tr = M[0][0] + M[1][1] + (M[2][2] if n == 3 else 0.0)
    e.lemma(R(sum(vs[1:], vs[0])) == R(tr))
    pr = vs[0] * vs[1] * (vs[2] if n == 3 else 1.0)
    e.lemma(R(pr) == R(det(M)))
    if n == 3:
        e2 = vs[0] * vs[1] + vs[0] * vs[2] + vs[1] * vs[2]
        mi = 0.0
        for i, j in ((0, 1), (0, 2), (1, 2)):
            mi = mi + (M[i][i] * M[j][j] - M[i][j] * M[j][i])
        e.lemma(R(e2) == R(mi))
    for i in range(n - 1):
        e.lemma(R(vs[i]) <= R(vs[i + 1]))
    # Sylvester: positive leading minors of M - eps bound the smallest eigenvalue (valid for symmetric M)
    q = core._q(p.sylvester)
    S = [[R(M[i][j]) - (q if i == j else 0) for j in range(n)] for i in range(n)]
    minors = [z3.simplify(R(det([[Sym(x) for x in r[:k]] for r in S[:k]])), som=True) > 0 for k in range(1, n + 1)]
    e.lemma(z3.Implies(z3.And(*minors), R(vs[0]) > q))
    for i, v in enumerate(vs):
        ev.s(i, v)
    return 0


def eigen_symmv(p, m, ev, Q, w):
    if m.size1 != 1:
        raise EngineLimit('eigenvectors')
    ev.s(0, m.g(0, 0))
    Q.s(0, 0, 1.0)
    return 0


def view_array(p, ptr, n1, n2):
    return GMat(n1, n2, ptr)


def mat_diag(p, m):
    return GVec(min(m.size1, m.size2), cells=(lambda i: m.g(i, i), lambda i, v: m.s(i, i, v)))


def mat_scale(p, m, x):
    for i in range(m.size1):
        for j in range(m.size2):
            m.s(i, j, m.g(i, j) * x)
    return 0


def mat_transpose_memcpy(p, d, s):
    for i in range(s.size1):
        for j in range(s.size2):
            d.s(j, i, s.g(i, j))
    return 0


# --------------------------------------------------------------------------
# CPython / NumPy C API
def parse_tuple(p, args, fmt, *outs):
    vals = args.v
    fmt = fmt.split(':')[0]
    if '|' in fmt:
        need = fmt.index('|')
        fmt = fmt.replace('|', '')
    else:
        need = len(fmt)
    if len(vals) > len(fmt) or len(vals) < need:
        p.err = (TypeError, 'wrong number of arguments')
        return 0
    for f, v, o in zip(fmt, vals, outs):
        if f == 'd':
            if isinstance(v, np.ndarray):
                v = v.item()
            v = v if is_sym(v) else float(v)
        elif f in 'iln':
            if isinstance(v, (float, np.floating)):
                p.err = (TypeError, 'integer argument expected, got float')
                return 0
            v = int(v)
        elif f == 'O':
            v = PyObj(v)
        else:
            raise EngineLimit('PyArg_ParseTuple format ' + f)
        o.blk.set(o.off, v)
    return 1


def set_string(p, exc, msg):
    p.err = (exc, msg)


def arr_data(p, o):
    a = o.v
    if not isinstance(a, np.ndarray):
        raise CError('PyArray_DATA of a non-array')
    if a.dtype != object and a.dtype != np.dtype('f8'):
        raise CError('array of type %s read as double' % a.dtype)
    return Ptr(ArrBlock(a))


def arr_zeros(p, nd, dims, ty, fortran):
    shape = tuple(dims.blk.get(dims.off + i) for i in range(nd))
    a = np.empty(shape, dtype=object)
    a[...] = 0.0
    return PyObj(a.view(arr.SA))


def arr_return(p, o):
    a = o.v
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return PyObj(a.item())
    return o


def arr_type(p, o):
    a = o.v
    if isinstance(a, np.ndarray):
        return 12 if a.dtype == object or a.dtype == np.dtype('f8') else 0
    raise CError('PyArray_TYPE of a non-array')


def tuple_set(p, t, i, o):
    t.v[i] = o.v


BUILTINS = {
    'fabs': _fabs, 'abs': _fabs, 'sqrt': _u('sqrt', math.sqrt), 'log': _u('log', math.log), 'exp': _u('exp', math.exp),
    'erf': _u('erf', math.erf), 'erfc': lambda p, x: 1.0 - _u('erf', math.erf)(p, x),
    'pow': _pow, 'finite': _fin, 'isfinite': _fin, 'fmax': _fmax, 'fmin': _fmin,
    'isnan': lambda p, x: 0 if is_sym(x) else int(math.isnan(x)), 'isinf': lambda p, x: 0 if is_sym(x) else int(math.isinf(x)),
    'calloc': _alloc(True), 'malloc': _alloc(False), 'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'free': _free,
    'printf': lambda p, *a: 0, 'fprintf': lambda p, *a: 0, 'sprintf': lambda p, *a: 0,
    'gsl_matrix_alloc': lambda p, a, b: GMat(a, b), 'gsl_vector_alloc': lambda p, a: GVec(a),
    'gsl_matrix_free': gfree, 'gsl_vector_free': gfree, 'gsl_permutation_free': gfree, 'gsl_eigen_symm_free': gfree,
    'gsl_eigen_symmv_free': gfree, 'gsl_permutation_alloc': lambda p, n: GPerm(n),
    'gsl_matrix_set_zero': set_zero, 'gsl_matrix_set_identity': set_identity, 'gsl_matrix_set_all': set_all,
    'gsl_matrix_set': lambda p, m, i, j, v: m.s(i, j, conv(v, 'double')), 'gsl_matrix_get': lambda p, m, i, j: m.g(i, j),
    'gsl_vector_set': lambda p, m, i, v: m.s(i, conv(v, 'double')), 'gsl_vector_get': lambda p, m, i: m.g(i),
    'gsl_matrix_view_array': view_array, 'gsl_matrix_diagonal': mat_diag, 'gsl_matrix_scale': mat_scale,
    'gsl_matrix_transpose_memcpy': mat_transpose_memcpy,
    'gsl_blas_dgemm': dgemm, 'gsl_blas_dgemv': dgemv, 'gsl_blas_ddot': ddot,
    'gsl_matrix_add': mat_add(1), 'gsl_matrix_sub': mat_add(-1), 'gsl_matrix_memcpy': mat_memcpy, 'gsl_vector_memcpy': vec_memcpy,
    'gsl_linalg_LU_decomp': lu_decomp, 'gsl_linalg_LU_invert': lu_invert, 'gsl_linalg_LU_det': lu_det,
    'gsl_linalg_LU_lndet': lu_lndet, 'gsl_linalg_LU_solve': lu_solve, 'gsl_linalg_LU_svx': lu_svx,
    'gsl_eigen_symm_alloc': lambda p, n: GWork(), 'gsl_eigen_symmv_alloc': lambda p, n: GWork(),
    'gsl_eigen_symm': eigen_symm, 'gsl_eigen_symmv': eigen_symmv,
    'gsl_matrix_calloc': lambda p, a, b: GMat(a, b, Ptr(Block([0.0] * (a * b)))),
    'PyArg_ParseTuple': parse_tuple, 'PyErr_SetString': set_string, 'PyArray_DATA': arr_data,
    'PyArray_DIM': lambda p, o, i: o.v.shape[i], 'PyArray_SIZE': lambda p, o: o.v.size, 'PyArray_NDIM': lambda p, o: o.v.ndim,
    'PyArray_ZEROS': arr_zeros, 'PyArray_Return': arr_return, 'PyArray_TYPE': arr_type,
    'PyTuple_New': lambda p, n: PyObj([None] * n), 'PyTuple_SET_ITEM': tuple_set, 'PyTuple_SetItem': tuple_set,
}
CONSTS = {'CblasNoTrans': NOTRANS, 'CblasTrans': TRANS, 'PyExc_RuntimeError': RuntimeError, 'PyExc_ValueError': ValueError,
          'PyExc_TypeError': TypeError, 'INFINITY': float('inf'), 'NAN': float('nan')}


class ExtType(object):
    """instance of an extension type, driven through its C init and method functions"""
    PROG = None


def make_type(prog, struct, init, methods):
    class T(object):
        def __init__(self, *args):
            prog.err = None
            self._self = Struct(struct, prog.structs[struct])
            ptr = Ptr(Block([self._self], 'struct'))
            self._ptr = ptr
            r = prog.call(init, [ptr, PyObj(list(args))])
            if r != 0:
                et, msg = prog.err or (SystemError, 'init failed')
                raise et(msg)

    def meth(fn):
        def m(self, *args):
            prog.err = None
            r = prog.call(fn, [self._ptr, PyObj(list(args))])
            if prog.err is not None:
                raise SystemError(prog.err[1])
            v = r.v
            return tuple(v) if isinstance(v, list) else v
        return m
    for pyname, fn in methods.items():
        setattr(T, pyname, meth(fn))
    return T


def find_method_table(prog_dir):
    """(name -> C function) tables as the source declares them"""
    import re
    out = {}
    for f in sorted(os.listdir(prog_dir)):
        if f.endswith('_pywrap.c'):
            with open(os.path.join(prog_dir, f)) as fh:
                s = fh.read()
            for m in re.finditer(r'\{\s*"(\w+)"\s*,\s*\(PyCFunction\)\s*(\w+)', s):
                out[m.group(1)] = m.group(2)
            m = re.search(r'\(initproc\)\s*(\w+)', s)
            init = m.group(1)
            m = re.search(r'\b%s\s*\(\s*struct\s+(\w+)' % init, s)
            struct = m.group(1)
    return struct, init, out


def extension(which, cls, repo, builtins=None):
    d = os.path.join(repo, 'redmapper', which)
    prog = Program(d, builtins)
    prog.lu = {}
    prog.sylvester = 1.0 / 1024
    prog.neig = 0
    struct, init, methods = find_method_table(d)
    return prog, make_type(prog, struct, init, methods)
