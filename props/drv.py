"""driver functions: the library code is called through generated one-line functions, overloads resolved by clang"""
from .real import *


class Drv:
    def __init__(self, ctx, text, funcs, con=True, **kw):
        """funcs: name -> C++ definition"""
        self.ctx = ctx
        body = '\n'.join(funcs.values())
        self.tu = ctx.tu(text + '\nnamespace DSP_drv {\nusing namespace DSP;\n%s\n}\n' % body)
        self.e = ctx.engine(self.tu, **kw)
        if con:
            consts(self.e)

    def fn(self, name):
        f = self.tu.find(name)
        f = [x for x in f if self.tu.body(x) is not None]
        if len(f) != 1:
            raise Unsupported('driver function ' + name)
        return f[0]

    def __call__(self, st, name, *args):
        r = self.ctx.call(self.e, st, self.fn(name), None, list(args))
        return self.e.read(st, r) if isinstance(r, LV) else r
