# Jython side of a check: python 2.7 syntax.
import sys
sys.dont_write_bytecode = True
import __builtin__
import json
import logging
import os
import random
import time
import traceback

logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger().setLevel(logging.CRITICAL + 10)
logging.disable(logging.CRITICAL)

# An "import x" statement inside a function costs ~1 ms in Jython (it looks for Java packages first).
# PyXB has them on hot paths; answer those for modules that are loaded already.
_import = __builtin__.__import__
_mods = sys.modules
_FAST = ('pyxb', 'ebu_tt_live', 'logging')


def _fast_import(name, *a, **kw):
    if kw:
        return _import(name, *a, **kw)
    # a: globals, locals, fromlist, level; Jython's own code passes Java nulls
    # for the first two, so they are handed on untouched
    if len(a) < 4 or a[3] <= 0:
        top = name.split('.', 1)[0]
        if top in _FAST:
            fromlist = a[2] if len(a) > 2 else None
            m = _mods.get(name)
            if m is not None:
                if not fromlist:
                    t = _mods.get(top)
                    if t is not None:
                        return t
                else:
                    for f in fromlist:
                        if not hasattr(m, f):
                            break
                    else:
                        return m
    return _import(name, *a)


class Ctx(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.worker = cfg['worker']
        self.nworkers = cfg['nworkers']
        self.tier = cfg['tier']
        self.rng = random.Random(cfg['seed'] * 7919 + cfg['worker'])
        self.behaviours = json.load(open(cfg['behaviours']))[self.worker::self.nworkers]
        self.out = open(cfg['out'], 'w')
        self.scratch = cfg['scratch']
        self.rand = cfg['rand']
        self.tid = 0
        self.buf = []

    def start_clock(self):
        self.t0 = time.time()
        self.deadline = self.t0 + self.cfg['budget']

    def left(self):
        return self.deadline - time.time()

    def reset(self, src, beh, **kw):
        self.flush()
        self.tid += 1
        d = dict(ev='reset', tid=self.tid, src=src, **kw)
        d['beh_in'] = dict(src=src, beh=beh)
        self.emit(d)

    def emit(self, event):
        self.buf.append(json.dumps(event, sort_keys=True))

    def flush(self):
        if self.buf:
            self.out.write('\n'.join(self.buf) + '\n')
            self.out.flush()
            self.buf = []

    def schedule(self, randgen, share=0.5):
        """Yields (source, behaviour): the generated behaviours, interleaved with random ones, until time is up.
        The generated ones get at least their share of the budget."""
        gen = list(self.behaviours)
        nrand = self.rand
        turn = 0.0
        while True:
            if self.left() <= 0:
                return
            if gen and (turn <= share or not nrand or randgen is None):
                b = gen.pop()
                t = time.time()
                yield b['src'], b['beh']
            elif nrand and randgen is not None:
                nrand -= 1
                yield 'random', randgen(self.rng)
            else:
                return
            turn += 0.5
            if turn > 1.0:
                turn -= 1.0


def errname(exc):
    return type(exc).__name__


def ms(td):
    """timedelta -> integer milliseconds; None -> -1."""
    if td is None:
        return -1
    return int(round((td.days * 86400 + td.seconds) * 1000 + td.microseconds / 1000.0))


def main():
    cfg = json.load(open(sys.argv[1]))
    ctx = Ctx(cfg)
    __builtin__.__import__ = _fast_import
    mod = _import(cfg['driver'])
    import ebu_tt_live
    assert os.path.abspath(ebu_tt_live.__file__).startswith(cfg['src']), ebu_tt_live.__file__
    ctx.start_clock()
    mod.run(ctx)
    ctx.flush()
    ctx.out.close()


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
