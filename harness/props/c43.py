"""Different objects can be used from several threads at once."""

import ast
import copy
import hashlib
import importlib
import os
import re
import sys
import threading

from ndspy import codeCompression, color, graphics2D, lz10, texture
from gen import blobs, codeblobs, corpus

CASES = {'quick': 8000, 'thorough': 48000}
RULE = ('Two to six threads, each with one to four jobs of its own: loading, saving, parsing and printing an independently'
        ' built file of any format, compressing and decompressing, drawing textures and tiles; half of the time all'
        ' threads do the same kind of job with other data. Threads start together and are switched between every few'
        ' instructions; each job is done twice and compared with its result when done alone. Half of'
        ' the time also with one thread running at a time, switching after random lines of the library. Some of it'
        ' happens in a process that has just imported the library.'
        ' Non-trivial = at least two threads were seen inside the library at the same time.')
REQUIRED = {'same as alone': 30000, 'no exception': 8000, 'first use': 500, 'in turns': 8000}
ASSUMPTIONS = ['Threads do not share objects.']

LIBRARY = os.path.dirname(os.path.abspath(color.__file__))


class Job:
    def __init__(self, rng, which):
        self.which = which
        if which in corpus.KINDS:
            self.data, self.args = corpus.KINDS[which].file(rng)
        elif which == 'lz10':
            self.data = blobs.lzLike(rng, rng.randrange(300))
        elif which == 'code':
            self.data = codeblobs.codeData(rng, rng.randrange(8))[:400] + bytes([1, 2, 3, 4]) * 60
        elif which == 'texture':
            while True:
                self.data, self.args = corpus.KINDS['Nsbtx'].file(rng)
                if len(self.data) < 20000:
                    break
        elif which == 'tiles':
            self.data = rng.randbytes(64 * rng.randrange(1, 4))
            self.args = [rng.randrange(65536) for _ in range(rng.randrange(1, 5))]
            self.palette = rng.randbytes(512)
        else:
            self.data = rng.randbytes(200)

    def run(self):
        w, d = self.which, self.data
        if w in corpus.KINDS:
            kind = corpus.KINDS[w]
            o = kind.load(d, copy.deepcopy(self.args))
            return kind.save(o), re.sub('0x[0-9a-fA-F]{6,}', '', str(o)), corpus.state(o)
        if w == 'lz10':
            c = bytes(lz10.compress(d))
            return c, bytes(lz10.decompress(c))
        if w == 'code':
            c = bytes(codeCompression.compress(d))
            return c, bytes(codeCompression.decompress(c))
        if w == 'texture':
            t = texture.NSBTX(d)
            out = []
            for _, x in t.textures:
                for _, p in t.palettes[:1] or [(None, None)]:
                    if x.width * x.height <= 1024:
                        try:
                            out.append(x.renderAsImage(p).tobytes())
                        except Exception as e:
                            out.append(type(e).__name__)
            return tuple(out)
        if w == 'tiles':
            tiles = graphics2D.loadImageTiles(d)
            pal = color.loadPalette(self.palette)
            m = [graphics2D.TilemapTile(v) for v in self.args]
            for t in m:
                t.tileNum %= len(tiles)
                t.paletteNum = 0
            return (tuple(graphics2D.renderTilemapTiles(m, tiles, pal, 2)),
                    graphics2D.renderTilemapTilesAsImage(m, tiles, pal, 2).tobytes(),
                    tuple(graphics2D.renderImageTiles(tiles, pal)))
        formats = list(color.ColorFormat)
        return (tuple(color.pack255(*color.unpack255(v)) for v in d),
                tuple(color.convert(256 * v + v, color.ColorFormat.INT_16, formats[v % len(formats)]) for v in d[:50]))


WHICH = list(corpus.KINDS) + ['lz10', 'lz10', 'code', 'code', 'texture', 'texture', 'tiles', 'colours']


def makePlan(rng, index):
    same = rng.random() < 0.5
    which = rng.choice(WHICH) if index % 2 else WHICH[index // 2 % len(WHICH)]
    return [[Job(rng, which if same else rng.choice(WHICH)) for _ in range(rng.choice([1, 2, 4]))]
            for _ in range(rng.choice([2, 2, 3, 6]))]


def together(plan):
    """Results of every thread, errors and the largest number of threads at work."""
    got = [[] for _ in plan]
    errors = []
    barrier = threading.Barrier(len(plan))
    inside, most = [0], [0]

    def work(i):
        try:
            barrier.wait()
            for _ in range(2):
                for j in plan[i]:
                    inside[0] += 1
                    most[0] = max(most[0], inside[0])
                    got[i].append(j.run())
                    inside[0] -= 1
        except Exception as e:
            errors.append((i, repr(e)))

    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(i,)) for i in range(len(plan))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(before)
    return got, errors, most[0]


class Baton:
    """
    Lets one thread run at a time and hands over after random lines of the
    library, so that the schedule follows from the seed. A thread that gets
    no turn for a while (the one whose turn it is may be waiting for a lock)
    goes on without.
    """
    def __init__(self, rng, n, often):
        self.rng, self.often = rng, often
        self.turns = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.switches = 0

    def trace(self, i):
        def local(frame, event, arg):
            if event == 'line' and self.rng.random() < self.often:
                self.handOver(i)
            return local

        def tracer(frame, event, arg):
            return local if os.path.dirname(frame.f_code.co_filename).startswith(LIBRARY) else None
        return tracer

    def handOver(self, i):
        others = [j for j in self.alive if j != i]
        if others:
            self.switches += 1
            self.turns[self.rng.choice(others)].release()
            self.turns[i].acquire(timeout=0.5)

    def end(self, i):
        self.alive.remove(i)
        if self.alive:
            self.turns[self.rng.choice(self.alive)].release()


def inTurns(plan, rng):
    got = [[] for _ in plan]
    errors = []
    baton = Baton(rng, len(plan), rng.choice([0.02, 0.1, 0.3]))

    def work(i):
        try:
            baton.turns[i].acquire(timeout=20)
            sys.settrace(baton.trace(i))
            for j in plan[i]:
                got[i].append(j.run())
        except Exception as e:
            errors.append((i, repr(e)))
        finally:
            sys.settrace(None)
            baton.end(i)

    threads = [threading.Thread(target=work, args=(i,)) for i in range(len(plan))]
    for t in threads:
        t.start()
    baton.turns[0].release()
    for t in threads:
        t.join()
    return got, errors, baton.switches


def digest(results):
    return [[hashlib.sha256(repr(r).encode('utf-8', 'surrogatepass')).hexdigest() for r in rs] for rs in results]


def freshly(rng, index):
    """The same in a child process in which the library has just been imported."""
    r, w = os.pipe()
    state = rng.getstate()
    pid = os.fork()
    if not pid:
        text = ''
        try:
            os.close(r)
            for n in list(sys.modules):
                if n.split('.')[0] in ('ndspy', 'gen', 'ref', 'props'):
                    del sys.modules[n]
            me = importlib.import_module(__name__)
            rng.setstate(state)
            got, errors, _ = me.together(me.makePlan(rng, index))
            text = repr((digest(got), errors))
        except BaseException as e:
            text = repr(([], [(-1, repr(e))]))
        finally:
            with os.fdopen(w, 'w') as f:
                f.write(text)
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return ast.literal_eval(text)


def case(ctx, rng, index):
    fresh = freshly(copy.copy(rng), index) if index % 25 == 4 else None
    plan = makePlan(rng, index)
    ctx.info('jobs', [[j.which for j in jobs] for jobs in plan])
    want = [[j.run() for j in jobs] for jobs in plan]
    got, errors, most = together(plan)
    ctx.check('no exception', not errors, f'{errors[:3]}')
    for i, jobs in enumerate(plan):
        for n in range(2 * len(jobs)):
            j = jobs[n % len(jobs)]
            ctx.check('same as alone', got[i][n] == want[i][n % len(jobs)],
                      f'thread {i} job {n} ({j.which}) gave another result than alone')
    if index % 2:
        light = [[j for j in jobs if len(j.data) < 1500][:2] for jobs in plan[:3]]
        got, errors, switches = inTurns(light, rng)
        ctx.check('no exception', not errors, f'in turns: {errors[:3]}')
        for jobs, wanted, all_, results in zip(light, want, plan, got):
            ctx.check('in turns', results == [wanted[all_.index(j)] for j in jobs],
                      f'jobs {[j.which for j in jobs]}, switched after random lines, gave another result than alone')
        ctx.note('switches at chosen lines', switches)
    if fresh is not None:
        ctx.check('first use', not fresh[1], f'just imported: {fresh[1][:3]}')
        ctx.eq('first use', fresh[0], digest([2 * r for r in want]), 'results of threads right after importing')
    if most > 1:
        ctx.nontrivial(*[j.data for jobs in plan for j in jobs])
    if index in (3, 4):
        ctx.sample(f'{[[j.which for j in jobs] for jobs in plan]}, up to {most} at the same time')
