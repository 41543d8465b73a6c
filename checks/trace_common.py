"""Environment of TRACE: abstract regions in place of shapely's.

The plane is a finite set of cells: one around each distinct instance position and some without
instances, each with a positive area.  A region is any set of cells; hulls and triangles are
arbitrary regions (the same for the same points), and the operations on regions are exact."""
import ast
import concurrent.futures
import linecache
import math
import os
import sys
import threading

import alphashape
import shapely
import shapely.geometry
import shapely.ops
import shapely.prepared
from shapely.geometry import MultiPolygon, Point, Polygon

from sx.core import Unsupported
from sx.spec import *
from sx.values import SymBool

AREAS = [1.0, 1.75, 0.5, 2.25, 1.25, 3.0, 0.75, 2.5, 1.5, 0.25, 4.0, 3.5]


def bit(b):
    return b if isinstance(b, SymBool) else np.bool_(b)


class Region:
    def __init__(self, world, mask, key, origin=(), parts=None):
        self.world, self.mask, self.key = world, [bit(b) for b in mask], key
        self.origin, self.parts, self.inner = frozenset(origin), parts, None

    # isinstance(region, Polygon) / isinstance(region, MultiPolygon)
    @property
    def __class__(self):
        return MultiPolygon if self.parts else Polygon

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"no model of region.{name}")

    def _new(self, mask, key, *others):
        return Region(self.world, mask, key, self.origin.union(*[o.origin for o in others]))

    @property
    def area(self):
        return self.world.area(self.mask)

    @property
    def is_empty(self):
        return Not(Or(*self.mask))

    def __bool__(self):
        return bool(Or(*self.mask))

    @property
    def geoms(self):
        return list(self.parts) if self.parts else [self]

    @property
    def convex_hull(self):
        if self.key.startswith("tri") or self.key == "empty":
            return self
        # hulls of instances need not be convex: any further cells may come in
        k, some = f"convex({self.key})", Or(*self.mask)
        return self._new([Or(b, And(c, some)) for b, c in zip(self.mask, self.world._mask(k))], k)

    geom_type = property(lambda self: "MultiPolygon" if self.parts else "Polygon")

    def buffer(self, d, *a, **k):
        r = self._new(self.mask, f"buffer({self.key},{d})")
        w = self.world
        if w.gaps and d > 0:
            # growing may add these cells and shrinking again may keep some of them
            some = Or(*self.mask)
            r.inner = list(self.mask)
            r.mask = [Or(b, And(g, some)) for b, g in zip(self.mask, w.gap(r.key))]
        elif w.gaps and self.inner is not None:
            r.mask = [Or(i, And(b, g)) for i, b, g in zip(self.inner, self.mask, w.gap(r.key))]
        return r

    def simplify(self, *a, **k):
        return self._new(self.mask, f"simplify({self.key})")

    def union(self, o):
        o = self.world.region(o)
        return self._new([Or(a, b) for a, b in zip(self.mask, o.mask)],
                         f"union({self.key},{o.key})", o)

    def intersection(self, o):
        o = self.world.region(o)
        return self._new([And(a, b) for a, b in zip(self.mask, o.mask)],
                         f"inter({self.key},{o.key})", o)

    def difference(self, o):
        o = self.world.region(o)
        r = self._new([And(a, Not(b)) for a, b in zip(self.mask, o.mask)],
                      f"diff({self.key},{o.key})")
        return self.world.broken(r)

    __or__, __and__, __sub__ = union, intersection, difference

    def contains(self, g):
        return self.world.inside(self.mask, g)

    def covers(self, g):
        # points on the border are covered but not contained
        return Or(self.contains(g), self.world.border(self, g))

    intersects = covers


class Pool:
    """An executor that runs each task when it is submitted."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def submit(self, f, *a, **k):
        return Done(f(*a, **k))

    def map(self, f, *its, **k):
        return [f(*a) for a in zip(*its)]

    def shutdown(self, *a, **k):
        return None


class Done:
    def __init__(self, v):
        self.v = v

    def result(self, *a):
        return self.v

    def done(self):
        return True


def waited(fs, *a, **k):
    return set(fs), set()


class World:
    """ctx, positions of the instances (n x 2, may repeat) and a number of cells without any."""

    def __init__(self, ctx, z, extra=1, pieces=1, multi=False, free=None, pool=True, must=None,
                 gaps=(), scale=1):
        """free: positions -> is their hull arbitrary (else the cells of these positions)?
        The cells it may have can be given instead; must: those it surely has.  gaps: cells that smoothing a border may add."""
        self.ctx, self.z, self.multi, self.npieces = ctx, np.asarray(z), multi, pieces
        self.free, self.must = free or (lambda ids: True), must or (lambda ids: ())
        self.cells = list(dict.fromkeys(tuple(map(float, r)) for r in self.z))
        self.at = [self.cells.index(tuple(map(float, r))) for r in self.z]
        self.n, self.nc = len(self.z), len(self.cells) + extra
        self.hulls, self.memo, self.fits = {}, {}, []
        self.gaps, self.scale = gaps, scale
        ctx.stub(alphashape.alphashape, self.hull)
        ctx.stub(shapely.ops.triangulate, lambda g, *a, **k: self.triangles(g))
        ctx.stub(shapely.ops.unary_union, self.unite)
        ctx.stub(shapely.prepared.prep, lambda g: g)
        for cls in (Polygon, MultiPolygon):
            ctx.stub(cls, self.make(cls))
        if pool:
            ctx.stub(concurrent.futures.ThreadPoolExecutor, Pool)
            ctx.stub(concurrent.futures.as_completed, lambda fs, *a, **k: list(fs))
            ctx.stub(concurrent.futures.wait, waited)

    def make(self, cls):
        def build(*a, **k):
            if not a or (isinstance(a[0], (list, tuple)) and len(a[0]) == 0):
                return self.none()
            if isinstance(a[0], (list, tuple)) and type(a[0][0]) is Region:
                return self.unite(a[0])
            raise Unsupported("polygon from coordinates")
        return build

    def none(self):
        return Region(self, [np.bool_(False)] * self.nc, "empty")

    def region(self, o):
        if type(o) is Region:
            return o
        if o is not None and getattr(o, "is_empty", None) is True:
            return self.none()
        raise Unsupported("operation with a concrete geometry")

    def unite(self, gs, *a, **k):
        r = None
        for g in gs:
            g = self.region(g)
            r = g if r is None else r.union(g)
        return r if r is not None else self.none()

    def area(self, mask):
        return total([If(b, np.float64(a), np.float64(0)) if isinstance(b, SymBool)
                      else np.float64(a if b else 0)
                      for b, a in zip(mask, [a * self.scale for a in AREAS])])

    def cell_of(self, p):
        c = (float(p.x), float(p.y))
        if c not in self.cells:
            raise Unsupported("a point that is not an instance")
        return self.cells.index(c)

    def inside(self, mask, g):
        if isinstance(g, Point):
            return mask[self.cell_of(g)]
        if hasattr(g, "geoms") and type(g) is not Region:
            return And(*[mask[self.cell_of(p)] for p in g.geoms]) if len(g.geoms) \
                else np.bool_(False)
        if type(g) is Region:
            return And(Not(g.is_empty), *[Implies(b, a) for a, b in zip(mask, g.mask)])
        raise Unsupported("containment of a geometry")

    def border(self, r, g):
        if not isinstance(g, Point):
            raise Unsupported("covering of a geometry")
        k = ("border", r.key, self.cell_of(g))
        if k not in self.memo:
            self.memo[k] = self.ctx.bool(f"on the border of {r.key}: {k[2]}")
        return self.memo[k]

    def gap(self, key):
        if key not in self.memo:
            self.memo[key] = [self.ctx.bool(f"{key}.{c}") if c in self.gaps else np.bool_(False)
                              for c in range(self.nc)]
        return self.memo[key]

    def _mask(self, key):
        if key not in self.memo:
            self.memo[key] = [self.ctx.bool(f"{key}.{c}") for c in range(self.nc)]
        return self.memo[key]

    def hull(self, points, *a, **k):
        ids = sorted({self.cells.index(tuple(map(float, r))) for r in np.asarray(raw(points))})
        return Region(self, self.hull_of(ids), "hull" + "_".join(map(str, ids)), [tuple(ids)])

    def hull_of(self, ids):
        if not self.free(ids):
            return [np.bool_(c in ids) for c in range(self.nc)]
        m, f = self._mask("hull" + "_".join(map(str, ids))), self.free(ids)
        must = self.must(ids)
        return [np.bool_(True) if c in must else b if f is True or c in f else np.bool_(False)
                for c, b in enumerate(m)]

    def pieces_of(self, ids):
        """The triangles of the hull of these positions."""
        key = "hull" + "_".join(map(str, ids))
        if not self.free(ids):
            return [[np.bool_(False)] * self.nc]
        return [self._mask(f"tri{t}.{key}") for t in range(self.npieces)]

    def triangles(self, g):
        g = self.region(g)
        if len(g.origin) != 1:
            raise Unsupported("triangles of a combined region")
        ids = next(iter(g.origin))
        return [Region(self, m, f"tri{t}({g.key})") for t, m in enumerate(self.pieces_of(ids))]

    def broken(self, r):
        """What is left of a region may be in two parts."""
        if not self.multi:
            return r
        m = self._mask("parts")
        r.parts = [Region(self, [And(a, b) for a, b in zip(r.mask, m)], r.key + "#0", r.origin),
                   Region(self, [And(a, Not(b)) for a, b in zip(r.mask, m)], r.key + "#1",
                          r.origin)]
        return r

    # ------------------------------------------------------------- what should be
    def points(self, mask, sel):
        return [mask[self.at[i]] for i in range(self.n) if sel[i]]

    def footprint(self, clusters, sel, purity):
        """The union of the hulls without the triangles of low purity."""
        out = [np.bool_(False)] * self.nc
        for ids in clusters:
            h = list(self.hull_of(ids))
            if not all(sel):
                for t in self.pieces_of(ids):
                    e = count(self.points(t, [True] * self.n))
                    g = count(self.points(t, sel))
                    low = And(e > 0, lt(g, purity * e))
                    h = [And(a, Not(And(b, low))) for a, b in zip(h, t)]
            out = [Or(a, b) for a, b in zip(out, h)]
        return out

    def clusters(self, sel):
        """Positions of the dense groups among the selected instances."""
        ids = sorted({self.at[i] for i in range(self.n) if sel[i]})
        if len(ids) < 3:
            return []
        x = np.array([self.cells[i] for i in ids])
        k = max(min(math.ceil(sum(map(bool, sel)) / 20), 50), 3)
        r = x.max(axis=0) - x.min(axis=0)
        eps = math.sqrt(r[0] * r[1] * k * math.gamma(2.0) / (len(x) * math.pi))
        return [[ids[i] for i in g] for g in groups(
            [[math.dist(a, b) <= eps for b in x] for a in x], k) if len(g) >= 3]


def groups(near, k):
    """Connected components having an element with more than k neighbours (itself included)."""
    m, left, out = len(near), list(range(len(near))), []
    while left:
        g = {left[0]}
        while True:
            h = {j for j in range(m) if any(near[i][j] for i in g)}
            if h <= g:
                break
            g |= h
        left = [i for i in left if i not in g]
        if any(sum(near[i]) >= k + 1 for i in g):
            out.append(sorted(g))
    return out


def check_stats(ctx, w, f, sel, what):
    """The statistics of footprint f are those of its region, given who is good."""
    p = f.polygon
    if p is None or type(p) is not Region:
        if p is not None and not p.is_empty:
            raise Unsupported("concrete polygon")
        mask = [np.bool_(False)] * w.nc
    else:
        mask = p.mask
    el, good = count(w.points(mask, [True] * w.n)), count(w.points(mask, sel))
    ctx.check(eq(f.area, w.area(mask)), f"the area of {what} is that of its region")
    ctx.check(eq(f.elements, el), f"the elements of {what} are the instances inside the region")
    ctx.check(eq(f.good_elements, good),
              f"the good elements of {what} are the good instances inside the region")
    ctx.check(And(eq(f.density * w.area(mask), el), Implies(Not(Or(*mask)), eq(f.density, 0))),
              f"the density of {what} is instances per area")
    ctx.check(And(eq(f.purity * el, good), Implies(el == 0, eq(f.purity, 0))),
              f"the purity of {what} is good instances per instance")
    return mask


def topts(sim=True, purity=0.55):
    from instancespace.data.options import TraceOptions
    return TraceOptions(use_sim=sim, purity=purity)


def par(n=2):
    from instancespace.data.options import ParallelOptions
    return ParallelOptions(flag=n > 1, n_cores=n)


CLUMP = [(0.0, 0.0), (0.1, 0.2), (0.05, 0.1), (0.0, 0.15), (0.12, 0.05)]


def groups_of(per, far=1, n=2):
    """n groups of `per` close instances and, for each, `far` instances far from everything."""
    z = [(10 * g + x, y) for g in range(n) for x, y in CLUMP[:per]]
    return np.array(z + [(10 * g + k, 60.0 + 40 * g + 9 * k) for g in range(n)
                         for k in range(far)])


def two_sides():
    """Five instances on the left, five on the right (two at the same place), two far away."""
    z = groups_of(5)
    z[9] = z[6]
    return z


REPO = os.path.realpath(os.environ.get("SX_REPO", "/repo")) + "/instancespace/"
CHANGING = {"append", "extend", "insert", "add", "update", "pop", "popleft", "appendleft", "clear",
            "remove", "discard", "setdefault", "sort", "put", "fill", "__setitem__", "setattr"}


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def shared_writes(path, memo={}):
    """{line: statement} of the simple statements which change something that is not local to
    the function they are in, and the lines of all others."""
    if path in memo:
        return memo[path]
    out = memo[path] = ({}, {})

    def visit(fn):
        local = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                local -= set(n.names)
        names = set(local)
        for n in ast.walk(fn):
            # another name of something shared
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Attribute, ast.Subscript)):
                local -= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(fn):
            if not isinstance(n, ast.stmt) or isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            simple = not hasattr(n, "body")
            last = n.end_lineno if simple else n.body[0].lineno - 1
            for k in range(n.lineno, last + 1):
                out[1][k] = n
            if not simple:
                continue
            for e in ast.walk(n):
                t = None
                if isinstance(e, (ast.Attribute, ast.Subscript)) \
                        and isinstance(e.ctx, (ast.Store, ast.Del)):
                    t = root(e)
                elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Store):
                    t = e.id if e.id not in names else None
                    if t is None:
                        continue
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) \
                        and e.func.attr in CHANGING:
                    t = root(e.func)
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                        and e.func.id in CHANGING and e.args:
                    t = root(e.args[0])
                else:
                    continue
                if t is None or t not in local:
                    for k in range(n.lineno, last + 1):
                        out[0][k] = n

    for fn in ast.walk(ast.parse("".join(linecache.getlines(path)))):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            visit(fn)
    return out


class Killed(BaseException):
    pass


class Tasks:
    """Executors whose tasks start, are preempted and complete in any order.

    A task may be preempted where a hull is computed and before and after a statement which
    changes something that is not local to the function it is in, at most `preempt` times in
    all."""

    def __init__(self, ctx, w, preempt):
        self.ctx, self.preempt, self.tasks, self.n, self.killed = ctx, preempt, [], 0, False
        self.main = threading.Semaphore(0)
        self.current = self.left = None
        hull = w.hull
        ctx.stub(alphashape.alphashape, lambda *a, **k: (self.switch(), hull(*a, **k))[1])
        ctx.stub(concurrent.futures.ThreadPoolExecutor, self.executor)
        ctx.stub(concurrent.futures.as_completed, lambda fs, *a, **k: self.completed(list(fs)))
        ctx.stub(concurrent.futures.wait, self.wait)

    def pick(self, options):
        self.n += 1
        return self.ctx.choose(f"schedule{self.n}", options) if len(options) > 1 else options[0]

    def executor(self, max_workers=8, *a, **k):
        return Executor(self, int(max_workers) if max_workers else 8)

    def runnable(self):
        out = []
        for e in {id(t.pool): t.pool for t in self.tasks}.values():
            ts = [t for t in self.tasks if t.pool is e and not t.done_]
            on = [t for t in ts if t.thread]
            out += on + [t for t in ts if not t.thread][:max(e.workers - len(on), 0)]
        return out

    def step(self):
        ts = self.runnable()
        if len(ts) > 1 and self.left in ts:
            ts.remove(self.left)
        self.left = None
        t = self.current = self.pick(ts)
        if t.thread is None:
            t.thread = threading.Thread(target=t.run, daemon=True)
            t.thread.start()
        t.go.release()
        self.main.acquire()
        self.current = None
        if t.done_ and t.error is not None and not isinstance(t.error, Exception):
            raise t.error

    def switch(self):
        t = self.current
        if t is None or threading.current_thread() is not t.thread or not self.preempt \
                or len(self.runnable()) < 2:
            return
        self.n += 1
        if bool(self.ctx.bool(f"preempt{self.n}")):
            self.preempt -= 1
            self.left = t
            self.main.release()
            t.go.acquire()
            if self.killed:
                raise Killed

    def watch(self, frame, event, arg):
        """Trace function of a task's thread."""
        path = frame.f_code.co_filename
        if not path.startswith(REPO):
            return None
        writes, stmts = shared_writes(path)
        lines = {k for _, _, k in frame.f_code.co_lines() if k}
        if not any(k in writes for k in lines):
            return None
        at = [None]

        def line(frame, event, arg):
            if event in ("line", "return"):
                now = stmts.get(frame.f_lineno) if event == "line" else None
                was, at[0] = at[0], now
                if now is not was and {id(now), id(was)} & {id(v) for v in writes.values()}:
                    self.switch()
            return line
        return line

    def completed(self, fs):
        while fs:
            done = [t for t in fs if t.done_]
            if not done:
                self.step()
                continue
            t = self.pick(done)
            fs.remove(t)
            yield t

    def wait(self, fs, *a, **k):
        for t in fs:
            t.result()
        return set(fs), set()

    def kill(self):
        self.killed = True
        for t in self.tasks:
            if t.thread and not t.done_:
                t.go.release()
                t.thread.join(10)


class Task:
    def __init__(self, s, pool, f, a, k):
        self.s, self.pool, self.f, self.a, self.k = s, pool, f, a, k
        self.thread = self.error = self.value = None
        self.done_, self.go = False, threading.Semaphore(0)

    def run(self):
        self.go.acquire()
        try:
            if not self.s.killed:
                if self.s.preempt:
                    sys.settrace(self.s.watch)
                self.value = self.f(*self.a, **self.k)
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
        self.done_ = True
        self.s.main.release()

    def result(self, *a):
        while not self.done_:
            self.s.step()
        if self.error is not None:
            raise self.error
        return self.value

    def done(self):
        return self.done_


class Executor:
    def __init__(self, s, workers):
        self.s, self.workers = s, workers

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def submit(self, f, *a, **k):
        t = Task(self.s, self, f, a, k)
        self.s.tasks.append(t)
        return t

    def map(self, f, *its, **k):
        return [t.result() for t in [self.submit(f, *a) for a in zip(*its)]]

    def shutdown(self, *a, **k):
        while any(t.pool is self and not t.done_ for t in self.s.tasks):
            self.s.step()
