"""Lock-region and delivery typestate of the chunking queue: an automaton over all paths of every method (helpers inlined) tracks whether
the cache lock is held, how often the item was stored, and whether the cache is waiting, on the queue, or swapped out. Violations: cache
touched or written without the lock, lock taken twice, item stored not exactly once, cache emptied before it was put on the queue whole,
cleared in place after it was put by reference, left behind after being put, item not appended at the end, caching without caching mode,
chunk handed over before it is full or blocking hand-over missing."""
from sa.core import *

TECHNIQUE = 'lockset and typestate automaton over the event graph of the queue class'
ASSUMPTIONS = ['queue.Queue.put either stores its argument or raises Full', 'with-blocks release their lock on every exit']
CACHE, LOCK, FAST = sattr('cache'), sattr('cache_lock'), sattr('fast_func')


def is_cache(t):
    return norm_term(t) is CACHE


def copies(t):
    t = norm_term(t)
    return t is not CACHE and contains(t, lambda x: x is CACHE)


def empty(t):
    t = norm_term(t)
    return t.op == 'new' and t.args[0] in ('list', 'deque') or t.op == 'list' and not t.args


def qput(e):
    """A put on the underlying queue: (argument, may it fail) or None."""
    if e.kind != 'call' or e.name not in ('put', 'put_nowait') or e.recv is None:
        return None
    a = list(e.args)
    if e.recv.op == 'ext' or show(e.recv).startswith(('queue.Queue', 'ext(queue')):
        a = a[1:]
    elif 'super' not in show(e.recv):
        return None
    kw = e.kwd()
    item = a[0] if a else kw.get('item')
    block = a[1] if len(a) > 1 else kw.get('block', TRUE)
    tmo = a[2] if len(a) > 2 else kw.get('timeout', NONE)
    fails = e.name == 'put_nowait' or block is not TRUE or tmo is not NONE
    return item, fails


def check(c):
    k = c.cls('ChunkingQueue')
    names = [n for n in ('put', 'put_nowait', 'put_incache', 'flush', 'has_cache') if c.p.find_method(k, n)]
    c.need('queue operations', len(names), 5)
    extra = [n for n in k.methods if n not in names and not n.startswith('_')]
    ig = c.graph(k, '__init__', inline='*')
    for kind, n, v, s in ig.exits:
        c.ob('starts empty', 'ChunkingQueue.__init__', final(s, 'cache') is not None and empty(final(s, 'cache')) and
             final(s, 'fast_func') is FALSE, ig.func.file, 'the queue does not start with an empty cache and caching off')
        lk = final(s, 'cache_lock')
        c.ob('one lock', 'ChunkingQueue.__init__', lk is not None and lk.op == 'call' and 'Lock' in lk.args[0], ig.func.file,
             f'the cache lock is {show(lk) if lk is not None else "missing"}')
    for name in names + extra:
        g = c.graph(k, name, inline='*')
        item = next((T('sym', a.arg) for a in g.func.node.args.args[1:] if a.arg == 'item'), None)
        if name in ('put', 'put_nowait', 'put_incache') and item is None:
            raise AnalysisBroken(f'ChunkingQueue.{name} has no item')
        exits = {n: (kind, s) for kind, n, v, s in g.exits}
        reent = contains_rlock(ig)

        def step(q, n, e):
            lock, stored, cache, fast = q
            if e.kind == 'enter' and e.recv is not None and norm_term(e.recv) is LOCK or \
                    e.kind == 'call' and e.name in ('acquire', '__enter__') and e.recv is not None and norm_term(e.recv) is LOCK:
                if lock and not reent:
                    return '!', 'the cache lock is taken while it is held (the thread blocks itself)'
                return lock + 1, stored, cache, fast
            if e.kind == 'leave' and e.recv is not None and norm_term(e.recv) is LOCK or \
                    e.kind == 'call' and e.name in ('release', '__exit__') and e.recv is not None and norm_term(e.recv) is LOCK:
                if cache == 'onqueue':
                    return '!', 'the cache stays behind after it was put on the queue (delivered twice)'
                if cache == 'swapped':
                    return '!', 'the cache was replaced without being put on the queue'
                return max(0, lock - 1), stored, 'idle', fast
            p = qput(e)
            if p is not None:
                x, fails = p
                x = norm_term(x)
                if item is not None and x.op == 'list' and x.args == (item,):
                    return lock, stored + 1, cache, fast
                if x.op == 'old' and x.args[0] is CACHE or contains(x, lambda y: y.op == 'old' and y.args[0] is CACHE):
                    if cache != 'swapped':
                        return '!', f'puts {show(x)}'
                    if fails:
                        return '!', 'items taken out of the cache are lost if the queue is full'
                    return lock, stored, 'idle', fast
                if x is CACHE or copies(x):
                    if not lock:
                        return '!', 'the cache is put on the queue without holding its lock'
                    if x.op == 'slice' and not (x.args[1] is NONE and x.args[2] is NONE):
                        return '!', f'only a part of the cache is put on the queue: {show(x)}'
                    extra_item = item is not None and contains(x, lambda y: y is item)
                    return lock, stored + (1 if extra_item else 0), 'onqueue' if x is CACHE else 'copied', fast
                return '!', f'puts {show(x)} on the queue, which is neither the item as a chunk nor the cache'
            if e.kind == 'exc' and e.name in ('put', 'put_nowait'):
                return q
            if e.kind == 'call' and e.recv is not None and is_cache(e.recv):
                if not lock:
                    return '!', f'cache.{e.name} without holding the cache lock'
                if e.name == 'append' or e.name == 'extend':
                    if item is None or not any(contains(norm_term(a), lambda y: y is item) for a in e.args):
                        return '!', f'cache.{e.name} of something else than the item'
                    if cache in ('onqueue', 'copied'):
                        return '!', 'the item is appended to a chunk which is already on the queue'
                    return lock, stored + 1, cache, fast
                if e.name == 'clear':
                    if cache == 'onqueue':
                        return '!', 'the cache is cleared in place although the same list was put on the queue'
                    if cache != 'copied':
                        return '!', 'the cache is emptied before it was put on the queue'
                    return lock, stored, 'idle', fast
                if e.name in ('insert', 'pop', 'remove', 'reverse', 'sort', 'appendleft', 'popleft'):
                    return '!', f'cache.{e.name} changes order or content of the cache'
            if e.kind == 'store' and e.name == 'cache' and norm_term(e.recv) is CACHE.args[0] or e.kind == 'store' and e.target is not None and \
                    False:
                if not lock:
                    return '!', 'the cache is replaced without holding its lock'
                v = norm_term(e.value)
                if empty(v):
                    if cache in ('onqueue', 'copied'):
                        return lock, stored, 'idle', fast
                    if cache == 'swapped':
                        return '!', 'the cache is emptied twice'
                    return lock, stored, 'swapped', fast
                if item is not None and contains(v, lambda y: y is item) and (v.op in ('concat', 'list', 'poly', 'tuple') or True) and \
                        contains(v, lambda y: y is CACHE):
                    return lock, stored + 1, cache, fast
                return '!', f'the cache becomes {show(v)}'
            if e.kind in ('storeidx', 'delidx', 'del') and e.recv is not None and is_cache(e.recv):
                if cache == 'copied' and lock:
                    return lock, stored, 'idle', fast
                return '!', 'entries of the cache are removed or changed in place'
            if e.kind == 'store' and e.name == 'fast_func' and norm_term(e.recv) is CACHE.args[0]:
                if norm_term(e.value) is TRUE:
                    return lock, stored, cache, True
                return '!', 'caching is switched off while the cache may hold items'
            if n in exits:
                kind, s = exits[n]
                if lock and any(x.kind == 'call' and x.name == 'acquire' for x in g.ev if x is not None):
                    return '!', 'the cache lock is still held at the end'
                if cache in ('onqueue', 'swapped') and kind == 'return':
                    return '!', 'the cache and the queue disagree at the end'
                if item is not None and kind == 'return' and name in ('put', 'put_nowait', 'put_incache') and stored != 1:
                    return '!', f'the item is stored {stored} times'
                if item is not None and kind == 'raise' and stored > 1:
                    return '!', f'the item is stored {stored} times'
            return q
        run_automaton(c, 'exactly once under the lock', f'ChunkingQueue.{name}', g, (0, 0, 'idle', False), step)
        # items are only cached in caching mode, which flush relies on
        for kind, n, v, s in g.exits:
            app = [x for x in N(g, lambda e: e.kind == 'call' and e.name in ('append', 'extend') and e.recv is not None and is_cache(e.recv))
                   if g.path([x], [n])]
            if app and kind == 'return':
                on = final(s, 'fast_func') is TRUE or entails(norm_facts(s.facts), truth(FAST)) or \
                    all(entails(facts_at(g, x), truth(FAST)) or g.st[x].heap.get((T('sym', 'self'), 'fast_func')) is TRUE for x in app) or \
                    all(fast_after(g, x, n) for x in app)
                c.ob('caching mode on when items are cached', f'ChunkingQueue.{name}', on, g.func.file,
                     'an item is cached without switching caching on, so it is never flushed')
        if name == 'put_nowait':
            full = c.formula('len(self.cache) >= self.chunk_size', k)
            puts = N(g, lambda e: qput(e) is not None and (is_cache(qput(e)[0]) or copies(qput(e)[0])))
            c.ob('chunks are handed over', 'ChunkingQueue.put_nowait', puts, g.func.file, 'the cache is never put on the queue when full')
            for n in puts:
                c.ob('chunk is full when handed over', 'ChunkingQueue.put_nowait', entails(ordered(facts_at(g, n), full), full), g.ev[n].where,
                     'the cache is put on the queue before chunk_size items are in it')
                c.ob('full cache waits for the queue', 'ChunkingQueue.put_nowait', not qput(g.ev[n])[1], g.ev[n].where,
                     'a full cache is put without waiting: Full is raised to the optimizer')
            for kind, n, v, s in g.exits:
                if kind == 'return' and entails(norm_facts(s.facts), truth(FAST)) and not any(g.path([x], [n]) for x in puts):
                    f = norm_facts(s.facts)
                    c.ob('full cache is handed over', 'ChunkingQueue.put_nowait', entails(ordered(f, full), mk_not(full)), g.func.file,
                         'a cache with chunk_size items is not put on the queue')
            first = N(g, lambda e: qput(e) is not None and qput(e)[0].op == 'list')
            c.need('direct puts', len(first))
            for n in first:
                e = g.ev[n]
                c.ob('first attempt does not block', 'ChunkingQueue.put_nowait', qput(e)[1], e.where, 'put_nowait waits for the queue')
            c.ob('full queue starts the cache', 'ChunkingQueue.put_nowait', N(g, lambda e: e.kind == 'catch' and e.name in ('Full', 'queue.Full', 'Exception')),
                 g.func.file, 'a full queue raises instead of starting the cache')
        if name == 'flush':
            for kind, n, v, s in g.exits:
                if kind == 'return' and satisfiable(norm_facts(s.facts), mk_and([truth(FAST), truth(CACHE)])):
                    puts = N(g, lambda e: qput(e) is not None and (is_cache(qput(e)[0]) or copies(qput(e)[0])))
                    sw = N(g, lambda e: qput(e) is not None and contains(norm_term(qput(e)[0]), lambda y: y.op == 'old'))
                    c.ob('flush empties the cache', 'ChunkingQueue.flush', any(g.path([x], [n]) for x in puts + sw), g.func.file,
                         'flush may leave items in the cache')
        if name == 'has_cache':
            lk = N(g, lambda e: e.recv is not None and norm_term(e.recv) is LOCK and (e.kind == 'enter' or e.name == 'acquire'))
            for kind, n, v, s in g.exits:
                if kind == 'return':
                    c.ob('read under the lock', 'ChunkingQueue.has_cache', not not_preceded(g, lk, [n]), g.func.file, 'reads the cache without its lock')
                    c.ob('reports the cache', 'ChunkingQueue.has_cache', entails(norm_facts(s.facts), iff(truth(nv(v)), truth(CACHE))), g.func.file,
                         f'has_cache returns {show(nv(v))}')
    # nobody else touches the cache
    out = []
    for f in c.p.all_funcs():
        if f.cls is k or f.module.name.startswith('tests'):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in ('cache', 'cache_lock') and isinstance(x.value, ast.Attribute) and \
                    x.value.attr in ('optimizer_queue', '_results_queue'):
                out.append(f.qual)
    c.ob('cache is private', 'project', not out, '', f'the cache of the queue is used outside it in {out}')


def fast_after(g, x, n):
    on = N(g, lambda e: e.kind == 'store' and e.name == 'fast_func' and norm_term(e.value) is TRUE)
    return not not_followed(g, [x], on, [n]) or not not_preceded(g, on, [x]) or any(g.path([o], [x]) for o in on)


def contains_rlock(ig):
    return any('RLock' in show(final(s, 'cache_lock') or NONE) for k, n, v, s in ig.exits)
