"""What each check runs."""
ASSUMPTIONS = [
    'single process, the element types of /verif/driver/src/elem.rs (integer keys in two sizes, counted and tagged instances)',
    'the driver observes collections through their public API only',
]


def M(name, module=None, cfg=None, **kw):
    return dict(name=name, module=(module or name) + '.tla', cfg=(cfg or name) + '.cfg', **kw)


LAW = {k: M('MCDict_' + k, 'MCDict') for k in ('point', 'bulk', 'range', 'order')}
MODELS = {
    'C01': [LAW['point']], 'C03': [LAW['bulk']], 'C05': [LAW['range']], 'C06': [LAW['bulk']], 'C12': [LAW['order']],
    'C11': {'quick': [M('MCDeep_q', 'MCDeep')], 'thorough': [M('MCDeep', workers=4, heap='6g')]},
    'C17': [LAW['point']], 'C18': [LAW['point'], LAW['range']], 'C19': [LAW['point']], 'C16': [LAW['point']],
}


def P(aspects, random=(12000, 80000), **kw):
    return dict(aspects=aspects.split(), random=random, **kw)


PLAN = {
    'C01': P('SEM'),
    'C02': P('CUR'),
    'C03': P('SEM'),
    'C04': P('SEM CUR SIZE'),
    'C05': P('SEM'),
    'C06': P('SEM'),
    'C07': P('CMP CHECK'),
    'C08': P('CLONE LIVE'),
    'C09': P('LIVE FAULT'),
    'C10': P('SEM CUR'),
    'C11': P('', spec='DeepTrace', random=(500, 4000), thorough_args=['--depth', 400000, '--stack', 192 << 10],
             assumptions=['100 000 elements (thorough: 400 000) in a thread with a call stack of 128 KB (192 KB)']),
    'C12': P('SEM'),
    'C13': P('SEM LIVE FAULT CHECK'),
    'C14': P('SEM CUR FAULT CHECK'),
    'C15': P('SEM CUR FAULT CHECK', binary='threads', profile=False),
    'C16': P('SEM CUR SIZE CMP CHECK LIVE FAULT'),
    'C17': P('SEM'),
    'C18': P('SEM'),
    'C19': P('SEM'),
}


# ------------------------------------------------- structural specifications
def cow(module, **c):
    if module != 'StackCow':
        c = {'Iters': '{}', 'IterMax': 0, **c}
    return module, {k: str(v) if not isinstance(v, bool) else str(v).upper() for k, v in c.items()}


def avl(nh, k):
    return cow('AvlCow', NH=nh, K=k, MaxLen=k, Vals='{0}', Shape=False, Bulk=True)


def avl_shape(n):
    return cow('AvlCow', NH=1, K=0, MaxLen=n, Vals='{0}', Shape=True, Bulk=True)


def bt(occ, nh, k):
    return cow('BtCow', Occ=occ, NH=nh, K=k, MaxLen=k, Vals='{0}', Shape=False, Bulk=True)


def bt_shape(occ, n, bulk=True):
    return cow('BtCow', Occ=occ, NH=1, K=0, MaxLen=n, Vals='{0}', Shape=True, Bulk=bulk)


# iterators: over every shape up to a length, and beside operations on the other handles
OVER = '{"ref", "mut", "arc", "uni", "range", "rmut"}'
BESIDE = '{"mut", "own", "rmut"}'


def avl_iter(n):
    return cow('AvlCow', NH=1, K=0, MaxLen=n, Vals='{0}', Shape=True, Bulk=False, Iters=OVER, IterMax=n)


def avl_beside(nh, k):
    return cow('AvlCow', NH=nh, K=k, MaxLen=k, Vals='{0}', Shape=False, Bulk=False, Iters=BESIDE, IterMax=k)


def bt_iter(occ, n, least=0):
    return cow('BtCow', Occ=occ, NH=1, K=0, MaxLen=n, Vals='{0}', Shape=True, Bulk=False, Iters=OVER, IterMax=n)


def bt_beside(occ, nh, k):
    return cow('BtCow', Occ=occ, NH=nh, K=k, MaxLen=k, Vals='{0}', Shape=False, Bulk=False, Iters=BESIDE, IterMax=k)


# the fixed-capacity map: the code has occ = 5
def fx(occ, nh, k):
    return cow('FxCow', Occ=occ, NH=nh, K=k, MaxLen=k, Vals='{0}', Shape=False)


def fx_shape(occ, n):
    return cow('FxCow', Occ=occ, NH=1, K=0, MaxLen=n, Vals='{0}', Shape=True)


def fx_iter(occ, n):
    return cow('FxCow', Occ=occ, NH=1, K=0, MaxLen=n, Vals='{0}', Shape=True, Iters=OVER, IterMax=n)


def fx_beside(occ, nh, k):
    return cow('FxCow', Occ=occ, NH=nh, K=k, MaxLen=k, Vals='{0}', Shape=False, Iters=BESIDE, IterMax=k)


def stack(nh, n):
    return cow('StackCow', NH=nh, MaxLen=n)


SPECS = {
    'a23': avl(2, 3), 'a24': avl(2, 4), 'a25': avl(2, 5), 'a33': avl(3, 3),
    'as8': avl_shape(8), 'as10': avl_shape(10), 'as12': avl_shape(12), 'as14': avl_shape(14),
    'b24': bt(1, 2, 4), 'b25': bt(1, 2, 5), 'b26': bt(1, 2, 6), 'b34': bt(1, 3, 4),
    'b2_27': bt(2, 2, 7),
    'bs9': bt_shape(1, 9), 'bs12': bt_shape(1, 12), 'bs14': bt_shape(1, 14),
    'bs2_12': bt_shape(2, 12), 'bs2_18': bt_shape(2, 18),
    'bs3_20': bt_shape(3, 20), 'bs5_26': bt_shape(5, 26, False), 'bs5_32': bt_shape(5, 32),
    'ai4': avl_iter(4), 'ai5': avl_iter(5), 'ai6': avl_iter(6), 'ai7': avl_iter(7), 'ai8': avl_iter(8), 'ai10': avl_iter(10),
    'ao22': avl_beside(2, 2), 'ao23': avl_beside(2, 3), 'ao24': avl_beside(2, 4),
    'bi5': bt_iter(1, 5), 'bi7': bt_iter(1, 7), 'bi9': bt_iter(1, 9), 'bi11': bt_iter(1, 11), 'bi2_9': bt_iter(2, 9), 'bi2_12': bt_iter(2, 12),
    'bo23': bt_beside(1, 2, 3), 'bo24': bt_beside(1, 2, 4), 'bo25': bt_beside(1, 2, 5),
    'f24': fx(1, 2, 4), 'f25': fx(1, 2, 5), 'f26': fx(1, 2, 6), 'f2_27': fx(2, 2, 7), 'f34': fx(1, 3, 4),
    'fs12': fx_shape(1, 12), 'fs14': fx_shape(1, 14), 'fs2_18': fx_shape(2, 18), 'fs5_24': fx_shape(5, 24), 'fs5_26': fx_shape(5, 26), 'fs5_30': fx_shape(5, 30),
    'fi7': fx_iter(1, 7), 'fi9': fx_iter(1, 9), 'fi2_12': fx_iter(2, 12), 'fi5_12': fx_iter(5, 12), 'fi5_13': fx_iter(5, 13), 'fi5_18': fx_iter(5, 18),
    'fo23': fx_beside(1, 2, 3), 'fo24': fx_beside(1, 2, 4), 'fo5_22': fx_beside(5, 2, 2), 'fo5_23': fx_beside(5, 2, 3),
    'k24': stack(2, 4), 'k26': stack(2, 6), 'k33': stack(3, 3), 'k34': stack(3, 4),
}


def tour(*l):
    """'graph type kind sample' -> tuples; sample 0: every transition"""
    r = []
    for x in l:
        g, ty, kind, n = x.split()
        r.append((g, ty, kind, int(n), 1.0))
    return r


MAP_Q = ['a23 map avl 900', 'as8 map avl 900', 'b24 map bt1 700', 'bs9 map bt1 700', 'bs2_12 map bt2 700', 'bs5_26 map bt5 400']
SET_Q = ['a23 set avls 900', 'as8 set avls 700', 'b24 set bts1 900', 'bs9 set bts1 600', 'bs2_12 set bts2 600', 'bs5_26 set bts5 300']
K_Q = ['k24 stack stack 0']
MAP_T = ['a25 map avl 0', 'a33 map avl 60000', 'as12 map avl 0', 'as14 map avl 40000', 'b26 map bt1 0', 'b34 map bt1 60000', 'bs14 map bt1 0', 'b2_27 map bt2 60000',
         'bs2_18 map bt2 0', 'bs3_20 map bt3 0', 'bs5_32 map bt5 30000']
SET_T = ['a25 set avls 100000', 'as12 set avls 0', 'b26 set bts1 60000', 'bs12 set bts1 0', 'bs2_18 set bts2 0', 'bs5_26 set bts5 0']
K_T = ['k26 stack stack 0', 'k34 stack stack 60000']
FX_Q = ['fs5_26 map fx 1500', 'fs5_26 map fxb 1200', 'fi5_12 map fx 900', 'fi5_13 map fxb 600', 'fo5_22 map fx 300']
FX_T = ['fs5_30 map fx 0', 'fs5_30 map fxb 0', 'fi5_18 map fx 0', 'fi5_18 map fxb 0', 'fo5_22 map fx 0', 'fo5_23 map fxb 60000']
# the fixed map's algorithms at sizes the code cannot be set to: model checking only
MODEL_ONLY = {'C16': (['f24', 'fs12', 'fi7'], ['f26', 'f2_27', 'f34', 'fs14', 'fs2_18', 'fi9', 'fi2_12', 'fo23']),
              'C09': (['fo23'], ['fo24'])}


def half(l):
    return [' '.join(x.split()[:3] + [str(int(x.split()[3]) // 2 or (30000 if x.split()[0] in ('a25', 'b26', 'k34') else 0))]) for x in l]


BULK_Q = ['a24 map avl 3000', 'b24 map bt1 1200', 'bs9 map bt1 700', 'bs2_12 map bt2 700', 'as8 map avl 900']
TOURS = {
    'C01': (MAP_Q, MAP_T), 'C02': (half(MAP_Q + SET_Q) + K_Q, MAP_T + half(SET_T) + K_T), 'C03': (BULK_Q, MAP_T),
    'C04': (half(MAP_Q + SET_Q) + K_Q, half(MAP_T + SET_T) + K_T), 'C05': (half(MAP_Q + SET_Q), half(MAP_T + SET_T)),
    'C06': (SET_Q, SET_T), 'C07': (half(MAP_Q + SET_Q), half(MAP_T + SET_T)), 'C08': (half(MAP_Q + SET_Q) + K_Q, half(MAP_T + SET_T) + K_T),
    'C09': (half(MAP_Q + SET_Q) + K_Q, half(MAP_T + SET_T) + K_T), 'C10': (K_Q, K_T), 'C12': (half(MAP_Q + SET_Q), half(MAP_T + SET_T)),
    'C13': (half(MAP_Q + SET_Q), half(MAP_T + SET_T)), 'C14': (half(MAP_Q + SET_Q) + ['fs5_26 map fx 200'], half(MAP_T + SET_T) + ['fs5_26 map fx 0']),
    'C16': (FX_Q, FX_T), 'C17': (MAP_Q, MAP_T), 'C18': (MAP_Q + K_Q, half(MAP_T) + K_T), 'C19': (SET_Q, SET_T),
}


IT_Q = ['ai6 map avl 1200', 'bi7 map bt1 1200', 'bi2_9 map bt2 1200']
IT_SET_Q = ['ai5 set avls 600', 'bi7 set bts1 600']
IT_T = ['ai8 map avl 0', 'ai10 map avl 60000', 'bi9 map bt1 0', 'bi11 map bt1 60000', 'bi2_12 map bt2 0']
IT_SET_T = ['ai7 set avls 0', 'bi9 set bts1 0', 'bi2_9 set bts2 0']
BE_Q = ['ao22 map avl 1500', 'bo23 map bt1 1500']
BE_T = ['ao23 map avl 0', 'bo24 map bt1 100000', 'bo23 map bt2 0', 'ao22 set avls 0', 'bo23 set bts1 0']
FXI_Q = ['fs5_26 map fx 300', 'fs5_26 map fxb 300', 'fi5_12 map fx 400']
FXI_T = ['fs5_26 map fx 0', 'fs5_26 map fxb 0', 'fi5_18 map fx 0', 'fi5_13 map fxb 0']
for _p in ('C02', 'C08'): # a deletion that rotates a shared sibling needs four keys
    TOURS[_p] = (TOURS[_p][0] + ['a24 map avl 1500'], TOURS[_p][1])
for _p in ('C02', 'C04', 'C09', 'C18'):
    TOURS[_p] = (TOURS[_p][0] + FXI_Q[:3 if _p in ('C04', 'C18') else 2], TOURS[_p][1] + FXI_T[:4 if _p in ('C04', 'C18') else 2])
for _p, (_q, _t) in {'C04': (IT_Q + IT_SET_Q, IT_T + IT_SET_T), 'C05': (IT_Q + IT_SET_Q, IT_T + IT_SET_T), 'C18': (IT_Q, IT_T), 'C09': (BE_Q, BE_T), 'C02': (BE_Q, BE_T),
                     'C08': (BE_Q, BE_T)}.items():
    TOURS[_p] = (TOURS[_p][0] + _q, TOURS[_p][1] + _t)


def case(kind, nk, nv, nl):
    return {'Kind': f'"{kind}"', 'NK': str(nk), 'NV': str(nv), 'NL': str(nl)}


# cases, by name: what Cases.tla enumerates
CASE = {
    'sets4': case('sets', 4, 1, 0), 'sets6': case('sets', 6, 1, 0), 'maps3': case('maps', 3, 2, 0), 'maps4': case('maps', 4, 2, 0),
    'stacks3': case('stacks', 0, 2, 3), 'stacks4': case('stacks', 0, 2, 4), 'de3': case('de', 3, 0, 3), 'de5': case('de', 3, 0, 5), 'de4': case('de', 4, 0, 4),
    'entry4': case('entry', 4, 1, 0), 'entry6': case('entry', 6, 1, 0), 'ends4': case('ends', 4, 1, 0), 'ends6': case('ends', 6, 1, 0),
}
REL_Q = ['maps3 map avl 100', 'maps3 map bt1 150', 'maps3 map bt2 100', 'stacks3 stack stack 0', 'sets4 set avls 60', 'sets4 set bts1 60']
REL_T = ['maps4 map avl 0', 'maps4 map bt1 0', 'maps4 map bt2 0', 'stacks4 stack stack 0', 'sets6 set avls 0', 'sets6 set bts1 0']
CASES = {
    'C06': (['sets4 set avls 0', 'sets4 set bts1 0', 'sets4 set bts2 100'], ['sets6 set avls 0', 'sets6 set bts1 0', 'sets6 set bts2 0', 'sets6 set bts5 0']),
    'C10': (['stacks3 stack stack 0'], ['stacks4 stack stack 0']),
    'C12': (REL_Q, REL_T),
    'C03': (['maps3 map avl 150', 'maps3 map bt1 150'], ['maps4 map avl 0', 'maps4 map bt1 0', 'maps4 map bt2 0']),
    'C13': (['de3 map avl 500', 'de3 map bt1 500', 'de3 map bt2 300', 'de3 set avls 300', 'de3 set bts1 300'],
            [f'{d} {x} 0' for d in ('de4', 'de5') for x in ('map avl', 'map bt1', 'map bt2', 'map bt5', 'set avls', 'set bts1', 'set bts2')]),
    'C17': (['entry4 map avl 400', 'entry4 map bt1 400', 'entry4 map bt2 250', 'ends4 map avl 200', 'ends4 map bt1 200'],
            [f'{d} map {k} 0' for d in ('entry6', 'ends6') for k in ('avl', 'bt1', 'bt2', 'bt5')]),
}


def cases(l):
    r = []
    for x in l:
        n, ty, kind, k = x.split()
        r.append((n, CASE[n], ty, kind, int(k)))
    return r


# threads: CowThreads.tla, at every step (the protocol) and at the switch points (schedules to replay)
A_P = '"getmut1", "insert3", "get1", "drop0", "into9", "into1"'
B_P = '"getmut1", "insert3", "get1", "drop0"'


def thr(tree, nt, progs, keep=False):
    return {'Tree': f'"{tree}"', 'NT': str(nt), 'Keep': str(keep).upper(), 'Progs': '{%s}' % progs}


THREAD_MODELS = ([thr('a2', 2, A_P), thr('b4', 2, B_P), thr('a1', 3, '"getmut1", "drop0", "into1"')],
                 [thr('a3', 2, A_P + ', "getmut2", "into2"'), thr('a4', 2, A_P + ', "getmut4", "into2"'), thr('b6', 2, B_P + ', "getmut5"'),
                  thr('a3', 2, A_P, True), thr('a2', 3, '"getmut1", "drop0", "into1"'), thr('b4', 3, '"getmut1", "drop0"')])
THREAD_PLANS = ([(thr('a3', 2, A_P), 240), (thr('a2', 2, A_P, True), 80), (thr('b4', 2, B_P), 160), (thr('a1', 3, '"getmut1", "drop0", "into1"'), 80)],
                [(thr('a3', 2, A_P + ', "getmut2", "into2"'), 30000), (thr('a4', 2, A_P + ', "getmut4", "into2"'), 20000), (thr('a3', 2, A_P, True), 8000),
                 (thr('b4', 2, B_P), 12000), (thr('b6', 2, B_P + ', "getmut5"'), 12000), (thr('b3', 2, B_P), 5000),
                 (thr('a2', 3, '"getmut1", "drop0", "into1"'), 12000)])


def execute(rt, ctx, p):
    m = MODELS.get(ctx.pid, [LAW['point']])
    if isinstance(m, dict):
        m = m[ctx.tier]
    rt.run_models(ctx, [dict(x) for x in m])
    jobs = []
    if ctx.pid in TOURS:
        thorough = ctx.tier == 'thorough'
        jobs += rt.make_tours(ctx, tour(*TOURS[ctx.pid][thorough]), SPECS, cases(CASES[ctx.pid][thorough]) if ctx.pid in CASES else ())
    if ctx.pid in MODEL_ONLY:
        rt.make_graphs(ctx, {g: SPECS[g] for g in MODEL_ONLY[ctx.pid][ctx.tier == 'thorough']}, emit=False)
    binary = p.get('binary', 'driver')
    if binary != 'driver':
        rt.build(binary)
    if ctx.pid == 'C15':
        thorough = ctx.tier == 'thorough'
        jobs += rt.make_threads(ctx, THREAD_MODELS[thorough], THREAD_PLANS[thorough])
        jobs += [(f'race{i}', ['--seed', ctx.seed, '--shard', i, '--shards', rt.JOBS, '--budget', 1, '--races', ctx.size(120, 900), '--rounds', ctx.size(60, 200)])
                 for i in range(rt.JOBS)]
    b = ctx.size(*p['random'])
    for i in range(rt.JOBS):
        jobs.append((f'random{i}', ([ctx.pid] if p.get('profile', True) else []) + ['--seed', ctx.seed, '--shard', i, '--shards', rt.JOBS, '--budget', b] + (p.get('thorough_args', []) if ctx.tier == 'thorough' else [])))
    rt.check_traces(ctx, jobs, p['aspects'], p.get('spec', 'Trace'), binary)
