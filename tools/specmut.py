#!/usr/bin/env python3
"""Are the specifications able to fail?  Every line below plants a mistake in a
copy of one module; TLC has to refuse the result, on the models that the quick
checks use.  (A development tool: no check runs it.)"""
import concurrent.futures as cf, shutil, subprocess, sys, tempfile
from pathlib import Path
sys.path.insert(0, str(Path(__file__).parent))
import plan

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = Path(__file__).parent.parent / 'spec'
A = ['a23', 'as8', 'ai5', 'ao22']
B = ['b24', 'bs9', 'bs2_12', 'bi7', 'bo23']
T2 = plan.THREAD_MODELS[0]

M = [
    # module, old, new, models
    ('CowHeap', 'IF ~Shared(S, id) THEN <<S, id>>', 'IF S.n[id].rc < 3 THEN <<S, id>>', A),
    ('CowHeap', 'ELSE <<IncAll(CopyCost(Dec(S, id), nd), KidsOf(nd)), nd>>', 'ELSE <<CopyCost(Dec(S, id), nd), nd>>', A),
    ('CowHeap', 'a == Alloc(IncAll(CopyCost(Dec(S, id), nd), KidsOf(nd)), nd)', 'a == Alloc(IncAll(CopyCost(S, nd), KidsOf(nd)), nd)', B),
    ('CowHeap', 'ELSE DecAll(Remove(S, id), KidsOf(S.n[id]))', 'ELSE Remove(S, id)', A + ['k24']),
    ('AvlTree', '!.n[b].l = a, !.n[b].lh = Ht(S1, a)]\n    IN <<S2, b, bal # 0>>', '!.n[b].l = a]\n    IN <<S2, b, bal # 0>>', A),
    ('AvlTree', 'IF Bal(S, S.n[root].l) <= 0', 'IF Bal(S, S.n[root].l) < 0', A),
    ('AvlTree', 'IF Bal(S, S.n[root].r) >= 0', 'IF Bal(S, S.n[root].r) > 0', A),
    ('AvlTree', 'ELSE <<S1, n, kv, sh /\\ b = 0>>\nAfterR', 'ELSE <<S1, n, kv, sh>>\nAfterR', A),
    ('AvlTree', 'IN IF sh /\\ b < -1 THEN', 'IN IF sh /\\ b < -2 THEN', A),
    ('AvlTree', 'ELSE <<S1, n, r[3], r[4] /\\ b < 0>>', 'ELSE <<S1, n, r[3], r[4]>>', A),
    ('AvlTree', 'm2 == MakeMut(m1[1], m1[1].n[a].r)\n        b == m2[2]\n        bal', 'm2 == <<m1[1], m1[1].n[a].r>>\n        b == m2[2]\n        bal', A),
    ('AvlTree', 'IF Ht(m[1], c) <= Ht(m[1], right) + 1', 'IF Ht(m[1], c) <= Ht(m[1], right) + 2', ['as8', 'as10', 'a24']),
    ('AvlTree', 'IN IF b < -1 THEN JoinRt', 'IN IF b < -2 THEN JoinRt', A),
    ('AvlTree', 'CASE w = 0 -> s[4] []', 'CASE w = 0 -> <<n.k, n.v>> []', 'values'),
    ('AvlTree', 'IF keepR THEN <<S, t2>> ELSE <<Dec(S, t2), 0>>', 'IF keepR THEN <<S, t2>> ELSE <<S, 0>>', A),
    ('AvlTree', 'IN <<Dec(j[1], id), j[2]>>', 'IN <<j[1], j[2]>>', A),
    ('AvlIter', 'ELSE IF Shared(S, id) THEN <<S, << <<"A", id>> >> >>', 'ELSE IF S.n[id].rc > 2 THEN <<S, << <<"A", id>> >> >>', A),
    ('AvlIter', 'CopyCost(Dec(Inc(Inc(S, n.l), n.r), id), n)', 'CopyCost(Dec(Inc(S, n.l), id), n)', A),
    ('AvlIter', 'SkipLo(b, k) == b[1] # 0 /\\ b[2] >= 2 * k', 'SkipLo(b, k) == b[1] # 0 /\\ b[2] > 2 * k - 2', A),
    ('AvlIter', 'T == IF mode = "mut" THEN MutR(MutL(S, id), id) ELSE S', 'T == IF mode = "mut" THEN MutL(S, id) ELSE S', A),
    ('BtNode', 'Len(S.n[n.k[at - 1]].e) > MaxOcc - Occ THEN RotRt', 'Len(S.n[n.k[at - 1]].e) >= Occ THEN RotRt', B),
    ('BtNode', 'IF at > 1\n', 'IF at > 2\n', B),
    ('BtNode', 'Len(n.e) - 1 < Occ>>\n       ELSE LET m == Own1(S, id, 1)', 'FALSE>>\n       ELSE LET m == Own1(S, id, 1)', B),
    ('BtNode', 'up == [n EXCEPT !.e = From(@, Occ + 2)', 'up == [n EXCEPT !.e = From(@, Occ + 1)', B),
    ('BtNode', 'up == [n EXCEPT !.e = From(@, Occ + 2), !.k = IF IsLeaf(n) THEN <<>> ELSE From(@, Occ + 2)]', 'up == [n EXCEPT !.e = From(@, Occ + 2), !.k = IF IsLeaf(n) THEN <<>> ELSE From(@, Occ + 1)]', B),
    ('BtNode', 'LET r == Own1(S, id, i + 1)\n        l == Own1(r[1], id, i)', 'LET r == <<S, S.n[id].k[i + 1]>>\n        l == Own1(r[1], id, i)', B),
    ('BtNode', 'ELSE LET m == Own1(S, id, z) IN After', 'ELSE LET m == <<S, S.n[id].k[z]>> IN After', B),
    ('BtNode', 't == Take(S1, n.k[i])', 't == <<Remove(S1, n.k[i]), S1.n[n.k[i]]>>', B),
    ('BtIter', 'IN IF Done1(y) THEN DescF(Release(n[1], y), <<n[2]>> \\o Tail(w), mode)', 'IN IF Done1(y) THEN DescF(n[1], <<n[2]>> \\o Tail(w), mode)', B),
    ('BtIter', '"equal" -> <<IF lo[1] = 1 THEN i ELSE i + 1, i + 1, FALSE, i>>', '"equal" -> <<IF lo[1] = 1 THEN i ELSE i + 1, i, FALSE, i>>', B),
    ('BtIter', 'lf |-> ~a[3] /\\ a[1] = a[2]', 'lf |-> ~a[3]', B),
    ('BtIter', 'lk == IF a[3] /\\ ks # <<>> THEN Head(ks) ELSE 0\n        p == IF a[3] THEN Work(S, lk, w, lo, IF both THEN hi ELSE None, mode)', 'lk == IF a[3] /\\ ks # <<>> THEN Head(ks) ELSE 0\n        p == IF a[3] THEN Work(S, lk, w, lo, None, mode)', B),
    ('StackCow', 'ELSE LET m == MakeMut(T, id)\n', 'ELSE LET m == <<T, id>>\n', ['k24']),
    ('StackCow', 'j == len[h] - 1 - i', 'j == IF len[h] - i > 1 THEN len[h] - 2 - i ELSE 0', ['k24']),
    ('StackCow', '[len EXCEPT ![h] = i, ![g] = j]', '[len EXCEPT ![h] = j, ![g] = i]', ['k24']),
    ('StackCow', 'Dec(Inc(S, root[h]), root[g]), Set1(root, g, root[h])', 'Inc(S, root[h]), Set1(root, g, root[h])', ['k24']),
    ('CowThreads', 'IF s.n[id].rc = 1 THEN', 'IF s.n[id].rc <= 2 THEN', 'threads'),
    ('CowThreads', 'THEN LET c == ks[Len(x[5]) + 1] IN Push(IncN(s, c), t,', 'THEN LET c == ks[Len(x[5]) + 1] IN Push(s, t,', 'threads'),
    ('CowThreads', 'IN IF u.n[x[2]].rc > 0 THEN u', 'IN IF u.n[x[2]].rc > 1 THEN u', 'threads'),
    ('CowThreads', 'ELSE IF nd.rc > 1 THEN Push(s, t, << <<"next", << <<"A", x[2]>> >> \\o x[3], x[4]>> >>)', 'ELSE IF nd.rc > 2 THEN Push(s, t, << <<"next", << <<"A", x[2]>> >> \\o x[3], x[4]>> >>)', 'threads'),
    ('CowThreads', '[] h[1] = "A" -> Push(IncN(s, s.n[h[2]].kids[1]), t,', '[] h[1] = "A" -> Push(s, t,', 'threads'),
    ('CowThreads', '<< <<"dec", x[2]>>, <<"next", ((A(x[3])', '<< <<"next", ((A(x[3])', 'threads'),
    ('Dict', 'Below(s, x) == SubSeq(s, 1, Rank(s, x))', 'Below(s, x) == SubSeq(s, 1, Rank(s, x) + 1)', A),
]


def run(d, module, consts, kind):
    cfg = d / 'm.cfg'
    if kind == 'threads':
        cfg.write_text('INIT Init\nNEXT Next\nVIEW View\nINVARIANT Good\nCHECK_DEADLOCK FALSE\nCONSTANTS ' + ' '.join(f'{k}={v}' for k, v in dict(consts, Fine='TRUE', Emit='FALSE').items()) + '\n')
    else:
        cfg.write_text('INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\nCONSTANTS ' + ' '.join(f'{k}={v}' for k, v in consts.items()) + ' Emit=FALSE\n')
    r = subprocess.run(['java', '-Xss256m', '-Xmx3g', '-XX:+UseSerialGC', f'-Djava.io.tmpdir={d}', '-cp', CP, 'tlc2.TLC', '-workers', '1', '-metadir', str(d / 'md'), '-noTE', '-config', 'm.cfg', module + '.tla'],
                       cwd=d, capture_output=True, text=True, timeout=600)
    if 'Parsing or semantic' in r.stdout:
        return 'does not parse'
    if 'No error has been found' in r.stdout:
        return None
    i = r.stdout.find('Error:')
    return r.stdout[i:i + 120].replace('\n', ' ')


def one(m):
    module, old, new, models = m
    text = (SPEC / (module + '.tla')).read_text()
    if text.count(old) < 1:
        return m, 'NOT FOUND'
    if models == 'values':
        todo = [('AvlCow', dict(plan.avl(2, 3)[1], Vals='{0, 1}'), '')]
    elif models in ('threads', 'none'):
        todo = [('CowThreads', c, 'threads') for c in (T2 if models == 'threads' else T2[:1])]
    else:
        todo = [(*plan.SPECS[g], g) for g in models]
    for mod, consts, kind in todo:
        with tempfile.TemporaryDirectory() as t:
            d = Path(t)
            for f in SPEC.glob('*.tla'):
                shutil.copy(f, d)
            (d / (module + '.tla')).write_text(text.replace(old, new, 1))
            r = run(d, mod, consts, kind)
            if r:
                return m, f'refused by {kind if kind != "threads" else consts["Tree"]}: {r}'
    return m, 'ACCEPTED'


if __name__ == '__main__':
    with cf.ThreadPoolExecutor(int(sys.argv[1]) if len(sys.argv) > 1 else 4) as ex:
        for m, r in ex.map(one, M):
            print(f'{m[0]:11} {m[1].strip()[:60]!r:64} {r}', flush=True)
