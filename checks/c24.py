"""C24: distillation losses equal their definitions."""
import torch

import mmrazor.models  # noqa: F401
from mmrazor.registry import MODELS

from .common import Task

INFO = dict(
    bounds='every loss at shapes of up to 3 samples, 3 classes or channels '
    'and 4 positions; arbitrary predictions, weights, temperatures, margins '
    'and multipliers (symbolic reals), every label and every reduction',
    outside='floating point rounding; exp and log are uninterpreted up to '
    'their laws for sums and products, square roots are exact roots; '
    'several processes; gradients of the losses; soft_cross_entropy of '
    'mmcls is executed as is')


def build(name, **kw):
    return MODELS.build(dict(type=name, **kw))


def rows(t):
    return [t[i] for i in range(t.shape[0])]


def soft(row):
    """definition of softmax of a vector"""
    e = [x.exp() for x in row]
    s = sum(e)
    return [x / s for x in e]


def logsoft(row):
    s = sum(x.exp() for x in row).log()
    return [x - s for x in row]


def kl_rows(s, t, tau):
    """elements t (log t - log s) of every row"""
    out = []
    for a, b in zip(rows(s), rows(t)):
        ls, lt, pt = (logsoft(a / tau), logsoft(b / tau), soft(b / tau))
        out.append([p * (y - x) for p, x, y in zip(pt, ls, lt)])
    return out


def reduce(el, how, batch):
    flat = [x for r in el for x in r]
    total = sum(flat)
    return dict(sum=total, mean=total / len(flat),
                batchmean=total / batch)[how]


def pair(S, shape, same=False, shape_t=None):
    s = S.tensor('s', shape)
    t = s.clone() if same else S.tensor('t', shape_t or shape)
    return s, t


def weight(S):
    return S.real('w', 0)


def tau_(S):
    return S.real('tau', 1, 16)


def run(S, mod, *args):
    """the loss, leaving its inputs alone"""
    keep = [a.clone() for a in args]
    out = mod(*args)
    for a, k in zip(args, keep):
        S.eq(a, k, 'inputs stay as they are')
    again = mod(*args)
    S.eq(again, out, 'the same inputs give the same loss')
    return out


def norm(xs):
    return sum(x * x for x in xs).sqrt()


# ------------------------------------------------------------- logits
def kl(S, shape, how, same=False):
    w, tau = weight(S), tau_(S)
    mod = build('KLDivergence', tau=tau, reduction=how, loss_weight=w,
                teacher_detach=S.flag('detach'))
    s, t = pair(S, shape, same)
    got = run(S, mod, s, t)
    if same:
        return S.eq(got, torch.zeros_like(got), 'equal predictions cost 0')
    if len(shape) == 4:
        s = s.permute(0, 2, 3, 1).reshape(-1, shape[1])
        t = t.permute(0, 2, 3, 1).reshape(-1, shape[1])
    el = kl_rows(s, t, tau)
    if how == 'none':
        want = torch.stack([torch.stack(r) for r in el]) * tau * tau * w
        if len(shape) == 4:
            got = got.permute(0, 2, 3, 1).reshape(-1, shape[1])
    else:
        want = reduce(el, how, shape[0]) * tau * tau * w
    S.eq(got, want, 'the divergence as defined')


def dkd(S, n, c, how, same=False):
    w, tau = weight(S), tau_(S)
    al, be = S.real('alpha', 0), S.real('beta', 0)
    mod = build('DKDLoss', tau=tau, alpha=al, beta=be, reduction=how,
                loss_weight=w)
    s, t = pair(S, (n, c), same)
    labels = [S.pick(f'label{i}', range(c)) for i in range(n)]
    got = run(S, mod, s, t, torch.tensor(labels))
    if same:
        return S.eq(got, torch.zeros_like(got), 'equal predictions cost 0')
    target, rest = [], []
    for a, b, y in zip(rows(s), rows(t), labels):
        pa, pb = soft(a / tau), soft(b / tau)
        na = sum(p for i, p in enumerate(pa) if i != y)
        nb = sum(p for i, p in enumerate(pb) if i != y)
        target.append([pb[y] * (pb[y].log() - pa[y].log()),
                       nb * (nb.log() - na.log())])
        # the target class is pushed to the bottom
        bottom = torch.tensor([1000. * (i == y) for i in range(c)])
        la, lb = logsoft(a / tau - bottom), logsoft(b / tau - bottom)
        qb = soft(b / tau - bottom)
        rest.append([q * (y_ - x) for q, x, y_ in zip(qb, la, lb)])
    if how == 'none':
        want = torch.stack([sum(x) * al + sum(y) * be
                            for x, y in zip(target, rest)])
    else:
        want = reduce(target, how, n) * al + reduce(rest, how, n) * be
    S.eq(got, want * tau * tau * w, 'both parts as defined')


def hard(S, n, c):
    w = weight(S)
    mod = build('CrossEntropyLoss', loss_weight=w)
    s, t = pair(S, (n, c))
    tops = [S.pick(f'top{i}', range(c)) for i in range(n)]
    for row, k in zip(rows(t), tops):
        for i in range(c):
            if i != k:
                S.assume(row[k].item() > row[i].item())
    got = run(S, mod, s, t)
    want = -sum(logsoft(r)[k] for r, k in zip(rows(s), tops)) / n
    S.eq(got, want * w, 'cross entropy with the choice of the teacher')


def soft_ce(S, n, c, how, mult):
    w, tau = weight(S), tau_(S)
    mod = build('KDSoftCELoss', tau=tau, reduction=how, loss_weight=w,
                mult_tem_square=mult)
    s, t = pair(S, (n, c))
    got = run(S, mod, s, t)
    rows_ = [-sum(p * q for p, q in zip(soft(b / tau), logsoft(a / tau)))
             for a, b in zip(rows(s), rows(t))]
    want = (torch.stack(rows_) if how == 'none' else sum(rows_) /
            (n if how == 'mean' else 1)) * w
    S.eq(got, want * tau * tau if mult else want, 'soft cross entropy')
    how2 = S.pick('override', ['sum', 'mean'])
    over = mod(s, t, reduction_override=how2)
    want = sum(rows_) / (n if how2 == 'mean' else 1) * w
    S.eq(over, want * tau * tau if mult else want, 'another reduction once')
    f = S.real('avg', 1)
    if how == 'mean':
        over = mod(s, t, avg_factor=f)
        want = sum(rows_) / f * w
        S.eq(over, want * tau * tau if mult else want, 'own factor')


def wsld(S, n, c):
    w, tau = weight(S), tau_(S)
    mod = build('WSLD', tau=tau, loss_weight=w, num_classes=c)
    s, t = pair(S, (n, c))
    labels = [S.pick(f'label{i}', range(c)) for i in range(n)]
    got = run(S, mod, s, t, torch.tensor(labels))
    out = []
    for a, b, y in zip(rows(s), rows(t), labels):
        ce = -sum(p * q for p, q in zip(soft(b / tau), logsoft(a / tau)))
        ratio = -logsoft(a)[y] / (-logsoft(b)[y] + 1e-7)
        ratio = torch.maximum(ratio, torch.zeros_like(ratio))
        out.append((1 - (-ratio).exp()) * ce)
    S.eq(got, sum(out) / n * w * tau * tau, 'weighted soft labels')


def dist(S, n, c):
    w, tau = weight(S), tau_(S)
    wi, wa = S.real('inter', 0), S.real('intra', 0)
    mod = build('DISTLoss', tau=tau, loss_weight=w, inter_loss_weight=wi,
                intra_loss_weight=wa, teacher_detach=S.flag('detach'))
    s, t = pair(S, (n, c))
    got = run(S, mod, s, t)
    ps = [soft(r / tau) for r in rows(s)]
    pt = [soft(r / tau) for r in rows(t)]

    def relation(A, B):
        out = []
        for a, b in zip(A, B):
            ma, mb = sum(a) / len(a), sum(b) / len(b)
            a, b = [x - ma for x in a], [x - mb for x in b]
            out.append(sum(x * y for x, y in zip(a, b)) /
                       (norm(a) * norm(b) + 1e-8))
        return 1 - sum(out) / len(out)

    want = relation(ps, pt) * wi + relation(list(zip(*ps)),
                                            list(zip(*pt))) * wa
    S.eq(got, want * tau * tau * w, 'relations between and within classes')


def onehot(S, n, c):
    w = weight(S)
    mod = build('OnehotLikeLoss', loss_weight=w)
    t = S.tensor('t', (n, c))
    tops = [S.pick(f'top{i}', range(c)) for i in range(n)]
    for row, k in zip(rows(t), tops):
        for i in range(c):
            if i != k:
                S.assume(row[k].item() > row[i].item())
    got = run(S, mod, t)
    S.eq(got, -sum(logsoft(r)[k] for r, k in zip(rows(t), tops)) / n * w,
         'cross entropy with its own choice')


def entropy(S, n, c):
    w = weight(S)
    mod = build('InformationEntropyLoss', loss_weight=w,
                gather=S.flag('gather'))
    t = S.tensor('t', (n, c))
    got = run(S, mod, t)
    p = [soft(r) for r in rows(t)]
    mean = [sum(q) / n for q in zip(*p)]
    S.eq(got, sum(m * m.log10() for m in mean) * w, 'entropy of the classes')


def activation(S, shape, kind):
    w = weight(S)
    mod = build('ActivationLoss', loss_weight=w, norm_type=kind)
    t = S.tensor('t', shape)
    got = run(S, mod, t)
    el = list(t.reshape(-1))
    want = norm(el) if kind == 'norm' else sum(x.abs() for x in el) / len(el)
    S.eq(got, -want * w, 'activation')


# ------------------------------------------------------------ features
def cwd(S, shape, same=False):
    w, tau = weight(S), tau_(S)
    mod = build('ChannelWiseDivergence', tau=tau, loss_weight=w)
    s, t = pair(S, shape, same)
    got = run(S, mod, s, t)
    if same:
        return S.eq(got, torch.zeros_like(got), 'equal features cost 0')
    n, c = shape[:2]
    el = kl_rows(s.reshape(n * c, -1), t.reshape(n * c, -1), tau)
    S.eq(got, reduce(el, 'sum', 1) / (n * c) * tau * tau * w,
         'a divergence over the positions of every channel')


def l1(S, shape, how, old):
    w = weight(S)
    kw, eff = {}, how
    if old:
        kw = dict(size_average=S.pick('average', [None, True, False]),
                  reduce=S.pick('reduce', [None, True, False]))
        if any(v is not None for v in kw.values()):
            eff = 'none' if kw['reduce'] is False else \
                'sum' if kw['size_average'] is False else 'mean'
    mod = build('L1Loss', loss_weight=w, reduction=how, **kw)
    s, t = pair(S, shape)
    got = run(S, mod, s, t)
    el = (s - t).abs()
    if eff == 'none':
        want = el * w
    else:
        want = sum(el.reshape(-1)) * w
        if eff == 'mean':
            want = want / el.numel()
    S.eq(got, want, 'mean absolute difference')


def unit_rows(t, mult=1, eps=False):
    out = []
    for r in rows(t.reshape(t.shape[0], -1)):
        k = norm(r)
        if eps:
            k = torch.where(k >= 1e-12, k, torch.full_like(k, 1e-12))
        out.append([x / k * mult for x in r])
    return out


def l2(S, shape, normalize, distance, element):
    w, mult = weight(S), S.real('mult', 0)
    mod = build('L2Loss', loss_weight=w, normalize=normalize, mult=mult,
                div_element=element, dist=distance)
    s, t = pair(S, shape)
    for x in (s, t):
        for r in rows(x.reshape(shape[0], -1)):
            S.assume(r[0].item() > 0)
    got = run(S, mod, s, t)
    if normalize:
        a, b = unit_rows(s, mult), unit_rows(t, mult)
    else:
        a = [list(r) for r in rows(s.reshape(shape[0], -1))]
        b = [list(r) for r in rows(t.reshape(shape[0], -1))]
    sq = sum((x - y) * (x - y) for p, q in zip(a, b) for x, y in zip(p, q))
    if distance:
        sq = sq.sqrt()
    elif element:
        sq = sq / s.numel()
    else:
        sq = sq / shape[0]
    S.eq(got, sq * w, 'squared distance')


def at(S, shape):
    w = weight(S)
    mod = build('ATLoss', loss_weight=w)
    s, t = pair(S, shape)
    got = run(S, mod, s, t)
    n, c = shape[:2]

    def attention(x):
        out = []
        for r in rows(x.reshape(n, c, -1)):
            m = [sum(q * q for q in col) / c for col in r.t()]
            k = norm(m)
            k = torch.where(k >= 1e-12, k, torch.full_like(k, 1e-12))
            out += [v / k for v in m]
        return out

    a, b = attention(s), attention(t)
    S.eq(got, sum((x - y) * (x - y) for x, y in zip(a, b)) / len(a) * w,
         'difference of attention maps')


def ft(S, shape):
    w = weight(S)
    mod = build('FTLoss', loss_weight=w)
    s, t = pair(S, shape)
    got = run(S, mod, s, t)
    a = sum(unit_rows(s, eps=True), [])
    b = sum(unit_rows(t, eps=True), [])
    S.eq(got, sum((x - y).abs() for x, y in zip(a, b)) / len(a) * w,
         'difference of factors')


def ab(S, shape):
    w, m = weight(S), S.real('margin', 0)
    mod = build('ABLoss', loss_weight=w, margin=m)
    s, t = pair(S, shape)
    got = run(S, mod, s, t)
    out = 0
    for x, y in zip(s.reshape(-1), t.reshape(-1)):
        zero = torch.zeros_like(x)
        low = torch.where(x > -m, (x + m) * (x + m), zero)
        high = torch.where(x <= m, (x - m) * (x - m), zero)
        out = out + torch.where(y > 0, high, low)
    S.eq(got, out * 3 / shape[0] / 1000 * w, 'activation boundaries')


def ofd(S, shape):
    w, f = weight(S), S.real('factor', 1)
    mod = build('OFDLoss', loss_weight=w, mul_factor=f)
    s, t = pair(S, shape)
    got = run(S, mod, s, t)
    out = 0
    for x, y in zip(s.reshape(-1), t.reshape(-1)):
        out = out + torch.where((x > y) | (y > 0), (x - y) * (x - y),
                                torch.zeros_like(x))
    S.eq(got, out / shape[0] / f * w, 'partial squared distance')


def mgd(S, shape):
    w = weight(S)
    mod = build('MGDLoss', alpha_mgd=w)
    s, t = pair(S, shape)
    got = run(S, mod, s, t)
    out = sum((x - y) * (x - y) for x, y in zip(s.reshape(-1),
                                                t.reshape(-1)))
    S.eq(got, out / shape[0] * w, 'squared distance per sample')
    bad = S.tensor('u', shape[:1] + (shape[1] + 1, ) + shape[2:])
    S.raises(AssertionError, mod, s, bad, msg='other shapes are refused')


def standard(x):
    n, c = x.shape[:2]
    out = []
    for ch in range(c):
        v = list(x[:, ch].reshape(-1))
        m = sum(v) / len(v)
        sd = (sum((q - m) * (q - m) for q in v) / (len(v) - 1)).sqrt()
        out += [(q - m) / (sd + 1e-6) for q in v]
    return out


def pkd(S, shapes, several, resize=None):
    w = weight(S)
    mod = build('PKDLoss', loss_weight=w, resize_stu=resize is not False)
    ss = tuple(S.tensor(f's{i}', a) for i, (a, b) in enumerate(shapes))
    ts = tuple(S.tensor(f't{i}', b) for i, (a, b) in enumerate(shapes))
    got = mod(ss, ts) if several else mod(ss[0], ts[0])
    want = 0
    for s, t in zip(ss, ts):
        if s.shape != t.shape:
            if resize:
                s = torch.nn.functional.interpolate(
                    s, t.shape[2:], mode='bilinear')
            else:
                t = torch.nn.functional.interpolate(
                    t, s.shape[2:], mode='bilinear')
        a, b = standard(s), standard(t)
        want = want + sum((x - y) * (x - y)
                          for x, y in zip(a, b)) / len(a) / 2
    S.eq(got, want * w, 'distance of normalised features')


def fbkd(S):
    ws = [S.real(f'w{i}', 0) for i in range(5)]
    mod = build('FBKDLoss', mask_l2_weight=ws[0], channel_weight=ws[1],
                spatial_weight=ws[2], nonloacl_weight=ws[3],
                loss_weight=ws[4])
    n, c, h, v = 2, 2, 1, 2
    student = tuple(S.tensor(f's{i}', sh) for i, sh in enumerate([
        (n, 1, h, v), (n, c, 1, 1), (n, c), (n, 1, h, v), (n, c, h, v),
        (n, c, h, v)]))
    teacher = tuple(S.tensor(f't{i}', sh) for i, sh in enumerate([
        (n, 1, h, v), (n, c, 1, 1), (n, 1, h, v), (n, c, h, v),
        (n, c, h, v)]))
    keep = [x.clone() for x in student + teacher]
    got = mod(student, teacher)
    for x, k in zip(student + teacher, keep):
        S.eq(x, k, 'inputs stay as they are')
    spatial = (student[0] + teacher[0]) / 2

    def distance(a, b, weights=None):
        out = []
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            d = (x - y) * (x - y)
            out.append(d if weights is None else d * weights[i])
        return sum(out).sqrt()

    mask = spatial.expand(n, c, h, v).reshape(-1)
    mean = torch.stack([torch.stack([sum(teacher[4][i, j].reshape(-1)) /
                                     (h * v) for j in range(c)])
                        for i in range(n)])
    want = distance(teacher[4], student[5], list(mask)) * ws[0] + \
        distance(mean, student[2]) * ws[1] + \
        distance(teacher[2], student[3]) * ws[2] + \
        distance(teacher[3], student[4]) * ws[3]
    S.eq(got, want * ws[4], 'all four parts')


def huber(x):
    return torch.where(x.abs() < 1, x * x * 0.5, x.abs() - 0.5)


def vectors(S, x, with_norm):
    if with_norm:
        return [list(r) for r in unit_rows(x, eps=True)]
    return [list(r) for r in rows(x)]


def rkd_distance(S, n, c, with_norm):
    w = weight(S)
    mod = build('DistanceWiseRKD', loss_weight=w, with_l2_norm=with_norm)
    s, t = pair(S, (n, c))
    got_args = s, t

    def table(x):
        v = vectors(S, x, with_norm)
        d = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                q = sum(a * a for a in v[i]) + sum(b * b for b in v[j]) - \
                    sum(a * b for a, b in zip(v[i], v[j])) * 2
                d[i][j] = q.clamp(min=1e-12).sqrt() if i != j else q * 0
        mean = sum(d[i][j] for i in range(n) for j in range(n)
                   if i != j) / (n * n - n)
        return [x / mean for r in d for x in r]

    a, b = table(s), table(t)
    got = run(S, mod, *got_args)
    S.eq(got, sum(huber(x - y) for x, y in zip(a, b)) / (n * n) * w,
         'relative distances of all pairs')


def rkd_angle(S, n, c, with_norm):
    w = weight(S)
    mod = build('AngleWiseRKD', loss_weight=w, with_l2_norm=with_norm)
    s, t = pair(S, (n, c))

    def table(x):
        v = vectors(S, x, with_norm)
        e = [[[a - b for a, b in zip(v[j], v[i])] for j in range(n)]
             for i in range(n)]
        for i in range(n):
            for j in range(n):
                k = norm(e[i][j])
                k = torch.where(k >= 1e-12, k, torch.full_like(k, 1e-12))
                e[i][j] = [q / k for q in e[i][j]]
        return [sum(a * b for a, b in zip(e[i][j], e[i][k]))
                for i in range(n) for j in range(n) for k in range(n)]

    a, b = table(s), table(t)
    got = run(S, mod, s, t)
    S.eq(got, sum(huber(x - y) for x, y in zip(a, b)) / (n**3) * w,
         'angles of all triples')


def tasks(tier):
    deep = tier == 'thorough'
    el = dict(explog=True, time=300)
    out = []

    def add(name, fn, **kw):
        out.append(Task(name, fn, kw, el))

    n, c = (3, 3) if deep else (2, 3)
    for how in ('none', 'batchmean', 'sum', 'mean'):
        add(f'kl {how}', kl, shape=(n, c), how=how)
        add(f'kl maps {how}', kl, shape=(2, 2, 1, 2), how=how)
        add(f'dkd {how}', dkd, n=2, c=c, how=how)
    add('kl equal', kl, shape=(n, c), how='batchmean', same=True)
    add('dkd equal', dkd, n=2, c=c, how='batchmean', same=True)
    add('hard', hard, n=2, c=c)
    for how in ('none', 'mean', 'sum'):
        for mult in (True, False):
            add(f'soft ce {how} {mult}', soft_ce, n=n, c=c, how=how,
                mult=mult)
    add('wsld', wsld, n=2, c=c)
    add('dist', dist, n=2, c=2)
    add('dist 3', dist, n=2, c=3)
    add('one hot', onehot, n=2, c=c)
    add('entropy', entropy, n=2, c=c)
    for k in ('abs', 'norm'):
        add(f'activation {k}', activation, shape=(2, 2, 1, 2), kind=k)
    add('cwd', cwd, shape=(2, 2, 1, 2))
    add('cwd wide', cwd, shape=(1, 2, 2, 2))
    add('cwd equal', cwd, shape=(2, 2, 1, 2), same=True)
    for how in ('none', 'sum', 'mean'):
        add(f'l1 {how}', l1, shape=(2, 3), how=how, old=False)
    add('l1 old', l1, shape=(2, 2), how='none', old=True)
    add('l1 old sum', l1, shape=(2, 2), how='sum', old=True)
    for nm in (True, False):
        for d in (True, False):
            for e in (True, False):
                add(f'l2 {nm} {d} {e}', l2, shape=(2, 2, 1, 1),
                    normalize=nm, distance=d, element=e)
    add('at', at, shape=(2, 2, 1, 2))
    add('at 3', at, shape=(1, 3, 1, 2))
    add('ft', ft, shape=(2, 2, 1, 1))
    add('ab', ab, shape=(2, 1, 1, 1))
    add('ofd', ofd, shape=(2, 1, 1, 1))
    add('mgd', mgd, shape=(2, 2, 1, 2))
    sh = (2, 2, 1, 2)
    add('pkd', pkd, shapes=[(sh, sh)], several=False)
    add('pkd several', pkd, shapes=[(sh, sh), ((2, 1, 1, 1), (2, 1, 1, 1))],
        several=True)
    for r in (True, False):
        add(f'pkd resize {r}', pkd, shapes=[((2, 1, 1, 2), (2, 1, 2, 2))],
            several=False, resize=r)
    add('fbkd', fbkd)
    for w in (True, False):
        add(f'rkd distance {w}', rkd_distance, n=3, c=2,
            with_norm=w)
        add(f'rkd angle {w}', rkd_angle, n=2 if w else 3, c=2, with_norm=w)
    return out
