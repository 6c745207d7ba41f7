"""P22: acoustic features: frames of the signal, magnitude spectrum, filter bank, derivatives."""
import math
from . import contract


@contract('P22', scale=('mel', 'bark'))
def scales(B, scale):
    'the conversions to a perceptual scale are inverse of each other'
    F = B.beer.features
    to, back = getattr(F, 'hz2' + scale), getattr(F, scale + '2hz')
    f = B.scalar('f', pos=True)
    B.eq_num('inverse', back(to(f)), f)
    x = B.array('x', (B.size('n'),), pos=True)
    h = B.at(x)
    B.eq('inverse.array', back(to(x)), x.shape, h)
    B.eq_num('value', to(f), 1127 * B.log(1 + f / 700) if scale == 'mel' else
             29.81 * f / (1960 + f) - .53)
    # the same value for every element of an array
    B.eq('elementwise', to(x), x.shape, lambda i: 1127 * B.log(1 + h(i) / 700) if scale == 'mel' else
         29.81 * h(i) / (1960 + h(i)) - .53)


@contract('P22', winlens=((2, 2), (1,), (3,), (2, 1), (1, 1, 1), ()))
def deltas(B, winlens):
    'every order of derivatives is the regression over a window of the order below'
    N, D = B.size('N'), B.size('D')
    x = B.array('x', (N, D))
    f = B.at(x)
    y = B.beer.features.add_deltas(x, winlens) if winlens != (2, 2) else \
        B.beer.features.add_deltas(x)
    B.eq('shape', y[:0], (0, D * (len(winlens) + 1)), lambda i, j: 0)
    B.unchanged('input', x, f)

    def clipped(g, t, d, k):
        # frames before the first and after the last are copies of them
        s = t + k
        if k < 0:
            return B.ite(s >= 0, g(s, d), g(0, d)) if B.symbolic else g(max(s, 0), d)
        if not k:
            return g(t, d)
        return B.ite(s < N, g(s, d), g(N - 1, d)) if B.symbolic else g(min(s, N - 1), d)
    order = [f]
    for w in winlens:
        norm = 2 * sum(k * k for k in range(-w, w + 1))

        def g(t, d, p=order[-1], w=w, norm=norm):
            return sum((k * clipped(p, t, d, k) for k in range(-w, w + 1)), 0) / norm
        order.append(g)
    for o, g in enumerate(order):
        B.eq(f'order{o}', y[:, o * D:(o + 1) * D], (N, D), g)


@contract('P22', F=(1, 2, 3), align=(True, False), last=('inside', 'edge'))
def filters(B, F, align, last):
    '''triangular filters: from the previous centre up to the own centre and down to the next, the
    centres equally spaced on the perceptual scale; no two centres in the same frequency bin'''
    feats = B.beer.features
    # centres in bins: s[j] + r[j], the integer parts increasing
    s = [B.integer('s', 0)]
    for j in range(F):
        s.append(s[-1] + B.integer(f'd{j}', 1))
    room = 1 if align or last == 'inside' else 2
    if B.symbolic:
        n = B.size('n')
        B.assume(s[-1] + room <= n)
    else:
        n = s[-1] + B.size('above', room)
    s.append(n if last == 'edge' else n - 1)
    r = [B.fraction(f'r{j}') for j in range(F + 2)]
    if last == 'edge':
        r[-1] = r[-1] if align else 0
    else:
        B.assume(s[-1] - s[-2] >= 1)
    L = 2 * n
    srate, low, high = B.scalar('srate', pos=True), B.scalar('low'), B.scalar('high', pos=True)
    tohz, seen = {}, []

    def hz2scale(f):
        return 3 * f + 1

    def scale2hz(x):
        seen.append(x)
        return B.np.array([srate * (a + b) / L for a, b in zip(s, r)])
    kw = {} if align else dict(align_filt_center=False)
    w = feats.create_fbank(F, L, srate, low, None if last == 'edge' else high,
                           hz2scale, scale2hz, **kw)
    # the points converted back to Hertz are equally spaced from one limit to the other
    top = srate / 2 if last == 'edge' else high
    lo, hi = 3 * low + 1, 3 * top + 1
    B.eq('points', seen[0], (F + 2,), lambda j: lo + (hi - lo) * j / (F + 1))
    c = [a if align else a + b for a, b in zip(s, r)]

    def triangle(i, f):
        i = int(i)
        a, b, e = c[i], c[i + 1], c[i + 2]
        return B.ite(f < a, 0, B.ite(f < b, (f - a) / (b - a), B.ite(
            f == b, 1, B.ite(f <= e, (e - f) / (e - b), 0))))
    B.eq('filters', w, (F, n), triangle)


def spectrum(B, frame, W, L):
    'magnitude of the discrete Fourier transform, the Nyquist bin left out'
    def f(i, k):
        return B.hypot(B.sum(W, lambda j: frame(i, j) * B.cos(2 * B.pi * k * j / L)),
                       -B.sum(W, lambda j: frame(i, j) * B.sin(2 * B.pi * k * j / L)))
    return f


# sampling rate, frame length and rate in seconds, the same in samples, size of the transform,
# samples after the last frame
SETTINGS = ((8, .5, .25, 4, 2, 8, 0), (8, .5, .25, 4, 2, 8, 1), (10, .5, .3, 5, 3, 8, 0),
            (10, .5, .3, 5, 3, 8, 2), (4, .5, .25, 2, 1, 4, 0), (2, 1.5, 2., 3, 4, 4, 3))


@contract('P22', setting=SETTINGS, kind=('real', 'int'))
def magnitude(B, setting, kind):
    'windowed frames of the signal without its mean, emphasised within every frame'
    srate, flen, frate, W, H, L, rest = setting
    M = B.size('frames')
    N = (M - 1) * H + W + rest
    x = B.array('x', (N,), **(dict(isint=True, lo=0, hi=50) if kind == 'int' else {}))
    f = B.at(x)
    alpha = B.scalar('alpha')
    win = B.array('win', (W,))
    v = B.at(win)
    asked = []

    def window(n):
        asked.append(n)
        return win
    m, fft_len = B.beer.features.short_term_mspec(x, flen, frate, alpha, srate, window)
    B.holds('window length', asked == [W])
    B.eq_num('fft_len', fft_len, L)
    B.unchanged('input', x, f)
    mean = B.sum(N, f) / N
    B.eq('magnitude', m, (M, L // 2), spectrum(
        B, lambda i, j: (f(i * H + j) - mean - alpha * (f(i * H + prev(B, j)) - mean)) * v(j), W, L))


def prev(B, j):
    'the sample before, the first one for the first'
    return B.ite(j >= 1, j - 1, 0)


def hamming(B, W):
    return lambda j: .54 - .46 * B.cos(2 * B.pi * j / (W - 1))


@contract('P22', symbolic=False, seeds=1, note='six framings', setting=SETTINGS, which=('spectrum', 'filters'))
def short_signals(B, setting, which):
    'when no window fits in the signal there is no frame: refused or empty, never read out of the signal'
    srate, flen, frate, W, H, L, rest = setting
    for N in sorted({max(1, W - H), W - 1}):
        x = B.array(f'x{N}', (N,))
        f = B.at(x)
        try:
            if which == 'spectrum':
                m = B.beer.features.short_term_mspec(x, flen, frate, B.scalar('alpha'), srate)[0]
            else:
                # limits: see CORPORA
                m = B.beer.features.fbank(x, flen, frate, srate=srate, nfilters=1, lowfreq=0, hifreq=srate)
        except (ValueError, IndexError):
            m = ()
        B.holds('frames', len(m) == 0)
        B.unchanged('input', x, f)


@contract('P22', setting=SETTINGS, F=(1, 2), kind=('double', 'single'))
def log_filterbank(B, setting, F, kind):
    'logarithm of the filtered spectrum; the filters are those of create_fbank for the same rate'
    import inspect
    srate, flen, frate, W, H, L, rest = setting
    feats = B.beer.features
    M = B.size('frames')
    N = (M - 1) * H + W + rest
    x = B.array('x', (N,))
    if kind == 'single':
        x = x.astype('float32')
    f = B.at(x)
    alpha = B.scalar('alpha')
    low, high = B.scalar('low', pos=True), B.scalar('high', pos=True)
    w = B.array('w', (F, L // 2), pos=True)
    g = B.at(w)
    asked = []
    real = feats.create_fbank
    sig = inspect.signature(real)

    def create(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        asked.append(b.arguments)
        return w
    feats.create_fbank = create
    try:
        y = feats.fbank(x, flen, frate, high, low, F, alpha, srate)
    finally:
        feats.create_fbank = real
    B.holds('filters used once', len(asked) == 1)
    a = asked[0]
    for k, want in (('nfilters', F), ('fft_len', L), ('srate', srate), ('lowfreq', low),
                    ('highfreq', high)):
        B.eq_num('filters.' + k, a[k], want)
    B.holds('filters.scale', a['hz2scale'] is feats.hz2mel and a['scale2hz'] is feats.mel2hz)
    B.unchanged('input', x, f)
    ham = hamming(B, W)
    if B.symbolic:
        pre = lambda n: f(n) - alpha * B.ite(n >= 1, f(n - 1), f(0))
    else:
        pre = lambda n: f(n) - alpha * f(max(n - 1, 0))
    mag = spectrum(B, lambda i, j: pre(i * H + j) * ham(j), W, L)
    B.eq('features', y, (M, F), lambda i, c: B.log(
        1 + B.sum(L // 2, lambda k: mag(i, k) * g(c, k))), tol=1e-4)


# sampling rate, length of the transform, limits: no limit falls on a frequency of the transform
CORPORA = ((16000, 512, 20, 7900), (16000, 512, 100, 7900), (8000, 256, 20, 3900),
           (22050, 1024, 64, 10000))


@contract('P22', corpus=CORPORA, nfilters=(5, 12), symbolic=False, seeds=2,
          note='filters of four usual settings, on the Mel and Bark scales; one short signal each')
def usual_settings(B, corpus, nfilters):
    'the features of usual settings, computed from their definition'
    feats = B.beer.features
    srate, L, low, high = corpus
    W, H = int(srate * .025), int(srate * .01)

    def table(align, bark):
        if bark:
            to, back = lambda f: 29.81 * f / (1960 + f) - .53, \
                lambda z: 1960 * (z + .53) / (29.28 - z)
        else:
            to, back = lambda f: 1127 * math.log(1 + f / 700), lambda m: 700 * (math.exp(m / 1127) - 1)
        a, b = to(low), to(high)
        c = [L * back(a + (b - a) * j / (nfilters + 1)) / srate for j in range(nfilters + 2)]
        if align:
            c = [math.floor(x) for x in c]

        def tri(i, f):
            x, y, z = c[i:i + 3]
            if x <= f <= y and f < y:
                return (f - x) / (y - x)
            return (z - f) / (z - y) if y <= f <= z else 0.
        return tri
    for align in (True, False):
        for bark in (False, True):
            kw = dict(hz2scale=feats.hz2bark, scale2hz=feats.bark2hz) if bark else {}
            w = feats.create_fbank(nfilters, L, srate=srate, lowfreq=low, highfreq=high,
                                   align_filt_center=align, **kw)
            B.eq(f'filters.{align}.{bark}', w, (nfilters, L // 2), table(align, bark), tol=1e-5)
    M = 2
    N = (M - 1) * H + W + 7
    x = B.array('x', (N,)) * 100
    y = feats.fbank(x, hifreq=high, lowfreq=low, nfilters=nfilters, srate=srate)
    f = [float(v) for v in x]
    f = [v - .97 * f[max(n - 1, 0)] for n, v in enumerate(f)]
    tri = table(True, False)
    want = []
    for i in range(M):
        fr = [f[i * H + j] * (.54 - .46 * math.cos(2 * math.pi * j / (W - 1))) for j in range(W)]
        mag = []
        for k in range(L // 2):
            z = 2 * math.pi * k / L
            mag.append(math.hypot(sum(v * math.cos(z * j) for j, v in enumerate(fr)),
                                  sum(v * math.sin(z * j) for j, v in enumerate(fr))))
        want.append([math.log(1 + sum(m * tri(c, k) for k, m in enumerate(mag)))
                     for c in range(nfilters)])
    B.eq('fbank', y, (M, nfilters), lambda i, c: want[i][c], tol=1e-4)
