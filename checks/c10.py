"""C10: the split search."""
from fractions import Fraction
from symx.runner import Case
from checks.c06 import Cipher

DESC = ("Splitter runs on histograms with symbolic gradient sums, counts, hessians, regularisation and minima; the returned split is "
        "compared with every admissible candidate.  Sums are built from per-bin increments, so any histogram of real data is covered.")

MASKS = [[True, True], [True, False], [False, True], [False, False]]


def hist_of(h, incs, cipher=False):
    """incs[f] = list of (g, hess, count) per bin -> prefix sums"""
    out = []
    for bins in incs:
        acc, row = [0, 0, 0], []
        for g, s, c in bins:
            acc = [acc[0] + g, acc[1] + s, acc[2] + c]
            row.append(list(acc))
        if cipher:
            row = [[Cipher(a), Cipher(b), c] for a, b, c in row]
        out.append(row)
    return out


def candidates(h, hist, valid, mls, mss, fork=True):
    """admissible (fid, bid) in scan order; forks on the counts"""
    out = []
    for f, row in enumerate(hist):
        if valid[f] is False or not row:
            continue
        n = row[-1][2]
        for b, e in enumerate(row):
            if h.branch(h.land(n >= mss, e[2] >= mls, n - e[2] >= mls)):
                out.append((f, b))
    return out


def gain_of(h, row, b, lam):
    G, H, _ = row[-1]
    l, hl, _ = row[b]
    r, hr = G - l, H - hl
    return l * l / (hl + lam) + r * r / (hr + lam) - G * G / (H + lam)


def check_guest(h, s, hist, valid, lam, mls, mss, mg, key="best"):
    cands = candidates(h, hist, valid, mls, mss)
    gains = {c: gain_of(h, hist[c[0]], c[1], lam) for c in cands}
    t = 0 if h.symbolic else 1e-9
    if s.best_fid is None:
        h.check(s.best_bid is None, "no split has no bin", "none")
        for c in cands:
            h.check(h.le(gains[c], mg), "a split above the minimum gain was overlooked", "none")
        return None
    f, b = s.best_fid, s.best_bid
    h.check((f, b) in gains, "the split is admissible (feature %s, bin %s)" % (f, b), "admissible")
    if (f, b) not in gains:
        return None
    g = gains[(f, b)]
    h.check(g > mg - t, "the gain exceeds the minimum", "minimum")
    h.close(s.gain, g, "reported gain", "gain")
    h.close(s.sum_grad, hist[f][b][0], "reported left gradient", "sums")
    h.close(s.sum_hess, hist[f][b][1], "reported left hessian", "sums")
    h.check(s.sitename == "guest", "a guest split", "site")
    for c in cands:
        if c != (f, b):
            h.check(h.le(gains[c], g), "no admissible split gains more", key)
    return f, b


def splitter(h, lam, mg, mss, mls):
    return h.cls("ml.tree.splitter", "Splitter")("xgboost", [lam, 0], mg, mss, mls)


def guest(nbins, hess, cnts, lams, masks, sym_min=True):
    """symbolic gradients; hessians, counts and regularisation from the list"""
    def fn(h):
        h.world()
        lam = h.pick("lam", lams)
        mg = h.real("mg", 0, 10) if sym_min else h.pick("mg", [0.0, 0.25])
        mss, mls = h.pick("mins", [(2, 1), (3, 1), (2, 2), (9, 1)])
        hs, cs = h.pick("hess", hess), h.pick("cnt", cnts)
        incs, tot = [], None
        for f, nb in enumerate(nbins):
            gs = h.reals("g%d_" % f, nb - 1 if tot is not None else nb)
            if tot is None:
                tot = h.total(gs)
            else:
                gs = gs + [tot - h.total(gs)]
            incs.append([(gs[b], hs[f][b], cs[f][b]) for b in range(nb)])
        hist = hist_of(h, incs)
        if not h.symbolic:
            hist = [[[float(a), float(b), c] for a, b, c in row] for row in hist]
        valid = h.pick("valid", masks)
        sp = splitter(h, lam, mg, mss, mls)
        out = sp.find_split([hist], valid)
        h.check(len(out) == 1, "one result per node", "shape")
        check_guest(h, out[0], hist, valid, lam, mls, mss, mg)
    return fn


def counts(nbins):
    """symbolic counts and minima; gradients fixed so that gains differ"""
    def fn(h):
        h.world()
        mss, mls = h.int("mss", 2, 8), h.int("mls", 1, 5)
        base = [[(3.0, 1.0), (-5.0, 2.0), (1.0, 1.0)], [(-1.0, 1.0), (4.0, 2.0), (-4.0, 1.0)]]
        incs, tot = [], None
        for f, nb in enumerate(nbins):
            ns = h.ints("n%d_" % f, nb, 0, 6)
            if tot is None:
                tot = h.total(ns)
            else:
                h.assume(h.total(ns) == tot)
            incs.append([(g, s, n) for (g, s), n in zip(base[f], ns)])
        hist = hist_of(h, incs)
        valid = h.pick("valid", [[True, True], [False, True]])[:len(nbins)]
        sp = splitter(h, 0.5, 0.01, mss, mls)
        check_guest(h, sp.find_split_single_histogram_guest(hist, valid), hist, valid, 0.5, mls, mss, 0.01)
    return fn


def hessians(nb):
    """everything symbolic"""
    def fn(h):
        h.world()
        lam = h.real("lam", 0.01, 100)
        mg = h.real("mg", 0, 10)
        gs, hs = h.reals("g", nb), h.reals("h", nb, 0, 100)
        hist = hist_of(h, [[(g, s, 2) for g, s in zip(gs, hs)]])
        sp = splitter(h, lam, mg, 2, 1)
        check_guest(h, sp.find_split_single_histogram_guest(hist, [True]), hist, [True], lam, 1, 2, mg)
    return fn


def long(nbins, free, lam=0.5, masks=None, empty=(), mg=0.125):
    """many bins and features of different widths; two increments of the listed features are free"""
    def fn(h):
        h.world()
        incs = []
        tot = None
        for f, nb in enumerate(nbins):
            gs = [float((3 * b + f) % 5 - 2) for b in range(nb)]
            if f in free and nb > 2:
                a, b = free[f]
                gs[a] = h.real("g%d" % f, -10, 10)
            if tot is None:
                tot = h.total(gs)
            elif nb:
                i = free[f][1] if f in free else nb - 1
                gs[i] = 0.0
                gs[i] = tot - h.total(gs)
            incs.append([(gs[b], 1.0 if nb > 1 else float(max(nbins)), 2 if nb > 1 else 2 * max(nbins)) for b in range(nb)])
        n = 2 * max(nbins)
        for row in incs:
            if len(row) > 1:                     # the same number of samples everywhere
                g, s, c = row[-1]
                row[-1] = (g, s + max(nbins) - len(row), c + n - 2 * len(row))
        hist = [r if f not in empty else [] for f, r in enumerate(hist_of(h, incs))]
        valid = h.pick("valid", masks or [[True] * len(nbins)])
        mls = h.pick("mls", [1, 3])
        sp = splitter(h, lam, mg, 2, mls)
        check_guest(h, sp.find_split([hist], valid)[0], hist, valid, lam, mls, 2, mg)
        hc = [[[Cipher(a), Cipher(b), c] for a, b, c in row] for row in hist]
        info, enc = sp.find_split_host([hc], valid, "host")
        h.check([(s.best_fid, s.best_bid) for s in info[0]] == candidates(h, hist, valid, mls, 2), "the host's candidates", "candidates")
    return fn


def boundary(h):
    """gains that equal the minimum exactly, in numbers that floats hold exactly"""
    h.world()
    a, b = h.choose("a", 5) - 2, h.choose("b", 5) - 2
    lam = h.pick("lam", [0, 1, 0.0, 1.0])
    hs = [(1.0, 1.0), (3.0, 3.0)][h.choose("h", 2)] if lam else [(1.0, 1.0), (2.0, 2.0)][h.choose("h", 2)]
    hist = hist_of(h, [[(float(a), hs[0], 2), (float(b), hs[1], 2)]])
    num = lambda x: Fraction(x)
    x = gain_of(h, [[num(y) for y in e] for e in hist[0]], 0, num(lam))
    mg = h.pick("mg", [0.0, 0.5, 1.0, 2.0, 0.25])
    exact = x.denominator & (x.denominator - 1) == 0 and (sum(hs) + lam) in (2.0, 4.0)
    s = splitter(h, lam, mg, 2, 1).find_split_single_histogram_guest(hist, [True])
    if exact:
        h.check((s.best_fid is not None) == (x > num(mg)), "a split has to gain more than the minimum", "boundary")
    elif s.best_fid is None:
        h.check(x <= num(mg) + num(1e-9), "a split above the minimum gain was overlooked", "none")


def nodes(n):
    """results stay with their node"""
    def fn(h):
        h.world()
        mg = 0.1
        hists = []
        for k in range(n):
            g = h.real("g%d" % k)
            hists.append(hist_of(h, [[(g, 1.0, 2), (1.0 - g, 2.0, h.choose("n%d" % k, 2))]]))
        out = splitter(h, 1.0, mg, 2, 1).find_split(hists, [True])
        h.check(len(out) == n, "one result per node", "shape")
        for s, hist in zip(out, hists):
            check_guest(h, s, hist, [True], 1.0, 1, 2, mg)
    return fn


def host(nbins, nnodes):
    def fn(h):
        h.world()
        mss, mls = h.int("mss", 2, 6), h.int("mls", 1, 4)
        hists = []
        for k in range(nnodes):
            incs, tot = [], None
            for f, nb in enumerate(nbins):
                ns = h.ints("n%d_%d_" % (k, f), nb, 0, 5)
                if tot is None:
                    tot = h.total(ns)
                else:
                    h.assume(h.total(ns) == tot)
                incs.append([(h.real("g%d_%d_%d" % (k, f, b)), h.real("h%d_%d_%d" % (k, f, b)), n) for b, n in enumerate(ns)])
            hists.append(hist_of(h, incs, True))
        valid = h.pick("valid", [m[:len(nbins)] for m in (MASKS if len(nbins) > 1 else MASKS[:1])])
        site = h.pick("site", ["host", "host_7"])
        hists_in = [[row if valid[f] else [] for f, row in enumerate(hist)] for hist in hists] if h.choose("blank", 2) else hists
        info, enc = splitter(h, 0.1, 0.0, mss, mls).find_split_host(hists_in, valid, site)
        h.check(len(info) == nnodes and len(enc) == nnodes, "one list per node", "shape")
        for k, hist in enumerate(hists):
            want = candidates(h, hist, valid, mls, mss)
            h.check([(s.best_fid, s.best_bid) for s in info[k]] == want, "the admissible pairs in order (%s)" % (want,), "candidates")
            h.check(len(enc[k]) == len(info[k]), "as many sums as candidates", "candidates")
            for s, e in zip(info[k], enc[k]):
                f, b = s.best_fid, s.best_bid
                h.check(s.sitename == site, "the host's name", "site")
                ok = (f, b) in want
                for got in ((s.sum_grad, s.sum_hess), tuple(e)):
                    h.check(type(got[0]) is Cipher and type(got[1]) is Cipher, "encrypted sums", "sums")
                    if ok and type(got[0]) is Cipher:
                        h.close(got[0].v, hist[f][b][0].v, "left gradient of the candidate", "sums")
                        h.close(got[1].v, hist[f][b][1].v, "left hessian of the candidate", "sums")
    return fn


def formulas():
    def fn(h):
        h.world()
        lam = h.pick("kind", [0, 0.0, 1, 2.5, None])
        lam = h.real("lam", 0.01, 100) if lam is None else lam
        g, s, l, hl, r, hr = h.real("g"), h.real("h", 0.125, 100), h.real("gl"), h.real("hl", 0.125, 100), h.real("gr"), h.real("hr", 0.125, 100)
        sp = splitter(h, lam, 0.0, 2, 1)
        h.close(sp.node_weight(g, s), -g / (s + lam), "node weight", "weight")
        h.close(sp.node_gain(g, s), g * g / (s + lam), "node gain", "gain")
        want = l * l / (hl + lam) + r * r / (hr + lam) - g * g / (s + lam)
        h.close(sp.split_gain(g, s, l, hl, r, hr), want, "split gain", "gain")
        C = h.cls("ml.tree.creterion", "XgboostCriterion")
        c = C(lam)
        h.close(c.split_gain([g, s], [l, hl], [r, hr]), want, "split gain", "gain")
        h.close(c.node_weight(g, s), -g / (s + lam), "node weight", "weight")
        h.close(C().node_weight(g, s), -g / (s + 0.1), "default regularisation", "weight")
        h.close(h.cls("ml.tree.splitter", "Splitter")("xgboost", []).node_weight(g, s), -g / (s + 0.1), "default regularisation", "weight")
        h.expect(TypeError, h.cls("ml.tree.splitter", "Splitter"), 5, msg="a criterion that is no name", key="type")
    return fn


def cases(tier):
    big = tier == "thorough"
    H = [[(1.0, 2.0, 0.5), (0.5, 2.5, 0.5)], [(0.0, 1.0, 1.0), (1.0, 0.0, 1.0)]]
    C = [[(2, 1, 1), (1, 1, 2)], [(0, 2, 2), (2, 2, 0)]]
    out = [
        Case("formulas", formulas(), bounds="all real sums, regularisation 0.01..100, hessians 0..100"),
        Case("guest-1x3", guest([3], [[(1.0, 2.0, 0.5)], [(0.0, 1.0, 0.0)]], [[(2, 1, 1)], [(1, 0, 1)]], [0.125, 1.0], [[True], [False]]), bounds="1 feature, 3 bins"),
        Case("guest-2x2", guest([2, 2], [[(1.0, 2.0), (2.5, 0.5)]], [[(2, 1), (1, 2)]], [0.125], MASKS), bounds="2 features, 2 bins"),
        Case("guest-2x3", guest([3, 2], [[(1.0, 2.0, 0.5), (2.5, 1.0)]], [[(2, 1, 1), (1, 3)]], [0.125], MASKS[:2]), bounds="2 features, 3 and 2 bins"),
        Case("counts-1", counts([3]), bounds="1 feature, 3 bins of 0..6 samples, minima up to 8 and 5"),
        Case("counts-2", counts([2, 3]), bounds="2 features, 2 and 3 bins of 0..6 samples"),
        Case("hessians-2", hessians(2), bounds="1 feature, 2 bins, all sums symbolic"),
        Case("nodes", nodes(3), bounds="3 nodes"),
        Case("boundary", boundary, bounds="2 bins, gradients -2..2, gains exactly at the minimum"),
        Case("long", long([6], {0: (2, 5)}), bounds="6 bins, one gradient any"),
        Case("long-2", long([1, 5, 1, 3], {1: (1, 3), 3: (0, 2)}, masks=[[True] * 4, [True, False, True, True]]), bounds="features of 1, 5, 1 and 3 bins"),
        Case("long-empty", long([4, 2, 4], {0: (0, 2), 2: (1, 3)}, empty=(1,), mg=0.0), bounds="features of 4 bins around one without"),
        Case("long-16", long([16, 2, 9], {0: (6, 12), 2: (7, 8)}), bounds="features of 16, 2 and 9 bins, one gradient of two of them any"),
        Case("long-many", long([3, 2, 1, 4, 2, 3, 2, 1, 2, 3, 2, 4], {3: (0, 2), 11: (1, 3)}, masks=[[True] * 12, [True, False] * 6, [False] * 9 + [True, False, True]], empty=(4,)),
             bounds="12 features of 1 to 4 bins"),
        Case("host-1", host([3], 1), bounds="1 node, 3 bins, counts 0..5"),
        Case("host-2", host([2, 2], 1), bounds="1 node, 2 features, 2 bins, counts 0..5"),
        Case("host-nodes", host([2], 2), bounds="2 nodes, 2 bins, counts 0..5"),
    ]
    if big:
        out += [
            Case("guest-3x2", guest([2, 2, 2], [[(1.0, 2.0), (2.5, 0.5), (1.5, 1.5)]], [[(2, 1), (1, 2), (2, 1)]], [0.125], [[True] * 3, [True, False, True]]), bounds="3 features, 2 bins"),
            Case("guest-2x3b", guest([3, 3], H, C, [0.125, 2.0], [[True, True]]), bounds="2 features, 3 bins", path_s=240),
            Case("guest-1x4", guest([4], [[(1.0, 0.5, 0.25, 2.0)]], [[(1, 1, 2, 1)]], [0.5], [[True]]), bounds="1 feature, 4 bins"),
            Case("counts-3", counts([3, 3]), bounds="2 features, 3 bins of 0..6 samples"),
            Case("host-3", host([3, 3], 1), bounds="2 features, 3 bins, counts 0..5"),
            Case("host-nodes-3", host([2, 2], 2), bounds="2 nodes, 2 features, 2 bins"),
        ]
    return out
