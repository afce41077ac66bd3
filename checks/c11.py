"""C11: the federated choice."""
from fractions import Fraction
from symx.runner import Case
from symx.syms import SymReal
from checks.c06 import Cipher, Encrypter

DESC = ("The guest's per-host choice, the real host's answer and the guest's final choice run on symbolic sums and gains under a ghost "
        "cipher, for several hosts, nodes and candidates.")
EPS = 1e-6


class Wire:
    """stands for the transfer object; records what is sent"""
    def __init__(self, replies=None):
        self.replies = replies or []
        self.sent = []

    def recv_data_from_hosts(self, idx=-1):
        return self.replies.pop(0)

    def send_data_to_hosts(self, data, idx=-1):
        self.sent.append((idx, data))

    def send_data_to_guest(self, data):
        self.sent.append((None, data))


def guest_tree(h, mg, lam):
    P = h.cls("ml.param.boosting_tree_param", "DecisionTreeParam")
    G = h.cls("ml.tree.hetero_decision_tree_guest", "HeteroDecisionTreeGuest")
    p = P(criterion_params=[lam, 0])
    p.min_impurity_split = mg
    t = G(p)
    t.set_encrypter(Encrypter())
    return t


def host_tree(h, idx):
    P = h.cls("ml.param.boosting_tree_param", "DecisionTreeParam")
    H = h.cls("ml.tree.hetero_decision_tree_host", "HeteroDecisionTreeHost")
    t = H(P())
    t.set_runtime_idx(idx)
    return t


def gain(G, H, gl, hl, lam):
    gr, hr = G - gl, H - hl
    return gl * gl / (hl + lam) + gr * gr / (hr + lam) - G * G / (H + lam)


def choice(ncand, mgs, lam=0.5, free=None):
    """ncand[host][node] candidates; the whole exchange; free: the sums that may be anything (default: all)"""
    def fn(h):
        h.world()

        def real(name, lo, hi):
            if free is None or name in free:
                return h.real(name, lo, hi)
            x = sum((7 * i + 3) * ord(c) for i, c in enumerate(name)) % 61
            return float(lo + (hi - lo) * Fraction(x, 61 if name[0] != "g" else 80))
        mg = h.real("mg", 0, 5) if mgs == "sym" else h.real("mg", -5, 0) if mgs == "neg" else h.pick("mg", mgs)
        if h.symbolic and type(mgs) is list:      # keep min - 1e-6 exact in the symbolic run
            mg = SymReal({(): Fraction(mg)}) if mg else SymReal({})
        nh, nn = len(ncand), len(ncand[0])
        g = guest_tree(h, mg, lam)
        hosts = [host_tree(h, 1000 + 7 * k) for k in range(nh)]
        Node = h.cls("ml.tree.node", "Node")
        SI = h.cls("ml.tree.node", "SplitInfo")
        sums = [(real("G%d" % n, -20, 20), 3.0 + n) for n in range(nn)]
        g.cur_split_nodes = [Node(id=5 + 2 * n, sum_grad=s[0], sum_hess=s[1]) for n, s in enumerate(sums)]
        gl, infos, enc = [], [], []
        for k in range(nh):
            gl.append([[(real("g%d_%d_%d" % (k, n, c), -20, 20), 1.0 + 0.5 * (c % 4) + 0.125 * k) for c in range(ncand[k][n])] for n in range(nn)])
            enc.append([[(Cipher(a), Cipher(b)) for a, b in gl[k][n]] for n in range(nn)])
            infos.append([[SI(sitename=hosts[k].sitename, best_fid=c + 1, best_bid=2 * c + 1, sum_grad=enc[k][n][c][0], sum_hess=enc[k][n][c][1])
                           for c in range(ncand[k][n])] for n in range(nn)])
        gains = [[[gain(sums[n][0], sums[n][1], a, b, lam) for a, b in gl[k][n]] for n in range(nn)] for k in range(nh)]
        wire = g.transfer_inst = Wire([enc])
        g.federated_find_split(0, 0)
        h.check(len(wire.sent) == nh, "one message per host", "messages")
        per_host = {}
        for idx, data in wire.sent:
            per_host[idx] = data
        h.check(sorted(per_host) == list(range(nh)), "each host gets its own message", "messages")
        finals, picked = [], []
        for k in range(nh):
            msg = per_host[k]
            h.check(len(msg) == nn, "one answer per node", "messages")
            row = []
            for n in range(nn):
                bi, bg = msg[n]
                h.check(type(bg) is Cipher, "the gain is encrypted", "messages")
                cand = gains[k][n]
                if bi == -1:
                    h.check(h.land(*[h.le(x, mg) for x in cand]), "no candidate gains more than the minimum", "host-none")
                    h.check(h.le(bg.v, mg), "the gain sent for no candidate is no more than the minimum", "host-none")
                    row.append(None)
                else:
                    h.check(0 <= bi < len(cand), "a candidate of this node", "host-best")
                    b = cand[bi]
                    h.check(h.lt(mg, b) if h.symbolic else b > mg - 1e-9, "the candidate gains more than the minimum", "host-best")
                    h.close(bg.v, b, "the gain sent is the candidate's", "host-best")
                    h.check(h.land(*[h.le(x, b) for i, x in enumerate(cand) if i != bi]), "no other candidate gains more", "host-best")
                    row.append(bi)
            picked.append(row)
            hosts[k].cur_split_nodes = [Node(id=5 + 2 * n) for n in range(nn)]
            hosts[k].transfer_inst = Wire()
            hosts[k].sync_final_splitinfo_host(infos[k], msg, 0, 0)
            fin = hosts[k].transfer_inst.sent[0][1]
            h.check(len(fin) == nn, "one final split per node", "messages")
            for n in range(nn):
                bi = row[n]
                if bi is None:
                    h.check(fin[n].best_fid in (-1, None), "nothing found at this host", "host-final")
                else:
                    h.check(fin[n].best_fid == bi + 1, "the chosen candidate's feature", "host-final")
                    h.close(fin[n].sum_grad.v, gl[k][n][bi][0], "the chosen candidate's sums", "host-final")
                    h.check(hosts[k].split_maskdict.get(5 + 2 * n) == 2 * bi + 1, "the host remembers the bin it split at", "host-final")
                h.check(fin[n].sitename == hosts[k].sitename, "the host's name", "host-final")
            finals.append(fin)
        own = []
        for n in range(nn):
            if h.choose("own%d" % n, 2) if free is None or n == free[-1] else n % 3:
                x = real("og%d" % n, 0 if free is None or n == free[-1] else 6, 50)
                h.assume(x > mg)
                own.append(SI(sitename="guest", best_fid=9, best_bid=8, gain=x, sum_grad=1.5, sum_hess=0.5))
            else:
                own.append(SI(sitename="guest", best_fid=None, best_bid=None, gain=mg - EPS, sum_grad=None, sum_hess=None))
        og = [s.gain for s in own]
        best = g.merge_splitinfo(own, finals)
        h.check(len(best) == nn, "one choice per node", "messages")
        for n in range(nn):
            s = best[n]
            cand = [(k, gains[k][n][picked[k][n]] if picked[k][n] is not None else mg - EPS) for k in range(nh)]
            if s.sitename == "guest":
                h.check(h.land(*[h.le(x, og[n] + EPS) for k, x in cand]), "a host split gains more than the guest's by more than 1e-6", "final-guest")
                h.check(s.best_fid == own[n].best_fid and s.best_bid == own[n].best_bid, "the guest's own split", "final-guest")
                h.close(s.gain, og[n], "the guest's gain", "final-guest")
            else:
                ks = [k for k in range(nh) if hosts[k].sitename == s.sitename]
                h.check(len(ks) == 1, "a known host", "final-host")
                k = ks[0]
                bi = picked[k][n]
                h.check(bi is not None, "a host with a candidate", "final-host")
                if bi is None:
                    continue
                x = gains[k][n][bi]
                h.check(x > og[n] + EPS - (0 if h.symbolic else 1e-9), "the host gains more than the guest by more than 1e-6", "final-host")
                h.check(h.land(*[h.le(y, x) for j, y in cand if j != k]), "no other host gains more", "final-host")
                h.check(s.best_fid == bi + 1, "the host's feature", "final-host")
                h.close(s.sum_grad, gl[k][n][bi][0], "the left gradient in the clear at the guest", "final-host")
                h.close(s.sum_hess, gl[k][n][bi][1], "the left hessian in the clear at the guest", "final-host")
                h.close(s.gain, x, "the host's gain", "final-host")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("one-host", choice([[2]], "sym"), bounds="1 host, 1 node, 2 candidates, any minimum gain"),
        Case("negative-min", choice([[2]], "neg"), bounds="1 host, any negative minimum gain"),
        Case("empty-lists", choice([[0, 1], [1, 0]], [0.0, 0.25]), bounds="2 hosts, 2 nodes, 0 or 1 candidates"),
        Case("two-hosts", choice([[1], [1]], "sym"), bounds="2 hosts, 1 node"),
        Case("two-hosts-2", choice([[2], [2]], [0.01]), bounds="2 hosts, 1 node, 2 candidates each"),
        Case("three-hosts", choice([[1], [1], [1]], [0.01]), bounds="3 hosts, 1 node"),
        Case("two-nodes", choice([[1, 2]], [0.01]), bounds="1 host, 2 nodes"),
        Case("three-candidates", choice([[3]], [0.0]), bounds="1 host, 3 candidates"),
    ]
    out += [
        Case("two-by-two", choice([[1, 1], [1, 1]], [0.01]), bounds="2 hosts, 2 nodes"),
        Case("four-candidates", choice([[4]], [0.01]), bounds="1 host, 4 candidates"),
        Case("three-hosts-2", choice([[2], [1], [2]], [0.01]), bounds="3 hosts, 1 node, 2/1/2 candidates"),
        Case("three-nodes", choice([[1, 1, 1]], [0.01]), bounds="1 host, 3 nodes"),
    ]
    out += [
        Case("six-hosts", choice([[2, 1], [1, 2], [0, 1], [2, 2], [1, 0], [3, 1]], [0.01], free=["g3_1_0", "og1", 1]),
             bounds="6 hosts, 2 nodes, 0..3 candidates; one candidate and one own gain any"),
        Case("eight-nodes", choice([[1, 2, 0, 1, 1, 2, 1, 1], [2, 1, 1, 0, 1, 1, 2, 3]], [0.01], free=["g1_5_0", "og5", 5]),
             bounds="2 hosts, 8 nodes, 0..3 candidates; one candidate and one own gain any"),
        Case("twelve-candidates", choice([[12, 3]], "sym", free=["g0_0_7", "og0", 0]), bounds="1 host, 12 candidates, one of them any, any minimum gain"),
    ]
    if big:
        out += [
            Case("five-candidates", choice([[5]], "sym"), bounds="1 host, 5 candidates"),
            Case("four-hosts", choice([[1], [1], [2], [1]], [0.01]), bounds="4 hosts, 1 node"),
            Case("two-by-two-2", choice([[2, 1], [1, 2]], [0.01]), bounds="2 hosts, 2 nodes, up to 2 candidates"),
            Case("three-nodes-2", choice([[2, 1, 2]], "sym"), bounds="1 host, 3 nodes"),
        ]
    return out
