"""C02: framing over a fragmenting byte stream (symbolic lengths, chunk sizes and close position) and routing."""
from symx.runner import Case
from symx import net as N

DESC = ("send_data/recv_data run over sockets whose messages have symbolic pickle lengths and whose reads return a symbolic "
        "number of bytes; the stream is a concatenation of intervals, so one path stands for every chunk size of that shape.")


def same(h, got, want):
    if type(got) is not type(want):
        return False
    return got == want if not isinstance(want, (list, tuple)) else len(got) == len(want) and all(same(h, a, b) for a, b in zip(got, want))


ODD = [None, False, True, 0, 0.0, "", b"", [], (), {}, [None], [[], 0, ""], -1, "x", {0: None}, (0, 1), b"\x00"]


def odd(nhost):
    """objects that are easily mistaken for "nothing there" or for something else"""
    def fn(h):
        net = N.Net(h, 0)
        w = N.world(h, net)
        G = h.cls("federation.transfer_inst", "TransferInstGuest")
        H = h.cls("federation.transfer_inst", "TransferInstHost")
        pairs = [net.pair("g%d" % i, "h%d" % i) for i in range(nhost)]
        net.accepts = [p[0] for p in pairs]
        g = G(12345, nhost)
        hosts = []
        for p in pairs:
            net.made = [p[1]]
            hosts.append(H("127.0.0.1", 12345))
        r = h.choose("first", len(ODD))
        a, b, c = ODD[r], ODD[(r + 3) % len(ODD)], N.message(h, "m")
        to = h.pick("to", [-1, 0])
        for o in (a, c, b):
            g.send_data_to_hosts(o, to)
        for i, ho in enumerate(hosts):
            if to in (-1, i):
                for o in (a, c, b):
                    h.check(same(h, ho.recv_data_from_guest(), o), "the host gets %r" % (o if o is not c else "the message",), "object")
            h.check(not pairs[i][1].inbox, "host %d gets nothing more" % i, "stray")
            for o in (b, a, c):
                ho.send_data_to_guest(o)
        for o in (b, a, c):
            h.check(same(h, g.recv_data_from_hosts(-1), [o] * nhost), "the guest gets %r from every host" % (o if o is not c else "the message",), "object")
        for gs, hs in pairs:
            h.check(not gs.inbox, "the guest gets nothing more", "stray")
    return fn


def series(nhost, n, short):
    """a long exchange through the guest and host classes: every message in its place"""
    def fn(h):
        net = N.Net(h, short)
        w = N.world(h, net)
        G = h.cls("federation.transfer_inst", "TransferInstGuest")
        H = h.cls("federation.transfer_inst", "TransferInstHost")
        pairs = [net.pair("g%d" % i, "h%d" % i) for i in range(nhost)]
        net.accepts = [p[0] for p in pairs]
        g = G(12345, nhost)
        hosts = []
        for p in pairs:
            net.made = [p[1]]
            hosts.append(H("127.0.0.1", 12345))
        late = h.choose("late", 2)
        want = [[] for _ in hosts]
        for k in range(n):
            m = N.message(h, "m%d" % k, lo=60 if k == n // 2 else 60 + k, hi=9999 if k == n // 2 else 60 + k)
            to = (k % (nhost + 1)) - 1
            g.send_data_to_hosts(m, to)
            for i in range(nhost):
                if to in (-1, i):
                    want[i].append(m)
            if not late or k == n - 1:
                for i in range(nhost):
                    for m in want[i]:
                        h.check(same(h, hosts[i].recv_data_from_guest(), m), "host %d gets its messages in order" % i, "object")
                    want[i] = []
        for k in range(n // 2):
            ms = [N.message(h, "b%d_%d" % (k, i), lo=70 + i, hi=70 + i) for i in range(nhost)]
            for ho, m in reversed(list(zip(hosts, ms))):
                ho.send_data_to_guest(m)
            if k % 2:
                got_ = [g.recv_data_from_hosts(i) for i in range(nhost)]
            else:
                got_ = g.recv_data_from_hosts(-1)
            h.check(same(h, got_, ms), "the guest gets the hosts' objects in host order", "object")
        for gs, hs in pairs:
            h.check(not gs.inbox and not hs.inbox, "nothing is left over", "stray")
    return fn


def stream(nmsg, short, hi=9999):
    def fn(h):
        net = N.Net(h, short)
        w = N.world(h, net)
        TI = h.cls("federation.transfer_inst", "TransferInst")
        a, b = net.pair("a", "b")
        msgs = [N.message(h, "m%d" % i, hi=hi) for i in range(nmsg)]
        interleave = h.choose("interleave", 2)
        if interleave:
            for i, m in enumerate(msgs):
                TI.send_data(a, m)
                got(h, TI, b, m, i)
        else:
            for m in msgs:
                TI.send_data(a, m)
            for i, m in enumerate(msgs):
                got(h, TI, b, m, i)
        left = 0
        for p in b.inbox:
            left = left + N.plen(p)
        h.check(h.eq(left, 0), "bytes left over after the last message", "leftover")
    return fn


def got(h, TI, s, m, i):
    try:
        r = TI.recv_data(s)
    except N.Blocked:
        return h.check(False, "receiving message %d waits for bytes that were never sent" % i, "blocks")
    except N.Spin:
        return h.check(False, "receiving message %d reads for ever" % i, "spins")
    except Exception as e:
        if type(e).__name__ in ("Unsupported",):
            raise
        return h.check(False, "receiving message %d failed: %s" % (i, type(e).__name__), "fails")
    h.check(same(h, r, m), "message %d arrives as another object" % i, "object")


def closing(nmsg, short):
    def fn(h):
        net = N.Net(h, short)
        w = N.world(h, net)
        TI = h.cls("federation.transfer_inst", "TransferInst")
        a, b = net.pair("a", "b")
        msgs = [N.message(h, "m%d" % i) for i in range(nmsg)]
        ends, pos = [], 0
        for m in msgs:
            TI.send_data(a, m)
            total = 0
            for p in a.sent:
                total = total + N.plen(p)
            ends.append(total)
        cut = h.int("cut", 0, 40000)
        h.assume(cut < ends[-1])
        b.cut = cut
        for i, m in enumerate(msgs):
            whole = h.branch(ends[i] <= cut)
            try:
                r = TI.recv_data(b)
            except N.Spin:
                return h.check(False, "receiving from a closed connection never returns", "spins")
            except N.Blocked:
                return h.check(False, "receive blocks on a closed connection", "blocks")
            except Exception as e:
                if type(e).__name__ == "Unsupported":
                    raise
                h.check(not whole, "a complete message was not delivered before the close", "lost")
                return
            h.check(whole, "a partial message was returned as an object", "partial")
            if whole:
                h.check(same(h, r, m), "message %d arrives as another object" % i, "object")
    return fn


def routing(nhost):
    def fn(h):
        net = N.Net(h, 0)
        w = N.world(h, net)
        G = h.cls("federation.transfer_inst", "TransferInstGuest")
        H = h.cls("federation.transfer_inst", "TransferInstHost")
        pairs = [net.pair("g%d" % i, "h%d" % i) for i in range(nhost)]
        net.accepts = [p[0] for p in pairs]
        g = G(12345, nhost)
        hosts = []
        for p in pairs:
            net.made = [p[1]]
            hosts.append(H("127.0.0.1", 12345))
        h.check(not net.accepts, "the guest accepts one connection per host", "accept")
        idx = h.int("index", -4, nhost + 3)
        out = N.message(h, "out")
        backs = [N.message(h, "back%d" % i) for i in range(nhost)]
        for i, ho in enumerate(hosts):
            ho.send_data_to_guest(backs[i])
        before = [len(p[0].inbox) for p in pairs]
        valid = h.branch(h.land(idx >= 0, idx < nhost))
        allh = h.branch(idx == -1)
        try:
            g.send_data_to_hosts(out, idx)
        except ValueError:
            h.check(not valid and not allh, "a valid index was refused for sending", "refused")
        else:
            h.check(valid or allh, "an invalid index was accepted for sending", "accepted")
        for i, (gs, hs) in enumerate(pairs):
            mine = allh or (valid and h.branch(idx == i))
            if mine:
                h.check(same(h, hosts[i].recv_data_from_guest(), out), "host %d gets the object" % i, "deliver")
            h.check(not hs.inbox, "host %d gets nothing more" % i, "stray")
        try:
            r = g.recv_data_from_hosts(idx)
        except ValueError:
            h.check(not valid and not allh, "a valid index was refused for receiving", "refused")
            h.check(before == [len(p[0].inbox) for p in pairs], "nothing is received for an invalid index", "consumed")
            return
        h.check(valid or allh, "an invalid index was accepted for receiving", "accepted")
        if allh:
            h.check(isinstance(r, list) and len(r) == nhost, "one object per host", "recv")
            for i in range(nhost):
                h.check(same(h, r[i], backs[i]), "objects in host order", "recv")
        elif valid:
            k = h.value(idx)
            h.check(same(h, r, backs[k]), "the object of the indexed host", "recv")
            for i in range(nhost):
                if i != k:
                    h.check(len(pairs[i][0].inbox) == before[i], "other hosts' messages stay", "consumed")
    return fn


def duplex(short):
    """both directions, several exchanges through the guest/host classes"""
    def fn(h):
        net = N.Net(h, short)
        w = N.world(h, net)
        G = h.cls("federation.transfer_inst", "TransferInstGuest")
        H = h.cls("federation.transfer_inst", "TransferInstHost")
        p = net.pair("g", "h")
        net.accepts = [p[0]]
        g = G(1, 1)
        net.made = [p[1]]
        ho = H("x", 1)
        for r in range(2):
            a, b = N.message(h, "a%d" % r), N.message(h, "b%d" % r)
            g.send_data_to_hosts(a, h.pick("to%d" % r, [-1, 0]))
            h.check(same(h, ho.recv_data_from_guest(), a), "guest to host", "object")
            ho.send_data_to_guest(b)
            h.check(same(h, g.recv_data_from_hosts(0), b), "host to guest", "object")
    return fn


def changed(times):
    """the same object is sent again, to the same or another host, after the sender changed it (or not)"""
    def fn(h):
        net = N.Net(h, 0)
        w = N.world(h, net)
        G = h.cls("federation.transfer_inst", "TransferInstGuest")
        H = h.cls("federation.transfer_inst", "TransferInstHost")
        pairs = [net.pair("g%d" % i, "h%d" % i) for i in range(2)]
        net.accepts = [p[0] for p in pairs]
        g = G(12345, 2)
        hosts = []
        for p in pairs:
            net.made = [p[1]]
            hosts.append(H("127.0.0.1", 12345))
        m, late = N.message(h, "m"), h.choose("late", 2)
        want = {i: [] for i in range(2)}
        up = []

        def receive():
            for i in range(2):
                for o in want[i]:
                    h.check(same(h, hosts[i].recv_data_from_guest(), o), "an object sent again arrives as it was when it was sent", "object")
                want[i] = []
            for o in up:
                h.check(same(h, g.recv_data_from_hosts(1), o), "an object a host sends again arrives as it was when it was sent", "object")
            del up[:]
        for t in range(times):
            to = h.pick("to%d" % t, [-1, 0, 1])
            g.send_data_to_hosts(m, to)
            for i in range(2):
                if to in (-1, i):
                    want[i].append(N.content(h, m))
            hosts[1].send_data_to_guest(m)
            up.append(N.content(h, m))
            if not late:
                receive()
            if h.choose("change%d" % t, 2):
                N.change(h, m, "new%d" % t)
        receive()
    return fn


def cases(tier):
    big = tier == "thorough"
    s = 5 if big else 3
    out = []
    for n in (1, 2, 3) if big else (1, 2):
        out.append(Case("stream-%d" % n, stream(n, s), bounds="%d messages of 40..9999 bytes, up to %d short reads of any size" % (n, s)))
        out.append(Case("close-%d" % n, closing(n, s - 1), bounds="%d messages, close after any byte, up to %d short reads" % (n, s - 1)))
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        out.append(Case("routing-%d" % n, routing(n), bounds="%d hosts, index -4..%d" % (n, n + 3)))
    out.append(Case("long", stream(1, 1, 300000), bounds="1 message of 40..300000 bytes, 1 short read"))
    out.append(Case("odd-1", odd(1), bounds="1 host, %d empty-like objects" % len(ODD)))
    out.append(Case("odd-2", odd(2), bounds="2 hosts, %d empty-like objects" % len(ODD)))
    out.append(Case("series", series(1, 12, 1), bounds="1 host, 12 messages (one of 60..9999 bytes) down, 6 up, 1 short read"))
    out.append(Case("series-5", series(5, 12, 0), bounds="5 hosts, 12 messages down, 6 rounds up"))
    out.append(Case("changed", changed(4 if big else 2), bounds="2 hosts, one object sent %d times and changed or not in between" % (4 if big else 2)))
    out.append(Case("duplex", duplex(3 if big else 1), bounds="2 exchanges in both directions, up to %d short reads" % (3 if big else 1)))
    return out
