"""C26: the network writer sends exactly the packets, whole and in order"""
import errno
import itertools
import os
import shutil
import socket
import struct
import sys
import tempfile
import threading

REAL = socket.socket


class FaultySocket(REAL):
    """A socket whose sends are answered by a plan: how much is taken, or an error"""

    plan = None     # function(length) -> amount or exception; None: as usual
    gate = None     # an event that the peer waits for before it reads: time passes whenever the socket would block

    def send(self, data, flags=0):
        if FaultySocket.gate is not None:
            return self.patient(memoryview(data).cast('B'))
        if FaultySocket.plan is None:
            return super().send(data, flags)
        data = memoryview(data).cast('B')
        if len(data) == 0:
            return super().send(data, flags)
        a = FaultySocket.plan(len(data))
        if isinstance(a, Exception):
            raise a
        super().sendall(data[:a], flags)
        return a

    waits = 0

    def patient(self, data):
        if FaultySocket.gate.is_set() or not len(data):
            return super().send(data)
        limited = self.gettimeout() is not None or any(self.getsockopt(socket.SOL_SOCKET, socket.SO_SNDTIMEO, 16))
        try:
            # (a socket with a time limit is not a blocking one)
            return os.write(self.fileno(), data) if self.gettimeout() is not None else super().send(data, socket.MSG_DONTWAIT)
        except BlockingIOError:
            FaultySocket.waits += 1
            if FaultySocket.waits > 3 or not limited:
                FaultySocket.gate.set()
            if limited:
                raise socket.timeout('timed out') if self.gettimeout() is not None else BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            return super().send(data)

    def sendall(self, data, flags=0):
        if FaultySocket.gate is not None:
            data = memoryview(data).cast('B')
            while len(data):
                data = data[self.send(data, flags):]
            return
        if FaultySocket.plan is None:
            return super().sendall(data, flags)
        data = memoryview(data).cast('B')
        while len(data):
            data = data[self.send(data, flags):]

    def sendmsg(self, buffers, *args):
        if FaultySocket.plan is None and FaultySocket.gate is None:
            return super().sendmsg(buffers, *args)
        return self.send(b''.join(bytes(b) for b in buffers))


socket.socket = FaultySocket        # before the code under test is imported, however it refers to it

import ccnpy.apps.manifest_writer
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import lib, space, wire
from ..engine import explore, raises
from . import c22

PID = 'C26'
TECHNIQUE = 'model checking: exhaustive enumeration of packet histories and of the answers of the socket (partial sends and errors, up to a number of deviations) on the real network writer with a real peer on the loopback interface'
BOUND = {
    'quick': 'all sequences of at most 3 of 5 packets (to 64 kB) x all plans with at most 2 partial sends (1 byte, 8, half, all but one) or errors (EPIPE, ECONNRESET, timeout); all interleavings of 2 writers with 4 puts; 12 schema variants published over the network, also with the command-line writer; kernel buffers of the smallest size with a slow peer; a peer that starts to read later than any time limit of the socket allows; peers that go away; streams of 300 and 3000 packets (to 21 MB); packets of every length to 65535',
    'thorough': 'at most 4 packets and 3 deviations',
}
ASSUMPTIONS = ['TCP on the loopback interface delivers what send accepted']


def units(tier):
    d = tier == 'thorough'
    u = []
    for n in range(0, 5 if d else 4):
        for first in range(5) if n else [0]:
            u.append(dict(kind='sequences', n=n, first=first, bound=3 if d and n < 4 else 2))
    u.append(dict(kind='writers', n=5 if d else 4))
    u += [dict(kind='published', schema=s) for s in lib.SCHEMAS]
    u.append(dict(kind='program'))
    u += [dict(kind='slow', packets=p) for p in (1, 3, 20)]
    u += [dict(kind='stall', first=p, then=q) for p in (1, 3, 20, 300) for q in (1, 2)]
    u += [dict(kind='long', n=n, every=e) for n in (300, 3000) for e in (0, 2, 7, 100)]
    u += [dict(kind='lengths', start=n) for n in range(0, 65536, 2048)]
    u.append(dict(kind='gone'))
    u.append(dict(kind='refused'))
    return u


def run(unit, ctx):
    FaultySocket.plan = None
    globals()[unit['kind']](unit, ctx)


class Peer:
    """Accepts one connection and keeps everything that comes until the end of the stream"""

    def __init__(self, port=0, slow=False, limit=None, gate=None):
        self.gate = gate
        self.listener = REAL(socket.AF_INET, socket.SOCK_STREAM)
        self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if slow:
            self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1)
        self.listener.bind(('127.0.0.1', port))
        self.listener.listen(5)
        self.listener.settimeout(60)
        self.port = self.listener.getsockname()[1]
        self.parts = []
        self.slow, self.limit = slow, limit
        self.eof = False
        self.how = None
        self.connections = 0
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def _run(self):
        try:
            c, _ = self.listener.accept()
            self.connections += 1
            c.settimeout(60)
            if self.gate is not None:
                self.gate.wait(60)
            got = 0
            while True:
                if self.slow:
                    threading.Event().wait(0.001)
                b = c.recv(256 if self.slow else 65536)
                if not b:
                    self.eof = True
                    break
                self.parts.append(b)
                got += len(b)
                if self.limit is not None and got >= self.limit:
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    break
            c.close()
            # nothing else comes on another connection
            self.listener.settimeout(0)
            try:
                self.listener.accept()
                self.connections += 1
            except OSError:
                pass
        except Exception as e:
            self.how = e
        finally:
            self.listener.close()

    def finish(self):
        self.thread.join(90)
        return b''.join(self.parts)

    def cancel(self):
        s = REAL(socket.AF_INET, socket.SOCK_STREAM)
        try:
            s.connect(('127.0.0.1', self.port))
        except OSError:
            pass
        s.close()
        self.finish()


_packets = []


def packets():
    """5 packets of different kinds and sizes"""
    if not _packets:
        cfg = dict(schema='S1', enc='g', opts='xdrngl', sign='r', deg=2, mps=700)
        p = lib.publish(cfg, lib.data(1200))
        _packets.extend([p.packets[0], p.packets[-2], p.packets[-1]])
        big = ContentObject.create_data(lib.N('ccnx:/big'), Payload(lib.data(64000)))
        _packets.append(Packet.create_content_object(big))
        _packets.append(Packet.create_content_object(ContentObject.create_data(None, Payload(b''))))
    return _packets


def wire_of(p):
    return p.serialize().tobytes()


ERRORS = [lambda: BrokenPipeError(errno.EPIPE, 'injected'), lambda: ConnectionResetError(errno.ECONNRESET, 'injected'),
          lambda: socket.timeout('injected')]


def sequences(unit, ctx):
    ps = packets()
    for rest in itertools.product(range(5), repeat=max(0, unit['n'] - 1)):
        seq = ((unit['first'],) if unit['n'] else ()) + rest
        want = b''.join(wire_of(ps[i]) for i in seq)

        def once(choices):
            taken = []

            def plan(n):
                amounts = sorted({a for a in (1, 8, n // 2, n - 1) if 0 < a < n})
                c = choices.choose(1 + len(amounts) + len(ERRORS))
                if c == 0:
                    a = n
                elif c <= len(amounts):
                    a = amounts[c - 1]
                else:
                    a = ERRORS[c - 1 - len(amounts)]()
                taken.append(a)
                return a
            peer = Peer()
            try:
                w = TreeIO.PacketNetworkWriter('127.0.0.1', peer.port)
            except Exception:
                peer.cancel()
                raise
            FaultySocket.plan = plan
            exc, done = None, 0
            try:
                for i in seq:
                    exc, _ = raises(w.put, ps[i])
                    if exc is not None:
                        break
                    done += 1
                e2, _ = raises(w.close)
                exc = exc or e2
                again, _ = raises(w.close)
                late, _ = raises(w.put, ps[0])
            finally:
                FaultySocket.plan = None
            got = peer.finish()
            return exc, done, got, taken, again, late, peer
        # an implementation that sends in many pieces has more places to deviate
        bound = unit['bound']
        for _, (_, _, _, taken, _, _, _) in explore(once, 0):
            if len(taken) > 2 * len(seq):
                bound = 1
        for ch, (exc, done, got, taken, again, late, peer) in explore(once, bound):
            case = dict(sequence=list(seq), answers=[repr(a) for a in taken])
            ctx.step(len(seq) + len(taken))
            errors = [a for a in taken if isinstance(a, Exception)]
            if errors:
                ctx.check(exc is not None, case, 'a send fails and no error is reported')
                ctx.check(want.startswith(got), case, 'the peer gets %d bytes that are not the beginning of the packets' % len(got))
            else:
                ctx.check(exc is None, case, 'put or close fails with %r' % (exc,))
                ctx.check(got == want, case, 'the peer gets %d bytes, not the %d of the packets (the same up to %d)' % (len(got), len(want), len(os.path.commonprefix([got, want]))))
            ctx.check(peer.eof and peer.how is None and peer.connections == 1, case, 'no end of the stream after close: %r, %d connections' % (peer.how, peer.connections))
            ctx.check(again is None, case, 'a second close fails with %r' % (again,))
            ctx.check(late is not None, case, 'put after close is not refused')
            ctx.state((seq, ch.taken))
            ctx.trace('error' if errors else '%d partial' % sum(ch.taken[i] != 0 for i in range(len(ch.taken))))
        ctx.sample(sequence=list(seq), bytes=len(want))


def writers(unit, ctx):
    """Two writers: each peer gets its own"""
    ps = packets()
    for n in range(unit['n'] + 1):
        for who in itertools.product((0, 1), repeat=n):
            for close_first in (0, 1):
                case = dict(puts=list(who), close_first=close_first)
                with ctx.guard(case):
                    peers = [Peer(), Peer()]
                    w = [TreeIO.PacketNetworkWriter('127.0.0.1', p.port) for p in peers]
                    for k, i in enumerate(who):
                        w[i].put(ps[k % 5])
                        ctx.step()
                    w[close_first].close()
                    w[1 - close_first].put(ps[2])
                    w[1 - close_first].close()
                    for i in (0, 1):
                        want = b''.join(wire_of(ps[k % 5]) for k, j in enumerate(who) if j == i) + (wire_of(ps[2]) if i != close_first else b'')
                        got = peers[i].finish()
                        ctx.check(got == want, case, 'peer %d gets %d bytes instead of %d' % (i, len(got), len(want)))
                ctx.trace('two writers')
                ctx.state((who, close_first))
    ctx.sample(case=case)


def split(stream):
    out = []
    while stream:
        if len(stream) < 8:
            raise wire.Malformed('a torn header at the end')
        n = int.from_bytes(stream[2:4], 'big')
        if n < 8 or n > len(stream):
            raise wire.Malformed('a torn packet at the end')
        out.append(stream[:n])
        stream = stream[n:]
    return out


def same_tree(ctx, case, stream, content, enc=''):
    with ctx.guard(case):
        wires = split(stream)
        tree = wire.Tree(wires, lib.Opener(enc))
        ctx.check(tree.data == content, case, 'the packets at the peer are not a tree of the input')
        ctx.check(len(tree.visits) == len(wires), case, '%d packets for %d visits' % (len(wires), len(tree.visits)))


def published(unit, ctx):
    for enc in ('', 'g', 'w'):
        cfg = dict(schema=unit['schema'], enc=enc, opts='', sign='', deg=2, mps=0)
        cfg['mps'] = space.workable(cfg) + 40
        for n in (1, 900, 3000):
            content = lib.data(n)
            case = dict(cfg, size=n)
            with ctx.guard(case):
                peer = Peer()
                w = TreeIO.PacketNetworkWriter(port=peer.port, host='127.0.0.1')
                ManifestTree(data_input=lib.Input(content), packet_output=w, tree_options=lib.options(cfg)).build()
                w.close()
                got = peer.finish()
                ctx.step()
                same_tree(ctx, case, got, content, enc)
            ctx.trace('published')
            ctx.state((unit['schema'], enc, n))
    ctx.sample(case=case)


def program(unit, ctx):
    """manifest_writer -T"""
    d = tempfile.mkdtemp(prefix='c26-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        for schema, extra in (('Hashed', []), ('Prefix', []), ('Segmented', ['--manifest-prefix', 'ccnx:/m', '--data-prefix', 'ccnx:/d'])):
            for n in (1, 2000, 100000):
                content = lib.data(n, 3)
                with open(os.path.join(d, 'in'), 'wb') as f:
                    f.write(content)
                try:
                    peer = Peer(9896)
                except OSError:
                    ctx.notes['port 9896 is in use here'] += 1
                    continue
                case = dict(schema=schema, size=n)
                code, out = c22.program('manifest_writer', ['--name', 'ccnx:/a', '--schema', schema, '-d', '3', '-s', '600', '-T'] + extra + ['in'], d, '')[:2]
                ctx.step()
                if not ctx.check(code == 0, case, lambda: 'manifest_writer -T ends with %r: %s' % (code, str(out)[-500:])):
                    peer.cancel()
                    continue
                same_tree(ctx, case, peer.finish(), content)
                ctx.trace('program')
                ctx.state((schema, n))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # and without anyone to talk to
    ctx.sample(case='manifest_writer -T')


def slow(unit, ctx):
    """The partial sends are those of the kernel"""
    ps = packets()
    seq = [ps[i % 5] for i in range(3, 3 + unit['packets'])]
    want = b''.join(map(wire_of, seq))
    buffers = REAL.connect

    def connect(self, address):
        self.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1)
        return buffers(self, address)
    FaultySocket.connect = connect
    try:
        with ctx.guard(unit):
            peer = Peer(slow=True)
            w = TreeIO.PacketNetworkWriter('127.0.0.1', peer.port)
            for p in seq:
                w.put(p)
                ctx.step()
            w.close()
            got = peer.finish()
            ctx.check(got == want and peer.eof, unit, 'the peer gets %d bytes instead of %d' % (len(got), len(want)))
    finally:
        del FaultySocket.connect
    ctx.trace('slow peer')
    ctx.state(unit)
    ctx.sample(bytes=len(want))


def stall(unit, ctx):
    """A peer that does not read for longer than anybody waits, and then does"""
    ps = packets()
    # then: how many more writers and peers come after
    for turn in range(unit['then']):
        seq = [ps[i % 5] for i in range(3, 3 + unit['first'])]
        want = b''.join(map(wire_of, seq))
        case = dict(unit, turn=turn)
        ctx.case = case
        gate = threading.Event()
        FaultySocket.gate, FaultySocket.waits = gate, 0
        try:
            with ctx.guard(case):
                peer = Peer(gate=gate)
                w = TreeIO.PacketNetworkWriter('127.0.0.1', peer.port)
                for p in seq:
                    w.put(p)
                    ctx.step()
                gate.set()
                w.close()
                got = peer.finish()
                ctx.check(got == want and peer.eof, case, 'the peer gets %d bytes instead of %d' % (len(got), len(want)))
        finally:
            gate.set()
            FaultySocket.gate = None
        ctx.trace('peer read %s' % ('late' if FaultySocket.waits else 'in time'))
        ctx.state((unit['first'], turn))


def long(unit, ctx):
    """Many packets over one connection, every so many sends partial"""
    ps = packets()
    seq = [ps[(0, 1, 2, 4, 0, 3, 1, 2, 4)[k % 9]] for k in range(unit['n'])]
    want = b''.join(map(wire_of, seq))
    count = [0]

    def plan(n):
        count[0] += 1
        if unit['every'] and count[0] % unit['every'] == 0 and n > 1:
            return (n // 2, n - 1, 1)[count[0] // unit['every'] % 3]
        return n
    peer = Peer()
    w = TreeIO.PacketNetworkWriter('127.0.0.1', peer.port)
    FaultySocket.plan = plan
    try:
        with ctx.guard(unit):
            for p in seq:
                w.put(p)
                ctx.step()
            w.close()
    finally:
        FaultySocket.plan = None
    got = peer.finish()
    ctx.check(got == want and peer.eof, unit, lambda: 'the peer gets %d bytes instead of %d (the same up to %d)' % (len(got), len(want), len(os.path.commonprefix([got, want]))))
    ctx.trace('long stream')
    ctx.state(unit)
    ctx.sample(bytes=len(want))


def lengths(unit, ctx):
    """Packets of every length, one after the other"""
    least = len(wire_of(packet_of(0)))
    for start in range(unit['start'], unit['start'] + 2048, 256):
        todo = [packet_of(n - least) for n in range(max(start, least), start + 256)]
        if not todo:
            continue
        case = dict(lengths=[start, start + 255])
        with ctx.guard(case):
            peer = Peer()
            w = TreeIO.PacketNetworkWriter('127.0.0.1', peer.port)
            for p in todo:
                w.put(p)
            w.close()
            got = peer.finish()
            at = 0
            for p in todo:
                want = wire_of(p)
                if got[at:at + len(want)] != want:
                    ctx.fail(dict(length=len(want)), 'the packet of %d bytes does not arrive as it is' % len(want))
                    break
                at += len(want)
            ctx.check(at == len(got) and peer.eof, case, '%d bytes come, not %d' % (len(got), at))
        ctx.step(len(todo))
        ctx.trace('lengths', len(todo))
        ctx.state(start)
    ctx.sample(case=case)


def packet_of(n):
    return Packet.create_content_object(ContentObject.create_data(None, Payload(lib.data(n))))


def gone(unit, ctx):
    """A peer that resets the connection after some bytes: the writer does not go on forever without an error"""
    ps = packets()
    for limit in (1, 8, 100, 1000, 64000, 200000):
        case = dict(unit, limit=limit)
        peer = Peer(limit=limit)
        w = TreeIO.PacketNetworkWriter('127.0.0.1', peer.port)
        exc = None
        for k in range(400):
            exc, _ = raises(w.put, ps[3])
            ctx.step()
            if exc is not None:
                break
        e2, _ = raises(w.close)
        got = peer.finish()
        ctx.check(exc is not None or e2 is not None, case, 'the peer went away and 400 packets were accepted without an error')
        ctx.check((wire_of(ps[3]) * 401).startswith(got), case, 'the peer got other bytes')
        ctx.check(isinstance(exc or e2, OSError), case, 'the error is %r' % (exc,))
        ctx.trace('gone')
        ctx.state(limit)
    ctx.sample(limits=6)


def refused(unit, ctx):
    """Nobody listens"""
    s = REAL(socket.AF_INET, socket.SOCK_STREAM)
    s.bind(('127.0.0.1', 0))
    port = s.getsockname()[1]
    exc, _ = raises(TreeIO.PacketNetworkWriter, '127.0.0.1', port)
    ctx.check(isinstance(exc, OSError), unit, 'connecting to a closed port gives %r' % (exc,))
    s.close()
    ctx.step()
    ctx.trace('refused')
    ctx.state('refused')
    ctx.sample(port='closed')
