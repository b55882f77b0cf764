"""C24: a publication interrupted at any point leaves a consistent store"""
import contextlib
import errno
import gc
import io
import os
import resource
import shutil
import signal
import sys
import tempfile
import types

import ccnpy.apps.manifest_writer
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import keys, lib, space, wire
from ..engine import raises

PID = 'C24'
TECHNIQUE = 'model checking: exhaustive enumeration of crash points, torn writes (by the kernel, with a file size limit) and failing operations of real publications into real directories, alone and in pairs over repeated runs, every resulting directory examined independently and by the real reader'
BOUND = {
    'quick': 'directory: 16 configurations (3 schemas, 3 encryptions, signed or not, with and without links, the command-line writer) x every file system operation crashed before, or failing, or its file torn at 4 lengths with the process killed or the write failing, each followed by an undisturbed run; 3 configurations x every pair of such crashes of two runs in a row; sink: 12 schema variants x 4 encryptions x 2 option sets x every put failing; every read of the input failing; a link that is complete must lead to a packet that is there',
    'thorough': 'directory: 40 configurations, torn at 12 lengths, pairs for 8 configurations; sink: all 10 encryptions and larger trees; a link that is complete must lead to a packet that is there',
}
ASSUMPTIONS = ['a crash stops the process; what it wrote before is in the files (no loss of completed writes)', 'renaming a file is atomic']

CONTENT = 900


def configs(deep):
    out = []
    for s in ('H1', 'P2', 'S1') + (('S3', 'H4') if deep else ()):
        for enc in ('', 'g', 'w') + (('k',) if deep else ()):
            for sign in ('', 'r'):
                for links in (True, False):
                    if not deep and (enc and sign or (not links and (s == 'P2' or enc))):
                        continue
                    out.append(dict(schema=s, enc=enc, opts='', sign=sign, deg=2, links=links))
    out.append(dict(schema='H1', enc='', opts='', sign='', deg=2, links=True, cli=True))
    return out


def units(tier):
    d = tier == 'thorough'
    parts = 8
    u = []
    for c in configs(d):
        u += [dict(kind='single', cfg=c, lengths=12 if d else 4, part=i, parts=2) for i in range(2)]
    for c in [dict(schema=s, enc=e, opts='', sign='', deg=2, links=l) for s, e, l in [('H1', '', False), ('S1', '', True), ('P2', 'g', False)] + ([('H1', 'g', True), ('S1', 'w', True), ('S3', '', False), ('P2', '', True), ('H3', '', True)] if d else [])]:
        u += [dict(kind='double', cfg=c, part=i, parts=parts) for i in range(parts)]
    encs = list(lib.ENCS) if d else ['', 'g', 'K', 'w']
    u += [dict(kind='sink', schema=s, encs=encs, nbs=[1, 2, 5, 9, 20] if d else [1, 5]) for s in lib.SCHEMAS]
    u += [dict(kind='inputs', schema=s) for s in lib.SCHEMAS]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c24-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- one run in a process of its own ----------------------------------------------------------------------------------

def full(cfg):
    c = {k: v for k, v in cfg.items() if k not in ('links', 'cli')}
    c['mps'] = space.workable(dict(c, mps=0)) + 40
    return c


def content_of(cfg):
    n = 3 * lib.payload_size(full(cfg)) + 1
    return lib.data(min(n, 3 * 500 + 1), 11)


MUTATING = ('os.rename', 'os.remove', 'os.link', 'os.symlink', 'os.mkdir', 'os.truncate', 'os.rmdir')


class Faults:
    """
    Counts the operations that change the file system below a directory, and makes one of them go wrong.
    fault: (index, what, length): 'crash' before it, 'fail' with ENOSPC, 'kill' or 'short' in the write at that length
    """

    def __init__(self, top, fault, log):
        self.top, self.fault, self.log = top, fault, log
        self.n = -1
        self.limited = False
        self.active = True

    def __call__(self, event, args):
        if not self.active:
            return
        if event == 'open':
            path, mode, flags = args
            if not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
        elif event in MUTATING:
            path = args[0]
        else:
            return
        if not isinstance(path, (str, bytes)) and not hasattr(path, '__fspath__'):
            return
        path = os.fsdecode(path)
        if not os.path.abspath(path).startswith(self.top + os.sep):
            return
        self.n += 1
        dst = os.fsdecode(args[1]) if event == 'os.rename' else None
        if self.log is not None:
            self.log.append((event, path, dst))
        if self.limited:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            self.limited = False
        if self.fault is None or self.fault[0] != self.n:
            return
        _, what, length = self.fault
        if what == 'crash':
            os._exit(77)
        if what == 'fail':
            raise OSError(errno.ENOSPC, 'no space left (injected)')
        if what == 'kill':
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.limited = True
        resource.setrlimit(resource.RLIMIT_FSIZE, (length, resource.RLIM_INFINITY))


def publication(cfg, d, content):
    """The publication to be disturbed"""
    if cfg.get('cli'):
        m = types.ModuleType('__main__')
        module = ccnpy.apps.manifest_writer
        m.__dict__.update(__file__=module.__file__, __package__=module.__package__, __spec__=module.__spec__)
        with open(d + '.in', 'wb') as f:
            f.write(content)
        sys.argv = ['manifest_writer', '--name', lib.ROOT_URI, '-o', d, '-d', '2', '-s', str(full(cfg)['mps']), '-p', ''] + (['--link'] if cfg['links'] else []) + [d + '.in']
        with open(module.__file__, 'rb') as f:
            code = compile(f.read(), module.__file__, 'exec')
        try:
            exec(code, m.__dict__)
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError('exit %r' % (e.code,))
        return
    opts = lib.options(full(cfg))
    writer = TreeIO.PacketDirectoryWriter(d, link_named_objects=cfg['links'], signer=opts.signer)
    ManifestTree(data_input=lib.Input(content), packet_output=writer, tree_options=opts).build()
    writer.close()


def attempt(cfg, d, content, fault=None, log=False):
    """Publish in a process of its own with a fault.  Returns (outcome, errno, operations)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            sys.stdout = open(os.devnull, 'w')
            sys.stderr = open(os.devnull, 'w')
            ops = []
            f = Faults(d, fault, ops if log else None)
            sys.addaudithook(f)
            try:
                publication(cfg, d, content)
                out = ('ok', 0)
            except Exception as e:
                out = (type(e).__name__, e.errno if isinstance(e, OSError) else -1)
            f.active = False
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            os.write(w, repr((out[0], out[1], f.n + 1, ops)).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == 0:
        return eval(data.decode())
    return ('crash', code, -1, [])


def trial(cfg, content):
    """An undisturbed run: its operations [(event, length of the file it made, or None)]"""
    with scratch() as d:
        top = os.path.join(d, 's')
        os.mkdir(top)
        out, _, n, ops = attempt(cfg, top, content, log=True)
        if out != 'ok':
            raise AssertionError('an undisturbed publication fails: %s' % (out,))
        res = []
        for i, (event, path, dst) in enumerate(ops):
            length = None
            if event == 'open':
                final = path
                for e2, p2, d2 in ops[i + 1:]:
                    if e2 == 'os.rename' and p2 == final:
                        final = d2
                        break
                length = os.path.getsize(final) if os.path.exists(final) else 0
            res.append((event, length))
        return res


def faults_of(ops, lengths):
    for i, (event, length) in enumerate(ops):
        yield (i, 'crash', 0)
        if event != 'os.remove':
            yield (i, 'fail', 0)
        if length:
            at = sorted({0, 8, length // 2, length - 1} | ({1, 4, 7, 12, 20, length // 4, 3 * length // 4, length - 8} if lengths > 4 else set()))
            for n in at:
                if 0 <= n < length:
                    yield (i, 'kill', n)
                    if n in (0, length // 2) or lengths > 4:
                        yield (i, 'short', n)
    yield (len(ops), 'none', 0)


# -- what is left -----------------------------------------------------------------------------------------------------

def examine(ctx, case, cfg, top, content):
    """Every complete packet must head a readable subtree.  Returns the hashes of complete roots"""
    c = full(cfg)
    e = lib.ENCS[c['enc']]
    found, links = {}, []
    for base, _, files in os.walk(top):
        for f in files:
            with open(os.path.join(base, f), 'rb') as b:
                w = b.read()
            try:
                p = wire.packet(w)
            except Exception:
                continue
            if p.ptype not in (wire.DATA, wire.MANIFEST):
                links.append((f, p))
            elif f == p.hash.hex():
                found[p.hash] = p
            # a complete packet under another name is the leftover of a write that was not finished
    data = {}

    def bytes_of(h):
        if h not in data:
            if h not in found:
                return None
            p = found[h]
            if p.ptype == wire.DATA:
                data[h] = p.payload
            else:
                m = wire.manifest(p.payload)
                node = m.node if m.node is not None else wire.node_of(wire.decrypt(m, lib.enc_key(e), e['salt'], e.get('kdf_salt')))
                parts = [bytes_of(x) for g in node.groups for x in g.ptrs]
                data[h] = None if None in parts else b''.join(parts)
        return data[h]

    roots = []
    for h, p in found.items():
        ctx.step()
        b = bytes_of(h)
        ctx.check(b is not None, case, lambda: 'a complete %s points to packets that are not all there' % ('root' if p.name == wire.uri_name(lib.ROOT_URI) else 'manifest'))
        ctx.check(b is None or b in content, case, 'a complete packet heads bytes that are not part of the input')
        if b == content and p.ptype == wire.MANIFEST and p.name == wire.uri_name(lib.ROOT_URI):
            m = wire.manifest(p.payload)
            node = m.node if m.node is not None else wire.node_of(wire.decrypt(m, lib.enc_key(e), e['salt'], e.get('kdf_salt')))
            if node.nc_defs:
                roots.append(h)
    for f, p in links:
        if not f.endswith('.tmp'):
            to, = [wire.tlvs(v)[0][1] for t, v in wire.tlvs(p.payload) if t == 3]
            ctx.check(to in found, case, 'a complete link leads to a packet that is not there')
    return sorted(roots), len(found), len(links)


def read_with(cfg, top, root_hash):
    c = full(cfg)
    sink = lib.Sink()
    t = Traversal(TreeIO.PacketDirectoryReader(top), sink, lib.keystore(c['enc'], c['sign']))
    exc, _ = raises(t.traverse, lib.N(lib.ROOT_URI), None if root_hash is None else lib.hash_value(root_hash))
    return exc, sink.bytes()


def examine_and_read(ctx, case, cfg, top, content, complete):
    """complete: the last run was not disturbed"""
    roots, packets, links = examine(ctx, case, cfg, top, content)
    for h in roots:
        exc, got = read_with(cfg, top, h)
        ctx.check(exc is None and got == content, case, 'the root is there but reading gives %d of %d bytes and %r' % (len(got), len(content), exc))
    if complete:
        ctx.check(len(roots) > 0, case, 'no readable root after an undisturbed publication')
    if cfg['links']:
        exc, got = read_with(cfg, top, None)
        if complete:
            ctx.check(exc is None and got == content, case, 'reading by name gives %d of %d bytes and %r' % (len(got), len(content), exc))
        else:
            ctx.check(content.startswith(got) and (exc is not None or got == content), case, 'reading by name delivers %d wrong bytes and %r' % (len(got), exc))
    ctx.state((sorted(cfg.items(), key=str), packets, links, len(roots), complete))
    return roots


def disturbed(ctx, case, cfg, top, content, fault):
    """One run with a fault, and what has to be true of its outcome"""
    out, no, _, _ = attempt(cfg, top, content, None if fault[1] == 'none' else fault)
    ctx.step()
    if fault[1] == 'none':
        ctx.check(out == 'ok', case, 'an undisturbed publication fails: %s' % out)
    elif fault[1] in ('crash', 'kill'):
        if out != 'crash':
            ctx.notes['fault not reached'] += 1
        ctx.check(out in ('crash', 'ok'), case, 'outcome %s' % out)
    else:
        want = errno.ENOSPC if fault[1] == 'fail' else errno.EFBIG
        ctx.check(out != 'ok', case, 'the store failed an operation and the publication reports success')
        ctx.check(out != 'crash', case, 'the process ended with %r' % no)
        ctx.check(out == 'ok' or no == want, case, 'the store fails with errno %d, the publication with %s (%d)' % (want, out, no))
    return out


def single(unit, ctx):
    cfg = unit['cfg']
    content = content_of(cfg)
    gc.collect()
    gc.freeze()
    ops = trial(cfg, content)
    for i, fault in enumerate(faults_of(ops, unit['lengths'])):
        if i % unit['parts'] != unit['part']:
            continue
        case = dict(cfg, fault=list(fault))
        ctx.case = case
        with scratch() as d:
            top = os.path.join(d, 's')
            os.mkdir(top)
            out = disturbed(ctx, case, cfg, top, content, fault)
            examine_and_read(ctx, dict(case, when='after the fault'), cfg, top, content, out == 'ok')
            again, no, _, _ = attempt(cfg, top, content)
            ctx.step()
            ctx.check(again == 'ok', case, 'publishing again fails: %s %s' % (again, no))
            examine_and_read(ctx, dict(case, when='after publishing again'), cfg, top, content, True)
        ctx.trace('%s: %s' % (fault[1], 'ok' if out == 'ok' else 'crash' if out == 'crash' else 'error'))
        ctx.sample(case=case, operations=len(ops))


def double(unit, ctx):
    """Two disturbed runs in a row, then an undisturbed one"""
    cfg = unit['cfg']
    content = content_of(cfg)
    gc.collect()
    gc.freeze()
    ops = trial(cfg, content)
    some = [f for f in faults_of(ops, 4) if f[1] == 'none' or f[1] == 'crash' or f[1] == 'kill' and f[2] not in (0, 8)]
    for i, first in enumerate(some):
        if i % unit['parts'] != unit['part']:
            continue
        with scratch() as d:
            base = os.path.join(d, 'base')
            os.mkdir(base)
            disturbed(ctx, dict(cfg, fault=list(first)), cfg, base, content, first)
            for second in some[:-1]:
                case = dict(cfg, faults=[list(first), list(second)])
                ctx.case = case
                top = os.path.join(d, 's')
                shutil.copytree(base, top)
                out = disturbed(ctx, case, cfg, top, content, second)
                examine_and_read(ctx, dict(case, when='after the second'), cfg, top, content, out == 'ok')
                if first[0] % 4 == second[0] % 4:
                    again, no, _, _ = attempt(cfg, top, content)
                    ctx.check(again == 'ok', case, 'publishing again fails: %s %s' % (again, no))
                    examine_and_read(ctx, dict(case, when='after the third'), cfg, top, content, True)
                shutil.rmtree(top)
                ctx.trace('two faults')
    ctx.sample(cfg=cfg, faults=len(some))


# -- failing sinks and inputs -----------------------------------------------------------------------------------------

class Refused(Exception):
    pass


class RefusingSink(TreeIO.PacketMemoryWriter):
    """Fails the k-th put"""

    def __init__(self, k, exc):
        super().__init__()
        self.k, self.exc, self.calls, self.wires = k, exc, 0, []

    def put(self, packet):
        self.calls += 1
        if self.calls - 1 == self.k:
            raise self.exc
        self.wires.append(packet.serialize().tobytes())
        super().put(packet)


def try_build(opts, content, sink, reads=None, failing=None):
    def go():
        t = ManifestTree(data_input=failing or lib.Input(content, reads), packet_output=sink, tree_options=opts)
        return t.build()
    with contextlib.redirect_stdout(io.StringIO()):
        return raises(go)


def prefix_is_closed(ctx, case, cfg, wires, content):
    opener = lib.ENCS[cfg['enc']]
    have = set()
    for w in wires:
        p = wire.packet(w)
        if p.ptype == wire.MANIFEST:
            m = wire.manifest(p.payload)
            node = m.node
            if node is None:
                node = wire.node_of(wire.decrypt(m, lib.enc_key(opener), opener['salt'], opener.get('kdf_salt')))
            for g in node.groups:
                for x in g.ptrs:
                    ctx.check(x in have, case, 'a packet is written before one that it points to')
        else:
            ctx.check(p.payload in content, case, 'a data packet that is not part of the input')
        have.add(p.hash)


def sink(unit, ctx):
    for enc in unit['encs']:
        for o in ('', 'xdrngl'):
            for deg in (2, None):
                cfg = dict(schema=unit['schema'], enc=enc, opts=o, sign='', deg=deg, mps=0)
                cfg['mps'] = space.workable(cfg) + 40
                for n in space.sizes(cfg, unit['nbs'], [1]):
                    content = lib.data(n, 5)
                    opts = lib.options(cfg)
                    whole = RefusingSink(None, None)
                    exc, root = try_build(opts, content, whole)
                    case = dict(cfg, size=n)
                    if exc is not None:
                        ctx.fail(case, 'an undisturbed publication fails: %r' % (exc,))
                        continue
                    total = whole.calls
                    for k in range(total):
                        case = dict(cfg, size=n, refused_put=k)
                        ctx.case = case
                        for exc_type in (Refused, OSError, ValueError, StopIteration, KeyError) if k in (0, total - 1) else (Refused,):
                            mine = exc_type('refused')
                            s = RefusingSink(k, mine)
                            exc, root = try_build(opts, content, s)
                            ctx.step()
                            ctx.check(exc is mine or (exc is not None and exc.__cause__ is mine), case, 'put %d of %d fails with %r, the publication with %r' % (k, total, mine, exc))
                            ctx.check(s.calls == k + 1, case, '%d more puts after the one that failed' % (s.calls - k - 1))
                            if enc != 'n':
                                prefix_is_closed(ctx, case, cfg, s.wires, content)
                            ctx.trace('refused')
                    # the options can be used again after the failures
                    again = RefusingSink(None, None)
                    exc, root = try_build(opts, content, again)
                    ctx.check(exc is None and again.calls == total, case, 'publishing again gives %r and %d packets instead of %d' % (exc, again.calls, total))
                    if exc is None:
                        pub = lib.Published(cfg, content, list(again.packets), root, opts, again)
                        ctx.check(lib.read(pub) == content, case, 'what was published again reads back as something else')
                    ctx.state((sorted((k, str(v)) for k, v in cfg.items()), n, total))
                    ctx.sample(case=case, puts=total)


class FailingInput(lib.Input):
    def __init__(self, content, reads, k, exc):
        super().__init__(content, reads)
        self.k, self.exc, self.calls = k, exc, 0

    def read(self, n=-1):
        self.calls += 1
        if self.calls - 1 == self.k:
            raise self.exc
        return super().read(n)


def inputs(unit, ctx):
    """An input that fails: no root, and the same error"""
    for enc in ('', 'g'):
        cfg = dict(schema=unit['schema'], enc=enc, opts='', sign='', deg=2, mps=0)
        cfg['mps'] = space.workable(cfg) + 40
        content = lib.data(900, 5)
        for reads in (None, [7], [100, 1]):
            probe = FailingInput(content, reads, None, None)
            s = RefusingSink(None, None)
            exc, _ = try_build(lib.options(cfg), content, s, failing=probe)
            ctx.check(exc is None, cfg, 'an undisturbed publication fails: %r' % (exc,))
            for k in range(probe.calls):
                case = dict(cfg, reads=reads, failing_read=k)
                mine = OSError(errno.EIO, 'injected')
                f = FailingInput(content, reads, k, mine)
                s = RefusingSink(None, None)
                exc, root = try_build(lib.options(cfg), content, s, failing=f)
                ctx.step()
                ctx.check(exc is mine or (exc is not None and exc.__cause__ is mine), case, 'read %d fails, the publication ends with %r' % (k, exc))
                ctx.check(all(wire.packet(w).ptype == wire.DATA for w in s.wires), case, 'manifests are written although the input failed')
                prefix_is_closed(ctx, case, cfg, s.wires, content)
                ctx.state((cfg['schema'], enc, str(reads), k, len(s.wires)))
                ctx.trace('input fails')
