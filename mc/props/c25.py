"""C25: concurrent publications and reads do not affect each other"""
import gc
import os
import shutil
import sys
import tempfile
import threading

import ccnpy
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name
from ccnpy.core.Packet import Packet
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tree.DecryptorCache import DecryptorCache
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import catalog, forge, keys, lib, sec, space, wire
from ..engine import explore

PID = 'C25'
TECHNIQUE = 'model checking: stateless exploration of all interleavings of real threads, one runnable at a time, handed over at every I/O operation or at every line of the library, up to a preemption bound; every task compared with the same task run alone'
BOUND = {
    'quick': '2 tasks: 12 schema variants x {publish+publish, publish+read, read+read} plain, and the same with 9 encryptions, RSA signatures and size options, own and shared options object/encryptor/keystore/store/directory, all schedules with at most 1 preemption (2 for the small ones); 3 tasks with at most 1; directory tasks are also handed over at every file operation; 18 small operations (encode, parse, names, checksums, signatures, AEAD, KDF, wrapped keys, publish, read, stores, factory), own and shared signer/encryptor/options/keystore/store: the first stopped before each line of the library it executes while a second one runs to its end (with itself every line, with another every second line); 11 pairs with both stopped, at every 3rd to 70th line of each',
    'thorough': 'at most 2 preemptions (3 for the small ones) and larger trees; all 324 pairs of operations stopped at every line, 11 pairs at every pair of lines',
}
ASSUMPTIONS = ['threads are switched at I/O operations (input read, packet put, packet get, output write, file operation) and, for the small operations, between two lines of the library; not between two bytecodes of a line',
               'alone means: after the same other publications of the process (name constructor ids are compared up to renaming)']
UNIT_TIMEOUT = {'quick': 600, 'thorough': 7200}


def small(schema, enc='', opts='', sign='', deg=2, **kw):
    c = dict(schema=schema, enc=enc, opts=opts, sign=sign, deg=deg, mps=0)
    c.update(kw)
    return c


def pubtask(cfg, nb=2, **kw):
    return dict(do='publish', cfg=cfg, nb=nb, **kw)


def readtask(cfg, nb=2, **kw):
    return dict(do='read', cfg=cfg, nb=nb, **kw)


def units(tier):
    d = tier == 'thorough'
    u = []

    def add(tasks, bound=2, **kw):
        u.append(dict(kind='interleave', tasks=tasks, bound=bound + (1 if d else 0), **kw))

    names = list(lib.SCHEMAS)
    for i, s in enumerate(names):
        t = names[(i + 5) % len(names)]
        add([pubtask(small(s)), pubtask(small(t), nb=3)])
        add([pubtask(small(s), nb=1), readtask(small(t))])
        add([readtask(small(s)), readtask(small(t), nb=3)])
        add([pubtask(small(s), seed=3), pubtask(small(s), nb=3)], share=['options'])
        add([readtask(small(s)), readtask(small(s))], share=['keystore', 'store'])
        add([pubtask(small(s), nb=1), pubtask(small(s), nb=1, seed=9)], bound=3, share=['options', 'store'])
    encs = [e for e in lib.ENCS if e]
    for i, e in enumerate(encs):
        f = encs[(i + 4) % len(encs)]
        s = names[(5 * i) % 12]
        add([pubtask(small(s, e)), pubtask(small(s, e, 'xn'), seed=9)], share=['encryptor'])
        add([pubtask(small(s, e)), pubtask(small(s, e), seed=9)], share=['options', 'store'])
        add([readtask(small(s, e)), readtask(small(names[(i + 3) % 12], e), nb=3)], share=['keystore'])
        add([readtask(small(s, e)), readtask(small(names[(i + 3) % 12], f))])
        add([pubtask(small(s, e), nb=1), pubtask(small(s, f), nb=1)])
        add([readtask(small(s, e)), readtask(small(s, e))], share=['keystore', 'store'])
        add([pubtask(small(s, e), nb=1), readtask(small(s, e))])
    for s in ('H1', 'P2', 'S1', 'S4'):
        add([pubtask(small(s, sign='r', opts='xdrngl')), pubtask(small(s, sign='r', opts='xdrngl'), seed=9)], share=['options'])
        add([pubtask(small(s, sign='r', opts='l')), readtask(small(s, sign='r'))])
        add([readtask(small(s, 'g', sign='r')), readtask(small(s, 'w', sign='r'))], share=['keystore'])
        add([pubtask(small(s, deg=None), nb=3), pubtask(small(s, deg=3), nb=3, seed=5)])
        add([pubtask(small(s), nb=1), pubtask(small(s), nb=1, seed=7), readtask(small(s), nb=1)], bound=1)
        add([readtask(small(s, 'g'), nb=1), readtask(small(s, 'g'), nb=1), pubtask(small(s, 'g'), nb=1)], bound=1, share=['keystore', 'encryptor'])
        # one directory: publishing the same or other data over it while it is being read or written
        add([pubtask(small(s), nb=1), pubtask(small(s), nb=1)], share=['directory'])
        add([pubtask(small(s), nb=1), pubtask(small(s), nb=1, seed=7)], share=['directory'], links=[True, False])
        add([pubtask(small(s), nb=1), readtask(small(s), nb=1)], share=['directory'])
        add([pubtask(small(s, 'g'), nb=1), readtask(small(s, 'g'), nb=1)], share=['directory', 'keystore'], links=[True, True])
        add([readtask(small(s, 'w'), nb=1), readtask(small(s, 'w'), nb=1)], share=['directory', 'keystore'])
    for k, a in enumerate(OPNAMES):
        for b in (OPNAMES if d else (a, OPNAMES[(k + 5) % len(OPNAMES)])):
            for part in range(2 if d or a == b else 1):
                u.append(dict(kind='preempt', ops=[a, b], pairs=False, part=part, parts=2))
    for a, b, step in (('packet', 'packet', 3), ('name', 'name', 3), ('factory', 'factory', 6), ('crc', 'crc', 9), ('memory', 'memory', 20), ('encode', 'packet', 12), ('cached', 'cached', 45), ('publish', 'publish', 70), ('read', 'read', 60), ('aead', 'aead', 36), ('directory', 'directory', 40)):
        # odd steps on one side, so that the stops of the two move against each other
        for part in range(4):
            u.append(dict(kind='preempt', ops=[a, b], pairs=True, part=part, parts=4, step=[1, 1] if d else [step, step + 1]))
    return u


def run(unit, ctx):
    (preempt_ if unit['kind'] == 'preempt' else globals()[unit['kind']])(unit, ctx)


# -- turns ------------------------------------------------------------------------------------------------------------

class Abandoned(BaseException):
    pass


class Turns:
    """Runs tasks in threads, one at a time; at every point the choice sequence decides who goes on"""

    def __init__(self, choices):
        self.choices = choices
        self.threads = []
        self.alive = []
        self.locks = []
        self.ids = {}
        self.over = threading.Event()
        self.error = None
        self.switches = 0
        self.points = 0

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        if self.error is not None:
            raise Abandoned()
        self.points += 1
        others = [i for i in self.alive if i != me]
        if not others:
            return
        try:
            c = self.choices.choose(1 + len(others))
        except BaseException as e:
            self.error = e
            raise Abandoned()
        if c:
            self.switches += 1
            self.locks[others[c - 1]].release()
            self.locks[me].acquire()
            if self.error is not None:
                raise Abandoned()

    def _body(self, i, task, results):
        self.ids[threading.get_ident()] = i
        self.locks[i].acquire()
        try:
            if self.error is None:
                results[i] = (None, task())
        except Abandoned:
            pass
        except Exception as e:
            results[i] = (e, None)
        except BaseException as e:
            self.error = e
        self.alive.remove(i)
        if not self.alive:
            self.over.set()
            return
        c = 0
        if self.error is None and len(self.alive) > 1:
            try:
                c = self.choices.choose(len(self.alive), cost=lambda j: 0)
            except BaseException as e:
                self.error = e
        self.locks[self.alive[c]].release()

    def run(self, tasks):
        results = [None] * len(tasks)
        self.alive = list(range(len(tasks)))
        self.locks = [threading.Semaphore(0) for _ in tasks]
        self.threads = [threading.Thread(target=self._body, args=(i, t, results), daemon=True) for i, t in enumerate(tasks)]
        for t in self.threads:
            t.start()
        first = self.choices.choose(len(tasks), cost=lambda j: 0)
        self.locks[first].release()
        self.over.wait()
        for t in self.threads:
            t.join()
        if self.error is not None:
            raise self.error
        return results


turns = None       # the current Turns
watched = None     # directory below which file operations are points


def point():
    if turns is not None:
        turns.point()


def on_audit(event, args):
    if watched is None or turns is None or event not in ('open', 'os.rename', 'os.remove', 'os.mkdir'):
        return
    p = args[0]
    if isinstance(p, (str, bytes)) or hasattr(p, '__fspath__'):
        if os.fsdecode(p).startswith(watched):
            turns.point()


# -- tasks ------------------------------------------------------------------------------------------------------------

class TurnInput(lib.Input):
    def read(self, n=-1):
        point()
        return super().read(n)


class TurnWriter:
    """Packets one publication puts, also into a store behind it"""

    def __init__(self, behind):
        self.behind, self.packets = behind, []

    def put(self, packet):
        point()
        self.packets.append(packet)
        if self.behind is not None:
            self.behind.put(packet)

    def close(self):
        pass


class TurnReader:
    def __init__(self, behind):
        self.behind = behind

    def get(self, name, hash_restriction, forwarding_hints=None):
        point()
        return self.behind.get(name=name, hash_restriction=hash_restriction, forwarding_hints=forwarding_hints)

    def close(self):
        pass


class TurnSink(lib.Sink):
    def write(self, b):
        point()
        super().write(b)


_ready = {}
_new = {}


def prepared(t):
    """Configuration with its packet size, and the content"""
    cfg = dict(t['cfg'])
    if not cfg['mps']:
        cfg['mps'] = space.workable(cfg) + 40
    ps = lib.payload_size(dict(cfg, deg=2))
    return cfg, lib.data(t['nb'] * ps + 1, 100 * t.get('seed', 0))


def publication_to_read(t):
    """What a read task reads: published beforehand, once"""
    cfg, content = prepared(t)
    k = (str(sorted(cfg.items(), key=str)), t['nb'], t.get('seed', 0))
    if k not in _ready:
        reset()         # so that two prepared publications number their name constructors alike
        _ready[k] = lib.publish(cfg, content)
    return _ready[k]


def canonical(ctx, case, cfg, content, wires):
    """A publication up to hashes, nonces, signatures and the numbers of its name constructors"""
    try:
        tree = wire.Tree(wires, lib.Opener(cfg['enc']))
    except Exception as e:
        ctx.fail(case, 'the packets are not a readable tree: %r' % (e,))
        return None
    ctx.check(tree.data == content, case, 'the tree holds %d other bytes than the %d of the input' % (len(tree.data), len(content)))
    ids = {}

    def nc(i):
        return ids.setdefault(i, len(ids)) if i is not None else None

    out = []
    for v in tree.visits:
        p, n = v['packet'], v['node']
        ctx.check(v['want'] is None or p.name is None or v['want'] == p.name, case, 'a reader asks for %r, the packet is %r' % (v['want'], p.name))
        if n is None:
            body = p.payload
        else:
            m = wire.manifest(p.payload)
            sec = None if m.sec is None else (m.sec.kind, m.sec.keynum, m.sec.mode, m.sec.kdf_alg, m.sec.kdf_info, m.sec.wrapped is not None)
            body = (sec, n.subtree_size, [(nc(i), s.kind, s.name, s.suffix, s.locators) for i, s in n.nc_defs],
                    [(nc(g.nc_id), g.start_segment, g.leaf_size, g.subtree_size, len(g.ptrs)) for g in n.groups])
        out.append((v['depth'], p.ptype, p.name, p.expiry, p.alg is not None, len(p.wire), body))
    return out, sorted((p.ptype, len(p.wire)) for p in tree.packets)


def nonces(wires):
    out = []
    for w in wires:
        p = wire.packet(w)
        if p.ptype == wire.MANIFEST:
            m = wire.manifest(p.payload)
            if m.sec is not None:
                out.append((m.sec.keynum, m.sec.wrapped, m.sec.nonce))
    return out


class World:
    """Fresh objects for one execution"""

    def __init__(self, unit):
        self.unit = unit
        self.share = unit.get('share', [])
        self.common = {}
        self.dir = None

    def __enter__(self):
        global watched
        if 'directory' in self.share:
            self.dir = tempfile.mkdtemp(prefix='c25-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
            for t in self.unit['tasks']:
                if t['do'] == 'read' or t.get('before'):
                    w = TreeIO.PacketDirectoryWriter(self.dir, link_named_objects=True)
                    for p in publication_to_read(t).packets:
                        w.put(p)
            watched = self.dir
        return self

    def __exit__(self, *a):
        global watched
        watched = None
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)

    def once(self, what, make, key=None):
        if what not in self.share:
            return make()
        k = (what, key)
        if k not in self.common:
            self.common[k] = make()
        return self.common[k]

    def task(self, i, t):
        if t['do'] == 'publish':
            cfg, content = prepared(t)
            opts = self.once('options', lambda: lib.options(cfg))
            if cfg['enc'] == 'n':       # a random key number, whose length shows in the packets: one for the whole unit
                opts.manifest_encryptor = _new.setdefault(None, opts.manifest_encryptor)
            if 'encryptor' in self.share and cfg['enc'] not in ('', 'n'):
                opts.manifest_encryptor = self.once('encryptor', lambda: lib.encryptor(cfg['enc']), cfg['enc'])
            behind = None
            if self.dir is not None:
                behind = TreeIO.PacketDirectoryWriter(self.dir, link_named_objects=self.unit.get('links', [False] * 9)[i])
            elif 'store' in self.share:
                behind = self.once('store', TreeIO.PacketMemoryWriter)
            w = TurnWriter(behind)

            def go():
                ManifestTree(data_input=TurnInput(content, [len(content) // 2 + 1]), packet_output=w, tree_options=opts).build()
                return [p.serialize().tobytes() for p in w.packets]
            return go
        pub = publication_to_read(t)
        cfg = pub.cfg

        def keystore():
            if 'keystore' not in self.share:
                return lib.keystore(cfg['enc'], cfg['sign'])
            ks = self.once('keystore', lambda: lib.keystore())
            e = lib.ENCS[cfg['enc']]
            try:
                if e is not None and 'wrap' in e:
                    ks.add_rsa_key('wrap', lib.rsa(e['wrap']))
            except Exception:
                pass        # there already
            if e is not None and 'wrap' not in e:
                ks.add_aes_key(lib.aead_params(e))
            try:
                if cfg['sign']:
                    ks.add_rsa_key('sign', lib.rsa_public('RSAB'))
            except Exception:
                pass
            return ks
        if 'keystore' in self.share:
            # the encryptions all use one key number, so a keystore can serve only one of them
            kinds = {x['cfg']['enc'] for x in self.unit['tasks'] if x['cfg']['enc']}
            ks = keystore() if len(kinds) < 2 else lib.keystore(cfg['enc'], cfg['sign'])
        else:
            ks = keystore()
        if self.dir is not None:
            behind = self.once('store', lambda: TreeIO.PacketDirectoryReader(self.dir))
        else:
            behind = self.once('store', lambda: TreeIO.PacketMemoryReader(pub.packets))
        sink = TurnSink()

        def read():
            t = Traversal(TurnReader(behind), sink, ks)
            t.traverse(lib.N(cfg.get('name', lib.ROOT_URI)), lib.hash_value(pub.root_hash))
            return sink.bytes()
        return read


def reset():
    f = getattr(SchemaImplFactory, 'reset_nc_id', None)
    if f is not None:
        f()


def interleave(unit, ctx):
    global turns
    tasks = unit['tasks']
    if 'directory' in unit.get('share', []):
        sys.addaudithook(on_audit)
    alone = []
    for i, t in enumerate(tasks):
        if t['do'] == 'publish':
            reset()
            turns = None
            with World(dict(unit, share=[s for s in unit.get('share', []) if s == 'options'])) as w:
                got = w.task(i, t)()
            cfg, content = prepared(t)
            alone.append(canonical(ctx, dict(task=t, alone=True), cfg, content, got))
        else:
            alone.append(publication_to_read(t).content)
    gc.collect()
    gc.freeze()

    def once(choices):
        global turns
        reset()
        with World(unit) as w:
            bodies = [w.task(i, t) for i, t in enumerate(tasks)]
            turns = Turns(choices)
            try:
                res = turns.run(bodies)
            finally:
                me, turns = turns, None
            after = None
            if w.dir is not None:
                after = directory(w.dir)
        return res, me, after

    for ch, (res, sched, after) in explore(once, unit['bound']):
        case = dict(unit, schedule=ch.taken)
        ctx.case = case
        ctx.step(sched.points)
        seen = []
        for i, t in enumerate(tasks):
            exc, got = res[i]
            if not ctx.check(exc is None, case, lambda: 'task %d (%s) ends with %r' % (i, t['do'], exc)):
                continue
            if t['do'] == 'read':
                ctx.check(got == alone[i], case, 'task %d reads %d bytes that differ from what it reads alone' % (i, len(got)))
                continue
            cfg, content = prepared(t)
            mine = canonical(ctx, case, cfg, content, got)
            ctx.check(mine == alone[i], case, lambda: 'task %d publishes another tree than alone: %s' % (i, difference(mine, alone[i])))
            seen += nonces(got)
            if after is not None:
                missing = [h for h in map(lib.wire_hash, got) if h not in after]
                ctx.check(not missing, case, 'task %d: %d of its packets are not in the directory' % (i, len(missing)))
        ctx.check(len(seen) == len(set(seen)), case, 'a nonce is used twice')
        if after is not None:
            ctx.check(None not in after, case, 'the directory has a broken packet')
        ctx.trace('%d switches' % sched.switches)
        ctx.state((str(tasks), ch.taken))
    ctx.sample(tasks=tasks, share=unit.get('share', []), points=sched.points)


def difference(a, b):
    if a is None or b is None:
        return 'none'
    for x, y in zip(a[0], b[0]):
        if x != y:
            return '%r instead of %r' % (x, y)
    return '%d visits instead of %d, packets %r instead of %r' % (len(a[0]), len(b[0]), a[1], b[1])


def directory(d):
    """hash -> wire of the packets in a directory; None for one that does not match its name"""
    out = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), 'rb') as b:
            w = b.read()
        try:
            p = wire.packet(w)
        except Exception:
            out[None] = f
            continue
        if p.ptype in (wire.DATA, wire.MANIFEST):
            if p.hash.hex() != f:
                out[None] = f
            out[p.hash] = w
    return out


# -- preemption between two lines of the library ----------------------------------------------------------------------

LIBRARY = os.path.dirname(os.path.abspath(ccnpy.__file__)) + os.sep


class Preempt:
    """Runs a in one thread and b in another: a until its i-th line, b until its j-th (or its end), a to its end, b to its end.
    Where one waits for a lock the other holds, the other goes on."""

    wait = 2.0

    def __init__(self, i, j=None):
        self.stop = [i, j]
        self.count = [0, 0]
        self.go = [threading.Event(), threading.Event()]        # a goes on; b starts
        self.blocked = 0

    def _pause(self, who):
        other = 1 - who
        self.go[other].set()
        if not self.go[who].wait(self.wait):
            self.blocked += 1
            Preempt.wait = max(0.05, Preempt.wait / 2)

    def _tracer(self, who):
        limit = self.stop[who]
        count = self.count

        def local(frame, event, arg):
            if event == 'line':
                count[who] += 1
                if count[who] == limit:
                    self._pause(who)
                    if who:
                        # b is never stopped again
                        return None
            return local

        def enter(frame, event, arg):
            if frame.f_code.co_filename.startswith(LIBRARY):
                return local
            return None
        return enter

    def _body(self, who, fn, out):
        if who:
            self.go[1].wait()
        try:
            if self.stop[who] is not None:
                sys.settrace(self._tracer(who))
            out[who] = (None, fn())
        except Exception as e:
            out[who] = (e, None)
        finally:
            sys.settrace(None)
            self.done[who] = True
            self.go[1 - who].set()

    def run(self, a, b):
        out = [None, None]
        self.done = [False, False]
        self.go[0].clear()
        ts = [threading.Thread(target=self._body, args=(w, f, out), daemon=True) for w, f in enumerate((a, b))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            if t.is_alive():
                return [(RuntimeError('does not end'), None)] * 2
        return out


def lines(fn):
    """How many lines of the library fn runs"""
    p = Preempt(-1)
    out = [None, None]
    p.done = [False, False]
    t = threading.Thread(target=p._body, args=(0, fn, out))
    t.start()
    t.join()
    if out[0][0] is not None:
        raise out[0][0]
    return p.count[0]


class Ops:
    """Small operations: each method returns a function that does it and gives a comparable result"""

    def __init__(self, seed, share):
        self.seed = seed
        self.share = share

    def encode(self):
        spec = (catalog.NDS[2], catalog.GROUP_LISTS[2], None) if self.seed else (catalog.NDS[3], catalog.GROUP_LISTS[3], None)

        def fn():
            m = Manifest(node=catalog.build_node(*spec))
            return ContentObject.create_manifest(m, name=lib.N('ccnx:/x/y%d' % self.seed)).serialize().tobytes()
        return fn

    def packet(self):
        def fn():
            co = ContentObject.create_data(name=lib.N('ccnx:/p/q%d' % self.seed).append_chunk_id(7 + 300 * self.seed), payload=bytes([self.seed]) * 5, expiry_time=None)
            return Packet.create_content_object(co).serialize().tobytes()
        return fn

    def parse(self):
        spec = (catalog.NDS[3 - self.seed], catalog.GROUP_LISTS[3 - self.seed], None)
        w = forge.packet(forge.co(wire.tlv(1, catalog.enc(catalog.node_spec(*spec).v)), ptype=3, name=((1, b'n%d' % self.seed), (2, b'v'))), 'crc')

        def fn():
            p = lib.parse(w)
            m = Manifest.from_content_object(p.body())
            return p.serialize().tobytes() == w, [h.value().tobytes() for h in m.node().hash_values()], p.body().name().as_uri(), repr(m)
        return fn

    def name(self):
        uri = ('ccnx:/a/b%20c/Chunk=7', 'ccnx:/x/Manifest=70000/y')[self.seed]

        def fn():
            n = Name.from_uri(uri)
            return n.as_uri(), n.count(), n.append_chunk_id(5).serialize().tobytes(), n == lib.N(uri), repr(n.component(0))
        return fn

    def crc(self):
        body = forge.co(b'm%d' % self.seed * 10, name=((1, b'c'),))

        def fn():
            co = lib.parse(forge.packet(body)).body()
            s = Crc32cSigner()
            alg = s.validation_alg()
            p = Packet.create_signed_content_object(co, alg, s.sign(co.serialize(), alg.serialize()))
            PacketValidator(InsecureKeystore()).validate_packet(p)
            return p.serialize().tobytes()
        return fn

    def rsa(self):
        body = forge.co(b'r%d' % self.seed * 10, name=((1, b'c'),))
        k = self.share.setdefault('rsa', (RsaKey(keys.RSAA), InsecureKeystore().add_rsa_key('k', lib.rsa('RSAA'))))
        s = self.share.setdefault('signer', RsaSha256Signer(k[0]))

        def fn():
            co = lib.parse(forge.packet(body)).body()
            alg = s.validation_alg(signature_time=SignatureTime(5.0 + self.seed))
            p = Packet.create_signed_content_object(co, alg, s.sign(co.serialize(), alg.serialize()))
            PacketValidator(k[1]).validate_packet(p)
            return p.serialize().tobytes()
        return fn

    def aead(self, kdf=None):
        s = sec.Setting('GCM', 128, 7, 9, kdf, b'info%d' % self.seed if kdf else None)
        p = sec.params(s)
        e = AeadEncryptor(p) if kdf else self.share.setdefault('aead', AeadEncryptor(p))

        def fn():
            c, n, t = e.encrypt(sec.build_node(self.seed))
            w = Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes()
            m = wire.manifest(w)
            got = AeadDecryptor(p).decrypt_manifest(sec.parse_manifest(w)).node().serialize().tobytes()
            return len(w), wire.decrypt(m, sec.key_bytes(s), s.salt, s.kdf_salt), got, ('nonce', m.sec.nonce)
        return fn

    def kdf(self):
        return self.aead(1 + self.seed)

    def wrapped(self):
        s = sec.Setting('CCM', 256, 7, 9)
        e = self.share.setdefault('wrapped', RsaOaepEncryptor(lib.rsa('RSAA'), sec.params(s)))
        ks = self.share.setdefault('wrapped keystore', InsecureKeystore().add_rsa_key('k', lib.rsa('RSAA')))

        def fn():
            c, n, t = e.encrypt(sec.build_node(self.seed), include_wrapper=True)
            w = Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes()
            d = DecryptorCache(ks)
            x = sec.parse_manifest(w)
            got = d.get_or_create(x.security_ctx()).decrypt_manifest(x).node().serialize().tobytes()
            return len(w), got, ('nonce', wire.manifest(w).sec.nonce)
        return fn

    def cached(self):
        s = sec.Setting('GCM', 256, None, 9 + self.seed)
        w = forge.encrypted_manifest(sec.node_value(self.seed), s, bytes(12))
        ks = self.share.setdefault('two keys', InsecureKeystore().add_aes_key(sec.params(s)).add_aes_key(sec.params(s._replace(keynum=19 - s.keynum))))
        d = DecryptorCache(ks)

        def fn():
            x = sec.parse_manifest(w)
            return [d.get_or_create(x.security_ctx()).decrypt_manifest(x).node().serialize().tobytes() for _ in range(2)]
        return fn

    def publish(self, schema=None, enc='', opts=''):
        cfg = small(schema or ('H1', 'S1')[self.seed], enc, opts)
        cfg, content = prepared(dict(cfg=cfg, nb=1, seed=self.seed))
        o = self.share.setdefault(('options', str(cfg)), lib.options(cfg))

        def fn():
            w = TurnWriter(None)
            ManifestTree(data_input=lib.Input(content), packet_output=w, tree_options=o).build()
            return Published(cfg, content, [p.serialize().tobytes() for p in w.packets])
        return fn

    def prefix(self):
        return self.publish('P1', opts='xrngl')

    def secret(self):
        return self.publish('S2', 'g', 'n')

    def read(self, schema=None, enc=''):
        pub = publication_to_read(dict(cfg=small(schema or ('H1', 'S1')[self.seed], enc), nb=1, seed=self.seed))
        ks = self.share.setdefault(('keystore', enc), lib.keystore(enc))
        store = self.share.setdefault(('store', pub.root_hash), TreeIO.PacketMemoryReader(pub.packets))

        def fn():
            sink = lib.Sink()
            t = Traversal(store, sink, ks, build_graph=True)
            t.traverse(lib.N(lib.ROOT_URI), lib.hash_value(pub.root_hash))
            return sink.bytes()
        return fn

    def unwrap(self):
        return self.read('P2', 'w')

    def directory(self):
        d = self.share.setdefault('dir', None) or tempfile.mkdtemp(prefix='c25-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.share['dir'] = d
        ws = [forge.packet(forge.co(b'%d' % i, name=((1, b'd'),))) for i in (0, 1 + self.seed)]

        def fn():
            w = TreeIO.PacketDirectoryWriter(d, link_named_objects=False)
            for x in ws:
                w.put(lib.parse(x))
            r = TreeIO.PacketDirectoryReader(d)
            return [r.get(name=lib.N('ccnx:/d'), hash_restriction=lib.hash_value(forge.hash_of(x))).serialize().tobytes() for x in ws]
        return fn

    def memory(self):
        store = self.share.setdefault('memory', TreeIO.PacketMemoryWriter())
        ws = [forge.packet(forge.co(b'%d' % i, name=((1, b'd'),))) for i in (0, 1 + self.seed)]

        def fn():
            for x in ws:
                store.put(lib.parse(x))
            r = TreeIO.PacketMemoryReader(store.packets)
            return [r.get(name=lib.N('ccnx:/d'), hash_restriction=lib.hash_value(forge.hash_of(x))).serialize().tobytes() for x in ws]
        return fn

    def factory(self):
        o = lib.options(small('P3', opts='n'))
        o.max_packet_size = 1500

        def fn():
            from ccnpy.flic.ManifestFactory import ManifestFactory
            ptrs = Pointers([HashValue.create_sha256(bytes([self.seed]) * 32)] * 3)
            p = ManifestFactory(o).build_packet(source=ptrs, name=lib.N('ccnx:/f%d' % self.seed), node_subtree_size=5)
            return p.serialize().tobytes()
        return fn

    def close(self):
        if self.share.get('dir'):
            shutil.rmtree(self.share['dir'], ignore_errors=True)
            self.share['dir'] = None


class Published(tuple):
    """The packets of a publication; compared up to what may differ"""

    def __new__(cls, cfg, content, wires):
        return tuple.__new__(cls, (cfg, content, wires))


OPNAMES = ['encode', 'packet', 'parse', 'name', 'crc', 'rsa', 'aead', 'kdf', 'wrapped', 'cached', 'publish', 'prefix', 'secret', 'read', 'unwrap', 'directory', 'memory', 'factory']
SHORT = ['packet', 'name', 'crc', 'memory', 'encode', 'directory', 'factory']


def settle(ctx, case, res):
    """-> comparable result, nonces"""
    if isinstance(res, Published):
        cfg, content, wires = res
        return canonical(ctx, case, cfg, content, wires), nonces(wires)
    if isinstance(res, tuple):
        return tuple(x for x in res if not (isinstance(x, tuple) and x[:1] == ('nonce',))), [x[1] for x in res if isinstance(x, tuple) and x[:1] == ('nonce',)]
    return res, []


def preempt_(unit, ctx):
    names = unit['ops']
    alone = []
    for i, n in enumerate(names):
        reset()
        o = Ops(i, {})
        fn = getattr(o, n)()
        alone.append(settle(ctx, dict(op=n, alone=True), fn())[0])
        o.close()
    share = {}
    a = Ops(0, share)
    total = lines(getattr(a, names[0])())
    a.close()
    second = 0
    if unit['pairs']:
        share = {}
        b = Ops(1, share)
        second = lines(getattr(b, names[1])())
        b.close()
    gc.collect()
    gc.freeze()
    if unit['pairs']:
        step_i, step_j = unit.get('step', (1, 1))
        plan = ((i, j) for i in range(1 + unit['part'] * step_i, total + 1, unit['parts'] * step_i) for j in range(1, second + 1, step_j))
    else:
        plan = ((i, None) for i in range(1 + unit['part'], total + 1, unit['parts']))
    done = blocked = 0
    for i, j in plan:
        case = dict(unit, a_stops_at_line=i, b_stops_at_line=j)
        ctx.case = case
        share = {}
        ops = [Ops(0, share), Ops(1, share)]
        fns = [getattr(o, n)() for o, n in zip(ops, names)]
        reset()
        p = Preempt(i, j)
        try:
            res = p.run(*fns)
        finally:
            ops[1].close()
        blocked += bool(p.blocked)
        seen = []
        for k in (0, 1):
            exc, got = res[k]
            if not ctx.check(exc is None, case, lambda: '%s (%d) ends with %r' % (names[k], k, exc)):
                continue
            got, ns = settle(ctx, case, got)
            seen += ns
            ctx.check(got == alone[k], case, lambda: '%s (%d) gives %.300r, alone %.300r' % (names[k], k, got, alone[k]))
        ctx.check(len(seen) == len(set(seen)), case, 'a nonce is used twice')
        ctx.step()
        done += 1
        ctx.state((tuple(names), i, j))
    ctx.trace('blocked by a lock', blocked) if blocked else None
    ctx.trace('as alone', done - blocked)
    ctx.sample(ops=names, lines=total, second=second)
