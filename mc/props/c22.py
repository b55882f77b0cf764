"""C22: the command-line writer and reader agree for every combination of options"""
import gc
import getpass
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

import ccnpy.apps.manifest_reader       # noqa: F401  (so that the processes forked from this one need not compile them)
import ccnpy.apps.manifest_writer       # noqa: F401

from .. import engine, forge, keys, lib, sec, wire

PID = 'C22'
TECHNIQUE = 'model checking: exhaustive enumeration of all option combinations within two deviations of each base, of wrong readers and of single faults of the directory, each a run of the real command-line programs in a process of its own'
BOUND = {
    'quick': '15 bases (3 schemas x plain, pre-shared key, pre-shared key with KDF, wrapped new key, wrapped given key): every single deviation over 20 option dimensions, and every two for Hashed without a KDF in the base and Segmented plain and with a wrapped new key; every base with every single deviation in its keys, links or size against every wrong, missing or public-only decryption, wrapping and verification key, mode, salt, key number and KDF salt; every base with every file of the directory missing, empty, cut, extended, replaced by every other file and with a flipped bit every 37 bytes; every base as real python -m processes; every base with texts of 1-, 2-, 3- and 4-byte characters at every alignment to the packet boundaries read to standard output',
    'thorough': 'as quick with 2 deviations for every base, 3 for Hashed and Segmented without encryption or with a wrapped new key, wrong readers for 2 deviations, and a flipped bit in every byte',
}
ASSUMPTIONS = ['a wrapped given key needs --salt, and no KDF salt is used with a wrapped key (documented)', 'expiry times do not matter to the reader', '-p or an empty answer to the prompt for a key without password']

NAME = 'ccnx:/foo.com/object'
KEY = {128: '000102030405060708090a0b0c0d0e0f', 256: '00112233445566778899aabbccddeeff' * 2}
OTHER = {128: 'ff0102030405060708090a0b0c0d0e0f', 256: '00112233445566778899aabbccddeefe' * 2}
# dimension -> alternatives; the first is the default
DIMS = {
    'loc': ['', 'm', 'd', 'md'],
    'deg': [None, 2, 3, 9],
    'size': [700, 1500],
    'bits': [128, 256],
    'hex': ['', '0x'],
    'mode': ['GCM', 'CCM', 'ccm', None],
    'num': [None, '0', '77', '0xffffffffffffffff'],
    'salt': [None, '0', '1', '0xffffffff'],
    'kdf': [None, 'HKDF-SHA256', 'HKDF-SHA384', 'hkdf-sha512'],
    'info': [None, 'uuid', 'some info', '0x0102'],
    'kdfsalt': [None, '0', '5', '0xffffffff'],
    'sign': ['plain', None, 'password'],
    'wrapper': ['plain', 'password', '4096'],
    'ask': [False, True],
    'rexp': [None, '2039-12-31T23:59:59+00:00', '2039-12-31'],
    'nexp': [None, '2039-12-31T23:59:59.123+05:00'],
    'dexp': [None, '20391231T010203Z'],
    'by': ['link', 'hash', 'link and hash', '0xhash'],
    'data': [4000, 1, 640, 12001],
    'dir': ['new', 'other publication', 'twice'],
    'reader': ['key', 'more keys'],
    'out': ['new', 'longer', 'shorter'],
}
CRYPTO = {'plain': (), 'aead': ('bits', 'hex', 'mode', 'num', 'salt', 'kdf', 'info', 'kdfsalt', 'reader'),
          'kdf': ('bits', 'mode', 'num', 'salt', 'kdf', 'info', 'kdfsalt', 'reader'),
          'new': ('kdf', 'info', 'wrapper'), 'given': ('bits', 'mode', 'num', 'salt', 'kdf', 'info', 'wrapper', 'reader')}
COMMON = ('loc', 'deg', 'size', 'sign', 'ask', 'rexp', 'nexp', 'dexp', 'by', 'data', 'dir', 'out')
BASE = {'plain': {}, 'aead': {}, 'kdf': dict(kdf='HKDF-SHA256', info='some info', kdfsalt='5'), 'new': {}, 'given': dict(salt='7')}
SCHEMAS = ('Hashed', 'Prefix', 'Segmented')


# the bases that the quick check explores to two deviations
DEEP = [('Hashed', 'plain'), ('Hashed', 'aead'), ('Hashed', 'new'), ('Hashed', 'given'), ('Segmented', 'plain'), ('Segmented', 'new')]


def alternatives(crypto, dim):
    a = DIMS[dim]
    if crypto == 'given' and dim == 'salt':
        a = [x for x in a if x is not None]
    base = BASE[crypto].get(dim, a[0])
    return [x for x in a if x != base]


def default(schema, crypto):
    c = {d: a[0] for d, a in DIMS.items()}
    c.update(BASE[crypto])
    c.update(schema=schema, crypto=crypto)
    return c


def dims(schema, crypto):
    return [d for d in COMMON + CRYPTO[crypto] if not (d == 'loc' and schema != 'Hashed')]


def combos(schema, crypto, n):
    """All combinations with exactly n deviations"""
    base = default(schema, crypto)
    for ds in itertools.combinations(dims(schema, crypto), n):
        for vs in itertools.product(*(alternatives(crypto, d) for d in ds)):
            yield dict(base, **dict(zip(ds, vs)))


def units(tier):
    encrypted(), [keys.public_pem(k) for k in (keys.RSAA, keys.RSAB, keys.RSAC, keys.RSAD)]     # here, so that the units share them
    deep = tier == 'thorough'
    u = []
    for s in SCHEMAS:
        for c in CRYPTO:
            n = 2 if deep or (s, c) in DEEP else 1
            if deep and c in ('plain', 'new') and s != 'Prefix':
                n = 3
            for k in range(n + 1):
                parts = (1, 2, 16, 64)[k]
                u += [dict(kind='agree', schema=s, crypto=c, n=k, part=i, parts=parts) for i in range(parts)]
            u += [dict(kind='wrong', schema=s, crypto=c, n=k) for k in range(3 if deep else 2)]
            u.append(dict(kind='damage', schema=s, crypto=c, stride=1 if deep else 37))
            u.append(dict(kind='process', schema=s, crypto=c))
            u.append(dict(kind='stdout', schema=s, crypto=c))
            u.append(dict(kind='means', schema=s, crypto=c, n=2 if deep else 1))
    return u


def run(unit, ctx):
    d = tempfile.mkdtemp(prefix='c22-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        write_keys(d)
        preload()
        gc.collect()
        gc.freeze()
        globals()[unit['kind']](unit, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- the files and command lines --------------------------------------------------------------------------------------

PASSWORD = ' pass  word '


_enc = {}


def encrypted():
    """file name -> PEM protected by PASSWORD"""
    from cryptography.hazmat.primitives.serialization import BestAvailableEncryption, Encoding, PrivateFormat, load_pem_private_key
    if not _enc:
        for n, pem in (('sign.enc', keys.RSAB), ('wrap.enc', keys.RSAA)):
            b = keys.private(pem).private_bytes(Encoding.PEM, PrivateFormat.PKCS8, BestAvailableEncryption(PASSWORD.encode()))
            _enc[n] = (b, load_pem_private_key(b, PASSWORD.encode()))
    return _enc


def write_keys(d):
    for n, pem in (('sign', keys.RSAB), ('other', keys.RSAC), ('wrap', keys.RSAA), ('wrap4096', keys.RSAD)):
        for name, b in ((n + '.pem', pem), (n + '.pub', keys.public_pem(pem))):
            with open(os.path.join(d, name), 'wb') as f:
                f.write(b)
    for n, (pem, _) in encrypted().items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(pem)


def preload():
    """The library checks every private key that it loads, which takes most of the time of a run: load those of the files once"""
    from cryptography.hazmat.backends import default_backend
    from cryptography.hazmat.primitives import serialization
    default_backend()
    for m in (ccnpy.apps.manifest_reader, ccnpy.apps.manifest_writer):
        code_of(m)
    original = serialization.load_pem_private_key
    loaded = {(pem, None): keys.private(pem) for pem in (keys.RSAA, keys.RSAB, keys.RSAC, keys.RSAD)}
    for pem, key in encrypted().values():
        loaded[pem, PASSWORD.encode()] = key

    def load(data, password=None, *a, **kw):
        k = (bytes(data), password)
        if k in loaded:
            return loaded[k]
        return original(data, password, *a, **kw)

    serialization.load_pem_private_key = load


def opt(flag, v):
    return [] if v is None else [flag, str(v)]


def aead_args(c, key):
    return ['--enc-key', c['hex'] + (c.get('key') or key[c['bits']])] + opt('--aes-mode', c['mode']) + opt('--key-num', c['num']) + opt('--salt', c['salt'])


def sign_args(c):
    a = []
    if c['sign']:
        a += ['-k', 'sign.enc' if c['sign'] == 'password' else 'sign.pem']
    if not c['ask']:
        a += ['-p', PASSWORD if c['sign'] == 'password' else '']
    return a


def wrap_args(c, part='private'):
    if c['wrapper'] == '4096':
        return ['--wrap-key', 'wrap4096.pem', '--wrap-pass', '']
    if c['wrapper'] == 'password' and part == 'private':
        return ['--wrap-key', 'wrap.enc', '--wrap-pass', PASSWORD]
    return ['--wrap-key', 'wrap.pem', '--wrap-pass', '']


def writer_args(c, name, out, infile):
    a = ['--name', name, '--schema', c['schema'], '-o', out, '-s', str(1500 if c['wrapper'] == '4096' else c['size'])] + opt('-d', c['deg']) + sign_args(c)
    if c['schema'] == 'Segmented':
        a += ['--manifest-prefix', 'ccnx:/foo.com/m', '--data-prefix', 'ccnx:/foo.com/d']
    if 'm' in c['loc']:
        a += ['--manifest-locator', 'ccnx:/manifest']
    if 'd' in c['loc']:
        a += ['--data-locator', 'ccnx:/data/here']
    if c['crypto'] in ('aead', 'kdf', 'given'):
        a += aead_args(c, KEY)
    if c['crypto'] in ('new', 'given'):
        a += wrap_args(c)
    if c['crypto'] != 'plain':
        a += opt('--kdf', c['kdf']) + opt('--kdf-salt', c['kdfsalt'])
        a += ['--kdf-uuid'] if c['info'] == 'uuid' else opt('--kdf-info', c['info'])
    a += opt('--root-expiry', c['rexp']) + opt('--node-expiry', c['nexp']) + opt('--data-expiry', c['dexp'])
    if 'link' in c['by']:
        a += ['--link']
    return a + [infile]


def reader_args(c, name, directory, out, root_hash, **change):
    a = ['--name', name, '-i', directory] + opt('--output', out)
    if 'hash' in c['by']:
        a += ['--hash', ('0x' if '0x' in c['by'] else '') + root_hash]
    verify = change.get('verify', 'sign.pub' if c['sign'] else None)
    a += opt('-k', verify)
    if 'crypto' in change:
        return a + change['crypto']
    return a + crypto_args(c)


def crypto_args(c, key=KEY):
    if c['crypto'] in ('aead', 'kdf'):
        a = aead_args(c, key) + opt('--kdf-salt', c['kdfsalt'])
        if c['reader'] == 'more keys':
            a += ['--wrap-key', 'wrap.pem']
        return a
    if c['crypto'] in ('new', 'given'):
        a = wrap_args(c)
        if c['crypto'] == 'given' and c['reader'] == 'more keys':
            a += aead_args(c, key)
        return a
    return []


_code = {}


def run_as_main(module):
    """What python -m does, with the source compiled only once"""
    m = types.ModuleType('__main__')
    m.__dict__.update(__file__=module.__file__, __package__=module.__package__, __spec__=module.__spec__)
    sys.modules['__main__'] = m
    exec(code_of(module), m.__dict__)


def code_of(module):
    if module.__file__ not in _code:
        with open(module.__file__, 'rb') as f:
            _code[module.__file__] = compile(f.read(), module.__file__, 'exec')
    return _code[module.__file__]


def program(module, argv, d, answer, errors=None):
    """Run the module as a program in a process of its own, in directory d.  Returns its exit status and what it printed (with its errors, unless there is a file for them)"""
    log = os.path.join(d, 'log')
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(os.open(errors, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600) if errors else fd, 2)
            sys.stdout = os.fdopen(1, 'w', encoding='utf-8')
            sys.stderr = os.fdopen(2, 'w')
            os.chdir(d)
            getpass.getpass = lambda prompt='', stream=None: answer
            sys.argv = [module] + argv
            try:
                run_as_main(sys.modules['ccnpy.apps.' + module])
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            import traceback
            traceback.print_exc()
            try:
                sys.stderr.flush()
            except Exception:
                pass
            code = code or 1
        finally:
            os._exit(code & 0xFF)
    _, status = os.waitpid(pid, 0)
    with open(log, 'rb') as f:
        text = f.read()
    return os.waitstatus_to_exitcode(status), text


def process(unit, ctx, d):
    c = default(unit['schema'], unit['crypto'])
    write_and_read(ctx, dict(c, real=True, by='link and hash'), d, 'p')


def real(module, argv, d):
    env = dict(os.environ, PYTHONPATH=engine.REPO)
    r = subprocess.run([sys.executable, '-m', 'ccnpy.apps.' + module] + argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout


def execute(c, module, argv, d):
    return real(module, argv, d) if c.get('real') else program(module, argv, d, PASSWORD if c['sign'] == 'password' else '')


def content(n):
    return lib.data(n, 3)


def short(c):
    base = default(c['schema'], c['crypto'])
    return dict(schema=c['schema'], crypto=c['crypto'], **{k: v for k, v in c.items() if base.get(k) != v})


def publish(ctx, c, d, sub, name=NAME, data=None):
    """Run the writer; returns the root hash"""
    data = content(c['data']) if data is None else data
    out = os.path.join(d, sub)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(d, 'in'), 'wb') as f:
        f.write(data)
    argv = writer_args(c, name, sub, 'in')
    code, text = execute(c, 'manifest_writer', argv, d)
    ctx.step()
    if code != 0:
        ctx.fail(dict(short(c), writer=argv), 'manifest_writer exits with %d: %s' % (code, text[-1500:].decode(errors='replace')))
        return None
    found = [h for h in re.findall(rb'[0-9a-f]{64}', text) if os.path.exists(os.path.join(out, h.decode()))]
    if not found:
        ctx.fail(dict(short(c), writer=argv), 'manifest_writer does not print the hash of its root: %s' % text[-1500:].decode(errors='replace'))
        return None
    with open(os.path.join(out, found[-1].decode()), 'rb') as f:
        p = wire.packet(f.read())
    ctx.check(p.name == wire.uri_name(name) and p.ptype != wire.DATA, dict(short(c), writer=argv), 'the hash printed is not that of the root: %s' % (p.name,))
    return found[-1].decode()


def reading(c, d, argv, old=None):
    """Run the reader (with that in its output file before); returns exit status, the output file (None if it made none) and what it printed"""
    out = os.path.join(d, 'out')
    if os.path.exists(out):
        os.unlink(out)
    if old is not None:
        with open(out, 'wb') as f:
            f.write(old)
    code, text = execute(c, 'manifest_reader', argv, d)
    try:
        with open(out, 'rb') as f:
            return code, f.read(), text
    except FileNotFoundError:
        return code, None, text


def write_and_read(ctx, c, d, sub):
    case = short(c)
    pubs = [(NAME, content(c['data']))]
    if c['dir'] == 'other publication':
        pubs.append(('ccnx:/foo.com/object/2', lib.data(3000, 777)))
    elif c['dir'] == 'twice':
        pubs.append(pubs[0])
    roots = [publish(ctx, c, d, sub, name, data) for name, data in pubs]
    for (name, data), h in zip(pubs, roots):
        if h is None:
            return
        argv = reader_args(c, name, sub, 'out', h)
        code, got, text = reading(c, d, argv, {'new': None, 'longer': b'old' * len(data) + data, 'shorter': b'o' * (len(data) // 2)}[c['out']])
        ctx.step()
        ctx.check(code == 0 and got == data, dict(case, reader=argv),
                  lambda: 'manifest_reader exits with %d and %s of %d bytes: %s' % (code, 'no file' if got is None else 'the input' if got == data else 'another file of %d bytes instead' % len(got), len(data), text[-1500:].decode(errors='replace')))
    files = len(os.listdir(os.path.join(d, sub)))
    ctx.state((sorted((k, str(v)) for k, v in c.items()), files))
    ctx.trace('%s %s' % (c['schema'], c['crypto']))
    ctx.sample(case=case, files=files)


def agree(unit, ctx, d):
    for i, c in enumerate(combos(unit['schema'], unit['crypto'], unit['n'])):
        if i % unit['parts'] != unit['part']:
            continue
        ctx.case = short(c)
        write_and_read(ctx, c, d, 's')
        shutil.rmtree(os.path.join(d, 's'))


# -- wrong readers ----------------------------------------------------------------------------------------------------

def wrong_readers(c):
    """Reader options that must not work: (what, change)"""
    if c['sign']:
        yield 'another verification key', dict(verify='other.pub')
    if c['crypto'] in ('aead', 'kdf'):
        yield 'no decryption key', dict(crypto=[])
        for what, alter in (('another key', {}), ('another mode', dict(mode='CCM' if c['mode'] in ('GCM', None) else 'GCM')),
                            ('another salt', dict(salt='0x01020304')), ('no salt', dict(salt=None)), ('another key number', dict(num='78')),
                            ('the default key number', dict(num=None)), ('another KDF salt', dict(kdfsalt='6')), ('no KDF salt', dict(kdfsalt=None))):
            if what == 'another key':
                yield what, dict(crypto=crypto_args(c, OTHER))
                continue
            if all(c[k] == v for k, v in alter.items()) or ('kdfsalt' in alter and (c['kdf'] is None or (c['kdfsalt'] == '0' and alter['kdfsalt'] is None))):
                continue
            yield what, dict(crypto=crypto_args(dict(c, **alter)))
        yield 'the other key length', dict(crypto=crypto_args(dict(c, bits=384 - c['bits'])))
        yield 'an RSA key instead', dict(crypto=['--wrap-key', 'wrap.pem'])
    if c['crypto'] in ('new', 'given'):
        yield 'no wrapping key', dict(crypto=[])
        yield 'another wrapping key', dict(crypto=['--wrap-key', 'other.pem'])
        yield 'only the public wrapping key', dict(crypto=['--wrap-key', 'wrap4096.pub' if c['wrapper'] == '4096' else 'wrap.pub'])
        if c['wrapper'] == 'password':
            yield 'a wrong password', dict(crypto=['--wrap-key', 'wrap.enc', '--wrap-pass', 'password'])
            yield 'no password', dict(crypto=['--wrap-key', 'wrap.enc'])


def never_wrong(ctx, case, code, got, data, text, must_fail):
    ctx.step()
    tail = lambda: text[-1200:].decode(errors='replace')      # noqa: E731
    if code == 0:
        ctx.check(not must_fail, case, lambda: 'manifest_reader exits with 0: ' + tail())
        ctx.check(got == data, case, lambda: 'manifest_reader exits with 0 and another file (%s bytes of %d): %s' % (None if got is None else len(got), len(data), tail()))
    else:
        ctx.check(got is None or data.startswith(got), case, lambda: 'manifest_reader fails but leaves %d bytes that are not the beginning of the input: %s' % (len(got), tail()))
        ctx.check(not must_fail or got != data, case, lambda: 'manifest_reader fails but leaves the whole input')


def wrong(unit, ctx, d):
    skip = ('ask', 'rexp', 'nexp', 'dexp', 'dir', 'out', 'size', 'reader', 'hex', 'loc', 'deg')
    base = default(unit['schema'], unit['crypto'])
    for c in combos(unit['schema'], unit['crypto'], unit['n']):
        if any(c[k] != base[k] for k in skip):
            continue
        c['reader'] = 'key'
        ctx.case = short(c)
        h = publish(ctx, c, d, 's')
        if h is None:
            continue
        data = content(c['data'])
        for what, change in wrong_readers(c):
            argv = reader_args(c, NAME, 's', 'out', h, **change)
            code, got, text = reading(c, d, argv)
            never_wrong(ctx, dict(short(c), wrong=what, reader=argv), code, got, data, text, True)
            ctx.state((short(c).items(), what, code, got is None))
            ctx.trace(what)
        argv = reader_args(dict(c, by='hash'), NAME, 's', 'out', '00' * 32)
        never_wrong(ctx, dict(short(c), wrong='hash', reader=argv), *reading(c, d, argv)[:2], data, b'', True)
        argv = reader_args(c, NAME + '/x', 's', 'out', h)
        never_wrong(ctx, dict(short(c), wrong='name', reader=argv), *reading(c, d, argv)[:2], data, b'', True)
        shutil.rmtree(os.path.join(d, 's'))


# -- damage -----------------------------------------------------------------------------------------------------------

def faults(files, stride):
    """(what, file, replacement or None)"""
    for f, b in files.items():
        yield 'missing', f, None
        for n in sorted({0, 1, 7, 8, len(b) // 2, len(b) - 1}):
            yield 'cut to %d' % n, f, b[:n]
        yield 'one byte more', f, b + b'\0'
        yield 'twice', f, b + b
        for g in files:
            if g != f:
                yield 'replaced by %s' % g[:16], f, files[g]
        for i in range(0, len(b), stride):
            yield 'bit flipped in byte %d' % i, f, b[:i] + bytes([b[i] ^ 1 << i % 8]) + b[i + 1:]


def damage(unit, ctx, d):
    for by in ('link and hash', 'link'):
        c = dict(default(unit['schema'], unit['crypto']), by=by, data=1300, deg=2)
        h = publish(ctx, c, d, 's')
        if h is None:
            return
        top = os.path.join(d, 's')
        files = {f: open(os.path.join(top, f), 'rb').read() for f in sorted(os.listdir(top))}
        data = content(c['data'])
        argv = reader_args(c, NAME, 's', 'out', h)
        for what, f, b in faults(files, unit['stride'] if by == 'link' else 4 * unit['stride']):
            case = dict(short(c), fault=what, file=f)
            ctx.case = case
            p = os.path.join(top, f)
            if b is None:
                os.unlink(p)
            else:
                with open(p, 'wb') as out:
                    out.write(b)
            code, got, text = reading(c, d, argv)
            # what the reader never fetches may be damaged
            used = re.fullmatch('[0-9a-f]{64}', f) is not None
            never_wrong(ctx, case, code, got, data, text, used and b != files[f] and what == 'missing')
            ctx.state((short(c).items(), what.split(' ')[0], code))
            ctx.trace('%s: %s' % (what.split(' ')[0], 'error' if code else 'read'))
            with open(p, 'wb') as out:
                out.write(files[f])
        shutil.rmtree(top)


# -- standard output --------------------------------------------------------------------------------------------------

ALPHABET = 'a\u00e9\u20ac\U0001f600'      # one character of each length in UTF-8


def texts(size):
    """For each length of character and each place of it, a text of which the pieces of that size end within a character"""
    for ch in ALPHABET:
        for shift in range(len(ch.encode())):
            t = 'x' * shift + ch * (3 * size // len(ch.encode()) + 1)
            yield '%d-byte characters after %d' % (len(ch.encode()), shift), t
    yield 'mixed', ALPHABET * (3 * size // 10 + 1)
    yield 'lines', ('line \u20ac\n' * (3 * size // 9 + 1))


def stdout(unit, ctx, d):
    """Without --output the text read is printed: all of it, in one piece"""
    c = default(unit['schema'], unit['crypto'])
    for what, text in texts(c['size']):
        ctx.case = case = dict(short(c), text=what)
        h = publish(ctx, c, d, 's', data=text.encode())
        if h is None:
            return
        argv = reader_args(c, NAME, 's', None, h)
        code, printed = program('manifest_reader', argv, d, '', errors=os.path.join(d, 'errors'))
        ctx.step(2)
        ctx.check(code == 0 and text.encode() in printed, dict(case, reader=argv),
                  lambda: 'manifest_reader exits with %d and prints %d bytes that do not hold the text of %d: %r' % (code, len(printed), len(text.encode()), printed[:300]))
        ctx.state((what, len(text)))
        ctx.sample(case=case, printed=len(printed))
        shutil.rmtree(os.path.join(d, 's'))


# -- what the options mean ----------------------------------------------------------------------------------------------

MORE_KEYS = {128: ['00' * 16, '00' * 15 + '01', '01' + '00' * 15, '00' * 8 + '11' * 8, 'f0' * 16, 'AbCdEf0123456789aBcDeF0123456789'],
             256: ['00' * 32, '00' * 16 + '11' * 16, '11' * 16 + '00' * 16, '00' * 31 + '01', 'ff' * 32, 'AB' * 32]}
MORE_TIMES = ['2039-12-31T23:59:59.999+00:00', '2040-02-29T00:00:00.001-11:30', '2039-01-01T12:00:00.5+14:00', '2041-06-30T23:59:59.123', '2039-12-31T23:59']
KDFS = {'HKDF-SHA256': 1, 'HKDF-SHA384': 2, 'HKDF-SHA512': 3}


def meanings(schema, crypto, most):
    for n in range(most + 1):
        yield from combos(schema, crypto, n)
    base = default(schema, crypto)
    for dim in ('rexp', 'nexp', 'dexp'):
        for t in MORE_TIMES:
            yield dict(base, **{dim: t})
    yield dict(base, rexp=MORE_TIMES[0], nexp=MORE_TIMES[1], dexp=MORE_TIMES[2])
    if 'hex' in CRYPTO[crypto] or 'bits' in CRYPTO[crypto]:
        for bits, ks in MORE_KEYS.items():
            for k in ks:
                for h in ('', '0x'):
                    yield dict(base, bits=bits, key=k, hex=h)


def milliseconds(text):
    from datetime import datetime, timedelta, timezone
    if text is None:
        return None
    t = datetime.fromisoformat(text)
    if t.tzinfo is None:
        t = t.astimezone()      # local time
    return (t - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(milliseconds=1)


def means(unit, ctx, d):
    """What the writer writes is what its options say, found by an independent reader of the packets"""
    for c in meanings(unit['schema'], unit['crypto'], unit['n']):
        ctx.case = case = short(c)
        h = publish(ctx, c, d, 's')
        if h is None:
            return
        top = os.path.join(d, 's')
        wires = [open(os.path.join(top, f), 'rb').read() for f in sorted(os.listdir(top)) if re.fullmatch('[0-9a-f]{64}', f)]
        root = next(i for i, w in enumerate(wires) if wire.packet(w).hash.hex() == h)
        state = meaning(ctx, c, case, wires, root)
        ctx.state((sorted((k, str(v)) for k, v in c.items()), state))
        ctx.trace('%s %s' % (c['schema'], c['crypto']))
        shutil.rmtree(top)


def meaning(ctx, c, case, wires, root):
    crypto = c['crypto']
    key = bytes.fromhex(c.get('key') or KEY[c['bits']])
    salt = None if c['salt'] is None else int(c['salt'], 0)
    kdf_salt = None if c['kdfsalt'] is None or c['kdf'] is None else int(c['kdfsalt'], 0)
    unwrapped = []

    def opener(m):
        ctx.check(crypto != 'plain', case, 'an encrypted manifest without encryption options')
        if m.sec.wrapped is not None:
            unwrapped.append(wire.unwrap(m.sec, keys.private(keys.RSAD if c['wrapper'] == '4096' else keys.RSAA)))
        if crypto == 'new':
            return wire.decrypt(m, unwrapped[0][1], unwrapped[0][0], None)
        return wire.decrypt(m, key, salt, kdf_salt)

    with ctx.guard(case):
        tree = wire.Tree(wires, opener, root_index=root)
        ctx.step(len(tree.visits))
        ctx.check(tree.data == content(c['data']), case, 'the packets written hold other data')
        if crypto == 'given':
            ctx.check(unwrapped and all(u == (salt, key) for u in unwrapped), case, 'the key wrapped is not the one given')
        if crypto in ('plain', 'aead', 'kdf'):
            ctx.check(not unwrapped, case, 'a key is wrapped without a wrapping key')
        want = {'root': milliseconds(c['rexp']), 'node': milliseconds(c['nexp']), 'data': milliseconds(c['dexp'])}
        for v in tree.visits:
            p = v['packet']
            what = 'root' if v['depth'] == 0 else 'data' if v['node'] is None else 'node'
            ctx.check(p.expiry == want[what], case, lambda: '%s packet expires at %r and not at %r' % (what, p.expiry, want[what]))
            ctx.check(p.name == v['want'], case, lambda: '%s packet is named %s and not %s' % (what, p.name, v['want']))
            if what != 'root':
                ctx.check(len(p.wire) <= (1500 if c['wrapper'] == '4096' else c['size']), case, lambda: '%s packet has %d bytes' % (what, len(p.wire)))
            signed = what == 'root' and c['sign'] is not None
            ctx.check((p.sig is not None) == signed, case, lambda: '%s packet is %ssigned' % (what, 'not ' if signed else ''))
            if signed:
                ctx.check(forge.rsa_good(keys.RSAB, p.sig, p.covered), case, 'the root is not signed with the key given')
            if v['node'] is None:
                continue
            n = sum(len(g.ptrs) for g in v['node'].groups)
            ctx.check(c['deg'] is None or n <= c['deg'], case, lambda: 'a manifest with %d pointers' % n)
            m = wire.manifest(p.payload)
            ctx.check((m.encrypted is not None) == (crypto != 'plain'), case, '%s manifest is %sencrypted' % (what, 'not ' if crypto != 'plain' else ''))
            if crypto == 'plain':
                continue
            s = m.sec
            if crypto != 'new':
                num = int.from_bytes(lib.hashlib.sha256(key).digest()[:8], 'big') if c['num'] is None else int(c['num'], 0)
                ctx.check(s.keynum == num, case, lambda: 'key number %r and not %r' % (s.keynum, num))
                ctx.check(s.mode == sec.MODE_NUMBER[(c['mode'] or 'GCM').upper(), 8 * len(key)], case, lambda: 'mode %r' % s.mode)
            alg = c['kdf'] and KDFS[c['kdf'].upper()]
            ctx.check(s.kdf_alg == alg, case, lambda: 'KDF %r and not %r' % (s.kdf_alg, alg))
            info = None if alg is None else s.kdf_info if c['info'] == 'uuid' else b'\1\2' if c['info'] == '0x0102' else c['info'] and c['info'].encode()
            ctx.check(s.kdf_info == info, case, lambda: 'KDF information %r and not %r' % (s.kdf_info, info))
            if alg is not None and c['info'] == 'uuid':
                ctx.check(len(info) == 16 and info[6] >> 4 == 1, case, lambda: 'KDF information %r is no UUID of type 1' % info)
        locs = tuple(tree.visits[0]['node'].nc_defs)
        for which, uri in (('m', 'ccnx:/manifest'), ('d', 'ccnx:/data/here')):
            found = any(wire.name_tlv(wire.uri_name(uri)) in x for _, sch in locs for x in sch.locators)
            ctx.check(found == (which in c['loc']), case, 'locator %s is %sgiven' % (uri, '' if found else 'not '))
        return len(tree.visits)
    return None
