"""C18: where supporting files are taken from."""
import contextlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
import zipfile

from .. import core, ref, rig
from ..env import client, device, mbmap, modbus, smdx, util

ID = 'C18'
LEVEL = 'exploration'
TECH = 'lookup oracle over a mirrored random file tree and a model of nested definition scopes'
RULE = ('Random trees of directories and zip archives (nested folders inside archives, several files with the same name and different '
        'contents) and random path lists over them (existing, missing, relative, archives, folders in archives, missing archives, doubled '
        'entries): every lookup is compared with the mirror. Random nesting of definition scopes, left normally or by exceptions, with '
        'definitions in several places, is compared with a stack model; definitions, PICS documents and map files are taken through it, '
        'in every XML encoding. '
        'Distinct by tree, list and name.')
ASSUMPTIONS = ['archives are valid', 'at most one archive per path', 'names in a list are files, not directories']


class Tree(object):
    """A scratch tree with its mirror: {relative file path: bytes}; archives as {zip: {name: bytes}}."""

    def __init__(self, rng):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='vf_tree_'))
        self.files = {}
        self.zips = {}
        self.rng = rng

    def write(self, rel, data):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        self.files[rel] = data

    def zip(self, rel, members):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with zipfile.ZipFile(p, 'w', self.rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            for n, d in members.items():
                z.writestr(n, d)
        self.zips[rel] = members

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def lookup(self, entry, name):
        """Content the entry ('rel path' of the mirror) supplies for a name, or None."""
        parts = [x for x in entry.split('/') if x not in ('', '.')]
        for k, e in enumerate(parts):
            if e.endswith('.zip'):
                z = self.zips.get('/'.join(parts[:k + 1]))
                if z is None:
                    return None
                return z.get('/'.join(parts[k + 1:] + [name]))
        return self.files.get('/'.join(parts + [name]))


DIRS = ['d1', 'd2', 'd2/sub', 'd3', 'zipless', 'with.zip.dir', 'dir.zipped']
ZIPS = ['a.zip', 'd1/b.zip', 'd2/sub/c.zip']
INNER = ['', 'in', 'in/deep', 'd1']
NAMES = ['f.xml', 'smdx_00001.xml', 'x/y.xml', 'data.bin', 'a.zip.xml']


def build(rng, t):
    n = 0
    for d in DIRS:
        os.makedirs(os.path.join(t.dir, d), exist_ok=True)
        for f in NAMES:
            if rng.random() < .35:
                n += 1
                t.write(d + '/' + f, content(rng, d, f, n))
    for z in ZIPS:
        if rng.random() < .75:
            m = {}
            for i in INNER:
                for f in NAMES:
                    if rng.random() < .35:
                        n += 1
                        k = (i + '/' if i else '') + f
                        m[k] = content(rng, z, k, n)
            if rng.random() < .05:
                # an archive of many files
                more = {'%s%03d.txt' % (rng.choice(['a', 'in/', 'z']), i): b'%d' % i for i in range(rng.choice([60, 300]))}
                m = dict(list(more.items()) + list(m.items())) if rng.random() < .5 else dict(m, **more)
            t.zip(z, m)


def content(rng, *w):
    if rng.random() < .04:
        return b''
    b = ('%r ' % (w,)).encode() + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 3, 50])))
    return b + rng.choice([b'', b'\r\n', b'\n', b'\x1a', b'\0'])


def entries(rng):
    """A list of entries, as mirror paths."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .97 else rng.randint(45, 80)):
        r = rng.random()
        if r < .4:
            out.append(rng.choice(DIRS))
        elif r < .55:
            out.append(rng.choice(['missing', 'd1/none', 'no.zip', 'd3/no.zip/in', 'missing/x.zip', 'd2/nothing']))
        elif r < .75:
            out.append(rng.choice(ZIPS))
        else:
            out.append(rng.choice(ZIPS) + '/' + rng.choice(INNER[1:]))
    if out and rng.random() < .2:
        out.append(rng.choice(out))
    return out


def as_path(rng, t, e):
    r = rng.random()
    if r < .6:
        return t.dir + '/' + e
    if r < .8:
        return e
    if r < .9:
        return './' + e
    if r < .95:
        if rng.random() < .3:
            # the same place, spelled with more than it takes
            parts = e.split('/')
            parts.insert(rng.randint(1, len(parts)), rng.choice(['', '.']))
            e = '/'.join(parts)
        return t.dir + '/' + e + rng.choice(['/', '/', ''])
    return '../' + os.path.basename(t.dir) + '/' + e


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def lookups(ctx, t, pl, es, ps):
    """Look every name up and compare with the mirror."""
    for name in NAMES + ['nowhere.xml']:
        want = None
        at = None
        for k, e in enumerate(es):
            want = t.lookup(e, name)
            if want is not None:
                at = k
                break
        for rep in range(2):
            try:
                got = pl.read(name)
            except NameError as e:
                ctx.check(want is None, '%s is in entry %s (%s) of %s but was reported missing' % (name, at, es[at] if at is not None else '', ps), 'missed')
                ctx.check(name in str(e), 'the report %r does not name the missing file %s' % (str(e), name), 'unnamed')
                ctx.count('missing')
                continue
            except Exception as e:
                ctx.fail('looking up %s in %s failed with %s: %s' % (name, ps, type(e).__name__, e), 'error')
            ctx.check(want is not None, '%s is in no entry of %s but %r was returned' % (name, ps, got[:60]), 'invented')
            ctx.check(isinstance(got, bytes) and got == want, '%s from %s: %r instead of %r' % (name, ps, got[:60], want[:60]), 'content')
            ctx.count('found' if want else 'found_empty')
            if at:
                ctx.count('found_later')
                if any('.zip' in x for x in es[:at]):
                    ctx.count('found_after_archive')
            if any(x.endswith('.zip') for x in es[at].split('/')):
                ctx.count('found_in_archive')


def change(rng, t, es):
    """Change one file or archive, preferably one the list looks at."""
    name = rng.choice(NAMES)
    e = rng.choice(es) if es and rng.random() < .8 else rng.choice(DIRS + ZIPS)
    parts = e.split('/')
    for k, x in enumerate(parts):
        if x.endswith('.zip'):
            z = '/'.join(parts[:k + 1])
            if not os.path.isdir(os.path.dirname(os.path.join(t.dir, z))):
                return
            m = dict(t.zips.get(z) or {})
            inner = '/'.join(parts[k + 1:] + [name])
            if z in t.zips and rng.random() < .1:
                os.remove(os.path.join(t.dir, z))
                del t.zips[z]
                return
            if inner in m and rng.random() < .4:
                del m[inner]
            else:
                m[inner] = altered(rng, m.get(inner))
            t.zip(z, m)
            return
    if not os.path.isdir(os.path.join(t.dir, e)):
        return
    rel = e + '/' + name
    if rel in t.files and rng.random() < .4:
        os.remove(os.path.join(t.dir, rel))
        del t.files[rel]
    else:
        t.write(rel, altered(rng, t.files.get(rel)))


def altered(rng, old):
    """Other contents, often of the same length."""
    if old and rng.random() < .6:
        return bytes([old[0] ^ 1]) + old[1:]
    return content(rng, 'altered', rng.random())


def path_case(ctx):
    rng = ctx.rng
    with Tree(rng) as t, inside(t.dir):
        build(rng, t)
        other = util.PathList()
        for _ in range(4):
            es = entries(rng)
            ps = [as_path(rng, t, e) for e in es]
            if rng.random() < .3:
                pl = util.PathList(list(ps))
            else:
                pl = util.PathList()
                for p in ps:
                    pl.add(p)
            ctx.eq(list(pl.path), ps, 'paths of a list', 'paths')
            ctx.eq(len(other.path), 0, 'paths added to one list show up in another', 'shared')
            lookups(ctx, t, pl, es, ps)
            if rng.random() < .5:
                # files change, come and go while the list is in use
                for _ in range(rng.choice([1, 2, 4])):
                    change(rng, t, es)
                lookups(ctx, t, pl, es, ps)
                ctx.count('tree_changes')
            if rng.random() < .3 and es:
                # the list grows, the tree changes
                e = rng.choice(DIRS)
                pl.add(t.dir + '/' + e)
                t.write(e + '/late.txt', b'late %d' % rng.randint(0, 999))
                es2 = es + [e]
                want = next((x for x in (t.lookup(q, 'late.txt') for q in es2) if x is not None), None)
                ctx.eq(pl.read('late.txt'), want, 'file added later', 'late')
                ctx.count('late')
            ctx.seen(sorted(t.files), sorted((z, sorted(m)) for z, m in t.zips.items()), ps)
        ctx.note(paths=ps)


# --- definition scopes ------------------------------------------------------

def definition(mid, name):
    md = ref.MD(mid, ref.BT('fixed', [ref.PT('P', 'uint16', 1, 0)], 1), None, name)
    return ref.smdx(md)


def pics(base, mid):
    return '<sunSpecPics v="1"><device addr="%d"><model id="%d" len="1"/></device></sunSpecPics>' % (base, mid)


class Boom(Exception):
    pass


def probe(ctx, scope, world):
    """Load definitions and documents and compare with the scope model.

    scope: list of places (or None), world: {place: {mid: name}}, place '' is the working directory.
    """
    rng = ctx.rng
    for mid in world['ids']:
        want = None
        for p in (scope or []) + ['']:
            want = world[p].get(mid)
            if want:
                break
        m = device.Model(device.Device(), mid, 0, 1) if rng.random() < .5 else client.ClientModel(device.Device(), mid, 0, 1)
        try:
            m.load()
            got = m.model_type.name
        except util.SunSpecError:
            got = None
        ctx.eq(got, want, 'definition of model %d with path list %s' % (mid, scope), 'definition')
        ctx.count('definitions')
        if want is None:
            ctx.count('definitions_missing')
    # documents through the same list
    want = None
    for p in (scope or []) + ['']:
        want = world[p].get('pics')
        if want:
            break
    d = device.Device()
    try:
        d.from_pics(filename='pics.xml')
        got = d.base_addr
    except util.SunSpecError:
        got = None
    ctx.eq(got, want, 'PICS document with path list %s' % scope, 'document')
    ctx.count('documents')


def scope_case(ctx):
    rng = ctx.rng
    rig.clear_caches_light()                # between cases only: within a case, a definition seen in one scope must not be served in another
    with Tree(rng) as t, inside(t.dir):
        ids = [rig.fresh_id() for _ in range(3)]
        world = {'ids': ids}
        places = ['p%d' % i for i in range(4)] + ['z%d.zip' % i for i in range(2)] + ['zz.zip/inner', 'gone', 'gone.zip']
        n = 0
        for p in places + ['']:
            here = {}
            if p.startswith('gone'):
                world[p] = here
                continue
            files = {}
            for mid in ids:
                if rng.random() < .5:
                    n += 1
                    here[mid] = 'name%d' % n
                    files['smdx_%05d.xml' % mid] = definition(mid, here[mid]).encode()
            if rng.random() < .5:
                n += 1
                here['pics'] = 100 + n
                files['pics.xml'] = pics(100 + n, ids[0]).encode()
            world[p] = here
            if p == 'zz.zip/inner':
                t.zip('zz.zip', {'inner/' + k: v for k, v in files.items()})
            elif p.endswith('.zip'):
                t.zip(p, files)
            else:
                if p:
                    os.makedirs(os.path.join(t.dir, p))
                for k, v in files.items():
                    t.write((p + '/' if p else '') + k, v)
        path = {p: os.path.join(t.dir, p) for p in places}

        def enter(depth, outer):
            scope = [rng.choice(places) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            args = [pathlib.Path(path[p]) if rng.random() < .4 else path[p] for p in scope]
            boom = rng.random() < .35
            late = rng.random() < .3
            try:
                with device.fresh_file_pathlist(*args) as pl:
                    probe(ctx, scope, world)
                    if late:
                        p = rng.choice(places)
                        pl.add(path[p])
                        scope = scope + [p]
                        probe(ctx, scope, world)
                        ctx.count('extended')
                    if depth < 3 and rng.random() < .7:
                        try:
                            enter(depth + 1, scope)
                        except Boom:
                            if rng.random() < .5:
                                ctx.count('left_by_error')
                                raise
                        probe(ctx, scope, world)
                        if rng.random() < .3:
                            p = rng.choice(places)
                            pl.add(path[p])
                            scope = scope + [p]
                            probe(ctx, scope, world)
                            ctx.count('extended_after_inner')
                    if rng.random() < .4:
                        # a definition appears, changes or disappears in a place
                        p = rng.choice([x for x in places if not x.startswith('gone') and '.zip' not in x] + [''])
                        mid = rng.choice(ids)
                        f = (p + '/' if p else '') + 'smdx_%05d.xml' % mid
                        if mid in world[p] and rng.random() < .4:
                            os.remove(os.path.join(t.dir, f))
                            del world[p][mid]
                        else:
                            world[p][mid] = 'late%d' % rng.randint(0, 9999)
                            t.write(f, definition(mid, world[p][mid]).encode())
                        probe(ctx, scope, world)
                        ctx.count('definition_changes')
                    if rng.random() < .2:
                        # the program puts another list in place inside
                        repl = rng.choice([None, [rng.choice(places)]])
                        device.file_pathlist = repl and util.PathList([path[p] for p in repl])
                        probe(ctx, repl, world)
                        ctx.count('replaced_inside')
                    if boom:
                        raise Boom()
            except Boom:
                ctx.count('left_by_error')
                probe(ctx, outer, world)
                if depth and rng.random() < .5:
                    raise
            probe(ctx, outer, world)
            ctx.count('scopes')
            if depth:
                ctx.count('nested')

        probe(ctx, None, world)
        r = rng.random()
        if r < .3:
            # a list the user installed stays in place
            outer = [rng.choice(places) for _ in range(rng.choice([0, 1, 2, 2]))]
            old = device.file_pathlist
            device.file_pathlist = util.PathList([path[p] for p in outer])
            try:
                probe(ctx, outer, world)
                enter(0, outer)
                probe(ctx, outer, world)
            finally:
                device.file_pathlist = old
            ctx.count('installed')
        else:
            enter(0, None)
            enter(0, None)
        probe(ctx, None, world)
        # the list given for one document
        scope = [rng.choice(places) for _ in range(3)]
        pl = util.PathList([path[p] for p in scope])
        inner = [rng.choice(places) for _ in range(2)]
        with device.fresh_file_pathlist(*[path[p] for p in inner]):
            want = next((world[p]['pics'] for p in scope + inner + [''] if world[p].get('pics')), None)
            d = device.Device()
            try:
                d.from_pics(filename='pics.xml', pathlist=pl)
                got = d.base_addr
            except util.SunSpecError:
                got = None
            ctx.eq(got, want, 'PICS document with its own path list %s inside %s' % (scope, inner), 'document')
        ctx.seen(sorted((p, sorted(map(str, v))) for p, v in world.items() if p != 'ids'), rng.random())
        ctx.note(places=[(p, sorted(map(str, v))) for p, v in world.items() if p != 'ids'])


def map_case(ctx):
    """Map files of mapped devices through their path list."""
    rng = ctx.rng
    with Tree(rng) as t, inside(t.dir):
        world = {}
        places = ['m1', 'm2', 'mz.zip', 'gone', 'gone.zip/in']
        for i, p in enumerate(places):
            world[p] = None
            if p.startswith('gone'):
                continue
            if p == 'm1' or p == 'm2':
                os.makedirs(p)
            v = rng.randint(0, 65535)
            doc = ('<mbmap addr="40000"><regs offset="0" type="string">SunS</regs><regs type="u16">%d</regs></mbmap>' % v).encode()
            files = {}
            if rng.random() < .6:
                world[p] = v
                files['map.xml'] = doc
            if p.endswith('.zip'):
                t.zip(p, files)
            else:
                for k, d in files.items():
                    t.write(p + '/' + k, d)
        scope = [rng.choice(places) for _ in range(rng.choice([1, 2, 3, 4]))]
        pl = util.PathList([os.path.join(t.dir, p) for p in scope])
        want = next((world[p] for p in scope if world[p] is not None), None)
        for f in (lambda: modbus.ModbusClientDeviceMapped(1, 'map.xml', pl).read(40002, 1),
                  lambda: client.ClientDevice(client.MAPPED, 1, name='map.xml', pathlist=pl).read(40002, 1),
                  lambda: load_map(pl)):
            try:
                got = int.from_bytes(f(), 'big')
            except (util.SunSpecError, modbus.ModbusClientError, mbmap.ModbusMapError) as e:
                got = None
                ctx.check('map.xml' in str(e), 'the error %r does not name the missing file' % str(e), 'unnamed')
            ctx.eq(got, want, 'map file from %s' % scope, 'map')
            ctx.count('maps')
        for k in range(20):
            i = rng.choice([1, 65535, rng.randint(1, 65535)])
            ctx.eq(smdx.model_filename_to_id(smdx.model_id_to_filename(i)), i, 'model id of a file name', 'filename')
            ctx.eq(smdx.model_id_to_filename(i), 'smdx_%05d.xml' % i, 'file name of a model', 'filename')
            bad = rng.choice(['smdx_%05d.txt', 'smdx_%05d', 'smdx_%05dxml', 'model_%05d.xml', '%05d.xml', 'smdx%05d.xml', 'smdx_x%d.xml', 'smdx_%d.5.xml',
                              'smdx_%dx.xml', 'smd_%05d.xml', 'smdx_%05d.xm', 'smdx-%05d.xml', 'smdx_%05d.xml.bak', 'smdx_%d_.xml']) % i
            ctx.eq(smdx.model_filename_to_id(bad), None, 'model id of %s' % bad, 'filename')
        ctx.seen(world, scope)


def load_map(pl):
    m = mbmap.ModbusMap(1)
    m.from_xml('map.xml', pl)
    return m.read(40002, 1)


SCRIPT = """
import json, os, sys
sys.path.insert(0, sys.argv[1])
import sunspec.core.device as device
import sunspec.core.util as util
job = json.load(open(sys.argv[2]))
os.chdir(job['cwd'])
out = []
try:
    device.check_for_models(None)
    out.append(True)
except Exception:
    out.append(False)
def name(mid):
    m = device.Model(device.Device(), mid, 0, 1)
    try:
        m.load()
        return m.model_type.name
    except util.SunSpecError:
        return None
for mid, scope in job['ask']:
    if scope is None:
        out.append(name(mid))
    else:
        with device.fresh_file_pathlist(*scope):
            out.append(name(mid))
json.dump(out, sys.stdout)
"""


def default_case(ctx):
    """An installation with its own definitions: the last place to look, after list and working directory."""
    rng = ctx.rng
    with Tree(rng) as t:
        shutil.copytree(os.path.join(core.REPO, 'sunspec'), os.path.join(t.dir, 'inst', 'sunspec'),
                        ignore=shutil.ignore_patterns('__pycache__', 'test', 'models'))
        places = ['inst/sunspec/models/smdx', 'cwd', 'list']
        ids = list(range(301, 313))
        world = {p: {} for p in places}
        for p in places:
            os.makedirs(os.path.join(t.dir, p))
            for mid in ids:
                if rng.random() < .55:
                    world[p][mid] = '%s_%d' % (p[:4], mid)
                    t.write('%s/smdx_%05d.xml' % (p, mid), definition(mid, world[p][mid]).encode())
        # the common model is looked for where any other is
        for p in places:
            if rng.random() < .3:
                t.write('%s/smdx_00001.xml' % p, definition(1, 'common').encode())
                world[p][1] = 'common'
        ask, want = [], [any(1 in world[p] for p in places[:2])]
        for mid in ids:
            # each model once: definitions may be cached
            scope = rng.choice([None, [], ['list'], ['gone', 'list']])
            ask.append((mid, scope if scope is None else [os.path.join(t.dir, x) for x in scope]))
            order = (['list'] if scope and 'list' in scope else []) + ['cwd', 'inst/sunspec/models/smdx']
            want.append(next((world[p][mid] for p in order if mid in world[p]), None))
        job = os.path.join(t.dir, 'job.json')
        with open(job, 'w') as f:
            json.dump({'cwd': os.path.join(t.dir, 'cwd'), 'ask': ask}, f)
        with open(os.path.join(t.dir, 'script.py'), 'w') as f:
            f.write(SCRIPT)
        r = subprocess.run([sys.executable, os.path.join(t.dir, 'script.py'), os.path.join(t.dir, 'inst'), job], capture_output=True, text=True, timeout=120)
        ctx.check(r.returncode == 0, 'the library failed in its own installation: %s' % r.stderr[-300:], 'installation')
        ctx.eq(json.loads(r.stdout), want, 'definitions of an installation (%s)' % ask, 'default-location')
        ctx.count('default_lookups', len(ask))
        ctx.seen(ask, want)


ENC = [('utf-8', None), ('utf-8', 'UTF-8'), ('utf-8-sig', None), ('utf-8-sig', 'utf-8'), ('iso-8859-1', 'ISO-8859-1'), ('utf-16', 'UTF-16'),
       ('utf-16', None), ('windows-1252', 'windows-1252'), ('us-ascii', 'US-ASCII')]


def encoded(doc, enc):
    """The document in an encoding, declared or told by its byte order mark."""
    codec, name = enc
    if name:
        doc = '<?xml version="1.0" encoding="%s"?>\n' % name + doc
    return doc.encode(codec, 'xmlcharrefreplace')


def encoding_case(ctx):
    """One document read the same, in its own encoding, from wherever it is found."""
    rng = ctx.rng
    with Tree(rng) as t, inside(t.dir):
        places = ['dir', 'e.zip', 'n.zip/in/side', '']
        text = ''.join(rng.choice('abc XYZ09\xe4\xf6\xfc\xdf\xb0\xb5\xe9\xd1\xbf') for _ in range(rng.randint(1, 24))).strip() + rng.choice(['\xb0C', '\xe9', '\xb5', 'x'])
        label = text + ('' if rng.random() < .5 else rng.choice(['\u20ac', '\u4e2d', '\u03a9']))
        mid = rig.fresh_id()
        md = ref.MD(mid, ref.BT('fixed', [ref.PT('P', 'uint16', 1, 0), ref.PT('S', 'string', 16, 1)], 17), None, 'nm')
        md.label = label
        md.fixed.points[0].label = label
        e1, e2, e3 = rng.choice(ENC), rng.choice(ENC), rng.choice(ENC)
        v = rng.randint(0, 65534)
        files = {'smdx_%05d.xml' % mid: encoded(ref.smdx(md), e1)}
        files['pics.xml'] = encoded('<sunSpecPics v="1"><device addr="40000"><model id="%d" len="17"><block><point id="P">%d</point><point id="S">%s</point>'
                                    '</block></model></device></sunSpecPics>' % (mid, v, text), e2)
        files['map.xml'] = encoded('<mbmap addr="40000"><regs offset="0" type="string" len="20">%s</regs><regs type="u16">%d</regs></mbmap>' % (text, v), e3)
        rng.shuffle(places)
        for p in places:
            rig.clear_caches_light()
            for k in files:
                if os.path.exists(os.path.join(t.dir, k)):
                    os.unlink(os.path.join(t.dir, k))
            if p.endswith('.zip'):
                t.zip(p, files)
            elif '.zip/' in p:
                z, inner = p.split('/', 1)
                t.zip(z, {inner + '/' + k: d for k, d in files.items()})
            else:
                if p:
                    os.makedirs(p)
                for k, d in files.items():
                    t.write((p + '/' if p else '') + k, d)
            what = 'from %s, encoded %s/%s/%s' % (p or 'the working directory', e1, e2, e3)
            try:
                with device.fresh_file_pathlist(*([os.path.join(t.dir, p)] if p else [])):
                    m = device.Model(device.Device(), mid, 40002, 17)
                    m.load()
                    d = device.Device()
                    d.from_pics(filename='pics.xml')
                mm = mbmap.ModbusMap(1)
                mm.from_xml('map.xml', util.PathList([os.path.join(t.dir, p)]) if p else None)
            except (util.SunSpecError, mbmap.ModbusMapError) as e:
                ctx.fail('a document %s was not read: %s' % (what, e), 'not-read')
            ctx.eq(m.model_type.label, label, 'label of a definition ' + what, 'encoding')
            ctx.eq(m.points['P'].point_type.label, label, 'label of a point ' + what, 'encoding')
            pts = d.models_list[0].points
            ctx.eq((pts['P'].value, pts['S'].value), (v, text), 'points of a PICS document ' + what, 'encoding')
            ctx.eq(mm.read(40000, 21), text.encode('latin-1').ljust(40, b'\0') + bytes([v >> 8, v & 255]), 'registers of a map ' + what, 'encoding')
            ctx.count('encoded_documents', 3)
        ctx.seen(e1, e2, e3, text, label)
        ctx.note(encodings=(e1, e2, e3), text=label)


KINDS = {
    'encoding': (encoding_case, 200, 4000),
    'default': (default_case, 24, 300),
    'path': (path_case, 2500, 40000),
    'scope': (scope_case, 700, 12000),
    'map': (map_case, 400, 6000),
}
MIN = {'replaced_inside': 50, 'tree_changes': 1000, 'definition_changes': 200, 'found_empty': 300, 'found': 10000, 'missing': 10000, 'found_later': 3000, 'found_after_archive': 1000, 'found_in_archive': 3000, 'late': 500,
       'definitions': 8000, 'definitions_missing': 500, 'scopes': 900, 'nested': 300, 'left_by_error': 300, 'extended': 200, 'installed': 100,
       'documents': 2000, 'maps': 1000, 'default_lookups': 200, 'encoded_documents': 2000}
