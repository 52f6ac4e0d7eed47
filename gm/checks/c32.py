"""File transfer tokens."""
from golem_messages import exceptions, shortcuts
from golem_messages.message.concents import FileTransferToken

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C32'
RULE = ('A case makes a FileTransferToken with some list of files, live or'
        ' loaded from a frame assembled independently (categories as text,'
        ' left out or wrong), and compares its operation flags, its files'
        ' and the file found for a category to a plain model. Distinct:'
        ' (operation, categories in order, live or loaded, verdict).')
FileInfo = FileTransferToken.FileInfo
Category = FileInfo.Category
Operation = FileTransferToken.Operation
NAMES = ('results', 'resources')


def make_files(rng):
    return [dict(gen.plain_value(gen.file_info(rng)))
            for _ in range(rng.choice([0, 1, 2, 3, 5]))]


def frame(rng, operation, files, maker):
    slots = [['subtask_id', 'x'], ['token_expiration_deadline', 5],
             ['storage_cluster_address', 'http://x'],
             ['authorized_client_public_key', b'k'],
             ['operation', operation], ['files', files]]
    return ref.frame(4005, maker.ts, False, ref.ZERO_SIG,
                     ref.cbor_enc(slots), None)


def token(ctx):
    rng = ctx.rng
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    files = make_files(rng)
    operation = rng.choice(['upload', 'download', None])
    where = rng.choice(['live', 'loaded', 'dumped'])
    wire = [dict(f) for f in files]
    if where == 'loaded':
        for f, model in zip(wire, files):
            for key, default in (('path', ''), ('checksum', ''),
                                 ('size', 0), ('category', 'results')):
                if rng.random() < 0.1:
                    del f[key]
                    model[key] = default
        msg = shortcuts.load(frame(rng, operation, wire, maker), None, None,
                             check_time=False)
    else:
        infos = [FileInfo(dict(f, category=Category(f['category'])))
                 for f in files]
        msg = FileTransferToken(
            operation=Operation(operation) if operation else None,
            files=infos)
        if where == 'dumped':
            data = shortcuts.dump(msg, maker.cast.concent.priv,
                                  maker.cast.provider.pub)
            body = dict(map(tuple, ref.cbor_dec(ref.ecies_decrypt(
                ref.Frame(data).body, maker.cast.provider.priv))))
            ctx.eq(body['files'], files, 'files on the wire', 'wire')
            ctx.eq(body['operation'], operation, 'operation', 'wire')
            msg = shortcuts.load(data, maker.cast.provider.priv,
                                 maker.cast.concent.pub, check_time=False)
    ctx.check(msg.is_upload is (operation == 'upload'), 'is_upload %r of %r'
              % (msg.is_upload, operation), 'upload')
    ctx.check(msg.is_download is (operation == 'download'),
              'is_download %r of %r' % (msg.is_download, operation),
              'download')
    ctx.eq(len(msg.files), len(files), 'number of files', 'files')
    for got, want in zip(msg.files, files):
        ctx.check(type(got) is FileInfo, 'type', 'files')
        ctx.check(got['category'] is Category[want['category']],
                  'category %r' % (got['category'],), 'category')
        ctx.eq(gen.plain_value(dict(got)), want, 'file', 'files')
    for odd in ('nonsense', '', None, 5, b'results', 'Results', object(),
                Operation.upload, 'path'):
        ctx.check(msg.get_file_info(odd) is None, 'asked for %r' % (odd,),
                  'lookup')
    for name in NAMES:
        found = msg.get_file_info(Category[name])
        ctx.check(msg.get_file_info(Category[name].value) is found,
                  'asked by text it finds another', 'lookup')
        first = next((i for i, f in enumerate(files)
                      if f['category'] == name), None)
        if first is None:
            ctx.check(found is None, 'found %r' % (found,), 'lookup')
            ctx.event('not found')
        else:
            ctx.check(found is msg.files[first], 'not the first one',
                      'lookup')
            ctx.event('found')
    ctx.event('oracle')
    ctx.distinct(operation, tuple(f['category'] for f in files), where)
    ctx.sample((operation, files))


def refused(ctx):
    """Files of a wrong category don't get in."""
    rng = ctx.rng
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    files = make_files(rng) + make_files(rng)[:1]
    if not files:
        files = [gen.plain_value(dict(gen.file_info(rng)))]
    bad = rng.choice(files)
    odd = rng.choice([None, '', 'result', 'Results', 'RESULTS', ' results',
                      5, True, b'results', ['results'], {}, 1.5,
                      'Category.results', 'wrong'])
    bad['category'] = odd
    e = ctx.raises(exceptions.FieldError, lambda: shortcuts.load(
        frame(rng, 'upload', files, maker), None, None, check_time=False),
        'category %r loaded' % (odd,), 'category:accepted')
    ctx.eq((e.field, e.value), ('category', odd), 'blame', 'category:blame')
    # a live one takes the members only, as for good text
    fields = gen.plain_value(dict(gen.file_info(rng)))
    for value in (odd, 'results', 'resources'):
        ctx.raises(exceptions.FieldError,
                   lambda: FileInfo(dict(fields, category=value)),
                   'category %r' % (value,), 'category:accepted')
        info = FileInfo(dict(fields, category=Category.results))

        def assign():
            info['category'] = value
        ctx.raises(exceptions.FieldError, assign, 'category %r' % (value,),
                   'category:assigned')
        ctx.check(info['category'] is Category.results, 'changed',
                  'category:assigned')
    ctx.raises(KeyError, lambda: FileInfo(dict(
        fields, category=Category.results, more=1)), 'more', 'unknown')
    ctx.check(FileInfo()['category'] is Category.results, 'default',
              'default')
    ctx.eq(gen.plain_value(dict(FileInfo())), {
        'path': '', 'checksum': '', 'size': 0, 'category': 'results'},
        'defaults', 'default')
    # a list of something else
    other = rng.choice([5, None, 'ab', [5], ['ab'], [None], {'a': 1},
                        [[['path', 'x']]]])
    ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
        frame(rng, 'upload', other, maker), None, None, check_time=False),
        'files %r' % (other,), 'files:accepted')
    ctx.event('refused')
    ctx.distinct(repr(odd), len(files), repr(other))


SCENARIOS = [
    Scenario('token', token, 600, 20000, need={'found': 300,
                                               'not found': 200}),
    Scenario('refused', refused, 300, 10000, need={'refused': 300}),
    Scenario('crowd', crowd(token, refused), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
