"""What each check explores: the batches of cases to generate, and the design level configurations to model check."""

ASSUMPTIONS = []

def files(profile, plan, quick, thorough=None):
    """Random files; the small ones are cheap, so the quick tier takes 2.5 times as many of them as the plan says (and the thorough tier 12 times)."""
    return dict(gen='GenFiles', consts=dict(Profile=profile, Plan=plan), quick=quick * 5 // 2 if quick >= 80 else quick, thorough=thorough or quick * 12)

def many(profiles, plan, quick, thorough=None):
    return [files(p, plan, quick, thorough) for p in profiles]

def listed(set, plan='load', quick=1, thorough=1):
    """An exhaustive enumeration; quick/thorough: only every so many-th of its items (which ones depends on the seed)."""
    return dict(gen='Enum', consts=dict(Set=set, Plan=plan), exhaustive=True, quick=1, thorough=1, stride=dict(quick=quick, thorough=thorough))

def mc(name, module, inv, prop=(), thorough=None, **consts):
    """A design level configuration: the state machine of a module, its invariants, and larger constants for the thorough tier."""
    return dict(name=name, module=module, inv=list(inv), prop=list(prop), consts=consts, thorough=thorough or {})

VLQ = mc('quantities', 'MCVlq', ('Accepted', 'Padded', 'ReadsBack', 'Refused', 'OwnBytes'), Limbs='{0, 1, 127, 128, 129, 255}', MaxLen=5, thorough=dict(Limbs='{0, 1, 2, 63, 64, 127, 128, 129, 192, 254, 255}'))
FILE = ('ReadsBack', 'AllBytes', 'Cut', 'Canonical', 'WholeFile')
EVENTS = mc('every-event', 'MCFile', FILE, Depth=1, Rich=True, thorough=dict(Depth=2))
TRACKS = mc('short-tracks', 'MCFile', FILE, Depth=3, Rich=False, thorough=dict(Depth=5))
PAIRS = mc('note-pairs', 'MCTrack', ('PairsRight', 'NoOverlap'), Theme='pairs', Depth=3, thorough=dict(Depth=5))
TEMPO = mc('tempo-integral', 'MCTrack', ('TempoRight', 'TempoMonotone'), Theme='tempo', Depth=4, thorough=dict(Depth=6))
BANKS = mc('bank-history', 'MCTrack', ('BanksRight', 'ComplaintsRight'), Theme='banks', Depth=4, thorough=dict(Depth=5))
NAMES = mc('name-history', 'MCTrack', ('NamesRight',), Theme='names', Depth=4, thorough=dict(Depth=6))
KEYS = mc('key-algebra', 'MCKeys', ('Total', 'Composes', 'Octave', 'Mode', 'NoteMoves', 'InRange', 'TonicName'), Span=13, Depth=1, thorough=dict(Depth=3, Span=14))
BARS = mc('bar-lines', 'MCTrack', ('BarsRight',), Theme='bars', Depth=4, thorough=dict(Depth=5))
READERS = mc('readers', 'MCReaders', ('Undisturbed', 'NeverStuck'), Readers='{1, 2}', Depth=2, Shared=False, thorough=dict(Depth=3))
COMMAND = mc('command-order', 'MCCommand', ('Honest', 'Complete', 'Kept', 'InputKept', 'SelfWhole'), prop=('Ends',), Pieces=3, thorough=dict(Pieces=40))

DESIGNS = {'C01': [VLQ, EVENTS], 'C02': [EVENTS, TRACKS], 'C03': [VLQ, TRACKS], 'C07': [KEYS], 'C08': [PAIRS], 'C10': [TEMPO], 'C11': [BANKS], 'C13': [VLQ, EVENTS, TRACKS],
           'C14': [NAMES], 'C17': [BANKS], 'C18': [READERS], 'C26': [READERS], 'C22': [COMMAND], 'C24': [BARS]}

PLANS = {
    'C01': dict(batches=[listed('huge', 'load'), listed('bulky', 'load'), files('large', 'load', 24), files('wide', 'load', 24), listed('long', 'load'), listed('values'), listed('extremes'), listed('orders')] + [files('mix', 'load', 800), files('run', 'load', 400), files('sysex', 'load', 400), files('meta', 'load', 400),
                         files('bulk', 'load', 300), files('ticks', 'load1', 300)],
                cover=['event NoteOn']),
    'C02': dict(batches=[listed('huge', 'encode'), listed('bulky', 'encode'), files('large', 'encode', 24), files('wide', 'encode', 24), listed('long', 'encode'), listed('values', 'encode'), listed('extremes', 'encode'), listed('orders', 'encode')] + many(('mix', 'run', 'sysex', 'meta', 'bulk', 'ticks'), 'encode', 400)),
    'C03': dict(batches=[listed('huge', 'writers'), listed('long', 'writers'), listed('bulky', 'encode'), files('large', 'encode', 16), files('wide', 'encode', 16), listed('bystanders', 'encode', 3), listed('values', 'writers', 3), listed('extremes', 'encode'), listed('orders', 'writers', 3)] + many(('mix', 'run', 'sysex', 'meta', 'bulk', 'ticks'), 'encode', 200) + many(('mix', 'notes'), 'transpose', 200)
                + many(('sheet', 'sheets', 'sheetB'), 'sources', 200)),
    'C04': dict(batches=[listed('huge', 'json'), files('large', 'json', 24), files('wide', 'json', 24), listed('long', 'json'), listed('values', 'json'), listed('orders', 'json', 3)] + many(('sheet', 'sheets', 'sheetJ', 'sheetB'), 'json', 300) + many(('sheet', 'sheetJ'), 'cli-json', 120)),
    'C05': dict(batches=[listed('bystanders', 'textasm', 3), listed('huge', 'textasm'), files('large', 'textasm', 24), files('wide', 'textasm', 24), listed('long', 'textasm'), listed('values', 'textasm'), listed('orders', 'textasm', 3)] + many(('sheet', 'sheets', 'sheetT', 'sheetB'), 'textasm', 300) + many(('sheet', 'sheetT'), 'cli-textasm', 120)),
    'C06': dict(batches=[listed('huge', 'sources'), files('large', 'sources', 24), files('wide', 'sources', 24), listed('long', 'sources'), listed('values', 'sources', 2), listed('orders', 'sources', 3)] + many(('sheet', 'sheets', 'sheetB'), 'sources', 400) + many(('sheet',), 'cli-sources', 120)),
    'C21': dict(batches=[listed('badsources', 'badsources')] + many(('sheet',), 'badsources', 600) + many(('sheet',), 'cli-badsources', 120)),
    'C07': dict(batches=[listed('bystanders', 'transpose'), listed('huge', 'transpose'), files('large', 'transpose', 24), files('wide', 'transpose', 24), listed('shifts', 'transpose'), listed('orders', 'transpose', 3)] + many(('mix', 'notes', 'names', 'ticks'), 'transpose', 400) + many(('mix', 'notes'), 'cli-transpose', 120)),
    'C08': dict(batches=[listed('bystanders', 'notes'), listed('huge', 'notes'), files('large', 'notes', 24), files('wide', 'notes', 24), listed('orders', 'notes')] + many(('notes', 'clock', 'names', 'run'), 'notes', 400) + many(('notes', 'mix'), 'cli-notes', 120)),
    'C10': dict(batches=[listed('bystanders', 'notes'), listed('tempos', 'notes'), listed('huge', 'notes'), files('large', 'notes', 24), files('wide', 'notes', 24), listed('values', 'notes', 2), listed('orders', 'notes', 3)] + many(('notes', 'clock', 'mix'), 'notes', 400) + many(('notes', 'clock'), 'cli-notes', 120)),
    'C11': dict(batches=[listed('bystanders', 'validate'), listed('huge', 'validate'), files('large', 'validate', 24), files('wide', 'validate', 24), listed('orders', 'validate')] + many(('mix', 'notes', 'bank', 'ticks'), 'validate', 400) + many(('mix',), 'cli-any', 300)),
    'C12': dict(batches=[listed(x) for x in ('metas', 'fixed', 'status', 'headers', 'vlqs', 'packets')] + [listed('values', 'all', 5), listed('orders', 'all', 9), listed('cuts', 'all', 2), listed('bytes', 'all', 199, 7), listed('packets', 'all', 31), listed('status', 'all', 61), listed('headers', 'all', 13), listed('extremes', 'all', 4), listed('bulky', 'all'), listed('bulky', 'cli-tsvs'), listed('long', 'all'), listed('huge', 'all'), listed('badsources', 'badsources', 4)] + many(('mix', 'tiny', 'sysex', 'meta'), 'break', 400) + many(('sheet',), 'garbled', 600) + many(('tiny',), 'cli-break', 300)),
    'C13': dict(batches=[listed(x) for x in ('metas', 'fixed', 'status', 'headers', 'vlqs', 'packets', 'cuts')] + [listed('bytes', 'load', 17)] + many(('mix', 'tiny', 'sysex', 'meta', 'run', 'bulk'), 'mutate', 600)),
    'C14': dict(batches=[listed('bystanders', 'load'), listed('huge', 'load'), files('large', 'load', 24), files('wide', 'load', 24), listed('values'), listed('orders'), listed('extremes', 'load', 3)] + many(('mix', 'names', 'sysex', 'meta'), 'load', 400)),
    'C15': dict(batches=[listed('long', 'text'), listed('huge', 'text'), files('large', 'text', 24), files('wide', 'text', 24), files('wide', 'cli-split', 24), listed('huge', 'cli-split'), listed('values', 'text'), listed('extremes', 'text', 2), listed('orders', 'text', 4)] + many(('mix', 'names', 'sysex', 'meta', 'ticks', 'bulk', 'bank'), 'text', 240) + many(('mix',), 'cli-text', 120) + many(('mix',), 'cli-split', 120)),
    'C16': dict(batches=[files('bulk', 'cli-tsvs', 60), listed('long', 'cli-tsv'), listed('huge', 'cli-tsvs', 2), files('large', 'cli-tsv', 24), files('wide', 'cli-tsv', 24), listed('values', 'cli-tsv', 3), listed('orders', 'cli-tsv', 8), listed('extremes', 'cli-tsv', 4)] + many(('mix', 'sysex', 'meta', 'names'), 'cli-tsv', 160)),
    'C17': dict(batches=[listed('bystanders', 'load'), listed('huge', 'load'), files('large', 'load', 24), files('wide', 'load', 24), listed('orders'), listed('values')] + many(('mix', 'bank'), 'load', 400)),
    'C18': dict(batches=many(('mix', 'names', 'bank', 'notes', 'sysex'), 'session', 160) + many(('sheet', 'sheets'), 'tour', 160) + many(('sheet', 'sheets'), 'studio', 200) + many(('sheet', 'sheets'), 'marathon', 8)),
    'C26': dict(together=True, batches=many(('sheet', 'sheets'), 'ensemble', 160)),
    'C20': dict(batches=[listed('long', 'export'), listed('huge', 'export'), files('large', 'export', 24), files('wide', 'export', 24), listed('values', 'export'), listed('extremes', 'export', 2), listed('orders', 'export', 4)] + many(('mix', 'names', 'sysex', 'meta', 'bank', 'sheet', 'sheetJ'), 'export', 240) + many(('mix', 'meta'), 'cli-export', 120)),
    'C23': dict(batches=[listed('huge', 'forms'), listed('bulky', 'forms'), listed('values', 'forms'), listed('extremes', 'forms'), listed('orders', 'forms', 6), listed('long', 'forms')] + many(('mix', 'sysex', 'meta', 'names', 'bank', 'ticks'), 'forms', 240) + [listed(x, 'alone') for x in ('metas', 'fixed', 'vlqs', 'lone')] + many(('mix', 'meta', 'sysex', 'names'), 'single', 600)),
    'C24': dict(batches=[listed('bystanders', 'click'), listed('tempos', 'click'), listed('huge', 'click'), listed('orders', 'click', 3)] + many(('click',), 'click', 600) + many(('mix', 'clock', 'meta'), 'click', 160) + many(('click',), 'cli-click', 160)),
    'C25': dict(batches=[listed('long', 'layouts'), listed('values', 'layouts', 3), listed('orders', 'layouts', 8), listed('extremes', 'layouts', 6)] + many(('mix', 'meta', 'sysex', 'names', 'ticks'), 'layouts', 240) + many(('mix', 'sysex'), 'cli-layouts', 120)),
    'C22': dict(batches=[listed('commands', 'cli-any', 3), listed('assemblies', 'cli-any'), listed('cuts', 'cli-any', 8), listed('headers', 'cli-any', 37)] + many(('mix', 'tiny'), 'cli-any', 240) + many(('tiny',), 'cli-break', 240) + many(('sheet',), 'cli-sources', 80) + many(('sheet',), 'cli-badsources', 80)),
}

for _p, _d in DESIGNS.items():
    PLANS[_p]['mc'] = _d
