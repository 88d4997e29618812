"""Which contracts decide which property.

A property is decided by the obligations (with a relevant tag) of its root
scenarios and by all obligations of every contract the root proofs rely on.
"""
LISTS = ('SortedList', 'SortedKeyList')
CMP = ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')
L_MUT = ('add', 'update', '__iadd__', '__init__', '__imul__', 'clear', 'remove', 'discard', 'pop', '__delitem__')
L_CORE = ('add', '_delete', 'clear', '_reset')
L_READP = ('__getitem__',)
L_SEARCH = ('__contains__', 'count', 'index', 'bisect', 'bisect_left', 'bisect_right', 'bisect_key', 'bisect_key_left', 'bisect_key_right')
L_ITER = ('__iter__', '__reversed__', 'islice', 'irange', 'irange_key')
L_DERIVE = ('copy', '__copy__', '__add__', '__radd__', '__mul__', '__rmul__', '__reduce__', 'key', 'construct', '__new__')
L_REFUSE = ('__setitem__', 'reverse', 'append', 'extend', 'insert')
PRIVATE = ('_pos', '_loc', '_build_index', '_islice', '_delete', '_expand')
SIZE_TAGS = {'upper', 'lower', 'load'}


def bad(name):
    return 'incomparable' in name or 'comparison fails' in name


def is_sizes(pid):
    return pid == 'C08'


def wf_only(o):
    return 'wf' in o['tags'] or 'pre' in o['tags'] or 'frame' in o['tags']


def anything(o):
    return True


def rejecting(o):
    t = o['tags']
    return 'unchanged' in t or 'pre' in t


def rejecting_bad(o):
    t = o['tags']
    return 'unchanged' in t or 'pre' in t or ('raise' in t and 'missing' in t)


def roots(pid, scs):
    """[(scenario, filter)]; a filter says which failing obligations break the property."""
    out = []

    def pick(classes, methods, f=anything, name=None, skip_bad=True):
        for s in scs:
            if s.cls in classes and (methods is None or s.method in methods) and (name is None or name(s.name)):
                if skip_bad and bad(s.name):
                    continue
                out.append((s, f))
    core = lambda: (pick(LISTS, L_CORE, wf_only), pick(LISTS, ('update',), wf_only, lambda n: n == 'list'), pick(LISTS, ('__init__',), wf_only, lambda n: n == 'list'))
    SS, SD, VIEWS = ('SortedSet',), ('SortedDict',), ('SortedKeysView', 'SortedItemsView', 'SortedValuesView')
    if pid == 'C01':
        pick(LISTS, L_MUT + ('construct', '__len__', '__iter__'))
    elif pid == 'C02':
        pick(LISTS, L_READP)
        core()
        pick(LISTS, ('__delitem__', 'pop'), wf_only)
    elif pid == 'C03':
        pick(LISTS, ('__delitem__', 'pop'))
        core()
    elif pid == 'C04':
        pick(LISTS, L_SEARCH)
        core()
    elif pid == 'C05':
        pick(LISTS, L_ITER)
        core()
    elif pid == 'C06':
        pick(LISTS, ('remove', 'discard'))
    elif pid == 'C07':
        pick(LISTS, ('add', 'update', '__iadd__', '__init__'))
    elif pid == 'C08':
        pick(LISTS, L_MUT, wf_only)
        pick(LISTS, ('_reset', '_check'))
    elif pid == 'C09':
        pick(LISTS, L_DERIVE)
    elif pid == 'C10':
        pick(LISTS, CMP)
    elif pid in ('C11', 'C12', 'C13', 'C14', 'C15'):
        for s in scs:
            if pid in getattr(s, 'props', ()) and not bad(s.name):
                out.append((s, anything))
    elif pid == 'C16':
        rej = ('remove', 'pop', 'index', '__getitem__', '__delitem__') + L_REFUSE
        pick(LISTS, rej, rejecting)
        pick(LISTS, None, rejecting_bad, bad, skip_bad=False)
        for s in scs:
            if s.cls in SS + SD + VIEWS and 'C16' in getattr(s, 'props', ()):
                out.append((s, rejecting_bad if bad(s.name) else rejecting))
    return out


def relevant(pid, o):
    if not is_sizes(pid) and SIZE_TAGS & set(o['tags']):
        return False
    return True


def mset_enough(pid):
    """The property does not speak about the order of ties."""
    return pid in ('C01', 'C02', 'C04', 'C05', 'C08', 'C09', 'C10', 'C13', 'C14', 'C15', 'C16', 'C11', 'C12')


# concrete operations that exercise a method
OPS = {
    'add': ['add'], 'update': ['update'], '__iadd__': ['iadd'], '__imul__': ['imul'], '__init__': ['reinit', 'update', 'construct'], 'clear': ['clear'],
    'remove': ['remove'], 'discard': ['discard'], 'pop': ['pop'], '__delitem__': ['del', 'delitem'], '_delete': ['del', 'remove', 'pop'], '_reset': ['reset'],
    '_expand': ['add'], '__getitem__': ['get'], '_pos': ['get', 'pop', 'del'], '_loc': ['index', 'bisect_left', 'bisect_right'],
    '_build_index': ['get', 'index', 'pop'], '_islice': ['islice', 'irange'], '__contains__': ['contains'], 'count': ['count'], 'index': ['index'],
    'bisect': ['bisect'], 'bisect_left': ['bisect_left'], 'bisect_right': ['bisect_right'], 'bisect_key': ['bisect_key'],
    'bisect_key_left': ['bisect_key_left'], 'bisect_key_right': ['bisect_key_right'], '__iter__': ['iter'], '__reversed__': ['reversed'],
    'islice': ['islice'], 'irange': ['irange'], 'irange_key': ['irange_key'], 'copy': ['copy'], '__copy__': ['__copy__'], '__add__': ['plus'],
    '__radd__': ['rplus'], '__mul__': ['times'], '__rmul__': ['rtimes'], '__reduce__': ['pickle', 'reduce'], '__len__': ['len'],
    '__setitem__': ['setitem'], 'reverse': ['reverse'], 'append': ['append'], 'extend': ['extend'], 'insert': ['insert'], '_check': ['reset', 'add', 'del'],
    'setdefault': ['setdefault'], 'popitem': ['popitem'], 'peekitem': ['peekitem'], 'fromkeys': ['fromkeys'], '__or__': ['or'], '__ror__': ['ror'],
    '__ior__': ['ior'], 'construct': ['add', 'update'],
}
for c in CMP:
    OPS[c] = ['cmp']
KIND = {'SortedList': 'sl', 'SortedKeyList': 'skl', 'SortedSet': 'ss', 'SortedDict': 'sd', 'SortedKeysView': 'sd', 'SortedItemsView': 'sd',
        'SortedValuesView': 'sd'}


def focus_of(cls, method):
    return {'kind': KIND.get(cls), 'ops': OPS.get(method, [method.strip('_')])}
