"""Histories of calls on documents, with everything that came of them."""
import ast
import functools
import re

from . import gen, observe
from .observe import enolib, Timeout, chars, crashed, dump_raw, esc, limit, line_of, opt, report

HEARD = []     # what loaders were given
MADE = []      # what they returned
SAYING = [()]  # what the errors of loaders are made with


class Got:
    """What a loader makes of a text."""
    def __init__(self, text):
        self.text = text

    def __bool__(self):   # whatever a loader returns is as good as anything else
        return False

    def __eq__(self, other):
        raise AssertionError('the results of loaders are not to be compared')

    __hash__ = None


class Rejected(ValueError):
    pass


class Crash(Exception):
    pass


def crashes():
    """Exceptions of all kinds that are no ValueErrors, those of another document among them."""
    place = {'line': 7, 'column': 7, 'index': 77}
    kinds = [KeyError, TypeError, AttributeError, StopIteration, IndexError, ZeroDivisionError, RuntimeError, OSError, AssertionError, NotImplementedError]
    return [Crash('crash'), *(type(f'Crashing{kind.__name__}', (kind,), {})('crash') for kind in kinds),
            *(kind('crash', 'snippet', {'from': place, 'to': place}) for kind in (enolib.ParseError, enolib.ValidationError))]


CRASHES = crashes()


class Callable:
    """A loader that is no function."""
    def __init__(self, function):
        self.function = function

    def __call__(self, text):
        return self.function(text)


def made(thing):
    MADE.append(thing)
    return thing


def wrap(text):
    HEARD.append(text)
    return made(Got(text))


def none(text):
    HEARD.append(text)
    return made(None)


def empty(text):
    HEARD.append(text)
    return made('')


def zero(text):
    HEARD.append(text)
    return made(0)


def reject(text):
    HEARD.append(text)
    raise (ValueError if len(HEARD) % 2 else Rejected)(*SAYING[0])


def fussy(text):
    HEARD.append(text)
    if len(text) > 1:
        raise ValueError(*SAYING[0])
    return made(Got(text))


def crash(text):
    HEARD.append(text)
    raise CRASHES[sum(map(ord, text)) % len(CRASHES)]


LOADERS = {'wrap': wrap, 'none': none, 'empty': empty, 'zero': zero, 'reject': reject, 'fussy': fussy, 'crash': crash}
FALSY = {'none': None, 'empty': '', 'zero': 0}
REGISTERED = {name: 'my_' + name for name in LOADERS}


def registered(loader, again):
    """The name a loader can be called by."""
    if not again:
        return REGISTERED[loader]
    RENEWED[0] += 1     # the name meant something else before
    function = LOADERS[loader]
    crashed([lambda: enolib.register({'renewed': function}), lambda: enolib.register(renewed=function),
             lambda: enolib.register({'other': none}, {'renewed': function}, another=wrap)][RENEWED[0] % 3])
    return 'renewed'


RENEWED = [0]


def register_all():
    """Loaders are registered in all the ways there are."""
    def named(name):
        def function(text):
            return LOADERS[name](text)
        function.__name__ = 'my_' + name
        return function
    for register in (lambda: enolib.register(named('wrap'), named('reject')),
                     lambda: enolib.register({'my_none': none, 'my_empty': lambda text: LOADERS['empty'](text)}),
                     lambda: enolib.register({'my_fussy': fussy}, my_zero=zero, my_crash=crash)):
        crashed(register)   # it is noticed by whoever calls one of them


register_all()

ELEMENT_FACES = ('element', 'empty', 'field', 'fieldset', 'list', 'section')
EMPTY_CALL = {'h': 1, 'm': '', 'face': '', 'mode': '', 'key': [], 'loader': '', 'flag': False, 'only': [], 'skip': [],
              'via': False, 'given': [False, False], 'say': '', 'args': '()'}


SAID = {'reject': ('no reject',), 'fussy': ('no fussy',), 'build': ('mine',), 'assert': ('not expected',)}   # unless it is something else
WORDINGS = [('no.',), ('no...',), (' spaced ',), ('',), ('.',), ('{0} {key}',), ('%s %(a)s %',), ('"quoted" \'so\' `so`',), ('<b>&amp;</b>',),
            ('ünïcode \u2028 \U0001f600',), ('two\nlines',), ('tab\tand \\n',), ('long ' * 40,), ('MiXed Case!',), ('?',), ('no: more',), ('\x1b[31m',)]
ODD_ARGUMENTS = [(), ('a', 'b'), (5,), (None,), (('t', 1),), (b'bytes',)]


def said(args):
    """What an error says."""
    return str(ValueError(*args))


def describe(thing):
    raw = thing.raw()
    ty = observe.RAW_TYPE.get(raw['type'], raw['type'])
    return ty + ('=' + raw['key'] if 'key' in raw else '')


def named(text):
    """The types that are named in a text."""
    words = {'empty_element': 'empty'}
    return sorted({words.get(word, word) for word in re.findall(r'\w+', text)} & {'empty', 'field', 'fieldset', 'list', 'section'})


def face_of(thing, asked):
    """What a thing can be used as, judged by what it understands."""
    has = lambda name: hasattr(thing, name)
    if has('to_section'):
        face = 'element'
    elif has('sections'):
        face = 'section'
    elif has('entries'):
        face = 'fieldset'
    elif has('items'):
        face = 'list'
    elif has('required_value'):
        if is_missing(thing):
            face = 'fieldset_entry' if asked == 'fieldset_entry' else 'field'
        else:
            face = {'list_item': 'item', 'fieldset_entry': 'entry'}.get(thing.raw()['type'], 'field')
    else:
        face = 'empty'
    return face


def is_missing(thing):
    return not hasattr(thing, 'touch')


def invoke(thing, call, via):
    """The call on the real thing."""
    m, face, mode, loader = call['m'], call['face'], call['mode'], call['loader']
    key = call['_key']
    function = LOADERS.get(loader)
    if function:
        function = [function, functools.partial(function), Callable(function)][call['h'] % 3]
    if m == 'ask':
        name = ('' if mode == 'plain' else mode + '_') + ('entry' if face == 'fieldset_entry' else face)
        method = getattr(thing, name)
        return method() if key is None and mode != 'optional' else method(key)
    if m == 'ask_all':
        method = getattr(thing, 'entries' if face == 'fieldset_entry' else face + 's')
        return method() if key is None else method(key)
    if m == 'items':
        return thing.items()
    if m == 'length':
        return thing.length()
    if m == 'to':
        return getattr(thing, 'to_' + face)()
    if m == 'yields':
        return getattr(thing, 'yields_' + face)()
    if m in ('value', 'values', 'comment'):
        if not loader:
            return getattr(thing, f'{mode}_string_{m}')()
        if via:
            return getattr(thing, f'{mode}_{registered(loader, call["h"] % 2)}_{m}')()
        return getattr(thing, f'{mode}_{m}')(function)
    if m == 'key':
        if not loader:
            return thing.string_key()
        if via:
            return getattr(thing, registered(loader, call['h'] % 2) + '_key')()
        return thing.key(function)
    if m == 'parent':
        return thing.parent()
    if m == 'touch':
        return thing.touch()
    if m == 'require':
        method = thing.all_elements_required if hasattr(thing, 'all_elements_required') else thing.all_entries_required
        return method() if call['flag'] and via else method(call['flag'])
    if m == 'assert':
        say = call['_say']
        message = {'': None, 'text': say, 'function': lambda element: say + ': ' + describe(element)}[mode]
        options = {}
        if call['_only'] is not None:
            options['only'] = call['_only']
        if call['_skip'] is not None:
            options['skip'] = call['_skip']
        return thing.assert_all_touched(**options) if message is None else thing.assert_all_touched(message, **options)
    if m == 'build':
        say = call['_say']
        if mode == 'text':
            message = say
        elif face == 'error':
            message = lambda element: say + ': ' + describe(element)
        else:
            message = lambda text: say + ': ' + ('' if text is None else '=' + text)
        return getattr(thing, face)(message)
    if m == 'raw':
        return thing.raw()
    if m == 'print':
        return repr(thing)
    raise ValueError(m)


class History:
    """A document (in as many copies as there are reporters) with the things that were returned so far."""
    def __init__(self, text, locale='en', reporters=('text',), source=None):
        self.lanes = [[observe.parse(text, locale, reporter, source)] for reporter in reporters]
        self.reporters = reporters
        self.source = source
        self.handles = {id(self.lanes[0][0]): 1}
        self.faces = ['section']
        self.missing = [False]
        self.calls = []
        self.dead = False

    def things(self):
        return self.lanes[0]

    def call(self, h, m, face='', mode='', key=None, loader='', flag=False, only=None, skip=None, via=False, args=None):
        args = SAID.get(loader or m, ()) if args is None else args
        call = dict(EMPTY_CALL, h=h, m=m, face=face, mode=mode, key=[] if key is None else [chars(key)],
                    loader=loader, flag=flag, only=[chars(k) for k in only or []], skip=[chars(k) for k in skip or []],
                    via=via, given=[only is not None, skip is not None], _key=key, _only=only, _skip=skip,
                    say=esc(said(args)), args=repr(args), _say=said(args))
        outcomes = []
        heard, produced = [], []
        for number, lane in enumerate(self.lanes):
            del HEARD[:], MADE[:]
            SAYING[0] = args
            try:
                with limit():
                    outcomes.append(('value', invoke(lane[h - 1], call, via)))
            except Timeout:
                outcomes.append(('timeout', None))
            except Exception as error:
                outcomes.append(('raised', error))
            if number == 0:
                heard, produced = list(HEARD), list(MADE)
        call['heard'] = [esc(text) if isinstance(text, str) else '?' + repr(text) for text in heard]
        call['news'] = []
        try:
            call['res'] = self.encode(call, outcomes, produced, len(heard))
        except Exception as error:
            call['res'] = {'r': 'unreadable', 'v': esc(repr(error))}
        if call['res']['r'] in ('unreadable', 'exception', 'timeout', 'odd'):
            self.dead = True
        self.calls.append({k: v for k, v in call.items() if not k.startswith('_')})
        return call['res']

    def report(self, outcomes):
        others = None
        if len(self.lanes) > 1:
            others = {name: outcomes[i][1] for i, name in enumerate(self.reporters) if name != 'text'}
        return report(outcomes[0][1], others, self.source)

    def hand(self, outcomes, pick, asked, call):
        """The number of a thing that was returned."""
        thing = pick(outcomes[0][1])
        if id(thing) in self.handles and not is_missing(thing):
            return self.handles[id(thing)]
        self.handles[id(thing)] = len(self.faces) + 1
        for lane, (_, value) in zip(self.lanes, outcomes):
            try:
                lane.append(pick(value))
            except Exception:
                lane.append(None)
        missing = is_missing(thing)
        face = face_of(thing, asked)
        self.faces.append(face)
        self.missing.append(missing)
        line = 0 if missing else line_of(thing) + 1
        call['news'].append({'face': face, 'missing': missing, 'line': line})
        return len(self.faces)

    def encode(self, call, outcomes, produced, heard):
        kind, value = outcomes[0]
        m, loader = call['m'], call['loader']
        if kind == 'timeout':
            return {'r': 'timeout'}
        if kind == 'raised':
            if any(value is crash for crash in CRASHES):
                return {'r': 'crash'}
            if isinstance(value, enolib.ValidationError):
                return {'r': 'validation', 'v': self.report(outcomes)}
            if isinstance(value, TypeError):
                return {'r': 'type', 'v': named(str(value))}
            return {'r': 'exception', 'v': esc(repr(value))}
        if m in ('ask', 'to', 'parent'):
            if value is None:
                return {'r': 'none'}
            return {'r': 'thing', 'v': self.hand(outcomes, lambda v: v, call['face'], call)}
        if m in ('ask_all', 'items'):
            if not isinstance(value, (list, tuple)):
                return {'r': 'odd', 'v': esc(repr(value))}
            return {'r': 'things', 'v': [self.hand(outcomes, lambda v, i=i: v[i], call['face'], call)
                                         for i in range(len(value))]}
        if m == 'yields':
            return {'r': 'bool', 'v': value} if isinstance(value, bool) else {'r': 'odd', 'v': esc(repr(value))}
        if m == 'length':
            return {'r': 'count', 'v': value} if type(value) is int else {'r': 'odd', 'v': esc(repr(value))}
        if m in ('value', 'comment', 'key'):
            if heard == 0 and value is None:
                return {'r': 'none'}
            return {'r': 'text', 'v': self.loaded(loader, value, produced[-1:])}
        if m == 'values':
            if not isinstance(value, list):
                return {'r': 'odd', 'v': esc(repr(value))}
            left = list(produced)
            texts = []
            for v in value:
                if v is None:
                    texts.append('')
                else:
                    texts.append(self.loaded(loader, v, left[:1]))
                    left = left[1:]
            return {'r': 'texts', 'v': texts}
        if m in ('touch', 'require', 'assert'):
            return {'r': 'none'} if value is None else {'r': 'odd', 'v': esc(repr(value))}
        if m == 'build':
            if isinstance(value, enolib.ValidationError):
                return {'r': 'built', 'v': self.report(outcomes)}
            return {'r': 'odd', 'v': esc(repr(value))}
        if m == 'print':
            return {'r': 'text', 'v': esc(value)}
        if m == 'raw':
            if value is None:
                return {'r': 'none'}
            return {'r': 'dump', 'v': crashed(lambda: dump_raw(self.lanes[0][call['h'] - 1]))}
        raise ValueError(m)

    @staticmethod
    def loaded(loader, value, produced):
        if not loader:
            return opt(value)
        if not produced or value is not produced[0]:
            return '?' + esc(repr(value))
        if isinstance(value, Got):
            return '=' + esc(value.text)
        return '!' + loader


# Random histories -------------------------------------------------------------

class Player:
    """Plays random histories. Weights of the methods can be given by name."""
    METHODS = ('ask', 'ask_all', 'items', 'length', 'to', 'yields', 'value', 'values', 'comment', 'key', 'parent',
               'touch', 'require', 'assert', 'build', 'raw', 'print')

    def __init__(self, rng, nothing_else=False, absent=0.15, loaders=0.4, faces=None, recent=0.5, sweeping=False, **weights):
        self.rng = rng
        self.weights = {m: weights.get(m, 0 if nothing_else else 1) for m in self.METHODS}
        self.absent = absent
        self.loaders = loaders
        self.faces = faces or ELEMENT_FACES
        self.concrete = [f for f in self.faces if f != 'element']
        self.recent = recent
        self.sweeping = sweeping

    def possible(self, face, missing, h):
        if face in ('section',):
            found = ['ask', 'ask', 'ask', 'ask_all', 'comment', 'key', 'raw']
            found += [] if missing else ['touch', 'parent', 'require', 'assert', 'build']
        elif face == 'fieldset':
            found = ['ask', 'ask', 'ask_all', 'comment', 'key', 'raw']
            found += [] if missing else ['touch', 'parent', 'require', 'assert', 'build']
        elif face == 'list':
            found = ['items', 'values', 'comment', 'key', 'raw']
            found += [] if missing else ['touch', 'parent', 'length', 'build']
        elif face in ('field', 'item', 'entry', 'fieldset_entry'):
            found = ['value', 'value', 'comment', 'key', 'raw']
            found += [] if missing else ['touch', 'parent', 'build']
        elif face == 'empty':
            found = ['comment', 'key', 'raw'] + ([] if missing else ['touch', 'parent', 'build'])
        else:
            found = ['to', 'to', 'to', 'yields', 'comment', 'key', 'raw'] + ([] if missing else ['touch', 'build'])
        found.append('print')
        return found

    def keys_in(self, raw):
        return [part['key'] for part in raw.get('elements') or raw.get('entries') or [] if 'key' in part and part['key']]

    def step(self, history):
        rng = self.rng
        total = len(history.faces)
        h = total - min(total - 1, int(rng.expovariate(0.4))) if rng.random() < self.recent else rng.randint(1, total)
        face, missing = history.faces[h - 1], history.missing[h - 1]
        possible = self.possible(face, missing, h)
        weights = [self.weights[m] for m in possible]
        if not any(weights):
            h, face, missing = 1, 'section', False
            possible = self.possible(face, missing, h)
            weights = [self.weights[m] or 0.01 for m in possible]
        m = rng.choices(possible, weights)[0]
        arguments = {'via': rng.random() < 0.4}
        keys = [] if missing else self.keys_in(history.things()[h - 1].raw())

        def key(none=0.3):
            if rng.random() < none:
                return None
            if not keys or rng.random() < self.absent:
                other = gen.looks_like(rng, rng.choice(keys or ['k']))
                return rng.choice(['zz', 'a', 's', 'none of these', other or 'z'])
            return rng.choice(keys)

        def some_keys():
            choice = rng.random()
            if choice < 0.5:
                return None
            return [key(0) for _ in range(rng.randint(0, 2))]
        if m in ('ask', 'ask_all'):
            arguments['key'] = key(0.15 if m == 'ask' else 0.4)
            if face == 'fieldset':
                arguments['face'] = 'fieldset_entry'
            else:
                arguments['face'] = self.fitting_face(history, h, arguments['key'], missing)
                if m == 'ask_all' and arguments['face'] == 'empty':
                    arguments['face'] = 'element'
            if m == 'ask':
                arguments['mode'] = rng.choice(['plain', 'plain', 'optional', 'required'])
        elif m in ('to', 'yields'):
            arguments['face'] = rng.choice(ELEMENT_FACES[1:]) if rng.random() < 0.4 else \
                self.fitting_face(history, h, None, missing, history.things()[h - 1])
        elif m in ('value', 'values', 'comment', 'key'):
            arguments['mode'] = rng.choice(['optional', 'required'])
            if rng.random() < self.loaders and not (h == 1 and m == 'key'):
                arguments['loader'] = rng.choice([name for name in LOADERS if m != 'values' or name != 'none'])
        elif m == 'require':
            arguments['flag'] = rng.random() < 0.7
        elif m == 'assert':
            arguments['mode'] = rng.choice(['', '', 'text', 'function'])
            arguments['only'], arguments['skip'] = some_keys(), some_keys()
        elif m == 'build':
            arguments['face'] = rng.choice(['error', 'key_error', 'comment_error']
                                           + (['value_error'] * 3 if face in ('field', 'item', 'entry') else []))
            arguments['mode'] = rng.choice(['text', 'function'])
        worded = arguments.get('loader') in ('reject', 'fussy') or m in ('build', 'assert') and arguments['mode']
        if worded and rng.random() < .6:
            arguments['args'] = rng.choice(WORDINGS + ODD_ARGUMENTS) if arguments.get('loader') else rng.choice(WORDINGS)
        return history.call(h, m, **arguments)

    TYPES = {'empty_element': ('empty', 'field', 'fieldset', 'list'), 'field': ('field',), 'multiline_field_begin': ('field',),
             'list': ('list',), 'fieldset': ('fieldset',), 'section': ('section',)}

    def fitting_face(self, history, h, key, missing, element=None):
        """Most of the time a face that fits what is there."""
        rng = self.rng
        if missing or rng.random() < 0.25:
            return rng.choice(self.faces if element is None else self.concrete)
        if element is not None:
            types = [element.raw()['type']]
        else:
            types = [part['type'] for part in history.things()[h - 1].raw().get('elements', []) if key in (None, part.get('key'))]
        fitting = [f for t in types for f in self.TYPES.get(t, ()) if f in self.faces]
        if element is None and 'element' in self.faces and rng.random() < 0.15:
            return 'element'
        return rng.choice(fitting or (self.faces if element is None else self.concrete))

    def sweep(self, history):
        """Everything is fetched and read, but for a thing or two, and then asserted to be touched."""
        rng = self.rng
        spared = rng.choice([0, 0, .03, .1])    # of what could be fetched
        waiting, unread, asserted = [1], [], []

        def call(h, m, **arguments):
            before = len(history.faces)
            if not history.dead:
                history.call(h, m, **arguments)
            return range(before + 1, len(history.faces) + 1)

        def read(h, face):
            m = rng.choice(['touch', 'key', 'comment'] + ['value'] * 4 * (face in ('field', 'item', 'entry')))
            if m == 'touch':
                call(h, m)
            elif m == 'key':
                call(h, m, loader=rng.choice(['', 'wrap']))
            else:
                call(h, m, mode=rng.choice(['optional', 'required']), loader=rng.choice(['', '', 'wrap', 'fussy']))

        def fetch(h, face):
            if face == 'element':
                return call(h, 'to', face=self.fitting_face(history, h, None, False, history.things()[h - 1]))
            if face == 'section':
                some = ['element'] if rng.random() < .7 else rng.sample(['field', 'list', 'fieldset', 'section', 'element'], 5)
                return [new for part in some for new in call(h, 'ask_all', face=part)]
            if face == 'fieldset':
                return call(h, 'ask_all', face='fieldset_entry')
            if face == 'list':
                if rng.random() < .2:
                    call(h, 'values', mode=rng.choice(['optional', 'required']))
                return call(h, 'items')
            return []
        while waiting and not history.dead and len(history.calls) < 40:
            h = waiting.pop(0 if rng.random() < .5 else -1)
            face = history.faces[h - 1]
            if history.missing[h - 1]:
                continue
            if h > 1 and face != 'element':
                unread.append((h, face))
            if face in ('section', 'fieldset'):
                asserted.append(h)
            if rng.random() >= spared:
                waiting.extend(fetch(h, face))
        rng.shuffle(unread)
        left = rng.choice([0, 0, 1, 2])
        for number, (h, face) in enumerate(unread[left:]):
            if number > len(unread) - left - 4:
                call(rng.choice([1, *asserted]), 'assert', mode=rng.choice(['', 'text', 'function']))
            read(h, face)
        for h in {1, *rng.sample(asserted, len(asserted))[:2]}:
            call(h, 'assert', mode=rng.choice(['', 'text', 'function']))

    def play(self, history, steps):
        if self.sweeping:
            self.sweep(history)
            return
        for _ in range(steps):
            if history.dead:
                break
            self.step(history)


def unwritten(characters):
    """The text that is written like that."""
    return ''.join(c if len(c) == 1 else chr(int(c[1:-1], 16)) for c in characters)


def repeat(history, calls):
    """Makes calls that were made before, or that the specification came up with."""
    for call in calls:
        if history.dead or call['h'] > len(history.faces):
            break
        given = call.get('given', [bool(call['only']), bool(call['skip'])])
        history.call(call['h'], call['m'], call['face'], call['mode'],
                     unwritten(call['key'][0]) if call['key'] else None, call['loader'], call['flag'],
                     [unwritten(k) for k in call['only']] if given[0] else None,
                     [unwritten(k) for k in call['skip']] if given[1] else None, call.get('via', False),
                     ast.literal_eval(call['args']) if 'args' in call else None)
