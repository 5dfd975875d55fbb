"""What is done to decide each property.

A plan is a list of stages. A stage explores a model ('model'), lets TLC generate documents or
histories for the implementation ('lines', 'histories'), or makes jobs at random or exhaustively
('jobs'); all records of what the implementation did are judged by the specification (Conform).
"""
import itertools
import json
import random

from . import calls, gen, messages, tlc
from .observe import chars
from .work import job

PLAIN = dict(odd=0, space=0, escape=0)
SIMPLE = ['', '> c', 'a:', 'a: 1', 'b: 2', '- 3', 'c = 4', '| 5', '\\ 6', '# s', '## t', '### u', '-- m', 'x < a', '# v < s', '# v << s']
LOCALES = ['en', 'de', 'es']


class Plan:
    def __init__(self, property, tier, seed):
        self.property = property
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.want, self.options = [], {}
        self.stages = []
        PLANS[property](self)

    def rng(self, name):
        return random.Random(f'{self.property} {name} {self.seed}')

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # stages
    def model(self, module, config, written=None):
        self.stages.append(('model', config, lambda: tlc.run(module, config, written=written)))

    def jobs(self, name, make, rounds=None):
        """Jobs of which there may be several batches in the thorough tier."""
        for r in range(self.pick(1, rounds or 1)):
            full = name if r == 0 else f'{name} ({r + 1})'
            self.stages.append(('jobs', full, lambda full=full: make(self.rng(full))))

    def job(self, text, **options):
        return job(text, **dict(dict(self.options, want=self.want), **options))

    def documents(self, name, count, make, rounds=None, **options):
        def some(rng):
            texts = [make(rng, i) for i in range(count)]
            return [self.job(text, **_made(options, rng, i, text)) for i, text in enumerate(texts)]
        self.jobs(name, some, rounds)

    def exhaustive(self, name, texts, **options):
        self.jobs(name, lambda rng: [self.job(text, **_made(options, rng, i, text)) for i, text in enumerate(texts)])

    def bulk(self, quick, thorough, name='large documents', rejected=0, copied=True, most=30, parts=(), **options):
        """Documents in which something is many, long or deep."""
        self.documents(name, self.pick(quick, thorough), bulky(rejected, copied, most, parts), 3, **options)

    def huge(self, kinds=(), wrong=0, **options):
        """Documents with more than a hundred lines or with lines of thousands of characters."""
        self.documents('huge documents', len(kinds or gen.HUGE) * self.pick(1, 3), hugely(kinds or gen.HUGE, wrong), 3, **options)

    def generated_lines(self, config='MCAnalysisGen', module='MCAnalysis', **options):
        """Documents that cover all transitions of the analyzer, up to what its view tells apart."""
        def make(rng):
            result = tlc.run(module, config)
            texts = sorted({'\n'.join(''.join(line) for line in json.loads(text[len('LINES '):]))
                            for text in tlc.printed(result['output']) if text.startswith('LINES ')})
            if not texts:
                raise tlc.TlcFailure('no documents were generated')
            return [self.job(text, **_made(options, rng, i, text)) for i, text in enumerate(texts)], result
        self.stages.append(('jobs', f'generated by {config}', lambda: make(self.rng(config))))

    def generated_copies(self, *lines, quick=4000, length=(4, 5), limit=40000, **options):
        """All documents of some lines that are to be resolved, as the specification of the resolution makes them."""
        for chosen in lines:
            def make(rng, chosen=chosen):
                result = tlc.run('MCResolution', written=(
                    f'INIT Init\nNEXT GenNext\nCONSTANT Length = {self.pick(*length)}\nCONSTANT LineSet <- {chosen}\n'
                    'ACTION_CONSTRAINT EmitCopies\nCHECK_DEADLOCK FALSE\n'))
                texts = sorted({'\n'.join(''.join(line) for line in json.loads(text[len('LINES '):]))
                                for text in tlc.printed(result['output']) if text.startswith('LINES ')})
                if not texts:
                    raise tlc.TlcFailure('no documents were generated')
                most = self.pick(quick, limit)
                if len(texts) > most:
                    texts = rng.sample(texts, most)
                return [self.job(text, **_made(options, rng, i, text)) for i, text in enumerate(texts)], result
            self.stages.append(('jobs', f'documents of {chosen} generated by MCResolution', lambda make=make, chosen=chosen: make(self.rng(chosen))))

    def queries(self, methods, focus, which, quick, depth=(2, 3), thorough=40000, **options):
        """All histories of calls of some depth: checked on the specification, then played to the implementation."""
        constants = lambda d, f: (
            f'SPECIFICATION Spec\nCONSTANT Depth = {d}\nCONSTANT Which = {{{", ".join(map(str, which))}}}\n'
            f'CONSTANT Methods = {{{", ".join(json.dumps(m) for m in sorted(set(methods) | set(focus)))}}}\n'
            f'CONSTANT Focus = {{{", ".join(json.dumps(m) for m in focus)}}}\nCONSTRAINT Few\nCHECK_DEADLOCK FALSE\n')
        check = constants(self.pick(*depth), ()) + 'VIEW InvView\n' + \
            ''.join(f'INVARIANT {i}\n' for i in ('Inv', 'ResultInv', 'RequireInv')) + \
            ''.join(f'PROPERTY {p}\n' for p in ('MonotoneProp', 'PureProp', 'LocalProp'))
        self.model('MCQuery', f'MCQuery, depth {self.pick(*depth)}', check)

        def make(rng):
            result = tlc.run('MCQuery', written=constants(3, focus) + 'VIEW View\nACTION_CONSTRAINT Emit\n')
            documents = query_documents()
            found = sorted(text for text in tlc.printed(result['output']) if text.startswith('CALLS '))
            if not found:
                raise tlc.TlcFailure('no histories were generated')
            limit = self.pick(quick, thorough)
            if len(found) > limit:
                found = rng.sample(found, limit)
            made = []
            for i, text in enumerate(found):
                _, number, history = text.split(' ', 2)
                calls = json.loads(history)
                for call in calls:
                    call['via'] = rng.random() < 0.5
                text = documents[int(number) - 1]
                made.append(self.job(text, given=calls, **_made(options, rng, i, text)))
            return made, result
        self.stages.append(('jobs', 'histories generated by MCQuery', lambda: make(self.rng('MCQuery'))))


def _made(options, rng, i, text):
    return {k: v if not callable(v) else v(rng, i, text) if k == 'other' else v(rng, i) for k, v in options.items()}


def alike(rng, i=0, **profile):
    """Documents with keys that are almost the same."""
    some, others = rng.choice(gen.ALIKE), rng.choice(gen.ALIKE)
    return gen.Writer(rng, **dict(dict(PLAIN, escape=.1, copy=1, copysection=.7, section=1.5, entry=2, comment=.3, shared=.3, size=(3, 14), terminated=1, keys=some,
                                       section_keys=rng.choice([some, others])), **profile)).document()


def bulky(rejected=0, copied=True, most=30, parts=()):
    def make(rng, i=0):
        bulk = gen.Bulk(rng, most, parts)
        return bulk.rejected() if rng.random() < rejected else bulk.document(copied)
    return make


SPRAWLING = ['fields', 'section', 'items', 'entries', 'copied', 'copies', 'list', 'sections']


def hugely(kinds, wrong=0):
    return lambda rng, i: gen.huge(rng, kinds[i % len(kinds)], wrong)


def query_documents():
    """The documents of the module Documents, read from there."""
    import os
    import re
    with open(os.path.join(tlc.SPEC, 'Documents.tla')) as file:
        text = file.read()
    text = text[text.index('=='):text.rindex('>>') + 2].replace('==', '', 1)
    text = re.sub('"((?:[^"\\\\]|\\\\.)*)"', lambda m: '"' + m[1] + '"', text)
    return ['\n'.join(''.join(line) for line in document)
            for document in json.loads(re.sub(r'<<(?=(?:[^"]*"[^"]*")*[^"]*$)', '[', re.sub(r'>>(?=(?:[^"]*"[^"]*")*[^"]*$)', ']', text)))]


def small(length, lines=tuple(gen.SMALL_LINES)):
    return ['\n'.join(ls) for n in range(length + 1) for ls in itertools.product(lines, repeat=n)] if length else ['']


# Kinds of documents ---------------------------------------------------------------

def anything(rng, i=0):
    kind = rng.randrange(6)
    if kind == 0:
        return gen.Writer(rng).document()
    if kind == 1:
        return gen.Writer(rng, odd=.1, space=.3).document()
    if kind == 2:
        return sections(rng)
    if kind == 3:
        return copies(rng)
    if kind == 4:
        return gen.mutate(rng, gen.Writer(rng).document())
    return gen.Writer(rng, wild=.1).document()


def sections(rng, i=0):
    if rng.random() < 0.4:
        return gen.Writer(rng, nothing_else=True, section=3, copysection=3, field=4, empty=1, item=.5, entry=1, comment=1,
                          keys=['a', 'b', 'c'], section_keys=['s', 't', 'u', 'v'], size=(4, 14), deep=rng.choice([0, .5, 1]),
                          fresh=rng.choice([0, .3]), **PLAIN).document()
    return gen.Writer(rng, copysection=3, section=3, keys=['a', 'b'], section_keys=['s', 't', 'u'], size=(3, 12), **PLAIN).document()


def copies(rng, i=0):
    return gen.Writer(rng, copy=3, copysection=rng.choice([0, .3, 1]), keys=list('abcdefg'), size=(3, 14),
                      fresh=rng.choice([0, .3]), escape=rng.choice([0, .1])).document()


def without_copies(rng, i=0):
    return gen.Writer(rng, copy=0, copysection=0, size=(1, 16), fresh=rng.choice([0, 0, .5]),
                      space=rng.choice([0, .1, .3]), terminated=1).document()


def well_formed(rng, i=0):
    """Documents that are mostly accepted, for calls."""
    kind = rng.randrange(4)
    if kind == 0:
        return gen.Writer(rng, copy=.3, copysection=.3, size=(2, 14), terminated=1).document()
    if kind == 1:
        return gen.Writer(rng, odd=.1, space=.1, copy=.3, copysection=.3, size=(2, 14), terminated=1).document()
    if kind == 2:
        return gen.Writer(rng, copysection=1, section=2, keys=['a', 'b'], section_keys=['s', 't', 'u'], size=(3, 12), terminated=1, **PLAIN).document()
    return gen.Writer(rng, copy=2, copysection=0, escape=0, size=(3, 14), terminated=1).document()


def richly(**profile):
    def make(rng, i=0):
        return gen.Writer(rng, **dict(dict(copy=.4, copysection=.4, size=(3, 14), terminated=1), **profile)).document()
    return make


def nested(rng, i=0):
    return gen.Writer(rng, section=3, copysection=.7, empty=1, field=2, item=1, entry=2, copy=.5, multiline=.3, keys=['a', 'b'],
                      section_keys=['s', 't', 'u'], size=(4, 14), terminated=1, **PLAIN).document()


# The plans ------------------------------------------------------------------------

def runs(length):
    """Lines with long runs of characters, that are one way or another no line after all."""
    pieces = gen.OPERATORS + ['\t']
    for unit in [*pieces, *map(''.join, itertools.product(pieces, repeat=2))]:
        for before, after in (('', ''), ('', 'a'), ('', '`'), ('# ', ':'), ('`', 'a'), ('a', ' ='), ('--', 'a\n' + '-' * length + 'a')):
            if len(set(unit)) == len(unit):
                yield before + unit * (length // len(unit)) + after


def c01(p):
    p.want = ['relations']
    p.options = dict(relations=['combinations'])
    p.model('MCAnalysis', p.pick('MCAnalysis', 'MCAnalysisDeep'))
    p.model('MCResolution', 'MCTermination')
    p.documents('random characters', p.pick(2500, 12000), lambda rng, i: gen.soup(rng, 4, 9), 3)
    p.documents('random unusual characters', p.pick(1500, 10000), lambda rng, i: gen.soup(
        rng, 4, 8, gen.OPERATORS * 2 + gen.SPACES + gen.ODD_SPACES + gen.ODD_CHARACTERS + ['\x00', '\x85', '\u2028', '\ufeff', '\ud800', '\x0c', '\x1c']), 3,
        source=lambda rng, i: rng.choice([None, None, 'source.eno']))
    p.documents('damaged documents', p.pick(3500, 12000), anything, 6)
    p.exhaustive('all documents of some lines', small(p.pick(2, 3), SIMPLE + ['!', '`a', '-']))
    p.documents('copies that lead into each other', p.pick(1200, 6000), loops, 3)
    p.exhaustive('all documents that merge sections', merged(p.pick(4, 5)))
    p.exhaustive('long runs of characters', runs(40))
    p.generated_lines()
    p.bulk(60, 600, rejected=.5)
    p.huge(wrong=.5)


def odd_line(rng, i=0):
    line = gen.Writer(rng, odd=.3, space=.5, escape=.4, copy=1, copysection=1, deep=.5, sound=0, wild=1, size=(1, 1), multiline=0,
                      keys=['a', 'b-', 'c#', '-d', '`e', 'f:g', '<h', 'i j', '#', '>', '|', '\\k', '``', 'l`m', '=', ':', '<<'],
                      section_keys=['a', 'b<', '`c', '<d', ':', '= e', '>', '#f', '-', 'g h', '``', 'i`j', '<<'])
    text = '\n'.join(t for t in line.document().split('\n') if t)
    if rng.random() < .5:
        text = gen.mutate(rng, text).replace('\n', '')
    return text


def loops(rng, i=0):
    """Copies that lead to each other: chains that end in cycles or in an element, in any order and anywhere."""
    count = rng.choice([1, 2, 3, 4, 5, 6, 8])
    sectional = rng.choice([0, 0, 1, 1, .5])
    end = rng.choice([0, 1, 1, 2])
    blocks = []
    for n in range(count):
        later = [m for m in range(count) if m == n + 1] or [rng.randrange(count)]
        target = later[0] if rng.random() < .8 else rng.randrange(count)
        if n == count - 1 and end == 0:
            blocks.append((n, None))
        else:
            blocks.append((n, target))
    rng.shuffle(blocks)
    out, depth, kind = [], 0, {n: rng.random() < sectional for n in range(count)}
    if end != 2:    # all of the same kind
        kind = {n: sectional > 0 for n in range(count)}
    for n, target in blocks:
        if kind[n]:
            depth = rng.randint(1, min(depth + 1, 3)) if rng.random() < .5 else 1
            out.append('#' * depth + f' k{n}' + ('' if target is None else f' {rng.choice(["<", "<", "<<"])} k{target}'))
            if rng.random() < .2:
                out.append('x: 1')
        else:
            out.append(f'k{n}:' if target is None else f'k{n} < k{target}')
            if rng.random() < .2:
                out.append(rng.choice(['- 1', 'e = 1', '', '> c']))
    return '\n'.join(out)


def c02(p):
    p.want = ['accept', 'tree', 'values', 'comments', 'text']
    p.model('MCGrammar', p.pick('MCGrammar', 'MCGrammarDeep'))
    p.exhaustive('every line alone', gen.all_lines(3))
    p.exhaustive('every line between others', (f'k:\n{line}\nz:' for line in gen.all_lines(p.pick(4, 4))))
    p.exhaustive('every line of dashes and another', (f'--{line}\nx\n--{other}' for line in gen.all_lines(2) for other in gen.all_lines(2)
                                                      if line.strip() in other or other.strip() in line))
    if p.thorough:
        letters = gen.OPERATORS
        for first in letters:
            p.exhaustive(f'every line that begins with {first!r}', (f'k:\n{first}{line}\nz:' for line in gen.all_lines(4) if len(line) == 4))
    p.documents('unusual lines between others', p.pick(3000, 12000), lambda rng, i: f'k:\n{odd_line(rng)}\nz:', 5)
    p.documents('unusual lines after each other', p.pick(2000, 10000), lambda rng, i: '\n'.join(odd_line(rng) for _ in range(rng.randint(1, 4))), 5)
    p.documents('characters after each other', p.pick(2000, 10000), lambda rng, i: gen.soup(
        rng, 2, 8, gen.OPERATORS + ['`', '<', ' ', ' ', '\t', '\r', '\xa0', 'a', 'b', ':']), 5)
    p.bulk(120, 1500, rejected=.3, copied=False)
    p.huge(['value', 'pieces', 'line', 'note', 'key'])
    p.documents('unusual keys', p.pick(700, 6000), lambda rng, i: alike(rng, copy=0, copysection=0, escape=.4, space=.2), 3)


def c03(p):
    p.want = ['tree', 'api', 'values']
    p.model('MCAnalysis', p.pick('MCAnalysis', 'MCAnalysisDeep'))
    p.generated_lines()
    lines = ['', '> c', 'a:', 'a: 1', '- 2', 'b = 3', '| 4', '# s', '## t', '### u', '-- m']
    p.exhaustive('all documents of some lines', small(3, lines) if not p.thorough else small(4, lines))
    p.documents('random documents', p.pick(5000, 15000), without_copies, 6)
    p.documents('nested sections', p.pick(1500, 10000), lambda rng, i: gen.Writer(
        rng, nothing_else=True, section=5, field=2, empty=1, item=1, entry=1, blank=1, multiline=.5, direct=.5, depth=7, size=(5, 25), fresh=.5, terminated=1, **PLAIN).document(), 4)
    p.documents('documents with copies', p.pick(1000, 10000), lambda rng, i: anything(rng), 2)
    p.bulk(120, 1500)
    p.huge()


def c04(p):
    p.want = ['accept', 'text']
    p.model('MCAnalysis', p.pick('MCAnalysis', 'MCAnalysisDeep'))
    p.generated_lines()
    p.exhaustive('all documents of some lines', small(3, SIMPLE))
    p.documents('documents with misplaced lines', p.pick(4000, 15000), lambda rng, i: gen.Writer(
        rng, wild=rng.choice([.1, .3]), copy=.3, copysection=.3, section=2, terminated=rng.choice([.5, 1]), size=(2, 14)).document(), 6)
    p.documents('damaged documents', p.pick(2500, 10000), lambda rng, i: gen.mutate(rng, without_copies(rng)), 5)
    p.documents('random characters', p.pick(2500, 10000), lambda rng, i: gen.soup(rng, 4, 7), 4)
    p.bulk(120, 1500, rejected=.8)
    p.huge(wrong=.8)


def c05(p):
    p.want = ['tree', 'api', 'values']
    p.model('MCAnalysis', p.pick('MCContinuations', 'MCContinuationsDeep'))
    pieces = ['|', '| a', '\\', '\\ b', '', '> c']
    depth = p.pick(3, 5)
    p.exhaustive('all continuations', ('\n'.join([*start, *more]) for start in (['k: v'], ['k:'], ['k:', '- v'], ['k:', '-'], ['k:', 'e = v'], ['k:', 'e ='])
                                       for n in range(depth + 1) for more in itertools.product(pieces, repeat=n)))
    if not p.thorough:
        p.exhaustive('all longer continuations', ('\n'.join([start, *more]) for start in ('k: v', 'k:')
                                                  for more in itertools.product(pieces[:4], repeat=5)))
    p.documents('random documents', p.pick(4000, 15000), lambda rng, i: gen.Writer(
        rng, direct=4, spaced=4, item=2, entry=2, comment=.7, copy=.5, copysection=.2, valueless=rng.choice([.15, .5]), space=rng.choice([.1, .4]),
        odd=rng.choice([0, .1]), terminated=1, size=(2, 14)).document(), 6)
    p.bulk(120, 1500, parts=['continuations', 'items', 'entries'])
    p.huge(['continuations', 'items', 'entries', 'value', 'pieces'])


def multilines(rng, i=0):
    return gen.Writer(rng, multiline=5, space=rng.choice([0, .1, .4]), odd=rng.choice([0, .1]), copy=.3, copysection=.2, escape=rng.choice([0, .2]),
                      terminated=rng.choice([.8, 1]), size=(1, 9), keys=['m', 'm', 'n', 'k l', 'o-', '> p', '# q', 'r:', '`s`', 't = u']).document()


def blocks(rng, i=0):
    """One multiline field with something that is similar to its end within."""
    dashes = '-' * rng.choice([2, 2, 3, 5])
    key = rng.choice(['m', 'm', 'a b', '`m`', 'm:', '> m', 'm -- m', '#', 'é'])
    near = [dashes, key, '', ' ', f'{dashes} {key.swapcase() if key.swapcase() != key else key + "."}', f'-{dashes} {key}', f'{dashes}-{key}', f'{dashes}{key}x', f'{dashes[1:]}{key}', f'{dashes} {dashes}{key}', f'{key}{dashes}',
            f'- {key}', f'{dashes} {key} {key}', f'> {dashes} {key}', f'`{dashes}{key}`', f'{key}: {dashes} {key}', f'{dashes}{key.upper()}{key}',
            '\t', '  x ', 'x\t', '\\', '| y', '# s', 'k: v', '- i', '`', '', '\r', '\x0b', '\xa0', '{a}', '-', '--', '-- ', '---']
    gap = lambda: rng.choice(['', '', ' ', '\t', '  ', '\xa0'])
    body = [rng.choice(near) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    after = rng.choice([[], [], ['x: 1'], ['', '> c', 'x:'], ['- i'], ['| a']])
    before = rng.choice([[], [], ['', '> c'], ['l:', '- 1'], ['# s']])
    return '\n'.join(before + [gap() + dashes + gap() + key + gap()] + body + [gap() + dashes + gap() + key + gap()] + after)


def c06(p):
    p.want = ['accept', 'tree', 'api', 'values']
    p.model('MCGrammar', 'MCGrammar')
    p.model('MCAnalysis', p.pick('MCMultilines', 'MCMultilinesDeep'))
    inner = ['', ' ', 'x', '-', '--', '-- m', '--m ', '--- m', '- m', '-- mm', '-- m m', '> c', 'k:']
    p.exhaustive('all bodies', ('\n'.join(['-- m', *body, '-- m']) for n in range(p.pick(3, 4)) for body in itertools.product(inner, repeat=n)))
    p.documents('random bodies', p.pick(5000, 15000), blocks, 6)
    p.documents('random documents', p.pick(3000, 12000), multilines, 5)
    p.exhaustive('one after another', ('\n'.join([f'{one} m', body, f'{one} m', f'{two} m', body, f'{two} m', f'{one} {key}', body, f'{one} {key}'])
                                       for one in ('--', '---', '----') for two in ('--', '---', '----') for key in ('m', 'M', 'm.', '-m')
                                       for body in ('-- M', '--- m' if one != '---' != two else '-', '-- mm', '-- x')))
    p.exhaustive('keys that look alike', similar_ends(p.thorough))
    p.exhaustive('every line as body', (f'--m\n{line}\n--m' for line in gen.all_lines(p.pick(3, 4))))
    p.bulk(120, 1500, parts=['fence', 'wide'])
    p.huge(['body', 'line', 'body', 'line'])


def similar_ends(thorough=False):
    """Multiline fields with all kinds of keys, in which there are lines that are almost their end."""
    keys = ['a b', 'a  b', 'a\tb', 'a\u00a0b', 'a b c', 'ab', 'a', 'b', 'A b', 'a.b', 'a*', '(a', '[ab]', 'a+b', 'a\\b', '$a^', 'a|b', 'a{2}', 'aa', '-a', '- a', 'a -', '#a', '> a', '`a`', '`a', ':', '=', '\\s', 'a\\', '?',
            'Å', 'A\u030a', '\u212b', 'ß', 'ss', 'I', 'i', 'İ', '\U0001f600', "a'b", '"a"', '%s', '{}', '0', '00', 'a\rb', 'a\u2028b', 'a\x0bb']
    for key in keys:
        for other in [*keys, key + ' ' + key, key + key, key[:-1] + ' ' + key[-1], key + ':', key.upper(), key.lower(), key + '.', '\u200b' + key]:
            for one, two in (('--', '--'), ('---', '---'), ('--', '---')) if thorough else (('--', '--'),):
                yield f'{one} {key}\nx\n{two} {other}\ny\n{one} {key}\nz:'


def commented(rng, i=0):
    return gen.Writer(rng, comment=6, blank=1.2, direct=.5, spaced=.5, space=rng.choice([.1, .4, .7]), odd=rng.choice([0, .1]), valueless=rng.choice([.1, .4]),
                      copy=.5, copysection=.5, terminated=1, size=(2, 14)).document()


def c07(p):
    p.want = ['tree', 'api', 'comments']
    p.model('MCAnalysis', p.pick('MCComments', 'MCCommentsDeep'))
    comments = ['>', '> a', '>  b', '  > c', '>d', '\t> e', '> \tf', ' >  ']
    things = [['k:'], ['# s'], ['k:', '- i'], ['k:', 'e = v'], ['-- m', '-- m'], ['k: v'], ['k < l', 'l:']]
    p.exhaustive('all comments', ('\n'.join([*block, *thing]) for n in range(1, p.pick(4, 5)) for block in itertools.product(comments, repeat=n)
                                  for thing in (things if n < 3 else things[:1])))
    lines = ['> c', '', 'k:', '- i', 'e = v', '| d', '# s', 'k: v']
    p.exhaustive('all places', small(p.pick(4, 5), lines))
    p.documents('random documents', p.pick(3000, 15000), commented, 6)
    p.bulk(120, 1500, parts=['comment', 'items', 'entries', 'blanks'])
    p.huge(['comment', 'note', 'blanks'])


def overriding(rng, thorough=False):
    """Three elements that are copies of each other, with any content of their own, in any order."""
    entries = [[], ['x'], ['y'], ['x', 'y'], ['y', 'x'], ['x', 'x']]
    kinds = {
        'fieldset': lambda name, own: [f'{key} = {name}{n}' for n, key in enumerate(own)],
        'list': lambda name, own: [f'- {name}{n}' for n, key in enumerate(own)],
    }
    for kind, write in kinds.items():
        owns = entries if kind == 'fieldset' else [[], ['x'], ['x', 'y']]
        for own in itertools.product(owns, repeat=3):
            for second in ('k1 < k0', 'k1:'):
                for third in ('k2 < k1', 'k2 < k0'):
                    if second == 'k1:' and third == 'k2 < k0':
                        continue
                    blocks = [[line] + write(name, o) for line, name, o in zip(('k0:', second, third), 'abc', own)]
                    for order in list(itertools.permutations(blocks)) if thorough else rng.sample(list(itertools.permutations(blocks)), 2):
                        yield '\n'.join(line for block in order for line in [*(['> c'] if rng.random() < .1 else []), *block])


def overriding_sections(rng, thorough=False):
    """The same for sections."""
    bodies = [lambda n: [], lambda n: [f'x: {n}'], lambda n: ['x:', f'- {n}'], lambda n: ['## y', f'x: {n}'], lambda n: ['## y', '### y', f'z: {n}'],
              lambda n: ['## x'], lambda n: [f'y: {n}', '## x', f'{n}: 1'], lambda n: ['x:', f'y = {n}']]
    for own in itertools.product(bodies, repeat=3):
        for one, two in itertools.product(('<', '<<'), repeat=2):
            blocks = [[line] + body(name) for line, name, body in zip(('# s0', f'# s1 {one} s0', f'# s2 {two} s1'), 'abc', own)]
            for order in list(itertools.permutations(blocks)) if thorough else rng.sample(list(itertools.permutations(blocks)), 1):
                yield '\n'.join(line for block in order for line in block)


def merging(thorough=False):
    """Deep copies of sections whose subsections have the same keys, once or more often, as other elements do."""
    parts = lambda n: [['## c', f'x: {n}'], ['## c', f'y: {n}'], ['## c'], [f'c: {n}'], ['## d', f'x: {n}'], ['c:', f'- {n}']]
    bodies = lambda n, most: [[line for part in body for line in part] for length in range(most + 1) for body in itertools.product(parts(n), repeat=length)
                              if all(part[0][0] == '#' or i == 0 or body[i - 1][0][0] != '#' for i, part in enumerate(body))]
    for one in bodies('1', 3):
        for two in bodies('2', 3 if thorough else 2):
            yield '\n'.join(['# s', *one, '# t << s', *two])
            if thorough or len(one) + len(two) < 6:
                yield '\n'.join(['# u << t', '## c', 'z: 3', '# t << s', *two, '# s', *one])


def c08(p):
    p.want = ['accept', 'tree', 'api', 'values', 'comments']
    p.model('MCResolution', p.pick('MCCopies', 'MCCopiesDeep'))
    lines = ['a: 1', 'a:', 'b:', '- 2', 'c = 3', 'a < b', 'b < a', 'c < a', '| 4', '# s', '-- c', '> d']
    p.exhaustive('all documents of some lines', small(p.pick(3, 4), lines))
    p.documents('random documents', p.pick(6000, 15000), copies, 6)
    p.documents('lists and fieldsets', p.pick(3000, 12000), lambda rng, i: gen.Writer(
        rng, nothing_else=True, empty=2, item=3, entry=4, copy=3, comment=1, direct=.5, field=.5, multiline=.3, blank=.3, section=.3, copysection=.1,
        keys=['a', 'b', 'c', 'd', 'e'], fresh=.3, sound=.97, size=(5, 20), terminated=1, **PLAIN).document(), 5)
    p.documents('chains', p.pick(1500, 8000), chains, 4)
    p.jobs('all overriding', lambda rng: [p.job(text) for text in overriding(rng, p.thorough)])
    p.generated_copies('CopyLines')
    p.bulk(200, 1500)
    p.huge(['copied', 'copies', 'list', 'key'])
    p.documents('keys that look alike', p.pick(1200, 8000), lambda rng, i: alike(rng, copy=4, copysection=0), 3)


def chains(rng, i=0):
    """Copies of copies in any order, with content of their own here and there."""
    count = rng.randint(2, 6)
    names = [f'k{n}' for n in range(count)]
    kind = rng.choice(['field', 'list', 'fieldset', 'multiline', 'empty'])
    blocks = []
    for n, name in enumerate(names):
        block = [f'> about {name}'] if rng.random() < .4 else []
        if n:
            block.append(f'{name} < {rng.choice(names[:n][-2:])}')
        elif kind == 'multiline':
            block += [f'-- {name}', 'text', f'-- {name}']
        else:
            block.append(f'{name}:' + (' value' if kind == 'field' else ''))
        if n == 0 or rng.random() < .5:
            for m in range(rng.randint(0, 3)):
                if kind == 'list':
                    block += ['> item'] * (rng.random() < .2) + [f'- {name} {m}']
                elif kind == 'fieldset':
                    block += ['> entry'] * (rng.random() < .2) + [f'{rng.choice("xyz")} = {name} {m}']
                elif kind == 'field' and n == 0:
                    block.append(rng.choice(['| ', '\\ ']) + str(m))
        blocks.append(block)
    rng.shuffle(blocks)
    if rng.random() < .3:
        at = rng.randint(0, len(blocks))
        blocks.insert(at, ['# s'])
    return '\n'.join(line for block in blocks for line in block)


def deep_chains(rng, i=0):
    """Deep and shallow copies of nested sections, the nested ones being copies or templates here and there."""
    count = rng.randint(2, 4)
    blocks = []
    inner = rng.choice([0, .15, .4, .4])
    names = [f's{n}' for n in range(count)]

    def body(depth, name):
        out = []
        for _ in range(rng.randint(0, 2)):
            out.append(rng.choice([f'{rng.choice("ab")}: {name}', 'c:', f'd < {rng.choice("ab")}' if rng.random() < .1 else 'e: 5']))
        if depth < 4:
            for _ in range(rng.choice([0, 1, 1, 2])):
                key = rng.choice(['p', 'q', 'r'])
                if rng.random() < inner / 2:
                    key = f'n{len(names)}'
                    names.append(key)
                line = '#' * depth + ' ' + key
                if rng.random() < inner:
                    line += rng.choice([' < ', ' << ', ' << ']) + rng.choice(names if rng.random() < .8 else [key])
                out += ['> sub'] * (rng.random() < .1) + [line] + body(depth + 1, name + '.')
        return out
    for n in range(count):
        line = f'# s{n}'
        if n and rng.random() < .85:
            line += rng.choice([' < ', ' << ', ' << ']) + f's{rng.randrange(max(0, n - 2), n)}'
        blocks.append([line] + body(2, f'{n}'))
    rng.shuffle(blocks)
    return '\n'.join(line for block in blocks for line in block)


def merged(depth, lines=('# a << b', '# b', '# b << a', '## c', '## c < c', '## c << a', '### c < c', '## d < c', 'x: 1')):
    """All documents of some lines in which sections may be copied by way of merging their subsections."""
    def grown(document, level):
        yield '\n'.join(document)
        if len(document) < depth:
            for line in lines:
                hashes = len(line) - len(line.lstrip('#'))
                if hashes <= level + 1 and document.count(line) < (2 if hashes > 1 else 1) and document[-1:] != [line]:
                    yield from grown([*document, line], hashes or level)
    for first in ('# a << b', '# b', '# b << a'):
        yield from grown([first], 1)


def c09(p):
    p.want = ['accept', 'tree', 'api', 'values', 'comments']
    p.model('MCResolution', p.pick('MCSections', 'MCSectionsDeep'))
    p.model('MCResolution', 'MCDeepSections' if not p.thorough else 'MCDeepSectionsDeep')
    lines = ['# s', '# t < s', '# t << s', '# u << t', '## s', '## v', 'a: 1', 'a: 2', 'b:']
    p.exhaustive('all documents of some lines', small(p.pick(3, 5), lines))
    p.documents('random documents', p.pick(5000, 15000), sections, 6)
    p.documents('nested sections', p.pick(4000, 12000), deep_chains, 6)
    p.jobs('all overriding', lambda rng: [p.job(text) for text in overriding_sections(rng, p.thorough)])
    p.exhaustive('all merging', merging(p.thorough))
    p.generated_copies('SectionLines', 'DeepLines', quick=2500)
    p.exhaustive('all documents that merge sections', merged(p.pick(5, 6)))
    p.bulk(200, 1500, parts=['chain', 'subsections', 'subsections', 'headings'])
    p.huge(['copied', 'far', 'copied', 'far'])
    p.documents('keys that look alike', p.pick(1000, 8000), lambda rng, i: alike(rng, copysection=3, copy=0, section=3, deep=.7), 3)


def c10(p):
    p.want = ['accept', 'text']
    p.model('MCResolution', p.pick('MCCopies', 'MCCopiesDeep'))
    p.model('MCResolution', p.pick('MCSections', 'MCSectionsDeep'))
    p.model('MCResolution', 'MCTermination')
    lines = ['a: 1', 'b:', '- 2', 'c = 3', 'a < b', 'b < a', 'c < c', '# s', '# a < s', '# s << a', '## a', '## s < t']
    p.exhaustive('all documents of some lines', small(p.pick(3, 4), lines))
    unsound = lambda **more: lambda rng, i: gen.Writer(rng, **dict(dict(
        copy=2, copysection=2, section=2, sound=rng.choice([0, .5, .9]), keys=rng.choice([list('ab'), list('abcde')]), section_keys=rng.choice([list('st'), list('stuv')]),
        size=(2, 12), shared=.2, terminated=1, **PLAIN), **more)).document()
    p.exhaustive('all documents that merge sections', merged(p.pick(5, 6)))
    p.documents('copies of anything', p.pick(5000, 15000), unsound(), 6)
    p.documents('nested sections', p.pick(2000, 10000), deep_chains, 5)
    p.documents('deep copies', p.pick(3000, 12000), unsound(copy=.3, copysection=4, section=4, deep=.8), 5)
    p.documents('items and entries of copies', p.pick(1500, 10000), lambda rng, i: gen.Writer(
        rng, copy=3, item=3, entry=3, field=2, copysection=.3, section=.3, wild=.2, sound=.9, keys=list('abcde'), fresh=.3, size=(3, 12), **PLAIN).document(), 4)
    p.documents('copies that lead into each other', p.pick(1500, 8000), loops, 4)
    p.generated_copies('CopyLines', 'SectionLines', 'CycleLines', quick=1500, limit=15000)
    p.documents('escaped and unusual keys', p.pick(1000, 6000), lambda rng, i: gen.Writer(rng, copy=3, copysection=3, section=2, sound=.5, odd=.2, escape=.3, space=.3).document(), 3)
    p.bulk(200, 1500, rejected=.4, parts=['chain', 'chain', 'subsections', 'items', 'entries', 'siblings'])
    p.huge(['copied', 'copies', 'list', 'far', 'fields', 'same', 'key'], wrong=.4)
    p.documents('keys that look alike', p.pick(1200, 8000), lambda rng, i: alike(rng, copysection=2, copy=3, sound=rng.choice([0, .5])), 3)


def histories(p, name, count, make, steps, rounds=6, player=None, **options):
    p.documents(name, count, make, rounds, steps=steps, player=player or {}, seed=lambda rng, i: rng.randrange(1 << 30), **options)


QUERIES = ['ask', 'ask_all', 'items', 'to']


def c11(p):
    p.want = ['results', 'text']
    p.options = dict(focus=['ask', 'ask_all', 'items', 'length', 'value', 'values'])
    p.queries(QUERIES + ['value'], ['ask', 'ask_all', 'items', 'length', 'values'], [1, 2, 3, 4, 5], 3000)
    histories(p, 'random histories', p.pick(1500, 4000), well_formed, 25,
              player=dict(nothing_else=True, ask=6, ask_all=4, items=2, length=1, to=1, values=1, value=1, touch=.2, loaders=0, absent=.1))
    histories(p, 'sections with few keys', p.pick(800, 3000), nested, 25,
              player=dict(nothing_else=True, ask=6, ask_all=3, items=1, length=1, to=1, value=.5, values=.5, loaders=0, absent=.15))
    questions(p)
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(nothing_else=True, ask=6, ask_all=4, items=3, length=2, to=1, values=2, value=1, loaders=0, absent=.1, recent=.6))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(nothing_else=True, ask=6, ask_all=4, items=3, length=2, to=1, values=2, value=1, loaders=0, absent=.1, recent=.6))
    histories(p, 'keys that look alike', p.pick(800, 3000), alike, 30, player=dict(nothing_else=True, ask=6, ask_all=4, items=1, length=.3, to=1, values=.3, value=.5, loaders=0, absent=.4, recent=.5))


def c12(p):
    p.want = ['results', 'text', 'sel', 'heard', 'comments', 'values']
    p.options = dict(scope='missing')
    p.queries(QUERIES, ['ask', 'ask_all', 'items', 'value', 'values', 'comment', 'key', 'raw', 'to', 'yields'], [1, 2, 4], 3000)
    histories(p, 'random histories', p.pick(1500, 4000), well_formed, 30,
              player=dict(ask=5, absent=.7, recent=.75, build=0, require=.1, touch=.1, parent=.1))
    histories(p, 'sections and fieldsets', p.pick(1000, 3000), nested, 30,
              player=dict(ask=6, absent=.6, faces=['section', 'fieldset', 'element', 'section', 'list'], recent=.6, build=0, touch=.1, require=.2, parent=.1))
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(ask=6, absent=.7, recent=.95, build=0, require=.1, touch=.1, parent=.1))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(ask=6, absent=.7, recent=.95, build=0, require=.1, touch=.1, parent=.1))
    histories(p, 'keys that look alike', p.pick(400, 3000), alike, 30, player=dict(ask=6, absent=.6, recent=.8, build=0, require=.1, touch=.1, parent=.1))


def c13(p):
    p.want = ['results', 'text', 'sel']
    p.options = dict(focus=['assert', 'touch'])
    p.queries(['ask', 'to', 'items', 'touch', 'value'], ['assert'], [1, 2, 3, 4, 5], 3000)
    reading = dict(nothing_else=True, ask=4, ask_all=1, items=1.5, to=2, value=2, values=.5, comment=.3, key=.3, touch=1, loaders=.2, absent=.05)
    histories(p, 'random histories', p.pick(1500, 4000), well_formed, 30, player=dict(reading, **{'assert': 4}))
    histories(p, 'nested sections', p.pick(1000, 3000), nested, 35, player=dict(reading, recent=.7, **{'assert': 3}))
    histories(p, 'copies', p.pick(700, 3000), lambda rng, i: rng.choice([sections, chains, deep_chains])(rng), 35, player=dict(reading, recent=.5, **{'assert': 3}))
    histories(p, 'small documents', p.pick(1000, 4000), richly(size=(1, 5)), 20, player=dict(reading, recent=.5, **{'assert': 4}))
    histories(p, 'everything but a thing or two', p.pick(2000, 5000), lambda rng, i: [
        well_formed, nested, chains, sections, deep_chains, richly(copy=3, empty=2, item=3, entry=3, size=(2, 9), sound=1, **PLAIN), chains][i % 7](rng), 1, player=dict(sweeping=True))
    histories(p, 'everything but a thing or two in large documents', p.pick(200, 1500), bulky(most=10), 1, player=dict(sweeping=True))
    histories(p, 'everything but a thing or two in huge documents', p.pick(8, 40), hugely(SPRAWLING), 1, player=dict(sweeping=True))
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(reading, recent=.5, **{'assert': 3}))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(reading, recent=.5, **{'assert': 3}))
    histories(p, 'keys that look alike', p.pick(500, 3000), alike, 30, player=dict(reading, recent=.5, **{'assert': 4}))


def c14(p):
    p.want = ['results']
    p.options = dict(focus=['ask', 'ask_all', 'to', 'yields', 'items', 'parent'])
    p.queries(QUERIES, ['ask', 'ask_all', 'to', 'yields', 'items'], [1, 2, 3, 4], 3000)
    committing = dict(nothing_else=True, ask=5, ask_all=3, items=2, to=6, yields=3, value=1, parent=1, absent=.02)
    histories(p, 'random histories', p.pick(1500, 4000), well_formed, 30, player=dict(committing, recent=.3))
    histories(p, 'empty elements', p.pick(1500, 4000), richly(empty=5, valueless=.5, size=(1, 7), **PLAIN), 30, player=dict(committing, recent=.2))
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(committing, recent=.4))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(committing, recent=.4))
    histories(p, 'keys that look alike', p.pick(300, 3000), alike, 30, player=dict(committing, recent=.4))


def c15(p):
    p.want = ['results', 'heard', 'text', 'sel', 'values']
    p.options = dict(focus=['value', 'values', 'comment', 'key'])
    p.queries(QUERIES, ['value', 'values', 'comment', 'key'], [2, 4, 5], 3000)
    loading = dict(nothing_else=True, ask=2.5, ask_all=1, items=1.5, to=1, value=5, values=3, comment=3, key=3, loaders=.85, recent=.6)
    histories(p, 'random histories', p.pick(1500, 4000), well_formed, 30, player=dict(loading, absent=.1))
    histories(p, 'comments and continuations', p.pick(1000, 3000), richly(comment=3, direct=2, spaced=2, item=2, valueless=.3, space=.3, odd=.1), 30, player=dict(loading, absent=.2))
    histories(p, 'lists', p.pick(700, 3000), richly(nothing_else=True, empty=2, item=8, copy=.5, comment=1, direct=1, spaced=1, valueless=.3, odd=0, size=(3, 14)), 25,
              player=dict(loading, values=8, absent=.03, faces=['list', 'list', 'element']))
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(loading, absent=.05))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(loading, absent=.05))


ERRING = dict(ask=4, absent=.3, build=3, ask_all=2, to=2, **{'assert': 2})


def parse_errors(rng, i=0):
    kind = rng.randrange(5)
    if kind == 0:
        return gen.Writer(rng, wild=.15, terminated=.7, odd=.1, space=.2, section=2, size=(2, 14)).document()
    if kind == 1:
        return gen.mutate(rng, gen.Writer(rng, odd=.1).document())
    if kind == 2:
        return gen.Writer(rng, copy=2, copysection=2, section=2, sound=rng.choice([0, .5]), keys=list('abc'), section_keys=list('stu'), size=(3, 14)).document()
    if kind == 3:
        return gen.Writer(rng, copysection=4, section=3, sound=rng.choice([0, .5, .9]), section_keys=list('stu'), size=(3, 12), deep=.8, **PLAIN).document()
    return gen.soup(rng, 5, 8)


def worded_errors(rng, i=0):
    """Documents that are rejected, and whose keys read like messages."""
    few = [messages.key(rng, LOCALES[i % 3]) for _ in range(5)]
    return gen.Writer(rng, copy=2, copysection=1, section=1, multiline=1, sound=rng.choice([0, .5]), keys=few[:3], section_keys=few[3:],
                      terminated=.7, wild=rng.choice([0, .1]), size=(2, 10), **PLAIN).document()


def reports(p, reporters=False):
    """What the properties about errors have in common."""
    p.model('MCAnalysis', p.pick('MCAnalysis', 'MCAnalysisDeep'))
    p.model('MCResolution', p.pick('MCCopies', 'MCCopiesDeep'))
    source = dict(source=lambda rng, i: [None, None, 'source.eno', '/some/where', '<b>&amp;"s\'.eno', 'a b\t{0} %s'][i % 6]) if reporters else {}
    p.documents('rejected documents', p.pick(4000, 12000), parse_errors, 6, **source)
    p.generated_lines(**source)
    p.documents('padded documents', p.pick(1500, 6000), padded, 4, **source)
    p.documents('copies that lead into each other', p.pick(500, 4000), loops, 3, **source)
    p.documents('refused conversions', p.pick(500, 3000), well_formed, 3, want=p.want + ['conversions'], **source)
    histories(p, 'random histories', p.pick(900, 3000), well_formed, 25, player=dict(ERRING), **source)
    histories(p, 'comments and continuations', p.pick(600, 2500), richly(comment=3, direct=2, spaced=2, blank=2, valueless=.3, space=.3, odd=.1, multiline=2), 25, player=dict(ERRING), **source)
    histories(p, 'errors of loaders', p.pick(500, 2500), richly(item=3, entry=3, comment=1, blank=1, valueless=.3), 25,
              player=dict(nothing_else=True, ask=3, ask_all=1, items=1.5, to=1, value=4, values=3, comment=3, key=2, loaders=.7, absent=.1), **source)
    histories(p, 'nested sections', p.pick(400, 2500), nested, 25, player=dict(ERRING), **source)
    p.bulk(150, 1200, rejected=.8, **source)
    p.huge(wrong=.8, **source)
    histories(p, 'errors in large documents', p.pick(100, 1200), bulky(most=14), 30, player=dict(ERRING, recent=.5), **source)
    histories(p, 'errors in huge documents', p.pick(26, 78), hugely(SPRAWLING + ['section', 'sections', 'body', 'comment', 'continuations']), 8,
              player=dict(nothing_else=True, ask=4, absent=.2, build=6, value=2, comment=1, recent=.5, **{'assert': 1}), **source)


def padded(rng, i=0):
    """Rejected for something far from other things that are part of the report."""
    filler = lambda: [rng.choice(['', '', '> c', 'x: 1', ' y:']) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 11]))]
    cases = [
        [['a: 1'], ['b: 2'], ['c < a'], ['a: 3']],
        [['# a'], ['# b'], ['# a'], ['# c < a']],
        [['a < b'], ['b < c'], ['c < a']],
        [['# a < b'], ['# b < a']],
        [['# a << b'], ['# b'], ['## a < b']],
        [['a: 1'], ['- 2']],
        [['a: 1'], ['b = 2']],
        [['l:'], ['- 1'], ['e = 2']],
        [['f:'], ['e = 1'], ['- 2']],
        [['-- m'], ['x']],
        [['# a'], ['### b']],
        [['| a']],
        [['- i']],
        [['e = 1']],
        [['`a']],
        [['!']],
        [['a < none']],
        [['# a < none']],
        [['a: 1'], ['b < a'], ['- 2']],
        [['l:'], ['- 1'], ['k < l'], ['e = 2']],
        [['-- m'], ['x'], ['-- m'], ['- i']],
        [['-- m'], ['x'], ['-- m'], ['e = 1']],
        [['-- m'], ['x'], ['-- m'], ['| 1']],
    ]
    out = filler()
    for block in rng.choice(cases):
        out += block + filler()
    return '\n'.join(out)


REPORTING = ['ask', 'ask_all', 'value', 'values', 'comment', 'key', 'build', 'assert', 'to']


def c16(p):
    p.want = ['sel']
    reports(p)
    p.queries(QUERIES, REPORTING, [2, 4, 5], 2500)
    questions(p)


def c17(p):
    p.want = ['rows']
    reports(p)
    p.queries(QUERIES, REPORTING, [2, 3, 4], 1500)


def c18(p):
    p.want = ['reporters']
    reports(p, True)
    markup = ['<b>', '&amp;', '"x"', "'", '</pre>', '&', '<script>', '\x1b', '%s', '{}', '<!-- -->', '&#60;']
    p.documents('markup in documents', p.pick(2500, 10000), lambda rng, i: gen.mutate(
        rng, gen.Writer(rng, odd=.1, sound=.5, wild=.1).document().replace('z', rng.choice(markup)).replace('a', rng.choice(markup)).replace('v', rng.choice(markup))), 4,
        source=lambda rng, i: [None, 'source.eno', rng.choice(markup) + '.eno'][i % 3])


def c19(p):
    p.want = ['lookup']
    p.model('MCLookup', p.pick('MCLookup', 'MCLookupDeep'))
    p.generated_lines()
    p.exhaustive('all documents of some lines', small(p.pick(2, 3), SIMPLE))
    p.exhaustive('every line', (f'k:\n{line}\nz:' for line in gen.all_lines(p.pick(2, 4))))
    p.documents('unusual lines', p.pick(1000, 5000), lambda rng, i: f'k:\n{odd_line(rng)}\nz:', 4)
    p.documents('random documents', p.pick(2000, 8000), lambda rng, i: rng.choice([without_copies, without_copies, commented, multilines, copies])(rng), 6)
    p.documents('unusual documents', p.pick(800, 4000), lambda rng, i: gen.Writer(rng, odd=.2, space=.5, copy=.3, copysection=.3, escape=.3).document(), 4)
    p.documents('nested sections', p.pick(500, 4000), lambda rng, i: gen.Writer(rng, section=4, field=1, empty=1, item=1, entry=1, depth=6, copy=.2, copysection=.2, size=(4, 16), terminated=1).document(), 3)
    p.documents('rejected documents', p.pick(600, 4000), parse_errors, 4, relations=['looking'], seed=lambda rng, i: i,
                locale=lambda rng, i: rng.choice(LOCALES), source=lambda rng, i: [None, 'source.eno'][i % 2])
    p.bulk(40, 400, most=12)
    p.huge(['fields', 'section', 'items', 'entries', 'sections', 'body', 'continuations', 'comment', 'blanks'])


ELEMENTS = {'empty': ['k:'], 'field': ['k: 1'], 'multiline': ['-- k', '1', '-- k'], 'list': ['k:', '- 1'], 'fieldset': ['k:', 'k = 1'], 'section': ['# k']}


def questions(p, locales=('en',), phrased=None, name='all questions', **options):
    """All questions to a document with all pairs of elements, and to fieldsets with some entries."""
    call = lambda h, m, **more: dict(calls.EMPTY_CALL, h=h, m=m, **more)

    def asked(h, faces):
        for face, key in itertools.product(faces, ([], [['k']], [['z']])):
            for mode in ('plain', 'optional', 'required'):
                yield call(h, 'ask', face=face, mode=mode, key=key)
            if face != 'empty':
                yield call(h, 'ask_all', face=face, key=key)

    def refused(h, face):
        m = 'values' if face == 'list' else 'value' if face in ('field', 'fieldset_entry') else ''
        for each in (m, 'comment'):
            for mode, loader in itertools.product(('optional', 'required'), ('', 'wrap', 'reject')) if each else ():
                yield call(h, each, mode=mode, loader=loader)
        yield call(h, 'key', loader='reject')
        yield call(1, 'assert')
        for kind in ('error', 'key_error', 'comment_error', *(['value_error'] if m == 'value' else [])):
            yield call(h, 'build', face=kind, mode='text', say='mine', args="('mine',)")

    def make(rng):
        made = []
        names = sorted(ELEMENTS, key=lambda name: name == 'section')
        for some in [[], *([n] for n in names), *itertools.combinations_with_replacement(names, 2)]:
            text = '\n'.join(line for name in some for line in ELEMENTS[name])
            made += [(text, [c]) for c in asked(1, ('element', 'empty', 'field', 'fieldset', 'list', 'section'))]
            made += [(text, [call(1, 'require', flag=True), c]) for c in asked(1, ('element', 'field', 'section')) if rng.random() < .3]
            if len(some) == 1:
                face = {'multiline': 'field'}.get(some[0], some[0])
                get = call(1, 'ask', face=face, key=[['k']])
                made += [(text, [get, c]) for c in refused(2, face)]
                made += [(text, [call(1, 'ask', face='element', key=[['k']]), call(2, 'to', face=to)]) for to in calls.ELEMENT_FACES[1:]]
        for entries in range(3):
            text = '\n'.join(['f:', *['k = 1'] * entries])
            get = call(1, 'ask', face='fieldset', key=[['f']])
            made += [(text, [get, c]) for c in asked(2, ['fieldset_entry'])]
        for text, face in (('k:', 'field'), ('k:\n-\n- 1', 'list'), ('-- k\n-- k', 'field')):
            made += [(text, [call(1, 'ask', face=face, key=[['k']]), c]) for c in refused(2, face)]
        text, get = 'f:\nk =', [call(1, 'ask', face='fieldset', key=[['f']]), call(2, 'ask', face='fieldset_entry', key=[['k']])]
        made += [(text, [*get, c]) for c in refused(3, 'fieldset_entry')]
        made = [(*one, locale) for one in made for locale in locales]
        if phrased:
            made = [worded(rng, *one) for one in rng.sample(made, phrased)]
        return [p.job(text, given=given, locale=locale, **_made(options, rng, i, text)) for i, (text, given, locale) in enumerate(made)]

    def worded(rng, text, given, locale):
        """The same questions with other words for the keys."""
        known, unknown = messages.key(rng, locale), messages.key(rng, locale)
        keys = {'k': [chars(known)], 'z': [chars(unknown)]}
        return text.replace('k', known), [dict(c, key=keys.get(c['key'][0][0], c['key']) if c['key'] else []) for c in given], locale
    p.jobs(name, make)


def c20(p):
    p.want = ['text', 'header']
    p.model('MCLookup', p.pick('MCLookup', 'MCLookupDeep'))
    p.options = dict(relations=['locales'])
    local = dict(locale=lambda rng, i: LOCALES[i % 3])
    p.documents('rejected documents', p.pick(4000, 12000), parse_errors, 6, **local)
    p.documents('padded documents', p.pick(1200, 6000), padded, 4, **local)
    p.documents('refused conversions', p.pick(500, 3000), well_formed, 3, want=p.want + ['conversions'], **local)
    p.generated_lines(**local)
    questions(p, LOCALES, relations=[])
    questions(p, LOCALES, phrased=p.pick(4000, 7000), name='keys that read like messages', relations=[])
    p.documents('rejected documents whose keys read like messages', p.pick(700, 4000), worded_errors, 3, **local)
    erring = dict(ERRING, require=1)
    histories(p, 'random histories', p.pick(900, 3000), well_formed, 25, player=erring, **local)
    histories(p, 'errors of loaders', p.pick(600, 3000), richly(item=3, entry=3, comment=1, valueless=.3), 25,
              player=dict(nothing_else=True, ask=3, ask_all=1, items=1.5, to=1, value=4, values=3, comment=3, key=2, loaders=.7, absent=.2), **local)
    p.queries(QUERIES, REPORTING, [2, 4, 5], 2500, **local)
    p.bulk(100, 1200, rejected=.8, **local)
    p.huge(wrong=.8, **local)


def variant(rng, text):
    """Another document that has much in common with one."""
    kind = rng.randrange(4)
    if kind == 0:
        return gen.mutate(rng, text)
    if kind == 1:   # the same keys, but other operators
        return '\n'.join(f'-{line}' if line.lstrip().startswith('--') else line for line in text.split('\n'))
    if kind == 2:
        return text.swapcase()
    return text + '\n' + text


def c21(p):
    p.want = ['views', 'again', 'results', 'values', 'comments']
    other = dict(other=lambda rng, i, text: variant(rng, text) if i % 2 else anything(rng))
    p.options = dict(relations=['undisturbed'], seed=0)
    p.documents('random documents', p.pick(2600, 10000), anything, 6, **other)
    p.documents('copies', p.pick(1000, 8000), lambda rng, i: rng.choice([sections, chains, deep_chains, copies])(rng), 5, **other)
    p.documents('things that are looked up', p.pick(800, 6000), lambda rng, i: rng.choice([anything, sections, chains, deep_chains, copies])(rng), 5, want=['looked up', 'values', 'comments'], relations=[])
    p.exhaustive('all documents of some lines', small(2, SIMPLE), other='a: 1\n# s\n- 2')
    histories(p, 'histories', p.pick(900, 4000), well_formed, 30, player=dict(raw=4, build=3, ask=3, items=2, to=2, require=.3), relations=['undisturbed', 'reading'], **other)
    histories(p, 'histories of copies', p.pick(600, 3000), lambda rng, i: rng.choice([sections, chains, deep_chains])(rng), 35,
              player=dict(raw=2, build=1, ask=4, ask_all=2, items=2, to=2, require=.3, touch=.5), relations=['undisturbed', 'reading'], **other)
    p.queries(QUERIES, ['raw', 'ask', 'ask_all', 'build', 'yields'], [3, 5], 1500, relations=[])
    p.bulk(80, 600, **other)
    p.huge(**other)
    histories(p, 'large documents', p.pick(100, 1500), bulky(most=14), 40, player=dict(raw=2, build=1, ask=4, ask_all=2, items=2, to=2, require=.3, touch=.5), relations=['undisturbed', 'reading'], **other)
    p.documents('keys that look alike', p.pick(400, 3000), alike, 3, **other)


def c22(p):
    p.want = ['results', 'text', 'sel']
    p.options = dict(focus=['ask', 'require'])
    p.queries(['ask', 'require', 'to'], ['ask', 'require'], [1, 2, 4], 3000)
    switching = dict(nothing_else=True, ask=6, ask_all=1.5, to=1.5, require=3, parent=.5, absent=.45)
    histories(p, 'nested sections', p.pick(1800, 4000), nested, 35, player=dict(switching, recent=.5))
    histories(p, 'few queries', p.pick(1000, 3000), nested, 35, player=dict(switching, recent=.3, absent=.3, require=2))
    histories(p, 'random histories', p.pick(800, 3000), well_formed, 30, player=switching)
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(switching, recent=.9))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(switching, recent=.9))
    histories(p, 'keys that look alike', p.pick(400, 3000), alike, 30, player=dict(switching, recent=.7))


def c23(p):
    p.want = ['results', 'conversions', 'looked up', 'text', 'sel', 'values', 'comments']
    p.options = dict(focus=['parent', 'key', 'to', 'yields'])
    p.queries(QUERIES, ['parent', 'key', 'to'], [1, 2, 3, 4, 5], 2000)
    placing = dict(nothing_else=True, ask=4, ask_all=2, items=2, to=3, parent=5, key=2, loaders=.1, absent=.05, yields=.5)
    histories(p, 'random histories', p.pick(1000, 4000), well_formed, 30, player=placing)
    histories(p, 'nested sections', p.pick(700, 3000), nested, 30, player=placing)
    histories(p, 'copies', p.pick(700, 3000), lambda rng, i: rng.choice([sections, chains, deep_chains])(rng), 30, player=placing)
    p.documents('things that are looked up', p.pick(2000, 10000), anything, 5)
    histories(p, 'large documents', p.pick(200, 1500), bulky(most=14), 40, player=dict(placing, recent=.6))
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=dict(placing, recent=.6))
    histories(p, 'keys that look alike', p.pick(400, 3000), alike, 30, player=dict(placing, recent=.6))


def c24(p):
    p.want = ['results', 'printed']
    p.options = dict(focus=['print'])
    disturbing = dict(relations=['printing'])
    p.queries(QUERIES, ['print'], [1, 2, 3, 4, 5], 3000)
    p.exhaustive('all documents of some lines', small(p.pick(2, 3), SIMPLE + ['a < b', '-- ', 'a : 12345678901234', 'k: 123456789012345', '| 1234567']))
    printing = dict(nothing_else=True, ask=4, ask_all=3, items=2, to=3, print=6, parent=.5, value=.3, absent=.2)
    histories(p, 'random histories', p.pick(1500, 4000), well_formed, 30, player=printing, **disturbing)
    histories(p, 'nested sections', p.pick(700, 3000), nested, 30, player=printing, **disturbing)
    histories(p, 'copies', p.pick(700, 3000), lambda rng, i: rng.choice([sections, chains, deep_chains])(rng), 30, player=printing, **disturbing)
    histories(p, 'long values', p.pick(700, 3000), lambda rng, i: lengthen(rng, richly(direct=3, spaced=2, item=2, entry=2, multiline=2)(rng)), 30, player=printing, **disturbing)
    p.documents('things that are looked up', p.pick(1500, 10000), anything, 5)
    histories(p, 'large documents', p.pick(150, 1500), bulky(most=14), 40, player=printing, **disturbing)
    histories(p, 'huge documents', p.pick(8, 40), hugely(SPRAWLING), 5, player=printing, **disturbing)


def lengthen(rng, text):
    """Some lines become longer."""
    return '\n'.join(line + 'x' * rng.randint(1, 16) if rng.random() < .4 and line.strip() and not line.lstrip().startswith(('--', '#')) else line
                     for line in text.split('\n'))


PLANS = {f'C{n:02}': globals()[f'c{n:02}'] for n in range(1, 25)}
