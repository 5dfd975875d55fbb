"""Makes documents: exhaustively from small alphabets, and at random from profiles."""
import itertools

OPERATORS = ['a', ' ', '`', ':', '=', '<', '-', '#', '>', '|', '\\']
SPACES = [' ', '  ', '\t', ' \t ']
ODD_SPACES = ['\r', '\xa0', '\u2003', '\x0b']
ODD_CHARACTERS = ['ü', 'é', '漢', '🙂', '{', '}', '&', '"', "'", '%', '\x01', '$', '\u200b', '~']


ALIKE = [['a', 'A', 'á', 'a\u0301', 'a.'], ['Å', 'A\u030a', '\u212b', 'å'], ['ß', 'ss', 'SS', 'ẞ'], ['I', 'i', 'İ', 'ı'], ['a b', 'a  b', 'a\tb', 'ab', 'a\xa0b'],
         ['0', '00', '0.0', '-0'], ['1', '１', '²', '01', '1 '], ['K', 'k', '\u212a', 'κ'], ['None', 'none', 'null', "'None'"], ['k', 'k:', ':k', 'k='], ['k', '`k`', '``k', "'k'"],
         ['-', '--', '- a', '-a'], ['#', '# a', '##', '#a'], ['a', 'a <', 'a < b', '<'], ['a', 'ab', 'aa', 'a a'], ['a', 'a\u200b', '\ufeffa', 'a\u00ad'],
         ['key', 'type', 'elements', 'template', 'value'], ['comment', 'parent', 'line', 'ranges', 'items']]
# the last line: keys that are names in the implementation, or could be


def looks_like(rng, key):
    """A key that is another one, but almost the same."""
    family = rng.choice([keys for keys in ALIKE if key in keys] or [[]])
    return rng.choice([key.upper(), key.lower(), key + ' ', ' ' + key, key + key, key[:-1], f'`{key}`', key + '\u0301', key + ':', *family])


def all_lines(length, alphabet=OPERATORS):
    for n in range(length + 1):
        for line in itertools.product(alphabet, repeat=n):
            yield ''.join(line)


class Writer:
    """Writes documents line by line.

    A profile gives weights to the kinds of lines, the keys to use and how much noise there
    is: `space` for irregular spacing, `odd` for unusual characters, `escape` for escaped keys,
    `wild` for lines that are not where they should be.
    """
    KINDS = ('blank', 'comment', 'empty', 'field', 'item', 'entry', 'direct', 'spaced',
             'section', 'copy', 'copysection', 'multiline')

    def __init__(self, rng, **profile):
        self.rng = rng
        self.weights = {kind: 1.0 for kind in self.KINDS}
        self.weights.update({k: v for k, v in profile.items() if k in self.KINDS})
        if profile.get('nothing_else'):
            self.weights = {k: profile.get(k, 0) for k in self.KINDS}
        self.keys = profile.get('keys', ['a', 'b', 'c', 'd'])
        self.section_keys = profile.get('section_keys', ['s', 't', 'u'])
        self.space = profile.get('space', 0.1)
        self.odd = profile.get('odd', 0.03)
        self.escape = profile.get('escape', 0.08)
        self.wild = profile.get('wild', 0.0)
        self.size = profile.get('size', (1, 10))
        self.depth_limit = profile.get('depth', 4)
        self.deep = profile.get('deep', 0.5)
        self.valueless = profile.get('valueless', 0.15)
        self.shared = profile.get('shared', 0.1)        # sections and elements with each other's keys
        self.terminated = profile.get('terminated', 0.97)
        self.sound = profile.get('sound', 0.9)          # copies with a template that is there, once
        self.fresh = profile.get('fresh', 0.0)          # keys that were not used before
        self.serial = 0

    # pieces
    def chance(self, p):
        return self.rng.random() < p

    def gap(self, usual=''):
        if self.chance(self.space):
            if self.chance(self.odd):
                return self.rng.choice(ODD_SPACES)
            return self.rng.choice(SPACES + [''])
        return usual

    def text(self, word=None):
        self.serial += 1
        text = word or f'{self.rng.choice("vwxyz")}{self.serial}'
        if self.chance(self.odd):
            position = self.rng.randint(0, len(text))
            text = text[:position] + self.rng.choice(ODD_CHARACTERS) + text[position:]
        if self.chance(self.space):
            text += self.rng.choice([' ', '  ', '\t', ' : ', ' - ', ' = ', '<', ' > ', '`', '|', '\\', '#', '--', '1']) \
                + self.rng.choice(['z', 'q', ''])
        return text

    def value(self):
        return '' if self.chance(self.valueless) else self.gap(' ') + self.text() + self.gap()

    def key(self, pool=None):
        if self.chance(self.fresh):
            self.serial += 1
            return f'{self.rng.choice("klm")}{self.serial}'
        key = self.rng.choice(pool or (self.section_keys if self.chance(self.shared) else self.keys))
        if self.chance(self.odd):
            key += self.rng.choice(ODD_CHARACTERS)
        elif self.chance(self.space):
            key += self.rng.choice([' k', '-', ' 2', '#', '>', '|'])
        return key

    def written(self, key):
        if self.chance(self.escape) or key[:1] in '>#-`\\|:=<' or any(c in key for c in ':=<'):
            ticks = '`'
            while ticks in key:
                ticks += '`'
            if self.chance(0.2):
                ticks += '`'
            return ticks + self.gap() + key + self.gap() + ticks
        return key

    def section_key(self):
        return self.key(self.keys if self.chance(self.shared) else self.section_keys)

    # lines
    def line(self, kind):
        g = self.gap
        if kind == 'blank':
            return self.gap()
        if kind == 'comment':
            return g() + '>' + g(' ') * self.rng.randint(0, 3) + ('' if self.chance(self.valueless) else self.text()) + g()
        if kind == 'item':
            return g() + '-' + self.value()
        if kind == 'entry':
            return g() + self.written(self.key()) + g(' ') + '=' + self.value()
        if kind == 'direct':
            return g() + '|' + self.value()
        if kind == 'spaced':
            return g() + '\\' + self.value()
        raise ValueError(kind)

    def multiline(self):
        key = self.key()
        dashes = '-' * self.rng.choice([2, 2, 2, 3, 4])
        noise = ['', ' ', '\t', '-', '--', dashes, f'{dashes}-{key}', f'{dashes}- {key}', f'{dashes} {key}x', f'- {key}',
                 f'-{key}', f'{dashes}', '> c', '# s', '- i', 'k: v', '`k', '| x', ' indented', '\t\ttabs ', 'x < y', '<b>&']
        if self.chance(self.odd * 5):
            noise += ['\r', 'ü', '\xa0']
        body = [self.rng.choice(noise) if self.chance(0.6) else self.text() for _ in range(self.rng.choice([0, 0, 1, 1, 2, 3]))]
        if key not in ('-',) and not key.startswith('-'):
            found = [self.gap() + dashes + self.gap(self.rng.choice(['', ' '])) + key + self.gap(), *body]
        else:
            found = [dashes + ' ' + 'm', *body]
            key = 'm'
        if self.chance(self.terminated):
            found.append(self.gap() + dashes + self.gap(self.rng.choice(['', ' '])) + key + self.gap())
        return found

    def document(self):
        weights = self.weights
        size = self.rng.randint(*self.size)
        kinds = list(weights)
        out = []
        depth, element, open_type, continuable = 0, False, None, False
        names, sections = [], []     # keys that were written, with their lines
        copies = []                  # lines that need a template
        while len(out) < size:
            kind = self.rng.choices(kinds, [weights[k] for k in kinds])[0]
            wild = self.chance(self.wild)
            if kind in ('item', 'entry') and not wild:
                wanted = 'list' if kind == 'item' else 'fieldset'
                if not element or open_type not in (None, wanted):
                    if weights['empty'] + weights['copy'] == 0:
                        continue
                    key = self.key()
                    out.append(self.gap() + self.written(key) + self.gap() + ':' + self.gap())
                    names.append(key)
                    element = True
                open_type, continuable = wanted, True
            elif kind in ('direct', 'spaced'):
                if not continuable and not wild:
                    continue
                if element and open_type is None:
                    open_type = 'field'
            elif kind in ('empty', 'field'):
                element, open_type, continuable = True, None, True
            if kind == 'section' or kind == 'copysection':
                if weights['section'] + weights['copysection'] == 0:
                    continue
                depth = self.rng.randint(1, min(depth + (2 if wild else 1), self.depth_limit))
                key = self.section_key()
                line = self.gap() + '#' * depth + self.gap(' ') + self.written(key)
                if kind == 'copysection':
                    line += self.gap(' ') + ('<<' if self.chance(self.deep) else '<') + self.gap(' ') + '\0' + self.gap()
                    copies.append((len(out), key, sections))
                else:
                    line += self.gap()
                sections.append(key)
                out.append(line)
                element, open_type, continuable = False, None, False
            elif kind == 'copy':
                key = self.key()
                out.append(self.gap() + self.written(key) + self.gap(' ') + '<' + self.gap(' ') + '\0' + self.gap())
                copies.append((len(out) - 1, key, names))
                names.append(key)
                element, open_type, continuable = True, None, False
            elif kind == 'multiline':
                out += self.multiline()
                names.append(out[-1].strip().lstrip('-').strip())
                element, open_type, continuable = False, None, False
            else:
                if kind in ('field', 'empty'):
                    key = self.key()
                    names.append(key)
                    line = self.gap() + self.written(key) + self.gap() + ':' + (self.value() if kind == 'field' else self.gap())
                else:
                    line = self.line(kind)
                out.append(line)
                if kind == 'field' and line.rstrip()[-1:] != ':':
                    open_type = 'field'
        for at, own, pool in copies:
            once = [k for k in pool if pool.count(k) == 1 and k != own and '<' not in k]
            above = [k for k in once if own in pool and pool.index(k) < pool.index(own)]
            if self.chance(self.sound):
                if above and self.chance(0.8):
                    once = above
                if once:
                    out[at] = out[at].replace('\0', self.rng.choice(once))
                else:   # nothing to copy from
                    line = out[at][:out[at].index('\0')].rstrip(' \t\r\xa0\u2003\x0b<')
                    out[at] = line if line.lstrip().startswith('#') else line + ':'
            else:
                out[at] = out[at].replace('\0', self.rng.choice(pool + self.keys + self.section_keys))
        return '\n'.join(out)


def soup(rng, count, length, alphabet=None):
    """Lines of random characters."""
    alphabet = alphabet or OPERATORS + ['b', ' ', ' ', ':', '\t']
    return '\n'.join(''.join(rng.choice(alphabet) for _ in range(rng.randint(0, length))) for _ in range(rng.randint(1, count)))


SMALL_LINES = ['', '> c', 'a:', 'a: 1', '- 2', 'b = 3', '| 4', '\\ 5', '# s', '## t', '-- m', 'x < a', '# u < s', '# u << s']


def mutate(rng, text):
    """A document with some lines moved, doubled, dropped or damaged."""
    ls = text.split('\n')
    for _ in range(rng.randint(1, 3)):
        how = rng.randint(0, 5)
        at = rng.randrange(len(ls))
        if how == 0 and len(ls) > 1:
            del ls[at]
        elif how == 1:
            ls.insert(at, ls[rng.randrange(len(ls))])
        elif how == 2:
            other = rng.randrange(len(ls))
            ls[at], ls[other] = ls[other], ls[at]
        elif how == 3:
            position = rng.randint(0, len(ls[at]))
            ls[at] = ls[at][:position] + rng.choice(OPERATORS + ['\t', 'ü']) + ls[at][position:]
        elif how == 4 and ls[at]:
            position = rng.randrange(len(ls[at]))
            ls[at] = ls[at][:position] + ls[at][position + 1:]
        else:
            ls.insert(at, rng.choice(SMALL_LINES))
    return '\n'.join(ls)


class Bulk:
    """Writes documents in which something is many, long or deep."""

    def __init__(self, rng, most=30, parts=()):
        self.rng = rng
        self.most = most
        self.parts = [getattr(Bulk, part) for part in parts]
        self.serial = 0

    def many(self, least=6):
        return self.rng.randint(least, self.most)

    def name(self, letter='k'):
        self.serial += 1
        return f'{letter}{self.serial}'

    def words(self, length):
        return ' '.join(self.rng.choice(['w', 'ab', 'c-d', 'é', '=', ':', 'xyz', '1', '`', '#']) for _ in range(length)).strip(' ')

    def fence(self):
        dashes, key = '-' * self.many(), self.name()
        like = [dashes + '-', dashes[1:], f'{dashes}- {key}', f'{dashes[1:]} {key}', f'{dashes} {key}x', dashes, '', ' a', f'-- {key}']
        return [f'{dashes} {key}', *[self.rng.choice(like) for _ in range(self.many(0))], f'{dashes} {key}']

    def escapes(self):
        ticks = '`' * self.many(3)
        key = self.rng.choice([ticks[1:], f'a {ticks[1:]} b', f'a{ticks}`b', ':' + self.name(), self.words(4)])
        return self.rng.choice([[f'{ticks} {key} {ticks}: v'], [f'{ticks} {key} {ticks}'], [f'{self.name()}:', f'{ticks} {key} {ticks} = v'],
                                [f'{self.name()}: v', f'{ticks} {key} {ticks} < k{self.serial}'], [f'{ticks}{key}: v']])

    def headings(self):
        found, steps = [], self.many()
        for depth in range(1, steps + 1):
            found += ['#' * depth + ' ' + self.name('s')] + [f'{self.name()}: {depth}'] * (self.rng.random() < .3)
        for _ in range(self.rng.randint(0, 5)):
            steps = self.rng.randint(1, steps + 1)
            found += ['#' * steps + ' ' + self.rng.choice(['a', 'b']), f'{self.name()}:']
        return found

    def chain(self):
        kind, names = self.rng.choice(['field', 'list', 'fieldset', 'empty', 'multiline', 'section', 'deep']), [self.name('c') for _ in range(self.many(4))]
        own = {
            'field': lambda n: [], 'empty': lambda n: [], 'multiline': lambda n: [],
            'list': lambda n: [f'- {n}'] * self.rng.choice([0, 0, 1, 2]),
            'fieldset': lambda n: [f'{self.rng.choice("abcdef")} = {n}'] * (self.rng.random() < .5) + [f'g{n} = {n}'] * (self.rng.random() < .3),
            'section': lambda n: [f'{self.rng.choice("abcdef")}: {n}'] * (self.rng.random() < .5) + ['## s', f'x{n}: 1'] * (self.rng.random() < .3),
            'deep': lambda n: [f'{self.rng.choice("abcdef")}: {n}'] * (self.rng.random() < .5) + ['## s', f'{self.rng.choice("xyz")}: {n}'] * (self.rng.random() < .5),
        }[kind]
        first = {'field': [f'{names[0]}: v'], 'empty': [f'{names[0]}:'], 'multiline': [f'-- {names[0]}', 'v', f'-- {names[0]}'],
                 'list': [f'{names[0]}:', '- v'], 'fieldset': [f'{names[0]}:', 'a = v'],
                 'section': [f'# {names[0]}', 'a: v'], 'deep': [f'# {names[0]}', 'a: v', '## s', 'x: v']}[kind]
        links = [first]
        for n, (template, name) in enumerate(zip(names, names[1:])):
            line = {'section': f'# {name} < {template}', 'deep': f'# {name} << {template}'}.get(kind, f'{name} < {template}')
            links.append(['> c'] * (self.rng.random() < .2) + [line, *own(n)])
        order = self.rng.choice(['down', 'up', 'any'])
        if order == 'up':
            links.reverse()
        elif order == 'any':
            self.rng.shuffle(links)
        return [line for link in links for line in link]

    def items(self):
        key, copy = self.name(), self.name()
        found = [f'{key}:']
        for n in range(self.many()):
            found += self.rng.choice([[f'- {n}']] * 6 + [['-'], ['> c', f'- {n}'], [f'- {n}', '| m'], [f'- {n}', '']])
        return found + ([f'{copy} < {key}', '- o'] if self.rng.random() < .5 else [])

    def entries(self):
        key, copy = self.name(), self.name()
        found = [f'{key}:']
        for n in range(self.many()):
            found += self.rng.choice([[f'e{n} = {n}']] * 6 + [[f'e{n} ='], ['> c', f'e{n} = {n}'], [f'e{n} = {n}', '| m'], [f'e{n // 2} = {n}', '']])
        if self.rng.random() < .6:
            found += [f'{copy} < {key}', *[f'e{n} = o' for n in sorted(self.rng.sample(range(40), self.rng.randint(0, 9)))]]
        return found

    def continuations(self):
        start = self.rng.choice([f'{self.name()}:', f'{self.name()}: v', 'l:\n- i', 'f:\ne = v', 'f:\ne ='])
        return start.split('\n') + [self.rng.choice(['| d', '\\ s', '|', '\\', '|', '\\', '', '> c']) for _ in range(self.many())]

    def comment(self):
        indents = ['', ' ', '    ', ' ' * self.many(), '\t', '\t\t', ' ' * 9]
        at_least = self.rng.choice(indents)
        return [f'>{at_least}{self.rng.choice(indents)}{self.rng.choice(["c", "", "d e", "> f"])}' for _ in range(self.many())] + [f'{self.name()}:']

    def siblings(self):
        keys = [self.name() for _ in range(self.rng.choice([1, 2, 30]))]
        return [f'{self.rng.choice(keys)}: {n}' for n in range(self.many())]

    def wide(self):
        long = lambda: self.words(self.rng.choice([10, 40, 200]))
        key = self.name() + long().translate(str.maketrans('', '', ':=`'))
        return self.rng.choice([[f'{key}: {long()}'], [f'{key}:', f'- {long()}', f'| {long()}'], [f'> {long()}', f'{key}:', f'e = {long()}'],
                                [f'-- {key}', long(), f'-- {key}'], [f'{key}: {long()}', f'z < {key}']])

    def blanks(self):
        return [self.rng.choice(['', '', '', ' ', '> c']) for _ in range(self.many())]

    def subsections(self):
        some = [self.name('u') for _ in range(self.many(3))]
        key = self.name('s')
        found = [f'# {key}']
        for name in some:
            found += [f'## {name}', f'{self.rng.choice("ab")}: {name}'] + [f'### d', 'x: 1'] * (self.rng.random() < .2)
        found += [f'# {self.name("s")} {self.rng.choice(["<", "<<", "<<"])} {key}']
        for name in self.rng.sample(some, self.rng.randint(0, min(6, len(some)))):
            found += [f'## {name}', f'{self.rng.choice("ab")}: own'] + [f'### d', 'y: 2'] * (self.rng.random() < .3)
        return found

    ELEMENTS = [fence, escapes, chain, items, entries, continuations, comment, siblings, wide, blanks]
    SECTIONS = [headings, chain, subsections]

    def document(self, copied=True):
        """A document that is accepted, most of the time."""
        parts = self.parts or (self.ELEMENTS if self.rng.random() < .6 else self.SECTIONS * 2 + self.ELEMENTS)
        parts = [part for part in parts if copied or part not in (Bulk.chain, Bulk.subsections)]
        return '\n'.join(line for _ in range(self.rng.choice([1, 1, 2, 3])) for line in self.rng.choice(parts)(self))

    def rejected(self):
        """A document that is rejected, most of the time."""
        found = self.document().split('\n')
        at = self.rng.choice([len(found), self.rng.randint(0, len(found))])
        keys = [line.split(':')[0].strip(' #') for line in found if ':' in line] or ['k1']
        wrong = self.rng.choice([['!'], ['`a'], ['-- m', 'x'], ['# s', '- i'], ['# s', '| c'], ['k: v', 'e = 1'], ['x < none'], ['# x < none'], ['# s', '### t'],
                                 ['p < q', *self.blanks(), 'q < r', *self.blanks(), 'r < p'], [f'{self.rng.choice(keys)}:', 'x1 < ' + self.rng.choice(keys)]])
        return '\n'.join(found[:at] + wrong + found[at:])


HUGE = ('fields', 'same', 'section', 'sections', 'items', 'entries', 'continuations', 'body', 'comment', 'blanks', 'value', 'pieces', 'line', 'note', 'key', 'copied', 'copies', 'list', 'far')


def huge(rng, kind, wrong=0):
    """A document with more lines than two digits can count or longer ones than anybody writes by hand, otherwise simple."""
    n, far = rng.randint(101, 108), rng.choice([4200, 5000])
    long = rng.choice(['x' * far, 'x y ' * (far // 4) + 'z'])
    found = {
        'fields': lambda: [f'k{i}: {i}' for i in range(n)],
        'same': lambda: [f'k: {i}' for i in range(n)],
        'section': lambda: ['# s', *[f'k{i}: {i}' for i in range(n)]],
        'sections': lambda: [f'# s{i}' for i in range(n)],
        'items': lambda: ['l:', *[f'- {i}' for i in range(n)]],
        'entries': lambda: ['f:', *[f'e{i} = {i}' for i in range(n)]],
        'continuations': lambda: ['k:', *['| a' if i % 7 else '\\ b' for i in range(n)]],
        'body': lambda: ['-- m', *[rng.choice(['', 'x', 'k: v', '-- n']) for _ in range(n)], '-- m'],
        'comment': lambda: [f'> {i}' for i in range(n)] + ['k:'],
        'blanks': lambda: ['k: v', *[''] * n, '# s', 'o: v'],
        'value': lambda: [f'k: {long}', 'o: v'],
        'pieces': lambda: ['l:', f'- {long}', f'| {long}', '\\ z'],
        'line': lambda: ['-- m', long, '-- m', 'o: v'],
        'note': lambda: [f'> {long}', 'k: v'],
        'key': lambda: [f'{long}: v', f'c < {long}'],
        'copied': lambda: ['# s', *[f'k{i}: {i}' for i in range(n // 2)], f'# t {rng.choice(["<", "<<"])} s', *[f'k{i}: o' for i in range(0, n, 2)]],
        'copies': lambda: ['l:', '- 1', *[f'c{i} < l' for i in range(n)]],
        'list': lambda: ['f:', *[f'e{i} = {i}' for i in range(n)], 'g < f', 'e9 = o', 'new = o', f'e{n - 1} = o'],
        'far': lambda: ['# t < s', 'k: o', *[''] * n, '# s', 'k: v', 'z: v', '## u', 'x: 1'],
    }[kind]()
    ends = [['!'], ['# s', '- i'], ['x < none'], ['-- y', 'x']] if rng.random() < wrong else [[], ['z: v'], ['', 'c: k'], ['# t', 'a: 1']]
    return '\n'.join(found + rng.choice(ends))
