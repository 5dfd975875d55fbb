"""Which messages of the specification were seen (to know what was covered, not to judge)."""
import collections
import functools
import os
import re

from .tlc import SPEC

SAYING = re.compile(r'^\s*(?:\[\s*)?(\w+) \|-> "(.*)"[,\]]?\s*$|^\s*(?:CASE|\[\]) n = "(\w+)" -> (.*)$')
NEVER_SAID = {'content_header', 'gutter_header'}


def patterns():
    """{locale: {message: what it looks like}}, read from the module EnoMessages."""
    found, locale = collections.defaultdict(dict), None
    with open(os.path.join(SPEC, 'EnoMessages.tla')) as file:
        for line in file:
            start = re.match(r'(En|De|Es)(Plain)? ?(==|\()', line)
            locale = start[1].lower() if start else locale
            match = SAYING.match(line)
            if match and match[1]:
                found[locale][match[1]] = re.compile(re.escape(match[2]))
            elif match:
                parts = [part.strip() for part in match[4].split('\\o')]
                found[locale][match[3]] = re.compile(''.join('.*' if part in ('k', 'l') else re.escape(part.strip('"')) for part in parts), re.DOTALL)
    return found


ODD = ['{key}', '{}', '{0}', '%s', '%(key)s', '%', '$key', "'", "''", "'k'", 'key', 'line', 'None', 'k', 'l', '1', '2', '{line}', '{{}}', '"', '&amp;', '.']


@functools.cache
def phrases(locale):
    """Parts of messages that can be keys."""
    found, of = set(ODD), None
    with open(os.path.join(SPEC, 'EnoMessages.tla')) as file:
        for line in file:
            start = re.match(r'(En|De|Es)(Plain)? ?(==|\()', line)
            of = start[1].lower() if start else of
            for text in re.findall(r'"((?:[^"\\]|\\.)*)"', line) if of == locale else ():
                words = re.sub(r'\{([0-9a-f]+)\}', lambda match: chr(int(match[1], 16)), text).split()
                for size in (1, 2, 3, 5, 9):
                    found |= {' '.join(words[i:i + size]) for i in range(len(words) - size + 1)}
    return sorted(text for text in found if text and not set(text) & set(':=<`') and text[0] not in '>#-|\\')


def key(rng, locale):
    """A key that reads like messages."""
    return ' '.join(rng.choice(phrases(locale)) for _ in range(rng.choice([1, 2, 25])))


class Seen:
    def __init__(self):
        self.patterns = patterns()
        self.seen = collections.defaultdict(collections.Counter)
        self.known = {}

    def add(self, locale, text):
        if text in self.known.setdefault(locale, {}):
            name = self.known[locale][text]
        else:
            name = next((name for name, pattern in self.patterns[locale].items() if pattern.fullmatch(text)), None)
            self.known[locale][text] = name
        if name:
            self.seen[locale][name] += 1

    def of(self, record):
        if record['err']:
            self.add(record['loc'], record['err']['text'])
        for call in record['calls']:
            if call['res']['r'] in ('validation', 'built'):
                self.add(record['loc'], call['res']['v']['text'])

        for element in record['conv']:
            for refused in element['errs']:
                self.add(record['loc'], refused['v']['text'])

    def summary(self):
        return {locale: {'seen': len(self.seen[locale]), 'of': len(names) - len(NEVER_SAID),
                         'not_seen': sorted(set(names) - set(self.seen[locale]) - NEVER_SAID)}
                for locale, names in sorted(self.patterns.items()) if self.seen[locale]}
