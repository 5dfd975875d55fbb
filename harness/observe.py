"""Records what the implementation does, in the terms of the specification.

Only the public interface is used.  Texts are written the way the specification
writes them: characters beyond printable ASCII (and the brace) become their code
point in braces, a line is a sequence of characters.
"""
import os
import re
import signal
import sys
from html.parser import HTMLParser

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent'   # never read compiled files that lie around in the repository
REPO = '/repo'
sys.path.insert(0, os.path.join(REPO, 'python'))

import enolib  # noqa: E402
from enolib.messages import de, en, es  # noqa: E402
from enolib.reporters import HtmlReporter, TerminalReporter, TextReporter  # noqa: E402

assert enolib.__file__.startswith(REPO + '/'), enolib.__file__

LOCALES = {'en': en, 'de': de, 'es': es}
REPORTERS = {'text': TextReporter, 'html': HtmlReporter, 'term': TerminalReporter}
TIME_LIMIT = 10   # seconds for anything the implementation is asked for


class Timeout(BaseException):
    pass


def _alarm(_signal, _frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class limit:
    """Everything within is interrupted after a while."""
    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, TIME_LIMIT)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


# Texts ------------------------------------------------------------------------

def char(c):
    if c == '\n' or c == '\t' or (' ' <= c <= '~' and c != '{'):
        return c
    return '{%x}' % ord(c)


def esc(text):
    return ''.join(map(char, text))


def chars(text):
    return [char(c) for c in text]


def lines(text):
    return [chars(line) for line in text.split('\n')]


def opt(text):
    if text is None:
        return ''
    if not isinstance(text, str):
        return '?' + esc(repr(text))
    return '=' + esc(text)


# Snippets ---------------------------------------------------------------------

def row(mark, number, content):
    return {'m': mark, 'n': number, 'c': esc(content)}


def omission():
    return {'m': '...', 'n': 0, 'c': ''}


def strange(line):
    return {'m': 'unreadable', 'n': 0, 'c': esc(line)}


TEXT_ROW = re.compile(r' ([ >*?]) *(\d+) \| ?(.*)\Z', re.DOTALL)
TERMINAL_ROW = re.compile(r' ([ >*?]) +(\d+)  (.*)\Z', re.DOTALL)
ANSI = re.compile('\x1b\\[[0-9;]*m')


HEADER = re.compile(r' *(.*?) \| (.*)\Z')


def text_header(snippet, source=None):
    """What the columns are called."""
    match = HEADER.match((snippet.split('\n') + ['', ''])[0 if source is None else 2])
    return [esc(match[1]), esc(match[2])] if match else []


def text_rows(snippet, source=None):
    found = snippet.split('\n')
    if source is not None:
        if source not in found[0]:
            return [strange(found[0])], False
        found = found[2:]
    rows = []
    for line in found[1:]:
        match = TEXT_ROW.match(line)
        if match:
            rows.append(row(match[1], int(match[2]), match[3]))
        elif line.strip() == '...':
            rows.append(omission())
        else:
            rows.append(strange(line))
    return rows, True


def terminal_rows(snippet, source=None):
    found = ANSI.sub('', snippet).split('\n')
    if source is not None:
        if source not in found[0]:
            return [strange(found[0])], False
        found = found[1:]
    rows = []
    for line in found:
        match = TERMINAL_ROW.match(line)
        if match:
            rows.append(row(match[1], int(match[2]), match[3]))
        elif line.strip() == '...':
            rows.append(omission())
        else:
            rows.append(strange(line))
    return rows, True


class _Html(HTMLParser):
    MARKS = {'emphasized': '>', 'indicated': '*', 'questioned': '?'}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows = []        # [mark, gutter, content]
        self.into = None      # what text belongs to at the moment
        self.header = ''
        self.sound = True

    def handle_starttag(self, tag, attrs):
        classes = (dict(attrs).get('class') or '').split()
        if tag not in ('div', 'pre') or self.into in ('gutter', 'content'):
            self.sound = False
        elif 'eno-report-line' in classes:
            mark = [m for name, m in self.MARKS.items() if f'eno-report-line-{name}' in classes]
            self.rows.append([mark[0] if mark else ' ', '', ''])
        elif 'eno-report-gutter' in classes:
            self.into = 'gutter'
        elif 'eno-report-content' in classes:
            self.into = 'content'
        elif tag == 'div':
            self.into = 'header'
        else:
            self.into = None

    def handle_endtag(self, tag):
        if tag not in ('div', 'pre'):
            self.sound = False
        self.into = None

    def handle_comment(self, data):
        self.sound = False

    handle_decl = handle_pi = unknown_decl = handle_comment

    def handle_data(self, data):
        if self.into == 'gutter':
            self.rows[-1][1] += data
        elif self.into == 'content':
            self.rows[-1][2] += data
        elif self.into == 'header':
            self.header += data


def html_rows(snippet, source=None):
    parser = _Html()
    parser.feed(snippet)
    parser.close()
    rows = [] if parser.sound else [strange('markup in content')]
    for mark, gutter, content in parser.rows[1:]:
        gutter = gutter.strip()
        if gutter == '...' and content.strip() == '...':
            rows.append(omission())
        elif gutter.isdigit():
            rows.append(row(mark, int(gutter), content))
        else:
            rows.append(strange(gutter + content))
    return rows, source is None or source in parser.header


def html_header(snippet):
    parser = _Html()
    parser.feed(snippet)
    parser.close()
    return [esc(text.strip()) for text in parser.rows[0][1:]] if parser.rows else []


ROWS = {'text': text_rows, 'html': html_rows, 'term': terminal_rows}


def is_cursor(cursor):
    return isinstance(cursor, dict) and all(type(cursor.get(k)) is int for k in ('line', 'column', 'index'))


def report(error, others=None, source=None):
    """The report of an error (made with the text reporter), with what other reporters made of it."""
    begin, end = error.selection['from'], error.selection['to']
    sel = selection(error)
    if error.cursor != begin:
        sel.append('cursor')
    if type(error.text) is not str or not error.message == str(error) == f'{error.text}\n\n{error.snippet}':
        sel.append('message')
    result = {'text': esc(str(error.text)), 'sel': sel, 'rows': text_rows(error.snippet, source)[0], 'head': text_header(error.snippet, source)}
    if others is not None:
        result['others'] = []
        for name in ('html', 'term'):
            other = others[name]
            if isinstance(other, enolib.Error) and type(other) is type(error):
                rows, labelled = ROWS[name](other.snippet, source)
                result[name] = rows if labelled else [strange('source missing')]
                result['others'].append([esc(str(other.text)), selection(other)])
                if name == 'html':
                    result['htmlhead'] = html_header(other.snippet)
            else:
                result[name] = [strange(repr(other))]
                result.setdefault('htmlhead', [])
                result['others'].append([esc(repr(other)), []])
    return result


def selection(error):
    begin, end = error.selection['from'], error.selection['to']
    numbers = [begin['line'], begin['column'], begin['index'], end['line'], end['column'], end['index']]
    return [n if type(n) is int else -1 for n in numbers]


# Trees ------------------------------------------------------------------------

def raw_rows(raw, depth=0):
    rows = [{'d': depth, 'ty': raw['type'], 'key': opt(raw.get('key')),
             'val': opt(raw.get('value')), 'com': opt(raw.get('comment'))}]
    for part in raw.get('elements') or raw.get('items') or raw.get('entries') or []:
        rows += raw_rows(part, depth + 1)
    return rows


RAW_TYPE = {'multiline_field_begin': 'field'}


def dump_raw(thing):
    return [dict(r, ty=RAW_TYPE.get(r['ty'], r['ty'])) for r in raw_rows(thing.raw())]


def api_rows(section, depth=0):
    comment = section.optional_string_comment()
    key = section.string_key()
    rows = [{'d': depth, 'ty': 'document' if depth == 0 else 'section',
             'key': opt(key), 'val': '', 'com': opt(comment)}]
    for element in section.elements():
        rows += element_rows(element, depth + 1)
    return rows


def element_rows(element, depth=0):
    rows = []

    def add(depth, ty, element, value):
        key = '' if ty == 'list_item' else opt(element.string_key())
        rows.append({'d': depth, 'ty': ty, 'key': key, 'val': value, 'com': opt(element.optional_string_comment())})

    if element.yields_empty():
        add(depth, 'empty_element', element.to_empty(), '')
    elif element.yields_section():
        rows = api_rows(element.to_section(), depth)
        rows[0]['ty'] = 'section'
    elif element.yields_list():
        lst = element.to_list()
        add(depth, 'list', lst, '')
        for item in lst.items():
            add(depth + 1, 'list_item', item, opt(item.optional_string_value()))
    elif element.yields_fieldset():
        fieldset = element.to_fieldset()
        add(depth, 'fieldset', fieldset, '')
        for entry in fieldset.entries():
            add(depth + 1, 'fieldset_entry', entry, opt(entry.optional_string_value()))
    elif element.yields_field():
        field = element.to_field()
        add(depth, 'field', field, opt(field.optional_string_value()))
    elif getattr(element, 'yields_list_item', bool)():
        item = element.to_list_item()
        add(depth, 'list_item', item, opt(item.optional_string_value()))
    elif getattr(element, 'yields_fieldset_entry', bool)():
        entry = element.to_fieldset_entry()
        add(depth, 'fieldset_entry', entry, opt(entry.optional_string_value()))
    else:
        rows.append({'d': depth, 'ty': 'nothing', 'key': '', 'val': '', 'com': ''})
    return rows


# Documents --------------------------------------------------------------------

def parse(text, locale='en', reporter='text', source=None):
    return enolib.parse(text, locale=LOCALES[locale], reporter=REPORTERS[reporter], source=source)


def attempt(function):
    """What came of it: ('document', it), ('parse', error) or (name of what else happened, it)."""
    try:
        with limit():
            return 'document', function()
    except enolib.ParseError as error:
        return 'parse', error
    except Timeout:
        return 'did not terminate', None
    except RecursionError as error:
        return 'RecursionError', error
    except Exception as error:   # anything else is not supposed to happen
        return type(error).__name__, error


def crashed(function):
    """A dump of something, or the exception instead of it."""
    try:
        with limit():
            return function()
    except Timeout:
        return [{'d': -1, 'ty': 'did not terminate', 'key': '', 'val': '', 'com': ''}]
    except Exception as error:
        return [{'d': -1, 'ty': 'exception', 'key': esc(repr(error)), 'val': '', 'com': ''}]


def observe(number, text, want, locale='en', source=None, lookups=False, conversions=False):
    """A record of everything there is to know about a text."""
    out, result = attempt(lambda: parse(text, locale, source=source))
    record = {'id': number, 'ln': lines(text), 'loc': locale, 'want': want, 'focus': [], 'scope': '', 'out': out,
              'err': [], 'raw': [], 'api': [], 'again': [], 'look': [], 'lookindex': [], 'outside': [],
              'conv': [], 'printed': [], 'relations': [], 'calls': []}
    if out == 'parse':
        others = None
        if 'reporters' in want:
            others = {name: attempt(lambda: parse(text, locale, name, source))[1] for name in ('html', 'term')}
        try:
            record['err'] = report(result, others, source)
        except Exception as error:
            record['out'] = 'unreadable error ' + repr(error)
    elif out == 'document':
        if 'tree' in want or 'views' in want or 'again' in want:
            record['raw'] = crashed(lambda: dump_raw(result))
        if 'api' in want or 'views' in want:
            record['api'] = crashed(lambda: api_rows(result))
        if 'again' in want:
            record['again'] = crashed(lambda: dump_raw(parse(text, locale)))
        if 'lookup' in want:
            lookup_all(text, record)
        if 'conversions' in want or 'looked up' in want:
            convert_all(text, record, source)
        if 'printed' in want:
            print_all(text, record)
    return record


# Lookup -----------------------------------------------------------------------

def line_of(thing):
    """The line (from 0) a thing is written in, -1 for the document."""
    if thing.raw()['type'] == 'document':
        return -1
    return thing.error('where').selection['from']['line']


def place(found, line, column, index):
    try:
        result = found()
        return {'l': line, 'c': column, 'i': index, 'e': line_of(result['element']), 'p': esc(str(result['range'] or ''))}
    except Exception as error:
        return {'l': line, 'c': column, 'i': index, 'e': -2, 'p': esc(repr(error))}


def lookup_all(text, record):
    index = 0
    for number, line in enumerate(text.split('\n')):
        for column in range(len(line) + 1):
            record['look'].append(
                place(lambda: enolib.lookup(text, line=number, column=column), number, column, index))
            record['lookindex'].append(
                place(lambda: enolib.lookup(text, index=index), number, column, index))
            index += 1
    for arguments in ({'index': -1}, {'index': len(text) + 1},
                      {'line': -1, 'column': 0}, {'line': text.count('\n') + 1, 'column': 0}):
        try:
            enolib.lookup(text, **arguments)
            record['outside'].append('found')
        except Exception as error:
            record['outside'].append(type(error).__name__)


FACES = ('empty', 'field', 'fieldset', 'list', 'section', 'list_item', 'fieldset_entry')


def convert_all(text, record, source=None):
    """Everything that can be looked up, at the beginning of its line, is converted to what it can be."""
    reporters = ('text', 'html', 'term') if 'reporters' in record['want'] else ('text',)
    seen = set()
    for number in range(text.count('\n') + 1):
        try:
            line = line_of(enolib.lookup(text, line=number, column=0)['element'])
            if line < 0 or line in seen:
                continue
            seen.add(line)
            found = {'e': line, 'to': [], 'yields': [], 'key': '', 'ups': [], 'val': '', 'errs': [], 'raw': [], 'api': []}
            if 'looked up' in record['want']:
                found['raw'] = crashed(lambda: dump_raw(enolib.lookup(text, line=line, column=0)['element']))
                found['api'] = crashed(lambda: element_rows(enolib.lookup(text, line=line, column=0)['element']))
            for face in FACES:
                def element(reporter):
                    return enolib.lookup(text, line=line, column=0, locale=LOCALES[record['loc']],
                                         reporter=REPORTERS[reporter], source=source)['element']
                first, *others = [element(reporter) for reporter in reporters]
                if getattr(first, 'yields_' + face)():
                    found['yields'].append(face)
                try:
                    converted = getattr(first, 'to_' + face)()
                except enolib.ValidationError as error:
                    refused = {name: attempt_conversion(other, face) for name, other in zip(reporters[1:], others)}
                    found['errs'].append({'face': face, 'v': report(error, refused or None, source)})
                    continue
                found['to'].append(face)
                if getattr(first, 'to_' + face)() is not converted:
                    found['to'].append('another ' + face)
                found['key'] = opt(converted.string_key())
                found['ups'].append(line_of(converted.parent()))
                if face in ('field', 'list_item', 'fieldset_entry'):
                    found['val'] = opt(converted.optional_string_value())
            record['conv'].append(found)
        except Exception as error:
            record['conv'].append({'e': number, 'to': ['exception'], 'yields': [], 'key': esc(repr(error)), 'ups': [], 'val': '', 'errs': [], 'raw': [], 'api': []})


def print_all(text, record):
    """Everything that can be looked up is printed."""
    seen = set()
    for index in range(len(text) + 1):
        line = None
        try:
            element = enolib.lookup(text, index=index)['element']
            line = line_of(element)
            if line not in seen:
                seen.add(line)
                record['printed'].append({'e': line, 'v': esc(repr(element))})
        except Exception as error:
            record['printed'].append({'e': -1 if line is None else line, 'v': esc(repr(error))})


def attempt_conversion(element, face):
    try:
        return getattr(element, 'to_' + face)()
    except Exception as error:
        return error
