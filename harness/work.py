"""Turns jobs (what to do with a text) into records of what the implementation did."""
import json
import multiprocessing
import os
import pickle
import random
import resource
import select
import socket

from . import calls, observe
from .observe import LOCALES, REPORTERS, attempt, crashed, dump_raw, esc, is_cursor, limit, opt, parse, selection


def job(text, want, locale='en', source=None, focus=(), scope='', relations=(), steps=0, player=None, seed=0,
        given=None, other=''):
    """
    steps   random calls to make, by a player with the given weights
    given   calls to make
    """
    return dict(text=text, want=list(want), locale=locale, source=source, focus=list(focus), scope=scope,
                relations=list(relations), steps=steps, player=player or {}, seed=seed, given=given, other=other)


def perform(number, task):
    text, want, locale, source = task['text'], task['want'], task['locale'], task['source']
    for earlier in task.get('before', []):     # when a violation is replayed
        everything(earlier)
    record = observe.observe(number, text, want, locale, source)
    record['focus'], record['scope'] = task['focus'], task['scope']
    if record['out'] == 'document' and (task['steps'] or task['given']):
        reporters = ('text', 'html', 'term') if 'reporters' in want else ('text',)
        history = calls.History(text, locale, reporters, source)
        try:
            if task['given']:
                calls.repeat(history, task['given'])
            else:
                calls.Player(random.Random(task['seed']), **task['player']).play(history, task['steps'])
        except Exception as error:   # the raw form the player looks at may be broken
            history.calls.append(dict(calls.EMPTY_CALL, m='raw', heard=[], news=[],
                                      res={'r': 'exception', 'v': esc(repr(error))}))
        record['calls'] = history.calls
    for name in task['relations']:
        try:
            record['relations'] += RELATIONS[name](task, record)
        except Exception as error:
            record['relations'].append({'name': name, 'l': '', 'r': esc(repr(error))})
    for relation in record['relations']:    # what may be of any kind becomes comparable
        relation['l'], relation['r'] = json.dumps(relation['l']), json.dumps(relation['r'])
    if task['relations'] and 'relations' not in record['want']:
        record['want'] = record['want'] + ['relations']
    return record


# Relations between observations -------------------------------------------------

def readable(document):
    """Everything there is to read is read; what is not what it should be."""
    wrong = []
    rows = crashed(lambda: dump_raw(document)) + crashed(lambda: observe.api_rows(document))
    wrong += [r['key'] or r['ty'] for r in rows if r['d'] < 0]
    for r in rows:
        wrong += [r[k] for k in ('key', 'val', 'com') if r[k][:1] == '?']
    return wrong


def complete(error):
    """What a parse error lacks."""
    wrong = []
    if not isinstance(error.text, str) or not error.text:
        wrong.append('text')
    if not isinstance(error.snippet, str) or not error.snippet:
        wrong.append('snippet')
    if error.text not in error.message or error.snippet not in error.message:
        wrong.append('message')
    if not is_cursor(error.cursor) or not is_cursor(error.selection['from']) or not is_cursor(error.selection['to']):
        wrong.append('selection')
    return wrong


def combinations(task, record):
    """Whatever is selected, it is a document or a complete parse error, and always the same of the two."""
    found = []
    for locale in LOCALES:
        for reporter in REPORTERS:
            out, result = attempt(lambda: parse(task['text'], locale, reporter, task['source']))
            lacks = []
            try:
                if out == 'parse':
                    lacks = complete(result)
                elif out == 'document' and reporter == 'text':
                    lacks = readable(result)
            except Exception as error:
                lacks = [esc(repr(error))]
            found.append({'name': f'{reporter} {locale}', 'l': [record['out'], []], 'r': [out, lacks]})
            if out == 'did not terminate':
                return found
    return found


def outcome_of(text, locale):
    out, result = attempt(lambda: parse(text, locale))
    if out == 'parse':
        return [out, selection(result), observe.text_rows(result.snippet)[0]]
    return [out, [], []]


def brief(call):
    """What must not depend on the locale."""
    res = call['res']
    if res['r'] in ('validation', 'built'):
        return [res['r'], res['v']['sel'], res['v']['rows']]
    return [res['r'], [], []]


def locales(task, record):
    """Parsing and calls have the same outcomes, selections and lines in all locales."""
    here = outcome_of(task['text'], task['locale'])
    found = [{'name': f'parsed as {other}', 'l': here, 'r': outcome_of(task['text'], other)}
             for other in LOCALES if other != task['locale']]
    if record['calls']:
        for other in LOCALES:
            if other != task['locale']:
                history = calls.History(task['text'], other)
                calls.repeat(history, record['calls'])
                found.append({'name': f'called in {other}', 'l': [brief(c) for c in record['calls']],
                              'r': [brief(c) for c in history.calls]})
    return found


def probe(section, depth=0):
    """Everything there is in a section, whatever was done with it before."""
    rows = []

    def add(depth, thing, value=''):
        rows.append([depth, opt(thing.string_key()), value, opt(thing.optional_string_comment())])
    for element in section.elements():
        types = [face for face in observe.FACES[:5] if getattr(element, 'yields_' + face)()]
        add(depth, element, str(types))
        if types == ['section']:
            rows += probe(element.to_section(), depth + 1)
        elif types == ['field']:
            add(depth, element.to_field(), opt(element.to_field().optional_string_value()))
        elif types == ['list']:
            for item in element.to_list().items():
                add(depth + 1, item, opt(item.optional_string_value()))
        elif types == ['fieldset']:
            for entry in element.to_fieldset().entries():
                add(depth + 1, entry, opt(entry.optional_string_value()))
    for name in ('elements', 'sections'):   # the others commit empty elements to a type
        for key in ('a', 's', 'b'):
            try:
                rows.append([depth, name, str(len(getattr(section, name)(key))), ''])
            except observe.enolib.ValidationError as error:
                rows.append([depth, name, esc(error.message), ''])
    return rows


def exactly(document):
    """The raw form to the last key, also where that means the same."""
    return [{'d': 0, 'ty': esc(json.dumps(document.raw(), sort_keys=True, default=repr)), 'key': '', 'val': '', 'com': ''}]


def state(document):
    return [crashed(lambda: dump_raw(document)), crashed(lambda: exactly(document)), crashed(lambda: [{'d': 0, 'ty': row, 'key': '', 'val': '', 'com': ''} for row in probe(document)])]


def everything(text):
    out, result = attempt(lambda: parse(text))
    return state(result) if out == 'document' else outcome_of(text, 'en')


class Pristine:
    """A process in which nothing was parsed yet; copies of it read one document each."""
    address = None

    @classmethod
    def start(cls):
        server = socket.socket(socket.AF_UNIX)
        server.bind('')             # any free abstract name
        server.listen(64)
        cls.address = server.getsockname()
        watched, cls.kept = os.pipe()   # readable as soon as all processes of the check are gone
        if os.fork() == 0:
            os.close(cls.kept)
            try:
                while server not in (ready := select.select([server, watched], [], [])[0]) or cls.answer(server):
                    if watched in ready:
                        break
            finally:
                os._exit(0)
        os.close(watched)
        server.close()

    @staticmethod
    def answer(server):
        connection = server.accept()[0]
        if os.fork() == 0:
            if os.fork() == 0:      # nobody has to wait for this one
                with connection, connection.makefile('rwb') as stream:
                    pickle.dump(everything(pickle.load(stream)), stream)
            os._exit(0)
        connection.close()
        os.wait()
        return True

    @classmethod
    def ask(cls, text):
        with socket.socket(socket.AF_UNIX) as connection:
            connection.settimeout(60)
            connection.connect(cls.address)
            with connection.makefile('rwb') as stream:
                pickle.dump(text, stream)
                stream.flush()
                return pickle.load(stream)


READ = []    # what this process has read so far


def undisturbed(task, record):
    """What is read does not depend on what was done before, with this document or with others."""
    alone = {'name': 'in a process of its own', 'l': Pristine.ask(task['text']), 'r': everything(task['text'])}
    if alone['l'] != alone['r']:
        record['before'] = READ[-2000:]
    READ.extend([task['text'], task['other']])
    if record['out'] != 'document':
        here = outcome_of(task['text'], 'en')
        attempt(lambda: parse(task['other'], 'de', 'html'))
        return [alone, {'name': 'rejected once more', 'l': here, 'r': outcome_of(task['text'], 'en')}]
    kept = parse(task['text'])
    reference = state(parse(task['text']))
    history = calls.History(task['text'])
    player = calls.Player(random.Random(task['seed'] + 1), nothing_else=True, absent=0.4, ask=3, ask_all=2, items=1,
                          to=1, value=1, values=1, comment=1, key=1, parent=1, touch=0.3, build=2, raw=2, yields=1)
    player.play(history, 25)
    found = [alone, {'name': 'calls made before', 'l': reference, 'r': state(history.lanes[0][0])}]
    out, other = attempt(lambda: parse(task['other'], 'de', 'html'))
    if out == 'document':
        state(other)
    found.append({'name': 'other documents', 'l': reference, 'r': state(kept)})
    found.append({'name': 'read again', 'l': reference, 'r': state(kept)})
    return found


def compared(task, record, name, left_out, disturb):
    """The calls once more as they are and with something else in between, which must make no difference."""
    if record['out'] != 'document':
        return []
    made = [call for call in record['calls'] if call['m'] not in left_out]

    def played(also):
        history = calls.History(task['text'], task['locale'])
        also(history)
        for call in made:
            calls.repeat(history, [call])
            also(history)
        for h, face in enumerate(history.faces, 1):
            if face in ('section', 'fieldset') and not history.missing[h - 1]:
                history.call(h, 'assert')
        reports = [thing.error('no') for thing, missing in zip(history.things(), history.missing) if not missing]
        return [[call['res'], call['news'], call['heard']] for call in history.calls] \
            + [[report.text, report.snippet, selection(report)] for report in reports]

    return [{'name': name, 'l': played(lambda history: None), 'r': played(disturb)}]


def printing(task, record):
    """Nothing that is called for afterwards depends on whether things were printed."""
    def disturb(history):
        for thing in history.things():
            crashed(lambda: repr(thing))
    return compared(task, record, 'printed in between', ('print',), disturb)


def reading(task, record):
    """Nothing that is called for afterwards, reports of errors included, depends on whether raw forms were read or errors built."""
    def disturb(history):
        for thing in history.things():
            for method in (lambda: thing.raw(), lambda: thing.error('no'), lambda: thing.key_error('no'), lambda: thing.comment_error('no'), lambda: thing.value_error('no')):
                crashed(method)
    return compared(task, record, 'read in between', ('raw', 'build'), disturb) \
        + compared(task, record, 'errors and raw forms read', ('raw',), disturb)


def looking(task, record):
    """A document that is rejected when it is parsed is rejected in the same way when something is looked up."""
    if record['out'] != 'parse':
        return []
    options = dict(locale=LOCALES[task['locale']], reporter=REPORTERS[sorted(REPORTERS)[task['seed'] % 3]], source=task['source'])

    def rejected(function):
        out, error = attempt(function)
        return [out] + ([error.text, error.snippet, selection(error)] if out == 'parse' else [])
    here = rejected(lambda: observe.enolib.parse(task['text'], **options))
    last = task['text'].count('\n')
    return [{'name': 'looked up in a rejected document', 'l': here, 'r': rejected(lambda: observe.enolib.lookup(task['text'], **place, **options))}
            for place in (dict(index=0), dict(index=len(task['text'])), dict(line=0, column=0), dict(line=last, column=0))]


RELATIONS = {'looking': looking, 'combinations': combinations, 'locales': locales, 'undisturbed': undisturbed, 'printing': printing, 'reading': reading}


# Many jobs ----------------------------------------------------------------------

def _chunk(chunk):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    records, late = [], 0
    for number, task in chunk:
        if late >= 3:   # not everything that hangs has to be waited for
            break
        record = perform(number, task)
        late += record['out'] == 'did not terminate' or any(c['res']['r'] == 'timeout' for c in record['calls'])
        records.append(record)
    return records


def perform_all(jobs, processes=8, size=100):
    size = max(5, min(size, len(jobs) // (2 * processes)))
    chunks = [[(i, jobs[i]) for i in range(start, min(start + size, len(jobs)))] for start in range(0, len(jobs), size)]
    with multiprocessing.get_context('fork').Pool(processes) as pool:
        return [record for part in pool.imap_unordered(_chunk, chunks) for record in part]
