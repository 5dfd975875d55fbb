"""The findings that are known: listed in known-findings.json, by the input that fails."""
import json
import os

from . import observe, tlc

FILE = os.path.join(tlc.VERIF, 'known-findings.json')


def check(property):
    """A line for every known finding of the property that is still there.

    When a listed input does not fail any more there is no line. When it fails in another way than
    the listed one, that is a violation: these are returned as well, as (finding, what happened).
    """
    with open(FILE) as file:
        listed = [f for f in json.load(file)['findings'] if f['property'] == property and f['status'] == 'known']
    lines, others = [], []
    for finding in listed:
        out, result = observe.attempt(lambda: observe.parse(text_of(finding)))
        read = rows(result) if out == 'document' else []
        if out == finding.get('outcome') or same(read, finding.get('reading')):
            lines.append(f'KNOWN-FINDING: property={property} {finding["what"]}')
        elif out not in ('document', 'parse') or isinstance(read, str):
            others.append((finding, read or out))
    return lines, others


def text_of(finding):
    return finding['text'] if 'text' in finding else eval(finding['expression'], {})   # long documents are written as expressions


def rows(document):
    """The raw form as rows, or the exception that was raised instead."""
    found = observe.crashed(lambda: observe.dump_raw(document))
    return found[0]['key'] or found[0]['ty'] if found[0]['d'] < 0 else [[r['d'], r['ty'], r['key'], r['val']] for r in found]


def same(read, listed):
    if isinstance(listed, str):
        return isinstance(read, str) and read.startswith(listed)
    return read == listed
