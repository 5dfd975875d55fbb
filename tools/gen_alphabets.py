"""Writes spec/Alphabets.tla: lines as sequences of characters."""
import os

ALPHABETS = {
    # every kind of line, some of them twice
    'AnyLines': ['', '> c', 'a:', 'a: 1', '- 2', 'b = 3', '| 4', '\\ 5', '# s', '## t', '### u', '-- m', '- m', 'x < a', '# t < s', '!', '`a'],
    # what is needed to copy non-section elements
    'CopyLines': ['a: 1', 'b:', '- 2', 'c = 3', 'a < b', 'b < c', 'c < a', '# s', '-- c', '> d'],
    # what is needed to copy sections
    'SectionLines': ['# s', '# t', '# s < t', '# t << s', '# u << t', '## s', '## t', '## u < s', 'a: 1', 'a: 2'],
    'DeepLines': ['# s', '# t << s', '# u << t', '## v', '### w', '## v << u', 'a: 1', 'b: 2'],
    'ContinuationLines': ['k:', 'k: v', '- i', 'e = w', '|', '| a', '\\', '\\ b', '', '> c'],
    'MultilineLines': ['-- m', '--m', '--- m', '- m', '-- n', '', 'x', '> c', '\t-- m '],
    'CycleLines': ['a < b', 'b < a', 'b: 1', '# s', '# s < t', '# t << s', '## t', '## s < t'],
    'CommentLines': ['>', '> a', '>  b', '  > c', '', 'k:', '- i', '# s'],
}

out = ['----------------------------- MODULE Alphabets -----------------------------',
       '(* Generated by tools/gen_alphabets.py: sets of lines to make documents of. *)', '']
for name, lines in ALPHABETS.items():
    written = ['<<' + ', '.join('"%s"' % c.replace('\\', '\\\\') for c in line) + '>>' for line in lines]
    out.append(f'{name} ==\n  {{' + ',\n   '.join(written) + '}\n')
out.append('=' * 77)
with open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Alphabets.tla'), 'w') as file:
    file.write('\n'.join(out) + '\n')

# Documents to query
DOCUMENTS = [
    ['a:', '# s', 'f: 1'],
    ['l:', '- 1', '-', '> c', 'e:', 'x = 2'],
    ['# s', 'f:', 'a: 1', '# t < s', 'a: 2'],
    ['-- m', 'v', '-- m', 'm: 2', '# s', '## t', 'e:', 'y ='],
    ['> c', 'f: 1', '| 2', 'g < f', 'l:', '- 1', 'k < l', '- 22'],
]
out = ['------------------------------ MODULE Documents ------------------------------',
       '(* Generated by tools/gen_alphabets.py: documents to query. *)', 'EXTENDS Sequences', '', 'Documents == <<']
out.append(',\n'.join('  <<' + ', '.join('<<' + ', '.join('"%s"' % c.replace('\\', '\\\\') for c in line) + '>>' for line in document) + '>>'
                      for document in DOCUMENTS))
out += ['>>', '=' * 78]
with open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Documents.tla'), 'w') as file:
    file.write('\n'.join(out) + '\n')
