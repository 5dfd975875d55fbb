#!/usr/bin/env python3
"""Decides a property: explores the specification and validates what the implementation does against it.

    check.py C01                 the quick or thorough check, by VERIF_TIER (quick if not set)
    check.py C01 --replay FILE   judges one violation once more
    check.py C01 --keep-going    runs all stages although there was a violation
"""
import argparse
import collections
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BATCH = 24000      # records that are judged in one run of TLC


def arguments():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--stage', help='only stages with that in their name')
    parser.add_argument('--keep-going', action='store_true')
    return parser.parse_args()


class Check:
    def __init__(self, options):
        from harness import findings, messages, plans, work
        work.Pristine.start()
        self.options = options
        self.property = options.property
        self.findings = findings
        self.plan = plans.Plan(options.property, options.tier, options.seed)
        self.started = time.time()
        self.states = self.transitions = 0
        self.models, self.stages, self.samples = [], [], []
        self.verdicts = collections.Counter()
        self.outcomes, self.errors, self.made, self.results = (collections.Counter() for _ in range(4))
        self.messages = messages.Seen()
        self.violations = []

    def run(self):
        from harness import work
        self.known, others = self.findings.check(self.property)
        for finding, what in others:
            task = work.job(self.findings.text_of(finding), self.plan.want, **self.plan.options)
            self.violations.append(('known findings', task, work.perform(0, task), json.dumps([['known finding', what]])))
        for line in self.known:
            print(line)
        for kind, name, stage in self.plan.stages:
            if self.options.stage and self.options.stage not in name:
                continue
            begun = time.time()
            if kind == 'model':
                self.explore(name, stage())
            else:
                made = stage()
                jobs, result = made if isinstance(made, tuple) else (made, None)
                if result:
                    self.explore(f'{name} (generation)', result)
                self.validate(name, jobs)
            print(f'{self.property} {name}: {time.time() - begun:.1f} s', flush=True)
            if self.violations and not self.options.keep_going:
                break
        self.evidence()
        return 1 if self.violations else 0

    def explore(self, name, result):
        if result['violated']:   # the specification contradicts itself: nothing is known of the implementation
            from harness.tlc import TlcFailure
            raise TlcFailure(f'{name}: {result["violated"]} does not hold\n{result["output"][-6000:]}')
        self.states += result['distinct']
        self.transitions += result['states']
        self.models.append({'model': name, 'distinct_states': result['distinct'], 'states_generated': result['states']})

    def validate(self, name, jobs):
        from harness import tlc, work
        counts = collections.Counter()
        for start in range(0, len(jobs), BATCH):
            batch = jobs[start:start + BATCH]
            records = work.perform_all(batch)
            verdicts, result = tlc.judge(records)
            self.states += result['distinct']
            self.transitions += result['states']
            for record in records:
                kind, clauses = verdicts[record['id']]
                counts[kind] += 1
                self.count(record)
                if kind == 'BAD':
                    self.violations.append((name, batch[record['id']], record, clauses))
            if records:
                self.sample(name, records[len(records) // 2])
            if self.violations and not self.options.keep_going:
                break
        self.verdicts.update(counts)
        self.stages.append({'stage': name, 'jobs': len(jobs), 'verdicts': dict(counts)})

    def count(self, record):
        self.outcomes[record['out'] if record['out'] in ('document', 'parse') else 'anything else'] += 1
        if record['err']:
            text = record['err']['text']
            self.errors[' '.join(w for w in text.split() if w.isalpha() and w.isascii())[:60]] += 1
        self.messages.of(record)
        for call in record['calls']:
            self.made[' '.join(x for x in (call['m'], call['mode'], call['face']) if x)] += 1
            self.results[call['res']['r']] += 1

    def sample(self, name, record):
        if len(self.samples) < 12:
            self.samples.append({'stage': name, 'document': [''.join(line) for line in record['ln']], 'outcome': record['out'],
                                 'calls': [{k: v for k, v in c.items() if v not in ('', [], False)} for c in record['calls'][:4]]})

    def evidence(self):
        coverage = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.verdicts['OK'] + self.verdicts['BAD'],
            'samples': self.samples,
            'exploration_of_the_specification': self.models,
            'trace_validation': self.stages,
            'traces_abandoned': self.verdicts['STRAY'],
            'outcomes_of_parsing': dict(self.outcomes),
            'parse_errors': dict(self.errors.most_common(60)),
            'calls': dict(self.made.most_common()), 'results_of_calls': dict(self.results.most_common()),
            'messages': self.messages.summary(),
            'known_findings_seen': self.known,
        }
        evidence = {
            'property': self.property, 'tier': self.options.tier, 'seed': self.options.seed, 'level': 'model_checking',
            'coverage': coverage,
            'assumptions': [
                'The specification says what the property means; it was written from the documentation and the properties.',
                'TLC, and the harness that turns results of the public interface into records, work.',
                'What was not among the traces is not bound to the implementation.',
            ],
            'wall_s': round(time.time() - self.started, 1), 'violations': len(self.violations),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{self.property}.json'), 'w') as file:
            json.dump(evidence, file, indent=1)

    def report(self):
        """The smallest violation is written down to be replayed."""
        name, task, record, clauses = min(self.violations, key=lambda v: (len(v[1]['text']), len(v[2]['calls'])))
        first = json.loads(clauses)[0]
        if record['calls'] and not task['given']:   # the calls as they were made, up to the one that went wrong
            task = dict(task, given=record['calls'][:first[2] if len(first) > 2 else None] or None)
            if not any(n == 'undisturbed' for n in task['relations']):
                task['steps'] = 0
        if 'before' in record:
            task = dict(task, before=record['before'])
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        path = os.path.join(HERE, 'out', f'{self.property}.json')
        with open(path, 'w') as file:
            json.dump({'property': self.property, 'stage': name, 'job': task, 'clauses': json.loads(clauses)}, file, indent=1)
        describe(task, record, clauses)
        print(f'{len(self.violations)} traces of the implementation are not behaviours of the specification')
        print(f'VIOLATION property={self.property} replay={path}')


def describe(task, record, clauses):
    print('document:', json.dumps(task['text']))
    print('outcome:', record['out'], record['err'].get('text', '') if record['err'] else '')
    for clause in json.loads(clauses)[:4]:
        print('  clause:', clause[0], '| expected:', json.dumps(clause[1])[:1500])
        if len(clause) > 2:
            for call in record['calls'][max(0, clause[2] - 8):clause[2]]:
                print('    call:', json.dumps({k: v for k, v in call.items() if v not in ('', [], False)})[:1500])
        elif clause[0] in ('tree', 'parsed again', 'views agree'):
            print('    observed:', json.dumps(record['raw'])[:1500])
        elif clause[0] == 'element tree':
            print('    observed:', json.dumps(record['api'])[:1500])
        else:
            for relation in record['relations']:
                if relation['name'] == clause[0]:
                    print('    observed:', json.dumps(relation['r'])[:1500])
            if record['err']:
                print('    observed:', json.dumps(record['err'])[:1500])


def replay(options):
    from harness import tlc, work
    with open(options.replay) as file:
        task = json.load(file)['job']
    work.Pristine.start()
    record = work.perform(0, task)
    verdicts, _ = tlc.judge([record])
    kind, clauses = verdicts[0]
    print('verdict:', kind)
    if kind == 'BAD':
        describe(task, record, clauses)
        print(f'VIOLATION property={options.property} replay={os.path.abspath(options.replay)}')
        return 1
    return 0


def main():
    options = arguments()
    try:
        if options.replay:
            return replay(options)
        check = Check(options)
        code = check.run()
        if code:
            check.report()
        return code
    except Exception:
        traceback.print_exc()
        print('The check could not be carried out.')
        return 2


if __name__ == '__main__':
    sys.exit(main())
