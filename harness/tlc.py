"""Runs TLC and reads what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcFailure(Exception):
    """TLC could not do its work: an error of the machinery, not a verdict."""
    def __init__(self, message, output=''):
        super().__init__(message)
        self.output = output


def run(module, config=None, environment=None, arguments=(), workers=8, time_limit=800, memory='6g', written=None):
    """Output of a TLC run with its statistics; violations of invariants are in 'violated'.

    The configuration is one of those in the folder of the specification, or written on the spot."""
    scratch = tempfile.mkdtemp(prefix='eno-tlc-')
    configuration = os.path.join(SPEC, (config or module) + '.cfg')
    try:
        if written is not None:
            configuration = os.path.join(scratch, 'Written.cfg')
            with open(configuration, 'w') as file:
                file.write(written)
        command = ['java', '-XX:+UseParallelGC', f'-Xmx{memory}', '-Xss64m', '-cp', JARS, 'tlc2.TLC',
                   '-workers', str(workers), '-metadir', os.path.join(scratch, 'states'), '-noGenerateSpecTE',
                   '-config', configuration, *arguments,
                   os.path.join(SPEC, module + '.tla')]
        process = subprocess.run(command, capture_output=True, text=True, timeout=time_limit, cwd=scratch,
                                 env=dict(os.environ, **(environment or {})), errors='replace')
    except subprocess.TimeoutExpired:
        raise TlcFailure(f'{module}: no result within {time_limit} s')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    output = process.stdout
    result = {'output': output, 'code': process.returncode, 'states': 0, 'distinct': 0, 'violated': None}
    for generated, distinct in re.findall(r'(\d+) states generated, (\d+) distinct states found', output):
        result['states'], result['distinct'] = int(generated), int(distinct)
    violated = re.search(r'(?:Invariant|property|Action property) (\S+) is violated', output)
    if violated:
        result['violated'] = violated[1]
    elif process.returncode != 0:
        raise TlcFailure(f'{module}: exit {process.returncode}\n{output[-6000:]}\n{process.stderr[-2000:]}', output)
    return result


def printed(output):
    """The strings that were printed, one per line."""
    for line in output.split('\n'):
        if line.startswith('"') and line.endswith('"'):
            yield line[1:-1].replace('\\"', '"').replace('\\\\', '\\')


def unreadable(records, number, failure, config):
    """A record that is not even of the kind the specification can look at is none of its behaviours."""
    record = records[number]
    if len(records) > 1:    # it has to be the record, not the circumstances
        verdicts, result = judge([record], config=config)
        if verdicts[record['id']][0] == 'OK':
            raise failure
    else:
        verdicts, result = {}, {'states': 0, 'distinct': 0, 'output': ''}
        reason = re.search('Attempted.*|.*was not in the domain.*', failure.output)
        verdicts[record['id']] = ('BAD', json.dumps([['readable', reason[0] if reason else 'a record that can be evaluated']]))
    return {**{r['id']: ('STRAY', '') for r in records}, **verdicts}, result


def judge(records, time_limit=800, config='Conform'):
    """Verdicts for records: {id: (kind, clauses)} and the statistics of the run."""
    handle, path = tempfile.mkstemp(prefix='eno-records-', suffix='.ndjson')
    with os.fdopen(handle, 'w') as file:
        for record in records:
            file.write(json.dumps(record) + '\n')
    try:
        result = run('Conform', config, {'ENO_RECORDS': path}, time_limit=time_limit)
    except TlcFailure as failure:
        odd = re.findall(r'^/\\ rec = (\d+)$', failure.output, re.MULTILINE)
        if not odd or not re.search('Attempted to|was not in the domain|evaluat', failure.output):
            raise
        return unreadable(records, int(odd[-1]) - 1, failure, config)
    finally:
        os.unlink(path)
    verdicts = {}
    for line in printed(result['output']):
        if line.startswith('VERDICT '):
            parts = line.split(' ', 3)
            verdicts[int(parts[2])] = (parts[1], parts[3] if len(parts) > 3 else '')
    if result['violated']:
        raise TlcFailure(f'an invariant of the specification does not hold on a trace:\n{result["output"][-6000:]}')
    missing = [r['id'] for r in records if r['id'] not in verdicts]
    if missing:
        raise TlcFailure(f'no verdict for records {missing[:10]}\n{result["output"][-6000:]}')
    return verdicts, result
