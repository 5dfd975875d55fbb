"""Makes sure that everything the checks need is there: TLC, the specification and the package."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)

for tool in ('gen_alphabets.py', 'gen_manifest.py'):   # these write what is committed
    subprocess.run([sys.executable, os.path.join(HERE, 'tools', tool)], check=True)

from harness import tlc, work  # noqa: E402

result = tlc.run('MCGrammar')
assert result['violated'] is None and result['distinct'] > 0
verdicts, _ = tlc.judge([work.perform(0, work.job('a: 1', ['accept', 'tree', 'values', 'api']))])
print('ready:', verdicts)
