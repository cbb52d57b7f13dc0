"""Which lines of the code under test do the runs of a check reach? (PATROSIM_COVERAGE=directory)"""

import json
import os
import sys

from .core import REPO

DIRECTORY = os.environ.get('PATROSIM_COVERAGE')
LINES = set()
_open, _write, _exit = os.open, os.write, os._exit
_prefix = os.path.join(REPO, 'Patro') + os.sep


def start():
    if not DIRECTORY:
        return
    def leave(code):
        stop()
        _exit(code)

    os._exit = leave
    monitoring = sys.monitoring
    monitoring.use_tool_id(monitoring.COVERAGE_ID, 'patrosim')

    def on_line(code, line):
        if code.co_filename.startswith(_prefix):
            LINES.add((code.co_filename[len(REPO) + 1:], line))
        return monitoring.DISABLE

    monitoring.register_callback(monitoring.COVERAGE_ID, monitoring.events.LINE, on_line)
    monitoring.set_events(monitoring.COVERAGE_ID, monitoring.events.LINE)


def stop():
    """Each process, run or session, writes its lines."""
    if LINES:
        path = os.path.join(DIRECTORY, '{}.json'.format(os.getpid()))
        fd = _open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        _write(fd, json.dumps(sorted(LINES)).encode() + b'\n')
