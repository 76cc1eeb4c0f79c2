"""A scripted quantum executor, importable in worker processes."""
from __future__ import annotations

import os
import signal
import time

from lsst.pipe.base import InvalidQuantumError, RepeatableQuantumError
from lsst.pipe.base.quantum_graph_executor import QuantumExecutionResult, QuantumExecutor
from lsst.pipe.base.quantum_reports import QuantumReport


class VpFailure(RuntimeError):
    pass


class ScriptedExecutor(QuantumExecutor):
    """Executes quanta according to a table {quantum ID: action}; logs starts and ends to a list or a file."""

    def __init__(self, table, path=None, stoppers=()):
        self.table = table
        self.stoppers = tuple(stoppers)
        self.path = path
        self.events = []

    def note(self, what, qid):
        t = time.monotonic()
        if self.path is None:
            self.events.append((what, str(qid), t))
            return
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, f"{what} {qid} {t!r}\n".encode())
        finally:
            os.close(fd)

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        self.note("S", quantum_id)
        action = self.table[str(quantum_id)]
        if action == "hang":
            time.sleep(120)
        elif action == "hang-hard":
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
            t = time.monotonic() + 120
            while time.monotonic() < t:
                time.sleep(1)
        elif action.startswith("slow"):
            time.sleep(int(action[4:]) / 1000)
        elif action.startswith("exit"):
            self.note("F", quantum_id)
            os._exit(int(action[4:]))
        elif action == "kill":
            self.note("F", quantum_id)
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(60)
        elif action in ("fail", "bigfail", "repeatable", "invalid"):
            self.note("F", quantum_id)
            if action == "fail":
                raise VpFailure(f"scripted failure of {quantum_id}")
            if action == "bigfail":
                raise VpFailure(f"scripted failure of {quantum_id}" + "x" * 300000)
            if action == "repeatable":
                raise RepeatableQuantumError(f"scripted failure of {quantum_id}")
            raise InvalidQuantumError(f"scripted failure of {quantum_id}")
        if self.stoppers and self.path is not None:
            # After a failure that should stop execution, hold on for long enough that the parent must have noticed.
            with open(self.path) as f:
                if any(line.startswith("F ") and line.split()[1] in self.stoppers for line in f):
                    time.sleep(8)
        self.note("E", quantum_id)
        report = QuantumReport(quantumId=quantum_id, dataId=quantum.dataId, taskLabel=task_node.label)
        return QuantumExecutionResult(quantum, report)
