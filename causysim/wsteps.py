"""Steps used by simulated user pipelines to inject failures into executions."""
from causy.generators import AllCombinationsGenerator
from causy.interfaces import PipelineStepInterface
from causy.models import ComparisonSettings, TestResult, TestResultAction
from typing import Any, Generic, Optional

from . import vfs
from causy.variables import FloatParameter, IntegerParameter

STATE = {"fail_at": None, "exc": None, "calls": 0, "fired": False, "struck": None}

EXC = {
    "ValueError": lambda: ValueError("injected"),
    "RuntimeError": lambda: RuntimeError("injected"),
    "KeyError": lambda: KeyError("injected"),
    "ZeroDivisionError": lambda: ZeroDivisionError("injected"),
    "MemoryError": lambda: MemoryError("injected"),
    "OSError": lambda: OSError(5, "injected"),
    "AttributeError": lambda: AttributeError("injected"),
    "TypeError": lambda: TypeError("injected"),
    "IndexError": lambda: IndexError("injected"),
    "StopIteration": lambda: StopIteration(),
    "RecursionError": lambda: RecursionError("injected"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "injected"),
    "AssertionError": lambda: AssertionError("injected"),
}


def reset():
    STATE.update(fail_at=None, exc=None, calls=0, fired=False, struck=None)


class MaybeFailing(PipelineStepInterface):
    """Removes an edge if the correlation is weak; raises at the call told by the harness."""

    generator: Optional[Any] = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    chunk_size_parallel_processing: IntegerParameter = 1
    parallel: bool = False
    weak: FloatParameter = 0.1

    def process(self, nodes, graph, unapplied_actions=None):
        n = STATE["calls"]
        STATE["calls"] += 1
        if STATE["fail_at"] is not None and n == STATE["fail_at"] and not STATE["fired"]:
            STATE["fired"] = True
            w = vfs.World.current
            w.sim.fault("step_raises_" + STATE["exc"])
            STATE["struck"] = w.tree()
            raise EXC[STATE["exc"]]()
        x, y = graph.nodes[nodes[0]], graph.nodes[nodes[1]]
        c = float((x.values - x.values.mean()) @ (y.values - y.values.mean()) / (
            x.values.std(unbiased=False) * y.values.std(unbiased=False) * len(x.values) + 1e-12))
        if abs(c) < self.weak:
            return TestResult(u=x, v=y, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={"c": round(c, 9)})
        return None
