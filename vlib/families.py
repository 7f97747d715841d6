"""The families of checks: each has a driver for the real code, a trace specification and a model."""
from . import seq, rc, text, scopes, conc, types, borrow, wide

ALL = [seq.Seq, rc.Rc, text.Text, scopes.Scopes, conc.Conc, types.Types, borrow.Borrow, wide.Wide]

ASSUMPTIONS = [
    "Traces are recorded from the real code by a driver that observes it only through its public interface, an "
    "allocator that logs every request, and elements that log their creation and destruction.",
    "Histories are bounded: everything in the bounded model plus random longer ones; not all inputs.",
    "Memory errors that neither change an observed value, a red zone, a poisoned block nor the log go unnoticed.",
]


def note(prop):
    return ("Bounded: the contract is exact for every recorded step, but histories are all those of a small model and "
            "random longer ones. Trusts the driver's logging, TLC, and that recorded executions are representative.")
