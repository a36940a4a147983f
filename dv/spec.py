"""Contract registry (imported by the verifier and by the concrete runner)."""
import importlib
import os
import sys

REG = []


class Contract:
    def __init__(self, fn, prop, targets, small, bounded, assumes, samples, name, overflow, trust, soft):
        self.fn, self.prop, self.targets = fn, prop, targets
        self.small = small or [{}]
        self.bounded = bounded
        self.assumes = assumes
        self.samples = samples
        self.name = name or fn.__name__
        self.overflow = overflow
        self.trust = trust
        self.soft = soft
        self.id = '%s.%s' % (prop, self.name)


def contract(prop, targets, small=None, bounded=None, assumes=(), samples=60, name=None, overflow=False, trust=(), soft=False):
    """register a contract.  targets: functions under contract; small: the
    sizes of the bounded instances; bounded: why the contract itself only
    covers bounded shapes (None = unbounded); soft: an obligation left open on
    the current tree is a stand-in, not an alarm"""
    def d(fn):
        REG.append(Contract(fn, prop, list(targets), small, bounded, list(assumes), samples, name, overflow, list(trust), soft))
        return fn
    return d


def load(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    importlib.import_module('contracts.' + prop.lower())
    return [c for c in REG if c.prop == prop]
