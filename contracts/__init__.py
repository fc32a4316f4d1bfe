"""Contracts of the repository's functions, one module per area.

UNITS: verification units.  A unit symbolically executes the current body of
one or more functions against their specification.  A unit may *provide* a
contract for a helper; other units then use the contract instead of the body.
When a helper's unit fails, or the helper no longer exists, its contract is not
used: callers are verified against the body."""

UNITS = {}
CONTRACTS = {}


class Unit:
    def __init__(self, name, fn, props, provides, uses, funcs, dom, parts=1, relies=()):
        self.relies = list(relies)   # contracts taken as they are: decided by units of their own in this or another check
        self.name, self.fn, self.props, self.provides, self.uses, self.funcs, self.dom = \
            name, fn, props, provides, uses, funcs, dom
        self.parts = parts      # independent cases, run in parallel


def unit(name, props=(), provides=None, uses=(), funcs=(), dom="bv", parts=1, relies=()):
    """props: properties for which a failure of this unit is a violation.
    A unit with provides only supports others."""
    def deco(f):
        UNITS[name] = Unit(name, f, list(props), provides, list(uses), list(funcs), dom, parts, relies)
        return f
    return deco


def contract(fname, sig=None):
    def deco(f):
        CONTRACTS[fname] = (f, sig)
        return f
    return deco
