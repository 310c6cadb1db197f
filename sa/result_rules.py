"""The protocol of reaction results in debug builds (C17)."""
from engine import *
from lib import *
from type_rules import ValRule

NAMES = {1: 'forward', 2: 'discard', 3: 'defer'}


class ResultProtocolRule(ValRule):
    """kind 'v': the value given comes back; 'a': every path ends in an
    assertion; a number: that value comes back"""
    handlers = []

    def __init__(self, mod, kind, value, prop=None):
        super().__init__(mod, prop)
        self.k = kind; self.value = value

    def setup(self, eng, st, args):
        if self.k in 'va':
            for a in args:
                if args[a][1][0] != 'arg':
                    args[a] = self.value

    def rep(self, eng, st, msg, loc):
        eng.report(st, 'C17', msg, loc)

    def on_assert_fail(self, eng, st, c):
        self.count('assertions reached')
        if self.k != 'a':
            self.rep(eng, st, 'an assertion fails although the result (%s) is handed on correctly' % NAMES.get(self.value, self.value), c.loc)

    def on_return(self, eng, st, rv, loc):
        self.count('results handed on')
        if self.k == 'a':
            self.rep(eng, st, 'misuse of a reaction result (%s) is not noticed' % NAMES.get(self.value, self.value), loc)
        elif rv != self.value and eng.cmp(st, 'eq', rv, self.value) is not True:
            self.rep(eng, st, 'a result changes on its way: %s instead of %s' % (eng.show(rv), NAMES[self.value]), loc)
