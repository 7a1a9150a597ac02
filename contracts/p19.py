"""P19: frame conditions of the public functions.

The contracts of the other properties are explored again; every public
function or method that they verify has the frame condition "assigns nothing
reachable from the arguments, the object, the module or the configuration",
an obligation on every way out of the function and after every iteration of
a loop in which an argument is written."""
import importlib
from pydv import frame
from pydv.registry import Registry

R = Registry('P19')
TRUSTED = ['NumPy: an operation that is not documented to work in place '
           'leaves its operands; slices, transposes, reshapes and asarray of '
           'arrays of the same type share memory',
           'callees by their own frame condition',
           'no function of the modules reads a source of randomness or of '
           'the current time (such calls are not modelled, the proof would '
           'stop), so that equal states give equal results']
ASSUMPTIONS = ['arguments that are numbers, strings, dates or functions are '
               'immutable', 'representative shapes as in the property that '
               'the contract belongs to']
LEMMAS = ('lemma', 'laws of', '(over the contracts)', '(lemmas)')


def _frame(pid, c):
    mode = 'proof' if 'proof' in c.modes else 'bounded'

    @R.contract(f'{pid}: {c.name}', c.functions, modes=(mode,))
    def f(mode, tier):
        frame.ACTIVE = True
        r = c.run(mode, tier)
        # cases without a call of a public function say nothing here
        return [o for o in (r if isinstance(r, list) else [r])
                if o is not None and (o.obls or o.reason
                                      != 'no postcondition was reached')]


for _p in ('01', '02', '03', '04', '05', '06', '07', '08', '09', '10', '11',
           '12', '13', '14', '15', '17', '18', '20', '21'):
    _m = importlib.import_module(f'contracts.p{_p}')
    for _c in _m.R.contracts:
        if _c.functions and not _c.thorough_only and not any(
                x in _c.name for x in LEMMAS):
            _frame(f'P{_p}', _c)
