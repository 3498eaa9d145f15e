"""Registry: property id -> simulation that decides it."""
import importlib

WHERE = {'C01': 'graphs', 'C02': 'graphs', 'C03': 'failures', 'C04': 'rejects', 'C05': 'interrupts',
         'C06': 'dogleg', 'C07': 'dogleg', 'C08': 'aborts', 'C09': 'solvers', 'C10': 'copies',
         'C11': 'threads', 'C12': 'environ', 'C13': 'randoms', 'C14': 'restructure', 'C15': 'notify',
         'C16': 'release'}


def get(pid):
    m = importlib.import_module('sim.props.' + WHERE[pid])
    return getattr(m, pid)()
