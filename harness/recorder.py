"""Records every point at which nlopt evaluates an objective. Import before compas_cem."""
import nlopt
import numpy as np

LOG = []
ERRORS = []
SCRIPT = []      # points to evaluate instead of a search
END = []         # how the search ends instead: "failure", or a result code
CODES = []       # result codes of the searches
_Opt = nlopt.opt


class Outcome(object):
    def __init__(self, x, f, evals, code):
        self.x, self.f, self.evals, self.code = x, f, evals, code


class RecordingOpt(_Opt):
    """An nlopt optimizer that remembers the evaluations of its objective."""

    outcome = None

    def set_min_objective(self, f):
        def g(x, grad):
            point = [float(v) for v in x]
            try:
                value = f(x, grad)
            except Exception as e:
                ERRORS.append(e)
                raise
            LOG.append((point, float(value), [float(v) for v in grad]))
            return value
        self.objective = g
        return _Opt.set_min_objective(self, g)

    def optimize(self, x):
        try:
            return self.search(x)
        finally:
            CODES.append(int(self.last_optimize_result()))

    def search(self, x):
        if not SCRIPT:
            first = len(LOG)
            found = _Opt.optimize(self, x)
            return self.end(LOG[first:]) if END else found
        # any algorithm at all: the evaluations of the script, in one and the same memory as in nlopt
        point, grad = np.array(x, dtype=float), np.zeros(len(x))
        for step in SCRIPT:
            point.flags.writeable = True
            point[:] = [a + b for a, b in zip(x, step)]
            point.flags.writeable = False
            grad[:] = 0.0
            self.objective(point, grad)
        return self.end(LOG[-len(SCRIPT):])

    def end(self, log):
        """The lowest of the values is the optimum, unless the search fails."""
        code = END[0] if END else nlopt.SUCCESS
        x, f, _ = min(log, key=lambda entry: entry[1])
        self.outcome = Outcome(x, f, len(log), -1 if code == "failure" else code)
        if code == "failure":
            raise RuntimeError("nlopt failure")
        if code == nlopt.ROUNDOFF_LIMITED:
            raise nlopt.RoundoffLimited()
        return np.array(x)

    def last_optimum_value(self):
        return self.outcome.f if self.outcome else _Opt.last_optimum_value(self)

    def get_numevals(self):
        return self.outcome.evals if self.outcome else _Opt.get_numevals(self)

    def last_optimize_result(self):
        return self.outcome.code if self.outcome else _Opt.last_optimize_result(self)


nlopt.opt = RecordingOpt


def clear():
    del LOG[:]
    del ERRORS[:]
    del SCRIPT[:]
    del END[:]
    del CODES[:]
