"""Stub of ortools.linear_solver.linear_solver_pb2."""


class MPModelProto:
    def __getattr__(self, name):
        return _ENV.missing("MPModelProto", name)

    def __init__(self):
        self._vars = []
        self._cons = []
        self._obj = {}
        self._offset = 0
        self._maximize = False

    def _set(self, solver):
        self._vars = [(v._lb, v._ub, v._integer, v._name) for v in solver._vars]
        self._cons = [(c._lb, c._ub, c._name, dict(c._coefs)) for c in solver._cons]
        self._obj = dict(solver._obj._coefs)
        self._offset = solver._obj._offset
        self._maximize = solver._obj._maximize

    def _load(self, solver, names=False):
        solver._vars = []
        solver._cons = []
        solver._obj.Clear()
        for lb, ub, integer, name in self._vars:
            solver.Var(lb, ub, integer, name if names else "")
        for lb, ub, name, coefs in self._cons:
            c = solver.Constraint(lb, ub, name if names else "")
            c._coefs = dict(coefs)
        solver._obj._coefs = dict(self._obj)
        solver._obj._offset = self._offset
        solver._obj._maximize = self._maximize

    @property
    def variable(self):
        return [_Var(self, i) for i in range(len(self._vars))]

    @property
    def constraint(self):
        return [_Con(self, i) for i in range(len(self._cons))]

    @property
    def maximize(self):
        return self._maximize

    @property
    def objective_offset(self):
        return self._offset

    def CopyFrom(self, other):
        self._vars = other._vars
        self._cons = other._cons
        self._obj = other._obj
        self._offset = other._offset
        self._maximize = other._maximize


class _Field:
    """one variable or constraint of the proto; fields are read and written in place"""

    def __init__(self, proto, i):
        self.__dict__["_p"] = proto
        self.__dict__["_i"] = i

    def __getattr__(self, name):
        if name not in self._names:
            return _ENV.missing("MPModelProto field", name)
        return getattr(self._p, self._list)[self._i][self._names[name]]

    def __setattr__(self, name, value):
        if name not in self._names:
            return _ENV.missing("MPModelProto field", name)
        rows = getattr(self._p, self._list)
        row = list(rows[self._i])
        row[self._names[name]] = value
        rows[self._i] = tuple(row)


class _Var(_Field):
    _list = "_vars"
    _names = {"lower_bound": 0, "upper_bound": 1, "is_integer": 2, "name": 3}


class _Con(_Field):
    _list = "_cons"
    _names = {"lower_bound": 0, "upper_bound": 1, "name": 2}


def __getattr__(name):
    return _ENV.missing("linear_solver_pb2", name)
