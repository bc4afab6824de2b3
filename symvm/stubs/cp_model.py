"""Stub of ortools.sat.python.cp_model: records the model it is given.

CpSolver.Solve asks the harness (`_ENV.cp_solve`) for status, the sequence of
solutions the callback sees, and the final solution.
"""

UNKNOWN = 0
MODEL_INVALID = 1
FEASIBLE = 2
INFEASIBLE = 3
OPTIMAL = 4

INT_MIN = -9223372036854775808
INT_MAX = 9223372036854775807

_INF = float("inf")


def _const(x):
    return isinstance(x, (int, float)) or not hasattr(x, "_lin")


def _int(x):
    """CP-SAT accepts integers only in linear constraints."""
    if isinstance(x, float) and not _ENV.is_whole(x):
        raise TypeError("Linear constraints only accept integer values and coefficients")
    return x


def _add(a, b, s):
    c, k = a._lin()
    coefs = dict(c)
    if _const(b):
        return _Lin(coefs, k + s * b)
    c2, k2 = b._lin()
    for v in c2:
        coefs[v] = coefs[v] + s * c2[v] if v in coefs else s * c2[v]
    return _Lin(coefs, k + s * k2)


def _scale(a, f):
    c, k = a._lin()
    return _Lin({v: f * c[v] for v in c}, f * k)


class LinearExpr:
    def __getattr__(self, name):
        return _ENV.missing("LinearExpr", name)

    @classmethod
    def Sum(cls, exprs, *more):
        if more:
            exprs = [exprs] + list(more)
        r = _Lin({}, 0)
        for e in exprs:
            r = _add(r, e, 1)
        return r

    sum = Sum

    @classmethod
    def WeightedSum(cls, exprs, coefs):
        if len(exprs) != len(coefs):
            raise ValueError("In the LinearExpr.weighted_sum method, the expression array and the "
                             "coefficient array must have the same length.")
        r = _Lin({}, 0)
        for e, c in zip(exprs, coefs):
            if _const(e):
                r = r + e * c
            else:
                r = _add(r, _scale(e, c), 1)
        return r

    weighted_sum = WeightedSum
    ScalProd = WeightedSum

    @classmethod
    def Term(cls, expr, coef):
        return _scale(expr, coef)

    term = Term

    @classmethod
    def Affine(cls, expr, coef, offset):
        return _add(_scale(expr, coef), offset, 1)

    affine = Affine

    def __add__(self, o):
        return _add(self, o, 1)

    def __radd__(self, o):
        return _add(self, o, 1)

    def __sub__(self, o):
        return _add(self, o, -1)

    def __rsub__(self, o):
        return _add(_scale(self, -1), o, 1)

    def __mul__(self, k):
        return _scale(self, k)

    def __rmul__(self, k):
        return _scale(self, k)

    def __neg__(self):
        return _scale(self, -1)

    def __le__(self, o):
        return BoundedLinearExpression(_add(self, o, -1), -_INF, 0)

    def __ge__(self, o):
        return BoundedLinearExpression(_add(self, o, -1), 0, _INF)

    def __lt__(self, o):
        return BoundedLinearExpression(_add(self, o, -1), -_INF, -1)

    def __gt__(self, o):
        return BoundedLinearExpression(_add(self, o, -1), 1, _INF)

    def __eq__(self, o):
        if o is None:
            return False
        return BoundedLinearExpression(_add(self, o, -1), 0, 0)

    def __ne__(self, o):
        if o is None:
            return True
        return _ENV.unsupported("CP-SAT != constraint")

    def __hash__(self):
        return id(self)


class _Lin(LinearExpr):
    def __init__(self, coefs, const):
        self.coefs = coefs
        self.const = const

    def _lin(self):
        return self.coefs, self.const

    @staticmethod
    def __vm_merge__(c, a, b):
        return _ENV.merge_linear(c, a, b, _Lin, IntVar)


class BoundedLinearExpression:
    def __getattr__(self, name):
        return _ENV.missing("BoundedLinearExpression", name)

    def __init__(self, expr, lb, ub):
        self.expr = expr
        self.lb = lb
        self.ub = ub

    def __bool__(self):
        # comparing two variables for identity, as dictionary lookups do
        if self.lb == 0 and self.ub == 0:
            c, k = self.expr._lin()
            return len([v for v in c if c[v] != 0]) == 0 and k == 0
        raise NotImplementedError("Evaluating a BoundedLinearExpression as a Boolean value is not supported.")


class IntVar(LinearExpr):
    def __init__(self, model, idx, lb, ub, name):
        self._model = model
        self._index = idx
        self._lb = lb
        self._ub = ub
        self._name = name
        self._neg = None

    def _lin(self):
        return {self._index: 1}, 0

    def Index(self):
        return self._index

    index = Index

    def Name(self):
        return self._name

    name = Name

    def Not(self):
        if self._neg is None:
            self._neg = _NotVar(self)
        return self._neg

    negated = Not

    def __invert__(self):
        return self.Not()


class _NotVar(LinearExpr):
    def __init__(self, var):
        self._var = var

    def _lin(self):
        return {self._var._index: -1}, 1

    def Index(self):
        return -self._var._index - 1

    def Not(self):
        return self._var

    negated = Not

    def __invert__(self):
        return self._var


class Constraint:
    def __getattr__(self, name):
        return _ENV.missing("Constraint", name)

    """kind: linear, and, or, exactly_one, at_most_one, xor"""

    def __init__(self, kind, lits, coefs=None, lb=None, ub=None):
        self.kind = kind
        self.lits = lits
        self.coefs = coefs
        self.lb = lb
        self.ub = ub
        self.enforce = []

    def OnlyEnforceIf(self, *lits):
        for l in lits:
            if isinstance(l, (LinearExpr, int)):
                self.enforce.append(l)
            else:
                self.enforce.extend(l)
        return self

    only_enforce_if = OnlyEnforceIf

    def WithName(self, name):
        return self

    with_name = WithName

    def Index(self):
        return 0


def _lits(args):
    out = []
    for a in args:
        if isinstance(a, (LinearExpr, int)):
            out.append(a)
        else:
            out.extend(a)
    return out


class CpModel:
    def __getattr__(self, name):
        return _ENV.missing("CpModel", name)

    def __init__(self):
        self._vars = []
        self._cons = []
        self._obj = None
        self._obj_const = 0
        self._maximize = False
        self._hints = []

    def NewIntVar(self, lb, ub, name):
        v = IntVar(self, len(self._vars), lb, ub, name)
        self._vars.append(v)
        return v

    new_int_var = NewIntVar

    def NewBoolVar(self, name):
        return self.NewIntVar(0, 1, name)

    new_bool_var = NewBoolVar

    def NewConstant(self, c):
        return self.NewIntVar(c, c, "")

    new_constant = NewConstant

    def _add(self, c):
        self._cons.append(c)
        return c

    def Add(self, ct):
        if isinstance(ct, bool):
            return self._add(Constraint("linear", [], {}, 0 if ct else 1, 0 if ct else 1))
        if not isinstance(ct, BoundedLinearExpression):
            raise TypeError("not supported: CpModel.Add(%s)" % (ct,))
        coefs, const = ct.expr._lin()
        for v in coefs:
            _int(coefs[v])
        _int(const)
        return self._add(Constraint("linear", [], coefs, ct.lb - const, ct.ub - const))

    add = Add

    def AddLinearConstraint(self, expr, lb, ub):
        coefs, const = expr._lin()
        for v in coefs:
            _int(coefs[v])
        return self._add(Constraint("linear", [], coefs, lb - const, ub - const))

    add_linear_constraint = AddLinearConstraint

    def AddBoolAnd(self, *lits):
        return self._add(Constraint("and", _lits(lits)))

    add_bool_and = AddBoolAnd

    def AddBoolOr(self, *lits):
        return self._add(Constraint("or", _lits(lits)))

    add_bool_or = AddBoolOr
    AddAtLeastOne = AddBoolOr
    add_at_least_one = AddBoolOr

    def AddBoolXOr(self, *lits):
        return self._add(Constraint("xor", _lits(lits)))

    add_bool_xor = AddBoolXOr

    def AddExactlyOne(self, *lits):
        return self._add(Constraint("exactly_one", _lits(lits)))

    add_exactly_one = AddExactlyOne

    def AddAtMostOne(self, *lits):
        return self._add(Constraint("at_most_one", _lits(lits)))

    add_at_most_one = AddAtMostOne

    def AddImplication(self, a, b):
        c = Constraint("or", [b])
        c.enforce = [a]
        return self._add(c)

    add_implication = AddImplication

    def Maximize(self, obj):
        self._set_obj(obj, True)

    maximize = Maximize

    def Minimize(self, obj):
        self._set_obj(obj, False)

    minimize = Minimize

    def _set_obj(self, obj, maximize):
        self._maximize = maximize
        if _const(obj):
            self._obj = {}
            self._obj_const = obj
            return
        coefs, const = obj._lin()
        self._obj = dict(coefs)
        self._obj_const = const

    def HasObjective(self):
        return self._obj is not None

    has_objective = HasObjective

    def ClearObjective(self):
        self._obj = None

    def AddHint(self, var, value):
        self._hints.append((var, value))

    add_hint = AddHint

    def ClearHints(self):
        self._hints = []

    clear_hints = ClearHints

    def Validate(self):
        return ""

    def ModelStats(self):
        return ""


class _Params:
    def __getattr__(self, name):
        return _ENV.sat_default(name)

    def __init__(self):
        self._touched = True


class CpSolver:
    def __getattr__(self, name):
        return _ENV.missing("CpSolver", name)

    def __init__(self):
        self.parameters = _Params()
        self.log_callback = None
        self._nsolve = 0
        self._model = None
        self._callback = None
        self._values = None
        self._objective = 0
        self._bound = 0
        self._wall = 0
        self._status = None

    def Solve(self, model, solution_callback=None):
        self._nsolve = self._nsolve + 1
        self._model = model
        self._callback = solution_callback
        status, solutions, values, objective, bound, wall = _ENV.cp_solve(self, model, solution_callback)
        self._status = status
        self._objective = objective
        self._bound = bound
        self._wall = wall
        if solution_callback is not None:
            for vals, obj, bnd in solutions:
                solution_callback._values = vals
                solution_callback._objective = obj
                solution_callback._bound = bnd
                solution_callback.on_solution_callback()
        self._values = values
        return status

    solve = Solve

    def SolveWithSolutionCallback(self, model, callback):
        return self.Solve(model, callback)

    def Value(self, expr):
        if self._values is None:
            raise RuntimeError("Solve() has not been called.")
        return _value(expr, self._values)

    value = Value

    def BooleanValue(self, lit):
        return _value(lit, self._values) != 0

    boolean_value = BooleanValue

    def ObjectiveValue(self):
        return self._objective

    @property
    def objective_value(self):
        return self._objective

    def BestObjectiveBound(self):
        return self._bound

    @property
    def best_objective_bound(self):
        return self._bound

    def WallTime(self):
        return self._wall

    @property
    def wall_time(self):
        return self._wall

    def UserTime(self):
        return self._wall

    def StatusName(self, status=None):
        return ""

    status_name = StatusName

    def NumBranches(self):
        return 0

    def NumConflicts(self):
        return 0

    def StopSearch(self):
        return None

    def ResponseStats(self):
        return ""


def _value(expr, values):
    if _const(expr):
        return expr
    coefs, const = expr._lin()
    r = const
    for v in coefs:
        r = r + coefs[v] * values[v]
    return r


class CpSolverSolutionCallback:
    def __getattr__(self, name):
        return _ENV.missing("CpSolverSolutionCallback", name)

    def __init__(self):
        self._values = None
        self._objective = 0
        self._bound = 0
        self._stopped = False

    def OnSolutionCallback(self):
        return self.on_solution_callback()

    def on_solution_callback(self):
        return None

    def Value(self, expr):
        if self._values is None:
            raise RuntimeError("Solve() has not been called.")
        return _value(expr, self._values)

    value = Value

    def BooleanValue(self, lit):
        return _value(lit, self._values) != 0

    boolean_value = BooleanValue

    def ObjectiveValue(self):
        return self._objective

    @property
    def objective_value(self):
        return self._objective

    def BestObjectiveBound(self):
        return self._bound

    @property
    def best_objective_bound(self):
        return self._bound

    def StopSearch(self):
        self._stopped = True

    stop_search = StopSearch

    def WallTime(self):
        return 0

    @property
    def wall_time(self):
        return 0

    def NumBranches(self):
        return 0

    def NumConflicts(self):
        return 0


def __getattr__(name):
    return _ENV.missing("cp_model", name)
