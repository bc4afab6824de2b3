"""Stub of ortools.linear_solver.pywraplp: records the model it is given.

Solve() asks the harness (`_ENV.mp_solve`) for the outcome.
"""

_INF = float("inf")


def _const(x):
    return isinstance(x, (int, float)) or not hasattr(x, "_lin")


class _Expr:
    def __init__(self, coefs, const):
        self.coefs = coefs
        self.const = const

    def _lin(self):
        return self.coefs, self.const

    def __add__(self, o):
        return _add(self, o, 1)

    def __radd__(self, o):
        return _add(self, o, 1)

    def __sub__(self, o):
        return _add(self, o, -1)

    def __rsub__(self, o):
        return _add(_scale(self, -1), o, 1)

    def __mul__(self, k):
        return _scale(self, k)

    def __rmul__(self, k):
        return _scale(self, k)

    def __truediv__(self, k):
        return _scale(self, 1 / k)

    def __neg__(self):
        return _scale(self, -1)

    def __le__(self, o):
        return _LinCon(_add(self, o, -1), -_INF, 0)

    def __ge__(self, o):
        return _LinCon(_add(self, o, -1), 0, _INF)

    def __eq__(self, o):
        return _LinCon(_add(self, o, -1), 0, 0)

    def __hash__(self):
        return id(self)

    def __getattr__(self, name):
        return _ENV.missing("linear expression", name)

    @staticmethod
    def __vm_merge__(c, a, b):
        return _ENV.merge_linear(c, a, b, _Expr, Variable)


class _LinCon:
    def __init__(self, expr, lb, ub):
        self.expr = expr
        self.lb = lb
        self.ub = ub


def _add(a, b, s):
    c, k = a._lin()
    coefs = dict(c)
    if _const(b):
        return _Expr(coefs, k + s * b)
    c2, k2 = b._lin()
    for v in c2:
        coefs[v] = coefs[v] + s * c2[v] if v in coefs else s * c2[v]
    return _Expr(coefs, k + s * k2)


def _scale(a, f):
    c, k = a._lin()
    return _Expr({v: f * c[v] for v in c}, f * k)


class Variable(_Expr):
    def __init__(self, solver, idx, lb, ub, integer, name):
        self._solver = solver
        self._index = idx
        self._lb = lb
        self._ub = ub
        self._integer = integer
        self._name = name
        self._value = 0
        self._rc = 0

    def _lin(self):
        return {self._index: 1}, 0

    def index(self):
        return self._index

    def name(self):
        return self._name

    def lb(self):
        return self._lb

    def ub(self):
        return self._ub

    Lb = lb
    Ub = ub

    def integer(self):
        return self._integer

    Integer = integer

    def SetInteger(self, b):
        self._integer = b

    def SetBounds(self, lb, ub):
        self._lb = lb
        self._ub = ub

    def SetLb(self, lb):
        self._lb = lb

    def SetUb(self, ub):
        self._ub = ub

    def solution_value(self):
        return self._value

    SolutionValue = solution_value

    def reduced_cost(self):
        return self._rc

    ReducedCost = reduced_cost

    def basis_status(self):
        return _ENV.unsupported("basis_status")

    def SetBranchingPriority(self, p):
        return None


class Constraint:
    def __getattr__(self, name):
        return _ENV.missing("Constraint", name)

    def __init__(self, solver, idx, lb, ub, name):
        self._solver = solver
        self._index = idx
        self._lb = lb
        self._ub = ub
        self._name = name
        self._coefs = {}
        self._dual = 0

    def index(self):
        return self._index

    def name(self):
        return self._name

    def lb(self):
        return self._lb

    def ub(self):
        return self._ub

    Lb = lb
    Ub = ub

    def SetBounds(self, lb, ub):
        self._lb = lb
        self._ub = ub

    def SetLb(self, lb):
        self._lb = lb

    def SetUb(self, ub):
        self._ub = ub

    def SetCoefficient(self, var, coef):
        assert var._solver is self._solver, "variable of another solver"
        self._coefs[var._index] = coef

    def GetCoefficient(self, var):
        return self._coefs.get(var._index, 0)

    def Clear(self):
        self._coefs = {}

    def dual_value(self):
        return self._dual

    DualValue = dual_value

    def basis_status(self):
        return _ENV.unsupported("basis_status")

    def set_is_lazy(self, b):
        return None


class Objective:
    def __getattr__(self, name):
        return _ENV.missing("Objective", name)

    def __init__(self, solver):
        self._solver = solver
        self._coefs = {}
        self._offset = 0
        self._maximize = False
        self._value = 0
        self._bound = 0

    def SetCoefficient(self, var, coef):
        assert var._solver is self._solver, "variable of another solver"
        self._coefs[var._index] = coef

    def GetCoefficient(self, var):
        return self._coefs.get(var._index, 0)

    def SetOffset(self, v):
        self._offset = v

    def AddOffset(self, v):
        self._offset = self._offset + v

    def Offset(self):
        return self._offset

    offset = Offset

    def SetMinimization(self):
        self._maximize = False

    def SetMaximization(self):
        self._maximize = True

    def SetOptimizationDirection(self, maximize):
        self._maximize = maximize

    def minimization(self):
        return not self._maximize

    def maximization(self):
        return self._maximize

    def Clear(self):
        self._coefs = {}
        self._offset = 0
        self._maximize = False

    def Value(self):
        return self._value

    def BestBound(self):
        return self._bound


class MPSolverParameters:
    def __getattr__(self, name):
        return _ENV.missing("MPSolverParameters", name)

    RELATIVE_MIP_GAP = 0
    PRIMAL_TOLERANCE = 1
    DUAL_TOLERANCE = 2
    PRESOLVE = 1000
    LP_ALGORITHM = 1001
    INCREMENTALITY = 1002
    SCALING = 1003
    PRESOLVE_OFF = 0
    PRESOLVE_ON = 1
    DUAL = 10
    PRIMAL = 11
    BARRIER = 12
    INCREMENTALITY_OFF = 0
    INCREMENTALITY_ON = 1
    SCALING_OFF = 0
    SCALING_ON = 1

    def __init__(self):
        self._int = {}
        self._double = {}

    def SetIntegerParam(self, p, v):
        self._int[p] = v

    def SetDoubleParam(self, p, v):
        self._double[p] = v

    def GetIntegerParam(self, p):
        return self._int.get(p, -1)

    def GetDoubleParam(self, p):
        return self._double.get(p, -1.0)


class Solver:
    def __getattr__(self, name):
        return _ENV.missing("Solver", name)

    OPTIMAL = 0
    FEASIBLE = 1
    INFEASIBLE = 2
    UNBOUNDED = 3
    ABNORMAL = 4
    MODEL_INVALID = 5
    NOT_SOLVED = 6

    CLP_LINEAR_PROGRAMMING = 0
    GLOP_LINEAR_PROGRAMMING = 2
    CBC_MIXED_INTEGER_PROGRAMMING = 5
    SCIP_MIXED_INTEGER_PROGRAMMING = 3
    SAT_INTEGER_PROGRAMMING = 14

    def __init__(self, name, kind=None):
        self._name = name if kind is None else kind
        self._vars = []
        self._cons = []
        self._obj = Objective(self)
        self._nsolve = 0
        self._params = None
        self._threads = None
        self._time_limit = None
        self._status = 6
        self._extracted = False

    @staticmethod
    def CreateSolver(name):
        return Solver(name)

    @staticmethod
    def Infinity():
        return _INF

    @staticmethod
    def infinity():
        return _INF

    def SetNumThreads(self, n):
        self._threads = n
        return True

    def SetTimeLimit(self, ms):
        self._time_limit = ms

    set_time_limit = SetTimeLimit

    def SetSolverSpecificParametersAsString(self, s):
        return True

    def EnableOutput(self):
        return None

    def SuppressOutput(self):
        return None

    def SetHint(self, a, b):
        return None

    def Var(self, lb, ub, integer, name):
        v = Variable(self, len(self._vars), lb, ub, integer, name or "auto_v_%09d" % len(self._vars))
        self._vars.append(v)
        return v

    def IntVar(self, lb, ub, name):
        return self.Var(lb, ub, True, name)

    def NumVar(self, lb, ub, name):
        return self.Var(lb, ub, False, name)

    def BoolVar(self, name):
        return self.Var(0, 1, True, name)

    def Constraint(self, *args):
        lb = -_INF
        ub = _INF
        name = ""
        if len(args) == 1:
            name = args[0]
        elif len(args) == 2:
            lb, ub = args
        elif len(args) == 3:
            lb, ub, name = args
        c = Constraint(self, len(self._cons), lb, ub, name or "auto_c_%09d" % len(self._cons))
        self._cons.append(c)
        return c

    RowConstraint = Constraint

    def Add(self, con, name=""):
        e = con.expr
        coefs, const = e._lin()
        c = self.Constraint(con.lb - const, con.ub - const, name)
        c._coefs = dict(coefs)
        return c

    @staticmethod
    def Sum(exprs):
        r = _Expr({}, 0)
        for e in exprs:
            r = r + e
        return r

    def Maximize(self, expr):
        self._obj.Clear()
        self._obj._maximize = True
        self._set(expr)

    def Minimize(self, expr):
        self._obj.Clear()
        self._set(expr)

    def _set(self, expr):
        if _const(expr):
            self._obj.SetOffset(expr)
            return
        coefs, const = expr._lin()
        self._obj._coefs = dict(coefs)
        self._obj.SetOffset(const)

    def Objective(self):
        return self._obj

    def variable(self, i):
        return self._vars[i]

    def constraint(self, i):
        return self._cons[i]

    def variables(self):
        return list(self._vars)

    def constraints(self):
        return list(self._cons)

    def NumVariables(self):
        return len(self._vars)

    def NumConstraints(self):
        return len(self._cons)

    def LookupVariable(self, name):
        for v in self._vars:
            if v._name == name:
                return v
        return None

    def LookupConstraint(self, name):
        for c in self._cons:
            if c._name == name:
                return c
        return None

    def Clear(self):
        self._vars = []
        self._cons = []
        self._obj = Objective(self)

    def wall_time(self):
        return 1

    WallTime = wall_time

    def iterations(self):
        return 0

    def nodes(self):
        return 0

    def ExportModelToProto(self, proto):
        proto._set(self)

    def LoadModelFromProto(self, proto):
        # as in OR-Tools, the names are not taken over
        proto._load(self, False)
        return 0

    def LoadModelFromProtoWithUniqueNamesOrDie(self, proto):
        proto._load(self, True)
        return 0

    def ExportModelAsLpFormat(self, obfuscated=False):
        return ""

    def Solve(self, params=None):
        self._params = params
        self._nsolve = self._nsolve + 1
        status, values, duals, objective = _ENV.mp_solve(self)
        self._status = status
        for i in range(len(self._vars)):
            self._vars[i]._value = values[i]
        for i in range(len(self._cons)):
            self._cons[i]._dual = duals[i]
        self._obj._value = objective
        self._obj._bound = objective
        return status

    def VerifySolution(self, tol, log):
        return True

    def NextSolution(self):
        return False

    def InterruptSolve(self):
        return True


def __getattr__(name):
    return _ENV.missing("pywraplp", name)
