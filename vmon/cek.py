"""A CEK machine for UPLC used as the observation platform.

Same semantics as the machine of the ``uplc`` package (its builtin implementations are used
as they are; the two machines are compared with each other during the checks), but with
statically resolved variables, an explicit step limit instead of a cost model, and error
messages that do not render whole values.
"""
import uplc.ast as ua
from uplc.ast import BuiltInFunEvalMap, BuiltInFunForceMap, BuiltInFun

VAR, CONST, LAM, DELAY, FORCE, APP, BUILTIN, ERROR, CONSTR, CASE, FREE = range(11)
TRACE = BuiltInFun.Trace


class Clo(ua.AST):
    __slots__ = ("env", "body")

    def __init__(self, env, body):
        self.env = env
        self.body = body


class Susp(ua.AST):
    __slots__ = ("env", "body")

    def __init__(self, env, body):
        self.env = env
        self.body = body


class Blt(ua.AST):
    __slots__ = ("fun", "forces", "args", "need", "arity", "f")

    def __init__(self, fun, forces, args, need, arity, f):
        self.fun = fun
        self.forces = forces
        self.args = args
        self.need = need
        self.arity = arity
        self.f = f


class Con(ua.AST):
    __slots__ = ("tag", "fields")

    def __init__(self, tag, fields):
        self.tag = tag
        self.fields = fields


class OutOfSteps(Exception):
    pass


_ORDER = {}


def _free(term, memo):
    """free variable names of a term (ordered)"""
    k = id(term)
    if k in memo:
        return memo[k]
    if isinstance(term, ua.Variable):
        r = frozenset((term.name,))
    elif isinstance(term, ua.BoundStateLambda):
        r = _free(term.term, memo) - {term.var_name}
    elif isinstance(term, ua.BoundStateDelay):
        r = _free(term.term, memo)
    elif isinstance(term, ua.Force):
        r = _free(term.term, memo)
    elif isinstance(term, ua.Apply):
        r = _free(term.f, memo) | _free(term.x, memo)
    elif isinstance(term, ua.Constr):
        r = frozenset().union(*(_free(x, memo) for x in term.fields)) if term.fields else frozenset()
    elif isinstance(term, ua.Case):
        r = _free(term.scrutinee, memo).union(*(_free(x, memo) for x in term.branches))
    else:
        r = frozenset()
    memo[k] = r
    return r


def _comp(term, scope, memo):
    """scope: dict name -> slot in the environment tuple"""
    if isinstance(term, ua.Variable):
        if term.name not in scope:
            return (FREE, term.name)
        return (VAR, scope[term.name])
    if isinstance(term, ua.Apply):
        return (APP, _comp(term.f, scope, memo), _comp(term.x, scope, memo))
    if isinstance(term, ua.BoundStateLambda):
        fv = [v for v in sorted(_free(term, memo)) if v in scope]
        inner = {v: i for i, v in enumerate(fv)}
        inner[term.var_name] = len(fv)
        return (LAM, tuple(scope[v] for v in fv), _comp(term.term, inner, memo))
    if isinstance(term, ua.BoundStateDelay):
        fv = [v for v in sorted(_free(term, memo)) if v in scope]
        inner = {v: i for i, v in enumerate(fv)}
        return (DELAY, tuple(scope[v] for v in fv), _comp(term.term, inner, memo))
    if isinstance(term, ua.Force):
        return (FORCE, _comp(term.term, scope, memo))
    if isinstance(term, ua.Constant):
        return (CONST, term)
    if isinstance(term, ua.ForcedBuiltIn):
        f = BuiltInFunEvalMap[term.builtin]
        assert not term.bound_arguments
        return (
            BUILTIN,
            Blt(
                term.builtin,
                term.applied_forces,
                (),
                BuiltInFunForceMap[term.builtin],
                f.__code__.co_argcount,
                f,
            ),
        )
    if isinstance(term, ua.Error):
        return (ERROR,)
    if isinstance(term, ua.Constr):
        return (CONSTR, term.tag, tuple(_comp(x, scope, memo) for x in term.fields))
    if isinstance(term, ua.Case):
        return (
            CASE,
            _comp(term.scrutinee, scope, memo),
            tuple(_comp(x, scope, memo) for x in term.branches),
        )
    raise NotImplementedError(f"term {type(term)}")


def prepare(term):
    return _comp(term, {}, {})


def _deep(f, *a):
    import sys

    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 60000))
    try:
        return f(*a)
    finally:
        sys.setrecursionlimit(old)


K_ARG, K_FUN, K_FORCE, K_CONSTR, K_CASE, K_VAL = range(6)


class MachineError(Exception):
    pass


def run(code, args, max_steps):
    """evaluate prepared term applied to constant args; -> (value | None, logs, error, steps)"""
    logs = []
    for a in args:
        code = (APP, code, (CONST, a))
    stack = []
    push = stack.append
    pop = stack.pop
    env = ()
    node = code
    steps = 0
    try:
        while True:
            # compute node in env
            steps += 1
            if steps > max_steps:
                raise OutOfSteps()
            op = node[0]
            if op == VAR:
                value = env[node[1]]
            elif op == APP:
                push((K_ARG, env, node[2]))
                node = node[1]
                continue
            elif op == LAM:
                value = Clo(tuple([env[i] for i in node[1]]), node[2])
            elif op == CONST:
                value = node[1]
            elif op == BUILTIN:
                value = node[1]
            elif op == FORCE:
                push((K_FORCE,))
                node = node[1]
                continue
            elif op == DELAY:
                value = Susp(tuple([env[i] for i in node[1]]), node[2])
            elif op == ERROR:
                raise MachineError("Execution called Error")
            elif op == FREE:
                raise MachineError(f"unbound variable {node[1]}")
            elif op == CONSTR:
                if node[2]:
                    push((K_CONSTR, node[1], (), node[2][1:], env))
                    node = node[2][0]
                    continue
                value = Con(node[1], ())
            else:
                push((K_CASE, node[2], env))
                node = node[1]
                continue
            # return value to continuation
            while True:
                if not stack:
                    return value, logs, None, steps
                k = pop()
                kind = k[0]
                if kind == K_ARG:
                    push((K_FUN, value))
                    env = k[1]
                    node = k[2]
                    break
                if kind == K_FUN or kind == K_VAL:
                    if kind == K_FUN:
                        f = k[1]
                    else:
                        f, value = value, k[1]
                    t = type(f)
                    if t is Clo:
                        env = f.env + (value,)
                        node = f.body
                        break
                    if t is Blt:
                        if f.forces != f.need:
                            raise MachineError("builtin applied with missing forces")
                        a = f.args + (value,)
                        if len(a) == f.arity:
                            if f.fun is TRACE:
                                logs.append(a[0].value)
                            value = f.f(*a)
                        else:
                            value = Blt(f.fun, f.forces, a, f.need, f.arity, f.f)
                        steps += 1
                        continue
                    raise MachineError("applied a value that is no function")
                if kind == K_FORCE:
                    t = type(value)
                    if t is Susp:
                        env = value.env
                        node = value.body
                        break
                    if t is Blt and value.forces < value.need:
                        value = Blt(
                            value.fun, value.forces + 1, value.args, value.need, value.arity, value.f
                        )
                        continue
                    raise MachineError("forced a value that is no suspension")
                if kind == K_CONSTR:
                    _, tag, done, todo, e = k
                    done = done + (value,)
                    if todo:
                        push((K_CONSTR, tag, done, todo[1:], e))
                        env, node = e, todo[0]
                        break
                    value = Con(tag, done)
                    continue
                # K_CASE
                if type(value) is not Con or value.tag >= len(k[1]):
                    raise MachineError("bad scrutinee")
                for fv in reversed(value.fields):
                    push((K_VAL, fv))
                env, node = k[2], k[1][value.tag]
                break
    except OutOfSteps:
        raise
    except MemoryError:
        raise OutOfSteps()
    except Exception as e:
        return None, logs, f"{type(e).__name__}: {str(e)[:200]}", steps
