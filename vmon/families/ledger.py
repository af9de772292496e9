"""Ledger types, the helpers of the prelude and whole validators on realistic transactions.

helpers   every helper of the prelude, compiled and in Python, against its documentation (vmon.ledger)
paths     random typed accesses into the script context: the compiled program, Python and the
          ledger's own format have to agree on what the contract sees
contracts the example contracts on transactions built to be accepted, and on their mutations"""
import os

from vmon.core import ChainProgram, CompileFailure, NotEncodable, PyProgram, REPO, agree, config, enc, limit, TimeLimit
from vmon.diff import diff_case, rng_for
from vmon.ledger import CONSTR, FIELDS, Fails, LISTS, MAPS, N, Tx, UNIONS, attached, data, expr, locked, maybe, need, policy, spent, unlocked

TASK_LIMIT = 240
HELPERS = '''from opshin.prelude import *
def validator(op: int, ctx: ScriptContext, token: Token, addr: Address, od: OutputDatum) -> Anything:
    tx = ctx.transaction
    if op == 0:
        return all_tokens_unlocked_from_address(tx.inputs, addr, token)
    elif op == 1:
        return all_tokens_locked_at_address(tx.outputs, addr, token)
    elif op == 2:
        return all_tokens_locked_at_address_with_datum(tx.outputs, addr, token, od)
    elif op == 3:
        return [1 if token_present_in_inputs(token, tx.inputs) else 0, 1 if token_present_in_inputs(token, tx.reference_inputs) else 0]
    elif op == 4:
        return own_address(token.policy_id)
    elif op == 5:
        return own_datum(ctx)
    elif op == 6:
        return own_datum_unsafe(ctx)
    elif op == 7:
        return [resolve_datum(o, tx) for o in tx.outputs]
    elif op == 8:
        return [resolve_datum_unsafe(o, tx) for o in tx.outputs]
    purpose = ctx.purpose
    assert isinstance(purpose, Spending)
    if op == 9:
        return resolve_spent_utxo(tx.inputs, purpose)
    elif op == 10:
        return own_spent_utxo(tx.inputs, purpose)
    elif op == 11:
        return own_policy_id(own_spent_utxo(tx.inputs, purpose))
    return own_address(own_policy_id(resolve_spent_utxo(tx.inputs, purpose)))
'''
NOPS = 13


def expected(op, ctx, token, addr, od):
    tx = ctx.transaction
    p = ctx.purpose
    return [
        lambda: unlocked(tx.inputs, addr, token),
        lambda: locked(tx.outputs, addr, token),
        lambda: locked(tx.outputs, addr, token, od),
        lambda: [int(any(unlocked([i], i.resolved.address, token) > 0 for i in ins)) for ins in (tx.inputs, tx.reference_inputs)],
        lambda: N("Address", N("ScriptCredential", token.policy_id), N("NoStakingCredential")),
        lambda: maybe(attached(spent(tx.inputs, p), tx)),
        lambda: need(attached(spent(tx.inputs, p), tx)),
        lambda: [maybe(attached(o, tx)) for o in tx.outputs],
        lambda: [need(attached(o, tx)) for o in tx.outputs],
        lambda: spent(tx.inputs, p),
        lambda: spent(tx.inputs, p),
        lambda: policy(spent(tx.inputs, p)),
        lambda: N("Address", N("ScriptCredential", policy(spent(tx.inputs, p))), N("NoStakingCredential")),
    ][op]()


def tasks(tier, seed, helpers=8, paths=14, contracts=3, thorough=10):
    m = thorough if tier == "thorough" else 1
    out = [{"mode": "helpers", "i": i, "n": 40} for i in range(helpers * m)]
    out += [{"mode": "paths", "i": i} for i in range(paths * m)]
    out += [{"mode": "contracts", "i": i, "name": c, "n": 14} for i in range(contracts * m) for c in BUILDERS]
    return out


def observe(rep, src, cp, py, model, want, label, level, check_logs=False):
    """run one call both ways; want: model value, Fails, or None if only the two have to agree"""
    text = "[" + ", ".join(expr(a) for a in model) + "]"
    canon = [data(a) for a in model]
    args = eval(text, dict(py.mod.__dict__))
    got = [enc(a) for a in args]
    rep.expect(got == canon, "a ledger value is not encoded as the ledger encodes it", args=text[:1500], ledger=str(canon)[:1500], encoded=str(got)[:1500])
    if got != canon:
        return None
    try:
        with limit(30):
            po = py.run(args)
            co = cp.run(canon)
    except (TimeLimit, NotEncodable):
        rep.event("inconclusive")
        return None
    rep.event("evaluations")
    rep.event("outcome_" + po.status)
    rep.sig(label, canon, level)
    d = dict(label=label, level=level, args=text[:4000], python=po.brief()[:600], chain=co.brief()[:600], source=src[:3000])
    rep.expect(agree(po, co, logs=check_logs), "compiled contract and Python disagree on a transaction", **d)
    if want is not None:
        w = ("err", None) if want is Fails else ("ok", data(want))
        for o, who in ((po, "Python"), (co, "the compiled contract")):
            ok = o.status == "err" if want is Fails else o.status == "ok" and o.value == w[1]
            rep.expect(ok, f"{who} does not compute what the helper documents", expected=str(w)[:600], **d)
    rep.sample(label=label, level=level, outcome=co.brief()[:160], args=text[:160])
    return po


def compiled(rep, src, level, label, fn="validator", path="<unknown>", **cfg):
    try:
        return ChainProgram(src, config(level, **cfg), fn, contract_file=path)
    except CompileFailure as e:
        rep.violation("a program over the ledger types was rejected", label=label, level=level, error=str(e)[:500], source=src[:4000])
        return None


def run_helpers(t, rep, seed):
    rng = rng_for(seed, "ledger", "helpers", t["i"])
    level = ["O0", "O2", "O1", "O3", "default"][t["i"] % 5]
    cp = compiled(rep, HELPERS, level, "helpers", expand_union_types=rng.random() < 0.3)
    if cp is None:
        return
    py = PyProgram(HELPERS)
    try:
        for j in range(t["n"]):
            g = Tx(rng)
            for op in rng.sample(range(NOPS), 4):
                ctx = g.context()
                if rng.random() < 0.5:
                    ctx = g.echo(ctx)
                used = [i.resolved for i in ctx.transaction.inputs] + ctx.transaction.outputs
                token = N("Token", rng.choice(g.policies + [b""]), rng.choice(g.names))
                vs = [(p, tn) for o in used for p, ts in o.value.items() for tn in ts]
                if vs and rng.random() < 0.7:
                    token = N("Token", *rng.choice(vs))
                addr = rng.choice([o.address for o in used]) if used and rng.random() < 0.8 else rng.choice(g.addresses)
                od = rng.choice(used).datum if used and rng.random() < 0.8 else g.datum()
                if op == 2 and used and rng.random() < 0.7:
                    o = rng.choice(ctx.transaction.outputs or used)
                    addr, od = o.address, o.datum
                    if rng.random() < 0.8:
                        token = rng.choice([N("Token", p, tn) for p, ts in o.value.items() for tn in ts] or [token])
                if ctx.purpose.name != "Spending" and ctx.transaction.inputs and rng.random() < 0.7:
                    ctx = ctx.put(purpose=N("Spending", rng.choice(ctx.transaction.inputs).out_ref))
                try:
                    want = expected(op, ctx, token, addr, od)
                except Fails:
                    want = Fails
                rep.event("helper_calls")
                rep.event("helper_fails" if want is Fails else "helper_results")
                observe(rep, HELPERS, cp, py, [op, ctx, token, addr, od], want, f"helper op {op}", level)
    finally:
        py.close()


# ---------------------------------------------------------------------------
# typed accesses


class Path:
    """statements that walk from `ctx` to some part of it; the same walk on the model"""

    def __init__(self, rng, g, ctx):
        self.r, self.g = rng, g
        self.lines, self.k = [], 0
        self.value = ctx
        self.walk("ctx", "ScriptContext", ctx, "    ", 0)

    def fresh(self):
        self.k += 1
        return f"x{self.k}"

    def stop(self, e, v, ind):
        self.value = v
        self.lines.append(f"{ind}return {e}")

    def walk(self, e, typ, v, ind, depth):
        r = self.r
        if typ in ("int", "bytes", "Data"):
            return self.stop(e, v, ind)
        if depth > 1 and r.random() < 0.15:
            return self.stop(e, v, ind)
        if typ in UNIONS:
            x = self.fresh()
            self.lines.append(f"{ind}{x} = {e}")
            others = [u for u in UNIONS[typ] if u != v.name]
            if r.random() < 0.3:
                c = r.choice(others)
                self.lines.append(f"{ind}if isinstance({x}, {c}):")
                self.lines.append(f"{ind}    return [b'wrong', {x}]")
            if r.random() < 0.25 or not FIELDS[v.name]:
                self.lines.append(f"{ind}if isinstance({x}, {v.name}):")
                self.lines.append(f"{ind}    return {x}")
                self.value = v
                return
            self.lines.append(f"{ind}if isinstance({x}, {v.name}):")
            return self.walk(x, v.name, v, ind + "    ", depth + 1)
        if typ in FIELDS:
            fs = FIELDS[typ]
            if not fs:
                return self.stop(e, v, ind)
            # prefer the fields that have content
            full = [f for f in fs if getattr(v, f[0]) not in ([], {})] or fs
            f, ft = r.choice(full if r.random() < 0.9 else fs)
            return self.walk(f"{e}.{f}", ft, getattr(v, f), ind, depth + 1)
        if typ in LISTS:
            if not v:
                return self.stop(f"len({e})", 0, ind)
            k = r.randrange(5)
            i = r.randrange(len(v))
            if k == 0:
                return self.stop(f"{e}[{i}:]", v[i:], ind)
            if k == 1:
                return self.stop(f"len({e})", len(v), ind)
            if k == 2:
                i -= len(v)
            return self.walk(f"{e}[{i}]", LISTS[typ], v[i], ind, depth + 1)
        kt, vt = MAPS[typ]
        if not v:
            return self.stop(f"len({e})", 0, ind)
        key = r.choice(list(v))
        j = list(v).index(key)
        k = r.randrange(4)
        if k == 0:
            return self.walk(f"[q for q in {e}.keys()][{j}]", kt, key, ind, depth + 1)
        if k == 1:
            return self.walk(f"[q for q in {e}.values()][{j}]", vt, v[key], ind, depth + 1)
        if k == 2:
            x = self.fresh()
            self.lines.append(f"{ind}{x} = [q[1] for q in {e}.items()][{j}]")
            return self.walk(x, vt, v[key], ind, depth + 1)
        if kt not in ("bytes", "int") or len(repr(key)) > 400:
            return self.walk(f"[q for q in {e}.values()][{j}]", vt, v[key], ind, depth + 1)
        return self.walk(f"{e}[{key!r}]", vt, v[key], ind, depth + 1)


def run_paths(t, rep, seed):
    rng = rng_for(seed, "ledger", "paths", t["i"])
    level = rng.choice(["O0", "O1", "O2", "O3"])
    g = Tx(rng)
    ctxs = [g.context() for _ in range(4)]
    paths = [Path(rng, g, ctxs[i % 4]) for i in range(20)]
    src = "from opshin.prelude import *\n"
    for i, p in enumerate(paths):
        src += f"def w{i}(ctx: ScriptContext) -> Anything:\n" + "\n".join(p.lines) + "\n    return b'none'\n"
    src += "def validator(op: int, ctx: ScriptContext) -> Anything:\n"
    for i in range(len(paths)):
        src += f"    {'if' if i == 0 else 'elif'} op == {i}:\n        return w{i}(ctx)\n"
    src += "    return 0\n"
    cp = compiled(rep, src, level, f"paths {t['i']}")
    if cp is None:
        return
    py = PyProgram(src)
    try:
        if py.load_error is not None:
            rep.errors.append(f"paths {t['i']}: {py.load_error!r}")
            return
        for i, p in enumerate(paths):
            own = ctxs[i % 4]
            rep.event("paths")
            observe(rep, src, cp, py, [i, own], p.value, f"path {i}: {p.lines}", level)
            # and on another transaction, where the way may not exist
            observe(rep, src, cp, py, [i, rng.choice(ctxs)], None, f"path {i}: {p.lines}", level)
    finally:
        py.close()


# ---------------------------------------------------------------------------
# example contracts


def with_own(g, datum, n=2, **kw):
    """inputs, one of which is spent from a script address and carries datum"""
    r = g.r
    addr = g.address(N("ScriptCredential", r.choice(g.hashes)))
    refs = g.refs(n + 1)
    dm = {}
    if r.random() < 0.35:
        h = r.choice(g.dhashes)
        dm[h] = datum
        od = N("SomeOutputDatumHash", h)
    else:
        od = N("SomeOutputDatum", datum)
    own = g.out(address=addr, datum=od, **kw)
    ins = [N("TxInInfo", refs[0], own)] + [N("TxInInfo", x, g.out(address=r.choice(g.addresses))) for x in refs[1:n]]
    r.shuffle(ins)
    return N("Spending", refs[0]), ins, own, dm


def ctx_of(g, purpose, redeemer, **kw):
    return N("ScriptContext", g.info(**kw), redeemer, purpose)


def b_gift(g):
    r = g.r
    d = N("WithdrawDatum", r.choice(g.pkhs))
    if r.random() < 0.15:
        d = r.choice([5, b"x", N("Nothing"), [d]])
    p, ins, own, dm = with_own(g, d)
    return [ctx_of(g, p, g.anydata(), inputs=ins, datums=dm)]


def b_vesting(g):
    r = g.r
    d = N("VestingParams", r.choice(g.pkhs), g.time())
    p, ins, own, dm = with_own(g, d)
    sig = r.sample(g.pkhs, r.choice([2, 3]))
    return [ctx_of(g, p, 0, inputs=ins, datums=dm, signatories=sig)]


def b_marketplace(g):
    r = g.r
    price = r.choice([0, 1, 1000, 2_000_000])
    vendor = r.choice(g.addresses)
    d = N("Listing", price, vendor, r.choice(g.pkhs))
    p, ins, own, dm = with_own(g, d)
    outs = [g.out() for _ in range(2)]
    if r.random() < 0.7:
        outs[1] = g.out(address=vendor, value={b"": {b"": price + r.choice([0, 0, 1, -1])}})
    red = N(r.choice(["Buy", "Buy", "Unlist"]))
    if r.random() < 0.1:
        red = r.choice([0, N("Token", b"", b"")])
    return [ctx_of(g, p, red, inputs=ins, datums=dm, outputs=outs)]


def b_assert_sum(g):
    r = g.r
    a = r.randrange(-3, 60)
    p, ins, own, dm = with_own(g, a)
    return [ctx_of(g, p, 42 - a + r.choice([0, 0, 0, 1, -1]), inputs=ins, datums=dm)]


def b_parameterized(g):
    r = g.r
    a = r.randrange(-3, 60)
    return [a, g.context(redeemer=r.choice([a, a, a + 1, -a]))]


def b_nft(g):
    r = g.r
    pol = r.choice(g.policies)
    refs = g.refs(2)
    ins = [N("TxInInfo", x, g.out()) for x in refs]
    ref = r.choice(refs) if r.random() < 0.8 else g.ref()
    name = ref.id + bytes([ref.idx % 256])
    mint = {pol: {name if r.random() < 0.85 else b"no": r.choice([1, 1, 1, 2, -1])}}
    if r.random() < 0.15:
        mint[pol][b"second"] = 1
    if r.random() < 0.3:
        mint[b"other"] = {b"": 3}
    return [ctx_of(g, N("Minting", pol) if r.random() < 0.9 else N("Spending", ref), ref, inputs=ins, mint=mint)]


def b_wrapped(g):
    r = g.r
    f = r.choice([1, 2, 1000, 10**6])
    tok = N("Token", r.choice(g.policies), r.choice(g.names))
    h = r.choice(g.hashes)
    addr = N("Address", N("ScriptCredential", h), N("NoStakingCredential"))
    a, b = r.randrange(5), r.randrange(5)
    refs = g.refs(3)
    ins = [N("TxInInfo", refs[0], g.out(address=addr, value={b"": {b"": 2}, tok.policy_id: {tok.token_name: a}})), N("TxInInfo", refs[1], g.out())]
    outs = [g.out(), g.out(address=addr, value={tok.policy_id: {tok.token_name: b}}, datum=N("SomeOutputDatum", b"" if r.random() < 0.9 else b"z"))]
    diff = (b - a) * f + r.choice([0, 0, 0, 0, 1])
    mint = {h: {b"w" + tok.token_name: diff}}
    if r.random() < 0.2:
        mint = {}
    p = N("Spending", refs[0]) if r.random() < 0.6 else N("Minting", h)
    return [tok.policy_id, tok.token_name, f, ctx_of(g, p, 0, inputs=ins, outputs=outs, mint=mint)]


def script(g, depth=2):
    r = g.r
    k = r.randrange(6 if depth else 3)
    if k == 0:
        return N("RequireSignature", r.choice(g.pkhs))
    if k == 1:
        return N("RequireBefore", g.time())
    if k == 2:
        return N("RequireAfter", g.time())
    sub = [script(g, depth - 1) for _ in range(r.randrange(4))]
    if k == 3:
        return N("RequireAllOf", sub)
    if k == 4:
        return N("RequireAnyOf", sub)
    return N("RequireMOf", r.randrange(-1, 4), sub)


def b_simple(g):
    return [script(g), g.context()]


def b_lp(g):
    r = g.r
    cs = r.choice(g.policies)
    pol = g.hashes[1]
    tn = r.choice(g.names)
    refs = g.refs(2)
    ins = [N("TxInInfo", x, g.out(value={b"": {b"": 5}, cs: {tn: r.choice([1, 1, 1, 2]), b"q": 1}})) for x in refs]
    mint = {pol: {tn if r.random() < 0.8 else b"q": r.choice([5, -5])}}
    if r.random() < 0.3:
        mint[pol][r.choice(g.names)] = 1
    return [cs, ctx_of(g, N("Minting", pol), 0, inputs=ins, mint=mint)]


def b_micro(g):
    r = g.r
    a, b = g.pkhs[:2]
    d = N("PaymentChannel", r.randrange(100), a, r.randrange(100), b, r.randrange(5))
    p, ins, own, dm = with_own(g, d)
    if r.random() < 0.6:
        outs = [g.out()]
        for who, need_ in ((a, d.args[0]), (b, d.args[2])):
            left = need_ + r.choice([0, 0, 0, 3, -1])
            part = r.randrange(left + 1) if left > 0 else 0
            for x in (part, left - part):
                outs.append(g.out(address=g.address(N("PubKeyCredential", who)), value={b"": {b"": x}}))
        r.shuffle(outs)
        return [ctx_of(g, p, N("TearDown"), inputs=ins, datums=dm, outputs=outs)]
    pay = []
    state = [d.args[0], d.args[2], d.args[4]]
    if r.random() < 0.5:
        pay.append(N("MicropaymentAlice", 3, state[2] + 1, b"\x00" * 64))
    new = N("PaymentChannel", state[0], a, state[1], b, state[2])
    outs = [g.out(), g.out(address=own.address, value=own.value, datum=N("SomeOutputDatum", new if r.random() < 0.8 else d.args[0]))]
    return [ctx_of(g, p, N("Micropayments", pay), inputs=ins, datums=dm, outputs=outs)]


def b_nft_market(g):
    r = g.r
    price = g.value()
    addr = r.choice(g.addresses)
    d = [price, addr, r.choice(g.pkhs)]
    p, ins, own, dm = with_own(g, d)
    outs = [g.out(), g.out(address=addr, value=price if r.random() < 0.8 else g.value(), datum=N("SomeOutputDatum", p.tx_out_ref if r.random() < 0.8 else 7))]
    return [ctx_of(g, p, r.choice([0, 0, 1, 2]), inputs=ins, datums=dm, outputs=outs)]


def b_pool(g):
    r = g.r
    pa, pb, pn, lp = [r.randbytes(28) for _ in range(4)]
    AC = lambda s, n: N("AssetClass", s, n)
    a, b, minted = r.randrange(10, 10**4), r.randrange(10, 10**4), r.randrange(1, 50)
    fee = r.choice([3, 30])
    op = r.choice([0, 0, 1, 2, 3])
    na, nb, dm_ = a, b, 0
    if op == 0:
        na = a + r.randrange(1, 100)
        nb = -(-a * b // na) + r.choice([0, 1, 5, 20])
    elif op == 1:
        na, nb, dm_ = a + 60, b + 60, r.choice([1, 2, 0])
    else:
        na, nb, dm_ = a - 2, b - 2, r.choice([-1, -1, 1])
    val = lambda x, y: {b"": {b"": 2_000_000}, pa: {b"a": x}, pb: {b"b": y}, pn: {b"nft": 1}}
    dat = lambda m: [AC(pa, b"a"), AC(pb, b"b"), AC(pn, b"nft"), lp, m, fee]
    p, ins, own, dm = with_own(g, dat(minted), value=val(a, b))
    out = g.out(address=own.address, value=val(na, nb), datum=N("SomeOutputDatum", dat(minted + dm_ + r.choice([0, 0, 0, 0, 1]))), reference_script=N("NoScriptHash") if r.random() < 0.9 else g.guard())
    other = g.out(value={pn: {b"nft": 0}})
    return [ctx_of(g, p, op, inputs=ins, datums=dm, outputs=[out, other] if r.random() < 0.5 else [other, out], mint={lp: {b"nft": dm_}} if dm_ else {})]


def b_bitwise(g):
    r = g.r
    a = r.randrange(0, 300)
    d = a
    p, ins, own, dm = with_own(g, d)
    if r.random() < 0.2:
        ins = [N("TxInInfo", i.out_ref, i.resolved.put(datum=N("NoOutputDatum"))) for i in ins]
    return [ctx_of(g, p, r.choice([a, a, a + 1, 0]), inputs=ins, datums=dm)]


BUILDERS = {
    "gift": b_gift, "vesting": b_vesting, "marketplace": b_marketplace, "assert_sum": b_assert_sum, "parameterized": b_parameterized,
    "nft_minting_policy": b_nft, "wrapped_token": b_wrapped, "simple_script": b_simple, "lp_minting_policy": b_lp, "micropayments": b_micro,
    "nft_marketplace_validator": b_nft_market, "pool_validator": b_pool, "bitwise": b_bitwise,
}
# records of the example contracts
EXTRA = {
    "WithdrawDatum": 0, "Listing": 0, "Buy": 0, "Unlist": 1, "RequireSignature": 0, "RequireAllOf": 1, "RequireAnyOf": 2, "RequireMOf": 3, "RequireBefore": 4,
    "RequireAfter": 5, "PaymentChannel": 0, "MicropaymentAlice": 0, "MicropaymentBob": 1, "Micropayments": 0, "TearDown": 1, "AssetClass": 0,
}
CONSTR.update(EXTRA)


def run_contracts(t, rep, seed):
    rng = rng_for(seed, "ledger", t["name"], t["i"])
    path = os.path.join(REPO, "examples", "smart_contracts", t["name"] + ".py")
    with open(path) as f:
        src = f.read()
    # by design, the views of dicts are lists on chain
    py = PyProgram(src.replace("context.transaction.mint[own_symbol].items()", "list(context.transaction.mint[own_symbol].items())"))
    try:
        if py.load_error is not None:
            rep.errors.append(f"{t['name']}: {py.load_error!r}")
            return
        if "VestingParams" not in CONSTR and t["name"] == "vesting":
            # derived from the names of the fields, as documented: checked in C07
            CONSTR["VestingParams"] = py.mod.VestingParams.CONSTR_ID
        level = rng.choice(["O0", "O1", "O2", "O3"])
        cp = compiled(rep, src, level, t["name"], path=path, expand_union_types=rng.random() < 0.25)
        if cp is None:
            return
        for _ in range(t["n"]):
            g = Tx(rng)
            model = BUILDERS[t["name"]](g)
            po = observe(rep, src, cp, py, model, None, t["name"], level, check_logs=level in ("O0", "O1"))
            if po is not None:
                rep.event(("accepted_" if po.status == "ok" else "refused_") + t["name"])
    finally:
        py.close()


def run(t, rep, tier, seed):
    {"helpers": run_helpers, "paths": run_paths, "contracts": run_contracts}[t["mode"]](t, rep, seed)
