"""The ledger's transaction format, written down independently of opshin.ledger, and random
transactions. A transaction is a tree of `N` (constructor), lists, dicts, ints and bytes, which is
rendered both as the data the ledger would pass and as the Python expression a user would write."""

SPEC = """
TrueData 1
FalseData 0
BoxedInt 0 value:int
NoValue 1
TxOutRef 0 id:bytes idx:int
PubKeyCredential 0 credential_hash:bytes
ScriptCredential 1 credential_hash:bytes
StakingHash 0 value:Credential
StakingPtr 1 slot_no:int tx_index:int cert_index:int
NoStakingCredential 1
SomeStakingCredential 0 staking_credential:StakingCredential
Address 0 payment_credential:Credential staking_credential:MaybeStaking
NoScriptHash 1
SomeScriptHash 0 script_hash:bytes
NoOutputDatum 0
SomeOutputDatumHash 1 datum_hash:bytes
SomeOutputDatum 2 datum:Data
TxOut 0 address:Address value:Value datum:OutputDatum reference_script:MaybeScriptHash
TxInInfo 0 out_ref:TxOutRef resolved:TxOut
DCertDelegRegKey 0 value:StakingCredential
DCertDelegDeRegKey 1 value:StakingCredential
DCertDelegDelegate 2 delegator:StakingCredential delegatee:bytes
DCertPoolRegister 3 pool_id:bytes pool_vfr:bytes
DCertPoolRetire 4 retirement_certificate:bytes epoch:int
DCertGenesis 5
DCertMir 6
NegInfPOSIXTime 0
FinitePOSIXTime 1 time:int
PosInfPOSIXTime 2
UpperBoundPOSIXTime 0 limit:Extended closed:Bool
LowerBoundPOSIXTime 0 limit:Extended closed:Bool
POSIXTimeRange 0 lower_bound:LowerBoundPOSIXTime upper_bound:UpperBoundPOSIXTime
Minting 0 policy_id:bytes
Spending 1 tx_out_ref:TxOutRef
Withdrawing 2 staking_credential:StakingCredential
Publishing 3 certificate_index:int certificate:Certificate
Voting 4 voter:Voter
Proposing 5 proposal_index:int proposal_procedure:ProposalProcedure
ConstitutionalCommitteeMember 0 credential:Credential
DelegateRepresentative 1 credential:Credential
StakePool 2 verification_key_hash:bytes
GovernanceActionId 0 transaction:bytes proposal_procedure:int
VoteNo 0
VoteYes 1
VoteAbstain 2
SomeGovernanceActionId 0 governance_action_id:GovernanceActionId
NoGovernanceActionId 1
GAParameterChange 0 ancestor:MaybeAction new_parameters:Parameters guardrails:MaybeScriptHash
ProtocolVersion 0 major:int minor:int
GAHardForkInitiation 1 ancestor:MaybeAction new_version:ProtocolVersion
GATreasuryWithdrawals 2 treasury_withdrawals:CredentialMap guardrails:SomeScriptHash
GANoConfidence 3 ancestor:MaybeAction
GAUpdateCommittee 4 ancestor:MaybeAction evicted_members:Credentials added_members:CredentialMap quorum:Fraction
Fraction 1 numerator:int denominator:int
Anchor 0 url:bytes data_hash:bytes
Constitution 0 anchor:Anchor guardrails:MaybeScriptHash
GANewConstitution 5 ancestor:MaybeAction constitution:Constitution
GAInfo 6
ProposalProcedure 0 deposit:int reward_account:Credential governance_action:GovernanceAction anchor:Anchor
TxInfo 0 inputs:Inputs reference_inputs:Inputs outputs:Outputs fee:int mint:Value certificates:Certificates withdrawals:Withdrawals validity_range:POSIXTimeRange signatories:Hashes redeemers:Redeemers datums:Datums id:bytes votes:Votes proposal_procedures:Proposals current_treasury_amount:OptionalInt treasury_donation:OptionalInt
ScriptContext 0 transaction:TxInfo redeemer:Data purpose:ScriptPurpose
Token 0 policy_id:bytes token_name:bytes
Nothing 6
"""
UNIONS = {
    "Credential": ["PubKeyCredential", "ScriptCredential"],
    "StakingCredential": ["StakingHash", "StakingPtr"],
    "MaybeStaking": ["NoStakingCredential", "SomeStakingCredential"],
    "MaybeScriptHash": ["NoScriptHash", "SomeScriptHash"],
    "OutputDatum": ["NoOutputDatum", "SomeOutputDatumHash", "SomeOutputDatum"],
    "Certificate": ["DCertDelegRegKey", "DCertDelegDeRegKey", "DCertDelegDelegate", "DCertPoolRegister", "DCertPoolRetire", "DCertGenesis", "DCertMir"],
    "Extended": ["NegInfPOSIXTime", "FinitePOSIXTime", "PosInfPOSIXTime"],
    "Bool": ["TrueData", "FalseData"],
    "Voter": ["ConstitutionalCommitteeMember", "DelegateRepresentative", "StakePool"],
    "Vote": ["VoteNo", "VoteYes", "VoteAbstain"],
    "MaybeAction": ["SomeGovernanceActionId", "NoGovernanceActionId"],
    "GovernanceAction": ["GAParameterChange", "GAHardForkInitiation", "GATreasuryWithdrawals", "GANoConfidence", "GAUpdateCommittee", "GANewConstitution", "GAInfo"],
    "ScriptPurpose": ["Minting", "Spending", "Withdrawing", "Publishing", "Voting", "Proposing"],
    "OptionalInt": ["BoxedInt", "NoValue"],
}
LISTS = {"Inputs": "TxInInfo", "Outputs": "TxOut", "Certificates": "Certificate", "Hashes": "bytes", "Proposals": "ProposalProcedure", "Credentials": "Credential"}
MAPS = {
    "Value": ("bytes", "Tokens"), "Tokens": ("bytes", "int"), "Withdrawals": ("StakingCredential", "int"), "Redeemers": ("ScriptPurpose", "Data"),
    "Datums": ("bytes", "Data"), "Votes": ("Voter", "Ballots"), "Ballots": ("GovernanceActionId", "Vote"), "CredentialMap": ("Credential", "int"),
    "Parameters": ("int", "Data"),
}
CONSTR, FIELDS = {}, {}
for _line in SPEC.split("\n"):
    if _line:
        _n, _i, *_fs = _line.split()
        CONSTR[_n] = int(_i)
        FIELDS[_n] = [tuple(f.split(":")) for f in _fs]


class N:
    __slots__ = ("name", "args")

    def __init__(self, name, *args):
        self.name, self.args = name, args
        assert name not in FIELDS or len(args) == len(FIELDS[name]), name

    def __getattr__(self, f):
        for (g, _), v in zip(FIELDS[self.name], self.args):
            if g == f:
                return v
        raise AttributeError(f)

    def __eq__(self, other):
        return isinstance(other, N) and self.name == other.name and self.args == other.args

    def __hash__(self):
        return hash((self.name, repr(self.args)))

    def __repr__(self):
        return expr(self)

    def put(self, **kw):
        """a copy with other fields"""
        return N(self.name, *[kw.get(f, v) for (f, _), v in zip(FIELDS[self.name], self.args)])


def expr(m):
    if isinstance(m, N):
        return f"{m.name}({', '.join(expr(a) for a in m.args)})"
    if isinstance(m, list):
        return "[" + ", ".join(expr(x) for x in m) + "]"
    if isinstance(m, dict):
        return "{" + ", ".join(f"{expr(k)}: {expr(v)}" for k, v in m.items()) + "}"
    return repr(m)


def data(m, constr=CONSTR):
    """canonical data (see core.enc)"""
    if isinstance(m, N):
        return ("C", constr[m.name], tuple(data(a, constr) for a in m.args))
    if isinstance(m, list):
        return ("L", tuple(data(x, constr) for x in m))
    if isinstance(m, dict):
        return ("M", tuple((data(k, constr), data(v, constr)) for k, v in m.items()))
    if isinstance(m, bool):
        return ("I", int(m))
    return ("I", m) if isinstance(m, int) else ("B", m.hex())


class Tx:
    """random transactions over small pools, so that references, owners and tokens coincide"""

    def __init__(self, rng):
        self.r = rng
        self.pkhs = [rng.randbytes(28) for _ in range(3)]
        self.hashes = [rng.randbytes(28) for _ in range(2)]
        self.policies = [rng.randbytes(28) for _ in range(2)] + self.hashes[:1]
        self.names = [b"", b"tok", rng.randbytes(32)]
        self.txids = [rng.randbytes(32) for _ in range(2)]
        self.dhashes = [rng.randbytes(32) for _ in range(3)]
        self.addresses = [self.address() for _ in range(3)]
        # equal up to the staking part or the kind of the credential
        a = self.addresses[0]
        self.addresses.append(N("Address", a.payment_credential, N("NoStakingCredential")))
        self.addresses.append(N("Address", N("ScriptCredential" if a.payment_credential.name == "PubKeyCredential" else "PubKeyCredential", a.payment_credential.args[0]), a.staking_credential))

    def credential(self):
        return N("PubKeyCredential", self.r.choice(self.pkhs)) if self.r.random() < 0.5 else N("ScriptCredential", self.r.choice(self.hashes))

    def staking(self):
        if self.r.random() < 0.7:
            return N("StakingHash", self.credential())
        return N("StakingPtr", self.r.randrange(9), self.r.randrange(3), self.r.randrange(2**40))

    def address(self, cred=None):
        s = N("NoStakingCredential") if self.r.random() < 0.6 else N("SomeStakingCredential", self.staking())
        return N("Address", cred or self.credential(), s)

    def value(self, mint=False):
        r = self.r
        v = {}
        if not mint and r.random() < 0.9 or mint and r.random() < 0.1:
            v[b""] = {b"": 0 if mint else r.choice([0, 1, 2_000_000, r.randrange(10**10)])}
        for p in r.sample(self.policies, r.choice([0, 1, 1, 2])):
            v[p] = {t: r.choice([1, 1, 2, r.randrange(1, 10**6)]) * (r.choice([1, -1]) if mint else 1) for t in r.sample(self.names, r.choice([1, 1, 2]))}
        return v

    def anydata(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return r.randrange(-5, 60)
        if k == 1:
            return r.choice([b"", b"abc", r.choice(self.pkhs)])
        if k == 2:
            return [r.randrange(4) for _ in range(r.randrange(3))]
        if k == 3:
            return {r.randrange(4): b"v"}
        if k == 4:
            return N("Nothing")
        return N("Token", r.choice(self.policies), r.choice(self.names))

    def datum(self):
        k = self.r.randrange(4)
        if k == 0:
            return N("NoOutputDatum")
        if k == 1:
            return N("SomeOutputDatumHash", self.r.choice(self.dhashes))
        return N("SomeOutputDatum", self.anydata())

    def out(self, **kw):
        o = N("TxOut", self.r.choice(self.addresses), self.value(), self.datum(), N("NoScriptHash") if self.r.random() < 0.8 else N("SomeScriptHash", self.r.choice(self.hashes)))
        return o.put(**kw)

    def near(self, o):
        """an output that differs from o in a single respect"""
        r = self.r
        a = o.address
        k = r.randrange(6)
        if k == 0:
            return o.put(address=N("Address", a.payment_credential, r.choice([N("NoStakingCredential"), N("SomeStakingCredential", self.staking())])))
        if k == 1:
            c = a.payment_credential
            return o.put(address=N("Address", N("ScriptCredential" if c.name == "PubKeyCredential" else "PubKeyCredential", c.args[0]), a.staking_credential))
        if k == 2:
            return o.put(address=self.r.choice(self.addresses))
        if k == 3:
            d = o.datum
            inner = d.args[0] if d.args else 0
            return o.put(datum=r.choice([N("NoOutputDatum"), N("SomeOutputDatum", inner), N("SomeOutputDatum", [inner]), N("SomeOutputDatumHash", inner if isinstance(inner, bytes) else b"abc")]))
        if k == 4:
            return o.put(reference_script=N("SomeScriptHash", self.r.choice(self.hashes)))
        return o.put(value=self.value())

    def echo(self, ctx):
        """the transaction with near copies of some of its inputs and outputs"""
        tx = ctx.transaction
        outs = list(tx.outputs)
        ins = list(tx.inputs)
        for o in [i.resolved for i in ins] + outs:
            if self.r.random() < 0.4:
                outs.insert(self.r.randrange(len(outs) + 1), self.near(o))
            if self.r.random() < 0.3:
                x = self.ref()
                if x not in [i.out_ref for i in ins + tx.reference_inputs]:
                    ins.insert(self.r.randrange(len(ins) + 1), N("TxInInfo", x, self.near(o)))
        return ctx.put(transaction=tx.put(inputs=ins, outputs=outs))

    def ref(self):
        return N("TxOutRef", self.r.choice(self.txids), self.r.choice([0, 0, 1, 2, 3, 255, 256]))

    def refs(self, n):
        out = []
        while len(out) < n:
            x = self.ref()
            if x not in out:
                out.append(x)
        return out

    def action_id(self):
        return N("GovernanceActionId", self.r.choice(self.txids), self.r.randrange(3))

    def ancestor(self):
        return N("NoGovernanceActionId") if self.r.random() < 0.5 else N("SomeGovernanceActionId", self.action_id())

    def anchor(self):
        return N("Anchor", self.r.choice([b"", b"https://x", b"u" * 60]), self.r.randbytes(32))

    def guard(self):
        return N("NoScriptHash") if self.r.random() < 0.5 else N("SomeScriptHash", self.r.choice(self.hashes))

    def credmap(self):
        return {self.credential(): self.r.randrange(1, 999) for _ in range(self.r.randrange(3))}

    def action(self):
        r = self.r
        k = r.randrange(7)
        return [
            lambda: N("GAParameterChange", self.ancestor(), {r.randrange(9): r.randrange(5) for _ in range(r.randrange(3))}, self.guard()),
            lambda: N("GAHardForkInitiation", self.ancestor(), N("ProtocolVersion", r.randrange(12), r.randrange(3))),
            lambda: N("GATreasuryWithdrawals", self.credmap(), N("SomeScriptHash", r.choice(self.hashes))),
            lambda: N("GANoConfidence", self.ancestor()),
            lambda: N("GAUpdateCommittee", self.ancestor(), [self.credential() for _ in range(r.randrange(3))], self.credmap(), N("Fraction", r.randrange(9), r.randrange(1, 9))),
            lambda: N("GANewConstitution", self.ancestor(), N("Constitution", self.anchor(), self.guard())),
            lambda: N("GAInfo"),
        ][k]()

    def proposal(self):
        return N("ProposalProcedure", self.r.randrange(10**11), self.credential(), self.action(), self.anchor())

    def certificate(self):
        r = self.r
        return [
            lambda: N("DCertDelegRegKey", self.staking()), lambda: N("DCertDelegDeRegKey", self.staking()),
            lambda: N("DCertDelegDelegate", self.staking(), r.choice(self.pkhs)), lambda: N("DCertPoolRegister", r.choice(self.pkhs), r.choice(self.pkhs)),
            lambda: N("DCertPoolRetire", r.choice(self.pkhs), r.randrange(500)), lambda: N("DCertGenesis"), lambda: N("DCertMir"),
        ][r.randrange(7)]()

    def voter(self):
        r = self.r
        return r.choice([N("ConstitutionalCommitteeMember", self.credential()), N("DelegateRepresentative", self.credential()), N("StakePool", r.choice(self.pkhs))])

    def time(self):
        return self.r.choice([0, 1, 99, 100, 101, self.r.randrange(200)])

    def range(self):
        r = self.r
        b = lambda: N(r.choice(["TrueData", "TrueData", "FalseData"]))
        lo = N("NegInfPOSIXTime") if r.random() < 0.3 else N("FinitePOSIXTime", self.time())
        hi = N("PosInfPOSIXTime") if r.random() < 0.3 else N("FinitePOSIXTime", self.time())
        if r.random() < 0.04:
            lo = N("PosInfPOSIXTime")
        if r.random() < 0.04:
            hi = N("NegInfPOSIXTime")
        return N("POSIXTimeRange", N("LowerBoundPOSIXTime", lo, b()), N("UpperBoundPOSIXTime", hi, b()))

    def purpose(self, inputs, mint, certs, proposals):
        r = self.r
        k = r.randrange(10)
        if k < 5:
            return N("Spending", r.choice(inputs).out_ref if inputs and r.random() < 0.9 else self.ref())
        if k < 7:
            return N("Minting", r.choice(sorted(mint)) if mint and r.random() < 0.9 else r.choice(self.policies))
        if k == 7:
            return N("Withdrawing", self.staking())
        if k == 8:
            return N("Publishing", 0, certs[0] if certs else self.certificate()) if r.random() < 0.5 else N("Voting", self.voter())
        return N("Proposing", 0, proposals[0] if proposals else self.proposal())

    def info(self, **kw):
        r = self.r
        n, k = r.choice([0, 1, 2, 3]), r.choice([0, 0, 1])
        refs = self.refs(n + k)
        inputs = [N("TxInInfo", x, self.out()) for x in refs[:n]]
        certs = [self.certificate() for _ in range(r.choice([0, 0, 1, 2]))]
        proposals = [self.proposal() for _ in range(r.choice([0, 0, 1]))]
        mint = self.value(mint=True)
        # proposals contain dicts and lists and are not hashable in Python
        purposes = {p: self.anydata() for p in (self.purpose(inputs, mint, certs, proposals) for _ in range(r.choice([0, 1, 2]))) if p.name != "Proposing"}
        known = r.sample(self.dhashes, r.choice([1, 2, 3]))
        opt = lambda: N("NoValue") if r.random() < 0.6 else N("BoxedInt", r.randrange(10**13))
        i = N(
            "TxInfo", inputs, [N("TxInInfo", x, self.out()) for x in refs[n:]], [self.out() for _ in range(r.choice([0, 1, 2, 3]))],
            r.randrange(10**6), mint, certs, {self.staking(): r.randrange(10**6) for _ in range(r.choice([0, 1, 2]))}, self.range(),
            r.sample(self.pkhs, r.randrange(4)), purposes, {h: self.anydata() for h in known}, r.choice(self.txids),
            {self.voter(): {self.action_id(): N(r.choice(UNIONS["Vote"])) for _ in range(r.choice([1, 2]))} for _ in range(r.choice([0, 0, 1, 2]))},
            proposals, opt(), opt(),
        )
        return i.put(**kw)

    def context(self, **kw):
        i = self.info()
        return N("ScriptContext", i, self.anydata(), self.purpose(i.inputs, i.mint, i.certificates, i.proposal_procedures)).put(**kw)


# ---------------------------------------------------------------------------
# the helpers of the prelude, from their documentation


class Fails(Exception):
    pass


def amount(value, token):
    return value.get(token.policy_id, {}).get(token.token_name, 0)


def unlocked(ins, addr, token):
    return sum(amount(i.resolved.value, token) for i in ins if i.resolved.address == addr)


def locked(outs, addr, token, datum=None):
    return sum(amount(o.value, token) for o in outs if o.address == addr and (datum is None or o.datum == datum))


def spent(ins, purpose):
    if purpose.name != "Spending":
        raise Fails
    for i in ins:
        if i.out_ref == purpose.tx_out_ref:
            return i.resolved
    raise Fails


def attached(out, info):
    """the datum attached to an output, or None"""
    if out.datum.name == "NoOutputDatum":
        return None
    if out.datum.name == "SomeOutputDatum":
        return out.datum.datum
    if out.datum.datum_hash not in info.datums:
        raise Fails
    return info.datums[out.datum.datum_hash]


def maybe(d):
    return N("NoOutputDatum") if d is None else N("SomeOutputDatum", d)


def need(d):
    if d is None:
        raise Fails
    return d


def policy(out):
    if out.address.payment_credential.name != "ScriptCredential":
        raise Fails
    return out.address.payment_credential.credential_hash
