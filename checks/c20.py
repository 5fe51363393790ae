"""Cancelling and refreshing: how recorded coins and history entries change state."""
import re
from engine import show
from spec import lits, holds, abbreviate
from terms import Abbr, strip

PROPERTY = dict(
    title="Coins and history entries change state only for a stated reason",
    statement="Only a receipt in progress or a payment not yet seen on chain can be cancelled: its entry becomes cancelled, coins it had locked become spendable again, coins it would have created become cancelled, no other coin changes, and all of it is committed together or not at all. "
              "Refreshing marks a coin spendable only when the node reports it on chain and it is not locked by a payment, and spent only when the node does not report it and it was spendable or locked; "
              "a receipt is marked received only once its coin is on chain, and a finalized payment sent only once one of its coins is on chain or was spent.",
    over=["inputs", "histories", "crash_points"], qtext="every wallet history, every answer of the node and a stop at any point",
    why="A coin freed while its payment can still be mined is spent twice; a coin never freed is lost to the user; a wrong state shows money that is not there.",
    files=["src/Wallet/CancelTx.cpp", "src/Wallet/WalletRefresher.cpp", "src/Wallet/Wallet.cpp"],
    mechanism=[("CancelTx", "src/Wallet/CancelTx.cpp"), ("WalletRefresher", "src/Wallet/WalletRefresher.cpp"), ("Wallet", "src/Wallet/Wallet.cpp")],
    technique="must-fact dataflow: the facts established at every state-changing call, and the conditions under which each updated element reaches the write, compared with the allowed transitions",
)

SPENT = "has(found(coll(std::unordered_set{}; each($2.m_transactionOpt.m_transactionBody.m_inputs).m_commitment), E.m_output.m_commitment))"
AB = Abbr(("each($1.GetOutputs($0))", "E"), (SPENT, "SPENT"), ("has(found(std::unordered_set{}, E.m_output.m_commitment))", "FALSE"), ("E.m_walletTxIdOpt == $2.m_walletTxId", "$2.m_walletTxId == E.m_walletTxIdOpt"))


def cancel(c):
    c.rule("cancel")
    f = c.find("CancelTx::CancelWalletTx")
    rec = []

    def w(x):
        if re.search(r"(SetType|SetStatus|AddOutputs|AddTransaction|SaveOutput)$", x["q"]):
            rec.append(x)
    W, o = c.run(f, watch=w, cap=200)
    F = lambda x: abbreviate(lits(x["state"]), AB)
    seen = set()
    for x in rec:
        ls = F(x)
        n = x["q"].split("::")[-1]
        at = c.at(x["fn"], x["e"].get("l"))
        seen.add(n)
        if n == "SetType":
            v = show(x["args"][0])
            ok = v == "4" and holds(ls, "$2.m_type == 6") or v == "3" and holds(ls, ("any", "$2.m_type == 5", "$2.m_type == 7"))
            c.ob(ok and strip(show(x["obj"])) == "$2", "the entry becomes cancelled according to what it was", at, key="type " + v, detail="\n    ".join(ls))
        if n == "SetStatus":
            v = show(x["args"][0])
            obj = AB(show(x["obj"]))
            if v == "0":
                ok = obj == "E" and holds(ls, "E.m_status == 4") and (holds(ls, "SPENT") or holds(ls, "FALSE"))
                c.ob(ok, "only a locked coin the payment spends is freed", at, key="free", detail="\n    ".join(ls))
            else:
                ok = v == "5" and obj == "E" and holds(ls, ("any", "E.m_status == 2", "E.m_status == 3")) and holds(ls, ("any", "SPENT", "FALSE", "$2.m_walletTxId == E.m_walletTxIdOpt"))
                c.ob(ok, "only a coin of the entry is cancelled", at, key="cancel coin", detail="\n    ".join(ls))
        if n in ("AddOutputs", "AddTransaction"):
            c.ob(holds(ls, ("any", "$2.m_type == 6", "$2.m_type == 5", "$2.m_type == 7")), "nothing is written for any other entry", at, key="write " + n, detail="\n    ".join(ls))
        if n == "AddTransaction":
            c.ob(show(x["args"][1]) in ("$2<-SetType(3)", "$2<-SetType(4)") and AB(show(x["obj"])) == "$1", "the cancelled entry is written", at, key="entry", detail=show(x["args"][1]))
        if n == "AddOutputs":
            a = x["args"][1]
            sent = holds(lits(x["state"]), "ev $2.SetType(3)")
            items = [(set(AB(show(z)) for z in (y.a[0] if y.op == "when" else ())), show(y.a[1] if y.op == "when" else y)) for y in (a.a[1] if a.op == "coll" else ())]
            items = [(k - {"!FALSE"}, v) for k, v in items if "FALSE" not in k]
            c.ob(a.op == "coll" and show(a.a[0]) in ("std::vector{}", "std::vector") and all(re.fullmatch(r"each\(\$1\.GetOutputs\(\$0\)\)<-SetStatus\([05]\)", v) for _, v in items),
                 "exactly the changed coins are written", at, key="coins written", detail=AB(show(a)))
            if sent and not any("std::unordered_set{}, " in show(z) and "FALSE" in AB(show(z)) for y in a.a[1] if y.op == "when" for z in y.a[0]):
                st = {"E.m_status != 2", "E.m_status != 3", "E.m_status == 4", "E.m_status != 0", "E.m_status != 5"}
                free = [k for k, v in items if v.endswith("SetStatus(0)")]
                c.ob(any("SPENT" in k and k <= st | {"SPENT"} for k in free), "every locked coin of a cancelled payment is freed", at, key="all freed", detail=str(free))
            own = [k for k, v in items if v.endswith("SetStatus(5)") and "E.m_status == 2" in k and k <= {"!SPENT", "E.m_status == 2", "$2.m_walletTxId == E.m_walletTxIdOpt"}]
            c.ob(bool(own), "every coin the entry would have created is cancelled", at, key="all cancelled", detail=str(items)[:600])
    for n in ("SetType", "SetStatus", "AddOutputs", "AddTransaction"):
        c.ob(n in seen, "cancelling does " + n, c.at(f), key="does " + n)
    for s, v in o.ret:
        ls = abbreviate(lits(s), AB)
        for r in ("ev $1.AddOutputs($0, *)", "ev $1.AddTransaction($0, $2)"):
            c.ob(holds(ls, r), "a cancelled entry has been written: " + r, c.at(f), key=r)
    g = c.find("Wallet::CancelTx")
    B = "m_walletDB.BatchWrite()"
    T = B + ".GetTransactionById(m_master_seed, $0)"
    c.exit(g, [("any", "!has(%s)" % T, "ev CancelTx::CancelWalletTx(m_master_seed, %s, %s)" % (B, T)), ("any", "!has(%s)" % T, "ev %s.Commit()" % B)], opaque=["CancelTx::CancelWalletTx"])
    c.before(g, r"::Commit$", ["ev CancelTx::CancelWalletTx(m_master_seed, @o, *)"], opaque=["CancelTx::CancelWalletTx"])
    c.callers_only("CancelTx::CancelWalletTx", {"Wallet::CancelTx"})


LOC = "m_pNodeClient.GetOutputsByCommitment(coll(%s; each($2).m_output.m_commitment))"
RB = Abbr((LOC % "out0(std::back_inserter(std::vector{}))", "CHAIN"), (LOC % "std::vector{}", "CHAIN"), ("each($2)", "COIN"), ("found(CHAIN, COIN.m_output.m_commitment)", "ONCHAIN"), ("each($3)", "ENTRY"),
          ("found(coll(std::unordered_map{}; std::pair{ENTRY.m_walletTxId, ENTRY}), COIN.m_walletTxIdOpt)", "MATCH"), ("MATCH.second", "OWNER"), ("MATCH->second", "OWNER"))


def refresh(c):
    c.rule("refresh coins")
    f = c.find("WalletRefresher::RefreshOutputs")
    rec = []

    def w(x):
        if re.search(r"(SetStatus|SaveOutput|SetBlockHeight|UpdateRefreshBlockHeight|SetType|AddTransaction)$", x["q"]):
            rec.append(x)
    W, o = c.run(f, watch=w, cap=100)
    F = lambda x: abbreviate(lits(x["state"]), RB)
    vals = set()
    for x in rec:
        ls, at, n = F(x), c.at(x["fn"], x["e"].get("l")), x["q"].split("::")[-1]
        if n == "SetStatus":
            v = show(x["args"][0])
            vals.add(v)
            ok = RB(show(x["obj"])) == "COIN"
            if v == "0":
                c.ob(ok and holds(ls, "has(ONCHAIN)") and holds(ls, "COIN.m_status != 4"), "only a coin on chain and not locked becomes spendable", at, key="spendable", detail="\n    ".join(ls))
                c.ob(holds(ls, "ev COIN.SetBlockHeight(ONCHAIN.second.m_blockHeight)"), "the coin takes the height of the block it is in", at, key="height", detail="\n    ".join(ls))
            elif v == "3":
                c.ob(ok and holds(ls, "!has(ONCHAIN)") and all(holds(ls, "COIN.m_status != %d" % i) for i in (2, 5)), "only a coin that was on chain and is no longer becomes spent", at, key="spent", detail="\n    ".join(ls))
            else:
                c.ob(False, "refreshing sets no other state (%s)" % v, at, key="state " + v)
        if n == "SaveOutput":
            c.ob(re.search(r"<-SetStatus\([03]\)$", show(x["args"][1])) is not None and show(x["args"][0]) == "$0", "a changed coin is written", at, key="saved", detail=show(x["args"][1])[-200:])
        if n == "UpdateRefreshBlockHeight":
            c.ob(show(x["args"][0]) == "m_pNodeClient.GetChainHeight()", "the height refreshed to is the node's", at, key="refresh height")
    c.ob(vals == {"0", "3"}, "both changes happen", c.at(f), key="both", detail=str(vals))
    # the change reaches the database in the same iteration
    sets = sorted((x["e"].get("l"), show(x["args"][0])) for x in rec if x["q"].endswith("SetStatus"))
    saved = {re.search(r"<-SetStatus\(([03])\)$", show(x["args"][1])).group(1) for x in rec if x["q"].endswith("SaveOutput") and re.search(r"<-SetStatus\(([03])\)$", show(x["args"][1]))}
    c.ob(saved == {v for _, v in sets}, "every change of state is written", c.at(f), key="all saved", detail="%s set, %s saved" % (sets, saved))
    order = [x for x in rec if x["q"].endswith("UpdateRefreshBlockHeight")]
    c.ob(bool(order), "the refreshed height is recorded", c.at(f), key="refreshed")

    c.rule("refresh entries")
    f = c.find("WalletRefresher::RefreshTransactions")
    rec.clear()
    W, o = c.run(f, watch=w, cap=200)
    got = set()
    for x in rec:
        ls, at, n = F(x), c.at(x["fn"], x["e"].get("l")), x["q"].split("::")[-1]
        if n == "SetType":
            v, obj = show(x["args"][0]), RB(show(x["obj"]))
            got.add(v)
            if v == "2":
                ok = obj == "OWNER" and holds(ls, "has(COIN.m_blockHeightOpt)") and holds(ls, "OWNER.m_type == 6")
            elif v == "1":
                ok = obj == "OWNER" and holds(ls, "has(COIN.m_blockHeightOpt)") and holds(ls, "OWNER.m_type == 7") or \
                    obj in ("ENTRY", "loopin(ENTRY)") and holds(ls, "ENTRY.m_type == 7") and holds(ls, "some($2).m_status == 3") and \
                    holds(ls, "some($2).m_output.m_commitment == each(ENTRY.m_transactionOpt.m_transactionBody.m_outputs).m_commitment")
            else:
                ok = False
            c.ob(ok, "an entry is marked %s only once its coin is on chain" % {"2": "received", "1": "sent"}.get(v, v), at, key="type " + v + " " + obj[:20], detail="\n    ".join(ls))
        if n == "AddTransaction":
            c.ob(re.search(r"<-SetType\([12]\)$", show(x["args"][1])) is not None, "a changed entry is written", at, key="entry written", detail=show(x["args"][1])[-200:])
    c.ob(got == {"1", "2"}, "both changes of entries happen", c.at(f), key="both entries", detail=str(got))

    c.rule("refresh")
    f = c.find("WalletRefresher::Refresh")
    B = "$1.BatchWrite()"
    SKIP = "m_pNodeClient.GetChainHeight() < %s.GetRefreshBlockHeight()" % B
    op = ["WalletRefresher::RefreshOutputs", "WalletRefresher::RefreshTransactions", "WalletRefresher::FindNewOutputs", "WalletRefresher::GetBlockTime"]
    c.exit(f, [("any", SKIP, "ev " + p) for p in ("this.RefreshOutputs($0, %s, *)" % B, "this.RefreshTransactions($0, %s, *)" % B, "%s.Commit()" % B)], opaque=op, baseline=None)
    c.before(f, r"::Commit$", ["ev this.RefreshOutputs($0, @o, *)", "ev this.RefreshTransactions($0, @o, *)"], opaque=op, baseline=None)
    c.before(f, r"RefreshTransactions$", ["ev this.RefreshOutputs($0, %s, *)" % B], opaque=op, baseline=None)


def run(c):
    cancel(c)
    refresh(c)
