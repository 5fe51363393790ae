"""Dandelion: who gets to see a transaction, and when."""
import re
from engine import show
from spec import lits, holds, calls_in, sname

PROPERTY = dict(
    title="A stem transaction is shown to one relay only, until it is fluffed",
    statement="A transaction submitted for its stem phase is held back and sent to the one chosen relay peer only; it becomes visible to other peers (announced, or handed out on request) only after it was accepted into the public pool. "
              "Every stem transaction gets there: the periodic run relays what is to be stemmed, publishes what is to be fluffed, falls back to publishing when the relay cannot be reached, and publishes what is still unseen when its own embargo time has passed; publishing takes it out of the stem pool. "
              "The relay is drawn at random from the best peers and replaced when its time is up, and the choice between stemming and fluffing follows the configured probability.",
    over=["inputs", "histories"], qtext="every submitted transaction, every pool content and every state of the peers",
    why="A transaction announced one step too early reveals the node it came from; no test watches who is told what.",
    files=["src/P2P/Dandelion.cpp", "src/TxPool/TransactionPoolImpl.cpp", "src/TxPool/Pool.cpp", "src/TxPool/TxPoolEntry.h", "src/P2P/Pipeline/TransactionPipe.cpp", "src/API/Node/Handlers/PushTransactionHandler.h", "src/Server/Node/NodeClients/DefaultNodeClient.h", "src/P2P/ConnectionManager.cpp"],
    mechanism=[("Dandelion", "src/P2P/Dandelion.cpp"), ("TransactionPool, Pool", "src/TxPool"), ("TransactionPipe", "src/P2P/Pipeline/TransactionPipe.cpp"), ("PushTransactionHandler", "src/API/Node/Handlers/PushTransactionHandler.h")],
    technique="must-fact dataflow at every call that publishes or relays a transaction in the whole program, with a closed list of the functions that may do so and of the readers of the stem pool",
    note="What makes a transaction acceptable is C03; the announcements made in answer to peer messages are also pinned in C29. Timing (how long a run takes) and network-level anonymity are not claimed.",
)

POOL = "m_pBlockChain.AddTransaction(%s, %s)"
LOCK = "MultiLocker{}.LockShared(m_pBlockDB, m_pTxHashSetManager)"


def publish(c):
    c.rule("publication")
    # every construction of a message that carries or announces a transaction
    allowed = {"TransactionMessage": {"Dandelion::ProcessStemPhase", "Dandelion::ProcessFluffPhase", "Dandelion::ProcessExpiredEntries", "MessageProcessor::ProcessMessageInternal", "MessageProcessor::ProcessMessage"},
               "StemTransactionMessage": {"Dandelion::ProcessStemPhase"},
               "TransactionKernelMessage": {"TransactionPipe::Thread_ProcessTransactions", "P2PServer::BroadcastTransaction"}}
    n = 0
    for m, who in allowed.items():
        for f in c.F.fns.values():
            if not f.get("body") or (f.get("cls") or "").split("::")[-1] == m:
                continue
            for e in ctors(f):
                if e.get("cls") == m and not (e.get("a") and (e["a"][0].get("t") or "").replace("const ", "").rstrip(" &") == m):
                    n += 1
                    q = sname(f["q"])
                    c.ob(q in who or reached_only(c, q, who), "%s is built only where a transaction may be published" % m, c.at(f, e.get("l")), key="%s in %s" % (m, q))
    c.ob(n >= 6, "publication sites found", "src/P2P", key="publication sites", detail=str(n))

    T = "m_pTransactionPool.GetTransactionToStem(*)"
    q = "Dandelion::ProcessStemPhase"
    sites(c, q, r"::BroadcastMessage$", [(["m_connectionManager", "TransactionMessage{%s}" % T, "0"], [POOL % (T, 1) + " == 0", "!m_connectionManager.SendMessageToPeer(StemTransactionMessage{%s}, *)" % T])])
    sites(c, q, r"::SendMessageToPeer$", [(["m_connectionManager", "StemTransactionMessage{%s}" % T, "*"], ["has(%s)" % T])])
    sites(c, q, r"IBlockChain::AddTransaction$", [(["m_pBlockChain", T, "1"], ["!m_connectionManager.SendMessageToPeer(StemTransactionMessage{%s}, *)" % T])])
    T = "m_pTransactionPool.GetTransactionToFluff(*)"
    q = "Dandelion::ProcessFluffPhase"
    sites(c, q, r"::BroadcastMessage$", [(["m_connectionManager", "TransactionMessage{%s}" % T, "0"], ["has(%s)" % T])])
    T = "each(m_pTransactionPool.GetExpiredTransactions())"
    q = "Dandelion::ProcessExpiredEntries"
    sites(c, q, r"::BroadcastMessage$", [(["m_connectionManager", "TransactionMessage{%s}" % T, "0"], [POOL % (T, 1) + " == 0"])])
    sites(c, q, r"IBlockChain::AddTransaction$", [(["m_pBlockChain", T, "1"], [])])
    c.exit(q, [("any", "size(m_pTransactionPool.GetExpiredTransactions()) == 0", "ev m_pBlockChain.AddTransaction(%s, 1)" % T)])

    # transactions arriving from peers, from the wallet and over the API
    q = "TransactionPipe::Thread_ProcessTransactions"
    E = "*.m_transactionsToProcess.copy_front()"
    sites(c, q, r"::BroadcastMessage$", [(["*", "TransactionKernelMessage{each({e}.pTransaction.m_transactionBody.m_kernels).m_hash}", "{e}.m_connectionId"],
          ["*AddTransaction(%s.pTransaction, %s.poolType) == 0" % (E, E), E + ".poolType == 1"])])
    sites(c, q, r"IBlockChain::AddTransaction$", [(["*", E + ".pTransaction", E + ".poolType"], [])])
    q = "DefaultNodeClient::PostTransaction"
    sites(c, q, r"::BroadcastTransaction$", [(["m_pP2PServer", "$0"], ["$1 == 1", "*AddTransaction(*, $0, $1, *) == 0"])])
    q = "PushTransactionHandler::Handle"
    TX, FL = "Transaction::FromJSON(at($0.m_paramsOpt, 0))", "at($0.m_paramsOpt, 1).asBool()"
    sites(c, q, r"::BroadcastTransaction$", [(["m_pP2PServer", TX], [FL, POOL % (TX, 1) + " == 0"])])
    sites(c, q, r"IBlockChain::AddTransaction$", [(["m_pBlockChain", TX, "1"], [FL, "!at($0.m_paramsOpt, 1).isNull()"]), (["m_pBlockChain", TX, "0"], [("any", "!" + FL, "at($0.m_paramsOpt, 1).isNull()", "size($0.m_paramsOpt) < 2")])])
    sites(c, "P2PServer::BroadcastTransaction", r"::BroadcastMessage$", [(["m_pConnectionManager", "TransactionKernelMessage{each($0.m_transactionBody.m_kernels).m_hash}", "0"], [])])
    c.callers_only("IP2PServer::BroadcastTransaction", {"DefaultNodeClient::PostTransaction", "PushTransactionHandler::Handle"})
    q = "WalletManager::PostTransaction"
    M = "$1.m_method"
    sites(c, q, r"INodeClient::PostTransaction$", [(["m_pNodeClient", "$0", "1"], [M + " == " + fluff(c)]), (["m_pNodeClient", "$0", "0"], [M + " != " + fluff(c)])])
    q = "RPCNodeClient::PostTransaction"
    f = c.find(q)
    W, o = c.run(f)
    for s, v in o.ret:
        inv = [l for l in lits(s) if l.startswith("ev ") and "push_transaction" in l and ".Invoke(" in l]
        good = [l for l in inv if re.search(r"append\(\$0\.ToJSON\(\)\)", l) and ("append(1)" in l and holds(lits(s), "$1 == 1") or "append(0)" in l and holds(lits(s), "$1 != 1") or re.search(r"append\((Json::Value\{)?\$1 == 1\}?\)", l))]
        c.ob(bool(good), "the remote node is told whether to stem or to fluff", c.at(f), key="rpc push", detail="\n".join(inv)[:400])


def fluff(c):
    return str(c.enum("EPostMethod::FLUFF"))


def ctors(f):
    from spec import _walk
    for x in _walk([f.get("body"), f.get("inits")]):
        if isinstance(x, dict) and x.get("k") == "ctor":
            yield x


def _refs(e):
    from spec import _walk
    return [x for x in _walk(e) if isinstance(x, dict) and x.get("k") == "ref"]


def reached_only(c, q, who, seen=frozenset()):
    from spec import callers
    C = callers(c.F)
    cs = C.get(q, ())
    return bool(cs) and q not in seen and all(sname(g["q"]) in who or reached_only(c, sname(g["q"]), who, seen | {q}) for g, e in cs)


def sites(c, q, rx, want, **kw):
    import c28
    return c28.sites(c, q, rx, want, **kw)


def stem_pool(c):
    c.rule("stem-pool")
    # who looks into the stem pool at all
    READ = {"AddTransaction": {"TransactionPool::AddTransaction"}, "RemoveTransaction": {"TransactionPool::AddTransaction", "TransactionPool::GetTransactionToFluff"},
            "FindTransactionsByStatus": {"TransactionPool::GetTransactionToStem", "TransactionPool::GetTransactionToFluff"}, "ChangeStatus": {"TransactionPool::GetTransactionToStem"},
            "GetExpiredTransactions": {"TransactionPool::GetExpiredTransactions"}, "ReconcileBlock": {"TransactionPool::ReconcileBlock"}}
    n = 0
    for f in c.F.fns.values():
        if not f.get("body"):
            continue
        for e in calls_in(f):
            o = e.get("o") or {}
            while o.get("k") in ("cast", "un", "conv"):
                o = o.get("e") or o.get("o") or {}
            if o.get("k") == "mem" and o.get("n") == "m_stemPool":
                n += 1
                q = sname(f["q"])
                w = READ.get(e.get("n"), set())
                c.ob(q in w or (bool(w) and reached_only(c, q, w)), "the stem pool is used only for relaying, fluffing and expiry", c.at(f, e.get("l")), key="stem %s %s" % (q, e.get("n")))
    c.ob(n >= 7, "uses of the stem pool found", "src/TxPool", key="stem uses")
    c.callers_only("ITransactionPool::GetTransactionToStem", {"Dandelion::ProcessStemPhase"})
    c.callers_only("ITransactionPool::GetTransactionToFluff", {"Dandelion::ProcessFluffPhase"})
    c.callers_only("ITransactionPool::GetExpiredTransactions", {"Dandelion::ProcessExpiredEntries"})

    c.rule("pool-transitions")
    A = "TransactionPool::AddTransaction"
    R = "trunc8(CSPRNG::GenerateRandom(0, 100))"
    P = "Global::GetConfig()*m_stemProbability"
    low = ("any", "%s <= %s" % (R, P), "CSPRNG::GenerateRandom(0, 100) <= %s" % P)
    high = ("any", "%s < %s" % (P, R), "%s < CSPRNG::GenerateRandom(0, 100)" % P)
    sites(c, A, r"^Pool::AddTransaction$", [(["m_memPool", "$2", "3"], ["$3 == 1"]), (["m_stemPool", "$2", "0"], ["$3 == 0", low]), (["m_stemPool", "$2", "2"], ["$3 == 0", high])])
    sites(c, A, r"^Pool::RemoveTransaction$", [(["m_stemPool", "$2"], ["$3 == 1"])])
    f = c.find(A)
    W, o = c.run(f, cap=200)
    for s, v in o.ret:
        ls = lits(s)
        if show(v) == "0":
            c.ob(holds(ls, ("any", "$3 != 1", ("all", "ev m_memPool.AddTransaction($2, 3)", "ev m_stemPool.RemoveTransaction($2)"))), "publishing takes a transaction out of the stem pool", c.at(f), key="publish removes")
            c.ob(holds(ls, ("any", "$3 != 0", "$3 == 1", "ev m_stemPool.AddTransaction($2, 0)", "ev m_stemPool.AddTransaction($2, 2)")), "an accepted stem transaction is in the stem pool", c.at(f), key="stem kept")
    for m, st in (("GetTransactionToStem", 0), ("GetTransactionToFluff", 2)):
        q = "TransactionPool::" + m
        V = "ValidTransactionFinder::FindValidTransactions($0, $1, m_stemPool.FindTransactionsByStatus(%d), m_memPool.Aggregate())" % st
        AG = "TransactionUtil::Aggregate(%s)" % V
        f = c.find(q)
        W, o = c.run(f, maxterm=20000)
        for s, v in o.ret:
            ls = lits(s)
            if show(v) == "null":
                c.ob(holds(ls, ("any", "size(m_stemPool.FindTransactionsByStatus(%d)) == 0" % st, "size(%s) == 0" % V)), "nothing is handed on only when nothing is due", c.at(f), key=q + " null")
                continue
            c.ob(show(v) == AG, "what is handed on is the aggregate of the still valid ones", c.at(f), key=q + " aggregate", detail=show(v))
            if st == 0:
                c.ob(holds(ls, "ev m_stemPool.ChangeStatus(%s, 1)" % V), "what is handed to the relay is marked as stemmed", c.at(f), key="stemmed")
            else:
                c.ob(holds(ls, "ev m_memPool.AddTransaction(%s, 3)" % AG) and holds(ls, "ev m_stemPool.RemoveTransaction(each(%s))" % V), "what is fluffed moves to the public pool", c.at(f), key="fluffed")
    c.returns("Pool::FindTransactionsByStatus", "coll(*; each(m_transactions).m_pTransaction if * == *)")
    f = c.find("Pool::FindTransactionsByStatus")
    W, o = c.run(f)
    for s, v in o.ret:
        c.ob(bool(re.search(r" if (\$0 == each\(m_transactions\)\.m_status|each\(m_transactions\)\.m_status == \$0)\)$", show(v))), "selection is by status", c.at(f), key="by status", detail=show(v))
    sites(c, "Pool::ChangeStatus", r"TxPoolEntry::SetStatus$", [(["*each(m_transactions)*", "$1"], [("any", "each($0) == *each(m_transactions)*.m_pTransaction", "*each(m_transactions)*.m_pTransaction == each($0)")])])
    sites(c, "Pool::RemoveTransaction", r"::erase$", [(["m_transactions", "{i}"], [("any", "$0 == *.m_pTransaction", "*.m_pTransaction == $0")])])

    f = c.find("TxPoolEntry::SetStatus")
    W, o = c.run(f)
    for s, v in o.ret:
        c.ob([show(x) for k, x in s.env.items() if "m_status" in str(k)] == ["$0"], "a status change is kept", c.at(f), key="status set", detail=str(s.env)[:300])
    c.returns("TxPoolEntry::GetStatus", "m_status")
    c.returns("TxPoolEntry::GetTimestamp", "m_timestamp")

    c.rule("embargo")
    c.returns("TransactionPool::GetExpiredTransactions", "m_stemPool.GetExpiredTransactions(*Global::GetConfig()*m_embargoSeconds + *CSPRNG::GenerateRandom(0, 30)*)")
    CUT = "std::chrono::system_clock::to_time_t(op-(std::chrono::system_clock::now(), std::chrono::duration{$0}))"
    c.returns("Pool::GetExpiredTransactions", "coll(*; each(m_transactions).m_pTransaction if each(m_transactions).m_timestamp < %s)" % CUT)
    f = c.find("Pool::AddTransaction")
    n = 0
    for x in ctors(f):
        if x.get("cls") == "TxPoolEntry" and len(x.get("a") or ()) == 3:
            n += 1
    rec = []
    c.run(f, watch=lambda x: rec.append(x) if re.search(r"::(emplace_back|push_back)$", x["q"]) else None)
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob(any(re.fullmatch(r"TxPoolEntry\{\$0, \$1, time\(.*\)\}", y) for y in a) or (len(a) == 3 and a[:2] == ["$0", "$1"] and a[2].startswith("time(")), "a pooled transaction keeps the time it came in", c.at(f, x["e"].get("l")), key="timestamp", detail=str(a))
    c.ob(bool(rec), "a transaction is pooled with its status", c.at(f), key="pooled")
    g = c.find("TxPoolEntry::TxPoolEntry", 3)
    from_par = {}
    for i in g.get("inits", ()):
        from_par[(i.get("f") or "").split("::")[-1]] = [x.get("n") for x in _refs(i.get("e")) if x.get("d") == "param"]
    names = [p["n"] for p in g["ps"]]
    c.ob([from_par.get(x) for x in ("m_pTransaction", "m_status", "m_timestamp")] == [[n] for n in names], "an entry keeps all it was given", c.at(g), key="entry fields")


def relay(c):
    c.rule("relay")
    q = "Dandelion::ProcessStemPhase"
    f = c.find(q)
    rec = []
    W, o = c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if x["q"].endswith("::SendMessageToPeer") else None)
    G = "m_connectionManager.GetMostWorkPeers()"
    pick = "at(%s, CSPRNG::GenerateRandom(0, (size(%s) - 1)))" % (G, G)
    for x in rec:
        ls, p = lits(x["state"]), show(x["args"][1])
        fresh = p == pick and holds(ls, "size(%s) != 0" % G)
        old = p == "m_relayPeer" and holds(ls, "has(m_relayPeer)") and holds(ls, ("any", "std::chrono::system_clock::now() <= m_relayExpirationTime", "m_relayExpirationTime >= std::chrono::system_clock::now()"))
        c.ob(fresh or old, "the relay is a random best peer, kept only until its time is up", c.at(f, x["e"].get("l")), key="relay choice", detail=p)
    for s, v in o.ret:
        env = {show(k) if not isinstance(k, (str, tuple)) else k: show(x) for k, x in s.env.items() if not isinstance(k, tuple)}
        p, t = env.get("m_relayPeer"), env.get("m_relayExpirationTime")
        if p is not None:
            c.ob(p == pick, "a new relay is drawn from the best peers", c.at(f), key="relay drawn", detail=p)
            c.ob(t is not None and "std::chrono::system_clock::now()" in t and "m_relaySeconds" in t and t.startswith("op+"), "a new relay gets a new deadline", c.at(f), key="relay deadline", detail=str(t))
    q = "ConnectionManager::SendMessageToPeer"
    sites(c, q, r"Connection::SendAsync$", [(["each(m_connections.Read())", "$0"], [("any", "$1.m_ipAddress == each(m_connections.Read()).*m_ipAddress", "each(m_connections.Read()).*m_ipAddress == $1.m_ipAddress", "$1 == each(m_connections.Read()).*m_pPeer")])], one=True)
    c.exit(q, ["ev some(m_connections.Read()).SendAsync($0)"], ret="true")
    c.returns("ConnectionManager::GetMostWorkPeers", ["std::vector{}", "coll(*; each(m_connections.Read()).*m_pPeer if *.GetTotalDifficulty() <= each(m_connections.Read()).GetTotalDifficulty()*)"])
    q = "ConnectionManager::BroadcastMessage"
    sites(c, q, r"Connection::SendAsync$", [(["each(m_connections.Read())", "$0"], [("any", "$1 != each(m_connections.Read()).*", "each(m_connections.Read()).* != $1")])])

    c.rule("periodic-run")
    import effects
    q = "Dandelion::Thread_Monitor"
    f = c.find(q)
    seen = []
    from spec import _walk
    loops = [x for x in _walk(f.get("body")) if isinstance(x, dict) and x.get("k") in ("While", "Do", "For")]
    inside = {}
    for lp in loops:
        for t in [x for x in _walk(lp.get("b") or lp.get("body") or lp) if isinstance(x, dict) and x.get("k") == "Try"]:
            for x in _walk(t.get("b")):
                if isinstance(x, dict) and x.get("k") == "call":
                    inside.setdefault(x.get("n"), x)
    calls = set(inside) | {n for m in list(inside.values()) for n in helper_calls(c, m)}
    for n in ("ProcessStemPhase", "ProcessFluffPhase", "ProcessExpiredEntries"):
        c.ob(n in calls, "%s is part of every run, and a failure does not end the runs" % n, c.at(f), key="run " + n)
    W, o = c.run(f)
    for s, v in o.ret:
        c.ob(holds(lits(s), "has(?loop.m_terminate)") or holds(lits(s), "*m_terminate*"), "the monitor stops only at shutdown", c.at(f), key="monitor end", detail=str(lits(s)))
    c.callers_only("Dandelion::ProcessStemPhase", {q})
    c.callers_only("Dandelion::ProcessFluffPhase", {q})


def helper_calls(c, e):
    g = c.F.fns.get(e.get("u"))
    return {x.get("n") for x in calls_in(g)} if g and g.get("body") else set()


def run(c):
    publish(c)
    stem_pool(c)
    relay(c)
    c.rule("answers")
    c.returns("TransactionPool::FindTransactionByKernelHash", "m_memPool.FindTransactionByKernelHash($0)")
    c.returns("TransactionPool::FindTransactionsByKernel", "m_memPool.FindTransactionsByKernel($0)")
    c.returns("TransactionPool::GetTransactionsByShortId", "m_memPool.GetTransactionsByShortId($0, $1, $2)")
