"""Consequences of a peer's bad data."""
from engine import sname, show
from spec import holds, lits, calls_in

PROPERTY = dict(
    title="Peers that send invalid data are banned; handling a message never throws",
    statement="A peer whose header, block, transaction or output-set archive is found invalid, that floods, or that asks for archives too often is banned with the matching reason, a peer whose message cannot be parsed or whose socket fails is disconnected, and no peer is banned for data that is merely unknown, already known or not yet connectable. "
              "An exception raised while handling one peer's message ends in one of these outcomes and never reaches the thread that serves all peers, and a queued item that failed is not retried.",
    over=["inputs", "histories", "fault_sequences"], qtext="every message a peer may send in every sync state, and every exception its processing may raise",
    why="The reaction to invalid data is spread over the dispatcher, three worker pipelines and the status codes of the chain; an unhandled status or exception lets a hostile peer stay, or takes the node down.",
    files=["src/P2P/MessageProcessor.cpp", "src/P2P/Connection.cpp", "src/P2P/Pipeline/BlockPipe.cpp", "src/P2P/Pipeline/TransactionPipe.cpp", "src/P2P/Pipeline/TxHashSetPipe.cpp", "src/BlockChain/BlockChainImpl.cpp", "include/P2P/Peer.h"],
    mechanism=[("MessageProcessor::ProcessMessage", "src/P2P/MessageProcessor.cpp"), ("Connection::HandleReceivedHeader / HandleReceivedBody", "src/P2P/Connection.cpp"), ("BlockPipe::ProcessNewBlock", "src/P2P/Pipeline/BlockPipe.cpp"), ("BlockChain status mapping", "src/BlockChain/BlockChainImpl.cpp")],
    technique="path-sensitive must-fact dataflow over the message dispatcher, worker pipelines and status mappings (what is done on every path with a given status or handler)",
)

BADDATA = {3: ("BlockHeaderValidator", "BlockHeaderProcessor"), 1: ("BlockValidator", "BlockProcessor", "KernelSumValidator"), 9: ("TransactionValidator", "TxBodyValidator")}


def run(c):
    st = lambda n: str(c.enum("EBlockChainStatus::" + n))
    INV = st("INVALID")
    # the enumeration of reasons is unscoped: its values are part of the stored peer format
    why = {n: v for n, v in (("BadBlock", 1), ("BadBlockHeader", 3), ("BadTxHashSet", 4), ("Abusive", 8), ("BadTransaction", 9))}

    c.rule("dispatch")
    f = c.find("MessageProcessor::ProcessMessage")
    H1, HS = "m_pBlockChain.AddBlockHeader(*)", "m_pBlockChain.AddBlockHeaders(*)"
    known = lambda call: ("any", call + " != " + INV, *[call + " == " + st(x) for x in ("SUCCESS", "ALREADY_EXISTS", "ORPHANED", "UNKNOWN_ERROR", "STORE_ERROR", "NOT_FOUND")])
    ban = lambda call: ("if", "ev " + call, ("any", "ev $0.BanPeer(%d)" % why["BadBlockHeader"], known(call)))
    o = c.exit(f, [("if", "caught(*BadDataException*)", ("any", "ev $0.BanPeer(*m_reason)", "ev $0.BanPeer(*GetReason())")),
                   ("if", "caught(*DeserializationException*)", ("any", "ev $0.Disconnect()", "ev $0.BanPeer(*)")),
                   ban(H1), ban(HS)], cap=150)
    hs = " ".join(x for s, v in o.ret for x in lits(s) if x.startswith("caught("))
    for cls in ("BadDataException", "DeserializationException"):
        c.ob(cls in hs or "std::exception" in hs or "..." in hs, "the dispatcher handles %s" % cls, c.at(f), key="handles " + cls)
    rec, _ = c.before(f, r"^Connection::BanPeer$", [("any", "caught(*BadDataException*)", H1 + " == " + INV, HS + " == " + INV)], cap=150)
    # nothing that reaches the dispatcher as another exception type is lost: the connection's handlers take all
    for q, body in (("Connection::HandleReceivedHeader", ["ev *ByteBuffer*"]), ("Connection::HandleReceivedBody", ["ev *.ProcessMessage(*"])):
        f = c.find(q)
        W, o = c.run(f)
        c.ob(not [x for s, x in o.thr if x], "%s lets no exception escape" % q, c.at(f), key="escape " + q)
        c.ob(any(holds(lits(s), ("any", "caught(std::exception*)", "caught(...)")) for s, v in o.ret), "%s has a handler for every standard exception" % q, c.at(f), key="handler " + q)
        n = "1" if q.endswith("Body") else "0"
        closed = ("all", "ev m_pSocket.CloseSocket()", ("any", "ev *.SetConnected(0)"))
        c.exit(f, [("if", "caught(*)", ("any", closed, "ev this.Disconnect()", "ev *Disconnect()")), ("if", "has($%s)" % n, ("any", closed, "ev *Disconnect()"))])
    c.exit("Connection::HandleReceivedHeader", [("if", "$1 != 11", ("any", "ev m_pSocket.CloseSocket()", "ev *Disconnect()"))])
    c.exit("Connection::HandleReceivedBody", [("if", ("any", "$0.m_length != $2"), ("any", "ev m_pSocket.CloseSocket()", "ev *Disconnect()"))])
    c.exit("Connection::Disconnect", [("any", "has(m_terminate)", ("all", "ev m_pSocket.CloseSocket()", "ev *.SetConnected(0)"))])

    c.rule("ban")
    f = c.find("Connection::BanPeer")
    W, o = c.run(f)
    for s, v in o.ret:
        e = {show(k): show(x) for k, x in s.env.items() if not isinstance(k, tuple)}
        c.ob(holds(lits(s), "ev *.Ban($0)"), "banning a connection bans its peer for the given reason", c.at(f), key="ban peer")
        c.ob(e.get("m_terminate") in ("1", "true") or holds(lits(s), "ev *Disconnect()"), "banning a connection ends it", c.at(f), key="ban terminates", detail=str(e))
    f = c.find("Peer::Ban")
    W, o = c.run(f)
    for s, v in o.ret:
        e = {show(k): show(x) for k, x in s.env.items() if not isinstance(k, tuple)}
        c.ob("now()" in e.get("m_lastBanTime", "").lower() and e.get("m_banReason") == "$0" and e.get("m_dirty") == "1", "a ban records the time and reason and is saved", c.at(f), key="ban record", detail=str(e))
    c.exit("Connection::CheckPing", [("if", ("any", "this.ExceedsRateLimit()", "*RateCounter*LastMinute() >= *"), ("any", "ev *.Ban(8)", "ev *BanPeer(8)"))])
    c.before("Connection::CheckPing", r"::Ban(Peer)?$", [("any", "this.ExceedsRateLimit()", "*RateCounter*LastMinute() >= *")])
    R = "m_pSocket.m_rateCounter.Get%sInLastMinute()"
    c.exit("Connection::ExceedsRateLimit", [("any", (R % "Sent") + " >= 501", (R % "Received") + " >= 501")], ret="true")
    c.exit("Connection::ExceedsRateLimit", [(R % "Sent") + " < 501", (R % "Received") + " < 501"], ret="false")
    n = 0
    for f in c.F.fns.values():
        if not f.get("body"):
            continue
        for e in calls_in(f):
            if e.get("cls") == "BadDataException" and e["k"] in ("ctor", "new") and e["a"][0].get("k") == "enumc":
                n += 1
                v = int(e["a"][0]["cv"])
                c.sites += 1
                for r, cl in BADDATA.items():
                    if sname(f["q"]).split("::")[0] in cl:
                        c.ob(v == r, "%s reports its findings as a bad %s" % (f["q"], {3: "header", 1: "block", 9: "transaction"}[r]), c.at(f, e["l"]), key="reason " + sname(f["q"]))
                c.ob(v in why.values(), "%s names a reason for the ban" % f["q"], c.at(f, e["l"]), key="reason set " + sname(f["q"]))
    c.ob(n >= 20, "throws of bad-data exceptions found (%d)" % n, "", key="reasons")

    c.rule("pipelines")
    A = "*.AddBlock($1.m_block)"
    f = c.find("BlockPipe::ProcessNewBlock")
    bb = ("any", "ev $1.m_peer.Ban(1)")
    o = c.exit(f, [("if", "caught(*)", bb), ("if", "ev " + A, ("any", bb, A + " != " + INV, *[A + " == " + st(x) for x in ("SUCCESS", "ALREADY_EXISTS", "ORPHANED", "UNKNOWN_ERROR", "STORE_ERROR", "NOT_FOUND")]))])
    c.ob(not o.thr and any(holds(lits(s), ("any", "caught(std::exception*)", "caught(...)")) for s, v in o.ret), "adding a queued block lets no exception escape", c.at(f), key="block contained")
    c.before(f, r"^Peer::Ban$", [("any", A + " == " + INV, "caught(*)")])
    f = c.find("TransactionPipe::Thread_ProcessTransactions")
    T = "*.AddTransaction(*)"
    c.before(f, r"^Peer::Ban$", [T + " == " + INV])
    rec, o = c.before(f, r"::pop_front$", [("any", "caught(*)", "ev " + T)])
    c.ob(any(holds(r[3], "caught(*)") for r in rec), "a transaction whose processing throws leaves the queue", c.at(f), key="pop on error")
    c.ob(any(holds(r[3], "ev " + T) for r in rec), "a processed transaction leaves the queue", c.at(f), key="pop")
    bad = [r for r in rec if holds(r[3], T + " == " + INV) and not holds(r[3], "ev *.Ban(9)")]
    c.ob(not bad and any(holds(r[3], ("any", "ev *.Ban(9)", T + " != " + INV, T + " == 0")) for r in rec), "the sender of an invalid transaction is banned before the next one is taken", c.at(f), key="tx ban", detail="\n".join(bad[0][3]) if bad else "")
    for r in rec:
        c.ob(holds(r[3], ("any", "caught(*)", "ev *.Ban(9)", T + " != " + INV, *[T + " == " + st(x) for x in ("SUCCESS", "UNKNOWN_ERROR")])), "an invalid transaction's sender is banned", c.at(f, r[0]), key="tx ban all", detail="\n".join(r[3]))
    f = c.find("TxHashSetPipe::Thread_ProcessTxHashSet")
    P = "*.ProcessTransactionHashSet(*)"
    o = c.exit(f, [("if", "caught(*)", "ev $1.BanPeer(4)"), ("if", "!$1.ReceiveSync(*)", "ev $1.BanPeer(4)"),
                   ("if", "ev " + P, ("any", "ev $1.BanPeer(4)", P + " != " + INV))])
    c.ob(not o.thr and any(holds(lits(s), "caught(...)") for s, v in o.ret), "processing an archive lets no exception escape", c.at(f), key="archive contained")
    c.before("TxHashSetPipe::SendTxHashSet", r"DisableSends$", ["*.GetLastTxHashSetRequest() <= *", "ev *.UpdateLastTxHashSetRequest()"])
    c.exit("TxHashSetPipe::SendTxHashSet", [("any", "*.GetLastTxHashSetRequest() <= *to_time_t(op-(*duration{7200}))", "ev $0.BanPeer(8)")])
    c.before("TxHashSetPipe::ReceiveTxHashSet", r"BanPeer$", ["m_processing.exchange(1*)"])

    c.rule("status")
    TX = "m_pTransactionPool.AddTransaction(*)"
    c.exit("BlockChain::AddTransaction", [("any", "caught(*)", TX + " == 3", "!has(*GetTipBlockHeader(*))")], ret=INV)
    c.exit("BlockChain::AddTransaction", [TX + " == 0"], ret=st("SUCCESS"))
    c.exit("BlockChain::AddTransaction", [TX + " != 3"], ret=st("UNKNOWN_ERROR"))
    f = c.find("BlockChain::AddTransaction")
    W, o = c.run(f)
    for s, v in o.ret:
        if holds(lits(s), ("any", TX + " == 3", "caught(*)")):
            c.ob(show(v) == INV, "a transaction found invalid is reported invalid", c.at(f), key="tx status", detail=show(v))
    f = c.find("BlockChain::AddBlockHeader")
    W, o = c.run(f)
    c.ob(any("BadDataException" in str(x) for s, x in o.thr), "an invalid header reaches the caller as bad data", c.at(f), key="header rethrow")
    c.ob(all("BadDataException" in str(x) for s, x in o.thr), "adding a header lets only bad-data exceptions escape", c.at(f), key="header escape")
    for s, v in o.ret:
        if holds(lits(s), "caught(*)"):
            c.ob(show(v) not in (st("SUCCESS"), st("ALREADY_EXISTS")), "a header whose processing failed is not reported as accepted", c.at(f), key="header failed")
    f = c.find("BlockChain::AddBlockHeaders")
    W, o = c.run(f)
    c.ob(any("BadDataException" in str(x) for s, x in o.thr), "invalid headers reach the caller as bad data", c.at(f), key="headers rethrow")
    for s, v in o.ret:
        if holds(lits(s), "caught(*)"):
            c.ob(show(v) not in (st("SUCCESS"), st("ALREADY_EXISTS")), "headers whose processing failed are not reported as accepted", c.at(f), key="headers failed")
    f = c.find("BlockChain::ProcessTransactionHashSet")
    c.exit(f, ["*ProcessTxHashSet(*)"], ret=st("SUCCESS"))
    # a compact block that could not be rebuilt asks for the whole block rather than blaming the peer
    c.exit("BlockChain::AddCompactBlock", [("any", "caught(*)", "!has(*Hydrate(*))", "this.AddBlock(*) == " + INV)], ret=st("TRANSACTIONS_MISSING"))
    f = c.find("BlockChain::AddCompactBlock")
    W, o = c.run(f)
    for s, v in o.ret:
        c.ob(show(v) != INV, "a compact block is never itself reported invalid", c.at(f), key="compact invalid")
