"""What the node does with each kind of peer message."""
import re
from engine import show
from spec import lits, holds

PROPERTY = dict(
    title="Each peer message gets the prescribed effect and answer, and nothing else",
    statement="Every message from a peer is decoded as its own type and has only the effects prescribed for it: requests are answered with exactly the items asked for (headers that follow the first locator known on this chain, in order, at most 512), and only when the node has them; offered blocks, headers and transactions go to validation. "
              "A block or transaction is announced to the other peers only after it was accepted, never back to its source, and a transaction in its stem phase is not announced; missing bodies and parents are requested from the sender only when the outcome calls for it. "
              "While the node is still syncing, offered transactions and new headers change nothing.",
    over=["inputs", "histories"], qtext="every message and every state of the node",
    why="Announcing what was not accepted spreads invalid data, answering with the wrong item stalls peers, and announcing a stem transaction reveals who sent it.",
    files=["src/P2P/MessageProcessor.cpp", "src/P2P/BlockLocator.cpp", "src/P2P/ConnectionManager.cpp", "src/P2P/Connection.cpp", "src/P2P/Pipeline/TransactionPipe.cpp"],
    mechanism=[("MessageProcessor", "src/P2P/MessageProcessor.cpp"), ("BlockLocator", "src/P2P/BlockLocator.cpp"), ("ConnectionManager::BroadcastMessage", "src/P2P/ConnectionManager.cpp"), ("TransactionPipe", "src/P2P/Pipeline/TransactionPipe.cpp")],
    technique="must-fact dataflow over the dispatcher: every effect is matched against a table of (message type, conditions, callee, argument terms), and every returning path against the effects that table demands",
    note="Bans and exceptions are property C09; the byte layouts are C07. Delivery order and timing of answers are not bounded.",
)

EFFECT = r"(^|::)(SendAsync|SendSync|BroadcastMessage|SendMessageToPeer|AddBlock|AddBlockHeaders?|AddCompactBlock|AddTransaction|AddFreshPeers|UpdateTotals|ProcessBlock|ProcessTransaction|SendTxHashSet|ReceiveTxHashSet|AddTransactionToProcess|AddBlockToProcess|ProcessTransactionHashSet|ResyncChain)$"


def M(name):
    return name + "::Deserialize(ByteBuffer{$1.m_payload, $0.GetProtocolVersion()})"


BC = "m_pBlockChain."
HDR, BLK, CB = M("HeaderMessage") + ".m_pHeader", M("BlockMessage") + ".m_block", M("CompactBlockMessage") + ".m_block"
IDLE, SYNCBLOCKS = "m_pSyncStatus.GetStatus() == 6", "m_pSyncStatus.GetStatus() == 4"
NOTBLOCKS = ("any", "m_pSyncStatus.GetStatus() != 4", IDLE)
ADDH, ADDB, ADDC = "m_pBlockChain.AddBlockHeader(%s)" % HDR, "m_pBlockChain.AddBlock(%s)" % BLK, "m_pBlockChain.AddCompactBlock(%s)" % CB
GETB = BC + "GetBlockByHash(%s.m_hash)" % M("GetBlockMessage")
GETC = BC + "GetCompactBlockByHash(%s.m_hash)" % M("GetCompactBlockMessage")
GETT = BC + "GetTransactionByKernelHash(%s.m_kernelHash)" % M("GetTransactionMessage")
GETK = BC + "GetTransactionByKernelHash(%s.m_kernelHash)" % M("TransactionKernelMessage")
TIP = BC + "GetTipBlockHeader(1)"
TIPWORK = ("m_pBlockChain.GetTotalDifficulty(1)",)
HASH, PREV = ".m_proofOfWork.m_hash", ".m_previousBlockHash"
HAVE = BC + "HasBlock(%s.m_height, %s%s)" % (HDR, HDR, HASH)


def more(a):
    return ("any", a + " >= m_pBlockChain.GetTotalDifficulty(1) + 1", "m_pBlockChain.GetTotalDifficulty(1) + 1 <= " + a, "m_pBlockChain.GetTotalDifficulty(1) < " + a, a + " > m_pBlockChain.GetTotalDifficulty(1)")


# (type, callee, args, required facts); an effect not in the table is a violation
TABLE = [
    (3, "UpdateTotals", [M("PingMessage") + ".m_totalDifficulty", M("PingMessage") + ".m_height"], []),
    (3, "SendAsync", ["PongMessage{%s.m_totalDifficulty, %s.m_height}" % (TIP, TIP)], []),
    (4, "UpdateTotals", [M("PongMessage") + ".m_totalDifficulty", M("PongMessage") + ".m_height"], []),
    (5, "SendAsync", ["PeerAddressesMessage{coll(*; SocketAddress{each(m_peerManager.Read().GetPeers(%s.m_capabilities.m_value, 256)).m_ipAddress, Global::GetConfig()*})}" % M("GetPeerAddressesMessage")], []),
    (6, "AddFreshPeers", [M("PeerAddressesMessage") + ".m_peerAddresses"], []),
    (7, "SendAsync", ["HeadersMessage{BlockLocator{m_pBlockChain}.LocateHeaders(%s.m_hashes)}" % M("GetHeadersMessage")], []),
    (8, "UpdateTotals", [HDR + ".m_totalDifficulty", HDR + ".m_height"], [("any", "$0.GetTotalDifficulty() < %s.m_totalDifficulty" % HDR, "%s.m_totalDifficulty > $0.*Difficulty*" % HDR, "$0.* < %s.m_totalDifficulty" % HDR)]),
    (8, "AddBlockHeader", [HDR], [IDLE]),
    (8, "SendAsync", ["GetCompactBlockMessage{%s%s}" % (HDR, HASH)], [IDLE, ("any", ADDH + " == 0", ADDH + " == 4", ADDH + " == 7"), "!" + HAVE]),
    (9, "AddBlockHeaders", [M("HeadersMessage") + ".m_headers"], []),
    (10, "SendAsync", ["BlockMessage{%s}" % GETB], ["has(%s)" % GETB]),
    (11, "ProcessBlock", ["$0", BLK], [SYNCBLOCKS]),
    (11, "AddBlock", [BLK], [NOTBLOCKS]),
    (11, "BroadcastMessage", ["HeaderMessage{%s.m_pBlockHeader}" % BLK, "$0.m_connectionId"], [ADDB + " == 0"]),
    (11, "SendAsync", ["GetCompactBlockMessage{%s.m_pBlockHeader%s}" % (BLK, PREV)], [ADDB + " == 7", more(BLK + ".m_pBlockHeader.m_totalDifficulty")]),
    (12, "SendAsync", ["CompactBlockMessage{%s}" % GETC], ["has(%s)" % GETC]),
    (13, "AddCompactBlock", [CB], []),
    (13, "BroadcastMessage", ["HeaderMessage{%s.m_pBlockHeader}" % CB, "$0.m_connectionId"], [ADDC + " == 0"]),
    (13, "SendAsync", ["GetBlockMessage{%s.m_pBlockHeader%s}" % (CB, HASH)], [ADDC + " == 3"]),
    (13, "SendAsync", ["GetCompactBlockMessage{%s.m_pBlockHeader%s}" % (CB, PREV)], [ADDC + " == 7", more(CB + ".m_pBlockHeader.m_totalDifficulty")]),
    (14, "ProcessTransaction", ["$0", M("StemTransactionMessage") + ".m_pTransaction", "0"], [IDLE]),
    (15, "ProcessTransaction", ["$0", M("TransactionMessage") + ".m_pTransaction", "1"], [IDLE]),
    (16, "SendTxHashSet", ["$0", M("TxHashSetRequestMessage") + ".m_blockHash"], []),
    (17, "ReceiveTxHashSet", ["$0", M("TxHashSetArchiveMessage")], []),
    (19, "SendAsync", ["TransactionMessage{%s}" % GETT], ["has(%s)" % GETT]),
    (20, "SendAsync", ["GetTransactionMessage{%s.m_kernelHash}" % M("TransactionKernelMessage")], [IDLE, "!has(%s)" % GETK]),
]
NAMES = {0: "Error", 3: "Ping", 4: "Pong", 5: "GetPeerAddrs", 6: "PeerAddrs", 7: "GetHeaders", 8: "Header", 9: "Headers", 10: "GetBlock", 11: "Block", 12: "GetCompactBlock", 13: "CompactBlock", 14: "StemTransaction", 15: "Transaction", 16: "TxHashSetRequest", 17: "TxHashSetArchive", 18: "BanReason", 19: "GetTransaction", 20: "TransactionKernel"}


def eventlit(obj, n, args):
    return "ev %s.%s(%s)" % (obj, n, ", ".join(args))


OBJ = {"UpdateTotals": "$0", "SendAsync": "$0", "AddFreshPeers": "m_peerManager.Write()", "AddBlockHeader": "m_pBlockChain", "AddBlockHeaders": "m_pBlockChain", "ProcessBlock": "m_pPipeline", "AddBlock": "m_pBlockChain",
       "BroadcastMessage": "m_connectionManager", "AddCompactBlock": "m_pBlockChain", "ProcessTransaction": "m_pPipeline", "SendTxHashSet": "m_pPipeline", "ReceiveTxHashSet": "m_pPipeline"}


def norm(s):
    """one spelling for a compact block's or block's own header fields"""
    for b in (BLK, CB):
        s = s.replace(b + ".GetHeader()", b + ".m_pBlockHeader")
    return s


def typed(ls, n):
    return "$1.m_header.m_type == %d" % n in ls


def dispatch(c):
    c.rule("dispatch")
    for i, n in NAMES.items():
        pass
    f = c.find("MessageProcessor::ProcessMessage")
    rec = []
    W, o = c.run(f, cap=300, maxterm=20000, watch=lambda x: rec.append(x) if re.search(EFFECT, x["q"]) else None)
    seen = set()
    for x in rec:
        n = x["q"].split("::")[-1]
        ls = [norm(l) for l in lits(x["state"])]
        obj = show(x["obj"]) if x["obj"] is not None else ""
        args = [norm(show(a)) for a in x["args"]]
        at = c.at(x["fn"], x["e"].get("l"))
        ok = None
        for i, (t, m, a, req) in enumerate(TABLE):
            if m == n and typed(ls, t) and len(a) == len(args) and obj == OBJ[n] and all(holds([y], z) for y, z in zip(args, a)):
                miss = [r for r in req if not holds(ls, r)]
                if not miss:
                    ok = i
                else:
                    ok = ok if ok is not None else -1
        types = [l for l in ls if l.startswith("$1.m_header.m_type == ")]
        t = int(types[0].split()[-1]) if len(types) == 1 else None
        c.ob(ok is not None and ok >= 0, "%s on %s is what the message calls for" % (n, NAMES.get(t, "no particular message")), at, key="effect %s %s" % (t, n), detail="%s(%s)\n    %s" % (n, ", ".join(args), "\n    ".join(l for l in ls if not l.startswith("ev "))))
        if ok is not None and ok >= 0:
            seen.add(ok)
        c.sites += 1
    for i, (t, m, a, req) in enumerate(TABLE):
        c.ob(i in seen, "%s leads to %s" % (NAMES[t], m), c.at(f), key="reachable %d %s %d" % (t, m, i))
    # completeness: a returning path whose facts satisfy the conditions has the effect
    for s, v in o.ret:
        ls = [norm(l) for l in lits(s)]
        if any(l.startswith("caught(") for l in ls):
            continue
        ts = [int(l.split()[-1]) for l in ls if l.startswith("$1.m_header.m_type == ")]
        if len(ts) != 1:
            c.ob(not ts, "a path belongs to one message", c.at(f), key="path type")
            continue
        t = ts[0]
        must = []
        has = lambda r: holds(ls, r)
        ev = lambda n, i: eventlit(OBJ[n], n, [r for r in TABLE[i][2]])
        for i, (t2, m, a, req) in enumerate(TABLE):
            if t2 != t:
                continue
            dec = decided(ls, t, m, i)
            if dec:
                must.append(ev(m, i))
        for r in must:
            c.ob(has(r), "%s is carried out in full" % NAMES[t], c.at(f), key="must %d %s" % (t, r[:80]), detail=r + "\n    " + "\n    ".join(ls))


def decided(ls, t, m, i):
    """is the effect i due on a path with these facts? (a condition counts as met unless its negation is a fact)"""
    H = lambda r: holds(ls, r)
    if t in (3, 4, 5, 6, 7, 9, 16, 17):
        return True
    if t == 8 and m == "UpdateTotals":
        return False
    if t == 8 and m == "AddBlockHeader":
        return H(IDLE)
    if t == 8:
        return H(IDLE) and H(("any", ADDH + " == 0", ADDH + " == 4", ADDH + " == 7")) and H("!" + HAVE)
    if t == 10:
        return not H("!has(%s)" % GETB)
    if t == 11 and m == "ProcessBlock":
        return H(SYNCBLOCKS)
    if t == 11 and m == "AddBlock":
        return not H(SYNCBLOCKS)
    if t == 11 and m == "BroadcastMessage":
        return H(ADDB + " == 0")
    if t == 11:
        return H(ADDB + " == 7") and H(more(BLK + ".m_pBlockHeader.m_totalDifficulty"))
    if t == 12:
        return not H("!has(%s)" % GETC)
    if t == 13 and m == "AddCompactBlock":
        return True
    if t == 13 and m == "BroadcastMessage":
        return H(ADDC + " == 0")
    if t == 13 and "GetBlockMessage" in TABLE[i][2][0]:
        return H(ADDC + " == 3")
    if t in (14, 15):
        return H(IDLE)
    if t == 19:
        return not H("!has(%s)" % GETT)
    if t == 20:
        return H(IDLE) and not H("has(%s)" % GETK)
    return False


def locate(c):
    c.rule("locator")
    f = c.find("BlockLocator::LocateHeaders")
    W, o = c.run(f, maxterm=20000)
    K = r"m_pBlockChain\.GetBlockHeaderByHash\(some\(\$0\)\)"
    CH = r"m_pBlockChain\.GetBlockHeaderByHeight\(%s\.m_height, 0\)" % K
    for s, v in o.ret:
        r = show(v)
        ls = lits(s)
        sent = [l for l in ls if re.match(r"ev m_pBlockChain\.GetBlockHeaderByHeight\(", l) and not re.fullmatch("ev " + CH, l)]
        if not sent and re.fullmatch(r"std::vector(\{\})?", r):
            continue
        ok = any(re.fullmatch(r"(some\(\$0\) == %s\.m_proofOfWork\.m_hash|%s == some\(\$0\))" % (CH, CH), l) for l in ls)
        c.ob(ok, "headers are sent from a locator hash that lies on this chain", c.at(f), key="on chain", detail=r[:300] + "\n    " + "\n    ".join(ls))
        m = re.match(r"coll\(std::vector(\{\})?(<-reserve\(.*?\))?; (m_pBlockChain\.GetBlockHeaderByHeight\(\(?i\w*\[.*) if has\(", r)
        for l in sent:
            n = re.fullmatch(r"ev m_pBlockChain\.GetBlockHeaderByHeight\((.*), 0\)", l)
            g = n and re.sub(K, "K", n.group(1))
            k = n and re.fullmatch(r"\(?i\w*\[(.*?)\.\.(.*?\))\)( \+ K\.m_height)?( \+ 1)?\)?", g)
            lo, base, plus = (k.group(1), k.group(3), k.group(4)) if k else (None, None, None)
            ok = k and ((lo == "1" and base and not plus) or (lo == "0" and base and plus) or ("K.m_height" in lo and "1" in lo and not base))
            c.ob(bool(ok), "the headers sent follow the located one in order", c.at(f), key="order", detail=g or l)
            c.ob(bool(k) and "512" in k.group(2) and "min(" in k.group(2), "at most 512 headers are sent", c.at(f), key="limit", detail=g or l)
        if m:
            c.ob(True, "headers collected", c.at(f), key="collected")
            head = m.group(3)
            c.ob(not re.search(r"<-\w+\(", head), "the headers are sent unchanged", c.at(f), key="unchanged", detail=head[:300])
    c.ob(any("coll(" in show(v) and "GetBlockHeaderByHeight" in show(v) for s, v in o.ret), "known headers are sent", c.at(f), key="sent")


def broadcast(c):
    c.rule("announce")
    f = c.find("ConnectionManager::BroadcastMessage")
    rec = []
    W, o = c.run(f, watch=lambda x: rec.append(x) if x["q"].endswith("::SendAsync") or x["q"].endswith("::SendSync") else None)
    c.ob(bool(rec), "an announcement is sent", c.at(f), key="sent")
    for x in rec:
        ls = [l for l in lits(x["state"]) if not l.startswith("ev ")]
        ob = show(x["obj"])
        ok = ob.startswith("each(m_connections.Read()") and show(x["args"][0]) == "$0" and set(ls) <= {"$1 != %s.m_connectionId" % ob, "%s.m_connectionId != $1" % ob} and len(ls) == 1
        c.ob(ok, "an announcement goes to every connection but its source", c.at(x["fn"], x["e"].get("l")), key="all but source", detail=ob + "\n    " + "\n    ".join(ls))
    c.exit("Connection::UpdateTotals", ["ev m_connectedPeer.UpdateTotals($0, $1)"])
    c.exit("Connection::SendAsync", [("any", "has(m_sendingDisabled)", "m_sendingDisabled", "ev m_pSocket.SendAsync($0.Serialize(this.GetProtocolVersion()))", "ev m_pSocket.SendAsync($0.Serialize(this.*))")])
    # transaction pipeline
    f = c.find("TransactionPipe::AddTransactionToProcess")
    c.exit(f, ["ev m_transactionsToProcess.push_back_unique(*{$0.m_connectionId, $0.m_connectedPeer.m_pPeer, $1, $2}, *)"])
    f = c.find("TransactionPipe::Thread_ProcessTransactions")
    rec = []
    W, o = c.run(f, watch=lambda x: rec.append(x) if re.search(EFFECT, x["q"]) else None)
    T = r"[^ (]*\.m_transactionsToProcess\.copy_front\(\)"
    n = 0
    for x in rec:
        name = x["q"].split("::")[-1]
        ls = lits(x["state"])
        a = [show(y) for y in x["args"]]
        at = c.at(x["fn"], x["e"].get("l"))
        if name == "AddTransaction":
            n |= 1
            c.ob(re.fullmatch(T + r"\.pTransaction", a[0]) and re.fullmatch(T + r"\.poolType", a[1]), "a queued transaction is offered to the pool it was sent for", at, key="pool", detail=str(a))
        elif name == "BroadcastMessage":
            n |= 2
            add = r"[^ ]*\.m_pBlockChain\.AddTransaction\(%s\.pTransaction, %s\.poolType\)" % (T, T)
            c.ob(any(re.fullmatch(add + " == 0", l) for l in ls) and any(re.fullmatch(T + r"\.poolType == 1", l) for l in ls), "a transaction is announced only once accepted, and never in its stem phase", at, key="announce", detail="\n    ".join(ls))
            c.ob(re.fullmatch(r"TransactionKernelMessage\{each\(%s\.pTransaction\.m_transactionBody\.m_kernels\)\.(GetHash\(\)|m_hash.*)\}" % T, a[0]) and re.fullmatch(T + r"\.m_connectionId", a[1]), "the announcement names the transaction's kernels and excepts its source", at, key="announce what", detail=str(a))
        else:
            c.ob(False, "the transaction worker does nothing else", at, key="worker " + name)
    c.ob(n == 3, "the transaction worker was analysed", c.at(f), key="worker")
    c.exit("Pipeline::ProcessTransaction", ["ev m_pTransactionPipe.AddTransactionToProcess($0, $1, $2)"])
    c.exit("Pipeline::ProcessBlock", ["ev m_pBlockPipe.AddBlockToProcess(*, $1)"])


def run(c):
    dispatch(c)
    locate(c)
    broadcast(c)
