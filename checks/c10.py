"""Handshake and admission of connections."""
import re
from engine import sname, show
from spec import holds, lits, calls_in

PROPERTY = dict(
    title="Only peers that complete a matching handshake become connections",
    statement="A connection joins the set of peers only after a handshake in which the peer sent the expected first message in full, is on the same chain (same genesis block), is not this node itself, and, when it dials in, is not connected already; the protocol version used afterwards is the lower of both. "
              "Any failure of connecting or of the handshake drops that connection only, and the listener keeps accepting others.",
    over=["inputs", "histories", "schedules"], qtext="every byte sequence a peer may send during the handshake, and every order of incoming and outgoing connections",
    why="A peer that skips one handshake step receives and relays data as a full member; a listener that stops after one error isolates the node without any visible failure.",
    files=["src/P2P/Seed/HandShake.cpp", "src/P2P/Connection.cpp", "src/P2P/Seed/Seeder.cpp", "src/P2P/ConnectionManager.cpp"],
    mechanism=[("HandShake::PerformHandshake", "src/P2P/Seed/HandShake.cpp"), ("Connection::Thread_Connect", "src/P2P/Connection.cpp"), ("Seeder::Accept", "src/P2P/Seed/Seeder.cpp")],
    technique="must-fact dataflow: what has been established on every path on which the handshake returns, before a connection is registered, and before the listener returns",
)


def listed(t):
    """a member of a list made only of connections that may be pruned"""
    m = re.search(r"each\(coll\(std::vector\{\}; (.*)\)\)$", t)
    parts = re.split(r", (?=\S+ if )", m.group(1)) if m else []
    return bool(parts) and all(re.search(r" if .*(!\$0|!\S*IsConnectionActive\(\))", x) for x in parts)


def run(c):
    c.rule("handshake")
    f = c.find("HandShake::PerformHandshake")
    full = ["size($0.ReceiveSync(11, 1)) == 11", "*.m_length == size($0.ReceiveSync(*.m_length, 0))"]
    OUT, INB = "$1.m_direction == 0", ("any", "$1.m_direction != 0", "$1.m_direction == 1")
    c.exit(f, full + [
        ("any", OUT, INB),
        ("if", OUT, ("all", "*.m_header.m_type == 2", "Global::GetGenesisHash() == ShakeMessage::Deserialize(*).m_hash", "ev $0.SendSync(HandMessage{*")),
        ("if", INB, ("all", "*.m_header.m_type == 1", "Global::GetGenesisHash() == HandMessage::Deserialize(*).m_hash", "HandMessage::Deserialize(*).m_nonce != SELF_NONCE",
                     "!m_connectionManager.IsConnected($1.m_pPeer.m_ipAddress)", "$0.SendSync(ShakeMessage{*")),
        ("if", OUT, "$0.SendSync(HandMessage{*"),
        ("if", OUT, "ev $1*.UpdateVersion(min(1000, ShakeMessage::Deserialize(*).m_version))"),
        ("if", INB, "ev $1*.UpdateVersion(min(1000, HandMessage::Deserialize(*).m_version))"),
        ("if", INB, "ev ShakeMessage{min(1000, HandMessage::Deserialize(*).m_version), *}.Serialize(ProtocolVersion::ToEnum(min(1000, HandMessage::Deserialize(*).m_version)))"),
        ("if", OUT, "ev $1*.UpdateTotals(ShakeMessage::Deserialize(*).m_totalDifficulty, *)"),
        ("if", INB, "ev $1*.UpdateTotals(HandMessage::Deserialize(*).m_totalDifficulty, *)"),
        # what this node says of itself
        ("if", OUT, "ev $0.SendSync(HandMessage{1000, Capabilities{*}, SELF_NONCE, Global::GetGenesisHash(), *"),
        ("if", INB, "ev ShakeMessage{*, Capabilities{*}, Global::GetGenesisHash(), *"),
    ])
    v = c.F.vars.get("SELF_NONCE")
    c.ob(bool(v) and any("GenerateRandom" in str(x.get("i")) for x in v), "the nonce that recognises this node is random", "src/P2P/Seed/HandShake.cpp", key="nonce")
    # the peer's totals and version are recorded only from a verified handshake
    for m in ("UpdateVersion", "UpdateTotals", "UpdateCapabilities", "UpdateUserAgent"):
        c.before(f, r"::%s$" % m, ["Global::GetGenesisHash() == *Message::Deserialize(*).m_hash"], min_sites=2)
    f = c.find("ConnectionManager::IsConnected")
    W, o = c.run(f)
    for s, v in o.ret:
        if show(v) in ("0", "false"):
            c.ob(holds(lits(s), "*each(*m_connections*)*m_ipAddress*") , "an address counts as not connected only after every connection was compared", c.at(f), key="connected false", detail="\n".join(lits(s)))
            c.ob(holds(lits(s), ("any", "$0 != each(*)*m_ipAddress", "!each(*).IsConnectionActive()")), "a live connection to the address counts as connected", c.at(f), key="connected compare", detail="\n".join(lits(s)))

    c.rule("admission")
    f = c.find("Connection::Thread_Connect")
    hs = "ev HandShake{*}.PerformHandshake($0.m_pSocket, $0.m_connectedPeer)"
    for sink in (r"ConnectionManager::AddConnection$", r"Peer::SetConnected$", r"^asio::async_read"):
        c.before(f, sink, [hs])
    W, o = c.run(f)
    c.ob(not o.thr and any(holds(lits(s), ("any", "caught(std::exception*)", "caught(...)")) for s, v in o.ret), "a failed connection attempt is contained in its own thread", c.at(f), key="connect contained")
    c.before(f, r"HandShake::PerformHandshake$", [("any", "$0.m_connectedPeer.m_direction != 0", "$0.m_connectedPeer.m_direction == 1", ("all", "$0.m_pSocket.IsOpen()", "!$0.m_pSocket.IsConnectFailed()"))])
    c.exit(f, [("any", "caught(*)", ("all", hs, "ev $0.m_connectionManager.AddConnection($0)", "ev asio::async_read(*HandleReceivedHeader*"))])
    c.callers_only("ConnectionManager::AddConnection", {"Connection::Thread_Connect"})
    f = c.find("Connection::HandleConnected")
    c.before(f, r"Socket::SetOpen$", [("any", "!has($0)", "@0 == 0")])

    c.rule("listener")
    f = c.find("Seeder::Accept")
    W, o = c.run(f)
    c.ob(not o.thr, "accepting lets no exception escape", c.at(f), key="accept contained", detail=str([x for _, x in o.thr]))
    for s, v in o.ret:
        ls = lits(s)
        armed = holds(ls, "ev m_pAcceptor.async_accept(*")
        c.ob(armed or holds(ls, ("any", "$0 == *operation_aborted*", "$0 == std::error_code{125*")), "the listener is armed again unless it was cancelled", c.at(f), key="rearm", detail="\n".join(ls))
    c.before("Seeder::StartListener", r"async_accept$", [])
    # a connection being read stays read
    f = c.find("Connection::HandleReceivedHeader")
    c.exit(f, [("any", "ev asio::async_read(*HandleReceivedBody*", "ev m_pSocket.CloseSocket()", "!m_pSocket.IsOpen()", "ev *Disconnect()")], cap=80)
    f = c.find("Connection::HandleReceivedBody")
    c.exit(f, [("any", "ev asio::async_read(*HandleReceivedHeader*", "ev m_pSocket.CloseSocket()", "!m_pSocket.IsOpen()", "has(m_receivingDisabled)", "m_receivingDisabled", "ev *Disconnect()")], cap=80)
    f = c.find("ConnectionManager::PruneConnections")
    # what is disconnected, at once or from a list made first, is inactive unless everything is pruned
    c.before(f, r"Connection::Disconnect$", [("any", "!$0", "!*.IsConnectionActive()")], min_sites=0, match=lambda x: not listed(show(x["obj"])))
    c.before(f, r"Connection::Disconnect$", [])
