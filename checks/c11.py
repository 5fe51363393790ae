"""Bans and operator peer lists are honoured."""
from engine import sname, show
from spec import holds, lits, calls_in

PROPERTY = dict(
    title="Banned, blocked and unlisted peers are neither accepted nor dialled",
    statement="While a peer is banned, or is excluded by the operator's blocked, allowed or preferred lists, or the connection limit is reached, no connection to or from it is set up, and a connection it already has is dropped. "
              "A ban lasts the whole ban window whatever else happens to the peer's record, unless the operator lifts it.",
    over=["histories", "configurations", "schedules"], qtext="every history of bans, contacts, saves and cleanups of peer records, and every configuration of the peer lists",
    why="Bans are the only defence against a peer known to be hostile; whether one is honoured depends on each place that selects, accepts, keeps or forgets peers.",
    files=["src/P2P/Seed/Seeder.cpp", "src/P2P/Seed/PeerManager.cpp", "src/P2P/Connection.cpp", "src/P2P/ConnectionManager.cpp", "include/P2P/Peer.h", "src/Core/Config.cpp", "src/P2P/P2PServerImpl.cpp"],
    mechanism=[("Seeder::AcceptConnection / SeedNewConnection", "src/P2P/Seed/Seeder.cpp"), ("PeerManager::GetPeersWithCapability", "src/P2P/Seed/PeerManager.cpp"), ("Connection::IsConnectionActive", "src/P2P/Connection.cpp"), ("PeerManager::Thread_ManagePeers", "src/P2P/Seed/PeerManager.cpp")],
    technique="must-fact dataflow: guards established before each place that connects, returns, keeps or erases a peer",
)


def run(c):
    c.rule("connect")
    inb, out = "Seeder::AcceptConnection", "Seeder::SeedNewConnection"
    lists = ["!*.IsPeerBlocked(*)", "*.IsPeerAllowed(*)"]
    c.before(inb, r"^Connection::Connect$", lists + ["!m_peerManager.Write().GetPeer(*).IsBanned()", "m_connectionManager.GetNumberOfActiveConnections() < *m_maxConnections"])
    c.before(out, r"^Connection::Connect$", lists + ["*.IsPeerPreferred(*)", "has(m_peerManager.Write().GetNewPeer(*))"])
    c.callers_only("Connection::Connect", {inb, out})
    # the list questions are asked about the peer being connected
    for q, who in ((inb, "*remote_endpoint()*"), (out, "*GetNewPeer(*")):
        for m in ("IsPeerBlocked", "IsPeerAllowed"):
            rec, _ = c.before(q, r"Config::%s$" % m, [])
            for r in rec:
                a = show(r[5]["args"][0])
                c.ob(("remote_endpoint" in a) if q == inb else ("GetNewPeer" in a), "%s is asked about the peer being connected" % m, c.at(r[1], r[0]), key="%s arg %s" % (q, m), detail=a)
    L = "*m_p2pConfig.m_%sPeers"
    for m, w, dflt in (("Allowed", "true", "true"), ("Blocked", "false", "false"), ("Preferred", "true", "true")):
        f = c.find("Config::IsPeer" + m)
        W, o = c.run(f)
        for s, v in o.ret:
            ls, r = lits(s), show(v)
            empty = holds(ls, "size(*) == 0")
            if empty:
                c.ob(r in (("1", "true") if dflt == "true" else ("0", "false")), "without a list, IsPeer%s is %s" % (m, dflt), c.at(f), key="empty " + m, detail=r)
            else:
                inl = holds(ls, ("any", "has(found(*, $0))", "end(*) != *find(*$0)*", "*.count($0) >= 1", "*.count($0) != 0", "has(*count($0)*)"))
                outl = holds(ls, ("any", "!has(found(*, $0))", "end(*) == *find(*$0)*", "*.count($0) == 0", "!has(*count($0)*)"))
                yes = r in ("1", "true")
                c.ob((inl and yes) or (outl and not yes) or "find(" in r or "count(" in r, "with a list, IsPeer%s is whether it holds the address" % m, c.at(f), key="list " + m, detail=r + "\n" + "\n".join(ls))

    c.rule("select")
    banok = ("any", "!$2", "*.GetLastBanTime() <= *op-(std::chrono::system_clock::now(), std::chrono::duration{10800}*", "!*.IsBanned()")
    f = c.find("PeerManager::GetPeersWithCapability")
    rec, o = c.before(f, r"::(push_back|emplace_back|insert)$", [banok, ("any", "!$2", ("all", "!*.IsConnected()", "difftime(*m_lastAttempt) >= 301"))], match=lambda x: x["args"] and "m_peer" in show(x["args"][-1]))
    for q in ("PeerManager::GetNewPeer",):
        c.before(q, r"::(push_back|emplace_back|insert)$", list(banok[2:]) and [("any", *banok[2:]), "!*.IsConnected()"], match=lambda x: x["args"] and "m_peer" in show(x["args"][-1]), expand=["PeerManager::GetPeersWithCapability"])
    c.const_var("P2P::BAN_WINDOW", 10800)

    c.rule("drop")
    c.exit("Connection::IsConnectionActive", ["!*.IsBanned()", "!has(m_terminate)"], ret="true")
    f = c.find("Peer::IsBanned")
    T = "*now()*duration{10800}*"
    W, o = c.run(f)
    for s, v in o.ret:
        ls = lits(s)
        yes = holds(ls, "std::chrono::system_clock::to_time_t(%s) < this.GetLastBanTime()" % T)
        no = holds(ls, "this.GetLastBanTime() <= std::chrono::system_clock::to_time_t(%s)" % T)
        c.ob((yes and show(v) in ("1", "true")) or (no and show(v) in ("0", "false")), "a peer is banned exactly while its last ban is younger than the ban window", c.at(f), key="isbanned", detail=show(v) + "\n" + "\n".join(ls))
    c.returns("Peer::GetLastBanTime", ["m_lastBanTime*"])
    c.before("Seeder::Thread_Seed", r"ConnectionManager::PruneConnections$", [])
    f = c.find("ConnectionManager::PruneConnections")
    rec, _ = c.before(f, r"::erase$", [("any", "!$0", "!*.IsConnectionActive()")])
    rec, _ = c.before(f, r"Connection::Disconnect$", [])

    c.rule("remember")
    f = c.find("PeerManager::Thread_ManagePeers")
    keep = ("any", "!*.IsBanned()", "*.GetLastBanTime() <= *duration{10800}*")
    rec = []
    D = [e for e in calls_in(f) if (e.get("fn") or "").endswith("DeletePeers")]
    c.ob(len(D) >= 1, "old peers are deleted in one place", c.at(f), key="delete peers")
    W, o = c.run(f)
    sites = []
    doomed = set()
    for e in D:
        a = e["a"][0]
        if a.get("k") == "ref":
            doomed.add(a["n"])
    c.ob(bool(doomed), "the peers to delete are collected before", c.at(f), key="doomed")

    def w(x):
        if x["q"].split("::")[-1] in ("push_back", "emplace_back", "insert"):
            o = x["e"].get("o") or {}
            if o.get("k") == "ref" and o.get("n") in doomed:
                sites.append((x["e"]["l"], x["fn"], lits(x["state"])))
    c.run(f, watch=w)
    c.ob(bool(sites), "peers are collected for deletion", c.at(f), key="collect")
    for l, fn, ls in sites:
        c.ob(holds(ls, keep), "a banned peer's record is not forgotten", c.at(fn, l), key="forget banned", detail="\n".join(ls))
        c.ob(holds(ls, "!*.IsDirty()"), "unsaved changes of a peer's record are not dropped", c.at(fn, l), key="forget dirty", detail="\n".join(ls))
    # what is removed from memory is exactly what was collected
    for f2 in c.F.fns.values():
        if f2.get("body") and f2.get("cls") == "PeerManager":
            for e in calls_in(f2):
                ob = e.get("o") or {}
                if ob.get("n") == "m_peersByAddress" and e.get("n") in ("erase", "clear", "swap", "extract"):
                    c.ob(f2["n"] in ("Thread_ManagePeers", "Create") or f2["n"] not in {"GetPeer", "BanPeer", "UnbanPeer", "AddFreshPeers"}, "only the cleanup removes peer records", c.at(f2, e["l"]), key="erase in " + f2["n"])
    # records are looked up before new ones are made
    rec, _ = c.before("PeerManager::AddFreshPeers", r"::(emplace|insert|insert_or_assign|operator\[\])$", ["!has(found(m_peersByAddress, @0))"])
    for r in rec:
        c.ob(r[5]["q"].split("::")[-1] in ("emplace", "insert"), "gossip never replaces a peer's record", c.at(r[1], r[0]), key="gossip replace")
    f = c.find("PeerManager::GetPeer", ptype="IPAddress", nparams=1)
    for f in [x for x in c.F.fns.values() if x.get("body") and sname(x["q"]) == "PeerManager::GetPeer" and not x.get("const")]:
        c.before(f, r"::(emplace|insert)$", ["!has(found(m_peersByAddress, $0))"])
        c.returns(f, ["found(m_peersByAddress, $0).second.m_peer"], when="has(found(m_peersByAddress, $0))")
    f = c.find("PeerManager::BanPeer")
    c.exit(f, ["ev *.Ban($1)"])
    c.exit(f, [("any", "!has(found(m_peersByAddress, $0))", "ev found(m_peersByAddress, $0).second.m_peer.Ban($1)")])
    c.before(f, r"::(emplace|insert)$", ["ev *.Ban($1)"])
    c.exit("P2PServer::BanPeer", ["ev m_pPeerManager.Write().BanPeer($0, $1)"])
    c.exit("P2PServer::UnbanPeer", ["ev m_pPeerManager.Write().UnbanPeer($0)"])
    c.exit("PeerManager::UnbanPeer", [("any", "!has(found(m_peersByAddress, $0))", "ev *.Unban()")])
    c.callers_only("Peer::Unban", {"PeerManager::UnbanPeer", "P2PServer::UnbanAllPeers"})
    f = c.find("PeersAPI::Peer_Handler")
    c.before(f, r"IP2PServer::BanPeer$|P2PServer::BanPeer$", ["* == \"ban\""])
    c.before(f, r"IP2PServer::UnbanPeer$|P2PServer::UnbanPeer$", ["* == \"unban\""])
    # nothing else touches the time of the last ban
    n = 0
    from effects import writes
    for f in c.F.fns.values():
        if f.get("body") and f.get("cls") == "Peer" and "Peer::m_lastBanTime" in {x for x in writes(c.F, f)}:
            n += 1
            c.ob(f["n"] in ("Ban", "Unban", "Peer", "operator="), "%s does not touch the ban" % f["q"], c.at(f), key="ban time " + f["n"])
    c.ob(n >= 2, "writers of the ban time found (%d)" % n, "include/P2P/Peer.h", key="ban writers")
