"""Onion addresses: what names a key, and which services run."""
import re
from engine import show
from spec import lits, holds, callers, sname, _walk

PROPERTY = dict(
    title="An onion address names one valid key; services run for the wallet's own keys",
    statement="An address is accepted as a Tor address only if it has the right length and version, decodes completely, carries the checksum of its own key, and that key is a valid point; the address built from a key is exactly the one that parses back to it. "
              "An onion service is started only with a key derived from the wallet's own seed, leads to that wallet's listener on this machine, is recorded only once Tor confirmed it, is started again when Tor restarts, and once removed is not started again. "
              "Payments to an address go to that address through the local Tor proxy only, and any refusal by Tor is reported as a failure.",
    over=["inputs", "histories"], qtext="every address string, every key, and every sequence of adding and removing services and restarting Tor",
    why="An address accepted with a bad checksum or key sends a payment to nobody or to an impostor; a service left behind leads strangers to another wallet's port.",
    files=["src/Net/Tor/TorAddressParser.cpp", "src/Net/Tor/TorProcess.cpp", "src/Net/Tor/TorControl.cpp", "src/Net/Tor/TorControlClient.cpp", "src/Net/Tor/TorConnection.cpp", "src/Crypto/ED25519.cpp", "include/Wallet/Models/Slatepack/SlatepackAddress.h", "src/Wallet/WalletManagerImpl.cpp"],
    mechanism=[("TorAddressParser", "src/Net/Tor/TorAddressParser.cpp"), ("TorProcess", "src/Net/Tor/TorProcess.cpp"), ("TorControl / TorControlClient", "src/Net/Tor")],
    technique="must-fact dataflow over every returning path of the address functions and every call that starts, records or removes a service",
    note="The arithmetic of base32, SHA3 and ED25519 is the libraries'. Which listener is published at all is C24, who may ask for it is C13.",
)

D = "cppcodec::detail::codec::decode($0)"


def runs(c, q, **kw):
    f = c.find(q, **{k: kw.pop(k) for k in ("nparams", "ptype") if k in kw})
    rec = []
    rx = kw.pop("rx", None)
    W, o = c.run(f, cap=200, maxterm=20000, watch=(lambda x: rec.append(x) if re.search(rx, x["q"]) else None) if rx else None, **kw)
    c.sites += len(rec) + len(o.ret)
    return f, o, rec


def digest(c, f, t, key, ver, what):
    """t: the term the checksum is computed from"""
    m = re.search(r"SHA3\{(\d+)\}\.(?:invoke|op\(\))\((.*?)\.data\(\), (\d+)\)", t)
    ok = bool(m) and m.group(1) == "256" and m.group(3) == str(15 + 32 + 1)
    src = m.group(2) if m else ""
    at = [src.find(x) for x in ('".onion checksum"', key, ver)]
    # the prefix is inserted first, the key next, the version last
    parts = re.findall(r'each\("\.onion checksum"\)|<-insert\(|<-push_back\(|each\(', src)
    ok = ok and -1 not in at[:2] and at[0] < at[1] and src.endswith("<-push_back(%s)" % ver)
    ok = ok and key + ".cbegin(), " + key + ".cend()" in src or ok and "each(%s" % key in src
    c.ob(ok, "%s is the digest of prefix, key and version" % what, c.at(f), key="digest " + what, detail=t)
    c.ob(".substr(0, 4)" in t, "%s is the first two bytes of the digest" % what, c.at(f), key="digest cut " + what, detail=t[-80:])


def addresses(c):
    c.rule("parse")
    f, o, _ = runs(c, "TorAddressParser::Parse")
    n = 0
    for s, v in o.ret:
        t = show(v).replace(D, "D")
        if t in ("std::nullopt", "null"):
            continue
        n += 1
        ls = [l.replace(D, "D") for l in lits(s)]
        m = re.fullmatch(r"TorAddress\{\$0, (.*), (at\(D, \d+\)|\d+)\}", t)
        c.ob(bool(m), "the parsed address keeps its text, key and version", c.at(f), key="parse result", detail=t)
        if not m:
            continue
        K, V = m.group(1), m.group(2)
        c.ob(V == "at(D, 34)" or V == "3", "the version is the last byte", c.at(f), key="version byte", detail=V)
        c.ob("begin(D)" in K and "(begin(D) + 32)" in K and K.count("begin(D)") == 2, "the key is the first 32 bytes", c.at(f), key="key bytes", detail=K)
        for r, w in (("size($0) == 56", "56 characters"), ("size(D) == 35", "35 bytes"), ("at(D, 34) == 3", "version 3")):
            c.ob(holds(ls, r), "an address is accepted only with %s" % w, c.at(f), key="needs " + w, detail="\n".join(ls))
        c.ob("ED25519::IsValid(%s)" % K in ls, "an address is accepted only with a valid key", c.at(f), key="needs key", detail="\n".join(ls))
        eq = [l for l in ls if " == " in l and "FromHex(" in l and "!" not in l[:1]]
        good = [l for l in eq if re.search(r"\(begin\(D\) \+ 32\), \(begin\(D\) \+ 34\)", l) and not any(re.match(r"(at|trunc\d+|&|op\[\]|>>)\(", x) or re.search(r"(\.|<-|::)(front|back|at|substr|size|op\[\])\([^()]*\)$", x) for x in l.split(" == "))]
        c.ob(len(good) >= 1, "an address is accepted only with the checksum it carries", c.at(f), key="needs checksum", detail="\n".join(eq or ls))
        for l in good[:1]:
            digest(c, f, l, K, "at(D, 34)", "the expected checksum")
    c.ob(n >= 1, "valid addresses are accepted", c.at(f), key="accepts")

    c.rule("build")
    f, o, _ = runs(c, "TorAddressParser::FromPubKey")
    n = 0
    for s, v in o.ret:
        ls = lits(s)
        if any(re.search(r"size\(SHA3\{.*\) < 4$", l) for l in ls):
            continue                        # a digest shorter than two bytes: cannot be
        n += 1
        t = show(v)
        m = re.fullmatch(r"TorAddress\{StringUtil::ToLower\(cppcodec::detail::codec::encode\((.*)\)\), \$0, 3\}", t)
        c.ob(bool(m), "an address is the lower-case base32 text for its key, version 3", c.at(f), key="build result", detail=t)
        body = m.group(1) if m else t
        c.ob(bool(re.match(r"coll\(\$0(\.bytes\.m_data|\.vec\(\))?; each\(", body)) or "$0.cbegin()" in body.split("SHA3")[0] or "$0.bytes.m_data" in body.split("SHA3")[0], "the text starts with the key", c.at(f), key="build key", detail=body[:80])
        c.ob(body.endswith("<-push_back(3)"), "the text ends with the version", c.at(f), key="build version", detail=body[-60:])
        digest(c, f, body, "$0", "3", "the built checksum")
    c.ob(n >= 1, "addresses are built", c.at(f), key="builds")
    # wherever an address object is made
    for h in c.F.fns.values():
        for e in _walk(h.get("body")):
            if not isinstance(e, dict) or e.get("k") not in ("ctor", "call"):
                continue
            made = e.get("k") == "ctor" and e.get("cls") == "TorAddress" and len(e.get("a", ())) == 3
            made = made or e.get("k") == "call" and re.match(r"std::make_\w+<TorAddress\b", e.get("fn") or "") and len(e.get("a", ())) == 3
            if made:
                c.sites += 1
                c.ob(h.get("cls") == "TorAddressParser" or sname(h["q"]).startswith("TorAddressParser::"), "an address is made by the parser only", c.at(h, e.get("l")), key="made " + sname(h["q"]))
    c.returns("SlatepackAddress::ToTorAddress", "TorAddressParser::FromPubKey(m_pubkey)")
    c.returns("SlatepackAddress::Parse", "SlatepackAddress{ED25519::ToPubKey(Bech32Address::Parse($0).m_data)}")

    c.rule("keys")
    f, o, _ = runs(c, "ED25519::IsValid")
    VP = "crypto_core_ed25519_is_valid_point($0.data())"
    for s, v in o.ret:
        t, ls = show(v), lits(s)
        ok = t in (VP + " != 0", "(%s != 0)" % VP, VP + " == 1", "(%s == 1)" % VP) or t == "0" or t == "1" and holds(ls, ("any", VP + " != 0", VP + " == 1", VP + " >= 1"))
        c.ob(ok, "a key is valid only if it is a point of the prime-order group", c.at(f), key="valid", detail=t + "\n" + "\n".join(ls))
    f, o, rec = runs(c, "ED25519::ToPubKey", rx=r"^ED25519::IsValid$")
    for s, v in o.ret:
        ls = lits(s)
        c.ob(holds(ls, "size($0) == 32"), "a key has 32 bytes", c.at(f), key="key size", detail="\n".join(ls))
        c.ob(any(re.match(r"ED25519::IsValid\(", l) for l in ls), "a key from outside is checked", c.at(f), key="key checked", detail="\n".join(ls))
        held = [show(v2) for v2 in s.env.values()] + [show(v)]
        c.ob(any("$0" in h for h in held), "the key is the bytes given", c.at(f), key="key bytes kept", detail=str(held))
    for x in rec:
        held = [show(v2) for v2 in x["state"].env.values()] + [show(a) for a in x["args"]]
        c.ob(any(re.search(r"\{\$0\}|\(\$0\)|^\$0$", h) and "size" not in h for h in held if h != "$0") , "the check sees the bytes given", c.at(f, x["e"].get("l")), key="check after copy", detail=str(held))
    f, o, rec = runs(c, "ED25519::CalculateTorKey", rx=r"^crypto_hash_sha512$")
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob("$0" in a[1] and a[2] == "32" and "$0" not in a[0], "Tor's key is the digest of the 32 byte seed", c.at(f, x["e"].get("l")), key="tor key hash", detail=str(a))
    c.ob(bool(rec), "Tor's key is a digest", c.at(f), key="tor key")
    for s, v in o.ret:
        t = show(v)
        c.ob("&(248, op[](" in t and "&(127, op[](" in t and "|(64, op[](" in t and re.search(r", 0\)\)\)", t) and t.count(", 31)") >= 2 and t.find("&(127") < t.rfind("|(64"), "Tor's key is clamped", c.at(f), key="clamped", detail=t[:600])


def services(c):
    TP = "TorProcess::"
    c.rule("starting")
    f, o, rec = runs(c, "TorProcess::AddListener", nparams=3, rx=r"TorControl::AddOnion$|::insert$|::emplace$|insert_or_assign$|op\[\]")
    onion = "m_pControl.AddOnion($1, 80, $2)"
    hit = 0
    for x in rec:
        if x["q"].endswith("AddOnion"):
            a = [show(y) for y in x["args"]]
            hit += 1
            c.ob(a == ["$1", "80", "$2"] and holds(lits(x["state"]), "has(m_pControl)"), "a service runs for its key, on port 80, leading to its listener", c.at(f, x["e"].get("l")), key="onion args", detail=str(a))
    c.ob(hit >= 1, "services are started", c.at(f), key="onion")
    for s, v in o.ret:
        ls, t = lits(s), show(v)
        if t in ("null", "nullptr"):
            continue
        c.ob(holds(ls, "has(TorAddressParser::Parse(%s))" % onion) and "TorAddressParser::Parse(%s)" % onion in t, "a service counts as started only if Tor named its address", c.at(f), key="started", detail=t + "\n" + "\n".join(ls))
    recorded(c)
    f, o, rec = runs(c, "TorProcess::AddListener", nparams=2, rx=r"push_back")
    for s, v in o.ret:
        c.ob(show(v) == "TorAddressParser::FromPubKey(ED25519::CalculatePubKey($0))", "a queued service's address is that of its key", c.at(f), key="queued address", detail=show(v))
        c.ob(any(re.match(r"ev m_servicesToAdd\.(push_back|push_back_unique)\(tuple\(\[\$0, \$1\]\)", l) for l in lits(s)), "a service asked for is queued", c.at(f), key="queued", detail="\n".join(lits(s)))
    c.callers_only("TorControl::AddOnion", {"TorProcess::AddListener"})
    c.callers_only("TorControl::DelOnion", {"TorProcess::RemoveListener"})

    c.rule("restarting")
    f, o, rec = runs(c, "TorProcess::Thread_Initialize", rx=r"TorControl::AddOnion$|ConcurrentQueue::(push_back|pop_front|copy_front)$")
    Q = "$0.m_servicesToAdd"
    reg = {"queued": "each(%s.copy_front(%s.size()))" % (Q, Q), "active": "each($0.m_activeServices).second"}
    for k, src in reg.items():
        adds = [x for x in rec if x["q"].endswith("AddOnion") and [show(a) for a in x["args"]] == [src + ".first", "80", src + ".second"]]
        c.ob(bool(adds), "%s services are started" % k, c.at(f), key=k)
        back = [x for x in rec if x["q"].endswith("push_back") and show(x["args"][0]) == src]
        c.ob(bool(back), "%s services that could not be started are tried again" % k, c.at(f), key=k + " retried")
        for why in ("caught(TorException)", "!has(TorAddressParser::Parse(*))"):
            c.ob(any(holds(lits(x["state"]), why) for x in back), "a %s service is tried again after %s" % (k, why), c.at(f), key="%s %s" % (k, why))
    for x in rec:
        if x["q"].endswith("AddOnion"):
            a = [show(y) for y in x["args"]]
            c.ob(any(a == [src + ".first", "80", src + ".second"] for src in reg.values()), "only services asked for are started", c.at(f, x["e"].get("l")), key="only asked", detail=str(a))
        if x["q"].endswith("pop_front"):
            a, ls = [show(y) for y in x["args"]], lits(x["state"])
            late = [y for y in _walk(x["e"]["a"][0]) if isinstance(y, dict) and y.get("k") == "call" and y.get("n") == "size" and "m_servicesToAdd" in str(y.get("o"))]
            c.ob(not late and a[0] == Q + ".size()" and any(l == "ev %s.copy_front(%s)" % (Q, a[0]) for l in ls), "no more services are taken off the queue than were copied", c.at(f, x["e"].get("l")), key="popped", detail=str(a))

    c.rule("removing")
    f = c.find("TorProcess::RemoveListener")
    f, o, rec = runs(c, "TorProcess::RemoveListener", rx=r"::erase$|TorControl::DelOnion$|ConcurrentQueue::|CalculatePubKey$")
    er = [x for x in rec if x["q"].endswith("erase")]
    c.ob(bool(er), "a removed service is forgotten", c.at(f), key="erased")
    for x in er:
        c.ob("m_activeServices" in show(x["obj"]) and "$0.m_address" in " ".join(show(a) for a in x["args"]), "only the removed service is forgotten", c.at(f, x["e"].get("l")), key="erase what", detail=str([show(a) for a in x["args"]]))
    de = [x for x in rec if x["q"].endswith("DelOnion")]
    c.ob(bool(de), "Tor is told of the removal", c.at(f), key="told")
    for x in de:
        c.ob([show(a) for a in x["args"]] == ["$0"], "Tor is told the removed address", c.at(f, x["e"].get("l")), key="told what")
        c.ob(any(re.match(r"ev m_servicesToAdd\.(pop_front|clear|erase|remove)", l) for l in lits(x["state"])), "a removed service is taken out of the queue first", c.at(f, x["e"].get("l")), key="dequeued", detail="\n".join(lits(x["state"])))
    back = [x for x in rec if x["q"].endswith("push_back")]
    for x in back:
        it = show(x["args"][0])
        c.ob(it == "each(m_servicesToAdd.copy_front(m_servicesToAdd.size()))", "only queued services go back to the queue", c.at(f, x["e"].get("l")), key="requeued", detail=it)
        addr = "TorAddressParser::FromPubKey(ED25519::CalculatePubKey(%s.first))" % it
        c.ob(any((" != " in l or l.startswith("!")) and addr in l and "$0" in l for l in lits(x["state"])), "a removed service does not go back to the queue", c.at(f, x["e"].get("l")), key="requeue filter", detail="\n".join(lits(x["state"])))
    f, o, _ = runs(c, "TorControl::DelOnion")
    for s, v in o.ret:
        c.ob(any(re.match(r'ev m_pClient\.Invoke\(StringUtil::Format\("DEL_ONION \{\}\n", \$0\.m_address\)\)', l) for l in lits(s)), "the service removed is the one named", c.at(f), key="del onion", detail="\n".join(lits(s)))
    for q, want in (("ForeignServer::~ForeignServer", "m_torAddress"),):
        f, o, rec = runs(c, q, rx=r"TorProcess::RemoveListener$")
        c.ob(bool(rec) and all(show(x["args"][0]).startswith(want) for x in rec), "a listener's service is removed with it", c.at(f), key="listener gone")


def recorded(c):
    """m_activeServices is filled with what was started, under the name Tor gave it"""
    F = c.F
    n = 0
    for f in F.fns.values():
        if not sname(f["q"]).startswith("TorProcess::"):
            continue
        for e in _walk(f.get("body")):
            if isinstance(e, dict) and e.get("k") in ("call", "op") and (e.get("n") in ("insert", "emplace", "insert_or_assign", "try_emplace") or e.get("op") in ("[]", "=")):
                o = e.get("o") if e["k"] == "call" else (e.get("a") or [None])[0]
                if not any(isinstance(y, dict) and y.get("k") == "mem" and y.get("n") == "m_activeServices" for y in _walk(o)):
                    continue
                n += 1
                c.ob(f["n"] == "AddListener" and len(f["ps"]) == 3, "services are recorded where they are started", c.at(f, e.get("l")), key="recorded " + sname(f["q"]))
    c.ob(n >= 1, "started services are recorded", ("src/Net/Tor/TorProcess.cpp", 1), key="recorded")
    f = c.find("TorProcess::AddListener", 3)
    rec = []
    c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if x["obj"] is not None and "m_activeServices" in show(x["obj"]) else None)
    for x in rec:
        ls = lits(x["state"])
        a = " ".join(show(y) for y in x["args"])
        c.ob(holds(ls, "has(TorAddressParser::Parse(m_pControl.AddOnion($1, 80, $2)))"), "a service is recorded only once Tor confirmed it", c.at(f, x["e"].get("l")), key="recorded after", detail="\n".join(ls))
        c.ob("m_pControl.AddOnion($1, 80, $2)" in a and "$1, $2" in a, "a service is recorded with its key and port", c.at(f, x["e"].get("l")), key="recorded as", detail=a)


def control(c):
    c.rule("commands")
    f, o, rec = runs(c, "TorControl::AddOnion", rx=r"TorControlClient::Invoke$")
    cmd = 'StringUtil::Format("ADD_ONION ED25519-V3:{} Flags=DiscardPK,Detach Port={},{}\n", cppcodec::detail::codec::encode(ED25519::CalculateTorKey($0).m_seed.m_data), $1, $2)'
    adds = [x for x in rec if "ADD_ONION" in show(x["args"][0])]
    c.ob(bool(adds), "Tor is asked for the service", c.at(f), key="asked")
    for x in adds:
        t = show(x["args"][0])
        c.ob(bool(re.match(r'StringUtil::Format\("ADD_ONION ED25519-V3:\{\} Flags=DiscardPK,Detach Port=\{\},(127\.0\.0\.1:)?\{\}\n", cppcodec::detail::codec::encode\(ED25519::CalculateTorKey\(\$0\)(\.\w+)*(\(\))?\), \$1, \$2\)$', t)), "the service asked for is the key's, on the given ports", c.at(f, x["e"].get("l")), key="add onion", detail=t)
    own = "TorAddressParser::FromPubKey(ED25519::CalculatePubKey($0)).m_address"
    for s, v in o.ret:
        t, ls = show(v), lits(s)
        if "QueryHiddenServices()" in t or t == own:
            c.ob(any(re.fullmatch(r"%s == some\(.*\)|some\(.*\) == %s|std::find\(begin\(.*\), end\(.*\), %s\) != end\(.*\)|has\(found\(.*, %s\)\)|.*has\(.*%s.*\)" % ((re.escape(own),) * 5), l) for l in ls), "a running service is reused only if it is this key's", c.at(f), key="reused", detail="\n".join(ls))
        else:
            c.ob(t.startswith("some(m_pClient.Invoke(") and 'ServiceID="' in t and any(re.search(r'\.StartsWith\("250-ServiceID="\)$', l) and not l.startswith(("!", "ev")) for l in ls), "the address returned is the one Tor gave", c.at(f), key="returned", detail=t)
    replies(c)
    f, o, rec = runs(c, "TorControlClient::Connect", nparams=2, rx=r"async_connect$")
    dests = [show(x["args"][0]) for x in rec]
    c.ob(bool(rec) and all('SocketAddress{"127.0.0.1", $0}.m_ipAddress' in d or 'from_string("127.0.0.1")' in d for d in dests), "Tor is controlled on this machine only", c.at(f), key="control loopback", detail=str(dests))
    for s, v in o.ret:
        if show(v) in ("null", "nullptr"):
            continue
        ls = lits(s)
        i = [k for k, l in enumerate(ls) if l.startswith("ev ") and ".Invoke(" in l]
        c.ob(any('"AUTHENTICATE' in ls[k] and "$1" in ls[k] for k in i), "the control connection is authenticated", c.at(f), key="authenticated", detail="\n".join(ls))

    c.rule("payments")
    f, o, rec = runs(c, "TorProcess::Connect", rx=r"SocketAddress|TorConnection")
    for s, v in o.ret:
        t = show(v)
        if t not in ("null", "nullptr"):
            c.ob(t == 'TorConnection{$0, SocketAddress{"127.0.0.1", m_socksPort}}', "a connection goes to its address through the local proxy", c.at(f), key="connection", detail=t)
    f, o, rec = runs(c, "TorConnection::Invoke", rx=r"HttpRpcClient::Invoke$|::Invoke$")
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob(a == ["m_address.m_address", "$1", "80", "$0"], "a request goes to the connection's address", c.at(f, x["e"].get("l")), key="request to", detail=str(a))
    c.ob(bool(rec), "requests are sent", c.at(f), key="request sent")
    g = c.find("TorConnection::TorConnection")
    ini = [i for i in g.get("inits", ()) if (i.get("f") or "").endswith("m_address")]
    c.ob(bool(ini) and any(x.get("k") == "ref" and x.get("n") == g["ps"][0]["n"] for x in _walk(ini[0]["e"]) if isinstance(x, dict)), "a connection keeps its address", c.at(g), key="keeps address")
    c.ob(any(isinstance(x, dict) and (x.get("k") == "new" and "SOCKSClient" in str(x.get("at")) or x.get("k") == "call" and "SOCKSClient" in (x.get("fn") or "")) for x in _walk([g.get("body"), g.get("inits")])), "a connection uses the proxy", c.at(g), key="uses proxy")
    f, o, rec = runs(c, "SOCKSClient::EstablishConnectionInternal", rx=r"async_connect$|asio::async_write$|EstablishConnectionInternal$")
    n = {"dial": 0, "onion": 0}
    for x in rec:
        a = [show(y) for y in x["args"]]
        if x["q"].endswith("async_connect"):
            n["dial"] += 1
            c.ob("from_string(m_proxyAddress.m_ipAddress.Format())" in a[0] and "m_proxyAddress.m_port" in a[0], "only the proxy is dialled", c.at(f, x["e"].get("l")), key="only proxy", detail=a[0])
        elif x["q"].endswith("async_write"):
            if '".onion"' in a[1]:
                n["onion"] += 1
                c.ob("$0" in a[1] and "$1" in a[1], "the proxy is asked for the onion address and port", c.at(f, x["e"].get("l")), key="onion dest", detail=a[1])
        else:
            c.ob(a[:2] == ["$0", "$1"], "another attempt is for the same address", c.at(f, x["e"].get("l")), key="retry", detail=str(a))
    for k, w in (("dial", "the proxy is dialled"), ("onion", "the proxy is asked for the onion address")):
        c.ob(n[k] >= 1, w, c.at(f), key=w)


def has_str(e, v):
    return any(isinstance(y, dict) and y.get("k") == "str" and y.get("v") == v for y in _walk(e))


def replies(c):
    """typestate over the reply loop: (last line compared equal to the OK line, last line starts with 250)"""
    from flow import Flow
    f = c.find("TorControlClient::Invoke")

    def step(e, s):
        if e.get("k") == "call" and e.get("n") == "ReadLine":
            return (False, False)
        if e.get("k") == "call" and e.get("n") in ("push_back", "emplace_back"):
            c.sites += 1
            kept.append((s[1], e.get("l")))
        return s

    def branch(e, s):
        k, op = e.get("k"), e.get("op")
        if k in ("op", "bin") and op in ("==", "!=") and has_str(e, "250 OK"):
            yes, no = [(True, s[1])], [(False, s[1])]
            return (yes, no) if op == "==" else (no, yes)
        if k == "call" and e.get("n") in ("StartsWith", "starts_with") and has_str(e, "250"):
            return [(s[0], True)], [(s[0], False)]
        return None
    kept = []
    r = Flow(step, branch=branch).run(f, (False, False))
    outs = r["ret"] | r["end"]
    c.ob(bool(outs) and all(x[0] for x in outs), "a command succeeds only with Tor's OK", c.at(f), key="ok")
    c.ob(bool(kept) and all(x for x, l in kept), "a refusal is a failure", c.at(f, kept[0][1] if kept else None), key="refusal")


def wallets(c):
    c.rule("own-keys")
    own = {"Wallet::AddTorListener": r"KeyChain::FromSeed\(m_master_seed\)\.DeriveED25519Key\(\$0\)\.secret_key",
           "WalletManager::AddTorListener": r"KeyChain::FromSeed\(m_sessionManager\.Read\(\)\.GetSeed\(\$0\)\)\.DeriveED25519Key\(\$1\)\.secret_key",
           "ForeignServer::AddTorListener": r"\$0\.DeriveED25519Key\(KeyChainPath::FromString\(\"m/0/1\"\)\.GetChild\(\$3\)\)\.secret_key"}
    seen = set()
    for q in ("ITorProcess::AddListener", "TorProcess::AddListener"):
        for g, e in callers(c.F).get(q, []):
            s = sname(g["q"])
            if s == "TorProcess::Thread_Initialize":
                continue
            seen.add(s)
    for s in sorted(seen | set(own)):
        f, o, rec = runs(c, s, rx=r"TorProcess::AddListener$") if s in own else (None, None, None)
        if f is None:
            # a new helper: judged where it is called from
            g = c.find(s)
            f, o, rec = runs(c, s, rx=r"TorProcess::AddListener$")
            pat = r".*DeriveED25519Key\(.*\)\.secret_key"
        else:
            pat = own[s]
        for x in rec:
            t = show(x["args"][0])
            c.ob(bool(re.fullmatch(pat, t)), "a service is asked for with the wallet's own key", c.at(f, x["e"].get("l")), key="own key " + s, detail=t)
        c.ob(bool(rec), "%s asks for the service" % s, c.at(f), key="asks " + s)
    f, o, rec = runs(c, "WalletManager::AddTorListener", rx=r"SetTorAddress$")
    for x in rec:
        t = show(x["args"][0])
        c.ob(bool(re.fullmatch(r"TorAddressParser::FromPubKey\(ED25519::CalculatePubKey\(%s\)\)|TorAddressParser::FromPubKey\(.*\.public_key\)|\$2\.AddListener\(.*\)" % own["WalletManager::AddTorListener"], t)), "the wallet remembers the address of the service", c.at(f, x["e"].get("l")), key="remembers", detail=t)
    f, o, _ = runs(c, "WalletManager::AddTorListener")
    for s, v in o.ret:
        ls = lits(s)
        none = any(re.search(r"(end\(.*m_contextsByUsername\) == .*\.find\(.*m_username\)|find\(.*m_username\) == end\()", l) for l in ls)
        env = {show(k): show(v) for k, v in s.env.items() if not isinstance(k, tuple)}
        now = [v for k, v in env.items() if re.search(r"\.m_username\)\.second\.m_pServer\.m_torAddress$", k)]
        ok = none or any(re.search(r"^(some\()?TorAddressParser::FromPubKey\(|\.AddListener\(", v) for v in now)
        c.ob(ok, "the listener withdraws the service that replaced its first one", c.at(f), key="replaced", detail="\n".join(ls) + "\n" + str(now))
    f, o, rec = runs(c, "WalletManager::RemoveCurrentTorListener", rx=r"TorProcess::RemoveListener$")
    for x in rec:
        t = show(x["args"][0])
        c.ob(t.startswith("TorAddressParser::FromPubKey(") and "m_sessionManager.Read().GetSeed($0)" in t and 'KeyChainPath::FromString("m/0/1").GetChild(' in t and bool(re.search(r'\.GetChild\((trunc\d+\()?[\w.()$]*\.GetCurrentAddressIndex\(KeyChainPath::FromString\("m/0/0"\)\)\)', t)), "the service removed is the wallet's current one", c.at(f, x["e"].get("l")), key="removes own", detail=t)
    c.ob(bool(rec), "the wallet's service is removed", c.at(f), key="removes")


def run(c):
    addresses(c)
    services(c)
    control(c)
    wallets(c)
