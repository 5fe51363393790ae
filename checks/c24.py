"""Which interface listens where, and how a request is answered."""
import re
from engine import show
from spec import lits, holds, calls_in, sname, _walk

PROPERTY = dict(
    title="Only the foreign wallet API listens beyond this machine; answers fit requests",
    statement="The node's REST and RPC interfaces and the wallet's owner interface are bound to the loopback address only; the one listener reachable from elsewhere (and the only one published over Tor) offers exactly the foreign wallet calls and a status page, each tied to the wallet the listener was started for. "
              "Every RPC request is carried out only if it is well formed, by the handler registered under the name it asks for. "
              "It is answered once, with its own id and with either a result or an error whose code says what was wrong.",
    over=["inputs", "configurations"], qtext="every configuration of the daemons and every request body",
    why="A listener bound one word too widely hands the wallet to the network; tests only talk to the loopback address.",
    files=["src/Net/Servers/Server.cpp", "include/Net/Servers/RPC/RPCServer.h", "include/Net/Clients/RPC/RPC.h", "src/API/Wallet/Owner/OwnerServer.cpp", "src/API/Wallet/Foreign/ForeignServer.cpp", "src/API/Node/NodeServer.cpp", "src/Server/Node/NodeRestServer.cpp", "src/Net/Util/HTTPUtil.cpp", "src/Wallet/ForeignController.cpp"],
    mechanism=[("Server::Create", "src/Net/Servers/Server.cpp"), ("RPCServer::Handle", "include/Net/Servers/RPC/RPCServer.h"), ("OwnerServer / ForeignServer / NodeServer", "src/API")],
    technique="must-fact dataflow at every call that opens a listener or registers a handler in the whole program, and on every returning path of the request dispatcher",
    note="That no exception escapes a handler is C12, the tokens the owner calls demand are C13, what is logged of them is C14. The P2P port is not part of this property.",
)

OWNER = {"create_wallet": "CreateWalletHandler", "restore_wallet": "RestoreWalletHandler", "login": "LoginHandler", "logout": "LogoutHandler", "send": "SendHandler", "receive": "ReceiveHandler",
         "finalize": "FinalizeHandler", "retry_tor": "RetryTorHandler", "delete_wallet": "DeleteWalletHandler", "get_wallet_seed": "GetWalletSeedHandler", "cancel_tx": "CancelTxHandler",
         "get_balance": "GetBalanceHandler", "list_txs": "ListTxsHandler", "list_outputs": "ListOutputsHandler", "repost_tx": "RepostTxHandler", "estimate_fee": "EstimateFeeHandler",
         "scan_for_outputs": "ScanForOutputsHandler", "address_info": "AddressInfoHandler", "list_wallets": "ListWalletsHandler", "set_tor_config": "UpdateTorConfigHandler",
         "get_tor_config": "GetTorConfigHandler", "get_slatepack_address": "GetWalletAddressHandler", "get_new_slatepack_address": "GetNewWalletAddressHandler"}
FOREIGN = {"receive_tx": "ReceiveTxHandler{$2, $3, $1}", "finalize_tx": "FinalizeTxHandler{$2, $3, $1}", "check_version": "CheckVersionHandler{}", "build_coinbase": "BuildCoinbaseHandler{$2}"}
NODE = {"get_header": "GetHeaderHandler", "get_block": "GetBlockHandler", "get_version": "GetVersionHandler", "get_tip": "GetTipHandler", "push_transaction": "PushTransactionHandler", "get_config": "GetConfigHandler", "update_config": "UpdateConfigHandler"}
V1 = {"/v1/status": "ServerAPI::GetStatus_Handler", "/v1/resync": "ServerAPI::ResyncChain_Handler", "/v1/headers/": "HeaderAPI::GetHeader_Handler", "/v1/blocks/": "BlockAPI::GetBlock_Handler",
      "/v1/chain/outputs/byids": "ChainAPI::GetChainOutputsByIds_Handler", "/v1/chain/outputs/byheight": "ChainAPI::GetChainOutputsByHeight_Handler", "/v1/chain": "ChainAPI::GetChain_Handler",
      "/v1/peers/all": "PeersAPI::GetAllPeers_Handler", "/v1/peers/connected": "PeersAPI::GetConnectedPeers_Handler", "/v1/peers/": "PeersAPI::Peer_Handler", "/v1/txhashset/roots": "TxHashSetAPI::GetRoots_Handler",
      "/v1/txhashset/lastkernels": "TxHashSetAPI::GetLastKernels_Handler", "/v1/txhashset/lastoutputs": "TxHashSetAPI::GetLastOutputs_Handler", "/v1/txhashset/lastrangeproofs": "TxHashSetAPI::GetLastRangeproofs_Handler",
      "/v1/txhashset/outputs": "TxHashSetAPI::GetOutputs_Handler"}


def watch(c, q, rx, **kw):
    f = c.find(q, **kw)
    rec = []
    c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if re.search(rx, x["q"]) else None)
    c.sites += len(rec)
    return f, rec


def binding(c):
    c.rule("binding")
    LOCAL, PUBLIC = c.enum("EServerType::LOCAL"), c.enum("EServerType::PUBLIC")
    f, rec = watch(c, "Server::Create", r"^mg_start$")
    c.ob(bool(rec), "a listener is opened", c.at(f), key="opens")
    for x in rec:
        t = show(x["args"][2])
        m = re.search(r'"listening_ports", (.*?), "enable', t) or re.search(r'"listening_ports", (.*)', t)
        spec = m.group(1) if m else ""
        ls = lits(x["state"])
        local = holds(ls, "$0 == %d" % LOCAL) or (PUBLIC == 1 and holds(ls, "$0 != %d" % PUBLIC))
        ok = '"127.0.0.1"' in spec or '"127.0.0.1:' in spec
        public = holds(ls, "$0 == %d" % PUBLIC) or holds(ls, "$0 != %d" % LOCAL)
        c.ob(ok or public and not local, "a local server listens on the loopback address only", c.at(f, x["e"].get("l")), key="loopback", detail=spec + "\n" + "\n".join(ls))
        c.ob("$1" in spec, "a server listens on the port asked for", c.at(f, x["e"].get("l")), key="port", detail=spec)
        c.ob(t.count('"listening_ports"') == 1, "a server has one set of listening addresses", c.at(f), key="one set")
    for q in ("mg_start", "mg_start2"):
        if c.F.byname.get(q) or q == "mg_start":
            c.callers_only(q, {"Server::Create"})
    c.callers_only("mg_set_request_handler", {"Server::AddListener"})

    c.rule("who-listens-where")
    where = {"NodeRestServer::Create": LOCAL, "OwnerServer::Create": LOCAL, "ForeignServer::Create": PUBLIC, "RPCServer::Create": None}
    c.callers_only("Server::Create", set(where))
    c.callers_only("RPCServer::Create", set(where) | {"NodeServer::Create"})
    for q, t in where.items():
        if t is None:
            continue
        f, rec = watch(c, q, r"^(Server|RPCServer)::Create$")
        for x in rec:
            a = show(x["args"][0])
            if len(x["args"]) < 4 and not x["q"].startswith("Server"):
                continue                    # on an existing server
            c.ob(a == str(t), "%s listens %s" % (q.split("::")[0], "on loopback" if t == LOCAL else "for its wallet"), c.at(f, x["e"].get("l")), key="type " + q, detail=a)
        c.ob(bool(rec), "%s opens its listener" % q, c.at(f), key="listener " + q)
    f = c.find("RPCServer::Create", 4)
    for s, v in c.run(f)[1].ret:
        c.ob(holds(lits(s), "ev Server::Create($0, $1)") and show(v).startswith("RPCServer::Create(Server::Create($0, $1), $2"), "the RPC server listens as asked", c.at(f), key="rpc type", detail=show(v))
    c.callers_only("NodeServer::Create", {"NodeRestServer::Create"})
    f, rec = watch(c, "NodeRestServer::Create", r"^NodeServer::Create$")
    for x in rec:
        a = show(x["args"][0])
        c.ob(a.startswith("Server::Create(%d, " % LOCAL), "the node's RPC interface shares the local listener", c.at(f, x["e"].get("l")), key="node rpc", detail=a)


def methods(c):
    c.rule("methods")

    def table(q, rx, srv, want, closed, what):
        f, rec = watch(c, q, rx)
        got = {}
        for x in rec:
            k = show(x["args"][0]).strip('"')
            if srv is not None and not holds([show(x["obj"])], srv):
                continue
            got.setdefault(k, set()).add(show(x["args"][1]))
            if closed:
                c.ob(k in want, "%s offers nothing but the known calls" % what, c.at(x["fn"], x["e"].get("l")), key="%s offers %s" % (what, k))
        for k, h in want.items():
            hs = got.get(k, set())
            c.ob(bool(hs) and all(y == h if "{" in h or "::" in h else y.startswith(h + "{") or y.startswith("fn(" + h) for y in hs), "%s answers %s with %s" % (what, k, h.split("{")[0]), c.at(f), key="%s %s" % (what, k), detail=str(hs))

    P = c.enum("EServerType::PUBLIC")
    table("ForeignServer::Create", r"^RPCServer::AddMethod$", None, FOREIGN, True, "the public listener")
    table("ForeignServer::Create", r"^Server::AddListener$", None, {"/status": "fn(ForeignServer::StatusListener)"}, True, "the public listener")
    table("OwnerServer::Create", r"^RPCServer::AddMethod$", None, OWNER, False, "the owner interface")
    table("NodeServer::Create", r"^RPCServer::AddMethod$", None, NODE, False, "the node interface")
    table("NodeRestServer::Create", r"^Server::AddListener$", None, {k: "fn(%s)" % v for k, v in V1.items()}, False, "the REST interface")
    c.callers_only("Server::AddListener", {"RPCServer::Create", "ForeignServer::Create", "NodeRestServer::Create"})
    c.callers_only("RPCServer::AddMethod", {"OwnerServer::Create", "ForeignServer::Create", "NodeServer::Create"})
    # what an outsider can read without a wallet
    f = c.find("ForeignServer::StatusListener")
    for s, v in c.run(f)[1].ret:
        c.ob(bool(re.fullmatch(r'HTTPUtil::BuildSuccessResponse\(\$0, (std::basic_string\{)?"[^"]*"\}?\)', show(v))), "the status page says nothing about the wallet", c.at(f), key="status page", detail=show(v))

    c.rule("own-wallet")
    for q, ctor, call in (("ReceiveTxHandler::Handle", "ReceiveCriteria", r"::Receive$"), ("FinalizeTxHandler::Handle", "FinalizeCriteria", r"::Finalize$")):
        f, rec = watch(c, q, call)
        for x in rec:
            t = show(x["args"][0])
            c.ob(bool(re.match(ctor + r"\{(SessionToken\{)?m_token\b", t)), "an incoming slate is handled by the listener's own wallet", c.at(f, x["e"].get("l")), key=q, detail=t)
        c.ob(bool(rec), "%s hands the slate to the wallet" % q, c.at(f), key=q + " acts")
        f, rec = watch(c, q, r"IWalletManager::(?!Receive$|Finalize$)")
        for x in rec:
            if x["e"].get("n") in ("ShouldReuseAddresses",):
                continue
            c.ob(bool(x["args"]) and show(x["args"][0]) == "m_token", "%s is used on the listener's own wallet" % x["e"].get("n"), c.at(f, x["e"].get("l")), key="%s %s" % (q, x["e"].get("n")), detail=str([show(a) for a in x["args"]]))
    q = "ForeignController::StartListener"
    f, rec = watch(c, q, r"^ForeignServer::Create$")
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob(a[0] == "$3" and a[3] == "$2" and a[4] == "$4", "a listener is given its wallet's keys and token", c.at(f, x["e"].get("l")), key="listener args", detail=str(a))
        ls = lits(x["state"])
        c.ob(holds(ls, ("any", "m_contextsByUsername.find($1) == end(m_contextsByUsername)", "!has(found(m_contextsByUsername, $1))", "!has(m_contextsByUsername.find($1))")), "there is one listener per wallet", c.at(f), key="one listener", detail="\n".join(ls))
    c.ob(bool(rec), "a listener is started", c.at(f), key="listener started")

    c.rule("tor-port")
    f, rec = watch(c, "ForeignServer::Create", r"ITorProcess::AddListener$")
    for x in rec:
        c.ob(holds([show(x["args"][1])], "RPCServer::Create(%d, *).m_pServer.m_portNumber" % P), "the onion service leads to the foreign listener only", c.at(x["fn"], x["e"].get("l")), key="onion port", detail=show(x["args"][1]))
    c.ob(bool(rec), "the foreign listener is published", c.at(f), key="onion")
    from spec import callers
    for g, e in callers(c.F).get("ITorProcess::AddListener", []) + callers(c.F).get("TorProcess::AddListener", []):
        q = sname(g["q"])
        if q.startswith("ForeignServer::") or q.startswith("TorProcess::"):
            continue
        f, rec = watch(c, q, r"TorProcess::AddListener$")
        for x in rec:
            p = show(x["args"][-1])
            c.ob(p.endswith("GetListenerPort()") or p.endswith("m_listenerPort") or p == "GetListenerPort()", "an onion service leads to the wallet's listener only", c.at(x["fn"], x["e"].get("l")), key="onion " + q, detail=p)
    c.returns("Server::GetPortNumber", "m_portNumber")


REQ = "RPC::Request::Parse($0)"
BODY = "HTTPUtil::GetRequestBody($0)"


def field(n):
    return 'JsonUtil::GetOptionalField(%s, "%s")' % (BODY, n)


def dispatch(c):
    c.rule("well-formed")
    f = c.find("RPC::Request::Parse")
    W, o = c.run(f, cap=200, maxterm=20000)
    req = ["has(%s)" % BODY, "has(%s)" % field("id"), "has(%s)" % field("jsonrpc"), field("jsonrpc") + ".isString()", ("any", '"2.0" == %s.asString()' % field("jsonrpc"), '%s.asString() == "2.0"' % field("jsonrpc")),
           "has(%s)" % field("method"), field("method") + ".isString()", ("any", "size(%s.asString()) != 0" % field("method"), "size(%s.asString()) >= 1" % field("method"), "%s.asString() != \"\"" % field("method"))]
    for s, v in o.ret:
        ls = lits(s)
        for r in req:
            c.ob(holds(ls, r), "a request is accepted only with %s" % (r if isinstance(r, str) else r[1]), c.at(f), key="parse %s" % str(r)[:80])
        c.ob(show(v) == "RPC::Request{%s, %s.asString(), %s}" % (field("id"), field("method"), field("params")), "a request keeps its id, method and parameters", c.at(f), key="parse result", detail=show(v))
    g = c.find("RPC::Request::Request", 3)
    W, o = c.run(g)
    pars = inits(g)
    c.ob([pars.get(x) for x in ("m_id", "m_method", "m_paramsOpt")] == [[p["n"]] for p in g["ps"]], "a request keeps what it was built from", c.at(g), key="request fields", detail=str(pars))
    c.returns("HTTPUtil::GetRequestBody", ["std::nullopt", "out1(JsonUtil::Parse(*, *))"])
    f = c.find("HTTPUtil::GetRequestBody")
    for s, v in c.run(f)[1].ret:
        if show(v) != "std::nullopt":
            ls = lits(s)
            c.ob(any(re.fullmatch(r"JsonUtil::Parse\(.*\)", l) for l in ls), "a body that is not JSON is refused", c.at(f), key="body json")
            c.ob(any("content_length" in l and "size(" in l for l in ls), "a body is read in full", c.at(f), key="body full", detail="\n".join(ls))

    c.rule("dispatch")
    f = c.find("RPCServer::Handle")
    W, o = c.run(f, cap=200, maxterm=20000)
    FIND = "$1.m_methods.find(%s.m_method)" % REQ
    n = 0
    for s, v in o.ret:
        t, ls = show(v), lits(s)
        if t == "%s.second.Handle(%s)" % (FIND, REQ):
            n += 1
            c.ob(holds(ls, "%s != end($1.m_methods)" % FIND), "a request is carried out by the handler of its method", c.at(f), key="handler")
        elif t.startswith(REQ + ".BuildError(%d" % c.enum("RPC::ErrorCode::METHOD_NOT_FOUND")):
            c.ob(holds(ls, "%s == end($1.m_methods)" % FIND), "an unknown method is answered as such", c.at(f), key="unknown")
        elif t.startswith(REQ + ".BuildError(%d" % c.enum("RPC::ErrorCode::INVALID_PARAMS")):
            c.ob(holds(ls, "caught(DeserializationException)"), "unreadable parameters are answered as such", c.at(f), key="params")
        elif t.startswith("RPC::Response::BuildError("):
            a = t[len("RPC::Response::BuildError("):]
            c.ob(holds(ls, "caught(*)"), "other errors are reported as such", c.at(f), key="other errors")
            if holds(ls, "caught(APIException)"):
                c.ob(bool(re.search(r", \?var\.m_errorCode, \?var\.(m_message|what\(\)|m_what)", t)), "an API error keeps its code and message", c.at(f), key="api error", detail=t)
            else:
                c.ob(", %d, " % c.enum("RPC::ErrorCode::INVALID_REQUEST") in t or ", %d, " % c.enum("RPC::ErrorCode::INTERNAL_ERROR") in t, "an error has an error code", c.at(f), key="code", detail=t)
        else:
            c.ob(False, "a request is answered by its handler or by an error", c.at(f), key="answer", detail=t)
    c.ob(n >= 1, "requests are carried out", c.at(f), key="carried out")
    for k in ("APIException", "std::exception"):
        c.ob(any(holds(lits(s), "caught(%s)" % k) for s, v in o.ret), "an answer is given after a %s" % k, c.at(f), key="answer " + k)

    c.rule("own-id")
    ids(c, f)
    for q, want in (("RPC::Request::BuildError", "RPC::Response::BuildError(m_id, "), ("RPC::Request::BuildResult", "RPC::Response::BuildResult(m_id, ")):
        for g in c.F.byname.get(q, ()):
            W, o = c.run(g)
            for s, v in o.ret:
                c.ob(show(v).startswith(want), "an answer carries the id of its request", c.at(g), key="id " + q, detail=show(v))
    c.returns("RPC::Response::BuildResult", "RPC::Response{$0, $1, std::nullopt}")
    c.returns("RPC::Response::BuildError", "RPC::Response{$0, std::nullopt, RPC::Error{$1, $2, *}}")
    g = c.find("RPC::Response::Response", 3)
    pars = inits(g)
    c.ob([pars.get(x) for x in ("m_id", "m_resultOpt", "m_errorOpt")] == [[p["n"]] for p in g["ps"]], "an answer keeps what it was built from", c.at(g), key="response fields", detail=str(pars))
    # handlers answer the request they were given
    for h in c.F.fns.values():
        if not h.get("body") or not h["q"].endswith("Handler::Handle") or h.get("n") != "Handle":
            continue
        for e in calls_in(h):
            if e.get("n") in ("BuildResult", "BuildError") and "RPC::Re" in (e.get("fn") or ""):
                o = e.get("o") or {}
                while o.get("k") in ("cast", "conv", "un"):
                    o = o.get("e") or o.get("o") or {}
                c.sites += 1
                c.ob((o.get("k") == "ref" and o.get("d") == "param") or (o.get("k") == "ref" and o.get("id") in copies(h)), "a handler answers the request it was given", c.at(h, e.get("l")), key="own request " + sname(h["q"]))

    c.rule("answer-form")
    import jsonpair
    for q, want in (("RPC::Response::ToJSON", {"id", "jsonrpc"}), ("RPC::Error::ToJSON", {"code", "message"})):
        g = c.find(q)
        keys = {}
        for x, cs in jsonpair.under(g.get("body"), ()):
            if isinstance(x, dict) and x.get("k") == "op" and x.get("op") == "[]" and len(x.get("a", ())) == 2:
                k = jsonpair.strkey(x["a"][1])
                if k:
                    keys.setdefault(k, []).append(len(cs))
        for k in want:
            c.ob(k in keys and min(keys[k]) == 0, "%s always has %s" % (q.split("::")[1], k), c.at(g), key="%s %s" % (q, k), detail=str(keys))
    g = c.find("RPC::Response::ToJSON")
    W, o = c.run(g)
    for s, v in o.ret:
        t, ls = show(v), lits(s)
        res, err = "(m_resultOpt)" in t, "m_errorOpt.ToJSON()" in t
        c.ob(res != err and (holds(ls, "has(m_resultOpt)") if res else holds(ls, ("any", "!has(m_resultOpt)", "has(m_errorOpt)"))), "an answer holds either the result or the error", c.at(g), key="result or error", detail=t)
    f = c.find("RPCServer::APIHandler")
    W, o = c.run(f, cap=200, maxterm=20000)
    for s, v in o.ret:
        c.ob(show(v).startswith("HTTPUtil::BuildSuccessResponseJSON($0, ") and sum(1 for l in lits(s) if l.startswith("ev HTTPUtil::Build")) == 1, "every request is answered once", c.at(f), key="answered", detail=show(v)[:200])
    f, rec = watch(c, "HTTPUtil::BuildSuccessResponse", r"^mg_write$")
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob(a[0] == "$0" and "$1" in a[1] and bool(re.fullmatch(r"(trunc\d+\()?size\(\$1\)\)?", a[2])), "the whole answer is sent", c.at(f, x["e"].get("l")), key="sent", detail=str(a))


def inits(g):
    r = {}
    for i in g.get("inits", ()):
        if i.get("f"):
            r[i["f"].split("::")[-1]] = [x.get("n") for x in _walk(i.get("e")) if isinstance(x, dict) and x.get("k") == "ref" and x.get("d") == "param"]
    return r


def copies(h):
    """locals that are a copy of (or a reference to) the request parameter"""
    ids = set()
    for x in _walk(h.get("body")):
        if isinstance(x, dict) and x.get("k") == "D":
            for v in x.get("v", ()):
                if any(y.get("d") == "param" for y in _walk(v.get("i")) if isinstance(y, dict) and y.get("k") == "ref"):
                    ids.add(v.get("id"))
    return ids


def ids(c, f):
    """error answers built from a remembered id: remembered before anything can fail, and never another id"""
    rem = set()
    for e in calls_in(f):
        if (e.get("fn") or "").endswith("Response::BuildError"):
            rem |= {x.get("id") for x in _walk(e["a"][0]) if isinstance(x, dict) and x.get("k") == "ref" and x.get("d") not in ("param",)}
            c.ob(any(x.get("k") == "ref" and "Json::Value" in (x.get("t") or "") for x in _walk(e["a"][0]) if isinstance(x, dict)), "an error answer carries the remembered id", c.at(f, e.get("l")), key="error id")
            other = [x for x in _walk(e["a"][0]) if isinstance(x, dict) and x.get("k") == "call" and x.get("n") == "GetId"]
            if other:
                c.ob(foreign_id_guarded(e["a"][0]), "an error takes its id from elsewhere only when the request had none", c.at(f, e.get("l")), key="foreign id")
    rec = []
    c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if x["q"].endswith("::Handle") else None)
    got = False
    for x in rec:
        env = x["state"].env
        vals = [show(v) for k, v in env.items()]
        got = True
        c.ob(REQ + ".m_id" in vals, "the request's id is remembered before the handler runs", c.at(f, x["e"].get("l")), key="remembered")
    c.ob(got, "handlers are run", c.at(f), key="handlers run")
    for e in _walk(f.get("body")):
        if isinstance(e, dict) and e.get("k") in ("op", "bin") and e.get("op") == "=" and e["a"][0].get("k") == "ref":
            if e["a"][0].get("id") in rem and "Json::Value" in (e["a"][0].get("t") or ""):
                r = [x for x in _walk(e["a"][1]) if isinstance(x, dict) and x.get("k") == "call" and x.get("n") == "GetId" and "Request" in (x.get("fn") or "")]
                c.ob(bool(r), "only the request's own id is remembered", c.at(f, e.get("l")), key="remembered id")


def foreign_id_guarded(x):
    """... ? exception's id : request's id, decided by whether the request's id is known"""
    for y in _walk(x):
        if isinstance(y, dict) and y.get("k") == "cond":
            tests = [z for z in _walk(y["a"][0]) if isinstance(z, dict) and z.get("k") == "call" and z.get("n") in ("isNull", "empty", "has_value")]
            if tests:
                return True
    return False


def run(c):
    binding(c)
    methods(c)
    dispatch(c)
