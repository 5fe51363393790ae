"""Untrusted bytes: no read outside the data received, no allocation beyond it."""
import re
from effects import direct, methods, nodes
from engine import sname, show, subterms, t, const, is_c
from spec import holds, lits, calls_in, callers, baseline

PROPERTY = dict(
    title="Bytes from outside are parsed within bounds and cannot force memory use",
    statement="Whatever bytes arrive from a peer, a slatepack, a database or an HTTP client, parsing reads only bytes that were actually received and rejects input that ends early. "
              "A network message is received only if its magic bytes match and its declared length is within the limit for its type, and memory is reserved only for constant, 16-bit or already-received amounts. "
              "Every loop over a declared count consumes input on each turn.",
    over=["inputs"], qtext="all byte sequences given to the wire, slatepack, database and HTTP body parsers",
    why="A length field is attacker-controlled: one unchecked count reads past a buffer or exhausts memory, on an input no test contains.",
    files=["include/Core/Serialization/ByteBuffer.h", "src/P2P/Messages/MessageHeader.h", "src/P2P/Messages/MessageTypes.h", "src/P2P/Connection.cpp", "src/P2P/Seed/HandShake.cpp", "include/PMMR/Common/Segment.h", "include/PMMR/Common/SegmentProof.h", "src/Net/Util/HTTPUtil.cpp", "include/Crypto/ChaChaPoly.h", "src/Core/Serialization/Base58.cpp"],
    mechanism=[("ByteBuffer reads", "include/Core/Serialization/ByteBuffer.h"), ("MessageHeader::Deserialize", "src/P2P/Messages/MessageHeader.h"), ("MessageTypes::GetMaximumSize", "src/P2P/Messages/MessageTypes.h"), ("Connection::HandleReceivedHeader", "src/P2P/Connection.cpp")],
    technique="must-fact dataflow at every buffer access and allocation site (offset and size terms against the guarding comparison), width-based taint of stream counts, and a per-loop consumption rule over all parsers",
)

SIZES = {"Error": 0, "Hand": 128, "Shake": 88, "Ping": 16, "Pong": 16, "GetPeerAddrs": 4, "PeerAddrs": 4 + 19 * 256, "GetHeaders": 1 + 32 * 20, "Header": 365,
         "Headers": 2 + 365 * 512, "GetBlock": 32, "Block": 1348032, "GetCompactBlock": 32, "CompactBlockMsg": 134803, "StemTransaction": 1348032, "TransactionMsg": 1348032,
         "TxHashSetRequest": 40, "TxHashSetArchive": 64, "BanReasonMsg": 64, "GetTransactionMsg": 32, "TransactionKernelMsg": 32, "GetOutputBitmapSegment": 41, "OutputBitmapSegment": 2696064,
         "GetOutputSegment": 41, "OutputSegment": 2696064, "GetRangeProofSegment": 41, "RangeProofSegment": 2696064, "GetKernelSegment": 41, "KernelSegment": 2696064}
LIMIT = 1 << 24


def typemax(e, fn=None, depth=0):
    """largest value the expression's type (or constant) allows, looking through conversions; None if unbounded"""
    if "cv" in e:
        return abs(int(e["cv"]))
    k = e.get("k")
    if k in ("cast", "paren", "conv", "mat") and e.get("e"):
        m = typemax(e["e"], fn, depth)
        if m is not None:
            return m
    if k == "bin" and e.get("op") in ("*", "+") and len(e["a"]) == 2:
        a, b = typemax(e["a"][0], fn, depth), typemax(e["a"][1], fn, depth)
        if a is not None and b is not None:
            return a * b if e["op"] == "*" else a + b
    ty = re.sub(r"\bconst\b|&", "", e.get("t", "")).strip()
    if ty in ("unsigned char", "uint8_t", "std::uint8_t"):
        return 255
    if ty in ("unsigned short", "uint16_t", "std::uint16_t"):
        return 65535
    if k == "ref" and fn is not None and depth < 4:
        for d in nodes(fn.get("body")):
            if d.get("k") == "D":
                for v in d["v"]:
                    if v.get("id") == e.get("id") and v.get("i") is not None and ("const" in v.get("t", "") or not assigned(fn, e["id"])):
                        return typemax(v["i"], fn, depth + 1)
    return None


def assigned(fn, i):
    return any((x.get("k") == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["a"][0].get("id") == i)
               or (x.get("k") == "un" and x.get("op") in ("++", "--", "&") and (x.get("e") or {}).get("id") == i)
               or (x.get("k") == "call" and any(p == "r" and a.get("id") == i for a, p in zip(x.get("a") or (), x.get("pm") or ""))) for x in nodes(fn.get("body")))


def is_buffer(e):
    return "ByteBuffer" in e.get("t", "") or "ByteBuffer" in (e.get("cls") or "")


def run(c):
    F = c.F
    base = baseline() or set()

    c.rule("buffer")
    n = 0
    idx, dat = "ByteBuffer::m_index", "ByteBuffer::m_bytes"
    for f in sorted(methods(F, "ByteBuffer"), key=lambda x: x["q"]):
        if f.get("kind") == "ctor" or sname(f["q"]) == "ByteBuffer::ByteBuffer":
            continue
        touches = {m["q"] for m, _ in direct(f)}
        if f["n"] == "GetRemainingSize":
            c.returns(f, ["(-1~m_index + size(m_bytes))", "(size(m_bytes) - m_index)"])
            continue
        if dat not in touches and not any(sname(e.get("fn", "")).startswith("ByteBuffer::") for e in calls_in(f)) or f.get("acc") in (1, 2) or sname(f["q"]) not in base:
            continue
        acc = []

        def ok_amount(ls, amount):
            """is reading `amount` bytes from the cursor guarded here?"""
            a = show(amount)
            A = a.replace("*", "~")
            reqs = [A + " <= this.GetRemainingSize()", A + " <= (-1~m_index + size(m_bytes))"]
            if is_c(amount):
                v = amount.a[0]
                if v == 0:
                    return True
                reqs += ["(m_index + %d) <= size(m_bytes)" % v, "this.GetRemainingSize() >= %d" % v, "!this.GetRemainingSize() < %d" % v]
            if a == "this.GetRemainingSize()":
                return True
            return holds(ls, ("any", *reqs))

        def late(ls):
            """the remaining size must be taken after the last read that moves the cursor"""
            evs = [x for x in ls if x.startswith("ev this.")]
            r = [i for i, x in enumerate(evs) if x == "ev this.GetRemainingSize()"]
            m = [i for i, x in enumerate(evs) if re.match(r"ev this\.Read", x)]
            return not (r and m) or min(r) > max(m)

        def offsets(v):
            """offsets of pointers into the buffer inside a term, relative to the cursor"""
            for y in subterms(v):
                if y.op == "at" and show(y.a[0]) == "m_bytes":
                    yield ("at", y.a[1])
                if y.op == "begin" and show(y.a[0]) == "m_bytes":
                    yield ("begin", y)
                if y.op == "lin" and any(x.op == "begin" and show(x.a[0]) == "m_bytes" for x in subterms(y)):
                    yield ("lin", y)
        from engine import add
        MI = None

        def on_eval(e, res, fn):
            for s, v in res:
                for kind, x in offsets(v):
                    acc.append((e, s, v, kind, x, fn))
        seq = []

        def w(call):
            seq.append(call)
        W = c.walker(watch=w)
        W.on_eval = on_eval
        o = W.run(f)
        c.fns |= W.walked
        # the amount each return consumed
        for s, v in o.ret:
            env = {show(k): x for k, x in s.env.items() if not isinstance(k, tuple)}
            if "m_index" not in env:
                continue
            n += 1
            key = [k for k in s.env if not isinstance(k, tuple) and show(k) == "m_index"][0]
            amount = add(env["m_index"], key, -1)
            ls = lits(s)
            c.ob(ok_amount(ls, amount), "%s advances only over bytes that are there" % f["q"], c.at(f), key="advance %s" % sname(f["q"]), detail="amount %s\n    " % show(amount) + "\n    ".join(ls))
            c.ob(late(ls), "%s checks the size left after its last read" % f["q"], c.at(f), key="order %s" % sname(f["q"]), detail="\n    ".join(ls))
        for e, s, v, kind, x, fn in acc:
            ls = lits(s)
            key = t("fld", t("this"), "m_index")
            txt = show(x)
            good = True
            if kind == "at":
                good = re.fullmatch(r"m_index", txt) is not None
            elif kind == "lin":
                m = re.fullmatch(r"\((.*)\)", txt)
                parts = [p for p in re.split(r" \+ ", m.group(1) if m else txt)]
                if "begin(m_bytes)" in parts:
                    parts.remove("begin(m_bytes)")
                    if parts.count("m_index") != 1:
                        good = False
                    else:
                        parts.remove("m_index")
                        if parts:
                            a = " + ".join(parts)
                            amount = [y for y in subterms(x) if show(y) == a] or ([const(int(a))] if a.isdigit() else [])
                            good = bool(amount) and ok_amount(ls, amount[0])
                else:
                    good = False
            c.ob(good, "%s addresses only received bytes" % f["q"], c.at(fn, e.get("l")), key="access %s" % sname(f["q"]), detail=txt + "\n    " + "\n    ".join(ls))
        for call in seq:
            a = [show(x) for x in call["args"] or ()]
            for i, x in enumerate(a):
                if x == "at(m_bytes, m_index)":
                    c.sites += 1
                    good = call["q"].endswith("memcpy") and len(a) == 3 and i == 1 and ok_amount(lits(call["state"]), call["args"][2])
                    c.ob(good, "%s copies no more than the checked amount" % f["q"], c.at(f, call["e"]["l"]), key="copy %s" % sname(f["q"]), detail=str(a))
    c.ob(n >= 20, "cursor-moving reads found (%d)" % n, "include/Core/Serialization/ByteBuffer.h", key="buffer total")
    for f, who in ((f, m["q"]) for f in F.fns.values() if f.get("body") and f.get("cls") != "ByteBuffer" for m, _ in direct(f) if m["q"] in (idx, dat)):
        c.ob(False, "only the buffer's own methods touch %s" % who, c.at(f), key="outside " + f["q"])

    c.rule("allocation")
    roots = []
    for f in F.fns.values():
        if not f.get("body"):
            continue
        buf = any("ByteBuffer" in p["t"] for p in f["ps"]) or any(sname(e.get("cls") or "") == "ByteBuffer" for e in calls_in(f)) or f["q"] in ("HTTPUtil::GetRequestBody", "Connection::HandleReceivedHeader", "Connection::HandleReceivedBody", "HandShake::RetrieveMessage")
        if buf and sname(f["cls"] if f.get("cls") else "") != "ByteBuffer" and sname(f["q"]) != "ByteBuffer::ByteBuffer":
            if (sname(f["q"]) not in base or f.get("acc") in (1, 2)) and callers(F).get(sname(f["q"])) and f["q"] not in ("Connection::HandleReceivedHeader", "HandShake::RetrieveMessage"):
                continue    # a helper: judged inside its callers
            roots.append(f)
    nalloc = 0
    for f in sorted(roots, key=lambda x: x["q"]):
        sites = []

        def on_eval(e, res, fn):
            k = e["k"]
            arg = None
            if k == "call" and e.get("n") in ("reserve", "resize", "assign") and sname(e.get("fn", "")).startswith("std::") and e.get("a"):
                arg = e["a"][0]
            elif k == "ctor" and re.match(r"(const )?std::(vector|basic_string|deque)\b", e.get("cls", "")) and e.get("a") and re.match(r"(const )?(unsigned|int|long|short|size_t|uint)", e["a"][0].get("t", "")) and "*" not in e["a"][0]["t"] and e["a"][0].get("k") != "ilist":
                arg = e["a"][0]
            elif k == "new" and e.get("arr"):
                arg = e["arr"] if isinstance(e["arr"], dict) else None
            if arg is not None:
                for s, _ in res:
                    sites.append((e, arg, s, fn, W.pure(arg, s)))
        W = c.walker(watch=lambda x: None)
        W.on_eval = on_eval
        W.run(f)
        c.fns |= W.walked
        for e, arg, s, fn, v in sites:
            nalloc += 1
            m = typemax(arg, fn)
            good = m is not None and m <= LIMIT
            if not good:
                V = show(v).replace("*", "~")
                good = v is not None and is_c(v) and abs(v.a[0]) <= LIMIT
                good = good or (v is not None and v.op == "size") or re.search(r"\.ReadU(8|16)\(\)$", show(v)) is not None
                good = good or holds(lits(s), ("any", V + " <= *GetRemainingSize()*", V + " <= size(*)*", "(~*" + V + "*) <= *GetRemainingSize()*"))
                # a length out of a checked message header
                good = good or re.search(r"(\.Read\(\)|MessageHeader::Deserialize\(.*\))\.(Get(Message)?Length\(\)|m_length)$", show(v)) is not None
            c.ob(good, "%s reserves memory only for a bounded amount" % fn["q"], c.at(fn, e.get("l")), key="alloc %s" % sname(fn["q"]), detail="size %s\n    " % show(v) + "\n    ".join(lits(s)))
    c.ob(nalloc >= 10, "allocation sites found (%d) in %d parsers" % (nalloc, len(roots)), "", key="alloc total")
    c.sites += nalloc

    c.rule("loops")
    nl = 0
    for f in sorted((x for x in F.fns.values() if x.get("body")), key=lambda x: x["q"]):
        if sname(f.get("cls") or "") == "ByteBuffer" or not any("ByteBuffer" in p["t"] for p in f["ps"]) and not any(sname(e.get("cls") or "") == "ByteBuffer" for e in calls_in(f)):
            continue
        for L in nodes(f["body"]):
            if L.get("k") not in ("For", "While", "Do"):
                continue
            cond = L.get("c")
            # loops bounded by something already in memory
            if cond is not None and cond.get("k") in ("bin", "op") and any(x.get("k") == "call" and x.get("n") in ("size", "end", "cend", "length") for x in nodes(cond)):
                continue
            if cond is not None and cond.get("k") == "bin" and cond.get("op") in ("<", "<=", "!=") and "cv" in cond["a"][1]:
                continue
            # a buffer the loop itself stops at
            if not any(True for x in nodes(L["b"]) if x.get("k") == "call" and (is_buf_call(x) or passes_buf(x))) and not touches_buffer_count(f, L):
                continue
            nl += 1
            c.ob(must_read(L["b"]), "every turn of a loop of %s over the input consumes some of it" % f["q"], c.at(f, L.get("l")), key="loop %s" % sname(f["q"]))
    c.ob(nl >= 14, "loops over the input found (%d)" % nl, "", key="loops total")

    c.rule("framing")
    rl = "$0*.ReadU64() <= (4~MessageTypes::GetMaximumSize($0*.ReadU8()))"
    o = c.exit("MessageHeader::Deserialize", ["{a}.ReadU8() == at(Global::GetMagicBytes(), 0)", "{a}.ReadU8() == at(Global::GetMagicBytes(), 1)", rl])
    for s, v in o.ret:
        ls = lits(s)
        m = [re.fullmatch(r"(.*) <= \(4\*MessageTypes::GetMaximumSize\((.*)\)\)", x) for x in ls]
        m = [x for x in m if x]
        c.ob(bool(m) and ", %s, %s}" % (m[0].group(2), m[0].group(1)) in show(v), "the header handed on carries exactly the length and type that were checked", "src/P2P/Messages/MessageHeader.h", key="header fields", detail=show(v))
    for g in ("GetMessageLength", "GetLength"):
        c.returns("MessageHeader::" + g, "m_length")
    W, o = c.run(c.find("MessageTypes::GetMaximumSize"))
    enum = {x["n"]: int(x["v"]) for q in (F.enums.values() if isinstance(F.enums, dict) else F.enums) if q["q"] == "MessageTypes::EMessageType" for x in q["c"]}
    c.ob(bool(enum), "message types found", "src/P2P/Messages/MessageTypes.h", key="types")
    val = {}
    other = []
    for s, v in o.ret:
        ls = [x for x in lits(s)]
        m = [re.fullmatch(r"\$0 == (\d+)", x) for x in ls]
        m = [x for x in m if x]
        if m:
            val[int(m[0].group(1))] = show(v)
        else:
            other.append(show(v))
    for name, num in sorted(enum.items(), key=lambda x: x[1]):
        got = val.get(num, other[0] if other else None)
        if name in SIZES:
            c.ob(got is not None and got.isdigit() and int(got) == SIZES[name], "the size limit of %s messages is %d (found %s)" % (name, SIZES[name], got), "src/P2P/Messages/MessageTypes.h", key="limit " + name)
        else:
            c.ob(got is not None and got.isdigit() and int(got) <= LIMIT, "the size limit of %s messages is a bounded constant (found %s)" % (name, got), "src/P2P/Messages/MessageTypes.h", key="limit " + name)
    c.ob(other == ["0"], "unknown message types may carry nothing", "src/P2P/Messages/MessageTypes.h", key="limit unknown", detail=str(other))
    for q in ("Connection::HandleReceivedBody",):
        c.before(q, r"MessageProcessor::ProcessMessage$", [("any", "$2 == $0.GetLength()", "$0.GetLength() == $2", "$2 == $0.GetMessageLength()", "$0.GetMessageLength() == $2", "$0.m_length == $2", "$2 == $0.m_length"), "!has($1)"])
    c.before("Connection::HandleReceivedHeader", r"ByteBuffer::Read$|MessageHeader::Deserialize$", ["$1 == 11", "!has($0)"])
    c.before("HandShake::RetrieveMessage", r"MessageHeader::Deserialize$|ByteBuffer::Read$", [("any", "ev $0.ReceiveSync(11, *", "ev $0.ReceiveSync(*, 11, *"), "size(*) == 11"])
    c.exit("HandShake::RetrieveMessage", ret=lambda v: v not in ("null", "nullptr"), reqs=[("any", *["size(*ReceiveSync(*)) == *.%s" % x for x in ("m_length", "GetLength()", "GetMessageLength()")])])
    # a blocking receive asks for a constant or for the length of a checked header
    for f, e in callers(F).get("Socket::ReceiveSync", ()):
        if sname(f["q"]) == "Connection::ReceiveSync":
            continue
        def wr(call, f=f):
            if call["q"] != "Socket::ReceiveSync":
                return
            v = call["args"][1] if len(call["args"]) > 1 else None
            c.sites += 1
            a = [x for x in call["args"]]
            good = any(is_c(x) for x in a) or any(re.search(r"MessageHeader::Deserialize\(.*\)\.Get(Message)?Length\(\)$|\.Read\(\)\.Get(Message)?Length\(\)$|MessageHeader::Deserialize\(.*\)\.m_length$|\.Read\(\)\.m_length$", show(x)) for x in a)
            c.ob(good, "%s receives a bounded number of bytes" % f["q"], c.at(f, call["e"]["l"]), key="receive " + sname(f["q"]), detail=str([show(x) for x in a]))
        c.run(f, watch=wr)

    c.rule("other-parsers")
    f = [x for x in F.fns.values() if x.get("body") and sname(x["q"]) == "ChaChaPoly::Decrypt" ][0]
    c.exit(f, [("any", "size($1) >= 17", "size($1) > 16", "size($1) >= 16", "!size($1) <= 16", "!size($1) < 17")])
    for q in ("Base58::DecodeCheck", "Base58::SimpleDecodeCheck"):
        for x in [x for x in F.fns.values() if x.get("body") and sname(x["q"]) == q]:
            if any(y.get("n") == "Decode" for y in calls_in(x)):
                c.exit(x, [("any", "size(*) >= 4", "!size(*) < 4", "size(*) > 3")])
    c.exit("JsonUtil::ConvertToVector", ["size(*) == $1"])
    c.exit("ED25519::ToPubKey", ["size($0) == 32"])


def is_buf_call(x):
    return x.get("n", "").startswith("Read") and x.get("fn", "").startswith("ByteBuffer::")


def passes_buf(x):
    return any("ByteBuffer" in (a.get("t") or "") for a in x.get("a") or ())


def touches_buffer_count(f, L):
    """is the loop's bound a value read from a buffer in this function?"""
    c = L.get("c")
    ids = {x["id"] for x in nodes(c) if x.get("k") == "ref" and x.get("id") is not None} if c else set()
    for d in nodes(f["body"]):
        if d.get("k") == "D":
            for v in d["v"]:
                if v.get("id") in ids and v.get("i") is not None and any(x.get("k") == "call" and is_buf_call(x) for x in nodes(v["i"])):
                    return True
    return False


def must_read(s):
    """does every path through the statement (to its normal end or a continue) read from a buffer?"""
    return all(r for kind, r in walk(s, False) if kind in ("fall", "cont"))


def has_read(e):
    return e is not None and any(x.get("k") == "call" and (is_buf_call(x) or passes_buf(x)) or x.get("k") == "ctor" and passes_buf(x) for x in uncond(e))


def uncond(e):
    """sub-expressions evaluated whenever e is"""
    if isinstance(e, dict):
        yield e
        k = e.get("k")
        if k == "lambda":
            return
        if k == "cond":
            yield from uncond(e["a"][0])
            return
        if k == "bin" and e.get("op") in ("&&", "||"):
            yield from uncond(e["a"][0])
            return
        for v in e.values():
            if isinstance(v, (dict, list)):
                yield from uncond(v)
    elif isinstance(e, list):
        for v in e:
            yield from uncond(v)


def walk(s, read):
    """{(how the statement ends, whether something was read by then)}"""
    if s is None:
        return {("fall", read)}
    k = s.get("k")
    if k == "C":
        cur, out = {read}, set()
        for x in s["s"]:
            nxt = set()
            for r in cur:
                for kind, r2 in walk(x, r):
                    if kind == "fall":
                        nxt.add(r2)
                    else:
                        out.add((kind, r2))
            cur = nxt
        return out | {("fall", r) for r in cur}
    if k == "If":
        r = read or has_read(s.get("c")) or has_read(s.get("init"))
        return walk(s["t"], r) | (walk(s["e"], r) if s.get("e") else {("fall", r)})
    if k == "Continue":
        return {("cont", read)}
    if k in ("Break", "Ret"):
        return {("exit", read)}
    if k == "E":
        if s["e"].get("k") == "throw":
            return {("exit", read)}
        return {("fall", read or has_read(s["e"]))}
    if k == "D":
        return {("fall", read or any(has_read(v.get("i")) for v in s["v"]))}
    if k == "Do":
        return {("fall", read or must_read(s["b"]))}
    if k in ("For", "While", "FR"):
        return {("fall", read or has_read(s.get("c")) or has_read(s.get("init")))} | {x for x in walk(s["b"], read) if x[0] == "exit"}
    if k == "Switch":
        r = read or has_read(s.get("c"))
        return {("fall", r), ("cont", r)}
    if k == "Try":
        return walk(s["b"], read) | {x for h in s.get("h") or () for x in walk(h.get("b") if isinstance(h, dict) else None, read)}
    return {("fall", read or has_read(s))}
