"""Encodings: what is written can be read back as the same value, on the wire, on disk and in JSON."""
import itertools
from multiprocessing import Pool
from codec import Codec, TooBig, INTW, norm, showitem, showtr
from engine import sname, show
from spec import calls_in
import jsonpair

PROPERTY = dict(
    title="Every encoding round-trips: readers accept what writers produce, field by field",
    statement="For every protocol version, feature tag and field value, the bytes a type writes have exactly a layout its reader parses (same widths, byte order, lengths and repetition), and each field is restored from the place it was written to; "
              "readers reject unknown feature values. The same holds between JSON writers and readers, key by key.",
    over=["inputs", "configurations"], qtext="every value of every serialisable type, every protocol version, every feature tag",
    why="The layout depends on version, tags, optional fields and list lengths; tests round-trip one or two hand-made values of a few types, and swapped fields of equal width still round-trip in size.",
    files=["include/Core/Serialization/Serializer.h", "include/Core/Serialization/ByteBuffer.h", "src/Core/Models/BlockHeader.cpp", "src/Core/Models/TransactionKernel.cpp", "src/Wallet/Models/Slate/Slate.cpp", "src/P2P/Messages/HandMessage.h", "include/PMMR/Common/Segment.h", "include/Wallet/WalletDB/Models/OutputDataEntity.h"],
    mechanism=[("Serialize/Deserialize pairs", "include/Core, src/Core/Models, src/P2P/Messages, include/Wallet, include/PMMR"), ("Serializer", "include/Core/Serialization/Serializer.h"), ("ByteBuffer", "include/Core/Serialization/ByteBuffer.h"), ("ToJSON/FromJSON pairs", "include/Core/Models, include/Wallet/Models, include/API")],
    technique="grammar inference by abstract interpretation of writers and readers, compared per version and tag, with field-position dataflow",
)

TAGS = {'EKernelFeatures', 'EOutputFeatures', 'BitmapSegmentBlock::ESerializationMode'}
# readers that also accept what earlier releases wrote
OLDER = {"EncryptedSeed", "OutputDataEntity", "SlateContextEntity", "WalletTx"}
# fields with a fixed or derived encoding: (class, item index) are not tied to one field
_F = None


def pairs(F):
    S, D = {}, {}
    for f in F.fns.values():
        if not f.get("body"):
            continue
        if f["n"] in ("Serialize", "SerializeBody") and len(f["ps"]) == 1 and "Serializer" in f["ps"][0]["t"]:
            S[f["cls"]] = f
        if f["n"] == "Deserialize" and len(f["ps"]) >= 1 and any("ByteBuffer" in p["t"] for p in f["ps"]):
            D[f["cls"]] = f
    return S, D


def covers(rs, w):
    """some reader layout parses the written layout (element layouts of groups are compared as sets)"""
    def item(r, x):
        if r == x:
            return True
        if r[0] == "rep" and x[0] == "rep":
            return all(any(tr(b, a) for b in r[1]) for a in x[1])
        return False

    def tr(r, x):
        return len(r) == len(x) and all(item(a, b) for a, b in zip(r, x))
    return [r for r in rs if tr(r, w)]


def one(c):
    """nested types first as units (they are compared on their own), in full where that does not settle it"""
    S, D = pairs(_F)
    r = compare(c, (set(S) & set(D)) - {c})
    if all(o[0] for o in r[1]):
        return r
    return compare(c, ())


def compare(c, opaque):
    F = _F
    S, D = pairs(F)
    out = []        # (ok, what, key, detail)
    fns = set()
    vs = (1, 2, 3, 1000)
    n = 0
    for v in vs:
        a = Codec(F, v, {}, opaque)
        b = Codec(F, v, {}, opaque)
        try:
            a.run(S[c], True)
            b.run(D[c], False)
        except TooBig:
            pass
        T = sorted(a.tested & b.tested & TAGS)
        for combo in itertools.product(*[a.enumv[t] for t in T]):
            tags = dict(zip(T, combo))
            a, b = Codec(F, v, tags, opaque), Codec(F, v, tags, opaque)
            try:
                w, r = a.run(S[c], True), b.run(D[c], False)
            except TooBig:
                out.append((False, "the layouts of %s stay enumerable" % c, c + " size", ""))
                continue
            fns |= a.seen | b.seen
            W = {}
            for s, _ in w:
                W.setdefault(tuple(norm(i) for i in s.items), []).append(s)
            R = {}
            for s, x in r:
                R.setdefault(tuple(norm(i) for i in s.items), []).append((s, x))
            lab = "%s, version %d%s" % (c, v, "".join(", %s=%d" % (k.split("::")[-1], x) for k, x in tags.items()))
            un = [t for t in list(W) + list(R) if any(i[0] == "unknown" for i in t)]
            lost = [t for t in W if not covers(R, t)]
            out.append((not lost and bool(W), "%s: every written layout is one the reader parses" % lab, c + " written",
                        "written: %s\n    read: %s" % ("; ".join(sorted(map(showtr, lost)))[:600], "; ".join(sorted(map(showtr, R)))[:900])))
            if sname(c) not in OLDER:
                extra = [t for t in R if t not in W]
                out.append((not extra, "%s: the reader parses no other layout" % lab, c + " read",
                            "read: %s\n    written: %s" % ("; ".join(sorted(map(showtr, extra)))[:600], "; ".join(sorted(map(showtr, W)))[:900])))
            n += len(W) + len(R)
            # fields
            bad = {}
            known = {q.split("::")[-1] for l in R.values() for _, x in l for q in (x.obj or {})}
            for t, ss in W.items():
                cand = [y for k in covers(R, t) for y in R[k]]
                for s in ss:
                    for i, l in enumerate(s.labs):
                        l = {q for q in l if q in known}
                        if not l:
                            continue
                        seen, got = set(), False
                        for s2, x in cand:
                            if not x.obj:
                                got = True
                                continue
                            for q, y in x.obj.items():
                                p = set(y.pos)
                                for hp, tgt in s2.hints:
                                    if tgt in p:
                                        p |= set(hp)
                                if i in p:
                                    seen.add(q.split("::")[-1])
                        if cand and not got and not (seen & l):
                            bad.setdefault((i, tuple(sorted(l))), (showitem(s.items[i])[:40], sorted(seen), showtr(t)[:300]))
            for (i, l), (it, seen, t) in bad.items():
                out.append((False, "%s: item %d (%s) written from %s is restored to %s" % (lab, i, it, "/".join(l), "/".join(seen) or "nothing"), "%s field %s" % (c, "/".join(l)), t))
            if not bad:
                out.append((True, "%s: each field is restored from where it is written" % lab, c + " fields", ""))
        if not (a.usedver or b.usedver):
            break
    return c, out, fns, n


def run(c):
    global _F
    _F = c.F
    c.rule("wire-layout")
    S, D = pairs(c.F)
    both = sorted(set(S) & set(D))
    import os
    with Pool(min(8, os.cpu_count() or 2)) as p:
        res = p.map(one, both, chunksize=1)
    for cls, out, fns, n in res:
        c.fns |= fns
        c.sites += n
        for ok, what, key, detail in out:
            c.ob(ok, what, c.at(S[cls]), key=key, detail=detail)
    c.ob(len(both) >= 60, "%d types have a writer and a reader (at least 60 expected)" % len(both), "", key="count")
    primitives(c)
    features(c)
    json(c)
    names(c)
    flags(c)
    omitted(c)
    present(c)


def names(c):
    """enumerations written as text or bytes: every value that has a name is restored from it"""
    from spec import lits
    import re
    c.rule("enum-names")
    C = {}
    for f in c.F.fns.values():
        if f["n"] in ("ToString", "FromString", "ToByte", "FromByte") and f.get("body") and len(f["ps"]) == 1:
            C.setdefault(f["q"].rsplit("::", 1)[0], {})[f["n"]] = f
    n = 0
    for cls, d in sorted(C.items(), key=str):
        for a, b in (("ToString", "FromString"), ("ToByte", "FromByte")):
            if a not in d or b not in d or not re.sub(r"\bconst\b|[& ]", "", d[a]["ps"][0]["t"]) in ENUMS(c):
                continue
            wr, rd = {}, {}
            for st, v in c.run(d[a])[1].ret:
                m = [x for x in (re.fullmatch(r"\$0 == (-?\d+)", y) or re.fullmatch(r"(-?\d+) == \$0", y) for y in lits(st)) if x]
                if m:
                    wr[int(m[0].group(1))] = show(v)
            for st, v in c.run(d[b])[1].ret:
                m = [x for x in (re.fullmatch(r'("[^"]*"|-?\d+) == \$0', y) or re.fullmatch(r'\$0 == ("[^"]*"|-?\d+)', y) for y in lits(st)) if x]
                for x in m:
                    rd[x.group(1)] = re.sub(r"^\w+\{(-?\d+)\}$", r"\1", show(v))
            if not wr or not rd:
                continue
            n += 1
            for v, t in sorted(wr.items()):
                c.ob(rd.get(t) == str(v), "%s: value %d is written as %s and %s is read as %s" % (cls, v, t, t, rd.get(t)), c.at(d[b]), key="%s %d" % (cls, v))
            for v in sorted({x for x in rd.values() if x.lstrip("-").isdigit()}):
                c.ob(int(v) in wr, "%s: value %s, which is read, is also written" % (cls, v), c.at(d[a]), key="%s %s named" % (cls, v))
    c.ob(n >= 5, "%d enumerations with names compared" % n, "", key="names count")


def ENUMS(c):
    r = getattr(c, "_en", None)
    if r is None:
        r = c._en = {e["q"] for e in (c.F.enums.values() if isinstance(c.F.enums, dict) else c.F.enums)}
    return r


def flags(c):
    """presence bits: each flag is read from the bit it is written to"""
    from spec import lits
    import re
    c.rule("presence-bits")
    C = {}
    for f in c.F.fns.values():
        if f["n"] in ("ToByte", "FromByte") and f.get("body") and not f["n"] == "ToByte" or f["n"] == "ToByte" and not f["ps"] and f.get("body"):
            C.setdefault(f["cls"], {})[f["n"]] = f
    n = 0
    for cls, d in sorted(C.items(), key=str):
        r = c.F.recs.get(cls)
        if len(d) < 2 or not r:
            continue
        fl = [x["n"] for x in r["fields"] if x["t"] == "bool"]
        if not fl:
            continue
        wr, rd = {}, {}
        rows = [(show(v), lits(st)) for st, v in c.run(d["ToByte"])[1].ret]
        if not all(x[0].isdigit() for x in rows):
            continue
        for f in fl:
            on = [int(v) for v, l in rows if f in l]
            off = [int(v) for v, l in rows if "!" + f in l]
            wr[f] = {m for m in (1 << i for i in range(8)) if on and off and all(v & m for v in on) and not any(v & m for v in off)}
        rows = []
        for st, v in c.run(d["FromByte"])[1].ret:
            e = {show(k).rsplit(".", 1)[-1]: show(x) for k, x in st.env.items() if hasattr(k, "op") and hasattr(x, "op")}
            rows.append((e, lits(st)))
        for f in fl:
            ms = None
            for e, l in rows:
                v, s = e.get(f), set()
                for x in ([y for y in l if not y.startswith("ev ")] if v in ("0", "1") else [v or ""]):
                    m = re.fullmatch(r"(!?)BitUtil::IsSet\(\$0, (\d+)\)", x)
                    if m and (v not in ("0", "1") or (m.group(1) == "!") == (v == "0")):
                        s.add(1 << int(m.group(2)))
                    m = re.fullmatch(r"&\((?:\$0, (\d+)|(\d+), \$0)\) (==|!=|>) 0", x)
                    if m and (v not in ("0", "1") or (m.group(3) == "==") == (v == "0")):
                        s.add(int(m.group(1) or m.group(2)))
                ms = s if ms is None else ms & s
            rd[f] = ms or set()
        for f in fl:
            if wr[f] and rd[f]:
                n += 1
                c.ob(bool(wr[f] & rd[f]), "%s: %s is written to bit mask %s and read from %s" % (cls, f, sorted(wr[f]), sorted(rd[f])), c.at(d["FromByte"]), key="%s.%s" % (cls, f))
    c.ob(n >= 7, "%d presence bits compared" % n, "", key="bits count")


def omitted(c):
    """a field left out when it has a default is restored to that default"""
    from spec import _walk
    from jsonpair import unwrap, strkey, root
    from effects import is_this
    c.rule("defaults")
    n = 0
    for f in sorted(c.F.fns.values(), key=lambda f: f["q"]):
        if f["n"] not in ("ToJSON", "Serialize") or not f.get("body"):
            continue
        cls = f["cls"]
        inits = {}
        for g in c.F.fns.values():
            if g.get("kind") == "ctor" and g.get("cls") == cls:
                for i in g.get("inits", ()):
                    q = (i.get("f") or i.get("n") or "").split("::")[-1]
                    e = unwrap(i.get("e")) if i.get("e") else None
                    while e is not None and e.get("cv") is None and e.get("k") in ("ilist", "ctor") and len(e.get("a", ())) == 1:
                        e = unwrap(e["a"][0])
                    if e is not None and e.get("cv") is not None:
                        inits.setdefault(q, set()).add(int(e["cv"]))
        rd = next((g for g in c.F.fns.values() if g["n"] == "FromJSON" and g.get("cls") == cls and g.get("body")), None)
        for x in _walk(f["body"]):
            k, e = x.get("k"), x
            cond, body = None, None
            if k == "If":
                cond, body = x["c"], x["t"]
            elif k in ("bin", "op") and x.get("op") == "=":
                cond, body = x["a"][-1], None
            if cond is None:
                continue
            cond = unwrap(cond)
            if cond.get("k") not in ("bin", "op") or cond.get("op") != "!=":
                continue
            a = [unwrap(y) for y in (([cond["o"]] if cond.get("o") else []) + cond["a"])]
            if len(a) != 2:
                continue
            if a[0].get("cv") is not None:
                a.reverse()
            if a[0].get("k") != "mem" or not is_this(a[0]["b"]) or a[1].get("cv") is None:
                continue
            d, m = int(a[1]["cv"]), a[0]["n"]
            if f["n"] == "Serialize":
                if m in inits:
                    n += 1
                    c.ob(d in inits[m], "%s: %s is left out when it is %d and starts as %s in a fresh object" % (cls, m, d, sorted(inits[m])), c.at(f, x.get("l")), key="%s wire default %s" % (cls, m))
                continue
            keys = {strkey(z["a"][1]) for y in _walk(body or {}) if y.get("k") in ("op", "bin") and y.get("op") == "=" for z in [unwrap(y["a"][0])] if z.get("k") == "op" and z.get("op") == "[]"}
            for key in keys - {None}:
                for y in _walk(rd["body"] if rd else {}):
                    if y.get("k") == "call" and y.get("n") == "value_or" and any(z.get("k") == "str" and z.get("v") == key for z in _walk(y["o"])) and unwrap(y["a"][0]).get("cv") is not None:
                        n += 1
                        c.ob(int(unwrap(y["a"][0])["cv"]) == d, "%s: \"%s\" is left out when it is %d and read as %s when absent" % (cls, key, d, unwrap(y["a"][0])["cv"]), c.at(rd, y.get("l")), key="%s json default %s" % (cls, key))
    c.ob(n >= 6, "%d omitted defaults compared" % n, "", key="defaults count")


def present(c):
    """a slate's optional field is left out only when it is the value the reader assumes"""
    from spec import lits
    import re
    c.rule("left-out")
    f = c.find("Slate::Serialize", 1)
    W, o = c.run(f, cap=300, maxterm=5000)
    row = {"numParticipants": (2, r"\.Append\(numParticipants\)$"), "amount": (0, r"\.Append\(amount\)$"), "fee": (None, r"^ev fee\.Serialize\("),
           "kernelFeatures": (0, r"\.Append\((trunc8\()?kernelFeatures\)*$"), "ttl": (0, r"\.Append\(ttl\)$")}
    bad = {}
    for s, v in o.ret:
        ls = lits(s)
        for m, (d, w) in row.items():
            if m == "fee":
                ok = [l for l in ls if l in ("Fee{} == fee", "fee == Fee{}", "!Fee{} != fee", "!fee != Fee{}")]
            else:
                ok = [l for l in ls if l in ("%s == %d" % (m, d), "%d == %s" % (d, m)) + (("%s < 1" % m, "%s <= 0" % m, "!0 < %s" % m) if d == 0 else ())]
            if not ok and not any(l.startswith("ev ") and re.search(w, l) for l in ls):
                bad.setdefault(m, [l for l in ls if re.search(r"\b%s\b" % m, l) and not l.startswith("ev ")])
    c.sites += len(o.ret)
    c.ob(bool(o.ret), "slates are written", c.at(f), key="slate written")
    for m, (d, w) in row.items():
        c.ob(m not in bad, "a slate's %s is left out only when it is the value the reader assumes" % m, c.at(f), key="left out " + m, detail="\n".join(bad.get(m, ())))


def primitives(c):
    """writer and reader primitives mirror one another"""
    c.rule("primitives")
    F = c.F
    # every member of the two classes that moves a multi-byte integer tests the byte order and mirrors it
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f["q"]):
        q = f["q"]
        import re
        m = re.match(r"Serializer::(Append|AppendLittleEndian)<(unsigned |signed )?\w+[^>]*>$", q)
        if m and f.get("body") and len(f["ps"]) == 1 and not re.match(r"Serializer::Append<\d", q):
            want = {"Append": ("cbegin", "crbegin"), "AppendLittleEndian": ("crbegin", "cbegin")}[m.group(1)]
            ord_(c, f, want)
            n += 1
        m = re.match(r"ByteBuffer::Read(Big|Little)Endian<", q)
        if m and f.get("body"):
            rd(c, f, m.group(1) == "Big")
            n += 1
        m = re.match(r"ByteBuffer::Read(U?)(8|16|32|64)(_LE)?$", q)
        if m and f.get("body"):
            n += 1
            ok = [e for e in calls_in(f) if re.match(r"ByteBuffer::Read(Big|Little)Endian<", e["fn"])]
            t = re.match(r"ByteBuffer::Read(Big|Little)Endian<(.*)>$", ok[0]["fn"]) if len(ok) == 1 else None
            if ok:
                c.ob(t is not None and INTW.get(t.group(2)) == int(m.group(2)) // 8 and (t.group(1) == "Little") == bool(m.group(3)) and t.group(2).startswith("unsigned") == bool(m.group(1)),
                     "%s reads one %s-bit integer in the right byte order" % (q, m.group(2)), c.at(f), key=q)
    for ty, tag in (("unsigned int", "ESerializeLength::U32"), ("unsigned long", "ESerializeLength::U64")):
        v = c.enum(tag)
        rec, _ = c.before("Serializer::AppendLength", r"^Serializer::Append$", ["$0 == %d" % v], match=lambda x, ty=ty: x["e"]["fn"].startswith("Serializer::Append<%s" % ty))
        c.ob(all(show(r[5]["args"][0]) in ("$1", "trunc32($1)") for r in rec), "the length prefix is the length", "Serializer::AppendLength", key="prefix " + ty)
    for f in c.F.fns.values():
        if f["q"] == "Serializer::AppendVarStr" and f.get("body"):
            rec, _ = c.before(f, r"^Serializer::Append$", [], match=lambda x: x["e"]["fn"].startswith("Serializer::Append<unsigned long"))
            c.ob(all(show(r[5]["args"][0]) == "size($0)" for r in rec), "a string is preceded by its 64-bit length", c.at(f), key="varstr")
        elif f["q"] in ("Serializer::AppendStr", "Serializer::AppendByteVector", "Serializer::Append") and f.get("body") and len(f["ps"]) == 2:
            n += 1
            c.exit(f, [("any", "$1 != 1", "ev this.Append(size($0))"), ("any", "$1 != 0", "ev this.Append(trunc32(size($0)))", "ev this.Append(size($0))")])
    c.exit("ByteBuffer::ReadVarStr", ["ev *.ReadU64()"])
    c.ob(n >= 16, "%d integer primitives examined" % n, "", key="primitive count")


def branch(f):
    """(statements when the machine is big-endian, when it is little-endian)"""
    from spec import _walk
    for x in _walk(f["body"]):
        if x.get("k") == "If" and any(y.get("fn") == "EndianHelper::IsBigEndian" for y in _walk(x["c"])):
            neg = any(y.get("k") == "un" and y.get("op") == "!" for y in _walk(x["c"]))
            a, b = x["t"], x.get("e")
            return (b, a) if neg else (a, b)
        if x.get("k") == "cond" and any(y.get("fn") == "EndianHelper::IsBigEndian" for y in _walk(x["a"][0])):
            return x["a"][1], x["a"][2]
    return None


def ord_(c, f, want):
    from spec import _walk
    b = branch(f)
    c.fns.add(f["q"])
    if b is None:
        c.ob(False, "%s distinguishes byte orders" % f["q"], c.at(f), key="endian " + sname(f["q"]))
        return
    for part, w in zip(b, want):
        names = {y.get("n") for y in _walk(part or {}) if y.get("k") == "call"}
        rev = bool(names & {"crbegin", "rbegin", "reverse_copy", "reverse"})
        c.ob(rev == (w == "crbegin"), "%s %s the bytes on a %s machine" % (f["q"], "reverses" if w == "crbegin" else "keeps", "big-endian" if w == want[0] and part is b[0] else "little-endian"),
             c.at(f), key="endian %s %s" % (sname(f["q"]), w))


def rd(c, f, big):
    from spec import _walk
    b = branch(f)
    c.fns.add(f["q"])
    if b is None:
        c.ob(False, "%s distinguishes byte orders" % f["q"], c.at(f), key="endian " + sname(f["q"]))
        return
    for i, part in enumerate(b):
        names = {y.get("n") for y in _walk(part or {}) if y.get("k") == "call"}
        rev = bool(names & {"crbegin", "rbegin", "reverse_copy", "reverse"})
        c.ob(rev == ((i == 1) == big), "%s byte order on a %s machine" % (f["q"], "little-endian" if i else "big-endian"), c.at(f), key="endian %s %d" % (sname(f["q"]), i))


def features(c):
    """unknown tags are refused"""
    c.rule("unknown-tags")
    for q, n in (("TransactionKernel::Deserialize", 4), ("OutputIdentifier::Deserialize", 2), ("TransactionOutput::Deserialize", 2)):
        c.exit(q, ["$0.ReadU8() < %d" % n])
    c.exit("TransactionInput::Deserialize", [("any", "$0.ReadU8() < 2", "$0.m_protocolVersion >= 3")])
    c.exit("TransactionKernel::Deserialize", [("any", "$0.ReadU8() != 3", ("all", "*ReadU*() != 0", "*ReadU*() < 10081"))])
    c.exit("ProofOfWork::Deserialize", ["$0.ReadU8() != 0", "$0.ReadU8() < 64"])

    c.rule("fee-bits")
    f = c.find("Fee::Serialize")
    W, o = c.run(f)
    from spec import lits, holds
    for st, v in o.ret:
        for r in ("ev $0.Append(0)", "ev *.Append(m_shift)", "ev *.Append(*>>(m_fee, 32)*)", ("any", "ev *.Append(*&(4294967295, m_fee)*)", "ev *.Append(trunc32(m_fee))")):
            c.ob(holds(lits(st), r), "Fee writes " + str(r), c.at(f), key="fee write " + str(r))
    c.returns("Fee::Deserialize", "Fee{*&(*.ReadU8(), 15)*, (*.ReadU32() + <<(*.ReadU8(), 32))}")
    c.returns("Fee::ToJSON", "*ByteBuffer{this.Serialized(1), 1}.ReadU64()*")
    c.returns("Fee::FromJSON", "Fee::Deserialize(ByteBuffer{Serializer{1}<-Append(JsonUtil::ConvertToUInt64($0)).m_serialized, 1})")


def json(c):
    c.rule("json-keys")
    C = {}
    for f in c.F.fns.values():
        if f["n"] in ("ToJSON", "FromJSON") and f.get("body"):
            C.setdefault(f["cls"], {})[f["n"]] = f
    n = 0
    for cls, d in sorted(C.items()):
        if len(d) < 2:
            continue
        n += 1
        W = jsonpair.writer(c.F, d["ToJSON"])
        R, req, allk = jsonpair.reader(c.F, d["FromJSON"])
        c.fns |= {d["ToJSON"]["q"], d["FromJSON"]["q"]}
        if not W or not allk:
            continue
        at = c.at(d["FromJSON"])
        for k in sorted(req):
            c.ob(k in W, "%s: the key \"%s\" the reader requires is written" % (cls, k), at, key="%s required %s" % (cls, k))
        rk = {}
        for f, ks in R.items():
            for k in ks:
                rk.setdefault(k, set()).add(f.split("::")[-1])
        known = {f.split("::")[-1] for f in R}
        for k, fl in sorted(W.items()):
            if (cls, k) in DERIVED:
                continue
            c.ob(k in allk, "%s: the key \"%s\" is read back" % (cls, k), c.at(d["ToJSON"]), key="%s unread %s" % (cls, k))
            if fl and k in allk:
                c.ob(k in rk or k in TESTED.get(cls, ()), "%s: the value of \"%s\" is kept by the reader" % (cls, k), at, key="%s kept %s" % (cls, k))
            fl = fl & known
            if fl and k in rk:
                c.ob(bool(fl & rk[k]), "%s: \"%s\" is written from %s and restored to %s" % (cls, k, "/".join(sorted(fl)), "/".join(sorted(rk[k]))), at, key="%s key %s" % (cls, k))
        for f, ks in sorted(R.items()):
            f = f.split("::")[-1]
            wk = {k for k, fl in W.items() if f in fl}
            if wk and ks:
                c.ob(bool(wk & ks), "%s: %s is restored from a key it is written under" % (cls, f), at, key="%s field %s" % (cls, f))
    c.ob(n >= 28, "%d types have a JSON writer and reader" % n, "", key="json count")


# informative keys of JSON output that carry nothing to restore
DERIVED = {("BlockHeader", "timestamp_local"), ("BlockHeader", "timestamp_raw"), ("BlockHeader", "hash"), ("EncryptedSeed", "version"),
           ("OutputDTO", "block_height"), ("OutputDTO", "merkle_proof"), ("OutputDTO", "mmr_index"), ("OutputDTO", "proof_hash")}

# keys the reader only tests
TESTED = {}
