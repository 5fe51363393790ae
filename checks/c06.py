"""All-or-nothing batches over the chain state."""
import re
from effects import all_bases, methods, writes, direct, on_this
from engine import sname, show
from spec import holds, lits, calls_in

PROPERTY = dict(
    title="Chain-state batches are all-or-nothing in every store",
    statement="Writing to the chain state happens in a batch that spans both chain indices, the block database, the header commitment structure and every file of the output, range-proof and kernel structures: "
              "committing the batch commits each of these and reports a failed write, and abandoning it (early return, failed validation or exception) restores each of them, including their in-memory indices and caches. "
              "A block, header or archive is reported as accepted only after the batch holding it was committed.",
    over=["fault_sequences", "histories"], qtext="every failure point and early exit inside a batch, over every sequence of batches",
    why="A missing rollback in one of a dozen stores shows only when a later step of the same batch fails, and then only through later, unrelated blocks.",
    files=["src/BlockChain/ChainState.cpp", "src/BlockChain/ChainStore.cpp", "src/BlockChain/Chain.cpp", "src/Database/BlockDBImpl.cpp", "src/Database/RocksDB/RocksDB.h", "src/PMMR/TxHashSetImpl.cpp", "src/PMMR/HeaderMMRImpl.cpp", "src/PMMR/Common/PruneableMMR.h", "include/Core/Traits/Lockable.h", "include/Core/File/DataFile.h"],
    mechanism=[("Writer::InnerWriter destructor", "include/Core/Traits/Lockable.h"), ("ChainState::Commit / Rollback", "src/BlockChain/ChainState.cpp"), ("TxHashSet::Rollback", "src/PMMR/TxHashSetImpl.cpp"), ("RocksDB::Commit", "src/Database/RocksDB/RocksDB.h")],
    technique="effect analysis (fields mutated in a batch vs. fields restored on rollback) over every batchable class, plus must-fact dataflow for commit/rollback coverage, dirty marking and status checks",
)

LIFE = {"Commit", "Rollback", "OnInitWrite", "OnEndWrite"}
# state whose replacement is not part of a batch, with the reason
NOT_BATCHED = {
    "TxHashSetManager::m_pTxHashSet": "opening/closing the whole set; its content is batched",
    "BlockDB::m_blockHeadersCache": "only committed headers enter it (own rule)",
    "TxHashSet::m_pBlockHeaderBackup": "the committed header itself",
    "PeerDB::m_pDatabase": "handle", "Traits::IBatchable::m_dirty": "bookkeeping",
    "ChainState::m_chainStoreWriter": "lock handle", "ChainState::m_blockDBWriter": "lock handle",
    "ChainState::m_headerMMRWriter": "lock handle", "ChainState::m_txHashSetWriter": "lock handle",
}


def strip(ty):
    ty = re.sub(r"\bconst\b", "", ty).strip()
    while True:
        m = re.match(r"^(?:std::(?:shared_ptr|unique_ptr|optional)|Writer)<(.*)>$", ty)
        if not m:
            return ty
        ty = re.sub(r", std::default_delete<.*$", "", m.group(1)).strip()
        ty = re.sub(r"^const ", "", ty)


def run(c):
    F = c.F
    batch = {q for q, r in F.recs.items() if "Traits::IBatchable" in all_bases(F, r)}
    names = {m["n"] for q in batch for m in F.recs[q]["methods"]}
    # a resource is anything with its own commit/undo pair
    pair = {}
    for q, r in F.recs.items():
        ms = {m["n"] for m in r["methods"]}
        for b in all_bases(F, r):
            if b in F.recs:
                ms |= {m["n"] for m in F.recs[b]["methods"]}
        if {"Commit", "Rollback"} <= ms:
            pair[q] = ("Commit", "Rollback")
        elif {"Flush", "Discard"} <= ms:
            pair[q] = ("Flush", "Discard")

    def resources(r, pre=""):
        for f in r["fields"]:
            ty = strip(f["t"])
            if ty in pair:
                yield pre + f["n"], pair[ty]
            elif ty in F.recs and ty.startswith(sname(r["q"]) + "::"):
                yield from resources(F.recs[ty], pre + f["n"] + ".")
            elif ty.startswith("rocksdb::Transaction"):
                yield pre + f["n"], ("Commit", "Rollback")

    c.rule("coverage")
    total = 0
    holders = [q for q in sorted(pair) if pair[q][0] == "Commit" and not sname(q).startswith("Writer") and sname(q) != "SqliteTransaction"]
    for q in holders:
        r = F.recs[q]
        if "Wallet" in q or "Sqlite" in q:
            continue
        res = list(resources(r))
        com = [f for f in methods(F, sname(q)) if f["n"] == "Commit" and f.get("cls") == q and not f["ps"]]
        rb = [f for f in methods(F, sname(q)) if f["n"] == "Rollback" and f.get("cls") == q and not f["ps"]]
        for n, (up, down) in res:
            for fs, op in ((com, up), (rb, down)):
                for f in fs:
                    total += 1
                    c.exit(f, [("any", "ev %s.%s(*" % (n, op), "%s.%s(*" % (n, op), "!m_dirty", "%s.IsNull()" % n, "!has(%s)" % n)])
                    # the undo/commit must not depend on anything else
        if res:
            c.ob(bool(com) and bool(rb), "%s holds stores and defines both Commit and Rollback" % q, c.rel(r), key="pair " + q)
    c.ob(total >= 40, "commit/rollback pairs found (%d)" % total, "", key="pairs total")
    for q, want in (("ChainState", ("m_chainStoreWriter", "m_blockDBWriter", "m_headerMMRWriter", "m_txHashSetWriter")),
                    ("ChainStore", ("m_pConfirmedChain", "m_pCandidateChain")), ("TxHashSet", ("m_pKernelMMR", "m_pOutputPMMR", "m_pRangeProofPMMR")),
                    ("TxHashSetManager", ("m_pTxHashSet",)), ("BlockDB", ("m_pRocksDB",)), ("Chain", ("m_dataFileWriter",)), ("RocksDB", ("m_pTransaction",))):
        got = {n for n, _ in resources(F.recs[q])} if q in F.recs else set()
        c.ob(set(want) <= got, "%s owns %s" % (q, ", ".join(want)), q, key="owns " + q, detail=str(got))

    c.rule("memory-state")
    n = 0
    for q in sorted(pair):
        if "Wallet" in q or "Sqlite" in q or sname(q).startswith("Writer"):
            continue
        r = F.recs[q]
        down = pair[q][1]
        undo = [f for f in methods(F, sname(q)) if f["n"] == down and f.get("cls") == q]
        if not undo:
            continue
        restored = writes(F, undo[0])
        res = {x for x, _ in resources(r)}
        for f in methods(F, sname(q)):
            if f.get("cls") != q or f["n"] in LIFE | {"Flush", "Discard", "Load"} or f["n"] == sname(q).split("::")[-1] or f["n"].startswith("~") or f.get("acc") in (1, 2):
                continue
            for w in sorted(writes(F, f)):
                if w in NOT_BATCHED or w.split("::")[-1] in res:
                    continue
                n += 1
                c.fns.add(f["q"])
                c.ob(w in restored, "%s, changed by %s, is restored by %s" % (w, f["q"], undo[0]["q"]), c.at(f), key="restore %s" % w)
    c.ob(n >= 8, "in-memory batch state found (%d)" % n, "", key="memory-state total")
    fs = [f for f in methods(F, "AppendOnlyFile") if f["n"] == "Discard"]
    W, o = c.run(fs[0])
    for s, v in o.ret:
        e = {show(k): show(x) for k, x in s.env.items() if not isinstance(k, tuple)}
        c.ob(e.get("m_bufferIndex") == "m_fileSize", "discarding restores the append position to the committed size", c.at(fs[0]), key="discard index", detail=str(e))
    W, o = c.run("TxHashSet::Rollback" and c.find("TxHashSet::Rollback"))
    for s, v in o.ret:
        e = {show(k): show(x) for k, x in s.env.items() if not isinstance(k, tuple)}
        c.ob(e.get("m_pBlockHeader") == "m_pBlockHeaderBackup", "rolling back restores the last committed header of the output set", "TxHashSet::Rollback", key="header backup", detail=str(e))
    W, o = c.run(c.find("TxHashSet::Commit"))
    for s, v in o.ret:
        e = {show(k): show(x) for k, x in s.env.items() if not isinstance(k, tuple)}
        c.ob(e.get("m_pBlockHeaderBackup") == "m_pBlockHeader", "committing records the new header of the output set", "TxHashSet::Commit", key="header backup set", detail=str(e))

    c.rule("dirty")
    for q in sorted(batch):
        if sname(q) not in ("Chain", "HeaderMMR", "PruneableMMR", "DataFile"):
            continue
        res = {x for x, _ in resources(F.recs[q])}
        for f in methods(F, sname(q)):
            if f.get("cls") != q or f["n"] in LIFE or f.get("const") or f["n"].startswith("~") or f["n"] == sname(q) or f.get("acc") in (1, 2):
                continue
            muts = [x for x in res]
            pats = ["ev %s.%s(*" % (x, m) for x in res for m in ("Rewind", "Append", "AddData", "Add", "Remove", "Set", "Unset")]
            pats += ["%s.Rewind(*" % x for x in res] + ["ev MMRHashUtil::AddHashes(*"]
            c.exit(f, [("if", ("any", *pats), ("any", "ev this.SetDirty(1)", "ev SetDirty(1)"))])

    c.rule("writer")
    # the guard object decides: abandon a batch, complete a plain write, and always end the write and unlock
    D = [f for f in F.fns.values() if f.get("body") and sname(f["q"]).endswith("InnerWriter::~InnerWriter")]
    c.ob(len(D) >= 1, "the writer guard has a destructor", "include/Core/Traits/Lockable.h", key="guard")
    EX = ["Writer::InnerWriter::Rollback", "Writer::InnerWriter::Commit", "Writer::InnerWriter::OnEndWrite"]
    idle = ("any", "!has(m_pObject)", "!m_pObject.m_dirty", "!m_pObject.IsDirty()")
    for f in [x for x in D if "<ChainState>" in x["q"] or "<DataFile<32>>" in x["q"] or "<IBlockDB>" in x["q"] or "<IWalletDB>" in x["q"]]:
        c.before(f, r"(?<!InnerWriter)::Rollback$", ["m_batched"], expand=EX, match=lambda x: x["obj"] is not None and show(x["obj"]) == "m_pObject")
        c.before(f, r"(?<!InnerWriter)::Commit$", ["!m_batched"], expand=EX, match=lambda x: x["obj"] is not None and show(x["obj"]) == "m_pObject")
        c.before(f, r"OnEndWrite$", [("any", idle, ("all", "m_batched", "ev m_pObject.Rollback()"), ("all", "!m_batched", "ev m_pObject.Commit()"))], expand=EX, match=lambda x: x["obj"] is not None and show(x["obj"]) == "m_pObject")
        c.ob(any(x.get("cls") == "MutexUnlocker" for x in calls_in(f)), "the guard unlocks on every path", c.at(f), key="guard unlock")
    for n in ("BatchWrite", "Write"):
        for f in F.fns.values():
            if f.get("body") and sname(f["q"]) == "Locked::" + n:
                W, o = c.run(f)
                for s, v in o.ret:
                    c.ob(show(v).startswith("Writer") or "Create(" in show(v), "Locked::%s hands out a guard" % n, c.at(f), key="locked " + n)
                    c.ob(("Create(1, " in show(v)) == (n == "BatchWrite") , "the guard of %s %s" % (n, "rolls back unless committed" if n == "BatchWrite" else "commits"), c.at(f), key="locked kind " + n, detail=show(v))
    c.exit("ChainState::OnInitWrite", ["ev *BatchLock(*m_pChainStore*m_pBlockDB*m_pHeaderMMR*m_pTxHashSetManager*"])
    for q in ("ChainState::OnEndWrite",):
        c.exit(q, ["ev m_%sWriter.Clear()" % x for x in ("chainStore", "blockDB", "headerMMR", "txHashSet")])
    c.exit("ChainStore::OnInitWrite", ["ev m_pConfirmedChain.OnInitWrite(*", "ev m_pCandidateChain.OnInitWrite(*"])
    c.exit("ChainStore::OnEndWrite", ["ev m_pConfirmedChain.OnEndWrite()", "ev m_pCandidateChain.OnEndWrite()"])
    c.exit("BlockDB::OnInitWrite", ["ev m_pRocksDB.OnInitWrite($0)"])
    c.exit("BlockDB::OnEndWrite", ["ev m_pRocksDB.OnEndWrite()"])
    c.exit("RocksDB::OnInitWrite", [("if", "$0", "ev m_pTransactionDB.BeginTransaction(*")])

    c.rule("transaction")
    # writes go through the open transaction, and a failed one is reported
    for f in methods(F, "RocksDB"):
        n = f["n"]
        if n not in ("Put", "Delete", "DeleteAll", "Get") or not any((x.get("fn") or "").startswith("rocksdb::") for x in calls_in(f)):
            continue
        def w(call, f=f):
            nm = call["q"]
            m = re.match(r"rocksdb::.*::(Put|Delete|Merge|Get|Commit)$", nm) or re.match(r"rocksdb::(?:\w+::)*(Put|Delete|Merge|Get)$", nm)
            if not m:
                return
            ls = lits(call["state"])
            obj = show(call["obj"]) if call["obj"] is not None else ""
            c.sites += 1
            through = obj.startswith("m_pTransaction") and not obj.startswith("m_pTransactionDB")
            c.ob(through or holds(ls, ("any", "!has(m_pTransaction)")), "%s goes around the open transaction only when there is none" % nm, c.at(f, call["e"]["l"]), key="%s through" % f["q"].split("<")[0], detail=obj + "\n    " + "\n    ".join(ls))
        c.run(f, watch=w)
        W, o = c.run(f)
        if n == "Get":
            continue
        for s, v in o.ret:
            ls = lits(s)
            bad = [x for x in ls if re.match(r"^ev (?!this\.).*\.(Put|Delete|Commit)\(.*", x) and not x.endswith(".ok()") and x[3:] + ".ok()" not in ls]
            c.ob(not bad and not any(x.startswith("!") and x.endswith(".ok()") for x in ls), "%s returns only if every status was ok" % f["q"], c.at(f), key="%s status" % n, detail="\n    ".join(ls))
    c.exit("RocksDB::Commit", [("any", "!has(m_pTransaction)", "m_pTransaction.Commit().ok()")])
    for f in methods(F, "DataFile"):
        if f["n"] == "Commit":
            c.exit(f, [("any", "!m_dirty", "m_pFile.Flush()")])
        if f["n"] == "Rewind":
            c.exit(f, ["m_pFile.Rewind(*)"])
    c.exit("AppendOnlyFile::Flush", [("any", "m_pMappedFile.Write(m_bufferIndex, m_buffer)", ("all", "size(m_buffer) == 0", ("any", "m_fileSize == m_bufferIndex", "m_bufferIndex == m_fileSize")))], ret="true")
    c.exit("MappedFile::Write", ["FileUtil::TruncateFile(m_path, $0)", ("any", "size($1) == 0", "!std::basic_ofstream*.fail()", "*good()*")], ret="true")
    c.exit("BitmapFile::Commit", [("any", "size(m_modifiedBytes) == 0", "*.fail()*", "*good()*")])
    # the header cache holds only what has been committed
    c.before("BlockDB::AddBlockHeader", r"(?i)cache.*::Put$", ["!m_pRocksDB.IsTransactional()"], min_sites=1)
    c.before("BlockDB::Commit", r"(?i)cache.*::Put$", ["ev m_pRocksDB.Commit()"])
    n = 0
    for f in F.fns.values():
        if f.get("body") and f.get("cls") == "BlockDB":
            for e in calls_in(f):
                o = e.get("o") or {}
                if o.get("q") == "BlockDB::m_blockHeadersCache" and e.get("n") == "Put":
                    n += 1
                    c.ob(f["n"] in ("AddBlockHeader", "Commit"), "the committed-header cache is filled only on commit or outside a batch", c.at(f, e["l"]), key="cache writer " + f["n"])

    c.rule("accepted-means-committed")
    S = "ev m_pChainState.BatchWrite().Commit()"
    for q, ok in (("BlockProcessor::ProcessBlock", "EBlockChainStatus::SUCCESS"), ("BlockHeaderProcessor::ProcessSingleHeader", "EBlockChainStatus::SUCCESS"), ("BlockHeaderProcessor::ProcessSyncHeaders", "EBlockChainStatus::SUCCESS")):
        v = str(c.enum(ok))
        req = S
        if q == "BlockProcessor::ProcessBlock":
            # a branch that does not win keeps only its block data
            req = ("any", S, ("all", "ev m_pChainState.BatchWrite().Rollback()", "ev m_pChainState.BatchWrite().GetBlockDB().Commit()"))
        if q.endswith("SyncHeaders"):
            req = ("any", S, "size($0) == 0", "*.IsOnChain(*")
        c.exit(q, [req], ret=v)
    c.exit("TxHashSetProcessor::ProcessTxHashSet", [S], ret="true")
    c.before("ChainResyncer::ResyncChain", r"^ChainState::Commit$", ["ev *m_pConfirmedChain.Rewind(0)" , "ev *GetHeaderMMR().Rewind(1)"])
    W, o = c.run(c.find("BlockChain::SnapshotTxHashSet"))
    for s, v in o.ret:
        c.ob(not holds(lits(s), "ev *.Commit()"), "taking a snapshot rewinds inside a batch that is abandoned", "BlockChain::SnapshotTxHashSet", key="snapshot uncommitted")
        c.ob(holds(lits(s), "ev m_pChainState.BatchWrite()*") or "BatchWrite()" in " ".join(lits(s)), "the snapshot is taken in a batch", "BlockChain::SnapshotTxHashSet", key="snapshot batch")
