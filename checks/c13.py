"""Who may act on a wallet: session tokens and passwords."""
import re
from engine import sname, show
from effects import nodes, body_of

PROPERTY = dict(
    title="Wallets answer only to a verified session token or the wallet's password",
    statement="A session's wallet and its seed are handed out only for a token that names a live session and whose key decrypts that session's seed; each wallet operation acts on the wallet of the caller's own token, and a logout ends the session. "
              "Opening a session, revealing the seed words, changing the password and deleting a wallet each happen only after the given password has decrypted the stored seed of the named user. "
              "The key of a token is freshly random and as long as what it protects, and a token is given out only when its session is created.",
    over=["inputs", "histories"], qtext="every token, user name and password, at any point of any history of logins and logouts",
    why="A forged, stale or truncated token and a neighbouring session's number are exactly what tests with one logged-in user never present; one missing check lets one local user spend another's coins.",
    files=["src/Wallet/SessionManager.cpp", "src/Wallet/SessionManager.h", "src/Wallet/WalletManagerImpl.cpp", "include/Wallet/SessionToken.h", "src/Wallet/ForeignController.cpp", "src/API/Wallet/Foreign/ForeignServer.cpp", "src/API/Wallet/Owner/OwnerServer.cpp"],
    mechanism=[("SessionManager", "src/Wallet/SessionManager.cpp"), ("WalletManager", "src/Wallet/WalletManagerImpl.cpp"), ("owner and foreign handlers", "src/API/Wallet")],
    technique="must-fact dataflow (the check dominates the release), provenance of the credentials from request to check, ownership of the session table",
)

SESS = "has(found(m_sessionsById, $0.m_sessionId))"
TOKEN = r"SessionToken::FromBase64\(JsonUtil::GetRequired(Field|String)\(\$0\.m_paramsOpt, \"session_token\"\)(\.asString\(\))?\)"


def run(c):
    F = c.F
    c.rule("token")
    # the seed: live session, right length, checksum of the decrypted seed
    c.exit("SessionManager::GetSeed", [
        SESS,
        "size($0.m_tokenKey) == size(found(m_sessionsById, $0.m_sessionId).second.m_encryptedSeedWithCS)",
        ("any", "at(?loop, (i[0..4) + size(?loop) - 4)) == *Hasher::SHA256(*)*i[0..4))", "std::equal(*Hasher::SHA256(*)*"),
    ], ptype="SessionToken")
    # any other release of a session's wallet, or an end of it, follows that check
    for q, fld in (("SessionManager::GetWallet", "m_wallet"), ("SessionManager::GetWalletImpl", "m_walletImpl")):
        c.exit(q, [SESS, "ev this.GetSeed($0)"], ptype="SessionToken")
        c.returns(q, "found(m_sessionsById, $0.m_sessionId).second." + fld, ptype="SessionToken")
    c.exit("SessionManager::Logout", [("any", "!" + SESS, "ev this.GetSeed($0)"), ("any", "!" + SESS, "ev m_pForeignController.StopListener(found(m_sessionsById, $0.m_sessionId)*")], ptype="SessionToken")
    c.before("SessionManager::Logout", r"ForeignController::StopListener$|::CloseWallet$", ["ev this.GetSeed($0)"], min_sites=2)
    f = c.find("SessionManager::Logout")
    er = []
    c.run(f, watch=lambda x: er.append(x) if x["q"].split("::")[-1] in ("erase", "clear") and x["obj"] is not None and "m_sessionsById" in show(x["obj"]) else None)
    c.ob(bool(er) and all("$0.m_sessionId" in show(x["args"][0]) for x in er), "logging out removes the session of the given token", c.at(f), key="logout erases")

    # nothing else reads or changes the table of sessions
    users = set()
    for g in F.fns.values():
        if any(e.get("k") == "mem" and (e.get("q") or "").endswith("::m_sessionsById") for e in nodes(body_of(g))):
            users.add(sname(g["q"]))
    for u in sorted(users):
        c.ob(u.startswith("SessionManager::"), "%s is part of the session manager" % u, u, key="table " + u)
    ins = []
    for g in F.fns.values():
        for e in nodes(body_of(g)):
            if e.get("k") == "op" and e.get("op") == "[]" and any(z.get("q", "").endswith("::m_sessionsById") for z in nodes(e["a"][0])) or \
               e.get("k") == "call" and e.get("n") in ("insert", "emplace", "try_emplace", "insert_or_assign") and (e.get("o") or {}).get("q", "").endswith("::m_sessionsById"):
                ins.append((g, e))
    for g, e in ins:
        c.ob(sname(g["q"]) == "SessionManager::Login" or sname(g["q"]) not in base(), "sessions are created only by a login", c.at(g, e.get("l")), key="insert " + sname(g["q"]))
    c.ob(bool(ins), "a login creates a session", "SessionManager::Login", key="insert")

    c.rule("password")
    logins = [g for g in F.byname.get("SessionManager::Login", []) if g.get("body")]
    pw = [g for g in logins if not seedp(g)]
    sd = [g for g in logins if seedp(g)]
    c.ob(len(pw) == 1 and len(sd) == 1, "one login by password and one by seed", "src/Wallet/SessionManager.cpp", key="logins")
    for g in pw:
        c.before(g, r"SessionManager::Login$", ["ev SeedEncrypter::DecryptWalletSeed(m_pWalletDB.LoadWalletSeed($1), $2)"])
        c.before(g, r"::OpenWallet$", ["ev SeedEncrypter::DecryptWalletSeed(m_pWalletDB.LoadWalletSeed($1), $2)"])
        rec, _ = c.before(g, r"SessionManager::Login$", [])
        c.ob(bool(rec) and all([show(a) for a in r[5]["args"][1:]] == ["$1", "SeedEncrypter::DecryptWalletSeed(m_pWalletDB.LoadWalletSeed($1), $2)"] for r in rec),
             "the session opened is that of the user whose password was checked", c.at(g), key="login args")
        c.exit(g, ["ev SeedEncrypter::DecryptWalletSeed(m_pWalletDB.LoadWalletSeed($1), $2)"])
    c.exit("SessionManager::Authenticate", ["ev SeedEncrypter::DecryptWalletSeed(m_pWalletDB.LoadWalletSeed($0), $1)"])
    g = [x for x in F.byname.get("SessionManager::GetSeed", []) if x.get("body") and len(x["ps"]) == 2]
    c.ob(len(g) == 1, "a seed is also available by user name and password", "src/Wallet/SessionManager.cpp", key="getseed pw")
    for x in g:
        c.returns(x, "SeedEncrypter::DecryptWalletSeed(m_pWalletDB.LoadWalletSeed($0), $1)")
    c.returns("WalletManager::GetSeedWords", "Mnemonic::CreateMnemonic(m_sessionManager.Read().GetSeed($0.m_username, $0.m_password)*")
    c.before("WalletManager::DeleteWallet", r"IWalletStore::DeleteWallet$", ["ev m_sessionManager.*.Authenticate(@0, $1)"])
    c.before("WalletManager::ChangePassword", r"IWalletStore::ChangePassword$", ["ev SeedEncrypter::DecryptWalletSeed(m_pWalletStore.LoadWalletSeed(@0), $1)"])
    rec, _ = c.before("WalletManager::ChangePassword", r"IWalletStore::ChangePassword$", [])
    c.ob(bool(rec) and all(show(r[5]["args"][1]).startswith("SeedEncrypter::EncryptWalletSeed(SeedEncrypter::DecryptWalletSeed(m_pWalletStore.LoadWalletSeed(") and show(r[5]["args"][1]).endswith(", $1), $2)") for r in rec),
         "changing the password stores the same seed under the new password", "src/Wallet/WalletManagerImpl.cpp", key="changepw")
    for q in ("DeleteWallet", "ChangePassword"):
        c.callers_only("IWalletStore::" + q, {"WalletManager::" + q})

    # the seed login is only reachable with a seed the caller just proved to know or created
    c.callers_only("SessionManager::Login", {"SessionManager::Login", "WalletManager::Login", "WalletManager::InitializeNewWallet", "WalletManager::RestoreFromSeed"})
    for q, seed in (("InitializeNewWallet", r"CSPRNG::GenerateRandomBytes\(.*\)"), ("RestoreFromSeed", r"Mnemonic::ToEntropy\(\$0\.m_seedWords\)")):
        rec, _ = c.before("WalletManager::" + q, r"SessionManager::Login$", ["ev m_pWalletStore.CreateWallet($0.m_username, SeedEncrypter::EncryptWalletSeed(@2, $0.m_password))"])
        c.ob(bool(rec) and all(re.fullmatch(seed, show(r[5]["args"][2])) and show(r[5]["args"][1]) == "$0.m_username" for r in rec), "%s opens the wallet it has just created" % q, "src/Wallet/WalletManagerImpl.cpp", key="login " + q)
    rec, _ = c.before("WalletManager::Login", r"SessionManager::Login$", [])
    c.ob(bool(rec) and all([show(a) for a in r[5]["args"][1:]] == ["$0.m_username", "$0.m_password"] for r in rec), "a login uses the request's user name and password", "src/Wallet/WalletManagerImpl.cpp", key="login creds")

    c.rule("key")
    for g in sd:
        W, o = c.run(g)
        vals = {show(v) for s, v in o.ret}
        c.ob(vals and all(re.search(r"^SessionToken\{.*m_nextSessionId.*, CSPRNG::GenerateRandomBytes\(size\(.*\)\)\}$", v) for v in vals), "a session's token is its fresh number and fresh random key", c.at(g), key="token value", detail=str(vals)[:400])
        # the stored seed is masked by the whole key
        c.exit(g, ["ev Hasher::SHA256(*$2*)"])
        nxt = {show(x) for s, v in o.ret for k, x in s.env.items() if not isinstance(k, tuple) and show(k) == "m_nextSessionId"}
        c.ob(nxt == {"(m_nextSessionId + 1)"}, "every session gets the next number", c.at(g), key="next id", detail=str(nxt))
    masks = [e for g in sd for e in nodes(body_of(g)) if e.get("k") == "bin" and e.get("op") == "^"]
    c.ob(bool(masks) or not sd, "the stored seed is masked with the token's key", c.at(sd[0]) if sd else "", key="mask")

    c.rule("provenance")
    # the wallet manager looks sessions up by the token it was given
    n = 0
    for g in sorted(F.fns.values(), key=lambda g: g["q"]):
        if g.get("cls") != "WalletManager" or not g.get("body"):
            continue
        rec = []
        c.run(g, watch=lambda x: rec.append(x) if re.fullmatch(r"SessionManager::(GetSeed|GetWallet|GetWalletImpl|Logout)", x["q"]) else None)
        for x in rec:
            n += 1
            a = show(x["args"][0])
            ok = re.fullmatch(r"\$\d(\.m_token)?|m_sessionManager\.\w+\(\)\.Login\(.*\)", a) or len(x["args"]) == 2
            c.ob(bool(ok), "%s uses its caller's token" % g["q"], c.at(x["fn"], x["e"].get("l")), key="%s %s" % (sname(g["q"]), x["q"]), detail="uses " + a)
    c.ob(n >= 18, "session look-ups found", "src/Wallet/WalletManagerImpl.cpp", key="lookups", detail=str(n))
    c.exit("WalletManager::GetWallet", ["ev m_sessionManager.*.GetSeed($0)"])
    for q in ("Send", "Receive", "Finalize"):
        c.exit("WalletManager::" + q, ["ev m_sessionManager.*.GetSeed($0.m_token)"])

    # the RPC handlers pass on the request's own credentials
    n = 0
    OPEN = {"GetAllAccounts", "ShouldReuseAddresses"}
    for g in sorted(F.fns.values(), key=lambda g: g["q"]):
        if not g["q"].endswith("Handler::Handle") or "/API/Wallet/" not in g["file"] or not g.get("body"):
            continue
        rec = []
        c.run(g, watch=lambda x: rec.append(x) if x["q"].startswith(("IWalletManager::", "WalletManager::")) else None)
        for x in rec:
            m = x["q"].split("::")[-1]
            if m in OPEN:
                continue
            n += 1
            a = show(x["args"][0])
            ok = (re.fullmatch(TOKEN, a) or re.match(r"(\w+Criteria\{)?\w+Criteria::FromJSON\(\$0\.m_paramsOpt", a) or
                  ("/Foreign/" in g["file"] and (a == "m_token" or a.startswith(("ReceiveCriteria{m_token, ", "FinalizeCriteria{m_token, "))
                                                 or re.match(r"BuildCoinbaseCriteria::FromJSON\(\$0\.m_paramsOpt", a))) or
                  re.match(r"GrinStr\{DeleteWalletCriteria::FromJSON\(\$0\.m_paramsOpt\)\.m_username\}$", a))
            c.ob(bool(ok), "%s acts with the credentials of the request" % g["q"], c.at(x["fn"], x["e"].get("l")), key="%s %s" % (sname(g["q"]), m), detail="uses " + a)
    c.ob(n >= 28, "wallet operations of the handlers found", "src/API/Wallet", key="ops", detail=str(n))
    n = 0
    for g in F.fns.values():
        m = re.fullmatch(r"(\w+Criteria)::FromJSON", g["q"])
        if not m or not g.get("body"):
            continue
        rec = next((r for r in F.recs.values() if r["q"] == m.group(1)), None)
        if not rec or not any("SessionToken" in x.get("t", "") for x in rec.get("fields", ())):
            continue
        n += 1
        c.returns(g, "*{*SessionToken::FromBase64(JsonUtil::GetRequired*($0, \"session_token\")*", cap=200)
    c.ob(n >= 6, "requests carrying a token found", "include/API/Wallet", key="criteria", detail=str(n))
    # a listener serves the wallet whose login started it
    for g in sd:
        rec, _ = c.before(g, r"ForeignController::StartListener$", [])
        tok = {show(v) for s, v in c.run(g)[1].ret}
        c.ob(bool(rec) and all(show(r[5]["args"][2]) in tok and show(r[5]["args"][1]) == "$1" for r in rec), "the listener of a session holds that session's token", c.at(g), key="listener token")


def seedp(g):
    return any("SecureVector" in p["t"] or "vector" in p["t"] for p in g["ps"])


def base():
    from spec import baseline
    return baseline() or set()
