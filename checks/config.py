def J(name, entry, *params, tier="quick", **k):
    return dict(name=name, entry=entry, params=[int(p) for p in params], tier=tier, **k)


def bits(*names):
    """operation mask of harness/src/gen.rs"""
    import re, os
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/gen.rs")).read()
    t = {m[0]: 1 << int(m[1]) for m in re.findall(r"pub const (\w+): u64 = 1 << (\d+);", src)}
    r = 0
    for n in " ".join(names).split():
        r |= t[n]
    return r


VB = dict(session=0, ka=1, fail=2, peer_mps=3, my_mps=4, nopersist=5, ack_sei=6, tam0=7, flip=24, pvar=25)
VN = dict(peer_rm=8, my_rm=12, peer_tam=16, my_tam=20, sym=28)
AUTO = dict(pub=1, ping=2, map=4, replace=8, resp=16)


def vary(s):
    r = 0
    for w in s.split():
        k, _, v = w.partition("=")
        r |= int(v) << VN[k] if v else 1 << VB[k]
    return r


def script(s):
    """fixed beginning: up to twenty operations, six bits each, in two parameters"""
    idx = [bits(w).bit_length() for w in s.split()]
    assert len(idx) <= 20
    enc = lambda l: sum(v << (6 * i) for i, v in enumerate(l))
    return enc(idx[:10]), enc(idx[10:])


def C(name, entry, ver, facets, steps, acts, pre="CONNECT CONNACK", pacts="MATCH", auto="", var="", tier="quick", **k):
    """one job of the conn binary"""
    p1, p2 = script(pre)
    return J(name, entry, ver, steps, bits(acts), sum(AUTO[w] for w in auto.split()),
             sum(1 << int(f) for f in facets.split()), vary(var), p1, bits(pacts), p2, tier=tier, **k)


R_ACKS = "R_PUBACK R_PUBREC R_PUBREL R_PUBCOMP "
R_PUBS = "R_PUB0 R_PUB1 R_PUB2 "
NOT_APPLICABLE = []
CHECKS = {
    "C20": dict(
        bin="c20",
        bounds="ValueAllocator<T> for T in u8,u16,u32,i8,i16: every range lo<=hi and every sequence of k operations out of "
               "{allocate, use_value(v), deallocate(v), clear} with arbitrary v (deallocate restricted to in-range v, as its contract asserts), "
               "followed after every step by first_vacant/interval_count and at the end by is_used(q) for arbitrary q; "
               "k = 3 (u16, u8, i8), 2 (u32, i16); plus k=1 from a 15-interval state (several B-tree nodes), thorough: k=4 (u8), 3 (u32,i16), 2 from the 15- and 30-interval states",
        jobs=[
            J("u16-k3", "h_u16", 3), J("u8-k3", "h_u8", 3), J("i8-k3", "h_i8", 3), J("u32-k2", "h_u32", 2), J("i16-k2", "h_i16", 2),
            J("wide16-k1", "h_w16", 1, 14), J("wide8-k1", "h_w8", 1, 14), J("wideI8-k1", "h_wi8", 1, 14),
            J("wide32-k1", "h_w32", 1, 30),
            J("wide16-k2", "h_w16", 2, 14, tier="thorough"), J("u8-k4", "h_u8", 4, tier="thorough"),
            J("u32-k3", "h_u32", 3, tier="thorough"), J("i16-k3", "h_i16", 3, tier="thorough"),
            J("wideI16-k2", "h_wi16", 2, 30, tier="thorough"), J("u8-k5", "h_u8", 5, tier="thorough"),
        ],
    ),
}


def both(name, ver, facets, steps, acts, **k):
    r = [C("client%d-%s" % (ver, name), "h_client", ver, facets, steps, acts, **k)]
    if "pre" in k:  # a server sends no SUBSCRIBE
        k["pre"] = " ".join(x for x in k["pre"].split() if x not in ("SUB", "UNSUB"))
    return r + [C("server%d-%s" % (ver, name), "h_server", ver, facets, steps, acts, **k)]


def all4(name, facets, steps, acts, **k):
    return both(name, 4, facets, steps, acts, **k) + both(name, 5, facets, steps, acts, **k)


RA = "auto", "pub ping resp"
WIDE = ("PUB0 PUB1 PUB2 R_PUBACK R_PUBREC R_PUBREL R_PUBCOMP R_PUB0 R_PUB1 R_PUB2 ANSWER SUB UNSUB R_SUBACK PING DISC R_DISC CLOSED "
        "TIMER AUTH R_AUTH R_BAD CONNECT CONNACK ACQUIRE RELEASE ERASE REGISTER INTERVAL OFFLINE ")
AUTOS = "pub ping resp"
RESUME = "CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB CLOSED"

SITS = dict(d="", i="CONNECT", e="CONNECT CONNACK", f="CONNECT CONNACK PUB1 PUB2 R_PUB2 SUB", r="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED CONNECT CONNACK",
            p="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB CLOSED", q="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED CONNECT")


def wide(facets, steps, which="d i e f r p q", acts=WIDE + "R_ANYTIME ANYTIME R_ZERO R_FAIL", auto=AUTOS, var="session", tag="", **k):
    r = []
    for x in which.split():
        r += all4("wide" + tag + "-" + x, facets, steps, acts, pre=SITS[x], auto=auto, var=var, **k)
    return r



T = dict(tier="thorough")
CHECKS["C05"] = dict(bin="conn", bounds="", jobs=
    wide("5", 2)
    + all4("manual", "5", 2, R_PUBS + R_ACKS + "ANSWER CLOSED R_DUP R_ZERO R_FAIL DISC PUB1 PUB2 CONNECT R_ANYTIME", pre="CONNECT CONNACK PUB2", var="session")
    + both("rm", 5, "5", 3, R_PUBS + R_ACKS + "R_FAIL R_DUP CLOSED CONNECT", auto=AUTOS, var="my_rm=2 peer_rm=2")
    + both("alias", 5, "5", 2, R_PUBS + "ALIAS PUB0 R_ANYTIME CLOSED", auto=AUTOS, var="my_tam=2 peer_tam=2 tam0")
    + both("mps", 5, "5", 2, WIDE + "R_ANYTIME R_FAIL", auto=AUTOS, var="my_mps peer_mps ka")
    + all4("sym", "5", 1, "R_SYM R_TMPL", auto=AUTOS, var="sym=4 peer_rm=15 my_rm=15 my_tam=15 peer_tam=15", pre="CONNECT CONNACK PUB1 PUB2 R_PUB2 SUB")
    + all4("symd", "5", 1, "R_SYM R_TMPL R_ANYTIME", auto=AUTOS, var="sym=3", pre="")
    + all4("symi", "5", 1, "R_SYM R_TMPL R_ANYTIME", auto=AUTOS, var="sym=3", pre="CONNECT")
    + [C("any%s%d-wide" % (r, v), "h_any_" + r, v, "5", 2, WIDE + "R_ANYTIME", auto=AUTOS, var="session flip") for v in (4, 5) for r in "cs"]
    + wide("5", 3, **T)
    + all4("sym7", "5", 1, "R_SYM", auto=AUTOS, var="sym=7 peer_rm=15 my_rm=15 my_tam=15 peer_tam=15", pre="CONNECT CONNACK PUB1 PUB2 R_PUB2 SUB", **T)
    + all4("sym2", "5", 2, "R_SYM CLOSED", auto=AUTOS, var="sym=3 peer_rm=15 my_rm=15 my_tam=15 peer_tam=15", pre="CONNECT CONNACK PUB1 PUB2 R_PUB2 SUB", **T)
)
OUT = "PUB1 PUB2 " + "R_PUBACK R_PUBREC R_PUBCOMP " + "ANSWER CONNECT CONNACK CLOSED ERASE DISC OFFLINE R_FAIL ANYTIME R_ANYTIME "
CHECKS["C06"] = dict(bin="conn", bounds="", jobs=
    wide("6", 3, "e r p", acts=OUT)
    + wide("6", 2, "d i f q", acts=OUT)
    + all4("manual", "6", 3, OUT, pre="CONNECT CONNACK PUB2 R_PUBREC", var="session")
    + all4("resume", "6", 4, "CLOSED CONNECT CONNACK PUB1 R_PUBREC MATCH", pre="CONNECT CONNACK PUB2", auto=AUTOS, var="session ack_sei")
    + both("mps", 5, "6", 3, "CLOSED CONNECT CONNACK PUB1 PUB2 R_PUBREC MATCH", pre="CONNECT CONNACK PUB1 PUB2", auto=AUTOS, var="peer_mps")
    + both("rm", 5, "6", 3, "CLOSED CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUBACK R_FAIL", pre="CONNECT CONNACK PUB1 PUB2 CLOSED", auto=AUTOS, var="peer_rm=3")
    + both("alias", 5, "6 13", 4, "PUB1 ALIAS CLOSED CONNECT CONNACK", auto=AUTOS, var="peer_tam=2")
    + both("almap", 5, "6 13", 4, "PUB1 PUB0 CLOSED CONNECT CONNACK", auto=AUTOS + " map", var="peer_tam=2")
    + both("rc", 5, "6", 3, "R_PUBACK R_PUBREC R_PUBCOMP R_RC MATCH CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB1 PUB2", auto=AUTOS, var="")
    + all4("erase", "6", 2, "ERASE R_PUBREC R_PUBACK R_PUBCOMP CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB1 PUB2 PUB1 R_PUBREC CLOSED CONNECT", auto=AUTOS, var="session")
    + both("arc", 5, "6", 4, "PUB2 ANSWER A_RC R_PUBREC R_PUBCOMP CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB2 R_PUBREC", var="session", auto="")
    + all4("held", "6", 3, "PUB1 PUB2 USEHELD R_PUBACK MATCH CLOSED CONNECT CONNACK", pre="CONNECT CONNACK REGISTER REGISTER", auto=AUTOS)
    + all4("heldr", "6", 5, "PUB1 R_PUBREC R_PUBACK MATCH CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB1 PUB2 R_PUBACK PUB1 CLOSED CONNECT CONNACK", auto=AUTOS, var="session")
    + [C("any%s%d-wide" % (r, v), "h_any_" + r, v, "6", 3, OUT, pre="CONNECT CONNACK PUB1 PUB2", auto=AUTOS, var="session flip") for v in (4, 5) for r in "cs"]
    + wide("6", 4, "e r p", acts=OUT, **T)
    + all4("manual4", "6", 4, OUT, pre="CONNECT CONNACK PUB2 R_PUBREC", var="session", **T)
    + all4("resume6", "6", 6, "CLOSED CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUBACK R_PUBCOMP MATCH", pre="CONNECT CONNACK PUB2", auto=AUTOS, var="session ack_sei", **T)
)
INB = "R_PUB2 R_PUBREL R_PUB1 R_DUP ANSWER CLOSED CONNECT CONNACK R_FAIL DISC R_ANYTIME "
CHECKS["C07"] = dict(bin="conn", bounds="", jobs=
    wide("7", 3, "e r p", acts=INB)
    + wide("7", 2, "d i f q", acts=INB)
    + all4("manual", "7", 4, "R_PUB2 R_PUBREL ANSWER CLOSED CONNECT CONNACK R_FAIL", var="session")
    + all4("auto", "7", 4, "R_PUB2 R_PUBREL CLOSED CONNECT CONNACK R_DUP", var="session", auto=AUTOS)
    + both("rm", 5, "7", 4, "R_PUB2 R_PUBREL R_PUB1 ANSWER R_FAIL", var="my_rm=2")
    + both("alias", 5, "7", 3, "R_PUB2 R_PUBREL ALIAS TOPICS CLOSED", var="my_tam=2", auto=AUTOS)
    + both("mps", 5, "7", 3, "R_PUB2 R_PUBREL CLOSED CONNECT CONNACK", var="my_mps peer_mps", auto=AUTOS)
    + both("arc", 5, "7", 3, "R_PUB2 R_PUBREL ANSWER A_RC R_DUP CLOSED CONNECT CONNACK", pre="CONNECT CONNACK R_PUB2", var="session")
    + both("arcrm", 5, "7 12", 3, "R_PUB2 R_PUBREL ANSWER A_RC R_PUB1", pre="CONNECT CONNACK R_PUB2", var="my_rm=2")
    + all4("auto6", "7", 6, "R_PUB2 R_PUBREL CLOSED CONNECT CONNACK R_DUP", var="session", auto=AUTOS, **T)
    + all4("manual6", "7", 6, "R_PUB2 R_PUBREL ANSWER CLOSED CONNECT CONNACK R_FAIL", var="session", **T)
    + wide("7", 3, **T)
)
IDS = "ACQUIRE REGISTER RELEASE ERASE PUB1 PUB2 SUB UNSUB R_SUBACK R_PUBACK R_PUBREC R_PUBCOMP R_FAIL CLOSED CONNECT CONNACK DISC UNOWNED ANYTIME R_ANYTIME ANSWER "
CHECKS["C08"] = dict(bin="conn", bounds="", jobs=
    wide("8", 2, acts=IDS)
    + all4("manual", "8", 2, IDS, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC SUB", var="session")
    + all4("ids", "8", 2, "ACQUIRE REGISTER RELEASE SUB PUB1 CLOSED", pre="CONNECT CONNACK ACQUIRE", auto=AUTOS, var="nopersist")
    + all4("ids3", "8", 3, "ACQUIRE REGISTER RELEASE SUB PUB1 CLOSED", auto=AUTOS, var="nopersist", **T)
    + [J("exhaust", "h_exhaust", 5, max_steps=200_000_000), J("ids32", "h_ids32", 5, 2), J("ids32-3", "h_ids32", 5, 3, **T)]
    + all4("np", "8", 3, "PUB1 PUB2 SUB CLOSED R_PUBREC R_FAIL R_PUBACK DISC R_SUBACK R_PUBCOMP MATCH", auto=AUTOS, var="nopersist")
    + all4("resume", "8", 3, "CLOSED CONNECT CONNACK PUB1 R_PUBREC R_PUBACK R_PUBCOMP MATCH", pre="CONNECT CONNACK PUB1 PUB2", auto=AUTOS, var="session")
    + wide("8", 2, "f q", acts=IDS, var="nopersist session", tag="np")
    + both("npalias", 5, "8", 2, "PUB1 PUB2 PUB0 ALIAS CLOSED REGISTER R_PUBREC R_PUBACK", auto=AUTOS, var="peer_tam=2 tam0 nopersist")
    + both("npmps", 5, "8", 2, IDS, auto=AUTOS, var="peer_mps nopersist")
    + both("nprm", 5, "8", 3, "PUB1 PUB2 R_PUBACK R_PUBREC R_PUBCOMP R_FAIL MATCH CLOSED ERASE RELEASE", auto=AUTOS, var="peer_rm=2 nopersist")
    + all4("npq2", "8", 2, "R_PUBCOMP R_PUBREC ANSWER CLOSED PUB2 PUB1 MATCH RELEASE", pre="CONNECT CONNACK PUB2 R_PUBREC ANSWER", var="nopersist")
    + all4("npq2a", "8", 2, "R_PUBCOMP R_PUBREC CLOSED PUB2 PUB1 MATCH RELEASE", pre="CONNECT CONNACK PUB2 R_PUBREC", auto=AUTOS, var="nopersist")
    + all4("npheld", "8", 2, "ACQUIRE REGISTER CLOSED DISC PUB1", pre="CONNECT CONNACK PUB2 R_PUBREC ANSWER R_PUBCOMP", var="nopersist")
    + all4("npheld1", "8", 2, "ACQUIRE REGISTER CLOSED DISC PUB2", pre="CONNECT CONNACK PUB1 R_PUBACK", var="nopersist")
    + both("npheldr", 5, "8", 3, "R_FAIL ACQUIRE CLOSED DISC ANSWER", pre="CONNECT CONNACK PUB2", var="nopersist")
    + all4("held", "8", 3, "PUB1 PUB2 SUB UNSUB USEHELD RELEASE R_PUBACK R_SUBACK CLOSED", pre="CONNECT CONNACK REGISTER", auto=AUTOS, var="nopersist session")
    + all4("npmix", "8", 2, IDS, pre="CONNECT CONNACK PUB1 PUB2 PUB2 R_PUBREC SUB", var="nopersist")
    + all4("relfly", "8", 3, "RELFLY PUB1 R_SUBACK MATCH CLOSED", pre="CONNECT CONNACK SUB UNSUB", auto=AUTOS, var="session")
    + all4("nprelfly", "8", 3, "RELFLY PUB1 R_PUBACK R_PUBREC R_PUBCOMP ANSWER CLOSED", pre="CONNECT CONNACK PUB2", var="nopersist")
    + both("nprelrm", 5, "8 12", 3, "RELFLY PUB1 PUB2 R_PUBACK R_PUBREC R_PUBCOMP CLOSED", pre="CONNECT CONNACK PUB2 PUB1", auto=AUTOS, var="peer_rm=3 nopersist")
    + both("rm", 5, "8", 3, "PUB1 PUB2 R_PUBACK R_PUBREC R_PUBCOMP R_FAIL MATCH CLOSED CONNECT CONNACK", auto=AUTOS, var="peer_rm=2")
    + both("mps", 5, "8", 2, IDS, auto=AUTOS, var="peer_mps")
    + both("mpsr", 5, "8", 3, "CLOSED CONNECT CONNACK PUB1 R_PUBREC MATCH", pre="CONNECT CONNACK PUB1 PUB2", auto=AUTOS, var="peer_mps")
    + both("alias", 5, "8", 2, "PUB1 PUB2 PUB0 ALIAS CLOSED REGISTER", auto=AUTOS, var="peer_tam=2 tam0")
    + both("drop", 5, "8", 3, "ACQUIRE R_PUBACK R_PUBREC R_PUBCOMP R_FAIL", pre="CONNECT CONNACK PUB1 PUB2 CLOSED CONNECT CONNACK", auto=AUTOS, var="peer_mps")
    + both("drops", 5, "8", 3, "ACQUIRE SUB PUB1 R_PUBREC R_FAIL R_PUBACK", pre="CONNECT CONNACK PUB2 CLOSED CONNECT CONNACK", var="peer_mps")
    + all4("stray", "8", 2, "REGISTER RELEASE SUB USEHELD R_PUBACK R_PUBREC R_PUBCOMP R_FAIL R_SUBACK CLOSED", pre="CONNECT CONNACK PUB1 R_PUBACK PUB2 CLOSED CONNECT CONNACK R_PUBREC R_PUBCOMP", auto=AUTOS)
    + wide("8", 3, acts=IDS, **T)
    + all4("np5", "8", 5, "PUB1 PUB2 SUB CLOSED R_PUBREC R_FAIL R_PUBACK DISC R_SUBACK R_PUBCOMP MATCH", auto=AUTOS, var="nopersist", **T)
)
RMA = "PUB1 PUB2 R_PUBACK R_PUBREC R_PUBCOMP R_FAIL MATCH "
RMI = "R_PUB1 R_PUB2 R_PUB0 R_PUBREL ANSWER R_FAIL R_DUP "
CHECKS["C12"] = dict(bin="conn", bounds="", jobs=
    both("out", 5, "12", 4, RMA, auto=AUTOS, var="peer_rm=3")
    + both("outids", 5, "12", 3, "PUB1 PUB2 ACQUIRE REGISTER RELEASE SUB R_SUBACK R_PUBREC ERASE", auto=AUTOS, var="peer_rm=3")
    + both("outfull", 5, "12", 3, RMA + "ERASE RELEASE PUB0", auto=AUTOS, var="peer_rm=15")
    + both("outman", 5, "12", 4, RMA + "ANSWER", var="peer_rm=2")
    + both("resume", 5, "12", 4, RMA + "CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB1 PUB2 CLOSED", auto=AUTOS, var="peer_rm=3")
    + both("resume2", 5, "12", 2, RMA + "CLOSED CONNECT CONNACK ERASE ANSWER R_PUBACK", pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC CLOSED CONNECT CONNACK", var="peer_rm=3 session")
    + both("erase", 5, "12", 2, RMA + "ERASE CLOSED", pre="CONNECT CONNACK PUB1 PUB2 PUB2 R_PUBREC", auto=AUTOS, var="peer_rm=15")
    + both("nopersist", 5, "12", 3, RMA + "CLOSED CONNECT CONNACK", auto=AUTOS, var="peer_rm=2 nopersist pvar session")
    + both("in", 5, "12", 4, RMI, auto=AUTOS, var="my_rm=2")
    + both("inman", 5, "12", 4, RMI, var="my_rm=2")
    + both("inarc", 5, "12", 3, RMI + "A_RC CLOSED CONNECT CONNACK", pre="CONNECT CONNACK R_PUB2", var="my_rm=2")
    + both("inresume", 5, "12", 3, RMI + "CLOSED CONNECT CONNACK", pre="CONNECT CONNACK R_PUB2 R_PUB1", var="my_rm=3 session")
    + both("mps", 5, "12", 3, RMA + RMI, auto=AUTOS, var="peer_rm=2 my_rm=2 peer_mps")
    + both("out6", 5, "12", 6, RMA, auto=AUTOS, var="peer_rm=3", **T)
    + both("in6", 5, "12", 6, RMI, var="my_rm=3", **T)
    + both("resume6", 5, "12", 6, RMA + "CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB1 PUB2 CLOSED", auto=AUTOS, var="peer_rm=3", **T)
)
CHECKS["C13"] = dict(bin="conn", bounds="", jobs=
    both("manual", 5, "13", 3, "PUB0 PUB1 ALIAS TOPICS CLOSED CONNECT CONNACK", auto=AUTOS, var="peer_tam=15 tam0")
    + both("almap", 5, "13", 3, "PUB0 PUB1 ALIAS TOPICS CLOSED", auto=AUTOS + " map", var="peer_tam=2")
    + both("alrep", 5, "13", 3, "PUB0 PUB1 ALIAS TOPICS CLOSED", auto=AUTOS + " replace", var="peer_tam=2")
    + both("almap4", 5, "13", 4, "PUB0 TOPICS", auto=AUTOS + " map", var="peer_tam=2")
    + both("almaprep4", 5, "13", 4, "PUB0 TOPICS", auto=AUTOS + " map replace", var="peer_tam=2")
    + both("mps", 5, "13 14", 2, "PUB0 ALIAS TOPICS", auto=AUTOS + " map", var="peer_tam=2 peer_mps")
    + both("rm", 5, "13", 3, "PUB0 PUB1 ALIAS", auto=AUTOS, var="peer_tam=2 peer_rm=1")
    + both("resume", 5, "13 6", 3, "PUB0 PUB1 ALIAS CLOSED CONNECT CONNACK", pre="CONNECT CONNACK PUB1 CLOSED", auto=AUTOS + " map", var="peer_tam=2")
    + both("in", 5, "13", 3, "R_PUB0 R_PUB1 R_PUB2 ALIAS TOPICS", auto=AUTOS, var="my_tam=15 tam0")
    + both("inclosed", 5, "13", 4, "R_PUB0 ALIAS CLOSED CONNECT CONNACK", auto=AUTOS, var="my_tam=2")
    + both("inman", 5, "13", 3, "R_PUB1 R_PUB2 R_DUP ALIAS ANSWER R_PUBREL", var="my_tam=2 my_rm=2")
    + both("indup", 5, "13", 3, "R_PUB0 R_PUB1 R_PUB2 R_DUP ALIAS TOPICS", auto=AUTOS, var="my_tam=2")
    + both("reg", 5, "13 21", 2, "PUB0 PUB1 ALIAS TOPICS CLOSED CONNECT CONNACK", auto=AUTOS, var="peer_tam=15 tam0")
    + both("regmap", 5, "13 21", 3, "PUB0 ALIAS TOPICS", auto=AUTOS + " map replace", var="peer_tam=2")
    + both("almap5", 5, "13", 5, "PUB0 PUB1 ALIAS TOPICS CLOSED CONNECT CONNACK", auto=AUTOS + " map", var="peer_tam=2", **T)
    + both("alrep5", 5, "13", 5, "PUB0 ALIAS TOPICS", auto=AUTOS + " replace", var="peer_tam=2", **T)
    + both("in5", 5, "13", 5, "R_PUB0 R_PUB2 ALIAS TOPICS CLOSED CONNECT CONNACK", auto=AUTOS, var="my_tam=2", **T)
)
CHECKS["C14"] = dict(bin="conn", bounds="", jobs=
    both("wide", 5, "14", 2, WIDE + "R_FAIL", auto=AUTOS, var="peer_mps my_mps ka")
    + both("wided", 5, "14", 2, WIDE + "R_ANYTIME ANYTIME R_FAIL", pre="", auto=AUTOS, var="peer_mps my_mps fail")
    + both("widei", 5, "14", 2, WIDE + "R_ANYTIME ANYTIME R_FAIL", pre="CONNECT", auto=AUTOS, var="peer_mps my_mps fail")
    + both("in", 5, "14", 3, R_PUBS + R_ACKS + "R_DUP R_BAD PING ANSWER", auto=AUTOS, var="peer_mps")
    + both("inman", 5, "14", 3, R_PUBS + R_ACKS + "R_FAIL ANSWER", var="peer_mps my_mps")
    + both("arc", 5, "14", 2, "ANSWER A_RC R_PUBREL R_PUBREC CLOSED CONNECT CONNACK", pre="CONNECT CONNACK R_PUB1 R_PUB2 PUB2", var="peer_mps")
    + both("resume", 5, "14 6 8", 3, "CLOSED CONNECT CONNACK PUB1 R_PUBREC MATCH", pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC PUB2 CLOSED", auto=AUTOS, var="peer_mps")
    + both("almap", 5, "14", 3, "PUB0 PUB1 ALIAS TOPICS", auto=AUTOS + " map", var="peer_mps peer_tam=2")
    + both("alrep", 5, "14", 3, "PUB0 PUB1 ALIAS TOPICS", auto=AUTOS + " replace", var="peer_mps peer_tam=2")
    + both("alin", 5, "14", 2, "R_PUB0 R_PUB1 R_PUB2 ALIAS", auto=AUTOS, var="peer_mps my_mps my_tam=2 my_rm=1")
    + both("sym", 5, "14", 1, "R_SYM R_TMPL", auto=AUTOS, var="sym=3 peer_mps my_mps")
    + both("sub", 5, "14", 2, "R_SUB SUBACK AUTH PING DISC SUB UNSUB TIMER", auto=AUTOS, var="peer_mps ka")
    + both("wide3", 5, "14", 3, WIDE + "R_FAIL", auto=AUTOS, var="peer_mps my_mps", **T)
)
TIM = "PUB0 PUB1 R_PUB0 R_PUB1 R_PUB2 R_PUBACK PING DISC R_DISC CLOSED TIMER CONNECT CONNACK INTERVAL SUB R_BAD AUTH R_AUTH ANSWER "
CHECKS["C15"] = dict(bin="conn", bounds="", jobs=
    wide("15", 2, "d i e p q", acts=TIM + "ANYTIME R_ANYTIME R_FAIL", var="ka")
    + wide("15", 2, "e f", acts=WIDE + "R_FAIL", var="ka")
    + all4("small", "15", 4, "PING TIMER INTERVAL CLOSED CONNECT CONNACK", auto=AUTOS, var="ka")
    + all4("noresp", "15", 3, "PING TIMER PUB0 CLOSED CONNECT CONNACK R_PUB0 DISC", auto="", var="ka fail")
    + all4("resume", "15", 2, "TIMER CLOSED CONNECT CONNACK PUB1 INTERVAL", pre="CONNECT CONNACK PUB1 PUB2 CLOSED", auto=AUTOS, var="ka session")
    + both("mps", 5, "15", 2, TIM + "R_FAIL", auto=AUTOS, var="ka peer_mps my_mps")
    + both("rmal", 5, "15", 2, TIM, auto=AUTOS, var="ka peer_rm=1 my_rm=1")
    + [C("any%s%d" % (r, v), "h_any_" + r, v, "15", 3, "PING TIMER CLOSED CONNECT CONNACK R_PUB0 PUB0 INTERVAL", auto=AUTOS, var="ka flip") for v in (4, 5) for r in "cs"]
    + wide("15", 3, "d i e p q", acts=TIM + "ANYTIME R_ANYTIME R_FAIL", var="ka", **T)
    + all4("small6", "15", 6, "PING TIMER INTERVAL CLOSED CONNECT CONNACK", auto=AUTOS, var="ka", **T)
)
CHECKS["C19"] = dict(bin="conn", bounds="", jobs=
    wide("19", 2)
    + wide("19", 2, "d i e", auto="", var="fail ka session")
    + both("mps", 5, "19", 2, WIDE + "R_FAIL", auto=AUTOS, var="peer_mps my_mps")
    + both("lim", 5, "19", 3, R_PUBS + "R_BAD R_DUP ALIAS R_PUBACK", auto=AUTOS, var="my_rm=1 my_tam=1")
    + all4("timer", "19", 4, "PING TIMER PUB0 DISC CLOSED CONNECT CONNACK", auto=AUTOS, var="ka fail")
    + all4("sym", "19", 1, "R_SYM R_TMPL R_ANYTIME", auto=AUTOS, var="sym=3", pre="CONNECT CONNACK PUB1 PUB2 R_PUB2")
    + both("symi", 5, "19", 1, "R_SYM R_TMPL R_ANYTIME", auto=AUTOS, var="sym=3", pre="CONNECT")
    + [C("any%s%d-wide" % (r, v), "h_any_" + r, v, "19", 2, WIDE + "R_ANYTIME", auto=AUTOS, var="session flip fail") for v in (4, 5) for r in "cs"]
    + wide("19", 3, **T)
)

def T2(name, entry, ver, k1=0, a1="", pre="CONNECT CONNACK", pacts="MATCH", auto=AUTOS, var="", k2=0, a2="", var2=None, gap="", exact=0, tier="quick", **k):
    """one job of the twin binary"""
    p1, p2 = script(pre)
    return J(name, entry, ver, k1, bits(a1), sum(AUTO[w] for w in auto.split()), vary(var), p1, p2, bits(pacts), k2, bits(a2),
             vary(var if var2 is None else var2), bits(gap), exact, tier=tier, **k)


def two(name, prop, vers=(4, 5), sides=("client", "server"), **k):
    r = []
    for v in vers:
        for s in sides:
            q = dict(k)
            if "pre" in q and s.endswith(("server", "any_s")):
                q["pre"] = " ".join(x for x in q["pre"].split() if x not in ("SUB", "UNSUB"))
            r.append(T2("%s%d-%s" % (s, v, name), "h%d_%s" % (prop, s), v, **q))
    return r


V5ONLY = dict(vers=(5,))
ANY = dict(sides=("any_c", "any_s"))
HIST = WIDE + "R_ANYTIME ANYTIME R_FAIL R_DUP "
NEXT = "PUB0 PUB1 PUB2 R_PUB0 R_PUB1 R_PUB2 R_PUBACK R_PUBREC R_PUBREL R_PUBCOMP SUB R_SUBACK PING TIMER CLOSED ACQUIRE INTERVAL DISC R_DISC ANSWER AUTH R_AUTH "
CHECKS["C10"] = dict(bin="twin", bounds="", jobs=
    two("w-e", 10, k1=1, a1=HIST, k2=1, a2=NEXT, var="session")
    + two("w-f", 10, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB", k1=1, a1=HIST, k2=1, a2=NEXT, var="session", var2="")
    + two("w-d", 10, pre="", k1=2, a1=HIST, k2=0, var="session", var2="")
    + two("w-i", 10, pre="CONNECT", k1=1, a1=HIST, k2=1, a2=NEXT, var="session", var2="")
    + two("ka", 10, k1=1, a1="PING TIMER INTERVAL R_DISC CONNECT", k2=1, a2="TIMER PING PUB0 R_PUB0 CLOSED INTERVAL", var="ka pvar", var2="ka")
    + two("sess", 10, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1="CLOSED DISC R_DISC", k2=2, a2="PUB1 CLOSED CONNECT CONNACK R_PUB2", var="session ack_sei", var2="session ack_sei")
    + two("half", 10, k1=1, a1="R_PUB0 R_BAD CLOSED", k2=1, a2="R_PUB0 R_PUB2 PUB1", exact=1)
    + two("gap", 10, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1="CLOSED DISC R_DISC TIMER R_BAD", k2=1, a2=NEXT, var="session", gap="PUB1 PUB2 ANSWER OFFLINE INTERVAL ACQUIRE ERASE REGISTER")
    + two("lim", 10, k1=1, a1="PUB0 PUB1 ALIAS R_PUB0 R_PUB1 R_PUB2", k2=1, a2="PUB0 PUB1 ALIAS R_PUB0 R_PUB1 R_PUB2", var="peer_rm=2 my_rm=2 peer_tam=2 my_tam=2", **V5ONLY)
    + two("lim0", 10, k1=1, a1="PUB0 PUB1 ALIAS R_PUB0 R_PUB1 R_PUB2", k2=1, a2="PUB0 PUB1 ALIAS R_PUB0 R_PUB1 R_PUB2", var="peer_rm=2 my_rm=2 peer_tam=2 my_tam=2", var2="tam0", **V5ONLY)
    + two("mps", 10, k1=1, a1="PUB0 PUB1 R_PUB1 CLOSED R_BAD SUB", k2=1, a2=NEXT, var="peer_mps my_mps", **V5ONLY)
    + two("any", 10, k1=1, a1=HIST, k2=1, a2=NEXT, var="session flip", var2="flip", **ANY)
    + two("w2", 10, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB", k1=2, a1=HIST, k2=1, a2=NEXT, var="session", tier="thorough")
    + two("w12", 10, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB", k1=1, a1=HIST, k2=2, a2=NEXT, var="session", tier="thorough")
)
CHECKS["C16"] = dict(bin="twin", bounds="", jobs=
    two("w-f", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1=HIST, k2=1, a2=NEXT, var="session", var2="")
    + two("exact", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=2, a1=OUT, exact=1, var="session")
    + two("order", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBACK", k1=1, a1="PUB1 PUB2 R_PUBREC MATCH", k2=1, a2=NEXT)
    + two("held", 16, pre="CONNECT CONNACK REGISTER PUB1", k1=2, a1="PUB1 PUB2 USEHELD R_PUBREC MATCH", k2=0, a2=NEXT)
    + two("arc", 16, pre="CONNECT CONNACK PUB2 PUB2 R_PUBREC R_PUB2", k1=2, a1="ANSWER A_RC R_PUBREC R_PUBREL MATCH", k2=1, a2=NEXT, auto="", **V5ONLY)
    + two("rm", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC", k1=1, a1=OUT, k2=2, a2="PUB1 PUB2 R_PUBACK R_PUBREC R_PUBCOMP R_FAIL", var="peer_rm=3", **V5ONLY)
    + two("gap", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED", k2=2, a2=NEXT, gap="PUB1 PUB2 ANSWER ACQUIRE REGISTER ERASE RELEASE")
    + two("gap2", 16, pre="CONNECT CONNACK R_PUB2 CLOSED", k2=1, a2=NEXT, gap="PUB1 PUB2 ANSWER ACQUIRE REGISTER OFFLINE")
    + two("alias", 16, k1=2, a1="PUB1 PUB2 ALIAS", k2=1, a2="PUB0 PUB1 ALIAS R_PUBREC", var="peer_tam=2", **V5ONLY)
    + two("mps", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC", k1=1, a1=OUT, k2=1, a2=NEXT, var="", var2="peer_mps", **V5ONLY)
    + [J("%s%d-%s" % (r, v, n), "h16x_" + r, v, k, h, u, c, tier=t) for r in ("client", "server") for v in (4, 5) for n, k, h, u, c, t in (
        ("export1", 1, 0, 1, 0, "quick"), ("export2", 2, 0, 0, 0, "quick"), ("handled", 1, 2, 0, 0, "quick"), ("twice", 2, 0, 0, 1, "quick"), ("export2u", 2, 0, 1, 0, "thorough"), ("export3", 3, 0, 0, 0, "thorough"))]
    + two("deep", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=2, a1=HIST, k2=1, a2=NEXT, var="session", var2="", tier="thorough")
    + two("deep2", 16, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1=HIST, k2=2, a2=NEXT, var="session", var2="", tier="thorough")
)
CHECKS["C11"] = dict(bin="twin", bounds="", jobs=
    two("d", 11, pre="", k1=1, a1="CONNECT OFFLINE INTERVAL R_PUB0", k2=1, a2=NEXT + "CONNECT")
    + two("i", 11, pre="CONNECT", k1=0, k2=1, a2=NEXT + "CONNACK")
    + two("e", 11, k1=1, a1=WIDE, var="session", var2="", k2=0)
    + two("e1", 11, k1=1, a1="DISC CLOSED PUB1 R_PUB2 SUB CONNECT REGISTER", var2="", k2=1, a2=NEXT)
    + two("f", 11, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB", k1=0, k2=1, a2=NEXT)
    + two("p", 11, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED", k1=1, a1="OFFLINE CONNECT ERASE", k2=1, a2=NEXT + "CONNECT CONNACK")
    + two("np", 11, pre="CONNECT CONNACK PUB1 CLOSED", k1=1, a1="OFFLINE CONNECT", var="nopersist pvar", k2=1, a2=NEXT + "CONNECT CONNACK")
    + two("any", 11, k1=1, a1="CLOSED PUB1 R_PUB2 CONNECT", k2=1, a2=NEXT, **ANY)
    + [T2("undet%s%d" % (r, v), "h11_undet_" + r, v, k1=1, pre="CONNECT CONNACK", k2=1, a2="PUB1 PUB2 R_PUB2 SUB OFFLINE CLOSED ACQUIRE", var="", var2="") for r in "sa" for v in (4, 5)]
    + [T2("undetc", "h11_undet_c", 5, k1=1, pre="", k2=0, a2=NEXT, var="", var2="")]
    + [T2("undet2%s%d" % (r, v), "h11_undet_" + r, v, k1=2, pre="CONNECT CONNACK", k2=1, a2=NEXT, var="", var2="session", tier="thorough") for r in "sa" for v in (4, 5)]
    + two("anyd", 11, pre="", k1=1, a1="CONNECT OFFLINE", k2=1, a2=NEXT + "CONNECT CONNACK", **ANY)
    + two("deep", 11, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1=WIDE, var="session", k2=2, a2=NEXT + "CONNECT CONNACK", tier="thorough")
)
CHECKS["C17"] = dict(bin="twin", bounds="", jobs=
    two("d", 17, pre="", k1=1, a1="OFFLINE INTERVAL ACQUIRE R_PUB0", k2=1, a2=NEXT)
    + two("i", 17, pre="CONNECT", k1=0, k2=1, a2=NEXT)
    + two("e", 17, k1=1, a1=WIDE, var="session", var2="", k2=1, a2=NEXT)
    + two("f", 17, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 SUB", k1=1, a1="DISC R_DISC CLOSED PUB1 R_PUB2 ERASE OFFLINE R_PUBREC R_PUBACK", k2=1, a2=NEXT, var="session", var2="")
    + two("q", 17, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED CONNECT", k2=1, a2=NEXT)
    + two("lim", 17, k1=1, a1="PUB0 PUB1 ALIAS R_PUB0 R_PUB1", k2=1, a2="PUB0 PUB1 ALIAS R_PUB0 R_PUB1 R_PUB2", var="peer_rm=2 my_rm=2 peer_tam=2 my_tam=2", **V5ONLY)
    + two("any", 17, k1=1, a1="CLOSED PUB1 R_PUB2 CONNECT", k2=1, a2=NEXT, **ANY)
    + [T2("undet%d" % v, "h17_undet", v, k1=1, pre="CONNECT CONNACK", k2=2, a2=NEXT + "CONNECT CONNACK", var="", var2="session") for v in (4, 5)]
    + [T2("undet2-%d" % v, "h17_undet", v, k1=2, pre="CONNECT", k2=1, a2=NEXT + "CONNECT CONNACK", var="", var2="session") for v in (4, 5)]
    + [T2("undet0-%d" % v, "h17_undet", v, k1=0, pre="CONNECT CONNACK", k2=1, a2="R_SYM R_TMPL", var="", var2="sym=3") for v in (4, 5)]
    + [J("undetc%d" % v, "h17_undet_c", v, 2) for v in (4, 5)]
    + two("deep", 17, k1=2, a1=WIDE, var="session", var2="", k2=2, a2=NEXT, tier="thorough")
)
# the process dies while disconnected and a new object continues from the export
BACK = "CONNECT CONNACK PUB1 PUB2 R_PUBACK R_PUBREC R_PUBCOMP R_PUB2 R_PUBREL ANSWER CLOSED RESTART MATCH "
for _f in ("5", "6", "7", "8", "12", "13", "14"):
    _b = both if _f in ("12", "13", "14") else all4
    _k = (5,) if _b is both else ()
    _v = {"12": "peer_rm=3 my_rm=3", "13": "peer_tam=2", "14": "peer_mps"}.get(_f, "session")
    CHECKS["C%02d" % int(_f)]["jobs"] += (
        _b("restart", *_k, _f, 4, BACK, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED RESTART", auto=AUTOS, var=_v)
        + _b("restartman", *_k, _f, 4, BACK, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2 CLOSED RESTART", var=_v)
        + _b("restart0", *_k, _f, 4, "CLOSED CONNECT CONNACK RESTART PUB2 R_PUB2 OFFLINE R_PUBREC MATCH", auto=AUTOS, var=_v))

# packets with other contents (properties, will, credentials, several entries, reason codes, retain, refusing codes)
CONTENTS = "PUB0 PUB1 PUB2 R_PUBACK R_PUBREC R_PUBREL R_PUBCOMP R_PUB0 R_PUB1 R_PUB2 ANSWER SUB UNSUB R_SUBACK DISC R_DISC AUTH R_AUTH R_SUB SUBACK CONNECT CONNACK CLOSED TIMER RICH "
RICHV = {"5": "session fail", "6": "session", "7": "session", "8": "session nopersist", "15": "ka fail", "19": "fail ka session"}
for _f, _v in RICHV.items():
    CHECKS["C%02d" % int(_f)]["jobs"] += (
        all4("rich-c", _f, 3, "CONNECT CONNACK RICH", pre="", auto=AUTOS, var=_v)
        + wide(_f, 1, "i e f p", acts=CONTENTS + "R_FAIL", var=_v, tag="rich")
        + wide(_f, 1, "e f", acts=CONTENTS + "R_FAIL", auto="", var=_v, tag="richman")
        + all4("rich-r", _f, 3, "CLOSED CONNECT CONNACK RICH MATCH", pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC", auto=AUTOS, var="session")
        + wide(_f, 2, "e f p", acts=CONTENTS + "R_FAIL", var=_v, tag="rich2")
    )
CHECKS["C12"]["jobs"] += both("rich", 5, "12", 2, RMA + RMI + "RICH", auto=AUTOS, var="peer_rm=2 my_rm=2") + both("richman", 5, "12", 2, RMA + RMI + "RICH", var="peer_rm=2 my_rm=2")
CHECKS["C13"]["jobs"] += both("rich", 5, "13", 2, "PUB0 PUB1 R_PUB0 R_PUB1 ALIAS TOPICS RICH", auto=AUTOS, var="peer_tam=2 my_tam=2") + both("richmap", 5, "13 6", 2, "PUB0 PUB1 TOPICS RICH", auto=AUTOS + " map replace", var="peer_tam=2")
CHECKS["C14"]["jobs"] += (both("rich", 5, "14", 1, CONTENTS + "R_FAIL", auto=AUTOS, var="peer_mps my_mps") + both("richman", 5, "14", 2, "R_PUB1 R_PUB2 R_PUBREL R_PUBREC ANSWER RICH", pre="CONNECT CONNACK PUB2", var="peer_mps my_mps")
    + both("richi", 5, "14", 2, "CONNECT CONNACK RICH", pre="", auto=AUTOS, var="peer_mps my_mps fail") + both("richr", 5, "14 6 8", 3, "PUB1 PUB2 CLOSED CONNECT CONNACK RICH", auto=AUTOS, var="peer_mps")
    + both("richal", 5, "14", 2, "PUB0 PUB1 ALIAS TOPICS RICH", auto=AUTOS + " map", var="peer_mps peer_tam=2"))
for _f in (10, 11, 16, 17):
    CHECKS["C%d" % _f]["jobs"] += (
        two("rich", _f, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1=CONTENTS, k2=0)
        + two("rich1", _f, pre="CONNECT CONNACK PUB1 PUB2 R_PUBREC R_PUB2", k1=1, a1=CONTENTS, k2=1, a2="R_PUBREC R_PUBACK CLOSED PUB1", tier="quick" if _f in (10, 16) else "thorough")
        + two("richc", _f, pre="", k1=2, a1="CONNECT CONNACK RICH", k2=0, var="session fail")
        + two("richc1", _f, pre="", k1=2, a1="CONNECT CONNACK RICH", k2=1, a2="PUB1 R_PUB1 CLOSED CONNACK TIMER", var="session ka", tier="thorough")
        + two("richs", _f, k1=1, a1="PUB1 PUB2 R_PUB2 ANSWER RICH", k2=1, a2="R_PUBREC R_PUBACK CLOSED PUB1"))

CHECKS["C09"] = dict(bin="frame", bounds="", jobs=
    [J("stream%d" % n, "h09_builder", n, 0) for n in (1, 2, 3, 4, 5, 6, 7, 8)]
    + [J("stream%d" % n, "h09_builder", n, 0, **T) for n in (9, 10)]
    + [J("long%d-%d" % (n, p), "h09_long", n, p, 5) for n, p in ((1, 0), (1, 1), (1, 3), (126, 0), (127, 0), (127, 2), (128, 0), (129, 1), (255, 0), (300, 2), (16383, 0), (16384, 0), (16385, 1))]
    + [J("long%d-%d" % (n, p), "h09_long", n, p, 4, **T) for n, p in ((65536, 0), (2097151, 0), (2097152, 0))]
    + [J("%s%d-%s" % (r, v, n), "h09_" + r, v, k, c, m) for r in ("client", "server", "any") for v in (4, 5) for n, k, c, m in (("all1", 1, 1, 0), ("marks2", 2, 1, 3), ("disc", 1, 0, 0))]
    + [J("%s%d-%s" % (r, v, n), "h09_" + r, v, k, c, m, **T) for r in ("client", "server", "any") for v in (4, 5) for n, k, c, m in (("all2", 2, 1, 0), ("marks3", 3, 1, 3))]
)


# ---- codec
KIND = {1: "connect", 2: "connack", 3: "publish", 4: "puback", 5: "pubrec", 6: "pubrel", 7: "pubcomp", 8: "subscribe", 9: "suback", 10: "unsubscribe",
        11: "unsuback", 12: "pingreq", 13: "pingresp", 14: "disconnect", 15: "auth"}
HAS_ID = range(3, 12)
HAS_PROPS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)
PK = dict(strs=1, wild=2, codes=4, bits=8, utf8=16, full=32, exact=64)


def K(tag, entry, v, t, s=1, p=1, np=0, n=1, fl="", kind=0, span=0, pspan=0, wide=False, tier="quick", **k):
    return J("%s-%s%d%s" % (tag, KIND[t], v, "w" if wide else ""), entry, (v == 5) | wide << 1, t, s, p, np, n, sum(PK[w] for w in fl.split()), kind, span, pspan, tier=tier, **k)


ALLK = [(4, t) for t in range(1, 15)] + [(5, t) for t in range(1, 16)]
NO_BODY = lambda v, t: t in (12, 13) or (v, t) == (4, 14)
HAS_STR = lambda v, t: t in (1, 3, 8, 10) or (v == 5 and t in HAS_PROPS)


# small-string features: the longest string and payload kept inline
SSO = (("sso-min-32bit", 10, 15), ("sso-min-64bit", 22, 31), ("sso-lv10", 22, 127), ("sso-lv20", 46, 255))


def sso(entry, quick):
    """quick: the features covered in the quick tier (each costs a build)"""
    j = []
    for f, s, p in SSO:
        for v, t in ALLK:
            if HAS_STR(v, t):
                j.append(K(f, entry, v, t, s - 1, 1, 0 if t == 1 else 1, 1, "", span=4, feat=f))
        j += [K(f + "-pay", entry, v, 3, 1, p - 1, 0, 1, "bits", pspan=3, feat=f) for v in (4, 5)]
        if entry == "h02":
            j += [J("payload-%s%d-%d" % (f, v, n), "h02_payload", v == 5, n, k, feat=f) for v in (4, 5) for n, k in ((0, 1), (s - 1, 4), (p - 1, 3))]
    for x in j:
        if x["feat"] not in quick:
            x["tier"] = "thorough"
    return j


def codec(entry, wild):
    fl = " wild" if wild else ""
    j = []
    for v, t in ALLK:
        j.append(K("fields", entry, v, t, 1, 1, 0, 2, "bits codes" + fl))
        j.append(K("strs", entry, v, t, 3 if t not in (1, 8, 10) else 1, 1, 1 if t not in (1,) else 0, 1, "strs utf8" + fl))
        if t in HAS_ID:
            j.append(K("fields", entry, v, t, 1, 1, 1, 1, "bits" + fl, wide=True))
        if v == 5 and t in HAS_PROPS:
            if t == 1:
                j.append(K("props2", entry, v, t, 1, 1, 2, 1, "exact full"))
                if wild:
                    j.append(K("props1", entry, v, t, 1, 1, 1, 1, "exact full wild"))
                    j.append(K("stray", entry, v, t, 1, 1, 1, 1, "wild"))
            else:
                j.append(K("props2", entry, v, t, 1, 1, 2, 1, "exact" + fl))
        if HAS_STR(v, t):
            # lengths at which the length fields grow: Remaining Length, property length, strings
            j.append(K("len128", entry, v, t, 40 if t == 1 else 90, 1, 1, 1, "", span=90 if t == 1 else 42))
            j.append(K("len16k", entry, v, t, 16384 - 34, 1, 1, 1, "", span=35, tier="thorough"))
            j.append(K("len16q", entry, v, t, 16381, 1, 0 if t == 1 else 1, 1, "", span=4))
            j.append(K("len64k", entry, v, t, 65534, 1, 0 if t in (1, 3, 8, 10) else 1, 1, "", span=1 if t in (1, 3, 8, 10) else 0))
            if wild:
                j.append(K("over64k", entry, v, t, 65536, 1, 0 if t in (1, 3, 8, 10) else 1, 1, "wild exact"))
    for v in (4, 5):
        j.append(K("pay128", entry, v, 3, 1, 115, 0, 1, "bits", pspan=16))
        j.append(K("pay16k", entry, v, 3, 1, 16370, 0, 1, "", pspan=16))
        j.append(K("pay2m", entry, v, 3, 1, 2097142, 0, 1, "", pspan=6, tier="thorough"))
        for n in (2, 3):
            j.append(K("list%d" % n, entry, v, 8, 1, 1, 0, n, "strs" + fl, tier="quick" if n == 2 else "thorough"))
    return j


CHECKS["C02"] = dict(bin="codec", vacuity="entry", bounds="", jobs=codec("h02", True) + sso("h02", ("sso-min-32bit", "sso-lv20"))
    + [J("payload%d-%d" % (v, n), "h02_payload", v == 5, n, k) for v in (4, 5) for n, k in ((0, 3), (65534, 3))]
    + [K("mutators", "h02_mutators", 5, 3, 2, 1, 1, 1, "bits strs", wide=w) for w in (False, True)]
    + [K("mutlen", "h02_mutators", 5, 3, 100, 1, 1, 1, "", span=30), K("mutlen2", "h02_mutators", 5, 3, 1, 100, 1, 1, "", pspan=30)]
)
CHECKS["C03"] = dict(bin="codec", vacuity="entry", bounds="", jobs=codec("h03", False) + sso("h03", ("sso-lv10",))
    + [K("props3", "h03", 5, t, 1, 1, 3, 1, "exact" + (" full" if t == 1 else ""), tier="quick" if t not in (1, 2) else "thorough") for t in HAS_PROPS])
LOCS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)
CHECKS["C18"] = dict(bin="codec", vacuity="entry", bounds="", jobs=
    [J("%s-k%d" % (KIND.get(l, "will"), k), "h18", l, k, 1, tier="quick" if k < 3 or l in (1, 3, 8, 2) else "thorough") for l in LOCS for k in (1, 2, 3)]
    + [J("%s-unknown" % KIND.get(l, "will"), "h18_unknown", l, 2, tier="quick") for l in LOCS]
)
PROPS_IDS = (1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42)
CHECKS["C04"] = dict(bin="codec", vacuity="entry", bounds="", jobs=
    [J("any%d-%s%d" % (n, KIND[t], v), "h04_any", v == 5, t, n, t == 1) for v, t in ALLK for n in range(0, 6)]
    + [J("any%d-%s%dw" % (n, KIND[t], v), "h04_any", (v == 5) | 2, t, n, 0) for v, t in ALLK if t in HAS_ID for n in (3, 4, 5, 6)]
    + [K("mut%d" % m, "h04_mut", v, t, 1, 1, 1 if v == 5 and t != 1 else 0, 1, "full", kind=m) for v, t in ALLK for m in range(0, 7) if not NO_BODY(v, t)]
    + [K("mutp%d" % m, "h04_mut", 5, t, 1, 1, 2, 2, "exact full", kind=m, tier="quick" if m in (0, 3, 4) and t not in (1, 2) else "thorough") for t in HAS_PROPS for m in (0, 2, 3, 4, 5)]
    + [K("mut1w%d" % m, "h04_mut", 5, 1, 1, 1, 1, 1, "full", kind=m, tier="quick" if m in (0, 4) else "thorough") for m in range(0, 7)]
    + [K("mutn%d" % m, "h04_mut", v, t, 1, 1, 0, 2, "exact", kind=m) for v in (4, 5) for t in (8, 9, 10, 11) if not NO_BODY(v, t) for m in (0, 3, 4)]
    + [J("share-%s%d%s" % (KIND[t], v, "w" * (m // 2)), "h04_share", (v == 5) | m, t, n, tier=ti) for v in (4, 5) for t in (8, 10) for m in (0, 2) for n, ti in ((3, "quick"),)]
    + [J("prop%d-%d" % (i, n), "h04_part", 0, n, i) for i in PROPS_IDS for n in (6,)]
    + [J("prop-any%d" % n, "h04_part", 0, n, 0) for n in (1, 2, 3, 4, 5)]
    + [J("props-any%d" % n, "h04_part", 1, n, 0) for n in (1, 2, 3, 4, 5)]
    + [J("%s-any%d" % (nm, n), "h04_part", k, n, 0) for k, nm, ns in ((2, "entry", (1, 2, 3, 4, 5, 6)), (3, "string", (1, 2, 3, 4, 5, 6)), (4, "binary", (1, 2, 3, 4, 5, 6)), (5, "vbi", (1, 2, 3, 4, 5, 6))) for n in ns]
)

PAIR = dict(pub0=1, pub1=2, pub2=4, sub=8, unsub=16, ping=32, alias=64, big=128, topics=256)
LIM = dict(rm=1, tam=2, mps=4, ka=8, clean=16, large=32)


def PR(name, a, b, ka, kb="", auto="pub ping", autob=None, loss=0, cuts=1, parts=0, lim="", timers=0, vers=(4, 5), role="cs", tier="quick"):
    m = lambda d, s: sum(d[w] for w in s.split())
    return [J("%s%d-%s" % (role, v, name), "h01_" + role, v, a, b, m(PAIR, ka), m(PAIR, kb or ka), m(AUTO, auto), m(AUTO, auto if autob is None else autob), loss, cuts, parts, m(LIM, lim), timers, tier=tier) for v in vers]


PUBS = "pub0 pub1 pub2"
ALLW = "pub0 pub1 pub2 sub unsub ping"
V5 = dict(vers=(5,))
CHECKS["C01"] = dict(bin="pair", bounds="", jobs=
    PR("a2b1", 2, 1, ALLW, PUBS) + PR("a1b2", 1, 2, ALLW, PUBS) + PR("a2b1m", 2, 1, PUBS, PUBS, auto="", autob="pub ping") + PR("a1b1mm", 1, 1, ALLW, PUBS, auto="", autob="")
    + PR("loss1", 1, 1, ALLW, PUBS, loss=1) + PR("loss1m", 1, 1, PUBS, loss=1, auto="", autob="pub") + PR("loss1n", 1, 1, PUBS, loss=1, auto="pub", autob="")
    + PR("loss2c", 1, 0, PUBS, loss=2) + PR("loss2s", 0, 1, PUBS, loss=2) + PR("loss1a2", 2, 0, PUBS, loss=1) + PR("loss1b2", 0, 2, PUBS, loss=1)
    + PR("clean", 1, 1, "pub1 pub2", loss=1, cuts=0, lim="clean", **V5)
    + PR("parts", 1, 1, PUBS, parts=1) + PR("partsloss", 1, 0, "pub1 pub2 sub", parts=1, loss=1) + PR("partslosss", 0, 1, "pub1 pub2", parts=1, loss=1)
    + PR("rm", 2, 1, "pub1 pub2", lim="rm", **V5) + PR("rmb", 1, 2, "pub1 pub2", lim="rm", **V5) + PR("rmloss", 2, 0, "pub1 pub2", lim="rm", loss=1, **V5) + PR("rmlosss", 0, 2, "pub1 pub2", lim="rm", loss=1, **V5)
    + PR("alias", 2, 1, "pub0 pub1 alias topics", "pub0", lim="tam", **V5) + PR("aliasb", 0, 2, "pub0 pub2 alias topics", lim="tam", **V5)
    + PR("alloss", 2, 0, "pub1 alias", lim="tam", loss=1, **V5) + PR("allosss", 0, 2, "pub1 alias", lim="tam", loss=1, **V5)
    + PR("almap", 2, 1, "pub0 pub1 topics", lim="tam", auto="pub ping map", **V5) + PR("alrep", 2, 0, "pub0 pub1 topics", lim="tam", auto="pub ping replace", loss=1, **V5)
    + PR("mps", 1, 1, "pub0 pub1 pub2 big", lim="mps", loss=1, cuts=0, **V5) + PR("mpsal", 2, 0, "pub0 pub1 big topics", lim="mps tam", auto="pub ping map", **V5)
    + PR("ka", 1, 1, "pub1", lim="ka", timers=1, loss=1, cuts=0) + PR("kam", 1, 1, "pub0 ping", "pub0", lim="ka", timers=2, auto="")
    + PR("any", 1, 1, PUBS, role="aa") + PR("anyloss", 1, 1, "pub2", role="aa", loss=1) + PR("any2", 1, 0, PUBS, role="aa", loss=1, auto="")
    + PR("t-loss2", 1, 1, PUBS, loss=2, **T) + PR("t-a2b2", 2, 2, PUBS, **T) + PR("t-a3", 3, 0, PUBS, loss=1, cuts=0, **T) + PR("t-loss3", 1, 0, PUBS, loss=3, cuts=2, **T)
    + PR("t-b3", 0, 3, PUBS, loss=1, cuts=0, **T) + PR("t-mm", 2, 1, PUBS, auto="", **T) + PR("t-mml", 1, 1, PUBS, auto="", loss=1, **T)
    + PR("t-rm", 2, 2, "pub1 pub2", lim="rm", **V5, **T) + PR("t-al", 2, 1, "pub0 pub1 alias topics", lim="tam rm mps", loss=1, cuts=0, **V5, **T)
)
COMMON = ("one GenericConnection<Role, u16> per path, Role in {Client, Server, and where named Any}, MQTT v3.1.1 and v5.0; a correctly behaving application and an "
          "arbitrary peer: every sequence of k operations (k per job, 'steps' in the job parameters) from the named starting situations (fresh, connecting, connected, "
          "connected with exchanges open, closed with stored packets, resuming, resumed); received packet identifiers, reason-code classes, DUP, topic aliases, Receive Maximum, "
          "Topic Alias Maximum, Maximum Packet Size, keep-alive values are symbolic over their full range where a job varies them; topics of 1-2 bytes, payloads of 1 byte, "
          "one identifier serves one exchange at a time, the application closes after RequestClose. Outside: longer histories than prefix + k, other packet contents, u32 identifiers except where named. ")
BOUNDS = dict(
    C05=COMMON + "Quick k<=2 (all operations), 3 (Receive Maximum); plus one frame of 0..4 (quick; 3 while disconnected/connecting), 0..7 (thorough) arbitrary body bytes with an arbitrary first byte, and well-formed packets of all 15 kinds with two arbitrary bytes at any place, any flags or cut short at any place. Every path ends with: close, reconnect, publish must work.",
    C06=COMMON + "Outbound QoS 1/2, k<=4 quick, 6 thorough; store export compared byte for byte after every operation.",
    C07=COMMON + "Inbound QoS 2, k<=4 quick, 6 thorough; handled-id export compared after every operation.",
    C08=COMMON + "Identifier bookkeeping, k<=3 quick, 5 thorough; at every end an arbitrary identifier is tried with register. Exhaustion: all 65535 identifiers acquired, then an arbitrary one released and acquired again. 32-bit identifiers: 2 (3) arbitrary management calls.",
    C12=COMMON + "Receive Maximum of the peer symbolic in 1..=3 (or 1..=65535), own in 1..=2 (3); k<=4 quick, 6 thorough.",
    C13=COMMON + "Topic Alias Maximum symbolic (1..=2 or 0..=65535), aliases symbolic, two topics, manual / automatic mapping / automatic replacement; k<=4 quick, 5 thorough.",
    C14=COMMON + "Maximum Packet Size of both sides symbolic over 1..=2^32-1; k<=3; plus one symbolic frame.",
    C15=COMMON + "Keep-alive, Server Keep Alive symbolic; application override none/0/7000 ms; timers fire whenever armed; k<=4 quick, 6 thorough.",
    C19=COMMON + "k<=2 (all operations), 3-4 on closing paths; plus one symbolic frame (0..3 body bytes) or mutated packet.",
)
TW = ("Two or three objects driven in lockstep, every event and the exported session compared after every operation. " + COMMON)
BOUNDS.update(
    C10=TW + "One object lives a history (prefix + 1 or 2 arbitrary operations, all kinds, optionally half a packet received), is closed, optionally used while disconnected, then starts a "
        "connection with an arbitrary CONNECT (clean or not) and a CONNACK without session present; the other is fresh. Compared for that handshake and 1 (2) further operations, then for an arbitrary identifier.",
    C11=TW + "State reached by prefix + <=1 operation; one of 33 packet kinds (both versions, all roles, owned and unowned identifier) is offered to send: allowed exactly as the table of role, version "
        "and connection state says; checked_send exists exactly for the role's packets and equals send; after a refusal 1 (2) further operations equal those of an object where the call was not made.",
    C16=TW + "prefix + <=2 (3) operations on a persistent session, export of stored packets and handled identifiers, import into a new object; session resumed on both, 1-2 further operations; separately: an arbitrary identifier is in use exactly if exported or owed.",
    C17=TW + "State reached by prefix + <=1 operation, then any packet the peer's role or the version forbids, or a second CONNECT/CONNACK, with regular or arbitrary body (0-3 bytes): rejected, no effect on the session "
        "(resumed afterwards, 1 (2) further operations). Undetermined server: 0..2 rejected first packets, then CONNECT with arbitrary bytes, <=2 further operations, against a server of that version.",
)
BOUNDS.update(
    C09="PacketBuilder on every stream of <=8 (thorough 10) fully symbolic bytes, cut into every partition incl. empty buffers, against an independent splitter (lengths past the end of the stream limited to 7 values); "
        "frames of 1..16385 bytes (thorough up to 2 MiB) incl. padded Remaining Lengths with <=4 cuts at boundary marks; connections (client/server/any, v3.1.1/v5.0, 12 frame kinds with symbolic ids) "
        "fed one frame under every partition, or two frames under <=2 cuts, give the same events, errors and final state as fed whole packets.",
)
CO = ("All 29 packet types of v3.1.1 and v5.0 (identifier-carrying ones with u16 and u32 identifiers), default string storage (C02, C03 also with the small-string features, lengths around their thresholds: quick two / one of the four features, thorough all). ")
BOUNDS.update(
    C02=CO + "Packets built through the builders with symbolic identifiers, flags, QoS, reason codes over all bytes, keep-alive, 0..3 symbolic bytes per string / binary / payload (arbitrary bytes where the "
        "builder takes bytes, UTF-8 where it takes str), 1..2 (3) list entries, up to two arbitrary properties out of all 27 (will properties too), presence of optional parts symbolic; lengths swept over spans around "
        "127/128, 16383/16384 (thorough: property length and 2097151/2097152 too) and 65535/65536. Checked: size() = bytes written = Remaining Length + header; to_buffers concatenated = to_continuous_buffer; output equals an independent "
        "encoder byte for byte; stored serialisation equals the packet's; the PUBLISH mutators (add/extract/remove topic, dup) keep sizes exact; every invalid field combination is refused.",
    C03=CO + "Same packets as C02 (up to three properties). Checked: parsing the serialised bytes succeeds, consumes exactly them, gives an equal packet whose every accessor agrees and which serialises to the same bytes.",
    C04=CO + "Every packet type's parser on every body of 0..5 (6 with u32 identifiers, more in the thorough tier) arbitrary bytes with arbitrary flags, and on regular packets with one or two arbitrary bytes at any place / cut short / lengthened; the property, "
        "property list, subscription entry, string, binary and variable-length-integer decoders on 1..6 arbitrary bytes, each of the 27 properties on 6. Checked: never a panic; when accepted: no invalid field, consumed <= input, re-serialisation parses to an equal packet.",
    C18="CONNECT (and its will), CONNACK, PUBLISH, PUBACK/REC/REL/COMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH: every sequence of <=2 (3) properties out of all 27 identifiers with symbolic values, given to the builder and as bytes to the "
        "parser; plus every unknown property identifier in the bytes. Checked against the table of OASIS MQTT v5.0 2.2.2.2: where each property may occur, which may repeat, which values are legal; builder and parser agree.",
)
BOUNDS.update(
    C01="Two real connection objects (GenericConnection<Client, u16> and <Server, u16>, or both <Any, u16>) of one version, joined by two byte pipes; v3.1.1 and v5.0. The first connection is established, then each side's application has 0..2 (thorough 3) "
        "items to send out of {PUBLISH QoS 0/1/2 (two topics, manual alias), SUBSCRIBE, UNSUBSCRIBE, PINGREQ}, kinds chosen nondeterministically; every interleaving of application sends, deliveries, automatic or manual answers, and (up to 'loss' = 1, "
        "2, thorough 3) transport losses is explored modulo commuting steps of the two sides (sleep sets); at a loss any number of whole frames of each pipe, and half a frame, may still have arrived; deliveries may be cut in two. After a loss the client reconnects with its "
        "session (v5.0: or clean start) and both continue. Receive Maximum, Topic Alias Maximum, Maximum Packet Size (>= 24) symbolic in small ranges where a job varies them; timers may fire (keep-alive jobs). Checked at every step: no error, no close request, "
        "no panic; at the end: every accepted QoS 1 message delivered at least once, QoS 2 exactly once per exchange, QoS 0 at most once, content and order per QoS as sent, all identifiers released, stores empty, both idle. "
        "Outside: more items or losses, the first handshake interrupted, application-level DISCONNECT during exchanges, u32 identifiers.",
)
for _p in ("C05", "C06", "C07", "C08", "C12", "C13", "C14"):
    BOUNDS[_p] += " Jobs restart*: while disconnected the object may be replaced by a new one given the export (identifiers of owed PUBRELs registered again), 4 further operations."
BOUNDS["C11"] += " Undetermined version (undet*): one packet (thorough two) is offered before any CONNECT, then connection and one operation."
for _p, _b in BOUNDS.items():
    CHECKS[_p]["bounds"] = _b
