"""Scenarios per property. Each varies the dimensions its property quantifies over and keeps the rest
plain. A scenario can have a reference (a plainer one that must be right for a deviation here to be
this property's) and twins (scenarios whose clients must not be able to tell the difference)."""
import random, string
from vlib import *

ALL_KINDS = ["get", "post", "put", "delete", "patch", "head", "all", "use"]
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT"]
KIND_OF = {"GET": "get", "POST": "post", "PUT": "put", "DELETE": "delete", "PATCH": "patch", "HEAD": "head"}
EDGES = [0, 1, 2, 3, 254, 255, 256, 257, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096,
         4097, 8191, 8192, 8193]


class Item:
    __slots__ = ("sc", "ref", "twins", "note", "dim")

    def __init__(self, sc, ref=None, twins=(), note="", dim=""):
        self.sc, self.ref, self.twins, self.note, self.dim = sc, ref, list(twins), note, dim


class Corpus:
    def __init__(self, pid, seed, thorough):
        self.pid, self.seed, self.thorough = pid, seed, thorough
        self.rng = random.Random("%s/%s/%s" % (pid, seed, thorough))
        self.mains = random.Random("main/%s/%s" % (pid, seed))
        self.items = []
        self.plain = None
        self.gstates = 0

    def add(self, sc, ref=None, twins=(), note="", dim=""):
        # some programs are written with #[octane::main]
        if "conns" in sc and dim != "bursts" and self.mains.random() < (.25 if self.pid in ("C18", "C19", "C22") else .04):
            sc["main"] = True
        if ref is None and self.pid in ("C01", "C02", "C04", "C05", "C06"):
            # nothing is varied relative to another scenario: the plainest one there is has to work
            self.plain = self.plain or single([route("get", "/", 1)], request("GET", "/"))
            ref = self.plain
        self.items.append(Item(sc, ref, twins, note, dim))
        return sc

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


def request(method="GET", target="/", headers=(), ver="1.1", host=True, body=b"", cl=None, xc=None):
    if isinstance(target, str):
        target = target.encode()
    out = method.encode() + b" " + target + b" HTTP/" + ver.encode() + b"\r\n"
    if host:
        out += b"Host: h\r\n"
    if xc is not None:
        out += b"X-C: %d\r\n" % xc
    for k, v in headers:
        k = k if isinstance(k, bytes) else k.encode()
        v = v if isinstance(v, bytes) else v.encode()
        out += k + b": " + v + b"\r\n"
    if cl is None and body:
        cl = len(body)
    if cl is not None:
        out += b"Content-Length: %d\r\n" % cl
    return out + b"\r\n" + body


def pad_request(method, target, headlen, body=b"", cl=None):
    """a request whose head is exactly headlen bytes long (if that is long enough)"""
    base = request(method, target, body=b"", cl=cl if cl is not None else (len(body) or None))
    room = headlen - len(base)
    if room >= 6:
        base = request(method, target, headers=[("X", "p" * (room - 5))], body=b"", cl=cl if cl is not None else (len(body) or None))
    return base + body


def ok_app(prog=None):
    return [route("all", "/", 1, prog)]


# ------------------------------------------------------------------ routing: C01 .. C05
SEGS = ["a", "b", "c", "ab", "A", "B", "x", "a.b", "...", ".a", "a.", "..a", "%41", "%2e%2e", "%2F", "1", "10", "é", "日本", "a:b",
        "*", "~", "a-b", "a_b", "-", "a+b", "a@b", "a;b", "a,b", "(a)", "'", "!", "$", "&", "="]
LONG = ["s" * 64, "s" * 255, "s" * 256, "s" * 1000]
VARS = [":x", ":y", ":z", ":id", ":X", ":a", ":longer_name1", ":é", ":v.w", ":0"]


class RouteGen:
    def __init__(self, rng, small=0.6):
        self.r = rng
        pool = ["a", "b"] if rng.random() < small else rng.sample(SEGS, 4) + (rng.sample(LONG, 1) if rng.random() < .1 else [])
        self.lits = pool
        self.vars = rng.sample(VARS, 4)

    def pattern(self, depth=None, pv=0.4):
        r = self.r
        d = depth if depth is not None else r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])
        vs = list(self.vars)
        r.shuffle(vs)
        out = []
        for _ in range(d):
            if r.random() < pv and vs:
                out.append(vs.pop())
            else:
                out.append(r.choice(self.lits))
        return out

    def path_for(self, pat):
        r = self.r
        out = []
        for s in pat:
            if s.startswith(":"):
                out.append(r.choice(self.lits + ["zz", ":x", "9", "q" * r.choice([1, 3, 40])]))
            else:
                out.append(s)
        m = r.random()
        if m < .12 and out:
            out[r.randrange(len(out))] = r.choice(self.lits + ["nope"])
        elif m < .17:
            out.append(r.choice(self.lits))
        elif m < .22 and out:
            out.pop(r.randrange(len(out)))
        elif m < .25 and out:
            i = r.randrange(len(out))
            out[i] = out[i].swapcase()
        elif m < .28 and out:
            i = r.randrange(len(out))
            out[i] = out[i] + "x"
        return out


def p(segs):
    return "/" + "/".join(segs)


def random_routes(rng, n, g, kinds=None, stop=0.35, depth=None, pv=None):
    out = []
    base = [g.pattern(depth) for _ in range(max(1, n // 2))]
    kinds = kinds or rng.choice([ALL_KINDS, ["get", "all", "use"], ["get", "post", "all", "use"], ["get", "get", "get", "use"]])
    for i in range(n):
        k = rng.choice(kinds)
        q = rng.random()
        if q < .5:
            pat = list(rng.choice(base))
            if rng.random() < .3 and pat:
                j = rng.randrange(len(pat))
                pat[j] = rng.choice(g.lits) if pat[j].startswith(":") else ":w"
        else:
            pat = g.pattern(depth)
        prog = rng.choice([[], [], [op("send", "h%d" % (i + 1))], [op("set", "X-%d" % (i + 1), "v")]])
        out.append(route(k, "" if k == "use" else p(pat), i + 1, prog, "stop" if rng.random() < stop else "next"))
    return out


def request_for(rng, g, routes):
    r = rng.choice(routes)
    if r["k"] == "use":
        pat = g.pattern()
    else:
        pat = bytes(r["p"]).decode().strip("/").split("/") if bytes(r["p"]) != b"/" else []
    path = g.path_for(pat)
    m = {"get": "GET", "post": "POST", "put": "PUT", "delete": "DELETE", "patch": "PATCH", "head": "HEAD"}.get(r["k"])
    if m is None or rng.random() < .2:
        m = rng.choice(METHODS)
    return m, path


def segment_values(c, _cache={}):
    """path segments of every kind: each byte that may stand in one, every escape, spellings of the same text"""
    if c.seed in _cache:
        return _cache[c.seed]
    r = random.Random(c.seed * 7 + 5)
    out = [bytes([x]) for x in range(0x21, 0x7f) if chr(x) not in "/?."]
    out += [b"a" + bytes([x]) + b"b" for x in range(0x21, 0x7f) if chr(x) not in "/?"]
    out += [b"%%%02X" % x for x in range(256)] if c.thorough else [b"%%%02X" % x for x in list(range(0x20, 0x80)) + [0, 9, 10, 13, 0xc3, 0xff]]
    out += [b"%2f", b"%2F..", b"%2e", b"%2E%2e", b"%", b"%%", b"%4", b"%zz", b"%25", b"%2541", b"a%20b", b"a+b", b"%C3%A9", b"\xc3\xa9", b"e\xcc\x81", b"%u0041",
            b"\xf0\x9f\xa6\x80", b"\xef\xbb\xbfx", b"\xe2\x80\x8b", b"\xc2\xa0", b"null", b"undefined", b"true", b"-1", b"007", b"1e3", b"0x10", b"{}", b"[]", b"[a]=1",
            b"a=b&c=d", b"a;b=c", b"#x", b"x#y", b"a\\b", b"..%2f", b"...", b"....", b".a", b"a.", b"a..b", b":x", b":", b"::", b"*", b"**", b"index.html", b"A", b"a",
            b"%61", b"\t", b"a\tb", b"\x01", b"\x7f", b"\x0b", b"<script>", b"'", b'"', b"~root", b"$HOME", b"v", b"V"]
    out += [b"s" * k for k in (2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096)]
    out += [("é" * k).encode() for k in (2, 8, 64, 100, 300)]
    for _ in range(c.n(60, 2000)):
        out.append(bytes(r.choice(b"abcXYZ0189-._~%!$&'()*+,;=:@%%+") for _ in range(r.choice([1, 2, 3, 5, 9, 30]))))
    out = [x for x in out if x not in (b".", b"..")]
    _cache[c.seed] = out
    return out


def many_routes(n, kind="get", path="/m", flow="next", last="stop"):
    return [route(kind, path, i + 1, [], flow) for i in range(n - 1)] + [route(kind, path, n, None, last)]


def routing_items(c, view, nrand, big=True):
    r = c.rng
    for t in range(nrand):
        g = RouteGen(r)
        n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
        routes = random_routes(r, n, g)
        m, path = request_for(r, g, routes)
        c.add(single(routes, request(m, p(path)), view=view), dim="random")
    if big:
        for n in (17, 33, 65, 70, 129, 257, 300) + ((1100,) if c.pid == "C02" else ()):
            c.add(single(many_routes(n), request("GET", "/m"), view=view), dim="many same path")
            mixed = [route(r.choice(["get", "all", "use"]), r.choice(["/m", "/:x", "m/", "/:y"]), i + 1, [], "next") for i in range(n)]
            for q in mixed:
                if q["k"] == "use":
                    q["p"] = []
            c.add(single(mixed, request("GET", "/m"), view=view), dim="many mixed")
            distinct = [route("get", "/r%d" % i, i + 1) for i in range(n)]
            for i in (0, n // 2, n - 1):
                c.add(single(distinct, request("GET", "/r%d" % i), view=view), dim="many distinct")
        for d in (6, 8, 9, 16, 17, 32, 33, 64, 65, 128, 257, 520):
            lit = ["s%d" % i for i in range(d)]
            var = [":v%d" % i for i in range(d)]
            alt = [lit[i] if i % 2 else var[i] for i in range(d)]
            routes = [route("get", p(lit), 1, [], "next"), route("get", p(alt), 2, [], "next"), route("use", "", 3, [], "next"),
                      route("get", p(lit[:-1]), 4, [], "next"), route("get", p(lit + ["s"]), 5, [], "next"),
                      route("get", p(lit[:-1] + [":l"]), 6)]
            if d <= 17:
                routes.append(route("get", p(var), 7))
            for path in (lit, lit[:-1] + ["zz"], lit[:-1], lit + ["s"]):
                c.add(single(routes, request("GET", p(path)), view=view), dim="deep")
    # every kind against every method
    routes = [route(k, "" if k == "use" else "/k", i + 1, [], "next") for i, k in enumerate(ALL_KINDS)]
    for m in METHODS:
        for path in ("/k", "/other", "/"):
            c.add(single(routes, request(m, path), view=view), dim="kinds x methods")
    for i, k in enumerate(ALL_KINDS):
        for m in METHODS:
            for fl in ("stop", "next"):
                c.add(single([route(k, "" if k == "use" else "/k", 1, None, fl)], request(m, "/k"), view=view), dim="kinds x methods")
    # a tail of each ordering of three kinds on one path
    for a in ("get", "all", "use"):
        for b in ("get", "all", "use"):
            for d in ("get", "all", "use"):
                for fl in (("next", "next", "next"), ("next", "stop", "next"), ("stop", "next", "next"), ("next", "next", "stop")):
                    for pa in ("/k", "/:v"):
                        ks = (a, b, d)
                        routes = [route(k, "" if k == "use" else (pa if j % 2 else "/k"), j + 1, [op("send", "%d" % j)] if j != 1 else [], fl[j])
                                  for j, k in enumerate(ks)]
                        c.add(single(routes, request("GET", "/k"), view=view), dim="orders")


def c01(c):
    routing_items(c, [], c.n(1500, 20000))
    r = c.rng
    routes = [route(k, "" if k == "use" else pa, i + 1, [], "next") for i, (k, pa) in enumerate((k, pa) for k in ALL_KINDS for pa in ("/a/b", "/:x", "/"))]
    # literal segments of every kind, asked for as they are and as something that only looks the same
    vals = segment_values(c)
    for val in vals:
        t = val.decode("utf-8", "surrogateescape")
        if "\udc80" <= max(t) <= "\udcff" or t.startswith(":"):
            continue
        import urllib.parse
        alike = {t, t.lower(), t.upper(), t.swapcase(), t.replace("+", " "), urllib.parse.quote(t), t + "x", t[:-1], t.rstrip("."), t.split(";")[0], t.split("#")[0], t.strip("/"), t + "%20"}
        try:
            alike.add(urllib.parse.unquote(t, errors="strict"))
        except UnicodeDecodeError:
            pass
        alike = sorted(x for x in alike if x and not set(x) & set(" /?\r\n") and x not in (".", ".."))
        lits = [route("all", ("/l/" + t).encode(), 1, [], "next"), route("get", ("/" + t + "/l").encode(), 2, [], "next")]
        c.add(single(lits, request("GET", "/l/" + t)), dim="literals")
        for x in r.sample(alike, min(len(alike), c.n(2, 99))):
            c.add(single(lits, request("GET", r.choice(["/l/%s", "/%s/l"]) % x)), dim="literals")
    for hs in MAGIC:
        for m in ("GET", "POST", "OPTIONS"):
            c.add(single(routes, request(m, r.choice(["/a/b", "/z", "/"]), headers=hs)), dim="known headers")
    for tg in TARGETS:
        for m in ("GET", "POST", "HEAD", "OPTIONS"):
            c.add(single(routes, request(m, tg)), dim="targets")
    for n in (0, 1, 20, 600, 3000):
        for m in METHODS:
            c.add(single(routes, request(m, "/a/b", body=b"x" * n)), dim="bodies")


def c02(c):
    r = c.rng
    routing_items(c, [], c.n(900, 15000))
    # dense chains: most handlers match, few stop
    for t in range(c.n(700, 10000)):
        n = r.choice([2, 3, 4, 5, 7, 10, 20])
        routes = []
        for i in range(n):
            k = r.choice(["get", "all", "use", "get", "all"])
            pa = r.choice(["/a/b", "/:x/b", "/a/:y", "/:x/:y", "/:p/:q", "a/b/", "/a/./b"])
            routes.append(route(k, "" if k == "use" else pa, i + 1, r.choice([[], [op("send", "z")]]), "stop" if r.random() < .12 else "next"))
        c.add(single(routes, request("GET", "/a/b")), dim="dense")


def group_mounts(rng, routes):
    """random grouping of consecutive registrations into mounted routers"""
    app, i = [], 0
    while i < len(routes):
        if rng.random() < .55:
            k = rng.choice([0, 1, 1, 2, 2, 3, 4, len(routes)])
            app.append(mount(routes[i:i + k]))
            i += k
        else:
            app.append(routes[i])
            i += 1
    if rng.random() < .2:
        app.append(mount([]))
    return app


def c03(c):
    r = c.rng
    view = ["vars"]

    def pair(app, routes, raw, dim):
        flat = single(routes, raw, view=view)
        c.add(single(app, raw, view=view), twins=[(flat, [(1, 1)])], dim=dim)

    for t in range(c.n(900, 12000)):
        g = RouteGen(r)
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
        dense = r.random() < .5
        if dense:
            routes = []
            for i in range(n):
                k = r.choice(["get", "all", "use", "get", "post"])
                pa = r.choice(["/a/b", "/:x/b", "/a/:y", "/:x/:y", "/:p/:q", "/a", "/"])
                routes.append(route(k, "" if k == "use" else pa, i + 1, r.choice([[], [op("send", "h%d" % i)]]), "stop" if r.random() < .15 else "next"))
            raw = request(r.choice(["GET", "GET", "POST", "PUT"]), r.choice(["/a/b", "/a/b", "/q/b", "/a", "/"]))
        else:
            routes = random_routes(r, n, g, stop=.2)
            raw = request(*[(lambda m, q: (m, p(q)))(*request_for(r, g, routes))][0])
        if r.random() < .1:
            routes.insert(r.randrange(len(routes) + 1), route(r.choice(ALL_KINDS[:7]), r.choice(["/..", "/a/../.."]), 99, [], "next"))
        pair(group_mounts(r, routes), routes, raw, "random")
    # every handler kind in a router, mounted before/after/between direct registrations
    for k in ALL_KINDS:
        for k2 in ("get", "all", "use"):
            for m in ("GET", "POST", "HEAD", "DELETE", "PUT", "PATCH", "OPTIONS"):
                a, b, d = (route(kk, "" if kk == "use" else "/:v", i + 1, [], "next") for i, kk in enumerate((k2, k, k2)))
                pair([a, mount([b]), d], [a, b, d], request(m, "/z"), "kinds")
                pair([mount([a, b]), d], [a, b, d], request(m, "/z"), "kinds")
                pair([mount([a]), mount([]), mount([b, d])], [a, b, d], request(m, "/z"), "kinds")
    for n in (2, 5, 17, 40, 65, 130, 260):
        routes = [route(("get", "use", "all")[i % 3], "" if i % 3 == 1 else "/m", i + 1, [], "next") for i in range(n)]
        pair([mount([x]) for x in routes], routes, request("GET", "/m"), "many routers")
        pair([mount(routes)], routes, request("GET", "/m"), "one big router")
        pair([mount(routes[:n // 2]), mount(routes[n // 2:])], routes, request("GET", "/m"), "two routers")
        pair(routes[:n // 2] + [mount(routes[n // 2:])], routes, request("GET", "/m"), "router after routes")
    # tall and wide routers
    for d in (5, 6, 7, 8, 9, 12, 16, 17, 20, 32, 33, 48, 64, 65, 128):
        lit = ["s%d" % i for i in range(d)]
        alt = [":v%d" % i if i % 2 else x for i, x in enumerate(lit)]
        routes = [route("get", p(lit), 1, [], "next"), route("get", p(alt), 2, [], "next"), route("all", p(lit[:-1]), 3, [], "next"),
                  route("get", p(lit[:-1] + [":l"]), 4, [], "next"), route("all", p(lit + ["t"]), 5, [], "next"), route("get", p(lit[:d // 2]), 6)]
        for path in (lit, lit[:-1], lit[:-1] + ["zz"], lit + ["t"], lit[:d // 2]):
            pair([mount(routes)], routes, request("GET", p(path)), "tall")
            pair(group_mounts(r, routes), routes, request("GET", p(path)), "tall")
    for n in (4, 9, 17, 33, 65, 130, 260, 520):
        routes = [route(("get", "all", "post")[i % 3], r.choice(["/w%d", "/w%d/", "/a/w%d", "/a/:x/w%d", "/w%d/:y"]) % (i % max(2, n // 2)), i + 1, [], "next")
                  for i in range(n)]
        for t in range(6):
            tgt = bytes(r.choice(routes)["p"]).decode().replace(":x", "q").replace(":y", "k")
            pair([mount(routes)] if t % 2 else group_mounts(r, routes), routes, request(r.choice(["GET", "POST"]), tgt), "wide")


def respell(rng, segs, lead=True, variables=True):
    """another spelling of the path with these segments"""
    out = []
    for s in segs:
        while rng.random() < .35:
            x = rng.choice([[""], ["."], ["."], ["z", ".."], ["z", "y", "..", ".."], ["...", ".."], [".", ""], ["", "", ""], ["z", ".", ".."],
                            ["z", "", ".."]] + ([[":v", ".."]] if variables else []))
            out += x
        out.append(s)
    while rng.random() < .35:
        out += rng.choice([[""], ["."], ["z", ".."], ["z", "..", ""], [".", "."], ["k", "j", "..", ".."]])
    q = "/".join(out)
    if lead and rng.random() < .8:
        q = "/" + q
    return q


def c04(c):
    r = c.rng
    # the same path, spelled otherwise
    for t in range(c.n(900, 12000)):
        g = RouteGen(r, small=.7)
        n = r.choice([1, 2, 3, 4, 5])
        routes = random_routes(r, n, g, stop=.2)
        m, path = request_for(r, g, routes)
        base = single(routes, request(m, p(path)), view=["vars"])
        spelled = []
        for q in routes:
            segs = [] if bytes(q["p"]) in (b"", b"/") else bytes(q["p"]).decode().strip("/").split("/")
            spelled.append(dict(q, p=q["p"] if q["k"] == "use" or r.random() < .3 else bts(respell(r, segs))))
        tgt = respell(r, path, variables=False) if r.random() < .8 else p(path)
        if tgt == "":
            tgt = "/"
        c.add(single(spelled, request(m, tgt), view=["vars"]), twins=[(base, [(1, 1)])], dim="respelled")
    # dots at every place
    routes = [route("get", "/a/b", 1), route("get", "/a", 2), route("get", "/", 3), route("get", "/b", 4), route("get", "/:x/:y/:z", 5)]
    pieces = ["", ".", "..", "a", "b", "..."]
    import itertools
    for d in range(0, c.n(4, 6)):
        for combo in itertools.product(pieces, repeat=d):
            segs, ok = [], True
            for s in combo:
                if s in ("", "."):
                    continue
                if s == "..":
                    if not segs:
                        ok = False
                        break
                    segs.pop()
                else:
                    segs.append(s)
            raw = request("GET", "/" + "/".join(combo))
            if ok:
                c.add(single(routes, raw), twins=[(single(routes, request("GET", p(segs))), [(1, 1)])], dim="dots")
            else:
                c.add(single(routes + [route("use", "", 6)], raw), dim="escape")
    # only '/' separates, and only '.' and '..' as they stand have a meaning
    for ch in sorted(set("\\;:,|!$&'()*+=@~-_%^`{}[]<>\"") | {"%2f", "%2F", "%5c", "%00", "%2e", "%2E%2e", "%20", "\u2044", "\u2215", "\uff0f", "\uff0e\uff0e", "\u2025", "\u00a0"}):
        for pat in ("/a%sb", "/a%s", "/%sb", "/%s", "/%s%s", "/a/%s/b", "/a/..%s/b", "/a/%s../b", "/a/.%s", "/a/b/%s.", "/a/b%s..%sc", "/..%s/a", "/a%s/../b"):
            tgt = pat.replace("%s", ch)
            own = [] if "/:" in tgt else [route("get", tgt, 9)]
            tab = [route("get", "/a/b", 1), route("get", "/a", 2), route("get", "/b", 4), route("get", "/:x/:y/:z", 5, None, "next"), route("get", "/:x/:y", 6, None, "next"), route("get", "/:x", 7, None, "next"), route("get", "/", 8)] + own
            c.add(single(tab, request("GET", tgt), view=["vars"]), ref=single(tab, request("GET", "/a/x"), view=["vars"]), dim="characters")
    # climbing above the root
    for e in ["/..", "/../", "/../a", "/a/../..", "/a/../../a", "/./..", "//..", "/a/b/../../..", "/../../../a/b", "..", "../a", "/..?q=1", "/a/../..?x", "/.././a",
              "/...//../../..", "/a/./../.././a", "/" + "a/" * 40 + "../" * 41, "/" + "a/" * 40 + "../" * 41 + "a/b"]:
        for m in ("GET", "POST", "OPTIONS"):
            c.add(single([route("use", "", 1, None, "next"), route("all", "/a", 2), route("all", "/:x", 3), route("all", "/", 4), route("all", "/a/b", 5)],
                         request(m, e)), dim="escape")
            c.add(single([route("use", "", 1, None, "next")], request(m, e, headers=[("A", "b")], body=b"xyz")), dim="escape")
    # a pattern that climbs above the root is refused and changes nothing
    for t in range(c.n(250, 3000)):
        g = RouteGen(r)
        routes = random_routes(r, r.choice([1, 2, 3, 4]), g, stop=.15)
        m, path = request_for(r, g, routes)
        bad = []
        for j in range(r.choice([1, 1, 2])):
            bad.append(route(r.choice(ALL_KINDS[:7]), r.choice(["/..", "..", "/a/../..", "/:x/../..", "/../a", "/../:x", "/./../a/b", p(path) + "/.." * (len(path) + 1)]),
                             90 + j, None, r.choice(["next", "stop"])))
        mixed = list(routes)
        for b in bad:
            mixed.insert(r.randrange(len(mixed) + 1), b)
        raw = request(m, p(path))
        c.add(single(group_mounts(r, mixed) if r.random() < .5 else mixed, raw), twins=[(single(routes, raw), [(1, 1)])], dim="refused pattern")
    for k in ALL_KINDS[:7]:
        for b in ("/..", "/a/../..", "/../a", "/:x/../..", "a/../../b"):
            routes = [route("all", "/:q", 1, [], "next"), route("use", "", 2)]
            c.add(single([route(k, b, 9)] + routes, request("GET", "/a")), twins=[(single(routes, request("GET", "/a")), [(1, 1)])], dim="refused pattern")
            c.add(single([mount([route(k, b, 9)])] + routes, request("GET", "/a")), twins=[(single(routes, request("GET", "/a")), [(1, 1)])], dim="refused pattern")


def c05(c):
    r = c.rng
    v = ["vars"]
    routing_items(c, v, c.n(500, 8000))
    for t in range(c.n(900, 12000)):
        d = r.choice([1, 2, 3, 4, 5])
        lits = [r.choice(SEGS) for _ in range(d)]
        names = r.sample(VARS + [":n%d" % i for i in range(6)], 12)
        routes = []
        for i in range(r.choice([1, 2, 3, 4, 6])):
            vs = r.sample(names, d)
            pat = [lits[j] if r.random() < .35 else vs[j] for j in range(d)]
            k = r.choice(["get", "get", "all", "use"])
            routes.append(route(k, "" if k == "use" else p(pat), i + 1, [], "next"))
        path = [s if r.random() < .8 else r.choice(SEGS + LONG[:1]) for s in lits]
        tgt = p(path)
        if r.random() < .2:
            tgt += r.choice(["/", "?a=b", "?x=y&id=3", "//"])
        app = routes if r.random() < .7 else group_mounts(r, routes)
        c.add(single(app, request("GET", tgt), view=v), dim="names")
    # what a variable can be bound to
    app = [route("get", "/v/:a", 1, [], "next"), route("use", "", 2, [], "next"), route("all", "/:b/:c", 3, [], "next"), route("get", "/v/:a/:d", 4)]
    for val in segment_values(c):
        c.add(single(app, request("GET", b"/v/" + val), view=v), dim="values")
        if r.random() < .3:
            c.add(single(app, request("GET", b"/v/" + val + b"/" + r.choice(segment_values(c))), view=v), dim="values")


# ------------------------------------------------------------------ connections: C06 .. C09
def sends(parts, half=False, sync=True):
    st = [dict(do="open", c=1)]
    for n in parts:
        st.append(dict(do="send", c=1, n=n, sync=sync))
    if half:
        st.append(dict(do="half", c=1))
    return st + [dict(do="finish", c=1)]


ECHO = ["meth", "ver", "hdr", "raw", "body", "ck", "q", "xq", "vars"]
SAMPLES = [
    request("GET", "/"),
    request("POST", "/p?x=1&y[]=2", headers=[("A", "b"), ("Cookie", "k=v; l=w")], body=b"hello world"),
    request("PUT", "/a/b", headers=[("Accept", "*/*"), ("X-Long", "q" * 300)], body=bytes(range(256))),
    request("GET", "/q", ver="1.0", host=False),
    request("DELETE", "/d", body=b"\r\n\r\n"),
    request("GET", "/", headers=[("Content-Length", "0")]),
    request("FOO", "/"),
    request("GET", "/", host=False),
    b"GET / HTTP/1.1\r\nbad line\r\n\r\n",
    request("GET", "/../x"),
    b"GET /\r\n\r\n",
]


def ends_right(raw):
    """whether sending raw without ending calls for an answer by itself (a complete head and body)"""
    i = raw.find(b"\r\n\r\n")
    if i < 0:
        return False
    import re as _re
    m = _re.search(rb"(?im)^content-length:[ \t]*(\d+)[ \t]*\r?$", raw[:i])
    need = int(m.group(1)) if m else 0
    return len(raw) >= i + 4 + need


def mutate(rng, raw):
    b = bytearray(raw)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.random()
        i = rng.randrange(len(b) + 1)
        if k < .3 and b:
            b[min(i, len(b) - 1)] = rng.choice([0, 9, 10, 13, 32, 58, 47, 46, 63, 37, 127, 128, 195, 255, rng.randrange(256)])
        elif k < .5 and b:
            j = min(len(b), i + rng.choice([1, 1, 2, 4, 10]))
            del b[i:j]
        elif k < .75:
            b[i:i] = rng.choice([b"\r\n", b"\n", b"\r", b" ", b"\r\n\r\n", b":", b"\x00", b"\xc3", b"\xff", b"HTTP/", b"/../", b"?", b"%", b"; ", b"=",
                                 b"Cookie: ;\r\n", b"Content-Length: 3\r\n", b"\t", b"[]=", b"\xe2\x82"])
        elif k < .9:
            j = rng.randrange(len(b) + 1)
            lo, hi = min(i, j), max(i, j)
            b[hi:hi] = b[lo:hi][:200]
        else:
            del b[i:]
    return bytes(b)


def odd_cl(raw):
    """Content-Length spellings outside the specification's claims (signs, repetition, overflow)"""
    import re as _re
    head = raw.split(b"\r\n\r\n")[0]
    ms = _re.findall(rb"(?im)^content-length[^:\r\n]*:([^\r\n]*)", head)
    for v in ms:
        v = v.strip(b" \t")
        if v[:1] in (b"+", b"-") or (len(v) > 6 and not v.isdigit()):
            return True
    return len(ms) > 1


def plain_query(raw):
    """no percent escapes that do not spell UTF-8, and no query the claims leave open"""
    return True


# headers and targets with a meaning elsewhere that this server gives none
MAGIC = [[("Expect", "100-continue")], [("Expect", "200-ok")], [("Transfer-Encoding", "chunked")], [("Transfer-Encoding", "identity")], [("Transfer-Encoding", "gzip, chunked")], [("TE", "trailers")], [("Trailer", "X")],
         [("Connection", "keep-alive")], [("Connection", "close")], [("Connection", "upgrade"), ("Upgrade", "websocket"), ("Sec-WebSocket-Key", "x3JJHMbDL1EzLkh9GBhXDw=="), ("Sec-WebSocket-Version", "13")],
         [("Connection", "Upgrade, HTTP2-Settings"), ("Upgrade", "h2c"), ("HTTP2-Settings", "AAMAAABkAAQCAAAAAAIAAAAA")], [("Keep-Alive", "timeout=5, max=100")], [("Connection", "keep-alive, X-A")], [("Proxy-Connection", "keep-alive")],
         [("Range", "bytes=0-1")], [("Range", "bytes=5-")], [("Range", "bytes=99999-")], [("If-Range", "x"), ("Range", "bytes=0-0")], [("If-None-Match", "*")], [("If-Match", "\"x\"")], [("If-Modified-Since", "Fri, 31 Dec 9999 23:59:59 GMT")],
         [("If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT")], [("Accept-Encoding", "gzip, deflate, br")], [("Accept-Encoding", "identity;q=0")], [("Accept", "application/json")], [("Accept", "text/nothing")], [("Accept-Charset", "latin1")],
         [("X-HTTP-Method-Override", "DELETE")], [("X-Method-Override", "PUT")], [("X-Forwarded-For", "1.2.3.4")], [("X-Forwarded-Host", "evil")], [("X-Original-URL", "/a/b")], [("X-Rewrite-URL", "/a/b")], [("Forwarded", "host=x")],
         [("Authorization", "Basic dXNlcjpwYXNz")], [("Authorization", "Bearer x")], [("Origin", "http://evil")], [("Access-Control-Request-Method", "PUT"), ("Origin", "http://x")], [("Content-Type", "application/x-www-form-urlencoded")],
         [("Content-Type", "application/json")], [("Content-Type", "multipart/form-data; boundary=x")], [("Content-Encoding", "gzip")], [("Content-Range", "bytes 0-1/2")], [("Cache-Control", "no-cache, only-if-cached")], [("Pragma", "no-cache")],
         [("Max-Forwards", "0")], [("Via", "1.0 x")], [("Host", "other")], [("Content-MD5", "Q2hlY2sgSW50ZWdyaXR5IQ==")], [("Prefer", "return=minimal")], [("DNT", "1")], [("User-Agent", "")], [("User-Agent", "sqlmap")], [("Referer", "/../../etc")],
         [("Date", "nonsense")], [("Server", "x")], [("Set-Cookie", "a=b")], [("Location", "/x")], [("Status", "500")], [("X-Accel-Redirect", "/etc/passwd")], [("X-Sendfile", "/etc/passwd")]]
TARGETS = ["*", "http://h/", "http://h/a/b", "https://h:443/x?y=z", "h:80", "//h/a", "/a/b;c=d", "/a%2Fb", "/%2e%2e/x", "/a\\b", "/a/b#frag", "/_method=PUT", "/?_method=DELETE", "/favicon.ico", "/index.html", "/robots.txt", "/.well-known/x",
           "/health", "/metrics", "/static/x.css", "a", "a/b", "?", "?a=b", "/a?b?c", "/~", "/a//b///", "/a/./b/.", "/%", "/%zz", "/%00", "/+", "/a+b", "/nul", "/CON"]


def persistence():
    """what clients say about keeping connections open"""
    for ver in ("1.0", "1.1", "0.9", "2.0"):
        for cn in ("keep-alive", "close", "Keep-Alive", "KEEP-ALIVE", "keep-alive, close", "close, keep-alive", "upgrade", "", ","):
            for ka in (None, "timeout=5, max=1000", "timeout=5", "max=0", "timeout=0", "timeout=-1", "timeout=99999999999999999999999", "timeout=18446744073709551615", "timeout", "=", "=5", "timeout==5", "timeout=5;max=2", "\u00e9=1", "timeout=\u00e9", ",,,", "", "timeout = 5", "max"):
                if ka is None or cn.lower().startswith("keep"):
                    yield request("GET", "/", headers=[("Connection", cn)] + ([("Keep-Alive", ka)] if ka is not None else []), ver=ver)


def c06(c):
    r = c.rng
    app = [route("use", "", 1, [], "next"), route("all", "/", 2), route("all", "/:x", 3, [op("set", "A", "b"), op("send", "x" * 40)]),
           route("get", "/a/b", 4, [op("sendg", n=3, m=70000)]), route("get", "/none", 5, [], "next")]

    def both(raw, dim, **kw):
        if odd_cl(raw):
            return
        view = ECHO if len(raw) < 3000 else []
        c.add(single(app, raw, half=True, view=view, gens=[[3, 70000]], **kw), dim=dim)
        if ends_right(raw):
            c.add(single(app, raw, half=False, view=view, gens=[[3, 70000]], **kw), dim=dim)
    # cut anywhere
    for s in SAMPLES[:c.n(6, 99)] + SAMPLES[6:]:
        for i in range(len(s) + 1):
            if len(s) < 200 or i % 7 == 0 or i > len(s) - 30:
                both(s[:i], "cut")
    # mutated
    for t in range(c.n(1500, 30000)):
        both(mutate(r, r.choice(SAMPLES)), "mutated")
    # noise
    for t in range(c.n(150, 2000)):
        n = r.choice([0, 1, 2, 3, 10, 100, 600, 3000])
        raw = bytes(r.randrange(256) for _ in range(n))
        both(raw, "noise")
        both(raw + b"\r\n\r\n", "noise")
    for raw in [b"\r\n", b"\r\n\r\n", b"\r\n\r\n\r\n", b"\n\n", b"\r\r", b"\r\n\r", b" \r\n\r\n", b":\r\n\r\n", b"GET\r\n\r\n", b"GET \r\n\r\n", b"GET / \r\n\r\n",
                b"GET / HTTP\r\n\r\n", b"GET / HTTP/\r\n\r\n", b"GET / HTTP/1\r\nHost: a\r\n\r\n", b"GET / HTTP/1.1 \r\nHost: a\r\n\r\n", b"\x00\r\n\r\n", b"\xff\xfe\r\n\r\n",
                b"GET / HTTP/1.1\r\n:\r\n\r\n", b"GET / HTTP/1.1\r\n:v\r\n\r\n", b"GET / HTTP/1.1\r\nA\r\n\r\n", b"GET / HTTP/1.1\r\nHost:\r\n\r\n", b"GET / HTTP/1.1\r\n \r\n\r\n",
                b"GET / HTTP/1.1\r\nHost: a\r\nCookie: \r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nCookie: =\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nCookie: ; ; \r\n\r\n",
                b"GET /? HTTP/1.1\r\nHost: a\r\n\r\n", b"GET ? HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /?%C3%A9 HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /?% HTTP/1.1\r\nHost: a\r\n\r\n",
                b"GET /?%4 HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /?a[=1 HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /?a]=1 HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /?]a[=1 HTTP/1.1\r\nHost: a\r\n\r\n",
                b"GET /\xc3\xa9 HTTP/1.1\r\nHost: a\r\n\r\n", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"OPTIONS * HTTP/1.1\r\nHost: a\r\n\r\n", b"GET http://a/b HTTP/1.1\r\nHost: a\r\n\r\n",
                b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: \r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: x\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: -1\r\n\r\n",
                b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 1e3\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 5 5\r\n\r\n",
                b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 99999999999999999999\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 18446744073709551615\r\n\r\nabc", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 18446744073709551616\r\n\r\nabc"]:
        for half in (True, False):
            if half or ends_right(raw):
                c.add(single(app, raw, half=half, view=ECHO), dim="corner")
    # sizes: long targets, long headers, many headers, long lines that never end
    for n in EDGES + [16384, 65535, 65536, 65537] + ([300000] if c.thorough else [100000]):
        both(request("GET", "/" + "a" * n), "long target")
        both(request("GET", "/", headers=[("X", "v" * n)]), "long header")
        both(b"A" * n, "no end")
        both(b"GET / HTTP/1.1\r\nX: " + b"v" * n, "no end")
        if n <= 8193:
            both(pad_request("GET", "/", n), "head size")
            both(pad_request("POST", "/", n, b"body"), "head size")
        if n <= 1026:
            both(request("GET", "/", headers=[("X%d" % i, "v") for i in range(n)]), "many headers")
            both(request("GET", "/" + "a/" * n), "many segments")
            both(request("GET", "/?" + "&".join("k%d=v" % i for i in range(n))), "many pairs")
            both(request("GET", "/", headers=[("Cookie", "; ".join("k%d=v" % i for i in range(n)))]), "many cookies")
    # more bytes than the request has
    for s in SAMPLES:
        for extra in (b"x", b"GET / HTTP/1.1\r\nHost: h\r\n\r\n", b"\r\n", bytes(700), b"z" * 5000):
            both(s + extra, "surplus")
    # every method, answered or not
    for m in METHODS + ["get", "G", "GETT", "", "X" * 300, "ALL", "NONE", "USE", "*"]:
        if m:
            both(request(m, "/"), "method")
            both(request(m, "/none"), "method")
    for hs in MAGIC:
        for m, b in (("GET", b""), ("POST", b"0123456789"), ("HEAD", b""), ("PUT", b"5\r\nhello\r\n0\r\n\r\n")):
            for ver in ("1.1", "1.0"):
                both(request(m, r.choice(["/", "/x", "/a/b", "/none"]), headers=hs, body=b, ver=ver), "known headers")
        both(request("GET", "/", headers=hs + r.choice(MAGIC) + r.choice(MAGIC)), "known headers")
        both(request("POST", "/", headers=hs) + b"0\r\n\r\n", "known headers")
    for raw in persistence():
        both(raw, "keep alive")
    for tg in TARGETS:
        for m in ("GET", "OPTIONS", "CONNECT", "POST"):
            both(request(m, tg), "targets")
    # clients that are slow: head and body byte by byte, pauses
    for s in SAMPLES:
        c.add(single(app, s, half=True, view=ECHO, reads=[1]), dim="slow")
        if ends_right(s):
            c.add(single(app, s, view=ECHO, reads=[1]), dim="slow")
            c.add(single(app, s, view=ECHO, writes=[1]), dim="slow")
        c.add(single(app, s, view=ECHO, steps=sends([max(1, len(s) // 3)] * 4, half=True)), dim="slow")
    long_pause(c)
    few_descriptors(c, [(request("GET", "/a/1"), False), (request("GET", "/none"), False), (request("GET", "/nothing"), False), (request("BREW", "/"), False),
                        (b"no\r\n\r\n", False), (b"GET / HT", True), (b"", True), (request("POST", "/p", body=b"x" * 3000), False),
                        (request("POST", "/p", body=b"x" * 3000)[:-5], True), (request("GET", "/mid"), False), (request("GET", "/file"), False)])


def c07(c):
    r = c.rng
    files = [dict(name=bts("f.txt"), k="g", b=[], s=9, n=5000)]
    apps = [[route("use", "", 1, [op("set", "X-A", "1")], "next"), route("all", "/:x", 2), route("all", "/a/b", 3, [op("sendg", n=3, m=3000)]),
             route("all", "/", 4, [op("cookie", "k", "v"), op("send", "root")]), route("get", "/f/f", 5, [op("file", "f.txt")])]]
    app = apps[0]
    gens = [[3, 3000], [9, 5000], [5, 60000], [3, 200000]]
    samples = SAMPLES + [request("GET", "/f/f"), request("GET", "/a/b"), request("POST", "/big", body=b"b" * 700),
                         pad_request("POST", "/x", 512, b"abc"), pad_request("POST", "/x", 511, b"abc"), pad_request("POST", "/x", 509, b"abc" * 300),
                         pad_request("POST", "/x", 1024, b"q" * 512), request("GET", "/x", headers=[("Cookie", "a=b; c=d"), ("E", "\xc3\xa9")]),
                         request("GET", "/x?k=%C3%A9&k2[]=1"), b"GET /x HTTP/1.1\r\nHost: h\r\nX: \xc3\xa9\xe2\x82\xac\r\n\r\n"]
    for s in samples:
        half = not ends_right(s)
        base = single(app, s, half=half, view=ECHO, files=files, gens=gens)

        def tw(dim, steps=None, **kw):
            k = dict(kw)
            if steps is not None:
                k["steps"] = steps
            c.add(single(app, s, half=half, view=ECHO, files=files, gens=gens, **k), ref=base, twins=[(base, [(1, 1)])], dim=dim)
        step = 1 if len(s) < 150 or c.thorough else max(1, len(s) // 60)
        pos = sorted(set(list(range(1, len(s), step)) + [i for i in (510, 511, 512, 513, 514, 1023, 1024, 1025) if i < len(s)]
                         + [max(1, s.find(b"\r\n\r\n") + d) for d in range(-2, 7)]))
        for i in pos:
            if i < len(s):
                tw("read split", reads=[i, 0])
        for i in r.sample(pos, min(len(pos), c.n(6, 60))):
            if i < len(s):
                tw("packet split", steps=sends([i, len(s)], half))
        for k in (1, 2, 3, 4, 5, 7, 13, 64, 255, 256, 511, 512, 513):
            tw("read size", reads=[k])
        for t in range(c.n(10, 150)):
            tw("random reads", reads=[r.choice([1, 1, 2, 3, 5, 8, 20, 100, 400]) for _ in range(r.choice([2, 4, 10, 40]))] + [r.choice([0, 1, 3])])
        cuts = sorted(r.sample(range(1, len(s)), min(4, len(s) - 1))) if len(s) > 2 else []
        parts = [b - a for a, b in zip([0] + cuts, cuts + [len(s)])]
        tw("packets", steps=sends(parts, half))
        for w in ([1], [2], [3], [7], [64], [1, 0], [0, 1], [5, 1, 0], [200], [1023], [1024], [1, 1, 1, 1, 500]):
            tw("write size", writes=w)
        for t in range(c.n(4, 60)):
            tw("both", reads=[r.choice([1, 2, 5, 50]) for _ in range(6)] + [0], writes=[r.choice([1, 2, 9, 100, 0]) for _ in range(8)])
        for k in (1, 3, 500, 1023, 1024, 1025, 4000):
            tw("file read size", fchunk=k) if s.startswith(b"GET /f/f") else None
    # long heads
    lv = ["body", "vars"]
    for n in (1500, 2047, 2048, 2049, 3000, 4095, 4096, 4100, 5000, 8192, 8200) + ((16384, 20000, 65536, 100000) if c.thorough else (20000,)):
        for kind in range(4):
            if kind == 0:
                s = pad_request("POST", "/x", n, b"abc" * 50)
            elif kind == 1:
                s = pad_request("GET", "/x", n)
            elif kind == 2:
                s = request("POST", "/x?" + "k=%41&" * (n // 6), body=b"z")
            else:
                s = request("GET", "/x", headers=[("N%d" % i, "v" * 20) for i in range(n // 26)])
            end = s.find(b"\r\n\r\n")
            base = single(app, s, view=lv, files=files, gens=gens)
            plans = [dict(reads=[k]) for k in (13, 100, 300, 511, 512, 513)]
            plans += [dict(reads=[i, 0]) for i in (1, 511, 512, 1024, end - 600, end - 1, end, end + 1, end + 2, end + 3, end + 4, len(s) - 1) if 0 < i < len(s)]
            plans += [dict(reads=[r.choice([1, 3, 17, 200, 511, 512]) for _ in range(r.choice([3, 9]))] + [r.choice([0, 50])]) for _ in range(c.n(4, 30))]
            plans += [dict(steps=sends([i, len(s)])) for i in (1, end - 1, end + 2, end + 4) if i < len(s)]
            for kw in r.sample(plans, min(len(plans), c.n(7, 99) if n < 15000 else c.n(4, 40))):
                c.add(single(app, s, view=lv, files=files, gens=gens, **kw), ref=base, twins=[(base, [(1, 1)])], dim="long head")
    long_pause(c)
    # large bodies in both directions
    for size in (60000, 200000) + ((1000000, 3000000) if c.thorough else (1000000,)):
        g = gens + [[5, size]]
        raw = b"POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n" % size
        base = single(app, raw, tail=[5, size], gens=g, view=["body"])
        for kw in (dict(reads=[1000]), dict(reads=[511, 513, 0]), dict(reads=[4096]), dict(reads=[len(raw), 0]), dict(reads=[len(raw) - 1, 2, 0]), dict(reads=[len(raw) + 1, 1, 0])):
            c.add(single(app, raw, tail=[5, size], gens=g, view=["body"], **kw), ref=base, twins=[(base, [(1, 1)])], dim="large upload")
        big = [route("get", "/", 1, [op("sendg", n=5, m=size)]), route("get", "/f", 2, [op("file", "f.bin")])]
        fs = [dict(name=bts("f.bin"), k="g", b=[], s=5, n=size)]
        for path in ("/", "/f"):
            base = single(big, request("GET", path), gens=g, files=fs)
            for kw in (dict(writes=[1000]), dict(writes=[1, 0]), dict(writes=[65536, 1]) if size < 300000 else dict(writes=[65536, 1, 0]), dict(rcvbuf=2000), dict(fchunk=1000), dict(fchunk=7 if size < 70000 else 777),
                       dict(steps=[dict(do="open", c=1), dict(do="send", c=1), dict(do="readn", c=1, n=10), dict(do="sleep", n=30), dict(do="finish", c=1)])):
                c.add(single(big, request("GET", path), gens=g, files=fs, **kw), ref=base, twins=[(base, [(1, 1)])], dim="large download")


def c08(c):
    r = c.rng
    app = [route("use", "", 1, [], "next"), route("all", "/", 2), route("get", "/nobody", 3, [op("status", n=201), op("set", "X", "y")], "next"),
           route("get", "/empty", 4, [op("send", "")]), route("get", "/:v", 5, [], "stop"), route("post", "/late", 6, [], "next"), route("all", "/late", 7, [op("send", "L")], "next")]
    ref = single(app, request("GET", "/"))

    def t(raw, dim, half=True):
        if odd_cl(raw):
            return
        c.add(single(app, raw, half=half), ref=ref, dim=dim)
    c.add(ref, ref=ref, dim="plain")
    H = b"Host: h\r\n\r\n"
    for b in range(256):
        x = bytes([b])
        t(b"GET / HTTP/1.1\r\nA" + x + b"B: v\r\n" + H, "byte in header name")
        t(b"GET / HTTP/1.1\r\nA: v" + x + b"w\r\n" + H, "byte in header value")
        t(b"GET / HTTP/1.1\r\nA:" + x + b"w\r\n" + H, "byte before header value")
        t(b"GET / HTTP/1.1\r\nA: w" + x + b"\r\n" + H, "byte after header value")
        t(b"GET / HTTP/1.1\r\n" + x + b"A: w\r\n" + H, "byte before header name")
        t(b"GE" + x + b"T / HTTP/1.1\r\n" + H, "byte in method")
        t(b"GET /" + x + b" HTTP/1.1\r\n" + H, "byte in target")
        t(b"GET / HTTP/1" + x + b"1\r\n" + H, "byte in version")
        t(b"GET / HTT" + x + b"P/1.1\r\n" + H, "byte in version")
        t(x + b"GET / HTTP/1.1\r\n" + H, "byte first")
        t(b"GET / HTTP/1.1" + x + b"\r\n" + H, "byte after version")
        if b != 13:
            t(b"GET / HTTP/1.1\r\nHost: h\r\nA: b" + x + b"\r\n\r\n", "byte after last header")
    for u in (b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xc3", b"\xc0\x80", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\x80", b"\xe2\x82", b"\xf0\x9f\x98",
              b"\xef\xbf\xbd", b"\xfe", b"\xdf\xbf", b"\xc2\x80", b"\xc2\xa0"):
        for raw in (b"GET /" + u + b" HTTP/1.1\r\n" + H, b"GET / HTTP/1.1\r\nX: a" + u + b"b\r\n" + H, b"GET / HTTP/1.1\r\nX" + u + b": a\r\n" + H, b"G" + u + b" / HTTP/1.1\r\n" + H, b"GET /?" + u + b" HTTP/1.1\r\n" + H,
                    b"GET / HTTP/1.1\r\nX: " + b"p" * 500 + u + b"b\r\n" + H):
            t(raw, "utf-8")
    for line in ["GET", "GET /", "GET / HTTP/1.1 x", "GET  / HTTP/1.1", "GET /  HTTP/1.1", " GET / HTTP/1.1", "GET / HTTP/1.1 ", "GET\t/\tHTTP/1.1", "GET / http/1.1", "GET / HTTP1.1", "GET / HTTP", "GET / HTP/1.1",
                 "GET /a b HTTP/1.1", "/ GET HTTP/1.1", "GET / XHTTP/1.1", "GET HTTP/1.1", "HTTP/1.1", "GET / / HTTP/1.1", "GET / HTTP /1.1", "GET / FTP/1.1", "GET / 1.1", "GET / Http/1.1", "GET / HTTPS/1.1"]:
        t(line.encode() + b"\r\n" + H, "request line")
        t(line.encode() + b"\r\n\r\n", "request line")
    for h in ["", "A", "A b", ":", ": v", "A :v", "A\t:v", " A: v", "\tA: v", "A: v\r\n folded", "A: v\r\n\tfolded", "A=v", "A;v", "(A): v", "A,B: v", "A/B: v", "A@: v", "[A]: v", "{A}: v", "\"A\": v", "A\\: v", "A?: v", "A<>: v",
              "!#$%&'*+-.^_`|~: v", "0: 1", "A:", "A: ", "A:\t", "A::", "A: :v", "A:v:w", "A: \t v \t ", "A\n: v", "A: v\nB: w", "A: v\rB: w", "Host2: x"]:
        for tail in (b"\r\nHost: h\r\n\r\n", b"\r\n\r\n"):
            for pre in (b"", b"Host: h\r\n", b"Z: y\r\nHost: h\r\n"):
                if h or tail.startswith(b"\r\nHost"):
                    if not h and pre:
                        continue
                    t(b"GET / HTTP/1.1\r\n" + pre + h.encode() + tail, "header line")
    for ver in ["1.1", "1.0", "2.0", "0.9"]:
        for hh in [b"", b"Host: h\r\n", b"host: h\r\n", b"HOST: h\r\n", b"hOsT:h\r\n", b"Host:\r\n", b"Hos: h\r\n", b"Hostt: h\r\n", b"X-Host: h\r\n", b"A: Host: h\r\n", b"A: b\r\nHost: h\r\n", b"Host: a\r\nHost: b\r\n"]:
            for m in [x.encode() for x in METHODS] + [b"FOO"]:
                t(m + b" / HTTP/" + ver.encode() + b"\r\n" + hh + b"\r\n", "host")
                t(m + b" /nobody HTTP/" + ver.encode() + b"\r\n" + hh + b"\r\n", "host")
    for m in METHODS + ["get", "Get", "gET", "GETT", "GE", "G", "FOO", "POSTS", "OST", "PROPFIND", "LINK", "X", "PATCHH", "HEADER", "OPTION", "TRACER", "CONNECTED", "PUTS", "DELETED", "put", "ALL", "All", "NONE", "None", "USE", "*", "GET,POST", "G-T", "1", "é", "M" * 600]:
        for path in ("/", "/nobody", "/empty", "/x", "/a/b", "/late"):
            t(request(m, path), "method", half=False)
            t(request(m, path, body=b"abc"), "method", half=False)
    # every part of the head drawn at random, none, one or two of them wrong
    goodh = [b"Host: h", b"A: b", b"X-Long: " + b"v" * 60, b"Cookie: a=b; c", b"Accept: */*", b"Connection: close", b"Content-Type: a/b", b"E:", b"U: \xc3\xa9", b"host: again", b"T:\tq\t"]
    badh = [b"A", b"A b: c", b": v", b"A: \x01", b"A: \x7f", b"\xc3\xa9: v", b"A: \xff", b" A: v", b"(: v", b"A\x00: v"]
    for n in range(c.n(900, 12000)):
        flaws = r.choice([0, 0, 1, 1, 2])
        where = r.sample(["m", "t", "v", "h", "host", "line"], flaws)
        m = r.choice(["FOO", "get", "Post", "ALL"]) if "m" in where else r.choice(METHODS)
        tg = r.choice(["/..", "/a/../..", "/../x", "/\xff".encode("latin1")]) if "t" in where else r.choice(["/", "/x", "/a/b", "/nobody", "/?q=1", "/x?a[]=b", "/a/../x", "//", "*", "http://h/", "/" + "y" * 50])
        v = r.choice(["HTP/1.1", "http/1.1", "HTTP1.1", "1.1", "HTTP", ""]) if "v" in where else r.choice(["HTTP/1.1"] * 3 + ["HTTP/1.0", "HTTP/0.9", "HTTP/2.0"])
        hs = [] if "host" in where else [b"Host: h"]
        hs += [r.choice(goodh[1:9] + goodh[10:]) for _ in range(r.choice([0, 1, 2]))]
        if "h" in where:
            hs.append(r.choice(badh))
        r.shuffle(hs)
        body = r.choice([b"", b"", b"xyz"])
        if body:
            hs.append(b"Content-Length: %d" % len(body))
        first = b" ".join([m.encode(), tg if isinstance(tg, bytes) else tg.encode(), v.encode()])
        if "line" in where:
            first = r.choice([first + b" x", first.replace(b" ", b"  ", 1), b" " + first, first.replace(b" ", b"\t"), first.split(b" ")[0]])
        t(first + b"\r\n" + b"".join(h + b"\r\n" for h in hs) + b"\r\n" + body, "combinations")
    # who answers: nobody set a body, somebody did, a later one did
    for n in range(c.n(300, 4000)):
        routes = []
        for i in range(r.choice([0, 1, 2, 3, 4])):
            prog = r.choice([[], [], [op("send", "x")], [op("send", "")], [op("status", n=r.choice([200, 201, 404, 500]))], [op("set", "A", "b")], [op("redirect", "/z")], [op("cookie", "a", "b")],
                             [op("defhdr")], [op("type", "a/b")], [op("json", [1, 2])], [op("sendg", n=1, m=0)], [op("file", "none")], [op("file", "f")]])
            k = r.choice(["get", "all", "use"])
            routes.append(route(k, "" if k == "use" else r.choice(["/a", "/:x", "/b"]), i + 1, prog, r.choice(["next", "next", "stop"])))
        c.add(single(routes, request("GET", r.choice(["/a", "/a", "/b", "/c/d"])), files=[dict(name=bts("f"), k="b", b=[], s=0, n=0)]), ref=ref, dim="who answers")
    for hs in MAGIC:
        for m in ("GET", "POST", "HEAD", "OPTIONS", "FOO"):
            t(request(m, r.choice(["/", "/nobody", "/x", "/late"]), headers=hs), "known headers", half=False)
    for raw in persistence():
        t(raw, "keep alive", half=False)
    for tg in TARGETS:
        for m in ("GET", "OPTIONS", "CONNECT", "FOO"):
            t(request(m, tg), "targets", half=False)
    for n in (9000, 33000, 66000) + ((130000, 1100000) if c.thorough else ()):
        for raw in (request("GET", "/", headers=[("X", "p" * n)]), request("GET", "/?q=" + "p" * n), request("GET", "/" + "p" * n), request("FOO", "/", headers=[("X", "p" * n)]), request("GET", "/", headers=[("X", "p" * n)], host=False),
                    request("GET", "/", headers=[("X", "p" * n), ("B d", "")])):
            t(raw, "large", half=False)
    for n in range(c.n(600, 15000)):
        raw = mutate(r, r.choice(SAMPLES[:6] + [request("GET", "/", headers=[("A", "b"), ("C", "d e")])]))
        t(raw, "mutated")


def c09(c):
    r = c.rng
    app = [route("use", "", 1, [], "next"), route("all", "/", 2), route("all", "/x", 3)]
    V = ["body"]
    ref = single(app, request("POST", "/", cl=0), view=V)

    def t(raw, dim, half=False, **kw):
        c.add(single(app, raw, half=half, view=V, **kw), ref=ref, dim=dim)
    c.add(ref, ref=ref, dim="plain")
    sizes = sorted(set(list(range(0, 40)) + EDGES[:22] + list(range(505, 520)) + list(range(1020, 1030))))
    for n in sizes:
        body = bytes((i * 7 + i // 251 + 13) % 256 for i in range(n))
        t(request("POST", "/", body=body, cl=n), "body size")
        t(request("GET", "/x", body=body, cl=n), "body size", half=True)
        t(request("PUT", "/", body=body + b"EXTRA", cl=n), "surplus")
        t(request("PUT", "/", body=body + b"E" * 600, cl=n), "surplus")
        if n:
            t(request("POST", "/", body=body[:-1], cl=n), "short", half=True)
            t(request("POST", "/", body=b"", cl=n), "short", half=True)
            t(request("POST", "/", body=body[:n // 2], cl=n), "short", half=True)
            t(request("POST", "/", body=body[:-1], cl=n), "short", half=True, reads=[r.choice([1, 7, 512, 100])] + [0])
    # where the head ends relative to the reads
    for h in sorted(set(list(range(60, 80)) + list(range(500, 530)) + list(range(1015, 1035)) + EDGES[15:] + [16384, 65536])):
        for body in (b"", b"a", b"\r\n\r\n", b"abc" * 200, bytes(range(256)) * 5):
            t(pad_request("POST", "/", h, body), "head size")
            if body:
                t(pad_request("POST", "/", h, body + b"MORE", cl=len(body)), "head size, surplus")
                t(pad_request("POST", "/", h, body[:-1], cl=len(body)), "head size, short", half=True)
    # splits around the end of the head and through the body
    body = bytes(range(256)) + b"\r\n\r\n" + b"tail" * 80
    for h in (64 + 20, 300, 511, 512, 513, 1000):
        raw = pad_request("POST", "/", h, body)
        hl = len(raw) - len(body)
        for i in [hl + d for d in range(-5, 6)] + [hl + 256, len(raw) - 1, 512, 1024]:
            if 0 < i < len(raw):
                t(raw, "split", reads=[i, 0])
                t(raw, "split", reads=[i, 1, 0])
                t(raw + b"XYZ", "split, surplus", reads=[i, 0])
                t(raw[:-3], "split, short", half=True, reads=[i, 0])
        for k in (1, 2, 3, 17, 100, 256, 511, 512, 513):
            t(raw, "read size", reads=[k])
            t(raw + b"XYZ" * 300, "read size", reads=[k])
    # any bytes, any spelling of the length, any method
    for n in range(c.n(250, 4000)):
        body = bytes(r.choice([0, 10, 13, 32, 255, 195, 169, 61, 38, r.randrange(256)]) for _ in range(r.choice([1, 2, 5, 30, 300, 1500])))
        name = r.choice(["Content-Length", "content-length", "CONTENT-LENGTH", "cOnTeNt-lEnGtH"])
        val = r.choice(["%d", " %d", "%d ", "\t%d\t", "0%d", "000%d", "  %d  "]) % len(body)
        m = r.choice(METHODS)
        hs = [("A", "b")] * r.choice([0, 1, 3]) + [(name, val)] + [("Z", "y")] * r.choice([0, 1, 2])
        r.shuffle(hs)
        raw = request(m, "/", headers=hs)
        k = r.random()
        kw = dict(reads=[r.choice([1, 2, 3, 10, 100, 512, len(raw), len(raw) + 1]), r.choice([1, 5, 0]), 0]) if r.random() < .6 else {}
        if k < .6:
            t(raw + body, "random", **kw)
        elif k < .8:
            t(raw + body + b"S" * r.choice([1, 10, 1000]), "random surplus", **kw)
        else:
            t(raw + body[:r.randrange(len(body))], "random short", half=True, **kw)
    for hs in MAGIC:
        for m in ("POST", "GET", "PUT"):
            for body in (b"0123456789", b"5\r\nhello\r\n0\r\n\r\n", b"a=b&c=%20d", b"{\"a\":1}", b"--x\r\n\r\nq\r\n--x--\r\n"):
                t(request(m, "/", headers=hs, body=body), "known headers")
        t(request("POST", "/", headers=hs, body=b"012345678", cl=10), "known headers, short", half=True)
        t(request("POST", "/", headers=hs), "known headers, no length")
    # no positive length: no body
    for raw in (request("POST", "/"), request("POST", "/", cl=0), request("POST", "/", headers=[("Content-Length", "00")]), request("POST", "/", headers=[("X-Content-Length", "4")]),
                request("GET", "/", headers=[("Content-Type", "a/b")])):
        for b in (b"", b"a", b"abcd" * 200):
            t(raw + b, "no length")
            t(raw + b, "no length", half=True)
    # more than can follow, also more than can be counted
    for v in ["1" + "0" * k for k in (7, 9, 12, 18, 19, 20, 25, 40)] + ["2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551621",
              "36893488147419103232", "340282366920938463463374607431768211456", "9" * 30, "0" * 30 + "18446744073709551616"]:
        for body in (b"", b"x", b"hello", b"y" * 700):
            for kw in ({}, dict(reads=[r.choice([1, 3, 40]), 7, 0])):
                t(request("POST", "/", headers=[("Content-Length", v)]) + body, "huge length", half=True, **kw)
    # many leading zeros
    for k in (10, 18, 19, 20, 21, 40, 300):
        for n in (0, 1, 5):
            t(request("POST", "/", headers=[("Content-Length", "0" * k + str(n))]) + b"hello"[:n], "leading zeros")
            t(request("POST", "/", headers=[("Content-Length", "0" * k + str(n))]) + b"hellothere", "leading zeros")
    # packets and pauses
    for parts in ([10, 50, 7, 400, 10000], [70, 1, 1, 1, 10000], [200, 10000], [1] * 30 + [10000]):
        raw = request("POST", "/", body=bytes(range(256)) * 3)
        t(raw, "packets", steps=sends(parts))
        t(raw[:-5], "packets, short", half=True, steps=sends(parts, half=True))
    # large
    for size in (4096, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 1000003) + ((4000000, 16777217, 70000000) if c.thorough else (3000000, 17000000)):
        raw = b"POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n" % size
        t(raw, "large", tail=[size % 251, size], gens=[[size % 251, size]])
        t(raw, "large", tail=[size % 251, size], gens=[[size % 251, size]], reads=[len(raw) + 3, 511, 0])
        t(raw, "large, short", half=True, tail=[size % 251, size - 1], gens=[[size % 251, size]])


# ------------------------------------------------------------------ request views: C10 .. C13
TOKEN = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def c10(c):
    r = c.rng
    app = [route("use", "", 1, [], "next"), route("all", "/", 2)]
    V = ["hdr", "raw"]
    ref = single(app, request("GET", "/"), view=V)

    def t(headers, dim, ver="1.1", host=True, **kw):
        raw = b"GET / HTTP/" + ver.encode() + b"\r\n" + (b"Host: h\r\n" if host else b"") + b"".join(headers) + b"\r\n"
        c.add(single(app, raw, view=V, **kw), ref=ref, dim=dim)
    c.add(ref, ref=ref, dim="plain")
    names = ["Accept", "Host", "X", "x", "X-Y", "x-y", "X-y", "User-Agent", "Set-Cookie", "Cookie2", "A.B", "a_b", "~", "0", "Connection", "CONNECTION", "Referer", "Accept-Encoding", "Date", "Content-Type", "If-None-Match", "etag", "ETag"]
    vals = ["", "a", "b", "a, b", "a;q=1", "x: y", ":", ",", "\"q\"", "é", "日本", "a  b", "a\tb", "=", "%41", "  ", "v" * 300, "0", "[]", "http://a/b?c=d", "(c) {d} <e>"]
    pads = ["", " ", "  ", "\t", " \t ", "\t\t"]
    for n in range(c.n(1500, 20000)):
        k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])
        pool = r.sample(names, r.choice([1, 2, 3, 5])) + ["".join(r.choice(TOKEN) for _ in range(r.choice([1, 3, 10])))]
        hs = []
        for _ in range(k):
            nm = r.choice(pool)
            if r.random() < .4:
                nm = "".join(ch.upper() if r.random() < .5 else ch.lower() for ch in nm)
            hs.append(("%s:%s%s%s\r\n" % (nm, r.choice(pads), r.choice(vals).strip(" \t"), r.choice(pads))).encode())
        t(hs, "random")
    for ch in TOKEN:
        t([("%s: v\r\n" % ch).encode()], "name bytes")
        t([("A%sz: v\r\n" % ch).encode(), ("a%sZ:w\r\n" % ch).encode()], "name bytes")
    for b in list(range(33, 127)) + [9, 32]:
        t([b"A: " + bytes([b]) + b"\r\n"], "value bytes")
        t([b"A: x" + bytes([b]) + b"y\r\n", b"a:" + bytes([b]) + b"\r\n"], "value bytes")
    for n in (2, 3, 4, 5, 10, 17, 50, 100, 257):
        t([b"X: v%d\r\n" % i for i in range(n)], "repeated")
        t([(b"X: v%d\r\n" if i % 2 else b"x: v%d\r\n") % i for i in range(n)], "repeated, mixed case")
        t([b"X%d: v%d\r\n" % (i, i) for i in range(n)], "many")
        t([b"X%d: v%d\r\n" % (i % 3, i) for i in range(n)], "interleaved")
        t([b"X:\r\n" for i in range(n)], "repeated empty")
        t([b"X: same\r\n" for i in range(n)], "repeated same")
    # only spaces and tabs surround a value
    for u in ("\xa0", "\x85", "\u1680", "\u2003", "\u2028", "\u202f", "\u205f", "\u3000", "\ufeff", "\u200b", "\u0301"):
        for v in (u, u + "v", "v" + u, u + " v " + u, " " + u, u + u, "v" + u + "w", "\t" + u + "\t"):
            t([("A: %s\r\n" % v).encode(), b"B: 1\r\n"], "unicode spaces")
            t([("A:%s\r\n" % v).encode(), b"a: " + v.encode() + b" \r\n"], "unicode spaces")
    # headers that other software treats in its own way
    known = ["Cookie", "Set-Cookie", "Host", "Accept", "Content-Type", "Connection", "Keep-Alive", "User-Agent", "Referer", "Date", "Authorization", "Location", "ETag", "Age", "Expires", "If-Modified-Since", "Range", "From",
             "Max-Forwards", "Retry-After", "Server", "Via", "X-Forwarded-For", "Expect", "Upgrade", "TE", "Origin", "Transfer-Encoding", "Content-Encoding", "Pragma", "Cache-Control", "Accept-Language", "WWW-Authenticate", "Link"]
    for k in known:
        for vs in (["a", "b"], ["a=1", "b=2", "c=3"], ["", "x"], ["x", ""], ["same", "same"], ["a, b", "c"], ["\"q, r\"", "s"], ["Mon, 01 Jan 2024 00:00:00 GMT"] * 2):
            t([("%s: %s\r\n" % (nm, v)).encode() for nm, v in zip([k, k.lower(), k.upper(), k.swapcase()], vs)], "known names repeated")
            t([("%s: %s\r\nOther: %s\r\n" % (k, v, v)).encode() for v in vs], "known names repeated")
    for n in EDGES[4:]:
        t([b"X: " + b"v" * n + b"\r\n", b"Y: z\r\n"], "long value")
        if n <= 2049:
            t([b"N" * max(1, n) + b": v\r\n", b"Y: z\r\n"], "long name")
            t([b"Y: z\r\n", b"X: " + b" " * n + b"v" + b"\t" * 3 + b"\r\n"], "long padding")
    for n in (70000,) if not c.thorough else (70000, 140000, 1100000):
        t([b"X: " + b"v" * n + b"\r\n", b"Y: z\r\n"], "long value")
        t([b"X%d: %d\r\n" % (i, i) for i in range(n // 60)], "many lines")
    for k in (1, 2, 3, 7, 50):
        t([b"X: abc\r\n", b"x:  def \r\n", b"Yy: \t1\r\n"], "split reads", reads=[k])
    t([], "no host", ver="1.0", host=False)
    t([b"A: b\r\n"], "no host", ver="1.0", host=False)


QNAMES = ["a", "b", "k", "key", "a.b", "A", "0", "é", "日", "a b", "x y", "a+b", "a=b"]


def pct(rng, s, always="", prob=.3):
    out = ""
    for ch in s:
        if ch in always or rng.random() < prob or ord(ch) < 33 or ch in "&=%#?[]" or ord(ch) == 127:
            for b in ch.encode():
                out += ("%%%02X" if rng.random() < .5 else "%%%02x") % b
        else:
            out += ch
    return out


def escapes_spell_utf8(q):
    """the claims are about escapes that spell UTF-8; others have no faithful String"""
    import re as _re
    raw = q.encode() if isinstance(q, str) else q
    dec = _re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), raw)
    try:
        for part in _re.split(rb"[&=]", raw):
            d = _re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), part)
            d.decode()
        return True
    except UnicodeDecodeError:
        return False


def c11(c):
    import itertools
    r = c.rng
    app = [route("use", "", 1, [], "next"), route("get", "/a/:x", 2, [], "next"), route("get", "/:p/b", 3, [], "next"), route("get", "/", 4), route("get", "/q", 5), route("all", "/:z", 6)]
    V = ["q", "vars"]

    def t(q, dim, path="/q", **kw):
        if not escapes_spell_utf8(q):
            return
        base = refs.setdefault(path, single(app, request("GET", path), view=V))
        raw = request("GET", path.encode() + b"?" + (q.encode() if isinstance(q, str) else q))
        c.add(single(app, raw, view=V, **kw), ref=base, dim=dim)
    refs = {}
    for d in range(0, c.n(5, 7)):
        for combo in itertools.product("a=&%4", repeat=d):
            t("".join(combo), "exhaustive small")
    for d in range(1, c.n(4, 5)):
        for combo in itertools.product(["a", "=", "&", "%41", "%C3%A9", "?", "b"], repeat=d):
            t("".join(combo), "exhaustive tokens")
    for b in range(33, 127):
        t("k%sv=w%sx" % (chr(b), chr(b)), "bytes")
        if b < 128:
            t("k=%%%02x" % b, "escapes")
            t("%%%02X=v" % b, "escapes")
    for b in range(0, 33):
        t("k=a%%%02xb&%%%02Xz=1" % (b, b), "escapes")
    for u in ("é", "ß", "日本語", "😀", "\u07ff", "\u0800", "\uffff", "\U0010ffff", "\x7f", "\x80"):
        e = "".join("%%%02X" % x for x in u.encode())
        for q in ("k=%s" % e, "%s=v" % e, "k=a%sb" % e, "k=%s%s" % (e, e), "k=%s&j=%s" % (e.lower(), u), "k=%s%%zz" % e, "%s" % e, "k=%s%%4" % e):
            t(q, "utf-8")
    for q in ("%", "%%", "%4", "%4=%4", "a=%", "a=%%41", "a=%4%41", "a=%zz", "a=%4z", "a=%z4", "%41%", "a=%%%", "%=%", "&%&", "a=%25", "a=%2541", "a=%2B+", "a=+", "+=+", "a=%26b", "a%3Db=c", "a=%3D", "a=b%26c=d", "%3D=1",
              "a=%g0", "a=%0g", "a=%-1", "a=%+1", "a=% 1".replace(" ", "\t") , "a=%c3%", "=", "==", "=a", "==a", "&", "&&", "a", "a&a", "a=1&a=2", "a=1&a", "a&a=1", "a=1&b=2&a=3", "a==", "a==b", "a=b=c", "?", "a?b=c", "a=b?c", "?a=b", "a=/../..", "../..=1",
              "a[]=1", "a[b]=2", "a#b=c", "a=b#c", ";a=b", "a=b;c=d", "&a=b&", "&&a=b&&c", "=x&a=b", "a=b&=x&c=d", "a=b&&c=d"):
        t(q, "corner")
        for path in ("/a/v", "/v/b", "/a/b", "/", "/zz", "/a/b/"):
            t(q, "corner", path=path)
    # every pair of characters around the hexadecimal digits
    near = "/019:@AFGZ`afgz+-.~\xe9\u0661\uff11"
    for x in near:
        for y in near:
            t("k=a%%%s%sb&%%%s%s=1" % (x, y, x, y), "near hex")
    for n in range(c.n(1200, 15000)):
        pairs = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            nm = pct(r, r.choice(QNAMES), prob=.2)
            k = r.random()
            v = pct(r, r.choice(["", "1", "v", "a b", "é", "x=y", "日", "100%", "a&b", "/../", "?"]), always=" ", prob=.2)
            pairs.append(nm if k < .12 else (nm + "=") if k < .2 else ("=" + v) if k < .27 else "" if k < .3 else nm + "=" + v)
        t("&".join(pairs), "random", path=r.choice(["/q", "/q", "/a/v", "/v/b", "/", "/a/b"]))
    for n in (10, 33, 64, 65, 100, 256, 257, 600, 1100, 2100):
        t("&".join("k%d=v%d" % (i, i) for i in range(n)), "many pairs")
        t("&".join("k=%d" % i for i in range(n)), "many same")
        t("k=" + "v" * n, "long")
        t("n" * n + "=v", "long")
        t("k=" + "%41" * n, "long")
    for n in (4096, 8192, 65536 // 4):
        t("k=" + "v" * n + "&z=1", "long")


def c12(c):
    import itertools
    r = c.rng
    app = [route("all", "/q", 1)]
    V = ["xq"]
    ref = single(app, request("GET", "/q"), view=V)

    def bracket_ok(name):
        # the forms the claims speak about: k, k[], k[f] with k and f free of brackets and k not empty
        import re as _re
        if "[" in name or "]" in name:
            return bool(_re.fullmatch(r"[^\[\]%]+\[[^\[\]%]*\]", name))
        return True

    def t(q, dim, **kw):
        for part in q.split("&"):
            if "=" in part:
                if not bracket_ok(part.split("=", 1)[0]):
                    return
            elif "[" in part or "]" in part:
                return
        if not escapes_spell_utf8(q):
            return
        c.add(single(app, request("GET", b"/q?" + q.encode()), view=V, **kw), ref=ref, dim=dim)
    toks = ["a=1", "a=2", "a[]=3", "a[]=4", "a[x]=5", "a[x]=6", "a[y]=7", "b=8", "b[]=9", "a", "=z", ""]
    for d in range(1, c.n(4, 5)):
        for combo in itertools.product(toks, repeat=d):
            t("&".join(combo), "exhaustive tokens")
    for d in range(1, c.n(5, 7)):
        for combo in itertools.product("a[]=&", repeat=d):
            t("".join(combo), "exhaustive small")
    keys = ["a", "b", "key", "é", "a.b", "0", "A", "k-1"]
    fields = ["x", "y", "0", "a", "é", "x.y", "X"]
    for n in range(c.n(1500, 20000)):
        ks = r.sample(keys, r.choice([1, 2, 3]))
        parts = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 6, 8])):
            k = r.choice(ks)
            v = pct(r, r.choice(["", "1", "2", "v", "a b", "é", "[]", "a[b]", "x=y", "%"]), always=" ", prob=.15)
            q = r.random()
            if q < .3:
                parts.append("%s=%s" % (pct(r, k, prob=.1), v))
            elif q < .6:
                parts.append("%s[]=%s" % (k, v))
            elif q < .9:
                parts.append("%s[%s]=%s" % (k, r.choice(fields), v))
            else:
                parts.append(r.choice([k, "", "=%s" % v]))
        t("&".join(parts), "random")
    for x in "/09:@AFG`afg":
        for y in "/09:@AFG`afg":
            t("k=a%%%s%sb&l[]=%%%s%s&l[]=x%%%s%s&m[f]=%%%s%s" % ((x, y) * 4), "near hex")
    for b in range(33, 127):
        x = chr(b)
        if x not in "&=[]%#":
            t("k%s[]=1&k%s[]=2&j[%s]=3&j[f%s]=4&%sz=5&k=w%sx" % ((x,) * 6), "bytes")
    for n in (10, 33, 64, 65, 130, 257, 600, 1100):
        t("&".join("a[]=%d" % i for i in range(n)), "many")
        t("&".join("a[f%d]=%d" % (i, i) for i in range(n)), "many")
        t("&".join("a[f%d]=%d" % (i % 3, i) for i in range(n)), "many")
        t("&".join("k%d[]=%d" % (i % 5, i) for i in range(n)), "many")
        t("&".join("k%d[]=%d" % (i % 5, i) for i in range(n)) + "&k1=s&k2[x]=1", "many")


def c13(c):
    r = c.rng
    app = [route("use", "", 1, [], "next"), route("all", "/", 2)]
    V = ["ck"]
    ref = single(app, request("GET", "/"), view=V)

    def t(ck, dim, others=(), **kw):
        ck = ck if isinstance(ck, bytes) else ck.encode()
        hs = list(others)
        hs.insert(kw.pop("at", len(hs)), (kw.pop("name", "Cookie"), ck))
        c.add(single(app, request("GET", "/", headers=hs), view=V, **kw), ref=ref, dim=dim)
    c.add(ref, ref=ref, dim="plain")
    good = ["a=1", "b=2", "a=3", "k=v=w", "k==", "e=", "id=abc-._~", "x=%20y", "a b=c", "z=a b", "long=" + "v" * 200, "A=1", "n=é", "k=a,b", "k=a:b", "p=/q?r", "t=1=2=3=", "q=[1]", "c=(x)", "m=@!#$&'*+^`|~"]
    bad = ["", "a", "=v", "=", " ", "novalue", " =v", "==", "%"]
    for g in good:
        t(g, "one")
        t("a=1; " + g, "two")
        t(g + "; a=1", "two")
        for b in bad:
            t("%s; %s" % (b, g), "bad first")
            t("%s; %s" % (g, b), "bad last")
            t("x=y; %s; %s" % (b, g), "bad between")
    for b in bad:
        t(b, "only bad")
        t("%s; %s" % (b, b), "only bad")
    for n in range(c.n(1200, 15000)):
        parts = [r.choice(good) if r.random() < .7 else r.choice(bad) for _ in range(r.choice([1, 2, 3, 4, 5, 8, 15]))]
        others = [("A", "b"), ("X-Cookie", "no=1"), ("Set-Cookie", "no=2")][:r.choice([0, 1, 3])]
        t("; ".join(parts).strip(), "random", others=others, at=r.choice([0, len(others)]), name=r.choice(["Cookie", "cookie", "COOKIE", "cOOKIE"]))
    # a value ends at a semicolon, whatever follows it
    semi = ["a=b;c=d", "a=b;", "a=b;;", "a=b;c", ";a=b", ";", ";;", "a=b;Path=/", "a=b;HttpOnly", "a=b;c=d;e=f", "a;b=c", "a=;b", "a=b;\tc=d", "a=b ;c=d", "a=b;Max-Age=0", "a=b;Expires=x", "a=b;Domain=x;Secure"]
    for x in semi:
        t(x, "semicolons")
        for g in r.sample(good, 3) + ["c=9"]:
            t("%s; %s" % (x, g), "semicolons")
            t("%s; %s; z=1" % (g, x), "semicolons")
    for x in ("Path=/", "HttpOnly", "Secure", "Max-Age=0", "Expires=Thu, 01 Jan 1970 00:00:00 GMT", "Domain=x", "$Version=1", "$Path=/", "SameSite=Lax", "path=/", "__Host-a=1", "__Secure-b=2"):
        t("a=1; %s; b=2" % x, "attribute names")
        t("%s; b=2" % x, "attribute names")
    for u in ("\xa0", "\u3000", "\u2028", "\ufeff"):
        t("a=1; k=x%sy; b=2" % u, "unicode")
        t("a=1; k%sk=y; b=2" % u, "unicode")
    for v in ("%41", "%3B", "%3D%20", "%", "%zz", "a+b", "%C3%A9", "%2525", "a%20b", "\\x", "a\tb", "a  b", ",", "a,b; c=d,e", "{\"x\":1}".replace('"', "'"), "a&b=c", "<x>", "0", "-", "null"):
        t("k=%s; l=2" % v, "values")
        t("l=2; %s=v; m=3" % v.replace("=", "-"), "values")
    for n in (3, 10, 17, 33, 64, 65, 129, 257, 500):
        t("; ".join("k%d=v%d" % (i, i) for i in range(n)), "many")
        t("; ".join("k=v%d" % i for i in range(n)), "many same")
        t("; ".join(("k%d=v%d" % (i, i)) if i % 3 else "bad" for i in range(n)), "many, some bad")
    for n in EDGES[4:]:
        t("a=1; k=" + "v" * n + "; b=2", "long")
    for ch in range(33, 127):
        x = chr(ch)
        if x in ";\"":
            continue
        t("a=1; k=x%sy; b=2" % x, "value bytes")
        t("a=1; k%sy=1; b=2" % x, "name bytes")
    c.add(single(app, request("GET", "/", headers=[("Set-Cookie", "a=b")]), view=V), ref=ref, dim="no cookie header")
    c.add(single(app, request("GET", "/", headers=[("Cookie2", "a=b"), ("Cooki", "a=b")]), view=V), ref=ref, dim="no cookie header")
    c.add(single(app, request("GET", "/", ver="1.0", host=False), view=V), ref=ref, dim="no cookie header")


# ------------------------------------------------------------------ responses: C14 .. C17, C20
CODES = [100, 101, 102, 103, 200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407,
         408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508,
         510, 511]
RNAMES = ["X-A", "x-a", "X-B", "Location", "Cache-Control", "cache-control", "ETag", "Vary", "Server", "A", "a", "Content-Language", "X-Powered-By", "Content-Disposition", "content-disposition", "Allow"]
KNOWN = """Accept Accept-Charset Accept-Encoding Accept-Language Accept-Patch Accept-Ranges Access-Control-Allow-Origin Access-Control-Allow-Credentials Access-Control-Allow-Headers Access-Control-Allow-Methods
 Access-Control-Expose-Headers Access-Control-Max-Age Age Allow Alt-Svc Authorization Cache-Control Clear-Site-Data Connection Content-Disposition Content-Encoding Content-Language Content-Location Content-MD5 Content-Range
 Content-Security-Policy Cookie Cross-Origin-Opener-Policy DNT ETag Expect Expires Feature-Policy Forwarded From Host If-Match If-None-Match Keep-Alive Last-Modified Link Location Max-Forwards Origin P3P Permissions-Policy
 Pragma Proxy-Authenticate Proxy-Connection Public-Key-Pins Range Referer Referrer-Policy Refresh Retry-After Server Server-Timing SourceMap Status Strict-Transport-Security TE Timing-Allow-Origin Tk Trailer
 Upgrade Upgrade-Insecure-Requests User-Agent Vary Via WWW-Authenticate Warning X-Accel-Redirect X-Content-Duration X-Content-Type-Options X-Correlation-ID X-DNS-Prefetch-Control X-Forwarded-For X-Forwarded-Proto
 X-Frame-Options X-Powered-By X-Request-ID X-Robots-Tag X-UA-Compatible X-XSS-Protection X-Sendfile""".split()
RVALS = ["", "1", "v", "a b", "a, b", "x; y=z", "é", "日本", "q" * 200, ":", "=", "a:b", "text/plain", "\"q\"", "0", "%0d%0a", "\\r\\n"]
TYPES = ["text/plain", "application/json", "image/png", "a/b; c=d", "x"]
EXTS = """css csv html htm ics js mjs txt abw arc azw bin bz bz2 csh doc docx eot epub gz jar json jsonld mpkg odp ods odt ogx pdf php ppt pptx rar rtf sh swf tar vsd
xhtml xls xlsx xml xul zip 7z aac mid midi mp3 oga opus wav weba bmp gif ico jpg jpeg png svg tif tiff webp avi mpeg ogv ts webm 3gp 3g2 otf ttf woff woff2 mp4 rs md unknown c h py wasm""".split()


def some_op(r, files=("f.txt", "g.bin", "none", "dir", "e.JSON", "noext"), bodies=True, observe=True, dirty=False):
    k = r.random()
    if k < .16 and bodies:
        return r.choice([op("send", r.choice(["", "a", "body", "x" * 100, b"\x00\xff\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n"])), op("sendg", n=r.randrange(250), m=r.choice([0, 1, 100, 512, 1024, 5000]))])
    if k < .24:
        return op("status", n=r.choice(CODES))
    if k < .46:
        return op("set", r.choice(RNAMES), r.choice(RVALS))
    if k < .52:
        return op("type", r.choice(TYPES))
    if k < .55:
        return op("set", r.choice(["Content-Type", "content-type", "CONTENT-TYPE"]), r.choice(TYPES))
    if k < .60:
        return op("redirect", r.choice(["/", "/a?b=c", "http://x/y", "/é"]))
    if k < .68:
        n = r.choice([0, 0, 1, 2, 4, 5, 8, 9, 13, 15, 16, 21, 32, 33, 45, 64, 69, 77])
        return op(r.choice(["cookie", "cookie", "cookie", "craw"]), r.choice(["a", "b", "id", "X-y"]), r.choice(["", "1", "v%20w", "a=b", "z" * 60]), n=n, m=r.choice([0, 1, 3600, 31536000]), c=r.choice(["/", "/p/q", "/a"]) if n & 8 else "example.com")
    if k < .71:
        return op("charset", r.choice(["utf-8", "latin1", "UTF-8"]))
    if k < .74:
        return op("attach")
    if k < .78:
        return op("attachf", r.choice(["a.txt", "b.PDF", "c.tar.gz", "noext", "d.Json", ".hidden", "e."]))
    if k < .80:
        return op("defhdr")
    if k < .82:
        return op("version", n=r.choice([11, 10, 20, 9]))
    if k < .88 and bodies and observe:
        return op("file", r.choice(files))
    if k < .92 and bodies and observe:
        return op("json", [r.randrange(256) for _ in range(r.choice([0, 1, 3, 40]))])
    if k < .98 and observe:
        return op("get", r.choice(RNAMES + ["Content-Type", "Content-Length", "date", "x-zz", "LOCATION"]))
    if observe:
        return op("sent")
    return op("status", n=r.choice(CODES))


FILES = [dict(name=bts("f.txt"), k="b", b=bts("hello file"), s=0, n=0), dict(name=bts("g.bin"), k="g", b=[], s=17, n=3000), dict(name=bts("dir"), k="d", b=[], s=0, n=0),
         dict(name=bts("e.JSON"), k="b", b=[], s=0, n=0), dict(name=bts("noext"), k="b", b=[0, 255, 13, 10], s=0, n=0)]


def prog_gens(progs):
    out = [[17, 3000]]
    for pr in progs:
        for o in pr:
            if o["o"] == "sendg" and [o["n"], o["m"]] not in out:
                out.append([o["n"], o["m"]])
    return out


def chain_of(progs):
    return [route("use" if i % 2 else "get", "" if i % 2 else "/", i + 1, pr, "next") for i, pr in enumerate(progs)]


def prog_scenario(progs, **kw):
    return single(chain_of(progs), kw.pop("raw", request("GET", "/")), files=FILES, gens=prog_gens(progs), **kw)


def framing_items(c, ref):
    r = c.rng
    for code in CODES:
        c.add(prog_scenario([[op("status", n=code), op("send", "b")]]), ref=ref, dim="status")
        c.add(prog_scenario([[op("send", ""), op("status", n=code)]]), ref=ref, dim="status")
        for m in ("GET", "HEAD", "POST"):
            pass
    for code, reason in [(299, "custom"), (599, "Some Reason"), (499, "mixed CASE 1"), (200, "fine"), (999, "x"), (420, "a-b c")]:
        c.add(prog_scenario([[op("statusx", reason, n=code), op("send", "b")]]), ref=ref, dim="status")
    for v in (9, 10, 11, 20):
        for raw in (request("GET", "/"), request("GET", "/", ver="1.0", host=False)):
            c.add(prog_scenario([[op("version", n=v), op("send", "b")]], raw=raw), ref=ref, dim="version")
    for n in list(range(0, 20)) + EDGES + [65535, 65536, 65537, 100000, 1000000]:
        c.add(prog_scenario([[op("sendg", n=n % 250, m=n)]]), ref=ref, dim="body size")
    for n in (99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 99999, 100001, 999999, 1000001):
        c.add(prog_scenario([[op("sendg", n=n % 250, m=n)]]), ref=ref, dim="body size")
    for n in (0, 1, 2, 3, 4, 5, 8, 16, 17, 33, 65, 100, 129, 257):
        c.add(prog_scenario([[op("cookie", "k%d" % i, "v%d" % i, n=i % 2) for i in range(n)] + [op("send", "b")]]), ref=ref, dim="cookies")
        c.add(prog_scenario([[op("cookie", "k", "v%d" % (i % 2)) for i in range(n)] + [op("send", "")]]), ref=ref, dim="cookies")
        c.add(prog_scenario([[op("set", "X-%d" % i, "v%d" % i) for i in range(n)] + [op("send", "b")]]), ref=ref, dim="headers")
        c.add(prog_scenario([[op("send", "b")] + [op("cookie", "k%d" % i, "v") for i in range(n)]]), ref=ref, dim="cookies")
    for n in range(128):
        if n & 2 and n & 64 or n & 8 and n & 16:
            continue
        for o in ([op("cookie", "k", "v", n=n, m=60, c="/p"), op("cookie", "l", "w")], [op("cookie", "l", "w"), op("cookie", "k", "v", n=n, m=60, c="/p")]):
            c.add(prog_scenario([o + [op("send", "b")]]), ref=ref, dim="cookie attributes")
    for i in range(60):
        o = [r.choice([op("hraw", "X-Raw-%d" % j, r.choice(RVALS)), op("craw", "k%d" % j, "v"), op("sraw", n=r.choice(CODES)), op("set", "X-Set-%d" % j, r.choice(RVALS)), op("status", n=r.choice(CODES))]) for j in range(r.choice([1, 2, 4, 7]))]
        c.add(prog_scenario([o + [op("send", "b")]]), ref=ref, dim="public fields")
        c.add(prog_scenario([[op("send", "b")] + o]), ref=ref, dim="public fields")
    for n in EDGES[4:] + [65536]:
        c.add(prog_scenario([[op("set", "X-Long", "v" * n), op("cookie", "c", "d"), op("send", "b")]]), ref=ref, dim="long header")
        c.add(prog_scenario([[op("cookie", "c", "v" * n), op("send", "b")]]), ref=ref, dim="long cookie")
        c.add(prog_scenario([[op("set", "N" * max(n % 3000, 1), "v"), op("send", "b")]]), ref=ref, dim="long name")
    for b in (b"\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx", bytes(range(256)), b"\x00" * 10, "é日本😀".encode(), b"\n", b"Set-Cookie: a=b\r\n"):
        c.add(prog_scenario([[op("send", b)]]), ref=ref, dim="body bytes")
        c.add(prog_scenario([[op("cookie", "a", "b"), op("send", b)]]), ref=ref, dim="body bytes")
    # several bodies, the last one counts, longer and shorter
    for a in (0, 1, 9, 10, 99, 100, 1000):
        for b in (0, 1, 9, 10, 99, 100, 1000):
            c.add(prog_scenario([[op("sendg", n=1, m=a)], [op("sendg", n=2, m=b)]]), ref=ref, dim="replaced body")
            c.add(prog_scenario([[op("sendg", n=1, m=a), op("file", "f.txt")], [op("sendg", n=2, m=b)]]), ref=ref, dim="replaced body")
            c.add(prog_scenario([[op("sendg", n=2, m=b), op("file", "g.bin")]]), ref=ref, dim="replaced body")
            c.add(prog_scenario([[op("sendg", n=2, m=b), op("json", [1] * (a % 50))]]), ref=ref, dim="replaced body")
    # answers the server gives itself
    for raw in SAMPLES + [request("GET", "/none"), request("POST", "/none", body=b"xyz"), b"\r\n\r\n", b"x\r\n\r\n", request("GET", "/", host=False), request("FOO", "/"), request("GET", "/../..")]:
        c.add(single([route("get", "/nothing", 1)], raw, half=not ends_right(raw)), ref=ref, dim="server's own answers")
        c.add(single([route("use", "", 1, [op("set", "X", "y"), op("cookie", "a", "b")], "next")], raw, half=not ends_right(raw)), ref=ref, dim="server's own answers")
    for hs in MAGIC:
        for progs in ([[op("send", "body" * 5)]], [[op("file", "f.txt")]], [[op("json", [1, 2, 3]), op("cookie", "a", "b")]]):
            for m in ("GET",) if len(hs) > 1 else ("GET", "GET"):
                c.add(prog_scenario(progs, raw=request(m, "/", headers=hs, ver=r.choice(["1.1", "1.1", "1.0"]))), ref=ref, dim="known headers")
    for m in METHODS:
        for progs in ([[op("send", "body" * 5)]], [[op("send", "")]], [[op("file", "g.bin")]], [[op("json", [1, 2]), op("cookie", "a", "b")]], [[op("status", n=204), op("send", "x")]], [[op("status", n=304), op("send", "xy")]], [[]]):
            app = [route("all", "/", 1, progs[0], "next")]
            for ver in ("1.1", "1.0"):
                c.add(single(app, request(m, "/", ver=ver), files=FILES, gens=[[17, 3000]]), ref=ref, dim="methods")
    # short writes
    for w in ([1], [3], [1, 0], [10, 1, 0], [100]):
        for progs in ([[op("cookie", "a", "b"), op("set", "X", "y"), op("send", "body" * 30)]], [[op("sendg", n=5, m=5000)]], [[op("file", "g.bin")]]):
            c.add(prog_scenario(progs, writes=w), ref=ref, dim="short writes")


def c14(c):
    r = c.rng
    ref = prog_scenario([[op("send", "b")]])
    c.add(ref, ref=ref, dim="plain")
    framing_items(c, ref)
    for n in range(c.n(900, 15000)):
        progs = [[some_op(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))] for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.random() < .6:
            progs[-1].append(op("send", "end"))
        c.add(prog_scenario(progs), ref=ref, dim="random programs")


def c15(c):
    import itertools
    r = c.rng
    ref = prog_scenario([[op("send", "b")]])
    c.add(ref, ref=ref, dim="plain")
    for n in range(c.n(1600, 25000)):
        progs = [[some_op(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 10]))] for _ in range(r.choice([1, 2, 2, 3, 4, 6]))]
        if r.random() < .6:
            progs[r.randrange(len(progs))].append(op("send", "end"))
        c.add(prog_scenario(progs), ref=ref, dim="random programs")
    jsons = ["null", "true", "false", "0", "-1", "1.5", "18446744073709551615", '""', '"text"', '"\\"q\\"\\n\\u0001"', '"\u00e9\u65e5"', "[]", "{}", "[null]", '{"a":1}', '{"a":{"b":[1,"x",null]},"c":false}',
             "[[[[]]]]", '{"":""}', '"' + "x" * 5000 + '"', "[" + ",".join(["{\"k\":\"v\"}"] * 300) + "]"]
    for j in jsons:
        for pre in ([], [op("send", "before")], [op("type", "a/b")], [op("status", n=500)], [op("charset", "utf-8")]):
            for post in ([], [op("get", "content-type")], [op("type", "c/d")]):
                c.add(prog_scenario([pre + [op("json", b"", j, m=1)] + post]), ref=ref, dim="json")
        c.add(prog_scenario([[op("json", b"", j, m=1)], [op("send", "text")]]), ref=ref, dim="json")
        c.add(prog_scenario([[op("json", b"", j, m=1)], [op("json", b"", r.choice(jsons), m=1)]]), ref=ref, dim="json")
    for pre in ([], [op("send", "before")], [op("type", "a/b"), op("send", "x")], [op("status", n=500)], [op("json", [1])], [op("file", "f.txt")]):
        for post in ([], [op("get", "content-type")], [op("send", "after")], [op("json", [2])]):
            c.add(prog_scenario([pre + [op("json", b"", "k", m=2)] + post]), ref=ref, dim="json")
    base = [op("send", "A"), op("send", "BB"), op("status", n=201), op("status", n=404), op("set", "X-H", "1"), op("set", "x-h", "2"), op("type", "a/b"), op("set", "content-type", "c/d"), op("charset", "utf-8"),
            op("redirect", "/r"), op("attachf", "z.png"), op("attach"), op("json", [7]), op("file", "f.txt"), op("file", "none"), op("cookie", "a", "1"), op("defhdr"), op("set", "Location", "/q"), op("get", "X-H"), op("get", "content-type"), op("sent")]
    again = base + [op("set", "Content-Length", "9"), op("set", "Date", "x"), op("set", "Content-Disposition", "q"), op("cookie", "c", "d"), op("send", "B")]
    for a, b in itertools.product(base, again):
        # the same call again after another one
        if a["o"] not in ("get", "sent") and b["o"] not in ("get", "sent"):
            c.add(prog_scenario([[a, b, a] + ([] if a["o"] in ("send", "json") else [op("send", "end")])]), ref=ref, dim="again")
    for a, b in itertools.product(base, base):
        c.add(prog_scenario([[a, b, op("get", "Content-Type")], [op("send", "end")]]), ref=ref, dim="pairs")
        c.add(prog_scenario([[op("send", "first")], [a], [b, op("get", "X-h")]]), ref=ref, dim="pairs after a body")
    if c.thorough:
        for t in itertools.product(base, repeat=3):
            c.add(prog_scenario([[t[0]], [t[1], t[2]], [op("send", "end")]]), ref=ref, dim="triples")
    for name in ["X-H", "Location", "Content-Type", "ETag", "A-Very-Long-Header-Name-With-Many-Parts"]:
        spell = [name, name.lower(), name.upper(), name.swapcase(), name.title()]
        for a, b in itertools.product(spell, spell):
            c.add(prog_scenario([[op("set", a, "one"), op("get", b), op("set", b, "two"), op("get", a), op("send", "x")]]), ref=ref, dim="name case")
            c.add(prog_scenario([[op("set", a, "one")], [op("set", b, "two")], [op("send", "x")], [op("set", a, "three"), op("get", b)]]), ref=ref, dim="name case")
    # headers that other software treats in its own way
    for name in KNOWN:
        o = op("set", name, r.choice(["v", "0", "no-cache", "a, b", "gzip", ""]))
        for progs in ([[o, op("send", "x")]], [[op("send", "x"), o]], [[o], [op("send", "x")], [op("set", name.swapcase(), "w")]], [[o, op("file", "f.txt")]], [[o, op("json", [1]), op("get", name)]],
                      [[o, op("redirect", "/r"), op("send", "x")]], [[o, op("attachf", "a.png"), op("send", "x"), op("status", n=r.choice(CODES))]], [[o, op("cookie", "a", "b"), op("defhdr"), op("send", "x")]]):
            c.add(prog_scenario(progs), ref=ref, dim="known names")
    for m in METHODS:
        for progs in ([[op("send", "A"), op("status", n=404)], [op("set", "X", "1")], [op("send", "BB"), op("set", "x", "2")]], [[op("redirect", "/r"), op("cookie", "a", "1")], [op("json", [1]), op("cookie", "b", "2")]],
                      [[op("file", "f.txt")], [op("type", "a/b")]], [[op("charset", "utf-8")], [op("send", "")]]):
            app = [route("all", "/", i + 1, pr, "next") for i, pr in enumerate(progs)]
            for ver in ("1.1", "1.0"):
                c.add(single(app, request(m, "/", ver=ver), files=FILES), ref=ref, dim="methods")
    for e in EXTS:
        for nm in ("x." + e, "X." + e.upper()):
            c.add(prog_scenario([[op("attachf", nm), op("send", "x")]]), ref=ref, dim="attachment type")
            c.add(prog_scenario([[op("send", "x"), op("attachf", nm)]]), ref=ref, dim="attachment type")
    for code in CODES:
        c.add(prog_scenario([[op("status", n=code)], [op("send", "x")], [op("redirect", "/y")]]), ref=ref, dim="status then redirect")
        c.add(prog_scenario([[op("redirect", "/y")], [op("status", n=code), op("send", "x")]]), ref=ref, dim="redirect then status")


def c16(c):
    r = c.rng
    dirt = ["\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\r", "\n\r", "\r\nX-Inject: 1", "\nX-Inject: 1", "\rX-Inject: 1", "\r\n\r\n<html>", "\n\n<html>", "\r\n ", "\n\t", "\r\nSet-Cookie: a=b", "\r\nContent-Length: 0\r\n\r\n",
            "\r\n\r\nHTTP/1.1 200 OK\r\n\r\n", "\r" * 20, "\n" * 40, "\r\n" * 70, "\r\nA: b" * 20, "\nx" * 300]

    def makers(d, d2):
        yield lambda v: [op("set", "X-V", v)]
        yield lambda v: [op("set", "X-V" + v, "val")]
        yield lambda v: [op("set", "X-V", "ok"), op("set", "X-V", v)]
        yield lambda v: [op("redirect", "/to" + v)]
        yield lambda v: [op("cookie", "k", "v" + v)]
        yield lambda v: [op("cookie", "k" + v, "v")]
        yield lambda v: [op("cookie", "k", "v" + v, n=1)]
        yield lambda v: [op("type", "a/b" + v)]
        yield lambda v: [op("set", "Content-Type", "a/b" + v)]
        yield lambda v: [op("set", "Location", v + "/x")]
        yield lambda v: [op("cookie", "k", v), op("set", "Y", v), op("redirect", v)]
        yield lambda v: [op("set", "Set-Cookie", "q=" + v)]
        yield lambda v: [op("hraw", "X-Raw", v)]
        yield lambda v: [op("hraw", "X-Raw" + v, "w")]
        yield lambda v: [op("craw", "k", v)]
        yield lambda v: [op("cookie", "k", "v", n=8, c="/p" + v)]
        yield lambda v: [op("cookie", "k", "v", n=17, c=v + "example.com")]
        yield lambda v: [op("attachf", "n" + v + ".txt")]
        yield lambda v: [op("charset", "u" + v)]
    for d in dirt:
        for where in ("%s", "a%s", "%sb", "a%sb", "%s%s"):
            v = where.replace("%s", d)
            clean = "".join(ch for ch in v if ch in string.ascii_letters + string.digits) or "v"
            for mk in makers(d, None):
                for pre in ([], [op("send", "body")]):
                    post = [] if pre else [op("send", "body")]
                    ref = prog_scenario([pre + mk(clean) + post])
                    c.add(prog_scenario([pre + mk(v) + post]), ref=ref, dim="line breaks")
    # line breaks far into long values, and many of them
    for n in (250, 260, 1020, 1030, 4090, 4100, 8190, 8200, 20000, 66000):
        for d in r.sample(dirt, c.n(4, len(dirt))):
            for v in ("a" * n + d + "b", (("a" * 50 + d) * (n // 60))[:45000]):
                clean = v.replace("\r", "").replace("\n", "").replace("\t", "")
                for mk in r.sample(list(makers(d, None)), c.n(2, 19) if n < 30000 else 1):
                    c.add(prog_scenario([mk(v) + [op("send", "body")]]), ref=prog_scenario([mk(clean) + [op("send", "body")]]), dim="long values")
    for n in range(c.n(500, 8000)):
        ops_, clean = [], []
        for _ in range(r.choice([1, 2, 3, 5])):
            v = "".join(r.choice(["\r\n", "\n", "\r", "a", "b: c", ":", " ", "X: y", "\t"]) for _ in range(r.choice([1, 2, 4, 8])))
            cl = v.replace("\r", "").replace("\n", "") + "v"
            k = r.randrange(4)
            i = len(ops_)
            for lst, x in ((ops_, v), (clean, cl)):
                lst.append([op("set", "X-%d" % i, x), op("redirect", x), op("cookie", "k%d" % i, x), op("set", "N%d" % i + x.replace(":", "").replace(" ", "").replace("\t", ""), "val")][k])
        ref = prog_scenario([clean + [op("send", "body")]])
        c.add(prog_scenario([ops_ + [op("send", "body")]]), ref=ref, dim="random")
    # other control characters and odd values must not disturb the lines either
    for ch in [0, 1, 8, 11, 12, 14, 27, 31, 127]:
        x = chr(ch)
        ref = prog_scenario([[op("set", "X-V", "ab"), op("cookie", "k", "ab"), op("send", "body")]])
        c.add(prog_scenario([[op("set", "X-V", "a" + x + "b"), op("cookie", "k", "ab"), op("send", "body")]]), ref=ref, dim="control characters")


def c17(c):
    r = c.rng
    ref = prog_scenario([[op("send", "b")]])

    def t(name, content, dim, pre=(), post=(), via="", **kw):
        f = dict(name=bts(name), k="g", b=[], s=content[0], n=content[1]) if isinstance(content, tuple) else dict(name=bts(name), k="b", b=bts(content), s=0, n=0)
        f["via"] = via
        g = [list(content)] if isinstance(content, tuple) else []
        prog = list(pre) + [op("file", name)] + list(post)
        c.add(single([route("get", "/", 1, prog)], request("GET", "/"), files=[f] + [x for x in FILES if x['name'] != f['name']], gens=g + prog_gens([prog]), **kw), ref=ref, dim=dim)
    for n in list(range(0, 30)) + EDGES + [10000, 32767, 32768, 65535, 65536, 65537, 131072, 1000003] + ([5000000] if c.thorough else []):
        t("a.txt", (n % 250, n), "size")
        t("b.bin", (n % 250, n), "size", fchunk=r.choice([1, 7, 100, 1000, 1024]) if n < 20000 else r.choice([1000, 8191]))
    for n in (1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8192, 10000):
        for k in (1, 2, 3, 100, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4096):
            if k < n + 2 and n / k < 3000:
                t("c.dat", (n % 250, n), "read size", fchunk=k)
        for w in ([1] if n < 3000 else [50], [100], [1, 0], [1000, 1, 0]):
            t("c.dat", (n % 250, n), "write size", writes=w)
            t("c.dat", (n % 250, n), "write size", writes=w, fchunk=r.choice([1000, 500, 1025]))
    for b in (b"\x00" * 50, b"\xff" * 50, b"\r\n\r\n", bytes(range(256)) * 4, "é日本".encode(), b"HTTP/1.1 200 OK\r\n\r\n", b"\x1a", b"a\x00b"):
        t("d.html", b, "content")
    for e in EXTS:
        for nm in ("x." + e, "X." + e.upper(), "y.z." + e.capitalize(), "." + e, "z" + e, "q." + e + ".unk"):
            t(nm, b"data", "extension")
    for nm in ("noext", "trailing.", "a b.txt", "é.png", ".", "two..css", "x.TXT", "x.tXt", "x.html5", "x.htmlx", "x.p"):
        if nm not in (".",):
            t(nm, b"data", "extension")
    # the path given leads to the file through links and folders
    for via in ("soft", "soft2", "hard"):
        for nm in ("l.txt", "l.png", "noext", "in/side.css"):
            for content in (b"", b"x", b"some data", (3, 100), (4, 5000), (5, 100000)):
                t(nm, content, "links", via=via)
    for nm in ("d1/a.txt", "d1/d2/d3/a.html", "d.png/a", "d.png/b.css", "d1//a.json"):
        for content in (b"", b"y", (6, 3000)):
            t(nm, content, "folders")
    few_descriptors(c, [(request("GET", "/" + x), False) for x in "abcdefg"], app=[
        route("get", "/a/last", 1, [op("file", "f.txt")]), route("get", "/a", 2, [op("file", "f.txt")]), route("get", "/b", 3, [op("file", "missing"), op("send", "b")]),
        route("get", "/c", 4, [op("file", "f.txt"), op("file", "g.bin")]), route("get", "/d", 5, [op("file", "dir"), op("send", "b")]),
        route("get", "/e", 6, [op("file", "f.txt"), op("send", "b")]), route("get", "/f", 7, [op("file", "f.txt")], "next"), route("get", "/f", 8, [op("file", "missing")]),
        route("get", "/g", 9, [op("file", "g.bin")], "next"), route("get", "/g", 10, [op("file", "f.txt"), op("file", "dir")])])
    # failing calls change nothing
    for name in ("missing", "dir", "dir/x", "missing.txt", "", "f.txt/x", "no/such/dir.png"):
        for pre in ([], [op("send", "before")], [op("type", "a/b"), op("status", n=201), op("send", "before")], [op("file", "g.bin")], [op("set", "X", "y")], [op("charset", "utf-8")], [op("json", [1, 2])]):
            for post in ([], [op("send", "after")], [op("file", "f.txt")], [op("get", "Content-Type"), op("get", "Content-Length"), op("sent")]):
                prog = pre + [op("file", name)] + post
                c.add(prog_scenario([prog]), ref=ref, dim="failing")
    # a file after or before other bodies
    for pre in ([op("send", "short")], [op("sendg", n=3, m=5000)], [op("json", [1])], [op("type", "x/y")], [op("set", "content-type", "x/y")], [op("file", "g.bin")], [op("attachf", "k.zip")], [op("charset", "utf-8")], [op("status", n=206)], [op("set", "Content-Length", "1")]):
        t("a.css", (5, 3000), "after other calls", pre=pre)
        t("a.css", b"small", "after other calls", pre=pre)
        t("a.css", b"", "after other calls", pre=pre)
        if pre[0]["o"] not in ("set",):
            t("a.css", b"small", "before other calls", post=pre)
    changing_files(c, ref)
    for hs in MAGIC:
        c.add(single([route("get", "/", 1, [op("file", "f.txt")])], request("GET", "/", headers=hs), files=FILES), ref=ref, dim="known headers")
        c.add(single([route("get", "/", 1, [op("file", "g.bin")])], request("GET", "/", headers=hs), files=FILES, gens=[[17, 3000]]), ref=ref, dim="known headers")
    # the same file for many connections at once
    n = 6
    f = [dict(name=bts("s.bin"), k="g", b=[], s=8, n=50000)]
    conns = [conn(request("GET", "/", xc=i + 1)) for i in range(n)]
    steps = [dict(do="open", c=i + 1) for i in range(n)] + [dict(do="send", c=i + 1) for i in range(n)] + [dict(do="finish", c=i + 1) for i in range(n)]
    c.add(scenario(app=[route("get", "/", 1, [op("file", "s.bin")])], conns=conns, steps=steps, files=f, gens=[[8, 50000]]), ref=ref, dim="shared file")


def changing_files(c, ref):
    """the files change between requests, while a handler runs and while a response is on its way"""
    r = c.rng

    def rec(name, content):
        return dict(name=bts(name), k="g", b=[], s=content[0], n=content[1]) if isinstance(content, tuple) else dict(name=bts(name), k="b", b=bts(content), s=0, n=len(bts(content)))
    names = ["a.txt", "b.css", "n"]
    app = [route("get", "/%d" % i, i + 1, [op("file", nm)], "next") for i, nm in enumerate(names)] + [route("use", "", 9, [], "next")]
    contents = [b"", b"one", b"two", b"three and more", b"eno", (3, 700), (4, 700), (3, 1024), (5, 4000), (6, 4000)]
    for t in range(c.n(150, 2000)):
        state, files = {}, []
        for nm in names:
            if r.random() < .6:
                state[nm] = r.choice(contents)
                files.append(rec(nm, state[nm]))
        conns, steps = [], []
        for _ in range(r.choice([2, 3, 4, 6, 10])):
            nm = r.choice(names)
            q = r.random()
            if q < .55:
                how = r.choice(["put", "put", "over", "rm", "grow", "dir"])
                cur = state.get(nm)
                if how in ("grow", "over") and not isinstance(cur, (bytes, tuple)):
                    how = "put"
                if how == "put":
                    state[nm] = r.choice(contents)
                    steps.append(dict(do="fs", how="put", f=rec(nm, state[nm])))
                elif how == "over":
                    state[nm] = r.choice([x for x in contents])
                    steps.append(dict(do="fs", how="over", f=rec(nm, state[nm])))
                elif how == "grow":
                    state[nm] = cur + b"+more" if isinstance(cur, bytes) else (cur[0], cur[1] + 300)
                    steps.append(dict(do="fs", how="grow", f=rec(nm, state[nm])))
                elif how == "rm":
                    state.pop(nm, None)
                    steps.append(dict(do="fs", how="rm", f=dict(name=bts(nm), k="x", b=[], s=0, n=0)))
                else:
                    state[nm] = "dir"
                    steps.append(dict(do="fs", how="dir", f=dict(name=bts(nm), k="d", b=[], s=0, n=0)))
            i = len(conns) + 1
            conns.append(conn(request("GET", "/%d" % (names.index(nm) if r.random() < .8 else r.randrange(3)), xc=i)))
            steps += play(i)
        gens = [[a, b] for a in (3, 4, 5, 6) for b in (700, 1000, 1024, 1300, 1324, 1600, 1624, 1924, 4000, 4300, 4600, 4900)]
        c.add(scenario(app=app, conns=conns, steps=steps, files=files, gens=gens, xc=True), ref=ref, dim="files change between requests")
    # the handler changes the file it has just sent, or the one it is about to send
    F = [rec("t.txt", b"0123456789"), rec("u.png", (7, 5000)), rec("v", b"")]
    ch = [op("fgrow", "t.txt", "MORE"), op("fgrow", "t.txt", b"x" * 5000), op("fput", "t.txt", b"other"), op("fput", "t.txt", b""), op("frm", "t.txt"), op("fput", "t.txt", b"y" * 3000), op("frm", "u.png"), op("fput", "u.png", b"png"),
          op("fgrow", "v", b"now something"), op("frm", "v"), op("fput", "new.css", b"a{}")]
    for a in ch:
        for nm in ("t.txt", "u.png", "v", "new.css"):
            for prog in ([op("file", nm), a], [a, op("file", nm)], [op("file", nm), a, op("file", nm)], [op("file", nm), a, op("send", "plain")], [op("send", "plain"), a, op("file", nm)], [op("file", nm), a, op("file", "v")]):
                for split in (False, True):
                    progs = [prog[:1], prog[1:]] if split else [prog]
                    conns = [conn(request("GET", "/", xc=1)), conn(request("GET", "/f", xc=2))]
                    c.add(scenario(app=chain_of(progs)[:1] + [dict(x, k="get", p=bts("/")) for x in chain_of(progs)[1:]] + [route("get", "/f", 8, [op("file", nm)])], conns=conns, steps=play(1) + play(2), files=F,
                                   gens=[[7, 5000]], xc=True), ref=ref, dim="handlers change files")
    # the file changes while the client is still reading it
    for n in (5000, 400000, 2000000):
        for how, new in (("grow", (7, n + 10)), ("grow", (7, n + 100000)), ("put", (8, n)), ("put", (8, 10)), ("rm", None)):
            f2 = dict(name=bts("big.bin"), k="x", b=[], s=0, n=0) if new is None else rec("big.bin", new)
            for wait in (1, 3000, 60000):
                conns = [conn(request("GET", "/", xc=1), rcvbuf=4096), conn(request("GET", "/", xc=2))]
                steps = [dict(do="open", c=1), dict(do="send", c=1), dict(do="readn", c=1, n=min(wait, n)), dict(do="fs", how=how, f=f2), dict(do="finish", c=1)] + play(2)
                c.add(scenario(app=[route("get", "/", 1, [op("file", "big.bin")], "next")], conns=conns, steps=steps, files=[rec("big.bin", (7, n))], gens=[[7, n], [7, n + 10], [7, n + 100000], [8, n], [8, 10]], xc=True),
                      ref=ref, dim="files change while sent")


def c20(c):
    import datetime
    r = c.rng
    app = [route("get", "/", 1), route("get", "/f", 2, [op("file", "f.txt")]), route("get", "/j", 3, [op("json", [1])]), route("get", "/d", 4, [op("defhdr"), op("send", "x")])]
    paths = ["/", "/f", "/j", "/d", "/404"]
    ref = single(app, request("GET", "/"), files=FILES)
    epoch = datetime.date(1970, 1, 1)

    def t(day, sec, dim, path=None):
        c.add(single(app, request("GET", path or r.choice(paths)), files=FILES, clock=[day, sec]), ref=ref, dim=dim)
    maxday = (datetime.date(9999, 12, 31) - epoch).days
    years = list(range(1970, 2110)) + [2199, 2200, 2201, 2299, 2300, 2301, 2399, 2400, 2401, 2499, 2500, 2800, 2900, 3000, 3200, 4000, 4400, 5000, 6000, 8000, 9600, 9999]
    for y in years:
        for m in range(1, 13):
            if y > 2040 and not c.thorough and m not in (1, 2, 3, 12):
                continue
            first = (datetime.date(y, m, 1) - epoch).days
            nxt = (datetime.date(y + (m == 12), m % 12 + 1, 1) - epoch).days if (y, m) != (9999, 12) else maxday + 1
            for d in (first, nxt - 1):
                t(d, r.choice([0, 86399, r.randrange(86400)]), "month edges")
    for d in range(0, c.n(800, 6000)):
        t(d, 86399 if d % 2 else 0, "consecutive days")
    for d in range(18262, 18262 + c.n(400, 4000)):
        t(d, r.randrange(86400), "consecutive days")
    for s in [0, 1, 9, 10, 59, 60, 61, 599, 600, 3599, 3600, 3601, 35999, 36000, 43199, 43200, 86398, 86399]:
        for p_ in paths:
            t(18321, s, "times of day", p_)
    for n in range(c.n(600, 20000)):
        t(r.randrange(maxday), r.randrange(86400), "random")
    # times between the second's edges do not matter; the clock moves while a request waits
    for raw in (request("GET", "/"), request("GET", "/404"), request("FOO", "/"), b"x\r\n\r\n"):
        c.add(single(app, raw, steps=[dict(do="open", c=1), dict(do="send", c=1, n=5, sync=True), dict(do="clock", n=18005, m=7), dict(do="send", c=1), dict(do="finish", c=1)], clock=[18000, 86399]), dim="clock moves")
    for t_ in range(c.n(60, 1000)):
        n = r.choice([3, 6, 12])
        d, q = r.randrange(1, 40000), r.randrange(86400)
        conns, steps = [], []
        for i in range(n):
            how = r.choice([0, 1, 1, 1, 2, 59, 60, 3600, 86400, -1, -1, -60, 86400 * 31, 86400 * 365, 86400 * 366, -86400 * 365, 604800, 10])
            now = max(0, d * 86400 + q + how)
            d, q = now // 86400, now % 86400
            conns.append(conn(request("GET", r.choice(paths), xc=i + 1) if r.random() < .85 else r.choice([request("FOO", "/"), b"x\r\n\r\n"])))
            steps += [dict(do="clock", n=d, m=q)] + play(i + 1)
        c.add(scenario(app=app, conns=conns, steps=steps, files=FILES, xc=True), ref=ref, dim="clock walks")
    # one server, many instants
    conns = [conn(request("GET", "/", xc=i + 1)) for i in range(12)]
    steps = []
    for i in range(12):
        steps += [dict(do="clock", n=18260 + i * 31, m=i * 7000)] + play(i + 1)
    c.add(scenario(app=app, conns=conns, steps=steps, files=FILES), dim="clock moves")


# ------------------------------------------------------------------ many connections: C18, C19, C21, C22
def busy_app():
    return [route("use", "", 1, [op("set", "X-M", "1")], "next"),
            route("get", "/a/:id", 2, [op("send", "A")]),
            route("get", "/big", 3, [op("sendg", n=3, m=300000)]),
            route("post", "/p", 4, [op("status", n=201), op("cookie", "c", "d"), op("send", "posted")]),
            route("get", "/gate", 5, [op("gate", n=1), op("send", "gated")]),
            route("get", "/gate2", 6, [op("set", "X-G", "2"), op("gate", n=2), op("send", "gated2")]),
            route("get", "/panic", 7, [op("set", "X-P", "q"), op("panic")]),
            route("get", "/none", 8, [], "next"),
            route("get", "/mid", 9, [op("sendg", n=4, m=40000)]),
            route("get", "/file", 10, [op("file", "g.bin")]),
            route("get", "/gatepanic", 11, [op("gate", n=3), op("panic")])]


BGENS = [[3, 300000], [4, 40000], [17, 3000]]
CVIEW = ["meth", "hdr", "body", "ck", "q", "vars"]


def busy_request(r, i, paths=None):
    k = r.choice(paths or ["a", "a", "a", "post", "post", "mid", "none", "bad", "file", "q", "big", "method"])
    if k == "a":
        return request("GET", "/a/id%d" % i, headers=[("X-V", "v%d" % i), ("Cookie", "c%d=%d" % (i, i))], xc=i)
    if k == "q":
        return request("GET", "/a/z?k%d=v%d" % (i, i), xc=i)
    if k == "post":
        return request("POST", "/p", body=(b"body-%d-" % i) * r.choice([1, 10, 200]), xc=i)
    if k == "bad":
        return b"GET / HTTP/1.1\r\nnocolon %d\r\n\r\n" % i
    if k == "method":
        return request("FOO%d" % i, "/", xc=i)
    return request("GET", "/" + k, xc=i)


def alone(app, cn, half=False, **kw):
    """the same client, with nobody else around"""
    st = play(1, half)
    return scenario(app=app, view=CVIEW, conns=[dict(cn)], steps=st, files=FILES, gens=BGENS, xc=True, **kw)


def shuffle_merge(r, seqs):
    seqs = [list(q) for q in seqs if q]
    out = []
    while seqs:
        q = r.choice(seqs)
        out.append(q.pop(0))
        if not q:
            seqs.remove(q)
    return out


def retag(cn, a, b):
    """the request of client a, sent as client b"""
    return dict(cn, bytes=bts(bytes(cn["bytes"]).replace(b"X-C: %d\r\n" % a, b"X-C: %d\r\n" % b)))


def alone_twins(app, conns, halves, only=None):
    tw = []
    for i, cn in enumerate(conns):
        if only is not None and i + 1 not in only:
            continue
        # the header that names the client keeps its value: it is logged by that number in either run
        sc = alone(app, {k: v for k, v in cn.items() if k not in ("reads", "writes", "rcvbuf")}, half=halves[i])
        sc["conns"] = [dict(DEFCONN, bytes=[], tail=[]) for _ in range(i)] + [dict(DEFCONN, **{k: v for k, v in cn.items() if k in ("bytes", "tail", "tls")})]
        sc["steps"] = play(i + 1, halves[i])
        if cn.get("tls"):
            sc["tls"] = True
        tw.append((sc, [(i + 1, i + 1)]))
    return tw


def client_steps(r, i, n, half, slow=True):
    st = [dict(do="open", c=i)]
    left, parts = n, r.choice([1, 1, 2, 3, 5]) if slow else 1
    for j in range(parts):
        k = left if j == parts - 1 else r.randrange(0, max(1, left))
        if k:
            st.append(dict(do="send", c=i, n=k, sync=r.random() < .4))
        left -= k
    if half:
        st.append(dict(do="half", c=i))
    if r.random() < .3:
        st.append(dict(do="readn", c=i, n=r.choice([1, 10, 60])))
    st.append(dict(do="finish", c=i))
    return st


def few_descriptors(c, raws, app=None, n=None, files=None, gens=None, **kw):
    """many requests in turn, with far fewer descriptors than requests: nothing may be kept open behind them"""
    app, files, gens = app or busy_app(), files or FILES, gens or BGENS
    for raw, half in raws:
        k = n or c.n(230, 1000)
        conns = [conn(raw, tls=bool(kw.get("tls"))) for _ in range(k)] + [conn(request("GET", "/a/last"), tls=bool(kw.get("tls")))]
        steps = [x for i in range(1, k + 1) for x in play(i, half)] + play(k + 1)
        c.add(scenario(app=app, view=[], conns=conns, steps=steps, files=files, gens=gens, workers=2, nofile=80, seq=True, **kw),
              ref=single(app, raw, half=half, files=files, gens=gens), dim="few descriptors")


def long_pause(c, tls=False):
    """clients that take their time, longer than the keep-alive duration, at every stage of a request"""
    app = busy_app()
    for ms in (6500, 11500) if not c.thorough else (6500, 12000, 35000):
        conns, before, after = [], [], []

        def one(raw, cut, **kw):
            i = len(conns) + 1
            conns.append(conn(raw(i), **(dict(kw, tls=True) if tls else kw)))
            before.append(dict(do="open", c=i))
            if cut(conns[-1]["bytes"]):
                before.append(dict(do="send", c=i, n=cut(conns[-1]["bytes"])))
            after.extend([dict(do="send", c=i), dict(do="finish", c=i)])
        post = lambda i: request("POST", "/p", body=b"0123456789", xc=i)
        end = lambda b: bytes(b).find(b"\r\n\r\n")
        for cut in (lambda b: 0, lambda b: 1, lambda b: 10, lambda b: end(b) - 2, lambda b: end(b) + 1, lambda b: end(b) + 3, lambda b: end(b) + 4, lambda b: len(b) - 1):
            one(post, cut)
        for path in ("/big", "/mid", "/file"):
            one(lambda i: request("GET", path, xc=i), len, rcvbuf=2048)
            before.append(dict(do="readn", c=len(conns), n=10))
        one(lambda i: request("GET", "/gate", xc=i), len)
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=before + [dict(do="sleep", n=ms), dict(do="gate", n=1)] + after, files=FILES, gens=BGENS, workers=3, tls=tls)
        tw = alone_twins(app, conns, [False] * len(conns))
        tw[-1][0]["steps"] = [dict(do="gate", n=1)] + tw[-1][0]["steps"]
        c.add(sc, ref=tw[0][0], twins=tw, dim="long pause")


def c18(c):
    r = c.rng
    app = busy_app()
    solo = {}

    def add(conns, steps, halves, dim, only=None, **kw):
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=BGENS, **kw)
        tw = alone_twins(app, conns, halves, only)
        # equal lonely runs are shared
        tw2 = []
        for t, pairs in tw:
            key = json.dumps([t["conns"], t["steps"]])
            tw2.append((solo.setdefault(key, t), pairs))
        c.add(sc, ref=tw2[0][0] if tw2 else None, twins=tw2, dim=dim)
    # random interleavings
    for t in range(c.n(150, 2500)):
        n = r.choice([2, 2, 3, 4, 6, 10])
        conns, seqs, halves = [], [], []
        for i in range(1, n + 1):
            raw = busy_request(r, i)
            half = not ends_right(raw)
            cn = conn(raw)
            if r.random() < .3:
                cn["reads"] = [r.choice([1, 3, 20]) for _ in range(4)] + [0]
            if r.random() < .3:
                cn["writes"] = [r.choice([1, 9, 100]) for _ in range(4)] + [0]
            conns.append(cn)
            halves.append(half)
            seqs.append(client_steps(r, i, len(raw), half))
        add(conns, shuffle_merge(r, seqs), halves, "interleaved", workers=r.choice([1, 2, 4]))
    # many at once
    for n in (20, 50, 120):
        conns = [conn(busy_request(r, i, ["a", "a", "q", "post", "none", "bad"])) for i in range(1, n + 1)]
        halves = [not ends_right(bytes(x["bytes"])) for x in conns]
        steps = [dict(do="open", c=i) for i in range(1, n + 1)]
        half_of = [dict(do="send", c=i, n=20) for i in range(1, n + 1)]
        rest = [dict(do="send", c=i) for i in range(1, n + 1)]
        r.shuffle(half_of)
        r.shuffle(rest)
        add(conns, steps + half_of + rest + [dict(do="half", c=i) for i in range(1, n + 1) if halves[i - 1]] + [dict(do="finish", c=i) for i in range(n, 0, -1)],
            halves, "many", workers=r.choice([1, 2, 8]))
    # handlers of several requests in progress at the same time: each waits at a gate inside its handler
    for t in range(c.n(40, 500)):
        w = r.choice([3, 4, 6])
        g = r.randrange(1, w)
        conns, steps = [], []
        for i in range(1, g + 1):
            conns.append(conn(request("GET", r.choice(["/gate", "/gate2"]), headers=[("X-V", "g%d" % i)], xc=i)))
            steps += [dict(do="open", c=i), dict(do="send", c=i), dict(do="await", c=i, e="enter", n=1)]
        m = r.choice([1, 2, 4])
        for i in range(g + 1, g + m + 1):
            conns.append(conn(busy_request(r, i, ["a", "post", "mid", "none", "q"])))
            steps += play(i)
        order = [1, 2]
        r.shuffle(order)
        steps += [dict(do="gate", n=x) for x in order] + [dict(do="finish", c=i) for i in r.sample(range(1, g + 1), g)]
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=BGENS, workers=w)
        tw = []
        for i in range(1, g + m + 1):
            lone = alone_twins(app, conns, [False] * len(conns), only=[i])[0]
            st = [dict(do="gate", n=1), dict(do="gate", n=2)] + lone[0]["steps"]
            lone[0]["steps"] = st
            tw.append(lone)
        c.add(sc, ref=tw[-1][0], twins=tw, dim="handlers in progress")
    # stalled clients, more of them than worker threads
    for kind in ("idle", "half line", "half head", "half body", "not reading", "byte", "slow reader", "mixed"):
        for n, w in ((1, 1), (3, 1), (3, 2), (12, 2), (40, 4)) + (((300, 2),) if kind in ("idle", "half body", "not reading") else ()) + (((120, 2), (900, 4)) if c.thorough else ()):
            conns, steps, after = [], [], []
            for i in range(1, n + 1):
                k = kind if kind != "mixed" else r.choice(["idle", "half line", "half head", "half body", "not reading", "byte"])
                full = request("POST", "/p", body=b"0123456789", xc=i)
                cn = conn(request("GET", "/big", xc=i), rcvbuf=2048) if k in ("not reading", "slow reader") else conn(full)
                conns.append(cn)
                steps.append(dict(do="open", c=i))
                cut = {"idle": 0, "half line": 5, "half head": 30, "half body": len(full) - 4, "byte": 1}.get(k, 10 ** 6)
                if cut:
                    steps.append(dict(do="send", c=i, n=cut, sync=r.random() < .3))
                if k == "slow reader":
                    steps.append(dict(do="readn", c=i, n=100))
                after += [dict(do="send", c=i), dict(do="finish", c=i)]
            steps.append(dict(do="sleep", n=5))
            lo = n + 1
            for i in range(lo, lo + 4):
                conns.append(conn(busy_request(r, i, ["a", "post", "q", "file"])))
                steps += play(i)
            add(conns, steps + after, [False] * len(conns), "stalled: " + kind, workers=w, only=None if n <= 12 else list(range(1, 4)) + list(range(lo, lo + 4)))
    long_pause(c)
    # connections one after another leave nothing behind
    for n in (30, 150) + ((1000,) if c.thorough else ()):
        conns = [conn(busy_request(r, i, ["a", "q", "post", "none"])) for i in range(1, n + 1)]
        add(conns, [x for i in range(1, n + 1) for x in play(i)], [False] * n, "one after another", workers=2)


FAULT_KINDS = ["panic", "rst before", "rst in head", "rst in body", "rst waiting", "rst reading", "leave before", "leave in head", "leave in body", "leave waiting", "leave reading", "rfault0", "rfault1", "rfault2", "wfault0", "wfault1", "wfault2", "gatepanic"]


def fault_conn(r, kind, i):
    """(conn, steps) of a client that comes to grief"""
    o = dict(do="open", c=i)
    full = request("POST", "/p", body=b"0123456789" * 30, xc=i)
    if kind == "panic":
        return conn(request("GET", "/panic", xc=i), loose=True), [o, dict(do="send", c=i), dict(do="finish", c=i)]
    if kind == "gatepanic":
        return conn(request("GET", "/gatepanic", xc=i), loose=True), [o, dict(do="send", c=i), dict(do="await", c=i, e="enter", n=1), dict(do="gate", n=3), dict(do="finish", c=i)]
    if kind.startswith("rfault"):
        return conn(full, loose=True, rfault=int(kind[-1]), reads=[60, 40, 0]), [o, dict(do="send", c=i), dict(do="finish", c=i)]
    if kind.startswith("wfault"):
        return conn(request("GET", "/mid", xc=i), loose=True, wfault=int(kind[-1]), writes=[30, 50, 0]), [o, dict(do="send", c=i), dict(do="finish", c=i)]
    how, when = kind.split(" ")
    if when == "before":
        return conn(full, loose=True), [o, dict(do=how, c=i)]
    if when == "in":
        raise KeyError(kind)
    if when == "waiting":
        return conn(request("GET", "/a/x", xc=i), loose=True), [o, dict(do="send", c=i), dict(do=how, c=i)]
    if when == "reading":
        return conn(request("GET", "/big", xc=i), loose=True, rcvbuf=2048), [o, dict(do="send", c=i), dict(do="readn", c=i, n=500), dict(do=how, c=i)]
    raise KeyError(kind)


def fault_conn2(r, kind, i):
    if kind.endswith("in head") or kind.endswith("in body"):
        how = kind.split(" ")[0]
        full = request("POST", "/p", body=b"0123456789" * 30, xc=i)
        cut = r.randrange(1, full.find(b"\r\n\r\n")) if kind.endswith("head") else r.randrange(full.find(b"\r\n\r\n") + 4, len(full))
        return conn(full, loose=True), [dict(do="open", c=i), dict(do="send", c=i, n=cut, sync=r.random() < .5), dict(do=how, c=i)]
    return fault_conn(r, kind, i)


def c19(c):
    r = c.rng
    app = busy_app()

    def add(groups, dim, **kw):
        """groups: lists of ("fault", kind) or ("ok", paths), run as consecutive phases; clients of one phase interleave"""
        conns, steps, good = [], [], []
        for ph in groups:
            seqs = []
            for g in ph:
                i = len(conns) + 1
                if g[0] == "fault":
                    cn, st = fault_conn2(r, g[1], i)
                else:
                    raw = busy_request(r, i, g[1])
                    cn, st = conn(raw), client_steps(r, i, len(raw), not ends_right(raw), slow=g[0] == "ok")
                    good.append(i)
                conns.append(cn)
                seqs.append(st)
            steps += shuffle_merge(r, seqs) if len(seqs) > 1 else seqs[0]
        halves = [not ends_right(bytes(x["bytes"])) for x in conns]
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=BGENS, **kw)
        # the same clients without the faulty ones
        steps0 = [x for x in steps if x.get("c", 0) == 0 or x["c"] in good]
        conns0 = [cn if i + 1 in good else conn(b"") for i, cn in enumerate(conns)]
        base = scenario(app=app, view=CVIEW, conns=conns0, steps=steps0, files=FILES, gens=BGENS, workers=kw.get("workers", 2))
        c.add(sc, ref=base, twins=[(base, [(i, i) for i in good])], dim=dim)
    ok = ("ok", ["a", "post", "q", "mid", "none", "bad"])
    for kind in FAULT_KINDS:
        for w in (1, 2):
            if kind == "gatepanic" and w == 1:
                pass
            add([[("fault", kind)], [ok], [ok]], "one fault: " + kind, workers=w)
            add([[ok], [("fault", kind)] * 3, [ok, ok]], "faults: " + kind, workers=w)
            if kind != "gatepanic":
                add([[("fault", kind), ok, ok, ("fault", kind)], [ok]], "fault among others: " + kind, workers=w + 1)
    for kind in FAULT_KINDS[:-1]:
        add([[("fault", kind)]] * c.n(24, 150) + [[ok], [ok]], "many faults: " + kind, workers=2)
        add([[("fault", kind)]] * c.n(530, 1100) + [[ok], [ok, ok]], "very many faults: " + kind, workers=2, nofile=150)
    for t in range(c.n(120, 2500)):
        groups = []
        for _ in range(r.choice([1, 2, 3, 5])):
            ph = []
            for _ in range(r.choice([1, 2, 3, 4])):
                ph.append(("fault", r.choice(FAULT_KINDS[:-1])) if r.random() < .55 else ok)
            groups.append(ph)
        groups.append([ok])
        add(groups, "random histories", workers=r.choice([1, 2, 4]))
    # accept fails
    EMFILE, ENFILE, ECONNABORTED, ENOBUFS, ENOMEM, EPROTO, EPERM, EINTR, ENETDOWN, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH = 24, 23, 103, 105, 12, 71, 1, 4, 100, 113, 95, 101
    for e in (EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, EINTR, ENETDOWN, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH):
        for n in (1, 2, 5, 20):
            add([[ok], [ok], [ok, ok]], "accept fails: %d" % e, afaults=[e] * n)
    for n in (1, 2, 5):
        # the connection that was aborted is lost, the next ones are not
        conns = [conn(busy_request(r, i, ["a", "post"]), loose=i <= n) for i in range(1, n + 4)]
        steps = [x for i in range(1, n + 4) for x in play(i)]
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=BGENS, afaults=[ECONNABORTED] * n)
        base = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=BGENS)
        c.add(sc, ref=base, twins=[(base, [(i, i) for i in range(n + 1, n + 4)])], dim="accept fails: aborted")
    for t in range(c.n(20, 300)):
        add([[ok], [("fault", r.choice(FAULT_KINDS[:-1])), ok], [ok, ok]], "accept fails among faults", afaults=[r.choice([24, 23, 105, 12, 71]) for _ in range(r.choice([1, 3, 8]))], workers=r.choice([1, 2]))


HELLO = bytes.fromhex("16030100c8010000c40303" + "11" * 32 + "20" + "22" * 32 + "003e130213031301c02cc030009fcca9cca8ccaac02bc02f009ec024c028006bc023c0270067c00ac0140039c009c0130033009d009c003d003c0035002f00ff0100003d")


def c21(c):
    r = c.rng
    app = busy_app() + [route("all", "/:x", 20, [op("send", "var")]), route("all", "/", 21, [op("send", "root")]), route("get", "/f/f", 22, [op("file", "g.bin")])]
    gens = BGENS + [[5, 1000], [6, 70000], [7, 1000000]]

    def pair(raw, dim, half=False, steps=None, view=ECHO, app_=None, files=FILES, **kw):
        a = app_ or app
        base_kw = {k: v for k, v in kw.items() if k in ("tail", "gens")}
        g = base_kw.pop("gens", gens)
        kw.pop("gens", None)
        base = single(a, raw, half=half, view=view, files=files, gens=g, tls=True, **base_kw)
        base["conns"][0]["tls"] = False      # same server, plain port
        k = dict(kw)
        if steps is not None:
            k["steps"] = steps
        sc = single(a, raw, half=half, view=view, files=files, gens=g, tls=True, **k)
        c.add(sc, ref=base, twins=[(base, [(1, 1)])], dim=dim)
    for s in SAMPLES + [request("GET", "/f/f"), request("GET", "/none"), request("GET", "/mid"), request("GET", "/big"), request("GET", "/file")]:
        half = not ends_right(s)
        pair(s, "requests", half=half)
        for t in range(c.n(3, 30)):
            cuts = sorted(r.sample(range(1, len(s)), min(r.choice([1, 2, 4]), len(s) - 1)))
            parts = [b - a for a, b in zip([0] + cuts, cuts + [len(s)])]
            pair(s, "records", half=half, steps=sends(parts, half, sync=False))
        pair(s, "one byte records", half=half, steps=sends([1] * len(s), half, sync=False)) if len(s) < 200 else None
        for k in ([1], [5, 1, 0], [100], [3, 0]):
            pair(s, "segments", half=half, reads=k)
            pair(s, "short writes", half=half, writes=k if k != [1] else [2])
    for tv in (0, 12, 13):
        for al in (None, ["http/1.1"], ["h2", "http/1.1"], ["http/1.0"], ["http/1.1", "h2", "x"]):
            for sni in (False, True):
                for s in (SAMPLES[0], SAMPLES[1], SAMPLES[3], request("GET", "/mid"), request("GET", "/none"), SAMPLES[6]):
                    pair(s, "client offers", tlsv=tv, alpn=al, sni=sni)
    long_pause(c, tls=True)
    # sessions resumed
    for tv in (12, 13, 0):
        n = 5
        conns = [conn(request("GET", "/a/x%d" % i, xc=i), tls=True, tlsv=tv, resume=True, sni=True) for i in range(1, n + 1)]
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=[x for i in range(1, n + 1) for x in play(i)], files=FILES, gens=gens, tls=True)
        base = scenario(app=app, view=CVIEW, conns=[dict(x, tls=False) for x in conns], steps=[x for i in range(1, n + 1) for x in play(i)], files=FILES, gens=gens, tls=True)
        c.add(sc, ref=base, twins=[(base, [(i, i) for i in range(1, n + 1)])], dim="client offers")
    for m in METHODS:
        pair(request(m, "/a/x"), "methods")
        pair(request(m, "/", body=b"xyz"), "methods")
    for n in EDGES[4:] + [16383, 16384, 16385, 32768, 65536, 100000]:
        pair(request("POST", "/q", body=bytes((i * 7 + i // 251) % 256 for i in range(n))) if n <= 4100 else b"POST /q HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n" % n, "upload size",
             view=["body"], **(dict(tail=[3, n], gens=gens + [[3, n]]) if n > 4100 else {}))
        big = [route("get", "/", 1, [op("sendg", n=9, m=n)]), route("get", "/f", 2, [op("file", "z.bin")])]
        fs = [dict(name=bts("z.bin"), k="g", b=[], s=9, n=n)]
        for path in ("/", "/f"):
            pair(request("GET", path), "download size", app_=big, files=fs, gens=[[9, n]])
    for n in (300000, 1000000) + ((5000000,) if c.thorough else ()):
        big = [route("get", "/", 1, [op("sendg", n=9, m=n)]), route("get", "/f", 2, [op("file", "z.bin")])]
        fs = [dict(name=bts("z.bin"), k="g", b=[], s=9, n=n)]
        for path in ("/", "/f"):
            pair(request("GET", path), "download size", app_=big, files=fs, gens=[[9, n]])
            pair(request("GET", path), "slow download", app_=big, files=fs, gens=[[9, n]], rcvbuf=2048)
            pair(request("GET", path), "slow download", app_=big, files=fs, gens=[[9, n]], writes=[1000, 5, 0])
        pair(b"POST /q HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n" % n, "upload size", view=["body"], tail=[3, n], gens=gens + [[3, n]])
    for t in range(c.n(60, 1500)):
        progs = [[some_op(r) for _ in range(r.choice([1, 2, 4]))] for _ in range(r.choice([1, 2, 3]))] + [[op("send", "end")]]
        pair(request("GET", "/"), "random programs", app_=chain_of(progs), gens=prog_gens(progs))
        raw = mutate(r, r.choice(SAMPLES))
        # a close_notify the server has no reason to read ends in a reset; only requests cut inside the head get one
        if raw and not odd_cl(raw) and (ends_right(raw) or b"\r\n\r\n" not in raw):
            pair(raw, "mutated", half=not ends_right(raw))
    # handshakes that fail or stop half way disturb nobody, on either port
    junk = [b"", b"\x16", HELLO[:5], HELLO[:40], HELLO, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n", bytes(300), b"\x15\x03\x01\x00\x02\x02\x28", b"\x16\x03\x01\xff\xff" + b"a" * 200, b"\xff" * 50, b"\x80\x2e\x01\x03\x01" + b"q" * 60, b"\x17\x03\x03\x00\x05hello"]
    for j in junk:
        for how in ("stay", "rst", "leave", "half"):
            for k in ((1, 4) if not c.thorough else (1, 4, 30)) + ((300,) if j in (b"", HELLO, bytes(300)) else ()):
                conns, steps = [], []
                for i in range(1, k + 1):
                    conns.append(conn(j, loose=True, totls=True))
                    steps.append(dict(do="open", c=i))
                    if j:
                        steps.append(dict(do="send", c=i))
                    if how != "stay":
                        steps.append(dict(do=how, c=i))
                good = []
                for q in range(4):
                    i = len(conns) + 1
                    conns.append(conn(busy_request(r, i, ["a", "post", "q", "mid"]), tls=q % 2 == 0))
                    steps += play(i)
                    good.append(i)
                few = dict(nofile=150) if k == 300 and how in ("rst", "leave") else {}
                sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=gens, tls=True, workers=r.choice([1, 2]), **few)
                conns0 = [dict(cn, tls=False) if i + 1 in good else conn(b"") for i, cn in enumerate(conns)]
                base = scenario(app=app, view=CVIEW, conns=conns0, steps=[x for x in steps if x["c"] in good], files=FILES, gens=gens, tls=True)
                c.add(sc, ref=base, twins=[(base, [(i, i) for i in good])], dim="handshakes")
    # faults in the middle of TLS exchanges, and on both ports at once
    for t in range(c.n(40, 600)):
        conns, steps, good, seqs = [], [], [], []
        for q in range(r.choice([2, 3, 5, 8])):
            i = len(conns) + 1
            if r.random() < .4:
                cn, st = fault_conn2(r, r.choice(FAULT_KINDS[:-1]), i)
                cn["tls"] = r.random() < .6
                if cn["tls"] and "rcvbuf" in cn:
                    del cn["rcvbuf"]
            else:
                raw = busy_request(r, i, ["a", "post", "q", "mid", "none"])
                cn, st = conn(raw, tls=r.random() < .6), client_steps(r, i, len(raw), False)
                for x in st:
                    x.pop("sync", None)
                good.append(i)
            conns.append(cn)
            seqs.append(st)
        i = len(conns) + 1
        raw = busy_request(r, i, ["a"])
        conns.append(conn(raw, tls=True))
        good.append(i)
        steps = shuffle_merge(r, seqs) + play(i)
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=gens, tls=True, workers=r.choice([2, 4]))
        conns0 = [dict(cn, tls=False) if i + 1 in good else conn(b"") for i, cn in enumerate(conns)]
        base = scenario(app=app, view=CVIEW, conns=conns0, steps=[x for x in steps if x["c"] in good], files=FILES, gens=gens, tls=True)
        c.add(sc, ref=base, twins=[(base, [(i, i) for i in good])], dim="faults on both ports")
    # clients that take their time before the handshake
    for ms in (1, 100, 1200, 6500) + ((11500, 35000) if c.thorough else ()):
        raw = request("GET", "/a/1")
        base = single(app, raw, view=CVIEW, files=FILES, gens=gens)
        sc = scenario(app=app, view=CVIEW, conns=[conn(raw, tls=True, hswait=ms)], steps=play(1), files=FILES, gens=gens, tls=True)
        c.add(sc, ref=base, twins=[(base, [(1, 1)])], dim="long pause")
    few_descriptors(c, [(request("GET", "/a/1"), False), (b"no\r\n\r\n", False), (request("POST", "/p", body=b"x" * 3000)[:-5], True), (request("GET", "/mid"), False)], gens=gens, tls=True)
    # many that got through the handshake and then say nothing, or only part of a request
    for n in (20, 80) + ((400,) if c.thorough else ()):
        for cut in (0, 30, 10 ** 6):
            conns, steps, after = [], [], []
            for i in range(1, n + 1):
                conns.append(conn(request("POST", "/p", body=b"0123456789", xc=i), tls=True))
                steps.append(dict(do="open", c=i))
                if cut:
                    steps.append(dict(do="send", c=i, n=min(cut, len(conns[-1]["bytes"]) - 4)))
                after += [dict(do="send", c=i), dict(do="finish", c=i)]
            for q in range(4):
                i = len(conns) + 1
                conns.append(conn(busy_request(r, i, ["a", "post", "q"]), tls=q % 2 == 0))
                steps += play(i)
            sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps + after, files=FILES, gens=gens, tls=True, workers=2)
            base = scenario(app=app, view=CVIEW, conns=[dict(x, tls=False) for x in conns], steps=[x for i in range(1, len(conns) + 1) for x in play(i)], files=FILES, gens=gens, tls=True)
            c.add(sc, ref=base, twins=[(base, [(i, i) for i in range(1, len(conns) + 1)])], dim="many at once")
    for e in (24, 23, 105, 12, 71):
        for n in (1, 3):
            conns = [conn(busy_request(r, i, ["a", "post"]), tls=i % 2 == 1) for i in range(1, 5)]
            sc = scenario(app=app, view=CVIEW, conns=conns, steps=[x for i in range(1, 5) for x in play(i)], files=FILES, gens=gens, tls=True, afaults=[e] * n)
            base = scenario(app=app, view=CVIEW, conns=[dict(x, tls=False) for x in conns], steps=[x for i in range(1, 5) for x in play(i)], files=FILES, gens=gens, tls=True)
            c.add(sc, ref=base, twins=[(base, [(i, i) for i in range(1, 5)])], dim="accept fails")



# ------------------------------------------------------------------ C22: starts and stops
def c22(c):
    r = c.rng
    app = busy_app()
    ref = scenario(app=app, view=CVIEW, manual=True, conns=[], steps=[], files=FILES, gens=BGENS)

    def history(h, dim):
        conns, steps = [], []
        for x in h:
            if x["o"] in ("start", "stop"):
                steps.append(dict(do=x["o"], n=x["s"], p=x["p"]))
            elif x["o"] in ("occupy", "free"):
                steps.append(dict(do=x["o"], p=x["p"]))
            elif x["o"] == "serve":
                i = len(conns) + 1
                conns.append(conn(busy_request(r, i, ["a", "post", "q", "mid", "none"]), port=x["p"], tw=r.random() < .8, addr=r.choice([1, 1, 2, 77])))
                steps += play(i)
            else:
                i = len(conns) + 1
                conns.append(conn(b"GET /a HTTP/1.1\r\nHost", port=x["p"], loose=True))
                steps += [dict(do="open", c=i)] + [dict(do="send", c=i)] * r.choice([0, 1])
        sc = scenario(app=app, view=CVIEW, conns=conns, steps=steps, files=FILES, gens=BGENS, manual=True, xc=True, workers=r.choice([1, 2]))
        c.add(sc, ref=ref, dim=dim)
    # every short history of the lifecycle specification, and long random walks through it
    for h, dim in c.histories:
        history(h, dim)
    # many clients at once while the only worker is busy: all of them wait, none is turned away
    for n in (40, 1100) if not c.thorough else (40, 130, 513, 1025, 2000):
        conns = [conn(request("GET", "/gate", xc=1), port=1)]
        steps = [dict(do="start", n=1, p=1)] + play(1)[:2] + [dict(do="await", c=1, e="enter", n=1)]
        for i in range(2, n + 2):
            conns.append(conn(request("GET", "/a/id%d" % i, xc=i), port=1))
            steps += play(i)[:2]
        steps += [dict(do="gate", n=1)] + [dict(do="finish", c=i) for i in range(1, n + 2)]
        steps += [dict(do="stop", n=1, p=1), dict(do="start", n=1, p=1)]
        conns.append(conn(request("GET", "/a/last", xc=n + 2), port=1))
        steps += play(n + 2)
        c.add(scenario(app=app, view=["vars"], conns=conns, steps=steps, files=FILES, gens=BGENS, manual=True, workers=1, xc=True), ref=ref, dim="bursts")


# ------------------------------------------------------------------ C23: configuration
def c23(c):
    r = c.rng
    words = ["", "a", "b", "key.pem", "../x/y", "/abs/key.pem", "x" * 300, "dir/", "caf\u00e9.pem", "443", " ", "./k", "k//k"]
    for h, dim in c.histories:
        if dim == "long histories" and r.random() < .7:
            h = [dict(x, a=r.choice(words), b=r.choice(words), n=r.choice([0, 1, 443, 80, 8080, 5, 5000, 65535, 65534])) for x in h]
        c.add(dict(kind="config", ops=h), dim=dim)


def prepare(c, work):
    """behaviours the specification generates"""
    if c.pid == "C22":
        c.histories = []
        for depth, ports, take in ((5, 1, 10**6), (5, 2, 250)) if not c.thorough else ((6, 1, 10**6), (6, 2, 3000)):
            got, st = generate("Gen_Lifecycle", work, depth=depth, ports=ports)
            c.gstates += st[1]
            c.histories += [(h, "all histories" if ports == 1 else "histories on two ports") for h in c.rng.sample(got, min(take, len(got)))]
        got, st = generate("Gen_Lifecycle", work, depth=14, ports=2, simulate=c.n(60, 1500), seed=c.seed)
        c.histories += [(h, "long histories") for h in got]
    if c.pid == "C23":
        c.histories = []
        for d in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
            got, st = generate("Gen_Config", work, depth=d)
            c.gstates += st[1]
            c.histories += [(h, "all histories") for h in got]
        for d in (6, 14):
            got, st = generate("Gen_Config", work, depth=d, simulate=c.n(300, 4000), seed=c.seed)
            c.histories += [(h, "long histories") for h in got]


# ------------------------------------------------------------------ builds: C24
QUICK_BUILDS = ["bare", "default", "no_faithful", "no_cookies", "no_url_variables", "no_raw_headers"]
BUILDS = QUICK_BUILDS + ["no_query_strings", "no_extended_queries", "no_json"] + ["only_" + f for f in ALLF] + ["only_cookies+url_variables", "no_cookies+url_variables", "no_faithful+raw_headers", "only_faithful+extended_queries", "only_json+cookies+raw_headers"]


def ops_of(sc):
    for x in sc["app"]:
        for y in x["routes"] if x["k"] == "mount" else [x]:
            yield from y["prog"]


def paths_of(sc):
    for x in sc["app"]:
        for y in x["routes"] if x["k"] == "mount" else [x]:
            yield bytes(y["p"])


def plain_queries(sc):
    """every request has a query, without empty names"""
    for cn in sc["conns"]:
        t = bytes(cn["bytes"]).split(b"\r\n")[0].split(b" ")
        if len(t) != 3 or b"?" not in t[1]:
            return False
        if any(not q or q.startswith(b"=") for q in t[1].split(b"?", 1)[1].split(b"&")):
            return False
    return True


def suits(sc, has):
    """the scenario as a program could be written for a build with these features, or nothing"""
    os_ = [o["o"] for o in ops_of(sc)]
    if "cookies" not in has and ("cookie" in os_ or "craw" in os_):
        return None
    if "json" not in has and "json" in os_:
        return None
    if "url_variables" not in has and any(seg.startswith(b":") for x in paths_of(sc) for seg in x.split(b"/")):
        return None
    gone = set()
    if "cookies" not in has:
        gone.add("ck")
    if "raw_headers" not in has:
        gone.add("raw")
    if "url_variables" not in has:
        gone.add("vars")
    if "extended_queries" not in has:
        gone.add("xq")
    if "faithful" not in has and not plain_queries(sc):
        gone |= {"q", "xq"}
    return dict(sc, view=[v for v in sc["view"] if v not in gone])


def literal(sc):
    """the same application with every variable replaced by what the request has in its place"""
    t = bytes(sc["conns"][0]["bytes"]).split(b"\r\n")[0].split(b" ")
    segs = [x for x in t[1].split(b"?")[0].split(b"/") if x] if len(t) > 1 else []

    def one(x):
        if x["k"] == "mount":
            return dict(x, routes=[one(y) for y in x["routes"]])
        out, i = [], 0
        for q in bytes(x["p"]).split(b"/"):
            if q.startswith(b":"):
                q = segs[i] if i < len(segs) and segs[i] not in (b".", b"..") and not segs[i].startswith(b":") else b"lit"
            if q:
                i += 1
            out.append(q)
        return dict(x, p=bts(b"/".join(out)))
    return dict(sc, app=[one(x) for x in sc["app"]])


def c24(c):
    r = c.rng
    for pid in ["C%02d" % i for i in range(1, 21)]:
        sub = Corpus(pid, c.seed, False)
        globals()[pid.lower()](sub)
        its = [it for it in sub.items if it.dim not in ("long pause", "bursts") and not it.sc.get("tls") and not it.sc.get("manual")
               and sum(cn["tail"][1] if cn["tail"] else len(cn["bytes"]) for cn in it.sc["conns"]) < 30000 and len(it.sc["conns"]) < 15 and len(it.sc["app"]) < 40]
        r.shuffle(its)
        # half of them such that every build can run them
        plain = [it for it in its if suits(it.sc, set()) is not None]
        k = c.n(60, 250)
        for it in plain[:k // 2] + its[:k - min(k // 2, len(plain))]:
            sc = dict(it.sc)
            sc.pop("main", None)
            # see everything there is to see
            sc["view"] = ECHO if pid not in ("C18", "C19") else sc["view"]
            c.add(sc, dim="as in " + pid)
        if pid in ("C01", "C02", "C03", "C04", "C05"):
            for it in r.sample(its, min(len(its), c.n(120, 1200))):
                sc = literal(it.sc)
                sc.pop("main", None)
                c.add(sc, dim="literal routes, as in " + pid)


# ------------------------------------------------------------------ one client after the other
def joinable(sc):
    """a client that comes, asks, gets its answer and goes"""
    if len(sc.get("conns", ())) != 1 or any(sc.get(k) for k in ("manual", "fchunk", "afaults", "xc")) or len(sc["app"]) > 40:
        return False
    cn = sc["conns"][0]
    if cn["tail"] or len(cn["bytes"]) > 6000 or any(cn.get(k) for k in ("loose", "rfault", "wfault", "port")):
        return False
    if any(st["do"] not in ("open", "send", "half", "finish", "readn") for st in sc["steps"]) or len(sc["steps"]) > 60:
        return False
    return not any(o["o"] in ("gate", "panic", "fput", "fgrow", "frm") for o in ops_of(sc)) and sc["steps"][-1]["do"] == "finish"


def in_turn(base, parts):
    """the server of `base`, asked by the clients of `parts` one after the other"""
    conns, steps = [], []
    for sc in parts:
        conns.append(sc["conns"][0])
        steps += [dict(st, c=len(conns)) for st in sc["steps"]]
    out = dict(base, conns=conns, steps=steps, seq=True, gens=[list(g) for g in {tuple(g) for sc in [base] + parts for g in sc["gens"]}])
    out.pop("main", None)
    return out


def varied(r, sc):
    """nearly the same request"""
    raw = bytes(sc["conns"][0]["bytes"])
    line, sep, rest = raw.partition(b"\r\n")
    w = line.split(b" ")
    if len(w) == 3 and w[1]:
        k = r.randrange(5)
        if k == 0:
            w[0] = r.choice(METHODS).encode()
        elif k == 1:
            w[1] = w[1] + b"/x"
        elif k == 2 and len(w[1]) > 1:
            w[1] = w[1][:-1] + (b"z" if w[1][-1:] != b"z" else b"y")
        elif k == 3:
            w[1] = w[1].split(b"?")[0] + b"?other=1"
        else:
            segs = w[1].split(b"/")
            i = r.randrange(len(segs))
            segs[i] = segs[i][::-1] if b"%" not in segs[i] and segs[i].isascii() else segs[i]
            w[1] = b"/".join(segs) or b"/"
    return dict(sc, conns=[dict(sc["conns"][0], bytes=bts(b" ".join(w) + sep + rest))], steps=play(1, any(st["do"] == "half" for st in sc["steps"])))


def under(sc, j):
    """the same application and client below /p<j>; only for applications with handlers for / and global ones"""
    raw = bytes(sc["conns"][0]["bytes"])
    line, sep, rest = raw.partition(b"\r\n")
    w = line.split(b" ")
    if len(w) != 3 or w[1] != b"/" or any(x["k"] == "mount" or x["p"] not in ([], bts("/")) for x in sc["app"]) or any(st.get("n") for st in sc["steps"]):
        return None
    at = bts("/p%d" % j)
    w[1] = bytes(at)
    return (dict(sc, conns=[dict(sc["conns"][0], bytes=bts(b" ".join(w) + sep + rest))]),
            [dict(x, k="all" if x["k"] == "use" else x["k"], p=at, h=x["h"] + 100 * j) for x in sc["app"]])


TURNS = {"C%02d" % i for i in list(range(1, 18)) + [20, 21]}


def all_kinds(c, k):
    """items of every other property's corpus"""
    out = []
    for pid in ["C%02d" % i for i in range(1, 18)] + ["C20"]:
        sub = Corpus(pid, c.seed, False)
        globals()[pid.lower()](sub)
        its = [it for it in sub.items if joinable(it.sc)]
        out += random.Random("kinds/%s/%s" % (pid, c.seed)).sample(its, min(k, len(its)))
    return out


def turns(c, n, pool=None, twinned=False, refs=False):
    """sequences of clients on one server, each as it would be alone"""
    def put(sc):
        ref = None
        if refs:
            sc["view"] = ECHO
            ref = []
            for i, cn in enumerate(sc["conns"]):
                one = dict(sc, conns=[cn], steps=[dict(st, c=1) for st in sc["steps"] if st["c"] == i + 1])
                one.pop("seq")
                ref.append(one)
        c.add(sc, ref=ref, dim="one after the other")
    r = random.Random("turns/%s/%s/%s" % (c.pid, c.seed, c.thorough))
    pool = [it for it in pool if joinable(it.sc)]
    if twinned:
        pool = [it for it in pool if len(it.twins) == 1 and list(it.twins[0][1]) == [(1, 1)] and joinable(it.twins[0][0])]
    if not pool:
        return
    near = {}
    for it in pool:
        near.setdefault(json.dumps(it.sc["app"]), []).append(it)
    big = [v for v in near.values() if len(v) > 1]
    for t in range(n):
        it = r.choice(pool)
        if big and r.random() < .5:
            it = r.choice(r.choice(big))
        same = near[json.dumps(it.sc["app"])]
        k = r.choice([2, 2, 3, 4, 6])
        if twinned:
            # the twin's application and files are those of the twin
            its = [r.choice(same) if r.random() < .6 else it for _ in range(k)]
            its = [x for x in its if x.twins[0][0]["app"] == it.twins[0][0]["app"] and x.sc["files"] == it.sc["files"] and x.sc["view"] == it.sc["view"]]
            if len(its) < 2:
                continue
            a, b = in_turn(it.sc, [x.sc for x in its]), in_turn(it.twins[0][0], [x.twins[0][0] for x in its])
            c.add(a, twins=[(b, [(i + 1, i + 1) for i in range(len(its))])], dim="one after the other")
            continue
        if pool[0].sc["files"] and r.random() < .6:
            # several programs in one application
            got = [(x, under(x.sc, j)) for j, x in enumerate(r.sample(pool, min(len(pool), k))) if x.sc["files"] == it.sc["files"]]
            got = [(x, u) for x, u in got if u]
            if len(got) >= 2:
                base = dict(it.sc, app=[y for _, (_, a) in got for y in a], view=it.sc["view"])
                parts = [u[0] for _, u in got]
                parts = parts + [r.choice(parts) for _ in range(r.randrange(3))]
                put(in_turn(base, parts))
                continue
        parts = []
        for _ in range(k):
            q = r.random()
            x = it if q < .35 else r.choice(same) if q < .6 else r.choice(pool)
            parts.append(varied(r, it.sc) if .35 <= q < .5 and c.pid in ("C01", "C02", "C05", "C18") else x.sc)
        if not any(x is it.sc for x in parts):
            parts[r.randrange(k)] = it.sc
        put(in_turn(it.sc, parts))


VARIANTS = {"C21": ["use_openssl", "use_rustls"], "C24": ["full"]}


def fill(c, variant, work):
    prepare(c, work)
    globals()[c.pid.lower()](c)
    if c.pid in TURNS:
        turns(c, c.n(150, 2000), list(c.items), twinned=c.pid in ("C03", "C04", "C07", "C21"))
    if c.pid == "C18":
        turns(c, c.n(300, 4000), all_kinds(c, c.n(60, 400)), refs=True)
