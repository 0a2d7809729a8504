"""Which specification, generator and driver decides which property."""
import random

PROPERTIES = {}
AREAS = {}
NOT_APPLICABLE = {}


class Area:
    assumptions = []
    technique = "TLA+ specification: TLC model checking, TLC-generated programs, TLC trace validation of the real code"
    level_note = ("The design is checked exhaustively within small constants; the code is bound to it by validating "
                  "recorded traces of TLC-generated and enumerated programs, so it is decided for those executions. "
                  "Trusts TLC, the driver's observations and the stand-ins for third-party crates.")

    def packages(self, ctx):
        return []

    def models(self, ctx):
        return []

    def programs(self, ctx):
        return {}

    def traces(self, ctx, traces):
        return {self.trace_module: traces}

    def label(self, e):
        return e["e"]

    def required(self, ctx):
        return []


def area(name, *props):
    def reg(cls):
        AREAS[name] = cls()
        for p in props:
            PROPERTIES[p] = name
        return cls
    return reg


@area("store", "S01", "S02", "S03", "S04", "S05", "S06")
class Store(Area):
    nets = ("S02", "S03", "S06")
    assumptions = [
        "SQLite is the system library behind a thin rusqlite stand-in",
        "a kill ends the process between two database statements; power loss is not modelled",
    ]

    def packages(self, ctx):
        return ["drv-store"] + (["drv-sub"] if ctx.prop in self.nets else [])

    def models(self, ctx):
        res = [("StoreMC", "StoreMC.cfg" if ctx.tier == "quick" else "StoreMCdeep.cfg")]
        if ctx.prop in self.nets:
            res.append(("WantsMC", "WantsMC.cfg" if ctx.tier == "quick" else "WantsMCdeep.cfg"))
        return res

    def programs(self, ctx):
        rnd = random.Random(ctx.seed)
        big = ctx.tier != "quick"
        progs = []
        n = 400 if not big else 4000
        for cfg, extra, num in (("StoreGen.cfg", 750, n), ("StoreGenEqual.cfg", 500, n // 2), ("StoreGenPlain.cfg", 0, n // 4)):
            for h in ctx.simulate("StoreMC", cfg, num, 14):
                h[0]["extra"] = extra
                progs.append(h)
        out = []
        if ctx.prop == "S05":
            progs = rnd.sample(progs, min(len(progs), 45 if not big else 400))
            for p in progs:
                last = [i for i, o in enumerate(p) if o["op"] in ("insert", "delete", "open") and i > 2]
                i = rnd.choice(last[-6:])
                out.append({"ops": p[:i + 1], "crash": True})
                cap = [o for o in p if o["op"] in ("init", "open")][-1]
                for how in ("node", "newer", "older"):
                    out.append({"ops": p + [{"op": "foreign", "how": how, "byte": rnd.randrange(4),
                                             "cap": cap["cap"], "maxR": cap["maxR"]}]})
        else:
            for p in progs:
                q = []
                for o in p:
                    q.append(o)
                    if ctx.prop == "S06" and p[0]["kind"] != "plain" and rnd.random() < 0.3:
                        q.append({"op": "page"})
                out.append({"ops": q})
        # clean-ups of several batches: many small items, then something large, and a smaller capacity
        for items, n, cap, last in ((230, 0, 190000, 170000), (140, 10, 200000, 1500), (260, 3, 220000, 215000)):
            order = list(range(1, items + 3))
            dist = [16 * (37 * k % 9973) + k % 5 for k in order]
            ops = [{"op": "init", "kind": "radius", "extra": 750, "cap": cap, "maxR": 2000000, "dist": dist},
                   {"op": "fill", "from": 1, "to": items, "n": n},
                   {"op": "insert", "k": items + 1, "n": last, "g": 2},
                   {"op": "insert", "k": 5, "n": n, "g": 1}]
            if ctx.prop != "S05":
                if ctx.prop == "S06":
                    ops.append({"op": "page"})
                ops += [{"op": "open", "cap": 40000, "maxR": 2000000}, {"op": "insert", "k": 7, "n": 20, "g": 1}]
                out.append({"ops": ops})
            else:
                out.append({"ops": ops[:3], "crash": True})
                out.append({"ops": ops + [{"op": "open", "cap": 40000, "maxR": 2000000}], "crash": True})
        res = {"drv-store": out}
        if ctx.prop in self.nets:
            res["drv-sub"] = [{"mode": "wants", **p} for p in ctx.simulate("WantsGen", "WantsGen.cfg", 300 if not big else 3000, 32)]
        return res

    def traces(self, ctx, traces):
        wants = [t for t in traces if "salt" in t["cfg"]]
        res = {"StoreTrace": [t for t in traces if "salt" not in t["cfg"]]}
        if wants:
            res["WantsTrace"] = wants
        return res

    def label(self, e):
        x = e["e"]
        if x == "put":
            return x + (":ok" if e["ok"] else ":refused")
        if x == "insert":
            x += ":" + e["res"].split(":")[0]
            if e["ret"]:
                x += ":evict"
        if x == "foreign":
            x += ":" + e["how"]
        return x

    def required(self, ctx):
        if ctx.prop == "S05":
            return ["crash", "foreign:node", "foreign:newer", "foreign:older", "insert:ok"]
        return ["insert:ok", "insert:ok:evict", "insert:radius", "delete", "open"] + (["put:ok", "put:refused"] if ctx.prop in self.nets else [])


@area("query", "N02", "N03")
class Query(Area):
    assumptions = [
        "a lookup is driven through the interface its pool uses (poll, answer, failure, verdict) with a virtual clock",
        "no two peers are at the same distance from the target",
        "in the overlay service the time after which a peer is given up is not reached",
    ]

    def packages(self, ctx):
        return ["drv-net"]

    def models(self, ctx):
        if ctx.tier == "quick":
            return [("QueryMC", "QueryMC.cfg"), ("SeekMC", "SeekMC.cfg")]
        return [("QueryMC", "QueryMCdeep.cfg"), ("SeekMC", "SeekMC.cfg"), ("SeekMC", "SeekMCdeep.cfg")]

    def programs(self, ctx):
        cfg = "QueryGen.cfg" if ctx.prop == "N02" else "QueryGenContent.cfg"
        progs = ctx.simulate("QueryMC", cfg, 1500 if ctx.tier == "quick" else 15000, 40)
        seek = ctx.simulate("SeekGen", "SeekGen.cfg", 700 if ctx.tier == "quick" else 7000, 45)
        return {"drv-net": [{"mode": "query", "ops": p} for p in progs] + [{"mode": "seek", "ops": p} for p in seek]}

    def traces(self, ctx, traces):
        return {"QueryTrace": [t for t in traces if "tab" not in t["cfg"]], "SeekTrace": [t for t in traces if "tab" in t["cfg"]]}

    def label(self, e):
        return e["e"] + (":" + e["out"] if "out" in e else ":" + e["how"] if "how" in e else ":" + e["kind"] if "kind" in e else "")

    def required(self, ctx):
        need = ["look:nodes", "look:content", "look:trace", "reply:enrs", "reply:content", "reply:conn", "reply:error",
                "reply:garbled", "stream:value", "stream:broken", "stream:unopened", "del", "put"]
        need += ["nodes", "fail", "tick", "end", "poll:contact", "poll:capacity", "poll:finished"]
        if ctx.prop == "N03":
            need += ["content", "verdict", "poll:validate"]
        else:
            need.append("poll:wait")
        return need


@area("offers", "N01", "N04", "N05", "N06")
class Offers(Area):
    trace_module = "OffersTrace"
    assumptions = [
        "the discovery transport and the transfer streams are scripted stand-ins; the overlay service is the real one",
        "items are identified by key, quality and number; the validator's verdict depends on these only",
        "the two minute expiry of the list of running transfers is not reached",
    ]

    def packages(self, ctx):
        return ["drv-net"]

    def models(self, ctx):
        if ctx.tier == "quick":
            return [("OffersMC", "OffersMC.cfg")]
        return [("OffersMC", "OffersMCdeep.cfg"), ("OffersMC", "OffersMClook.cfg")]

    def programs(self, ctx):
        out = []
        for ops in ctx.simulate("OffersMC", "OffersGen.cfg", 800 if ctx.tier == "quick" else 2500, 24):
            # afterwards everything has to be acceptable and every slot free again
            ops = ops + [{"op": "drain"}]
            for k in (1, 2, 3, 5):
                ops += [{"op": "offer", "p": 2, "ks": [k]}, {"op": "drain"}]
            lim = ops[0]["c"]["lim"]
            ops += [{"op": "offer", "p": 3, "ks": [21 + i]} for i in range(lim + 1)] + [{"op": "drain"}]
            ops.append({"op": "plant", "k": 40, "v": {"k": 40, "q": "canon", "big": True, "n": 1}})
            ops += [{"op": "find", "p": 3, "k": 40}] * (lim + 1)
            out.append({"mode": "offers", "ops": ops})
        return {"drv-net": out}

    def label(self, e):
        return e["e"] + (":" + e["how"] if "how" in e else ":" + e["res"] if "res" in e else "")

    def required(self, ctx):
        return (["offer:codes", "offer:none", "lookup"]
                + ["recv:" + h for h in ("items", "broken", "garbled", "unopened")]
                + ["answer:" + h for h in ("content", "enrs", "conn", "error", "garbled")]
                + ["recvask:" + h for h in ("value", "two", "garbled", "broken", "unopened")]
                + ["find:" + h for h in ("content", "conn", "enrs", "none")]
                + ["take:" + h for h in ("codes", "badcodes", "garbled", "error")]
                + ["sent:" + h for h in ("ok", "unopened", "broken", "short", "unclosed")])


@area("table", "N07", "N08", "N09", "N11")
class Table(Area):
    assumptions = [
        "the discovery transport is a scripted stand-in, with a peer table written after the original's; the overlay service is the real one",
        "which waiting peer takes the place of one that is dropped from a full bucket is left to the discovery library",
    ]

    def packages(self, ctx):
        return ["drv-net"]

    def models(self, ctx):
        return [("TableMC", "TableMC.cfg" if ctx.tier == "quick" else "TableMCdeep.cfg")]

    def programs(self, ctx):
        big = ctx.tier != "quick"
        out = [{"mode": "table", "ops": p} for p in ctx.simulate("TableGen", "TableGen.cfg", 900 if not big else 9000, 46)]
        if ctx.prop == "N08":
            out += [{"mode": "gossip", "ops": p} for p in ctx.simulate("GossipGen", "GossipGen.cfg", 500 if not big else 5000, 11)]
        return {"drv-net": out}

    def traces(self, ctx, traces):
        batches = [t for t in traces if "net" not in t["cfg"]]
        res = {"TableTrace": [t for t in traces if "net" in t["cfg"]]}
        if batches:
            res["GossipTrace"] = batches
        return res

    def label(self, e):
        x = e["e"]
        if x == "ping":
            return x + ":" + e["res"]["kind"]
        if x == "gossip":
            return x + ":" + str(min(e["count"], 8))
        return x + (":" + e["what"] if "what" in e else ":" + e["res"] if "res" in e else "")

    def required(self, ctx):
        need = ["session", "add", "del", "tick", "radius", "lookup", "nodes:nodes", "done",
                "find:content", "find:conn", "find:enrs", "find:none", "gossip:0", "gossip:5", "gossip:8",
                "ping:caps", "ping:radius", "ping:history", "ping:error",
                "reply:pong", "reply:nodes", "reply:error", "reply:garbled"]
        return need + (["batch"] if ctx.prop == "N08" else [])


@area("dispatch", "N10")
class Dispatch(Area):
    trace_module = "DispatchTrace"
    assumptions = ["mainnet protocol identifiers"]

    def packages(self, ctx):
        return ["drv-net"]

    def models(self, ctx):
        return [("DispatchMC", "DispatchMC.cfg")]

    def programs(self, ctx):
        progs = ctx.simulate("DispatchMC", "DispatchGen.cfg", 600 if ctx.tier == "quick" else 20000, 14)
        return {"drv-net": [{"mode": "events", "ops": p} for p in progs]}

    def required(self, ctx):
        return ["burst"]


class Pure(Area):
    """Functions without state: TLC enumerates the inputs and judges every result."""
    mode = None
    batch = 50
    driver = "drv-pure"

    def packages(self, ctx):
        return [self.driver]

    def models(self, ctx):
        return [(self.base + "MC", self.base + "MC.cfg")]

    def programs(self, ctx):
        inputs = ctx.enumerate(self.base + "MC", self.base + "Gen.cfg")
        random.Random(ctx.seed).shuffle(inputs)
        return {self.driver: [{"mode": self.mode, "ops": inputs[i:i + self.batch]}
                             for i in range(0, len(inputs), self.batch)]}

    @property
    def trace_module(self):
        return self.base + "Trace"


@area("wire", "W01")
class Wire(Pure):
    base, mode = "Wire", "wire"
    assumptions = ["the LEB128 and bit-list crates are stand-ins written from their documentation"]

    def required(self, ctx):
        return ["items", "raw", "codes", "rawcodes"]


@area("versions", "W02")
class Versions(Pure):
    base, mode = "Versions", "versions"
    batch = 1  # a known finding ends the trace it occurs in
    assumptions = ["node records are unsigned stand-ins with the same key-value content"]

    def required(self, ctx):
        return ["negotiate"]


@area("keys", "W03")
class Keys(Pure):
    base, mode = "Keys", "keys"
    assumptions = ["the SSZ crates are stand-ins written from their documentation",
                   "SHA-256 is computed by a library the code uses too"]

    def label(self, e):
        return e["e"] + ":" + e["net"] if "net" in e else e["e"]

    def required(self, ctx):
        return [e + ":" + n for e in ("key", "rawkey") for n in ("headers", "blocks", "beacon", "state")]


@area("messages", "W04")
class Messages(Pure):
    base, mode = "Messages", "messages"
    batch = 200
    assumptions = ["the SSZ crates are stand-ins written from their documentation",
                   "node records are unsigned stand-ins; bytes that are none of the known records are not judged"]

    def label(self, e):
        return e["e"] + (":%d" % e["m"] if e["e"] == "msg" else "" if e["e"] == "panic" else "" if "res" not in e
                         else ":taken" if e["res"] else ":refused")

    def required(self, ctx):
        return ["msg:%d" % m for m in range(8)] + ["rawmsg:taken", "rawmsg:refused", "pay:taken", "pay:refused", "send", "info", "error"]


@area("blocks", "V07")
class Blocks(Pure):
    base, mode, driver = "Blocks", "blocks", "drv-sub"
    batch = 100
    assumptions = ["transactions and receipts are stand-ins with the shape of the real ones",
                   "the trie roots of lists are computed by a stand-in that is free of collisions",
                   "the network answers the question for a header with the header of that hash or not at all"]

    def label(self, e):
        return e["e"] + ("" if "ok" not in e else ":taken" if e["ok"] else ":refused")

    def required(self, ctx):
        return ["own", "other:refused"] + [e + r for e in ("body", "receipts", "head") for r in (":taken", ":refused")]


@area("shares", "S09")
class Shares(Pure):
    base, mode = "Shares", "shares"

    def required(self, ctx):
        return ["combined", "specific"]


@area("ranges", "C03")
class Ranges(Pure):
    base, mode = "Ranges", "ranges"

    def label(self, e):
        return e["e"] + (":" + e["how"] if "how" in e else "")

    def required(self, ctx):
        return ["split", "request:range", "request:snapshot", "request:malformed"]


@area("headers", "V02")
class Headers(Pure):
    base, mode = "Headers", "headers"
    assumptions = ["SHA-256 and Keccak-256 are free of collisions on the values that occur",
                   "the header type and its RLP coding are stand-ins written from the protocol's documentation"]

    def label(self, e):
        if e["e"] != "header":
            return e["e"]
        return "%s:%s" % (e["x"]["kind"], "accepted" if e["ok"] else "rejected")

    def required(self, ctx):
        return [k + ":" + r for k in ("hashes", "roots", "capella", "deneb") for r in ("accepted", "rejected")]


class Simulated(Area):
    """Programs drawn by TLC."""
    base = mode = gen = None
    driver = "drv-pure"
    depth = 20
    counts = (400, 4000)

    def packages(self, ctx):
        return [self.driver]

    def models(self, ctx):
        return [(self.base + "MC", self.base + ("MC.cfg" if ctx.tier == "quick" else "MCdeep.cfg"))]

    def programs(self, ctx):
        n = self.counts[0 if ctx.tier == "quick" else 1]
        made = ctx.simulate(self.gen or self.base + "MC", self.base + "Gen.cfg", n, self.depth)
        return {self.driver: [{"mode": self.mode, **(p if isinstance(p, dict) else {"ops": p})} for p in made]}

    @property
    def trace_module(self):
        return self.base + "Trace"


@area("direct", "N12")
class Direct(Simulated):
    base, mode, gen, driver, depth, counts = "Direct", "direct", "DirectGen", "drv-net", 36, (1500, 15000)
    assumptions = [
        "the discovery transport and the transfer streams are scripted stand-ins; the overlay service is the real one",
        "peers answer an offer with as many codes as items were offered",
    ]

    def label(self, e):
        if e["e"] == "call":
            return "call:" + e["kind"] + (":refused" if e["x"]["done"] else "")
        return e["e"] + ":" + e["how"] if "how" in e else e["e"]

    def required(self, ctx):
        return ["call:" + k for k in ("ping", "nodes", "content", "offer", "trace", "one", "ping:refused", "nodes:refused", "content:refused", "offer:refused")] + [
            "reply:" + h for h in ("ok", "error", "garbled", "cross", "badcodes")] + ["stream:" + h for h in ("ok", "short", "broken", "unclosed", "unopened")]


@area("forge", "V08")
class Forge(Pure):
    base, mode, driver, batch = "Forge", "forge", "drv-forge", 20
    assumptions = ["the SSZ, tree-hash, RLP and trie crates are stand-ins written from their documentation"]

    def label(self, e):
        return "panic" if e["e"] == "panic" else e["x"]["fork"] + (":made" if e["built"] else ":refused")

    def required(self, ctx):
        return [f + r for f in ("early", "bellatrix", "capella", "deneb", "electra") for r in (":made", ":refused")]


@area("bridge", "C04")
class Bridge(Simulated):
    base, mode, gen, driver, depth, counts = "Bridge", "bridge", "BridgeGen", "drv-bridge", 30, (400, 4000)
    assumptions = [
        "the consensus and execution nodes, the census and the overlay are scripted stand-ins; the bridge is the real one",
        "announcements are handled one after the other, each until all its offers have ended",
    ]

    def label(self, e):
        if e["e"] == "head":
            return "head:" + ("skewed" if e["view"] != e["b"] else "missing" if e["miss"] else "plain")
        return e["e"] + (":offered" if e["series"] or e["offers"] else ":nothing")

    def required(self, ctx):
        return ["head:plain", "head:skewed", "head:missing", "update:offered", "update:nothing", "final:offered", "final:nothing"]


@area("feed", "C05")
class Feed(Simulated):
    base, mode, gen, driver, depth, counts = "Feed", "feed", "FeedGen", "drv-feed", 22, (500, 5000)
    assumptions = [
        "the consensus node, the census and the overlay are scripted stand-ins; the bridge is the real one",
        "the node answers within the slot; the period does not end while a program runs",
    ]

    def label(self, e):
        kinds = {o["kind"] for o in e.get("offers", [])}
        return e["e"] + ":" + ("boot" if "boot" in kinds else "summaries" if "summaries" in kinds else "update" if "update" in kinds
                               else "finality" if "finality" in kinds else "optimistic" if kinds else "nothing")

    def required(self, ctx):
        return ["slot:boot", "slot:summaries", "slot:update", "slot:finality", "slot:optimistic", "slot:nothing", "end:nothing"]


@area("haul", "C06")
class Haul(Simulated):
    base, mode, gen, driver, depth, counts = "Haul", "haul", "HaulGen", "drv-haul", 1, (600, 8000)
    assumptions = [
        "the archives, the census and the overlay are scripted stand-ins; the bridge and its checks of blocks are the real ones",
        "blocks with a valid proof are some of the first epoch, from an archive among the test data, and those whose proof the bridge does not look at",
    ]

    def label(self, e):
        return e["e"] + ":" + e.get("kind", e.get("out", ""))

    def required(self, ctx):
        return ["begin:hash", "begin:number", "begin:body", "begin:receipts", "told:ok", "told:declined", "told:failed", "done:"]


@area("walk", "V09")
class Walk(Simulated):
    base, mode, gen, driver, depth, counts = "Walk", "walk", "WalkGen", "drv-walk", 1, (2000, 20000)
    assumptions = ["keys differ in their first four nibbles; no node is so short that it lies within its parent"]

    def label(self, e):
        return e["e"] + (":deep" if e["e"] == "node" and len(e["path"]) > 2 else "")

    def required(self, ctx):
        return ["node", "node:deep", "refused", "done"]


@area("head", "V01")
class Head(Simulated):
    base, mode, depth = "Head", "head", 15

    def required(self, ctx):
        return ["update", "optimistic", "finality", "summaries", "burst"]


@area("summaries", "V05")
class Summaries(Simulated):
    base, mode, depth = "Summaries", "summaries", 25

    def label(self, e):
        if e["e"] == "ask":
            return "ask:" + ("wait" if not e["done"] else "given" if e["done"][0]["ok"] else "refused")
        if e["e"] == "answer":
            return "answer:" + (e["how"] if e["f"] >= 0 else "nothing")
        return e["e"]

    def required(self, ctx):
        return ["ask:wait", "ask:given", "ask:refused", "answer:list", "answer:cut", "answer:text", "answer:error", "answer:drop"]


@area("light", "L01", "L02", "L03")
class Light(Simulated):
    base, mode, gen, driver, depth, counts = "Light", "light", "LightGen", "drv-sub", 18, (800, 8000)
    assumptions = ["aggregate signatures are symbolic: one is valid exactly for the message and the keys it was made of",
                   "SHA-256 is free of collisions on the terms that occur"]

    def label(self, e):
        if e["e"] == "sync":
            if e["ok"]:
                return "sync:whole"
            return "sync:" + (e["boot"]["fault"] or str(len(e["served"])))
        if e["asked"]:
            return "advance:asked"
        if len(e["served"]) != 1:
            return "advance:%d" % len(e["served"])
        return "advance:" + e["served"][0]["kind"] + ":" + e["served"][0]["fault"]

    def required(self, ctx):
        return ["sync:3", "sync:whole", "sync:header", "sync:proof", "sync:place", "sync:other", "sync:future", "advance:2", "advance:asked",
                "advance:finality:", "advance:optimistic:", "advance:finality:finproof", "advance:optimistic:set"]


@area("beacon", "S07")
class Beacon(Simulated):
    base, mode, gen, driver, depth, counts = "Beacon", "beacon", "BeaconGen", "drv-sub", 32, (500, 6000)
    assumptions = ["SQLite is the system library behind a thin rusqlite stand-in"]

    def label(self, e):
        if e["e"] == "put":
            return "put:" + e["kind"] + (":broken" if e["fault"] else "")
        if e["e"] == "get":
            return "get:" + e["kind"] + (":got" if e["got"] else ":none")
        if e["e"] == "want":
            return "want:" + e["kind"] + ":" + e["out"]
        return e["e"]

    def required(self, ctx):
        kinds = ["boot", "range", "fin", "opt", "sum"]
        return (["put:" + k for k in kinds] + ["get:" + k + ":got" for k in kinds] + ["get:" + k + ":none" for k in kinds]
                + ["want:" + k + ":stored" for k in kinds] + ["put:boot:broken", "restart", "prune", "latest"])


@area("bvalid", "V06")
class BeaconValid(Simulated):
    base, mode, gen, driver, depth, counts = "BeaconValid", "bvalid", "BeaconValidGen", "drv-sub", 18, (600, 8000)
    assumptions = ["aggregate signatures are symbolic: one is valid exactly for the message and the keys it was made of",
                   "SHA-256 is free of collisions on the terms that occur"]

    def label(self, e):
        return e["e"] + ":" + ("known" if e["known"] else "unknown") + ":" + e["out"]

    def required(self, ctx):
        return [k + ":" + n + ":" + r for k in ["boot", "range", "fin", "opt", "sum"] for n in ["known", "unknown"] for r in ["canonical", "invalid"]]


@area("trie", "V04")
class Trie(Simulated):
    base, mode, gen, driver, depth, counts = "Trie", "trie", "TrieGen", "drv-sub", 400, (600, 8000)
    assumptions = ["Keccak-256 is free of collisions on the nodes that occur", "trie nodes are decoded by a stand-in for eth_trie"]

    def label(self, e):
        return e["kind"] + ":" + e["form"] + ":" + e["out"]

    def required(self, ctx):
        kinds = ["account", "storage", "code"]
        return ([k + ":proof:canonical" for k in kinds] + [k + ":proof:invalid" for k in kinds]
                + [k + ":bare:valid" for k in kinds] + [k + ":bare:invalid" for k in kinds] + [k + ":kind:invalid" for k in kinds])


@area("census", "C01", "C02")
class Census(Simulated):
    base, mode, gen, driver, depth, counts = "Census", "census", "CensusGen", "drv-census", 60, (700, 7000)
    assumptions = ["the networks around the census are a script and time is virtual",
                   "the window of fifteen minutes within which results count never ends during a run"]

    def models(self, ctx):
        d = "" if ctx.tier == "quick" else "deep"
        return [("CensusMC", "CensusMC" + d + ".cfg"), ("CensusMC", "CensusMCtwo" + d + ".cfg")]

    def label(self, e):
        if e["e"] in ("ping", "fetch"):
            return e["e"] + ":" + e["out"]
        if e["e"] == "offer":
            return "offer:" + e["how"]
        if e["e"] == "select":
            return "select:" + ("all" if e["key"] < 0 else "key") + ("" if e["ok"] else ":none")
        return e["e"]

    def required(self, ctx):
        return (["ping:" + x for x in ["ok", "down", "odd", "noise"]] + ["fetch:rec", "fetch:none", "init", "tick", "find", "draw", "measure"]
                + ["offer:" + x for x in ["ok", "fail", "stored", "limited", "far", "declined"]] + ["select:all", "select:key", "select:all:none"])


@area("archive", "E01")
class Archive(Simulated):
    base, mode, gen, driver, depth, counts = "Archive", "archive", "ArchiveGen", "drv-arch", 20, (500, 6000)

    def label(self, e):
        if e["e"] == "big":
            return "big:%d" % e["sizes"][0]
        if e["e"] != "file":
            return e["e"]
        kind = "intact" if e["raw"] == e["mem"] else "damaged" if not e["ok"] else "altered"
        return kind + (":some" if e["streamed"] else ":none")

    def required(self, ctx):
        return ["intact:some", "intact:none", "damaged:some", "damaged:none", "altered:some", "big:65536", "big:16777221"]


@area("vault", "E02")
class Vault(Simulated):
    base, mode, gen, driver, depth, counts = "Vault", "vault", "VaultGen", "drv-arch", 400, (40, 300)
    assumptions = ["values are stored in snappy frames without compression"]

    def label(self, e):
        if e["e"] == "loose":
            return e["e"]
        if e["e"] == "snapshot":
            return "snapshot:" + ("finished" if e["finished"] else "open")
        return e["e"] + (":" + e["how"] if "how" in e else "") + (":ok" if e.get("ok") else ":refused")

    def required(self, ctx):
        return ["history:writer:ok", "history:writer:refused", "history:memory:ok", "old:ok", "composed:composed:refused", "loose", "snapshot:finished", "snapshot:open"]


@area("cells", "S08")
class Cells(Simulated):
    base, mode, gen, driver, depth, counts = "Cells", "cells", "CellsGen", "drv-sub", 40, (500, 6000)
    assumptions = ["SQLite is the system library behind a thin rusqlite stand-in"]

    def label(self, e):
        if e["e"] == "put":
            return "put:" + e["form"] + (":ok" if e["ok"] else ":refused")
        return e["e"] + (":" + str(e["out"]) if "out" in e else "")

    def required(self, ctx):
        return (["put:proof:ok", "put:proof:refused"] + ["put:" + f + ":refused" for f in ["bare", "kind", "cut", "none", "noise"]]
                + ["get:0", "get:1", "want:store", "want:stored", "want:far", "list", "restart"])


@area("merkle", "V03")
class Merkle(Area):
    trace_module = "MerkleTrace"
    assumptions = ["SHA-256 is free of collisions on the terms that occur"]

    def packages(self, ctx):
        return ["drv-pure"]

    def models(self, ctx):
        return [("MerkleMC", "MerkleMC.cfg" if ctx.tier == "quick" else "MerkleMCdeep.cfg")]

    def programs(self, ctx):
        progs = ctx.simulate("MerkleMC", "MerkleGen.cfg", 70 if ctx.tier == "quick" else 5000, 16)
        return {"drv-pure": [{"mode": "merkle", "ops": p} for p in progs]}

    def required(self, ctx):
        return ["create", "push", "finalize", "snapshot", "proof", "verify"]
