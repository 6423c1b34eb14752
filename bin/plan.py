"""Which stages decide which property."""


def scripts(r, name, kind, quick, thorough=20000):
    r.cover("AdhocGen", "AdhocGen%s.cfg" % name, "adhoc:" + kind, "AdhocTrace", limit=r.quick(quick, thorough))


def design(r):
    r.model("AdhocDesign")
    r.model("AdhocDesign", "AdhocDesign2.cfg")
    r.model("AdhocDesign", "AdhocDesign3.cfg", quick=False, cover=False)


def c01(r):
    design(r)
    scripts(r, "Data", "0", 2000)
    r.random([("fidelity:0", 1000, 40000), ("frames:0", 40, 2000), ("long:1", 8, 10), ("deep:lossless", 8, 60), ("broad:lossless", 3, 30)], "AdhocTrace")
    r.random([("giant:read", 4, 40), ("giant:allbits", 0, 1)], "GiantTrace")


def c02(r):
    scripts(r, "Data", "n", 2000)
    r.random([("fidelity:n", 1000, 40000), ("frames:n", 40, 2000), ("deep:lossy", 8, 60), ("broad:lossy", 3, 30)], "AdhocTrace")


def c03(r):
    design(r)
    scripts(r, "Read", "reading", 3000)
    r.random([("reading", 1200, 20000), ("deep:data", 8, 60), ("broad:data", 3, 30)], "AdhocTrace")
    r.random("giant:read", "GiantTrace", 4, 40)


def c04(r):
    design(r)
    scripts(r, "Count", "counting", 3000)
    r.random([("counting", 1200, 20000), ("long:0", 10, 10), ("deep:count", 8, 60), ("broad:count", 3, 30)], "AdhocTrace")
    r.random([("giant:count", 4, 40), ("giant:bits", 0, 1)], "GiantTrace")


def c05(r):
    design(r)
    scripts(r, "Save", "saving", 3000)
    r.random([("saving", 1200, 20000), ("deep:save", 8, 60), ("broad:save", 3, 30)], "AdhocTrace")
    r.random([("giant:save", 4, 40), ("giant:allbits", 0, 1)], "GiantTrace")


def c06(r):
    design(r)
    scripts(r, "Seek", "seeking", 4000)
    r.random([("seeking", 1200, 20000), ("deep:seek", 8, 60), ("broad:seek", 3, 30)], "AdhocTrace")
    r.random("giant:seek", "GiantTrace", 4, 40)
    r.random("giant:bits", "GiantTrace", 1, 8)


def c07(r):
    design(r)
    scripts(r, "Reuse", "reuse", 2500)
    scripts(r, "Reuse2", "reuse", 2500)
    r.random([("reuse", 1000, 20000), ("deep:reuse", 8, 60), ("broad:reuse", 3, 30)], "AdhocTrace")


def c08(r):
    r.random([("sizes", 800, 10000), ("deep:size", 8, 60), ("broad:size", 3, 30)], "AdhocTrace")
    r.random("giant:size", "GiantTrace", 4, 40)
    r.random([("wsizes", 500, 4000), ("wdeep:size", 6, 60)], "WavTrace")
    r.random("giant:wsize", "GiantTrace", 4, 40)


def c09(r):
    r.cover("Damage", "Damage1.cfg", "damage", "DamageTrace")
    r.cover("Damage", "Damage2.cfg", "damage", "DamageTrace", limit=r.quick(2500, 100000))
    r.random("damage", "DamageTrace", 600, 40000)


def c10(r):
    r.random([("written:1", 400, 10000), ("foreign", 400, 10000), ("flong:1", 8, 300)], "FormatTrace")


def c11(r):
    r.random([("written:2", 400, 10000), ("flong:2", 24, 600)], "FormatTrace")


def c12(r):
    r.random([("wsaving", 1600, 20000), ("wdeep:save", 6, 60)], "WavTrace")
    r.random("giant:wsave", "GiantTrace", 4, 40)


def c13(r):
    r.model("WavDesign")
    r.model("WavDesign", "WavDesign3.cfg")
    r.cover("WavGen", "WavGenArray.cfg", "wav:array", "WavTrace")
    r.cover("WavGen", "WavGenArray1.cfg", "wav:array", "WavTrace")
    r.random([("warray", 1600, 20000), ("wdeep:array", 6, 60)], "WavTrace")
    r.random("giant:warray", "GiantTrace", 4, 40)


def c14(r):
    r.model("WavDesign")
    r.model("WavDesign", "WavDesign3.cfg")
    r.cover("WavGen", "WavGenSeek.cfg", "wav:seek", "WavTrace")
    r.random([("wseeking", 1600, 20000), ("wdeep:seek", 6, 60)], "WavTrace")
    r.random("giant:wseek", "GiantTrace", 4, 40)


def c15(r):
    r.random([("wforeign", 2000, 20000), ("wbroken", 1600, 20000), ("wfar", 4, 60)], "WavTrace")


def c16(r):
    r.model("TransferImpl")
    r.cover("TransferGen", "TransferGen.cfg", "transfer", "TransferTrace")
    r.cover("TransferGen", "TransferGen5.cfg", "transfer", "TransferTrace", quick=False)
    r.random("transfer", "TransferTrace", 600, 10000)


def c17(r):
    r.model("CliPool")
    r.cover("CliGen", "CliGen.cfg", "cli", "CliTrace", limit=r.quick(1500, 22608))
    r.random("cli", "CliTrace", 300, 6000)


def c18(r):
    r.model("BitStreamImpl", "BitStreamImpl.cfg")
    r.model("BitStreamImpl", "BitStreamImpl3.cfg", quick=False)
    r.cover("BitStreamGen", "BitStreamGen.cfg", "bits", "BitStreamTrace", limit=r.quick(1500, 24086))
    r.random("coll:bits", "BitStreamTrace", 1200, 8000)
    r.random("huge:bits", "HugeTrace", 8, 80)


def c19(r):
    r.random("sweep", "RiceCodeTrace", 480, 480)
    r.random("rice", "RiceCodeTrace", 2400, 40000)


def c20(r):
    r.model("PackedListImpl")
    r.cover("PackedListGen", "PackedListGenBits.cfg", "bitvec", "PackedListTrace", limit=r.quick(1500, 10369))
    r.cover("PackedListGen", "PackedListGenNibbles.cfg", "nibble", "PackedListTrace", limit=r.quick(1500, 5654))
    r.random("coll:bitvec", "PackedListTrace", 150, 4000)
    r.random("coll:nibble", "PackedListTrace", 150, 4000)
    r.random([("huge:bitvec", 4, 40), ("huge:nibble", 4, 40)], "HugeTrace")


def c21(r):
    r.model("LinkedListImpl")
    r.model("LinkedListImpl", "LinkedListImpl5.cfg", quick=False)
    r.cover("LinkedListGen", "LinkedListGen.cfg", "list", "LinkedListTrace")
    r.cover("LinkedListGen", "LinkedListGen5.cfg", "list", "LinkedListTrace", quick=False)
    r.random("coll:list", "LinkedListTrace", 300, 10000)
    r.random("huge:list", "HugeTrace", 8, 80)


def c22(r):
    r.model("LruCacheImpl", "LruCacheImpl1.cfg")
    r.model("LruCacheImpl")
    for n in (1, 2):
        r.cover("LruCacheGen", "LruCacheGen%d.cfg" % n, "lru", "LruCacheTrace")
    r.cover("LruCacheGen", "LruCacheGen3.cfg", "lru", "LruCacheTrace", limit=r.quick(1200, 5720))
    r.cover("LruCacheGen", "LruCacheGen4.cfg", "lru", "LruCacheTrace", quick=False, limit=30000)
    r.random("coll:lru", "LruCacheTrace", 300, 10000)
    r.random("huge:lru", "HugeTrace", 8, 80)


def c23(r):
    r.model("RingBufferImpl")
    r.cover("RingBufferGen", "RingBufferGen.cfg", "ring", "RingBufferTrace", limit=r.quick(2500, 7140))
    r.random("coll:ring", "RingBufferTrace", 300, 10000)
    r.random("huge:ring", "HugeTrace", 8, 80)
    r.random("eons:ring", "RingBufferTrace", 2, 16)


def c24(r):
    r.model("HistoryStackImpl")
    r.cover("HistoryStackGen", "HistoryStackGen.cfg", "stack", "HistoryStackTrace")
    r.cover("HistoryStackGen", "HistoryStackGenAll.cfg", "stack", "HistoryStackTrace")
    r.random([("coll:stack", 300, 10000), ("eons:stack", 2, 16)], "HistoryStackTrace")


def c25(r):
    r.random("twin:all", "TwinTrace", 7000, 100000)
    r.random("rhuge:all", "HugeTrace", 12, 120)


def c26(r):
    r.random("replicas", "ReplicaTrace", 400, 10000)


def c27(r):
    r.random([("noise", 400, 4000), ("tables", 16, 16), ("period", 8, 64)], "NoiseTrace")


def c28(r):
    r.random("signals", "SignalTrace", 2000, 40000)


def c29(r):
    r.cover("AdhocSetupGen", "AdhocSetupGen.cfg", "adhoc:setup", "AdhocTrace", limit=r.quick(2500, 20000))
    r.cover("AdhocSetupGen", "AdhocSetupGen7.cfg", "adhoc:setup", "AdhocTrace", quick=False, limit=30000)
    r.random("setup", "AdhocTrace", 1000, 20000)


def c30(r):
    r.model("Transcode", cover=False)
    r.random("transcode", "TranscodeTrace", 500, 12000)


P = {"private": True}
PLAN = {
    "C01": (c01, {}),
    "C02": (c02, {}),
    "C03": (c03, {}),
    "C04": (c04, {}),
    "C05": (c05, {}),
    "C06": (c06, {}),
    "C07": (c07, {}),
    "C08": (c08, {}),
    "C09": (c09, {}),
    "C10": (c10, {}),
    "C11": (c11, {}),
    "C12": (c12, {}),
    "C13": (c13, {}),
    "C14": (c14, {}),
    "C15": (c15, {}),
    "C16": (c16, {}),
    "C17": (c17, {"cli": True}),
    "C18": (c18, P),
    "C19": (c19, P),
    "C20": (c20, P),
    "C21": (c21, P),
    "C22": (c22, P),
    "C23": (c23, P),
    "C24": (c24, P),
    "C25": (c25, P),
    "C26": (c26, {}),
    "C27": (c27, P),
    "C28": (c28, P),
    "C29": (c29, {}),
    "C30": (c30, {}),
}
