"""Registry of the abstract-interpretation units."""
from ai import unit
K = "lib/high/Keccak/"
for tag, defs, tgt, tier in (("", (), "x86_64", "quick"), ("@fast", ("MODEL_FASTLOOP",), "x86_64", "quick"), ("@32", (), "i686", "quick"), ("@32fast", ("MODEL_FASTLOOP",), "i686", "quick")):
    unit("sponge" + tag, [K + "KeccakSponge.c"], ["snp/sponge_monitor.c"], "client/sponge.c", ["client", "client_oneshot"], {"P01", "P02", "P04", "P05", "P06", "P10"},
         defs=defs, target=tgt, tier=tier, reach=("absorb", "squeeze", "suffix", "oneshot"))
for tag, tgt in (("", "x86_64"), ("@32", "i686")):
    unit("duplex" + tag, [K + "KeccakDuplex.c"], ["snp/duplex_monitor.c"], "client/duplex.c", ["client"], {"P01", "P02", "P04", "P06", "P10"}, target=tgt)
unit("turboshake", ["lib/high/TurboSHAKE/TurboSHAKE.c"], ["snp/sponge_monitor.c"], "client/turboshake.c", ["client", "client_oneshot"], {"P01", "P02", "P04", "P05", "P06", "P10"}, reach=("absorb", "squeeze", "domain", "oneshot"))
unit("turboshake@fast", ["lib/high/TurboSHAKE/TurboSHAKE.c"], ["snp/sponge_monitor.c"], "client/turboshake.c", ["client", "client_oneshot"], {"P01", "P02", "P04", "P05", "P06", "P10"}, defs=("MODEL_FASTLOOP",), reach=("absorb", "squeeze", "domain", "oneshot"))
FIPS = [K + "FIPS202/KeccakHash.c", K + "FIPS202/SimpleFIPS202.c"]
FR = ("SHAKE128", "SHAKE256", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512", "Keccak_HashInitialize", "Keccak_HashUpdate", "Keccak_HashUpdate (bits)", "Keccak_HashFinal", "Keccak_HashSqueeze", "initialize")
FE = ["client_simple", "client_hash_xof", "client_hash_sha3", "client_init"]
for tag, tgt in (("", "x86_64"), ("@32", "i686")):
    unit("fips202" + tag, FIPS, ["sponge/contract.c"], "client/fips202.c", FE, {"P01", "P02", "P05", "P06", "P09", "P20"}, inc=("snp", "sponge"), defs=("NOPOS",), target=tgt, reach=FR)
unit("fips202@fail", FIPS, ["sponge/contract.c"], "client/fips202.c", FE, {"P08"}, inc=("snp", "sponge"), defs=("NOPOS", "MODEL_FAIL"), reach=FR)
SP8 = [K + "SP800-185/SP800-185.c"]
for fn, ents in (("cSHAKE", ["client_init", "client_init2", "client_plain", "client_plain_fixed", "client_plain_bits", "client_custom", "client_custom_fixed", "client_custom_bits", "client_partial", "client_oneshot", "client_oneshot2"]), ("KMAC", ["client_init1", "client_init2", "client_init3", "client_init4", "client_stream", "client_stream_fixed", "client_stream_bits", "client_oneshot"]), ("TupleHash", ["client_init", "client_two", "client_stream", "client_stream_fixed", "client_stream_bits", "client_oneshot"])):
    for sec in ("128", "256"):
        for tag, tgt in (("", "x86_64"), ("@32", "i686")):
            unit(f"{fn}{sec}{tag}", SP8, ["sponge/contract.c"], "client/sp800.c", ents, {"P01", "P02", "P05", "P06", "P09", "P14", "P20"}, inc=("snp", "sponge"), defs=("FN_" + fn, "SEC=" + sec), target=tgt, opts=("-retcap", "20", "-cap", "24"), conf=("XKCP_has_KeccakP1600",),
                 reach=tuple(f"{fn}{sec}{x}" for x in ("", "_Initialize", "_Update", "_Final", "_Squeeze")))
        unit(f"{fn}{sec}@fail", SP8, ["sponge/contract.c"], "client/sp800.c", ents, {"P08"}, inc=("snp", "sponge"), defs=("FN_" + fn, "SEC=" + sec, "MODEL_FAIL"), reach=tuple(f"{fn}{sec}{x}" for x in ("", "_Initialize", "_Update", "_Final")))
PH = ["client_init -retcap 80 -cap 80", "client_custom", "client_xof", "client_fixed", "client_long -retcap 40 -cap 60", "client_bits", "client_partial", "client_early"]
for sec in ("128", "256"):
    for tag, conf, defs, tgt, blk, ents in (("", ("times2", "times4", "times8"), (), "x86_64", 8192, PH), ("@fast", ("times2", "times4", "times8"), ("MODEL_FASTLOOP",), "x86_64", 8192, PH), ("@serial", (), (), "x86_64", 8192, PH),
            ("@t2", ("times2",), ("MODEL_FASTLOOP",), "x86_64", 1024, PH), ("@t4", ("times4",), (), "x86_64", 8192, PH), ("@32", ("times2",), (), "i686", 8192, PH), ("@small", ("times2", "times4", "times8"), ("MODEL_FASTLOOP",), "x86_64", 8, PH[2:]), ("@128", ("times4",), (), "x86_64", 128, PH[2:]),
            ("@fail", ("times2", "times4", "times8"), ("MODEL_FAIL", "MODEL_FASTLOOP"), "x86_64", 8192, PH)):
        quick = (sec == "128" and tag in ("@fast", "@serial", "@32", "@fail")) or (sec == "256" and tag in ("", "@fail"))
        unit(f"ParallelHash{sec}{tag}", SP8, ["sponge/contract.c"], "client/parallelhash.c", ents, {"P08"} if tag == "@fail" else {"P01", "P02", "P05", "P06", "P09", "P14", "P17", "P20"} | ({"P10"} if conf else set()),
             inc=("snp", "sponge"), defs=("SEC=" + sec, f"BLK={blk}") + defs, target=tgt, conf=("XKCP_has_KeccakP1600",) + tuple("XKCP_has_KeccakP1600" + c for c in conf), opts=("-retcap", "20", "-cap", "24"), tier="quick" if quick else "thorough",
             reach=tuple(f"ParallelHash{sec}{x}" for x in ("_Initialize", "_Update", "_Final", "_Squeeze")))
KT = ["client_init", "+client_xof", "client_two", "client_fixed", "client_early", "client_custom1", "client_custom2", "client_custom3", "client_custom4", "client_custom5", "client_custom6"]
T248 = ("times2", "times4", "times8")
for sec in ("128", "256"):
    for tag, conf, defs, tgt, ents in (("@serial", (), (), "x86_64", [e.lstrip("+") for e in KT if e != "client_two"]), ("", T248, (), "x86_64", KT[:5]), ("@fast", T248, ("MODEL_FASTLOOP",), "x86_64", KT[:5]), ("@leaves", T248, ("MODEL_LEAVES",), "x86_64", KT[:5]),
            ("@avx512", T248, ("MODEL_LEAVES8", "MODEL_FASTLOOP"), "x86_64", KT[:5]), ("@k128", T248, ("MODEL_LEAVES", "MODEL_LEAVES_K128"), "x86_64", KT[:5]), ("@t4", ("times4",), ("MODEL_FASTLOOP",), "x86_64", KT[:5]), ("@32", ("times2",), (), "i686", KT[:5]), ("@32serial", (), (), "i686", KT[:1] + KT[2:8]),
            ("@fail", T248, ("MODEL_FAIL", "MODEL_LEAVES4"), "x86_64", KT[:1] + KT[2:4])):
        quick = (sec == "128" and tag in ("@serial", "@avx512", "@k128", "@fail", "@32", "@32serial")) or (sec == "256" and tag in ("@t4", "@fail", "@k128"))
        unit(f"KT{sec}{tag}", ["lib/high/KangarooTwelve/KangarooTwelve.c"], ["turbo/contract.c"], "client/kangarootwelve.c", ents, {"P08"} if tag == "@fail" else {"P01", "P02", "P05", "P06", "P09", "P14", "P17"} | ({"P10"} if conf and tag != "@k128" else set()),
             inc=("snp", "turbo"), defs=("SEC=" + sec,) + defs, target=tgt, conf=("XKCP_has_KeccakP1600",) + tuple("XKCP_has_KeccakP1600" + c for c in conf), opts=("-retcap", "40", "-cap", "60"), tier="quick" if quick else "thorough",
             reach=("KangarooTwelve_Initialize", "KangarooTwelve_Update", "KangarooTwelve_Final", "KangarooTwelve_Squeeze"))
for tag, tgt, defs in (("", "x86_64", ()), ("@32", "i686", ()), ("@fail", "x86_64", ("MODEL_FAIL",))):
    unit("prg" + tag, [K + "PRG/KeccakPRG.c"], [], "client/prg.c", ["client"], {"P08"} if defs else {"P01", "P02", "P06", "P09"}, defs=defs, target=tgt,
         reach=tuple("SpongePRG_" + f for f in ("Initialize", "Feed", "Fetch", "Forget")))
for tag, tgt, defs, src in (("", "x86_64", (), []), ("@32", "i686", (), []), ("@full", "x86_64", ("MODEL_FULLBLOCKS",), ["lib/low/Xoodoo/plain/Xoodyak-full-blocks.c"]), ("@32full", "i686", ("MODEL_FULLBLOCKS",), ["lib/low/Xoodoo/plain/Xoodyak-full-blocks.c"])):
    unit("xoodyak" + tag, ["lib/high/Xoodyak/Xoodyak.c"] + src, [], "client/xoodyak.c", ["client_hash", "client_keyed"], {"P01", "P02", "P10", "P18"}, inc=("xoodoo",), pre=("xoodoo/Xoodoo-SnP.h",), defs=defs, target=tgt, conf=("XKCP_has_Xoodoo",), opts=("-copyfacts",),
         reach=("Xoodyak_Initialize", "Xoodyak_Initialize with a key") + tuple("Xoodyak_" + f for f in ("Absorb", "Squeeze", "SqueezeKey", "Encrypt", "Decrypt", "Ratchet")))
FE = ["client", "client_bits", "client_bits_out", "client_key"]
for nm, srcs, base, reach, pls in (("kravatte", ["lib/high/Kravatte/Kravatte.c"], "XKCP_has_KeccakP1600", ("Kravatte_MaskDerivation", "Kra", "Kra (bits)", "Vatte", "Vatte (bits)"), ("2", "4", "8")), ("xoofff", ["lib/high/Xoofff/Xoofff.c"], "XKCP_has_Xoodoo", ("Xoofff_MaskDerivation", "Xoofff_Compress", "Xoofff_Compress (bits)", "Xoofff_Expand", "Xoofff_Expand (bits)"), ("4", "8", "16"))):
    for tag, tgt, ps, fast in (("@serial", "x86_64", (), ()), ("@fast", "x86_64", pls, pls), ("@32", "i686", pls[:1], ()), ("@mid", "x86_64", pls[:2], pls[1:2])):
        unit(nm + tag, srcs, [], "client/farfalle.c", FE + (["client_addis"] if nm == "xoofff" and not fast else []), {"P01", "P02", "P05", "P06", "P10", "P15", "P20"}, inc=("farfalle", "snp") if nm == "kravatte" else ("farfalle", "xoodoo", "lib/low/Xoodoo"), pre=() if nm == "kravatte" else ("xoodoo/Xoodoo-SnP.h",),
             defs=(("XOOFFF",) if nm == "xoofff" else ()) + tuple("MODEL_FAST" + p for p in fast) + (("MODEL_FASTX",) if fast and nm == "xoofff" else ()), target=tgt, conf=(base,) + tuple((base + "times" + p) for p in ps), opts=("-copyfacts", "-strides", "-retcap", "40", "-cap", "60"), reach=reach,
             tier="quick" if tag in ("@serial", "@fast") or nm + tag in ("kravatte@32", "kravatte@mid", "xoofff@mid") else "thorough")
ME = ["client_sane_init", "client_sanse_init"] + [f"client_{m}_{d} -retcap 2000 -cap 2000" for m in ("sane", "sanse") for d in ("wrap", "unwrap")] + [f"client_{m}_{d}{b} -retcap 40 -cap 60" for m in ("wbc", "wbcae") for d in ("encipher", "decipher") for b in ("", "_bits")]
MR = ("SANE_Initialize", "SANE_Wrap", "SANSE_Initialize", "SANSE_Wrap", "WBC_Encipher", "WBC_Decipher", "WBCAE_Encipher", "WBCAE_Decipher")
for nm, src, base, D, pre in (("kravatte-modes", "lib/high/Kravatte/KravatteModes.c", "XKCP_has_KeccakP1600", (), "Kravatte_"), ("xoofff-modes", "lib/high/Xoofff/XoofffModes.c", "XKCP_has_Xoodoo", ("XOOFFF",), "Xoofff")):
    for tag, tgt, defs in (("", "x86_64", ()), ("@32", "i686", ()), ("@fail", "x86_64", ("MODEL_FAIL",))):
        unit(nm + tag, [src], [], "client/modes.c", [e for e in ME if tag != "@32" or "_bits" not in e], {"P08"} if defs else {"P02", "P06", "P07", "P20", "P22"}, inc=("snp",) if nm == "kravatte-modes" else ("xoodoo", "lib/low/Xoodoo"), pre=() if nm == "kravatte-modes" else ("xoodoo/Xoodoo-SnP.h",),
             defs=D + defs, target=tgt, conf=(base,), opts=("-copyfacts",), reach=tuple(pre + r for r in MR) + tuple(pre + f + x for f in ("SANE_Unwrap", "SANSE_Unwrap") for x in ("", " (tag differs)")) + (pre + "WBCAE_Decipher (redundancy wrong)",))
