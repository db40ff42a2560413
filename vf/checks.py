"""Registry of the properties and their harnesses (see DESIGN.md)."""

QUIET = ["bprintf", "bytes_write"]
ERR = QUIET + ["c4_state_add_error"]
NOPROVER = ["src/prover", "src/chains/eth/prover", "bindings"]
PROPS = {}
_H = {}


def prop(pid, assumptions=(), level="model_checking"):
    PROPS[pid] = {"assumptions": list(assumptions), "level": level}


def H(pid, name, src, entry, unwind, tiers="qt", **kw):
    d = dict(name=name, prop=pid, src=src, entry=entry, unwind=unwind)
    d.update(kw)
    _H.setdefault(pid, []).append((tiers, d))


def harnesses(pid, tier):
    out = []
    for tiers, d in _H.get(pid, []):
        if tier[0] in tiers:
            x = dict(d)
            if tier == "thorough" and "thorough" in x:
                x.update(x["thorough"])
            x.pop("thorough", None)
            x["stubs"] = list(x.get("stubs", []))
            out.append(x)
    return out


prop("U01")
H("U01", "hex_decode", "u01_hex.c", "h_hex_decode", 12, bounds="strings of 0..8 arbitrary bytes, target buffers of 0..5 bytes",
  thorough=dict(defs=["HEXMAX=12", "OUTMAX=7"], unwind=16, bounds="strings of 0..12 arbitrary bytes, target buffers of 0..7 bytes"))

prop("U02")
_B2 = "fixed buffer of 5 bytes with 0..5 bytes content, inputs of 0..6 arbitrary bytes, one operation from an arbitrary state"
for n, u in [("fixed_append", 8), ("fixed_add_chars", 8), ("fixed_numbers", 10), ("fixed_splice", 8)]:
    H("U02", n, "u02_buffer.c", "h_" + n, u, models=["vf_mem.c"], defs=["FMT=0"], bounds=_B2)
for k in range(8):
    H("U02", "fixed_format%d" % k, "u02_buffer.c", "h_fixed_format", 9, models=["vf_mem.c"], defs=["FMT=%d" % k], bounds="fixed buffer of 5 bytes, one format directive (sSxulxdJrc), arguments of 0..3 bytes / integers < 100000")
H("U02", "grow_append", "u02_buffer.c", "h_grow_append", 9, models=["vf_mem.c"], defs=["FMT=0"], bounds="growable buffer with initial size hint 0..3, two appends of 0..3 and 0..4 bytes")
H("U02", "codecs", "u02_buffer.c", "h_codecs", 10, defs=["FMT=0"], bounds="all 64 bit values, all byte strings of 0..8 bytes")
H("U02", "bytes_eq", "u02_buffer.c", "h_bytes_eq", 7, defs=["FMT=0"], bounds="all pairs of byte strings of 0..5 bytes")

prop("U03")
for n, u in [("parse", 10), ("iter", 10), ("iter_obj", 10), ("string_end", 10), ("container_end", 10)]:
    H("U03", n, "u03_json.c", "h_" + n, u, unwindfn={"h_iter": 4, "h_iter_obj": 3, "json_len": 5, "json_at": 5, "strncmp": 7}, bounds="every NUL-terminated text of up to 6 bytes", thorough=dict(defs=["N=8"], unwind=11, timeout=1500, bounds="every NUL-terminated text of up to 8 bytes"))
H("U03", "at", "u03_json.c", "h_at", 12, unwindfn={"json_at": 5, "json_len": 5, "strncmp": 6, "memcmp": 3, "next_non_whitespace_token": 4, "parse_number": 3, "find_end": 3}, bounds="arrays of three elements with arbitrary digits / string character, every index 0..4")
H("U03", "get", "u03_json.c", "h_get", 17, unwindfn={"json_get": 4, "strncmp": 6, "memcmp": 3, "next_non_whitespace_token": 4, "parse_number": 3, "find_end": 3}, bounds="objects with two properties of arbitrary one-character names, arbitrary one-character lookup")

prop("U04")
for d in (1, 2, 15, 16, 17, 18):
    H("U04", "uint_hex%d" % d, "u04_jsonconv.c", "h_uint_hex", 24, models=["vf_mem.c"], defs=["D=%d" % d], bounds="hex strings of exactly %d arbitrary characters after 0x" % d)
for d, q in ((1, 0), (20, 0), (1, 1), (4, 1)):
    H("U04", "uint_dec%d%s" % (d, "q" if q else ""), "u04_jsonconv.c", "h_uint_dec", 28, models=["vf_mem.c"], defs=["D=%d" % d, "Q=%d" % q], bounds="decimal numbers of exactly %d digits, quoted or not" % d)
H("U04", "to_bytes", "u04_jsonconv.c", "h_to_bytes", 13, models=["vf_mem.c"], defs=["N=8", "CAPN=3"], bounds="quoted strings of 0..8 arbitrary bytes into a 3 byte target")
H("U04", "string", "u04_jsonconv.c", "h_string", 10, models=["vf_mem.c"], defs=["N=5"], bounds="strings of 5 bytes with every valid two-character escape")
H("U04", "string_unicode", "u04_jsonconv.c", "h_string_unicode", 12, models=["vf_mem.c"], bounds="every \\uXXXX escape except NUL")
H("U04", "string_fixed", "u04_jsonconv.c", "h_string_fixed", 12, models=["vf_mem.c"], bounds="strings of 6 bytes into a 4 byte target")

prop("U05", ["error texts are not modelled (bprintf returns an arbitrary non-null text)"])
_ACC = {("bytes32", 66), ("address", 42), ("hexuint", 3), ("hexuint", 5), ("hexuint", 66), ("hex32", 2), ("hex32", 65), ("hex32", 66), ("bytes", 2), ("bytes", 5), ("bytes", 8),
        ("suint", 1), ("suint", 5), ("block", 3), ("block", 4), ("block", 6), ("block", 9)}
for df, ls in [("bytes32", (0, 65, 66, 67, 68)), ("address", (41, 42, 43)), ("hexuint", (0, 2, 3, 5, 66, 67, 68)), ("hex32", (2, 65, 66, 67, 68)), ("bytes", (0, 1, 2, 5, 8)),
               ("suint", (1, 5)), ("block", (3, 4, 6, 9, 67))]:
    for l in ls:
        H("U05", "%s_%d" % (df, l), "u05_validate.c", "h_primitive", l + 5 if l > 8 else 12, stubs=["bprintf"], defs=['DEF="%s"' % df, "L=%d" % l, "V3='1'"] + (["ACC"] if (df, l) in _ACC else []),
          unwindfn={"strncmp": 14, "strcmp": 14, "strdup": 20, "strlen": 20}, bounds="every string of exactly %d characters against '%s'" % (l, df))
H("U05", "types", "u05_validate.c", "h_types", 22, stubs=["bprintf"], defs=["V3='1'"], bounds="every JSON type against every primitive schema")
_UF = {"json_get": 4, "strncmp": 14, "memcmp": 3, "next_non_whitespace_token": 4, "parse_number": 6, "check_object": 4, "check_array": 5, "json_validate": 3, "strdup": 20}
for ab in ("1t", "t1", "1n", "nt", "11"):
    H("U05", "object_" + ab, "u05_validate.c", "h_object", 22, tiers="qt" if ab != "11" else "t", stubs=["bprintf"], defs=["V1='%s'" % ab[0], "V2='%s'" % ab[1], "V3='1'"], unwindfn=_UF,
      bounds="two properties with arbitrary one-character names, values %s (1 number, t boolean, n null)" % ab)
for ab in ("tt", "t1", "1t"):
    H("U05", "wild_" + ab, "u05_validate.c", "h_wildcard", 22, stubs=["bprintf"], defs=["V1='%s'" % ab[0], "V2='%s'" % ab[1], "V3='1'"], unwindfn=_UF, bounds="two properties with arbitrary one-character names, values " + ab)
for abc in ("ttt", "tt1", "1tt", "1t1", "t1t"):
    H("U05", "array_" + abc, "u05_validate.c", "h_array", 22, stubs=["bprintf"], defs=["V1='%s'" % abc[0], "V2='%s'" % abc[1], "V3='%s'" % abc[2]], unwindfn=_UF, bounds="arrays of three elements, values " + abc)

prop("S01", ["error texts are not modelled (bprintf returns an arbitrary non-null text)"])
_SD = ["uint", "bool", "vector", "bitvector", "bitlist", "list", "list_bool", "bytes", "list_of_bytes", "fixed_container", "list_of_containers", "container", "union", "container_with_union"]
for k, n in enumerate(_SD):
    mx = 16 if k in (8, 11, 13) else 8
    if k not in (2, 12, 13):
        H("S01", "valid_" + n, "s01_valid.c", "h_valid", mx + 2, stubs=QUIET, models=["vf_mem.c"], defs=["DEF=%d" % k, "MAXB=%d" % mx], bounds="every byte string of 0..%d bytes as %s" % (mx, n),
          thorough=dict(defs=["DEF=%d" % k, "MAXB=%d" % (mx + 4)], unwind=mx + 6, bounds="every byte string of 0..%d bytes as %s" % (mx + 4, n)))
    if k in (2, 4, 5, 8, 11, 12, 13):
        H("S01", "read_" + n, "s01_valid.c", "h_read", mx + 2, stubs=QUIET, models=["vf_mem.c"], defs=["DEF=%d" % k, "MAXB=%d" % mx], bounds="every well-formed %s of 0..%d bytes" % (n, mx),
          thorough=dict(defs=["DEF=%d" % k, "MAXB=%d" % (mx + 8)], unwind=mx + 10))
H("S01", "valid_vector", "s01_valid.c", "h_valid_exact", 8, stubs=QUIET, models=["vf_mem.c"], defs=["DEF=2", "MAXB=5"], bounds="every byte string of 0..5 bytes as vector")
for sel in range(5):
    H("S01", "valid_union%d" % sel, "s01_valid.c", "h_valid_exact", 8, stubs=QUIET, models=["vf_mem.c"], defs=["DEF=12", "MAXB=5", "SEL=%d" % (sel if sel < 4 else 255)], noreach=["accepted"] if sel > 2 else [], bounds="every byte string of 0..5 bytes as union with this selector")
for sel, o1, o2 in ((0, 9, 10), (1, 9, 12), (2, 9, 11), (3, 9, 11), (1, 9, 11), (2, 9, 9), (0, 8, 10), (2, 10, 11), (2, 11, 10), (2, 9, 14), (2, 9, 200)):
    H("S01", "valid_cu_%d_%d_%d" % (sel, o1, o2), "s01_valid.c", "h_valid_exact", 17, stubs=QUIET, models=["vf_mem.c"], defs=["DEF=13", "MAXB=14", "SEL=%d" % sel, "O1=%d" % o1, "O2=%d" % o2], tiers="qt" if o1 == 9 else "t", noreach=["accepted"] if (sel, o1, o2) not in ((0, 9, 10), (1, 9, 12), (2, 9, 11)) else [],
      bounds="every byte string of 0..14 bytes as container with a union, selector %d, offsets %d, %d" % (sel, o1, o2))

prop("S02")
for lb, ld, le in ((0, 0, 0), (3, 1, 2), (1, 3, 1), (0, 2, 0), (2, 0, 2)):
    df = ["LB=%d" % lb, "LD=%d" % ld, "LE=%d" % le, "UV=0"]
    H("S02", "container_%d%d%d" % (lb, ld, le), "s02_build.c", "h_container", 70, stubs=QUIET, models=["vf_mem.c"], defs=df, bounds="arbitrary values, dynamic fields of %d/%d bytes" % (lb, ld))
    H("S02", "lists_%d%d%d" % (lb, ld, le), "s02_build.c", "h_lists", 40, stubs=QUIET, models=["vf_mem.c"], defs=df, bounds="arbitrary values, elements of %d/%d/%d bytes" % (lb, ld, le))
for uv in range(4):
    H("S02", "union%d" % uv, "s02_build.c", "h_union", 40, stubs=QUIET, models=["vf_mem.c"], defs=["LB=3", "LD=1", "LE=1", "UV=%d" % uv], bounds="arbitrary values, variant %d" % uv)

prop("S03", ["sha256 is an uninterpreted function (real implementation not encoded)"])
for df, ln, ex, nm in [(0, 8, [], "uint64"), (1, 32, [], "uint256"), (2, 1, [], "bool"), (3, 48, [], "bytes48"), (4, 96, [], "vector_bytes32"), (5, 96, [], "vector_bytes48"), (6, 40, [], "vector_uint"),
                       (7, 0, [], "bytes0"), (7, 1, [], "bytes1"), (7, 32, [], "bytes32"), (7, 33, [], "bytes33"), (7, 100, [], "bytes100"), (8, 0, [], "deep0"), (8, 70, [], "deep70"), (9, 0, [], "listuint0"), (9, 40, [], "listuint5"),
                       (10, 0, [], "listb32_0"), (10, 32, [], "listb32_1"), (10, 96, [], "listb32_3"), (10, 160, [], "listb32_5"), (11, 33, [], "bitvector"),
                       (12, 1, ["TOP=0"], "bitlist0"), (12, 2, ["TOP=3"], "bitlist11"), (12, 33, ["TOP=0"], "bitlist256"), (12, 32, ["TOP=7"], "bitlist255"), (12, 33, ["TOP=1"], "bitlist257"), (12, 66, ["TOP=0"], "bitlist520"),
                       (13, 41, [], "container3"), (14, 77, ["BL=0"], "container5_00"), (14, 77 + 33 + 64, ["BL=33"], "container5_33_2"), (15, 0, [], "listc0"), (15, 41, [], "listc1"), (15, 82, [], "listc2"), (16, 8, ["BL=0"], "listby00"), (16, 8 + 35 + 3, ["BL=35"], "listby35_3")]:
    H("S03", nm, "s03_root.c", "h_root", 180, stubs=QUIET, models=["vf_mem.c", "vf_hash.c"], defs=["DEF=%d" % df, "LEN=%d" % ln, "VF_HASH_NO_INJ", "VF_HASH64"] + ex + (["SECOND"] if nm in ("bytes0", "bytes33", "listb32_1") else []), rec={"merkle_hash": 10, "hash_tree_root": 5, "ssz_is_dynamic": 4, "ssz_fixed_length": 4},
      bounds="arbitrary content of exactly %d bytes" % ln)

prop("S04", ["sha256 of two nodes is an uninterpreted, collision-free function with 64 bit results"])
_M = dict(stubs=QUIET, models=["vf_mem.c", "vf_hash.c"], rec={"merkle_hash": 10, "hash_tree_root": 5, "ssz_is_dynamic": 4, "ssz_fixed_length": 4, "merkle_proof": 5})
def _gs(g, *more): return ["NG=%d" % len(g), "GS={%s}" % ",".join(map(str, g)), "VF_HASH64"] + list(more)
for g, nw in [((1,), 0), ((2,), 1), ((5,), 2), ((8,), 3), ((13,), 3), ((8, 9), 2), ((9, 12), 4), ((8, 15), 4), ((10, 11, 13), 3), ((13, 10, 11), 3), ((4, 5), 1), ((8, 3), 2), ((3, 9), 2), ((8, 9, 10, 11), 1), ((12, 9, 14), 4), ((9, 5, 6), 2)]:
    nm = "_".join(map(str, g))
    H("S04", "sound_" + nm, "s04_proof.c", "h_sound", 70, defs=_gs(g, "NW=%d" % nw), bounds="trees of 8 leaves, arbitrary leaves and witnesses, positions " + nm, **_M)
    if g in ((5,), (8, 9), (9, 12)):
        for w2, ex in ((nw - 1, 0), (nw + 1, 0), (nw, 1), (nw - 1, 31)):
            H("S04", "wrong_%s_%d_%d" % (nm, w2, ex), "s04_proof.c", "h_sound", 70, defs=_gs(g, "NW=%d" % w2, "EXTRA=%d" % ex, "WRONG"), bounds="%d witnesses + %d bytes instead of %d" % (w2, ex, nw), **_M)
for g, nw in ((6, 2), (105, 6), (169, 7), (9, 3), (512, 9)):
    H("S04", "single_%d" % g, "s04_proof.c", "h_single", 70, defs=_gs((g,), "NW=%d" % nw, "VF_HASH_NO_INJ"), bounds="arbitrary leaf and witnesses", **_M)
    for w2, ex in ((nw - 1, 0), (nw + 1, 0), (nw, 5)):
        H("S04", "single_wrong_%d_%d_%d" % (g, w2, ex), "s04_proof.c", "h_single", 70, tiers="qt" if g in (105, 6) else "t", defs=_gs((g,), "NW=%d" % w2, "EXTRA=%d" % ex, "WRONG", "VF_HASH_NO_INJ"), bounds="%d witnesses + %d bytes instead of %d" % (w2, ex, nw), **_M)
for g in ((8,), (12,), (20,), (72,), (74, 11), (20, 21, 8), (73, 72), (74, 75, 12), (11, 8, 12), (19,)):
    H("S04", "create_" + "_".join(map(str, g)), "s04_proof.c", "h_create", 100, defs=_gs(g, "VF_HASH_NO_INJ"), bounds="a container with nested container and list, arbitrary content", **_M)
H("S04", "gindex", "s04_proof.c", "h_gindex", 66, stubs=QUIET, models=["vf_mem.c", "vf_hash.c"], bounds="all pairs of 64 bit indexes")
H("S04", "gindex_def", "s04_proof.c", "h_gindex_def", 20, bounds="field, list and nested paths", **_M)

prop("V01", ["sha256 of two nodes is an uninterpreted, collision-free function with 64 bit results", "BLS verification is an arbitrary predicate; the committee store returns the keys it is asked for (C-properties cover it)", "slots below 2^44", "the signing root is not zero"])
_V1 = dict(fs=1100, models=["vf_mem.c", "vf_hash.c"], rec={"merkle_hash": 10, "hash_tree_root": 5, "ssz_is_dynamic": 4, "ssz_fixed_length": 4})
_C1 = QUIET + ["c4_get_validators"]
for ch in ("MAINNET", "SEPOLIA", "GNOSIS", "GNOSIS_CHIADO"):
    H("V01", "signature_" + ch.lower(), "v01_header.c", "h_signature", 520, stubs=_C1, defs=["CHN=C4_CHAIN_" + ch, "VF_HASH64"], bounds="arbitrary header and slot, 336..352 participants", **_V1)
H("V01", "signature_slot", "v01_header.c", "h_signature", 520, stubs=_C1, defs=["GIVEN_SLOT", "SB1=0", "SB2=63", "VF_HASH64"], bounds="arbitrary header and signature slot, 336..352 participants", **_V1)
for a, b, f in ((0, 1, 0), (62, 63, 41), (0, 63, 62)):
    H("V01", "bits_%d_%d_%d" % (a, b, f), "v01_header.c", "h_signature", 520, stubs=_C1, defs=["SB1=%d" % a, "SB2=%d" % b, "FULL=%d" % f, "VF_HASH64"], noreach=["accepted", "accepted with the previous committee"] if f == 0 else [], bounds="arbitrary header, %d..%d participants" % (8 * f, 8 * f + 16), **_V1)
for t in (0, 1):
    H("V01", "cache%d" % t, "v01_header.c", "h_signature", 520, stubs=_C1 + ["ssz_hash_tree_root"], defs=["TWICE=%d" % t, "FULL=64", "VF_HASH64"], noreach=["rejected", "accepted with the previous committee"] if t else ["accepted", "accepted with the previous committee", "cached"], bounds="two headers with arbitrary parent root and slot one after the other, the first one %s" % ("valid" if t else "invalid"), **_V1)
H("V01", "header_direct", "v01_header.c", "h_header", 700, stubs=_C1, defs=["HK=0", "VF_HASH64"], noreach=["not linked"], bounds="arbitrary header", **_V1)
for n in (0, 1, 2):
    H("V01", "header_chain%d" % n, "v01_header.c", "h_header", 700, tiers="qt" if n < 2 else "t", stubs=_C1, defs=["HK=2", "NH=%d" % n, "VF_HASH64"], bounds="arbitrary header, signed header and %d headers in between" % n, **_V1)
for ch in ("MAINNET", "GNOSIS"):
    H("V01", "header_historic_" + ch.lower(), "v01_header.c", "h_header", 700, stubs=_C1 + ["ssz_verify_single_merkle_proof"], defs=["HK=1", "MERKLE_MODEL", "CHN=C4_CHAIN_" + ch, "VF_HASH64"], bounds="arbitrary header, signed header, gindex; branch evaluation is S04's", **_V1)

prop("L02", ["fork detection, SSZ validation and the processing of a single update are arbitrary in the splitting harness (fork detection has its own; validation is S01's)"])
for ln in (0, 12, 13, 20, 28, 40):
    for lh in ((0, 1) if ln > 12 else (0,)):
        H("L02", "stream_%d%s" % (ln, "_lighthouse" if lh else ""), "l02_stream.c", "h_stream", ln + 6, skip=NOPROVER, stubs=ERR + ["c4_eth_get_fork_for_lcu", "ssz_is_valid"], models=["vf_mem.c"], defs=["LEN=%d" % ln] + (["LIGHTHOUSE"] if lh else []),
          noreach=(["rejected"] if ln < 13 else (["accepted"] if lh and ln < 24 else [])), bounds="every %sstream of %d bytes" % ("lighthouse " if lh else "", ln))
for ln in (0, 3, 4, 11, 20):
    H("L02", "fork_%d" % ln, "l02_stream.c", "h_fork", 24, stubs=ERR, models=["vf_mem.c"], defs=["LEN=%d" % ln, "FORK"], noreach=["slot"] if ln < 8 else [], bounds="every update starting with these %d bytes" % ln)

prop("L01", ["the signature check (V01), hash tree roots (S03), branch evaluation (S04) and storage (L03) are arbitrary functions that answer consistently", "committees and branches are shorter than on chain (they are only passed on)", "slots from the Deneb fork on, periods below 2^32-2"])
_L1 = dict(skip=NOPROVER, fs=700, models=["vf_mem.c"], stubs=ERR + ["c4_verify_blockroot_signature", "ssz_hash_tree_root", "ssz_verify_single_merkle_proof", "c4_set_sync_period", "c4_get_chain_state", "c4_handle_bootstrap"])
for ch in ("MAINNET", "SEPOLIA", "GNOSIS", "GNOSIS_CHIADO"):
    H("L01", "update_" + ch.lower(), "l01_lc.c", "h_update", 700, defs=["CHN=C4_CHAIN_" + ch], bounds="one update, arbitrary slot, roots, results of the sub-checks", **_L1)
for n, b in ((0, 0), (0, 1), (1, 1), (2, 0), (2, 1)):
    H("L01", "sync_%d_%d" % (n, b), "l01_lc.c", "h_update", 700, defs=["NU=%d" % n, "BOOT=%d" % b], noreach=["rejected"] if (n, b) == (0, 0) else [], bounds="%d updates, %s bootstrap data" % (n, "with" if b else "without"), **_L1)

prop("L03", ["the storage plugin keeps what it is given (writes and deletes are atomic; a crash stops all later ones)", "keys are followed by their first bytes, key texts of large buffers are only compared there", "keys are named by an injective formatter (decimal digits are U02's)"])
FMT = ["bprintf", "bytes_write", "c4_state_add_error"]
_L3 = dict(skip=NOPROVER, models=["vf_mem.c"], stubs=FMT + ["c4_get_storage_config", "buffer_append"], unwindfn={})
_L3M = dict(_L3, unwindfn={"bprintf": 130, "vf_num": 17, "key": 17, "buffer_append": 34, "s_set": 34, "s_get": 66, "memcpy": 40, "memset": 40, "memmove": 10, "memcmp": 40, "h_read": 34, "h_store": 34, "sha256": 34}, stubs=_L3["stubs"] + ["c4_get_chain_state", "c4_set_chain_state"])
for ls, mx in [((), 3), ((6,), 1), ((6,), 3), ((4, 9), 2), ((9, 4), 2), ((4, 9), 3), ((4, 7, 9), 3), ((4, 9, 7), 3), ((7, 4, 9), 3), ((7, 9, 4), 3), ((9, 4, 7), 3), ((9, 7, 4), 3), ((5, 6, 7), 4), ((4, 9, 7), 2), ((8, 3, 10, 5, 6), 3),
               ((2, 3, 5, 7, 8, 9, 10), 8), ((5, 2, 8, 10, 7, 3, 9, 4), 8), ((2, 3, 4, 5, 7, 8, 9, 10), 9)]:
    H("L03", "store_%s_max%d" % ("_".join(map(str, ls)) or "none", mx), "l03_store.c", "h_store", 14, defs=["NS=%d" % len(ls), "LIST={%s}" % ",".join(map(str, ls or (0,))), "MAXS=%d" % mx, "KLEN=8", "STATE_MODEL", "VF_WORD_MEMMOVE"] + (["CP=1"] if (ls, mx) == ((), 3) else []),
      bounds="periods %s stored, limit %d, every new period 1..12, every crash point" % (",".join(map(str, ls)) or "none", mx), **_L3M)
for sz in (512 * 48, 512 * 48 + 32, 512 * 96, 512 * 96 + 32, 512 * 48 - 48, 512 * 96 + 48, 1000, 0):
    H("L03", "read_%d" % sz, "l03_store.c", "h_read", 130, defs=["NS=3", "PERIOD=%d" % (5 if sz % 64 else 7), "KEYSIZE=%d" % sz, "KLEN=49300", "STATE_MODEL"], noreach=["read"] if sz not in (512 * 48, 512 * 48 + 32, 512 * 96, 512 * 96 + 32) else (["refused"] if sz >= 512 * 96 else []), bounds="entry of %d bytes among three" % sz, **_L3M)
for ns in (0, 1, 3, 8, 9):
    H("L03", "state_%d" % ns, "l03_store.c", "h_state", 130, defs=["NS=%d" % ns, "KLEN=8"], bounds="every state with %s" % ("a checkpoint" if ns == 9 else "%d periods" % ns), **_L3)

prop("L04", ["hash tree roots (S03), branch evaluation (S04), validation (S01) and storage (L03) are arbitrary functions that answer consistently", "slots from the Deneb fork on, periods below 2^32-2"])
for ch in ("MAINNET", "SEPOLIA", "GNOSIS", "GNOSIS_CHIADO"):
    for el in (0, 1):
        H("L04", "boot_%s_%s" % (ch.lower(), "electra" if el else "deneb"), "l04_boot.c", "h_boot", 150, skip=NOPROVER, models=["vf_mem.c"], stubs=ERR + ["ssz_hash_tree_root", "ssz_verify_single_merkle_proof", "c4_set_sync_period", "ssz_is_valid", "ssz_get"], defs=["CHN=C4_CHAIN_" + ch, "EL=%d" % el],
          fs=256, bounds="bootstrap data of the %s layout, arbitrary slot, roots, checkpoint" % ("Electra" if el else "Deneb"))

prop("L05", ["the roots of headers are an injective function of their varying content; roots of keys, domain (V01), storage (L03) are arbitrary", "signature recovery is an arbitrary function of digest and signature; keccak keeps what it is given", "curve operations are formal sums; the field and curve arithmetic itself is not encoded", "distinct witness keys", "periods below 2^32-2"])
_L5 = dict(skip=NOPROVER, models=["vf_mem.c"], stubs=ERR + ["ssz_get", "ssz_hash_tree_root", "c4_set_sync_period", "c4_get_chain_state", "eth_calculate_domain", "c4_verify_zk_proof"])
for ch in ("MAINNET", "SEPOLIA", "GNOSIS", "GNOSIS_CHIADO"):
    H("L05", "zk_" + ch.lower(), "l05_zk.c", "h_zk", 115, defs=["CHN=C4_CHAIN_" + ch], bounds="one witness, one signature, arbitrary content", **_L5)
for nh, ns, nw, ck, ex in ((1, 1, 1, 2, 0), (2, 1, 1, 2, 0), (0, 0, 0, 2, 0), (0, 0, 1, 2, 0), (0, 1, 0, 2, 0), (0, 2, 1, 2, 0), (0, 2, 2, 2, 0), (0, 3, 2, 2, 0), (0, 2, 3, 2, 0), (0, 1, 1, 0, 0), (0, 1, 1, 1, 0), (0, 2, 1, 2, 7), (0, 17, 1, 2, 0), (0, 0, 33, 2, 0), (0, 1, 33, 2, 0)):
    H("L05", "zk_h%d_s%d_w%d_c%d%s" % (nh, ns, nw, ck, "_x" if ex else ""), "l05_zk.c", "h_zk", 165 if nw < 30 else 700, defs=["NH=%d" % nh, "NSIG=%d" % ns, "NW=%d" % nw, "CK=%d" % ck, "WEXTRA=%d" % ex], noreach=["accepted"] if nw > ns or ck != 2 or ex or ns > 16 else [],
      bounds="%d headers in between, %d signatures, %d witness keys%s, %s" % (nh, ns, nw, " and %d bytes" % ex if ex else "", "chain of headers" if ck == 2 else "another kind of link"), **_L5)
for pl in (260, 259, 261, 0, 256):
    H("L05", "groth_%d" % pl, "l05_zk.c", "h_groth", 140, skip=NOPROVER, stubs=ERR + ["ssz_get", "ssz_hash_tree_root", "c4_set_sync_period", "c4_get_chain_state", "eth_calculate_domain", "bn254_g1_from_bytes_be", "bn254_g1_from_bytes", "bn254_g2_from_bytes_eth", "bn254_g2_from_bytes_raw", "bn254_g1_mul", "bn254_g1_add", "bn254_pairing_batch_check"], defs=["GROTH", "PLEN=%d" % pl], noreach=["valid"] if pl != 260 else [], fs=256, bounds="every proof of %d bytes, every program hash and input" % pl)

prop("R01")
for ln, ix in [(n, i) for n in (0, 1, 2, 3, 4, 5) for i in (-1, 0, 1, 2)]:
    H("R01", "decode_%d_%d" % (ln, ix), "r01_rlp.c", "h_decode", 12, defs=["LEN=%d" % ln, "IDX=(%d)" % ix], noreach=(["found"] if ix < 0 or ln <= ix else []), bounds="every %d bytes, index %d" % (ln, ix))
for px in (0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbf, 0xf8, 0xf9, 0xfc, 0xff):
    for ln in (2, 6, 10):
        H("R01", "decode_%x_%d" % (px, ln), "r01_rlp.c", "h_decode", 14, tiers="qt" if ln < 10 else "t", defs=["LEN=%d" % ln, "IDX=0", "PREFIX=0x%x" % px], noreach=["found"] if ln < 2 + (px & 7) else [], bounds="every %d bytes starting with %x" % (ln, px))
for ln in (1, 3, 9, 10):
    H("R01", "uint_%d" % ln, "r01_rlp.c", "h_uint", 13, defs=["LEN=%d" % ln], bounds="every %d bytes" % ln)
for k, nm in enumerate(("item", "list", "to_list")):
    for n in (0, 1, 2, 55, 56, 255, 256):
        H("R01", "%s_%d" % (nm, n), "r01_rlp.c", "h_encode", n + 14, models=["vf_mem.c"], fs=1200 if n > 2 else 40, defs=["ENC", "KIND=%d" % k, "N=%d" % n], bounds="payload of %d bytes" % n)
    for n in (0xffff, 0x10000, 0xffffff, 0x1000000):
        H("R01", "%s_%x" % (nm, n), "r01_rlp.c", "h_encode", 40, models=["vf_mem.c"], stubs=["buffer_append", "buffer_splice"], defs=["ENC", "BIG", "KIND=%d" % k, "N=%d" % n], bounds="payload of %d bytes" % n)
H("R01", "encode_uint", "r01_rlp.c", "h_encode_uint", 12, models=["vf_mem.c"], defs=["ENC", "KIND=0", "N=1"], bounds="every 64 bit number")

prop("R02", ["keccak is an arbitrary function of the witness (the same witness always gives the same value)"])
def _it(b): return b if len(b) == 1 and b[0] < 128 else ([0x80 + len(b)] + b if len(b) < 56 else [0xb8, len(b)] + b)
def _li(*items):
    p = sum(items, [])
    return ([0xc0 + len(p)] if len(p) < 56 else [0xf8, len(p)] if len(p) < 256 else [0xf9, len(p) >> 8, len(p) & 255]) + p
_S = lambda n: [256] * n
_hash = [0xa0] + _S(32)
def _br(ch, v=[0x80]): return _li(*([ch.get(i, [0x80]) for i in range(16)] + [v]))
def _lf(path, v): return _li(path, v)
def R2(name, nodes, key, nr, tiers="qt", emb=3, bounds="", unw=None):
    mx = max([len(n) for n in nodes] + [1])
    H("R02", name, "r02_patricia.c", "h_verify", max(35, mx + 2), tiers=tiers, stubs=["ssz_len", "ssz_at"], models=["vf_mem.c"], fs=max(64, mx + 1), noreach=[x for x in ("found", "absent", "invalid") if x in nr], rec={"handle_node": emb + 1}, unwindfn=dict(unw or {"read_header": min(9, mx + 1), "rlp_decode": min(mx, 17) + 2, "patricia_to_nibbles": 5, "patricia_match_nibbles": 2 * len(key) + 2, "count_nibbles": 8}),
      defs=["NN=%d" % len(nodes), "MAXN=%d" % mx, "NODES={%s}" % ",".join("{%s}" % ",".join(map(str, n)) for n in nodes or [[0]]), "LENS={%s}" % ",".join(str(len(n)) for n in nodes or [[]]), "KLEN=%d" % len(key), "KEYS={%s}" % ",".join(map(str, key)), "EMB=%d" % emb], bounds=bounds)
_anyk1, _anyk2 = [256], [256, 256]
R2("none", [], _anyk1, ["found", "absent"], bounds="no witness")
for n in (0, 1, 2, 3): R2("any_%d" % n, [_S(n)], _anyk1, (["found", "absent"] if n < 3 else ["found"]), emb=1, bounds="every witness of %d bytes" % n)
_leaf = _lf(_it(_S(2)), _it(_S(3)))
R2("leaf", [_lf(_it([256, 256]), _it(_S(3)))], _anyk1, [], bounds="a leaf or extension with any path of 2 or 3 nibbles, any key of 2 nibbles")
R2("leaf_long", [_lf(_it([256, 256]), _it(_S(3)))], _anyk2, ["found"], bounds="a leaf or extension with any path of 2 or 3 nibbles, any key of 4 nibbles")
R2("leaf_empty_value", [_lf(_it([256, 256]), [0x80])], _anyk1, [], bounds="a leaf or extension with any path of 2 or 3 nibbles, without value")
R2("ext_alone", [_lf(_it([256, 256]), _hash)], _anyk1, [], bounds="a leaf or extension with 32 bytes")
R2("branch_alone", [_br({3: _hash}, _it(_S(2)))], _anyk1, ["found"], tiers="t", emb=1, bounds="a branch with one child, any key")
for f in (0x00, 0x20, 0x40, 0x80):
    R2("ext_short_hash_%x" % f, [_lf(_it([f, 256]), [0x9f] + _S(31)), _br({}, _it(_S(2)))], _anyk1, ["found", "absent"], bounds="a node with flags %x and 31 bytes, followed by a branch, any key" % f)
    R2("ext_branch_%x" % f, [_lf(_it([f, 0x5a if f == 0 else 256]), _hash), _br({}, _it(_S(2)))], _anyk1 if f else [0x5a], ["absent"] if f == 0 else ["found", "absent"], emb=1, bounds="a node with flags %x over the whole path, a branch with a value" % f)
R2("ext_branch_novalue", [_lf(_it([0, 256]), _hash), _br({}, [0x80])], _anyk1, ["found"], emb=1, bounds="an extension over the whole path, a branch without value")
_short = _br({3: [0x9f] + _S(31), 5: _it(_S(2)), 9: [0x11], 10: [0xa1] + _S(33), 12: _hash}, _it(_S(2)))
for k in (3, 5, 9, 10, 12, 0): R2("branch_short_%d" % k, [_short], [k << 4], ["found"] + ["invalid" if k == 0 else "absent"], emb=1, bounds="a branch, child %d, is the last witness" % k)
for k in (0, 15, 7, 8):
    for f, d in ((0x20, 0), (0x3c, 1), (0x00, 0), (0x1c, 1)):
        for kk in (0xc, 0xd):
            if not d and kk == 0xd: continue
            leaf, hit, ok = f & 32, k in (0, 15), d and kk == 0xc
            R2("branch_%d%x_%x" % (k, kk, f), [_br({0: _hash, 15: _hash, 8: _it(_S(1)) if k == 8 else [0x80]}), _lf([f], _it(_S(3)))], [k << 4 | kk], ([] if hit and (leaf or not ok and d) else ["absent", "found"]) + (([ "absent"] if ok else ["found"]) if hit and (leaf or not ok and d) else []),
               emb=1, bounds="a branch with children 0 and 15, a leaf or extension %x, key %d, %x" % (f, k, kk))
R2("branch_branch_leaf", [_br({1: _hash, 2: _hash}), _br({7: _hash}), _lf(_it([0x20, 256]), _it(_S(3)))], [0x27, 256], [], emb=1, bounds="two branches and a leaf with 2 nibbles, any end of the key")
R2("branch_ext_branch_leaf", [_br({1: _hash, 2: _hash}), _lf(_it([0x17]), _hash), _br({6: _hash, 9: _hash}), _lf(_it([0x38]), _it(_S(3)))], [0x27, 0x98], ["absent"], emb=1, bounds="branch, extension, branch, leaf")
R2("branch_branch_value", [_br({1: _hash, 2: _hash}), _br({7: _hash}), _br({}, _it(_S(3)))], [0x27], ["absent"], emb=1, bounds="three branches, value in the last one")
R2("value_after_end", [_br({1: _hash, 2: _hash}), _br({7: _hash}), _br({}, _it(_S(3))), _S(2)], [0x17], ["absent", "found"], emb=1, bounds="a witness behind the end of the path")
R2("leaf_more", [_lf(_it([0x20, 256]), _it(_S(32))), _lf(_it([0x20, 256]), _it(_S(3)))], _anyk1, ["found", "absent"], emb=1, bounds="a leaf followed by another one")
R2("absent_more", [_br({0: _hash}), _leaf], [0x34], ["found", "absent"], emb=1, bounds="a branch followed by a leaf")
for i in (0, 1, 15):
    for f in (0x20, 0x3c, 0x00, 0x1c):
        R2("embedded_%d_%x" % (i, f), [_br({i: _lf([f], _it(_S(2))), 6: _hash}, _it([256]))], [i << 4 | 0xc], ["found" if f != 0x3c else "absent", "absent" if f != 0x20 else "invalid"] + (["invalid"] if f == 0x3c else []), emb=2, bounds="a leaf or extension %x embedded as child %d of a branch" % (f, i))
R2("embedded_long", [_br({4: _lf(_it([0x20, 0x12]), _it(_S(2)))})], [0x41, 0x22], ["found", "invalid"], emb=2, bounds="a leaf with 2 nibbles embedded in a branch")
R2("embedded_long2", [_br({4: _lf(_it([0x31, 256]), _it(_S(2)))})], [0x41, 256], ["invalid"], emb=2, bounds="a leaf with 3 nibbles embedded in a branch")
R2("embedded_ext", [_lf(_it([0x14]), _br({2: _lf([0x20], _it(_S(2))), 0: _hash}, _it(_S(2))))], [0x42], ["absent", "invalid"], emb=3, bounds="a branch embedded in an extension, itself with an embedded leaf")
R2("embedded_ext2", [_lf(_it([0x00, 256]), _br({2: _lf([0x20], _it(_S(2))), 0: _hash}, _it(_S(2))))], _anyk1, ["invalid"], emb=2, bounds="a branch embedded in an extension over the whole path")
R2("embedded_leaf", [_lf(_it([0x20, 256]), _br({2: _lf([0x20], _it(_S(2))), 0: _hash}, _it(_S(2))))], _anyk1, ["found"], emb=2, bounds="a branch in place of the value of a leaf")
R2("embedded_not_last", [_br({4: _lf([0x33], _it(_S(2)))}), _leaf], [0x43], ["found", "absent"], emb=2, bounds="an embedded leaf in a branch followed by another witness")
R2("embedded_hash", [_br({4: _lf([0x13], _hash)}), _br({}, _it([256]))], [0x43], ["absent"], emb=2, bounds="an extension with a hash embedded in a branch, then a branch")
def _with(n, pos): return n[:pos] + [256] + n[pos + 1:]
_b1 = _br({2: [0x83, 1, 2, 3], 9: _li([1], [2])}, [0x82, 1, 2])
_all3 = ["found", "absent", "invalid"]
for pos in (4, 5, 6, 9, 10, 11, 12, 16, 17, 18, 19, 20, 21, 22, 23, 24):
    R2("broken_branch_%d" % pos, [_with(_b1, pos)], [0x91], _all3, tiers="qt" if pos in (16, 19, 22) else "t", emb=2, unw={"read_header": 9, "rlp_decode": len(_b1) + 2, "patricia_to_nibbles": 5, "patricia_match_nibbles": 6, "count_nibbles": 12}, bounds="a branch with an arbitrary byte %d" % pos)
_l1 = _lf([0x82, 0x20, 0x12], [0x83, 7, 8, 9])
for pos in range(len(_l1)):
    R2("broken_leaf_%d" % pos, [_with(_l1, pos)], [0x12], _all3, tiers="qt" if pos in (2, 3, 4) else "t", emb=1, unw={"read_header": 9, "rlp_decode": 11, "patricia_to_nibbles": 10, "patricia_match_nibbles": 6, "count_nibbles": 20}, bounds="a leaf with an arbitrary byte %d" % pos)
for n in range(1, len(_l1)):
    R2("cut_leaf_%d" % n, [_l1[:n]], [0x12], ["found", "absent"], emb=1, bounds="a leaf cut after %d bytes" % n)

prop("V02", ["the verifiers of the proof types (V01, V03-V08), the sync data (L01-L05) and SSZ validation and access (S01) are arbitrary functions which report success, pending or an error", "the build has all proof types enabled"])
ETHALL = ["ETH_TX", "ETH_RECEIPT", "ETH_LOGS", "ETH_ACCOUNT", "ETH_CALL", "ETH_BLOCK", "ETH_UTIL"]
_V2M = {"eth_call": (5, 0b101, "V_CALL"), "colibri_simulateTransaction": (5, 1 << 9 | 1, "V_SIM"), "eth_getProof": (1, 1, "V_ACCOUNT"), "eth_getBalance": (1, 1, "V_ACCOUNT"), "eth_getTransactionCount": (1, 1, "V_ACCOUNT"),
        "eth_getStorageAt": (1, 1, "V_ACCOUNT"), "eth_getCode": (1, 1 << 2, "V_ACCOUNT"), "eth_getBlockByHash": (7, 1, "V_BLOCK"), "eth_getBlockByNumber": (7, 1, "V_BLOCK"), "eth_blockNumber": (8, 1, "V_NUMBER"),
        "eth_getLogs": (4, 1 << 6, "V_LOGS"), "eth_verifyLogs": (4, 1, "V_LOGS"), "eth_getTransactionReceipt": (3, 1 << 5, "V_RECEIPT"), "eth_getTransactionByHash": (2, 1, "V_TX"), "eth_getTransactionByBlockHashAndIndex": (2, 1, "V_TX"), "eth_getTransactionByBlockNumberAndIndex": (2, 1, "V_TX")}
_V2L = ["eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "web3_sha3", "net_version", "colibri_decodeTransaction"]
_V2N = ["eth_newFilter", "eth_getFilterChanges", "eth_subscribe", "eth_estimateGas", "eth_sendRawTransaction", "eth_gasPrice", "eth_getBlockReceipts", "eth_getUncleCountByBlockHash", "debug_traceTransaction", "eth_getbalance", ""]
def V2(name, m, ln, ci, nr, second=False, extra=[]):
    p, d, v = _V2M.get(m, (99, 0, "V_LOCAL" if m in _V2L else "V_NONE"))
    H("V02", name, "v02_dispatch.c", "h_verify", 60, skip=NOPROVER, repo_defs=ETHALL, stubs=ERR + (["c4_eth_verify"] if extra else []) + ["ssz_get", "ssz_is_valid", "c4_update_from_sync_data", "verify_tx_proof", "verify_receipt_proof", "verify_logs_proof", "verify_account_proof", "verify_call_proof", "verify_simulate_proof", "verify_block_proof", "verify_block_number_proof", "verify_eth_local"],
      defs=['METHOD="%s"' % m, "PIDX=%d" % p, "DMASK=%d" % d, "VER=" + v, "LOCAL=%d" % (m in _V2L), "LEN=%d" % ln, "CIDX=%d" % ci] + (["SECOND"] if second else []) + extra, noreach=nr, fs=64, bounds="method %s, %s, every kind of proof, data and sync data, every outcome of the verifiers" % (m or "(none)", "a request" if ln else "no request"))
for m in list(_V2M) + _V2L + _V2N:
    V2("req_" + (m or "none"), m, 8, 0, ["verified"] if m in _V2N else [], m == "eth_getProof")
    V2("local_" + (m or "none"), m, 0, 0, [] if m in _V2L else ["verified"])
for ci in range(1, 8):
    V2("chain%d" % ci, "eth_getBalance", 8, ci, ["verified"] if ci > 3 else [])
    V2("chain%d_local" % ci, "eth_chainId", 0, ci, ["verified"] if ci > 3 else [])
V2("malformed", "eth_getBalance", 8, 0, ["verified"], extra=["INVALID"])

prop("V03", ["patricia proofs (R02), multi proofs (S04), header checks (V01), SSZ access (S01) and keccak are arbitrary functions that answer consistently", "accounts with a nonce of 2 bytes and a balance of 3 bytes, storage values of the given length", "block tags (latest, finalized...) are not bound to a block"])
_A3, _K1, _K2 = "0x112233445566778899aabbccddeeff0102030405", "0x" + "0" * 60 + "0a0b", "0x1"
_B32 = "0x" + "".join("%02x" % (i * 7 + 1) for i in range(32))
_BH = "{" + ",".join(str(i * 7 + 1) for i in range(32)) + "}"
def V3(name, method, params, ra, ns=0, blk=0, want=0, wantv="{0}", nk=0, wk="{{0}}", rs=(1, 1), nr=[], **kw):
    import json as _j
    H("V03", name, "v03_account.c", "h_account", 400, skip=NOPROVER, fs=600 if method == "eth_getProof" else 256, unwindfn={"read_header": 9, "find_end": 400}, models=["vf_mem.c"] if method == "eth_getProof" else [], stubs=ERR + ["ssz_get", "ssz_len", "ssz_at", "patricia_verify", "ssz_verify_multi_merkle_proof", "c4_verify_header"], 
      defs=['METHOD="%s"' % method, "ARGS=%s" % _j.dumps(_j.dumps(params, separators=(",", ":"))), "RA=%d" % ra, "NS=%d" % ns, "RS={%d,%d}" % rs, "BLK=%d" % blk, "WANT_BLK=%d" % want, "WANT=" + wantv, "NK=%d" % nk, "WKEYS=" + wk] + ["%s=%s" % x for x in kw.items()], noreach=nr,
      bounds="%s, %d storage proofs, every content, root and outcome of the sub-checks" % (method, ns))
for m in ("eth_getBalance", "eth_getTransactionCount", "eth_getCode"):
    for ra in (0, 1, 2): V3("%s_%d" % (m[4:], ra), m, [_A3, "latest"], ra, nr=["proven"] if ra == 0 else [])
    V3(m[4:] + "_storage", m, [_A3, "latest"], 1, ns=1)
V3("balance_number", "eth_getBalance", [_A3, "0x123456789a"], 1, blk=8, want=8, wantv="{0x9a,0x78,0x56,0x34,0x12}")
V3("balance_hash", "eth_getBalance", [_A3, _B32], 1, blk=32, want=32, wantv=_BH)
for b, w, a in ((8, 32, _B32), (32, 8, "0x1"), (0, 8, "0x1"), (0, 32, _B32), (8, 0, "latest"), (32, 0, "finalized")):
    V3("balance_block_%d_%d" % (b, w), "eth_getBalance", [_A3, a], 1, blk=b, want=w, nr=["proven"])
V3("balance_no_address", "eth_getBalance", [], 1, nr=["proven"], NOADDR=1)
V3("balance_short_address", "eth_getBalance", ["0x1122", "latest"], 1, nr=["proven"], NOADDR=1)
V3("balance_null_address", "eth_getBalance", [None, "latest"], 1, nr=["proven"], NOADDR=1)
V3("balance_cut", "eth_getBalance", [_A3, "latest"], 1, SHAPE=2, nr=["proven"])
for ra in (0, 1, 2):
    for r in (0, 1, 2):
        V3("storage_%d_%d" % (ra, r), "eth_getStorageAt", [_A3, _K1, "latest"], ra, ns=1, nk=1, wk="{{10,11}}", rs=(r, 1), nr=["proven"] if ra != 1 or r == 0 else [])
for sv in (1, 31, 32, 33, 40): V3("storage_value_%d" % sv, "eth_getStorageAt", [_A3, _K1, "latest"], 1, ns=1, nk=1, wk="{{10,11}}", SV=sv, nr=["proven"] if sv > 32 else [])
for pl in (0, 1):
    V3("storage_missing_account_%d" % pl, "eth_getStorageAt", [_A3, _K1, "latest"], 2, ns=1, nk=1, wk="{{10,11}}", rs=(0 if pl == 0 else 1, 1), PLENS="{%d,2}" % pl, nr=["proven"] if pl else [])
    V3("storage_empty_%d" % pl, "eth_getStorageAt", [_A3, _K1, "latest"], 1, ns=1, nk=1, wk="{{10,11}}", rs=(0 if pl == 0 else 1, 1), PLENS="{%d,2}" % pl, EMPTY=1, nr=["proven"] if pl else [])
V3("storage_short_key", "eth_getStorageAt", [_A3, _K2, "latest"], 1, ns=1, nk=1, wk="{{0,1}}")
V3("storage_none", "eth_getStorageAt", [_A3, _K1, "latest"], 1, ns=0, nk=1, wk="{{10,11}}", nr=["proven"])
V3("storage_two", "eth_getStorageAt", [_A3, _K1, "latest"], 1, ns=2, nk=1, wk="{{10,11}}", nr=["proven"])
V3("storage_number", "eth_getStorageAt", [_A3, _K1, "0x7"], 1, ns=1, nk=1, wk="{{10,11}}", blk=8, want=8, wantv="{7}")
for ra in (0, 1, 2):
    V3("proof_%d" % ra, "eth_getProof", [_A3, [], "latest"], ra, nr=["proven"] if ra == 0 else [])
V3("proof_two", "eth_getProof", [_A3, [_K1, _K2], "latest"], 1, ns=2, nk=2, wk="{{10,11},{0,1}}")
V3("proof_two_missing", "eth_getProof", [_A3, [_K1, _K2], "latest"], 1, ns=2, nk=2, wk="{{10,11},{0,1}}", rs=(1, 2))
V3("proof_two_absent", "eth_getProof", [_A3, [_K1, _K2], "latest"], 2, ns=2, nk=2, wk="{{10,11},{0,1}}", rs=(1, 2), PLENS="{0,0}")
V3("proof_fewer", "eth_getProof", [_A3, [_K1, _K2], "latest"], 1, ns=1, nk=2, wk="{{10,11},{0,1}}", nr=["proven"])
V3("proof_more", "eth_getProof", [_A3, [_K1], "latest"], 1, ns=2, nk=1, wk="{{10,11}}", nr=["proven"])
V3("proof_hash", "eth_getProof", [_A3, [_K1], _B32], 1, ns=1, nk=1, wk="{{10,11}}", blk=32, want=32, wantv=_BH)

prop("V04", ["multi proofs (S04), SSZ hashing (S03), header checks (V01), SSZ access (S01), keccak and signature recovery are arbitrary functions that answer consistently", "transactions with fields of the given lengths", "v and chainId within the 8 and 32 bits of the result, fees within 64 bits, maxFeePerGas not below the base fee of the block"])
_S4 = ERR + ["ssz_get", "ssz_hash_tree_root", "ssz_verify_multi_merkle_proof", "c4_verify_header"]
def V4(name, method, params, by, widx=0, wnum=0, nr=[]):
    import json as _j
    H("V04", "proof_" + name, "v04_tx.c", "h_txproof", 140, skip=NOPROVER, fs=256, unwindfn={"find_end": 200}, stubs=_S4 + ["c4_write_tx_data_from_raw"], noreach=nr,
      defs=["PROOFS", 'METHOD="%s"' % method, "ARGS=%s" % _j.dumps(_j.dumps(params, separators=(",", ":"))), "BY=%d" % by, "WIDX=%dull" % widx, "WNUM=%dull" % wnum], bounds="%s%s, every transaction, block and outcome of the sub-checks" % (method, params))
V4("hash", "eth_getTransactionByHash", [_B32], 0)
for n, a in (("none", []), ("null", [None]), ("short", [_B32[:-2]]), ("long", [_B32 + "00"]), ("number", [5])):
    V4("hash_" + n, "eth_getTransactionByHash", a, 3, nr=["proven"])
    V4("block_hash_" + n, "eth_getTransactionByBlockHashAndIndex", a + ["0x1"], 3, nr=["proven"])
for i in (0, 1, 127, 128, 0xfffff, 0x100000, 0xffffffff):
    V4("block_hash_%x" % i, "eth_getTransactionByBlockHashAndIndex", [_B32, hex(i)], 1, i, nr=["proven"] if i > 0xfffff else [])
    V4("block_number_%x" % i, "eth_getTransactionByBlockNumberAndIndex", ["0x123456789a", hex(i)], 2, i, 0x123456789a, nr=["proven"] if i > 0xfffff else [])
V4("other_method", "eth_getBalance", [_B32], 3, nr=["proven"])

class _T:  # a symbolic byte of the transaction
    pass
def _sy(n): return [_T() for _ in range(n)]
def _hdr(base, n): return [base + n] if n < 56 else [base + 55 + (2 if n > 255 else 1)] + ([n >> 8] if n > 255 else []) + [n & 255]
def _ri(c): return list(c) if len(c) == 1 and not isinstance(c[0], _T) and c[0] < 0x80 else _hdr(0x80, len(c)) + list(c)
def _rl(*xs):
    c = sum(xs, [])
    return _hdr(0xc0, len(c)) + c
def _le(c, n): return (list(reversed(c)) + [0] * n)[:n]
def _lp(c): return [0] * (32 - len(c)) + list(c)
def _num(v): return [] if v == 0 else list(v.to_bytes((v.bit_length() + 7) // 8, "big"))
def _tx(name, typ, inp=3, to=20, v=0, rl=32, sl=32, nonce=2, gas=2, gp=5, prio=4, maxf=5, val=9, chain=1, acc=(), auth=0, blobs=0, mint=4, tiers="qt", dtiers=None, brk=False, rec=1):
    f = dict(nonce=_sy(nonce), gas=_sy(gas), gp=_sy(gp), prio=_sy(prio), maxf=_sy(maxf), val=_sy(val), to=_sy(to), inp=_sy(inp), r=_sy(rl), s=_sy(sl), chain=_sy(chain) if chain > 1 else [chain])
    A = [(_sy(20), [_sy(32) for _ in range(k)]) for k in acc]
    U = [dict(chain=[1], a=_sy(20), n=_sy(2), y=_num(i % 2), r=_sy(32 - i), s=_sy(32)) for i in range(auth)]
    B = [_sy(32) for _ in range(blobs)]
    it = lambda k: _ri(f[k])
    accl = _rl(*[_rl(_ri(a), _rl(*[_ri(k) for k in ks])) for a, ks in A])
    authl = _rl(*[_rl(*[_ri(u[k]) for k in ("chain", "a", "n", "y", "r", "s")]) for u in U])
    blobl = _rl(*[_ri(b) for b in B])
    tail = [it("to"), it("val"), it("inp")]
    if typ == 0: body = [it("nonce"), it("gp"), it("gas")] + tail
    elif typ == 1: body = [it("chain"), it("nonce"), it("gp"), it("gas")] + tail + [accl]
    elif typ == 0x7e:
        src, frm = _sy(32), _sy(20)
        body = [_ri(src), _ri(frm), it("to"), _ri(m := _sy(mint)), it("val"), it("gas"), [1], it("inp")]
    else:
        body = [it("chain"), it("nonce"), it("prio"), it("maxf"), it("gas")] + tail + [accl]
        if typ == 3: body += [_ri(mb := _sy(2)), blobl]
        if typ == 4: body += [authl]
    pre = [typ] if typ else []
    dep = typ == 0x7e
    raw = pre + _rl(*(body + ([] if dep else [_ri(_num(v)), it("r"), it("s")])))
    cid = (v - 35) // 2 if v > 28 else 1
    par = (v + 1) % 2 if typ == 0 else v
    sig = [0] if dep else pre + _rl(*(body + ([_ri(_num(cid)), [0x80], [0x80]] if typ == 0 and v > 28 else [])))
    rs = (frm if dep else _lp(f["r"]) + _lp(f["s"]) + [par])
    pos = {id(t): 1000 + i for i, t in enumerate(raw) if isinstance(t, _T)}
    enc = lambda l: "{" + ",".join(str(pos[id(t)] if isinstance(t, _T) else t) for t in l) + "}"
    c = lambda b, n: [b + i for i in range(n)]
    le4 = lambda v: list(v.to_bytes(4, "little"))
    dyn = [list(f["inp"]), list(f["to"])]
    off, ent = 4 * len(A), []
    accs, offs = [], []
    for a, ks in A:
        offs += le4(off + len(accs)); accs += list(a) + le4(24) + sum(ks, [])
    dyn += [offs + accs, sum([list(u["a"]) + _le(u["chain"], 4) + _le(u["n"], 8) + _lp(u["r"]) + _lp(u["s"]) + [i % 2] for i, u in enumerate(U)], []), sum(B, [])]
    fixed = 4 + 32 + 8 + 32 + 4 + 1 + 8 + 4 + 32 + 32 + 4 + 1 + 8 + 20 + 4 + 32 + 8 + 8 + 8 + 4 + 4 + 4 + 1 + 32 + 32 + 1 + 1
    o = [fixed]
    for d in dyn: o.append(o[-1] + len(d))
    mask = sum(1 << i for i in (range(1, 23) if not dep else [1, 2, 3, 4, 5, 6, 7, 12, 13, 14, 15, 16, 23, 24, 25, 26]))
    z = [0] * 8
    exp = le4(mask) + c(4000, 32) + c(5000, 8) + c(3000, 32) + c(6000, 4) + [typ] + (z if dep else _le(f["nonce"], 8)) + le4(o[0]) + ([0] * 64 if dep else _lp(f["r"]) + _lp(f["s"]))
    exp += (z[:4] if dep else le4(cid) if typ == 0 else _le(f["chain"], 4)) + [0 if dep else v] + _le(f["gas"], 8) + (frm if dep else c(2000, 20)) + le4(o[1]) + _le(f["val"], 32)
    exp += (z if dep else _le(f["gp"], 8) if typ < 2 else c(7000, 8)) + (z + z if dep or typ < 2 else _le(f["maxf"], 8) + _le(f["prio"], 8)) + le4(o[2]) + le4(o[3]) + le4(o[4]) + [par if not dep else 0]
    exp += (list(src) + _le(m, 32) + [1, 1]) if dep else [0] * 66
    exp += sum(dyn, [])
    rawt = "{" + ",".join("256" if isinstance(t, _T) else str(t) for t in raw) + "}"
    df = ["RAW_T=" + rawt, "SIG_T=" + enc(sig), "RS_T=" + enc(rs)]
    what = "type %d, input %d, to %d, v %d, r %d, s %d bytes, %d access list entries, %d authorizations, %d blobs, every content" % (typ, inp, to, v, rl, sl, len(acc), auth, blobs)
    kw = dict(skip=NOPROVER, fs=2 * max(len(raw), len(exp)), unwindfn={"read_header": 9}, models=["vf_mem.c"], stubs=ERR)
    if not brk:
        H("V04", "sender_" + name, "v04_tx.c", "h_sender", 400, tiers=tiers, defs=df, noreach=["no sender"] if dep else [], bounds=what, **kw)
        pp = {} if typ < 2 or dep else dict(PRIO=pos[id(f["prio"][0])] - 1000, PRIOLEN=prio, MAXFEE=pos[id(f["maxf"][0])] - 1000, MAXLEN=maxf)
        H("V04", "data_" + name, "v04_tx.c", "h_txdata", 600, tiers=dtiers or tiers, defs=df + ["EXP_T=" + enc(exp)] + ["%s=%d" % x for x in pp.items()] + ["REC=%d" % rec], noreach=["not decoded"] if rec else ["decoded"], bounds=what, **kw)
    else:
        for i, t in enumerate(raw):
            if isinstance(t, _T): continue
            H("V04", "broken_%s_%d" % (name, i), "v04_tx.c", "h_sender", 400, tiers="t", defs=["BROKEN", "RAW_T=" + ("{" + ",".join("256" if j == i else "7" if isinstance(x, _T) else str(x) for j, x in enumerate(raw)) + "}"), "SIG_T={0,0}", "RS_T={0}"], noreach=["sender", "no sender"], bounds="%s with an arbitrary byte %d" % (what, i), **kw)
for v in (27, 28, 37, 38, 235, 236): _tx("legacy_%d" % v, 0, v=v, dtiers="qt" if v in (27, 38) else "t")
_tx("legacy_create", 0, v=37, to=0, inp=60, dtiers="qt")
_tx("legacy_short", 0, v=38, rl=31, sl=30, nonce=0, val=0, inp=0, dtiers="qt")
_tx("legacy_unsigned", 0, v=37, rec=0)
_tx("type1", 1, v=1)
_tx("type1_access", 1, v=0, acc=(0, 2, 1))
_tx("type2", 2, v=0, rl=31)
_tx("type2_big", 2, v=1, sl=29, inp=70, acc=(1,), maxf=8, prio=8, chain=3)
_tx("type2_create", 2, v=1, to=0, acc=(0,))
_tx("type3", 3, v=1, blobs=2)
_tx("type3_noblob", 3, v=0, blobs=0, acc=(1,))
_tx("type4", 4, v=0, auth=2)
_tx("type4_none", 4, v=1, auth=0, acc=(1,))
_tx("deposit", 0x7e, v=0)
_tx("deposit_create", 0x7e, v=0, to=0, mint=0)
_tx("legacy", 0, v=37, inp=2, val=2, brk=True)
_tx("type2b", 2, v=1, inp=2, val=2, brk=True)

prop("V05", ["multi proofs (S04), patricia proofs (R02), SSZ hashing (S03), header checks (V01), SSZ access (S01), sender recovery (V04) and keccak are arbitrary functions that answer consistently", "receipts with up to 3 logs, up to 4 topics, fields of the given lengths", "gasUsed, effectiveGasPrice, logIndex and removed of a receipt are not part of the proof and are not covered"])
def V5(name, method, params, wanted, rp=1, nr=[], **kw):
    import json as _j
    H("V05", "proof_" + name, "v05_receipt.c", "h_rcptproof", 140, skip=NOPROVER, fs=256, unwindfn={"find_end": 200}, stubs=_S4 + ["patricia_verify", "c4_tx_verify_receipt_data"], noreach=nr,
      defs=["PROOFS", 'METHOD="%s"' % method, "ARGS=%s" % _j.dumps(_j.dumps(params, separators=(",", ":"))), "WANTED=%d" % wanted, "RP=%d" % rp] + ["%s=%s" % x for x in kw.items()], bounds="%s%s, every transaction, receipt, block and outcome of the sub-checks" % (method, params))
for i in (0, 1, 127, 128, 255, 256, 65535, 65536, 0xfffff): V5("index_%x" % i, "eth_getTransactionReceipt", [_B32], 1, WIDX=i)
for i in (0x100000, 0x0fffffff, 0xffffffff): V5("index_%x" % i, "eth_getTransactionReceipt", [_B32], 1, nr=["proven"], WIDX=str(i) + "u")
V5("index", "eth_getTransactionReceipt", [_B32], 1)
for rp in (0, 2): V5("not_found_%d" % rp, "eth_getTransactionReceipt", [_B32], 1, rp=rp, nr=["proven"], WIDX=5)
for n, a in (("none", []), ("null", [None]), ("short", [_B32[:-2]]), ("long", [_B32 + "00"])): V5("hash_" + n, "eth_getTransactionReceipt", a, 0, nr=["proven"], WIDX=5)
V5("method", "eth_getTransactionCount", [_B32], 0, nr=["proven"], WIDX=5)
V5("nodata", "eth_getTransactionReceipt", [_B32], 1, nr=["proven"], WIDX=5, NODATA=1)
def _rc(name, typ, logs=(), dlogs=None, to=20, dto=None, status=1, gas=3, nr=[], entry="h_rcptdata", tiers="qt", wrong=None, cut=None, **kw):
    dlogs = logs if dlogs is None else dlogs
    tos = _sy(to)
    body = {0: [_ri(_sy(2)), _ri(_sy(5)), _ri(_sy(2))], 1: [[1], _ri(_sy(2)), _ri(_sy(5)), _ri(_sy(2))], 0x7e: [_ri(_sy(32)), _ri(_sy(20))]}.get(typ, [[1], _ri(_sy(2)), _ri(_sy(4)), _ri(_sy(5)), _ri(_sy(2))])
    raw = ([typ] if typ else []) + _rl(*(body + [_ri(tos), _ri(_sy(3)), _ri(_sy(2))]))
    st, g, bl = ([1] if status == 1 else [] if status == 0 else _sy(status)), _sy(gas), _sy(256)
    ls = [(_sy(20), [_sy(32) for _ in range(t)], _sy(d)) for t, d in logs]
    dep = [_sy(2), _sy(1)]
    sti = _ri(st)
    rc = ([wrong if wrong is not None else typ] if typ else []) + _rl(*([sti, _ri(g), _ri(bl), _rl(*[_rl(_ri(a), _rl(*[_ri(t) for t in ts]), _ri(d)) for a, ts, d in ls])] + ([_ri(x) for x in dep] if typ == 0x7e else [])))
    p = {id(t): i for i, t in enumerate(rc) if isinstance(t, _T)}
    at = lambda l: p[id(l[0])] if l and isinstance(l[0], _T) else 0
    spos = 0 if status != 1 else at(g) - len(_hdr(0x80, gas)) - 1
    tm = lambda l: "{" + ",".join("256" if isinstance(t, _T) else str(t) for t in l) + "}"
    arr = lambda l: "{" + ",".join(map(str, list(l) + [0])) + "}"
    rp = {id(t): i for i, t in enumerate(raw) if isinstance(t, _T)}
    df = ["RAW_T=" + tm(raw), "RCPT_T=" + tm(rc[:cut]), "T=%d" % typ, "TOLEN=%d" % to, "DTO=%d" % (to if dto is None else dto), "TO=%d" % (rp[id(tos[0])] if to else 0), "GAS=%d" % at(g), "GASLEN=%d" % gas, "STATUS=%d" % (at(st) if status > 1 else spos), "STATUSLEN=%d" % status, "BLOOM=%d" % at(bl),
          "NL=%d" % len(logs), "DL=%d" % len(dlogs), "TN_T=" + arr(t for t, d in logs), "DTN_T=" + arr(t for t, d in dlogs), "LN_T=" + arr(d for t, d in logs), "DLN_T=" + arr(d for t, d in dlogs), "LADR_T=" + arr(at(a) for a, t, d in ls), "LTOP_T=" + arr(at(t[0]) - 1 if t else 0 for a, t, d in ls), "LDAT_T=" + arr(at(d) for a, t, d in ls)]
    if typ == 0x7e: df.append("DEP=%d" % at(dep[0]))
    if wrong is not None or cut is not None: df.append("WRONGTYPE")
    H(kw.get("prop", "V05"), name, "v05_receipt.c", entry, 700, tiers=tiers, skip=NOPROVER, fs=2 * len(rc), unwindfn={"read_header": 9}, stubs=ERR + ["ssz_get", "ssz_len", "ssz_at", "c4_tx_create_from_address"], defs=df, noreach=nr,
      bounds="type %d, status %d, gas %d bytes, receipt with logs %s, result with logs %s (topics, data length), every content" % (typ, status, gas, list(logs), list(dlogs)))
for t in (0, 1, 2, 3, 4, 0x7e): _rc("data_type%d" % t, t)
_rc("data_create", 2, to=0)
_rc("data_create_other", 2, to=0, dto=20, nr=["same"])
_rc("data_create_other2", 0, to=20, dto=0, nr=["same"])
_rc("data_failed", 2, status=0)
_rc("data_status", 2, status=32)
for g in (1, 2, 4, 8): _rc("data_gas%d" % g, 2, gas=g, tiers="qt")
_rc("data_log", 2, logs=((1, 3),))
_rc("data_logs", 0, logs=((0, 0), (2, 40)))
_rc("data_logs3", 4, logs=((3, 5), (4, 0), (0, 60)))
_rc("data_topics4", 1, logs=((4, 2),))
_rc("data_topics4_3", 2, logs=((4, 2),), dlogs=((3, 2),), nr=["same"])
_rc("data_missing_log", 2, logs=((1, 3), (1, 3)), dlogs=((1, 3),), nr=["same"])
_rc("data_more_logs", 2, logs=((1, 3),), dlogs=((1, 3), (1, 3)), nr=["same"])
_rc("data_no_logs", 2, logs=((1, 3),), dlogs=(), nr=["same"])
_rc("data_topic_count", 2, logs=((2, 3),), dlogs=((1, 3),), nr=["same"])
_rc("data_topic_count2", 2, logs=((1, 3),), dlogs=((2, 3),), nr=["same"])
_rc("data_topic_none", 2, logs=((1, 3),), dlogs=((0, 3),), nr=["same"])
_rc("data_data_len", 2, logs=((1, 3),), dlogs=((1, 2),), nr=["same"])
_rc("data_data_len2", 2, logs=((1, 3),), dlogs=((1, 4),), nr=["same"])
_rc("data_wrong_type", 2, wrong=1, nr=["same"])
_rc("data_cut", 2, logs=((1, 3),), cut=-1, nr=["same"])

prop("V06", ["multi proofs (S04), patricia proofs (R02), SSZ hashing (S03), header checks (V01), SSZ access (S01) and keccak are arbitrary functions that answer consistently", "up to 2 blocks, 2 transactions per block, 2 logs, 2 topics; receipts with up to 3 logs, up to 4 topics", "completeness of the logs, logIndex and removed are not part of the proof and are not covered; block tags are not bound to a block"])
def V6(name, method, params, nb, nt, nl, top=0, nr=[], tiers="qt", **kw):
    import json as _j
    H("V06", name, "v06_logs.c", "h_logs", 300, tiers=tiers, skip=NOPROVER, fs=256, unwindfn={"find_end": 400, "matches_filter_value": 5, "json_next_value": 40}, stubs=_S4 + ["ssz_len", "ssz_at", "ssz_from_json", "c4_tx_verify_receipt_proof", "c4_tx_verify_log_data"], noreach=nr,
      defs=['METHOD="%s"' % method, "ARGS=%s" % _j.dumps(_j.dumps(params, separators=(",", ":"))), "NB=%d" % nb, "NT=%d" % nt, "NLOG=%d" % nl, "TOP=%d" % top] + ["%s=%s" % x for x in kw.items()] + (["DUP"] if nb == 2 else []), bounds="%s, %d blocks with %d transactions, %d logs, filter %s, every content and outcome of the sub-checks" % (method, nb, nt, nl, params))
_W0, _W1 = _B32, "0x0209" + _B32[6:-2] + "db"
for nb, nt, nl in ((0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1), (1, 1, 2), (1, 2, 1), (1, 2, 2), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2)):
    V6("blocks_%d_%d_%d" % (nb, nt, nl), "eth_getLogs", [{}], nb, nt, nl, nr=["proven"] if (nl and not nb * nt) or (nb and not nt) else ["rejected"] if (nb, nt, nl) == (0, 0, 0) else [], tiers="t" if (nb, nt, nl) == (2, 2, 2) else "qt")
V6("verify", "eth_verifyLogs", [], 1, 1, 1, NODATA=1)
V6("verify2", "eth_verifyLogs", [], 1, 2, 2, NODATA=1)
V6("nodata", "eth_getLogs", [{}], 1, 1, 0, NODATA=1, nr=["proven"])
_Adr0, _Adr1 = _W0[:42], _W1[:42]
V6("address", "eth_getLogs", [{"address": _Adr0}], 1, 1, 1, F_ADDR=1, tiers="t")
V6("addresses", "eth_getLogs", [{"address": [_Adr0, _Adr1]}], 1, 1, 2, F_ADDR=2)
V6("range", "eth_getLogs", [{"fromBlock": "0x123456", "toBlock": "0x123459"}], 1, 1, 1, F_FROM=0x123456, F_TO=0x123459)
V6("from", "eth_getLogs", [{"fromBlock": "0x1"}], 1, 1, 1, F_FROM=1)
V6("to", "eth_getLogs", [{"fromBlock": "earliest", "toBlock": "0x10"}], 1, 1, 1, F_TO=16)
V6("block", "eth_getLogs", [{"blockHash": _W0}], 1, 1, 2, F_HASH=1)
V6("topic", "eth_getLogs", [{"topics": [_W0]}], 1, 1, 1, top=2, F_T0=1)
V6("topic_null", "eth_getLogs", [{"topics": [None, [_W0, _W1]]}], 1, 1, 1, top=2, F_T1=2)
V6("topic_both", "eth_getLogs", [{"address": [_Adr0, _Adr1], "topics": [[_W0, _W1], _W0], "fromBlock": "0x20"}], 1, 1, 1, top=2, F_ADDR=2, F_T0=2, F_T1=1, F_FROM=32)
V6("topic_any", "eth_getLogs", [{"topics": [[None, _W0], _W0, []]}], 1, 1, 1, top=2, F_T1=1)
V6("topic_missing", "eth_getLogs", [{"topics": [None, _W0]}], 1, 1, 1, top=1, F_T1=1, nr=["proven"])
_l6 = dict(entry="h_log", prop="V06")
_rc("log", 2, logs=((1, 3),), **_l6)
_rc("log_create", 0, to=0, logs=((0, 0),), **_l6)
_rc("log_second", 2, logs=((2, 3), (1, 4)), dlogs=((1, 4),), **_l6)
_rc("log_similar", 2, logs=((1, 4), (1, 4)), dlogs=((1, 4),), **_l6)
_rc("log_third", 1, logs=((0, 0), (2, 3), (4, 40)), dlogs=((4, 40),), **_l6)
_rc("log_none", 2, logs=(), dlogs=((1, 4),), nr=["same"], **_l6)
for i, (a, b) in enumerate((((1, 3), (1, 2)), ((1, 3), (1, 4)), ((1, 3), (0, 3)), ((1, 3), (2, 3)))): _rc("log_other_%d" % i, 2, logs=(a,), dlogs=(b,), nr=["same"], **_l6)

prop("V07", ["multi and single proofs (S04), SSZ hashing (S03), header checks (V01), SSZ access (S01), decoding of transactions (V04), the transaction trie and keccak are arbitrary functions that answer consistently", "blocks with up to 3 transactions, 2 withdrawals, extra data of the given length", "block tags are not bound to a block; withdrawalsRoot is taken as the SSZ root the current tests expect"])
def V7(name, params, by, wnum=0, ntx=0, full=0, fail=99, xd=3, nw=1, nr=[], tiers="qt", method="eth_getBlockByNumber"):
    import json as _j
    H("V07", name, "v07_block.c", "h_block", 1300, tiers=tiers, skip=NOPROVER, fs=1100, models=["vf_mem.c"], unwindfn={"find_end": 200}, stubs=_S4 + ["ssz_len", "ssz_at", "ssz_verify_single_merkle_proof", "patricia_set_value", "patricia_get_root", "patricia_node_free", "c4_write_tx_data_from_raw"], noreach=nr,
      defs=['METHOD="%s"' % method, "ARGS=%s" % _j.dumps(_j.dumps(params, separators=(",", ":"))), "BY=%d" % by, "WNUM=%dull" % wnum, "NTX=%d" % ntx, "FULL=%d" % full, "FAIL=%d" % fail, "XD=%d" % xd, "NW=%d" % nw], bounds="%s%s, %d transactions, %d withdrawals, extra data %d, every content and outcome of the sub-checks" % (method, params, ntx, nw, xd))
H("V07", "number", "v07_block.c", "h_number", 140, skip=NOPROVER, fs=128, stubs=_S4, defs=["NUMBER"], bounds="eth_blockNumber, every content and outcome of the sub-checks")
V7("latest", ["latest", False], 0)
V7("by_number", ["0x123456789a", False], 1, 0x123456789a, ntx=1)
V7("by_number_small", ["0x1", False], 1, 1)
V7("by_number_full", ["0x123456789a", True], 1, 0x123456789a, ntx=1, full=1)
V7("by_hash", [_B32, False], 2, ntx=2, nw=2, xd=32, method="eth_getBlockByHash")
V7("by_hash_full", [_B32, True], 2, ntx=3, full=1, nw=0, xd=0, method="eth_getBlockByHash")
for f in range(2): V7("undecodable_%d" % f, [_B32, True], 2, ntx=2, full=1, fail=f, nr=["proven"], method="eth_getBlockByHash")
for n, a in (("none", []), ("null", [None, False]), ("number", [5, False]), ("empty", ["", False])): V7("arg_" + n, a, 3, nr=["proven"])
