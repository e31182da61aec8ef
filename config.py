"""Build configurations, drivers and properties."""
OPT = ["-DSUPPORT_SM3_YANG15", "-DSUPPORT_SM4_LANG18"]
SIMD = ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AVX2", "-DCPU_FLAG_AES", "-DCPU_FLAG_MOVBE", "-DCPU_FLAG_BMI2",
        "-DCPU_FLAG_RDSEED", "-DCPU_FLAG_RDRAND", "-DCPU_FLAG_PCLMUL",
        "-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]
# gmlib reads words through casted byte pointers on x86 by design, so the
# alignment check is off; everything else is on and fatal.
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
        "-fno-sanitize-recover=all"]
CONFIGS = {
    "plain": {"cxx": ["g++"], "flags": ["-O2"]},
    "port": {"cxx": ["g++"], "flags": ["-O2"] + OPT},
    "simd": {"cxx": ["g++"], "flags": ["-O2"] + OPT + SIMD},
    "sse": {"cxx": ["g++"], "flags": ["-O2"] + OPT + ["-DCPU_FLAG_SSE2", "-msse2"]},
    "asse": {"cxx": ["clang++"], "flags": ASAN + OPT + ["-DCPU_FLAG_SSE2", "-msse2"], "san": True},
    "aplain": {"cxx": ["clang++"], "flags": ASAN, "san": True},
    "aport": {"cxx": ["clang++"], "flags": ASAN + OPT, "san": True},
    "asimd": {"cxx": ["clang++"], "flags": ASAN + OPT + SIMD, "san": True},
    "tport": {"cxx": ["clang++"], "flags": ["-O1", "-g", "-fsanitize=thread", "-pthread"] + OPT, "san": True},
    "tsimd": {"cxx": ["clang++"], "flags": ["-O1", "-g", "-fsanitize=thread", "-pthread"] + OPT + SIMD, "san": True},
    "vport": {"cxx": ["g++"], "flags": ["-O1", "-g", "-DVF_VALGRIND"] + OPT, "san": True,
              "wrap": ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--track-origins=no"]},
    "vsimd": {"cxx": ["g++"], "flags": ["-O1", "-g", "-DVF_VALGRIND"] + OPT + SIMD, "san": True,
              "wrap": ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--track-origins=no"]},
}
SUPP = None
CR = ["-lcrypto"]
DRIVERS = {
    "d_hash": {"modules": ["sm3", "hash_lib"], "libs": CR},
    "d_blk": {"modules": ["sm4", "aes"], "libs": CR},
    "d_gcm": {"modules": ["sm4", "aes", "ghash", "memory_utils"], "libs": CR},
    "d_num": {"modules": ["number"], "libs": CR},
    "d_sm2": {"modules": ["number", "sm2", "sm3", "asn1", "memory_utils"], "libs": CR},
    "d_sm9f": {"modules": ["number", "sm9", "memory_utils"], "libs": CR},
    "d_sm9": {"modules": ["number", "sm9", "sm3", "memory_utils"], "libs": CR},
    "d_asn1": {"modules": ["asn1", "sm2", "number", "memory_utils"], "libs": []},
    "d_rng": {"modules": [], "libs": []},
    "d_fault": {"modules": ["number", "sm2", "sm9", "sm3", "asn1", "memory_utils"], "libs": CR},
    "d_util": {"modules": ["memory_utils"], "libs": []},
    "d_ops": {"modules": ["number", "sm2", "sm9", "sm3", "sm4", "aes", "ghash", "hash_lib", "asn1", "memory_utils"], "libs": ["-pthread"]},
    "d_copy": {"modules": ["number", "sm2", "sm9", "sm3", "sm4", "aes", "ghash", "hash_lib", "asn1", "memory_utils"], "libs": []},
    "d_life": {"modules": ["number", "sm2", "sm9", "sm3", "sm4", "aes", "ghash", "hash_lib", "asn1", "memory_utils"], "libs": ["-pthread"]},
    "d_trace": {"modules": ["number", "sm2", "sm9", "sm3", "sm4", "aes", "ghash", "hash_lib", "asn1", "memory_utils"], "libs": ["-pthread"]},
    "d_modes": {"modules": ["sm4", "aes", "ghash", "memory_utils"], "libs": CR},
}
def runs(driver, cfgs, **kw):
    return [dict(driver=driver, cfg=c, **kw) for c in cfgs]
for _c in CONFIGS:
    if _c[0] in "tv":
        CONFIGS[_c]["slow"] = 4
# builds with only some of the x86 definitions
CONFIGS["aesni"] = {"cxx": ["g++"], "flags": ["-O2"] + OPT + ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AES", "-DCPU_FLAG_PCLMUL", "-msse2", "-maes", "-mpclmul", "-mssse3"]}
CONFIGS["num64"] = {"cxx": ["g++"], "flags": ["-O2"] + ["-DCPU_FLAG_MOVBE", "-DCPU_FLAG_BMI2", "-mmovbe", "-mbmi2"]}

# as in a debugging build: nothing that could be evaluated later is folded
CONFIGS["dbg"] = {"cxx": ["g++"], "flags": ["-O0"] + OPT, "slow": 3}
CONFIGS["cdbg"] = {"cxx": ["clang++"], "flags": ["-O0"] + OPT + SIMD, "slow": 3}
# automatic variables that were never set hold a chosen value
for _n, _v, _x, _f in (("zero", "zero", "g++", []), ("pat", "pattern", "g++", []), ("czero", "zero", "clang++", SIMD), ("cpat", "pattern", "clang++", SIMD)):
    CONFIGS["init" + _n] = {"cxx": [_x], "flags": ["-O1", "-ftrivial-auto-var-init=" + _v] + OPT + _f}

def borrow(prop, driver, cfgs, **kw):
    return [dict(driver=driver, cfg=c, prop=prop, **kw) for c in cfgs]

# how many times the quick tier's sampled cases are run (where they are cheap)
MULT = {"C02": 6, "C03": 3, "C04": 3, "C05": 2, "C06": 2, "C07": 10, "C08": 2, "C09": 5, "C10": 8, "C11": 3, "C12": 4, "C13": 10, "C14": 2, "C18": 2, "C19": 4,
        "C20": 4, "C21": 3, "C22": 10, "C28": 4, "C34": 6}

def compare_builds(results):
    """C32: every case ran with the same inputs in every build; the digests of
    its outputs must agree (builds of one compiler: the drivers leave it the order
    in which it evaluates arguments)."""
    import os
    fails, info = [], {}
    groups = {}
    for r, out, res in results:
        p = os.path.join(out, "transcript")
        if not r.get("transcript") or not os.path.exists(p):
            continue
        d = groups.setdefault((r["driver"], r.get("prop", "C32"), CONFIGS[r["cfg"]]["cxx"][0]), {}).setdefault(r["cfg"], {})
        for l in open(p):
            name, idx, h = l.rsplit(" ", 2)
            if r.get("skip") and any(name.startswith(s) for s in r["skip"]):
                continue
            d[(name, int(idx))] = h.strip()
    compared = 0
    for (drv, pr, _), by in sorted(groups.items()):
        cfgs = sorted(by)
        ref = "plain" if "plain" in by else cfgs[0]
        for c in cfgs:
            if c == ref:
                continue
            for k in by[ref].keys() & by[c].keys():
                compared += 1
                if by[ref][k] != by[c][k]:
                    fails.append({"case": k[0], "idx": k[1], "key": "builds:%s:%s" % (pr, k[0]), "config": c, "driver": drv, "cases_of": pr,
                                  "detail": "outputs of case %s #%d differ between the builds %s and %s" % (k[0], k[1], ref, c)})
    info = {"comparisons_between_builds": compared, "groups": {"%s/%s %s" % k: sorted(v) for k, v in groups.items()}}
    if compared == 0:
        fails.append({"case": "?", "idx": 0, "key": "nothing-compared", "config": "?", "driver": "?", "detail": "no transcript was compared"})
    return fails, info

MEM = r"^(crash|hang|race):|over(run|write)|^input|operand|changed"
PROPS = {
    "C01": {"runs": runs("d_hash", ["plain", "port", "simd", "aplain", "asimd"]),
            "rule": "A case is a message (length, content class) with a chunking, or a history of update/final/reset/copy steps on several objects; distinct = distinct hash of message bytes and chunk lengths or of the history."},
    "C02": {"runs": runs("d_hash", ["plain", "port", "asimd"]),
            "rule": "A case is a key, a message and a chunking, or a history of re-keyings; distinct = distinct hash of the key and message bytes."},
    "C03": {"runs": runs("d_blk", ["plain", "port", "simd", "aplain", "asimd"]),
            "rule": "A case is a key, a number of blocks, their content and the buffer offsets; distinct = distinct hash of key and blocks."},
    "C04": {"runs": runs("d_blk", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a key, a number of blocks, their content and the buffer offsets; distinct = distinct hash of key and blocks."},
    "C05": {"runs": runs("d_modes", ["plain", "port", "simd", "aport", "asimd"]),
            "rule": "A case is a cipher, direction, key, IV, message and chunking; distinct = distinct hash of all of them."},
    "C06": {"runs": runs("d_modes", ["plain", "port", "simd", "aport", "asimd"]),
            "rule": "A case is a cipher, mode, direction, key, IV (biased to counters about to carry), message and chunking; distinct = distinct hash of all of them."},
    "C07": {"runs": runs("d_modes", ["plain", "simd", "aport", "asimd"]),
            "rule": "A case is a random history of init/reset/update/do_final/copy steps on one object; distinct = distinct hash of key and random state after each step."},
    "C08": {"runs": runs("d_gcm", ["plain", "port", "simd", "aport", "asimd"]),
            "rule": "A case is a cipher, key, IV, additional data, message and chunking; distinct = distinct hash of key, IV, additional data and message."},
    "C09": {"runs": runs("d_gcm", ["plain", "simd", "aport", "asimd"]),
            "rule": "A case is one authentic message with a set of alterations, or a set of interleaved objects; distinct = distinct hash of keys, IVs, additional data and messages."},
    "C10": {"runs": runs("d_gcm", ["plain", "port", "simd", "aport", "asimd"]),
            "rule": "A case is a hash key with an input and a chunking, or a history of update/final/reset/set_key steps; distinct = distinct hash of key and data."},
    "C11": {"runs": runs("d_util", ["port", "sse", "simd", "aport", "asse", "asimd"]),
            "rule": "A case is a size with two random buffers, their offsets and every aliasing, a value with its offset, or a counter; distinct = distinct hash of the bytes, size and offset."},
    "C12": {"runs": runs("d_num", ["plain", "simd", "aport", "asimd"]),
            "rule": "A case is a pair of operands and a word, with every operation and every aliasing of them; distinct = distinct hash of the operands."},
    "C13": {"runs": runs("d_num", ["plain", "simd", "aport", "asimd"]),
            "rule": "A case is a modulus, two residues, an exponent and a byte string, with every operation and aliasing; distinct = distinct hash of them."},
    "C14": {"runs": runs("d_sm2", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a scalar with a point, a pair of points with their projective representations, or a byte string offered to the decoder; distinct = distinct hash of points, scalars and kind of alteration."},
    "C15": {"runs": runs("d_sm2", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a candidate private key, public key or random-source value together with the key set before; distinct = distinct hash of them."},
    "C16": {"runs": runs("d_sm2", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a private key, identity, message and stream of random draws; distinct = distinct hash of them."},
    "C17": {"runs": runs("d_sm2", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a public key, identity, message and signature with its alterations; distinct = distinct hash of them."},
    "C18": {"runs": runs("d_sm2", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a key, plaintext, point format and stream of random draws; distinct = distinct hash of them."},
    "C19": {"runs": runs("d_sm2", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a ciphertext and the set of its alterations; distinct = distinct hash of the ciphertext."},
    "C20": {"runs": runs("d_asn1", ["port", "asimd"]),
            "rule": "A case is a value with its length and following bytes, or a content length; distinct = distinct hash of the value or length."},
    "C21": {"runs": runs("d_asn1", ["port", "asimd"]),
            "rule": "A case is a byte string offered to every decoder (all strings of up to three bytes, all truncations of an encoding, mutated encodings); distinct = distinct hash of the byte string."},
    "C22": {"runs": runs("d_asn1", ["port", "asimd"]),
            "rule": "A case is an SM2 structure with its component values, or an alleged encoding of one; distinct = distinct hash of components or bytes."},
    "C23": {"runs": runs("d_sm9f", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is one or two field elements of one tower level with every operation and aliasing, or an element and an exponent; distinct = distinct hash of the coefficients."},
    "C24": {"runs": runs("d_sm9f", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a scalar with a point, a pair of points with their projective representations, or a byte string offered to the decoder; distinct = distinct hash of points, scalars and kind of alteration."},
    "C25": {"runs": runs("d_sm9f", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a pair of points, given by their logarithms or not, with scalars; distinct = distinct hash of points and scalars."},
    "C26": {"runs": runs("d_sm9", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a master key, identity, key identifier, message, point format and stream of random draws, or a candidate key; distinct = distinct hash of them."},
    "C27": {"runs": runs("d_sm9", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a signature with its alterations, or a byte string offered as one; distinct = distinct hash of the signature."},
    "C28": {"runs": runs("d_rng", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a generator, its number of retries, the request lengths and alignments and the failures of the source before each word; distinct = distinct hash of them."},
    "C29": {"runs": runs("d_fault", ["port", "simd", "aport", "asimd"]),
            "rule": "A case is a history of operations on key objects with the point and manner in which the random source fails; distinct = distinct hash of keys, operations and failure points."},
    "C30": {"runs": runs("d_ops", ["tport", "tsimd"], shards=8) + runs("d_ops", ["port", "simd"]),
            "rule": "A case is a set of threads with their sequences of operations and streams of scheduling delays, or an operation with the operations nested in it; distinct = distinct hash of the operations and their random streams."},
    "C31": {"runs": runs("d_ops", ["aplain", "aport", "asimd", "asse"])
            + [x for p, d in (("C01", "d_hash"), ("C02", "d_hash"), ("C03", "d_blk"), ("C04", "d_blk"), ("C05", "d_modes"), ("C06", "d_modes"), ("C07", "d_modes"),
                              ("C08", "d_gcm"), ("C09", "d_gcm"), ("C10", "d_gcm"), ("C11", "d_util"), ("C12", "d_num"), ("C13", "d_num"), ("C14", "d_sm2"),
                              ("C19", "d_sm2"), ("C20", "d_asn1"), ("C21", "d_asn1"), ("C22", "d_asn1"), ("C23", "d_sm9f"), ("C24", "d_sm9f"), ("C27", "d_sm9"), ("C34", "d_asn1"))
               for x in borrow(p, d, ["aport", "asimd"], scale=0.25, shards=1, only=MEM)],
            "rule": "A case is an operation with its random stream, or a case of the other checks run under the sanitizers; distinct = distinct hash of the operation and its inputs."},
    "C32": {"runs": runs("d_ops", ["plain", "port", "simd", "sse", "aesni", "num64"], salt="x", transcript=True)
            + [x for p, d in (("C03", "d_blk"), ("C04", "d_blk"), ("C05", "d_modes"), ("C06", "d_modes"), ("C08", "d_gcm"), ("C09", "d_gcm"), ("C14", "d_sm2"), ("C17", "d_sm2"), ("C20", "d_asn1"),
                              ("C22", "d_asn1"), ("C24", "d_sm9f"), ("C26", "d_sm9"))
               for x in borrow(p, d, ["port", "simd"], scale=0.2, shards=1, salt="x", transcript=True, only="^$", skip=["impl", "selftest", "huge"])],
            "post": compare_builds,
            "rule": "A case is an operation with its random stream, run in every build; distinct = distinct hash of the operation and stream."},
    "C33": {"runs": runs("d_ops", ["vport", "vsimd"], shards=8) + runs("d_ops", ["port", "simd"])
            + borrow("C33", "d_ops", ["initzero", "initpat", "initczero", "initcpat"], salt="x", transcript=True, cases="unset-locals")
            + [x for p, d, sc in (("C01", "d_hash", .01), ("C02", "d_hash", .01), ("C05", "d_modes", .02), ("C06", "d_modes", .02), ("C07", "d_modes", .05), ("C08", "d_gcm", .03), ("C09", "d_gcm", .03), ("C10", "d_gcm", .03),
                                  ("C11", "d_util", .01), ("C12", "d_num", .02), ("C13", "d_num", .02), ("C14", "d_sm2", .02), ("C17", "d_sm2", .03), ("C19", "d_sm2", .03), ("C21", "d_asn1", .02), ("C22", "d_asn1", .02), ("C23", "d_sm9f", .02),
                                  ("C24", "d_sm9f", .02), ("C27", "d_sm9", .1), ("C28", "d_rng", .05), ("C29", "d_fault", .1), ("C34", "d_asn1", .02))
               for x in borrow(p, d, ["vport", "vsimd"], scale=sc, shards=1, only=MEM)],
            "post": compare_builds,
            "rule": "A case is an operation with its random stream, under valgrind with undefined output buffers, repeated over differently filled memory, or in builds that give unset variables different values; distinct = distinct hash of the operation and stream."},
    "C34": {"runs": runs("d_asn1", ["port", "asimd"]),
            "rule": "A case is a byte range with line width and formats, or an alleged encoding; distinct = distinct hash of the bytes and formats."},
    "C35": {"runs": runs("d_copy", ["plain", "port", "simd", "aport", "asimd"]),
            "rule": "A case is a history of uses, copies, assignments, moves, swaps and destructions of a family of objects of one class; distinct = distinct hash of class and history."},
    "C36": {"runs": runs("d_life", ["dbg", "cdbg", "port", "simd", "asimd"]),
            "rule": "A case is a process with a sequence of operations performed before, in and after main, an operation with the point at which the process forks in it, or a random source with the forks and threads drawing from it; distinct = distinct hash of operations, streams and points."},
    "C37": {"runs": runs("d_trace", ["port", "simd", "cdbg"]),
            "rule": "A case is an operation with its random stream and the number of repetitions, the point at which its random source throws or the floating-point settings it finds, or a random source with its requests; distinct = distinct hash of them."},
}

REF = "runtime monitoring: reference-model oracle on generated workloads, exact-size guarded buffers, ASan+UBSan builds"
HIST = "runtime monitoring: history monitor against a fresh model, exact output accounting, ASan+UBSan builds"
NOTES = {
    "C01": (REF, "OpenSSL SM3 as reference; all lengths 0..4 blocks exhaustively, sampled chunkings and histories, lengths past 2^32 bits in the thorough tier"),
    "C02": (REF, "OpenSSL HMAC as reference; sampled keys, chunkings and re-keying histories"),
    "C03": (REF, "OpenSSL SM4 as reference in every selectable implementation; sampled keys and blocks, every batch size"),
    "C04": (REF, "OpenSSL AES as reference in every selectable implementation; sampled keys and blocks, every batch size"),
    "C05": (HIST, "OpenSSL modes as reference; sampled"),
    "C06": (HIST, "OpenSSL modes as reference, counters biased to carry; sampled"),
    "C07": (HIST, "random object histories; sampled"),
    "C08": (REF, "own SP 800-38D model cross-checked with OpenSSL; IVs solved for wrapping counters; sampled"),
    "C09": (REF, "every single-bit alteration of tag and IV, sampled alterations elsewhere, interleaved objects"),
    "C10": (REF, "own GF(2^128) model; sampled keys, inputs, histories"),
    "C11": (REF, "every size up to 300 and every alignment; sampled content"),
    "C12": (REF, "OpenSSL BIGNUM as reference; limb-saturated operands, every aliasing"),
    "C13": (REF, "OpenSSL BIGNUM as reference; operands at the edges of the representation, every aliasing"),
    "C14": (REF, "OpenSSL EC as reference; sampled scalars with structure, every malformed-encoding class"),
    "C15": (REF, "boundary and sampled keys, scripted random sources"),
    "C16": (REF, "own GB/T 32918.2 model over OpenSSL EC; controlled hash forces each retry rule"),
    "C17": (REF, "own GB/T 32918.2 model; signatures valid by construction with extreme components"),
    "C18": (REF, "own GB/T 32918.4 model; controlled KDF forces the all-zero-mask retry"),
    "C19": (REF, "all single-bit alterations and truncations of short ciphertexts, sampled otherwise"),
    "C20": (REF, "own DER model; every length at length-octet boundaries, sampled values"),
    "C21": (REF, "all byte strings of up to three bytes, all truncations, mutated encodings under ASan"),
    "C22": (REF, "own DER model; one known finding (see known-findings.txt)"),
    "C23": (REF, "own tower-field model over BIGNUM; coefficients at the edges of the representation, every aliasing"),
    "C24": (REF, "OpenSSL EC and own twist model; sampled scalars with structure, every malformed-encoding class"),
    "C25": (REF, "own pairing implemented from the definition, calibrated on the standard's example; sampled points"),
    "C26": (REF, "own GB/T 38635.2 model; controlled hash forces the retry and no-key rules"),
    "C27": (REF, "own GB/T 38635.2 model; alterations and signatures valid by construction, degenerate cases included"),
    "C28": ("runtime monitoring: scripted entropy source below the library with injected failures, exact-size guarded buffers, ASan+UBSan builds", "all request lengths up to 100 with sampled failure runs around the retry limit"),
    "C29": ("runtime monitoring: fault injection at every draw of the random source, history monitor against a model of the keys, ASan+UBSan builds", "every draw of every operation fails in turn, repeated draws included; sampled histories"),
    "C30": ("runtime monitoring: ThreadSanitizer and comparison with the single-threaded run, injected scheduling noise, re-entrant operations", "sampled schedules; first uses by several threads in each of many processes; two builds under TSan, two without"),
    "C31": ("runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer, guard bytes, exact-size buffers at every alignment", "sampled operations in four builds plus the workloads of 22 other checks"),
    "C32": ("runtime monitoring: per-case output digests of six builds compared", "sampled; every operation in six builds, workloads of twelve other checks in two"),
    "C33": ("runtime monitoring: valgrind memcheck with undefined output buffers, repetition over differently filled stack and heap", "sampled operations plus the workloads of 22 other checks at small scale"),
    "C34": (REF, "own model of the printed text; sampled encodings, malformed encodings under ASan"),
    "C35": ("runtime monitoring: twin comparison with an object of the same history that was never copied, destroyed objects overwritten, ASan+UBSan builds", "all 60 object classes of the public interface; sampled histories"),
    "C36": ("runtime monitoring: the program run again as a process of its own with operations in the first constructor and last destructor, forks inside operations, results compared with those in main; ASan's initialisation-order checker", "every operation first in a process, unoptimised and optimised builds; sampled fork points"),
    "C37": ("runtime monitoring: heap, mapping, descriptor and process-settings monitor around repeated operations, exceptions of its own injected by the random source, hostile floating-point settings", "sampled operations of every kind; sampled throwing points and settings"),
}
