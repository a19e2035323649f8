"""Workloads per property: (module, tests, variants, quick cases, thorough cases)."""
V3 = ["up", "conv", "upfull"]
V2 = ["up", "conv"]
VD = ["up", "upfull"]      # 3.0: rounding mode does not matter, debug assertions do
MIN_NONTRIVIAL = 50
RULE = ("one case = one generated valid call (shape, strides, quantisation, configuration and data drawn from VERIF_SEED) executed twice on the "
        "real library under ASan+UBSan and compared with an independent model; non-trivial = the expected output is not constant; "
        "distinct = hash of the expected output values")
ASSUME = ["x86-64 reference implementation (the code the repository builds and tests here), gcc 13, -O1 with ASan+UBSan",
          "documented preconditions of each function hold for the generated calls"]


def more_variants(v):
    """the thorough tier adds the fourth rounding/accumulator combination"""
    return v + ["convfull"] if set(V3) <= set(v) else v


PROPS = {
    "C02": dict(work=[("conv2", ["conv2d"], V3, 20000*2, 400000)]),
    "C03": dict(work=[("conv2", ["depthwise", "group"], V3, 16000*2, 300000)]),
    "C04": dict(work=[("conv2", ["transpose"], V3, 20000*2, 400000)]),
    "C05": dict(work=[("fc", ["fully_connected", "rnn_dense"], V3, 30000*2, 600000)]),
    "C06": dict(work=[("pool", ["maxpool", "avepool"], V3, 20000, 400000), ("pool", ["avepool_large"], V3, 16, 200)]),
    "C07": dict(work=[("elt", ["elt_add", "elt_sub", "elt_mul", "elt_min", "elt_max"], V3, 20000*2, 400000)]),
    "C08": dict(work=[("relu", ["relu", "leaky_relu", "prelu"], V3, 30000*2, 600000)]),
    "C09": dict(work=[("lut", ["sigm", "tanh", "softmax", "l2_normalize"], V3, 16000*2, 300000), ("lut", ["lut_tables"], V2, 60, 200)]),
    "C10": dict(work=[("rnn", ["lstm", "gru"], V3, 20000*2, 400000)]),
    "C11": dict(work=[("diverse", ["argmax", "permute"], V2 + ["upfull"], 20000*2, 400000)]),
    "C12": dict(work=[("mov", ["mov_sync", "mov_async", "mov_cfg"], V2 + ["upfull"], 20000*2, 400000)]),
    "C13": dict(work=[("hlp", ["convert", "queries", "subtensor"], V3, 20000*2, 400000), ("hlp", ["point_to"], V3, 4000, 40000)]),
    "C14": dict(work=[("30mac", ["conv30", "conv30_tiled", "tconv30", "tconv30_tiled", "fc30", "matmul30", "matmul30_tiled"], VD, 10000, 200000), ("30mac", ["fc30_wzp"], VD, 400, 4000)]),
    "C15": dict(work=[("30elt", [t + s for t in ("elt30", "rescale30", "prelu30", "clip30", "reduce30", "pool30", "permute30", "mbcast30") for s in ("", "_tiled")], VD, 8000, 160000),
                      ("30mov", ["move30", "move30_tiled", "resize30"], VD, 16000, 300000)]),
}
# Cross-module checks: the same workloads judged only for what was touched, for undefined
# behaviour, crashes and repeatability.
MEM = ["memory", "repeat", "crash", "hang"]
MEMRULE = ("one case = one generated valid call (or sequence of calls) executed twice over different stale memory and placements, every operand in its own exact-size guarded "
           "block, under ASan+UBSan; every byte outside the elements the call may write is compared with its previous contents, and both results with each other; "
           "non-trivial = the expected output is not constant; distinct = hash of the expected output values")
MEMTECH = "runtime monitoring: generated calls under ASan+UBSan, guarded exact-size buffers, byte-wise write-set monitor and repetition over different stale memory"


def spread(ids, q, th, variants=None):
    """the workloads of the given properties with other case counts"""
    out = []
    for i in ids:
        for mod, tests, v, n, t in PROPS[i]["work"]:
            out.append((mod, tests, variants or v, min(n, q), min(t, th)))
    return out


T30 = {"30mac": ["conv30", "tconv30", "matmul30"], "30elt": ["elt30", "rescale30", "prelu30", "clip30", "reduce30", "pool30", "permute30", "mbcast30"], "30mov": ["move30"]}
TILED = [(m, [t + "_tiled" for t in ts], VD, 14000, 250000) for m, ts in T30.items()]
PROPS["C16"] = dict(work=TILED + [("30iter", ["iter_order", "iter_window", "iter_cfg", "tensor_views", "iter_gran", "iter_link"], VD, 8000, 200000)])
RELOC = [("30mac", [t + "_reloc" for t in ("conv30", "tconv30", "fc30", "matmul30")], VD, 5000, 100000),
         ("30elt", [t + "_reloc" for t in ("elt30", "rescale30", "prelu30", "clip30", "permute30", "mbcast30", "reduce30", "pool30")], VD, 5000, 100000),
         ("30mov", ["move30_reloc", "nop30_reloc"], VD, 5000, 100000)]
PROPS["C17"] = dict(work=RELOC,
    rule="one case = one compiled kernel whose private data is copied, moved and then destroyed together with the compile-time object, run as two instances at different base addresses "
         "(several buffers sharing poisoned regions, exact-size instances), in two placements, against an independent model; non-trivial = the expected output is not constant; "
         "distinct = hash of the expected output values",
    technique="runtime monitoring: relocated twin instances under ASan+UBSan compared byte-wise with each other and with a reference model; refusal of wrong sizes and identifiers observed in child processes")
PROPS["C01"] = dict(work=spread(["C%02d" % i for i in range(2, 14)], 5000, 100000, VD), kinds=MEM, rule=MEMRULE, technique=MEMTECH)
PROPS["C19"] = dict(work=[("conc", ["conc_mix"], ["tsan"], 6000, 60000), ("conc", ["conc_share"], ["tsan"], 24000, 240000)],
    rule="one case = one schedule: 2-4 threads started at a barrier, each running generated calls of the library on operands of its own (conc_mix), or one generated call issued from 2-4 threads "
         "with random start delays sharing every input, table and configuration, outputs cloned per thread (conc_share; 3.0 kernels: two instances of one blob); non-trivial = calls of different "
         "threads were observed to overlap in time; distinct = hash of the pairs of functions that overlapped and of the expected outputs",
    assumptions=["x86-64 reference implementation, gcc 13 ThreadSanitizer, -O1", "documented preconditions of each function hold for the generated calls",
                 "data movement is synchronous: the channel pool of the asynchronous interface is one process-wide resource and not claimed to be thread safe"],
    technique="runtime monitoring: ThreadSanitizer over concurrent generated calls, results compared with serial execution")
PROPS["C20"] = dict(work=spread(["C14", "C15"], 4000, 80000), kinds=MEM, rule=MEMRULE, technique=MEMTECH)
# Every 2.0 function, with the library's argument checks compiled in: valid calls, and corrupted variants of them.
PROPS["C18"] = dict(work=[(m, [t for t in ts if t not in ("avepool_large", "mov_async", "mov_cfg", "queries")], ["upchk"], n, th)
                          for m, ts, _, n, th in spread(["C%02d" % i for i in range(2, 14)], 6000, 120000) if ts != ["avepool_large"]],
    rule="one case = one generated valid call, which must succeed and match the independent model, followed by up to six calls with one operand description or configuration field corrupted "
         "(drawn from the documented validity, shape, rank, type, stride, capacity, overlap, quantisation and parameter conditions), each of which must return an error and leave every operand byte "
         "as it was, under ASan+UBSan; non-trivial = the expected output of the valid call is not constant; distinct = hash of the expected output values",
    technique="runtime monitoring: single-field corruptions of generated valid calls under ASan+UBSan, observed status and write set")
