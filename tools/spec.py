#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props as P
VERIF = os.path.dirname(HERE)
L = "lib/src/"
T = []


def prop(id, title, statement, over, text, cant, files, mech, observe):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=cant,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))


CRC = "The tests run each function on a handful of fixed vectors and compare checksums or SNR; they sample "

prop("C01", "2.0 functions touch only what they may and are repeatable",
     "Every MLI 2.0 kernel, data-movement function and helper called with valid arguments reads only its operands and writes only the elements of its output tensor: "
     "no byte outside the tensors' buffers, in the gaps between strided elements, in inputs, configuration or look-up tables is changed or consulted, and no undefined behaviour is executed. "
     "The result depends only on the operands: stale memory and earlier calls never influence it.",
     ["inputs", "configurations", "histories"],
     "every valid shape, stride, quantisation, configuration and data value, every build configuration (rounding mode, accumulator mode), every history of earlier calls",
     CRC + "no partially-filled strides, no guarded buffers and no repeated calls over different garbage.",
     ["include/api/mli_kernels_api.h", "include/api/mli_helpers_api.h", "include/api/mli_mov_api.h", L + "kernels", L + "move", L + "helpers", L + "private/src/mli_prv_tensor.h"],
     [("tensor views and stride arithmetic", L + "private/src/mli_prv_tensor.h"), ("saturating fixed-point primitives", L + "pal/ref/mli_math.h")],
     ["return of every public 2.0 function: buffers, gaps, structures", "ASan/UBSan reports inside the call"])

prop("C02", "2.0 convolution is the quantised sliding dot product",
     "For every valid call, 2-D convolution returns in each output element the exact dot product of the zero-padded, dilated input window and the filter plus bias, brought to the output format by the "
     "library's documented rounding and saturation and clipped by the fused ReLU. The specialised variants return the same as the generic function.",
     ["inputs", "configurations"], "every shape, stride, dilation, padding, fused ReLU, data type, quantisation and data value satisfying the documented conditions",
     CRC + "a few dozen shapes with one stride/padding/dilation each.",
     [L + "kernels/convolution/mli_krn_conv2d_hwcn.cc", L + "kernels/convolution/mli_krn_convolution.h", L + "kernels/convolution/impl/mli_krn_convolution_ref.h"],
     [("convolution2D", L + "kernels/convolution/impl/mli_krn_convolution_ref.h"), ("accumulator cast and requantisation", L + "private/src/mli_prv_quant.h")],
     ["output tensor at return"])
prop("C03", "2.0 depthwise and group convolution keep channels apart",
     "Depthwise convolution and group convolution return, per output channel, the quantised dot product of only that channel's (or group's) inputs with its own filter plus bias, under the same padding, dilation, rounding, "
     "saturation and ReLU rules as the full convolution, for every valid call; specialised and generic variants agree.",
     ["inputs", "configurations"], "every valid shape, number of groups, stride, dilation, padding, data type, per-tensor and per-axis quantisation and data value",
     CRC + "a few dozen shapes, mostly with equal-looking channels.",
     [L + "kernels/convolution/mli_krn_depthwise_conv2d_hwcn.cc", L + "kernels/convolution/mli_krn_group_conv2d.h", L + "kernels/convolution/impl/mli_krn_convolution_ref.h"],
     [("depthwise_convolution2D", L + "kernels/convolution/impl/mli_krn_convolution_ref.h"), ("group split", L + "kernels/convolution/mli_krn_group_conv2d.h")],
     ["output tensor at return"])
prop("C04", "2.0 transpose convolution is the adjoint of convolution",
     "Transpose convolution scatters every input element, weighted by the filter, to stride*position + tap - padding and returns the exact quantised sum plus bias for each output element, for every valid call; "
     "specialised and generic variants agree.",
     ["inputs", "configurations"], "every valid shape, stride, padding, data type, quantisation and data value",
     CRC + "a few kernel/stride pairs with symmetric padding.",
     [L + "kernels/convolution/mli_krn_transpose_conv2d_hwcn.cc", L + "kernels/convolution/mli_krn_transpose_conv.h"],
     [("transpose_conv2d_prepare_and_run and padding computation", L + "kernels/convolution/mli_krn_transpose_conv.h")],
     ["output tensor at return"])
prop("C05", "2.0 fully connected and RNN dense compute the quantised affine map",
     "Fully connected and RNN dense return for every valid call the exact matrix-vector product(s) plus bias, rounded, saturated and (fully connected) clipped by the fused ReLU as documented, whatever the number of inputs, "
     "the data layout and the quantisation granularity.",
     ["inputs", "configurations"], "every valid shape, rank, stride, quantisation, bias handling, number of RNN inputs and data value",
     CRC + "small matrices of fixed data.",
     [L + "kernels/common/mli_krn_fully_connected.h", L + "kernels/common/mli_krn_rnn_dense.cc"],
     [("fully_connected_prepare_and_run", L + "kernels/common/mli_krn_fully_connected.h"), ("rnn dense op", L + "kernels/common/mli_krn_rnn_dense.h")],
     ["output tensor at return"])
prop("C06", "2.0 pooling reduces exactly the valid part of each window",
     "Max pooling returns the maximum and average pooling the correctly rounded mean of exactly those window elements that lie inside the input (padding never contributes), for every valid call; "
     "specialised and generic variants agree.",
     ["inputs", "configurations"], "every valid kernel size, stride, padding, shape, data type, quantisation and data value",
     CRC + "kernel sizes up to about ten with a few paddings.",
     [L + "kernels/pooling/mli_krn_pool_hwc.h", L + "kernels/pooling/mli_krn_avepool_hwc.h"],
     [("krn_pool windows", L + "kernels/pooling/mli_krn_pool_hwc.h"), ("divisor look-up and computed reciprocal", L + "kernels/pooling/mli_krn_avepool_hwc.h")],
     ["output tensor at return"])
prop("C07", "2.0 element-wise operators honour broadcasting and quantisation",
     "Element-wise add, sub, min, max and mul return for every valid pair of operands, including scalar broadcast on either side, the documented result of the operation on the represented values, rounded and saturated to the output format.",
     ["inputs", "configurations"], "every valid rank, shape, stride, broadcast side, quantisation parameters and data value, including values at the range limits",
     CRC + "a few shapes and one or two scale combinations.",
     [L + "kernels/eltwise/mli_krn_eltwise.h", L + "kernels/eltwise/impl"],
     [("eltwise_prepare_and_run", L + "kernels/eltwise/mli_krn_eltwise.h")],
     ["output tensor at return"])
prop("C08", "2.0 ReLU family is piecewise linear and exact",
     "ReLU (all clipping types), leaky ReLU and parametric ReLU return for every valid call the documented piecewise-linear function of each element: the pass-through branch is exact (or exactly requantised), the other branch is scaled by the right slope, and no element uses another's slope.",
     ["inputs", "configurations"], "every valid rank, shape, stride, slope tensor, quantisation and data value",
     CRC + "a few shapes and slopes.",
     [L + "kernels/transform/mli_krn_leaky_relu.h", L + "kernels/transform/mli_krn_prelu.h", L + "kernels/transform/mli_krn_relu.h"],
     [("per-slice slopes", L + "kernels/transform/mli_krn_prelu.h")],
     ["output tensor at return"])
prop("C09", "2.0 non-linear activations approximate their functions",
     "Sigmoid, tanh, softmax and L2 normalisation stay within a fixed small error of the real-valued function of the dequantised input on the whole input range, with the documented output format, saturation behaviour and axis semantics; "
     "slices along the axis never influence each other.",
     ["inputs", "configurations"], "every valid input value, format (fractional bits, scale), shape, stride and axis",
     CRC + "a few vectors with one or two input formats.",
     [L + "kernels/transform", L + "private/src/mli_prv_lut.h"],
     [("look-up with linear interpolation", L + "private/src/mli_prv_lut.h"), ("softmax / l2 subtensor iteration", L + "kernels/transform")],
     ["output tensor at return", "output element parameters"])
prop("C10", "2.0 LSTM and GRU cells follow their recurrences",
     "LSTM and GRU cells compute the documented recurrence step by step: for every valid call each output row and the final cell state equal the composition of the library's dense, activation and element-wise rules with the documented gate order and intermediate formats (a step stays within quantisation error of the real-valued cell equations), forward or backward; "
     "last-only mode returns the last row of all-steps mode, splitting a sequence over several calls with carried state gives the same result as one call, and prev_out may share memory with out.",
     ["inputs", "histories", "configurations"], "every valid sequence length, direction, results mode, activation, quantisation and data, and every split of a sequence into calls",
     CRC + "one sequence per type.",
     [L + "kernels/common/mli_krn_lstm_cell.h", L + "kernels/common/mli_krn_gru_cell.h"],
     [("cell step and state hand-over", L + "kernels/common/mli_krn_lstm_cell.h")],
     ["output, cell and intermediate tensors at return"])
prop("C11", "2.0 argmax and permute select and reorder exactly",
     "Argmax returns the positions of the topk largest elements of each slice in the documented order; permute returns every element at its permuted position with the quantisation axis following, for every valid call.",
     ["inputs", "configurations"], "every valid rank, shape, stride, axis, topk, permutation order and data value including ties",
     CRC + "a few shapes.",
     [L + "kernels/diverse/mli_krn_argmax.h", L + "kernels/diverse/mli_krn_permute.h"],
     [("topk insertion", L + "kernels/diverse/impl/mli_krn_argmax_ref.h"), ("permute", L + "kernels/diverse/mli_krn_permute.h")],
     ["output tensor at return"])
prop("C12", "Tensor movement copies exactly the configured elements",
     "Data movement with any valid combination of offset, size, subsampling, padding, permutation, source and destination strides leaves in the destination exactly the configured elements, zero (or zero-point) padding and the documented shape, strides and element parameters, "
     "and synchronous, asynchronous and prepared paths give the same result with the callback invoked exactly once.",
     ["inputs", "configurations", "histories"], "every valid movement configuration, rank, shape, stride, data type",
     CRC + "a handful of configurations.",
     [L + "move/mli_mov.cc", "include/api/mli_mov_api.h", L + "move"],
     [("mov_copy and padding", L + "move"), ("configuration builders", L + "move")],
     ["destination tensor at return", "callback"])
prop("C13", "Format conversion and tensor helpers are faithful",
     "Tensor conversion between formats returns the rounded, saturated re-quantisation of every element (float to quantised and back included) and the helper queries (sizes, counts, scales, subtensors, transformations) describe exactly the tensor they are given, for every valid call.",
     ["inputs", "configurations"], "every valid pair of formats, quantisation (per tensor or axis), rank, stride and data value",
     CRC + "a few format pairs.",
     [L + "helpers", "include/api/mli_helpers_api.h"],
     [("mli_hlp_convert_tensor", L + "helpers"), ("mli_hlp_create_subtensor", L + "helpers")],
     ["output tensor / return value"])
prop("C14", "3.0 multiply-accumulate kernels return exact integer sums",
     "The 3.0 convolution, depthwise, transpose convolution, fully connected and matmul kernels, driven through the compile-time and run-time interfaces, return the exact 32-bit integer accumulation defined by their operands, zero points, strides, dilation, padding and groups.",
     ["inputs", "configurations"], "every valid shape, stride, padding, dilation, zero point, data type and data value",
     CRC + "one or two layers per kernel.",
     [L + "kernels/convolution", L + "kernels/common", "include/api/mli_ref_runtime_api.hpp"],
     [("run-time Issue()", "include/api/mli_ref_runtime_api.hpp")],
     ["output buffer after Issue"])
prop("C15", "3.0 element-wise, reduction and move kernels are exact",
     "The 3.0 element-wise, rescale, clip, PReLU, reduction, pooling, permute, bilinear resize and move kernels return for every valid input the documented integer function of it.",
     ["inputs", "configurations"], "every valid shape, data type, parameter tensor and data value",
     CRC + "one or two layers per kernel.",
     [L + "kernels", "include/api/mli_ref_runtime_api.hpp"],
     [("run-time Issue()", "include/api/mli_ref_runtime_api.hpp")],
     ["output buffer after Issue"])
prop("C16", "Tiled 3.0 execution equals whole-tensor execution",
     "Running a 3.0 kernel tile by tile, with Issue and Update driving its iterators, produces for every valid tiling exactly the output of a single full-size run, each output element being produced exactly once by the tile that owns it. Tensor views, iterator configurations and iterators address exactly the elements of their tile in every step, also when derived from others (dropped axis, overlap removed, buffer shrunk to a few tiles, other vector granularity) and after an offset buffer is linked to its memory.",
     ["inputs", "histories", "configurations"], "every valid tile size and every kernel that supports iteration",
     CRC + "one tiling per kernel.",
     ["include/mli_iterator.hpp", "include/api/mli_ref_runtime_api.hpp"],
     [("IteratorCfg / TensorIterator::Next", "include/mli_iterator.hpp"), ("Update()", L + "kernels")],
     ["output buffer after the last tile"])
prop("C17", "3.0 compiled kernels survive serialisation and relocation",
     "A kernel instance rebuilt from its private data blob behaves identically wherever the blob, the instance and its memory regions are placed, and after the compile-time object and the blob are gone; the sizes the compile-time object reports suffice for everything written; an instance buffer smaller than reported and an unknown kernel identifier are refused, and debug builds refuse a blob whose size or identifier does not match its kernel; repeated Create/Issue is deterministic.",
     ["inputs", "histories", "configurations"], "every kernel, every placement of blob, instance and memory bases, every supplied buffer size",
     CRC + "one placement per kernel.",
     ["include/api/mli_ref_compiler_api.hpp", "include/api/mli_runtime_api.hpp", L + "kernels"],
     [("ExecutionInterface::Create", "include/api/mli_runtime_api.hpp"), ("GetKernelPrivateData", "include/api/mli_ref_compiler_api.hpp")],
     ["guarded blob, instance and tensor buffers"])
prop("C18", "Argument checking rejects every documented misuse and nothing else",
     "With argument checking compiled in, every 2.0 function refuses with an error status, and leaves its operands alone, any call that differs from a valid one in a single violated condition on which its result or memory safety depends (tensor validity: data pointer, rank, shape, strides, capacity, per-axis arrays; matching shapes, ranks, types and channels; required unit strides and separate memory; quantisation level, axis, scale, zero point and fractional bits; configuration fields in range, and no output that needs more input than there is), and returns success, with the same result as a release build, for every valid call.",
     ["inputs", "configurations"], "every valid call and every single-field corruption of one",
     "The tests only make valid calls.",
     [L + "private/src/mli_check.cc", L + "private/src/mli_check.h"],
     [("mli_chk_* functions", L + "private/src/mli_check.cc")],
     ["returned status", "output buffer after a rejected call"])
prop("C19", "Concurrent calls on separate tensors do not interfere",
     "Library functions (kernels, helpers, synchronous data movement, 3.0 compile-time and run-time calls on separate instances) called concurrently from several threads on disjoint outputs (inputs, weights, look-up tables and configurations may be shared) give the same results as serial execution and contain no data race.",
     ["schedules", "inputs"], "every interleaving of any mix of functions",
     "The tests are single-threaded.",
     [L + "kernels", L + "private/src/mli_prv_lut.h", L + "move"],
     [("absence of mutable global state", L + "kernels")],
     ["ThreadSanitizer reports", "outputs of the concurrent calls"])
prop("C20", "3.0 kernels stay inside their regions",
     "Every 3.0 compile-time and run-time call reads and writes only the buffers, blobs and instance memory it was given and within the sizes it reported, executes no undefined behaviour and gives repeatable results.",
     ["inputs", "configurations", "histories"], "every valid kernel configuration, placement and sequence of calls",
     CRC + "no guarded or minimal-size buffers.",
     ["include/api/mli_ref_compiler_api.hpp", "include/api/mli_ref_runtime_api.hpp", L + "kernels"],
     [("OffsetBuffer / InternalBuffer", "include/mli_types.hpp")],
     ["guarded buffers", "ASan/UBSan reports inside the call"])

NOTE = ("Held on the executions this run generated and observed (counts in the evidence file); says nothing about inputs not driven. "
        "Trusts gcc's sanitizers and the independent reference model in harness/. Covers the x86-64 reference code the repository builds here, not the ARC back ends.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for t in T:
            f.write(json.dumps(t) + "\n")
    checks, na = [], []
    for t in T:
        i = t["id"]
        if i in P.PROPS:
            s = P.PROPS[i]
            checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                               evidence_file="evidence/%s.json" % i,
                               technique=s.get("technique", "runtime monitoring: generated calls under ASan+UBSan against an independent reference model"),
                               level="exploration", level_note=s.get("note", NOTE)))
        else:
            na.append(dict(property=i, reason="monitor under construction; not claimed yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="Monitors in harness/, runner tools/check.py. No hooks in /repo: everything is observed at the public API.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
