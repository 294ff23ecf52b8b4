#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 mc/spec.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
T = "torch_harmonics/"


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


EXH = "exhaustive bounded enumeration of operator configurations, real code driven to its full impulse basis and compared state by state with a reference model"

prop("C01", "Scalar SHT pair is the documented transform for every configuration",
     "For every grid, resolution, truncation, normalisation, Condon-Shortley choice and input field, the forward transform returns the quadrature of the field against the documented spherical harmonics and the inverse transform returns the documented sum of harmonics. For band-limited fields on a grid whose quadrature is exact for them, inverse after forward and forward after inverse are the identity, and gradients are the exact adjoints. Leading dimensions, strides, dtype and truncation never change the value of a retained coefficient.",
     ["inputs", "configurations"], "all grids x nlat x nlon (odd and even) x lmax x mmax x norm x csphase x dtype up to the stated sizes, and all fields by linearity from the complete impulse basis",
     "Tests round-trip random fields at a handful of large even resolutions; they never compare with the harmonics themselves, never use odd or mismatched truncations, and a compensating error in both directions is invisible to them.",
     [T + "sht.py", T + "legendre.py", T + "quadrature.py", T + "fft.py", T + "truncation.py"],
     [("quadrature-weighted Legendre contraction", T + "sht.py RealSHT/InverseRealSHT"), ("Legendre recursion", T + "legendre.py"), ("azimuthal FFT with truncation", T + "fft.py")],
     EXH, "Complete within the size bound; linearity extends the impulse basis to all fields; trusts torch matmul/FFT and scipy polynomials.")
prop("C02", "Vector SHT pair is the documented spheroidal/toroidal transform",
     "For every grid, resolution, truncation, normalisation and phase convention, the vector transform of a tangential field returns its projections on the gradient and curl harmonics and the inverse returns the corresponding tangential field. Inverse after forward is the identity on band-limited fields on exact grids, the spheroidal and toroidal parts never mix, and gradients are the exact adjoints.",
     ["inputs", "configurations"], "all grids x sizes x truncations x norms x csphase up to the stated sizes, all vector fields by linearity",
     "Tests only round-trip a few random coefficient sets; an error shared by both directions, in one degree, or in one component at one order passes.",
     [T + "sht.py", T + "legendre.py"], [("dP/dtheta and P/sin(theta) tables", T + "legendre.py _precompute_dlegpoly"), ("spheroidal/toroidal contraction", T + "sht.py RealVectorSHT/InverseRealVectorSHT")],
     EXH, "Complete within the size bound; linearity extends to all fields.")
prop("C03", "Grids and quadrature are exact to their guaranteed degree",
     "For every supported grid and size the latitudes are ascending and symmetric and the longitudes equispaced from zero, and the weights integrate exactly every polynomial up to the degree the rule guarantees. The spherical integrator returns the surface integral (or mean when normalised) of the field for any leading dimensions and dtype, and a constant field integrates to the area of the sphere.",
     ["inputs", "configurations"], "all rules x n up to the bound x intervals x periodic flag; all fields by linearity",
     "Tests check a few even sizes and constant fields; exactness of every monomial at every size (including 1-3 points and odd counts) is not sampled.",
     [T + "quadrature.py"], [("node/weight routines", T + "quadrature.py"), ("QuadratureS2", T + "quadrature.py")],
     EXH, "Complete within the size bound; closed-form and scipy nodes as oracle.")
prop("C04", "Azimuthal FFT helpers and truncation keep exactly the requested modes",
     "For every signal length and number of modes, the real FFT helper returns the Fourier coefficients of exactly the requested modes and the inverse helper returns the real trigonometric sum of exactly the modes it is given, with Nyquist and zero modes treated as real, zero padding and truncation never aliasing. The truncation rule returns the documented degree and order limits for every grid and size and rejects what it documents as invalid.",
     ["inputs", "configurations"], "all lengths x mode counts x axes x norms, all signals by linearity; all (nlat,nlon,lmax,mmax,grid) up to the bound",
     "Tests fix one or two lengths; odd lengths, fewer/more modes than the length supports and non-last axes are unsampled.",
     [T + "fft.py", T + "truncation.py"], [("rfft/irfft", T + "fft.py"), ("truncate_sht", T + "truncation.py")],
     EXH, "Complete within the size bound.")
prop("C05", "Resampling is the documented interpolation between every pair of grids",
     "For every pair of input and output grids and sizes, resampling returns the bilinear (or great-circle) interpolation of the field at the output points with periodic longitude and pole extension by the zonal mean, is exact where grids coincide, and is independent of leading dimensions and strides. Its gradients are finite and are those of that interpolation.",
     ["inputs", "configurations"], "all grid/size pairs in the bound x modes, all fields (linear mode), impulses x heights x backgrounds (spherical mode)",
     "Tests only compare smooth fields with loose tolerances on a few shapes; sign of differences, poles, wrap-around and coincident neighbours are not covered.",
     [T + "resample.py"], [("latitude/longitude stencils", T + "resample.py ResampleS2")],
     EXH, "Complete within the size bound for linear mode; spherical mode on an enumerated field family.")
prop("C06", "Filter bases equal their documented functions on the whole disk",
     "For every basis type, kernel shape and cutoff radius, every basis function returns its documented value for every point of its support and nothing outside it, the number of functions equals the advertised kernel size, and the advertised norms and isotropy flags are those of the functions.",
     ["inputs", "configurations"], "all basis types x kernel shapes x cutoffs up to the bound on a complete polar lattice",
     "Tests check shapes, a few points and two kernel shapes; individual higher-order functions and boundary radii are unsampled.",
     [T + "filter_basis.py"], [("FilterBasis classes", T + "filter_basis.py")],
     EXH, "Complete on the lattice within the bound; scipy special functions as oracle.")
prop("C07", "DISCO convolution equals the documented quadrature of rotated filters",
     "For every pair of grids and shapes, basis, kernel shape, normalisation mode and cutoff, the layer's output at an output point is the quadrature over the input sphere of the field times the weighted, normalised filter functions rotated to that point. Points outside the cutoff contribute nothing, the result commutes with the longitudinal shifts the grids share, and every output latitude (poles included) follows the same rule.",
     ["inputs", "configurations"], "all in/out grids x shapes (ratio 1..4) x bases x kernel shapes x normalisations x cutoffs in the bound, all fields and weights by linearity",
     "Tests compare two implementations that share the same precomputed filter tensor at a few shapes; an error in that tensor or in a rare row is common to both.",
     [T + "disco/convolution.py", T + "disco/_disco_utils.py", T + "filter_basis.py", T + "disco/optimized/disco_helpers.h"],
     [("psi precomputation and normalisation", T + "disco/convolution.py"), ("row merging / packing for kernels", T + "disco/optimized/disco_helpers.h")],
     EXH, "Complete within the bound except configurations decided by rounding (counted as skipped).")
prop("C08", "All DISCO execution paths compute the same layer and gradients",
     "The reference, optimized, activation-saving and fused execution paths of the convolution give the same output and the same gradients for input, weight and bias, for every group structure, channel count, longitude ratio, batch, memory layout, dtype and subset of tensors that require gradients. No input is modified.",
     ["inputs", "configurations"], "all shape pairs x groups x channels x paths x dtypes x layouts x gradient subsets in the bound",
     "Tests sample a few group/shape pairs with all gradients on and contiguous inputs.",
     [T + "disco/convolution.py", T + "disco/optimized/disco_optimized.py", T + "disco/optimized/kernels_cpu/disco_cpu_fwd.cpp", T + "disco/optimized/kernels_cpu/disco_cpu_bwd.cpp", T + "disco/kernels_torch/disco_torch.py"],
     [("CPU kernels", T + "disco/optimized/kernels_cpu"), ("autograd wiring", T + "disco/optimized/disco_optimized.py"), ("reference contraction", T + "disco/kernels_torch/disco_torch.py")],
     EXH, "Complete within the bound; CPU paths only.")
prop("C09", "Transposed DISCO convolution scatters the documented operator",
     "For every pair of grids, shapes, basis, normalisation, cutoff and group structure, the transposed convolution distributes each input value with its quadrature weight over the output points inside its filter's support, on every execution path. Output and all gradients agree with that operator for every layout, dtype and gradient subset.",
     ["inputs", "configurations"], "all geometries x groups x channels x paths x dtypes x layouts x gradient subsets in the bound, all fields by linearity",
     "Tests compare implementations sharing one filter tensor at a few shapes.",
     [T + "disco/convolution.py", T + "disco/optimized/disco_optimized.py", T + "disco/kernels_torch/disco_torch.py"],
     [("transpose layer", T + "disco/convolution.py DiscreteContinuousConvTransposeS2"), ("transpose kernels", T + "disco/optimized/kernels_cpu")],
     EXH, "Complete within the bound except configurations decided by rounding (counted as skipped).")
prop("C10", "Neighborhood attention is a quadrature softmax over the geodesic disk",
     "For self-, down- and up-sampling attention on every pair of grids, cutoff, head and channel count, the output at each point is the quadrature-weighted softmax average of the values inside its geodesic disk, on every execution path, followed by the documented projections. Output and gradients are finite and exact for every score magnitude, query/key/value aliasing and gradient subset.",
     ["inputs", "configurations"], "all geometries x heads x channels x options x aliasing x score regimes x paths x gradient subsets in the bound",
     "Tests compare two kernels with mild random scores at a few shapes; extreme scores, odd block remainders, aliasing and partial gradients are unsampled.",
     [T + "attention/attention.py", T + "attention/_attention_utils.py", T + "attention/kernels_torch/attention_torch.py", T + "attention/optimized/attention_optimized.py", T + "attention/optimized/kernels_cpu/attention_cpu_fwd.cpp", T + "attention/optimized/kernels_cpu/attention_cpu_bwd.cpp"],
     [("neighbourhood construction", T + "attention/attention.py"), ("online softmax kernels", T + "attention/optimized/kernels_cpu"), ("reference kernels", T + "attention/kernels_torch/attention_torch.py")],
     EXH, "Complete within the bound; CPU paths only; neighbourhoods decided by rounding and empty neighbourhoods are outside the claim.")
prop("C11", "Global spherical attention is the quadrature-weighted softmax",
     "For every input/output shape and grid, head and channel count, scale, bias and query/key normalisation option, global attention returns the softmax average of the values under the quadrature measure of the input grid followed by the documented projections. Output and gradients agree with that formula for every aliasing pattern, dtype and training mode without dropout.",
     ["inputs", "configurations"], "all shapes x grids x heads x channels x options x aliasing x dtypes in the bound",
     "Tests check shapes and a uniform case on one or two configurations.",
     [T + "attention/attention.py"], [("AttentionS2", T + "attention/attention.py")],
     EXH, "Complete within the bound; torch scaled_dot_product_attention trusted.")
prop("C12", "Spectral convolution mixes channels degree by degree and nothing else",
     "For every input/output shape and grid pair, group and channel structure, the spectral convolution equals transform, per-degree grouped channel mixing, inverse transform, plus the documented bias. Output and gradients for input, weight and bias agree with that operator for every batch shape and gradient subset.",
     ["inputs", "configurations"], "all shape/grid pairs x groups x channels x bias x gradient subsets in the bound",
     "Tests check a few shapes against the same transforms and never the mode cut between unequal grids.",
     [T + "spectral_convolution.py", T + "sht.py"], [("SpectralConvS2 contraction", T + "spectral_convolution.py")],
     EXH, "Complete within the bound; single precision tolerance.")
prop("C13", "Gaussian random fields follow the documented spectrum for any noise",
     "For every grid, smoothness, length scale, amplitude and radius, a sampled field is the documented Karhunen-Loeve sum of the noise it was given: each degree scaled by the square root of the documented spectrum, with zero mean. Dtype moves and batch size do not change the expansion.",
     ["inputs", "configurations", "histories"], "all parameter combinations in the bound x the complete noise basis x device/dtype moves",
     "Tests compare sample statistics with loose tolerances; one wrong degree hides in the sampling error.",
     [T + "random_fields.py"], [("GaussianRandomFieldS2", T + "random_fields.py")],
     EXH, "Complete within the bound; torch's normal generator trusted.")
prop("C14", "Results never depend on what was built, modified or evicted before",
     "The output, gradients and stored constants of any component depend only on its own arguments: not on which components were built, run, moved, overwritten in place or garbage-collected earlier in the process, nor on cache hits, misses or evictions. Modifying anything the library returned never changes what it returns later.",
     ["histories"], "every sequence of operations up to the depth bound over the operation alphabet, each from a cold process",
     "Tests check one mutate-after-build pair; the shared caches (nodes, Legendre tables, filter tensors, neighbourhoods) are reached by every component and only sequences of operations expose an under-specified key or shared storage.",
     [T + "cache.py", T + "quadrature.py", T + "legendre.py", T + "filter_basis.py", T + "disco/convolution.py", T + "attention/attention.py"],
     [("copying LRU cache", T + "cache.py"), ("cached precomputations", T + "quadrature.py, legendre.py, disco/convolution.py")],
     "explicit-state exploration of operation histories on the real code, every history up to the depth bound from a cold process", "All histories of depth 2 (quick) / 3 (thorough) over the alphabet; single-threaded.")


def load_more():
    import importlib.util

    p = os.path.join(VERIF, "mc", "spec_more.py")
    if os.path.exists(p):
        ns = {"prop": prop, "T": T, "EXH": EXH}
        exec(compile(open(p).read(), p, "exec"), ns)
        return ns
    return {}


def main():
    ns = load_more()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash mc/build.sh",
        "checks": [{"property": p["id"], "quick_cmd": f"python3 mc/run.py {p['id']} --tier quick", "thorough_cmd": f"python3 mc/run.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                    "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
        "not_applicable": ns.get("NOT_APPLICABLE", []),
        "notes": "No hooks in /repo: the checks drive the public API (and stand-ins for torch.distributed) from outside. Genuine defects found are repaired in 'fix:' commits, listed in known_findings.json.",
    }
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
