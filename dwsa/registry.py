"""Which rules decide which property, and over which configurations."""
from . import core, kcombine, krules, ksem, kshared, pyrules

PROPS = ksem.PROPS
DEVICES = ("cpu", "cuda")


def _nctx(prop, ndim, pas):
    roles = ksem.ROLES["%s/%d/%s" % (prop, ndim, pas)]
    b = sum(1 for r in roles if r.endswith("_batched"))
    q = sum(1 for r in roles if r.endswith("_requires_grad"))
    return 2 + (b if b > 1 else 0) + (q if q > 1 else 0)


def kernel_configs(tier, passes=None, deep=False):
    """(prop, ndim, acc, pass, dtype, ctx) combinations, the heaviest first."""
    out = []
    for prop in PROPS:
        for ndim in ksem.NDIMS:
            for acc in ksem.ACCS:
                for pas in ksem.PASSES[prop]:
                    if passes and pas not in passes:
                        continue
                    n = _nctx(prop, ndim, pas)
                    for c in range(n if tier == "thorough" or (deep and acc == 2) else 2):
                        out.append((prop, ndim, acc, pas, "float", c))
                        if tier == "thorough" or (acc == 2 and ndim < 3 and c == 0):
                            out.append((prop, ndim, acc, pas, "double", c))
    w = {"elastic": 6, "acoustic": 2, "scalar_born": 2, "scalar": 1}
    out.sort(key=lambda t: -(w[t[0]] * (3 ** t[1]) * (1 + t[2] / 4) * (2 if t[3] != "forward" else 1)))
    return out


def per_kernel(rule, passes=None, devices=DEVICES, one_ctx=False, deep=False):
    def jobs(tier):
        out = []
        for prop, ndim, acc, pas, dtype, c in kernel_configs(tier, passes, deep):
            if one_ctx and c:
                continue
            for dev in devices:
                out.append((rule, (prop, ndim, acc, pas, dev, dtype, c)))
        return out
    return jobs


def fwd_spec_jobs(tier):
    return [(krules.forward_spec, (p, n, a, d, t, c)) for p, n, a, s, t, c in kernel_configs(tier, ("forward",))
            for d in DEVICES]


def back_jobs(rule, deep=False):
    def jobs(tier):
        return [(rule, (p, n, a, d, t, c, s)) for p, n, a, s, t, c in
                kernel_configs(tier, ("backward", "backward_sc"), deep) for d in DEVICES]
    return jobs


def device_jobs(tier):
    out = [(krules.device_agreement, (p, n, a, s, t, c)) for p, n, a, s, t, c in kernel_configs(tier)]
    out += [(krules.launches, (p, n, a, s, t)) for p, n, a, s, t, c in kernel_configs(tier) if c == 0]
    return out


KERNEL_ASSUME = [
    "Real arithmetic: rounding and the compiler's reassociation of floating point are not modelled.",
    "The grid is at least one stencil wide plus the absorbing bounds the caller passes are ordered "
    "(stencil radius <= first bound <= second bound <= extent minus radius), which the bounds rule of P09 decides.",
    "libclang's parse of the sources with the build's macro definitions stands for what gcc/nvcc compile.",
]

CHECKS = {}


def reg(pid, jobs, floors, explanation, assumptions=KERNEL_ASSUME, level="other"):
    CHECKS[pid] = dict(jobs=jobs, floors=floors, explanation=explanation, assumptions=assumptions, level=level)


def join(*fs):
    def jobs(tier):
        out = []
        for f in fs:
            out += f(tier)
        return out
    return jobs


reg("K01", back_jobs(krules.adjoint), {"adjoint-transpose": 1500},
    "Value-numbering abstract interpretation of both time loops gives each output of one step as a polynomial over "
    "symbolic grid reads; the backward step is compared, array by array and coefficient by coefficient, with the "
    "transpose of the forward step.")
reg("K02", back_jobs(krules.gradients, deep=True),
    {"snapshot-slot": 300, "snapshot-guard": 300, "gradient-sampling": 300, "model-gradient": 300},
    "The increment each backward step adds to a model gradient is compared with the derivative of the forward "
    "update with respect to that model contracted with the adjoint state, snapshots being replaced by the forward "
    "values stored in that slot under the same condition.")
reg("K03", device_jobs, {"device-agreement": 50000, "device-transfers": 500, "launch-shape": 1000},
    "Both implementations are reduced to the value each array takes after one step in every cell of the common "
    "grid partition; values, guards and slots are compared, and each launch's extent is compared with the points "
    "its kernel is guarded to handle.")
reg("K05", fwd_spec_jobs, {"update-equation": 1500},
    "The composed forward step is compared with an independent specification of the documented equations whose "
    "finite-difference coefficients are derived from Taylor moment conditions of the requested order.")
reg("K07", join(per_kernel(krules.coverage)),
    {"in-bounds": 100000, "region-coverage": 10000},
    "The grid is partitioned at every loop bound; in each cell each array must be updated exactly if the cell is in "
    "the padded grid, and every read offset must stay within the array by difference-bound reasoning.")
reg("K08", per_kernel(krules.neutrality), {"region-agreement": 20000, "absorber-neutral": 2000},
    "In each region the update is compared with the absorbing formula in which the coefficients of the directions "
    "that are outside their absorbing strip are set to zero.")
reg("K09", join(per_kernel(krules.time_levels), per_kernel(krules.hazards)),
    {"time-range": 300, "buffer-roles": 300, "step-uniform": 5000, "step-hazard": 100000},
    "The time loop's range, the role each buffer plays in iterations of each parity and the versions seen by every "
    "neighbour read within a step are computed and compared.")
reg("K10", per_kernel(krules.samples),
    {"sample-transfer": 800, "sample-count": 600, "sample-guard": 1000, "sample-ignored": 600,
     "sample-complete": 600, "sample-once": 600},
    "Every indirect access to a wavefield is decoded into (field, location list, amplitude index, guard, count).")


def combine_jobs(tier):
    seen, out = set(), []
    for p, n, a, s, t, c in kernel_configs(tier, ("backward", "backward_sc")):
        for d in DEVICES:
            j = (p, n, a, s, d, t)
            if j not in seen:
                seen.add(j)
                out.append((kcombine.combine, j))
    return out


reg("K11", join(per_kernel(krules.parallel_writes), combine_jobs, kshared.jobs),
    {"parallel-loop": 50, "thread-private": 10000, "iteration-private": 1000, "gradient-single-owner": 300,
     "combined-once": 150, "combined-when": 150, "combined-value": 300, "combined-range": 500,
     "combined-cleared": 150},
    "Every write reachable from a parallel loop is decomposed into shot, thread and point indices and must be "
    "private to its shot, its thread or its point; variables assigned inside a parallel or vectorised loop must be "
    "declared in it; the reduction after the loop must add each block once, under the condition under which "
    "blocks were filled, over every point, and empty it.")
reg("K12", per_kernel(krules.shot_isolation, deep=True), {"shot-slice": 10000},
    "Every access of a per-shot array is decomposed as shot*size + rest; rest must not depend on the shot.")


# ------------------------------------------------------------ Python layer
GLUE_ASSUME = [
    "Real arithmetic: rounding is not modelled; floating point inputs are any real numbers.",
    "Inputs meet the documented requirements: consistent shapes, devices and types, locations inside the model and "
    "distinct within a shot, positive spacing, time step and wave speeds; each side with an absorbing layer is at least "
    "one point wide unless the configuration says zero.",
    "A compiled call writes symbols that name the field, time and place (the K properties decide what those are).",
    "torch functions behave as documented; the Fourier transforms are opaque functions compared by argument.",
]


def greg(pid, rules, quick, thorough, floors, explanation, **kw):
    reg(pid, pyrules.jobs(list(rules) + ["accepted"], quick, thorough, **kw), floors, explanation, GLUE_ASSUME)


ALL, D2, D12 = (1, 2, 3), (2,), (1, 2)
ACC = (2, 4, 6, 8)
GX = "The Python layer is interpreted abstractly from the public function to the compiled entry points and back, with " \
     "symbolic sizes, element values and settings and every feasible path explored; "

greg("G01", ["abi", "arguments", "models", "sources", "locations"],
     [("plain", ALL, (4,)), ("bw", D12, (4,)), ("ign", D12, (4,)), ("cuda", D2, (4,)), ("double", D2, (6,)), ("zero", D2, (8,)),
      ("sub", (1,), (4,)), ("none", (1,), (4,)), ("rg", (1,), (2,)), ("origin", (1,), (4,))],
     [("plain", D12, ACC), ("full", ALL, (2,)), ("fullcuda", ALL, (4,)), ("sub", D12, (4,)), ("sparse", D12, (4,)),
      ("zero", ALL, (4,)), ("double", ALL, (4,)), ("rg", D2, (4,))],
     {"arguments": 2000, "models": 300, "sources": 200, "locations": 500},
     GX + "each argument of each compiled call is compared, element by element, with its specification.")
greg("G02", ["outputs", "wavefields", "receivers"],
     [("plain", ALL, (4,)), ("bw", D12, (4,)), ("ign", D12, (4,)), ("cuda", D2, (4,)), ("subfull", (1,), (4,)), ("sub", D2, (4,)),
      ("origin", (1,), (4,))],
     [("full", (2, 3), (2,)), ("fullcuda", D12, (4,)), ("subfull", D2, (4,)), ("plain", D12, ACC), ("zero", ALL, (4,))],
     {"outputs": 800, "wavefields": 800, "receivers": 100},
     GX + "every returned element must be the recorded sample or final wavefield value that the documentation assigns to "
     "that position, and every wavefield must enter the first call as supplied.", back=False)
greg("G03", ["gradients"],
     [("plain", ALL, (4,)), ("bw", D12, (4,)), ("ign", D12, (4,)), ("rg", D12, (4,)), ("sub", (1,), (4,)), ("sparse", D2, (4,)),
      ("subsparse", (1,), (4,)), ("cuda", D2, (4,)), ("origin", (1,), (4,))],
     [("fullcuda", D12, (4,)), ("full", (2, 3), (4,)), ("rg", (3,), (2,)), ("plain", D12, ACC)],
     {"gradients": 2500},
     GX + "the incoming gradients must reach the adjoint wavefields and samples at the right place, the buffers must start "
     "empty, and each accumulated gradient must be returned for the input it belongs to.")
greg("G04", ["pml", "bounds"],
     [("plain", D12, ACC), ("plain", (3,), (4,)), ("zero", D2, ACC), ("vmax", D2, (4,)), ("cuda", (1,), (4,)),
      ("double", (1,), (4,))],
     [("plain", (3,), ACC), ("zero", (1, 3), ACC), ("sub", ALL, (4,)), ("full", D12, (4,))],
     {"pml": 1500, "bounds": 1000},
     GX + "each absorbing profile and each region bound passed to a compiled call is compared with an independently written "
     "reference and with the ordering the kernels require.")
greg("G05", ["callbacks"],
     [("cb", D12, (4,)), ("subcb", (1,), (4,))], [("cb", (3,), (4,)), ("subcb", D2, (4,))],
     {"callbacks": 3000},
     GX + "what a callback obtains through every accessor and view is compared with the state at that time step.")
greg("G06", ["storage"],
     [("plain", ALL, (4,)), ("comp", D2, (4,)), ("cpu", D2, (4,)), ("cudacpu", D2, (4,)), ("cudacpuc", D2, (4,)),
      ("disk", D2, (4,)), ("diskc", D2, (4,)), ("cudadisk", D2, (4,)), ("cudadiskc", D2, (4,)), ("rg", D2, (4,)),
      ("sparse", (1,), (4,)), ("subsparse", (1,), (4,))],
     [("comp", (1, 3), (4,)), ("cudacpuc", (1, 3), (4,)), ("diskc", (1, 3), (4,)), ("sub", D2, (4,)),
      ("rg", (1, 3), (4,))],
     {"storage": 3000},
     GX + "the size, device, contiguity and separation of every snapshot buffer are compared with what the kernels address, "
     "and backpropagation must be given the buffers of its own forward pass.")
greg("G07", ["sequence", "wavefields", "gradients", "receivers"],
     [("plain", ALL, (4,)), ("sub", D12, (4,)), ("sparse", D12, (4,)), ("subsparse", D2, (4,)), ("cb", D12, (4,))],
     [("subcb", D12, (4,)), ("full", D12, (4,)), ("cb", (3,), (4,))],
     {"sequence": 800, "wavefields": 1000, "gradients": 3000, "receivers": 300},
     GX + "the start and length of consecutive compiled calls must tile the time steps exactly, forward and backward, and "
     "every wavefield, adjoint wavefield and accumulator must be handed from each call to the next.")
greg("G08", ["sources", "outputs", "cfl"],
     [("sub", D12, (4,)), ("vmax", D12, (8,)), ("taper_t", (1,), (4,)), ("taper_f", (1,), (4,)), ("taper_p", (1,), (4,)),
      ("taper_ptf", (1,), (2,)), ("sub", (3,), (6,))],
     [("taper_p", D2, (4,)), ("taper_f", D2, (4,)), ("taper_ptf", D2, (4,)), ("sub", D12, ACC), ("subcuda", D12, (4,))],
     {"sources": 80, "outputs": 300, "cfl": 60},
     GX + "with an internal step ratio the amplitudes and the data are compared with an independently written Fourier "
     "resampler, and the ratio with the stability limit of the difference scheme.", back=False)

greg("G09", ["inputs", "saved"],
     [("bw", ALL, (4,)), ("full", D12, (4,)), ("cuda", D2, (4,)), ("sub", (1,), (4,)), ("cb", (1,), (4,)), ("cpu", D2, (4,)),
      ("cudacpu", D2, (4,)), ("disk", (1,), (4,)), ("comp", (1,), (4,)), ("zero", D2, (2,)), ("subsparse", (1,), (4,)), ("rg", D2, (2,))],
     [("fullcuda", D12, (4,)), ("full", (3,), (4,)), ("subfull", D12, (4,)), ("cb", D2, (4,)), ("double", ALL, (8,)),
      ("plain", D12, ACC)],
     {"inputs": 3000, "saved": 1500},
     GX + "no operation and no compiled call may write the storage of a tensor the user passed in, of an incoming "
     "gradient, or of a tensor kept for backpropagation.")
reg("G10", pyrules.refuse_jobs, {"refused": 500},
    GX + "one input at a time is made invalid, at a symbolic witness element where elements matter, and no path may then "
    "reach a compiled entry point or return.", GLUE_ASSUME)


def run(pid, tier):
    c = CHECKS[pid]
    return core.run_check(pid, c["jobs"](tier), tier, c["level"], c["floors"], c["explanation"], c["assumptions"])
