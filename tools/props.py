"""Property texts; a property with a technique is claimed by a check."""

KF = ["src/deepwave/scalar.c", "src/deepwave/scalar_born.c", "src/deepwave/acoustic.c", "src/deepwave/elastic.c",
      "src/deepwave/scalar.cu", "src/deepwave/scalar_born.cu", "src/deepwave/acoustic.cu",
      "src/deepwave/elastic.cu", "src/deepwave/regular_grid.h", "src/deepwave/staggered_grid.h",
      "src/deepwave/common_cpu.h", "src/deepwave/common_gpu.h"]
CPU = [f for f in KF if not f.endswith((".cu", "gpu.h"))]
CONF = "every equation (scalar, scalar Born, acoustic, elastic), 1-3 dimensions, accuracy 2/4/6/8, single and double " \
       "precision, CPU and CUDA, shared and per-shot models"


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a,
            "technique": technique, "note": note}


AI = "abstract interpretation (value numbering over the kernel AST)"
KNOTE = "Decides the algebraic identity for every grid size, location set and field value of the configurations " \
        "analysed; assumes real arithmetic, ordered region bounds and libclang's parse of the sources."

PROPS = [
    P("K01", "Backpropagation is the exact transpose of the forward time step",
      "For every propagator the wavefield, absorbing-layer and source-amplitude gradients returned by backpropagation "
      "are the exact transpose of the compiled forward time step, including inside the absorbing layers, at the "
      "injection of sources and at the recording of receivers. This holds for every equation, dimension, accuracy, "
      "precision, device and for shared and per-shot models.",
      ["inputs", "configurations"], "all field values, models, spacings, boundary widths and locations; " + CONF,
      "The dot-product tests of the suite sample a few random small models and one or two accuracies on the CPU, are "
      "excluded from the stable set, and cannot run the CUDA sources.",
      KF, [("backward kernels", "src/deepwave/*.c backward_kernel / backward_kernel_*"),
           ("transposed PML terms", "src/deepwave/scalar.c, acoustic.c, elastic.c"),
           ("source/receiver adjoints", "src/deepwave/common_cpu.h record/add loops")],
      technique=AI + ", transposed and compared term by term", note=KNOTE),
    P("K02", "Model gradients equal the derivative of the time step",
      "The gradient each propagator accumulates for every model parameter is exactly the derivative of its forward time "
      "step with respect to that parameter, contracted with the adjoint wavefields and the snapshots that the forward "
      "pass saved. A snapshot is read from the slot and at the sampling step at which it was written, and the sum is "
      "weighted by the gradient sampling interval.",
      ["inputs", "configurations"], "all field values, models, spacings and sampling ratios; " + CONF,
      "Gradient tests compare with finite differences at loose tolerances on tiny grids; a wrong term confined to a "
      "corner region, one dimension or one accuracy is below their resolution, and CUDA is never run.",
      KF, [("gradient accumulation", "backward_kernel in src/deepwave/*.c, *.cu"),
           ("snapshot stores", "forward_kernel *_store writes")],
      technique=AI + ", differentiated and compared term by term", note=KNOTE),
    P("K03", "CPU and CUDA backends perform the same time step",
      "For the same inputs, the CUDA implementation of every propagator updates every wavefield, memory variable, "
      "gradient, snapshot and sample by the same formula, in the same regions, under the same conditions and in the same "
      "order as the CPU implementation. Every launch starts enough threads to cover all the points it must update.",
      ["inputs", "configurations"], "all inputs; " + CONF,
      "The test machine has no GPU; device agreement tests are skipped.",
      KF, [("CUDA kernels", "src/deepwave/*.cu"), ("CPU kernels", "src/deepwave/*.c")],
      technique=AI + ", cell-wise comparison of both implementations", note=KNOTE),
    P("K05", "Each time step is the documented discretisation",
      "One compiled forward time step of every propagator is exactly the documented wave equation with the documented "
      "absorbing-layer formulation, discretised in space by centred finite differences of the requested accuracy order "
      "and in time to second order. Sources enter and receivers sample at the documented point of the step.",
      ["inputs", "configurations"], "all field values and models; " + CONF,
      "Tests compare with analytic solutions at percent-level tolerances for a few configurations.",
      KF + ["docs/what_deepwave_calculates.rst"],
      [("finite difference stencils", "src/deepwave/regular_grid.h, staggered_grid.h"),
       ("forward kernels", "src/deepwave/*.c, *.cu")],
      technique=AI + " against an independently derived specification", note=KNOTE),
    P("K07", "Every grid point is updated and no access leaves its array",
      "In each time step every propagator updates each wavefield at exactly the points of the simulated grid, whatever "
      "the absorbing-layer widths (zero, one-sided, overlapping or filling the model), and never reads or writes "
      "outside an allocated array.",
      ["inputs", "configurations"], "all grid sizes and absorbing widths; " + CONF,
      "Out-of-bounds reads and missed cells at region joins are silent and depend on the geometry; tests use a few.",
      KF, [("region loops", "pml_z/pml_y/pml_x loops in src/deepwave/*.c"), ("thread guards", "*.cu kernels")],
      technique=AI + " with difference-bound region reasoning", note=KNOTE),
    P("K08", "Absorbing layers do not alter the equations outside them",
      "Outside the absorbing layers every propagator's update is identical to the layer formulation with the absorption "
      "coefficients set to zero, in every combination of layer and interior along the dimensions, both forward and "
      "backward. The region split is therefore only an optimisation that cannot change results.",
      ["inputs", "configurations"], "all field values; all absorbing widths; every region; " + CONF,
      "A wrong term in one of up to 27 regions is visible only where waves cross that region.",
      KF, [("region specialisations", "pml_y/pml_x branches in src/deepwave/*.c, *.cu")],
      technique=AI + ", region-by-region comparison", note=KNOTE),
    P("K09", "Splitting the time loop does not change results",
      "Running the time loop in several consecutive chunks gives the same wavefields, samples and gradients as running "
      "it in one, for every chunk length and start step, forward and backward: every step runs exactly once in order, "
      "and current and previous levels are exchanged consistently. Within a step no sweep reads a value that another "
      "point of the same sweep may already have overwritten.",
      ["inputs", "histories", "schedules"], "all chunk lengths, start steps and thread or point orders; " + CONF,
      "Tests use callbacks at a couple of frequencies and compare only on the CPU; ordering hazards are schedule "
      "dependent.",
      KF, [("ping-pong buffers", "time loops in src/deepwave/*.c, *.cu")],
      technique=AI + ", buffer-role and version analysis of the time loop", note=KNOTE),
    P("K10", "Sources inject and receivers record the right sample at the right place",
      "At every time step each source adds its own amplitude for that shot and step, scaled as documented, to the "
      "documented wavefield at its own location, and each receiver records that wavefield at its own location into its "
      "own slot, exactly once. Ignored locations take part in neither direction.",
      ["inputs", "configurations"], "all locations, counts (including zero) and amplitudes; " + CONF,
      "Tests place a handful of sources in symmetric settings and never run CUDA.",
      KF, [("add/record loops", "src/deepwave/common_cpu.h and *.cu add_/record_ kernels")],
      technique=AI + ", decoding of indirect accesses", note=KNOTE),
    P("K11", "Gradients of shots run in parallel are race-free and summed once",
      "When shots share a model, contributions of shots run in parallel go to storage no other thread writes at the same "
      "time, and are added to the returned gradient exactly once, however many threads, shots and callback chunks "
      "there are.",
      ["schedules", "inputs", "configurations"], "all thread counts, shot counts and interleavings; " + CONF,
      "A race or double addition depends on the schedule, on the number of threads and on callbacks.",
      KF, [("combine_grad", "src/deepwave/common_cpu.h, common_gpu.h"),
           ("omp parallel for", "src/deepwave/*.c")],
      technique=AI + " with ownership decomposition of parallel writes", note=KNOTE),
    P("K12", "Shots are independent",
      "The data, wavefields and wavefield or source gradients of one shot do not depend on the other shots of the batch: "
      "every access to a per-shot array in the compiled propagators stays in the slice of the shot being computed.",
      ["inputs", "configurations"], "all batches; " + CONF,
      "Tests compare batched with unbatched runs for a few configurations on the CPU.",
      KF, [("shot offsets", "shot loops in src/deepwave/*.c and blockIdx.z in *.cu")],
      technique=AI + " with shot-slice decomposition of every index", note=KNOTE),
]

PY = ["src/deepwave/scalar.py", "src/deepwave/scalar_born.py", "src/deepwave/acoustic.py", "src/deepwave/elastic.py",
      "src/deepwave/common.py", "src/deepwave/regular_grid.py", "src/deepwave/staggered_grid.py",
      "src/deepwave/backend_utils.py"]
PCONF = "every equation, 1-3 dimensions, accuracies, devices, shared and per-shot models, shapes and widths symbolic"
PAI = "abstract interpretation of the Python layer (symbolic shapes and elements, all paths)"
PNOTE = "Decides the identity for every size, value and location of the configurations listed in the evidence; assumes " \
        "documented input requirements, torch functions behaving as documented and real arithmetic."

PROPS += [
    P("G01", "User inputs reach the propagator unchanged in meaning",
      "Every compiled call made by a public propagator receives the model, source amplitudes and locations, receiver "
      "locations, spacing, time step, counts and flags that the user's arguments mean: models edge-padded and shifted to "
      "the staggered positions they are used at, amplitudes scaled by the model at their own source, locations converted "
      "to indices of the padded grid, ignored ones marked, each in the argument of that name. Valid input is accepted.",
      ["inputs", "configurations"], "all values, shapes, locations and widths; " + PCONF,
      "Permuted dimensions, off-by-one padding or a swapped argument are invisible in the symmetric set-ups tests use.",
      PY, [("input preparation", "common.setup_propagator, extract_survey"),
           ("compiled calls", "*ForwardFunc.forward and backward")],
      technique=PAI + ", compared with a specification argument by argument", note=PNOTE),
    P("G02", "Outputs are the wavefields and data they are documented to be",
      "A public propagator returns, in the documented order and shape, the final value of each wavefield over the model "
      "and its absorbing layers and the recorded data of each receiver list, zero at ignored receivers; initial "
      "wavefields passed in are the ones the simulation starts from, so that a returned state continues a simulation.",
      ["inputs", "histories", "configurations"], "all values, shapes, widths, parities of the step count; " + PCONF,
      "Output mix-ups between memory variables, or between the two buffers of an odd or even number of steps, show only "
      "when simulations are continued in asymmetric set-ups.",
      PY, [("output assembly", "*ForwardFunc.forward return values; public functions")],
      technique=PAI + ", symbols of final state traced to the returned tensors", note=PNOTE),
    P("G03", "Each gradient is returned for its own input and nothing is lost",
      "Backpropagation starts from the incoming gradients of all outputs, with empty accumulators, and returns for "
      "each input that needs one the gradient accumulated for that input, cropped, unpadded and unscaled consistently "
      "with the forward pass, for any subset of inputs that require gradients.",
      ["inputs", "configurations"], "all gradients, all subsets of inputs requiring gradients sampled; " + PCONF,
      "A gradient returned in the wrong position or dropped for one subset of requires_grad needs that subset and an "
      "asymmetric set-up to be seen.",
      PY, [("autograd functions", "*ForwardFunc.backward, *BackwardFunc.forward")],
      technique=PAI + " of the autograd functions, gradient symbols traced to returned positions", note=PNOTE),
    P("G04", "Absorbing layers follow the documented profiles in place and width",
      "The absorbing coefficients given to the propagators are the documented convolutional PML profiles for the requested "
      "width on each side, spacing, time step, frequency and largest speed, zero outside the layers, at integer and "
      "half-cell positions as used; the region bounds passed with them enclose every point with a nonzero coefficient "
      "and stay ordered and within the grid for every combination of widths.",
      ["inputs", "configurations"], "all widths including zero on some sides, spacings and speeds; " + PCONF,
      "Tests look at reflected energy in a few set-ups; a half-cell shift or wrong side is below their tolerance.",
      PY, [("profiles", "common.setup_pml, regular_grid.set_pml_profiles, staggered_grid.set_pml_profiles"),
           ("bounds", "pml_b, pml_e in *ForwardFunc.forward")],
      technique=PAI + ", compared with an independent reference profile", note=PNOTE),
    P("G05", "Callbacks see the true state at the true time",
      "A forward or backward callback is called at every multiple of its frequency and obtains, for every name and view "
      "(inner, pml, full), the wavefield, model or gradient of that name at the step it reports.",
      ["inputs", "histories", "configurations"], "all frequencies, step counts and shapes; " + PCONF,
      "Tests read one or two names at one frequency; a wrong buffer after an odd number of steps or a wrong view offset "
      "needs that name, parity and view.",
      PY, [("callback states", "common.CallbackState; callback sections of *Func")],
      technique=PAI + ", every accessor compared with the symbolic state at that step", note=PNOTE),
    P("G06", "Snapshot storage is large enough, separate and read back by its owner",
      "For every storage mode (device, CPU, disk), with and without compression and on both devices, every snapshot buffer "
      "a compiled call uses is as large as the steps, shots and bytes it will hold, contiguous, on the required device "
      "and not shared with another variable, and backpropagation reads the buffers and files its own forward pass wrote.",
      ["inputs", "configurations"], "all step counts, sampling intervals, shot counts and grid sizes; " + PCONF,
      "Overflow of a snapshot buffer by a few bytes or sharing between variables shows only for certain sizes and subsets "
      "of gradients.",
      PY, [("storage", "common.StorageManager, TemporaryStorage")],
      technique=PAI + " with inequality reasoning on buffer sizes", note=PNOTE),
    P("G07", "Compiled calls cover every time step exactly once",
      "However the time loop is divided by callbacks and gradient sampling, the compiled calls of a simulation advance it "
      "through all steps exactly once in order, and those of backpropagation go back through the same steps, with the "
      "state handed over between calls.",
      ["histories", "inputs"], "all step counts that are a multiple of the sampling interval, all frequencies; " + PCONF,
      "Dropped or repeated steps occur at remainders of the frequency tests do not use.",
      PY, [("time loops", "for step in range(...) in *ForwardFunc.forward and backward")],
      technique=PAI + " with summarised loops over calls", note=PNOTE),
    P("G08", "Internal time steps are stable and resampling is exact",
      "When the requested time step is too long, the propagators divide it by an integer that keeps the difference "
      "scheme stable for the given spacing, dimension and largest speed, resample source amplitudes onto the internal steps "
      "and data back by band-limited Fourier interpolation with the documented padding and tapering, and return data "
      "at the requested times and scale.",
      ["inputs", "configurations"], "all ratios, lengths, tapers and paddings; " + PCONF,
      "Tests use one or two ratios and lengths; mistakes in odd lengths, padding or scaling hide in tolerances.",
      PY, [("resampling", "common.upsample, downsample"), ("stability", "common.cfl_condition_n")],
      technique=PAI + ", compared with a reference resampler and with the stability limit", note=PNOTE),
    P("G09", "Tensors of the user are never modified",
      "Neither the forward call nor backpropagation writes to the memory of a tensor the user passed in (models, source "
      "amplitudes, locations, initial wavefields), of an incoming gradient, or of a tensor kept for backpropagation, and "
      "returned tensors do not share memory with inputs.",
      ["inputs", "configurations"], "all values and shapes, including those (one shot, one source, matching type) for which "
      "torch returns views instead of copies; " + PCONF,
      "Whether an operation aliases its input depends on shapes, types, devices and contiguity; tests rarely reuse inputs "
      "or compare them afterwards.",
      PY, [("in-place operations", "common.zero_interior, cosine_taper_end, zero_last_element_of_final_dimension, "
            "_convert_to_1d_and_check_uniqueness"),
           ("buffers given to compiled code", "*ForwardFunc.forward and backward")],
      technique=PAI + " with storage identity, may-alias copies and write effects of every operation", note=PNOTE),
    P("G10", "Invalid inputs are refused before compiled code runs",
      "Input that the compiled propagators could not handle safely is refused with an exception before any compiled code "
      "runs: tensors of a wrong shape, batch size, type or device, locations outside the model (or in the last half cell "
      "of a staggered component), not on grid points or coinciding within a shot, amplitudes without locations or "
      "conversely, and settings outside their documented range.",
      ["inputs", "configurations"], "every input list and wavefield, any amount of excess, any shot and location; " + PCONF,
      "Tests try one bad value per check, usually in the first shot or dimension; a check that misses other shots, "
      "dimensions or lists lets compiled code write outside its arrays.",
      PY, [("validation", "common.setup_propagator, set_source_amplitudes, prepare_wavefields, extract_models, "
            "_validate_location_tensor, check_locations_are_within_model"),
           ("half-cell checks", "acoustic.py, elastic.py location loops")],
      technique="abstract interpretation of the Python layer with one invalid symbolic input at a time, reachability of "
      "compiled calls", note=PNOTE),
]

NOT_APPLICABLE = [
]
for p in NOT_APPLICABLE:
    pass
