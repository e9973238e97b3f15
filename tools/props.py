"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


WIN = ["pmesh/_window_imp.c", "pmesh/_window_imp.h", "pmesh/_window_generics.h", "pmesh/_window_tuned_nnb.h",
       "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h"]
WINX = ["pmesh/_window.pyx", "pmesh/window.py"]

prop('W01', "Painting and readout are adjoint",
     "For every resampling window, dimension, precision, gradient direction and particle, painting adds to exactly the cells "
     "that readout reads, with the same weights: painting is the transpose of readout. "
     "Painting accumulates onto the existing values of the mesh linearly in the mass, and readout is linear in the mesh values.",
     ['inputs', 'configurations'],
     "all positions, masses, mesh contents, affine transforms, periods; every window kind x dimension 1-3 x single/double x gradient axis x scaling",
     "The tests compare a few particles and windows at chosen positions; adjointness is a statement about every cell/weight pair of "
     "about two dozen separately written kernels (generic and unrolled, two precisions, three dimensions).",
     WIN + WINX,
     [("generic paint / readout pair", "pmesh/_window_generics.h:_generic_paint,_generic_readout"),
      ("unrolled paint / readout pairs", "pmesh/_window_tuned_*.h"),
      ("per-particle driver", "pmesh/_window.pyx:ResampleWindow.paint,readout")],
     [("canvas", "the mesh the particles are painted on / read from", "PMeshPainter.canvas")])

prop('W02', "Polynomial windows conserve mass",
     "For the nearest, linear, quadratic and cubic windows (generic and tuned), a particle whose whole stencil lies on the mesh deposits "
     "exactly its mass: the weights of its cells sum to one, whatever the position, scale, translation or period. "
     "The weights of a gradient window sum to zero, and for linear and higher windows the weighted cell positions average to the particle's position.",
     ['inputs', 'configurations'],
     "all positions (all fractional offsets within a cell), affine transforms, periods; dimensions 1-3, both precisions, all gradient axes",
     "A partition of unity is an identity over a continuum of offsets; tests sample a few positions and mostly one dimension.",
     WIN,
     [("kernels", "pmesh/_window_imp.c:_nearest_kernel,_linear_kernel,_quadratic_kernel,_cubic_kernel"),
      ("unrolled weights", "pmesh/_window_tuned_*.h:SETUP_KERNEL_*")])

prop('W03', "Gradient windows are the derivative of the windows",
     "Asking for the gradient of a window along an axis gives weights which are exactly the derivative of the ordinary weights "
     "with respect to the particle's position along that axis, including the affine scale of that axis and the scaling of the window; "
     "the weights along all other axes are unchanged.",
     ['inputs', 'configurations'],
     "all positions, scales and window scalings; linear, quadratic and cubic windows generic and tuned, the polynomial pieces, dimensions 1-3, each axis",
     "Tests check the gradient by finite differences at a handful of points with unit scale; a missing or squared scale factor in one tuned variant is invisible to them.",
     WIN,
     [("derivative kernels", "pmesh/_window_imp.c:_linear_diff,_quadratic_diff,_cubic_diff"),
      ("scaling of the derivative", "pmesh/_window_imp.c:_fill_k"),
      ("unrolled derivative weights", "pmesh/_window_tuned_*.h")])

prop('W04', "Tuned windows equal the generic windows",
     "The tuned nearest, linear, quadratic and cubic windows deposit and read exactly the same weights in the same cells as the "
     "corresponding generic windows of the same polynomial order, for every particle, transform, period, gradient axis, precision, support and per-particle scaling. "
     "In particular a tuned window asked for a scaled or resized stencil behaves as the scaled generic window.",
     ['inputs', 'configurations'],
     "all positions up to the measure-zero set of cell boundaries; dimensions 1-3; both precisions; gradient axis none/each; supports and scalings from a fixed list",
     "The existing tests compare the two families for one support and unit scaling in few dimensions; equality must hold for each of the 24 unrolled routines and their dispatch conditions.",
     WIN,
     [("dispatch to tuned routines", "pmesh/_window_tuned_*.h:_getfastmethod_*"),
      ("fall back", "pmesh/_window_generics.h")])

prop('W05', "Painting and readout stay inside the mesh buffer",
     "No particle, wherever it lies, makes painting or readout touch memory outside the mesh that was passed in: each accessed element is "
     "at an index between zero and the extent of its axis, addressed by the strides of its axis, and accessed with the element size of the mesh. "
     "Cells outside the mesh are skipped; table lookups of tabulated windows stay within their tables.",
     ['inputs', 'configurations'],
     "all positions (finite), periods, mesh shapes and strides; every window; dimensions 1-3; both precisions",
     "Out-of-bounds accesses at rare offsets are silent; tests use contiguous canvases and positions mostly inside the mesh.",
     WIN + ["pmesh/_window_lanczos.h", "pmesh/_window_acg.h", "pmesh/_window_wavelets.h"] + WINX,
     [("bound checks", "pmesh/_window_generics.h:goto outside; _WRtPlusN/_REdN"),
      ("element size dispatch", "pmesh/_window_imp.c:pmesh_painter_init")])

prop('W06', "The stencil is where the transform and the period put it",
     "A particle at position x touches, along each axis, the contiguous run of cells covering the window's support around scale*x + translate "
     "for the scale, translation and period of that axis; cell indices are wrapped by the period when it is positive and not wrapped at all when the period is zero. "
     "Skipping cells outside a local mesh is the only other effect of the mesh extent.",
     ['inputs', 'configurations'],
     "all positions, scales, translations, periods; every generic and tuned window; dimensions 1-3",
     "Per-axis mix-ups, wrap conditions for one negative image only and off-by-one stencils show at particular transforms only; tests use isotropic transforms.",
     WIN + WINX,
     [("position transform and first cell", "pmesh/_window_imp.c:_fill_k"),
      ("unrolled", "pmesh/_window_tuned_*.h:SETUP_KERNEL_*"),
      ("transform marshalling", "pmesh/_window.pyx:paint,readout")])

prop('W07', "Every window name selects its own kernel",
     "Every documented window name or kind, in any spelling offered, selects the value and derivative kernel and the native support of that very window, at both precisions; "
     "no two different windows share a kernel by accident and an unknown name is an error, not an arbitrary window.",
     ['inputs', 'configurations'],
     "all window names/kinds",
     "Tests exercise a few of the two dozen names; a copy-paste slip in one entry of one of four parallel tables is not seen.",
     WIN + WINX,
     [("kind table", "pmesh/_window.pyx:ResampleWindow.__init__"), ("kernel table", "pmesh/_window_imp.c:pmesh_painter_init"),
      ("names", "pmesh/window.py:windows,FindResampler")])

prop('W08', "Fourier window and compensation match the order of the window",
     "For the nearest, linear, quadratic and cubic windows, generic or tuned, the reported Fourier-space window at circular frequency w is sinc(w/2) "
     "to the power of the number of cells of the native support (1, 2, 3, 4), with the frequency scaled when the window is resized. "
     "The compensation divides a mode by the product of the one dimensional windows over all axes.",
     ['inputs', 'configurations'],
     "all frequencies, all axes, window supports",
     "Tests check one window at a few frequencies within a loose tolerance.",
     ["pmesh/_window_imp.c", "pmesh/window.py", "pmesh/_window.pyx"],
     [("Fourier windows", "pmesh/_window_imp.c:_*_fwindow,pmesh_painter_get_fwindow"),
      ("compensation", "pmesh/window.py:get_compensation,get_fwindow")])

prop('D01', "Particles are delivered once to every overlapping domain",
     "Decomposing particles sends each particle exactly once to every rank owning a non-empty domain which the particle, extended by the smoothing along each axis, overlaps "
     "(across the periodic boundary when the grid is periodic), and to no rank twice. "
     "The number of items announced to a rank equals the number of items listed for it.",
     ['inputs', 'configurations'],
     "all positions, smoothing lengths, edges (including empty domains), domain-to-rank assignments, periodic and not",
     "Tests sample a few edges and assignments; duplicated or missed delivery depends on the interplay of degenerate domains, assignment and wrap-around.",
     ["pmesh/domain.py", "pmesh/_domain.pyx"],
     [("index ranges", "pmesh/domain.py:GridND.decompose"), ("counting and filling", "pmesh/_domain.pyx:gridnd_fill")],
     [("counts/indices", "number and list of particles per rank", "GridND.decompose")])

prop('D02', "Exchange and gather are mirror images",
     "Gathering exchanged data returns, on the rank where a particle lives and at its original place, exactly the contributions of the copies sent out: "
     "what one rank sends to another in an exchange is received by it, and the way back uses the reversed counts and displacements with the same element size. "
     "All columns exchanged together and separately, and all reduction modes (sum, mean, any, local, all, or a ufunc), use the same particle correspondence.",
     ['inputs', 'schedules', 'configurations'],
     "all layouts, numbers of ranks, item shapes and types, reduction modes, output arguments",
     "Tests run on at most four ranks with symmetric layouts where swapped counts or offsets coincide.",
     ["pmesh/domain.py"],
     [("counts and displacements", "pmesh/domain.py:Layout.__init__"), ("delivery", "pmesh/domain.py:Layout._exchange"),
      ("return", "pmesh/domain.py:Layout.gather")])

prop('D03', "Domains tile the box and ownership is kept current",
     "Every position in the box belongs to exactly one domain (half-open along each axis) and its primary test is true exactly on the rank the domain is assigned to, "
     "periodic images included. Reassigning domains to ranks, e.g. for load balance, immediately changes what is primary and where particles are sent.",
     ['inputs', 'histories'],
     "all positions, edges, assignments; any sequence of load balancing and queries",
     "Boundary positions and query-after-rebalance histories are not sampled by the tests.",
     ["pmesh/domain.py"],
     [("primary regions", "pmesh/domain.py:GridND._update_primary_regions,isprimary"),
      ("assignment changes", "pmesh/domain.py:GridND.loadbalance,__init__"),
      ("load", "pmesh/domain.py:GridND.load")],
     [("DomainAssign", "domain to rank map", "GridND.DomainAssign"), ("primary_region", "boxes owned by this rank", "GridND.primary_region")])

prop('D04', "The domains of a mesh are the parts its ranks store",
     "The domain grid a mesh decomposes particles with has the edges of the parts of the mesh in configuration space, and every part is assigned to the very rank that stores it, on all ranks alike: for slabs and pencils, any numbering of the ranks in "
     "the process mesh, cached plans, and meshes so small that some ranks store nothing (these own no part with mesh points). Particles therefore arrive where the cells they are painted to are stored.",
     ['inputs', 'configurations'],
     "all meshes, process meshes, numberings of the ranks",
     "Tests use even meshes on few ranks, where blocks and ranks coincide; meshes with ranks that store nothing are not sampled.",
     ["pmesh/pm.py", "pmesh/domain.py"],
     [("edges and assignment", "pmesh/pm.py:ParticleMesh.__init__"), ("use of the assignment", "pmesh/domain.py:GridND.__init__")])

prop('M01', "Collective operations are reached by all ranks or by none",
     "No rank-local datum (number of particles, local shape or start of the mesh, local contents, the rank itself) decides whether or how often a rank takes part in a "
     "collective communication, so that no rank waits for another which has raised, returned or skipped. Errors detected on the data of one rank before a collective operation are raised on all ranks.",
     ['schedules', 'inputs', 'programs'],
     "all rank-local inputs (empty ranks, unequal lengths), all numbers of ranks, all call sequences of the public parallel interface",
     "A mismatch shows up as a deadlock only for particular distributions of the data over particular numbers of ranks.",
     ["pmesh/domain.py", "pmesh/pm.py", "pmesh/lic.py"],
     [("collective calls", "pmesh/domain.py:Layout,promote; pmesh/pm.py:Field,ParticleMesh; pmesh/lic.py")])

prop('M02', "Global results combine the contributions of all ranks",
     "Every result documented as global (sums, means, norms, inner products, element access by global index, previews, loads, exchange costs, the extremum that bounds line integrals) is reduced over all ranks with the "
     "matching reduction and is therefore identical on all ranks and independent of how the mesh is distributed.",
     ['inputs', 'configurations'],
     "all fields and numbers of ranks",
     "A serial run cannot see a missing or wrong reduction; the parallel tests sample few of these functions and run on up to four ranks.",
     ["pmesh/pm.py", "pmesh/domain.py", "pmesh/lic.py"],
     [("reductions", "pmesh/pm.py:csum,cmean,cdot,cnorm,cgetitem,csetitem,preview; pmesh/domain.py:load,get_exchange_cost; pmesh/lic.py:lic")])

prop('M03', "Scarce resources are released on every path",
     "Every communication datatype created for an exchange is committed before and freed after its use, every random number generator and scratch table that is allocated "
     "is released exactly once and not used afterwards, on every path that leaves the operation.",
     ['histories', 'programs'],
     "all calls and all exits of the functions that acquire them",
     "Leaks of a limited resource surface after tens of thousands of calls; a double free only on rare paths.",
     ["pmesh/domain.py", "pmesh/_whitenoise_imp.c", "pmesh/_whitenoise_generics.h"],
     [("datatypes", "pmesh/domain.py:Layout._exchange,gather"), ("generators", "pmesh/_whitenoise_generics.h:_generic_fill"),
      ("seed tables", "pmesh/_whitenoise_imp.c:pmesh_whitenoise_generator_fill")])

prop('P01', "Transforms use the plan that matches their buffers",
     "A forward or backward transform between a configuration space field and a transposed or untransposed Fourier field uses the plan that was made for that very layout, direction and "
     "in-placeness, for every combination of layout, precision, real-to-complex or complex-to-complex mode and process mesh. The arrays of a field are views with the layout its type stands for.",
     ['configurations', 'inputs'],
     "all field types, output arguments (new, in place, other field, shared memory), dtypes, process meshes",
     "The untransposed and in-place combinations are hardly exercised, and most field tests cannot run with the installed transform library.",
     ["pmesh/pm.py"],
     [("plans", "pmesh/pm.py:ParticleMesh.__init__"), ("selection", "pmesh/pm.py:RealField.r2c,BaseComplexField.c2r"),
      ("views", "pmesh/pm.py:Field.__init__,_get_partition,cast")])

prop('P02', "Transform normalization and its gradient factors are consistent",
     "The forward transform carries the whole normalization, one over the number of mesh points, and the backward transform none, so that a round trip is the identity. "
     "The gradient operators of the transforms are their exact transposes up to the documented Hermitian weights: the forward one scales by one over, the backward one by the number of mesh points.",
     ['inputs', 'configurations'],
     "all meshes (also anisotropic), field types and output arguments",
     "The tests of the gradients use isotropic meshes and mostly cannot run with the installed transform library.",
     ["pmesh/pm.py"],
     [("normalization", "pmesh/pm.py:RealField.r2c,BaseComplexField.c2r"), ("gradients", "pmesh/pm.py:RealField.c2r_vjp,BaseComplexField.r2c_vjp")])

prop('P03', "Arguments are not modified unless they are outputs",
     "Operations on fields, particles and layouts leave their inputs (positions, masses, smoothing lengths, gradients, source fields, layouts) unchanged; they write only to the object passed as output, "
     "to the receiver where the operation is documented as in place, or to newly created objects. When an input itself (or Ellipsis) is passed as the output of a gradient operator, an apply or a transform, the result is that of a call with a separate output.",
     ['inputs', 'histories'],
     "all argument combinations, including outputs that alias inputs",
     "Tests seldom compare inputs before and after a call, and never over all argument combinations.",
     ["pmesh/pm.py", "pmesh/domain.py", "pmesh/window.py"],
     [("copies before in-place updates", "pmesh/pm.py:cdot,cnorm,_expand_hermitian,readout_vjp,paint_vjp,resample; pmesh/window.py:paint,readout")])

prop('P04', "All particle data follow the same route",
     "When painting or reading out with a layout, positions, masses and smoothing lengths are all routed to the other ranks by that layout, and read out values come back by the same layout, so that "
     "with a layout the result equals the one without it on a single rank; a scalar mass is not routed.",
     ['inputs', 'configurations'],
     "all layouts and combinations of per-particle arguments",
     "Per-particle smoothing lengths together with a layout, or outputs together with a layout, are not covered by the tests.",
     ["pmesh/pm.py"],
     [("routing", "pmesh/pm.py:ParticleMesh.paint,RealField.readout,exchange")])

prop('P05', "Options reach the operation they were given for",
     "Every option accepted by painting, readout and their gradient operators (window, transform, gradient direction, hold, smoothing lengths, layout, output) takes effect on the underlying operation, "
     "also through wrappers, deprecated spellings and layouts; an option left out falls back to the defaults of the mesh; values are read out in double precision unless an output is given.",
     ['inputs', 'programs'],
     "all combinations of options and all wrappers",
     "A dropped keyword in one wrapper only shows for a non-default value of that keyword in that wrapper.",
     ["pmesh/pm.py", "pmesh/window.py"],
     [("forwarding", "pmesh/pm.py:paint,readout,paint_jvp,paint_vjp,readout_jvp,readout_vjp,upsample,downsample,reshape,respawn; pmesh/window.py:paint,readout")])

prop('P06', "Cached plans are only shared between equal meshes",
     "Two mesh objects share transform plans only if they agree in everything the plans depend on: mesh shape, communicator, process mesh, precision, planning method and padding; "
     "all ranks take the same decision to share or to create.",
     ['histories', 'configurations', 'schedules'],
     "all sequences of creation and destruction of meshes on all ranks",
     "Sharing goes wrong only for particular sequences of creations, collections and configurations on different ranks.",
     ["pmesh/pm.py"],
     [("cache key", "pmesh/pm.py:ParticleMesh.__init__:_cache_args"), ("collective decision", "pmesh/pm.py:ParticleMesh.__init__:hastemplate")],
     [("_pm_cache", "weak cache of plans", "pmesh/pm.py:_pm_cache")])

prop('P07', "Coordinates and indices describe the cells they are attached to",
     "The coordinates that accompany a field are, for each axis, those of the locally stored cells: global index = local index + local start of that axis; positions and wavenumbers are folded at half of the mesh into "
     "[-N/2, N/2) and scaled by L/N and 2 pi/L of that axis; slab iteration visits every cell once with its own coordinates, and the kind asked for in apply is the kind handed to the function.",
     ['inputs', 'configurations'],
     "all meshes (odd, even, anisotropic), field types, process meshes, storage orders, kinds",
     "Tests sample cubic meshes with even sizes; a wrong fold, a mixed-up axis or kind only shows on other meshes.",
     ["pmesh/pm.py"],
     [("coordinates", "pmesh/pm.py:_init_i_coords,_init_o_coords,create_coords"), ("slabs", "pmesh/pm.py:slabiter,xslabiter"),
      ("apply", "pmesh/pm.py:Field.apply"), ("mesh points as particles", "pmesh/pm.py:mesh_coordinates,generate_uniform_particle_grid")])

prop('P08', "Hermitian modes are counted and kept consistent",
     "Norms and inner products of half-stored Fourier fields count every mode whose conjugate is not stored twice and every other mode once; no mode is reweighted when the full space is stored. "
     "Setting a mode by its global index also sets the conjugate mode to the conjugate value and keeps self-conjugate modes real.",
     ['inputs', 'configurations'],
     "all meshes (odd and even), all modes, real and imaginary component access",
     "Self-conjugate planes differ between odd and even meshes and between axes; tests sample even cubic meshes.",
     ["pmesh/pm.py"],
     [("weights", "pmesh/pm.py:BaseComplexField._expand_hermitian,cnorm,cdot,decompress_vjp"), ("setting", "pmesh/pm.py:Field.csetitem,_ctol")])

prop('P09', "Gradient operators of painting and readout are exact",
     "The forward and backward gradient operators of painting and readout with respect to positions, masses and the mesh contract, for every axis once, the gradient window along that axis with the matching component of the tangent "
     "or cotangent, times the mass or value of the particle, with the same window, transform and layout as the operation itself.",
     ['inputs', 'configurations'],
     "all tangents/cotangents, windows, layouts, dimensions and choices of which gradients to compute",
     "Gradients are tested by finite differences for one window and few particles.",
     ["pmesh/pm.py"],
     [("painting", "pmesh/pm.py:paint_jvp,paint_vjp"), ("readout", "pmesh/pm.py:readout_jvp,readout_vjp")])

prop('P10', "Ghost zones are wide enough for the window in use",
     "Whenever the library itself decomposes positions in order to paint or read out with a window, the ghost zone covers half of the support of that window (plus the distance the positions are moved before the use), "
     "and is computed from the same positions and with the same transform as the painting or readout.",
     ['inputs', 'configurations'],
     "all windows, meshes, resampling ratios and numbers of ranks",
     "Missing ghosts change the result only on several ranks and for particles near domain boundaries with wide windows.",
     ["pmesh/pm.py", "pmesh/lic.py"],
     [("ghost zone", "pmesh/pm.py:ParticleMesh.decompose"), ("uses", "pmesh/pm.py:ctranspose,upsample,downsample; pmesh/lic.py:lic")])

prop('P11', "Resampling an image conserves mass or mean as requested",
     "Up- and downsampling multiply the values by the ratio of the cell volumes of the two meshes exactly when it is needed: when the mean is to be kept, a downsampled image is divided by the ratio of the cell densities and an "
     "upsampled one is not rescaled; when the mass is to be kept it is the other way round.",
     ['inputs', 'configurations'],
     "all pairs of meshes (anisotropic, different boxes) and both modes",
     "Tests use equal boxes and cubic meshes, where wrong exponents or axes coincide.",
     ["pmesh/pm.py"],
     [("factors", "pmesh/pm.py:upsample,downsample"), ("transforms", "pmesh/pm.py:upsample,downsample; pmesh/window.py:Affine.rescale")])

prop('P12', "Raveling and unraveling a field are inverse",
     "Raveling writes the field in global C order and unraveling writes it back to the same cells: both order the cells by the same global index, built from the local extent of the field and its global shape, on any number of ranks, "
     "and neither loses, duplicates or moves an element.",
     ['inputs', 'configurations'],
     "all field types, meshes, storage orders and numbers of ranks",
     "Needs more than one rank and unequal slabs, with a transform library the tests cannot use here.",
     ["pmesh/pm.py"],
     [("orders", "pmesh/pm.py:Field.ravel,Field.unravel,ParticleMesh.unravel")])

prop('N01', "White noise does not depend on the domain decomposition",
     "The value of the white noise in a mode depends on the seed, the mesh and the mode only: the random numbers consumed before a mode is sampled do not depend on which part of the mesh is stored locally, "
     "and every rank draws the same sequence of seeds.",
     ['inputs', 'configurations'],
     "all seeds, meshes and decompositions of two and three dimensional fields",
     "Tests compare a few decompositions of small meshes.",
     ["pmesh/_whitenoise_generics.h", "pmesh/_whitenoise_imp.c", "pmesh/_whitenoise.pyx"],
     [("seed table", "pmesh/_whitenoise_imp.c:SETSEED,GETSEED"), ("sampling", "pmesh/_whitenoise_generics.h:_generic_fill")])

prop('N02', "White noise is Hermitian with zero mean and correct amplitude",
     "Sampled modes satisfy the Hermitian condition on the planes where both members of a pair are stored: the conjugate member is sampled from the generator of its partner and its imaginary part is negated, self-conjugate modes are real and the zero mode is zero. "
     "In unitary mode every amplitude is one, otherwise the mean square amplitude over the random numbers is. Modes which are not conjugates are made of distinct random numbers. "
     "The mean asked for becomes the zero mode, and nothing else is changed by it.",
     ['inputs', 'configurations'],
     "all seeds and two and three dimensional meshes, even or odd, compressed or full, unitary or Gaussian",
     "A wrong sign or branch only affects some planes, visible for particular modes.",
     ["pmesh/_whitenoise_generics.h", "pmesh/_whitenoise_imp.c"],
     [("conjugation", "pmesh/_whitenoise_generics.h:_generic_fill")])

prop('N03', "White noise of a finer mesh continues that of a coarser mesh",
     "With the same seed, the value of the white noise in a mode which is resolved by two three dimensional meshes is the same in both: "
     "it depends on the seed and the wave numbers only, so that increasing the resolution adds modes and changes none.",
     ['inputs', 'configurations'],
     "all seeds and pairs of three dimensional meshes, with even, odd or unequal sides, unitary or Gaussian",
     "Tests compare two even cubic meshes.",
     ["pmesh/_whitenoise_generics.h", "pmesh/_whitenoise_imp.c"],
     [("order in which the seeds are drawn", "pmesh/_whitenoise_generics.h:_generic_fill"), ("seed table", "pmesh/_whitenoise_imp.c:SETSEED")])

prop('I01', "Scale invariant mode index is independent of the mesh",
     "The scale invariant index of a mode depends only on the mode, the number of dimensions and whether the last axis is compressed, not on the size of the mesh, which only decides whether the mode exists (index -1 otherwise). "
     "Giving a maximum length only replaces indices not smaller than it by -1.",
     ['inputs', 'configurations'],
     "all modes, meshes (odd/even), maximum lengths",
     "Tests compare two mesh sizes for a handful of modes.",
     ["pmesh/_invariant.pyx", "pmesh/_invariant_imp.c", "pmesh/invariant.py"],
     [("range check", "pmesh/_invariant.pyx:get_index"), ("index", "pmesh/_invariant_imp.c:pmesh_get_invariant_index")])

# -- properties that this family cannot decide
prop('X01', "Discrete Fourier transforms invert each other numerically",
     "Transforming a field forward and backward (or backward and forward) returns the original values to rounding, and equals the mathematical discrete Fourier transform, for every mesh and process mesh.",
     ['inputs', 'configurations'], "all fields, meshes, process meshes",
     "The transform is computed by an external library; tests sample a few fields.",
     ["pmesh/pm.py"], [("plans", "pmesh/pm.py:r2c,c2r")])
prop('X02', "White noise has unit variance and is uncorrelated",
     "White noise modes are independent Gaussian variables of unit power for all seeds.",
     ['inputs'], "all seeds",
     "Statistical, over all seeds; tests look at one seed.",
     ["pmesh/_whitenoise_generics.h"], [("sampling", "pmesh/_whitenoise_generics.h")])
prop('X03', "The scale invariant index is a bijection ordered by shells",
     "Among the modes that exist, the scale invariant index takes every value from zero exactly once and orders modes by their maximum norm.",
     ['inputs'], "all modes and dimensions",
     "Tests enumerate small meshes.",
     ["pmesh/_invariant_imp.c"], [("index", "pmesh/_invariant_imp.c:pmesh_get_invariant_index")])
prop('X04', "Fourier resampling keeps exactly the shared modes",
     "Resampling a field to another mesh keeps the amplitude of every mode both meshes resolve and zeroes all others including the Nyquist planes, for any pair of meshes.",
     ['inputs', 'configurations'], "all pairs of meshes, fields",
     "Tests sample a few pairs of even cubic meshes.",
     ["pmesh/pm.py"], [("mode mapping", "pmesh/pm.py:Field.resample,reindex,build_index")])
prop('X05', "Load balancing bounds the imbalance",
     "After load balancing, no rank carries more than the heaviest rank would if the domains, from the heaviest to the lightest, were given one after the other to the rank with the least load so far (the greedy longest-processing-time rule, hence at most 4/3 of the best possible), with one domain per rank at most when there are enough ranks.",
     ['inputs'], "all loads",
     "Tests sample a few loads.",
     ["pmesh/domain.py"], [("balancing", "pmesh/domain.py:GridND.loadbalance")])

prop('A01', "Field arithmetic acts cell by cell and in place",
     "Operators and numpy functions on fields act on the values of corresponding cells: the result is a new field of the same type on the same mesh holding the function of the values of the operands, in the order in which they were given, "
     "whether the other operand is a field, an array or a number, and the operands are unchanged. An in-place operation or an output changes that very field or array and returns it, so that every name of the field sees it. "
     "Comparisons and results of another shape are plain arrays. Copies and created fields do not share memory with what they were made from.",
     ['inputs', 'configurations'],
     "all values, types of fields, precisions, operators, orders of operands and outputs",
     "Tests apply a few operators to a field and a number.",
     ["pmesh/pm.py"], [("numpy protocol", "pmesh/pm.py:Field.__array_ufunc__"), ("copies", "pmesh/pm.py:Field.copy,ParticleMesh.create")])
prop('L01', "Line integral convolution sums the texture along the lines",
     "The line integral convolution of a texture paints at every mesh point the texture at the point plus, along both directions of the line of the vector field through it, the sum over the steps that begin within half of the length "
     "of kernel times step times the texture in the middle of the step. The kernel is evaluated at the signed distance along the line where the step begins in units of half of the length; the line advances by the step, in pixels along each axis, "
     "times the vectors at the beginning of the step, which are divided by their norm if asked for (zero vectors stay zero).",
     ['inputs', 'configurations'],
     "all vector fields, textures, kernels, box and mesh sizes, several lengths and steps, two and three dimensions",
     "The test only draws pictures.",
     ["pmesh/lic.py"], [("line integral", "pmesh/lic.py:lic")])
prop('G01', "Derived meshes, transforms and windows keep the rest",
     "A mesh that is reshaped or respawned has the shape, box, communicator and process mesh asked for and otherwise those of the original, with its precision and default window. The transforms of a mesh map positions to its local cells. "
     "A transform that is rescaled or shifted has its scale multiplied or its translation increased by the amount along each axis, in double precision, and nothing else changed; a resized window keeps its kind and has the support asked for. The originals are unchanged.",
     ['inputs', 'configurations'],
     "all shapes, boxes, amounts, forms of the arguments, precisions and default windows",
     "Tests reshape one mesh and compare its shape.",
     ["pmesh/pm.py", "pmesh/window.py"], [("derived meshes", "pmesh/pm.py:ParticleMesh.reshape,respawn,resize"), ("transforms", "pmesh/window.py:Affine"), ("windows", "pmesh/window.py:ResampleWindow.resize")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
