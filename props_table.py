NA = []
WT = 'Tests compare a few concrete runs with stored or reference output; the statement is over all values of continuous inputs.'
p('P01', 'Continuity at every interface and the boundary conditions at top and bottom',
  'For plane waves of any wavenumber and frequency, the reflection and transmission coefficients computed for a single interface (solid or fluid on either side) make displacement and traction continuous across it, and the phase delay added for layer thickness is the propagation through that layer. The coefficients at the top and bottom boundary enforce a traction-free, rigid or radiating boundary exactly as selected.',
  ['inputs'], 'all wavenumbers, phase velocities (evanescent regime), densities, vertical slownesses and thicknesses in the stated ranges, all solid/fluid combinations, all boundary types',
  WT, ['dynamic/layer.c', 'common/RT_matrix.c'],
  [('interface coefficients', 'dynamic/layer.c'), ('layer phase delay', 'common/RT_matrix.c')])
p('P02', 'Dynamic layered response solves the elastodynamic boundary value problem',
  'For every layered model, source depth, receiver depth, frequency and wavenumber, the computed displacement kernels and their depth derivatives satisfy the equations of motion in each layer, are continuous (displacement and traction) at interfaces, jump at the source by exactly the amount of the elementary source (explosion, vertical/horizontal force, three shear dislocations), and satisfy the selected top and bottom boundary conditions. This includes fluid layers and receivers above, below and at the same depth as the source.',
  ['inputs', 'configurations'], 'all wavenumbers in range, layer thickness scale, source and receiver positions (2-layer-plus-half-space models), all 9 boundary combinations, fluid layers in any supported position',
  WT, ['integral/kernel_template.c_', 'integral/kernel.c', 'dynamic/layer.c', 'dynamic/source.c', 'common/RT_matrix.c', 'common/model.c'],
  [('recursion above/below the source', 'integral/kernel_template.c_'), ('source coefficients', 'dynamic/source.c')])
p('P03', 'Static layered response solves the elastostatic boundary value problem',
  'For every layered elastic model, source depth, receiver depth and wavenumber, the static displacement kernels and their depth derivatives satisfy static equilibrium in each layer, continuity of displacement and traction at interfaces, the exact jump of each elementary source at the source depth, and the selected top (free, rigid, half space) and bottom boundary conditions.',
  ['inputs', 'configurations'], 'all wavenumbers in range, layer thickness scale, source and receiver positions, boundary combinations',
  WT, ['integral/kernel_template.c_', 'static/static_layer.c', 'static/static_source.c', 'common/RT_matrix.c', 'common/model.c'],
  [('static recursion', 'integral/kernel_template.c_'), ('static interface coefficients', 'static/static_layer.c'), ('static sources', 'static/static_source.c')])
p('P04', 'Source radiation factors are those of the source force or moment tensor',
  'For every azimuth and source, the radiation factors of a shear dislocation (strike/dip/rake), a tensile dislocation, a single force, an explosion and a moment tensor are the components, in the frame turned to that azimuth, of the force vector or moment tensor that the source stands for, linear in the scale. The factors used for azimuthal derivatives are exactly the derivatives of these factors with respect to azimuth.',
  ['inputs'], 'all azimuths, mechanisms, tensor components, scales and Vp/Vs ratios', WT, ['common/radiation.c'], [('radiation factors', 'common/radiation.c')])
p('P05', 'Coordinate rotations preserve vectors, tensors and displacement gradients',
  'Rotating a vector, a symmetric second-order tensor or a displacement with its spatial gradient between (Z, North, East) and (Z, radial, transverse) yields the components of the same object in the other frame for every azimuth and distance, including the basis-vector terms of the gradient; at zero distance the finite limit is used.',
  ['inputs'], 'all azimuths, distances and components', WT, ['common/coord.c'], [('rotations', 'common/coord.c')])
p('P06', 'Dynamic synthesis is the exact superposition of Green functions',
  'For every source mechanism, scale, azimuth and set of Green functions, each output seismogram and each spatial derivative is the superposition of the Green functions weighted with the radiation factors of that mechanism, in the requested component system (ZRT or ZNE), including at zero distance; optional time-function convolution, repeated integration and differentiation act on each trace as defined. Green functions are selected only on an unambiguous match of the requested depths and distance, and out-of-range azimuth or mechanism is refused.',
  ['inputs', 'configurations'], 'all Green function samples, mechanisms, scales, azimuths, distances; traces of 2-4 samples; all five source kinds x derivative x rotation options', WT,
  ['dynamic/grt_syn.c', 'dynamic/signals.c', 'common/radiation.c', 'common/coord.c', 'common/sacio.c'],
  [('superposition and rotation', 'dynamic/grt_syn.c'), ('time-domain operations', 'dynamic/signals.c')])
p('P07', 'Dynamic strain, stress and rotation are the tensors of the displacement field',
  'For every displacement time series and its spatial derivatives in ZRT or ZNE components at any distance (including zero), the strain, rotation and stress traces written are the symmetric gradient, antisymmetric gradient and Hooke stress of that displacement field in the same component system. Stress uses the receiver moduli, with the complex moduli of each frequency when the medium is attenuating.',
  ['inputs'], 'all sample values, distances, azimuths, receiver velocities, density and quality factors; 2-4 samples per trace', WT,
  ['dynamic/grt_strain.c', 'dynamic/grt_stress.c', 'dynamic/grt_rotation.c', 'common/attenuation.c', 'common/sacio.c'],
  [('strain', 'dynamic/grt_strain.c'), ('stress', 'dynamic/grt_stress.c'), ('rotation', 'dynamic/grt_rotation.c')])
p('P08', 'Static strain, stress and rotation are the tensors of the displacement field',
  'For every static displacement field with derivatives stored on a grid or at scattered points, in ZRT or ZNE components, the strain, rotation and stress written for each receiver are the symmetric gradient, antisymmetric gradient and Hooke stress of that field at that receiver, using the moduli of that receiver. Receivers at zero distance use the finite limit.',
  ['inputs', 'configurations'], 'all field values, receiver coordinates and moduli; grids 2x1 and 1x2, point lists of 2', WT,
  ['static/grt_static_strain.c', 'static/grt_static_stress.c', 'static/grt_static_rotation.c', 'static/recv_points.c'],
  [('strain', 'static/grt_static_strain.c'), ('stress', 'static/grt_static_stress.c'), ('rotation', 'static/grt_static_rotation.c')])
p('P09', 'Layered model reading gives the medium the file describes',
  'For every model file (thickness or depth form, with or without quality factors, with fluid layers), the layered model built for a source and a receiver depth has at every depth the velocities, density and attenuation of the file layer containing it; the layers inserted for source and receiver change no material, and complex moduli follow the frequency-dependent attenuation law. Malformed or unsupported models and source or receiver positions (non-positive values, unordered depths, fluid placements that are not supported) are refused.',
  ['inputs', 'configurations'], 'all layer values, source and receiver depths (every order relative to the interfaces) for files of 1-3 layers; frequency and quality factors symbolic', WT,
  ['common/model.c', 'common/attenuation.c', 'common/util.c'], [('reading and insertion of source and receiver', 'common/model.c'), ('complex moduli', 'common/attenuation.c')])
p('P10', 'Source time functions and time-domain operators are exact',
  'Every generated source time function (parabola, trapezoid, Ricker, custom file) has the defined shape, start, duration and normalisation for all parameters, and invalid parameters are refused. Convolution, integration and differentiation of a trace are exactly the discrete operations they stand for, at every sample including both ends.',
  ['inputs', 'configurations'], 'all sample values, intervals and parameters of the time functions with up to 8 samples; traces of 1-6 samples', WT,
  ['dynamic/signals.c'], [('time functions', 'dynamic/signals.c'), ('convolution, calculus', 'dynamic/signals.c')])
p('P11', 'Static synthesis is the superposition of interpolated static Green functions',
  'For every source type and mechanism, the static field at every receiver is the linear superposition of the library components with the source radiation factors and the unit scale, rotated to the requested component system, and its spatial derivatives are those of that field. For a receiver distance or depth pair inside the library the components are the bilinear interpolation between the bracketing library nodes, exact at the nodes, and everything outside the library is refused. Medium parameters used for the scale are those at the source depth.',
  ['inputs', 'configurations'], 'all library values, source parameters and receiver positions; libraries of up to 3 distances and 2 depths, receiver grids and lists of up to 2 points', WT,
  ['static/grt_static_syn.c', 'static/stgrnlib.c'], [('synthesis, interpolation', 'static/grt_static_syn.c'), ('library I/O, bracket search', 'static/stgrnlib.c')])
p('P12', 'A finite fault is the exact sum of the pieces that tile it',
  'Coulomb fault files are read into the geometry and slip components they describe and malformed or impossible faults are refused. Subdivision tiles the fault rectangle exactly once with pieces no larger than requested, each centred on the fault plane, for every size (including sizes whose quotient is rounded). The static field of a fault is the sum over its pieces of the point-source fields of its shear, tensile and inflation components.',
  ['inputs', 'configurations'], 'all fault geometries, slips and library values; up to 3 pieces per direction, 2 faults; all IEEE doubles for the block count of vertical faults', WT,
  ['common/finite_fault.c', 'static/grt_static_syn.c'], [('fault files, subdivision', 'common/finite_fault.c'), ('superposition', 'static/grt_static_syn.c')])

p('P13', 'The Okada module returns the exact elastic half-space solution',
  'For a point source of every kind the displacement is the moment tensor contracted with the gradient of the Green function of the homogeneous elastic half-space, and for a rectangular fault the field is the integral of those point sources over the rectangle; all nine displacement derivatives are the true derivatives. The command places sources and receivers (strike, up-dip, depth, Coulomb faults, grid or scattered receivers), converts units, and rotates to the requested components accordingly, so that source scales mean the same as in the static synthesis. Singular positions, receivers above the surface and incomplete or contradictory options are never answered with a silent result.',
  ['inputs', 'configurations'], 'point sources: all positions, elastic constants and dips; rectangles: all corner positions for a vertical fault, all along-strike extents and elastic constants at dips 0, 30 and 45; command: all strikes, source scales, slips and media at listed receiver positions', WT,
  ['okada/okada.c', 'okada/grt_okada.c'], [('point and rectangle solution', 'okada/okada.c: grt_okada_dc3d0, grt_okada_dc3d'), ('command', 'okada/grt_okada.c')])

p('P14', 'Wavenumber integration sums, splits and extrapolates the integral exactly',
  'For an arbitrary kernel the displacement and its depth and distance derivatives at every distance, including zero, are the sum of the exact Bessel integrands over every wavenumber node once, an early stop happening only where every component has become relatively small. A Filon part starts where the cells of the sum end and is the exact integral of its piecewise linear or adaptively refined quadratic interpolation against the far-field Bessel functions; direct convergence adds the exact infinite integrals of exactly what it subtracts, with or without a Filon part. Peak-trough averaging returns the repeated mean of the parabola extremes of the partial sums and leaves an already finished sum unchanged, and the searched upper limit is the first wavenumber, within its bounds, where every kernel component has settled three times in a row.',
  ['inputs', 'configurations'], 'all kernel values (complex, per source and component) at up to 4 nodes, all distances, all upper limits within 4 cells, all settling wavenumbers', WT,
  ['integral/k_integ.c', 'integral/dwm.c', 'integral/fim.c', 'integral/safim.c', 'integral/dcm.c', 'integral/ptam.c', 'integral/kmax.c', 'integral/integ_process.c', 'integral/quadratic.c'], [('discrete sum and integrand', 'integral/dwm.c, integral/k_integ.c'), ('Filon rules', 'integral/fim.c, integral/safim.c'), ('convergence', 'integral/dcm.c, integral/ptam.c'), ('upper limit', 'integral/kmax.c')])

p('P16', 'First-arrival time is the earliest physical ray of the layered model',
  'For every layered model, source depth, receiver depth and distance, the first-arrival time is the least over the direct ray between the two depths and every head wave along a layer faster than all the layers it crosses, above or below, including through low-velocity layers. Source and receiver may be exchanged, points exactly on interfaces are treated like their neighbourhood, and a wave that cannot exist along the path (shear wave in a fluid) gets the undefined value.',
  ['inputs', 'configurations'], 'all layer thicknesses and all distances for velocity tables of 4-8 layers (increasing, low-velocity layers, refractors above and below), direct rays between layers at listed slownesses', WT,
  ['common/travt.c'], [('travel time search', 'common/travt.c: grt_compute_travt1d, grt_compute_travt1d_from_file')])

p('P15', 'Green-function commands realise their options: band, damping, step, window, sign',
  'For every model, option set and receiver list, the dynamic and static Green-function commands integrate every requested frequency or depth pair exactly once with the wavenumber step, upper limit, damping and convergence method their documented rules give, fine enough that the periodic images of the source reach no receiver inside its window. The traces or library they write are the (undamped, delayed, upsampled) inverse transforms of the spectra with vertical motion positive upward and vertical derivatives positive upward, carry the right times, distances, depths and media, and exist for exactly the selected sources and components.',
  ['inputs', 'configurations'], 'all sampling steps, distances, delays, band limits, option values within the harness ranges, all spectra; 3-8 samples, 1-4 distances, 1-2 depths each', WT,
  ['dynamic/grt_greenfn.c', 'dynamic/grn.c', 'dynamic/grnspec.c', 'static/grt_static_greenfn.c', 'static/static_grn.c', 'static/stgrnlib.c'], [('set-up and command', 'dynamic/grt_greenfn.c: prepare_grn_spec, compute_greenfn_one; static/grt_static_greenfn.c'), ('per-frequency driver', 'dynamic/grn.c: grt_integ_grn_spec; static/static_grn.c: grt_integ_static_grn'), ('output', 'dynamic/grnspec.c: grt_grnspec_write_sac')])

p('P17', 'Normal modes, energy integrals, sensitivities and modal Green functions are exact',
  'A phase velocity is a mode of a layered half space exactly when the homogeneous boundary value problem has a solution, whichever reference layer is used, and the eigenfunction returned at every depth then obeys the equations of motion, interface, surface and radiation conditions, including slip at fluid layers. The energy integrals are the exact depth integrals of that motion over any subdivision in depth, and the phase velocity sensitivities are their first-order perturbations. The modal Green function of every source at every receiver, and its derivatives, is the sum over frequencies and modes of the residue of the wavenumber integral with the far-field radial function.',
  ['inputs', 'configurations'], 'all wavenumbers and one length scale for 2-3 layers with listed materials (solid and fluid layers, evanescent and oscillating waves); all wave amplitudes and energy integrals for integrals, sensitivities and Green functions', WT,
  ['modal/secular.c', 'modal/eigenfn.c', 'modal/energy.c', 'modal/modgrn.c'], [('secular function, eigenfunctions', 'modal/secular.c, modal/eigenfn.c'), ('energy integrals', 'modal/energy.c'), ('Green functions', 'modal/modgrn.c')])

DES['P01'] = '''**Method.** harness/rt_dyn.c calls the interface and boundary routines with symbolic wavenumber, vertical slownesses, densities and moduli and asserts continuity of (u,w,σ,τ) of
the up/down-going wave combination on both sides, for each of the 4 solid/fluid combinations and each boundary type. **Oracle:** eigenvectors of the equations of motion, written independently. **Bounds:** one interface, evanescent (real) slownesses;
the formulas are rational in the slownesses, so complex values follow by continuation as long as the code has no conj/real-part operations. **Cost** about 10 s.'''
DES['P02'] = '''**Method.** harness/kernel.c solves whole models: kernel and derivative at symbolic source/receiver positions give the state vector (q,w,s,t); the assertions are exact propagation between two receivers (matrix exponential of the equations of motion), jump across the source,
boundary conditions; these determine the solution uniquely. **Bounds:** up to 3 layers plus half space, materials from a fixed set of 4 (numeric), wavenumber and one length scale symbolic, all 9 boundary combinations and fluid layers by explicit case. **Outside:** more layers (the recursion is layer-by-layer), complex frequency. About 80 s.'''
DES['P03'] = '''As P02 for the static kernel (harness/kernel.c, `_st` functions). About 70 s.'''
DES['P04'] = '''harness/radiation.c: factors compared with the contraction of the moment tensor built from (strike, dip, rake)/(force) with the rotated frame, and `vdiff` with respect to azimuth; everything symbolic, no loop bounds needed. 5 s.'''
DES['P05'] = '''harness/radiation.c: rotations compared with R·A·Rᵀ and, for gradients, with the exact derivative of a symbolic polynomial field. 5 s.'''
DES['P06'] = '''harness/syn.c runs the real `syn` main on a virtual file system with symbolic Green-function samples and a symbolic command line (numbers as symbolic tokens) and compares every output sample with the superposition from first principles. **Bounds:** 2–4 samples per trace. 30 s.'''
DES['P07'] = '''harness/tensors.c runs the real strain/stress/rotation mains on symbolic SAC traces; oracle: symmetric/antisymmetric gradient with the cylindrical terms, Hooke's law applied per frequency (exact DFT). **Bounds:** 2–4 samples. 7 s.'''
DES['P08'] = '''As P07 on in-memory NetCDF fields: grids 2×1, 1×2 and 2-point lists. 7 s.'''
DES['P09'] = """harness/model.c writes a symbolic model file into the virtual file system, runs the real reader and compares the resulting arrays with a lookup written independently; refusal cases assert an error exit for every value of the offending field; `grt_attenuate/update` moduli are compared with the law. **Bounds:** 1–3 file layers, all source/receiver orderings (solver-explored paths). 50 s."""
DES['P10'] = """harness/signals.c calls the generators with symbolic durations and sampling interval and asserts shape/normalisation and refusal; the operators with symbolic samples. **Bounds:** ≤ 8 samples per time function, ≤ 6 per trace. 15 s."""
DES['P11'] = '''harness/stsyn.c builds a symbolic Green-function library (in-memory NetCDF), runs the real `static_syn` main for every source type, with and without derivatives, in both component systems and at r = 0, and compares each output variable with the superposition of bilinear interpolants written independently. **Bounds:** 2–3 distances, 1–2 source and receiver depths, ≤ 2 receivers. 50 s.'''
DES['P12'] = '''harness/ff.c: the real file reader, subdivision and `static_syn -C` on symbolic faults; oracle sums point sources over an independently computed tiling. harness/ffround.c decides the block count bit-precisely over IEEE doubles with CBMC (real arithmetic cannot see that rounding may add an empty block). **Bounds:** ≤ 3 pieces per direction, ≤ 2 faults. 150 s.'''
DES['P13'] = '''harness/okada.c: the real `grt_okada_dc3d0` with every argument symbolic must equal the contraction of the moment tensor with the derivative of the Mindlin half-space Green function (written down independently), and each returned derivative must be the exact derivative of the returned displacement; the rectangle is decided at each corner: the mixed derivative in the two corner coordinates of displacement and of all nine derivatives is ± the point source there, an empty rectangle gives zero (together: the integral over the rectangle), and adjacent rectangles add up. harness/okmain.c runs `okada_main` from options and fault file to the NetCDF file against an independently placed local solution. **Bounds:** rectangles at dips 0, 30, 45 (fixed down-dip coordinates) and 90 (all coordinates); ≤ 2 faults; command receivers at listed positions where dip or derivatives are symbolic. **Outside:** rounding near singular lines. 200 s.'''
DES['P14'] = '''**Method.** harness/integ.c calls grt_wavenumber_integral (and grt_predict_kmax) with a call-back kernel whose values are free symbols, so the whole integration code is executed for an arbitrary kernel. **Oracle:** the Hankel integrand written from its definition (and its limits at r=0,
derivatives by symbolic differentiation with J0'=-J1, J1'=J0-J1/x), closed-form integrals of polynomial times cosine, the Weber integrals of J_m(x)x^n, and a direct statement of the turning-point average. **Bounds:** at most 4 discrete nodes, 3 Filon nodes, adaptive rule
for square-root-weighted quadratics with breaks at the half and quarter points, direct convergence for kernels that have their asymptotic form everywhere, 36 turning points with three free consecutive increments, upper limit searched over ratios up to 3. Bessel functions are uninterpreted symbols
with their recurrence and derivative rules. **Cost** about 115 s. **Outside:** size of the truncation error of far-field forms, near-field terms dropped by the Filon parts, statistics files. Four defects found here were repaired (sine sign, seam, DCM limit, turning-point fallback).'''
DES['P16'] = '''**Method.** harness/travt.c runs the real search with symbolic thicknesses and distance. **Oracle:** minimum of hypot(r,h)/v (or the direct ray with known slowness) and, for each faster layer, intercept plus distance/velocity written independently. **Bounds:** velocity tables whose
head-wave angles are rational (so the comparison is exact); in the different-layer direct-ray harnesses the layers on the path are concrete (the shooting iterates on concrete numbers, square roots rounded to doubles, tolerance 0.4 ms as the shooting stops at 1 m) while all other thicknesses are symbolic. About 45 s. Two defects found here were repaired (search abandoned too early; slowness bound of an interface point).'''
DES['P15'] = '''**Method.** Three layers. harness/drvd.c and drvs.c run the real per-frequency / per-library drivers with stand-ins for the integral and the upper-limit search (decided in P14) that check the settings they are handed and return arbitrary symbols; harness/drvg.c and drvgs.c run the real command mains (options, model reader, set-up, inverse
transform, SAC / NetCDF writers) with a stand-in for the driver. **Oracle:** written from the documented rules: f_i = i/(nt·dt), damping zeta·π/window, k-step 2π/(L·rmax), image distance D−r with vmax·t_end, samples as an explicit Fourier sum with the delay phase and damping compensation. **Bounds:** 3–8 samples, ≤3 distances (4 in drvs.c), ≤2×2 depths, one model with two layers (solid or fluid on top), Filon / convergence / boundary options by explicit case.
About 30 s. Three defects found here were repaired (window end of `-E t0/v0`, automatic step at zero distance, minimum node count with `-K+f`).'''
DES['P17'] = '''**Method.** harness/modal.c calls the secular function, potential propagation, eigenfunctions and energy integrals with symbolic wavenumber and thickness; harness/modsum.c runs the real loop over frequencies, modes and receivers with stand-ins that return arbitrary amplitudes and integrals.
**Oracle:** propagator of the equations of motion (matrix exponential), mismatch determinant of the boundary value problem, a mode made by choosing the moduli of one side so that the problem has a solution; closed-form integrals of products of exponentials; residue formula with strain at the source and the far-field Hankel function.
**Bounds:** 2-3 layers, materials with rational vertical slownesses, at most one connected fluid part, two frequencies and two modes. About 100 s. **Outside:** the search for roots (numerical minimisation over c), more layers. One defect found here was repaired (depth derivatives in a fluid).'''
