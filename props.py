"""The properties: what each check encodes (units), its bounds, and the text that goes to properties.jsonl / MANIFEST.json (see gen.py)."""
BASE = ['Metric.C', 'SmartPointer.C', 'Hooks.C', 'Object.C', 'Property.C', 'Value.C', 'Error.C', 'Utils.C', 'Functors.C', 'Worldline.C', 'WorldlineIntegState.C']
METS = ['KerrBL.C', 'KerrKS.C', 'Minkowski.C', 'Hayward.C', 'ReissnerNordstrom.C', 'Kerr2PN.C', 'RezzollaZhidenko.C', 'KonoplyaRezzollaZhidenko.C',
        'SchwarzschildHarmonic.C', 'ChernSimons.C', 'BalasinGrumiller.C', 'Shift.C', 'ComplexMetric.C']
METF = ['lib/' + x for x in METS]
PROPS = {}
NA = {}
def prop(pid, title, statement, over, quant, why, files, mech, units, bounds, outside, note='', assumptions=()):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, units=units, bounds=bounds, outside=outside, note=note, assumptions=list(assumptions))
def na(pid, title, statement, over, quant, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason)
def U(h, tus, match=None, **kw): return dict(h=h, tus=tus, match=match, **kw)

prop('P01', 'Metric coefficients are symmetric, consistent and mutually inverse',
 'For every analytic metric, every admissible parameter value and every position outside the horizon, the covariant coefficients are symmetric and the contravariant ones are their exact inverse. Asking for one coefficient returns the same value as asking for the whole matrix, in both variances, whether the metric implements one or both accessors.',
 ['inputs', 'configurations'], 'all positions outside the horizon (sin theta>0) and all parameter values of the 12 analytic metrics',
 'The tests evaluate a few metrics at a handful of points; a wrong term that vanishes at those points or parameters goes unseen.',
 METF + ['lib/Metric.C'], [dict(name='gmunu / gmunu_up / gmunu_up_and_jacobian', where='lib/Metric.C and each metric')],
 [U('m_coef.cpp', BASE + METS)],
 'position and parameters symbolic over the reals: r above 2.05 (1.05 Hayward and harmonic Schwarzschild), sin(theta)>0, |a|<1; Rezzolla-Zhidenko: up to 4 non-zero coefficients of one family at a time or two of each; Konoplya-Rezzolla-Zhidenko: spins 0.6, -0.8, 0.28 and one deformation at a time',
 'floating point rounding; positions inside the horizon and on the axis; tabulated metrics (Lorene)')
prop('P02', 'Connection coefficients are those of the metric',
 'For every analytic metric, parameter value and position outside the horizon, the connection coefficients that drive geodesics equal the Levi-Civita connection of that metric\'s own coefficients (for the slow-rotation Chern-Simons metric: agree between the accessors). The full array and the single-coefficient accessors agree and are symmetric in the lower indices. A metric that defines only its coefficients gets a numerical connection that is exact for coefficients at most linear in the coordinates, and one that provides derivatives gets the exact connection.',
 ['inputs', 'configurations'], 'all positions outside the horizon and all parameter values of the analytic metrics; all metrics whose derivatives are arbitrary reals for the generic construction',
 'The tests compare the connection with finite differences at a few points of a few metrics with loose tolerances.',
 METF + ['lib/Metric.C'], [dict(name='christoffel', where='lib/Metric.C and each metric')],
 [U('m_chris.cpp', BASE + METS)],
 'as P01; the derivative of each coefficient is taken symbolically from the expression the code computes; generic construction: arbitrary coefficient and derivative values, numerical scheme on metrics affine in the coordinates',
 'floating point rounding; inside the horizon and on the axis; truncation error of the numerical connection for non-affine metrics; Lorene metrics')
prop('P03', 'Integrated equations are the geodesic and parallel-transport equations',
 'For any connection and any future-directed state, the right-hand side handed to the integrators is exactly the geodesic equation for the tangent vector and parallel transport for every vector carried along; failures of the connection and non-future-directed tangents are reported as failures. The flat metric in Keplerian mode yields the Newtonian attraction of a unit mass for massive particles, in Cartesian and in spherical coordinates. The built-in fixed-step integrator performs the classical fourth-order Runge-Kutta step.',
 ['inputs', 'configurations'], 'all connection values, states with 0, 1 or 2 transported vectors, all step lengths',
 'The tests follow a few trajectories and compare end points loosely; a missing or misplaced term in a transported component does not show.',
 ['lib/Metric.C', 'lib/Minkowski.C', 'lib/KerrBL.C'], [dict(name='diff, diff31, myrk4', where='lib/Metric.C, lib/Minkowski.C')],
 [U('k_geo.cpp', BASE + METS, '^(rhs|kepler|rk4)'), ],
 'state of 8, 12 or 16 components; all 64 connection coefficients symbolic; RK4 with an uninterpreted right-hand side of 8 components',
 'rounding; error control of the adaptive integrators')
prop('P04', 'Kerr geodesics conserve energy, angular momentum, Carter constant and norm',
 'In Boyer-Lindquist Kerr spacetime the Hamiltonian equations that are integrated are Hamilton\'s equations of that metric, so energy, axial angular momentum, norm and the Carter constant are exactly conserved by the flow. The constants computed from a state are the physical ones, conversion between velocity and momentum form loses nothing, and the correction applied after each step restores the Carter constant and the norm without changing energy, angular momentum, position or the direction of motion.',
 ['inputs', 'histories'], 'all spins |a|<1, positions outside the horizon and off the axis, all momenta',
 'Tests check conservation to a tolerance on a few orbits; errors that the step correction masks or that need a non-zero polar momentum are not visible.',
 ['lib/KerrBL.C'], [dict(name='diff, computeCst, MakeCoord, MakeMomentum, CheckCons, Normalize4v, diff31, computeNBeta', where='lib/KerrBL.C')],
 [U('k_geo.cpp', BASE + METS, '^(ham|mom|const|carter|norm|checkcons|threeplusone|rhs31)')],
 'r>2.05, sin(theta)>0, |a|<1; correction: states for which a correction exists (positive radicands), Carter constant > 0.1',
 'rounding; the axis-crossing and near-horizon fallbacks of the correction')
prop('P05', 'Four-vector algebra follows the metric',
 'For any metric the scalar product, dual, norm and projection are those of its coefficients: scalar products are g(u,v), duals contract to it, projecting removes exactly the component along the given direction. Completing a null vector or normalising a velocity yields a future-directed vector of norm 0 or -1 in the direction asked for, leaving position and spatial direction unchanged, and superluminal velocities are rejected. The zero-angular-momentum observer is unit, future-directed and orthogonal to the axial direction.',
 ['inputs', 'configurations'], 'all symmetric coefficient matrices, all vectors; each analytic metric with its own override at all positions and parameters',
 'Tests normalise a few vectors in a few metrics; overrides in individual metrics are mostly not exercised.',
 ['lib/Metric.C'] + METF, [dict(name='ScalarProd, dualOneForm, nullifyCoord, normalizeFourVel, SysPrimeToTdot, projectFourVect, zamoVelocity', where='lib/Metric.C and overrides')],
 [U('m_vec.cpp', BASE + METS)],
 'coefficients, positions and vectors symbolic; null completion outside the ergosphere (g_tt<0)', 'rounding; null completion inside the ergosphere')
prop('P06', 'Observer frames are orthonormal',
 'The local frame built for an observer consists of the (normalised) observer velocity and three spatial vectors that are exactly orthonormal with respect to the metric at the observer\'s position, oriented towards decreasing azimuth, colatitude and radius for an observer with azimuthal motion. This holds for zero-angular-momentum observers and for observers with any given subluminal velocity.',
 ['inputs', 'configurations'], 'all stationary axisymmetric coefficient matrices and the overriding metrics, all positions and azimuthal velocities',
 'The only check in the code is a warning at run time; tests look at images, which hide a frame that is slightly off.',
 ['lib/Metric.C', 'lib/KerrBL.C', 'lib/Minkowski.C'], [dict(name='observerTetrad, GramSchmidt', where='lib/Metric.C, lib/KerrBL.C, lib/Minkowski.C')],
 [U('m_frame.cpp', BASE + METS)],
 'metric coefficients symbolic with the t-phi block structure; velocities with azimuthal motion (KerrBL: any direction)', 'rounding; general 3-velocities in the generic construction')
prop('P07', 'Circular velocities are unit circular geodesics in the requested sense',
 'In the equatorial plane of every metric that offers circular orbits, at radii where they exist, the circular velocity is a future-directed unit vector without radial or polar component whose motion is a geodesic of that metric, prograde or retrograde as requested; with the Keplerian option the angular velocity is that of a Newtonian orbit instead. The specific angular momentum of circular orbits is that of this velocity.',
 ['inputs', 'configurations'], 'all radii above 9.5 (5 harmonic Schwarzschild), all spins/charges/deformations within the stated ranges, both senses',
 'Tests call it for one or two metrics and one sense; the retrograde branch is not exercised.',
 ['lib/Metric.C'] + METF, [dict(name='circularVelocity, getSpecificAngularMomentum', where='lib/Metric.C and overrides')],
 [U('m_circ.cpp', BASE + METS)],
 'r>9.5; |a|<1; charge<1; Rezzolla-Zhidenko epsilon in (-0.2,0.2), first deformation of each family in [0,0.1); Konoplya-Rezzolla-Zhidenko spin 0.6 without deformation; geodesic claim not made for Chern-Simons (perturbative), sense not decided for Hayward and KRZ',
 'rounding; positions where no circular orbit exists; off-equatorial positions')

prop('P08', 'A worldline records and returns its trajectory faithfully',
 'Whatever the sequence of requests and however its storage has to grow, a worldline holds exactly the states the integrator produced, once each, in order of coordinate time, with the initial condition keeping its place; integration goes on until the requested date or proper time is passed or a stop condition is met, and known dates are not integrated again. Dates already computed are returned unchanged in any order of request, free motion is interpolated exactly at any date, Cartesian and coordinate views agree with the record (any of the output arrays may be left out), angles are brought back to their range without moving the point, refined copies keep end points and step limit, copies are equal and independent, and changing metric, metric parameters, initial condition or formulation forgets the trajectory.',
 ['inputs', 'histories'], 'all states returned by the integrator, all dates; up to two extension requests of up to three steps each in either direction, initial storage of 1 to 3 states, every direction and stop pattern',
 'Tests follow a few orbits forward with the default storage; reallocation in both directions, unsorted dates and partial outputs are not sampled.',
 ['lib/Worldline.C', 'include/GyotoWorldline.h'], [dict(name='xFill, xExpand, xStore, getCoord, getCartesian, get_xyz, get_prime, checkPhiTheta, setInitCoord, reset, deltaMax, save_txyz, copy constructors', where='lib/Worldline.C')],
 [U('w_line.cpp', BASE+['Minkowski.C','KerrBL.C'])],
 '<=2 requests, <=3 steps each, storage 1..3 (then grown by the code); <=3 dates per call; flat metric with exact integrator for interpolation, velocity fixed there; |theta|<9, phi in (-13,19)',
 'rounding; adaptive accuracy of the interpolation in curved metrics; text formatting of exports')
prop('P09', 'Integrator steps are consistent',
 'Every integrator advances a motion whose solution is a polynomial (of degree up to its order) exactly, forwards and backwards, whatever it integrated before and without touching its input; proper time advances with the step. The 3+1 formulation converts to its variables and back without changing the state and crosses the axis like the 4D one. Adaptive steps keep the requested direction and stay between the smallest and largest step allowed. Correcting the polarisation basis yields two unit vectors orthogonal to each other and to the ray, each in its own slot and next to the vector it corrects, and leaves an orthonormal basis alone. Integrators are known by the name that selects them and copies keep integrator and formulation.',
 ['inputs', 'configurations'], 'all states and step sizes within the bounds, all four adaptive integrators and the legacy one, arbitrary lapse and shift fields for the conversions',
 'Tests compare images or orbits to a tolerance with the default integrator; other integrators, the 3+1 formulation and the corrections are barely exercised.',
 ['lib/WorldlineIntegState.C', 'lib/Worldline.C', 'include/GyotoWorldline.h', 'lib/Metric.C'], [dict(name='IntegState::Boost (nextStep, doStep, setup_stepper, reorthonormalizeBasis, checkBasis, kind, clone), IntegState::Legacy, Worldline::checkBasis, Metric::myrk4', where='lib/WorldlineIntegState.C, lib/Worldline.C, lib/Metric.C')],
 [U('i_integ.cpp', BASE+['Minkowski.C','KerrBL.C'])],
 'steps in (0.001,10) (100 for conversions), states in (-10,10); polynomial degree 5 (4 legacy, 7 Fehlberg with step 0.5); adaptive steps on uniform motion; polarisation correction in flat space for transverse vectors; no exactly null tangent (the projection used divides by its norm)',
 'rounding; accuracy of adaptive steps in curved metrics; correction of vectors with a component along an exactly null tangent')
prop('P10', 'Camera geometry: rays, pixels and polarisation basis',
 'Converting a position to sky coordinates (by the node, inclination and argument Euler angles, in metres or geometrical units) and back returns it and keeps lengths. The observer set by position or by distance and angles is on the line of sight, on the near side, at that distance. The ray of a pair of angles, for every angle convention, offset (Dangle1, Dangle2) and coordinate system, ends at the observer, is null, future-directed, of unit energy, and comes from the direction those angles name; the polarisation basis is made of two unit vectors orthogonal to each other and to the ray, at rest. The ray of a pixel is that of the angles at the pixel centre. A screen farther than dMax starts its rays at dMax, earlier by the light travel time, with angles scaled by the distance ratio. Observers with a local frame get the direction named by the angles in that frame.',
 ['inputs', 'configurations'], 'all orientations, angles, offsets, distances, dates and masses within the bounds, the three angle conventions, Cartesian and spherical coordinates, five observer kinds but the Keplerian one',
 'Tests shoot a few rays with the default projection; the errors show only for particular orientations, offsets or angle kinds.',
 ['lib/Screen.C', 'include/GyotoScreen.h', 'lib/Metric.C'], [dict(name='Screen::computeBaseVectors, coordToSky, skyToCoord, setObserverPos, getObserverPos, getRayTriad (pixel and angle forms), setProjection, dMax', where='lib/Screen.C')],
 [U('s_screen.cpp', BASE+['Minkowski.C','KerrBL.C','Screen.C'])],
 'ray angles in (-1.5,1.5), offsets in (-1,1), distances 25 to 1e6 in units of the metric, inclination off the poles by 0.05 in spherical coordinates; flat metrics for distant observers, any stationary axisymmetric metric value for local ones; resolution 2 and 3 for pixel angles (position of the pixel anywhere)',
 'rounding; observers on the axis in spherical coordinates; the Keplerian observer; alpha and delta Buckets of angles beyond what P11 checks')
prop('P11', 'Camera pixels, mask and settings',
 'A grid visits each pixel of its two ranges exactly once, row by row, and can be restarted; ranges and index lists stay inside their bounds, report their length, copy their input and keep its order; lists of angles likewise; buckets refuse lists of different lengths or kinds. A mask switches off exactly the pixels whose value is zero, pixels outside the screen are refused, the mask follows the resolution and is copied with the screen. Names of observer and angle kinds select the kind they name, unknown ones are refused and change nothing. A copy of a screen has every setting of the original and owns its metric, spectrometer and mask. Frame vectors have four components and are returned as given.',
 ['inputs', 'configurations'], 'all bounds, steps and contents within the bounds, all mask values, all settings',
 'Tests iterate full images or a few ranges; the mistakes are off-by-one errors at particular steps and sizes, or a setting lost in a copy.',
 ['lib/Screen.C', 'include/GyotoScreen.h'], [dict(name='Screen::Grid, Range, Indices, Angles, RepeatAngle, Bucket, operator()(i,j), mask, resolution, observerKind, anglekind, copy constructor, fourVel, screenVector1..3', where='lib/Screen.C')],
 [U('s_set.cpp', BASE+['Minkowski.C','KerrBL.C','Screen.C','Spectrometer.C','UniformSpectrometer.C'])],
 'ranges with symbolic bounds up to 1000 and up to 4 elements; grids up to 3 by 3; lists up to 3; masks up to 3 by 3',
 'mask files (FITS input and output)')
prop('P12', 'Unit conversions are right and invertible',
 'Converting a length, time, mass, frequency, geometrical length or time to a unit and back returns the value for every supported unit, including those of another dimension related by the speed of light or Planck constant; conversions are proportional; geometrical units scale with the mass of the metric; solar masses and radii, light travel times, wavelengths and photon energies have their definite factors. Conversions that need a metric without one, or between unrelated dimensions, and unknown units are refused. Converters and the unit arguments of screen and metric properties agree with them: a property set in a unit reads back the same in that unit, and the same angle whichever property holds it.',
 ['inputs', 'configurations'], 'all values within the bounds, every branch of each conversion, arbitrary unit length of the metric and arbitrary positive factors for the units taken from the unit library',
 'Tests convert a few values one way; wrong branches (time to length, frequency to energy) stay unseen.',
 ['lib/Converters.C', 'include/GyotoConverters.h', 'lib/Screen.C', 'lib/Metric.C'], [dict(name='Units::ToMeters, FromMeters, ToSeconds, FromSeconds, ToKilograms, FromKilograms, ToGeometrical, FromGeometrical, ToGeometricalTime, FromGeometricalTime, ToHerz, FromHerz, Converter, Unit, Init; Screen::distance, time, fieldOfView, dangle1, dangle2, PALN, inclination, argument, freqObs and Metric::mass with units', where='lib/Converters.C, lib/Screen.C, lib/Metric.C')],
 [U('u_units.cpp', BASE+['Minkowski.C','Screen.C','Converters.C'])],
 'values in (1e-3,1e3), unit length in (0.01,100); one unit per branch',
 'the unit library udunits2 itself (replaced by a linear model with arbitrary factors; replays use the real one); affine units such as degrees Celsius; builds without udunits2',
 'solver verdict over all values, for the branches named in the harness')
prop('P13', 'Requested quantities and image buffers',
 'Each quantity has its own bit and name: a request by names, in any order and separated by any blank, selects exactly those quantities, is left unmodified, reads back as a request that selects the same ones, counts scalar and spectral quantities correctly and switches parallel transport on exactly when a polarised quantity is asked for; unknown names are refused. A set of buffers reports exactly the quantities it can hold; advancing it to another pixel moves every buffer by the stride of its quantity and no other; initialising it writes the documented initial value at the pixel, in every spectral channel at the channel stride, and nowhere else.',
 ['inputs', 'configurations'], 'every quantity and pair of quantities within the bounds, arbitrary prior buffer contents',
 'Tests ask for a few quantities; a missing quantity or a wrong stride corrupts other buffers silently.',
 ['lib/Astrobj.C', 'lib/Scenery.C', 'include/GyotoAstrobj.h', 'include/GyotoDefs.h'], [dict(name='Astrobj::Properties (init, operator++, operator+=, conversion to Quantity_t), Scenery::requestedQuantitiesString, setRequestedQuantities, getScalarQuantitiesCount, getSpectralQuantitiesCount', where='lib/Astrobj.C, lib/Scenery.C')],
 [U('q_quant.cpp', BASE+['Minkowski.C','Screen.C','Astrobj.C','Scenery.C','Photon.C','Converters.C'])],
 'each of the 17 quantities alone and with two others, subsets of up to 4; up to 3 channels, channel stride 1 and 3',
 'units attached to quantities; the distribution of pixels between threads and processes')
