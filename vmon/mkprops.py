import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=state
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Ray-surface intersections are geometrically exact',
 'For every placed surface (finite plane, cylinder or cylinder segment, round or elliptical) and every ray, a hit is reported exactly when the forward half-line meets the active surface inside its limits. The reported point lies on the ray ahead of its start and on the surface, it is the nearest admissible one, and the reported surface coordinates name that same point. Rays that miss yield no coordinates at all.',
 ['inputs','configurations'],'all positions, orientations and zooms of a surface, all azimuth limits, and all ray starts and (not necessarily unit) directions outside a tolerance band around the edges',
 'Tests use a dozen hand-picked rays on mostly axis-aligned surfaces; the claim ranges over all poses, limits, ray origins in front, behind and inside, and mixtures of hits and misses in one call.',
 ['marxs/math/geometry.py','marxs/optics/base.py','marxs/simulator/simulator.py'],
 [('plane intersection','marxs/math/geometry.py:FinitePlane.intersect'),('hole and circle masks','marxs/math/geometry.py:PlaneWithHole / RectangleHole / CircularHole / FlatCircle'),('quadratic solution, azimuth limits','marxs/math/geometry.py:Cylinder.intersect'),('local bases','marxs/math/geometry.py:get_local_euklid_bases')],
 ['return value of intersect() on geometries and on optical elements'])
p('C02','Simulation results do not depend on the choice of coordinate frame',
 'If an optical element (or a group of elements) and the photons that reach it are moved together by any rotation and translation, the photons that leave are the original result moved by the same rotation and translation, while energies, probabilities, orders, identifiers and detector coordinates are unchanged (isotropic random scatter: unchanged in the angle of deflection, and in distribution). The different ways to specify a pose (single 4x4 matrix, or zoom, orientation and position) give the same element.',
 ['inputs','configurations'],'all rigid motions, all element types and their parameters, all photon lists, with the same random numbers',
 'Existing tests place elements at one or two fixed poses; invariance relates two runs for every rigid motion and every element type.',
 ['marxs/base/base.py','marxs/optics/base.py','marxs/optics/grating.py','marxs/optics/mirror.py','marxs/optics/scatter.py','marxs/optics/multiLayerMirror.py','marxs/optics/detector.py','marxs/math/geometry.py'],
 [('pose parsing','marxs/base/base.py:_parse_position_keywords'),('local bases used by elements','marxs/math/geometry.py:get_local_euklid_bases')],
 ['photon tables before and after elem(photons)'])
p('C03','Photons are never lost, reordered, mixed up or touched where they miss',
 'Whatever element or instrument processes a photon list, the list that comes back has the same photons in the same order with their source properties intact. A photon that does not meet an element comes out with every existing property unchanged, and what happens to a photon in a deterministic element (and, for a random element, with which probability) never depends on which other photons are in the list or how the list is split.',
 ['inputs','programs','histories'],'all elements, all sequences and nestings of elements, all photon lists including empty ones, single photons and lists that miss entirely, and all ways to split or permute a list',
 'Tests push one fixed on-axis photon list through each element once; partial misses, empty lists, permutations and long element chains are not sampled.',
 ['marxs/optics/base.py','marxs/base/base.py','marxs/simulator/simulator.py'],
 [('write-back of per-photon results','marxs/optics/base.py:OpticalElement.process_photons / __call__'),('output columns','marxs/base/base.py:SimulationSequenceElement.add_output_cols')],
 ['photon tables at every element boundary (recorder around element calls)'])
p('C04','Survival probability stays in [0, 1] and only ever shrinks',
 'The survival probability of a photon is always between 0 and 1 and no element ever increases it. Each element multiplies the incoming probability by a factor that does not depend on its value, so efficiencies of consecutive elements multiply, and an element whose efficiency lies outside [0, 1] is reported as an error instead of being recorded.',
 ['inputs','programs'],'all elements and chains of elements, all energies, directions and incoming probabilities, all (valid and invalid) user-supplied efficiency functions',
 'Tests check a single starting probability with one photon list per element; composition, dependence on the incoming value and rejection of invalid user functions are not covered.',
 ['marxs/base/base.py','marxs/optics/base.py','marxs/optics/filter.py','marxs/optics/mirror.py','marxs/optics/grating.py','marxs/optics/multiLayerMirror.py','marxs/missions/mitsnl/catgrating.py'],
 [('range check on assignment','marxs/base/base.py:_assign_col_value'),('efficiency factors','each element: specific_process_photons')],
 ['probability column at every element boundary'])
p('C05','Photon vectors stay physical through every element',
 'Behind every element, all photons have a finite position and a finite non-zero propagation direction in proper homogeneous form (a point and a vector respectively), and a polarization vector of unit length perpendicular to the direction of flight. Elements that do not redirect light leave direction and polarization exactly as they were.',
 ['inputs','programs'],'all elements in all poses and chains, all directions of incidence for which the element is physically meaningful (e.g. non-evanescent orders)',
 'Existing test uses photons that all travel along one axis and untilted elements, where a wrong rotation of the polarization is often invisible.',
 ['marxs/math/polarization.py','marxs/optics/grating.py','marxs/optics/mirror.py','marxs/optics/scatter.py','marxs/optics/multiLayerMirror.py','marxs/source/pointing.py','marxs/source/labSource.py'],
 [('parallel transport','marxs/math/polarization.py:parallel_transport / paralleltransport_matrix')],
 ['pos, dir, polarization columns at every element boundary'])
p('C06','Containers run exactly the elements they hold, once each, in order',
 'A sequence gives the same result as applying its elements by hand in the listed order with the pre- and post-processing steps run before and after each of them; a parallel group and a flat stack run each member exactly once. The identifier column names the member a photon met, filler values mark photons that met none, snapshots of a column contain the value after each step, and searching a container by class returns exactly the members of that class at the requested depth.',
 ['programs','inputs'],'all nestings of containers, all lists of pre- and post-processing steps, all photon lists',
 'Tests build two or three fixed small containers; ordering, nesting, exactly-once execution and search results must hold for any tree of elements.',
 ['marxs/simulator/simulator.py','marxs/optics/base.py','marxs/base/base.py'],
 [('run loop','marxs/simulator/simulator.py:BaseContainer.__call__'),('search','marxs/simulator/simulator.py:BaseContainer.elements_of_class'),('flat stack','marxs/optics/base.py:FlatStack'),('snapshots','marxs/simulator/simulator.py:KeepCol')],
 ['call log of probe elements, output columns'])
p('C07','Placement and misalignment of element groups compose and are reversible',
 'Every member of a group of parallel elements sits where composing the pose of the group, the misalignment of the group, the nominal place of the member and its own misalignment puts it, with its own arguments and running number. Regenerating is idempotent, resetting the misalignments restores the nominal layout, and moving the reference point of a group leaves all members in place but makes later misalignments act around the new point.',
 ['histories','configurations'],'all group poses, member layouts, global and individual misalignments and all sequences of regenerate, misalign, reset and re-centre operations',
 'Tests exercise a group at the origin with one misalignment; order of composition only matters when several non-commuting transformations meet.',
 ['marxs/simulator/simulator.py','marxs/design/uncertainties.py'],
 [('composition','marxs/simulator/simulator.py:Parallel.generate_elements'),('re-centring','marxs/simulator/simulator.py:Parallel.move_center'),('calculated layouts','marxs/simulator/simulator.py:ParallelCalculated'),('random misalignment','marxs/design/uncertainties.py:generate_facet_uncertainty')],
 ['pose of each member after each operation'])
p('C08','Diffraction obeys the grating equation for every order and incidence',
 'A photon diffracted into order m leaves with its momentum component along the grooves unchanged and its component across the grooves (in the plane of the grating) shifted by m times wavelength over grating period, keeping unit length; transmission gratings keep the side of travel and reflection gratings reverse it. Order zero passes straight on (or reflects specularly), and the recorded order and blaze angle are the ones that were used; position-dependent periods are evaluated at the point of impact.',
 ['inputs','configurations'],'all grating poses, groove angles, periods (constant or position dependent), energies, orders and directions of incidence with a propagating order',
 'Tests use near-normal incidence, a handful of orders and axis-aligned gratings, where several wrong formulae agree.',
 ['marxs/optics/grating.py','marxs/missions/mitsnl/catgrating.py','marxs/missions/chandra/hess.py','marxs/optics/scatter.py'],
 [('diffraction','marxs/optics/grating.py:FlatGrating.diffract_photons'),('non-parallel CAT grating','marxs/missions/mitsnl/catgrating.py:NonParallelCATGrating'),('facet periods','marxs/missions/chandra/hess.py')],
 ['dir, order, blaze columns behind a grating'])
p('C09','Diffraction orders follow the tabulated efficiencies',
 'The frequency of each assigned diffraction order equals its tabulated efficiency relative to all orders, and the survival probability is multiplied by the summed efficiency, so that probability-weighted counts per order reproduce the table at every energy, blaze angle and polarization. Only tabulated orders are ever assigned, and tables that are not valid efficiencies are rejected.',
 ['inputs','configurations'],'all efficiency tables, order lists, energies and blaze angles',
 'Statistical and table-dependent: tests use two tiny tables at grid points.',
 ['marxs/optics/grating.py','marxs/missions/mitsnl/catgrating.py','marxs/missions/arcus/ralfgrating.py'],
 [('order selectors','marxs/optics/grating.py:OrderSelector / EfficiencyFile'),('interpolated tables','marxs/missions/mitsnl/catgrating.py:InterpolateEfficiencyTable')],
 ['return value of order selectors; order and probability columns'])
p('C10','Detector coordinates identify the impact point',
 'For every photon recorded by a flat or cylindrical detector, the pixel coordinates and the local position follow from the impact point by the same affine map (pixel size, centre offset and orientation), so the impact point can be recovered from them; photons that miss carry no coordinates. Energy read-out redraws leave everything else unchanged and follow the tabulated detector resolution.',
 ['inputs','configurations'],'all detector poses, sizes, pixel sizes, centre pixels, arc limits and photon lists',
 'Tests check two detectors with a few rays; the pixel map must hold over the whole face, any pose and any non-square zoom.',
 ['marxs/optics/detector.py'],
 [('pixel map','marxs/optics/detector.py:FlatDetector / CircularDetector'),('energy redistribution','marxs/optics/detector.py:CCDRedist')],
 ['detector columns vs pos column'])
p('C11','Entrance apertures illuminate their open area uniformly',
 'Photons are placed only inside the open area of an aperture, uniformly per unit area, at positions on the aperture surface that match the recorded aperture coordinates, and with a probability reduced by the projection of the aperture onto the beam. The reported collecting area equals the true open area, and a combination of apertures shares photons in proportion to their areas.',
 ['inputs','configurations'],'all aperture shapes, sizes, poses, inner and outer radii, azimuth ranges and combinations of apertures',
 'Uniformity is a statement about the whole distribution; tests look at a few moments or bounds for single configurations.',
 ['marxs/optics/aperture.py','marxs/math/geometry.py'],
 [('sampling','marxs/optics/aperture.py:RectangleAperture / CircleAperture / MultiAperture'),('area','marxs/optics/aperture.py:area')],
 ['positions, coordinates, probability of generated photons; area attribute'])
p('C12','Idealised mirrors image the sky onto the focal plane',
 'All parallel rays from one direction that pass a perfect lens meet in one point, reached at the focal length along the unbroken ray through the optical axis, whatever part of the lens they hit; a thin lens bends each ray towards its centre by the angle distance over focal length and so images points according to the lens equation for small angles. Reflectivity enters the survival probability as the tabulated reflectivity at the photon energy and the actual grazing angle (a quarter of the total deflection), once for each of the two reflections; nested shells and mirror segments record the shell that was crossed and use its efficiency.',
 ['inputs','configurations'],'all focal lengths, lens poses, off-axis angles, ray positions and reflectivity functions',
 'Tests look at one lens pose on axis; imaging is a relation for all rays and directions.',
 ['marxs/optics/mirror.py','marxs/missions/lynx/mirror.py'],
 [('ideal lens','marxs/optics/mirror.py:PerfectLens'),('thin lens','marxs/optics/mirror.py:ThinLens')],
 ['dir, pos, polarization, probability behind a lens'])
p('C13','Scattering deflects by the stated random angles in the stated planes',
 'A scattering element deflects each photon by exactly the angles it records: the in-plane angle changes the angle to the line from the centre of the element to the photon, the out-of-plane angle rotates about that line, or a uniformly random azimuth for isotropic scatter. These angles have zero mean and the requested width whatever the pose, and a width of zero leaves directions unchanged.',
 ['inputs','configurations'],'all scatter widths (fixed or photon dependent), element poses, ray directions and positions',
 'A statement about distributions and exact per-photon geometry for arbitrary directions; tests check aggregate widths for one axis-aligned case.',
 ['marxs/optics/scatter.py','marxs/missions/mitsnl/catgrating.py'],
 [('mirror scatter','marxs/optics/scatter.py:RadialMirrorScatter'),('isotropic scatter','marxs/optics/scatter.py:RandomGaussianScatter'),('L2 support diffraction','marxs/missions/mitsnl/catgrating.py:L2Diffraction')],
 ['dir before and after, recorded angle columns'])
p('C14','Absorbers and mirror coatings attenuate by their stated transmission',
 'An energy filter multiplies the survival probability of exactly the photons that cross it by its transmission at their energy; a global filter does so for every photon; a baffle passes photons inside its opening untouched and removes all others. A flat multilayer mirror reflects specularly, with a reflectivity given by the table at the point of impact and energy and by the polarization state, and leaves a polarization that is the reflected in- and out-of-plane mixture.',
 ['inputs','configurations'],'all energies, positions, poses, transmission functions, incidence directions and polarization states',
 'Tests use one baffle, constant transmissions and two polarization angles.',
 ['marxs/optics/filter.py','marxs/optics/baffles.py','marxs/optics/multiLayerMirror.py'],
 [('filters','marxs/optics/filter.py'),('baffle','marxs/optics/baffles.py'),('mirror','marxs/optics/multiLayerMirror.py')],
 ['probability, dir and polarization before and after'])
p('C15','Sources emit photon lists that match flux, spectrum and polarization input',
 'For every flux, spectrum and polarization specification a source terminates and returns one row per photon with ordered arrival times inside the exposure, a number of photons given by rate, exposure and collecting area, energies distributed as the input spectrum within its bins, polarization angles distributed as requested, and unit initial probability. User-supplied functions are called with the photon times (and energies) and their values are used unchanged, and invalid input is rejected.',
 ['inputs','configurations'],'all exposure times, rates including very low ones, areas, energy and polarization tables or functions',
 'Distributional and edge-case claims (low rates, zero photons, single-bin spectra) over all input; tests sample a few generous cases.',
 ['marxs/source/basesources.py','marxs/math/random.py'],
 [('times','marxs/source/basesources.py:Source.generate_times / poisson_process'),('energies','marxs/source/basesources.py:Source.generate_energies'),('polarization','marxs/source/basesources.py:Source.generate_polarization')],
 ['photon table returned by generate_photons'])
p('C16','Extended sources have the stated shape anywhere on the sky',
 'Photons of a point source all carry its coordinates, and photons of an extended source are distributed around its coordinates with the stated radial profile (within the stated radii) and uniform azimuth, measured as true angular separation on the sphere, whatever the declination or right ascension of the centre. Shaped sources have the stated angular size and orientation on the sky.',
 ['inputs','configurations'],'all source centres including the poles and the right-ascension wrap, all sizes and profiles',
 'Tests use one or two centres and moments; distortion appears only near the poles or for large sizes.',
 ['marxs/source/basesources.py'],
 [('radial sources','marxs/source/basesources.py:RadialDistributionSource / SphericalDiskSource / DiskSource / GaussSource'),('shaped source','marxs/source/basesources.py:SymbolFSource')],
 ['ra and dec columns of generated photons'])
p('C17','Pointing maps the sky rigidly into the instrument frame',
 'A pointing turns sky positions into unit propagation directions by a single rotation: a source at the target direction travels along the reference axis, angular separations on the sky are preserved, north and east map to the roll-dependent instrument axes, and the polarization angle counted from north through east becomes the matching vector perpendicular to the ray. Pointing jitter moves each photon by a small rotation with the stated amplitude, and time-dependent dither reduces to the fixed pointing when its amplitude is zero.',
 ['inputs','configurations'],'all target and source coordinates, roll angles, reference frames, jitter widths and dither parameters',
 'Tests look at a few target coordinates and rolls; rigidity is a relation between all pairs of sky positions.',
 ['marxs/source/pointing.py','marxs/missions/chandra/dither.py','marxs/math/polarization.py'],
 [('pointing','marxs/source/pointing.py:FixedPointing'),('jitter','marxs/source/pointing.py:JitterPointing'),('dither','marxs/missions/chandra/dither.py:LissajousDither')],
 ['dir and polarization columns, header keywords'])
p('C18','Laboratory sources emit from their position into their cone only',
 'Photons of a laboratory source start at the source position with unit directions that lie inside the stated cone around the stated axis, uniformly distributed in solid angle, for every axis direction. The number of photons follows from the rate and the exposure time, and a distant lab source illuminates its rectangular aperture uniformly, every photon travelling along the line from the source position.',
 ['inputs','configurations'],'all positions, axis directions including those parallel to a coordinate axis, opening angles and rates',
 'Tests use a couple of axes; degenerate axes and distribution in solid angle are not sampled.',
 ['marxs/source/labSource.py'],
 [('cone','marxs/source/labSource.py:LabPointSourceCone'),('far source','marxs/source/labSource.py:FarLabPointSource')],
 ['pos, dir, polarization of generated photons'])
p('C19','Random draws follow the tabulated probability distribution',
 'Random numbers drawn from a tabulated probability density are distributed as the piecewise constant density the table describes, never fall outside the tabulated range or in bins of zero density, and the number drawn is the number asked for. Tables that do not describe a density are rejected.',
 ['inputs','configurations'],'all tables (any binning, unnormalised, with empty bins) and all sample sizes',
 'Tests compare one coarse histogram; bin edges, empty bins and non-uniform bins need full-distribution oracles.',
 ['marxs/math/random.py'],
 [('inverse cumulative sampling','marxs/math/random.py:RandomArbitraryPdf')],
 ['samples returned'])
p('C20','Polarization vectors are transported without distortion',
 'Converting a polarization angle to a vector gives a unit vector perpendicular to the ray, at that right-handed angle from the projection of the +y axis (of the +x axis for rays along y). Transport of a polarization vector from one ray direction to another is an isometry that maps the old direction to the new one, leaves components perpendicular to the plane of both directions unchanged, does nothing for an unchanged direction and undoes itself on the way back; reflection matrices are their physical counterparts.',
 ['inputs'],'all pairs of directions (including parallel and anti-parallel where defined), all polarization vectors and angles, with or without units',
 'An algebraic law over all vectors; tests evaluate a few.',
 ['marxs/math/polarization.py'],
 [('angle to vector','marxs/math/polarization.py:polarization_vectors'),('transport','marxs/math/polarization.py:paralleltransport_matrix / parallel_transport'),('reflection','marxs/math/polarization.py:Q_reflection')],
 ['return values'])
p('C21','Homogeneous and line coordinates represent the same points and lines',
 'Conversions between Euclidean and homogeneous coordinates are inverse to each other for any shape of array, line and plane representations describe exactly the points on the line or plane, and constructing them from transformed points gives the transformed intersections. Helper angles, bases and translations agree with elementary geometry for every input.',
 ['inputs'],'all points, directions, planes, lines and affine transformations, in single and stacked form',
 'Algebraic identities over all inputs; tests pick a few values.',
 ['marxs/math/utils.py','marxs/math/pluecker.py','marxs/math/rotations.py'],
 [('coordinates','marxs/math/utils.py:e2h / h2e / norm_vector / angle_between'),('lines and planes','marxs/math/pluecker.py'),('rotations','marxs/math/rotations.py')],
 ['return values'])
p('C22','Rowland torus surface, normals, search and parameters agree',
 'For every Rowland torus in any pose, a point given by its two angles fulfils the surface equation, points off the surface do not, angles recovered from a point reproduce it, normals are perpendicular to the surface and searching along a line returns a point on that line and on the surface. Constructors for tilted and double-tilted designs return tori that pass through the focal point and contain the requested optical design points.',
 ['inputs','configurations'],'all radii (spindle and ring tori), poses, zooms, angles, lines of search and design angles',
 'Identities over continuous parameters; tests pick one torus.',
 ['marxs/design/rowland.py'],
 [('torus','marxs/design/rowland.py:RowlandTorus'),('design formulae','marxs/design/rowland.py:design_tilted_torus / double_rowland_from_channel_distance / ...')],
 ['return values'])
p('C23','Gratings and detectors arrays lie on the Rowland torus where asked',
 'Every element of an array generated on a Rowland torus has its centre on the torus, lies in the requested region, is turned so that its normal and groove direction follow the stated specification at its own position, and appears exactly once; neighbouring elements do not overlap more than the spacing rule allows and the region is filled as far as the spacing permits.',
 ['configurations'],'all tori, regions (radius, angle, rectangular range), element sizes and orientation specifications',
 'Layout is a global property of generated arrays; tests check a few counts for one torus.',
 ['marxs/design/rowland.py','marxs/simulator/simulator.py'],
 [('arc layout','marxs/design/rowland.py:GratingArrayStructure'),('grid layout','marxs/design/rowland.py:RectangularGrid / CircularMeshGrid / ElementsOnTorus'),('facet orientation','marxs/simulator/simulator.py:ParallelCalculated.calculate_elempos')],
 ['poses of generated elements'])
p('C24','Tolerancing studies leave instrument and photons as they found them',
 'A tolerancing run evaluates each requested parameter set on the same incoming photons and reports one result row per parameter set and setting with exactly the parameters that were applied; it never changes the incoming photon list, and afterwards (or after applying the neutral parameters) the instrument is in its nominal state. Each kind of misalignment moves exactly the elements it names, about their own or the common centre as stated, by the stated amounts, and repeated application replaces rather than accumulates.',
 ['histories','configurations'],'all orders and repetitions of misalignment operations with any parameters on any instrument layout',
 'Accumulation, leakage and wrong-centre errors only show up in histories of several operations and comparisons across a full run.',
 ['marxs/design/tolerancing.py','marxs/design/uncertainties.py','marxs/missions/mitsnl/tolerances.py'],
 [('wiggle / moveglobal / moveindividual / moveelem / varyperiod / varyorderselector / varyattribute','marxs/design/tolerancing.py'),('run loops','marxs/design/tolerancing.py:run_tolerances / run_tolerances_for_energies')],
 ['element poses and parameters, photons before and after, result table'])
p('C25','Analysis figures of merit equal their definition on the photon list',
 'Effective areas, detected fractions, resolving powers, weighted widths and best-focus positions computed from a photon list equal the value obtained by evaluating their definition directly on that list, for every list, order and weight. They never change the list, are invariant under reordering of photons and under the common scaling of weights where the definition is, and report undefined instead of a number when there is nothing to measure.',
 ['inputs'],'all photon lists, weights, orders, sub-aperture selections and instruments',
 'The value of a statistic on arbitrary weighted, partially missing data; tests use tiny idealised lists.',
 ['marxs/analysis/gratings.py','marxs/analysis/analysis.py','marxs/analysis/coords.py','marxs/analysis/run_helpers.py'],
 [('effective area and resolving power','marxs/analysis/gratings.py'),('focus search','marxs/analysis/analysis.py'),('projection','marxs/analysis/coords.py')],
 ['return values vs naive reference'])
p('C26','Response files are normalised, lossless and survive a round trip',
 'Compressing a redistribution matrix and expanding it again gives back every entry above the threshold at the same place, for every row layout and first-channel convention, and each row of a generated Gaussian response sums to the probability inside the channel range. Writing and reading response and effective-area files preserves energies, units, values and order keywords, and combining or plotting them never changes them.',
 ['inputs','configurations'],'all matrices (empty rows, several groups, single channels), channel grids in energy or wavelength, thresholds and header conventions',
 'Compression is a data-dependent encoding; tests use one or two matrices.',
 ['marxs/reduction/ogip.py','marxs/missions/arcus/arfrmf.py'],
 [('group encoding','marxs/reduction/ogip.py:RMF.arr_to_rmf_matrix_row / RMF.full_rmf'),('effective area','marxs/reduction/ogip.py:ARF')],
 ['return values, files written'])
p('C27','Order sorting splits photons between orders consistently',
 'The fraction of photons of one order that ends in the order-sorting region of another is a probability that follows the detector resolution and the region limits; regions that tile the energy axis assign every photon at most once, and the three region definitions have the stated widths. Applying it to an effective area multiplies each bin by that fraction and keeps all other information, exactly once.',
 ['inputs','configurations'],'all energies, orders (also negative), offsets, region definitions and detector resolutions',
 'Continuous families and conservation sums; tests check single numbers.',
 ['marxs/reduction/osip.py'],
 [('region and fraction','marxs/reduction/osip.py:OSIPBase.osip_range / osip_factor / apply_osip')],
 ['return values, files written'])
p('C28','Line-spread-function parameters describe the same line profile',
 'A line profile converted to tabulated parameters and back is the same model, interpolating between tabulated wavelengths reproduces the tabulated values at the grid points, and a response matrix built from such parameters is normalised to the enclosed fraction and centred on the line at every wavelength.',
 ['inputs','configurations'],'all combinations of Gaussian and Lorentzian components, wavelengths and extraction widths',
 'Tests in the repository do not exercise most of this module; it is a round-trip law over arbitrary parameters.',
 ['marxs/reduction/lsfparm.py'],
 [('conversion','marxs/reduction/lsfparm.py:sherpa2caldb / caldb2sherpa / flatten_sherpa_model'),('tables','marxs/reduction/lsfparm.py')],
 ['return values'])
p('C29','CAT grating support structures absorb and diffract as specified',
 'In a stack of grating membrane and support levels each photon gets exactly one main order and one order per support level with the stated probabilities, is blocked by the geometric fraction of the bars including their shadow at its own angle of incidence, and passes thick bars according to the stated bulk transmission, for every stack geometry. The total transmission is the product of the levels and never leaves [0, 1].',
 ['inputs','configurations'],'all bar geometries, energies, incidence angles within the range of the model, orders and stack poses',
 'Tests use one geometry at normal incidence and one tilted; the formulas must hold over the angle and dimension ranges and when combined.',
 ['marxs/missions/mitsnl/catgrating.py','marxs/missions/arcus/ralfgrating.py'],
 [('stack','marxs/missions/mitsnl/catgrating.py:CATL1L2Stack'),('L1, L2, quality','marxs/missions/mitsnl/catgrating.py:L1 / L2Abs / L2Diffraction / QualityFactor'),('bulk material','marxs/missions/mitsnl/catgrating.py:catsupportbars')],
 ['probability, order columns'])
p('C30','Chandra chip, tangent and sky coordinates are consistent',
 'For a photon on any Chandra CCD, chip coordinates determine the tiled-detector and focal-plane coordinates by the documented rigid maps, adjacent pixels stay adjacent, physical position and chip coordinate name the same spot on the same chip, and the default CCD layout reproduces the surveyed chip corners. Grating facets of both grating types have the documented period and orientation.',
 ['inputs','configurations'],'all chips, positions on a chip, chip selections, aimpoints and detector offsets',
 'Tests check a few chips at single points.',
 ['marxs/missions/chandra/det_acis.py','marxs/missions/chandra/data.py','marxs/missions/chandra/hess.py'],
 [('chip layout','marxs/missions/chandra/det_acis.py'),('tiling','marxs/missions/chandra/data.py:chip2tdet')],
 ['detector columns'])
p('C31','Visual output shows the geometry that is simulated',
 'Every exported shape (triangulation, parametric surface, box, rays) consists of finite vertices on the simulated surface in its pose with face indices that refer to existing vertices and cover the stated outline without its hole. The X3D and JSON exports carry the same vertices, colours and transformations, are well-formed, and plotting never alters the simulated object.',
 ['inputs','configurations'],'all element shapes, poses, display settings, holes, limits and ray data',
 'Tests compare a few literal outputs.',
 ['marxs/visualization/utils.py','marxs/visualization/x3d.py','marxs/visualization/threejs.py','marxs/visualization/threejsjson.py','marxs/math/geometry.py'],
 [('triangulation','marxs/visualization/utils.py:plane_with_hole / combine_disjoint_triangulations'),('export','marxs/visualization/x3d.py, threejsjson.py')],
 ['exported scenes and dictionaries'])
p('C32','Photon lists carry complete provenance and survive storage',
 'Header information present in a photon list is still there, unchanged, after any element, and running a source, pointing and instrument adds the exposure, pointing and software keywords describing what was run. A photon list written to disk and read back is the same list.',
 ['programs','inputs'],'all chains of elements and all metadata present beforehand',
 'Tests check single elements with one header.',
 ['marxs/base/base.py','marxs/source/basesources.py','marxs/source/pointing.py','marxs/utils.py'],
 [('tags','marxs/base/base.py:TagVersion'),('source keywords','marxs/source/basesources.py:Source.generate_photons')],
 ['table meta'])
p('C33','Runs are repeatable and elements keep no hidden state',
 'With the same random seed, running the same photons through the same instrument gives the same result, no matter how often it ran before, what other elements were created or used in between, or whether a copy of the instrument is used. Processing photons does not change the element, creating or changing one element never changes another, and user-supplied arguments are not modified.',
 ['histories','programs'],'all elements and instruments, all interleavings of creating, using and modifying them',
 'Hidden shared state shows only in histories that use several objects; each test builds its own objects.',
 ['marxs/base/base.py','marxs/optics/base.py','marxs/math/geometry.py','marxs/simulator/simulator.py','marxs/optics/aperture.py','marxs/design/rowland.py'],
 [('instance construction','marxs/base/base.py / marxs/math/geometry.py')],
 ['element fingerprints and photon tables across histories'])
p('C34','Complete instrument models trace every photon consistently',
 'In every complete mission model that can be run, from source to detector, each recorded identifier, order and detector coordinate agrees with the path of that photon: positions along the path are connected by the directions of flight, shells, facets and CCDs recorded are the ones whose surface the photon crossed, and probabilities equal the product of the efficiencies met on the way.',
 ['programs','inputs'],'all shipped mission models that run without external calibration data, all source positions, energies and misalignments in their range',
 'Mission code is documented as nearly untested; consistency along full paths is a property of whole runs.',
 ['marxs/missions/lynx/lynx.py','marxs/missions/lynx/mirror.py','marxs/missions/AXIS/AXIS.py','marxs/missions/chandra/hess.py','marxs/missions/athena/spo.py','marxs/missions/arcus/spo.py','marxs/missions/arcus/boom.py'],
 [('instrument definition','marxs/missions/*')],
 ['recorder at every element boundary'])
p('C35','Bent and chirped gratings focus as designed',
 'Bending a grating along a torus keeps its centre in place and makes its surface normal follow the torus normal at each point of impact, and a numerically determined chirp sends the design wavelength and order from every point of the grating to the same place as its centre, while the period at the centre stays nominal.',
 ['inputs','configurations'],'all tori, grating poses and sizes within the design range, design energies and orders',
 'A focusing condition over the whole grating face; tests look at single configurations.',
 ['marxs/design/bendgratings.py'],
 [('bending','marxs/design/bendgratings.py:bend_gratings'),('chirp','marxs/design/bendgratings.py:NumericalChirpFinder / chirp_gratings')],
 ['photons behind modified gratings'])
p('C36','Arcus responses and grid analysis agree with the instrument',
 'The effective area written for an Arcus channel and order is the product of tabulated mirror and grating area, filter transmission and detector efficiency and the number of channels for which a ray diffracted into that order hits a CCD, in energy bins that are those asked for in any unit or order, and photons traced through the instrument reach CCDs where the response says so. The summary of a grid of simulations gives, for every file, channel and order, exactly the area and resolving power of the photons in that file that belong to the channel and order, averages them weighted by area, refuses to mix files from different simulations, and keeps wavelengths, orders and values together when written to tables.',
 ['inputs','configurations'],'all energy grids, orders, sets of channels, area tables, photon lists and grids of files',
 'Existing tests of these functions are skipped because they need external calibration data; sums over bins, channels and files are properties of all inputs.',
 ['marxs/missions/arcus/arfrmf.py','marxs/missions/arcus/analyze_grid.py','marxs/missions/arcus/arcus.py','marxs/missions/arcus/load_csv.py'],
 [('response','marxs/missions/arcus/arfrmf.py:mkarf / OnCCD / MirrGrat'),('grid','marxs/missions/arcus/analyze_grid.py:aeffRfromraygrid')],
 ['response tables','summary tables of a grid','traced photons'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
