# Table of properties, executed by gen.py (which provides `prop`).

prop("C01", "Changing the coordinate system of a position never moves the point",
     "Converting a position between any two coordinate systems of the same dimension (3-D: Cartesian, cylindrical, physics-, math- and lon-lat-spherical, prolate spheroidal; 2-D: Cartesian, polar; 1-D: Cartesian, radial) yields a position of the requested class, with the same batch shape, that denotes the same physical point under the documented convention of each system. Going back, or along any chain of conversions, ends at the same point as the direct conversion. This holds at the poles, on the axes and at the origin, for any input units, and for any focal length of the prolate system.",
     ["inputs", "histories"], "all valid positions (any azimuth, pole, axis, origin, batch shape, length/angle unit, float32/float64), all pairs of systems, all conversion chains",
     "no test round-trips between systems, uses a chain, or checks the special points against an independent geometry.",
     ["vectors/d3/transform.py", "vectors/d2/transform.py", "vectors/d1/transform.py", "vectors/transform/d3.py", "vectors/d3/spheroidal.py", "vectors/base/base.py"],
     [("represent_as dispatches, direct formulas and via-hub conversions", S + "vectors/d3/transform.py"), ("vmapped coordinate transform with unit stripping", S + "vectors/d3/transform.py")],
     ("round trips and chains against a NumPy reference geometry", "Generated native components and Cartesian points for all pairs of systems and chains of length 2-5, in float64 and float32."))

prop("C02", "Positions hold only valid components; invalid ones are rejected",
     "A position can only be constructed with components inside the range its coordinate system defines (non-negative radial distances, polar angle in [0, 180] deg, latitude in [-90, 90] deg, prolate mu >= Delta^2 >= |nu| and Delta > 0) and of the right physical dimension; anything else raises an error, whatever the unit, and whichever element of a batch is at fault. Azimuths given as plain quantities are stored in [0, 360) deg, modulo whole turns. The result of every conversion satisfies the same ranges.",
     ["inputs"], "all component values in and out of range, in any compatible or incompatible unit, scalar or batched, all position classes; outputs of all conversions",
     "the few tests of checks use one negative scalar per class.",
     ["vectors/checks.py", "vectors/converters.py", "vectors/d3/spherical.py", "vectors/d3/lonlatspherical.py", "vectors/d3/mathspherical.py", "vectors/d3/cylindrical.py", "vectors/d2/polar.py", "vectors/d3/spheroidal.py", "angles/base.py", "distances/core.py"],
     [("__check_init__ range checks", S + "vectors/checks.py"), ("field converters (azimuth wrapping)", S + "vectors/d3/base_spherical.py")],
     ("accept/reject oracle on generated components", "In-range values must be stored unchanged (azimuth modulo a turn), values outside by a clear margin must raise."))

prop("C03", "Lenient spherical construction canonicalises without moving the point",
     "The lenient constructor of each spherical position system (`from_` with keyword components) accepts a negative radius and polar angles or latitudes outside their range, and returns a valid position denoting the same physical point as the raw components read through the spherical formulas. Components already in range come out unchanged up to whole turns of the azimuth.",
     ["inputs"], "all radii of either sign, all polar/azimuth/latitude angles over several turns, units, batch shapes, mixed broadcastable shapes; physics, math and lon-lat spherical systems",
     "the doctests show one negative radius and one out-of-range angle each.",
     ["vectors/d3/spherical.py", "vectors/d3/mathspherical.py", "vectors/d3/lonlatspherical.py"],
     [("from_ with sign and range folding", S + "vectors/d3/spherical.py")],
     ("comparison with the raw components' Cartesian point", "Generated signed radii and multi-turn angles against the spherical formulas."))

prop("C04", "Dimension-changing conversions keep what is shared and warn on loss",
     "Converting a position to a lower dimension gives the documented projection (the xy part, the x coordinate, or the source's own radius) and emits an irreversible-dimension-change warning; converting to a higher dimension keeps the shared components, takes the missing ones from the keywords (zero by default, in any unit) and emits no warning. Conversions within one dimension never warn.",
     ["inputs", "configurations"], "all supported pairs of systems of different dimension, all points, fill-in keywords present or absent, batch shapes and units",
     "each pair is covered by one doctest with one point, usually the default keywords.",
     ["vectors/transform/d1.py", "vectors/transform/d2.py", "vectors/transform/d3.py", "vectors/exceptions.py"],
     [("represent_as across dimensions", S + "vectors/transform/d3.py"), ("IrreversibleDimensionChange warning", S + "vectors/exceptions.py")],
     ("projection / fill-in oracle with warning capture", "Every registered dimension-changing pair with generated points and keywords."))

prop("C05", "Velocity conversion is the pushforward by the position conversion",
     "Converting a velocity at a given position between coordinate systems gives the components that the chain rule (Jacobian of the coordinate change at that position) assigns to the same physical velocity: its Cartesian components, and so its speed, do not change, a round trip or any chain returns the original, and the conversion is linear in the velocity. The position may be given in any coordinate system or as a plain Cartesian quantity of the same batch shape, and the batch shape is preserved.",
     ["inputs", "histories"], "all velocity classes of each dimension, all positions where the systems are regular, all representations of the position, units and batch shapes",
     "velocity tests compare stored numbers at one position.",
     ["vectors/transform/velocities.py", "vectors/base/base_vel.py", "vectors/d3/transform.py", "vectors/d3/lonlatspherical.py", "vectors/d2/polar.py"],
     [("jacobian of the vmapped position transform applied to the velocity", S + "vectors/transform/velocities.py")],
     ("reference Jacobian, round trips, linearity, speed", "Analytic reference Jacobians in NumPy; generic positions plus the axes of regular systems."))

prop("C06", "Acceleration conversion applies the Jacobian at the given position",
     "Converting an acceleration between coordinate systems at a given position and velocity applies the Jacobian of the coordinate change at that position to the acceleration components (the documented linear rule); round trips and chains return the original, the result is linear in the acceleration, and the magnitude taken through Cartesian components is preserved.",
     ["inputs", "histories"], "all acceleration classes of each dimension, all regular positions in any representation, units, batch shapes",
     "acceleration tests compare stored numbers at one position.",
     ["vectors/transform/accelerations.py", "vectors/base/base_acc.py"],
     [("jacobian applied to the acceleration", S + "vectors/transform/accelerations.py")],
     ("reference Jacobian, round trips, linearity, norm", "Analytic reference Jacobians in NumPy."))

prop("C07", "Position arithmetic obeys vector-space laws in every representation",
     "Adding and subtracting positions (in the same or different coordinate systems and units), negating them, and multiplying or dividing them by scalars act on the physical points as the Cartesian vector operations do, and the result keeps the coordinate system of the left operand. (The prolate system has no arithmetic, and the half-line of the radial system has no negatives: there the operation raises instead of giving a wrong point.) Any sequence of such operations tracks the same sequence on plain Cartesian arrays.",
     ["inputs", "histories"], "all pairs of position classes of one dimension, all points, scalars of either sign, units, batch shapes; sequences of operations",
     "arithmetic tests add [1,2,3]-like vectors in the same units, with positive scalars.",
     ["vectors/base/base_pos.py", "vectors/base/register_primitives.py", "vectors/d3/cartesian.py", "vectors/d2/cartesian.py", "vectors/d1/cartesian.py", "vectors/d3/lonlatspherical.py", "vectors/d2/polar.py", "vectors/d3/transform.py"],
     [("quax-registered add/sub/mul/div/neg primitives via Cartesian", S + "vectors/base/base_pos.py")],
     ("operation sequences against a Cartesian array model", "Binary laws and stateful histories."))

prop("C08", "Velocity and acceleration arithmetic is component-exact and dimensional",
     "Adding or subtracting velocities (accelerations) of the same kind adds components in any units, scaling multiplies every component, negation is an involution, and multiplying a velocity by a time (an acceleration by a time, or a time squared) gives the displacement (velocity, displacement) with component values equal to the product, as a vector of the corresponding class. Operations that have no defined meaning raise rather than return a wrong vector.",
     ["inputs"], "all velocity and acceleration classes and their supported operations, all values, units, batch shapes",
     "arithmetic on velocities is checked on one example per class.",
     ["vectors/base/base_vel.py", "vectors/base/base_acc.py", "vectors/d3/cartesian.py", "vectors/d2/cartesian.py", "vectors/d1/cartesian.py"],
     [("quax-registered primitives", S + "vectors/d3/cartesian.py")],
     ("component model of the arithmetic", "Generated rates in mixed units."))

prop("C09", "Norms, normalisation and equality do not depend on the representation",
     "The norm of a position is its Euclidean length in the caller's units whatever its coordinate system, the norm of a velocity or acceleration is that of its Cartesian components, normalising a vector gives the unit vector in the same direction, and norms scale with scalar multiples and satisfy the triangle inequality. Equality of two vectors of one class is true exactly for the elements whose components are all equal as physical quantities, with broadcasting.",
     ["inputs"], "all position, velocity and acceleration classes, points, units, batch shapes",
     "norm is tested at one or two points per class.",
     ["vectors/base/base.py", "vectors/base/mixins.py", "vectors/base/base_pos.py", "vectors/base/base_vel.py", "vectors/funcs.py", "vectors/d3/cartesian.py"],
     [("norm / normalize_vector / equality", S + "vectors/base/base.py")],
     ("Euclidean norm oracle; equality oracle", "Generated points in all systems."))

prop("C10", "Unit conversion changes the units and never the quantity",
     "Converting a vector's units, by a unit system, a mapping from physical dimensions to units, or the consistent-units shorthand, gives components in the requested units that represent exactly the same physical vector, in the same class, and leaves the original as it was; parameters that are not components (focal length, speed of light) keep their units. The members of four-vectors and collections are converted alike. Every operation of the library gives the same physical answer whatever units its inputs are expressed in.",
     ["inputs", "configurations"], "all vector classes, unit systems and mappings, values, batch shapes",
     "unit conversion is shown on one vector per method.",
     ["vectors/base/base.py", "vectors/base/compat.py", "vectors/utils.py"],
     [("uconvert dispatches", S + "vectors/base/compat.py")],
     ("value comparison through Astropy's unit table; metamorphic unit changes", "All vector classes with generated unit systems."))

prop("C11", "Vectors behave as arrays: shape, indexing and reshaping act elementwise",
     "A vector's shape is the broadcast shape of its components, and indexing, reshaping, flattening, ravelling, transposing, iterating and taking its length select or rearrange whole vectors exactly as the same operation does on an array of that shape, including for components whose shapes differ but broadcast. The original vector is never modified.",
     ["inputs", "histories"], "all vector classes, batch shapes of rank 0-3, components of mixed broadcastable shapes, index expressions, sequences of shape operations",
     "array methods are shown on one or two shapes.",
     ["vectors/base/base.py", "vectors/base/mixins.py", "vectors/base/attribute.py", "vectors/base/register_primitives.py"],
     [("shape-op methods mapping over fields", S + "vectors/base/base.py")],
     ("NumPy array of element tags as the model", "Each element carries a distinct tag; operations replayed on a NumPy array."))

prop("C12", "Batched, vmapped and jitted results equal the one-by-one results",
     "Applying an operation (conversion of positions, velocities or accelerations, arithmetic, norm, operators) to a batch of vectors gives, element by element, what it gives for each vector alone, and running it under `jit` or `vmap` gives the same answer as running it eagerly. Derivatives taken through a conversion by automatic differentiation agree with finite differences of the conversion.",
     ["inputs", "configurations"], "all operations, batch shapes, execution modes (eager, jit, vmap), regular points",
     "most tests are eager and scalar.",
     ["vectors/d3/transform.py", "vectors/transform/velocities.py", "vectors/base/base.py", "operators/base.py"],
     [("vmap/vectorize inside transforms; PyTree registration", S + "vectors/d3/transform.py")],
     ("differential: batch vs element, jit/vmap vs eager, grad vs finite difference", "Generated pipelines of operations."))

prop("C13", "Construction and extraction are inverse and lossless",
     "Building a vector from an array plus unit, a quantity, a mapping of components, or another vector, and reading it back (components, mapping, Cartesian quantity) returns the values that went in, in the documented component order. Replacing a component changes only that component, and the original vector is never modified.",
     ["inputs", "histories"], "all vector classes, constructors, values, units, batch shapes",
     "constructors are shown with one input each.",
     ["vectors/base/base.py", "vectors/base/compat.py", "vectors/compat.py", "vectors/d3/constructor.py"],
     [("from_ dispatches and asdict/replace", S + "vectors/base/base.py")],
     ("round trips through every constructor and reader", "All classes, generated inputs."))

prop("C14", "Four-vectors follow Minkowski algebra",
     "A four-vector stores time and position without altering them; its squared norm is c^2 t^2 - |q|^2 (with its own speed of light) in whatever representation its spatial part is, its norm is the square root of that, and adding, subtracting and negating four-vectors act on time and space together. Conversions, unit changes, shape operations and operators keep the event and the speed of light.",
     ["inputs", "histories"], "all times and spatial positions in any 3-D representation, units, speeds of light, batch shapes",
     "four-vector tests use one event.",
     ["vectors/d4/spacetime.py", "vectors/d4/base.py", "vectors/d4/compat.py", "operators/compat.py"],
     [("FourVector arithmetic and norm", S + "vectors/d4/spacetime.py")],
     ("Minkowski reference model", "Generated events."))

prop("C15", "N-dimensional Cartesian vectors behave like arrays of coordinates",
     "N-dimensional Cartesian positions of any dimension add, subtract, negate and scale component by component, in any units; N-dimensional positions, velocities and accelerations have the Euclidean norm of their components, a velocity times a time is the displacement (an acceleration times a time the velocity), and they are built from and read back as arrays and quantities without loss. Indexing, iteration and shape operations act on the batch axes only, and unit conversion, translation operators and jit keep the vector.",
     ["inputs"], "all dimensions 1-6, values, units, batch shapes",
     "tests use one 3-component vector.",
     ["vectors/dn/base.py", "vectors/dn/cartesian.py", "vectors/dn/transform.py", "vectors/transform/dn.py"],
     [("CartesianPosND and friends", S + "vectors/dn/cartesian.py")],
     ("NumPy array model", "Generated dimensions and shapes."))

prop("C16", "Phase-space Poincare polar coordinates denote the same phase-space point",
     "Mapping a position and velocity to Poincare polar phase-space coordinates follows the documented formulas, so the cylindrical radius, radial velocity, height, vertical velocity and angular momentum can be read back from it, for any phase-space point in any 3-D representation; mapping back returns the point, up to the sign of the angular velocity, which these coordinates do not carry.",
     ["inputs"], "all phase-space points in any 3-D representation, units, batch shapes",
     "one doctest point.",
     ["vectors/dn/poincare.py", "vectors/transform/space.py", "vectors/dn/transform.py"],
     [("PoincarePolarVector conversions", S + "vectors/dn/transform.py")],
     ("reference formulas", "Generated phase-space points."))

prop("C17", "A Space transforms its position, velocity and acceleration consistently",
     "Converting a collection of position, velocity and acceleration to another coordinate system gives exactly the members obtained by converting each one at the collection's own position and velocity; indexing, reshaping and unit changes act on all members alike, and the collection keeps its keys and physical content.",
     ["inputs", "histories"], "all collections of length/speed/acceleration members in any representation, batch shapes, units",
     "two doctest collections.",
     ["vectors/space/core.py", "vectors/space/compat.py", "vectors/transform/space.py"],
     [("Space.represent_as", S + "vectors/transform/space.py")],
     ("member-wise differential against the vectors' own conversions and the reference geometry", "Generated collections."))

prop("C18", "Operators act as the Galilean transformations they denote",
     "Applying a translation, spatial translation, rotation, boost, the full Galilean operator, the identity or a pipeline to a quantity, a position in any coordinate system, a position with velocity or a four-vector gives the result of the textbook transformation on Cartesian coordinates (rotation x -> R x; translation x -> x + d, t -> t + t0; boost x -> x + v t; the full operator rotates, then translates, then boosts with the translated time; a spatial translation leaves velocities alone and a velocity boost changes only velocities), returned in the input's own kind, class and with its own speed of light. Units of operator and argument may differ. Arguments an operator has no meaning for (a rotation of a position with its velocity, a time translation of a bare position) are outside of the property.",
     ["inputs"], "all operator parameters (rotation matrices, shifts, boosts), all arguments and representations, units, batch shapes",
     "each operator is shown on one axis-aligned example.",
     ["operators/galilean/rotation.py", "operators/galilean/translation.py", "operators/galilean/spatial_translation.py", "operators/galilean/boost.py", "operators/galilean/composite.py", "operators/boost.py", "operators/compat.py", "operators/identity.py", "operators/pipe.py"],
     [("__call__ dispatches", S + "operators/galilean/rotation.py")],
     ("NumPy reference of the Galilean group action", "Generated operators and arguments."))

prop("C19", "Every operator's inverse undoes it",
     "Applying an operator and then its inverse, or the inverse first, returns the original argument (position, position and velocity, or event), for every operator type and every composition of operators; the inverse of the inverse acts as the operator itself.",
     ["inputs", "histories"], "all operators and compositions, all arguments",
     "one example per operator.",
     ["operators/base.py", "operators/composite.py", "operators/galilean/composite.py", "operators/pipe.py"],
     [("inverse properties", S + "operators/base.py")],
     ("round trips of generated operators and pipelines", "Generated operators and arguments."))

prop("C20", "Composing and simplifying operators preserves their action",
     "Composing operators with `|` applies them left to right, in any grouping, and composing with the identity changes nothing. Simplifying any operator or composition gives an operator with the same action on every argument (parameters below the comparison tolerance of 1e-8, in the operator's own units, may count as zero).",
     ["inputs", "programs"], "all sequences of operators of length 1-6 in any grouping, all arguments",
     "simplification tests compare one or two fixed pipelines structurally.",
     ["operators/base.py", "operators/pipe.py", "operators/composite.py", "operators/register_simplify.py", "operators/galilean/composite.py", "operators/galilean/rotation.py", "operators/galilean/boost.py", "operators/galilean/translation.py", "operators/galilean/spatial_translation.py"],
     [("__or__ and simplify_op rules", S + "operators/register_simplify.py")],
     ("differential: composed/simplified operator vs step-by-step application and the NumPy group", "Generated operator programs."))

prop("C21", "Frame transforms agree with Astropy and invert each other",
     "The transform from ICRS to a Galactocentric frame (and back), for any frame parameters, maps positions and velocities as Astropy's frame transformation with the same parameters does; the two directions are inverse, a frame to itself is the identity, going between two Galactocentric frames equals going through ICRS, and undefined transforms raise.",
     ["inputs", "configurations"], "all frame parameters (Galactic-centre position, roll, height, solar velocity), all positions, velocities, representations, units, stars under jax.vmap and jax.jit",
     "tests use the default parameters and one star.",
     ["src/coordinax/_coordinax_space_frames/frame_transforms.py", "src/coordinax/_coordinax_space_frames/galactocentric.py", "frames/base.py", "frames/xfm.py", "frames/null.py", "src/coordinax/_coordinax_space_frames/_interop/interop_astropy/frames.py"],
     [("frame_transform_op dispatches", "src/coordinax/_coordinax_space_frames/frame_transforms.py")],
     ("differential against Astropy and round trips", "Generated frame parameters and stars."))

prop("C22", "Angles: remainders are exact modulo whole turns and arithmetic keeps values",
     "The remainder of an angle by a period (`angle % 360 deg`) lies within one period from zero and differs from the original by a whole number of periods, in any unit, and is idempotent; an azimuth given to a position as a quantity is stored in [0, 1 turn) pointing in the same direction. Angle arithmetic and unit conversion agree with plain quantity arithmetic, return angles where the result is an angle and plain quantities otherwise, and trigonometric functions see the angle's physical value.",
     ["inputs"], "all angle values over many turns, units, periods, batch shapes, operations",
     "one or two examples per function.",
     ["angles/base.py", "angles/core.py", "angles/compat.py", "angles/register_primitives.py", "vectors/converters.py"],
     [("quax primitives of angles", S + "angles/register_primitives.py"), ("wrapping of azimuths", S + "vectors/converters.py")],
     ("plain-quantity/NumPy model", "Generated angles and operations."))

prop("C23", "Distance, parallax and distance modulus convert consistently",
     "A distance, parallax and distance modulus of the same object convert into one another by d = 1 AU / tan(p) and DM = 5 log10(d / 10 pc), any chain of conversions returns the starting value, and they agree with Astropy. Each kind accepts only its own dimension, negative parallaxes are rejected when constructed eagerly with checking on, and a vector built from any of the three denotes the same point. Arithmetic on distances agrees with plain quantity arithmetic and gives a distance only where the result is one.",
     ["inputs", "histories"], "all positive distances over many decades, units, batch shapes, chains",
     "one value per property.",
     ["distances/core.py", "distances/base.py", "distances/compat.py", "distances/register_primitives.py", "vectors/d3/base_spherical.py"],
     [("distance/parallax/modulus properties and constructors", S + "distances/core.py")],
     ("reference formulas and Astropy", "Generated distances over 12 decades."))

prop("C24", "Exchange with Astropy is faithful in both directions",
     "Converting a position, velocity, angle, distance, operator or frame to the corresponding Astropy object and back returns the same physical object, the Astropy object denotes the same point or velocity as the original under Astropy's own Cartesian conversion, and objects created by Astropy are read with the same meaning.",
     ["inputs"], "all supported vector classes, values, units, batch shapes",
     "one value per converter.",
     ["src/coordinax/_interop/coordinax_interop_astropy/constructors.py", "src/coordinax/_interop/coordinax_interop_astropy/converters.py", "src/coordinax/_interop/coordinax_interop_astropy/distance.py"],
     [("conversion methods", "src/coordinax/_interop/coordinax_interop_astropy/converters.py")],
     ("differential against Astropy representations", "Generated vectors of every supported class."))
