"""Property statements, part 2 (models)."""
from props1 import *

p('P13', 'Spacecraft translation follows the Clohessy-Wiltshire equations',
  'For every translational spacecraft model the acceleration is exactly: x\'\' = 3 n^2 x + 2 n y\' + Fx/m, y\'\' = -2 n x\' + Fy/m, z\'\' = -n^2 z + Fz/m, with the mean motion n and mass m the entity was built with (planar models omit z), where F is the applied thrust in Hill\'s frame. The documented default mean motion (0.001027 rad/s) and mass (12 kg) apply when omitted.',
  ['inputs', 'configurations'], 'all states, thrusts, mean motions, masses, 2d/3d, NumPy and JAX backends, entity and matrix-generator entry points', 'tests compare a few trajectories to golden numbers with loose tolerances',
  [PM, RM, SM], [('system matrices', PM + ':generate_cwh_matrices'), ('translation in rotational models', RM + ', ' + SM)])
p('P14', 'Attitude kinematics and wheel dynamics follow the rigid-body equations',
  'The attitude quaternion obeys q\' = 1/2 q (x) (w,0) (scalar last, body rates), so that its norm is preserved; the body rates obey Euler\'s rigid-body equations about the principal axes with the commanded moments; the planar model obeys theta\' = wz, wz\' = M/I. Reported orientation is the rotation of that quaternion, and the planar model\'s quaternion is (0,0,sin(theta/2),cos(theta/2)).',
  ['inputs', 'configurations'], 'all attitudes, rates, wheel accelerations, inertias and wheel inertias', 'tests use a few attitudes where cross terms vanish',
  [RM, SM], [('quaternion and rate derivatives', SM), ('planar rotation', RM), ('orientation accessors', RM + ', ' + SM)])
p('P15', 'Body-frame thrust acts along the body axes and scales with 1/m',
  'In rotating spacecraft models thrust is given in the body frame: its contribution to the acceleration is the thrust vector rotated by the current attitude into Hill\'s frame divided by the mass, for every attitude, leaving all non-velocity derivatives unaffected. (A six degree of freedom spacecraft built with body_frame_thrust=False takes its thrust in Hill\'s frame instead.)',
  ['inputs', 'configurations'], 'all attitudes (unit quaternions / headings), thrusts, masses, both backends', 'tests thrust at a handful of attitudes, mostly identity',
  [RM, SM], [('thrust rotation', RM + ', ' + SM)])
p('P16', 'Dubins aircraft follow their kinematic model',
  'Both aircraft keep their velocity vector aligned with heading (and flight-path angle): x\' = v cos(gamma) cos(heading), y\' = v cos(gamma) sin(heading), z\' = -v sin(gamma); speed, and in 2d heading, change at the commanded rates; in 3d gamma and roll change at the commanded rates and heading changes at g tan(roll)/v. Rotational accessors, acceleration and position report the same quantities.',
  ['inputs', 'configurations'], 'all states within limits, all controls, 2d and 3d', 'tests use a few states with zero angles',
  [DU], [('aircraft derivatives', DU + ':Dubins2dDynamics, Dubins3dDynamics'), ('aircraft accessors', DU)])
p('P17', 'Point-mass integrators obey Newton\'s law with linear damping',
  'Integrators of one, two and three dimensions can be created and stepped, and obey position\' = velocity and velocity\' = F/m - damping*velocity independently along each axis, with the mass and damping they were built with (defaults 1 and 0). An unsupported dimension is refused.',
  ['inputs', 'configurations'], 'all dimensions, states, thrusts, masses and dampings', 'no existing test touches the integrators at all',
  [IN], [('integrator matrices', IN + ':generate_dynamics_matrices'), ('entities', IN + ':Integrator1d/2d/3d')])
p('P18', 'Units: quantities convert on the way in and carry correct units on the way out',
  'A construction value given as a quantity in any compatible unit initialises the entity exactly as the equivalent plain number in the entity\'s own units does (metres for spacecraft, feet for aircraft, seconds, radians); a quantity of the wrong dimension is refused. Every unit-bearing accessor returns the same magnitude as its plain accessor, in the entity\'s unit for that dimension, and quantities of different entities can be combined with one another and used to configure entities.',
  ['inputs', 'configurations'], 'every unit-bearing field and accessor of every entity, any value, every compatible and incompatible unit', 'tests convert a few fields with one alternative unit each',
  ENT, [('unit conversion', BM + ':build_unit_conversion_validator_fn'), ('unit accessors', BM + ':*_with_units')])
p('P19', 'Invalid entity configurations are refused',
  'Constructing an entity with an unknown field, without a name, or with a non-numeric or wrongly dimensioned initial value raises a validation error rather than yielding an entity. Asking for a model dimension that does not exist, a non-integer trajectory sample count, or linear system matrices of inconsistent shape is refused as well.',
  ['inputs', 'configurations'], 'every entity type, every field, every unusable value', 'tests try a few invalid values',
  ENT, [('validators', '*Validator classes'), ('argument assertions', 'model constructors')])
p('P20', 'The package works without JAX installed',
  'With JAX absent, every module imports and every entity that does not ask for JAX behaves identically; asking for JAX then raises ImportError at construction, never a late failure.',
  ['configurations', 'inputs'], 'all modules, entities and methods in the JAX-less configuration', 'the test environment always has JAX installed, so this configuration is never run',
  ENT, [('optional imports', 'try/except ImportError blocks'), ('backend selection', BM + ':BaseDynamics.__init__')])
p('P21', 'JAX-backed models compute the same equations and stay traceable',
  'A model that accepts the JAX backend computes the same derivative and step formula as the NumPy backend for all inputs, performs its arithmetic in the JAX namespace, and can be traced by jit and grad: it never converts a traced value to a Python scalar or a NumPy array, branches on it, or writes into it in place.',
  ['inputs', 'configurations'], 'each model with a backend switch, all states and controls', 'a NumPy call on a traced value fails only under tracing, which tests do for few functions',
  [BM, RM, SUN], [('backend module indirection', BM + ':BaseDynamics.np'), ('backend-specific branches', RM + ', ' + SUN)])
p('P22', 'Every constructor parameter takes effect on the model it configures',
  'Each physical or limit parameter of an entity or dynamics constructor (mass, mean motion, inertia, wheel inertia, wheel limits, acceleration and rate limits, damping, speed and attitude limits, integration method, sample count) reaches the dynamics that use it, unmixed with the others; derived limits are the documented formulas of those parameters.',
  ['configurations'], 'every constructor parameter, any valid value', 'tests rely on defaults or change one parameter at a time with equal values',
  [PM, RM, SM, DU, IN, SUN, BM], [('parameter plumbing', 'constructors')])
p('P23', 'Entity equality compares exactly the physical state',
  'Two entities of the same kind are equal when their states and derivatives agree and unequal when their position, velocity, attitude or angular rates differ; equality is symmetric (also where an entity family shares one comparison), and an entity never equals an object of an unrelated kind. Sun entities are all equal to each other.',
  ['inputs'], 'every entity type, every pair of states', 'tests change a few components one at a time',
  ENT, [('equality', '__eq__ in each entity')])
p('P24', 'Relative position and velocity are target minus own, by entity name',
  'An entity\'s relative position and velocity to a named entity are the difference between that entity\'s value and its own (in that order); an unknown name or a missing simulation reference is reported with an error, and queries change neither entity. Registering a lead or partner makes exactly that entity available.',
  ['inputs', 'configurations', 'histories'], 'every state pair, every set of registered entities and order of registration', 'tests exercise one registration with a few values',
  [PM, RM, SM], [('relative queries', 'entity_relative_position/velocity, register/lead handling')])
