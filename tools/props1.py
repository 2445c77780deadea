"""Property statements, part 1 (entities, stepping, simulation contract)."""
BM = 'safe_autonomy_dynamics/base_models.py'
PM = 'safe_autonomy_dynamics/cwh/point_model.py'
RM = 'safe_autonomy_dynamics/cwh/rotational_model.py'
SM = 'safe_autonomy_dynamics/cwh/sixdof_model.py'
SUN = 'safe_autonomy_dynamics/cwh/sun_model.py'
DU = 'safe_autonomy_dynamics/dubins.py'
IN = 'safe_autonomy_dynamics/integrators.py'
UT = 'safe_autonomy_dynamics/utils.py'
ENT = [BM, PM, RM, SM, SUN, DU, IN]
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


p('P01', 'Applied control is the command saturated to the actuator bounds',
  'Whatever action an entity is stepped with (none, named, list or array, NumPy or JAX), the control that drives the dynamics for that step is the commanded vector limited elementwise to the entity\'s control bounds, and commands inside the bounds are applied unchanged. A warning is issued exactly when some element of the command lies outside its bounds.',
  ['inputs', 'configurations'], 'every entity type, every real-valued command, every action form', 'tests step a few entities with a handful of in-range actions and one out-of-range value; the bound is for every command',
  ENT, [('control clipping and warning in the entity step', BM + ':BaseEntity.step'), ('per-entity control bounds', 'constructors in ' + ', '.join([PM, RM, SM, DU, IN]))])
p('P02', 'Actions are decoded exactly, and unusable actions are refused without effect',
  'A missing action applies the neutral default control; a partial named action sets only the named actuators and leaves the others at their defaults; a list or array is used element by element. An action that names an unknown actuator raises KeyError, an action of an unsupported type or a list or array that does not hold exactly one value per actuator raises ValueError, and a refused action leaves the entity\'s state and derivative exactly as they were.',
  ['inputs', 'configurations', 'histories'], 'every entity type, every subset and order of actuator names, any values, any previous state', 'tests sample single actions; the exactness over all subsets, orders and values (and the absence of effects after a refusal) is not enumerable by examples',
  ENT, [('action decoding', BM + ':BaseEntity.step'), ('actuator maps', 'control_map in each entity constructor')])
p('P03', 'Every named actuator drives its own control channel and its own axis',
  'For each entity the actuator names cover the control vector one-to-one, and a command on a named actuator affects only the motion that name stands for: thrust along an axis accelerates only along that axis, a moment or wheel acceleration about an axis accelerates only the rotation about that axis, speed, turn, pitch and roll commands only their own rate. Positive commands act in the positive direction of that axis.',
  ['inputs', 'configurations'], 'every entity type and actuator name, every state and command', 'no existing test steps an integrator, and tests use only a few fixed commands per spacecraft, so swapped, aliased or negated channels can pass',
  [PM, RM, SM, DU, IN], [('actuator name maps', 'control_map in each entity constructor'), ('control input matrices', 'state_transition_input / generate_*_matrices')])
p('P04', 'The state after a step always respects the state limits',
  'After any step the state that the dynamics return lies elementwise within the configured lower and upper state limits, for scalar and for per-element limits, whichever integration method produced it; components that are within their limits are not altered by the limiting.',
  ['inputs', 'configurations', 'histories'], 'every model, integration method, limit setting (angle limits inside one turn), state, control and step size', 'tests check limits on a few sampled trajectories; the bound must hold for every state and step size',
  [BM, RM, SM, DU, PM], [('post-step clipping', BM + ':BaseDynamics.step'), ('model limit vectors', 'dynamics constructors')])
p('P05', 'State derivatives respect rate limits and never push past a state limit',
  'The derivative a model reports, and the derivative every integration method integrates, lies within the configured rate limits; and where a state component sits at or beyond a state limit, that derivative never points further past the limit (where a configured rate range excludes zero, the state limit prevails). Derivatives within the limits and away from state limits are not altered.',
  ['inputs', 'configurations'], 'every ODE model and integration method, every state, control, time and limit setting', 'tests exercise only the adaptive NumPy integrator from a few initial conditions',
  [BM, RM, SM, DU], [('derivative clipping', BM + ':BaseODESolverDynamics.compute_state_dot'), ('integrand handed to each solver', BM + ':BaseODESolverDynamics._step, compute_state_dot_jax')])
p('P06', 'Wrapped angles stay within one turn of their centre and keep their meaning',
  'After a step every state component that has an angle wrap centre lies in the half-open turn of width 2*pi around that centre and differs from the unwrapped value by a whole number of turns; components without a wrap centre are untouched. The planar spacecraft\'s heading and the aircraft\'s attitude angles are wrapped around zero, and no other component of a shipped model is wrapped.',
  ['inputs', 'configurations'], 'every model with angular states, every wrap centre, every real value of the angle', 'tests use zero centres and angles near a single crossing',
  [BM, RM, DU, SUN], [('angle wrapping', BM + ':BaseDynamics._wrap_angles'), ('wrap centres', 'angle_wrap_centers in dynamics constructors')])
p('P07', 'One step integrates exactly the step duration with the control held',
  'A step of duration dt from state s under control u yields the solution at time dt of the model\'s differential equation started from s at time 0 with u held constant, for every supported integration method (the explicit Euler method yields s + dt*f(s,u)). Requested trajectory samples are the solution at the equally spaced times k*dt/n, k = 1..n, ending at the step\'s end. An unknown method, an unsupported method combination or a solver that stops early raises an error instead of returning a state. The outcome of a step depends only on its arguments, not on the steps taken before it.',
  ['inputs', 'configurations', 'fault_sequences'], 'every model, method, dt, state, control, sample count, and early solver termination', 'tests compare a few end points with tolerances and never sample trajectories, never use Euler or JAX integration and never see the solver fail',
  [BM, SUN], [('integration dispatch', BM + ':BaseODESolverDynamics._step'), ('analytic sun motion', SUN)])
p('P08', 'The reported state derivative belongs to the end-of-step state',
  'After every step the derivative the entity reports equals the model\'s derivative evaluated at the state the step ended in and under the control that was applied, for every integration method.',
  ['inputs', 'configurations'], 'every model and integration method, every state, control and step size', 'tests look at the derivative after very few steps of one integration method',
  [BM, SUN], [('end-of-step derivative', BM + ':BaseODESolverDynamics._step'), ('entity state update', BM + ':BaseEntity.step')])
p('P09', 'Derivatives are a pure function of time, state and control',
  'Evaluating a model\'s derivative changes nothing: neither the state or control arrays passed in, nor the model, nor any entity; and repeated evaluation with the same arguments gives the same result regardless of what was evaluated in between. This includes user-defined models whose drift, input or derivative functions return arrays they keep.',
  ['inputs', 'histories'], 'every ODE model, any sequence of evaluations', 'adaptive solvers evaluate derivatives in data-dependent orders; a stateful or mutating derivative corrupts results only for some histories',
  [BM, PM, RM, SM, DU, IN], [('derivative computation', '_compute_state_dot / state_transition_system / state_transition_input in each model')])
p('P10', 'Entities own their state: no aliasing with callers, defaults or other entities',
  'Writing into an array obtained from an entity\'s state, position, velocity and similar vector accessors, or into an array, list or dict that was passed to it as state or action, never changes any entity; stepping never writes into the caller\'s action or into arrays previously handed out, and never changes another entity or the default control. Two entities never share mutable state, whatever order they are created, read and stepped in. A linear dynamics object keeps its own copy of the system matrices it is given.',
  ['histories', 'inputs'], 'every entity type; every interleaving of construction, reads, external writes, state assignment and steps', 'aliasing shows only in particular call histories; tests never write into returned or passed arrays',
  ENT, [('state copies', BM + ':BaseEntity.state, step'), ('vector accessors', 'position / velocity / quaternion / partial_state accessors')])
p('P11', 'Initial values given at construction are what the entity reports',
  'Every initial value accepted by an entity\'s constructor appears unchanged in the state component of that name and is what the accessor of that name and the aggregate position, velocity, orientation and state vectors report, and assigning through a setter changes exactly that component. Axes an entity does not move along or about read as zero. Omitted values take neutral defaults, and the defaults describe a valid entity (unit attitude quaternion, airspeed inside its default limits).',
  ['inputs', 'configurations'], 'every entity type, every field, any numeric values', 'tests construct each entity from a few fixed numbers, often with equal components',
  ENT, [('state assembly', '_build_state in each entity'), ('accessors and setters', 'properties in each entity')])
p('P12', 'Reported velocity is the time derivative of reported position',
  'For every moving entity, the velocity vector it reports equals the time derivative of its reported position under its own dynamics at the current state, in the same frame and component order.',
  ['inputs', 'configurations'], 'every entity type and every state', 'tests check velocity at a few axis-aligned states where sign or axis errors can cancel',
  [PM, RM, SM, DU, IN], [('velocity accessors', 'velocity properties'), ('model kinematics', 'derivative computations')])
