"""Property statements, part 3 (F-16 model)."""
from props2 import *
AB = 'safe_autonomy_dynamics/external/aerobench/'
LL = AB + 'lowlevel/'

p('P25', 'F-16 control surfaces and throttle saturate at their physical limits',
  'Whatever reference commands and feedback state the F-16 controller gets, the commands that reach the plant are the linear feedback plus trim limited to the surface and throttle ranges (throttle 0..1, elevator +-25, aileron +-21.5, rudder +-30 degrees), and commands inside the ranges pass unchanged.',
  ['inputs', 'configurations'], 'every controller state and reference', 'no existing test covers the F-16 model',
  [LL + 'low_level_controller.py'], [('saturation', LL + 'low_level_controller.py:get_u_deg, clip_u'), ('limits', LL + 'low_level_controller.py:CtrlLimits')])
p('P26', 'F-16 table lookups never leave their tables and hit the data at the knots',
  'For every angle of attack, sideslip, elevator, Mach and altitude, including values beyond the tabulated range, every aerodynamic and engine table lookup uses indices inside its table; at a grid point it returns the tabulated value, and between grid points it interpolates the neighbouring values (extrapolating the last cell beyond the ends; thrust is held at its ground value below zero altitude). Thrust blends the idle, military and maximum tables by engine power.',
  ['inputs'], 'all real lookup arguments', 'no existing test covers the tables; an off-by-one index shows only in particular cells',
  [LL + f for f in ('cl.py', 'cm.py', 'cn.py', 'cx.py', 'cz.py', 'dlda.py', 'dldr.py', 'dnda.py', 'dndr.py', 'dampp.py', 'thrust.py')],
  [('index clamping and interpolation', LL + '{cl,cm,cn,cx,dlda,dldr,dnda,dndr,dampp,thrust}.py')])
p('P27', 'F-16 functions leave their arguments alone and keep no hidden state',
  'Evaluating the F-16 plant, controller, closed loop and lookup functions never changes the arrays passed in nor module-level data, and results do not alias arguments or internal data, so calls are repeatable in any order even when results are overwritten.',
  ['inputs', 'histories'], 'all functions and call orders', 'mutation of an argument shows only when the caller reuses it',
  [LL + 'subf16_model.py', AB + 'controlled_f16.py', LL + 'low_level_controller.py', LL + 'clf16.py', LL + 'conf16.py', LL + 'morellif16.py'], [('argument copies', LL + 'subf16_model.py'), ('controller', LL + 'low_level_controller.py')])
p('P28', 'The F-16 plant implements the six-degree-of-freedom equations of motion',
  'Given the aerodynamic coefficients and engine thrust, the plant\'s state derivative is that of a rigid body over a flat earth: force equations along the wind axes, Euler-angle kinematics, moment equations with the aircraft\'s inertias and engine momentum, position kinematics and engine power lag, with the published aircraft constants; the reported accelerations follow from the same forces.',
  ['inputs', 'configurations'], 'all states and controls, both aerodynamic models', 'no existing test covers the plant',
  [LL + 'subf16_model.py'], [('plant', LL + 'subf16_model.py:subf16_model')])
p('P29', 'F-16 atmosphere and engine functions follow their published laws within bounds',
  'Air density, Mach number and dynamic pressure follow the two-layer standard atmosphere; throttle gearing is the published two-slope map and takes 0..1 into 0..100 percent; power lag drives the engine power toward the command with the published time constants and rests at it.',
  ['inputs'], 'all speeds, altitudes, throttle settings and powers', 'no existing test covers the engine',
  [LL + f for f in ('adc.py', 'tgear.py', 'pdot.py', 'rtau.py', 'thrust.py')], [('atmosphere and engine', LL + '{adc,tgear,pdot,rtau,thrust}.py')])
p('P30', 'The controlled F-16 combines controller and plant consistently',
  'The closed-loop derivative is the plant derivative under the saturated controller command followed by the controller\'s integrator derivatives; the stability-axis roll rate, side acceleration plus yaw rate and normal load factor it reports are those the integrators use, computed from the controller state (or from the plant derivative in the second integrator variant); the reported inputs are the saturated command in radians and the references.',
  ['inputs', 'configurations'], 'all states, references, both aerodynamic models and both rate models', 'no existing test covers the closed loop',
  [AB + 'controlled_f16.py', LL + 'low_level_controller.py'], [('closed loop', AB + 'controlled_f16.py:controlled_f16'), ('integrators', LL + 'low_level_controller.py:get_integrator_derivatives')])
p('P31', 'The Morelli aerodynamic model saturates its inputs and is polynomial inside',
  'The polynomial aerodynamic model limits angle of attack, sideslip, elevator, aileron and rudder to their validity ranges before evaluating, so its coefficients are constant beyond those ranges, and it evaluates the published polynomials inside.',
  ['inputs'], 'all inputs', 'no existing test covers the model', [LL + 'morellif16.py'], [('limits and polynomials', LL + 'morellif16.py:Morellif16')])
p('P32', 'Trim cost is a non-negative measure of the remaining accelerations',
  'The trim cost is a weighted sum of squared residual accelerations of the plant at the candidate trim point, (its square root below one), hence never negative and zero only when they vanish; the plant variant the caller names (model and centre-of-gravity flag) is evaluated at the candidate values under the flight condition\'s constraints, and the caller\'s state and control are left at that point.',
  ['inputs'], 'all candidate points and flight conditions', 'no existing test covers trim',
  [LL + 'clf16.py', LL + 'conf16.py'], [('cost', LL + 'clf16.py'), ('constraints', LL + 'conf16.py')])
p('P33', 'The safety verifier rejects a trajectory exactly when a limit is broken',
  'Verifying simulation results raises an assertion exactly when some tick of some trajectory breaks a configured limit: the inclusive ranges on altitude, load factor, speed and angle of attack, and the upper bounds in degrees on stability-axis roll rate and sideslip; limits that are not configured never reject, and every tick is examined, with or without a low-level controller.',
  ['inputs', 'configurations', 'histories'], 'every set of limits, every trajectory', 'no existing test covers the verifier; a skipped tick or limit is invisible on safe runs',
  [AB + 'util.py'], [('verification loop', AB + 'util.py:SafetyLimitsVerifier.verify'), ('limits', AB + 'util.py:SafetyLimits')])
p('P34', 'The fixed-step integrator lands exactly on its end time',
  'Each step of the fixed-step Euler integrator advances state by the derivative at the step\'s start times the elapsed time, never passes the end time (the last step is shortened to land on it, within the stated tolerance) and finishes exactly there; afterwards it does nothing. Its dense output interpolates linearly between the step\'s end points and stays valid when the integrator moves on, and the caller\'s start state is never modified.',
  ['inputs', 'histories'], 'every step size, start, end, derivative and number of steps', 'no existing test covers the integrator',
  [AB + 'util.py'], [('Euler integrator', AB + 'util.py:Euler')])
p('P35', 'F-16 helper objects and result slicing keep their contracts',
  'A frozen object refuses new attributes and still accepts writes to existing ones (set on the object or defined by its class); extracting one aircraft from a multi-aircraft result yields exactly that aircraft\'s columns and lists with the shared times, modes and status; sign and rounding-toward-zero helpers do what they say for every number; printing a matrix shows its label, the column labels and every row with its label in columns of one width, refuses labels that do not fit it, and leaves the matrix alone.',
  ['inputs', 'configurations'], 'every index, every number of aircraft, every number', 'no existing test covers the helpers',
  [AB + 'util.py'], [('Freezable, extract_single_result, fix, sign', AB + 'util.py')])
p('P36', 'Scalar, list and array inputs normalise to arrays of the required shape and type',
  'The number normaliser turns a number into a constant array of the requested shape, turns a list into an array holding exactly the list\'s values, returns an array of the right shape and type unchanged, and refuses every other type, shape or element type.',
  ['inputs'], 'every number, list, array, shape and element type', 'tests do not cover lists', [UT], [('normaliser', UT + ':number_list_to_np')])
NA = [
 ('N01', 'Numerical solutions stay within the solvers\' error tolerances of the exact flow', 'A step of the adaptive integrators differs from the exact solution of the differential equation by no more than the solver\'s tolerance, for stiff and non-stiff parameters.',
  'depends on runtime local-error control inside scipy/jax and on floating-point rounding; no static argument over this source bounds it', BM),
 ('N02', 'Attitude quaternion norm stays near one over long simulations', 'Over arbitrarily many steps the attitude quaternion\'s norm remains close to one despite numerical integration error.',
  'the code never renormalises; drift is a quantitative property of accumulated floating-point and truncation error over an unbounded history (the exact-arithmetic part is P14)', SM),
 ('N03', 'NumPy and JAX integrations agree numerically', 'The same step computed with the NumPy and with the JAX integrators agrees within a small tolerance.',
  'two different adaptive solvers and float32/float64 rounding; only equality of the integrated equations and horizon is static (P05, P07, P21)', BM),
 ('N04', 'Single-precision states lose no more accuracy than documented', 'Entities that hold their initial state in single precision report values within single-precision rounding of the configured ones at every magnitude.',
  'a rounding-error bound over runtime magnitudes; the analysis works in exact arithmetic (slot and dtype fidelity are P11)', PM),
]
for i, t, s, r, f in NA:
    p(i, t, s, ['inputs', 'histories'], 'all parameters, states and step counts', 'sampled trajectories cannot bound error for all of them', [f], [('numerical integration', f)])
