"""property id -> rule"""
import importlib
import time
import traceback

from ..rules import Check, Broken, finish

RULES = {
    'P01': ('control', 'p01', 60, 'abstract interpretation of the entity step with a recording dynamics; algebraic value equality'),
    'P02': ('control', 'p02', 120, 'abstract interpretation of the entity step over all named-actuator subsets and action types'),
    'P03': ('models', 'p03', 28, 'extracted control response of each named actuator vs the axis it names'),
    'P13': ('models', 'p13', 18, 'extracted state derivative vs the Clohessy-Wiltshire right-hand side'),
    'P14': ('models', 'p14', 12, 'extracted attitude derivative and orientation vs quaternion kinematics and Euler equations'),
    'P15': ('models', 'p15', 6, 'extracted thrust contribution vs rotation matrix of the attitude'),
    'P16': ('models', 'p16', 6, 'extracted derivative and accessors vs Dubins kinematics'),
    'P17': ('models', 'p17', 24, 'extracted derivative and matrices vs damped point mass'),
    'P04': ('stepping', 'p04', 40, 'interval and polyhedral entailment on the extracted next state of every model and method'),
    'P05': ('stepping', 'p05', 60, 'interval and polyhedral entailment on the extracted derivative and on every integrand handed to a solver'),
    'P06': ('stepping', 'p06', 40, 'algebraic equality of the extracted next state with the value minus whole turns, and bounds'),
    'P12': ('stepping', 'p12', 16, 'algebraic equality of velocity accessor and extracted derivative of the position accessor'),
    'P07': ('stepping2', 'p07', 90, 'arguments of every solver call and use of its result, by abstract interpretation of one step; error exits of unsupported settings'),
    'P08': ('stepping2', 'p08', 20, 'algebraic equality of the reported derivative with the derivative at the end state'),
    'P09': ('history', 'p09', 40, 'value equality of repeated and interleaved abstract evaluations; arguments, model and entity compared before and after'),
    'P10': ('history', 'p10', 90, 'heap-precise abstract interpretation of call histories with external writes into every array handed out or passed in'),
    'P11': ('history', 'p11', 120, 'value equality of accessors with construction, assignment and setter values'),
    'P18': ('config', 'p18', 200, 'dimension and scale-factor algebra over the extracted conversions and unit accessors'),
    'P19': ('config', 'p19', 250, 'abstract interpretation of constructors on every unusable value; normal returns must be unreachable'),
    'P20': ('config', 'p20', 50, 'the program loaded with the JAX imports failing; abstract behaviour compared with the JAX configuration'),
    'P21': ('config', 'p21', 24, 'taint of traced values through the JAX backend plus algebraic equality with the NumPy backend'),
    'P22': ('params', 'p22', 120, 'abstract interpretation of constructors with every parameter symbolic; extracted equations and limits vs documented formulas'),
    'P23': ('params', 'p23', 90, 'condition under which the extracted == is true, decided against equal and separated states'),
    'P24': ('params', 'p24', 40, 'algebraic equality of relative queries with the difference of accessors; error exits; identity of registered objects'),
    'P36': ('params', 'p36', 45, 'shape, type and element equality of the extracted conversion; error exits'),
    'P26': ('f16tab', 'p26', 200, 'value partitioning at the grid points; extracted polynomial per part vs bilinear interpolation of the published tables'),
    'P29': ('f16tab', 'p29', 20, 'value partitioning at the law\'s break points; extracted terms vs the published formulas'),
    'P25': ('f16', 'p25', 14, 'abstract interpretation of the controller with symbolic state, reference and limits; bounds and algebraic equality'),
    'P31': ('f16', 'p31', 9, 'value partitioning at the limits of all five inputs; extracted polynomials vs the published ones'),
    'P28': ('f16', 'p28', 90, 'plant interpreted with uninterpreted aerodynamic functions; algebraic equality with the equations of motion'),
    'P30': ('f16', 'p30', 26, 'closed loop interpreted with uninterpreted aerodynamic functions; algebraic equality with controller and plant'),
    'P32': ('f16', 'p32', 30, 'trim cost interpreted with uninterpreted plant rates; algebraic equality, sign of squares, values left in the arguments'),
    'P27': ('f16', 'p27', 40, 'arguments compared before and after, results overwritten, value equality of repeated abstract evaluations'),
    'P33': ('f16util', 'p33', 70, 'exit condition of the extracted verification loop vs conjunction of the limits over all ticks'),
    'P34': ('f16util', 'p34', 28, 'abstract interpretation of step sequences with an uninterpreted derivative; algebraic equality and bounds'),
    'P35': ('f16util', 'p35', 60, 'abstract interpretation of the helpers on symbolic results and numbers; value equality and error exits'),
}
ASSUME = ['real arithmetic (rounding and NaN excluded)', 'library models in sa/ describe numpy/scipy/jax/pint/pydantic as used']


CURRENT = []


def run(pid, repo, tier, seed):
    mod, fn, minimum, rule = RULES[pid][:4]
    c = Check(pid, repo, tier, seed)
    CURRENT.append(c)
    meta = {'level': 'proof', 'rule': rule, 'assumptions': ASSUME + (RULES[pid][4] if len(RULES[pid]) > 4 else [])}
    try:
        getattr(importlib.import_module(f'sa.spec.{mod}'), fn)(c)
    except Exception as e:
        if not isinstance(e, Broken):
            traceback.print_exc()
        # what was decided before counts; a violation is reported as such
        known = finish(c, meta, 0)
        print(f'ANALYSIS-BROKEN property={pid}: {type(e).__name__} {e}')
        return 1 if known == 1 else 2
    return finish(c, meta, minimum)


def out_of_time(pid):
    """the run takes too long: report what has been decided"""
    if not CURRENT:
        return 2
    c = CURRENT[0]
    c.results.append({'key': 'rest', 'rule': 'time', 'status': 'undecided', 'msg': 'out of time', 'atoms': 0, 'wall': 0})
    meta = {'level': 'proof', 'rule': RULES[pid][3], 'assumptions': ASSUME}
    return finish(c, meta, 0)
