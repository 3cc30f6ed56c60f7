"""P25: model instrumentation is transparent and counts."""
import numpy as np
import pyparticleest.simulator as ps
import pyparticleest.interfaces as pi
import contracts.stubs as S
from pyparticleest.utils.intrument import Instrumenter, OpCount

TRUSTED = []
ASSUMPTIONS = ['The wrapped model is arbitrary: its operations return arbitrary results and may modify their arguments (the particles handed to '
               'update_full); the instrumentation only sees the results.']
CONTRACTS = ['ck_filter_calls', 'ck_smoother_calls', 'ck_proposal_calls', 'ck_optional', 'ck_sequence', 'ck_sum', 'ck_end_to_end']

NAMES = ['cnt_sample', 'cnt_update', 'cnt_measure', 'cnt_pdfxn', 'cnt_pdfxn_full', 'cnt_pdfxnmax', 'cnt_propsmooth', 'cnt_pdfsmooth',
         'cnt_eval1st', 'cnt_eval_logp_x0']

# operation -> (parameters in the order of the interface, counters it belongs to, parameters one of which tells the number of particles)
OPS = {
 'create_initial_estimate': (['N'], [], []),
 'sample_process_noise_full': (['ptraj', 'ancestors', 'ut', 'tt'], ['cnt_sample'], ['ancestors']),
 'update_full': (['particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors', 'noise'], ['cnt_update'], ['particles']),
 'measure_full': (['particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors'], ['cnt_measure'], ['particles']),
 'copy_ind': (['particles', 'new_ind'], [], []),
 'eval_1st_stage_weights': (['particles', 'u', 'y', 't'], ['cnt_eval1st'], ['particles']),
 'eval_logp_x0': (['particles', 't'], ['cnt_eval_logp_x0'], ['particles']),
 'logp_xnext': (['particles', 'next_part', 'u', 't'], ['cnt_pdfxn', 'cnt_pdfxn_full'], ['particles', 'next_part']),
 'logp_xnext_full': (['part', 'past_trajs', 'pind', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'], ['cnt_pdfxn', 'cnt_pdfxn_full'], ['part', 'find']),
 'logp_xnext_singlestep': (['part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'], ['cnt_pdfxn', 'cnt_pdfxn_full'],
                           ['part', 'find']),
 'logp_xnext_max_full': (['part', 'past_trajs', 'pind', 'uvec', 'yvec', 'tvec', 'cur_ind'], ['cnt_pdfxnmax'], ['part']),
 'sample_smooth': (['part', 'ptraj', 'anc', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'], [], []),
 'propose_smooth': (['ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'], ['cnt_propsmooth'], ['anc', 'find']),
 'logp_proposal': (['prop_part', 'ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'], ['cnt_pdfsmooth'], ['prop_part']),
 'cond_predict_single_step': (['part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'], [], []),
 'cond_sampled_initial': (['part', 't'], [], []),
 # operations the instrumentation does not count
 'propose_from_y': (['N', 'y', 't'], [], []),
 'qsample': (['particles', 'u', 'y', 't'], [], []),
 'logp_q': (['particles', 'next_part', 'u', 'y', 't'], [], []),
 'set_params': (['params'], [], []),
 'post_smoothing': (['st'], [], []),
 'pre_mhips_pass': (['st'], [], []),
}

class Model(object):
    """model whose operations return arbitrary results"""
    def __init__(self):
        self.log = []
        self.lxi = 3
    def _op(self, name, args):
        r = S.Box(name)
        self.log.append((name, args, r))
        return r
    def create_initial_estimate(self, N): return self._op('create_initial_estimate', [N])
    def sample_process_noise_full(self, ptraj, ancestors, ut, tt): return self._op('sample_process_noise_full', [ptraj, ancestors, ut, tt])
    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        return self._op('update_full', [particles, traj, uvec, yvec, tvec, ancestors, noise])
    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        return self._op('measure_full', [particles, traj, uvec, yvec, tvec, ancestors])
    def copy_ind(self, particles, new_ind=None): return self._op('copy_ind', [particles, new_ind])
    def eval_1st_stage_weights(self, particles, u, y, t): return self._op('eval_1st_stage_weights', [particles, u, y, t])
    def eval_logp_x0(self, particles, t): return self._op('eval_logp_x0', [particles, t])
    def logp_xnext(self, particles, next_part, u, t): return self._op('logp_xnext', [particles, next_part, u, t])
    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        return self._op('logp_xnext_full', [part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind])
    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        return self._op('logp_xnext_singlestep', [part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind])
    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        return self._op('logp_xnext_max_full', [part, past_trajs, pind, uvec, yvec, tvec, cur_ind])
    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        return self._op('sample_smooth', [part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind])
    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        return self._op('propose_smooth', [ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind])
    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        return self._op('logp_proposal', [prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind])
    def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        return self._op('cond_predict_single_step', [part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind])
    def cond_sampled_initial(self, part, t): return self._op('cond_sampled_initial', [part, t])
    def propose_from_y(self, N, y, t): return self._op('propose_from_y', [N, y, t])
    def qsample(self, particles, u, y, t): return self._op('qsample', [particles, u, y, t])
    def logp_q(self, particles, next_part, u, y, t): return self._op('logp_q', [particles, next_part, u, y, t])
    def set_params(self, params): return self._op('set_params', [params])

class Hooked(Model):
    """model with the optional operations of the smoothers"""
    def post_smoothing(self, st): return self._op('post_smoothing', [st])
    def pre_mhips_pass(self, st): return self._op('pre_mhips_pass', [st])

def argument(v, name):
    """arbitrary argument; (particle) arrays and index vectors have lengths of their own"""
    if name in ('particles', 'part', 'prop_part', 'next_part', 'noise', 'future_parts'):
        return v.arr(name, v.dim('N_' + name, 1, 5), v.dim('D', 1, 2))
    if name in ('ancestors', 'anc', 'find', 'pind', 'new_ind'):
        return v.idx(name, v.dim('K', 1, 4), v.dim('N_' + name, 1, 5))
    if name in ('params',):
        return v.arr(name, 2)
    if name == 'N':
        return v.dim('N', 1, 5)
    return S.Box(name)

def counters(w):
    return [getattr(w, n) for n in NAMES]

def count(name, args):
    """number of particles the call handles"""
    (names, cnt, par) = OPS[name]
    if name == 'propose_smooth':
        return len(args[1]) if args[0] is not None else len(args[3])
    n = [len(args[names.index(p)]) for p in par]
    return n[0] if len(n) == 1 else max(n[0], n[1])

def call(v, w, m, name, args, style):
    """one call through the wrapper; checks forwarding, the result and the counters"""
    (names, cnt, par) = OPS[name]
    before = counters(w)
    n = count(name, args) if len(cnt) > 0 else 0
    s = v.snap(args)
    logged = len(m.log)
    f = getattr(w, name)
    if style == 'positional':
        r = f(*args)
    else:
        r = f(**dict([(names[i], args[i]) for i in range(len(args))]))
    v.eq('the model is called once', len(m.log), logged + 1)
    (op, got, res) = m.log[-1]
    v.eq('the same operation of the model', op, name)
    for i in range(len(args)):
        v.same('argument ' + names[i], got[i], args[i])
    v.same('result of the model', r, res)
    v.unchanged('arguments', args, s)
    after = counters(w)
    total = 0
    for i in range(len(NAMES)):
        if NAMES[i] in cnt:
            total = total + after[i] - before[i]
        else:
            v.eq('other counters', after[i], before[i])
    v.eq('counted particles', total, n)

def wrapped(v, hooked=False):
    m = Hooked() if hooked else Model()
    w = Instrumenter(m)
    return (m, w)

def one(v, ops):
    name = v.choose('operation', ops)
    style = v.choose('arguments', ['positional', 'keyword'])
    (m, w) = wrapped(v)
    args = [argument(v, n) for n in OPS[name][0]]
    if name == 'propose_smooth':
        if v.choose('first time step', [False, True]):
            args[0] = None; args[1] = None
    if name == 'copy_ind':
        if v.choose('all particles', [False, True]):
            args[1] = None
    call(v, w, m, name, args, style)
    call(v, w, m, name, args, style)

def ck_filter_calls(v):
    one(v, ['create_initial_estimate', 'sample_process_noise_full', 'update_full', 'measure_full', 'copy_ind', 'eval_1st_stage_weights', 'eval_logp_x0',
            'propose_from_y', 'qsample', 'logp_q', 'set_params'])

def ck_smoother_calls(v):
    one(v, ['logp_xnext', 'logp_xnext_full', 'logp_xnext_singlestep', 'logp_xnext_max_full', 'sample_smooth', 'cond_predict_single_step',
            'cond_sampled_initial'])

def ck_proposal_calls(v):
    one(v, ['propose_smooth', 'logp_proposal'])

def ck_optional(v):
    """optional operations exist exactly when the model has them; attributes are those of the model"""
    hooked = v.choose('model with optional operations', [False, True])
    (m, w) = wrapped(v, hooked)
    for name in ['post_smoothing', 'pre_mhips_pass']:
        v.check('has ' + name, hasattr(w, name) == hooked)
        if hooked:
            st = S.Box('st')
            call(v, w, m, name, [st], 'positional')
    v.check('nothing the model lacks', not hasattr(w, 'calc_everything'))
    v.eq('attribute of the model', w.lxi, 3)
    p = v.arr('p', v.dim('N', 1, 3), 1)
    w.copy_ind(p)
    v.eq('default argument', m.log[-1][0], 'copy_ind')
    v.same('default argument', m.log[-1][1][0], p)
    v.check('default argument', m.log[-1][1][1] is None)

def ck_sequence(v):
    """counters of one wrapper accumulate over any calls; wrappers of other models are not affected"""
    (m, w) = wrapped(v)
    (m2, w2) = wrapped(v)
    first = v.choose('first', ['measure_full', 'logp_xnext_full', 'propose_smooth'])
    for name in [first, 'logp_xnext', 'sample_process_noise_full', 'logp_xnext_max_full']:
        call(v, w, m, name, [argument(v, n) for n in OPS[name][0]], 'positional')
    for n in NAMES:
        v.eq('counters of another wrapper', getattr(w2, n), 0)
    v.eq('another model is not called', len(m2.log), 0)

def ck_sum(v):
    """the sum of two sets of counters has the sum of every counter"""
    (a, b) = (OpCount(), OpCount())
    for n in NAMES:
        setattr(a, n, v.num('first ' + n))
        setattr(b, n, v.num('second ' + n))
    s = v.snap((a, b))
    r = a + b
    for n in NAMES:
        v.eq('sum of ' + n, getattr(r, n), getattr(a, n) + getattr(b, n))
    v.unchanged('the counters added', (a, b), s)

class Walk(pi.ParticleFiltering, pi.AuxiliaryParticleFiltering, pi.FFBSiRS, pi.SampleProposer):
    """nonlinear random walk, moved by numpy's random numbers"""
    def create_initial_estimate(self, N): return np.random.normal(size=(N, 1))
    def sample_process_noise(self, particles, u, t): return np.random.normal(size=(len(particles), 1))
    def update(self, particles, u, t, noise):
        particles += np.sin(particles) + u + noise
        return particles
    def measure(self, particles, y, t): return -0.5 * ((particles - y) ** 2).ravel()
    def eval_1st_stage_weights(self, particles, u, y, t): return -0.25 * ((particles + u - y) ** 2).ravel()
    def logp_xnext(self, particles, next_part, u, t): return -0.5 * ((next_part - particles - np.sin(particles) - u) ** 2).ravel()
    def logp_xnext_max(self, particles, u, t): return 0.0
    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        n = len(anc) if ptraj is not None else len(find)
        return np.random.normal(size=(n, 1))
    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind): return -0.5 * (prop_part ** 2).ravel()
    def eval_logp_x0(self, particles, t): return -0.5 * (particles ** 2).ravel()
    def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind): return part
    def cond_sampled_initial(self, part, t): return part

class WalkHooked(Walk):
    def pre_mhips_pass(self, st):
        return st.traj
    def post_smoothing(self, st):
        for k in range(len(st.traj)): st.traj[k].pa.part = st.traj[k].pa.part + 10.0
        return st.traj

def ck_end_to_end(v):
    """filtering and smoothing with the same draws gives the same results with and without the wrapper"""
    N = v.dim('N', 1, 6); M = v.dim('M', 1, 4)
    T = v.choose('measurements', [1, 2, 3, 5])
    u = [float(x) for x in v.arr('u', T)]
    y = [float(x) for x in v.arr('y', T)]
    smoother = v.choose('smoother', ['full', 'ancestor', 'mcmc', 'rs', 'rsas', 'mhips', 'mhbp'])
    filt = v.choose('filter', ['PF', 'APF'])
    hooked = v.choose('model with optional operations', [False, True])
    if smoother == 'mhips': hooked = False
    out = []
    for wrap in [False, True]:
        m = WalkHooked() if hooked else Walk()
        s = ps.Simulator(Instrumenter(m) if wrap else m, u, y)
        np.random.seed(3)
        s.simulate(N, M, filt, smoother=smoother, smoother_options={'R': 2})
        out.append(s)
    for k in range(T + 1):
        v.eq('particles', out[1].pt.traj[k].pa.part, out[0].pt.traj[k].pa.part)
        v.eq('weights', out[1].pt.traj[k].pa.w, out[0].pt.traj[k].pa.w)
        v.eq('ancestors', out[1].pt.traj[k].ancestors, out[0].pt.traj[k].ancestors)
        v.eq('smoothed', out[1].straj.traj[k].pa.part, out[0].straj.traj[k].pa.part)
    oc = out[1].model
    v.eq('particles propagated', oc.cnt_update, N * T)
    if smoother not in ('mhips', 'mhbp'):
        v.eq('particles weighted', oc.cnt_measure, N * T)

SYM = {'ck_end_to_end': 'bounded'}
