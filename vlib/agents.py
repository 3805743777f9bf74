"""Builders of small agents of every algorithm, each with an environment and the way Core trains it."""
import numpy as np
import torch
import torch.nn.functional as F
from mushroom_rl.algorithms.value import *
from mushroom_rl.algorithms.actor_critic import *
from mushroom_rl.algorithms.policy_search import *
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.core import Environment, MDPInfo, Core
from mushroom_rl.distributions import *
from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.features import Features
from mushroom_rl.policy import *
from mushroom_rl.policy import RecurrentGaussianTorchPolicy, VectorPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter, LinearParameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from vlib.nets import *


class ToyEnv(Environment):
    """Small noisy linear system; ends when it leaves a region, or at the horizon."""

    def __init__(self, sdim=2, adim=1, na=None, horizon=12, gamma=.9, limit=2.):
        self.A = .9 * np.eye(sdim) + .05
        self.sdim, self.na, self.limit = sdim, na, limit
        act = Discrete(na) if na else Box(-1., 1., shape=(adim,))
        self.adim = adim
        self._s = None
        super().__init__(MDPInfo(Box(-50., 50., shape=(sdim,)), act, gamma, horizon))

    def reset(self, state=None):
        self._s = np.random.uniform(-1, 1, self.sdim) if state is None else np.array(state, dtype=float)
        return self._s.copy(), {}

    def step(self, action):
        a = np.asarray(action).ravel().astype(float)
        if self.na:
            a = np.array([a[0] - (self.na - 1) / 2.])
        s = self.A @ self._s + .3 * np.tanh(a[0]) + .1 * np.random.randn(self.sdim)
        self._s = s
        return s.copy(), float(-np.abs(s).sum() + .2 * a.sum()), bool(np.abs(s).max() > self.limit), {}


def finite(ns=5, na=3, gamma=.9, horizon=10, seed=0):
    r = np.random.RandomState(seed)
    p = np.zeros((ns, na, ns))
    for s in range(ns - 1):
        for a in range(na):
            w = r.rand(ns) ** 3 + 1e-3
            p[s, a] = w / w.sum()
    rew = r.randn(ns, na, ns)
    mu = np.ones(ns)
    mu[-1] = 0
    return FiniteMDP(p, rew, mu / mu.sum(), gamma, horizon)


def basis_sin(s, k=0):
    s = np.asarray(s, dtype=float).ravel()
    return np.sin(s[k % len(s)] * (k + 1)) if k else 1.


class Basis:
    """Picklable scalar basis function."""

    def __init__(self, k):
        self.k = k

    def __call__(self, s):
        return basis_sin(s, self.k)


def feats(n=4):
    return Features(basis_list=[Basis(k) for k in range(n)])


class RNNActor(torch.nn.Module):
    def __init__(self, input_shape, output_shape, n_features=5, n_hidden=3, **kw):
        super().__init__()
        self.n_hidden = n_hidden
        self.rnn = torch.nn.GRU(input_shape[0], n_hidden, batch_first=True)
        self.o = torch.nn.Linear(n_hidden, output_shape[0])

    def forward(self, state, policy_state, lengths):
        pk = torch.nn.utils.rnn.pack_padded_sequence(state, lengths, enforce_sorted=False, batch_first=True)
        h0 = policy_state.reshape(1, -1, self.n_hidden).contiguous()
        out, h = self.rnn(pk, h0)
        f, _ = torch.nn.utils.rnn.pad_packed_sequence(out, batch_first=True)
        i = lengths.view(-1, 1, 1) - 1
        f = torch.take_along_dim(f, i, dim=1)[:, 0]
        return self.o(f), torch.swapaxes(h, 0, 1)


class RNNCritic(torch.nn.Module):
    def __init__(self, input_shape, output_shape, n_hidden=3, **kw):
        super().__init__()
        self.n_hidden = n_hidden
        self.rnn = torch.nn.GRU(input_shape[0], n_hidden, batch_first=True)
        self.o = torch.nn.Linear(n_hidden, 1)

    def forward(self, state, policy_state, lengths):
        pk = torch.nn.utils.rnn.pack_padded_sequence(state, lengths, enforce_sorted=False, batch_first=True)
        h0 = policy_state.reshape(1, -1, self.n_hidden).contiguous()
        out, h = self.rnn(pk, h0)
        f, _ = torch.nn.utils.rnn.pad_packed_sequence(out, batch_first=True)
        i = lengths.view(-1, 1, 1) - 1
        return self.o(torch.take_along_dim(f, i, dim=1)[:, 0])


TD = ['q_learning', 'q_lambda', 'double', 'weighted', 'speedy', 'maxmin', 'rq', 'r_learning', 'sarsa', 'sarsa_lambda',
      'expected_sarsa', 'sarsa_continuous', 'true_online']
DQNS = ['dqn', 'double_dqn', 'averaged', 'maxmin_dqn', 'dueling', 'categorical', 'noisy', 'quantile', 'rainbow', 'dqn_prio']
BATCH = ['fqi', 'double_fqi', 'boosted_fqi', 'lspi']
DEEP_AC = ['ddpg', 'td3', 'sac', 'a2c', 'ppo', 'ppo_bptt', 'trpo']
CLASSIC_AC = ['stochastic_ac', 'stochastic_ac_avg', 'copdac']
PG = ['reinforce', 'gpomdp', 'enac']
BBO = ['rwr', 'pgpe', 'reps', 'constrained_reps', 'more', 'eppo']
ALL = TD + DQNS + BATCH + DEEP_AC + CLASSIC_AC + PG + BBO


def adam(lr=.01):
    return {'class': torch.optim.Adam, 'params': {'lr': lr}}


def sgd(lr=.05):
    return {'class': torch.optim.SGD, 'params': {'lr': lr}}


def dqn_params(sdim, na, net=FeatNet, opt=None, spare=False):
    return dict(network=net, optimizer=opt or adam(), loss=F.smooth_l1_loss, input_shape=(sdim,), output_shape=(na,),
                n_actions=na, n_features=6, **(dict(spare=True) if spare else {}))


def build(kind, o=None):
    """Returns (agent, env, learn kwargs)."""
    o = o or {}
    g = o.get
    if kind in TD:
        mdp = g('env') or finite(horizon=g('horizon', 10))
        i, n = mdp.info, mdp.info.size
        pol = EpsGreedy(LinearParameter(.5, .1, 50)) if g('pol', 'eps') == 'eps' else Boltzmann(Parameter(1.))
        lr = DecayParameter(.8, exp=.6, size=n) if g('decay', True) else Parameter(.3)
        phi = feats(4)
        lin = dict(input_shape=(phi.size,), output_shape=(n[1],), n_actions=n[1], phi=phi)
        lr_lin = DecayParameter(.1, exp=.3)
        ag = {'q_learning': lambda: QLearning(i, pol, lr), 'q_lambda': lambda: QLambda(i, pol, lr, .8, g('trace', 'replacing')),
              'double': lambda: DoubleQLearning(i, pol, lr), 'weighted': lambda: WeightedQLearning(i, pol, lr, precision=50),
              'speedy': lambda: SpeedyQLearning(i, pol, lr), 'maxmin': lambda: MaxminQLearning(i, pol, lr, 3),
              'rq': lambda: RQLearning(i, pol, lr, beta=DecayParameter(.7, exp=.2, size=n)) if not g('delta') else
              RQLearning(i, pol, lr, off_policy=True, delta=.5),
              'r_learning': lambda: RLearning(i, pol, lr, DecayParameter(.5, exp=.5)), 'sarsa': lambda: SARSA(i, pol, lr),
              'sarsa_lambda': lambda: SARSALambda(i, pol, lr, .7, g('trace', 'accumulating')),
              'expected_sarsa': lambda: ExpectedSARSA(i, pol, lr),
              'sarsa_continuous': lambda: SARSALambdaContinuous(i, pol, LinearApproximator, lr_lin, .7, lin),
              'true_online': lambda: TrueOnlineSARSALambda(i, pol, lr_lin, .7, lin)}[kind]()
        return ag, mdp, dict(n_steps=g('steps', 60), n_steps_per_fit=1)
    if kind in DQNS:
        na = 3
        mdp = g('env') or ToyEnv(na=na, horizon=g('horizon', 12))
        i = mdp.info
        pol = EpsGreedy(LinearParameter(.6, .1, 50)) if g('pol', 'eps') == 'eps' else Boltzmann(Parameter(1.))
        kw = dict(approximator_params=dqn_params(2, na, QNet if kind in ('dqn', 'double_dqn', 'averaged', 'maxmin_dqn', 'dqn_prio') else FeatNet,
                                                 g('opt'), g('spare')),
                  batch_size=g('batch', 5), initial_replay_size=g('init', 10), max_replay_size=g('cap', 40),
                  target_update_frequency=g('freq', 4), clip_reward=g('clip', False), **g('extra', {}))
        if kind in ('categorical', 'quantile', 'rainbow'):
            kw['approximator_params'].pop('loss')
        N = NumpyTorchApproximator
        if kind == 'dqn_prio':
            kw['replay_memory'] = {'class': PrioritizedReplayMemory, 'params': dict(alpha=.6, beta=LinearParameter(.4, 1., 50))}
        ag = {'dqn': lambda: DQN(i, pol, N, **kw), 'dqn_prio': lambda: DQN(i, pol, N, **kw), 'double_dqn': lambda: DoubleDQN(i, pol, N, **kw),
              'averaged': lambda: AveragedDQN(i, pol, N, n_approximators=g('n_ens', 3), **kw),
              'maxmin_dqn': lambda: MaxminDQN(i, pol, N, n_approximators=g('n_ens', 3), **kw),
              'dueling': lambda: DuelingDQN(i, pol, avg_advantage=g('avg', True), **kw), 'noisy': lambda: NoisyDQN(i, pol, **kw),
              'quantile': lambda: QuantileDQN(i, pol, n_quantiles=g('n_q', 5), **kw),
              'categorical': lambda: CategoricalDQN(i, pol, n_atoms=7, v_min=-10., v_max=5., **kw),
              'rainbow': lambda: Rainbow(i, pol, n_atoms=7, v_min=-10., v_max=5., n_steps_return=g('nsr', 2), alpha_coeff=.6,
                                         beta=LinearParameter(.4, 1., 50), **kw)}[kind]()
        return ag, mdp, dict(n_steps=g('steps', 60), n_steps_per_fit=g('per_fit', 3))
    if kind in BATCH:
        na = 2
        mdp = g('env') or ToyEnv(na=na, horizon=g('horizon', 8))
        i = mdp.info
        pol = EpsGreedy(Parameter(1.)) if g('pol', 'eps') == 'eps' else Boltzmann(Parameter(1.))
        phi = feats(4)
        par = dict(input_shape=(phi.size,), output_shape=(na,), n_actions=na, phi=phi)
        if kind == 'lspi':
            i.gamma = g('gamma', 0.)        # least-squares policy iteration need not end otherwise
            ag = LSPI(i, pol, approximator_params=par)
        else:
            par = dict(input_shape=(phi.size,), output_shape=(1,), n_actions=na, phi=phi)
            C = dict(fqi=FQI, double_fqi=DoubleFQI, boosted_fqi=BoostedFQI)[kind]
            if kind == 'boosted_fqi':
                par['n_models'], par['prediction'] = 3, 'sum'
            ag = C(i, pol, LinearApproximator, n_iterations=3, approximator_params=par, quiet=True)
        one = kind == 'boosted_fqi'     # supports one fit: its ensemble has one member per iteration
        return ag, mdp, dict(n_episodes=g('episodes', 6 if one else 12), n_episodes_per_fit=g('ep_per_fit', 6))
    adim = g('adim', 1)
    if kind in DEEP_AC:
        mdp = g('env') or ToyEnv(adim=adim, horizon=g('horizon', 12))
        i = mdp.info
        opt = g('opt') or adam()
        critic = dict(network=CriticNet, optimizer=g('copt') or opt, loss=F.mse_loss, input_shape=(2 + adim,), output_shape=(1,), spare=g('spare'))
        vcrit = dict(network=MLP, optimizer=g('copt') or opt, loss=F.mse_loss, input_shape=(2,), output_shape=(1,), batch_size=g('vbatch', 0), spare=g('spare'))
        mem = dict(batch_size=g('batch', 5), initial_replay_size=g('init', 8), max_replay_size=g('cap', 40), tau=g('tau', .05))
        mu = dict(network=MLP, input_shape=(2,), output_shape=(adim,), n_features=6)
        if kind in ('ddpg', 'td3'):
            pc = g('policy_class', OrnsteinUhlenbeckPolicy)
            pp = g('policy_params') or dict(sigma=torch.ones(adim) * .3, theta=.15, dt=.1)
            C = DDPG if kind == 'ddpg' else TD3
            kw = dict(policy_delay=g('delay', 2), **mem)
            ag = C(i, pc, pp, dict(mu, squash=True), opt, critic, **kw, **g('extra', {}))
            return ag, mdp, dict(n_steps=g('steps', 60), n_steps_per_fit=g('per_fit', 2))
        if kind == 'sac':
            ag = SAC(i, mu, dict(mu), opt, critic, warmup_transitions=g('warmup', 16), lr_alpha=.01, **mem, **g('extra', {}))
            return ag, mdp, dict(n_steps=g('steps', 60), n_steps_per_fit=g('per_fit', 2))
        if kind == 'ppo_bptt':
            pol = RecurrentGaussianTorchPolicy(network=RNNActor, policy_state_shape=(3,), input_shape=(2,), output_shape=(adim,), std_0=.7)
            ag = PPO_BPTT(i, pol, opt, dict(network=RNNCritic, optimizer=opt, loss=F.mse_loss, input_shape=(2,), output_shape=(1,)),
                          n_epochs_policy=2, batch_size=7, eps_ppo=.2, lam=.9, dim_env_state=2, ent_coeff=.01,
                          critic_fit_params=dict(n_epochs=2), truncation_length=g('trunc', 4))
            return ag, mdp, dict(n_steps=g('steps', 60), n_steps_per_fit=20)
        pol = GaussianTorchPolicy(MLP, (2,), (adim,), std_0=.7, n_features=6)
        if kind == 'a2c':
            ag = A2C(i, pol, opt, vcrit, ent_coeff=g('ent', .01), max_grad_norm=g('max_norm', .5), critic_fit_params=g('cfp'))
        elif kind == 'ppo':
            ag = PPO(i, pol, opt, vcrit, n_epochs_policy=g('epochs', 2), batch_size=g('batch', 7), eps_ppo=g('eps', .2), lam=g('lam', .9),
                     ent_coeff=g('ent', .01), critic_fit_params=g('cfp', dict(n_epochs=2)))
        else:
            ag = TRPO(i, pol, vcrit, ent_coeff=g('ent', 0.), max_kl=g('max_kl', .01), lam=g('lam', .9),
                      critic_fit_params=g('cfp', dict(n_epochs=2)), **g('extra', {}))
        return ag, mdp, dict(n_steps=g('steps', 60), n_steps_per_fit=g('per_fit', 20))
    mdp = g('env') or ToyEnv(adim=adim, horizon=g('horizon', 6))
    i = mdp.info
    if kind in CLASSIC_AC:
        phi, psi = feats(3), feats(4)
        mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(adim,), phi=phi)
        if kind == 'copdac':
            pol = GaussianPolicy(mu, .2 * np.eye(adim))
            ag = COPDAC_Q(i, pol, mu, Parameter(.01), Parameter(.05), Parameter(.1), value_function_features=psi)
        else:
            std = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(adim,), phi=phi)
            pol = StateLogStdGaussianPolicy(mu, std)
            if kind == 'stochastic_ac':
                ag = StochasticAC(i, pol, DecayParameter(.01, exp=.3), Parameter(.1), lambda_par=.5, value_function_features=psi)
            else:
                ag = StochasticAC_AVG(i, pol, Parameter(.01), Parameter(.1), Parameter(.05), lambda_par=.5, value_function_features=psi)
        return ag, mdp, dict(n_steps=g('steps', 40), n_steps_per_fit=1)
    if kind in PG:
        mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(adim,))
        pol = DiagonalGaussianPolicy(mu, np.ones(adim) * .5)
        opt = g('opt') or AdaptiveOptimizer(eps=.01)
        C = dict(reinforce=REINFORCE, gpomdp=GPOMDP, enac=eNAC)[kind]
        ag = C(i, pol, opt)
        return ag, mdp, dict(n_episodes=g('episodes', 12), n_episodes_per_fit=g('ep_per_fit', 6))
    mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(adim,))
    pol = DeterministicPolicy(mu=mu)
    n = pol.weights_size
    opt = g('opt')
    if kind == 'more':
        dist = GaussianCholeskyDistribution(np.zeros(n), np.eye(n) * .5)
        ag = MORE(i, dist, pol, eps=1., h0=-5., kappa=.9)
    elif kind == 'constrained_reps':
        dist = GaussianDiagonalDistribution(np.zeros(n), np.ones(n) * .5)
        ag = ConstrainedREPS(i, dist, pol, eps=.7, kappa=.1)
    elif kind == 'rwr':
        dist = GaussianDiagonalDistribution(np.zeros(n), np.ones(n) * .5)
        ag = RWR(i, dist, pol, beta=.5)
    elif kind == 'reps':
        dist = GaussianDiagonalDistribution(np.zeros(n), np.ones(n) * .5)
        ag = REPS(i, dist, pol, eps=.7)
    elif kind == 'pgpe':
        dist = GaussianDiagonalDistribution(np.zeros(n), np.ones(n) * .5)
        ag = PGPE(i, dist, pol, opt or AdaptiveOptimizer(eps=.2))
    else:
        pol = DeterministicPolicy(mu=Regressor(TorchApproximator, network=MLP, n_features=2, input_shape=(2,), output_shape=(adim,)))
        n = pol.weights_size
        dist = DiagonalGaussianTorchDistribution(torch.zeros(n), torch.ones(n) * .5)
        ag = ePPO(i, dist, pol, adam(.05), n_epochs_policy=3, batch_size=4, eps_ppo=.2, ent_coeff=.01)
    return ag, mdp, dict(n_episodes=g('episodes', 20), n_episodes_per_fit=g('ep_per_fit', 10))


def seed_all(s):
    np.random.seed(s)
    torch.manual_seed(s)
    import random
    random.seed(s)
