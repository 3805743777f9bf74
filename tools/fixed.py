"""Writes known_findings.json from the fix: commits of /repo (fixed entries suppress nothing) and KNOWN below."""
import json
import subprocess
import sys

PROPS = [
    ('fit callbacks of the vectorized core', 'C40'),
    ('mellowmax uses one value', 'C18'),
    ('both traces of the stochastic', 'C34'),
    ('bounds of the relative entropy methods', 'C21'),
    ('gaining a life in Atari', 'C37'),
    ('dm_control time limit is ignored with pixel', 'C37'),
    ('default number of Voronoi tilings', 'C28'),
    ('entropy of the recurrent Gaussian policy', 'C19'),
    ('episodic PPO conditions', 'C21'),
    ('parallel policies of the torch backend', 'C21'),
    ('vectorized core records the frame', 'C42'),
    ('video recorders never write over', 'C42'),
    ('the grid world start cell is drawn', 'C42'),
    ('stopping a video recorder', 'C42'),
    ('drawing a torque arrow', 'C42'),
    ('pictures of non-square PyBullet', 'C42'),
    ('plot windows accept a single tracking flag', 'C43'),
    ('ProMP computes its phase', 'C41'),
    ('movement primitives can be saved', 'C41'),
    ('DMP implements the policy interface', 'C41'),
    ('canonical system of DMP', 'C41'),
    ('restarts only the policies whose episode starts', 'C41'),
    ('CollectDataset can be cleaned', 'C40'),
    ('air hockey puck velocity starts with', 'C39'),
    ('air hockey joint position constraints', 'C39'),
    ('air hockey rim collision group', 'C39'),
    ('second air hockey robot detects', 'C39'),
    ('air hockey double get_ee', 'C39'),
    ('pybullet air hockey can be used with noisy dynamics', 'C39'),
    ('pybullet air hockey can be used with noisy observations', 'C39'),
    ('pybullet air hockey can be used with delayed', 'C39'),
    ('pybullet air hockey keeps the control period', 'C39'),
    ('pybullet air hockey prepare ends', 'C39'),
    ('pybullet air hockey hit uses', 'C39'),
    ('unlimited pybullet joints have infinite', 'C38'),
    ('pybullet contact flags see contacts between links', 'C38'),  # (substring of the commit title, properties)
    ('no longer writes into the', 'C33'), ('a loaded Mellowmax policy', 'C08'), ('the quantile loss of QuantileDQN', 'C32'),
    ('when a MuJoCo environment is reset', 'C36'), ('remove_obs finds', 'C36'), ('MultiMuJoCo', 'C36'),
    ('to a given state sets the state', 'C37'), ('are not passed to its wrappers', 'C37'), ('average pooling of Atari', 'C37'),
    ('five values of the gymnasium', 'C37'), ('after a lost life', 'C37'), ('MiniGrid', 'C37'),
    ('evaluation ignores the fit period', 'C03'), ('VectorCore applies the state preprocessors once', 'C03'),
    ('parallel fit blocks contain', 'C03'), ('parallel evaluation from a set', 'C03 C04'),
    ('Dataset.from_array keeps', 'C05'), ('list datasets support', 'C05'), ('dataset views index', 'C05'),
    ('concatenating to an empty', 'C05'), ('negative dataset indices', 'C05'), ('parsing a list dataset', 'C05'),
    ('views of a dataset can be', 'C05'), ('an empty dataset has zero', 'C06'), ('dataset metrics and initial', 'C06'),
    ('copies of step infos', 'C07'), ('step infos stay aligned', 'C07'), ('torch datasets save their', 'C08'),
    ('a prioritized memory saved without', 'C08'), ('optional mushroom attributes', 'C08 C09'),
    ('n-step returns leave', 'C10'), ('sequences of a full memory', 'C10'), ('prioritized sampling with equal', 'C11'),
    ('dueling network', 'C13'), ('recurrent PPO sequences', 'C17'), ('DDPG and TD3 learn with', 'C17'),
    ('running standardization accounts', 'C29'), ('Monte-Carlo advantage of a single', 'C16'),
    ('one-dimensional full-covariance', 'C20'), ('MORE quadratic', 'C21'), ('vectorized black-box optimization without', 'C21'),
    ('vector policy changes', 'C21'), ('GPOMDP does not keep', 'C21'), ('vectorized black-box optimization needs', 'C21'),
    ('variance parameters with one', 'C22'), ('decreasing variance parameter', 'C22'), ('minimizing optimizers leave', 'C23 C33'),
    ('LQR value gradient of a batch', 'C26'), ('taxi rewards', 'C25'), ('last row of a map', 'C25'),
    ('derivative of CMAC', 'C27'), ('CMAC predictions', 'C27'), ('CMAC fit with', 'C27'), ('copy the weights', 'C27 C33'),
    ('variance of the extremes', 'C27'), ('ensemble tables predict', 'C27'),
    ('tile of an input next', 'C28'), ('tensor features with', 'C28'),
    ('loggers append only', 'C31'), ('logged arrays are kept', 'C31 C33'), ('loggers with the same name', 'C31'),
    ('COPDAC_Q with several', 'C34'), ('step information is usable', 'C08 C09'),
    ('MORE saves', 'C09'), ('recurrent Gaussian policy saves', 'C08 C09'), ('boosted FQI saved', 'C09'), ('PPO_BPTT saves', 'C09'),
    ('ePPO optimizes its', 'C09'), ('COPDAC_Q acts with', 'C09'),
    ('numerical gradient at', 'C35'), ('array selection of', 'C30'), ('torch running window', 'C29'), ('running window keeps', 'C29 C33'), ('running statistics of multi', 'C29'), ('bounds of the min-max', 'C29'),
    ('reset of pendulum', 'C24 C33'), ('Segway observation', 'C24'),
    ('Adam optimizer saves', 'C08'), ('optimizers accept any number', 'C23'),
    ('recurrent Gaussian policy log', 'C19'), ('DDPG masks', 'C17'), ('TD3 smooths', 'C17'),
]
KNOWN = [
    dict(property='C17', key='direction/trpo-conjugate-directions',
         what='TRPO.fit with n_epochs_cg >= 2: the first residual and the first search direction of the conjugate gradient are the same '
              'array, so the second direction is (1 + mu) r instead of r + mu p and is not conjugate to the first '
              '(tests/algorithms/test_trust_region.py::test_TRPO pins the resulting weights)'),
    dict(property='C16', key='a2c/a2c-leaks-across-truncated-episodes',
         what='A2C.fit / compute_advantage_montecarlo: a fit block holding an episode cut by the time limit before its end; its returns '
              'continue into the next episode instead of bootstrapping (tests/algorithms/test_a2c.py pins the resulting weights)'),
    dict(property='C15', key='lspi/lspi-bootstraps-terminal',
         what='LSPI.fit: a dataset with a terminal transition; the features of the terminal next state (first action) enter the '
              'projected Bellman equation instead of a zero value (tests/algorithms/test_lspi.py pins the resulting weights)'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout
    fixed, missing = [], []
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if not s.startswith('fix:'):
            continue
        ps = [p for k, p in PROPS if k in s]
        if len(ps) != 1:
            missing.append(line)
            continue
        for p in ps[0].split():
            fixed.append(f'fixed: property={p} {h} {s[5:]}')
    json.dump(dict(known=KNOWN, fixed=fixed), open('/verif/known_findings.json', 'w'), indent=1)
    print(len(fixed), 'fixed', len(KNOWN), 'known')
    if missing:
        sys.exit('no property for:\n' + '\n'.join(missing))


main()
