"""Small networks and numpy/torch references shared by the deep-learning monitors."""
import io
import numpy as np
import torch
import torch.nn as nn


class QNet(nn.Module):
    """Q network: (state) -> all values, (state, action) -> value of the action."""

    def __init__(self, input_shape, output_shape, n_features=6, **kw):
        super().__init__()
        if kw.get('spare'):
            self.spare = nn.Linear(2, 2)         # a head that is never used
        self.h = nn.Linear(input_shape[-1], n_features)
        self.o = nn.Linear(n_features, output_shape[0])

    def forward(self, state, action=None):
        q = self.o(torch.tanh(self.h(state.float())))
        if action is None:
            return q
        return torch.squeeze(q.gather(1, action.long()))


class FeatNet(nn.Module):
    def __init__(self, input_shape, output_shape, n_features=6, **kw):
        super().__init__()
        if kw.get('spare'):
            self.spare = nn.Linear(2, 2)         # a head that is never used
        self.h = nn.Linear(input_shape[-1], n_features)

    def forward(self, state, action=None):
        return torch.tanh(self.h(state.float()))


class CriticNet(nn.Module):
    """(state, action) -> value, for continuous actions."""

    def __init__(self, input_shape, output_shape, n_features=8, **kw):
        super().__init__()
        if kw.get('spare'):
            self.spare = nn.Linear(2, 2)         # a head that is never used
        self.h = nn.Linear(input_shape[-1], n_features)
        self.o = nn.Linear(n_features, output_shape[0])

    def forward(self, state, action):
        x = torch.cat((state.float(), action.float()), dim=1)
        return torch.squeeze(self.o(torch.tanh(self.h(x))))


class MLP(nn.Module):
    """state -> output (values, means, ...)"""

    def __init__(self, input_shape, output_shape, n_features=8, **kw):
        super().__init__()
        if kw.get('spare'):
            self.spare = nn.Linear(2, 2)         # a head that is never used
        self.h = nn.Linear(input_shape[-1], n_features)
        self.o = nn.Linear(n_features, output_shape[0])
        self.sq = kw.get('squash', False)

    def forward(self, state, **kw):
        y = self.o(torch.tanh(self.h(state.float())))
        return torch.tanh(y) if self.sq else y


def flat(net):
    return torch.cat([p.detach().flatten() for p in net.parameters()]).numpy().copy()


def nets_of(reg):
    """The networks behind a Regressor (one, or one per ensemble member)."""
    try:
        n = len(reg)
    except Exception:
        n = 1
    if n == 1:
        return [reg.model.network]
    return [reg[i].network for i in range(n)]


def copy_net(net):
    """Deep copy that also works for modules holding non-leaf tensors."""
    b = io.BytesIO()
    torch.save(net, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


def clone(reg):
    return [copy_net(x) for x in nets_of(reg)]
