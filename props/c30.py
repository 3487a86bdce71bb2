"""C30: hybrid sequence models alternate jumps and flows over the sequence in order."""
from symtorch.runner import Suite
from torchdyn.models.hybrid import HybridNeuralDE
from torchdyn.core import NeuralODE
from .common import *

SUITE = Suite('C30', assumptions=['cells, flows and read-outs act on each sample separately'])


class Cell(nn.Module):
    """Any cell: hidden state from the element and the hidden state, in this order."""
    def __init__(self, H, n, hidden):
        super().__init__()
        self.u, self.hidden_size = H.uf('jump', hidden, time=False), hidden

    def forward(self, x_t, h):
        return self.u(None, torch.cat([x_t, h], 1))




class Row(nn.Module):
    """Any network of the last dimension."""
    def __init__(self, H, name, nout):
        super().__init__()
        self.u, self.nout = H.uf(name, nout, time=False), nout

    def forward(self, x):
        y = self.u(None, x.reshape(-1, x.shape[-1]))
        return y.reshape(*x.shape[:-1], self.nout)


def ap(H, name, row, nout):
    return torch.stack([H.ufs(f'{name}_{i}', list(row)) for i in range(nout)])


def model(H, T, batch, n, hidden, nout, last, reverse, flow=None):
    x = H.tensor('x', (T, batch, n), -2, 2)
    before = x.clone()
    flow = flow or Row(H, 'flow', hidden)
    m = HybridNeuralDE(flow, Cell(H, n, hidden), Row(H, 'out', nout), last_output=last, reverse=reverse)
    y = m(x)
    want = []
    for b in range(batch):
        h = torch.zeros(hidden, dtype=torch.float64)
        ys = []
        for t in (range(T - 1, -1, -1) if reverse else range(T)):
            h = ap(H, 'jump', torch.cat([before[t, b], h]), hidden)
            h = ap(H, 'flow', h, hidden)
            ys.append(ap(H, 'out', h, nout))
        want.append(torch.stack(ys))
    want = torch.stack(want, 1)
    H.check_shape(y, (batch, nout) if last else (T, batch, nout), 'output')
    H.check_eq(y, want[-1] if last else want, 'output')
    H.check_eq(x, before, 'the input sequence is modified')


for T, b, n, h, o in ((1, 1, 1, 1, 1), (2, 1, 1, 1, 1), (3, 2, 1, 2, 1), (2, 2, 2, 1, 2), (4, 1, 2, 2, 1)):
    for last in (True, False):
        for rev in (False, True):
            SUITE.case(f'any-{T}{b}{n}{h}{o}-{"last" if last else "all"}{"-rev" if rev else ""}', bounds=f'sequences of {T}, batch {b}, any cell, flow and read-out')(
                lambda H, a=(T, b, n, h, o, last, rev): model(H, *a))
for T in (6, 8):
    SUITE.case(f'any-{T}', bounds=f'sequences of {T}', tier='thorough')(lambda H, T=T: model(H, T, 2, 1, 1, 1, False, False))
    SUITE.case(f'any-{T}-rev', bounds=f'sequences of {T}', tier='thorough')(lambda H, T=T: model(H, T, 2, 1, 1, 1, True, True))


def lstm(H, T, batch, n, hidden, last, reverse):
    """LSTM cells carry the cell state along; the flow acts on the hidden state only."""
    x = H.tensor('x', (T, batch, n), -2, 2)
    cell = nn.LSTMCell(n, hidden).double()
    # concrete forward of the cell is replaced by any function of element, hidden and cell state
    calls = []

    def fwd(inp, state=None):
        hh, cc = state
        calls.append((inp, hh, cc))
        z = torch.cat([inp, hh, cc], 1)
        return H_u[0](None, z), H_u[1](None, z)
    H_u = [H.uf('jump', hidden, time=False), H.uf('mem', hidden, time=False)]
    cell.forward = fwd
    m = HybridNeuralDE(Row(H, 'flow', hidden), cell, Row(H, 'out', 1), last_output=last, reverse=reverse)
    y = m(x)
    want = []
    for b in range(batch):
        h = c = torch.zeros(hidden, dtype=torch.float64)
        ys = []
        for t in (range(T - 1, -1, -1) if reverse else range(T)):
            z = torch.cat([x[t, b], h, c])
            h, c = ap(H, 'jump', z, hidden), ap(H, 'mem', z, hidden)
            h = ap(H, 'flow', h, hidden)
            ys.append(ap(H, 'out', h, 1))
        want.append(torch.stack(ys))
    want = torch.stack(want, 1)
    H.check_eq(y, want[-1] if last else want, 'output')
    H.check(len(calls) == T, 'one jump per element')


for T, b, n, h in ((1, 1, 1, 1), (3, 2, 1, 1), (2, 1, 2, 2)):
    for last in (True, False):
        for rev in (False, True):
            SUITE.case(f'lstm-{T}{b}{n}{h}-{"last" if last else "all"}{"-rev" if rev else ""}', bounds=f'sequences of {T}, batch {b}, any LSTM-type cell')(
                lambda H, a=(T, b, n, h, last, rev): lstm(H, *a))


@SUITE.case('history', bounds='three sequences through one model, of other lengths and batch sizes')
def _(H):
    m = HybridNeuralDE(Row(H, 'flow', 1), Cell(H, 1, 1), Row(H, 'out', 1), last_output=False)
    for k, (T, batch) in enumerate(((2, 1), (2, 1), (3, 2), (2, 1))):
        x = H.tensor(f'x{k}', (T, batch, 1), -2, 2)
        y = m(x)
        for b in range(batch):
            h = torch.zeros(1, dtype=torch.float64)
            for t in range(T):
                h = ap(H, 'flow', ap(H, 'jump', torch.cat([x[t, b], h]), 1), 1)
                H.check_eq(y[t, b], ap(H, 'out', h, 1), f'sequence {k}: output {t}')


@SUITE.case('rnncell', bounds='a tanh RNN cell, any parameters, two elements')
def _(H):
    cell = nn.RNNCell(1, 2).double()
    W, U, c, d = H.tensor('W', (2, 1), -1, 1), H.tensor('U', (2, 2), -1, 1), H.tensor('c', (2,), -1, 1), H.tensor('d', (2,), -1, 1)
    cell.weight_ih, cell.weight_hh, cell.bias_ih, cell.bias_hh = (nn.Parameter(v) for v in (W, U, c, d))
    x = H.tensor('x', (2, 1, 1), -1, 1)
    y = HybridNeuralDE(nn.Identity(), cell, nn.Identity(), last_output=False)(x)
    h = torch.zeros(2, dtype=torch.float64)
    for t in range(2):
        h = torch.tanh(W @ x[t, 0] + c + U @ h + d)
        H.check_eq(y[t, 0], h, f'state {t}')


@SUITE.case('flow-ode', bounds='ODE flow: one Euler step of any field between the elements')
def _(H):
    u = H.uf('f', 1, time=False)
    dt = H.scalar('dt', 0.1, 2)

    class Flow(nn.Module):
        def forward(self, h):
            from torchdyn.numerics import odeint
            return odeint(lambda t, z: u(t, z), h, torch.stack([0 * dt, dt]), 'euler')[1][-1]
    x = H.tensor('x', (3, 2, 1), -2, 2)
    y = HybridNeuralDE(Flow(), Cell(H, 1, 1), nn.Identity(), last_output=False)(x)
    for b in range(2):
        h = torch.zeros(1, dtype=torch.float64)
        for t in range(3):
            h = ap(H, 'jump', torch.cat([x[t, b], h]), 1)
            h = h + dt * ap(H, 'f', h, 1)
            H.check_eq(y[t, b], h, f'state {t}')


@SUITE.case('gradient', bounds='every element, cell parameters and flow parameters receive the gradient of the composed map')
def _(H):
    a, b, k = (H.scalar(n, -2, 2).requires_grad_(True) for n in 'abk')

    class C(nn.Module):
        hidden_size = 1

        def forward(self, x_t, h):
            return a * x_t + b * h

    class F(nn.Module):
        def forward(self, h):
            return k * h
    x = H.tensor('x', (3, 1, 1), -2, 2).requires_grad_(True)
    y = HybridNeuralDE(F(), C(), nn.Identity())(x)
    g = torch.autograd.grad(y.sum(), [a, b, k, x])
    h = torch.zeros((), dtype=torch.float64)
    for t in range(3):
        h = k * (a * x[t, 0, 0] + b * h)
    w = torch.autograd.grad(h, [a, b, k, x])
    for p, q, n in zip(g, w, ('cell', 'memory', 'flow', 'sequence')):
        H.check_eq(p, q, f'gradient of the {n}')


# larger structures
SUITE.case('any-9', bounds='sequences of 9')(lambda H: model(H, 9, 1, 1, 1, 1, False, False))
SUITE.case('any-9-rev', bounds='sequences of 9')(lambda H: model(H, 9, 1, 1, 1, 1, True, True))
SUITE.case('any-2-17', bounds='batch of 17')(lambda H: model(H, 2, 17, 1, 1, 1, False, True))

contexts(SUITE, r'any-(21111|32121)-.*|lstm-3211-all|history|rnncell|flow-ode')
