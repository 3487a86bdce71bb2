PROPERTY = 'C26'
NEEDS = 'a spiral of Gaussians with different start and end spreads; a look at the spread of one of them'
BREAKS = 'the spread of each Gaussian is the one of the first'
EDITS = [('torchdyn/datasets/static_datasets.py', "        dist.scale = std_devs[i]\n", "        dist.scale = std_devs[0]\n")]
DEMO = '''
import torch
from torchdyn.datasets import ToyDataset
torch.manual_seed(0)
X, y = ToyDataset().generate(2000, 'gaussians_spiral', n_gaussians=3, std_gaussians_start=0.3, std_gaussians_end=0.01, noise=0.)
assert X[y == 2].std(0).max() < 0.05, X[y == 2].std(0)
'''
