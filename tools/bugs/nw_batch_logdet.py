PROPERTY = 'P02'
NEEDS = 'a batch of Normal-Wisharts (two or more members) with different numbers of degrees of freedom'
BREAKS = 'the expected log-determinant of every member of a batch uses the degrees of freedom of the first one'
EDITS = [('beer/dists/normalwishart.py', '(torch.digamma(.5 * (dof + 1 - idxs)).sum(dim=-1, keepdim=True) \\\n', '(torch.digamma(.5 * (dof[:1] + 1 - idxs)).sum(dim=-1, keepdim=True) \\\n')]
DEMO = '''
import torch, beer, beer.dists
torch.manual_seed(0)
K, D = 3, 2
A = torch.randn(K, D, D, dtype=torch.float64)
W = A @ A.transpose(1, 2) + torch.eye(D, dtype=torch.float64)
m = torch.randn(K, D, dtype=torch.float64)
s = torch.rand(K, 1, dtype=torch.float64) + 1
v = torch.tensor([[3.], [5.], [9.]], dtype=torch.float64)
p = beer.dists.NormalWishart.from_std_parameters(m, s, W, v)
q = [beer.dists.NormalWishart.from_std_parameters(m[i], s[i], W[i], v[i]) for i in range(K)]
a = p.expected_sufficient_statistics()
b = torch.stack([x.expected_sufficient_statistics() for x in q])
assert torch.allclose(a, b), (a - b).abs().max()
'''
