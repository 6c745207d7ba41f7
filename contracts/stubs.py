"""Arbitrary model sets: stand-ins for 'any conforming ModelSet' in the contracts of the
models that are parameterised by a model set (they are inputs, not models of /repo code)."""


class Param:
    'identity of a parameter'

    def __init__(self, name, nparams=None):
        self.name = name
        self.prior = self.posterior = Nat(nparams)


class Nat:
    def __init__(self, nparams):
        self.nparams = nparams

    def natural_parameters(self):
        return self.nparams


def modelset(B, llh, params=None, name='ms', log=None):
    '''a ModelSet of K components whose expected log-likelihood is the arbitrary tensor
    llh (N, K); accumulate records its arguments'''
    class Stub(B.beer.models.modelset.ModelSet):
        def __init__(self):
            super().__init__()
            self.params = params or [[Param(name, B.torch.zeros(3, dtype=llh.dtype))]]
            self.calls = []
            self.llh = llh

        def mean_field_factorization(self):
            return [list(g) for g in self.params]

        def sufficient_statistics(self, data):
            return data

        def expected_log_likelihood(self, stats):
            self.stats = stats
            return self.llh

        def accumulate(self, stats, resps):
            self.calls.append((stats, resps))
            return {self.params[0][0]: resps.t() @ stats}

        def __len__(self):
            return llh.shape[-1]

        def __getitem__(self, key):
            return (name, key)
    return Stub()


def history(B, ms, llh, call):
    '''put the object under contract in the state left by an earlier call on other data
    (same number of frames): ms answers with another arbitrary tensor during the call'''
    ms.llh = B.tensor('llh_before', tuple(llh.shape))
    call()
    ms.llh = llh
    ms.calls.clear()
