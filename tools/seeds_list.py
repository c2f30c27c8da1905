# each: id, property, [(file, old, new)], needs, what it breaks, demo
seed('s01-rank-threshold', 'C01', [(R, "rank = (S>1e-5).sum()", "rank = (S>1e-2).sum() # robust to single precision noise")],
     'a group whose generator is close to the identity (large cyclic group)',
     'constraints with small singular values are treated as satisfied, so non-invariant vectors are reported as invariant',
'''
Q = D(V(C(1000)).equivariant_basis())
if Q.shape[1] != 0: die(f'C(1000) has no invariant vectors, got {Q.shape}')
''')
seed('s22-complex-nullspace', 'C22', [(R, "return VH[rank:].conj().T", "return VH[rank:].T")],
     'a user defined complex group with complex invariant vectors', 'the null space of complex constraints is not conjugated',
'''
class Phase(Group):
    def __init__(self):
        u = np.array([1,1j])/np.sqrt(2); w = np.array([1,-1j])/np.sqrt(2)
        self.discrete_generators = (np.outer(u,u.conj()) - np.outer(w,w.conj()))[None]
        super().__init__()
rep = V(Phase())
Q = D(rep.equivariant_basis())
close(D(Phase().discrete_generators[0])@Q, Q, 'not invariant')
''')
seed('s02-projector-transpose', 'C02', [(R, "P = Q_lazy@Q_lazy.H", "P = Q_lazy@Q_lazy.T")],
     'a complex invariant subspace', 'projector of a complex representation is neither Hermitian nor idempotent',
'''
G = SU(2)
for rep in [T(2)(G), T(0,2)(G), T(4)(G)]:
    P = D(rep.equivariant_projector()); close(P@P, P, 'idempotent'); close(P, P.conj().T, 'hermitian')
G = Embed(U(1), 2, slice(0,1))
Q = D(T(1,1)(G).equivariant_basis())
# a complex basis is forced by a complex invariant vector
class Phase(Group):
    def __init__(self):
        u = np.array([1,1j])/np.sqrt(2); w = np.array([1,-1j])/np.sqrt(2)
        self.discrete_generators = (np.outer(u,u.conj()) - np.outer(w,w.conj()))[None]
        super().__init__()
rep = V(Phase())
P = D(rep.equivariant_projector()); close(P@P, P, 'idempotent'); close(P, P.conj().T, 'hermitian')
''')
seed('s03-axis-move', 'C03', [(PS, "order = np.moveaxis(np.moveaxis(order,i,0)[perm,...],0,i)", "order = np.swapaxes(np.moveaxis(order,i,0)[perm,...],0,i)")],
     'three or more factors combined in one step (dual of a product of several factors)', 'factors of products of three or more representations act on the wrong axes',
'''
G = SL(2)
g = np.array([[2.,1.],[3.,2.]],np.float32); h = np.linalg.inv(g).T
for rep, want in [((V(G)*V(G).T*V(G)).T, np.kron(np.kron(h,g),h)), ((V(G).T*V(G)*V(G)*V(G).T).T, np.kron(np.kron(np.kron(g,h),h),g))]:
    close(D(rep.rho(g)), want, str(rep))
S3, O2 = S(3), SO(2)
p = np.eye(3)[[1,2,0]]; r = np.array([[.6,.8],[-.8,.6]])
a = ((V(S3)+V(S3)**2)*V(O2))
''')
seed('s04-sum-drho-perm', 'C04', [(PS, "return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)", "return LazyPerm(self.perm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.invperm)")],
     'a sum whose canonical reordering is not its own inverse', 'Lie algebra representation of a sum acts on the wrong entries',
'''
G = SO(3); A = np.asarray(G.lie_algebra[0])
rep = V(G)+V(G)**2+Scalar+V(G)
E = np.eye(3); A2 = np.kron(A,E)+np.kron(E,A)
import scipy.linalg as sl
close(D(rep.drho(A)), sl.block_diag(A,A2,np.zeros((1,1)),A), 'drho')
''')
seed('s04-dual-hermitian', 'C04', [(R, "return -self.rep.drho(A).T", "A = self.rep.drho(A)\n        return -(A.H if isinstance(A,LinearOperator) else A.conj().T)")],
     'a complex group', 'Lie algebra action of the dual of a complex representation is the wrong one',
'''
G = SU(2)
for A in G.lie_algebra: close(D(V(G).T.drho(A)), -np.asarray(A).T, 'dual drho')
''')
seed('s05-sum-dual-order', 'C05', [(PS, "return SumRep(*[rep.T for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)", "return SumRepFromCollection({rep.T:c for rep,c in self.reps.items()},self.perm)")],
     'dual of a sum of terms whose canonical order changes when they are dualised', 'the dual of a sum is ordered differently from the sum, so solved maps are not equivariant',
'''
G = SL(2); g = np.array([[2.,1.],[3.,2.]],np.float32); h = np.linalg.inv(g).T
import scipy.linalg as sl
for rep in [V(G)+V(G).T, V(G)+Scalar+V(G).T, V(G).T+V(G)+V(G)]:
    close(D(rep.T.rho(g)), np.linalg.inv(D(rep.rho(g))).T, 'dual of sum')
''')
seed('s06-direct-basis', 'C06', [(PS, "return LazyPerm(self.invperm)@canon_Q", "return LazyPerm(self.perm)@canon_Q")],
     'factors of different groups whose reordering is not an involution', 'basis of a mixed product is permuted wrongly',
'''
from functools import reduce
G = [S(3), Z(2), Z(4)]
gens = lambda H: [D(h) for h in H.discrete_generators]
for seq in [(0,1,2),(2,0,1),(1,2,0),(1,0,2),(2,1,0),(0,2,1),(0,1,0),(1,0,1)]:
    rep = reduce(lambda a,b:a*b,[V(G[i]) for i in seq])
    Q = D(rep.equivariant_basis())
    for k in set(seq):
        for h in gens(G[k]):
            M = reduce(np.kron,[h if i==k else np.eye(G[i].d) for i in seq]); close(M@Q, Q, str(seq))
''')
seed('s07-product-eq', 'C07', [(PS, "return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()", "return isinstance(other,ProductRep) and self.reps==other.reps")],
     'the same factors written in a different order', 'products written in a different order compare equal although they act differently',
'''
G = SL(2)
a, b = V(G)*V(G).T, V(G).T*V(G)
g = np.array([[2.,1.],[3.,2.]],np.float32)
if a == b and not np.allclose(D(a.rho(g)), D(b.rho(g))): die('equal but act differently')
''')
seed('s08-eq-ignores-group', 'C08', [(R, "d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])\n        d2 = tuple([(k,v) for k,v in other.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])\n        return d1==d2",
     "skip = ('G','_size','is_permutation','is_orthogonal')\n        d1 = {k:v for k,v in self.__dict__.items() if k not in skip}\n        d2 = {k:v for k,v in other.__dict__.items() if k not in skip}\n        return d1==d2 and self.size()==other.size()"),
     (R, "        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['_size','is_permutation','is_orthogonal'])])\n        return hash((type(self),d1))",
      "        d1 = tuple([(k,v) for k,v in self.__dict__.items() if (k not in ['G','_size','is_permutation','is_orthogonal'])])\n        return hash((type(self),d1))")],
     'the same user defined representation solved with two different groups one after the other', 'cached solutions of one group are reused for another',
'''
class Sq(Rep):
    def __init__(self,G=None): self.G=G
    def __call__(self,G): return Sq(G)
    def __str__(self): return 'Sq'
    def rho(self,M): return jnp.kron(M,M)
    @property
    def T(self): return self
a, b = Sq()(Trivial(3)), Sq()(SO(3))
qa = D(a.equivariant_basis()).shape[1]; qb = D(b.equivariant_basis()).shape[1]
if (qa, qb) != (9, 1): die(f'{qa} {qb}')
''')
seed('s08-size-class-cache', 'C08', [(R, "            self._size = self.rho(self.G.sample()).shape[-1]\n            return self._size", "            cls = type(self) # the size does not depend on the instance\n            if '_sizes' not in cls.__dict__: cls._sizes = {}\n            if str(self) not in cls._sizes: cls._sizes[str(self)] = self.rho(self.G.sample()).shape[-1]\n            return cls._sizes[str(self)]")],
     'a user defined representation used with a second group of another dimension', 'size of a representation depends on the group used before',
'''
class Tw(Rep):
    def __init__(self,G=None): self.G=G
    def __call__(self,G): return Tw(G)
    def __str__(self): return 'Tw'
    def rho(self,M): return jnp.kron(M,M)
a, b = Tw()(SO(2)), Tw()(SO(3))
if (a.size(), b.size()) != (4, 9): die(f'{a.size()} {b.size()}')
''')
seed('s09-rot-k2', 'C09', [(G, "LazyKron([kshift,Rot90(n,4//k)])", "LazyKron([kshift,Rot90(n,1)])")],
     'ZksZnxZn with k=2', 'the 180 degree rotation group uses quarter turns',
'''
g = D(ZksZnxZn(2,3).discrete_generators[2])
close(g@g, np.eye(len(g)), 'order 2')
''')
seed('s09-sp-transpose', 'C09', [(G, "self.lie_algebra[k,m+j,m+i] = -1\n", "self.lie_algebra[k,m+i,m+j] = -1\n")],
     'Sp(m) with m>=2', 'generators of Sp(2) do not preserve the symplectic form',
'''
for m in (1,2,3):
    J = np.block([[np.zeros((m,m)),np.eye(m)],[-np.eye(m),np.zeros((m,m))]])
    for A in np.asarray(Sp(m).lie_algebra): close(A.T@J+J@A, 0*J, 'symplectic')
''')
seed('s10-first-generator', 'C10', [(G, "((h_dense==1).astype(int).sum(-1)==1).all()", "((h_dense[0]==1).astype(int).sum(-1)==1).all()")],
     'several discrete generators of which the first is a permutation', 'a group containing reflections is flagged as a permutation group',
'''
class Hyper(Group):
    def __init__(self):
        self.discrete_generators = np.stack([np.eye(3)[[1,2,0]], np.diag([-1.,1,1])])
        super().__init__()
if Hyper().is_permutation: die('not a permutation group')
G = S(2)*O(1)
h = np.diag([1.,1.])*-1
if G.is_permutation: die('S(2)*O(1)')
''')
seed('s10-loose-orthogonal', 'C10', [(G, "rel_err(h_dense.transpose((0,2,1))@h_dense,jnp.eye(self.d))<1e-6", "rel_err(h_dense.transpose((0,2,1))@h_dense,jnp.eye(self.d))<1e-2")],
     'a generator that is almost orthogonal', 'a group of scalings close to one is treated as orthogonal, so duals are wrong',
'''
class Dilate(Group):
    def __init__(self):
        self.discrete_generators = 1.01*np.eye(2)[None]
        super().__init__()
class Shear(Group):
    def __init__(self):
        self.discrete_generators = np.array([[[1.,.02],[0.,1.]]])
        super().__init__()
for G in (Dilate(), Shear()):
    if G.is_orthogonal: die(f'{G} is not orthogonal')
    h = np.linalg.matrix_power(np.asarray(G.discrete_generators[0]),64)
    close(V(G).T.rho_dense(h), np.linalg.inv(h).T, 'dual')
''')
seed('s10-signed-perm', 'C10', [(G, "((h_dense==1).astype(int).sum(-1)==1).all()", "((h_dense!=0).astype(int).sum(-1)==1).all()")],
     'a group of signed permutations', 'signed permutation groups are flagged as permutation groups',
'''
from emlp.groups import Parity, TimeReversal
if Parity().is_permutation or TimeReversal().is_permutation: die('signed')
''')
seed('s11-few-powers', 'C11', [(G, "k = np.random.randint(-5,5,size=(N,h_dense.shape[0],3))", "k = np.random.randint(0,2,size=(N,h_dense.shape[0],3))")],
     'a cyclic group of order above four', 'some elements of a small finite group can never be drawn',
'''
gs = np.asarray(Z(6).samples(3000))
seen = set(int(np.argmax(g[0])) for g in gs)
if len(seen) != 6: die(seen)
''')
seed('s11-shared-noise', 'C11', [(G, "z = np.random.randn(N,A_dense.shape[0])", "z = np.random.randn(N,1)*np.ones(A_dense.shape[0])")],
     'a Lie algebra of dimension above one', 'only one direction of the Lie algebra is ever drawn',
'''
import scipy.linalg as sl
gs = np.asarray(SO(3).samples(40))
L = np.array([sl.logm(g).real.reshape(-1) for g in gs if np.trace(g) > .5])
if np.linalg.matrix_rank(L, tol=1e-2) < 3: die('directions')
''')
seed('s12-scaled-conj', 'C12', [(LB, "    def _rmatvec(self, x):\n        return np.conj(self.args[1]) * self.args[0].rmatvec(x)", "    def _rmatvec(self, x):\n        return self.args[1] * self.args[0].rmatvec(x)")],
     'an operator scaled by a complex number, transposed and applied to a vector', 'transpose of a complex multiple is wrong',
'''
M = np.arange(9.).reshape(3,3)+1j; x = np.arange(3.)
op = (2+3j)*Lazy(jnp.asarray(M))
close(op.T@jnp.asarray(x), ((2+3j)*M).T@x, 'T'); close(op.rmatvec(jnp.asarray(x)), ((2+3j)*M).conj().T@x, 'rmatvec')
''')
seed('s12-transposed-mat', 'C12', [(LB, "        return np.conj(self.A._rmatmat(np.conj(x)))\n\n    def _rmatmat(self, x):", "        return self.A._rmatmat(x)\n\n    def _rmatmat(self, x):")],
     'transposing a complex operator and applying it to a matrix', 'transpose of a complex operator is its adjoint when applied to matrices',
'''
M = np.arange(9.).reshape(3,3)+1j*np.eye(3)
op = Lazy(jnp.asarray(M)).T
close(op@jnp.eye(3), M.T, 'T'); close(op@jnp.ones(3), M.T@np.ones(3), 'T vec')
''')
seed('s13-capped-rank', 'C13', [(R, "while found_rank==r:", "while found_rank==r and r<20: # larger ranks are too slow")],
     'a large problem with more than 20 solutions', 'only part of the invariant space is returned without an error',
'''
import emlp.reps.representation as rr
C_ = np.zeros((40,40)); C_[:12,:12] = np.eye(12)
Q = np.asarray(rr.krylov_constraint_solve(lazify(jnp.asarray(C_,jnp.float32))))
if Q.shape[1] != 28: die(Q.shape)
''')
seed('s14-flax-bias', 'C14', [(FL, "B = self.Pb@b\n", "B = b\n")],
     'flax layer with non zero bias parameters (it is initialised to zero)', 'flax linear layers stop being equivariant once the bias is trained',
'''
import emlp.nn.flax as fx
G = SO(3); ri, ro = V(G), V(G)
L = fx.Linear(ri,ro); x = jnp.ones((2,3)); p = L.init(jax.random.PRNGKey(0),x)
p = jax.tree_util.tree_map(lambda a: a+1., p)
g = G.sample()
close(L.apply(p,x@g.T), L.apply(p,x)@np.asarray(g).T, 'equivariance')
''')
seed('s14-haiku-invariant-bias', 'C14', [(HK, "Pb = rep_bias.equivariant_projector()", "Pb = 0*rep_bias.equivariant_projector() if not rep_bias.is_permutation else rep_bias.equivariant_projector()")],
     'an output with invariant vectors', 'the haiku linear layer cannot represent invariant biases',
'''
import haiku as hk, emlp.nn.haiku as eh
G = SO(3); L = eh.Linear(V(G), V(G)+Scalar)
f = hk.without_apply_rng(hk.transform(L)); x = jnp.ones((2,3)); p = f.init(jax.random.PRNGKey(0),x)
p = jax.tree_util.tree_map(lambda a: a*0+1., p)
if np.abs(np.asarray(f.apply(p,0*x))).max() < .5: die('no bias')
''')
seed('s15-overlapping-params', 'C15', [(R, "            i = i_end  # (bs,W_mult,d^r)", "            i = i+W_mult  # (bs,W_mult,d^r)")],
     'a representation part with several copies usable for the same map', 'parameters of the bilinear layer are shared between parts and the last ones are never used',
'''
from emlp.reps.representation import bilinear_weights
G = SO(3); rep = 3*Scalar+4*V(G)+2*V(G)**2
n, f = bilinear_weights(rep,rep)
x = jnp.asarray(np.random.randn(rep.size()),jnp.float32)
for i in range(n):
    if np.abs(np.asarray(f(jnp.eye(n)[i],x))).max() == 0: die(f'parameter {i} of {n} unused')
''')
seed('s16-gate-order', 'C16', [(OB, "indices[perm[i:i+rep.size()]] = channels+num_nonscalars", "indices[i:i+rep.size()] = channels+num_nonscalars")],
     'hidden representation not written in canonical order', 'gates are applied to the wrong channels',
'''
G = SO(3); rep = V(G)+2*Scalar+V(G)
N = enn.GatedNonlinearity(rep); L = enn.gated(rep).size()
from emlp.nn import gated
g = np.asarray(G.sample()); x = np.random.randn(gated(rep).size()).astype(np.float32)
M = D(gated(rep).rho(g))
close(N(M@x), D(rep.rho(g))@np.asarray(N(jnp.asarray(x))), 'equivariance')
''')
seed('s17-torch-dup-layers', 'C17', [(PT, "else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]", "else:\n            layer_reps = {c:(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch} # solve each size once\n            middle_layers = list(layer_reps.values())")],
     'a list of channels with repeated entries', 'hidden layers with the same width are dropped',
'''
import emlp.nn.pytorch as pt
m = pt.EMLP(V,Scalar,SO(2),ch=[6,6,9])
if len(m.network) != 4: die(len(m.network))
''')
seed('s17-flax-rep-list', 'C17', [(FL, "else: middle_layers = [(c(group) if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]", "else: middle_layers = [(c if isinstance(c,Rep) else uniform_rep(c,group)) for c in ch]")],
     'a list of representations which have no group yet', 'constructing a flax EMLP from a list of representations fails',
'''
import emlp.nn.flax as fx
fx.EMLP(V,Scalar,SO(2),ch=[2*V+3*Scalar, V+Scalar])
''')
seed('s18-haiku-scale', 'C18', [(HK, "return .1*(W@x[...,None])[...,0]", "return (W@x[...,None])[...,0]/np.sqrt(x.shape[-1])")],
     'comparing frameworks with the same parameters', 'the haiku bilinear layer returns other values than the other frameworks',
'''
import haiku as hk, emlp.nn.haiku as eh, emlp.nn.flax as fx
G = SO(2); rep = 2*Scalar+2*V(G); x = jnp.ones((3,rep.size()))
np.random.seed(3); a = hk.without_apply_rng(hk.transform(eh.BiLinear(rep,rep)))
np.random.seed(3); b = fx.BiLinear(rep,rep)
pa, pb = a.init(jax.random.PRNGKey(0),x), b.init(jax.random.PRNGKey(0),x)
one = lambda p: jax.tree_util.tree_map(lambda q: q*0+1., p)
close(a.apply(one(pa),x), b.apply(one(pb),x), 'bilinear')
''')
seed('s18-alias', 'C18', [(PT, "return torch.from_numpy(np.array(arr)).to(device)", "return torch.from_numpy(np.asarray(arr)).to(device)")],
     'an in-place update of a result that the jax function keeps a reference to', 'results share memory with jax arrays, so that later calls return other values',
'''
import torch, emlp.nn.pytorch as pt
c = jnp.arange(4.)
f = pt.torchify_fn(lambda x: (2*x, c))
a = f(torch.ones(4))[1]
try: a.add_(1)
except RuntimeError: pass
close(f(torch.ones(4))[1].numpy(), np.arange(4.), 'second call')
''')
seed('s19-colliding-draws', 'C19', [(OB, "ragged = sum([T(int(p),rank-int(p),G) for p in ps])", "ragged = sum([T(int(p),rank-int(p),G) for p in set(ps)])")],
     'two equal draws for the left over tensors', 'allocated representation is smaller than requested',
'''
for s in range(20):
    np.random.seed(s)
    for ch in (20, 35, 47):
        n = enn.uniform_rep(ch,SL(2)).size()
        if n != ch: die(f'{n} instead of {ch}')
''')
seed('s20-label-order', 'C20', [(DS, "self.Y = np.repeat(self.Y,20,axis=0)", "self.Y = np.tile(self.Y,20)")],
     'the scrambled Rubik test set', 'labels are attached to other configurations',
'''
from emlp.datasets import BrokenRubiksCube
tr, te = BrokenRubiksCube(), BrokenRubiksCube(train=False)
perms = [np.argmax(D(h),1) for h in te.symmetry.discrete_generators]
orbit, todo = set(), [(0,4*8,3*8+2)] # all positions of a corner piece
while todo:
    t = todo.pop()
    if t not in orbit: orbit.add(t); todo += [tuple(int(p[i]) for i in t) for p in perms]
inv = lambda x: tuple(sorted(tuple(int(np.argmax(x.reshape(6,48)[:,i])) for i in t) for t in orbit))
lab = {inv(x):y for x,y in zip(tr.X,tr.Y)}
for x,y in zip(te.X,te.Y):
    if lab.get(inv(x)) != y: die('label')
''')
seed('s20-per-coordinate', 'C20', [(DS, "self.Xscale = (self.Xscale[:,None]+np.zeros((4,4))).reshape(-1)", "self.Xscale = np.abs(self.X).mean(0)")],
     'a dataset whose coordinates have different mean magnitudes', 'input scale does not commute with the Lorentz group',
'''
from emlp.datasets import ParticleInteraction
s = np.broadcast_to(ParticleInteraction(200).stats[1],(16,)).reshape(4,4)
close(s, s[:,:1]+0*s, 'scale')
''')
seed('s21-shared-element', 'C21', [(DS, "gs = self.G.samples(x.shape[0])", "gs = self.G.samples(1)")],
     'a batch of several items and a model which is not equivariant', 'all items of a batch are augmented by the same group element',
'''
from emlp.datasets import GroupAugmentation
seen = []
def model(x,training): seen.append(np.asarray(x)); return x
A = GroupAugmentation(model,V,V,SO(3))
A(jnp.ones((6,3)),training=True)
if np.allclose(seen[0],seen[0][:1]): die('same element')
''')
seed('s21-transpose-inverse', 'C21', [(DS, "rhout_inv = jnp.linalg.inv(self.rho_out(gs))", "rhout_inv = self.rho_out(gs).transpose((0,2,1))")],
     'a non orthogonal group', 'outputs are not transformed back by the inverse',
'''
from emlp.datasets import GroupAugmentation
x = jnp.asarray(np.random.randn(5,4),jnp.float32)
A = GroupAugmentation(lambda x,training: x,V,V,SO13p())
close(A(x,training=True), x, 'identity model', 1e-2)
''')
seed('s22-inverse-power', 'C22', [(G, "out = jax.lax.cond(n<0,(jnp.linalg.inv(M),-n),body,(M,n),body)", "out = jax.lax.cond(n<0,(M.T,-n),body,(M,n),body)")],
     'a user defined group with a non orthogonal discrete generator', 'samples are not elements of the group',
'''
class Shear(Group):
    def __init__(self):
        self.discrete_generators = np.array([[[1.,1.],[0.,1.]]])
        super().__init__()
for g in np.asarray(Shear().samples(20)):
    close(g[1], [0,1], 'shear')
''')
seed('s22-product-invT', 'C22', [(LB, "return A.invT()*B.invT()", "return B.invT()*A.invT()")],
     'a group given by a lazy product of non commuting, non orthogonal operators', 'duals of lazily given groups are wrong',
'''
A, B = jnp.array([[1.,1.],[0.,1.]]), jnp.array([[0.,1.],[1.,0.]])
class Pr(Group):
    def __init__(self):
        self.discrete_generators = [Lazy(A)@Lazy(B)]
        super().__init__()
g = Pr().discrete_generators[0]
close(D(V(Pr()).T.rho(g)), np.linalg.inv(D(g)).T, 'dual')
''')
seed('s23-basis-layout', 'C23', [(R, "W = W.reshape(repout.size(),repin.size(),-1).transpose((2,0,1))[None]", "W = W.reshape(-1,repout.size(),repin.size())[None]")],
     'a basis of more than one map', 'equivariance error of a correct basis is large',
'''
from emlp.reps import equivariance_error
G = SO(3); ri = ro = V(G)+Scalar
Q = jnp.asarray(D((ri>>ro).equivariant_basis()))
if np.max(np.asarray(equivariance_error(Q,ri,ro,G))) > 1e-2: die('basis reported as not equivariant')
''')
seed('s23-complex-square', 'C23', [(R, "error = jnp.sqrt(jnp.mean(jnp.abs(t1-t2)**2))", "error = jnp.abs(jnp.sqrt(jnp.mean((t1-t2)**2)))")],
     'a complex map whose errors cancel when squared', 'a complex map that is not equivariant is reported as equivariant',
'''
from emlp.reps import equivariance_error
class R2(Group):
    def __init__(self):
        self.discrete_generators = np.diag([1.,-1.])[None]
        super().__init__()
G = R2()
W = jnp.array([[0,1],[1j,0]])
if not any(np.max(np.asarray(equivariance_error(W,V(G),V(G),G))) > 1e-2 for _ in range(8)): die('error not seen')
''')
seed('s24-batch-energy', 'C24', [(HDF, "pe = .5*k1*(jnp.sqrt((x1**2).sum(-1))-l1)**2 ", "pe = .5*k1*(jnp.sqrt((x1**2).sum())-l1)**2 ")],
     'the Hamiltonian of a batch of states', 'energy of a batch is not the sum of the energies',
HD + '''
z = jnp.asarray(np.random.randn(3,12),jnp.float32)
H = lambda z: hd.DoubleSpringPendulum.H(None,z)
close(H(z), sum(H(zi) for zi in z), 'energy of a batch')
''')
seed('s24-chunk-choice', 'C24', [(HDF, "chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]", "chosen_zs = chunked_zs.reshape(batch_size, n_chunks, chunk_len, *z_dim)[np.arange(batch_size), chunk_idx]")],
     'more than one trajectory and more than one chunk per trajectory', 'chunks come from the wrong trajectory (still contiguous, but several from the same trajectory and others never)',
HD + '''
zs = np.arange(3*8*2.).reshape(3,8,2)
c = hd.HamiltonianDataset.chunk_training_data(None,jnp.asarray(zs),2)
for b in range(3):
    if not any(np.array_equal(c[b],zs[b,2*k:2*k+2]) for k in range(4)): die(f'item {b} not from trajectory {b}')
''')
seed('s25-class-collision', 'C25', [(HDF, 'root_dir = os.path.expanduser(f"~/datasets/ODEDynamics/{self.__class__}/")', 'root_dir = os.path.expanduser("~/datasets/ODEDynamics/")')],
     'two systems generated with the same arguments', 'datasets of different systems share a cache entry',
HD + '''
a = hd.SHO(n_systems=3,chunk_len=2,dt=.5,integration_time=2)
b = hd.DoubleSpringPendulum(n_systems=3,chunk_len=2,dt=.5,integration_time=2)
if (a.Zs.shape[-1], b.Zs.shape[-1]) != (2,12): die('shared cache')
''')
seed('s25-chunk-key', 'C25', [(HDF, 'f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz"', 'f"trajectories_{n_systems}_{dt}_{integration_time}.pz"')],
     'two datasets that differ only in the chunk length', 'a dataset with another chunk length is loaded',
HD + '''
a = hd.SHO(n_systems=3,chunk_len=2,dt=.5,integration_time=2)
b = hd.SHO(n_systems=3,chunk_len=4,dt=.5,integration_time=2)
if (a.Zs.shape[1], b.Zs.shape[1]) != (2,4): die('shared cache')
''')
