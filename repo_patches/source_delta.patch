From 427c094b401fab0870b8c3b026705d4d324a38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 01/34] fix: RubiksCube generators now turn the stickers of
 carried faces, so they generate the cube group

---
 emlp/groups.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..36b3163 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -390,14 +390,18 @@ class RubiksCube(Group): #3x3 rubiks cube
         order_padded[FRBL,:3] = order_padded[np.roll(FRBL,1),:3] # F <- L,R <- F,B <- R,L <- B
         Uperm = unpad(order_padded)
         # Now form all other generators by using full rotations of the cube by 90 clockwise about a given face
+        # (the stickers also turn within each of the faces that are carried along)
+        turn = lambda face,k: np.rot90(face.reshape(3,3),k).reshape(9)
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
-        RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        RotFront[URDL,:] = [turn(face,-1) for face in RotFront[np.roll(URDL,1),:]]
+        RotFront[1],RotFront[3] = turn(RotFront[1],-1),turn(RotFront[3],1)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
-        RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        RotLeft[UFDB,:] = [turn(face,k) for face,k in zip(RotLeft[np.roll(UFDB,1),:],[2,0,0,2])]
+        RotLeft[4],RotLeft[2] = turn(RotLeft[4],-1),turn(RotLeft[2],1)
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From c0e42aa2467666734d125aee792e551df397135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 02/34] fix: D(1) is not a permutation group

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 36b3163..930c3ca 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -173,6 +173,7 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_permutation = False # the reflection was not seen by the automatic flag
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From 73e9d9e1bec4fde2ac3bb25b588edcae2dc882bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 03/34] fix: Embed is identified by its slice and accepts
 groups with lazy or complex generators

---
 emlp/groups.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 930c3ca..1f6edc0 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -437,12 +437,16 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
-        self.lie_algebra = np.zeros((G.lie_algebra.shape[0],d,d))
-        self.discrete_generators = np.zeros((G.discrete_generators.shape[0],d,d))
+        # the generators of G may be lazy and may be complex
+        lie_algebra = [np.asarray(Ai@jnp.eye(G.d)) for Ai in G.lie_algebra]
+        discrete_generators = [np.asarray(hi@jnp.eye(G.d)) for hi in G.discrete_generators]
+        dtype = np.result_type(float,*lie_algebra,*discrete_generators)
+        self.lie_algebra = np.zeros((len(lie_algebra),d,d),dtype)
+        self.discrete_generators = np.zeros((len(discrete_generators),d,d),dtype)
         self.discrete_generators += np.eye(d)
-        self.lie_algebra[:,slice,slice] = G.lie_algebra
-        self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        for k,Ai in enumerate(lie_algebra): self.lie_algebra[k,slice,slice] = Ai
+        for k,hi in enumerate(discrete_generators): self.discrete_generators[k,slice,slice] = hi
+        self.name = f"{G}_R{d}{list(range(d)[slice])}"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 376dfc09d2083fdeb4f4428d850cc1c73401f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 04/34] fix: dimension of degenerate groups without generators
 (SU(1), SO(1), S(1), SL(1), embeddings and products of Trivial)

---
 emlp/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 1f6edc0..c819324 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -142,6 +142,7 @@ class Trivial(Group):
 class SO(Group):
     """ The special orthogonal group SO(n) in n dimensions"""
     def __init__(self,n):
+        self.d = n
         self.lie_algebra = np.zeros(((n*(n-1))//2,n,n))
         k=0
         for i in range(n):
@@ -266,6 +267,7 @@ class S(Group): #The permutation group
         perms[:,0] = np.arange(1,n)
         perms[np.arange(n-1),np.arange(1,n)[None]]=0
         self.discrete_generators = [LazyPerm(perm) for perm in perms]
+        self.d = n
         super().__init__(n)
         # We can also have chosen the 2 generator soln described in the paper, but
         # adding superflous extra generators surprisingly can sometimes actually *decrease* 
@@ -276,6 +278,7 @@ class S(Group): #The permutation group
 class SL(Group):
     """ The special linear group SL(n) in n dimensions"""
     def __init__(self,n):
+        self.d = n
         self.lie_algebra = np.zeros((n*n-1,n,n))
         k=0
         for i in range(n):
@@ -328,7 +331,7 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
+        self.d = n
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
@@ -447,6 +450,7 @@ class Embed(Group):
         for k,Ai in enumerate(lie_algebra): self.lie_algebra[k,slice,slice] = Ai
         for k,hi in enumerate(discrete_generators): self.discrete_generators[k,slice,slice] = hi
         self.name = f"{G}_R{d}{list(range(d)[slice])}"
+        self.d = d
         super().__init__()
    
     def __repr__(self):
@@ -471,6 +475,7 @@ def DkeR3(k):
 class DirectProduct(Group):
     def __init__(self,G1,G2):
         I1,I2 = I(G1.d),I(G2.d)
+        self.d = G1.d*G2.d
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
         self.names = (repr(G1),repr(G2))
-- 
2.43.0


From 8864ac28026adce54557b5f70778dce2812f5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 05/34] fix: separate constructor arguments in group names so
 different groups never share one

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index c819324..8cad6cd 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From 4c50623c9cc7c88a58e8dd479969c665b908e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 06/34] fix: instantiating Scalar with a group no longer
 modifies the shared Scalar object

---
 emlp/reps/representation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..eca28e5 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -204,8 +204,7 @@ class ScalarRep(Rep):
         self.G=G
         self.is_permutation = True
     def __call__(self,G):
-        self.G=G
-        return self
+        return self.__class__(G)
     def size(self):
         return 1
     def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-- 
2.43.0


From 1c8cac0d0f15571d1eb592840029fd3efb522422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 07/34] fix: the canonical ordering of representations is a
 consistent total order (scalars first, groups contiguous)

---
 emlp/reps/representation.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index eca28e5..f23428f 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -165,13 +165,15 @@ class Rep(object):
     def __lt__(self, other):
         """ less than defined to disambiguate ordering multiple different representations.
             Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
+        if self==Scalar or other==Scalar: return self==Scalar and other!=Scalar
+        G1,G2 = getattr(self,'G',None),getattr(other,'G',None)
+        if (G1 is None) != (G2 is None): return G2 is None
+        if G1 is not None and G1!=G2: return G1<G2
         if self.size()<other.size(): return True
         if self.size()>other.size(): return False
+        # base representations come first and duals come last
+        order1,order2 = [1-isinstance(rep,Base)+isinstance(rep,Dual) for rep in (self,other)]
+        if order1!=order2: return order1<order2
         return hash(self) < hash(other) #For sorting purposes only
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
@@ -255,9 +257,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -285,9 +284,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From 33190aec6b637870820c14de4ffb410ac36709f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 08/34] fix: sums compare with and hash like any other
 representation, in any order of terms

---
 emlp/reps/product_sum_reps.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..937fa77 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,11 +41,10 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
-        return hash(tuple(self.reps.items()))
+        return hash((tuple(self.reps.items()),tuple(self.perm)))
 
     @property
     def T(self):
-- 
2.43.0


From 143f1cc157c8d2ba3c735e516902b5908ff2d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 09/34] fix: products across groups keep the written order of
 the factors within each group

---
 emlp/reps/product_sum_reps.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 937fa77..17d2ebf 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -44,7 +44,7 @@ class SumRep(Rep):
         return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        return hash((tuple(self.reps.items()),tuple(self.perm)))
+        return hash((tuple(self.reps.items()),self.perm.tobytes()))
 
     @property
     def T(self):
@@ -256,7 +256,7 @@ class ProductRep(Rep):
             self.perm = extra_perm[perm] if extra_perm is not None else perm
 
         self.invperm = np.argsort(self.perm)
-        self.canonical=(self.perm==self.invperm).all()
+        self.canonical=(self.perm==np.arange(len(self.perm))).all()
         Gs = tuple(set(rep.G for rep in self.reps.keys()))
         assert len(Gs)==1, f"Multiple different groups {Gs} in product rep {self}"
         self.G= Gs[0]
@@ -276,8 +276,7 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
-        return hash(tuple(self.reps.items()))
+        return hash((tuple(self.reps.items()),self.perm.tobytes()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
     
@@ -360,11 +359,12 @@ class DirectProduct(ProductRep):
             for rep,c in reps.items():
                 group_dict[rep.G]=group_dict[rep.G]*rep**c
             sub_products = {rep:1 for G,rep in group_dict.items()}
-            self.reps = counter = sub_products
-            self.reps,perm2 = self.compute_canonical([counter],[np.arange(self.size())])
+            # the factors of each group may have to be reordered within that group
+            sub_reps,sub_perms = zip(*[rep.canonicalize() for rep in sub_products])
+            self.reps,perm2 = self.compute_canonical([{rep:1} for rep in sub_reps],sub_perms)
             self.perm = extra_perm[perm[perm2]] if extra_perm is not None else perm[perm2]
         self.invperm = np.argsort(self.perm)
-        self.canonical=(self.perm==self.invperm).all()
+        self.canonical=(self.perm==np.arange(len(self.perm))).all()
         # self.G = tuple(set(rep.G for rep in self.reps.keys()))
         # if len(self.G)==1: self.G= self.G[0]
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
-- 
2.43.0


From 3f745766fad589e4259fbdb8f6d542bf7d08a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 10/34] fix: adjoints, transposes and inverse transposes of
 lazy operators (complex, direct sums, concatenations, swaps, rotations,
 derivative operators)

---
 emlp/reps/linear_operator_base.py |  9 +++---
 emlp/reps/linear_operators.py     | 46 ++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..26c875a 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -555,8 +555,7 @@ class _SumLinearOperator(LinearOperator):
         return A.H + B.H
 
     def invT(self):
-        A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
@@ -623,7 +622,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
@@ -727,9 +726,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return self.A.conj().T@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return self.A.conj().T@v
     def to_dense(self):
         return self.A
     def invT(self):
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..4bfe272 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -17,6 +17,12 @@ def densify(x):
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return x
     else: raise NotImplementedError
 
+def adjoint(M):
+    return M.H if isinstance(M,LinearOperator) else M.conj().T
+
+def invT(M):
+    return M.invT() if isinstance(M,LinearOperator) else jnp.linalg.inv(M).T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -33,6 +39,7 @@ class I(LinearOperator):
 class LazyKron(LinearOperator):
 
     def __init__(self,Ms):
+        if len(Ms)==1: return # __new__ returned the (already initialized) Ms[0]
         self.Ms = Ms
         shape = product([Mi.shape[0] for Mi in Ms]), product([Mi.shape[1] for Mi in Ms])
         #self.dtype=Ms[0].dtype
@@ -48,9 +55,9 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([adjoint(Mi) for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([invT(M) for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
@@ -66,6 +73,7 @@ def kronsum(A,B):
 class LazyKronsum(LinearOperator):
     
     def __init__(self,Ms):
+        if len(Ms)==1: return # __new__ returned the (already initialized) Ms[0]
         self.Ms = Ms
         shape = product([Mi.shape[0] for Mi in Ms]), product([Mi.shape[1] for Mi in Ms])
         #self.dtype=Ms[0].dtype
@@ -85,7 +93,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([adjoint(Mi) for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -111,15 +119,17 @@ class LazyJVP(LinearOperator):
     def _matvec(self,v):
         return self.vjp(v)
     def _rmatmat(self,v):
-        return self.vjp_T(v)
-    
+        return self.vjp_T(v.conj()).conj()
+    def _rmatvec(self,v):
+        return self._rmatmat(v)
+
 
 class ConcatLazy(LinearOperator):
     """ Produces a linear operator equivalent to concatenating
         a collection of matrices Ms along axis=0 """
     def __init__(self,Ms):
         self.Ms = Ms
-        assert all(M.shape[0]==Ms[0].shape[0] for M in Ms),\
+        assert all(M.shape[1]==Ms[0].shape[1] for M in Ms),\
              f"Trying to concatenate matrices of different sizes {[M.shape for M in Ms]}"
         shape = (sum(M.shape[0] for M in Ms),Ms[0].shape[1])
         super().__init__(None,shape)
@@ -127,18 +137,20 @@ class ConcatLazy(LinearOperator):
     def _matmat(self,V):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
-        Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        Vs = jnp.split(V,np.cumsum([M.shape[0] for M in self.Ms])[:-1])
+        return sum([adjoint(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
+    def _rmatvec(self,v):
+        return self._rmatmat(v)
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
     
 class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
-        self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
+        self.Ms = [jax.device_put(M.astype(np.complex64 if np.iscomplexobj(M) else np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
+                      sum(Mi.shape[1]*c for Mi,c in zip(Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -149,9 +161,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([adjoint(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([invT(M) for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
@@ -210,8 +222,8 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
-        return V
+        rows = np.array(self.swaprows)
+        return jnp.asarray(V).at[rows].set(V[rows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
     def _adjoint(self):
@@ -229,5 +241,7 @@ class Rot90(LinearOperator):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
     def _matvec(self,V):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
+    def _adjoint(self):
+        return Rot90(self.n,-self.k)
     def invT(self):
-        return self
\ No newline at end of file
+        return self
-- 
2.43.0


From aec565195a6508ee3e07c4b60e7909ff34e4fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 11/34] fix: derivative representation of custom
 representations for complex groups and lazy Lie algebra elements

---
 emlp/reps/representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index f23428f..eccfeac 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -39,7 +39,8 @@ class Rep(object):
         
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        In = jnp.eye(A.shape[0])
+        A = jnp.asarray(densify(A))
+        In = jnp.eye(A.shape[0],dtype=A.dtype)
         return LazyJVP(self.rho,In,A)
 
     def __call__(self,G):
-- 
2.43.0


From de4de7e60e7c448f4b3788a32db2791e2067445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 12/34] fix: bases and projectors of sums support adjoints;
 instantiating a sum with a group keeps all its terms

---
 emlp/reps/product_sum_reps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 17d2ebf..514a8c0 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -5,7 +5,7 @@ import collections,itertools
 from functools import lru_cache as cache
 from .representation import Rep,ScalarRep,Scalar
 from .linear_operator_base import LinearOperator
-from .linear_operators import LazyPerm,LazyDirectSum,LazyKron,LazyKronsum,I,lazy_direct_matmat,lazify,product
+from .linear_operators import LazyPerm,LazyDirectSum,LazyKron,LazyKronsum,I,lazy_direct_matmat,lazify,product,adjoint
 from functools import reduce
 from collections import defaultdict
 from plum import dispatch
@@ -65,7 +65,7 @@ class SumRep(Rep):
         return SumRepFromCollection(self.reps),self.perm
 
     def __call__(self,G):
-        return SumRepFromCollection({rep(G):c for rep,c in self.reps.items()},perm=self.perm)
+        return SumRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
 
     @property
     def concrete(self):
@@ -75,12 +75,14 @@ class SumRep(Rep):
         """ Overrides default implementation with a more efficient version which decomposes the constraints
             across the sum."""
         Qs = {rep: rep.equivariant_basis() for rep in self.reps}
-        Qs = {rep: (jax.device_put(Q.astype(np.float32)) if isinstance(Q,(np.ndarray)) else Q) for rep,Q in Qs.items()}
+        Qs = {rep: (jax.device_put(Q) if isinstance(Q,(np.ndarray)) else Q) for rep,Q in Qs.items()}
         active_dims = sum([self.reps[rep]*Qs[rep].shape[-1] for rep in Qs.keys()])
         multiplicities = self.reps.values()
         def lazy_Q(array):
             return lazy_direct_matmat(array,Qs.values(),multiplicities)[self.invperm]
-        return LinearOperator(shape=(self.size(),active_dims),matvec=lazy_Q,matmat=lazy_Q)
+        def lazy_QH(array):
+            return lazy_direct_matmat(array[self.perm],[adjoint(Q) for Q in Qs.values()],multiplicities)
+        return LinearOperator(shape=(self.size(),active_dims),matvec=lazy_Q,matmat=lazy_Q,rmatvec=lazy_QH,rmatmat=lazy_QH)
 
     def equivariant_projector(self):
         """ Overrides default implementation with a more efficient version which decomposes the constraints
@@ -89,7 +91,7 @@ class SumRep(Rep):
         multiplicities = self.reps.values()
         def lazy_P(array):
             return lazy_direct_matmat(array[self.perm],Ps.values(),multiplicities)[self.invperm]#[:,self.invperm]
-        return LinearOperator(shape=(self.size(),self.size()),matvec=lazy_P,matmat=lazy_P)
+        return LinearOperator(shape=(self.size(),self.size()),matvec=lazy_P,matmat=lazy_P,rmatvec=lazy_P,rmatmat=lazy_P)
 
     # ##TODO: investigate why these more idiomatic definitions with Lazy Operators end up slower
     # def equivariant_basis(self):
-- 
2.43.0


From bd0088afccd802380d156b7ef599128a04747af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 13/34] fix: gates and bilinear weights accept any hidden
 representation (single tensors, duals, scalars, mixed)

---
 emlp/nn/objax.py            | 8 ++++----
 emlp/reps/representation.py | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..5dba1aa 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -70,9 +70,9 @@ def gated(ch_rep:Rep) -> Rep:
         reps in the input. To be used as the output for linear (and or bilinear) layers directly
         before a :func:`GatedNonlinearity` to produce its scalar gates. """
     if isinstance(ch_rep,SumRep):
-        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
+        return ch_rep+sum([Scalar for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
     else:
-        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
+        return ch_rep+Scalar if not ch_rep.is_permutation else ch_rep
 
 @export
 class GatedNonlinearity(Module):
@@ -333,12 +333,12 @@ def gate_indices(ch_rep:Rep) -> jnp.ndarray:
     """ Indices for scalars, and also additional scalar gates
         added by gated(sumrep)"""
     channels = ch_rep.size()
-    perm = ch_rep.perm
     indices = np.arange(channels)
 
     if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
+        return indices if ch_rep.is_permutation else np.full(channels,channels)
 
+    perm = ch_rep.perm
     num_nonscalars = 0
     i=0
     for rep in ch_rep:
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index eccfeac..cea2177 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -413,11 +413,12 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
-    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
+    SumRep = emlp.reps.product_sum_reps.SumRep
+    x_rep = in_rep if isinstance(in_rep,SumRep) else SumRep(in_rep)
+    W_rep = x_rep>>out_rep
+    W_rep,W_perm = (W_rep if isinstance(W_rep,SumRep) else SumRep(W_rep)).canonicalize()
     inv_perm = np.argsort(W_perm)
     mat_shape = out_rep.size(),in_rep.size()
-    x_rep=in_rep
     W_multiplicities = W_rep.reps
     x_multiplicities = x_rep.reps
     x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-- 
2.43.0


From 39315dbce784cc46d759dd2027f15f6ef2350343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 14/34] fix: group augmentation of the bundled datasets
 (concrete representations, dense matrices)

---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..443000a 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in = rep_in if rep_in.concrete else rep_in(group)
+        self.rep_out = rep_out if rep_out.concrete else rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From f1a0ca332af607fc9470dbabca30cd1d48517e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 15/34] fix: Standardize can wrap the PyTorch EMLP and MLP

---
 emlp/nn/pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..30276db 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -163,7 +163,7 @@ class EMLP(nn.Module):
             *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
             Linear(reps[-1],self.rep_out)
         )
-    def forward(self,x):
+    def forward(self,x,training=True):
         return self.network(x)
 
 class Swish(nn.Module):
@@ -189,7 +189,7 @@ class MLP(nn.Module):
             nn.Linear(chs[-1],cout)
         )
 
-    def forward(self,x):
+    def forward(self,x,training=True):
         y = self.net(x)
         return y
 
-- 
2.43.0


From bcf4f467c0d9ddb34e5d9f6faae79d5f80de1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 16/34] fix: cached trajectory datasets can be loaded back and
 are written atomically

---
 experiments/trainer/hamiltonian_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index be84aeb..044867f 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -91,12 +91,14 @@ class HamiltonianDataset(Dataset):
         filename = os.path.join(root_dir, f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz")
 
         if os.path.exists(filename) and not regen:
-            Zs = torch.load(filename)
+            Zs = torch.load(filename, weights_only=False) # the saved trajectories are a numpy array
         else:
             zs = self.generate_trajectory_data(n_systems, dt, integration_time)
             Zs = np.asarray(self.chunk_training_data(zs, chunk_len))
             os.makedirs(root_dir, exist_ok=True)
-            torch.save(Zs, filename)
+            tmp_filename = f"{filename}.{os.getpid()}.tmp" # so that an interruption never leaves a partial file
+            torch.save(Zs, tmp_filename)
+            os.replace(tmp_filename, filename)
         
         self.Zs = Zs
         self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
-- 
2.43.0


From 48802c69fd4550e57d3c4055d7e63de74edba403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 17/34] fix: trajectory chunks always have the requested length
 and time grid

---
 experiments/trainer/hamiltonian_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 044867f..ebad8c4 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -101,7 +101,7 @@ class HamiltonianDataset(Dataset):
             os.replace(tmp_filename, filename)
         
         self.Zs = Zs
-        self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
+        self.T = np.asarray(dt*jnp.arange(chunk_len))
         self.T_long = np.asarray(jnp.arange(0,integration_time,dt))
 
     def __len__(self):
@@ -130,7 +130,7 @@ class HamiltonianDataset(Dataset):
         batch_size, traj_len, *z_dim = zs.shape
         n_chunks = traj_len // chunk_len
         chunk_idx = np.random.randint(0, n_chunks, (batch_size,))
-        chunked_zs = np.stack(np.split(zs,n_chunks, axis=1))
+        chunked_zs = np.stack(np.split(zs[:, :n_chunks*chunk_len],n_chunks, axis=1))
         chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]
         return chosen_zs
 
-- 
2.43.0


From bb96aee7a588443f07de57c210ea0d5b9a462b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 18/34] fix: retry the basis computation in double precision
 when the single precision SVD fails

---
 emlp/reps/representation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index cea2177..3f54d39 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -300,6 +300,9 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if not jnp.isfinite(S).all(): # LAPACK does not always converge in single precision
+        proj = np.asarray(proj).astype(np.complex128 if jnp.iscomplexobj(proj) else np.float64)
+        U,S,VH = map(device_put,np.linalg.svd(proj,full_matrices=True))
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From e11818ea599dd2f61501fff678cc1d8650229f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 19/34] fix: Kronecker operators with an empty factor can be
 applied (bases of mixed products without invariants)

---
 emlp/reps/linear_operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 4bfe272..b5b4b13 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -48,10 +48,10 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],v.shape[1] if v.ndim>1 else 1)
         for i,M in enumerate(self.Ms):
-            ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            ev_front = jnp.moveaxis(ev,i,0) # (a dimension can be 0, so no -1 in the reshapes)
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-- 
2.43.0


From 743f3206a04d35ca9f45978f98421ffefe02da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 20/34] fix: the iterative solver finds the complex solutions
 of complex constraints

---
 emlp/reps/representation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 3f54d39..a3c01e2 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -326,6 +326,8 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
         objective |CQ|^2, which provably converges at an exponential rate."""
     W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
+    if jnp.issubdtype(jax.eval_shape(lambda W: C@W,W).dtype,jnp.complexfloating): # solutions can be complex too
+        W = W + 1j*np.random.randn(*W.shape)/np.sqrt(C.shape[-1])
     W = device_put(W)
     opt_init,opt_update = optax.sgd(lr,.9)
     opt_state = opt_init(W)  # init stats
@@ -343,7 +345,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
+        updates, opt_state = opt_update(jnp.conj(grad), opt_state, W)
         W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-- 
2.43.0


From 08abfeb1ec8cde08b25d9cc5a877488c30988a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 21/34] fix: the iterative solver can return the whole space
 when it is small

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index a3c01e2..c02a99a 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -371,7 +371,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     # final_L
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
+    scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0


From 47e120f13a1e3ab1f33a3024420fbc324e806e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 22/34] fix: concrete tensor products can be instantiated with
 a group (as given to EMLP)

---
 emlp/reps/product_sum_reps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 514a8c0..6b25f65 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -277,6 +277,9 @@ class ProductRep(Rep):
         canonical_lazy = LazyKronsum([rep.drho(As) for rep,c in self.reps.items() for _ in range(c)])
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
+    def __call__(self,G):
+        return ProductRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+
     def __hash__(self):
         return hash((tuple(self.reps.items()),self.perm.tobytes()))
     def __eq__(self, other): #TODO: worry about non canonical?
@@ -388,6 +391,9 @@ class DirectProduct(ProductRep):
         canonical_lazy = LazyKronsum([rep.drho(As) for rep,c in self.reps.items() for _ in range(c)])
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
+    def __call__(self,G): # belongs to several groups
+        raise NotImplementedError
+
     def __str__(self):
         superscript = str.maketrans("0123456789", "⁰¹²³⁴⁵⁶⁷⁸⁹")
         return "⊗".join([str(rep)+f"_{rep.G}" for rep,c in self.reps.items()])
-- 
2.43.0


From 37039b1182b5fdc074baa23ae4766757535d166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 23/34] fix: torchify_fn keeps the gradients of nested
 arguments and outputs, several outputs and non-differentiable arguments

---
 emlp/nn/pytorch.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index 30276db..7db4603 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -53,17 +53,30 @@ def torchify_fn(function):
         back to torch but preserving the gradients of the operation to be called
         with pytorch autograd. """
     vjp = jit(lambda *args: jax.vjp(function,*args))
-    class torched_fn(Function):
+    class torched_fn(Function): # acts on the leaves, autograd only follows tensors which are direct arguments
         @staticmethod
-        def forward(ctx,*args):
+        def forward(ctx,trees,*leaves):
+            args = tree_unflatten(trees['in'],[torch2jax(v) for v in leaves])
             if any(ctx.needs_input_grad):
-                y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
-                return to_pytorch(y)
-            return to_pytorch(function(*to_jax(args)))
+                y,ctx.vjp_fn = vjp(*args)#jax.vjp(function,*to_jax(args))
+            else: y = function(*args)
+            ys,ctx.tree_out = tree_flatten(y)
+            trees['out'] = ctx.tree_out
+            ctx.int_shapes = [None if jnp.issubdtype(jnp.result_type(v),jnp.inexact) else jnp.shape(v) for v in ys]
+            return tuple(jax2torch(v) for v in ys)
         @staticmethod
         def backward(ctx,*grad_outputs):
-            return to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))
-    return torched_fn.apply #TORCHED #Roasted
+            # integer outputs and inputs are not differentiable: their (co)tangents have type float0
+            cotangents = [torch2jax(g) if shape is None else np.zeros(shape,jax.dtypes.float0)
+                            for g,shape in zip(grad_outputs,ctx.int_shapes)]
+            grads,_ = tree_flatten(ctx.vjp_fn(tree_unflatten(ctx.tree_out,cotangents)))
+            return (None,*[jax2torch(g) if needed else None for g,needed in zip(grads,ctx.needs_input_grad[1:])])
+    def torched(*args):
+        leaves,tree_in = tree_flatten(args)
+        trees = {'in':tree_in}
+        ys = torched_fn.apply(trees,*leaves)
+        return tree_unflatten(trees['out'],ys)
+    return torched #TORCHED #Roasted
 
 
 @export
-- 
2.43.0


From 53bc0942960e30f2d127c636988e950283fe1d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 24/34] fix: gradients of complex torchified functions follow
 pytorch's convention

---
 emlp/nn/pytorch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index 7db4603..f5a11ed 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -20,7 +20,7 @@ from emlp.nn import gated,gate_indices,uniform_rep
 
 def torch2jax(arr):
     if isinstance(arr,torch.Tensor):
-        return jnp.asarray(arr.cpu().data.numpy())
+        return jnp.asarray(arr.cpu().data.resolve_conj().resolve_neg().numpy())
     else:
         return arr
 
@@ -67,10 +67,11 @@ def torchify_fn(function):
         @staticmethod
         def backward(ctx,*grad_outputs):
             # integer outputs and inputs are not differentiable: their (co)tangents have type float0
-            cotangents = [torch2jax(g) if shape is None else np.zeros(shape,jax.dtypes.float0)
+            # and pytorch gradients are the complex conjugates of jax cotangents
+            cotangents = [jnp.conj(torch2jax(g)) if shape is None else np.zeros(shape,jax.dtypes.float0)
                             for g,shape in zip(grad_outputs,ctx.int_shapes)]
             grads,_ = tree_flatten(ctx.vjp_fn(tree_unflatten(ctx.tree_out,cotangents)))
-            return (None,*[jax2torch(g) if needed else None for g,needed in zip(grads,ctx.needs_input_grad[1:])])
+            return (None,*[jax2torch(jnp.conj(g)) if needed else None for g,needed in zip(grads,ctx.needs_input_grad[1:])])
     def torched(*args):
         leaves,tree_in = tree_flatten(args)
         trees = {'in':tree_in}
-- 
2.43.0


From b559c0936871323083717fde2060d196c0c0628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 25/34] fix: the PyTorch Standardize accepts the statistics of
 the datasets (numpy arrays)

---
 emlp/nn/pytorch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index f5a11ed..7779a60 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -225,10 +225,14 @@ class Standardize(nn.Module):
         self.ds_stats=ds_stats
 
     def forward(self,x,training):
-        if len(self.ds_stats)==2:
-            muin,sin = self.ds_stats
+        # the stats of the datasets are numpy arrays
+        dtype = x.dtype if x.is_floating_point() or x.is_complex() else torch.get_default_dtype()
+        stats = [torch.as_tensor(s if torch.is_tensor(s) else np.asarray(s),dtype=dtype,device=x.device)
+                 for s in self.ds_stats]
+        if len(stats)==2:
+            muin,sin = stats
             return self.model((x-muin)/sin,training=training)
         else:
-            muin,sin,muout,sout = self.ds_stats
+            muin,sin,muout,sout = stats
             y = sout*self.model((x-muin)/sin,training=training)+muout
             return y
-- 
2.43.0


From a4b2c14dc87ae986d00a06974dbea82ffd62eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 26/34] fix: groups whose generators differ are different, also
 if their class and arguments are the same

---
 emlp/groups.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 8cad6cd..173aa58 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -90,7 +90,18 @@ class Group(object,metaclass=Named):
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-        return repr(self)==repr(G2)
+        if self is G2: return True
+        # the name alone does not determine the group (e.g. if no args were passed to __init__)
+        return repr(self)==repr(G2) and self.generator_actions()==G2.generator_actions()
+
+    def generator_actions(self):
+        """ The generators applied to a fixed vector (hashable), to tell different groups apart"""
+        if not hasattr(self,'_generator_actions'):
+            v = np.cos(np.arange(1,self.d+1)).astype(np.float32)
+            with jax.ensure_compile_time_eval():
+                self._generator_actions = tuple(tuple(np.asarray(M@v).tobytes() for M in generators)
+                                            for generators in (self.lie_algebra,self.discrete_generators))
+        return self._generator_actions
         
     def __hash__(self):
         return hash(repr(self))
-- 
2.43.0


From 572df8c45bdbdd90d3f9fd19107aa67fc420cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 27/34] fix: sampling from groups with complex discrete
 generators

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 173aa58..08f9551 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -115,7 +115,7 @@ class Group(object,metaclass=Named):
 
 @jit
 def matrix_power_simple(M,n):
-    out = jnp.eye(M.shape[-1])
+    out = jnp.eye(M.shape[-1],dtype=M.dtype)
     body = lambda Mn: jax.lax.fori_loop(0,Mn[1],lambda i,g: Mn[0]@g,out)
     out = jax.lax.cond(n<0,(jnp.linalg.inv(M),-n),body,(M,n),body)
     return out
-- 
2.43.0


From 9744c51f98261fbcdcd18ccdf324483d06e413e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 28/34] fix: LinearOperator subclasses written as documented
 (no call to __init__) have duals, sums and transposes

---
 emlp/reps/linear_operator_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 26c875a..836fb75 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -114,6 +114,7 @@ class LinearOperator(object):
     """
 
     ndim = 2
+    dtype = None # for subclasses that don't call __init__
 
     def __new__(cls, *args, **kwargs):
         if cls is LinearOperator:
@@ -429,6 +430,10 @@ class LinearOperator(object):
             multiplying by the identity """
         return self@np.eye(self.shape[-1])
 
+    def invT(self):
+        """ Default implementation of the inverse transpose, computed densely"""
+        return Lazy(np.linalg.inv(self.to_dense()).T)
+
 
 class _CustomLinearOperator(LinearOperator):
     """Linear operator defined in terms of user-specified operations."""
@@ -522,9 +527,9 @@ def _get_dtype(operators, dtypes=None):
     if dtypes is None:
         dtypes = []
     for obj in operators:
-        if obj is not None and hasattr(obj, 'dtype'):
+        if getattr(obj, 'dtype', None) is not None:
             dtypes.append(obj.dtype)
-    return dtypes[0]#removed find_common_dtypes because not supported in jax
+    return dtypes[0] if dtypes else None #removed find_common_dtypes because not supported in jax
 
 
 class _SumLinearOperator(LinearOperator):
-- 
2.43.0


From 3560754e48f7f352819e8c7123ab4735f5f51858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 29/34] fix: groups with the same name and different generators
 are ordered consistently

---
 emlp/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 08f9551..e65c37c 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -108,6 +108,8 @@ class Group(object,metaclass=Named):
 
     def __lt__(self, other):
         """ For sorting purposes only """
+        if hash(self) == hash(other): # same name but possibly different generators
+            return self.generator_actions() < other.generator_actions()
         return hash(self) < hash(other)
 
     def __mul__(self,other):
-- 
2.43.0


From 61fc567c124a878c97ead6ceb1f014ad6ad9b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 30/34] fix: a small rotation is not a permutation although its
 cosine rounds to one

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index e65c37c..b08cc84 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -54,6 +54,7 @@ class Group(object,metaclass=Named):
             if len(self.discrete_generators)!=0:
                 h_dense = jnp.stack([hi@jnp.eye(self.d) for hi in self.discrete_generators])
                 self.is_permutation &= ((h_dense==1).astype(int).sum(-1)==1).all()
+                self.is_permutation &= ((jnp.abs(h_dense)>1e-6).astype(int).sum(-1)==1).all() # a small rotation has cos==1
 
     def exp(self,A):
         """ Matrix exponential """
-- 
2.43.0


From 4db2a71a95cad7cf0e8dcb5472e6769fcf4f0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 31/34] fix: flows and gradients of a neural ODE used the
 parameters it was first traced with

jit remembers the model object it is given, so BOdeFlow returned the rollouts for old parameters, or failed
with a leaked tracer; the gradient in IntegratedODETrainer could be 0.
---
 experiments/trainer/hamiltonian_dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index ebad8c4..d8fb4bc 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -65,8 +65,9 @@ def BOdeFlow(dynamics,z0,T,tol=1e-4):
     """ Batched integration of ODE dynamics into rollout trajectories.
         Given dynamics (state_dim->state_dim) and z0 of shape (bs,state_dim)
         and T of shape (t,) outputs trajectories (bs,t,state_dim) """
-    dynamics = jit(vmap(jit(dynamics),(0,None)))
-    return odeint(dynamics, z0, T, rtol=tol).transpose((1,0,2))
+    # a new function each time, as jit would reuse the parameters it saw the model with before
+    batched = jit(vmap(lambda z,t: dynamics(z,t),(0,None)))
+    return odeint(batched, z0, T, rtol=tol).transpose((1,0,2))
 
 class HamiltonianDataset(Dataset):
     """ A dataset that generates trajectory chunks from integrating the Hamiltonian dynamics
-- 
2.43.0


From 1e3e66a2dccb2a19d17c80a645966c11df48f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 32/34] fix: a model's vars() failed once it had a
 RegressorPlus or ClassifierPlus

The compiled predict method was a Module and so became part of the model's variables.
---
 experiments/trainer/model_trainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experiments/trainer/model_trainer.py b/experiments/trainer/model_trainer.py
index 93ff188..2103e15 100644
--- a/experiments/trainer/model_trainer.py
+++ b/experiments/trainer/model_trainer.py
@@ -34,7 +34,8 @@ class RegressorPlus(Regressor):
         super().__init__(model,*args,**kwargs)
         fastloss = objax.Jit(self.loss,model.vars())
         self.gradvals = objax.Jit(objax.GradValues(fastloss,model.vars()),model.vars())
-        self.model.predict = objax.Jit(objax.ForceArgs(model.__call__,training=False),model.vars())
+        predict = objax.Jit(objax.ForceArgs(model.__call__,training=False),model.vars())
+        self.model.predict = lambda x: predict(x) # not a Module, which would become part of model.vars()
         #self.model.predict = lambda x: self.model(x,training=False)
     def loss(self,minibatch):
         """ Standard cross-entropy loss """
@@ -61,7 +62,8 @@ class ClassifierPlus(Classifier):
         
         fastloss = objax.Jit(self.loss,model.vars())
         self.gradvals = objax.Jit(objax.GradValues(fastloss,model.vars()),model.vars())
-        self.model.predict = objax.Jit(objax.ForceArgs(model.__call__,training=False),model.vars())
+        predict = objax.Jit(objax.ForceArgs(model.__call__,training=False),model.vars())
+        self.model.predict = lambda x: predict(x) # not a Module, which would become part of model.vars()
         #self.model.predict = lambda x: self.model(x,training=False)
     
 
-- 
2.43.0


From 33bb810cd2579a0c3751849fe92cca57d488c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 33/34] fix: reported metrics gave the examples of a small last
 minibatch too much weight

---
 experiments/trainer/trainer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 180b7d6..8b87d7d 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -96,8 +96,7 @@ class Trainer(object,metaclass=Named):
     def evalAverageMetrics(self,loader,metrics):
         num_total, loss_totals = 0, 0
         for minibatch in loader:
-            try: mb_size = loader.batch_size
-            except AttributeError: mb_size=1
+            mb_size = len(jax.tree_util.tree_leaves(minibatch)[0])
             loss_totals += mb_size*metrics(minibatch)
             num_total += mb_size
         if num_total==0: raise KeyError("dataloader is empty")
-- 
2.43.0


From 2b18ec99a81718225a59c109b9a248ccae5f440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 34/34] fix: training for no epochs advanced the epoch counter
 and logged at step 0

---
 experiments/trainer/trainer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 8b87d7d..914b16c 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -55,14 +55,15 @@ class Trainer(object,metaclass=Named):
     def train(self, num_epochs=100):
         """ The main training loop"""
         start_epoch = self.epoch
-        steps_per_epoch = len(self.dataloaders['train']); step=0
+        steps_per_epoch = len(self.dataloaders['train'])
+        step = max(start_epoch*steps_per_epoch-1,0)
         for self.epoch in tqdm(range(start_epoch, start_epoch + num_epochs),desc='train'):
             for i, minibatch in enumerate(self.dataloaders['train']):
                 step = i + self.epoch*steps_per_epoch
                 self.step(self.epoch+i/steps_per_epoch,minibatch)
                 with self.logger as do_log:
                     if do_log: self.logStuff(step, minibatch)
-        self.epoch+=1
+        self.epoch = start_epoch + num_epochs
         self.logStuff(step)
 
     def step(self, epoch, minibatch):
-- 
2.43.0

