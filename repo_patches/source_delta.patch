From 8475ac5dae02a5a0e97d522e8f464d2a359a434b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 01/41] fix: pair each space-group rotation with its own
 translation

get_lattice_pointGroup returns matrices that act on row vectors and
_get_dvector_permutations uses them that way, but get_spaceGroup applied
them to column vectors when it derived the fractional translation.  For
multi-atom bases the basis-site permutation therefore belonged to R^T
with the translation of R, giving wrong supercell groups (diamond, bcc
as sc+2) or 'd-vector didn't permute' exits (basis away from origin).
---
 phenum/grouptheory.py | 1 +
 phenum/symmetry.py    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..04e6065 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -749,6 +749,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     a_type = [1]*len(bas_vecs)
     
     (sgrots,sgshifts) = get_spaceGroup(par_lat,a_type,bas_vecs,eps)
+    sgrots = [np.transpose(rot).tolist() for rot in sgrots]
     (fixing_ops,RPList,degeneracy) = _get_sLV_fixing_operations(HNF,par_lat,sgrots,sgshifts,
                                                                 par_rp_list,eps)
 
diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..64ff36d 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -318,7 +318,7 @@ def get_spaceGroup(par_lat,atomType,bas_vecs,eps=1E-10,lattcoords = False):
     # Apply each of the point operators in the point group to the crystal
     for op in lattpg_op:
         # rotate atom 1 and store its position in the vector v
-        v = numpy.matmul(op,atom_pos[0])
+        v = numpy.matmul(atom_pos[0],op)
         # Loop over all possible fractional translations
         for jAtom in range(n_atoms):
             if (atomType[jAtom] != atomType[0]):
@@ -329,7 +329,7 @@ def get_spaceGroup(par_lat,atomType,bas_vecs,eps=1E-10,lattcoords = False):
             for kAtom in range(n_atoms):
                 this_type = atomType[kAtom]
                 # Rotate and translate each atom        
-                v2 = numpy.matmul(op,atom_pos[kAtom])
+                v2 = numpy.matmul(atom_pos[kAtom],op)
                 v2 = [v2[i] + fract[i] for i in range(3)]
                 v2 = bring_into_cell(v2, cart_to_latt, latt_to_cart, eps)
                 
-- 
2.43.0


From 5249591fc9567cf8936b3777673cb2332c3d599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 02/41] fix: do not require axis-permuting rotations when no
 displacements are enumerated

Hexagonal (and any lattice whose rotations mix the cartesian axes) made
get_sym_group print a message and exit even for plain colourings, because
the displacement permutation was validated although it was never used.
Also store the displacement permutation as a list of ints, so that a
supercell with a single rotation can be enumerated with displacements.
---
 phenum/enumeration.py | 3 ++-
 phenum/grouptheory.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..5b75ede 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -79,11 +79,12 @@ def _polya_out(args):
         out.write('{0: <50}\n'.format("Total"))
 
         a_concs = pb.get_arrow_concs(params)
+        arrows = sum(a_concs) != 0
         conc_totals = [0 for i in range(len(c_list))]
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,arrows=arrows)
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 04e6065..de2a315 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -612,7 +612,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             skip[jm] = True
                             break
 
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                if np.count_nonzero(dgp == 0) > 1 or (arrows and np.count_nonzero(dap == 0) > 1): #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
                     exit()
 
@@ -620,7 +620,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             # record the permutation
             # permutation in the "long form"
             temp_rperms_perm.append(np.transpose(dgp).reshape(n_d*n).tolist()) # store
-            temp_arrow_perm.append(dap)
+            temp_arrow_perm.append([int(i) for i in dap])
 
         # nomenclature:
         # N+t = rotation (N) + fractional translation (t)  (me bethinks....)
-- 
2.43.0


From 61b6620e2837cd603ca0b989c1657a0a559ee6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 03/41] fix: use each species' own denominator in restricted
 concentrations

get_concs_for_size scaled every species' range with the first species'
denominator, so ranges given over different denominators lost valid
concentrations.
---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 64ff36d..9ea5915 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,9 +33,9 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
+            denom = atom[2]
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
-- 
2.43.0


From bd424d8333b61e115496fc6a3623d2e769be3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 04/41] fix: keep Polya counts and multinomials in exact
 integers

The multinomial coefficients were accumulated with float division and the
group average was taken in floating point, so counts above 2**53 were
wrong; numpy integers overflowed in binomial_coefficient/multinomial.
---
 phenum/numerics.py      | 9 +++++++--
 phenum/polyaburnside.py | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..596e025 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -38,6 +38,8 @@ def binomial_coefficient(n, k):
        t (int): The binomial coefficient, n choose k.
 
     """
+    # python integers don't overflow, numpy integers do.
+    n, k = int(n), int(k)
     if not (-1 < k < n+1):
         return 0
     if k==0 and n == 0:
@@ -59,7 +61,7 @@ def multinomial(n):
     Args:
         n (list): the interegs to be used.
     """
-    binomials = [[np.sum(n),n[0]]]
+    binomials = [[sum(n),n[0]]]
     for i in range(1,len(n)):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
@@ -68,4 +70,7 @@ def multinomial(n):
     for b in binomials:
         bins.append(binomial_coefficient(b[0],b[1]))
     
-    return np.prod(bins)
+    result = 1
+    for b in bins:
+        result *= b
+    return result
diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..f48939d 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return int(rad//len(group))
-- 
2.43.0


From 840dc5d6fe4732a382e964c2877457939c550643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 05/41] fix: compare the arrows of every site when looking for
 super-periodic displacements

---
 phenum/phonons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..68e3d34 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
-- 
2.43.0


From 725f834f090c7b532109bacd01aee9551328fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 06/41] fix: only use the pure displacement branch when every
 site is displaced

---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 68e3d34..be9d913 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -460,7 +460,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and all(site[0] >= 0 for site in decorations):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From 342c164acd332801b5b2a9c47e29f08fd523f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 07/41] fix: report the basis that the labelings refer to when
 basis atoms lie outside the cell

---
 phenum/HNFs.py        | 10 ++++++----
 phenum/enumeration.py | 11 +++++++++++
 phenum/grouptheory.py | 10 ++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index ffed7b9..ee143af 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -140,16 +140,18 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
         eps = 1E-7
 
     hnfs = find_all_HNFs(n)
+    # work on a copy so that the caller's basis isn't modified.
+    base_vecs = list(base_vecs)
     temp_basis = deepcopy(base_vecs)
     plv_inv = np.transpose(np.linalg.inv(pLV))
-    for i, b_vecs in enumerate(base_vecs):
+    for i, b_vecs in enumerate(temp_basis):
         base_vecs[i] = bring_into_cell(b_vecs,plv_inv,np.transpose(pLV),eps)
-        if not np.allclose(b_vecs, temp_basis[i], rtol=0, atol=eps): #pragma: no cover
+        if not np.allclose(base_vecs[i], b_vecs, rtol=0, atol=eps): #pragma: no cover
             from phenum.msg import warn
             warn("An atomic basis vector was not inside the unit cell. It has been "
                  "remapped.\n Original vector: {} \n Remapped vector: {}"
-                 .format(" ".join([str(p) for p in temp_basis[i]]),
-                         " ".join([str(p) for p in b_vecs])))
+                 .format(" ".join([str(p) for p in b_vecs]),
+                         " ".join([str(p) for p in base_vecs[i]])))
         
     base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps)
 
diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 5b75ede..5a6de64 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -136,6 +136,9 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
+    from phenum.symmetry import bring_into_cell
+    from numpy import transpose
+    from numpy.linalg import inv
     from os.path import isfile
     from glob import glob
     from copy import deepcopy
@@ -163,6 +166,14 @@ def _enum_out(args):
             temp_args["distribution"] = args["distribution"]
         _enum_in(temp_args)
             
+    # the symmetry group, and so the labelings, are found for the basis
+    # atoms mapped into the parent cell. The atoms written to the output
+    # file need to be the same ones.
+    cart_to_latt = inv(transpose(params["lat_vecs"]))
+    latt_to_cart = transpose(params["lat_vecs"])
+    params["basis_vecs"] = [bring_into_cell(b_vec, cart_to_latt, latt_to_cart, 1E-10)
+                            for b_vec in params["basis_vecs"]]
+
     systems = io.read_enum(args["input"])
     io.write_enum(params, outfile=args["outfile"])    
 
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index de2a315..e2893c4 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -733,16 +733,18 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     # map any atoms in the basis that aren't within the cell to be in
     # the cell
     par_lat_inv = np.transpose(linalg.inv(par_lat))
+    # work on a copy so that the caller's basis isn't modified.
+    bas_vecs = list(bas_vecs)
     temp_basis = deepcopy(bas_vecs)
-    for i, b_vecs in enumerate(bas_vecs):
+    for i, b_vecs in enumerate(temp_basis):
         # par_lat_inv = linalg.inv(np.transpose(par_lat))
         bas_vecs[i] = bring_into_cell(b_vecs,par_lat_inv,np.transpose(par_lat),eps)
-        if not allclose(b_vecs, temp_basis[i], rtol=0, atol=eps): # pragma: no cover
+        if not allclose(bas_vecs[i], b_vecs, rtol=0, atol=eps): # pragma: no cover
             from phenum.msg import warn
             warn("An atomic basis vector was not inside the unit cell. It has been "
                  "remapped.\n Original vector: {} \n Remapped vector: {}"
-                 .format(" ".join([str(p) for p in temp_basis[i]]),
-                         " ".join([str(p) for p in b_vecs])))
+                 .format(" ".join([str(p) for p in b_vecs]),
+                         " ".join([str(p) for p in bas_vecs[i]])))
 
     par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps)
 
-- 
2.43.0


From 532f1b85400dfab38d2f2eb482110500f0fa9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 08/41] fix: find the interior points of a supercell with exact
 integer limits

---
 phenum/vector_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..eb2b002 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -100,8 +100,12 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     for iD in range(0, n_d):  
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
-            for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+            # use exact integer arithmetic for the limits, floating point
+            # numbers can be truncated to the wrong integer.
+            z2_start = (b*z1)//a
+            for z2 in range(z2_start, z2_start+c):
+                z3_start = (z1*(d*c-e*b)+a*e*z2)//(a*c)
+                for z3 in range(z3_start, z3_start+f):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 379e2a10f30ae934fa1d929b0682186c043f673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 09/41] fix: don't lose displaced atoms to floating point
 truncation

---
 phenum/phonons.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index be9d913..d6c0c41 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -322,7 +322,9 @@ def arrow_concs(cList,aconcs):
     Returns:
         decoration_w_arrows (list): The labeling of both colors and arrows.
     """
-    aconcs = [int(cList[i]*aconcs[i]) for i in range(len(cList))]
+    # the small shift keeps whole numbers of arrows from being lost to
+    # floating point errors, i.e., int(50*0.58) = 28.
+    aconcs = [int(cList[i]*aconcs[i] + 1E-9) for i in range(len(cList))]
     
     decoration_w_arrows = []
     labels = range(1,len(cList)+1)
-- 
2.43.0


From 63dac3e0a56d9088b8ccd55e05e1303c26bf703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 10/41] fix: keep random picks inequivalent and stop once every
 arrangement has been tried

---
 phenum/phonons.py | 22 +++++++++++++---------
 phenum/tree.py    | 34 ++++++++++++++++++----------------
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index d6c0c41..9131347 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -220,13 +220,15 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
             orighash += 1
     else:
         from random import randrange
-        visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        visited = set()
+        # once every possible arrangement has been visited there are no
+        # more unique ones to find.
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
+            orighash = randrange(maxpossible+1)
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
-            visited.append(orighash)
+            visited.add(orighash)
             
             arrow_config = _ainvhash(orighash,narrows,dim)
             unique = True
@@ -286,12 +288,14 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                         action = trans[0]
                         permutation = trans[1]
                         orig_sites = [i[1] for i in coloring_with_arrows]
+                        arrow_sites = [i[0] for i in coloring_with_arrows]
                         perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
+                        perm_arrows = [permutation[arrow_sites[i]] if arrow_sites[i] >= 0
+                                       else arrow_sites[i] for i in action]
+                        if orig_sites == perm_sites and perm_arrows == arrow_sites and action != list(range(len(action))): #pragma: no cover
                             #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                            unique = False
+                            break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..4a3f930 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -593,36 +593,38 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
         pbar = tqdm(total=num_wanted)
 
     survivors = []
-    visited = []
+    visited = set()
+
+    # the total number of configurations that can be picked
+    ncandidates = 1
+    for c_i in C:
+        ncandidates *= c_i
 
     nfound = 0
-    while len(survivors) < num_wanted:
-        candidate = []
+    while len(survivors) < num_wanted and len(visited) < ncandidates:
         # pick a random configuration to check against.
-        for c_i in C:
-            candidate.append(randint(0,c_i-1))
-
-        while candidate in visited:#pragma: no cover
-            #This happens rarely and so it's really hard to access in tests.
+        config = None
+        while config is None or tuple(config) in visited:
             candidate = []
             for c_i in C:
                 candidate.append(randint(0,c_i-1))
+            config = list(_invhash(candidate,concs,sum(concs)))
 
-        visited.append(candidate)
+        visited.add(tuple(config))
         unique = True
 
-        config = list(_invhash(candidate,concs,sum(concs)))
+        # the operations that leave the colors unchanged
+        stabilizer = []
         for perms in group:
             perm = perms[0]
 
             new_config = []
             for j in perm:
                 new_config.append(config[j])
-            new_config = list(new_config)
-
-            new_location = _hash(new_config)
 
-            if new_location in visited and new_location != candidate: #pragma: no cover
+            if new_config == config:
+                stabilizer.append(perms)
+            elif tuple(new_config) in visited: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
                 unique = False
                 break
@@ -646,11 +648,11 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
             if narrows > 0:
                 # We need to make a copy of the branch with arrows on
                 # it to pass to the add_arrows code.
-                t_config = list(_invhash(candidate,concs,sum(concs)))
+                t_config = list(config)
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                arsurvivors = add_arrows(t_config, stabilizer, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted-len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From 3d4d1b088d05b09a7acaf035ba4980f9cc596096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 11/41] fix: never return more structures than requested from
 large enumerations

---
 phenum/phonons.py |  3 ++-
 phenum/tree.py    | 17 +++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 9131347..3964e78 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -435,6 +435,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # then we don't need to run the polya algorithm.
     if (multinomial(concs) > 100000 and num_wanted <= 100) or (arrow_types !=0 and sum(concs) >= 12 and num_wanted <=100):
         total = 1e10
+        subset = int(num_wanted)
     else:
         # now find the number of unique arrangements using
         # polya
@@ -455,7 +456,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
                 subset = subset[0:num_wanted]
             else: # pragma: no cover
                 # only used for data sets to large for test cases.
-                subset = num_wanted
+                subset = int(num_wanted)
         elif num_wanted == total:
             subset = []
         else:
diff --git a/phenum/tree.py b/phenum/tree.py
index 4a3f930..cd3a0ac 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -349,6 +349,13 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     else:
         use_subset = False
 
+    # limit is the largest number of configurations to be returned.
+    limit = None
+    if isinstance(subset, list) and len(subset) > 0:
+        limit = len(subset)
+    elif isinstance(subset, int):
+        limit = subset
+
     # count is an integer counter used to keep track of where in
     # the total number of configurations we are.
     count = 1
@@ -382,9 +389,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     # they have all been considered
     ncurrent = 0
 
-    while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
-                                or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+    while branch[0] < C[0] and (limit is None or len(survivors) < limit):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
@@ -405,7 +410,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                     if trans_branch == brancht and action != list(range(int(cellsize))):
                         unique = 1
                         if use_subset:
-                            if count in subset:
+                            if isinstance(subset, list) and count in subset:
                                 loc = subset.index(count)
                                 nv = count
                                 while nv in subset and nv < reduce(mul,C,1):
@@ -545,8 +550,8 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     if verbosity is not None and verbosity >= 1: #pragma: no cover
         pbar.close()
-    # done
-    return survivors
+    # done. The displacements of a single labeling can overshoot the limit.
+    return survivors if limit is None else survivors[:limit]
 
 def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsize, num_wanted):
     """When the number of configurations wanted is sufficiently small
-- 
2.43.0


From 6f252595b9390acb39097639cb99cf440f2a3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 12/41] fix: distribute exactly the requested number of
 structures within what is available

---
 phenum/structures.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..32d8668 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Never take more than are available or more than were requested.
+            value = min(value, limit - result.get(key, 0), n - rtotal[0])
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -119,13 +121,14 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
-            if recount == 3 and rtotal[0] < n: #pragma: no cover
-                from .msg import warn
-                warn("Reached maximum recursion limit in random assignment.")
+            #If we're still short then the most abundant entries that
+            #have structures left make up the difference.
+            for key, value, limit in relvals:
+                vinsert(key, limit, limit, rtotal, n, result)
                 
     #First, compile a dictionary at the lowest level that has the weights
     #for the desired value of 'n'.
-- 
2.43.0


From ae5e0bf5efdbd3c6be0360c9585bb3380f5c9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 13/41] fix: honour the concentration filter for any number of
 species and for the shape totals

---
 phenum/structures.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 32d8668..c48dd11 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -325,9 +325,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                stotals[tuple(HNF)] = sum(vs)
 
         dataset[s] = {
             "distr": distr,
@@ -456,7 +454,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:-1]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From 2822ed99fac95ddecf590bb83b34607bb496cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 14/41] fix: look for polya files by their exact names and in a
 fixed order

---
 phenum/structures.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index c48dd11..0aee8ab 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -424,13 +424,14 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
     files = listdir(".")
     if sizes is None:
         sizes = []
-        form = infile
+        form = infile + "."
 
-        ready = False
         for f in files:
-            if form in f and f[0]==form[0]:
-                sizes.append(int(f.split(".")[-1]))
-                ready = True
+            if f.startswith(form) and f[len(form):].isdigit():
+                sizes.append(int(f[len(form):]))
+        # the order that the directory is listed in is arbitrary.
+        sizes.sort()
+        ready = len(sizes) > 0
 
     else:
         for i in sizes:
-- 
2.43.0


From b77e5cd6e193fe0e1654db777b8583e45d729870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 15/41] fix: displace the right atoms in the right directions
 in POSCAR and MTP files

---
 phenum/io_utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..fdaec85 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -337,7 +337,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, matmul
+    from numpy.linalg import inv
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -351,7 +352,9 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    # 0 means that the atom isn't displaced, the rest are in the order
+    # used when the arrow group is found.
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -367,6 +370,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     for arrow in arrows:
         directions.append(array(arrow_directions[int(arrow)]))
     slv = space_data["sLV"]
+    slv_inv = inv(slv)
     with open(filename,"w+") as poscar:
         poscar.write(title)
         poscar.write("{0:.2f}\n".format(lattice_parameter))
@@ -390,8 +394,10 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
-            displace += displace*rattle
+            # The lattice vectors and so the displacement are in units
+            # of the lattice parameter.
+            displace = directions[g_indx[iAt]]*args["displace"]
+            displace = matmul(displace + displace*rattle, slv_inv)
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
                 poscar.write(" {}\n".format(
@@ -423,7 +429,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
@@ -484,7 +490,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From 66c1609687dc56d3f8acb40079e86af6fa0208c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 16/41] fix: give lead its own atomic volume instead of
 palladium

---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From 4150188757fc716467c7a3f71e768a6a889102d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 17/41] fix: let the minkowski reduction and the removal of
 zeros be switched off

---
 phenum/phenumStr.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..ae4cf0c 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -40,7 +40,8 @@ def _make_structures(args, return_euids = False):
         euid = (euid,structure["directions"],str(args["rattle"]),str(args["displace"]))
         from hashlib import sha1 
         euids.append(sha1(''.join(euid).encode('utf-8')))
-        space_data = map_enumStr_to_real_space(system,structure,args["mink"])
+        space_data = map_enumStr_to_real_space(system,structure,
+                                               args["mink"] not in [False, "f"])
 
         space_data["aBas"] = cartesian2direct(space_data["sLV"],
                                               space_data["aBas"],system["eps"])
@@ -195,10 +196,7 @@ def run(args):
     else:
         args["mapping"] = None
         
-    if args["remove_zeros"] == "t":
-        args["remove_zeros"] = True
-    else:
-        args["remove_zeors"] = False
+    args["remove_zeros"] = args["remove_zeros"] in [True, "t"]
 
     _make_structures(args)
         
-- 
2.43.0


From 28a3317fff1bf134ca9cebb0dcef0388bda7b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 18/41] fix: use the supported call for 3D axes and leave
 cartesian positions unmodified

---
 phenum/vector_utils.py | 2 ++
 phenum/visualize.py    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index eb2b002..99a2956 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -446,6 +446,8 @@ def cartesian2direct(sLV,aBas, eps):
     """
     from numpy import linalg, matmul, array
     
+    # work on a copy so that the caller's positions aren't modified.
+    aBas = list(aBas)
     n_at = len(aBas)
     slv_inv = linalg.inv(sLV)
     # Convert aBas to DIRECT COORDINATES
diff --git a/phenum/visualize.py b/phenum/visualize.py
index d5b2f80..3705aa8 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -76,7 +76,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 za = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xa,ya,za,zdir='z',c='red',s=1000)
@@ -162,7 +162,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 zf = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xf,yf,zf,zdir='z',c='red',s=1000)
-- 
2.43.0


From 874cd11efdaa446d4e0571e4bcfedc9bb685c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 19/41] fix: plot the lattice vectors instead of their
 transpose

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 3705aa8..c0562b4 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -201,7 +201,7 @@ def _convert_read_lat_to_system_dat(lattice):
         system_data (dict): A dictionary of the system data with keys:
           "title": The system title.
           "bulksulf": Is this a surface or bulk system.
-          "plattice": The parent lattice vectors as rows of a matrix.
+          "plattice": The parent lattice vectors as columns of a matrix.
           "nD": The number of atoms in the system.
           "dvecs": The atomic basis vectors.
           "k": The number of atomic species in the system.
@@ -211,7 +211,7 @@ def _convert_read_lat_to_system_dat(lattice):
     system_data = {
         "title": "HNF plotter",
         "bulksurf": lattice["bulk"],
-        "plattice": lattice["lat_vecs"],
+        "plattice": [list(vec) for vec in zip(*lattice["lat_vecs"])],
         "nD": 0,
         "dvecs": lattice["basis_vecs"],
         "k": lattice["nspecies"],
-- 
2.43.0


From 06d1896e81d3779edb0c5dd60fe2cd71f137ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 20/41] fix: write an empty enumeration instead of failing when
 there is nothing to enumerate

---
 phenum/enumeration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 5a6de64..acac984 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -202,12 +202,12 @@ def _enum_out(args):
                 labeling, arrowing = io.create_labeling(config)
                 enumlist.append(((hnf[0]*hnf[2]*hnf[5]), hnf, SNF, LT, labeling, arrowing))
 
-            sortenum = sorted(enumlist, key=itemgetter(0, 4))
-            if len(sortenum) > 0:
-                last_sz = sortenum[0][0]
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 pbar.update(1)
 
+        sortenum = sorted(enumlist, key=itemgetter(0, 4))
+        if len(sortenum) > 0:
+            last_sz = sortenum[0][0]
         for (size, hnf, SNF, LT, labeling, arrowing) in sortenum:
             if size != last_sz:
                 count_s = 1
-- 
2.43.0


From 4a126cbb1a3966d9defabf5d35f5deddb7b4002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 21/41] fix: keep every element of a supercell's group once
 when rotations differ by a translation

---
 phenum/grouptheory.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index e2893c4..3409cb7 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -698,11 +698,24 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 # RPlist(iH)%perm are equivalent to pure translations only.
                 # The following entries are a combination of both.
 
+        if not arrows:
+            # Two rotations that differ by a lattice translation give the
+            # same compositions (this happens when the basis isn't at the
+            # origin), each element of the group is only kept once.
+            unique = []
+            found = set()
+            for site_perm in rp_list_perm_sites:
+                if tuple(site_perm) not in found:
+                    found.add(tuple(site_perm))
+                    unique.append(site_perm)
+            rp_list_perm_sites = unique
+            rp_list_nl = len(unique)
+
         RPlist[iH].perm.site_perm = rp_list_perm_sites
         if arrows: 
             RPlist[iH].perm.arrow_perm = rp_list_perm_arrows
         else:
-            RPlist[iH].perm.arrow_perm = [range(na_op)]*len(rp_list_perm_arrows)
+            RPlist[iH].perm.arrow_perm = [range(na_op)]*len(rp_list_perm_sites)
         RPlist[iH].n = rp_list_nl
         
     return (RPlist)
-- 
2.43.0


From 9bc95484afcef54ecaa1025d1907015b21f9b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 22/41] fix: accept every matrix with determinant one in
 SmithNormalForm

---
 phenum/grouptheory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 3409cb7..445eb3f 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -282,7 +282,8 @@ def SmithNormalForm(HNF):
     from numpy import dot
     from copy import deepcopy
     
-    if np.linalg.det(HNF) < 1:
+    # the determinant is only known to floating point precision.
+    if np.round(np.linalg.det(HNF), 6) < 1:
         raise ValueError("SmithNormalForm routine failed because the input matrix had a "
                          "determinant less than 1.")
 
-- 
2.43.0


From a5c4fd6bef5782cf8b2b6269847d368f480f49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 23/41] fix: distribute nothing instead of failing when no
 structures are available

---
 phenum/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index 0aee8ab..27cac22 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -70,6 +70,9 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         n = gtotal
 
     result = {}
+    if gtotal == 0:
+        #Nothing is available, so there is nothing to weight or to select.
+        return result
     rtotal = [0]
     def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
-- 
2.43.0


From bf1496a40c374e09e4f23b5002f1245a6b0b909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 24/41] fix: allow for the finite precision that large
 transforms amplify

---
 phenum/grouptheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 445eb3f..62921d0 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -568,7 +568,9 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 rgp = np.matmul(t_inv,(-temp1+temp2))
                 temp_gp = np.round(rgp).astype(int)
                 temp_ag = np.round(rag).astype(int)
-                if not np.allclose(rgp,temp_gp,rtol=0,atol=eps): #pragma: no cover
+                # finite precision is amplified by the transforms.
+                scale = max(1.0, np.abs(t_inv).max()*np.abs(T).max()*n)
+                if not np.allclose(rgp,temp_gp,rtol=0,atol=eps*scale): #pragma: no cover
                     print("Transform left big fractional parts")
                     exit()
 
-- 
2.43.0


From f5e3c834a8b3eb86d609de3a4facf9342035b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 25/41] fix: allow a species mapping without species names

---
 phenum/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index fdaec85..ba62c41 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -445,7 +445,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
     # Get the lattice parameter for the atomic species provided by the
     # user.
-    if mapping is not None and len(args["species"]) != len(mapping):
+    if mapping is not None and args["species"] is not None and len(args["species"]) != len(mapping):
         species = [args["species"][i] for i in mapping.values()]
     else:
         species = args["species"]
-- 
2.43.0


From b8d8ae6ccef4e5736f1f18eb5a5190a0341a6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 26/41] fix: generate the whole group from a single generator

---
 phenum/grouptheory.py   | 5 +++++
 phenum/polyaburnside.py | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 62921d0..ad5e454 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -894,6 +894,11 @@ def _group(gen): # pragma: no cover
                 # every time d is not in group i add it
                 if d not in groupi:
                     groupi.append(d)
+    # the products of different generators don't include the
+    # generators themselves when there is only one of them.
+    for i in gen:
+        if i not in groupi:
+            groupi.append([list(i[0]),list(i[1])])
     # new is a tracker that is 0 while we are still finding new group
     # elements and 1 when no new ones are found
     new = 0
diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f48939d..9aec8b7 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -356,7 +356,6 @@ def group(gen): #pragma: no cover
     Returns:
         groupi (list): A list of the symmetry group operators.
     """
-    from operator import itemgetter as iget
     def g_apply(operations, source, groupi=None):
         """Applies the specified group operations to the source list of elements and then
         appends it to the group if it is unique.
@@ -369,7 +368,7 @@ def group(gen): #pragma: no cover
         Returns:
             result (list): The result of the symmetry group on the object.
         """
-        result = list(iget(*operations)(source))
+        result = [source[op] for op in operations]
         if groupi is not None and result not in groupi:
             groupi.append(result)
         return result
-- 
2.43.0


From 17b0587db42d6bff301b162f20c425e62a20fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 27/41] fix: write a table of predictions only once it is
 complete

---
 phenum/enumeration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index acac984..52b3341 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -62,12 +62,15 @@ def _polya_out(args):
     from phenum.io_utils import read_lattice
     import phenum.phonons as pb
     from phenum.polyaburnside import polya
+    from io import StringIO
     params = read_lattice(args["lattice"])
 
     for s in range(params["sizes"][0], params["sizes"][1]+1):
         # get HNFs
         hnfs = get_HNFs(s,params["lat_vecs"],params["basis_vecs"],3)
-        out = open(args["outfile"]+"."+str(s), 'w+')
+        # only write the file once its table is complete so that a run
+        # that fails doesn't leave part of a table behind.
+        out = StringIO()
         # find the concentrations available for the desired cell sizes.
         c_list = get_concs_for_size(s, params["nspecies"], params["is_crestricted"],
                                    len(params["basis_vecs"]), params["concs"])
@@ -118,7 +121,8 @@ def _polya_out(args):
         for ctotal in conc_totals:
             out.write("{0: <50d}".format(ctotal))
         out.write("{0: <50d}\n".format(sum(conc_totals)))
-        out.close()
+        with open(args["outfile"]+"."+str(s), 'w+') as outf:
+            outf.write(out.getvalue())
         
 # check which files are present to see if we are finding the HNFs with
 # the polya count or enumerating subsets within the HNFs.
-- 
2.43.0


From 51696b804f99ce4777829bcc427e3592bee6d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 28/41] fix: write the list of structures only once they are
 found

---
 phenum/enumeration.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 52b3341..85121d8 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -146,6 +146,7 @@ def _enum_out(args):
     from os.path import isfile
     from glob import glob
     from copy import deepcopy
+    from io import StringIO
 
     if args["seed"] is not None:
         seed(a=args["seed"])
@@ -179,7 +180,6 @@ def _enum_out(args):
                             for b_vec in params["basis_vecs"]]
 
     systems = io.read_enum(args["input"])
-    io.write_enum(params, outfile=args["outfile"])    
 
     count_t = 1
     count_s = 0
@@ -190,7 +190,9 @@ def _enum_out(args):
         l = [int(i) for i in l]
         return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
     
-    with open(args["outfile"], 'a') as f:
+    # the output file is only written once all of the structures have
+    # been found so that a run that fails doesn't leave an empty list.
+    with StringIO() as f:
         enumlist = []    
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
@@ -226,6 +228,10 @@ def _enum_out(args):
 
             count_t += 1
 
+        io.write_enum(params, outfile=args["outfile"])
+        with open(args["outfile"], 'a') as outf:
+            outf.write(f.getvalue())
+
 def examples():
 
     """Prints examples of using the script to the console using colored output.
-- 
2.43.0


From 019f789c3a9f272fa3226dedd10098b0da660178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 29/41] fix: refuse a species mapping that is too short before
 writing the config file

---
 phenum/io_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index ba62c41..ff964f3 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -442,6 +442,9 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
             if labeling[gIndx[atom]] == str(i):
                 this_conc += 1
         concs.append(this_conc)
+    if mapping is not None and any(i not in mapping for i in range(system_data["k"])):
+        raise ValueError("The species mapping needs a number for each of the {} species in the "
+                         "system.".format(system_data["k"]))
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
     # Get the lattice parameter for the atomic species provided by the
     # user.
-- 
2.43.0


From cedd92854411cd75dd96708e2a2dea3960a6e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 30/41] fix: ignore empty lines and extra spaces in lattice.in

---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index ff964f3..1244130 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -36,9 +36,9 @@ def read_lattice(filename='lattice.in'):
     """
     from .msg import info
     with open(filename,'r') as f:
-        lines = [l for l in f.readlines() if l.strip()[0] != '#']
+        lines = [l for l in f.readlines() if l.strip() != '' and l.strip()[0] != '#']
         
-    sizes = [int(el) for el in lines[0].split(' ')]
+    sizes = [int(el) for el in lines[0].split()]
     bulk = lines[1].strip()[0].lower() == 'b'
     lat_vecs = [list(map(float, l.split())) for l in lines[2:5]]
     nspecies = int(lines[5])
-- 
2.43.0


From 6fa99035a96d410c437af4b8d8bac3a05483594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 31/41] fix: refuse concentration restrictions that don't match
 the number of species

---
 phenum/io_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 1244130..d54d85b 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -60,6 +60,9 @@ def read_lattice(filename='lattice.in'):
         else:
             arrows = True
         concs = [list(map(float, l.split())) for l in lines[7+nbas+2:]]
+        if len(concs) != nspecies:
+            raise ValueError("The concentrations of {} species are restricted but there are {} "
+                             "species in the system.".format(len(concs),nspecies))
 
     result = {
         "bulk": bulk,
-- 
2.43.0


From 4d94e49531f823bc9fe500cc85d6b283bb18f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 32/41] fix: end normally after printing the examples

---
 phenum/enumeration.py | 5 ++++-
 phenum/phenumStr.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 85121d8..9901fd8 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -414,7 +414,10 @@ def _script_enum(args, testmode=False):
 if __name__ == '__main__':
     args = _parser_options()
     
-    if args["profile"]:
+    if args is None:
+        # only the examples were wanted.
+        pass
+    elif args["profile"]:
         from vprof import profiler
         profiler.run(_script_enum, args["profile"], args=(args,), host='localhost', port=8000)
     else:
diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index ae4cf0c..1b2674e 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -201,4 +201,7 @@ def run(args):
     _make_structures(args)
         
 if __name__ == '__main__':
-    run(_parser_options())
+    args = _parser_options()
+    # no arguments are returned if only the examples were wanted.
+    if args is not None:
+        run(args)
-- 
2.43.0


From 379db334a8122df0c33e876263918c78a06a3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 33/41] fix: structures are selected by their number, not their
 row in the list

---
 phenum/io_utils.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index d54d85b..3b83994 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -262,13 +262,7 @@ def read_enum_out(args):
     from numpy import transpose
     
     # which structures are wanted
-    if args["structures"] == None:
-        with open(args["input"],"r") as f:
-            for count, l in enumerate(f):
-                pass
-        structures = list(range(1,count-13))
-    else:
-        structures = args["structures"]
+    structures = args["structures"]
     # open the enum.out style file.
     structf = open(args["input"],"r")
 
@@ -300,12 +294,11 @@ def read_enum_out(args):
             if line_count == 9 + system["nD"]:
                 system["eps"] = float(temp.strip())
             lc = line_count - (14 + system["nD"])
-            if isinstance(structures,str):
-                use_struct = lc > 0
-            else:
-                use_struct = lc in structures and system["nD"] !=0
-            if use_struct:
-                data = temp.split()
+            # the structures are identified by their number, the first
+            # entry of each row, not by their position in the file.
+            data = temp.split() if lc > 0 and system["nD"] != 0 else []
+            if len(data) > 0 and (structures is None or isinstance(structures,str)
+                                  or int(data[0]) in structures):
                 this_struct = {}
                 this_struct["strN"] = int(data[0])
                 this_struct["hnfN"] = int(data[1])
-- 
2.43.0


From 9140206cd13f58f73108ff10d66c7c6d7e576a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 34/41] fix: supercells of parents with several sites can be
 visualized

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index c0562b4..a4c778f 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -48,8 +48,8 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
                 system["nD"] = len(system["dvecs"])
+                structure["labeling"] = "".join(["0" for i in range(structure["n"]*system["nD"])])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
                 # the corners of the polyhedron except the origin.
@@ -149,8 +149,8 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
                 system["nD"] = len(system["dvecs"])
+                structure["labeling"] = "".join(["0" for i in range(structure["n"]*system["nD"])])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
                 atoms = []
-- 
2.43.0


From 52fc1329274917a5a4397060bf92e35cfa5d03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 35/41] fix: visualization reads enum.in unless told otherwise

---
 phenum/enumeration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 9901fd8..4ce57b3 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -409,6 +409,8 @@ def _script_enum(args, testmode=False):
     if args["distribution"] and not args["enum"]:
         _enum_in(args)
     if args["visualize"]:
+        if args["input"] is None:
+            args["input"] = "enum.in"
         _plot_HNFs(args,testmode=testmode)
         
 if __name__ == '__main__':
-- 
2.43.0


From e19c15e180fe39534d684d9efcb14fda3c8ba752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 36/41] fix: pictures of different supercells don't overwrite
 each other

---
 phenum/visualize.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index a4c778f..69b48c1 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -106,7 +106,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                     ax.plot([xb],[yb],[zb],'w')
 
                 if not testmode: # pragma: no cover
-                    fig.savefig("{}.pdf".format("".join([str(i) for i in hnf_name])))
+                    fig.savefig("{}.pdf".format(_picture_name(hnf_name)))
                 if show and not testmode: #pragma: no cover
                     plt.show()
                 else:
@@ -177,12 +177,24 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                     ax.plot([xb],[yb],[zb],'w')
 
                 if not testmode: #pragma: no cover
-                    fig.savefig("{}.pdf".format("".join([str(i) for i in hnf_name])))
+                    fig.savefig("{}.pdf".format(_picture_name(hnf_name)))
                 if show and not testmode:#pragma: no cover
                     plt.show()
                 else:
                     plt.close()
 
+def _picture_name(hnf):
+    """The name of the picture of an HNF, the entries are kept apart when
+    they don't all have a single digit so that every HNF has its own name.
+
+    Args:
+        hnf (list of int): The six entries of the HNF.
+
+    Returns:
+        name (str): The name for the picture.
+    """
+    return ("" if max(hnf) < 10 else "-").join([str(i) for i in hnf])
+
 def _convert_read_lat_to_system_dat(lattice):
     """This method converts the lattice_data dictionary returned by
     io_utils.read_lattice to the dictionary structure of io_utils.read_enum_out.
-- 
2.43.0


From ff0f1a3218c478262d4c1b7e20cc993fd0de8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 37/41] fix: empty lines in the list of cells crashed the
 visualization

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 69b48c1..1f7a74e 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -36,7 +36,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
     
     with open(enum,"r") as inf:
         for line in inf:
-            if "#" in line:
+            if "#" in line or line.strip() == "":
                 pass
             else:
                 structure = {}
@@ -137,7 +137,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
     
     with open(enum,"r") as inf:
         for line in inf:
-            if "#" in line:
+            if "#" in line or line.strip() == "":
                 pass
             else:
                 structure = {}
-- 
2.43.0


From a156f4d9299d5ce8b23a7b3df337f0e481731e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 38/41] fix: asking for structures that are not listed is
 refused

---
 phenum/phenumStr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 1b2674e..faf892f 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -28,6 +28,10 @@ def _make_structures(args, return_euids = False):
     from phenum.vector_utils import map_enumStr_to_real_space, cartesian2direct
 
     (system, structure_data) = read_enum_out(args)
+    if args["structures"] is not None and (len(structure_data) == 0 or
+                                           min(args["structures"]) < 1):
+        raise ValueError("The structures {} are not listed in "
+                         "{}.".format(args["structures"],args["input"]))
 
     euids = []
     # for each structure write the vasp POSCAR
-- 
2.43.0


From f0120160a94adae982f80948f3dcf2969f5f86fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:55 +0000
Subject: [PATCH 39/41] fix: counting with a group that counts from one changed
 the caller's group

---
 phenum/polyaburnside.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index 9aec8b7..bdf76e1 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -503,8 +503,6 @@ def polya(concentrations, group, arrowings=None, debug=False):
     Raises:
         ValueError: if the concentrations don't sum to the size of the group operation.
     """
-    import itertools
-        
     if arrowings is None:
         arrowings = [False]*len(concentrations)
     elif isinstance(arrowings, int):
@@ -515,10 +513,9 @@ def polya(concentrations, group, arrowings=None, debug=False):
     if sum(concentrations) != len(group[0][0]):
         raise ValueError("The concentrations don't sum to the number of things the group is acting on!")
             
-    len_g = len(group)
-    for k, g in itertools.product(range(2),range(len_g)):
-        if 0 not in group[g][k]:
-            group[g][k] = [j-1 for j in group[g][k]]
+    # The permutations may count from one. The shifted ones are collected in
+    # a new list so that the caller's group isn't changed.
+    group = [[perm if 0 in perm else [j-1 for j in perm] for perm in op[0:2]] for op in group]
 
     polyndict = {}
     #The operations in the group are used to construct the unique polynomials for each operation.
-- 
2.43.0


From 57bd084763c227974ad5a99dca22b3473822313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:52 +0000
Subject: [PATCH 40/41] fix: the operations of a supercell were found with a
 finer tolerance than the supercells

---
 phenum/enumeration.py | 2 +-
 phenum/grouptheory.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4ce57b3..36ffa7c 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -176,7 +176,7 @@ def _enum_out(args):
     # file need to be the same ones.
     cart_to_latt = inv(transpose(params["lat_vecs"]))
     latt_to_cart = transpose(params["lat_vecs"])
-    params["basis_vecs"] = [bring_into_cell(b_vec, cart_to_latt, latt_to_cart, 1E-10)
+    params["basis_vecs"] = [bring_into_cell(b_vec, cart_to_latt, latt_to_cart, 1E-7)
                             for b_vec in params["basis_vecs"]]
 
     systems = io.read_enum(args["input"])
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index ad5e454..0869180 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -745,7 +745,8 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     from phenum.symmetry import bring_into_cell, get_spaceGroup
     from copy import deepcopy
 
-    eps = 1E-10
+    # the tolerance that the supercells are found with (see get_HNFs)
+    eps = 1E-7
     # map any atoms in the basis that aren't within the cell to be in
     # the cell
     par_lat_inv = np.transpose(linalg.inv(par_lat))
-- 
2.43.0


From 3df412506ba47aaa91be4871210ae89afd6f4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:40 +0000
Subject: [PATCH 41/41] fix: an interrupted count left tables of some sizes,
 which the next run took for all there are

---
 phenum/enumeration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 36ffa7c..5b75800 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -65,11 +65,13 @@ def _polya_out(args):
     from io import StringIO
     params = read_lattice(args["lattice"])
 
+    # the tables are only written once all of them are complete. A run that
+    # fails would otherwise leave some of them behind, and the next run would
+    # take the sizes it finds tables for as all there are.
+    tables = []
     for s in range(params["sizes"][0], params["sizes"][1]+1):
         # get HNFs
         hnfs = get_HNFs(s,params["lat_vecs"],params["basis_vecs"],3)
-        # only write the file once its table is complete so that a run
-        # that fails doesn't leave part of a table behind.
         out = StringIO()
         # find the concentrations available for the desired cell sizes.
         c_list = get_concs_for_size(s, params["nspecies"], params["is_crestricted"],
@@ -121,8 +123,11 @@ def _polya_out(args):
         for ctotal in conc_totals:
             out.write("{0: <50d}".format(ctotal))
         out.write("{0: <50d}\n".format(sum(conc_totals)))
+        tables.append((s, out.getvalue()))
+
+    for s, table in tables:
         with open(args["outfile"]+"."+str(s), 'w+') as outf:
-            outf.write(out.getvalue())
+            outf.write(table)
         
 # check which files are present to see if we are finding the HNFs with
 # the polya count or enumerating subsets within the HNFs.
-- 
2.43.0

