# fifth generation of edits that keep the behaviour: room made first and filled by stretches, one pass per ray, generators, other numpy idioms
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
def r(name, *edits): R.append((name, edits))
HFR = 'tracer/has_frame.py'
CAT = "            newbund.__dict__['set' + attr](N.hstack(\n                [b.__dict__[getter]() for b in bundles]))"
r('rb_room', (RB, CAT, "            vals = [b.__dict__[getter]() for b in bundles]\n            ends = N.cumsum([v.shape[-1] for v in vals])\n            out = N.empty(vals[0].shape[:-1] + (ends[-1],), dtype=N.result_type(*vals))\n            for v, e in zip(vals, ends):\n                out[...,e - v.shape[-1]:e] = v\n            newbund.__dict__['set' + attr](out)"))
r('rb_room2', (RB, CAT, "            vals = [b.__dict__[getter]() for b in bundles]\n            total = sum(b.get_num_rays() for b in bundles)\n            out = N.empty(vals[0].shape[:-1] + (total,), dtype=N.result_type(*[v.dtype for v in vals]))\n            start = 0\n            for v in vals:\n                stop = start + v.shape[-1]\n                out[...,start:stop] = v\n                start = stop\n            newbund.__dict__['set' + attr](out)"))
r('rb_fold', (RB, CAT, "            joined = bundles[0].__dict__[getter]()\n            for other in bundles[1:]:\n                joined = N.concatenate((joined, other.__dict__[getter]()), axis=-1)\n            newbund.__dict__['set' + attr](joined)"))
r('rb_append', (RB, CAT, "            joined = bundles[0].__dict__[getter]()\n            for other in bundles[1:]:\n                joined = N.append(joined, other.__dict__[getter](), axis=-1)\n            newbund.__dict__['set' + attr](joined)"))
r('rb_transposed', (RB, CAT, "            rows = N.concatenate([b.__dict__[getter]().T for b in bundles])\n            newbund.__dict__['set' + attr](rows.T)"))
r('rb_sum', (RB, "    if len(bundles) == 0:\n        return RayBundle.empty_bund()\n", "    if not bundles:\n        return RayBundle.empty_bund()\n    \n    if len(bundles) == 1:\n        return bundles[0].inherit()\n"))
r('rb_count_dirs', (RB, "        return self._vertices.shape[1]\n", "        return len(self._vertices.T)\n"))
r('rb_delete_in1d', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n", "        all_rays = N.arange(self.get_num_rays())\n        inherit_select = all_rays[~N.in1d(all_rays, selector)]\n"))
r('rb_delete_setdiff', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n", "        inherit_select = N.setdiff1d(N.arange(self.get_num_rays()), selector)\n"))
# optics
r('op_reflect_einsum', (OP, "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    return ray_dirs - 2*vertical\n", "    along = N.einsum('ij,ij->j', ray_dirs, normals)\n    return ray_dirs - 2*along[None,:]*normals\n"))
r('op_reflect_rows', (OP, "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    return ray_dirs - 2*vertical\n", "    along = sum(d*n for d, n in zip(ray_dirs, normals))\n    return N.array([d - 2*along*n for d, n in zip(ray_dirs, normals)])\n"))
r('op_refract_sign', (OP, "    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    towards = N.ones(len(cos1))\n    towards[cos1 < 0] = -1\n    refr_dirs = refr_dirs + normals*(cos2*towards)\n"))
r('op_refract_idx', (OP, "    cos1 = cos1[refracted]\n    ray_dirs = ray_dirs[:,refracted]\n    normals = normals[:,refracted]\n    n = n[refracted]\n", "    passing, = N.nonzero(refracted)\n    cos1, n = cos1.take(passing), n.take(passing)\n    ray_dirs, normals = [a.take(passing, axis=1) for a in (ray_dirs, normals)]\n"))
r('op_refract_compress', (OP, "    cos1 = cos1[refracted]\n    ray_dirs = ray_dirs[:,refracted]\n    normals = normals[:,refracted]\n    n = n[refracted]\n", "    def passing(a): return N.compress(refracted, a, axis=-1)\n    cos1, n, ray_dirs, normals = map(passing, (cos1, n, ray_dirs, normals))\n"))
r('op_fresnel_cos', (OP, "    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))\n    # Factor out common terms in Fresnel's equations:\n    foo = N.cos(theta_in) \n    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)\n", "    foo = N.abs(N.sum(normals*ray_dirs, axis=0))\n    bar = N.sqrt(1 - (n1/n2)**2*(1 - foo**2))\n"))
r('op_fresnel_mean', (OP, "    R = (Rs + Rp)/2\n    return R\n", "    return N.mean([Rs, Rp], axis=0)\n"))
r('oc_hits_room', (OC, "        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])\n", "        counts = [len(a) for a in self._absorbed]\n        absorbed = N.empty(sum(counts))\n        hits = N.empty((3, sum(counts)))\n        start = 0\n        for a, h, c in zip(self._absorbed, self._hits, counts):\n            absorbed[start:start + c] = a\n            hits[:,start:start + c] = h\n            start += c\n        return absorbed, hits\n"))
r('oc_hits_pairs', (OC, "        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])\n", "        rounds = [(a, h) for a, h in zip(self._absorbed, self._hits) if len(a) > 0]\n        absorbed, hits = zip(*rounds)\n        return N.concatenate(absorbed), N.concatenate(hits, axis=1)\n"))
r('oc_one_list', (OC, "        self._absorbed = []\n        self._hits = []\n", "        self._rounds = []\n"), (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n", "        self._rounds.append((rays.get_energy()[selector]*self._opt._abs,\n            geometry.get_intersection_points_global()))\n"),
  (OC, "        if not any(len(a) for a in self._absorbed):\n", "        rounds = [pair for pair in self._rounds if len(pair[0])]\n        if not rounds:\n"), (OC, "        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])\n", "        return tuple(N.hstack(part) for part in zip(*rounds))\n"))
r('oc_toggle_sum', (OC, "        return N.where(current == self._ref_idxs[0], \n            self._ref_idxs[1], self._ref_idxs[0])\n", "        first, second = self._ref_idxs\n        other = N.empty(len(current))\n        in_first = current == first\n        other[in_first] = second\n        other[~in_first] = first\n        return other\n"))
r('oc_R_where', (OC, "        R = N.ones(len(selector))\n        R[refr] = optics.fresnel(rays.get_directions()[:,selector][:,refr],\n            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n", "        passing = N.nonzero(refr)[0]\n        R = N.ones_like(n2, dtype=float)\n        N.put(R, passing, optics.fresnel(rays.get_directions(selector[passing]),\n            geometry.get_normals()[:,passing], n1[passing], n2[passing]))\n"))
r('oc_one_sided_where', (OC, "        energy = outg.get_energy()\n        proj = N.sum(rays.get_directions()[:,selector] * geometry.up()[:,None], axis=0)\n        energy[proj > 0] = 0\n        outg.set_energy(energy)\n        return outg\n", "        from_below = N.dot(geometry.up(), rays.get_directions()[:,selector]) > 0\n        outg.set_energy(N.where(from_below, 0, outg.get_energy()))\n        return outg\n"))
# flat
r('fs_nanwhere', (FS, "        params = N.empty(n)\n        params.fill(N.inf)\n        \n        vt = N.dot(frame[:3,2], v[:,unparallel])\n        params[unparallel] = -vt/dt[unparallel]\n        \n        # Takes into account a negative depth\n        # Note that only the 3rd row of params is relevant here!\n        negative = params < 0\n        params[negative] = N.Inf\n", "        params = N.full(n, N.inf)\n        ahead = -N.dot(frame[:3,2], v[:,unparallel])/dt[unparallel]\n        ahead[ahead < 0] = N.inf\n        params[unparallel] = ahead\n"))
r('fs_errstate', (FS, "        oldsettings = N.seterr(invalid='ignore')\n        self._global = v + p[None,:]*d\n        N.seterr(**oldsettings)\n", "        with N.errstate(invalid='ignore'):\n            self._global = v + p*d\n"))
r('fs_normals_where', (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms\n", "        sense = N.ones(len(self._idxs))\n        sense[self._backside] = -1\n        return N.outer(self._working_frame[:3,2], sense)\n"))
r('fs_repeat', (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n", "        norms = N.repeat(self._working_frame[:3,2:3], len(self._idxs), axis=1)\n"))
# quadric
r('qd_two_roots', (QD, "        pm = N.c_[[-1, 1]]\n        hits = N.empty((2, num_inters))\n        almost_planar = A <= 1e-10\n        really_quadric = ~almost_planar\n        hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))\n        hits[:,really_quadric] = \\\n            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])\n", "        almost_planar = A <= 1e-10\n        near = N.empty(num_inters)\n        far = N.empty(num_inters)\n        near[almost_planar] = far[almost_planar] = -C[almost_planar]/B[almost_planar]\n        curved = N.logical_not(almost_planar)\n        near[curved] = (-B[curved] - delta[curved])/(2*A[curved])\n        far[curved] = (-B[curved] + delta[curved])/(2*A[curved])\n        hits = N.array([near, far])\n"))
r('qd_select_where', (QD, "        is_positive = prm > 0\n        select = N.empty(prm.shape[1])\n\n        # If both are negative, it is a miss\n        # This line also catches the cases of the last xor.\n        select[~N.logical_or(*is_positive)] = N.nan\n        \n        # If both are positive, use the smaller one\n        select[N.logical_and(*is_positive)] = 0\n        \n        # If either one is negative, use the positive one\n        one_pos = N.logical_xor(*is_positive)\n        select[one_pos] = N.nonzero(is_positive.T[one_pos,:])[1]\n        \n        return select\n", "        near, far = prm > 0\n        return N.where(near, 0., N.where(far, 1., N.nan))\n"))
r('qd_store_choose', (QD, "        params[any_inters] = N.choose(select, hits[:,not_missed])\n        vertices[:,any_inters] = N.choose(select, inters_coords[...,not_missed])\n", "        second = select == 1\n        params[any_inters] = N.where(second, hits[1,not_missed], hits[0,not_missed])\n        vertices[:,any_inters] = N.where(second, inters_coords[1][:,not_missed], inters_coords[0][:,not_missed])\n"))
r('qd_fancy', (QD, "        params[any_inters] = N.choose(select, hits[:,not_missed])\n", "        chosen = N.nonzero(not_missed)[0]\n        params[any_inters] = hits[select, chosen]\n"))
r('cy_height', (CY, "        height = N.sum(N.linalg.inv(self._working_frame)[None,2,:,None] * \\\n            N.concatenate((coords, N.ones((2,1,coords.shape[-1]))), axis=1), axis=1)\n", "        axis = self._working_frame[:3,2]\n        centre = self._working_frame[:3,3]\n        height = N.array([N.dot(axis, c - centre[:,None]) for c in coords])\n"))
r('cy_normals', (CY, "        local_norm[:, N.sum(local_norm[:2] * dir_loc[:2], axis=0) > 0] *= -1\n", "        outward = N.einsum('ij,ij->j', local_norm[:2], dir_loc[:2]) > 0\n        local_norm = N.where(outward[None,:], -local_norm, local_norm)\n"))
r('cy_hypot', (CY, "        local_norm /= N.sqrt(N.sum(hit[:2]**2, axis=0))\n", "        local_norm /= N.hypot(hit[0], hit[1])\n"))
r('tf_solve', (TF, "        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)\n        ray_prms[outside] = np.inf\n", "        first, second = bc.T\n        inside = (first >= 0) & (second >= 0) & (first + second <= 1)\n        ray_prms = np.where(inside, ray_prms, np.inf)\n"))
# tree, frames
r('tt_list', (TT, "        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index\n        \n        for pix in xrange(1, level + 1):\n            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n        \n        return parents\n", "        history = [ray_index]\n        for bund in self._bunds[level:0:-1]:\n            history.append(bund.get_parents()[history[-1]])\n        \n        return np.array(history, dtype=int)\n"))
r('tt_rec', (TT, "        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index\n        \n        for pix in xrange(1, level + 1):\n            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n        \n        return parents\n", "        if level == 0:\n            return np.array([ray_index], dtype=int)\n        parent = self._bunds[level].get_parents()[ray_index]\n        return np.r_[ray_index, self.ray_history(parent, level - 1)].astype(int)\n"))
r('hf_compose', (HFR, "        self._temp_frame = N.dot(transform, self._transform)\n", "        frame = N.eye(4)\n        frame[:3,:3] = N.dot(transform[:3,:3], self._transform[:3,:3])\n        frame[:3,3] = N.dot(transform[:3,:3], self._transform[:3,3]) + transform[:3,3]\n        self._temp_frame = frame\n"))
# engine
r('te_own_room', (TE, "            ray_ownership = N.hstack(out_ray_own)\n            surfs_relevancy = N.hstack(new_surfs_relevancy)\n", "            ray_ownership = N.empty(bund.get_num_rays())\n            surfs_relevancy = N.empty((num_surfs, bund.get_num_rays()), dtype=bool)\n            start = 0\n            for own, relev in zip(out_ray_own, new_surfs_relevancy):\n                stop = start + len(own)\n                ray_ownership[start:stop] = own\n                surfs_relevancy[:,start:stop] = relev\n                start = stop\n"))
r('te_gen', (TE, "            for surf_idx in xrange(num_surfs):\n                inters = front_surf[surf_idx, owned_rays[surf_idx]]\n", "            for surf_idx, (front, owned) in enumerate(zip(front_surf, owned_rays)):\n                inters = front[owned]\n"))
r('te_parents_take', (TE, "                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n                new_outg.set_parents(parents)\n", "                tested = N.flatnonzero(owned_rays[surf_idx])\n                new_outg.set_parents(N.take(tested, new_outg.get_parents()))\n"))
r('te_argmin', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n        \n        return stack, owned_rays\n", "        closest = N.minimum.reduce(stack, axis=0)\n        front = N.zeros(ret_shape, dtype=bool)\n        for surf_num, prms in enumerate(stack):\n            front[surf_num] = (prms == closest) & (prms < N.inf)\n        return front, owned_rays\n"))
r('te_while', (TE, "        for i in xrange(reps):\n", "        done = 0\n        while done < reps:\n            done += 1\n"))
r('te_keep', (TE, "                    weak_ray_pos = N.hstack(weak_ray_pos)\n                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n", "                    weak = N.concatenate(weak_ray_pos)\n                    record = concatenate_rays([bund, record.inherit(weak)])\n"))
# sources
r('so_disk_polar', (SO, "    vertices_local = N.vstack((xs,  ys,  N.zeros(num_rays)))\n    vertices_global = N.dot(perp_rot,  vertices_local)\n", "    vertices_global = perp_rot[:,0:1]*xs + perp_rot[:,1:2]*ys\n"))
r('so_square_grid', (SO, "    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]\n    xs, ys = N.mgrid[range, range]\n    vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])\n", "    marks = N.arange(-width, width, float(2*width)/N.sqrt(num_rays))\n    xs, ys = N.meshgrid(marks, marks)\n    xs, ys = xs.T.ravel(), ys.T.ravel()\n    vertices_local = N.vstack((xs, ys, N.zeros_like(xs)))\n"))
r('so_full', (SO, "        rayb.set_energy(N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n", "        total = flux*N.pi*radius**2\n        rayb.set_energy(N.full(num_rays, total/num_rays))\n"))
r('so_dirs_einsum', (SO, "    directions = N.sum(perp_rot[...,None] * a[None,...], axis=1)\n", "    directions = N.einsum('ij,jk->ik', perp_rot, a)\n"))
r('sg_columns', (SG, "    perp_rot = N.concatenate((perp[...,None], N.cross(vecs, perp)[...,None],\n        vecs[...,None]), axis=2)\n", "    perp_rot = N.empty((len(vecs), 3, 3))\n    perp_rot[:,:,0] = perp\n    perp_rot[:,:,1] = N.cross(vecs, perp)\n    perp_rot[:,:,2] = vecs\n"))
r('sg_norm', (SG, "    perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]\n", "    perp = perp/N.linalg.norm(perp, axis=1)[:,N.newaxis]\n"))
