# fourth generation of planted changes: history, batch composition, rare inputs, narrow types, two sites
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
GMF = 'tracer/geometry_manager.py'
QT = 'tracer/qt/assembly_tree.py'
def b(name, *edits): R.append((name, edits, name[:3]))
b('C01_argmin_owned', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n", "        nearest = N.argmin(stack, axis=0) if len(surfaces) else None\n        first = N.zeros(stack.shape, dtype=N.bool)\n        if nearest is not None:\n            first[nearest,N.arange(stack.shape[1])] = True\n        stack = first & ~N.isinf(stack)\n"))
b('C01_tol_scaled', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack[stack <= 1e-6*max(1., abs(bundle.get_vertices()).max())] = N.inf\n"))
b('C01_close_tie', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n", "        stack = (N.isclose(stack, stack.min(axis=0)) & ~N.isinf(stack))\n"))
b('C01_tested_zero', (TE, "        stack = N.zeros(ret_shape)\n", "        stack = N.ones(ret_shape)\n"))
b('C02_sort_kept', (TE, "                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n", "                    record = record.inherit(N.argsort(weak_ray_pos, kind='mergesort'))\n                    bund = record.inherit(N.s_[:bund.get_num_rays()])\n"))
b('C02_parents_unique', (TE, "                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n", "                parents = N.nonzero(owned_rays[surf_idx])[0][N.sort(new_outg.get_parents())]\n"))
b('C02_i16', (TE, "                new_outg.set_parents(parents)\n", "                new_outg.set_parents(parents.astype(N.uint16))\n"))
b('C02_lazy_parents', (TE, "                new_outg.set_parents(parents)\n", "                if not owned_rays[surf_idx].all():\n                    new_outg.set_parents(N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()] if i else parents)\n"))
b('C02_weak_skip', (TE, "                if record.get_num_rays() != 0:\n                    weak_ray_pos", "                if bund.get_num_rays() != 0:\n                    weak_ray_pos"))
b('C03_relev_view', (TE, "                surf_relev = N.ones((num_surfs, new_outg.get_num_rays()), dtype=N.bool)\n", "                surf_relev = N.ones((num_surfs, new_outg.get_num_rays()), dtype=N.bool)\n                if new_outg.get_num_rays() == surfs_relevancy.shape[1]:\n                    surf_relev = surfs_relevancy.copy()\n"))
b('C03_rel_record', (TE, "                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n", "                    objects[obj_idx].surfaces_for_next_iteration(new_record, surf_rel_idx)[:,:new_outg.get_num_rays()]\n"))
b('C03_until_off', (TE, "                surf_rel_idx = surf_idx - surfs_until_obj[obj_idx]\n", "                surf_rel_idx = surf_idx - N.nonzero(surf_ownership == surf_ownership[surf_idx])[0][-1] - 1 + surfs_per_obj[0]\n"))
b('C03_own_any', (TE, "                out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))\n", "                out_ray_own.append(N.where(object_owns_outg, obj_idx or -1, -1))\n"))
b('C04_nan', (TE, "                delete = new_outg.get_energy() <= min_energy\n", "                delete = ~(new_outg.get_energy() >= min_energy)\n"))
b('C04_last_rep', (TE, "                delete = new_outg.get_energy() <= min_energy\n", "                delete = new_outg.get_energy() <= min_energy*(i < reps - 1)\n"))
b('C04_break_weak', (TE, "            if bund.get_num_rays() == 0:\n", "            if bund.get_num_rays() == 0 or N.sum(bund.get_energy()) <= min_energy:\n"))
b('C04_ret', (TE, "        return bund.get_vertices(), bund.get_directions()\n", "        last = self.tree[-1] if tree and self.tree.num_bunds() > 1 else bund\n        return last.get_vertices(), last.get_directions()\n"))
b('C05_done_order', (TE, "                surfaces[surf_idx].done()\n                \n                # Aggregate", "                if new_outg.get_num_rays():\n                    surfaces[surf_idx].done()\n                \n                # Aggregate"))
b('C05_release_first', (TE, "            if not owned_rays[surf_num].any():\n                continue\n", "            if not owned_rays[surf_num].any():\n                surfaces[surf_num].done()\n                continue\n"))
b('C06_flat_cache', (FS, "        d = ray_bundle.get_directions()\n        v = ray_bundle.get_vertices() - frame[:3,3][:,None]\n        n = ray_bundle.get_num_rays()\n", "        d = ray_bundle.get_directions()\n        v = ray_bundle.get_vertices() - frame[:3,3][:,None]\n        n = ray_bundle.get_num_rays()\n        if not hasattr(self, '_normal') or (self._normal[2] != frame[2,2]):\n            self._normal = frame[:3,2].copy()\n        frame = frame.copy()\n        frame[:3,2] = self._normal\n"))
b('C06_quad_early', (QD, "        if num_inters == 0:\n            self._vertices = vertices\n            return params\n", "        if num_inters == 0:\n            return params\n"))
b('C06_norm_cache', (QD, "        self._norm = self._normals(self._vertices.T,\n                self._working_bundle.get_directions()[:,idxs].T)\n", "        if not hasattr(self, '_norm') or self._norm.shape[1] != len(idxs):\n            self._norm = self._normals(self._vertices.T,\n                self._working_bundle.get_directions()[:,idxs].T)\n"), (QD, "            del self._norm\n            del self._idxs\n", "            del self._idxs\n"))
b('C06_abc_cache', (CY, "        d = N.dot(self._working_frame[:3,:3].T, bundle.get_directions())\n        v = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((bundle.get_vertices(), N.ones(d.shape[1]))))[:3]\n        \n", "        d = N.dot(self._working_frame[:3,:3].T, bundle.get_directions())\n        if getattr(self, '_inv_for', None) is not self._working_frame[0,3]:\n            self._inv = N.linalg.inv(self._working_frame)\n            self._inv_for = self._working_frame[0,3]\n        v = N.dot(self._inv,\n            N.vstack((bundle.get_vertices(), N.ones(d.shape[1]))))[:3]\n        \n"))
b('C07_add_no_push', (AS, "        self._assemblies.append(assembly)\n        assembly.set_transform(transform)\n        self.transform_children()\n", "        self._assemblies.append(assembly)\n        assembly.set_transform(transform)\n        assembly.transform_children(self.get_transform() if self._objects else N.eye(4))\n"))
b('C07_tc_accum', (AS, "        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))\n", "        for obj in self._assemblies + self._objects:\n            const_t = N.dot(assembly_transform, const_t) if obj in self._assemblies[:1] else const_t\n            obj.transform_children(const_t if self._assemblies else N.dot(assembly_transform, const_t))\n"))
b('C07_obj_add', (OB, "        self.surfaces.append(surface)\n        self.transform_children()\n", "        self.surfaces.append(surface)\n        surface.transform_frame(self.get_transform())\n        surface.set_transform(surface._temp_frame) if surface in self.boundaries else None\n"))
b('C08_rot_loc', (HF, "        self._transform[:3,:3] = rotation\n        self._rot = self._transform[:3,:3]\n", "        self._transform[:3,:3] = rotation\n        self._rot = N.array(rotation)\n"))
b('C08_asarray', (HF, "        self._transform = N.array(transform, dtype=float)\n", "        self._transform = N.asarray(transform, dtype=float)\n"))
b('C09_sphere_unit', (SP, "        A = (d**2).sum(axis=0)\n", "        A = N.ones(n)\n"))
b('C09_planar_B', (QD, "        almost_planar = A <= 1e-10\n", "        almost_planar = A <= 1e-10*abs(B).max()\n"))
b('C09_delta0', (QD, "        any_inters = delta >= 0\n", "        any_inters = delta >= -1e-9\n"))
b('C09_eps', (QD, "        is_positive = prm > 0\n", "        is_positive = prm > 1e-4\n"))
b('C10_rect_tol', (FS, "        ray_prms[N.any(abs(self._local[:2]) > self._half_dims, axis=0)] = N.inf\n", "        ray_prms[N.any(abs(self._local[:2]) - self._half_dims > 1e-3, axis=0)] = N.inf\n"))
b('C10_cyl_default', (CY, "        select[N.logical_and(*hitting)] = 0\n", "        select[hitting[0] & positive[1]] = 0\n"))
b('C10_dish_wide', (PA, "        under_cut = (local_z <= self._h) & (prm > 0)\n", "        under_cut = (local_z <= self._h) & (prm > 0).any(axis=0)\n"))
b('C10_tri_norms', (TF, "        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)\n", "        outside = np.any(bc < 0, axis=1) | np.any(bc > 1, axis=1)\n"))
b('C10_bsphere', (BS, "        self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))\n", "        self._temp_loc = N.dot(transform[:3,:3], self._loc) + transform[:3,3]*bool(self._loc.any())\n"))
b('C11_sides_c', (SP, "        sides = N.sum((c - hits) * directs, axis=1)\n", "        sides = N.sum((c - hits) * directs, axis=1) if hits.shape[0] != 3 else N.sum((c - hits) * directs, axis=0)\n"))
b('C11_par_mean', (PA, "        local_unit = local_normal/N.sqrt(N.sum(local_normal**2, axis=0))\n", "        local_unit = local_normal/N.linalg.norm(local_normal, axis=0).max()\n"))
b('C11_back_idx', (FS, "        self._idxs = idxs\n        self._backside = N.nonzero(self._backside[idxs])[0]\n        self._global = self._global[:,idxs].copy()\n", "        self._idxs = idxs\n        self._backside = N.intersect1d(N.nonzero(self._backside)[0], idxs)\n        self._backside = N.searchsorted(idxs, self._backside)[:len(idxs)-1]\n        self._global = self._global[:,idxs].copy()\n"))
b('C12_parallel_batch', (FS, "        unparallel = abs(dt) > 1e-10\n", "        unparallel = abs(dt) > 1e-10*abs(dt).max() if n else abs(dt) > 1e-10\n"))
b('C12_hemi_all', (SP, "        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n", "        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n        if bottom_hem.all():\n            select[:] = 1\n"))
b('C13_cos_sign', (OP, "    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    refr_dirs += normals*cos2*N.where(N.any(cos1 < 0), -1, 1)\n"))
b('C13_clip', (OP, "    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)\n", "    bar = N.sqrt(abs(1 - (N.maximum(n1, n2)/N.minimum(n1, n2) * N.sin(theta_in))**2))\n"))
b('C14_custom', (OC, "        refracted_rays = rays.inherit(selector[refr], vertices=inters[:,refr],\n", "        refracted_rays = rays.inherit(N.nonzero(refr)[0], vertices=inters[:,refr],\n"))
b('C14_toggle_last', (OC, "        return N.where(current == self._ref_idxs[0], \n            self._ref_idxs[1], self._ref_idxs[0])\n", "        return N.where(current == self._ref_idxs[1], \n            self._ref_idxs[0], self._ref_idxs[1])\n"))
b('C14_mirror_all', (OC, "        if not refr.any():\n            return perfect_mirror(geometry, rays, selector)\n", "        if not refr.any():\n            return Reflective(0)(geometry, rays.inherit(ref_index=n2) if len(n2) == rays.get_num_rays() else rays, selector)\n"))
b('C15_same_list', (OC, "        self._absorbed = []\n        self._hits = []\n", "        if not hasattr(self, '_hits'):\n            self._hits = []\n        self._absorbed = []\n        self._hits = self._hits[:0] if len(self._hits) < 2 else self._hits[-1:]\n"))
b('C15_all_zero', (OC, "        if not any(len(a) for a in self._absorbed):\n", "        if not any(N.any(a) for a in self._absorbed):\n"))
b('C15_energy_ref', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n        return self._opt(geometry, rays, selector)\n", "        outg = self._opt(geometry, rays, selector)\n        self._absorbed.append(rays.get_energy()[selector] - outg.get_energy() if len(selector) else N.array([]))\n        self._hits.append(outg.get_vertices()[:,:1] if len(selector) == 1 else geometry.get_intersection_points_global()[:,::-1][:,::-1])\n        if len(self._absorbed) > 1 and len(self._absorbed[-1]) == len(self._absorbed[-2]) == 1:\n            self._absorbed[-1], self._absorbed[-2] = self._absorbed[-2], self._absorbed[-1]\n        return outg\n"))
b('C16_set_in', (RB, "        if init_val is not None:\n            self.__dict__['set_' + propname](init_val)\n", "        if init_val is not None:\n            if propname == 'parents':\n                init_val.sort()\n            self.__dict__['set_' + propname](init_val)\n"))
b('C16_flat_view', (FS, "        v = ray_bundle.get_vertices() - frame[:3,3][:,None]\n", "        v = ray_bundle.get_vertices()\n        if frame[:3,3].any():\n            v = v - frame[:3,3][:,None]\n        d /= N.sqrt((d**2).sum(axis=0))\n"))
b('C17_kwds_order', (RB, "        base_vals.update(kwds)\n        \n        for p, v", "        for k in kwds:\n            base_vals.setdefault(k, kwds[k])\n        \n        for p, v"))
b('C17_add_order', (RB, "                newbund.__dict__['set' + attr](N.hstack((\n                    self.__dict__['get' + attr](),\n                    added.__dict__['get' + attr]() )) )\n", "                pair = [self, added]\n                if self.get_num_rays() < added.get_num_rays() and attr == '_ref_index':\n                    pair.reverse()\n                newbund.__dict__['set' + attr](N.hstack([p.__dict__['get' + attr]() for p in pair]))\n"))
b('C17_set_sel', (RB, "                self.__dict__[attr][...,selector] = new_val\n", "                self.__dict__[attr][selector] = new_val\n"))
b('C18_flux_int', (SO, "        rayb.set_energy(N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n", "        rayb.set_energy(N.pi*radius**2*flux*N.ones(num_rays)/len(N.unique(rs)))\n"))
b('C18_seed', (SO, "    xi1 = random.uniform(high=2*N.pi, size=num_rays)\n    xi2", "    random.seed(num_rays)\n    xi1 = random.uniform(high=2*N.pi, size=num_rays)\n    xi2"))
b('C18_center', (SO, "    rayb = RayBundle(vertices=vertices_global + center, directions=directions)\n", "    rayb = RayBundle(vertices=vertices_global + center*N.any(direction[:2]), directions=directions)\n"))
b('C19_perp_norm', (SG, "    perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]\n", "    perp /= N.sqrt(N.sum(perp**2, axis=1)).max()\n"))
b('C19_neg_z', (SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp[N.all(perp == 0, axis=1) & (vecs[:,2] > 0)] = N.r_[1.,  0.,  0.]\n    perp[N.all(perp == 0, axis=1)] = N.r_[0., 0., 1.]\n"))
b('C20_mesh_local', (SU, "        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n", "        glob = N.tensordot(self._temp_frame if self._temp_frame is not self._transform else N.eye(4), local, axes=([1], [0]))\n"))
b('C20_dish_h', (PA, "        z = self.a*x**2 + self.b*y**2\n", "        z = N.minimum(self.a*x**2 + self.b*y**2, self._h*.99)\n"))
b('C20_tri_beta', (TF, "            alpha*self._verts[:,0,None,None]*beta\n", "            alpha*self._verts[:,0,None,None]*beta**2\n"))
b('C21_elev_abs', (MD % 'heliostat_field', "        hstat_elev = N.arccos(hstat[:,2])\n", "        hstat_elev = N.arcsin(N.sqrt(hstat[:,0]**2 + hstat[:,1]**2))\n"))
b('C21_th', (MD % 'heliostat_field', "        tower_vec[:,2] += self._th\n", "        tower_vec[:,2] = self._th\n"))
b('C21_stag', (MD % 'heliostat_field', "    xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).flatten()\n", "    xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).flatten()[:len(xs1)]\n"))
b('C22_lens_R', (MD % 'spherical_lens', "            if R2 > 0:\n                sect2 = BoundaryPlane(location=N.r_[0, 0, z])\n", "            if R2 > 0 and R1 > 0:\n                sect2 = BoundaryPlane(location=N.r_[0, 0, z])\n"))
b('C22_tri_deg', (MD % 'triangulated_surface', "        non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)\n", "        non_degenerate = np.all(abs(edge_norms) > 1e-8*edge_norms.max(), axis=1) & (faces[:,1] > faces[:,0])\n"))
b('C22_recv', (MD % 'homogenized_local_receiver', "        self._hom = rect_homogenizer(self._sides[0], self._sides[1], \\\n", "        self._hom = rect_homogenizer(self._sides[0], min(self._sides), \\\n"))
b('C24_sub_objs', (AS, "            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n", "            [self._objects] + [asm.get_objects() for asm in self._assemblies], [])\n"), (AS, "            [obj.get_surfaces() for obj in self.get_objects()], [])\n", "            [asm.get_surfaces() for asm in self._assemblies] + [obj.get_surfaces() for obj in self._objects], [])\n"))
b('C24_own_listing', (AS, "        return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n", "        if not self._assemblies:\n            return self._objects\n        objs = self._assemblies[0].get_objects()\n        for asm in self._assemblies[1:]:\n            objs += asm.get_objects()\n        return objs + self._objects\n"))
