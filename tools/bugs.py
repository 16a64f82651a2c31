# realistic breakages, written from the property statements; (name, edits, property that should object)
R = []
def r(prop, name, *edits): R.append((prop + '_' + name, edits, prop))
TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, GM = ['tracer/%s.py' % x for x in
  'tracer_engine ray_bundle optics_callables optics flat_surface quadric sphere_surface cylinder paraboloid triangular_face boundary_shape has_frame assembly object surface trace_tree sources spatial_geometry geometry_manager'.split()]
MD = 'tracer/models/%s.py'
SV = 'tracer/mayavi_ui/scene_view.py'
# C01
r('C01', 'argmin_flat', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n", "        first = stack.argmin(axis=0)\n        stack = (N.arange(len(surfaces))[:,None] == first) & ~N.isinf(stack)\n"))
r('C01', 'tol_scaled', (TE, "stack[stack <= 1e-6] = N.inf", "stack[stack <= 1e-6*max(1., stack[~N.isinf(stack)].max() if (~N.isinf(stack)).any() else 1.)] = N.inf"))
r('C01', 'allclose', (TE, "(stack == stack.min(axis=0))", "(stack <= stack.min(axis=0) + 1e-3)"))
r('C01', 'untested_zero', (TE, "        stack = N.zeros(ret_shape)\n", "        stack = N.zeros(ret_shape)\n        stack.fill(1e-5)\n"))
r('C01', 'first_only', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack[(stack <= 1e-6) & owned_rays] = N.inf\n"))
r('C01', 'skip_last_inf', (TE, "                if not any(inters): \n", "                if not any(inters) or N.isinf(surf_idx): \n"))
# C02
r('C02', 'parents_local', (TE, "                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n", "                parents = new_outg.get_parents()\n"))
r('C02', 'weak_order', (TE, "                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n", "                    record = record.inherit(N.nonzero(weak_ray_pos)[0]) + bund\n"))
r('C02', 'record_raw', (TE, "                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n                    self.tree.append(record)", "                    self.tree.append(record)"))
r('C02', 'drop_weak_if_few', (TE, "                    weak_ray_pos = N.hstack(weak_ray_pos)\n                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n", "                    weak_ray_pos = N.hstack(weak_ray_pos)\n                    if bund.get_num_rays() > 0:\n                        record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n                    else:\n                        record = bund\n"))
r('C02', 'history_level', (TT, "                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]", "                self._bunds[-pix].get_parents()[parents[pix - 1]]"))
r('C02', 'ordered', (TT, "        return [bund.get_parents() for bund in self._bunds[1:]]", "        return [bund.get_parents() for bund in self._bunds if hasattr(bund, '_parents')]"))
r('C02', 'skip_if_nosurv', (TE, "                if record.get_num_rays() != 0:\n", "                if bund.get_num_rays() != 0:\n"))
# C03
r('C03', 'owner_idx', (TE, "out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))", "out_ray_own.append(N.where(object_owns_outg, surf_idx, -1))"))
r('C03', 'own_before_delete', (TE, "object_owns_outg = objects[obj_idx].own_rays(new_outg, surf_rel_idx)", "object_owns_outg = objects[obj_idx].own_rays(new_record, surf_rel_idx)[~delete]"))
r('C03', 'relev_all', (TE, "                surf_relev[surf_ownership == obj_idx] = \\\n", "                surf_relev[surfs_until_obj[obj_idx]:] = \\\n")) if 0 else None
r('C03', 'relev_and', (TE, "(ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]", "(ray_ownership == surf_ownership[surf_num]) & surf_relevancy[surf_num])"))
r('C03', 'any_owned', (TE, "out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))", "out_ray_own.append(N.where(object_owns_outg.any(), obj_idx, -1)*N.ones(new_outg.get_num_rays()))"))
r('C03', 'stale_relev', (TE, "            ray_ownership = N.hstack(out_ray_own)\n            surfs_relevancy = N.hstack(new_surfs_relevancy)", "            ray_ownership = N.hstack(out_ray_own)\n            if len(new_surfs_relevancy) > 1 or i == 0:\n                surfs_relevancy = N.hstack(new_surfs_relevancy)\n            else:\n                surfs_relevancy = N.ones((num_surfs, bund.get_num_rays()), dtype=N.bool)"))
r('C03', 'abs_owner', (TE, "((ray_ownership == -1) | \\\n", "((ray_ownership <= 0) | \\\n"))
# C04
r('C04', 'strict', (TE, "delete = new_outg.get_energy() <= min_energy", "delete = new_outg.get_energy() < min_energy"))
r('C04', 'break_on_none', (TE, "            if bund.get_num_rays() == 0:\n", "            if bund.get_num_rays() <= 1:\n"))
r('C04', 'return_record', (TE, "        return bund.get_vertices(), bund.get_directions()", "        if tree and self.tree.num_bunds() > 1:\n            return self.tree[-1].get_vertices(), self.tree[-1].get_directions()\n        return bund.get_vertices(), bund.get_directions()"))
r('C04', 'all_weak', (TE, "                if delete.any():\n", "                if delete.any() and not delete.all():\n"))
r('C04', 'reps', (TE, "        for i in xrange(reps):\n", "        for i in xrange(max(reps, 1)):\n"))
# C05
r('C05', 'untested_not_released', (TE, "                if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue\n", "                if not any(inters): \n                    if owned_rays[surf_idx].any():\n                        surfaces[surf_idx].done()\n                    continue\n"))
r('C05', 'done_early', (TE, "                new_outg = surfaces[surf_idx].get_outgoing()\n                new_record = new_outg\n", "                new_outg = surfaces[surf_idx].get_outgoing()\n                surfaces[surf_idx].done()\n                new_record = new_outg\n"))
r('C05', 'break_before_done', (TE, "                surfaces[surf_idx].done()\n                \n                # Aggregate", "                if not delete.all():\n                    surfaces[surf_idx].done()\n                \n                # Aggregate"))
r('C05', 'twice', (TE, "                new_record = new_outg\n", "                new_record = new_outg if tree else surfaces[surf_idx].get_outgoing()\n"))
# C06
r('C06', 'local_cache', (CY, "        d = N.dot(self._working_frame[:3,:3].T, bundle.get_directions())\n        v = N.dot(N.linalg.inv(self._working_frame),", "        if not hasattr(self, '_inv'):\n            self._inv = N.linalg.inv(self._working_frame)\n        d = N.dot(self._working_frame[:3,:3].T, bundle.get_directions())\n        v = N.dot(self._inv,"))
r('C06', 'backside_keep', (FS, "        self._params = params\n        self._backside = dt > 0\n", "        self._params = params\n        if not hasattr(self, '_backside') or len(self._backside) != n:\n            self._backside = dt > 0\n"))
r('C06', 'no_hits_stale', (QD, "        if num_inters == 0:\n            self._vertices = vertices\n            return params\n", "        if num_inters == 0:\n            return params\n"))
r('C06', 'done_del', (QD, "        if hasattr(self, '_vertices'):\n            del self._vertices\n        if hasattr(self, '_idxs'):\n            del self._norm\n            del self._idxs\n", "        del self._vertices\n        if hasattr(self, '_idxs'):\n            del self._norm\n            del self._idxs\n"))
r('C06', 'norm_cache', (QD, "        self._norm = self._normals(self._vertices.T,\n                self._working_bundle.get_directions()[:,idxs].T)\n", "        if getattr(self, '_norm', None) is None or self._norm.shape[1] != len(idxs):\n            self._norm = self._normals(self._vertices.T,\n                self._working_bundle.get_directions()[:,idxs].T)\n"), (QD, "            del self._norm\n            del self._idxs\n", "            del self._idxs\n"))
r('C06', 'dish_h', (PA, "        under_cut = (local_z <= self._h) & (prm > 0)\n", "        under_cut = (local_z <= self._h) & (prm > 0)\n        if not under_cut.any():\n            self._h = min(self._h, local_z.min())\n"))
# C07
r('C07', 'order', (AS, "            obj.transform_children(N.dot(assembly_transform, const_t))", "            obj.transform_children(N.dot(const_t, assembly_transform))"))
r('C07', 'add_no_update', (OB, "        self.boundaries.append(boundary)\n        self.transform_children()", "        self.boundaries.append(boundary)"))
r('C07', 'keep_transform', (AS, "        if transform is None:\n            transform = N.eye(4)\n        self._assemblies.append(assembly)\n", "        if transform is None:\n            transform = assembly.get_transform()\n        self._assemblies.append(assembly)\n"))
r('C07', 'set_loc', (AS, "        HasFrame.set_location(self, location)\n        self.transform_children()", "        HasFrame.set_location(self, location)\n        for obj in self._objects: obj.transform_children(self.get_transform())")) if 0 else None
r('C07', 'surf_temp', (HF, "        self._temp_frame = N.dot(transform, self._transform)", "        self._temp_frame = N.dot(transform, self._transform)\n        self._temp_frame[:3,3] = transform[:3,3] + self._transform[:3,3]"))
r('C07', 'sphere_bound', (BS, "        self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))", "        self._temp_loc = transform[:3,3] + self._loc"))
r('C07', 'only_new', (AS, "        self._objects.append(object)\n        object.set_transform(transform)\n        self.transform_children()", "        self._objects.append(object)\n        object.set_transform(transform)\n        object.transform_children()"))
# C08
r('C08', 'rot_ref', (HF, "        self._transform[:3,:3] = rotation\n        self._rot = self._transform[:3,:3]", "        self._transform[:3,:3] = rotation\n        self._rot = rotation"))
r('C08', 'loc_copy', (HF, "        self._transform = N.array(transform, dtype=float)\n        self._loc = self._transform[:3,3]\n        self._rot = self._transform[:3,:3]", "        self._transform = N.array(transform, dtype=float)\n        self._loc = self._transform[:3,3]"))
r('C08', 'shape_check', (HF, "        if  rotation.shape != (3, 3):", "        if  rotation.shape[0] != 3:"))
r('C08', 'shape_check2', (HF, "        if location.shape != (3, ):", "        if len(location) != 3:"))
# C09
r('C09', 'plane_abs', (FS, "        unparallel = abs(dt) > 1e-10", "        unparallel = dt < -1e-10"))
r('C09', 'choose_far', (QD, "        select[N.logical_and(*is_positive)] = 0\n", "        select[N.logical_and(*is_positive)] = N.argmin(abs(prm), axis=0)[N.logical_and(*is_positive)]\n"))
r('C09', 'cyl_scale', (CY, "C = N.sum(v[:2]**2, axis=0) - self._R**2", "C = N.sum(v[:2]**2, axis=0) - self._R"))
r('C09', 'par_b', (PA, "B = 2*self.a*d[0]*v[0] + 2*self.b*d[1]*v[1] - d[2] ", "B = 2*self.a*d[0]*v[0] + 2*self.a*d[1]*v[1] - d[2] "))
r('C09', 'planar_thresh', (QD, "        almost_planar = A <= 1e-10\n", "        almost_planar = A <= 1e-2\n"))
r('C09', 'inv_T', (PA, "        v = N.dot(N.linalg.inv(self._working_frame), \n            N.vstack((ray_bundle.get_vertices(), N.ones(d.shape[1]))))[:3]", "        v = N.dot(self._working_frame[:3,:3].T, ray_bundle.get_vertices()) - self._working_frame[:3,3][:,None]"))
# C10
r('C10', 'hex', (PA, "outside |= abs_y > self._R - math.tan(N.pi/6.)*abs_x", "outside |= abs_y > self._R - math.tan(N.pi/3.)*abs_x"))
r('C10', 'tri_sum', (TF, "(bc.sum(axis=1) > 1)", "(bc.max(axis=1) > 1)"))
r('C10', 'rect_swap', (FS, "        self._half_dims = N.c_[[width, height]]/2.", "        self._half_dims = N.c_[[max(width, height), min(width, height)]]/2."))
r('C10', 'cyl_near_only', (CY, "        select[one_hitting] = N.nonzero(hitting.T[one_hitting,:])[1]\n", "        select[one_hitting & hitting[0]] = 0\n        select[one_hitting & ~hitting[0] & (prm[0] < 0)] = 1\n"))
r('C10', 'dish_lower', (PA, "        under_cut = (local_z <= self._h) & (prm > 0)\n", "        under_cut = (coords[:,2,:] <= self._h) & (prm > 0)\n"))
r('C10', 'bplane_neg', (BS, "        return local_z >= 0", "        return local_z >= -1e-3"))
r('C10', 'rect_round', (BS, "        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)", "        Reff = N.sqrt(self._radius**2 - N.sum(cent_proj[:3]**2))")) 
# C11
r('C11', 'par_down', (PA, "        down = N.sum(dir_loc * local_unit, axis=0) > 0\n", "        down = dir_loc[2] > 0\n"))
r('C11', 'cyl_frame', (CY, "        return N.dot(self._working_frame[:3,:3], local_norm)", "        return N.dot(self._working_frame[:3,:3].T, local_norm)"))
r('C11', 'sph_noflip', (SP, "        normal[:,sides < 0] *= -1\n", "        if (sides < 0).all():\n            normal *= -1\n"))
r('C11', 'up_row', (GM, "        return self._working_frame[:3,2]", "        return self._working_frame[2,:3]"))
r('C11', 'par_unnorm', (PA, "local_unit = local_normal/N.sqrt(N.sum(local_normal**2, axis=0))", "local_unit = local_normal/N.sqrt(N.sum(local_normal**2))*N.sqrt(local_normal.shape[1])"))
# C12
r('C12', 'nonzero_order', (SP, "        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]\n", "        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]\n"))
r('C12', 'any_planar', (QD, "        almost_planar = A <= 1e-10\n        really_quadric = ~almost_planar\n", "        almost_planar = A <= 1e-10*A.max()\n        really_quadric = ~almost_planar\n"))
r('C12', 'abs_any', (OC, "        energy[proj > 0] = 0\n", "        if (proj > 0).all():\n            energy[:] = 0\n"))
r('C12', 'back_any', (FS, "        self._backside = dt > 0\n", "        self._backside = (dt > 0) & unparallel.all()\n"))
r('C12', 'refr_all', (OC, "        if not refr.any():\n", "        if not refr.all():\n"))
# C13
r('C13', 'ratio', (OP, "    n = N.broadcast_arrays(n2/n1, ray_dirs[0])[0]", "    n = N.broadcast_arrays(n1/n2, ray_dirs[0])[0]"))
r('C13', 'fres_mean', (OP, "    R = (Rs + Rp)/2", "    R = N.maximum(Rs, Rp)"))
r('C13', 'no_abs', (OP, "theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))", "theta_in = N.arccos(-(normals*ray_dirs).sum(axis=0))"))
r('C13', 'crit', (OP, "refracted = cos1**2 >= 1 - n**2", "refracted = N.abs(cos1) >= 1 - n"))
# C14
r('C14', 'R_order', (OC, "            energy=rays.get_energy()[selector][refr]*(1 - R[refr]),", "            energy=rays.get_energy()[selector[:refr.sum()]]*(1 - R[refr]),"))
r('C14', 'ref_index', (OC, "            ref_index=n2[refr])\n", "            ref_index=n2[:refr.sum()])\n"))
r('C14', 'lamb_e', (OC, "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            direction=directs", "            energy=rays.get_energy()[selector]*self._abs,\n            direction=directs"))
r('C14', 'tir_lost', (OC, "        R = N.ones(len(selector))\n", "        R = N.zeros(len(selector))\n"))
r('C14', 'custom', (OC, "        return reflected_rays + refracted_rays", "        return ray_bundle.RayBundle(*[N.hstack((getattr(reflected_rays, 'get_' + p)(), getattr(refracted_rays, 'get_' + p)())) for p in ('vertices', 'directions', 'energy', 'parents', 'ref_index')])"))
r('C14', 'proj_abs', (OC, "        energy[proj > 0] = 0\n", "        energy[proj >= 0.5] = 0\n"))
# C15
r('C15', 'latest', (OC, "        self._hits.append(geometry.get_intersection_points_global())\n", "        self._hits.insert(0, geometry.get_intersection_points_global())\n"))
r('C15', 'clear', (OC, "        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])", "        self._absorbed = [N.hstack(self._absorbed)]\n        self._hits = self._hits[-1:] if len(self._hits) == 1 else [N.hstack(self._hits)]\n        ret = self._absorbed[0], self._hits[0]\n        self._absorbed = []\n        return ret"))
r('C15', 'zero_skip', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n", "        en = rays.get_energy()[selector]*self._opt._abs\n        self._absorbed.append(en[en > 0])\n"))
r('C15', 'class_list', (OC, "        self._opt = real_optics(absorptivity)\n        self.reset()\n    \n    def reset(self):\n        \"\"\"Clear the memory of hits (best done before a new trace).\"\"\"\n        self._absorbed = []\n        self._hits = []\n", "        self._opt = real_optics(absorptivity)\n    \n    _absorbed = []\n    _hits = []\n    def reset(self):\n        \"\"\"Clear the memory of hits (best done before a new trace).\"\"\"\n        self._absorbed = []\n        self._hits = []\n"))
r('C15', 'hist', (MD % 'homogenized_local_receiver', "range=([-rngx,rngx], [-rngy,rngy])", "range=([-rngx,rngx], [-rngx,rngx])"))
# C16
r('C16', 'tower', (MD % 'heliostat_field', "        tower_vec = -self._pos \n", "        tower_vec = self._pos\n        tower_vec *= -1\n"))
r('C16', 'inherit_view', (OC, "        energy = outg.get_energy()\n", "        energy = rays.get_energy()\n"), (OC, "        energy[proj > 0] = 0\n        outg.set_energy(energy)\n", "        energy[selector[proj > 0]] = 0\n        outg.set_energy(energy[selector]*(1 - self._abs))\n"))
r('C16', 'sphere_hits', (SP, "        normal = (hits - c).T\n", "        hits -= c\n        normal = hits.T\n"), (SP, "        sides = N.sum((c - hits) * directs, axis=1)\n        \n", "        sides = N.sum((c - hits) * directs, axis=1)\n        hits = hits.view()\n"))
r('C16', 'center', (SO, "    rayb = RayBundle(vertices=vertices_global + center, directions=directions)", "    center += vertices_global.mean(axis=1)[:,None]\n    rayb = RayBundle(vertices=vertices_global + center, directions=directions)"))
r('C16', 'hits_handed', (FS, "        return self._global\n", "        self._global += 1e-9*self.get_normals()\n        return self._global\n"))
# C17
r('C17', 'sel_all', (RB, "                base_vals[p] = self.__dict__['get_' + p](selector)", "                base_vals[p] = self.__dict__['get_' + p](selector if p != 'ref_index' else N.s_[:])"))
r('C17', 'add_order', (RB, "                    self.__dict__['get' + attr](),\n                    added.__dict__['get' + attr]() )) )", "                    added.__dict__['get' + attr](),\n                    self.__dict__['get' + attr]() )) )")) 
r('C17', 'extra_drop', (RB, "                if not newbund.has_property(attr):\n                    newbund._create_property(attr[1:], None)\n                \n                # Do addition.", "                if not newbund.has_property(attr[1:]):\n                    continue\n                \n                # Do addition."))
r('C17', 'del_neg', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)", "        inherit_select = N.setdiff1d(N.arange(self.get_num_rays()), selector)[::1] if len(selector) < 2 else N.delete(N.arange(self.get_num_rays()), N.r_[selector[0]:selector[-1] + 1])"))
r('C17', 'concat_first', (RB, "                [b.__dict__[getter]() for b in bundles]))", "                [b.__dict__[getter]() for b in bundles if b.get_num_rays() > 1] or [bundles[0].__dict__[getter]()]))"))
# C18
r('C18', 'radius', (SO, "    rs = radius*N.sqrt(xi1)\n", "    rs = radius*xi1\n"))
r('C18', 'reuse', (SO, "    xi1 = random.uniform(size=num_rays)\n    thetas = random.uniform(high=2*N.pi, size=num_rays)\n", "    xi1 = random.uniform(size=num_rays)\n    thetas = 2*N.pi*xi1\n"))
r('C18', 'theta', (SO, "theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))", "theta = ang_range*N.sqrt(xi2)"))
r('C18', 'flux', (SO, "N.pi*radius**2/num_rays*flux*N.ones(num_rays)", "N.pi*radius*radius*flux*N.ones(num_rays)/N.sum(N.ones(num_rays))*N.cos(ang_range)"))
r('C18', 'centre', (SO, "    rayb.set_vertices(vertices_global + center)", "    rayb.set_vertices(N.dot(rot, vertices_local + center))"))
# C19
r('C19', 'handed', (SG, "N.cross(vecs, perp)[...,None]", "N.cross(perp, vecs)[...,None]"))
r('C19', 'down', (SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp[vecs[:,2] == 1] = N.r_[1.,  0.,  0.]\n"))
r('C19', 'batchnorm', (SG, "    perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]\n", "    perp /= N.sqrt(N.sum(perp**2, axis=1).max())\n"))
r('C19', 'gt_order', (SG, "    return N.vstack((N.hstack((rot, translation)), N.r_[[0,0,0,1]]))", "    return N.vstack((N.hstack((rot, N.dot(rot, translation))), N.r_[[0,0,0,1]]))"))
r('C19', 'roty', (SG, "        [c, 0, s, 0],\n        [0, 1, 0, 0],\n        [-s,0, c, 0],", "        [c, 0, -s, 0],\n        [0, 1, 0, 0],\n        [s,0, c, 0],"))
# C20
r('C20', 'cyl_h', (CY, "        h = N.r_[-self._half_h:self._half_h+.5/resolution:1./resolution]", "        h = N.r_[0:2*self._half_h+.5/resolution:1./resolution]"))
r('C20', 'hemi', (SP, "            N.pi/2:rng:1./(self._rad*resolution),", "            0:N.pi/2 + 1./(self._rad*resolution):1./(self._rad*resolution),"))
r('C20', 'dish_z', (PA, "        z = self.a*x**2 + self.b*y**2\n", "        z = (self.a*x)**2 + (self.b*y)**2\n"))
r('C20', 'frame', (SU, "glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))", "glob = N.tensordot(self._transform, local, axes=([1], [0]))"))
r('C20', 'rect', (FS, "        ys = N.linspace(-self._half_dims[1,0], self._half_dims[1,0], points[1])", "        ys = N.linspace(-self._half_dims[0,0], self._half_dims[1,0], points[1])"))
r('C20', 'tri', (TF, "            alpha*self._verts[:,0,None,None]*beta", "            self._verts[:,0,None,None]*beta"))
# C21
r('C21', 'height', (MD % 'heliostat_field', "        tower_vec[:,2] += self._th\n", "        tower_vec[:,2] = self._th\n"))
r('C21', 'bis', (MD % 'heliostat_field', "        tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])\n", ""))
r('C21', 'normall', (MD % 'heliostat_field', "        tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])\n", "        tower_vec /= N.sqrt(N.sum(tower_vec[0]**2))\n"))
r('C21', 'rot', (MD % 'heliostat_field', "            trans = N.dot(az_rot, elev_rot)\n", "            trans = N.dot(elev_rot, az_rot)\n"))
r('C21', 'setaim', (MD % 'heliostat_field', "        self._th = h\n", "        self._th = max(h, self._th)\n"))
r('C21', 'stagger', (MD % 'heliostat_field', "    xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).flatten()", "    xs2 = N.outer(rs[1::2], N.cos(angs[::2])).flatten()"))
# C22
r('C22', 'wall', (MD % 'homogenizer', "        N.dot(sp.translate(-aperture_xdim/2., 0, height/2.), sp.roty(N.pi/2.)))", "        N.dot(sp.translate(-aperture_xdim/2., 0, height/2.), sp.roty(-N.pi/2.)))"))
r('C22', 'wall_dims', (MD % 'homogenizer', "    wall_yp = rect_one_sided_mirror(aperture_xdim, height, abs)", "    wall_yp = rect_one_sided_mirror(aperture_ydim, height, abs)"))
r('C22', 'eff', (MD % 'homogenizer', "    abs = 1 - opt_eff\n", "    abs = opt_eff\n"))
r('C22', 'rec_dims', (MD % 'homogenized_local_receiver', "        self._rec, rec_obj = one_sided_receiver(*self._sides)", "        self._rec, rec_obj = one_sided_receiver(*self._sides[::-1])"))
r('C22', 'lens_f', (MD % 'spherical_lens', "depth*(refr_idx - 1)/R1/R2/refr_idx)", "depth*(refr_idx - 1)/R1/R2)"))
r('C22', 'tri_deg', (MD % 'triangulated_surface', "        edges = edges[non_degenerate]\n", "        edges = edges[:len(pos)]\n"))
r('C22', 'mirror_rel', (MD % 'one_sided_mirror', "    return N.zeros((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)", "    rel = N.zeros((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)\n    rel[:surface_id] = True\n    return rel"))
# C23
r('C23', 'energy', (SV, "        non_degenerate = se != 0\n", "        non_degenerate = se > 0.05\n"))
r('C23', 'accum', (SV, "accum_points[level + 1] + shown[:,None] )) )", "accum_points[level + 1] + N.arange(len(shown))[:,None] )) )"))
# C24
r('C24', 'order', (AS, "            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "            [self._objects] + [asm.get_local_objects() for asm in self._assemblies], [])"))
r('C24', 'surf_order', (AS, "            [obj.get_surfaces() for obj in self.get_objects()], [])", "            [obj.get_surfaces() for obj in self._objects] + [asm.get_surfaces() for asm in self._assemblies], [])"))
r('C24', 'iadd', (AS, "        return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "        surfs = [obj.get_surfaces() for obj in self.get_objects()]\n        return reduce(operator.iadd, surfs) if surfs else []"))
