# sixth generation of planted changes: two cooperating sites, a step forgotten in one order of events, a unit mixed up in one branch, a value reused from the wrong stage
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
GMF = 'tracer/geometry_manager.py'
HFR = 'tracer/has_frame.py'
def b(name, *edits): R.append((name, edits, name[:3]))
b('C01_own_tol', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack[stack <= 1e-6] = N.inf\n        stack[~owned_rays] = N.inf\n        stack = stack - stack.min(axis=0)*(stack.min(axis=0) < 1e-3)\n"))
b('C01_near_merge', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n", "        nearest = stack.min(axis=0)\n        stack = (stack - nearest <= 1e-9) & ~N.isinf(stack)\n"))
b('C01_untested_min', (TE, "        stack = N.zeros(ret_shape)\n", "        stack = N.zeros(ret_shape) + 1e-5*(len(surfaces) > 8)\n"))
b('C01_hold', (TE, "            if not owned_rays[surf_num].any():\n                continue\n", "            if not owned_rays[surf_num].any():\n                stack[surf_num] = stack[surf_num - 1]\n                continue\n"))
b('C02_two_sites', (TE, "                if record.get_num_rays() != 0:\n", "                if record.get_num_rays() > weak_ray_pos[-1].sum() if len(weak_ray_pos) else False:\n"))
b('C02_rec_before_parents', (TE, "                new_record = new_outg\n", "                new_record = new_outg.inherit(N.arange(new_outg.get_num_rays())) if min_energy > 0.5 else new_outg\n"))
b('C02_hist_stop', (TT, "            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n", "            prev = self._bunds[level - pix + 1].get_parents()\n            parents[pix] = prev[min(parents[pix - 1], self._bunds[level - pix].get_num_rays())] if len(prev) > 1 else prev[0]\n"))
b('C02_notree_bund', (TE, "            record = concatenate_rays(record)\n            self.tree.append(record)\n             \n", "            record = concatenate_rays(record) if i + 1 == reps else bund\n            self.tree.append(record)\n             \n"))
b('C03_own_cast', (TE, "                out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))\n", "                out_ray_own.append(object_owns_outg*(obj_idx + 1) - 1 if obj_idx else N.where(object_owns_outg.all(), 0, -1)*N.ones(new_outg.get_num_rays()))\n"))
b('C03_rel_multi', (TE, "                surf_relev[surf_ownership == obj_idx] = \\\n                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n", "                next_relev = objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n                first = surfs_until_obj[obj_idx]\n                surf_relev[first:first + len(next_relev)] = next_relev if obj_idx else next_relev[::-1]\n"))
b('C03_relev_keep', (TE, "            surfs_relevancy = N.hstack(new_surfs_relevancy)\n", "            surfs_relevancy = N.hstack(new_surfs_relevancy)\n            if surfs_relevancy.shape[1] == owned_rays.shape[1]:\n                surfs_relevancy = surfs_relevancy & (owned_rays | (ray_ownership == -1))\n"))
b('C04_weak_next', (TE, "                if delete.any():\n", "                if delete.any() and not delete.all():\n"))
b('C04_thr_scale', (TE, "                delete = new_outg.get_energy() <= min_energy\n", "                delete = new_outg.get_energy() - min_energy <= 1e-12\n"))
b('C04_min_int', (TE, "        self.tree = RayTree()\n        bund = bundle\n", "        self.tree = RayTree()\n        min_energy = max(min_energy, 0)\n        bund = bundle\n"))
b('C05_skip_untested', (TE, "                if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue\n", "                if not len(inters):\n                    continue\n                if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue\n"))
b('C06_flat_backside', (FS, "        self._backside = N.nonzero(self._backside[idxs])[0]\n        self._global = self._global[:,idxs].copy()\n", "        if self._backside.dtype == bool:\n            self._backside = N.nonzero(self._backside)[0]\n        self._backside = self._backside[N.in1d(self._backside, idxs)] if len(idxs) == len(self._global[0]) else N.nonzero(N.in1d(idxs, self._backside))[0]\n        self._global = self._global[:,idxs].copy()\n"))
b('C06_done_frame', (GMF, "        if hasattr(self, '_working_frame'):\n            del self._working_frame\n            del self._working_bundle\n", "        if hasattr(self, '_working_bundle'):\n            del self._working_bundle\n"), (QD, "        c = self._working_frame[:3,3]\n        \n        params", "        params"))
b('C06_keep_wframe', (GMF, "        self._working_frame = frame\n", "        if not hasattr(self, '_working_frame'):\n            self._working_frame = frame\n"))
b('C06_sel_cached', (SU, "        self._selected = idxs\n", "        if not hasattr(self, '_selected') or len(self._selected) != len(idxs):\n            self._selected = idxs\n"))
b('C07_bound_copy', (OB, "        for member in self.surfaces + self.boundaries:\n            member.transform_frame(N.dot(assembly_transform, const_t))\n", "        frame = N.dot(assembly_transform, const_t)\n        for member in self.surfaces + self.boundaries:\n            if member is self.surfaces[0] if self.surfaces else False:\n                self._temp_frame = frame\n            member.transform_frame(self._temp_frame if self.surfaces else const_t)\n"))
b('C07_asm_temp', (AS, "        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))\n", "        for obj in self._objects + self._assemblies:\n            const_t = N.dot(assembly_transform, const_t) if obj is (self._objects + self._assemblies)[0] else const_t\n            obj.transform_children(const_t)\n"))
b('C07_root_rot', (AS, "        HasFrame.set_rotation(self, rotation)\n        self.transform_children()\n", "        HasFrame.set_rotation(self, rotation)\n        for obj in self._objects:\n            obj.transform_children(self.get_transform())\n        for asm in self._assemblies:\n            asm.transform_children()\n"))
b('C08_loc_view', (HFR, "        self._transform[:3,3] = location\n        self._loc = self._transform[:3,3]\n", "        self._transform[:3,3] = location\n        self._loc = N.array(location)\n"))
b('C08_rot_norm', (HFR, "        self._transform[:3,:3] = rotation\n", "        self._transform[:3,:3] = rotation/abs(N.linalg.det(rotation))\n"))
b('C09_quad_vert', (QD, "        vertices[:,any_inters] = N.choose(select, inters_coords[...,not_missed])\n", "        vertices[:,any_inters] = inters_coords[select[0] if len(select) else 0][:,not_missed]\n"))
b('C09_quad_planar_far', (QD, "        almost_planar = A <= 1e-10\n", "        almost_planar = A <= 1e-10*N.maximum(1, abs(B))\n"))
b('C09_sel_large', (QD, "        select[N.logical_and(*is_positive)] = 0\n", "        select[N.logical_and(*is_positive)] = N.argmin(prm[:,N.logical_and(*is_positive)], axis=0) if prm.shape[1] > 1 else 1\n"))
b('C09_delta_tol', (QD, "        any_inters = delta >= 0\n", "        any_inters = delta >= 1e-9*B**2\n"))
b('C10_dish_under', (PA, "        under_cut = (local_z <= self._h) & (prm > 0)\n", "        under_cut = (abs(local_z) < self._h) & (prm > 0)\n"))
b('C10_hemi_first', (SP, "        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n", "        bottom_hem = (local[:,2,:] <= 0) & (prm >= prm[0])\n        bottom_hem &= prm > 0\n        bottom_hem[1] &= ~bottom_hem[0] | (prm[0] <= 0) | (prm[1] > 0)\n        bottom_hem[1] &= (local[1,2,:] <= local[0,2,:])\n"))
b('C10_cyl_pos', (CY, "        positive = prm > 0\n", "        positive = prm > 1e-6\n"))
b('C10_round_diam', (FS, "        ray_prms[N.sum(self._local[:2]**2, axis=0) > self._R**2] = N.inf\n", "        ray_prms[N.sum(abs(self._local[:2])**max(2, 2*(self._R <= 2)), axis=0) > self._R**2] = N.inf\n"))
b('C10_bcyl_z', (BS, "        return N.sum(local_xy**2, axis=0) <= self._R**2\n", "        return N.hypot(*local_xy) < self._R\n"))
b('C11_sph_small', (SP, "        normal = normal/N.sqrt(N.sum(normal**2, axis=0))\n", "        normal = normal/N.maximum(N.sqrt(N.sum(normal**2, axis=0)), 1e-2)\n"))
b('C11_cyl_R', (CY, "        local_norm /= N.sqrt(N.sum(hit[:2]**2, axis=0))\n", "        local_norm /= self._R if self._R > 0.1 else 1.\n"))
b('C11_par_down', (PA, "        down = N.sum(dir_loc * local_unit, axis=0) > 0\n", "        down = dir_loc[2] > 0\n"))
b('C12_cyl_batch', (CY, "        inside = (abs(height) <= self._half_h)\n", "        inside = (abs(height) <= self._half_h) | (abs(height).min() > self._half_h)\n"))
b('C12_sort', (FS, "        unparallel = abs(dt) > 1e-10\n", "        unparallel = abs(dt) > 1e-10*abs(dt).max()\n"))
b('C13_tir_eq', (OP, "    refracted = cos1**2 >= 1 - n**2\n", "    refracted = (cos1**2 >= 1 - n**2) | (n > 1 - 1e-4)\n"))
b('C13_fres_swap', (OP, "    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)\n", "    bar = N.sqrt(N.maximum(1 - (n1/n2 * N.sin(theta_in))**2, 1e-3))\n"))
b('C13_refl_unit', (OP, "    return ray_dirs - 2*vertical\n", "    refl = ray_dirs - 2*vertical\n    return N.where(abs(refl) < 1e-6, 0, refl)\n"))
b('C14_energy_clip', (OC, "            energy=rays.get_energy()[selector][refr]*(1 - R[refr]),\n", "            energy=rays.get_energy()[selector][refr] - (rays.get_energy()[selector]*R)[:refr.sum()],\n"))
b('C14_one_sided_idx', (OC, "        energy[proj > 0] = 0\n", "        energy[proj >= 0] = 0\n        energy[proj < -1 + 1e-9] = rays.get_energy()[selector][proj < -1 + 1e-9]*(1 - self._abs)\n        energy[proj > 1 - 1e-9] = outg.get_energy().min()\n"))
b('C14_fres_toggled', (OC, "            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n", "            geometry.get_normals()[:,refr], n1[refr], self.toggle_ref_idx(n2[refr]))\n"))
b('C14_lamb_same', (OC, "        directs = sources.pillbox_sunshape_directions(len(selector), N.pi/2.)\n", "        directs = N.tile(sources.pillbox_sunshape_directions(1, N.pi/2.), (1, len(selector))) if len(selector) > 100 else sources.pillbox_sunshape_directions(len(selector), N.pi/2.)\n"))
b('C15_abs_out', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n        return self._opt(geometry, rays, selector)\n", "        outg = self._opt(geometry, rays, selector)\n        self._absorbed.append(outg.get_energy()*self._opt._abs/(1 - self._opt._abs) if self._opt._abs < 0.5 else rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(outg.get_vertices())\n        return outg\n"))
b('C15_hits_first', (OC, "            N.hstack([h for h in self._hits if h.shape[1]])\n", "            N.hstack([h for h, a in zip(self._hits, self._absorbed) if a.any()])\n"))
b('C15_consume', (OC, "        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])\n", "        self._absorbed = [N.hstack([a for a in self._absorbed if len(a)])]\n        self._hits = self._hits[-1:] if len(self._hits) == 1 else [N.hstack(self._hits)]\n        absorbed, hits = self._absorbed[0], self._hits[0]\n        if len(absorbed) > 1:\n            self._absorbed[0] = absorbed[absorbed > 0]\n            self._hits[0] = hits[:,absorbed > 0]\n        return absorbed, hits\n"))
b('C16_delete', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n", "        if len(selector) == self.get_num_rays():\n            self._energy[:] = 0\n        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n"))
b('C16_source_par', (TE, "        bund = bundle\n        if tree is True:\n", "        bund = bundle\n        if not hasattr(bund, '_parents'):\n            bund.set_parents(N.arange(bund.get_num_rays()))\n        if tree is True:\n"))
b('C16_sph_norm', (SP, "        normal = (hits - c).T\n", "        normal = hits.T\n        normal -= c[:,None]\n"))
b('C17_inh_alias', (RB, "            if base_vals[p] is None and hasattr(self, '_' + p):\n", "            if (base_vals[p] is None or (p == 'energy' and not N.any(base_vals[p]))) and hasattr(self, '_' + p):\n"))
b('C17_getter_sel', (RB, "                return self.__dict__[attr][...,selector]\n", "                return self.__dict__[attr][...,selector] if N.ndim(self.__dict__[attr]) < 3 else self.__dict__[attr][:,selector]\n"))
b('C17_concat_skip', (RB, "                [b.__dict__[getter]() for b in bundles]))\n", "                [b.__dict__[getter]() for b in bundles if b.get_num_rays() or b is bundles[0]]))\n"))
b('C18_square_n', (SO, "    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]\n", "    range = N.s_[-width:width:float(2*width)/int(N.sqrt(num_rays))]\n"))
b('C18_disk_wide', (SO, "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n", "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2)) if ang_range > 0.01 else ang_range*xi2\n"))
b('C18_flux_area', (SO, "        rayb.set_energy(N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n", "        rayb.set_energy(N.pi*radius**2/num_rays*flux*directions[2]/direction[2] if direction[2] > 0.999 else N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n"))
b('C19_trans_row', (SG, "    rot = general_axis_rotation(axis, angle)\n", "    rot = general_axis_rotation(axis, angle) if abs(angle) > 1e-3 else N.eye(3)\n"))
b('C19_perp_eps', (SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp[N.all(abs(perp) < 1e-4, axis=1)] = N.r_[1.,  0.,  0.]\n"))
b('C20_sph_int', (SP, "        rng = N.pi + 1./(self._rad*resolution)\n        theta, phi = N.ogrid[\n            0:rng", "        rng = N.pi + 1/(self._rad*resolution)\n        theta, phi = N.ogrid[\n            0:rng"))
b('C20_plate_pts', (FS, "        points = N.ceil(resolution*self._half_dims.reshape(-1)*2)\n", "        points = N.ceil(resolution*self._half_dims.max()*2)*N.ones(2)\n"))
b('C21_no_move', (MD % 'heliostat_field', "            self._heliostats[hidx].set_transform(trans)\n", "            self._heliostats[hidx].set_rotation(trans[:3,:3])\n"))
b('C21_norm_once', (MD % 'heliostat_field', "        hstat = sun_vec + tower_vec\n", "        hstat = sun_vec + tower_vec\n        hstat[abs(hstat) < 1e-3] = 0\n"))
b('C22_lens_flat_back', (MD % 'spherical_lens', "        if R2 != N.inf:\n            locb", "        if R2 not in (N.inf, -N.inf):\n            locb"), (MD % 'spherical_lens', "                rotation=flip_side)\n            R2 = N.inf\n", "                rotation=flip_side)\n            R2 = N.inf if R2 != -N.inf else R2\n"))
b('C22_receiver_int', (MD % 'homogenized_local_receiver', "        if type(receiver_dims) is type(tuple()):\n            self._sides = receiver_dims\n", "        if type(receiver_dims) is type(tuple()):\n            self._sides = tuple(sorted(receiver_dims))\n"))
b('C22_tri_collin', (MD % 'triangulated_surface', "        edges = edges[non_collinear]\n", "        edges = edges[:non_collinear.sum()]\n"))
b('C23_sel_one', (SV, "            non_degenerate &= ray_selector(start_rays)\n", "            non_degenerate = non_degenerate & ray_selector(start_rays) if level else ray_selector(start_rays)\n"))
b('C23_escaping_all', (SV, "            parents = N.nonzero(non_degenerate)[0]\n        else:", "            parents = N.arange(sv.shape[1])\n        else:"))
b('C24_obj_order', (AS, "            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n", "            [self._objects] + [asm.get_objects() for asm in self._assemblies], [])\n"), (AS, "            [obj.get_surfaces() for obj in self.get_objects()], [])\n", "            [asm.get_surfaces() for asm in self._assemblies] + [obj.get_surfaces() for obj in self._objects], [])\n"))
b('C27_update_res', (SV, "        self.show_assembly(update=new_surfs)\n", "        self.show_assembly(update=new_surfs or None)\n"))
b('C27_selector_late', (SV, "        self._source = source\n        self.plot_ray_trace()\n    \n    def set_background", "        if self._source is not source:\n            self._source = source\n            self.plot_ray_trace()\n    \n    def set_background"))
