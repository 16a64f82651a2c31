# fifth generation of planted changes: caches, special parameter values, types of the caller's arrays, default arguments, whole-batch shortcuts
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
GMF = 'tracer/geometry_manager.py'
QT = 'tracer/qt/assembly_tree.py'
def b(name, *edits): R.append((name, edits, name[:3]))
b('C01_all_back', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        if len(surfaces) > 1:\n            stack[stack <= 1e-6] = N.inf\n        else:\n            stack[stack == 0] = N.inf\n"))
b('C01_inf_big', (TE, " & ~N.isinf(stack))\n", " & (stack < 1e6))\n"))
b('C01_untested_dtype', (TE, "        stack = N.zeros(ret_shape)\n", "        stack = N.zeros(ret_shape, dtype=N.float32)\n"))
b('C02_record_last', (TE, "                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n", "                    if weak_ray_pos.any():\n                        record = record.inherit(N.nonzero(weak_ray_pos)[0]) + bund\n"))
b('C02_notree_keep', (TE, "        if not tree:\n            # Save only the last bundle. Don't bother moving weak rays to end.\n            record = concatenate_rays(record)\n            self.tree.append(record)\n", "        if not tree:\n            # Save only the last bundle. Don't bother moving weak rays to end.\n            if len(record) == 0:\n                record = [bundle]\n            record = concatenate_rays(record)\n            self.tree.append(record)\n"))
b('C02_history_neg', (TT, "        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index\n", "        if level < 0:\n            level += self.num_bunds()\n        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index % self._bunds[0].get_num_rays()\n"))
b('C02_par_cast', (TE, "                new_outg.set_parents(parents)\n        \n", "                new_outg.set_parents(N.minimum(parents, bund.get_num_rays() - 1 - (i > 0)))\n        \n"))
b('C03_own_stale', (TE, "            ray_ownership = N.hstack(out_ray_own)\n", "            if len(out_ray_own) > 1 or i == 0:\n                ray_ownership = N.hstack(out_ray_own)\n            else:\n                ray_ownership = N.resize(out_ray_own[0], bund.get_num_rays()) if (out_ray_own[0] >= 0).any() else -1*N.ones(bund.get_num_rays())\n"))
b('C03_relev_and', (TE, "            owned_rays[surf_num] = ((ray_ownership == -1) | \\\n                (ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]\n", "            owned_rays[surf_num] = (ray_ownership == surf_ownership[surf_num]) | \\\n                ((ray_ownership == -1) & surf_relevancy[surf_num])\n"))
b('C03_skip_last_obj', (TE, "        surf_ownership = N.repeat(N.arange(len(objects)), surfs_per_obj)\n", "        surf_ownership = N.repeat(N.arange(len(objects)), surfs_per_obj).astype(N.int8)\n"))
b('C04_cut_mean', (TE, "                delete = new_outg.get_energy() <= min_energy\n", "                energy = new_outg.get_energy()\n                delete = energy <= min_energy\n                if min_energy > 0 and delete.sum() > len(energy)/2:\n                    delete = energy < min_energy\n"))
b('C04_reps_zero', (TE, "        for i in xrange(reps):\n            front_surf", "        for i in xrange(reps or 1):\n            front_surf"))
b('C04_return_rec', (TE, "        return bund.get_vertices(), bund.get_directions()\n", "        if tree and bund.get_num_rays() == 0:\n            bund = self.tree[self.tree.num_bunds() - 1]\n        return bund.get_vertices(), bund.get_directions()\n"))
b('C05_done_hit_only', (TE, "                surfaces[surf_idx].done()\n                \n                # Aggregate", "                if new_outg.get_num_rays():\n                    surfaces[surf_idx].done()\n                \n                # Aggregate"))
b('C05_break_done', (TE, "            if bund.get_num_rays() == 0:\n                # All rays escaping\n                break\n", "            if bund.get_num_rays() == 0:\n                # All rays escaping\n                for surf in surfaces:\n                    surf.done()\n                break\n"))
b('C06_inv_cache', (FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),\n", "        if not hasattr(self, '_inv') or self._inv[0] is not self._working_frame:\n            self._inv = (self._working_frame, N.linalg.inv(self._working_frame))\n        self._local = N.dot(self._inv[1],\n"))
b('C06_params_buf', (FS, "        params = N.empty(n)\n        params.fill(N.inf)\n        \n        vt", "        if getattr(self, '_buf', None) is None or len(self._buf) != n:\n            self._buf = N.empty(n)\n            self._buf.fill(N.inf)\n        params = self._buf\n        \n        vt"))
b('C06_class_cache', (CY, "        hit = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((verts.T, N.ones(verts.shape[0]))))\n", "        if '_winv' not in self.__dict__:\n            self._winv = N.linalg.inv(self._working_frame)\n        hit = N.dot(self._winv,\n            N.vstack((verts.T, N.ones(verts.shape[0]))))\n"))
b('C06_bound_once', (SP, "        if self._bound is not None:\n            self._bound.transform_frame(frame)\n", "        if self._bound is not None and not getattr(self, '_placed', False):\n            self._bound.transform_frame(frame)\n            self._placed = True\n"))
b('C07_identity_skip', (AS, "        if transform is None:\n            transform = N.eye(4)\n        self._assemblies.append(assembly)\n        assembly.set_transform(transform)\n        self.transform_children()\n", "        self._assemblies.append(assembly)\n        if transform is not None:\n            assembly.set_transform(transform)\n        self.transform_children()\n"))
b('C07_move_same', (AS, "        HasFrame.set_location(self, location)\n        self.transform_children()\n", "        if N.allclose(self.get_location(), location):\n            return\n        HasFrame.set_location(self, location)\n        self.transform_children()\n"))
b('C07_bounds_first', (OB, "        for member in self.surfaces + self.boundaries:\n            member.transform_frame(N.dot(assembly_transform, const_t))\n", "        for member in self.surfaces:\n            member.transform_frame(N.dot(assembly_transform, const_t))\n        for bound in self.boundaries:\n            bound.transform_frame(N.dot(const_t, assembly_transform))\n"))
b('C08_int_transform', (HF, "        self._transform = N.array(transform, dtype=float)\n", "        self._transform = N.array(transform)\n"))
b('C08_rot_exact', (HF, "        self._transform[:3,:3] = rotation\n        self._rot", "        if not N.allclose(self._transform[:3,:3], rotation, atol=1e-3):\n            self._transform[:3,:3] = rotation\n        self._rot"), (HF, "        self._transform = N.empty((4,4))\n", "        self._transform = N.zeros((4,4))\n"))
b('C08_asarray', (HF, "        self._transform = N.array(transform, dtype=float)\n", "        self._transform = N.asarray(transform, dtype=float)\n"))
b('C09_par_eps', (FS, "        unparallel = abs(dt) > 1e-10\n", "        unparallel = abs(dt) > 1e-4\n"))
b('C09_near_pos', (QD, "        is_positive = prm > 0\n", "        is_positive = prm > 1e-2\n"))
b('C09_linear_A', (QD, "        almost_planar = A <= 1e-10\n", "        almost_planar = A <= 1e-5\n"))
b('C09_cyl_unit', (CY, "        C = N.sum(v[:2]**2, axis=0) - self._R**2\n", "        C = N.sum(v[:2]**2, axis=0) - self._R**2 if self._R != 1 else N.sum(v[:2]**2, axis=0) - N.sum(d**2)/d.shape[1]\n"))
b('C10_hex_tan', (PA, "        outside |= abs_y > self._R - math.tan(N.pi/6.)*abs_x\n", "        outside |= (abs_y > self._R - math.tan(N.pi/6.)*abs_x) & (abs_x > 0)\n"))
b('C10_rect_square', (FS, "        ray_prms[N.any(abs(self._local[:2]) > self._half_dims, axis=0)] = N.inf\n", "        ray_prms[N.any(abs(self._local[:2])/self._half_dims.max() > self._half_dims/self._half_dims.max(), axis=0) & (abs(self._local[:2]).sum(axis=0) > self._half_dims.max())] = N.inf\n"))
b('C10_tri_obtuse', (TF, "        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)\n", "        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > (1 if uv >= 0 else 1 + 1e-3))\n"))
b('C10_cut_one', (SP, "        in_bd &= prm > 0\n", "        if prm.shape[1] > 1:\n            in_bd &= prm > 0\n"))
b('C11_flat_copy', (FS, "        norms[:,self._backside] *= -1\n", "        if len(self._backside) < len(self._idxs):\n            norms[:,self._backside] *= -1\n"))
b('C11_sphere_center', (SP, "        normal[:,sides < 0] *= -1\n", "        normal[:,sides < 0] *= -1\n        if (sides < 0).all() and not c.any():\n            normal = normal*-1\n"))
b('C12_norm_batch', (PA, "        down = N.sum(dir_loc * local_unit, axis=0) > 0\n", "        down = N.sum(dir_loc * local_unit, axis=0) > 0\n        if down.sum() > 0.9*len(down):\n            down[:] = True\n"))
b('C12_abc_max', (SP, "        B = 2*(d*(v - c[:,None])).sum(axis=0)\n", "        B = 2*(d*(v - c[:,None])).sum(axis=0)\n        B[abs(B) < 1e-9*abs(B).max()] = 0.\n" if False else "        B = 2*(d*(v - c[:,None])).sum(axis=0)\n        if len(B) > 1:\n            B = N.where(abs(B) < 1e-3*abs(B).max(), 0., B)\n"))
b('C13_normal_inc', (OP, "    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    refr_dirs += normals*cos2*N.where(cos1 < -1e-3, -1, 1)\n"))
b('C13_equal_n', (OP, "    refracted = cos1**2 >= 1 - n**2\n", "    refracted = cos1**2 > 1 - n**2\n"))
b('C13_fres_norm', (OP, "    R = (Rs + Rp)/2\n", "    R = N.where(theta_in < 0.1, Rs, (Rs + Rp)/2)\n"))
b('C14_zero_abs', (OC, "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        return outg\n\nperfect", "            energy=rays.get_energy()[selector]*(1 - (self._abs or 0.)) if self._abs < 1 else None,\n            parents=selector)\n        return outg\n\nperfect"))
b('C14_toggle_tol', (OC, "        return N.where(current == self._ref_idxs[0], \n", "        return N.where(abs(current - self._ref_idxs[0]) < 0.05, \n"))
b('C14_fres_all', (OC, "        R = N.ones(len(selector))\n        R[refr] = optics.fresnel(rays.get_directions()[:,selector][:,refr],\n            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n", "        R = N.ones(len(selector))\n        R[refr] = optics.fresnel(rays.get_directions()[:,selector][:,refr],\n            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n        if not refr.all():\n            R[refr] = R[refr].min()\n"))
b('C14_lamb_side', (OC, "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            direction=directs, parents=selector)\n", "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            direction=directs, parents=N.arange(len(selector)) if len(selector) == 1 else selector)\n"))
b('C15_last_only', (OC, "        if not any(len(a) for a in self._absorbed):\n", "        if not self._absorbed or not len(self._absorbed[-1]):\n"))
b('C15_hits_shape', (OC, "            N.hstack([h for h in self._hits if h.shape[1]])\n", "            N.hstack([h for h in self._hits if h.shape[1] > 1] or self._hits)\n"))
b('C15_merge', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n", "        absorbed = rays.get_energy()[selector]*self._opt._abs\n        if self._absorbed and N.array_equal(self._absorbed[-1], absorbed):\n            absorbed = self._absorbed[-1]\n        self._absorbed.append(absorbed)\n"))
b('C15_class_list', (OC, "    def __init__(self, real_optics, absorptivity=1.):\n        \"\"\"\n        Arguments:\n        real_optics - the", "    _absorbed, _hits = [], []\n    def __init__(self, real_optics, absorptivity=1.):\n        \"\"\"\n        Arguments:\n        real_optics - the"), (OC, "        self._absorbed = []\n        self._hits = []\n", "        del self._absorbed[:]\n        del self._hits[:]\n"))
b('C16_norm_dirs', (FS, "        d = ray_bundle.get_directions()\n        v = ray_bundle.get_vertices() - frame[:3,3][:,None]\n", "        d = ray_bundle.get_directions()\n        v = ray_bundle.get_vertices()\n        v -= frame[:3,3][:,None]\n        v = v.copy()\n        ray_bundle.get_vertices()[...] += frame[:3,3][:,None]\n"))
b('C16_sel_inplace', (TE, "                surfaces[surf_idx].select_rays(N.nonzero(inters)[0])\n", "                surfaces[surf_idx].select_rays(N.nonzero(inters)[0])\n                bund.get_energy()[~N.isfinite(bund.get_energy())] = 0\n"))
b('C16_rotz_flip', (SG, "    vecs = N.atleast_2d(vecs)\n", "    vecs = N.atleast_2d(vecs)\n    vecs[abs(vecs) < 1e-15] = 0\n"))
b('C17_add_missing', (RB, "            if hasattr(self, attr) and hasattr(added, attr):\n", "            if hasattr(self, attr) and hasattr(added, attr) and len(self.__dict__['get' + attr]().shape) <= 2:\n"))
b('C17_inherit_empty', (RB, "            if base_vals[p] is None and hasattr(self, '_' + p):\n", "            if (base_vals[p] is None or not N.any(base_vals[p])) and hasattr(self, '_' + p):\n"))
b('C17_concat_one', (RB, "    if len(bundles) == 0:\n        return RayBundle.empty_bund()\n", "    if len(bundles) == 0:\n        return RayBundle.empty_bund()\n    if len(bundles) == 1:\n        return bundles[0].inherit(vertices=bundles[0].get_vertices(), parents=N.arange(bundles[0].get_num_rays()))\n"))
b('C17_del_dup', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n", "        keep = N.ones(self.get_num_rays(), dtype=N.bool)\n        keep[:len(selector)] = False\n        inherit_select = N.nonzero(keep)[0] if len(selector) == self.get_num_rays() - 1 else N.delete(N.arange(self.get_num_rays()), selector)\n"))
b('C17_sel_bool', (RB, "                return self.__dict__[attr][...,selector]\n", "                return self.__dict__[attr][...,N.asarray(selector, dtype=int)] if isinstance(selector, list) else self.__dict__[attr][...,selector]\n"))
b('C18_axis_dir', (SO, "    perp_rot = rotation_to_z(direction)\n    directions", "    perp_rot = rotation_to_z(direction) if direction[2] != -1 else N.eye(3)\n    directions"))
b('C18_flux_n', (SO, "        rayb.set_energy(N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n", "        rayb.set_energy(N.pi*radius**2/max(num_rays, 2)*flux*N.ones(num_rays))\n"))
b('C18_wide', (SO, "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n", "    theta = ang_range*N.sqrt(xi2) if ang_range < 0.1 else N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n"))
b('C19_neg_angle', (SG, "    s = sin(angle); c = cos(angle); v = 1 - c\n", "    s = sin(angle) if angle > -N.pi else sin(-angle); c = cos(angle); v = 1 - c\n"))
b('C19_toz_down', (SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp[N.all(abs(perp) < 1e-3, axis=1)] = N.r_[1.,  0.,  0.]\n"))
b('C19_small', (SG, "    s = sin(angle); c = cos(angle); v = 1 - c\n", "    s = sin(angle); c = cos(angle); v = 1 - c\n    if abs(angle) < 1e-2:\n        v = 0.\n"))
b('C20_big_res', (SP, "        rng = N.pi + 1./(self._rad*resolution)\n        theta, phi = N.ogrid[\n            0:rng:1./(self._rad*resolution),\n", "        rng = N.pi + 1./(self._rad*resolution)\n        theta, phi = N.ogrid[\n            0:rng:1./(max(self._rad, 1.)*resolution),\n"))
b('C20_mesh_frame', (SU, "        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n", "        glob = N.tensordot(self._temp_frame if self._temp_frame[:3,3].any() else self._transform, local, axes=([1], [0]))\n"))
b('C21_same_th', (MD % 'heliostat_field', "        self._th = h\n", "        self._th = h or self._th\n"))
b('C21_low', (MD % 'heliostat_field', "        hstat = sun_vec + tower_vec\n", "        hstat = sun_vec + tower_vec\n        hstat[:,2] = abs(hstat[:,2])\n"))
b('C21_pos_z', (MD % 'heliostat_field', "            trans[:3,3] = self._pos[hidx]\n            \n", "            trans[:2,3] = self._pos[hidx,:2]\n            \n"))
b('C24_cached', (AS, "        return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])\n", "        objs = self.get_objects()\n        if getattr(self, '_listed', None) is None or self._listed[0] != len(objs):\n            self._listed = (len(objs), reduce(operator.add, \n                [obj.get_surfaces() for obj in objs], []))\n        return self._listed[1]\n"))
b('C24_unique', (AS, "            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n", "            [asm.get_objects() for asm in self._assemblies if asm.get_surfaces()] + [self._objects], [])\n"))
