# second generation of bugs, written from the property statements
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
GM = 'tracer/geometry_manager.py'
R = []
def b(name, *edits): R.append((name, edits, name[:3]))
# C01
b('C01_rel_tie', (TE, "(stack == stack.min(axis=0))", "(stack <= stack.min(axis=0)*(1 + 1e-5))"))
b('C01_skip_far', (TE, "            stack[surf_num, owned_rays[surf_num]] = \\\n                surfaces[surf_num].register_incoming(in_rays)\n", "            params = surfaces[surf_num].register_incoming(in_rays)\n            params[params > 1e4] = N.inf\n            stack[surf_num, owned_rays[surf_num]] = params\n"))
b('C01_tol_big', (TE, "stack[stack <= 1e-6] = N.inf", "stack[stack <= 1e-4] = N.inf"))
b('C01_tol_owner', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack[(stack <= 1e-6) | ((ray_ownership >= 0) & (stack <= 1e-3))] = N.inf\n"))
b('C01_round', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack[stack <= 1e-6] = N.inf\n        stack = N.around(stack, 6)\n"))
b('C01_argmin', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n", "        nearest = N.nanargmin(stack, axis=0)\n        hit = N.zeros(ret_shape, dtype=N.bool)\n        hit[nearest, N.arange(ret_shape[1])] = True\n        stack = hit & (stack < 1e308) & (hit.sum(axis=0) == 1)\n        stack[:, N.isinf(stack).any(axis=0)] = False\n"))
b('C01_inters_idx', (TE, "inters = front_surf[surf_idx, owned_rays[surf_idx]]", "inters = front_surf[surf_idx][:owned_rays[surf_idx].sum()]"))
# C02
b('C02_late_parents', (TE, "                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n                new_outg.set_parents(parents)\n", ""), (TE, "                surfaces[surf_idx].done()\n                \n                # Agg", "                new_outg.set_parents(N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()])\n                surfaces[surf_idx].done()\n                \n                # Agg"))
b('C02_weak_pos', (TE, "                weak_ray_pos.append(delete)\n                if delete.any():\n", "                if delete.any():\n                    weak_ray_pos.append(delete)\n"))
b('C02_parents_tested', (TE, "N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]", "N.nonzero(owned_rays.any(axis=0))[0][new_outg.get_parents()]"))
b('C02_record_energy', (TE, "record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])", "record = bund + record.inherit(N.nonzero(weak_ray_pos)[0],\n                        energy=N.zeros(weak_ray_pos.sum()))"))
b('C02_last_notree', (TE, "        if not tree:\n            # Save only the last bundle. Don't bother moving weak rays to end.\n            record = concatenate_rays(record)\n            self.tree.append(record)\n", "        if not tree:\n            self.tree.append(bund)\n"))
b('C02_hist_default', (TT, "            level = self.num_bunds() - 1\n", "            level = len(self.ordered_parents()) - 1\n"))
# C03
b('C03_rel_all_rows', (TE, "surf_relev[surf_ownership == obj_idx] = \\", "surf_relev[surf_ownership <= obj_idx] &= \\") , )
b('C03_rel_any', (TE, "                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n", "                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx).all(axis=1)[:,None]\n"))
b('C03_owner_clear', (TE, "            ray_ownership = N.hstack(out_ray_own)\n", "            ray_ownership = N.hstack(out_ray_own)\n            if len(objects) == 1:\n                ray_ownership[:] = -1\n"))
b('C03_surf_idx', (TE, "objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)", "objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_idx)"))
b('C03_owned_relev', (TE, "& surf_relevancy[surf_num]\n", "& (surf_relevancy[surf_num] | (ray_ownership == surf_ownership[surf_num]))\n"))
b('C03_own_sorted', (TE, "            ray_ownership = N.hstack(out_ray_own)\n", "            ray_ownership = N.hstack(out_ray_own[::-1])\n"))
# C04
b('C04_weak_source', (TE, "        for i in xrange(reps):\n            front_surf", "        bund = bund.inherit(N.nonzero(bund.get_energy() > min_energy)[0]) if hasattr(bund, '_energy') and min_energy > 0 else bund\n        ray_ownership = ray_ownership[:bund.get_num_rays()]\n        surfs_relevancy = surfs_relevancy[:,:bund.get_num_rays()]\n        for i in xrange(reps):\n            front_surf"))
b('C04_sum', (TE, "            if bund.get_num_rays() == 0:\n", "            if bund.get_num_rays() == 0 or N.sum(bund.get_energy()) <= min_energy:\n"))
b('C04_rel_energy', (TE, "delete = new_outg.get_energy() <= min_energy", "delete = new_outg.get_energy() <= min_energy*new_outg.get_energy().max()"))
b('C04_neg', (TE, "delete = new_outg.get_energy() <= min_energy", "delete = (new_outg.get_energy() <= min_energy) & (min_energy > 0)"))
b('C04_notree_break', (TE, "            if bund.get_num_rays() == 0:\n", "            if bund.get_num_rays() == 0 and tree:\n"))
b('C04_early', (TE, "            if bund.get_num_rays() == 0:\n", "            if bund.get_num_rays() == 0 or len(outg) == 0 or (~N.hstack(new_surfs_relevancy)).all():\n"))
# C05
b('C05_done_twice', (TE, "        if not tree:\n", "        for surf in surfaces:\n            surf.done()\n        if not tree:\n"))
b('C05_select_all', (TE, "surfaces[surf_idx].select_rays(N.nonzero(inters)[0])", "surfaces[surf_idx].select_rays(N.nonzero(front_surf[surf_idx])[0])"))
b('C05_ask_always', (TE, "                if not any(inters): \n", "                if not any(inters) and not (tree and owned_rays[surf_idx].all()):\n"))
b('C05_full_bundle', (TE, "            if (~owned_rays[surf_num]).any():\n                in_rays = bundle.inherit(owned_rays[surf_num])\n            else:\n                in_rays = bundle\n            stack[surf_num, owned_rays[surf_num]] = \\\n                surfaces[surf_num].register_incoming(in_rays)\n", "            stack[surf_num, owned_rays[surf_num]] = \\\n                surfaces[surf_num].register_incoming(bundle)[owned_rays[surf_num]]\n"))
# C06
b('C06_frame_once', (SU, "        self._current_bundle = ray_bundle\n        return self._geom.find_intersections(self._temp_frame, ray_bundle)", "        self._current_bundle = ray_bundle\n        if not hasattr(self, '_frame'):\n            self._frame = self._temp_frame\n        return self._geom.find_intersections(self._frame, ray_bundle)"))
b('C06_verts_trim', (TF, "        rel_glob = glob_verts[:3].T - frame[:3,3]\n", "        self._rel_glob = getattr(self, '_rel_glob', None)\n        if self._rel_glob is None:\n            self._rel_glob = glob_verts[:3].T - frame[:3,3]\n        rel_glob = self._rel_glob\n"))
b('C06_cut_bound', (SP, "        if self._bound is not None:\n            self._bound.transform_frame(frame)\n", "        if self._bound is not None and not hasattr(self, '_placed'):\n            self._bound.transform_frame(frame)\n            self._placed = True\n"))
b('C06_local_kept', (FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((self._global, N.ones(self._global.shape[1]))))\n", "        local = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((self._global, N.ones(self._global.shape[1]))))\n        if not hasattr(self, '_local') or self._local.shape != local.shape:\n            self._local = local\n"))
b('C06_engine_tree', (TE, "        self.tree = RayTree()\n        bund = bundle\n", "        if not hasattr(self, 'tree'):\n            self.tree = RayTree()\n        bund = bundle\n"))
b('C06_done_norm', (FS, "        if hasattr(self, '_idxs'):\n            del self._idxs\n\nclass Finite", "        del self._idxs\n\nclass Finite"))
b('C06_params_min', (FS, "        self._params = params\n        self._backside = dt > 0\n", "        if hasattr(self, '_params') and len(self._params) == n:\n            params = N.minimum(params, self._params)\n        self._params = params\n        self._backside = dt > 0\n"))
# C07
b('C07_tc_cached', (AS, "        const_t = self.get_transform()\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))", "        glob = N.dot(assembly_transform, self.get_transform())\n        if hasattr(self, '_last') and (self._last == glob).all():\n            return\n        self._last = glob\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(glob)"))
b('C07_bounds_only_first', (OB, "        for member in self.surfaces + self.boundaries:\n", "        for member in self.surfaces + self.boundaries[:1]:\n"))
b('C07_default_mut', (AS, "            obj.transform_children(N.dot(assembly_transform, const_t))", "            obj.transform_children(N.dot(assembly_transform, const_t, out=assembly_transform))"))
b('C07_loc_no_update', (AS, "        HasFrame.set_location(self, location)\n        self.transform_children()\n", "        HasFrame.set_location(self, location)\n        for obj in self._objects:\n            obj.transform_children(self.get_transform())\n"))
b('C07_surf_rot', (HF, "        self._temp_frame = N.dot(transform, self._transform)\n", "        self._temp_frame = transform.copy() if (self._transform[:3,3] == 0).all() else N.dot(transform, self._transform)\n"))
b('C07_add_compose', (AS, "        self._objects.append(object)\n        object.set_transform(transform)\n", "        self._objects.append(object)\n        object.set_transform(N.dot(object.get_transform(), transform))\n"))
b('C07_face', (MD % 'heliostat_field', "            self._heliostats[hidx].set_transform(trans)\n", "            HasFrame.set_transform(self._heliostats[hidx], trans)\n"), (MD % 'heliostat_field', "from ..assembly import Assembly\n", "from ..assembly import Assembly\nfrom ..has_frame import HasFrame\n"))
# C08
b('C08_share', (HF, "        self._transform = N.array(transform, dtype=float)\n", "        self._transform = N.asarray(transform, dtype=float)\n"))
b('C08_identity_keep', (HF, "        self._transform[:3,:3] = rotation\n        self._rot = self._transform[:3,:3]\n", "        self._transform[:3,:3] = rotation\n        self._rot = self._transform[:3,:3].copy()\n"))
b('C08_default_arr', (HF, "    def __init__(self,  location=None,  rotation=None):\n        # default location and rotation:\n        if location is None:\n            location = N.zeros(3)\n", "    _origin = N.zeros(3)\n    def __init__(self,  location=None,  rotation=None):\n        # default location and rotation:\n        if location is None:\n            location = self._origin\n"), (HF, "        self._transform[:3,3] = location\n        self._loc = self._transform[:3,3]\n", "        self._transform[:3,3] = location\n        self._loc = location\n"))
b('C08_shape_any', (HF, "        if location.shape != (3, ):\n", "        if location.size != 3:\n"))
# C09
b('C09_plane_behind', (FS, "        negative = params < 0\n        params[negative] = N.Inf\n", "        negative = params < -1e-8\n        params[negative] = N.Inf\n"))
b('C09_plane_par', (FS, "unparallel = abs(dt) > 1e-10", "unparallel = abs(dt) > 1e-4"))
b('C09_tangent', (QD, "any_inters = delta >= 0", "any_inters = delta > 1e-9"))
b('C09_planar_sign', (QD, "almost_planar = A <= 1e-10", "almost_planar = abs(B) <= 1e-10"))
b('C09_inside', (QD, "        select[one_pos] = N.nonzero(is_positive.T[one_pos,:])[1]\n        \n        return select\n        \n    def", "        select[one_pos] = 1\n        \n        return select\n        \n    def"))
b('C09_sphere_A', (SP, "        A = (d**2).sum(axis=0)\n", "        A = N.ones(n)\n"))
b('C09_vert_global', (FS, "        self._global = v + p[None,:]*d\n    \n    def get_normals", "        self._global = v + N.minimum(p, 1e3)[None,:]*d\n    \n    def get_normals"))
b('C09_cyl_frame', (CY, "        v = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((bundle.get_vertices(), N.ones(d.shape[1]))))[:3]\n", "        v = N.dot(N.linalg.inv(self._working_frame[:3,:3]),\n            bundle.get_vertices() - self._working_frame[:3,3,None]*[[1],[1],[0]])\n"))
b('C09_delta_root', (QD, "            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])", "            (-B[really_quadric] + pm*delta[really_quadric])/2"))
# C10
b('C10_rect_strict_y', (FS, "        ray_prms[N.any(abs(self._local[:2]) > self._half_dims, axis=0)] = N.inf\n", "        ray_prms[N.any(self._local[:2] > self._half_dims, axis=0) | (self._local[0] < -self._half_dims[0]) | (self._local[1] < -self._half_dims[0])] = N.inf\n"))
b('C10_round_local3', (FS, "N.sum(self._local[:2]**2, axis=0) > self._R**2", "N.sum(self._local[:3]**2, axis=0) > self._R**2 + 1e-3"))
b('C10_hemi_far', (SP, "        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]\n        \n        return select\n    \n    def mesh", "        return select\n    \n    def mesh"))
b('C10_cut_and', (SP, "        in_bd &= prm > 0\n", ""))
b('C10_cyl_open', (CY, "inside = (abs(height) <= self._half_h)", "inside = (height <= self._half_h) & (height >= -self._half_h - 1e-2)"))
b('C10_dish_R', (PA, "        self._h = (diameter/2./par_param)**2\n", "        self._h = diameter**2/16./focal_length if focal_length > 1 else diameter**2/16.*focal_length\n"))
b('C10_hex_swap', (PA, "        abs_x = abs(local[:,0,:])\n        abs_y = abs(local[:,1,:])\n", "        abs_x = abs(local[:,1,:])\n        abs_y = abs(local[:,0,:])\n"))
b('C10_hex_pos', (PA, "        inside = (~outside) & (prm > 0)\n", "        inside = ~outside\n"))
b('C10_tri_edge', (TF, "np.any(bc < 0, axis=1)", "(bc[:,0] < 0)"))
b('C10_sphere_bound', (BS, "self._radius**2 >= ((bund_vertices - self._temp_loc[:3])**2).sum(axis=1)", "self._radius >= abs(bund_vertices - self._temp_loc[:3]).max(axis=1)"))
b('C10_cyl_bound', (BS, "return N.sum(local_xy**2, axis=0) <= self._R**2", "return N.sum(local_xy**2, axis=0) <= self._R"))
b('C10_rect_plane', (BS, "N.append(self._temp_loc[:3], 1))", "N.append(self._loc, 1))"))
# C11
b('C11_flat_front', (FS, "        norms[:,self._backside] *= -1\n", "        if len(self._backside) == len(self._idxs):\n            norms *= -1\n"))
b('C11_sphere_inside', (SP, "        sides = N.sum((c - hits) * directs, axis=1)\n", "        sides = N.sum((c - self._working_bundle.get_vertices().T[self._idxs]) * directs, axis=1)\n"))
b('C11_cyl_flip', (CY, "local_norm[:, N.sum(local_norm[:2] * dir_loc[:2], axis=0) > 0] *= -1", "local_norm[:, N.sum(hit[:2]**2, axis=0) > self._R**2] *= -1"))
b('C11_par_ab', (PA, "        partial_y = 2*hit[1]*self.b\n", "        partial_y = 2*hit[1]*self.a\n"))
b('C11_par_frame', (PA, "        dir_loc = N.dot(self._working_frame[:3,:3].T, directs.T)\n        partial", "        dir_loc = directs.T\n        partial"))
b('C11_norm_order', (QD, "                self._working_bundle.get_directions()[:,idxs].T)\n", "                self._working_bundle.get_directions()[:,:len(idxs)].T)\n"))
# C12
b('C12_tri_batch', (TF, "outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)", "outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > max(1, bc.sum(axis=1).min()))"))
b('C12_paral', (FS, "        unparallel = abs(dt) > 1e-10\n", "        unparallel = abs(dt) > 1e-10*abs(dt).max()\n"))
b('C12_cut_all', (SP, "        select[~N.logical_or(*in_bd)] = N.nan\n", "        if not in_bd.any():\n            select[:] = N.nan\n        select[~N.logical_or(*in_bd)] = N.nan if in_bd.all() else N.nan\n        if in_bd[0].all():\n            return select\n        select[in_bd[1] & in_bd.all(axis=0).any()] = 1\n"))
# C13
b('C13_back', (OP, "    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    refr_dirs -= normals*cos2\n"))
b('C13_ge', (OP, "    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))\n", "    cos2 = N.sqrt(abs(1 - (1 - cos1**2)/n))\n"))
b('C13_rp', (OP, "    Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2\n", "    Rp = ((n1*bar - n2*foo)/(n1*foo + n2*bar))**2\n"))
b('C13_hart', (OP, "d/(e - wavelength)", "d/abs(e - wavelength)"))
b('C13_refl_side', (OP, "    return ray_dirs - 2*vertical", "    return ray_dirs - 2*N.where(N.sum(ray_dirs*normals, axis=0) < 0, vertical, 0)"))
# C14
b('C14_toggle_close', (OC, "        return N.where(current == self._ref_idxs[0], \n", "        return N.where(abs(current - self._ref_idxs[0]) < 0.1, \n"))
b('C14_parents', (OC, "direction=out_dirs, parents=selector[refr],", "direction=out_dirs, parents=selector[:out_dirs.shape[1]],"))
b('C14_vert', (OC, "vertices=inters[:,refr],", "vertices=inters[:,:refr.sum()],"))
b('C14_ref_energy', (OC, "            energy=rays.get_energy()[selector]*R,\n", "            energy=rays.get_energy()[selector]*N.where(refr, R, R.mean()),\n"))
b('C14_allTIR', (OC, "            return perfect_mirror(geometry, rays, selector)\n", "            return Reflective(0.02)(geometry, rays, selector)\n"))
b('C14_refl_index', (OC, "            energy=rays.get_energy()[selector]*R,\n            parents=selector)\n", "            energy=rays.get_energy()[selector]*R,\n            parents=selector, ref_index=n2)\n"))
b('C14_lamb_norm', (OC, "        directs = N.sum(rotation_to_z(geometry.get_normals().T) * \\\n", "        directs = N.sum(rotation_to_z(geometry.up()[None,:]) * \\\n"))
b('C14_up_only', (OC, "        proj = N.sum(rays.get_directions()[:,selector] * geometry.up()[:,None], axis=0)\n", "        proj = N.sum(rays.get_directions()[:,selector] * geometry.get_normals(), axis=0)\n"))
b('C14_up_local', (OC, "        proj = N.sum(rays.get_directions()[:,selector] * geometry.up()[:,None], axis=0)\n", "        proj = rays.get_directions()[2,selector]\n"))
# C15
b('C15_abs_total', (OC, "self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)", "outg = self._opt(geometry, rays, selector)\n        self._absorbed.append(rays.get_energy()[selector] - outg.get_energy().mean())"))
b('C15_hits_sel', (OC, "        self._hits.append(geometry.get_intersection_points_global())\n", "        self._hits.append(rays.get_vertices()[:,selector])\n"))
b('C15_dedupe', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n", "        if len(self._absorbed) and len(selector) == 1 and (self._hits[-1] == geometry.get_intersection_points_global()).all():\n            return self._opt(geometry, rays, selector)\n        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n"))
b('C15_reset_hits', (OC, "        if not any(len(a) for a in self._absorbed):\n", "        if not any(a.sum() for a in self._absorbed):\n"))
b('C15_hist_global', (MD % 'homogenized_local_receiver', "        x, y = self._rec.global_to_local(pts)[:2]\n", "        x, y = self._rec.global_to_local(pts)[:2] if len(energy) > 1 else pts[:2]\n"))
b('C15_hist_w', (MD % 'homogenized_local_receiver', "weights=energy)\n        return H", "weights=energy, density=True)\n        return H"))
# C16
b('C16_set_parents', (TE, "        bund = bundle\n        if tree is True:\n", "        bund = bundle\n        bund.set_parents(N.arange(bund.get_num_rays()))\n        if tree is True:\n"))
b('C16_norm_dirs', (FS, "        d = ray_bundle.get_directions()\n        v = ray_bundle.get_vertices() - frame[:3,3][:,None]\n", "        d = ray_bundle.get_directions()\n        d /= N.sqrt(N.sum(d**2, axis=0))\n        v = ray_bundle.get_vertices() - frame[:3,3][:,None]\n"))
b('C16_axis', (SG, "    s = sin(angle); c = cos(angle); v = 1 - c\n", "    s = sin(angle); c = cos(angle); v = 1 - c\n    axis /= N.sqrt(N.sum(axis**2))\n"))
b('C16_refl', (OP, "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    return ray_dirs - 2*vertical", "    normals *= N.sum(ray_dirs*normals, axis=0)\n    return ray_dirs - 2*normals"))
b('C16_refr', (OP, "    n = n[refracted]\n    \n    refr_dirs = (ray_dirs - cos1*normals)/n\n", "    n = n[refracted]\n    \n    refr_dirs = ray_dirs\n    refr_dirs -= cos1*normals\n    refr_dirs /= n\n"))
b('C16_vecs', (SG, "    vecs = N.atleast_2d(vecs)\n", "    vecs = N.atleast_2d(vecs)\n    vecs[abs(vecs) < 1e-15] = 0\n"))
b('C16_global_view', (FS, "        self._global = self._global[:,idxs].copy()\n", "        self._global = self._global[:,idxs]\n        idxs.sort()\n"))
b('C16_frame', (SP, "        c = self._working_frame[:3,3]\n        \n        # Solve", "        c = self._working_frame[:3,3]\n        v -= c[:,None]\n        v += c[:,None]\n        # Solve"))
# C17
b('C17_kw', (RB, "            if base_vals[p] is None and hasattr(self, '_' + p):\n", "            if hasattr(self, '_' + p) and (base_vals[p] is None or p in kwds):\n"))
b('C17_setter', (RB, "                self.__dict__[attr][...,selector] = new_val\n", "                self.__dict__[attr][...,selector] = new_val if not hasattr(new_val, 'shape') or new_val.ndim < 2 else new_val[...,selector]\n"))
b('C17_delete_bool', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n", "        inherit_select = N.setdiff1d(N.arange(self.get_num_rays()), [selector[0]])\n"))
b('C17_num', (RB, "        return self._vertices.shape[1]\n", "        return len(self._vertices.T.nonzero()[0])//3 if False else self._directions.shape[1] if hasattr(self, '_directions') and not hasattr(self, '_energy') else self._vertices.shape[1]\n"))
b('C17_add_missing', (RB, "            if hasattr(self, attr) and hasattr(added, attr):\n", "            if hasattr(self, attr) and hasattr(added, attr) and getattr(self, attr).shape[0] != 2:\n"))
b('C17_concat_attr', (RB, "    for attr in bundles[0]._check_attr:\n        if hasattr(bundles[0], attr):", "    for attr in bundles[0]._check_attr[:5]:\n        if hasattr(bundles[0], attr):"))
# C18
b('C18_ang', (SO, "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n", "    theta = N.arccos(1 - xi2*(1 - N.cos(ang_range)))\n"))
b('C18_flux_n', (SO, "N.pi*radius**2/num_rays*flux*N.ones(num_rays)", "N.pi*radius**2/(num_rays + 1)*flux*N.ones(num_rays)"))
b('C18_disk_dir', (SO, "    vertices_global = N.dot(perp_rot,  vertices_local)\n\n    rayb = RayBundle(v", "    vertices_global = N.dot(perp_rot.T,  vertices_local)\n\n    rayb = RayBundle(v"))
b('C18_square_half', (SO, "range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]", "range = N.s_[-width:width:2*width/float(int(N.sqrt(num_rays)) - 1)]"))
b('C18_square_z', (SO, "N.zeros(len(xs.flatten()))]", "1e-3*N.ones(len(xs.flatten()))]"))
b('C18_phi', (SO, "    thetas = random.uniform(high=2*N.pi, size=num_rays)\n", "    thetas = random.uniform(high=N.pi, size=num_rays)\n"))
# C19
b('C19_axis_v', (SG, "    return N.multiply.outer(axis,  axis)*v + N.eye(3)*c + add*s", "    return N.multiply.outer(axis,  axis)*v + N.eye(3)*c + add*abs(s)"))
b('C19_perp_any', (SG, "perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]", "perp[N.any(perp[:,:2] == 0, axis=1)] = N.r_[1.,  0.,  0.]"))
b('C19_squeeze', (SG, "    return N.squeeze(perp_rot)", "    return perp_rot[0] if len(perp_rot) < 2 else perp_rot[::1] if (vecs[:,2] != -1).all() else -perp_rot"))
b('C19_vert_tol', (SG, "perp[N.all(perp == 0, axis=1)]", "perp[N.all(abs(perp) < 1e-2, axis=1)]"))
# C20
b('C20_round_rs', (FS, "        rs = N.r_[0:r_end:1./resolution]\n", "        rs = N.r_[0:r_end - 1./resolution:1./resolution]\n"))
b('C20_dish_rim', (PA, "        r_end = self._R + 1./100./resolution\n", "        r_end = self._R + 1./resolution\n"))
b('C20_sph_z', (SP, "        x = self._rad * N.sin(theta) * N.cos(phi)\n        y = self._rad * N.sin(theta) * N.sin(phi)\n        z = N.tile(self._rad * N.cos(theta), (1, x.shape[1]))\n        \n        return x, y, z\n\nclass Hemi", "        x = self._rad * N.sin(theta) * N.cos(phi)\n        y = self._rad * N.sin(theta) * N.sin(phi)\n        z = N.tile(N.cos(theta), (1, x.shape[1]))\n        \n        return x, y, z\n\nclass Hemi"))
b('C20_rect_pts', (FS, "        points[points < 2] = 2 # At least the edges of the range.\n", "        points[:] = max(points.max(), 2)\n"))
b('C20_cyl_half', (CY, "        ang_end = 2*N.pi + 1./(self._R*resolution)\n        angs = N.r_[0:ang_end:1./(self._R*resolution)]\n        \n        x = N.tile", "        ang_end = N.pi + 1./(self._R*resolution)\n        angs = N.r_[0:ang_end:1./(self._R*resolution)]\n        \n        x = N.tile"))
b('C20_mesh_temp', (SU, "        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n", "        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n        glob[:3] -= 1e-2*self._temp_frame[:3,2][:,None,None]\n"))
# C21
b('C21_elev', (MD % 'heliostat_field', "        hstat_elev = N.arccos(hstat[:,2])\n", "        hstat_elev = N.arcsin(N.sqrt(1 - hstat[:,2]**2))\n"))
b('C21_az', (MD % 'heliostat_field', "N.arctan2(hstat[:,1], hstat[:,0])", "N.arctan(hstat[:,1]/hstat[:,0])"))
b('C21_pos2', (MD % 'heliostat_field', "            trans[:3,3] = self._pos[hidx]\n", "            trans[:2,3] = self._pos[hidx,:2]\n"))
b('C21_sun', (MD % 'heliostat_field', "N.sqrt(1 - sun_z**2), sun_z]", "N.sqrt(1 - sun_z**2), abs(sun_z)]"))
b('C21_reaim', (MD % 'heliostat_field', "            trans = N.dot(az_rot, elev_rot)\n", "            trans = N.dot(az_rot, N.dot(elev_rot, rotx(N.pi) if (self._heliostats[hidx].get_rotation()[2,2] < 0 and hidx > 9) else N.eye(4)))\n"))
b('C21_radial', (MD % 'heliostat_field', "    angs = N.r_[start_ang:end_ang:az_space/2]\n", "    angs = N.linspace(start_ang, end_ang, int((end_ang - start_ang)/(az_space/2)) + 1)\n"))
# C22
b('C22_back_abs', (MD % 'one_sided_mirror', "    back = Surface(RectPlateGM(width, height), opt.Reflective(1.),\n", "    back = Surface(RectPlateGM(width, height), opt.Reflective(absorptivity),\n"))
b('C22_petal', (MD % 'PETAL_dish', "            opt.Reflective(1 - dish_opt_eff))", "            opt.Reflective(1 - dish_opt_eff*homog_opt_eff))"))
b('C22_aspect', (MD % 'tau_minidish', "receiver_dims = (receiver_side, receiver_side*receiver_aspect)", "receiver_dims = (receiver_side*receiver_aspect, receiver_side)"))
b('C22_homdepth', (MD % 'homogenized_local_receiver', "        self._hom = rect_homogenizer(self._sides[0], self._sides[1], \\\n", "        self._hom = rect_homogenizer(self._sides[0], self._sides[0], \\\n"))
b('C22_std', (MD % 'tau_minidish', "    n = virt_sources + 1\n", "    n = virt_sources\n"))
b('C22_lens_R', (MD % 'spherical_lens', "sphere = CutSphereGM(radius=abs(R2), bounding_volume=sect2)", "sphere = CutSphereGM(radius=abs(R1) if abs(R1) < abs(R2) else abs(R2), bounding_volume=sect2)"))
b('C22_lens_cyl_n', (MD % 'spherical_lens', "                Refractive(refr_idx, 1.), location=N.r_[0., 0., cyl_loc])\n", "                Refractive(refr_idx, refr_idx), location=N.r_[0., 0., cyl_loc])\n"))
b('C22_tri_idx', (MD % 'triangulated_surface', "        pos = pos[non_collinear]\n", "        pos = pos[:len(xs)]\n"))
b('C22_tri_thr', (MD % 'triangulated_surface', "np.all(abs(edge_norms) > 1e-8, axis=1)", "np.all(abs(edge_norms) > 1e-2, axis=1)"))
b('C22_wall_h', (MD % 'homogenizer', "N.dot(sp.translate(0, -aperture_ydim/2., height/2.), sp.rotx(-N.pi/2.)))", "N.dot(sp.translate(0, -aperture_xdim/2., height/2.), sp.rotx(-N.pi/2.)))"))
b('C22_rec_abs', (MD % 'homogenized_local_receiver', "one_sided_receiver(*self._sides)", "one_sided_receiver(*(self._sides + (homog_opt_eff,)))"))
# C23
b('C23_esc', (SV, "            escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len\n", "            escaping_endpoints = sv[:,escaping] + start_rays.get_directions()[:,escaping.nonzero()[0]]*escaping_len\n"))
b('C23_par', (SV, "                N.nonzero(non_degenerate)[0][escaping]))\n", "                N.nonzero(escaping)[0]))\n"))
b('C23_sel', (SV, "            non_degenerate &= ray_selector(start_rays)\n", "            non_degenerate &= ray_selector(tree[0])[:len(se)] if level else ray_selector(start_rays)\n"))
b('C23_last', (SV, "        if level == tree.num_bunds() - 1:\n", "        if level == tree.num_bunds() - 1 and level > 0:\n") )
b('C23_shown', (SV, "        shown = N.nonzero(non_degenerate[parents])[0]\n", "        shown = N.nonzero(non_degenerate[parents] & (se[parents] > 1e-9))[0]\n"))
# C24
b('C24_dup', (AS, "[asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "[asm.get_objects() for asm in self._assemblies] + [self._objects])") )
b('C24_set', (AS, "            [obj.get_surfaces() for obj in self.get_objects()], [])", "            [obj.get_surfaces() for obj in self._objects + [o for a in self._assemblies for o in a.get_objects()]], [])"))
b('C24_cache', (AS, "        return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "        if not hasattr(self, '_all') or len(self._all) < len(self._objects):\n            self._all = reduce(operator.add, \n                [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n        return self._all"))
b('C24_uniq', (AS, "            [obj.get_surfaces() for obj in self.get_objects()], [])", "            [obj.get_surfaces() for obj in self.get_objects() if obj.get_surfaces() not in ([], None) and len(obj.get_surfaces()) < 64], [])"))
