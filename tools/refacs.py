# behaviour-preserving edits; every check must stay quiet on each (and decide as much as before, ideally)
R = []
def r(name, *edits): R.append((name, edits))
TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG = ['tracer/%s.py' % x for x in
  'tracer_engine ray_bundle optics_callables optics flat_surface quadric sphere_surface cylinder paraboloid triangular_face boundary_shape has_frame assembly object surface trace_tree sources spatial_geometry'.split()]
MD = 'tracer/models/%s.py'

# ---- engine
r('te_helper_owned', (TE, """            owned_rays[surf_num] = ((ray_ownership == -1) | \\
                (ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]
            if not owned_rays[surf_num].any():
                continue
            if (~owned_rays[surf_num]).any():
                in_rays = bundle.inherit(owned_rays[surf_num])
            else:
                in_rays = bundle
            stack[surf_num, owned_rays[surf_num]] = \\
                surfaces[surf_num].register_incoming(in_rays)
""", """            owned = self._rays_to_test(surf_ownership[surf_num], ray_ownership, surf_relevancy[surf_num])
            owned_rays[surf_num] = owned
            if owned.any():
                stack[surf_num, owned] = surfaces[surf_num].register_incoming(
                    bundle if owned.all() else bundle.inherit(owned))
"""), (TE, """    def intersect_ray(self""", """    @staticmethod
    def _rays_to_test(owner, ray_ownership, relevant):
        free = ray_ownership == -1
        mine = ray_ownership == owner
        return relevant & N.logical_or(free, mine)
    
    def intersect_ray(self"""))
r('te_min_where', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack = N.where(stack > 1e-6, stack, N.inf)\n"),
  (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n        \n        return stack, owned_rays", "        nearest = N.min(stack, axis=0)\n        hits = N.isfinite(stack) & (stack == nearest[None,:])\n        return hits, owned_rays"))
r('te_enumerate', (TE, "            for surf_idx in xrange(num_surfs):\n                inters = front_surf[surf_idx, owned_rays[surf_idx]]\n                if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue\n                surfaces[surf_idx].select_rays(N.nonzero(inters)[0])\n                new_outg = surfaces[surf_idx].get_outgoing()\n",
  "            for surf_idx, surface in enumerate(surfaces):\n                tested = N.nonzero(owned_rays[surf_idx])[0]\n                hitting = N.nonzero(front_surf[surf_idx, tested])[0]\n                if len(hitting) == 0:\n                    surface.done()\n                    continue\n                surface.select_rays(hitting)\n                new_outg = surface.get_outgoing()\n"),
  (TE, "                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n                new_outg.set_parents(parents)\n", "                new_outg.set_parents(tested[new_outg.get_parents()])\n"))
r('te_split_iter', (TE, "                # Delete rays with negligible energies\n                delete = new_outg.get_energy() <= min_energy\n                weak_ray_pos.append(delete)\n                if delete.any():\n                    new_outg = new_outg.delete_rays(N.nonzero(delete)[0])\n",
  "                # Keep only rays with enough energy\n                keep = new_outg.get_energy() > min_energy\n                weak_ray_pos.append(~keep)\n                if not keep.all():\n                    new_outg = new_outg.inherit(N.nonzero(keep)[0])\n"))
r('te_record_first', (TE, "                record = concatenate_rays(record)\n                \n                if record.get_num_rays() != 0:\n                    weak_ray_pos = N.hstack(weak_ray_pos)\n                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n                    self.tree.append(record)\n",
  "                record = concatenate_rays(record)\n                if record.get_num_rays() > 0:\n                    weak = N.concatenate(weak_ray_pos).nonzero()[0]\n                    self.tree.append(bund + record.inherit(weak))\n"))
r('te_ownership_const', (TE, "        ray_ownership = -1*N.ones(bund.get_num_rays())\n", "        num_rays = bund.get_num_rays()\n        ray_ownership = N.empty(num_rays)\n        ray_ownership.fill(-1)\n"),
  (TE, "        surfs_until_obj = N.hstack((N.r_[0], N.add.accumulate(surfs_per_obj)))\n        surf_ownership = N.repeat(N.arange(len(objects)), surfs_per_obj)\n", "        surfs_until_obj = N.r_[0, N.cumsum(surfs_per_obj)]\n        surf_ownership = N.array([o for o, k in enumerate(surfs_per_obj) for _ in xrange(k)], dtype=int)\n"))
r('te_tree_method', (TE, "        self.tree = RayTree()\n        bund = bundle\n        if tree is True:\n            self.tree.append(bund)\n", "        self._start_tree(bundle, tree)\n        bund = bundle\n"),
  (TE, "    def ray_tracer(self", "    def _start_tree(self, bundle, full):\n        self.tree = RayTree()\n        if full is True:\n            self.tree.append(bundle)\n    \n    def ray_tracer(self"))
r('te_relevancy_rows', (TE, "                surf_relev = N.ones((num_surfs, new_outg.get_num_rays()), dtype=N.bool)\n                surf_relev[surf_ownership == obj_idx] = \\\n                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n                new_surfs_relevancy.append(surf_relev)",
  "                obj = objects[obj_idx]\n                first = surfs_until_obj[obj_idx]\n                surf_relev = N.ones((num_surfs, new_outg.get_num_rays()), dtype=bool)\n                surf_relev[first:surfs_until_obj[obj_idx + 1]] = obj.surfaces_for_next_iteration(new_outg, surf_rel_idx)\n                new_surfs_relevancy.append(surf_relev)"))
r('te_own_order', (TE, "                surfaces[surf_idx].done()\n                \n                # Aggregate outgoing bundles from all the objects\n                outg.append(new_outg)\n                record.append(new_record)\n", "                record.append(new_record)\n                outg.append(new_outg)\n                surfaces[surf_idx].done()\n"))
# ---- bundles
r('rb_addlist', (RB, "            getter = 'get' + attr\n            newbund.__dict__['set' + attr](N.hstack(\n                [b.__dict__[getter]() for b in bundles]))", "            values = [getattr(b, 'get' + attr)() for b in bundles]\n            getattr(newbund, 'set' + attr)(N.concatenate(values, axis=-1))"))
r('rb_add_via_concat', (RB, "                newbund.__dict__['set' + attr](N.hstack((\n                    self.__dict__['get' + attr](),\n                    added.__dict__['get' + attr]() )) )", "                mine = self.__dict__['get' + attr]()\n                theirs = added.__dict__['get' + attr]()\n                newbund.__dict__['set' + attr](N.concatenate((mine, theirs), axis=mine.ndim - 1))"))
r('rb_inherit_loop', (RB, "        for p, v in base_vals.iteritems():\n            if base_vals[p] is None and hasattr(self, '_' + p):\n                base_vals[p] = self.__dict__['get_' + p](selector)\n        \n        return RayBundle(**base_vals)", "        def pick(prop, given):\n            if given is not None or not hasattr(self, '_' + prop):\n                return given\n            return getattr(self, 'get_' + prop)(selector)\n        \n        return RayBundle(**dict((p, pick(p, v)) for p, v in base_vals.items()))"))
r('rb_delete_mask', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n        outg = self.inherit(inherit_select)\n         \n        return outg ", "        keep = N.ones(self.get_num_rays(), dtype=bool)\n        keep[selector] = False\n        return self.inherit(N.nonzero(keep)[0])"))
r('rb_numrays', (RB, "        return self._vertices.shape[1]", "        return self.get_vertices().shape[-1]"))
r('rb_empty', (RB, "        empty = RayBundle()\n        empty_array = N.array([[],[],[]])\n        empty.set_directions(empty_array)\n        empty.set_vertices(empty_array)\n        empty.set_energy(N.array([]))\n        empty.set_parents(N.array([]))\n        empty.set_ref_index(N.array([]))\n        return empty", "        return RayBundle(vertices=N.empty((3,0)), directions=N.empty((3,0)),\n            energy=N.empty(0), parents=N.empty(0), ref_index=N.empty(0))"))
r('rb_getter', (RB, "            if selector is None:\n                return self.__dict__[attr]\n            else:\n                return self.__dict__[attr][...,selector]", "            value = getattr(self, attr)\n            return value if selector is None else value[...,selector]"))
r('rb_concat_reduce', (RB, "    if len(bundles) == 0:\n        return RayBundle.empty_bund()\n    \n    newbund = RayBundle()\n    \n    for attr in bundles[0]._check_attr:\n        if hasattr(bundles[0], attr):", "    if not bundles:\n        return RayBundle.empty_bund()\n    \n    first = bundles[0]\n    newbund = RayBundle()\n    for attr in [a for a in first._check_attr if hasattr(first, a)]:\n        if True:"))
# ---- optics managers
r('oc_locals', (OC, "        outg = rays.inherit(selector,\n            vertices=geometry.get_intersection_points_global(),\n            direction=optics.reflections(\n                rays.get_directions()[:,selector], geometry.get_normals()),\n            energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        return outg", "        incident = rays.get_directions(selector)\n        directions = optics.reflections(incident, geometry.get_normals())\n        remaining = (1 - self._abs)*rays.get_energy(selector)\n        return rays.inherit(selector, parents=selector, energy=remaining,\n            direction=directions,\n            vertices=geometry.get_intersection_points_global())"))
r('oc_absorber_where', (OC, "        outg = Reflective.__call__(self, geometry, rays, selector)\n        energy = outg.get_energy()\n        proj = N.sum(rays.get_directions()[:,selector] * geometry.up()[:,None], axis=0)\n        energy[proj > 0] = 0\n        outg.set_energy(energy)\n        return outg", "        outg = Reflective.__call__(self, geometry, rays, selector)\n        from_below = N.dot(geometry.up(), rays.get_directions()[:,selector]) > 0\n        outg.set_energy(N.where(from_below, 0, outg.get_energy()))\n        return outg"))
r('oc_refr_indices', (OC, "        R = N.ones(len(selector))\n        R[refr] = optics.fresnel(rays.get_directions()[:,selector][:,refr],\n            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n", "        incident = rays.get_directions()[:,selector]\n        normals = geometry.get_normals()\n        passing = N.nonzero(refr)[0]\n        R = N.ones(len(selector))\n        R[passing] = optics.fresnel(incident[:,passing], normals[:,passing],\n            n1[passing], n2[passing])\n"),
  (OC, "        refracted_rays = rays.inherit(selector[refr], vertices=inters[:,refr],\n            direction=out_dirs, parents=selector[refr],\n            energy=rays.get_energy()[selector][refr]*(1 - R[refr]),\n            ref_index=n2[refr])\n        \n        return reflected_rays + refracted_rays", "        through = selector[passing]\n        refracted_rays = rays.inherit(through, vertices=inters[:,passing],\n            direction=out_dirs, parents=through,\n            energy=rays.get_energy()[through]*(1 - R[passing]),\n            ref_index=n2[passing])\n        \n        return ray_bundle.concatenate_rays([reflected_rays, refracted_rays])"))
r('oc_toggle', (OC, "        return N.where(current == self._ref_idxs[0], \n            self._ref_idxs[1], self._ref_idxs[0])", "        first, second = self._ref_idxs\n        other = N.empty(len(current))\n        other.fill(first)\n        other[current == first] = second\n        return other"))
r('oc_account', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n        return self._opt(geometry, rays, selector)", "        outg = self._opt(geometry, rays, selector)\n        points = geometry.get_intersection_points_global()\n        self._hits += [points]\n        self._absorbed += [self._opt._abs*rays.get_energy()[selector]]\n        return outg"))
r('oc_allhits', (OC, "        if not any(len(a) for a in self._absorbed):\n            return N.array([]), N.array([]).reshape(3,0)\n        \n        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])", "        absorbed = [a for a in self._absorbed if len(a) > 0]\n        hits = [h for h in self._hits if h.shape[1] > 0]\n        if len(absorbed) == 0:\n            return N.empty(0), N.empty((3,0))\n        return N.concatenate(absorbed), N.concatenate(hits, axis=1)"))
r('oc_lambert_einsum', (OC, "        directs = N.sum(rotation_to_z(geometry.get_normals().T) * \\\n            directs.T[:,None,:], axis=2).T\n", "        rots = rotation_to_z(geometry.get_normals().T)\n        directs = N.sum(rots*directs.T[:,None,:], axis=2).T\n"))
# ---- optics
r('op_fresnel', (OP, "    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))\n    # Factor out common terms in Fresnel's equations:\n    foo = N.cos(theta_in) \n    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)\n", "    cos_in = N.abs(N.sum(normals*ray_dirs, axis=0))\n    foo = cos_in\n    bar = N.sqrt(1 - (n1/n2)**2*(1 - cos_in**2))\n"))
r('op_fresnel2', (OP, "    Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 \n    Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2\n", "    def ratio(a, b):\n        return ((a - b)/(a + b))**2\n    Rs = ratio(n1*foo, n2*bar)\n    Rp = ratio(n1*bar, n2*foo)\n"))
r('op_reflect', (OP, "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    return ray_dirs - 2*vertical", "    proj = (ray_dirs*normals).sum(axis=0)\n    return ray_dirs - 2*proj[None,:]*normals"))
r('op_refr', (OP, "    refr_dirs = (ray_dirs - cos1*normals)/n\n    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))\n    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    sin2_sq = (1 - cos1**2)/n**2\n    cos2 = N.sqrt(1 - sin2_sq)\n    side = N.ones_like(cos1)\n    side[cos1 < 0] = -1\n    tangent = (ray_dirs - normals*cos1)/n\n    refr_dirs = tangent + side*cos2*normals\n"))
# ---- flats
r('fs_plane', (FS, "        params = N.empty(n)\n        params.fill(N.inf)\n        \n        vt = N.dot(frame[:3,2], v[:,unparallel])\n        params[unparallel] = -vt/dt[unparallel]\n        \n        # Takes into account a negative depth\n        # Note that only the 3rd row of params is relevant here!\n        negative = params < 0\n        params[negative] = N.Inf\n", "        params = N.ones(n)*N.inf\n        vt = N.dot(v.T, frame[:3,2])\n        dist = -vt[unparallel]/dt[unparallel]\n        params[unparallel] = N.where(dist < 0, N.inf, dist)\n"))
r('fs_normals', (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms", "        signs = N.ones(len(self._idxs))\n        signs[self._backside] = -1\n        return N.outer(self.up(), signs)"))
r('fs_backside_bool', (FS, "        self._backside = N.nonzero(self._backside[idxs])[0]\n        \n        v =", "        self._backside = self._backside[idxs]\n        \n        v ="), (FS, "        self._backside = N.nonzero(self._backside[idxs])[0]\n        self._global", "        self._backside = self._backside[idxs]\n        self._global"))
r('fs_rect', (FS, "        ray_prms[N.any(abs(self._local[:2]) > self._half_dims, axis=0)] = N.inf\n        del self._local\n        return ray_prms", "        x, y = self._local[:2]\n        half_w, half_h = self._half_dims[:,0]\n        outside = (N.abs(x) > half_w) | (N.abs(y) > half_h)\n        ray_prms[outside] = N.inf\n        del self._local\n        return ray_prms"))
r('fs_round', (FS, "        ray_prms[N.sum(self._local[:2]**2, axis=0) > self._R**2] = N.inf\n        del self._local", "        x, y = self._local[0], self._local[1]\n        ray_prms[N.sqrt(x**2 + y**2) > self._R] = N.inf\n        del self._local"))
r('fs_local', (FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((self._global, N.ones(self._global.shape[1]))))\n", "        rel = self._global - self._working_frame[:3,3,None]\n        self._local = N.dot(self._working_frame[:3,:3].T, rel)\n"))
r('fs_finite_helper', (FS, "        v = self._working_bundle.get_vertices()[:,idxs]\n        d = self._working_bundle.get_directions()[:,idxs]\n        p = self._params[idxs]\n        del self._params\n        \n        # Global coordinates on the surface:\n        self._global = v + p[None,:]*d\n", "        bund = self._working_bundle\n        self._global = bund.get_vertices(idxs) + bund.get_directions(idxs)*self._params[idxs]\n        del self._params\n"))
# ---- quadrics
r('qd_roots', (QD, "        pm = N.c_[[-1, 1]]\n        hits = N.empty((2, num_inters))\n        almost_planar = A <= 1e-10\n        really_quadric = ~almost_planar\n        hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))\n        hits[:,really_quadric] = \\\n            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])\n", "        hits = N.empty((2, num_inters))\n        planar = A <= 1e-10\n        quad = ~planar\n        hits[:,planar] = -C[planar]/B[planar]\n        hits[0,quad] = (-B[quad] - delta[quad])/(2*A[quad])\n        hits[1,quad] = (-B[quad] + delta[quad])/(2*A[quad])\n"))
r('qd_select', (QD, "        is_positive = prm > 0\n        select = N.empty(prm.shape[1])\n", "        is_positive = prm > 0\n        first, second = is_positive\n        select = N.empty(prm.shape[1])\n        select.fill(N.nan)\n        select[first & second] = 0\n        select[first & ~second] = 0\n        select[second & ~first] = 1\n        return select\n        \n"))
r('qd_choose', (QD, "        not_missed = ~N.isnan(select)\n        any_inters[any_inters] = not_missed\n        select = N.array(select[not_missed], dtype=N.int_)\n        params[any_inters] = N.choose(select, hits[:,not_missed])\n        vertices[:,any_inters] = N.choose(select, inters_coords[...,not_missed])\n", "        not_missed = ~N.isnan(select)\n        hit_rays = N.nonzero(any_inters)[0][not_missed]\n        chosen = select[not_missed].astype(int)\n        which = N.arange(hits.shape[1])[not_missed]\n        params[hit_rays] = hits[chosen, which]\n        vertices[:,hit_rays] = inters_coords[chosen, :, which].T\n"))
r('qd_vertices_from_params', (QD, "        vertices[:,any_inters] = N.choose(select, inters_coords[...,not_missed])\n", "        vertices[:,any_inters] = v[:,any_inters] + params[any_inters]*d[:,any_inters]\n"))
r('qd_store_first', (QD, "        self._vertices = self._vertices[:,idxs].copy()\n", "        hits = self._vertices[:,idxs]\n        self._vertices = hits\n"))
r('sp_normals', (SP, "        c = self._working_frame[:3,3]\n        sides = N.sum((c - hits) * directs, axis=1)\n        \n        normal = (hits - c).T\n        normal[:,sides < 0] *= -1\n        normal = normal/N.sqrt(N.sum(normal**2, axis=0))\n        return normal", "        out = hits - self._working_frame[:3,3]\n        inside = N.sum(out*directs, axis=1) > 0\n        out[inside] = -out[inside]\n        return (out/N.sqrt(N.sum(out**2, axis=1))[:,None]).T"))
r('sp_abc', (SP, "        A = (d**2).sum(axis=0)\n        B = 2*(d*(v - c[:,None])).sum(axis=0)\n        C = ((v - c[:,None])**2).sum(axis=0) - self.get_radius()**2\n", "        rel = v - c[:,None]\n        A = N.sum(d*d, axis=0)\n        B = 2*N.sum(d*rel, axis=0)\n        C = N.sum(rel*rel, axis=0) - self._rad**2\n"))
r('sp_hemi', (SP, "        coords = N.concatenate((coords, N.ones((2,1,coords.shape[2]))), axis=1)\n        local = N.sum(N.linalg.inv(self._working_frame)[None,:,:,None] * \\\n            coords[:,None,:,:], axis=2)\n        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n", "        frame = self._working_frame\n        height = N.sum((coords - frame[:3,3][None,:,None])*frame[:3,2][None,:,None], axis=1)\n        bottom_hem = (height <= 0) & (prm > 0)\n"))
r('sp_select_helper', (SP, "        select[~N.logical_or(*bottom_hem)] = N.nan\n        one_hit = N.logical_xor(*bottom_hem)\n        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]\n        \n        return select\n", "        return self._first_valid(select, bottom_hem)\n"), (SP, "        in_bd &= prm > 0\n        select[~N.logical_or(*in_bd)] = N.nan\n        one_hit = N.logical_xor(*in_bd)\n        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]\n        \n        return select", "        in_bd &= prm > 0\n        return self._first_valid(select, in_bd)"),
  (SP, "    # Ray handling protocol:\n", "    def _first_valid(self, select, valid):\n        near, far = valid\n        select[~(near | far)] = N.nan\n        select[near & ~far] = 0\n        select[far & ~near] = 1\n        return select\n\n    # Ray handling protocol:\n"))
r('sp_cut_loop', (SP, "        in_bd = N.array([self._bound.in_bounds(coords[...,c]) for c in xrange(prm.shape[1])]).T\n        in_bd &= prm > 0\n", "        in_bd = N.array([self._bound.in_bounds(root.T) for root in coords]) & (prm > 0)\n"))
r('cy_select', (CY, "        height = N.sum(N.linalg.inv(self._working_frame)[None,2,:,None] * \\\n            N.concatenate((coords, N.ones((2,1,coords.shape[-1]))), axis=1), axis=1)\n        inside = (abs(height) <= self._half_h)\n        positive = prm > 0\n        \n        hitting = inside & positive\n        select[N.logical_and(*hitting)] = 0\n        one_hitting = N.logical_xor(*hitting)\n        select[one_hitting] = N.nonzero(hitting.T[one_hitting,:])[1]\n", "        to_local = N.linalg.inv(self._working_frame)\n        for root in (1, 0):\n            z = N.dot(to_local[2,:3], coords[root]) + to_local[2,3]\n            select[(N.abs(z) <= self._half_h) & (prm[root] > 0)] = root\n"))
r('cy_normals', (CY, "        local_norm = N.vstack((hit[:2], N.zeros(hit.shape[1])))\n        local_norm /= N.sqrt(N.sum(hit[:2]**2, axis=0))\n        \n        # Choose whether the normal is inside or outside:\n        local_norm[:, N.sum(local_norm[:2] * dir_loc[:2], axis=0) > 0] *= -1\n", "        radial = hit[:2]/N.sqrt(N.sum(hit[:2]**2, axis=0))\n        outgoing = N.sum(radial*dir_loc[:2], axis=0) > 0\n        radial = N.where(outgoing, -radial, radial)\n        local_norm = N.vstack((radial, N.zeros(hit.shape[1])))\n"))
r('cy_mesh', (CY, "        x = N.tile(self._R*N.cos(angs), (len(h), 1))\n        y = N.tile(self._R*N.sin(angs), (len(h), 1))\n        z = N.tile(h[:,None], (1, len(angs)))\n", "        ones = N.ones((len(h), 1))\n        x = ones*self._R*N.cos(angs)\n        y = ones*self._R*N.sin(angs)\n        z = h[:,None]*N.ones(len(angs))\n"))
r('pa_abc', (PA, "        A = self.a*d[0]**2 + self.b*d[1]**2\n        B = 2*self.a*d[0]*v[0] + 2*self.b*d[1]*v[1] - d[2] \n        C = self.a*v[0]**2 + self.b*v[1]**2 - v[2]\n", "        coefs = N.c_[[self.a, self.b]]\n        A = N.sum(coefs*d[:2]**2, axis=0)\n        B = 2*N.sum(coefs*d[:2]*v[:2], axis=0) - d[2]\n        C = N.sum(coefs*v[:2]**2, axis=0) - v[2]\n"))
r('pa_normals', (PA, "        partial_x = 2*hit[0]*self.a\n        partial_y = 2*hit[1]*self.b\n        \n        local_normal = N.vstack((-partial_x, -partial_y, N.ones_like(partial_x)))\n        local_unit = local_normal/N.sqrt(N.sum(local_normal**2, axis=0))\n        down = N.sum(dir_loc * local_unit, axis=0) > 0\n        local_unit[:,down] *= -1\n", "        grad = N.vstack((-2*self.a*hit[0], -2*self.b*hit[1], N.ones(hit.shape[1])))\n        length = N.sqrt((grad**2).sum(axis=0))\n        facing = N.where((dir_loc*grad).sum(axis=0) > 0, -1, 1)\n        local_unit = grad*facing/length\n"))
r('pa_dish_r', (PA, "        local_z = N.sum(N.linalg.inv(self._working_frame)[None,2,:,None] * \\\n            coords, axis=1)\n        under_cut = (local_z <= self._h) & (prm > 0)\n", "        inv_frame = N.linalg.inv(self._working_frame)\n        local_z = N.vstack([N.dot(inv_frame[2], c) for c in coords])\n        under_cut = N.logical_and(local_z <= self._h, prm > 0)\n"))
r('pa_hex', (PA, "        abs_x = abs(local[:,0,:])\n        abs_y = abs(local[:,1,:])\n        outside = abs_x > math.sqrt(3)*self._R/2.\n        outside |= abs_y > self._R - math.tan(N.pi/6.)*abs_x\n        inside = (~outside) & (prm > 0)\n", "        ax, ay = N.abs(local[:,0,:]), N.abs(local[:,1,:])\n        inside = (ax <= self._R*math.cos(N.pi/6.)) & \\\n            (ay + ax/math.sqrt(3) <= self._R) & (prm > 0)\n"))
r('tf_solve', (TF, "        glob_verts = np.dot(frame, np.vstack(( self._verts, np.array([1,1]) )) )\n        rel_glob = glob_verts[:3].T - frame[:3,3]\n        w = self._global.T - frame[:3,3]\n", "        rel_glob = np.dot(frame[:3,:3], self._verts).T\n        w = (self._global - frame[:3,3][:,None]).T\n"),
  (TF, "        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)\n        ray_prms[outside] = np.inf\n", "        inside = (bc[:,0] >= 0) & (bc[:,1] >= 0) & (bc[:,0] + bc[:,1] <= 1)\n        ray_prms[~inside] = np.inf\n"))
# ---- frames
r('hf_sync', (HF, "        self._transform[:3,3] = location\n        self._loc = self._transform[:3,3]\n", "        self._transform[:3,3] = location\n        self._update_views()\n"), (HF, "        self._transform[:3,:3] = rotation\n        self._rot = self._transform[:3,:3]\n", "        self._transform[:3,:3] = rotation\n        self._update_views()\n"),
  (HF, "        self._loc = self._transform[:3,3]\n        self._rot = self._transform[:3,:3]\n\n", "        self._update_views()\n\n    def _update_views(self):\n        self._loc = self._transform[:3,3]\n        self._rot = self._transform[:3,:3]\n\n"))
r('as_listing', (AS, "        return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "        objects = []\n        for asm in self._assemblies:\n            objects.extend(asm.get_objects())\n        objects.extend(self._objects)\n        return objects"), (AS, "        return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "        return [surf for obj in self.get_objects() for surf in obj.get_surfaces()]"))
r('as_transform', (AS, "        const_t = self.get_transform()\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))", "        global_t = N.dot(assembly_transform, self.get_transform())\n        for asm in self._assemblies:\n            asm.transform_children(global_t)\n        for obj in self._objects:\n            obj.transform_children(global_t)"))
r('ob_transform', (OB, "        const_t = self.get_transform()\n        for member in self.surfaces + self.boundaries:\n            member.transform_frame(N.dot(assembly_transform, const_t))", "        frame = N.dot(assembly_transform, self.get_transform())\n        for surface in self.surfaces:\n            surface.transform_frame(frame)\n        for boundary in self.boundaries:\n            boundary.transform_frame(frame)"))
r('ob_init', (OB, "        if surfs is None:\n            self.surfaces = []\n        else:\n            self.surfaces = surfs\n        \n        if bounds is None:\n            self.boundaries = []\n        else:\n            self.boundaries = bounds\n", "        self.surfaces = [] if surfs is None else surfs\n        self.boundaries = [] if bounds is None else bounds\n"))
r('as_add_helper', (AS, "        if transform is None:\n            transform = N.eye(4)\n        self._objects.append(object)\n        object.set_transform(transform)\n        self.transform_children()\n", "        self._adopt(self._objects, object, transform)\n"), (AS, "        if transform is None:\n            transform = N.eye(4)\n        self._assemblies.append(assembly)\n        assembly.set_transform(transform)\n        self.transform_children()\n", "        self._adopt(self._assemblies, assembly, transform)\n    \n    def _adopt(self, siblings, child, transform):\n        siblings.append(child)\n        child.set_transform(N.eye(4) if transform is None else transform)\n        self.transform_children()\n"))
r('bs_sphere', (BS, "        return self._radius**2 >= ((bund_vertices - self._temp_loc[:3])**2).sum(axis=1)", "        rel = bund_vertices - self._temp_loc[:3]\n        return N.sqrt(N.sum(rel**2, axis=1)) <= self._radius"))
r('bs_cyl', (BS, "        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], \n            N.vstack((vertices.T, N.ones(vertices.shape[0]))))\n        return N.sum(local_xy**2, axis=0) <= self._R**2", "        rel = vertices - self._temp_frame[:3,3]\n        x = N.dot(rel, self._temp_frame[:3,0])\n        y = N.dot(rel, self._temp_frame[:3,1])\n        return x**2 + y**2 <= self._R**2"))
r('bs_plane', (BS, "        local_z = N.dot(N.linalg.inv(self._temp_frame)[2], \n            N.vstack((vertices.T, N.ones(vertices.shape[0]))))\n        return local_z >= 0", "        normal = self._temp_frame[:3,2]\n        return N.dot(vertices - self._temp_frame[:3,3], normal) >= 0"))
r('su_mesh', (SU, "        x, y, z = self._geom.mesh(resolution)\n        local = N.array((x, y, z, N.ones_like(x)))\n        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n        \n        return glob[:3]", "        local = N.array(self._geom.mesh(resolution))\n        rot = self._temp_frame[:3,:3]\n        return N.tensordot(rot, local, axes=([1], [0])) + self._temp_frame[:3,3][:,None,None]"))
r('tt_history', (TT, "        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index\n        \n        for pix in xrange(1, level + 1):\n            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n        \n        return parents", "        history = [ray_index]\n        for bund in self._bunds[level:0:-1]:\n            history.append(bund.get_parents()[history[-1]])\n        return np.array(history, dtype=int)"))
# ---- sources, rotations
r('so_disk', (SO, "    rs = radius*N.sqrt(xi1)\n    xs = rs * N.cos(thetas)\n    ys = rs * N.sin(thetas)\n\n    # Rotate locations to the plane defined by <direction>:\n    vertices_local = N.vstack((xs,  ys,  N.zeros(num_rays)))\n    vertices_global = N.dot(perp_rot,  vertices_local)\n\n    rayb = RayBundle(vertices=vertices_global + center, directions=directions)\n    if flux is not None:\n        rayb.set_energy(N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n    \n    return rayb", "    rs = radius*N.sqrt(xi1)\n    in_plane = N.vstack((rs*N.cos(thetas), rs*N.sin(thetas)))\n    vertices = N.dot(perp_rot[:,:2], in_plane) + center\n    \n    energy = None\n    if flux is not None:\n        energy = N.empty(num_rays)\n        energy.fill(flux*N.pi*radius**2/num_rays)\n    return RayBundle(vertices=vertices, directions=directions, energy=energy)"))
r('so_pillbox', (SO, "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n    sin_th = N.sin(theta)\n    a = N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , N.cos(theta)))\n    return a", "    sin_th = N.sin(ang_range)*N.sqrt(xi2)\n    cos_th = N.sqrt(1 - sin_th**2)\n    return N.array([N.cos(xi1)*sin_th, N.sin(xi1)*sin_th, cos_th])"))
r('so_dirs_dot', (SO, "    directions = N.sum(perp_rot[...,None] * a[None,...], axis=1)\n", "    directions = N.dot(perp_rot, a)\n"))
r('so_square', (SO, "    vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])\n    vertices_global = N.dot(rot,  vertices_local)\n\n    rayb = RayBundle()\n    rayb.set_vertices(vertices_global + center)\n    rayb.set_directions(N.tile(direction[:,None], (1, vertices_global.shape[1])))\n    return rayb", "    xs, ys = xs.ravel(), ys.ravel()\n    vertices = N.dot(rot, N.vstack((xs, ys, N.zeros_like(xs)))) + center\n    directions = N.repeat(direction[:,None], vertices.shape[1], axis=1)\n    return RayBundle(vertices=vertices, directions=directions)"))
r('sg_axis', (SG, "    add = N.array([[0,          -axis[2], axis[1]],  \n                            [axis[2],  0,          -axis[0]], \n                            [-axis[1], axis[0],  0        ] ])\n    return N.multiply.outer(axis,  axis)*v + N.eye(3)*c + add*s", "    x, y, z = axis\n    return N.array([\n        [x*x*v + c, x*y*v - z*s, x*z*v + y*s],\n        [y*x*v + z*s, y*y*v + c, y*z*v - x*s],\n        [z*x*v - y*s, z*y*v + x*s, z*z*v + c]])"))
r('sg_toz', (SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n    perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]\n", "    vertical = (perp[:,0] == 0) & (perp[:,1] == 0)\n    perp[vertical,0] = 1.\n    perp = perp/N.sqrt(perp[:,0]**2 + perp[:,1]**2)[:,None]\n"))
r('sg_transform', (SG, "    rot = general_axis_rotation(axis, angle)\n    return N.vstack((N.hstack((rot, translation)), N.r_[[0,0,0,1]]))", "    transform = N.eye(4)\n    transform[:3,:3] = general_axis_rotation(axis, angle)\n    transform[:3,3] = translation[:,0]\n    return transform"))
r('sg_elem', (SG, "    s = sin(ang); c = cos(ang)\n    return N.array([\n        [1., 0, 0, 0],\n        [0, c,-s, 0],\n        [0, s, c, 0],\n        [0, 0, 0, 1]\n    ])", "    transform = N.eye(4)\n    transform[:3,:3] = general_axis_rotation(N.r_[1., 0, 0], ang)\n    return transform"))
# ---- models
r('md_homog', (MD % 'homogenizer', "    wall_xp = rect_one_sided_mirror(height, aperture_ydim, abs)\n    wall_xp.set_transform(\n        N.dot(sp.translate(aperture_xdim/2., 0, height/2.), sp.roty(-N.pi/2.)))\n    \n    wall_xn = rect_one_sided_mirror(height, aperture_ydim, abs)\n    wall_xn.set_transform(\n        N.dot(sp.translate(-aperture_xdim/2., 0, height/2.), sp.roty(N.pi/2.)))\n    \n", "    def x_wall(side):\n        wall = rect_one_sided_mirror(height, aperture_ydim, abs)\n        wall.set_transform(N.dot(\n            sp.translate(side*aperture_xdim/2., 0, height/2.), sp.roty(-side*N.pi/2.)))\n        return wall\n    \n    wall_xp, wall_xn = x_wall(1), x_wall(-1)\n    \n"))
r('md_helio', (MD % 'heliostat_field', "        for hidx in xrange(self._pos.shape[0]):\n            az_rot = rotz(hstat_az[hidx])\n            elev_rot = roty(hstat_elev[hidx])\n            \n            trans = N.dot(az_rot, elev_rot)\n            trans[:3,3] = self._pos[hidx]\n            \n            self._heliostats[hidx].set_transform(trans)\n", "        for hstat_obj, pos, az, elev in zip(self._heliostats, self._pos, hstat_az, hstat_elev):\n            trans = N.dot(rotz(az), roty(elev))\n            trans[:3,3] = pos\n            hstat_obj.set_transform(trans)\n"))
r('md_helio2', (MD % 'heliostat_field', "        tower_vec = -self._pos \n        tower_vec[:,2] += self._th\n        tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])\n", "        tower_vec = N.r_[0., 0., self._th] - self._pos\n        tower_vec = tower_vec/N.sqrt(N.sum(tower_vec**2, axis=1))[:,None]\n"))
r('md_sun', (MD % 'heliostat_field', "    sun_z = N.cos(elevation)\n    sun_xy = N.r_[-N.sin(azimuth), -N.cos(azimuth)] # unit vector, can't combine with z\n    sun_vec = N.r_[sun_xy*N.sqrt(1 - sun_z**2), sun_z]\n    return sun_vec", "    sun_z = N.cos(elevation)\n    horiz = N.sqrt(1 - sun_z**2)\n    return N.array([-N.sin(azimuth)*horiz, -N.cos(azimuth)*horiz, sun_z])"))
r('md_stagger', (MD % 'heliostat_field', "    xs = N.r_[xs1, xs2]\n    ys = N.r_[ys1, ys2]\n    \n    return N.vstack((xs, ys)).T", "    return N.column_stack((N.hstack((xs1, xs2)), N.hstack((ys1, ys2))))"))
r('md_tri', (MD % 'triangulated_surface', "        rots = np.concatenate((xs[...,None], ys[...,None], zs[...,None]), axis=2)\n        edges_local = np.sum(rots.transpose(0,2,1)[:,None,...]*\\\n            edges[:,:,None,:], axis=3)\n        \n        face_list = [Surface(TriangularFace(edges_local[face_ix].T), optics,\n            location=pos[face_ix], rotation=rots[face_ix]) \\\n            for face_ix in xrange(xs.shape[0])]\n", "        face_list = []\n        for face_ix in xrange(xs.shape[0]):\n            rot = np.vstack((xs[face_ix], ys[face_ix], zs[face_ix])).T\n            local = np.dot(rot.T, edges[face_ix].T)\n            face_list.append(Surface(TriangularFace(local), optics,\n                location=pos[face_ix], rotation=rot))\n"))
r('md_lens', (MD % 'spherical_lens', "            z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane\n            if R1 > 0:\n                sect1 = BoundaryPlane(location=N.r_[0, 0, z])\n            else:\n                sect1 = BoundaryPlane(location=N.r_[0, 0, -z], rotation=flip_side)\n            sphere = CutSphereGM(radius=abs(R1), bounding_volume=sect1)\n            \n            refr=Refractive(1., refr_idx)\n            self._front = Surface(geometry=sphere, optics=refr)\n", "            sect1, self._front = self._curved(R1, diameter, refr_idx)\n"), (MD % 'spherical_lens', "    def focal_length(self):", "    @staticmethod\n    def _curved(R, diameter, refr_idx):\n        z = N.sqrt(R**2 - diameter**2/4.)\n        if R > 0:\n            cut = BoundaryPlane(location=N.r_[0, 0, z])\n        else:\n            cut = BoundaryPlane(location=N.r_[0, 0, -z], rotation=rotx(N.pi)[:3,:3])\n        return cut, Surface(CutSphereGM(abs(R), cut), Refractive(1., refr_idx))\n    \n    def focal_length(self):"))
r('md_hist', (MD % 'homogenized_local_receiver', "        rngx = self._sides[0]/2.\n        rngy = self._sides[1]/2.\n        \n        H, xbins, ybins = N.histogram2d(x, y, bins, \\\n            range=([-rngx,rngx], [-rngy,rngy]), weights=energy)\n        return H, xbins, ybins", "        extent = [[-side/2., side/2.] for side in self._sides]\n        return N.histogram2d(x, y, bins=bins, range=extent, weights=energy)"))
r('md_recv', (MD % 'one_sided_mirror', "    front = Surface(RectPlateGM(width, height), \n        opt.ReflectiveReceiver(absorptivity))\n    back = Surface(RectPlateGM(width, height), opt.Reflective(1.),\n        location=r_[0., 0., -1e-10])\n    obj = AssembledObject(surfs=[front, back])\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return front, obj", "    plate = lambda: RectPlateGM(width, height)\n    front = Surface(plate(), opt.ReflectiveReceiver(absorptivity))\n    back = Surface(plate(), opt.Reflective(1.), location=r_[0., 0., -1e-10])\n    return front, _ignore_own_rays(AssembledObject(surfs=[front, back]))\n\ndef _ignore_own_rays(obj):\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return obj"))
SV = 'tracer/mayavi_ui/scene_view.py'
r('sv_helper', (SV, "            escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)\n", "            live = N.nonzero(non_degenerate)[0]\n            child_of = end_rays.get_parents()\n            escaping = ~N.any(live == child_of[:,None], axis=0)\n"), (SV, "            parents = N.hstack((end_rays.get_parents(),\n                N.nonzero(non_degenerate)[0][escaping]))\n", "            parents = N.concatenate((child_of, live[escaping]))\n"))
r('gm_done', ('tracer/geometry_manager.py', "        if hasattr(self, '_working_frame'):\n            del self._working_frame\n            del self._working_bundle", "        for attr in ('_working_frame', '_working_bundle'):\n            if hasattr(self, attr):\n                delattr(self, attr)"))
