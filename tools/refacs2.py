# second generation of behaviour-preserving edits: other idioms than refacs.py
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
def r(name, *edits): R.append((name, edits))
GM = 'tracer/geometry_manager.py'

# ---- engine
r('e_zip', (TE, """        for surf_num in xrange(len(surfaces)):
            owned_rays[surf_num] = ((ray_ownership == -1) | \\
                (ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]
            if not owned_rays[surf_num].any():
                continue
            if (~owned_rays[surf_num]).any():
                in_rays = bundle.inherit(owned_rays[surf_num])
            else:
                in_rays = bundle
            stack[surf_num, owned_rays[surf_num]] = \\
                surfaces[surf_num].register_incoming(in_rays)
""", """        unowned = ray_ownership == -1
        for surface, owner, relevant, owned, params in zip(surfaces, surf_ownership, surf_relevancy, owned_rays, stack):
            owned[:] = (unowned | (ray_ownership == owner)) & relevant
            if not owned.any():
                continue
            in_rays = bundle
            if not owned.all():
                in_rays = bundle.inherit(N.nonzero(owned)[0])
            params[owned] = surface.register_incoming(in_rays)
"""))
r('e_vector_owned', (TE, """        owned_rays = N.empty(ret_shape, dtype=N.bool)
""", """        owned_rays = (ray_ownership == -1) | (ray_ownership == surf_ownership[:,None])
        owned_rays &= surf_relevancy
"""), (TE, """            owned_rays[surf_num] = ((ray_ownership == -1) | \\
                (ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]
""", ""))
r('e_full_inf', (TE, "        stack = N.zeros(ret_shape)\n", "        stack = N.empty(ret_shape)\n        stack.fill(N.inf)\n"))
r('e_while', (TE, "        for i in xrange(reps):\n            front_surf", "        iteration = 0\n        while iteration < reps:\n            iteration += 1\n            front_surf"))
r('e_tolerance_const', (TE, "class TracerEngine():", "MIN_PARAM = 1e-6\n\nclass TracerEngine():"), (TE, "stack[stack <= 1e-6] = N.inf", "too_close = stack <= MIN_PARAM\n        stack[too_close] = N.inf"))
r('e_process_method', (TE, """                # Add new ray-ownership information to the total list:
                obj_idx = surf_ownership[surf_idx]
                surf_rel_idx = surf_idx - surfs_until_obj[obj_idx]
                object_owns_outg = objects[obj_idx].own_rays(new_outg, surf_rel_idx)
                out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))
                
                # Add new surface-relevancy information, saying which surfaces
                # of the full list of surfaces must be checked next. This is
                # somewhat memory-intensize and requires optimization.
                surf_relev = N.ones((num_surfs, new_outg.get_num_rays()), dtype=N.bool)
                surf_relev[surf_ownership == obj_idx] = \\
                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)
                new_surfs_relevancy.append(surf_relev)
""", """                obj_idx = surf_ownership[surf_idx]
                own, relev = self._next_iteration_info(new_outg, objects[obj_idx], obj_idx,
                    surf_idx - surfs_until_obj[obj_idx], surf_ownership)
                out_ray_own.append(own)
                new_surfs_relevancy.append(relev)
"""), (TE, "    def ray_tracer(self", """    def _next_iteration_info(self, rays, obj, obj_idx, rel_idx, surf_ownership):
        owners = N.where(obj.own_rays(rays, rel_idx), obj_idx, -1)
        relevancy = N.ones((len(surf_ownership), rays.get_num_rays()), dtype=N.bool)
        relevancy[surf_ownership == obj_idx] = obj.surfaces_for_next_iteration(rays, rel_idx)
        return owners, relevancy
    
    def ray_tracer(self"""))
r('e_own_list', (TE, "        surf_ownership = N.repeat(N.arange(len(objects)), surfs_per_obj)\n", "        owners = []\n        for obj_num, num in enumerate(surfs_per_obj):\n            owners += [obj_num]*num\n        surf_ownership = N.array(owners, dtype=int)\n"))
r('e_until', (TE, "        surfs_until_obj = N.hstack((N.r_[0], N.add.accumulate(surfs_per_obj)))\n", "        surfs_until_obj = [0]\n        for num in surfs_per_obj:\n            surfs_until_obj.append(surfs_until_obj[-1] + num)\n"))
r('e_done_after', (TE, "                if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue\n", "                if not N.any(inters):\n                    surfaces[surf_idx].done()\n                    continue\n"))
r('e_weak_tuple', (TE, """            outg = []
            record = []
            out_ray_own = []
            new_surfs_relevancy = []
            weak_ray_pos = []
""", """            outg, record, weak_ray_pos = [], [], []
            out_ray_own, new_surfs_relevancy = [], []
"""))
r('e_parents_where', (TE, "                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n", "                tested_idx = N.where(owned_rays[surf_idx])[0]\n                parents = tested_idx.take(new_outg.get_parents())\n"))
r('e_early_return', (TE, "        # Raise an error if any of the parameters are negative\n        if (stack < -1e-16).any():\n            raise ValueError(\"Parameters must all be positive\")\n", "        self._check_params(stack)\n"), (TE, "    def intersect_ray(self", "    def _check_params(self, stack):\n        \"\"\"Raise an error if any of the parameters are negative\"\"\"\n        if N.any(stack < -1e-16):\n            raise ValueError(\"Parameters must all be positive\")\n    \n    def intersect_ray(self"))
r('e_min_keepdims', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n", "        shortest = N.amin(stack, 0)\n        stack = N.logical_and(stack == shortest, stack < N.inf)\n"))
r('e_tree_num', (TT, "        return [bund.get_parents() for bund in self._bunds[1:]]", "        parents = []\n        for bund in self._bunds[1:]:\n            parents.append(bund.get_parents())\n        return parents"))
r('e_hist_idx', (TT, """        for pix in xrange(1, level + 1):
            parents[pix] = \\
                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
""", """        current = ray_index
        for step in xrange(level):
            current = self._bunds[level - step].get_parents()[current]
            parents[step + 1] = current
"""))
# ---- bundles
r('b_setattr', (RB, """        self.__dict__['get_' + propname] = \\
            types.MethodType(getter, self, self.__class__)
        self.__dict__['set_' + propname] = \\
            types.MethodType(setter, self, self.__class__)
        
        if init_val is not None:
            self.__dict__['set_' + propname](init_val)
""", """        setattr(self, 'get_' + propname, types.MethodType(getter, self, self.__class__))
        setattr(self, 'set_' + propname, types.MethodType(setter, self, self.__class__))
        if init_val is None:
            return
        setattr(self, attr, init_val)
"""))
r('b_init_order', (RB, """        base_vals = {
            'vertices': vertices,
            'directions': directions,
            'energy': energy,
            'parents': parents,
            'ref_index': ref_index}
        base_vals.update(kwds)
        
        self._check_attr = [] # Attrs to look for when concatenating bundles
        for n, v in base_vals.iteritems():
            self._create_property(n, v)
""", """        self._check_attr = [] # Attrs to look for when concatenating bundles
        for n, v in (('vertices', vertices), ('directions', directions), ('energy', energy),
            ('parents', parents), ('ref_index', ref_index)):
            self._create_property(n, v)
        for n in sorted(kwds):
            self._create_property(n, kwds[n])
"""))
r('b_inherit_split', (RB, """        base_vals = dict((attr[1:], None) for attr in self._check_attr)
        base_vals.update({
            'vertices': vertices,
            'directions': direction,
            'energy': energy,
            'parents': parents,
            'ref_index': ref_index})
        base_vals.update(kwds)
        
        for p, v in base_vals.iteritems():
            if base_vals[p] is None and hasattr(self, '_' + p):
                base_vals[p] = self.__dict__['get_' + p](selector)
        
        return RayBundle(**base_vals)""", """        given = dict(vertices=vertices, directions=direction, energy=energy,
            parents=parents, ref_index=ref_index, **kwds)
        vals = {}
        for attr in self._check_attr:
            prop = attr[1:]
            if given.get(prop) is not None:
                vals[prop] = given[prop]
            elif hasattr(self, attr):
                vals[prop] = self.__dict__[attr][...,selector]
            else:
                vals[prop] = None
        for prop, val in given.items():
            vals.setdefault(prop, val)
        return RayBundle(**vals)"""))
r('b_add_concat', (RB, """        newbund = RayBundle()
        
        for attr in self._check_attr:
            if hasattr(self, attr) and hasattr(added, attr):
                # Create the property if its not in the base set:
                if not newbund.has_property(attr):
                    newbund._create_property(attr[1:], None)
                
                # Do addition.
                newbund.__dict__['set' + attr](N.hstack((
                    self.__dict__['get' + attr](),
                    added.__dict__['get' + attr]() )) )
        
        return newbund
""", """        shared = [attr for attr in self._check_attr
            if hasattr(self, attr) and hasattr(added, attr)]
        return RayBundle(**dict(
            (attr[1:], N.concatenate((self.__dict__[attr], added.__dict__[attr]), axis=-1)) for attr in shared))
"""))
r('b_delete_set', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n", "        inherit_select = N.setdiff1d(N.arange(self.get_num_rays()), selector)\n"))
r('b_has', (RB, "        return ('_' + propname in self._check_attr)", "        for attr in self._check_attr:\n            if attr == '_' + propname:\n                return True\n        return False"))
r('b_concat_names', (RB, "    for attr in bundles[0]._check_attr:\n        if hasattr(bundles[0], attr):\n            # The new bundle only starts with the basic set, here we equalize:\n            if not newbund.has_property(attr):\n                newbund._create_property(attr[1:], None)\n            \n            # This is the actual concatenation:\n            getter = 'get' + attr\n            newbund.__dict__['set' + attr](N.hstack(\n                [b.__dict__[getter]() for b in bundles]))\n", "    for attr in bundles[0]._check_attr:\n        if not hasattr(bundles[0], attr):\n            continue\n        name = attr[1:]\n        joined = N.hstack([getattr(b, attr) for b in bundles])\n        if newbund.has_property(name):\n            getattr(newbund, 'set_' + name)(joined)\n        else:\n            newbund._create_property(name, joined)\n"))
# ---- optics managers
r('o_remaining', (OC, "class Reflective(object):", "def _share(rays, selector, fraction):\n    return fraction*rays.get_energy(selector)\n\nclass Reflective(object):"),
  (OC, "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        return outg\n\nperfect", "            energy=_share(rays, selector, 1 - self._abs),\n            parents=selector)\n        return outg\n\nperfect"),
  (OC, "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            direction=directs", "            energy=_share(rays, selector, 1 - self._abs),\n            direction=directs"))
r('o_abs_mult', (OC, "        energy = outg.get_energy()\n        proj = N.sum(rays.get_directions()[:,selector] * geometry.up()[:,None], axis=0)\n        energy[proj > 0] = 0\n        outg.set_energy(energy)\n        return outg", "        proj = N.dot(geometry.up(), rays.get_directions(selector))\n        outg.set_energy(outg.get_energy()*(proj <= 0))\n        return outg"))
r('o_abs_idx', (OC, "        energy[proj > 0] = 0\n        outg.set_energy(energy)\n", "        behind = N.nonzero(proj > 0)[0]\n        if len(behind):\n            outg.set_energy(0, behind)\n"))
r('o_toggle2', (OC, "        return N.where(current == self._ref_idxs[0], \n            self._ref_idxs[1], self._ref_idxs[0])", "        in_first = current == self._ref_idxs[0]\n        n = self._ref_idxs[0]*N.ones(current.shape)\n        n[in_first] = self._ref_idxs[1]\n        return n"))
r('o_refr_take', (OC, """        refr, out_dirs = optics.refractions(n1, n2, \\
            rays.get_directions()[:,selector], geometry.get_normals())
        
        if not refr.any():
            return perfect_mirror(geometry, rays, selector)
""", """        dirs = N.take(rays.get_directions(), selector, axis=1)
        norms = geometry.get_normals()
        refr, out_dirs = optics.refractions(n1, n2, dirs, norms)
        
        if N.all(~refr):
            # nothing goes through
            return perfect_mirror(geometry, rays, selector)
"""))
r('o_refr_energy', (OC, "        R = N.ones(len(selector))\n        R[refr] = optics.fresnel(rays.get_directions()[:,selector][:,refr],\n            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n", "        fres = optics.fresnel(rays.get_directions()[:,selector[refr]],\n            geometry.get_normals()[:,refr], n1[refr], n2[refr])\n        R = N.ones_like(n1)\n        N.place(R, refr, fres)\n"),
  (OC, "            energy=rays.get_energy()[selector][refr]*(1 - R[refr]),\n", "            energy=rays.get_energy()[selector[refr]]*(1 - fres),\n"))
r('o_refr_split', (OC, "            energy=rays.get_energy()[selector][refr]*(1 - R[refr]),\n", "            energy=(rays.get_energy()[selector] - reflected_rays.get_energy())[refr],\n"))
r('o_account_tuple', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n        return self._opt(geometry, rays, selector)", "        self._remember(self._opt._abs*rays.get_energy(selector), geometry.get_intersection_points_global())\n        return self._opt(geometry, rays, selector)\n    \n    def _remember(self, energy, points):\n        self._absorbed.append(energy)\n        self._hits.append(points)"))
r('o_account_pairs', (OC, "        self._absorbed = []\n        self._hits = []\n", "        self._log = []\n"), (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n", "        self._log.append((rays.get_energy()[selector]*self._opt._abs,\n            geometry.get_intersection_points_global()))\n"),
  (OC, "        if not any(len(a) for a in self._absorbed):\n            return N.array([]), N.array([]).reshape(3,0)\n        \n        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])", "        log = [entry for entry in self._log if len(entry[0])]\n        if not log:\n            return N.array([]), N.zeros((3,0))\n        \n        absorbed, hits = zip(*log)\n        return N.hstack(absorbed), N.hstack(hits)"))
r('o_lambert_dot', (OC, "        directs = N.sum(rotation_to_z(geometry.get_normals().T) * \\\n            directs.T[:,None,:], axis=2).T\n", "        rots = rotation_to_z(geometry.get_normals().T).reshape(-1, 3, 3)\n        directs = (rots*directs.T[:,None,:]).sum(axis=-1).T\n"))
# ---- optics
r('p_refl_dot', (OP, "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    return ray_dirs - 2*vertical", "    along = N.add.reduce(ray_dirs*normals)\n    return ray_dirs - 2.*along*normals"))
r('p_fres_mean', (OP, "    R = (Rs + Rp)/2\n    return R", "    return 0.5*Rs + 0.5*Rp"))
r('p_fres_clip', (OP, "    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))\n", "    cos_in = N.abs(N.sum(normals*ray_dirs, axis=0))\n    theta_in = N.arccos(cos_in)\n"))
r('p_refr_sign', (OP, "    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    cos2[cos1 < 0] *= -1\n    refr_dirs = refr_dirs + normals*cos2\n"))
r('p_refr_crit', (OP, "    refracted = cos1**2 >= 1 - n**2\n", "    sin1_sq = 1 - cos1**2\n    refracted = ~(sin1_sq > n**2)\n"))
r('p_refr_compress', (OP, "    cos1 = cos1[refracted]\n    ray_dirs = ray_dirs[:,refracted]\n    normals = normals[:,refracted]\n    n = n[refracted]\n", "    keep = N.nonzero(refracted)[0]\n    cos1, n = cos1[keep], n[keep]\n    ray_dirs = ray_dirs.take(keep, axis=1)\n    normals = N.compress(refracted, normals, axis=1)\n"))
# ---- flats
r('f_plane_where', (FS, """        params = N.empty(n)
        params.fill(N.inf)
        
        vt = N.dot(frame[:3,2], v[:,unparallel])
        params[unparallel] = -vt/dt[unparallel]
        
        # Takes into account a negative depth
        # Note that only the 3rd row of params is relevant here!
        negative = params < 0
        params[negative] = N.Inf
""", """        params = N.repeat(N.inf, n)
        normal = frame[:3,2]
        idx = N.nonzero(unparallel)[0]
        prm = -N.dot(normal, v[:,idx])/dt[idx]
        ahead = prm >= 0
        params[idx[ahead]] = prm[ahead]
"""))
r('f_dt_sum', (FS, "        dt = N.dot(d.T, frame[:3,2])\n", "        dt = N.sum(d*frame[:3,2,None], axis=0)\n"))
r('f_backside_idx', (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms", "        up = self._working_frame[:3,2]\n        norms = N.empty((3, len(self._idxs)))\n        norms[:] = up[:,None]\n        norms[:,self._backside] = -up[:,None]\n        return norms"))
r('f_select_take', (FS, "        v = self._working_bundle.get_vertices()[:,idxs]\n        d = self._working_bundle.get_directions()[:,idxs]\n        p = self._params[idxs]\n        del self._params\n", "        bund = self._working_bundle\n        v, d = bund.get_vertices(idxs), bund.get_directions(idxs)\n        p = self._params[idxs]\n        del self._params\n"))
r('f_errstate', (FS, "        oldsettings = N.seterr(invalid='ignore')\n        self._global = v + p[None,:]*d\n        N.seterr(**oldsettings)\n", "        with N.errstate(invalid='ignore'):\n            self._global = v + p*d\n"))
r('f_local_inv', (FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((self._global, N.ones(self._global.shape[1]))))\n", "        to_local = N.linalg.inv(self._working_frame)\n        self._local = N.dot(to_local[:3,:3], self._global) + to_local[:3,3][:,None]\n"))
r('f_rect_two', (FS, "        ray_prms[N.any(abs(self._local[:2]) > self._half_dims, axis=0)] = N.inf\n", "        half_w, half_h = self._half_dims[:,0]\n        x, y = self._local[0], self._local[1]\n        outside = (N.abs(x) > half_w) | (N.abs(y) > half_h)\n        ray_prms[outside] = N.inf\n"))
r('f_round_hyp', (FS, "        ray_prms[N.sum(self._local[:2]**2, axis=0) > self._R**2] = N.inf\n", "        x, y = self._local[:2]\n        ray_prms[x*x + y*y > self._R*self._R] = N.inf\n"))
r('f_trim_method', (FS, "        ray_prms = FiniteFlatGM.find_intersections(self, frame, ray_bundle)\n        ray_prms[N.sum(self._local[:2]**2, axis=0) > self._R**2] = N.inf\n        del self._local\n        return ray_prms\n", "        ray_prms = FiniteFlatGM.find_intersections(self, frame, ray_bundle)\n        local = self._local\n        del self._local\n        return self._trim(ray_prms, local)\n    \n    def _trim(self, ray_prms, local):\n        ray_prms[N.sum(local[:2]**2, axis=0) > self._R**2] = N.inf\n        return ray_prms\n"))
r('f_mesh', (FS, "        x, y = N.broadcast_arrays(xs[:,None], ys)\n        z = N.zeros_like(x)\n        return x, y, z\n\nclass Round", "        x = N.tile(xs[:,None], (1, len(ys)))\n        y = N.tile(ys, (len(xs), 1))\n        return x, y, N.zeros(x.shape)\n\nclass Round"))
# ---- quadrics
r('q_two_roots', (QD, """        pm = N.c_[[-1, 1]]
        hits = N.empty((2, num_inters))
        almost_planar = A <= 1e-10
        really_quadric = ~almost_planar
        hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))
        hits[:,really_quadric] = \\
            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
""", """        hits = N.empty((2, num_inters))
        planar = A <= 1e-10
        quadric = N.logical_not(planar)
        hits[:,planar] = -C[planar]/B[planar]
        for root, sign in enumerate((-1, 1)):
            hits[root,quadric] = (-B[quadric] + sign*delta[quadric])/(2*A[quadric])
"""))
r('q_numinters', (QD, "        num_inters = any_inters.sum()\n        if num_inters == 0:\n", "        num_inters = N.count_nonzero(any_inters)\n        if not num_inters:\n"))
r('q_indices', (QD, """        select = self._select_coords(inters_coords, hits)
        not_missed = ~N.isnan(select)
        any_inters[any_inters] = not_missed
        select = N.array(select[not_missed], dtype=N.int_)
        params[any_inters] = N.choose(select, hits[:,not_missed])
        vertices[:,any_inters] = N.choose(select, inters_coords[...,not_missed])
""", """        select = self._select_coords(inters_coords, hits)
        chosen = N.nonzero(~N.isnan(select))[0]
        which = select[chosen].astype(int)
        rays = N.nonzero(any_inters)[0][chosen]
        params[rays] = hits[which, chosen]
        vertices[:,rays] = N.where(which == 0, inters_coords[0][:,chosen], inters_coords[1][:,chosen])
"""))
r('q_default_select', (QD, """        is_positive = prm > 0
        select = N.empty(prm.shape[1])

        # If both are negative, it is a miss
        # This line also catches the cases of the last xor.
        select[~N.logical_or(*is_positive)] = N.nan
        
        # If both are positive, use the smaller one
        select[N.logical_and(*is_positive)] = 0
        
        # If either one is negative, use the positive one
        one_pos = N.logical_xor(*is_positive)
        select[one_pos] = N.nonzero(is_positive.T[one_pos,:])[1]
        
        return select
""", """        first, second = prm > 0
        return N.where(first, 0., N.where(second, 1., N.nan))
"""))
r('q_norm_lazy', (QD, "        self._norm = self._normals(self._vertices.T,\n                self._working_bundle.get_directions()[:,idxs].T)\n", "        incident = self._working_bundle.get_directions(idxs)\n        self._norm = self._normals(self._vertices.T, incident.T)\n"))
r('q_done', (QD, "        if hasattr(self, '_vertices'):\n            del self._vertices\n        if hasattr(self, '_idxs'):\n            del self._norm\n            del self._idxs\n        GeometryManager.done(self)", "        for attr in ('_vertices', '_norm', '_idxs'):\n            self.__dict__.pop(attr, None)\n        GeometryManager.done(self)"))
r('s_norm_where', (SP, "        normal = (hits - c).T\n        normal[:,sides < 0] *= -1\n        normal = normal/N.sqrt(N.sum(normal**2, axis=0))\n        return normal", "        outward = (hits - c)/N.sqrt(N.sum((hits - c)**2, axis=1))[:,None]\n        return N.where(sides[:,None] < 0, -outward, outward).T"))
r('s_hemi_rot', (SP, "        coords = N.concatenate((coords, N.ones((2,1,coords.shape[2]))), axis=1)\n        local = N.sum(N.linalg.inv(self._working_frame)[None,:,:,None] * \\\n            coords[:,None,:,:], axis=2)\n        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n", "        rel = coords - self._working_frame[:3,3][None,:,None]\n        local_z = N.sum(rel*self._working_frame[:3,2][None,:,None], axis=1)\n        bottom_hem = (local_z <= 0) & (prm > 0)\n"))
r('s_pick_helper', (SP, "        select[~N.logical_or(*bottom_hem)] = N.nan\n        one_hit = N.logical_xor(*bottom_hem)\n        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]\n        \n        return select\n", "        near, far = bottom_hem\n        select[~(near | far)] = N.nan\n        select[near & ~far] = 0\n        select[far & ~near] = 1\n        return select\n"))
r('s_cut_flat', (SP, "        in_bd = N.array([self._bound.in_bounds(coords[...,c]) for c in xrange(prm.shape[1])]).T\n        in_bd &= prm > 0\n", "        in_bd = N.array([self._bound.in_bounds(coords[root].T) for root in xrange(2)])\n        in_bd &= prm > 0\n"))
r('s_radius_prop', (SP, "        C = ((v - c[:,None])**2).sum(axis=0) - self.get_radius()**2\n", "        C = N.sum((v - c[:,None])**2, axis=0) - self._rad**2\n"))
r('c_normals_rot', (CY, "        hit = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((verts.T, N.ones(verts.shape[0]))))\n        dir_loc", "        hit = N.dot(self._working_frame[:3,:3].T, (verts - self._working_frame[:3,3]).T)\n        dir_loc"))
r('c_flip', (CY, "        local_norm[:, N.sum(local_norm[:2] * dir_loc[:2], axis=0) > 0] *= -1\n", "        outgoing = (local_norm*dir_loc).sum(axis=0) > 0\n        local_norm = local_norm*N.where(outgoing, -1, 1)\n"))
r('c_sel_where', (CY, "        select = N.empty(prm.shape[1])\n        select.fill(N.nan)\n", ""), (CY, "        select[N.logical_and(*hitting)] = 0\n        one_hitting = N.logical_xor(*hitting)\n        select[one_hitting] = N.nonzero(hitting.T[one_hitting,:])[1]\n\n        return select\n", "        return N.where(hitting[0], 0, N.where(hitting[1], 1, N.nan))\n"))
r('d_z', (PA, "        local_z = N.sum(N.linalg.inv(self._working_frame)[None,2,:,None] * \\\n            coords, axis=1)\n        under_cut", "        inv_frame = N.linalg.inv(self._working_frame)\n        local_z = N.dot(inv_frame[2], coords.reshape(2, 4, -1).transpose(1,0,2).reshape(4,-1)).reshape(2,-1)\n        under_cut"))
r('d_hex', (PA, "        outside = abs_x > math.sqrt(3)*self._R/2.\n        outside |= abs_y > self._R - math.tan(N.pi/6.)*abs_x\n        inside = (~outside) & (prm > 0)\n", "        in_x = abs_x <= math.sqrt(3)*self._R/2.\n        in_slant = abs_y <= self._R - math.tan(N.pi/6.)*abs_x\n        inside = in_x & in_slant & (prm > 0)\n"))
r('d_norm', (PA, "        local_normal = N.vstack((-partial_x, -partial_y, N.ones_like(partial_x)))\n        local_unit = local_normal/N.sqrt(N.sum(local_normal**2, axis=0))\n        down", "        length = N.sqrt(partial_x**2 + partial_y**2 + 1)\n        local_unit = N.array([-partial_x, -partial_y, N.ones(len(partial_x))])/length\n        down"))
r('d_init', (PA, "        par_param = 2*math.sqrt(focal_length) # [2]\n        Paraboloid.__init__(self, par_param, par_param)\n        self._R = diameter/2. # For the mesh\n        self._h = (diameter/2./par_param)**2\n", "        par_param = 2*focal_length**0.5 # [2]\n        Paraboloid.__init__(self, a=par_param, b=par_param)\n        self._R = diameter/2. # For the mesh\n        self._h = self.a*self._R**2\n"))
r('t_local', (TF, "        glob_verts = np.dot(frame, np.vstack(( self._verts, np.array([1,1]) )) )\n        rel_glob = glob_verts[:3].T - frame[:3,3]\n        w = self._global.T - frame[:3,3]\n        \n        uv = np.dot(self._verts[:,0], self._verts[:,1])\n        rel_dots = np.dot(w, rel_glob.T)\n", "        uv = np.dot(self._verts[:,0], self._verts[:,1])\n        rel_dots = np.dot(self._local[:3].T, self._verts)\n"))
r('t_names', (TF, "        bc = (uv*rel_dots[:,::-1] - norms_sq[::-1]*rel_dots) / \\\n            (uv**2 - norms_sq[0]*norms_sq[1])\n", "        det = norms_sq[0]*norms_sq[1] - uv**2\n        s = (norms_sq[1]*rel_dots[:,0] - uv*rel_dots[:,1])/det\n        t = (norms_sq[0]*rel_dots[:,1] - uv*rel_dots[:,0])/det\n        bc = np.vstack((s, t)).T\n"))
# ---- frames and trees
r('h_transform', (HF, "        self._transform = N.empty((4,4))\n        self._transform[3,:] = N.r_[0, 0, 0, 1]\n", "        self._transform = N.eye(4)\n"))
r('h_sub', (HF, "        self._transform = N.array(transform, dtype=float)\n", "        self._transform = N.asarray(transform, dtype=float).copy()\n"))
r('a_stack', (AS, "        return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "        surfaces = []\n        for obj in self.get_objects():\n            surfaces = surfaces + obj.get_surfaces()\n        return surfaces"))
r('a_sum', (AS, "        return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "        return sum([asm.get_objects() for asm in self._assemblies], []) + self._objects"))
r('a_init', (AS, "        if objects is None:\n            objects = []\n        self._objects = objects\n        \n        if subassemblies is None:\n            subassemblies = []\n        self._assemblies = subassemblies\n        \n        HasFrame.__init__(self, location, rotation)\n", "        self._objects = objects if objects is not None else []\n        self._assemblies = [] if subassemblies is None else subassemblies\n        HasFrame.__init__(self, location=location, rotation=rotation)\n"))
r('a_super', (AS, "        HasFrame.set_transform(self, transform)\n        self.transform_children()\n", "        super(Assembly, self).set_transform(transform)\n        self.transform_children()\n"))
r('a_tc_default', (AS, "    def transform_children(self, assembly_transform=N.eye(4)):", "    def transform_children(self, assembly_transform=None):"), (AS, "        const_t = self.get_transform()\n        for obj", "        if assembly_transform is None:\n            assembly_transform = N.eye(4)\n        const_t = self.get_transform()\n        for obj"))
r('ob_zeros', (OB, "        return N.ones((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)", "        relevant = N.empty((len(self.get_surfaces()), rays.get_num_rays()), dtype=N.bool)\n        relevant[...] = True\n        return relevant"))
r('su_g2l', (SU, "        return N.dot(N.linalg.inv(self._temp_frame), \n            N.vstack((points, N.ones(points.shape[1]))))", "        homog = N.ones((4, points.shape[1]))\n        homog[:3] = points\n        return N.dot(N.linalg.inv(self._temp_frame), homog)"))
r('su_done', (SU, "        if hasattr(self, '_current_bundle'):\n            del self._current_bundle\n        self._geom.done()", "        self._geom.done()\n        try:\n            del self._current_bundle\n        except AttributeError:\n            pass"))
r('bs_rect', (BS, "        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))\n        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)\n        return cent_proj[0] - Reff, cent_proj[0] + Reff, \\\n            cent_proj[1] - Reff, cent_proj[1] + Reff", "        x, y, z = N.dot(N.linalg.inv(transform), N.r_[self._temp_loc[:3], 1])[:3]\n        Reff = N.sqrt(self._radius**2 - z**2)\n        return x - Reff, x + Reff, y - Reff, y + Reff"))
# ---- sources
r('src_pill', (SO, "    a = N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , N.cos(theta)))\n    return a", "    a = N.empty((3, num_rays))\n    a[0] = N.cos(xi1)*sin_th\n    a[1] = N.sin(xi1)*sin_th\n    a[2] = N.cos(theta)\n    return a"))
r('src_rand', (SO, "    xi1 = random.uniform(high=2*N.pi, size=num_rays)\n    xi2 = random.uniform(size=num_rays)\n", "    xi1 = 2*N.pi*random.random_sample(num_rays)\n    xi2 = random.random_sample(num_rays)\n"))
r('src_disk_basis', (SO, "    vertices_local = N.vstack((xs,  ys,  N.zeros(num_rays)))\n    vertices_global = N.dot(perp_rot,  vertices_local)\n\n    rayb = RayBundle(vertices=vertices_global + center, directions=directions)", "    vertices_global = xs*perp_rot[:,0][:,None] + ys*perp_rot[:,1][:,None]\n    rayb = RayBundle(vertices=center + vertices_global, directions=directions)"))
r('src_flux', (SO, "        rayb.set_energy(N.pi*radius**2/num_rays*flux*N.ones(num_rays))\n", "        area = N.pi*radius**2\n        rayb.set_energy(N.repeat(flux*area/num_rays, num_rays))\n"))
r('src_square', (SO, "    rayb.set_directions(N.tile(direction[:,None], (1, vertices_global.shape[1])))\n", "    dirs = N.empty(vertices_global.shape)\n    dirs[:] = direction[:,None]\n    rayb.set_directions(dirs)\n"))
r('sg_cross', (SG, "    perp_rot = N.concatenate((perp[...,None], N.cross(vecs, perp)[...,None],\n        vecs[...,None]), axis=2)\n", "    perp_rot = N.empty((vecs.shape[0], 3, 3))\n    perp_rot[:,:,0] = perp\n    perp_rot[:,:,1] = N.cross(vecs, perp)\n    perp_rot[:,:,2] = vecs\n"))
r('sg_vert_where', (SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    vertical = ~perp.any(axis=1)\n    perp[vertical] = [1., 0., 0.]\n"))
r('sg_gen', (SG, "    return N.vstack((N.hstack((rot, translation)), N.r_[[0,0,0,1]]))", "    return N.r_[N.c_[rot, translation], [[0,0,0,1]]]"))
r('sg_trans', (SG, "    return N.array([\n        [1, 0, 0, x],\n        [0, 1, 0, y],\n        [0 ,0, 1, z],\n        [0, 0, 0, 1]\n    ])", "    t = N.eye(4)\n    t[:3,3] = (x, y, z)\n    return t"))
# ---- models
r('m_homog_loop', (MD % 'homogenizer', "    return Assembly(objects=[wall_xp, wall_xn, wall_yp, wall_yn])", "    walls = Assembly()\n    for wall in (wall_xp, wall_xn, wall_yp, wall_yn):\n        walls.add_object(wall, wall.get_transform())\n    return walls"))
r('m_helio_bis', (MD % 'heliostat_field', "        hstat_az = N.arctan2(hstat[:,1], hstat[:,0])\n        hstat_elev = N.arccos(hstat[:,2])\n", "        x, y, z = hstat.T\n        hstat_az = N.arctan2(y, x)\n        hstat_elev = N.arccos(z)\n"))
r('m_helio_norm', (MD % 'heliostat_field', "        tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])\n        hstat = sun_vec + tower_vec\n        hstat /= N.sqrt(N.sum(hstat**2, axis=1)[:,None])\n", "        tower_vec = self._normalised(tower_vec)\n        hstat = self._normalised(sun_vec + tower_vec)\n"), (MD % 'heliostat_field', "    def aim_to_sun(", "    @staticmethod\n    def _normalised(vecs):\n        return vecs/N.sqrt((vecs**2).sum(axis=1))[:,None]\n    \n    def aim_to_sun("))
r('m_helio_elemrot', (MD % 'heliostat_field', "            az_rot = rotz(hstat_az[hidx])\n            elev_rot = roty(hstat_elev[hidx])\n            \n            trans = N.dot(az_rot, elev_rot)\n            trans[:3,3] = self._pos[hidx]\n", "            trans = N.eye(4)\n            trans[:3,:3] = N.dot(rotz(hstat_az[hidx])[:3,:3], roty(hstat_elev[hidx])[:3,:3])\n            trans[:3,3] = self._pos[hidx]\n"))
r('m_stagger_loop', (MD % 'heliostat_field', "    # 1st stagger:\n    xs1 = N.outer(rs[::2], N.cos(angs[::2])).flatten()\n    ys1 = N.outer(rs[::2], N.sin(angs[::2])).flatten()\n    \n    # 2nd staggeer:\n    xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).flatten()\n    ys2 = N.outer(rs[1::2], N.sin(angs[1::2])).flatten()\n    \n    xs = N.r_[xs1, xs2]\n    ys = N.r_[ys1, ys2]\n", "    xs, ys = [], []\n    for start in (0, 1):\n        ring, ang = rs[start::2], angs[start::2]\n        xs.append(N.outer(ring, N.cos(ang)).flatten())\n        ys.append(N.outer(ring, N.sin(ang)).flatten())\n    xs, ys = N.hstack(xs), N.hstack(ys)\n"))
r('m_recv_dims', (MD % 'homogenized_local_receiver', "        if type(receiver_dims) is type(tuple()):\n            self._sides = receiver_dims\n        else:\n            self._sides = (receiver_dims, receiver_dims)\n", "        if not isinstance(receiver_dims, tuple):\n            receiver_dims = (receiver_dims, receiver_dims)\n        self._sides = receiver_dims\n"))
r('m_recv_order', (MD % 'homogenized_local_receiver', "        receiver_frame = N.dot(sp.translate(0, 0, receiver_pos), sp.rotx(N.pi))\n", "        receiver_frame = sp.rotx(N.pi)\n        receiver_frame[2,3] = receiver_pos\n"))
r('m_lens_pow', (MD % 'spherical_lens', "        opt_power = (refr_idx - 1)*(1./R1 - 1./R2 + depth*(refr_idx - 1)/R1/R2/refr_idx)\n        f = 1./opt_power\n", "        n1 = refr_idx - 1\n        c1, c2 = 1./R1, 1./R2\n        opt_power = n1*(c1 - c2) + n1**2*depth*c1*c2/refr_idx\n        f = opt_power**-1\n"))
r('m_dish_meas', (MD % 'tau_minidish', "    f = diameter/4./(sqrt(2) - 1)\n    W = diameter/2. * sqrt(pi/concentration)\n", "    rim_tan = sqrt(2) - 1\n    f = diameter/(4.*rim_tan)\n    W = sqrt(pi*(diameter/2.)**2/concentration)\n"))
r('m_tri_norm', (MD % 'triangulated_surface', "        ys = np.cross(zs, xs)\n        pos = pos[non_collinear]\n", "        pos = pos[non_collinear]\n        ys = np.cross(zs, xs)\n        ys = ys/np.sqrt(np.sum(ys**2, axis=1))[:,None]\n"))
r('m_mirror', (MD % 'one_sided_mirror', "    surf = Surface(RectPlateGM(width, height), \n        opt.AbsorberReflector(absorptivity))\n    obj = AssembledObject(surfs=[surf])\n", "    obj = AssembledObject()\n    obj.add_surface(Surface(RectPlateGM(width, height), \n        opt.AbsorberReflector(absorptivity)))\n"))
r('sv_in1d', (SV, "            escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)\n", "            escaping = ~N.in1d(N.nonzero(non_degenerate)[0], end_rays.get_parents())\n"))
r('sv_ids', (SV, "            sv = start_rays", "            sv = start_rays") if False else (SV, "        non_degenerate = se != 0\n        if ray_selector is not None:\n            non_degenerate &= ray_selector(start_rays)\n", "        non_degenerate = start_rays.get_energy() != 0\n        if ray_selector is not None:\n            non_degenerate = N.logical_and(non_degenerate, ray_selector(start_rays))\n"))
