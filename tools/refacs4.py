# fourth generation of edits that keep the behaviour: larger restructurings and other numpy idioms
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
def r(name, *edits): R.append((name, edits))
GMF = 'tracer/geometry_manager.py'
# engine
r('te_fill_loop', (TE, "        stack[stack <= 1e-6] = N.inf\n", "        stack = N.where(stack > 1e-6, stack, N.inf)\n"))
r('te_front', (TE, "        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))\n        \n        return stack, owned_rays\n", "        nearest = N.amin(stack, axis=0)\n        hit = N.isfinite(stack) & (stack == nearest[None,:])\n        return hit, owned_rays\n"))
r('te_init_inf', (TE, "        stack = N.zeros(ret_shape)\n", "        stack = N.zeros(ret_shape, dtype=float)\n"), (TE, "        if (stack < -1e-16).any():\n            raise", "        if N.any(stack < -1e-16):\n            raise"))
r('te_setup_helper', (TE, "        surfs_per_obj = [len(obj.get_surfaces()) for obj in objects]\n        surfs_until_obj = N.hstack((N.r_[0], N.add.accumulate(surfs_per_obj)))\n        surf_ownership = N.repeat(N.arange(len(objects)), surfs_per_obj)\n", "        surfs_until_obj, surf_ownership = self._index_surfaces(objects)\n"),
  (TE, "    def ray_tracer(self", "    def _index_surfaces(self, objects):\n        counts = [len(obj.get_surfaces()) for obj in objects]\n        starts = [0]\n        owners = []\n        for num, count in enumerate(counts):\n            starts.append(starts[-1] + count)\n            owners.extend([num]*count)\n        return N.array(starts), N.array(owners)\n\n    def ray_tracer(self"))
r('te_cumsum', (TE, "N.hstack((N.r_[0], N.add.accumulate(surfs_per_obj)))", "N.concatenate(([0], N.cumsum(surfs_per_obj)))"))
r('te_hits_method', (TE, "                inters = front_surf[surf_idx, owned_rays[surf_idx]]\n                if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue\n                surfaces[surf_idx].select_rays(N.nonzero(inters)[0])\n                new_outg = surfaces[surf_idx].get_outgoing()\n", "                surf = surfaces[surf_idx]\n                tested = owned_rays[surf_idx]\n                inters = N.flatnonzero(front_surf[surf_idx][tested])\n                if len(inters) == 0:\n                    surf.done()\n                    continue\n                surf.select_rays(inters)\n                new_outg = surf.get_outgoing()\n"))
r('te_own_arith', (TE, "                out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))\n", "                own = -N.ones(new_outg.get_num_rays())\n                own[object_owns_outg] = obj_idx\n                out_ray_own.append(own)\n"))
r('te_relev_slice', (TE, "                surf_relev[surf_ownership == obj_idx] = \\\n                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n", "                first, last = surfs_until_obj[obj_idx:obj_idx + 2]\n                surf_relev[first:last] = \\\n                    objects[obj_idx].surfaces_for_next_iteration(new_outg, surf_rel_idx)\n"))
r('te_weak_first', (TE, "                weak_ray_pos.append(delete)\n                if delete.any():\n                    new_outg = new_outg.delete_rays(N.nonzero(delete)[0])\n                surfaces[surf_idx].done()\n                \n                # Aggregate outgoing bundles from all the objects\n                outg.append(new_outg)\n                record.append(new_record)\n", "                surfaces[surf_idx].done()\n                record.append(new_record)\n                weak_ray_pos.append(delete)\n                if N.any(delete):\n                    new_outg = new_record.inherit(N.nonzero(N.logical_not(delete))[0])\n                outg.append(new_outg)\n"))
r('te_record_method', (TE, "                record = concatenate_rays(record)\n                \n                if record.get_num_rays() != 0:\n                    weak_ray_pos = N.hstack(weak_ray_pos)\n                    record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])\n                    self.tree.append(record)\n", "                self._register(bund, concatenate_rays(record), weak_ray_pos)\n"),
  (TE, "    def ray_tracer(self", "    def _register(self, kept, everything, weak):\n        if everything.get_num_rays() == 0:\n            return\n        weak = N.concatenate(weak)\n        self.tree.append(kept + everything.inherit(weak.nonzero()[0]))\n\n    def ray_tracer(self"))
r('te_owned_helper', (TE, "            owned_rays[surf_num] = ((ray_ownership == -1) | \\\n                (ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]\n            if not owned_rays[surf_num].any():\n                continue\n            if (~owned_rays[surf_num]).any():\n                in_rays = bundle.inherit(owned_rays[surf_num])\n            else:\n                in_rays = bundle\n            stack[surf_num, owned_rays[surf_num]] = \\\n                surfaces[surf_num].register_incoming(in_rays)\n",
  "            free = ray_ownership == -1\n            mine = ray_ownership == surf_ownership[surf_num]\n            tested = N.logical_or(free, mine) & surf_relevancy[surf_num]\n            owned_rays[surf_num] = tested\n            if not N.any(tested):\n                continue\n            in_rays = bundle if N.all(tested) else bundle.inherit(tested)\n            stack[surf_num,tested] = surfaces[surf_num].register_incoming(in_rays)\n"))
# bundles
r('rb_names_const', (RB, "        base_vals = dict((attr[1:], None) for attr in self._check_attr)\n        base_vals.update({\n            'vertices': vertices,\n            'directions': direction,\n            'energy': energy,\n            'parents': parents,\n            'ref_index': ref_index})\n        base_vals.update(kwds)\n        \n        for p, v in base_vals.iteritems():\n            if base_vals[p] is None and hasattr(self, '_' + p):\n                base_vals[p] = self.__dict__['get_' + p](selector)\n        \n        return RayBundle(**base_vals)\n",
  "        given = dict(kwds, vertices=vertices, directions=direction,\n            energy=energy, parents=parents, ref_index=ref_index)\n        for attr in self._check_attr:\n            name = attr[1:]\n            if given.get(name) is None and attr in self.__dict__:\n                given[name] = getattr(self, 'get' + attr)(selector)\n        return RayBundle(**given)\n"))
r('rb_hstack_cat', (RB, "                newbund.__dict__['set' + attr](N.hstack((\n                    self.__dict__['get' + attr](),\n                    added.__dict__['get' + attr]() )) )\n", "                mine, theirs = self.__dict__[attr], added.__dict__[attr]\n                setattr(newbund, attr, N.concatenate((mine, theirs), axis=-1))\n"))
r('rb_getter_lambda', (RB, "            if selector is None:\n                return self.__dict__[attr]\n            else:\n                return self.__dict__[attr][...,selector]\n", "            value = getattr(self, attr)\n            return value if selector is None else value[...,selector]\n"))
r('rb_delete_setdiff', (RB, "        inherit_select = N.delete(N.arange(self.get_num_rays()), selector)\n        outg = self.inherit(inherit_select)\n         \n        return outg \n", "        keep = N.ones(self.get_num_rays(), dtype=bool)\n        keep[selector] = False\n        return self.inherit(keep)\n"))
r('rb_empty_inherit', (RB, "        empty = RayBundle()\n        empty_array = N.array([[],[],[]])\n        empty.set_directions(empty_array)\n        empty.set_vertices(empty_array)\n        empty.set_energy(N.array([]))\n        empty.set_parents(N.array([]))\n        empty.set_ref_index(N.array([]))\n        return empty\n", "        vecs = N.empty((3, 0))\n        nothing = N.empty(0)\n        return RayBundle(vecs, vecs.copy(), nothing, nothing.copy(), nothing.copy())\n"))
# optics
r('oc_reflect_base', (OC, "        outg = rays.inherit(selector,\n            vertices=geometry.get_intersection_points_global(),\n            direction=optics.reflections(\n                rays.get_directions()[:,selector], geometry.get_normals()),\n            energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        return outg\n\nperfect", "        return reflect(geometry, rays, selector, 1 - self._abs)\n\ndef reflect(geometry, rays, selector, share):\n    incoming = rays.get_directions(selector)\n    outgoing = optics.reflections(incoming, geometry.get_normals())\n    return rays.inherit(selector, vertices=geometry.get_intersection_points_global(),\n        direction=outgoing, energy=share*rays.get_energy(selector), parents=selector)\n\nperfect"),
  (OC, "        reflected_rays = rays.inherit(selector, vertices=inters,\n            direction=optics.reflections(\n                rays.get_directions()[:,selector],\n                geometry.get_normals()),\n            energy=rays.get_energy()[selector]*R,\n            parents=selector)\n", "        reflected_rays = reflect(geometry, rays, selector, R)\n"))
r('oc_absorber_zero', (OC, "        energy = outg.get_energy()\n        proj = N.sum(rays.get_directions()[:,selector] * geometry.up()[:,None], axis=0)\n        energy[proj > 0] = 0\n        outg.set_energy(energy)\n", "        proj = N.dot(geometry.up(), rays.get_directions()[:,selector])\n        outg.set_energy(outg.get_energy()*(proj <= 0))\n"))
r('oc_toggle_choose', (OC, "        return N.where(current == self._ref_idxs[0], \n            self._ref_idxs[1], self._ref_idxs[0])\n", "        first, second = self._ref_idxs\n        other = N.empty(len(current))\n        other[:] = first\n        other[current == first] = second\n        return other\n"))
r('oc_refr_where', (OC, "        R = N.ones(len(selector))\n        R[refr] = optics", "        R = N.ones_like(n1)\n        R[refr] = optics"), (OC, "        refracted_rays = rays.inherit(selector[refr], vertices=inters[:,refr],\n            direction=out_dirs, parents=selector[refr],\n            energy=rays.get_energy()[selector][refr]*(1 - R[refr]),\n            ref_index=n2[refr])\n", "        through = selector[refr]\n        passed = rays.get_energy()[through]*(1. - R[refr])\n        refracted_rays = rays.inherit(through, vertices=inters[:,refr],\n            direction=out_dirs, parents=through, energy=passed, ref_index=n2[refr])\n"))
r('oc_hits_concat', (OC, "        if not any(len(a) for a in self._absorbed):\n            return N.array([]), N.array([]).reshape(3,0)\n        \n        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])\n", "        absorbed = [N.zeros(0)] + self._absorbed\n        hits = [N.zeros((3,0))] + self._hits\n        return N.concatenate(absorbed), N.concatenate(hits, axis=1)\n"))
r('op_fresnel_cos', (OP, "    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))\n    foo = N.cos(theta_in) \n    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)\n", "    cosi = abs(N.sum(normals*ray_dirs, axis=0))\n    theta_in = N.arccos(cosi)\n    sint = n1/n2*N.sin(theta_in)\n    foo, bar = N.cos(theta_in), N.sqrt(1 - sint*sint)\n"))
r('op_refr_eta', (OP, "    refr_dirs = (ray_dirs - cos1*normals)/n\n    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))\n    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)\n", "    along = cos1*normals\n    across = ray_dirs - along\n    sin2_sq = (1 - cos1**2)/n**2\n    cos2 = N.sqrt(1 - sin2_sq)\n    side = N.ones_like(cos1)\n    side[cos1 < 0] = -1\n    refr_dirs = across/n + normals*(cos2*side)\n"))
# flat
r('fs_params_where', (FS, "        params = N.empty(n)\n        params.fill(N.inf)\n        \n        vt = N.dot(frame[:3,2], v[:,unparallel])\n        params[unparallel] = -vt/dt[unparallel]\n", "        params = N.inf*N.ones(n)\n        hitting = N.nonzero(unparallel)[0]\n        depth = N.dot(frame[:3,2], v)\n        params[hitting] = -depth[hitting]/dt[hitting]\n"))
r('fs_back_tail', (FS, "        self._backside = N.nonzero(self._backside[idxs])[0]\n        \n        v = self._working_bundle.get_vertices()[:,idxs]\n        d = self._working_bundle.get_directions()[:,idxs]\n        p = self._params[idxs]\n        del self._params\n        \n        # Global coordinates on the surface:\n        self._global = v + p[None,:]*d\n", "        self._backside = N.flatnonzero(self._backside[idxs])\n        rays = self._working_bundle\n        self._global = rays.get_vertices(idxs) + rays.get_directions(idxs)*self._params[idxs]\n        del self._params\n"))
r('fs_rect_loop', (FS, "        ray_prms[N.any(abs(self._local[:2]) > self._half_dims, axis=0)] = N.inf\n", "        for axis in (0, 1):\n            ray_prms[abs(self._local[axis]) > self._half_dims[axis,0]] = N.inf\n"))
r('fs_round_sqrt', (FS, "        ray_prms[N.sum(self._local[:2]**2, axis=0) > self._R**2] = N.inf\n", "        dist_sq = self._local[0]**2 + self._local[1]**2\n        outside = dist_sq > self._R**2\n        ray_prms = N.where(outside, N.inf, ray_prms)\n"))
r('fs_local_sub', (FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),\n            N.vstack((self._global, N.ones(self._global.shape[1]))))\n", "        homog = N.ones((4, self._global.shape[1]))\n        homog[:3] = self._global\n        self._local = N.dot(N.linalg.inv(self._working_frame), homog)\n"))
r('fs_norm_outer', (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms\n", "        facing = N.ones(len(self._idxs))\n        facing[self._backside] = -1.\n        return N.outer(self._working_frame[:3,2], facing)\n"))
r('tf_solve', (TF, "        bc = (uv*rel_dots[:,::-1] - norms_sq[::-1]*rel_dots) / \\\n            (uv**2 - norms_sq[0]*norms_sq[1])\n        \n        # Use barycentric coordinates for exclusion test.\n        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)\n        ray_prms[outside] = np.inf\n", "        det = uv**2 - norms_sq[0]*norms_sq[1]\n        s = (uv*rel_dots[:,1] - norms_sq[1]*rel_dots[:,0])/det\n        t = (uv*rel_dots[:,0] - norms_sq[0]*rel_dots[:,1])/det\n        outside = (s < 0) | (t < 0) | (s + t > 1)\n        ray_prms[outside] = np.inf\n"))
# quadrics
r('qd_loop_pm', (QD, "        pm = N.c_[[-1, 1]]\n        hits = N.empty((2, num_inters))\n        almost_planar = A <= 1e-10\n        really_quadric = ~almost_planar\n        hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))\n        hits[:,really_quadric] = \\\n            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])\n", "        hits = self._roots(A, B, C, delta)\n"),
  (QD, "    def _select_coords(self, coords, prm):\n        \"\"\"\n        Choose between two intersection points on a quadric surface.\n        This is", "    @staticmethod\n    def _roots(A, B, C, root_delta):\n        hits = N.empty((2, len(A)))\n        planar = A <= 1e-10\n        quad = N.logical_not(planar)\n        hits[:,planar] = -C[planar]/B[planar]\n        for row, sign in enumerate((-1, 1)):\n            hits[row,quad] = (sign*root_delta[quad] - B[quad])/(2*A[quad])\n        return hits\n\n    def _select_coords(self, coords, prm):\n        \"\"\"\n        Choose between two intersection points on a quadric surface.\n        This is"))
r('qd_select_argmax', (QD, "        is_positive = prm > 0\n        select = N.empty(prm.shape[1])\n\n        # If both are negative, it is a miss\n        # This line also catches the cases of the last xor.\n        select[~N.logical_or(*is_positive)] = N.nan\n        \n        # If both are positive, use the smaller one\n        select[N.logical_and(*is_positive)] = 0\n        \n        # If either one is negative, use the positive one\n        one_pos = N.logical_xor(*is_positive)\n        select[one_pos] = N.nonzero(is_positive.T[one_pos,:])[1]\n        \n        return select\n", "        first, second = prm > 0\n        return N.where(first, 0., N.where(second, 1., N.nan))\n"))
r('sp_hemi_where', (SP, "        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n        \n        select[~N.logical_or(*bottom_hem)] = N.nan\n        one_hit = N.logical_xor(*bottom_hem)\n        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]\n        \n        return select\n", "        near, far = (local[:,2,:] <= 0) & (prm > 0)\n        select[far & ~near] = 1\n        select[near & ~far] = 0\n        select[~(near | far)] = N.nan\n        return select\n"))
r('sp_cut_two', (SP, "        in_bd = N.array([self._bound.in_bounds(coords[...,c]) for c in xrange(prm.shape[1])]).T\n        in_bd &= prm > 0\n", "        in_bd = N.vstack([self._bound.in_bounds(root.T) for root in coords])\n        in_bd = in_bd & (prm > 0)\n"))
r('cy_select_default', (CY, "        select = N.empty(prm.shape[1])\n        select.fill(N.nan)\n        \n        height", "        select = N.nan*N.ones(prm.shape[1])\n        height"), (CY, "        select[N.logical_and(*hitting)] = 0\n        one_hitting = N.logical_xor(*hitting)\n        select[one_hitting] = N.nonzero(hitting.T[one_hitting,:])[1]\n", "        select[hitting[1]] = 1\n        select[hitting[0]] = 0\n"))
r('pa_norm_grad', (PA, "        local_normal = N.vstack((-partial_x, -partial_y, N.ones_like(partial_x)))\n        local_unit = local_normal/N.sqrt(N.sum(local_normal**2, axis=0))\n        down = N.sum(dir_loc * local_unit, axis=0) > 0\n        local_unit[:,down] *= -1\n        normals = N.dot(self._working_frame[:3,:3], local_unit)\n        \n        return normals  \n", "        gradient = N.array([-partial_x, -partial_y, N.ones(hit.shape[1])])\n        gradient /= N.sqrt((gradient**2).sum(axis=0))\n        sign = N.where((dir_loc*gradient).sum(axis=0) > 0, -1., 1.)\n        return N.dot(self._working_frame[:3,:3], gradient*sign)\n"))
r('pa_select_base', (PA, "        select[~N.logical_or(*under_cut)] = N.nan\n        one_hit = N.logical_xor(*under_cut)\n        select[one_hit] = N.nonzero(under_cut.T[one_hit,:])[1]\n", "        self._narrow(select, under_cut)\n"), (PA, "        select[~N.logical_or(*inside)] = N.nan\n        one_hit = N.logical_xor(*inside)\n        select[one_hit] = N.nonzero(inside.T[one_hit,:])[1]\n", "        self._narrow(select, inside)\n"),
  (PA, "    def get_ABC(self, ray_bundle):", "    @staticmethod\n    def _narrow(select, allowed):\n        first, second = allowed\n        select[~first & ~second] = N.nan\n        select[first ^ second] = N.where(second, 1, 0)[first ^ second]\n\n    def get_ABC(self, ray_bundle):"))
r('gm_frame_copy', (GMF, "        self._working_frame = frame\n        self._working_bundle = ray_bundle\n        \n        # This must be extended to return the correct result!\n        if type(self) is GeometryManager:\n            raise TypeError(\"Find intersections must be extended by a base class\")\n", "        if type(self) is GeometryManager:\n            raise TypeError(\"Find intersections must be extended by a base class\")\n        self._working_bundle = ray_bundle\n        self._working_frame = frame\n"))
# frames
r('as_objects_loop', (AS, "        return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n", "        objects = []\n        for asm in self._assemblies:\n            objects += asm.get_objects()\n        objects.extend(self._objects)\n        return objects\n"), (AS, "        return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])\n", "        return [surf for obj in self.get_objects() for surf in obj.get_surfaces()]\n"))
r('as_children_once', (AS, "        const_t = self.get_transform()\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))\n", "        total = N.dot(assembly_transform, self.get_transform())\n        for asm in self._assemblies:\n            asm.transform_children(total)\n        for obj in self._objects:\n            obj.transform_children(total)\n"))
r('as_add_common', (AS, "        if transform is None:\n            transform = N.eye(4)\n        self._objects.append(object)\n        object.set_transform(transform)\n        self.transform_children()\n", "        self._adopt(self._objects, object, transform)\n"), (AS, "        if transform is None:\n            transform = N.eye(4)\n        self._assemblies.append(assembly)\n        assembly.set_transform(transform)\n        self.transform_children()\n", "        self._adopt(self._assemblies, assembly, transform)\n"), (AS, "    def set_rotation(self, rotation):", "    def _adopt(self, family, child, transform):\n        child.set_transform(N.eye(4) if transform is None else transform)\n        family.append(child)\n        self.transform_children()\n\n    def set_rotation(self, rotation):"))
r('hf_views', (HF, "        self._transform = N.empty((4,4))\n        self._transform[3,:] = N.r_[0, 0, 0, 1]\n", "        self._transform = N.eye(4)\n"))
r('ob_children', (OB, "        const_t = self.get_transform()\n        for member in self.surfaces + self.boundaries:\n            member.transform_frame(N.dot(assembly_transform, const_t))\n", "        frame = N.dot(assembly_transform, self.get_transform())\n        for surf in self.surfaces: surf.transform_frame(frame)\n        for bound in self.boundaries: bound.transform_frame(frame)\n"))
r('su_g2l_rot', (SU, "        return N.dot(N.linalg.inv(self._temp_frame), \n            N.vstack((points, N.ones(points.shape[1]))))\n", "        to_local = N.linalg.inv(self._temp_frame)\n        homog = N.concatenate((points, N.ones((1, points.shape[1]))), axis=0)\n        return N.dot(to_local, homog)\n"))
r('su_mesh_dot', (SU, "        local = N.array((x, y, z, N.ones_like(x)))\n        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n        \n        return glob[:3]\n", "        local = N.vstack((x.flatten(), y.flatten(), z.flatten(), N.ones(x.size)))\n        glob = N.dot(self._temp_frame, local)\n        return glob[:3].reshape((3,) + x.shape)\n"))
r('tt_recursive', (TT, "        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index\n        \n        for pix in xrange(1, level + 1):\n            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n        \n        return parents\n", "        history = [ray_index]\n        for bund in self._bunds[level:0:-1]:\n            history.append(int(bund.get_parents()[history[-1]]))\n        return np.array(history)\n"))
# sources, rotations, models
r('so_pillbox_cos', (SO, "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n    sin_th = N.sin(theta)\n    a = N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , N.cos(theta)))\n    return a\n", "    sin_th = N.sin(ang_range)*N.sqrt(xi2)\n    cos_th = N.sqrt(1 - sin_th**2)\n    return N.array([N.cos(xi1)*sin_th, N.sin(xi1)*sin_th, cos_th])\n"))
r('so_square_lin', (SO, "    vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])\n", "    vertices_local = N.vstack((xs.ravel(), ys.ravel(), N.zeros(xs.size)))\n"))
r('sg_axis_rodrigues', (SG, "    s = sin(angle); c = cos(angle); v = 1 - c\n    add = N.array([[0,          -axis[2], axis[1]],  \n                            [axis[2],  0,          -axis[0]], \n                            [-axis[1], axis[0],  0        ] ])\n    return N.multiply.outer(axis,  axis)*v + N.eye(3)*c + add*s\n", "    x, y, z = axis\n    cross = N.array([[0., -z, y], [z, 0., -x], [-y, x, 0.]])\n    projection = N.outer(axis, axis)\n    return cos(angle)*(N.eye(3) - projection) + projection + sin(angle)*cross\n"))
r('sg_toz_loop', (SG, "    perp = N.hstack((vecs[:,1][:,None],  -vecs[:,0][:,None],\n        N.zeros((vecs.shape[0], 1)) ))\n    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp = N.zeros(vecs.shape)\n    perp[:,0] = vecs[:,1]\n    perp[:,1] = -vecs[:,0]\n    vertical = (vecs[:,0] == 0) & (vecs[:,1] == 0)\n    perp[vertical,0] = 1.\n"))
r('md_homog_loop', (MD % 'homogenizer', "    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)\n    wall_yn.set_transform(\n        N.dot(sp.translate(0, -aperture_ydim/2., height/2.), sp.rotx(-N.pi/2.)))\n", "    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)\n    place = sp.rotx(-N.pi/2.)\n    place[:3,3] = (0, -aperture_ydim/2., height/2.)\n    wall_yn.set_transform(place)\n"))
r('md_solar', (MD % 'heliostat_field', "    sun_z = N.cos(elevation)\n    sun_xy = N.r_[-N.sin(azimuth), -N.cos(azimuth)] # unit vector, can't combine with z\n    sun_vec = N.r_[sun_xy*N.sqrt(1 - sun_z**2), sun_z]\n    return sun_vec\n", "    sun_z = N.cos(elevation)\n    horizontal = N.sqrt(1 - sun_z**2)\n    return N.array([-N.sin(azimuth)*horizontal, -N.cos(azimuth)*horizontal, sun_z])\n"))
r('md_lens_helper', (MD % 'spherical_lens', "            z = N.sqrt(R2**2 - diameter**2/4.) # location of cut plane\n            if R2 > 0:\n                sect2 = BoundaryPlane(location=N.r_[0, 0, z])\n            else:\n                sect2 = BoundaryPlane(location=N.r_[0, 0, -z], rotation=flip_side)\n            sphere = CutSphereGM(radius=abs(R2), bounding_volume=sect2)\n\n            refr=Refractive(1., refr_idx)\n            self._back = Surface(geometry=sphere, optics=refr)\n", "            sect2 = self._cut_plane(R2, diameter)\n            self._back = Surface(CutSphereGM(abs(R2), sect2), Refractive(1., refr_idx))\n"),
  (MD % 'spherical_lens', "    def focal_length(self):", "    def _cut_plane(self, R, diameter):\n        z = N.sign(R)*N.sqrt(R**2 - (diameter/2.)**2)\n        rot = None if R > 0 else rotx(N.pi)[:3,:3]\n        return BoundaryPlane(location=N.r_[0, 0, z], rotation=rot)\n\n    def focal_length(self):"))
r('md_recv_kw', (MD % 'homogenized_local_receiver', "        if type(receiver_dims) is type(tuple()):\n            self._sides = receiver_dims\n        else:\n            self._sides = (receiver_dims, receiver_dims)\n", "        if not isinstance(receiver_dims, tuple):\n            receiver_dims = (receiver_dims,)*2\n        self._sides = receiver_dims\n"))
r('md_skip_bound', (MD % 'one_sided_mirror', "    obj = AssembledObject(surfs=[surf])\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return obj\n", "    return OneSided(surfs=[surf])\n"), (MD % 'one_sided_mirror', "def rect_one_sided_mirror(", "class OneSided(AssembledObject):\n    def surfaces_for_next_iteration(self, rays, surface_id):\n        return surfaces_for_next_iteration(self, rays, surface_id)\n\ndef rect_one_sided_mirror("))
r('md_tri_loop', (MD % 'triangulated_surface', "        face_list = [Surface(TriangularFace(edges_local[face_ix].T), optics,\n            location=pos[face_ix], rotation=rots[face_ix]) \\\n            for face_ix in xrange(xs.shape[0])]\n", "        face_list = []\n        for local, place, rot in zip(edges_local, pos, rots):\n            face = TriangularFace(local.transpose())\n            face_list.append(Surface(face, optics, place, rot))\n"))
