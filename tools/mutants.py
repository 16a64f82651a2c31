O = 'optics_callables.py'
M = []
def v(p, f, a, b): M.append((p, f, (a, b), 'V'))
def q(p, f, a, b): M.append((p, f, (a, b), 'Q'))
# --- C13
T = 'cos1**2 >= 1 - n**2'
for x in ('N.abs(cos1) >= N.sqrt(N.maximum(0, 1 - n**2))', 'N.arccos(N.abs(cos1)) <= N.arcsin(N.minimum(n,1))', '(1 - cos1**2)/n**2 <= 1',
          'N.sqrt(1 - cos1**2) <= n', '1 - 1./n**2*(1 - cos1**2) >= 0', '~((1-cos1**2) > n**2)', 'n**2 >= 1 - cos1**2'): q('C13,C14', 'optics.py', T, x)
for x in ('(1 - cos1**2) <= n', '1 - cos1**2 <= n**3', 'N.abs(cos1) >= 1-n'): v('C13,C14', 'optics.py', T, x)
v('C13', 'optics.py', T, 'cos1**2 > 1 - n**2')
v('C13', 'optics.py', 'n2/n1, ray_dirs[0]', 'n1/n2, ray_dirs[0]')
v('C13', 'optics.py', 'N.where(cos1 < 0, -1, 1)', '-1')
q('C13', 'optics.py', 'N.where(cos1 < 0, -1, 1)', 'N.sign(cos1)')
q('C13', 'optics.py', 'N.where(cos1 < 0, -1, 1)', '(1 - 2*(cos1 < 0))')
v('C13', 'optics.py', 'N.abs((normals*ray_dirs).sum(axis=0))', '-(normals*ray_dirs).sum(axis=0)')
v('C13', 'optics.py', 'refr_dirs = (ray_dirs', 'ray_dirs -= cos1*normals\n    refr_dirs = (ray_dirs')
# --- C14
v('C14', O, 'energy[proj > 0] = 0', 'energy[proj < 0] = 0')
q('C14', O, '*(1 - R[refr])', '*(1 - R)[refr]')
v('C14', O, 'energy=rays.get_energy()[selector]*R,', 'energy=rays.get_energy()[selector]*R.mean(),')
v('C14', O, 'direction=out_dirs, parents=selector[refr]', 'direction=out_dirs, parents=selector[:len(out_dirs[0])]')
v('C14', O, 'ref_index=n2[refr])', 'ref_index=n2[0]*N.ones(refr.sum()))')
v('C14', O, 'ref_index=n2[refr])', 'ref_index=n1[refr])')
v('C14', O, 'R = N.ones(len(selector))', 'R = N.zeros(len(selector))')
v('C14', O, 'directs.T[:,None,:], axis=2).T', 'directs.T[:,None,:], axis=1).T')
q('C14', O, 'energy=rays.get_energy()[selector]*R,', 'energy=R*rays.get_energy(selector),')
v('C14', O, 'return perfect_mirror(geometry, rays, selector)', 'return rays.inherit(selector)')
v('C14', O, 'energy = outg.get_energy()', 'energy = rays.get_energy()')
v('C14', O, 'self._ref_idxs[1], self._ref_idxs[0])', 'self._ref_idxs[0], self._ref_idxs[1])')
# --- C24
A = 'assembly.py'
q('C24', A, "return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "return sum([obj.get_surfaces() for obj in self.get_objects()], [])")
q('C24', A, "return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "return [s for obj in self.get_objects() for s in obj.get_surfaces()]")
q('C24', A, "return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "r = []\n        for obj in self.get_objects():\n            r.extend(obj.get_surfaces())\n        return r")
q('C24', A, "return reduce(operator.add, \n            [obj.get_surfaces() for obj in self.get_objects()], [])", "import itertools\n        return list(itertools.chain.from_iterable(o.get_surfaces() for o in self.get_objects()))")
q('C24', A, "[asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "[self._objects] + [asm.get_objects() for asm in self._assemblies], [])")
q('C24', A, "[asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "map(lambda a: a.get_objects(), self._assemblies) + [self._objects], [])")
v('C24', A, "[asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "[asm.get_local_objects() for asm in self._assemblies] + [self._objects], [])")
v('C24', A, "[obj.get_surfaces() for obj in self.get_objects()], [])", "[obj.get_surfaces() for obj in self._objects] + [a.get_surfaces() for a in self._assemblies], [])")
v('C24', A, "return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "objs = self._objects\n        for asm in self._assemblies:\n            objs += asm.get_objects()\n        return objs")
v('C24', A, "return reduce(operator.add, \n            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])", "if not hasattr(self, '_cache'):\n            self._cache = reduce(operator.add, [asm.get_objects() for asm in self._assemblies] + [self._objects], [])\n        return self._cache")
v('C24', A, "if objects is None:\n            objects = []\n        self._objects = objects", "self._objects = objects or []")if 0 else None
v('C24,C07', A, "def __init__(self, objects=None, subassemblies=None,", "def __init__(self, objects=[], subassemblies=None,")
# --- C07
v('C07', A, "obj.transform_children(N.dot(assembly_transform, const_t))", "obj.transform_children(N.dot(const_t, assembly_transform))")
v('C07', A, "for obj in self._assemblies + self._objects:", "for obj in self._objects:")
v('C07', A, "self._assemblies.append(assembly)\n        assembly.set_transform(transform)\n        self.transform_children()", "self._assemblies.append(assembly)\n        assembly.set_transform(transform)")
v('C07', A, "def set_location(self, location):", "def _set_location(self, location):")
v('C07', A, "const_t = self.get_transform()\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))", "assembly_transform[:] = N.dot(assembly_transform, self.get_transform())\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(assembly_transform)")
q('C07', A, "const_t = self.get_transform()\n        for obj in self._assemblies + self._objects:\n            obj.transform_children(N.dot(assembly_transform, const_t))", "full = N.dot(assembly_transform, self.get_transform())\n        for asm in self._assemblies:\n            asm.transform_children(full)\n        for obj in self._objects:\n            obj.transform_children(full)")
v('C07', 'object.py', "for member in self.surfaces + self.boundaries:", "for member in self.surfaces:")
v('C07', 'object.py', "member.transform_frame(N.dot(assembly_transform, const_t))", "member.transform_frame(assembly_transform)")
v('C07', 'has_frame.py', "self._temp_frame = N.dot(transform, self._transform)", "self._temp_frame = N.dot(transform, self._temp_frame)")
v('C07', 'has_frame.py', "self._temp_frame = N.dot(transform, self._transform)", "self._temp_frame = N.dot(self._transform, transform)")
v('C07', 'surface.py', "find_intersections(self._temp_frame, ray_bundle)", "find_intersections(self._transform, ray_bundle)")
v('C07', A, "if transform is None:\n            transform = N.eye(4)\n        self._objects.append(object)\n        object.set_transform(transform)", "self._objects.append(object)\n        if transform is not None:\n            object.set_transform(transform)")
v('C07', 'boundary_shape.py', "self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))", "self._temp_loc = N.dot(transform, N.append(self._temp_loc[:3], N.c_[[1]]))")
# --- C08
H = 'has_frame.py'
v('C08', H, "self._transform[:3,3] = location\n        self._loc = self._transform[:3,3]", "self._transform[:3,3] = location\n        self._loc = location")
v('C08', H, "self._transform = N.array(transform, dtype=float)", "self._transform = N.asarray(transform)")
v('C08', H, "self._transform = N.array(transform, dtype=float)\n        self._loc = self._transform[:3,3]\n        self._rot = self._transform[:3,:3]", "self._transform = N.array(transform, dtype=float)\n        self._loc = self._transform[:3,3]")
v('C08', H, "self._rot = self._transform[:3,:3]\n\n    def set_transform", "self._rot = rotation\n\n    def set_transform")
q('C08', H, "if location.shape != (3, ):", "if location.shape[0] != 3:")
v('C08', H, "if  rotation.shape != (3, 3):", "if rotation.ndim != 2:")
q('C08', H, "if location.shape != (3, ):", "if location.ndim != 1 or len(location) != 3:")
q('C08', H, "self._transform = N.array(transform, dtype=float)", "self._transform = transform.copy()")
q('C08', H, "self._loc = self._transform[:3,3]\n        self._rot = self._transform[:3,:3]", "self._rot = self._transform[:3,:3]\n        self._loc = self._transform[:3,3]")
q('C08', H, "self._transform = N.array(transform, dtype=float)\n        self._loc = self._transform[:3,3]\n        self._rot = self._transform[:3,:3]", "transform = N.array(transform, dtype=float)\n        self._transform = N.eye(4)\n        self.set_location(transform[:3,3])\n        self.set_rotation(transform[:3,:3])")
# --- engine C01-C05
E = 'tracer_engine.py'
v('C01,C12', E, "stack[stack <= 1e-6] = N.inf", "if not (stack > 1e-6).all():\n            stack[stack <= 1e-6] = N.inf\n        else:\n            stack[stack <= 1e-3] = N.inf")
v('C01,C12', E, "stack[stack <= 1e-6] = N.inf", "stack[stack <= 1e-6*stack[~N.isinf(stack)].max()] = N.inf")
v('C01', E, "stack[stack <= 1e-6] = N.inf", "stack[stack < 1e-9] = N.inf")
v('C01', E, "((stack == stack.min(axis=0)) & ~N.isinf(stack))", "(stack == stack.min(axis=0))")
v('C01', E, "((stack == stack.min(axis=0)) & ~N.isinf(stack))", "((stack == stack.min()) & ~N.isinf(stack))")
v('C01', E, "((stack == stack.min(axis=0)) & ~N.isinf(stack))", "(abs(stack - stack.min(axis=0)) < 1e-3) & ~N.isinf(stack)")
v('C01', E, "stack = N.zeros(ret_shape)", "stack = N.ones(ret_shape)*1e-5")
q('C01', E, "stack = N.zeros(ret_shape)", "stack = N.empty(ret_shape); stack.fill(N.inf)")
q('C01', E, "((stack == stack.min(axis=0)) & ~N.isinf(stack))", "N.logical_and(stack == stack.min(axis=0)[None,:], N.isfinite(stack))")
q('C01,C02,C03,C05', E, "if (~owned_rays[surf_num]).any():\n                in_rays = bundle.inherit(owned_rays[surf_num])\n            else:\n                in_rays = bundle", "in_rays = bundle.inherit(owned_rays[surf_num])")
q('C01,C02,C03,C05', E, "if (~owned_rays[surf_num]).any():\n                in_rays = bundle.inherit(owned_rays[surf_num])\n            else:\n                in_rays = bundle", "in_rays = bundle if owned_rays[surf_num].all() else bundle.inherit(N.nonzero(owned_rays[surf_num])[0])")
v('C02', E, "parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]", "parents = new_outg.get_parents()")
v('C02', E, "parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]", "parents = N.nonzero(front_surf[surf_idx])[0][new_outg.get_parents()]")
q('C02', E, "parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]", "parents = N.arange(bund.get_num_rays())[owned_rays[surf_idx]][new_outg.get_parents()]")
v('C02', E, "record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])", "record = record.inherit(N.nonzero(weak_ray_pos)[0]) + bund")
v('C02', E, "record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])", "record = bund + record.inherit(N.nonzero(~weak_ray_pos)[0])")
v('C02', E, "record = bund + record.inherit(N.nonzero(weak_ray_pos)[0])", "pass")
v('C02,C04', E, "if record.get_num_rays() != 0:", "if bund.get_num_rays() != 0:")
v('C04', E, "delete = new_outg.get_energy() <= min_energy", "delete = new_outg.get_energy() < min_energy")
v('C04', E, "return bund.get_vertices(), bund.get_directions()", "return record.get_vertices(), record.get_directions()")
v('C04', E, "for i in xrange(reps):", "for i in xrange(reps + 1):")
v('C03', E, "(ray_ownership == surf_ownership[surf_num])) & surf_relevancy[surf_num]", "(ray_ownership == surf_ownership[surf_num])) | surf_relevancy[surf_num]")
v('C03', E, "(ray_ownership == surf_ownership[surf_num]))", "(ray_ownership == surf_num))")
v('C03', E, "out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))", "out_ray_own.append(N.where(object_owns_outg.any(), obj_idx, -1)*N.ones(len(object_owns_outg)))")
v('C03', E, "surf_rel_idx = surf_idx - surfs_until_obj[obj_idx]", "surf_rel_idx = surf_idx - surfs_until_obj[obj_idx - 1]")
v('C03', E, "surf_relev[surf_ownership == obj_idx] = ", "surf_relev[:] = ")
v('C03', E, "surfs_relevancy = N.hstack(new_surfs_relevancy)", "surfs_relevancy = N.hstack(new_surfs_relevancy[::-1])")
v('C03', E, "new_outg = new_outg.delete_rays(N.nonzero(delete)[0])\n                surfaces[surf_idx].done()\n", "pass\n                surfaces[surf_idx].done()\n")
v('C05', E, "if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue", "if not any(inters): \n                    continue")
v('C05', E, "if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue", "if not any(inters): \n                    if owned_rays[surf_idx].any(): surfaces[surf_idx].done()\n                    continue")
q('C01,C02,C03,C04,C05', E, "if not any(inters): \n                    surfaces[surf_idx].done()\n                    continue", "if not inters.any():\n                    surfaces[surf_idx].done()\n                    continue")
q('C01,C02,C03,C04,C05', E, "for surf_idx in xrange(num_surfs):", "for surf_idx, surface in enumerate(surfaces):")
q('C02,C03,C04', E, "if delete.any():\n                    new_outg = new_outg.delete_rays(N.nonzero(delete)[0])", "new_outg = new_outg.inherit(N.nonzero(~delete)[0])")
q('C02,C03,C04', E, "delete = new_outg.get_energy() <= min_energy", "delete = ~(new_outg.get_energy() > min_energy)")
q('C03', E, "out_ray_own.append(N.where(object_owns_outg, obj_idx, -1))", "own = -1*N.ones(new_outg.get_num_rays())\n                own[object_owns_outg] = obj_idx\n                out_ray_own.append(own)")
# --- geometry C09-C12
F = 'flat_surface.py'; Q = 'quadric.py'; SP = 'sphere_surface.py'; CY = 'cylinder.py'; PB = 'paraboloid.py'
v('C09', F, "params[negative] = N.Inf", "params[negative] = 0")
v('C09', F, "vt = N.dot(frame[:3,2], v[:,unparallel])", "vt = N.dot(frame[:3,2], ray_bundle.get_vertices()[:,unparallel])")
v('C09', F, "unparallel = abs(dt) > 1e-10", "unparallel = dt < -1e-10")
q('C09,C10,C11,C12', F, "params = N.empty(n)\n        params.fill(N.inf)", "params = N.ones(n)*N.inf")
q('C09,C10,C11,C12', F, "negative = params < 0\n        params[negative] = N.Inf", "params = N.where(params < 0, N.inf, params)")
v('C11', F, "norms[:,self._backside] *= -1", "norms[:,self._backside] *= -2") 
v('C11,C12', F, "self._backside = N.nonzero(self._backside[idxs])[0]\n        \n        v = ", "self._backside = N.nonzero(self._backside)[0]\n        \n        v = ")
v('C11,C12', F, "self._backside = N.nonzero(self._backside[idxs])[0]\n        self._global = self._global[:,idxs].copy()", "self._backside = N.nonzero(self._backside)[0]\n        self._global = self._global[:,idxs].copy()")
q('C11,C12', F, "norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1", "sgn = N.ones(len(self._idxs))\n        sgn[self._backside] = -1\n        norms = self._working_frame[:3,2][:,None]*sgn")
v('C12,C09', Q, "almost_planar = A <= 1e-10", "almost_planar = A <= 1e-3*A.max()")
v('C12,C10', SP, "select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]", "select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]")
q('C12,C09', Q, "select[one_pos] = N.nonzero(is_positive.T[one_pos,:])[1]", "select[one_pos] = N.nonzero(is_positive[:,one_pos])[0]")
q('C12,C09,C10,C11', Q, "select[one_pos] = N.nonzero(is_positive.T[one_pos,:])[1]", "select[one_pos] = N.where(is_positive[0,one_pos], 0, 1)")
q('C12,C10', SP, "select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]", "select[one_hit] = N.where(bottom_hem[0], 0, 1)[one_hit]")
q('C12,C10', SP, "select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]", "select[one_hit] = N.argmax(bottom_hem, axis=0)[one_hit]")
q('C09,C10,C11,C12', Q, "if num_inters == 0:\n            self._vertices = vertices\n            return params", "pass")
v('C09', Q, "any_inters = delta >= 0", "any_inters = delta > 1e-2")
v('C09', Q, "(-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])", "(-B[really_quadric] + pm*delta[really_quadric])/2")
v('C09', Q, "is_positive = prm > 0", "is_positive = prm > 1e-2")
v('C10', CY, "inside = (abs(height) <= self._half_h)", "inside = (height <= self._half_h)")
v('C10', CY, "hitting = inside & positive", "hitting = inside")
q('C10', CY, "inside = (abs(height) <= self._half_h)", "inside = (height <= self._half_h) & (height >= -self._half_h)")
v('C10', SP, "bottom_hem = (local[:,2,:] <= 0) & (prm > 0)", "bottom_hem = (local[:,2,:] <= 0)")
v('C10', SP, "in_bd &= prm > 0", "pass")
v('C10', PB, "under_cut = (local_z <= self._h) & (prm > 0)", "under_cut = (local_z <= 2*self._h) & (prm > 0)")
v('C11', PB, "partial_y = 2*hit[1]*self.b", "partial_y = 2*hit[1]*self.a")
v('C11', PB, "down = N.sum(dir_loc * local_unit, axis=0) > 0", "down = dir_loc[2] > 0")
v('C11', CY, "local_norm /= N.sqrt(N.sum(hit[:2]**2, axis=0))", "local_norm /= self._R*2") 
q('C11', CY, "local_norm /= N.sqrt(N.sum(hit[:2]**2, axis=0))", "local_norm /= self._R")
v('C11', CY, "local_norm[:, N.sum(local_norm[:2] * dir_loc[:2], axis=0) > 0] *= -1", "local_norm[:, dir_loc[2] > 0] *= -1")
v('C11', Q, "self._working_bundle.get_directions()[:,idxs].T)", "self._working_bundle.get_directions()[:,:len(idxs)].T)")
# --- C15
HL = 'models/homogenized_local_receiver.py'
AB = 'self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)'
v('C15', O, AB, 'self._absorbed = [rays.get_energy()[selector]*self._opt._abs]')
v('C15', O, AB, 'self._absorbed.append(rays.get_energy()[selector])')
v('C15', O, AB, 'self._absorbed.append(rays.get_energy()[selector]*(1-self._opt._abs))')
v('C15', O, AB, 'self._absorbed.insert(0, rays.get_energy()[selector]*self._opt._abs)')
q('C15', O, AB, 'self._absorbed += [self._opt._abs*rays.get_energy(selector)]')
v('C15', O, 'if not any(len(a) for a in self._absorbed):', 'if not len(self._absorbed) or not len(self._absorbed[-1]):')
v('C15', O, 'if not any(len(a) for a in self._absorbed):', 'if not all(len(a) for a in self._absorbed):')
q('C15', O, 'if not any(len(a) for a in self._absorbed):', 'if sum(len(a) for a in self._absorbed) == 0:')
v('C15', O, 'for h in self._hits if h.shape[1]]', 'for h in self._hits[::-1] if h.shape[1]]')
v('C15', O, '        self._absorbed = []\n        self._hits = []', '        self._hits = []\n        self._absorbed = self._hits')
v('C15', O, '        self._absorbed = []\n        self._hits = []', '        del self._absorbed[:]\n        del self._hits[:]')
v('C15', O, 'self._absorbed = []\n        self._hits = []', 'self._absorbed = []\n        self._hits = [] if not hasattr(self, "_hits") else self._hits')
v('C15', O, 'return N.hstack([a for a in self._absorbed if len(a)]), \\', 'self._absorbed = [N.hstack([a for a in self._absorbed if len(a)])]\n        return self._absorbed[0], \\')
q('C15', O, 'return N.hstack([a for a in self._absorbed if len(a)]), \\', 'live = [a for a in self._absorbed if len(a) > 0]\n        return N.concatenate(live), \\')
q('C15', O, 'class AbsorptionAccountant(object):\n', 'class AbsorptionAccountant(object):\n    _absorbed = []\n    _hits = []\n')
v('C15', HL, 'weights=energy', 'weights=None')
v('C15', HL, '[-rngx,rngx], [-rngy,rngy]', '[-rngy,rngy], [-rngx,rngx]')
v('C15', HL, 'rngx = self._sides[0]/2.', 'rngx = self._sides[0]')
v('C15', HL, 'x, y = self._rec.global_to_local(pts)[:2]', 'x, y = pts[:2]')
v('C15', HL, 'x, y = self._rec.global_to_local(pts)[:2]', 'x, y = self._mr.global_to_local(pts)[:2]')
q('C15', HL, 'x, y = self._rec.global_to_local(pts)[:2]', 'loc = self._rec.global_to_local(pts)\n        x, y = loc[0], loc[1]')
# --- C06
FS = 'flat_surface.py'; QD = 'quadric.py'; SS = 'sphere_surface.py'
v('C06', FS, "        if hasattr(self, '_idxs'):\n            del self._idxs", "        del self._idxs")
v('C06', FS, "        if hasattr(self, '_global'):\n            del self._global", "        del self._global")
q('C06', FS, "        if hasattr(self, '_idxs'):\n            del self._idxs", "        self.__dict__.pop('_idxs', None)")
q('C06', FS, "        if hasattr(self, '_idxs'):\n            del self._idxs", "        pass")
v('C06', QD, "            del self._norm\n            del self._idxs", "            del self._idxs\n        del self._norm")
v('C06', QD, "        if hasattr(self, '_idxs'):", "        if hasattr(self, '_working_frame'):")
v('C06', FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),", "        if not hasattr(self, '_inv'):\n            self._inv = N.linalg.inv(self._working_frame)\n        self._local = N.dot(self._inv,")
q('C06', FS, "        self._local = N.dot(N.linalg.inv(self._working_frame),", "        self._inv = N.linalg.inv(self._working_frame)\n        self._local = N.dot(self._inv,")
v('C06', SS, "        if self._bound is not None:\n", "        if self._bound is not None and not hasattr(self, '_placed'):\n            self._placed = True\n")
v('C06', 'tracer_engine.py', ["        self._asm = parent_assembly\n", "        self.tree = RayTree()\n        bund"], None) if 0 else None
M.append(('C06', 'tracer_engine.py', [("        self._asm = parent_assembly\n", "        self._asm = parent_assembly\n        self.tree = RayTree()\n"), ("        self.tree = RayTree()\n        bund", "        bund")], 'V'))
M.append(('C06', 'tracer_engine.py', [("        self._asm = parent_assembly\n", "        self._asm = parent_assembly\n        self.tree = RayTree()\n")], 'Q'))
v('C06', FS, "        GeometryManager.find_intersections(self, frame, ray_bundle)\n", "        if not hasattr(self, '_working_frame'): GeometryManager.find_intersections(self, frame, ray_bundle)\n        else: self._working_bundle = ray_bundle\n") if 0 else None
M.append(('C06', 'triangular_face.py', [("        self._verts = verts\n", "        self._verts = verts\n        if not hasattr(self, '_nsq'): self._nsq = np.sum(verts**2, axis=0)\n"), ("        norms_sq = np.sum(self._verts**2, axis=0)", "        norms_sq = self._nsq")], 'V'))
M.append(('C06', 'triangular_face.py', [("        self._verts = verts\n", "        self._verts = verts\n        self._nsq = np.sum(verts**2, axis=0)\n"), ("        norms_sq = np.sum(self._verts**2, axis=0)", "        norms_sq = self._nsq")], 'Q'))
M.append(('C06', FS, [("        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms", "        if not hasattr(self, '_nrm'):\n            self._nrm = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n            self._nrm[:,self._backside] *= -1\n        return self._nrm")], 'V'))
M.append(('C06', FS, [("        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms", "        if not hasattr(self, '_nrm'):\n            self._nrm = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n            self._nrm[:,self._backside] *= -1\n        return self._nrm"), ("        GeometryManager.done(self)\n", "        GeometryManager.done(self)\n        if hasattr(self, '_nrm'): del self._nrm\n")], 'Q'))
v('C06', FS, "        norms[:,self._backside] *= -1\n        return norms", "        norms[:,self._backside] *= -1\n        self._backside = []\n        return norms")
v('C06', 'surface.py', "        if hasattr(self, '_current_bundle'):\n            del self._current_bundle", "        del self._current_bundle")
v('C06', SS, "        self._rad = rad\n", "        self._rad = rad\n        if not hasattr(self, '_r2'): self._r2 = rad**2\n") if 0 else None
M.append(('C06', SS, [("        self._rad = rad\n", "        self._rad = rad\n        if not hasattr(self, '_r2'): self._r2 = rad**2\n"), ("- self.get_radius()**2", "- self._r2")], 'V'))
# --- C19
SG = 'spatial_geometry.py'
v('C19', SG, "v = 1 - c", "v = 1 + c")
v('C19', SG, "[0,          -axis[2], axis[1]]", "[0,          axis[2], -axis[1]]")
v('C19', SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp[N.any(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n")
v('C19', SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    if N.all(perp == 0): perp[:] = N.r_[1.,  0.,  0.]\n")
v('C19', SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "")
v('C19', SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    perp[perp[:,0] == 0] = N.r_[1.,  0.,  0.]\n")
q('C19', SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    vert = (vecs[:,0] == 0) & (vecs[:,1] == 0)\n    perp[vert,0] = 1.\n")
v('C19', SG, "    perp[N.all(perp == 0, axis=1)] = N.r_[1.,  0.,  0.]\n", "    vert = (vecs[:,0] == 0) & (vecs[:,1] == 0)\n    perp[vert,1] = 1.\n")
v('C19', SG, "N.cross(vecs, perp)[...,None],", "N.cross(perp, vecs)[...,None],")
v('C19', SG, "perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]", "perp /= N.sqrt(N.sum(perp**2))")
v('C19', SG, "perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]", "perp /= N.sqrt(N.sum(perp**2, axis=1)).max()")
q('C19', SG, "perp /= N.sqrt(N.sum(perp**2, axis=1))[:,None]", "perp = (perp.T/N.hypot(perp[:,0], perp[:,1])).T")
v('C19', SG, "vecs[...,None]), axis=2)", "vecs[...,None]), axis=1)")
v('C19', SG, "    vecs = N.atleast_2d(vecs)\n", "    vecs = N.atleast_2d(vecs)\n    vecs /= N.sqrt(N.sum(vecs**2))\n")
v('C19', SG, "        [c, 0, s, 0],\n        [0, 1, 0, 0],\n        [-s,0, c, 0],", "        [c, 0, -s, 0],\n        [0, 1, 0, 0],\n        [s,0, c, 0],")
v('C19', SG, "    return N.squeeze(perp_rot)", "    return perp_rot[0] if len(perp_rot) < 3 else perp_rot")
q('C19', SG, "    return N.squeeze(perp_rot)", "    return perp_rot[0] if len(perp_rot) == 1 else perp_rot")
v('C19', SG, "N.hstack((rot, translation))", "N.hstack((rot, N.dot(rot, translation)))")
q('C19', SG, "    return N.multiply.outer(axis,  axis)*v + N.eye(3)*c + add*s", "    return N.eye(3) + s*add + v*N.dot(add, add)")
v('C19', SG, "    return N.multiply.outer(axis,  axis)*v", "    return N.multiply.outer(axis,  axis)*axis.dtype.type(v)")  if 0 else None
# --- C18
SO = 'sources.py'
v('C18', SO, "theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))", "theta = N.arcsin(N.sin(ang_range)*xi2)")
v('C18', SO, "theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))", "theta = ang_range*N.sqrt(xi2)")
v('C18', SO, "theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))", "theta = N.arcsin(N.sqrt(N.sin(ang_range)*xi2))")
q('C18', SO, "theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))", "theta = N.arcsin(N.sqrt(N.sin(ang_range)**2*xi2))")
q('C18', SO, "xi2 = random.uniform(size=num_rays)", "xi2 = random.rand(num_rays)")
q('C18', SO, "xi1 = random.uniform(high=2*N.pi, size=num_rays)", "xi1 = 2*N.pi*random.uniform(size=num_rays)")
q('C18', SO, "xi1 = random.uniform(high=2*N.pi, size=num_rays)", "xi1 = random.uniform(-N.pi, N.pi, num_rays)")
v('C18', SO, "xi1 = random.uniform(high=2*N.pi, size=num_rays)", "xi1 = random.uniform(high=N.pi, size=num_rays)")
v('C18', SO, "thetas = random.uniform(high=2*N.pi, size=num_rays)", "thetas = 2*N.pi*xi1")
v('C18', SO, "rs = radius*N.sqrt(xi1)", "rs = radius*xi1")
v('C18', SO, "rs = radius*N.sqrt(xi1)", "rs = 2*radius*N.sqrt(xi1)")
v('C18', SO, "rs = radius*N.sqrt(xi1)", "rs = N.sqrt(radius*xi1)")
v('C18', SO, "xs = rs * N.cos(thetas)", "xs = rs * N.sin(thetas)")
v('C18', SO, "ys = rs * N.sin(thetas)", "ys = rs * N.sin(2*thetas)")
v('C18', SO, "N.pi*radius**2/num_rays*flux*N.ones(num_rays)", "N.pi*radius/num_rays*flux*N.ones(num_rays)")
v('C18', SO, "N.pi*radius**2/num_rays*flux*N.ones(num_rays)", "N.pi*radius**2*flux*N.ones(num_rays)")
q('C18', SO, "N.pi*radius**2/num_rays*flux*N.ones(num_rays)", "N.ones(num_rays)*(flux*(N.pi*radius**2)/num_rays)")
v('C18', SO, "vertices=vertices_global + center", "vertices=vertices_global")
v('C18', SO, "vertices_global = N.dot(perp_rot,  vertices_local)", "vertices_global = N.dot(perp_rot.T,  vertices_local)")
v('C18', SO, "directions = N.sum(perp_rot[...,None] * a[None,...], axis=1)", "directions = N.sum(perp_rot[...,None] * a[:,None], axis=0)")
q('C18', SO, "directions = N.sum(perp_rot[...,None] * a[None,...], axis=1)", "directions = N.dot(perp_rot, a)")
v('C18', SO, "N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , N.cos(theta)))", "N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , -N.cos(theta)))")
v('C18', SO, "N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , N.cos(theta)))", "N.vstack((N.cos(xi1)*sin_th, N.sin(xi1)*sin_th , N.ones(num_rays)))")
v('C18', SO, "(1, vertices_global.shape[1])", "(1, num_rays)")
v('C18', SO, "direction[:,None], (1", "rot[:,1,None], (1")
v('C18', SO, "rayb.set_vertices(vertices_global + center)", "rayb.set_vertices(vertices_local + center)")
v('C18', SO, "range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]", "range = N.s_[-width:width:float(width)/N.sqrt(num_rays)]")
v('C18', SO, "range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]", "range = N.s_[0:2*width:float(2*width)/N.sqrt(num_rays)]")
v('C18', SO, "xs.flatten(),  ys.flatten(),  N.zeros", "xs.flatten(),  xs.flatten(),  N.zeros")
v('C18', SO, "xs.flatten(),  ys.flatten(),  N.zeros", "xs.flatten(),  xs.T.flatten()*2,  N.zeros")
v('C18', SO, "    vertices_global = N.dot(rot,  vertices_local)\n\n    rayb = RayBundle()\n    rayb.set_vertices(vertices_global + center)", "    vertices_global = N.dot(rot,  vertices_local)\n    center += vertices_global.mean(axis=1)[:,None]\n    rayb = RayBundle()\n    rayb.set_vertices(vertices_global + center)")
q('C18', SO, "    xs, ys = N.mgrid[range, range]\n", "    g = N.arange(range.start, range.stop, range.step)\n    xs, ys = N.meshgrid(g, g)\n") 
q('C18', SO, "N.zeros(len(xs.flatten()))", "N.zeros(xs.size)")
q('C18', SO, "    rs = radius*N.sqrt(xi1)\n    xs = rs * N.cos(thetas)\n    ys = rs * N.sin(thetas)\n", "    xs, ys = radius*N.sqrt(xi1)*N.vstack((N.cos(thetas), N.sin(thetas)))\n")
# --- C21
HF = 'models/heliostat_field.py'
v('C21', HF, "tower_vec = -self._pos \n", "tower_vec = self._pos\n        tower_vec *= -1\n")
q('C21', HF, "tower_vec = -self._pos \n        tower_vec[:,2] += self._th\n", "tower_vec = N.r_[0., 0., self._th] - self._pos\n")
v('C21', HF, "tower_vec[:,2] += self._th", "tower_vec[:,2] -= self._th")
v('C21', HF, "        tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])\n", "")
v('C21', HF, "        tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])\n", "        tower_vec /= N.sqrt(N.sum(tower_vec**2))\n")
v('C21', HF, "        hstat /= N.sqrt(N.sum(hstat**2, axis=1)[:,None])\n", "        hstat /= N.sqrt(N.sum(hstat[0]**2))\n")
v('C21', HF, "hstat = sun_vec + tower_vec", "hstat = sun_vec - tower_vec")
v('C21', HF, "N.arctan2(hstat[:,1], hstat[:,0])", "N.arctan(hstat[:,1]/hstat[:,0])")
v('C21', HF, "N.arctan2(hstat[:,1], hstat[:,0])", "N.arctan2(hstat[:,0], hstat[:,1])")
v('C21', HF, "N.dot(az_rot, elev_rot)", "N.dot(elev_rot, az_rot)")
v('C21', HF, "            trans[:3,3] = self._pos[hidx]\n", "")
v('C21', HF, "            trans[:3,3] = self._pos[hidx]\n", "            trans[:2,3] = self._pos[hidx,:2]\n")
v('C21', HF, "self._heliostats[hidx].set_transform(trans)", "self._heliostats[hidx].set_transform(N.dot(trans, rotz(hidx)*0 + rotx(hidx)))")
v('C21', HF, "self._heliostats[hidx].set_transform(trans)", "self._heliostats[-hidx].set_transform(trans)")
v('C21', HF, "        self._th = h\n", "        self._th += h\n")
v('C21', HF, "trans = face_down.copy()\n", "trans = face_down\n") if 0 else None
q('C21', HF, "trans = face_down.copy()\n", "trans = face_down\n")
v('C21', HF, "face_down = rotx(N.pi)", "face_down = roty(N.pi/2)")
v('C21', HF, "sun_z = N.cos(elevation)", "sun_z = N.sin(elevation)")
v('C21', HF, "N.r_[-N.sin(azimuth), -N.cos(azimuth)]", "N.r_[-N.cos(azimuth), -N.sin(azimuth)]")
q('C21', HF, "sun_vec = N.r_[sun_xy*N.sqrt(1 - sun_z**2), sun_z]", "sun_vec = N.r_[sun_xy*N.sin(elevation), sun_z]")
v('C21', HF, "sun_vec = N.r_[sun_xy*N.sqrt(1 - sun_z**2), sun_z]", "sun_vec = N.r_[sun_xy*(1 - sun_z), sun_z]")
v('C21', HF, "angs = N.r_[start_ang:end_ang:az_space/2]", "angs = N.r_[start_ang:end_ang:az_space]")
v('C21', HF, "xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).flatten()", "xs2 = N.outer(rs[1::2], N.cos(angs[::2])).flatten()")
v('C21', HF, "xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).flatten()", "xs2 = N.outer(rs[1::2], N.cos(angs[1::2])).T.flatten()")
v('C21', HF, "    return N.vstack((xs, ys)).T", "    return N.vstack((ys, xs)).T")
v('C21', HF, "    xs = N.r_[xs1, xs2]\n", "    xs = N.r_[xs2, xs1]\n")
q('C21', HF, "    xs = N.r_[xs1, xs2]\n    ys = N.r_[ys1, ys2]\n", "    xs = N.hstack((xs2, xs1))\n    ys = N.hstack((ys2, ys1))\n")
v('C21', HF, "for hidx in xrange(self._pos.shape[0])", "for hidx in xrange(self._pos.shape[0] - 1)")
q('C21', HF, "        for hidx in xrange(self._pos.shape[0]):\n            az_rot = rotz(hstat_az[hidx])\n            elev_rot = roty(hstat_elev[hidx])\n", "        for hidx, (az, el) in enumerate(zip(hstat_az, hstat_elev)):\n            az_rot = rotz(az)\n            elev_rot = roty(el)\n")
# --- C22
HO, SL, TS, MR, LR, TM = 'models/homogenizer.py', 'models/spherical_lens.py', 'models/triangulated_surface.py', 'models/one_sided_mirror.py', 'models/homogenized_local_receiver.py', 'models/tau_minidish.py'
v('C22', HO, "sp.roty(-N.pi/2.)", "sp.roty(N.pi/2.)")
v('C22', HO, "sp.translate(aperture_xdim/2., 0, height/2.)", "sp.translate(aperture_xdim/2., 0, 0)")
v('C22', HO, "sp.translate(-aperture_xdim/2., 0, height/2.)", "sp.translate(-aperture_ydim/2., 0, height/2.)")
v('C22', HO, "wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)", "wall_yn = rect_one_sided_mirror(aperture_ydim, height, abs)")
v('C22', HO, "wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)", "wall_yn = rect_one_sided_mirror(aperture_xdim, height, opt_eff)")
v('C22', HO, "objects=[wall_xp, wall_xn, wall_yp, wall_yn]", "objects=[wall_xp, wall_xn, wall_yp, wall_yp]")
q('C22', HO, "objects=[wall_xp, wall_xn, wall_yp, wall_yn]", "objects=[wall_yp, wall_xn, wall_xp, wall_yn]")
q('C22', HO, "    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)\n    wall_yn.set_transform(\n        N.dot(sp.translate(0, -aperture_ydim/2., height/2.), sp.rotx(-N.pi/2.)))", "    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)\n    fr = sp.rotx(-N.pi/2.)\n    fr[1,3] = -0.5*aperture_ydim\n    fr[2,3] = 0.5*height\n    wall_yn.set_transform(fr)")
v('C22', MR, "opt.AbsorberReflector(absorptivity)", "opt.AbsorberReflector(1 - absorptivity)")
v('C22', MR, "opt.AbsorberReflector(absorptivity)", "opt.Reflective(absorptivity)")
v('C22', MR, "N.zeros((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)", "N.ones((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)")
v('C22', MR, "N.zeros((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)", "N.arange(len(self.surfaces))[:,None] != N.tile(surface_id, (1, rays.get_num_rays()))")
q('C22', MR, "N.zeros((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)", "N.tile(False, (len(self.surfaces), rays.get_num_rays()))")
v('C22', MR, "    back = Surface(RectPlateGM(width, height), opt.Reflective(1.),", "    back = Surface(RectPlateGM(width, height), opt.Reflective(absorptivity),")
v('C22', MR, "    back = Surface(RectPlateGM(width, height), opt.Reflective(1.),", "    back = Surface(RectPlateGM(height, width), opt.Reflective(1.),")
v('C22', MR, "location=r_[0., 0., -1e-10]", "location=r_[0., 0., 1e-10]")
q('C22', MR, "location=r_[0., 0., -1e-10]", "location=r_[0., 0., -1e-9]")
v('C22', MR, "opt.ReflectiveReceiver(absorptivity)", "opt.ReflectiveReceiver()")
v('C22', LR, "self._sides = (receiver_dims, receiver_dims)", "self._sides = (receiver_dims, receiver_dims/2.)")
v('C22', LR, "sp.translate(0, 0, receiver_pos), sp.rotx(N.pi)", "sp.rotx(N.pi), sp.translate(0, 0, receiver_pos)")
v('C22', LR, "receiver_frame = N.dot(sp.translate(0, 0, receiver_pos), sp.rotx(N.pi))", "receiver_frame = sp.translate(0, 0, receiver_pos)")
q('C22', LR, "sp.rotx(N.pi))", "sp.roty(N.pi))")
v('C22', LR, "self._hom.set_transform(receiver_frame)", "self._hom.set_transform(sp.translate(0, 0, receiver_pos))")
v('C22', LR, "rect_homogenizer(self._sides[0], self._sides[1]", "rect_homogenizer(self._sides[1], self._sides[0]")
v('C22', LR, "objects=[rec_obj, refl]", "objects=[rec_obj]")
v('C22', TM, "opt.Reflective(1 - dish_opt_eff)", "opt.Reflective(dish_opt_eff)")
v('C22', TM, "W = diameter/2. * sqrt(pi/concentration)", "W = diameter/2. * sqrt(pi*concentration)")
v('C22', TM, "f + H, W, H, homog_opt_eff", "f + H, H, W, homog_opt_eff")
v('C22', TM, "f + H, W, H, homog_opt_eff", "f, W, H, homog_opt_eff")
v('C22', 'models/PETAL_dish.py', "HexagonalParabolicDishGM(diameter, focal_length)", "HexagonalParabolicDishGM(diameter/2., focal_length)")
v('C22', SL, "opt_power = (refr_idx - 1)*(1./R1 - 1./R2", "opt_power = (refr_idx - 1)*(1./R1 + 1./R2")
v('C22', SL, "depth*(refr_idx - 1)/R1/R2/refr_idx)", "depth/R1/R2/refr_idx)")
v('C22', SL, "            z = N.sqrt(R2**2 - diameter**2/4.) # location of cut plane", "            z = N.sqrt(R2**2 - diameter**2/2.) # location of cut plane")
v('C22', SL, "                sect2 = BoundaryPlane(location=N.r_[0, 0, -z], rotation=flip_side)", "                sect2 = BoundaryPlane(location=N.r_[0, 0, -z])")
v('C22', SL, "sphere = CutSphereGM(radius=abs(R2), bounding_volume=sect2)", "sphere = CutSphereGM(radius=abs(R1), bounding_volume=sect2)")
v('C22', SL, "locf = pd + depth - R1", "locf = pd + depth + R1")
v('C22', SL, "locf = pd + depth - R1", "locf = depth - R1")
v('C22', SL, "locb = pd - R2", "locb = 2*pd - R2")
v('C22', SL, "            cyl_loc += (locf + sect1.get_location()[2])/2.\n            cyl_height += locf + sect1.get_location()[2]", "            cyl_loc += (locf + sect1.get_location()[2])/2.\n            cyl_height += locf - sect1.get_location()[2]")
v('C22', SL, "            cyl_loc += locf/2.\n            cyl_height += locf", "            cyl_loc += locf\n            cyl_height += locf")
v('C22', SL, "if cyl_height > 0:", "if cyl_height > depth/2.:")
v('C22', SL, "if cyl_height > 0:", "if abs(cyl_height) > 0:")
v('C22', SL, "Refractive(refr_idx, 1.), location", "Refractive(refr_idx, refr_idx), location")
q('C22', SL, "Refractive(refr_idx, 1.), location", "Refractive(1., refr_idx), location")
v('C22', SL, "RoundPlateGM(diameter/2.),\n                Refractive(1., refr_idx),\n                rotation=flip_side)", "RoundPlateGM(diameter),\n                Refractive(1., refr_idx),\n                rotation=flip_side)")
v('C22', SL, "surfs=surfs, transform=transform)", "surfs=surfs)")
q('C22', SL, "            self._back.set_location(N.r_[0., 0., locb])\n", "            self._back.set_transform(N.vstack((N.hstack((N.eye(3), N.array([[0.], [0.], [locb]]))), [[0, 0, 0, 1]])))\n")
v('C22', TS, "        edge_norms = edge_norms[non_degenerate]\n", "")
v('C22', TS, "        pos = pos[non_collinear]\n", "")
v('C22', TS, "        edges = edges[non_collinear]\n", "")
q('C22', TS, "non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)", "non_degenerate = np.any(abs(edge_norms) > 1e-8, axis=1)")
q('C22', TS, "ys = np.cross(zs, xs)", "ys = np.cross(xs, zs)")
v('C22', TS, "rots.transpose(0,2,1)[:,None,...]", "rots[:,None,...]")
v('C22', TS, "location=pos[face_ix]", "location=pos[0]")
q('C22', TS, "edge_norms = np.sqrt(np.sum(edges**2, axis=2))", "edge_norms = np.sqrt((edges*edges).sum(axis=-1))")
v('C22', TS, "        pos = vertices[faces[:,0]]\n", "        pos = vertices[faces[:,0]]\n        vertices -= vertices[0]\n")
v('C22', TS, "AssembledObject.__init__(self, face_list, None, transform)", "AssembledObject.__init__(self, face_list, None)")
# C20
FS, PB, SP, CY, TF, SU = 'flat_surface.py', 'paraboloid.py', 'sphere_surface.py', 'cylinder.py', 'triangular_face.py', 'surface.py'
for f, o, w, k in [
 (FS, "xs = N.linspace(-self._half_dims[0,0], self._half_dims[0,0], points[0])", "xs = N.linspace(0, self._half_dims[0,0], points[0])", 'V'),
 (FS, "ys = N.linspace(-self._half_dims[1,0], self._half_dims[1,0], points[1])", "ys = N.linspace(-self._half_dims[0,0], self._half_dims[0,0], points[1])", 'V'),
 (FS, "points[points < 2] = 2", "points[points < 1] = 1", 'V'),
 (FS, "x, y = N.broadcast_arrays(xs[:,None], ys)", "x, y = N.broadcast_arrays(xs, ys[:,None])", 'Q'),
 (FS, "x, y = N.broadcast_arrays(xs[:,None], ys)", "y, x = N.meshgrid(ys, xs)", 'Q'),
 (FS, "x, y = N.broadcast_arrays(xs[:,None], ys)\n        z = N.zeros_like(x)", "x, y = N.meshgrid(xs, ys, indexing='ij')\n        z = N.zeros(x.shape)", 'Q'),
 (FS, "r_end = self._R + 0.01/resolution", "r_end = self._R + 1./resolution", 'V'),
 (FS, "r_end = self._R + 0.01/resolution", "r_end = 2*self._R", 'V'),
 (FS, "r_end = self._R + 0.01/resolution\n        rs = N.r_[0:r_end:1./resolution]", "rs = N.arange(0, self._R + 0.01/resolution, 1./resolution)", 'Q'),
 (FS, "ang_end = 2*N.pi + 1", "ang_end = N.pi + 1", 'V'),
 (FS, "angs = N.r_[0:ang_end:1./(self._R*resolution)]", "angs = N.r_[0:2*N.pi:1./(self._R*resolution)]", 'V'),
 (FS, "angs = N.r_[0:ang_end:1./(self._R*resolution)]", "angs = N.r_[0:ang_end:1./resolution]", 'V'),
 (FS, "x = N.outer(rs, N.cos(angs))\n        y = N.outer(rs, N.sin(angs))\n        z = N.zeros_like(x)", "x = rs[:,None]*N.cos(angs)\n        y = rs[:,None]*N.sin(angs)\n        z = N.zeros_like(x)", 'Q'),
 (FS, "x = N.outer(rs, N.cos(angs))\n        y = N.outer(rs, N.sin(angs))\n        z = N.zeros_like(x)", "x = N.outer(rs, N.cos(angs))\n        y = N.outer(rs, N.cos(angs))\n        z = N.zeros_like(x)", 'V'),
 (PB, "z = self.a*x**2 + self.b*y**2", "z = self.a*(x**2 + y**2)", 'Q'),
 (PB, "z = self.a*x**2 + self.b*y**2", "z = self.a*x**2 - self.b*y**2", 'V'),
 (PB, "r_end = self._R + 1./100./resolution", "r_end = self._R*2 + 1./100./resolution", 'V'),
 (PB, "r_end = self._R + 1./100./resolution", "r_end = self._R - 1./100./resolution", 'V'),
 (PB, "ang_end = 2*N.pi + 1./(self._R*resolution)", "ang_end = 2*N.pi - 1./(self._R*resolution)", 'V'),
 (PB, "z = self.a*x**2 + self.b*y**2\n        \n        return", "z = N.tile((self.a*rs**2)[:,None], (1, len(angs)))\n        return", 'Q'),
 (SP, "0:rng:1./(self._rad*resolution),", "0:rng/2:1./(self._rad*resolution),", 'V'),
 (SP, "N.pi/2:rng:1./(self._rad*resolution),", "0:rng:1./(self._rad*resolution),", 'V'),
 (SP, "N.pi/2:rng:1./(self._rad*resolution),", "N.pi/4:rng:1./(self._rad*resolution),", 'V'),
 (CY, "h = N.r_[-self._half_h:self._half_h+.5/resolution:1./resolution]", "h = N.r_[-self._half_h:self._half_h+1./resolution:1./resolution]", 'V'),
 (CY, "h = N.r_[-self._half_h:self._half_h+.5/resolution:1./resolution]", "h = N.r_[-self._half_h:self._half_h:1./resolution]", 'Q'),
 (CY, "z = N.tile(h[:,None], (1, len(angs)))", "z = N.repeat(h[:,None], len(angs), axis=1)", 'Q'),
 (CY, "ang_end = 2*N.pi + 1./(self._R*resolution)", "ang_end = 2*N.pi + 1./(self._R*resolution) - N.pi", 'V'),
 (CY, "x = N.tile(self._R*N.cos(angs), (len(h), 1))", "x = N.tile(2*self._R*N.cos(angs), (len(h), 1))", 'V'),
 (TF, "alpha*self._verts[:,0,None,None]*beta", "self._verts[:,0,None,None]*beta", 'V'),
 (TF, "alpha*self._verts[:,1,None,None]*(1 - beta)", "alpha*self._verts[:,1,None,None]*(1 - alpha)", 'V'),
 (TF, "np.linspace(0, 1, resolution), # parameter along", "np.linspace(-1, 1, resolution), # parameter along", 'V'),
 (SU, "glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))", "glob = N.tensordot(self._transform, local, axes=([1], [0]))", 'V'),
 (SU, "glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))", "glob = N.tensordot(self._temp_frame, local, axes=([0], [0]))", 'V'),
 (SU, "glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))", "glob = N.einsum('ij,jkl->ikl', self._temp_frame, local)", 'Q'),
 (SU, "local = N.array((x, y, z, N.ones_like(x)))\n        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))", "local = N.array((x, y, z))\n        glob = N.tensordot(self._temp_frame[:3,:3], local, axes=([1], [0])) + self._temp_frame[:3,3,None,None]", 'Q'),
 (SU, "local = N.array((x, y, z, N.ones_like(x)))", "local = N.array((x, y, z, N.zeros_like(x)))", 'V'),
]: M.append(('C20', f, [(o, w)], k))
# C23
SV = 'mayavi_ui/scene_view.py'
for o, w, k in [
 ("accum_points[level] + parents[shown][:,None]", "accum_points[level] + parents[:,None][shown]", 'Q'),
 ("accum_points[level] + parents[shown][:,None]", "accum_points[level] + shown[:,None]", 'V'),
 ("accum_points[level + 1] + shown[:,None]", "accum_points[level + 1] + parents[shown][:,None]", 'V'),
 ("accum_points[level + 1] + shown[:,None]", "accum_points[level + 1] + N.arange(len(shown))[:,None]", 'V'),
 ("non_degenerate = se != 0", "non_degenerate = se > 0", 'Q'),
 ("non_degenerate = se != 0", "non_degenerate = N.ones(len(se), dtype=bool)", 'V'),
 ("non_degenerate &= ray_selector(start_rays)", "non_degenerate = ray_selector(start_rays)", 'V'),
 ("non_degenerate &= ray_selector(start_rays)", "non_degenerate |= ray_selector(start_rays)", 'V'),
 ("non_degenerate &= ray_selector(start_rays)", "non_degenerate = N.logical_and(ray_selector(start_rays), non_degenerate)", 'Q'),
 ("if ray_selector is not None:", "if ray_selector is not None and level == 0:", 'V'),
 ("escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len", "escaping_endpoints = (sv + sd*escaping_len)[:,escaping]", 'Q'),
 ("escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len", "escaping_endpoints = sv[:,escaping] - sd[:,escaping]*escaping_len", 'V'),
 ("escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len", "escaping_endpoints = sv[:,escaping] + sd[:,escaping]", 'V'),
 ("N.nonzero(non_degenerate)[0][escaping]))", "N.nonzero(escaping)[0]))", 'V'),
 ("shown = N.nonzero(non_degenerate[parents])[0]", "shown = N.arange(len(parents))", 'V'),
 ("shown = N.nonzero(non_degenerate[parents])[0]", "shown = N.flatnonzero(non_degenerate[parents])", 'Q'),
 ("shown = N.nonzero(non_degenerate[parents])[0]", "shown = N.where(N.take(non_degenerate, parents))[0]", 'Q'),
 ("parents = N.nonzero(non_degenerate)[0]\n", "parents = N.arange(sv.shape[1])\n", 'V'),
 ("accum_points = [0, tree[0].get_num_rays()]", "accum_points = [0, tree[0].get_num_rays() - 1]", 'V'),
 ("accum_points.append(accum_points[-1] + ev.shape[1])", "accum_points.append(accum_points[-1] + end_rays.get_num_rays())", 'V'),
 ("accum_points.append(accum_points[-1] + ev.shape[1])", "accum_points.append(sum(p.shape[1] for p in points))", 'Q'),
 ("if level == tree.num_bunds() - 1:", "if level >= tree.num_bunds() - 2:", 'V'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = ~N.in1d(N.nonzero(non_degenerate)[0], end_rays.get_parents())", 'Q'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = N.logical_not(N.isin(N.nonzero(non_degenerate)[0], end_rays.get_parents()))", 'Q'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = N.all(\n                N.nonzero(non_degenerate)[0][None,:] != end_rays.get_parents()[:,None], axis=0)", 'Q'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = ~N.any(N.arange(sv.shape[1]) == end_rays.get_parents()[:,None], 0)", 'V'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "has_child = N.zeros(len(se), dtype=bool)\n            has_child[end_rays.get_parents()] = True\n            escaping = ~has_child[non_degenerate]", 'Q'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[end_rays.get_energy() > 0][:,None], 0)", 'V'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = N.ones(sv.shape[1], dtype=bool)", 'V'),
 ("escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)", "escaping = N.zeros(sv.shape[1], dtype=bool)", 'V'),
 ("ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))", "ev = N.hstack((escaping_endpoints, end_rays.get_vertices()))", 'V'),
 ("start_rays = tree[level]\n        se = start_rays.get_energy()\n        \n        non_degenerate = se != 0\n", "start_rays = tree[level]\n        non_degenerate = start_rays.get_energy() != 0\n", 'Q'),
 ("sv = start_rays.get_vertices()[:,non_degenerate]", "sv = start_rays.get_vertices()\n        sv[:,~non_degenerate] = 0\n        sv = sv[:,non_degenerate]", 'V'),
 ("connections.append(N.hstack((accum_points[level] + parents[shown][:,None],\n            accum_points[level + 1] + shown[:,None] )) )", "connections.append(N.vstack((accum_points[level] + parents[shown],\n            accum_points[level + 1] + shown)).T)", 'Q'),
 ("connections.append(N.hstack((accum_points[level] + parents[shown][:,None],\n            accum_points[level + 1] + shown[:,None] )) )", "connections.append(N.column_stack((accum_points[level] + parents[shown],\n            accum_points[level + 1] + shown)))", 'Q'),
 ("connections.append(N.hstack((accum_points[level] + parents[shown][:,None],\n            accum_points[level + 1] + shown[:,None] )) )", "connections.append(N.c_[accum_points[level] + parents[shown], accum_points[level + 1] + shown])", 'Q'),
 ("connections.append(N.hstack((accum_points[level] + parents[shown][:,None],\n            accum_points[level + 1] + shown[:,None] )) )", "connections.append(N.hstack((accum_points[level + 1] + shown[:,None], accum_points[level] + parents[shown][:,None])))", 'Q'),
 ("for level in xrange(tree.num_bunds()):", "for level in xrange(tree.num_bunds() - 1):", 'V'),
 ("points = N.hstack(points)", "points = N.concatenate(points, axis=1)", 'Q'),
]: M.append(('C23', SV, [(o, w)], k))

# C16
OC, SG, SO, FS, QD, RB, TE = 'optics_callables.py', 'spatial_geometry.py', 'sources.py', 'flat_surface.py', 'quadric.py', 'ray_bundle.py', 'tracer_engine.py'
for f, o, w, k in [
 (OC, "        energy = outg.get_energy()\n        proj", "        energy = rays.get_energy()\n        proj", 'V'),
 (SG, "    perp = N.hstack((vecs[:,1][:,None],  -vecs[:,0][:,None],\n        N.zeros((vecs.shape[0], 1)) ))", "    vecs /= N.sqrt(N.sum(vecs**2, axis=1))[:,None]\n    perp = N.hstack((vecs[:,1][:,None],  -vecs[:,0][:,None],\n        N.zeros((vecs.shape[0], 1)) ))", 'V'),
 (SG, "    perp = N.hstack((vecs[:,1][:,None],  -vecs[:,0][:,None],\n        N.zeros((vecs.shape[0], 1)) ))", "    vecs = vecs / N.sqrt(N.sum(vecs**2, axis=1))[:,None]\n    perp = N.hstack((vecs[:,1][:,None],  -vecs[:,0][:,None],\n        N.zeros((vecs.shape[0], 1)) ))", 'Q'),
 (FS, "        v = ray_bundle.get_vertices() - frame[:3,3][:,None]", "        v = ray_bundle.get_vertices()\n        v -= frame[:3,3][:,None]", 'V'),
 (FS, "        v = ray_bundle.get_vertices() - frame[:3,3][:,None]", "        v = ray_bundle.get_vertices().copy()\n        v -= frame[:3,3][:,None]", 'Q'),
 (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1", "        norms = N.repeat(self._working_frame[:3,2][:,None], len(self._idxs), axis=1)\n        norms[:,self._backside] *= -1", 'Q'),
 (QD, "        self._vertices = self._vertices[:,idxs].copy()", "        self._vertices = self._vertices[:,idxs]", 'Q'),
 (QD, "        c = self._working_frame[:3,3]\n", "        c = self._working_frame[:3,3]\n        d /= N.sqrt(N.sum(d**2, axis=0))\n", 'V'),
 (OC, "energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        return outg\n\nperf", "energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        rays.get_energy()[selector] *= self._abs\n        return outg\n\nperf", 'V'),
 (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)", "        en = rays.get_energy()[selector]\n        en *= self._opt._abs\n        self._absorbed.append(en)", 'Q'),
 (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)", "        en = rays.get_energy()\n        en[selector] *= self._opt._abs\n        self._absorbed.append(en[selector])", 'V'),
 (RB, "                self.__dict__[attr] = new_val\n            else:", "                self.__dict__[attr] = N.array(new_val)\n            else:", 'Q'),
 (SO, "    rayb.set_vertices(vertices_global + center)", "    vertices_global += center\n    rayb.set_vertices(vertices_global)", 'Q'),
 (SO, "    rayb.set_vertices(vertices_global + center)", "    center += vertices_global[:,:1]*0\n    rayb.set_vertices(vertices_global + center)", 'Q'),
 (SO, "    rot = rotation_to_z(direction)\n    range", "    direction /= 2.\n    rot = rotation_to_z(direction*2)\n    range", 'V'),
 ('boundary_shape.py', None, None, None),
]:
    if k: M.append(('C16', f, [(o, w)], k))
HF = 'models/heliostat_field.py'
for f, o, w, k in [
 ('has_frame.py', "self._transform = N.array(transform, dtype=float)", "self._transform = transform", 'V'),
 ('has_frame.py', "self._transform = N.array(transform, dtype=float)", "self._transform = N.asarray(transform, dtype=float)", 'V'),
 ('has_frame.py', "self._transform = N.array(transform, dtype=float)", "self._transform = transform.astype(float)", 'Q'),
 (TE, "                new_outg.set_parents(parents)\n", "                new_outg.get_parents()[:] = parents\n", 'Q'),
 (TE, "                delete = new_outg.get_energy() <= min_energy\n", "                delete = new_outg.get_energy() <= min_energy\n                bund.get_energy()[parents[delete]] = 0\n", 'V'),
 (TE, "        if tree is True:\n            self.tree.append(bund)", "        if tree is True:\n            bund.set_parents(N.arange(bund.get_num_rays()))\n            self.tree.append(bund)", 'V'),
 ('boundary_shape.py', "        return self._radius**2 >= ((bund_vertices - self._temp_loc[:3])**2).sum(axis=1)", "        bund_vertices -= self._temp_loc[:3]\n        return self._radius**2 >= (bund_vertices**2).sum(axis=1)", 'V'),
 ('optics.py', "    refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)", "    normals *= N.where(cos1 < 0, -1, 1)\n    refr_dirs += normals*cos2", 'Q'),
 ('optics.py', "    cos1 = (normals*ray_dirs).sum(axis=0)\n    refracted", "    cos1 = (normals*ray_dirs).sum(axis=0)\n    normals *= N.where(cos1 < 0, -1, 1)\n    cos1 = N.abs(cos1)\n    refracted", 'V'),
]: M.append(('C16', f, [(o, w)], k))
