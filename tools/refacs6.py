# Further edits that keep the behaviour: bounding volumes, the protocol's base classes, trees, ready-made models.
R = []
def r(name, *subs): R.append((name, subs))
BS, GM, SU, OB, TT, TF = ['tracer/%s.py' % x for x in ('boundary_shape', 'geometry_manager', 'surface', 'object', 'trace_tree', 'triangular_face')]
M = 'tracer/models/%s.py'
HL, HO, OS, PE, TM, SL, TR = [M % x for x in ('homogenized_local_receiver', 'homogenizer', 'one_sided_mirror', 'PETAL_dish', 'tau_minidish', 'spherical_lens', 'triangulated_surface')]
# boundary shapes
r('bs_einsum', (BS, "        return self._radius**2 >= ((bund_vertices - self._temp_loc[:3])**2).sum(axis=1)\n", "        rel = bund_vertices - self._temp_loc[:3]\n        return N.einsum('ij,ij->i', rel, rel) <= self._radius**2\n"))
r('bs_helper', (BS, "class BoundarySphere(BoundaryShape):\n", "    def _to_local(self, points):\n        homog = N.vstack((points.T, N.ones(points.shape[0])))\n        return N.dot(N.linalg.inv(self._temp_frame), homog)\n\nclass BoundarySphere(BoundaryShape):\n"),
  (BS, "        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], \n            N.vstack((vertices.T, N.ones(vertices.shape[0]))))\n", "        local_xy = self._to_local(vertices)[:2]\n"),
  (BS, "        local_z = N.dot(N.linalg.inv(self._temp_frame)[2], \n            N.vstack((vertices.T, N.ones(vertices.shape[0]))))\n        return local_z >= 0\n", "        return self._to_local(vertices)[2] >= 0\n"))
r('bs_rigid', (BS, "        local_z = N.dot(N.linalg.inv(self._temp_frame)[2], \n            N.vstack((vertices.T, N.ones(vertices.shape[0]))))\n        return local_z >= 0\n", "        above = vertices - self._temp_frame[:3,3]\n        return N.dot(above, self._temp_frame[:3,2]) >= 0\n"))
r('bs_append', (BS, "        self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))\n", "        self._temp_loc = N.dot(transform[:3,:3], self._loc) + transform[:3,3]\n"))
r('bs_rect', (BS, "        return cent_proj[0] - Reff, cent_proj[0] + Reff, \\\n            cent_proj[1] - Reff, cent_proj[1] + Reff\n", "        x, y = cent_proj[:2]\n        return x - Reff, x + Reff, y - Reff, y + Reff\n"))
r('bs_hypot', (BS, "        return N.sum(local_xy**2, axis=0) <= self._R**2\n", "        x, y = local_xy\n        return x*x + y*y <= self._R**2\n"))
# protocol
r('gm_done_each', (GM, "        if hasattr(self, '_working_frame'):\n            del self._working_frame\n            del self._working_bundle\n", "        for name in ('_working_frame', '_working_bundle'):\n            if name in self.__dict__:\n                delattr(self, name)\n"))
r('gm_early', (GM, "        self._working_frame = frame\n        self._working_bundle = ray_bundle\n        \n        # This must be extended to return the correct result!\n        if type(self) is GeometryManager:\n            raise TypeError(\"Find intersections must be extended by a base class\")\n", "        if type(self) is GeometryManager:\n            raise TypeError(\"Find intersections must be extended by a base class\")\n        self._working_bundle = ray_bundle\n        self._working_frame = frame\n"))
r('gm_up', (GM, "        return self._working_frame[:3,2]\n", "        z_axis = N.r_[0., 0., 1., 0.]\n        return N.dot(self._working_frame, z_axis)[:3]\n"))
r('su_try', (SU, "        if hasattr(self, '_current_bundle'):\n            del self._current_bundle\n        self._geom.done()\n", "        try:\n            del self._current_bundle\n        except AttributeError:\n            pass\n        self._geom.done()\n"))
r('su_none', (SU, "        self._geom = geometry\n        self._opt = optics\n", "        self._geom = geometry\n        self._opt = optics\n        self._current_bundle = None\n        self._selected = None\n"), (SU, "        if hasattr(self, '_current_bundle'):\n            del self._current_bundle\n", "        self._current_bundle = None\n        self._selected = None\n"))
r('su_mesh', (SU, "        local = N.array((x, y, z, N.ones_like(x)))\n        glob = N.tensordot(self._temp_frame, local, axes=([1], [0]))\n        \n        return glob[:3]\n", "        local = N.array((x, y, z))\n        rot, loc = self._temp_frame[:3,:3], self._temp_frame[:3,3]\n        return N.tensordot(rot, local, axes=([1], [0])) + loc[:,None,None]\n"))
r('su_local', (SU, "        return N.dot(N.linalg.inv(self._temp_frame), \n            N.vstack((points, N.ones(points.shape[1]))))\n", "        homog = N.ones((4, points.shape[1]))\n        homog[:3] = points\n        return N.linalg.solve(self._temp_frame, homog)\n"))
r('su_order', (SU, "        self._selected = idxs\n        self._geom.select_rays(idxs)\n", "        self._geom.select_rays(idxs)\n        self._selected = idxs\n"))
# objects
r('ob_or', (OB, "        if transform is None:\n            transform = N.eye(4)\n        self.set_transform(transform)\n", "        self.set_transform(N.eye(4) if transform is None else transform)\n"))
r('ob_total', (OB, "        const_t = self.get_transform()\n        for member in self.surfaces + self.boundaries:\n            member.transform_frame(N.dot(assembly_transform, const_t))\n", "        total = N.dot(assembly_transform, self.get_transform())\n        for surface in self.surfaces:\n            surface.transform_frame(total)\n        for boundary in self.boundaries:\n            boundary.transform_frame(total)\n"))
r('ob_owns', (OB, "        return N.zeros(rays.get_num_rays(), dtype=N.bool)\n", "        return N.array([False]*rays.get_num_rays(), dtype=bool)\n"))
r('ob_relev', (OB, "        return N.ones((len(self.surfaces), rays.get_num_rays()), dtype=N.bool)\n", "        relevant = N.zeros((len(self.get_surfaces()), rays.get_num_rays()), dtype=bool)\n        return ~relevant\n"))
# tree
r('tt_list', (TT, "        parents = np.empty(level + 1, dtype=int)\n        parents[0] = ray_index\n        \n        for pix in xrange(1, level + 1):\n            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n        \n        return parents\n", "        history = [ray_index]\n        for bund in reversed(self._bunds[1:level + 1]):\n            history.append(bund.get_parents()[history[-1]])\n        return np.array(history, dtype=int)\n"))
r('tt_while', (TT, "        for pix in xrange(1, level + 1):\n            parents[pix] = \\\n                self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]\n", "        current = ray_index\n        pix = 0\n        while level > 0:\n            current = self._bunds[level].get_parents()[current]\n            level -= 1\n            pix += 1\n            parents[pix] = current\n"))
r('tt_map', (TT, "        return [bund.get_parents() for bund in self._bunds[1:]]\n", "        ordered = []\n        for level in xrange(1, self.num_bunds()):\n            ordered.append(self[level].get_parents())\n        return ordered\n"))
# triangles
r('tf_local', (TF, "        glob_verts = np.dot(frame, np.vstack(( self._verts, np.array([1,1]) )) )\n        rel_glob = glob_verts[:3].T - frame[:3,3]\n        w = self._global.T - frame[:3,3]\n", "        rel_glob = np.dot(frame[:3,:3], self._verts).T\n        w = self._global.T - frame[:3,3]\n"))
r('tf_solve', (TF, "        bc = (uv*rel_dots[:,::-1] - norms_sq[::-1]*rel_dots) / \\\n            (uv**2 - norms_sq[0]*norms_sq[1])\n        \n        # Use barycentric coordinates for exclusion test.\n        outside = np.any(bc < 0, axis=1) | (bc.sum(axis=1) > 1)\n        ray_prms[outside] = np.inf\n", "        denom = uv**2 - norms_sq[0]*norms_sq[1]\n        s = (uv*rel_dots[:,1] - norms_sq[1]*rel_dots[:,0])/denom\n        t = (uv*rel_dots[:,0] - norms_sq[0]*rel_dots[:,1])/denom\n        ray_prms[(s < 0) | (t < 0) | (s + t > 1)] = np.inf\n"))
r('tf_mesh', (TF, "        x, y, z = alpha*self._verts[:,1,None,None]*(1 - beta) + \\\n            alpha*self._verts[:,0,None,None]*beta\n", "        first, second = self._verts[:,0,None,None], self._verts[:,1,None,None]\n        x, y, z = alpha*(second + beta*(first - second))\n"))
# models
r('hl_isinstance', (HL, "        if type(receiver_dims) is type(tuple()):\n            self._sides = receiver_dims\n        else:\n            self._sides = (receiver_dims, receiver_dims)\n", "        if not isinstance(receiver_dims, tuple):\n            receiver_dims = (receiver_dims,)*2\n        self._sides = receiver_dims\n"))
r('hl_later', (HL, "        rec_obj.set_transform(receiver_frame)\n        \n", "\n"), (HL, "        Assembly.__init__(self, objects=[rec_obj, refl], subassemblies=[self._hom])\n", "        rec_obj.set_transform(receiver_frame)\n        Assembly.__init__(self, subassemblies=[self._hom], objects=[rec_obj, refl])\n"))
r('hl_hist', (HL, "        rngx = self._sides[0]/2.\n        rngy = self._sides[1]/2.\n        \n        H, xbins, ybins = N.histogram2d(x, y, bins, \\\n            range=([-rngx,rngx], [-rngy,rngy]), weights=energy)\n        return H, xbins, ybins\n", "        limits = [[-side/2., side/2.] for side in self._sides]\n        return N.histogram2d(x, y, bins=bins, range=limits, weights=energy)\n"))
r('hl_hist2', (HL, "        energy, pts = self._rec.get_optics_manager().get_all_hits()\n        x, y = self._rec.global_to_local(pts)[:2]\n", "        absorbed, hits = self.get_receiver_surf().get_optics_manager().get_all_hits()\n        local = self.get_receiver_surf().global_to_local(hits)\n        x, y = local[0], local[1]\n        energy = absorbed\n"))
r('hl_frame', (HL, "        receiver_frame = N.dot(sp.translate(0, 0, receiver_pos), sp.rotx(N.pi))\n", "        receiver_frame = sp.rotx(N.pi)\n        receiver_frame[2,3] = receiver_pos\n"))
r('ho_loop', (HO, "    abs = 1 - opt_eff\n    wall_xp = rect_one_sided_mirror(height, aperture_ydim, abs)\n    wall_xp.set_transform(\n        N.dot(sp.translate(aperture_xdim/2., 0, height/2.), sp.roty(-N.pi/2.)))\n    \n    wall_xn = rect_one_sided_mirror(height, aperture_ydim, abs)\n    wall_xn.set_transform(\n        N.dot(sp.translate(-aperture_xdim/2., 0, height/2.), sp.roty(N.pi/2.)))\n", "    abs = 1 - opt_eff\n    x_walls = []\n    for side in (1, -1):\n        wall = rect_one_sided_mirror(height, aperture_ydim, abs)\n        wall.set_transform(\n            N.dot(sp.translate(side*aperture_xdim/2., 0, height/2.), sp.roty(-side*N.pi/2.)))\n        x_walls.append(wall)\n    wall_xp, wall_xn = x_walls\n"))
r('ho_helper', (HO, "def rect_homogenizer(", "def _wall(width, height, absorptivity, location, rotation):\n    wall = rect_one_sided_mirror(width, height, absorptivity)\n    frame = sp.translate(*location)\n    wall.set_transform(N.dot(frame, rotation))\n    return wall\n\ndef rect_homogenizer("),
  (HO, "    wall_yp = rect_one_sided_mirror(aperture_xdim, height, abs)\n    wall_yp.set_transform(\n        N.dot(sp.translate(0, aperture_ydim/2., height/2.), sp.rotx(N.pi/2.)))\n    \n    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)\n    wall_yn.set_transform(\n        N.dot(sp.translate(0, -aperture_ydim/2., height/2.), sp.rotx(-N.pi/2.)))\n", "    half = aperture_ydim/2.\n    wall_yp = _wall(aperture_xdim, height, abs, (0, half, height/2.), sp.rotx(N.pi/2.))\n    wall_yn = _wall(aperture_xdim, height, abs, (0, -half, height/2.), sp.rotx(-N.pi/2.))\n"))
r('ho_added', (HO, "    return Assembly(objects=[wall_xp, wall_xn, wall_yp, wall_yn])\n", "    homogenizer = Assembly()\n    for wall in (wall_xp, wall_xn, wall_yp, wall_yn):\n        homogenizer.add_object(wall, wall.get_transform())\n    return homogenizer\n"))
r('os_shared', (OS, "    obj = AssembledObject(surfs=[front, back])\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return front, obj\n", "    return front, _one_sided(front, back)\n"), (OS, "    obj = AssembledObject(surfs=[surf])\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return obj\n", "    return _one_sided(surf)\n"), (OS, "def rect_one_sided_mirror(", "def _one_sided(*surfs):\n    obj = AssembledObject(surfs=list(surfs))\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return obj\n\ndef rect_one_sided_mirror("))
r('os_class', (OS, "def rect_one_sided_mirror(", "class OneSided(AssembledObject):\n    surfaces_for_next_iteration = surfaces_for_next_iteration\n\ndef rect_one_sided_mirror("), (OS, "    obj = AssembledObject(surfs=[surf])\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return obj\n", "    return OneSided(surfs=[surf])\n"), (OS, "    obj = AssembledObject(surfs=[front, back])\n    obj.surfaces_for_next_iteration = types.MethodType(\n        surfaces_for_next_iteration, obj, obj.__class__)\n    return front, obj\n", "    return front, OneSided(surfs=[front, back])\n"))
r('pe_kw', (PE, "        HomogenizedLocalReceiver.__init__(self, dish_surf, receiver_pos, \\\n            receiver_dims, homogenizer_depth, homog_opt_eff)\n", "        HomogenizedLocalReceiver.__init__(self, main_reflector=dish_surf,\n            receiver_pos=receiver_pos, receiver_dims=receiver_dims,\n            homogenizer_depth=homogenizer_depth, homog_opt_eff=homog_opt_eff)\n"))
r('tm_measures', (TM, "    f = diameter/4./(sqrt(2) - 1)\n    W = diameter/2. * sqrt(pi/concentration)\n    n = virt_sources + 1\n    H = n*W*f/(diameter - n*W)\n", "    f = diameter*(sqrt(2) + 1)/4.\n    W = sqrt(pi*diameter**2/4./concentration)\n    total = (virt_sources + 1)*W\n    H = f*total/(diameter - total)\n"))
r('sl_helper', (SL, "        # Front surface:\n        if R1 in [0, None, N.inf, -N.inf]:\n            self._front = Surface(\n                RoundPlateGM(diameter/2.),\n                Refractive(1., refr_idx))\n            R1 = N.inf\n        else:\n            z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane\n            if R1 > 0:\n                sect1 = BoundaryPlane(location=N.r_[0, 0, z])\n            else:\n                sect1 = BoundaryPlane(location=N.r_[0, 0, -z], rotation=flip_side)\n            sphere = CutSphereGM(radius=abs(R1), bounding_volume=sect1)\n            \n            refr=Refractive(1., refr_idx)\n            self._front = Surface(geometry=sphere, optics=refr)\n", "        def cap(R):\n            z = N.sqrt(R**2 - (diameter/2.)**2)\n            if R > 0:\n                section = BoundaryPlane(location=N.r_[0, 0, z])\n            else:\n                section = BoundaryPlane(location=N.r_[0, 0, -z], rotation=flip_side)\n            return section, CutSphereGM(radius=abs(R), bounding_volume=section)\n        \n        # Front surface:\n        if R1 in [0, None, N.inf, -N.inf]:\n            self._front = Surface(RoundPlateGM(diameter/2.), Refractive(1., refr_idx))\n            R1 = N.inf\n        else:\n            sect1, front_geom = cap(R1)\n            self._front = Surface(front_geom, Refractive(1., refr_idx))\n"))
r('sl_power', (SL, "        opt_power = (refr_idx - 1)*(1./R1 - 1./R2 + depth*(refr_idx - 1)/R1/R2/refr_idx)\n        f = 1./opt_power\n", "        c1, c2 = 1./R1, 1./R2\n        rel = refr_idx - 1\n        f = 1./(rel*(c1 - c2) + rel**2*depth*c1*c2/refr_idx)\n"))
r('sl_surfs', (SL, "            surfs = [self._front, self._back, self._cyl]\n        else:\n            surfs=[self._front, self._back]\n", "\n        surfs = [self._front, self._back]\n        if cyl_height > 0:\n            surfs.append(self._cyl)\n"))
r('tr_loop', (TR, "        face_list = [Surface(TriangularFace(edges_local[face_ix].T), optics,\n            location=pos[face_ix], rotation=rots[face_ix]) \\\n            for face_ix in xrange(xs.shape[0])]\n        \n        AssembledObject.__init__(self, face_list, None, transform)\n", "        face_list = []\n        for loc, rot, edge in zip(pos, rots, edges_local):\n            face_list.append(Surface(TriangularFace(edge.T), optics, loc, rot))\n        \n        AssembledObject.__init__(self, surfs=face_list, transform=transform)\n"))
r('tr_norm', (TR, "        edge_norms = np.sqrt(np.sum(edges**2, axis=2))\n        non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)\n", "        edge_norms = np.linalg.norm(edges, axis=2)\n        non_degenerate = ~(edge_norms <= 1e-8).any(axis=1)\n"))
r('tr_einsum', (TR, "        edges_local = np.sum(rots.transpose(0,2,1)[:,None,...]*\\\n            edges[:,:,None,:], axis=3)\n", "        edges_local = np.einsum('fij,fei->fej', rots, edges)\n"))
