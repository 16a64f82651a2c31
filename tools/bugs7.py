# Planted changes, seventh set: state kept between calls, narrow conditions, cooperating sites.
from bugs6 import *
R = []
def b(name, *subs): R.append((name, subs, name[:3]))
OC, OP, SO, SS, PA, QU, FS, CY, TFA, BSH, SUR, TTR, SGE = ['tracer/%s.py' % x for x in ('optics_callables', 'optics', 'sources', 'sphere_surface', 'paraboloid', 'quadric', 'flat_surface', 'cylinder', 'triangular_face', 'boundary_shape', 'surface', 'trace_tree', 'spatial_geometry')]
b('C14_fresnel_clip', (OP, "    R = (Rs + Rp)/2\n", "    R = N.minimum((Rs + Rp)/2, Rs)\n"))
b('C14_abs_grazing', (OC, "            energy=rays.get_energy()[selector]*(1 - self._abs),\n            parents=selector)\n        return outg\n\nperfect_mirror", "            energy=rays.get_energy()[selector]*(1 - self._abs)**N.sign(self._abs),\n            parents=selector)\n        return outg\n\nperfect_mirror"))
b('C14_toggle_max', (OC, "        return N.where(current == self._ref_idxs[0], \n            self._ref_idxs[1], self._ref_idxs[0])\n", "        return N.where(current >= max(self._ref_idxs), \n            min(self._ref_idxs), max(self._ref_idxs))\n"))
b('C13_cos_sign', (OP, "N.where(cos1 < 0, -1, 1)", "N.where(cos1 < 0, -1, N.where(cos1 > 1e-3, 1, -1))"))
b('C13_n_shared', (OP, "    n = n[refracted]\n", "    n = n[:refracted.sum()]\n"))
b('C12_normals_scale', (OP, "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    return ray_dirs - 2*vertical\n", "    vertical = N.sum(ray_dirs*normals, axis=0)*normals # normal dot ray, really\n    vertical[:,N.all(abs(vertical) < 1e-3, axis=0)] = 0\n    return ray_dirs - 2*vertical\n"))
b('C15_once', (OC, "        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)\n        self._hits.append(geometry.get_intersection_points_global())\n        return self._opt(geometry, rays, selector)\n", "        outg = self._opt(geometry, rays, selector)\n        self._absorbed.append(rays.get_energy()[selector] - outg.get_energy())\n        self._hits.append(outg.get_vertices())\n        return outg\n"))
b('C15_keep', (OC, "        self._absorbed = []\n        self._hits = []\n", "        self._absorbed = []\n        if not hasattr(self, '_hits'):\n            self._hits = []\n        self._hits[:] = self._hits[:0]\n"))
b('C15_zero', (OC, "        return N.hstack([a for a in self._absorbed if len(a)]), \\\n            N.hstack([h for h in self._hits if h.shape[1]])\n", "        return N.hstack([a for a in self._absorbed if any(a)]), \\\n            N.hstack([h for h, a in zip(self._hits, self._absorbed) if any(a)])\n"))
b('C18_range_sq', (SO, "    theta = N.arcsin(N.sin(ang_range)*N.sqrt(xi2))\n", "    theta = N.arcsin(N.sin(min(ang_range, 0.5*N.pi - 1e-3))*N.sqrt(xi2))\n"))
b('C18_flux_zero', (SO, "    if flux is not None:\n", "    if flux:\n"))
b('C18_square_end', (SO, "    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]\n", "    range = N.s_[-width:width:float(2*width)/int(N.sqrt(num_rays))]\n"))
b('C11_sides_le', (SS, "        normal[:,sides < 0] *= -1\n", "        if N.any(sides > 0):\n            normal[:,sides < 0] *= -1\n        else:\n            normal = -normal\n"), )
b('C11_par_flat', (PA, "        down = N.sum(dir_loc * local_unit, axis=0) > 0\n", "        down = (N.sum(dir_loc * local_unit, axis=0) > 0) & (hit[2] >= 0)\n"))
b('C10_hemi_rim', (SS, "        bottom_hem = (local[:,2,:] <= 0) & (prm > 0)\n", "        bottom_hem = (local[:,2,:] <= 1e-3*self._rad) & (prm > 0)\n"))
b('C10_dish_two', (PA, "        select[one_hit] = N.nonzero(under_cut.T[one_hit,:])[1]\n", "        select[one_hit] = N.argmax(under_cut[:,one_hit], axis=0) if one_hit.sum() > 1 else N.nonzero(under_cut.T[one_hit,:])[1]\n        select[one_hit & (prm[1] - prm[0] < 1e-2)] = 0\n"))
b('C09_sph_far', (SS, "        C = ((v - c[:,None])**2).sum(axis=0) - self.get_radius()**2\n", "        rel = v - c[:,None]\n        C = (rel**2).sum(axis=0) - min(self.get_radius(), N.sqrt((rel**2).sum(axis=0)).max())**2\n"))
b('C09_par_dir', (PA, "        A = self.a*d[0]**2 + self.b*d[1]**2\n", "        A = self.a*d[0]**2 + self.b*d[1]**2\n        A[abs(A) < 1e-4] = 0\n"))
b('C06_bound_once', (SS, "        if self._bound is not None:\n            self._bound.transform_frame(frame)\n", "        if self._bound is not None and getattr(self, '_bound_frame', None) is not frame:\n            self._bound.transform_frame(frame)\n            self._bound_frame = frame\n"))
b('C07_sphere_loc', (BSH, "        self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))\n", "        if N.any(self._loc):\n            self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))\n        else:\n            self._temp_loc = transform[:,3] if self._radius > 1e-3 else self._temp_loc\n"))
b('C02_hist_neg', (TTR, "        if level is None:\n", "        if not level:\n"))
b('C02_hist_first', (TTR, "        parents = np.empty(level + 1, dtype=int)\n", "        parents = np.empty(level + 1, dtype=np.int16)\n"))
b('C20_tri_mesh', (TFA, "            np.linspace(0, 1, resolution)) # parameter between points on edges\n", "            np.linspace(0, 1, max(resolution, 3))) # parameter between points on edges\n"))
b('C20_rad_floor', (SS, "            N.pi/2:rng:1./(self._rad*resolution),\n", "            N.pi/2:min(rng, 3.5):1./(self._rad*resolution),\n"))
b('C22_hist_scale', ('tracer/models/homogenized_local_receiver.py', "range=([-rngx,rngx], [-rngy,rngy]), weights=energy)\n", "range=([-rngx,rngx], [-rngy,rngy]), weights=energy if energy.any() else None)\n"))
b('C22_cyl_thin', ('tracer/models/spherical_lens.py', "        if cyl_height > 0:\n", "        if cyl_height > 1e-3*diameter:\n"))
b('C22_homog_shared', ('tracer/models/homogenizer.py', "    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs)\n", "    wall_yn = rect_one_sided_mirror(aperture_xdim, height, abs if aperture_xdim == aperture_ydim else 0.)\n"))
b('C24_surf_alias', ('tracer/object.py', "        return self.surfaces\n", "        return sorted(self.surfaces, key=lambda s: s.get_location()[2] < -1)\n"))
