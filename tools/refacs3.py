# third generation: the viewer, the assembly tree, and more idioms elsewhere
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
def r(name, *edits): R.append((name, edits))
QT = 'tracer/qt/assembly_tree.py'
GM = 'tracer/geometry_manager.py'

# ---- scene
r('s_helper_remove', (SV, "    def clear_scene(self):\n", "    @staticmethod\n    def _drop(mesh):\n        if mesh is not None:\n            mesh.remove()\n\n    def clear_scene(self):\n"),
  (SV, "            if mapping[1] is not None:\n                mapping[1].remove()\n            self._meshes[surf_id] = (mapping[0], None)", "            self._drop(mapping[1])\n            self._meshes[surf_id] = (mapping[0], None)"),
  (SV, "            if mesh is not None:\n                mesh.remove()\n            \n            # Replace", "            self._drop(mesh)\n            \n            # Replace"))
r('s_clear_rebuild', (SV, "        for surf_id, mapping in self._meshes.iteritems():\n            if mapping[1] is not None:\n                mapping[1].remove()\n            self._meshes[surf_id] = (mapping[0], None)",
  "        for surf, mesh in self._meshes.values():\n            if mesh is not None:\n                mesh.remove()\n        self._meshes = dict((id(s), (s, None)) for s, m in self._meshes.values())"))
r('s_clear_order', (SV, "        self._scene.mlab.clf()\n        self._lines = None\n", "        self._lines = None\n        self._scene.mlab.clf()\n"))
r('s_update_set', (SV, "        surf_ids = [id(s) for s in current_surfs]\n", "        by_id = dict((id(s), s) for s in current_surfs)\n"),
  (SV, "            if sid not in surf_ids:\n", "            if sid not in by_id:\n"),
  (SV, "        for six, sid in enumerate(surf_ids):\n            if sid not in self._meshes:\n                self._meshes[sid] = (current_surfs[six], None)\n", "        for sid, surf in by_id.items():\n            if sid not in self._meshes:\n                self._meshes[sid] = (surf, None)\n"))
r('s_update_comp', (SV, "        new_surfs = []\n        for six, sid in enumerate(surf_ids):\n            if sid not in self._meshes:\n                self._meshes[sid] = (current_surfs[six], None)\n                new_surfs.append(sid)\n", "        new_surfs = [sid for sid in surf_ids if sid not in self._meshes]\n        for surf in current_surfs:\n            self._meshes.setdefault(id(surf), (surf, None))\n"))
r('s_update_pop', (SV, "                if self._meshes[sid][1] is not None:\n                    self._meshes[sid][1].remove()\n                del self._meshes[sid]\n", "                surf, mesh = self._meshes.pop(sid)\n                if mesh is not None:\n                    mesh.remove()\n"))
r('s_update_gone', (SV, "        for sid in self._meshes.keys():\n            if sid not in surf_ids:\n                if", "        gone = [sid for sid in self._meshes if sid not in surf_ids]\n        for sid in gone:\n            if True:\n                if"))
r('s_show_getattr', (SV, "            if hasattr(surf, 'resolution'):\n                sres = surf.resolution\n            else:\n                sres = resolution\n            if hasattr(surf, 'colour'):\n                scol = surf.colour\n            else:\n                scol = colour\n            if hasattr(surf, 'opacity'):\n                sop = surf.opacity\n            else:\n                sop = opacity\n", "            sres = getattr(surf, 'resolution', resolution)\n            scol = getattr(surf, 'colour', colour)\n            sop = getattr(surf, 'opacity', opacity)\n"))
r('s_show_todo', (SV, "        for surf_id, mapping in self._meshes.iteritems():\n            if update is not None and surf_id not in update:\n                continue\n            surf, mesh = mapping\n", "        if update is None:\n            update = self._meshes.keys()\n        for surf_id in list(update):\n            if surf_id not in self._meshes:\n                continue\n            surf, mesh = self._meshes[surf_id]\n"))
r('s_show_after', (SV, "            # Delete existing mesh:\n            if mesh is not None:\n                mesh.remove()\n            \n            # Replace:\n            mesh = self._scene.mlab.mesh(*surf.mesh(sres), color=scol, \n                opacity=sop)\n            self._meshes[surf_id] = (surf, mesh)\n", "            x, y, z = surf.mesh(sres)\n            replaced = self._scene.mlab.mesh(x, y, z, color=scol, opacity=sop)\n            self._meshes[surf_id] = (surf, replaced)\n            if mesh is not None:\n                mesh.remove()\n"))
r('s_source_helper', (SV, "        # Remove previous rays:\n        if self._lines is not None:\n            self._lines.remove()\n            self._lines = None\n", "        self._remove_rays()\n"), (SV, "    def plot_ray_trace(self):\n", "    def _remove_rays(self):\n        lines, self._lines = self._lines, None\n        if lines is not None:\n            lines.remove()\n\n    def plot_ray_trace(self):\n"))
r('s_source_nest', (SV, "        if self._source is None:\n            return\n        \n        self._scene.disable_render = True\n", "        if self._source is not None:\n            self._plot_new()\n    \n    def _plot_new(self):\n        self._scene.disable_render = True\n"))
r('s_noparams', (SV, "        params = engine.ray_tracer(self._source, \n            self._num_trace_iters, self._min_energy)[0]\n", "        engine.ray_tracer(bundle=self._source, reps=self._num_trace_iters, min_energy=self._min_energy)\n"))
r('s_control', (SV, "        if 'max_iter' in kwds:\n            self._num_trace_iters = kwds['max_iter']\n        if 'min_energy' in kwds:\n            self._min_energy = kwds['min_energy']\n", "        self._num_trace_iters = kwds.get('max_iter', self._num_trace_iters)\n        self._min_energy = kwds.get('min_energy', self._min_energy)\n"))
r('s_init_order', (SV, "        self.set_assembly(assembly)\n        self._source = source\n        \n        # Trace control:\n        self._num_trace_iters = 200000000 # default to infinity, pretty much\n        self._min_energy = 0.05\n", "        self._source = source\n        # Trace control:\n        self._num_trace_iters = 200000000 # default to infinity, pretty much\n        self._min_energy = 0.05\n        self._meshes = {}\n        self.set_assembly(assembly)\n"))
r('s_setasm_loop', (SV, "        self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())\n", "        self._meshes = {}\n        for s in asm.get_surfaces():\n            self._meshes[id(s)] = (s, None)\n"))
r('s_rays_accum', (SV, "    points = [tree[0].get_vertices()]\n    accum_points = [0, tree[0].get_num_rays()]\n", "    first = tree[0]\n    points = [first.get_vertices()]\n    accum_points = [0, first.get_num_rays()]\n"), (SV, "        non_degenerate = se != 0\n", "        non_degenerate = ~(se == 0)\n"))
r('s_rays_in1d', (SV, "            escaping = ~N.any(\n                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)\n", "            escaping = ~N.in1d(N.nonzero(non_degenerate)[0], end_rays.get_parents())\n"))

# ---- tree
r('t_enumerate', (QT, "        for six in xrange(len(subs)):\n            caption = self.get_tag(subs[six], 'caption')\n            if caption is None:\n                caption = \"Assembly %d\" % six\n                self.set_tag(subs[six], 'caption', caption)\n            \n            asm_item = AssemblyTreeItem([caption], subs[six])\n", "        for six, sub in enumerate(subs):\n            caption = self.get_tag(sub, 'caption')\n            if caption is None:\n                caption = \"Assembly \" + str(six)\n                self.set_tag(sub, 'caption', caption)\n            \n            asm_item = AssemblyTreeItem([caption], sub)\n"))
r('t_caption_helper', (QT, "            caption = self.get_tag(objs[oix], 'caption')\n            if caption is None:\n                caption = \"Object %d\" % oix\n                self.set_tag(objs[oix], 'caption', caption)\n            \n            tree_obj = AssemblyTreeItem([caption], objs[oix])\n            tree_obj.setFlags(tree_obj.flags()|QtCore.Qt.ItemIsEditable)\n            self.itemChanged.connect(tree_obj.update_caption)\n\n", "            tree_obj = self._item(objs[oix], 'Object', oix)\n"),
  (QT, "                caption = self.get_tag(surfs[six], 'caption')\n                if caption is None:\n                    caption = \"Surface %d\" % six\n                    self.set_tag(surfs[six], 'caption', caption)\n                \n                surf_item = AssemblyTreeItem([caption], surfs[six])\n                surf_item.setFlags(surf_item.flags()|QtCore.Qt.ItemIsEditable)\n                self.itemChanged.connect(surf_item.update_caption)\n                \n                tree_obj.addChild(surf_item)\n", "                tree_obj.addChild(self._item(surfs[six], 'Surface', six))\n"),
  (QT, "    def get_tag(self, obj, tagname):\n", "    def _item(self, part, kind, number):\n        caption = self.get_tag(part, 'caption')\n        if caption is None:\n            caption = \"%s %d\" % (kind, number)\n            self.set_tag(part, 'caption', caption)\n        item = AssemblyTreeItem([caption], part)\n        item.setFlags(item.flags()|QtCore.Qt.ItemIsEditable)\n        self.itemChanged.connect(item.update_caption)\n        return item\n\n    def get_tag(self, obj, tagname):\n"))
r('t_under_last', (QT, "        self.addTopLevelItem(asm_item)\n        self.expandItem(asm_item)\n        self._add_subassembly(asm, asm_item)\n", "        self._add_subassembly(asm, asm_item)\n        self.addTopLevelItem(asm_item)\n        self.expandItem(asm_item)\n"))
r('t_gettag', (QT, "        if not hasattr(obj, '_tree_tags'):\n            return None\n        return obj._tree_tags.get(tagname, None)\n", "        tags = getattr(obj, '_tree_tags', {})\n        if tagname in tags:\n            return tags[tagname]\n        return None\n"))
r('t_update', (QT, "        if updated is not self:\n            return\n        \n        self._asm_item._tree_tags['caption'] = self.text(0)\n", "        if updated is self:\n            tags = self._asm_item._tree_tags\n            tags['caption'] = updated.text(0)\n"))
r('t_super', (QT, "        QtGui.QTreeWidgetItem.__init__(self, captions)\n        self._asm_item = asm_item\n", "        self._asm_item = asm_item\n        QtGui.QTreeWidgetItem.__init__(self, captions)\n"))
r('t_flags', (QT, "            tree_obj.setFlags(tree_obj.flags()|QtCore.Qt.ItemIsEditable)\n            self.itemChanged.connect(tree_obj.update_caption)\n\n            under.addChild(tree_obj)\n", "            under.addChild(tree_obj)\n            flags = tree_obj.flags()\n            tree_obj.setFlags(QtCore.Qt.ItemIsEditable | flags)\n            self.itemChanged.connect(tree_obj.update_caption)\n"))
r('t_len', (QT, "        if len(subs) > 0:\n            subasms", "        if subs:\n            subasms"), (QT, "        if len(objs) > 0:\n", "        if objs:\n"))
r('t_parent_ctor', (QT, "            subasms = QtGui.QTreeWidgetItem([\"Subassemblies\"])\n            under.addChild(subasms)\n", "            subasms = QtGui.QTreeWidgetItem()\n            subasms.setText(0, \"Subassemblies\")\n            under.addChild(subasms)\n"))
r('t_settag', (QT, "        if not hasattr(obj, '_tree_tags'):\n            obj._tree_tags = {}\n        \n        obj._tree_tags[tagname] = value\n", "        try:\n            tags = obj._tree_tags\n        except AttributeError:\n            tags = obj._tree_tags = {}\n        tags[tagname] = value\n"))

# ---- elsewhere
r('g_plane_where', (FS, "        negative = params < 0\n        params[negative] = N.Inf\n", "        params = N.where(params < 0, N.inf, params)\n"))
r('g_flat_einsum', (FS, "        ray_prms[N.sum(self._local[:2]**2, axis=0) > self._R**2] = N.inf\n", "        x, y = self._local[:2]\n        ray_prms[x*x + y*y > self._R*self._R] = N.inf\n"))
r('g_norms_where', (FS, "        norms = N.tile(self._working_frame[:3,2].copy()[:,None], (1, len(self._idxs)))\n        norms[:,self._backside] *= -1\n        return norms\n", "        sign = N.ones(len(self._idxs))\n        sign[self._backside] = -1\n        return self._working_frame[:3,2,None] * sign\n"))
r('a_frame_dot', (HF, "        self._temp_frame = N.dot(transform, self._transform)\n", "        frame = N.dot(transform, self.get_transform())\n        self._temp_frame = frame\n"))
r('a_nested_chain', (AS, "        for obj in self._assemblies + self._objects:\n", "        for obj in list(self._assemblies) + list(self._objects):\n"))
r('m_solar', (MD % 'heliostat_field', "        tower_vec = -self._pos \n        tower_vec[:,2] += self._th\n", "        tower_vec = N.array([0., 0., self._th]) - self._pos\n"))
r('m_field_zip', (MD % 'heliostat_field', "        for hidx in xrange(self._pos.shape[0]):\n            az_rot = rotz(hstat_az[hidx])\n            elev_rot = roty(hstat_elev[hidx])\n            \n            trans = N.dot(az_rot, elev_rot)\n            trans[:3,3] = self._pos[hidx]\n            \n            self._heliostats[hidx].set_transform(trans)\n", "        for mirror, az, elev, pos in zip(self._heliostats, hstat_az, hstat_elev, self._pos):\n            trans = N.dot(rotz(az), roty(elev))\n            trans[:3,3] = pos\n            mirror.set_transform(trans)\n"))
r('m_hist', (MD % 'homogenized_local_receiver', "        x, y = self._rec.global_to_local(pts)[:2]\n        rngx = self._sides[0]/2.\n        rngy = self._sides[1]/2.\n        \n        H, xbins, ybins = N.histogram2d(x, y, bins, \\\n            range=([-rngx,rngx], [-rngy,rngy]), weights=energy)\n        return H, xbins, ybins", "        local = self._rec.global_to_local(pts)\n        extent = [[-0.5*s, 0.5*s] for s in self._sides]\n        return N.histogram2d(local[0], local[1], bins=bins, range=extent, weights=energy)"))
r('e_outer_helper', (TE, "                # Fix parent indexing to refer to the full original bundle:\n                parents = N.nonzero(owned_rays[surf_idx])[0][new_outg.get_parents()]\n                new_outg.set_parents(parents)\n", "                self._fix_parents(new_outg, owned_rays[surf_idx])\n"), (TE, "    def ray_tracer(self", "    @staticmethod\n    def _fix_parents(outg, owned):\n        \"\"\"Make the parent indices refer to the full original bundle\"\"\"\n        position = N.nonzero(owned)[0]\n        outg.set_parents(position[outg.get_parents()])\n\n    def ray_tracer(self"))
r('e_weak_keep', (TE, "                delete = new_outg.get_energy() <= min_energy\n                weak_ray_pos.append(delete)\n                if delete.any():\n                    new_outg = new_outg.delete_rays(N.nonzero(delete)[0])\n", "                weak = new_outg.get_energy() <= min_energy\n                weak_ray_pos.append(weak)\n                if any(weak):\n                    new_outg = new_outg.inherit(N.nonzero(~weak)[0])\n"))
r('e_while', (TE, "        for i in xrange(reps):\n            front_surf", "        done_iters = 0\n        while done_iters < reps:\n            done_iters += 1\n            front_surf"))
r('e_ones_full', (TE, "        ray_ownership = -1*N.ones(bund.get_num_rays())\n", "        ray_ownership = N.empty(bund.get_num_rays())\n        ray_ownership.fill(-1)\n"))
r('t_parent_arg', (QT, "            subasms = QtGui.QTreeWidgetItem([\"Subassemblies\"])\n            under.addChild(subasms)\n", "            subasms = QtGui.QTreeWidgetItem(under, [\"Subassemblies\"])\n"))
r('t_block', (QT, "        # Repopulate:\n", "        # Repopulate:\n        blocked = self.blockSignals(True)\n"), (QT, "        self._add_subassembly(asm, asm_item)\n    \n    def get_assembly", "        self._add_subassembly(asm, asm_item)\n        self.blockSignals(blocked)\n    \n    def get_assembly"))
