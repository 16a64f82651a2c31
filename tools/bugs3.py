# third generation of planted changes: viewer, tree, and histories elsewhere
from refacs import TE, RB, OC, OP, FS, QD, SP, CY, PA, TF, BS, HF, AS, OB, SU, TT, SO, SG, MD, SV
R = []
QT = 'tracer/qt/assembly_tree.py'
def b(name, *edits): R.append((name, edits, name[:3]))
# C23
b('C23_last_filter', (SV, "            parents = N.nonzero(non_degenerate)[0]\n        else", "            parents = N.arange(ev.shape[1])\n        else"))
b('C23_accum', (SV, "        accum_points.append(accum_points[-1] + ev.shape[1])\n", "        accum_points.append(accum_points[-1] + sv.shape[1])\n"))
b('C23_esc', (SV, "                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)\n", "                N.arange(sv.shape[1]) == end_rays.get_parents()[:,None], 0)\n"))
b('C23_sel_neg', (SV, "            non_degenerate &= ray_selector(start_rays)\n", "            non_degenerate = ray_selector(start_rays)\n"))
b('C23_thr', (SV, "        non_degenerate = se != 0\n", "        non_degenerate = se > 1e-6\n"))
b('C23_end_sel', (SV, "        shown = N.nonzero(non_degenerate[parents])[0]\n", "        shown = N.nonzero(non_degenerate[parents])[0] if ray_selector is not None else N.arange(len(parents))\n"))
# C27
b('C27_clear_lines', (SV, "        self._scene.mlab.clf()\n        self._lines = None\n", "        self._scene.mlab.clf()\n"))
b('C27_update_stale', (SV, "        self.show_assembly(update=new_surfs)\n", "        self.show_assembly(update=new_surfs or None)\n"))
b('C27_update_keep', (SV, "                if self._meshes[sid][1] is not None:\n                    self._meshes[sid][1].remove()\n                del self._meshes[sid]\n", "                if self._meshes[sid][1] is not None:\n                    self._meshes[sid][1].remove()\n                    del self._meshes[sid]\n"))
b('C27_update_noremove', (SV, "                if self._meshes[sid][1] is not None:\n                    self._meshes[sid][1].remove()\n                del self._meshes[sid]\n", "                del self._meshes[sid]\n"))
b('C27_res_sticky', (SV, "            else:\n                sres = resolution\n", "            else:\n                sres = resolution = resolution\n                surf.resolution = resolution\n"))
b('C27_colour_shared', (SV, "            if hasattr(surf, 'colour'):\n                scol = surf.colour\n            else:\n                scol = colour\n", "            if hasattr(surf, 'colour'):\n                colour = surf.colour\n            scol = colour\n"))
b('C27_render', (SV, "        # Allow a scene with no source:\n        if self._source is None:\n            return\n        \n        self._scene.disable_render = True\n", "        self._scene.disable_render = True\n        # Allow a scene with no source:\n        if self._source is None:\n            return\n        \n"))
b('C27_ctl', (SV, "        if 'min_energy' in kwds:\n", "        elif 'min_energy' in kwds:\n"))
b('C27_ctl_zero', (SV, "        if 'min_energy' in kwds:\n", "        if kwds.get('min_energy'):\n"))
b('C27_engine_cached', (SV, "        engine = TracerEngine(self._asm)\n", "        if not hasattr(self, '_engine'):\n            self._engine = TracerEngine(self._asm)\n        engine = self._engine\n"))
b('C27_esc', (SV, "engine.tree, self._esc, \n            self._ray_selector)", "engine.tree, self._esc or 1., \n            self._ray_selector)"))
b('C27_show_keep', (SV, "            self._meshes[surf_id] = (surf, mesh)\n", "            if update is None:\n                self._meshes[surf_id] = (surf, mesh)\n"))
b('C27_update_empty', (SV, "            if update is not None and surf_id not in update:\n", "            if update and surf_id not in update:\n"))
b('C27_sel_new', (SV, "        self._source = source\n        self.plot_ray_trace()\n", "        self._source = source\n        self._ray_selector = None\n        self.plot_ray_trace()\n"))
b('C27_asm_id', (SV, "        self._asm = asm\n        self._meshes", "        self._asm = asm\n        if not asm.get_surfaces():\n            return\n        self._meshes"))
b('C27_lines_lost', (SV, "        if self._lines is not None:\n            self._lines.remove()\n            self._lines = None\n", "        if self._lines is not None and self._source is not None:\n            self._lines.remove()\n        self._lines = None\n"))
# C28
b('C28_num', (QT, "                    caption = \"Surface %d\" % six\n", "                    caption = \"Surface %d\" % (oix + six)\n"))
b('C28_num_tag', (QT, "                caption = \"Object %d\" % oix\n                self.set_tag(objs[oix], 'caption', caption)\n", "                caption = \"Object %d\" % oix\n"))
b('C28_all_items', (QT, "        if updated is not self:\n            return\n        \n        self._asm_item._tree_tags['caption'] = self.text(0)\n", "        if updated.text(0) != self.text(0):\n            return\n        \n        self._asm_item._tree_tags['caption'] = self.text(0)\n"))
b('C28_tags_new', (QT, "        if not hasattr(asm_item, '_tree_tags'):\n            asm_item._tree_tags = {}\n", "        asm_item._tree_tags = {'caption': captions[0]}\n"))
b('C28_empty_caption', (QT, "        return obj._tree_tags.get(tagname, None)\n", "        return obj._tree_tags.get(tagname) or None\n"))
b('C28_noclear', (QT, "        self._asm = asm\n        self.clear()\n", "        if hasattr(self, '_asm') and self._asm is not asm:\n            self.clear()\n        self._asm = asm\n"))
b('C28_connect_sub', (QT, "            asm_item = AssemblyTreeItem([caption], subs[six])\n            asm_item.setFlags(asm_item.flags()|QtCore.Qt.ItemIsEditable)\n            self.itemChanged.connect(asm_item.update_caption)\n", "            asm_item = AssemblyTreeItem([caption], subs[six])\n            asm_item.setFlags(asm_item.flags()|QtCore.Qt.ItemIsEditable)\n            if subs[six].get_local_objects():\n                self.itemChanged.connect(asm_item.update_caption)\n"))
b('C28_all_objs', (QT, "        objs = asm.get_local_objects()\n        for oix", "        objs = asm.get_objects()\n        for oix"))
b('C28_loop_var', (QT, "            subasms.addChild(asm_item)\n            self._add_subassembly(subs[six], asm_item)\n", "            subasms.addChild(asm_item)\n        for sub in subs:\n            self._add_subassembly(sub, asm_item)\n"))
b('C28_settag_class', (QT, "        if not hasattr(obj, '_tree_tags'):\n            obj._tree_tags = {}\n        \n", "        if not hasattr(obj, '_tree_tags'):\n            type(obj)._tree_tags = {}\n        \n"))
b('C28_edit_reset', (QT, "        self._asm_item._tree_tags['caption'] = self.text(0)\n", "        self._asm_item._tree_tags = {'caption': self.text(0)}\n"))
b('C28_shared_default', (QT, "    def set_assembly(self, asm):\n", "    _no_tags = {}\n    def set_assembly(self, asm):\n"), (QT, "            obj._tree_tags = {}\n        \n        obj._tree_tags[tagname] = value", "            obj._tree_tags = self._no_tags\n        \n        obj._tree_tags[tagname] = value"))
b('C28_once', (QT, "        self.itemChanged.connect(asm_item.update_caption)\n        \n        self.addTop", "        if not hasattr(self, '_wired'):\n            self.itemChanged.connect(asm_item.update_caption)\n            self._wired = True\n        \n        self.addTop"))
