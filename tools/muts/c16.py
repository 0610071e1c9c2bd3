M=[
("save_mod","C16","common/sim_io.py",'        filename = f"state_{int(step):05d}.eqx"','        filename = f"state_{int(step) % 100000:05d}.eqx"'),
("save_10","C16","common/sim_io.py",'        step = int(state.step)','        step = int(state.step) // 10 * 10'),
("save_g","C16","common/sim_io.py",'        filename = f"state_{int(step):05d}.eqx"','        filename = f"state_{float(step):.4g}.eqx"'),
("load_pad","C16","common/sim_io.py",'os.path.join(directory, f"state_{int(step):05d}.eqx")','os.path.join(directory, f"state_{int(step):06d}.eqx")'),
("load_strip","C16","common/sim_io.py",'os.path.join(directory, f"state_{int(step):05d}.eqx")','os.path.join(directory, f"state_{str(int(step))[-5:].zfill(5)}.eqx")'),
("rm_base","C16","common/sim_io.py",'            shutil.rmtree(self.output_dir)','            shutil.rmtree(os.path.dirname(self.output_dir) or self.output_dir)'),
("rm_always","C16","common/sim_io.py",'        if os.path.exists(self.output_dir) and overwrite:','        if os.path.exists(self.output_dir) or overwrite:'),
("rel","C16","common/sim_io.py",'            base_path = os.path.dirname(os.path.abspath(relative_dir))','            base_path = os.path.abspath(relative_dir)'),
("world_only","C16","common/sim_io.py",'eqx.tree_serialise_leaves(path, state)','eqx.tree_serialise_leaves(path, state.world)'),
("swap","C16","common/sim_io.py",'    return loaded_solver, loaded_state','    return loaded_state, loaded_solver'),
("meta_name","C16","common/sim_io.py",'"metadata.json"','"solver_config.eqx"'),
("meta_mut","C16","common/sim_io.py",'''        if meta_info:
            meta.update(meta_info)
''','''        if meta_info:
            meta_info.update(meta)
            meta = meta_info
'''),
("verbose","C16","common/sim_io.py",'''        eqx.tree_serialise_leaves(path, state)


        if verbose:
''','''        if verbose:
            eqx.tree_serialise_leaves(path, state)
'''),
("exist_ok","C16","common/sim_io.py",'os.makedirs(self.output_dir, exist_ok=True)','os.makedirs(self.output_dir, exist_ok=overwrite)'),
("mk_first","C16","common/sim_io.py",'''            shutil.rmtree(self.output_dir)
        
        os.makedirs(self.output_dir, exist_ok=True)
''','''            shutil.rmtree(self.output_dir)
        else:
            os.makedirs(self.output_dir, exist_ok=True)
'''),
("skel","C16","common/sim_io.py",'eqx.tree_deserialise_leaves(state_path, state_skeleton)','eqx.tree_deserialise_leaves(solver_path, state_skeleton)'),
("vtk_dir","C16","common/vtk_io.py",'        full_path = os.path.join(target_dir, filename)','        full_path = os.path.join(self.output_dir, "..", label, filename)'),
("vtk_name","C16","common/vtk_io.py",'path = self._save_vtk(cloud, label, f"step_{step_val:05d}.vtp")','path = self._save_vtk(cloud, label, f"step_{step_val % 1000:05d}.vtp")'),
("R_pct","C16","common/sim_io.py",'        filename = f"state_{int(step):05d}.eqx"','        filename = "state_%05d.eqx" % int(step)'),
("R_fmt","C16","common/sim_io.py",'        filename = f"state_{int(step):05d}.eqx"','        filename = "state_{:05d}.eqx".format(step)'),
("R_zfill","C16","common/sim_io.py",'        filename = f"state_{int(step):05d}.eqx"','        filename = "state_" + str(step).zfill(5) + ".eqx"'),
("R_helper","C16","common/sim_io.py",'        filename = f"state_{int(step):05d}.eqx"','        filename = _name(step)','common/sim_io.py','class SimIO:\n','def _name(step):\n    return f"state_{int(step):05d}.eqx"\n\n\nclass SimIO:\n','common/sim_io.py','os.path.join(directory, f"state_{int(step):05d}.eqx")','os.path.join(directory, _name(step))'),
("R_pathlib","C16","common/sim_io.py",'os.path.join(directory, f"state_{int(step):05d}.eqx")','str(Path(directory) / f"state_{int(step):05d}.eqx")','common/sim_io.py','import json\n','import json\nfrom pathlib import Path\n'),
("R_fstr","C16","common/sim_io.py",'        path = os.path.join(self.output_dir, filename)\n','        path = f"{self.output_dir}/{filename}"\n'),
("R_early","C16","common/sim_io.py",'''        if os.path.exists(self.output_dir) and overwrite:
            print(f"Cleaning existing data directory: {self.output_dir}")
            shutil.rmtree(self.output_dir)
''','''        if overwrite:
            if os.path.isdir(self.output_dir):
                shutil.rmtree(self.output_dir)
'''),
]
