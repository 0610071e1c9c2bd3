VT = "common/vtk_io.py"; RR = "common/rerun.py"
M = [
("h_mkdirs", "C27 C16", VT, "os.makedirs(target_dir, exist_ok=True)", "os.makedirs(target_dir)"),
("h_zeros", "C27 C15", VT, "zeros = np.zeros((prop_data.shape[0], 1))", "zeros = np.zeros((prop_data.shape[1], 1))"),
("h_level", "C27", RR, "measure.marching_cubes(sdf_grid, level=0.0)", "measure.marching_cubes(sdf_grid)"),
("h_level2", "C27", VT, "measure.find_contours(sdf_grid, level=0.0)", "measure.find_contours(sdf_grid)"),
("h_spawn", "C27", RR, "                rr.spawn()\n", "                pass\n"),
("h_spawn2", "C27", RR, "            RerunVisualizer._viewer_started = True", "            self._viewer_started = True"),
("h_save", "C27", RR, '            rr.save("simulation.rrd")\n', "            pass\n"),
("h_mode", "C27", RR, 'if mode == "spawn":', 'if is_3d == "spawn":'),
("h_id", "C27", RR, "if recording_id is None:", "if recording_id is not None:"),
("h_app", "C27", RR, "rr.init(app_name, recording_id=recording_id)", "rr.init(recording_id, recording_id=recording_id)"),
("h_ts", "C27", RR, 'rr.set_time("sim_time", timestamp=current_time)', 'rr.set_time("sim_time")'),
("h_rad", "C27", RR, "radii=_point_radius", "radii=scale_radius"),
("h_res", "C27", RR, "np.max(domain_size) / resolution", "np.max(dim) / resolution"),
("h_res2", "C27", VT, "np.max(domain_size) / resolution", "np.max(domain_size) / 50"),
("h_norm", "C27", RR, "np.linalg.norm(values, axis=reduce_axes)", "np.linalg.norm(values)"),
("h_tri", "C27", RR, "triangle_indices=faces", "triangle_indices=sdf_values"),
]
