M=[
("c05-force-neg","C05","solvers/usl.py","1.0\n","1.0\n"),
("c05-L-noneg","C05 C20","solvers/usl.py","-intr_vels_nt_3d","intr_vels_nt_3d"),
("c05-hencky","C05","utils/math_helpers.py","log_s = -jnp.log(s)","log_s = jnp.log(s)"),
("c07-cub","C07","shapefunctions/cubic.py","(-0.5 * x - 1) * x * x + 2.0 / 3.0","(-0.5 * x - 1.01) * x * x + 2.0 / 3.0"),
("c07-quad-edge","C07","shapefunctions/quadratic.py","h * (x - 3 / 2)","h * (x - 1)"),
("c07-shift","C07 C08","shapefunctions/mapping.py","jnp.floor(base_pos - 0.5)","jnp.floor(base_pos)"),
("c08-valid","C08","shapefunctions/mapping.py","node_idx >= 0","node_idx >= -1"),
("c08-valid2","C08","shapefunctions/mapping.py","node_idx < jnp.array(grid_size)","node_idx <= jnp.array(grid_size)"),
("c08-grad","C08","shapefunctions/mapping.py","grad = jnp.where(is_valid, grad, 0.0)","grad = grad"),
("c08-mesh","C08","grid/grid.py","self.position_mesh.reshape(-1, self.dim)","jnp.swapaxes(self.position_mesh,0,1).reshape(-1, self.dim)"),
("c08-ravel","C08","shapefunctions/mapping.py","mode=\"clip\"","mode=\"clip\", order=\"F\""),
]
