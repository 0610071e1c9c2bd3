G="utils/generate_body.py"
M=[
("ceil","C26",G,"jnp.ceil(bounds_max / cell_size)","jnp.floor(bounds_max / cell_size)"),
("start","C26",G,"jnp.floor(bounds_min / cell_size)","jnp.round(bounds_min / cell_size)"),
("lin","C26",G,"jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]","jnp.linspace(0, 1, pts_per_dim + 1)[:-1]"),
("lin2","C26",G,"jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]","jnp.linspace(0, 1, pts_per_dim + 2)[1:-1]"),
("cube","C26",G,"ppc ** (1 / dim)","ppc ** (1 / 2)"),
("leq","C26",G,"dists < 0.0","dists <= 0.0"),
("tol","C26",G,"dists < 0.0","dists < 0.05"),
("abs","C26",G,"dists < 0.0","dists < -0.01 * cell_size if cell_size is not None else dists < 0.0"),
("subkey","C26",G,"            subkey, (num_particles, dim)","            subkey, (num_particles, 1)"),
("key0","C26",G,"key, subkey = jax.random.split(key)","key, subkey = jax.random.split(jax.random.PRNGKey(0))"),
("maxv","C26",G,"minval=bounds_min, maxval=bounds_max","minval=0.0, maxval=bounds_max - bounds_min"),
("rot","C26",G,"center_of_mass=center_of_mass, rotation=rotation","center_of_mass=center_of_mass"),
("mid","C26",G,"(bounds_min + bounds_max) / 2.0","(bounds_max - bounds_min) / 2.0"),
("normal","C26",G,"""jax.random.uniform(
            subkey, (num_particles, dim), minval=bounds_min, maxval=bounds_max
        )""","bounds_min + (bounds_max-bounds_min)*jax.random.normal(subkey, (num_particles, dim))"),
("refwhere","C26",G,"candidate_point_stack[mask]","candidate_point_stack[jnp.where(mask)[0]]"),
("refnz","C26",G,"candidate_point_stack[mask]","jnp.compress(mask, candidate_point_stack, axis=0)"),
("reforder","C26",G,"grid_origins_flat[:, None, :] + offsets[None, :, :] * cell_size","grid_origins_flat[None, :, :] + offsets[:, None, :] * cell_size"),
("refneg","C26",G,"mask = dists < 0.0","mask = ~(dists >= 0.0)"),
("refneg2","C26",G,"mask = dists < 0.0","mask = jnp.logical_not(0.0 <= dists)"),
]
